// Curves made from other curves, surfaces of revolution (property C17).
#include "curves.h"
#include <gbs/curves>
#include <gbs/surfaces>
using namespace vh;
using namespace gbs;
template <class T, size_t d> struct Node
{
    std::shared_ptr<Curve<T, d>> c;
    std::string j;
    T lo, hi;
    int ord = 3;      // highest derivative available
    bool ext = false; // prolonged: no bounds
    bool strict = true; // leaving the bounds is an error
};
template <class T> T dyc(Rng &g, T a, T b, int n = 64) { return a + (b - a) * T(g.in(0, n)) / T(n); }

template <class T, size_t d> Node<T, d> base(Rng &g, int p)
{
    static const double len[] = {1, 2, 0.5, 4};
    T a = T(g.in(-3, 3)), b = a + T(len[g.in(0, 3)]);
    bool rat = g.coin(1, 3);
    auto k = rand_knots<T>(g, p, g.in(0, 3), a, b, p);
    Node<T, d> n;
    n.lo = a; n.hi = b;
    if (rat)
    {
        BSCurveRational<T, d> c(rand_poles<T, d + 1>(g, k.size() - p - 1, true), k, p);
        n.j = Obj()("t", "bs").raw("c", curve_json(c, true)).str();
        n.c = std::make_shared<BSCurveRational<T, d>>(c);
    }
    else
    {
        BSCurve<T, d> c(rand_poles<T, d>(g, k.size() - p - 1, false), k, p);
        n.j = Obj()("t", "bs").raw("c", curve_json(c, false)).str();
        n.c = std::make_shared<BSCurve<T, d>>(c);
    }
    return n;
}
template <class T> BSCfunction<T> func(Rng &g, T a, T b, T vlo, T vhi, std::string &j)
{
    int p = g.in(1, 4);
    auto k = rand_knots<T>(g, p, g.in(0, 2), a, b, std::max(1, p - 2));
    std::vector<T> P;
    for (size_t i = 0; i + p + 1 < k.size(); ++i) P.push_back(dyc(g, vlo, vhi));
    BSCfunction<T> f(P, k, p);
    j = curve_json(f.basisCurve(), false);
    return f;
}
template <class T, size_t d> Node<T, d> rev(const Node<T, d> &w)
{
    Node<T, d> n = w;
    n.c = std::make_shared<CurveReversed<T, d>>(w.c);
    n.j = Obj()("t", "rev").raw("w", w.j).str();
    return n;
}
template <class T, size_t d> Node<T, d> trim(Rng &g, const Node<T, d> &w)
{
    Node<T, d> n = w;
    int i = g.in(0, 6), k = g.in(i + 1, 8);
    n.lo = w.lo + (w.hi - w.lo) * T(i) / 8; n.hi = w.lo + (w.hi - w.lo) * T(k) / 8;
    n.c = std::make_shared<CurveTrimmed<T, d>>(w.c, n.lo, n.hi);
    n.j = Obj()("t", "trim").raw("w", w.j)("a", n.lo)("b", n.hi).str();
    n.strict = true;
    return n;
}
template <class T, size_t d> Node<T, d> comp(const std::vector<Node<T, d>> &ws)
{
    Node<T, d> n;
    std::vector<std::shared_ptr<Curve<T, d>>> v;
    Arr a;
    n.lo = n.hi = ws[0].lo;
    for (auto &w : ws) { v.push_back(w.c); a.add(w.j); n.hi += w.hi - w.lo; n.ord = std::min(n.ord, w.ord); }
    n.strict = ws.front().strict && ws.back().strict;
    n.c = std::make_shared<CurveComposite<T, d>>(v);
    n.j = Obj()("t", "comp").raw("ws", a.str()).str();
    return n;
}
template <class T, size_t d> Node<T, d> ext(const Node<T, d> &w, bool cl)
{
    Node<T, d> n = w;
    n.c = std::make_shared<CurveExtended<T, d>>(w.c, cl);
    n.j = Obj()("t", "ext").raw("w", w.j)("cl", cl).str();
    n.ext = true;
    n.strict = false;
    return n;
}
template <class T, size_t d> Node<T, d> rep(Rng &g, const Node<T, d> &w)
{
    Node<T, d> n = w;
    std::string fj;
    n.lo = T(g.in(-2, 2)); n.hi = n.lo + T(g.in(1, 2));
    T e = (w.hi - w.lo) / 64;
    auto f = func<T>(g, n.lo, n.hi, w.lo + e, w.hi - e, fj);
    n.c = std::make_shared<CurveReparametrized<T, d>>(w.c, f);
    n.j = Obj()("t", "rep").raw("w", w.j).raw("f", fj).str();
    n.ord = std::min(2, w.ord);
    n.strict = true;
    return n;
}
template <class T> Node<T, 3> ons(Rng &g, const Node<T, 2> &w)
{
    Node<T, 3> n;
    int p = g.in(1, 3), q = g.in(1, 3);
    auto ku = rand_knots<T>(g, p, g.in(0, 2), T(-64), T(64), 1), kv = rand_knots<T>(g, q, g.in(0, 2), T(-64), T(64), 1);
    size_t np = (ku.size() - p - 1) * (kv.size() - q - 1);
    if (g.coin(1, 4))
    {
        BSSurfaceRational<T, 3> s(rand_poles<T, 4>(g, np, true), ku, kv, p, q);
        n.c = std::make_shared<CurveOnSurface<T, 3>>(w.c, std::make_shared<BSSurfaceRational<T, 3>>(s));
        n.j = Obj()("t", "ons").raw("w", w.j).raw("s", surf_json(s, true)).str();
    }
    else
    {
        BSSurface<T, 3> s(rand_poles<T, 3>(g, np, false), ku, kv, p, q);
        n.c = std::make_shared<CurveOnSurface<T, 3>>(w.c, std::make_shared<BSSurface<T, 3>>(s));
        n.j = Obj()("t", "ons").raw("w", w.j).raw("s", surf_json(s, false)).str();
    }
    n.lo = w.lo; n.hi = w.hi; n.strict = w.strict;
    n.ord = std::min(2, w.ord);
    return n;
}
template <class T> Node<T, 2> off2(Rng &g, const Node<T, 2> &w)
{
    Node<T, 2> n = w;
    std::string fj;
    auto f = func<T>(g, w.lo, w.hi, T(-2), T(2), fj);
    n.c = std::make_shared<CurveOffset2D<T, BSCfunction<T>>>(w.c, f);
    n.j = Obj()("t", "off2").raw("w", w.j).raw("f", fj).str();
    n.ord = w.ord - 1;
    return n;
}
template <class T> Node<T, 3> off3(Rng &g, const Node<T, 3> &w)
{
    Node<T, 3> n = w;
    std::string fj;
    std::array<T, 3> D{T(g.in(-3, 3)), T(g.in(-3, 3)), T(g.in(1, 3))};
    auto f = func<T>(g, w.lo, w.hi, T(-2), T(2), fj);
    n.c = std::make_shared<CurveOffset3D<T, BSCfunction<T>>>(w.c, f, D);
    n.j = Obj()("t", "off3").raw("w", w.j).raw("f", fj)("d", D).str();
    n.ord = w.ord - 1;
    return n;
}
template <class T, size_t d> std::string line_json(const Line<T, d> &l) { return Obj()("t", "line")("o", l.getAx()[0])("d", l.getAx()[1]).str(); }
template <class C> std::string circ_json(const C &c) { return Obj()("t", "circ")("c", c.getC())("z", c.getZ())("x", c.getX()).str(); }

template <class T, size_t d> void events(Rng &g, const Node<T, d> &n, Arr &ev, int m = 5)
{
    auto val = [&](T u) {
        Obj e;
        Arr r;
        std::string x = guard([&] { for (int o = 0; o <= std::min(2, n.ord); ++o) r.add(num(n.c->value(u, o))); });
        e("op", x.empty() ? "val" : "fail")("u", u).raw("r", r.str())("x", x);
        ev.add(e);
    };
    Obj b;
    b("op", n.ext ? "nobounds" : "bounds")("r", n.c->bounds());
    ev.add(b);
    ev.add(Obj()("op", "ends")("ext", n.ext).raw("r", n.ext ? "[]" : "[" + num(n.c->begin()) + "," + num(n.c->end()) + "]"));
    val(n.lo); val(n.hi);
    for (int i = 0; i < m; ++i) val(dyc(g, n.lo, n.hi, 64));
    for (int i = 0; i < 2; ++i) val(n.lo + (n.hi - n.lo) * T(g.in(1, 9999)) / T(10000));
    if (n.ext) { for (T x : {n.lo - T(0.5), n.hi + T(0.25), n.lo - T(g.in(1, 8)), n.hi + T(g.in(1, 8))}) val(x); }
    else if (n.strict)
        for (T x : {n.lo - T(0.25), n.hi + T(0.25)})
        {
            std::string k = guard([&] { (void)n.c->value(x, g.in(0, 1)); });
            ev.add(Obj()("op", "oob")("u", x)("r", k));
        }
}
template <class T, size_t d> std::string finish(size_t id, const char *kind, Rng &g, const Node<T, d> &n)
{
    Arr ev;
    events(g, n, ev);
    return Obj()("id", id)("kind", kind)("fl", sizeof(T) == 4).raw("w", n.j).raw("ev", ev.str()).str();
}
// a stack of derivations
template <class T> std::string stack(size_t id, Rng &g, const std::vector<std::string> &ops)
{
    auto b2 = [&](const std::string &o) { return base<T, 2>(g, o.back() == 'q' ? g.in(2, 4) : 1); };
    Node<T, 2> w = b2(ops[0]);
    Node<T, 3> s;
    bool in3 = false;
    for (size_t i = 1; i < ops.size(); ++i)
    {
        auto &o = ops[i];
        auto both = [&](auto &x) {
            if (o == "rev") x = rev(x);
            else if (o == "trim") x = trim(g, x);
            else if (o == "extl") x = ext(x, false);
            else if (o == "extc") x = ext(x, true);
            else if (o == "rep") x = rep(g, x);
        };
        if (in3) { both(s); continue; }
        both(w);
        if (o == "compq" || o == "compl") { std::vector<Node<T, 2>> v{w, b2(o)}; w = comp(v); }
        else if (o == "precomp") { std::vector<Node<T, 2>> v{b2("l"), w, b2("q")}; w = comp(v); }
        else if (o == "ons") { s = ons(g, w); in3 = true; }
        else if (o == "off2") w = off2(g, w);
    }
    return in3 ? finish(id, "stack", g, s) : finish(id, "stack", g, w);
}
// an orthogonal pair of vectors, of any length
template <class T> void frame(Rng &g, std::array<T, 3> &z, std::array<T, 3> &x)
{
    do { for (auto &q : z) q = T(g.in(-3, 3)); } while (z == std::array<T, 3>{});
    std::array<T, 3> r;
    do { for (auto &q : r) q = T(g.in(-3, 3)); x = cross(z, r); } while (x == std::array<T, 3>{});
}
template <class T> std::string conic(size_t id, Rng &g)
{
    Arr ev;
    std::array<T, 3> C{T(g.dy(-4, 4, 4)), T(g.dy(-4, 4, 4)), T(g.dy(-4, 4, 4))}, z, x;
    frame(g, z, x);
    if (g.coin(1, 3)) { z = {}; z[g.in(0, 2)] = g.coin() ? T(1) : T(-2); x = {}; for (int i = 0; i < 3; ++i) if (z[i] == 0) x[i] = T(g.in(1, 3)); }
    T r = T(g.dy(1, 5, 8));
    auto pts = [&](auto &c, auto json, int m) {
        Arr p;
        for (int i = 0; i < m; ++i)
        {
            T u = g.coin(1, 4) ? T(0) : T(g.dy(-10, 10, 16));
            Arr q;
            for (int o = 0; o <= 4; ++o) q.add(num(c.value(u, o)));
            p.add(Obj()("u", u).raw("r", q.str()));
        }
        return Obj().raw("w", json).raw("p", p.str());
    };
    {
        Circle3d<T> a(r, ax1<T, 3>{C, z});
        auto e = pts(a, circ_json(a), 4);
        ev.add(e("op", "circle")("C", C)("Z", z)("rr", r)("R", a.getR())("b", a.bounds()).raw("X", "[]"));
        Circle3d<T> b(r, ax2<T, 3>{C, z, x});
        T r2 = T(g.dy(1, 9, 8));
        auto e2 = pts(b, circ_json(b), 4);
        ev.add(e2("op", "circle")("C", C)("Z", z)("rr", r)("R", b.getR())("b", b.bounds())("X", x));
        b.setR(r2);
        auto e3 = pts(b, circ_json(b), 3);
        ev.add(e3("op", "circle")("C", C)("Z", z)("rr", r2)("R", b.getR())("b", b.bounds())("X", x));
        std::array<T, 2> C2{C[0], C[1]};
        Circle2d<T> c(r, C2);
        std::string j = Obj()("t", "circ")("c", c.getC())("z", std::array<T, 2>{0, 1})("x", c.getX()).str();
        auto e4 = pts(c, j, 4);
        ev.add(e4("op", "circle2")("C", C2)("rr", r)("R", c.getR())("b", c.bounds()));
    }
    auto line = [&]<size_t d>(std::array<T, d> p, std::array<T, d> q, std::integral_constant<size_t, d>) {
        Line<T, d> l(p, q), l2(ax1<T, d>{p, q - p});
        for (auto &k : {l, l2})
        {
            auto e = pts(k, line_json(k), 3);
            ev.add(e("op", "line")("p0", p)("q", q)("b", k.bounds()));
        }
    };
    line(C, C + z, std::integral_constant<size_t, 3>{});
    std::array<T, 2> a{C[0], C[1]}, b{C[0] + T(g.in(1, 4)), C[2]};
    line(a, b, std::integral_constant<size_t, 2>{});
    return Obj()("id", id)("kind", "conic")("fl", sizeof(T) == 4).raw("ev", ev.str()).str();
}
template <class T> std::string revol(size_t id, Rng &g)
{
    auto w = base<T, 2>(g, g.in(1, 4));
    if (g.coin(1, 3)) w = rev(w);
    else if (g.coin(1, 3)) w = trim(g, w);
    std::array<T, 3> O{}, z, x;
    frame(g, z, x);
    if (g.coin(3, 4)) for (auto &q : O) q = T(g.dy(-4, 4, 4));
    T a1 = T(g.dy(-4, 4, 16)), a2 = a1 + T(g.dy(1, 6, 16));
    bool full = g.coin(1, 4);
    SurfaceOfRevolution<T> s = full ? SurfaceOfRevolution<T>(w.c, ax2<T, 3>{O, z, x}) : SurfaceOfRevolution<T>(w.c, ax2<T, 3>{O, z, x}, a1, a2);
    Arr ev;
    ev.add(Obj()("op", "sbounds")("full", full)("a", std::array<T, 4>{w.lo, w.hi, a1, a2})("r", s.bounds()));
    for (int i = 0; i < 10; ++i)
    {
        T u = g.coin() ? dyc(g, w.lo, w.hi) : w.lo + (w.hi - w.lo) * T(g.in(1, 999)) / T(1000), v = T(g.dy(-7, 7, 32));
        size_t du = i < 3 ? 0 : g.in(0, 2), dv = i < 3 ? 0 : g.in(0, 5);
        ev.add(Obj()("op", "sval")("u", u)("v", v)("du", du)("dv", dv)("r", s.value(u, v, du, dv)));
    }
    return Obj()("id", id)("kind", "revol")("fl", sizeof(T) == 4).raw("w", w.j)("o", O)("z", z)("x", x).raw("ev", ev.str()).str();
}
template <class T> std::string space(size_t id, Rng &g)
{
    auto w = base<T, 3>(g, g.in(2, 4));
    for (int i = g.in(0, 2); i > 0; --i)
    {
        int k = g.in(0, 2);
        if (k == 0) w = rev(w);
        else if (k == 1) w = trim(g, w);
        else { std::vector<Node<T, 3>> v{w, base<T, 3>(g, g.in(1, 3))}; w = comp(v); }
    }
    if (g.coin(2, 3)) w = off3(g, w);
    else if (g.coin()) w = rep(g, w);
    if (g.coin(1, 4)) w = rev(w);
    if (g.coin(1, 4)) w = ext(w, g.coin());
    return finish(id, "space", g, w);
}
template <class T> std::string job(size_t id, uint64_t sd, const std::vector<std::string> *ops)
{
    Rng g(sd);
    if (ops) return stack<T>(id, g, *ops);
    switch (g.in(0, 4))
    {
    case 0: return conic<T>(id, g);
    case 1: return revol<T>(id, g);
    case 2: return space<T>(id, g);
    default:
    {
        std::vector<std::string> o{g.coin() ? "q" : "l"};
        bool one = false;
        for (int k = g.in(1, 4); k > 0; --k)
        {
            static const char *N[] = {"rev", "trim", "compq", "compl", "precomp", "rep", "ons", "off2"};
            std::string x = N[g.in(0, one ? 4 : 7)];
            if (x == "rep" || x == "ons" || x == "off2") one = true;
            if (o.end() != std::find(o.begin(), o.end(), "ons") && (x[0] == 'c' || x[0] == 'p')) x = "rev";
            o.push_back(x);
        }
        if (g.coin(1, 3)) o.push_back(g.coin() ? "extl" : "extc");
        return stack<T>(id, g, o);
    }
    }
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    auto scn = read_scn(a.scn);
    run_jobs(a.out.c_str(), scn.size() + a.n, [&](size_t i) -> std::string {
        uint64_t sd = a.seed * 1000003 + i;
        auto *o = i < scn.size() ? &scn[i] : nullptr;
        return sd % 4 == 0 ? job<float>(i, sd, o) : job<double>(i, sd, o);
    });
}
