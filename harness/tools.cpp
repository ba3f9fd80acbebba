// Tools combining curves / surfaces: unify, join, split, extend, connect, add a dimension (property C06).
#include "curves.h"
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>
using namespace vh;
using namespace gbs;
template <class T, size_t dim, bool rat> struct CT;
template <class T, size_t dim> struct CT<T, dim, false> { using type = BSCurve<T, dim>; };
template <class T, size_t dim> struct CT<T, dim, true> { using type = BSCurveRational<T, dim>; };
template <class T, size_t dim, bool rat> struct ST;
template <class T, size_t dim> struct ST<T, dim, false> { using type = BSSurface<T, dim>; };
template <class T, size_t dim> struct ST<T, dim, true> { using type = BSSurfaceRational<T, dim>; };

// one direction: bounds and interior knots on eighths of the range
struct KV { size_t p; double a, b; std::vector<std::pair<int, int>> in; };
template <class T> std::vector<T> flat(const KV &v)
{
    std::vector<T> k(v.p + 1, T(v.a));
    for (auto [x, m] : v.in) for (int i = 0; i < m; ++i) k.push_back(T(v.a + (v.b - v.a) * x / 8.));
    for (size_t i = 0; i <= v.p; ++i) k.push_back(T(v.b));
    return k;
}
inline KV rand_kv(Rng &g, size_t p, bool unit)
{
    KV v{p, 0., 1., {}};
    if (!unit) switch (g.in(0, 6)) { case 0: v.a = -3, v.b = 5; break; case 1: v.a = 2, v.b = 2.5; break; case 2: v.b = 3; break; case 3: v.a = 1, v.b = 8; break; case 4: v.a = 0.1, v.b = 0.7; break; default: break; }
    for (int x = 1; x < 8; ++x) if (g.coin(1, 4)) v.in.push_back({x, g.coin() ? 1 : g.in(1, int(p))});
    return v;
}
template <class T, size_t dim, bool rat> auto mk(Rng &g, const KV &v)
{
    auto k = flat<T>(v);
    return typename CT<T, dim, rat>::type(rand_poles<T, dim + rat>(g, k.size() - v.p - 1, rat), k, v.p);
}
template <class C> std::string list_json(const C &l, bool rat)
{
    Arr a;
    for (auto &c : l) a.add(curve_json(c, rat));
    return a.str();
}
template <class T, size_t dim, bool rat>
std::string curves(size_t id, Rng &g, const std::vector<KV> &kvs)
{
    using C = typename CT<T, dim, rat>::type;
    Obj o;
    o("id", id)("kind", "curves")("fl", sizeof(T) == 4);
    Arr ev;
    std::vector<C> cs;
    for (auto &v : kvs) cs.push_back(mk<T, dim, rat>(g, v));
    auto in = [&](const char *op, const std::vector<C> &l) { Obj e; e("op", op).raw("c", list_json(l, rat)); return e; };
    // definitions made compatible
    {
        auto infos = [&] { std::vector<BSCurveInfo<T, dim + rat>> r; for (auto &c : cs) r.push_back(c.info()); return r; };
        auto back = [&](const std::vector<BSCurveInfo<T, dim + rat>> &v) { std::vector<C> r; for (auto &[P, k, p] : v) r.push_back(C(P, k, p)); return r; };
        auto i1 = infos();
        unify_degree(i1);
        ev.add(in("udeg", cs).raw("r", list_json(back(i1), rat)));
        unify_knots(i1);
        ev.add(in("unify", cs).raw("r", list_json(back(i1), rat)));
        auto l = cs;
        unify_curves_degree(l);
        ev.add(in("udeg", cs).raw("r", list_json(l, rat)));
        unify_curves_knots(l);
        ev.add(in("unify", cs).raw("r", list_json(l, rat)));
        if constexpr (!rat)
        {
            auto i2 = get_bs_curves_info<T, dim>(cs.begin(), cs.end());
            unify_degree(i2); unify_knots(i2);
            ev.add(in("unify", cs).raw("r", list_json(back(i2), rat)));
        }
    }
    // (joining curves of float does not compile in gbs)
    // chained joins: the next curve is moved so that it starts where the previous one ends
    if constexpr (sizeof(T) == 8)
    {
        C acc = cs[0];
        for (size_t i = 1; i < cs.size(); ++i)
        {
            auto P = cs[i].poles();
            auto e = acc.poles().back();
            // rigid move of the poles in the Euclidean space
            std::array<T, dim> d;
            for (size_t c = 0; c < dim; ++c)
            {
                T we = T(1), wp = T(1);
                if constexpr (rat) { we = e[dim]; wp = P[0][dim]; }
                d[c] = e[c] / we - P[0][c] / wp;
            }
            for (auto &x : P) for (size_t c = 0; c < dim; ++c) { T w = T(1); if constexpr (rat) w = x[dim]; x[c] += d[c] * w; }
            C nx(P, cs[i].knotsFlats(), cs[i].degree());
            Obj ej = in("join", {acc, nx});
            std::vector<C> r;
            if (g.coin()) r = {C(join(acc, nx))};
            else
            {
                const BSCurveGeneral<T, dim, rat> *p1 = &acc, *p2 = &nx;
                r = {C(*join(p1, p2))};
            }
            ev.add(ej.raw("r", list_json(r, rat)));
            acc = r[0];
            if (acc.degree() * acc.poles().size() > 200) break;
        }
    }
    // split by two trims and join: the curve again
    if constexpr (sizeof(T) == 8)
    {
        auto &c = cs.back();
        auto [a, b] = c.bounds();
        T u = a + (b - a) * T(g.in(1, 7)) / 8;
        for (T x : c.knotsFlats()) if (std::abs(x - u) < T(1e-4)) u = x;
        C c1 = c, c2 = c;
        c1.trim(a, u); c2.trim(u, b);
        ev.add(in("rejoin", {c})("u", u).raw("r", list_json(std::vector<C>{C(join(c1, c2))}, rat)));
    }
    // one more dimension
    if constexpr (dim < 3)
    {
        T val = g.coin(1, 4) ? T(0) : T(g.dy(-4, 4, 4));
        auto r = add_dimension(cs[0], val);
        ev.add(in("adddim", {cs[0]})("val", val).raw("r", "[" + curve_json(r, rat) + "]"));
    }
    // extensions
    if constexpr (sizeof(T) == 8) for (auto &c : cs)
    {
        T n1 = norm(c.begin(1)), n2 = norm(c.end(1));
        if (n1 < T(0.5) || n2 < T(0.5) || n1 > 200 || n2 > 200) continue;
        bool at_end = g.coin(), nat = g.coin();
        std::optional<size_t> mc;
        if (g.coin(1, 3)) mc = size_t(g.in(1, 3));
        int mci = mc ? int(*mc) : -1;
        auto e = at_end ? c.end() : c.begin();
        std::array<T, dim> pt;
        for (size_t x = 0; x < dim; ++x) pt[x] = e[x] + T(g.dy(-3, 3, 4)) + (x == 0 ? T(0.75) : T(0));
        if (norm(pt - e) < T(0.5)) pt[0] += T(2);
        auto x1 = extended_to_point(c, pt, at_end, nat, mc);
        ev.add(in("extend", {c})("end", at_end)("nat", nat)("mc", mci)("pt", pt).raw("r", "[" + curve_json(x1, rat) + "]"));
        T l = T(g.in(2, 12)) / 4;
        auto x2 = extended(c, l, at_end, false, nat, mc);
        ev.add(in("extendl", {c})("end", at_end)("nat", nat)("mc", mci)("l", l).raw("r", "[" + curve_json(x2, rat) + "]"));
        break;
    }
    // connections
    if constexpr (sizeof(T) == 8) if (cs.size() > 1)
    {
        auto &c1 = cs[0]; auto &c2 = cs[1];
        auto ok = [&](const auto &c, T u) { for (size_t d = 1; d <= 3; ++d) if (norm(c.value(u, d)) > 2000) return false; return norm(c.value(u, 1)) > 0.5; };
        T u1 = c1.bounds()[1], u2 = c2.bounds()[0];
        if (ok(c1, u1) && ok(c2, u2) && distance(c1.end(), c2.begin()) > 0.5)
        {
            auto put = [&](const BSCurve<T, dim> &r, int n) { ev.add(in("connect", {c1, c2})("n", n).raw("r", "[" + curve_json(r, false) + "]")); };
            put(c2_connect(c1, c2), 2);
            put(c3_connect(c1, c2), 3);
            put(c2_connect(c1, c2, T(0.5), T(1.)), 2);
            size_t n = g.in(1, 3);
            put(cn_connect(c1, c2, T(g.in(2, 8)) / 2, 2 * n + 1, n), int(n));
            put(cn_connect(c1, c2, T(2), 2 * n + 3, n), int(n));
            if constexpr (dim == 3) { if (norm(c1.end(1) - c2.begin(1)) > 0.5) put(c2_connect(c1, c2, T(0.5)), 2); }
        }
    }
    o.raw("ev", ev.str());
    return o.str();
}
template <class T, size_t dim, bool rat> auto mks(Rng &g, const KV &u, const KV &v)
{
    auto ku = flat<T>(u), kv = flat<T>(v);
    return typename ST<T, dim, rat>::type(rand_poles<T, dim + rat>(g, (ku.size() - u.p - 1) * (kv.size() - v.p - 1), rat), ku, kv, u.p, v.p);
}
template <class T, size_t dim, bool rat>
std::string surfaces(size_t id, Rng &g)
{
    using S = typename ST<T, dim, rat>::type;
    Obj o;
    o("id", id)("kind", "surfs")("fl", sizeof(T) == 4);
    Arr ev;
    auto slist = [&](const std::vector<S> &l) { Arr a; for (auto &s : l) a.add(surf_json(s, rat)); return a.str(); };
    auto in = [&](const char *op, const std::vector<S> &l) { Obj e; e("op", op).raw("s", slist(l)); return e; };
    size_t p = g.in(1, 3), q = g.in(1, 3);
    if constexpr (!rat)
    {
        std::vector<S> ss;
        int n = g.in(2, 3);
        for (int i = 0; i < n; ++i) ss.push_back(mks<T, dim, rat>(g, rand_kv(g, p, false), rand_kv(g, q, false)));
        std::vector<BSSurfaceInfo<T, dim>> inf;
        for (auto &s : ss) inf.push_back(s.info());
        unify_knots(inf);
        std::vector<S> r;
        for (auto &[P, ku, kv, dp, dq] : inf) r.push_back(S(flatten_poles(P), ku, kv, dp, dq));
        ev.add(in("sunify", ss).raw("r", slist(r)));
    }
    KV v = rand_kv(g, q, false);
    S s1 = mks<T, dim, rat>(g, rand_kv(g, p, false), v);
    // split, join again
    {
        bool dv = g.coin();
        auto b = s1.bounds();
        T a0 = b[2 * dv], b0 = b[2 * dv + 1];
        T x = a0 + (b0 - a0) * T(g.in(1, 7)) / 8;
        for (T y : dv ? s1.knotsFlatsV() : s1.knotsFlatsU()) if (std::abs(x - y) < T(1e-4)) x = y;
        auto pr = dv ? split_v(s1, x) : split_u(s1, x);
        ev.add(in("split", {s1})("dir", int(dv))("x", x).raw("r", slist({pr.first, pr.second})));
        if constexpr (sizeof(T) == 8)
            if (!dv) ev.add(in("srejoin", {s1})("x", x).raw("r", slist({S(join(pr.first, pr.second))})));
    }
    if constexpr (sizeof(T) == 8)
    {
        // join with a surface of other U degree and knots starting on the last row
        KV u2 = rand_kv(g, g.in(1, 4), false);
        S s2 = mks<T, dim, rat>(g, u2, v);
        auto P = s2.poles();
        size_t n1 = s1.nPolesU(), n2 = s2.nPolesU();
        for (size_t j = 0; j < s1.nPolesV(); ++j) P[j * n2] = s1.poles()[j * n1 + n1 - 1];
        S s3(P, s2.knotsFlatsU(), s2.knotsFlatsV(), s2.degreeU(), s2.degreeV());
        ev.add(in("sjoin", {s1, s3}).raw("r", slist({S(join(s1, s3))})));
        // V knots that differ are refused
        KV w = v; w.b += 1;
        S s4 = mks<T, dim, rat>(g, u2, w);
        std::string r = guard([&] { (void)join(s1, s4); });
        ev.add(Obj()("op", "sjoinbad")("r", r));
    }
    if constexpr (dim < 3)
    {
        T val = g.coin(1, 4) ? T(0) : T(g.dy(-4, 4, 4));
        auto r = add_dimension(s1, val);
        ev.add(in("sadddim", {s1})("val", val).raw("r", "[" + surf_json(r, rat) + "]"));
    }
    if constexpr (!rat && sizeof(T) == 8 && dim == 3)
    {
        // a graph-like surface so that the tangents do not vanish
        KV u = rand_kv(g, g.in(1, 3), false), w = rand_kv(g, g.in(1, 3), false);
        S s = mks<T, dim, rat>(g, u, w);
        auto P = s.poles();
        for (size_t j = 0; j < s.nPolesV(); ++j) for (size_t i = 0; i < s.nPolesU(); ++i)
            { auto &x = P[i + j * s.nPolesU()]; x[0] = T(i) * 2 + x[0] / 16; x[1] = T(j) * 2 + x[1] / 16; x[2] /= 8; }
        S t(P, s.knotsFlatsU(), s.knotsFlatsV(), s.degreeU(), s.degreeV());
        bool nat = g.coin();
        std::optional<size_t> mc;
        if (g.coin(1, 3)) mc = size_t(g.in(1, 2));
        int loc = g.in(0, 3);
        static const SurfaceBound L[] = {SurfaceBound::U_START, SurfaceBound::U_END, SurfaceBound::V_START, SurfaceBound::V_END};
        T l = T(g.in(2, 8)) / 4;
        if (loc == 1 && g.coin()) ev.add(in("sextend", {t})("loc", loc)("mc", mc ? int(*mc) : -1).raw("r", slist({S(extended(t, l, nat, mc))})));
        else ev.add(in("sextend", {t})("loc", loc)("mc", mc ? int(*mc) : -1).raw("r", slist({S(extended(t, l, L[loc], nat, mc))})));
        // to a curve
        BSCurve<T, dim> iso = t.isoU(t.bounds()[1]);
        auto Q = iso.poles();
        for (auto &x : Q) { x[0] += 2; x[2] += T(g.dy(-1, 1, 8)); }
        BSCurve<T, dim> tgt(Q, iso.knotsFlats(), iso.degree());
        ev.add(in("sextcrv", {t})("mc", mc ? int(*mc) : -1).raw("c", "[" + curve_json(tgt, false) + "]").raw("r", slist({S(extended_to_curve(t, tgt, nat, mc))})));
    }
    o.raw("ev", ev.str());
    return o.str();
}
template <class T, bool rat> std::string dispc(size_t id, Rng &g, size_t dim, const std::vector<KV> &k)
{
    switch (dim) { case 1: return curves<T, 1, rat>(id, g, k); case 2: return curves<T, 2, rat>(id, g, k); default: return curves<T, 3, rat>(id, g, k); }
}
template <class T, bool rat> std::string disps(size_t id, Rng &g, size_t dim)
{
    switch (dim) { case 1: return surfaces<T, 1, rat>(id, g); case 2: return surfaces<T, 2, rat>(id, g); default: return surfaces<T, 3, rat>(id, g); }
}
int main(int argc, char **argv)
{
    Args A(argc, argv);
    auto scn = read_scn(A.scn);
    size_t n0 = scn.size();
    run_jobs(A.out.c_str(), n0 + A.n, [&](size_t id) {
        Rng g(A.seed * 1000003 + id);
        bool rat = g.coin(), fl = g.coin(1, 6);
        size_t dim = g.in(1, 3);
        std::vector<KV> k;
        if (id < n0)
        {   // p m4 m6 lo hi, per curve
            auto &t = scn[id];
            for (size_t i = 0; i + 4 < t.size(); i += 5)
            {
                KV v{std::stoul(t[i]), std::stod(t[i + 3]), std::stod(t[i + 4]), {}};
                if (int m = std::stoi(t[i + 1])) v.in.push_back({4, m});
                if (int m = std::stoi(t[i + 2])) v.in.push_back({6, m});
                k.push_back(v);
            }
        }
        else if (g.coin(1, 3))
        {
            if (fl) return rat ? disps<float, true>(id, g, dim) : disps<float, false>(id, g, dim);
            return rat ? disps<double, true>(id, g, dim) : disps<double, false>(id, g, dim);
        }
        else
        {
            int n = g.in(2, 3);
            for (int i = 0; i < n; ++i) k.push_back(rand_kv(g, g.in(1, 4), g.coin(1, 4)));
        }
        if (fl) return rat ? dispc<float, true>(id, g, dim, k) : dispc<float, false>(id, g, dim, k);
        return rat ? dispc<double, true>(id, g, dim, k) : dispc<double, false>(id, g, dim, k);
    });
}
