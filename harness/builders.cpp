// Segments, ellipses, derivative and integral curves, lofts and Gordon surfaces (property C19).
#include "curves.h"
#include <gbs/gbslib.h>
#include <gbs/bscbuild.h>
#include <gbs/bssbuild.h>
#include <gbs/bsstools.h>
using namespace vh;
using namespace gbs;
template <class T, size_t d> std::string secs_json(const auto &l, bool rat)
{
    Arr a;
    for (auto &c : l) a.add(curve_json(c, rat));
    return a.str();
}
// a section around height z: knots on a coarse grid, ranges with exact affine maps onto each other
template <class T, size_t d> std::vector<T> sec_knots(Rng &g, int p, int ni)
{
    static const double lo[] = {0, 0, -1, 0}, hi[] = {1, 2, 1, 4};
    int r = g.in(0, 3);
    T a = T(lo[r]), b = T(hi[r]);
    std::vector<T> k(p + 1, a);
    for (int i = 1; i <= 3; ++i) if (ni & (1 << (i - 1))) for (int m = g.in(1, std::max(1, p - 1)); m > 0; --m) k.push_back(a + (b - a) * T(i) / T(4));
    k.insert(k.end(), p + 1, b);
    return k;
}
template <class C, class T, size_t d, bool rat> C section(Rng &g, int p, int ni, T z, bool flat)
{
    auto k = sec_knots<T, d>(g, p, ni);
    size_t n = k.size() - p - 1;
    std::vector<std::array<T, d>> P(n);
    for (size_t i = 0; i < n; ++i)
    {
        P[i][0] = T(4 * i) / T(n - 1) + T(g.dy(-1, 1, 8)) / 2;
        P[i][1] = T(g.dy(-1, 1, 8)) + (d == 2 ? z : T(0));
        if constexpr (d == 3) P[i][2] = z + (flat ? T(0) : T(g.dy(-1, 1, 8)) / 4);
    }
    if constexpr (rat)
    {
        static const double W[] = {0.5, 1, 2, 1.5, 1, 0.75};
        std::vector<std::array<T, d + 1>> Q(n);
        for (size_t i = 0; i < n; ++i)
        {
            T w = T(W[g.in(0, 5)]);
            for (size_t c = 0; c < d; ++c) Q[i][c] = P[i][c] * w;
            Q[i][d] = w;
        }
        return C(Q, k, p);
    }
    else return C(P, k, p);
}
template <class T, size_t d, bool rat> std::string lofts(size_t id, Rng &g, const std::string &mode, int q, const std::vector<int> &kinds)
{
    using C = std::conditional_t<rat, BSCurveRational<T, d>, BSCurve<T, d>>;
    size_t n = kinds.size();
    bool approx_ = mode == "approx", spine_ = mode == "spine";
    std::vector<C> cs;
    T z = 0;
    bool even = approx_ || g.coin();
    std::vector<T> zs;
    for (size_t j = 0; j < n; ++j)
    {
        zs.push_back(z);
        int k = kinds[j];
        cs.push_back(section<C, T, d, rat>(g, k == 1 ? 1 : k == 2 ? 2 : g.in(2, 4), k == 1 ? 0 : k == 2 ? 0 : g.in(0, 7), z, approx_));
        z += even ? T(2) : T(g.in(2, 9)) / 2;
    }
    // sections meeting in a point
    if (!spine_ && !approx_ && g.coin(1, 6))
        for (size_t j = 0; j < n; ++j)
        {
            auto P = cs[j].poles();
            std::array<T, d + rat> x{};
            x.back() = T(1);
            x[0] = T(-1);
            P[0] = x;
            cs[j].movePoles(P);
        }
    std::vector<T> v(n), kv;
    for (size_t j = 0; j < n; ++j) v[j] = j ? v[j - 1] + T(g.in(1, 8)) / 4 : T(g.in(-2, 2));
    Arr ev;
    Obj e;
    e("op", "loft")("m", mode)("q", q)("rat", rat);
    std::string sj = "[]", x, spj = "[]";
    std::vector<T> tg;
    auto put = [&](const auto &s) { sj = surf_json(s, requires { s.polesProjected(); } ? rat : rat); };
    x = guard([&] {
        if (mode == "v") { auto s = loft(cs, v, size_t(q)); put(s); }
        else if (mode == "flat")
        {
            size_t qq = std::min<size_t>(q, n - 1);
            kv = build_simple_mult_flat_knots(v, qq);
            auto s = loft_generic<T, d>(cs, v, kv, qq);
            put(s);
        }
        else if (mode == "auto") { auto s = loft(cs, size_t(q)); put(s); }
        else if (mode == "list")
        {
            std::list<C> l(cs.begin(), cs.end());
            if (g.coin()) { auto s = loft(l, v, size_t(q)); put(s); }
            else if (n == 2) { auto s = loft({cs[0], cs[1]}, v, size_t(q)); put(s); }
            else if (n == 3) { auto s = loft({cs[0], cs[1], cs[2]}, v, size_t(q)); put(s); }
            else { auto s = loft(l, v, size_t(q)); put(s); }
        }
        else if (mode == "ptr")
        {
            if constexpr (!rat)
            {
                std::vector<std::shared_ptr<Curve<T, d>>> l;
                for (auto &c : cs) l.push_back(std::make_shared<C>(c));
                auto s = loft(l, v, size_t(q));
                put(s);
            }
        }
        else
        {
            // a spine through the planes of the sections, beside them
            std::vector<std::array<T, d>> sp;
            for (int i = 0; i < 3; ++i)
            {
                std::array<T, d> y{};
                y[0] = spine_ && i == 1 ? T(3) : T(2);
                if constexpr (d == 3) { y[1] = T(spine_ ? 2 : 0); y[2] = T(i) / 2 * zs.back(); }
                else y[1] = T(i) / 2 * zs.back();
                sp.push_back(y);
            }
            BSCurve<T, d> S = spine_ ? BSCurve<T, d>(sp, std::vector<T>{0, 0, 0, 1, 1, 1}, 2) : BSCurve<T, d>(std::vector<std::array<T, d>>{sp[0], sp[2]}, std::vector<T>{0, 0, 1, 1}, 1);
            spj = curve_json(S, false);
            std::list<BSCurveGeneral<T, d, rat> *> l;
            for (auto &c : cs) l.push_back(&c);
            for (auto &c : cs) tg.push_back(T(extrema_curve_curve<T, d>(S, c, extrema_tol<T>)[0]));
            if (spine_) { auto s = loft<T, d, rat>(l, S, size_t(q)); put(s); }
            else { auto s = loft_approx<T, d, rat>(l, S, size_t(q)); put(s); }
        }
    });
    e("x", x)("v", v)("kv", kv).raw("secs", secs_json<T, d>(cs, rat)).raw("s", sj).raw("sp", spj)("tg", tg);
    ev.add(e);
    return Obj()("id", id)("kind", "loft")("fl", sizeof(T) == 4)("d", d).raw("ev", ev.str()).str();
}
// a network of curves drawn on a surface, and sets that do not cross
template <class T> std::string gordons(size_t id, Rng &g)
{
    int p = g.in(1, 3), q = g.in(1, 3), a = g.in(2, 4), b = g.in(2, 4);
    auto ku = rand_knots<T>(g, p, g.in(0, 1), T(0), T(2), 1), kv = rand_knots<T>(g, q, g.in(0, 1), T(0), T(1), 1);
    size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1;
    std::vector<std::array<T, 3>> P(nu * nv);
    for (size_t j = 0; j < nv; ++j)
        for (size_t i = 0; i < nu; ++i) P[i + nu * j] = {T(4 * i) / T(nu - 1) + T(g.dy(-1, 1, 8)) / 4, T(4 * j) / T(nv - 1) + T(g.dy(-1, 1, 8)) / 4, T(g.dy(-2, 2, 8))};
    BSSurface<T, 3> S(P, ku, kv, p, q);
    std::vector<T> U, V;
    for (int i = 0; i < a; ++i) U.push_back(T(2) * i / (a - 1) + (i > 0 && i < a - 1 ? T(g.in(-3, 3)) / 16 : T(0)));
    for (int j = 0; j < b; ++j) V.push_back(T(1) * j / (b - 1) + (j > 0 && j < b - 1 ? T(g.in(-3, 3)) / 32 : T(0)));
    std::vector<BSCurve<T, 3>> cu, cv;
    for (auto x : V) cu.push_back(S.isoV(x));
    for (auto x : U) cv.push_back(S.isoU(x));
    // the curves need not have the same degree
    if (g.coin(1, 3)) cu[g.in(0, b - 1)].increaseDegree();
    if (g.coin(1, 3)) cv[g.in(0, a - 1)].increaseDegree();
    bool cross_ = !g.coin(1, 5);
    if (!cross_)
    {
        auto &c = g.coin() ? cu[g.in(0, b - 1)] : cv[g.in(0, a - 1)];
        auto Q = c.poles();
        for (auto &y : Q) y[2] += T(8);
        c.movePoles(Q);
    }
    Arr ev;
    Obj e;
    std::string sj = "[]";
    std::string x = guard([&] { auto G = gordon<T, 3>(cu.begin(), cu.end(), cv.begin(), cv.end()); sj = surf_json(G, false); });
    e("op", "gordon")("x", x)("cross", cross_)("U", U)("V", V).raw("cu", secs_json<T, 3>(cu, false)).raw("cv", secs_json<T, 3>(cv, false)).raw("s", sj);
    ev.add(e);
    return Obj()("id", id)("kind", "gordon")("fl", sizeof(T) == 4)("d", 3).raw("ev", ev.str()).str();
}
template <class T, size_t d> std::string simple_(size_t id, Rng &g)
{
    Arr ev;
    auto pt = [&](int amp) { std::array<T, d> x; for (auto &y : x) y = T(g.dy(-amp, amp, 8)); return x; };
    {
        auto a = pt(4), b = pt(4);
        if (a == b) b[0] += 1;
        bool nrm = g.coin();
        auto s = nrm ? build_segment(a, b, true) : g.coin() ? build_segment(a, b) : build_segment(a, b, false);
        ev.add(Obj()("op", "segment")("a", a)("b", b)("n", nrm).raw("c", curve_json(s, false)));
    }
    if (g.coin(1, 4)) // one section is not enough along a spine
    {
        BSCurve<T, d> c({pt(4), pt(4)}, {0, 0, 1, 1}, 1), sp({pt(4), pt(4)}, {0, 0, 1, 1}, 1);
        std::list<BSCurve<T, d>> l{c};
        ev.add(Obj()("op", "refuse")("want", "length_error")("x", guard([&] { loft(l, sp, size_t(3)); })));
        ev.add(Obj()("op", "refuse")("want", "length_error")("x", guard([&] { loft_approx(l, sp, size_t(3)); })));
    }
    if constexpr (d >= 2)
    {
        auto c = g.coin(1, 4) ? std::array<T, d>{} : pt(4);
        T r1 = T(g.in(1, 40)) / 8, r2 = T(g.in(1, 40)) / 8;
        bool circ = g.coin(1, 3);
        if (circ) r2 = r1;
        auto E = circ ? build_circle(r1, c) : build_ellipse(r1, r2, c);
        std::vector<T> us;
        Arr r;
        for (int i = 0; i <= 16; ++i) us.push_back(T(i) / 16);
        for (auto u : us) r.add(num(E.value(u)));
        ev.add(Obj()("op", "ellipse")("c", c)("r1", r1)("r2", r2).raw("e", curve_json(E, true))("us", us).raw("r", r.str()));
    }
    {
        int p = g.in(1, 4);
        auto k = rand_knots<T>(g, p, g.in(0, 3), T(g.in(-2, 0)), T(g.in(1, 3)), std::max(1, p - 1));
        BSCurve<T, d> c(rand_poles<T, d>(g, k.size() - p - 1, false), k, p);
        auto x = pt(4);
        bool def = g.coin(1, 4);
        if (def) x = {};
        auto I = def ? build_integrate(c) : build_integrate(c, x);
        auto D = build_derivate(c);
        ev.add(Obj()("op", "der").raw("c", curve_json(c, false)).raw("r", curve_json(D, false)));
        ev.add(Obj()("op", "int")("x", x).raw("c", curve_json(c, false)).raw("r", curve_json(I, false)));
        auto II = build_derivate(I);
        ev.add(Obj()("op", "der").raw("c", curve_json(I, false)).raw("r", curve_json(II, false)));
    }
    return Obj()("id", id)("kind", "simple")("fl", sizeof(T) == 4)("d", d).raw("ev", ev.str()).str();
}
template <class T> std::string job(size_t id, uint64_t sd, const std::vector<std::string> *sc)
{
    Rng g(sd);
    if (sc)
    {
        std::vector<int> k;
        for (size_t i = 4; i < sc->size(); ++i) k.push_back(std::stoi((*sc)[i]));
        bool rat = (*sc)[3] == "1";
        if (rat) return lofts<T, 3, true>(id, g, (*sc)[1], std::stoi((*sc)[2]), k);
        return lofts<T, 3, false>(id, g, (*sc)[1], std::stoi((*sc)[2]), k);
    }
    switch (g.in(0, 4))
    {
    case 0: return simple_<T, 2>(id, g);
    case 1: return simple_<T, 3>(id, g);
    case 2:
    case 3:
    {
        static const char *M[] = {"v", "flat", "auto", "list", "ptr", "spine", "approx"};
        std::string m = M[g.in(0, 6)];
        bool rat = g.coin(1, 3) && m != "ptr";
        int q = g.in(1, 5), n = g.in(2, 5);
        if (m == "spine") { q = g.in(2, 4); n = g.in(3, 5); }
        std::vector<int> k;
        for (int i = 0; i < n; ++i) k.push_back(g.in(1, 3));
        if (rat) return g.coin(1, 4) ? lofts<T, 2, true>(id, g, m, q, k) : lofts<T, 3, true>(id, g, m, q, k);
        return g.coin(1, 4) ? lofts<T, 2, false>(id, g, m, q, k) : lofts<T, 3, false>(id, g, m, q, k);
    }
    default: return gordons<double>(id, g);
    }
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    auto scn = read_scn(a.scn);
    run_jobs(a.out.c_str(), scn.size() + a.n, [&](size_t i) -> std::string {
        uint64_t sd = a.seed * 1000003 + i;
        return job<double>(i, sd, i < scn.size() ? &scn[i] : nullptr);
    });
}
