// Closest points and projections (property C20).
#include "curves.h"
#include <gbs/gbslib.h>
#include <gbs/extrema.h>
#include <gbs/bscanalysis.h>
#include <gbs/curveline.h>
using namespace vh;
using namespace gbs;
static const nlopt::algorithm ALG[] = {nlopt::LN_COBYLA, nlopt::LN_COBYLA, nlopt::LD_LBFGS, nlopt::LD_LBFGS};
static const char *ALGN[] = {"cobyla", "cobyla", "lbfgs", "lbfgs"};
template <class T, size_t d, bool rat> auto a_curve(Rng &g, int pmin = 1)
{
    using C = std::conditional_t<rat, BSCurveRational<T, d>, BSCurve<T, d>>;
    int p = g.in(pmin, 4);
    auto k = rand_knots<T>(g, p, g.in(0, 3), T(g.in(-1, 0)), T(g.in(1, 3)), std::max(1, p - 1));
    return C(rand_poles<T, d + rat>(g, k.size() - p - 1, rat), k, p);
}
template <class T, bool rat> auto a_surf(Rng &g, int pmin = 1)
{
    using S = std::conditional_t<rat, BSSurfaceRational<T, 3>, BSSurface<T, 3>>;
    int p = g.in(pmin, 3), q = g.in(pmin, 3);
    auto ku = rand_knots<T>(g, p, g.in(0, 1), T(g.in(-1, 0)), T(g.in(1, 2)), 1), kv = rand_knots<T>(g, q, g.in(0, 1), T(g.in(-1, 0)), T(g.in(1, 2)), 1);
    return S(rand_poles<T, 3 + rat>(g, (ku.size() - p - 1) * (kv.size() - q - 1), rat), ku, kv, p, q);
}
template <class T, size_t d> std::array<T, d> a_point(Rng &g)
{
    std::array<T, d> x;
    int s = g.coin(1, 5) ? 40 : 4;
    for (auto &y : x) y = T(g.dy(-s, s, 8));
    return x;
}
template <class B> auto at(Rng &g, B lo, B hi) { return lo + (hi - lo) * B(g.in(0, 32)) / B(32); }
// a search from given parameters (gs) or by bracketing (ns), with solver a
Obj ev_(const char *op, int a, const std::string &x) { return Obj()("op", op)("alg", ALGN[a])("x", x); }
template <class T, size_t d, bool rat> void curve_point(Rng &g, Arr &ev, const auto &c, const std::array<T, d> &P)
{
    int a = g.in(0, 3);
    std::vector<T> r, gs;
    std::vector<size_t> ns;
    auto [lo, hi] = c.bounds();
    int m = g.in(0, 3);
    auto x = guard([&] {
        std::array<T, 2> q;
        if (m == 0) { ns = {30}; q = extrema_curve_point<T, d>(c, P, T(1e-6), ALG[a]); }
        else if (m == 1) { ns = {30}; a = 0; q = extrema_curve_point<T, d>(c, P, T(1e-6)); }
        else if (m == 2) { ns = {size_t(g.in(2, 12))}; q = extrema_curve_point<T, d>(c, P, T(1e-6), ALG[a], ns[0]); }
        else { gs = {at(g, lo, hi)}; q = extrema_curve_point<T, d>(c, P, gs[0], T(1e-6), ALG[a]); }
        r = {q[0], q[1]};
    });
    ev.add(ev_("cp", a, x)("P", P)("gs", gs)("ns", ns)("r", r).raw("c", curve_json(c, rat)));
}
template <class T, bool rat> void surf_point(Rng &g, Arr &ev, const auto &s, const std::array<T, 3> &P)
{
    int a = g.in(0, 3);
    std::vector<T> r, gs;
    std::vector<size_t> ns;
    auto [u1, u2, v1, v2] = s.bounds();
    int m = g.in(0, 2);
    auto x = guard([&] {
        std::array<T, 3> q;
        if (m == 0) { ns = {30, 30}; q = extrema_surf_pnt<T, 3>(s, P, T(1e-6), ALG[a]); }
        else if (m == 1) { ns = {size_t(g.in(2, 9)), size_t(g.in(2, 9))}; q = extrema_surf_pnt<T, 3>(s, P, T(1e-6), ALG[a], ns[0], ns[1]); }
        else { gs = {at(g, u1, u2), at(g, v1, v2)}; q = extrema_surf_pnt<T, 3>(s, P, gs[0], gs[1], T(1e-6), ALG[a]); }
        r = {q[0], q[1], q[2]};
    });
    ev.add(ev_("sp", a, x)("P", P)("gs", gs)("ns", ns)("r", r).raw("s", surf_json(s, rat)));
}
template <class T, size_t d, bool ra, bool rb> void curve_curve(Rng &g, Arr &ev, const auto &c, const auto &e)
{
    int a = g.in(0, 3);
    std::vector<T> r, gs;
    std::vector<size_t> ns;
    auto [u1, u2] = c.bounds();
    auto [v1, v2] = e.bounds();
    int m = g.in(0, 2);
    const Curve<T, d> &C = c, &E = e;
    auto x = guard([&] {
        std::array<T, 3> q;
        if (m == 0) { ns = {30, 30}; q = extrema_curve_curve<T, d>(C, E, T(1e-6), ALG[a]); }
        else if (m == 1) { ns = {size_t(g.in(2, 9)), size_t(g.in(2, 9))}; q = extrema_curve_curve<T, d>(C, E, T(1e-6), ALG[a], ns[0], ns[1]); }
        else { gs = {at(g, u1, u2), at(g, v1, v2)}; q = extrema_curve_curve<T, d>(C, E, gs[0], gs[1], T(1e-6), ALG[a]); }
        r = {q[0], q[1], q[2]};
    });
    ev.add(ev_("cc", a, x)("gs", gs)("ns", ns)("r", r).raw("c", curve_json(c, ra)).raw("e", curve_json(e, rb)));
}
template <class T, bool ra, bool rb> void surf_curve(Rng &g, Arr &ev, const auto &s, const auto &c)
{
    int a = g.coin(1, 6) ? 0 : 2; // the first is slow in three unknowns
    std::vector<T> r, gs;
    std::vector<size_t> ns;
    auto [u1, u2, v1, v2] = s.bounds();
    auto [w1, w2] = c.bounds();
    int m = g.in(0, 1);
    auto x = guard([&] {
        std::array<T, 4> q;
        if (m == 0) { ns = {size_t(g.in(2, 7)), size_t(g.in(2, 7)), size_t(g.in(2, 7))}; q = extrema_surf_curve<T, 3>(s, c, T(1e-6), ALG[a], ns[0], ns[1], ns[2]); }
        else { gs = {at(g, u1, u2), at(g, v1, v2), at(g, w1, w2)}; q = extrema_surf_curve<T, 3>(s, c, gs[2], gs[0], gs[1], T(1e-6), ALG[a]); }
        r = {q[0], q[1], q[2], q[3]};
    });
    ev.add(ev_("sc", a, x)("gs", gs)("ns", ns)("r", r).raw("s", surf_json(s, ra)).raw("c", curve_json(c, rb)));
}
template <class T, size_t d, bool rat> void curve_cases(Rng &g, Arr &ev)
{
    auto c = a_curve<T, d, rat>(g);
    auto [lo, hi] = c.bounds();
    curve_point<T, d, rat>(g, ev, c, a_point<T, d>(g));
    curve_point<T, d, rat>(g, ev, c, c.value(at(g, lo, hi)));            // on it
    auto e = a_curve<T, d, false>(g, 2);
    curve_curve<T, d, rat, false>(g, ev, c, e);
    // crossing curves
    auto Q = e.poles();
    auto y = c.value(at(g, lo, hi)), z = e.value(at(g, e.bounds()[0], e.bounds()[1]));
    for (auto &q : Q) for (size_t i = 0; i < d; ++i) q[i] += y[i] - z[i];
    BSCurve<T, d> f(Q, e.knotsFlats(), e.degree());
    curve_curve<T, d, rat, false>(g, ev, c, f);
    // a list of curves, in order
    if (g.coin(1, 3))
    {
        std::vector<std::shared_ptr<Curve<T, d>>> l{std::make_shared<BSCurve<T, d>>(e), std::make_shared<BSCurve<T, d>>(f), std::make_shared<BSCurve<T, d>>(a_curve<T, d, false>(g, 2))};
        size_t n = g.in(2, 9), m = g.in(2, 9);
        auto rs = extrema_curve_curve_lst<T, d>(c, l.begin(), l.end(), T(1e-6), nlopt::LN_COBYLA, n, m);
        Arr A, B;
        for (auto &r : rs) A.add(num(r));
        for (auto &p : l) B.add(num(extrema_curve_curve<T, d>(c, *p, T(1e-6), nlopt::LN_COBYLA, n, m)));
        ev.add(Obj()("op", "lst").raw("r", A.str()).raw("one", B.str()));
    }
    // distances of a set of points to a fitted curve
    if constexpr (!rat)
    {
        std::vector<std::array<T, d>> pts;
        for (int i = 0; i <= 12; ++i) { auto q = c.value(lo + (hi - lo) * T(i) / 12); for (auto &t : q) t += T(g.dy(-1, 1, 8)) / 64; pts.push_back(q); }
        auto [um, dm, da] = dev_from_points<T, d>(pts, c);
        // the search of each point starts where that of the previous one ended
        Arr rs;
        T u0 = c.knotsFlats().front();
        for (auto &q : pts) { auto r = extrema_curve_point<T, d>(c, q, u0, extrema_tol<T>); u0 = r[0]; rs.add(num(r)); }
        ev.add(Obj()("op", "dev")("u", um)("max", dm)("avg", da).raw("rs", rs.str()).raw("pts", [&] { Arr P; for (auto &q : pts) P.add(num(q)); return P.str(); }()).raw("c", curve_json(c, false)));
    }
}
template <class T, bool rat> void surf_cases(Rng &g, Arr &ev)
{
    auto s = a_surf<T, rat>(g);
    auto [u1, u2, v1, v2] = s.bounds();
    surf_point<T, rat>(g, ev, s, a_point<T, 3>(g));
    surf_point<T, rat>(g, ev, s, s.value(at(g, u1, u2), at(g, v1, v2)));
    auto c = a_curve<T, 3, false>(g, 2);
    surf_curve<T, rat, false>(g, ev, s, c);
    auto Q = c.poles();
    auto y = s.value(at(g, u1, u2), at(g, v1, v2)), z = c.value(at(g, c.bounds()[0], c.bounds()[1]));
    for (auto &q : Q) for (size_t i = 0; i < 3; ++i) q[i] += y[i] - z[i];
    surf_curve<T, rat, false>(g, ev, s, BSCurve<T, 3>(Q, c.knotsFlats(), c.degree()));
}
template <class T> void lines(Rng &g, Arr &ev)
{
    for (int i = 0; i < 4; ++i)
    {
        auto pt = [&] { return std::array<T, 2>{T(g.dy(-4, 4, 8)), T(g.dy(-4, 4, 8))}; };
        auto a = pt(), b = pt(), c = pt(), d = pt();
        T det_ = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0]);
        if (std::abs(det_) < T(0.25) ) continue;
        Line<T, 2> l(a, b), m(c, d);
        auto r = extrema_curve_curve(l, m);
        ev.add(Obj()("op", "ll")("a", a)("b", b)("c", c)("d", d)("r", r));
    }
}
// the searches of the specification
template <class T> void scenario(Rng &g, Arr &ev, const std::vector<std::string> &s)
{
    // cp kind x y n
    int k = std::stoi(s[1]);
    std::array<T, 2> P{T(std::stoi(s[2])), T(std::stoi(s[3]))};
    size_t n = std::stoi(s[4]);
    static const std::vector<std::vector<std::array<T, 2>>> poles{{{0, 0}, {4, 0}}, {{0, 0}, {2, 4}, {4, 0}}, {{0, 0}, {4, 0}, {4, 4}}, {{0, 0}, {4, 4}, {0, 4}, {4, 0}}};
    static const std::vector<std::vector<T>> knots{{0, 0, 1, 1}, {0, 0, 0, 1, 1, 1}, {0, 0, T(.5), 1, 1}, {0, 0, 0, 0, 1, 1, 1, 1}};
    static const int deg[] = {1, 2, 1, 3};
    BSCurve<T, 2> c(poles[k - 1], knots[k - 1], deg[k - 1]);
    for (int a = 1; a < 4; ++a)
    {
        std::vector<T> r;
        auto x = guard([&] { auto q = extrema_curve_point<T, 2>(c, P, T(1e-6), ALG[a], n); r = {q[0], q[1]}; });
        ev.add(ev_("cp", a, x)("P", P)("gs", std::vector<T>{})("ns", std::vector<size_t>{n})("r", r).raw("c", curve_json(c, false)));
    }
}
template <class T> std::string job(size_t id, uint64_t sd, const std::vector<std::string> *sc)
{
    Rng g(sd);
    Arr ev;
    size_t d = 2;
    if (sc) scenario<T>(g, ev, *sc);
    else
        switch (g.in(0, 4))
        {
        case 0: curve_cases<T, 2, false>(g, ev); break;
        case 1: curve_cases<T, 3, false>(g, ev); d = 3; break;
        case 2: curve_cases<T, 3, true>(g, ev); d = 3; break;
        case 3: surf_cases<T, false>(g, ev); lines<T>(g, ev); d = 3; break;
        default: surf_cases<T, true>(g, ev); d = 3;
        }
    return Obj()("id", id)("kind", "closest")("fl", sizeof(T) == 4)("d", d).raw("ev", ev.str()).str();
}
// the distance returned, alone
template <class T> std::string distances(size_t id, size_t k)
{
    Arr ev;
    BSCurve<T, 3> c({{0, 0, 0}, {4, 0, 0}}, {0, 0, 1, 1}, 1), e({{0, 0, 3}, {4, 0, 3}}, {0, 0, 1, 1}, 1);
    BSSurface<T, 3> s({{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {4, 4, 0}}, {0, 0, 1, 1}, {0, 0, 1, 1}, 1, 1);
    std::array<T, 3> P{1, 1, 3};
    switch (k)
    {
    case 0: ev.add(Obj()("op", "dist")("what", "extrema_curve_point")("want", std::sqrt(T(10)))("d", extrema_curve_point<T, 3>(c, P, T(1e-6))[1])); break;
    case 1: ev.add(Obj()("op", "dist")("what", "extrema_surf_pnt")("want", T(3))("d", extrema_surf_pnt<T, 3>(s, P, T(1e-6))[2])); break;
    case 2: ev.add(Obj()("op", "dist")("what", "extrema_curve_curve")("want", T(3))("d", extrema_curve_curve<T, 3>(c, e, T(1e-6))[2])); break;
    case 3: ev.add(Obj()("op", "dist")("what", "extrema_surf_curve")("want", T(3))("d", extrema_surf_curve<T, 3>(s, e, T(1e-6), nlopt::LN_COBYLA, 3, 3, 3)[3])); break;
    }
    return Obj()("id", id)("kind", "distances")("fl", false)("d", 3).raw("ev", ev.str()).str();
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    auto scn = read_scn(a.scn);
    run_jobs(a.out.c_str(), scn.size() + a.n + 4, [&](size_t i) -> std::string {
        uint64_t sd = a.seed * 1000003 + i;
        if (i >= scn.size() + a.n) return distances<double>(i, i - scn.size() - a.n);
        return job<double>(i, sd, i < scn.size() ? &scn[i] : nullptr);
    });
}
