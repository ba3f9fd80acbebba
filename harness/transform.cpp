// Moves of points, curves and surfaces (property C18).
#include "curves.h"
#include <gbs/gbslib.h>
#include <gbs/transform.h>
using namespace vh;
using namespace gbs;
template <class T, size_t n> std::array<T, n> vec(Rng &g, int amp, int den = 8)
{
    std::array<T, n> v;
    for (auto &x : v) x = T(g.dy(-amp, amp, den));
    return v;
}
template <class T> std::array<T, 3> dir(Rng &g)
{
    std::array<T, 3> z;
    do { for (auto &q : z) q = T(g.in(-3, 3)); } while (z == std::array<T, 3>{});
    if (g.coin(1, 4)) { z = {}; z[g.in(0, 2)] = g.coin() ? T(1) : T(-2); }
    return z;
}
template <class T> ax2<T, 3> frame(Rng &g)
{
    std::array<T, 3> z = dir<T>(g), x, r;
    do { for (auto &q : r) q = T(g.in(-3, 3)); x = cross(z, r); } while (x == std::array<T, 3>{});
    return ax2<T, 3>{vec<T, 3>(g, 4), z, x};
}
template <class T> T angle(Rng &g) { return g.coin(1, 4) ? T(std::acos(-1.) / 2 * g.in(-4, 4)) : T(g.dy(-7, 7, 16)); }
template <class T> T factor(Rng &g) { static const double S[] = {2, -1, 0.5, 3, -0.25, 1.5, 1, 0.75}; return T(S[g.in(0, 7)]); }
template <class T, size_t d, class A> std::string frames_json(const A &f)
{
    Arr a;
    for (auto &x : f) a.add(num(x));
    return a.str();
}
// a move applied to the points of G by `apply`, which is told how; the description of the move
template <class T, size_t d, class G> Obj move(Rng &g, const std::string &k, G &geo, bool surf)
{
    Obj e;
    e("op", "move")("k", k);
    bool copy = g.coin();
    e("copy", copy);
    std::string before = "[]";
    // through transformed (which leaves its argument alone), or in place
    auto by = [&](auto f) {
        if (!copy) { transform(geo, f); return; }
        auto q = transformed(geo, f);
        before = num(geo.poles());
        geo = q;
    };
    auto in_place = [&](auto f) {
        if (!copy) { f(geo); return; }
        auto q{geo};
        f(q);
        before = num(geo.poles());
        geo = q;
    };
    auto v = vec<T, d>(g, 4);
    if (g.coin(1, 6)) v = {};
    if (k == "translate")
    {
        e("v", v);
        if constexpr (requires { translate(geo, v); }) { if (g.coin(2, 3)) in_place([&](auto &q) { translate(q, v); }); else by([v](const auto &x) { return translated(x, v); }); }
        else by([v](const auto &x) { return translated(x, v); });
    }
    else if (k == "scale")
    {
        T s = factor<T>(g);
        bool o = g.coin(3, 4);
        if (!o) v = {};
        e("s", s)("o", v);
        if (!o) in_place([&](auto &q) { scale(q, s); });
        else in_place([&](auto &q) { scale(q, s, v); });
    }
    else if (k == "scale1")
    {
        T s = factor<T>(g);
        size_t i = g.in(0, d - 1);
        e("s", s)("o", v)("i", i);
        if constexpr (requires { scale(geo, s, i, v); }) in_place([&](auto &q) { scale(q, s, i, v); });
        else by([=](const auto &x) { return scaled(x, s, i, v); });
    }
    else if constexpr (d == 2)
    {
        T a = angle<T>(g);
        e("a", a);
        if (k == "rotate") in_place([&](auto &q) { rotate(q, a); });
        else { e("o", v); by([=](const auto &x) { auto y{x}; rotate(y, a, v); return y; }); }
    }
    else
    {
        if (k == "rotate3")
        {
            T a = angle<T>(g);
            auto ax = dir<T>(g);
            e("a", a)("ax", ax);
            in_place([&](auto &q) { rotate(q, a, ax); });
        }
        else
        {
            auto f = frame<T>(g), h = frame<T>(g);
            if (g.coin(1, 5)) h = f;
            bool one = k == "frame", mat = g.coin();
            e.raw("f", frames_json<T, d>(f));
            if (!one) e.raw("g", frames_json<T, d>(h));
            if (mat)
            {
                Matrix4<T> M = one ? build_trf_matrix(f) : build_trf_matrix(f, h);
                by([M](const auto &x) { return transformed(x, M); });
            }
            else
            {
                auto [L, P] = one ? build_trf_loc_and_matrix(f) : build_trf_loc_and_matrix(f, h);
                Vector3<T> l = L;
                Matrix3<T> m = P;
                by([l, m](const auto &x) { return transformed(x, l, m); });
            }
        }
    }
    e.raw("before", before);
    return e;
}
static const char *K2[] = {"translate", "rotate", "rotateO", "scale", "scale1"};
static const char *K3[] = {"translate", "rotate3", "frame", "frames", "scale", "scale1"};
template <class T, size_t d, class G> std::string history(size_t id, Rng &g, G geo, bool rat, bool surf, std::vector<std::string> ops)
{
    auto js = [&] { if constexpr (requires { geo.knotsFlatsU(); }) return surf_json(geo, rat); else return curve_json(geo, rat); };
    std::string j = js();
    Arr ev;
    if (ops.empty()) for (int i = g.in(1, 6); i > 0; --i) ops.push_back(d == 2 ? K2[g.in(0, 4)] : K3[g.in(0, 5)]);
    for (auto &o : ops) ev.add(move<T, d>(g, o, geo, surf).raw("c", js()));
    for (int i = 0; i < 6; ++i)
    {
        auto at = [&](const auto &k) { T a = k.front(), b = k.back(); return i < 2 ? (i ? a : b) : a + (b - a) * T(g.in(0, 64)) / T(64); };
        if constexpr (requires { geo.knotsFlatsU(); }) { T u = at(geo.knotsFlatsU()), v = at(geo.knotsFlatsV()); ev.add(Obj()("op", "sval")("u", u)("v", v)("r", geo.value(u, v))); }
        else { T u = at(geo.knotsFlats()); ev.add(Obj()("op", "val")("u", u)("r", geo.value(u))); }
    }
    return Obj()("id", id)("kind", "moves")("fl", sizeof(T) == 4)("d", d)("surf", surf).raw("c", j).raw("ev", ev.str()).str();
}
template <class T, size_t d> std::string curve(size_t id, Rng &g, bool rat, const std::vector<std::string> &ops)
{
    int p = g.in(1, 4);
    auto k = rand_knots<T>(g, p, g.in(0, 3), T(g.in(-2, 2)), T(3), p);
    size_t n = k.size() - p - 1;
    if (rat) return history<T, d>(id, g, BSCurveRational<T, d>(rand_poles<T, d + 1>(g, n, true), k, p), true, false, ops);
    return history<T, d>(id, g, BSCurve<T, d>(rand_poles<T, d>(g, n, false), k, p), false, false, ops);
}
template <class T> std::string surface(size_t id, Rng &g, bool rat, const std::vector<std::string> &ops)
{
    int p = g.in(1, 3), q = g.in(1, 3);
    auto ku = rand_knots<T>(g, p, g.in(0, 2), T(0), T(2), p), kv = rand_knots<T>(g, q, g.in(0, 2), T(-1), T(1), q);
    size_t n = (ku.size() - p - 1) * (kv.size() - q - 1);
    if (rat) return history<T, 3>(id, g, BSSurfaceRational<T, 3>(rand_poles<T, 4>(g, n, true), ku, kv, p, q), true, true, ops);
    return history<T, 3>(id, g, BSSurface<T, 3>(rand_poles<T, 3>(g, n, false), ku, kv, p, q), false, true, ops);
}
// the functions of single points
template <class T, size_t d> std::string points(size_t id, Rng &g)
{
    Arr ev;
    auto put = [&](Obj e, const auto &x, const auto &in, const auto &out) { ev.add(e("op", "point")("x", x)("in", in)("out", out)); };
    for (int i = 0; i < 4; ++i)
    {
        auto x = vec<T, d>(g, 8), v = vec<T, d>(g, 4);
        T s = factor<T>(g), a = angle<T>(g);
        size_t c = g.in(0, d - 1);
        { auto y{x}; translate(y, v); put(Obj()("k", "translate")("v", v), x, y, translated(x, v)); }
        { auto y{x}; scale(y, s, v); put(Obj()("k", "scale")("s", s)("o", v), x, y, scaled(x, s, v)); }
        { auto y{x}; scale(y, s); put(Obj()("k", "scale")("s", s)("o", std::array<T, d>{}), x, y, scaled(x, s)); }
        { auto y{x}; scale(y, s, c, v); put(Obj()("k", "scale1")("s", s)("o", v)("i", c), x, y, scaled(x, s, c, v)); }
        { auto y{x}; scale(y, s, c); put(Obj()("k", "scale1")("s", s)("o", std::array<T, d>{})("i", c), x, y, scaled(x, s, c)); }
        {
            std::array<T, d + 1> h;
            T w = T(g.in(1, 8)) / 4;
            for (size_t k = 0; k < d; ++k) h[k] = x[k] * w;
            h[d] = w;
            auto y{h};
            translate(y, v);
            ev.add(Obj()("op", "hpoint")("k", "translate")("v", v)("x", h)("in", y));
        }
        if constexpr (d == 2)
        {
            { auto y{x}; rotate(y, a); put(Obj()("k", "rotate")("a", a), x, y, rotated(x, a)); }
            { auto y{x}; rotate(y, a, v); put(Obj()("k", "rotateO")("a", a)("o", v), x, y, rotated<T, 2>(x, a, v)); }
        }
        else
        {
            auto ax = dir<T>(g);
            { auto y{x}; rotate(y, a, ax); put(Obj()("k", "rotate3")("a", a)("ax", ax), x, y, rotated(x, a, ax)); }
            auto f = frame<T>(g), h = frame<T>(g);
            { auto M = build_trf_matrix(f); auto y{x}; transform(y, M); put(Obj()("k", "frame").raw("f", frames_json<T, d>(f)), x, y, transformed(x, M)); }
            { auto M = build_trf_matrix(f, h); auto y{x}; transform(y, M); put(Obj()("k", "frames").raw("f", frames_json<T, d>(f)).raw("g", frames_json<T, d>(h)), x, y, transformed(x, M)); }
            { auto [L, P] = build_trf_loc_and_matrix(f, h); auto y{x}; transform(y, L, P); put(Obj()("k", "frames").raw("f", frames_json<T, d>(f)).raw("g", frames_json<T, d>(h)), x, y, transformed(x, L, P)); }
        }
    }
    return Obj()("id", id)("kind", "points")("fl", sizeof(T) == 4)("d", d)("surf", false).raw("ev", ev.str()).str();
}
template <class T> std::string job(size_t id, uint64_t sd, const std::vector<std::string> *sc)
{
    Rng g(sd);
    std::string k;
    std::vector<std::string> ops;
    static const char *G[] = {"c2", "r2", "c3", "r3", "s3", "rs3", "p2", "p3"};
    if (sc) { k = (*sc)[0]; ops.assign(sc->begin() + 1, sc->end()); }
    else k = G[g.in(0, 7)];
    if (k == "p2") return points<T, 2>(id, g);
    if (k == "p3") return points<T, 3>(id, g);
    if (k == "c2" || k == "r2") return curve<T, 2>(id, g, k == "r2", ops);
    if (k == "c3" || k == "r3") return curve<T, 3>(id, g, k == "r3", ops);
    return surface<T>(id, g, k == "rs3", ops);
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    auto scn = read_scn(a.scn);
    run_jobs(a.out.c_str(), scn.size() + a.n, [&](size_t i) -> std::string {
        uint64_t sd = a.seed * 1000003 + i;
        auto *o = i < scn.size() ? &scn[i] : nullptr;
        return sd % 4 == 0 ? job<float>(i, sd, o) : job<double>(i, sd, o);
    });
}
