// C09: interpolating surfaces.
#include "curves.h"
#include <gbs/bssinterp.h>
using namespace vh;
using namespace gbs;
static const char *MODES[] = {"equal", "chord", "centripetal"};
static KnotsCalcMode mode_of(int m) { return m == 0 ? KnotsCalcMode::EQUALLY_SPACED : m == 1 ? KnotsCalcMode::CHORD_LENGTH : KnotsCalcMode::CENTRIPETAL; }
template <class T> std::vector<T> params(Rng &g, size_t n)
{
    std::vector<T> u{T(g.coin() ? 0 : g.dy(-3, 3, 2))};
    for (size_t i = 1; i < n; ++i) u.push_back(u.back() + T(g.in(1, 5)) / T(4));
    return u;
}
template <class T, size_t dim> points_vector<T, dim> grid(Rng &g, size_t nu, size_t nv)
{
    points_vector<T, dim> Q(nu * nv);
    for (size_t j = 0; j < nv; ++j)
        for (size_t i = 0; i < nu; ++i)
        {
            auto &x = Q[i + nu * j];
            for (auto &c : x) c = T(g.dy(-3, 3, 8));
            x[0] = T(i) + T(g.dy(0, 1, 8)) / 4;
            if (dim > 1) x[1] = T(2 * j) + T(g.dy(0, 1, 8)) / 2;
            else x[0] += T(3 * j);
        }
    return Q;
}
template <class T, size_t dim> std::string job(size_t id, uint64_t seed)
{
    Rng g(seed * 1000003 + id);
    Arr ev;
    bool fl = std::is_same_v<T, float>;
    auto deg = [&] { return size_t(g.in(1, fl ? 3 : 5)); };
    switch (id % 3)
    {
    case 0:
    {
        size_t p = deg(), q = deg(), nu = p + g.in(1, 5), nv = q + g.in(1, 5);
        auto Q = grid<T, dim>(g, nu, nv);
        int m = g.in(0, 2);
        auto s = interpolate<T, dim>(Q, nv, p, q, mode_of(m));
        ev.add(Obj()("op", "sgrid")("p", p)("q", q)("nu", nu)("nv", nv)("mode", MODES[m])("Q", Q).raw("s", surf_json(s, false)));
        auto Qb = Q;
        Qb.pop_back();
        size_t nb = g.in(2, 6);
        std::string r = guard([&] { interpolate<T, dim>(Qb, nb, 1, 1, mode_of(m)); });
        if (Qb.size() % nb) ev.add(Obj()("op", "refuse")("want", "length_error")("r", r));
        break;
    }
    case 1:
    {
        size_t p = deg(), q = deg(), nu = p + g.in(1, 6), nv = q + g.in(1, 6);
        auto Q = grid<T, dim>(g, nu, nv);
        auto u = params<T>(g, nu), v = params<T>(g, nv);
        auto ku = build_simple_mult_flat_knots<T>(u, p), kv = build_simple_mult_flat_knots<T>(v, q);
        BSSurface<T, dim> s(build_poles<T, dim>(Q, ku, kv, u, v, p, q), ku, kv, p, q);
        ev.add(Obj()("op", "sgridu")("p", p)("q", q)("u", u)("v", v)("Q", Q).raw("s", surf_json(s, false)));
        auto Qb = Q;
        Qb.pop_back();
        ev.add(Obj()("op", "refuse")("want", "length_error")("r", guard([&] { build_poles<T, dim>(Qb, ku, kv, u, v, p, q); })));
        break;
    }
    case 2:
    {
        // tensor product of 1D data: (parameter, order)
        bool big = id % 9 == 2;
        size_t p = deg(), q = deg(), nu = big ? 11 : p + g.in(1, 4), nv = big ? 10 : q + g.in(1, 4);
        bool own = g.coin();
        std::array<T, 4> b{0, 1, 0, 1};
        if (g.coin(2, 3)) b = {T(g.dy(-2, 0, 2)), T(g.dy(1, 3, 2)), T(g.dy(-2, 0, 2)), T(g.dy(1, 3, 2))};
        size_t mu = 1, mv = 1;
        std::vector<T> ku, kv;
        if (own)
        {
            mu = g.in(1, std::min<int>(2, p)); mv = g.in(1, std::min<int>(2, q));
            nu = p + 1 + mu * g.in(0, 3); nv = q + 1 + mv * g.in(0, 3);
            ku = build_mult_flat_knots<T>(b[0], b[1], 2 + (nu - p - 1) / mu, p, mu);
            kv = build_mult_flat_knots<T>(b[2], b[3], 2 + (nv - q - 1) / mv, q, mv);
        }
        auto data = [&](std::vector<T> &k, size_t n, size_t deg_) {
            std::vector<std::pair<T, size_t>> D;
            if (k.empty())
            {
                std::vector<T> us = params<T>(g, n);
                // a repeated parameter now and then: value and first derivative
                for (size_t i = 1; i < n; ++i)
                    if (deg_ >= 3 && (i == 1 || us[i - 1] != us[i - 2]) && i != n - 1 && g.coin(1, 4)) us[i] = us[i - 1];
                k = build_simple_mult_flat_knots<T>(us, deg_);
                for (size_t i = 0; i < n; ++i) D.push_back({us[i], i && us[i] == us[i - 1] ? 1 : 0});
            }
            else // Greville abscissae
                for (size_t i = 0; i < n; ++i)
                {
                    T s = 0;
                    for (size_t j = 1; j <= deg_; ++j) s += k[i + j];
                    D.push_back({i == 0 ? k.front() : i == n - 1 ? k.back() : std::round(s / T(deg_) * 64) / 64, 0});
                }
            return D;
        };
        auto Du = data(ku, nu, p), Dv = data(kv, nv, q);
        std::vector<bss_constraint<T, dim>> C;
        for (auto [v, dv] : Dv)
            for (auto [u, du] : Du)
            {
                point<T, dim> x;
                for (auto &c : x) c = T(g.dy(-4, 4, 4));
                C.push_back({u, v, x, du, dv});
            }
        if (g.coin())
            for (size_t i = C.size() - 1; i > 0; --i) std::swap(C[i], C[g.next() % (i + 1)]);
        Arr cj;
        for (auto &[u, v, x, du, dv] : C) cj.add(Obj()("u", u)("v", v)("x", x)("du", du)("dv", dv));
        auto s = own ? interpolate<T, dim>(C, nv, p, q, b, {mu, mv}) : BSSurface<T, dim>(build_poles<T, dim>(C, ku, kv, p, q), ku, kv, p, q);
        std::vector<T> uu, vv;
        std::vector<size_t> du, dv;
        for (auto [x, d] : Du) { uu.push_back(x); du.push_back(d); }
        for (auto [x, d] : Dv) { vv.push_back(x); dv.push_back(d); }
        ev.add(Obj()("op", "scstr")("p", p)("q", q)("ku", ku)("kv", kv)("u", uu)("v", vv)("du", du)("dv", dv).raw("C", cj.str()).raw("s", surf_json(s, false)));
        if (own)
        {
            auto Cb = C;
            std::get<0>(Cb[g.next() % Cb.size()]) = b[1] + T(0.25);
            ev.add(Obj()("op", "refuse")("want", "invalid_argument")("r", guard([&] { interpolate<T, dim>(Cb, nv, p, q, b, {mu, mv}); })));
            Cb = C;
            std::get<1>(Cb[g.next() % Cb.size()]) = b[2] - T(0.25);
            ev.add(Obj()("op", "refuse")("want", "invalid_argument")("r", guard([&] { interpolate<T, dim>(Cb, nv, p, q, b, {mu, mv}); })));
            Cb = C;
            Cb.pop_back();
            if (Cb.size() % nv) ev.add(Obj()("op", "refuse")("want", "length_error")("r", guard([&] { interpolate<T, dim>(Cb, nv, p, q, b, {mu, mv}); })));
            if (nu > p + 1 && (nu - p - 1) % (nu - p) != 0)
                ev.add(Obj()("op", "refuse")("want", "invalid_argument")("r", guard([&] { interpolate<T, dim>(C, nv, p, q, b, {nu - p, mv}); })));
        }
    }
    }
    return Obj()("id", id)("kind", "sinterp")("fl", fl)("dim", dim).raw("ev", ev.str()).str();
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    run_jobs(a.out.c_str(), a.n, [&](size_t i) -> std::string {
        switch (Rng(a.seed * 77 + i).in(0, 5))
        {
        case 0: return job<double, 1>(i, a.seed);
        case 1: return job<float, 3>(i, a.seed);
        case 2: return job<double, 2>(i, a.seed);
        default: return job<double, 3>(i, a.seed);
        }
    });
}
