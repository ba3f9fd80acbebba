// C10: least-squares curves and surfaces.
#include "curves.h"
#include <gbs/bscapprox.h>
#include <gbs/bssapprox.h>
#include <gbs/bscanalysis.h>
#include <list>
using namespace vh;
using namespace gbs;

static const char *MODES[] = {"equal", "chord", "centripetal"};
static KnotsCalcMode mode_of(int m) { return m == 0 ? KnotsCalcMode::EQUALLY_SPACED : m == 1 ? KnotsCalcMode::CHORD_LENGTH : KnotsCalcMode::CENTRIPETAL; }

template <class T, size_t dim> points_vector<T, dim> points(Rng &g, size_t n)
{
    points_vector<T, dim> Q;
    while (Q.size() < n)
    {
        std::array<T, dim> x;
        for (auto &c : x) c = T(g.dy(-4, 4, 8));
        if (dim > 1) x[0] = T(Q.size()) / 4 + x[0] / T(16);
        if (Q.empty() || norm(x - Q.back()) > T(0.1)) Q.push_back(x);
    }
    return Q;
}
template <class T> std::vector<T> params(Rng &g, size_t n, const std::vector<int> *gaps = nullptr)
{
    std::vector<T> u{T(g.coin(1, 3) ? 0 : g.dy(-30, 3, 2))};
    for (size_t i = 1; i < n; ++i) u.push_back(u.back() + T(gaps ? (*gaps)[i - 1] : g.in(1, 4)) / T(4));
    return u;
}
template <class T, size_t dim> std::string cj(const BSCurve<T, dim> &c) { return curve_json(c, false); }
// clamped knots over [u1,u2], interior ones anywhere, possibly repeated
template <class T> std::vector<T> knots_for(Rng &g, const std::vector<T> &u, size_t p, size_t n_poles)
{
    std::vector<T> in;
    for (size_t i = p + 1; i < n_poles; ++i)
        in.push_back(in.size() && p > 1 && g.coin(1, 6) ? in.back() : u.front() + (u.back() - u.front()) * T(g.in(1, 63)) / T(64));
    std::sort(in.begin(), in.end());
    std::vector<T> k(p + 1, u.front());
    k.insert(k.end(), in.begin(), in.end());
    k.insert(k.end(), p + 1, u.back());
    return k;
}

template <class T, size_t dim> std::string job(size_t id, uint64_t seed, const std::vector<std::string> *scn)
{
    Rng g(seed * 1000003 + id);
    Arr ev;
    constexpr bool dbl = std::is_same_v<T, double>;
    auto put = [&](const char *op, size_t p, size_t n, bool fix, const std::vector<T> &u, const points_vector<T, dim> &Q, const std::vector<T> *k, auto &&f) {
        Obj o;
        o("op", op)("p", p)("n", n)("fix", fix)("u", u)("Q", Q);
        if (k) o("k", *k);
        std::string r = guard([&] { o.raw("c", cj(f())); });
        o("r", r);
        ev.add(o);
    };
    auto lsq = [&](size_t np, size_t p, size_t n, const std::vector<int> *gaps = nullptr) {
        auto Q = points<T, dim>(g, np);
        auto u = params<T>(g, np, gaps);
        bool fix = g.coin();
        put("lsq", p, n, fix, u, Q, nullptr, [&] { return approx<T, dim>(Q, p, n, u, fix); });
    };
    auto lsqk = [&](size_t np, size_t p, size_t n) {
        auto Q = points<T, dim>(g, np);
        auto u = params<T>(g, np);
        auto k = knots_for(g, u, p, std::max(n, p + 1));
        bool fix = g.coin();
        put("lsq", p, n, fix, u, Q, &k, [&] { return fix ? approx_bound_fixed<T, dim>(Q, p, n, u, k) : approx<T, dim>(Q, p, n, u, k); });
    };
    auto lsqmode = [&](size_t np, size_t p, size_t n) {
        auto Q = points<T, dim>(g, np);
        int m = g.in(0, 2);
        bool ad = g.coin();
        Obj o;
        o("op", "lsqmode")("p", p)("n", n)("fix", true)("Q", Q)("mode", MODES[m])("ad", ad);
        o("r", guard([&] { o.raw("c", cj(approx<T, dim>(Q, p, n, mode_of(m), ad))); }));
        ev.add(o);
    };
    // refinement, one knot at a time, then at once
    auto refine = [&](size_t np, size_t p) {
        auto Q = points<T, dim>(g, np);
        if (g.coin()) // smooth data: a tolerance can be met
            for (size_t i = 0; i < np; ++i)
                for (size_t d = 0; d < dim; ++d) Q[i][d] = T(std::round(64 * std::sin(0.09 * double(i) * (1 + d))) / 64);
        auto u = params<T>(g, np);
        bool fix = g.coin();
        size_t n0 = p + 1 + g.in(0, 3);
        auto c = approx<T, dim>(Q, p, n0, u, fix);
        ev.add(Obj()("op", "chain0")("p", p)("n", n0)("fix", fix)("u", u)("Q", Q).raw("c", cj(c))("r", ""));
        size_t steps = g.in(1, 5);
        auto ci = c;
        for (size_t i = 0; i < steps; ++i)
        {
            ci = refine_approx<T, dim>(Q, u, ci, fix, T(0), T(0), 1);
            ev.add(Obj()("op", "chain").raw("c", cj(ci)));
        }
        T dm = T(g.dy(0, 2, 16)), da = T(g.dy(0, 1, 16));
        size_t nm = g.in(0, int(steps));
        auto cr = refine_approx<T, dim>(Q, u, c, fix, dm, da, nm);
        ev.add(Obj()("op", "refine")("dmax", dm)("davg", da)("nmax", nm).raw("c", cj(cr)));
    };
    auto autosize = [&](size_t np, size_t p) {
        auto Q = points<T, dim>(g, np);
        bool fix = g.coin();
        size_t nm = g.in(0, 4);
        if (g.coin())
        {
            auto u = params<T>(g, np);
            put("auto", p, default_n_poles(p), fix, u, Q, nullptr, [&] { return approx<T, dim>(Q, u, p, fix, T(1e-3), T(1e-4), nm); });
        }
        else
        {
            int m = g.in(0, 2);
            bool ad = g.coin();
            Obj o;
            o("op", "automode")("p", p)("n", default_n_poles(p))("fix", fix)("Q", Q)("mode", MODES[m])("ad", ad);
            o("r", guard([&] { o.raw("c", cj(approx<T, dim>(Q, p, mode_of(m), fix, T(1e-3), T(1e-4), nm, ad))); }));
            ev.add(o);
        }
    };
    // curves whose parametrization is kept: they are found again when the fitted space contains them
    auto reproduce = [&] {
        if constexpr (dim >= 2 && dbl)
        {
            size_t p = g.in(2, 5), q = g.in(1, int(p));
            T a = T(g.dy(-9, 2, 2)), b = a + T(g.in(1, 12)) / 4;
            auto P = rand_poles<T, dim>(g, q + 1, false);
            for (size_t i = 0; i <= q; ++i) P[i][0] = T(2 * i) + P[i][0] / 16;
            std::vector<T> k(q + 1, a);
            k.insert(k.end(), q + 1, b);
            BSCurve<T, dim> c(P, k, q);
            T dev = T(0.02);
            int w = g.in(0, 6);
            Obj o;
            o("op", "repro")("p", p).raw("src", cj(c));
            std::string trf = "id";
            std::string r = guard([&] {
                switch (w)
                {
                case 0: o("w", "tol").raw("c", cj(approx<T, dim>(c, dev, T(1e-6), p))); break;
                case 1: o("w", "tolnp").raw("c", cj(approx<T, dim>(c, dev, T(1e-6), p, size_t(g.in(int(p) + 1, 9)), size_t(30)))); break;
                case 2: o("w", "u1u2").raw("c", cj(approx<T, dim>(c, a, b, dev, T(1e-6), p))); break;
                case 3:
                {
                    std::function<std::array<T, dim>(const std::array<T, dim> &)> f = [](const std::array<T, dim> &x) { auto y = x; for (size_t i = 0; i < dim; ++i) y[i] = 2 * x[i] + T(i) + 1; return y; };
                    trf = "affine";
                    o("w", "trf").raw("c", cj(approx<T, dim>(c, f, dev, T(1e-6), p)));
                    break;
                }
                case 4: o("w", "uni").raw("c", cj(approx<T, dim>(c, p, size_t(g.in(20, 40))))); break;
                default:
                {
                    auto kk = rand_knots<T>(g, p, g.in(0, 4), a, b, p - 1);
                    auto PP = rand_poles<T, dim>(g, kk.size() - p - 1, false);
                    for (size_t i = 0; i < PP.size(); ++i) PP[i][0] = T(i) + PP[i][0] / 16;
                    BSCurve<T, dim> c2(PP, kk, p);
                    size_t np = 40;
                    o.s = "{";
                    o("op", "repro")("p", p).raw("src", cj(c2));
                    o("w", "knots").raw("c", cj(approx<T, dim>(c2, p, PP.size(), kk, dev, np)));
                }
                }
            });
            o("r", r)("trf", trf);
            ev.add(o);
        }
    };
    // reparametrized fits: the ends, the degree, the number of poles
    auto reparam = [&] {
        if constexpr (dim >= 2 && dbl)
        {
            size_t p = g.in(1, 4);
            auto kk = rand_knots<T>(g, 3, g.in(0, 3), T(-1), T(2), 1);
            auto PP = rand_poles<T, dim>(g, kk.size() - 4, false);
            bool line = g.coin();
            for (size_t i = 0; i < PP.size(); ++i)
                for (size_t d = 0; d < dim; ++d) PP[i][d] = d == 0 ? T(3 * i) + PP[i][0] / 16 : line ? PP[i][0] * T(d) : PP[i][d];
            BSCurve<T, dim> c(PP, kk, 3);
            int m = g.in(0, 2);
            bool byn = g.coin();
            size_t n = g.in(int(p), 9);
            Obj o;
            o("op", "reparam")("p", p)("n", byn ? n : 0)("line", line)("mode", MODES[m])("byn", byn).raw("src", cj(c));
            o("r", guard([&] {
                o.raw("c", cj(byn ? approx<T, dim>(c, T(0.05), n, p, mode_of(m)) : approx<T, dim>(c, T(0.05), p, mode_of(m))));
            }));
            ev.add(o);
        }
    };
    auto surf_grid = [&] {
        size_t p = g.in(1, 3), q = g.in(1, 3), nu = p + g.in(0, 4), nv = q + g.in(0, 4); // nu = p, nv = q: refused
        size_t mu = nu + g.in(0, 5), mv = nv + g.in(0, 5);
        if (mu < 2) mu = 2;
        if (mv < 2) mv = 2;
        auto u = params<T>(g, mu), v = params<T>(g, mv);
        auto ku = knots_for(g, u, p, nu), kv = knots_for(g, v, q, nv);
        if (nu <= p) { ku.resize(nu + p + 1); ku.back() = u.back(); }
        if (nv <= q) { kv.resize(nv + q + 1); kv.back() = v.back(); }
        auto Q = points<T, dim>(g, mu * mv);
        if (g.coin(1, 6)) Q.resize(std::min(Q.size(), nu * nv - 1)); // refused
        Obj o;
        o("op", "sgrid")("p", p)("q", q)("ku", ku)("kv", kv)("u", u)("v", v)("Q", Q);
        o("r", guard([&] { o("P", approx<T, dim>(Q, ku, kv, u, v, p, q)); }));
        ev.add(o);
    };
    auto surf_cstr = [&] {
        size_t p = g.in(1, 3), q = g.in(1, 3), nu = p + 1 + g.in(0, 3), nv = q + 1 + g.in(0, 3);
        auto u = params<T>(g, nu), v = params<T>(g, nv);
        auto ku = build_simple_mult_flat_knots<T>(u, p), kv = build_simple_mult_flat_knots<T>(v, q);
        std::vector<bss_constraint<T, dim>> C;
        auto rp = [&] { std::array<T, dim> x; for (auto &c : x) c = T(g.dy(-4, 4, 4)); return x; };
        for (auto vv : v) for (auto uu : u) C.push_back({uu, vv, rp(), 0, 0});
        size_t extra = g.in(0, 8);
        for (size_t i = 0; i < extra; ++i)
            C.push_back({u.front() + (u.back() - u.front()) * T(g.in(0, 16)) / 16, v.front() + (v.back() - v.front()) * T(g.in(0, 16)) / 16, rp(), size_t(g.in(0, 2)), size_t(g.in(0, 2))});
        for (size_t i = C.size(); i > 1; --i) std::swap(C[i - 1], C[g.next() % i]);
        if (g.coin(1, 6)) C.resize(nu * nv - 1); // refused
        Arr a;
        for (auto &[uu, vv, x, du, dv] : C) a.add(Obj()("u", uu)("v", vv)("x", x)("du", du)("dv", dv));
        Obj o;
        o("op", "scstr")("p", p)("q", q)("ku", ku)("kv", kv).raw("D", a.str());
        o("r", guard([&] { o.raw("c", surf_json(approx<T, dim>(C, ku, kv, p, q), false)); }));
        ev.add(o);
    };
    if (scn)
    {
        size_t p = std::stoul((*scn)[0]);
        std::vector<int> gaps;
        for (size_t i = 1; i < scn->size(); ++i) gaps.push_back(std::stoi((*scn)[i]));
        lsq(gaps.size() + 1, p, g.in(int(p), int(gaps.size()) + 2), &gaps);
    }
    else
    {
        size_t p = size_t(g.in(1, dbl ? 6 : 4));
        size_t n = p + size_t(g.in(0, 9)); // n = p is refused
        size_t np = size_t(std::max(2, int(n) + g.in(-1, 25)));
        bool big = id % 14 == 0 && n > p;
        if (big) np = size_t(g.in(97, 125));
        switch (id % 7)
        {
        case 0: lsq(np, p, n); break;
        case 1: lsqk(np, p, n); if (id % 3 == 0) lsqk(100 + g.in(0, 8), std::min<size_t>(p, 4), std::min<size_t>(p, 4) + g.in(1, 8)); break;
        case 2: lsqmode(np, p, n); { size_t q = g.in(1, 4); autosize(g.coin(1, 3) ? std::max<size_t>(2, 2 * q + g.in(0, 6)) : size_t(g.in(2, 30)), q); } break;
        case 3: refine(g.in(10, 34), g.in(1, 4)); break;
        case 4: reproduce(); reproduce(); break;
        case 5: surf_grid(); surf_grid(); break;
        case 6: surf_cstr(); reparam(); break;
        }
    }
    return Obj()("id", id)("kind", "approx")("fl", !dbl)("dim", dim).raw("ev", ev.str()).str();
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    auto scn = read_scn(a.scn);
    size_t ns = scn.size();
    run_jobs(a.out.c_str(), a.n + ns, [&](size_t i) -> std::string {
        const std::vector<std::string> *s = i < ns ? &scn[i] : nullptr;
        size_t id = i < ns ? i : i - ns;
        size_t w = i < ns ? i % 4 : Rng(a.seed * 77 + id).in(0, 7);
        switch (w)
        {
        case 0: return job<double, 1>(id, a.seed, s);
        case 1: return job<float, 2>(id, a.seed, s);
        case 2: case 5: return job<double, 3>(id, a.seed, s);
        default: return job<double, 2>(id, a.seed, s);
        }
    });
}
