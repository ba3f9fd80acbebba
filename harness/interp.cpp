// C08: interpolating curves.
#include "curves.h"
#include <gbs/bscinterp.h>
#include <list>
using namespace vh;
using namespace gbs;

static const char *MODES[] = {"equal", "chord", "centripetal"};
static KnotsCalcMode mode_of(int m) { return m == 0 ? KnotsCalcMode::EQUALLY_SPACED : m == 1 ? KnotsCalcMode::CHORD_LENGTH : KnotsCalcMode::CENTRIPETAL; }

template <class T, size_t dim> points_vector<T, dim> points(Rng &g, size_t n)
{
    points_vector<T, dim> Q;
    while (Q.size() < n)
    {
        std::array<T, dim> x;
        for (auto &c : x) c = T(g.dy(-4, 4, 8));
        if (dim > 1) x[0] = T(Q.size()) + x[0] / T(4);
        if (Q.empty() || norm(x - Q.back()) > T(0.2)) Q.push_back(x);
    }
    return Q;
}
template <class T> std::vector<T> params(Rng &g, size_t n, const std::vector<int> *gaps = nullptr)
{
    std::vector<T> u{T(g.coin() ? 0 : g.dy(-3, 3, 2))};
    for (size_t i = 1; i < n; ++i) u.push_back(u.back() + T(gaps ? (*gaps)[i - 1] : g.in(1, 5)) / T(4));
    return u;
}
template <class T, size_t dim> std::string cj(const BSCurve<T, dim> &c) { return curve_json(c, false); }

template <class T, size_t dim, size_t nc> void hermite(Rng &g, Arr &ev, bool big)
{
    size_t n = big ? size_t(g.in(45, 60)) : size_t(g.in(2, 8));
    auto pts = points<T, dim>(g, n);
    std::vector<constrType<T, dim, nc>> Q(n);
    std::string qs = "[";
    for (size_t i = 0; i < n; ++i)
    {
        Q[i][0] = pts[i];
        for (size_t d = 1; d < nc; ++d)
            for (auto &x : Q[i][d]) x = T(g.dy(-3, 3, 4));
        std::vector<std::array<T, dim>> v(Q[i].begin(), Q[i].end());
        qs += (i ? "," : "") + num(v);
    }
    qs += "]";
    auto u = params<T>(g, n);
    bool add = n >= 3 && nc <= 2 && g.coin(1, 3);
    if (g.coin(2, 3))
    {
        auto c = interpolate<T, dim, nc>(Q, u, add);
        ev.add(Obj()("op", "herm")("nc", nc)("add", add)("u", u).raw("Q", qs).raw("c", cj(c)));
    }
    else
    {
        int m = g.in(0, 2);
        auto c = interpolate<T, dim, nc>(Q, mode_of(m), add);
        ev.add(Obj()("op", "hermmode")("nc", nc)("add", add)("mode", MODES[m]).raw("Q", qs).raw("c", cj(c)));
    }
}

template <class T, size_t dim> std::string data_json(const std::vector<constrPoint<T, dim>> &D)
{
    Arr a;
    for (auto &x : D) a.add(Obj()("u", x.u)("d", x.d)("v", x.v));
    return a.str();
}

template <class T, size_t dim> std::string job(size_t id, uint64_t seed, const std::vector<std::string> *scn)
{
    Rng g(seed * 1000003 + id);
    Arr ev;
    auto ptsu = [&](size_t n, size_t p, const std::vector<int> *gaps) {
        auto Q = points<T, dim>(g, n);
        auto u = params<T>(g, n, gaps);
        if (g.coin(1, 4))
        {
            std::vector<T> q1;
            for (auto &x : Q) q1.push_back(x[0]);
            auto f = interpolate(q1, u, p);
            std::vector<std::array<T, 1>> qq;
            for (auto x : q1) qq.push_back({x});
            ev.add(Obj()("op", "ptsu")("p", p)("u", u)("Q", qq).raw("c", curve_json(f.basisCurve(), false)));
        }
        else
        {
            auto c = interpolate<T, dim>(Q, u, p);
            ev.add(Obj()("op", "ptsu")("p", p)("u", u)("Q", Q).raw("c", cj(c)));
        }
    };
    auto pts = [&](size_t n, size_t p) {
        auto Q = points<T, dim>(g, n);
        int m = g.in(0, 2);
        BSCurve<T, dim> c = [&] {
            if (g.coin()) return interpolate<T, dim>(Q, p, mode_of(m));
            std::vector<constrType<T, dim, 1>> Q1;
            for (auto &x : Q) Q1.push_back({x});
            return interpolate<T, dim>(Q1, p, mode_of(m));
        }();
        ev.add(Obj()("op", "pts")("p", p)("mode", MODES[m])("Q", Q).raw("c", cj(c)));
    };
    // arbitrary data on given knots: c's own knots, data at the Greville abscissae or with repeated parameters
    auto cpt = [&](size_t n_target, size_t p) {
        std::vector<constrPoint<T, dim>> D;
        std::vector<T> us;
        T u = T(g.dy(-2, 2, 2));
        while (D.size() < n_target)
        {
            size_t m = p >= 3 && g.coin(1, 3) ? 2 : 1;
            for (size_t d = 0; d < m && D.size() < n_target; ++d)
            {
                constrPoint<T, dim> q;
                q.u = u; q.d = d;
                for (auto &x : q.v) x = T(g.dy(-4, 4, 4));
                D.push_back(q);
                us.push_back(u);
            }
            u += T(g.in(1, 4)) / T(4);
        }
        // the last parameter must be the end of the knots
        auto k = build_simple_mult_flat_knots<T>(us, p);
        if (g.coin(2, 3))
            for (size_t i = D.size() - 1; i > 0; --i) std::swap(D[i], D[g.next() % (i + 1)]);
        auto P = build_poles<T, dim>(D, k, p);
        BSCurve<T, dim> c(P, k, p);
        ev.add(Obj()("op", "cpt")("p", p)("k", k).raw("D", data_json(D)).raw("c", cj(c)));
    };
    auto cols = [&](size_t n, size_t p) {
        size_t nb = g.in(1, 3);
        auto u = params<T>(g, n);
        auto k = build_simple_mult_flat_knots<T>(u, p);
        std::vector<std::vector<constrType<T, dim, 1>>> Qc;
        std::vector<points_vector<T, dim>> Qs;
        for (size_t i = 0; i < nb; ++i)
        {
            Qs.push_back(points<T, dim>(g, n));
            Qc.emplace_back();
            for (auto &x : Qs.back()) Qc.back().push_back({x});
        }
        auto P = build_poles<T, dim, 1>(Qc, k, u, p);
        bool sz = P.size() == nb * n;
        for (size_t i = 0; sz && i < nb; ++i)
        {
            BSCurve<T, dim> c({P.begin() + i * n, P.begin() + (i + 1) * n}, k, p);
            ev.add(Obj()("op", "ptsu")("p", p)("u", u)("Q", Qs[i]).raw("c", cj(c)));
        }
        if (!sz) ev.add(Obj()("op", "colsize"));
    };
    auto bc = [&] {
        size_t p = g.in(1, 5);
        T u1 = T(g.dy(-2, 2, 2)), u2;
        std::vector<bsc_constraint<T, dim>> cs;
        std::vector<constrPoint<T, dim>> D;
        auto rp = [&] { std::array<T, dim> x; for (auto &c : x) c = T(g.dy(-4, 4, 4)); return x; };
        auto put = [&](T u, size_t d) { auto x = rp(); cs.push_back({u, x, d}); D.push_back({x, u, d}); };
        size_t mb = g.in(0, 2), me = g.in(0, 2), ni = g.in(0, 5);
        for (size_t d = 1; d <= mb; ++d) put(u1, d);
        T u = u1;
        for (size_t i = 0; i < ni; ++i)
        {
            u += T(g.in(1, 4)) / T(4);
            size_t m = g.coin(1, 4) ? 2 : 1;
            for (size_t d = 0; d < m; ++d) put(u, d);
        }
        u2 = u + T(g.in(1, 4)) / T(4);
        for (size_t d = 1; d <= me; ++d) put(u2, d);
        auto a = rp(), b = rp();
        D.insert(D.begin(), {a, u1, 0});
        D.push_back({b, u2, 0});
        if (g.coin()) for (size_t i = cs.size(); i > 1; --i) std::swap(cs[i - 1], cs[g.next() % i]);
        Obj o;
        o("op", "bc")("p", p).raw("D", data_json(D));
        std::string r = guard([&] {
            auto c = interpolate<T, dim>(bsc_bound<T, dim>{u1, a}, bsc_bound<T, dim>{u2, b}, cs, p);
            o.raw("c", cj(c));
        });
        o("r", r);
        ev.add(o);
    };
    if (scn)
    {
        size_t p = std::stoul((*scn)[0]);
        std::vector<int> gaps;
        for (size_t i = 1; i < scn->size(); ++i) gaps.push_back(std::stoi((*scn)[i]));
        ptsu(gaps.size() + 1, p, &gaps);
    }
    else
    {
        bool big = id % 12 == 0;
        bool hi = false; // degrees above bspline_stack_max_degree: the library falls back on an exponential recursion
        size_t p = hi ? 25 : size_t(g.in(1, std::is_same_v<T, float> ? 4 : 7));
        size_t n = hi ? size_t(g.in(27, 32)) : big ? size_t(g.in(96, 130)) : p + size_t(g.in(1, 10));
        if (hi && std::is_same_v<T, float>) { p = 3; n = 20; }
        switch (id % 6)
        {
        case 0: pts(n, p); break;
        case 1: ptsu(n, p, nullptr); break;
        case 2: cpt(n, p); if (!hi) cpt(100 + n, std::min<size_t>(p, 5)); break;
        case 3: bc(); bc(); bc(); break;
        case 4: cols(n, p); pts(n, p); break;
        case 5:
            switch (g.in(1, 4))
            {
            case 1: hermite<T, dim, 1>(g, ev, big); break;
            case 2: hermite<T, dim, 2>(g, ev, g.coin(1, 6)); break;
            case 3: hermite<T, dim, 3>(g, ev, false); break;
            case 4: hermite<T, dim, 4>(g, ev, false); break;
            }
            {
                size_t n3 = g.in(3, 8);
                auto Q = points<T, dim>(g, n3);
                auto u = params<T>(g, n3);
                ev.add(Obj()("op", "tgvec")("Q", Q)("u", u)("r", build_3pt_tg_vec<T, dim>(Q, u)));
                if constexpr (std::is_same_v<T, double>)
                    ev.add(Obj()("op", "tgdir")("Q", Q)("u", u)("r", build_3pt_tg_dir<T, dim>(Q, u)));
            }
            // refused: not enough points for the degree
            {
                size_t q = g.in(1, 4), m = g.in(2, int(q) + 2);
                auto Q = points<T, dim>(g, m);
                ev.add(Obj()("op", "few")("p", q)("n", m)("r", guard([&] { interpolate<T, dim>(Q, q, KnotsCalcMode::CHORD_LENGTH); })));
            }
        }
    }
    return Obj()("id", id)("kind", "interp")("fl", std::is_same_v<T, float>)("dim", dim).raw("ev", ev.str()).str();
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    auto scn = read_scn(a.scn);
    size_t ns = scn.size();
    run_jobs(a.out.c_str(), a.n + ns, [&](size_t i) -> std::string {
        const std::vector<std::string> *s = i < ns ? &scn[i] : nullptr;
        size_t id = i < ns ? i : i - ns;
        size_t w = i < ns ? i % 4 : Rng(a.seed * 77 + id).in(0, 7);
        switch (w)
        {
        case 0: return job<double, 1>(i < ns ? i : id, a.seed, s);
        case 1: return job<float, 2>(i < ns ? i : id, a.seed, s);
        case 2: case 5: return job<double, 3>(i < ns ? i : id, a.seed, s);
        default: return job<double, 2>(i < ns ? i : id, a.seed, s);
        }
    });
}
