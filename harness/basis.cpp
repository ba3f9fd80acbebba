// Basis functions, spans and knot vector utilities (property C01).
#include "curves.h"
#include <gbs/bscurve.h>
using namespace vh;
using namespace gbs;
template <class T> T nxt(T x, int up) { return std::nextafter(x, up > 0 ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity()); }

template <class T>
std::string trace(size_t id, Rng &g, size_t p, const std::vector<T> &k)
{
    size_t n = k.size() - p - 1;
    Obj o;
    o("id", id)("kind", "basis")("fl", sizeof(T) == 4)("p", p)("k", k);
    Arr ev;
    std::vector<T> us, dk;
    for (T x : k) if (dk.empty() || x > dk.back()) dk.push_back(x);
    for (size_t i = 0; i < dk.size(); ++i)
    {
        us.push_back(dk[i]);
        if (i + 1 < dk.size())
        {
            us.push_back((dk[i] + dk[i + 1]) / 2);
            us.push_back(dk[i] + (dk[i + 1] - dk[i]) * T(g.in(1, 31)) / T(32));
            us.push_back(nxt(dk[i], 1));
            us.push_back(nxt(dk[i + 1], -1));
        }
    }
    size_t lim = p > 8 ? 4 : 8;
    if (us.size() > lim)
    {
        std::vector<T> v{us.front(), us.back()};
        while (v.size() < lim) v.push_back(us[g.next() % us.size()]);
        us = v;
    }
    for (T u : us)
    {
        size_t s = find_span(n, p, u, k) - k.begin();
        ev.add(Obj()("op", "span")("u", u)("r", s));
        auto rg = find_span_range(n, p, u, k);
        ev.add(Obj()("op", "range")("u", u)("r1", rg.first)("r2", rg.second));
        // single basis functions (all of them at order 0, random orders), recursion: moderate degree only
        if (p <= 9)
        {
            std::vector<T> all(n);
            size_t d = g.coin() ? 0 : g.in(0, int(p) + 1);
            for (size_t i = 0; i < n; ++i) all[i] = g.coin() ? basis_function(u, i, p, d, k) : basis_function(u, std::next(k.begin(), i), p, d, k.end());
            ev.add(Obj()("op", "all")("u", u)("d", d)("r", all));
            if (g.coin(1, 3))
            {
                for (size_t i = 0; i < n; ++i) all[i] = basis_function(u, std::next(k.begin(), i), p, k.end());
                ev.add(Obj()("op", "all")("u", u)("d", 0)("r", all));
            }
        }
        std::vector<T> N(p + 1, T(9));
        basis_funcs(s, p, u, k, N);
        ev.add(Obj()("op", "loc")("u", u)("s", s)("d", 0)("r", N));
        std::vector<T> M(p + 1, T(9));
        basis_funcs(s, p, u, k, M.data());
        ev.add(Obj()("op", "loc")("u", u)("s", s)("d", 0)("r", M));
        size_t d = g.in(0, int(std::min<size_t>(p, 6)));
        basis_ders(s, p, d, u, k, M.data());
        ev.add(Obj()("op", "loc")("u", u)("s", s)("d", d)("r", M));
        size_t nd = g.in(0, int(p > 8 ? p : std::min<size_t>(p, 6)));
        std::vector<T> D((nd + 1) * (p + 1), T(9));
        ders_basis_funs(s, p, nd, u, k, D.data());
        for (size_t q = 0; q <= nd; q += (q > 5 && q + 1 < nd ? g.in(1, 2) : 1))
            ev.add(Obj()("op", "loc")("u", u)("s", s)("d", q)("r", std::vector<T>(D.begin() + q * (p + 1), D.begin() + (q + 1) * (p + 1))));
    }
    // knot vector utilities
    {
        auto km = knots_and_mults(k);
        ev.add(Obj()("op", "unflat")("r", km.first)("m", km.second));
        std::vector<size_t> m; std::vector<T> kk;
        unflat_knots(k, m, kk);
        ev.add(Obj()("op", "unflat")("r", kk)("m", m));
        auto pr = unflat_knots(k);
        std::vector<T> a; std::vector<size_t> b;
        for (auto &x : pr) { a.push_back(x.first); b.push_back(x.second); }
        ev.add(Obj()("op", "unflat")("r", a)("m", b));
        std::vector<T> only;
        unflat_knots(k, only);
        ev.add(Obj()("op", "unflat")("r", only)("m", km.second));
        ev.add(Obj()("op", "flat")("r", flat_knots(km.first, km.second)));
        for (T u : us)
        {
            ev.add(Obj()("op", "mult")("u", u)("r", size_t(multiplicity(u, k)))("exact", true));
            ev.add(Obj()("op", "mult")("u", u)("r", size_t(multiplicity(k, u)))("exact", false));
        }
        size_t mm = g.in(1, int(p));
        ev.add(Obj()("op", "multflat")("kn", km.first)("m", mm)("r", build_mult_flat_knots(km.first, p, mm)));
        {   // uniform knots between two bounds (dyadic step)
            T a = T(g.in(-4, 3)), h = T(g.in(1, 6)) / 4;
            size_t nk = g.in(2, 7);
            std::vector<T> kn(nk);
            for (size_t i = 0; i < nk; ++i) kn[i] = a + h * i;
            ev.add(Obj()("op", "multflatn")("kn", kn)("m", mm)("r", build_mult_flat_knots<T>(kn.front(), kn.back(), nk, p, mm)));
        }
    }
    // builders of clamped knot vectors
    {
        size_t np = g.in(int(p) + 1, int(p) + 7);
        T a = T(g.in(-4, 3)), b = a + T(g.in(1, 9));
        ev.add(Obj()("op", "simple")("a", a)("b", b)("n", np)("r", build_simple_mult_flat_knots(a, b, np, p)));
        std::vector<T> u{T(g.in(-3, 3))};
        while (u.size() < np) u.push_back(u.back() + T(g.in(1, 16)) / T(8));
        ev.add(Obj()("op", "averaged")("us", u)("r", build_simple_mult_flat_knots(u, p)));
        auto kc = k;
        T c1 = T(g.in(-9, 8)) / 2, c2 = c1 + T(g.in(1, 17)) / 4;
        change_bounds(c1, c2, kc);
        ev.add(Obj()("op", "rebound")("a", c1)("b", c2)("r", kc));
    }
    // chord length / centripetal / uniform parametrizations
    {
        std::vector<std::array<T, 2>> pts;
        // steps along Pythagorean triples scaled to perfect squares, so both roots are rational
        static const int TR[][3] = {{3, 4, 5}, {4, 3, 5}, {5, 12, 13}, {8, 15, 17}, {1, 0, 1}, {0, 1, 1}, {-3, 4, 5}};
        std::array<T, 2> q{T(g.in(-3, 3)), T(1)};
        pts.push_back(q);
        size_t np = g.in(2, 7);
        while (pts.size() < np)
        {
            auto &t = TR[g.next() % 7];
            q[0] += T(t[0]) / 4; q[1] += T(t[1]) / 4;
            pts.push_back(q);
        }
        ev.add(Obj()("op", "param")("mode", "chord")("ad", false)("pts", pts)("r", curve_parametrization(pts, KnotsCalcMode::CHORD_LENGTH)));
        ev.add(Obj()("op", "param")("mode", "chord")("ad", true)("pts", pts)("r", curve_parametrization(pts, KnotsCalcMode::CHORD_LENGTH, true)));
        ev.add(Obj()("op", "param")("mode", "centri")("ad", true)("pts", pts)("r", curve_parametrization(pts, KnotsCalcMode::CENTRIPETAL, true)));
        ev.add(Obj()("op", "param")("mode", "centri")("ad", false)("pts", pts)("r", curve_parametrization(pts, KnotsCalcMode::CENTRIPETAL)));
        ev.add(Obj()("op", "param")("mode", "equal")("ad", g.coin())("pts", pts)("r", curve_parametrization(pts, KnotsCalcMode::EQUALLY_SPACED, g.coin())));
    }
    o.raw("ev", ev.str());
    return o.str();
}

int main(int argc, char **argv)
{
    Args A(argc, argv);
    auto scn = read_scn(A.scn);
    size_t n0 = scn.size();
    run_jobs(A.out.c_str(), n0 + A.n, [&](size_t id) {
        Rng g(A.seed * 1000003 + id);
        bool fl = g.coin(1, 4);
        size_t p;
        std::vector<double> k;
        if (id < n0)
        {
            auto &t = scn[id];
            p = std::stoul(t[0]);
            for (size_t i = 1; i < t.size(); ++i) k.push_back(std::stod(t[i]) / 4.);
        }
        else
        {
            static const int PS[] = {1, 2, 3, 4, 5, 6, 7, 8, 3, 2, 3, 5};
            p = PS[g.next() % 12];
            if (!fl && g.coin(1, 15)) p = std::array<int, 4>{9, 12, 16, 24}[g.next() % 4];
            int ni = g.in(0, p > 8 ? 2 : 6);
            double a = 0, b = 1;
            switch (g.in(0, 5)) { case 0: a = -3, b = 5; break; case 1: a = 2, b = 2.5; break; case 2: a = -8; b = -4; break; case 3: a = 0, b = 64; break; default: break; }
            k = rand_knots<double>(g, p, ni, a, b, g.coin(1, 5) ? int(p) + 1 : int(p));
        }
        std::vector<float> kf(k.begin(), k.end());
        return fl ? trace<float>(id, g, p, kf) : trace<double>(id, g, p, k);
    });
}
