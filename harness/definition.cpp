// Which definitions are accepted, which evaluations refused, and the life of one object between (property C07).
#include "curves.h"
using namespace vh;
using namespace gbs;
template <class T, size_t dim, bool rat> struct CT;
template <class T, size_t dim> struct CT<T, dim, false> { using type = BSCurve<T, dim>; };
template <class T, size_t dim> struct CT<T, dim, true> { using type = BSCurveRational<T, dim>; };
template <class T, size_t dim, bool rat> struct ST;
template <class T, size_t dim> struct ST<T, dim, false> { using type = BSSurface<T, dim>; };
template <class T, size_t dim> struct ST<T, dim, true> { using type = BSSurfaceRational<T, dim>; };

// one definition offered to every constructor that takes it
template <class T>
void offer(Arr &ev, Rng &g, const std::vector<T> &k, size_t np, size_t p)
{
    auto P = rand_poles<T, 2>(g, np, false);
    auto Pw = rand_poles<T, 3>(g, np, true);
    std::vector<T> w(np, T(1)), f;
    for (auto &x : w) x = T(g.in(1, 6)) / 2;
    for (auto &x : P) f.push_back(x[0]);
    std::vector<T> kk; std::vector<size_t> mm;
    for (T x : k) { if (!kk.empty() && kk.back() == x) mm.back()++; else { kk.push_back(x); mm.push_back(1); } }
    auto put = [&](const char *how, const std::string &r) { ev.add(Obj()("op", "def")("how", how)("k", k)("np", np)("p", p)("r", r)); };
    put("flat", guard([&] { BSCurve<T, 2> c(P, k, p); }));
    put("mult", guard([&] { BSCurve<T, 2> c(P, kk, mm, p); }));
    put("rflat", guard([&] { BSCurveRational<T, 2> c(Pw, k, p); }));
    put("rmult", guard([&] { BSCurveRational<T, 2> c(Pw, kk, mm, p); }));
    put("rpoles", guard([&] { BSCurveRational<T, 2> c(P, k, p); }));
    put("rweights", guard([&] { BSCurveRational<T, 2> c(P, k, w, p); }));
    put("func", guard([&] { BSCfunction<T> c(f, k, p); }));
    put("funcm", guard([&] { BSCfunction<T> c(f, kk, mm, p); }));
}
template <class T>
void offer_surf(Arr &ev, Rng &g, const std::vector<T> &ku, const std::vector<T> &kv, size_t np, size_t p, size_t q)
{
    auto P = rand_poles<T, 3>(g, np, false);
    auto Pw = rand_poles<T, 4>(g, np, true);
    std::vector<T> w(np, T(2));
    auto put = [&](const char *how, const std::string &r) { ev.add(Obj()("op", "sdef")("how", how)("ku", ku)("kv", kv)("np", np)("p", p)("q", q)("r", r)); };
    auto um = [](const std::vector<T> &k) { std::vector<T> kk; std::vector<size_t> mm; for (T x : k) { if (!kk.empty() && kk.back() == x) mm.back()++; else { kk.push_back(x); mm.push_back(1); } } return std::make_pair(kk, mm); };
    auto [a, ma] = um(ku); auto [b, mb] = um(kv);
    put("flat", guard([&] { BSSurface<T, 3> s(P, ku, kv, p, q); }));
    put("mult", guard([&] { BSSurface<T, 3> s(P, a, b, ma, mb, p, q); }));
    put("rflat", guard([&] { BSSurfaceRational<T, 3> s(Pw, ku, kv, p, q); }));
    put("rweights", guard([&] { BSSurfaceRational<T, 3> s(P, w, ku, kv, p, q); }));
}
template <class T> T nextout(Rng &g, T a, T b, bool up)
{   // just past, or well past
    T e = std::max(std::abs(a), std::abs(b)) * std::numeric_limits<T>::epsilon() * 1000 + std::numeric_limits<T>::epsilon() * 1000;
    T d = g.coin() ? e : T(g.in(1, 8)) / 4;
    return up ? b + d : a - d;
}
template <class T, size_t dim, bool rat> std::string life(size_t id, Rng &g)
{
    using C = typename CT<T, dim, rat>::type;
    size_t p = g.in(1, 5);
    T a = 0, b = 1;
    switch (g.in(0, 4)) { case 0: a = -3, b = 5; break; case 1: a = 2, b = 2.5; break; case 2: b = 64; break; default: break; }
    auto k = rand_knots<T>(g, p, g.in(0, 4), a, b, int(p));
    size_t n = k.size() - p - 1;
    C c(rand_poles<T, dim + rat>(g, n, rat), k, p);
    Obj o;
    o("id", id)("kind", "life")("fl", sizeof(T) == 4).raw("c", curve_json(c, rat));
    Arr ev;
    auto rec = [&](Obj e) { e.raw("c", curve_json(c, rat)); ev.add(e); };
    int ns = g.in(4, 10);
    for (int s = 0; s < ns; ++s)
    {
        auto [lo, hi] = c.bounds();
        switch (g.in(0, 10))
        {
        case 0: { // copy / move poles
            size_t m = g.coin() ? n : g.in(0, int(2 * n));
            auto P = rand_poles<T, dim + rat>(g, m, rat);
            auto Q = P;
            bool mv = g.coin();
            std::string r = guard([&] { if (mv) c.movePoles(Q); else c.copyPoles(Q); });
            rec(Obj()("op", "poles")("P", P)("r", r));
            break; }
        case 1: { // other knots
            size_t m = g.coin() ? k.size() : g.in(1, int(2 * k.size()));
            std::vector<T> K(m);
            T v = T(g.in(-4, 4));
            for (size_t i = 0; i < m; ++i) { if (i > p && i + p + 1 <= m && g.coin()) v += T(g.in(1, 3)) / 2; K[i] = v; }
            if (m > p + 1) for (size_t i = m - p - 1; i < m; ++i) K[i] = v + 1;
            std::string r = guard([&] { c.copyKnots(K); });
            rec(Obj()("op", "knots")("k", K)("r", r));
            break; }
        case 2: { // one pole
            size_t i = g.coin(1, 3) ? n + g.in(0, 5) : g.in(0, int(n) - 1);
            std::array<T, dim + rat> v{};
            std::string r = guard([&] { v = std::as_const(c).pole(i); });
            rec(Obj()("op", "pole")("i", i)("v", v)("r", r));
            break; }
        case 3: { // write a pole
            size_t i = g.coin(1, 3) ? n + g.in(0, 5) : g.in(0, int(n) - 1);
            auto v = rand_poles<T, dim + rat>(g, 1, rat)[0];
            std::string r = guard([&] { c.pole(i) = v; });
            rec(Obj()("op", "setpole")("i", i)("v", v)("r", r));
            break; }
        case 4: { // restricted to a part of its range, definition kept
            T x = lo + (hi - lo) * T(g.in(0, 3)) / 8, y = lo + (hi - lo) * T(g.in(5, 8)) / 8;
            if (g.coin(1, 4)) std::swap(x, y);
            c.trim(x, y, false);
            rec(Obj()("op", "restrict")("a", x)("b", y));
            break; }
        case 5: { // assigned from a copy
            C d(c); C e = d; c = e;
            rec(Obj()("op", "copy"));
            break; }
        case 6: { // its knots with multiplicities
            rec(Obj()("op", "kmult")("kk", c.knots())("mm", c.mults())("order", c.order()));
            break; }
        default: { // evaluation in and out of the bounds
            bool out = g.coin();
            T u = out ? nextout(g, lo, hi, g.coin()) : (g.coin(1, 3) ? (g.coin() ? lo : hi) : lo + (hi - lo) * T(g.in(0, 64)) / 64);
            size_t d = g.in(0, 2);
            std::array<T, dim> v{};
            int how = g.in(0, 4);
            std::string r = guard([&] {
                const Curve<T, dim> &cc = c;
                if (how == 0) v = cc.value(u, d);
                else if (how == 1) v = cc(u, d);
                else if (how == 2) { std::vector<std::array<T, dim>> K(d + 1); cc.derivatives(u, d, K.data()); v = K[d]; }
                else if (how == 3) { std::vector<T> L{lo, u, hi}; v = cc.values(L, d)[1]; }
                else { std::vector<T> L{lo, hi}; L.push_back(u); v = cc.values(L, d)[2]; }
            });
            rec(Obj()("op", "eval")("u", u)("d", d)("how", how)("v", v)("r", r));
        }
        }
    }
    o.raw("ev", ev.str());
    return o.str();
}
template <class T, size_t dim, bool rat> std::string slife(size_t id, Rng &g)
{
    using S = typename ST<T, dim, rat>::type;
    size_t p = g.in(1, 3), q = g.in(1, 3);
    T a = 0, b = 1, x = -1, y = 3;
    if (g.coin()) a = 2, b = 2.5;
    auto ku = rand_knots<T>(g, p, g.in(0, 3), a, b, int(p)), kv = rand_knots<T>(g, q, g.in(0, 3), x, y, int(q));
    size_t n = (ku.size() - p - 1) * (kv.size() - q - 1);
    S s(rand_poles<T, dim + rat>(g, n, rat), ku, kv, p, q);
    Obj o;
    o("id", id)("kind", "slife")("fl", sizeof(T) == 4).raw("s", surf_json(s, rat));
    Arr ev;
    auto rec = [&](Obj e) { e.raw("s", surf_json(s, rat)); ev.add(e); };
    int ns = g.in(4, 9);
    for (int t = 0; t < ns; ++t)
    {
        auto B = s.bounds();
        switch (g.in(0, 5))
        {
        case 0: {
            size_t m = g.coin() ? n : g.in(0, int(2 * n));
            auto P = rand_poles<T, dim + rat>(g, m, rat);
            auto Q = P;
            bool mv = g.coin();
            std::string r = guard([&] { if (mv) s.movePoles(Q); else s.copyPoles(Q); });
            rec(Obj()("op", "spoles")("P", P)("r", r));
            break; }
        case 1: {
            size_t nu = s.nPolesU(), nv = s.nPolesV();
            size_t i = g.in(0, int(nu) + 1), j = g.in(0, int(nv) + 1);
            auto v = rand_poles<T, dim + rat>(g, 1, rat)[0];
            std::string r = guard([&] { s.pole(i, j) = v; });
            rec(Obj()("op", "ssetpole")("i", i)("j", j)("v", v)("r", r));
            break; }
        case 2: { S d(s); S e = d; s = e; rec(Obj()("op", "scopy")); break; }
        default: {
            int w = g.in(0, 3); // 0,1 in; 2 out in u; 3 out in v
            T u = g.coin(1, 3) ? (g.coin() ? B[0] : B[1]) : B[0] + (B[1] - B[0]) * T(g.in(0, 64)) / 64;
            T v = g.coin(1, 3) ? (g.coin() ? B[2] : B[3]) : B[2] + (B[3] - B[2]) * T(g.in(0, 64)) / 64;
            if (w == 2) u = nextout(g, B[0], B[1], g.coin());
            if (w == 3) v = nextout(g, B[2], B[3], g.coin());
            size_t du = g.in(0, 1), dv = g.in(0, 1);
            std::array<T, dim> r{};
            int how = g.in(0, 3);
            std::string x = guard([&] {
                const Surface<T, dim> &ss = s;
                if (how == 0) r = ss.value(u, v, du, dv);
                else if (how == 1) r = ss(u, v, du, dv);
                else if (how == 2) { std::vector<std::array<T, dim>> K((du + 1) * (dv + 1)); ss.derivatives(u, v, du, dv, K.data()); r = K.back(); }
                else { std::vector<T> lu{B[0], u}, lv{B[2], v}; r = ss.values(lu, lv, du, dv).back(); }
            });
            rec(Obj()("op", "seval")("u", u)("v", v)("du", du)("dv", dv)("how", how)("x", r)("r", x));
        }
        }
    }
    o.raw("ev", ev.str());
    return o.str();
}
// weights and projected poles, conversion, lengths of weights
template <class T, size_t dim> std::string weights(size_t id, Rng &g)
{
    size_t p = g.in(1, 4);
    auto k = rand_knots<T>(g, p, g.in(0, 3), T(0), T(2), int(p));
    size_t n = k.size() - p - 1;
    auto P = rand_poles<T, dim>(g, n, false);
    std::vector<T> w(n);
    for (auto &x : w) x = T(g.in(1, 12)) / 4;
    Obj o;
    o("id", id)("kind", "weights")("fl", sizeof(T) == 4);
    Arr ev;
    std::vector<T> kk; std::vector<size_t> mm;
    for (T x : k) { if (!kk.empty() && kk.back() == x) mm.back()++; else { kk.push_back(x); mm.push_back(1); } }
    auto put = [&](const char *how, const BSCurveRational<T, dim> &c, const std::vector<T> &ww) {
        ev.add(Obj()("op", "weights")("how", how)("P", P)("w", ww).raw("c", curve_json(c, true))("pp", c.polesProjected())("ww", c.weights())("k", k)("p", p)); };
    put("weights", BSCurveRational<T, dim>(P, k, w, p), w);
    put("kmw", BSCurveRational<T, dim>(P, kk, mm, w, p), w);
    put("wkm", BSCurveRational<T, dim>(P, w, kk, mm, p), w);
    put("one", BSCurveRational<T, dim>(P, k, p), std::vector<T>(n, T(1)));
    put("conv", BSCurveRational<T, dim>(BSCurve<T, dim>(P, k, p)), std::vector<T>(n, T(1)));
    auto kv = rand_knots<T>(g, 1, g.in(0, 2), T(0), T(1), 1);
    size_t nv = kv.size() - 2;
    auto PS = rand_poles<T, dim>(g, n * nv, false);
    std::vector<T> ws(n * nv);
    for (auto &x : ws) x = T(g.in(1, 12)) / 4;
    BSSurfaceRational<T, dim> s(PS, ws, k, kv, p, 1);
    ev.add(Obj()("op", "sweights")("P", PS)("w", ws).raw("s", surf_json(s, true))("pp", s.polesProjected())("ww", s.weights())("k", k)("kv", kv)("p", p));
    // weights in another number than the poles
    auto wb = w;
    if (g.coin()) wb.push_back(T(1)); else wb.pop_back();
    auto wsb = ws; if (g.coin()) wsb.push_back(T(1)); else wsb.pop_back();
    ev.add(Obj()("op", "badw")("how", "weights")("r", guard([&] { BSCurveRational<T, dim> c(P, k, wb, p); })));
    ev.add(Obj()("op", "badw")("how", "wkm")("r", guard([&] { BSCurveRational<T, dim> c(P, wb, kk, mm, p); })));
    ev.add(Obj()("op", "badw")("how", "surf")("r", guard([&] { BSSurfaceRational<T, dim> c(PS, wsb, k, kv, p, 1); })));
    auto mb = mm; mb.pop_back();
    ev.add(Obj()("op", "badw")("how", "mults")("r", guard([&] { BSCurve<T, dim> c(P, kk, mb, p); })));
    o.raw("ev", ev.str());
    return o.str();
}
template <class T> std::string disp(size_t id, Rng &g)
{
    int w = g.in(0, 9);
    size_t dim = g.in(1, 3);
    bool rat = g.coin();
    if (w == 0) return dim == 1 ? weights<T, 1>(id, g) : dim == 2 ? weights<T, 2>(id, g) : weights<T, 3>(id, g);
    if (w < 4) return rat ? (dim == 1 ? slife<T, 1, true>(id, g) : slife<T, 3, true>(id, g)) : (dim == 1 ? slife<T, 2, false>(id, g) : slife<T, 3, false>(id, g));
    if (w < 6)
    {   // random definitions, most of them nearly valid
        Obj o;
        o("id", id)("kind", "defs")("fl", sizeof(T) == 4);
        Arr ev;
        for (int i = 0; i < 4; ++i)
        {
            size_t p = g.in(1, 6);
            auto k = rand_knots<T>(g, p, g.in(0, 4), T(0), T(2), int(p));
            size_t n = k.size() - p - 1;
            switch (g.in(0, 4)) { case 0: n += g.in(1, 2); break; case 1: n -= 1; break; case 2: std::swap(k[g.next() % k.size()], k[g.next() % k.size()]); break; case 3: { size_t d = g.in(1, 3); p += d; n = n > d ? n - d : 0; break; } default: break; }
            offer<T>(ev, g, k, n, p);
            size_t q = g.in(1, 3), p2 = g.in(1, 3);
            auto ku = rand_knots<T>(g, p2, g.in(0, 2), T(0), T(2), int(p2)), kv = rand_knots<T>(g, q, g.in(0, 2), T(0), T(2), int(q));
            size_t m = (ku.size() - p2 - 1) * (kv.size() - q - 1);
            switch (g.in(0, 5)) { case 0: m += 1; break; case 1: m -= 1; break; case 2: std::swap(ku[g.next() % ku.size()], ku[g.next() % ku.size()]); break; case 3: std::swap(kv[g.next() % kv.size()], kv[g.next() % kv.size()]); break;
            case 4: if (g.coin()) { p2 += 2; if (ku.size() > p2 + 1) m = (ku.size() - p2 - 1) * (kv.size() - q - 1); } else { q += 2; if (kv.size() > q + 1) m = (ku.size() - p2 - 1) * (kv.size() - q - 1); } break; default: break; }
            offer_surf<T>(ev, g, ku, kv, m, p2, q);
        }
        o.raw("ev", ev.str());
        return o.str();
    }
    return rat ? (dim == 1 ? life<T, 1, true>(id, g) : dim == 2 ? life<T, 2, true>(id, g) : life<T, 3, true>(id, g))
               : (dim == 1 ? life<T, 1, false>(id, g) : dim == 2 ? life<T, 2, false>(id, g) : life<T, 3, false>(id, g));
}
int main(int argc, char **argv)
{
    Args A(argc, argv);
    auto scn = read_scn(A.scn);
    const size_t per = 10;
    size_t n0 = (scn.size() + per - 1) / per;
    run_jobs(A.out.c_str(), n0 + A.n, [&](size_t id) {
        Rng g(A.seed * 1000003 + id);
        if (id < n0)
        {   // p np k...
            Obj o;
            o("id", id)("kind", "defs")("fl", false);
            Arr ev;
            for (size_t i = id * per; i < std::min(scn.size(), (id + 1) * per); ++i)
            {
                auto &t = scn[i];
                std::vector<double> k;
                for (size_t j = 2; j < t.size(); ++j) k.push_back(std::stod(t[j]));
                size_t p = std::stoul(t[0]), np = std::stoul(t[1]);
                offer<double>(ev, g, k, np, p);
                std::vector<double> ok{0, 0, 1, 1};
                offer_surf<double>(ev, g, k, ok, 2 * np, p, 1);
                offer_surf<double>(ev, g, ok, k, 2 * np, 1, p);
            }
            o.raw("ev", ev.str());
            return o.str();
        }
        return g.coin(1, 5) ? disp<float>(id, g) : disp<double>(id, g);
    });
}
