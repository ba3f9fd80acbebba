// C11: batch builders and bulk evaluators, on both sides of their gates.
#include "curves.h"
#include <gbs/bscinterp.h>
#include <gbs/bscapprox.h>
#include <gbs/bscanalysis.h>
#include <gbs/bssanalysis.h>
#include <gbs/offsets.h>
#include <mutex>
#include <thread>
#include <list>
#include <map>
#include <deque>
using namespace vh;
using namespace gbs;

struct Log
{
    std::mutex m;
    Arr ev;
    std::map<std::thread::id, int> ids;
    Log() { ids[std::this_thread::get_id()] = 0; }
    int id() { auto r = ids.emplace(std::this_thread::get_id(), int(ids.size())); return r.first->second; }
    void start(size_t i) { std::lock_guard<std::mutex> l(m); ev.add(Obj()("op", "start")("i", i)("w", id())); }
    void end(size_t i, bool ok) { std::lock_guard<std::mutex> l(m); ev.add(Obj()("op", "end")("i", i)("w", id())("ok", ok)); }
};
struct Fail { size_t i; };
static void dawdle(uint64_t h)
{
    switch (h % 4)
    {
    case 0: std::this_thread::yield(); break;
    case 1: std::this_thread::sleep_for(std::chrono::microseconds(h / 4 % 150)); break;
    default: for (volatile uint64_t k = 0; k < h / 4 % 2000; ++k) {} break;
    }
}
// instrumented batch
static void batch(Rng &g, Log &L, size_t n, size_t gate, const std::vector<size_t> &fails)
{
    std::vector<size_t> in(n), want(n);
    for (size_t i = 0; i < n; ++i) { in[i] = i + 1; want[i] = (i + 1) * 7 + 3; }
    uint64_t salt = g.next();
    L.ev.add(Obj()("op", "call")("n", n)("gate", gate)("fails", fails)("serialvals", want));
    auto f = [&](size_t i) -> size_t {
        L.start(i);
        dawdle(Rng(salt + i).next());
        bool bad = std::find(fails.begin(), fails.end(), i) != fails.end();
        L.end(i, !bad);
        if (bad) throw Fail{i};
        return i * 7 + 3;
    };
    try
    {
        std::vector<size_t> r;
        bool lst = g.coin(1, 3), def = g.coin();
        if (def) parallel_batch_min_size = gate;
        if (lst)
        {
            std::list<size_t> l(in.begin(), in.end());
            r = def ? build_batch(l, f) : build_batch(l, f, gate);
        }
        else
            r = def ? build_batch(in, f) : build_batch(in, f, gate);
        L.ev.add(Obj()("op", "ret")("vals", r));
    }
    catch (const Fail &x) { L.ev.add(Obj()("op", "thr")("i", x.i)); }
}
// instrumented bulk transforms
static void bulk(Rng &g, Log &L, size_t n, size_t gate, const std::vector<size_t> &fails)
{
    std::vector<size_t> in(n), want(n), got(n, 0);
    for (size_t i = 0; i < n; ++i) { in[i] = i + 1; want[i] = (i + 1) * 5 + 2; }
    parallel_min_size = gate;
    uint64_t salt = g.next();
    std::vector<size_t> seq;
    std::vector<int> ws;
    std::mutex m;
    auto f = [&](size_t i) -> size_t {
        { std::lock_guard<std::mutex> l(m); seq.push_back(i); std::lock_guard<std::mutex> l2(L.m); ws.push_back(L.id()); }
        dawdle(Rng(salt + i).next());
        if (std::find(fails.begin(), fails.end(), i) != fails.end()) throw Fail{i};
        return i * 5 + 2;
    };
    size_t r = 0;
    bool endok = true;
    try
    {
        switch (g.in(0, 2))
        {
        case 0: endok = transform_threshold(in.begin(), in.end(), got.begin(), f) == got.end(); break;
        case 1: { std::list<size_t> l(in.begin(), in.end()); endok = transform_threshold(l.begin(), l.end(), got.begin(), f) == got.end(); break; }
        default: endok = transform_threshold(in.begin(), in.end(), in.begin(), got.begin(), [&](size_t a, size_t b) { return f(a) + (b - a); }) == got.end();
        }
    }
    catch (const Fail &x) { r = x.i; }
    if (!endok) got.push_back(0);
    L.ev.add(Obj()("op", "bulk")("n", n)("gate", gate)("fails", fails)("r", r)("got", got)("want", want));
    L.ev.add(Obj()("op", "order")("serial", n < gate)("seq", seq)("ws", ws));
}
// got: bulk result; one(i): the i-th single result.  Records both with all digits.
template <class V, class F> std::string lib(Rng &, const char *what, size_t n, F &&one, const std::function<std::vector<V>()> &all)
{
    std::vector<V> want(n), got;
    size_t first = 0;
    std::string kind, r;
    for (size_t i = 0; i < n && !first; ++i)
    {
        kind = guard([&] { want[i] = one(i); });
        if (!kind.empty()) first = i + 1;
    }
    r = guard([&] { got = all(); });
    Obj o;
    o("op", "lib")("what", what)("n", n)("first", first)("kind", kind)("r", r);
    if (r.empty()) o("got", got)("want", want);
    else { o("got", std::vector<int>{})("want", std::vector<int>{}); }
    return o.str();
}
template <size_t dim> std::string curve_str(const BSCurve<double, dim> &c) { return curve_json(c, false); }

static std::string job(size_t id, uint64_t seed, const std::vector<std::string> *scn)
{
    Rng g(seed * 1000003 + id);
    Log L;
    if (scn)
    {
        size_t n = std::stoul((*scn)[0]), gate = std::stoul((*scn)[1]);
        std::vector<size_t> fails;
        for (size_t i = 0; i < n; ++i) if ((*scn)[2 + i] == "1") fails.push_back(i + 1);
        batch(g, L, n, gate, fails);
        bulk(g, L, n, gate, fails);
    }
    else
    {
        using T = double;
        static const size_t GATES[] = {0, 1, 5, 16, 40, 1000};
        size_t gate = GATES[g.next() % 6];
        size_t n = gate == 1000 && id % 5 == 0 ? size_t(g.in(990, 1100)) : size_t(g.in(0, 60));
        parallel_min_size = gate;
        bool oob = g.coin(1, 3) && n > 0;
        size_t bad = oob ? g.next() % n : 0;
        auto param = [&](T a, T b) { return a + (b - a) * T(g.in(0, 1 << 20)) / T(1 << 20); };
        switch (id % 6)
        {
        case 0: case 1:
        {
            std::vector<size_t> fails;
            size_t nb = g.in(0, 30);
            for (size_t i = 1; i <= nb; ++i) if (g.coin(1, 12)) fails.push_back(i);
            batch(g, L, nb, GATES[g.next() % 5], fails);
            bulk(g, L, nb, GATES[g.next() % 5], fails);
            break;
        }
        case 2:
        {
            size_t p = g.in(1, 5);
            bool rat = g.coin();
            auto k = rand_knots<T>(g, p, g.in(0, 6), T(-1), T(3), p);
            std::vector<T> u(n);
            for (auto &x : u) x = param(-1, 3);
            if (oob) u[bad] = g.coin() ? 3.5 : -2;
            size_t d = g.in(0, 2);
            auto go = [&](const auto &c) {
                using V = std::decay_t<decltype(c.value(T(0)))>;
                std::list<T> ul(u.begin(), u.end());
                std::deque<T> ud(u.begin(), u.end());
                L.ev.add(lib<V>(g, "values", n, [&](size_t i) { return c.value(u[i], d); }, [&]() -> std::vector<V> { return c.values(u, d); }));
                L.ev.add(lib<V>(g, "valueslist", n, [&](size_t i) { return c.value(u[i], d); }, [&]() -> std::vector<V> { return g.coin() ? c.values(ul, d) : c.values(ud, d); }));
                L.ev.add(lib<V>(g, "d_dms", n, [&](size_t i) { return c.d_dm(u[i]); }, [&]() -> std::vector<V> { return c.d_dms(u); }));
                L.ev.add(lib<V>(g, "d_dm2s", n, [&](size_t i) { return c.d_dm2(u[i]); }, [&]() -> std::vector<V> { return c.d_dm2s(ul); }));
                L.ev.add(lib<V>(g, "make_points", n, [&](size_t i) { return c.value(u[i], d); }, [&]() -> std::vector<V> { return make_points(c, ul, d); }));
                // concurrent use of one curve by several threads of the caller
                std::vector<std::vector<V>> th(3);
                std::vector<std::string> er(3);
                {
                    std::vector<std::thread> ts;
                    for (int t = 0; t < 3; ++t) ts.emplace_back([&, t] { er[t] = guard([&] { th[t] = c.values(u, d); }); });
                    for (auto &t : ts) t.join();
                }
                for (int t = 0; t < 3; ++t)
                    L.ev.add(lib<V>(g, "threads", n, [&](size_t i) { return c.value(u[i], d); }, [&]() -> std::vector<V> { if (!er[t].empty()) throw std::domain_error(er[t]); return th[t]; }));
            };
            if (rat) go(BSCurveRational<T, 2>(rand_poles<T, 3>(g, k.size() - p - 1, true), k, p));
            else go(BSCurve<T, 3>(rand_poles<T, 3>(g, k.size() - p - 1, false), k, p));
            break;
        }
        case 3:
        {
            size_t p = g.in(1, 3), q = g.in(1, 3);
            auto ku = rand_knots<T>(g, p, g.in(0, 3), T(-1), T(3), p), kv = rand_knots<T>(g, q, g.in(0, 3), T(0), T(1), q);
            BSSurface<T, 3> s(rand_poles<T, 3>(g, (ku.size() - p - 1) * (kv.size() - q - 1), false), ku, kv, p, q);
            using V = std::array<T, 3>;
            std::vector<T> u(n), v(n);
            std::vector<std::array<T, 2>> uv(n);
            for (size_t i = 0; i < n; ++i) { u[i] = param(-1, 3); v[i] = param(0, 1); if (oob && i == bad) v[i] = 2; uv[i] = {u[i], v[i]}; }
            size_t du = g.in(0, 1), dv = g.in(0, 2);
            L.ev.add(lib<V>(g, "svalues", n, [&](size_t i) { return s.value(u[i], v[i], du, dv); }, [&]() -> std::vector<V> { return s.values(uv, du, dv); }));
            L.ev.add(lib<V>(g, "svalues2", n, [&](size_t i) { return s.value(u[i], v[i], du, dv); }, [&]() -> std::vector<V> { return s.values(u, v, du, dv); }));
            L.ev.add(lib<V>(g, "d_dmus", n, [&](size_t i) { return s.d_dmu(u[i], v[i]); }, [&]() -> std::vector<V> { return s.d_dmus(uv); }));
            L.ev.add(lib<V>(g, "d_dmvs", n, [&](size_t i) { return s.d_dmv(u[i], v[i]); }, [&]() -> std::vector<V> { return s.d_dmvs(uv); }));
            L.ev.add(lib<V>(g, "d_dmu2s", n, [&](size_t i) { return s.d_dmu2(u[i], v[i]); }, [&]() -> std::vector<V> { return s.d_dmu2s(uv); }));
            L.ev.add(lib<V>(g, "d_dmv2s", n, [&](size_t i) { return s.d_dmv2(u[i], v[i]); }, [&]() -> std::vector<V> { return s.d_dmv2s(uv); }));
            size_t nu = g.in(2, 9), nv = g.in(2, 9);
            auto ru = make_range(T(-1), T(3), nu), rv = make_range(T(0), T(1), nv);
            L.ev.add(lib<V>(g, "sdiscretize", nu * nv, [&](size_t i) { return s.value(ru[i % nu], rv[i / nu]); }, [&]() -> std::vector<V> { return discretize(s, nu, nv); }));
            break;
        }
        case 4: case 5:
        {
            // batches of curves; the i-th set may be too small for the degree
            static const size_t BG[] = {0, 1, 4, 8, 100};
            parallel_batch_min_size = BG[g.next() % 5];
            size_t nb = g.in(0, 14), p = g.in(1, 4), np = p + 1 + g.in(0, 3);
            bool fit = g.coin();
            std::vector<points_vector<T, 2>> Q(nb);
            for (auto &q : Q)
            {
                size_t m = g.coin(1, 15) ? p : np + g.in(0, 12);
                for (size_t i = 0; i < m; ++i) q.push_back({T(i) + T(g.dy(-1, 1, 8)) / 4, T(g.dy(-4, 4, 8))});
            }
            bool ad = g.coin();
            KnotsCalcMode mode = g.coin() ? KnotsCalcMode::CHORD_LENGTH : KnotsCalcMode::EQUALLY_SPACED;
            auto one = [&](size_t i) { return fit ? approx<T, 2>(Q[i], p, p + 1, mode, ad) : interpolate<T, 2>(Q[i], p, mode); };
            L.ev.add(lib<std::string>(g, fit ? "approx" : "interpolate", nb,
                [&](size_t i) { auto s = curve_str(one(i)); for (auto &c : s) if (c == '"') c = '\''; return s; },
                [&]() -> std::vector<std::string> {
                    auto r = fit ? approx<T, 2>(Q, p, p + 1, mode, ad) : interpolate<T, 2>(Q, p, mode);
                    std::vector<std::string> o;
                    for (auto &c : r) { auto s = curve_str(c); for (auto &x : s) if (x == '"') x = '\''; o.push_back(s); }
                    return o;
                }));
            break;
        }
        }
    }
    return Obj()("id", id)("kind", "batch").raw("ev", L.ev.str()).str();
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    auto scn = read_scn(a.scn);
    size_t ns = scn.size();
    run_jobs(a.out.c_str(), a.n + ns, [&](size_t i) -> std::string {
        return job(i < ns ? i : i - ns, a.seed, i < ns ? &scn[i] : nullptr);
    });
}
