// Sequences of edits on one curve object (property C04).
#include "curves.h"
#include <gbs/bscurve.h>
#include <gbs/bsctools.h>
using namespace vh;
using namespace gbs;
template <class T, size_t dim, bool rat> struct CT;
template <class T, size_t dim> struct CT<T, dim, false> { using type = BSCurve<T, dim>; };
template <class T, size_t dim> struct CT<T, dim, true> { using type = BSCurveRational<T, dim>; };

struct Step { char op; int a, b; };

template <class T, size_t dim, bool rat>
std::string trace(size_t id, Rng &g, size_t p, const std::vector<T> &k, const std::vector<Step> &steps)
{
    using C = typename CT<T, dim, rat>::type;
    const size_t n = k.size() - p - 1;
    C c(rand_poles<T, dim + rat>(g, n, rat), k, p);
    Obj o;
    o("id", id)("kind", "edit")("fl", sizeof(T) == 4);
    o.raw("c", curve_json(c, rat));
    Arr ev;
    auto at = [&](int i) { // fraction i/8 of the domain: the real parameter handed to the code
        auto [a, b] = c.bounds();
        return i == 0 ? a : i == 8 ? b : a + (b - a) * T(i) / T(8);
    };
    // exactly an existing knot when one is within rounding of the target (as a caller who means that knot would do)
    auto snap = [&](T u) {
        for (T x : c.knotsFlats()) if (std::abs(x - u) < T(sizeof(T) == 4 ? 1e-3 : 1e-7)) return x;
        return u;
    };
    auto scale = [&]() {
        T s = 1;
        for (auto &x : c.poles()) for (T y : x) s = std::max(s, std::abs(y));
        return s;
    };
    for (auto &s : steps)
    {
        Obj e;
        auto fin = [&]() { e.raw("c", curve_json(c, rat)); ev.add(e); };
        switch (s.op)
        {
        case 'I': { T u = snap(at(s.a)); if (s.b == 1 && g.coin()) c.insertKnot(u); else c.insertKnot(u, s.b); e("op", "insert")("u", u)("m", s.b); fin(); break; }
        case 'K': {
            std::vector<std::pair<T, size_t>> km;
            Arr ar;
            for (int q = 0; q < s.b; ++q)
            {
                T u = snap(at(1 + (s.a + 3 * q) % 7)); size_t m = 1 + (s.a + q) % (c.degree() + 1);
                km.push_back({u, m});
                ar.add("[" + num(u) + "," + num(m) + "]");
            }
            c.insertKnots(km); e("op", "insertkm").raw("km", ar.str()); fin(); break; }
        case 'R': {
            T u = snap(at(s.a)); T tol = (sizeof(T) == 4 ? T(0.5) : T(1e-4)) * scale();
            if (g.coin(1, 4)) tol = (sizeof(T) == 4 ? T(1e-3) : T(1e-9));
            c.removeKnot(u, tol, s.b); e("op", "remove")("u", u)("m", s.b)("tol", tol); fin(); break; }
        case 'E': { if (s.a == 1 && g.coin()) c.increaseDegree(); else c.increaseDegree(s.a); e("op", "elevate")("t", s.a); fin(); break; }
        case 'T': { T u = snap(at(s.a)), v = snap(at(s.b)); if (g.coin(1, 6)) std::swap(u, v); c.trim(u, v); e("op", "trim")("a", u)("b", v); fin(); break; }
        case 'V': { if (g.coin(1, 3)) { auto r = c.reversed(); c = r; } else c.reverse(); e("op", "reverse"); fin(); break; }
        case 'B': {
            T a = s.a, b = s.b;
            if (g.coin()) c.changeBounds(a, b); else c.changeBounds(std::array<T, 2>{a, b});
            e("op", "rebound")("a", a)("b", b); fin(); break; }
        case 'X': { auto [a, b] = c.bounds(); T u = s.a ? b + T(s.b) : a - T(s.b); std::string r = guard([&] { c.insertKnot(u, 1); }); e("op", "insertout")("u", u)("r", r); fin(); break; }
        }
    }
    o.raw("ev", ev.str());
    return o.str();
}
template <class T, bool rat>
std::string disp(size_t id, Rng &g, size_t dim, size_t p, const std::vector<T> &k, const std::vector<Step> &st)
{
    switch (dim)
    {
    case 1: return trace<T, 1, rat>(id, g, p, k, st);
    case 2: return trace<T, 2, rat>(id, g, p, k, st);
    default: return trace<T, 3, rat>(id, g, p, k, st);
    }
}
int main(int argc, char **argv)
{
    Args A(argc, argv);
    auto scn = read_scn(A.scn);
    size_t n0 = scn.size();
    run_jobs(A.out.c_str(), n0 + A.n, [&](size_t id) {
        Rng g(A.seed * 1000003 + id);
        bool rat = g.coin(), fl = g.coin(1, 6);
        size_t dim = g.in(1, 3), p;
        std::vector<double> k;
        std::vector<Step> st;
        if (id < n0)
        {
            auto &t = scn[id];
            p = std::stoul(t[0]);
            k.assign(p + 1, 0.);
            for (int i = 0; i < std::stoi(t[1]); ++i) k.push_back(2.);
            for (size_t i = 0; i <= p; ++i) k.push_back(4.);
            for (size_t i = 2; i + 2 < t.size() + 0; i += 3) st.push_back({t[i][0], std::stoi(t[i + 1]), std::stoi(t[i + 2])});
        }
        else
        {
            static const int PS[] = {1, 2, 3, 4, 5, 3, 2, 6, 3, 4, 5, 7};
            p = PS[g.next() % 12];
            if (fl) p = 1 + p % 4;
            double a = 0, b = 1;
            switch (g.in(0, 4)) { case 0: a = -3, b = 5; break; case 1: a = 2, b = 2.5; break; case 2: a = 0, b = 64; break; default: break; }
            k.assign(p + 1, a);
            std::vector<int> pos;
            for (int q = 1; q < 16; ++q) if (g.coin(1, 5)) pos.push_back(q);
            for (int q : pos) { int m = g.coin() ? 1 : g.in(1, int(p)); while (m--) k.push_back(a + (b - a) * q / 16.); }
            for (size_t i = 0; i <= p; ++i) k.push_back(b);
            int ns = g.in(2, fl ? 4 : 8), deg = int(p);
            for (int q = 0; q < ns; ++q)
            {
                switch (g.in(0, 11))
                {
                case 0: case 1: case 2: st.push_back({'I', g.in(0, 8), g.in(1, 4)}); break;
                case 3: case 4: st.push_back({'R', g.in(0, 8), g.in(1, 3)}); break;
                case 5: { int t = g.in(1, 3); if (deg + t <= 9) { deg += t; st.push_back({'E', t, 0}); } break; }
                case 6: { int x = g.in(0, 6), y = g.in(x + 1, 8); st.push_back({'T', x, y}); break; }
                case 7: st.push_back({'V', 0, 0}); break;
                case 8: { int x = g.in(-4, 4); st.push_back({'B', x, x + g.in(1, 6)}); break; }
                case 9: st.push_back({'K', g.in(0, 20), g.in(1, 3)}); break;
                case 10: { int x = g.in(1, 7), m = g.in(1, 3); st.push_back({'I', x, m}); st.push_back({'R', x, m}); break; }
                case 11: st.push_back({'X', g.in(0, 1), g.in(1, 3)}); break;
                }
            }
            if (g.coin(1, 10) && p < 6)
            {   // a discontinuous curve: trims, insertions, reversals, changes of bounds
                int q = g.in(1, 7);
                k.assign(p + 1, a);
                for (size_t i = 0; i <= p; ++i) k.push_back(a + (b - a) * q / 8.);
                if (q < 6 && g.coin()) k.push_back(a + (b - a) * (q + 1) / 8.);
                for (size_t i = 0; i <= p; ++i) k.push_back(b);
                st.clear();
                if (g.coin()) st.push_back({'I', g.in(1, 7), g.in(1, 2)});
                if (g.coin(1, 4)) st.push_back({'V', 0, 0}), q = 8 - q;
                st.push_back({'T', 0, q});
                if (g.coin()) st.push_back({'V', 0, 0});
                if (g.coin()) st.push_back({'B', 1, 3});
            }
            if (!fl && g.coin(1, 25)) { p = 7; k.assign(8, 0.); for (int i = 0; i < 8; ++i) k.push_back(1.); st = {{'I', 4, 1}, {'E', g.in(5, 18), 0}}; }
        }
        std::vector<float> kf(k.begin(), k.end());
        if (fl) return rat ? disp<float, true>(id, g, dim, p, kf, st) : disp<float, false>(id, g, dim, p, kf, st);
        return rat ? disp<double, true>(id, g, dim, p, k, st) : disp<double, false>(id, g, dim, p, k, st);
    });
}
