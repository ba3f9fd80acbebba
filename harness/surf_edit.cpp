// Sequences of edits on one surface object, iso curves (property C05).
#include "curves.h"
using namespace vh;
using namespace gbs;
template <class T, size_t dim, bool rat> struct ST;
template <class T, size_t dim> struct ST<T, dim, false> { using type = BSSurface<T, dim>; };
template <class T, size_t dim> struct ST<T, dim, true> { using type = BSSurfaceRational<T, dim>; };
struct Step { char op; int v, a, b; };
template <class T, size_t dim, bool rat>
std::string trace(size_t id, Rng &g, size_t p, size_t q, const std::vector<T> &ku, const std::vector<T> &kv, const std::vector<Step> &steps)
{
    using S = typename ST<T, dim, rat>::type;
    size_t n = ku.size() - p - 1, m = kv.size() - q - 1;
    S s(rand_poles<T, dim + rat>(g, n * m, rat), ku, kv, p, q);
    Obj o;
    o("id", id)("kind", "edit")("fl", sizeof(T) == 4);
    o.raw("s", surf_json(s, rat));
    Arr ev;
    auto at = [&](int v, int i) {
        auto B = s.bounds();
        T a = B[2 * v], b = B[2 * v + 1];
        return i == 0 ? a : i == 8 ? b : a + (b - a) * T(i) / T(8);
    };
    auto snap = [&](int v, T u) {
        for (T x : v ? s.knotsFlatsV() : s.knotsFlatsU()) if (std::abs(x - u) < T(sizeof(T) == 4 ? 1e-3 : 1e-7)) return x;
        return u;
    };
    for (auto &st : steps)
    {
        Obj e;
        int v = st.v;
        auto fin = [&]() { e("dir", v).raw("s", surf_json(s, rat)); ev.add(e); };
        switch (st.op)
        {
        case 'I': { T u = snap(v, at(v, st.a)); if (v) { if (st.b == 1) s.insertKnotV(u); else s.insertKnotV(u, st.b); } else { if (st.b == 1) s.insertKnotU(u); else s.insertKnotU(u, st.b); } e("op", "insert")("a", u)("m", st.b); fin(); break; }
        case 'O': { T u = st.a ? at(v, 8) + T(st.b) : at(v, 0) - T(st.b); std::string r = guard([&] { if (v) s.insertKnotV(u); else s.insertKnotU(u); }); e("op", "insertout")("a", u)("r", r); fin(); break; }
        case 'E': { if (v) s.increaseDegreeV(); else s.increaseDegreeU(); e("op", "elevate"); fin(); break; }
        case 'T': { T a = snap(v, at(v, st.a)), b = snap(v, at(v, st.b)); if (g.coin(1, 6)) std::swap(a, b); if (v) s.trimV(a, b); else s.trimU(a, b); e("op", "trim")("a", a)("b", b); fin(); break; }
        case 'V': { if (v) s.reverseV(); else s.reverseU(); e("op", "reverse"); fin(); break; }
        case 'B': { T a = st.a, b = st.b; if (v) s.changeVBounds(a, b); else s.changeUBounds(a, b); e("op", "rebound")("a", a)("b", b); fin(); break; }
        case 'X': { s.invertUV(); e("op", "invert"); fin(); break; }
        }
        // iso curves of the current surface
        for (int q2 = 0; q2 < 2; ++q2)
        {
            int w = g.in(0, 1);
            T a = snap(w, at(w, q2 ? g.in(0, 8) : (g.coin() ? 8 : 0)));
            Obj f;
            f("op", "iso")("dir", w)("a", a);
            if (w) f.raw("c", curve_json(s.isoV(a), rat)); else f.raw("c", curve_json(s.isoU(a), rat));
            ev.add(f);
        }
        int w = g.in(0, 1);
        T a = g.coin() ? at(w, 8) + T(0.25) : at(w, 0) - T(0.25);
        ev.add(Obj()("op", "isooob")("r", guard([&] { if (w) (void)s.isoV(a); else (void)s.isoU(a); })));
    }
    o.raw("ev", ev.str());
    return o.str();
}
template <class T, bool rat> std::string disp(size_t id, Rng &g, size_t dim, size_t p, size_t q, const std::vector<T> &ku, const std::vector<T> &kv, const std::vector<Step> &st)
{
    switch (dim)
    {
    case 1: return trace<T, 1, rat>(id, g, p, q, ku, kv, st);
    case 2: return trace<T, 2, rat>(id, g, p, q, ku, kv, st);
    default: return trace<T, 3, rat>(id, g, p, q, ku, kv, st);
    }
}
int main(int argc, char **argv)
{
    Args A(argc, argv);
    auto scn = read_scn(A.scn);
    size_t n0 = scn.size();
    run_jobs(A.out.c_str(), n0 + A.n, [&](size_t id) {
        Rng g(A.seed * 1000003 + id);
        bool rat = g.coin(), fl = g.coin(1, 6);
        size_t dim = g.in(1, 3), p, q;
        std::vector<double> ku, kv;
        std::vector<Step> st;
        if (id < n0)
        {
            auto &t = scn[id];
            p = std::stoul(t[0]), q = std::stoul(t[1]);
            auto mk = [](size_t d, int m, double x) { std::vector<double> k(d + 1, 0.); while (m--) k.push_back(x); for (size_t i = 0; i <= d; ++i) k.push_back(2 * x); return k; };
            ku = mk(p, std::stoi(t[2]), 2.), kv = mk(q, 1, 1.);
            for (size_t i = 3; i + 3 < t.size(); i += 4) st.push_back({t[i][0], std::stoi(t[i + 1]), std::stoi(t[i + 2]), std::stoi(t[i + 3])});
        }
        else
        {
            static const int PS[] = {1, 2, 3, 3, 2, 4, 5};
            p = PS[g.next() % 7], q = PS[g.next() % 7];
            auto mk = [&](size_t d) {
                double a = 0, b = 1;
                switch (g.in(0, 4)) { case 0: a = -3, b = 5; break; case 1: a = 2, b = 2.5; break; case 2: a = 0, b = 64; break; default: break; }
                std::vector<double> k(d + 1, a);
                for (int x = 1; x < 8; ++x) if (g.coin(1, 5)) { int m = g.coin() ? 1 : g.in(1, int(d)); while (m--) k.push_back(a + (b - a) * x / 8.); }
                for (size_t i = 0; i <= d; ++i) k.push_back(b);
                return k;
            };
            ku = mk(p), kv = mk(q);
            int ns = g.in(2, fl ? 3 : 5);
            size_t de[2] = {p, q};
            for (int i = 0; i < ns; ++i)
            {
                int v = g.in(0, 1);
                switch (g.in(0, 8))
                {
                case 0: case 1: case 2: st.push_back({'I', v, g.in(0, 8), g.in(1, 3)}); break;
                case 3: if (de[v] < 7) { de[v]++; st.push_back({'E', v, 0, 0}); } break;
                case 4: { int x = g.in(0, 6); st.push_back({'T', v, x, g.in(x + 1, 8)}); break; }
                case 5: st.push_back({'V', v, 0, 0}); break;
                case 6: { int x = g.in(-4, 4); st.push_back({'B', v, x, x + g.in(1, 6)}); break; }
                case 7: st.push_back({'X', 0, 0, 0}); std::swap(de[0], de[1]); break;
                case 8: st.push_back({'O', v, g.in(0, 1), g.in(1, 3)}); break;
                }
            }
        }
        std::vector<float> fu(ku.begin(), ku.end()), fv(kv.begin(), kv.end());
        if (fl) return rat ? disp<float, true>(id, g, dim, p, q, fu, fv, st) : disp<float, false>(id, g, dim, p, q, fu, fv, st);
        return rat ? disp<double, true>(id, g, dim, p, q, ku, kv, st) : disp<double, false>(id, g, dim, p, q, ku, kv, st);
    });
}
