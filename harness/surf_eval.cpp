// Evaluation of B-spline / NURBS surfaces through every public route (property C03).
#include "curves.h"
#include <list>
using namespace vh;
using namespace gbs;
template <class T, size_t dim, bool rat> struct ST;
template <class T, size_t dim> struct ST<T, dim, false> { using type = BSSurface<T, dim>; };
template <class T, size_t dim> struct ST<T, dim, true> { using type = BSSurfaceRational<T, dim>; };
template <class T> T nxt(T x, int up) { return std::nextafter(x, up > 0 ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity()); }

template <class T> std::vector<T> params(Rng &g, const std::vector<T> &k)
{
    std::vector<T> us, dk;
    for (T x : k) if (dk.empty() || x > dk.back()) dk.push_back(x);
    for (size_t i = 0; i < dk.size(); ++i)
    {
        us.push_back(dk[i]);
        if (i + 1 < dk.size())
        {
            us.push_back((dk[i] + dk[i + 1]) / 2);
            us.push_back(dk[i] + (dk[i + 1] - dk[i]) * T(g.in(1, 31)) / T(32));
            us.push_back(nxt(dk[i], 1));
            us.push_back(nxt(dk[i + 1], -1));
        }
    }
    return us;
}
template <class T, size_t dim, bool rat>
std::string trace(size_t id, Rng &g, size_t p, size_t q, const std::vector<T> &ku, const std::vector<T> &kv)
{
    using S = typename ST<T, dim, rat>::type;
    size_t n = ku.size() - p - 1, m = kv.size() - q - 1;
    auto P = rand_poles<T, dim + rat>(g, n * m, rat);
    auto make = [&]() -> S {
        auto [U, MU] = knots_and_mults(ku);
        auto [V, MV] = knots_and_mults(kv);
        switch (g.in(0, rat ? 3 : 1))
        {
        case 0: return S(P, ku, kv, p, q);
        case 1: return S(P, U, V, MU, MV, p, q);
        default:
            if constexpr (rat)
            {
                points_vector<T, dim> Q(n * m);
                std::vector<T> w(n * m);
                for (size_t i = 0; i < n * m; ++i)
                {
                    w[i] = P[i][dim];
                    for (size_t c = 0; c < dim; ++c) Q[i][c] = P[i][c] / w[i];
                }
                if (g.coin()) return S(Q, w, ku, kv, p, q);
                return S(Q, w, U, V, MU, MV, p, q);
            }
            return S(P, ku, kv, p, q);
        }
    };
    S s = make();
    Obj o;
    o("id", id)("kind", "eval")("fl", sizeof(T) == 4);
    Obj os;
    os("p", p)("q", q)("ku", ku)("kv", kv)("P", P)("rat", rat);
    o.raw("s", os.str());
    Arr ev;
    ev.add(Obj()("op", "bounds")("r", s.bounds()));
    auto us = params(g, ku), vs = params(g, kv);
    auto ru = [&] { return us[g.next() % us.size()]; };
    auto rv = [&] { return vs[g.next() % vs.size()]; };
    auto od = [&](size_t d) { return size_t(g.in(0, int(std::min<size_t>(d + 1, 3)))); };
    // corners and edges, then random pairs
    std::vector<std::array<T, 2>> uv{{us.front(), vs.front()}, {us.back(), vs.front()}, {us.front(), vs.back()}, {us.back(), vs.back()},
                                     {ru(), vs.back()}, {us.back(), rv()}, {us.front(), rv()}};
    for (int i = 0; i < 8; ++i) uv.push_back({ru(), rv()});
    for (auto &x : uv)
    {
        size_t a = od(p), b = od(q);
        ev.add(Obj()("op", "val")("u", x[0])("v", x[1])("du", a)("dv", b)("r", s.value(x[0], x[1], a, b)));
        switch (g.in(0, 3))
        {
        case 0: ev.add(Obj()("op", "val")("u", x[0])("v", x[1])("du", 0)("dv", 0)("r", s(x[0], x[1]))); break;
        case 1: ev.add(Obj()("op", "val")("u", x[0])("v", x[1])("du", a)("dv", b)("r", s(x, a, b))); break;
        case 2: { const Surface<T, dim> &b0 = s; ev.add(Obj()("op", "val")("u", x[0])("v", x[1])("du", b)("dv", a)("r", b0.value(x, b, a))); break; }
        default: ev.add(Obj()("op", "val")("u", x[0])("v", x[1])("du", 0)("dv", 0)("r", s.value(x[0], x[1]))); break;
        }
    }
    for (int i = 0; i < 3; ++i)
    {
        size_t a = g.in(0, 3), b = g.in(0, 3);
        if (i == 0) { a = std::min<size_t>(p + 1, 4); b = 1; }
        T u = ru(), v = rv();
        std::vector<std::array<T, dim>> K((a + 1) * (b + 1));
        for (auto &x : K) x.fill(T(77));
        s.derivatives(u, v, a, b, K.data());
        ev.add(Obj()("op", "ders")("u", u)("v", v)("nu", a)("nv", b)("r", K));
    }
    {
        std::vector<std::array<T, 2>> l(uv.begin() + 3, uv.begin() + 9);
        std::list<std::array<T, 2>> ll(l.begin(), l.end());
        const Surface<T, dim> &b0 = s;
        size_t a = g.in(0, 1), b = g.in(0, 1);
        ev.add(Obj()("op", "vals")("uv", l)("du", a)("dv", b)("r", b0.values(l, a, b)));
        ev.add(Obj()("op", "vals")("uv", l)("du", 0)("dv", 0)("r", b0.values(ll)));
        std::vector<T> lu, lv;
        for (auto &x : l) { lu.push_back(x[0]); lv.push_back(x[1]); }
        ev.add(Obj()("op", "vals")("uv", l)("du", b)("dv", a)("r", b0.values(lu, lv, b, a)));
    }
    {
        T u = ru(), v = rv(), a = T(g.dy(-3, 3, 4)), b = T(g.dy(-3, 3, 4));
        ev.add(Obj()("op", "tg")("u", u)("v", v)("a", a)("b", b)("r", s.tangent(u, v, a, b)));
    }
    if constexpr (dim > 1)
    {
        std::vector<std::array<T, 2>> l;
        for (auto &x : uv)
        {
            auto a = s.value(x[0], x[1], 1, 0), b = s.value(x[0], x[1], 0, 1);
            T na = 0, nb = 0;
            for (size_t c = 0; c < dim; ++c) na += a[c] * a[c], nb += b[c] * b[c];
            if (na > T(0.25) && nb > T(0.25)) l.push_back(x);
            if (l.size() == 3) break;
        }
        for (auto &x : l)
        {
            T u = x[0], v = x[1];
            ev.add(Obj()("op", "dm")("u", u)("v", v)("a", 1)("b", 0)("r", s.d_dmu(u, v)));
            ev.add(Obj()("op", "dm")("u", u)("v", v)("a", 0)("b", 1)("r", s.d_dmv(u, v)));
            ev.add(Obj()("op", "dm2")("u", u)("v", v)("a", 1)("b", 0)("r", s.d_dmu2(u, v)));
            ev.add(Obj()("op", "dm2")("u", u)("v", v)("a", 0)("b", 1)("r", s.d_dmv2(u, v)));
        }
        auto r1 = s.d_dmus(l), r2 = s.d_dmvs(l), r3 = s.d_dmu2s(l), r4 = s.d_dmv2s(l);
        for (size_t i = 0; i < l.size(); ++i)
        {
            T u = l[i][0], v = l[i][1];
            ev.add(Obj()("op", "dm")("u", u)("v", v)("a", 1)("b", 0)("r", r1[i]));
            ev.add(Obj()("op", "dm")("u", u)("v", v)("a", 0)("b", 1)("r", r2[i]));
            ev.add(Obj()("op", "dm2")("u", u)("v", v)("a", 1)("b", 0)("r", r3[i]));
            ev.add(Obj()("op", "dm2")("u", u)("v", v)("a", 0)("b", 1)("r", r4[i]));
        }
    }
    if constexpr (dim == 1 && !rat)
    {
        BSSfunction<T> f{s};
        T u = ru(), v = rv();
        size_t a = g.in(0, 2), b = g.in(0, 2);
        ev.add(Obj()("op", "val")("u", u)("v", v)("du", a)("dv", b)("r", std::array<T, 1>{f(u, v, a, b)}));
        ev.add(Obj()("op", "bounds")("r", f.bounds()));
    }
    // free evaluators
    {
        T u = ru(), v = rv();
        size_t a = g.in(0, 2), b = g.in(0, 2);
        if constexpr (rat)
        {
            std::vector<std::array<T, dim>> K((a + 1) * (b + 1));
            eval_rational_ders<T, dim>(u, v, ku, kv, P, p, q, a, b, K.data());
            ev.add(Obj()("op", "ders")("u", u)("v", v)("nu", a)("nv", b)("r", K));
        }
        else
        {
            ev.add(Obj()("op", "val")("u", u)("v", v)("du", a)("dv", b)("r", eval_value_decasteljau(u, v, ku, kv, P, p, q, a, b)));
        }
    }
    // poles
    {
        size_t i = g.in(0, int(n) - 1), j = g.in(0, int(m) - 1);
        const S &cs = s;
        ev.add(Obj()("op", "pole")("i", i)("j", j)("r", s.pole(i, j)));
        ev.add(Obj()("op", "pole")("i", i)("j", j)("r", cs.pole(i, j)));
        ev.add(Obj()("op", "row")("j", j)("r", s.polesU(j)));
        ev.add(Obj()("op", "col")("i", i)("r", s.polesV(i)));
        ev.add(Obj()("op", "row")("j", m + i)("r", s.polesU(m + i)));
        ev.add(Obj()("op", "col")("i", n + j)("r", s.polesV(n + j)));
        ev.add(Obj()("op", "oobpole")("r", guard([&] { (void)s.pole(n + j, j); })));
        ev.add(Obj()("op", "oobpole")("r", guard([&] { (void)cs.pole(i, m + i); })));
    }
    // outside of the bounds
    {
        auto b = s.bounds();
        T d = T(0.01) * T(g.in(1, 200));
        T u = ru(), v = rv();
        size_t a = g.in(0, 1), c = g.in(0, 1);
        std::array<T, dim> K[4];
        ev.add(Obj()("op", "oob")("r", guard([&] { (void)s.value(b[0] - d, v, a, c); })));
        ev.add(Obj()("op", "oob")("r", guard([&] { (void)s.value(b[1] + d, v, a, c); })));
        ev.add(Obj()("op", "oob")("r", guard([&] { (void)s.value(u, b[2] - d, a, c); })));
        ev.add(Obj()("op", "oob")("r", guard([&] { (void)s.value(u, b[3] + d, a, c); })));
        switch (g.in(0, 3))
        {
        case 0: ev.add(Obj()("op", "oob")("r", guard([&] { s.derivatives(b[0] - d, v, 1, 1, K); }))); break;
        case 1: ev.add(Obj()("op", "oob")("r", guard([&] { s.derivatives(b[1] + d, v, 1, 1, K); }))); break;
        case 2: ev.add(Obj()("op", "oob")("r", guard([&] { s.derivatives(u, b[2] - d, 1, 1, K); }))); break;
        case 3: ev.add(Obj()("op", "oob")("r", guard([&] { s.derivatives(u, b[3] + d, 1, 1, K); }))); break;
        }
    }
    o.raw("ev", ev.str());
    return o.str();
}
template <class T, bool rat> std::string disp(size_t id, Rng &g, size_t dim, size_t p, size_t q, const std::vector<T> &ku, const std::vector<T> &kv)
{
    switch (dim)
    {
    case 1: return trace<T, 1, rat>(id, g, p, q, ku, kv);
    case 2: return trace<T, 2, rat>(id, g, p, q, ku, kv);
    default: return trace<T, 3, rat>(id, g, p, q, ku, kv);
    }
}
int main(int argc, char **argv)
{
    Args A(argc, argv);
    auto scn = read_scn(A.scn);
    size_t n0 = scn.size();
    run_jobs(A.out.c_str(), n0 + A.n, [&](size_t id) {
        Rng g(A.seed * 1000003 + id);
        bool rat = g.coin(), fl = g.coin(1, 5);
        size_t dim = g.in(1, 3), p, q;
        std::vector<double> ku, kv;
        if (id < n0)
        {
            auto &t = scn[id];
            p = std::stoul(t[0]), q = std::stoul(t[1]);
            auto mk = [](size_t d, int m) { std::vector<double> k(d + 1, 0.); while (m--) k.push_back(2.); for (size_t i = 0; i <= d; ++i) k.push_back(4.); return k; };
            ku = mk(p, std::stoi(t[2])), kv = mk(q, std::stoi(t[3]));
        }
        else
        {
            static const int PS[] = {1, 2, 3, 4, 5, 3, 2, 1, 6, 7};
            p = PS[g.next() % 10], q = PS[g.next() % 10];
            auto mk = [&](size_t d) {
                double a = 0, b = 1;
                switch (g.in(0, 4)) { case 0: a = -3, b = 5; break; case 1: a = 2, b = 2.5; break; case 2: a = 0, b = 64; break; default: break; }
                return rand_knots<double>(g, d, g.in(0, d > 4 ? 2 : 4), a, b, int(d));
            };
            ku = mk(p), kv = mk(q);
        }
        std::vector<float> fu(ku.begin(), ku.end()), fv(kv.begin(), kv.end());
        if (fl) return rat ? disp<float, true>(id, g, dim, p, q, fu, fv) : disp<float, false>(id, g, dim, p, q, fu, fv);
        return rat ? disp<double, true>(id, g, dim, p, q, ku, kv) : disp<double, false>(id, g, dim, p, q, ku, kv);
    });
}
