// Evaluation of B-spline / NURBS curves through every public route (property C02).
#include "curves.h"
#include <list>
#include <gbs/bscurve.h>
#include <gbs/bsctools.h>
using namespace vh;
using namespace gbs;

template <class T, size_t dim, bool rat> struct CT;
template <class T, size_t dim> struct CT<T, dim, false> { using type = BSCurve<T, dim>; };
template <class T, size_t dim> struct CT<T, dim, true> { using type = BSCurveRational<T, dim>; };

template <class T> T nxt(T x, int up) { return std::nextafter(x, up > 0 ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity()); }

template <class T, size_t dim, bool rat>
std::string trace(size_t id, Rng &g, size_t p, const std::vector<T> &k, bool heavy)
{
    using C = typename CT<T, dim, rat>::type;
    size_t n = k.size() - p - 1;
    auto P = rand_poles<T, dim + rat>(g, n, rat);
    // every constructor that can express the same definition
    auto make = [&]() -> C {
        auto km = knots_and_mults(k);
        switch (g.in(0, rat ? 3 : 1))
        {
        case 0: return C(P, k, p);
        case 1: return C(P, km.first, km.second, p);
        default:
            if constexpr (rat)
            {
                points_vector<T, dim> Q(n);
                std::vector<T> w(n);
                for (size_t i = 0; i < n; ++i)
                {
                    w[i] = P[i][dim];
                    for (size_t c = 0; c < dim; ++c) Q[i][c] = P[i][c] / w[i];
                }
                if (g.coin()) return C(Q, k, w, p);
                return C(Q, km.first, km.second, w, p);
            }
            return C(P, k, p);
        }
    };
    C c = make();
    Obj o;
    o("id", id)("kind", "eval")("fl", sizeof(T) == 4);
    Obj oc;
    oc("p", p)("k", k)("P", P)("rat", rat);
    o.raw("c", oc.str());
    Arr ev;
    ev.add(Obj()("op", "bounds")("r", c.bounds()));
    // parameters: every distinct knot, its neighbours, midpoints, random
    std::vector<T> us, dk;
    for (T x : k) if (dk.empty() || x > dk.back()) dk.push_back(x);
    for (size_t i = 0; i < dk.size(); ++i)
    {
        us.push_back(dk[i]);
        if (i + 1 < dk.size())
        {
            us.push_back((dk[i] + dk[i + 1]) / 2);
            us.push_back(dk[i] + (dk[i + 1] - dk[i]) * T(g.in(1, 31)) / T(32));
            // just after a knot, just before the next one
            us.push_back(nxt(dk[i], 1));
            us.push_back(nxt(dk[i + 1], -1));
        }
    }
    if (!heavy && us.size() > 14)
    {
        // keep the ends and a random subset
        std::vector<T> v{us.front(), us.back()};
        while (v.size() < 14) v.push_back(us[g.next() % us.size()]);
        us = v;
    }
    T a = k.front(), b = k.back();
    if (p > bspline_stack_max_degree)
    {
        // beyond the one-pass evaluator: few evaluations, they are exponential
        T u = us[g.next() % us.size()], v = (a + b) / 2;
        ev.add(Obj()("op", "val")("u", v)("d", 0)("r", c.value(v, 0)));
        ev.add(Obj()("op", "val")("u", u)("d", 1)("r", c.value(u, 1)));
        std::vector<std::array<T, dim>> CK(2);
        c.derivatives(v, 1, CK.data());
        ev.add(Obj()("op", "ders")("u", v)("n", 1)("r", CK));
        o.raw("ev", ev.str());
        return o.str();
    }
    for (T u : us)
    {
        size_t d = g.in(0, int(std::min<size_t>(p + 2, sizeof(T) == 8 && g.coin(1, 8) ? 10 : 6)));
        auto r = c.value(u, d);
        ev.add(Obj()("op", "val")("u", u)("d", d)("r", r));
        ev.add(Obj()("op", "val")("u", u)("d", 0)("r", c(u)));
    }
    for (int q = 0; q < 3; ++q)
    {
        T u = us[g.next() % us.size()];
        size_t nd = g.in(1, int(std::min<size_t>(p + 2, sizeof(T) == 8 && g.coin(1, 4) ? 12 : 6)));
        std::vector<std::array<T, dim>> CK(nd + 1);
        for (auto &x : CK) x.fill(T(77));
        c.derivatives(u, nd, CK.data());
        ev.add(Obj()("op", "ders")("u", u)("n", nd)("r", CK));
    }
    size_t d0 = g.in(0, int(std::min<size_t>(p, 4)));
    ev.add(Obj()("op", "val")("u", a)("d", d0)("r", c.begin(d0)));
    ev.add(Obj()("op", "val")("u", b)("d", d0)("r", c.end(d0)));
    ev.add(Obj()("op", "val")("u", c.midPosition())("d", 0)("r", c(c.midPosition(), 0)));
    // lists of parameters, two containers, unordered
    {
        std::vector<T> l;
        for (int q = 0; q < 5; ++q) l.push_back(us[g.next() % us.size()]);
        size_t d = g.in(0, 2);
        ev.add(Obj()("op", "vals")("us", l)("d", d)("r", c.values(l, d)));
        std::list<T> ll(l.begin(), l.end());
        ev.add(Obj()("op", "vals")("us", l)("d", 0)("r", c.values(ll)));
    }
    // free evaluators
    {
        T u = us[g.next() % us.size()];
        if constexpr (rat)
        {
            size_t d = g.in(0, int(std::min<size_t>(p + 1, 4)));
            ev.add(Obj()("op", "val")("u", u)("d", d)("r", eval_rational_value_simple<T, dim>(u, k, P, p, d)));
            ev.add(Obj()("op", "val")("u", u)("d", d)("r", eval_rational_value_simple<T, dim>(u, k, P, p, d, false)));
            size_t nd = g.in(1, 4);
            std::vector<std::array<T, dim>> CK(nd + 1);
            eval_rational_ders<T, dim>(u, k, P, p, nd, CK.data());
            ev.add(Obj()("op", "ders")("u", u)("n", nd)("r", CK));
        }
        else
        {
            size_t d = g.in(0, int(std::min<size_t>(p + 1, 4)));
            ev.add(Obj()("op", "val")("u", u)("d", d)("r", eval_value_decasteljau(u, k, P, p, d)));
            ev.add(Obj()("op", "val")("u", u)("d", d)("r", eval_value_decasteljau(u, k, P, p, d, false)));
            if constexpr (dim == 3)
                ev.add(Obj()("op", "val")("u", u)("d", 0)("r", eval_value_deboor_cox(u, k, P, p)));
            if constexpr (dim == 1)
            {
                BSCfunction<T> f{c};
                ev.add(Obj()("op", "val")("u", u)("d", d)("r", std::array<T, 1>{f(u, d)}));
                ev.add(Obj()("op", "val")("u", u)("d", d)("r", std::array<T, 1>{f.value(u, d)}));
                ev.add(Obj()("op", "val")("u", a)("d", 0)("r", std::array<T, 1>{f.begin()}));
                ev.add(Obj()("op", "val")("u", b)("d", 0)("r", std::array<T, 1>{f.end()}));
            }
        }
    }
    // arc-length derivatives where the tangent is not tiny
    if constexpr (dim > 1)
    {
        std::vector<T> l;
        for (T u : us)
        {
            auto d1 = c.value(u, 1);
            T nn = 0;
            for (T x : d1) nn += x * x;
            if (nn > T(0.25)) l.push_back(u);
            if (l.size() == 4) break;
        }
        for (T u : l)
        {
            ev.add(Obj()("op", "dm")("u", u)("r", c.d_dm(u)));
            ev.add(Obj()("op", "dm2")("u", u)("r", c.d_dm2(u)));
        }
        if (!l.empty())
        {
            auto r1 = c.d_dms(l);
            auto r2 = c.d_dm2s(l);
            for (size_t q = 0; q < l.size(); ++q)
            {
                ev.add(Obj()("op", "dm")("u", l[q])("r", r1[q]));
                ev.add(Obj()("op", "dm2")("u", l[q])("r", r2[q]));
            }
        }
    }
    o.raw("ev", ev.str());
    return o.str();
}

template <class T, bool rat>
std::string dispatch(size_t id, Rng &g, size_t dim, size_t p, const std::vector<T> &k, bool heavy)
{
    switch (dim)
    {
    case 1: return trace<T, 1, rat>(id, g, p, k, heavy);
    case 2: return trace<T, 2, rat>(id, g, p, k, heavy);
    default: return trace<T, 3, rat>(id, g, p, k, heavy);
    }
}

int main(int argc, char **argv)
{
    Args A(argc, argv);
    auto scn = read_scn(A.scn); // p  a b  then  value mult pairs of interior knots (quarters)
    size_t n0 = scn.size();
    run_jobs(A.out.c_str(), n0 + A.n, [&](size_t id) {
        Rng g(A.seed * 1000003 + id);
        bool rat = g.coin(), fl = g.coin(1, 4);
        size_t dim = g.in(1, 3);
        size_t p;
        std::vector<double> k;
        if (id < n0)
        {
            auto &t = scn[id];
            p = std::stoul(t[0]);
            for (size_t i = 1; i < t.size(); ++i) k.push_back(std::stod(t[i]) / 4.);
        }
        else
        {
            static const int PS[] = {1, 2, 3, 4, 5, 6, 7, 8, 3, 2, 3, 5, 4, 2, 3, 1};
            p = PS[g.next() % 16];
            if (!fl && g.coin(1, 40)) p = std::array<int, 4>{9, 11, 16, 24}[g.next() % 4];
            int ni = g.in(0, p > 8 ? 2 : 6);
            double a = 0, b = 1;
            switch (g.in(0, 5)) { case 0: a = -3, b = 5; break; case 1: a = 2, b = 2.5; break; case 2: a = -8; b = -4; break; case 3: a = 0, b = 64; break; default: break; }
            k = rand_knots<double>(g, p, ni, a, b, g.coin(1, 5) ? int(p) + 1 : int(p));
            if (id < n0 + 2) { p = 25; k = rand_knots<double>(g, p, 0, a, b, 1); rat = id == n0; }
            if (p > 8) { fl = false; }
        }
        std::vector<float> kf(k.begin(), k.end());
        bool heavy = id < n0;
        if (fl) return rat ? dispatch<float, true>(id, g, dim, p, kf, heavy) : dispatch<float, false>(id, g, dim, p, kf, heavy);
        return rat ? dispatch<double, true>(id, g, dim, p, k, heavy) : dispatch<double, false>(id, g, dim, p, k, heavy);
    });
}
