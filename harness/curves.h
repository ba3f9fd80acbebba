// Random / scenario B-spline inputs shared by several harnesses.
#pragma once
#include "common.h"
#include <gbs/bscurve.h>
#include <gbs/bssurf.h>
namespace vh
{
template <class T> using Pt3 = std::array<T, 3>;

// interior knots with multiplicities, dyadic values in [a,b]
template <class T> std::vector<T> rand_knots(Rng &g, size_t p, size_t n_int, T a, T b, int max_mult, std::vector<size_t> *mult_out = nullptr)
{
    // n_int distinct interior values on a 1/64 grid of [a,b]
    std::vector<int> pos;
    while (pos.size() < n_int)
    {
        int q = g.in(1, 63);
        if (std::find(pos.begin(), pos.end(), q) == pos.end()) pos.push_back(q);
    }
    std::sort(pos.begin(), pos.end());
    std::vector<T> k(p + 1, a);
    for (int q : pos)
    {
        int m = g.in(1, std::max(1, max_mult));
        for (int i = 0; i < m; ++i) k.push_back(a + (b - a) * T(q) / T(64));
    }
    for (size_t i = 0; i <= p; ++i) k.push_back(b);
    return k;
}
template <class T, size_t d> std::vector<std::array<T, d>> rand_poles(Rng &g, size_t n, bool rat, int amp = 8)
{
    std::vector<std::array<T, d>> P(n);
    for (auto &x : P)
        for (size_t c = 0; c < d; ++c) x[c] = T(g.dy(-amp, amp, 4));
    if (rat)
    {
        static const double W[] = {0.5, 1, 2, 0.25, 1.5, 3, 0.75, 1};
        for (auto &x : P)
        {
            T w = T(W[g.next() % 8]);
            for (size_t c = 0; c + 1 < d; ++c) x[c] *= w; // homogeneous
            x[d - 1] = w;
        }
    }
    return P;
}
template <class C> void put_curve(Obj &o, const C &c, bool rat)
{
    o("p", c.degree())("k", c.knotsFlats())("P", c.poles())("rat", rat);
}
template <class C> std::string curve_json(const C &c, bool rat)
{
    Obj o;
    put_curve(o, c, rat);
    o("b", c.bounds());
    return o.str();
}
template <class S> std::string surf_json(const S &s, bool rat)
{
    Obj o;
    o("p", s.degreeU())("q", s.degreeV())("ku", s.knotsFlatsU())("kv", s.knotsFlatsV())("P", s.poles())("rat", rat);
    o("b", s.bounds());
    return o.str();
}
} // namespace vh
