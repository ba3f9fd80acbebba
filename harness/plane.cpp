// Predicates and measures of plane geometry (property C15).
#include "mesh.h"
#include <topology/robustPredicates.h>
#include <topology/halfEdgeMeshQuality.h>
using namespace vh;
using namespace gbs;
template <class T> using P2 = std::array<T, 2>;
template <class T> using P3 = std::array<T, 3>;
template <class L> std::string plist(const L &v) { Arr a; for (auto &x : v) a.add(num(x)); return a.str(); }

template <class T> std::string three(const P2<T> &a, const P2<T> &b, const P2<T> &c, bool ex)
{
    Obj e;
    e("op", "three")("ex", ex)("a", a)("b", b)("c", c);
    e("or", orient2d(a, b, c))("o2", orient_2d(a, b, c))("o6", orient_2d(a[0], a[1], b[0], b[1], c[0], c[1]))("ccw", bool(are_ccw(a, b, c)));
    e("area", tri_area(a, b, c))("per", perimeter(a, b, c))("inc", incenter(a, b, c))("cc", circle_center(a, b, c))("on", on_segment(a, b, c));
    return e.str();
}
template <class T> std::string four(const P2<T> &a, const P2<T> &b, const P2<T> &c, const P2<T> &d, bool ex)
{
    Obj e;
    e("op", "four")("ex", ex)("a", a)("b", b)("c", c)("d", d);
    e("ic", in_circle(a, b, c, d))("tri", in_triangle(a, b, c, d))("trib", in_triangle_barycentric(a, b, c, d));
    auto [u, v] = triangle_barycentric_coordinates(a, b, c, d);
    e("u", u)("v", v)("seg", seg_seg_strict_intersection(a, b, c, d))("ray", seg_D_strict_end_intersection(a, b, c, d))("rayh", seg_H_strict_end_intersection(a, b, c));
    try { auto q = computeUV(a, b, c, d); e("uve", false)("uv", q); } catch (const std::runtime_error &) { e("uve", true); }
    // the same with a face and a half-edge
    auto e1 = make_shared_h_edge<T, 2>(a), e2 = make_shared_h_edge<T, 2>(b), e3 = make_shared_h_edge<T, 2>(c);
    auto l = {e1, e2, e3};
    auto f = make_shared_h_face<T, 2>(l);
    e("icf", in_circle(d, f))("ccwf", bool(is_ccw(f)));
    auto f2 = add_face(f, e2, d); // on the edge a-b
    e("ld", is_locally_delaunay(e2))("ld1", is_locally_delaunay(e1));
    auto k1 = make_shared_h_edge<T, 2>(c), k2 = make_shared_h_edge<T, 2>(d);
    auto l2 = {k1, k2};
    make_loop(l2.begin(), l2.end(), f); // a lone edge from c to d
    e("cross", areFacesEdgesIntersect(*k2, *f2));
    for (auto &h : {e1, e2, e3, k1, k2}) { h->next = h->previous = h->opposite = nullptr; h->face = nullptr; }
    return e.str();
}
template <class T> std::string poly(const std::vector<P2<T>> &p, const std::vector<P2<T>> &xs, bool ex)
{
    auto b = make_HalfEdges<T>(p);
    Obj e;
    Arr in, in2;
    for (auto &x : xs) in.add(num(is_inside(x, b)));
    e("op", "poly")("ex", ex).raw("p", plist(p)).raw("x", plist(xs)).raw("in", in.str())("ccw", are_edges_2d_ccw<T>(b));
    reverseBoundary(b);
    for (auto &x : xs) in2.add(num(is_inside(x, b)));
    e.raw("in2", in2.str());
    auto [lo, hi] = getCoordsMinMax(p);
    e("lo", lo)("hi", hi);
    for (auto &h : b) { h->next = h->previous = h->opposite = nullptr; h->face = nullptr; }
    return e.str();
}
template <class T> std::string space(const P3<T> &a, const P3<T> &b, const P3<T> &c, T u, T v)
{
    P3<T> d;
    for (int i = 0; i < 3; ++i) d[i] = a[i] + u * (b[i] - a[i]) + v * (c[i] - a[i]);
    Obj e;
    e("op", "space")("a", a)("b", b)("c", c)("d", d)("area", tri_area(a, b, c))("sc", sphere_center(a, b, c));
    try { auto q = computeUV(a, b, c, d); e("uve", false)("uv", q); } catch (const std::runtime_error &) { e("uve", true); }
    auto [lo, hi] = getCoordsMinMax(std::vector<P3<T>>{a, b, c, d});
    e("lo", lo)("hi", hi);
    return e.str();
}
template <class T> std::string area(Rng &g)
{
    std::vector<P2<T>> p;
    int n = g.coin(1, 8) ? g.in(40, 120) : g.in(0, 12);
    std::list<std::shared_ptr<HalfEdgeFace<T, 2>>> faces;
    if (n >= 3) { for (int i = 0; i < n; ++i) p.push_back({T(g.dy(-4, 4, 64)), T(g.dy(-4, 4, 64))}); faces = delaunay2DBoyerWatson<T>(p); }
    Arr f;
    for (auto &x : faces) f.add(plist(getFaceCoords(x)));
    Obj e;
    e("op", "area").raw("f", f.str())("s", double(getTriangle2dMeshArea(faces)))("p", double(getTriangle2dMeshAreaPar(faces)))("ccw", are_face_ccw(faces));
    return e.str();
}
// points: families in which the tests are delicate
template <class T> P2<T> rnd(Rng &g, int fam)
{
    switch (fam)
    {
    case 0: return {T(g.in(-3, 3)), T(g.in(-3, 3))};
    case 1: return {T(g.dy(-8, 8, 64)), T(g.dy(-8, 8, 64))};
    case 2: return {T(g.in(-1000000, 1000000) / 3e5), T(g.in(-1000000, 1000000) / 7e5)};
    default: { double s = std::ldexp(1., g.in(-12, 12)); return {T(g.in(-1000, 1000) * s / 3), T(g.in(-1000, 1000) * s / 7)}; }
    }
}
template <class T> std::string trace(size_t id, uint64_t sd)
{
    Rng g(sd);
    Arr ev;
    for (int k = 0; k < 6; ++k)
    {
        int fam = g.in(0, 3);
        bool ex = fam == 0;
        auto a = rnd<T>(g, fam), b = rnd<T>(g, fam), c = rnd<T>(g, fam), d = rnd<T>(g, fam);
        if (g.coin())
        {
            // c on the line a-b but for rounding, pushed by a few units in the last place
            T t = g.coin() ? T(g.dy(-1, 2, 8)) : T(g.in(-100, 200) / 99.);
            c = {a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])};
            for (int q = g.in(0, 3); q > 0; --q) { int i = g.in(0, 1); if (std::abs(c[i]) > 1e-6) /* no underflow: the exact test excludes it */ c[i] = std::nextafter(c[i], g.coin() ? T(1e30) : T(-1e30)); }
            ex = false;
        }
        if (g.coin(1, 3))
        {
            // on a line through the origin, far and near: the differences of the coordinates are not exact
            T r = T(g.in(-8, 8)) / 4, sa = T(g.in(1, 1 << 10)), sb = T(g.in(1, 1 << 10)), sc = T(g.in(1, 1 << 20)) / (1 << 21);
            a = {sa, sa * r}; b = {sb, sb * r}; c = {sc, sc * r};
            for (auto q : {&a, &b, &c})
                for (int z = g.in(0, 2); z > 0; --z) { int i = g.in(0, 1); if ((*q)[i] != 0) (*q)[i] = std::nextafter((*q)[i], g.coin() ? T(1e30) : T(-1e30)); }
            if (g.coin()) std::swap(a, c);
            if (g.coin()) std::swap(b, c);
            ex = false;
        }
        ev.add(three<T>(a, b, c, ex));
        if (g.coin(1, 4))
        {
            // d on the circle, on a side, at a vertex
            switch (g.in(0, 2))
            {
            case 0: { auto m = circle_center(a, b, c); d = {2 * m[0] - a[0], 2 * m[1] - a[1]}; if (!(std::abs(d[0]) + std::abs(d[1]) < 1e5)) d = a; ex = false; break; }
            case 1: d = {(a[0] + c[0]) / 2, (a[1] + c[1]) / 2}; break;
            default: d = b;
            }
        }
        ev.add(four<T>(a, b, c, d, ex));
        P3<T> A, B, C;
        for (int i = 0; i < 3; ++i) { A[i] = T(g.dy(-4, 4, 16)); B[i] = T(g.dy(-4, 4, 16)); C[i] = T(g.dy(-4, 4, 16)); }
        ev.add(space<T>(A, B, C, T(g.dy(-1, 2, 4)), T(g.dy(-1, 2, 4))));
    }
    // polygons: simple or not (even-odd), points on their level, on their sides
    for (int k = 0; k < 2; ++k)
    {
        int fam = g.in(0, 2);
        bool ex = fam == 0;
        std::vector<P2<T>> p, xs;
        for (int n = g.in(3, 9); n > 0; --n) p.push_back(rnd<T>(g, fam));
        for (int n = 6; n > 0; --n)
        {
            auto x = rnd<T>(g, fam);
            if (g.coin()) x[1] = g.pick(p)[1];
            if (g.coin(1, 4)) x = g.pick(p);
            xs.push_back(x);
        }
        ev.add(poly<T>(p, xs, ex));
    }
    if constexpr (sizeof(T) == 8) ev.add(area<T>(g)); // the library sums areas of double meshes only
    return Obj()("id", id)("kind", "plane")("fl", sizeof(T) == 4).raw("ev", ev.str()).str();
}
int main(int argc, char **argv)
{
    uint64_t seed = std::stoull(argv[2]);
    size_t n = std::stoull(argv[3]);
    std::vector<std::vector<int>> scn;
    std::ifstream f(argv[4]);
    std::string l;
    int N = 3;
    while (std::getline(f, l)) { std::istringstream is(l); std::vector<int> v; int c; while (is >> c) v.push_back(c); for (int x : v) if (x >= 9) N = 4; scn.push_back(v); }
    size_t per = 20, ns = (scn.size() + per - 1) / per;
    run_jobs(argv[1], ns + n, [&](size_t i) -> std::string {
        uint64_t sd = seed * 1000003 + i;
        if (i >= ns) return sd % 4 == 0 ? trace<float>(i, sd) : trace<double>(i, sd);
        Arr ev;
        for (size_t k = i * per; k < std::min(scn.size(), (i + 1) * per); ++k)
        {
            auto go = [&]<class T>(T) {
                auto P = [&](int j) { return P2<T>{T(scn[k][j] % N), T(scn[k][j] / N)}; };
                ev.add(three<T>(P(0), P(1), P(2), true));
                ev.add(four<T>(P(0), P(1), P(2), P(3), true));
                ev.add(poly<T>({P(0), P(1), P(2)}, {P(3), {T(0.5), T(0.5)}, {T(1), T(0.5)}}, true));
                ev.add(poly<T>({P(0), P(1), P(2), P(3)}, {{T(0.5), T(0.5)}, {T(1.5), T(1)}, {T(1), T(1)}}, true));
            };
            if (i % 2) go(0.f); else go(0.);
        }
        return Obj()("id", i)("kind", "grid")("fl", i % 2 == 1).raw("ev", ev.str()).str();
    });
}
