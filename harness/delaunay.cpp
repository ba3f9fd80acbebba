// Point insertion, Delaunay triangulations, polygons with holes (properties C13, C14).
#include "mesh.h"
using namespace vh;
using namespace gbs;
template <class T> using P2 = std::array<T, 2>;
template <class T> std::string plist(const std::vector<P2<T>> &v) { Arr a; for (auto &x : v) a.add(num(x)); return a.str(); }

// families of points
template <class T> std::vector<P2<T>> points(Rng &g, int n, int fam)
{
    std::vector<P2<T>> r;
    for (int i = 0; i < n; ++i)
    {
        P2<T> x;
        switch (fam)
        {
        case 0: x = {T(g.in(0, 4)), T(g.in(0, 4))}; break;                               // small grid: collinear, cocircular, repeated
        case 1: x = {T(g.dy(-4, 4, 64)), T(g.dy(-4, 4, 64))}; break;
        case 2: x = {T(g.in(-1000000, 1000000) * 1e-5 / 3), T(g.in(-1000000, 1000000) * 1e-5 / 7)}; break; // rounded
        case 3: { double t = g.in(0, 23) * 3.14159265358979 / 12; double q = g.coin(4, 5) ? 2 : 1; x = {T(q * std::cos(t)), T(q * std::sin(t))}; break; } // on circles
        case 4: { T t = T(g.in(0, 16)) / 3; x = {t, t / 3 + T(g.in(-1, 1)) * std::numeric_limits<T>::epsilon() * 4}; if (g.coin(1, 3)) x[1] += T(g.in(1, 3)); break; } // nearly on lines
        default: { x = {T(g.in(0, 6)) * 1000 + 100000, T(g.in(0, 3)) * T(0.001)}; break; } // far from the origin, flat
        }
        r.push_back(x);
    }
    return r;
}

template <class T> std::string bw(size_t id, uint64_t sd, const std::vector<P2<T>> &pts, int start, const std::vector<P2<T>> &box)
{
    Rng g(sd);
    Reg<T, 2> w;
    std::list<typename Reg<T, 2>::HF> faces;
    Arr ev;
    if (start == 0)
    {
        auto e1 = make_shared_h_edge<T, 2>(box[0]), e2 = make_shared_h_edge<T, 2>(box[1]), e3 = make_shared_h_edge<T, 2>(box[2]);
        auto l = {e1, e2, e3};
        w.id(e1->vertex); w.id(e2->vertex); w.id(e3->vertex);
        faces.push_back(make_shared_h_face<T, 2>(l));
    }
    else faces = getEncompassingMesh(box);
    { Obj e; e("op", "start").raw("box", plist(box))("b", start != 0); e.raw("m", w.mesh(faces)); ev.add(e); }
    std::list<P2<T>> todo(pts.begin(), pts.end());
    int extra = g.in(0, 3);
    while (!todo.empty())
    {
        auto x = todo.front();
        todo.pop_front();
        // now and then the middle of an edge, of the border or inside, or a vertex
        if (extra > 0 && g.coin(1, 4))
        {
            --extra;
            std::vector<P2<T>> c[3];
            for (auto &f : faces) for (auto &h : w.loop(f)) { c[h->opposite ? 1 : 0].push_back(edge_midpoint(h)); c[2].push_back(h->vertex->coords); }
            auto &q = c[g.in(0, 5) % 3 == 2 ? 2 : g.in(0, 1)];
            if (!q.empty()) { todo.push_front(x); x = q[g.in(0, int(q.size()) - 1)]; }
        }
        auto [v, del, nw] = boyerWatson<T>(faces, x);
        Obj e;
        e("op", "insert")("x", x)("v", w.id(v)).raw("del", w.ids(del)).raw("new", w.ids(nw));
        e.raw("m", w.mesh(faces));
        ev.add(e);
    }
    auto r = Obj()("id", id)("kind", "bw")("fl", sizeof(T) == 4).raw("ev", ev.str()).str();
    w.free();
    return r;
}
template <class T> std::string del(size_t id, const std::vector<P2<T>> &pts, Rng &g)
{
    Reg<T, 2> w;
    Arr ev;
    auto faces = delaunay2DBoyerWatson<T>(pts);
    Obj e;
    e("op", "delaunay").raw("pts", plist(pts)).raw("m", w.mesh(faces));
    ev.add(e);
    ev.add(Obj()("op", "hull"));
    auto r = Obj()("id", id)("kind", "del")("fl", sizeof(T) == 4).raw("ev", ev.str()).str();
    w.free();
    return r;
}
// a polygon around c, star-shaped: n directions in order, radii between r0 and r1 (on a dyadic grid)
template <class T> std::vector<P2<T>> star(Rng &g, double cx, double cy, int n, double r0, double r1)
{
    std::vector<int> dirs;
    std::set<int> s;
    while (int(s.size()) < n) s.insert(g.in(0, 47));
    std::vector<P2<T>> r;
    for (int d : s)
    {
        double t = d * 3.14159265358979 / 24, q = r0 + (r1 - r0) * g.in(0, 16) / 16.;
        r.push_back({T(std::round((cx + q * std::cos(t)) * 64) / 64), T(std::round((cy + q * std::sin(t)) * 64) / 64)});
    }
    return r;
}
// does the polygon turn around its centre once, without a gap of half a turn?
template <class T> bool goodstar(const std::vector<P2<T>> &p, double cx, double cy)
{
    for (size_t i = 0; i < p.size(); ++i)
    {
        auto &a = p[i]; auto &b = p[(i + 1) % p.size()];
        if ((a[0] - cx) * (b[1] - cy) - (a[1] - cy) * (b[0] - cx) <= 1e-3) return false;
    }
    return p.size() > 2;
}
// boundary of a staircase (rectilinear polygon), with or without points inside its sides
template <class T> std::vector<P2<T>> stairs(Rng &g, int n, bool fine)
{
    std::vector<P2<T>> c;
    std::vector<int> h;
    for (int i = 0; i < n; ++i) h.push_back(g.in(1, 5));
    c.push_back({0, 0}); c.push_back({T(n), 0});
    for (int i = n - 1; i >= 0; --i)
    {
        P2<T> a{T(i + 1), T(h[i])}, b{T(i), T(h[i])};
        c.push_back(a); c.push_back(b);
    }
    // drop repeated and collinear points
    auto clean = [&](std::vector<P2<T>> v) {
        bool ch = true;
        while (ch && v.size() > 3)
        {
            ch = false;
            for (size_t i = 0; i < v.size(); ++i)
            {
                auto &a = v[(i + v.size() - 1) % v.size()]; auto &b = v[i]; auto &d = v[(i + 1) % v.size()];
                if ((b[0] - a[0]) * (d[1] - a[1]) == (b[1] - a[1]) * (d[0] - a[0])) { v.erase(v.begin() + i); ch = true; break; }
            }
        }
        return v;
    };
    c = clean(c);
    if (!fine) return c;
    std::vector<P2<T>> r;
    for (size_t i = 0; i < c.size(); ++i)
    {
        auto a = c[i], b = c[(i + 1) % c.size()];
        r.push_back(a);
        int m = g.in(1, 3);
        for (int j = 1; j < m; ++j) r.push_back({a[0] + (b[0] - a[0]) * T(j) / T(m), a[1] + (b[1] - a[1]) * T(j) / T(m)});
    }
    return r;
}
template <class T> std::string con(size_t id, const std::vector<P2<T>> &outer, const std::vector<std::vector<P2<T>>> &holes, Rng &g)
{
    Reg<T, 2> w;
    Arr ev;
    auto faces = holes.empty() && g.coin() ? delaunay2DConstrained<T>(outer) : delaunay2DConstrained<T>(outer, holes);
    Arr h; for (auto &x : holes) h.add(plist(x));
    Obj e;
    e("op", "constrained").raw("outer", plist(outer)).raw("holes", h.str()).raw("m", w.mesh(faces));
    ev.add(e);
    auto r = Obj()("id", id)("kind", "con")("fl", sizeof(T) == 4).raw("ev", ev.str()).str();
    w.free();
    return r;
}
template <class T> std::string constrained(size_t id, Rng &g)
{
    for (;;)
    {
        std::vector<P2<T>> o;
        std::vector<std::vector<P2<T>>> h;
        int k = g.in(0, 4);
        if (k == 0) o = stairs<T>(g, g.in(1, 6), g.coin());
        else
        {
            o = star<T>(g, 0, 0, g.in(3, 14), k == 1 ? 1. : 4., 8.);
            if (!goodstar(o, 0, 0)) continue;
            // holes have to stay inside: well within the disc of the closest side
            double d = 1e9;
            for (size_t i = 0; i < o.size(); ++i)
            {
                auto &a = o[i]; auto &b = o[(i + 1) % o.size()];
                double cr = a[0] * b[1] - a[1] * b[0], l = std::hypot(b[0] - a[0], b[1] - a[1]);
                d = std::min(d, cr / l);
            }
            if (k >= 3 && d > 1)
            {
                if (k == 3 || g.coin()) { auto q = star<T>(g, 0, 0, g.in(3, 7), d * 0.2, d * 0.9); if (goodstar(q, 0, 0)) h.push_back(q); }
                else for (double s : {-1., 1.}) { auto q = star<T>(g, s * d * 0.45, 0, g.in(3, 5), d * 0.1, d * 0.4); if (goodstar(q, s * d * 0.45, 0)) h.push_back(q); }
            }
        }
        if (o.size() < 3) continue;
        // nearly straight sides: a middle point pushed out by very little
        if (g.coin(1, 4)) for (int q = g.in(1, 3); q > 0; --q)
        {
            size_t i = g.in(0, int(o.size()) - 1);
            auto &a = o[i]; auto &b = o[(i + 1) % o.size()];
            T m = T(1. / (1 << g.in(3, sizeof(T) == 4 ? 12 : 24)));
            P2<T> x{(a[0] + b[0]) / 2 + (b[1] - a[1]) * m, (a[1] + b[1]) / 2 - (b[0] - a[0]) * m};
            o.insert(o.begin() + i + 1, x);
        }
        // start anywhere
        std::rotate(o.begin(), o.begin() + g.in(0, int(o.size()) - 1), o.end());
        if (g.coin(1, 3)) { T s = T(g.coin() ? 100 : 0.125), dx = T(g.in(-50, 50)); auto f = [&](std::vector<P2<T>> &v) { for (auto &x : v) { x[0] = x[0] * s + dx; x[1] *= s; } }; f(o); for (auto &q : h) f(q); }
        return con<T>(id, o, h, g);
    }
}
// recovery of edges of a Delaunay triangulation of points; faces taken by polygons
template <class T> std::string rec(size_t id, Rng &g)
{
    int k = g.in(3, 12);
    bool grid = g.coin();
    std::vector<P2<T>> p;
    std::set<std::pair<T, T>> s;
    for (int i = 0; i < k; ++i)
    {
        P2<T> x = grid ? P2<T>{T(g.in(0, 5)), T(g.in(0, 5))} : P2<T>{T(g.dy(-4, 4, 64)), T(g.dy(-4, 4, 64))};
        if (s.insert({x[0], x[1]}).second) p.push_back(x);
    }
    Reg<T, 2> w;
    std::list<typename Reg<T, 2>::HF> faces;
    if (g.coin())
    {
        auto e1 = make_shared_h_edge<T, 2>({-30, -21}), e2 = make_shared_h_edge<T, 2>({40, -16}), e3 = make_shared_h_edge<T, 2>({-13, 45});
        auto l = {e1, e2, e3};
        faces.push_back(make_shared_h_face<T, 2>(l));
    }
    else faces = getEncompassingMesh(std::vector<P2<T>>{{-5, -5}, {6, 6}});
    std::vector<typename Reg<T, 2>::HV> vs;
    for (auto &x : p) { auto [v, d, n] = boyerWatson<T>(faces, x); if (v) vs.push_back(v); }
    repairVertexEdges<T, 2>(faces);
    Arr ev;
    { Obj e; e("op", "start").raw("box", "[]")("b", false); e.raw("m", w.mesh(faces)); ev.add(e); }
    int m = g.in(3, 8);
    for (int i = 0; i < m && vs.size() > 1; ++i)
    {
        auto a = vs[g.in(0, int(vs.size()) - 1)], b = vs[g.in(0, int(vs.size()) - 1)];
        auto h = recoverEdge<T>(faces, a, b);
        Obj e;
        e("op", "recover")("p", w.id(a))("q", w.id(b))("r", w.id(h)).raw("m", w.mesh(faces));
        ev.add(e);
    }
    auto r = Obj()("id", id)("kind", "rec")("fl", sizeof(T) == 4).raw("ev", ev.str()).str();
    w.free();
    return r;
}
template <class T> std::string take(size_t id, Rng &g)
{
    int k = g.in(4, 14);
    auto p = points<T>(g, k, 1);
    Reg<T, 2> w;
    auto faces = getEncompassingMesh(std::vector<P2<T>>{{-5, -5}, {5, 5}});
    for (auto &x : p) boyerWatson<T>(faces, x);
    repairVertexEdges<T, 2>(faces);
    Arr ev;
    { Obj e; e("op", "start").raw("box", "[]")("b", false); e.raw("m", w.mesh(faces)); ev.add(e); }
    int m = g.in(1, 2);
    for (int i = 0; i < m; ++i)
    {
        std::vector<P2<T>> o;
        double cx = g.dy(-2, 2, 8), cy = g.dy(-2, 2, 8);
        do { o = star<T>(g, cx, cy, g.in(3, 9), 0.5, 3); } while (!goodstar(o, cx, cy));
        bool cw = g.coin(1, 4);
        if (cw) std::reverse(o.begin(), o.end());
        int op = g.in(0, 3);
        std::list<typename Reg<T, 2>::HF> out;
        if (op < 2)
        {
            auto b = make_HalfEdges<T>(o);
            if (op == 0) out = takeInternalFaces<T>(faces, b); else out = takeExternalFaces<T>(faces, b);
        }
        else if (op == 2) out = delaunay2DBoyerWatsonAddInnerBound<T, 2>(faces, o);
        else out = delaunay2DBoyerWatsonAddOuterBound<T, 2>(faces, o);
        Arr tk;
        for (auto &f : out) { std::vector<int> c; for (auto &h : w.loop(f)) c.push_back(w.id(h->vertex)); tk.add(num(c)); }
        Arr V; // coordinates of the vertices of the taken faces
        std::set<int> seen;
        for (auto &f : out) for (auto &h : w.loop(f)) if (seen.insert(w.id(h->vertex)).second) V.add("[" + num(w.id(h->vertex)) + ",0," + num(h->vertex->coords) + "]");
        Obj e;
        e("op", "take")("in", op % 2 == 0)("add", op >= 2).raw("poly", plist(o)).raw("taken", tk.str()).raw("tv", V.str()).raw("m", w.mesh(faces));
        ev.add(e);
        repairVertexEdges<T, 2>(faces);
        if (faces.empty()) break;
    }
    auto r = Obj()("id", id)("kind", "take")("fl", sizeof(T) == 4).raw("ev", ev.str()).str();
    w.free();
    return r;
}
int main(int argc, char **argv)
{
    uint64_t seed = std::stoull(argv[2]);
    size_t n = std::stoull(argv[3]);
    std::string part = argv[4];
    std::vector<std::vector<P2<double>>> scn;
    if (argc > 5)
    {
        std::ifstream f(argv[5]);
        std::string l;
        while (std::getline(f, l))
        {
            std::istringstream is(l);
            std::vector<P2<double>> v;
            int c; while (is >> c) v.push_back({double(c % 3), double(c / 3)});
            scn.push_back(v);
        }
    }
    run_jobs(argv[1], scn.size() + n, [&](size_t i) -> std::string {
        uint64_t sd = seed * 1000003 + i;
        Rng g(sd + 99);
        if (part == "con")
        {
            bool dbl = g.coin(3, 4);
            switch (g.in(0, 5))
            {
            case 0: case 1: return dbl ? rec<double>(i, g) : rec<float>(i, g);
            case 2: return dbl ? take<double>(i, g) : take<float>(i, g);
            default: return dbl ? constrained<double>(i, g) : constrained<float>(i, g);
            }
        }
        if (i < scn.size()) return bw<double>(i, sd, scn[i], 0, {{-20, -15}, {40, -16}, {-13, 45}});
        int fam = g.in(0, 5), k = g.in(3, 14);
        bool fl = g.coin(1, 4);
        if (g.coin())
        {
            auto go = [&]<class T>(T) {
                auto p = points<T>(g, k, fam);
                for (int q = 0; q < 2; ++q) if (g.coin(1, 3)) p.insert(p.begin() + g.in(0, int(p.size())), p[g.in(0, int(p.size()) - 1)]);
                int st = g.in(0, 1);
                // no mesh around points of one abscissa or one ordinate
                auto flat = [&](auto &q) { return std::all_of(q.begin(), q.end(), [&](auto &x) { return x[0] == q[0][0]; }) || std::all_of(q.begin(), q.end(), [&](auto &x) { return x[1] == q[0][1]; }); };
                if (flat(p)) st = 0;
                std::vector<P2<T>> box = p;
                if (st == 0) { T a = p[0][0], b = p[0][1], s = 1; for (auto &x : p) { s = std::max({s, std::abs(x[0] - a), std::abs(x[1] - b)}); } box = {{a - 3 * s, b - 2 * s}, {a + 4 * s, b - 3 * s}, {a - s, b + 5 * s}}; }
                else for (auto &x : box) { if (g.coin(1, 8) && &x != &box[0]) { x[0] = x[0] + 1; x[1] = x[1] - 1; } }
                if (st && flat(box)) box = p;
                if (g.coin(1, 3)) { P2<T> x = p.back(); x[0] += 1000000; p.push_back(x); } // outside
                if (st == 0 && g.coin(1, 3)) p.push_back(box[0]);
                return bw<T>(i, sd, p, st, box);
            };
            return fl ? go(0.f) : go(0.);
        }
        return fl ? del<float>(i, points<float>(g, k, fam), g) : del<double>(i, points<double>(g, k, fam), g);
    });
}
