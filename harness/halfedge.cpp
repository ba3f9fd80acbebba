// Sequences of edits of one half-edge mesh; the whole structure is recorded after each (property C12).
#include "mesh.h"
using namespace vh;
using namespace gbs;

template <class T, size_t dim>
struct World : Reg<T, dim>
{
    using R = Reg<T, dim>;
    using typename R::HE;
    using typename R::HV;
    using typename R::HF;
    using R::id;
    using R::loop;
    using R::vs;
    using R::he;
    std::list<HF> faces;
    Rng &g;
    Arr ev;
    bool vok = true;
    explicit World(Rng &g) : g(g) {}
    void mesh(Obj &o) { o.raw("m", R::mesh(faces)); }
    std::array<T, dim> rc() { std::array<T, dim> r; for (auto &x : r) x = T(g.dy(-8, 8, 2)); return r; }
    // the half-edge a->b, by brute force
    HE find(int a, int b)
    {
        for (auto &f : faces) for (auto &e : loop(f)) if (e->previous && id(e->previous->vertex) == a && id(e->vertex) == b) return e;
        return nullptr;
    }
    std::vector<int> cyc(const HF &f) { std::vector<int> r; for (auto &e : loop(f)) r.push_back(id(e->vertex)); return r; }
    void lost() { Obj e; e("op", "lost"); ev.add(e); }
    void done(Obj &e) { mesh(e); ev.add(e); }
    template <class L> std::string hl(const L &l) { return this->ids(l); }

    void start(int s)
    {
        auto mk = [&](std::initializer_list<int> vv) {
            std::vector<HE> l;
            for (int v : vv) l.push_back(make_shared_h_edge(vs[v - 1]));
            auto f = make_shared_h_face<T, dim>(l);
            faces.push_back(f);
            for (auto &e : l)
                if (auto o = find(id(e->vertex), id(e->previous->vertex)))
                {
                    auto ee = e;
                    link_edges(ee, o);
                }
        };
        int nv[] = {3, 4, 4, 4, 4};
        auto pts = std::vector<std::array<T, dim>>();
        for (int i = 0; i < nv[s - 1]; ++i) pts.push_back(rc());
        for (auto &v : make_shared_h_vertices<T, dim>(pts)) id(v);
        switch (s)
        {
        case 1: mk({1, 2, 3}); break;
        case 2: mk({1, 2, 3}); mk({1, 3, 4}); break;
        case 3: mk({1, 2, 4}); mk({2, 3, 4}); mk({1, 4, 3}); break;
        case 4: mk({1, 2, 3, 4}); break;
        case 5: mk({1, 2, 3}); mk({1, 4, 2}); mk({2, 4, 3}); mk({1, 3, 4}); break;
        }
        Obj e; e("op", "start")("s", s); done(e);
    }
    void addface(int a, int b)
    {
        auto h = find(a, b);
        if (!h) return lost();
        bool two = g.coin();
        HF f = two ? add_face(h, rc()) : add_face(h->face, h, rc());
        if (f) { faces.push_back(f); for (auto &e : loop(f)) id(e->vertex); }
        Obj e; e("op", "addface")("a", a)("b", b)("r", id(f)); done(e);
    }
    void wrongface(int a, int b)
    {
        auto h = find(a, b);
        if (!h) return lost();
        HF other;
        for (auto &f : faces) if (f != h->face) other = f;
        if (!other) return;
        HF f = add_face(other, h, rc());
        if (f) faces.push_back(f);
        Obj e; e("op", "wrongface")("r", id(f)); done(e);
    }
    void eraseplain(const HF &f) { faces.remove(f); }
    void addvertex(const HF &f)
    {
        auto v = make_shared_h_vertex<T, dim>(rc());
        int w = id(v);
        Obj e; e("op", "addvertex")("f", cyc(f))("w", w);
        auto it = std::find(faces.begin(), faces.end(), f);
        auto fs = add_vertex(f, v);
        it = faces.erase(it);
        faces.insert(g.coin() ? faces.end() : it, fs.begin(), fs.end());
        e("n", fs.size());
        done(e);
    }
    void fill(int a, int b)
    {
        auto h = find(a, b);
        if (!h || !h->opposite) return lost();
        std::list<HF> S{h->face, h->opposite->face};
        // grow a little
        auto loops = getOrientedFacesBoundaries(S);
        Obj e; e("op", "fill");
        Arr fs; for (auto &f : S) fs.add(num(cyc(f)));
        e.raw("fs", fs.str());
        e("nl", loops.size());
        if (loops.size() == 1)
        {
            auto v = make_shared_h_vertex<T, dim>(rc());
            e("w", id(v));
            for (auto &f : S) eraseplain(f);
            auto nf = add_vertex(loops.front(), v);
            faces.insert(faces.end(), nf.begin(), nf.end());
            vok = false;
        }
        done(e);
    }
    void flipe(int a, int b)
    {
        auto h = find(a, b);
        if (!h || !h->opposite) return lost();
        auto f1 = h->face, f2 = h->opposite->face;
        if (g.coin()) std::swap(f1, f2);
        Obj e; e("op", "flip")("a", a)("b", b);
        flip(f1, f2);
        done(e);
    }
    void flipfar()
    {
        // two faces without a common edge: nothing happens
        std::vector<HF> fv(faces.begin(), faces.end());
        auto f1 = g.pick(fv), f2 = g.pick(fv);
        if (f1 == f2 || loop(f1).size() != 3 || loop(f2).size() != 3) return;
        for (auto &x : loop(f1)) if (find(id(x->vertex), id(x->previous->vertex)) && find(id(x->vertex), id(x->previous->vertex))->face == f2) return;
        Obj e; e("op", "flipfar");
        flip(f1, f2);
        done(e);
    }
    void split(int a, int b)
    {
        auto h = find(a, b);
        if (!h) return lost();
        auto v = splitHalfEdge(h, faces);
        Obj e; e("op", "split")("a", a)("b", b)("w", id(v)); done(e);
    }
    void erase(int a, int b)
    {
        auto h = find(a, b);
        if (!h) return lost();
        auto it = std::find(faces.begin(), faces.end(), h->face);
        Obj e; e("op", "erase")("f", cyc(h->face));
        auto nx = std::next(it) == faces.end() ? HF{} : *std::next(it);
        auto r = eraseFace(faces, it);
        e("nx", (r == faces.end() ? HF{} : *r) == nx);
        vok = false;
        done(e);
    }
    void remv(int v)
    {
        Obj e; e("op", "remv")("v", v);
        size_t n = remove_faces(faces, vs[v - 1]);
        e("n", n);
        vok = false;
        done(e);
    }
    void repair()
    {
        Obj e; e("op", "repair");
        repairVertexEdges<T, dim>(faces);
        vok = true;
        done(e);
    }
    void getters()
    {
        std::vector<HF> fv(faces.begin(), faces.end());
        if (fv.empty()) return;
        Obj e;
        switch (g.in(0, 9))
        {
        case 0: { auto f = g.pick(fv); e("op", "gface")("f", id(f)).raw("es", hl(getFaceEdges(f))).raw("vs", hl(getFaceVertices(f)));
                  Arr it; for (auto &x : CyclicHalfEdgeFaceEdgeRange<T, dim>(*f)) it.add(num(id(x)));
                  e.raw("it", it.str());
                  Arr i2; for (auto b = begin(*f), q = end(*f); b != q; ++b) i2.add(num(id(*b)));
                  e.raw("i2", i2.str());
                  bool tri = loop(f).size() == 3;
                  e("tri", tri);
                  if (tri) {
                      e.raw("te", hl(getTriangleEdges(f))).raw("tv", hl(getTriangleVertices(f)));
                      Arr tc, fc; for (auto &x : getTriangleCoords(f)) tc.add(num(x));
                      e.raw("tc", tc.str()); }
                  Arr fc; for (auto &x : getFaceCoords(f)) fc.add(num(x));
                  e.raw("fc", fc.str());
                  ev.add(e); break; }
        case 1: { auto f1 = g.pick(fv), f2 = g.pick(fv);
                  auto c = getCommonEdge(f1, f2); auto cc = getCommonEdges(f1, f2);
                  e("op", "gcommon")("f", id(f1))("g", id(f2))("r", id(c))("r1", id(cc.first))("r2", id(cc.second)); ev.add(e); break; }
        case 2: { if (!vok) break; auto f = g.pick(fv); auto v = loop(f)[g.in(0, int(loop(f).size()) - 1)]->vertex;
                  e("op", "gfan")("v", id(v)).raw("r", hl(getFacesAttachedToVertex(v)));
                  if constexpr (true) e("bnd", is_boundary(*v));
                  ev.add(e); break; }
        case 3: { if (!vok) break;
                  std::set<HV> s; for (auto &f : fv) for (auto &x : loop(f)) s.insert(x->vertex);
                  std::vector<HV> vv(s.begin(), s.end());
                  std::sort(vv.begin(), vv.end(), [&](auto &a, auto &b) { return id(a) < id(b); });
                  HV a = g.pick(vv), b = g.pick(vv);
                  if (g.coin()) { auto f = g.pick(fv); auto x = loop(f)[0]; a = x->previous->vertex; b = x->vertex; if (g.coin(1, 3)) std::swap(a, b); }
                  if (a == b) break;
                  e("op", "gfind")("a", id(a))("b", id(b))("r", id(findHalfEdge(a, b))); ev.add(e); break; }
        case 4: { auto f = g.pick(fv); e("op", "gnbf")("f", id(f)).raw("r", hl(getNeighboringFaces(f)));
                  auto h = g.pick(loop(f)); e("h", id(h))("nf", id(getNextFace(h)))("pf", id(getPreviousFace(h))); ev.add(e); break; }
        case 5: case 6: { std::list<HF> S; for (auto &f : fv) if (g.coin(2, 3)) S.push_back(f);
                  if (S.empty()) S = faces;
                  auto b = getFacesBoundary(S);
                  e("op", "gbound").raw("S", hl(S)).raw("b", hl(b));
                  auto l = takeClosedLoops(b);
                  e("left", b.size());
                  Arr a; for (auto &x : l) a.add(hl(x));
                  e.raw("loops", a.str());
                  Arr a2; for (auto &x : getOrientedFacesBoundaries(S)) a2.add(hl(x));
                  e.raw("l2", a2.str());
                  if (!l.empty()) e.raw("l1", hl(getOrientedFacesBoundary(S))); else e.raw("l1", "[]");
                  ev.add(e); break; }
        case 7: { std::list<HF> S = faces;
                  Arr vm, em;
                  for (auto &[v, i] : getVerticesMapFromFaces<T, dim>(S)) vm.add("[" + num(id(v)) + "," + num(i) + "]");
                  for (auto &[h, i] : getEdgesMap<T, dim>(S)) em.add("[" + num(id(h)) + "," + num(i) + "]");
                  e("op", "gmaps").raw("vm", vm.str()).raw("em", em.str()).raw("vv", hl(getVerticesVectorFromFaces<T, dim>(S)));
                  ev.add(e); break; }
        case 8: { auto f = g.pick(fv); auto vs1 = loop(f); auto v = vs1[g.in(0, int(vs1.size()) - 1)]->vertex;
                  if (g.coin(1, 4)) v = vs[g.in(0, int(vs.size()) - 1)];
                  e("op", "gedge")("f", id(f))("v", id(v))("r", id(getFaceEdge(f, v))); ev.add(e); break; }
        case 9: { // a boundary reversed: a closed loop of fresh half-edges
                  int n = g.in(2, 6);
                  std::vector<std::array<T, dim>> c; for (int i = 0; i < n; ++i) c.push_back(rc());
                  auto l = make_HalfEdges<T, dim>(c);
                  std::map<HE, int> k; for (int i = 0; i < n; ++i) k[l[i]] = i + 1;
                  auto rec = [&](const char *tag) {
                      Arr a, nn, pp, xx;
                      for (auto &x : l) { a.add(num(k[x])); nn.add(num(k[x->next])); pp.add(num(k[x->previous])); xx.add(num(x->vertex->coords)); }
                      e.raw((std::string(tag) + "o").c_str(), a.str()).raw((std::string(tag) + "n").c_str(), nn.str()).raw((std::string(tag) + "p").c_str(), pp.str()).raw((std::string(tag) + "x").c_str(), xx.str());
                  };
                  Arr ci; for (auto &x : c) ci.add(num(x));
                  e("op", "gloop")("n", n).raw("c", ci.str());
                  rec("a"); reverseBoundary(l); rec("b"); reverseBoundary(l); rec("c");
                  ev.add(e); break; }
        }
    }
    // preconditions the callers have to meet
    bool canflip(int a, int b)
    {
        auto h = find(a, b), o = find(b, a);
        if (!h || !o) return false;
        if (loop(h->face).size() != 3 || loop(o->face).size() != 3) return false;
        int x = id(h->next->vertex), y = id(o->next->vertex);
        return x != y && !find(x, y) && !find(y, x);
    }
    bool cansplit(int a, int b)
    {
        auto h = find(a, b), o = find(b, a);
        return h && loop(h->face).size() == 3 && (!o || loop(o->face).size() == 3);
    }
    bool canfill(int a, int b)
    {
        auto h = find(a, b), o = find(b, a);
        if (!h || !o) return false;
        int n = 0;
        for (auto &x : loop(h->face)) if (auto y = find(id(x->vertex), id(x->previous->vertex))) n += y->face == o->face;
        return n == 1;
    }
    void randomstep()
    {
        std::vector<HE> es;
        for (auto &f : faces) for (auto &e : loop(f)) es.push_back(e);
        if (es.empty()) return;
        auto e = g.pick(es);
        int a = id(e->previous->vertex), b = id(e->vertex);
        switch (g.in(0, 11))
        {
        case 0: case 1: addface(a, b); break; // refused when it has an opposite
        case 2: addvertex(e->face); break;
        case 3: if (canfill(a, b)) fill(a, b); break;
        case 4: case 5: case 6: if (canflip(a, b)) flipe(a, b); break;
        case 7: case 8: if (cansplit(a, b)) split(a, b); break;
        case 9: if (faces.size() > 3) erase(a, b); break;
        case 10: if (faces.size() > 8) remv(b); else wrongface(a, b); break;
        case 11: if (g.coin()) repair(); else flipfar(); break;
        }
    }
    std::string run(size_t idn, int s, const std::vector<int> &tok, int nrandom)
    {
        start(s);
        for (size_t i = 0; i + 2 < tok.size(); i += 3)
        {
            int a = tok[i + 1], b = tok[i + 2];
            switch (char(tok[i]))
            {
            case 'A': addface(a, b); break;
            case 'V': { auto h = find(a, b); if (h) addvertex(h->face); else lost(); break; }
            case 'C': fill(a, b); break;
            case 'F': flipe(a, b); break;
            case 'S': split(a, b); break;
            case 'E': erase(a, b); break;
            case 'R': remv(a); break;
            }
            getters();
        }
        if (!vok && g.coin()) repair();
        for (int i = 0; i < nrandom && faces.size() < 40; ++i)
        {
            randomstep();
            if (!vok && g.coin(1, 3)) repair();
            getters();
            if (g.coin()) getters();
        }
        if (idn % 23 == 0 && vok && !faces.empty())
        {
            auto v = loop(faces.front())[0]->vertex;
            Obj e; e("op", "gnbv")("v", id(v)).raw("r", hl(getNeighboringVertices(*v)));
            ev.add(e);
        }
        return Obj()("id", idn)("kind", "mesh")("dim", dim).raw("ev", ev.str()).str();
    }
};
template <class T, size_t dim>
std::string go(size_t id, uint64_t seed, int s, const std::vector<int> &tok, int n)
{
    Rng g(seed);
    World<T, dim> w(g);
    auto r = w.run(id, s, tok, n);
    w.free();
    return r;
}
int main(int argc, char **argv)
{
    uint64_t seed = std::stoull(argv[2]);
    size_t n = std::stoull(argv[3]);
    std::vector<std::vector<int>> scn;
    std::vector<int> st;
    if (argc > 4)
    {
        std::ifstream f(argv[4]);
        std::string l;
        while (std::getline(f, l))
        {
            std::istringstream is(l);
            int s; is >> s;
            std::vector<int> t;
            std::string op; int a, b;
            while (is >> op >> a >> b) { t.push_back(op[0]); t.push_back(a); t.push_back(b); }
            scn.push_back(t); st.push_back(s);
        }
    }
    run_jobs(argv[1], scn.size() + n, [&](size_t i) {
        uint64_t sd = seed * 1000003 + i;
        Rng g(sd + 77);
        int s = i < scn.size() ? st[i] : g.in(1, 5);
        std::vector<int> tok;
        if (i < scn.size()) tok = scn[i];
        int nr = i < scn.size() ? g.in(0, 4) : g.in(6, 22);
        return g.coin(2, 3) ? go<double, 2>(i, sd, s, tok, nr) : go<float, 2>(i, sd, s, tok, nr);
    });
}
