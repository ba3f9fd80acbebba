// Recording of half-edge meshes: pointers get numbers in the order they are first seen.
#pragma once
#include "common.h"
#include <list>
#include <map>
#include <set>
#include <topology/tessellations.h>
namespace vh
{
template <class T, size_t dim>
struct Reg
{
    using HE = std::shared_ptr<gbs::HalfEdge<T, dim>>;
    using HV = std::shared_ptr<gbs::HalfEdgeVertex<T, dim>>;
    using HF = std::shared_ptr<gbs::HalfEdgeFace<T, dim>>;
    // a shared_ptr kept in a map keeps its address from being reused
    std::map<HE, int> he;
    std::map<HF, int> hf;
    std::map<HV, int> hv;
    std::vector<HV> vs; // by number
    int id(const HE &e) { return e ? he.insert({e, int(he.size()) + 1}).first->second : 0; }
    int id(const HF &f) { return f ? hf.insert({f, int(hf.size()) + 1}).first->second : 0; }
    int id(const HV &v)
    {
        if (!v) return 0;
        auto r = hv.insert({v, int(hv.size()) + 1});
        if (r.second) vs.push_back(v);
        return r.first->second;
    }
    std::vector<HE> loop(const HF &f)
    {
        std::vector<HE> r;
        auto e = f->edge;
        for (int i = 0; e && i < 64; ++i) { r.push_back(e); e = e->next; if (e == f->edge) break; }
        return r;
    }
    template <class L> std::string ids(const L &l) { Arr a; for (auto &e : l) a.add(num(id(e))); return a.str(); }
    // {"F":[[face,half-edge]..],"H":[[half-edge,end,next,previous,opposite,face]..],"V":[[vertex,half-edge,[x,y]]..]}
    template <class L> std::string mesh(const L &faces)
    {
        Arr F, H, V;
        std::set<HE> seen;
        std::set<HV> seenv;
        for (auto &f : faces) F.add("[" + num(id(f)) + "," + num(id(f->edge)) + "]");
        for (auto &f : faces)
            for (auto &e : loop(f))
            {
                if (!seen.insert(e).second) continue;
                H.add(num(std::vector<int>{id(e), id(e->vertex), id(e->next), id(e->previous), id(e->opposite), id(e->face)}));
                if (e->vertex && seenv.insert(e->vertex).second)
                    V.add("[" + num(id(e->vertex)) + "," + num(id(e->vertex->edge)) + "," + num(e->vertex->coords) + "]");
            }
        return Obj().raw("F", F.str()).raw("H", H.str()).raw("V", V.str()).str();
    }
    // the half-edges refer to each other in cycles
    void free() { for (auto &[e, i] : he) { e->next = e->previous = e->opposite = nullptr; e->face = nullptr; e->vertex = nullptr; } }
};
}
