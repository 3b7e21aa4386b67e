// C15: the half-edge mesh stays a consistent manifold through every edit sequence.
// Explicit breadth-first search over edit sequences executed on the real mesh, in lock-step with a
// reference model (the set of oriented vertex triples); every reached state is checked completely.
#include "mc.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <topology/tessellations.h>
#include <topology/halfEdgeMeshQuality.h>
#include <unordered_map>
using namespace gbs;
template <size_t dim> using P = std::array<double, dim>;
template <size_t dim> using V = std::shared_ptr<HalfEdgeVertex<double, dim>>;
template <size_t dim> using E = std::shared_ptr<HalfEdge<double, dim>>;
template <size_t dim> using F = std::shared_ptr<HalfEdgeFace<double, dim>>;
using Tri = std::array<int, 3>;
static Tri norm3(int a, int b, int c)
{
    if (a <= b && a <= c) return {a, b, c};
    if (b <= a && b <= c) return {b, c, a};
    return {c, a, b};
}
template <size_t dim> static double orient(const P<dim> &a, const P<dim> &b, const P<dim> &c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
enum Kind { ADD1, ADD2, FLIP, VERT, SPLIT, BW, RMV, ERASE, TAKEIN, TAKEOUT, SMOOTH };
static const char *kname[] = {"add_face(face,edge)", "add_face(edge)", "flip", "add_vertex", "splitHalfEdge", "boyerWatson", "remove_faces", "eraseFace", "takeInternalFaces", "takeExternalFaces", "laplacian_smoothing"};
struct Op { int k, i; };
static std::string str(const std::vector<Op> &s) { std::string r; for (auto &o : s) { r += std::string(r.empty() ? "" : ", ") + kname[o.k] + "#" + std::to_string(o.i); } return r; }

template <size_t dim> struct World
{
    std::list<F<dim>> faces;
    std::vector<V<dim>> vtx;                 // every vertex ever seen, index = label
    std::unordered_map<void *, int> lab;
    std::set<Tri> model;
    std::vector<E<dim>> trash;               // to break cycles
    double area = 0;                         // signed doubled area the model must cover

    int label(const V<dim> &v)
    {
        auto it = lab.find(v.get());
        if (it != lab.end()) return it->second;
        lab[v.get()] = (int)vtx.size(); vtx.push_back(v);
        return (int)vtx.size() - 1;
    }
    P<dim> at(int l) const { return vtx[l]->coords; }
    double area2(const Tri &t) const { return orient<dim>(at(t[0]), at(t[1]), at(t[2])); }
    Tri tri(const F<dim> &f) { auto e = f->edge; return norm3(label(e->vertex), label(e->next->vertex), label(e->next->next->vertex)); }
    std::vector<E<dim>> edges() const
    {
        std::vector<E<dim>> r;
        for (auto &f : faces) { auto e = f->edge; for (int i = 0; i < 3; i++) { r.push_back(e); e = e->next; } }
        return r;
    }
    void keep(const std::list<F<dim>> &fl) { for (auto &f : fl) { auto e = f->edge; for (int i = 0; i < 4 && e; i++) { trash.push_back(e); e = e->next; } } }
    ~World()
    {
        keep(faces);
        std::vector<E<dim>> st = trash;
        std::set<void *> seen;
        while (!st.empty())
        {
            auto e = st.back(); st.pop_back();
            if (!e || !seen.insert(e.get()).second) continue;
            for (auto x : {e->next, e->previous, e->opposite}) if (x) st.push_back(x);
            if (e->vertex && e->vertex->edge) st.push_back(e->vertex->edge);
            if (e->face && e->face->edge) { st.push_back(e->face->edge); e->face->edge = nullptr; }
            e->next = e->previous = e->opposite = nullptr; if (e->vertex) e->vertex->edge = nullptr; e->vertex = nullptr; e->face = nullptr;
        }
    }
};
template <size_t dim> static P<dim> lift(double x, double y) { P<dim> r{}; r[0] = x; r[1] = y; if constexpr (dim == 3) r[2] = .25 * x * x - .5 * y * y + x; return r; }
template <size_t dim> static void init(World<dim> &w, int shape)
{
    auto tri = [&](double x0, double y0, double x1, double y1, double x2, double y2) {
        std::vector<P<dim>> c{lift<dim>(x0, y0), lift<dim>(x1, y1), lift<dim>(x2, y2)};
        auto e = make_shared_h_edges<double, dim>(c);
        return make_shared_h_face<double, dim>(e); };
    if (shape == 0) w.faces.push_back(tri(0, 0, 8, 0, 0, 8));
    else if (shape == 1)
    {
        auto f = tri(0, 0, 8, 0, 0, 8); auto e = getFaceEdge(f, V<dim>(f->edge->next->next->vertex)); // ends at (0,8)
        w.faces.push_back(f); w.faces.push_back(add_face(f, e, lift<dim>(8, 8)));
    }
    else if (shape == 2 || shape == 3)
    {
        // fan around a vertex
        std::vector<P<dim>> c; int n = shape == 2 ? 4 : 6;
        if (n == 4) c = {lift<dim>(0, 0), lift<dim>(8, 0), lift<dim>(8, 8), lift<dim>(0, 8)};
        else c = {lift<dim>(8, 0), lift<dim>(4, 8), lift<dim>(-4, 8), lift<dim>(-8, 0), lift<dim>(-4, -8), lift<dim>(4, -8)};
        auto e = make_shared_h_edges<double, dim>(c);
        auto f = make_shared_h_face<double, dim>(e);
        w.faces = add_vertex(f, make_shared_h_vertex<double, dim>(n == 4 ? lift<dim>(2, 4) : lift<dim>(0, 0)));
        f->edge = nullptr;
    }
    else if (shape == 4)
    {
        // strip of 4 triangles
        auto f = tri(0, 0, 8, 0, 0, 8); w.faces.push_back(f);
        auto v = f->edge->next->next->vertex;
        auto e = getFaceEdge(f, v);
        double X[3] = {8, 16, 16}, Y[3] = {8, 0, 8};
        for (int i = 0; i < 3; i++)
        {
            auto g = add_face(e, lift<dim>(X[i], Y[i])); w.faces.push_back(g);
            // boundary edge of the new face to continue on
            for (auto &x : getFaceEdges(g)) if (!x->opposite) { double a = std::max(x->vertex->coords[0], x->previous->vertex->coords[0]) + std::min(x->vertex->coords[0], x->previous->vertex->coords[0]); if (i == 0 ? a == 16 : a == 24) e = x; }
        }
    }
    for (auto &f : w.faces) { auto t = w.tri(f); w.model.insert(t); w.area += w.area2(t); }
}
static std::vector<P<2>> probe_points() { return {{2, 2}, {4, 4}, {4, 0}, {1, 6}, {6, 3}, {3, 5}, {8, 0}, {20, 20}, {0, 2}, {2, 4}}; }
static std::vector<std::vector<P<2>>> probe_polygons() { return {{{-1, -1}, {4.1, -1}, {4.1, 9}, {-1, 9}}, {{0, 0}, {9, 0}, {9, 3.1}}}; }

template <size_t dim> static bool expect(bool ok, const char *key, const std::string &msg) { if (!ok) mc::fail(key, "%s", msg.c_str()); return ok; }

// full check of a state
template <size_t dim> static bool check(World<dim> &w)
{
    auto S = [&](int l) { char b[64]; snprintf(b, 64, "v%d(%g,%g)", l, w.at(l)[0], w.at(l)[1]); return std::string(b); };
    std::set<void *> inmesh; for (auto &f : w.faces) inmesh.insert(f.get());
    std::map<std::pair<int, int>, E<dim>> dir; std::set<Tri> got; std::map<int, std::set<void *>> incident; std::map<int, std::set<int>> adj;
    for (auto &f : w.faces)
    {
        mc::step();
        if (!f || !f->edge) { mc::fail("face-loop", "face without edge"); return false; }
        auto e = f->edge; int n = 0;
        for (; n < 4; n++)
        {
            if (!e || !e->vertex || !e->next || !e->previous) { mc::fail("face-loop", "open loop"); return false; }
            if (e->face != f) { mc::fail("edge-face", "an edge of a face refers to another face"); return false; }
            if (e->next->previous != e || e->previous->next != e) { mc::fail("face-loop", "next and previous are not inverse"); return false; }
            if (n && e == f->edge) break;
            e = e->next;
        }
        if (n != 3) { mc::fail("face-loop", "face with %d edges", n); return false; }
        auto t = w.tri(f);
        if (!got.insert(t).second) { mc::fail("duplicate-face", "triangle %s %s %s twice", S(t[0]).c_str(), S(t[1]).c_str(), S(t[2]).c_str()); return false; }
        for (int i = 0; i < 3; i++, e = e->next)
        {
            int a = w.label(e->previous->vertex), b = w.label(e->vertex);
            if (!dir.emplace(std::make_pair(a, b), e).second) { mc::fail("non-manifold", "half-edge %s->%s in two faces", S(a).c_str(), S(b).c_str()); return false; }
            incident[b].insert(f.get()); adj[a].insert(b); adj[b].insert(a);
        }
    }
    if (got != w.model)
    {
        std::string m; for (auto &t : got) if (!w.model.count(t)) m += " +" + S(t[0]) + S(t[1]) + S(t[2]); for (auto &t : w.model) if (!got.count(t)) m += " -" + S(t[0]) + S(t[1]) + S(t[2]);
        mc::fail("faces", "faces differ from what the edits make:%s", m.c_str()); return false;
    }
    size_t nb = 0;
    for (auto &[ab, e] : dir)
    {
        auto it = dir.find({ab.second, ab.first});
        if (it == dir.end())
        {
            nb++;
            if (e->opposite) { mc::fail("opposite-dangling", "boundary half-edge %s->%s has an opposite", S(ab.first).c_str(), S(ab.second).c_str()); return false; }
        }
        else if (e->opposite != it->second)
        {
            mc::fail("opposite", "half-edge %s->%s: opposite is %s", S(ab.first).c_str(), S(ab.second).c_str(), e->opposite ? "another edge" : "missing"); return false;
        }
    }
    std::set<int> bv; std::map<int, int> fans; // boundary vertices
    for (auto &[ab, e] : dir) if (!e->opposite) { bv.insert(ab.first); bv.insert(ab.second); fans[ab.second]++; }
    bool ok = true;
    for (auto &[v, fs] : incident)
    {
        auto p = w.vtx[v];
        if (!p->edge || p->edge->vertex != p || !inmesh.count(p->edge->face.get())) { mc::fail("vertex-edge", "%s refers to an edge that does not end there or left the mesh", S(v).c_str()); return false; }
        mc::step(3);
        if (fans[v] <= 1) // a single fan of faces
        {
            auto att = getFacesAttachedToVertex(p); std::set<void *> a; for (auto &f : att) a.insert(f.get());
            if (a != fs || att.size() != fs.size()) { mc::fail("getFacesAttachedToVertex", "%s: %zu faces (%zu distinct) instead of %zu", S(v).c_str(), att.size(), a.size(), fs.size()); ok = false; }
            if (is_boundary(*p) != (bv.count(v) > 0)) { mc::fail("is_boundary", "%s is reported %s", S(v).c_str(), bv.count(v) ? "interior" : "on the boundary"); ok = false; }
            auto nv = getNeighboringVertices(*p); std::set<int> n; for (auto &x : nv) n.insert(w.label(x));
            if (n != adj[v] || nv.size() != adj[v].size()) { mc::fail("getNeighboringVertices", "%s: %zu neighbours (%zu distinct) instead of %zu", S(v).c_str(), nv.size(), n.size(), adj[v].size()); ok = false; }
            for (auto &[u, x] : incident)
            {
                auto it = dir.find({v, u}); auto h = findHalfEdge(p, w.vtx[u]); mc::step();
                if (h != (it == dir.end() ? nullptr : it->second)) { mc::fail("findHalfEdge", "%s to %s: %s", S(v).c_str(), S(u).c_str(), h ? "wrong edge" : "not found"); ok = false; }
            }
        }
    }
    // neighbours, common edges, face getters
    for (auto &f : w.faces)
    {
        std::set<void *> ex; auto e = f->edge; std::vector<E<dim>> fe; for (int i = 0; i < 3; i++, e = e->next) { fe.push_back(e); if (e->opposite) ex.insert(e->opposite->face.get()); }
        auto nf = getNeighboringFaces(f); std::set<void *> n; for (auto &x : nf) n.insert(x.get());
        mc::step(6);
        if (n != ex) { mc::fail("getNeighboringFaces", "%zu instead of %zu", n.size(), ex.size()); ok = false; }
        auto ge = getFaceEdges(f); if (std::vector<E<dim>>(ge.begin(), ge.end()) != fe) { mc::fail("getFaceEdges", "wrong edges"); ok = false; }
        auto gv = getFaceVertices(f); auto gc = getFaceCoords(f); auto tv = getTriangleVertices(f); auto te = getTriangleEdges(f); auto tc = getTriangleCoords(f);
        if (gv.size() != 3 || gc.size() != 3) { mc::fail("getFaceVertices", "%zu vertices, %zu coordinates", gv.size(), gc.size()); ok = false; }
        else
        {
            auto iv = gv.begin(); auto ic = gc.begin();
            for (int i = 0; i < 3; i++, ++iv, ++ic) if (*iv != fe[i]->vertex || *ic != fe[i]->vertex->coords) { mc::fail("getFaceVertices", "vertex %d", i); ok = false; }
        }
        std::set<void *> a, b; for (int i = 0; i < 3; i++) { a.insert(te[i].get()); b.insert(fe[i].get()); if (te[i]->vertex != tv[i] || tv[i]->coords != tc[i]) { mc::fail("getTriangle", "entry %d", i); ok = false; } }
        if (a != b) { mc::fail("getTriangleEdges", "wrong edges"); ok = false; }
        int k = 0; for (auto &h : CyclicHalfEdgeFaceEdgeRange<double, dim>(*f)) if (k > 2 || h != fe[k++]) { mc::fail("cyclic-range", "edge %d", k); ok = false; break; }
        if (k != 3) { mc::fail("cyclic-range", "%d edges", k); ok = false; }
        for (auto &g : w.faces) if (g != f)
        {
            auto c = getCommonEdge(f, g); bool adjF = ex.count(g.get());
            if ((c != nullptr) != adjF || (c && (c->face != f || c->opposite->face != g))) { mc::fail("getCommonEdge", "wrong"); ok = false; }
            auto [c1, c2] = getCommonEdges(f, g); if (c1 != c || (c && c2 != c->opposite) || (!c && c2)) { mc::fail("getCommonEdges", "wrong"); ok = false; }
        }
        for (auto &[v, x] : incident) { auto h = getFaceEdge(f, w.vtx[v]); bool has = x.count(f.get()); if ((h != nullptr) != has || (h && (h->vertex != w.vtx[v] || h->face != f))) { mc::fail("getFaceEdge", "wrong"); ok = false; } }
    }
    // boundary
    auto B = getFacesBoundary(w.faces); std::set<void *> bs; for (auto &e : B) { bs.insert(e.get()); if (e->opposite) { mc::fail("getFacesBoundary", "interior edge reported"); ok = false; } }
    if (bs.size() != nb || B.size() != nb) { mc::fail("getFacesBoundary", "%zu edges instead of %zu", B.size(), nb); ok = false; }
    size_t tot = 0; if (nb)
    for (auto &L : getOrientedFacesBoundaries(w.faces))
    {
        tot += L.size(); mc::step();
        for (auto it = L.begin(); it != L.end(); ++it) { auto nx = std::next(it) == L.end() ? L.begin() : std::next(it); if ((*nx)->previous->vertex != (*it)->vertex) { mc::fail("boundary-loop", "boundary loop is not closed"); ok = false; break; } }
    }
    if (nb && tot != nb) { mc::fail("boundary-loop", "%zu edges in loops instead of %zu", tot, nb); ok = false; }
    auto vm = getVerticesMapFromFaces<double, dim>(w.faces); auto vv = getVerticesVectorFromFaces<double, dim>(w.faces); auto em = getEdgesMap<double, dim>(w.faces);
    std::set<size_t> idx; for (auto &[v, i] : vm) { idx.insert(i); if (!incident.count(w.label(v))) { mc::fail("getVerticesMap", "foreign vertex"); ok = false; } }
    if (vm.size() != incident.size() || idx.size() != vm.size() || vv.size() != vm.size() || (vm.size() && *idx.rbegin() != vm.size() - 1)) { mc::fail("getVerticesMap", "%zu vertices, %zu expected", vm.size(), incident.size()); ok = false; }
    if (em.size() != dir.size()) { mc::fail("getEdgesMap", "%zu instead of %zu", em.size(), dir.size()); ok = false; }
    // covered area
    double a = 0; for (auto &t : w.model) a += w.area2(t);
    if (std::abs(a - w.area) > 1e-9) { mc::fail("area", "covered area %.17g instead of %.17g", a / 2, w.area / 2); ok = false; }
    if constexpr (dim == 2) if (!w.faces.empty())
    {
        double s = getTriangle2dMeshArea(w.faces), u = 0; for (auto &t : w.model) u += std::abs(w.area2(t)) / 2;
        std::vector<F<2>> vf(w.faces.begin(), w.faces.end());
        double sp = getTriangle2dMeshAreaPar(vf);
        if (std::abs(s - u) > 1e-9 || std::abs(sp - u) > 1e-9) { mc::fail("mesh-area", "%.17g / %.17g instead of %.17g", s, sp, u); ok = false; }
    }
    return ok;
}
template <size_t dim> static std::vector<Op> ops(World<dim> &w, size_t maxf)
{
    std::vector<Op> r; auto ed = w.edges(); auto nf = w.faces.size();
    for (int i = 0; i < (int)ed.size(); i++)
    {
        auto &e = ed[i];
        if (!e->opposite && nf < maxf) { r.push_back({ADD1, i}); r.push_back({ADD2, i}); }
        if (e->opposite)
        {
            auto A = e->previous->vertex->coords, B = e->vertex->coords, C = e->next->vertex->coords, D = e->opposite->next->vertex->coords;
            if (orient<dim>(A, D, C) > 1e-9 && orient<dim>(D, B, C) > 1e-9)
            {
                int c = w.label(e->next->vertex), d = w.label(e->opposite->next->vertex); bool dup = false;
                for (auto &t : w.model) dup |= std::count(t.begin(), t.end(), c) && std::count(t.begin(), t.end(), d);
                if (!dup) r.push_back({FLIP, i});
            }
        }
        if (nf < maxf) r.push_back({SPLIT, i});
    }
    for (int i = 0; i < (int)nf; i++) { if (nf < maxf) r.push_back({VERT, i}); r.push_back({ERASE, i}); }
    std::set<int> vs; for (auto &t : w.model) for (int v : t) vs.insert(v);
    std::set<int> bv; for (auto &e : ed) if (!e->opposite) bv.insert(w.label(e->vertex));
    for (int v : vs) { r.push_back({RMV, v}); if (!bv.count(v)) r.push_back({SMOOTH, v}); }
    if constexpr (dim == 2)
    {
        bool positive = true; for (auto &t : w.model) positive &= w.area2(t) > 1e-9;
        if (positive && nf < maxf) for (int i = 0; i < (int)probe_points().size(); i++) r.push_back({BW, i});
        for (int i = 0; i < (int)probe_polygons().size(); i++) { r.push_back({TAKEIN, i}); r.push_back({TAKEOUT, i}); }
    }
    return r;
}
template <size_t dim> static void drop(World<dim> &w, const Tri &t) { w.model.erase(t); w.area -= w.area2(t); }
template <size_t dim> static void gain(World<dim> &w, const Tri &t) { w.model.insert(t); w.area += w.area2(t); }
template <size_t dim> static P<dim> mid(const P<dim> &a, const P<dim> &b) { P<dim> r; for (size_t i = 0; i < dim; i++) r[i] = .5 * (a[i] + b[i]); return r; }

// execute one operation on the mesh and on the model
template <size_t dim> static bool apply(World<dim> &w, Op o)
{
    auto ed = w.edges(); mc::step();
    auto face_at = [&](int i) { return std::next(w.faces.begin(), i); };
    switch (o.k)
    {
    case ADD1: case ADD2:
    {
        auto e = ed[o.i]; auto A = e->previous->vertex->coords, B = e->vertex->coords, C = e->next->vertex->coords; P<dim> n;
        for (size_t i = 0; i < dim; i++) n[i] = A[i] + B[i] - C[i];
        int a = w.label(e->previous->vertex), b = w.label(e->vertex);
        // refused: edge of another face, edge with an opposite
        for (auto &f : w.faces) if (f != e->face && add_face(f, e, n)) { mc::fail("add_face-foreign", "accepted an edge of another face"); return false; }
        for (auto &x : ed) if (x->opposite && (add_face(x->face, x, n) || add_face(x, n))) { mc::fail("add_face-interior", "accepted an interior edge"); return false; }
        auto f = o.k == ADD1 ? add_face(e->face, e, n) : add_face(e, n);
        if (!f) { mc::fail("add_face", "refused a free edge"); return false; }
        w.faces.push_back(f);
        V<dim> v; for (auto &x : getFaceVertices(f)) if (!w.lab.count(x.get())) v = x;
        if (!v || v->coords != n) { mc::fail("add_face", "new vertex missing or displaced"); return false; }
        gain(w, norm3(b, a, w.label(v)));
        break;
    }
    case FLIP:
    {
        auto e = ed[o.i]; int a = w.label(e->previous->vertex), b = w.label(e->vertex), c = w.label(e->next->vertex), d = w.label(e->opposite->next->vertex);
        auto f1 = e->face, f2 = e->opposite->face;
        auto g1 = f1, g2 = f2; flip(g1, g2);
        drop(w, norm3(a, b, c)); drop(w, norm3(b, a, d));
        double before = w.area; gain(w, norm3(a, d, c)); gain(w, norm3(d, b, c)); (void)before;
        if (g1 != f1 || g2 != f2) { mc::fail("flip", "faces replaced"); return false; }
        for (auto &x : w.faces) if (x != f1 && !getCommonEdge(x, f1)) { auto g = x, h = f1; flip(g, h); break; } // not adjacent: nothing happens
        break;
    }
    case VERT:
    {
        auto it = face_at(o.i); auto f = *it; auto t = w.tri(f); auto A = w.at(t[0]), B = w.at(t[1]), C = w.at(t[2]);
        auto v = make_shared_h_vertex<double, dim>(mid<dim>(A, mid<dim>(B, C)));
        auto nf = add_vertex(f, v); w.faces.erase(it); f->edge = nullptr;
        w.faces.insert(w.faces.end(), nf.begin(), nf.end()); int l = w.label(v);
        drop(w, t); gain(w, norm3(t[0], t[1], l)); gain(w, norm3(t[1], t[2], l)); gain(w, norm3(t[2], t[0], l));
        break;
    }
    case SPLIT:
    {
        auto e = ed[o.i]; auto op = e->opposite; int a = w.label(e->previous->vertex), b = w.label(e->vertex), c = w.label(e->next->vertex), d = op ? w.label(op->next->vertex) : -1;
        auto m = mid<dim>(w.at(a), w.at(b));
        auto v = splitHalfEdge(e, w.faces);
        if (!v || v->coords != m) { mc::fail("splitHalfEdge", "vertex not at the middle of the edge"); return false; }
        int l = w.label(v);
        drop(w, norm3(a, b, c)); gain(w, norm3(a, l, c)); gain(w, norm3(l, b, c));
        if (op) { drop(w, norm3(b, a, d)); gain(w, norm3(b, l, d)); gain(w, norm3(l, a, d)); }
        break;
    }
    case BW: if constexpr (dim == 2)
    {
        auto p = probe_points()[o.i]; double a0 = w.area; int inside = 0; bool dup = false; // 1: interior of a face, 2: interior of an inner edge
        std::set<int> vs; for (auto &t : w.model) for (int v : t) vs.insert(v);
        for (int v : vs) dup |= w.at(v) == p;
        int covering = 0; // faces covering the point: overlapping faces make the location ambiguous
        for (auto &t : w.model)
        {
            double o0 = orient<2>(w.at(t[0]), w.at(t[1]), p), o1 = orient<2>(w.at(t[1]), w.at(t[2]), p), o2 = orient<2>(w.at(t[2]), w.at(t[0]), p);
            if (o0 < 0 || o1 < 0 || o2 < 0) continue;
            covering++; if (o0 > 0 && o1 > 0 && o2 > 0) inside = std::max(inside, 1);
        }
        if (!inside && covering == 2)
            for (auto &e : ed) if (e->opposite) { auto A = e->previous->vertex->coords, B = e->vertex->coords; if (orient<2>(A, B, p) == 0 && (p[0] - A[0]) * (p[0] - B[0]) + (p[1] - A[1]) * (p[1] - B[1]) < 0) inside = 2; }
        std::set<Tri> before = w.model;
        auto [v, del, neu] = boyerWatson<double>(w.faces, p);
        if (!v)
        {
            if (!del.empty() || !neu.empty()) { mc::fail("boyerWatson", "faces reported without an insertion"); return false; }
            if (inside && !dup && covering <= (inside == 2 ? 2 : 1)) { mc::fail("boyerWatson-refused", "point (%g,%g) inside the mesh not inserted", p[0], p[1]); return false; }
        }
        else
        {
            if (dup && covering) { mc::fail("boyerWatson-duplicate", "point (%g,%g) inserted twice", p[0], p[1]); return false; }
            if (!covering) { mc::fail("boyerWatson-outside", "point (%g,%g) outside the mesh inserted", p[0], p[1]); return false; }
            if (v->coords != p) { mc::fail("boyerWatson", "vertex displaced"); return false; }
            if (!v->edge || v->edge->vertex != v) { mc::fail("boyerWatson", "new vertex has no edge"); return false; }
            w.keep(del); int l = w.label(v);
            // the deleted faces as they were before (their half-edges have been recycled)
            double na = 0; std::set<Tri> now; for (auto &f : w.faces) now.insert(w.tri(f));
            std::set<Tri> gone, came; for (auto &t : before) if (!now.count(t)) gone.insert(t); for (auto &t : now) if (!before.count(t)) came.insert(t);
            if (gone.size() != del.size() || came.size() != neu.size()) { mc::fail("boyerWatson", "%zu faces disappeared and %zu appeared, reported %zu and %zu", gone.size(), came.size(), del.size(), neu.size()); return false; }
            for (auto &t : came) { if (!std::count(t.begin(), t.end(), l)) { mc::fail("boyerWatson", "a new face does not contain the point"); return false; } if (!(w.area2(t) > 0)) { mc::fail("boyerWatson-orientation", "new face not counter clockwise"); return false; } na += w.area2(t); }
            for (auto &t : gone) na -= w.area2(t);
            if (std::abs(na) > 1e-9) { mc::fail("boyerWatson-area", "insertion changes the covered area by %.17g", na / 2); return false; }
            w.model = now; w.area = a0;
        }
        repairVertexEdges<double, 2>(w.faces);
        break;
    }
    case RMV:
    {
        auto v = w.vtx[o.i]; w.keep(w.faces); size_t n = 0; auto M = w.model;
        for (auto &t : M) if (std::count(t.begin(), t.end(), o.i)) { drop(w, t); n++; }
        auto r = remove_faces(w.faces, v);
        if (r != n) { mc::fail("remove_faces", "%zu faces reported removed instead of %zu", r, n); return false; }
        repairVertexEdges<double, dim>(w.faces);
        break;
    }
    case ERASE:
    {
        auto it = face_at(o.i); w.keep({*it}); drop(w, w.tri(*it)); auto nx = std::next(it) == w.faces.end() ? nullptr : *std::next(it);
        auto r = eraseFace(w.faces, it);
        if ((r == w.faces.end() ? nullptr : *r) != nx) { mc::fail("eraseFace", "returned iterator does not follow the erased face"); return false; }
        repairVertexEdges<double, dim>(w.faces);
        break;
    }
    case TAKEIN: case TAKEOUT: if constexpr (dim == 2)
    {
        auto poly = probe_polygons()[o.i]; auto he = make_HalfEdges<double, 2>(poly); w.keep(w.faces);
        std::list<F<2>> out = o.k == TAKEIN ? takeInternalFaces<double>(w.faces, he) : takeExternalFaces<double>(w.faces, he);
        std::set<Tri> ex, got; auto M = w.model;
        for (auto &t : M)
        {
            P<2> g{}; for (int v : t) for (int i = 0; i < 2; i++) g[i] += w.at(v)[i] / 3;
            bool in = true; for (size_t i = 0; i < poly.size(); i++) in &= orient<2>(poly[i], poly[(i + 1) % poly.size()], g) >= 0;
            if (in == (o.k == TAKEIN)) { ex.insert(t); drop(w, t); }
        }
        for (auto &f : out) got.insert(w.tri(f));
        for (auto &e : he) { e->previous = nullptr; e->next = nullptr; }
        if (got != ex || out.size() != ex.size()) { mc::fail("take-faces", "%s took %zu faces instead of %zu", kname[o.k], out.size(), ex.size()); return false; }
        repairVertexEdges<double, 2>(w.faces);
        break;
    }
    case SMOOTH:
    {
        auto v = w.vtx[o.i]; std::set<int> adj; for (auto &t : w.model) if (std::count(t.begin(), t.end(), o.i)) for (int x : t) if (x != o.i) adj.insert(x);
        P<dim> c{}; for (int x : adj) for (size_t i = 0; i < dim; i++) c[i] += w.at(x)[i] / adj.size();
        laplacian_smoothing(w.faces, *v);
        for (size_t i = 0; i < dim; i++) if (std::abs(v->coords[i] - c[i]) > 1e-9) { mc::fail("laplacian_smoothing", "vertex moved to (%g,%g) instead of the centre (%g,%g) of its neighbours", v->coords[0], v->coords[1], c[0], c[1]); return false; }
        break;
    }
    }
    return true;
}
template <size_t dim> static std::string key(World<dim> &w)
{
    std::unordered_map<int, int> m; std::string s; std::vector<int> order;
    auto id = [&](const V<dim> &v) { int l = w.label(v); auto it = m.find(l); if (it == m.end()) { it = m.emplace(l, (int)m.size()).first; order.push_back(l); } return it->second; };
    for (auto &f : w.faces) { auto e = f->edge; for (int i = 0; i < 3; i++, e = e->next) { s += (char)(1 + id(e->vertex)); } }
    s += "|";
    for (int l : order) { auto e = w.vtx[l]->edge; s += (char)(1 + id(e->previous->vertex)); char b[64]; int n = snprintf(b, 64, "%a,%a", w.at(l)[0], w.at(l)[1]); s.append(b, n); }
    return s;
}
template <size_t dim> static void bfs(int shape, size_t depth, size_t maxf, int firstMod, int firstOf)
{
    std::set<std::string> seen; std::vector<std::vector<Op>> frontier{{}};
    {
        World<dim> w; init(w, shape); mc::at("initial mesh %d (dim %zu)", shape, dim); mc::state();
        if (!check(w)) return;
        seen.insert(key(w));
    }
    for (size_t d = 0; d < depth; d++)
    {
        std::vector<std::vector<Op>> next;
        for (auto &seq : frontier)
        {
            std::vector<Op> O;
            { World<dim> w; init(w, shape); for (auto &o : seq) apply(w, o); O = ops(w, maxf); }
            int c = 0;
            for (auto &o : O)
            {
                c++; if (d == 0 && (c % firstOf) != firstMod) continue;
                World<dim> w; init(w, shape);
                for (auto &x : seq) apply(w, x);
                auto s2 = seq; s2.push_back(o);
                mc::at("mesh %d (dim %zu): %s", shape, dim, str(s2).c_str());
                mc::state();
                bool ok = apply(w, o) && check(w);
                if (!ok) continue;
                mc::trace();
                if (w.faces.empty() || o.k == SMOOTH) continue;
                auto k = key(w);
                if (seen.insert(k).second) { mc::outcome(std::hash<std::string>{}(k)); if (d + 1 < depth) next.push_back(s2); if (d + 1 == depth) mc::sample(); }
            }
        }
        frontier.swap(next);
    }
}
// reversed boundary loops
static void reversals()
{
    for (int n = 3; n <= 8; n++)
    {
        std::vector<P<2>> c; for (int i = 0; i < n; i++) c.push_back({std::cos(6.28 * i / n), std::sin(6.28 * i / n)});
        auto he = make_HalfEdges<double, 2>(c); mc::state(); mc::step(3);
        mc::at("loop of %d edges", n);
        for (int i = 0; i < n; i++) if (he[i]->vertex->coords != c[i] || he[i]->previous->vertex->coords != c[(i + n - 1) % n] || he[i]->next->vertex->coords != c[(i + 1) % n]) mc::fail("make_HalfEdges", "edge %d", i);
        if (!are_edges_2d_ccw<double>(he)) mc::fail("are_edges_2d_ccw", "counter clockwise loop");
        reverseBoundary(he);
        if (are_edges_2d_ccw<double>(he)) mc::fail("reverseBoundary", "still counter clockwise");
        for (int i = 0; i < n; i++) if (he[i]->vertex->coords != c[n - 1 - i] || he[i]->next != he[(i + 1) % n] || he[i]->previous != he[(i + n - 1) % n]) mc::fail("reverseBoundary", "edge %d", i);
        for (auto &e : he) { e->previous = nullptr; e->next = nullptr; }
        mc::trace(); mc::sample();
    }
}
static std::vector<mc::Unit> units()
{
    bool T = mc::thorough(); std::vector<mc::Unit> U;
    for (int s = 0; s < 5; s++)
    {
        size_t d = T ? (s == 0 ? 5 : 4) : (s == 0 ? 4 : 3), d3 = s == 0 ? d - 1 : d; int of = T ? 16 : 8;
        for (int m = 0; m < of; m++)
        {
            U.push_back({"plane/" + std::to_string(s) + "." + std::to_string(m), [=] { bfs<2>(s, d, s == 3 ? 10 : 8, m, of); }});
            U.push_back({"space/" + std::to_string(s) + "." + std::to_string(m), [=] { bfs<3>(s, d3, s == 3 ? 10 : 8, m, of); }});
        }
    }
    U.push_back({"reverse", reversals});
    return U;
}
MC_MAIN(units)
