// C22: wires chain edges consistently whatever the insertion order.
#include "mc.h"
#include <gbs/curves>
#include <gbs/bscbuild.h>
#include <topology/vertex.h>
#include <topology/edge.h>
#include <topology/wire.h>
using namespace gbs;
constexpr double TOL = 1e-5; // default approximation tolerance

// how an end of a new edge is defined
enum End { POOL, EXACT, NEAR, FAR, NEND };
static const char *en[] = {"shared", "same-point", "0.6tol-off", "1.7tol-off"};

template <size_t dim> struct Driver
{
    using P = std::array<double, dim>;
    using V = std::shared_ptr<Vertex<double, dim>>;
    using E = std::shared_ptr<Edge<double, dim>>;
    std::vector<P> corners;
    std::vector<V> pool;
    struct MEdge { Vertex<double, dim> *v1, *v2; P p1, p2; const Edge<double, dim> *e; const Curve<double, dim> *c; };
    std::vector<MEdge> model;
    std::vector<V> keep;
    std::unique_ptr<Wire<double, dim>> w;
    double wtol = TOL, etol = TOL;
    Driver(int n)
    {
        for (int i = 0; i < n; i++)
        {
            P p{}; double a = 2 * M_PI * i / n; p[0] = std::round(1e3 * std::cos(a)) / 1e3; p[1] = std::round(1e3 * std::sin(a)) / 1e3;
            if (dim == 3) p[dim - 1] = 0.3 * i;
            corners.push_back(p); pool.push_back(std::make_shared<Vertex<double, dim>>(p));
        }
    }
    V vtx(int i, End k)
    {
        if (k == POOL) return pool[i];
        P p = corners[i];
        if (k == NEAR) p[0] += 0.6 * wtol;
        if (k == FAR) p[0] += 1.7 * wtol;
        return std::make_shared<Vertex<double, dim>>(p);
    }
    // straight from vertices; bowed = from a curve (fresh vertices only)
    E make(int i, int j, End a, End b, bool bowed)
    {
        E e;
        if (!bowed) e = std::make_shared<Edge<double, dim>>(vtx(i, a), vtx(j, b));
        else
        {
            P p = vtx(i, a)->point(), q = vtx(j, b)->point(), m;
            for (size_t k = 0; k < dim; k++) m[k] = 0.5 * (p[k] + q[k]) + (k == 1 ? 0.3 : 0.1);
            std::shared_ptr<Curve<double, dim>> c = std::make_shared<BSCurve<double, dim>>(std::vector<P>{p, m, q}, std::vector<double>{0, 0, 0, 1, 1, 1}, 2);
            e = std::make_shared<Edge<double, dim>>(c);
        }
        e->setApproximationTolerance(etol);
        return e;
    }
    static double dist(const P &a, const P &b) { double s = 0; for (size_t k = 0; k < dim; k++) s += (a[k] - b[k]) * (a[k] - b[k]); return std::sqrt(s); }
    MEdge snap(const E &e) { return {e->vertex1().get(), e->vertex2().get(), e->vertex1()->point(), e->vertex2()->point(), e.get(), e->curve().get()}; }
    bool closed() const { return model.front().v1 == model.back().v2; }
    void check(const char *what)
    {
        mc::state();
        size_t n = 0; for (auto it = w->begin(); it != w->end(); ++it) n++;
        if (n != model.size()) { mc::fail(std::string(what) + "-count", "%zu edges, %zu expected", n, model.size()); return; }
        size_t i = 0; const Edge<double, dim> *prev = nullptr;
        for (auto it = w->begin(); it != w->end(); ++it, ++i)
        {
            const auto &e = **it; auto &m = model[i];
            if (m.e && m.e != &e) mc::fail(std::string(what) + "-order", "edge %zu is not the expected one", i);
            if (m.c != e.curve().get()) mc::fail(std::string(what) + "-order", "edge %zu does not carry the expected curve", i);
            if (e.vertex1().get() != m.v1 || e.vertex2().get() != m.v2) mc::fail(std::string(what) + "-vertices", "edge %zu does not end at the expected vertices", i);
            if (prev && prev->vertex2() != e.vertex1()) mc::fail(std::string(what) + "-connected", "edges %zu and %zu do not share their common vertex", i - 1, i);
            prev = &e;
            auto [u1, u2] = e.bounds();
            if (!(u1 < u2)) mc::fail(std::string(what) + "-bounds", "edge %zu: bounds %g..%g", i, u1, u2);
            if (dist(e.curve()->value(u1), e.vertex1()->point()) > wtol || dist(e.curve()->value(u2), e.vertex2()->point()) > wtol)
                mc::fail(std::string(what) + "-bounds", "edge %zu: the trimmed curve does not end at the vertices", i);
        }
        if (w->vertex1().get() != model.front().v1 || w->vertex2().get() != model.back().v2) mc::fail(std::string(what) + "-ends", "wrong end vertices");
        if (w->front() != *w->begin()) mc::fail(std::string(what) + "-ends", "front");
        bool geo = closed();
        if (w->isClosed() != geo) mc::fail(std::string(what) + "-closed", "isClosed %d, expected %d", (int)w->isClosed(), (int)geo);
        mc::outcome(mc::mix(mc::mix(model.size(), geo), (uint64_t)(1000 * model.back().p2[0]) + 7777 * (uint64_t)(1000 * model.front().p1[0] + 5000)));
    }
    void start(const E &e, bool shared)
    {
        auto m = snap(e); 
        if (shared) { E e2 = e; w = std::make_unique<Wire<double, dim>>(e2); } else { w = std::make_unique<Wire<double, dim>>(*e); m.e = nullptr; }
        if (dist(m.p1, m.p2) < TOL && m.v1 != m.v2) { m.v2 = m.v1; m.p2 = m.p1; }
        model = {m};
        w->setApproximationTolerance(wtol);
        keep.push_back(e->vertex1()); keep.push_back(e->vertex2());
    }
    // returns whether accepted
    bool add(E e, bool byRef)
    {
        mc::step();
        auto m = snap(e); auto orig = m; auto b0 = e->bounds();
        keep.push_back(e->vertex1()); keep.push_back(e->vertex2());
        bool accept = false;
        if (!closed())
        {
            bool after = model.back().v2 == m.v1 || dist(model.back().p2, m.p1) < wtol;
            bool before = model.front().v1 == m.v2 || dist(model.front().p1, m.p2) < wtol;
            if (byRef) m.e = nullptr;
            if (after) { m.v1 = model.back().v2; m.p1 = model.back().p2; }
            if (before) { m.v2 = model.front().v1; m.p2 = model.front().p1; }
            accept = after || before;
            if (after && before)
            {   // closes: may sit at either side, the cyclic order is the same
                if (w->addEdge(e) != true) { mc::fail("close-accept", "closing edge refused"); return false; }
                if (w->front() == e || (byRef && w->front()->curve().get() == m.c)) model.insert(model.begin(), m); else model.push_back(m);
                check("closing"); return true;
            }
            if (after) model.push_back(m); else if (before) model.insert(model.begin(), m);
        }
        bool got = byRef ? w->addEdge(static_cast<const Edge<double, dim> &>(*e)) : w->addEdge(e);
        if (got != accept) { mc::fail(closed() ? "accept-closed" : accept ? "refused" : "accepted", "addEdge returned %d, expected %d", (int)got, (int)accept); return false; }
        if (!accept || byRef)
            if (e->vertex1().get() != orig.v1 || e->vertex2().get() != orig.v2 || e->bounds() != b0) mc::fail("refused-touched", "the %s edge was modified", accept ? "copied" : "refused");
        check(accept ? "added" : "refused-wire");
        return true;
    }
};

struct Op { int i, j; End a, b; bool bowed, ref; };
template <size_t dim> static void sequences(int n, int depth, const std::vector<End> &ks, bool bowed, int first, double wtol, double etol)
{
    std::vector<Op> ops;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j)
        for (End a : ks) for (End b : ks)
        {
            if (!bowed) ops.push_back({i, j, a, b, false, ((i + j + a + b) & 1) == 1});
            else if (a != POOL && b != POOL) ops.push_back({i, j, a, b, true, ((i + j + a + b) & 1) == 0});
        }
    std::vector<size_t> seq(depth, 0);
    // every sequence; the first added edge is fixed by the unit
    auto run = [&](const std::vector<size_t> &s) {
        Driver<dim> d(n); d.wtol = wtol; d.etol = etol;
        std::string txt = "wire 0->1";
        d.start(d.make(0, 1, first == 0 ? POOL : EXACT, first == 0 ? POOL : EXACT, bowed), first != 2);
        for (size_t k : s)
        {
            auto &o = ops[k]; char b[120];
            snprintf(b, 120, " +%d(%s)->%d(%s)%s%s", o.i, en[o.a], o.j, en[o.b], o.bowed ? " bowed" : "", o.ref ? " by copy" : ""); txt += b;
            mc::at("dim %zu tol %g/%g: %s", dim, wtol, etol, txt.c_str());
            if (!d.add(d.make(o.i, o.j, o.a, o.b, o.bowed), o.ref)) return;
        }
        mc::trace();
        // close what is left open
        if (!d.closed())
        {
            auto v1 = d.w->vertex1(); auto v2 = d.w->vertex2(); size_t m = d.model.size();
            d.w->close(); mc::step();
            size_t c = 0; for (auto it = d.w->begin(); it != d.w->end(); ++it) c++;
            if (!d.w->isClosed() || c != m + 1) mc::fail("close", "close() leaves the wire %s with %zu edges (%zu before)", d.w->isClosed() ? "closed" : "open", c, m);
            const Edge<double, dim> *prev = d.w->back().get(); bool seg = false;
            for (auto it = d.w->begin(); it != d.w->end(); ++it)
            {
                if (prev->vertex2() != (*it)->vertex1()) mc::fail("close", "edges are not connected around the closed wire");
                if ((*it)->vertex1() == v2 && (*it)->vertex2() == v1) seg = true;
                prev = it->get();
            }
            if (!seg) mc::fail("close", "no edge from the end to the start");
        }
        else
        {
            size_t m = d.model.size(); d.w->close(); mc::step();
            size_t c = 0; for (auto it = d.w->begin(); it != d.w->end(); ++it) c++;
            if (c != m || !d.w->isClosed()) mc::fail("close-closed", "close() changes a closed wire");
        }
        d.w->tessellate();
    };
    std::function<void(int)> rec = [&](int k) {
        if (k == depth) { run(seq); return; }
        for (size_t o = 0; o < ops.size(); o++) { seq[k] = o; rec(k + 1); }
    };
    rec(0); mc::sample();
}
// polygons: every insertion order of the edges, each edge retried until accepted
template <size_t dim> static void polygon_orders(int n, bool closedPoly, bool bowed, End k)
{
    int m = closedPoly ? n : n - 1;
    std::vector<int> perm(m); for (int i = 0; i < m; i++) perm[i] = i;
    do
    {
        Driver<dim> d(n);
        mc::at("dim %zu polygon of %d edges %s, order", dim, m, closedPoly ? "closed" : "open");
        for (int i : perm) { char b[8]; snprintf(b, 8, " %d", i); strncat(mc::g_slot->cur, b, 400); }
        d.start(d.make(perm[0], (perm[0] + 1) % n, EXACT, EXACT, bowed), true);
        std::vector<int> left(perm.begin() + 1, perm.end());
        size_t guard = 0; bool ok = true;
        while (!left.empty() && guard++ < 20 && ok)
        {
            std::vector<int> next;
            for (int i : left)
            {
                size_t before = d.model.size();
                ok = d.add(d.make(i, (i + 1) % n, k, EXACT, bowed), guard & 1);
                if (!ok) break;
                if (d.model.size() == before) next.push_back(i);
            }
            left = next;
        }
        mc::trace();
        if (!ok) continue;
        if (!left.empty()) { mc::fail("polygon-left", "%zu edges never accepted", left.size()); continue; }
        if (d.w->isClosed() != closedPoly) mc::fail("polygon-closed", "closed %d", (int)d.w->isClosed());
        // edges run around the polygon in order
        int prev = -1, cnt = 0;
        for (auto it = d.w->begin(); it != d.w->end(); ++it, cnt++)
        {
            int c = -1; auto p = (*it)->vertex1()->point();
            for (int i = 0; i < n; i++) if (Driver<dim>::dist(p, d.corners[i]) < 3 * TOL) c = i;
            if (prev >= 0 && c != (prev + 1) % n) mc::fail("polygon-order", "edge from corner %d follows edge from corner %d", c, prev);
            prev = c;
        }
        if (cnt != m) mc::fail("polygon-count", "%d edges", cnt);
    } while (std::next_permutation(perm.begin(), perm.end()));
    mc::sample();
}
// single closed edges and trimmed edges
template <size_t dim> static void edges()
{
    for (int k = 0; k < 6; k++)
    {
        double r = 0.5 + k; mc::at("dim %zu circle of radius %g as a wire", dim, r);
        auto c = std::make_shared<BSCurveRational<double, dim>>(build_circle<double, dim>(r));
        for (bool rev : {false, true})
        {
            std::shared_ptr<Curve<double, dim>> cc = c;
            if (rev) { auto c2 = std::make_shared<BSCurveRational<double, dim>>(*c); c2->reverse(); cc = c2; }
            for (int sh = 0; sh < 2; sh++)
            {
                auto e = std::make_shared<Edge<double, dim>>(cc);
                Wire<double, dim> w = sh ? Wire<double, dim>(e) : Wire<double, dim>(*e); mc::state(); mc::step();
                if (!w.isClosed()) mc::fail("circle-closed", "a circle is not a closed wire");
                auto [a, b] = w.front()->bounds(); auto bb = cc->bounds();
                if (a != bb[0] || b != bb[1]) mc::fail("circle-bounds", "the closed edge covers %g..%g of %g..%g", a, b, bb[0], bb[1]);
                Edge<double, dim> o{std::array<double, dim>{}, cc->value(bb[0])};
                if (w.addEdge(o)) mc::fail("circle-add", "a closed wire accepts an edge");
                w.tessellate();
            }
        }
    }
    // trimming by vertices on the curve
    for (int shape = 0; shape < 4; shape++) for (int i = 0; i <= 12; i++) for (int end = 0; end < 2; end++) for (int off = 0; off < 3; off++)
    {
        using P = std::array<double, dim>;
        std::vector<P> poles; int np = shape + 2;
        for (int q = 0; q < np; q++) { P p{}; p[0] = q; p[1] = shape ? 0.4 * ((q * 7) % 3) : 0.; poles.push_back(p); }
        std::vector<double> fk(np, 0.); fk.insert(fk.end(), np, 2.);
        std::shared_ptr<Curve<double, dim>> c = std::make_shared<BSCurve<double, dim>>(poles, fk, np - 1);
        double u = (end == 0 ? 1.9 : 2.) * i / 12.; if (end == 1) u = 0.1 + 1.9 * i / 12.;
        auto p = c->value(u); auto t = c->value(u, 1); // offset normal to the curve
        double l = std::hypot(t[0], t[1]); double h = off == 0 ? 0 : off == 1 ? 0.5 * TOL : 0.3;
        p[0] -= h * t[1] / l; p[1] += h * t[0] / l;
        Edge<double, dim> e{c}; auto v1 = e.vertex1(), v2 = e.vertex2();
        auto v = std::make_shared<Vertex<double, dim>>(p);
        mc::at("dim %zu shape %d: setVertex%d at parameter %g, %g off the curve", dim, shape, end + 1, u, h); mc::state(); mc::step();
        bool ok = end == 0 ? e.setVertex1(v) : e.setVertex2(v);
        auto [a, b] = e.bounds();
        if (off == 2)
        {
            if (ok || a != 0 || b != 2 || e.vertex1() != v1 || e.vertex2() != v2) mc::fail("setVertex-far", "a vertex %g away is accepted (%d)", h, (int)ok);
            continue;
        }
        if (!ok) { mc::fail("setVertex-near", "a vertex on the curve is refused"); continue; }
        if ((end == 0 ? e.vertex1() : e.vertex2()) != v || (end == 0 ? e.vertex2() : e.vertex1()) != (end == 0 ? v2 : v1)) mc::fail("setVertex-vertex", "wrong vertices");
        if (std::abs((end == 0 ? a : b) - u) > 1e-4 || (end == 0 ? b : a) != (end == 0 ? 2 : 0)) mc::fail("setVertex-bounds", "bounds %g..%g", a, b);
    }
    mc::sample();
}
// the tolerance of the edge is tighter than the one of the wire: an accepted edge must be really connected
template <size_t dim> static void tight_edges()
{
    for (double etol : {1e-5, 1e-6}) for (int side = 0; side < 3; side++) for (double g : {0., 1e-7, 1e-4, 6e-3, 2e-2})
    {
        Driver<dim> d(3); d.wtol = 1e-2; d.etol = etol;
        d.start(d.make(0, 1, EXACT, EXACT, false), true);
        if (side == 2) { auto m = d.make(1, 2, EXACT, EXACT, false); d.w->addEdge(m); }
        auto p = d.corners[side == 0 ? 1 : 2], q = d.corners[side == 0 ? 2 : 0];
        (side == 1 ? q : p)[0] += g;
        auto e = std::make_shared<Edge<double, dim>>(p, q); e->setApproximationTolerance(etol);
        size_t n0 = std::distance(d.w->begin(), d.w->end());
        mc::at("dim %zu edge of tolerance %g with a gap of %g at side %d of a wire of tolerance 1e-2", dim, etol, g, side); mc::state(); mc::step();
        bool ok = d.w->addEdge(e); size_t n1 = std::distance(d.w->begin(), d.w->end());
        if (g <= 1e-7 && !ok) mc::fail("tight-refused", "refused");
        if (g >= 2e-2 && side != 2 && ok) mc::fail("tight-accepted", "accepted");
        if (n1 != n0 + ok) mc::fail("tight-count", "%zu edges after %zu, accepted %d", n1, n0, (int)ok);
        const Edge<double, dim> *prev = nullptr;
        for (auto it = d.w->begin(); it != d.w->end(); ++it) { if (prev && prev->vertex2() != (*it)->vertex1()) mc::fail("tight-connected", "accepted edge is not connected"); prev = it->get(); }
        if (ok && side == 2 && g <= 1e-7 && !d.w->isClosed()) mc::fail("tight-closed", "not closed");
    }
    mc::sample();
}
static std::vector<mc::Unit> units()
{
    std::vector<mc::Unit> u;
    auto S = [&](const std::string &n, auto f) { u.push_back({n, f}); };
    for (int f = 0; f < 3; f++)
    {
        S("seq2-all-ends-2d-" + std::to_string(f), [=] { sequences<2>(4, 2, {POOL, EXACT, NEAR, FAR}, false, f, TOL, TOL); });
        S("seq3-2d-" + std::to_string(f), [=] { sequences<2>(3, 3, {POOL, EXACT, NEAR}, false, f, TOL, TOL); });
        S("seq4-2d-" + std::to_string(f), [=] { sequences<2>(3, mc::thorough() ? 5 : 4, {EXACT}, false, f, TOL, TOL); });
        S("seq3-4c-2d-" + std::to_string(f), [=] { sequences<2>(4, mc::thorough() ? 4 : 3, {EXACT}, false, f, TOL, TOL); });
        S("seq4-pool-" + std::to_string(f), [=] { sequences<3>(3, mc::thorough() ? 5 : 4, {POOL}, false, f, TOL, TOL); });
        S("seq2-3d-" + std::to_string(f), [=] { sequences<3>(3, 2, {POOL, EXACT, NEAR, FAR}, false, f, TOL, TOL); });
        if (f) S("bowed-" + std::to_string(f), [=] { sequences<2>(3, mc::thorough() ? 3 : 2, {EXACT, NEAR, FAR}, true, f, TOL, TOL); });
        S("loose-" + std::to_string(f), [=] { sequences<2>(3, 2, {POOL, EXACT, NEAR, FAR}, false, f, 1e-2, 1e-2); });
        S("loose-edge-" + std::to_string(f), [=] { sequences<2>(3, 2, {POOL, EXACT, NEAR, FAR}, false, f, 1e-4, 1e-2); });
    }
    for (int n = 3; n <= 6; n++) for (int cl = 0; cl < 2; cl++) for (int bw = 0; bw < 2; bw++)
        S("polygon-" + std::to_string(n) + (cl ? "-closed" : "-open") + (bw ? "-bowed" : ""), [=] { if (n == 6 && !mc::thorough()) { if (bw) return; } polygon_orders<2>(n, cl, bw, EXACT); if (n < 6) { polygon_orders<2>(n, cl, bw, NEAR); polygon_orders<3>(n, cl, bw, EXACT); } });
    S("edges-2d", [] { edges<2>(); });
    S("edges-3d", [] { edges<3>(); });
    S("tight-edges", [] { tight_edges<2>(); tight_edges<3>(); });
    return u;
}
MC_MAIN(units)
