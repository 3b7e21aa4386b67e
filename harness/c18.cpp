// C18: geometric predicates give the exact answer.
#include "mc.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <topology/baseGeom.h>
#include <topology/baseIntersection.h>
#include <topology/robustPredicates.h>
#include <topology/halfEdgeMeshData.h>
#include <topology/halfEdgeMeshGetters.h>
#include <topology/halfEdgeMeshEditors.h>
#include <topology/halfEdgeMeshGeomTests.h>
#include <boost/multiprecision/cpp_int.hpp>
using namespace gbs;
using big = boost::multiprecision::cpp_int;
using P = std::array<double, 2>;
using I2 = std::array<long, 2>;
static std::string str(const P &p) { char b[80]; snprintf(b, 80, "(%.17g,%.17g)", p[0], p[1]); return b; }

// exact value of a double as an integer multiple of 2^-K
template <typename T> static big exact(T x, int K)
{
    int e; T m = std::frexp(x, &e); // x = m 2^e
    constexpr int D = std::numeric_limits<T>::digits;
    long long n = (long long)std::ldexp(m, D);
    big r = n; int s = e - D + K;
    if (n == 0) return 0;
    if (s < 0) { fprintf(stderr, "exact: range\n"); abort(); }
    return r << s;
}
template <typename T> static int exact_orient(const std::array<T, 2> &a, const std::array<T, 2> &b, const std::array<T, 2> &c, int K)
{
    big ax = exact(a[0], K), ay = exact(a[1], K), bx = exact(b[0], K), by = exact(b[1], K), cx = exact(c[0], K), cy = exact(c[1], K);
    big d = (ax - cx) * (by - cy) - (ay - cy) * (bx - cx);
    return d > 0 ? 1 : d < 0 ? -1 : 0;
}
template <typename T> static int sg(T x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
template <typename T> static void check_orient(const std::array<T, 2> &a, const std::array<T, 2> &b, const std::array<T, 2> &c, int K, bool perms = true)
{
    int ex = exact_orient(a, b, c, K);
    mc::state(); mc::step();
    auto rep = [&](int got, const char *what) {
        mc::at("orient2d (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g)", (double)a[0], (double)a[1], (double)b[0], (double)b[1], (double)c[0], (double)c[1]);
        mc::fail(std::string("orient2d-") + what, "%s: sign %d, exact sign %d", what, got, ex); };
    int g = sg(orient2d<T>(a, b, c));
    if (g != ex) rep(g, "sign");
    if (perms)
    {
        mc::step(5);
        if ((g = sg(orient2d<T>(b, c, a))) != ex) rep(g, "rotated");
        if ((g = sg(orient2d<T>(c, a, b))) != ex) rep(g, "rotated-twice");
        if ((g = -sg(orient2d<T>(b, a, c))) != ex) rep(g, "swapped-ab");
        if ((g = -sg(orient2d<T>(a, c, b))) != ex) rep(g, "swapped-bc");
        if ((g = -sg(orient2d<T>(c, b, a))) != ex) rep(g, "swapped-ca");
    }
    mc::outcome(mc::mix(ex + 5, perms));
}
// ulp neighbourhoods of nearly collinear triples
template <typename T> static void orient_ulps(int which, int n)
{
    using A = std::array<T, 2>;
    struct B { A a, b, c; };
    std::vector<B> base{
        {{T(.5), T(.5)}, {12, 12}, {24, 24}}, {{T(.5), T(.5)}, {T(.1), T(.1)}, {T(.3), T(.3)}}, {{T(0.1), T(0.2)}, {T(0.2), T(0.4)}, {T(0.3), T(0.6)}},
        {{1, 1}, {3, 5}, {T(-1), T(-3)}}, {{T(1e5), T(1e-3)}, {T(2e5), T(2e-3)}, {T(3e5), T(3e-3)}}, {{T(7.3), T(7.3)}, {T(7.3), T(9.1)}, {T(7.3), T(-2)}},
        {{T(1) / 3, T(2) / 3}, {T(2) / 3, T(4) / 3}, {T(5) / 3, T(10) / 3}}, {{T(-17.1), T(-17.1)}, {T(24.5), T(24.5)}, {T(1e-7), T(1e-7)}}};
    auto &b = base[which];
    auto up = [](T x, int k) { for (; k > 0; k--) x = std::nextafter(x, std::numeric_limits<T>::infinity()); return x; };
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
        check_orient<T>({up(b.a[0], i), up(b.a[1], j)}, b.b, b.c, 400);
    int m = n >= 40 ? 5 : 3;
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) for (int k = 0; k < m; k++) for (int l = 0; l < m; l++) for (int o = 0; o < m; o++) for (int q = 0; q < m; q++)
        check_orient<T>({up(b.a[0], i), up(b.a[1], j)}, {up(b.b[0], k), up(b.b[1], l)}, {up(b.c[0], o), up(b.c[1], q)}, 400, false);
    mc::trace(); mc::sample();
}
// every 6-tuple of a set of awkward values
template <typename T> static void orient_values(int first, bool T_)
{
    const T eps = std::numeric_limits<T>::epsilon();
    std::vector<T> S{0, 1, -1, 1 + eps, 1 - eps / 2, T(0.1), T(1) / 3, T(1e8), T(1e8) + T(1) / 8, T(-1e-9)};
    if (T_) for (T x : {T(3), T(-0.1), T(1e-9) * (1 + eps), T(2) / 3}) S.push_back(x);
    std::vector<big> X; int K = 400; for (T s : S) X.push_back(exact(s, K));
    // exact differences
    size_t n = S.size();
    using i512 = boost::multiprecision::number<boost::multiprecision::cpp_int_backend<512, 512, boost::multiprecision::signed_magnitude, boost::multiprecision::unchecked, void>>;
    // scale back: all values are multiples of 2^-90 and below 2^30
    std::vector<i512> Z; for (auto &x : X) Z.push_back(i512(x >> (K - 90)));
    auto i0 = (size_t)first;
    for (size_t i1 = 0; i1 < n; i1++) for (size_t i2 = 0; i2 < n; i2++) for (size_t i3 = 0; i3 < n; i3++) for (size_t i4 = 0; i4 < n; i4++)
    {
        i512 u = Z[i0] - Z[i4], v = Z[i2] - Z[i4];
        for (size_t i5 = 0; i5 < n; i5++)
        {
            i512 d = u * (Z[i3] - Z[i5]) - (Z[i1] - Z[i5]) * v;
            int ex = d > 0 ? 1 : d < 0 ? -1 : 0;
            mc::state(); mc::step();
            int g = sg(orient2d<T>({S[i0], S[i1]}, {S[i2], S[i3]}, {S[i4], S[i5]}));
            if (g != ex)
            {
                mc::at("orient2d (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g)", (double)S[i0], (double)S[i1], (double)S[i2], (double)S[i3], (double)S[i4], (double)S[i5]);
                mc::fail("orient2d-values", "sign %d, exact sign %d", g, ex);
            }
        }
        mc::trace();
    }
    mc::at("every point triple over %zu values, first coordinate %.17g", n, (double)S[first]); mc::sample();
}

// ---- integer configurations: all exact in long arithmetic
static long orient(I2 a, I2 b, I2 c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
static bool on_seg(I2 a, I2 b, I2 p)
{
    return orient(a, b, p) == 0 && std::min(a[0], b[0]) <= p[0] && p[0] <= std::max(a[0], b[0]) && std::min(a[1], b[1]) <= p[1] && p[1] <= std::max(a[1], b[1]);
}
static bool in_tri(I2 a, I2 b, I2 c, I2 p)
{
    long o = orient(a, b, c);
    if (o == 0) return on_seg(a, b, p) || on_seg(b, c, p) || on_seg(c, a, p);
    long s = o > 0 ? 1 : -1;
    return s * orient(a, b, p) >= 0 && s * orient(b, c, p) >= 0 && s * orient(c, a, p) >= 0;
}
static bool crosses(I2 a, I2 b, I2 c, I2 d)
{
    long o1 = orient(a, b, c), o2 = orient(a, b, d), o3 = orient(c, d, a), o4 = orient(c, d, b);
    return ((o1 > 0 && o2 < 0) || (o1 < 0 && o2 > 0)) && ((o3 > 0 && o4 < 0) || (o3 < 0 && o4 > 0));
}
static long incirc(I2 a, I2 b, I2 c, I2 d)
{
    long A = a[0] - d[0], B = a[1] - d[1], C = A * A + B * B, D = b[0] - d[0], E = b[1] - d[1], F = D * D + E * E, G = c[0] - d[0], H = c[1] - d[1], I = G * G + H * H;
    return A * (E * I - F * H) - B * (D * I - F * G) + C * (D * H - E * G);
}
// dyadic affine placements of the integer grid: exactly representable and exactly computable
struct Place { double s, ox, oy; };
static std::vector<Place> places(bool T_)
{
    std::vector<Place> r{{1, 0, 0}, {.25, 100, -3}, {1024, 7, 1 << 20}};
    if (T_) { r.push_back({1. / 128, .5, 2}); r.push_back({-3, 1, 1}); }
    return r;
}
static P at(const Place &w, I2 p) { return {w.ox + w.s * p[0], w.oy + w.s * p[1]}; }
static std::vector<I2> grid(int n, int m) { std::vector<I2> r; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r.push_back({i, j}); return r; }

static void triangles(const Place w, int n, int first)
{
    auto G = grid(n, n); I2 a = G[first]; P A = at(w, a);
    for (auto b : G) for (auto c : G)
    {
        P B = at(w, b), C = at(w, c);
        long o = orient(a, b, c);
        mc::at("triangle %s %s %s", str(A).c_str(), str(B).c_str(), str(C).c_str());
        mc::step(4);
        if (sg(orient2d(A, B, C)) != sg(o)) mc::fail("orient2d-grid", "sign %d instead of %d", sg(orient2d(A, B, C)), sg(o));
        if (sg(orient_2d(A, B, C)) != sg(o)) mc::fail("orient_2d", "sign %d instead of %d", sg(orient_2d(A, B, C)), sg(o));
        if (sg(orient_2d(A[0], A[1], B[0], B[1], C[0], C[1])) != sg(o)) mc::fail("orient_2d", "scalar form: sign %d", sg(orient_2d(A[0], A[1], B[0], B[1], C[0], C[1])));
        if (o != 0 && (are_ccw(A, B, C) != 0) != (o > 0)) mc::fail("are_ccw", "%d for orientation %ld", (int)are_ccw(A, B, C), o);
        double area = tri_area(A, B, C), ar3 = tri_area<double>({A[0], A[1], 5}, {B[0], B[1], 5}, {C[0], C[1], 5});
        double ex = .5 * std::abs(o) * w.s * w.s;
        if (std::abs(area - ex) > 1e-12 * ex || std::abs(ar3 - ex) > 1e-9 * w.s * w.s) mc::fail("tri_area", "%.17g / %.17g instead of %.17g", area, ar3, ex);
        if (o != 0)
        {
            auto cc = circle_center(A, B, C);
            double r0 = std::hypot(cc[0] - A[0], cc[1] - A[1]), r1 = std::hypot(cc[0] - B[0], cc[1] - B[1]), r2 = std::hypot(cc[0] - C[0], cc[1] - C[1]);
            double tol = 1e-9 * (std::abs(w.ox) + std::abs(w.oy) + w.s * w.s * 16);
            if (!(std::abs(r0 - r1) <= tol && std::abs(r0 - r2) <= tol)) mc::fail("circle_center", "center %s at distances %.17g %.17g %.17g", str(cc).c_str(), r0, r1, r2);
            auto ic = incenter(A, B, C);
            auto dist = [&](const P &p, const P &q) { return std::abs((q[0] - p[0]) * (ic[1] - p[1]) - (q[1] - p[1]) * (ic[0] - p[0])) / std::hypot(q[0] - p[0], q[1] - p[1]); };
            double d0 = dist(A, B), d1 = dist(B, C), d2 = dist(C, A);
            if (!(std::abs(d0 - d1) <= tol && std::abs(d0 - d2) <= tol)) mc::fail("incenter", "%s at distances %.17g %.17g %.17g of the sides", str(ic).c_str(), d0, d1, d2);
            double pe = std::hypot(A[0] - B[0], A[1] - B[1]) + std::hypot(C[0] - B[0], C[1] - B[1]) + std::hypot(A[0] - C[0], A[1] - C[1]);
            if (std::abs(perimeter(A, B, C) - pe) > 1e-9 * pe) mc::fail("perimeter", "%.17g instead of %.17g", perimeter(A, B, C), pe);
        }
        else
        {
            auto cc = circle_center(A, B, C);
            if (!std::isnan(cc[0]) || !std::isnan(cc[1])) mc::fail("circle_center-collinear", "center %s for collinear points", str(cc).c_str());
        }
        for (auto d : G)
        {
            P D = at(w, d); mc::state(); mc::step(4);
            auto rep = [&](const char *k, double got, double want) { mc::at("%s %s %s and %s", str(A).c_str(), str(B).c_str(), str(C).c_str(), str(D).c_str()); mc::fail(k, "%s: %g instead of %g", k, got, want); };
            bool in = in_tri(a, b, c, d);
            if (in_triangle(A, B, C, D) != in) rep("in_triangle", in_triangle(A, B, C, D), in);
            if (o != 0)
            {
                if (in_triangle_barycentric(A, B, C, D) != in) rep("in_triangle_barycentric", in_triangle_barycentric(A, B, C, D), in);
                auto [u, v] = triangle_barycentric_coordinates(A, B, C, D); // weights of c and b
                for (int k = 0; k < 2; k++) { double x = A[k] + u * (C[k] - A[k]) + v * (B[k] - A[k]); if (std::abs(x - D[k]) > 1e-8 * (std::abs(D[k]) + std::abs(w.s) * 20)) rep("barycentric", x, D[k]); }
                if (std::abs(w.s) > 1e-2 || std::abs(o) > 3)
                {
                    auto uv = computeUV(A, B, C, D);
                    for (int k = 0; k < 2; k++) { double x = A[k] + uv[0] * (B[k] - A[k]) + uv[1] * (C[k] - A[k]); if (std::abs(x - D[k]) > 1e-8 * (std::abs(D[k]) + std::abs(w.s) * 20)) rep("computeUV", x, D[k]); }
                }
            }
            long ic = incirc(a, b, c, d);
            if (sg(in_circle(A, B, C, D)) != sg(ic)) rep("in_circle", in_circle(A, B, C, D), ic);
            if (sg(in_circle(A[0], A[1], B[0], B[1], C[0], C[1], D[0], D[1])) != sg(ic)) rep("in_circle", in_circle(A[0], A[1], B[0], B[1], C[0], C[1], D[0], D[1]), ic);
            bool x = crosses(a, b, c, d);
            if (seg_seg_strict_intersection(A, B, C, D) != x) rep("seg_seg", !x, x);
            mc::outcome(mc::mix(mc::mix(in, sg(ic) + 3), x + 2 * (sg(o) + 3)));
        }
        bool os = on_seg(a, b, c);
        if (on_segment(A, B, C) != os) mc::fail("on_segment", "%d instead of %d", !os, os);
        // ray towards +x from c strictly beyond c, half-open at the upper vertex b
        if (o != 0 && a[1] != b[1])
        {
            bool hit = (a[1] <= c[1] && c[1] < b[1]) || (b[1] < c[1] && c[1] <= a[1]); // parameter from a: t in [0,1)
            if (hit) hit = (orient(a, b, c) > 0) == (b[1] > a[1]); // edge lies to the right
            if (seg_H_strict_end_intersection(A, B, C) != hit && w.s > 0) mc::fail("seg_H", "%d instead of %d", !hit, hit);
        }
        mc::trace();
    }
    mc::sample();
}
// ---- polygons: every simple polygon with k vertices on a grid
static bool simple(const std::vector<I2> &v)
{
    size_t n = v.size();
    for (size_t i = 0; i < n; i++)
    {
        I2 a = v[i], b = v[(i + 1) % n], c = v[(i + 2) % n];
        if (orient(a, b, c) == 0 && ((b[0] - a[0]) * (c[0] - b[0]) + (b[1] - a[1]) * (c[1] - b[1]) < 0)) return false; // spike
        for (size_t j = 0; j < n; j++)
        {
            if (j == i || j == (i + 1) % n) continue;
            if (on_seg(a, b, v[j])) return false; // vertex on another side
            size_t k = (j + 1) % n; if (k == i || k == (i + 1) % n) continue;
            if (crosses(a, b, v[j], v[k])) return false;
        }
    }
    return true;
}
// closed membership, in doubled coordinates
static bool in_poly(const std::vector<I2> &v, I2 p)
{
    size_t n = v.size(); int wn = 0;
    for (size_t i = 0; i < n; i++)
    {
        I2 a = v[i], b = v[(i + 1) % n];
        if (on_seg(a, b, p)) return true;
        if (a[1] <= p[1]) { if (b[1] > p[1] && orient(a, b, p) > 0) wn++; }
        else if (b[1] <= p[1] && orient(a, b, p) < 0) wn--;
    }
    return wn != 0;
}
static void polygon(const std::vector<I2> &v, int n, int m, const std::vector<Place> &W)
{
    size_t k = v.size(); long ar = 0;
    for (size_t i = 0; i < k; i++) ar += v[i][0] * v[(i + 1) % k][1] - v[i][1] * v[(i + 1) % k][0];
    std::vector<I2> v2; for (auto p : v) v2.push_back({2 * p[0], 2 * p[1]});
    for (auto &w0 : W)
    {
        Place w = w0; w.s /= 2;
        std::string txt; std::vector<P> X; for (auto p : v2) { X.push_back(at(w, p)); txt += str(X.back()); }
        mc::at("polygon %s", txt.c_str());
        auto he = make_HalfEdges<double, 2>(X); mc::step(2);
        bool flipped = w.s < 0 ? false : false; // point reflection keeps the orientation
        if (are_edges_2d_ccw<double>(he) != ((ar > 0) != flipped)) mc::fail("are_edges_2d_ccw", "%d for signed area %ld", are_edges_2d_ccw<double>(he), ar);
        for (long i = -1; i <= 2 * n; i++) for (long j = -1; j <= 2 * m; j++)
        {
            P q = at(w, {i, j}); bool ex = in_poly(v2, {i, j}); mc::state(); mc::step();
            if (is_inside(q, he) != ex) { mc::at("polygon %s", txt.c_str()); mc::fail(ex ? "is_inside-missed" : "is_inside-wrong", "point %s reported %s", str(q).c_str(), ex ? "outside" : "inside"); }
            mc::outcome(mc::mix(ex, k));
        }
        for (auto &e : he) { e->previous = nullptr; e->next = nullptr; }
    }
    mc::trace();
}
static void polygons(int n, int m, int k, int first, const std::vector<Place> W)
{
    auto G = grid(n, m);
    std::vector<I2> v{G[first]};
    std::function<void()> rec = [&] {
        if ((int)v.size() == k) { if (simple(v)) polygon(v, n, m, W); return; }
        for (auto p : G) if (std::find(v.begin(), v.end(), p) == v.end())
        {
            // prune sides crossing earlier ones
            bool bad = false;
            for (size_t i = 0; i + 2 < v.size() && !bad; i++) bad = crosses(v[i], v[i + 1], v.back(), p) || on_seg(v.back(), p, v[i]);
            if (bad) continue;
            v.push_back(p); rec(); v.pop_back();
        }
    };
    rec();
    mc::sample();
}
// ---- two triangles sharing an edge: local Delaunay test, face orientation, edge/face crossing
static void two_triangles(int n, int first)
{
    auto G = grid(n, n); I2 a = G[first];
    for (auto b : G) for (auto c : G) if (orient(a, b, c) > 0) for (auto d : G) if (orient(b, a, d) > 0)
    {
        Place w{1, 0, 0};
        mc::at("triangles %s %s %s and %s", str(at(w, a)).c_str(), str(at(w, b)).c_str(), str(at(w, c)).c_str(), str(at(w, d)).c_str());
        auto h1 = make_shared_h_edge<double, 2>(at(w, b)), h2 = make_shared_h_edge<double, 2>(at(w, c)), h3 = make_shared_h_edge<double, 2>(at(w, a));
        std::list<std::shared_ptr<HalfEdge<double, 2>>> l{h1, h2, h3};
        auto f1 = make_shared_h_face<double, 2>(l); // h1: a->b
        auto f2 = add_face(f1, h1, at(w, d));
        mc::state(); mc::step(6);
        long ex = incirc(a, b, c, d);
        for (auto e : {h1, h1->opposite})
        {
            double v = is_locally_delaunay(e);
            // positive: d inside the circle of (a,b,c) (equivalently c inside the circle of (b,a,d))
            if (sg(v) != sg(ex)) mc::fail("is_locally_delaunay", "%g for exact in-circle value %ld", v, ex);
        }
        if (is_locally_delaunay(h2) != 0) mc::fail("is_locally_delaunay-boundary", "%g on a boundary edge", is_locally_delaunay(h2));
        if (sg(in_circle(at(w, d), f1)) != sg(ex) || sg(in_circle(at(w, c), f2)) != sg(ex)) mc::fail("in_circle-face", "faces: %g and %g instead of sign %d", in_circle(at(w, d), f1), in_circle(at(w, c), f2), sg(ex));
        std::list<std::shared_ptr<HalfEdgeFace<double, 2>>> fl{f1, f2};
        if (!are_face_ccw(fl)) mc::fail("are_face_ccw", "counter clockwise faces reported clockwise");
        // diagonal c-d against the faces: crosses the shared side or no side strictly
        auto probe = make_shared_h_edge<double, 2>(at(w, d)), from = make_shared_h_edge<double, 2>(at(w, c));
        probe->previous = from;
        bool x = crosses(a, b, c, d);
        if (areFacesEdgesIntersect(*probe, *f1) != x) mc::fail("areFacesEdgesIntersect", "%d instead of %d", !x, x);
        mc::outcome(mc::mix(sg(ex) + 2, x));
        for (auto f : {f1, f2}) { auto E = getFaceEdges(f); for (auto &e : E) { e->vertex->edge = nullptr; e->opposite = nullptr; e->face = nullptr; e->previous = nullptr; e->next = nullptr; } f->edge = nullptr; }
        mc::trace();
    }
    // clockwise faces are reported
    for (auto b : G) for (auto c : G) if (orient(a, b, c) < 0)
    {
        Place w{1, 0, 0};
        mc::at("clockwise triangle %s %s %s", str(at(w, a)).c_str(), str(at(w, b)).c_str(), str(at(w, c)).c_str());
        auto h1 = make_shared_h_edge<double, 2>(at(w, b)), h2 = make_shared_h_edge<double, 2>(at(w, c)), h3 = make_shared_h_edge<double, 2>(at(w, a));
        std::list<std::shared_ptr<HalfEdge<double, 2>>> l{h1, h2, h3};
        auto f1 = make_shared_h_face<double, 2>(l); mc::state(); mc::step(2);
        std::list<std::shared_ptr<HalfEdgeFace<double, 2>>> fl{f1};
        if (is_ccw(f1) > 0 || are_face_ccw(fl)) mc::fail("is_ccw", "clockwise face reported counter clockwise");
        for (auto &e : l) { e->vertex->edge = nullptr; e->face = nullptr; e->previous = nullptr; e->next = nullptr; } f1->edge = nullptr;
    }
    mc::sample();
}
static void boxes()
{
    auto G = grid(3, 3);
    for (auto a : G) for (auto b : G) for (auto c : G) for (auto d : G)
    {
        std::vector<P> v{at({1, -1, -1}, a), at({1, -1, -1}, b), at({1, -1, -1}, c), at({1, -1, -1}, d)};
        auto [lo, hi] = getCoordsMinMax(v); mc::state(); mc::step();
        for (int k = 0; k < 2; k++) if (lo[k] != std::min({v[0][k], v[1][k], v[2][k], v[3][k]}) || hi[k] != std::max({v[0][k], v[1][k], v[2][k], v[3][k]})) { mc::at("box of 4 points"); mc::fail("getCoordsMinMax", "%g..%g", lo[k], hi[k]); }
    }
    mc::at("bounding boxes of every 4 points of a 3x3 grid"); mc::sample();
}
static std::vector<mc::Unit> units()
{
    bool T = mc::thorough(); std::vector<mc::Unit> U;
    for (int b = 0; b < 8; b++)
    {
        U.push_back({"ulp/double" + std::to_string(b), [=] { orient_ulps<double>(b, T ? 200 : 64); }});
        U.push_back({"ulp/float" + std::to_string(b), [=] { orient_ulps<float>(b, T ? 200 : 64); }});
    }
    for (int f = 0; f < (T ? 14 : 10); f++)
    {
        U.push_back({"values/double" + std::to_string(f), [=] { orient_values<double>(f, T); }});
        U.push_back({"values/float" + std::to_string(f), [=] { orient_values<float>(f, T); }});
    }
    auto W = places(T); int n = T ? 8 : 6;
    for (size_t w = 0; w < W.size(); w++) for (int f = 0; f < n * n; f++)
        U.push_back({"triangle/" + std::to_string(w) + "." + std::to_string(f), [=] { triangles(W[w], n, f); }});
    for (int f = 0; f < 9; f++) for (int k = 3; k <= (T ? 9 : 8); k++) U.push_back({"polygon3x3/" + std::to_string(k) + "." + std::to_string(f), [=] { polygons(3, 3, k, f, {{1, 0, 0}, {.25, 100, -3}}); }});
    for (int f = 0; f < 16; f++) for (int k = 3; k <= (T ? 7 : 6); k++) U.push_back({"polygon4x4/" + std::to_string(k) + "." + std::to_string(f), [=] { polygons(4, 4, k, f, {{1, 0, 0}}); }});
    for (int f = 0; f < (T ? 25 : 16); f++) U.push_back({"pair/" + std::to_string(f), [=] { two_triangles(T ? 5 : 4, f); }});
    U.push_back({"box", boxes});
    return U;
}
MC_MAIN(units)
