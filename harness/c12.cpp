// C12: closest-point and intersection searches return consistent, correct results.
#include "mc.h"
#include "ref.h"
#include <gbs/curves>
#include <gbs/extrema.h>
#include <gbs/bscanalysis.h>
#include <gbs/bssurf.h>
using namespace gbs;
using ref::real;
template <size_t dim> using P = std::array<double, dim>;
template <size_t dim> using CP = std::shared_ptr<Curve<double, dim>>;
template <size_t dim> struct Obj { CP<dim> c; std::vector<double> br; std::string name; };

template <size_t dim> static P<dim> shape(double t, int s)
{
    P<dim> x{};
    switch (s)
    {
    case 0: x[0] = 3 * t; x[1] = 1.2 * std::sin(3 * t + .3); if (dim > 2) x[2] = t * t - t; break;      // wave
    case 1: x[0] = 2 * std::cos(2.6 * t); x[1] = 2 * std::sin(2.6 * t); if (dim > 2) x[2] = .8 * t; break; // arc
    default: x[0] = .3 * t + .1; x[1] = 3 * t - 1.2; if (dim > 2) x[2] = .5 - t; break;                  // straight
    }
    return x;
}
template <size_t dim, bool rational>
static Obj<dim> spline(size_t p, const std::vector<double> &br, const std::vector<size_t> &m, int sh, P<dim> shift = {})
{
    auto k = ref::flat(br, m, p);
    size_t n = k.size() - p - 1;
    std::vector<P<dim + rational>> Q(n);
    for (size_t i = 0; i < n; i++)
    {
        real g = 0; for (size_t j = 1; j <= p; j++) g += k[i + j]; g /= p;
        auto x = shape<dim>((double)((g - br.front()) / (br.back() - br.front())), sh);
        double w = rational ? 1 + 0.25 * ((i * 3 + 1) % 3) : 1;
        for (size_t c = 0; c < dim; c++) Q[i][c] = (x[c] + shift[c]) * w;
        if (rational) Q[i][dim] = w;
    }
    Obj<dim> o;
    if constexpr (rational) o.c = std::make_shared<BSCurveRational<double, dim>>(Q, k, p); else o.c = std::make_shared<BSCurve<double, dim>>(Q, k, p);
    o.br = br;
    o.name = std::string(rational ? "R" : "B") + std::to_string(dim) + " p" + std::to_string(p) + " k" + ref::str(k) + " shape" + std::to_string(sh);
    return o;
}
template <size_t dim> static std::vector<Obj<dim>> family(size_t pmax, size_t imax, int nsp)
{
    std::vector<Obj<dim>> r;
    for (size_t p = 1; p <= pmax; p++) for (size_t i = 0; i <= imax; i++) for (auto &m : ref::mults(i, p)) for (int sp = 0; sp < nsp; sp++) for (int sh = 0; sh < 3; sh++)
    {
        r.push_back(spline<dim, false>(p, ref::breaks(i, sp), m, sh));
        r.push_back(spline<dim, true>(p, ref::breaks(i, sp), m, sh));
    }
    return r;
}
template <size_t dim> static double dist(const P<dim> &a, const P<dim> &b) { real s = 0; for (size_t c = 0; c < dim; c++) s += (real)(a[c] - b[c]) * (a[c] - b[c]); return (double)std::sqrt(s); }
static bool in(double u, double a, double b) { return u >= a - 1e-12 && u <= b + 1e-12; }
// The distance reported must be the one between the designated points. The code base reports its
// square instead (recorded finding, judged by the reported-distance units): anything else is an error here.
static bool near_(double x, double y) { return std::fabs(x - y) <= 1e-9 + 1e-9 * std::fabs(y); }
static void consistent(double d, double real_d, const char *what)
{
    if (!near_(d, real_d) && !near_(d, real_d * real_d)) mc::fail(std::string(what) + "-distance", "reports %.12g, the designated points are %.12g apart", d, real_d);
}
static void exact(double d, double real_d)
{
    mc::state(); mc::step(); mc::trace();
    if (near_(d, real_d)) return;
    mc::fail(near_(d, real_d * real_d) ? "squared" : "distance", "reports %.12g, the designated points are %.12g apart", d, real_d);
}
static std::vector<double> params(const std::vector<double> &br, bool few = false)
{
    double a = br.front(), b = br.back();
    std::vector<double> r;
    for (double t : few ? std::vector<double>{0, .37, 1} : std::vector<double>{0, .01, .13, .25, .5, .613, .8, .99, 1}) r.push_back(t == 1 ? b : a + t * (b - a));
    for (size_t i = 1; i + 1 < br.size(); i++) r.push_back(br[i]);
    return r;
}
static const double SZ = 3;        // size of the objects
static const double HIT = 2e-4;    // a hit is designated within this distance
static const std::vector<std::pair<nlopt::algorithm, const char *>> solvers{{nlopt::LN_COBYLA, "cobyla"}};

// the gradient based solver may announce that it is limited by rounding, the default one may not
template <typename F> static void attempt(nlopt::algorithm sv, F f)
{
    if (sv == nlopt::LN_COBYLA) { f(); return; }
    try { f(); } catch (const nlopt::roundoff_limited &) {}
}
template <size_t dim> static void curve_point(const Obj<dim> &o)
{
    double a = o.br.front(), b = o.br.back();
    // displacement directions
    std::vector<P<dim>> dirs; for (size_t c = 0; c < dim; c++) for (int s = -1; s <= 1; s += 2) { P<dim> d{}; d[c] = s; dirs.push_back(d); }
    for (double t : params(o.br))
    {
        auto q = (*o.c)(t);
        mc::at("%s point at %.17g", o.name.c_str(), t); mc::state();
        for (auto &[sv, sn] : solvers) attempt(sv, [&, sv = sv, sn = sn] {
            mc::step();
            auto [u, d] = extrema_curve_point(*o.c, q, 1e-6, sv);
            if (!in(u, a, b)) { mc::fail(std::string("curve-point-bounds-") + sn, "parameter %.17g", u); return; }
            double rd = dist((*o.c)(u), q);
            consistent(d, rd, "curve-point");
            if (!(rd <= HIT)) mc::fail(std::string("curve-point-miss-") + sn, "parameter %.12g designates a point at %.6g from the curve point queried", u, rd);
            mc::outcome(mc::mixd(1, u));
        });
        for (auto &dr : dirs) for (double e : {1e-3, .05, .3})
        {
            auto x = q; for (size_t c = 0; c < dim; c++) x[c] += e * dr[c];
            mc::at("%s point at %.17g displaced by %g along %s", o.name.c_str(), t, e, ref::str(dr).c_str()); mc::state(); mc::step();
            auto [u, d] = extrema_curve_point(*o.c, x, 1e-6);
            if (!in(u, a, b)) { mc::fail("curve-point-bounds", "parameter %.17g", u); continue; }
            double rd = dist((*o.c)(u), x);
            consistent(d, rd, "curve-point");
            if (!(rd <= e + HIT)) mc::fail("curve-point-far", "distance %.9g although a point at %.9g exists", rd, e);
            // not worse than a fine sampling of the curve (the objects are simple enough to have no spurious minimum within reach)
            double best = 1e300; for (int i = 0; i <= 200; i++) best = std::min(best, dist((*o.c)(a + (b - a) * i / 200 > b ? b : a + (b - a) * i / 200.), x));
            if (!(rd <= best + .01)) mc::fail("curve-point-not-closest", "distance %.9g, sampling finds %.9g", rd, best);
            for (double g : {0., .5, 1.}) for (auto &[sv, sn] : solvers) attempt(sv, [&, sv = sv, sn = sn] {
                double u0 = g == 1 ? b : a + g * (b - a); mc::step();
                auto [u, d] = extrema_curve_point(*o.c, x, u0, 1e-6, sv);
                if (!in(u, a, b)) { mc::fail(std::string("curve-point-guess-bounds-") + sn, "parameter %.17g", u); return; }
                consistent(d, dist((*o.c)(u), x), "curve-point-guess");
                d = dist((*o.c)(u), x);
                    if (!(d <= dist((*o.c)(u0), x) + 1e-9)) mc::fail(std::string("curve-point-guess-worse-") + sn, "guess %.12g: %.9g, result %.9g", u0, dist((*o.c)(u0), x), d);
            });
        }
        mc::trace();
    }
    // deviation statistics from points displaced by a known amount on a smooth curve
    mc::sample();
}
// the descent may stall when the contact is at a kink
template <size_t dim> static bool kink(const Obj<dim> &o, double t)
{
    if (t <= o.br.front() || t >= o.br.back()) return false;
    auto x = (*o.c)(std::nextafter(t, -1e9), 1), y = (*o.c)(std::nextafter(t, 1e9), 1);
    return dist(x, y) > 1e-6 * norm(x);
}
template <size_t dim> static void curve_curve(const Obj<dim> &o, const std::vector<Obj<dim>> &F, size_t seed)
{
    double a = o.br.front(), b = o.br.back();
    for (size_t k = 0; k < F.size(); k++)
    {
        auto &f = F[k];
        for (double s : params(f.br, true)) for (double t : params(o.br, true))
        {
            // translate f so that f(s) == o(t)
            auto x = (*o.c)(t), y = (*f.c)(s);
            P<dim> sh; for (size_t c = 0; c < dim; c++) sh[c] = x[c] - y[c];
            auto mk = [&]() -> CP<dim>
            {
                if (auto *q = dynamic_cast<const BSCurve<double, dim> *>(f.c.get())) { auto p = q->poles(); for (auto &v : p) for (size_t c = 0; c < dim; c++) v[c] += sh[c]; return std::make_shared<BSCurve<double, dim>>(p, q->knotsFlats(), q->degree()); }
                auto *q = dynamic_cast<const BSCurveRational<double, dim> *>(f.c.get());
                auto p = q->poles(); for (auto &v : p) for (size_t c = 0; c < dim; c++) v[c] += sh[c] * v[dim];
                return std::make_shared<BSCurveRational<double, dim>>(p, q->knotsFlats(), q->degree());
            };
            auto g = mk();
            // nearly tangent contacts are outside the claim: the default local solver crawls along their valley
            auto to = (*o.c)(t, 1), tg = (*g)(s, 1);
            if (!(std::fabs(to * tg) < .9 * std::sqrt(sq_norm(to) * sq_norm(tg)))) continue;
            double fa = f.br.front(), fb = f.br.back();
            mc::at("%s at %.12g crosses %s at %.12g", o.name.c_str(), t, f.name.c_str(), s); mc::state();
            auto sampled = [&] { double m = 1e300; for (int i = 0; i < 30; i++) for (int j = 0; j < 30; j++) m = std::min(m, dist((*o.c)(i == 29 ? b : a + (b - a) * i / 29), (*g)(j == 29 ? fb : fa + (fb - fa) * j / 29))); return m; };
            for (auto &[sv, sn] : solvers) attempt(sv, [&, sv = sv, sn = sn] {
                mc::step();
                auto [u, v, d] = extrema_curve_curve<double, dim>(*o.c, *g, 1e-6, sv);
                if (!in(u, a, b) || !in(v, fa, fb)) { mc::fail(std::string("curve-curve-bounds-") + sn, "parameters %.17g %.17g", u, v); return; }
                double rd = dist((*o.c)(u), (*g)(v));
                consistent(d, rd, "curve-curve");
                // the place where the sampling that starts the search finds the curves closest is a legitimate local answer
                bool other = std::fabs(u - t) > .05 * (b - a) && rd <= sampled() + 1e-9;
                if (!(rd <= (kink(o, t) || kink(f, s) ? .03 : 5 * HIT)) && !other) mc::fail(std::string("curve-curve-miss-") + sn, "parameters %.9g %.9g designate points %.6g apart, the curves cross at %.9g %.9g", u, v, rd, t, s);
                mc::outcome(mc::mixd(mc::mixd(2, u), v));
            });
            for (double gu : {-.1, .08}) for (double gv : {-.07, .1}) for (auto &[sv, sn] : solvers) attempt(sv, [&, sv = sv, sn = sn] {
                mc::step();
                double u0 = std::clamp(t + gu * (b - a), a, b), v0 = std::clamp(s + gv * (fb - fa), fa, fb);
                auto [u, v, d] = extrema_curve_curve<double, dim>(*o.c, *g, u0, v0, 1e-6, sv);
                if (!in(u, a, b) || !in(v, fa, fb)) { mc::fail(std::string("curve-curve-guess-bounds-") + sn, "parameters %.17g %.17g", u, v); return; }
                consistent(d, dist((*o.c)(u), (*g)(v)), "curve-curve-guess");
                d = dist((*o.c)(u), (*g)(v));
                    if (!(d <= dist((*o.c)(u0), (*g)(v0)) + 1e-9)) mc::fail(std::string("curve-curve-guess-worse-") + sn, "guess at %.9g, result %.9g", dist((*o.c)(u0), (*g)(v0)), d);
            });
            mc::trace();
        }
    }
    // list form equals the single form
    std::vector<CP<dim>> L; for (auto &f : F) L.push_back(f.c);
    mc::at("%s against a list", o.name.c_str()); mc::step();
    auto r = extrema_curve_curve_lst<double, dim>(*o.c, L.begin(), L.end(), 1e-6);
    if (r.size() != L.size()) mc::fail("lst-size", "%zu results", r.size());
    else for (size_t i = 0; i < L.size(); i++) if (r[i] != extrema_curve_curve<double, dim>(*o.c, *L[i], 1e-6)) mc::fail("lst", "item %zu", i);
    mc::sample();
}
// wavy curves: several valleys of the distance, only one of which reaches the target
static void valleys(size_t p, int pattern)
{
    static const double H[] = {1.5, 4, -4};
    points_vector<double, 2> Q;
    for (int i = 0, c = pattern; i < 6; i++, c /= 3) Q.push_back({2. * i, H[c % 3]});
    std::vector<size_t> m(5 - p, 1);
    std::vector<double> k;
    for (size_t i = 0; i <= p; i++) k.push_back(0);
    for (size_t i = 1; i <= 5 - p; i++) k.push_back(i);
    for (size_t i = 0; i <= p; i++) k.push_back(6 - p);
    double b = 6. - p;
    auto wave = std::make_shared<BSCurve<double, 2>>(Q, k, p);
    auto seg = std::make_shared<BSCurve<double, 2>>(points_vector<double, 2>{{-1, 0}, {11, 0}}, std::vector<double>{0, 0, 1, 1}, 1);
    // crossings and other minima of the distance to the axis
    int cross = 0; double t = 0, other = 1e300, y0 = 0, y1 = 0;
    for (int i = 0; i <= 600; i++)
    {
        double u = b * i / 600, y = (*wave)(u)[1];
        if (i && y * y1 <= 0) { cross++; t = u; }
        if (i >= 1 && std::fabs(y1) <= std::fabs(y) && (i == 1 || std::fabs(y1) <= std::fabs(y0)) && y1 * y > 0 && (i == 1 || y0 * y1 > 0)) other = std::min(other, std::fabs(y1));
        y0 = y1; y1 = y;
    }
    other = std::min({other, std::fabs((*wave)(0.)[1]), std::fabs((*wave)(b)[1])});
    auto name = "wave degree " + std::to_string(p) + " pattern " + std::to_string(pattern);
    if (cross == 1 && other > 1.2)
        for (bool swap : {false, true})
        {
            mc::at("%s crossing the axis once at %.4g%s", name.c_str(), t, swap ? ", axis second" : ""); mc::state(); mc::step();
            auto [u, v, d] = swap ? extrema_curve_curve<double, 2>(*wave, *seg, 1e-6) : extrema_curve_curve<double, 2>(*seg, *wave, 1e-6);
            double rd = swap ? dist((*wave)(u), (*seg)(v)) : dist((*seg)(u), (*wave)(v));
            if (!(rd <= 5 * HIT)) mc::fail("valley-crossing", "parameters %.9g %.9g designate points %.6g apart", u, v, rd);
            mc::outcome(mc::mixd(mc::mixd(3, u), v)); mc::trace();
        }
    for (int i = 0; i <= 40; i++)
    {
        double s = b * i / 40;
        auto x = (*wave)(s);
        double sampled = 1e300, su = 0;
        for (int j = 0; j < 30; j++) { double w = j == 29 ? b : b * j / 29, e = dist((*wave)(w), x); if (e < sampled) sampled = e, su = w; }
        if (std::fabs(su - s) > b / 29) continue; // sampling designates another branch
        bool kink = false;
        if (p == 1) for (int q = 0; q <= 6; q++) kink |= std::fabs(s - q) < .05;
        mc::at("%s: point at %.4g", name.c_str(), s); mc::state(); mc::step();
        auto [u, d] = extrema_curve_point<double, 2>(*wave, x, 1e-6);
        double rd = dist((*wave)(u), x);
        if (!(rd <= (kink ? .03 : 5 * HIT))) mc::fail("valley-point", "parameter %.9g is %.6g away", u, rd);
        mc::outcome(mc::mixd(4, u)); mc::trace();
    }
}
static void line_line()
{
    for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++) for (int k = 0; k < 6; k++)
    {
        double a = i * .5235987755982988, b = j * .5235987755982988;
        P<2> d1{std::cos(a), std::sin(a)}, d2{2 * std::cos(b), 2 * std::sin(b)}, p1{.3 * k, 1. - k}, p2{-1. + k, .7 * k};
        if (std::fabs(d1[0] * d2[1] - d1[1] * d2[0]) < 1e-6) continue;
        mc::at("lines %d %d %d", i, j, k); mc::state(); mc::step();
        Line<double, 2> l1{ax1<double, 2>{p1, d1}}, l2{ax1<double, 2>{p2, d2}};
        auto [u, v] = extrema_curve_curve<double>(l1, l2);
        double d = dist(l1(u), l2(v));
        if (!(d < 1e-9)) mc::fail("line-line", "parameters %.9g %.9g designate points %.6g apart", u, v, d);
        mc::trace();
    }
    mc::sample();
}
struct Srf { std::shared_ptr<Surface<double, 3>> s; std::vector<double> bu, bv; std::string name; };
static Srf surface(size_t p, size_t q, size_t iu, size_t iv, int sp, bool rational, int sh)
{
    Srf r;
    r.bu = ref::breaks(iu, sp); r.bv = ref::breaks(iv, sp ? 0 : 1);
    auto ku = ref::flat(r.bu, std::vector<size_t>(iu, 1), p), kv = ref::flat(r.bv, std::vector<size_t>(iv, q), q);
    size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1;
    std::vector<P<3>> Q; std::vector<P<4>> H;
    for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++)
    {
        double gu = 0, gv = 0; for (size_t k = 1; k <= p; k++) gu += ku[i + k] / p; for (size_t k = 1; k <= q; k++) gv += kv[j + k] / q;
        double s = (gu - ku.front()) / (ku.back() - ku.front()), t = (gv - kv.front()) / (kv.back() - kv.front());
        P<3> x;
        if (sh == 0) x = {3 * s + .2 * t, 2 * t - .1 * s, .6 * std::sin(2 * s) + .4 * t * t};
        else x = {2 * std::cos(2 * s), 2 * std::sin(2 * s), 2.5 * t};
        double w = 1 + .3 * ((i + 2 * j) % 3);
        Q.push_back(x); H.push_back({x[0] * w, x[1] * w, x[2] * w, w});
    }
    if (rational) r.s = std::make_shared<BSSurfaceRational<double, 3>>(H, ku, kv, p, q); else r.s = std::make_shared<BSSurface<double, 3>>(Q, ku, kv, p, q);
    r.name = std::string(rational ? "R" : "B") + "surf p" + std::to_string(p) + " q" + std::to_string(q) + " ku" + ref::str(ku) + " kv" + ref::str(kv) + " shape" + std::to_string(sh);
    return r;
}
static void surf_point(const Srf &o)
{
    double a = o.bu.front(), b = o.bu.back(), c = o.bv.front(), e = o.bv.back();
    for (double u0 : params(o.bu, true)) for (double v0 : params(o.bv, true))
    {
        auto q = (*o.s)(u0, v0);
        for (int k = 0; k < 7; k++)
        {
            auto x = q; double disp = k ? (k > 3 ? .2 : .01) : 0; if (k) x[(k - 1) % 3] += disp;
            mc::at("%s point at %.12g %.12g displaced by %g (%d)", o.name.c_str(), u0, v0, disp, k); mc::state();
            for (auto &[sv, sn] : solvers) attempt(sv, [&, sv = sv, sn = sn] {
                if (k && sv != nlopt::LN_COBYLA && k != 4) return;
                mc::step();
                auto [u, v, d] = extrema_surf_pnt<double, 3>(*o.s, x, 1e-6, sv, k ? 10 : 30, k ? 11 : 30);
                if (!in(u, a, b) || !in(v, c, e)) { mc::fail(std::string("surf-point-bounds-") + sn, "parameters %.17g %.17g", u, v); return; }
                double rd = dist((*o.s)(u, v), x);
                consistent(d, rd, "surf-point");
                if (!(rd <= disp + 5 * HIT)) mc::fail(std::string("surf-point-miss-") + sn, "parameters %.9g %.9g at %.6g, a point at %.6g exists", u, v, rd, disp);
                mc::outcome(mc::mixd(mc::mixd(3, u), v));
                for (double gu : {0., 1.}) for (double gv : {0., .6})
                {
                    mc::step();
                    double u1 = gu == 1 ? b : a + gu * (b - a), v1 = c + gv * (e - c);
                    auto [u, v, d] = extrema_surf_pnt<double, 3>(*o.s, x, u1, v1, 1e-6, sv);
                    if (!in(u, a, b) || !in(v, c, e)) { mc::fail(std::string("surf-point-guess-bounds-") + sn, "parameters %.17g %.17g", u, v); return; }
                    consistent(d, dist((*o.s)(u, v), x), "surf-point-guess");
                    d = dist((*o.s)(u, v), x);
                    if (!(d <= dist((*o.s)(u1, v1), x) + 1e-9)) mc::fail(std::string("surf-point-guess-worse-") + sn, "guess at %.9g, result %.9g", dist((*o.s)(u1, v1), x), d);
                }
            });
        }
        mc::trace();
    }
    mc::sample();
}
static void surf_curve(const Srf &o)
{
    double a = o.bu.front(), b = o.bu.back(), c = o.bv.front(), e = o.bv.back();
    for (double u0 : params(o.bu, true)) for (double v0 : params(o.bv, true)) for (int cr = 0; cr < 3; cr++) for (double w0 : {0., .4, 1.})
    {
        auto q = (*o.s)(u0, v0);
        // a curve crossing the surface steeply at its parameter w (its range is not that of the surface)
        auto du = (*o.s)(u0, v0, 1, 0), dv = (*o.s)(u0, v0, 0, 1);
        auto n = cross(du, dv); n = n / norm(n);
        double ra = cr == 1 ? 7 : -2, rb = cr == 1 ? 11 : 0;
        double w = w0 == 1 ? rb : ra + w0 * (rb - ra);
        std::vector<P<3>> Q; std::vector<double> k; size_t p;
        if (cr < 2) { p = 1; k = {ra, ra, rb, rb}; for (double t : {ra, rb}) { P<3> x; for (int i = 0; i < 3; i++) x[i] = q[i] + n[i] * (t - w) * .7; Q.push_back(x); } }
        else { p = 2; k = {ra, ra, ra, rb, rb, rb}; for (int j = 0; j < 3; j++) { double t = ra + (rb - ra) * j / 2; P<3> x; for (int i = 0; i < 3; i++) x[i] = n[i] * (t - w) * .6 + (j == 1) * du[i] / norm(du) * .2; Q.push_back(x); } BSCurve<double, 3> t_(Q, k, p); auto y = t_(w); for (auto &x : Q) for (int i = 0; i < 3; i++) x[i] += q[i] - y[i]; }
        BSCurve<double, 3> crv(Q, k, p);
        mc::at("%s crossed at %.12g %.12g by curve %d at %.12g of [%g,%g]", o.name.c_str(), u0, v0, cr, w, ra, rb); mc::state();
        for (auto &[sv, sn] : solvers) attempt(sv, [&, sv = sv, sn = sn] {
            mc::step();
            auto [u, v, t, d] = extrema_surf_curve<double, 3>(*o.s, crv, 1e-6, sv, 7, 8, 9);
            if (!in(u, a, b) || !in(v, c, e) || !in(t, ra, rb)) { mc::fail(std::string("surf-curve-bounds-") + sn, "parameters %.17g %.17g %.17g", u, v, t); return; }
            double rd = dist((*o.s)(u, v), crv(t));
            consistent(d, rd, "surf-curve");
            if (!(rd <= 10 * HIT)) mc::fail(std::string("surf-curve-miss-") + sn, "parameters %.9g %.9g %.9g designate points %.6g apart", u, v, t, rd);
            mc::outcome(mc::mixd(mc::mixd(4, u), v));
            for (double g : {0., .7})
            {
                mc::step();
                double ug = a + g * (b - a), vg = c + (1 - g) * (e - c) > e ? e : c + (1 - g) * (e - c), tg = ra + g * (rb - ra);
                auto [u, v, t, d] = extrema_surf_curve<double, 3>(*o.s, crv, tg, ug, vg, 1e-6, sv);
                if (!in(u, a, b) || !in(v, c, e) || !in(t, ra, rb)) { mc::fail(std::string("surf-curve-guess-bounds-") + sn, "parameters %.17g %.17g %.17g", u, v, t); return; }
                consistent(d, dist((*o.s)(u, v), crv(t)), "surf-curve-guess");
                d = dist((*o.s)(u, v), crv(t));
                    if (!(d <= dist((*o.s)(ug, vg), crv(tg)) + 1e-9)) mc::fail(std::string("surf-curve-guess-worse-") + sn, "guess at %.9g, result %.9g", dist((*o.s)(ug, vg), crv(tg)), d);
            }
        });
        mc::trace();
    }
    mc::sample();
}
template <size_t dim> static void closest(const std::vector<Obj<dim>> &F)
{
    // parallel copies of one shape, the query nearest to a known one
    for (size_t k = 0; k < F.size(); k++)
    {
        auto mid = F[k].c->midPosition();
        std::vector<BSCurve<double, dim>> L; std::vector<std::shared_ptr<BSCurve<double, dim>>> LP;
        for (int i = 0; i < 5; i++)
        {
            P<dim> a = (*F[k].c)(F[k].br.front()), b = (*F[k].c)(F[k].br.back()), c = (*F[k].c)(mid);
            for (auto *x : {&a, &b, &c}) (*x)[dim - 1] += 1.5 * ((i * 2) % 5);
            L.push_back(BSCurve<double, dim>({a, c, b}, {0, 0, 0, 1, 1, 1}, 2));
            LP.push_back(std::make_shared<BSCurve<double, dim>>(L.back()));
        }
        for (int i = 0; i < 5; i++) for (double t : {.3, .5, .7}) for (double e : {-.3, 0., .3})
        {
            auto x = L[i](t); x[dim - 1] += e;
            mc::at("%s copies, point near copy %d at %g offset %g", F[k].name.c_str(), i, t, e); mc::state(); mc::step(2);
            // true nearest by sampling
            int best = -1; double bd = 1e300, second = 1e300;
            for (int j = 0; j < 5; j++) { double m = 1e300; for (int s = 0; s <= 400; s++) m = std::min(m, dist(L[j](s / 400.), x)); if (m < bd) { second = bd; bd = m; best = j; } else second = std::min(second, m); }
            if (second - bd < .05) continue;
            auto it = closest_curve<double, dim>(x, L.begin(), L.end());
            auto ip = closest_p_curve<double, dim>(x, LP.begin(), LP.end());
            if (it - L.begin() != best || ip - LP.begin() != best) mc::fail("closest-curve", "curves %td/%td instead of %d", it - L.begin(), ip - LP.begin(), best);
            mc::trace();
        }
    }
    mc::sample();
}
template <size_t dim> static void deviation(const std::vector<Obj<dim>> &F)
{
    for (auto &o : F)
    {
        auto *c = dynamic_cast<const BSCurve<double, dim> *>(o.c.get());
        if (!c) continue;
        double a = o.br.front(), b = o.br.back();
        for (double e : {0., .02}) for (size_t worst : {size_t(0), size_t(7), size_t(20)})
        {
            std::vector<P<dim>> pts; std::vector<double> ds;
            for (size_t i = 0; i <= 20; i++)
            {
                double u = i == 20 ? b : a + (b - a) * i / 20;
                auto x = (*c)(u), t = (*c)(u, 1);
                P<dim> n{}; n[0] = -t[1]; n[1] = t[0]; double l = std::hypot(n[0], n[1]);
                double d = i == worst ? 3 * e : e;
                for (size_t k = 0; k < dim; k++) x[k] += d * n[k] / l;
                pts.push_back(x);
            }
            mc::at("%s deviation %g worst %zu", o.name.c_str(), e, worst); mc::state(); mc::step();
            auto [um, dm, da] = dev_from_points(pts, *c);
            // true distances by dense sampling
            double tm = 0, ta = 0, ta2 = 0;
            for (auto &x : pts) { double m = 1e300; for (int s = 0; s <= 1000; s++) m = std::min(m, dist((*c)(s == 1000 ? b : a + (b - a) * s / 1000), x)); tm = std::max(tm, m); ta += m / pts.size(); ta2 += m * m / pts.size(); }
            bool plain = std::fabs(dm - tm) <= 5e-3 && std::fabs(da - ta) <= 5e-3, squared = std::fabs(dm - tm * tm) <= 5e-4 && std::fabs(da - ta2) <= 5e-4; // recorded finding: squares
            if (!plain && !squared) mc::fail("deviation", "maximum %.9g average %.9g, sampling finds %.9g and %.9g", dm, da, tm, ta);
            if (e > 0 && tm > 2 * e && !near_(dm, dist((*c)(um), pts[worst])) && !near_(dm, sq_norm((*c)(um) - pts[worst]))) mc::fail("deviation-position", "parameter %.9g is not that of the maximum", um);
            mc::trace();
        }
    }
    mc::sample();
}
template <size_t dim> static void coordinate(const std::vector<Obj<dim>> &F)
{
    for (auto &o : F) for (size_t i = 0; i < dim; i++)
    {
        double a = o.br.front(), b = o.br.back();
        bool mono = true; double s = 0;
        for (int k = 0; k <= 50; k++) { double d = (*o.c)(k == 50 ? b : a + (b - a) * k / 50, 1)[i] * (b - a); if (k == 0) s = d; if (d * s <= 0 || std::fabs(d) < .05 || std::fabs(d - s) > .4 * std::fabs(s)) mono = false; }
        if (!mono) continue;
        for (double t : params(o.br))
        {
            double X = (*o.c)(t)[i];
            mc::at("%s coordinate %zu of %.12g", o.name.c_str(), i, t); mc::state(); mc::step();
            for (auto g : {std::optional<double>{}, std::optional<double>{a}, std::optional<double>{b}})
            {
                double u = solve_coordinate(*o.c, i, X, g);
                if (!in(u, a, b) || !(std::fabs((*o.c)(u)[i] - X) < 1e-5 * (1 + std::fabs(u)))) mc::fail("coordinate", "parameter %.12g has coordinate %.12g, wanted %.12g", u, in(u, a, b) ? (*o.c)(u)[i] : 0, X);
            }
            mc::trace();
        }
        try { solve_coordinate(*o.c, dim, 0.); mc::fail("coordinate-index", "coordinate %zu accepted", dim); } catch (const std::out_of_range &) { }
    }
    mc::sample();
}
// gradient based solver between objects that do not touch: the local optimum it reports is stationary
static void gradient(int k)
{
    auto f = family<3>(3, 1, 1);
    for (size_t i = 0; i < f.size(); i += 5)
    {
        auto &o = f[i];
        if (o.br.size() > 2 && std::fabs(sq_norm((*o.c)(std::nextafter(o.br[1], -1e9), 1)) - sq_norm((*o.c)(std::nextafter(o.br[1], 1e9), 1))) > 1e-6) continue; // kinked
        double a = o.br.front(), b = o.br.back();
        auto S = surface(2, 2, k % 2, k / 2, k % 2, i % 2, k % 2);
        mc::at("gradient %d %s %s", k, o.name.c_str(), S.name.c_str()); mc::state();
        auto run = [&](const char *w, const auto &call, const auto &slopes)
        {
            mc::step();
            try
            {
                auto r = call();
                if (!std::isfinite(r.back())) { mc::fail(std::string(w) + "-gradient", "distance %g", r.back()); return; }
                double g = slopes(r);
                if (!(g < 2e-2)) mc::fail(std::string(w) + "-gradient", "the reported optimum is not stationary: slope %.6g at %.9g %.9g", g, r[0], r[1]);
                mc::outcome(mc::mixd(7, r[0]));
            }
            catch (const nlopt::roundoff_limited &) {}
        };
        auto slope = [&](double x, double lo, double hi, const P<3> &d, const P<3> &t) // normalised, feasible descent only
        {
            double g = (d * t) / (norm(d) * norm(t));
            if (x < lo + 1e-6 && g > 0) return 0.;
            if (x > hi - 1e-6 && g < 0) return 0.;
            return std::fabs(g);
        };
        P<3> q{.7, .4, 1.9 + .3 * k};
        auto &c = *o.c; auto &s = *S.s;
        double su0 = S.bu.front(), su1 = S.bu.back(), sv0 = S.bv.front(), sv1 = S.bv.back();
        run("curve-point", [&] { return extrema_curve_point(c, q, .4 * a + .6 * b, 1e-4, nlopt::LD_SLSQP); },
            [&](auto &r) { return slope(r[0], a, b, c(r[0]) - q, c(r[0], 1)); });
        run("surf-point", [&] { return extrema_surf_pnt(s, q, .5 * (su0 + su1), .4 * sv0 + .6 * sv1, 1e-4, nlopt::LD_SLSQP); },
            [&](auto &r) { auto d = s(r[0], r[1]) - q; return std::max(slope(r[0], su0, su1, d, s(r[0], r[1], 1, 0)), slope(r[1], sv0, sv1, d, s(r[0], r[1], 0, 1))); });
        // lifted copies that do not touch the curve
        auto &f2 = f[(i + 9) % f.size()];
        auto lift = [&](const Obj<3> &g) -> CP<3>
        {
            if (auto *q = dynamic_cast<const BSCurve<double, 3> *>(g.c.get())) { auto p = q->poles(); for (auto &v : p) v[2] += 4; return std::make_shared<BSCurve<double, 3>>(p, q->knotsFlats(), q->degree()); }
            auto *q = dynamic_cast<const BSCurveRational<double, 3> *>(g.c.get());
            auto p = q->poles(); for (auto &v : p) v[2] += 4 * v[3];
            return std::make_shared<BSCurveRational<double, 3>>(p, q->knotsFlats(), q->degree());
        };
        if (f2.name.find("p1") == std::string::npos)
        {
            auto h = lift(f2); auto &e = *h; double ea = f2.br.front(), eb = f2.br.back();
            run("curve-curve", [&] { return extrema_curve_curve<double, 3>(c, e, .4 * a + .6 * b, .6 * ea + .4 * eb, 1e-4, nlopt::LD_SLSQP); },
                [&](auto &r) { auto d = c(r[0]) - e(r[1]); return std::max(slope(r[0], a, b, d, c(r[0], 1)), slope(r[1], ea, eb, e(r[1]) - c(r[0]), e(r[1], 1))); });
        }
        {
            auto h = lift(o); auto &e = *h;
            run("surf-curve", [&] { return extrema_surf_curve<double, 3>(s, e, .4 * a + .6 * b, .6 * su0 + .4 * su1, .3 * sv0 + .7 * sv1, 1e-4, nlopt::LD_SLSQP); },
                [&](auto &r) { auto d = s(r[0], r[1]) - e(r[2]); return std::max({slope(r[0], su0, su1, d, s(r[0], r[1], 1, 0)), slope(r[1], sv0, sv1, d, s(r[0], r[1], 0, 1)), slope(r[2], a, b, e(r[2]) - s(r[0], r[1]), e(r[2], 1))}); });
        }
        mc::trace();
    }
}
static void reported(int site)
{
    auto f = family<3>(3, 1, 2);
    for (size_t i = 0; i < f.size(); i++) for (double e : {.1, .3, 1.5})
    {
        auto &o = f[i]; auto &c = *o.c;
        double a = o.br.front(), b = o.br.back(), m = a + .37 * (b - a);
        P<3> q = c(m); q[2] += e;
        mc::at("%s displaced by %g", o.name.c_str(), e);
        auto S = surface(2, 1 + i % 2, i % 2, 1, i % 2, i % 2, 0);
        BSCurve<double, 3> seg({q, {q[0] + .2, q[1] - .1, q[2] + 2}}, {0, 0, 1, 1}, 1);
        if (site == 0) { auto r = extrema_curve_point(c, q, 1e-6); exact(r[1], dist(c(r[0]), q)); }
        if (site == 1) { auto r = extrema_surf_pnt<double, 3>(*S.s, q, 1e-6); exact(r[2], dist((*S.s)(r[0], r[1]), q)); }
        if (site == 2) { auto r = extrema_curve_curve<double, 3>(c, seg, m, .1, 1e-4); exact(r[2], dist(c(r[0]), seg(r[1]))); }
        if (site == 3) { auto r = extrema_surf_curve<double, 3>(*S.s, seg, .2, .5 * (S.bu.front() + S.bu.back()), .5 * (S.bv.front() + S.bv.back()), 1e-4); exact(r[3], dist((*S.s)(r[0], r[1]), seg(r[2]))); }
    }
}
static std::vector<mc::Unit> units()
{
    bool T = mc::thorough();
    std::vector<mc::Unit> U;
    static auto f2 = family<2>(T ? 4 : 3, 1, T ? 3 : 2); static auto f3 = family<3>(T ? 4 : 3, 1, T ? 3 : 2);
    for (size_t i = 0; i < f2.size(); i++) U.push_back({"curve-point2/" + std::to_string(i), [i] { curve_point(f2[i]); }});
    for (size_t i = 0; i < f3.size(); i += T ? 1 : 2) U.push_back({"curve-point3/" + std::to_string(i), [i] { curve_point(f3[i]); }});
    for (size_t i = 0; i < f2.size(); i += T ? 1 : 2) U.push_back({"curve-curve2/" + std::to_string(i), [i, T] { std::vector<Obj<2>> L; for (size_t k = 0; k < f2.size(); k += T ? 7 : 11) L.push_back(f2[(i + k) % f2.size()]); curve_curve(f2[i], L, i); }});
    for (size_t i = 0; i < f3.size(); i += T ? 1 : 3) U.push_back({"curve-curve3/" + std::to_string(i), [i, T] { std::vector<Obj<3>> L; for (size_t k = 0; k < f3.size(); k += T ? 7 : 17) L.push_back(f3[(i + k) % f3.size()]); curve_curve(f3[i], L, i); }});
    U.push_back({"line-line", line_line});
    for (size_t p = 1; p <= (T ? 3 : 3); p++) for (size_t q = 1; q <= (T ? 3 : 2); q++) for (int r = 0; r < 2; r++) for (int sh = 0; sh < 2; sh++) for (int k = 0; k < (T ? 3 : 2); k++)
    {
        auto s = surface(p, q, k % 2, k / 2, k % 2, r, sh);
        U.push_back({"surf-point/" + std::to_string(p) + std::to_string(q) + std::to_string(r) + std::to_string(sh) + std::to_string(k), [=] { surf_point(s); }});
        U.push_back({"surf-curve/" + std::to_string(p) + std::to_string(q) + std::to_string(r) + std::to_string(sh) + std::to_string(k), [=] { surf_curve(s); }});
    }
    for (int k = 0; k < 4; k++) U.push_back({"gradient/" + std::to_string(k), [k] { gradient(k); }});
    for (size_t p = 1; p <= 3; p++) for (int g = 0; g < 27; g++) U.push_back({"valleys/" + std::to_string(p) + "/" + std::to_string(g), [p, g, T] { for (int k = g; k < 729; k += 27) valleys(p, k); }});
    static const char *sites[] = {"curve-point", "surf-point", "curve-curve", "surf-curve"};
    for (int k = 0; k < 4; k++) U.push_back({std::string("reported-distance/") + sites[k], [k] { reported(k); }});
    U.push_back({"closest2", [] { closest(f2); }});
    U.push_back({"closest3", [] { closest(f3); }});
    U.push_back({"deviation2", [] { deviation(f2); }});
    U.push_back({"deviation3", [] { deviation(f3); }});
    U.push_back({"coordinate2", [] { coordinate(f2); }});
    U.push_back({"coordinate3", [] { coordinate(f3); }});
    return U;
}
MC_MAIN(units)
