// C11: lengths, arc-length laws and discretizations describe the curve faithfully.
#include "mc.h"
#include "ref.h"
#include <gbs/curves>
#include <gbs/bscanalysis.h>
#include <gbs/bssanalysis.h>
#include <list>
#include <numbers>
using namespace gbs;
using ref::real;
template <size_t dim> using P = std::array<double, dim>;
template <size_t dim> using F = std::function<ref::rvec(real, size_t)>;

template <size_t dim> struct Obj
{
    std::shared_ptr<Curve<double, dim>> c;
    std::function<ref::rvec(real, size_t)> f; // reference value / derivative
    std::vector<double> br;                   // breaks (spans on which the curve is smooth)
    bool gentle;                              // moderate speed variation: arc length laws must be accurate
    bool smooth;                              // at least C1: the law itself is smooth enough
    std::string name;
};
// reference arc length between a and b (signed): composite Gauss-Legendre, split at breaks
static real speed(const std::function<ref::rvec(real, size_t)> &f, real u) { auto v = f(u, 1); real s = 0; for (auto x : v) s += x * x; return std::sqrt(s); }
static real arc(const std::function<ref::rvec(real, size_t)> &f, const std::vector<double> &br, real a, real b, int sub = 6)
{
    if (b < a) return -arc(f, br, b, a, sub);
    static const real x[8] = {0.0950125098376374401853193354249581L, 0.2816035507792589132304605014604961L, 0.4580167776572273863424194429835776L, 0.6178762444026437484466717640487911L, 0.7554044083550030338951011948474422L, 0.8656312023878317438804678977123931L, 0.9445750230732325760779884155346083L, 0.9894009349916499325961541734503326L};
    static const real w[8] = {0.1894506104550684962853967232082831L, 0.1826034150449235888667636679692199L, 0.1691565193950025381893120790303599L, 0.1495959888165767320815017305474786L, 0.1246289712555338720524762821920164L, 0.0951585116824927848099251076022462L, 0.0622535239386478928628438369943776L, 0.0271524594117540948517805724560181L};
    real s = 0;
    std::vector<real> cut{a};
    for (auto k : br) if (k > a && k < b) cut.push_back(k);
    cut.push_back(b);
    for (size_t i = 0; i + 1 < cut.size(); i++)
        for (int j = 0; j < sub; j++)
        {
            real l = cut[i] + (cut[i + 1] - cut[i]) * j / sub, r = cut[i] + (cut[i + 1] - cut[i]) * (j + 1) / sub, h = (r - l) / 2, m = (l + r) / 2;
            for (int q = 0; q < 8; q++) s += w[q] * h * (speed(f, m + h * x[q]) + speed(f, m - h * x[q]));
        }
    return s;
}
template <size_t dim, bool rational>
static Obj<dim> spline(size_t p, const std::vector<double> &br, const std::vector<size_t> &m, int shape)
{
    auto k = ref::flat(br, m, p);
    size_t n = k.size() - p - 1;
    std::vector<P<dim + rational>> Q(n);
    for (size_t i = 0; i < n; i++)
    {
        // Greville abscissa keeps the speed moderate whatever the knots
        real g = 0; for (size_t j = 1; j <= p; j++) g += k[i + j]; g /= p;
        double t = (double)((g - br.front()) / (br.back() - br.front()));
        P<dim> x{};
        if (shape == 0) { x[0] = 3 * t; x[1] = 1.2 * std::sin(4 * t + .3); if (dim > 2) x[2] = t * t - t; }
        if (shape == 1) for (size_t c = 0; c < dim; c++) x[c] = ref::coord(i, c);
        if (shape == 2) { x[0] = 2 * t - 1; x[1] = 4 * t + 2; if (dim > 2) x[2] = -t; } // straight
        double w = rational ? 1 + 0.25 * ((i * 3 + 1) % 3) : 1;
        if (rational && shape == 1) w = ref::weight(i);
        for (size_t c = 0; c < dim; c++) Q[i][c] = x[c] * w;
        if (rational) Q[i][dim] = w;
    }
    Obj<dim> o;
    ref::rvec rk(k.begin(), k.end());
    if constexpr (rational) o.c = std::make_shared<BSCurveRational<double, dim>>(Q, k, p); else o.c = std::make_shared<BSCurve<double, dim>>(Q, k, p);
    o.f = [=](real u, size_t d) { return ref::curve(rk, p, Q, rational, u, d)[d].v; };
    o.br = br;
    o.gentle = shape != 1;
    o.smooth = true;
    if (!(shape == 2 && !rational)) for (auto x : m) if (x >= p) o.smooth = false;
    o.name = std::string(rational ? "R" : "B") + std::to_string(dim) + " p" + std::to_string(p) + " k" + ref::str(k) + " shape" + std::to_string(shape);
    return o;
}
template <size_t dim, bool rational>
static void splines(std::vector<Obj<dim>> &r, size_t pmin, size_t pmax, size_t imax, int nsp)
{
    for (size_t p = pmin; p <= pmax; p++) for (size_t i = 0; i <= imax; i++) for (auto &m : ref::mults(i, p)) for (int sp = 0; sp < nsp; sp++) for (int sh = 0; sh < 3; sh++)
        r.push_back(spline<dim, rational>(p, ref::breaks(i, sp), m, sh));
}
template <size_t dim> static Obj<dim> reversed(const Obj<dim> &o)
{
    Obj<dim> r = o;
    r.c = std::make_shared<CurveReversed<double, dim>>(o.c);
    real a = o.br.front(), b = o.br.back();
    auto f = o.f;
    r.f = [=](real u, size_t d) { auto v = f(a + b - u, d); if (d % 2) for (auto &x : v) x = -x; return v; };
    for (auto &k : r.br) k = (double)(a + b - k);
    std::reverse(r.br.begin(), r.br.end());
    r.br.front() = a; r.br.back() = b;
    r.name = "reversed " + o.name;
    return r;
}
template <size_t dim> static Obj<dim> trimmed(const Obj<dim> &o)
{
    Obj<dim> r = o;
    double a = o.br.front(), b = o.br.back(), s = a + 0.3 * (b - a), t = a + 0.8 * (b - a);
    r.c = std::make_shared<CurveTrimmed<double, dim>>(o.c, s, t);
    r.br = {s};
    for (auto k : o.br) if (k > s && k < t) r.br.push_back(k);
    r.br.push_back(t);
    r.name = "trimmed " + o.name;
    return r;
}
static Obj<3> circle()
{
    Obj<3> o;
    double R = 2.5;
    ax2<double, 3> ax{point<double, 3>{1, 2, 3}, point<double, 3>{0, 0, 1}, point<double, 3>{1, 0, 0}};
    o.c = std::make_shared<Circle3d<double>>(R, ax);
    auto b = o.c->bounds();
    o.br = {b[0], b[1]};
    auto c = o.c;
    o.f = [=](real u, size_t d) { auto v = c->value((double)u, d); return ref::rvec(v.begin(), v.end()); };
    o.gentle = o.smooth = true;
    o.name = "circle";
    return o;
}
static std::vector<double> grid(double a, double b, size_t n) { std::vector<double> r; for (size_t i = 0; i < n; i++) r.push_back(i + 1 == n ? b : a + (b - a) * i / (n - 1.)); return r; }
static bool near(real a, real b, real tol) { return std::fabs(a - b) <= tol; } // false on NaN

template <size_t dim> static void lengths(const Obj<dim> &o)
{
    double a = o.br.front(), b = o.br.back();
    real L = arc(o.f, o.br, a, b);
    std::vector<double> u = grid(a, b, 4);
    for (size_t i = 1; i + 1 < o.br.size(); i++) u.push_back(o.br[i]);
    // a rough quadrature (15 nodes) may not resolve a kink: the adaptive default must
    for (auto s : u) for (auto t : u)
    {
        mc::at("%s length(%.17g,%.17g)", o.name.c_str(), s, t); mc::state(); mc::step(3);
        real r = arc(o.f, o.br, s, t);
        double x = length(*o.c, s, t);
        if (!near(x, r, 1e-6 * L)) mc::fail("length", "%.12g, arc length %.12Lg", x, r);
        double d1 = length(*o.c, s, t, 1);
        if (!near(d1, speed(o.f, t), 1e-8 * (1 + speed(o.f, t)))) mc::fail("d-length", "derivative %.12g speed %.12Lg", d1, speed(o.f, t));
        auto v1 = o.f(t, 1), v2 = o.f(t, 2);
        real acc = 0; for (size_t c = 0; c < dim; c++) acc += v1[c] * v2[c];
        acc /= speed(o.f, t);
        bool knot = false; for (size_t i = 1; i + 1 < o.br.size(); i++) if (std::fabs(t - o.br[i]) < 1e-9) knot = true;
        if (!knot) { double d2 = length(*o.c, s, t, 2); if (!near(d2, acc, 1e-7 * (1 + std::fabs(acc)))) mc::fail("d2-length", "second derivative %.12g expected %.12Lg", d2, acc); }
        if (o.gentle && o.smooth && o.br.size() == 2) { double g = length<double, dim>(*o.c, s, t, 0, false); mc::step(); if (!near(g, r, 1e-6 * L)) mc::fail("length-gauss", "%.12g, arc length %.12Lg", g, r); }
        mc::outcome(mc::mixd(1, x));
    }
    mc::at("%s full length", o.name.c_str());
    double x = length(*o.c);
    if (!near(x, L, 1e-6 * L)) mc::fail("full", "length %.12g, arc length %.12Lg", x, L);
    double x1 = length(*o.c, size_t(1)), x2 = length(*o.c, size_t(2));
    if (!near(x1, speed(o.f, b), 1e-8 * (1 + speed(o.f, b)))) mc::fail("full-d", "derivative %.12g", x1);
    (void)x2;
    mc::sample(); mc::trace();
}
// a law given as parameter -> parameter function; m: data where it must be exact
template <size_t dim> static void laws(const Obj<dim> &o)
{
    double A = o.br.front(), B = o.br.back();
    std::vector<std::array<double, 2>> rg{{A, B}, {A + .2 * (B - A), A + .7 * (B - A)}};
    for (auto [a, b] : rg) for (size_t n : {2, 3, 4, 7, 12, 30}) for (size_t p : {1, 2, 3, 5})
    {
        if (!o.gentle && n != 30) continue;
        real L = arc(o.f, o.br, a, b);
        auto judge_u = [&](const BSCfunction<double> &f, const char *w)
        {
            mc::step(4);
            auto bd = f.bounds();
            if (!near(bd[0], 0, 1e-12) || !near(bd[1], L, 1e-6 * L)) mc::fail(std::string(w) + "-bounds", "law defined on [%.12g,%.12g], length %.12Lg", bd[0], bd[1], L);
            if (!near(f(bd[0]), a, 1e-9 * (B - A)) || !near(f(bd[1]), b, 1e-9 * (B - A))) mc::fail(std::string(w) + "-ends", "law maps its bounds to %.12g,%.12g instead of %.12g,%.12g", f(bd[0]), f(bd[1]), a, b);
            // interpolation nodes: exact
            auto un = grid(a, b, n);
            for (auto u : un)
            {
                real m = std::clamp<real>(arc(o.f, o.br, a, u, 2), bd[0], bd[1]);
                double r = f((double)m);
                if (!near(r, u, 2e-6 * (B - A))) mc::fail(std::string(w) + "-node", "law(%.12Lg) = %.12g, the arc of that length ends at %.12g", m, r, u);
            }
            if (o.gentle && n >= 12 && p >= 2)
            {
                double prev = -1e300;
                real tol = (o.smooth ? (n == 30 ? 1e-3 : 2e-2) : 6e-2) * L;
                for (size_t i = 0; i <= 24; i++)
                {
                    double m = i == 24 ? bd[1] : bd[1] * i / 24, u = f(m);
                    if (!(u > prev)) mc::fail(std::string(w) + "-increasing", "law not increasing at %.12g", m);
                    prev = u;
                    real l = arc(o.f, o.br, a, u, 2);
                    if (!near(l, m, tol)) mc::fail(std::string(w) + "-law", "law(%.12g) = %.12g where the length is %.12Lg", m, u, l);
                }
            }
        };
        auto judge_m = [&](const BSCfunction<double> &g, const char *w)
        {
            mc::step(4);
            auto bd = g.bounds();
            if (!near(bd[0], a, 1e-9 * (B - A)) || !near(bd[1], b, 1e-9 * (B - A))) mc::fail(std::string(w) + "-bounds", "length function defined on [%.12g,%.12g]", bd[0], bd[1]);
            if (!near(g(bd[0]), 0, 1e-9 * L) || !near(g(bd[1]), L, 1e-6 * L)) mc::fail(std::string(w) + "-ends", "length function maps its bounds to %.12g,%.12g", g(bd[0]), g(bd[1]));
            for (auto u : grid(a, b, n)) { double u_ = std::clamp(u, bd[0], bd[1]); real m = arc(o.f, o.br, a, u_, 2); if (!near(g(u_), m, 2e-6 * L)) mc::fail(std::string(w) + "-node", "length at %.12g is %.12g, arc length %.12Lg", u_, g(u_), m); }
            if (o.gentle && n >= 12 && p >= 2)
            {
                double prev = -1;
                real tol = (o.smooth ? (n == 30 ? 1e-3 : 2e-2) : 6e-2) * L;
                for (auto u : grid(bd[0], bd[1], 25))
                {
                    double m = g(u);
                    if (!(m > prev)) mc::fail(std::string(w) + "-increasing", "length function not increasing at %.12g", u);
                    prev = m - (u == bd[0] ? 1e-9 : 0);
                    real l = arc(o.f, o.br, a, u, 2);
                    if (!near(l, m, tol)) mc::fail(std::string(w) + "-law", "length at %.12g is %.12g, arc length %.12Lg", u, m, l);
                }
            }
        };
        mc::at("%s law on [%.17g,%.17g] n=%zu p=%zu", o.name.c_str(), a, b, n, p); mc::state();
        bool full = a == A && b == B;
        judge_u(abs_curv(*o.c, a, b, n, p), "abs_curv");
        judge_u(abs_curv_adaptive(*o.c, a, b, n, p, 0.001), "abs_curv_adaptive");
        judge_m(curve_length_function(*o.c, a, b, n, p, 0.001), "length_function");
        if (full)
        {
            judge_u(abs_curv(*o.c, n, p), "abs_curv-full");
            judge_u(abs_curv_adaptive(*o.c, n, p, 0.001), "abs_curv_adaptive-full");
            judge_m(curve_length_function(*o.c, n, p, 0.001), "length_function-full");
        }
        mc::trace();
    }
    mc::sample();
}
// refinement actually triggered: coarse quadrature (7 nodes) disagrees with its halves
template <size_t dim> static void adaptive(const Obj<dim> &o)
{
    double a = o.br.front(), b = o.br.back();
    for (size_t n : {2, 3, 5}) for (double tol : {1e-2, 1e-3, 1e-4})
    {
        mc::at("%s adaptive n=%zu tol=%g", o.name.c_str(), n, tol); mc::state(); mc::step();
        auto [u, m] = abs_curv_adaptive_discretzation<double, dim, 15>(*o.c, a, b, n, 3, tol);
        auto [u2, m2] = abs_curv_adaptive_discretzation<double, dim>(*o.c, a, b, n, 3, tol * 1e-3);
        for (auto *q : {&u, &u2})
        {
            auto &U = *q; auto &M = q == &u ? m : m2;
            if (U.size() != M.size() || U.size() < n) { mc::fail("sizes", "%zu parameters %zu lengths", U.size(), M.size()); continue; }
            if (U.front() != a || U.back() != b || M.front() != 0) mc::fail("ends", "from %.17g to %.17g", U.front(), U.back());
            for (size_t i = 1; i < U.size(); i++)
            {
                if (!(U[i] > U[i - 1])) { mc::fail("order", "parameters not increasing: %.17g %.17g", U[i - 1], U[i]); break; }
                real l = arc(o.f, o.br, U[i - 1], U[i], 2);
                if (!near(M[i] - M[i - 1], l, (q == &u ? 2e-5 : 1e-6) * M.back())) { mc::fail("length", "step %zu: %.12g, arc length %.12Lg", i, M[i] - M[i - 1], l); break; }
            }
            mc::outcome(U.size());
        }
        mc::trace();
    }
    mc::sample();
}
template <typename PT> static bool same_pt(const PT &x, const ref::rvec &y, real tol)
{
    for (size_t c = 0; c < x.size(); c++) if (!near(x[c], y[c], tol * (1 + std::fabs(y[c])))) return false;
    return true;
}
template <size_t dim> static void discret(const Obj<dim> &o)
{
    double A = o.br.front(), B = o.br.back();
    std::vector<std::array<double, 2>> rg{{A, B}, {A + .2 * (B - A), A + .7 * (B - A)}, {A, A + .1 * (B - A)}};
    for (auto [a, b] : rg) for (size_t n : {0, 1, 2, 3, 4, 5, 9, 16, 40})
    {
        real L = arc(o.f, o.br, a, b);
        bool full = a == A && b == B;
        mc::at("%s uniform n=%zu on [%.17g,%.17g]", o.name.c_str(), n, a, b); mc::state();
        for (size_t nl : {size_t(30), size_t(60)}) for (int form = 0; form < (full ? 2 : 1); form++)
        {
            mc::step();
            try
            {
                auto l = form ? uniform_distrib_params(*o.c, n, nl) : uniform_distrib_params(*o.c, a, b, n, nl);
                if (n < 2) { mc::fail("uniform-size", "%zu points asked, %zu returned for a range with two ends", n, l.size()); continue; }
                if (l.size() != n) { mc::fail("uniform-size", "%zu points instead of %zu", l.size(), n); continue; }
                if (l.front() != a || l.back() != b) mc::fail("uniform-ends", "from %.17g to %.17g", l.front(), l.back());
                if (!std::is_sorted(l.begin(), l.end())) mc::fail("uniform-order", "parameters not sorted");
                if (o.gentle)
                {
                    auto it = l.begin(); double p = *it++;
                    real tol = (o.smooth ? 2e-3 : 6e-2) * L;
                    for (; it != l.end(); ++it) { real s = arc(o.f, o.br, p, *it, 2); if (!near(s, L / (n - 1), tol)) { mc::fail("uniform-spacing", "piece of length %.12Lg, equal spacing is %.12Lg", s, L / (n - 1)); break; } p = *it; }
                }
            }
            catch (const std::length_error &e) { if (o.gentle && o.smooth) mc::fail("uniform-refused", "%s", e.what()); }
            catch (const std::invalid_argument &e) { if (n >= 2) mc::fail("uniform-refused", "%s", e.what()); }
        }
        if (full && n >= 2)
        {
            mc::step();
            try
            {
                auto pts = discretize(*o.c, n);
                auto l = uniform_distrib_params(*o.c, n);
                if (pts.size() != n || l.size() != n) mc::fail("discretize-size", "%zu points instead of %zu", pts.size(), n);
                else { size_t i = 0; for (auto u : l) { if (!same_pt(pts[i], o.f(u, 0), 1e-9)) { mc::fail("discretize-on-curve", "point %zu not at parameter %.12g", i, u); break; } i++; } }
            }
            catch (const std::length_error &) { }
        }
        for (double dev : {0.3, 0.05, 0.01}) for (size_t nmax : {size_t(4), size_t(1000)})
        {
            mc::at("%s deviation n=%zu dev=%g max=%zu on [%.17g,%.17g]", o.name.c_str(), n, dev, nmax, a, b); mc::step();
            auto l = deviation_based_params(*o.c, a, b, n, dev, nmax);
            std::vector<double> u(l.begin(), l.end());
            if (u.size() < std::max<size_t>(n, 2)) mc::fail("dev-size", "%zu points, at least %zu asked", u.size(), n);
            if (u.empty() || u.front() != a || u.back() != b) { mc::fail("dev-ends", "from %.17g to %.17g", u.front(), u.back()); continue; }
            if (!std::is_sorted(u.begin(), u.end())) mc::fail("dev-order", "parameters not sorted");
            // enough points allowed: every piece meets the deviation (sine between chord and mid point)
            size_t n0 = std::max<size_t>(n, 2); for (auto k : o.br) if (k > a && k < b) n0++;
            if (n0 < nmax)
                for (size_t i = 1; i < u.size(); i++)
                {
                    if (u[i] - u[i - 1] < 1e-6) continue;
                    auto x0 = o.f(u[i - 1], 0), x1 = o.f((real)(u[i - 1] + u[i]) / 2, 0), x2 = o.f(u[i], 0);
                    real n1 = 0, n2 = 0, dt = 0;
                    for (size_t c = 0; c < dim; c++) { real p = x1[c] - x0[c], q = x2[c] - x0[c]; n1 += p * p; n2 += q * q; dt += p * q; }
                    real s2 = n1 * n2 > 0 ? 1 - dt * dt / (n1 * n2) : (n1 > 1e-12L ? 1 : 0);
                    if (s2 > dev * dev * (1 + 1e-6) + 1e-9) { mc::fail("dev-deviation", "between %.12g and %.12g the mid point deviates by %.6Lg > %g", u[i - 1], u[i], std::sqrt(s2), dev); break; }
                }
            mc::outcome(mc::mix(u.size(), n));
            if (full)
            {
                auto pts = discretize(*o.c, n, dev, nmax);
                auto [pts2, u2] = discretize_with_params(*o.c, n, dev, nmax);
                if (pts.size() != u.size() || pts2 != pts || u2 != u) mc::fail("dev-variants", "discretize, discretize_with_params and deviation_based_params differ");
                else for (size_t i = 0; i < u.size(); i++) if (!same_pt(pts[i], o.f(u[i], 0), 1e-9)) { mc::fail("dev-on-curve", "point %zu not at parameter %.12g", i, u[i]); break; }
            }
        }
        mc::trace();
    }
    // given parameters, any container and derivative order
    for (size_t d = 0; d <= 2; d++)
    {
        mc::at("%s make_points d=%zu", o.name.c_str(), d); mc::step();
        std::list<double> l; for (auto u : grid(A, B, 7)) { bool k = false; for (size_t i = 1; i + 1 < o.br.size(); i++) if (std::fabs(u - o.br[i]) < 1e-9) k = true; if (!k) l.push_front(u); }
        std::vector<double> v(l.begin(), l.end());
        auto p1 = make_points(*o.c, l, d), p2 = make_points(*o.c, v, d);
        if (p1 != p2 || p1.size() != l.size()) mc::fail("make_points", "containers give different results");
        else for (size_t i = 0; i < v.size(); i++) if (!same_pt(p1[i], o.f(v[i], d), 1e-8)) mc::fail("make_points-value", "parameter %.12g", v[i]);
    }
    // directions
    for (auto u : grid(A, B, 9))
    {
        bool k = false; for (size_t i = 1; i + 1 < o.br.size(); i++) if (std::fabs(u - o.br[i]) < 1e-9) k = true;
        if (k) continue;
        mc::at("%s direction at %.17g", o.name.c_str(), u); mc::step();
        auto t = tangential_direction(*o.c, u);
        auto v = o.f(u, 1);
        real s = speed(o.f, u);
        for (size_t c = 0; c < dim; c++) if (!near(t[c], v[c] / s, 1e-8)) mc::fail("tangent", "component %zu", c);
        auto tl = tangential_line(*o.c, u);
        if (!same_pt(tl[0], o.f(u, 0), 1e-9) || tl[1] != t) mc::fail("tangent-line", "line not at the curve's point and tangent");
        if constexpr (dim == 2)
        {
            auto n = normal_direction(*o.c, u);
            if (!near(n[0] * n[0] + n[1] * n[1], 1, 1e-9) || !near(n[0] * t[0] + n[1] * t[1], 0, 1e-9) || !(t[0] * n[1] - t[1] * n[0] > 0)) mc::fail("normal", "(%g,%g) for tangent (%g,%g)", n[0], n[1], t[0], t[1]);
        }
    }
    mc::sample();
}
static void surf(size_t p, size_t q, int sp, bool rational, bool closed)
{
    auto bu = ref::breaks(1, sp), bv = ref::breaks(p == q ? 1 : 0, (sp + 1) % 3);
    auto ku = ref::flat(bu, {1}, p), kv = ref::flat(bv, std::vector<size_t>(bv.size() - 2, 1), q);
    size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1;
    std::vector<P<3>> Q; std::vector<P<4>> H;
    for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++)
    {
        P<3> x{1.5 * i + .2 * j, 1.1 * j - .1 * i, std::sin(1. * i) + .4 * std::cos(2. * j)};
        if (closed) { double a = 6.283185307179586 * i / (nu - 1); x = {std::cos(a), std::sin(a), 1. * j}; if (i + 1 == nu) x = {1, 0, 1. * j}; }
        double w = 1 + .3 * ((i + 2 * j) % 3);
        Q.push_back(x); H.push_back({x[0] * w, x[1] * w, x[2] * w, w});
    }
    std::shared_ptr<Surface<double, 3>> s;
    if (rational) s = std::make_shared<BSSurfaceRational<double, 3>>(H, ku, kv, p, q); else s = std::make_shared<BSSurface<double, 3>>(Q, ku, kv, p, q);
    ref::rvec rku(ku.begin(), ku.end()), rkv(kv.begin(), kv.end());
    auto f = [&](real u, real v) { return rational ? ref::surf(rku, rkv, p, q, H, true, u, v, 0, 0)[0].v : ref::surf(rku, rkv, p, q, Q, false, u, v, 0, 0)[0].v; };
    double u1 = bu.front(), u2 = bu.back(), v1 = bv.front(), v2 = bv.back();
    for (size_t nu_ : {2, 3, 7, 33}) for (size_t nv_ : {2, 5, 31})
    {
        mc::at("surface p%zu q%zu sp%d rational%d closed%d grid %zux%zu", p, q, sp, rational, closed, nu_, nv_); mc::state(); mc::step();
        auto pts = discretize(*s, nu_, nv_);
        if (pts.size() != nu_ * nv_) { mc::fail("grid-size", "%zu points", pts.size()); continue; }
        for (size_t j = 0; j < nv_; j++) for (size_t i = 0; i < nu_; i++)
        {
            auto r = f(u1 + (real)(u2 - u1) * i / (nu_ - 1), v1 + (real)(v2 - v1) * j / (nv_ - 1));
            if (!same_pt(pts[i + nu_ * j], r, 1e-9)) { mc::fail("grid-point", "point (%zu,%zu)", i, j); i = nu_; j = nv_; }
        }
        mc::trace();
    }
    for (int dir = 0; dir < 2; dir++) for (size_t n : {0, 1, 2, 3, 4, 7, 11}) for (double dev : {.3, .05, .01}) for (int rg = 0; rg < 2; rg++) for (size_t nmax : {3, 1000})
    {
        double A = dir ? v1 : u1, B = dir ? v2 : u2, o = dir ? u1 + .37 * (u2 - u1) : v1 + .37 * (v2 - v1);
        double a = rg ? A + .1 * (B - A) : A, b = rg ? A + .6 * (B - A) : B;
        mc::at("surface p%zu q%zu sp%d rational%d closed%d dir%d n%zu dev%g on [%.17g,%.17g] max%zu", p, q, sp, rational, closed, dir, n, dev, a, b, nmax); mc::state(); mc::step();
        auto l = dir ? deviation_based_v_params(*s, a, b, o, n, dev, nmax) : deviation_based_u_params(*s, a, b, o, n, dev, nmax);
        std::vector<double> u(l.begin(), l.end());
        if (u.size() < std::max<size_t>(n, 2) || u.front() != a || u.back() != b) { mc::fail("iso-ends", "%zu points from %.17g to %.17g", u.size(), u.empty() ? 0 : u.front(), u.empty() ? 0 : u.back()); continue; }
        if (!std::is_sorted(u.begin(), u.end())) mc::fail("iso-order", "not sorted");
        if (std::max<size_t>(n, 2) < nmax)
            for (size_t i = 1; i < u.size(); i++)
            {
                if (u[i] - u[i - 1] < 1e-6) continue;
                auto g = [&](real t) { return dir ? f(o, t) : f(t, o); };
                auto x0 = g(u[i - 1]), x1 = g((real)(u[i - 1] + u[i]) / 2), x2 = g(u[i]);
                real n1 = 0, n2 = 0, dt = 0;
                for (size_t c = 0; c < 3; c++) { real p_ = x1[c] - x0[c], q_ = x2[c] - x0[c]; n1 += p_ * p_; n2 += q_ * q_; dt += p_ * q_; }
                real s2 = n2 > 1e-20L && n1 > 1e-20L ? 1 - dt * dt / (n1 * n2) : (n1 > 1e-12L ? 1 : 0);
                if (s2 > dev * dev * (1 + 1e-6) + 1e-9) { mc::fail("iso-deviation", "between %.12g and %.12g the mid point deviates by %.6Lg", u[i - 1], u[i], std::sqrt(s2)); break; }
            }
        mc::outcome(mc::mix(u.size(), n)); mc::trace();
    }
    mc::sample();
}
template <size_t dim> static Obj<dim> loop()
{   // closed single-span curve: the first chord is null
    Obj<dim> o;
    std::vector<P<dim>> Q(5);
    double x[5][3] = {{0, 0, 0}, {2, 0, 1}, {2, 3, 0}, {-1, 2, -1}, {0, 0, 0}};
    for (int i = 0; i < 5; i++) for (size_t c = 0; c < dim; c++) Q[i][c] = x[i][c];
    std::vector<double> k{0, 0, 0, 0, 0, 1, 1, 1, 1, 1};
    o.c = std::make_shared<BSCurve<double, dim>>(Q, k, 4);
    ref::rvec rk(k.begin(), k.end());
    o.f = [=](real u, size_t d) { return ref::curve(rk, 4, Q, false, u, d)[d].v; };
    o.br = {0, 1}; o.gentle = true; o.smooth = true; o.name = "closed loop";
    return o;
}
static std::vector<mc::Unit> units()
    {
        std::vector<mc::Unit> us;
        size_t pmax = mc::thorough() ? 4 : 3; int nsp = mc::thorough() ? 3 : 2;
        static std::vector<Obj<2>> c2; static std::vector<Obj<3>> c3;
        splines<2, false>(c2, 1, pmax, 1, nsp);
        splines<3, true>(c3, 1, pmax, 1, nsp);
        if (mc::thorough()) { splines<3, false>(c3, 2, 3, 2, 1); splines<2, true>(c2, 2, 3, 2, 1); }
        else { c3.push_back(spline<3, false>(2, ref::breaks(2, 1), {1, 2}, 0)); c3.push_back(spline<3, false>(3, ref::breaks(2, 1), {3, 1}, 0)); c2.push_back(spline<2, true>(3, ref::breaks(2, 1), {1, 2}, 0)); }
        size_t n2 = c2.size(), n3 = c3.size();
        for (size_t i = 0; i < n2; i += 3) { c2.push_back(reversed(c2[i])); c2.push_back(trimmed(c2[i])); }
        for (size_t i = 1; i < n3; i += 3) { c3.push_back(reversed(c3[i])); c3.push_back(trimmed(c3[i])); }
        c3.push_back(circle()); c2.push_back(loop<2>()); c3.push_back(loop<3>());
        for (size_t i = 0; i < c2.size(); i++)
        {
            us.push_back({"length2/" + std::to_string(i), [i] { lengths(c2[i]); }});
            us.push_back({"law2/" + std::to_string(i), [i] { laws(c2[i]); }});
            us.push_back({"adaptive2/" + std::to_string(i), [i] { adaptive(c2[i]); }});
            us.push_back({"discret2/" + std::to_string(i), [i] { discret(c2[i]); }});
        }
        for (size_t i = 0; i < c3.size(); i++)
        {
            us.push_back({"length3/" + std::to_string(i), [i] { lengths(c3[i]); }});
            us.push_back({"law3/" + std::to_string(i), [i] { laws(c3[i]); }});
            us.push_back({"adaptive3/" + std::to_string(i), [i] { adaptive(c3[i]); }});
            us.push_back({"discret3/" + std::to_string(i), [i] { discret(c3[i]); }});
        }
        for (size_t p = 1; p <= 3; p++) for (size_t q = 1; q <= 3; q++) for (int sp = 0; sp < 3; sp++) for (int r = 0; r < 2; r++) for (int cl = 0; cl < 2; cl++)
            us.push_back({"surf/" + std::to_string(p) + std::to_string(q) + std::to_string(sp) + std::to_string(r) + std::to_string(cl), [=] { surf(p, q, sp, r, cl); }});
        return us;
    }
MC_MAIN(units)
