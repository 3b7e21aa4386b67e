// C24: derivative, integral and elementary curve builders are exact.
#include "mc.h"
#include "ref.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bscbuild.h>
#include <gbs/bscinterp.h>
#include <gbs/bsctools.h>
using namespace gbs;
using ref::real;
template <size_t dim> using P = std::array<double, dim>;
template <size_t dim> static double dst(const P<dim> &a, const P<dim> &b) { real s = 0; for (size_t k = 0; k < dim; k++) s += (real(a[k]) - b[k]) * (real(a[k]) - b[k]); return std::sqrt((double)s); }
template <size_t dim> static double len(const P<dim> &a) { return dst<dim>(a, P<dim>{}); }

static const real GX[] = {0, 0.5384693101056830910363144207002088L, 0.9061798459386639927976268782993930L}, GW[] = {0.568888888888888888888888888888889L, 0.478628670499366468041291514835638L, 0.236926885056189087514264040719917L};
// integral of a curve by smooth pieces (exact up to degree 9)
template <size_t dim> static std::array<real, dim> integral(const BSCurve<double, dim> &c, const ref::rvec &k, double u)
{
    std::array<real, dim> r{}; auto br = c.knots();
    auto pl = c.poles(); size_t p = c.degree();
    for (size_t i = 0; i + 1 < br.size(); i++)
    {
        real a = br[i], b = std::min<real>(u, br[i + 1]); if (b <= a) break;
        for (int g = -2; g <= 2; g++)
        {
            real x = (a + b) / 2 + (b - a) / 2 * (g < 0 ? -GX[-g] : GX[g]);
            auto v = ref::curve(k, p, pl, false, x, 0)[0];
            for (size_t d = 0; d < dim; d++) r[d] += (b - a) / 2 * GW[std::abs(g)] * v.v[d];
        }
    }
    return r;
}
template <size_t dim> static void diff_int(size_t p, size_t mmax, int nsp)
{
    for (size_t m = 0; m <= mmax; m++) for (auto &mu : ref::mults(m, p)) for (int sp = 0; sp < nsp; sp++)
    {
        auto br = ref::breaks(m, sp); auto fk = ref::flat(br, mu, p); size_t n = fk.size() - p - 1;
        ref::rvec rk = ref::to_real(fk);
        auto pr = ref::probes(br, false);
        for (size_t seed = 0; seed < 2; seed++)
        {
            BSCurve<double, dim> c{ref::poles<dim>(n, seed), fk, p};
            double sc = 1; for (auto &q : c.poles()) sc = std::max(sc, len<dim>(q));
            double h = 1e300; for (size_t i = 0; i + 1 < br.size(); i++) h = std::min(h, br[i + 1] - br[i]);
            mc::at("dim %zu degree %zu knots %s seed %zu", dim, p, ref::str(fk).c_str(), seed); mc::state(); mc::outcome(mc::mix(mc::mix(p, n), sp));
            // derivative
            BSCurve<double, dim> d = c; 
            for (size_t o = 1; o <= p; o++)
            {
                // one more derivation is possible while the curve stays continuous
                bool cont = true; for (auto x : mu) if (x + o - 1 > p) cont = false;
                if (!cont || d.degree() == 0) break;
                d = build_derivate(d); mc::step();
                if (d.degree() != p - o) mc::fail("derivate-degree", "degree %zu after %zu derivations", d.degree(), o);
                if (d.bounds() != c.bounds()) mc::fail("derivate-bounds", "bounds changed");
                for (double u : pr)
                {
                    bool brk = false; for (size_t i = 1; i + 1 < br.size(); i++) if (std::abs(u - br[i]) < 1e-9) brk = true;
                    if (d.degree() == 0 && (brk || u == br.back())) continue;
                    auto r = ref::curve(rk, p, c.poles(), false, u, o)[o]; auto x = d.value(u); mc::step();
                    double tol = 1e-9 * sc * std::pow(2. * p / h, (double)o);
                    for (size_t k = 0; k < dim; k++) if (!(std::abs(x[k] - (double)r.v[k]) <= tol)) { mc::fail("derivate-value-" + std::to_string(o), "derivative %zu at %.17g, coordinate %zu: %.17g, expected %.17Lg", o, u, k, x[k], r.v[k]); break; }
                }
            }
            // integral from several points
            for (int k0 = 0; k0 < 3; k0++)
            {
                P<dim> o{}; if (k0) for (size_t k = 0; k < dim; k++) o[k] = k0 == 1 ? 0.1 + k : -1e3 / (k + 3.);
                auto I = k0 ? build_integrate(c, o) : build_integrate(c); mc::step();
                if (I.degree() != p + 1 || I.bounds() != c.bounds()) mc::fail("integrate-shape", "degree %zu bounds %g %g", I.degree(), I.bounds()[0], I.bounds()[1]);
                double L = br.back() - br.front();
                for (double u : pr)
                {
                    auto r = integral(c, rk, u); auto x = I.value(u); mc::step();
                    for (size_t k = 0; k < dim; k++) if (!(std::abs(x[k] - (double)(r[k] + o[k])) <= 1e-10 * (sc * (1 + L) + std::abs(o[k])))) { mc::fail("integrate-value", "integral to %.17g from %g, coordinate %zu: %.17g, expected %.17Lg", u, o[k], k, x[k], r[k] + o[k]); break; }
                }
                if (dst<dim>(I.begin(), o) > 1e-12 * (1 + len<dim>(o))) mc::fail("integrate-start", "does not start at the given point");
                auto B = build_derivate(I); mc::step();
                bool same = B.degree() == p && B.poles().size() == c.poles().size() && B.knotsFlats() == c.knotsFlats();
                if (same) for (size_t i = 0; i < n; i++) same = same && dst<dim>(B.poles()[i], c.poles()[i]) <= 1e-10 * (sc + len<dim>(o) / h);
                if (!same) mc::fail("derivate-of-integral", "does not give the curve back");
            }
            bool cont = true; for (auto x : mu) cont = cont && x <= p;
            if (p >= 1 && cont)
            {
                auto B = build_integrate(build_derivate(c), c.poles().front()); mc::step();
                bool same = B.degree() == p && B.poles().size() == n && B.knotsFlats() == c.knotsFlats();
                if (same) for (size_t i = 0; i < n; i++) same = same && dst<dim>(B.poles()[i], c.poles()[i]) <= 1e-9 * sc;
                if (!same) mc::fail("integral-of-derivate", "does not give the curve back");
            }
        }
    }
    mc::sample();
}
// directions and lengths
template <size_t dim> static std::vector<P<dim>> places()
{
    std::vector<P<dim>> r; std::vector<double> v{-2, -1. / 3, 0, 1, 1e3 + .1};
    size_t n = 1; for (size_t k = 0; k < dim; k++) n *= v.size();
    for (size_t i = 0; i < n; i++) { P<dim> p; size_t x = i; for (size_t k = 0; k < dim; k++) { p[k] = v[x % v.size()]; x /= v.size(); } r.push_back(p); }
    return r;
}
template <size_t dim> static void segments()
{
    auto pl = places<dim>();
    for (auto &a : pl) for (auto &b : pl) for (int nrm = 0; nrm < 3; nrm++)
    {
        mc::at("dim %zu segment %s -> %s %s", dim, ref::str(std::vector<double>(a.begin(), a.end())).c_str(), ref::str(std::vector<double>(b.begin(), b.end())).c_str(), nrm == 1 ? "normalized" : ""); mc::state(); mc::step();
        if (a == b && nrm != 1) { continue; } // no length to parametrize with
        auto s = nrm == 2 ? build_segment<double, dim>(a, b) : build_segment<double, dim>(a, b, nrm == 1);
        double L = dst<dim>(a, b), e = nrm == 1 ? 1. : L; auto [u1, u2] = s.bounds();
        if (u1 != 0 || std::abs(u2 - e) > 1e-14 * e || s.degree() != 1) mc::fail("segment-bounds", "bounds %g %g", u1, u2);
        if (dst<dim>(s.begin(), a) > 1e-14 * (1 + len<dim>(a) + len<dim>(b)) || dst<dim>(s.end(), b) > 1e-14 * (1 + len<dim>(a) + len<dim>(b))) mc::fail("segment-ends", "ends are not the given points");
        double sc = 1 + len<dim>(a) + len<dim>(b);
        for (int i = 0; i <= 8; i++)
        {
            double u = i == 8 ? u2 : u2 * i / 8; P<dim> x = s.value(u), r; for (size_t k = 0; k < dim; k++) r[k] = a[k] + (b[k] - a[k]) * (i / 8.);
            if (dst<dim>(x, r) > 1e-13 * sc) mc::fail("segment-value", "at %g", u);
            P<dim> d = s.value(u, 1), rd; for (size_t k = 0; k < dim; k++) rd[k] = (b[k] - a[k]) / e;
            if (dst<dim>(d, rd) > 1e-12 * sc / std::min(e, 1.)) mc::fail("segment-tangent", "at %g", u);
        }
        mc::outcome(mc::mixd(nrm, L));
    }
    mc::sample();
}
template <size_t dim> static void conics()
{
    auto ctr = places<dim>();
    std::vector<double> rad{1e-3, 0.5, 1, 1. / 3, 7, 1e3};
    for (auto &c : ctr) for (double r1 : rad) for (double r2 : rad) for (int circ = 0; circ < (r1 == r2 ? 3 : 1); circ++)
    {
        if (circ == 2 && len<dim>(c) > 0) continue;
        auto e = circ == 0 ? build_ellipse<double, dim>(r1, r2, c) : circ == 1 ? build_circle<double, dim>(r1, c) : build_circle<double, dim>(r1);
        mc::at("dim %zu ellipse %g x %g at %s%s", dim, r1, r2, ref::str(std::vector<double>(c.begin(), c.end())).c_str(), circ ? " (circle)" : ""); mc::state(); mc::step(); mc::outcome(mc::mixd(mc::mixd(dim, r1), r2));
        double sc = r1 + r2 + len<dim>(c);
        auto [u1, u2] = e.bounds(); if (u1 != 0 || u2 != 1) mc::fail("conic-bounds", "bounds %g %g", u1, u2);
        double last = -1;
        for (int i = 0; i <= 64; i++)
        {
            double u = i / 64.; auto x = e.value(u); mc::step();
            double X = (x[0] - c[0]) / r1, Y = (x[1] - c[1]) / r2;
            if (std::abs(X * X + Y * Y - 1) > 1e-12 * sc / std::min(r1, r2)) { mc::fail("conic-on", "point at %g is not on the ellipse (%.3g)", u, X * X + Y * Y - 1); break; }
            for (size_t k = 2; k < dim; k++) if (std::abs(x[k] - c[k]) > 1e-13 * sc) mc::fail("conic-plane", "out of plane at %g", u);
            // counter clockwise, quarter by quarter
            double a = std::atan2(Y, X) / (2 * M_PI); if (a < -1e-9) a += 1; if (i > 60 && a < 0.5) a += 1;
            if (sc / std::min(r1, r2) < 1e6) { if (!(a > last)) mc::fail("conic-turn", "angle does not increase at %g", u); if (i % 16 == 0 && std::abs(a - u) > 1e-9) mc::fail("conic-quarter", "angle %g turn at %g", a, u); }
            last = a;
        }
        if (dst<dim>(e.begin(), e.end()) > 1e-13 * sc) mc::fail("conic-closed", "does not close");
    }
    mc::sample();
}
// Bezier pieces and their elevation
template <size_t dim> static void beziers(size_t p, size_t mmax)
{
    for (size_t m = 0; m <= mmax; m++) for (auto &mu : ref::mults(m, p)) for (int sp = 0; sp < 3; sp++)
    {
        auto br = ref::breaks(m, sp); auto fk = ref::flat(br, mu, p); size_t n = fk.size() - p - 1; auto pl = ref::poles<dim>(n, sp); ref::rvec rk = ref::to_real(fk);
        mc::at("dim %zu degree %zu Bezier pieces of knots %s", dim, p, ref::str(fk).c_str()); mc::state(); mc::step(); mc::outcome(mc::mix(p * 100 + n, sp));
        auto segs = bezier_segments(fk, pl, p);
        if (segs.size() != br.size() - 1) { mc::fail("bezier-count", "%zu pieces, %zu spans", segs.size(), br.size() - 1); continue; }
        for (size_t s = 0; s < segs.size(); s++)
        {
            auto &[P_, uu] = segs[s];
            if (P_.size() != p + 1 || uu.first != br[s] || uu.second != br[s + 1]) { mc::fail("bezier-range", "piece %zu", s); continue; }
            for (size_t t = 0; t <= 4; t++)
            {
                auto Q = t ? increase_bezier_degree(P_, p, t) : P_; mc::step();
                if (Q.size() != p + 1 + t) { mc::fail("bezier-elevate-count", "%zu poles", Q.size()); continue; }
                for (int i = 0; i <= 6; i++)
                {
                    real x = i / 6.L, u = uu.first + (uu.second - (real)uu.first) * x; auto r = ref::curve(rk, p, pl, false, i == 6 ? std::nextafterl(u, -1e9L) : u, 0)[0];
                    // de Casteljau
                    std::vector<std::array<real, dim>> W(Q.size()); for (size_t a = 0; a < Q.size(); a++) for (size_t k = 0; k < dim; k++) W[a][k] = Q[a][k];
                    for (size_t l = 1; l < W.size(); l++) for (size_t a = 0; a + l < W.size(); a++) for (size_t k = 0; k < dim; k++) W[a][k] = (1 - x) * W[a][k] + x * W[a + 1][k];
                    for (size_t k = 0; k < dim; k++) if (std::abs((double)(W[0][k] - r.v[k])) > 1e-10 * (1 + std::abs((double)r.v[k]))) { mc::fail("bezier-value", "piece %zu elevated by %zu at %Lg: %Lg, expected %Lg", s, t, u, W[0][k], r.v[k]); i = 7; break; }
                }
            }
        }
    }
    mc::sample();
}
// three point tangents: exact on parabolas, whatever the parameters
template <size_t dim> static void tangents()
{
    std::vector<double> steps{0.25, 1, 1.7};
    for (size_t n = 3; n <= 7; n++)
    {
        std::vector<size_t> ix(n - 1, 0);
        while (true)
        {
            std::vector<double> u{0.3}; for (auto i : ix) u.push_back(u.back() + steps[i]);
            for (int shape = 0; shape < 3; shape++)
            {
                std::vector<P<dim>> q(n); auto f = [&](double x, size_t k) { return (k + 1.) * (shape > 1 ? 0. : x * x) * (k ? .4 : -.3) + (1.5 - k) * (shape == 1 ? 0.5 * x : x) + 2. * k; };
                auto g = [&](double x, size_t k) { return (k + 1.) * (shape > 1 ? 0. : 2 * x) * (k ? .4 : -.3) + (1.5 - k) * (shape == 1 ? 0.5 : 1.); };
                for (size_t i = 0; i < n; i++) for (size_t k = 0; k < dim; k++) q[i][k] = f(u[i], k);
                mc::at("dim %zu three point tangents at %s shape %d", dim, ref::str(u).c_str(), shape); mc::state(); mc::step(2);
                auto D = build_3pt_tg_vec(q, u); auto T = build_3pt_tg_dir(q, u); mc::outcome(mc::mix(n, shape + 3 * ix[0]));
                if (D.size() != n || T.size() != n) { mc::fail("tangent-count", "%zu", D.size()); continue; }
                bool uni = std::all_of(ix.begin(), ix.end(), [&](size_t i) { return i == ix[0]; });
                for (size_t i = 0; i < n; i++)
                {
                    P<dim> e; for (size_t k = 0; k < dim; k++) e[k] = g(u[i], k);
                    if (dst<dim>(D[i], e) > 1e-10 * (1 + len<dim>(e))) mc::fail(i == 0 ? "tangent-first" : i + 1 == n ? "tangent-last" : "tangent", "tangent %zu of %zu differs", i, n);
                    double l = len<dim>(T[i]); if (std::abs(l - 1) > 1e-10) mc::fail("tangent-unit", "direction %zu has length %g", i, l);
                    if (uni && len<dim>(e) > 1e-6) { P<dim> t = e; for (auto &x : t) x /= len<dim>(e); if (dst<dim>(T[i], t) > 1e-9) mc::fail("tangent-direction", "direction %zu of %zu differs", i, n); }
                }
            }
            size_t k = 0; while (k < ix.size() && ++ix[k] == steps.size()) ix[k++] = 0; if (k == ix.size()) break;
        }
    }
    mc::sample();
}
static void ranges()
{
    std::vector<double> v{-7.3, -1, 0, 1. / 3, 1, 1e5 + 0.1};
    for (double a : v) for (double b : v) for (size_t n = 0; n <= 40; n++)
    {
        if (a == b) continue;
        mc::at("range %g..%g of %zu", a, b, n); mc::state(); mc::step(); mc::outcome(n);
        try
        {
            auto r = make_range(a, b, n); auto r2 = make_range(std::array<double, 2>{a, b}, n);
            if (n < 2) { mc::fail("range-small", "%zu values", r.size()); continue; }
            if (r.size() != n || r != r2) { mc::fail("range-count", "%zu values", r.size()); continue; }
            if (r.front() != a || r.back() != b) mc::fail("range-ends", "%g..%g", r.front(), r.back());
            for (size_t i = 0; i < n; i++) { if (std::abs(r[i] - (a + (b - a) * i / (n - 1.))) > 1e-12 * (std::abs(a) + std::abs(b))) mc::fail("range-value", "value %zu: %.17g", i, r[i]); if (i && (r[i] - r[i - 1]) * (b - a) <= 0) mc::fail("range-order", "value %zu", i); }
        }
        catch (const std::exception &e) { if (n >= 2) mc::fail("range-refused", "%s", e.what()); }
        if (n > 6) continue;
        for (size_t nv = 0; nv <= 5; nv++)
        {
            mc::at("grid %g..%g x 0.5..2 of %zu x %zu", a, b, n, nv); mc::step();
            try
            {
                auto g = make_range(a, b, 0.5, 2., n, nv); auto g2 = make_range(std::array<double, 4>{a, b, .5, 2.}, n, nv);
                if (n < 2 || nv < 2) { mc::fail("grid-small", "%zu values", g.size()); continue; }
                if (g.size() != n * nv || g != g2) { mc::fail("grid-count", "%zu", g.size()); continue; }
                for (size_t i = 0; i < n; i++) for (size_t j = 0; j < nv; j++) { auto [x, y] = g[j + nv * i]; if (std::abs(x - (a + (b - a) * i / (n - 1.))) > 1e-12 * (std::abs(a) + std::abs(b)) || std::abs(y - (0.5 + 1.5 * j / (nv - 1.))) > 1e-13) mc::fail("grid-value", "%zu %zu", i, j); }
                for (size_t nw = 2; nw <= 3; nw++)
                {
                    auto h = make_range(a, b, .5, 2., -1., 4., n, nv, nw); auto h2 = make_range(std::array<double, 4>{a, b, .5, 2.}, std::array<double, 2>{-1, 4}, n, nv, nw);
                    if (h.size() != n * nv * nw || h != h2) { mc::fail("grid3-count", "%zu", h.size()); continue; }
                    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < nv; j++) for (size_t k = 0; k < nw; k++) { auto [x, y, z] = h[k + nw * (j + nv * i)]; if (std::abs(x - (a + (b - a) * i / (n - 1.))) > 1e-12 * (std::abs(a) + std::abs(b)) || std::abs(y - (0.5 + 1.5 * j / (nv - 1.))) > 1e-13 || std::abs(z - (-1 + 5. * k / (nw - 1.))) > 1e-13) mc::fail("grid3-value", "%zu %zu %zu", i, j, k); }
                }
            }
            catch (const std::exception &e) { if (n >= 2 && nv >= 2) mc::fail("grid-refused", "%s", e.what()); }
        }
    }
    for (int a = -3; a <= 3; a++) for (int b = a - 1; b <= a + 6; b++)
    {
        mc::at("integers %d..%d", a, b); mc::step(); mc::state();
        try { auto r = make_range(a, b); if (b <= a) mc::fail("int-small", "%zu", r.size()); else { if ((int)r.size() != b - a + 1) mc::fail("int-count", "%zu", r.size()); for (size_t i = 0; i < r.size(); i++) if (r[i] != a + (int)i) mc::fail("int-value", "%zu", i); } }
        catch (const std::exception &) { if (b > a) mc::fail("int-refused", "refused"); }
    }
    mc::sample();
}
static std::vector<mc::Unit> units()
{
    std::vector<mc::Unit> U; bool T = mc::thorough();
    for (size_t p = 1; p <= (T ? 7 : 5); p++)
    {
        auto s = std::to_string(p);
        U.push_back({"calc1/" + s, [=] { diff_int<1>(p, T ? 3 : 2, 3); }}); U.push_back({"calc2/" + s, [=] { diff_int<2>(p, T ? 3 : 2, 3); }}); U.push_back({"calc3/" + s, [=] { diff_int<3>(p, T ? 3 : 2, 3); }});
        U.push_back({"bezier/" + s, [=] { beziers<2>(p, T ? 3 : 2); beziers<3>(p, 2); }});
    }
    U.push_back({"segments1", segments<1>}); U.push_back({"segments2", segments<2>}); U.push_back({"segments3", segments<3>});
    U.push_back({"conics2", conics<2>}); U.push_back({"conics3", conics<3>});
    U.push_back({"tangents2", tangents<2>}); U.push_back({"tangents3", tangents<3>}); U.push_back({"ranges", ranges});
    return U;
}
MC_MAIN(units)
