// C01: every (rational) B-spline curve / scalar function of the bounded family evaluates, with all
// derivatives, to the textbook definition.
#include "mc.h"
#include "ref.h"
#include <gbs/bscurve.h>
#include <list>
using namespace gbs;

template <typename T> constexpr ref::real TOL = std::is_same_v<T, float> ? 2e-3L : 1e-9L;

template <typename T, size_t dim, typename Crv>
static void check_all(const Crv &c, const std::vector<double> &kflat, size_t p, bool rational,
                      const std::vector<double> &us, size_t dmax, const char *what)
{
    auto k = ref::to_real(c.knotsFlats());
    std::vector<T> ulist(us.begin(), us.end());
    if constexpr (std::is_same_v<T, float>)
        for (auto &u : ulist) u = std::clamp(u, c.bounds()[0], c.bounds()[1]);
    std::vector<std::vector<ref::Val>> refs;
    for (size_t a = 0; a < us.size(); a++)
    {
        T u = ulist[a];
        mc::at("%s p=%zu knots=%s u=%.17g", what, p, ref::str(kflat).c_str(), (double)u);
        auto r = ref::curve(k, p, c.poles(), rational, u, dmax);
        std::vector<std::array<T, dim>> CK(dmax + 1);
        for (auto &x : CK) x.fill(T(12345));
        c.derivatives(u, dmax, CK.data());
        mc::step();
        size_t dv = rational ? std::min<size_t>(dmax, 7) : dmax;
        for (size_t d = 0; d <= dmax; d++)
        {
            if (d <= dv)
            {
                auto x = c.value(u, d);
                mc::step();
                if (!ref::close(x, r[d], TOL<T>))
                    mc::fail("value", "d=%zu got %s expected %s", d, ref::str(x).c_str(), ref::str(r[d].v).c_str());
                auto y = c(u, d);
                for (size_t i = 0; i < dim; i++)
                    if (!(std::fabs((double)y[i] - (double)x[i]) <= (double)TOL<T> * (1e-9 + std::fabs((double)x[i]))))
                        mc::fail("call-operator", "d=%zu operator() %s value() %s", d, ref::str(y).c_str(), ref::str(x).c_str());
                mc::outcome(mc::mixd(d * 31 + a, x[0]));
            }
            if (!ref::close(CK[d], r[d], TOL<T>))
                mc::fail("derivatives", "d=%zu got %s expected %s", d, ref::str(CK[d]).c_str(), ref::str(r[d].v).c_str());
        }
        // derivatives(n) for every n is the prefix
        for (size_t n = 0; n < dmax && n < 4; n++)
        {
            std::vector<std::array<T, dim>> C2(n + 2);
            for (auto &x : C2) x.fill(T(777));
            c.derivatives(u, n, C2.data());
            mc::step();
            for (size_t d = 0; d <= n; d++)
                if (!ref::close(C2[d], r[d], TOL<T>))
                    mc::fail("derivatives-prefix", "n=%zu d=%zu got %s expected %s", n, d, ref::str(C2[d]).c_str(), ref::str(r[d].v).c_str());
            for (size_t i = 0; i < dim; i++)
                if (C2[n + 1][i] != T(777)) mc::fail("derivatives-overrun", "n=%zu wrote past the n+1 requested points", n);
        }
        refs.push_back(r);
        mc::state();
    }
    // ends
    for (size_t d = 0; d <= std::min<size_t>(dmax, 3); d++)
    {
        mc::at("%s p=%zu knots=%s begin/end d=%zu", what, p, ref::str(kflat).c_str(), d);
        auto b = c.begin(d);
        auto e = c.end(d);
        mc::step(2);
        auto rb = ref::curve(k, p, c.poles(), rational, k.front(), d), re = ref::curve(k, p, c.poles(), rational, k.back(), d);
        if (!ref::close(b, rb[d], TOL<T>)) mc::fail("begin", "d=%zu got %s expected %s", d, ref::str(b).c_str(), ref::str(rb[d].v).c_str());
        if (!ref::close(e, re[d], TOL<T>)) mc::fail("end", "d=%zu got %s expected %s", d, ref::str(e).c_str(), ref::str(re[d].v).c_str());
    }
    // multi-parameter evaluation, both branches of the size gate, vector and list
    for (size_t d = 0; d <= std::min<size_t>(dmax, 3); d++)
    {
        mc::at("%s p=%zu knots=%s values(d=%zu)", what, p, ref::str(kflat).c_str(), d);
        auto v = c.values(ulist, d);
        std::list<T> ll(ulist.begin(), ulist.end());
        auto w = c.values(ll, d);
        mc::step(2);
        if (v.size() != ulist.size() || w.size() != ulist.size())
        {
            mc::fail("values-size", "got %zu,%zu results for %zu parameters", v.size(), w.size(), ulist.size());
            continue;
        }
        for (size_t a = 0; a < v.size(); a++)
        {
            if (!ref::close(v[a], refs[a][d], TOL<T>)) mc::fail("values", "index %zu u=%.17g got %s expected %s", a, (double)ulist[a], ref::str(v[a]).c_str(), ref::str(refs[a][d].v).c_str());
            if (!ref::close(w[a], refs[a][d], TOL<T>)) mc::fail("values-list", "index %zu got %s expected %s", a, ref::str(w[a]).c_str(), ref::str(refs[a][d].v).c_str());
        }
    }
    // derivatives with respect to the arc length, where the speed is not degenerate
    if (dim >= 2 && !std::is_same_v<T, float>)
    {
        std::vector<T> ok;
        std::vector<std::array<ref::rvec, 2>> expect;
        for (size_t a = 0; a < ulist.size(); a++)
        {
            if (refs[a].size() < 3) break;
            auto &c1 = refs[a][1].v, &c2 = refs[a][2].v;
            ref::real s2 = 0, dot = 0, mg = 0;
            for (size_t i = 0; i < dim; i++) { s2 += c1[i] * c1[i]; dot += c1[i] * c2[i]; mg += refs[a][1].mag[i] * refs[a][1].mag[i]; }
            if (s2 < 1e-4 * mg || s2 < 1e-6) continue;
            ref::real s = std::sqrt(s2);
            std::array<ref::rvec, 2> e;
            ref::real m2 = 0;
            for (size_t i = 0; i < dim; i++)
            {
                e[0].push_back(c1[i] / s);
                e[1].push_back((c2[i] * s2 - c1[i] * dot) / (s2 * s2));
                m2 += refs[a][2].mag[i] / s2;
            }
            T u = ulist[a];
            mc::at("%s p=%zu knots=%s d_dm u=%.17g", what, p, ref::str(kflat).c_str(), (double)u);
            auto x1 = c.d_dm(u), x2 = c.d_dm2(u);
            mc::step(2);
            for (size_t i = 0; i < dim; i++)
            {
                if (!(std::fabs(x1[i] - e[0][i]) <= 1e-7L)) mc::fail("d_dm", "got %s expected %s", ref::str(x1).c_str(), ref::str(e[0]).c_str());
                if (!(std::fabs(x2[i] - e[1][i]) <= 1e-6L * (1 + m2))) mc::fail("d_dm2", "got %s expected %s", ref::str(x2).c_str(), ref::str(e[1]).c_str());
            }
            ok.push_back(u);
        }
        auto l1 = c.d_dms(ok), l2 = c.d_dm2s(ok);
        mc::step(2);
        for (size_t a = 0; a < ok.size(); a++)
            for (size_t i = 0; i < dim; i++)
            {
                if (!(std::fabs(l1[a][i] - c.d_dm(ok[a])[i]) <= 1e-9)) mc::fail("d_dms", "index %zu", a);
                if (!(std::fabs(l2[a][i] - c.d_dm2(ok[a])[i]) <= 1e-9 * (1 + std::fabs(l2[a][i])))) mc::fail("d_dm2s", "index %zu", a);
            }
    }
    // outside the bounds: an error, never a value
    {
        auto [a, b] = c.bounds();
        T h = std::max<T>(T(b - a), 1);
        for (T u : {T(a - h), T(a - h * T(1e-3)), T(b + h * T(1e-3)), T(b + h), T(1e30), T(-1e30)})
            for (size_t d = 0; d < 3; d++)
            {
                mc::at("%s p=%zu knots=%s out of bounds u=%g d=%zu", what, p, ref::str(kflat).c_str(), (double)u, d);
                int thrown = 0;
                try { c.value(u, d); } catch (const std::exception &) { thrown |= 1; }
                std::vector<std::array<T, dim>> CK(d + 1);
                try { c.derivatives(u, d, CK.data()); } catch (const std::exception &) { thrown |= 2; }
                try { c.values(std::vector<T>{a, u, b}, d); } catch (const std::exception &) { thrown |= 4; }
                mc::step(3);
                if (thrown != 7) mc::fail("out-of-bounds", "no error raised (mask %d)", thrown);
            }
    }
}

static void unit(size_t p, size_t m, int spacing, size_t dmax)
{
    auto br = ref::breaks(m, spacing);
    auto us = ref::probes(br);
    size_t mmax = p + 1;
    for (auto &mu : ref::mults(m, mmax))
    {
        auto k = ref::flat(br, mu, p);
        size_t n = k.size() - p - 1;
        // all unit pole vectors: by linearity every polynomial spline on these knots
        for (size_t i = 0; i < n; i++)
        {
            std::vector<std::array<double, 1>> P(n, {0.});
            P[i] = {1.};
            BSCurve<double, 1> c(P, k, p);
            for (double u : us)
            {
                mc::at("unit pole %zu p=%zu knots=%s u=%.17g", i, p, ref::str(k).c_str(), u);
                auto r = ref::curve(ref::to_real(k), p, P, false, u, dmax);
                std::vector<std::array<double, 1>> CK(dmax + 1);
                c.derivatives(u, dmax, CK.data());
                mc::step();
                for (size_t d = 0; d <= dmax; d++)
                {
                    auto x = c.value(u, d);
                    mc::step();
                    ref::Val rr = r[d];
                    // basis functions of one pole: scale by the largest basis derivative at u
                    auto B = ref::basis(ref::to_real(k), p, u, d);
                    ref::real mg = 0;
                    for (auto b : B[d]) mg = std::max(mg, std::fabs(b));
                    rr.mag[0] = mg;
                    if (!ref::close(x, rr, 1e-9L)) mc::fail("unit-value", "d=%zu got %.17g expected %.17Lg", d, x[0], rr.v[0]);
                    if (!ref::close(CK[d], rr, 1e-9L)) mc::fail("unit-derivatives", "d=%zu got %.17g expected %.17Lg", d, CK[d][0], rr.v[0]);
                    if (d > p && x[0] != 0.) mc::fail("unit-zero", "derivative %zu of a degree %zu spline is %g", d, p, x[0]);
                }
                mc::state();
                mc::sample();
            }
            // scalar function wrapper
            std::vector<double> fp(n, 0.);
            fp[i] = 1;
            BSCfunction<double> f(fp, k, p);
            for (double u : us)
                for (size_t d = 0; d <= std::min<size_t>(dmax, 3); d++)
                {
                    auto r = c.value(u, d)[0];
                    if (!(std::fabs(f(u, d) - r) <= 1e-12 * (1 + std::fabs(r))) || !(std::fabs(f.value(u, d) - r) <= 1e-12 * (1 + std::fabs(r)))) mc::fail("function", "f(%g,%zu)=%g curve=%g", u, d, f(u, d), r);
                    mc::step(2);
                }
            if (std::fabs(f.begin() - c.begin()[0]) > 1e-12 || std::fabs(f.end() - c.end()[0]) > 1e-12) mc::fail("function-ends", "begin/end");
            if (f.bounds()[0] != br.front() || f.bounds()[1] != br.back()) mc::fail("function-bounds", "bounds");
            try { f(br.back() + 1.); mc::fail("function-oob", "no error outside the bounds"); } catch (const std::exception &) {}
        }
        check_all<double, 3>(BSCurve<double, 3>(ref::poles<3>(n), k, p), k, p, false, us, dmax, "poly3");
        check_all<double, 2>(BSCurve<double, 2>(ref::poles<2>(n, 1), k, p), k, p, false, us, dmax, "poly2");
        check_all<double, 3>(BSCurveRational<double, 3>(ref::hpoles<3>(n), k, p), k, p, true, us, dmax, "rat3");
        check_all<double, 2>(BSCurveRational<double, 2>(ref::hpoles<2>(n, 2), k, p), k, p, true, us, dmax, "rat2");
        if (p <= 4 && spacing != 2)
        {
            std::vector<float> kf(k.begin(), k.end());
            auto P = ref::poles<2>(n);
            std::vector<std::array<float, 2>> Pf(n);
            std::vector<std::array<float, 3>> Hf(n);
            auto H = ref::hpoles<2>(n);
            for (size_t i = 0; i < n; i++) { Pf[i] = {(float)P[i][0], (float)P[i][1]}; Hf[i] = {(float)H[i][0], (float)H[i][1], (float)H[i][2]}; }
            auto uf = ref::probes(br, false);
            check_all<float, 2>(BSCurve<float, 2>(Pf, kf, p), k, p, false, uf, std::min<size_t>(dmax, 3), "polyf");
            check_all<float, 2>(BSCurveRational<float, 2>(Hf, kf, p), k, p, true, uf, std::min<size_t>(dmax, 2), "ratf");
        }
        // projected poles / weights describe the homogeneous poles
        {
            BSCurveRational<double, 3> c(ref::hpoles<3>(n), k, p);
            auto w = c.weights();
            auto pp = c.polesProjected();
            mc::step(2);
            BSCurveRational<double, 3> c2(pp, k, w, p);
            for (size_t i = 0; i < n; i++)
            {
                if (w[i] != ref::weight(i)) mc::fail("weights", "weight %zu = %g expected %g", i, w[i], ref::weight(i));
                for (size_t j = 0; j < 3; j++)
                {
                    if (std::fabs(pp[i][j] - ref::coord(i, j)) > 1e-12) mc::fail("poles-projected", "pole %zu", i);
                    if (std::fabs(c2.poles()[i][j] - c.poles()[i][j]) > 1e-12) mc::fail("rational-ctor", "pole %zu", i);
                }
            }
            // unit weights: rational == polynomial
            BSCurve<double, 3> cp(ref::poles<3>(n), k, p);
            BSCurveRational<double, 3> cr(cp);
            for (double u : us)
                for (size_t d = 0; d <= std::min<size_t>(dmax, 3); d++)
                {
                    auto r = ref::curve(ref::to_real(k), p, cr.poles(), true, u, d);
                    auto x = cr.value(u, d);
                    mc::step();
                    if (!ref::close(x, r[d], 1e-9L)) mc::fail("rational-from-poly", "u=%g d=%zu", u, d);
                }
        }
    }
}

// high degrees, including the capacity limit of the stack evaluator and above it
static void high(size_t p, size_t m, int spacing)
{
    auto br = ref::breaks(m, spacing);
    std::vector<size_t> mu(m, 1);
    for (size_t rep = 0; rep < 2; rep++)
    {
        for (auto &x : mu) x = rep ? std::max<size_t>(1, p / 2) : 1;
        auto k = ref::flat(br, mu, p);
        size_t n = k.size() - p - 1;
        auto us = ref::probes(br, false);
        if (p > 24) us = {br.front(), 0.5 * (br.front() + br.back()), br.back()};
        auto P = ref::poles<2>(n);
        for (auto &x : P) { x[0] = std::sin(x[0]); x[1] = std::cos(3 * x[1]); }
        std::vector<std::array<double, 3>> H(n);
        for (size_t i = 0; i < n; i++) { double w = ref::weight(i); H[i] = {P[i][0] * w, P[i][1] * w, w}; }
        BSCurve<double, 2> c(P, k, p);
        BSCurveRational<double, 2> r(H, k, p);
        for (double u : us)
        {
            mc::at("high degree p=%zu knots=%s u=%.17g", p, ref::str(k).c_str(), u);
            size_t dmax = p > 24 ? (mc::thorough() ? 1 : 0) : std::min<size_t>(24, p + 1);
            auto rp = ref::curve(ref::to_real(k), p, P, false, u, dmax), rr = ref::curve(ref::to_real(k), p, H, true, u, dmax);
            std::vector<std::array<double, 2>> A(dmax + 1), B(dmax + 1);
            c.derivatives(u, dmax, A.data());
            r.derivatives(u, dmax, B.data());
            mc::step(2);
            for (size_t d = 0; d <= dmax; d++)
            {
                if (!ref::close(A[d], rp[d], 1e-7L)) mc::fail("high-derivatives", "d=%zu got %s expected %s", d, ref::str(A[d]).c_str(), ref::str(rp[d].v).c_str());
                if (!ref::close(B[d], rr[d], 1e-7L)) mc::fail("high-rational-derivatives", "d=%zu got %s expected %s mag %s", d, ref::str(B[d]).c_str(), ref::str(rr[d].v).c_str(), ref::str(rr[d].mag).c_str());
                if (p <= 24 || d == 0)
                {
                    auto x = c.value(u, d);
                    mc::step();
                    if (!ref::close(x, rp[d], 1e-7L)) mc::fail("high-value", "d=%zu got %s expected %s", d, ref::str(x).c_str(), ref::str(rp[d].v).c_str());
                    if (d <= 5)
                    {
                        auto y = r.value(u, d);
                        mc::step();
                        if (!ref::close(y, rr[d], 1e-7L)) mc::fail("high-rational-value", "d=%zu got %s expected %s", d, ref::str(y).c_str(), ref::str(rr[d].v).c_str());
                    }
                }
            }
            mc::state();
        }
        if (m == 0) break;
    }
}

// rational derivative of every order on a low degree curve (all the quotient-rule depth there is)
static void rational_orders(size_t dtop)
{
    std::vector<double> k = ref::flat(ref::breaks(1, 0), {1}, 2);
    size_t n = k.size() - 3;
    std::vector<std::array<double, 3>> H(n);
    for (size_t i = 0; i < n; i++) { double w = 1 + 0.05 * (i % 3); H[i] = {ref::coord(i, 0) * w, ref::coord(i, 1) * w, w}; }
    BSCurveRational<double, 2> r(H, k, 2);
    for (double u : {0., 0.2, 0.5, 0.8, 1.})
        for (size_t n_ = 0; n_ <= dtop; n_++)
        {
            mc::at("rational orders up to %zu u=%g", n_, u);
            auto rr = ref::curve(ref::to_real(k), 2, H, true, u, n_);
            std::vector<std::array<double, 2>> B(n_ + 1);
            r.derivatives(u, n_, B.data());
            mc::step();
            mc::state();
            for (size_t d = 0; d <= n_; d++)
                if (!ref::close(B[d], rr[d], 1e-6L)) mc::fail("rational-orders", "d=%zu got %s expected %s", d, ref::str(B[d]).c_str(), ref::str(rr[d].v).c_str());
            if (n_ <= 14)
            {
                auto x = r.value(u, n_);
                mc::step();
                if (!ref::close(x, rr[n_], 1e-6L)) mc::fail("rational-orders-value", "d=%zu got %s expected %s", n_, ref::str(x).c_str(), ref::str(rr[n_].v).c_str());
            }
        }
}

static std::vector<mc::Unit> units()
{
    std::vector<mc::Unit> u;
    size_t pmax = mc::thorough() ? 7 : 5;
    for (size_t m = 0; m <= (mc::thorough() ? 3 : 3); m++)
        for (size_t p = 1; p <= pmax; p++)
            for (int s = 0; s < 3; s++)
            {
                // bound: p+m <= 6 (quick) / 8 (thorough)
                if (p + 2 * m > (mc::thorough() ? 10u : 7u) && !(m <= 1)) continue;
                char b[64];
                snprintf(b, 64, "curve_p%zu_m%zu_s%d", p, m, s);
                u.push_back({b, [=] { unit(p, m, s, p + 2); }});
            }
    for (size_t p = 25; p >= 6; p--)
    {
        char b[64];
        snprintf(b, 64, "high_p%zu", p);
        u.push_back({b, [=] { high(p, 0, 0); if (p <= 24) { high(p, 1, 1); high(p, 2, 0); } }});
    }
    std::stable_partition(u.begin(), u.end(), [](auto &x) { return x.name.rfind("high_p2", 0) == 0; });
    u.push_back({"rational_orders", [] { rational_orders(24); }});
    return u;
}
MC_MAIN(units)
