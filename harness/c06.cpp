// C06: every interpolation routine meets every constraint it was given, for every configuration of
// the bounded family for which the problem has a well conditioned solution.
#include "mc.h"
#include "ref.h"
#include <gbs/bscinterp.h>
#include <gbs/bssinterp.h>
#include <Eigen/Dense>
using namespace gbs;

using LM = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
static long double cond(const LM &A)
{
    if (A.rows() != A.cols()) return INFINITY;
    Eigen::FullPivLU<LM> lu(A);
    if (!lu.isInvertible()) return INFINITY;
    LM I = lu.inverse();
    return A.cwiseAbs().rowwise().sum().maxCoeff() * I.cwiseAbs().rowwise().sum().maxCoeff();
}
static constexpr ref::real TOL = 1e-9L;
struct C { double u; size_t d; };

template <size_t dim>
static void expect(const BSCurve<double, dim> &c, double u, size_t d, const std::array<double, dim> &v, const char *key, const std::string &what)
{
    auto r = ref::curve(ref::to_real(c.knotsFlats()), c.degree(), c.poles(), false, u, d)[d];
    auto x = c.value(u, d);
    mc::step();
    for (size_t i = 0; i < dim; i++)
    {
        ref::real t = TOL * (1 + r.mag[i] + std::fabs(v[i]));
        if (!(std::fabs(r.v[i] - v[i]) <= t) || !(std::fabs(x[i] - v[i]) <= t))
            mc::fail(key, "%s: derivative %zu at u=%.17g is %s expected %s", what.c_str(), d, u, ref::str(x).c_str(), ref::str(v).c_str());
    }
    mc::outcome(mc::mixd(d, x[0]));
}
// own parametrization oracle
template <size_t dim>
static std::vector<double> own_param(const std::vector<std::array<double, dim>> &P, KnotsCalcMode m, bool unit)
{
    std::vector<long double> k{0};
    for (size_t i = 1; i < P.size(); i++)
    {
        long double d = 0;
        for (size_t c = 0; c < dim; c++) d += (P[i][c] - P[i - 1][c]) * (long double)(P[i][c] - P[i - 1][c]);
        d = std::sqrt(d);
        k.push_back(k.back() + (m == KnotsCalcMode::CHORD_LENGTH ? d : m == KnotsCalcMode::CENTRIPETAL ? std::sqrt(d) : 1.L / (P.size() - 1)));
    }
    std::vector<double> r;
    for (auto x : k) r.push_back((double)(unit ? x / k.back() : x));
    return r;
}
static const KnotsCalcMode MODES[3] = {KnotsCalcMode::EQUALLY_SPACED, KnotsCalcMode::CHORD_LENGTH, KnotsCalcMode::CENTRIPETAL};

template <size_t dim>
static void check_param(const std::vector<std::array<double, dim>> &P)
{
    for (auto m : MODES)
        for (bool unit : {false, true})
        {
            auto a = own_param(P, m, unit), b = curve_parametrization(P, m, unit);
            mc::step();
            bool ok = a.size() == b.size();
            for (size_t i = 0; ok && i < a.size(); i++) ok = std::fabs(a[i] - b[i]) <= 1e-12 * (1 + std::fabs(a[i]));
            if (!ok) mc::fail("parametrization", "mode %d unit %d", (int)m, unit);
        }
}

template <size_t dim>
static void points(size_t n, size_t p)
{
    auto P = ref::poles<dim>(n, p);
    std::string w = std::to_string(n) + " points degree " + std::to_string(p);
    mc::at("%s dim %zu", w.c_str(), dim);
    check_param(P);
    for (auto m : MODES)
    {
        mc::at("%s dim %zu mode %d", w.c_str(), dim, (int)m);
        auto u = own_param(P, m, true);
        auto c = interpolate<double, dim>(P, p, m);
        std::vector<constrType<double, dim, 1>> Q(n);
        for (size_t i = 0; i < n; i++) Q[i] = {P[i]};
        auto c1 = interpolate<double, dim>(Q, p, m);
        if (c.degree() != p || c.poles().size() != n) mc::fail("points-def", "degree %zu, %zu poles", c.degree(), c.poles().size());
        if (c.poles() != c1.poles()) mc::fail("points-forms", "point and constraint forms differ");
        if (std::fabs(c.bounds()[0]) > 1e-14 || std::fabs(c.bounds()[1] - 1) > 1e-14) mc::fail("points-bounds", "%s", ref::str(c.bounds()).c_str());
        for (size_t i = 0; i < n; i++) expect(c, std::min(std::max(u[i], c.bounds()[0]), c.bounds()[1]), 0, P[i], "points-mode", "point " + std::to_string(i));
        mc::state();
    }
    for (int sp = 0; sp < 3; sp++)
    {
        auto u = ref::breaks(n - 2, sp);
        mc::at("%s dim %zu params %s", w.c_str(), dim, ref::str(u).c_str());
        auto c = interpolate<double, dim>(P, u, p);
        if (c.degree() != p || c.poles().size() != n || c.bounds()[0] != u.front() || c.bounds()[1] != u.back()) mc::fail("points-def", "degree, poles or bounds");
        for (size_t i = 0; i < n; i++) expect(c, u[i], 0, P[i], "points-u", "point " + std::to_string(i));
        // a spline of the space is reproduced (well conditioned cases)
        auto k = ref::to_real(c.knotsFlats());
        LM A(n, n);
        for (size_t i = 0; i < n; i++) { auto B = ref::basis(k, p, u[i], 0); for (size_t j = 0; j < n; j++) A(i, j) = B[0][j]; }
        if (n < 40 && cond(A) < 1e5L)
        {
            auto S = ref::poles<dim>(n, 5 + p);
            std::vector<std::array<double, dim>> D(n);
            for (size_t i = 0; i < n; i++) { auto r = ref::curve(k, p, S, false, u[i], 0)[0]; for (size_t t = 0; t < dim; t++) D[i][t] = (double)r.v[t]; }
            auto g = interpolate<double, dim>(D, u, p);
            for (size_t i = 0; i < n; i++) for (size_t t = 0; t < dim; t++)
                if (!(std::fabs(g.poles()[i][t] - S[i][t]) <= 1e-8 * (1 + std::fabs(S[i][t])))) mc::fail("reproduce", "pole %zu", i);
            mc::step();
        }
        // scalar function form and every unit data vector
        if (dim == 2 && n <= 8)
            for (size_t e = 0; e < n; e++)
            {
                std::vector<double> F(n, 0.);
                F[e] = 1;
                auto f = interpolate<double>(F, u, p);
                for (size_t i = 0; i < n; i++) { mc::step(); if (!(std::fabs(f(u[i]) - F[i]) <= 1e-9)) mc::fail("function", "unit datum %zu: f(u%zu)=%g", e, i, f(u[i])); }
            }
        mc::state();
    }
    mc::sample();
}

template <size_t nc>
static void hermite(size_t n)
{
    std::vector<constrType<double, 2, nc>> Q(n);
    for (size_t i = 0; i < n; i++) for (size_t d = 0; d < nc; d++) for (size_t c = 0; c < 2; c++) Q[i][d][c] = ref::coord(3 * i + d, c) * (d ? 0.7 : 1);
    std::vector<std::array<double, 2>> P(n);
    for (size_t i = 0; i < n; i++) P[i] = Q[i][0];
    for (int form = 0; form < 6; form++)
    {
        std::vector<double> u = form < 3 ? own_param(P, MODES[form], false) : ref::breaks(n - 2, form - 3);
        mc::at("hermite nc=%zu n=%zu form %d params %s", nc, n, form, ref::str(u).c_str());
        auto c = form < 3 ? interpolate<double, 2, nc>(Q, MODES[form]) : interpolate<double, 2, nc>(Q, u);
        if (c.degree() != 2 * nc - 1) mc::fail("hermite-degree", "degree %zu", c.degree());
        for (size_t i = 0; i < n; i++) for (size_t d = 0; d < nc; d++)
            expect(c, std::min(std::max(u[i], c.bounds()[0]), c.bounds()[1]), d, Q[i][d], "hermite", "point " + std::to_string(i));
        mc::state();
        if constexpr (nc <= 3)
            if (n >= 3)
            {
                mc::at("hermite+computed nc=%zu n=%zu form %d params %s", nc, n, form, ref::str(u).c_str());
                auto g = form < 3 ? interpolate<double, 2, nc>(Q, MODES[form], true) : interpolate<double, 2, nc>(Q, u, true);
                if (g.degree() != 2 * nc + 1) mc::fail("hermite-computed-degree", "degree %zu", g.degree());
                for (size_t i = 0; i < n; i++) for (size_t d = 0; d < nc; d++)
                    expect(g, std::min(std::max(u[i], g.bounds()[0]), g.bounds()[1]), d, Q[i][d], "hermite-computed", "point " + std::to_string(i));
                mc::state();
            }
        // every unit datum (linearity)
        if (n <= 4 && form >= 3)
            for (size_t e = 0; e < n * nc; e++)
            {
                auto U = Q;
                for (auto &x : U) for (auto &y : x) y = {0, 0};
                U[e / nc][e % nc] = {1, -2};
                auto h = interpolate<double, 2, nc>(U, u);
                for (size_t i = 0; i < n; i++) for (size_t d = 0; d < nc; d++) expect(h, u[i], d, U[i][d], "hermite-unit", "unit datum " + std::to_string(e));
            }
    }
    mc::sample();
}

// mixed constraints: all ordered selections of r constraints among the alphabet
static void mixed(size_t p, size_t r, size_t first, double a, double b)
{
    std::vector<C> al;
    for (double t : {0., 1.}) for (size_t d : {1, 2}) al.push_back({t, d});
    for (double t : {0.3, 0.65}) for (size_t d : {0, 1, 2}) al.push_back({t, d});
    std::vector<size_t> sel;
    std::function<void()> rec = [&] {
        if (sel.size() == r)
        {
            bsc_bound<double, 2> B0{a, {ref::coord(50, 0), ref::coord(50, 1)}}, B1{b, {ref::coord(51, 0), ref::coord(51, 1)}};
            std::vector<bsc_constraint<double, 2>> L;
            std::string s;
            std::vector<C> cs{{a, 0}};
            std::vector<std::array<double, 2>> vals{B0.second};
            for (auto i : sel)
            {
                double u = al[i].u == 1 ? b : a + al[i].u * (b - a);
                std::array<double, 2> v{ref::coord(60 + i, 0), ref::coord(60 + i, 1)};
                L.push_back({u, v, al[i].d});
                cs.push_back({u, al[i].d});
                vals.push_back(v);
                s += " (u=" + std::to_string(u) + ",d=" + std::to_string(al[i].d) + ")";
            }
            cs.push_back({b, 0});
            vals.push_back(B1.second);
            mc::at("mixed degree %zu on [%g,%g]:%s", p, a, b, s.c_str());
            mc::state();
            bool thrown = false;
            try
            {
                auto c = interpolate<double, 2>(B0, B1, L, p);
                if (r + 2 < p + 1) mc::fail("mixed-underdetermined", "accepted");
                size_t n = cs.size();
                auto k = ref::to_real(c.knotsFlats());
                LM A(n, n);
                if (c.poles().size() != n || c.degree() != p) { mc::fail("mixed-def", "degree %zu, %zu poles", c.degree(), c.poles().size()); return; }
                for (size_t i = 0; i < n; i++) { auto N = ref::basis(k, p, cs[i].u, cs[i].d); for (size_t j = 0; j < n; j++) A(i, j) = N[cs[i].d][j]; }
                if (cond(A) < 1e8L)
                {
                    for (size_t i = 0; i < n; i++) expect(c, cs[i].u, cs[i].d, vals[i], "mixed", "constraint " + std::to_string(i));
                    mc::trace();
                    mc::sample();
                }
            }
            catch (const std::invalid_argument &) { thrown = true; }
            if (thrown && r + 2 >= p + 1) mc::fail("mixed-refused", "enough constraints but refused");
            return;
        }
        for (size_t i = 0; i < al.size(); i++)
        {
            if (sel.empty() && first != i && r > 0 && first < al.size()) continue;
            if (std::find(sel.begin(), sel.end(), i) != sel.end()) continue;
            sel.push_back(i);
            rec();
            sel.pop_back();
        }
    };
    rec();
}

// general constraint solver on given knots: sizes through the dense, banded and sparse paths, with
// rows in natural, reversed and interleaved order, derivative constraints spread over the range
static void general(size_t n, size_t p, int sp, int order, int kind)
{
    // knots as averaged parameters; constraints: points at n parameters, or value+derivative pairs
    std::vector<constrPoint<double, 2>> Q;
    std::vector<double> k;
    if (kind == 0)
    {
        auto u = ref::breaks(n - 2, sp);
        k = build_simple_mult_flat_knots(u, p);
        for (size_t i = 0; i < n; i++) Q.push_back({{ref::coord(i, 0), ref::coord(i, 1)}, u[i], 0});
    }
    else
    {
        size_t m = n / 2; // cubic Hermite structure
        auto u = ref::breaks(m - 2, sp);
        std::vector<size_t> mu(m, 2);
        mu.front() = mu.back() = 4;
        k = flat_knots(u, mu);
        for (size_t i = 0; i < m; i++) for (size_t d = 0; d < 2; d++) Q.push_back({{ref::coord(2 * i + d, 0), ref::coord(2 * i + d, 1)}, u[i], d});
        p = 3;
    }
    if (order == 1) std::reverse(Q.begin(), Q.end());
    if (order == 2) { std::vector<constrPoint<double, 2>> R; for (size_t s = 0; s < 3; s++) for (size_t i = s; i < Q.size(); i += 3) R.push_back(Q[i]); Q = R; }
    mc::at("general n=%zu p=%zu spacing %d order %d kind %d", Q.size(), p, sp, order, kind);
    mc::state();
    auto poles = build_poles(Q, k, p);
    BSCurve<double, 2> c(poles, k, p);
    for (auto &q : Q) expect(c, q.u, q.d, q.v, "general", "constraint");
    mc::sample();
}
// structured solver, one and several columns, through the size thresholds
static void columns(size_t n, size_t p, int sp)
{
    auto u = ref::breaks(n - 2, sp);
    auto k = build_simple_mult_flat_knots(u, p);
    std::vector<std::vector<constrType<double, 2, 1>>> cols(3, std::vector<constrType<double, 2, 1>>(n));
    for (size_t c = 0; c < 3; c++) for (size_t i = 0; i < n; i++) cols[c][i][0] = {ref::coord(i + 17 * c, 0), ref::coord(i + 17 * c, 1)};
    mc::at("columns n=%zu p=%zu spacing %d", n, p, sp);
    mc::state();
    auto all = build_poles<double, 2, 1>(cols, k, u, p);
    if (all.size() != 3 * n) { mc::fail("columns-size", "%zu", all.size()); return; }
    for (size_t c = 0; c < 3; c++)
    {
        std::vector<std::array<double, 2>> P(all.begin() + c * n, all.begin() + (c + 1) * n);
        BSCurve<double, 2> crv(P, k, p);
        for (size_t i = 0; i < n; i++) expect(crv, u[i], 0, cols[c][i][0], "columns", "column " + std::to_string(c));
        auto one = build_poles<double, 2, 1>(cols[c], k, u, p);
        for (size_t i = 0; i < n; i++) for (size_t d = 0; d < 2; d++) if (!(std::fabs(one[i][d] - P[i][d]) <= 1e-9 * (1 + std::fabs(P[i][d])))) mc::fail("columns-single", "column %zu pole %zu", c, i);
    }
    mc::sample();
}

template <size_t dim>
static void expect_s(const BSSurface<double, dim> &s, double u, double v, size_t du, size_t dv, const std::array<double, dim> &e, const char *key)
{
    auto r = ref::surf(ref::to_real(s.knotsFlatsU()), ref::to_real(s.knotsFlatsV()), s.degreeU(), s.degreeV(), s.poles(), false, u, v, du, dv).back();
    auto x = s.value(u, v, du, dv);
    mc::step();
    for (size_t i = 0; i < dim; i++)
    {
        ref::real t = TOL * (1 + r.mag[i] + std::fabs(e[i]));
        if (!(std::fabs(r.v[i] - e[i]) <= t) || !(std::fabs(x[i] - e[i]) <= t))
            mc::fail(key, "derivative (%zu,%zu) at (%.17g,%.17g) is %s expected %s", du, dv, u, v, ref::str(x).c_str(), ref::str(e).c_str());
    }
    mc::outcome(mc::mixd(du * 5 + dv, x[0]));
}

static void grid(size_t nu, size_t nv, size_t p, size_t q)
{
    std::vector<std::array<double, 3>> Q(nu * nv);
    for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++) Q[i + nu * j] = {i + 0.2 * std::sin(3. * i + j), 1.4 * j + 0.15 * std::cos(2. * j + i), ref::coord(i + 7 * j, 2)};
    for (auto m : MODES)
    {
        mc::at("grid %zux%zu degrees %zux%zu mode %d", nu, nv, p, q, (int)m);
        mc::state();
        std::vector<long double> U(nu, 0), V(nv, 0);
        for (size_t j = 0; j < nv; j++) { std::vector<std::array<double, 3>> r; for (size_t i = 0; i < nu; i++) r.push_back(Q[i + nu * j]); auto k = own_param(r, m, true); for (size_t i = 0; i < nu; i++) U[i] += k[i] / (long double)nv; }
        for (size_t i = 0; i < nu; i++) { std::vector<std::array<double, 3>> r; for (size_t j = 0; j < nv; j++) r.push_back(Q[i + nu * j]); auto k = own_param(r, m, true); for (size_t j = 0; j < nv; j++) V[j] += k[j] / (long double)nu; }
        auto s = interpolate<double, 3>(Q, nv, p, q, m);
        if (s.degreeU() != p || s.degreeV() != q || s.nPolesU() != nu || s.nPolesV() != nv) mc::fail("grid-def", "degrees or pole counts");
        auto b = s.bounds();
        for (double x : {b[0], b[1] - 1, b[2], b[3] - 1}) if (std::fabs(x) > 1e-14) mc::fail("grid-bounds", "%s", ref::str(b).c_str());
        for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++)
            expect_s(s, std::min(std::max((double)U[i], b[0]), b[1]), std::min(std::max((double)V[j], b[2]), b[3]), 0, 0, Q[i + nu * j], "grid");
        mc::sample();
    }
    // given parameters and knots
    for (int sp = 0; sp < 2; sp++)
    {
        auto u = ref::breaks(nu - 2, sp), v = ref::breaks(nv - 2, 1 - sp);
        mc::at("grid %zux%zu degrees %zux%zu given parameters %d", nu, nv, p, q, sp);
        mc::state();
        auto ku = build_simple_mult_flat_knots(u, p), kv = build_simple_mult_flat_knots(v, q);
        BSSurface<double, 3> s(build_poles(Q, ku, kv, u, v, p, q), ku, kv, p, q);
        for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++) expect_s(s, u[i], v[j], 0, 0, Q[i + nu * j], "grid-params");
        for (size_t e = 0; e < nu * nv && nu * nv <= 12; e++)
        {
            std::vector<std::array<double, 1>> F(nu * nv, {0.});
            F[e] = {1.};
            BSSurface<double, 1> f(build_poles(F, ku, kv, u, v, p, q), ku, kv, p, q);
            for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++) expect_s(f, u[i], v[j], 0, 0, F[i + nu * j], "grid-unit");
        }
        int t = 0;
        auto bad = Q; bad.pop_back();
        try { build_poles(bad, ku, kv, u, v, p, q); } catch (const std::length_error &) { t = 1; }
        if (!t) mc::fail("grid-size", "point count that is no grid accepted");
    }
}

// scattered constraints: n x m poles; constraint set = tensor of per direction constraint lists
static void scattered(size_t nu, size_t nv, size_t p, size_t q, size_t mu, size_t mv, int bnd, int order)
{
    if ((nu - p - 1) % mu || (nv - q - 1) % mv) return;
    std::array<double, 4> b = bnd ? std::array<double, 4>{-1, 2, 3, 3.5} : std::array<double, 4>{0, 1, 0, 1};
    // per direction: values at both ends and interior points; up to two end derivatives
    auto dirs = [](size_t n, size_t deg, double a, double c) {
        std::vector<std::vector<C>> r;
        for (size_t der = 0; der <= std::min<size_t>(deg, 2) && der + 2 <= n; der++)
        {
            std::vector<C> l{{a, 0}, {c, 0}};
            if (der >= 1) l.push_back({a, 1});
            if (der >= 2) l.push_back({c, 1});
            size_t in = n - l.size();
            for (size_t i = 1; i <= in; i++) l.push_back({a + (c - a) * i / (in + 1), 0});
            r.push_back(l);
        }
        return r;
    };
    for (auto &U : dirs(nu, p, b[0], b[1]))
        for (auto &V : dirs(nv, q, b[2], b[3]))
        {
            std::vector<bss_constraint<double, 2>> Q;
            for (auto &y : V) for (auto &x : U) { size_t e = Q.size(); Q.push_back({x.u, y.u, {ref::coord(e, 0), ref::coord(e, 1)}, x.d, y.d}); }
            if (order == 1) std::reverse(Q.begin(), Q.end());
            mc::at("scattered %zux%zu degrees %zux%zu mults %zux%zu bounds %d order %d derivs %zu,%zu", nu, nv, p, q, mu, mv, bnd, order, U.size(), V.size());
            mc::state();
            auto s = interpolate<double, 2>(Q, nv, p, q, b, {mu, mv});
            if (s.bounds() != b || s.degreeU() != p || s.degreeV() != q || s.nPolesU() != nu || s.nPolesV() != nv) mc::fail("scattered-def", "definition");
            size_t n = Q.size();
            LM A(n, n);
            for (size_t e = 0; e < n; e++)
            {
                auto &[x, y, z, dx, dy] = Q[e];
                auto Nu = ref::basis(ref::to_real(s.knotsFlatsU()), p, x, dx), Nv = ref::basis(ref::to_real(s.knotsFlatsV()), q, y, dy);
                for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++) A(e, i + nu * j) = Nu[dx][i] * Nv[dy][j];
            }
            if (!(cond(A) < 1e8L)) continue;
            mc::trace();
            for (auto &[x, y, z, dx, dy] : Q) expect_s(s, x, y, dx, dy, z, "scattered");
            // outside bounds or misshaped sets are refused
            int t = 0;
            auto bad = Q; std::get<0>(bad[0]) = b[1] + 1;
            try { interpolate<double, 2>(bad, nv, p, q, b, {mu, mv}); } catch (const std::invalid_argument &) { t |= 1; }
            bad = Q; bad.pop_back();
            if (bad.size() % nv == 0) t |= 2;
            else try { interpolate<double, 2>(bad, nv, p, q, b, {mu, mv}); } catch (const std::exception &) { t |= 2; }
            if (t != 3) mc::fail("scattered-invalid", "invalid constraint set accepted (mask %d)", t);
            mc::sample();
        }
}

static std::vector<mc::Unit> units()
{
    std::vector<mc::Unit> r;
    bool T = mc::thorough();
    for (size_t p = 1; p <= (T ? 8 : 6); p++)
        for (size_t n = p + 1; n <= (T ? 14u : 10u); n++)
            r.push_back({"points-p" + std::to_string(p) + "-n" + std::to_string(n), [=] { points<2>(n, p); points<3>(n, p); }});
    for (size_t n : {20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200}) for (size_t p : {1, 2, 3, 5}) r.push_back({"points-p" + std::to_string(p) + "-N" + std::to_string(n), [=] { points<3>(n, p); }});
    for (size_t n = 2; n <= (T ? 9u : 6u); n++)
    {
        auto t = std::to_string(n);
        r.push_back({"hermite1-" + t, [=] { hermite<1>(n); }});
        r.push_back({"hermite2-" + t, [=] { hermite<2>(n); }});
        r.push_back({"hermite3-" + t, [=] { hermite<3>(n); }});
        r.push_back({"hermite4-" + t, [=] { hermite<4>(n); }});
    }
    for (size_t n : {30, 70, 140}) { auto t = std::to_string(n); r.push_back({"hermite1-" + t, [=] { hermite<1>(n); }}); r.push_back({"hermite2-" + t, [=] { hermite<2>(n); }}); r.push_back({"hermite3-" + t, [=] { hermite<3>(n); }}); }
    for (size_t p = 1; p <= 5; p++)
        for (size_t k = 0; k <= (T ? 5u : 4u); k++)
            for (size_t f = 0; f < (k > 2 ? 10u : 1u); f++)
                r.push_back({"mixed-p" + std::to_string(p) + "-r" + std::to_string(k) + "-f" + std::to_string(f), [=] { mixed(p, k, k > 2 ? f : 99, 0, 1); if (k <= 3) mixed(p, k, k > 2 ? f : 99, -2, 1.5); }});
    for (size_t n : {4, 6, 8, 12, 16, 24, 40, 64, 66, 99, 100, 101, 130}) for (int o = 0; o < 3; o++)
        r.push_back({"general-n" + std::to_string(n) + "-o" + std::to_string(o), [=] { for (int sp = 0; sp < 3; sp++) { for (size_t p = 1; p <= 5; p++) if (n > p) { general(n, p, sp, o, 0); } general(n, 3, sp, o, 1); } }});
    for (size_t n : {2, 3, 5, 8, 16, 33, 64, 65, 130}) r.push_back({"columns-n" + std::to_string(n), [=] { for (size_t p = 1; p <= 5; p++) if (n > p) for (int sp = 0; sp < 3; sp++) columns(n, p, sp); }});
    for (size_t nu = 2; nu <= (T ? 6u : 5u); nu++) for (size_t nv = 2; nv <= (T ? 6u : 5u); nv++)
        r.push_back({"grid-" + std::to_string(nu) + "x" + std::to_string(nv), [=] { for (size_t p = 1; p < nu && p <= 4; p++) for (size_t q = 1; q < nv && q <= 4; q++) grid(nu, nv, p, q); }});
    r.push_back({"grid-20x9", [=] { grid(20, 9, 3, 2); }});
    for (size_t nu = 2; nu <= 6; nu++) for (size_t nv = 2; nv <= (T ? 6u : 5u); nv++)
        r.push_back({"scattered-" + std::to_string(nu) + "x" + std::to_string(nv), [=] {
                         for (size_t p = 1; p < nu && p <= 3; p++) for (size_t q = 1; q < nv && q <= 3; q++)
                             for (size_t mu = 1; mu <= std::min<size_t>(p, 2); mu++) for (size_t mv = 1; mv <= std::min<size_t>(q, 2); mv++)
                                 for (int b = 0; b < 2; b++) for (int o = 0; o < 2; o++) scattered(nu, nv, p, q, mu, mv, b, o);
                     }});
    r.push_back({"scattered-13x8", [=] { scattered(13, 8, 3, 3, 1, 1, 1, 0); scattered(12, 8, 3, 3, 2, 2, 0, 1); }});
    return r;
}
MC_MAIN(units)
