// C07: approximation routines return the least-squares fit of the requested spline space.
// Oracle: first order optimality N^T (N x - b) = 0 (on the free poles), evaluated in long double.
#include "mc.h"
#include "ref.h"
#include <gbs/bscapprox.h>
#include <gbs/bssapprox.h>
#include <Eigen/Dense>
using namespace gbs;
using LM = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;

static LM colloc(const std::vector<double> &k, size_t p, const std::vector<double> &u)
{
    size_t n = k.size() - p - 1;
    LM A(u.size(), n);
    auto kr = ref::to_real(k);
    for (size_t i = 0; i < u.size(); i++) { auto B = ref::basis(kr, p, u[i], 0); for (size_t j = 0; j < n; j++) A(i, j) = B[0][j]; }
    return A;
}
static bool well(const LM &N, long double lim = 1e10L)
{
    if (N.cols() == 0) return true;
    if (N.rows() < N.cols()) return false;
    Eigen::FullPivLU<LM> lu(N.transpose() * N);
    if (!lu.isInvertible()) return false;
    LM C = N.transpose() * N, I = lu.inverse();
    return C.cwiseAbs().rowwise().sum().maxCoeff() * I.cwiseAbs().rowwise().sum().maxCoeff() < lim;
}
// gradient of the squared deviation over the free poles
template <size_t dim>
static void optimal(const LM &N, const std::vector<std::array<double, dim>> &P, const std::vector<std::array<double, dim>> &D, bool fixed, const char *key)
{
    size_t n = P.size();
    if ((size_t)N.cols() != n) { mc::fail("size", "%zu poles, space has %zu", n, (size_t)N.cols()); return; }
    mc::step();
    if (fixed)
    {
        for (size_t c = 0; c < dim; c++)
            if (P.front()[c] != D.front()[c] || P.back()[c] != D.back()[c]) { mc::fail("ends", "imposed ends not met: %s %s", ref::str(P.front()).c_str(), ref::str(P.back()).c_str()); break; }
    }
    for (size_t c = 0; c < dim; c++)
    {
        Eigen::Matrix<long double, Eigen::Dynamic, 1> x(n), b(D.size());
        long double sx = 0, sb = 0;
        for (size_t i = 0; i < n; i++) { x(i) = P[i][c]; sx = std::max(sx, std::fabs(x(i))); if (!std::isfinite(P[i][c])) sx = NAN; }
        for (size_t i = 0; i < D.size(); i++) { b(i) = D[i][c]; sb = std::max(sb, std::fabs(b(i))); }
        auto g = (N.transpose() * (N * x - b)).eval();
        auto cs = N.cwiseAbs().colwise().sum().eval();
        for (size_t j = fixed ? 1 : 0; j < n - (fixed ? 1 : 0); j++)
            if (!(std::fabs(g(j)) <= 1e-10L * (1 + (sx + sb) * (1 + cs.maxCoeff()))))
            { mc::fail(key, "not a least-squares fit: gradient %Lg for pole %zu component %zu", g(j), j, c); break; }
        mc::outcome(mc::mixd(n, (double)x(n / 2)));
    }
}
template <size_t dim>
static std::vector<std::array<double, dim>> data(size_t n, int kind)
{
    std::vector<std::array<double, dim>> D(n);
    for (size_t i = 0; i < n; i++) for (size_t c = 0; c < dim; c++)
    {
        double t = double(i) / (n - 1);
        double x = c == 0 ? t : c == 1 ? std::sin(3 * t) : t * t;
        if (kind == 1) x += 0.01 * std::sin(37. * i + c);           // noisy
        if (kind == 2) x += c == 1 ? std::fabs(t - 0.4) : 0;         // kink
        if (kind == 3) x = std::sin(12 * t + c) * (1 + t);           // many waves
        D[i][c] = x;
    }
    return D;
}
static std::vector<double> params(size_t n, int kind)
{
    std::vector<double> u(n);
    for (size_t i = 0; i < n; i++)
    {
        double t = double(i) / (n - 1);
        u[i] = kind == 0 ? t : kind == 1 ? -2 + t : kind == 2 ? -1 + 2 * t * (0.5 + 0.5 * t) : 10 + 3 * (t + 0.08 * std::sin(6.283185307179586 * t));
    }
    if (kind == 0) u.back() = 1;
    if (kind == 1) u.back() = -1;
    if (kind == 2) u.back() = 1;
    if (kind == 3) u.back() = 13;
    return u;
}

template <size_t dim>
static void lsq(size_t n, size_t p)
{
    auto D = data<dim>(n, 1);
    for (int pk = 0; pk < 4; pk++)
    {
        auto u = params(n, pk);
        std::vector<size_t> np;
        for (size_t m = p + 1; m <= n && m <= p + 7; m++) np.push_back(m);
        if (n > p + 7) { np.push_back(n / 2 > p ? n / 2 : p + 1); if (n <= 40) { np.push_back(n - 1); np.push_back(n); } }
        for (auto m : np)
            for (bool fix : {false, true})
            {
                mc::at("lsq dim %zu n=%zu p=%zu poles=%zu params %d fix %d", dim, n, p, m, pk, fix);
                auto c = approx<double, dim>(D, p, m, u, fix);
                mc::state();
                if (c.degree() != p || c.poles().size() != m) { mc::fail("def", "degree %zu poles %zu", c.degree(), c.poles().size()); continue; }
                if (c.bounds()[0] != u.front() || c.bounds()[1] != u.back()) mc::fail("bounds", "%s", ref::str(c.bounds()).c_str());
                LM N = colloc(c.knotsFlats(), p, u);
                LM F = fix ? LM(N.block(1, 1, n - 2, m - 2)) : N;
                if (!well(F)) continue;
                optimal(N, c.poles(), D, fix, fix ? "lsq-fixed" : "lsq");
                // explicit knots give the same
                auto c2 = fix ? approx_bound_fixed<double, dim>(D, p, m, u, c.knotsFlats()) : approx<double, dim>(D, p, m, u, c.knotsFlats());
                optimal(N, c2.poles(), D, fix, "lsq-knots");
                // data of the space are reproduced
                if (well(F, 1e8L))
                {
                    auto S = ref::poles<dim>(m, 2);
                    std::vector<std::array<double, dim>> E(n);
                    for (size_t i = 0; i < n; i++) for (size_t t = 0; t < dim; t++) { long double x = 0; for (size_t j = 0; j < m; j++) x += N(i, j) * S[j][t]; E[i][t] = (double)x; }
                    auto r = fix ? approx_bound_fixed<double, dim>(E, p, m, u, c.knotsFlats()) : approx<double, dim>(E, p, m, u, c.knotsFlats());
                    mc::step();
                    for (size_t j = 0; j < m; j++) for (size_t t = 0; t < dim; t++)
                        if (!(std::fabs(r.poles()[j][t] - S[j][t]) < 1e-6 * (1 + std::fabs(S[j][t])))) mc::fail("reproduce", "pole %zu: %s expected %s", j, ref::str(r.poles()[j]).c_str(), ref::str(S[j]).c_str());
                }
                // every unit datum
                if (dim == 2 && n <= 8)
                    for (size_t e = 0; e < n; e++)
                    {
                        std::vector<std::array<double, dim>> E(n);
                        E[e][0] = 1; E[n - 1 - e][1] = 1;
                        auto r = approx<double, dim>(E, p, m, u, fix);
                        optimal(N, r.poles(), E, fix, "lsq-unit");
                    }
            }
        for (int mode = 0; mode < 3 && pk == 0; mode++)
            for (auto m : np)
                for (bool unit : {false, true})
                {
                    mc::at("lsq-mode dim %zu n=%zu p=%zu poles=%zu mode %d unit %d", dim, n, p, m, mode, unit);
                    auto um = curve_parametrization(D, KnotsCalcMode(mode), unit);
                    auto c = approx<double, dim>(D, p, m, KnotsCalcMode(mode), unit);
                    mc::state();
                    LM N = colloc(c.knotsFlats(), p, um);
                    if (well(LM(N.block(1, 1, n - 2, m - 2)))) optimal(N, c.poles(), D, true, "lsq-mode");
                }
    }
    mc::sample();
}
// knots with multiplicities and uneven spans
static void lsq_knots(size_t p, size_t ni)
{
    for (auto &m : ref::mults(ni, p + 1))
        for (int sp = 0; sp < 2; sp++)
        {
            auto br = ref::breaks(ni, sp);
            auto k = ref::flat(br, m, p);
            size_t np = k.size() - p - 1;
            for (size_t per : {1, 2, 4})
            {
                std::vector<double> u{br.front()};
                size_t tot = per * (p + 1);
                for (size_t s = 0; s + 1 < br.size(); s++) for (size_t i = 1; i <= tot; i++) u.push_back(s + 2 == br.size() && i == tot ? br.back() : br[s] + (br[s + 1] - br[s]) * i / tot);
                if (u.size() < np) continue;
                auto D = data<3>(u.size(), 3);
                LM N = colloc(k, p, u);
                mc::at("lsq-knots p=%zu knots %s n=%zu", p, ref::str(k).c_str(), u.size());
                mc::state();
                if (well(N)) optimal(N, approx<double, 3>(D, p, np, u, k).poles(), D, false, "knots-free");
                if (well(LM(N.block(1, 1, u.size() - 2, np - 2)))) optimal(N, approx_bound_fixed<double, 3>(D, p, np, u, k).poles(), D, true, "knots-fixed");
            }
        }
    mc::sample();
}
static void sizes()
{
    for (size_t n = 2; n <= 8; n++)
        for (size_t p = 1; p <= 5; p++)
            for (size_t m = 0; m <= 10; m++)
                for (int form = 0; form < 3; form++)
                {
                    mc::at("sizes n=%zu p=%zu poles=%zu form %d", n, p, m, form);
                    auto D = data<2>(n, 0);
                    auto u = params(n, 0);
                    bool ok = m >= p + 1 && m <= n, threw = false, len = false;
                    mc::state(); mc::step();
                    try { if (form == 0) approx<double, 2>(D, p, m, u, false); if (form == 1) approx<double, 2>(D, p, m, u, true); if (form == 2) approx<double, 2>(D, p, m, KnotsCalcMode::CHORD_LENGTH); }
                    catch (std::length_error &) { threw = len = true; }
                    catch (std::exception &) { threw = true; }
                    mc::outcome(threw);
                    if (ok == threw) mc::fail("sizes", "%s", threw ? "valid sizes refused" : "impossible sizes accepted");
                }
}
template <size_t dim>
static void refine(size_t p, int kind)
{
    for (size_t n : {4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 33, 60, 110})
        for (int pk = 0; pk < 4; pk++)
            for (bool fix : {true, false})
                for (size_t m0 = p + 1; m0 <= n && m0 <= p + 4; m0++)
                    for (int tol = 0; tol < 3; tol++)
                    {
                        double dm = tol == 0 ? 1e-2 : tol == 1 ? 1e-5 : 1e-300, da = dm / 10;
                        size_t nmax = tol == 2 ? 3 : 200;
                        mc::at("refine p=%zu dim %zu data %d n=%zu params %d fix %d start %zu tol %g", p, dim, kind, n, pk, fix, m0, dm);
                        auto D = data<dim>(n, kind);
                        auto u = params(n, pk);
                        auto c0 = approx<double, dim>(D, p, m0, u, fix);
                        {
                            LM N = colloc(c0.knotsFlats(), p, u);
                            if (!well(fix ? LM(N.block(1, 1, n - 2, m0 - 2)) : N)) continue;
                        }
                        mc::state(); mc::step();
                        auto c = refine_approx<double, dim>(D, u, c0, fix, dm, da, nmax);
                        auto k = c.knotsFlats(), k0 = c0.knotsFlats();
                        size_t np = c.poles().size();
                        mc::outcome(mc::mix(np, n));
                        if (c.degree() != p || np > n || np < m0 || np > m0 + nmax) mc::fail("refine-def", "degree %zu poles %zu", c.degree(), np);
                        if (c.bounds() != c0.bounds()) mc::fail("refine-bounds", "%s", ref::str(c.bounds()).c_str());
                        if (!std::includes(k.begin(), k.end(), k0.begin(), k0.end())) mc::fail("refine-knots", "initial knots lost");
                        LM N = colloc(k, p, u);
                        if (!well(fix ? LM(N.block(1, 1, n - 2, np - 2)) : N)) continue;
                        optimal(N, c.poles(), D, fix, "refine-lsq");
                        long double mx = 0, av = 0;
                        bool cand = false;
                        for (size_t i = 0; i < n; i++)
                        {
                            long double d = 0;
                            for (size_t t = 0; t < dim; t++) { long double x = 0; for (size_t j = 0; j < np; j++) x += N(i, j) * c.poles()[j][t]; d += (x - D[i][t]) * (x - D[i][t]); }
                            d = std::sqrt(d); mx = std::max(mx, d); av += d / n;
                            auto it = std::lower_bound(k.begin(), k.end(), u[i]);
                            if (it == k.begin() || it == k.end() || d < 1e-9L) continue;
                            double a = *std::prev(it), b = *it;
                            if ((u[i] - a) / (b - a) > 0.34 && (b - u[i]) / (b - a) > 0.34) cand = true;
                        }
                        if ((mx > 3 * dm || av > 3 * da) && np < m0 + nmax && np + 5 < n && cand)
                            mc::fail("refine-stop", "stopped with deviation %Lg (average %Lg) at %zu poles", mx, av, np);
                        if (m0 == 2 * p)
                        {
                            auto c1 = approx<double, dim>(D, u, p, fix, dm, da, nmax);
                            if (c1.poles() != c.poles() || c1.knotsFlats() != k) mc::fail("refine-auto", "automatic form differs");
                            mc::step();
                        }
                    }
    mc::sample();
}
static void grid(size_t p, size_t q, size_t ni, size_t nj, int sp)
{
    auto bu = ref::breaks(ni, sp), bv = ref::breaks(nj, (sp + 1) % 2);
    auto ku = ref::flat(bu, std::vector<size_t>(ni, 1), p), kv = ref::flat(bv, std::vector<size_t>(nj, std::min<size_t>(q, 2)), q);
    size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1;
    for (size_t eu : {0, 1, 3}) for (size_t ev : {0, 2})
    {
        auto mk = [](size_t n, double a, double b) { std::vector<double> r; for (size_t i = 0; i < n; i++) r.push_back(i + 1 == n ? b : a + (b - a) * double(i) / (n - 1)); return r; };
        auto u = mk(nu + eu, bu.front(), bu.back()), v = mk(nv + ev, bv.front(), bv.back());
        LM Nu = colloc(ku, p, u), Nv = colloc(kv, q, v);
        mc::at("grid degrees %zu %zu poles %zu x %zu points %zu x %zu spacing %d", p, q, nu, nv, u.size(), v.size(), sp);
        mc::state();
        if (!well(Nu, 1e6L) || !well(Nv, 1e6L)) continue;
        LM N(u.size() * v.size(), nu * nv);
        for (size_t i = 0; i < u.size(); i++) for (size_t j = 0; j < v.size(); j++) for (size_t a = 0; a < nu; a++) for (size_t b = 0; b < nv; b++) N(i + u.size() * j, a + nu * b) = Nu(i, a) * Nv(j, b);
        std::vector<std::array<double, 3>> Q(u.size() * v.size());
        std::vector<bss_constraint<double, 3>> K;
        for (size_t i = 0; i < u.size(); i++) for (size_t j = 0; j < v.size(); j++)
        {
            Q[i + u.size() * j] = {u[i] + 0.1 * std::sin(7. * i + 3 * j), v[j] * u[i] + std::cos(5. * j + i), std::sin(2. * i * j + i)};
        }
        for (size_t j = 0; j < v.size(); j++) for (size_t i = 0; i < u.size(); i++) K.push_back({u[i], v[j], Q[i + u.size() * j], 0, 0});
        optimal(N, approx<double, 3>(Q, ku, kv, u, v, p, q), Q, false, "grid");
        auto s = approx<double, 3>(K, ku, kv, p, q);
        if (s.nPolesU() != nu || s.nPolesV() != nv || s.degreeU() != p || s.degreeV() != q || s.knotsFlatsU() != ku || s.knotsFlatsV() != kv) mc::fail("grid-def", "constraint fit has another space");
        optimal(N, s.poles(), Q, false, "constraints");
        // derivative constraints appended
        size_t base = K.size();
        auto Q2 = Q;
        for (size_t i = 0; i < u.size(); i += 2)
        {
            K.push_back({u[i], v.back(), {1. + i, 2, -1. * i}, 0, 1});
            K.push_back({u[i], v.front(), {0.5 * i, 1, 2}, 1, 0});
            K.push_back({u[i], v[v.size() / 2], {0.5, 1, 2. * i}, 1, 1});
        }
        std::reverse(K.begin(), K.end());
        LM M(K.size(), nu * nv);
        std::vector<std::array<double, 3>> R(K.size());
        for (size_t r = 0; r < K.size(); r++)
        {
            auto [uu, vv, x, du, dv] = K[r];
            R[r] = x;
            auto B = ref::basis(ref::to_real(ku), p, uu, du), C = ref::basis(ref::to_real(kv), q, vv, dv);
            for (size_t a = 0; a < nu; a++) for (size_t b = 0; b < nv; b++) M(r, a + nu * b) = B[du][a] * C[dv][b];
        }
        (void)base;
        if (well(M)) optimal(M, approx<double, 3>(K, ku, kv, p, q).poles(), R, false, "constraints-derivatives");
        // reproduction
        auto S = ref::poles<3>(nu * nv, 1);
        std::vector<std::array<double, 3>> E(Q.size());
        for (size_t i = 0; i < E.size(); i++) for (size_t t = 0; t < 3; t++) { long double x = 0; for (size_t j = 0; j < S.size(); j++) x += N(i, j) * S[j][t]; E[i][t] = (double)x; }
        auto r = approx<double, 3>(E, ku, kv, u, v, p, q);
        mc::step();
        for (size_t j = 0; j < S.size(); j++) for (size_t t = 0; t < 3; t++) if (!(std::fabs(r[j][t] - S[j][t]) < 1e-5 * (1 + std::fabs(S[j][t])))) mc::fail("grid-reproduce", "pole %zu", j);
        // impossible sizes
        for (size_t cut = 1; cut <= 2; cut++)
        {
            std::vector<bss_constraint<double, 3>> few(K.begin(), K.begin() + (nu * nv - cut));
            bool threw = false;
            try { approx<double, 3>(few, ku, kv, p, q); } catch (std::length_error &) { threw = true; }
            mc::step();
            if (!threw) mc::fail("grid-sizes", "fewer constraints than poles accepted");
        }
    }
    mc::sample();
}
static void batch()
{
    for (size_t n : {0, 1, 2, 7, 8, 9, 20})
        for (int mode = 0; mode < 3; mode++)
        {
            std::vector<std::vector<std::array<double, 2>>> L;
            for (size_t i = 0; i < n; i++) L.push_back(data<2>(12 + i, i % 4));
            mc::at("batch of %zu mode %d", n, mode);
            mc::state();
            auto r = approx<double, 2>(L, 3, 6, KnotsCalcMode(mode), true);
            if (r.size() != n) { mc::fail("batch", "%zu curves", r.size()); continue; }
            for (size_t i = 0; i < n; i++)
            {
                auto c = approx<double, 2>(L[i], 3, 6, KnotsCalcMode(mode), true);
                mc::step();
                if (c.poles() != r[i].poles() || c.knotsFlats() != r[i].knotsFlats()) mc::fail("batch", "curve %zu differs from single fit", i);
            }
        }
}
// fits of an existing curve
template <size_t dim, bool rat>
static void of_curve(size_t p, int sp)
{
    using Crv = std::conditional_t<rat, BSCurveRational<double, dim>, BSCurve<double, dim>>;
    for (size_t ni = 0; ni <= 2; ni++)
    {
        auto br = ref::breaks(ni, sp);
        auto k = ref::flat(br, std::vector<size_t>(ni, 1), p);
        size_t n = k.size() - p - 1;
        auto mkc = [&]() { if constexpr (rat) return Crv(ref::hpoles<dim>(n, 1), k, p); else return Crv(ref::poles<dim>(n, 1), k, p); };
        Crv c = mkc();
        double a = br.front(), b = br.back();
        auto ends = [&](const BSCurve<double, dim> &f, double ua, double ub, const char *w, double scale = 1)
        {
            mc::step();
            auto A = c.value(ua), B = c.value(ub), X = f.value(f.bounds()[0]), Y = f.value(f.bounds()[1]);
            for (size_t t = 0; t < dim; t++) if (!(std::fabs(scale * A[t] - X[t]) < 1e-9) || !(std::fabs(scale * B[t] - Y[t]) < 1e-9))
            { mc::fail("curve-ends", "%s: ends %s %s expected %s %s", w, ref::str(X).c_str(), ref::str(Y).c_str(), ref::str(A).c_str(), ref::str(B).c_str()); break; }
        };
        // keeps the parametrization: deviation at many parameters
        auto dev = [&](const BSCurve<double, dim> &f, double ua, double ub, double tol, const char *w, double scale = 1)
        {
            mc::step();
            if (std::fabs(f.bounds()[0] - ua) > 1e-12 * (1 + std::fabs(ua)) || std::fabs(f.bounds()[1] - ub) > 1e-12 * (1 + std::fabs(ub))) { mc::fail("curve-bounds", "%s: %s", w, ref::str(f.bounds()).c_str()); return; }
            for (int i = 0; i <= 16; i++)
            {
                double u = i == 16 ? f.bounds()[1] : ua + (ub - ua) * i / 16;
                auto A = c.value(std::min(std::max(u, a), b)), X = f.value(u);
                for (size_t t = 0; t < dim; t++) if (!(std::fabs(scale * A[t] - X[t]) < tol)) { mc::fail("curve-deviation", "%s: at u=%g %s expected %s", w, u, ref::str(X).c_str(), ref::str(A).c_str()); return; }
            }
        };
        // least-squares fit of the sampled points, on its own knots, between the requested parameters
        auto fit = [&](const BSCurve<double, dim> &f, double ua, double ub, size_t np, const char *w, double scale = 1)
        {
            mc::step();
            if (f.bounds()[0] != ua || f.bounds()[1] != ub) { mc::fail("curve-bounds", "%s: %s", w, ref::str(f.bounds()).c_str()); return; }
            auto l = deviation_based_params<double, dim>(c, ua, ub, np, 0.05);
            std::vector<double> u(l.begin(), l.end());
            std::vector<std::array<double, dim>> D;
            for (auto x : u) { auto y = c.value(x); for (auto &t : y) t *= scale; D.push_back(y); }
            if (f.poles().size() > u.size()) { mc::fail("curve-poles", "%s: more poles than points", w); return; }
            LM N = colloc(f.knotsFlats(), f.degree(), u);
            if (well(LM(N.block(1, 1, u.size() - 2, f.poles().size() - 2)))) optimal(N, f.poles(), D, true, "curve-fit");
        };
        mc::at("of-curve dim %zu rational %d p=%zu knots %s", dim, rat, p, ref::str(k).c_str());
        mc::state();
        for (size_t np : {30, 61})
        {
            const double dv = 0.05;
            ends(approx<double, dim>(c, dv, size_t(3), KnotsCalcMode::CHORD_LENGTH, np), a, b, "mode");
            ends(approx<double, dim>(c, dv, size_t(8), size_t(3), KnotsCalcMode::CENTRIPETAL), a, b, "n_poles+mode");
            if (!rat)
            {
                auto f = approx<double, dim>(c, p, n, k, dv, np);
                if (f.knotsFlats() != k || f.degree() != p) mc::fail("curve-knots", "imposed knots not kept");
                dev(f, a, b, 1e-7, "imposed knots");
            }
            auto f1 = approx<double, dim>(c, dv, 1e-3, size_t(3), np);
            ends(f1, a, b, "tol"); fit(f1, a, b, np, "tol");
            auto f2 = approx<double, dim>(c, dv, 1e-3, size_t(3), size_t(6), np);
            ends(f2, a, b, "tol+n_poles"); fit(f2, a, b, np, "tol+n_poles");
            for (int w = 0; w < 3; w++)
            {
                double ua = w == 0 ? a : a + 0.21 * (b - a), ub = w == 1 ? b : a + 0.77 * (b - a);
                auto f3 = approx<double, dim>(c, ua, ub, dv, 1e-3, size_t(3), np);
                ends(f3, ua, ub, "range"); fit(f3, ua, ub, np, "range");
            }
            std::function<std::array<double, dim>(const std::array<double, dim> &)> tr = [](const std::array<double, dim> &x) { auto y = x; for (auto &t : y) t *= 3; return y; };
            auto f4 = approx<double, dim>(c, tr, dv, 1e-3, size_t(3), np);
            ends(f4, a, b, "transform", 3); fit(f4, a, b, np, "transform", 3);
            try
            {
                auto f5 = approx<double, dim>(c, size_t(4), np);
                ends(f5, a, b, "uniform");
                if (f5.degree() != 4) mc::fail("curve-degree", "uniform");
            }
            catch (std::length_error &) {} // announced: the arc-length law needs more samples
        }
        // a curve of the space comes back whatever the sampling
        if (!rat && ni == 0)
        {
            dev(approx<double, dim>(c, 0.05, 1e-3, p, p + 1, size_t(30)), a, b, 1e-7, "space");
            dev(approx<double, dim>(c, p, size_t(40)), a, b, 1e-7, "space uniform");
        }
    }
    mc::sample();
}
static std::vector<mc::Unit> units()
{
    std::vector<mc::Unit> U;
    bool T = mc::thorough();
    for (size_t p = 1; p <= (T ? 7u : 5u); p++)
    {
        for (size_t n = std::max<size_t>(p + 1, 2); n <= (T ? 16u : 11u); n++) U.push_back({"lsq-" + std::to_string(p) + "-" + std::to_string(n), [=] { lsq<2>(n, p); if (n < 8) lsq<3>(n, p); }});
        for (size_t n : {20, 40, 99, 100, 101, 140}) U.push_back({"lsq-" + std::to_string(p) + "-" + std::to_string(n), [=] { lsq<2>(n, p); }});
    }
    for (size_t p = 1; p <= (T ? 5u : 3u); p++) for (size_t ni = 0; ni <= (T ? 3u : 2u); ni++) U.push_back({"knots-" + std::to_string(p) + "-" + std::to_string(ni), [=] { lsq_knots(p, ni); }});
    U.push_back({"sizes", sizes});
    for (size_t p = 1; p <= (T ? 5u : 4u); p++) for (int kind = 0; kind < 4; kind++) { U.push_back({"refine-" + std::to_string(p) + "-" + std::to_string(kind), [=] { refine<2>(p, kind); }}); if (T) U.push_back({"refine3-" + std::to_string(p) + "-" + std::to_string(kind), [=] { refine<3>(p, kind); }}); }
    for (size_t p = 1; p <= 3; p++) for (size_t q = 1; q <= 3; q++) for (size_t i = 0; i <= (T ? 3u : 2u); i++) for (size_t j = 0; j <= (T ? 3u : 2u); j++) for (int sp = 0; sp < 2; sp++) if (T || i + j <= 3) U.push_back({"grid-" + std::to_string(p) + std::to_string(q) + std::to_string(i) + std::to_string(j) + std::to_string(sp), [=] { grid(p, q, i, j, sp); }});
    U.push_back({"batch", batch});
    for (size_t p = 2; p <= 4; p++) for (int sp = 0; sp < 2; sp++)
    {
        auto s = std::to_string(p) + std::to_string(sp);
        U.push_back({"curve2-" + s, [=] { of_curve<2, false>(p, sp); }});
        U.push_back({"curve3-" + s, [=] { of_curve<3, false>(p, sp); }});
        U.push_back({"curve2r-" + s, [=] { of_curve<2, true>(p, sp); }});
    }
    return U;
}
MC_MAIN(units)
