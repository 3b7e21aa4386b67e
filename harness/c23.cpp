// C23: shape deformation meets its targets and leaves the fixed parts alone.
#include "mc.h"
#include "ref.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bscshaping.h>
#include <gbs/bssshaping.h>
using namespace gbs;
using ref::real;
template <size_t dim> using P = std::array<double, dim>;
using Mat = std::vector<std::vector<real>>;
// values of every basis function at u
static std::vector<real> row(const ref::rvec &k, size_t p, size_t n, real u, size_t d)
{
    auto r = ref::basis(k, p, u, d)[d]; r.resize(n);
    return r;
}
// least norm solution of A x = d over the free columns; empty when the rows are (nearly) dependent
static bool least_norm(const Mat &A, const std::vector<char> &freec, std::vector<std::vector<real>> D, std::vector<std::vector<real>> &X)
{
    size_t m = A.size(), n = freec.size(), q = D[0].size();
    // row scaling keeps the solution; Gram-Schmidt on the rows: A = L Q
    Mat Q; Mat Y; // Q orthonormal rows, Y right sides
    for (size_t r = 0; r < m; r++)
    {
        std::vector<real> a = A[r]; for (size_t i = 0; i < n; i++) if (!freec[i]) a[i] = 0;
        auto y = D[r]; real n0 = 0; for (auto x : a) n0 += x * x; n0 = sqrtl(n0); if (n0 < 1e-9L) return false;
        for (int pass = 0; pass < 2; pass++) for (size_t s = 0; s < Q.size(); s++) { real c = 0; for (size_t i = 0; i < n; i++) c += a[i] * Q[s][i]; for (size_t i = 0; i < n; i++) a[i] -= c * Q[s][i]; for (size_t e = 0; e < q; e++) y[e] -= c * Y[s][e]; }
        real nn = 0; for (auto x : a) nn += x * x; nn = sqrtl(nn); if (nn < 0.02L * n0) return false;
        for (auto &x : a) x /= nn; for (auto &x : y) x /= nn; Q.push_back(a); Y.push_back(y);
    }
    X.assign(n, std::vector<real>(q, 0));
    for (size_t s = 0; s < m; s++) for (size_t i = 0; i < n; i++) for (size_t e = 0; e < q; e++) X[i][e] += Q[s][i] * Y[s][e];
    return true;
}
template <size_t dim> static double mx(const std::vector<P<dim>> &p) { double s = 1; for (auto &q : p) for (auto x : q) s = std::max(s, std::abs(x)); return s; }

template <size_t dim> static void one_curve(const BSCurve<double, dim> &c, const std::vector<bsc_constraint<double, dim>> &cs, bool fix)
{
    auto fk = c.knotsFlats(); ref::rvec k = ref::to_real(fk); size_t p = c.degree(), n = c.poles().size();
    std::vector<char> fr(n, 1); if (fix) fr.front() = fr.back() = 0;
    Mat A; std::vector<std::vector<real>> D, X; double big = 1;
    for (auto &[u, v, d] : cs) { A.push_back(row(k, p, n, u, d)); auto r = ref::curve(k, p, c.poles(), false, u, d)[d]; std::vector<real> dd; for (size_t i = 0; i < dim; i++) { dd.push_back(v[i] - r.v[i]); big = std::max<double>(big, std::abs((double)dd.back())); } D.push_back(dd); }
    if (!cs.empty() && !least_norm(A, fr, D, X)) return;
    if (cs.empty()) X.assign(n, std::vector<real>(dim, 0));
    double lim = 1; for (auto &x : X) for (auto y : x) lim = std::max<double>(lim, std::abs((double)y));
    auto check = [&](const char *w, const BSCurve<double, dim> &r) {
        mc::step();
        if (r.degree() != p || r.knotsFlats() != fk || r.poles().size() != n) { mc::fail(std::string(w) + "-shape", "%s: degree or knots changed", w); return; }
        for (size_t i = 0; i < cs.size(); i++)
        {
            auto [u, v, d] = cs[i]; auto x = r.value(u, d); real rs = 0; for (auto a : A[i]) rs += std::abs(a);
            for (size_t j = 0; j < dim; j++) if (!(std::abs(x[j] - v[j]) <= 1e-9 * (double)rs * (lim + mx<dim>(c.poles())))) { mc::fail(std::string(w) + "-target-" + std::to_string(d), "%s: derivative %zu at %g is %.12g, requested %.12g", w, d, u, x[j], v[j]); break; }
        }
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < dim; j++)
        {
            double mv = r.poles()[i][j] - c.poles()[i][j];
            if (fix && (i == 0 || i + 1 == n) && mv != 0) mc::fail(std::string(w) + "-ends", "%s: end pole moved by %g", w, mv);
            if (!(std::abs(mv - (double)X[i][j]) <= 1e-8 * (lim + mx<dim>(c.poles())))) { mc::fail(std::string(w) + "-least", "%s: pole %zu moved by %.12g, smallest move %.12Lg", w, i, mv, X[i][j]); return; }
        }
    };
    mc::state();
    auto c0 = c;
    check("moved", moved_to_constraints(c, cs, fix)); 
    { auto m = c; move_to_constraints(m, cs, fix); check("move", m); }
    if (cs.size() == 1 && std::get<2>(cs[0]) == 0)
    {
        auto [u, v, d] = cs[0]; check("moved-point", moved_to_point(c, v, u, fix)); auto m = c; move_to_point(m, v, u, fix); check("move-point", m);
    }
    if (!fix && !cs.empty())
    {   // given displacements over all the poles
        auto dl = convert_constraints_to_delta(c, cs); check("delta", moved_to_constraints_delta(c, dl, 0, n - 1));
        auto pl = c.poles(); move_to_constraints_delta(pl, dl, fk, p, 0, n - 1); check("delta-poles", BSCurve<double, dim>{pl, fk, p});
        if (cs.size() == 1 && std::get<2>(cs[0]) == 0) { auto q = c.poles(); P<dim> dd = std::get<1>(dl[0]); move_to_point_delta(q, dd, fk, p, std::get<0>(cs[0]), 0, n - 1); check("delta-point", BSCurve<double, dim>{q, fk, p}); }
    }
    if (c0.poles() != c.poles()) mc::fail("source", "the source curve was modified");
    mc::outcome(mc::mix(mc::mix(p, n), cs.size() * 2 + fix));
}
template <size_t dim> static void curves(size_t p, size_t mmax, int part, int nparts)
{
    size_t cnt = 0;
    for (size_t m = 0; m <= mmax; m++) for (auto &mu : ref::mults(m, p)) for (int sp = 0; sp < 2; sp++)
    {
        if ((int)(cnt++ % nparts) != part) continue;
        auto br = ref::breaks(m, sp); auto fk = ref::flat(br, mu, p); size_t n = fk.size() - p - 1;
        BSCurve<double, dim> c{ref::poles<dim>(n, sp), fk, p};
        // requests: parameters x orders
        std::vector<std::pair<double, size_t>> rq;
        for (size_t i = 0; i + 1 < br.size(); i++) for (double f : {0., 0.25, 0.6}) for (size_t d = 0; d <= std::min<size_t>(p, 2); d++)
        {
            double u = br[i] + f * (br[i + 1] - br[i]);
            if (f == 0 && i > 0 && d > p - mu[i - 1]) continue; // not defined at a kink
            rq.push_back({u, d});
        }
        for (size_t d = 0; d <= std::min<size_t>(p, 2); d++) rq.push_back({br.back(), d});
        auto target = [&](size_t i, int way) { auto x = c.value(rq[i].first, rq[i].second); P<dim> v; for (size_t k = 0; k < dim; k++) v[k] = way == 0 ? 0.3 * ((i * 5 + k * 3) % 7) - 1. : x[k] + (way == 1 ? 0 : (k ? -.2 : .1) * (1 + i % 3)); return v; };
        auto say = [&](const std::vector<size_t> &ix, bool fix) { std::string s; for (auto i : ix) { char b[60]; snprintf(b, 60, " d%zu@%.4g", rq[i].second, rq[i].first); s += b; } mc::at("dim %zu degree %zu knots %s constraints%s%s", dim, p, ref::str(fk).c_str(), s.c_str(), fix ? " ends fixed" : ""); };
        for (int fix = 0; fix < 2; fix++)
        {
            if (fix && n < 3) continue;
            say({}, fix); one_curve<dim>(c, {}, fix);
            for (size_t a = 0; a < rq.size(); a++)
            {
                for (int w = 0; w < 3; w++) { say({a}, fix); one_curve<dim>(c, {{rq[a].first, target(a, w), rq[a].second}}, fix); }
                for (size_t b = 0; b < rq.size(); b++)
                {
                    if (a == b) continue;
                    say({a, b}, fix); one_curve<dim>(c, {{rq[a].first, target(a, 0), rq[a].second}, {rq[b].first, target(b, 2), rq[b].second}}, fix);
                    if (b < a || (!mc::thorough() && (a + b) % 2)) continue;
                    for (size_t e = b + 1; e < rq.size(); e++)
                    {
                        say({a, b, e}, fix); one_curve<dim>(c, {{rq[a].first, target(a, 0), rq[a].second}, {rq[b].first, target(b, 0), rq[b].second}, {rq[e].first, target(e, 2), rq[e].second}}, fix);
                    }
                }
            }
            // as many constraints as free poles
            std::vector<bsc_constraint<double, dim>> cs; std::vector<size_t> ix; size_t nf = fix ? n - 2 : n;
            for (size_t i = 0; i < nf; i++)
            {   // at the averages of the knots, where the system is well posed
                size_t j = i + fix; double u = 0; for (size_t q = 1; q <= p; q++) u += fk[j + q] / p;
                P<dim> v; for (size_t k = 0; k < dim; k++) v[k] = 0.4 * ((i * 3 + k) % 5);
                cs.push_back({u, v, 0});
                if (cs.size() >= 2 && fk[j + p] - fk[j] > 0) { mc::at("dim %zu degree %zu knots %s %zu points%s", dim, p, ref::str(fk).c_str(), cs.size(), fix ? " ends fixed" : ""); one_curve<dim>(c, cs, fix); }
            }
        }
    }
    mc::sample();
}
template <size_t dim> static void one_surface(const BSSurface<double, dim> &s, const std::vector<bss_constraint<double, dim>> &cs, bool fix)
{
    auto fu = s.knotsFlatsU(), fv = s.knotsFlatsV(); ref::rvec ku = ref::to_real(fu), kv = ref::to_real(fv); size_t p = s.degreeU(), q = s.degreeV(), nu = s.nPolesU(), nv = s.nPolesV(), n = nu * nv;
    std::vector<char> fr(n, 1); if (fix) for (size_t i = 0; i < nu; i++) for (size_t j = 0; j < nv; j++) if (i == 0 || j == 0 || i + 1 == nu || j + 1 == nv) fr[i + nu * j] = 0;
    // only the poles of the spans concerned may move: the others have no influence
    Mat A; std::vector<std::vector<real>> D, X;
    for (auto &[u, v, x, du, dv] : cs)
    {
        auto ru = row(ku, p, nu, u, du), rv = row(kv, q, nv, v, dv); std::vector<real> a(n), dd;
        for (size_t i = 0; i < nu; i++) for (size_t j = 0; j < nv; j++) a[i + nu * j] = ru[i] * rv[j];
        for (size_t k = 0; k < dim; k++) { real y = 0; for (size_t i = 0; i < n; i++) y += a[i] * s.poles()[i][k]; dd.push_back(x[k] - y); }
        A.push_back(a); D.push_back(dd);
    }
    if (!cs.empty() && !least_norm(A, fr, D, X)) return;
    if (cs.empty()) X.assign(n, std::vector<real>(dim, 0));
    double lim = mx<dim>(s.poles()); for (auto &x : X) for (auto y : x) lim = std::max<double>(lim, std::abs((double)y));
    auto check = [&](const char *w, const BSSurface<double, dim> &r) {
        mc::step();
        if (r.degreeU() != p || r.degreeV() != q || r.knotsFlatsU() != fu || r.knotsFlatsV() != fv || r.poles().size() != n) { mc::fail(std::string(w) + "-shape", "%s: degrees or knots changed", w); return; }
        for (size_t i = 0; i < cs.size(); i++)
        {
            auto [u, v, t, du, dv] = cs[i]; auto x = r.value(u, v, du, dv); real rs = 0; for (auto a : A[i]) rs += std::abs(a);
            for (size_t k = 0; k < dim; k++) if (!(std::abs(x[k] - t[k]) <= 1e-9 * (double)rs * lim)) { mc::fail(std::string(w) + "-target-" + std::to_string(du) + std::to_string(dv), "%s: derivative %zu,%zu at %g,%g is %.12g, requested %.12g", w, du, dv, u, v, x[k], t[k]); break; }
        }
        for (size_t i = 0; i < n; i++) for (size_t k = 0; k < dim; k++)
        {
            double mv = r.poles()[i][k] - s.poles()[i][k];
            if (!fr[i] && mv != 0) mc::fail(std::string(w) + "-bounds", "%s: pole of the fixed contour moved by %g", w, mv);
            if (!(std::abs(mv - (double)X[i][k]) <= 1e-8 * lim)) { mc::fail(std::string(w) + "-least", "%s: pole %zu moved by %.12g, smallest move %.12Lg", w, i, mv, X[i][k]); return; }
        }
    };
    mc::state();
    check("srf-moved", moved_to_constraints(s, cs, fix));
    if (cs.size() == 1 && std::get<3>(cs[0]) == 0 && std::get<4>(cs[0]) == 0)
    {
        auto [u, v, t, du, dv] = cs[0]; check("srf-moved-point", moved_to_point(s, t, u, v, fix)); auto m = s; move_to_point(m, t, u, v, fix); check("srf-move-point", m);
    }
    if (!fix && !cs.empty()) { auto dl = convert_constraints_to_delta(s, cs); check("srf-delta", moved_to_constraints_delta(s, dl, 0, nu - 1, 0, nv - 1)); }
    mc::outcome(mc::mix(mc::mix(nu, nv), cs.size() * 2 + fix));
}
template <size_t dim> static void surfaces(size_t p, size_t q, size_t part)
{
    size_t cnt = 0;
    for (size_t m1 = 0; m1 <= 1; m1++) for (auto &mu1 : ref::mults(m1, p)) for (size_t m2 = 0; m2 <= 1; m2++) for (auto &mu2 : ref::mults(m2, q))
    {
        if (cnt++ % 4 != part) continue;
        int sp = (cnt - 1 + (cnt - 1) / 4) % 2; auto b1 = ref::breaks(m1, sp), b2 = ref::breaks(m2, 1 - sp); auto fu = ref::flat(b1, mu1, p), fv = ref::flat(b2, mu2, q);
        size_t nu = fu.size() - p - 1, nv = fv.size() - q - 1;
        BSSurface<double, dim> s{ref::poles<dim>(nu * nv, sp), fu, fv, p, q};
        struct R { double u, v; size_t du, dv; }; std::vector<R> rq;
        auto pu = [&](const std::vector<double> &b) { std::vector<double> r{b[0], b[0] + 0.3 * (b[1] - b[0]), b.back()}; if (b.size() > 2) { r.push_back(b[1] + 0.6 * (b[2] - b[1])); r.push_back(b[1]); } return r; };
        for (double u : pu(b1)) for (double v : pu(b2)) for (size_t du = 0; du <= 2 && du <= p; du++) for (size_t dv = 0; dv <= 2 && dv <= q; dv++)
        {
            if (b1.size() > 2 && u == b1[1] && du > p - mu1[0]) continue;
            if (b2.size() > 2 && v == b2[1] && dv > q - mu2[0]) continue;
            rq.push_back({u, v, du, dv});
        }
        auto target = [&](size_t i) { P<dim> v; for (size_t k = 0; k < dim; k++) v[k] = 0.3 * ((i * 5 + k * 3) % 7) - 1.; return v; };
        auto C = [&](size_t i) { return bss_constraint<double, dim>{rq[i].u, rq[i].v, target(i), rq[i].du, rq[i].dv}; };
        for (int fix = 0; fix < 2; fix++)
        {
            if (fix && (nu < 3 || nv < 3)) continue;
            mc::at("dim %zu surface degrees %zu %zu knots %s x %s no constraint", dim, p, q, ref::str(fu).c_str(), ref::str(fv).c_str()); one_surface<dim>(s, {}, fix);
            for (size_t a = 0; a < rq.size(); a++)
            {
                auto say = [&](size_t b) { mc::at("dim %zu surface degrees %zu %zu knots %s x %s constraints %zu,%zu@%.4g,%.4g and %zu,%zu@%.4g,%.4g%s", dim, p, q, ref::str(fu).c_str(), ref::str(fv).c_str(), rq[a].du, rq[a].dv, rq[a].u, rq[a].v, rq[b].du, rq[b].dv, rq[b].u, rq[b].v, fix ? " contour fixed" : ""); };
                say(a); one_surface<dim>(s, {C(a)}, fix);
                for (size_t b = a + 1; b < rq.size(); b += mc::thorough() ? 1 : 3) { say(b); one_surface<dim>(s, {C(a), C(b)}, fix); if (b % 4 == 0 && b + 2 < rq.size()) { one_surface<dim>(s, {C(b), C(a), C(b + 2)}, fix); } }
            }
        }
    }
    mc::sample();
}
static std::vector<mc::Unit> units()
{
    std::vector<mc::Unit> U; bool T = mc::thorough();
    for (size_t p = 1; p <= (T ? 5 : 4); p++) for (int k = 0; k < 4; k++)
    {
        auto s = std::to_string(p) + "-" + std::to_string(k);
        U.push_back({"curve2/" + s, [=] { curves<2>(p, T ? 2 : (p < 4 ? 2 : 1), k, 4); }});
        if (p < 4 || T) U.push_back({"curve3/" + s, [=] { curves<3>(p, T ? 2 : 1, k, 4); }});
        if (k == 0) U.push_back({"curve1/" + s, [=] { curves<1>(p, 1, 0, 1); }});
    }
    for (size_t p = 1; p <= 3; p++) for (size_t q = 1; q <= 3; q++) for (size_t k = 0; k < 4; k++) { auto s = std::to_string(p) + std::to_string(q) + "-" + std::to_string(k); U.push_back({"surface3/" + s, [=] { surfaces<3>(p, q, k); }}); if (p != q || T) U.push_back({"surface2/" + s, [=] { surfaces<2>(p, q, k); }}); }
    return U;
}
MC_MAIN(units)
