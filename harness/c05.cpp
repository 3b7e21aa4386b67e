// C05: every small combination of knots, multiplicities, poles, weights and degrees is accepted
// exactly when consistent, through every constructor; accepted objects report the data given.
#include "mc.h"
#include "ref.h"
#include <gbs/bssurf.h>
using namespace gbs;

static constexpr size_t HUGE_DEG = ~size_t(0);
static bool consistent(size_t np, const std::vector<double> &k, size_t p)
{
    for (size_t i = 1; i < k.size(); i++) if (k[i] < k[i - 1]) return false;
    if (p > 1000) return false;
    return np >= p + 1 && k.size() == np + p + 1;
}
template <typename F> static int attempt(F f)
{
    try { f(); return 1; } catch (const std::exception &) { return 0; }
}
static std::vector<std::vector<double>> seqs(size_t lo, size_t hi, const std::vector<double> &alpha)
{
    std::vector<std::vector<double>> r, cur{{}};
    for (size_t n = 0; n <= hi; n++)
    {
        if (n >= lo) r.insert(r.end(), cur.begin(), cur.end());
        std::vector<std::vector<double>> nx;
        for (auto &x : cur) for (double a : alpha) { auto y = x; y.push_back(a); nx.push_back(y); }
        cur = nx;
    }
    return r;
}
static void rle(const std::vector<double> &k, std::vector<double> &u, std::vector<size_t> &m)
{
    for (double x : k) if (!u.empty() && u.back() == x) m.back()++; else { u.push_back(x); m.push_back(1); }
}
static std::string D(const std::vector<double> &k, size_t p, size_t np) { return "knots=" + ref::str(k) + " degree=" + std::to_string(p) + " poles=" + std::to_string(np); }

template <typename C, typename P>
static void reports(const C &c, const P &poles, const std::vector<double> &k, size_t p)
{
    std::vector<double> u; std::vector<size_t> m;
    rle(k, u, m);
    if (c.degree() != p || c.order() != p + 1) mc::fail("report-degree", "degree %zu", c.degree());
    if (c.knotsFlats() != k) mc::fail("report-knots", "knots %s", ref::str(c.knotsFlats()).c_str());
    if (c.poles() != poles) mc::fail("report-poles", "poles differ");
    if (c.knots() != u || c.mults() != m) mc::fail("report-mults", "knots()/mults() differ");
    if (c.bounds()[0] != k.front() || c.bounds()[1] != k.back()) mc::fail("report-bounds", "bounds %s", ref::str(c.bounds()).c_str());
    auto [pi, ki, di] = c.info();
    if (pi != poles || ki != k || di != p) mc::fail("report-info", "info() differs");
    for (size_t i = 0; i < poles.size(); i++) if (c.pole(i) != poles[i]) mc::fail("report-pole", "pole(%zu)", i);
    if (attempt([&] { c.pole(poles.size()); })) mc::fail("report-pole-oob", "pole() accepts an index past the end");
}

static void curves(const std::vector<double> &k)
{
    std::vector<double> u; std::vector<size_t> m;
    rle(k, u, m);
    for (size_t p : {size_t(0), size_t(1), size_t(2), size_t(3), HUGE_DEG, HUGE_DEG - 1})
        for (size_t np = 0; np <= 7; np++)
        {
            auto d = D(k, p, np);
            bool exp = consistent(np, k, p);
            auto P = ref::poles<2>(np);
            auto H = ref::hpoles<2>(np);
            std::vector<double> F(np), W(np);
            std::vector<std::array<double, 1>> P1(np);
            for (size_t i = 0; i < np; i++) { F[i] = P[i][0]; W[i] = ref::weight(i); P1[i] = {F[i]}; }
            mc::state();
            auto judge = [&](const char *form, int got) {
                mc::step();
                mc::outcome(mc::mix(got, exp));
                if (got != (int)exp) mc::fail(std::string(form) + (exp ? "-refused" : "-accepted"), "%s data %s", exp ? "consistent" : "inconsistent", got ? "accepted" : "refused");
            };
            mc::at("%s", d.c_str());
            judge("flat", attempt([&] { BSCurve<double, 2> c(P, k, p); reports(c, P, k, p); }));
            judge("flat-rational", attempt([&] { BSCurveRational<double, 2> c(H, k, p); reports(c, H, k, p); }));
            judge("flat-rational-unit", attempt([&] {
                BSCurveRational<double, 2> c(P, k, p);
                auto pp = c.polesProjected();
                auto w = c.weights();
                if (pp != P || w != std::vector<double>(np, 1.) || c.knotsFlats() != k) mc::fail("report-unit", "unit weight curve");
            }));
            judge("function", attempt([&] { BSCfunction<double> f(F, k, p); reports(f.basisCurve(), P1, k, p); if (f.bounds() != f.basisCurve().bounds()) mc::fail("report-bounds", "function bounds"); }));
            judge("mults", attempt([&] { BSCurve<double, 2> c(P, u, m, p); reports(c, P, k, p); }));
            judge("mults-function", attempt([&] { BSCfunction<double> c(F, u, m, p); reports(c.basisCurve(), P1, k, p); }));
            judge("mults-rational", attempt([&] { BSCurveRational<double, 2> c(H, u, m, p); reports(c, H, k, p); }));
            // weights of every length
            for (size_t nw = 0; nw <= np + 1; nw++)
            {
                mc::at("%s weights=%zu", d.c_str(), nw);
                std::vector<double> w(nw);
                for (size_t i = 0; i < nw; i++) w[i] = ref::weight(i);
                bool e2 = exp && nw == np;
                auto chk = [&](const BSCurveRational<double, 2> &c) {
                    if (c.knotsFlats() != k || c.degree() != p || c.bounds()[0] != k.front() || c.bounds()[1] != k.back()) mc::fail("report-weights-knots", "knots or degree differ");
                    if (c.weights() != w) mc::fail("report-weights", "weights differ");
                    for (size_t i = 0; i < np; i++) for (size_t j = 0; j < 2; j++) if (std::fabs(c.polesProjected()[i][j] - P[i][j]) > 1e-12) mc::fail("report-weights-poles", "projected poles differ");
                };
                int g1 = attempt([&] { BSCurveRational<double, 2> c(P, k, w, p); chk(c); });
                int g2 = attempt([&] { BSCurveRational<double, 2> c(P, u, m, w, p); chk(c); });
                int g3 = attempt([&] { BSCurveGeneral<double, 2, true> *q = nullptr; BSCurveRational<double, 2> c(P, w, u, m, p); (void)q; chk(c); });
                mc::step(3);
                if (g1 != (int)e2) mc::fail(e2 ? "weights-refused" : "weights-accepted", "flat form with %zu weights for %zu poles", nw, np);
                if (g2 != (int)e2) mc::fail(e2 ? "weights-mults-refused" : "weights-mults-accepted", "multiplicity form with %zu weights for %zu poles", nw, np);
                if (g3 != (int)e2) mc::fail(e2 ? "weights-first-refused" : "weights-first-accepted", "weights-first form with %zu weights for %zu poles", nw, np);
            }
            // knots/multiplicities lengths that disagree
            if (np <= 4)
            {
                auto m2 = m; m2.push_back(1);
                auto u2 = u; u2.push_back(9);
                mc::at("%s mismatched multiplicities", d.c_str());
                if (attempt([&] { BSCurve<double, 2> c(P, u, m2, p); }) || attempt([&] { BSCurve<double, 2> c(P, u2, m, p); }) || attempt([&] { BSCurveRational<double, 2> c(P, u, m2, W, p); }) || attempt([&] { BSCfunction<double> c(F, u2, m, p); }))
                    mc::fail("mults-length-accepted", "knots and multiplicities of different lengths accepted");
                mc::step(4);
            }
            // multiplicity zero means the knot is not there
            if (exp)
            {
                for (size_t pos = 0; pos <= u.size(); pos++)
                {
                    auto uz = u; auto mz = m;
                    double v = pos == 0 ? u.front() - 1 : pos == u.size() ? u.back() + 1 : 0.5 * (u[pos - 1] + u[pos]);
                    uz.insert(uz.begin() + pos, v);
                    mz.insert(mz.begin() + pos, 0);
                    mc::at("%s zero multiplicity knot at position %zu", d.c_str(), pos);
                    mc::step();
                    if (attempt([&] { BSCurve<double, 2> c(P, uz, mz, p); reports(c, P, k, p); }) != 1) mc::fail("mult-zero-refused", "refused");
                }
                // pole replacement keeps the object consistent
                BSCurve<double, 2> c(P, k, p);
                for (int dn : {-1, 1})
                {
                    auto Q = ref::poles<2>(np + dn, 5);
                    mc::at("%s replace poles by %zu", d.c_str(), Q.size());
                    if (attempt([&] { c.copyPoles(Q); }) || attempt([&] { auto q = Q; c.movePoles(q); })) mc::fail("replace-accepted", "wrong pole count accepted");
                    reports(c, P, k, p);
                    mc::step(2);
                }
                auto Q = ref::poles<2>(np, 7);
                c.copyPoles(Q);
                reports(c, Q, k, p);
                auto q = P;
                c.movePoles(q);
                reports(c, P, k, p);
            }
            mc::sample();
        }
    // flat knots <-> knots and multiplicities (sorted, non empty)
    if (!k.empty() && std::is_sorted(k.begin(), k.end()))
    {
        mc::at("flat/unflat %s", ref::str(k).c_str());
        auto fk = flat_knots(u, m);
        auto [ku, km] = knots_and_mults(k);
        std::vector<size_t> m3; std::vector<double> u3, u4;
        unflat_knots(k, m3, u3);
        unflat_knots(k, u4);
        auto pr = unflat_knots(k);
        mc::step(5);
        if (fk != k || ku != u || km != m || m3 != m || u3 != u || u4 != u || pr.size() != u.size()) mc::fail("unflat", "flat knots and knots/multiplicities do not describe each other");
        for (size_t i = 0; i < u.size(); i++)
        {
            if (pr[i].first != u[i] || pr[i].second != m[i]) mc::fail("unflat-pairs", "pair %zu", i);
            if (multiplicity(k, u[i]) != m[i] || (size_t)multiplicity(u[i], k) != m[i]) mc::fail("multiplicity", "knot %g", u[i]);
        }
        if (multiplicity(k, 0.123) != 0 || multiplicity(0.123, k) != 0) mc::fail("multiplicity", "value that is no knot");
    }
}

static void surfaces(const std::vector<double> &ku, const std::vector<std::vector<double>> &kvs)
{
    for (auto &kv : kvs)
        for (size_t p : {size_t(0), size_t(1), size_t(2), HUGE_DEG})
            for (size_t q : {size_t(0), size_t(1), size_t(2), size_t(3), HUGE_DEG})
                for (size_t np = 0; np <= 10; np++)
                {
                    if (np == 5 || np == 7) continue;
                    mc::state();
                    mc::at("ku=%s kv=%s pu=%zu pv=%zu poles=%zu", ref::str(ku).c_str(), ref::str(kv).c_str(), p, q, np);
                    size_t nu = p < ku.size() ? ku.size() - p - 1 : 0, nv = q < kv.size() ? kv.size() - q - 1 : 0;
                    bool exp = nu && nv && consistent(nu, ku, p) && consistent(nv, kv, q) && nu * nv == np;
                    auto P = ref::poles<3>(np);
                    auto H = ref::hpoles<3>(np);
                    std::vector<double> W(np), F(np), uu, uv;
                    std::vector<std::array<double, 1>> P1(np);
                    std::vector<size_t> mu, mv;
                    rle(ku, uu, mu); rle(kv, uv, mv);
                    for (size_t i = 0; i < np; i++) { W[i] = ref::weight(i); F[i] = P[i][0]; P1[i] = {F[i]}; }
                    auto rep = [&](const auto &s, const auto &poles) {
                        if (s.degreeU() != p || s.degreeV() != q || s.orderU() != p + 1 || s.orderV() != q + 1) mc::fail("surf-report-degree", "degrees");
                        if (s.knotsFlatsU() != ku || s.knotsFlatsV() != kv) mc::fail("surf-report-knots", "knots");
                        if (s.knotsU() != uu || s.knotsV() != uv || s.multsU() != mu || s.multsV() != mv) mc::fail("surf-report-mults", "knots/multiplicities");
                        if (s.poles() != poles || s.nPolesU() != nu || s.nPolesV() != nv) mc::fail("surf-report-poles", "poles");
                        auto b = s.bounds();
                        if (b[0] != ku.front() || b[1] != ku.back() || b[2] != kv.front() || b[3] != kv.back()) mc::fail("surf-report-bounds", "bounds %s", ref::str(b).c_str());
                    };
                    auto judge = [&](const char *form, int got, bool e) {
                        mc::step();
                        mc::outcome(mc::mix(got, e) + 100);
                        if (got != (int)e) mc::fail(std::string("surf-") + form + (e ? "-refused" : "-accepted"), "%s data %s", e ? "consistent" : "inconsistent", got ? "accepted" : "refused");
                    };
                    judge("flat", attempt([&] { BSSurface<double, 3> s(P, ku, kv, p, q); rep(s, P); }), exp);
                    judge("mults", attempt([&] { BSSurface<double, 3> s(P, uu, uv, mu, mv, p, q); rep(s, P); }), exp);
                    judge("flat-rational", attempt([&] { BSSurfaceRational<double, 3> s(H, ku, kv, p, q); rep(s, H); }), exp);
                    judge("function", attempt([&] { BSSfunction<double> s(F, ku, kv, p, q); rep(s.basisSurface(), P1); }), exp);
                    judge("function-mults", attempt([&] { BSSfunction<double> s(F, uu, uv, mu, mv, p, q); rep(s.basisSurface(), P1); }), exp);
                    for (int dw : {-1, 0, 1})
                    {
                        if (dw < 0 && !np) continue;
                        auto w = W;
                        w.resize(np + dw, 1.);
                        auto chk = [&](const BSSurfaceRational<double, 3> &s) {
                            if (s.weights() != w) mc::fail("surf-report-weights", "weights");
                            for (size_t i = 0; i < np; i++) for (size_t c = 0; c < 3; c++) if (std::fabs(s.polesProjected()[i][c] - P[i][c]) > 1e-12) mc::fail("surf-report-weights-poles", "projected poles");
                            rep(s, s.poles());
                        };
                        judge("weights", attempt([&] { BSSurfaceRational<double, 3> s(P, w, ku, kv, p, q); chk(s); }), exp && !dw);
                        judge("weights-mults", attempt([&] { BSSurfaceRational<double, 3> s(P, w, uu, uv, mu, mv, p, q); chk(s); }), exp && !dw);
                    }
                    {
                        auto m2 = mu; m2.push_back(1);
                        judge("mults-length", attempt([&] { BSSurface<double, 3> s(P, uu, uv, m2, mv, p, q); }), false);
                    }
                    if (exp)
                    {
                        BSSurface<double, 3> s(P, ku, kv, p, q);
                        for (int dn : {-1, 1})
                        {
                            auto Q = ref::poles<3>(np + dn, 5);
                            judge("replace", attempt([&] { s.copyPoles(Q); }), false);
                            judge("replace", attempt([&] { auto x = Q; s.movePoles(x); }), false);
                            rep(s, P);
                        }
                        auto [pi, ki, kj, di, dj] = s.info();
                        BSSurface<double, 3> s2(s.info());
                        rep(s2, P);
                        auto Q = ref::poles<3>(np, 7);
                        s.copyPoles(Q);
                        rep(s, Q);
                        mc::sample();
                    }
                }
}

static std::vector<mc::Unit> units()
{
    std::vector<mc::Unit> r;
    size_t L = mc::thorough() ? 8 : 7;
    // all sequences over 3 values, split by prefix
    r.push_back({"curve-short", [] { for (auto &k : seqs(0, 2, {0., 1., 2.5})) curves(k); }});
    for (int a = 0; a < 9; a++)
        r.push_back({"curve-prefix" + std::to_string(a), [=] {
                         std::vector<double> al{0., 1., 2.5};
                         for (auto &t : seqs(1, L - 2, al)) { std::vector<double> k{al[a / 3], al[a % 3]}; k.insert(k.end(), t.begin(), t.end()); curves(k); }
                     }});
    // sorted sequences only, longer
    r.push_back({"curve-sorted", [=] {
                     for (size_t m = 1; m <= 4; m++)
                         for (auto &mu : ref::mults(m, 4))
                         {
                             std::vector<double> k;
                             for (size_t i = 0; i < m; i++) k.insert(k.end(), mu[i], -1. + 0.75 * i * i);
                             if (k.size() > 11) continue;
                             curves(k);
                         }
                 }});
    auto ks = seqs(0, 4, {0., 1.});
    for (auto x : std::vector<std::vector<double>>{{0, 0, 0, 1, 1, 1}, {0, 0, 0.5, 1, 1}, {0, 0, 2, 1, 1}, {0, 0, 0, 1, 1}, {0, 0, 0, 0, 1, 1, 1, 1}, {0, 0, 1, 1, 2, 2}, {0, 0, 0, 1, 0, 1}}) ks.push_back(x);
    size_t n = ks.size();
    for (size_t i = 0; i < n; i++)
        r.push_back({"surf-" + std::to_string(i), [=] { surfaces(ks[i], ks); }});
    return r;
}
MC_MAIN(units)
