// C02: every (rational) tensor-product surface of the bounded family evaluates, with all mixed
// derivatives, to the textbook definition; isos and multi-evaluations agree; outside is an error.
#include "mc.h"
#include "ref.h"
#include <gbs/bssurf.h>
#include <list>
using namespace gbs;

struct Dir { size_t p; std::vector<double> br; std::vector<size_t> mu; std::vector<double> k; size_t n; };
static std::string ds(const Dir &u, const Dir &v)
{
    return "pu=" + std::to_string(u.p) + " ku=" + ref::str(u.k) + " pv=" + std::to_string(v.p) + " kv=" + ref::str(v.k);
}
static std::vector<Dir> dirs(size_t p, size_t m, int spacing, size_t mmax)
{
    std::vector<Dir> r;
    auto br = ref::breaks(m, spacing);
    for (auto &mu : ref::mults(m, mmax))
    {
        Dir d{p, br, mu, ref::flat(br, mu, p), 0};
        d.n = d.k.size() - p - 1;
        r.push_back(d);
    }
    return r;
}
template <typename P1, size_t dim> static bool near_(const std::array<P1, dim> &a, const std::array<P1, dim> &b, double t)
{
    for (size_t i = 0; i < dim; i++) if (!(std::fabs(a[i] - b[i]) <= t * (1e-9 + std::fabs(a[i]) + std::fabs(b[i])))) return false;
    return true;
}

template <size_t dim, typename Srf>
static void check(const Srf &s, const Dir &U, const Dir &V, bool rational, const std::vector<double> &us, const std::vector<double> &vs, size_t ou, size_t ov, const char *what)
{
    auto ku = ref::to_real(U.k), kv = ref::to_real(V.k);
    auto D = ds(U, V);
    ref::real tol = 1e-9L;
    std::vector<std::array<double, 2>> uv;
    std::vector<double> ul, vl;
    std::vector<std::vector<ref::Val>> refs;
    for (double u : us)
        for (double v : vs)
        {
            mc::at("%s %s u=%.17g v=%.17g", what, D.c_str(), u, v);
            auto r = ref::surf(ku, kv, U.p, V.p, s.poles(), rational, u, v, ou, ov);
            std::vector<std::array<double, dim>> K((ou + 1) * (ov + 1) + 1);
            for (auto &x : K) x.fill(777);
            s.derivatives(u, v, ou, ov, K.data());
            mc::step();
            for (size_t a = 0; a <= ou; a++)
                for (size_t b = 0; b <= ov; b++)
                {
                    auto &e = r[a * (ov + 1) + b];
                    auto x = s.value(u, v, a, b);
                    auto y = s(std::array<double, 2>{u, v}, a, b);
                    mc::step(2);
                    if (!ref::close(x, e, tol)) mc::fail("value", "du=%zu dv=%zu got %s expected %s", a, b, ref::str(x).c_str(), ref::str(e.v).c_str());
                    if (!near_(x, y, 1e-12) || !near_(x, s(u, v, a, b), 1e-12) || !near_(x, static_cast<const Surface<double, dim> &>(s).value(std::array<double, 2>{u, v}, a, b), 1e-12)) mc::fail("call-operator", "du=%zu dv=%zu", a, b);
                    if (!ref::close(K[a * (ov + 1) + b], e, tol)) mc::fail("derivatives", "du=%zu dv=%zu got %s expected %s", a, b, ref::str(K[a * (ov + 1) + b]).c_str(), ref::str(e.v).c_str());
                    mc::outcome(mc::mixd(a * 7 + b, x[0]));
                }
            if (K.back()[0] != 777) mc::fail("derivatives-overrun", "wrote past the requested orders");
            // every smaller rectangular order set
            for (size_t a = 0; a <= ou; a++)
                for (size_t b = 0; b <= ov; b++)
                {
                    if (a + b > 4 || (a == ou && b == ov)) continue;
                    std::vector<std::array<double, dim>> L((a + 1) * (b + 1) + 1);
                    for (auto &x : L) x.fill(777);
                    s.derivatives(u, v, a, b, L.data());
                    mc::step();
                    for (size_t i = 0; i <= a; i++)
                        for (size_t j = 0; j <= b; j++)
                            if (!ref::close(L[i * (b + 1) + j], r[i * (ov + 1) + j], tol)) mc::fail("derivatives-sub", "orders (%zu,%zu) entry (%zu,%zu) got %s expected %s", a, b, i, j, ref::str(L[i * (b + 1) + j]).c_str(), ref::str(r[i * (ov + 1) + j].v).c_str());
                    if (L.back()[0] != 777) mc::fail("derivatives-overrun", "wrote past the requested orders (%zu,%zu)", a, b);
                }
            // tangent and arc length derivatives
            if (ou >= 1 && ov >= 1)
            {
                auto &eu = r[ov + 1], &ev = r[1];
                auto t = s.tangent(u, v, 0.75, -2.);
                ref::Val et = eu;
                for (size_t c = 0; c < dim; c++) { et.v[c] = 0.75L * eu.v[c] - 2 * ev.v[c]; et.mag[c] = eu.mag[c] + 2 * ev.mag[c]; }
                if (!ref::close(t, et, tol)) mc::fail("tangent", "got %s expected %s", ref::str(t).c_str(), ref::str(et.v).c_str());
                for (int dir = 0; dir < 2 && dim > 1; dir++)
                {
                    auto &c1 = (dir ? ev : eu).v, &m1 = (dir ? ev : eu).mag;
                    ref::real s2 = 0, mg = 0, dot = 0, m2 = 0;
                    for (size_t c = 0; c < dim; c++) { s2 += c1[c] * c1[c]; mg += m1[c] * m1[c]; }
                    if (s2 < 1e-4 * mg || s2 < 1e-6) continue;
                    auto x = dir ? s.d_dmv(u, v) : s.d_dmu(u, v);
                    mc::step();
                    for (size_t c = 0; c < dim; c++)
                        if (!(std::fabs(x[c] - c1[c] / std::sqrt(s2)) <= 1e-7L)) mc::fail(dir ? "d_dmv" : "d_dmu", "got %s", ref::str(x).c_str());
                    if ((dir ? ov : ou) < 2) continue;
                    auto &c2v = r[dir ? 2 : 2 * (ov + 1)];
                    for (size_t c = 0; c < dim; c++) { dot += c1[c] * c2v.v[c]; m2 += c2v.mag[c] / s2; }
                    auto y = dir ? s.d_dmv2(u, v) : s.d_dmu2(u, v);
                    mc::step();
                    for (size_t c = 0; c < dim; c++)
                        if (!(std::fabs(y[c] - (c2v.v[c] * s2 - c1[c] * dot) / (s2 * s2)) <= 1e-6L * (1 + m2))) mc::fail(dir ? "d_dmv2" : "d_dmu2", "got %s", ref::str(y).c_str());
                }
            }
            uv.push_back({u, v});
            ul.push_back(u);
            vl.push_back(v);
            refs.push_back(r);
            mc::state();
            mc::sample();
        }
    // multi evaluation in all forms
    for (size_t a = 0; a <= std::min<size_t>(ou, 2); a++)
        for (size_t b = 0; b <= std::min<size_t>(ov, 2); b++)
        {
            mc::at("%s %s values du=%zu dv=%zu", what, D.c_str(), a, b);
            auto x = s.values(uv, a, b);
            auto y = s.values(ul, vl, a, b);
            std::list<std::array<double, 2>> lst(uv.begin(), uv.end());
            auto z = s.values(lst, a, b);
            mc::step(3);
            if (x.size() != uv.size() || y.size() != uv.size() || z.size() != uv.size()) { mc::fail("values-size", "%zu %zu", x.size(), y.size()); continue; }
            for (size_t i = 0; i < uv.size(); i++)
            {
                auto &e = refs[i][a * (ov + 1) + b];
                if (!ref::close(x[i], e, tol)) mc::fail("values", "index %zu got %s expected %s", i, ref::str(x[i]).c_str(), ref::str(e.v).c_str());
                if (!ref::close(y[i], e, tol)) mc::fail("values-two-lists", "index %zu got %s expected %s", i, ref::str(y[i]).c_str(), ref::str(e.v).c_str());
                if (!ref::close(z[i], e, tol)) mc::fail("values-list", "index %zu got %s expected %s", i, ref::str(z[i]).c_str(), ref::str(e.v).c_str());
            }
        }
    // iso-parametric curves (continuous surfaces: an iso on a discontinuity has two candidates)
    auto cont = [](const Dir &d) { for (auto m : d.mu) if (m > d.p) return false; return true; };
    if (cont(U))
        for (double u : us)
        {
            mc::at("%s %s isoU(%.17g)", what, D.c_str(), u);
            auto c = s.isoU(u);
            mc::step();
            if (c.degree() != V.p || c.knotsFlats() != V.k || c.bounds()[0] != V.br.front() || c.bounds()[1] != V.br.back()) mc::fail("isoU-def", "degree, knots or bounds of the iso differ from the surface's v direction");
            for (double v : vs)
            {
                auto r = ref::surf(ku, kv, U.p, V.p, s.poles(), rational, u, v, 0, 1);
                auto x = c.value(v), y = c.value(v, 1);
                mc::step(2);
                if (!ref::close(x, r[0], tol)) mc::fail("isoU", "v=%.17g got %s expected %s", v, ref::str(x).c_str(), ref::str(r[0].v).c_str());
                if (!ref::close(y, r[1], tol)) mc::fail("isoU-d1", "v=%.17g got %s expected %s", v, ref::str(y).c_str(), ref::str(r[1].v).c_str());
            }
        }
    if (cont(V))
        for (double v : vs)
        {
            mc::at("%s %s isoV(%.17g)", what, D.c_str(), v);
            auto c = s.isoV(v);
            mc::step();
            if (c.degree() != U.p || c.knotsFlats() != U.k || c.bounds()[0] != U.br.front() || c.bounds()[1] != U.br.back()) mc::fail("isoV-def", "degree, knots or bounds of the iso differ from the surface's u direction");
            for (double u : us)
            {
                auto r = ref::surf(ku, kv, U.p, V.p, s.poles(), rational, u, v, 1, 0);
                auto x = c.value(u), y = c.value(u, 1);
                mc::step(2);
                if (!ref::close(x, r[0], tol)) mc::fail("isoV", "u=%.17g got %s expected %s", u, ref::str(x).c_str(), ref::str(r[0].v).c_str());
                if (!ref::close(y, r[1], tol)) mc::fail("isoV-d1", "u=%.17g got %s expected %s", u, ref::str(y).c_str(), ref::str(r[1].v).c_str());
            }
        }
    // outside: error, never a value; both directions and all access paths
    {
        auto [u1, u2, v1, v2] = s.bounds();
        if (u1 != U.br.front() || u2 != U.br.back() || v1 != V.br.front() || v2 != V.br.back()) mc::fail("bounds", "bounds differ from the knot range");
        auto bu = s.boundsU(), bv = s.boundsV();
        if (bu[0] != u1 || bu[1] != u2 || bv[0] != v1 || bv[1] != v2) mc::fail("bounds-uv", "boundsU/boundsV");
        double um = 0.5 * (u1 + u2), vm = 0.5 * (v1 + v2);
        std::vector<std::array<double, 2>> bad;
        for (double e : {1e-3, 1., 1e30})
            for (double x : {um, u1, u2}) for (double y : {vm, v1, v2})
            {
                bad.push_back({u1 - e, y}); bad.push_back({u2 + e, y});
                bad.push_back({x, v1 - e}); bad.push_back({x, v2 + e});
                bad.push_back({u2 + e, v1 - e});
            }
        for (auto &w : bad)
            for (size_t a = 0; a < 2; a++) for (size_t b = 0; b < 2; b++)
            {
                mc::at("%s %s out of bounds (%g,%g) du=%zu dv=%zu", what, D.c_str(), w[0], w[1], a, b);
                int t = 0;
                try { s.value(w[0], w[1], a, b); } catch (const std::exception &) { t |= 1; }
                std::vector<std::array<double, dim>> K((a + 1) * (b + 1));
                try { s.derivatives(w[0], w[1], a, b, K.data()); } catch (const std::exception &) { t |= 2; }
                try { s.values(std::vector<std::array<double, 2>>{{um, vm}, w}, a, b); } catch (const std::exception &) { t |= 4; }
                if (t != 7) mc::fail("out-of-bounds", "no error raised (mask %d)", t);
                mc::step(3);
            }
        for (double e : {1e-3, 1., 1e30})
        {
            mc::at("%s %s iso out of bounds by %g", what, D.c_str(), e);
            int t = 0;
            try { s.isoU(u1 - e); } catch (const std::exception &) { t |= 1; }
            try { s.isoU(u2 + e); } catch (const std::exception &) { t |= 2; }
            try { s.isoV(v1 - e); } catch (const std::exception &) { t |= 4; }
            try { s.isoV(v2 + e); } catch (const std::exception &) { t |= 8; }
            if (t != 15) mc::fail("iso-out-of-bounds", "no error raised (mask %d)", t);
            mc::step(4);
        }
    }
    // pole access in rows, columns and pairs
    {
        mc::at("%s %s pole access", what, D.c_str());
        if (s.nPolesU() != U.n || s.nPolesV() != V.n) mc::fail("npoles", "pole counts");
        for (size_t i = 0; i < U.n; i++)
        {
            auto col = s.polesV(i);
            if (col.size() != V.n) mc::fail("polesV", "size");
            for (size_t j = 0; j < V.n; j++)
            {
                auto &e = s.poles()[i + U.n * j];
                if (s.pole(i, j) != e) mc::fail("pole", "pole(%zu,%zu) is not the pole of u index %zu and v index %zu", i, j, i, j);
                if (col[j] != e) mc::fail("polesV", "column %zu", i);
                if (s.polesU(j)[i] != e) mc::fail("polesU", "row %zu", j);
                mc::step();
            }
        }
        int t = 0;
        try { s.pole(U.n, 0); } catch (const std::out_of_range &) { t |= 1; }
        try { s.pole(0, V.n); } catch (const std::out_of_range &) { t |= 2; }
        if (t != 3) mc::fail("pole-oob", "no error for an index out of the grid (mask %d)", t);
    }
}

static void run(size_t pu, size_t pv, size_t mu, size_t mv, int sp)
{
    bool big = mu + mv > 2;
    for (auto &U : dirs(pu, mu, sp, pu + 1))
        for (auto &V : dirs(pv, mv, (sp + 1) % 3, pv + 1))
        {
            auto us = ref::probes(U.br, !big && pu + pv <= 4), vs = ref::probes(V.br, !big && pu + pv <= 4);
            size_t n = U.n * V.n;
            size_t ou = std::min<size_t>(pu + 1, 3), ov = std::min<size_t>(pv + 1, 3);
            check<3>(BSSurface<double, 3>(ref::poles<3>(n), U.k, V.k, pu, pv), U, V, false, us, vs, ou, ov, "poly3");
            check<3>(BSSurfaceRational<double, 3>(ref::hpoles<3>(n), U.k, V.k, pu, pv), U, V, true, us, vs, std::min<size_t>(ou, 2), std::min<size_t>(ov, 2), "rat3");
            if (!big) check<2>(BSSurfaceRational<double, 2>(ref::hpoles<2>(n, 3), U.k, V.k, pu, pv), U, V, true, us, vs, 2, 3, "rat2");
            // projected poles and weights, scalar function
            {
                mc::at("weights %s", ds(U, V).c_str());
                BSSurfaceRational<double, 3> s(ref::hpoles<3>(n), U.k, V.k, pu, pv);
                auto w = s.weights();
                auto pp = s.polesProjected();
                BSSurfaceRational<double, 3> s2(pp, w, U.k, V.k, pu, pv);
                for (size_t i = 0; i < n; i++)
                {
                    if (w[i] != ref::weight(i)) mc::fail("weights", "weight %zu", i);
                    for (size_t c = 0; c < 3; c++)
                        if (std::fabs(pp[i][c] - ref::coord(i, c)) > 1e-11 || std::fabs(s2.poles()[i][c] - s.poles()[i][c]) > 1e-11) mc::fail("poles-projected", "pole %zu", i);
                }
                std::vector<double> fp(n);
                for (size_t i = 0; i < n; i++) fp[i] = ref::coord(i, 0);
                BSSfunction<double> f(fp, U.k, V.k, pu, pv);
                for (double u : us) for (double v : vs) for (size_t a = 0; a < 3; a++) for (size_t b = 0; b < 3; b++)
                {
                    std::vector<std::array<double, 1>> P(n);
                    for (size_t i = 0; i < n; i++) P[i] = {fp[i]};
                    auto r = ref::surf(ref::to_real(U.k), ref::to_real(V.k), pu, pv, P, false, u, v, a, b);
                    std::array<double, 1> x{f(u, v, a, b)};
                    mc::step();
                    if (!ref::close(x, r.back(), 1e-9L)) mc::fail("function", "f(%g,%g,%zu,%zu)=%g expected %Lg", u, v, a, b, x[0], r.back().v[0]);
                    if (big) { a = b = 3; }
                }
            }
            // all unit poles: by linearity every polynomial surface on these knots
            if (mu + mv <= 1 || (mc::thorough() && mu + mv <= 2))
                for (size_t i = 0; i < n; i++)
                {
                    std::vector<std::array<double, 1>> P(n, {0.});
                    P[i] = {1.};
                    BSSurface<double, 1> s(P, U.k, V.k, pu, pv);
                    for (double u : us) for (double v : vs)
                    {
                        mc::at("unit pole %zu %s u=%.17g v=%.17g", i, ds(U, V).c_str(), u, v);
                        auto r = ref::surf(ref::to_real(U.k), ref::to_real(V.k), pu, pv, P, false, u, v, ou, ov);
                        auto Bu = ref::basis(ref::to_real(U.k), pu, u, ou), Bv = ref::basis(ref::to_real(V.k), pv, v, ov);
                        for (size_t a = 0; a <= ou; a++) for (size_t b = 0; b <= ov; b++)
                        {
                            auto e = r[a * (ov + 1) + b];
                            ref::real mg = 0, mh = 0;
                            for (auto x : Bu[a]) mg = std::max(mg, std::fabs(x));
                            for (auto x : Bv[b]) mh = std::max(mh, std::fabs(x));
                            e.mag[0] = mg * mh;
                            auto x = s.value(u, v, a, b);
                            mc::step();
                            if (!ref::close(x, e, 1e-9L)) mc::fail("unit-value", "du=%zu dv=%zu got %.17g expected %.17Lg", a, b, x[0], e.v[0]);
                            if ((a > pu || b > pv) && x[0] != 0) mc::fail("unit-zero", "du=%zu dv=%zu got %g", a, b, x[0]);
                        }
                        mc::state();
                    }
                }
        }
}

// degrees up to the limits of the fixed-size evaluators and above, high mixed orders
static void high(size_t pu, size_t pv)
{
    Dir U = dirs(pu, 1, 0, 1)[0], V = dirs(pv, 1, 1, 1)[0];
    size_t n = U.n * V.n;
    std::vector<std::array<double, 2>> P(n);
    std::vector<std::array<double, 3>> H(n);
    for (size_t i = 0; i < n; i++)
    {
        P[i] = {std::sin(1.3 * i), std::cos(0.7 * i * i)};
        double w = ref::weight(i);
        H[i] = {P[i][0] * w, P[i][1] * w, w};
    }
    BSSurface<double, 2> s(P, U.k, V.k, pu, pv);
    BSSurfaceRational<double, 2> r(H, U.k, V.k, pu, pv);
    for (double u : ref::probes(U.br, false)) for (double v : {V.br[0], V.br[1], V.br[2], 0.3 * V.br[0] + 0.7 * V.br[2]})
    {
        mc::at("high %s u=%.17g v=%.17g", ds(U, V).c_str(), u, v);
        size_t o = 3;
        auto ep = ref::surf(ref::to_real(U.k), ref::to_real(V.k), pu, pv, P, false, u, v, o, o), er = ref::surf(ref::to_real(U.k), ref::to_real(V.k), pu, pv, H, true, u, v, o, o);
        std::vector<std::array<double, 2>> A((o + 1) * (o + 1)), B = A;
        s.derivatives(u, v, o, o, A.data());
        r.derivatives(u, v, o, o, B.data());
        mc::step(2);
        for (size_t i = 0; i < A.size(); i++)
        {
            if (!ref::close(A[i], ep[i], 1e-8L)) mc::fail("high-poly", "entry %zu got %s expected %s", i, ref::str(A[i]).c_str(), ref::str(ep[i].v).c_str());
            if (!ref::close(B[i], er[i], 1e-8L)) mc::fail("high-rat", "entry %zu got %s expected %s", i, ref::str(B[i]).c_str(), ref::str(er[i].v).c_str());
            auto x = s.value(u, v, i / (o + 1), i % (o + 1)), y = r.value(u, v, i / (o + 1), i % (o + 1));
            if (!ref::close(x, ep[i], 1e-8L)) mc::fail("high-poly-value", "entry %zu", i);
            if (!ref::close(y, er[i], 1e-8L)) mc::fail("high-rat-value", "entry %zu", i);
            mc::step(2);
        }
        mc::state();
    }
}

static std::vector<mc::Unit> units()
{
    std::vector<mc::Unit> r;
    size_t P = mc::thorough() ? 4 : 3;
    for (size_t pu = 1; pu <= P; pu++)
        for (size_t pv = 1; pv <= P; pv++)
            for (size_t mu = 0; mu <= 2; mu++)
                for (size_t mv = 0; mv <= 2; mv++)
                    for (int sp = 0; sp < 3; sp++)
                    {
                        if (mu + mv > (mc::thorough() ? 3u : 2u)) continue;
                        if (!mc::thorough() && mu + mv == 2 && sp != 1) continue;
                        if (!mc::thorough() && (mu == 2 || mv == 2) && pu + pv > 4) continue;
                        std::ostringstream s;
                        s << "p" << pu << "x" << pv << "-m" << mu << "x" << mv << "-s" << sp;
                        r.push_back({s.str(), [=] { run(pu, pv, mu, mv, sp); }});
                    }
    for (size_t pu : {1, 5, 8, 15, 16, 23, 24})
        for (size_t pv : {2, 7, 16, 24})
        {
                        r.push_back({"high-" + std::to_string(pu) + "x" + std::to_string(pv), [=] { high(pu, pv); }});
        }
    return r;
}
MC_MAIN(units)
