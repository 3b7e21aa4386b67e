// C10: derived curves and surfaces are what their definition says.
#include "mc.h"
#include "ref.h"
#include <gbs/curves>
#include <gbs/surfaceofrevolution.h>
#include <gbs/offsets.h>
#include <numbers>
using namespace gbs;
using ref::real;
template <size_t dim> using V = std::array<real, dim>;
template <size_t dim> using P = std::array<double, dim>;
template <size_t dim> using CP = std::shared_ptr<Curve<double, dim>>;

// reference object: value and derivatives as a function of the parameter
template <size_t dim> struct RC
{
    CP<dim> c;
    std::function<V<dim>(real, size_t)> f;
    real a, b;
    size_t maxd;
    bool finite;
    std::string name;
};
struct Pat { size_t p; std::vector<double> k; std::vector<double> br; };
static std::vector<Pat> patterns(size_t pmin, size_t pmax, size_t imax)
{
    std::vector<Pat> r;
    for (size_t p = pmin; p <= pmax; p++) for (size_t i = 0; i <= imax; i++) for (auto &m : ref::mults(i, p)) for (int sp = 0; sp < 2; sp++)
    {
        auto b = ref::breaks(i, sp);
        r.push_back({p, ref::flat(b, m, p), b});
    }
    return r;
}
template <size_t dim, bool rational>
static RC<dim> base(const Pat &x, size_t seed)
{
    RC<dim> r;
    size_t n = x.k.size() - x.p - 1;
    ref::rvec k(x.k.begin(), x.k.end());
    size_t p = x.p;
    if constexpr (rational)
    {
        auto h = ref::hpoles<dim>(n, seed);
        r.c = std::make_shared<BSCurveRational<double, dim>>(h, x.k, x.p);
        r.f = [=](real u, size_t d) { auto v = ref::curve(k, p, h, true, u, d)[d].v; V<dim> o; for (size_t c = 0; c < dim; c++) o[c] = v[c]; return o; };
    }
    else
    {
        auto h = ref::poles<dim>(n, seed);
        r.c = std::make_shared<BSCurve<double, dim>>(h, x.k, x.p);
        r.f = [=](real u, size_t d) { auto v = ref::curve(k, p, h, false, u, d)[d].v; V<dim> o; for (size_t c = 0; c < dim; c++) o[c] = v[c]; return o; };
    }
    r.a = x.br.front(); r.b = x.br.back(); r.maxd = 3; r.finite = true;
    r.name = (rational ? "R" : "B") + std::to_string(p) + ref::str(x.k);
    return r;
}
// ---- combinators ---------------------------------------------------------------------------------
template <size_t dim> static RC<dim> trim(const RC<dim> &x, double s, double t)
{
    RC<dim> r = x;
    real L = x.finite ? x.b - x.a : 1;
    double u1 = (double)((x.finite ? x.a : -1) + L * s), u2 = (double)((x.finite ? x.a : -1) + L * t);
    if (!x.finite) { u1 = -2.5; u2 = 4.25; }
    r.c = std::make_shared<CurveTrimmed<double, dim>>(x.c, u1, u2);
    r.a = u1; r.b = u2; r.finite = true;
    r.name = "trim(" + x.name + ")";
    return r;
}
template <size_t dim> static RC<dim> rev(const RC<dim> &x)
{
    RC<dim> r = x;
    r.c = std::make_shared<CurveReversed<double, dim>>(x.c);
    auto f = x.f; real a = x.a, b = x.b;
    r.f = [=](real u, size_t d) { auto v = f(b - (u - a), d); if (d % 2) for (auto &z : v) z = -z; return v; };
    r.name = "reverse(" + x.name + ")";
    return r;
}
template <size_t dim> static RC<dim> ext(const RC<dim> &x, bool clamped)
{
    RC<dim> r = x;
    r.c = std::make_shared<CurveExtended<double, dim>>(x.c, clamped);
    auto f = x.f; real a = x.a, b = x.b;
    r.f = [=](real u, size_t d)
    {
        if (u >= a && u <= b) return f(u, d);
        real e = u < a ? a : b;
        if (clamped) return f(e, d);
        if (d == 0) { auto v = f(e, 0), t = f(e, 1); for (size_t i = 0; i < dim; i++) v[i] += t[i] * (u - e); return v; }
        if (d == 1) return f(e, 1);
        return V<dim>{};
    };
    r.finite = false;
    r.name = std::string(clamped ? "clamp(" : "extend(") + x.name + ")";
    return r;
}
template <size_t dim> static RC<dim> repar(const RC<dim> &x, int kind)
{
    RC<dim> r = x;
    real a = x.a, b = x.b, L = b - a;
    // monotone cubic / linear law from [1,3] to the curve's range
    std::vector<double> pol; std::vector<double> k; size_t p;
    if (kind == 0) { p = 1; k = {1, 1, 3, 3}; pol = {(double)a, (double)b}; }
    else { p = 3; k = {1, 1, 1, 1, 2, 3, 3, 3, 3}; pol = {(double)a, (double)(a + 0.15L * L), (double)(a + 0.35L * L), (double)(a + 0.9L * L), (double)b}; }
    BSCfunction<double> g(pol, k, p);
    r.c = std::make_shared<CurveReparametrized<double, dim>>(x.c, g);
    std::vector<P<1>> gp; for (auto v : pol) gp.push_back({v});
    ref::rvec rk(k.begin(), k.end());
    auto G = [=](real m, size_t d) { return ref::curve(rk, p, gp, false, m, d)[d].v[0]; };
    auto f = x.f;
    r.f = [=](real m, size_t d)
    {
        real u = std::clamp(G(m, 0), a, b);
        if (d == 0) return f(u, 0);
        real g1 = G(m, 1), g2 = G(m, 2);
        V<dim> o;
        auto t = f(u, 1);
        if (d == 1) { for (size_t i = 0; i < dim; i++) o[i] = t[i] * g1; return o; }
        auto s = f(u, 2);
        for (size_t i = 0; i < dim; i++) o[i] = t[i] * g2 + s[i] * g1 * g1;
        return o;
    };
    r.a = 1; r.b = 3; r.maxd = std::min<size_t>(x.maxd, 2);
    r.name = "reparam" + std::to_string(kind) + "(" + x.name + ")";
    return r;
}
template <size_t dim> static RC<dim> comp(const std::vector<RC<dim>> &L)
{
    RC<dim> r;
    std::vector<CP<dim>> cs;
    std::vector<real> u{L[0].a};
    r.maxd = 3; r.finite = true;
    r.name = "composite(";
    for (auto &x : L) { cs.push_back(x.c); u.push_back(u.back() + (x.b - x.a)); r.maxd = std::min(r.maxd, x.maxd); r.name += x.name + " "; }
    r.name += ")";
    r.c = std::make_shared<CurveComposite<double, dim>>(cs);
    r.a = u.front(); r.b = u.back();
    r.f = [=](real t, size_t d)
    {
        size_t i = 0;
        while (i + 1 < L.size() && t >= u[i + 1]) i++;
        return L[i].f(t - u[i] + L[i].a, d);
    };
    return r;
}
static V<3> crossv(const V<3> &a, const V<3> &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static real dotv(const V<3> &a, const V<3> &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

template <size_t dim>
static void check(const RC<dim> &x, const char *key)
{
    mc::state();
    mc::at("%s", x.name.c_str());
    auto B = x.c->bounds();
    mc::step();
    if (x.finite)
    {
        if (!(std::fabs(B[0] - (double)x.a) < 1e-9 && std::fabs(B[1] - (double)x.b) < 1e-9)) { mc::fail(std::string(key) + "-bounds", "(%g,%g) expected (%g,%g)", B[0], B[1], (double)x.a, (double)x.b); return; }
    }
    std::vector<double> T;
    if (x.finite) for (double s : {0., 0.041, 0.13, 0.29, 0.437, 0.611, 0.773, 0.94, 1.}) T.push_back(s == 0 ? B[0] : s == 1 ? B[1] : B[0] + (B[1] - B[0]) * s);
    else T = {-7.3, -2.1, (double)x.a + 1e-3, 0.13 * (double)(x.b - x.a) + (double)x.a, 0.79 * (double)(x.b - x.a) + (double)x.a, (double)x.b - 1e-3, 3.9, 20.7};
    for (auto u : T) for (size_t d = 0; d <= x.maxd; d++)
    {
        auto X = x.c->value(u, d);
        auto Y = x.f(std::clamp<real>(u, x.finite ? x.a : (real)u, x.finite ? x.b : (real)u), d);
        mc::step();
        double m = 1e-3;
        for (auto z : Y) m += std::fabs((double)z);
        // scale of the object, so that cancellations are judged fairly
        double sc = 1; for (size_t q = 0; q < d; q++) sc *= 30;
        for (size_t c = 0; c < dim; c++)
            if (!(std::fabs(X[c] - (double)Y[c]) <= 1e-8 * (m + sc))) { mc::fail(key, "derivative %zu at %.17g is %s expected %s", d, u, ref::str(X).c_str(), ref::str(Y).c_str()); return; }
        mc::outcome(mc::mixd(d, X[0]));
    }
    if (x.finite)
    {
        // begin and end are the curve at its bounds
        auto e = x.c->end(), b = x.c->begin();
        if (e != x.c->value(B[1]) || b != x.c->value(B[0])) mc::fail(std::string(key) + "-ends", "begin/end differ from the evaluation at the bounds");
        // outside: an error, never a silent value
        for (double u : {B[0] - 0.5, B[1] + 0.5})
        {
            bool thrown = false;
            try { x.c->value(u); } catch (std::exception &) { thrown = true; }
            mc::step();
            if (!thrown) mc::fail(std::string(key) + "-outside", "evaluation at %g outside (%g,%g) is accepted", u, B[0], B[1]);
        }
        // a rounding error beyond the bounds must not read outside the object
        for (double u : {std::nextafter(B[0], -1e9), std::nextafter(B[1], 1e9)})
        {
            mc::step();
            try { auto v = x.c->value(u); for (size_t c = 0; c < dim; c++) if (!(std::fabs(v[c] - (u < B[0] ? b : e)[c]) < 1e-6)) { mc::fail(std::string(key) + "-near", "one rounding error outside gives %s", ref::str(v).c_str()); break; } }
            catch (std::exception &) {}
        }
    }
}
// every chain of adaptors up to the given depth
template <size_t dim>
static void chains(const RC<dim> &x, const RC<dim> &other, int depth)
{
    check(x, "adaptor");
    if (!depth) return;
    if (x.finite)
    {
        chains(trim(x, 0.17, 0.83), other, depth - 1);
        chains(rev(x), other, depth - 1);
        chains(ext(x, false), other, depth - 1);
        chains(ext(x, true), other, depth - 1);
        chains(repar(x, 0), other, depth - 1);
        chains(repar(x, 1), other, depth - 1);
        chains(comp<dim>({x}), other, depth - 1);
        chains(comp<dim>({x, other}), other, depth - 1);
        chains(comp<dim>({other, x, x}), other, depth - 1);
    }
    else chains(trim(x, 0, 1), other, depth - 1);
}
// shared base: the derived curve follows its base
static void shared()
{
    auto L = patterns(1, 3, 1);
    for (auto &x : L)
    {
        mc::at("shared base %s", ref::str(x.k).c_str());
        mc::state();
        auto b = std::make_shared<BSCurve<double, 2>>(ref::poles<2>(x.k.size() - x.p - 1, 1), x.k, x.p);
        double a0 = x.br.front(), b0 = x.br.back();
        std::vector<std::shared_ptr<Curve<double, 2>>> D{std::make_shared<CurveTrimmed<double, 2>>(b, a0, b0), std::make_shared<CurveReversed<double, 2>>(b), std::make_shared<CurveExtended<double, 2>>(b),
            std::make_shared<CurveComposite<double, 2>>(std::vector<CP<2>>{b, b}), std::make_shared<CurveReparametrized<double, 2>>(b, BSCfunction<double>({a0, b0}, {0., 0., 1., 1.}, 1))};
        auto srf = std::make_shared<BSSurface<double, 3>>(points_vector<double, 3>{{-90., -90., 0.}, {90., -90., 1.}, {-90., 90., 2.}, {90., 90., 7.}}, std::vector<double>{-90., -90., 90., 90.}, std::vector<double>{-90., -90., 90., 90.}, 1, 1);
        CurveOnSurface<double, 3> on(std::static_pointer_cast<Curve<double, 2>>(b), std::static_pointer_cast<Surface<double, 3>>(srf));
        auto poles = b->poles();
        for (auto &q : poles) q[0] += 3.5;
        auto before = on.value(a0);
        std::vector<P<2>> old; for (auto &d : D) old.push_back(d->value(a0 + (d->bounds()[0] == 0 ? -a0 : 0)));
        b->movePoles(poles);
        for (size_t i = 0; i < D.size(); i++)
        {
            auto v = D[i]->value(a0 + (D[i]->bounds()[0] == 0 ? -a0 : 0));
            mc::step();
            if (std::fabs(v[0] - old[i][0] - 3.5) > 1e-9 || std::fabs(v[1] - old[i][1]) > 1e-9) mc::fail("shared", "adaptor %zu does not follow its base curve", i);
        }
        if (std::fabs(on.value(a0)[0] - before[0] - 3.5) > 1e-9) mc::fail("shared", "curve on surface does not follow its base curve");
    }
    mc::sample();
}
// ---- curve on surface ----------------------------------------------------------------------------
template <bool rational>
static void on_surface(const Pat &x, const Pat &a, const Pat &b)
{
    // 2D curve inside [0.1,0.9] of the surface's ranges
    size_t n = x.k.size() - x.p - 1;
    std::vector<P<2>> q(n);
    double ua = a.br.front(), ub = a.br.back(), va = b.br.front(), vb = b.br.back();
    for (size_t i = 0; i < n; i++) q[i] = {ua + (ub - ua) * (0.5 + 0.4 * std::sin(1. + 2.3 * i)), va + (vb - va) * (0.5 + 0.4 * std::cos(0.4 + 1.7 * i))};
    auto c = std::make_shared<BSCurve<double, 2>>(q, x.k, x.p);
    ref::rvec k(x.k.begin(), x.k.end()), ku(a.k.begin(), a.k.end()), kv(b.k.begin(), b.k.end());
    size_t nu = a.k.size() - a.p - 1, nv = b.k.size() - b.p - 1;
    RC<3> r;
    auto chain = [=](auto poles, bool rat)
    {
        return [=](real t, size_t d)
        {
            auto C = ref::curve(k, x.p, q, false, t, 2);
            auto S = ref::surf(ku, kv, a.p, b.p, poles, rat, C[0].v[0], C[0].v[1], 2, 2);
            auto at = [&](size_t i, size_t j, size_t e) { return S[i * 3 + j].v[e]; };
            V<3> o;
            real u1 = C[1].v[0], v1 = C[1].v[1], u2 = C[2].v[0], v2 = C[2].v[1];
            for (size_t e = 0; e < 3; e++)
                o[e] = d == 0 ? at(0, 0, e) : d == 1 ? at(1, 0, e) * u1 + at(0, 1, e) * v1
                     : at(2, 0, e) * u1 * u1 + 2 * at(1, 1, e) * u1 * v1 + at(0, 2, e) * v1 * v1 + at(1, 0, e) * u2 + at(0, 1, e) * v2;
            return o;
        };
    };
    if constexpr (rational) { auto h = ref::hpoles<3>(nu * nv, 2); r.c = std::make_shared<CurveOnSurface<double, 3>>(c, std::make_shared<BSSurfaceRational<double, 3>>(h, a.k, b.k, a.p, b.p)); r.f = chain(h, true); }
    else { auto h = ref::poles<3>(nu * nv, 2); r.c = std::make_shared<CurveOnSurface<double, 3>>(*c, BSSurface<double, 3>(h, a.k, b.k, a.p, b.p)); r.f = chain(h, false); }
    r.a = x.br.front(); r.b = x.br.back(); r.maxd = 2; r.finite = true;
    r.name = std::string("on-surface") + (rational ? " rational" : "") + " curve p" + std::to_string(x.p) + ref::str(x.k) + " surface p" + std::to_string(a.p) + ref::str(a.k) + " q" + std::to_string(b.p) + ref::str(b.k);
    check(r, "on-surface");
    check(rev(r), "on-surface");
    check(trim(r, 0.2, 0.7), "on-surface");
    check(repar(r, 1), "on-surface");
}
// ---- offsets -------------------------------------------------------------------------------------
static void offsets(const Pat &x)
{
    // gently bent curves: the tangent never vanishes
    size_t n = x.k.size() - x.p - 1;
    double a = x.br.front(), b = x.br.back();
    for (int kind = 0; kind < 3; kind++) for (double s : {0.4, -0.7})
    {
        // offset law: constant, linear, cubic
        std::vector<double> pol = kind == 0 ? std::vector<double>{s, s} : kind == 1 ? std::vector<double>{s, 2 * s} : std::vector<double>{s, 1.5 * s, 0.2 * s, s};
        size_t q = kind == 2 ? 3 : 1;
        std::vector<double> kk(q + 1, a); kk.insert(kk.end(), q + 1, b);
        BSCfunction<double> off(pol, kk, q);
        std::vector<P<1>> gp; for (auto v : pol) gp.push_back({v});
        ref::rvec rk(kk.begin(), kk.end()), k(x.k.begin(), x.k.end());
        size_t p = x.p;
        auto G = [=](real m, size_t d) { return ref::curve(rk, q, gp, false, m, d)[d].v[0]; };
        {
            std::vector<P<2>> h(n);
            for (size_t i = 0; i < n; i++) h[i] = {1.5 * i, 0.8 * std::sin(1.3 * i + 0.4)};
            CP<2> c = std::make_shared<BSCurve<double, 2>>(h, x.k, x.p);
            RC<2> r;
            r.f = [=](real u, size_t d)
            {
                auto C = ref::curve(k, p, h, false, u, 3);
                // w = (-y', x'), n = w / |w|
                auto w = [&](size_t i) { return V<3>{-C[i + 1].v[1], C[i + 1].v[0], 0}; };
                V<3> w0 = w(0), w1 = w(1), w2 = w(2);
                real R = std::sqrt(dotv(w0, w0)), R1 = dotv(w0, w1) / R, R2 = (dotv(w1, w1) + dotv(w0, w2) - R1 * R1) / R;
                real o0 = G(u, 0), o1 = G(u, 1), o2 = G(u, 2);
                V<2> out;
                for (size_t e = 0; e < 2; e++)
                {
                    real n0 = w0[e] / R, n1 = w1[e] / R - w0[e] * R1 / (R * R), n2 = w2[e] / R - 2 * w1[e] * R1 / (R * R) - w0[e] * R2 / (R * R) + 2 * w0[e] * R1 * R1 / (R * R * R);
                    out[e] = d == 0 ? C[0].v[e] + n0 * o0 : d == 1 ? C[1].v[e] + n1 * o0 + n0 * o1 : C[2].v[e] + n2 * o0 + 2 * n1 * o1 + n0 * o2;
                }
                return out;
            };
            r.a = a; r.b = b; r.maxd = 2; r.finite = true;
            r.name = "offset 2D p" + std::to_string(p) + ref::str(x.k) + " law " + std::to_string(kind) + " " + std::to_string(s);
            r.c = std::make_shared<CurveOffset2D<double, BSCfunction<double>>>(c, off);
            check(r, "offset2d");
            r.c = std::make_shared<CurveOffset2D<double, BSCfunction<double>>>(c, std::make_shared<BSCfunction<double>>(off));
            check(r, "offset2d");
            r.c = std::make_shared<CurveOffset2D<double, BSCfunction<double>>>(BSCurve<double, 2>(h, x.k, x.p), off);
            check(r, "offset2d");
            check(rev(r), "offset2d");
            check(repar(r, 1), "offset2d");
        }
        for (auto dir : std::vector<P<3>>{{0., 0., 1.}, {0., 0., -3.}, {0.3, 2., 0.5}, {-0.2, 0.4, -1.}})
        {
            std::vector<P<3>> h(n);
            for (size_t i = 0; i < n; i++) h[i] = {1.5 * i, 0.6 * std::sin(1.3 * i + 0.4), 0.4 * std::cos(0.7 * i)};
            CP<3> c = std::make_shared<BSCurve<double, 3>>(h, x.k, x.p);
            RC<3> r;
            r.f = [=](real u, size_t d)
            {
                auto C = ref::curve(k, p, h, false, u, 3);
                V<3> D{dir[0], dir[1], dir[2]};
                real L = std::sqrt(dotv(D, D)); for (auto &z : D) z /= L;
                auto w = [&](size_t i) { return crossv(D, V<3>{C[i + 1].v[0], C[i + 1].v[1], C[i + 1].v[2]}); };
                V<3> w0 = w(0), w1 = w(1), w2 = w(2);
                real R = std::sqrt(dotv(w0, w0)), R1 = dotv(w0, w1) / R, R2 = (dotv(w1, w1) + dotv(w0, w2) - R1 * R1) / R;
                real o0 = G(u, 0), o1 = G(u, 1), o2 = G(u, 2);
                V<3> out;
                for (size_t e = 0; e < 3; e++)
                {
                    real n0 = w0[e] / R, n1 = w1[e] / R - w0[e] * R1 / (R * R), n2 = w2[e] / R - 2 * w1[e] * R1 / (R * R) - w0[e] * R2 / (R * R) + 2 * w0[e] * R1 * R1 / (R * R * R);
                    out[e] = d == 0 ? C[0].v[e] + n0 * o0 : d == 1 ? C[1].v[e] + n1 * o0 + n0 * o1 : C[2].v[e] + n2 * o0 + 2 * n1 * o1 + n0 * o2;
                }
                return out;
            };
            r.a = a; r.b = b; r.maxd = 2; r.finite = true;
            r.name = "offset 3D p" + std::to_string(p) + ref::str(x.k) + " law " + std::to_string(kind) + " " + std::to_string(s) + " direction " + ref::str(dir);
            r.c = std::make_shared<CurveOffset3D<double, BSCfunction<double>>>(c, off, dir);
            check(r, "offset3d");
            check(rev(r), "offset3d");
        }
    }
    mc::sample();
}
static void surface_offsets(const Pat &a, const Pat &b)
{
    size_t nu = a.k.size() - a.p - 1, nv = b.k.size() - b.p - 1;
    std::vector<P<3>> h;
    for (size_t j = 0; j < nv; j++) for (size_t i = 0; i < nu; i++) h.push_back({1.4 * i + 0.1 * j, 1.1 * j - 0.2 * i, 0.5 * std::sin(1.1 * i + 2. * j)});
    BSSurface<double, 3> s(h, a.k, b.k, a.p, b.p);
    BSSfunction<double> f({0.2, 0.5, -0.3, 0.7}, {a.br.front(), a.br.front(), a.br.back(), a.br.back()}, {b.br.front(), b.br.front(), b.br.back(), b.br.back()}, 1, 1);
    ref::rvec ku(a.k.begin(), a.k.end()), kv(b.k.begin(), b.k.end());
    std::vector<double> U, W;
    for (double t : {0., 0.13, 0.41, 0.77, 1.}) U.push_back(t == 1 ? a.br.back() : a.br.front() + (a.br.back() - a.br.front()) * t);
    for (double t : {0., 0.31, 0.93, 1.}) W.push_back(t == 1 ? b.br.back() : b.br.front() + (b.br.back() - b.br.front()) * t);
    auto pts = offset_points(f, s, U, W);
    mc::state();
    if (pts.size() != U.size() * W.size()) { mc::fail("surface-offset", "%zu points", pts.size()); return; }
    for (size_t j = 0; j < W.size(); j++) for (size_t i = 0; i < U.size(); i++)
    {
        auto S = ref::surf(ku, kv, a.p, b.p, h, false, U[i], W[j], 1, 1);
        V<3> tu{S[2].v[0], S[2].v[1], S[2].v[2]}, tv{S[1].v[0], S[1].v[1], S[1].v[2]};
        auto n = crossv(tu, tv);
        real L = std::sqrt(dotv(n, n));
        real x = (U[i] - a.br.front()) / (a.br.back() - a.br.front()), y = (W[j] - b.br.front()) / (b.br.back() - b.br.front());
        real o = (1 - x) * (1 - y) * 0.2L + x * (1 - y) * 0.5L - (1 - x) * y * 0.3L + x * y * 0.7L;
        mc::step();
        for (size_t c = 0; c < 3; c++) if (!(std::fabs((double)(S[0].v[c] + n[c] / L * o) - pts[j * U.size() + i][c]) < 1e-9)) { mc::fail("surface-offset", "point (%zu,%zu) is %s", i, j, ref::str(pts[j * U.size() + i]).c_str()); return; }
    }
}
// ---- lines and circles ---------------------------------------------------------------------------
static std::vector<P<3>> directions()
{
    std::vector<P<3>> r;
    for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) if (x || y || z) { r.push_back({(double)x, (double)y, (double)z}); r.push_back({2.5 * x + 0.3 * y, 1. * y, 0.4 * z - 0.1 * x}); }
    std::vector<P<3>> o;
    for (auto &d : r) if (d[0] * d[0] + d[1] * d[1] + d[2] * d[2] > 1e-3) o.push_back(d);
    return o;
}
template <size_t dim> static double nrm(const P<dim> &a) { double s = 0; for (auto x : a) s += x * x; return std::sqrt(s); }
static void lines()
{
    auto run = [&]<size_t dim>(std::integral_constant<size_t, dim>, P<dim> o, P<dim> d)
    {
        mc::state();
        mc::at("line from %s along %s", ref::str(o).c_str(), ref::str(d).c_str());
        P<dim> q; for (size_t i = 0; i < dim; i++) q[i] = o[i] + d[i];
        for (auto &l : {Line<double, dim>(o, q), Line<double, dim>(ax1<double, dim>{o, d})})
        {
            for (double u : {0., 1., -2.5, 13.}) for (size_t k = 0; k <= 3; k++)
            {
                auto X = l.value(u, k);
                mc::step();
                for (size_t i = 0; i < dim; i++) { double e = k == 0 ? o[i] + u * d[i] / nrm(d) : k == 1 ? d[i] / nrm(d) : 0; if (!(std::fabs(X[i] - e) < 1e-9 * (1 + std::fabs(e)))) { mc::fail("line", "derivative %zu at %g is %s", k, u, ref::str(X).c_str()); break; } }
            }
            auto b = l.bounds();
            if (!(b[0] < -1e300 && b[1] > 1e300)) mc::fail("line-bounds", "(%g,%g): a line is unbounded on both sides", b[0], b[1]);
        }
    };
    for (auto o : std::vector<P<3>>{{0., 0., 0.}, {1., -2., 3.}, {-10., 0.5, 0.}}) for (auto d : directions())
    {
        run(std::integral_constant<size_t, 3>{}, o, d);
        if (nrm<2>({d[0], d[1]}) > 1e-3) run(std::integral_constant<size_t, 2>{}, P<2>{o[0], o[1]}, P<2>{d[0], d[1]});
    }
    mc::sample();
}
template <class C> static void circle3(const C &c, P<3> o, P<3> z, double r, const P<3> *x0)
{
    double L = nrm(z);
    P<3> x, y;
    auto s = c.value(0.);
    for (int i = 0; i < 3; i++) { z[i] /= L; x[i] = s[i] - o[i]; }
    double xz = x[0] * z[0] + x[1] * z[1] + x[2] * z[2];
    mc::step();
    if (!(std::fabs(xz) < 1e-9 * r) || !(std::fabs(nrm(x) - r) < 1e-9 * r)) { mc::fail("circle", "start %s is not on the circle of radius %g", ref::str(s).c_str(), r); return; }
    if (x0) for (int i = 0; i < 3; i++) if (!(std::fabs(x[i] - r * (*x0)[i] / nrm(*x0)) < 1e-9 * (1 + r))) { mc::fail("circle-start", "%s", ref::str(s).c_str()); return; }
    y = {z[1] * x[2] - z[2] * x[1], z[2] * x[0] - z[0] * x[2], z[0] * x[1] - z[1] * x[0]};
    for (double u : {0., 0.3, std::numbers::pi / 2, 2., std::numbers::pi, 4.4, 6., 2 * std::numbers::pi}) for (size_t d = 0; d <= 5; d++)
    {
        auto X = c.value(u, d);
        mc::step();
        double t = u + d * std::numbers::pi / 2;
        for (int i = 0; i < 3; i++) { double e = (d ? 0 : o[i]) + std::cos(t) * x[i] + std::sin(t) * y[i]; if (!(std::fabs(X[i] - e) < 1e-9 * (1 + r + std::fabs(e)))) { mc::fail("circle", "derivative %zu at %g is %s", d, u, ref::str(X).c_str()); return; } }
    }
    auto b = c.bounds();
    if (b[0] != 0 || std::fabs(b[1] - 2 * std::numbers::pi) > 1e-12) mc::fail("circle-bounds", "(%g,%g)", b[0], b[1]);
}
static void circles()
{
    for (double r : {1., 0.25, 7.5}) for (auto o : std::vector<P<3>>{{0., 0., 0.}, {1., -2., 3.}}) 
    {
        for (auto z : directions())
        {
            mc::state();
            mc::at("circle radius %g centre %s axis %s", r, ref::str(o).c_str(), ref::str(z).c_str());
            Circle3d<double> c(r, ax1<double, 3>{o, z});
            circle3(c, o, z, r, nullptr);
            Circle3d<double> c2(c);
            c2.setR(2 * r);
            if (c2.getR() != 2 * r) mc::fail("circle-r", "radius reported %g", c2.getR());
            circle3(c2, o, z, 2 * r, nullptr);
            // with a start direction
            P<3> e = std::fabs(z[0]) <= std::fabs(z[1]) ? P<3>{1., 0., 0.} : P<3>{0., 1., 0.};
            P<3> x{z[1] * e[2] - z[2] * e[1], z[2] * e[0] - z[0] * e[2], z[0] * e[1] - z[1] * e[0]};
            mc::at("circle radius %g centre %s axis %s start %s", r, ref::str(o).c_str(), ref::str(z).c_str(), ref::str(x).c_str());
            Circle3d<double> c3(r, ax2<double, 3>{o, z, x});
            circle3(c3, o, z, r, &x);
            c3.setR(0.5 * r);
            circle3(c3, o, z, 0.5 * r, &x);
        }
        mc::at("circle 2D radius %g", r);
        Circle2d<double> k(r, {o[0], o[1]});
        for (double q : {r, 3 * r})
        {
            if (q != r) k.setR(q);
            for (double u : {0., 0.3, 2., 4.4, 6.}) for (size_t d = 0; d <= 5; d++)
            {
                auto X = k.value(u, d);
                mc::step();
                double t = u + d * std::numbers::pi / 2;
                if (!(std::fabs(X[0] - (d ? 0 : o[0]) - q * std::cos(t)) < 1e-9 * (1 + q)) || !(std::fabs(X[1] - (d ? 0 : o[1]) - q * std::sin(t)) < 1e-9 * (1 + q))) { mc::fail("circle2d", "derivative %zu at %g is %s (radius %g)", d, u, ref::str(X).c_str(), q); break; }
            }
        }
    }
    mc::sample();
}
// ---- revolution ----------------------------------------------------------------------------------
static void revolution(const Pat &x)
{
    size_t n = x.k.size() - x.p - 1;
    ref::rvec k(x.k.begin(), x.k.end());
    auto h = ref::poles<2>(n, 3);
    auto c = std::make_shared<BSCurve<double, 2>>(h, x.k, x.p);
    auto D = directions();
    for (auto o : std::vector<P<3>>{{0., 0., 0.}, {1., -2., 3.}, {0., 0., 2.}}) for (size_t di = 0; di < D.size(); di += 3)
    {
        auto z = D[di];
        P<3> e = std::fabs(z[0]) <= std::fabs(z[1]) ? P<3>{1., 0., 0.} : P<3>{0., 1., 0.};
        P<3> X{z[1] * e[2] - z[2] * e[1], z[2] * e[0] - z[0] * e[2], z[0] * e[1] - z[1] * e[0]};
        mc::state();
        mc::at("revolution p%zu%s about %s %s x %s", x.p, ref::str(x.k).c_str(), ref::str(o).c_str(), ref::str(z).c_str(), ref::str(X).c_str());
        SurfaceOfRevolution<double> S(c, ax2<double, 3>{o, z, X}, 0.25, 5.5);
        SurfaceOfRevolution<double> S2(*c, ax2<double, 3>{o, z, X});
        auto b = S.bounds();
        if (b[0] != x.br.front() || b[1] != x.br.back() || b[2] != 0.25 || b[3] != 5.5) mc::fail("revolution-bounds", "%s", ref::str(b).c_str());
        P<3> zn, xn, yn;
        for (int i = 0; i < 3; i++) { zn[i] = z[i] / nrm(z); xn[i] = X[i] / nrm(X); }
        yn = {zn[1] * xn[2] - zn[2] * xn[1], zn[2] * xn[0] - zn[0] * xn[2], zn[0] * xn[1] - zn[1] * xn[0]};
        for (double s : {0., 0.13, 0.71, 1.}) for (double v : {0.25, 1.1, 3.3, 5.5})
        {
            double u = s == 1 ? x.br.back() : x.br.front() + (x.br.back() - x.br.front()) * s;
            auto C = ref::curve(k, x.p, h, false, u, 2);
            for (size_t du = 0; du <= 2; du++) for (size_t dv = 0; dv <= 4; dv++)
            {
                double t = v + dv * std::numbers::pi / 2;
                auto Q = S.value(u, v, du, dv), Q2 = S2(u, v, du, dv);
                mc::step();
                double sc = 1 + 10 * du * du;
                for (int i = 0; i < 3; i++)
                {
                    double E = (du + dv ? 0 : o[i]) + (dv ? 0 : (double)C[du].v[0] * zn[i]) + (double)C[du].v[1] * (std::cos(t) * xn[i] + std::sin(t) * yn[i]);
                    if (!(std::fabs(Q[i] - E) < 1e-9 * (sc + std::fabs(E))) || !(std::fabs(Q2[i] - E) < 1e-9 * (sc + std::fabs(E)))) { mc::fail("revolution", "(%zu,%zu) derivative at (%g,%g) is %s, coordinate %d expected %g", du, dv, u, v, ref::str(Q).c_str(), i, E); i = 3; du = dv = 9; }
                }
            }
        }
    }
    mc::sample();
}
static std::vector<mc::Unit> units()
{
    bool T = mc::thorough();
    std::vector<mc::Unit> U;
    auto L = patterns(1, T ? 4 : 3, 1), S = patterns(1, 2, 1), G = patterns(2, T ? 4 : 3, 1);
    for (size_t i = 0; i < L.size(); i++)
    {
        U.push_back({"chain-poly-" + std::to_string(i), [=] { chains(base<2, false>(L[i], 1), base<2, false>(L[(i * 5 + 3) % L.size()], 2), T ? 4 : 3); mc::sample(); }});
        U.push_back({"chain-rat-" + std::to_string(i), [=] { chains(base<3, true>(L[i], 1), base<3, false>(L[(i * 5 + 3) % L.size()], 2), T ? 4 : 3); mc::sample(); }});
        U.push_back({"on-surface-" + std::to_string(i), [=] { for (auto &a : S) for (auto &b : S) { on_surface<false>(L[i], a, b); on_surface<true>(L[i], a, b); } mc::sample(); }});
        U.push_back({"revolution-" + std::to_string(i), [=] { revolution(L[i]); }});
    }
    for (size_t i = 0; i < G.size(); i++) U.push_back({"offset-" + std::to_string(i), [=] { offsets(G[i]); }});
    U.push_back({"surface-offset", [=] { for (auto &a : L) for (auto &b : L) { mc::at("surface offset %s %s", ref::str(a.k).c_str(), ref::str(b.k).c_str()); surface_offsets(a, b); } mc::sample(); }});
    U.push_back({"shared", shared});
    U.push_back({"line", lines});
    U.push_back({"circle", circles});
    return U;
}
MC_MAIN(units)
