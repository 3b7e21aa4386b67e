// C13: geometric transforms commute with evaluation.
#include "mc.h"
#include "ref.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>
#include <gbs/transform.h>
#include <numbers>
using namespace gbs;
using ref::real;
template <size_t dim> using P = std::array<double, dim>;

// reference: affine map x -> A x + b
template <size_t dim> struct Aff
{
    real A[dim][dim], b[dim];
    Aff() { for (size_t i = 0; i < dim; i++) { b[i] = 0; for (size_t j = 0; j < dim; j++) A[i][j] = i == j; } }
    // this after o
    Aff after(const Aff &o) const
    {
        Aff r;
        for (size_t i = 0; i < dim; i++)
        {
            r.b[i] = b[i];
            for (size_t k = 0; k < dim; k++) r.b[i] += A[i][k] * o.b[k];
            for (size_t j = 0; j < dim; j++) { r.A[i][j] = 0; for (size_t k = 0; k < dim; k++) r.A[i][j] += A[i][k] * o.A[k][j]; }
        }
        return r;
    }
    ref::rvec apply(const ref::rvec &x, bool linear) const
    {
        ref::rvec r(dim, 0);
        for (size_t i = 0; i < dim; i++) { r[i] = linear ? 0 : b[i]; for (size_t k = 0; k < dim; k++) r[i] += A[i][k] * x[k]; }
        return r;
    }
};
static Aff<2> rot2(real a) { Aff<2> r; r.A[0][0] = r.A[1][1] = cosl(a); r.A[0][1] = -sinl(a); r.A[1][0] = sinl(a); return r; }
static Aff<3> rot3(real a, P<3> ax)
{
    real n = sqrtl((real)ax[0] * ax[0] + (real)ax[1] * ax[1] + (real)ax[2] * ax[2]), u[3] = {ax[0] / n, ax[1] / n, ax[2] / n}, c = cosl(a), s = sinl(a);
    Aff<3> r;
    // Rodrigues: c I + s [u]x + (1-c) u uT
    real X[3][3] = {{0, -u[2], u[1]}, {u[2], 0, -u[0]}, {-u[1], u[0], 0}};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.A[i][j] = c * (i == j) + s * X[i][j] + (1 - c) * u[i] * u[j];
    return r;
}
template <size_t dim> static Aff<dim> shift(P<dim> v) { Aff<dim> r; for (size_t i = 0; i < dim; i++) r.b[i] = v[i]; return r; }
template <size_t dim> static Aff<dim> scl(real f, P<dim> c, int coord = -1)
{
    Aff<dim> r;
    for (size_t i = 0; i < dim; i++) if (coord < 0 || coord == (int)i) { r.A[i][i] = f; r.b[i] = c[i] - f * c[i]; }
    return r;
}
struct Frame { P<3> o, z, x; };
static ax2<double, 3> ax2_of(const Frame &f) { return {f.o, f.z, f.x}; }
static std::vector<Frame> frames()
{
    std::vector<Frame> r;
    std::vector<std::pair<P<3>, P<3>>> zx{{{0, 0, 1}, {1, 0, 0}}, {{0, 1, 0}, {0, 0, 1}}, {{1, 0, 0}, {0, 1, 0}}, {{0, 0, -2}, {0, 3, 0}}, {{1, 1, 0}, {-1, 1, 0}}, {{1, 2, 3}, {3, 0, -1}}, {{-.5, .2, .1}, {.1, 0, .5}}, {{0, 2, 0}, {-1, 0, 0}}};
    for (auto &[z, x] : zx) for (P<3> o : {P<3>{0, 0, 0}, P<3>{1, -2, .5}}) r.push_back({o, z, x});
    return r;
}
// frame as an affine map from local coordinates (x, z^x, z)
static Aff<3> local(const Frame &f)
{
    auto unit = [](P<3> v) { real n = sqrtl((real)v[0] * v[0] + (real)v[1] * v[1] + (real)v[2] * v[2]); return ref::rvec{v[0] / n, v[1] / n, v[2] / n}; };
    auto x = unit(f.x), z = unit(f.z);
    ref::rvec y{z[1] * x[2] - z[2] * x[1], z[2] * x[0] - z[0] * x[2], z[0] * x[1] - z[1] * x[0]};
    Aff<3> r;
    for (int i = 0; i < 3; i++) { r.A[i][0] = x[i]; r.A[i][1] = y[i]; r.A[i][2] = z[i]; r.b[i] = f.o[i]; }
    return r;
}
static Aff<3> inverse_rigid(const Aff<3> &m)
{
    Aff<3> r;
    for (int i = 0; i < 3; i++) { r.b[i] = 0; for (int j = 0; j < 3; j++) { r.A[i][j] = m.A[j][i]; r.b[i] -= m.A[j][i] * m.b[j]; } }
    return r;
}
static Aff<3> change(const Frame &from, const Frame &to) { return local(to).after(inverse_rigid(local(from))); }

template <size_t dim> struct Op
{
    std::string name;
    Aff<dim> ref;
    std::function<void(BSCurve<double, dim> &)> c;
    std::function<void(BSCurveRational<double, dim> &)> cr;
    std::function<void(BSSurface<double, dim> &)> s;
    std::function<void(BSSurfaceRational<double, dim> &)> sr;
    std::function<P<dim>(const P<dim> &)> p; // on a point, by value
    template <typename F> Op &geo(F f) { c = f; cr = f; s = f; sr = f; return *this; }
    template <typename F> Op &curve(F f) { c = f; cr = f; return *this; }
};
template <size_t dim> static std::vector<Op<dim>> common()
{
    std::vector<Op<dim>> r;
    P<dim> v{}, ctr{}; for (size_t i = 0; i < dim; i++) { v[i] = i == 0 ? 1.5 : i == 1 ? -.7 : 2.2; ctr[i] = i == 0 ? -.4 : i == 1 ? .9 : 1.3; }
    Op<dim> o;
    o = {}; o.name = "translate"; o.ref = shift(v);
    o.curve([v](auto &g) { translate(g, v); }); o.s = [v](auto &g) { transform(g, [v](const auto &x) { return translated(x, v); }); }; o.sr = o.s ? std::function<void(BSSurfaceRational<double, dim> &)>([v](auto &g) { transform(g, [v](const auto &x) { return translated(x, v); }); }) : nullptr;
    o.p = [v](const P<dim> &x) { auto y = x; translate(y, v); if (y != translated(x, v)) mc::fail("point-forms", "translate and translated differ"); return y; }; r.push_back(o);
    for (double f : {2.5, -1., .25})
    {
        o = {}; o.name = "scale " + std::to_string(f); o.ref = scl<dim>(f, {});
        o.geo([f](auto &g) { scale(g, f); });
        o.p = [f](const P<dim> &x) { auto y = x; scale(y, f); if (y != scaled(x, f)) mc::fail("point-forms", "scale and scaled differ"); return y; }; r.push_back(o);
    }
    o = {}; o.name = "scale about center"; o.ref = scl<dim>(1.75, ctr);
    o.geo([ctr](auto &g) { scale(g, 1.75, ctr); }); o.p = [ctr](const P<dim> &x) { return scaled(x, 1.75, ctr); }; r.push_back(o);
    for (size_t c = 0; c < dim; c++)
    {
        o = {}; o.name = "scale coordinate " + std::to_string(c); o.ref = scl<dim>(3.5, {}, c);
        o.curve([c](auto &g) { scale(g, 3.5, c); }); o.p = [c](const P<dim> &x) { return scaled(x, 3.5, c); }; r.push_back(o);
        o = {}; o.name = "scale coordinate about center " + std::to_string(c); o.ref = scl<dim>(-.6, ctr, c);
        o.curve([c, ctr](auto &g) { scale(g, -.6, c, ctr); }); o.p = [c, ctr](const P<dim> &x) { auto y = x; scale(y, -.6, c, ctr); return y; }; r.push_back(o);
    }
    return r;
}
template <size_t dim> static std::vector<Op<dim>> ops();
template <> std::vector<Op<2>> ops<2>()
{
    auto r = common<2>(); Op<2> o;
    for (double a : {.7, -2.1, std::numbers::pi / 2})
    {
        o = {}; o.name = "rotate " + std::to_string(a); o.ref = rot2(a); o.geo([a](auto &g) { rotate(g, a); });
        o.p = [a](const P<2> &x) { auto y = x; rotate(y, a); if (y != rotated(x, a)) mc::fail("point-forms", "rotate and rotated differ"); return y; }; r.push_back(o);
    }
    P<2> O{.8, -1.2};
    o = {}; o.name = "rotate about a point"; o.ref = shift(O).after(rot2(.9)).after(shift<2>({-.8, 1.2}));
    o.geo([O](auto &g) { transform(g, [O](const auto &x) { return rotated<double, 2>(x, .9, O); }); }); o.p = [O](const P<2> &x) { auto y = x; rotate(y, .9, O); return y; }; r.push_back(o);
    return r;
}
template <> std::vector<Op<3>> ops<3>()
{
    auto r = common<3>(); Op<3> o;
    for (P<3> ax : {P<3>{0, 0, 1}, P<3>{1, 0, 0}, P<3>{0, -2, 0}, P<3>{1, 2, -.5}}) for (double a : {.7, -2.1})
    {
        o = {}; o.name = "rotate " + std::to_string(a) + " about " + ref::str(ax); o.ref = rot3(a, ax); o.geo([a, ax](auto &g) { rotate(g, a, ax); });
        o.p = [a, ax](const P<3> &x) { auto y = x; rotate(y, a, ax); if (y != rotated(x, a, ax)) mc::fail("point-forms", "rotate and rotated differ"); return y; }; r.push_back(o);
    }
    auto F = frames();
    for (auto [i, j] : {std::pair{1, 0}, {0, 3}, {11, 5}, {12, 10}})
    {
        auto R1 = ax2_of(F[i]), R2 = ax2_of(F[j]);
        o = {}; o.name = "frame change " + std::to_string(i) + ">" + std::to_string(j); o.ref = change(F[i], F[j]);
        auto M = build_trf_matrix<double>(R1, R2);
        o.geo([M](auto &g) { transform(g, M); }); o.p = [M](const P<3> &x) { auto y = x; transform(y, M); if (y != transformed(x, M)) mc::fail("point-forms", "transform and transformed differ"); return y; }; r.push_back(o);
    }
    {
        auto R1 = ax2_of(F[13]), R2 = ax2_of(F[9]);
        o = {}; o.name = "frame change in two parts 13>9"; o.ref = change(F[13], F[9]);
        auto LM = build_trf_loc_and_matrix<double>(R1, R2); Vector3<double> L = LM.first; Matrix3<double> M = LM.second;
        o.geo([L, M](auto &g) { transform(g, [L, M](const P<3> &x) { return transformed<double>(x, L, M); }); }); o.p = [L, M](const P<3> &x) { return transformed<double>(x, L, M); }; r.push_back(o);
    }
    return r;
}
static bool near(real a, real b, real s) { return std::fabs(a - b) <= 1e-10L * (1 + s); }

// apply every sequence of operations up to the depth; shown = what to compare
template <size_t dim, typename G, typename Pick, typename Check>
static void explore(const G &g0, const std::vector<Op<dim>> &O, size_t depth, const Aff<dim> &acc, const std::string &path, Pick pick, Check check)
{
    if (!depth) return;
    for (auto &o : O)
    {
        auto &f = pick(o);
        if (!f) continue;
        G g{g0};
        auto before = g0.poles();
        mc::at("%s", (path + " | " + o.name).c_str()); mc::state(); mc::step();
        f(g);
        auto next = o.ref.after(acc);
        check(g, next);
        if (g0.poles() != before) mc::fail("source", "transforming a copy changed the source");
        mc::trace();
        explore<dim>(g, O, depth - 1, next, path + " | " + o.name, pick, check);
    }
}
template <size_t dim, bool rational> static void curves(size_t p, size_t i, int sp, size_t depth)
{
    static auto O = ops<dim>();
    using B = std::conditional_t<rational, BSCurveRational<double, dim>, BSCurve<double, dim>>;
    auto br = ref::breaks(i, sp);
    for (auto &m : ref::mults(i, p))
    {
        auto k = ref::flat(br, m, p); size_t n = k.size() - p - 1;
        auto Q = [&] { if constexpr (rational) return ref::hpoles<dim>(n, p); else return ref::poles<dim>(n, p); }();
        B g(Q, k, p);
        std::vector<std::vector<ref::Val>> base; auto pr = ref::probes(br, false);
        auto kr = ref::to_real(k);
        for (auto u : pr) base.push_back(ref::curve(kr, p, Q, rational, u, 2));
        auto check = [&](const B &h, const Aff<dim> &a)
        {
            if (h.knotsFlats() != g.knotsFlats() || h.degree() != p || h.poles().size() != n) { mc::fail("parametrization", "knots or degree changed"); return; }
            if constexpr (rational) for (size_t j = 0; j < n; j++) if (!near(h.poles()[j][dim], Q[j][dim], 0)) mc::fail("weights", "weight %zu is %.17g, was %.17g", j, h.poles()[j][dim], Q[j][dim]);
            for (size_t j = 0; j < pr.size(); j++) for (size_t d = 0; d <= 2; d++)
            {
                // derivative orders that jump at an interior knot are not compared there
                if (d && j) { bool at_knot = false; for (size_t b = 1; b + 1 < br.size(); b++) at_knot |= pr[j] == br[b]; if (at_knot) continue; }
                auto x = h(pr[j], d); auto y = a.apply(base[j][d].v, d > 0);
                real mag = 0; for (auto t : base[j][d].mag) mag = std::max(mag, t); real sc = 0; for (size_t r = 0; r < dim; r++) { sc += std::fabs(a.b[r]); for (size_t c = 0; c < dim; c++) sc += std::fabs(a.A[r][c]) * mag; }
                for (size_t c = 0; c < dim; c++) if (!near(x[c], y[c], sc)) { mc::fail(d ? "derivative" : "value", "order %zu at %.12g: %s instead of %s", d, pr[j], ref::str(x).c_str(), ref::str(y).c_str()); break; }
                mc::outcome(mc::mixd(d, x[0]));
            }
        };
        std::string nm = std::string(rational ? "R" : "B") + std::to_string(dim) + " curve p" + std::to_string(p) + " k" + ref::str(k);
        explore<dim>(g, O, depth, Aff<dim>{}, nm, [](const Op<dim> &o) -> auto & { if constexpr (rational) return o.cr; else return o.c; }, check);
        // copying form, dimension raising
        mc::at("%s transformed", nm.c_str()); mc::state(); mc::step(2);
        auto h = transformed(g, [](const P<dim> &x) { return scaled(x, 2.); });
        if (g.poles() != Q) mc::fail("source", "transformed() changed its argument");
        check(h, scl<dim>(2, {}));
        if constexpr (dim == 2) for (double z : {0., 1.75, -3.})
        {
            auto e = add_dimension(g, z);
            for (size_t j = 0; j < pr.size(); j++) { auto x = e(pr[j]); auto &y = base[j][0]; if (!near(x[0], y.v[0], y.mag[0]) || !near(x[1], y.v[1], y.mag[1]) || !near(x[2], z, 3)) { mc::fail("add-dimension", "at %.12g with %g: %s instead of (%.12Lg,%.12Lg,%g)", pr[j], z, ref::str(x).c_str(), y.v[0], y.v[1], z); break; } }
            if (e.knotsFlats() != g.knotsFlats() || e.degree() != p) mc::fail("parametrization", "add_dimension changed knots or degree");
        }
        mc::trace();
    }
    mc::sample();
}
template <size_t dim, bool rational> static void surfaces(size_t p, size_t q, int sp, size_t depth)
{
    static auto O = ops<dim>();
    using B = std::conditional_t<rational, BSSurfaceRational<double, dim>, BSSurface<double, dim>>;
    auto bu = ref::breaks(1, sp), bv = ref::breaks(1, sp ? 0 : 1);
    auto ku = ref::flat(bu, {p}, p), kv = ref::flat(bv, {1}, q);
    size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1, n = nu * nv;
    auto Q = [&] { if constexpr (rational) return ref::hpoles<dim>(n, p); else return ref::poles<dim>(n, p); }();
    B g(Q, ku, kv, p, q);
    struct Pr { double u, v; std::vector<ref::Val> r; };
    std::vector<Pr> pr;
    auto kur = ref::to_real(ku), kvr = ref::to_real(kv);
    for (double tu : {0., .2, .61, 1.}) for (double tv : {0., .37, .9, 1.})
    {
        double u = tu == 1 ? bu.back() : bu[0] + tu * (bu.back() - bu[0]), v = tv == 1 ? bv.back() : bv[0] + tv * (bv.back() - bv[0]);
        pr.push_back({u, v, ref::surf(kur, kvr, p, q, Q, rational, u, v, 1, 1)});
    }
    auto check = [&](const B &h, const Aff<dim> &a)
    {
        if (h.knotsFlatsU() != ku || h.knotsFlatsV() != kv || h.degreeU() != p || h.degreeV() != q || h.poles().size() != n) { mc::fail("parametrization", "knots or degrees changed"); return; }
        if constexpr (rational) for (size_t j = 0; j < n; j++) if (!near(h.poles()[j][dim], Q[j][dim], 0)) mc::fail("weights", "weight %zu changed", j);
        for (auto &z : pr) for (size_t du = 0; du < 2; du++) for (size_t dv = 0; dv < 2; dv++)
        {
            auto x = h(z.u, z.v, du, dv); auto &b = z.r[du * 2 + dv]; auto y = a.apply(b.v, du + dv > 0);
            real mag = 0; for (auto t : b.mag) mag = std::max(mag, t); real sc = 0; for (size_t r = 0; r < dim; r++) { sc += std::fabs(a.b[r]); for (size_t c = 0; c < dim; c++) sc += std::fabs(a.A[r][c]) * mag; }
            for (size_t c = 0; c < dim; c++) if (!near(x[c], y[c], sc)) { mc::fail(du + dv ? "derivative" : "value", "orders %zu %zu at %.12g %.12g: %s instead of %s", du, dv, z.u, z.v, ref::str(x).c_str(), ref::str(y).c_str()); break; }
            mc::outcome(mc::mixd(du * 2 + dv, x[0]));
        }
    };
    std::string nm = std::string(rational ? "R" : "B") + std::to_string(dim) + " surface p" + std::to_string(p) + " q" + std::to_string(q);
    explore<dim>(g, O, depth, Aff<dim>{}, nm, [](const Op<dim> &o) -> auto & { if constexpr (rational) return o.sr; else return o.s; }, check);
    mc::at("%s transformed", nm.c_str()); mc::state(); mc::step(2);
    auto h = transformed(g, [](const P<dim> &x) { return scaled(x, 2.); });
    if (g.poles() != Q) mc::fail("source", "transformed() changed its argument");
    check(h, scl<dim>(2, {}));
    if constexpr (dim == 2) for (double z : {0., 1.75})
    {
        auto e = add_dimension(g, z);
        for (auto &y : pr) { auto x = e(y.u, y.v); auto &b = y.r[0]; if (!near(x[0], b.v[0], b.mag[0]) || !near(x[1], b.v[1], b.mag[1]) || !near(x[2], z, 3)) { mc::fail("add-dimension", "at %.12g %.12g with %g: %s", y.u, y.v, z, ref::str(x).c_str()); break; } }
    }
    mc::trace();
    mc::sample();
}
template <size_t dim> static void points(size_t depth)
{
    auto O = ops<dim>();
    std::vector<P<dim>> S;
    for (size_t i = 0; i < 6; i++) { P<dim> x; for (size_t c = 0; c < dim; c++) x[c] = i == 0 ? 0 : i == 1 ? c == 0 : ref::coord(i, c); S.push_back(x); }
    std::function<void(const std::vector<P<dim>> &, const Aff<dim> &, size_t, const std::string &)> go = [&](const std::vector<P<dim>> &X, const Aff<dim> &a, size_t d, const std::string &path)
    {
        if (!d) return;
        for (auto &o : O)
        {
            auto next = o.ref.after(a); std::vector<P<dim>> Y;
            mc::at("points %s | %s", path.c_str(), o.name.c_str()); mc::state();
            for (size_t i = 0; i < X.size(); i++)
            {
                mc::step();
                auto y = o.p(X[i]); Y.push_back(y);
                auto z = next.apply(ref::to_real(S[i]), false);
                real sc = 0; for (size_t r = 0; r < dim; r++) { sc += std::fabs(next.b[r]); for (size_t c = 0; c < dim; c++) sc += std::fabs(next.A[r][c] * S[i][c]); }
                for (size_t c = 0; c < dim; c++) if (!near(y[c], z[c], sc)) { mc::fail("point", "%s becomes %s instead of %s", ref::str(S[i]).c_str(), ref::str(y).c_str(), ref::str(z).c_str()); break; }
                mc::outcome(mc::mixd(i, y[0]));
            }
            mc::trace();
            go(Y, next, d - 1, path + " | " + o.name);
        }
    };
    go(S, Aff<dim>{}, depth, "");
    // homogeneous poles: the projected point moves, the weight stays
    for (size_t i = 0; i < 6; i++) for (double w : {.5, 1., 3.})
    {
        P<dim + 1> h; P<dim> v; for (size_t c = 0; c < dim; c++) { h[c] = S[i][c] * w; v[c] = .3 - c; } h[dim] = w;
        mc::at("homogeneous pole %zu weight %g", i, w); mc::state(); mc::step(2);
        auto t = translated<double, dim>(h, v); auto t2 = h; translate<double, dim>(t2, v);
        for (size_t c = 0; c < dim; c++) if (!near(t[c] / t[dim], S[i][c] + v[c], std::fabs(S[i][c])) || t2[c] != t[c]) mc::fail("homogeneous", "coordinate %zu: %.12g", c, t[c] / t[dim]);
        if (t[dim] != w || t2[dim] != w) mc::fail("weights", "weight becomes %.17g", t[dim]);
        mc::trace();
    }
    mc::sample();
}
static void reference_changes()
{
    auto F = frames();
    auto same = [](const P<3> &x, const ref::rvec &y) { for (int c = 0; c < 3; c++) if (!near(x[c], y[c], 10)) return false; return true; };
    std::vector<P<3>> S{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1.3, -2.2, .7}};
    for (size_t i = 0; i < F.size(); i++)
    {
        auto R = ax2_of(F[i]);
        auto M = build_trf_matrix<double>(R); auto LM = build_trf_loc_and_matrix<double>(R);
        for (auto &x : S)
        {
            mc::at("local coordinates %s in frame %zu", ref::str(x).c_str(), i); mc::state(); mc::step(2);
            auto y = local(F[i]).apply(ref::to_real(x), false);
            Vector3<double> L = LM.first; Matrix3<double> A = LM.second;
            if (!same(transformed<double>(x, M), y)) mc::fail("frame", "matrix form: %s instead of %s", ref::str(transformed<double>(x, M)).c_str(), ref::str(y).c_str());
            if (!same(transformed<double>(x, L, A), y)) mc::fail("frame", "location and matrix form: %s", ref::str(transformed<double>(x, L, A)).c_str());
            mc::trace();
        }
        for (size_t j = 0; j < F.size(); j++)
        {
            auto R2 = ax2_of(F[j]);
            auto M2 = build_trf_matrix<double>(R, R2), B = build_trf_matrix<double>(R2, R); auto LM2 = build_trf_loc_and_matrix<double>(R, R2);
            Vector3<double> L = LM2.first; Matrix3<double> A = LM2.second;
            auto expect = change(F[i], F[j]);
            for (auto &x : S)
            {
                mc::at("%s moved from frame %zu to frame %zu", ref::str(x).c_str(), i, j); mc::state(); mc::step(3);
                auto y = expect.apply(ref::to_real(x), false); auto z = transformed<double>(x, M2);
                if (!same(z, y)) mc::fail("change", "matrix form: %s instead of %s", ref::str(z).c_str(), ref::str(y).c_str());
                if (!same(transformed<double>(x, L, A), y)) mc::fail("change", "location and matrix form: %s instead of %s", ref::str(transformed<double>(x, L, A)).c_str(), ref::str(y).c_str());
                if (!same(transformed<double>(z, B), ref::to_real(x))) mc::fail("change-inverse", "there and back: %s", ref::str(transformed<double>(z, B)).c_str());
                for (size_t k = 0; k < F.size(); k += 3) { mc::step(); if (!same(transformed<double>(z, build_trf_matrix<double>(R2, ax2_of(F[k]))), change(F[i], F[k]).apply(ref::to_real(x), false))) mc::fail("change-composition", "through frame %zu to %zu", j, k); }
                mc::trace();
            }
        }
    }
    mc::sample();
}
static std::vector<mc::Unit> units()
{
    bool T = mc::thorough();
    std::vector<mc::Unit> U;
    for (size_t p = 1; p <= 4; p++) for (size_t i = 0; i <= (T ? 2 : 1); i++) for (int sp = 0; sp < (T ? 3 : 2); sp++)
    {
        size_t d = T ? (p <= 2 && i <= 1 ? 4 : 3) : (p <= 2 && sp == 0 ? 3 : 2);
        auto n = std::to_string(p) + std::to_string(i) + std::to_string(sp);
        U.push_back({"curve2/" + n, [=] { curves<2, false>(p, i, sp, d); }});
        U.push_back({"curve3/" + n, [=] { curves<3, false>(p, i, sp, d); }});
        U.push_back({"rcurve2/" + n, [=] { curves<2, true>(p, i, sp, d); }});
        U.push_back({"rcurve3/" + n, [=] { curves<3, true>(p, i, sp, d); }});
    }
    for (size_t p = 1; p <= (T ? 4 : 3); p++) for (size_t q = 1; q <= (T ? 4 : 3); q++) for (int sp = 0; sp < 2; sp++)
    {
        auto n = std::to_string(p) + std::to_string(q) + std::to_string(sp);
        size_t d = T ? 3 : (p * q <= 2 ? 3 : 2);
        U.push_back({"surface2/" + n, [=] { surfaces<2, false>(p, q, sp, d); }});
        U.push_back({"surface3/" + n, [=] { surfaces<3, false>(p, q, sp, d); }});
        U.push_back({"rsurface2/" + n, [=] { surfaces<2, true>(p, q, sp, d); }});
        U.push_back({"rsurface3/" + n, [=] { surfaces<3, true>(p, q, sp, d); }});
    }
    U.push_back({"points2", [T] { points<2>(T ? 4 : 3); }});
    U.push_back({"points3", [T] { points<3>(T ? 4 : 3); }});
    U.push_back({"reference", reference_changes});
    return U;
}
MC_MAIN(units)
