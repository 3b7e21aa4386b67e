// C20: saving to JSON and reading back gives the same geometry.
#include "mc.h"
#include "ref.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bscbuild.h>
#include <gbs/bscinterp.h>
#include <gbs-io/tojson.h>
#include <gbs-io/fromjson.h>
#include <gbs-io/fromjson2.h>
#include <cfenv>
using namespace gbs;
namespace rj = rapidjson;
template <typename T, size_t dim> using P = std::array<T, dim>;

static bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
static bool same(float a, float b) { return std::memcmp(&a, &b, sizeof a) == 0; }
template <typename A> static bool same_all(const A &a, const A &b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
    {
        if constexpr (requires { a[i].size(); }) { if (!same_all(a[i], b[i])) return false; }
        else if (!same(a[i], b[i])) return false;
    }
    return true;
}
template <typename A> static bool near_all(const A &a, const A &b, double tol)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
    {
        if constexpr (requires { a[i].size(); }) { if (!near_all(a[i], b[i], tol)) return false; }
        else if (!(std::abs(a[i] - b[i]) <= tol * std::max(std::abs(a[i]), std::abs(b[i])))) return false;
    }
    return true;
}
// scratch folder of this process
static std::string scratch()
{
    static std::string d = [] { char t[] = "/tmp/c20XXXXXX"; char *p = mkdtemp(t); return std::string(p ? p : "/tmp"); }();
    return d;
}
struct Clean { ~Clean() { std::remove((scratch() + "/d.json").c_str()); rmdir(scratch().c_str()); } };

// the value itself, its text parsed again at full precision, and the file written and read by the library
template <typename Write, typename Check> static void roundtrip(Write w, Check check)
{
    rj::Document d; d.SetObject();
    rj::Value v = w(d.GetAllocator());
    mc::step();
    check(v, "memory");
    d.AddMember("entity", v, d.GetAllocator());
    std::string f = scratch() + "/d.json";
    write_js_doc(d, f.c_str());
    rj::Document r; mc::step();
    parse_file(f.c_str(), r);
    if (!r.IsObject() || !r.HasMember("entity")) { mc::fail("file", "the file does not hold the document"); return; }
    check(r["entity"], "file");
}
template <typename F> static void guarded(const char *where, F f)
{
    try { f(); }
    catch (const std::exception &e) { mc::fail(std::string(where) + "-refused", "%s: valid document refused: %s", where, e.what()); }
}

template <typename T> static std::vector<T> cast(const std::vector<double> &v) { return std::vector<T>(v.begin(), v.end()); }
// awkward coordinates
template <typename T> static T awkward(size_t i)
{
    static const T v[] = {T(0.1), T(1) / 3, -T(0), T(1e-300), std::numeric_limits<T>::max() / 16, std::numeric_limits<T>::denorm_min(), T(1) + std::numeric_limits<T>::epsilon(),
                          T(-123456789.123456789), T(5e-324), T(0.3) - T(0.1), T(2), T(-1), T(1e22), T(1e23), T(9007199254740993.), T(0.000001), T(1e15), T(123456.7), T(4.35), T(-2.2250738585072011e-308),
                          T(1.7976931348623157e308) > std::numeric_limits<T>::max() ? T(3e38) : T(1.7976931348623157e308) / 3, T(0.5), T(1e-7), T(6.02214076e23)};
    return v[i % (sizeof v / sizeof *v)];
}
template <typename T, size_t dim> static std::vector<P<T, dim>> mkpoles(size_t n, size_t seed, bool awk)
{
    std::vector<P<T, dim>> p(n);
    for (size_t i = 0; i < n; i++) for (size_t c = 0; c < dim; c++)
    {
        size_t k = (i * 2654435761u + c * 40503u + seed * 97u) ;
        p[i][c] = awk ? awkward<T>(i * dim + c + seed) : T(std::sin(double(k % 1000)) * 3);
    }
    return p;
}
template <typename T> static T wgt(size_t i, size_t seed) { static const T w[] = {T(1), T(0.3), T(2.7), T(1) / 3, T(1e-3), T(0.70710678118654752), T(5)}; return w[(i * 3 + seed) % 7]; }
// knot patterns: awkward breaks
static std::vector<double> brk(size_t m, int sp)
{
    std::vector<double> b;
    for (size_t i = 0; i < m + 2; i++) switch (sp)
    {
    case 0: b.push_back(double(i)); break;
    case 1: b.push_back(0.1 + i / 3.); break;
    case 2: b.push_back(-7.3 + std::pow(i, 1.7) * 0.001); break;
    case 3: b.push_back(1e5 + i * 0.7); break;
    default: b.push_back(i / double(m + 1)); break;
    }
    return b;
}
template <typename F> static void patterns(size_t pmin, size_t pmax, size_t mmax, F f)
{
    for (size_t p = pmin; p <= pmax; p++) for (size_t m = 0; m <= mmax; m++)
        for (auto &mu : ref::mults(m, p)) for (int sp = 0; sp < 5; sp++) f(p, mu, sp, ref::flat(brk(m, sp), mu, p));
}
template <typename T, size_t dim> static void same_curve(const char *where, const BSCurve<T, dim> &c, const BSCurve<T, dim> &r)
{
    if (c.degree() != r.degree()) mc::fail(std::string(where) + "-degree", "%s: degree %zu", where, r.degree());
    if (!same_all(c.knotsFlats(), r.knotsFlats())) mc::fail(std::string(where) + "-knots", "%s: knots changed", where);
    if (c.mults() != r.mults()) mc::fail(std::string(where) + "-mults", "%s: multiplicities changed", where);
    if (!same_all(c.poles(), r.poles())) mc::fail(std::string(where) + "-poles", "%s: poles changed", where);
    if (!same_all(c.bounds(), r.bounds())) mc::fail(std::string(where) + "-bounds", "%s: bounds changed", where);
    auto [a, b] = c.bounds();
    for (int i = 0; i <= 4; i++) { T u = i == 4 ? b : a + (b - a) * i / 4; if (!same_all(c.value(u), r.value(u)) || !same_all(c.value(u, 1), r.value(u, 1))) { mc::fail(std::string(where) + "-value", "%s: evaluation differs at %g", where, (double)u); break; } }
}
// the weights multiply and divide the poles: a few rounding errors are left
template <typename C, typename R> static void same_rational(const char *where, const C &c, const R &r, double eps)
{
    if (!near_all(c.poles(), r.poles(), 4 * eps)) mc::fail(std::string(where) + "-poles", "%s: poles changed", where);
    if (!near_all(c.polesProjected(), r.polesProjected(), 6 * eps)) mc::fail(std::string(where) + "-polesProjected", "%s: poles changed", where);
    if (!same_all(c.weights(), r.weights())) mc::fail(std::string(where) + "-weights", "%s: weights changed", where);
}
template <typename T, size_t dim> static void curve_rat(const char *where, const BSCurveRational<T, dim> &c, const BSCurveRational<T, dim> &r)
{
    if (c.degree() != r.degree()) mc::fail(std::string(where) + "-degree", "%s: degree %zu", where, r.degree());
    if (!same_all(c.knotsFlats(), r.knotsFlats())) mc::fail(std::string(where) + "-knots", "%s: knots changed", where);
    same_rational(where, c, r, std::numeric_limits<T>::epsilon());
    if (!same_all(c.bounds(), r.bounds())) mc::fail(std::string(where) + "-bounds", "%s: bounds changed", where);
}
template <typename T, size_t dim> static void curves(size_t pmin, size_t pmax, size_t mmax)
{
    patterns(pmin, pmax, mmax, [&](size_t p, auto &mu, int sp, auto fk) {
        if constexpr (std::is_same_v<T, float>) if (sp == 2 || sp == 3) return;
        for (size_t awk = 0; awk < 3; awk++)
        {
            size_t n = fk.size() - p - 1;
            BSCurve<T, dim> c{mkpoles<T, dim>(n, sp + awk * 5, awk > 0), cast<T>(fk), p};
            mc::at("%s curve dim %zu degree %zu spacing %d knots %s poles %zu", std::is_same_v<T, float> ? "float" : "double", dim, p, sp, ref::str(fk).c_str(), awk); mc::state();
            mc::outcome(mc::mix(mc::mix(p, n), mc::mix(sp, dim)));
            roundtrip([&](auto &al) { return make_json(c, al); }, [&](const rj::Value &v, const char *wh) { guarded(wh, [&] {
                auto a = make_curve<T, dim>(v); auto b = std::dynamic_pointer_cast<BSCurve<T, dim>>(a);
                if (!b) { mc::fail("type", "%s: not a polynomial curve", wh); return; }
                same_curve(wh, c, *b);
                same_curve(wh, c, make_bscurve<T, dim>(v)); same_curve(wh, c, bscurve_direct<T, dim>(v)); same_curve(wh, c, bscurve_direct_mults<T, dim>(v)); mc::step(4);
            }); });
            std::shared_ptr<Curve<T, dim>> pc = std::make_shared<BSCurve<T, dim>>(c);
            roundtrip([&](auto &al) { return make_json(pc, al); }, [&](const rj::Value &v, const char *wh) { guarded(wh, [&] { same_curve("pointer", c, make_bscurve<T, dim>(v)); }); });
            if constexpr (dim == 1)
            {
                BSCfunction<T> f{c};
                roundtrip([&](auto &al) { return make_json(f, al); }, [&](const rj::Value &v, const char *wh) { guarded(wh, [&] {
                    if (v["type"].GetInt() != (int)entity_type::BSCfunction) mc::fail("function-type", "wrong type");
                    BSCfunction<T> g{make_bscurve<T, 1>(v["curve"])}; same_curve("function", c, g.basisCurve()); }); });
            }
            if (dim > 1)
            {   // weights exactly known
                std::vector<T> w(n); for (size_t i = 0; i < n; i++) w[i] = wgt<T>(i, sp + awk);
                auto pl = mkpoles<T, dim>(n, sp + awk * 5, false);
                BSCurveRational<T, dim> cr{pl, cast<T>(fk), w, p};
                roundtrip([&](auto &al) { return make_json(cr, al); }, [&](const rj::Value &v, const char *wh) { guarded(wh, [&] {
                    auto b = std::dynamic_pointer_cast<BSCurveRational<T, dim>>(make_curve<T, dim>(v));
                    if (!b) { mc::fail("rational-type", "%s: not a rational curve", wh); return; }
                    curve_rat(wh, cr, *b);
                    if (!near_all(b->polesProjected(), pl, 8 * std::numeric_limits<T>::epsilon())) mc::fail("rational-poles", "%s: poles are not the ones given", wh);
                }); });
                std::shared_ptr<Curve<T, dim>> pr = std::make_shared<BSCurveRational<T, dim>>(cr);
                roundtrip([&](auto &al) { return make_json(pr, al); }, [&](const rj::Value &v, const char *wh) { guarded(wh, [&] { curve_rat("pointer", cr, *std::dynamic_pointer_cast<BSCurveRational<T, dim>>(make_curve<T, dim>(v))); }); });
            }
        }
    });
    mc::sample();
}
template <typename T, size_t dim> static void same_surface(const char *where, const Surface<T, dim> &a, const Surface<T, dim> &b, bool exact)
{
    if (!same_all(a.bounds(), b.bounds())) mc::fail(std::string(where) + "-bounds", "%s: bounds changed", where);
    auto [u1, u2, v1, v2] = a.bounds();
    for (int i = 0; i <= 3; i++) for (int j = 0; j <= 3; j++) for (int d = 0; d < 3; d++)
    {
        T u = i == 3 ? u2 : u1 + (u2 - u1) * i / 3, v = j == 3 ? v2 : v1 + (v2 - v1) * j / 3;
        auto x = a.value(u, v, d == 1, d == 2), y = b.value(u, v, d == 1, d == 2);
        T sc = 0; for (size_t k = 0; k < dim; k++) sc = std::max(sc, std::abs(x[k]));
        bool ok = true; for (size_t k = 0; k < dim; k++) ok = ok && (exact ? same(x[k], y[k]) : std::abs(x[k] - y[k]) <= 1e4 * std::numeric_limits<T>::epsilon() * std::max(sc, T(1)));
        if (!ok) { mc::fail(std::string(where) + "-value", "%s: evaluation differs at %g,%g", where, (double)u, (double)v); return; }
    }
}
template <typename T, size_t dim> static void surfaces(size_t pmax, size_t qmax, int part)
{
    int cnt = 0;
    patterns(1, pmax, 1, [&](size_t p, auto &mu, int sp, auto ku) { if (sp > 2) return; patterns(1, qmax, 1, [&](size_t q, auto &mv, int sq, auto kv) {
        if (sq > 2 || cnt++ % 2 != part) return;
        if constexpr (std::is_same_v<T, float>) if (sq == 2 || sp == 2) return;
        size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1;
        for (int awk = 0; awk < 2; awk++)
        {
            mc::at("surface dim %zu degrees %zu %zu knots U %s V %s awkward %d", dim, p, q, ref::str(ku).c_str(), ref::str(kv).c_str(), awk); mc::state();
            mc::outcome(mc::mix(mc::mix(p, nu), mc::mix(q, nv)));
            BSSurface<T, dim> s{mkpoles<T, dim>(nu * nv, sp, awk), cast<T>(ku), cast<T>(kv), p, q};
            auto chk = [&](const rj::Value &v, const char *wh) { guarded(wh, [&] {
                auto f = [&](const BSSurface<T, dim> &b) {
                    if (s.degreeU() != b.degreeU() || s.degreeV() != b.degreeV()) mc::fail(std::string(wh) + "-srf-degree", "degrees %zu %zu", b.degreeU(), b.degreeV());
                    if (!same_all(s.knotsFlatsU(), b.knotsFlatsU()) || !same_all(s.knotsFlatsV(), b.knotsFlatsV())) mc::fail(std::string(wh) + "-srf-knots", "knots");
                    if (!same_all(s.poles(), b.poles())) mc::fail(std::string(wh) + "-srf-poles", "poles");
                    same_surface<T, dim>(wh, s, b, true); };
                auto b = std::dynamic_pointer_cast<BSSurface<T, dim>>(make_surface<T, dim>(v));
                if (!b) mc::fail("srf-type", "%s: not a polynomial surface", wh); else f(*b);
                f(make_bssurface<T, dim>(v)); f(bssurface_direct<T, dim>(v)); mc::step(3);
                if constexpr (dim == 3) { auto b2 = std::dynamic_pointer_cast<BSSurface<T, 3>>(make_surface<T>(v)); if (!b2) mc::fail("srf-type3", "%s", wh); else f(*b2); }
            }); };
            roundtrip([&](auto &al) { return make_json(s, al); }, chk);
            std::shared_ptr<Surface<T, dim>> ps = std::make_shared<BSSurface<T, dim>>(s);
            if (!awk) roundtrip([&](auto &al) { return make_json(ps, al); }, chk);
            std::vector<P<T, dim + 1>> hp(nu * nv); std::vector<T> w(nu * nv); auto pl = mkpoles<T, dim>(nu * nv, sp, false);
            for (size_t i = 0; i < nu * nv; i++) { w[i] = wgt<T>(i, sq + awk); for (size_t k = 0; k < dim; k++) hp[i][k] = pl[i][k] * w[i]; hp[i][dim] = w[i]; }
            BSSurfaceRational<T, dim> r{hp, cast<T>(ku), cast<T>(kv), p, q};
            auto chkr = [&](const rj::Value &v, const char *wh) { guarded(wh, [&] {
                auto b = std::dynamic_pointer_cast<BSSurfaceRational<T, dim>>(make_surface<T, dim>(v)); mc::step();
                if (!b) { mc::fail("srf-rational-type", "%s: not a rational surface", wh); return; }
                if (r.degreeU() != b->degreeU() || r.degreeV() != b->degreeV()) mc::fail(std::string(wh) + "-srf-degree", "degrees %zu %zu", b->degreeU(), b->degreeV());
                if (!same_all(r.knotsFlatsU(), b->knotsFlatsU()) || !same_all(r.knotsFlatsV(), b->knotsFlatsV())) mc::fail(std::string(wh) + "-srf-knots", "knots");
                same_rational(wh, r, *b, std::numeric_limits<T>::epsilon());
                same_surface<T, dim>(wh, r, *b, false); }); };
            roundtrip([&](auto &al) { return make_json(r, al); }, chkr);
            if (awk) continue;
            std::shared_ptr<Surface<T, dim>> pr = std::make_shared<BSSurfaceRational<T, dim>>(r);
            roundtrip([&](auto &al) { return make_json(pr, al); }, chkr);
            // curve on these surfaces
            auto [u1, u2, v1, v2] = s.bounds();
            for (int kind = 0; kind < 4; kind++)
            {
                std::vector<P<T, 2>> q2; for (int i = 0; i < 4; i++) q2.push_back({u1 + (u2 - u1) * (T(i) / 3), v1 + (v2 - v1) * T((i * 2) % 5) / 4});
                std::vector<T> k2{0, 0, 0, T(0.4), 1, 1, 1};
                std::shared_ptr<Curve<T, 2>> c2;
                if (kind % 2) c2 = std::make_shared<BSCurveRational<T, 2>>(q2, k2, std::vector<T>{1, T(0.5), 2, 1}, 2); else c2 = std::make_shared<BSCurve<T, 2>>(q2, k2, 2);
                std::shared_ptr<Surface<T, dim>> sp_ = kind < 2 ? ps : pr;
                CurveOnSurface<T, dim> cs{c2, sp_};
                auto chkc = [&](const rj::Value &v, const char *wh) { guarded(wh, [&] {
                    auto b = std::dynamic_pointer_cast<CurveOnSurface<T, dim>>(make_curve<T, dim>(v)); mc::step();
                    if (!b) { mc::fail("oncurve-type", "%s: not a curve on surface", wh); return; }
                    if (typeid(b->basisCurve()) != typeid(cs.basisCurve()) || typeid(b->basisSurface()) != typeid(cs.basisSurface())) mc::fail("oncurve-parts", "%s: type of the parts changed", wh);
                    if (!same_all(cs.bounds(), b->bounds())) mc::fail("oncurve-bounds", "%s", wh);
                    for (int i = 0; i <= 4; i++) if (!near_all(cs.value(i / T(4)), b->value(i / T(4)), 1e3 * std::numeric_limits<T>::epsilon())) { mc::fail("oncurve-value", "%s: evaluation differs", wh); break; } }); };
                roundtrip([&](auto &al) { return make_json(cs, al); }, chkc);
                std::shared_ptr<Curve<T, dim>> pcs = std::make_shared<CurveOnSurface<T, dim>>(cs);
                roundtrip([&](auto &al) { return make_json(pcs, al); }, chkc);
            }
        }
    }); });
    mc::sample();
}
static void revolutions()
{
    using T = double;
    std::vector<ax2<T, 3>> axes{{{{0, 0, 0}, {0, 0, 1}, {1, 0, 0}}}, {{{1, -2, .5}, {1, 1, 0}, {-1, 1, 0}}}, {{{0.1, 1. / 3, 1e5}, {1, 2, 3}, {3, 0, -1}}}, {{{1e-7, 0, 0}, {0, -1, 0}, {0, 0, 1}}}};
    patterns(1, 3, 1, [&](size_t p, auto &, int sp, auto fk) { for (auto &ax : axes) for (auto [a, b] : {std::pair{0., 2 * M_PI}, {0.1, 1.3}, {-1., 1. / 3}}) for (int rat = 0; rat < 2; rat++)
    {
        size_t n = fk.size() - p - 1; auto pl = mkpoles<T, 2>(n, sp, false);
        std::vector<T> w(n); for (size_t i = 0; i < n; i++) w[i] = wgt<T>(i, sp);
        std::shared_ptr<Curve<T, 2>> m; if (rat) m = std::make_shared<BSCurveRational<T, 2>>(pl, fk, w, p); else m = std::make_shared<BSCurve<T, 2>>(pl, fk, p);
        SurfaceOfRevolution<T> s{m, ax, a, b};
        mc::at("revolution of a degree %zu %s meridian about axis %g %g %g, angles %g..%g", p, rat ? "rational" : "polynomial", ax[1][0], ax[1][1], ax[1][2], a, b); mc::state(); mc::outcome(mc::mix(p, rat + 7 * sp));
        auto chk = [&](const rj::Value &v, const char *wh) { guarded(wh, [&] {
            auto r = std::dynamic_pointer_cast<SurfaceOfRevolution<T>>(make_surface<T>(v)); mc::step();
            if (!r) { mc::fail("rev-type", "%s: not a surface of revolution", wh); return; }
            for (int i = 0; i < 3; i++) if (!same_all(s.axis2()[i], r->axis2()[i])) mc::fail("rev-axis", "%s: axis changed", wh);
            same_surface<T, 3>(wh, s, *r, !rat); }); };
        roundtrip([&](auto &al) { return make_json(s, al); }, chk);
        std::shared_ptr<Surface<T, 3>> ps = std::make_shared<SurfaceOfRevolution<T>>(s);
        roundtrip([&](auto &al) { return make_json(ps, al); }, chk);
        auto [u1, u2, v1, v2] = s.bounds();
        std::shared_ptr<Curve<T, 2>> c2 = std::make_shared<BSCurve<T, 2>>(std::vector<P<T, 2>>{{u1, v1}, {u2, v2}}, std::vector<T>{0, 0, 1, 1}, 1);
        CurveOnSurface<T, 3> cs{c2, ps};
        auto chkc = [&](const rj::Value &v, const char *wh) { guarded("curve on revolution", [&] {
            auto r = std::dynamic_pointer_cast<CurveOnSurface<T, 3>>(make_curve<T, 3>(v)); mc::step();
            if (!r) { mc::fail("on-rev-type", "%s", wh); return; }
            if (!dynamic_cast<const SurfaceOfRevolution<T> *>(&r->basisSurface())) mc::fail("on-rev-surface", "%s: the surface of revolution is lost", wh);
            for (int i = 0; i <= 4; i++) { auto x = cs.value(i / 4.), y = r->value(i / 4.); for (int k = 0; k < 3; k++) if (std::abs(x[k] - y[k]) > 1e-12 * (1 + std::abs(x[k]))) { mc::fail("on-rev-value", "%s: evaluation differs", wh); return; } } }); };
        roundtrip([&](auto &al) { return make_json(cs, al); }, chkc);
    } });
    mc::sample();
}
// definitions that are written only: every part can be read back
static void written_only()
{
    using T = double;
    patterns(1, 3, 1, [&](size_t p, auto &, int sp, auto fk) {
        size_t n = fk.size() - p - 1;
        BSCurve<T, 2> c{mkpoles<T, 2>(n, sp, false), fk, p}; auto pc = std::make_shared<BSCurve<T, 2>>(c);
        BSCurve<T, 3> c3{mkpoles<T, 3>(n, sp, false), fk, p}; auto pc3 = std::make_shared<BSCurve<T, 3>>(c3);
        BSCurve<T, 1> c1{mkpoles<T, 1>(n, sp, false), fk, p};
        auto [a, b] = c.bounds();
        mc::at("composed definitions degree %zu knots %s", p, ref::str(fk).c_str()); mc::state(); mc::outcome(mc::mix(p, sp));
        for (auto [f, g] : {std::pair{0., 1.}, {0.1, 0.7}, {1. / 3, 0.9}})
        {
            T u1 = a + f * (b - a), u2 = a + g * (b - a);
            CurveTrimmed<T, 2> t{std::static_pointer_cast<Curve<T, 2>>(pc), u1, u2};
            auto chk = [&](const rj::Value &v, const char *wh) { guarded(wh, [&] {
                if (v["type"].GetInt() != (int)entity_type::CurveTrimmed || v["dim"].GetInt() != 2) mc::fail("trim-type", "%s", wh);
                if (!same(v["u1"].GetDouble(), u1) || !same(v["u2"].GetDouble(), u2)) mc::fail("trim-bounds", "%s: bounds changed", wh);
                same_curve("trim", c, make_bscurve<T, 2>(v["curve"])); }); };
            roundtrip([&](auto &al) { return make_json(t, al); }, chk);
            std::shared_ptr<Curve<T, 2>> pt = std::make_shared<CurveTrimmed<T, 2>>(t); roundtrip([&](auto &al) { return make_json(pt, al); }, chk);
        }
        BSCfunction<T> f{c1};
        CurveOffset2D<T, BSCfunction<T>> o{pc, f};
        auto chko = [&](const rj::Value &v, const char *wh) { guarded(wh, [&] {
            if (v["type"].GetInt() != (int)entity_type::Curve2dOffset || v["dim"].GetInt() != 2) mc::fail("offset-type", "%s", wh);
            same_curve("offset", c, make_bscurve<T, 2>(v["curve"])); same_curve("offset-function", c1, make_bscurve<T, 1>(v["function"]["curve"])); }); };
        roundtrip([&](auto &al) { return make_json(o, al); }, chko);
        std::shared_ptr<Curve<T, 2>> po = std::make_shared<CurveOffset2D<T, BSCfunction<T>>>(o); roundtrip([&](auto &al) { return make_json(po, al); }, chko);
        Line<T, 3> l{point<T, 3>{T(0.1), T(1) / 3, 2}, point<T, 3>{1, T(0.7), -1}};
        roundtrip([&](auto &al) { return make_json(l, al); }, [&](const rj::Value &v, const char *wh) { guarded(wh, [&] {
            auto [x, y] = l.getAx(); if (!same_all(make_array<T, 3>(v["p1"]), x) || !same_all(make_array<T, 3>(v["p2"]), y)) mc::fail("line", "%s: line changed", wh); }); });
        for (int k = 1; k <= 3; k++)
        {   // consecutive parts
            std::vector<std::shared_ptr<Curve<T, 2>>> parts; std::vector<BSCurve<T, 2>> org;
            P<T, 2> st = c.poles().front();
            for (int i = 0; i < k; i++) { auto pl = mkpoles<T, 2>(n, sp + i, false); pl.front() = st; st = pl.back(); org.push_back(BSCurve<T, 2>{pl, fk, p}); parts.push_back(std::make_shared<BSCurve<T, 2>>(org.back())); }
            CurveComposite<T, 2> cc{parts};
            auto chk = [&](const rj::Value &v, const char *wh) { guarded(wh, [&] {
                if (v["type"].GetInt() != (int)entity_type::CurveComposite || v["curves"].Size() != (unsigned)k) { mc::fail("composite-type", "%s", wh); return; }
                for (int i = 0; i < k; i++) same_curve("composite", org[i], make_bscurve<T, 2>(v["curves"][i])); }); };
            roundtrip([&](auto &al) { return make_json(cc, al); }, chk);
            std::shared_ptr<Curve<T, 2>> pcc = std::make_shared<CurveComposite<T, 2>>(cc); roundtrip([&](auto &al) { return make_json(pcc, al); }, chk);
        }
    });
    mc::sample();
}
// documents in the older textual form
static void legacy()
{
    using T = double;
    for (size_t n = 3; n <= 6; n++) for (size_t p = 1; p <= std::min<size_t>(n - 1, 4); p++) for (int form = 0; form < 4; form++)
    {
        auto pts = mkpoles<T, 2>(n, n, false);
        rj::Document d; d.SetObject(); auto &al = d.GetAllocator();
        const char *mode = form == 1 ? "CHORD_LENGTH" : form == 2 ? "CENTRIPETAL" : form == 3 ? "EQUALLY_SPACED" : nullptr;
        KnotsCalcMode md = form == 2 ? KnotsCalcMode::CENTRIPETAL : form == 3 ? KnotsCalcMode::EQUALLY_SPACED : KnotsCalcMode::CHORD_LENGTH;
        mc::at("legacy interpolation document, %zu points degree %zu mode %s", n, p, mode ? mode : "default"); mc::state(); mc::step();
        auto doc = [&](const char *ty) { rj::Document r; r.SetObject(); r.AddMember("type", rj::Value(ty, r.GetAllocator()), r.GetAllocator()); return r; };
        guarded("interp_cn", [&] {
            auto v = doc("bscurve_interp_cn"); auto &a = v.GetAllocator();
            v.AddMember("deg", (uint64_t)p, a); v.AddMember("points", make_json(pts, a), a); if (mode) v.AddMember("param_calc_mode", rj::Value(mode, a), a);
            auto r = make_bscurve<T, 2>(v); auto e = interpolate(pts, p, md);
            same_curve("interp_cn", e, r); });
        guarded("interp_cn_params", [&] {
            auto v = doc("bscurve_interp_cn"); auto &a = v.GetAllocator(); std::vector<T> u(n); for (size_t i = 0; i < n; i++) u[i] = std::pow(i, 1.1) + 0.1;
            v.AddMember("deg", (uint64_t)p, a); v.AddMember("points", make_json(pts, a), a); v.AddMember("params", make_json(u.begin(), u.end(), a), a);
            same_curve("interp_cn_params", interpolate(pts, u, p), make_bscurve<T, 2>(v)); });
        for (int nc = 1; nc <= 2; nc++) guarded("interp", [&] {
            auto v = doc("bscurve_interp"); auto &a = v.GetAllocator(); auto tg = mkpoles<T, 2>(n, n + 3, false);
            rj::Value cs(rj::kArrayType); cs.PushBack(make_json(pts, a), a); if (nc == 2) cs.PushBack(make_json(tg, a), a);
            v.AddMember("constraints", cs, a); if (mode) v.AddMember("param_calc_mode", rj::Value(mode, a), a);
            auto r = make_bscurve<T, 2>(v);
            if (nc == 1) { std::vector<constrType<T, 2, 1>> Q(n); for (size_t i = 0; i < n; i++) Q[i] = {pts[i]}; same_curve("interp", interpolate<T, 2>(Q, md), r); }
            else { std::vector<constrType<T, 2, 2>> Q(n); for (size_t i = 0; i < n; i++) Q[i] = {pts[i], tg[i]}; same_curve("interp2", interpolate<T, 2>(Q, md), r); } });
        guarded("bscurve", [&] {
            auto v = doc("bscurve"); auto &a = v.GetAllocator(); auto fk = ref::flat(brk(n - p - 1, 1), std::vector<size_t>(n - p - 1, 1), p);
            v.AddMember("deg", (uint64_t)p, a); v.AddMember("poles", make_json(pts, a), a); v.AddMember("knots", make_json(fk.begin(), fk.end(), a), a);
            same_curve("legacy", BSCurve<T, 2>{pts, fk, p}, make_bscurve<T, 2>(v)); });
        mc::outcome(mc::mix(n * 10 + p, form));
    }
    mc::sample();
}
// every single mutation of a valid document: refused
struct Mut { const char *name; std::function<bool(rj::Value &, rj::Document::AllocatorType &)> f; };
static std::vector<Mut> muts()
{
    return {
        {"null", [](auto &v, auto &) { v.SetNull(); return true; }},
        {"string", [](auto &v, auto &) { v.SetString("abc"); return true; }},
        {"object", [](auto &v, auto &) { v.SetObject(); return true; }},
        {"bool", [](auto &v, auto &) { v.SetBool(true); return true; }},
        {"empty array", [](auto &v, auto &) { v.SetArray(); return true; }},
        {"negative", [](auto &v, auto &) { v.SetInt(-3); return true; }},
        {"huge", [](auto &v, auto &) { v.SetUint64(1000000007ull); return true; }},
        {"one more", [](auto &v, auto &al) { if (v.IsArray() && v.Size()) { rj::Value c(v[v.Size() - 1], al); v.PushBack(c, al); return true; } if (v.IsUint64()) { v.SetUint64(v.GetUint64() + 1); return true; } return false; }},
        {"one less", [](auto &v, auto &al) { if (v.IsArray() && v.Size()) { v.PopBack(); return true; } if (v.IsUint64() && v.GetUint64()) { v.SetUint64(v.GetUint64() - 1); return true; } return false; }},
        {"element null", [](auto &v, auto &) { if (v.IsArray() && v.Size()) { v[v.Size() / 2].SetNull(); return true; } return false; }},
        {"element string", [](auto &v, auto &) { if (v.IsArray() && v.Size()) { v[v.Size() / 2].SetString("1.0"); return true; } return false; }},
        {"element array", [](auto &v, auto &) { if (v.IsArray() && v.Size()) { v[0].SetArray(); return true; } return false; }},
        {"coordinate missing", [](auto &v, auto &) { if (v.IsArray() && v.Size() && v[v.Size() - 1].IsArray()) { v[v.Size() - 1].PopBack(); return true; } return false; }},
        {"coordinate null", [](auto &v, auto &) { if (v.IsArray() && v.Size() && v[0].IsArray()) { v[0][0].SetNull(); return true; } return false; }},
        {"mult negative", [](auto &v, auto &) { if (v.IsArray() && v.Size() && v[0].IsUint64()) { v[0].SetInt(-1); return true; } return false; }},
        {"mult plus one", [](auto &v, auto &) { if (v.IsArray() && v.Size() && v[0].IsUint64()) { v[0].SetUint64(v[0].GetUint64() + 1); return true; } return false; }},
        {"reversed", [](auto &v, auto &al) { if (v.IsArray() && v.Size() > 1 && v[0].IsDouble() && v[0].GetDouble() != v[v.Size() - 1].GetDouble()) { rj::Value c(rj::kArrayType); for (unsigned i = v.Size(); i-- > 0;) { rj::Value e(v[i], al); c.PushBack(e, al); } v = c; return true; } return false; }},
    };
}
template <typename Read> static void mutate(const char *what, const rj::Document &org, Read read, std::set<std::string> ignored)
{
    auto ms = muts();
    std::vector<std::string> names; for (auto m = org.MemberBegin(); m != org.MemberEnd(); ++m) names.push_back(m->name.GetString());
    {
        rj::Document d; d.CopyFrom(org, d.GetAllocator()); mc::at("%s unchanged", what);
        try { read(d); } catch (const std::exception &e) { mc::fail(std::string(what) + "-valid", "valid document refused: %s", e.what()); return; }
    }
    for (auto &nm : names)
    {
        if (ignored.count(nm)) continue;
        for (size_t i = 0; i <= ms.size(); i++)
        {
            rj::Document d; d.CopyFrom(org, d.GetAllocator());
            const char *mn = i < ms.size() ? ms[i].name : "removed";
            if (i < ms.size()) { if (!ms[i].f(d[nm.c_str()], d.GetAllocator())) continue; } else d.RemoveMember(nm.c_str());
            // another kind of entity, whose members are all present
            if (nm == "type" && (std::string(mn) == "one less" || std::string(mn) == "one more")) continue;
            // reversed weights are other valid weights
            if (std::string(mn) == "reversed" && nm.find("knots") != 0) continue;
            mc::at("%s with member %s: %s", what, nm.c_str(), mn); mc::state(); mc::step();
            try { read(d); mc::fail(std::string(what) + "-" + nm + "-" + mn, "malformed document turned into geometry"); }
            catch (const std::exception &) { mc::outcome(mc::mix(i, nm.size())); }
        }
    }
}
static void malformed()
{
    using T = double;
    if (!mc::g_verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); close(fd); }
    for (size_t p = 1; p <= 3; p++) for (size_t m = 0; m <= 2; m++) for (auto &mu : ref::mults(m, p))
    {
        auto fk = ref::flat(brk(m, 1), mu, p); size_t n = fk.size() - p - 1;
        auto mk = [&](auto f) { rj::Document d; d.SetObject(); rj::Value v = f(d.GetAllocator()); static_cast<rj::Value &>(d) = v; return d; };
        BSCurve<T, 2> c{mkpoles<T, 2>(n, 1, false), fk, p};
        { auto d = mk([&](auto &al) { return make_json(c, al); });
          mutate("curve", d, [](rj::Value &v) { make_curve<T, 2>(v); }, {"dim"});
          mutate("bscurve", d, [](rj::Value &v) { make_bscurve<T, 2>(v); }, {"dim"});
          mutate("curve as 3D", mk([&](auto &al) { return make_json(BSCurve<T, 3>{mkpoles<T, 3>(n, 1, false), fk, p}, al); }), [](rj::Value &v) { make_curve<T, 3>(v); }, {"dim"});
          mc::at("2D document read as 3D"); mc::step();
          try { make_curve<T, 3>(d); mc::fail("dimension", "2D document read as 3D"); } catch (const std::exception &) {} }
        std::vector<T> w(n); for (size_t i = 0; i < n; i++) w[i] = wgt<T>(i, 1);
        BSCurveRational<T, 2> cr{mkpoles<T, 2>(n, 1, false), fk, w, p};
        mutate("rational curve", mk([&](auto &al) { return make_json(cr, al); }), [](rj::Value &v) { make_curve<T, 2>(v); }, {"dim"});
        for (size_t q = 1; q <= 2; q++)
        {
            auto kv = ref::flat(brk(q - 1, 0), std::vector<size_t>(q - 1, 1), q); size_t nv = kv.size() - q - 1;
            auto s = std::make_shared<BSSurface<T, 3>>(mkpoles<T, 3>(n * nv, 1, false), fk, kv, p, q);
            auto ds = mk([&](auto &al) { return make_json(*s, al); });
            mutate("surface", ds, [](rj::Value &v) { make_surface<T, 3>(v); }, {"dim"});
            mutate("bssurface", ds, [](rj::Value &v) { make_bssurface<T, 3>(v); }, {"dim"});
            std::vector<P<T, 4>> hp; auto pl = mkpoles<T, 3>(n * nv, 1, false); for (size_t i = 0; i < n * nv; i++) { T ww = wgt<T>(i, 2); hp.push_back({pl[i][0] * ww, pl[i][1] * ww, pl[i][2] * ww, ww}); }
            mutate("rational surface", mk([&](auto &al) { return make_json(BSSurfaceRational<T, 3>{hp, fk, kv, p, q}, al); }), [](rj::Value &v) { make_surface<T, 3>(v); }, {"dim"});
            CurveOnSurface<T, 3> cs{std::make_shared<BSCurve<T, 2>>(c), std::static_pointer_cast<Surface<T, 3>>(s)};
            mutate("curve on surface", mk([&](auto &al) { return make_json(cs, al); }), [](rj::Value &v) { make_curve<T, 3>(v); }, {"dim"});
        }
        SurfaceOfRevolution<T> rv{std::make_shared<BSCurve<T, 2>>(c), ax2<T, 3>{{{0, 0, 0}, {0, 0, 1}, {1, 0, 0}}}, 0.1, 2.};
        mutate("revolution", mk([&](auto &al) { return make_json(rv, al); }), [](rj::Value &v) { make_surface<T>(v); }, {"dim"});
        // interpolation documents
        rj::Document d; d.SetObject(); auto &al = d.GetAllocator(); auto pts = mkpoles<T, 2>(n + 2, 1, false), tg = mkpoles<T, 2>(n + 2, 4, false);
        rj::Value cs(rj::kArrayType); cs.PushBack(make_json(pts, al), al); cs.PushBack(make_json(tg, al), al);
        d.AddMember("type", "bscurve_interp", al); d.AddMember("constraints", cs, al);
        for (int k = 0; k < 4; k++)
        {
            rj::Document e; e.CopyFrom(d, e.GetAllocator()); auto &c0 = e["constraints"];
            if (k == 0) c0[1].PopBack(); if (k == 1) c0[0].PopBack(); if (k == 2) c0[1].SetNull(); if (k == 3) c0[0].SetArray();
            mc::at("interpolation document, constraints mutation %d", k); mc::state(); mc::step();
            try { make_bscurve<T, 2>(e); mc::fail("interp-malformed", "malformed document turned into geometry"); } catch (const std::exception &) {}
        }
    }
    // unknown types
    for (int t = -2; t < 200; t++)
    {
        rj::Document d; d.SetObject(); d.AddMember("type", t, d.GetAllocator()); mc::at("document of type %d without content", t); mc::state(); mc::step(3);
        auto no = [&](const char *w, auto f) { try { f(); mc::fail(std::string("unknown-") + w, "geometry from nothing"); } catch (const std::exception &) {} };
        no("curve", [&] { make_curve<T, 2>(d); }); no("surface", [&] { make_surface<T, 3>(d); }); no("surface3", [&] { make_surface<T>(d); }); no("bscurve", [&] { make_bscurve<T, 2>(d); }); no("bssurface", [&] { make_bssurface<T, 3>(d); });
    }
    mc::sample();
}
// every truncation of a valid file, and a missing one
static void broken_files()
{
    using T = double;
    auto fk = ref::flat(brk(1, 1), {1}, 2); BSCurve<T, 2> c{mkpoles<T, 2>(4, 1, true), fk, 2};
    rj::Document d; d.SetObject(); d.AddMember("c", make_json(c, d.GetAllocator()), d.GetAllocator());
    std::string f = scratch() + "/d.json"; write_js_doc(d, f.c_str());
    std::string txt; { std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); txt = o.str(); }
    for (size_t k = 0; k < txt.size(); k++)
    {
        { std::ofstream o(f); o << txt.substr(0, k); }
        rj::Document r; mc::at("file truncated after %zu of %zu characters", k, txt.size()); mc::state(); mc::step();
        try { parse_file(f.c_str(), r); mc::fail("truncated", "a broken file is read without error"); } catch (const std::exception &) { mc::outcome(k); }
    }
    std::remove(f.c_str()); rj::Document r; mc::at("missing file");
    try { parse_file(f.c_str(), r); mc::fail("missing", "a missing file is read"); } catch (const std::exception &) {}
    mc::sample();
}
static std::vector<mc::Unit> units()
{
    std::vector<mc::Unit> u; bool T = mc::thorough();
    auto S = [&](const std::string &n, auto f) { u.push_back({n, [f] { Clean c; f(); }}); };
    for (size_t p = 1; p <= (T ? 6 : 4); p++) { auto s = std::to_string(p);
        S("curve1-" + s, [=] { curves<double, 1>(p, p, T ? 3 : 2); }); S("curve2-" + s, [=] { curves<double, 2>(p, p, T ? 3 : 2); }); S("curve3-" + s, [=] { curves<double, 3>(p, p, T ? 3 : 2); });
        S("curve2f-" + s, [=] { curves<float, 2>(p, p, T ? 2 : 1); }); S("curve3f-" + s, [=] { curves<float, 3>(p, p, 1); }); }
    for (int k = 0; k < 2; k++) { auto s = std::to_string(k);
        S("surface3-" + s, [=] { surfaces<double, 3>(T ? 4 : 3, T ? 4 : 3, k); }); S("surface2-" + s, [=] { surfaces<double, 2>(T ? 3 : 2, T ? 4 : 3, k); }); S("surface3f-" + s, [=] { surfaces<float, 3>(T ? 3 : 2, 2, k); }); }
    S("revolution", revolutions); S("composed", written_only); S("legacy", legacy); S("malformed", malformed); S("broken-files", broken_files);
    return u;
}
MC_MAIN(units)
