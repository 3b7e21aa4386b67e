// C14: concurrent use of shared objects is free of data races.
// Every ordered pair of read-only operations on one shared object (and of builders on their own data) is
// executed by two threads; their complete access sets must be independent (see lib/racert.h).
#include "racert.h"
#define MC_THREADS
#include "mc.h"
#include <thread>
#include <list>
#include <typeinfo>
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bscanalysis.h>
#include <gbs/bssanalysis.h>
#include <gbs/bscinterp.h>
#include <gbs/bscapprox.h>
#include <gbs/bssinterp.h>
#include <gbs/bssbuild.h>
#include <gbs/bscbuild.h>
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>
#include <gbs/transform.h>
#include <topology/tessellations.h>

using namespace gbs;
template <size_t d> using P = std::array<double, d>;
static std::atomic<uint64_t> sink{0};
template <class X> static void keep(const X &x)
{
    uint64_t h = 0;
    const unsigned char *p = (const unsigned char *)&x;
    for (size_t i = 0; i < sizeof(X); i++) h = h * 131 + p[i];
    sink.fetch_add(h, std::memory_order_relaxed);
}
template <class X, class A> static void keep(const std::vector<X, A> &v) { for (auto &x : v) keep(x); }

// two persistent threads, each with its own stack and thread-local storage
struct Worker
{
    std::atomic<int> go{0};
    std::function<void()> job;
    std::thread t;
    explicit Worker(int id) : t([this, id] {
        for (;;)
        {
            while (!go.load()) std::this_thread::yield();
            if (go.load() < 0) return;
            race::cur = id;
            try { job(); } catch (...) {}
            race::cur = -1;
            go.store(0);
        } }) {}
    void run(std::function<void()> f) { job = std::move(f); go.store(1); while (go.load()) std::this_thread::yield(); }
    ~Worker() { go.store(-1); t.join(); }
};
template <class O> struct Op { std::string name; std::function<void(const O &)> f; };

template <class O> static void pairs(const std::string &nm, std::function<std::shared_ptr<O>()> make, const std::vector<Op<O>> &ops, const std::string &second = "")
{
    parallel_min_size = size_t(-1); // the operation itself stays in its thread
    race::reset();
    Worker W0(0), W1(1);
    // function-local constants are initialised under the language's lock: do it before, on another object
    for (auto &o : ops) { mc::at("%s: %s", nm.c_str(), o.name.c_str()); auto x = make(); W0.run([&] { race::cur = -1; o.f(*x); }); W1.run([&] { race::cur = -1; o.f(*x); }); }
    for (auto &a : ops) for (auto &b : ops)
    {
        mc::at("%s: %s || %s", nm.c_str(), a.name.c_str(), b.name.c_str());
        auto x = make(); // fresh: nothing cached by an earlier operation
        race::reset();
        uint64_t n0 = race::accesses;
        W0.run([&] { a.f(*x); });
        W1.run([&] { b.f(*x); });
        mc::step(race::accesses - n0);
        mc::state(); mc::trace();
        uint64_t h = race::nused; for (char c : a.name + "|" + b.name + nm) h = mc::mix(h, c);
        mc::outcome(h);
        if (race::accesses == n0) mc::fail("harness", "nothing recorded");
        race::Conflict c;
        if (race::conflict(c)) mc::fail("race", "both touch %p, %s (code at %p and %p)", (void *)c.a, c.ww ? "both write" : "one writes", c.pc0, c.pc1);
    }
    mc::sample();
}
#define OP(expr) {#expr, [](const O &o) { keep(expr); }}
template <class C> static std::vector<Op<C>> curve_ops()
{
    using O = C;
    constexpr size_t dim = std::tuple_size_v<std::decay_t<decltype(std::declval<C>().value(0.))>>;
    std::vector<Op<C>> r{
        OP(o.value(.3)), OP(o.value(.8, 1)), OP(o.value(.6, 2)), OP(o(.9)), OP(o.bounds()), OP(o.begin()), OP(o.end(1)),
        OP(o.values(std::vector<double>{.1, .5, .9})), OP(o.d_dm(.3)), OP(o.d_dm2(.4)), OP(o.d_dms(std::vector<double>{.1, .5})),
        OP(o.midPosition()), OP(o.value(.3, 7)), {"value(9)", [](const O &o) { keep(o.value(9.)); }},
        {"derivatives", [](const O &o) { std::array<P<dim>, 4> k; o.derivatives(.7, 3, k.data()); keep(k); }},
        OP((length<double, dim>(o))), OP((make_points<double, dim>(o, std::vector<double>{.2})).size()), OP((extrema_curve_point<double, dim>(o, P<dim>{}, 1e-5))),
        OP((discretize<double, dim>(o, 5)).size())};
    if constexpr (requires(const C &c) { c.poles(); })
    {
        r.insert(r.end(), {OP(o.poles()), OP(o.knotsFlats()), OP(o.degree()), OP(o.knots()), OP(o.mults()), OP(o.order()), OP(o.pole(1)),
            {"copy", [](const O &o) { O c{o}; keep(c.value(.5)); }},
            {"copy+edit", [](const O &o) { O c{o}; c.insertKnot(.37); c.increaseDegree(); c.reverse(); c.trim(.1, .9); c.changeBounds(1., 3.); keep(c.value(1.5)); }},
            {"translated", [](const O &o) { O c{o}; translate(c, P<dim>{}); keep(c.value(.5)); }}});
    }
    return r;
}
template <class S> static std::vector<Op<S>> surface_ops()
{
    using O = S;
    std::vector<Op<S>> r{
        OP(o.value(.3, .4)), OP(o.value(.8, .2, 1, 0)), OP(o.value(.6, .7, 0, 1)), OP(o.value(.6, .7, 1, 1)), OP(o(.9, .9)), OP(o.bounds()),
        OP(o.values(std::vector<P<2>>{{.1, .5}, {.9, .9}})), OP(o.values(std::vector<double>{.1, .5}, std::vector<double>{.2, .7})), OP(o.d_dmu(.3, .3)), OP(o.d_dmv(.4, .1)), OP(o.d_dmu2(.4, .2)), OP(o.d_dmv2(.4, .2)),
        {"value(9,9)", [](const O &o) { keep(o.value(9., 9.)); }},
        OP((discretize<double, 3>(o, 3, 3)).size())};
    if constexpr (requires(const S &c) { c.poles(); })
        r.insert(r.end(), {OP(o.poles()), OP(o.knotsFlatsU()), OP(o.knotsFlatsV()), OP(o.degreeU()), OP(o.nPolesU()), OP(o.pole(1, 1)), OP(o.isoU(.4).value(.5)), OP(o.isoV(.4).value(.5)),
            {"copy+edit", [](const O &o) { O c{o}; c.insertKnotU(.37); c.increaseDegreeV(); c.reverseU(); c.trimV(.1, .9); keep(c.value(.5, .5)); }}});
    return r;
}
static std::vector<Op<int>> builder_ops()
{
    using O = int;
    auto pts = [](int s) { points_vector<double, 3> p; for (int i = 0; i < 7; i++) p.push_back({i + .1 * s, i * i * .1, .3 * ((i + s) % 3)}); return p; };
    auto crv = [](int s) { points_vector<double, 3> p; for (int i = 0; i < 5; i++) p.push_back({i + .1, i * i * .1 + s, .3 * ((i + s) % 3)}); return BSCurve<double, 3>{p, {0, 0, 0, 0, .5, 1, 1, 1, 1}, 3}; };
    return {
        {"interpolate", [=](const O &o) { keep(interpolate<double, 3>(pts(o), size_t(3), KnotsCalcMode::CHORD_LENGTH).value(.5)); }},
        {"interpolate.C1", [=](const O &o) { std::vector<constrType<double, 3, 2>> q; for (auto &p : pts(o)) q.push_back({p, P<3>{1, 0, 0}}); keep(interpolate(q, KnotsCalcMode::CHORD_LENGTH).poles()); }},
        {"approx", [=](const O &o) { keep(approx<double, 3>(pts(o), 2, 5, KnotsCalcMode::CHORD_LENGTH).poles()); }},
        {"interpolate.surface", [=](const O &o) { points_vector<double, 3> q; for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) q.push_back({i * 1., j * 1., .1 * i * j}); keep(interpolate<double, 3>(q, 4, 2, 2, KnotsCalcMode::CHORD_LENGTH).poles()); }},
        {"loft", [=](const O &o) { std::list<BSCurve<double, 3>> l{crv(o), crv(o + 3), crv(o + 5)}; keep(loft(l, 2).poles()); }},
        {"curve edits", [=](const O &o) { auto c = crv(o); c.insertKnot(.3); c.increaseDegree(); c.trim(.1, .8); c.reverse(); c.removeKnot(.3, 1e-6); keep(c.poles()); }},
        {"build_circle", [=](const O &o) { keep(build_circle<double, 2>(1. + o).value(.2)); }},
        {"build_segment", [=](const O &o) { keep(build_segment<double, 2>({0, 0}, {1., (double)o}).value(.2)); }},
        {"uniform params", [=](const O &o) { auto c = crv(o); keep(uniform_distrib_params<double, 3>(c, 5)); }},
        {"abs_curv", [=](const O &o) { auto c = crv(o); keep(abs_curv<double, 3>(c, 8)(.1)); }},
        {"extrema", [=](const O &o) { auto c = crv(o); keep(extrema_curve_curve<double, 3>(c, crv(o + 7), 1e-5)); }},
        {"basis", [=](const O &o) { std::vector<double> k{0, 0, 0, .4, 1, 1, 1}; keep(basis_function(.3, size_t(1), size_t(2), size_t(1), k)); keep(basis_function(.3, size_t(2), size_t(2), size_t(0), k)); }},
        {"weights", [=](const O &o) { auto pw = add_weights_coord<double, 3>(pts(o), std::vector<double>(7, 2.)); points_vector<double, 3> p; std::vector<double> w; separate_weights(pw, p, w); keep(w); }},
        {"triangulation", [=](const O &o) { std::vector<P<2>> c; for (int i = 0; i < 8; i++) c.push_back({i * 2., (double)((i * i + o) % 7)}); keep(delaunay2DBoyerWatson<double>(c, 1e-10).size()); }},
        {"join", [=](const O &o) { auto c = crv(o); auto d = crv(o); d.reverse(); keep(join(c, d).poles()); }},
    };
}
template <class O> static void add(std::vector<mc::Unit> &U, const std::string &nm, std::function<std::shared_ptr<O>()> make, std::vector<Op<O>> ops)
{
    U.push_back({nm, [=] { pairs<O>(nm, make, ops); }});
}
static BSCurve<double, 2> crv2() { return {points_vector<double, 2>{{0, 0}, {1, 2}, {3, -1}, {4, 3}, {5, 0}, {7, 1}}, {0, 0, 0, 0, .4, .7, 1, 1, 1, 1}, 3}; }
static BSCurveRational<double, 3> crv3r() { return {points_vector<double, 4>{{0, 0, 0, 1}, {2, 4, 2, 2}, {1.5, -.5, 1, .5}, {4, 3, 0, 1}, {10, 0, 2, 2}}, {0, 0, 0, .3, .6, 1, 1, 1}, 2}; }
static BSSurface<double, 3> srf3()
{
    points_vector<double, 3> p;
    for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) p.push_back({i + .1 * j * j, j + .2 * i, .3 * i * j - .1 * i * i});
    return {p, {0, 0, 0, .5, 1, 1, 1}, {0, 0, 0, 0, 1, 1, 1, 1}, 2, 3};
}
static BSSurfaceRational<double, 3> srf3r()
{
    points_vector<double, 4> p;
    for (int j = 0; j < 3; j++) for (int i = 0; i < 4; i++) { double w = 1 + .25 * ((i + j) % 3); p.push_back({(i + .1 * j) * w, (double)j * w, .3 * i * j * w, w}); }
    return {p, {0, 0, 0, .5, 1, 1, 1}, {0, 0, 0, 1, 1, 1}, 2, 2};
}
static std::vector<mc::Unit> units()
{
    std::vector<mc::Unit> U;
    add<BSCurve<double, 2>>(U, "BSCurve", [] { return std::make_shared<BSCurve<double, 2>>(crv2()); }, curve_ops<BSCurve<double, 2>>());
    add<BSCurveRational<double, 3>>(U, "BSCurveRational", [] { return std::make_shared<BSCurveRational<double, 3>>(crv3r()); }, curve_ops<BSCurveRational<double, 3>>());
    using Off = CurveOffset2D<double, BSCfunction<double>>;
    add<Off>(U, "CurveOffset", [] { return std::make_shared<Off>(std::make_shared<BSCurve<double, 2>>(crv2()), BSCfunction<double>{BSCurve<double, 1>{points_vector<double, 1>{{.1}, {.3}}, {0, 0, 1, 1}, 1}}); }, curve_ops<Off>());
    add<CurveOnSurface<double, 3>>(U, "CurveOnSurface", [] { return std::make_shared<CurveOnSurface<double, 3>>(std::make_shared<BSCurve<double, 2>>(points_vector<double, 2>{{0, .1}, {.5, .2}, {1, .9}}, std::vector<double>{0, 0, 0, 1, 1, 1}, 2), std::make_shared<BSSurface<double, 3>>(srf3())); }, curve_ops<CurveOnSurface<double, 3>>());
    add<Line<double, 2>>(U, "Line", [] { return std::make_shared<Line<double, 2>>(P<2>{0, 0}, P<2>{1, 1}); }, [] { std::vector<Op<Line<double, 2>>> r; for (auto &o : curve_ops<Line<double, 2>>()) if (o.name.find("bounds") == std::string::npos && o.name.find("length") == std::string::npos && o.name.find("extrema") == std::string::npos && o.name.find("discretize") == std::string::npos) r.push_back(o); return r; }());
    add<BSSurface<double, 3>>(U, "BSSurface", [] { return std::make_shared<BSSurface<double, 3>>(srf3()); }, surface_ops<BSSurface<double, 3>>());
    add<BSSurfaceRational<double, 3>>(U, "BSSurfaceRational", [] { return std::make_shared<BSSurfaceRational<double, 3>>(srf3r()); }, surface_ops<BSSurfaceRational<double, 3>>());
    using Rev = SurfaceOfRevolution<double>;
    add<Rev>(U, "SurfaceOfRevolution", [] { std::shared_ptr<Curve<double, 2>> prof = std::make_shared<BSCurve<double, 2>>(crv2()); return std::make_shared<Rev>(prof, ax2<double, 3>{{{0, 0, 0}, {0, 0, 1}, {1, 0, 0}}}, 0., 3.); }, [] { std::vector<Op<Rev>> r; for (auto &o : surface_ops<Rev>()) r.push_back(o); return r; }());
    add<BSCfunction<double>>(U, "BSCfunction", [] { return std::make_shared<BSCfunction<double>>(BSCurve<double, 1>{points_vector<double, 1>{{.1}, {.3}, {1}}, {0, 0, 0, 1, 1, 1}, 2}); }, [] { using O = BSCfunction<double>; return std::vector<Op<O>>{OP(o.value(.2)), OP(o(.4)), OP(o(.4, 1)), OP(o.bounds()), OP(o.basisCurve().poles())}; }());
    add<BSSfunction<double>>(U, "BSSfunction", [] { return std::make_shared<BSSfunction<double>>(BSSurface<double, 1>{points_vector<double, 1>{{.1}, {.2}, {.3}, {.5}}, {0, 0, 1, 1}, {0, 0, 1, 1}, 1, 1}); }, [] { using O = BSSfunction<double>; return std::vector<Op<O>>{OP(o(.2, .3)), OP(o(.4, .4)), OP(o(.4, .1, 1, 0))}; }());
    // builders on their own data: no hidden shared state
    for (int k = 0; k < 3; k++) add<int>(U, "builders" + std::to_string(k), [k] { return std::make_shared<int>(k); }, builder_ops());
    return U;
}
MC_MAIN(units)
