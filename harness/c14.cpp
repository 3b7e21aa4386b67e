// C14: parallel evaluation and batch building equal sequential execution.
//
// Built twice: with lib/shadow in front of TBB's parallel_for / parallel_reduce (C14_SCHED) the explorer
// decides every chunking and every order of the chunks; without it the real thread pool runs the same
// cases at every size around the thresholds.
#ifndef C14_SCHED
#define MC_THREADS
#else
#include <tbb/parallel_for.h>
#include <tbb/parallel_reduce.h>
#endif
#include "mc.h"
#include "ref.h"
#include <deque>
#include <list>
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bscanalysis.h>
#include <gbs/bssanalysis.h>
#include <gbs/bscinterp.h>
#include <gbs/bscapprox.h>
#include <gbs/bssbuild.h>
#include <gbs/offsets.h>
#include <gbs/transform.h>
#include <topology/tessellations.h>
#include <topology/halfEdgeMeshQuality.h>
using namespace gbs;
template <size_t d> using P = std::array<double, d>;

struct Out
{
    std::vector<double> v;
    std::string err;
    bool operator==(const Out &o) const { return err == o.err && v.size() == o.v.size() && (v.empty() || !memcmp(v.data(), o.v.data(), v.size() * sizeof(double))); }
};
static void put(Out &o, double x) { o.v.push_back(x); }
template <size_t d> static void put(Out &o, const P<d> &p) { for (auto x : p) o.v.push_back(x); }
template <class C> static void put_all(Out &o, const C &c) { for (const auto &x : c) put(o, x); }
template <class F> static Out run(F f)
{
    Out o;
    try { f(o); }
    catch (const std::exception &e) { o = {{}, std::string(typeid(e).name()) + ": " + e.what()}; }
    catch (int i) { o = {{}, "int " + std::to_string(i)}; }
    return o;
}
// a case: how to run it through the library, and one by one; bit i of the mask: item i fails
struct Case
{
    std::string name;
    std::function<Out(size_t n, uint64_t mask)> par, seq;
    bool can_fail = true;
    size_t n_min = 0, n_max = 1 << 20;
};

// user-defined curve whose evaluation may fail
struct TestCurve : Curve<double, 2>
{
    double x = 0;
    bool bad = false;
    int tag = 0;
    TestCurve() = default;
    TestCurve(double x_, bool b, int t) : x(x_), bad(b), tag(t) {}
    auto value(double u, size_t d = 0) const -> std::array<double, 2> override
    {
        if (bad) throw tag;
        return d == 0 ? P<2>{x + u * .5, u} : d == 1 ? P<2>{.5, 1} : P<2>{0, 0};
    }
    auto bounds() const -> std::array<double, 2> override { return {0, 1}; }
};
static BSCurve<double, 2> crv2() { return {points_vector<double, 2>{{0, 0}, {1, 2}, {3, -1}, {4, 3}, {5, 0}, {7, 1}}, {0, 0, 0, 0, 1, 1.5, 3, 3, 3, 3}, 3}; }
static BSCurveRational<double, 3> crv3r() { return {points_vector<double, 4>{{0, 0, 0, 1}, {2, 4, 2, 2}, {1.5, -.5, 1, .5}, {4, 3, 0, 1}, {10, 0, 2, 2}}, {0, 0, 0, 1, 2, 3, 3, 3}, 2}; }
static BSSurface<double, 3> srf3()
{
    points_vector<double, 3> p;
    for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) p.push_back({i + .1 * j * j, j + .2 * i, .3 * i * j - .1 * i * i});
    return {p, {0, 0, 0, 1, 3, 3, 3}, {0, 0, 0, 0, 3, 3, 3, 3}, 2, 3};
}
static BSSurfaceRational<double, 3> srf3r()
{
    points_vector<double, 4> p;
    for (int j = 0; j < 3; j++) for (int i = 0; i < 4; i++) { double w = 1 + .25 * ((i + j) % 3); p.push_back({(i + .1 * j) * w, (double)j * w, .3 * i * j * w, w}); }
    return {p, {0, 0, 0, 1, 3, 3, 3}, {0, 0, 0, 3, 3, 3}, 2, 2};
}
// parameter of item i, distinct out of bounds value when it fails
static double par(size_t i, size_t n, bool bad) { return bad ? 10. + i : 3. * ((i * 7) % (n + 1)) / (n + 1.); }
static bool bit(uint64_t m, size_t i) { return i < 64 && (m >> i & 1); }
static std::vector<double> pars(size_t n, uint64_t m) { std::vector<double> u; for (size_t i = 0; i < n; i++) u.push_back(par(i, n, bit(m, i))); return u; }
static std::vector<P<2>> pars2(size_t n, uint64_t m)
{
    std::vector<P<2>> u;
    for (size_t i = 0; i < n; i++) { P<2> p{par(i, n, false), par((i * 5) % n, n, false)}; if (bit(m, i)) p[i % 2] = 10. + i; u.push_back(p); }
    return u;
}
template <class C> static void curve_cases(std::vector<Case> &cs, const std::string &nm, std::shared_ptr<C> c)
{
    constexpr size_t dim = std::tuple_size_v<std::decay_t<decltype(c->value(0.))>>;
    for (size_t d = 0; d < 3; d++)
    {
        auto seq = [c, d](size_t n, uint64_t m) { return run([&](Out &o) { for (auto u : pars(n, m)) put(o, c->value(u, d)); }); };
        cs.push_back({nm + ".values" + std::to_string(d), [c, d](size_t n, uint64_t m) { return run([&](Out &o) { put_all(o, c->values(pars(n, m), d)); }); }, seq});
        cs.push_back({nm + ".make_points" + std::to_string(d), [c, d](size_t n, uint64_t m) { return run([&](Out &o) { put_all(o, make_points<double, dim>(*c, pars(n, m), d)); }); }, seq});
        if (d) continue;
        cs.push_back({nm + ".values/list", [c, d](size_t n, uint64_t m) { return run([&](Out &o) { auto u = pars(n, m); put_all(o, c->values(std::list<double>(u.begin(), u.end()), d)); }); }, seq});
        cs.push_back({nm + ".values/deque", [c, d](size_t n, uint64_t m) { return run([&](Out &o) { auto u = pars(n, m); put_all(o, c->values(std::deque<double>(u.begin(), u.end()), d)); }); }, seq});
        cs.push_back({nm + ".make_points/list", [c, d](size_t n, uint64_t m) { return run([&](Out &o) { auto u = pars(n, m); put_all(o, make_points<double, dim>(*c, std::list<double>(u.begin(), u.end()), d)); }); }, seq});
    }
    cs.push_back({nm + ".d_dms", [c](size_t n, uint64_t m) { return run([&](Out &o) { put_all(o, c->d_dms(pars(n, m))); }); }, [c](size_t n, uint64_t m) { return run([&](Out &o) { for (auto u : pars(n, m)) put(o, c->d_dm(u)); }); }});
    cs.push_back({nm + ".d_dm2s", [c](size_t n, uint64_t m) { return run([&](Out &o) { put_all(o, c->d_dm2s(pars(n, m))); }); }, [c](size_t n, uint64_t m) { return run([&](Out &o) { for (auto u : pars(n, m)) put(o, c->d_dm2(u)); }); }});
}
template <class S> static void surface_cases(std::vector<Case> &cs, const std::string &nm, std::shared_ptr<S> s)
{
    for (auto [du, dv] : {std::pair<size_t, size_t>{0, 0}, {1, 0}, {0, 1}, {1, 1}})
    {
        auto sfx = std::to_string(du) + std::to_string(dv);
        auto seq = [=](size_t n, uint64_t m) { return run([&](Out &o) { for (auto [u, v] : pars2(n, m)) put(o, s->value(u, v, du, dv)); }); };
        cs.push_back({nm + ".values" + sfx, [=](size_t n, uint64_t m) { return run([&](Out &o) { put_all(o, s->values(pars2(n, m), du, dv)); }); }, seq});
        cs.push_back({nm + ".values2/" + sfx, [=](size_t n, uint64_t m) { return run([&](Out &o) { std::vector<double> u, v; for (auto [a, b] : pars2(n, m)) u.push_back(a), v.push_back(b); put_all(o, s->values(u, v, du, dv)); }); }, seq});
        if (du + dv == 0)
            cs.push_back({nm + ".values/list", [=](size_t n, uint64_t m) { return run([&](Out &o) { auto p = pars2(n, m); put_all(o, s->values(std::list<P<2>>(p.begin(), p.end()), du, dv)); }); }, seq});
    }
#define KIND(F, G) cs.push_back({nm + "." #F, [=](size_t n, uint64_t m) { return run([&](Out &o) { put_all(o, s->F(pars2(n, m))); }); }, [=](size_t n, uint64_t m) { return run([&](Out &o) { for (auto [u, v] : pars2(n, m)) put(o, s->G(u, v)); }); }})
    KIND(d_dmus, d_dmu);
    KIND(d_dmvs, d_dmv);
    KIND(d_dmu2s, d_dmu2);
    KIND(d_dmv2s, d_dmv2);
}
template <class B, size_t d> static void transform_cases(std::vector<Case> &cs, const std::string &nm, std::function<B(size_t)> make)
{
    // the transformation fails on the poles of the mask; the object must then be left as it was
    auto trf = [](const P<d> &p, uint64_t m) { auto i = (size_t)std::llround(p[0]); if (bit(m, i)) throw (int)i; P<d> q; for (size_t k = 0; k < d; k++) q[k] = p[(k + 1) % d] * 3 + .1 * k; return q; };
    cs.push_back({nm + ".transform",
        [=](size_t n, uint64_t m) {
            auto b = make(n), b0 = b;
            auto o = run([&](Out &o) { transform(b, [&](const P<d> &p) { return trf(p, m); }); });
            put_all(o, b.poles());
            if (!o.err.empty()) for (size_t i = 0; i < b.poles().size(); i++) if (b.poles()[i] != b0.poles()[i]) o.err += " modified";
            return o;
        },
        [=](size_t n, uint64_t m) {
            auto b = make(n);
            auto poles = b.poles();
            auto o = run([&](Out &o) {
                for (auto &p : poles)
                {
                    P<d> x;
                    double w = p.size() > d ? p.back() : 1;
                    for (size_t k = 0; k < d; k++) x[k] = p[k] / w;
                    x = trf(x, m);
                    for (size_t k = 0; k < d; k++) p[k] = x[k] * w;
                } });
            put_all(o, o.err.empty() ? poles : b.poles());
            return o;
        },
        true, 2, 1 << 20});
}
static std::vector<double> line_knots(size_t n) { std::vector<double> k{0, 0}; for (size_t i = 1; i + 1 < n; i++) k.push_back(i); k.push_back(n - 1); k.push_back(n - 1); return k; }
static std::vector<Case> cases()
{
    std::vector<Case> cs;
    curve_cases(cs, "BSCurve", std::make_shared<BSCurve<double, 2>>(crv2()));
    curve_cases(cs, "BSCurveRational", std::make_shared<BSCurveRational<double, 3>>(crv3r()));
    {
        auto s = std::make_shared<BSSurface<double, 3>>(srf3());
        auto c = std::make_shared<BSCurve<double, 2>>(points_vector<double, 2>{{0, 1}, {1, 2}, {3, 2.5}}, std::vector<double>{0, 0, 0, 3, 3, 3}, 2);
        curve_cases(cs, "CurveOnSurface", std::make_shared<CurveOnSurface<double, 3>>(c, s));
        curve_cases(cs, "CurveOffset", std::make_shared<CurveOffset2D<double, BSCfunction<double>>>(std::make_shared<BSCurve<double, 2>>(crv2()), BSCfunction<double>{BSCurve<double, 1>{points_vector<double, 1>{{.1}, {.3}}, {0, 0, 3, 3}, 1}}));
    }
    surface_cases(cs, "BSSurface", std::make_shared<BSSurface<double, 3>>(srf3()));
    surface_cases(cs, "BSSurfaceRational", std::make_shared<BSSurfaceRational<double, 3>>(srf3r()));
    {
        std::shared_ptr<Curve<double, 2>> prof = std::make_shared<BSCurve<double, 2>>(crv2());
        surface_cases(cs, "SurfaceOfRevolution", std::make_shared<SurfaceOfRevolution<double>>(prof, ax2<double, 3>{{{0, 0, 0}, {0, 0, 1}, {1, 0, 0}}}, 0., 3.));
    }
    transform_cases<BSCurve<double, 2>, 2>(cs, "BSCurve", [](size_t n) { points_vector<double, 2> p; for (size_t i = 0; i < n; i++) p.push_back({(double)i, i * .3}); return BSCurve<double, 2>{p, line_knots(n), 1}; });
    transform_cases<BSCurveRational<double, 3>, 3>(cs, "BSCurveRational", [](size_t n) { points_vector<double, 4> p; for (size_t i = 0; i < n; i++) { double w = i % 2 ? 2 : 1; p.push_back({i * w, i * .25 * w, w, w}); } return BSCurveRational<double, 3>{p, line_knots(n), 1}; });
    transform_cases<BSSurface<double, 3>, 3>(cs, "BSSurface", [](size_t n) { points_vector<double, 3> p; for (size_t i = 0; i < 2 * n; i++) p.push_back({(double)i, i * .25, 1}); return BSSurface<double, 3>{p, line_knots(n), {0, 0, 1, 1}, 1, 1}; });
    transform_cases<BSSurfaceRational<double, 3>, 3>(cs, "BSSurfaceRational", [](size_t n) { points_vector<double, 4> p; for (size_t i = 0; i < 2 * n; i++) { double w = i % 2 ? 2 : 1; p.push_back({i * w, i * .25 * w, w, w}); } return BSSurfaceRational<double, 3>{p, line_knots(n), {0, 0, 1, 1}, 1, 1}; });
    // grids: n x 2 nodes
    {
        auto s = std::make_shared<BSSurface<double, 3>>(srf3());
        cs.push_back({"discretize", [=](size_t n, uint64_t) { return run([&](Out &o) { put_all(o, discretize<double, 3>(*s, n, 3)); }); },
            [=](size_t n, uint64_t) { return run([&](Out &o) { for (auto v : make_range<double>(0., 3., 3)) for (auto u : make_range<double>(0., 3., n)) put(o, s->value(u, v)); }); }, false, 2});
        auto f = std::make_shared<BSSfunction<double>>(BSSurface<double, 1>{points_vector<double, 1>{{.1}, {.2}, {.3}, {.5}}, {0, 0, 3, 3}, {0, 0, 3, 3}, 1, 1});
        cs.push_back({"offset_points", [=](size_t n, uint64_t m) { return run([&](Out &o) { put_all(o, offset_points<double>(*f, *s, pars(n, m), {0., 1., 2.5})); }); },
            [=](size_t n, uint64_t m) { return run([&](Out &o) {
                for (double v : {0., 1., 2.5}) for (auto u : pars(n, m))
                {
                    auto N = s->value(u, v, 1, 0) ^ s->value(u, v, 0, 1);
                    N = N / norm(N);
                    put(o, s->value(u, v) + N * (*f)(u, v));
                } }); }});
    }
    // batches
    auto set = [](size_t i, bool bad) { points_vector<double, 2> q; for (size_t k = 0; k < (bad ? i % 2 : 6 + i % 3); k++) q.push_back({k + .1 * ((i * k) % 3), (double)((k * k + i) % 5)}); return q; };
    auto sets = [=](size_t n, uint64_t m) { std::vector<points_vector<double, 2>> s; for (size_t i = 0; i < n; i++) s.push_back(set(i, bit(m, i))); return s; };
    auto putc = [](Out &o, const BSCurve<double, 2> &c) { put_all(o, c.poles()); put_all(o, c.knotsFlats()); put(o, c.degree()); };
    cs.push_back({"interpolate.batch", [=](size_t n, uint64_t m) { return run([&](Out &o) { for (auto &c : interpolate<double, 2>(sets(n, m), 2, KnotsCalcMode::CHORD_LENGTH)) putc(o, c); }); },
        [=](size_t n, uint64_t m) { return run([&](Out &o) { for (auto &q : sets(n, m)) putc(o, interpolate<double, 2>(q, size_t(2), KnotsCalcMode::CHORD_LENGTH)); }); }, false});
    cs.push_back({"approx.batch", [=](size_t n, uint64_t m) { return run([&](Out &o) { for (auto &c : approx<double, 2>(sets(n, m), 2, 4, KnotsCalcMode::CHORD_LENGTH)) putc(o, c); }); },
        [=](size_t n, uint64_t m) { return run([&](Out &o) { for (auto &q : sets(n, m)) putc(o, approx<double, 2>(q, 2, 4, KnotsCalcMode::CHORD_LENGTH)); }); }, false});
    // generic builder: every item runs exactly once, the first failure in input order is reported
    auto batch = [](auto container, uint64_t m, size_t n) {
        auto cnt = std::make_shared<std::vector<std::atomic<int>>>(n);
        auto o = run([&](Out &o) {
            auto r = build_batch(container, [&](int i) -> std::vector<double> { (*cnt)[i]++; if (bit(m, i)) throw std::runtime_error("item " + std::to_string(i)); return {i * 1.5, (double)i}; });
            for (auto &x : r) put_all(o, x); });
        for (auto &c : *cnt) if (c != 1) o.err += " runs:" + std::to_string(c);
        return o;
    };
    auto batch_ref = [](size_t n, uint64_t m) { return run([&](Out &o) { for (size_t i = 0; i < n; i++) { if (bit(m, i)) throw std::runtime_error("item " + std::to_string(i)); put(o, i * 1.5); put(o, (double)i); } }); };
    auto ints = [](size_t n) { std::vector<int> v(n); for (size_t i = 0; i < n; i++) v[i] = i; return v; };
    cs.push_back({"build_batch/vector", [=](size_t n, uint64_t m) { return batch(ints(n), m, n); }, batch_ref});
    cs.push_back({"build_batch/list", [=](size_t n, uint64_t m) { auto v = ints(n); return batch(std::list<int>(v.begin(), v.end()), m, n); }, batch_ref});
    cs.push_back({"build_batch/deque", [=](size_t n, uint64_t m) { auto v = ints(n); return batch(std::deque<int>(v.begin(), v.end()), m, n); }, batch_ref});
    // curves against curves
    auto tcs = [](size_t n, uint64_t m) { std::vector<TestCurve> v; for (size_t i = 0; i < n; i++) v.emplace_back((double)((i * 3 + 1) % (n + 2)), bit(m, i), (int)i); return v; };
    P<2> pt{.2, .3};
    auto closest_ref = [=](size_t n, uint64_t m) { return run([&](Out &o) { auto v = tcs(n, m); double best = 1e300; size_t k = 0; for (size_t i = 0; i < n; i++) { auto d = extrema_curve_point<double, 2>(v[i], pt, 1e-6)[1]; if (d < best) best = d, k = i; } put(o, (double)k); }); };
    cs.push_back({"closest_curve", [=](size_t n, uint64_t m) { return run([&](Out &o) { auto v = tcs(n, m); put(o, (double)(closest_curve<double, 2>(pt, v.begin(), v.end(), 1e-6) - v.begin())); }); }, closest_ref, true, 1, 64});
    cs.push_back({"closest_p_curve", [=](size_t n, uint64_t m) { return run([&](Out &o) { std::vector<std::shared_ptr<TestCurve>> v; for (auto &c : tcs(n, m)) v.push_back(std::make_shared<TestCurve>(c)); put(o, (double)(closest_p_curve<double, 2>(pt, v.begin(), v.end(), 1e-6) - v.begin())); }); }, closest_ref, true, 1, 64});
    TestCurve diag(1., false, 0);
    auto base = std::make_shared<BSCurve<double, 2>>(points_vector<double, 2>{{-1, .4}, {20, .6}}, std::vector<double>{0, 0, 1, 1}, 1);
    cs.push_back({"extrema_curve_curve_lst", [=](size_t n, uint64_t m) { return run([&](Out &o) { std::vector<std::shared_ptr<TestCurve>> v; for (auto &c : tcs(n, m)) v.push_back(std::make_shared<TestCurve>(c)); for (auto &r : extrema_curve_curve_lst<double, 2>(*base, v.begin(), v.end(), 1e-6)) put(o, r); }); },
        [=](size_t n, uint64_t m) { return run([&](Out &o) { for (auto &c : tcs(n, m)) put(o, extrema_curve_curve<double, 2>(*base, c, 1e-6)); }); }, true, 0, 5});
    // arc length function over n spans: out of the curve when bit 0 is set
    cs.push_back({"abs_curv", [=](size_t n, uint64_t m) { return run([&](Out &o) { auto c = crv2(); auto f = abs_curv<double, 2>(c, m ? 4. : 0., m ? 5. : 3., n); put_all(o, f.basisCurve().poles()); }); },
        [=](size_t n, uint64_t m) { return run([&](Out &o) {
            auto c = crv2();
            auto u = make_range(point<double, 1>{m ? 4. : 0.}, point<double, 1>{m ? 5. : 3.}, n);
            std::vector<double> l{0};
            for (size_t i = 1; i < n; i++) l.push_back(length<double, 2>(c, u[i - 1][0], u[i][0]) + l.back());
            put_all(o, interpolate<double, 1>(u, l, std::min<size_t>(3, n - 1)).poles()); }); }, true, 5, 2000});
    // weights
    auto pts = [](size_t n) { points_vector<double, 2> p; for (size_t i = 0; i < n; i++) p.push_back({i + .1, i * .7}); return p; };
    auto wts = [](size_t n) { std::vector<double> w; for (size_t i = 0; i < n; i++) w.push_back(1 + .3 * (i % 4)); return w; };
    cs.push_back({"add_weights_coord", [=](size_t n, uint64_t) { return run([&](Out &o) { put_all(o, add_weights_coord<double, 2>(pts(n), wts(n))); }); },
        [=](size_t n, uint64_t) { return run([&](Out &o) { for (size_t i = 0; i < n; i++) { auto p = pts(n)[i]; auto w = wts(n)[i]; put(o, P<3>{p[0] * w, p[1] * w, w}); } }); }, false, 1, 4000});
    cs.push_back({"separate_weights", [=](size_t n, uint64_t) { return run([&](Out &o) { points_vector<double, 3> pw; for (size_t i = 0; i < n; i++) pw.push_back({i * 2., i * 3. + 1, i % 2 ? 2. : 4.}); points_vector<double, 2> p; std::vector<double> w; separate_weights(pw, p, w); put_all(o, p); put_all(o, w); }); },
        [=](size_t n, uint64_t) { return run([&](Out &o) { for (size_t i = 0; i < n; i++) { double w = i % 2 ? 2. : 4.; put(o, P<2>{i * 2. / w, (i * 3. + 1) / w}); } for (size_t i = 0; i < n; i++) put(o, i % 2 ? 2. : 4.); }); }, false, 0});
    // lofted surface through n sections: poles independent of the schedule
    cs.push_back({"loft", [=](size_t n, uint64_t) { return run([&](Out &o) {
            std::list<BSCurve<double, 2>> l;
            for (size_t i = 0; i < n; i++) { auto p = crv2().poles(); for (auto &x : p) x[1] += i * (2 + .1 * x[0]); l.push_back({p, crv2().knotsFlats(), 3}); }
            auto s = loft(l, 3);
            put_all(o, s.poles()); put_all(o, s.knotsFlatsU()); put_all(o, s.knotsFlatsV()); }); }, nullptr, false, 2, 40});
    cs.push_back({"loft.spine", [=](size_t n, uint64_t) { return run([&](Out &o) {
            std::list<BSCurve<double, 3>> l;
            for (size_t i = 0; i < n; i++) l.push_back({points_vector<double, 3>{{-1, 0, 2. * i}, {0, .5 + .1 * i, 2. * i}, {1, 0, 2. * i}}, {0, 0, 0, 1, 1, 1}, 2});
            BSCurve<double, 3> spine{points_vector<double, 3>{{0, 0, 0}, {.1, .1, n - 1.}, {0, 0, 2. * (n - 1)}}, {0, 0, 0, 1, 1, 1}, 2};
            auto s = loft(l, spine, 3);
            put_all(o, s.poles()); put_all(o, s.knotsFlatsU()); put_all(o, s.knotsFlatsV()); }); }, nullptr, false, 2, 4});
    // mesh reductions on integer coordinates (exact sums)
    auto mesh = [](size_t n) { std::vector<P<2>> c; for (size_t i = 0; i < n + 2; i++) c.push_back({(double)(i * 2), (double)((i * i) % 7)}); return delaunay2DBoyerWatson<double>(c, 1e-10); };
    cs.push_back({"area", [=](size_t n, uint64_t) { return run([&](Out &o) { auto f = mesh(n); put(o, getTriangle2dMeshAreaPar(std::vector<std::shared_ptr<HalfEdgeFace<double, 2>>>(f.begin(), f.end()))); }); },
        [=](size_t n, uint64_t) { return run([&](Out &o) { double a = 0; for (auto &f : mesh(n)) { auto c = getFaceCoords(f); auto it = c.begin(); auto p = *it++, q = *it++, r = *it++; a += std::fabs((q[0] - p[0]) * (r[1] - p[1]) - (r[0] - p[0]) * (q[1] - p[1])) / 2; } put(o, a); }); }, false, 1, 40});
    return cs;
}
static void compare(const Case &c, size_t n, uint64_t m, const Out &ref, const Out &got)
{
    mc::state();
    uint64_t h = mc::mix(n, m);
    for (auto x : got.v) h = mc::mixd(h, x);
    mc::outcome(h);
    if (got == ref) return;
    if (got.err != ref.err) mc::fail(ref.err.empty() ? "raises" : "error", "reports '%s' instead of '%s'", got.err.c_str(), ref.err.c_str());
    else mc::fail("result", "%zu values differ from sequential execution", got.v.size());
}
#ifdef C14_SCHED
// stateless search over the choices of the scheduler
struct Search
{
    std::vector<size_t> choice, arity;
    size_t pos = 0;
    size_t choose(size_t k)
    {
        if (k < 2) return 0;
        if (pos == choice.size()) choice.push_back(0), arity.push_back(k);
        return choice[pos++] % k;
    }
    bool next()
    {
        choice.resize(pos); arity.resize(pos);
        pos = 0;
        while (!choice.empty() && ++choice.back() >= arity.back()) choice.pop_back(), arity.pop_back();
        return !choice.empty();
    }
};
static void explore(const Case &c, size_t nmax)
{
    for (size_t n = c.n_min; n <= std::min(nmax, c.n_max); n++)
        for (uint64_t m = 0; m < (c.can_fail ? uint64_t(1) << n : 1); m++)
        {
            mcsched::plan = nullptr;
            parallel_min_size = 1000, parallel_batch_min_size = 8;
            mc::at("%s of %zu items, failing %llx: reference", c.name.c_str(), n, (unsigned long long)m);
            auto ref = c.seq ? c.seq(n, m) : c.par(n, m);
            Search S;
            size_t region = 0, focus = 0;
            mcsched::plan = [&](size_t k, size_t least) {
                mcsched::Chunks r;
                auto singles = [&](size_t from, size_t step) { for (size_t i = from; i * least < k; i += step) { size_t a = i * least, b = std::min(k, a + least); if (k - b < least) b = k; if (b - a >= least || a == 0) r.push_back({a, b}); } };
                // one parallel region of the run is explored fully, the others run backwards
                if (region++ != focus) { singles(0, 1); std::reverse(r.begin(), r.end()); return r; }
                if (k > 6)
                {
                    size_t how = S.choose(6);
                    if (how == 0 || k < 2 * least) r = {{0, k}};
                    else if (how == 1) { singles(0, 1); std::reverse(r.begin(), r.end()); }
                    else if (how == 2) singles(0, 1);
                    else if (how == 3) r = {{k / 2, k}, {0, k / 2}};
                    else if (how == 4) { singles(0, 2); singles(1, 2); }
                    else { singles(1, 2); singles(0, 2); }
                    return r;
                }
                mcsched::Chunks parts;
                std::vector<size_t> cuts; // those with no chunk below the least size
                for (size_t c = 0; c < (size_t(1) << (k - 1)); c++)
                {
                    bool ok = true;
                    for (size_t i = 1, a = 0; i <= k; i++) if (i == k || (c >> (i - 1) & 1)) { if (i - a < least && c) ok = false; a = i; }
                    if (ok) cuts.push_back(c);
                }
                size_t cut = cuts[S.choose(cuts.size())], a = 0;
                for (size_t i = 1; i <= k; i++) if (i == k || (cut >> (i - 1) & 1)) parts.push_back({a, i}), a = i;
                while (!parts.empty()) { auto j = S.choose(parts.size()); r.push_back(parts[j]); parts.erase(parts.begin() + j); }
                mc::step();
                return r;
            };
            do
            {
                region = 0;
                focus = S.choose(6);
                size_t thr = S.choose(3);
                parallel_min_size = parallel_batch_min_size = thr == 0 ? 0 : thr == 1 ? n : n + 1;
                auto s = [&] { std::string t; for (auto x : S.choice) t += std::to_string(x) + ","; return t; }();
                mc::at("%s of %zu items, failing %llx, schedule %s", c.name.c_str(), n, (unsigned long long)m, s.c_str());
                compare(c, n, m, ref, c.par(n, m));
                mc::trace();
            } while (S.next());
            if (m == 0) mc::sample();
        }
    mcsched::plan = nullptr;
}
static std::vector<mc::Unit> units()
{
    std::vector<mc::Unit> U;
    for (auto &c : cases())
    {
        bool heavy = c.name.find("extrema") == 0 || c.name.find("closest") == 0 || c.name.find("loft") == 0 || c.name.find("abs") == 0 || c.name.find("batch") != std::string::npos && c.name.find("build") != 0;
        size_t n = mc::thorough() ? (heavy ? 6 : 6) : heavy ? 4 : 5;
        if (c.name == "abs_curv") n = 6;
        U.push_back({c.name, [c, n] { explore(c, n); }});
    }
    return U;
}
#else
// the real thread pool at every size around the thresholds, failures at either end, middle and pairs
static void sizes(const Case &c, bool thorough)
{
    std::set<size_t> N{0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 16, 17, 31, 64, 999, 1000, 1001, 1023, 1500};
    if (thorough) N.insert({1999, 2000, 2001, 4095, 4096, 5000});
    for (auto n : N)
    {
        if (n < c.n_min || n > c.n_max) continue;
        std::set<uint64_t> M{0};
        if (c.can_fail) for (size_t i : {size_t(0), size_t(1), n / 2, n - 1}) if (i < n && i < 64) { M.insert(uint64_t(1) << i); for (size_t j : {size_t(0), n / 3, n - 1}) if (j < n && j < 64) M.insert(uint64_t(1) << i | uint64_t(1) << j); }
        if (c.can_fail && n >= 64) M.insert(~uint64_t(0) << 40);
        for (auto m : M)
        {
            parallel_min_size = 1000, parallel_batch_min_size = 8;
            mc::at("%s of %zu items, failing %llx: reference", c.name.c_str(), n, (unsigned long long)m);
            auto ref = c.seq ? c.seq(n, m) : c.par(n, m);
            for (size_t thr : {size_t(0), n, n + 1, size_t(1000)}) for (int rep = 0; rep < (thorough ? 3 : 1); rep++)
            {
                if (n > 64 && thr == n + 1) continue;
                parallel_min_size = thr; parallel_batch_min_size = thr == 1000 ? 8 : thr;
                mc::at("%s of %zu items, failing %llx, thresholds %zu", c.name.c_str(), n, (unsigned long long)m, thr);
                mc::step();
                compare(c, n, m, ref, c.par(n, m));
                mc::trace();
            }
        }
    }
    mc::sample();
}
static std::vector<mc::Unit> units()
{
    std::vector<mc::Unit> U;
    bool T = mc::thorough();
    for (auto &c : cases()) U.push_back({c.name, [c, T] { sizes(c, T); }});
    return U;
}
#endif
MC_MAIN(units)
