// C08: joining, connecting, extending and unifying curves keeps the originals.
#include "mc.h"
#include "ref.h"
#include <gbs/bsctools.h>
#include <gbs/curvetrimmed.h>
using namespace gbs;
template <size_t dim> using P = std::array<double, dim>;

struct Pat { size_t p; std::vector<double> k; std::vector<double> br; };
static std::vector<Pat> patterns(size_t pmax, size_t imax, bool full)
{
    std::vector<Pat> r;
    for (size_t p = 1; p <= pmax; p++)
        for (size_t i = 0; i <= imax; i++)
            for (auto &m : ref::mults(i, p))
                for (int sp = 0; sp < (full ? 3 : 2); sp++)
                {
                    if (!full && i == 2 && sp == 0) continue;
                    auto b = ref::breaks(i, sp);
                    r.push_back({p, ref::flat(b, m, p), b});
                }
    return r;
}
template <size_t dim>
static auto bsc(const Pat &x, size_t seed) { return BSCurve<double, dim>(ref::poles<dim>(x.k.size() - x.p - 1, seed), x.k, x.p); }
template <size_t dim>
static auto bsr(const Pat &x, size_t seed) { return BSCurveRational<double, dim>(ref::hpoles<dim>(x.k.size() - x.p - 1, seed), x.k, x.p); }

template <size_t dim>
static bool near(const P<dim> &a, const P<dim> &b, double tol)
{
    for (size_t c = 0; c < dim; c++) if (!(std::fabs(a[c] - b[c]) <= tol * (1 + std::fabs(a[c]) + std::fabs(b[c])))) return false;
    return true;
}
template <size_t dim, bool rational>
static void valid(const BSCurveGeneral<double, dim, rational> &c)
{
    auto k = c.knotsFlats();
    bool ok = k.size() == c.poles().size() + c.degree() + 1 && std::is_sorted(k.begin(), k.end());
    for (size_t i = 0; ok && i + c.degree() + 1 < k.size(); i++) if (i + c.degree() + 2 < k.size() && k[i] == k[i + c.degree() + 1] && i > 0) ok = false;
    mc::step();
    if (!ok) mc::fail("valid", "degree %zu, %zu poles, knots %s", c.degree(), c.poles().size(), ref::str(k).c_str());
}
// f(u) traces g(v(u)) for u in [a,b]
template <size_t dim, class F, class G>
static void same(const F &f, double fa, double fb, const G &g, double ga, double gb, double tol, const char *key, const char *what, std::vector<double> extra = {})
{
    std::vector<double> t;
    for (int i = 0; i <= 12; i++) t.push_back(i / 12.);
    for (auto x : extra) t.push_back((x - ga) / (gb - ga));
    for (auto s : t)
    {
        double u = s >= 1 ? fb : fa + (fb - fa) * s, v = s >= 1 ? gb : ga + (gb - ga) * s;
        auto X = f.value(u), Y = g.value(v);
        mc::step();
        mc::outcome(mc::mixd(0, X[0]));
        if (!near<dim>(X, Y, tol)) { mc::fail(key, "%s: at %.17g %s expected %s", what, u, ref::str(X).c_str(), ref::str(Y).c_str()); return; }
    }
}

// second curve moved so that it starts where the first ends
template <size_t dim> static void start_at(BSCurve<double, dim> &c, const P<dim> &x)
{
    auto p = c.poles(); auto o = p.front();
    for (auto &q : p) for (size_t i = 0; i < dim; i++) q[i] += x[i] - o[i];
    p.front() = x;
    c = BSCurve<double, dim>(p, c.knotsFlats(), c.degree());
}
template <size_t dim> static void start_at(BSCurveRational<double, dim> &c, const P<dim> &x)
{
    auto p = c.poles(); P<dim> o; for (size_t i = 0; i < dim; i++) o[i] = p.front()[i] / p.front()[dim];
    for (auto &q : p) for (size_t i = 0; i < dim; i++) q[i] += (x[i] - o[i]) * q[dim];
    c = BSCurveRational<double, dim>(p, c.knotsFlats(), c.degree());
}
template <size_t dim, class A, class B>
static void join_one(const A &a, const B &b0)
{
    B b = b0;
    start_at<dim>(b, a.end());
    auto j = join(a, b);
    mc::state();
    valid(j);
    auto [a1, a2] = a.bounds(); auto [b1, b2] = b.bounds();
    double e = a2 + (b2 - b1);
    if (std::fabs(j.bounds()[0] - a1) > 1e-12 || std::fabs(j.bounds()[1] - e) > 1e-9) { mc::fail("join-bounds", "%s expected (%g,%g)", ref::str(j.bounds()).c_str(), a1, e); return; }
    if (j.degree() != std::max(a.degree(), b.degree())) mc::fail("join-degree", "%zu", j.degree());
    same<dim>(j, a1, a2, a, a1, a2, 1e-8, "join-first", "first part", a.knots());
    same<dim>(j, a2, j.bounds()[1], b, b1, b2, 1e-8, "join-second", "second part", b.knots());
    auto pj = join(&a, &b);
    mc::step();
    if (pj->knotsFlats() != j.knotsFlats() || pj->poles() != j.poles()) mc::fail("join-pointer", "pointer form differs");
}
static void joins(const std::vector<Pat> &L, size_t i)
{
    for (size_t k = 0; k < L.size(); k++)
    {
        mc::at("join %s p%zu with %s p%zu", ref::str(L[i].k).c_str(), L[i].p, ref::str(L[k].k).c_str(), L[k].p);
        join_one<2>(bsc<2>(L[i], 1), bsc<2>(L[k], 2));
        join_one<2>(bsr<2>(L[i], 1), bsr<2>(L[k], 2));
        if ((i + k) % 3 == 0)
        {
            join_one<3>(bsc<3>(L[i], 1), bsr<3>(L[k], 2));
            join_one<3>(bsr<3>(L[i], 1), bsc<3>(L[k], 2));
        }
    }
    mc::sample();
}
// chains: ((a b) c) and (a (b c)) trace the same
static void chains(const std::vector<Pat> &L, size_t i)
{
    for (size_t k = 0; k < L.size(); k++) for (size_t l = 0; l < L.size(); l++)
    {
        mc::at("chain %zu %zu %zu: degrees %zu %zu %zu", i, k, l, L[i].p, L[k].p, L[l].p);
        auto a = bsr<2>(L[i], 1), c = bsr<2>(L[l], 3);
        auto b = bsc<2>(L[k], 2);
        start_at<2>(b, a.end());
        start_at<2>(c, b.end());
        auto x = join(join(a, b), c), y = join(a, join(b, c));
        mc::state();
        valid(x); valid(y);
        if (std::fabs(x.bounds()[1] - y.bounds()[1]) > 1e-9 || std::fabs(x.bounds()[0] - y.bounds()[0]) > 1e-9) { mc::fail("chain-bounds", "differ"); continue; }
        same<2>(x, x.bounds()[0], x.bounds()[1], y, y.bounds()[0], y.bounds()[1], 1e-8, "chain", "grouping");
        double e = a.bounds()[1] + b.bounds()[1] - b.bounds()[0];
        same<2>(x, e, x.bounds()[1], c, c.bounds()[0], c.bounds()[1], 1e-8, "chain-last", "third curve");
    }
    mc::sample();
}
template <size_t dim, bool rational>
static void unify_set(const std::vector<Pat> &S)
{
    using Crv = std::conditional_t<rational, BSCurveRational<double, dim>, BSCurve<double, dim>>;
    std::vector<Crv> L;
    for (size_t i = 0; i < S.size(); i++) if constexpr (rational) L.push_back(bsr<dim>(S[i], i)); else L.push_back(bsc<dim>(S[i], i));
    size_t pm = 0;
    for (auto &s : S) pm = std::max(pm, s.p);
    mc::state();
    auto judge = [&](const std::vector<Crv> &R, const char *w)
    {
        if (R.size() != L.size()) { mc::fail("unify-size", "%s", w); return; }
        for (size_t i = 0; i < R.size(); i++)
        {
            valid(R[i]);
            auto k = R[i].knotsFlats(), k0 = R[0].knotsFlats();
            bool eq = k.size() == k0.size() && R[i].degree() == pm;
            for (size_t j = 0; eq && j < k.size(); j++) eq = std::fabs(k[j] - k0[j]) < 1e-9;
            if (!eq) { mc::fail("unify-knots", "%s: curve %zu degree %zu knots %s, first has %s", w, i, R[i].degree(), ref::str(k).c_str(), ref::str(k0).c_str()); return; }
            if (std::fabs(k.front() - S[0].br.front()) > 1e-12 || std::fabs(k.back() - S[0].br.back()) > 1e-12) mc::fail("unify-bounds", "%s: %g %g", w, k.front(), k.back());
            // the shape of every curve is kept
            same<dim>(R[i], k.front(), k.back(), L[i], L[i].bounds()[0], L[i].bounds()[1], 1e-8, "unify-shape", w, L[i].knots());
        }
        // nothing beyond the union of the knots: every interior knot comes from some curve
        for (auto [u, m] : unflat_knots(R[0].knotsFlats()))
        {
            size_t mm = 0;
            for (size_t i = 0; i < S.size(); i++)
                for (auto [v, n] : unflat_knots(S[i].k))
                {
                    double s = (v - S[i].br.front()) / (S[i].br.back() - S[i].br.front()), w2 = S[0].br.front() + s * (S[0].br.back() - S[0].br.front());
                    if (std::fabs(w2 - u) < 1e-9) mm = std::max(mm, n + pm - S[i].p);
                }
            if (mm != m) mc::fail("unify-mult", "%s: knot %g has multiplicity %zu, needs %zu", w, u, m, mm);
        }
    };
    {
        auto I = get_bs_curves_info<double, dim>(L.begin(), L.end());
        unify_degree(I);
        unify_knots(I);
        std::vector<Crv> R;
        for (auto &[p, k, d] : I) R.push_back(Crv(p, k, d));
        judge(R, "by poles");
    }
    judge(unified_curves(L), "by curves");
    if constexpr (!rational)
    {
        std::vector<std::shared_ptr<BSCurve<double, dim>>> Q;
        for (auto &c : L) Q.push_back(std::make_shared<BSCurve<double, dim>>(c));
        auto I = get_bs_curves_info<double, dim>(Q.begin(), Q.end());
        unify_degree(I);
        unify_knots(I);
        std::vector<Crv> R;
        for (auto &[p, k, d] : I) R.push_back(Crv(p, k, d));
        judge(R, "by pointers");
    }
}
static void unifies(const std::vector<Pat> &L, size_t i, bool triples)
{
    for (size_t k = 0; k < L.size(); k++)
    {
        mc::at("unify %s p%zu + %s p%zu", ref::str(L[i].k).c_str(), L[i].p, ref::str(L[k].k).c_str(), L[k].p);
        unify_set<2, false>({L[i], L[k]});
        unify_set<3, true>({L[i], L[k]});
        if (triples) for (size_t l = 0; l < L.size(); l++)
        {
            mc::at("unify %s p%zu + %s p%zu + %s p%zu", ref::str(L[i].k).c_str(), L[i].p, ref::str(L[k].k).c_str(), L[k].p, ref::str(L[l].k).c_str(), L[l].p);
            unify_set<2, false>({L[i], L[k], L[l]});
        }
    }
    mc::sample();
}
template <size_t dim>
static void at_param(const Curve<double, dim> &c, double u, size_t d, const P<dim> &v, const char *key, const char *w, double tol = 1e-7)
{
    auto x = c.value(u, d);
    mc::step();
    if (!near<dim>(x, v, tol)) mc::fail(key, "%s: derivative %zu at %g is %s expected %s", w, d, u, ref::str(x).c_str(), ref::str(v).c_str());
}
template <size_t dim, class A, class B>
static void connect(const A &a, const B &b)
{
    mc::state();
    std::string base = mc::g_slot->cur;
    double u1 = a.bounds()[1], u2 = b.bounds()[0];
    auto chk = [&](const BSCurve<double, dim> &c, size_t n, const char *w, double e = -1)
    {
        valid(c);
        for (size_t d = 0; d <= n; d++)
        {
            at_param<dim>(c, c.bounds()[0], d, a.value(u1, d), "connect-begin", w, 1e-6);
            at_param<dim>(c, c.bounds()[1], d, b.value(u2, d), "connect-end", w, 1e-6);
        }
        if (e > 0 && (c.bounds()[0] != 0 || std::fabs(c.bounds()[1] - e) > 1e-12)) mc::fail("connect-bounds", "%s: %s", w, ref::str(c.bounds()).c_str());
    };
    chk(c2_connect<double, dim>(a, b), 2, "c2");
    chk(c3_connect<double, dim>(a, b), 3, "c3");
    for (double t : {0., 1., 0.5})
    {
        auto c = c2_connect<double, dim>(a, b, t, 2 * t);
        chk(c, 2, "c2 with third derivative factors");
        auto x = a.value(u1, 3), y = b.value(u2, 3);
        for (auto &z : x) z *= t;
        for (auto &z : y) z *= 2 * t;
        at_param<dim>(c, c.bounds()[0], 3, x, "connect-third", "begin", 1e-6);
        at_param<dim>(c, c.bounds()[1], 3, y, "connect-third", "end", 1e-6);
    }
    for (size_t n = 0; n <= 4; n++)
        for (size_t p = n + 1; p <= 2 * n + 2; p++)
            for (double du : {1., 0.3, 4.})
            {
                auto c = cn_connect<double, dim>(a, b, du, p, n);
                if (c.degree() != std::min<size_t>(p, 2 * n + 1)) mc::fail("cn-degree", "asked %zu order %zu: %zu", p, n, c.degree());
                mc::at("%s [cn n=%zu p=%zu du=%g]", base.c_str(), n, p, du);
                chk(c, std::min(n, c.degree()), "cn", du);
            }
    for (double e : {0.5, 1., 2.}) chk(c2_connect(a, b, e), 2, "c2 shaped");
    if constexpr (dim == 2)
    {
        for (double e : {0.5, 1., 2.}) chk(c3_connect(a, b, e), 3, "c3 shaped");
        for (int s = 0; s < 4; s++)
        {
            bool s1 = s & 1, s2 = s & 2;
            double v1 = 0.4 * a.bounds()[0] + 0.6 * u1, v2 = 0.7 * u2 + 0.3 * b.bounds()[1];
            auto c = c2_connect(a, b, v1, v2, s1, s2, 1.5);
            for (size_t d = 0; d <= 2; d++)
            {
                auto x = a.value(v1, d), y = b.value(v2, d);
                // reversing a direction flips the odd derivatives only
                if (!s1 && d == 1) for (auto &z : x) z = -z;
                if (!s2 && d == 1) for (auto &z : y) z = -z;
                at_param<dim>(c, c.bounds()[0], d, x, "connect-sides", "begin", 1e-6);
                at_param<dim>(c, c.bounds()[1], d, y, "connect-sides", "end", 1e-6);
            }
        }
    }
}
static void connects(const std::vector<Pat> &L, size_t i)
{
    for (size_t k = 0; k < L.size(); k++)
    {
        mc::at("connect %s p%zu with %s p%zu", ref::str(L[i].k).c_str(), L[i].p, ref::str(L[k].k).c_str(), L[k].p);
        connect<2>(bsc<2>(L[i], 1), bsc<2>(L[k], 3));
        connect<3>(bsr<3>(L[i], 1), bsc<3>(L[k], 3));
    }
    mc::sample();
}
template <size_t dim, bool rational>
static void extend(const Pat &x)
{
    auto mk = [&] { if constexpr (rational) return bsr<dim>(x, 1); else return bsc<dim>(x, 1); };
    auto c = mk();
    auto [a, b] = c.bounds();
    auto judge = [&](const auto &r, bool at_end, const P<dim> &pt, bool natural, size_t cont, const char *w)
    {
        mc::state();
        valid(r);
        if (r.degree() != x.p) mc::fail("extend-degree", "%s: %zu", w, r.degree());
        auto [ra, rb] = r.bounds();
        if (at_end ? !(std::fabs(ra - a) < 1e-9 && rb > b) : !(std::fabs(rb - b) < 1e-9 && ra < a)) { mc::fail("extend-bounds", "%s: %s", w, ref::str(r.bounds()).c_str()); return; }
        same<dim>(r, a, b, c, a, b, 1e-7, "extend-part", w, c.knots());
        at_param<dim>(r, at_end ? rb : ra, 0, pt, "extend-point", w);
        if (natural && x.p > 2) { P<dim> z{}; auto d2 = r.value(at_end ? rb : ra, 2); double s = 0; for (auto v : d2) s += v * v; double l = 0; for (auto v : r.value(at_end ? b : a, 2)) l += v * v; mc::step(); double h = at_end ? rb - b : a - ra; if (!(std::sqrt(s) < 1e-6 * (1 + std::sqrt(l)) * std::max(1., 1 / (h * h)))) mc::fail("extend-natural", "%s: second derivative at the end %s", w, ref::str(d2).c_str()); }
        // continuity at the junction
        double j = at_end ? b : a, h = (at_end ? rb - b : a - ra);
        for (size_t d = 0; d <= cont; d++)
        {
            // one sided derivative on the extension side: evaluate on the trimmed extension
            auto e = r;
            if (at_end) e.trim(j, rb); else e.trim(ra, j);
            auto X = e.value(at_end ? e.bounds()[0] : e.bounds()[1], d), Y = c.value(j, d);
            double s = 1; for (size_t q = 0; q < d; q++) s *= std::max(1., 1 / h);
            mc::step();
            for (size_t t = 0; t < dim; t++) if (!(std::fabs(X[t] - Y[t]) < 1e-6 * (1 + std::fabs(Y[t])) * s)) { mc::fail("extend-continuity", "%s: derivative %zu jumps from %s to %s", w, d, ref::str(Y).c_str(), ref::str(X).c_str()); break; }
        }
    };
    auto e = c.end(), s = c.begin();
    for (int nat = 0; nat < 2; nat++)
        for (int mcn = -1; mcn <= (int)x.p; mcn++)
            for (int g = 0; g < 3; g++)
            {
                std::optional<size_t> mx; if (mcn >= 0) mx = mcn;
                size_t cont = std::min<size_t>(x.p ? x.p - 1 : 0, mx.value_or(x.p));
                mc::at("extend dim %zu rational %d knots %s p%zu natural %d cont %d target %d", dim, rational, ref::str(x.k).c_str(), x.p, nat, mcn, g);
                P<dim> pe = e, ps = s;
                for (size_t t = 0; t < dim; t++) { pe[t] += g == 0 ? 1. : g == 1 ? -3.5 + t : 0.05; ps[t] += g == 0 ? -1. : g == 1 ? 2.5 - 2. * t : -0.05; }
                judge(extended_to_point(c, pe, (bool)nat, mx), true, pe, nat, cont, "to point, end");
                judge(extended_to_point(c, pe, true, (bool)nat, mx), true, pe, nat, cont, "to point, at end");
                judge(extended_to_point(c, ps, false, (bool)nat, mx), false, ps, nat, cont, "to point, at start");
                double l = g == 0 ? 1. : g == 1 ? 0.1 : 4;
                for (bool at_end : {true, false}) for (bool rel : {false, true})
                {
                    auto t = at_end ? c.end(1) : c.begin(1);
                    double n = 0; for (auto v : t) n += v * v; n = std::sqrt(n);
                    double L = rel ? l * length(c) : l;
                    auto q = at_end ? e : s;
                    for (size_t i = 0; i < dim; i++) q[i] += (at_end ? 1 : -1) * t[i] / n * L;
                    judge(extended(c, l, at_end, rel, (bool)nat, mx), at_end, q, nat, cont, "by length");
                }
                // extension alone, from inside the curve
                for (double f : {0., 0.4, 1.})
                {
                    double u = f >= 1 ? b : a + (b - a) * f;
                    auto X = extention_to_point(c, pe, u, u + 0.7, (bool)nat, mx);
                    mc::step();
                    if (std::fabs(X.bounds()[0] - u) > 1e-12 || std::fabs(X.bounds()[1] - u - 0.7) > 1e-9) mc::fail("extension-bounds", "%s", ref::str(X.bounds()).c_str());
                    at_param<dim>(X, X.bounds()[1], 0, pe, "extension-point", "end");
                    for (size_t d = 0; d <= cont; d++) at_param<dim>(X, X.bounds()[0], d, c.value(u, d), "extension-begin", "begin", 1e-6);
                }
            }
    mc::sample();
}
static void convert(const std::vector<Pat> &L)
{
    for (auto &x : L)
    {
        mc::at("convert %s p%zu", ref::str(x.k).c_str(), x.p);
        mc::state();
        std::shared_ptr<Curve<double, 2>> c = std::make_shared<BSCurve<double, 2>>(bsc<2>(x, 1));
        auto r = to_bs_curve<double, 2>(c);
        if (r.get() == c.get()) mc::fail("convert-alias", "conversion returns the source object");
        if (r->poles() != bsc<2>(x, 1).poles() || r->knotsFlats() != x.k || r->degree() != x.p) mc::fail("convert", "spline not returned as is");
        mc::step();
    }
}
static std::vector<mc::Unit> units()
{
    bool T = mc::thorough();
    std::vector<mc::Unit> U;
    auto big = patterns(T ? 4 : 3, 2, T), mid = patterns(3, 1, false), small = patterns(3, 1, false);
    for (size_t i = 0; i < big.size(); i++) U.push_back({"join-" + std::to_string(i), [=] { joins(big, i); }});
    for (size_t i = 0; i < small.size(); i++) { U.push_back({"chain-" + std::to_string(i), [=] { chains(small, i); }}); U.push_back({"unify3-" + std::to_string(i), [=] { unifies(small, i, true); }}); }
    for (size_t i = 0; i < big.size(); i++) U.push_back({"unify-" + std::to_string(i), [=] { unifies(big, i, false); }});
    auto con = patterns(T ? 5 : 4, 1, false);
    for (size_t i = 0; i < con.size(); i++) U.push_back({"connect-" + std::to_string(i), [=] { connects(con, i); }});
    auto ext = patterns(5, T ? 2 : 1, false);
    for (size_t i = 0; i < ext.size(); i++) U.push_back({"extend-" + std::to_string(i), [=] { extend<2, false>(ext[i]); extend<3, true>(ext[i]); }});
    U.push_back({"convert", [=] { convert(big); }});
    return U;
}
MC_MAIN(units)
