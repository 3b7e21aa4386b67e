// C09: lofted and Gordon surfaces contain their curves; surface tools keep the original part.
#include "mc.h"
#include "ref.h"
#include <gbs/bssbuild.h>
#include <gbs/bscinterp.h>
using namespace gbs;
template <size_t dim> using P = std::array<double, dim>;
struct Pat { size_t p; std::vector<double> k; std::vector<double> br; };
static std::vector<Pat> patterns(size_t pmin, size_t pmax, size_t imax, int spmask)
{
    std::vector<Pat> r;
    for (size_t p = pmin; p <= pmax; p++)
        for (size_t i = 0; i <= imax; i++)
            for (auto &m : ref::mults(i, p))
                for (int sp = 0; sp < 3; sp++) if (spmask >> sp & 1)
                {
                    auto b = ref::breaks(i, sp);
                    r.push_back({p, ref::flat(b, m, p), b});
                }
    return r;
}
template <size_t dim, bool rational> using Crv = std::conditional_t<rational, BSCurveRational<double, dim>, BSCurve<double, dim>>;
template <size_t dim, bool rational> using Srf = std::conditional_t<rational, BSSurfaceRational<double, dim>, BSSurface<double, dim>>;
// sections: irregular curves stacked along the last axis so that consecutive ones differ
template <size_t dim, bool rational>
static Crv<dim, rational> section(const Pat &x, size_t seed, double h, bool apex = false)
{
    size_t n = x.k.size() - x.p - 1;
    std::vector<P<dim + rational>> q(n);
    for (size_t i = 0; i < n; i++)
    {
        double w = rational ? ref::weight(i + seed) : 1;
        for (size_t c = 0; c < dim; c++)
        {
            double v = ref::coord(i + 5 * seed, c);
            if (c == dim - 1) v = 0.3 * v + h;
            if (apex && i == 0) { v = c == dim - 1 ? -1 : 0.5; w = 1; }
            q[i][c] = v * w;
        }
        if constexpr (rational) q[i][dim] = w;
    }
    return Crv<dim, rational>(q, x.k, x.p);
}
template <size_t dim> static double dist(const P<dim> &a, const P<dim> &b) { double s = 0; for (size_t c = 0; c < dim; c++) s += (a[c] - b[c]) * (a[c] - b[c]); return std::sqrt(s); }
template <size_t dim> static bool near(const P<dim> &a, const P<dim> &b, double tol) { double m = 1; for (auto x : b) m += std::fabs(x); return dist<dim>(a, b) <= tol * m; }

template <size_t dim, bool rational>
static void valid(const BSSurfaceGeneral<double, dim, rational> &s)
{
    mc::step();
    if (s.knotsFlatsU().size() != s.nPolesU() + s.degreeU() + 1 || s.knotsFlatsV().size() != s.nPolesV() + s.degreeV() + 1 || s.poles().size() != s.nPolesU() * s.nPolesV() ||
        !std::is_sorted(s.knotsFlatsU().begin(), s.knotsFlatsU().end()) || !std::is_sorted(s.knotsFlatsV().begin(), s.knotsFlatsV().end()))
        mc::fail("valid", "degrees %zu %zu, poles %zu, knots %s %s", s.degreeU(), s.degreeV(), s.poles().size(), ref::str(s.knotsFlatsU()).c_str(), ref::str(s.knotsFlatsV()).c_str());
}
template <size_t dim, class S, class C>
static double gap(const S &s, const C &c, double v, std::vector<double> *pr = nullptr)
{
    auto b = s.bounds();
    auto [a0, b0] = c.bounds();
    double g = 0;
    std::vector<double> t;
    if (pr) for (auto x : *pr) t.push_back((x - a0) / (b0 - a0));
    for (int i = 0; i <= 9; i++) t.push_back(i / 9.);
    for (auto x : t)
    {
        double u = x >= 1 ? b[1] : b[0] + (b[1] - b[0]) * x;
        auto X = s.value(u, v), Y = c.value(x >= 1 ? b0 : a0 + (b0 - a0) * x);
        double m = 1; for (auto z : Y) m += std::fabs(z);
        double d = dist<dim>(X, Y) / m;
        if (!(d <= g)) g = d; // NaN propagates
    }
    return g;
}
template <size_t dim, class S, class C>
static void contains(const S &s, const C &c, double v, double tol, const char *key, const char *what, bool search = false)
{
    auto k = c.knots();
    double g = gap<dim>(s, c, v, &k);
    mc::step(10 + k.size());
    if (!(g <= tol) && search)
    {
        // the section may sit at another parameter: look for it
        auto b = s.bounds();
        double best = g, bv = v;
        for (int i = 0; i <= 400; i++) { double w = b[2] + (b[3] - b[2]) * i / 400; double x = gap<dim>(s, c, w); if (x < best) { best = x; bv = w; } }
        double h = (b[3] - b[2]) / 400;
        for (int it = 0; it < 80; it++) { h *= 0.7; for (double w : {bv - h, bv + h}) if (w >= b[2] && w <= b[3]) { double x = gap<dim>(s, c, w); if (x < best) { best = x; bv = w; } } }
        if (best <= tol * 10) return;
    }
    mc::outcome(mc::mixd(0, s.value(s.bounds()[0] * .3 + s.bounds()[1] * .7, v)[0]));
    if (!(g <= tol)) mc::fail(key, "%s: section at v=%.17g is missed by %g", what, v, g);
}
static std::vector<double> vset(size_t n, int kind)
{
    std::vector<double> v(n);
    for (size_t i = 0; i < n; i++)
    {
        double t = double(i) / (n - 1);
        v[i] = kind == 0 ? t : kind == 1 ? -2 + 5 * t * t : 7 + std::sqrt(t) + 0.1 * t;
    }
    return v;
}
// averaged chord length law on compatible sections
template <size_t dim, bool rational>
static std::vector<double> chord_law(std::vector<Crv<dim, rational>> L)
{
    auto R = unified_curves(L);
    size_t n = R.size(), m = R[0].poles().size(), cnt = 0;
    std::vector<double> v(n, 0);
    for (size_t i = 0; i < m; i++)
    {
        std::vector<double> s(n, 0);
        for (size_t j = 1; j < n; j++) s[j] = s[j - 1] + dist<dim + rational>(R[j].poles()[i], R[j - 1].poles()[i]);
        if (!(s.back() > 0)) continue;
        cnt++;
        for (size_t j = 0; j < n; j++) v[j] += s[j] / s.back();
    }
    for (auto &x : v) x /= cnt;
    return v;
}
// collocation matrix well conditioned? (independent judgement)
static bool solvable(const std::vector<double> &k, size_t q, const std::vector<double> &v, size_t nc)
{
    size_t n = v.size() * nc;
    if (k.size() != n + q + 1) return false;
    Eigen::MatrixXd N(n, n);
    ref::rvec rk(k.begin(), k.end());
    for (size_t j = 0; j < v.size(); j++) { auto B = ref::basis(rk, q, std::clamp(v[j], k.front(), k.back()), nc - 1); for (size_t d = 0; d < nc; d++) for (size_t i = 0; i < n; i++) N(j * nc + d, i) = (double)B[d][i]; }
    Eigen::JacobiSVD<Eigen::MatrixXd> svd(N);
    auto s = svd.singularValues();
    return s(n - 1) > 1e-7 * s(0);
}
template <size_t dim, bool rational>
static void loft_set(const std::vector<Pat> &S, bool apex)
{
    std::vector<Crv<dim, rational>> L;
    for (size_t i = 0; i < S.size(); i++) L.push_back(section<dim, rational>(S[i], i, 1.5 * i + 0.25 * i * i, apex));
    size_t n = L.size(), pm = 0;
    for (auto &s : S) pm = std::max(pm, s.p);
    std::list<Crv<dim, rational>> LL(L.begin(), L.end());
    std::string base = mc::g_slot->cur;
    auto judge = [&](const auto &s, const std::vector<double> &v, size_t q, const char *what, bool search)
    {
        mc::state();
        valid(s);
        if (s.degreeU() != pm || s.degreeV() != std::min(q, n - 1)) mc::fail("loft-degree", "%s: %zu x %zu", what, s.degreeU(), s.degreeV());
        auto b = s.bounds();
        if (std::fabs(b[0] - S[0].br.front()) > 1e-9 || std::fabs(b[1] - S[0].br.back()) > 1e-9) mc::fail("loft-bounds", "%s: u in (%g,%g)", what, b[0], b[1]);
        if (!search && (std::fabs(b[2] - v.front()) > 1e-12 || std::fabs(b[3] - v.back()) > 1e-12)) { mc::fail("loft-bounds", "%s: v in (%g,%g)", what, b[2], b[3]); return; }
        for (size_t j = 0; j < n; j++) contains<dim>(s, L[j], std::clamp(v[j], b[2], b[3]), 1e-8, "loft", what, search);
    };
    for (size_t q = 1; q <= 4; q++)
        for (int kind = 0; kind < 3; kind++)
        {
            auto v = vset(n, kind);
            mc::at("%s q %zu v %s", base.c_str(), q, ref::str(v).c_str());
            judge(loft(L, v, q), v, q, "vector, given v", false);
            if (kind == 1)
            {
                judge(loft(LL, v, q), v, q, "list, given v", false);
                size_t qq = std::min(q, n - 1);
                auto fv = build_simple_mult_flat_knots(v, qq);
                judge(loft_generic<double, dim>(L, v, fv, qq), v, q, "given v knots", false);
                if (n == 3) judge(loft({L[0], L[1], L[2]}, v, q), v, q, "initializer list, given v", false);
                if constexpr (!rational)
                {
                    std::vector<std::shared_ptr<Curve<double, dim>>> Q;
                    for (auto &c : L) Q.push_back(std::make_shared<BSCurve<double, dim>>(c));
                    judge(loft(Q, v, q), v, q, "pointers, given v", false);
                }
            }
        }
    auto v = chord_law<dim, rational>(L);
    for (size_t q = 1; q <= 4; q++)
    {
        mc::at("%s q %zu chord v %s", base.c_str(), q, ref::str(v).c_str());
        judge(loft(L, q), v, q, "vector", true);
        if (q == 2)
        {
            judge(loft(LL, q), v, q, "list", true);
            if (n == 2) judge(loft({L[0], L[1]}, q), v, q, "initializer list", true);
            if constexpr (!rational)
            {
                std::vector<std::shared_ptr<Curve<double, dim>>> Q;
                for (auto &c : L) Q.push_back(std::make_shared<BSCurve<double, dim>>(c));
                judge(loft(Q, q), v, q, "pointers", true);
            }
        }
        if constexpr (dim == 3)
        {
            // along a spine: a straight one, and a bent one
            double top = 1.5 * n + 0.25 * n * n;
            for (int sp = 0; sp < 2; sp++)
            {
                BSCurve<double, 3> spine({{0., 0., -1.}, {sp * .7, sp * -.4, top / 2}, {0., 0., top + 1}}, {0., 0., 0., 1., 1., 1.}, 2);
                std::list<BSCurveGeneral<double, 3, rational> *> ptr;
                for (auto &c : L) ptr.push_back(&c);
                size_t qq = std::max<size_t>(1, std::min(q, n - 1));
                auto s = loft<double, 3, rational>(ptr, spine, q);
                if (!solvable(s.knotsFlatsV(), qq, v, 2)) continue;
                mc::state();
                valid(s);
                auto b = s.bounds();
                for (size_t j = 0; j < n; j++) contains<dim>(s, L[j], std::clamp(v[j], b[2], b[3]), 1e-7, "loft-spine", "along a spine", true);
                if constexpr (!rational)
                {
                    auto s2 = loft(LL, spine, q);
                    mc::step();
                    if (s2.poles() != s.poles() || s2.knotsFlatsV() != s.knotsFlatsV()) mc::fail("loft-spine-list", "list and pointer forms differ");
                }
            }
        }
    }
    mc::at("%s", base.c_str());
}
static std::string name(const std::vector<Pat> &S)
{
    std::string r;
    for (auto &s : S) r += "p" + std::to_string(s.p) + ref::str(s.k) + " ";
    return r;
}
static void lofts(const std::vector<Pat> &L, size_t i, size_t n)
{
    // every assignment of a knot pattern to each of the n sections, the first being pattern i
    std::vector<size_t> x(n, 0);
    x[0] = i;
    while (true)
    {
        std::vector<Pat> S;
        for (auto j : x) S.push_back(L[j]);
        mc::at("loft %s", name(S).c_str());
        loft_set<3, false>(S, false);
        loft_set<3, true>(S, false);
        loft_set<2, false>(S, false);
        size_t c = 1;
        while (c < n && ++x[c] == L.size()) x[c++] = 0;
        if (c == n) break;
    }
    mc::sample();
}
static void loft_many(size_t n)
{
    auto L = patterns(1, 3, 1, 3);
    for (size_t i = 0; i < L.size(); i++)
    {
        std::vector<Pat> S;
        for (size_t j = 0; j < n; j++) S.push_back(L[(i + j * (1 + i % 3)) % L.size()]);
        mc::at("loft %zu sections from pattern %zu", n, i);
        loft_set<3, false>(S, false);
        loft_set<3, true>(S, false);
    }
    mc::sample();
}
// sections sharing a pole (cone like apex)
static void loft_apex(const std::vector<Pat> &L)
{
    for (auto &x : L) for (size_t n = 2; n <= 4; n++)
    {
        mc::at("loft with a common pole, %zu sections %s", n, name({x}).c_str());
        loft_set<3, false>(std::vector<Pat>(n, x), true);
        loft_set<3, true>(std::vector<Pat>(n, x), true);
    }
    mc::sample();
}
// ---- Gordon ------------------------------------------------------------------------------------
static void gordons(size_t nu, size_t nv)
{
    // nu curves along u (at stations v), nv curves along v (at stations u)
    for (size_t p = 1; p <= 3; p++) for (size_t q = 1; q <= 3; q++) for (int kind = 0; kind < 3; kind++) for (int bump = 0; bump < 3; bump++)
    {
        if (kind != int(p + q) % 3 || bump != int(p + nv) % 3) { if (!mc::thorough() || nu + nv > 6) continue; }
        if (nu + nv > 6 && p != q) continue;
        if (p == 1 && q == 1 && bump == 2) continue; // kinks everywhere: the search for intersections takes minutes
        bool gentle = (kind + bump) % 3 != 2 && p > 1 && q > 1;
        mc::at("gordon %zu x %zu curves, degrees %zu %zu, stations %d, bumps %d", nu, nv, p, q, kind, bump);
        auto v = vset(nu, kind == 2 ? 0 : kind), u = vset(nv, kind == 0 ? 0 : 1);
        auto Z = [gentle](size_t i, size_t j) { return (gentle ? 0.03 : 0.3) * ref::coord(i + 3 * j, 2); };
        auto curve = [&](bool along_u, size_t idx)
        {
            auto &s = along_u ? u : v;
            double c = along_u ? v[idx] : u[idx];
            size_t deg = along_u ? p : q;
            if (idx == 1 && deg > 1 && bump == 2) deg--; // mixed degrees
            std::vector<double> t;
            std::vector<double> z;
            for (size_t i = 0; i < s.size(); i++)
            {
                if (i) for (int e = 1; e <= 1 + bump; e++) { t.push_back(s[i - 1] + (s[i] - s[i - 1]) * e / (2. + bump)); z.push_back((gentle ? 0.03 : 0.3) * ref::coord(7 * i + idx + e + 20 * along_u, 1 + bump)); }
                t.push_back(s[i]);
                z.push_back(along_u ? Z(i, idx) : Z(idx, i));
            }
            points_vector<double, 3> pts;
            for (size_t i = 0; i < t.size(); i++) pts.push_back(along_u ? P<3>{t[i], c, z[i]} : P<3>{c, t[i], z[i]});
            return interpolate<double, 3>(pts, t, std::min(deg, t.size() - 1));
        };
        std::vector<BSCurve<double, 3>> U, V;
        for (size_t j = 0; j < nu; j++) U.push_back(curve(true, j));
        for (size_t i = 0; i < nv; i++) V.push_back(curve(false, i));
        try
        {
            auto G = gordon<double, 3>(U.begin(), U.end(), V.begin(), V.end());
            mc::state();
            valid(G);
            auto b = G.bounds();
            for (size_t j = 0; j < nu; j++) contains<3>(G, U[j], std::clamp(v[j], b[2], b[3]), 2e-5, "gordon-u", "curve along u");
            auto H = G;
            H.invertUV();
            for (size_t i = 0; i < nv; i++) contains<3>(H, V[i], std::clamp(u[i], b[0], b[1]), 2e-5, "gordon-v", "curve along v");
        }
        catch (std::invalid_argument &e) { if (gentle) mc::fail("gordon-refused", "%s", e.what()); }
    }
    mc::sample();
}
// curves that do not meet are refused
static void gordon_apart()
{
    for (size_t nu = 2; nu <= 3; nu++) for (size_t nv = 2; nv <= 3; nv++) for (size_t k = 0; k < nu + nv; k++) for (double h : {0.5, 1e-3})
    {
        mc::at("gordon with curve %zu of %zu+%zu lifted by %g", k, nu, nv, h);
        std::vector<BSCurve<double, 3>> U, V;
        auto u = vset(nv, 0), v = vset(nu, 0);
        for (size_t j = 0; j < nu; j++) { double z = k == j ? h : 0; U.push_back(BSCurve<double, 3>({{0., v[j], z}, {1., v[j], z}}, {0., 0., 1., 1.}, 1)); }
        for (size_t i = 0; i < nv; i++) { double z = k == nu + i ? h : 0; V.push_back(BSCurve<double, 3>({{u[i], 0., z}, {u[i], 1., z}}, {0., 0., 1., 1.}, 1)); }
        mc::state();
        mc::step();
        bool thrown = false;
        try { gordon<double, 3>(U.begin(), U.end(), V.begin(), V.end()); } catch (std::exception &) { thrown = true; }
        if (!thrown) mc::fail("gordon-apart", "a network that does not meet was accepted");
    }
    mc::sample();
}
// ---- surface tools ------------------------------------------------------------------------------
template <size_t dim, bool rational>
static Srf<dim, rational> surf(const Pat &a, const Pat &b, size_t seed)
{
    size_t n = a.k.size() - a.p - 1, m = b.k.size() - b.p - 1;
    std::vector<P<dim + rational>> q;
    for (size_t j = 0; j < m; j++) for (size_t i = 0; i < n; i++)
    {
        P<dim + rational> x;
        double w = rational ? ref::weight(i + 2 * j + seed) : 1;
        for (size_t c = 0; c < dim; c++) { double v = 0.3 * ref::coord(i + 4 * j + 11 * seed, c); if (c == 0) v += 1.5 * i; if (c == 1) v += 1.5 * j; x[c] = v * w; }
        if constexpr (rational) x[dim] = w;
        q.push_back(x);
    }
    return Srf<dim, rational>(q, a.k, b.k, a.p, b.p);
}
template <size_t dim, class F, class G>
static void same(const F &f, std::array<double, 4> fb, const G &g, std::array<double, 4> gb, const std::vector<double> &ku, const std::vector<double> &kv, double tol, const char *key, const char *what)
{
    std::vector<double> s, t;
    for (int i = 0; i <= 5; i++) { s.push_back(i / 5.); t.push_back(i / 5.); }
    for (auto x : ku) s.push_back((x - gb[0]) / (gb[1] - gb[0]));
    for (auto x : kv) t.push_back((x - gb[2]) / (gb[3] - gb[2]));
    auto at = [](double a, double b, double s) { return s <= 0 ? a : s >= 1 ? b : a + (b - a) * s; };
    for (auto x : s) for (auto y : t)
    {
        auto X = f.value(at(fb[0], fb[1], x), at(fb[2], fb[3], y)), Y = g.value(at(gb[0], gb[1], x), at(gb[2], gb[3], y));
        mc::step();
        if (!near<dim>(X, Y, tol)) { mc::fail(key, "%s: at (%g,%g) %s expected %s", what, at(gb[0], gb[1], x), at(gb[2], gb[3], y), ref::str(X).c_str(), ref::str(Y).c_str()); return; }
    }
}
template <size_t dim, bool rational>
static void tools(const Pat &a, const Pat &b)
{
    auto s = surf<dim, rational>(a, b, 1);
    auto B = s.bounds();
    std::array<double, 4> bb{B[0], B[1], B[2], B[3]};
    std::string base = mc::g_slot->cur;
    // split and join back
    for (auto u : ref::probes(a.br, false))
    {
        if (u <= bb[0] || u >= bb[1]) continue;
        mc::at("%s split_u %g", base.c_str(), u);
        mc::state();
        auto [l, r] = split_u(s, u);
        valid(l); valid(r);
        std::array<double, 4> lb{bb[0], u, bb[2], bb[3]}, rb{u, bb[1], bb[2], bb[3]};
        auto x = l.bounds(), y = r.bounds();
        if (std::fabs(x[1] - u) > 1e-9 || std::fabs(y[0] - u) > 1e-9 || std::fabs(x[0] - bb[0]) > 1e-9 || std::fabs(y[1] - bb[1]) > 1e-9) { mc::fail("split-bounds", "%g: (%g,%g) (%g,%g)", u, x[0], x[1], y[0], y[1]); continue; }
        same<dim>(l, {x[0], x[1], x[2], x[3]}, s, lb, {}, b.br, 1e-8, "split-u", "first half");
        same<dim>(r, {y[0], y[1], y[2], y[3]}, s, rb, {}, b.br, 1e-8, "split-u", "second half");
        auto j = join(l, r);
        valid(j);
        auto z = j.bounds();
        same<dim>(j, {z[0], z[1], z[2], z[3]}, s, bb, a.br, b.br, 1e-8, "split-join", "joined halves");
        // halves of different degree
        auto r2 = r; r2.increaseDegreeU();
        auto l2 = l; l2.increaseDegreeU();
        auto j2 = join(l, r2), j3 = join(l2, r);
        valid(j2); valid(j3);
        same<dim>(j2, bb, s, bb, a.br, b.br, 1e-8, "split-join", "second half elevated");
        same<dim>(j3, bb, s, bb, a.br, b.br, 1e-8, "split-join", "first half elevated");
        // second part with its own parametrization
        auto r3 = r; r3.changeUBounds(10., 10. + (bb[1] - u));
        auto j4 = join(l, r3);
        auto w = j4.bounds();
        same<dim>(j4, {w[0], w[1], w[2], w[3]}, s, bb, a.br, b.br, 1e-8, "split-join", "second half shifted");
    }
    for (auto v : ref::probes(b.br, false))
    {
        if (v <= bb[2] || v >= bb[3]) continue;
        mc::at("%s split_v %g", base.c_str(), v);
        mc::state();
        auto [l, r] = split_v(s, v);
        valid(l); valid(r);
        auto x = l.bounds(), y = r.bounds();
        if (std::fabs(x[3] - v) > 1e-9 || std::fabs(y[2] - v) > 1e-9) { mc::fail("split-bounds", "%g: (%g,%g) (%g,%g)", v, x[2], x[3], y[2], y[3]); continue; }
        same<dim>(l, {x[0], x[1], x[2], x[3]}, s, {bb[0], bb[1], bb[2], v}, a.br, {}, 1e-8, "split-v", "first half");
        same<dim>(r, {y[0], y[1], y[2], y[3]}, s, {bb[0], bb[1], v, bb[3]}, a.br, {}, 1e-8, "split-v", "second half");
    }
    mc::at("%s", base.c_str());
}
// extension at every side
template <size_t dim, bool rational>
static void extend(const Pat &a, const Pat &b, std::vector<double> lens)
{
    auto s = surf<dim, rational>(a, b, 2);
    auto B = s.bounds();
    std::array<double, 4> bb{B[0], B[1], B[2], B[3]};
    std::string base = mc::g_slot->cur;
    for (auto l : lens) for (int nat = 0; nat < 2; nat++) for (int mx = -1; mx <= 2; mx++)
    {
        std::optional<size_t> m; if (mx >= 0) m = mx;
        for (auto side : {SurfaceBound::U_END, SurfaceBound::U_START, SurfaceBound::V_END, SurfaceBound::V_START})
        {
            bool alongu = side == SurfaceBound::U_END || side == SurfaceBound::U_START, at_end = side == SurfaceBound::U_END || side == SurfaceBound::V_END;
            mc::at("%s extend side %d by %g natural %d cont %d", base.c_str(), (int)side, l, nat, mx);
            mc::state();
            auto r = extended(s, l, side, (bool)nat, m);
            valid(r);
            auto z = r.bounds();
            double L = alongu ? bb[1] - bb[0] : bb[3] - bb[2], N = alongu ? z[1] - z[0] : z[3] - z[2];
            if (!(N > L)) { mc::fail("extend-bounds", "range does not grow: %g -> %g", L, N); continue; }
            std::array<double, 4> zb{z[0], z[1], z[2], z[3]};
            int lo = alongu ? 0 : 2;
            if (at_end) zb[lo + 1] = zb[lo] + L; else zb[lo] = zb[lo + 1] - L;
            same<dim>(r, zb, s, bb, a.br, b.br, 1e-7, "extend-part", "original part");
            // the new edge: at the announced distance along the tangent at the corners (fixed ends)
            for (int c = 0; c < 2; c++)
            {
                double u, v, U, V;
                if (alongu) { u = at_end ? bb[1] : bb[0]; v = c ? bb[3] : bb[2]; U = at_end ? z[1] : z[0]; V = c ? z[3] : z[2]; }
                else { v = at_end ? bb[3] : bb[2]; u = c ? bb[1] : bb[0]; V = at_end ? z[3] : z[2]; U = c ? z[1] : z[0]; }
                auto p = s.value(u, v), t = alongu ? s.value(u, v, 1, 0) : s.value(u, v, 0, 1);
                double n = 0; for (auto x : t) n += x * x; n = std::sqrt(n);
                for (size_t k = 0; k < dim; k++) p[k] += (at_end ? 1 : -1) * l * t[k] / n;
                auto X = r.value(U, V);
                mc::step();
                if (!near<dim>(X, p, 1e-7)) mc::fail("extend-corner", "corner %d at %s expected %s", c, ref::str(X).c_str(), ref::str(p).c_str());
            }
        }
        // to a given curve with the same v structure
        mc::at("%s extend to curve by %g natural %d cont %d", base.c_str(), l, nat, mx);
        size_t nv = s.nPolesV(), nu = s.nPolesU();
        std::vector<P<dim + rational>> cp(nv);
        for (size_t j = 0; j < nv; j++)
        {
            cp[j] = s.poles()[nu - 1 + nu * j];
            double w = 1; if constexpr (rational) w = cp[j][dim];
            cp[j][0] += w * (l + 0.2 * j); cp[j][1] += w * 0.1 * l;
        }
        Crv<dim, rational> C(cp, s.knotsFlatsV(), s.degreeV());
        auto r = extended_to_curve(s, C, (bool)nat, m);
        mc::state();
        valid(r);
        auto z = r.bounds();
        if (!(z[1] > bb[1])) { mc::fail("extend-bounds", "to curve: %g", z[1]); continue; }
        same<dim>(r, {z[0], bb[1], z[2], z[3]}, s, bb, a.br, b.br, 1e-7, "extend-part", "original part, to curve");
        for (auto v : ref::probes(b.br, false))
        {
            mc::step();
            auto X = r.value(z[1], v); auto Y = C.value(v);
            if (!near<dim>(X, Y, 1e-7)) { mc::fail("extend-curve", "at v=%g %s expected %s", v, ref::str(X).c_str(), ref::str(Y).c_str()); break; }
        }
        // continuity across the old edge
        size_t cont = std::min<size_t>(a.p - 1, m.value_or(a.p));
        auto [first, second] = split_u(r, bb[1]);
        auto sb = second.bounds();
        double h = sb[1] - sb[0];
        for (size_t d = 1; d <= std::min<size_t>(cont, 2); d++) for (auto v : ref::probes(b.br, false))
        {
            mc::step();
            auto X = second.value(sb[0], v, d, 0), Y = s.value(bb[1], v, d, 0);
            double g = 1; for (size_t i = 0; i < d; i++) g *= std::max(1., 1 / h);
            if (!near<dim>(X, Y, 1e-6 * g)) { mc::fail("extend-continuity", "derivative %zu at v=%g jumps from %s to %s", d, v, ref::str(Y).c_str(), ref::str(X).c_str()); break; }
        }
    }
    mc::at("%s", base.c_str());
}
static void unify_surfaces(const std::vector<Pat> &L, size_t i)
{
    for (size_t j = 0; j < L.size(); j++) for (size_t k = 0; k < L.size(); k++) for (size_t l = 0; l < L.size(); l++)
    {
        if (L[i].p != L[k].p || L[j].p != L[l].p) continue;
        mc::at("unify (%s) and (%s)", name({L[i], L[j]}).c_str(), name({L[k], L[l]}).c_str());
        std::vector<BSSurface<double, 3>> S{surf<3, false>(L[i], L[j], 1), surf<3, false>(L[k], L[l], 2), surf<3, false>(L[i], L[l], 3)};
        std::vector<BSSurfaceInfo<double, 3>> I;
        for (auto &s : S) I.push_back(s.info());
        unify_knots(I);
        mc::state();
        auto b0 = S[0].bounds();
        for (size_t n = 0; n < 3; n++)
        {
            auto [poles, ku, kv, p, q] = I[n];
            auto eq = [](const std::vector<double> &a, const std::vector<double> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (std::fabs(a[i] - b[i]) > 1e-9) return false; return true; };
            mc::step();
            if (!eq(ku, std::get<1>(I[0])) || !eq(kv, std::get<2>(I[0]))) { mc::fail("unify-knots", "surface %zu: %s %s, first %s %s", n, ref::str(ku).c_str(), ref::str(kv).c_str(), ref::str(std::get<1>(I[0])).c_str(), ref::str(std::get<2>(I[0])).c_str()); continue; }
            BSSurface<double, 3> r(flatten_poles(poles), ku, kv, p, q);
            auto sb = S[n].bounds();
            same<3>(r, {b0[0], b0[1], b0[2], b0[3]}, S[n], {sb[0], sb[1], sb[2], sb[3]}, S[n].knotsFlatsU(), S[n].knotsFlatsV(), 1e-8, "unify-shape", "surface");
        }
    }
    mc::sample();
}
static std::vector<mc::Unit> units()
{
    bool T = mc::thorough();
    std::vector<mc::Unit> U;
    auto two = patterns(1, 3, 1, 3), three = patterns(1, T ? 3 : 2, 1, 2), four = patterns(1, 2, 1, 2);
    for (size_t i = 0; i < two.size(); i++) U.push_back({"loft2-" + std::to_string(i), [=] { lofts(two, i, 2); }});
    for (size_t i = 0; i < three.size(); i++) U.push_back({"loft3-" + std::to_string(i), [=] { lofts(three, i, 3); }});
    if (T) for (size_t i = 0; i < four.size(); i++) U.push_back({"loft4-" + std::to_string(i), [=] { lofts(four, i, 4); }});
    for (size_t n = 4; n <= (T ? 12u : 8u); n++) U.push_back({"many-" + std::to_string(n), [=] { loft_many(n); }});
    U.push_back({"apex", [=] { loft_apex(two); }});
    for (size_t a = 2; a <= (T ? 5u : 4u); a++) for (size_t b = 2; b <= (T ? 5u : 4u); b++) U.push_back({"gordon-" + std::to_string(a) + std::to_string(b), [=] { gordons(a, b); }});
    U.push_back({"gordon-apart", gordon_apart});
    auto su = patterns(1, T ? 4 : 3, 1, 3), sv = patterns(1, 3, 1, 2);
    for (size_t i = 0; i < su.size(); i++) for (size_t j = 0; j < sv.size(); j++)
    {
        auto nm = name({su[i], sv[j]});
        U.push_back({"tools-" + std::to_string(i) + "-" + std::to_string(j), [=] { mc::at("%s", nm.c_str()); tools<3, false>(su[i], sv[j]); tools<3, true>(su[i], sv[j]); mc::sample(); }});
        U.push_back({"extend-" + std::to_string(i) + "-" + std::to_string(j), [=] { mc::at("%s", nm.c_str()); extend<3, false>(su[i], sv[j], {1., 0.2}); extend<3, true>(su[i], sv[j], {1.}); mc::sample(); }});
    }
    auto un = patterns(1, 2, 1, 3);
    for (size_t i = 0; i < un.size(); i++) U.push_back({"unify-" + std::to_string(i), [=] { unify_surfaces(un, i); }});
    return U;
}
MC_MAIN(units)
