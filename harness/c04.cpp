// C04: breadth-first exploration of every edit sequence on surfaces, in lock step with a model:
// per direction the expected degree, knots, bounds and affine map to the original direction.
#include "mc.h"
#include "ref.h"
#include <gbs/bssurf.h>
#include <unordered_set>
#include <deque>
using namespace gbs;

struct K { double u; size_t m; };
struct MD { std::vector<K> k; size_t p; long double a, b; int od; };   // original parameter of direction od = a*u+b
struct Model { MD d[2]; };
struct Op { std::string name; int kind; int dir; double x, y; size_t r; };

static std::vector<Op> ops(const Model &m)
{
    std::vector<Op> o;
    auto add = [&](int kind, int dir, double x, double y, size_t r, const char *n) {
        char b[160];
        snprintf(b, 160, "%s%c(%.12g,%.12g,%zu)", n, dir ? 'V' : 'U', x, y, r);
        o.push_back({b, kind, dir, x, y, r});
    };
    for (int d = 0; d < 2; d++)
    {
        auto &M = m.d[d];
        double f = M.k.front().u, l = M.k.back().u, h = l - f;
        double m1 = 0.5 * (M.k[0].u + M.k[1].u), m2 = 0.5 * (M.k[M.k.size() - 2].u + l);
        add(0, d, m1, 0, 1, "insert");
        add(0, d, m2, 0, M.p + 2, "insert");
        for (size_t i = 1; i + 1 < M.k.size() && i < 3; i++) add(0, d, M.k[i].u, 0, 1, "insert");
        if (M.k.size() > 2) add(0, d, std::nextafter(M.k[1].u, l), 0, 1, "insertNear");
        add(0, d, f, 0, 1, "insert");
        add(0, d, l, 0, 1, "insert");
        add(0, d, m1, 0, 0, "insert");
        add(0, d, f - h, 0, 1, "insert");
        add(0, d, l + h, 0, 2, "insert");
        add(1, d, 0, 0, 1, "increaseDegree");
        add(2, d, 0, 0, 0, "reverse");
        double t1 = f + 0.3 * h, t2 = f + 0.8 * h;
        add(3, d, t1, l, 0, "trim");
        add(3, d, f, t2, 0, "trim");
        add(3, d, t1, t2, 0, "trim");
        add(3, d, t2, t1, 0, "trim");
        add(3, d, f, l, 0, "trim");
        add(3, d, f - h, t2, 0, "trim");
        add(3, d, t1, l + h, 0, "trim");
        add(3, d, t1, t1, 0, "trim");
        if (M.k.size() > 2)
        {
            add(3, d, M.k[1].u, l, 0, "trim");
            add(3, d, f, M.k[1].u, 0, "trim");
        }
        add(4, d, 0, 1, 0, "changeBounds");
        add(4, d, -2, 5, 0, "changeBounds");
    }
    add(5, 0, 0, 0, 0, "invertUV-");
    return o;
}

template <typename S> static void apply(S &s, Model &m, const Op &o)
{
    auto &M = m.d[o.dir];
    double f = M.k.front().u, l = M.k.back().u;
    switch (o.kind)
    {
    case 0:
    {
        if (o.dir) s.insertKnotV(o.x, o.r); else s.insertKnotU(o.x, o.r);
        if (!(o.x > f + 1e-9 && o.x < l - 1e-9) || !o.r) break;
        auto it = std::find_if(M.k.begin(), M.k.end(), [&](auto &k) { return std::fabs(k.u - o.x) < 1e-9; });
        if (it != M.k.end()) it->m = std::max(it->m, std::min(M.p, it->m + o.r));
        else M.k.insert(std::find_if(M.k.begin(), M.k.end(), [&](auto &k) { return k.u > o.x; }), K{o.x, std::min(M.p, o.r)});
        break;
    }
    case 1:
        if (o.dir) s.increaseDegreeV(); else s.increaseDegreeU();
        M.p++;
        for (auto &k : M.k) k.m++;
        break;
    case 2:
        if (o.dir) s.reverseV(); else s.reverseU();
        std::reverse(M.k.begin(), M.k.end());
        for (auto &k : M.k) k.u = f + l - k.u;
        M.b = M.a * ((long double)f + l) + M.b;
        M.a = -M.a;
        break;
    case 3:
    {
        if (o.dir) s.trimV(o.x, o.y); else s.trimU(o.x, o.y);
        double t1 = std::max(f, std::min(o.x, o.y)), t2 = std::min(l, std::max(o.x, o.y));
        std::vector<K> nk{{t1, M.p + 1}};
        for (auto &k : M.k) if (k.u > t1 + 1e-9 && k.u < t2 - 1e-9) nk.push_back(k);
        nk.push_back({t2, M.p + 1});
        M.k = nk;
        break;
    }
    case 4:
    {
        if (o.dir) s.changeVBounds(o.x, o.y); else s.changeUBounds(o.x, o.y);
        long double sc = ((long double)l - f) / ((long double)o.y - o.x);
        for (auto &k : M.k) k.u = (double)(o.x + (k.u - f) / sc);
        M.b = M.a * (f - o.x * sc) + M.b;
        M.a *= sc;
        break;
    }
    case 5:
        s.invertUV();
        std::swap(m.d[0], m.d[1]);
        break;
    }
}

template <typename S, bool rational> static bool verify(const S &s, const Model &m, const S &s0, const std::string &hist)
{
    mc::at("%s", hist.c_str());
    mc::step();
    size_t np[2] = {s.knotsFlatsU().size() - s.degreeU() - 1, s.knotsFlatsV().size() - s.degreeV() - 1};
    if (s.poles().size() != np[0] * np[1] || s.nPolesU() != np[0] || s.nPolesV() != np[1])
    {
        mc::fail("sizes", "%zu poles for %zu x %zu", s.poles().size(), np[0], np[1]);
        return false;
    }
    auto b = s.bounds();
    for (int d = 0; d < 2; d++)
    {
        auto &M = m.d[d];
        auto &k = d ? s.knotsFlatsV() : s.knotsFlatsU();
        if ((d ? s.degreeV() : s.degreeU()) != M.p) { mc::fail("degree", "direction %d degree %zu expected %zu", d, d ? s.degreeV() : s.degreeU(), M.p); return false; }
        if (!std::is_sorted(k.begin(), k.end())) { mc::fail("sorted", "direction %d", d); return false; }
        std::vector<double> ek;
        for (auto &x : M.k) ek.insert(ek.end(), x.m, x.u);
        bool same = ek.size() == k.size();
        for (size_t i = 0; same && i < k.size(); i++) same = std::fabs(ek[i] - k[i]) < 1e-9;
        if (!same) { mc::fail("knots", "direction %d knots %s expected %s", d, ref::str(k).c_str(), ref::str(ek).c_str()); return false; }
        auto ks = d ? s.knotsV() : s.knotsU();
        auto ms = d ? s.multsV() : s.multsU();
        bool acc = ks.size() == M.k.size() && ms.size() == M.k.size();
        for (size_t i = 0; acc && i < ks.size(); i++) acc = std::fabs(ks[i] - M.k[i].u) < 1e-9 && ms[i] == M.k[i].m;
        if (!acc) mc::fail("knots-mults", "direction %d", d);
        if (std::fabs(b[2 * d] - ek.front()) > 1e-9 || std::fabs(b[2 * d + 1] - ek.back()) > 1e-9) { mc::fail("bounds", "bounds %s direction %d expected [%g,%g]", ref::str(b).c_str(), d, ek.front(), ek.back()); return false; }
    }
    auto probe = [](const MD &M) {
        std::vector<double> r{M.k.front().u};
        for (size_t i = 0; i + 1 < M.k.size(); i++) r.push_back(M.k[i].u + 0.37 * (M.k[i + 1].u - M.k[i].u));
        r.push_back(M.k.back().u);
        return r;
    };
    auto k0u = ref::to_real(s0.knotsFlatsU()), k0v = ref::to_real(s0.knotsFlatsV()), k1u = ref::to_real(s.knotsFlatsU()), k1v = ref::to_real(s.knotsFlatsV());
    for (double u : probe(m.d[0]))
        for (double v : probe(m.d[1]))
        {
            long double o[2];
            o[m.d[0].od] = m.d[0].a * u + m.d[0].b;
            o[m.d[1].od] = m.d[1].a * v + m.d[1].b;
            o[0] = std::min(std::max(o[0], k0u.front()), k0u.back());
            o[1] = std::min(std::max(o[1], k0v.front()), k0v.back());
            auto r0 = ref::surf(k0u, k0v, s0.degreeU(), s0.degreeV(), s0.poles(), rational, o[0], o[1], 0, 0);
            auto r1 = ref::surf(k1u, k1v, s.degreeU(), s.degreeV(), s.poles(), rational, u, v, 0, 0);
            auto x = s.value(u, v);
            for (size_t i = 0; i < r0[0].v.size(); i++)
            {
                long double sc = 1 + r0[0].mag[i];
                if (!(std::fabs(r0[0].v[i] - r1[0].v[i]) <= 1e-7L * sc)) { mc::fail("shape", "(%g,%g) traces %s expected %s", u, v, ref::str(r1[0].v).c_str(), ref::str(r0[0].v).c_str()); return false; }
                if (!(std::fabs(r0[0].v[i] - x[i]) <= 1e-7L * sc)) { mc::fail("value", "(%g,%g) evaluates to %s expected %s", u, v, ref::str(x).c_str(), ref::str(r0[0].v).c_str()); return false; }
            }
            mc::outcome(mc::mixd(mc::mix(3, (uint64_t)(o[0] * 1e6)), x[0]));
        }
    return true;
}

template <typename S, bool rational, typename P>
static void explore(size_t p, size_t q, std::vector<size_t> mu, std::vector<size_t> mv, P poles, size_t depth, int first)
{
    auto bu = ref::breaks(mu.size(), 1), bv = ref::breaks(mv.size(), 0);
    S s0(poles, ref::flat(bu, mu, p), ref::flat(bv, mv, q), p, q);
    Model m;
    for (int d = 0; d < 2; d++)
    {
        auto &M = m.d[d];
        M.p = d ? q : p; M.a = 1; M.b = 0; M.od = d;
        auto &br = d ? bv : bu;
        auto &mm = d ? mv : mu;
        for (size_t i = 0; i < br.size(); i++) M.k.push_back({br[i], i == 0 || i + 1 == br.size() ? M.p + 1 : mm[i - 1]});
    }
    struct Node { S s; Model m; std::string h; size_t depth; };
    auto hash = [](const S &s) {
        uint64_t h = mc::mix(mc::mix(1, s.degreeU()), s.degreeV());
        for (auto k : s.knotsFlatsU()) h = mc::mixd(h, k);
        for (auto k : s.knotsFlatsV()) h = mc::mixd(h, k);
        for (auto &x : s.poles()) for (auto y : x) h = mc::mixd(h, y);
        return h;
    };
    char b[300];
    snprintf(b, 300, "%s pu=%zu ku=%s pv=%zu kv=%s:", rational ? "rational" : "poly", p, ref::str(s0.knotsFlatsU()).c_str(), q, ref::str(s0.knotsFlatsV()).c_str());
    std::unordered_set<uint64_t> seen{hash(s0)};
    std::deque<Node> todo{{s0, m, b, 0}};
    while (!todo.empty())
    {
        auto n = todo.front();
        todo.pop_front();
        mc::state();
        if (n.depth >= depth) continue;
        int idx = 0;
        for (auto &o : ops(n.m))
        {
            idx++;
            if (n.depth == 0 && first >= 0 && idx % 4 != first) continue;
            Node x{n.s, n.m, n.h + " " + o.name, n.depth + 1};
            mc::at("%s", x.h.c_str());
            bool thrown = false;
            try { apply(x.s, x.m, o); } catch (const std::exception &e) { thrown = true; }
            auto &M = n.m.d[o.dir];
            double f = M.k.front().u, l = M.k.back().u;
            bool nonsense = (o.kind == 3 && (o.x == o.y || o.x < f || o.y > l)) || (o.kind == 0 && (!o.r || o.x < f || o.x > l));
            if (thrown || (o.kind == 3 && o.x == o.y))
            {
                if (thrown && !nonsense) mc::fail("unexpected-error", "operation raised an error");
                verify<S, rational>(x.s, n.m, s0, x.h + (thrown ? " [error raised]" : " [no effect expected]"));
                continue;
            }
            if (!verify<S, rational>(x.s, x.m, s0, x.h)) continue;
            if (x.m.d[0].p > 6 || x.m.d[1].p > 6 || x.s.poles().size() > 150) continue;
            if (seen.insert(hash(x.s)).second) todo.push_back(x);
            mc::sample();
        }
    }
    mc::trace(seen.size());
}

static std::vector<mc::Unit> units()
{
    std::vector<mc::Unit> u;
    auto add = [&](size_t p, size_t q, std::vector<size_t> mu, std::vector<size_t> mv, size_t depth, bool split) {
        std::string t = "p" + std::to_string(p) + "x" + std::to_string(q) + "_m";
        size_t n = p + 1, k = q + 1;
        for (auto x : mu) { t += std::to_string(x); n += x; }
        t += "x";
        for (auto x : mv) { t += std::to_string(x); k += x; }
        t += "_d" + std::to_string(depth);
        for (int f = split ? 0 : -1; f < (split ? 4 : 0); f++)
        {
            auto tag = t + (f >= 0 ? "_f" + std::to_string(f) : "");
            u.push_back({"poly_" + tag, [=] { explore<BSSurface<double, 3>, false>(p, q, mu, mv, ref::poles<3>(n * k), depth, f); }});
            u.push_back({"rat_" + tag, [=] { explore<BSSurfaceRational<double, 2>, true>(p, q, mu, mv, ref::hpoles<2>(n * k, 1), depth, f); }});
        }
    };
    bool T = mc::thorough();
    add(1, 2, {1}, {}, 3, true);
    add(2, 1, {}, {1}, 3, true);
    add(2, 3, {1}, {2}, T ? 3 : 2, true);
    add(3, 2, {1, 2}, {1}, T ? 3 : 2, true);
    for (size_t p = 1; p <= 3; p++)
        for (size_t q = 1; q <= 3; q++)
            for (size_t m = 0; m <= 1; m++)
                for (size_t n = 0; n <= 1; n++)
                    for (auto &mu : ref::mults(m, p))
                        for (auto &mv : ref::mults(n, q))
                            add(p, q, mu, mv, (T && p + q <= 4) ? 3 : 2, false);
    for (size_t p : {4, 5}) for (size_t q : {1, 4}) add(p, q, {2}, {1}, T ? 2 : 1, false);
    return u;
}
MC_MAIN(units)
