// C03: breadth-first exploration of every edit sequence on curves. Model state: the original curve,
// an affine parameter map, the expected degree, knots/multiplicities (present and indispensable).
#include "mc.h"
#include "ref.h"
#include <gbs/bscurve.h>
#include <unordered_set>
#include <deque>
using namespace gbs;

struct K { double u; size_t m, need; };   // knot value, multiplicity, multiplicity the shape requires

struct Model
{
    std::vector<K> k;      // expected knots (clamped ends included, m = degree+1 there)
    size_t p;
    double lo, hi;         // expected bounds
    long double a, b;      // original parameter = a*u + b
};

struct Op { std::string name; int kind; double x, y; size_t r; };

template <typename Crv> struct Node { Crv c; Model m; std::string hist; size_t depth; };

static double mid(double a, double b) { return 0.5 * (a + b); }

static std::vector<Op> ops(const Model &m, bool full)
{
    std::vector<Op> o;
    auto add = [&](int kind, double x, double y, size_t r, const char *n) {
        char b[160];
        snprintf(b, 160, "%s(%.12g,%.12g,%zu)", n, x, y, r);
        o.push_back({b, kind, x, y, r});
    };
    double f = m.k.front().u, l = m.k.back().u;
    double h = l - f;
    double m1 = mid(m.k[0].u, m.k[1].u), m2 = mid(m.k[m.k.size() - 2].u, l);
    // insertion
    add(0, m1, 0, 1, "insert");
    add(0, m1, 0, m.p + 2, "insert");
    if (m2 != m1) add(0, m2, 0, 2, "insert");
    for (size_t i = 1; i + 1 < m.k.size(); i++) add(0, m.k[i].u, 0, full ? 2 : 1, "insert");
    add(0, f, 0, 1, "insert");
    add(0, l, 0, 1, "insert");
    add(0, m1, 0, 0, "insert");
    add(0, f - h, 0, 1, "insert");
    add(0, l + h, 0, 2, "insert");
    // insertion up to multiplicity
    add(1, m2, 0, 2, "insertUpTo");
    for (size_t i = 1; i + 1 < m.k.size(); i++) add(1, m.k[i].u, 0, std::min<size_t>(m.p, 2), "insertUpTo");
    // removal
    for (size_t i = 1; i + 1 < m.k.size(); i++)
    {
        add(2, m.k[i].u, 0, 1, "remove");
        add(2, m.k[i].u, 0, 2, "remove");
        add(2, m.k[i].u, 0, m.p + 3, "remove");
    }
    add(2, f, 0, 1, "remove");
    add(2, l, 0, 1, "remove");
    add(2, m1 + h * 1e-3, 0, 1, "remove");
    add(2, f - h, 0, 1, "remove");
    add(2, l + h, 0, 1, "remove");
    // one rounding error away from an existing knot
    if (m.k.size() > 2)
    {
        double kn = m.k[1].u;
        double up = std::nextafter(kn, l), dn = std::nextafter(kn, f);
        add(0, up, 0, 1, "insertNear");
        add(0, dn, 0, m.p, "insertNear");
        add(2, up, 0, 1, "removeNear");
        if (kn > m.lo + 1e-6 && kn < m.hi - 1e-6)
        {
            add(6, up, m.hi, 0, "trimNear");
            add(6, m.lo, dn, 0, "trimNear");
        }
    }
    // degree
    add(3, 0, 0, 1, "increaseDegree");
    add(3, 0, 0, 2, "increaseDegree");
    add(3, 0, 0, 0, "increaseDegree");
    // reversal
    add(4, 0, 0, 0, "reverse");
    add(5, 0, 0, 0, "reversed");
    // trim
    double L = m.lo, H = m.hi;
    double t1 = L + 0.3 * (H - L), t2 = L + 0.8 * (H - L);
    add(6, t1, H, 0, "trim");
    add(6, L, t2, 0, "trim");
    add(6, t2, t1, 0, "trim");
    add(6, L, H, 0, "trim");
    add(6, L - h, t2, 0, "trim");
    add(6, t1, H + h, 0, "trim");
    add(6, t1, t1, 0, "trim");
    for (size_t i = 1; i + 1 < m.k.size(); i++)
        if (m.k[i].u > L && m.k[i].u < H)
        {
            add(6, m.k[i].u, H, 0, "trim");
            add(6, L, m.k[i].u, 0, "trim");
            if (!full) break;
        }
    add(7, t1, t2, 0, "softTrim");
    // bounds
    add(8, 0, 1, 0, "changeBounds");
    add(8, -2, 5, 0, "changeBounds");
    add(9, 3, 3.5, 0, "changeBoundsArray");
    return o;
}

static K *find(Model &m, double u)
{
    for (auto &k : m.k)
        if (std::fabs(k.u - u) < 1e-9) return &k;
    return nullptr;
}
// make u a knot of the model with multiplicity at least m
static void model_insert_to(Model &m, double u, size_t mult)
{
    if (auto *k = find(m, u)) { k->m = std::max(k->m, mult); return; }
    K n{u, mult, 0};
    m.k.insert(std::find_if(m.k.begin(), m.k.end(), [&](auto &x) { return x.u > u; }), n);
}

// 0: op must succeed; 1: op may throw (then nothing changes)
template <typename Crv>
static bool apply(Crv &c, Model &m, const Op &o)
{
    double f = m.k.front().u, l = m.k.back().u;
    bool inside = o.x > f + 1e-9 && o.x < l - 1e-9;
    switch (o.kind)
    {
    case 0:
        c.insertKnot(o.x, o.r);
        if (inside && o.r > 0)
        {
            auto *k = find(m, o.x);
            size_t have = k ? k->m : 0;
            if (have < m.p) model_insert_to(m, o.x, std::min(m.p, have + o.r));
        }
        break;
    case 1:
    {
        std::vector<std::pair<double, size_t>> km{{o.x, o.r}};
        c.insertKnots(km);
        model_insert_to(m, o.x, std::min(m.p, o.r));
        break;
    }
    case 2:
        c.removeKnot(o.x, 1e-8, o.r);
        if (inside)
            if (auto *k = find(m, o.x))
            {
                k->m -= std::min(o.r, k->m - k->need);
                if (k->m == 0) m.k.erase(m.k.begin() + (k - m.k.data()));
            }
        break;
    case 3:
        c.increaseDegree(o.r);
        m.p += o.r;
        for (auto &k : m.k) { k.m += o.r; k.need += o.r; }
        // a purely redundant knot (need 0 before) keeps need 'r' only if it is still redundant:
        // elevating raises present multiplicity by r, of which all are redundant
        for (auto &k : m.k)
            if (k.need == o.r) k.need = 0;
        break;
    case 4:
    case 5:
        if (o.kind == 4) c.reverse();
        else
        {
            auto before_p = c.poles();
            auto before_k = c.knotsFlats();
            auto before_b = c.bounds();
            auto r = c.reversed();
            if (c.poles() != before_p || c.knotsFlats() != before_k || c.bounds() != before_b) mc::fail("reversed-mutates", "reversed() changed its source");
            c = r;
        }
        {
            std::reverse(m.k.begin(), m.k.end());
            for (auto &k : m.k) k.u = f + l - k.u;
            double nlo = f + l - m.hi, nhi = f + l - m.lo;
            m.lo = nlo; m.hi = nhi;
            m.b = m.a * (long double)(f + l) + m.b;
            m.a = -m.a;
        }
        break;
    case 6:
    {
        c.trim(o.x, o.y);
        double t1 = std::max(f, std::min(o.x, o.y)), t2 = std::min(l, std::max(o.x, o.y));
        std::vector<K> nk;
        for (auto &k : m.k)
            if (k.u > t1 + 1e-9 && k.u < t2 - 1e-9) nk.push_back(k);
        nk.insert(nk.begin(), K{t1, m.p + 1, m.p + 1});
        nk.push_back(K{t2, m.p + 1, m.p + 1});
        m.k = nk;
        m.lo = t1; m.hi = t2;
        break;
    }
    case 7:
        c.trim(o.x, o.y, false);
        m.lo = std::min(o.x, o.y); m.hi = std::max(o.x, o.y);
        break;
    case 8:
    case 9:
    {
        if (o.kind == 8) c.changeBounds(o.x, o.y); else c.changeBounds(std::array<double, 2>{o.x, o.y});
        // new parameter v = x + (y-x)*(u-lo)/(hi-lo)
        long double s = ((long double)m.hi - m.lo) / ((long double)o.y - o.x);
        auto fwd = [&](double u) { return (double)(o.x + (u - m.lo) / s); };
        for (auto &k : m.k) k.u = fwd(k.u);
        // orig = a*(lo + (v-x)*s)+b
        m.b = m.a * (m.lo - o.x * s) + m.b;
        m.a = m.a * s;
        m.lo = o.x; m.hi = o.y;
        break;
    }
    }
    return true;
}

template <typename Crv, bool rational>
static bool verify(const Crv &c, const Model &m, const Crv &c0, const std::string &hist)
{
    bool ok = true;
    auto bad = [&](const char *key, const std::string &s) { ok = false; mc::fail(key, "%s", s.c_str()); };
    mc::at("%s", hist.c_str());
    mc::step();
    if (c.degree() != m.p) bad("degree", "degree " + std::to_string(c.degree()) + " expected " + std::to_string(m.p));
    if (c.knotsFlats().size() != c.poles().size() + c.degree() + 1)
    {
        bad("sizes", "knots " + std::to_string(c.knotsFlats().size()) + " poles " + std::to_string(c.poles().size()) + " degree " + std::to_string(c.degree()));
        return false;
    }
    if (!std::is_sorted(c.knotsFlats().begin(), c.knotsFlats().end())) { bad("sorted", "knots not sorted " + ref::str(c.knotsFlats())); return false; }
    std::vector<double> ek;
    for (auto &k : m.k) ek.insert(ek.end(), k.m, k.u);
    bool same = ek.size() == c.knotsFlats().size();
    for (size_t i = 0; same && i < ek.size(); i++) same = std::fabs(ek[i] - c.knotsFlats()[i]) < 1e-9;
    if (!same) { bad("knots", "knots " + ref::str(c.knotsFlats()) + " expected " + ref::str(ek)); return false; }
    // the accessors agree with the flat knots
    auto ks = c.knots();
    auto ms = c.mults();
    if (ks.size() != m.k.size() || ms.size() != m.k.size()) bad("knots-mults", "knots()/mults() sizes");
    else
        for (size_t i = 0; i < ks.size(); i++)
            if (std::fabs(ks[i] - m.k[i].u) > 1e-9 || ms[i] != m.k[i].m) bad("knots-mults", "knot " + std::to_string(i));
    auto [b0, b1] = c.bounds();
    if (std::fabs(b0 - m.lo) > 1e-9 || std::fabs(b1 - m.hi) > 1e-9) { bad("bounds", "bounds " + ref::str(c.bounds()) + " expected " + ref::str(std::array<double, 2>{m.lo, m.hi})); return false; }
    // shape: in every span of the edited curve, at the knots and at the bounds
    std::vector<double> us;
    for (size_t i = 0; i + 1 < m.k.size(); i++)
    {
        double a = std::max(m.lo, m.k[i].u), b = std::min(m.hi, m.k[i + 1].u);
        if (b - a < 1e-9) continue;
        us.push_back(a + 0.21 * (b - a));
        us.push_back(a + 0.77 * (b - a));
    }
    us.push_back(b0);
    us.push_back(b1);
    auto k0 = ref::to_real(c0.knotsFlats()), k1 = ref::to_real(c.knotsFlats());
    for (double u : us)
    {
        long double v = m.a * u + m.b;
        v = std::min(std::max(v, k0.front()), k0.back());
        auto r0 = ref::curve(k0, c0.degree(), c0.poles(), rational, v, 1);
        auto r1 = ref::curve(k1, c.degree(), c.poles(), rational, u, 1);
        auto x = c.value(u);
        for (size_t i = 0; i < r0[0].v.size(); i++)
        {
            long double sc = 1 + r0[0].mag[i];
            if (!(std::fabs(r0[0].v[i] - r1[0].v[i]) <= 1e-7L * sc))
            {
                bad("shape", "u=" + std::to_string(u) + " traces " + ref::str(r1[0].v) + " expected " + ref::str(r0[0].v));
                return false;
            }
            if (!(std::fabs(r0[0].v[i] - x[i]) <= 1e-7L * sc))
            {
                bad("value", "u=" + std::to_string(u) + " evaluates to " + ref::str(x) + " expected " + ref::str(r0[0].v));
                return false;
            }
        }
        mc::outcome(mc::mixd(mc::mix(7, (uint64_t)(v * 1e6)), x[0]));
    }
    return ok;
}

template <typename Crv>
static uint64_t hash(const Crv &c, const Model &m)
{
    uint64_t h = mc::mix(1, c.degree());
    for (auto k : c.knotsFlats()) h = mc::mixd(h, k);
    for (auto &p : c.poles()) for (auto x : p) h = mc::mixd(h, x);
    h = mc::mixd(mc::mixd(h, m.lo), m.hi);
    for (auto &k : m.k) h = mc::mix(h, k.need); // two states with equal data but different redundancy stay distinct
    return h;
}

template <typename Crv, bool rational, typename P>
static void explore(size_t p, int spacing, std::vector<size_t> mu, P poles, size_t depth, bool full, int first)
{
    auto br = ref::breaks(mu.size(), spacing);
    auto k = ref::flat(br, mu, p);
    Crv c0(poles, k, p);
    Model m;
    m.p = p;
    m.lo = br.front(); m.hi = br.back();
    m.a = 1; m.b = 0;
    for (size_t i = 0; i < br.size(); i++)
    {
        size_t q = (i == 0 || i + 1 == br.size()) ? p + 1 : mu[i - 1];
        m.k.push_back({br[i], q, q});
    }
    std::unordered_set<uint64_t> seen;
    std::deque<Node<Crv>> todo;
    char b[200];
    snprintf(b, 200, "%s p=%zu knots=%s:", rational ? "rational" : "poly", p, ref::str(k).c_str());
    todo.push_back({c0, m, b, 0});
    seen.insert(hash(c0, m));
    while (!todo.empty())
    {
        auto n = todo.front();
        todo.pop_front();
        mc::state();
        if (n.depth >= depth) continue;
        int idx = 0;
        for (auto &o : ops(n.m, full))
        {
            idx++;
            if (n.depth == 0 && first >= 0 && (idx % 4) != first) continue; // units split on the first operation
            Node<Crv> x{n.c, n.m, n.hist + " " + o.name, n.depth + 1};
            mc::at("%s", x.hist.c_str());
            bool thrown = false;
            try { apply(x.c, x.m, o); }
            catch (const std::exception &e) { thrown = true; }
            if (thrown || (o.kind == 6 && o.x == o.y))
            {
                // an error is acceptable only for arguments that make no sense, and must change nothing
                bool nonsense = (o.kind == 6 && std::fabs(o.x - o.y) < 1e-12) || (o.kind == 0 && (o.r == 0 || o.x < n.m.k.front().u || o.x > n.m.k.back().u)) || (o.kind == 2 && !(o.x > n.m.k.front().u && o.x < n.m.k.back().u)) || (o.kind == 6 && (o.x < n.m.lo || o.y > n.m.hi));
                if (thrown && !nonsense) mc::fail("unexpected-error", "operation raised an error");
                x.m = n.m; // must be unchanged
                verify<Crv, rational>(x.c, x.m, c0, x.hist + (thrown ? " [error raised]" : " [no effect expected]"));
                continue;
            }
            if (!verify<Crv, rational>(x.c, x.m, c0, x.hist)) continue; // do not explore past a violation
            if (x.m.p > 8 || x.c.poles().size() > 40) continue;         // bound of the space
            if (seen.insert(hash(x.c, x.m)).second) todo.push_back(x);
            mc::sample();
        }
    }
    mc::trace(seen.size());
}

static std::vector<mc::Unit> units()
{
    std::vector<mc::Unit> u;
    auto add = [&](size_t p, int s, std::vector<size_t> mu, size_t depth, bool full, int split) {
        std::string ms;
        for (auto x : mu) ms += std::to_string(x);
        for (int f = split ? 0 : -1; f < (split ? 4 : 0); f++)
        {
            std::string tag = "p" + std::to_string(p) + "_s" + std::to_string(s) + "_m" + ms + "_d" + std::to_string(depth) + (f >= 0 ? "_f" + std::to_string(f) : "");
            size_t n = 0;
            for (auto x : mu) n += x;
            n += p + 1;
            u.push_back({"poly_" + tag, [=] { explore<BSCurve<double, 2>, false>(p, s, mu, ref::poles<2>(n), depth, full, f); }});
            u.push_back({"rat_" + tag, [=] { explore<BSCurveRational<double, 2>, true>(p, s, mu, ref::hpoles<2>(n, 1), depth, full, f); }});
        }
    };
    bool T = mc::thorough();
    size_t D = T ? 4 : 3;
    // deep exploration from a few representative curves
    add(1, 0, {1}, D, false, 4);
    add(2, 1, {1, 2}, D, false, 4);
    add(3, 1, {1}, D, false, 4);
    add(3, 0, {2, 1}, D, false, 4);
    // shallow exploration from every knot pattern
    for (size_t p = 1; p <= 5; p++)
        for (size_t m = 0; m <= 2; m++)
            for (auto &mu : ref::mults(m, p))
                for (int s = 0; s < 2; s++)
                {
                    if (p >= 4 && m == 2 && s == 0 && !T) continue;
                    add(p, s, mu, T || (p <= 3 && m <= 1) ? 3 : 2, p <= 3, 0);
                }
    for (size_t p : {6, 7, 8}) add(p, 1, {2}, 1, false, 0);
    // elevation across the range where closed-form binomials overflow
    auto high = [&](size_t p, size_t t) {
        u.push_back({"elevate_p" + std::to_string(p) + "_t" + std::to_string(t), [=] {
                         auto k = ref::flat(ref::breaks(1, 1), {1}, p);
                         size_t n = k.size() - p - 1;
                         auto P = ref::poles<2>(n);
                         for (auto &x : P) { x[0] = std::sin(x[0]); x[1] = std::cos(x[1]); }
                         BSCurve<double, 2> c0(P, k, p), c(c0);
                         mc::at("increaseDegree(%zu) from degree %zu", t, p);
                         c.increaseDegree(t);
                         mc::step(); mc::state();
                         if (c.degree() != p + t || c.knotsFlats().size() != c.poles().size() + p + t + 1) { mc::fail("sizes", "inconsistent"); return; }
                         for (double a = 0; a <= 1.; a += 0.05)
                         {
                             double x = k.front() + a * (k.back() - k.front());
                             auto r = ref::curve(ref::to_real(k), p, P, false, x, 0);
                             auto q = ref::curve(ref::to_real(c.knotsFlats()), p + t, c.poles(), false, x, 0);
                             for (size_t i = 0; i < 2; i++)
                                 if (!(std::fabs(r[0].v[i] - q[0].v[i]) < 1e-7L)) mc::fail("shape", "u=%g traces %s expected %s", x, ref::str(q[0].v).c_str(), ref::str(r[0].v).c_str());
                         }
                     }});
    };
    for (size_t p = 1; p <= 14; p++)
        for (size_t t = 1; t <= 6; t++)
            if (p + t <= 16) high(p, t);
    return u;
}
MC_MAIN(units)
