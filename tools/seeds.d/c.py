seed("s09_revolved_meridian_cache", "C14",
 "several threads evaluating the same surface of revolution at different u",
 "the last meridian point is cached in the (shared, const) surface without synchronisation, so a thread can read the point another thread is storing",
 [("gbs/surfaceofrevolution.h", "            auto pt2d = p_crv_->value(u, du);", """            if (!has_cache_ || u != u_cache_ || du != du_cache_)
            {
                has_cache_ = true;
                u_cache_ = u;
                du_cache_ = du;
                pt_cache_ = p_crv_->value(u, du);
            }
            auto pt2d = pt_cache_;"""),
  ("gbs/surfaceofrevolution.h", "        Matrix4<T> M_;\n", """        Matrix4<T> M_;
        // iso-v sweeps ask for the same meridian point again and again
        mutable bool has_cache_ = false;
        mutable T u_cache_{};
        mutable size_t du_cache_{};
        mutable std::array<T, 2> pt_cache_{};
""")], r'''
#include <gbs/surfaceofrevolution.h>
#include <cstdio>
#include <thread>
#include <atomic>
using namespace gbs;
int main()
{
    std::vector<std::array<double,2>> P{{0,1},{1,3},{3,2},{4,2}};
    auto c = std::make_shared<BSCurve<double,2>>(P, std::vector<double>{0,0,0,0,1,1,1,1}, 3);
    std::shared_ptr<Curve<double,2>> pc = c;
    SurfaceOfRevolution<double> s(pc, ax2<double,3>{{{0,0,0},{0,0,1},{1,0,0}}});
    std::array<double,3> ref[8];
    for (int i = 0; i < 8; i++) ref[i] = s.value(i / 8., .3);
    std::atomic<long> bad{0};
    std::vector<std::thread> t;
    for (int k = 0; k < 8; k++) t.emplace_back([&, k] {
        for (int n = 0; n < 300000 && !bad; n++) { int i = (n / 3 + k) % 8; if (s.value(i / 8., .3) != ref[i]) bad++; } });
    for (auto &x : t) x.join();
    printf("%ld wrong points\n", bad.load());
    return bad ? 1 : 0;
}
''')
seed("s10_curve_curve_bracketing", "C12",
 "two crossing curves whose distance along the second one has several minima",
 "the sampling of the second curve stops as soon as the distance grows, so the guess belongs to another valley and the crossing is missed",
 [("gbs/extrema.h", """                if (distance < minDistance) {
                    minDistance = distance;
                    bestPair = {u, v};
                }
            }
        }
""", """                if (distance < minDistance) {
                    minDistance = distance;
                    bestPair = {u, v};
                }
                else if (distance > previous) // moving away
                    break;
                previous = distance;
            }
        }
"""), ("gbs/extrema.h", "            for (T v : samples2) {\n", "            T previous = std::numeric_limits<T>::max();\n            for (T v : samples2) {\n")], r'''
#include <gbs/extrema.h>
#include <cstdio>
using namespace gbs;
int main()
{
    // the second curve comes close, goes away and crosses afterwards
    BSCurve<double,2> a(std::vector<std::array<double,2>>{{0,0},{10,0}}, {0,0,1,1}, 1);
    BSCurve<double,2> b(std::vector<std::array<double,2>>{{1,2},{2,.5},{4,6},{7,6},{8,-2}}, {0,0,1,2,3,4,4}, 1);
    auto r = extrema_curve_curve<double,2>(a, b, 1e-6);
    auto d = norm(a(r[0]) - b(r[1]));
    printf("distance found %g\n", d);
    return d < 1e-3 ? 0 : 1;
}
''', libs="-ltbb -lnlopt")
seed("s11_uniform_params_subrange", "C11",
 "equal spacing on a part of a curve that is not parametrized by arc length",
 "the arc length law of the whole curve is used for the sub-range, so the parameters are neither equally spaced nor inside the range",
 [("gbs/bscanalysis.h", "auto f_u = abs_curv<T, dim, N>(crv, u1, u2, n_law);", "auto f_u = abs_curv<T, dim, N>(crv, n_law);"),
  ("gbs/bscanalysis.h", "auto dm = f_u.bounds()[1] / (n - T(1));", "auto dm = length<T, dim>(crv, u1, u2) / (n - T(1));")], r'''
#include <gbs/bscanalysis.h>
#include <cstdio>
#include <cmath>
using namespace gbs;
int main()
{
    BSCurve<double,2> c(std::vector<std::array<double,2>>{{0,0},{1,2},{3,-1},{6,3}}, {0,0,0,0,1,1,1,1}, 3);
    auto u = uniform_distrib_params<double,2>(c, .4, .9, 6);
    double L = length<double,2>(c, .4, .9), e = 0, p = *u.begin();
    for (auto it = std::next(u.begin()); it != u.end(); ++it) { e = std::max(e, std::fabs(length<double,2>(c, p, *it) - L / 5)); p = *it; }
    printf("spacing error %g of %g\n", e, L / 5);
    return e < .02 * L / 5 ? 0 : 1;
}
''', libs="-ltbb -lnlopt")
seed("s12_refine_free_ends", "C07",
 "tolerance driven approximation with free ends on data whose ends are noisy",
 "every refinement step imposes the first and last data points, so the returned fit is not the least-squares fit of the requested kind",
 [("gbs/bscapprox.h", """            if (fix_bound)
            {
                crv_refined = approx_bound_fixed(pts, p, n_poles, u, knots);
            }
            else
            {
                crv_refined = approx(pts, p, n_poles, u, knots);
            }
            if (""", """            crv_refined = approx_bound_fixed(pts, p, n_poles, u, knots);
            if (""")], r'''
#include <gbs/bscapprox.h>
#include <cstdio>
#include <cmath>
using namespace gbs;
int main()
{
    std::vector<std::array<double,2>> P;
    std::vector<double> u;
    for (int i = 0; i < 60; i++) { u.push_back(i / 59.); P.push_back({i / 59., std::sin(i * .4) + (i == 0 || i == 59 ? .8 : 0.)}); }
    auto c = approx<double,2>(P, u, 3, false, 1e-9, 1e-9, 3);
    auto r = approx<double,2>(P, 3, c.poles().size(), u, c.knotsFlats());
    double e = 0;
    for (size_t i = 0; i < c.poles().size(); i++) e = std::max(e, norm(c.poles()[i] - r.poles()[i]));
    printf("%zu poles, %g away from the least-squares fit\n", c.poles().size(), e);
    return e < 1e-6 ? 0 : 1;
}
''', libs="-ltbb -lnlopt")
