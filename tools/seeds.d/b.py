seed("s04_join_rational_weights", "C08",
 "joining to a rational curve whose first and last weights differ",
 "the second curve's weights are normalised with its last weight instead of its first one, so the shared pole has two different weights and the second part is distorted",
 [("gbs/bsctools.h", "scale_poles(poles2,1. / poles2.front().back());", "scale_poles(poles2,1. / poles2.back().back());")], r'''
#include <gbs/bsctools.h>
#include <cstdio>
#include <cmath>
using namespace gbs;
int main()
{
    std::vector<std::array<double,3>> P1{{0,0,1},{2,2,2},{3,1,1}}, P2{{3,1,1},{8,0,2},{12,9,3}};
    BSCurveRational<double,2> a(P1, {0,0,0,1,1,1}, 2), b(P2, {0,0,0,1,1,1}, 2);
    auto j = join(a, b);
    double e = 0;
    for (int i = 0; i <= 20; i++)
    {
        double u = i / 20.;
        auto x = a(u), y = j(u), z = b(u), t = j(1 + u);
        for (int c = 0; c < 2; c++) e = std::max({e, std::fabs(x[c] - y[c]), std::fabs(z[c] - t[c])});
    }
    printf("joined curve deviates by %g\n", e);
    return e < 1e-9 ? 0 : 1;
}
''')
seed("s05_reparam_second_derivative", "C10",
 "second derivative of a re-parametrized curve under a law whose slope is not 1",
 "the chain rule's squared slope becomes the slope, so the second derivative is wrong wherever the law is not of unit slope",
 [("gbs/curvereparametrized.h", "m_p_crv->value(fd0, 2) * fd1 * fd1", "m_p_crv->value(fd0, 2) * fd1")], r'''
#include <gbs/curvereparametrized.h>
#include <cstdio>
#include <cmath>
using namespace gbs;
int main()
{
    std::vector<std::array<double,2>> P{{0,0},{1,3},{3,-1},{4,2}};
    auto c = std::make_shared<BSCurve<double,2>>(P, std::vector<double>{0,0,0,0,1,1,1,1}, 3);
    BSCfunction<double> f(std::vector<double>{0,.2,1}, std::vector<double>{0,0,0,2,2,2}, 2);
    CurveReparametrized<double,2> r(c, f);
    double m = .7, h = 1e-5, e = 0;
    auto d = r.value(m, 2), a = r.value(m + h, 1), b = r.value(m - h, 1);
    for (int k = 0; k < 2; k++) e = std::max(e, std::fabs(d[k] - (a[k] - b[k]) / (2 * h)));
    printf("second derivative off by %g\n", e);
    return e < 1e-5 ? 0 : 1;
}
''')
seed("s06_v_bounds_width", "C04",
 "changing the v bounds of a surface to a range that does not start at 0",
 "the upper v bound becomes the width of the range, so part of the surface is refused or its bounds disagree with its knots",
 [("gbs/bssurf.h", "m_bounds[3] = k2;", "m_bounds[3] = k2 - k1;")], r"""
#include <gbs/bssurf.h>
#include <cstdio>
#include <cmath>
using namespace gbs;
int main()
{
    std::vector<std::array<double,3>> P;
    for (int j = 0; j < 3; j++) for (int i = 0; i < 4; i++) P.push_back({1. * i, 1. * j, std::sin(i + 2. * j)});
    BSSurface<double,3> s(P, {2,2,2,3,5,5,5}, {0,0,0,1,1,1}, 2, 2), r = s;
    r.changeVBounds(3., 7.);
    auto b = r.bounds();
    printf("v bounds %g %g\n", b[2], b[3]);
    if (b[2] != 3 || b[3] != 7) return 1;
    auto x = s(2.7, .75), y = r(2.7, 6.);
    for (int c = 0; c < 3; c++) if (std::fabs(x[c] - y[c]) > 1e-12) return 1;
    return 0;
}
""")
seed("s08_move_poles_count", "C05",
 "replacing the poles of a curve by a shorter vector through the moving overload",
 "fewer poles than the knots need are accepted, evaluation then reads past the poles",
 [("gbs/bscurve.h", "if (poles.size() != m_poles.size())", "if (poles.size() > m_poles.size())", "Move pole vector")], r"""
#include <gbs/bscurve.h>
#include <cstdio>
using namespace gbs;
int main()
{
    std::vector<std::array<double,2>> P{{0,0},{1,3},{3,-1},{4,2}}, S{{0,0},{1,1},{2,2}};
    BSCurve<double,2> c(P, std::vector<double>{0,0,0,0,1,1,1,1}, 3);
    try { c.movePoles(S); } catch (const std::exception &e) { printf("refused\n"); return c.poles().size() == 4 ? 0 : 1; }
    printf("accepted\n");
    return 1;
}
""")
