seed("s03_reverse_surface_offset_bounds", "C04",
 "reversing a surface direction whose bounds do not start at 0",
 "the reversed surface has shifted bounds instead of the announced ones",
 [("gbs/bssurf.h", "return k1 + k2 - k_;", "return k2 - k_;", "auto reverseU() -> void")], r'''
#include <gbs/bssurf.h>
#include <cstdio>
#include <cmath>
using namespace gbs;
int main()
{
    std::vector<std::array<double,3>> P;
    for (int j = 0; j < 3; j++) for (int i = 0; i < 4; i++) P.push_back({1. * i, 1. * j, std::sin(i + 2. * j)});
    BSSurface<double,3> s(P, {2,2,2,3,5,5,5}, {0,0,0,1,1,1}, 2, 2), r = s;
    r.reverseU();
    auto b = r.bounds();
    printf("bounds after reverse %g %g\n", b[0], b[1]);
    if (b[0] != 2 || b[1] != 5) return 1;
    auto x = s(2.7, .3), y = r(2 + 5 - 2.7, .3);
    for (int c = 0; c < 3; c++) if (std::fabs(x[c] - y[c]) > 1e-12) return 1;
    return 0;
}
''')
