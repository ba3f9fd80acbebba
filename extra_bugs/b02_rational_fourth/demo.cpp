#include <gbs/bscurve.h>
#include <cmath>
#include <cstdio>
// C(u) = 1/(1+u^2): fourth derivative 24 (5u^4-10u^2+1)/(1+u^2)^5
int main()
{
    gbs::BSCurveRational<double, 1> c(gbs::points_vector<double, 2>{{1., 1.}, {1., 1.}, {1., 2.}}, std::vector<double>{0., 0., 0., 1., 1., 1.}, 2);
    double u = 0.25, r = c.value(u, 4)[0], x = 24. * (5 * std::pow(u, 4) - 10 * u * u + 1) / std::pow(1 + u * u, 5);
    std::printf("%g %g\n", r, x);
    return std::abs(r - x) < 1e-8 ? 0 : 1;
}
