#include <gbs/bssurf.h>
#include <cmath>
#include <cstdio>
// S(u,v) = 1/w, w = (1+u^2)(1+v^2): product of g(u)g(v), g = 1/(1+x^2)
int main()
{
    std::vector<double> a{1., 1., 2.}, k{0., 0., 0., 1., 1., 1.};
    gbs::points_vector<double, 2> P;
    for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) P.push_back({1., a[i] * a[j]});
    gbs::BSSurfaceRational<double, 1> s(P, k, k, 2, 2);
    auto g = [](double x, int d) { double q = 1 + x * x; return d == 0 ? 1 / q : d == 1 ? -2 * x / (q * q) : (6 * x * x - 2) / (q * q * q); };
    int bad = 0;
    std::array<double, 1> T[9];
    double u = 0.25, v = 0.625;
    s.derivatives(u, v, 2, 2, T);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        double x = g(u, i) * g(v, j), r = T[i * 3 + j][0], y = s.value(u, v, i, j)[0];
        if (std::abs(r - x) > 1e-9 || std::abs(y - x) > 1e-9) { std::printf("%d %d: %g %g %g\n", i, j, x, r, y); bad = 1; }
    }
    return bad;
}
