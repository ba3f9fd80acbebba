#include <gbs/bscurve.h>
#include <cmath>
#include <cstdio>
#include <vector>
// last basis function of the Bezier basis of degree p is u^p: its p-th derivative is p!
int main()
{
    int bad = 0;
    for (size_t p : {3, 8, 12, 14, 18})
    {
        std::vector<double> k(2 * p + 2, 0.);
        for (size_t i = p + 1; i < k.size(); ++i) k[i] = 1.;
        std::vector<double> D((p + 1) * (p + 1));
        gbs::ders_basis_funs(p, p, p, 0.5, k, D.data());
        double r = D[p * (p + 1) + p], x = std::tgamma(p + 1.);
        std::printf("%zu %g %g\n", p, r, x);
        if (!(std::abs(r / x - 1) < 1e-6)) bad = 1;
    }
    return bad;
}
