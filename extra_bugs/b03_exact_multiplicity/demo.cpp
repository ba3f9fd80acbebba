#include <gbs/bscurve.h>
#include <cmath>
int main()
{
    std::vector<double> k{0., 0., 0., 0.3, 0.3, 1., 1., 1.};
    double u = 0.1 + 0.2; // 0.30000000000000004
    if (gbs::multiplicity(k, 0.3) != 2) return 2;
    return gbs::multiplicity(k, u) == 2 ? 0 : 1;
}
