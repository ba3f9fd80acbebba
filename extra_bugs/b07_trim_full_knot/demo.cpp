#include <gbs/bscurve.h>
int main()
{
    gbs::BSCurve<double, 1> c({{0.}, {1.}, {3.}, {2.}, {5.}, {7.}}, {0., 0., 0., 0.5, 0.5, 0.5, 1., 1., 1.}, 2);
    c.trim(0.25, 0.5);
    if (c.knotsFlats().size() != c.poles().size() + 3) return 1;
    return gbs::multiplicity(c.knotsFlats(), 0.5) == 3 ? 0 : 2;
}
