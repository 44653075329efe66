// Integration of time series; k1, k2: ghost arguments, the intervals of the bounds
#include "vp.h"
#define private public
#include "constants.hpp"
#include "linalg/Series.hpp"
using namespace edge::linalg;
VP void w_series1( double dx, double xs, std::size_t n, double const * v, double x1, double x2, double na, std::size_t k1, std::size_t k2, double * o ) {
  Series< 1 >::integrate( dx, xs, n, (double const (*)[1]) v, x1, x2, o, na );
}
VP void w_series2( double dx, double xs, std::size_t n, double const * v, double x1, double x2, double na, std::size_t k1, std::size_t k2, double * o ) {
  Series< 2 >::integrate( dx, xs, n, (double const (*)[2]) v, x1, x2, o, na );
}
