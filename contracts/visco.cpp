// Viscoelastic attenuation: frequencies, fit, unrelaxed Lame parameters and source matrices
#include "vp.h"
#include "Eigen/Dense"
#define private public
#include "constants.hpp"
#include "impl/seismic/common.hpp"
#include "impl/seismic/setups/ViscoElasticity.cpp"
using namespace edge::seismic::setups;
long vp_lsqRows, vp_lsqCols;
double vp_lsqMat[256], vp_lsqRhs[64];
#ifdef VP_NATIVE
// native replay: normal equations
extern "C" void vp_lsq( double const * m, double const * b, double * x, long r, long n ) {

  std::vector< double > a( n*(n+1), 0 );
  for( long i = 0; i < n; i++ ) {
    for( long j = 0; j < n; j++ ) for( long k = 0; k < r; k++ ) a[i*(n+1)+j] += m[k*n+i] * m[k*n+j];
    for( long k = 0; k < r; k++ ) a[i*(n+1)+n] += m[k*n+i] * b[k];
  }
  for( long i = 0; i < n; i++ ) {
    long q = i;
    for( long k = i; k < n; k++ ) if( std::abs( a[k*(n+1)+i] ) > std::abs( a[q*(n+1)+i] ) ) q = k;
    for( long j = 0; j <= n; j++ ) std::swap( a[i*(n+1)+j], a[q*(n+1)+j] );
    for( long k = 0; k < n; k++ ) if( k != i ) {
      double f = a[k*(n+1)+i] / a[i*(n+1)+i];
      for( long j = i; j <= n; j++ ) a[k*(n+1)+j] -= f * a[i*(n+1)+j];
    }
  }
  for( long i = 0; i < n; i++ ) x[i] = a[i*(n+1)+n] / a[i*(n+1)+i];
}
#endif
VP void w_freqs( unsigned short n, double cen, double rat, double * o ) { ViscoElasticity::frequencies( n, cen, rat, o ); }
VP void w_fit( unsigned short n, double q, double const * fr, double * o_x, double * o_mat, double * o_rhs ) {
  ViscoElasticity::anelasticCoeffPs( n, q, fr, o_x );
  if( vp_lsqRows != 2*n-1 || vp_lsqCols != n ) vp_abort();
  for( int k = 0; k < (2*n-1)*n; k++ ) o_mat[k] = vp_lsqMat[k];
  for( int k = 0; k < 2*n-1; k++ ) o_rhs[k] = vp_lsqRhs[k];
}
VP void w_lame( unsigned short n, double ref, double const * fr, double const * ck, double const * cm, double lam, double mu, double * o ) {
  ViscoElasticity::elasticLame( n, ref, fr, ck, cm, lam, mu, o[0], o[1] );
}
// p: central frequency, frequency ratio, Qp, Qs, lambda, mu; o_f: frequencies and fits (P, S); o_l: elastic Lame parameters from the fits; o_r: Lame parameters of the setup
#define VP_SRC( W, N ) VP void w_src##W( unsigned short n, double const * p, double * o_fr, double * o_y, double * o_l, double * o_r, double * o_s ) { \
  ViscoElasticity::frequencies( n, p[0], p[1], o_fr ); \
  ViscoElasticity::anelasticCoeffPs( n, p[2], o_fr, o_y ); \
  ViscoElasticity::anelasticCoeffPs( n, p[3], o_fr, o_y+n ); \
  w_lame( n, 2*M_PI*p[0], o_fr, o_y, o_y+n, p[4], p[5], o_l ); \
  ViscoElasticity::src( n, p[0], p[1], p[2], p[3], p[4], p[5], o_r[0], o_r[1], (double (*)[N]) o_s ); }
VP_SRC( 2, 9 )
VP_SRC( 2c, 5 )
VP_SRC( 3, 36 )
VP_SRC( 3c, 12 )
