#include "vp.h"
#define private public
#include "constants.hpp"
#include "impl/seismic/common.hpp"
#include "impl/seismic/setups/Elasticity.cpp"
#include "impl/seismic/setups/ViscoElasticity.cpp"
using namespace edge::seismic;
using namespace edge::seismic::setups;
VP void w_jac2( double r, double l, double m, double * o ) { common::getJac( r, l, m, o, 2 ); }
VP void w_jac3( double r, double l, double m, double * o ) { common::getJac( r, l, m, o, 3 ); }
VP void w_star2( double r, double l, double m, double const * j, double * o ) { Elasticity::star( r, l, m, (double const (*)[2]) j, (double (*)[25]) o ); }
VP void w_star2c( double r, double l, double m, double const * j, double * o ) { Elasticity::star( r, l, m, (double const (*)[2]) j, (double (*)[10]) o ); }
VP void w_star3( double r, double l, double m, double const * j, double * o ) { Elasticity::star( r, l, m, (double const (*)[3]) j, (double (*)[81]) o ); }
VP void w_star3c( double r, double l, double m, double const * j, double * o ) { Elasticity::star( r, l, m, (double const (*)[3]) j, (double (*)[24]) o ); }
VP void w_starA2( double const * j, double * o ) { ViscoElasticity::star( (double const (*)[2]) j, (double (*)[6]) o ); }
VP void w_starA2c( double const * j, double * o ) { ViscoElasticity::star( (double const (*)[2]) j, (double (*)[4]) o ); }
VP void w_starA3( double const * j, double * o ) { ViscoElasticity::star( (double const (*)[3]) j, (double (*)[18]) o ); }
VP void w_starA3c( double const * j, double * o ) { ViscoElasticity::star( (double const (*)[3]) j, (double (*)[9]) o ); }
VP void w_trafo2( double const * n, double * o_t, double * o_tm1 ) {
  common::setupTrafo2d( n[0], n[1], (double (*)[5]) o_t );
  common::setupTrafoInv2d( n[0], n[1], (double (*)[5]) o_tm1 );
}
VP void w_trafo3( double const * n, double * o_t, double * o_tm1 ) {
  common::setupTrafo3d( n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], n[8], (double (*)[9]) o_t );
  common::setupTrafoInv3d( n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], n[8], (double (*)[9]) o_tm1 );
}
// flux solvers; p: densities, Lame parameters lambda and mu (left, right)
VP void w_fs2( double const * p, double const * t, double const * tm1, double * l, double * r, bool f ) {
  Elasticity::fs( p[0], p[1], p[2], p[3], p[4], p[5], (double const (*)[5]) t, (double const (*)[5]) tm1, l, r, f );
}
VP void w_fs3( double const * p, double const * t, double const * tm1, double * l, double * r, bool f ) {
  Elasticity::fs( p[0], p[1], p[2], p[3], p[4], p[5], (double const (*)[9]) t, (double const (*)[9]) tm1, l, r, f );
}
VP void w_fsA2( double const * p, double const * t, double const * tm1, double * l, double * r, bool f ) {
  ViscoElasticity::fs( p[0], p[1], p[2], p[3], p[4], p[5], (double const (*)[3]) t, (double const (*)[5]) tm1, l, r, f );
}
VP void w_fsA3( double const * p, double const * t, double const * tm1, double * l, double * r, bool f ) {
  ViscoElasticity::fs( p[0], p[1], p[2], p[3], p[4], p[5], (double const (*)[6]) t, (double const (*)[9]) tm1, l, r, f );
}
// face-aligned flux solvers: identity as transformation
template< int TL_N, int TL_M > static void eye( double * o_a, double * o_b ) {
  for( int l_i = 0; l_i < TL_N*TL_N; l_i++ ) o_a[l_i] = ( l_i / TL_N == l_i % TL_N ) ? 1 : 0;
  for( int l_i = 0; l_i < TL_M*TL_M; l_i++ ) o_b[l_i] = ( l_i / TL_M == l_i % TL_M ) ? 1 : 0;
}
VP void w_mid2( double const * p, double * l, double * r, bool f ) { double a[25], b[25]; eye<5,5>( a, b ); w_fs2( p, a, b, l, r, f ); }
VP void w_mid3( double const * p, double * l, double * r, bool f ) { double a[81], b[81]; eye<9,9>( a, b ); w_fs3( p, a, b, l, r, f ); }
VP void w_midA2( double const * p, double * l, double * r, bool f ) { double a[9], b[25]; eye<3,5>( a, b ); w_fsA2( p, a, b, l, r, f ); }
VP void w_midA3( double const * p, double * l, double * r, bool f ) { double a[36], b[81]; eye<6,9>( a, b ); w_fsA3( p, a, b, l, r, f ); }
// rotated solver and face-aligned solver
#define VP_ROT( W, N, M ) VP void w_rot##W( double const * p, double const * t, double const * tm1, double * l, double * r, double * ml, double * mr, bool f ) { \
  w_fs##W( p, t, tm1, l, r, f ); w_mid##W( p, ml, mr, f ); }
VP_ROT( 2, 5, 5 )
VP_ROT( 3, 9, 9 )
VP_ROT( A2, 3, 5 )
VP_ROT( A3, 6, 9 )
// viscoelastic parameters
VP void w_lame( unsigned short n, double ref, double const * fr, double const * ck, double const * cm, double lam, double mu, double * o ) {
  ViscoElasticity::elasticLame( n, ref, fr, ck, cm, lam, mu, o[0], o[1] );
}
VP double w_dt( double rho, double lam, double mu, double dia, double sca ) { return common::getTimeStepCFL( rho, lam, mu, dia, sca ); }
