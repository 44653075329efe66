#include "vp.h"
#define private public
#include "constants.hpp"
#include "impl/seismic/solvers/FrictionLaws.hpp"
#ifndef VP_CR
#define VP_CR 1
#endif
using namespace edge::seismic::solvers;
template< int TL_ND > struct FaData {
  t_LinSlipWeakGlobal< double, VP_CR > * gl;
  t_LinSlipWeakFace< double > * fa;
  t_LinSlipWeakSubFace< double, TL_ND, VP_CR > (*sf)[2];
};

template< int TL_ND, int TL_NQ > static void run( double i_dt, bool i_lEqM, unsigned short i_sf, double const * i_fa, double const * i_gl, double const * i_bg, double const * i_ms, double * io_dd, double * io_muf,
                                double * o_st, double * o_sr, double * o_tr, double * o_msL, double * o_msR, unsigned char * o_per ) {
  t_LinSlipWeakGlobal< double, VP_CR > l_gl;
  t_LinSlipWeakFace< double > l_fa;
  t_LinSlipWeakSubFace< double, TL_ND, VP_CR > l_sf[2];
  FaData< TL_ND > l_da;
  l_da.gl = &l_gl; l_da.fa = &l_fa; l_da.sf = &l_sf;
  l_fa.lEqM = i_lEqM; l_fa.csDmuM = i_fa[0]; l_fa.csDmuP = i_fa[1];
  for( int l_cr = 0; l_cr < VP_CR; l_cr++ ) {
    l_gl.mus[l_cr] = i_gl[l_cr]; l_gl.mud[l_cr] = i_gl[VP_CR+l_cr]; l_gl.dcInv[l_cr] = i_gl[2*VP_CR+l_cr];
    for( int l_s = 0; l_s < 2; l_s++ ) {
      // background stresses and state of both sub-faces
      double const * l_bg = i_bg + l_s * (1+1+TL_ND-1)*VP_CR;
      l_sf[l_s].sn0[l_cr] = l_bg[l_cr]; l_sf[l_s].co0[l_cr] = l_bg[VP_CR+l_cr];
      double l_a = 0;
      for( int l_d = 0; l_d < TL_ND-1; l_d++ ) {
        l_sf[l_s].ss0[l_d][l_cr] = l_bg[(2+l_d)*VP_CR+l_cr];
        l_a += l_sf[l_s].ss0[l_d][l_cr] * l_sf[l_s].ss0[l_d][l_cr];
        l_sf[l_s].dd[l_d][l_cr] = io_dd[ (l_s*(TL_ND-1) + l_d)*VP_CR+l_cr];
      }
      l_sf[l_s].ss0A[l_cr] = std::sqrt( l_a );
      l_sf[l_s].muf[l_cr] = io_muf[l_s*VP_CR+l_cr];
    }
  }
  bool l_per[VP_CR];
  FrictionLaws< TL_ND, VP_CR >::perturb( i_sf, i_dt, (double const (*)[VP_CR]) i_ms, &l_da, (double (*)[VP_CR]) o_msL, (double (*)[VP_CR]) o_msR, l_per );
  for( int l_cr = 0; l_cr < VP_CR; l_cr++ ) {
    o_per[l_cr] = l_per[l_cr] ? 1 : 0;
    o_st[l_cr] = l_sf[i_sf].st[l_cr];
    for( int l_d = 0; l_d < TL_ND-1; l_d++ ) {
      o_sr[l_d*VP_CR+l_cr] = l_sf[i_sf].sr[l_d][l_cr];
      o_tr[l_d*VP_CR+l_cr] = l_sf[i_sf].tr[l_d][l_cr];
    }
    for( int l_s = 0; l_s < 2; l_s++ ) {
      io_muf[l_s*VP_CR+l_cr] = l_sf[l_s].muf[l_cr];
      for( int l_d = 0; l_d < TL_ND-1; l_d++ ) io_dd[ (l_s*(TL_ND-1) + l_d)*VP_CR+l_cr] = l_sf[l_s].dd[l_d][l_cr];
    }
  }
}
VP void w_fric2( double i_dt, bool i_lEqM, unsigned short i_sf, double const * i_fa, double const * i_gl, double const * i_bg, double const * i_ms, double * io_dd, double * io_muf,
                 double * o_st, double * o_sr, double * o_tr, double * o_msL, double * o_msR, unsigned char * o_per ) {
  run< 2, 5 >( i_dt, i_lEqM, i_sf, i_fa, i_gl, i_bg, i_ms, io_dd, io_muf, o_st, o_sr, o_tr, o_msL, o_msR, o_per );
}
VP void w_fric3( double i_dt, bool i_lEqM, unsigned short i_sf, double const * i_fa, double const * i_gl, double const * i_bg, double const * i_ms, double * io_dd, double * io_muf,
                 double * o_st, double * o_sr, double * o_tr, double * o_msL, double * o_msR, unsigned char * o_per ) {
  run< 3, 9 >( i_dt, i_lEqM, i_sf, i_fa, i_gl, i_bg, i_ms, io_dd, io_muf, o_st, o_sr, o_tr, o_msL, o_msR, o_per );
}
