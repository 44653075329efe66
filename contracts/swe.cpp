#include "vp.h"
#define private public
#include "constants.hpp"
#include "impl/swe/solvers/Fwave.hpp"
#include "impl/swe/solvers/FiniteVolume.hpp"
using namespace edge::swe::solvers;

#ifndef VP_CR
#define VP_CR 1
#endif
typedef double (*t_2)[VP_CR];

// fused runs: [side/quantity][run]
VP void w_fwave( double const * i_hL, double const * i_hR, double const * i_huL, double const * i_huR, double i_bL, double i_bR, double i_g,
                 double * o_nusL, double * o_nusR ) {
  Fwave< VP_CR >::nusN( i_hL, i_hR, i_huL, i_huR, i_bL, i_bR, (t_2) o_nusL, (t_2) o_nusR, i_g );
}
// default gravity
VP void w_fwaveDef( double const * i_hL, double const * i_hR, double const * i_huL, double const * i_huR, double i_bL, double i_bR,
                    double * o_nusL, double * o_nusR ) {
  Fwave< VP_CR >::nusN( i_hL, i_hR, i_huL, i_huR, i_bL, i_bR, (t_2) o_nusL, (t_2) o_nusR );
}

#ifdef VP_EL
typedef FiniteVolume< VP_EL, VP_CR > t_fv;
template< int TL_SP > struct Fa { double outNormal[C_ENT[VP_EL].N_DIM]; double area; static const int_spType spType = TL_SP; };
template< int TL_SP > const int_spType Fa< TL_SP >::spType;
struct El { double volume; double inDia; };
typedef double const (*t_dofs)[C_ENT[VP_EL].N_DIM+1][1][VP_CR];
typedef double const (*t_bath)[1][1];
typedef double (*t_nus)[2][2][VP_CR];
#ifndef VP_SP
#define VP_SP 0
#endif
VP void w_stats( size_t i_n, double const * i_chars, double const * i_dofs, double * o_dt ) {
  t_fv::getTimeStepStatistics( i_n, (El const*) i_chars, (t_dofs) i_dofs, o_dt[0], o_dt[1], o_dt[2] );
}
VP void w_nusN( size_t i_first, size_t i_size, size_t i_nEl, size_t i_nFa, size_t const * i_faEl, double const * i_chars, double const * i_dofs, double const * i_bath, double * o_nus ) {
  t_fv::nusN( i_first, i_size, (size_t const (*)[2]) i_faEl, (Fa<VP_SP> const *) i_chars, (t_dofs) i_dofs, (t_bath) i_bath, (t_nus) o_nus );
}
VP void w_update( size_t i_first, size_t i_size, size_t i_nEl, size_t i_nFa, double i_dT, size_t const * i_faEl, size_t const * i_elFa, double const * i_charsFa, double const * i_charsEl, double const * i_nus, double * io_dofs ) {
  t_fv::update( i_first, i_size, i_dT, (size_t const (*)[2]) i_faEl, (size_t const (*)[C_ENT[VP_EL].N_FACES]) i_elFa,
                (Fa<0> const *) i_charsFa, (El const *) i_charsEl, (double const (*)[2][2][VP_CR]) i_nus, (double (*)[C_ENT[VP_EL].N_DIM+1][1][VP_CR]) io_dofs );
}
#endif
