#include "vp.h"
#define private public
#include "time/Cfl.cpp"
using namespace edge_v;
// velocity model with arbitrary values at the points
class ArrModel: public models::Model {
  public:
    double const * m_sp;
    ArrModel( double const * i_sp ): m_sp( i_sp ) {};
    void init( t_idx, double const (*)[3] ) {};
    void free() {};
    double getMinSpeed( t_idx i_pt ) const { return 0; }
    double getMaxSpeed( t_idx i_pt ) const { return m_sp[i_pt]; }
};
static t_entityType ty( int i_ty ) {
  return i_ty == 0 ? LINE : ( i_ty == 1 ? TRIA3 : ( i_ty == 2 ? QUAD4R : ( i_ty == 3 ? TET4 : HEX8R ) ) );
}
// i_w: ghost (witness element)
VP void w_cfl( int i_ty, size_t i_nVes, size_t i_nEls, size_t const * i_elVe, double const * i_inDia, bool i_velModEl, double const * i_sp, double * o_min, double * o_ts ) {
  ArrModel l_mod( i_sp );
  time::Cfl l_cfl( ty(i_ty), i_nVes, i_nEls, i_elVe, nullptr, i_inDia, i_velModEl, l_mod );
  o_min[0] = l_cfl.m_tsAbsMin;
  double const * l_ts = l_cfl.getTimeSteps();
  for( size_t l_el = 0; l_el < i_nEls; l_el++ ) o_ts[l_el] = l_ts[l_el];
}
