#include "vp.h"
#define private public
#include "time/Groups.cpp"
using namespace edge_v;

static t_entityType ty( int i_ty ) {
  return i_ty == 0 ? LINE : ( i_ty == 1 ? TRIA3 : ( i_ty == 2 ? QUAD4R : ( i_ty == 3 ? TET4 : HEX8R ) ) );
}

VP void w_setElTg( size_t i_n, unsigned short i_nGroups, double const * i_tsGroups, double const * i_tsCfl, unsigned short * o_elTg ) {
  time::Groups::setElTg( i_n, i_nGroups, i_tsGroups, i_tsCfl, o_elTg );
}
// i_f: ghost (not read by the code)
VP size_t w_normalize( int i_ty, size_t i_n, size_t const * i_elFaEl, unsigned short * io_elTg, unsigned short const * i_f ) {
  return time::Groups::normalizeElTgs( ty(i_ty), i_n, i_elFaEl, io_elTg );
}
VP void w_nGroupEls( size_t i_first, size_t i_n, unsigned short i_nGroups, unsigned short const * i_elTg, size_t * o_n ) {
  time::Groups::nGroupEls( i_first, i_n, i_nGroups, i_elTg, o_n );
}
VP void w_getLoads( size_t i_n, unsigned short i_nGroups, double const * i_tsCfl, double const * i_tsGroups, unsigned short const * i_elTg, double * o_loads ) {
  time::Groups::getLoads( i_n, i_tsCfl, i_tsGroups, i_elTg, o_loads[0], o_loads[1], o_loads[2] );
}
// i_f: ghost (not read by the code)
VP void w_groups( int i_ty, size_t i_n, size_t const * i_elFaEl, unsigned short i_nRates, double const * i_rates, double i_funDt,
                  double const * i_ts, unsigned short const * i_f, unsigned short * o_elTg, double * o_int, size_t * o_nGroupEls, unsigned short * o_nGroups,
                  size_t i_first, size_t i_num, size_t * o_part, double * o_loads ) {
  time::Groups l_gr( ty(i_ty), i_n, i_elFaEl, i_nRates, i_rates, i_funDt, i_ts );
  o_nGroups[0] = l_gr.nGroups();
  for( size_t l_el = 0; l_el < i_n; l_el++ ) o_elTg[l_el] = l_gr.getElTg()[l_el];
  for( unsigned short l_tg = 0; l_tg < i_nRates+2; l_tg++ ) o_int[l_tg] = l_gr.getTsIntervals()[l_tg];
  for( unsigned short l_tg = 0; l_tg < i_nRates+1; l_tg++ ) o_nGroupEls[l_tg] = l_gr.nGroupEls()[l_tg];
  l_gr.nGroupEls( i_first, i_num, o_part );
  for( int l_lo = 0; l_lo < 4; l_lo++ ) o_loads[l_lo] = l_gr.m_loads[l_lo];
}
