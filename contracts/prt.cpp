#include "vp.h"
#include <algorithm>
#define private public
#include "mesh/Partition.cpp"
using namespace edge_v;
#ifdef VP_NATIVE
extern "C" int METIS_SetDefaultOptions( idx_t * ) { vp_abort(); return 0; }
extern "C" int METIS_PartGraphKway( idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, idx_t *, real_t *, real_t *, idx_t *, idx_t *, idx_t * ) { vp_abort(); return 0; }
#endif
static t_entityType ty( int i_ty ) {
  return i_ty == 0 ? LINE : ( i_ty == 1 ? TRIA3 : ( i_ty == 2 ? QUAD4R : ( i_ty == 3 ? TET4 : HEX8R ) ) );
}
// i_nPas: ghost
VP void w_nPaEls( size_t i_n, size_t i_nPas, size_t const * i_elPa, size_t i_last, size_t * o_n ) {
  mesh::Partition::nPaEls( i_n, i_elPa, o_n );
}
VP void w_getElPr( int i_ty, int i_tg, size_t i_n, size_t const * i_elFaEl, size_t const * i_elPa, unsigned char const *, unsigned short const * i_elTg, size_t * o_pr, size_t i_mx ) {
  mesh::Partition::getElPr( ty(i_ty), i_n, i_elFaEl, i_elPa, i_tg ? i_elTg : nullptr, o_pr );
}
