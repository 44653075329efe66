#include "vp.h"
#include <algorithm>
#define private public
#define protected public
#include "mesh/Communication.cpp"
#include "mesh/Partition.h"
using namespace edge_v;
#undef private

static t_entityType ty( int i_ty ) {
  return i_ty == 0 ? LINE : ( i_ty == 1 ? TRIA3 : ( i_ty == 2 ? QUAD4R : ( i_ty == 3 ? TET4 : HEX8R ) ) );
}
VP bool w_isComm( int i_ty, size_t i_n, size_t i_el, size_t const * i_elFaEl, size_t const * i_elPa ) {
  return mesh::Communication::isComm( ty(i_ty), i_el, i_elFaEl, i_elPa );
}
// i_fc, i_cm, i_nPas: ghosts (not read by the code)
VP void w_getPaElComm( int i_ty, size_t i_n, size_t i_nPas, size_t const * i_elFaEl, size_t const * i_elPa, unsigned char const * i_cm, size_t const * i_fc, size_t * o_first, size_t * o_size ) {
  mesh::Communication::getPaElComm( ty(i_ty), i_n, i_elFaEl, i_elPa, o_first, o_size );
}
VP void w_nElsInSe( int i_ty, size_t i_nPas, unsigned short i_nTgs, size_t i_n, size_t const * i_elFaEl, size_t const * i_elPa, unsigned char const * i_cm, unsigned short const * i_elTg,
                    size_t * o_in, size_t * o_se ) {
  mesh::Communication::nElsInSe( ty(i_ty), i_nPas, i_nTgs, i_n, i_elFaEl, i_elPa, i_elTg, o_in, o_se );
}
VP void w_dual( int i_ty, size_t i_n, size_t i_nAd, size_t const * i_elFaEl, unsigned short const * i_elTg, long * o_xadj, long * o_adjncy, long * o_vwgt, long * o_adjwgt ) {
  mesh::Partition::getDualGraph( ty(i_ty), i_n, i_elFaEl, o_xadj, o_adjncy );
  mesh::Partition::getWeights( ty(i_ty), i_n, o_xadj[i_n], i_elFaEl, i_elTg, o_vwgt, o_adjwgt );
}
