#include "vp.h"
#define private public
#include "geom/Generic.cpp"
#include "geom/Line.cpp"
#include "geom/Tria3.cpp"
#include "geom/Quad4r.cpp"
#include "geom/Hex8r.cpp"
#include "geom/Tet4.cpp"
#include "geom/Geom.cpp"
using namespace edge_v;
typedef double const (*Crds)[3];
static t_entityType ty( int i_ty ) {
  return i_ty == 0 ? LINE : ( i_ty == 1 ? TRIA3 : ( i_ty == 2 ? QUAD4R : ( i_ty == 3 ? TET4 : HEX8R ) ) );
}
VP double w_vol( int i_ty, double const * i_crds ) { return geom::Geom::volume( ty(i_ty), (Crds) i_crds ); }
// i_e*: ghost (extents)
VP double w_volx( int i_ty, double const * i_crds, double i_e0, double i_e1, double i_e2 ) { return geom::Geom::volume( ty(i_ty), (Crds) i_crds ); }
VP double w_diax( int i_ty, double const * i_crds, double i_e0, double i_e1, double i_e2 ) { return geom::Geom::inDiameter( ty(i_ty), (Crds) i_crds ); }
VP double w_dia( int i_ty, double const * i_crds ) { return geom::Geom::inDiameter( ty(i_ty), (Crds) i_crds ); }
VP void w_cen( int i_ty, double const * i_crds, double * o_cen ) { geom::Geom::centroid( ty(i_ty), (Crds) i_crds, o_cen ); }
VP void w_nrm( int i_ty, double const * i_crds, double const * i_pt, double * o_n, double * o_t ) {
  geom::Geom::normal( ty(i_ty), (Crds) i_crds, i_pt, o_n );
  geom::Geom::tangents( ty(i_ty), (Crds) i_crds, i_pt, (double (*)[3]) o_t );
}
VP void w_norm( int i_ty, double const * i_crds, size_t * io_ve, size_t * io_fa, size_t * io_el ) {
  geom::Geom::normVesFas( ty(i_ty), (Crds) i_crds, io_ve, io_fa, io_el );
}
VP void w_faIdsAd( int i_ty, size_t i_nFas, size_t i_elOff, size_t const * i_el, unsigned short const * i_fa, size_t const * i_elFaEl, unsigned short * o_ids, size_t i_nEls ) {
  geom::Geom::getFaIdsAd( ty(i_ty), i_nFas, i_elOff, i_el, i_fa, i_elFaEl, o_ids );
}
// without coordinates (no periodic boundaries)
VP void w_veIdsAd( int i_ty, size_t i_nFas, size_t i_elOff, size_t const * i_el, unsigned short const * i_fa, size_t const * i_elVe, size_t const * i_elFaEl,
                   unsigned short * o_ids, size_t i_nEls ) {
  geom::Geom::getVeIdsAd( ty(i_ty), i_nFas, i_elOff, i_el, i_fa, i_elVe, i_elFaEl, nullptr, o_ids );
}
// with coordinates (periodic boundaries)
VP void w_veIdsAdP( int i_ty, size_t i_nFas, size_t i_elOff, size_t const * i_el, unsigned short const * i_fa, size_t const * i_elVe, size_t const * i_elFaEl,
                    double const * i_crds, unsigned short * o_ids, size_t i_nEls, size_t i_nVes ) {
  geom::Geom::getVeIdsAd( ty(i_ty), i_nFas, i_elOff, i_el, i_fa, i_elVe, i_elFaEl, (Crds) i_crds, o_ids );
}
