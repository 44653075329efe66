// Reference coordinates, physical coordinates and faces of the elements
#include "vp.h"
#define private public
#include "constants.hpp"
#include "linalg/Mappings.hpp"
#include "linalg/Matrix.h"
using namespace edge;
using namespace edge::linalg;
#define EL( NM, TY, ND, NV, NF, NDF )                                                                   \
VP void w_refToPhy_##NM( double const * ves, double const * xi, double * o ) { Mappings::refToPhy( TY, ves, xi, o ); } \
VP void w_jac_##NM( double const * ves, double const * xi, double * o ) { Mappings::evalJac( TY, ves, o ); } \
VP void w_face_##NM( double const * pt, double * o ) {                                                  \
  for( unsigned short fa = 0; fa < NF; fa++ ) Mappings::faToVolRef( fa, TY, pt, o + fa*ND );            \
}
#define EI( NM, TY, ND )                                                                                \
VP void w_phyToRef_##NM( double const * ves, double const * x, double * xi, double * y ) {              \
  Mappings::phyToRef( TY, ves, x, xi );                                                                 \
  Mappings::refToPhy( TY, ves, (double const *) xi, y );                                                \
}                                                                                                       \
VP void w_refToPhyToRef_##NM( double const * ves, double const * xi, double * x, double * y ) {         \
  Mappings::refToPhy( TY, ves, xi, x );                                                                 \
  Mappings::phyToRef( TY, ves, (double const *) x, y );                                                 \
}
EL( line, LINE, 1, 2, 2, 1 )
EL( quad4r, QUAD4R, 2, 4, 4, 1 )
EL( tria3, TRIA3, 2, 3, 3, 1 )
EL( hex8r, HEX8R, 3, 8, 6, 2 )
EL( tet4, TET4, 3, 4, 4, 2 )
EI( quad4r, QUAD4R, 2 )
EI( tria3, TRIA3, 2 )
EI( hex8r, HEX8R, 3 )
EI( tet4, TET4, 3 )
// the same point of a face, seen from the two adjacent elements
#define NE( NM, TY, ND, NV )                                                                            \
VP void w_nei_##NM( unsigned short faL, unsigned short faN, unsigned short ve, double const * vesL, double const * vesN, double const * pt, double * xL, double * xN ) { \
  double n[2], v[3];                                                                                    \
  Mappings::faLocToFaNei( TY, pt, n, ve );                                                              \
  Mappings::faToVolRef( faL, TY, pt, v );                                                               \
  Mappings::refToPhy( TY, vesL, (double const *) v, xL );                                               \
  Mappings::faToVolRef( faN, TY, (double const *) n, v );                                               \
  Mappings::refToPhy( TY, vesN, (double const *) v, xN );                                               \
}
NE( quad4r, QUAD4R, 2, 4 )
NE( tria3, TRIA3, 2, 3 )
NE( hex8r, HEX8R, 3, 8 )
NE( tet4, TET4, 3, 4 )
VP void w_mapFace( t_entityType ty, unsigned short faL, unsigned short faN, double const * pt, double * o, double p, double q ) {
  Mappings::mapFaceCoords( ty, faL, faN, 0, pt[0], pt[1], pt[2], o[0], o[1], o[2] );
}
VP double w_det2( double const * m ) { return Matrix::det( (double const (*)[2]) m ); }
VP double w_det3( double const * m ) { return Matrix::det( (double const (*)[3]) m ); }
VP double w_det4( double const * m ) { return Matrix::det( (double const (*)[4]) m ); }
VP void w_inv2( double const * m, double * o ) { Matrix::inv( (double const (*)[2]) m, (double (*)[2]) o ); }
VP void w_inv3( double const * m, double * o ) { Matrix::inv( (double const (*)[3]) m, (double (*)[3]) o ); }
