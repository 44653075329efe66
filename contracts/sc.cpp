// Sub-cell limiter: detection, projections, local Lax-Friedrichs solver, super-cells, steering of the buffers
#include "vp.h"
#define private public
#define protected public
#include "constants.hpp"
#include "io/logging.h"
#include "data/Dynamic.h"
#include "data/MmVanilla.hpp"
#include "linalg/Matrix.h"
#include "impl/seismic/common.hpp"
#include "sc/Detections.hpp"
#include "sc/Kernels.hpp"
#include "sc/Steering.hpp"
#include "sc/SubGrid.hpp"
#include "sc/ibnd/SuperCell.type"
#include "sc/ibnd/SuperCell.hpp"
// not used by the functions under contract
namespace edge { namespace linalg { struct Geom { template< typename... T > static void sfAdd( T... ); }; } }
#define EDGE_LINALG_GEOM_HPP
#include "impl/seismic/sc/Llf.hpp"
#undef private
#undef protected
using namespace edge;
typedef double R;
typedef unsigned short U;
typedef int LID;
static constexpr t_entityType EL = T_SDISC.ELEMENT;
static constexpr U O = PP_ORDER, CR = N_CRUNS, Q = N_QUANTITIES, D = C_ENT[EL].N_DIM, F = C_ENT[EL].N_FACES, M = CE_N_ELEMENT_MODES( EL, O ), S = CE_N_SUB_CELLS( EL, O ),
  SF = CE_N_SUB_FACES( EL, O ), VF = C_ENT[EL].N_FACE_VERTICES, V = C_ENT[EL].N_VERTICES, G = S + F*SF;
typedef sc::Kernels< EL, O, Q, CR > Ker;
typedef sc::Detections< EL, Q, CR > Det;
typedef seismic::sc::Llf< R, EL, O, CR > Llf;
typedef R TE[Q][M][CR];
typedef R TS[Q][S][CR];
typedef R TF[Q][SF][CR];
typedef R TG[Q][G][CR];
typedef R X[2][Q][CR];
typedef R E[Q][CR];

// matrix kernels: extracted from sc/init.inc
struct Internal { data::MmVanilla< R > m_mm; };
static void mm( Internal & l_internal ) {
#include "sc_init.inc"
}

VP void w_dmpv( R const * cur, R const * ad, R const * can, U n, LID nEl, LID const * ve, bool * adm ) { Det::dmpVe( *(X const*) cur, (X const*) ad, *(X const*) can, n, ve, adm ); }
VP void w_dmpf( R const * cur, R const * ad, R const * can, LID nEl, LID const * fa, bool * adm ) { Det::dmpFa( *(X const*) cur, (X const*) ad, *(X const*) can, fa, adm ); }

VP void w_sca( R const * dg, R const * mat, R * o ) { Internal k; mm( k ); Ker::scatter( k.m_mm, *(TE const*) dg, (R const (*)[S]) mat, *(TS*) o ); }
VP void w_scf( R const * dg, R const * mat, R * o ) { Internal k; mm( k ); Ker::scatterFa( k.m_mm, *(TE const*) dg, (R const (*)[SF]) mat, *(TF*) o ); }
VP void w_rep( R const * dg, R const * mat, R const * sc, bool const * adm, R * o ) { Internal k; mm( k ); Ker::scatterReplace( k.m_mm, *(TE const*) dg, (R const (*)[S]) mat, *(TS const*) sc, adm, *(TS*) o ); }
VP void w_ref( bool has, R const * dg, R const * mat, R const * sc, bool const * adm, R * o ) {
  Internal k; mm( k );
  Ker::scatterReplaceFa( k.m_mm, *(TE const*) dg, (R const (*)[SF]) mat, *(TF const*) sc, has ? adm : nullptr, *(TF*) o );
}
VP void w_gat( R const * sc, R const * mat, R * o ) { Internal k; mm( k ); Ker::gather( k.m_mm, *(TS const*) sc, (R const (*)[M]) mat, *(TE*) o ); }
VP void w_sfi( R const * fl, R const * mat, R * o ) { Internal k; mm( k ); Ker::sfInt( k.m_mm, *(TF const*) fl, (R const (*)[M]) mat, *(TE*) o ); }
VP void w_gsf( R const * sc, U const * faSc, U const * ad, U const * vId, bool const * adm, R * o ) {
  TF * p[F];
  for( U f = 0; f < F; f++ ) p[f] = (f == 1) ? nullptr : ((TF*) o)+f; // face 1: not required
  Ker::gatherSurfDofs( *(TS const*) sc, (U const (*)[SF]) faSc, (U const (*)[SF]) ad, vId, p, adm );
}
VP void w_ext( R const * sc, R * mi, R * ma ) { Ker::scExtrema( *(TS const*) sc, *(E*) mi, *(E*) ma ); }
VP void w_dge( R const * dg, R const * mat, R * sc, R * mi, R * ma ) { Internal k; mm( k ); Ker::dgExtrema( k.m_mm, *(TE const*) dg, (R const (*)[S]) mat, *(TS*) sc, *(E*) mi, *(E*) ma ); }

struct Sv { R coords[D]; };
static constexpr U SV = CE_N_SUB_VERTICES( EL, O );
VP LID w_pts( R const * pt, LID const * scSv, R const * crds ) { return sc::SubGrid< EL, O >::ptSc( pt, (LID const (*)[V]) scSv, (Sv const*) crds ); }

#ifdef PP_T_EQUATIONS_SEISMIC
VP bool w_ids( U ty, U * o ) { return Llf::llfIds( ty, o ); }
VP void w_cen( R const * mat, R const * n, R const * t0, R const * t1, R * o ) { seismic::sc::LlfSolver< D >::centralL( mat, n, t0, t1, (R (*)[Q]) o ); }
// right-handed orthonormal bases, given by a quaternion
VP void w_ceq( R const * mat, R const * q, R * n, R * t0, R * t1, R * o ) {
  R a = q[0], b = q[1], c = q[2], d = q[3], s = a*a + b*b + c*c + d*d;
  n[0]  = (a*a + b*b - c*c - d*d) / s; n[1]  = 2*(b*c + a*d) / s;             n[2]  = 2*(b*d - a*c) / s;
  t0[0] = 2*(b*c - a*d) / s;           t0[1] = (a*a - b*b + c*c - d*d) / s;   t0[2] = 2*(c*d + a*b) / s;
  t1[0] = 2*(b*d + a*c) / s;           t1[1] = 2*(c*d - a*b) / s;             t1[2] = (a*a - b*b - c*c + d*d) / s;
  seismic::sc::LlfSolver< D >::centralL( mat, n, t0, t1, (R (*)[Q]) o );
}
static constexpr U NS = Llf::TL_N_TYSF + F;
VP void w_tss( R dt, LID nLp, LID lp, U const * scSc, U const * ty, bool const * nu, R const * cen, R const * vis, R const * i, R * o ) {
  Llf l;
  l.m_cen = (R (*)[NS][Q][Q]) cen;
  l.m_vis = (R (*)[NS]) vis;
  l.tsSc( dt, lp, (U const (*)[F]) scSc, (U const (*)[F]) ty, nu, *(TG const*) i, *(TS*) o );
}
VP void w_nuf( R dt, LID nLp, LID lp, U fa, R const * cen, R const * vis, R * i, R * o ) {
  Llf l;
  l.m_cen = (R (*)[NS][Q][Q]) cen;
  l.m_vis = (R (*)[NS]) vis;
  l.nuFaSf( dt, lp, fa, (TF*) i, *(TF*) o );
}
#endif
VP void w_sup( U const * st, R * io ) { sc::ibnd::SuperCell< EL, O, Q, CR >::applyFa( *(sc::ibnd::t_stCol< EL, O > const*) st, *(TS*) io ); }

VP void w_aid( std::size_t n, U * o ) { sc::Steering::getAdmIds( n, o ); }
VP void w_eid( std::size_t n, U * o ) { sc::Steering::getExtIds( n, o ); }
VP void w_did( std::size_t n, U * o ) { sc::Steering::getDofsIds( n, o ); }
// identities of the buffers after the reset (and the swaps of a number of time steps)
VP void w_rad( std::size_t n, U * o ) {
  static bool b[4][CR];
  bool (*p[4])[CR] = { &b[0], &b[1], &b[2], &b[3] };
  sc::Steering::resetAdm< std::size_t, CR >( n, p );
  for( U i = 0; i < 4; i++ ) o[i] = (p[i] == &b[0]) ? 0 : (p[i] == &b[1]) ? 1 : (p[i] == &b[2]) ? 2 : (p[i] == &b[3]) ? 3 : 9;
}
VP void w_rdo( std::size_t n, U * o ) {
  static TF * b[2][F];
  TF * (*p[2])[F] = { &b[0], &b[1] };
  sc::Steering::resetDofs< std::size_t, R, F, SF, Q, CR >( n, p );
  for( U i = 0; i < 2; i++ ) o[i] = (p[i] == &b[0]) ? 0 : (p[i] == &b[1]) ? 1 : 9;
}
VP void w_rex( std::size_t n, U * o ) {
  static X b[2];
  X * p[2] = { &b[0], &b[1] };
  sc::Steering::resetExt< std::size_t, R, Q, CR >( n, p );
  for( U i = 0; i < 2; i++ ) o[i] = (p[i] == &b[0]) ? 0 : (p[i] == &b[1]) ? 1 : 9;
}
VP void w_rls( LID first, LID size, LID nLp, LID nLi, LID const * li, unsigned int * s ) { sc::Steering::resetLimSync( first, size, li, (unsigned int (*)[CR]) s ); }
