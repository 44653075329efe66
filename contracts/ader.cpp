// ADER-DG kernels of the elastic/viscoelastic wave equations (VP_ADV: of the advection equation)
#include "vp.h"
#define private public
#define protected public
#include "constants.hpp"
#ifdef VP_ADV
#include "impl/advection/kernels/VolInt.hpp"
#include "impl/advection/kernels/TimePred.hpp"
#include "impl/advection/kernels/SurfInt.hpp"
#else
#include "impl/seismic/kernels/VolIntVanilla.hpp"
#include "impl/seismic/kernels/TimePredVanilla.hpp"
#include "impl/seismic/kernels/SurfIntVanilla.hpp"
#endif
#undef private
#undef protected
using namespace edge;
typedef double R;
static constexpr t_entityType EL = T_SDISC.ELEMENT;
static constexpr unsigned short O = PP_ORDER, CR = VP_CR, D = C_ENT[EL].N_DIM, F = C_ENT[EL].N_FACES, M = CE_N_ELEMENT_MODES( EL, O ), MF = CE_N_ELEMENT_MODES( C_ENT[EL].TYPE_FACES, O ),
  NF = CE_N_FLUXN_MATRICES( EL );

// tables of the preprocessing tool: arguments of the wrappers (assumed: sizes match the element and order)
namespace edge { namespace pre { namespace dg {
  double const * g_massRaw; double const * g_stiffVRaw; double const * g_stiffTRaw; double const * g_fluxLRaw; double const * g_fluxNRaw; double const * g_fluxTRaw;
  extern std::size_t const g_massSize, g_stiffVSize, g_stiffTSize, g_fluxLSize, g_fluxNSize, g_fluxTSize;
  std::size_t const g_massSize = M*M, g_stiffVSize = D*M*M, g_stiffTSize = D*M*M, g_fluxLSize = F*M*MF, g_fluxNSize = NF*M*MF, g_fluxTSize = F*M*MF;
} } }
// the constructor computes quadrature data only (not used by the kernels)
edge::dg::Basis::Basis( t_entityType i_entityType, unsigned short i_order ): m_entType( i_entityType ), m_order( i_order ) {}
// assumed: memory management returns fresh memory
void * edge::data::Dynamic::allocate( std::size_t i_size, std::size_t, bool, bool ) { return ::operator new( i_size ); }
edge::data::Dynamic::~Dynamic() {}

static void flux( R const * fl, R const * fn, R const * ft ) { pre::dg::g_fluxLRaw = fl; pre::dg::g_fluxNRaw = fn; pre::dg::g_fluxTRaw = ft; }
static void stiff( R const * v, R const * t ) { pre::dg::g_stiffVRaw = v; pre::dg::g_stiffTRaw = t; }

#ifndef VP_ADV
static constexpr unsigned short QE = CE_N_QTS_E( D ), QM = CE_N_QTS_M( D ), RM = VP_RM;
typedef seismic::kernels::VolIntVanilla< R, RM, EL, O, CR > Vol;
typedef seismic::kernels::TimePredVanilla< R, RM, EL, O, O, CR > Tim;
typedef seismic::kernels::SurfIntVanilla< R, RM, EL, O, CR > Sur;
typedef seismic::kernels::TimePred< R, RM, EL, O, O, CR > TimB;
typedef R TE[QE][M][CR];
typedef R TA[QM][M][CR];
typedef R FE[QE][MF][CR];
VP void w_vol( R const * sE, R const * sA, R const * so, R const * rf, R const * st, R const * tE, R const * tA, R * dE, R * dA, R * scr ) {
  stiff( st, nullptr );
  data::Dynamic l_mem;
  Vol k( rf, l_mem );
  k.apply( (R const (*)[Vol::TL_N_ENS_STAR_E]) sE, (R const (*)[Vol::TL_N_ENS_STAR_A]) sA, (R const (*)[Vol::TL_N_ENS_SRC_A]) so, *(TE const*) tE, (TA const*) tA, *(TE*) dE, (TA*) dA, *(TE*) scr );
}
VP void w_tim( R dt, R const * sE, R const * sA, R const * so, R const * rf, R const * st, R const * qE, R const * qA, R * scr, R * eE, R * eA, R * iE, R * iA ) {
  stiff( nullptr, st );
  data::Dynamic l_mem;
  Tim k( rf, l_mem );
  k.ck( dt, (R const (*)[Vol::TL_N_ENS_STAR_E]) sE, (R const (*)[Vol::TL_N_ENS_STAR_A]) sA, (R const (*)[Vol::TL_N_ENS_SRC_A]) so,
        *(TE const*) qE, (TA const*) qA, *(TE*) scr, (TE*) eE, (TA (*)[O]) eA, *(TE*) iE, (TA*) iA );
}
VP void w_tin( R dt, R const * eE, R * iE ) { TimB::integrate( dt, (TE const*) eE, *(TE*) iE ); }
VP void w_tev( unsigned short n, R const * pt, R const * eE, R * o ) { TimB::evalTimePrediction( n, pt, (TE const*) eE, (TE*) o ); }
VP void w_loc( R const * sE, R const * sA, R const * rf, R const * fl, R const * fn, R const * ft, R const * tE, R * dE, R * dA, R * scr ) {
  flux( fl, fn, ft );
  data::Dynamic l_mem;
  Sur k( rf, l_mem );
  k.local( (R const (*)[Sur::TL_N_ENS_FS_E]) sE, (R const (*)[Sur::TL_N_ENS_FS_A]) sA, *(TE const*) tE, *(TE*) dE, (TA*) dA, (FE*) scr );
}
// pre: the face-integrated DOFs of the neighbor are given
VP void w_nei( unsigned short fa, unsigned short vId, unsigned short fId, bool pre, R const * sE, R const * sA, R const * rf, R const * fl, R const * fn, R const * ft, R const * tE, R const * tF,
               R * dE, R * up, R * scr ) {
  flux( fl, fn, ft );
  data::Dynamic l_mem;
  Sur k( rf, l_mem );
  if( pre ) k.neigh( fa, vId, fId, sE, sA, nullptr, *(FE const*) tF, *(TE*) dE, *(TA*) up, (FE*) scr );
  else      k.neigh( fa, vId, fId, sE, sA, *(TE const*) tE, nullptr, *(TE*) dE, *(TA*) up, (FE*) scr );
}
VP void w_nfi( unsigned short fa, unsigned short vId, unsigned short fId, R const * rf, R const * fl, R const * fn, R const * ft, R const * tE, R * o ) {
  flux( fl, fn, ft );
  data::Dynamic l_mem;
  Sur k( rf, l_mem );
  k.neighFluxInt( fa, vId, fId, *(TE const*) tE, *(FE*) o );
}
VP void w_sca( R const * rf, R const * fl, R const * fn, R const * ft, R const * up, R * dA ) {
  flux( fl, fn, ft );
  data::Dynamic l_mem;
  Sur k( rf, l_mem );
  k.scatterUpdateA( *(TA const*) up, (TA*) dA );
}
#else
typedef R T1[M][CR];
VP void w_vol( R const * sE, R const * st, R const * tE, R * dE ) {
  stiff( st, nullptr );
  data::Dynamic l_mem;
  advection::kernels::VolInt< R, EL, O, CR > k( l_mem );
  k.apply( sE, (T1 const*) tE, (T1*) dE );
}
VP void w_tim( R dt, R const * sE, R const * st, R const * qE, R * eE, R * iE ) {
  stiff( nullptr, st );
  data::Dynamic l_mem;
  advection::kernels::TimePred< R, EL, O, O, CR > k( l_mem );
  k.ck( dt, sE, *(T1 const*) qE, (T1*) eE, *(T1*) iE );
}
VP void w_tin( R dt, R * eE, R * iE ) { advection::kernels::TimePred< R, EL, O, O, CR >::integrate( dt, (T1*) eE, *(T1*) iE ); }
VP void w_loc( R const * sE, R const * fl, R const * fn, R const * ft, R const * tE, R * dE ) {
  flux( fl, fn, ft );
  data::Dynamic l_mem;
  advection::kernels::SurfInt< R, EL, O, CR > k( l_mem );
  k.local( sE, (T1 const*) tE, (T1*) dE );
}
VP void w_nei( unsigned short fa, unsigned short vId, unsigned short fId, R sE, R const * fl, R const * fn, R const * ft, R const * tE, R * dE ) {
  flux( fl, fn, ft );
  data::Dynamic l_mem;
  advection::kernels::SurfInt< R, EL, O, CR > k( l_mem );
  k.neigh( fa, vId, fId, sE, (T1 const*) tE, (T1*) dE );
}
#endif
