// B01: particle boundary handlers and emitters (src/boundary, src/emitter)
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include <string>
#include <vector>
#define IN_boundary
#define IN_emitter
#include "boundary/absorb_tally.cc"
#include "boundary/maxwellian_reflux.cc"
#include "boundary/boundary.cc"
#include "emitter/child_langmuir.cc"
#include "emitter/emitter.cc"

extern "C" int
spec_absorb( absorb_tally_t * at, species_t * sp, particle_t * p, particle_mover_t * pm, particle_injector_t * pi, int max_pi, int face ) {
  at->tally[ sp->id ] += 1;
  accumulate_rhob( at->fa->f, p, at->fa->g, sp->q );
  return 0;
}

// faces 0 1 2 are -x -y -z, faces 3 4 5 are +x +y +z; the parallel momentum points inwards, flux weighted;
// the two momenta along the face are normal; the rest of the step is travelled at the new velocity
extern "C" int
spec_reflux( maxwellian_reflux_t * mr, species_t * sp, particle_t * p, particle_mover_t * pm, particle_injector_t * pi, int max_pi, int face ) {
  const grid_t * g = sp->g;
  int id = sp->id, a = face%3;
  float sgn = face<3 ? 1.4142135623730950488016887242096981 : -1.4142135623730950488016887242096981, para, perp1, perp2, u[3];
  para    = mr->ut_para[id]*sgn*sqrtf( frande( mr->rng ) );
  perp1   = mr->ut_perp[id]*frandn( mr->rng );
  perp2   = mr->ut_perp[id]*frandn( mr->rng );
  u[a] = para; u[(a+1)%3] = perp1; u[(a+2)%3] = perp2;
  float sx = g->dx*pm->dispx, sy = g->dy*pm->dispy, sz = g->dz*pm->dispz;
  float u2 = p->ux*p->ux + p->uy*p->uy + p->uz*p->uz;                 // distance left over distance per unit of new momentum
  float r  = sqrtf( ( ( 1+u2 )*( sx*sx + sy*sy + sz*sz ) )/( ( 1+( u[0]*u[0]+u[1]*u[1]+u[2]*u[2] ) )*( FLT_MIN+u2 ) ) );
  pi->dx = p->dx; pi->dy = p->dy; pi->dz = p->dz; pi->i = p->i; pi->w = p->w; pi->sp_id = id;
  pi->ux = u[0]; pi->uy = u[1]; pi->uz = u[2];
  pi->dispx = u[0]*r*g->rdx; pi->dispy = u[1]*r*g->rdy; pi->dispz = u[2]*r*g->rdz;
  return 1;
}

extern "C" void
spec_set_reflux( particle_bc_t * b, const species_t * sp, float para, float perp ) {
  maxwellian_reflux_t * mr = (maxwellian_reflux_t *)b->params;
  mr->ut_para[ sp->id ] = para; mr->ut_perp[ sp->id ] = perp;
}

extern "C" void spec_emitters( emitter_t * e ) { for( ; e; e=e->next ) e->emit( e->params, e->component, e->n_component ); }

// emission from one face: axis a of normal, sgn the inward direction
static inline float &       U( particle_t & p, int a ) { return a==0 ? p.ux : a==1 ? p.uy : p.uz; }
static inline float &       X( particle_t & p, int a ) { return a==0 ? p.dx : a==1 ? p.dy : p.dz; }
static __attribute__((always_inline)) inline void
face( child_langmuir_t * cl, int i, int a, float sgn, float norm, int & np, int & nm ) {
  species_t * sp = cl->sp; grid_t * g = sp->g; field_t * f = cl->fa->f; accumulator_t * aa = cl->aa->a;
  const float rd[3] = { g->rdx, g->rdy, g->rdz };
  const int b = (a+1)%3, c = (a+2)%3;
  float e = a==0 ? cl->ia->i[i].ex : a==1 ? cl->ia->i[i].ey : cl->ia->i[i].ez;
  float q = sp->q; 
  if( ( sgn>0 ? q : -q )*e > fabsf( q )*cl->thresh_e_norm ) {
    float w = norm*sqrtf( fabsf( e*e*e ) );
    for( int k=cl->n_emit_per_face; k; k-- ) {
      if( np>=sp->max_np ) continue;
      float u[3];
      u[a] = ( sgn>0 ? cl->ut_para : -cl->ut_para )*sqrtf( 2*frande( cl->rng ) );
      u[b] = cl->ut_perp*frandn( cl->rng );
      u[c] = cl->ut_perp*frandn( cl->rng );
      particle_t & p = sp->p[np];
      X( p, a ) = -sgn; X( p, b ) = 2*frand_c0( cl->rng )-1; X( p, c ) = 2*frand_c0( cl->rng )-1;
      p.i = i; p.ux = u[0]; p.uy = u[1]; p.uz = u[2]; p.w = w;
      accumulate_rhob( f, &p, g, -q );
      np++;
      if( nm>=sp->max_nm ) continue;
      float t = ( frand_c0( cl->rng )*( g->cvac*g->dt ) )/sqrtf( ( u[a]*u[a] + u[b]*u[b] ) + ( u[c]*u[c] + 1 ) );    // the age: up to one step
      particle_mover_t m[1];
      m->dispx = t*u[0]*rd[0]; m->dispy = t*u[1]*rd[1]; m->dispz = t*u[2]*rd[2]; m->i = np-1;
      if( move_p( sp->p, m, aa, g, q ) ) { sp->pm[nm] = m[0]; nm++; }
    }
  }
}

extern "C" void
spec_child_langmuir( child_langmuir_t * cl, const int * component, int n ) {
  species_t * sp = cl->sp; grid_t * g = sp->g;
  float norm = ( cl->norm*g->eps0*g->dt )/( sqrtf( fabsf( sp->q*sp->m ) )*(float)cl->n_emit_per_face );
  float nx = norm*sqrtf( g->rdx )*g->dy*g->dz, ny = norm*sqrtf( g->rdy )*g->dz*g->dx, nz = norm*sqrtf( g->rdz )*g->dx*g->dy;
  int np = sp->np, nm = sp->nm;
  for( int c=0; c<n; c++ ) {
    int cc = component[c], i = cc>>5;
    switch( cc & 31 ) {
    case 12: face( cl, i, 0, +1, nx, np, nm ); break;
    case 10: face( cl, i, 1, +1, ny, np, nm ); break;
    case  4: face( cl, i, 2, +1, nz, np, nm ); break;
    case 14: face( cl, i, 0, -1, nx, np, nm ); break;
    case 16: face( cl, i, 1, -1, ny, np, nm ); break;
    case 22: face( cl, i, 2, -1, nz, np, nm ); break;
    default: break;
    }
  }
  sp->np = np; sp->nm = nm;
}

#include "native.h"
#ifndef __clang__
ALLOCATORS
extern "C" {
void checkpt_data( const void *, size_t, size_t, size_t, size_t, size_t ) {}
void * restore_data( void ) { return 0; }
}
static particle_t * P0; static int draws;
static std::string part( const particle_t * p ) { char b[400]; snprintf( b, 400, "{%.7e %.7e %.7e i=%i %.7e %.7e %.7e %.7e}", p->dx, p->dy, p->dz, p->i, p->ux, p->uy, p->uz, p->w ); return b; }
static std::string mov( const particle_mover_t * p ) { char b[300]; snprintf( b, 300, "{%.7e %.7e %.7e i=%i}", p->dispx, p->dispy, p->dispz, p->i ); return b; }
float frande( rng_t * ) { logf_( "frande" ); return rdbl( 0, 3 ); }
float frandn( rng_t * ) { logf_( "frandn" ); return rdbl( -2, 2 ); }
float frand_c0( rng_t * ) { logf_( "frand_c0" ); return rdbl( 0, 1 ); }
void accumulate_rhob( field_t * f, const particle_t * p, const grid_t * g, const float qsp ) { logf_( "accumulate_rhob %s %.7e", part( p ).c_str(), qsp ); }
int move_p( particle_t * p, particle_mover_t * pm, accumulator_t * a, const grid_t * g, const float qsp ) { logf_( "move_p %i %s %s %.7e", p==P0, mov( pm ).c_str(), part( p+pm->i ).c_str(), qsp ); pm->dispx = rdbl( -1, 1 ); return rnd()%2; }
int num_species( const species_t * ) { return 4; }
static std::vector<std::string> once( unsigned seed, int spec ) {
  LOG.clear(); rs_ = seed*2654435761ull + 991; for( int i=0; i<4; i++ ) rnd();
  grid_t * g = fresh_<grid_t>(); field_array_t * fa = fresh_<field_array_t>(); fa->g = g; fa->f = fresh_<field_t>();
  g->dt = rdbl( .1, 1 ); g->cvac = rdbl( .5, 2 ); g->eps0 = rdbl( .5, 2 ); g->dx = rdbl( .2, 2 ); g->dy = rdbl( .2, 2 ); g->dz = rdbl( .2, 2 ); g->rdx = 1/g->dx; g->rdy = 1/g->dy; g->rdz = 1/g->dz;
  species_t * sp = fresh_<species_t>(); sp->id = rint_( 0, 3 ); sp->q = rdbl( -2, 2 ); sp->m = rdbl( .1, 2 ); sp->g = g; sp->max_np = rint_( 4, 16 ); sp->max_nm = rint_( 2, 8 ); sp->np = rint_( 0, 3 ); sp->nm = rint_( 0, 2 );
  sp->p = P0 = fresh_<particle_t>( 20 ); sp->pm = fresh_<particle_mover_t>( 20 );
  int kind = rnd()%4; logf_( "case %i", kind );
  if( kind==0 ) {
    absorb_tally_t * at = fresh_<absorb_tally_t>(); at->fa = fa; at->tally = fresh_<int>( 4 ); particle_t * p = fresh_<particle_t>(); p->w = rdbl( 0, 2 );
    logf_( "returns %i", spec ? spec_absorb( at, sp, p, 0, 0, 10, rint_( 0, 5 ) ) : interact_absorb_tally( at, sp, p, 0, 0, 10, rint_( 0, 5 ) ) );
    for( int i=0; i<4; i++ ) logf_( "tally %i", at->tally[i] );
  } else if( kind==1 ) {
    maxwellian_reflux_t * mr = fresh_<maxwellian_reflux_t>(); mr->ut_para = fresh_<float>( 4 ); mr->ut_perp = fresh_<float>( 4 );
    particle_bc_t * b = fresh_<particle_bc_t>(); b->params = mr;
    for( int i=0; i<4; i++ ) { mr->ut_para[i] = rdbl( 0, 2 ); mr->ut_perp[i] = rdbl( 0, 2 ); }
    float t1 = rdbl( 0, 1 ), t2 = rdbl( 0, 1 );
    if( rnd()%2 ) { if( spec ) spec_set_reflux( b, sp, t1, t2 ); else set_reflux_temp( b, sp, t1, t2 ); }
    for( int i=0; i<4; i++ ) logf_( "temperatures %.7e %.7e", mr->ut_para[i], mr->ut_perp[i] );
    particle_t * p = fresh_<particle_t>(); particle_mover_t * pm = fresh_<particle_mover_t>(); particle_injector_t * pi = fresh_<particle_injector_t>();
    p->dx = rdbl( -1, 1 ); p->dy = rdbl( -1, 1 ); p->dz = 1; p->i = rint_( 1, 100 ); p->ux = rdbl( -1, 1 ); p->uy = rdbl( -1, 1 ); p->uz = rdbl( -1, 1 ); p->w = rdbl( 0, 3 ); pm->dispx = rdbl( -1, 1 ); pm->dispy = rdbl( -1, 1 ); pm->dispz = rdbl( -1, 1 );
    int face = rint_( 0, 5 );
    logf_( "returns %i", spec ? spec_reflux( mr, sp, p, pm, pi, 10, face ) : interact_maxwellian_reflux( mr, sp, p, pm, pi, 10, face ) );
    logf_( "injects %.7e %.7e %.7e %i, %.7e %.7e %.7e %.7e, %.7e %.7e %.7e, %i", pi->dx, pi->dy, pi->dz, pi->i, pi->ux, pi->uy, pi->uz, pi->w, pi->dispx, pi->dispy, pi->dispz, (int)pi->sp_id );
    logf_( "particle %s mover %s", part( p ).c_str(), mov( pm ).c_str() );
  } else {
    child_langmuir_t * cl = fresh_<child_langmuir_t>(); interpolator_array_t * ia = fresh_<interpolator_array_t>(); ia->i = fresh_<interpolator_t>( 12 ); accumulator_array_t * aa = fresh_<accumulator_array_t>(); aa->a = fresh_<accumulator_t>( 12 );
    cl->sp = sp; cl->ia = ia; cl->fa = fa; cl->aa = aa; cl->rng = 0; cl->n_emit_per_face = rint_( 1, 3 ); cl->ut_para = rdbl( 0, 1 ); cl->ut_perp = rdbl( 0, 1 ); cl->thresh_e_norm = rdbl( 0, .5 ); cl->norm = rdbl( .2, 2 );
    for( int i=0; i<12; i++ ) { ia->i[i].ex = rdbl( -1, 1 ); ia->i[i].ey = rdbl( -1, 1 ); ia->i[i].ez = rdbl( -1, 1 ); }
    emitter_t * e = fresh_<emitter_t>(); e->params = cl; e->n_component = rint_( 0, 6 ); e->component = fresh_<int>( 8 ); e->emit = (emit_func_t)emit_child_langmuir;
    for( int i=0; i<e->n_component; i++ ) { int t[8] = { 12, 10, 4, 14, 16, 22, 13, 0 }; e->component[i] = ( rint_( 0, 11 )<<5 ) | t[ rnd()%8 ]; }
    if( spec ) spec_child_langmuir( cl, e->component, e->n_component ); else apply_emitter_list( e );
    logf_( "particles %i, movers %i", sp->np, sp->nm );
    for( int i=0; i<20; i++ ) logf_( "particle %i %s", i, part( sp->p+i ).c_str() );
    for( int i=0; i<20; i++ ) logf_( "mover %i %s", i, mov( sp->pm+i ).c_str() );
  }
  std::vector<std::string> l = LOG; release_(); return l;
}
extern "C" int native_case( unsigned seed, char * msg, int n ) { std::vector<std::string> a = once( seed, 0 ), b = once( seed, 1 ); return differ_( a, b, msg, n ); }
#endif
