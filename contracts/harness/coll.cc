// K01: collisions (src/collision)
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <limits.h>
#include <float.h>
#include <math.h>
#include <string>
#include <vector>
#include "collision/pipeline/takizuka_abe_pipeline.cc"
#include "collision/pipeline/binary_pipeline.cc"
#include "collision/pipeline/unary_pipeline.cc"
#include "collision/pipeline/langevin_pipeline.cc"
#include "collision/takizuka_abe.cc"
#include "collision/binary.cc"
#include "collision/unary.cc"
#include "collision/langevin.cc"
#include "collision/collision.cc"
#include "collision/hard_sphere.cc"
#undef COMPUTE_MOMENTUM_TRANSFER
#include "collision/large_angle_coulomb.cc"

struct vec { float x, y, z; };

// a unit vector across u: one component dropped, the other two turned a quarter
static inline vec drop_one( float x, float y, float z, int drop, int d1, int d2 ) {
  float t[3], a, b, n; vec r;
  t[0] = x; t[1] = y; t[2] = z;
  a = t[d1]; b = t[d2];
  n = 1/sqrtf( a*a + b*b + FLT_MIN );
  t[drop] = 0; t[d1] = n*b; t[d2] = -n*a;
  r.x = t[0]; r.y = t[1]; r.z = t[2];
  return r;
}
// the smallest one
static inline vec across( float x, float y, float z, float & u ) {
  float q = x*x, least = q;
  int drop = 0, d1 = 1, d2 = 2;
  u = q;
  q = y*y; if( q<least ) drop = 1; if( q<least ) d1 = 2; if( q<least ) d2 = 0; if( q<least ) least = q; u += q;
  q = z*z; if( q<least ) drop = 2; if( q<least ) d1 = 0; if( q<least ) d2 = 1; u += q;
  return drop_one( x, y, z, drop, d1, d2 );
}

// the relative velocity u turned by theta: d = tan(theta/2) normal, phi uniform; r is the change
static inline vec turn( float x, float y, float z, float u2, vec t, float std, rng_t * rng ) {
  vec r; float u = sqrtf( u2 );
  float iu = 1/u, s = std*sqrtf( iu )*iu;
  if( 1<s ) s = 1;
  float d = s*frandn( rng );
  float sn = 2*d/( 1 + d*d );                          // sin theta
  float phi = 2*M_PI*frand_c0( rng );
  float snsn = sn*sin( phi ), sncs = sn*u*cos( phi ), cm1 = sn*-d;   // cos theta - 1
  r.x = ( cm1*x + sncs*t.x ) + snsn*( y*t.z - z*t.y );
  r.y = ( cm1*y + sncs*t.y ) + snsn*( z*t.x - x*t.z );
  r.z = ( cm1*z + sncs*t.z ) + snsn*( x*t.y - y*t.x );
  return r;
}

// the heavier-weighted particle moves with probability of the weight ratio
extern "C" void
spec_pair( particle_t * pi, particle_t * pj, float mu_i, float mu_j, float std, rng_t * rng ) {
  float wi = pi->w, wj = pj->w;
  float x = pi->ux - pj->ux, y = pi->uy - pj->uy, z = pi->uz - pj->uz, u2;
  vec t = across( x, y, z, u2 ), r = turn( x, y, z, u2, t, std, rng );
  float chance = frand_c0( rng );
  float fi = wj<wi && wi*chance>wj ? 0 : mu_i;
  float fj = wi<wj && wj*chance>wi ? 0 : mu_j;
  pi->ux += fi*r.x; pi->uy += fi*r.y; pi->uz += fi*r.z;
  pj->ux -= fj*r.x; pj->uy -= fj*r.y; pj->uz -= fj*r.z;
}

static inline void shuffle_cell( particle_t * p, int k0, int k1, rng_t * rng, float & density ) {
  int i, j, rn; particle_t t;
  density = 0;
  for( i=k0; i<k1-1; i++ ) {
    rn = UINT32_MAX/(uint32_t)( k1-i );
    do j = i + (int)( uirand( rng )/rn ); while( j>=k1 );
    t = p[j]; p[j] = p[i]; p[i] = t;
    density += p[i].w;
  }
  density += p[i].w;
}

// n with m<=n partners each: particle a.. of the larger group meet partner b.. of the smaller, all of the larger once
#define ALL_MEET( BIG, NB, SMALL, NS, PAIR ) do { \
    each = NB/NS; more = NB - each*NS; \
    for( i=0; i<more; ++i, ++SMALL ) for( j=0; j<=each; ++j, ++BIG ) PAIR; \
    for( ; i<NS; ++i, ++SMALL ) for( j=0; j<each; ++j, ++BIG ) PAIR; \
  } while( 0 )

extern "C" void
spec_ta( takizuka_abe_t * cm, int rank, int n ) {
  if( rank==n ) return;
  species_t * a = cm->spi, * b = cm->spj;
  rng_t * rng = cm->rp->rng[rank];
  const grid_t * g = a->g;
  particle_t * pa = a->p, * pb = b->p;
  const int * ca = a->partition, * cb = b->partition;
  const float time_volume = ( g->dt*(float)cm->interval )/g->dV;
  const float mu = ( a->m*b->m )/( a->m+b->m ), mu_i = b->m/( a->m+b->m ), mu_j = a->m/( a->m+b->m );
  const double var = cm->cvar0*( a->q*a->q*b->q*b->q )/( mu*mu );
  float std, density, other;
  int i, j, v, last, k0, k1, nk, l0, nl, each, more;
  v = rank; last = VOXEL( g->nx,g->ny,g->nz, g->nx,g->ny,g->nz ) + 1;
  for( ; v<last; v+=n ) {
    k0 = ca[v]; nk = ca[v+1] - k0;
    if( !nk ) continue;
    k1 = k0 + nk;
    shuffle_cell( pa, k0, k1, rng, density );
    if( a==b ) {
      if( nk%2 && nk>=3 ) {                             // three meet each other for half the time
        std = sqrtf( 0.5*density*var*time_volume );
        spec_pair( pa+k0, pa+k0+1, mu_i, mu_j, std, rng );
        spec_pair( pa+k0, pa+k0+2, mu_i, mu_j, std, rng );
        spec_pair( pa+k0+1, pa+k0+2, mu_i, mu_j, std, rng );
        nk -= 3; k0 += 3;
      }
      nl = nk = nk/2; l0 = k0 + nk;
      if( !nk ) continue;
      std = sqrtf( var*density*time_volume );
    } else {
      l0 = cb[v]; nl = cb[v+1] - l0;
      if( !nl ) continue;
      other = 0;
      for( i=0; i<nl; i++ ) other += pb[l0+i].w;
      std = sqrtf( var*( other>density ? density : other )*time_volume );
    }
    if( nk>nl ) ALL_MEET( k0, nk, l0, nl, spec_pair( pa+k0, pb+l0, mu_i, mu_j, std, rng ) );
    else        ALL_MEET( l0, nl, k0, nk, spec_pair( pa+k0, pb+l0, mu_i, mu_j, std, rng ) );
  }
}
extern "C" void code_ta_like( takizuka_abe_t * cm, species_t * sp, int rank, int n ) { cm->spi = cm->spj = sp; takizuka_abe_pipeline_scalar( cm, rank, n ); }
extern "C" void spec_ta_like( takizuka_abe_t * cm, species_t * sp, int rank, int n ) { cm->spi = cm->spj = sp; spec_ta( cm, rank, n ); }

// candidate pairs drawn uniformly from a cell, each tested once
extern "C" void
spec_binary( binary_collision_model_t * cm, int rank, int n ) {
  if( rank==n ) return;
  species_t * a = cm->spi, * b = cm->spj;
  rng_t * rng = cm->rp->rng[rank];
  particle_t * pa = a->p, * pb = b->p;
  const int * ca = a->partition, * cb = b->partition;
  const grid_t * g = a->g;
  const double sample = ( pa==pb ? 0.5 : 1 )*cm->sample;
  const float time_volume = ( g->dt*(float)cm->interval )/g->dV;
  int v, last, k, k0, nk, rk, l, l0, nl, rl, pairs, tests, high = 0;
  v = rank; last = VOXEL( g->nx,g->ny,g->nz, g->nx,g->ny,g->nz ) + 1;
  for( ; v<last; v+=n ) {
    k0 = ca[v]; nk = ca[v+1] - k0;
    if( !nk ) continue;
    rk = UINT_MAX/(unsigned)nk;
    if( a==b ) { l0 = k0; nl = nk; rl = rk; pairs = nk*( nk+1 ) >> 1; tests = (int)( 0.5 + sample*(double)nk ); }
    else {
      l0 = cb[v]; nl = cb[v+1] - l0;
      if( !nl ) continue;
      rl = UINT_MAX/(unsigned)nl; pairs = nk*nl; tests = (int)( 0.5 + sample*(double)( nk>nl ? nk : nl ) );
    }
    const float norm = time_volume*( (float)pairs/(float)tests );
    for( ; tests; tests-- ) {
      do k = (int)( uirand( rng )/rk ); while( k>=nk );
      k += k0;
      do l = (int)( uirand( rng )/rl ); while( l>=nl );
      l += l0;
      const float wk = pa[k].w, wl = pb[l].w, heavy = wk>wl ? wk : wl, light = wk>wl ? wl : wk;
      const float pr = heavy*norm*cm->rate_constant( cm->params, a, b, pa+k, pb+l );
      if( pr>1 ) high++;
      if( frand_c0( rng )>=pr ) continue;
      // the light one always, the heavy one with probability of the weight ratio
      int type = wl==light ? 2 : 1;
      if( heavy==light || heavy*frand_c0( rng )<light ) type = 3;
      cm->collision( cm->params, a, b, pa+k, pb+l, rng, type );
    }
  }
  cm->n_large_pr[rank] = high;
}
extern "C" void code_binary_like( binary_collision_model_t * cm, species_t * sp, int rank, int n ) { cm->spi = cm->spj = sp; binary_pipeline_scalar( cm, rank, n ); }
extern "C" void spec_binary_like( binary_collision_model_t * cm, species_t * sp, int rank, int n ) { cm->spi = cm->spj = sp; spec_binary( cm, rank, n ); }

// worker r of n has the particles from the rounded r-th to the rounded (r+1)-th fraction
static inline int part_of( double n, int r ) { return (int)( 0.5 + n*(double)r ); }
extern "C" void
spec_unary( unary_collision_model_t * cm, int rank, int n ) {
  if( rank==n ) return;
  const species_t * sp = cm->sp; particle_t * p = cm->sp->p; rng_t * rng = cm->rp->rng[rank];
  const float dt = sp->g->dt*(float)cm->interval;
  const double share = (double)sp->np/(double)n;
  int high = 0, i = part_of( share, rank ), end = part_of( share, rank+1 );
  for( ; i<end; i++ ) {
    const float pr = dt*cm->rate_constant( cm->params, sp, p+i );
    if( pr>1 ) high++;
    if( frand_c0( rng )<pr ) cm->collision( cm->params, sp, p+i, rng );
  }
  cm->n_large_pr[rank] = high;
}
extern "C" void
spec_langevin( langevin_pipeline_args_t * a, int rank, int n ) {
  if( rank==n ) return;
  particle_t * p = a->p; rng_t * rng = a->rng[rank];
  const float keep = a->decay, kick = a->drive;
  const double share = (double)a->np/(double)n;
  int i = part_of( share, rank ), end = part_of( share, rank+1 );
  for( ; i<end; i++ ) {
    p[i].ux = keep*p[i].ux + kick*frandn( rng );
    p[i].uy = keep*p[i].uy + kick*frandn( rng );
    p[i].uz = keep*p[i].uz + kick*frandn( rng );
  }
}

// the operators act every interval steps, on sorted species, on every worker
static inline int due( int interval, const species_t * sp ) { return !( interval<1 || sp->g->step%interval ); }
static inline void sorted( species_t * sp, const species_t * s ) { if( sp->last_sorted!=s->g->step ) sort_p( sp ); }
extern "C" void
spec_apply_ta( takizuka_abe_t * cm ) {
  if( !due( cm->interval, cm->spi ) ) return;
  sorted( cm->spi, cm->spi ); sorted( cm->spj, cm->spi );
  EXEC_PIPELINES( takizuka_abe, cm, 0 ); WAIT_PIPELINES();
}
extern "C" void
spec_apply_binary( binary_collision_model_t * cm ) {
  int p, high = 0;
  if( !due( cm->interval, cm->spi ) ) return;
  sorted( cm->spi, cm->spi ); sorted( cm->spj, cm->spi );
  sorted( cm->spi, cm->spi ); sorted( cm->spj, cm->spi );   // nothing left to sort
  EXEC_PIPELINES( binary, cm, 0 ); WAIT_PIPELINES();
  for( p=0; p<N_PIPELINE; p++ ) high += cm->n_large_pr[p];
  if( high ) WARNING(( "%i", high ));
}
extern "C" void
spec_apply_unary( unary_collision_model_t * cm ) {
  int p, high = 0;
  if( !due( cm->interval, cm->sp ) ) return;
  EXEC_PIPELINES( unary, cm, 0 ); WAIT_PIPELINES();
  for( p=0; p<N_PIPELINE; p++ ) high += cm->n_large_pr[p];
  if( high ) WARNING(( "%i", high ));
}
extern "C" void
spec_apply_langevin( langevin_t * l ) {
  if( !due( l->interval, l->sp ) ) return;
  const float t = l->nu*(float)l->interval*l->sp->g->dt;
  DECLARE_ALIGNED_ARRAY( langevin_pipeline_args_t, 128, args, 1 );
  args->p = l->sp->p;
  COPY( args->rng, l->rp->rng, N_PIPELINE );
  args->decay = exp( -t );
  args->drive = sqrt( ( -expm1( -2*t )*l->kT )/( l->sp->m*l->sp->g->cvac ) );
  args->np = l->sp->np;
  EXEC_PIPELINES( langevin, args, 0 ); WAIT_PIPELINES();
}

// elastic spheres: the impact parameter uniform in the unit circle (c,s)
static inline void circle( float & c, float & s, float & b2, rng_t * rng ) { do { c = 2*frand_c0( rng ) - 1; s = 2*frand_c0( rng ) - 1; b2 = c*c + s*s; } while( b2>=1 ); }
static inline vec combine( float x, float y, float z, float f, float along, float turn, vec t ) {
  vec a;
  a.x = ( f*x - along*t.x ) - turn*( y*t.z - z*t.y );
  a.y = ( f*y - along*t.y ) - turn*( z*t.x - x*t.z );
  a.z = ( f*z - along*t.z ) - turn*( x*t.y - y*t.x );
  return a;
}
static inline vec spheres( float x, float y, float z, float u2, vec t, float c, float s, float b2 ) { float f = 1-b2, h = sqrtf( f ); return combine( x, y, z, f, h*c*sqrtf( u2 ), h*s, t ); }
// Coulomb: tan of half the angle is the inverse of B = cc u^2 b/bmax
static inline vec coulomb( float x, float y, float z, float u2, vec t, float c, float s, float b2, float cc ) { float B = cc*u2, f = 1/( 1 + ( B*B )*b2 ), h = f*B; return combine( x, y, z, f, h*c*sqrtf( u2 ), h*s, t ); }
static inline vec spheres( float x, float y, float z, rng_t * rng ) { float c, s, b2, u2; circle( c, s, b2, rng ); vec t = across( x, y, z, u2 ); return spheres( x, y, z, u2, t, c, s, b2 ); }
static inline vec coulomb( float x, float y, float z, float cc, rng_t * rng ) { float c, s, b2, u2; circle( c, s, b2, rng ); vec t = across( x, y, z, u2 ); return coulomb( x, y, z, u2, t, c, s, b2, cc ); }
// for the conservation lemma: the change of the relative velocity, each component dropped
#define U2 ( x*x + y*y + z*z )
#define LAW( k, a, b, c_ ) \
extern "C" void law_turn##k( float x, float y, float z, float std, rng_t * rng, vec * r ) { *r = turn( x, y, z, U2, drop_one( x, y, z, a, b, c_ ), std, rng ); } \
extern "C" void law_spheres##k( float x, float y, float z, float c, float s, vec * r ) { *r = spheres( x, y, z, U2, drop_one( x, y, z, a, b, c_ ), c, s, c*c + s*s ); } \
extern "C" void law_coulomb##k( float x, float y, float z, float c, float s, float cc, vec * r ) { *r = coulomb( x, y, z, U2, drop_one( x, y, z, a, b, c_ ), c, s, c*c + s*s, cc ); }
LAW( 0, 0, 1, 2 )
LAW( 1, 1, 2, 0 )
LAW( 2, 2, 0, 1 )
static inline void give( particle_t * p, float w, vec a ) { p->ux -= w*a.x; p->uy -= w*a.y; p->uz -= w*a.z; }
static inline void take( particle_t * p, float w, vec a ) { p->ux += w*a.x; p->uy += w*a.y; p->uz += w*a.z; }
extern "C" void
spec_hs( const hard_sphere_t * m, const species_t *, const species_t *, particle_t * pi, particle_t * pj, rng_t * rng, int type ) {
  vec a = spheres( pi->ux - pj->ux, pi->uy - pj->uy, pi->uz - pj->uz, rng );
  if( type & 1 ) give( pi, m->twomu_mi, a );
  if( type & 2 ) take( pj, m->twomu_mj, a );
}
extern "C" void
spec_lac( const large_angle_coulomb_t * m, const species_t *, const species_t *, particle_t * pi, particle_t * pj, rng_t * rng, int type ) {
  vec a = coulomb( pi->ux - pj->ux, pi->uy - pj->uy, pi->uz - pj->uz, m->cc, rng );
  if( type & 1 ) give( pi, m->twomu_mi, a );
  if( type & 2 ) take( pj, m->twomu_mj, a );
}
// a background particle is drawn from the drifting Maxwellian
extern "C" void
spec_hs_fluid( const hard_sphere_t * m, const species_t *, particle_t * p, rng_t * rng ) {
  float x = p->ux - m->udx, y = p->uy - m->udy, z = p->uz - m->udz;
  if( m->ut ) { x -= m->ut*frandn( rng ); y -= m->ut*frandn( rng ); z -= m->ut*frandn( rng ); }
  give( p, m->twomu_mi, spheres( x, y, z, rng ) );
}
extern "C" void
spec_lac_fluid( const large_angle_coulomb_t * m, const species_t *, particle_t * p, rng_t * rng ) {
  float x = p->ux - m->udx, y = p->uy - m->udy, z = p->uz - m->udz;
  if( m->ut ) { x -= m->ut*frandn( rng ); y -= m->ut*frandn( rng ); z -= m->ut*frandn( rng ); }
  give( p, m->twomu_mi, coulomb( x, y, z, m->cc, rng ) );
}
// rate constants: pi R^2 |u|, and its average over the background
static inline float speed2( const particle_t * p, float x, float y, float z ) { float a = p->ux - x, b = p->uy - y, c = p->uz - z; return a*a + b*b + c*c; }
#define SPEC_RATES( name, T ) \
extern "C" float spec_##name##_rate( const T * m, const species_t *, const species_t *, const particle_t * pi, const particle_t * pj ) { return m->Kc*sqrtf( speed2( pi, pj->ux, pj->uy, pj->uz ) ); } \
extern "C" float spec_##name##_fluid_rate( const T * m, const species_t *, const particle_t * p ) { \
  static const float gamma = ( 3.*M_PI-8. )/( 24.-6*M_PI ); float u2 = speed2( p, m->udx, m->udy, m->udz ); \
  return sqrtf( ( m->alpha_Kt2ut4 + u2*( m->beta_Kt2ut2 + u2*m->gamma_Kt2 ) )/( m->ut2 + u2*gamma ) ); }
SPEC_RATES( hs, hard_sphere_t )
SPEC_RATES( lac, large_angle_coulomb_t )

extern "C" int spec_num( const collision_op_t * l ) { int n = 0; for( ; l; l = l->next ) n++; return n; }
extern "C" void spec_list( collision_op_t * l ) { for( ; l; l = l->next ) l->apply( l->params ); }
extern "C" collision_op_t * spec_append( collision_op_t * c, collision_op_t ** l ) { if( !c || !l || c->next ) ERROR(( "Bad args" )); c->next = *l; *l = c; return c; }

// models: the pair gives up 2 mu/m of the change each
extern "C" collision_op_t *
spec_new_hs( const char * name, species_t * a, float ra, species_t * b, float rb, rng_pool_t * rp, double sample, int interval ) {
  hard_sphere_t * m;
  if( !a || a->m<=0 || ra<0 || !b || b->m<=0 || rb<0 || a->g!=b->g ) ERROR(( "Bad args" ));
  MALLOC( m, 1 ); CLEAR( m, 1 );
  m->twomu_mi = 2*b->m/( a->m+b->m );
  m->twomu_mj = 2*a->m/( a->m+b->m );
  m->Kc = a->g->cvac*M_PI*( ra+rb )*( ra+rb );
  REGISTER_OBJECT( m, checkpt_hard_sphere, restore_hard_sphere, NULL );
  return binary_collision_model( name, (binary_rate_constant_func_t)hard_sphere_rate_constant, (binary_collision_func_t)hard_sphere_collision, m, a, b, rp, sample, interval );
}
extern "C" collision_op_t *
spec_new_lac( const char * name, species_t * a, species_t * b, float bmax, rng_pool_t * rp, double sample, int interval ) {
  large_angle_coulomb_t * m;
  if( !a || !a->q || a->m<=0 || !b || !b->q || b->m<=0 || a->g!=b->g ) ERROR(( "Bad args" ));
  MALLOC( m, 1 ); CLEAR( m, 1 );
  m->cc = ( 4.*M_PI*a->g->eps0*a->m*b->m*a->g->cvac*a->g->cvac*bmax )/( ( a->m + b->m )*a->q*b->q );
  m->twomu_mi = 2*b->m/( a->m+b->m );
  m->twomu_mj = 2*a->m/( a->m+b->m );
  m->Kc = a->g->cvac*M_PI*bmax*bmax;
  REGISTER_OBJECT( m, checkpt_large_angle_coulomb, restore_large_angle_coulomb, NULL );
  return binary_collision_model( name, (binary_rate_constant_func_t)large_angle_coulomb_rate_constant, (binary_collision_func_t)large_angle_coulomb_collision, m, a, b, rp, sample, interval );
}
#define BACKGROUND( m, n0, c ) \
  m->udx = vdx/c; m->udy = vdy/c; m->udz = vdz/c; \
  m->ut = sqrtf( kT0/( m0*c*c ) ); \
  m->ut2 = kT0/( m0*c*c ); \
  m->alpha_Kt2ut4 = ( 8./M_PI )*( m->Kc*n0*m->Kc*n0 )*( m->ut2*m->ut2 ); \
  m->beta_Kt2ut2 = ( 4./( 12.-3.*M_PI ) )*( m->Kc*n0*m->Kc*n0 )*m->ut2; \
  m->gamma_Kt2 = ( ( 3.*M_PI-8. )/( 24.-6*M_PI ) )*( m->Kc*n0*m->Kc*n0 ); \
  m->ut2 += FLT_MIN
extern "C" collision_op_t *
spec_new_hs_fluid( const char * name, float n0, float vdx, float vdy, float vdz, float kT0, float m0, float r0, species_t * sp, float rsp, rng_pool_t * rp, int interval ) {
  hard_sphere_t * m;
  if( n0<0 || kT0<0 || m0<=0 || r0<0 || !sp || sp->m<=0 || rsp<0 ) ERROR(( "Bad args" ));
  MALLOC( m, 1 );
  m->twomu_mi = 2.*m0/( sp->m + m0 );
  m->twomu_mj = 2.*sp->m/( sp->m + m0 );
  m->Kc = M_PI*( r0+rsp )*( r0+rsp )*sp->g->cvac;
  BACKGROUND( m, n0, sp->g->cvac );
  REGISTER_OBJECT( m, checkpt_hard_sphere, restore_hard_sphere, NULL );
  return unary_collision_model( name, (unary_rate_constant_func_t)hard_sphere_fluid_rate_constant, (unary_collision_func_t)hard_sphere_fluid_collision, m, sp, rp, interval );
}
extern "C" collision_op_t *
spec_new_lac_fluid( const char * name, float n0, float vdx, float vdy, float vdz, float kT0, float q0, float m0, species_t * sp, float bmax, rng_pool_t * rp, int interval ) {
  large_angle_coulomb_t * m;
  if( n0<0 || kT0<0 || !q0 || m0<=0 || !sp || !sp->q || sp->m<=0 || bmax<0 ) ERROR(( "Bad args" ));
  MALLOC( m, 1 );
  m->cc = ( 4.*M_PI*sp->g->eps0*sp->m*m0*sp->g->cvac*sp->g->cvac*bmax )/( ( sp->m + m0 )*sp->q*q0 );
  m->twomu_mi = 2.*m0/( sp->m + m0 );
  m->twomu_mj = 2.*sp->m/( sp->m + m0 );
  m->Kc = M_PI*bmax*bmax*sp->g->cvac;
  BACKGROUND( m, n0, sp->g->cvac );
  REGISTER_OBJECT( m, checkpt_large_angle_coulomb, restore_large_angle_coulomb, NULL );
  return unary_collision_model( name, (unary_rate_constant_func_t)large_angle_coulomb_fluid_rate_constant, (unary_collision_func_t)large_angle_coulomb_fluid_collision, m, sp, rp, interval );
}
static inline char * copy_name( const char * name ) { char * s; MALLOC( s, strlen( name ) + 1 ); strcpy( s, name ); return s; }
extern "C" collision_op_t *
spec_new_ta( const char * name, species_t * a, species_t * b, rng_pool_t * rp, double cvar0, int interval ) {
  takizuka_abe_t * m; size_t len = name ? strlen( name ) : 0;
  if( !a || !b || a->g!=b->g || !rp || rp->n_rng<N_PIPELINE ) ERROR(( "Bad args" ));
  if( len==0 ) ERROR(( "Bad args" ));
  MALLOC( m, 1 ); MALLOC( m->name, len+1 ); strcpy( m->name, name );
  m->spi = a; m->spj = b; m->rp = rp; m->interval = interval; m->cvar0 = cvar0;
  return new_collision_op_internal( m, (collision_op_func_t)apply_takizuka_abe, delete_takizuka_abe, (checkpt_func_t)checkpt_takizuka_abe, (restore_func_t)restore_takizuka_abe, NULL );
}
extern "C" collision_op_t *
spec_new_langevin( float kT, float nu, species_t * sp, rng_pool_t * rp, int interval ) {
  langevin_t * m;
  if( !sp || !rp || kT<0 || nu<0 ) ERROR(( "Bad args" ));
  MALLOC( m, 1 );
  m->sp = sp; m->rp = rp; m->kT = kT; m->nu = nu; m->interval = interval;
  return new_collision_op_internal( m, (collision_op_func_t)apply_langevin, delete_langevin, (checkpt_func_t)checkpt_langevin, (restore_func_t)restore_langevin, NULL );
}
extern "C" collision_op_t *
spec_new_binary( const char * name, binary_rate_constant_func_t rate, binary_collision_func_t collision, void * params, species_t * a, species_t * b, rng_pool_t * rp, double sample, int interval ) {
  binary_collision_model_t * m; size_t len = name ? strlen( name ) : 0;
  if( !rate || !collision || !a || !b || a->g!=b->g || !rp || rp->n_rng<N_PIPELINE ) ERROR(( "Bad args" ));
  if( len==0 ) ERROR(( "Bad args" ));
  if( params && !object_id( params ) ) ERROR(( "Bad args" ));
  MALLOC( m, 1 ); MALLOC( m->name, len+1 ); strcpy( m->name, name );
  m->rate_constant = rate; m->collision = collision; m->params = params; m->spi = a; m->spj = b; m->rp = rp; m->sample = sample; m->interval = interval;
  return new_collision_op_internal( m, (collision_op_func_t)apply_binary_collision_model, delete_binary_collision_model, (checkpt_func_t)checkpt_binary_collision_model, (restore_func_t)restore_binary_collision_model, NULL );
}
extern "C" collision_op_t *
spec_new_unary( const char * name, unary_rate_constant_func_t rate, unary_collision_func_t collision, void * params, species_t * sp, rng_pool_t * rp, int interval ) {
  unary_collision_model_t * m; size_t len = name ? strlen( name ) : 0;
  if( !rate || !collision || !sp || !rp || rp->n_rng<N_PIPELINE ) ERROR(( "Bad args" ));
  if( !len ) ERROR(( "Bad args" ));
  if( params && !object_id( params ) ) ERROR(( "Bad args" ));
  MALLOC( m, 1 ); MALLOC( m->name, len+1 ); strcpy( m->name, name );
  m->rate_constant = rate; m->collision = collision; m->params = params; m->sp = sp; m->rp = rp; m->interval = interval;
  return new_collision_op_internal( m, (collision_op_func_t)apply_unary_collision_model, delete_unary_collision_model, (checkpt_func_t)checkpt_unary_collision_model, (restore_func_t)restore_unary_collision_model, NULL );
}
extern "C" void spec_delete_list( collision_op_t * l ) { while( l ) { collision_op_t * c = l; l = c->next; c->delete_cop( c ); } }

#include "native.h"
#ifndef __clang__
ALLOCATORS
static void * W_a; static pipeline_func_t W_f; static int pending;
static void wait_( void ) { if( pending ) { pending = 0; for( int r=0; r<thread.n_pipeline; r++ ) { logf_( "worker %i", r ); W_f( W_a, r, thread.n_pipeline ); } } }
static void disp_( pipeline_func_t f, void * a, int, int ) { if( pending ) logf_( "dispatch without wait" ); W_f = f; W_a = a; pending = 1; wait_(); }
pipeline_dispatcher_t thread = { 1, 0, 0, disp_, wait_ };
size_t object_id( const void * ) { return 1; }
void register_object( void *, checkpt_func_t, restore_func_t, reanimate_func_t ) {}
void unregister_object( void * ) {}
static int gen( rng_t * r ) { return (int)(intptr_t)r; }
uint32_t uirand( rng_t * r ) { uint32_t v = rnd()%16==0 ? UINT_MAX - rnd()%20000 : ( rnd()<<1 ) | ( rnd() & 1 ); logf_( "integer from %i", gen( r ) ); return v; }
float frand_c0( rng_t * r ) { logf_( "uniform from %i", gen( r ) ); return rnd()%12==0 ? 0 : (float)( ( rnd()>>7 )/16777216. ); }
float frandn( rng_t * r ) { logf_( "normal from %i", gen( r ) ); return (float)rdbl( -2, 2 ); }
void sort_p( species_t * sp ) { logf_( "sort %s", sp->name ); sp->last_sorted = sp->g->step; }
static particle_t * PA[2]; static char NA_[2][4] = { "a", "b" };
static std::string who( const particle_t * p, species_t * a, species_t * b ) { char s[60]; snprintf( s, 60, "a%i/b%i", (int)( p - a->p ), b==a ? 0 : (int)( p - b->p ) ); return s; }
static species_t * SP[2]; static int strong;
static float rate2( void * P, const species_t * a, const species_t * b, const particle_t * i, const particle_t * j ) { logf_( "rate %i %s %s %i %i", P==SP, a->name, b->name, (int)( i - a->p ), (int)( j - b->p ) ); return strong ? rdbl( 0, 3 ) : rdbl( 0, .2 ); }
static void coll2( void * P, const species_t * a, const species_t * b, particle_t * i, particle_t * j, rng_t * r, int type ) { logf_( "collide %i %s %s %i %i type %i, %i", P==SP, a->name, b->name, (int)( i - a->p ), (int)( j - b->p ), type, gen( r ) ); }
static float rate1( void * P, const species_t * a, const particle_t * i ) { logf_( "rate %i %s %i", P==SP, a->name, (int)( i - a->p ) ); return strong ? rdbl( 0, 3 ) : rdbl( 0, 1 ); }
static void coll1( void * P, const species_t * a, particle_t * i, rng_t * r ) { logf_( "collide %i %s %i, %i", P==SP, a->name, (int)( i - a->p ), gen( r ) ); }
static double VEL[4]; static std::string CONS;
static std::vector<std::string> once( unsigned seed, int spec ) {
  LOG.clear(); rs_ = seed*2654435761ull + 99; for( int i=0; i<4; i++ ) rnd(); CONS.clear();
  thread.n_pipeline = rint_( 1, 4 ); const int big = seed%397==5;
  grid_t * g = fresh_<grid_t>(); g->nx = rint_( 1, 3 ); g->ny = rint_( 1, 2 ); g->nz = rint_( 1, 2 ); g->nv = ( g->nx+2 )*( g->ny+2 )*( g->nz+2 ); g->step = rint_( 0, 12 );
  g->dt = rdbl( .1, 1 ); g->dV = rdbl( .3, 2 ); g->cvac = rdbl( .5, 2 ); g->eps0 = rdbl( .5, 2 );
  const int same = rnd()%2;
  for( int s=0; s<2; s++ ) {
    species_t * sp = SP[s] = fresh_<species_t>(); sp->g = g; sp->name = NA_[s]; sp->q = rdbl( .5, 2 ); sp->m = rdbl( .3, 3 ); sp->partition = fresh_<int>( g->nv+2 ); sp->last_sorted = rnd()%2 ? g->step : g->step-1;
    int n = 0; for( int v=0; v<=g->nv; v++ ) { sp->partition[v] = n; if( v<g->nv ) { int k = rnd()%3 ? rint_( 0, 7 ) : 0; if( big && n<100000 && v==VOXEL( 1,1,1, g->nx,g->ny,g->nz ) ) k = rint_( 90000, 110000 ); n += k; } }
    sp->np = n; sp->p = fresh_<particle_t>( n + 64 );
    int style = rnd()%3;
    for( int v=0; v<g->nv; v++ ) for( int i=sp->partition[v]; i<sp->partition[v+1]; i++ ) {
      particle_t * p = sp->p + i; p->i = v; p->ux = rdbl( -1, 1 ); p->uy = rdbl( -1, 1 ); p->uz = rdbl( -1, 1 ); if( rnd()%9==0 ) p->ux = p->uy = 0; if( rnd()%30==0 ) p->uz = p->ux;
      p->w = style==0 ? 1 : style==1 ? 1 + rnd()%2 : rdbl( .1, 2 ); p->dx = i;
    }
  }
  if( same ) SP[1] = SP[0];
  rng_pool_t * rp = fresh_<rng_pool_t>(); rp->rng = fresh_<rng_t *>( 8 ); rp->n_rng = 8; for( int i=0; i<8; i++ ) rp->rng[i] = (rng_t *)(intptr_t)( i+1 );
  const int interval = rnd()%8==0 ? rint_( -1, 0 ) : rnd()%2 ? 1 : rint_( 2, 3 ); strong = rnd()%3==0;
  species_t * a = SP[0], * b = SP[1]; const double sample = rnd()%2 ? 1 : rdbl( 0, 3 );
  int op = rnd()%8; if( big ) op = 2;
  switch( op ) {
  case 0: case 1: { takizuka_abe_t * c = fresh_<takizuka_abe_t>(); c->name = a->name; c->spi = a; c->spj = b; c->rp = rp; c->interval = interval; c->cvar0 = strong ? 1 : .01; if( spec ) spec_apply_ta( c ); else apply_takizuka_abe( c ); break; }
  case 2: { binary_collision_model_t * c = fresh_<binary_collision_model_t>(); c->name = a->name; c->spi = a; c->spj = b; c->rp = rp; c->interval = big ? 1 : interval; c->sample = big ? .02 : sample; c->params = SP; c->rate_constant = rate2; c->collision = coll2;
    if( spec ) spec_apply_binary( c ); else apply_binary_collision_model( c ); for( int i=0; i<thread.n_pipeline; i++ ) logf_( "large %i", c->n_large_pr[i] ); break; }
  case 3: { unary_collision_model_t * c = fresh_<unary_collision_model_t>(); c->name = a->name; c->sp = a; c->rp = rp; c->interval = interval; c->params = SP; c->rate_constant = rate1; c->collision = coll1;
    if( spec ) spec_apply_unary( c ); else apply_unary_collision_model( c ); for( int i=0; i<thread.n_pipeline; i++ ) logf_( "large %i", c->n_large_pr[i] ); break; }
  case 4: { langevin_t * c = fresh_<langevin_t>(); c->sp = a; c->rp = rp; c->interval = interval; c->kT = rdbl( 0, 1 ); c->nu = rdbl( 0, 2 ); if( spec ) spec_apply_langevin( c ); else apply_langevin( c ); break; }
  case 5: case 6: { // the models, as built, on one pair of equal weight
    const float kT = rnd()%2 ? rdbl( 0, 1 ) : 0, r0 = rdbl( .1, 1 ), m0 = rdbl( .3, 3 ), q0 = rdbl( .5, 2 ), n0 = rdbl( 0, 2 ), vx = rdbl( -1, 1 ), vy = rdbl( -1, 1 ), vz = rdbl( -1, 1 );
    const int hs = rnd()%2, type = rint_( 0, 3 ); collision_op_t * c; particle_t p[2]; p[0] = p[1] = particle_t(); for( int k=0; k<2; k++ ) { p[k].ux = rdbl( -1, 1 ); p[k].uy = rdbl( -1, 1 ); p[k].uz = rdbl( -1, 1 ); p[k].w = 1; }
    if( op==5 ) {
      if( hs ) c = spec ? spec_new_hs( "n", a, r0, b, .5, rp, sample, interval ) : hard_sphere( "n", a, r0, b, .5, rp, sample, interval );
      else c = spec ? spec_new_lac( "n", a, b, r0, rp, sample, interval ) : large_angle_coulomb( "n", a, b, r0, rp, sample, interval );
      binary_collision_model_t * m = (binary_collision_model_t *)c->params; logf_( "%s %i %i %i %.6e %i", m->name, m->spi==a, m->spj==b, m->rp==rp, m->sample, m->interval );
      logf_( "rate %.7e", hs ? spec ? spec_hs_rate( (hard_sphere_t *)m->params, a, b, p, p+1 ) : m->rate_constant( m->params, a, b, p, p+1 ) : spec ? spec_lac_rate( (large_angle_coulomb_t *)m->params, a, b, p, p+1 ) : m->rate_constant( m->params, a, b, p, p+1 ) );
      double P0[3], P1[3], E0, E1;
      for( int w=0; w<2; w++ ) { double * P = w ? P1 : P0, & E = w ? E1 : E0; 
        P[0] = a->m*p[0].ux + b->m*p[1].ux; P[1] = a->m*p[0].uy + b->m*p[1].uy; P[2] = a->m*p[0].uz + b->m*p[1].uz; E = 0; for( int k=0; k<2; k++ ) E += ( k ? b->m : a->m )*( p[k].ux*p[k].ux + p[k].uy*p[k].uy + p[k].uz*p[k].uz );
        if( w==0 ) { if( spec ) { if( hs ) spec_hs( (hard_sphere_t *)m->params, a, b, p, p+1, rp->rng[0], type ); else spec_lac( (large_angle_coulomb_t *)m->params, a, b, p, p+1, rp->rng[0], type ); } else m->collision( m->params, a, b, p, p+1, rp->rng[0], type ); } }
      if( type==3 && ( fabs( P0[0]-P1[0] ) + fabs( P0[1]-P1[1] ) + fabs( P0[2]-P1[2] )>1e-4 || fabs( E0-E1 )>1e-4*( 1+E0 ) ) ) CONS = "momentum or energy not conserved";
    } else {
      if( hs ) c = spec ? spec_new_hs_fluid( "n", n0, vx, vy, vz, kT, m0, r0, a, .5, rp, interval ) : hard_sphere_fluid( "n", n0, vx, vy, vz, kT, m0, r0, a, .5, rp, interval );
      else c = spec ? spec_new_lac_fluid( "n", n0, vx, vy, vz, kT, q0, m0, a, r0, rp, interval ) : large_angle_coulomb_fluid( "n", n0, vx, vy, vz, kT, q0, m0, a, r0, rp, interval );
      unary_collision_model_t * m = (unary_collision_model_t *)c->params; logf_( "%s %i %i %i", m->name, m->sp==a, m->rp==rp, m->interval );
      logf_( "rate %.7e", spec ? hs ? spec_hs_fluid_rate( (hard_sphere_t *)m->params, a, p ) : spec_lac_fluid_rate( (large_angle_coulomb_t *)m->params, a, p ) : m->rate_constant( m->params, a, p ) );
      if( spec ) { if( hs ) spec_hs_fluid( (hard_sphere_t *)m->params, a, p, rp->rng[0] ); else spec_lac_fluid( (large_angle_coulomb_t *)m->params, a, p, rp->rng[0] ); } else m->collision( m->params, a, p, rp->rng[0] );
    }
    for( int k=0; k<2; k++ ) logf_( "u %.7e %.7e %.7e", p[k].ux, p[k].uy, p[k].uz );
    break; }
  default: {
    collision_op_t * c[4], * l = NULL; int n = rint_( 0, 4 );
    for( int k=0; k<n; k++ ) { c[k] = k%2 ? ( spec ? spec_new_langevin( k, 1, a, rp, -k ) : langevin( k, 1, a, rp, -k ) ) : ( spec ? spec_new_ta( "n", a, b, rp, k, -1 ) : takizuka_abe( "n", a, b, rp, k, -1 ) ); collision_op_t * x = spec ? spec_append( c[k], &l ) : append_collision_op( c[k], &l ); logf_( "%i %i", x==c[k], l==c[k] ); }
    logf_( "%i", spec ? spec_num( l ) : num_collision_op( l ) );
    if( spec ) spec_list( l ); else apply_collision_op_list( l );
    for( collision_op_t * x=l; x; x = x->next ) { if( x->apply==(collision_op_func_t)apply_takizuka_abe ) { takizuka_abe_t * m = (takizuka_abe_t *)x->params; logf_( "%s %i %i %i %.6e %i", m->name, m->spi==a, m->spj==b, m->rp==rp, m->cvar0, m->interval ); } else { langevin_t * m = (langevin_t *)x->params; logf_( "%i %i %.6e %.6e %i", m->sp==a, m->rp==rp, m->kT, m->nu, m->interval ); } }
    if( spec ) spec_delete_list( l ); else delete_collision_op_list( l );
    break; }
  }
  for( int s=0; s<2-same; s++ ) for( int i=0; i<SP[s]->np && i<400; i++ ) { const particle_t * p = SP[s]->p + i; logf_( "%i %i: from %.0f cell %i u %.7e %.7e %.7e w %.7e", s, i, p->dx, p->i, p->ux, p->uy, p->uz, p->w ); }
  std::vector<std::string> l = LOG; release_(); return l;
}
extern "C" int native_case( unsigned seed, char * msg, int n ) {
  std::vector<std::string> a = once( seed, 0 ); std::string c = CONS; std::vector<std::string> b = once( seed, 1 );
  if( differ_( a, b, msg, n ) ) return 1;
  if( !c.empty() ) { snprintf( msg, n, "%s", c.c_str() ); return 1; }
  return 0;
}
#endif
