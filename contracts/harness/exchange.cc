// P05: boundary processing (src/boundary/boundary_p.cc)
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include <string>
#include <vector>
#define IN_boundary
#include "boundary/boundary_p.cc"

static inline void pack( particle_injector_t * pi, const particle_t * p, const particle_mover_t * m ) {
  pi->dx = p->dx; pi->dy = p->dy; pi->dz = p->dz; pi->i = p->i; pi->ux = p->ux; pi->uy = p->uy; pi->uz = p->uz; pi->w = p->w;
  pi->dispx = m->dispx; pi->dispy = m->dispy; pi->dispz = m->dispz; pi->sp_id = m->i;
}

// one departing particle: mover m, the last one of the species not treated yet
static __attribute__((always_inline)) inline void
depart( grid_t * g, field_t * f, species_t * sp, particle_mover_t * m, int & np, int & n_ci, int nb, particle_bc_func_t * act, void ** par, particle_injector_t * ci, particle_injector_t ** pi_send, int * n_send, const int64_t * range, int64_t all ) {
  int i = m->i, face = sp->p[i].i & 7, voxel = sp->p[i].i >> 3;
  sp->p[i].i = voxel;
  int64_t to = g->neighbor[ 6*voxel + face ], h = -to-3;
  if( to==absorb_particles ) accumulate_rhob( f, sp->p + i, g, sp->q );                           // leaves its charge on the wall
  else if( ( to>=0 && to<g->rangel ) || ( to>g->rangeh && to<=all ) ) {                           // goes on in another domain, from the other side of the face
    particle_injector_t * pi = &pi_send[face][ n_send[face]++ ];
    pack( pi, sp->p + i, m );
    ( &pi->dx )[ face%3 ] = face<3 ? 1.f : -1.f;
    pi->i = to - range[face]; pi->sp_id = sp->id;
  } else if( h>=0 && h<nb ) n_ci += act[h]( par[h], sp, sp->p + i, m, ci + n_ci, 1, face );        // handled by its boundary condition
  np--;
  sp->p[i] = sp->p[np];                                                                            // the last particle takes its place
}

extern "C" void
spec_boundary_p( particle_bc_t * pbc_list, species_t * sp_list, field_array_t * fa, accumulator_array_t * aa ) {
  static particle_injector_t * ci = NULL;
  static int max_ci = 0;
  static const int port[6] = { 12, 10, 4, 14, 16, 22 }, opposite[6] = { 14, 16, 22, 12, 10, 4 };
  int n_send[6], n_recv[6], n_ci, face;
  particle_bc_func_t pbc_interact[32]; void * pbc_params[32];
  int bc[6], shared[6]; int64_t range[6];
  species_t * sp;
  if( !sp_list ) return;
  if( !fa || !aa || sp_list->g!=aa->g || fa->g!=aa->g ) ERROR(( "Bad args" ));
  const int nb = num_particle_bc( pbc_list );
  if( nb>32 ) ERROR(( "too many" ));
  for( particle_bc_t * b=pbc_list; b; b=b->next ) { pbc_interact[ -b->id-3 ] = b->interact; pbc_params[ -b->id-3 ] = b->params; }
  grid_t * g = fa->g; mp_t * mp = g->mp; field_t * f = fa->f; accumulator_t * a = aa->a;
  const int64_t all = g->range[ world_size ];
  for( face=0; face<6; face++ ) {
    bc[face] = g->bc[ port[face] ];
    shared[face] = bc[face]>=0 && bc[face]<world_size && bc[face]!=world_rank;
    if( shared[face] ) range[face] = g->range[ bc[face] ];
  }
  for( face=0; face<6; face++ ) if( shared[face] ) { mp_size_recv_buffer( mp, port[face], 4 ); mp_begin_recv( mp, port[face], 4, bc[face], opposite[face] ); }

  // departing particles
  {
    particle_injector_t * pi_send[6];
    int nm = 0;
    for( sp=sp_list; sp; sp=sp->next ) nm += sp->nm;
    for( face=0; face<6; face++ ) if( shared[face] ) {
      mp_size_send_buffer( mp, port[face], 16 + nm*sizeof( particle_injector_t ) );
      pi_send[face] = (particle_injector_t *)( (char *)mp_send_buffer( mp, port[face] ) + 16 );
      n_send[face] = 0;
    }
    if( max_ci<nm ) { particle_injector_t * new_ci = ci; FREE_ALIGNED( new_ci ); MALLOC_ALIGNED( new_ci, nm, 16 ); ci = new_ci; max_ci = nm; }
    n_ci = 0;
    for( sp=sp_list; sp; sp=sp->next ) {
      int np = sp->np;
      particle_mover_t * m = sp->pm + sp->nm - 1;
      for( nm=sp->nm; nm; m--, nm-- ) depart( g, f, sp, m, np, n_ci, nb, pbc_interact, pbc_params, ci, pi_send, n_send, range, all );
      sp->np = np; sp->nm = 0;
    }
  }

  // counts, then particles
  for( face=0; face<6; face++ ) if( shared[face] ) { *(int *)mp_send_buffer( mp, port[face] ) = n_send[face]; mp_begin_send( mp, port[face], 4, bc[face], port[face] ); }
  for( face=0; face<6; face++ ) if( shared[face] ) {
    mp_end_recv( mp, port[face] );
    n_recv[face] = *(int *)mp_recv_buffer( mp, port[face] );
    mp_size_recv_buffer( mp, port[face], 16 + n_recv[face]*sizeof( particle_injector_t ) );
    mp_begin_recv( mp, port[face], 16 + n_recv[face]*sizeof( particle_injector_t ), bc[face], opposite[face] );
  }
  for( face=0; face<6; face++ ) if( shared[face] ) { mp_end_send( mp, port[face] ); mp_begin_send( mp, port[face], 16 + n_send[face]*sizeof( particle_injector_t ), bc[face], port[face] ); }

  // room for all that may arrive
  {
    int arriving = n_ci;
    for( face=0; face<6; face++ ) if( shared[face] ) arriving += n_recv[face];
    for( sp=sp_list; sp; sp=sp->next ) {
      particle_mover_t * new_pm; particle_t * new_p;
      int n = sp->np + arriving;
      if( n>sp->max_np || ( sp->max_np>128 && n<sp->max_np>>1 ) ) {
        if( n>sp->max_np ) n += 0.3125*n;
        else { n += 0.125*n; if( n<128 ) n = 128; }
        MALLOC_ALIGNED( new_p, n, 128 ); COPY( new_p, sp->p, sp->np ); FREE_ALIGNED( sp->p );
        sp->p = new_p; sp->max_np = n;
      }
      int k = sp->nm + arriving;
      if( k>sp->max_nm ) {
        k += 0.3125*k;
        MALLOC_ALIGNED( new_pm, k, 128 ); COPY( new_pm, sp->pm, sp->nm ); FREE_ALIGNED( sp->pm );
        sp->pm = new_pm; sp->max_nm = k;
      }
    }
  }

  // arriving particles: those of the handlers first, then by face
  {
    particle_t * sp_p[32]; particle_mover_t * sp_pm[32]; float sp_q[32]; int sp_np[32], sp_nm[32];
    if( num_species( sp_list )>32 ) ERROR(( "too many" ));
    for( sp=sp_list; sp; sp=sp->next ) { sp_p[sp->id] = sp->p; sp_pm[sp->id] = sp->pm; sp_q[sp->id] = sp->q; sp_np[sp->id] = sp->np; sp_nm[sp->id] = sp->nm; }
    for( int k=0; k<7; k++ ) {
      const particle_injector_t * pi; int n;
      face = k==0 ? 6 : k-1;
      if( face==6 ) { pi = ci; n = n_ci; }
      else if( shared[face] ) { mp_end_recv( mp, port[face] ); pi = (const particle_injector_t *)( (char *)mp_recv_buffer( mp, port[face] ) + 16 ); n = n_recv[face]; }
      else continue;
      for( pi+=n-1; n; pi--, n-- ) {
        int s = pi->sp_id, np = sp_np[s], nm = sp_nm[s];
        particle_t * p = sp_p[s] + np; particle_mover_t * m = sp_pm[s] + nm;
        p->dx = pi->dx; p->dy = pi->dy; p->dz = pi->dz; p->i = pi->i; p->ux = pi->ux; p->uy = pi->uy; p->uz = pi->uz; p->w = pi->w;
        sp_np[s] = np + 1;
        m->dispx = pi->dispx; m->dispy = pi->dispy; m->dispz = pi->dispz; m->i = np;
        sp_nm[s] = nm + move_p( sp_p[s], m, a, g, sp_q[s] );
      }
    }
    for( sp=sp_list; sp; sp=sp->next ) { sp->np = sp_np[sp->id]; sp->nm = sp_nm[sp->id]; }
  }
  for( face=0; face<6; face++ ) if( shared[face] ) mp_end_send( mp, port[face] );
}

#include "native.h"
#ifndef __clang__
ALLOCATORS
static grid_t * G; static int NS; static species_t * SP[4]; static std::vector<particle_t> DUMMY;
static std::string part( const particle_t * p ) { char b[400]; snprintf( b, 400, "{%.7e %.7e %.7e i=%i %.7e %.7e %.7e %.7e}", p->dx, p->dy, p->dz, p->i, p->ux, p->uy, p->uz, p->w ); return b; }
static std::string mov( const particle_mover_t * p ) { char b[300]; snprintf( b, 300, "{%.7e %.7e %.7e i=%i}", p->dispx, p->dispy, p->dispz, p->i ); return b; }
static std::string inj( const particle_injector_t * p ) { char b[400]; snprintf( b, 400, "[%.7e %.7e %.7e i=%i %.7e %.7e %.7e %.7e, %.7e %.7e %.7e, species %i]", p->dx, p->dy, p->dz, p->i, p->ux, p->uy, p->uz, p->w, p->dispx, p->dispy, p->dispz, p->sp_id ); return b; }
void accumulate_rhob( field_t * f, const particle_t * p, const grid_t * g, const float q ) { logf_( "accumulate_rhob %s %.7e", part( p ).c_str(), q ); }
static int which( const particle_t * p ) { for( int s=0; s<NS; s++ ) if( SP[s]->p==p ) return s; return -1; }
int move_p( particle_t * p, particle_mover_t * pm, accumulator_t * a, const grid_t * g, const float q ) {
  int s = which( p ); logf_( "move_p species %i mover %i %s %s %.7e", s, s<0 ? -1 : (int)( pm-SP[s]->pm ), mov( pm ).c_str(), part( p+pm->i ).c_str(), q );
  p[pm->i].dx = rdbl( -1, 1 ); pm->dispy = rdbl( -1, 1 ); return rnd()%3==0;
}
int num_species( const species_t * s ) { return s ? s->id+1 : 0; }
int num_particle_bc( const particle_bc_t * RESTRICT l ) { return l ? -l->id-2 : 0; }
static char * SB[27], * RB[27]; static int RS[27], SS[27], PH[27]; static uint32_t MSG;
void mp_size_recv_buffer( mp_t *, int port, int n ) { logf_( "mp_size_recv_buffer %i %i", port, n ); if( n>RS[port] ) { char * q = fresh_<char>( n ); memcpy( q, RB[port], RS[port] ); RB[port] = q; RS[port] = n; } }
void mp_size_send_buffer( mp_t *, int port, int n ) { logf_( "mp_size_send_buffer %i %i", port, n ); if( n>SS[port] ) { char * q = fresh_<char>( n ); if( SS[port] ) memcpy( q, SB[port], SS[port] ); SB[port] = q; SS[port] = n; } }
void * mp_send_buffer( mp_t *, int port ) { return SB[port]; }
void * mp_recv_buffer( mp_t *, int port ) { return RB[port]; }
void mp_begin_recv( mp_t *, int port, int n, int src, int tag ) { logf_( "mp_begin_recv %i %i from %i tag %i", port, n, src, tag ); }
void mp_begin_send( mp_t *, int port, int n, int dst, int tag ) {
  logf_( "mp_begin_send %i %i to %i tag %i: %i", port, n, dst, tag, *(int *)SB[port] );
  for( int i=0; n>=16 && i<( n-16 )/(int)sizeof(particle_injector_t); i++ ) logf_( "sends %s", inj( (particle_injector_t *)( SB[port]+16 ) + i ).c_str() );
}
void mp_end_send( mp_t *, int port ) { logf_( "mp_end_send %i", port ); }
static void fill( particle_injector_t * p, uint32_t seed ) {
  uint64_t keep = rs_; rs_ = seed; for( int i=0; i<4; i++ ) rnd();
  p->dx = rdbl( -1, 1 ); p->dy = rdbl( -1, 1 ); p->dz = rdbl( -1, 1 ); p->i = rint_( 1, 60 ); p->ux = rdbl( -1, 1 ); p->uy = rdbl( -1, 1 ); p->uz = rdbl( -1, 1 ); p->w = rdbl( 0, 5 );
  p->dispx = rdbl( -1, 1 ); p->dispy = rdbl( -1, 1 ); p->dispz = rdbl( -1, 1 ); p->sp_id = rint_( 0, NS-1 ); rs_ = keep;
}
void mp_end_recv( mp_t *, int port ) {
  logf_( "mp_end_recv %i", port );
  int n = ( MSG>>( port%11 ) )%6; if( n==5 && port%3==0 ) n = 70;
  if( PH[port]++==0 ) *(int *)RB[port] = n;
  else for( int i=0; i<n; i++ ) fill( (particle_injector_t *)( RB[port]+16 ) + i, MSG + port*1000 + i );
}
static int handler( void * b, species_t * sp, particle_t * p, particle_mover_t * pm, particle_injector_t * pi, int max_pi, int face ) {
  logf_( "handler %i species %i %s %s, at most %i, face %i", *(int *)b, sp->id, part( p ).c_str(), mov( pm ).c_str(), max_pi, face );
  if( rnd()%3==0 ) return 0;
  fill( pi, rnd() ); return 1;
}
static int handler2( void * b, species_t * sp, particle_t * p, particle_mover_t * pm, particle_injector_t * pi, int max_pi, int face ) { logf_( "second handler" ); return handler( b, sp, p, pm, pi, max_pi, face ); }
static std::vector<std::string> once( unsigned seed, int spec ) {
  LOG.clear(); rs_ = seed*2654435761ull + 4711; for( int i=0; i<4; i++ ) rnd();
  MSG = rnd(); memset( PH, 0, sizeof(PH) ); for( int i=0; i<27; i++ ) { SS[i] = RS[i] = 16; SB[i] = fresh_<char>( 16 ); RB[i] = fresh_<char>( 16 ); }
  static const int port[6] = { 12, 10, 4, 14, 16, 22 };
  grid_t * g = G = fresh_<grid_t>(); int nv = 64; g->nv = nv;
  _world_size = rint_( 1, 5 ); _world_rank = rint_( 0, _world_size-1 );
  g->range = fresh_<int64_t>( 8 ); for( int r=0; r<8; r++ ) g->range[r] = (int64_t)nv*r; g->rangel = g->range[_world_rank]; g->rangeh = g->range[_world_rank+1]-1;
  for( int i=0; i<27; i++ ) g->bc[i] = rint_( -3, _world_size );
  for( int f=0; f<6; f++ ) g->bc[port[f]] = rnd()%4 ? rint_( 0, _world_size-1 ) : rint_( -6, -1 );
  particle_bc_t * list = 0; int nb = rint_( 0, 3 );
  for( int b=0; b<nb; b++ ) { particle_bc_t * q = fresh_<particle_bc_t>(); int * k = fresh_<int>(); *k = b; q->params = k; q->interact = b%2 ? (particle_bc_func_t)handler : (particle_bc_func_t)handler2; q->id = -3-b; q->next = list; list = q; }
  g->neighbor = fresh_<int64_t>( 6*nv );
  for( int v=0; v<nv; v++ ) for( int f=0; f<6; f++ ) {
    int b = g->bc[port[f]]; int64_t & n = g->neighbor[6*v+f];
    if( b>=0 && b<_world_size && b!=_world_rank ) n = g->range[b] + rint_( 0, nv-1 );
    else { int k = rint_( 0, 3 ); n = k==0 ? -2 : k==1 || !nb ? -2 : -3-rint_( 0, nb-1 ); if( rnd()%9==0 ) n = -3-nb-rint_( 0, 2 ); }
  }
  NS = rint_( 0, 3 ); species_t * sl = 0;
  for( int s=0; s<NS; s++ ) {
    species_t * sp = SP[s] = fresh_<species_t>(); sp->id = s; sp->q = rdbl( -2, 2 ); sp->g = g; sp->name = (char *)"s"; sp->next = sl; sl = sp;
    int big = rnd()%3==0; sp->max_np = big ? 600 : rint_( 8, 24 ); sp->np = rint_( 0, big ? 60 : sp->max_np-2 ); sp->max_nm = rint_( 4, 16 );
    util_malloc_aligned( 0, &sp->p, sizeof(particle_t)*sp->max_np, 128 ); util_malloc_aligned( 0, &sp->pm, sizeof(particle_mover_t)*sp->max_nm, 128 );
    memset( sp->p, 0, sizeof(particle_t)*sp->max_np ); memset( sp->pm, 0, sizeof(particle_mover_t)*sp->max_nm );
    for( int i=0; i<sp->np; i++ ) { particle_t * p = sp->p+i; p->dx = rdbl( -1, 1 ); p->dy = rdbl( -1, 1 ); p->dz = rdbl( -1, 1 ); p->i = rint_( 1, nv-1 ); p->ux = rdbl( -1, 1 ); p->uy = rdbl( -1, 1 ); p->uz = rdbl( -1, 1 ); p->w = i+1; }
    sp->nm = 0; for( int i=0; i<sp->np && sp->nm<sp->max_nm; i++ ) if( rnd()%3==0 ) { particle_mover_t * m = sp->pm + sp->nm++; m->i = i; m->dispx = rdbl( -1, 1 ); m->dispy = rdbl( -1, 1 ); m->dispz = rdbl( -1, 1 ); sp->p[i].i = sp->p[i].i*8 + rint_( 0, 5 ); }
  }
  field_array_t * fa = fresh_<field_array_t>(); accumulator_array_t * aa = fresh_<accumulator_array_t>(); fa->g = aa->g = g;
  if( spec ) spec_boundary_p( list, sl, fa, aa ); else boundary_p( list, sl, fa, aa );
  for( int s=0; s<NS; s++ ) {
    species_t * sp = SP[s]; logf_( "species %i: %i of %i particles, %i of %i movers", s, sp->np, sp->max_np, sp->nm, sp->max_nm );
    for( int i=0; i<sp->np; i++ ) logf_( "particle %i %s", i, part( sp->p+i ).c_str() );
    for( int i=0; i<sp->nm; i++ ) logf_( "mover %i %s", i, mov( sp->pm+i ).c_str() );
    util_free_aligned( &sp->p ); util_free_aligned( &sp->pm );
  }
  std::vector<std::string> l = LOG; release_(); return l;
}
extern "C" int native_case( unsigned seed, char * msg, int n ) { std::vector<std::string> a = once( seed, 0 ), b = once( seed, 1 ); return differ_( a, b, msg, n ); }
#endif
