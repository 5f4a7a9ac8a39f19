// P03: particle sorting (src/species_advance/standard/sort_p.cc, pipeline/sort_p_pipeline.cc)
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include <string>
#include <vector>
#define IN_spa
#include "species_advance/standard/sort_p.cc"
#include "species_advance/standard/pipeline/sort_p_pipeline.cc"

// the coarse bin of a cell and the first cell of a bin: cells vl to vh in n equal parts
static inline int64_t bin( int v, int n, int vl, int vh ) { return (int64_t)( v-vl )*(int64_t)n/(int64_t)( vh-vl+1 ); }
static inline int first( int b, int n, int vl, int vh ) { return vl + ( (int64_t)b*(int64_t)( vh-vl+1 ) + (int64_t)( n-1 ) )/(int64_t)n; }
// worker r of w: its share of the particles
static inline void share( int n, int r, int w, int & from, int & to ) { DISTRIBUTE( n, 1, r, w, from, to ); to += from; }

// each worker counts its particles of every bin
extern "C" void
spec_coarse_count( sort_p_pipeline_args_t * a, int rank, int n ) {
  const particle_t * p = a->p; int k = a->n_subsort, vl = a->vl, vh = a->vh, row = ( k + 3 ) & ~3, i, to, count[256];
  if( rank==n ) return;
  if( k>256 ) ERROR(( "too many" ));
  share( a->n, rank, n, i, to );
  CLEAR( count, k );
  for( ; i<to; i++ ) count[ bin( p[i].i, k, vl, vh ) ]++;
  COPY( a->coarse_partition + row*rank, count, k );
}

// and copies them, in order, from the position reserved for it in every bin
extern "C" void
spec_coarse_sort( sort_p_pipeline_args_t * a, int rank, int n ) {
  const particle_t * from = a->p; particle_t * out = a->aux_p; int k = a->n_subsort, vl = a->vl, vh = a->vh, row = ( k + 3 ) & ~3, i, to, next[256];
  if( rank==n ) return;
  if( k>256 ) ERROR(( "too many" ));
  share( a->n, rank, n, i, to );
  COPY( next, a->coarse_partition + row*rank, k );
  for( ; i<to; i++ ) { int j = next[ bin( from[i].i, k, vl, vh ) ]++; out[j] = from[i]; }
}

// worker r sorts the bins r, r+w, r+2w ... by cell, keeping the order of the particles of a cell
extern "C" void
spec_subsort( sort_p_pipeline_args_t * a, int rank, int n ) {
  const particle_t * from = a->aux_p; particle_t * out = a->p; int k = a->n_subsort; int * part = a->partition, * next = a->next;
  if( rank==n ) return;
  for( int b=rank; b<k; b+=n ) {
    int i0 = a->coarse_partition[b], i1 = a->coarse_partition[b+1];
    int v0 = first( b, k, a->vl, a->vh ), v1 = first( b+1, k, a->vl, a->vh ), i, v, at;
    CLEAR( &next[v0], v1-v0 );
    for( i=i0; i<i1; i++ ) next[ from[i].i ]++;
    at = i0;
    for( v=v0; v<v1; v++ ) { int c = next[v]; next[v] = at; part[v] = at; at += c; }
    part[v1] = at;
    for( i=i0; i<i1; i++ ) { int j = next[ from[i].i ]++; out[j] = from[i]; }
  }
}

// the parallel sort: count, reserve positions by bin then worker, move, sort the bins; cells before the first hold
// no particle and those after the last start after all of them
extern "C" void
spec_sort_parallel( species_t * sp ) {
  static char * scratch = NULL; static size_t max_scratch = 0;
  if( !sp ) ERROR(( "Bad args" ));
  grid_t * g = sp->g;
  sp->last_sorted = g->step;
  particle_t * p = sp->p, * aux; int np = sp->np, * part = sp->partition, * next, * coarse, i;
  int vl = 1 + ( g->nx+2 )*( 1 + ( g->ny+2 ) ), vh = g->nx + ( g->nx+2 )*( g->ny + ( g->ny+2 )*g->nz ), nv = g->nv;
  int n = N_PIPELINE, k = N_PIPELINE, row = ( k + 3 ) & ~3;
  DECLARE_ALIGNED_ARRAY( sort_p_pipeline_args_t, 128, args, 1 );
  size_t size = sizeof(particle_t)*np + 128 + sizeof(int)*nv + 128 + sizeof(int)*( row*n + 1 );
  if( size>max_scratch ) { FREE_ALIGNED( scratch ); MALLOC_ALIGNED( scratch, size, 128 ); max_scratch = size; }
  aux = ALIGN_PTR( particle_t, scratch, 128 ); next = ALIGN_PTR( int, aux + np, 128 ); coarse = ALIGN_PTR( int, next + nv, 128 );
  args->p = p; args->aux_p = aux; args->coarse_partition = coarse; args->next = next; args->partition = part;
  args->n = np; args->n_subsort = k; args->vl = vl; args->vh = vh; args->n_voxel = nv;
  if( k!=1 ) {
    EXEC_PIPELINES( coarse_count, args, 0 ); WAIT_PIPELINES();
    int at = 0;
    for( int b=0; b<k; b++ ) for( int r=0; r<n; r++ ) { int c = coarse[ b + row*r ]; coarse[ b + row*r ] = at; at += c; }
    EXEC_PIPELINES( coarse_sort, args, 0 ); WAIT_PIPELINES();
    coarse[k] = np;
    EXEC_PIPELINES( subsort, args, 0 );
    CLEAR( part, vl );
    for( i=vh+1; i<nv; i++ ) part[i] = np;
    WAIT_PIPELINES();
  } else {
    coarse[0] = 0; coarse[1] = np; args->p = aux; args->aux_p = p;
    subsort_pipeline_scalar( args, 0, 1 );
    CLEAR( part, vl );
    for( i=vh+1; i<nv; i++ ) part[i] = np;
    COPY( p, aux, np );
  }
}

#ifdef VPIC_USE_LEGACY_SORT
// the serial sort: counts, positions, then out of place in order or in place by cycles
extern "C" void
spec_sort_serial( species_t * sp ) {
  static int * next = NULL; static int max_nc1 = 0;
  if( !sp ) ERROR(( "Bad args" ));
  sp->last_sorted = sp->g->step;
  particle_t * p = sp->p; int np = sp->np, nc = sp->g->nv, * part = sp->partition, i, at;
  if( np==0 ) return;
  if( max_nc1<nc+1 ) { int * tmp = next; FREE_ALIGNED( tmp ); MALLOC_ALIGNED( tmp, nc+1, 128 ); next = tmp; max_nc1 = nc+1; }
  CLEAR( next, nc+1 );
  for( i=0; i<np; i++ ) next[ p[i].i ]++;
  at = 0;
  for( i=0; i<nc+1; i++ ) { part[i] = at; at += next[i]; next[i] = part[i]; }
  if( sp->sort_out_of_place ) {
    particle_t * q;
    MALLOC_ALIGNED( q, sp->max_np, 128 );
    const particle_t * from = sp->p;
    for( i=0; i<np; i++ ) q[ next[ from[i].i ]++ ] = from[i];
    FREE_ALIGNED( sp->p );
    sp->p = q;
  } else {
    particle_t t, * a, * b;
    i = 0;
    while( i<nc ) {
      if( next[i]>=part[i+1] ) i++;
      else { a = &p[ next[i] ]; for(;;) { b = &p[ next[ a->i ]++ ]; if( a==b ) break; t = *b; *b = *a; *a = t; } }
    }
  }
}
#endif

#include "native.h"
#ifndef __clang__
ALLOCATORS
static std::string part_( const particle_t * p ) { char b[400]; snprintf( b, 400, "cell %i {%.7e %.7e %.7e, %.7e %.7e %.7e, weight %.0f}", p->i, p->dx, p->dy, p->dz, p->ux, p->uy, p->uz, p->w ); return b; }
static int late; static void * W_a; static int W_sz, W_str; static pipeline_func_t W_f; static int pending;
#if defined(VPIC_USE_PTHREADS)
static void wait_( void ) { if( pending ) { pending = 0; for( int r=thread.n_pipeline-1; r>=0; r-- ) W_f( (char *)W_a + r*W_sz*W_str, r, thread.n_pipeline ); } }
static void disp_( pipeline_func_t f, void * a, int sz, int str ) {
  if( pending ) { logf_( "dispatch without wait" ); wait_(); }
  W_f = f; W_a = a; W_sz = sz; W_str = str; pending = 1; if( !late ) { pending = 0; for( int r=0; r<thread.n_pipeline; r++ ) f( (char *)a + r*sz*str, r, thread.n_pipeline ); }
}
pipeline_dispatcher_t thread = { 1, 0, 0, disp_, wait_ };
#endif
static std::vector<std::string> once( unsigned seed, int spec ) {
  LOG.clear(); rs_ = seed*2654435761ull + 4711; for( int i=0; i<4; i++ ) rnd();
  int n = rnd()%4==0 ? 1 : rint_( 2, 9 ); if( rnd()%40==0 ) n = rint_( 10, 250 ); late = rnd()%2; pending = 0;
  thread.n_pipeline = n;
  grid_t * g = fresh_<grid_t>(); g->nx = rint_( 1, 5 ); g->ny = rint_( 1, 5 ); g->nz = rint_( 1, 4 ); g->nv = ( g->nx+2 )*( g->ny+2 )*( g->nz+2 ); g->step = rint_( 0, 1000 );
  species_t * sp = fresh_<species_t>(); sp->g = g; sp->np = rnd()%9==0 ? rint_( 0, 2 ) : rint_( 0, 400 ); sp->max_np = sp->np + 8; sp->sort_out_of_place = rnd()%2; sp->last_sorted = -1;
  util_malloc_aligned( 0, &sp->p, sizeof(particle_t)*sp->max_np, 128 ); sp->partition = fresh_<int>( g->nv+1 ); for( int i=0; i<=g->nv; i++ ) sp->partition[i] = rint_( 0, 99 );
  const int narrow = rnd()%3==0;
  for( int i=0; i<sp->np; i++ ) {
    particle_t * p = sp->p + i; p->dx = rdbl( -1, 1 ); p->dy = rdbl( -1, 1 ); p->dz = rdbl( -1, 1 ); p->ux = rdbl( -1, 1 ); p->uy = rdbl( -1, 1 ); p->uz = rdbl( -1, 1 ); p->w = i+1;
    p->i = VOXEL( rint_( 1, narrow ? 1 : g->nx ), rint_( 1, g->ny ), rint_( 1, g->nz ), g->nx, g->ny, g->nz );
  }
  std::vector<int> cells( g->nv+1 ); for( int i=0; i<sp->np; i++ ) cells[ sp->p[i].i ]++;
  std::vector<particle_t> in( sp->p, sp->p + sp->np );
#ifdef VPIC_USE_LEGACY_SORT
  if( spec ) spec_sort_serial( sp ); else sort_p( sp );
  if( sp->np==0 ) memset( sp->partition, 0, sizeof(int)*( g->nv+1 ) );
#else
  if( spec ) spec_sort_parallel( sp ); else sort_p( sp );
  sp->partition[g->nv] = 0;
#endif
  logf_( "sorted at %i, %i of %i particles, pending %i", (int)sp->last_sorted, sp->np, sp->max_np, pending );
  // what the property says, of the code and of the specification
  std::string bad; std::vector<int> seen( sp->np+1 );
  for( int i=0; i<sp->np; i++ ) {
    const particle_t * p = sp->p + i; int k = (int)p->w;
    if( i && p[-1].i>p->i ) bad = "not in cell order";
    if( k<1 || k>sp->np || seen[k]++ || memcmp( &in[k-1], p, sizeof(particle_t) ) ) bad = "not a permutation";
    if( !( sp->partition[p->i]<=i && i<sp->partition[p->i] + cells[p->i] ) ) bad = "partition table";
  }
  logf_( "%s", bad.empty() ? "in order" : bad.c_str() );
  for( int i=0; i<sp->np; i++ ) logf_( "particle %i %s", i, part_( sp->p+i ).c_str() );
  for( int i=0; i<=g->nv; i++ ) logf_( "partition %i: %i", i, sp->partition[i] );
  util_free_aligned( &sp->p );
  std::vector<std::string> l = LOG; release_(); return l;
}
extern "C" int native_case( unsigned seed, char * msg, int n ) {
  std::vector<std::string> a = once( seed, 0 ), b = once( seed, 1 );
  for( auto & s : a ) if( s=="not in cell order" || s=="not a permutation" || s=="partition table" ) { snprintf( msg, n, "%s", s.c_str() ); return 1; }
  return differ_( a, b, msg, n );
}
#endif
