// G01: domain decomposition (src/grid/partition.cc, ops.cc, grid_structors.cc and the wrappers of src/vpic/vpic.h)
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <map>
#include <iostream>
#define protected public
#define private public
#include "vpic/vpic.h"
#undef RANK_TO_INDEX
#include "grid/partition.cc"
#include "grid/ops.cc"
#include "grid/grid_structors.cc"

// ranks count domains in x, then y, then z
static inline void position( int rank, int px, int py, int & ix, int & iy, int & iz ) { int row = rank/px; ix = rank - row*px; iz = row/py; iy = row - iz*py; }
static inline int wrapped( int i, int n ) { while( i>=n ) i -= n; while( i<0 ) i += n; return i; }
static inline int rank_at( int ix, int iy, int iz, int px, int py, int pz ) { int x = wrapped( ix, px ), y = wrapped( iy, py ), z = wrapped( iz, pz ); return x + px*( y + py*z ); }

extern "C" void
spec_periodic( grid_t * g, double ax, double ay, double az, double bx, double by, double bz, int nx, int ny, int nz, int px, int py, int pz ) {
  int ix, iy, iz;
  if( !g ) ERROR(( "no grid" ));
  if( px<1 || py<1 || pz<1 || px*py*pz!=world_size ) ERROR(( "one domain per rank" ));
  if( nx<1 || ny<1 || nz<1 || nx%px || ny%py || nz%pz ) ERROR(( "domains of equal size" ));
  position( world_rank, px, py, ix, iy, iz );
  // equal cells, equal domains
  g->dx = ( bx-ax )/(double)nx; g->dy = ( by-ay )/(double)ny; g->dz = ( bz-az )/(double)nz;
  g->dV = ( ( bx-ax )/(double)nx )*( ( by-ay )/(double)ny )*( ( bz-az )/(double)nz );
  g->rdx = (double)nx/( bx-ax ); g->rdy = (double)ny/( by-ay ); g->rdz = (double)nz/( bz-az );
  g->r8V = ( (double)nx/( bx-ax ) )*( (double)ny/( by-ay ) )*( (double)nz/( bz-az ) )*0.125;
  double lo, hi;
  lo = (double)ix/(double)px; hi = (double)( ix+1 )/(double)px; g->x0 = ax*( 1-lo ) + bx*lo; g->x1 = ax*( 1-hi ) + bx*hi;
  lo = (double)iy/(double)py; hi = (double)( iy+1 )/(double)py; g->y0 = ay*( 1-lo ) + by*lo; g->y1 = ay*( 1-hi ) + by*hi;
  lo = (double)iz/(double)pz; hi = (double)( iz+1 )/(double)pz; g->z0 = az*( 1-lo ) + bz*lo; g->z1 = az*( 1-hi ) + bz*hi;
  size_grid( g, nx/px, ny/py, nz/pz );
  // joined to the domain on each side, around the box
  join_grid( g, 13-1, rank_at( ix-1, iy, iz, px, py, pz ) );
  join_grid( g, 13-3, rank_at( ix, iy-1, iz, px, py, pz ) );
  join_grid( g, 13-9, rank_at( ix, iy, iz-1, px, py, pz ) );
  join_grid( g, 13+1, rank_at( ix+1, iy, iz, px, py, pz ) );
  join_grid( g, 13+3, rank_at( ix, iy+1, iz, px, py, pz ) );
  join_grid( g, 13+9, rank_at( ix, iy, iz+1, px, py, pz ) );
}

static inline void wall( grid_t * g, int face, int fbc, int pbc ) { set_fbc( g, face, fbc ); set_pbc( g, face, pbc ); }

// walls where the box ends, in the directions the box has more than one cell
static inline void
walls( grid_t * g, int nx, int ny, int nz, int px, int py, int pz, int fbc, int pbc ) {
  int ix, iy, iz;
  position( world_rank, px, py, ix, iy, iz );
  if( nx>1 && ix==0 ) wall( g, 13-1, fbc, pbc );
  if( nx>1 && ix==px-1 ) wall( g, 13+1, fbc, pbc );
  if( ny>1 && iy==0 ) wall( g, 13-3, fbc, pbc );
  if( ny>1 && iy==py-1 ) wall( g, 13+3, fbc, pbc );
  if( nz>1 && iz==0 ) wall( g, 13-9, fbc, pbc );
  if( nz>1 && iz==pz-1 ) wall( g, 13+9, fbc, pbc );
}

extern "C" void
spec_absorbing( grid_t * g, double ax, double ay, double az, double bx, double by, double bz, int nx, int ny, int nz, int px, int py, int pz, int pbc ) {
  partition_periodic_box( g, ax, ay, az, bx, by, bz, nx, ny, nz, px, py, pz );
  walls( g, nx, ny, nz, px, py, pz, absorb_fields, pbc );
}

extern "C" void
spec_metal( grid_t * g, double ax, double ay, double az, double bx, double by, double bz, int nx, int ny, int nz, int px, int py, int pz ) {
  partition_periodic_box( g, ax, ay, az, bx, by, bz, nx, ny, nz, px, py, pz );
  walls( g, nx, ny, nz, px, py, pz, pec_fields, reflect_particles );
}

#define CELL(x,y,z) ( (x) + ( nx+2 )*( (y) + ( ny+2 )*(z) ) )

// a domain of its own: the ranks own consecutive voxel numbers; interior faces lead to the next cell, the rest reflect
extern "C" void
spec_size( grid_t * g, int nx, int ny, int nz ) {
  int r, i; int64_t mine, at, c;
  if( !g || nx<1 || ny<1 || nz<1 ) ERROR(( "bad mesh" ));
  g->nx = nx; g->ny = ny; g->nz = nz;
  g->sx = 1; g->sy = nx+2; g->sz = ( ny+2 )*g->sy; g->nv = ( nz+2 )*g->sz;
  for( i=0; i<27; i++ ) g->bc[i] = pec_fields;
  g->bc[13] = world_rank;
  FREE_ALIGNED( g->range );
  MALLOC_ALIGNED( g->range, world_size+1, 16 );
  mine = g->nv;
  mp_allgather_i64( &mine, g->range, 1 );
  g->range[world_size] = 0;
  for( at=0, r=0; r<=world_size; r++ ) { c = g->range[r]; g->range[r] = at; at += c; }
  g->rangel = g->range[world_rank];
  g->rangeh = g->range[world_rank+1]-1;
  FREE_ALIGNED( g->neighbor );
  MALLOC_ALIGNED( g->neighbor, 6*g->nv, 128 );
  for( int64_t z=0; z<=nz+1; z++ )
    for( int64_t y=0; y<=ny+1; y++ )
      for( int64_t x=0; x<=nx+1; x++ ) {
        int64_t * to = g->neighbor; int k = 6*CELL(x,y,z);
        if( x==0 || y==0 || z==0 || x==nx+1 || y==ny+1 || z==nz+1 ) { to[k] = to[k+1] = to[k+2] = to[k+3] = to[k+4] = to[k+5] = reflect_particles; }
        else {
          to[k  ] = x==1 ? reflect_particles : g->rangel + CELL(x-1,y,z);
          to[k+1] = y==1 ? reflect_particles : g->rangel + CELL(x,y-1,z);
          to[k+2] = z==1 ? reflect_particles : g->rangel + CELL(x,y,z-1);
          to[k+3] = x==nx ? reflect_particles : g->rangel + CELL(x+1,y,z);
          to[k+4] = y==ny ? reflect_particles : g->rangel + CELL(x,y+1,z);
          to[k+5] = z==nz ? reflect_particles : g->rangel + CELL(x,y,z+1);
        }
      }
}

// the outer cells of a face lead to the facing cells of the other domain, which has the same cross section
extern "C" void
spec_join( grid_t * g, int side, int rank ) {
  if( !g || side<0 || side>=27 || side==13 || rank<0 || rank>=world_size ) ERROR(( "bad join" ));
  g->bc[side] = rank;
  int nx = g->nx, ny = g->ny, nz = g->nz, nv = g->range[rank+1] - g->range[rank], n, x, y, z;
# define REMOTE(x,y,z, nx,ny,nz) ( g->range[rank] + ( (x) + ( (nx)+2 )*( (y) + ( (ny)+2 )*(z) ) ) )
  if( side==13-1 || side==13+1 ) {
    if( nv%( ( ny+2 )*( nz+2 ) ) ) ERROR(( "cross sections differ" ));
    n = nv/( ( ny+2 )*( nz+2 ) ) - 2;
    if( side==13-1 ) { for( z=1; z<=nz; z++ ) for( y=1; y<=ny; y++ ) g->neighbor[ 6*CELL(1,y,z) + 0 ] = REMOTE( n,y,z, n,ny,nz ); }
    else             { for( z=1; z<=nz; z++ ) for( y=1; y<=ny; y++ ) g->neighbor[ 6*CELL(nx,y,z) + 3 ] = REMOTE( 1,y,z, n,ny,nz ); }
  } else if( side==13-3 || side==13+3 ) {
    if( nv%( ( nz+2 )*( nx+2 ) ) ) ERROR(( "cross sections differ" ));
    n = nv/( ( nz+2 )*( nx+2 ) ) - 2;
    if( side==13-3 ) { for( x=1; x<=nx; x++ ) for( z=1; z<=nz; z++ ) g->neighbor[ 6*CELL(x,1,z) + 1 ] = REMOTE( x,n,z, nx,n,nz ); }
    else             { for( x=1; x<=nx; x++ ) for( z=1; z<=nz; z++ ) g->neighbor[ 6*CELL(x,ny,z) + 4 ] = REMOTE( x,1,z, nx,n,nz ); }
  } else if( side==13-9 || side==13+9 ) {
    if( nv%( ( nx+2 )*( ny+2 ) ) ) ERROR(( "cross sections differ" ));
    n = nv/( ( nx+2 )*( ny+2 ) ) - 2;
    if( side==13-9 ) { for( y=1; y<=ny; y++ ) for( x=1; x<=nx; x++ ) g->neighbor[ 6*CELL(x,y,1) + 2 ] = REMOTE( x,y,n, nx,ny,n ); }
    else             { for( y=1; y<=ny; y++ ) for( x=1; x<=nx; x++ ) g->neighbor[ 6*CELL(x,y,nz) + 5 ] = REMOTE( x,y,1, nx,ny,n ); }
  }
}

extern "C" void
spec_fbc( grid_t * g, int side, int fbc ) {
  if( !g || side<0 || side>=27 || side==13 || fbc<-4 || fbc>-1 ) ERROR(( "bad boundary" ));
  g->bc[side] = fbc;
}

// every cell of a face gets the boundary code
extern "C" void
spec_pbc( grid_t * g, int side, int pbc ) {
  if( !g || side<0 || side>=27 || side==13 || pbc>=0 ) ERROR(( "bad boundary" ));
  int nx = g->nx, ny = g->ny, nz = g->nz, x, y, z;
  if( side==13-1 ) { for( z=1; z<=nz; z++ ) for( y=1; y<=ny; y++ ) g->neighbor[ 6*CELL(1,y,z) + 0 ] = pbc; }
  if( side==13-3 ) { for( x=1; x<=nx; x++ ) for( z=1; z<=nz; z++ ) g->neighbor[ 6*CELL(x,1,z) + 1 ] = pbc; }
  if( side==13-9 ) { for( y=1; y<=ny; y++ ) for( x=1; x<=nx; x++ ) g->neighbor[ 6*CELL(x,y,1) + 2 ] = pbc; }
  if( side==13+1 ) { for( z=1; z<=nz; z++ ) for( y=1; y<=ny; y++ ) g->neighbor[ 6*CELL(nx,y,z) + 3 ] = pbc; }
  if( side==13+3 ) { for( x=1; x<=nx; x++ ) for( z=1; z<=nz; z++ ) g->neighbor[ 6*CELL(x,ny,z) + 4 ] = pbc; }
  if( side==13+9 ) { for( y=1; y<=ny; y++ ) for( x=1; x<=nx; x++ ) g->neighbor[ 6*CELL(x,y,nz) + 5 ] = pbc; }
}

extern "C" grid_t *
spec_new( void ) {
  grid_t * g; int i;
  MALLOC( g, 1 ); CLEAR( g, 1 );
  for( i=0; i<27; i++ ) g->bc[i] = pec_fields;
  g->bc[13] = world_rank;
  g->mp = new_mp( 27 );
  REGISTER_OBJECT( g, checkpt_grid, restore_grid, NULL );
  return g;
}

extern "C" void
spec_delete( grid_t * g ) {
  if( g ) { UNREGISTER_OBJECT( g ); FREE_ALIGNED( g->neighbor ); FREE_ALIGNED( g->range ); delete_mp( g->mp ); FREE( g ); }
}

// what an input deck calls
#define D6 double ax, double ay, double az, double bx, double by, double bz, double nx, double ny, double nz, double px, double py, double pz
#define A6 ax, ay, az, bx, by, bz
extern "C" void code_deck_periodic( vpic_simulation * S, D6 ) { S->define_periodic_grid( A6, nx, ny, nz, px, py, pz ); }
extern "C" void code_deck_absorbing( vpic_simulation * S, D6, int pbc ) { S->define_absorbing_grid( A6, nx, ny, nz, px, py, pz, pbc ); }
extern "C" void code_deck_reflecting( vpic_simulation * S, D6 ) { S->define_reflecting_grid( A6, nx, ny, nz, px, py, pz ); }
extern "C" void code_deck_custom( vpic_simulation * S, double nx, double ny, double nz, int side, double rank, int a, int fbc, int b, int pbc ) { S->size_domain( nx, ny, nz ); S->join_domain( side, rank ); S->set_domain_field_bc( a, fbc ); S->set_domain_particle_bc( b, pbc ); }
extern "C" void spec_deck_periodic( vpic_simulation * S, D6 ) { S->px = px; S->py = py; S->pz = pz; partition_periodic_box( S->grid, A6, nx, ny, nz, px, py, pz ); }
extern "C" void spec_deck_absorbing( vpic_simulation * S, D6, int pbc ) { S->px = px; S->py = py; S->pz = pz; partition_absorbing_box( S->grid, A6, nx, ny, nz, px, py, pz, pbc ); }
extern "C" void spec_deck_reflecting( vpic_simulation * S, D6 ) { S->px = px; S->py = py; S->pz = pz; partition_metal_box( S->grid, A6, nx, ny, nz, px, py, pz ); }
extern "C" void spec_deck_custom( vpic_simulation * S, double nx, double ny, double nz, int side, double rank, int a, int fbc, int b, int pbc ) { size_grid( S->grid, nx, ny, nz ); join_grid( S->grid, side, rank ); set_fbc( S->grid, a, fbc ); set_pbc( S->grid, b, pbc ); }

#include "native.h"
#ifndef __clang__
ALLOCATORS
static int64_t COUNTS[512];
void mp_allgather_i64( int64_t * s, int64_t * r, int n ) { (void)n; for( int i=0; i<_world_size; i++ ) r[i] = i==_world_rank ? *s : COUNTS[i] ? COUNTS[i] : *s; }
mp_t * new_mp( int n ) { logf_( "new_mp %i", n ); return (mp_t *)0; }
void delete_mp( mp_t * ) { logf_( "delete_mp" ); }
void register_object( void *, checkpt_func_t c, restore_func_t r, reanimate_func_t a ) { logf_( "registers %i %i %i", c==(checkpt_func_t)checkpt_grid, r==(restore_func_t)restore_grid, a==0 ); }
void unregister_object( void * ) { logf_( "unregisters" ); }
static void show( const grid_t * g, int n, const int64_t * to ) {
  logf_( "mesh %i %i %i strides %i %i %i voxels %i corner %g %g %g to %g %g %g cell %g %g %g %g inverse %g %g %g %g", g->nx, g->ny, g->nz, g->sx, g->sy, g->sz, g->nv, g->x0, g->y0, g->z0, g->x1, g->y1, g->z1, g->dx, g->dy, g->dz, g->dV, g->rdx, g->rdy, g->rdz, g->r8V );
  for( int i=0; i<27; i++ ) logf_( "boundary %i is %i", i, g->bc[i] );
  if( g->range ) { for( int i=0; i<=_world_size; i++ ) logf_( "range %i is %i", i, (int)g->range[i] ); logf_( "owns %i to %i", (int)g->rangel, (int)g->rangeh ); }
  for( int i=0; i<n; i++ ) logf_( "cell %i face %i leads to %i", i/6, i%6, (int)to[i] );
}
// the geometry, from the positions of cells in the box: kind 0 periodic, 1 absorbing, 2 metal
static int64_t expected( int kind, const int * N, const int * P, const int * q, const int * c, int f, int pbc, int * side ) {
  int d = f%3, up = f/3, n[3], s[3], r[3]; *side = -100;
  for( int i=0; i<3; i++ ) { n[i] = N[i]/P[i]; if( c[i]<1 || c[i]>n[i] ) return reflect_particles; s[i] = q[i]*n[i] + c[i]-1; }
  s[d] += up ? 1 : -1;
  int out = s[d]<0 || s[d]>=N[d];
  if( out && kind && N[d]>1 ) { *side = kind==1 ? absorb_fields : pec_fields; return kind==1 ? pbc : reflect_particles; }
  s[d] = ( s[d] + N[d] )%N[d];
  int64_t nv = (int64_t)( n[0]+2 )*( n[1]+2 )*( n[2]+2 );
  for( int i=0; i<3; i++ ) { r[i] = s[i]/n[i]; s[i] = s[i]%n[i] + 1; }
  int rank = r[0] + P[0]*( r[1] + P[1]*r[2] );
  *side = rank;
  return rank*nv + s[0] + ( n[0]+2 )*( s[1] + ( n[1]+2 )*s[2] );
}
static std::vector<std::string> once( unsigned seed, int spec ) {
  LOG.clear(); rs_ = seed*2654435761ull + 77; for( int i=0; i<4; i++ ) rnd();
  memset( COUNTS, 0, sizeof(COUNTS) );
  grid_t * g = fresh_<grid_t>(); memset( g, 0, sizeof(*g) );
  int P[3], N[3], q[3], kind = rnd()%4, pbc = -rint_( 1, 5 );
  for( int i=0; i<3; i++ ) { P[i] = rnd()%2 ? 1 : rint_( 1, 4 ); N[i] = P[i]*rint_( 1, 4 ); q[i] = rnd()%P[i]; }
  _world_size = P[0]*P[1]*P[2]; _world_rank = q[0] + P[0]*( q[1] + P[1]*q[2] );
  double a[3], b[3]; for( int i=0; i<3; i++ ) { a[i] = rdbl( -4, 4 ); b[i] = a[i] + rdbl( .5, 8 ); }
  vpic_simulation * S = (vpic_simulation *)fresh_<char>( sizeof(vpic_simulation) ); S->grid = g;
  if( kind<3 ) {
    int deck = rnd()%2;
    if( deck ) {
      if( kind==0 ) ( spec ? spec_deck_periodic : code_deck_periodic )( S, a[0], a[1], a[2], b[0], b[1], b[2], N[0], N[1], N[2], P[0], P[1], P[2] );
      if( kind==1 ) ( spec ? spec_deck_absorbing : code_deck_absorbing )( S, a[0], a[1], a[2], b[0], b[1], b[2], N[0], N[1], N[2], P[0], P[1], P[2], pbc );
      if( kind==2 ) ( spec ? spec_deck_reflecting : code_deck_reflecting )( S, a[0], a[1], a[2], b[0], b[1], b[2], N[0], N[1], N[2], P[0], P[1], P[2] );
      logf_( "layout %i %i %i", (int)S->px, (int)S->py, (int)S->pz );
    } else if( kind==0 ) ( spec ? spec_periodic : partition_periodic_box )( g, a[0], a[1], a[2], b[0], b[1], b[2], N[0], N[1], N[2], P[0], P[1], P[2] );
    else if( kind==1 ) ( spec ? spec_absorbing : partition_absorbing_box )( g, a[0], a[1], a[2], b[0], b[1], b[2], N[0], N[1], N[2], P[0], P[1], P[2], pbc );
    else ( spec ? spec_metal : partition_metal_box )( g, a[0], a[1], a[2], b[0], b[1], b[2], N[0], N[1], N[2], P[0], P[1], P[2] );
    int n[3] = { N[0]/P[0], N[1]/P[1], N[2]/P[2] }, c[3], side;
    std::vector<int64_t> e( g->nv*6 );
    for( c[2]=0; c[2]<n[2]+2; c[2]++ ) for( c[1]=0; c[1]<n[1]+2; c[1]++ ) for( c[0]=0; c[0]<n[0]+2; c[0]++ ) for( int f=0; f<6; f++ ) e[6*( c[0] + ( n[0]+2 )*( c[1] + ( n[1]+2 )*c[2] ) ) + f] = expected( kind, N, P, q, c, f, pbc, &side );
    show( g, g->nv*6, spec ? e.data() : g->neighbor );
    for( int f=0; f<6; f++ ) {
      c[0] = c[1] = c[2] = 1; c[f%3] = f/3 ? n[f%3] : 1; expected( kind, N, P, q, c, f, pbc, &side );
      int d[3] = { 0, 0, 0 }; d[f%3] = f/3 ? 1 : -1;
      int face = BOUNDARY( d[0], d[1], d[2] ); if( side==-100 ) side = g->bc[face];
      // a face inside the domain only exists when the domain is the whole box
      if( n[f%3]==N[f%3] && ( kind==0 || N[f%3]==1 ) ) side = _world_rank;
      logf_( "face %i joined to %i", f, spec ? side : g->bc[face] );
      double w = ( b[f%3]-a[f%3] )/P[f%3], at = a[f%3] + w*( q[f%3] + f/3 ); float v = f/3 ? ( &g->x1 )[f%3] : ( &g->x0 )[f%3];
      logf_( "face %i at %g", f, spec ? at : (double)v );
    }
  } else {
    int n[3] = { rint_( 1, 4 ), rint_( 1, 4 ), rint_( 1, 4 ) }, m = rint_( 1, 5 ), d = rnd()%3, up = rnd()%2, o[3] = { 0, 0, 0 }, rank = rnd()%_world_size; o[d] = up ? 1 : -1;
    for( int i=0; i<_world_size; i++ ) COUNTS[i] = (int64_t)( m+2 )*( n[(d+1)%3]+2 )*( n[(d+2)%3]+2 );
    if( rnd()%3==0 ) {
      static int twice = 0; (void)twice;
      ( spec ? spec_size : size_grid )( g, rint_( 1, 3 ), 2, 2 );
    }
    ( spec ? spec_size : size_grid )( g, n[0], n[1], n[2] );
    ( spec ? spec_join : join_grid )( g, BOUNDARY( o[0], o[1], o[2] ), rank );
    int s = rnd()%27; if( s==13 ) s = 4; ( spec ? spec_fbc : set_fbc )( g, s, -rint_( 1, 4 ) );
    if( rnd()%2 ) { s = rnd()%27; if( s==13 ) s = 22; ( spec ? spec_pbc : set_pbc )( g, s, pbc ); }
    show( g, g->nv*6, g->neighbor );
  }
  if( rnd()%3==0 ) { grid_t * h = spec ? spec_new() : new_grid(); show( h, 0, 0 ); if( rnd()%2 ) h->range = fresh_<int64_t>( 3 ), KEEP.pop_back(); if( rnd()%2 ) h->neighbor = fresh_<int64_t>( 3 ), KEEP.pop_back(); ( spec ? spec_delete : delete_grid )( h ); ( spec ? spec_delete : delete_grid )( 0 ); }
  util_free( &g->range ); util_free( &g->neighbor );
  _world_size = 1; _world_rank = 0;
  std::vector<std::string> l = LOG; release_(); return l;
}
extern "C" int native_case( unsigned seed, char * msg, int n ) { std::vector<std::string> a = once( seed, 0 ), b = once( seed, 1 ); return differ_( a, b, msg, n ); }
#endif
