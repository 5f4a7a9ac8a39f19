// I01: particle injection (src/vpic/misc.cc, the inline variants of src/vpic/vpic.h)
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <map>
#define protected public
#define private public
#include "vpic/vpic.h"
#include "vpic/misc.cc"

// the cell (1..n) and the offset in it (-1..1) of coordinate x of a domain [x0,x1] of n cells
static void locate( double x, double x0, double x1, int n, int & cell, double & off ) {
  double s = (double)n*( ( x-x0 )/( x1-x0 ) );
  int i = (int)s;
  s -= (double)i;
  off  = i==n ? 1 : ( s+s )-1;
  cell = ( i==n ? n-1 : i ) + 1;
}

// a far face shared with another domain belongs to that domain
static int mine( double x, double x0, double x1, int far_bc ) { return !( x<x0 ) && !( x>x1 ) && !( x==x1 && far_bc>=0 ); }

extern "C" void
spec_inject( vpic_simulation * S, species_t * sp, double x, double y, double z, double ux, double uy, double uz, double w, double age, int update_rhob ) {
  const grid_t * g = S->grid;
  if( !mine( x, g->x0, g->x1, g->bc[ BOUNDARY(1,0,0) ] ) ) return;
  if( !mine( y, g->y0, g->y1, g->bc[ BOUNDARY(0,1,0) ] ) ) return;
  if( !mine( z, g->z0, g->z1, g->bc[ BOUNDARY(0,0,1) ] ) ) return;
  int ix, iy, iz; double ox, oy, oz;
  locate( x, g->x0, g->x1, g->nx, ix, ox );
  locate( y, g->y0, g->y1, g->ny, iy, oy );
  locate( z, g->z0, g->z1, g->nz, iz, oz );
  int n = sp->np;
  particle_t * p = sp->p + n;
  sp->np = n + 1;
  p->dx = (float)ox; p->dy = (float)oy; p->dz = (float)oz;
  p->i  = ix + ( g->nx+2 )*( iy + ( g->ny+2 )*iz );
  p->ux = (float)ux; p->uy = (float)uy; p->uz = (float)uz; p->w = (float)w;
  if( update_rhob ) accumulate_rhob( S->field_array->f, p, g, -sp->q );
  if( age!=0 ) {
    particle_mover_t * pm = sp->pm + sp->nm;
    double t = age*( (double)( g->cvac*g->dt )/sqrt( ux*ux + uy*uy + uz*uz + 1 ) );   // c dt / gamma, of the given age
    pm->dispx = ux*t*g->rdx; pm->dispy = uy*t*g->rdy; pm->dispz = uz*t*g->rdz; pm->i = n;
    sp->nm += move_p( sp->p, pm, S->accumulator_array->a, g, sp->q );
  }
}

extern "C" void code_raw1( vpic_simulation * S, species_t * sp, float dx, float dy, float dz, int32_t i, float ux, float uy, float uz, float w ) { S->inject_particle_raw( sp, dx, dy, dz, i, ux, uy, uz, w ); }
extern "C" void spec_raw1( vpic_simulation * S, species_t * sp, float dx, float dy, float dz, int32_t i, float ux, float uy, float uz, float w ) {
  particle_t q; q.dx = dx; q.dy = dy; q.dz = dz; q.i = i; q.ux = ux; q.uy = uy; q.uz = uz; q.w = w;
  sp->p[ sp->np ] = q; sp->np++;
}
extern "C" void code_raw2( vpic_simulation * S, species_t * sp, float dx, float dy, float dz, int32_t i, float ux, float uy, float uz, float w, float ex, float ey, float ez, int rhob ) { S->inject_particle_raw( sp, dx, dy, dz, i, ux, uy, uz, w, ex, ey, ez, rhob ); }
extern "C" void spec_raw2( vpic_simulation * S, species_t * sp, float dx, float dy, float dz, int32_t i, float ux, float uy, float uz, float w, float ex, float ey, float ez, int rhob ) {
  int n = sp->np;
  spec_raw1( S, sp, dx, dy, dz, i, ux, uy, uz, w );
  particle_mover_t m; m.dispx = ex; m.dispy = ey; m.dispz = ez; m.i = n;
  sp->pm[ sp->nm ] = m;
  if( rhob ) accumulate_rhob( S->field_array->f, sp->p + n, S->grid, -sp->q );
  sp->nm += move_p( sp->p, sp->pm + sp->nm, S->accumulator_array->a, S->grid, sp->q );
}

#include "native.h"
#ifndef __clang__
static particle_t * P0; static particle_mover_t * M0; static vpic_simulation * SIM;
static std::string part( const particle_t * p ) { char b[400]; snprintf( b, 400, "{%.7e %.7e %.7e i=%i %.7e %.7e %.7e %.7e}", p->dx, p->dy, p->dz, p->i, p->ux, p->uy, p->uz, p->w ); return b; }
static std::string mov( const particle_mover_t * p ) { char b[300]; snprintf( b, 300, "{%.7e %.7e %.7e i=%i}", p->dispx, p->dispy, p->dispz, p->i ); return b; }
void accumulate_rhob( field_t * f, const particle_t * p, const grid_t * g, const float qsp ) { logf_( "accumulate_rhob %i %i %s %i %.7e", f==SIM->field_array->f, (int)( p-P0 ), part( p ).c_str(), g==SIM->grid, qsp ); }
int move_p( particle_t * p, particle_mover_t * pm, accumulator_t * a, const grid_t * g, const float qsp ) { logf_( "move_p %i %i %s %s %i %i %.7e", p==P0, (int)( pm-M0 ), mov( pm ).c_str(), part( p+pm->i ).c_str(), a==SIM->accumulator_array->a, g==SIM->grid, qsp ); return rnd()%2; }
static double pick( double a, double b, double h, int n ) {
  switch( rnd()%8 ) {
  case 0: return a; case 1: return b; case 2: return a + h*rint_( 0, n ); case 3: return rdbl( a-h, b+h ); case 4: return std::nextafter( b, a ); case 5: return std::nextafter( a, a-1 );
  default: return rdbl( a, b );
  }
}
static std::vector<std::string> once( unsigned seed, int spec ) {
  LOG.clear(); rs_ = seed*2654435761ull + 777; for( int i=0; i<4; i++ ) rnd();
  vpic_simulation * S = SIM = (vpic_simulation *)fresh_<char>( sizeof(vpic_simulation) );
  grid_t * g = S->grid = fresh_<grid_t>(); S->field_array = fresh_<field_array_t>(); S->accumulator_array = fresh_<accumulator_array_t>(); S->accumulator_array->a = fresh_<accumulator_t>(); S->field_array->f = fresh_<field_t>();
  g->nx = rint_( 1, 6 ); g->ny = rint_( 1, 6 ); g->nz = rint_( 1, 6 ); g->cvac = rdbl( .5, 2 ); g->dt = rdbl( .1, .6 );
  g->dx = .25*rint_( 1, 9 ); g->dy = .25*rint_( 1, 9 ); g->dz = .25*rint_( 1, 9 ); g->rdx = 1/g->dx; g->rdy = 1/g->dy; g->rdz = 1/g->dz;
  g->x0 = .5*rint_( -9, 9 ); g->y0 = .5*rint_( -9, 9 ); g->z0 = .5*rint_( -9, 9 ); g->x1 = g->x0 + g->nx*g->dx; g->y1 = g->y0 + g->ny*g->dy; g->z1 = g->z0 + g->nz*g->dz;
  for( int i=0; i<27; i++ ) g->bc[i] = rint_( -4, 3 );
  species_t * sp = fresh_<species_t>(); sp->q = rdbl( -2, 2 ); sp->max_np = 12; sp->np = rint_( 0, 9 ); sp->max_nm = 8; sp->nm = rint_( 0, 5 ); sp->g = g; sp->name = (char *)"s";
  P0 = sp->p = fresh_<particle_t>( 12 ); M0 = sp->pm = fresh_<particle_mover_t>( 8 );
  for( int i=0; i<12; i++ ) sp->p[i].w = i + 1;
  int kind = rnd()%6, rhob = rint_( 0, 2 );
  double x = pick( g->x0, g->x1, g->dx, g->nx ), y = pick( g->y0, g->y1, g->dy, g->ny ), z = pick( g->z0, g->z1, g->dz, g->nz ), ux = rdbl( -3, 3 ), uy = rdbl( -3, 3 ), uz = rdbl( -3, 3 ), w = rdbl( 0, 4 ), age = rnd()%2 ? rdbl( 0, 1 ) : 0;
  int vx = rint_( 0, 300 );
  if( kind==0 )      ( spec ? spec_raw1( S, sp, x, y, z, vx, ux, uy, uz, w ) : code_raw1( S, sp, x, y, z, vx, ux, uy, uz, w ) );
  else if( kind==1 ) ( spec ? spec_raw2( S, sp, x, y, z, vx, ux, uy, uz, w, age, age+1, age-2, rhob ) : code_raw2( S, sp, x, y, z, vx, ux, uy, uz, w, age, age+1, age-2, rhob ) );
  else if( spec ) spec_inject( S, sp, x, y, z, ux, uy, uz, w, age, rhob );
  else S->inject_particle( sp, x, y, z, ux, uy, uz, w, age, rhob );
  logf_( "particles %i, movers %i", sp->np, sp->nm );
  for( int i=0; i<12; i++ ) logf_( "particle %i %s", i, part( sp->p+i ).c_str() );
  for( int i=0; i<8; i++ ) if( i<sp->nm || i==sp->nm ) logf_( "mover %i %s", i, mov( sp->pm+i ).c_str() );
  std::vector<std::string> l = LOG; release_(); return l;
}
extern "C" int native_case( unsigned seed, char * msg, int n ) { std::vector<std::string> a = once( seed, 0 ), b = once( seed, 1 ); return differ_( a, b, msg, n ); }
#endif
