// U01: one step of the simulation (src/vpic/advance.cc) and, as a specification, the documented order and cadence.
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <map>
#include <iostream>
#define protected public
#define private public
#include "vpic/vpic.h"
#include "vpic/advance.cc"

#define EVERY(n) ( (n)>0 && S->grid->step%(n)==0 )
#define FA  S->field_array
#define K   S->field_array->kernel

extern "C" int
spec_advance( vpic_simulation * S ) {
  species_t * sp;
  if( S->num_step>0 && S->grid->step>=S->num_step ) return 0;

  // particles
  for( sp=S->species_list; sp; sp=sp->next ) if( EVERY( sp->sort_interval ) ) sort_p( sp );
  if( S->species_list ) clear_accumulator_array( S->accumulator_array );
  if( S->collision_op_list ) apply_collision_op_list( S->collision_op_list );
  S->user_particle_collisions();
  for( sp=S->species_list; sp; sp=sp->next ) advance_p( sp, S->accumulator_array, S->interpolator_array );
  if( S->emitter_list ) apply_emitter_list( S->emitter_list );
  S->user_particle_injection();
  if( S->species_list ) reduce_accumulator_array( S->accumulator_array );
  for( int round=0; round<S->num_comm_round; round++ ) boundary_p( S->particle_bc_list, S->species_list, FA, S->accumulator_array );

  // particles whose motion is still unfinished leave: last first, the last particle takes the place, charge to rhob
  for( sp=S->species_list; sp; sp=sp->next ) {
    particle_mover_t * pm = sp->pm + sp->nm - 1;
    for( int nm=sp->nm; nm; nm-- ) {
      int i = pm->i;
      sp->p[i].i = sp->p[i].i >> 3;
      accumulate_rhob( FA->f, sp->p + i, sp->g, sp->q );
      sp->p[i] = sp->p[ sp->np - 1 ];
      sp->np = sp->np - 1;
      pm--;
    }
    sp->nm = 0;
  }

  // currents
  K->clear_jf( FA );
  if( S->species_list ) unload_accumulator_array( FA, S->accumulator_array );
  K->synchronize_jf( FA );
  S->user_current_injection();

  // fields: B half, E full, B half
  K->advance_b( FA, 0.5 );
  K->advance_e( FA, 1.0 );
  S->user_field_injection();
  K->advance_b( FA, 0.5 );

  // cleaning
  if( EVERY( S->clean_div_e_interval ) ) {
    K->clear_rhof( FA );
    if( S->species_list ) for( sp=S->species_list; sp; sp=sp->next ) accumulate_rho_p( FA, sp );
    K->synchronize_rho( FA );
    for( int round=0; round<S->num_div_e_round; round++ ) {
      K->compute_div_e_err( FA );
      if( round==0 || round==S->num_div_e_round-1 ) K->compute_rms_div_e_err( FA );
      K->clean_div_e( FA );
    }
  }
  if( EVERY( S->clean_div_b_interval ) ) {
    for( int round=0; round<S->num_div_b_round; round++ ) {
      K->compute_div_b_err( FA );
      if( round==0 || round==S->num_div_b_round-1 ) K->compute_rms_div_b_err( FA );
      K->clean_div_b( FA );
    }
  }
  if( EVERY( S->sync_shared_interval ) ) K->synchronize_tang_e_norm_b( FA );

  // next step
  if( S->species_list ) load_interpolator_array( S->interpolator_array, FA );
  S->grid->step++;
  if( EVERY( S->status_interval ) ) update_profile( world_rank==0 );
  S->user_diagnostics();
  return 1;
}

#include "native.h"
#ifndef __clang__
profile_internal_use_only_timer_t profile_internal_use_only[ 256 ];
static vpic_simulation * SIM;
static int movers;
static std::string part( const particle_t * p ) { char b[400]; snprintf( b, 400, "{%.7e %.7e i=%i %.7e %.7e %.7e}", p->dx, p->dy, p->i, p->ux, p->uz, p->w ); return b; }
#define ID(x) (int)idof( (const void *)(x) )
static std::vector<const void *> IDS;
static size_t idof( const void * p ) { for( size_t i=0; i<IDS.size(); i++ ) if( IDS[i]==p ) return i; return p ? 999 : 1000; }
void vpic_simulation::user_diagnostics() { logf_( "user_diagnostics at step %i", (int)grid->step ); }
void vpic_simulation::user_field_injection() { logf_( "user_field_injection" ); }
void vpic_simulation::user_current_injection() { logf_( "user_current_injection" ); }
void vpic_simulation::user_particle_injection() { logf_( "user_particle_injection" ); }
void vpic_simulation::user_particle_collisions() { logf_( "user_particle_collisions" ); }
void accumulate_rho_p( field_array_t * fa, const species_t * sp ) { logf_( "accumulate_rho_p %i %i", ID( fa ), ID( sp ) ); }
void accumulate_rhob( field_t * f, const particle_t * p, const grid_t * g, const float qsp ) { logf_( "accumulate_rhob %i %s %i %g", ID( f ), part( p ).c_str(), ID( g ), qsp ); }
void advance_p( species_t * sp, accumulator_array_t * a, const interpolator_array_t * i ) { logf_( "advance_p %i %i %i", ID( sp ), ID( a ), ID( i ) ); }
void apply_collision_op_list( collision_op_t * l ) { logf_( "apply_collision_op_list %i", ID( l ) ); }
void apply_emitter_list( emitter_t * l ) { logf_( "apply_emitter_list %i", ID( l ) ); }
void boundary_p( particle_bc_t * b, species_t * s, field_array_t * f, accumulator_array_t * a ) { logf_( "boundary_p %i %i %i %i", ID( b ), ID( s ), ID( f ), ID( a ) ); }
void clear_accumulator_array( accumulator_array_t * a ) { logf_( "clear_accumulator_array %i", ID( a ) ); }
void load_interpolator_array( interpolator_array_t * i, const field_array_t * f ) { logf_( "load_interpolator_array %i %i", ID( i ), ID( f ) ); }
void reduce_accumulator_array( accumulator_array_t * a ) { logf_( "reduce_accumulator_array %i", ID( a ) ); }
void sort_p( species_t * sp ) { logf_( "sort_p %i", ID( sp ) ); }
void unload_accumulator_array( field_array_t * f, const accumulator_array_t * a ) { logf_( "unload_accumulator_array %i %i", ID( f ), ID( a ) ); }
void update_profile( int d ) { logf_( "update_profile %i", d!=0 ); }
#define KV(n) static void k_##n( field_array_t * fa ) { logf_( #n " %i", ID( fa ) ); }
#define KD(n) static double k_##n( field_array_t * fa ) { logf_( #n " %i", ID( fa ) ); return 1; }
#define KR(n) static double k_##n( const field_array_t * fa ) { logf_( #n " %i", ID( fa ) ); return 1; }
KV(clear_jf) KV(synchronize_jf) KV(clear_rhof) KV(synchronize_rho) KV(compute_div_e_err) KV(clean_div_e) KV(compute_div_b_err) KV(clean_div_b) KV(compute_rhob) KV(compute_curl_b)
KR(compute_rms_div_e_err) KR(compute_rms_div_b_err) KD(synchronize_tang_e_norm_b)
static void k_advance_b( field_array_t * fa, float f ) { logf_( "advance_b %i %g", ID( fa ), f ); }
static void k_advance_e( field_array_t * fa, float f ) { logf_( "advance_e %i %g", ID( fa ), f ); }

static std::vector<std::string> once( unsigned seed, int spec ) {
  LOG.clear(); IDS.clear(); rs_ = seed*2654435761ull + 12345; for( int i=0; i<4; i++ ) rnd();
  vpic_simulation * S = SIM = (vpic_simulation *)fresh_<char>( sizeof(vpic_simulation) );
  S->grid = fresh_<grid_t>(); S->field_array = fresh_<field_array_t>(); S->accumulator_array = fresh_<accumulator_array_t>(); S->interpolator_array = fresh_<interpolator_array_t>();
  S->field_array->f = fresh_<field_t>(); S->field_array->g = S->grid;
  auto * k = S->field_array->kernel;
#define SETK(n) k->n = k_##n;
  SETK(clear_jf) SETK(synchronize_jf) SETK(clear_rhof) SETK(synchronize_rho) SETK(compute_div_e_err) SETK(clean_div_e) SETK(compute_div_b_err) SETK(clean_div_b) SETK(compute_rhob) SETK(compute_curl_b)
  SETK(compute_rms_div_e_err) SETK(compute_rms_div_b_err) SETK(synchronize_tang_e_norm_b) SETK(advance_b) SETK(advance_e)
  S->particle_bc_list = rnd()%2 ? (particle_bc_t *)fresh_<char>( 256 ) : 0;
  S->emitter_list = rnd()%2 ? (emitter_t *)fresh_<char>( 256 ) : 0;
  S->collision_op_list = rnd()%2 ? (collision_op_t *)fresh_<char>( 256 ) : 0;
  for( const void * q : { (const void *)S->grid, (const void *)S->field_array, (const void *)S->accumulator_array, (const void *)S->interpolator_array, (const void *)S->field_array->f, (const void *)S->particle_bc_list, (const void *)S->emitter_list, (const void *)S->collision_op_list } ) IDS.push_back( q );
  int ns = rint_( 0, 3 ); species_t * sps[4];
  for( int s=0; s<ns; s++ ) {
    species_t * sp = sps[s] = fresh_<species_t>(); IDS.push_back( sp );
    sp->name = (char *)"sp"; sp->g = S->grid; sp->q = rint_( -3, 3 ); sp->id = s; sp->sort_interval = rint_( -1, 5 ); sp->max_np = 40; sp->max_nm = 20;
    sp->np = rint_( 0, 30 ); sp->p = fresh_<particle_t>( 40 ); sp->pm = fresh_<particle_mover_t>( 20 );
    for( int i=0; i<40; i++ ) { sp->p[i].i = rint_( 0, 1000 ); sp->p[i].w = i + 1; sp->p[i].ux = rdbl( -1, 1 ); sp->p[i].dx = rdbl( -1, 1 ); sp->p[i].uz = s; }
    int i = 0; sp->nm = 0;
    if( rnd()%3 ) while( i<sp->np && sp->nm<20 ) { if( rnd()%3==0 ) { sp->pm[sp->nm].i = i; sp->nm++; sp->p[i].i = sp->p[i].i*8 + rint_( 0, 5 ); } i++; }
    sp->next = S->species_list; S->species_list = sp;
  }
  S->grid->step = rint_( 0, 60 ); S->num_step = rint_( 0, 3 ) ? rint_( -1, 100 ) : (int)S->grid->step + rint_( -1, 1 ); S->num_comm_round = rint_( 0, 4 ); S->verbose = rnd()%2;
  S->status_interval = rint_( -1, 6 ); S->clean_div_e_interval = rint_( -1, 4 ); S->clean_div_b_interval = rint_( -1, 4 ); S->num_div_e_round = rint_( 0, 4 ); S->num_div_b_round = rint_( 0, 4 ); S->sync_shared_interval = rint_( -1, 4 );
  _world_rank = rnd()%2;
  int r = spec ? spec_advance( S ) : S->advance();
  logf_( "returns %i", r ); logf_( "step count is %i", (int)S->grid->step );
  for( int s=0; s<ns; s++ ) {
    logf_( "species %i: %i particles, %i movers", s, sps[s]->np, sps[s]->nm );
    for( int i=0; i<sps[s]->np; i++ ) logf_( "particle %i %s", i, part( sps[s]->p + i ).c_str() );
  }
  std::vector<std::string> l = LOG; release_(); return l;
}
extern "C" int native_case( unsigned seed, char * msg, int n ) { std::vector<std::string> a = once( seed, 0 ), b = once( seed, 1 ); return differ_( a, b, msg, n ); }
#endif
