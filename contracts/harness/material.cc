// F07: material coefficients and the field array (src/field_advance/standard/sfa.cc, src/material)
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include <string>
#include <vector>
#define IN_sfa
#include "field_advance/standard/sfa.cc"
#include "material/material.cc"

// one step of dE/dt = J/eps - (sigma/(eps eps0)) E: decay e^-a and mean drive (1-e^-a)/(a eps), a = sigma dt/(eps eps0)
static inline void one( float sigma, float eps, const grid_t * g, float & decay, float & drive, float & a ) {
  a = ( sigma*g->dt )/( eps*g->eps0 );
  decay = exp( -a );
  drive = a==0 ? 1./eps : decay==0 ? 0 : 2.*exp( -0.5*a )*sinh( 0.5*a )/( a*eps );
}

extern "C" sfa_params_t *
spec_params( grid_t * g, const material_t * list, float damp ) {
  int n = 0;
  for( const material_t * m=list; m; m=m->next ) n++;
  sfa_params_t * p;
  MALLOC( p, 1 );
  MALLOC_ALIGNED( p->mc, n+2, 128 );
  p->damp = damp; p->n_mc = n;
  for( const material_t * m=list; m; m=m->next ) {
    material_coefficient_t * c = p->mc + m->id;
    float ax, ay, az;
    one( m->sigmax, m->epsx, g, c->decayx, c->drivex, ax );
    one( m->sigmay, m->epsy, g, c->decayy, c->drivey, ay );
    one( m->sigmaz, m->epsz, g, c->decayz, c->drivez, az );
    c->rmux = 1./m->mux; c->rmuy = 1./m->muy; c->rmuz = 1./m->muz;
    c->nonconductive = ax==0 && ay==0 && az==0 ? 1. : 0.;
    c->epsx = m->epsx; c->epsy = m->epsy; c->epsz = m->epsz;
  }
  return p;
}

extern "C" field_array_t *
spec_array( grid_t * g, const material_t * list, float damp ) {
  field_array_t * fa;
  if( !g || !list || damp<0 ) ERROR(( "Bad args" ));
  MALLOC( fa, 1 );
  MALLOC_ALIGNED( fa->f, g->nv, 128 );
  CLEAR( fa->f, g->nv );
  fa->g = g;
  fa->params = spec_params( g, list, damp );
  field_advance_kernels_t * k = fa->kernel;
  k->delete_fa = delete_standard_field_array;
  k->advance_b = advance_b; k->advance_e = advance_e; k->energy_f = energy_f; k->clear_jf = clear_jf; k->synchronize_jf = synchronize_jf;
  k->clear_rhof = clear_rhof; k->synchronize_rho = synchronize_rho; k->compute_rhob = compute_rhob; k->compute_curl_b = compute_curl_b;
  k->synchronize_tang_e_norm_b = synchronize_tang_e_norm_b;
  k->compute_div_e_err = compute_div_e_err; k->compute_rms_div_e_err = compute_rms_div_e_err; k->clean_div_e = clean_div_e;
  k->compute_div_b_err = compute_div_b_err; k->compute_rms_div_b_err = compute_rms_div_b_err; k->clean_div_b = clean_div_b;
  if( !list->next ) {
    k->advance_e = vacuum_advance_e; k->energy_f = vacuum_energy_f; k->compute_rhob = vacuum_compute_rhob; k->compute_curl_b = vacuum_compute_curl_b;
    k->compute_div_e_err = vacuum_compute_div_e_err; k->clean_div_e = vacuum_clean_div_e;
  }
  REGISTER_OBJECT( fa, checkpt_standard_field_array, restore_standard_field_array, NULL );
  return fa;
}

extern "C" material_t *
spec_material( const char * name, float ex, float ey, float ez, float mx, float my, float mz, float sx, float sy, float sz, float zx, float zy, float zz ) {
  material_t * m;
  int len = name ? strlen( name ) : 0;
  if( !len ) ERROR(( "nameless" ));
  MALLOC( m, 1 ); CLEAR( m, 1 );
  MALLOC( m->name, len+1 ); strcpy( m->name, name );
  m->epsx = ex; m->epsy = ey; m->epsz = ez; m->mux = mx; m->muy = my; m->muz = mz; m->sigmax = sx; m->sigmay = sy; m->sigmaz = sz; m->zetax = zx; m->zetay = zy; m->zetaz = zz;
  REGISTER_OBJECT( m, checkpt_material, restore_material, NULL );
  return m;
}

// identifiers count up from zero in the order of registration
extern "C" material_t *
spec_append( material_t * m, material_t ** list ) {
  if( !m || !list ) ERROR(( "Bad args" ));
  if( m->next ) ERROR(( "in a list" ));
  if( find_material_name( m->name, *list ) ) ERROR(( "name taken" ));
  int id = *list ? (*list)->id + 1 : 0;
  if( id>=max_material ) ERROR(( "too many" ));
  m->id = id; m->next = *list; *list = m;
  return m;
}
extern "C" material_t * spec_find( material_id id, material_t * list ) { material_t * m; for( m=list; m; m=m->next ) if( m->id==id ) break; return m; }
extern "C" int spec_num( const material_t * list ) { return list ? list->id + 1 : 0; }
extern "C" void spec_clear_jf( field_array_t * fa ) { for( int v=0; v<fa->g->nv; v++ ) { fa->f[v].jfx = 0; fa->f[v].jfy = 0; fa->f[v].jfz = 0; } }
extern "C" void spec_clear_rhof( field_array_t * fa ) { for( int v=0; v<fa->g->nv; v++ ) fa->f[v].rhof = 0; }

extern "C" sfa_params_t * code_params( grid_t * g, const material_t * l, float d ) { return create_sfa_params( g, l, d ); }
#include "native.h"
#ifndef __clang__
ALLOCATORS
static std::vector<const void *> IDS;
static int idof( const void * p ) { for( size_t i=0; i<IDS.size(); i++ ) if( IDS[i]==p ) return i; return p ? 999 : 1000; }
#define KV( n ) void n( field_array_t * RESTRICT ) {}
#define KC( n ) double n( const field_array_t * RESTRICT ) { return 0; }
KV( synchronize_jf ) KV( synchronize_rho ) KV( compute_rhob ) KV( compute_curl_b ) KV( compute_div_e_err ) KV( clean_div_e ) KV( compute_div_b_err ) KV( clean_div_b ) KC( compute_rms_div_e_err ) KC( compute_rms_div_b_err )
KV( vacuum_compute_rhob ) KV( vacuum_compute_curl_b ) KV( vacuum_compute_div_e_err ) KV( vacuum_clean_div_e )
double synchronize_tang_e_norm_b( field_array_t * RESTRICT ) { return 0; }
void advance_b( field_array_t * RESTRICT, float ) {}
void advance_e( field_array_t * RESTRICT, float ) {}
void vacuum_advance_e( field_array_t * RESTRICT, float ) {}
void energy_f( double * RESTRICT, const field_array_t * RESTRICT ) {}
void vacuum_energy_f( double * RESTRICT, const field_array_t * RESTRICT ) {}
void register_object( void *, checkpt_func_t c, restore_func_t r, reanimate_func_t a ) { logf_( "registers %i", (void *)c==(void *)checkpt_standard_field_array ? 1 : (void *)c==(void *)checkpt_material ? 2 : 0 ); }
void unregister_object( void * ) {}
void checkpt_data( const void *, size_t, size_t, size_t, size_t, size_t ) {}
void checkpt_ptr( const void * ) {}
void * restore_data( void ) { return 0; }
void * restore_ptr( void ) { return 0; }
void checkpt_str( const char * ) {}
char * restore_str( void ) { return 0; }
void checkpt_sym( const void * ) {}
void * restore_sym( void ) { return 0; }
void checkpt_field_advance_kernels( const field_advance_kernels_t * ) {}
void restore_field_advance_kernels( field_advance_kernels_t * ) {}
static float val( void ) { switch( rnd()%6 ) { case 0: return 0; case 1: return 1; case 2: return rdbl( 0, 300 ); default: return rdbl( .01, 4 ); } }
static std::vector<std::string> once( unsigned seed, int spec ) {
  LOG.clear(); rs_ = seed*2654435761ull + 31; for( int i=0; i<4; i++ ) rnd();
  grid_t * g = fresh_<grid_t>(); g->nx = rint_( 1, 3 ); g->ny = rint_( 1, 3 ); g->nz = rint_( 1, 3 ); g->nv = 30; g->dt = rdbl( .01, 2 ); g->cvac = rdbl( .5, 2 ); g->eps0 = rdbl( .2, 3 ); g->rdx = 2; g->rdy = 1; g->rdz = 3;
  material_t * list = 0; int n = rint_( 1, 4 ); char name[8];
  for( int i=0; i<n; i++ ) {
    float v[12]; for( int k=0; k<12; k++ ) v[k] = k<6 || k>8 ? rdbl( .2, 5 ) : val();
    snprintf( name, 8, "m%i", i );
    material_t * m = spec ? spec_material( name, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11] ) : material( name, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11] );
    material_t * r = spec ? spec_append( m, &list ) : append_material( m, &list );
    logf_( "appended %i %i, %i materials; %g %g %g %g %g %g %g %g %g %g %g %g %s", r==m, m->id, spec ? spec_num( list ) : num_material( list ), m->epsx, m->epsy, m->epsz, m->mux, m->muy, m->muz, m->sigmax, m->sigmay, m->sigmaz, m->zetax, m->zetay, m->zetaz, m->name );
  }
  for( int i=0; i<=n; i++ ) { material_t * m = spec ? spec_find( i, list ) : find_material_id( i, list ); logf_( "found %i", m ? m->id : -1 ); }
  field_array_t * fa = spec ? spec_array( g, list, .25 ) : new_standard_field_array( g, list, .25 );
  sfa_params_t * p = (sfa_params_t *)fa->params; logf_( "%i materials, damping %g, grid %i", p->n_mc, p->damp, fa->g==g );
  for( int i=0; i<n; i++ ) { const float * c = (const float *)( p->mc+i ); std::string s = "coefficients"; char b[40]; for( int k=0; k<13; k++ ) { snprintf( b, 40, " %.6e", c[k] ); s += b; } logf_( "%s", s.c_str() ); }
  const void * T[] = { (void *)advance_b, (void *)advance_e, (void *)vacuum_advance_e, (void *)energy_f, (void *)vacuum_energy_f, (void *)clear_jf, (void *)synchronize_jf, (void *)clear_rhof, (void *)synchronize_rho, (void *)compute_rhob, (void *)vacuum_compute_rhob, (void *)compute_curl_b, (void *)vacuum_compute_curl_b,
    (void *)synchronize_tang_e_norm_b, (void *)compute_div_e_err, (void *)vacuum_compute_div_e_err, (void *)compute_rms_div_e_err, (void *)clean_div_e, (void *)vacuum_clean_div_e, (void *)compute_div_b_err, (void *)compute_rms_div_b_err, (void *)clean_div_b, (void *)delete_standard_field_array };
  IDS.assign( T, T + sizeof(T)/sizeof(T[0]) );
  const void ** k = (const void **)fa->kernel; for( size_t i=0; i<sizeof(field_advance_kernels_t)/sizeof(void *); i++ ) logf_( "kernel %i is %i", (int)i, idof( k[i] ) );
  int bad = 0; for( size_t i=0; i<30*sizeof(field_t)/4; i++ ) if( ((int *)fa->f)[i] ) bad = 1; logf_( "fields cleared %i", !bad );
  for( size_t i=0; i<30*sizeof(field_t)/4; i++ ) ((float *)fa->f)[i] = i;
  if( rnd()%2 ) { if( spec ) spec_clear_jf( fa ); else clear_jf( fa ); } else { if( spec ) spec_clear_rhof( fa ); else clear_rhof( fa ); }
  double sum = 0; for( size_t i=0; i<30*sizeof(field_t)/4; i++ ) sum = sum*1.0001 + ((float *)fa->f)[i]; logf_( "field sum %.12g", sum );
  std::vector<std::string> l = LOG; release_(); return l;
}
extern "C" int native_case( unsigned seed, char * msg, int n ) { std::vector<std::string> a = once( seed, 0 ), b = once( seed, 1 ); return differ_( a, b, msg, n ); }
#endif
