// G02: work distribution (DISTRIBUTE, DISTRIBUTE_VOXELS) and the dispatchers (src/util/pipelines)
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include <string>
#include <vector>
#include "util/pipelines/pipelines.h"
static void parallel_execute( pipeline_func_t, void *, int, int, volatile int * ) __attribute__((noinline));
#define Busy Busy_serial
#include "util/pipelines/pipelines_serial.cc"
#undef Busy
#include "util/pipelines/pipelines_thread.cc"
#include "grid/grid.h"
struct work_t { double a, b, c; };
extern "C" void job_pipeline_scalar( work_t *, int, int );
extern "C" void job_pipeline_v4( work_t *, int, int );
extern "C" void job_pipeline_v8( work_t *, int, int );
extern "C" void job_pipeline_v16( work_t *, int, int );
#define HAS_V4_PIPELINE
#define HAS_V8_PIPELINE
#define HAS_V16_PIPELINE
#include "util/pipelines/pipelines_exec.h"

extern "C" void code_distribute( int N, int b, int p, int P, int * out ) { int i, n; DISTRIBUTE( N, b, p, P, i, n ); out[0] = i; out[1] = n; }

extern "C" void
code_voxels( int x0, int x1, int y0, int y1, int z0, int z1, int b, int p, int P, int * out ) {
  int x, y, z, n;
  DISTRIBUTE_VOXELS( x0,x1, y0,y1, z0,z1, b, p,P, x,y,z,n );
  out[0] = x; out[1] = y; out[2] = z; out[3] = n;
}

// the first voxel of a share is its first item counted in x, then y, then z
extern "C" void
spec_voxels( int x0, int x1, int y0, int y1, int z0, int z1, int b, int p, int P, int * out ) {
  int nx = x1-x0+1, ny = y1-y0+1, all = nx*ny*( z1-z0+1 ), i, n;
  DISTRIBUTE( all, b, p, P, i, n );
  if( p>=P ) n = all - i;
  int row = nx ? i/nx : 0, plane = ny ? row/ny : 0;
  out[0] = x0 + i - row*nx; out[1] = y0 + row - plane*ny; out[2] = z0 + plane; out[3] = n;
}

// dispatchers: the static functions, by name
extern "C" void code_serial_dispatch( pipeline_func_t f, void * a, int sz, int str ) { serial_dispatch( f, a, sz, str ); }
extern "C" void code_serial_wait( void ) { serial_wait(); }
extern "C" void code_serial_halt( void ) { serial_halt(); }
extern "C" void code_serial_boot( int * n, char *** v ) { serial_boot( n, v ); }
extern "C" void code_dispatch( pipeline_func_t f, void * a, int sz, int str ) { thread_dispatch( f, a, sz, str ); }
extern "C" void code_wait( void ) { thread_wait(); }
extern "C" void code_halt( void ) { thread_halt(); }
extern "C" void code_boot( int * n, char *** v ) { thread_boot( n, v ); }
extern "C" void code_assign( pipeline_func_t f, void * a, int job, int n, volatile int * flag ) { parallel_execute( f, a, job, n, flag ); }
extern "C" void * code_worker( void * p ) { return pipeline_mgr( p ); }

extern "C" void
spec_serial_boot( int * c, char *** v ) {
  if( serial.n_pipeline ) ERROR(( "booted" ));
  int n = strip_cmdline_int( c, v, "--serial.n_pipeline", 1 );
  serial.n_pipeline = n;
  if( n<1 || n>MAX_PIPELINE ) ERROR(( "bad number" ));
  REGISTER_OBJECT( &serial, checkpt_serial, restore_serial, NULL );
  Busy_serial = 0;
}

// every rank in turn, each with its own arguments
extern "C" void
spec_serial_dispatch( pipeline_func_t f, void * a, int sz, int str ) {
  if( !serial.n_pipeline || Busy_serial ) ERROR(( "not ready" ));
  Busy_serial = 1;
  for( int rank=0; rank<serial.n_pipeline; rank++ ) if( f ) f( (char *)a + rank*sz*str, rank, serial.n_pipeline );
}

extern "C" void spec_serial_wait( void ) { if( !serial.n_pipeline || !Busy_serial ) ERROR(( "not busy" )); Busy_serial = 0; }
extern "C" void spec_serial_halt( void ) { if( !serial.n_pipeline || Busy_serial ) ERROR(( "not idle" )); UNREGISTER_OBJECT( &serial ); serial.n_pipeline = 0; }

// as many threads as workers, less the host if it works too; each is asleep before the next is made
extern "C" void
spec_boot( int * c, char *** v ) {
  if( thread.n_pipeline ) ERROR(( "booted" ));
  detect_old_style_arguments( c, v );
  int n = strip_cmdline_int( c, v, "--tpp", 1 );
  Dispatch_To_Host = strip_cmdline_int( c, v, "--dispatch_to_host", 1 );
  if( n<1 || n>MAX_PIPELINE ) ERROR(( "bad number" ));
  Id = 0; Busy = 0; Host = pthread_self();
  for( int i=0; i<n-Dispatch_To_Host; i++ ) {
    pipeline_state_t * w = &Pipeline[i];
    w->state = PIPELINE_ACK;
    if( pthread_cond_init( &w->wake, NULL ) ) ERROR(( "no condition" ));
    if( pthread_mutex_init( &w->mutex, NULL ) ) ERROR(( "no lock" ));
    if( pthread_create( &w->handle, NULL, pipeline_mgr, w ) ) ERROR(( "no thread" ));
    while( w->state!=PIPELINE_SLEEP ) nanodelay( 50 );
  }
  thread.n_pipeline = n;
  REGISTER_OBJECT( &thread, checkpt_thread, restore_thread, NULL );
}

// every thread is told to end, awaited, and then freed
extern "C" void
spec_halt( void ) {
  if( !thread.n_pipeline || !pthread_equal( Host, pthread_self() ) || Busy ) ERROR(( "not idle" ));
  UNREGISTER_OBJECT( &thread );
  for( int i=0; i<thread.n_pipeline-Dispatch_To_Host; i++ ) {
    pipeline_state_t * w = &Pipeline[i];
    pthread_mutex_lock( &w->mutex );
    w->state = PIPELINE_TERMINATE;
    pthread_cond_signal( &w->wake );
    pthread_mutex_unlock( &w->mutex );
    if( pthread_join( w->handle, NULL ) ) ERROR(( "no end" ));
  }
  for( int i=0; i<thread.n_pipeline-Dispatch_To_Host; i++ ) {
    pipeline_state_t * w = &Pipeline[i];
    if( pthread_mutex_destroy( &w->mutex ) || pthread_cond_destroy( &w->wake ) ) ERROR(( "not freed" ));
  }
  thread.n_pipeline = 0;
}

// the next sleeping worker, tried in turn under its lock, is given the job and woken
extern "C" void
spec_assign( pipeline_func_t f, void * a, int job, int n, volatile int * flag ) {
  if( !thread.n_pipeline || !pthread_equal( Host, pthread_self() ) || thread.n_pipeline-Dispatch_To_Host<=0 ) ERROR(( "no workers" ));
  pipeline_state_t * w; int i;
  for(;;) {
    i = Id; Id++;
    if( Id>=thread.n_pipeline-Dispatch_To_Host ) Id = 0;
    w = &Pipeline[i];
    if( !pthread_mutex_trylock( &w->mutex ) ) switch( w->state ) {
    case PIPELINE_SLEEP:
      w->state = PIPELINE_EXECUTE; w->func = f; w->args = a; w->job = job; w->n_job = n; w->flag = flag;
      pthread_cond_signal( &w->wake );
      pthread_mutex_unlock( &w->mutex );
      return;
    case PIPELINE_TERMINATE: pthread_mutex_unlock( &w->mutex ); ERROR(( "ending" ));
    default: pthread_mutex_unlock( &w->mutex );
    }
  }
}

// a worker runs what it is given and says so, sleeping in between, holding its lock whenever it is awake
extern "C" void *
spec_worker( void * p ) {
  pipeline_state_t * w = (pipeline_state_t *)p;
  pthread_mutex_lock( &w->mutex );
  for(;;) {
    switch( w->state ) {
    case PIPELINE_TERMINATE: 
      pthread_mutex_unlock( &w->mutex );
      return NULL;
    case PIPELINE_EXECUTE:
      if( w->func ) w->func( w->args, w->job, w->n_job );
      if( w->flag ) *w->flag = 1;
    default: break;
    }
    w->state = PIPELINE_SLEEP;
    pthread_cond_wait( &w->wake, &w->mutex );
  }
}

// every rank has its own arguments and its own completion flag, lowered before it starts
extern "C" void
spec_dispatch( pipeline_func_t f, void * a, int sz, int str ) {
  int i;
  if( !thread.n_pipeline || !pthread_equal( Host, pthread_self() ) || Busy ) ERROR(( "not ready" ));
  Busy = 1;
  for( i=0; i<thread.n_pipeline-Dispatch_To_Host; i++ ) { Done[i] = 0; parallel_execute( f, (char *)a + i*sz*str, i, thread.n_pipeline, &Done[i] ); }
  if( Dispatch_To_Host ) { Done[i] = 0; if( f ) f( (char *)a + i*sz*str, i, thread.n_pipeline ); Done[i] = 1; }
}

// over when every rank has raised its flag
extern "C" void
spec_wait( void ) {
  if( !thread.n_pipeline || !pthread_equal( Host, pthread_self() ) || !Busy ) ERROR(( "not busy" ));
  for( int i=0; i<thread.n_pipeline; ) if( Done[i] ) i++; else nanodelay( 5 );
  Busy = 0;
}

// a kernel runs its vector form on the workers and its scalar form on the host for the rest
extern "C" void code_exec( work_t * args, int str ) { EXEC_PIPELINES( job, args, str ); WAIT_PIPELINES(); }
extern "C" void
spec_exec( work_t * args, int str ) {
#if defined(V16_ACCELERATION)
  thread.dispatch( (pipeline_func_t)job_pipeline_v16, args, sizeof(work_t), str );
#elif defined(V8_ACCELERATION)
  thread.dispatch( (pipeline_func_t)job_pipeline_v8, args, sizeof(work_t), str );
#elif defined(V4_ACCELERATION)
  thread.dispatch( (pipeline_func_t)job_pipeline_v4, args, sizeof(work_t), str );
#else
  thread.dispatch( (pipeline_func_t)job_pipeline_scalar, args, sizeof(work_t), str );
#endif
  job_pipeline_scalar( args + str*thread.n_pipeline, thread.n_pipeline, thread.n_pipeline );
  thread.wait();
}

#include "native.h"
#ifndef __clang__
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
static int WORKERS, HOST, RAN[512], ARG[512], SLOW;
extern "C" { void job_pipeline_scalar( work_t *, int, int ) {} void job_pipeline_v4( work_t *, int, int ) {} void job_pipeline_v8( work_t *, int, int ) {} void job_pipeline_v16( work_t *, int, int ) {} }
void detect_old_style_arguments( int *, char *** ) {}
int strip_cmdline_int( int *, char ***, const char * k, int ) { return strstr( k, "host" ) ? HOST : WORKERS; }
void register_object( void *, checkpt_func_t, restore_func_t, reanimate_func_t ) {}
void unregister_object( void * ) {}
uint32_t _nanodelay( uint32_t i ) { usleep( 1 + i/1000 ); return 0; }
void checkpt_data( const void *, size_t, size_t, size_t, size_t, size_t ) {}
void * restore_data( void ) { return 0; }
struct arg_t { int me; int pad[3]; };
static void job( void * a, int rank, int n ) {
  int spin = ( rank*7 + n )%5; if( SLOW ) usleep( 300*spin );
  if( rank>=0 && rank<512 && n==WORKERS ) { __sync_fetch_and_add( &RAN[rank], 1 ); ARG[rank] = ((arg_t *)a)->me; }
}
static std::vector<std::string> trial( unsigned seed, int spec ) {
  LOG.clear(); rs_ = seed*2654435761ull + 5; for( int i=0; i<4; i++ ) rnd();
  for( int t=0; t<40; t++ ) {
    int big = rnd()%3==0, N = big ? (int)( rnd()>>rint_( 0, 20 ) )&0x7fffffff : rint_( 0, 200 ), b = rnd()%3 ? 1<<rint_( 0, 4 ) : rint_( 1, 20 ), P = rnd()%4 ? rint_( 1, 17 ) : rint_( 1, 272 ), at = 0, lo = 0x7fffffff, hi = -1, bad = -1;
    for( int p=0; p<=P; p++ ) {
      int o[2]; code_distribute( N, b, p, P, o );
      if( o[0]!=at || o[1]<0 ) bad = p;
      at = o[0] + o[1];
      if( p<P ) { if( o[1]%b ) bad = p; int k = o[1]/b; if( k<lo ) lo = k; if( k>hi ) hi = k; }
      else if( o[1]!=N%b ) bad = p;
    }
    if( at!=N || hi-lo>1 ) bad = P;
    logf_( "%i items in blocks of %i for %i workers: share %i is wrong", N, b, P, spec ? -1 : bad );
    int x0 = rint_( 0, 2 ), y0 = rint_( 0, 2 ), z0 = rint_( 0, 2 ), nx = rint_( 0, 5 ), ny = rint_( 0, 4 ), nz = rint_( 0, 4 ); if( rnd()%4==0 ) nx += rint_( 0, 100 ); at = 0; bad = -1;
    for( int p=0; p<=P; p++ ) {
      int o[4]; code_voxels( x0, x0+nx-1, y0, y0+ny-1, z0, z0+nz-1, b, p, P, o );
      if( o[3]<0 || nx*ny*nz>0 && o[3]>0 && ( o[0]-x0 + nx*( o[1]-y0 + ny*( o[2]-z0 ) )!=at || o[0]<x0 || o[0]>=x0+nx || o[1]<y0 || o[1]>=y0+ny ) || p<P && o[3]%b ) bad = p;
      at += o[3];
    }
    if( at!=nx*ny*nz ) bad = P;
    logf_( "%i x %i x %i voxels in blocks of %i for %i workers: share %i is wrong", nx, ny, nz, b, P, spec ? -1 : bad );
  }
  if( seed%12==0 ) {
    int par = rnd()%3>0; WORKERS = rnd()%8 ? rint_( 1, 6 ) : rint_( 7, 24 ); HOST = rnd()%2; SLOW = rnd()%2; int rounds = rint_( 1, 12 ), str = rint_( 0, 2 );
    std::vector<arg_t> a( 3*WORKERS + 3 ); for( size_t i=0; i<a.size(); i++ ) a[i].me = i;
    pipeline_dispatcher_t * d = par ? &thread : &serial;
    if( !spec ) d->boot( 0, 0 );
    logf_( "%i workers", spec ? WORKERS : d->n_pipeline );
    for( int r=0; r<rounds; r++ ) {
      memset( RAN, 0, sizeof(RAN) ); memset( ARG, 0xff, sizeof(ARG) );
      if( rnd()%10==0 ) { if( !spec ) { d->dispatch( 0, a.data(), sizeof(arg_t), str ); d->wait(); } continue; }
      if( !spec ) { d->dispatch( job, a.data(), sizeof(arg_t), str ); d->wait(); }
      for( int i=0; i<WORKERS+1; i++ ) logf_( "round %i rank %i ran %i times on %i", r, i, spec ? i<WORKERS : RAN[i], spec ? ( i<WORKERS ? i*str : -1 ) : ARG[i] );
    }
    if( !spec ) d->halt();
    logf_( "%i workers after", spec ? 0 : d->n_pipeline );
  }
  return LOG;
}
// in a process of its own, ended if it does not finish
extern "C" int native_case( unsigned seed, char * msg, int n ) {
  if( seed%12 ) { std::vector<std::string> a = trial( seed, 0 ), b = trial( seed, 1 ); return differ_( a, b, msg, n ); }
  int fd[2]; if( pipe( fd ) ) return 0;
  pid_t c = fork();
  if( c<0 ) return 0;
  if( !c ) {
    signal( SIGALRM, SIG_DFL ); alarm( 20 ); close( fd[0] );
    std::vector<std::string> a = trial( seed, 0 ), b = trial( seed, 1 ); char m[2048] = "";
    int r = differ_( a, b, m, 2048 ); if( r && write( fd[1], m, strlen( m ) )<0 ) r = 1;
    _exit( r ? 7 : 8 );
  }
  close( fd[1] ); int k, at = 0; while( at<n-1 && ( k = read( fd[0], msg+at, n-1-at ) )>0 ) at += k; msg[at] = 0; close( fd[0] );
  int st = 0; waitpid( c, &st, 0 );
  if( WIFEXITED( st ) && WEXITSTATUS( st )==8 ) return 0;
  if( !at ) snprintf( msg, n, "the workers %s", WIFSIGNALED( st ) && WTERMSIG( st )==SIGALRM ? "do not finish" : "fail" );
  return 1;
}
#endif
