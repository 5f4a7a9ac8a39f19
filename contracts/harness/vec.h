// One wrapper t_OP per operation of a vector class (the code) and one function s_OP that states lane by
// lane, in scalar terms, what it must do (the specification).  Both act on the slots of one block of
// memory, which the verifier compares as a whole.  IRV_N is 4, 8 or 16.
#include <math.h>
#include <cmath>
#define CAT_(a,b,c) a##b##c
#define CAT(a,b,c) CAT_(a,b,c)
#define V  CAT(v,IRV_N,)
#define VI CAT(v,IRV_N,int)
#define VF CAT(v,IRV_N,float)
#define M_(a,b) CAT(a,IRV_N,b)
typedef ::V::V VB;
using namespace V;
#define N IRV_N
struct Mem { union { int i[64]; float f[64]; unsigned u[64]; } w[40]; };
#define T(name) extern "C" void t_##name( Mem & m )
#define S(name) extern "C" void s_##name( Mem & m )
#define EACH for( int l=0; l<N; l++ )
#define v(k)  (*(VB *)m.w[k].i)
#define vi(k) (*(VI *)m.w[k].i)
#define vf(k) (*(VF *)m.w[k].i)
#define I(k) m.w[k].i[l]
#define F(k) m.w[k].f[l]
#define P(k) ((void *)m.w[k].i)

// --- integers
#define IBIN(name,op) T(i_##name) { vi(0) = vi(1) op vi(2); } S(i_##name) { EACH I(0) = I(1) op I(2); } \
                      T(ia_##name) { vi(0) op##= vi(1); }     S(ia_##name) { EACH I(0) op##= I(1); }
IBIN(add,+) IBIN(sub,-) IBIN(mul,*) IBIN(div,/) IBIN(mod,%) IBIN(xor,^) IBIN(and,&) IBIN(or,|) IBIN(shl,<<) IBIN(shr,>>)
#define ICMP(name,op) T(i_##name) { vi(0) = vi(1) op vi(2); } S(i_##name) { EACH I(0) = ( I(1) op I(2) ) ? -1 : 0; }
ICMP(lt,<) ICMP(gt,>) ICMP(eq,==) ICMP(ne,!=) ICMP(le,<=) ICMP(ge,>=) ICMP(land,&&) ICMP(lor,||)
T(i_pos) { vi(0) = +vi(1); }   S(i_pos) { EACH I(0) = I(1); }
T(i_neg) { vi(0) = -vi(1); }   S(i_neg) { EACH I(0) = -I(1); }
T(i_not) { vi(0) = ~vi(1); }   S(i_not) { EACH I(0) = ~I(1); }
T(i_lnot) { vi(0) = !vi(1); }  S(i_lnot) { EACH I(0) = I(1) ? 0 : -1; }
T(i_preinc) { vi(0) = ++vi(1); }   S(i_preinc) { EACH { I(1) += 1; I(0) = I(1); } }
T(i_predec) { vi(0) = --vi(1); }   S(i_predec) { EACH { I(1) -= 1; I(0) = I(1); } }
T(i_postinc) { vi(0) = vi(1)++; }  S(i_postinc) { EACH { I(0) = I(1); I(1) += 1; } }
T(i_postdec) { vi(0) = vi(1)--; }  S(i_postdec) { EACH { I(0) = I(1); I(1) -= 1; } }
T(i_abs) { vi(0) = abs( vi(1) ); } S(i_abs) { EACH I(0) = I(1) < 0 ? -I(1) : I(1); }
T(i_splat) { vi(0) = VI( m.w[1].i[0] ); } S(i_splat) { EACH I(0) = m.w[1].i[0]; }
T(i_copy) { VI a( vi(1) ); vi(0) = a; }   S(i_copy) { EACH I(0) = I(1); }
T(i_mixed) { VI a( v(1) ); vi(0) = a; }   S(i_mixed) { EACH I(0) = I(1); }
#if IRV_N==4
T(i_init) { int *a = m.w[1].i; vi(0) = VI( a[0],a[1],a[2],a[3] ); }
T(f_init) { float *a = m.w[1].f; vf(0) = VF( a[0],a[1],a[2],a[3] ); }
#elif IRV_N==8
T(i_init) { int *a = m.w[1].i; vi(0) = VI( a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7] ); }
T(f_init) { float *a = m.w[1].f; vf(0) = VF( a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7] ); }
#else
T(i_init) { int *a = m.w[1].i; vi(0) = VI( a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15] ); }
T(f_init) { float *a = m.w[1].f; vf(0) = VF( a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15] ); }
#endif
S(i_init) { EACH I(0) = I(1); }
S(f_init) { EACH F(0) = F(1); }
T(i_get) { VI &a = vi(1); EACH I(0) = a(l); }        S(i_get) { EACH I(0) = I(1); }
T(i_set) { VI &a = vi(0); EACH a[l] = I(1); }        S(i_set) { EACH I(0) = I(1); }

// --- masks
T(any) { m.w[0].i[0] = any( v(1) ) ? 1 : 0; }  S(any) { int r = 0; EACH if( I(1) ) r = 1; m.w[0].i[0] = r; }
T(all) { m.w[0].i[0] = all( v(1) ) ? 1 : 0; }  S(all) { int r = 1; EACH if( !I(1) ) r = 0; m.w[0].i[0] = r; }
// the selector lanes of these three are all ones or all zeros, as the comparisons make them
#define MASK(k) ( I(k) ? -1 : 0 )
#define MASKS(k) EACH I(k) = MASK(k);
T(czero)    { MASKS(1) v(0) = czero( vi(1), v(2) ); }       S(czero)    { EACH { I(1) = MASK(1); I(0) = I(1) ? 0 : I(2); } }
T(notczero) { MASKS(1) v(0) = notczero( vi(1), v(2) ); }    S(notczero) { EACH { I(1) = MASK(1); I(0) = I(1) ? I(2) : 0; } }
T(merge)    { MASKS(1) v(0) = merge( vi(1), v(2), v(3) ); } S(merge)    { EACH { I(1) = MASK(1); I(0) = I(1) ? I(2) : I(3); } }

// --- rearrangement
#define SPLAT(n) T(splat##n) { v(0) = splat<n>( v(1) ); } S(splat##n) { EACH I(0) = m.w[1].i[n]; }
SPLAT(0) SPLAT(1) SPLAT(2) SPLAT(3)
#if IRV_N>=8
SPLAT(4) SPLAT(5) SPLAT(6) SPLAT(7)
#endif
#if IRV_N>=16
SPLAT(8) SPLAT(9) SPLAT(10) SPLAT(11) SPLAT(12) SPLAT(13) SPLAT(14) SPLAT(15)
#endif
#define SHUF(k,...) T(shuffle##k) { v(0) = shuffle<__VA_ARGS__>( v(1) ); } S(shuffle##k) { static const int p[N] = { __VA_ARGS__ }; EACH I(0) = m.w[1].i[p[l]]; }
#if IRV_N==4
SHUF(0,0,1,2,3) SHUF(1,3,2,1,0) SHUF(2,1,2,0,3) SHUF(3,2,0,1,3) SHUF(4,0,1,2,2) SHUF(5,3,3,0,2) SHUF(6,1,0,3,2) SHUF(7,2,3,0,1)
#elif IRV_N==8
SHUF(0,0,1,2,3,4,5,6,7) SHUF(1,7,6,5,4,3,2,1,0) SHUF(2,1,0,3,2,5,4,7,6) SHUF(3,4,5,6,7,0,1,2,3) SHUF(4,6,3,0,7,2,5,1,4) SHUF(5,2,2,2,7,7,0,0,5)
#else
SHUF(0,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15) SHUF(1,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0) SHUF(2,1,0,3,2,5,4,7,6,9,8,11,10,13,12,15,14)
SHUF(3,8,9,10,11,12,13,14,15,0,1,2,3,4,5,6,7) SHUF(4,6,13,0,15,2,9,1,4,11,8,3,14,5,12,10,7)
#endif
T(swap) { swap( v(0), v(1) ); }  S(swap) { EACH { int t = I(0); I(0) = I(1); I(1) = t; } }
#if IRV_N==4
#define Q4(f,k) f(k),f(k+1),f(k+2),f(k+3)
#define ROWS(f,k) Q4(f,k)
#elif IRV_N==8
#define Q4(f,k) f(k),f(k+1),f(k+2),f(k+3)
#define ROWS(f,k) Q4(f,k),Q4(f,k+4)
#else
#define Q4(f,k) f(k),f(k+1),f(k+2),f(k+3)
#define ROWS(f,k) Q4(f,k),Q4(f,k+4),Q4(f,k+8),Q4(f,k+12)
#endif
T(transpose) { transpose( ROWS(v,0) ); }
S(transpose) { for( int r=0; r<N; r++ ) for( int l=0; l<r; l++ ) { int t = m.w[r].i[l]; m.w[r].i[l] = m.w[l].i[r]; m.w[l].i[r] = t; } }

// --- memory
T(load_x1)   { M_(load_,x1)( P(1), v(0) ); }    S(load_x1)   { EACH I(0) = I(1); }
T(store_x1)  { M_(store_,x1)( v(1), P(0) ); }   S(store_x1)  { EACH I(0) = I(1); }
T(stream_x1) { M_(stream_,x1)( v(1), P(0) ); }  S(stream_x1) { EACH I(0) = I(1); }
T(clear_x1)  { M_(clear_,x1)( P(0) ); }         S(clear_x1)  { EACH I(0) = 0; }
T(copy_x1)   { M_(copy_,x1)( P(0), P(1) ); }    S(copy_x1)   { EACH I(0) = I(1); }
T(swap_x1)   { M_(swap_,x1)( P(0), P(1) ); }    S(swap_x1)   { EACH { int t = I(0); I(0) = I(1); I(1) = t; } }
#define LOADTR(k,...)  T(load_tr##k) { M_(load_,CAT(x,k,_tr))( ROWS(P,0), __VA_ARGS__ ); } \
                       S(load_tr##k) { for( int c=0; c<k; c++ ) EACH m.w[20+c].i[l] = m.w[l].i[c]; }
#define STORETR(k,...) T(store_tr##k) { M_(store_,CAT(x,k,_tr))( __VA_ARGS__, ROWS(P,0) ); } \
                       S(store_tr##k) { for( int c=0; c<k; c++ ) EACH m.w[l].i[c] = m.w[20+c].i[l]; }
#define BOTHTR(k,...) LOADTR(k,__VA_ARGS__) STORETR(k,__VA_ARGS__)
BOTHTR(1,v(20)) BOTHTR(2,v(20),v(21)) BOTHTR(3,v(20),v(21),v(22)) BOTHTR(4,v(20),v(21),v(22),v(23))
#if IRV_N>=8
BOTHTR(8,v(20),v(21),v(22),v(23),v(24),v(25),v(26),v(27))
#endif
#if IRV_N==16
BOTHTR(16,v(20),v(21),v(22),v(23),v(24),v(25),v(26),v(27),v(28),v(29),v(30),v(31),v(32),v(33),v(34),v(35))
#define V8_ v(20),v(21),v(22),v(23),v(24),v(25),v(26),v(27)
#define P8_ P(0),P(1),P(2),P(3),P(4),P(5),P(6),P(7)
// two rows per address
T(load_tr8p)  { load_16x8_tr_p( P8_, V8_ ); }   S(load_tr8p)  { for( int c=0; c<8; c++ ) EACH m.w[20+c].i[l] = m.w[l/2].i[8*(l%2)+c]; }
T(store_tr8p) { store_16x8_tr_p( V8_, P8_ ); }  S(store_tr8p) { for( int c=0; c<8; c++ ) EACH m.w[l/2].i[8*(l%2)+c] = m.w[20+c].i[l]; }
#define V16_ V8_,v(28),v(29),v(30),v(31),v(32),v(33),v(34),v(35)
// addresses in the order 0..15, eight values of two rows per address pair
T(load_tr16p)  { load_16x16_tr_p( ROWS(P,0), V16_ ); }
S(load_tr16p)  { for( int c=0; c<8; c++ ) for( int h=0; h<2; h++ ) EACH m.w[20+8*h+c].i[l] = m.w[8*h+l/2].i[8*(l%2)+c]; }
T(store_tr16p) { store_16x16_tr_p( V16_, ROWS(P,0) ); }
S(store_tr16p) { for( int c=0; c<8; c++ ) for( int h=0; h<2; h++ ) EACH m.w[8*h+l/2].i[8*(l%2)+c] = m.w[20+8*h+c].i[l]; }
#endif

// --- floats
#define FBIN(name,op) T(f_##name) { vf(0) = vf(1) op vf(2); } S(f_##name) { EACH F(0) = F(1) op F(2); } \
                      T(fa_##name) { vf(0) op##= vf(1); }     S(fa_##name) { EACH F(0) = F(0) op F(1); }
FBIN(add,+) FBIN(sub,-) FBIN(mul,*) FBIN(div,/)
#define FCMP(name,op) T(f_##name) { vi(0) = vf(1) op vf(2); } S(f_##name) { EACH I(0) = ( F(1) op F(2) ) ? -1 : 0; }
FCMP(lt,<) FCMP(gt,>) FCMP(eq,==) FCMP(ne,!=) FCMP(le,<=) FCMP(ge,>=) FCMP(land,&&) FCMP(lor,||)
T(f_pos) { vf(0) = +vf(1); }   S(f_pos) { EACH I(0) = I(1); }
T(f_neg) { vf(0) = -vf(1); }   S(f_neg) { EACH F(0) = -F(1); }
T(f_lnot) { vi(0) = !vf(1); }  S(f_lnot) { EACH I(0) = ( F(1)==0 ) ? -1 : 0; }
T(f_preinc) { vf(0) = ++vf(1); }   S(f_preinc) { EACH { F(1) = F(1) + 1; I(0) = I(1); } }
T(f_predec) { vf(0) = --vf(1); }   S(f_predec) { EACH { F(1) = F(1) - 1; I(0) = I(1); } }
T(f_postinc) { vf(0) = vf(1)++; }  S(f_postinc) { EACH { float t = F(1); F(0) = t; F(1) = t + 1; } }
T(f_postdec) { vf(0) = vf(1)--; }  S(f_postdec) { EACH { float t = F(1); F(0) = t; F(1) = t - 1; } }
T(f_splat) { vf(0) = VF( m.w[1].f[0] ); } S(f_splat) { EACH I(0) = m.w[1].i[0]; }
T(f_copy) { VF a( vf(1) ); vf(0) = a; }   S(f_copy) { EACH I(0) = I(1); }
T(f_mixed) { VF a( v(1) ); vf(0) = a; }   S(f_mixed) { EACH I(0) = I(1); }
T(f_get) { VF &a = vf(1); EACH F(0) = a(l); }        S(f_get) { EACH F(0) = F(1); }
T(f_set) { VF &a = vf(0); EACH a[l] = F(1); }        S(f_set) { EACH F(0) = F(1); }
#define MATH1(fn) T(fn) { vf(0) = fn( vf(1) ); } S(fn) { EACH F(0) = ::fn( F(1) ); }
#define MATH2(fn) T(fn) { vf(0) = fn( vf(1), vf(2) ); } S(fn) { EACH F(0) = ::fn( F(1), F(2) ); }
MATH1(acos) MATH1(asin) MATH1(atan) MATH2(atan2) MATH1(ceil) MATH1(cos) MATH1(cosh) MATH1(exp) MATH1(floor) MATH2(fmod)
MATH1(log) MATH1(log10) MATH2(pow) MATH1(sin) MATH1(sinh) MATH1(sqrt) MATH1(tan) MATH1(tanh)
T(fabs) { vf(0) = fabs( vf(1) ); } S(fabs) { EACH I(0) = I(1) & 0x7fffffff; }
T(copysign) { vf(0) = copysign( vf(1), vf(2) ); }
S(copysign) { EACH I(0) = ( I(1) & 0x7fffffff ) | ( m.w[2].u[l] & 0x80000000u ); }
T(rsqrt_approx) { vf(0) = rsqrt_approx( vf(1) ); } S(rsqrt_approx) { EACH F(0) = 1/::sqrt( F(1) ); }
T(rsqrt) { vf(0) = rsqrt( vf(1) ); }               S(rsqrt) { EACH F(0) = 1/::sqrt( F(1) ); }
T(rcp_approx) { vf(0) = rcp_approx( vf(1) ); }     S(rcp_approx) { EACH F(0) = 1/F(1); }
T(rcp) { vf(0) = rcp( vf(1) ); }                   S(rcp) { EACH F(0) = 1/F(1); }
T(fma) { vf(0) = fma( vf(1), vf(2), vf(3) ); }     S(fma) { EACH F(0) = F(1)*F(2) + F(3); }
T(fms) { vf(0) = fms( vf(1), vf(2), vf(3) ); }     S(fms) { EACH F(0) = F(1)*F(2) - F(3); }
T(fnms) { vf(0) = fnms( vf(1), vf(2), vf(3) ); }   S(fnms) { EACH F(0) = F(3) - F(1)*F(2); }
T(clear_bits) { vf(0) = clear_bits( vi(1), vf(2) ); }    S(clear_bits) { EACH I(0) = ~I(1) & I(2); }
T(set_bits) { vf(0) = set_bits( vi(1), vf(2) ); }        S(set_bits) { EACH I(0) = I(1) | I(2); }
T(toggle_bits) { vf(0) = toggle_bits( vi(1), vf(2) ); }  S(toggle_bits) { EACH I(0) = I(1) ^ I(2); }
T(increment_x1) { M_(increment_,x1)( m.w[0].f, vf(1) ); }  S(increment_x1) { EACH F(0) = F(0) + F(1); }
T(decrement_x1) { M_(decrement_,x1)( m.w[0].f, vf(1) ); }  S(decrement_x1) { EACH F(0) = F(0) - F(1); }
T(scale_x1) { M_(scale_,x1)( m.w[0].f, vf(1) ); }          S(scale_x1) { EACH F(0) = F(0) * F(1); }
#if IRV_N==4
T(trilinear) { trilinear( vf(0), vf(1) ); }
S(trilinear) { float x = m.w[0].f[0], y = m.w[0].f[1], z = m.w[0].f[2];
  EACH { float c = ( (l&1) ? 1+x : 1-x )*( (l&2) ? 1+y : 1-y ); F(0) = c*( 1-z ); F(1) = c*( 1+z ); } }
#endif
