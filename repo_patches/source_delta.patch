From dde7a3f3a9f58ad222a045415dd1bd1ded23340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 1/7] fix: do not divide by zero in Marder cleaning when the
 local domain is a single cell

With nx=ny=nz=1 the cleaning coefficient was 0.3888889/0 = inf, multiplied
by a zero inverse spacing: NaN in every E and B component touched.
---
 src/field_advance/standard/pipeline/clean_div_b_pipeline.cc | 6 ++++--
 .../standard/pipeline/clean_div_b_pipeline_v16.cc           | 3 ++-
 .../standard/pipeline/clean_div_b_pipeline_v4.cc            | 3 ++-
 .../standard/pipeline/clean_div_b_pipeline_v8.cc            | 3 ++-
 src/field_advance/standard/pipeline/clean_div_e_pipeline.h  | 3 ++-
 .../standard/pipeline/vacuum_clean_div_e_pipeline.h         | 3 ++-
 6 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/field_advance/standard/pipeline/clean_div_b_pipeline.cc b/src/field_advance/standard/pipeline/clean_div_b_pipeline.cc
index 37bf069..4176cad 100644
--- a/src/field_advance/standard/pipeline/clean_div_b_pipeline.cc
+++ b/src/field_advance/standard/pipeline/clean_div_b_pipeline.cc
@@ -38,7 +38,8 @@ clean_div_b_pipeline_scalar( pipeline_args_t * args,
   py = ( ny > 1 ) ? g->rdy : 0;
   pz = ( nz > 1 ) ? g->rdz : 0;
 
-  alphadt = 0.3888889/( px*px + py*py + pz*pz );
+  alphadt = ( nx > 1 || ny > 1 || nz > 1 ) ?
+            0.3888889/( px*px + py*py + pz*pz ) : 0;
 
   px *= alphadt;
   py *= alphadt;
@@ -110,7 +111,8 @@ clean_div_b_pipeline( field_array_t * RESTRICT fa )
   py = ( ny > 1 ) ? g->rdy : 0;
   pz = ( nz > 1 ) ? g->rdz : 0;
 
-  alphadt = 0.3888889/( px*px + py*py + pz*pz );
+  alphadt = ( nx > 1 || ny > 1 || nz > 1 ) ?
+            0.3888889/( px*px + py*py + pz*pz ) : 0;
 
   px *= alphadt;
   py *= alphadt;
diff --git a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc
index 098ab95..16828da 100644
--- a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc
+++ b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc
@@ -31,7 +31,8 @@ clean_div_b_pipeline_v16( pipeline_args_t * args,
   py = ( ny > 1 ) ? g->rdy : 0;
   pz = ( nz > 1 ) ? g->rdz : 0;
 
-  alphadt = 0.3888889/( px*px + py*py + pz*pz );
+  alphadt = ( nx > 1 || ny > 1 || nz > 1 ) ?
+            0.3888889/( px*px + py*py + pz*pz ) : 0;
 
   px *= alphadt;
   py *= alphadt;
diff --git a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc
index 058dc9a..4357cf3 100644
--- a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc
+++ b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc
@@ -31,7 +31,8 @@ clean_div_b_pipeline_v4( pipeline_args_t * args,
   py = ( ny > 1 ) ? g->rdy : 0;
   pz = ( nz > 1 ) ? g->rdz : 0;
 
-  alphadt = 0.3888889/( px*px + py*py + pz*pz );
+  alphadt = ( nx > 1 || ny > 1 || nz > 1 ) ?
+            0.3888889/( px*px + py*py + pz*pz ) : 0;
 
   px *= alphadt;
   py *= alphadt;
diff --git a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc
index 66ea318..4c31edb 100644
--- a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc
+++ b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc
@@ -31,7 +31,8 @@ clean_div_b_pipeline_v8( pipeline_args_t * args,
   py = ( ny > 1 ) ? g->rdy : 0;
   pz = ( nz > 1 ) ? g->rdz : 0;
 
-  alphadt = 0.3888889/( px*px + py*py + pz*pz );
+  alphadt = ( nx > 1 || ny > 1 || nz > 1 ) ?
+            0.3888889/( px*px + py*py + pz*pz ) : 0;
 
   px *= alphadt;
   py *= alphadt;
diff --git a/src/field_advance/standard/pipeline/clean_div_e_pipeline.h b/src/field_advance/standard/pipeline/clean_div_e_pipeline.h
index bfd7b15..378d983 100644
--- a/src/field_advance/standard/pipeline/clean_div_e_pipeline.h
+++ b/src/field_advance/standard/pipeline/clean_div_e_pipeline.h
@@ -23,7 +23,8 @@ typedef struct pipeline_args
   const float _rdx = (nx>1) ? g->rdx : 0;                                \
   const float _rdy = (ny>1) ? g->rdy : 0;                                \
   const float _rdz = (nz>1) ? g->rdz : 0;                                \
-  const float alphadt = 0.3888889/( _rdx*_rdx + _rdy*_rdy + _rdz*_rdz ); \
+  const float alphadt = (nx>1 || ny>1 || nz>1) ?                         \
+    0.3888889/( _rdx*_rdx + _rdy*_rdy + _rdz*_rdz ) : 0;                 \
   const float px   = alphadt*_rdx;                                       \
   const float py   = alphadt*_rdy;                                       \
   const float pz   = alphadt*_rdz;                                       \
diff --git a/src/field_advance/standard/pipeline/vacuum_clean_div_e_pipeline.h b/src/field_advance/standard/pipeline/vacuum_clean_div_e_pipeline.h
index 4d85ba2..852837a 100644
--- a/src/field_advance/standard/pipeline/vacuum_clean_div_e_pipeline.h
+++ b/src/field_advance/standard/pipeline/vacuum_clean_div_e_pipeline.h
@@ -23,7 +23,8 @@ typedef struct pipeline_args
   const float _rdx = (nx>1) ? g->rdx : 0;                                \
   const float _rdy = (ny>1) ? g->rdy : 0;                                \
   const float _rdz = (nz>1) ? g->rdz : 0;                                \
-  const float alphadt = 0.3888889/( _rdx*_rdx + _rdy*_rdy + _rdz*_rdz ); \
+  const float alphadt = (nx>1 || ny>1 || nz>1) ?                         \
+    0.3888889/( _rdx*_rdx + _rdy*_rdy + _rdz*_rdz ) : 0;                 \
   const float px   = (alphadt*_rdx)*m->drivex;                           \
   const float py   = (alphadt*_rdy)*m->drivey;                           \
   const float pz   = (alphadt*_rdz)*m->drivez;                           \
-- 
2.43.0


From 90cb9ef5f7b5d281d9d1b753ceb6d529bf3333d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 2/7] fix: vector logical not of a float tests its value, not
 its bits

The portable, NEON and AVX-512 operator !(float vector) looked at the integer
lanes, so !(-0.0f) was false; the scalar language, SSE and AVX give true.
---
 src/util/v16/v16_avx512.h      |  2 +-
 src/util/v16/v16_portable.h    | 32 ++++++++++++++++----------------
 src/util/v16/v16_portable_v0.h | 32 ++++++++++++++++----------------
 src/util/v16/v16_portable_v1.h |  2 +-
 src/util/v4/v4_neon.h          |  2 +-
 src/util/v4/v4_portable.h      |  8 ++++----
 src/util/v4/v4_portable_v0.h   |  8 ++++----
 src/util/v4/v4_portable_v1.h   |  2 +-
 src/util/v8/v8_portable.h      | 16 ++++++++--------
 src/util/v8/v8_portable_v0.h   | 16 ++++++++--------
 src/util/v8/v8_portable_v1.h   |  2 +-
 11 files changed, 61 insertions(+), 61 deletions(-)

diff --git a/src/util/v16/v16_avx512.h b/src/util/v16/v16_avx512.h
index 92452e4..8fe44ab 100644
--- a/src/util/v16/v16_avx512.h
+++ b/src/util/v16/v16_avx512.h
@@ -2529,7 +2529,7 @@ namespace v16
     v16int b;
 
     for( int j = 0; j < 16; j++ )
-      b.i[j] = a.i[j] ? 0 : -1;
+      b.i[j] = a.f[j] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v16/v16_portable.h b/src/util/v16/v16_portable.h
index b71cb49..4d2ae65 100644
--- a/src/util/v16/v16_portable.h
+++ b/src/util/v16/v16_portable.h
@@ -3623,22 +3623,22 @@ namespace v16
   {
     v16int b;
 
-    b.i[ 0] = a.i[ 0] ? 0 : -1;
-    b.i[ 1] = a.i[ 1] ? 0 : -1;
-    b.i[ 2] = a.i[ 2] ? 0 : -1;
-    b.i[ 3] = a.i[ 3] ? 0 : -1;
-    b.i[ 4] = a.i[ 4] ? 0 : -1;
-    b.i[ 5] = a.i[ 5] ? 0 : -1;
-    b.i[ 6] = a.i[ 6] ? 0 : -1;
-    b.i[ 7] = a.i[ 7] ? 0 : -1;
-    b.i[ 8] = a.i[ 8] ? 0 : -1;
-    b.i[ 9] = a.i[ 9] ? 0 : -1;
-    b.i[10] = a.i[10] ? 0 : -1;
-    b.i[11] = a.i[11] ? 0 : -1;
-    b.i[12] = a.i[12] ? 0 : -1;
-    b.i[13] = a.i[13] ? 0 : -1;
-    b.i[14] = a.i[14] ? 0 : -1;
-    b.i[15] = a.i[15] ? 0 : -1;
+    b.i[ 0] = a.f[ 0] ? 0 : -1;
+    b.i[ 1] = a.f[ 1] ? 0 : -1;
+    b.i[ 2] = a.f[ 2] ? 0 : -1;
+    b.i[ 3] = a.f[ 3] ? 0 : -1;
+    b.i[ 4] = a.f[ 4] ? 0 : -1;
+    b.i[ 5] = a.f[ 5] ? 0 : -1;
+    b.i[ 6] = a.f[ 6] ? 0 : -1;
+    b.i[ 7] = a.f[ 7] ? 0 : -1;
+    b.i[ 8] = a.f[ 8] ? 0 : -1;
+    b.i[ 9] = a.f[ 9] ? 0 : -1;
+    b.i[10] = a.f[10] ? 0 : -1;
+    b.i[11] = a.f[11] ? 0 : -1;
+    b.i[12] = a.f[12] ? 0 : -1;
+    b.i[13] = a.f[13] ? 0 : -1;
+    b.i[14] = a.f[14] ? 0 : -1;
+    b.i[15] = a.f[15] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v16/v16_portable_v0.h b/src/util/v16/v16_portable_v0.h
index b71cb49..4d2ae65 100644
--- a/src/util/v16/v16_portable_v0.h
+++ b/src/util/v16/v16_portable_v0.h
@@ -3623,22 +3623,22 @@ namespace v16
   {
     v16int b;
 
-    b.i[ 0] = a.i[ 0] ? 0 : -1;
-    b.i[ 1] = a.i[ 1] ? 0 : -1;
-    b.i[ 2] = a.i[ 2] ? 0 : -1;
-    b.i[ 3] = a.i[ 3] ? 0 : -1;
-    b.i[ 4] = a.i[ 4] ? 0 : -1;
-    b.i[ 5] = a.i[ 5] ? 0 : -1;
-    b.i[ 6] = a.i[ 6] ? 0 : -1;
-    b.i[ 7] = a.i[ 7] ? 0 : -1;
-    b.i[ 8] = a.i[ 8] ? 0 : -1;
-    b.i[ 9] = a.i[ 9] ? 0 : -1;
-    b.i[10] = a.i[10] ? 0 : -1;
-    b.i[11] = a.i[11] ? 0 : -1;
-    b.i[12] = a.i[12] ? 0 : -1;
-    b.i[13] = a.i[13] ? 0 : -1;
-    b.i[14] = a.i[14] ? 0 : -1;
-    b.i[15] = a.i[15] ? 0 : -1;
+    b.i[ 0] = a.f[ 0] ? 0 : -1;
+    b.i[ 1] = a.f[ 1] ? 0 : -1;
+    b.i[ 2] = a.f[ 2] ? 0 : -1;
+    b.i[ 3] = a.f[ 3] ? 0 : -1;
+    b.i[ 4] = a.f[ 4] ? 0 : -1;
+    b.i[ 5] = a.f[ 5] ? 0 : -1;
+    b.i[ 6] = a.f[ 6] ? 0 : -1;
+    b.i[ 7] = a.f[ 7] ? 0 : -1;
+    b.i[ 8] = a.f[ 8] ? 0 : -1;
+    b.i[ 9] = a.f[ 9] ? 0 : -1;
+    b.i[10] = a.f[10] ? 0 : -1;
+    b.i[11] = a.f[11] ? 0 : -1;
+    b.i[12] = a.f[12] ? 0 : -1;
+    b.i[13] = a.f[13] ? 0 : -1;
+    b.i[14] = a.f[14] ? 0 : -1;
+    b.i[15] = a.f[15] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v16/v16_portable_v1.h b/src/util/v16/v16_portable_v1.h
index e021fc3..ced0382 100644
--- a/src/util/v16/v16_portable_v1.h
+++ b/src/util/v16/v16_portable_v1.h
@@ -3304,7 +3304,7 @@ namespace v16
 
     ALWAYS_VECTORIZE
     for( int j = 0; j < 16; j++ )
-      b.i[j] = a.i[j] ? 0 : -1;
+      b.i[j] = a.f[j] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v4/v4_neon.h b/src/util/v4/v4_neon.h
index 7aaed08..55eab0d 100644
--- a/src/util/v4/v4_neon.h
+++ b/src/util/v4/v4_neon.h
@@ -1214,7 +1214,7 @@ namespace v4
 
     ALWAYS_VECTORIZE
     for( int j = 0; j < 4; j++ )
-      b.i[j] = a.i[j] ? 0 : -1;
+      b.i[j] = a.f[j] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v4/v4_portable.h b/src/util/v4/v4_portable.h
index 1298169..58df873 100644
--- a/src/util/v4/v4_portable.h
+++ b/src/util/v4/v4_portable.h
@@ -938,10 +938,10 @@ namespace v4
   {
     v4int b;
 
-    b.i[0] = a.i[0] ? 0 : -1;
-    b.i[1] = a.i[1] ? 0 : -1;
-    b.i[2] = a.i[2] ? 0 : -1;
-    b.i[3] = a.i[3] ? 0 : -1;
+    b.i[0] = a.f[0] ? 0 : -1;
+    b.i[1] = a.f[1] ? 0 : -1;
+    b.i[2] = a.f[2] ? 0 : -1;
+    b.i[3] = a.f[3] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v4/v4_portable_v0.h b/src/util/v4/v4_portable_v0.h
index 1298169..58df873 100644
--- a/src/util/v4/v4_portable_v0.h
+++ b/src/util/v4/v4_portable_v0.h
@@ -938,10 +938,10 @@ namespace v4
   {
     v4int b;
 
-    b.i[0] = a.i[0] ? 0 : -1;
-    b.i[1] = a.i[1] ? 0 : -1;
-    b.i[2] = a.i[2] ? 0 : -1;
-    b.i[3] = a.i[3] ? 0 : -1;
+    b.i[0] = a.f[0] ? 0 : -1;
+    b.i[1] = a.f[1] ? 0 : -1;
+    b.i[2] = a.f[2] ? 0 : -1;
+    b.i[3] = a.f[3] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v4/v4_portable_v1.h b/src/util/v4/v4_portable_v1.h
index 125b800..8ea2d71 100644
--- a/src/util/v4/v4_portable_v1.h
+++ b/src/util/v4/v4_portable_v1.h
@@ -913,7 +913,7 @@ namespace v4
 
     ALWAYS_VECTORIZE
     for( int j = 0; j < 4; j++ )
-      b.i[j] = a.i[j] ? 0 : -1;
+      b.i[j] = a.f[j] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v8/v8_portable.h b/src/util/v8/v8_portable.h
index e59b145..a57b356 100644
--- a/src/util/v8/v8_portable.h
+++ b/src/util/v8/v8_portable.h
@@ -1365,14 +1365,14 @@ namespace v8
   {
     v8int b;
 
-    b.i[0] = a.i[0] ? 0 : -1;
-    b.i[1] = a.i[1] ? 0 : -1;
-    b.i[2] = a.i[2] ? 0 : -1;
-    b.i[3] = a.i[3] ? 0 : -1;
-    b.i[4] = a.i[4] ? 0 : -1;
-    b.i[5] = a.i[5] ? 0 : -1;
-    b.i[6] = a.i[6] ? 0 : -1;
-    b.i[7] = a.i[7] ? 0 : -1;
+    b.i[0] = a.f[0] ? 0 : -1;
+    b.i[1] = a.f[1] ? 0 : -1;
+    b.i[2] = a.f[2] ? 0 : -1;
+    b.i[3] = a.f[3] ? 0 : -1;
+    b.i[4] = a.f[4] ? 0 : -1;
+    b.i[5] = a.f[5] ? 0 : -1;
+    b.i[6] = a.f[6] ? 0 : -1;
+    b.i[7] = a.f[7] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v8/v8_portable_v0.h b/src/util/v8/v8_portable_v0.h
index e59b145..a57b356 100644
--- a/src/util/v8/v8_portable_v0.h
+++ b/src/util/v8/v8_portable_v0.h
@@ -1365,14 +1365,14 @@ namespace v8
   {
     v8int b;
 
-    b.i[0] = a.i[0] ? 0 : -1;
-    b.i[1] = a.i[1] ? 0 : -1;
-    b.i[2] = a.i[2] ? 0 : -1;
-    b.i[3] = a.i[3] ? 0 : -1;
-    b.i[4] = a.i[4] ? 0 : -1;
-    b.i[5] = a.i[5] ? 0 : -1;
-    b.i[6] = a.i[6] ? 0 : -1;
-    b.i[7] = a.i[7] ? 0 : -1;
+    b.i[0] = a.f[0] ? 0 : -1;
+    b.i[1] = a.f[1] ? 0 : -1;
+    b.i[2] = a.f[2] ? 0 : -1;
+    b.i[3] = a.f[3] ? 0 : -1;
+    b.i[4] = a.f[4] ? 0 : -1;
+    b.i[5] = a.f[5] ? 0 : -1;
+    b.i[6] = a.f[6] ? 0 : -1;
+    b.i[7] = a.f[7] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v8/v8_portable_v1.h b/src/util/v8/v8_portable_v1.h
index 6f3eb04..13f68b6 100644
--- a/src/util/v8/v8_portable_v1.h
+++ b/src/util/v8/v8_portable_v1.h
@@ -1238,7 +1238,7 @@ namespace v8
 
     ALWAYS_VECTORIZE
     for( int j = 0; j < 8; j++ )
-      b.i[j] = a.i[j] ? 0 : -1;
+      b.i[j] = a.f[j] ? 0 : -1;
 
     return b;
   }
-- 
2.43.0


From abf8d78e2c1fb05781a7444724adc15d7a5cbc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 3/7] fix: vector copysign honours the sign of a negative zero

The portable and NEON copysign compared the second argument with zero, so the
sign of -0.0f was lost; the C function, SSE and AVX copy the sign bit.
---
 src/util/v16/v16_portable.h    | 65 +++++++++-------------------------
 src/util/v16/v16_portable_v0.h | 65 +++++++++-------------------------
 src/util/v16/v16_portable_v1.h |  5 +--
 src/util/v4/v4_neon.h          |  5 +--
 src/util/v4/v4_portable.h      | 17 +++------
 src/util/v4/v4_portable_v0.h   | 17 +++------
 src/util/v4/v4_portable_v1.h   |  5 +--
 src/util/v8/v8_portable.h      | 33 +++++------------
 src/util/v8/v8_portable_v0.h   | 33 +++++------------
 src/util/v8/v8_portable_v1.h   |  5 +--
 10 files changed, 60 insertions(+), 190 deletions(-)

diff --git a/src/util/v16/v16_portable.h b/src/util/v16/v16_portable.h
index 4d2ae65..ad4be62 100644
--- a/src/util/v16/v16_portable.h
+++ b/src/util/v16/v16_portable.h
@@ -3868,71 +3868,38 @@ namespace v16
   inline v16float copysign( const v16float &a, const v16float &b )
   {
     v16float c;
-    float t;
 
-    t = ::fabs( a.f[ 0] );
-    if( b.f[ 0] < 0 ) t = -t;
-    c.f[ 0] = t;
+    c.f[ 0] = ::copysign( a.f[ 0], b.f[ 0] );
 
-    t = ::fabs( a.f[ 1] );
-    if( b.f[ 1] < 0 ) t = -t;
-    c.f[ 1] = t;
+    c.f[ 1] = ::copysign( a.f[ 1], b.f[ 1] );
 
-    t = ::fabs( a.f[ 2] );
-    if( b.f[ 2] < 0 ) t = -t;
-    c.f[ 2] = t;
+    c.f[ 2] = ::copysign( a.f[ 2], b.f[ 2] );
 
-    t = ::fabs( a.f[ 3] );
-    if( b.f[ 3] < 0 ) t = -t;
-    c.f[ 3] = t;
+    c.f[ 3] = ::copysign( a.f[ 3], b.f[ 3] );
 
-    t = ::fabs( a.f[ 4] );
-    if( b.f[ 4] < 0 ) t = -t;
-    c.f[ 4] = t;
+    c.f[ 4] = ::copysign( a.f[ 4], b.f[ 4] );
 
-    t = ::fabs( a.f[ 5] );
-    if( b.f[ 5] < 0 ) t = -t;
-    c.f[ 5] = t;
+    c.f[ 5] = ::copysign( a.f[ 5], b.f[ 5] );
 
-    t = ::fabs( a.f[ 6] );
-    if( b.f[ 6] < 0 ) t = -t;
-    c.f[ 6] = t;
+    c.f[ 6] = ::copysign( a.f[ 6], b.f[ 6] );
 
-    t = ::fabs( a.f[ 7] );
-    if( b.f[ 7] < 0 ) t = -t;
-    c.f[ 7] = t;
+    c.f[ 7] = ::copysign( a.f[ 7], b.f[ 7] );
 
-    t = ::fabs( a.f[ 8] );
-    if( b.f[ 8] < 0 ) t = -t;
-    c.f[ 8] = t;
+    c.f[ 8] = ::copysign( a.f[ 8], b.f[ 8] );
 
-    t = ::fabs( a.f[ 9] );
-    if( b.f[ 9] < 0 ) t = -t;
-    c.f[ 9] = t;
+    c.f[ 9] = ::copysign( a.f[ 9], b.f[ 9] );
 
-    t = ::fabs( a.f[10] );
-    if( b.f[10] < 0 ) t = -t;
-    c.f[10] = t;
+    c.f[10] = ::copysign( a.f[10], b.f[10] );
 
-    t = ::fabs( a.f[11] );
-    if( b.f[11] < 0 ) t = -t;
-    c.f[11] = t;
+    c.f[11] = ::copysign( a.f[11], b.f[11] );
 
-    t = ::fabs( a.f[12] );
-    if( b.f[12] < 0 ) t = -t;
-    c.f[12] = t;
+    c.f[12] = ::copysign( a.f[12], b.f[12] );
 
-    t = ::fabs( a.f[13] );
-    if( b.f[13] < 0 ) t = -t;
-    c.f[13] = t;
+    c.f[13] = ::copysign( a.f[13], b.f[13] );
 
-    t = ::fabs( a.f[14] );
-    if( b.f[14] < 0 ) t = -t;
-    c.f[14] = t;
+    c.f[14] = ::copysign( a.f[14], b.f[14] );
 
-    t = ::fabs( a.f[15] );
-    if( b.f[15] < 0 ) t = -t;
-    c.f[15] = t;
+    c.f[15] = ::copysign( a.f[15], b.f[15] );
 
     return c;
   }
diff --git a/src/util/v16/v16_portable_v0.h b/src/util/v16/v16_portable_v0.h
index 4d2ae65..ad4be62 100644
--- a/src/util/v16/v16_portable_v0.h
+++ b/src/util/v16/v16_portable_v0.h
@@ -3868,71 +3868,38 @@ namespace v16
   inline v16float copysign( const v16float &a, const v16float &b )
   {
     v16float c;
-    float t;
 
-    t = ::fabs( a.f[ 0] );
-    if( b.f[ 0] < 0 ) t = -t;
-    c.f[ 0] = t;
+    c.f[ 0] = ::copysign( a.f[ 0], b.f[ 0] );
 
-    t = ::fabs( a.f[ 1] );
-    if( b.f[ 1] < 0 ) t = -t;
-    c.f[ 1] = t;
+    c.f[ 1] = ::copysign( a.f[ 1], b.f[ 1] );
 
-    t = ::fabs( a.f[ 2] );
-    if( b.f[ 2] < 0 ) t = -t;
-    c.f[ 2] = t;
+    c.f[ 2] = ::copysign( a.f[ 2], b.f[ 2] );
 
-    t = ::fabs( a.f[ 3] );
-    if( b.f[ 3] < 0 ) t = -t;
-    c.f[ 3] = t;
+    c.f[ 3] = ::copysign( a.f[ 3], b.f[ 3] );
 
-    t = ::fabs( a.f[ 4] );
-    if( b.f[ 4] < 0 ) t = -t;
-    c.f[ 4] = t;
+    c.f[ 4] = ::copysign( a.f[ 4], b.f[ 4] );
 
-    t = ::fabs( a.f[ 5] );
-    if( b.f[ 5] < 0 ) t = -t;
-    c.f[ 5] = t;
+    c.f[ 5] = ::copysign( a.f[ 5], b.f[ 5] );
 
-    t = ::fabs( a.f[ 6] );
-    if( b.f[ 6] < 0 ) t = -t;
-    c.f[ 6] = t;
+    c.f[ 6] = ::copysign( a.f[ 6], b.f[ 6] );
 
-    t = ::fabs( a.f[ 7] );
-    if( b.f[ 7] < 0 ) t = -t;
-    c.f[ 7] = t;
+    c.f[ 7] = ::copysign( a.f[ 7], b.f[ 7] );
 
-    t = ::fabs( a.f[ 8] );
-    if( b.f[ 8] < 0 ) t = -t;
-    c.f[ 8] = t;
+    c.f[ 8] = ::copysign( a.f[ 8], b.f[ 8] );
 
-    t = ::fabs( a.f[ 9] );
-    if( b.f[ 9] < 0 ) t = -t;
-    c.f[ 9] = t;
+    c.f[ 9] = ::copysign( a.f[ 9], b.f[ 9] );
 
-    t = ::fabs( a.f[10] );
-    if( b.f[10] < 0 ) t = -t;
-    c.f[10] = t;
+    c.f[10] = ::copysign( a.f[10], b.f[10] );
 
-    t = ::fabs( a.f[11] );
-    if( b.f[11] < 0 ) t = -t;
-    c.f[11] = t;
+    c.f[11] = ::copysign( a.f[11], b.f[11] );
 
-    t = ::fabs( a.f[12] );
-    if( b.f[12] < 0 ) t = -t;
-    c.f[12] = t;
+    c.f[12] = ::copysign( a.f[12], b.f[12] );
 
-    t = ::fabs( a.f[13] );
-    if( b.f[13] < 0 ) t = -t;
-    c.f[13] = t;
+    c.f[13] = ::copysign( a.f[13], b.f[13] );
 
-    t = ::fabs( a.f[14] );
-    if( b.f[14] < 0 ) t = -t;
-    c.f[14] = t;
+    c.f[14] = ::copysign( a.f[14], b.f[14] );
 
-    t = ::fabs( a.f[15] );
-    if( b.f[15] < 0 ) t = -t;
-    c.f[15] = t;
+    c.f[15] = ::copysign( a.f[15], b.f[15] );
 
     return c;
   }
diff --git a/src/util/v16/v16_portable_v1.h b/src/util/v16/v16_portable_v1.h
index ced0382..4f21a17 100644
--- a/src/util/v16/v16_portable_v1.h
+++ b/src/util/v16/v16_portable_v1.h
@@ -3430,14 +3430,11 @@ namespace v16
   inline v16float copysign( const v16float &a, const v16float &b )
   {
     v16float c;
-    float t;
 
     ALWAYS_VECTORIZE
     for( int j = 0; j < 16; j++ )
     {
-      t = ::fabs( a.f[j] );
-      if( b.f[j] < 0 ) t = -t;
-      c.f[j] = t;
+      c.f[j] = ::copysign( a.f[j], b.f[j] );
     }
 
     return c;
diff --git a/src/util/v4/v4_neon.h b/src/util/v4/v4_neon.h
index 55eab0d..08b48a6 100644
--- a/src/util/v4/v4_neon.h
+++ b/src/util/v4/v4_neon.h
@@ -1409,14 +1409,11 @@ namespace v4
   inline v4float copysign( const v4float &a, const v4float &b )
   {
     v4float c;
-    float t;
 
     ALWAYS_VECTORIZE
     for( int j = 0; j < 4; j++ )
     {
-      t = ::fabs( a.f[j] );
-      if( b.f[j] < 0 ) t = -t;
-      c.f[j] = t;
+      c.f[j] = ::copysign( a.f[j], b.f[j] );
     }
 
     return c;
diff --git a/src/util/v4/v4_portable.h b/src/util/v4/v4_portable.h
index 58df873..f6bf4c9 100644
--- a/src/util/v4/v4_portable.h
+++ b/src/util/v4/v4_portable.h
@@ -1078,23 +1078,14 @@ namespace v4
   inline v4float copysign( const v4float &a, const v4float &b )
   {
     v4float c;
-    float t;
 
-    t = ::fabs( a.f[0] );
-    if ( b.f[0] < 0 ) t = -t;
-    c.f[0] = t;
+    c.f[0] = ::copysign( a.f[0], b.f[0] );
 
-    t = ::fabs( a.f[1] );
-    if ( b.f[1] < 0 ) t = -t;
-    c.f[1] = t;
+    c.f[1] = ::copysign( a.f[1], b.f[1] );
 
-    t = ::fabs( a.f[2] );
-    if ( b.f[2] < 0 ) t = -t;
-    c.f[2] = t;
+    c.f[2] = ::copysign( a.f[2], b.f[2] );
 
-    t = ::fabs( a.f[3] );
-    if ( b.f[3] < 0 ) t = -t;
-    c.f[3] = t;
+    c.f[3] = ::copysign( a.f[3], b.f[3] );
 
     return c;
   }
diff --git a/src/util/v4/v4_portable_v0.h b/src/util/v4/v4_portable_v0.h
index 58df873..f6bf4c9 100644
--- a/src/util/v4/v4_portable_v0.h
+++ b/src/util/v4/v4_portable_v0.h
@@ -1078,23 +1078,14 @@ namespace v4
   inline v4float copysign( const v4float &a, const v4float &b )
   {
     v4float c;
-    float t;
 
-    t = ::fabs( a.f[0] );
-    if ( b.f[0] < 0 ) t = -t;
-    c.f[0] = t;
+    c.f[0] = ::copysign( a.f[0], b.f[0] );
 
-    t = ::fabs( a.f[1] );
-    if ( b.f[1] < 0 ) t = -t;
-    c.f[1] = t;
+    c.f[1] = ::copysign( a.f[1], b.f[1] );
 
-    t = ::fabs( a.f[2] );
-    if ( b.f[2] < 0 ) t = -t;
-    c.f[2] = t;
+    c.f[2] = ::copysign( a.f[2], b.f[2] );
 
-    t = ::fabs( a.f[3] );
-    if ( b.f[3] < 0 ) t = -t;
-    c.f[3] = t;
+    c.f[3] = ::copysign( a.f[3], b.f[3] );
 
     return c;
   }
diff --git a/src/util/v4/v4_portable_v1.h b/src/util/v4/v4_portable_v1.h
index 8ea2d71..7603159 100644
--- a/src/util/v4/v4_portable_v1.h
+++ b/src/util/v4/v4_portable_v1.h
@@ -1042,14 +1042,11 @@ namespace v4
   inline v4float copysign( const v4float &a, const v4float &b )
   {
     v4float c;
-    float t;
 
     ALWAYS_VECTORIZE
     for( int j = 0; j < 4; j++ )
     {
-      t = ::fabs( a.f[j] );
-      if( b.f[j] < 0 ) t = -t;
-      c.f[j] = t;
+      c.f[j] = ::copysign( a.f[j], b.f[j] );
     }
 
     return c;
diff --git a/src/util/v8/v8_portable.h b/src/util/v8/v8_portable.h
index a57b356..a7fe14d 100644
--- a/src/util/v8/v8_portable.h
+++ b/src/util/v8/v8_portable.h
@@ -1538,39 +1538,22 @@ namespace v8
   inline v8float copysign( const v8float &a, const v8float &b )
   {
     v8float c;
-    float t;
 
-    t = ::fabs( a.f[0] );
-    if( b.f[0] < 0 ) t = -t;
-    c.f[0] = t;
+    c.f[0] = ::copysign( a.f[0], b.f[0] );
 
-    t = ::fabs( a.f[1] );
-    if( b.f[1] < 0 ) t = -t;
-    c.f[1] = t;
+    c.f[1] = ::copysign( a.f[1], b.f[1] );
 
-    t = ::fabs( a.f[2] );
-    if( b.f[2] < 0 ) t = -t;
-    c.f[2] = t;
+    c.f[2] = ::copysign( a.f[2], b.f[2] );
 
-    t = ::fabs( a.f[3] );
-    if( b.f[3] < 0 ) t = -t;
-    c.f[3] = t;
+    c.f[3] = ::copysign( a.f[3], b.f[3] );
 
-    t = ::fabs( a.f[4] );
-    if( b.f[4] < 0 ) t = -t;
-    c.f[4] = t;
+    c.f[4] = ::copysign( a.f[4], b.f[4] );
 
-    t = ::fabs( a.f[5] );
-    if( b.f[5] < 0 ) t = -t;
-    c.f[5] = t;
+    c.f[5] = ::copysign( a.f[5], b.f[5] );
 
-    t = ::fabs( a.f[6] );
-    if( b.f[6] < 0 ) t = -t;
-    c.f[6] = t;
+    c.f[6] = ::copysign( a.f[6], b.f[6] );
 
-    t = ::fabs( a.f[7] );
-    if( b.f[7] < 0 ) t = -t;
-    c.f[7] = t;
+    c.f[7] = ::copysign( a.f[7], b.f[7] );
 
     return c;
   }
diff --git a/src/util/v8/v8_portable_v0.h b/src/util/v8/v8_portable_v0.h
index a57b356..a7fe14d 100644
--- a/src/util/v8/v8_portable_v0.h
+++ b/src/util/v8/v8_portable_v0.h
@@ -1538,39 +1538,22 @@ namespace v8
   inline v8float copysign( const v8float &a, const v8float &b )
   {
     v8float c;
-    float t;
 
-    t = ::fabs( a.f[0] );
-    if( b.f[0] < 0 ) t = -t;
-    c.f[0] = t;
+    c.f[0] = ::copysign( a.f[0], b.f[0] );
 
-    t = ::fabs( a.f[1] );
-    if( b.f[1] < 0 ) t = -t;
-    c.f[1] = t;
+    c.f[1] = ::copysign( a.f[1], b.f[1] );
 
-    t = ::fabs( a.f[2] );
-    if( b.f[2] < 0 ) t = -t;
-    c.f[2] = t;
+    c.f[2] = ::copysign( a.f[2], b.f[2] );
 
-    t = ::fabs( a.f[3] );
-    if( b.f[3] < 0 ) t = -t;
-    c.f[3] = t;
+    c.f[3] = ::copysign( a.f[3], b.f[3] );
 
-    t = ::fabs( a.f[4] );
-    if( b.f[4] < 0 ) t = -t;
-    c.f[4] = t;
+    c.f[4] = ::copysign( a.f[4], b.f[4] );
 
-    t = ::fabs( a.f[5] );
-    if( b.f[5] < 0 ) t = -t;
-    c.f[5] = t;
+    c.f[5] = ::copysign( a.f[5], b.f[5] );
 
-    t = ::fabs( a.f[6] );
-    if( b.f[6] < 0 ) t = -t;
-    c.f[6] = t;
+    c.f[6] = ::copysign( a.f[6], b.f[6] );
 
-    t = ::fabs( a.f[7] );
-    if( b.f[7] < 0 ) t = -t;
-    c.f[7] = t;
+    c.f[7] = ::copysign( a.f[7], b.f[7] );
 
     return c;
   }
diff --git a/src/util/v8/v8_portable_v1.h b/src/util/v8/v8_portable_v1.h
index 13f68b6..003112f 100644
--- a/src/util/v8/v8_portable_v1.h
+++ b/src/util/v8/v8_portable_v1.h
@@ -1364,14 +1364,11 @@ namespace v8
   inline v8float copysign( const v8float &a, const v8float &b )
   {
     v8float c;
-    float t;
 
     ALWAYS_VECTORIZE
     for( int j = 0; j < 8; j++ )
     {
-      t = ::fabs( a.f[j] );
-      if( b.f[j] < 0 ) t = -t;
-      c.f[j] = t;
+      c.f[j] = ::copysign( a.f[j], b.f[j] );
     }
 
     return c;
-- 
2.43.0


From 7bbf656576a5b59ec9308794db880d847000a9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 4/7] fix: AVX float vector != is unordered, as in the scalar
 language

With the ordered predicate NaN != x was false for every lane holding a NaN, and
a NaN counted as false in && and ||; the scalar language, the SSE classes and
the portable classes give true.
---
 src/util/v8/v8_avx.h  | 10 +++++-----
 src/util/v8/v8_avx2.h | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/util/v8/v8_avx.h b/src/util/v8/v8_avx.h
index 2fd8c23..23d5208 100644
--- a/src/util/v8/v8_avx.h
+++ b/src/util/v8/v8_avx.h
@@ -1384,7 +1384,7 @@ namespace v8
   LOGICAL( <,  _mm256_cmp_ps, _CMP_LT_OS  )
   LOGICAL( >,  _mm256_cmp_ps, _CMP_GT_OS  )
   LOGICAL( ==, _mm256_cmp_ps, _CMP_EQ_OS  )
-  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_OS )
+  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_US )
   LOGICAL( <=, _mm256_cmp_ps, _CMP_LE_OS  )
   LOGICAL( >=, _mm256_cmp_ps, _CMP_GE_OS  )
 
@@ -1393,8 +1393,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
@@ -1404,8 +1404,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
diff --git a/src/util/v8/v8_avx2.h b/src/util/v8/v8_avx2.h
index 315969f..0961d16 100644
--- a/src/util/v8/v8_avx2.h
+++ b/src/util/v8/v8_avx2.h
@@ -1580,7 +1580,7 @@ namespace v8
   LOGICAL( <,  _mm256_cmp_ps, _CMP_LT_OS  )
   LOGICAL( >,  _mm256_cmp_ps, _CMP_GT_OS  )
   LOGICAL( ==, _mm256_cmp_ps, _CMP_EQ_OS  )
-  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_OS )
+  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_US )
   LOGICAL( <=, _mm256_cmp_ps, _CMP_LE_OS  )
   LOGICAL( >=, _mm256_cmp_ps, _CMP_GE_OS  )
 
@@ -1589,8 +1589,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
@@ -1600,8 +1600,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
-- 
2.43.0


From 8e20d7be3a6f044e66914a01463bb1c89f0dd080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 5/7] fix: shuffle draws and divides 64-bit random numbers

The draw and its divisor were kept in 32-bit variables while the divisor was
computed from UINT64_MAX, so for 2, 4, 8, ... remaining elements the divisor was
0xffffffff and an element was practically never moved (and a divisor whose low
word is zero divided by zero).
---
 src/util/rng/rng.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/rng/rng.cc b/src/util/rng/rng.cc
index 4215670..c343ce4 100644
--- a/src/util/rng/rng.cc
+++ b/src/util/rng/rng.cc
@@ -489,7 +489,7 @@ shuffle( rng_t * RESTRICT r,
          size_t sz_ele,
          size_t str_ele,
          size_t n_ele ) {
-  uint32_t a, d;
+  uint64_t a, d;
   size_t i, j, k;
 
   if( n_ele<2 || !sz_ele ) return _x;
-- 
2.43.0


From 4af028e92e5628ce52600b7a0cc6c374f3ac1dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:56 +0000
Subject: [PATCH 6/7] fix: child_langmuir: aging a particle no longer
 overwrites the weight of the next one

The emission loop reused w for the age displacement factor, so every particle
after the first emitted from a face got that factor as its weight.
---
 src/emitter/child_langmuir.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/emitter/child_langmuir.cc b/src/emitter/child_langmuir.cc
index cbeb5c2..d2945bb 100644
--- a/src/emitter/child_langmuir.cc
+++ b/src/emitter/child_langmuir.cc
@@ -66,7 +66,7 @@ emit_child_langmuir( child_langmuir_t * RESTRICT              cl,
   int np = sp->np, np_skipped = 0;
   int nm = sp->nm, nm_skipped = 0;
 
-  float w, ux, uy, uz;
+  float w, age, ux, uy, uz;
   int c, cc, i, np_emit;
 
   // Loop over all components of the region
@@ -104,12 +104,12 @@ emit_child_langmuir( child_langmuir_t * RESTRICT              cl,
         /* Age the particle */                                          \
                                                                         \
         if( nm>=max_nm ) { nm_skipped++; continue; }                    \
-        w = ( frand_c0(rng)*cdt ) /                                     \
+        age = ( frand_c0(rng)*cdt ) /                                   \
           sqrtf( ( u##X*u##X + u##Y*u##Y ) + ( u##Z*u##Z + 1 ) );       \
         DECLARE_ALIGNED_ARRAY( particle_mover_t, 16, local_pm, 1 );     \
-        local_pm->disp##X = w*u##X*rd##X;                               \
-        local_pm->disp##Y = w*u##Y*rd##Y;                               \
-        local_pm->disp##Z = w*u##Z*rd##Z;                               \
+        local_pm->disp##X = age*u##X*rd##X;                             \
+        local_pm->disp##Y = age*u##Y*rd##Y;                             \
+        local_pm->disp##Z = age*u##Z*rd##Z;                             \
         local_pm->i       = np-1;                                       \
         if (move_p( p, local_pm, a, g, qsp )) {                         \
             pm[nm++] = local_pm[0];                                     \
-- 
2.43.0


From 7abdeb49fde5cb259360ff018f0e0b5cc1bfc137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:28 +0000
Subject: [PATCH 7/7] fix: never draw a collision partner beyond the cell

With more than 65535 particles of a species in a voxel, UINT_MAX/nk leaves
a remainder of more than one interval, so uirand/rk can also be nk+1: the
draw has to be repeated for every k>=nk, not only for k==nk.
---
 src/collision/pipeline/binary_pipeline.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision/pipeline/binary_pipeline.cc b/src/collision/pipeline/binary_pipeline.cc
index e359530..714258a 100644
--- a/src/collision/pipeline/binary_pipeline.cc
+++ b/src/collision/pipeline/binary_pipeline.cc
@@ -117,8 +117,8 @@ binary_pipeline_scalar( binary_collision_model_t * RESTRICT cm,
          of getting k on 0:nk-1 and l on 0:nl-1 and uses the
          preferred high order randgen bits). */
   
-      do { k = (int)(uirand(rng)/rk); } while( k==nk ); k += k0;
-      do { l = (int)(uirand(rng)/rl); } while( l==nl ); l += l0;
+      do { k = (int)(uirand(rng)/rk); } while( k>=nk ); k += k0;
+      do { l = (int)(uirand(rng)/rl); } while( l>=nl ); l += l0;
      
       /* Compute the probability that a physical particle in the
          species whose candidate computational particle has the least
-- 
2.43.0

