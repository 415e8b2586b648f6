From e4d3f03c5137168e7c7c8699a329ebafcbc089bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:16 +0000
Subject: [PATCH 01/92] fix: assigning an empty vector replaces the stored
 vector

---
 src/GenericContainer.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 039ae28..68885e3 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -338,42 +338,42 @@ namespace GC_namespace {
   GenericContainer &
   GenericContainer::operator = ( vec_bool_type const & a ) {
     set_vec_bool( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_b->begin() );
+    *m_data.v_b = a;
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_int_type const & a ) {
     set_vec_int( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_i->begin() );
+    *m_data.v_i = a;
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_long_type const & a ) {
     set_vec_long( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_l->begin() );
+    *m_data.v_l = a;
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_real_type const & a ) {
     set_vec_real( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_r->begin() );
+    *m_data.v_r = a;
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_complex_type const & a ) {
     set_vec_complex( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_c->begin() );
+    *m_data.v_c = a;
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_string_type const & a ) {
     set_vec_string( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_s->begin() );
+    *m_data.v_s = a;
     return *this;
   }
 
@@ -992,7 +992,7 @@ namespace GC_namespace {
   vec_pointer_type &
   GenericContainer::set_vec_pointer( vec_pointer_type const & v ) {
     allocate_vec_pointer( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_p->begin() );
+    *m_data.v_p = v;
     return *m_data.v_p;
   }
 
@@ -1004,7 +1004,7 @@ namespace GC_namespace {
   vec_bool_type &
   GenericContainer::set_vec_bool( vec_bool_type const & v ) {
     allocate_vec_bool( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_b->begin() );
+    *m_data.v_b = v;
     return *m_data.v_b;
   }
 
@@ -1017,7 +1017,7 @@ namespace GC_namespace {
   vec_int_type &
   GenericContainer::set_vec_int( vec_int_type const & v ) {
     allocate_vec_int( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_i->begin() );
+    *m_data.v_i = v;
     return *m_data.v_i;
   }
 
@@ -1030,7 +1030,7 @@ namespace GC_namespace {
   vec_long_type &
   GenericContainer::set_vec_long( vec_long_type const & v ) {
     allocate_vec_long( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_l->begin() );
+    *m_data.v_l = v;
     return *m_data.v_l;
   }
 
@@ -1043,7 +1043,7 @@ namespace GC_namespace {
   vec_real_type &
   GenericContainer::set_vec_real( vec_real_type const & v ) {
     allocate_vec_real( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_r->begin() );
+    *m_data.v_r = v;
     return *m_data.v_r;
   }
 
@@ -1056,7 +1056,7 @@ namespace GC_namespace {
   vec_complex_type &
   GenericContainer::set_vec_complex( vec_complex_type const & v ) {
     allocate_vec_complex( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_c->begin() );
+    *m_data.v_c = v;
     return *m_data.v_c;
   }
 
@@ -1121,7 +1121,7 @@ namespace GC_namespace {
   vec_string_type &
   GenericContainer::set_vec_string( vec_string_type const & v ) {
     allocate_vec_string( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_s->begin() );
+    *m_data.v_s = v;
     return *m_data.v_s;
   }
 
-- 
2.43.0


From 29ea4428498c5c6f9d9ea38015a16ec4db6334cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:10 +0000
Subject: [PATCH 02/92] fix: copying a container replaces the old content, also
 when source and destination overlap

---
 src/GenericContainer.cc | 70 +++++++++--------------------------------
 1 file changed, 15 insertions(+), 55 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 68885e3..a608dc9 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -963,9 +963,7 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::set_complex( complex_type const & value ) {
-    clear();
-    m_data_type = GC_type::COMPLEX;
-    m_data.c    = new complex_type;
+    allocate_complex();
     return (*m_data.c=value);
   }
 
@@ -3717,49 +3715,7 @@ namespace GC_namespace {
 
   void
   GenericContainer::to_gc( GenericContainer & gc ) const {
-    switch (m_data_type) {
-    case GC_type::NOTYPE:      gc.clear();                break;
-    case GC_type::BOOL:        gc = m_data.b;    break;
-    case GC_type::INTEGER:     gc = m_data.i;    break;
-    case GC_type::LONG:        gc = m_data.l;    break;
-    case GC_type::REAL:        gc = m_data.r;    break;
-    case GC_type::COMPLEX:     gc = *m_data.c;   break;
-    case GC_type::STRING:      gc = *m_data.s;   break;
-    case GC_type::VEC_BOOL:    gc = *m_data.v_b; break;
-    case GC_type::VEC_INTEGER: gc = *m_data.v_i; break;
-    case GC_type::VEC_LONG:    gc = *m_data.v_l; break;
-    case GC_type::VEC_REAL:    gc = *m_data.v_r; break;
-    case GC_type::VEC_STRING:  gc = *m_data.v_s; break;
-
-    case GC_type::VECTOR:
-      gc.set_vector();
-      { vector_type const & v{*m_data.v};
-        vector_type       & vv = gc.set_vector(v.size());
-        for ( vector_type::size_type i{0}; i < v.size(); ++i )
-          v[i].to_gc(vv[i]);
-      }
-      break;
-    case GC_type::MAP:
-      gc.set_map();
-      { map_type const & m{*m_data.m};
-        for ( const auto &[fst, snd] : m )
-          snd.to_gc(gc[fst]);
-      }
-      break;
-    case GC_type::MAT_INTEGER: gc = *m_data.m_i; break;
-    case GC_type::MAT_LONG:    gc = *m_data.m_l; break;
-    case GC_type::MAT_REAL:    gc = *m_data.m_r; break;
-    case GC_type::VEC_COMPLEX: gc = *m_data.v_c; break;
-    case GC_type::MAT_COMPLEX: gc = *m_data.m_c; break;
-    case GC_type::POINTER:     gc = this->get_pointer<void *>(); break;
-    case GC_type::VEC_POINTER:
-      { vec_pointer_type const & v  = this->get_vec_pointer();
-        vec_pointer_type       & vv = gc.set_vec_pointer(v.size());
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
-          vv[i] = v[i];
-      }
-      break;
-    }
+    gc.from_gc( *this );
   }
 
   /*
@@ -3773,6 +3729,15 @@ namespace GC_namespace {
 
   void
   GenericContainer::from_gc( GenericContainer const & gc ) {
+    if ( this == &gc ) return;
+    if ( m_data_type == GC_type::VECTOR || m_data_type == GC_type::MAP ) {
+      // gc can be a part of the old content
+      GenericContainer tmp;
+      tmp.from_gc( gc );
+      std::swap( m_data, tmp.m_data );
+      std::swap( m_data_type, tmp.m_data_type );
+      return;
+    }
     switch ( gc.get_type()) {
     case GC_type::NOTYPE:
       this->clear();
@@ -3812,18 +3777,13 @@ namespace GC_namespace {
       break;
 
     case GC_type::VECTOR:
-      this->set_vector();
-      { vector_type const & v{*gc.m_data.v};
-        vector_type       & vv = this->set_vector(v.size());
-        for ( vector_type::size_type i{0}; i < v.size(); ++i )
-          vv[i].from_gc(v[i]);
+      { vector_type v(*gc.m_data.v); // copied first: *this can be a part of gc
+        this->set_vector().swap(v);
       }
       break;
     case GC_type::MAP:
-      this->set_map();
-      { map_type const & m{*gc.m_data.m};
-        for ( const auto &[fst, snd] : m )
-          (*this)[fst].from_gc(snd);
+      { map_type m(*gc.m_data.m); // copied first: *this can be a part of gc
+        this->set_map().swap(m);
       }
       break;
     case GC_type::MAT_INTEGER:
-- 
2.43.0


From b24a1c581f9062d0e0e86c308871709bb8a1e7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:43 +0000
Subject: [PATCH 03/92] fix: compare_content terminates on equal vectors and
 compares reals as reals

---
 src/GenericContainer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index a608dc9..5f6b1d6 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -417,7 +417,7 @@ namespace GC_namespace {
                << *it1 << " <> " << *it2 << '\n';
           break;
         }
-        ++i;
+        ++i; ++it1; ++it2;
       }
     } else {
       data << who << " size: " << A->size() << " <> " << B->size() << '\n';
@@ -478,6 +478,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         if ( m_data.r != gc.m_data.r )
           data << from << "real: " << m_data.r << " <> " << gc.m_data.r << '\n';
+        break;
       case GC_type::POINTER:
         if ( m_data.p != gc.m_data.p )
           data << from << "pointer: 0x" << std::hex << m_data.p << " <> 0x" <<  std::hex << gc.m_data.p << '\n';
-- 
2.43.0


From 42fea873c69524cc06df24b89ba7f4ce48f3b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:02 +0000
Subject: [PATCH 04/92] fix: merge of a map that is part of the destination

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 5f6b1d6..af6ca01 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3830,7 +3830,7 @@ namespace GC_namespace {
     )
     if ( m_data_type == GC_type::NOTYPE ) this->set_map();
     ck( where, GC_type::MAP );
-    { map_type const & m{gc.get_map()};
+    { map_type const m(gc.get_map()); // copied: gc can be a part of *this
       for ( const auto &[fst, snd] : m )
         (*this)[fst].from_gc(snd);
     }
-- 
2.43.0


From 050e053dac10647a9bde34bbc94dff50f7514feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:16 +0000
Subject: [PATCH 05/92] fix: copying an empty vector of pointers replaces the
 stored vector

---
 src/GenericContainer.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index af6ca01..fa464bd 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3806,11 +3806,7 @@ namespace GC_namespace {
       this->set_pointer( gc.get_pointer<void *>() );
       break;
     case GC_type::VEC_POINTER:
-      { vec_pointer_type const & v  = gc.get_vec_pointer();
-        vec_pointer_type       & vv = this->set_vec_pointer(v.size());
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
-          vv[i] = v[i];
-      }
+      this->set_vec_pointer(*gc.m_data.v_p);
       break;
     }
   }
-- 
2.43.0


From 4724c84994aa6dbe327cadc772b78abea2c96f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:12 +0000
Subject: [PATCH 06/92] fix: numeric conversions refuse values outside the
 range of the target integer

---
 src/GenericContainer.cc | 54 +++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index fa464bd..b5c152a 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -24,6 +24,8 @@
 #include "GenericContainer/GenericContainer.hh"
 #include <iomanip>
 #include <cmath>
+#include <limits>
+#include <type_traits>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -56,8 +58,12 @@ static bool isZero0( real_type const x )
 static bool isInteger( real_type const x )
 { using std::round; return isZero0( x-round(x) ); }
 
-static bool isUnsigned( real_type const x )
-{ return isInteger(x) && x >= 0; }
+// integer value that can be stored in the integer type I
+template <typename I>
+static bool is_representable( real_type const x ) {
+  real_type const top{ std::ldexp( static_cast<real_type>(1), std::numeric_limits<I>::digits ) };
+  return isInteger(x) && x < top && ( std::is_signed<I>::value ? x >= -top : x >= 0 );
+}
 
 #endif
 
@@ -1561,15 +1567,15 @@ namespace GC_namespace {
       break;
     case GC_type::LONG:
       GC_ASSERT(
-        m_data.l >= 0,
-        where << " in get_value(...) negative `long` value '" << m_data.l
+        m_data.l >= 0 && m_data.l <= static_cast<long_type>(std::numeric_limits<uint_type>::max()),
+        where << " in get_value(...) negative or too large `long` value '" << m_data.l
               << "' cannot be converted into `uint_type'"
       )
       v = static_cast<unsigned>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
+        is_representable<uint_type>(m_data.r),
         where << " in get_value(...) negative or fractional `real` value '" << m_data.r
               << "' cannot be converted into `uint_type'"
       )
@@ -1577,7 +1583,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && is_representable<uint_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `uint_type'"
       )
@@ -1617,11 +1623,16 @@ namespace GC_namespace {
       v = m_data.i;
       break;
     case GC_type::LONG:
+      GC_ASSERT(
+        static_cast<int_type>(m_data.l) == m_data.l,
+        where << " in get_value(...) `long` value '" << m_data.l
+              << "' cannot be converted into `int_type'"
+      )
       v = static_cast<int>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
+        is_representable<int_type>(m_data.r),
         where << " in get_value(...) fractional `real` value '" << m_data.r
               << "' cannot be converted into `int_type'"
       )
@@ -1629,7 +1640,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && is_representable<int_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `int_type'"
       )
@@ -1683,7 +1694,7 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
+        is_representable<ulong_type>(m_data.r),
         where << " in get_value(...) negative or fractional `real` value '" << m_data.r
               << "' cannot be converted into `ulong_type'"
       )
@@ -1691,7 +1702,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && is_representable<ulong_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value "
               << to_string(*m_data.c) << " cannot be converted into `ulong_type'"
       )
@@ -1736,7 +1747,7 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
+        is_representable<long_type>(m_data.r),
         where << " in get_value(...) fractional `real` value '" << m_data.r
               << "' cannot be converted into `long_type'"
       )
@@ -1744,7 +1755,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && is_representable<long_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `long_type'"
       )
@@ -2618,14 +2629,15 @@ namespace GC_namespace {
       value = iv->second.m_data.i;
       break;
     case GC_type::LONG:
+      if ( static_cast<int_type>(iv->second.m_data.l) != iv->second.m_data.l ) return false;
       value = static_cast<int_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( !isInteger(iv->second.m_data.r) ) return false;
+      if ( !is_representable<int_type>(iv->second.m_data.r) ) return false;
       value = static_cast<int_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+      if ( ! ( is_representable<int_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<int_type>(iv->second.m_data.c->real());
       break;
@@ -2669,15 +2681,15 @@ namespace GC_namespace {
       value = static_cast<uint_type>(iv->second.m_data.i);
       break;
     case GC_type::LONG:
-      if ( iv->second.m_data.l < 0 ) return false;
+      if ( iv->second.m_data.l < 0 || iv->second.m_data.l > static_cast<long_type>(std::numeric_limits<uint_type>::max()) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( ! is_representable<uint_type>(iv->second.m_data.r) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+      if ( ! ( is_representable<uint_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.c->real());
       break;
@@ -2723,11 +2735,11 @@ namespace GC_namespace {
       value = iv->second.m_data.l;
       break;
     case GC_type::REAL:
-      if ( ! isInteger(iv->second.m_data.r) ) return false;
+      if ( ! is_representable<long_type>(iv->second.m_data.r) ) return false;
       value = static_cast<long_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+      if ( ! ( is_representable<long_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<long_type>(iv->second.m_data.c->real());
       break;
@@ -2775,11 +2787,11 @@ namespace GC_namespace {
       value = static_cast<ulong_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( ! is_representable<ulong_type>(iv->second.m_data.r) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+      if ( ! ( is_representable<ulong_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.c->real());
       break;
-- 
2.43.0


From 19e9b138afb388d467f9ec2eca208bfe815e3681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:12 +0000
Subject: [PATCH 07/92] fix: get_if_exists with a list of fields reads a stored
 bool

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index b5c152a..9e47482 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2603,7 +2603,7 @@ namespace GC_namespace {
     if ( m_data_type != GC_type::MAP ) return false;
     map_type & m = *m_data.m;
     for ( string_type const & field : fields ) {
-      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type != GC_type::BOOL ) {
+      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type == GC_type::BOOL ) {
         value = iv->second.m_data.b;
         return true;
       }
-- 
2.43.0


From e3c2a29320209efd3bca5be8c0627c10f01965e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:12 +0000
Subject: [PATCH 08/92] fix: get_map_int over a key sequence converts like the
 other get_map_int

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 9e47482..30be622 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2381,7 +2381,7 @@ namespace GC_namespace {
       GC_ASSERT( p->exists(key), "in the map sequence: " << msg << " last key is missing" );
       p = &(*p)(key);
     }
-    return p->get_int(msg);
+    return p->get_as_int(msg);
   }
 
   int_type
-- 
2.43.0


From 698bf2dc190903d787ac74b1e36671dee379e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:36 +0000
Subject: [PATCH 09/92] fix: promotions to a matrix fill a matrix of the
 promoted type

---
 src/GenericContainerPromote.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 4368a21..144d0da 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1571,7 +1571,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_i)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1580,7 +1580,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_i)(i,0) = (*v_i)[i];
         delete v_i;
       }
       break;
@@ -1627,9 +1627,9 @@ namespace GC_namespace {
     case GC_type::VEC_BOOL:
       { vec_bool_type const * v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
-        set_mat_real(static_cast<unsigned>(v_b->size()),1);
+        set_mat_long(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_l)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1810,7 +1810,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1819,7 +1819,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_i)[i]);
         delete v_i;
       }
       break;
@@ -1828,7 +1828,7 @@ namespace GC_namespace {
        m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_l)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_l)[i]);
         delete v_l;
       }
       break;
@@ -1837,7 +1837,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
-          (*m_data.m_r)(i,0) = (*v_r)[i];
+          (*m_data.m_c)(i,0) = (*v_r)[i];
         delete v_r;
       }
       break;
-- 
2.43.0


From 39db707c4c57d9292cc561a6c954dea842b9fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:36 +0000
Subject: [PATCH 10/92] fix: promoting a scalar to a vector of containers keeps
 the scalar

---
 src/GenericContainerPromote.cc | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 144d0da..18cce19 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1890,25 +1890,16 @@ namespace GC_namespace {
       { set_vector(1); (*this)[0].clear(); } // set data to no type
       break;
     case GC_type::POINTER:
-      { set_vector(1); (*this)[0] = m_data.p; }
-      break;
     case GC_type::BOOL:
-      { set_vector(1); (*this)[0] = m_data.b; }
-      break;
     case GC_type::INTEGER:
-      { set_vector(1); (*this)[0] = m_data.i; }
-      break;
     case GC_type::LONG:
-      { set_vector(1); (*this)[0] = m_data.l; }
-      break;
     case GC_type::REAL:
-      { set_vector(1); (*this)[0] = m_data.r; }
-      break;
     case GC_type::COMPLEX:
-      { set_vector(1); (*this)[0] = *m_data.c; }
-      break;
     case GC_type::STRING:
-      { set_vector(1); (*this)[0] = *m_data.s; }
+      { GenericContainer const tmp{*this}; // copied: set_vector deletes the scalar
+        set_vector(1);
+        (*m_data.v)[0] = tmp;
+      }
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const * v_p{m_data.v_p};
-- 
2.43.0


From 49a91a3a1d4ba856b36be993e104393eb097b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:00 +0000
Subject: [PATCH 11/92] fix: copyto_vec_* refuse reals outside the range of the
 target integer

---
 src/GenericContainerPromote.cc | 58 +++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 18cce19..b9cbeed 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -25,6 +25,8 @@
 #include <iomanip>
 #include <cmath>
 #include <algorithm>
+#include <limits>
+#include <type_traits>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -49,8 +51,12 @@ namespace GC_namespace {
   static bool isInteger( real_type const x )
   { using std::round; return isZero0( x-round(x) ); }
 
-  static bool isUnsigned( real_type const x )
-  { return isInteger(x) && x >= 0; }
+  // `x` has an integer value that fits in the range of type `I`
+  template <typename I>
+  static bool is_representable( real_type const x ) {
+    real_type const top{ std::ldexp( static_cast<real_type>(1), std::numeric_limits<I>::digits ) };
+    return isInteger(x) && x < top && ( std::is_signed<I>::value ? x >= -top : x >= 0 );
+  }
 
   #endif
 
@@ -86,7 +92,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          is_representable<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -110,7 +116,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          is_representable<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -119,7 +125,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && is_representable<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -128,7 +134,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && is_representable<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -149,7 +155,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          is_representable<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -158,7 +164,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && is_representable<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -221,7 +227,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          is_representable<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -251,7 +257,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          is_representable<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -260,7 +266,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && is_representable<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -269,7 +275,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && is_representable<uint_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         );
@@ -296,7 +302,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          is_representable<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -305,7 +311,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && is_representable<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -354,7 +360,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          is_representable<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -372,7 +378,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          is_representable<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -381,7 +387,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && is_representable<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -390,7 +396,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && is_representable<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -405,7 +411,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          is_representable<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -414,7 +420,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && is_representable<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -477,7 +483,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          is_representable<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -507,7 +513,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          is_representable<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -516,7 +522,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && is_representable<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
@@ -525,7 +531,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && is_representable<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         );
@@ -552,7 +558,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          is_representable<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -561,7 +567,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && is_representable<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
-- 
2.43.0


From 7424cd3b3103dc19c1f11df93ec48f02e5fef574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:05 +0000
Subject: [PATCH 12/92] fix: copyto_vec_uint accepts every long in the range of
 unsigned

---
 src/GenericContainerPromote.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index b9cbeed..c43bb0e 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -218,7 +218,7 @@ namespace GC_namespace {
       case GC_type::LONG:
         lval = m_data.l;
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          lval >= 0 && static_cast<uint_type>(lval) == lval,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -248,7 +248,7 @@ namespace GC_namespace {
       case GC_type::VEC_LONG:
         lval = (*m_data.v_l)[i];
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          lval >= 0 && static_cast<uint_type>(lval) == lval,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -293,7 +293,7 @@ namespace GC_namespace {
       case GC_type::MAT_LONG:
         lval = (*m_data.m_l)[i];
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          lval >= 0 && static_cast<uint_type>(lval) == lval,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
-- 
2.43.0


From de5c56dab8313496b25f29029587a4b610cbd7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:10 +0000
Subject: [PATCH 13/92] fix: copyto_vec_complex converts the numbers of a
 vector of containers

---
 src/GenericContainerPromote.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index c43bb0e..5c72fa5 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -686,7 +686,7 @@ namespace GC_namespace {
       case GC_type::MAT_LONG:    val = { static_cast<real_type>((*m_data.m_l)[i]),0 };         break;
       case GC_type::MAT_REAL:    val = {(*m_data.m_r)[i],0};                                   break;
       case GC_type::MAT_COMPLEX: val = (*m_data.m_c)[i];                                                 break;
-      case GC_type::VECTOR:      val = (*this)(i).get_complex();                                         break;
+      case GC_type::VECTOR:      val = (*this)(i).get_complex_number();                                  break;
 
       case GC_type::NOTYPE:
       case GC_type::POINTER:
-- 
2.43.0


From 4e11886e64f1910f495f2f622f19cdbf2b14e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:20 +0000
Subject: [PATCH 14/92] fix: map lookups use the whole key of a string_view

---
 src/GenericContainer.cc | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 30be622..cd0c550 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2367,7 +2367,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_as_int( where );
+    return this->m_data.m->at(string(key)).get_as_int( where );
   }
 
   int_type
@@ -2399,7 +2399,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_number( where );
+    return this->m_data.m->at(string(key)).get_number( where );
   }
 
   real_type
@@ -2431,7 +2431,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_string( where );
+    return this->m_data.m->at(string(key)).get_string( where );
   }
 
   string_view
@@ -2463,7 +2463,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_real( where );
+    return this->m_data.m->at(string(key)).get_vec_real( where );
   }
 
   vec_real_type const &
@@ -2495,7 +2495,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_complex( where );
+    return this->m_data.m->at(string(key)).get_vec_complex( where );
   }
 
   vec_complex_type const &
@@ -2527,7 +2527,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_string( where );
+    return this->m_data.m->at(string(key)).get_vec_string( where );
   }
 
   vec_string_type const &
@@ -2558,7 +2558,7 @@ namespace GC_namespace {
   bool
   GenericContainer::exists( string_view const s ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(s.data()) };
+    auto const iv{ m_data.m->find(string(s)) };
     return iv != m_data.m->end();
   }
 
@@ -2566,7 +2566,7 @@ namespace GC_namespace {
   GenericContainer::exists( vec_string_type const & vs ) const {
     if (m_data_type != GC_type::MAP) return false;
     return std::any_of(vs.begin(), vs.end(),
-      [this](string_type const & s) { return m_data.m->find(s.data()) != m_data.m->end(); }
+      [this](string_type const & s) { return m_data.m->find(s) != m_data.m->end(); }
     );
   }
   string
@@ -2588,7 +2588,7 @@ namespace GC_namespace {
   bool
   GenericContainer::get_if_exists( string_view const field, bool & value ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::BOOL ) return false;
     value = iv->second.m_data.b;
@@ -2619,7 +2619,7 @@ namespace GC_namespace {
     int_type &        value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2670,7 +2670,7 @@ namespace GC_namespace {
     uint_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2722,7 +2722,7 @@ namespace GC_namespace {
     long_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2772,7 +2772,7 @@ namespace GC_namespace {
     ulong_type &      value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2824,7 +2824,7 @@ namespace GC_namespace {
     real_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2872,7 +2872,7 @@ namespace GC_namespace {
     complex_type &    value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2919,7 +2919,7 @@ namespace GC_namespace {
     string_type &     value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::STRING ) return false;
     value = *iv->second.m_data.s;
@@ -3334,7 +3334,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << " operator(): Cannot find key '" << s <<
@@ -3352,7 +3352,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << "\noperator() const: Cannot find key '" << s <<
@@ -3408,7 +3408,7 @@ namespace GC_namespace {
   GenericContainer &
   GenericContainer::operator [] ( string_view const s ) {
     if ( ck( GC_type::MAP ) != 0 ) set_map(); // if not data present allocate!
-    return (*m_data.m)[s.data()];
+    return (*m_data.m)[string(s)];
   }
 
   GenericContainer const &
@@ -3419,7 +3419,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    return (*m_data.m)[s.data()];
+    return (*m_data.m)[string(s)];
   }
 
   /*
-- 
2.43.0


From 76bf22cd26261c3b1d91f7311790c43f2f935b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:51 +0000
Subject: [PATCH 15/92] fix: matrix element access checks row and column

---
 src/GenericContainer.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index cd0c550..08aa745 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -140,6 +140,11 @@ namespace GC_namespace {
   template <typename TYPE>
   TYPE const &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) const {
+    GC_ASSERT(
+      i < m_num_rows && j < m_num_cols,
+      "mat_type::operator() (" << i << ", " << j << ") out of range "
+      << m_num_rows << " x " << m_num_cols
+    )
     try {
       return this->at(i+j*m_num_rows);
     } catch ( std::exception const & exc ) {
@@ -152,6 +157,11 @@ namespace GC_namespace {
   template <typename TYPE>
   TYPE &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) {
+    GC_ASSERT(
+      i < m_num_rows && j < m_num_cols,
+      "mat_type::operator() (" << i << ", " << j << ") out of range "
+      << m_num_rows << " x " << m_num_cols
+    )
     try {
       return this->at(i+j*m_num_rows);
     } catch ( std::exception const & exc ) {
@@ -3095,7 +3105,7 @@ namespace GC_namespace {
   GenericContainer::get_real_at( unsigned const i, unsigned const j, string_view const where ) const  {
     ck(where,GC_type::MAT_REAL);
     GC_ASSERT(
-      i < m_data.v_r->size(),
+      i < m_data.m_r->num_rows() && j < m_data.m_r->num_cols(),
       where << " get_real_at( " << i << ", " << j << " ) const, out of range"
     )
     return (*m_data.m_r)(i,j);
@@ -3148,6 +3158,10 @@ namespace GC_namespace {
   complex_type const &
   GenericContainer::get_complex_at( unsigned const i, unsigned const j, string_view const where ) const  {
     ck(where,GC_type::MAT_COMPLEX);
+    GC_ASSERT(
+      i < m_data.m_c->num_rows() && j < m_data.m_c->num_cols(),
+      where << " get_complex_at( " << i << ", " << j << " ) const, out of range"
+    )
     return (*m_data.m_c)(i,j);
   }
 
-- 
2.43.0


From 3bb035bd33f6b1f86c8ca4ca3dc88ab0eda1b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:06 +0000
Subject: [PATCH 16/92] fix: get_number_at and get_complex_number_at check the
 index

---
 src/GenericContainer.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 08aa745..38c0f52 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -1960,6 +1960,10 @@ namespace GC_namespace {
 
   real_type
   GenericContainer::get_number_at( unsigned const i, string_view const where ) const {
+    GC_ASSERT(
+      i < get_num_elements(),
+      where << " get_number_at( " << i << " ) const, out of range"
+    )
     switch (m_data_type) {
     case GC_type::VEC_BOOL:    return (*m_data.v_b)[i] ? 1 : 0;
     case GC_type::VEC_INTEGER: return (*m_data.v_i)[i];
@@ -1992,6 +1996,10 @@ namespace GC_namespace {
 
   complex_type
   GenericContainer::get_complex_number_at( unsigned const i, string_view const where ) const {
+    GC_ASSERT(
+      i < get_num_elements(),
+      where << " get_complex_number_at( " << i << " ) const, out of range"
+    )
     switch (m_data_type) {
     case GC_type::VEC_BOOL:    return {static_cast<real_type>( (*m_data.v_b)[i]?1:0 ),0};
     case GC_type::VEC_INTEGER: return {static_cast<real_type>( (*m_data.v_i)[i] ),0};
-- 
2.43.0


From eb01e1a291127cb221b14f390719008440fc6d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:24 +0000
Subject: [PATCH 17/92] fix: element access by row and column of an empty
 container makes a matrix holding the element

---
 src/GenericContainer.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 38c0f52..676ee94 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2994,7 +2994,7 @@ namespace GC_namespace {
 
   int_type &
   GenericContainer::get_int_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_int(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ) promote_to_mat_int();
     GC_ASSERT(
@@ -3045,7 +3045,7 @@ namespace GC_namespace {
 
   long_type &
   GenericContainer::get_long_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_long(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG ) promote_to_mat_long();
@@ -3095,7 +3095,7 @@ namespace GC_namespace {
 
   real_type &
   GenericContainer::get_real_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG ||
@@ -3147,7 +3147,7 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::get_complex_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG    ||
-- 
2.43.0


From f7c8e722775a7c6e74440c2905f9847a2f5a0500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:42 +0000
Subject: [PATCH 18/92] fix: reading a missing key of a const map does not
 insert it

---
 src/GenericContainer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 676ee94..a65335e 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3441,7 +3441,12 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    return (*m_data.m)[string(s)];
+    auto const iv{ m_data.m->find(string(s)) };
+    GC_ASSERT(
+      iv != m_data.m->end(),
+      "operator [] const: Cannot find key '" << s << "'!\npossibile keys: " << get_keys()
+    )
+    return iv->second;
   }
 
   /*
-- 
2.43.0


From 74821f25482f2781b0fcd4f8d5eaad8116e4fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:59 +0000
Subject: [PATCH 19/92] fix: typed element access to a vector of containers
 keeps an element of that type

---
 src/GenericContainer.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index a65335e..0c8ebec 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2954,7 +2954,8 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_bool(false);
+    GenericContainer & e{ (*m_data.v)[i] };
+    return e.m_data_type == GC_type::BOOL ? e.m_data.b : e.set_bool(false);
   }
 
   bool_type
@@ -2979,7 +2980,8 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_int(0);
+    GenericContainer & e{ (*m_data.v)[i] };
+    return e.m_data_type == GC_type::INTEGER ? e.m_data.i : e.set_int(0);
   }
 
   int_type const &
@@ -3030,7 +3032,8 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_long(0);
+    GenericContainer & e{ (*m_data.v)[i] };
+    return e.m_data_type == GC_type::LONG ? e.m_data.l : e.set_long(0);
   }
 
   long_type const &
@@ -3080,7 +3083,8 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_real(0);
+    GenericContainer & e{ (*m_data.v)[i] };
+    return e.m_data_type == GC_type::REAL ? e.m_data.r : e.set_real(0);
   }
 
   real_type const &
@@ -3132,7 +3136,8 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_complex(0,0);
+    GenericContainer & e{ (*m_data.v)[i] };
+    return e.m_data_type == GC_type::COMPLEX ? *e.m_data.c : e.set_complex(0,0);
   }
 
   complex_type const &
@@ -3181,7 +3186,8 @@ namespace GC_namespace {
       return (*m_data.v_s)[i];
     }
     promote_to_vector();
-    return (*this)[i].set_string("");
+    GenericContainer & e{ (*this)[i] };
+    return e.m_data_type == GC_type::STRING ? *e.m_data.s : e.set_string("");
   }
 
   string_view
-- 
2.43.0


From c5b3b2184de9e0fbdbf4f4f18f304e75c2655131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:03 +0000
Subject: [PATCH 20/92] fix: collapse only vectors whose elements are all
 numbers or all numeric vectors

---
 src/GenericContainerCollapse.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GenericContainerCollapse.cc b/src/GenericContainerCollapse.cc
index 1238a24..582e9f0 100755
--- a/src/GenericContainerCollapse.cc
+++ b/src/GenericContainerCollapse.cc
@@ -57,12 +57,16 @@ namespace GC_namespace {
         auto max_sub_type{GC_type::NOTYPE};
         bool can_collapse{true};
         bool all_string{true};
+        bool all_number{true};
+        bool all_vec_number{true};
         int_type last_nelem{-1};
         for ( auto & vi : v ) {
           vi.collapse();
           // get type
           auto ti{vi.get_type()};
           if ( ti != GC_type::STRING ) all_string = false;
+          if ( ti < GC_type::BOOL     || ti > GC_type::COMPLEX     ) all_number     = false;
+          if ( ti < GC_type::VEC_BOOL || ti > GC_type::VEC_COMPLEX ) all_vec_number = false;
           if ( max_sub_type < ti ) max_sub_type = ti;
           int_type ne{ static_cast<int_type>(vi.get_num_elements()) };
           if ( last_nelem >= 0 && can_collapse ) {
@@ -79,6 +83,7 @@ namespace GC_namespace {
           *this = tmp;
           break;
         }
+        if ( !(all_number || all_vec_number) ) break; // mixed content stay as is
         switch ( max_sub_type ) {
           case GC_type::BOOL: {
             vec_bool_type tmp; tmp.reserve(v.size());
-- 
2.43.0


From 6f8e86b0e37a8abfefeea86047a55837ac8ee980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:56 +0000
Subject: [PATCH 21/92] fix: serialization of a matrix of complex stops after
 the matrix

---
 src/GenericContainerSerialize.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index c8b0958..7781283 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -327,6 +327,7 @@ namespace GC_namespace {
         nb = double_to_buffer( c.imag(), buffer, available );
         buffer += nb; available -= nb;
       }
+      break;
     case GC_type::VEC_STRING:
       nb = int32_to_buffer( static_cast<int32_t>(m_data.v_s->size()), buffer, available );
       buffer += nb; available -= nb;
@@ -522,6 +523,7 @@ namespace GC_namespace {
         sz = buffer_to_double( buffer, &bf ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
+      break;
     case GC_type::VEC_STRING:
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
-- 
2.43.0


From ef4b66d8eff89c95a334f43ed09f4dfb1123def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:59 +0000
Subject: [PATCH 22/92] fix: de_serialize restores pointers and vectors of
 pointers

---
 src/GenericContainerSerialize.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index 7781283..b1d5ae0 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -381,6 +381,7 @@ namespace GC_namespace {
     this->clear();
 
     int32_t nr, nc, i32;
+    int64_t i64;
     nbyte = nb = buffer_to_int32( buffer, &i32 );
     buffer += nb;
 
@@ -411,6 +412,10 @@ namespace GC_namespace {
       buffer += nb; nbyte += nb;
       break;
     case GC_type::POINTER:
+      m_data_type = GC_type::POINTER;
+      nb = buffer_to_int64( buffer, &i64 );
+      buffer += nb; nbyte += nb;
+      m_data.p = reinterpret_cast<pointer_type>(i64);
       break;
     case GC_type::STRING:
       nb = buffer_to_int32( buffer, &i32 );
@@ -427,6 +432,14 @@ namespace GC_namespace {
       buffer += nb; nbyte += nb;
       break;
     case GC_type::VEC_POINTER:
+      nb = buffer_to_int32( buffer, &i32 );
+      buffer += nb; nbyte += nb;
+      allocate_vec_pointer(i32);
+      for ( auto & p : *m_data.v_p ) {
+        sz = buffer_to_int64( buffer, &i64 );
+        nb += sz; buffer += sz; nbyte += sz;
+        p = reinterpret_cast<pointer_type>(i64);
+      }
       break;
     case GC_type::VEC_BOOL:
       nb = buffer_to_int32( buffer, &i32 );
-- 
2.43.0


From 17c33e2c47a7b982cf86c70c917c4717200bfd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:01 +0000
Subject: [PATCH 23/92] fix: de_serialize restores the whole string, also when
 it contains a zero byte

---
 src/GenericContainerSerialize.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index b1d5ae0..52197a1 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -421,7 +421,7 @@ namespace GC_namespace {
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
       allocate_string();
-      *m_data.s = reinterpret_cast<char const*>(buffer);
+      m_data.s->assign( reinterpret_cast<char const*>(buffer), i32-1 );
       buffer += i32; nbyte += i32;
       break;
     case GC_type::COMPLEX:
@@ -544,7 +544,7 @@ namespace GC_namespace {
       for ( auto & s : *m_data.v_s ) {
         nb = buffer_to_int32( buffer, &i32 );
         buffer += nb; nbyte += nb;
-        s = reinterpret_cast<char const*>(buffer);
+        s.assign( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
       }
       break;
@@ -564,7 +564,7 @@ namespace GC_namespace {
       for ( int32_t i = 0; i < nr; ++i ) {
         nb = buffer_to_int32( buffer, &i32 );
         buffer += nb; nbyte += nb;
-        string_type key = reinterpret_cast<char const*>(buffer);
+        string_type const key( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
         //std::cout << "key[" << i << "] = " << key << '\n';
         sz = (*m_data.m)[key].de_serialize( buffer_dim-nbyte, buffer );
-- 
2.43.0


From 1cb1f80e915962894ac6be8774909fc0dca41642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:04 +0000
Subject: [PATCH 24/92] fix: serialize enlarges the vector of bytes as
 documented and refuses a negative size

---
 src/GenericContainerSerialize.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index 52197a1..456127d 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -186,6 +186,7 @@ namespace GC_namespace {
 
   int32_t
   GenericContainer::serialize( std::vector<uint8_t> & buffer ) const {
+    if ( int32_t const need{ this->mem_size() }; need > static_cast<int32_t>(buffer.size()) ) buffer.resize(need);
     int32_t const sz{ static_cast<int32_t>(buffer.size()) };
     return this->serialize( sz, buffer.data() );
   }
@@ -193,6 +194,8 @@ namespace GC_namespace {
   int32_t
   GenericContainer::serialize( int32_t buffer_dim, uint8_t * buffer) const {
 
+    GC_ASSERT( buffer_dim >= 0, msg );
+
     int32_t sz, available{buffer_dim};
 
     int32_t nb = int32_to_buffer( static_cast<int32_t>(m_data_type), buffer, available );
-- 
2.43.0


From 3becb2dd55784df6d73022d80b6537736c7aa3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:07 +0000
Subject: [PATCH 25/92] fix: de_serialize refuses truncated or corrupted
 buffers

---
 src/GenericContainerSerialize.cc | 126 +++++++++++++++++++------------
 1 file changed, 77 insertions(+), 49 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index 456127d..6194a8b 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -31,6 +31,8 @@ namespace GC_namespace {
 
   static constexpr char msg[]{"GenericContainer::serialize, memory exausted use method mem_size() to estimate memory requirement"};
 
+  static constexpr char msg_read[]{"GenericContainer::de_serialize, corrupted or truncated buffer"};
+
   static
   uint32_t
   int8_to_buffer( int8_t in, uint8_t * buffer, uint32_t const available ) {
@@ -90,14 +92,16 @@ namespace GC_namespace {
 
   static
   uint32_t
-  buffer_to_uint8( uint8_t const * buffer, uint8_t * out ) {
+  buffer_to_uint8( uint8_t const * buffer, uint8_t * out, int32_t const available ) {
+    GC_ASSERT( available >= 1, msg_read );
     *out = buffer[0];
     return sizeof(uint8_t);
   }
 
   static
   uint32_t
-  buffer_to_uint32( uint8_t const * buffer, uint32_t * out ) {
+  buffer_to_uint32( uint8_t const * buffer, uint32_t * out, int32_t const available ) {
+    GC_ASSERT( available >= 4, msg_read );
     uint32_t const tmp0{ buffer[0] };
     uint32_t const tmp1{ buffer[1] };
     uint32_t const tmp2{ buffer[2] };
@@ -108,13 +112,14 @@ namespace GC_namespace {
 
   static
   uint32_t
-  buffer_to_int32( uint8_t const * buffer, int32_t * out ) {
-    return buffer_to_uint32( buffer, reinterpret_cast<uint32_t*>(out) );
+  buffer_to_int32( uint8_t const * buffer, int32_t * out, int32_t const available ) {
+    return buffer_to_uint32( buffer, reinterpret_cast<uint32_t*>(out), available );
   }
 
   static
   uint32_t
-  buffer_to_uint64( uint8_t const * buffer, uint64_t * out ) {
+  buffer_to_uint64( uint8_t const * buffer, uint64_t * out, int32_t const available ) {
+    GC_ASSERT( available >= 8, msg_read );
     uint64_t const tmp0{ buffer[0] };
     uint64_t const tmp1{ buffer[1] };
     uint64_t const tmp2{ buffer[2] };
@@ -129,15 +134,15 @@ namespace GC_namespace {
 
   static
   uint32_t
-  buffer_to_int64( uint8_t const * buffer, int64_t * out ) {
-    return buffer_to_uint64( buffer, reinterpret_cast<uint64_t*>(out) );
+  buffer_to_int64( uint8_t const * buffer, int64_t * out, int32_t const available ) {
+    return buffer_to_uint64( buffer, reinterpret_cast<uint64_t*>(out), available );
   }
 
   static
   uint32_t
-  buffer_to_double( uint8_t const * buffer, double * out ) {
+  buffer_to_double( uint8_t const * buffer, double * out, int32_t const available ) {
     union { double f; uint64_t i; } tmp;
-    buffer_to_uint64( buffer, &tmp.i );
+    buffer_to_uint64( buffer, &tmp.i, available );
     *out = tmp.f;
     return sizeof(double);
   }
@@ -381,11 +386,19 @@ namespace GC_namespace {
     int32_t sz, nb, nbyte;
     double  bf;
 
+    // check that n0 x n1 items of size item_size are available in the buffer
+    auto check = [&]( int32_t const n0, int32_t const n1, int32_t const item_size ) {
+      GC_ASSERT( n0 >= 0 && n1 >= 0 && int64_t(n0)*int64_t(n1) <= (buffer_dim-nbyte)/item_size, msg_read );
+    };
+
     this->clear();
 
     int32_t nr, nc, i32;
     int64_t i64;
-    nbyte = nb = buffer_to_int32( buffer, &i32 );
+    nbyte = nb = buffer_to_int32( buffer, &i32, buffer_dim );
+    GC_ASSERT(
+      i32 >= static_cast<int32_t>(GC_type::NOTYPE) && i32 <= static_cast<int32_t>(GC_type::MAP), msg_read
+    );
     buffer += nb;
 
     switch (static_cast<TypeAllowed>(i32)) {
@@ -395,165 +408,179 @@ namespace GC_namespace {
     case GC_type::BOOL:
       m_data_type = GC_type::BOOL;
       uint8_t b;
-      nb = buffer_to_uint8( buffer, &b );
+      nb = buffer_to_uint8( buffer, &b, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       m_data.b = b > 0;
       break;
     case GC_type::INTEGER:
       m_data_type = GC_type::INTEGER;
-      nb = buffer_to_int32( buffer, &m_data.i );
+      nb = buffer_to_int32( buffer, &m_data.i, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::LONG:
       m_data_type = GC_type::LONG;
-      nb = buffer_to_int64( buffer, &m_data.l );
+      nb = buffer_to_int64( buffer, &m_data.l, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::REAL:
       m_data_type = GC_type::REAL;
-      nb = buffer_to_double( buffer, &m_data.r );
+      nb = buffer_to_double( buffer, &m_data.r, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::POINTER:
       m_data_type = GC_type::POINTER;
-      nb = buffer_to_int64( buffer, &i64 );
+      nb = buffer_to_int64( buffer, &i64, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       m_data.p = reinterpret_cast<pointer_type>(i64);
       break;
     case GC_type::STRING:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check( i32, 1, 1 ); GC_ASSERT( i32 > 0, msg_read );
       allocate_string();
       m_data.s->assign( reinterpret_cast<char const*>(buffer), i32-1 );
       buffer += i32; nbyte += i32;
       break;
     case GC_type::COMPLEX:
       allocate_complex();
-      nb = buffer_to_double( buffer, &bf ); m_data.c->real(bf);
+      nb = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); m_data.c->real(bf);
       buffer += nb; nbyte += nb;
-      nb = buffer_to_double( buffer, &bf ); m_data.c->imag(bf);
+      nb = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); m_data.c->imag(bf);
       buffer += nb; nbyte += nb;
       break;
     case GC_type::VEC_POINTER:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check( i32, 1, 8 );
       allocate_vec_pointer(i32);
       for ( auto & p : *m_data.v_p ) {
-        sz = buffer_to_int64( buffer, &i64 );
+        sz = buffer_to_int64( buffer, &i64, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
         p = reinterpret_cast<pointer_type>(i64);
       }
       break;
     case GC_type::VEC_BOOL:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check( i32, 1, 1 );
       allocate_vec_bool(0);
       m_data.v_b->reserve(i32);
       for ( int32_t i = 0; i < i32; ++i ) {
         uint8_t i8;
-        buffer_to_uint8( buffer, &i8 );
+        buffer_to_uint8( buffer, &i8, buffer_dim-nbyte );
         ++nb; ++buffer; ++nbyte;
         m_data.v_b->push_back( i8 > 0 );
       }
       break;
     case GC_type::VEC_INTEGER:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check( i32, 1, 4 );
       allocate_vec_int(i32);
       for ( auto & i : *m_data.v_i ) {
-        sz = buffer_to_int32( buffer, &i );
+        sz = buffer_to_int32( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_LONG:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check( i32, 1, 8 );
       allocate_vec_long(i32);
       for ( auto & i : *m_data.v_l ) {
-        sz = buffer_to_int64( buffer, &i );
+        sz = buffer_to_int64( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_REAL:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check( i32, 1, 8 );
       allocate_vec_real(i32);
       for ( auto & r : *m_data.v_r ) {
-        sz = buffer_to_double( buffer, &r );
+        sz = buffer_to_double( buffer, &r, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_COMPLEX:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check( i32, 1, 16 );
       allocate_vec_complex(i32);
       for ( auto & c : *m_data.v_c ) {
-        sz = buffer_to_double( buffer, &bf ); c.real(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.real(bf);
         nb += sz; buffer += sz; nbyte += sz;
-        sz = buffer_to_double( buffer, &bf ); c.imag(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_INTEGER:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check( nr, nc, 4 );
       allocate_mat_int( nr, nc );
       for ( auto & i : *m_data.m_i ) {
-        sz = buffer_to_int32( buffer, &i );
+        sz = buffer_to_int32( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_LONG:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check( nr, nc, 8 );
       allocate_mat_long( nr, nc );
       for ( auto & i : *m_data.m_l ) {
-        sz = buffer_to_int64( buffer, &i );
+        sz = buffer_to_int64( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_REAL:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check( nr, nc, 8 );
       allocate_mat_real( nr, nc );
       for ( auto & r : *m_data.m_r ) {
-        sz = buffer_to_double( buffer, &r );
+        sz = buffer_to_double( buffer, &r, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_COMPLEX:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check( nr, nc, 16 );
       allocate_mat_complex( nr, nc );
       for ( auto & c : *m_data.m_c ) {
-        sz = buffer_to_double( buffer, &bf ); c.real(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.real(bf);
         nb += sz; buffer += sz; nbyte += sz;
-        sz = buffer_to_double( buffer, &bf ); c.imag(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_STRING:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check( i32, 1, 5 );
       allocate_vec_string(i32);
       for ( auto & s : *m_data.v_s ) {
-        nb = buffer_to_int32( buffer, &i32 );
+        nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
         buffer += nb; nbyte += nb;
+        check( i32, 1, 1 ); GC_ASSERT( i32 > 0, msg_read );
         s.assign( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
       }
       break;
     case GC_type::VECTOR:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check( i32, 1, 4 );
       allocate_vector(i32);
       for ( auto & S : *m_data.v ) {
         sz = S.de_serialize( buffer_dim-nbyte, buffer );
@@ -561,12 +588,13 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAP:
-      nb = buffer_to_int32( buffer, &i32 ); nr = i32;
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte ); nr = i32;
       buffer += nb; nbyte += nb;
       allocate_map();
       for ( int32_t i = 0; i < nr; ++i ) {
-        nb = buffer_to_int32( buffer, &i32 );
+        nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
         buffer += nb; nbyte += nb;
+        check( i32, 1, 1 ); GC_ASSERT( i32 > 0, msg_read );
         string_type const key( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
         //std::cout << "key[" << i << "] = " << key << '\n';
-- 
2.43.0


From 4baaf07f4cf3ba42e338826de8c0705119101a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:15 +0000
Subject: [PATCH 26/92] fix: to_json writes empty vectors, maps and matrices as
 valid JSON

---
 src_json_interface/to_json.cc | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index c2ed0bf..20e58a0 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -76,7 +76,8 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_BOOL: {
         vec_bool_type const & v{*m_data.v_b};
-        string_view pre{"[ "};
+        string_view pre{" "};
+        stream << '[';
         for ( bool vi : v ) {
           stream << pre << (vi?"true":"false");
           pre = ", ";
@@ -85,7 +86,8 @@ namespace GC_namespace {
         break;
       }
       #define GC_PRINT_VECTOR(VDATA)              \
-      string_view pre = "[ ";                     \
+        string_view pre{" "};                     \
+        stream << '[';                            \
         for ( auto const & vi : v )               \
           { stream << pre << VDATA; pre = ", "; } \
         stream << " ]"
@@ -112,7 +114,8 @@ namespace GC_namespace {
       }
       case GC_type::VEC_STRING: {
         vec_string_type const & v{*m_data.v_s};
-        char const * pre = "[ ";
+        char const * pre{" "};
+        stream << '[';
         for ( auto const & vi : v )
           { stream << pre; string_escape(stream,vi); pre = ", "; }
         stream << " ]";
@@ -120,7 +123,9 @@ namespace GC_namespace {
       }
       case GC_type::VECTOR: {
         vector_type const & v{*m_data.v};
-        if ( !v.empty() ) {
+        if ( v.empty() ) {
+          stream << "[ ]";
+        } else {
           stream << '\n' << prefix;
           char const * pre{"[\n"};
           for ( auto const & vi : v ) {
@@ -134,7 +139,9 @@ namespace GC_namespace {
       }
       case GC_type::MAP: {
         map_type const & m{*m_data.m};
-        if ( !m.empty() ) {
+        if ( m.empty() ) {
+          stream << "{ }";
+        } else {
           stream << '\n' << prefix;
           char const * pre{"{\n"};
           for ( auto const & im : m ) {
@@ -149,15 +156,17 @@ namespace GC_namespace {
       #define GC_PRINT_MATRIX(MDATA)                 \
         unsigned NR{M.num_rows()};                   \
         unsigned NC{M.num_cols()};                   \
-        stream << "[\n";                             \
-        string pre0 = prefix1+"[ ";                  \
+        stream << '[';                               \
+        string_view pre0{"\n"};                      \
         for ( unsigned j{0}; j < NC; ++j ) {         \
-          string pre{pre0};                          \
+          stream << pre0 << prefix1 << '[';          \
+          string_view pre{" "};                      \
           for ( unsigned i{0}; i < NR; ++i )         \
             { stream << pre << MDATA; pre = ", "; }  \
-          pre0 = " ],\n"+prefix1+"[ ";               \
+          stream << " ]";                            \
+          pre0 = ",\n";                              \
         }                                            \
-        stream << " ]\n" << prefix << "]"
+        stream << '\n' << prefix << ']'
 
       case GC_type::MAT_INTEGER: {
         mat_int_type const & M{*m_data.m_i};
@@ -184,7 +193,8 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
-        char const * pre{"[ "};
+        char const * pre{" "};
+        stream << '[';
         for ( auto const & vi : V ) {
           stream << pre << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi);
           pre = ", ";
-- 
2.43.0


From 0b5d16e97e51ab57fa1e19c6ae868c730aa734c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:17 +0000
Subject: [PATCH 27/92] fix: to_json quotes the elements of a matrix of complex
 with double quotes

---
 src_json_interface/to_json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index 20e58a0..941b996 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -185,7 +185,7 @@ namespace GC_namespace {
       }
       case GC_type::MAT_COMPLEX: {
         mat_complex_type const & M{*m_data.m_c};
-        GC_PRINT_MATRIX("'" << to_string(M(i,j)) << "'");
+        GC_PRINT_MATRIX('"' << to_string(M(i,j)) << '"');
         break;
       }
       case GC_type::POINTER:
-- 
2.43.0


From 5bf8b12c3d31d3c923aeae3806f50195a81fb5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:19 +0000
Subject: [PATCH 28/92] fix: to_json escapes the keys of a map

---
 src_json_interface/to_json.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index 941b996..9fc4f68 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -145,7 +145,9 @@ namespace GC_namespace {
           stream << '\n' << prefix;
           char const * pre{"{\n"};
           for ( auto const & im : m ) {
-            stream << pre << prefix << indent << '"' << im.first <<  '"' << ": ";
+            stream << pre << prefix << indent;
+            string_escape( stream, im.first );
+            stream << ": ";
             im.second.to_json(stream,prefix1);
             pre = ",\n";
           }
-- 
2.43.0


From dfc0ec4c5b9e1a59dbbe26a2bdf35b31dc64ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:33 +0000
Subject: [PATCH 29/92] fix: string_escape writes control characters with
 escapes valid in JSON, YAML and TOML

---
 src/GenericContainer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 0c8ebec..4790858 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -94,10 +94,12 @@ namespace GC_namespace {
       else if ( c == '\n' ) { stream << "\\n"; }
       else if ( c == '\r' ) { stream << "\\r"; }
       else if ( c == '\t' ) { stream << "\\t"; }
-      else if ( c == '\v' ) { stream << "\\v"; }
       else if ( c == '\b' ) { stream << "\\b"; }
-      else if ( c == '\a' ) { stream << "\\a"; }
       else if ( c == '\\' ) { stream << "\\\\"; }
+      else if ( c >= 0 && c < 0x20 ) {
+        char const * hex{"0123456789abcdef"};
+        stream << "\\u00" << hex[c>>4] << hex[c&15];
+      }
       else                    stream << c;
     }
     stream << '"';
-- 
2.43.0


From f08733341c7fb8f899d2ede2c769e532cb9c1450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:35 +0000
Subject: [PATCH 30/92] fix: to_json writes null for reals that JSON cannot
 represent

---
 src_json_interface/to_json.cc | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index 9fc4f68..a00f293 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -45,6 +45,14 @@ namespace GC_namespace {
   //         |_____|__/
   */
 
+  // JSON has no representation of infinities and NaN
+  static
+  void
+  real_to_json( ostream_type & stream, real_type const r ) {
+    if ( std::isfinite(r) ) stream << r;
+    else                    stream << "null";
+  }
+
   void
   GenericContainer::to_json(
     ostream_type & stream,
@@ -66,7 +74,7 @@ namespace GC_namespace {
         stream << m_data.l;
         break;
       case GC_type::REAL:
-        stream << m_data.r;
+        real_to_json( stream, m_data.r );
         break;
       case GC_type::COMPLEX:
         stream << '"' << to_string(*m_data.c) << '"';
@@ -104,7 +112,11 @@ namespace GC_namespace {
       }
       case GC_type::VEC_REAL: {
         vec_real_type const & v{*m_data.v_r};
-        GC_PRINT_VECTOR(vi);
+        char const * pre{" "};
+        stream << '[';
+        for ( auto const & vi : v )
+          { stream << pre; real_to_json(stream,vi); pre = ", "; }
+        stream << " ]";
         break;
       }
       case GC_type::VEC_COMPLEX: {
@@ -164,7 +176,7 @@ namespace GC_namespace {
           stream << pre0 << prefix1 << '[';          \
           string_view pre{" "};                      \
           for ( unsigned i{0}; i < NR; ++i )         \
-            { stream << pre << MDATA; pre = ", "; }  \
+            { stream << pre; MDATA; pre = ", "; }    \
           stream << " ]";                            \
           pre0 = ",\n";                              \
         }                                            \
@@ -172,22 +184,22 @@ namespace GC_namespace {
 
       case GC_type::MAT_INTEGER: {
         mat_int_type const & M{*m_data.m_i};
-        GC_PRINT_MATRIX(M(i,j));
+        GC_PRINT_MATRIX(stream << M(i,j));
         break;
       }
       case GC_type::MAT_LONG: {
         mat_long_type const & M{*m_data.m_l};
-        GC_PRINT_MATRIX(M(i,j));
+        GC_PRINT_MATRIX(stream << M(i,j));
         break;
       }
       case GC_type::MAT_REAL: {
         mat_real_type const & M{*m_data.m_r};
-        GC_PRINT_MATRIX(M(i,j));
+        GC_PRINT_MATRIX(real_to_json(stream,M(i,j)));
         break;
       }
       case GC_type::MAT_COMPLEX: {
         mat_complex_type const & M{*m_data.m_c};
-        GC_PRINT_MATRIX('"' << to_string(M(i,j)) << '"');
+        GC_PRINT_MATRIX(stream << '"' << to_string(M(i,j)) << '"');
         break;
       }
       case GC_type::POINTER:
-- 
2.43.0


From cd330276f2669978c30d1b1c3d016c5648dbad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:38 +0000
Subject: [PATCH 31/92] fix: to_json writes pointers as JSON strings and
 restores the format of the stream

---
 src_json_interface/to_json.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index a00f293..ba25488 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -53,6 +53,14 @@ namespace GC_namespace {
     else                    stream << "null";
   }
 
+  static
+  void
+  pointer_to_json( ostream_type & stream, pointer_type const p ) {
+    auto const flags{ stream.flags() };
+    stream << '"' << std::hex << std::showbase << reinterpret_cast<uintptr_t>(p) << '"';
+    stream.flags( flags );
+  }
+
   void
   GenericContainer::to_json(
     ostream_type & stream,
@@ -203,14 +211,15 @@ namespace GC_namespace {
         break;
       }
       case GC_type::POINTER:
-        stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p);
+        pointer_to_json( stream, m_data.p );
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
         char const * pre{" "};
         stream << '[';
         for ( auto const & vi : V ) {
-          stream << pre << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi);
+          stream << pre;
+          pointer_to_json( stream, vi );
           pre = ", ";
         }
         stream << " ]";
-- 
2.43.0


From 948ebeb571ebea1acb3fd00e7723dcdcbbd2ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:56 +0000
Subject: [PATCH 32/92] fix: text of a complex number keeps an imaginary part
 that is NaN

---
 src/GenericContainer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 4790858..2724e9a 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -83,6 +83,7 @@ namespace GC_namespace {
     data << v.real();
     if ( v.imag() > 0 ) data << '+' << v.imag() << 'i';
     if ( v.imag() < 0 ) data << '-' << -v.imag() << 'i';
+    if ( std::isnan(v.imag()) ) data << "+nani";
     return data.str();
   }
 
-- 
2.43.0


From 32081a4631df7a56e2a0cd35e1f164d8266dfa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:04 +0000
Subject: [PATCH 33/92] fix: from_json keeps the value of integers outside the
 range of int

---
 src_json_interface/from_json.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index 5c109e8..748d686 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -64,14 +64,10 @@ namespace GC_namespace {
       gc = value.GetBool();
     } else if ( value.IsInt() ) {
       gc = value.GetInt();
-    } else if ( value.IsUint() ) {
-      gc = value.GetUint();
     } else if ( value.IsInt64() ) {
-      gc = value.GetInt64();
-    } else if ( value.IsUint64() ) {
-      gc = value.GetUint64();
-    } else if ( value.IsDouble() ) {
-      gc = value.GetDouble();
+      gc.set_long( value.GetInt64() );
+    } else if ( value.IsNumber() ) {
+      gc = value.GetDouble(); // also integers outside the range of long
     } else if ( value.IsString() ) {
       gc = value.GetString();
     } else if ( value.IsArray() ) {
-- 
2.43.0


From 2e32890d6a8d8639d395b0505da8f112b858ff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 34/92] fix: from_json keeps zero bytes of strings and keys

---
 src_json_interface/from_json.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index 748d686..96302ee 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -69,7 +69,7 @@ namespace GC_namespace {
     } else if ( value.IsNumber() ) {
       gc = value.GetDouble(); // also integers outside the range of long
     } else if ( value.IsString() ) {
-      gc = value.GetString();
+      gc.set_string( string_view( value.GetString(), value.GetStringLength() ) );
     } else if ( value.IsArray() ) {
       vector_type & V{ gc.set_vector( value.Size() ) };
       for ( rapidjson::SizeType i{0}; i < value.Size(); ++i )
@@ -78,7 +78,7 @@ namespace GC_namespace {
       map_type & M{ gc.set_map() };
       map<std::string, GenericContainer> object;
       for ( auto it = value.MemberBegin(); ok && it != value.MemberEnd(); ++it ) {
-        GenericContainer & gc1 = M[it->name.GetString()];
+        GenericContainer & gc1 = M[string( it->name.GetString(), it->name.GetStringLength() )];
         ok = decode_json(gc1,it->value);
       }
     } else {
-- 
2.43.0


From cdde83299bb391b7f0184852a5adfd833a9b9ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:20 +0000
Subject: [PATCH 35/92] fix: from_json replaces the previous content also when
 it is a map or a vector

---
 src_json_interface/from_json.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index 96302ee..9ebd1d0 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -58,8 +58,9 @@ namespace GC_namespace {
     static regex complex_regex(R"(^([+-]?\d+(\.\d+)?)[+-](\d+(\.\d+)?)i$)");
 
     bool ok{true};
+    gc.clear(); // drop the previous content
     if ( value.IsNull() ) {
-      gc.clear();
+      // empty container
     } else if ( value.IsBool() ) {
       gc = value.GetBool();
     } else if ( value.IsInt() ) {
-- 
2.43.0


From c4564ba8243368c06c9c6543f73e4fc5832ea24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:49 +0000
Subject: [PATCH 36/92] fix: to_toml refuses empty containers instead of
 dereferencing a null node

---
 src_toml_interface/to_toml.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index d8a1218..f1dec79 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -63,7 +63,7 @@ namespace GC_namespace {
     std::unique_ptr<toml::array> empty;
     switch ( gc.get_type() ) {
       case GC_type::NOTYPE:
-        return empty;
+        GC_DO_ERROR( "to_toml, TOML has no representation of an empty container" );
       case GC_type::BOOL:    return NEW_UNIQUE( toml::value<bool>,    gc.get_bool() );
       case GC_type::INTEGER: return NEW_UNIQUE( toml::value<int64_t>, gc.get_int()  );
       case GC_type::LONG:    return NEW_UNIQUE( toml::value<int64_t>, gc.get_long() );
-- 
2.43.0


From 7810e00b03ebb34950cb1f2b742b4853b56c14ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:54 +0000
Subject: [PATCH 37/92] fix: to_toml tags matrices of reals and of complex with
 their own type

---
 src_toml_interface/to_toml.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index f1dec79..652f81b 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -151,7 +151,7 @@ namespace GC_namespace {
         mat_real.insert("$ncols",gc.num_cols());
         mat_real.insert("$data",data);
         DEF_UNIQUE( toml::table );
-        node->as_table()->insert( "$mat_long", std::move(mat_real) );
+        node->as_table()->insert( "$mat_real", std::move(mat_real) );
         return node;
       }
       case GC_type::MAT_COMPLEX: {
@@ -166,7 +166,7 @@ namespace GC_namespace {
         mat_complex.insert("$data_real",data_real);
         mat_complex.insert("$data_imag",data_imag);
         DEF_UNIQUE( toml::table );
-        node->as_table()->insert( "$mat_long", std::move(mat_complex) );
+        node->as_table()->insert( "$mat_complex", std::move(mat_complex) );
         return node;
       }
       case GC_type::POINTER: {
-- 
2.43.0


From 4dba1c2a7689e1ea161632706fcb6f8a5f05f728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:01 +0000
Subject: [PATCH 38/92] fix: from_toml keeps the value of integers of an array
 outside the range of int

---
 src_toml_interface/from_toml.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index 70ab7cb..216e706 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -154,9 +154,20 @@ namespace GC_namespace {
 
       } else if (is_integer_array) {
 
-        GC::vec_int_type & V{ gc.set_vec_int() };
-        V.reserve( N );
-        for ( const auto & value : *ary ) V.emplace_back( value.as_integer()->get() );
+        bool is_int{ true };
+        for ( const auto & value : *ary ) {
+          std::int64_t tmp{ value.as_integer()->get() };
+          if ( tmp < numeric_limits<int32_t>::min() || tmp > numeric_limits<int32_t>::max() ) is_int = false;
+        }
+        if ( is_int ) {
+          GC::vec_int_type & V{ gc.set_vec_int() };
+          V.reserve( N );
+          for ( const auto & value : *ary ) V.emplace_back( std::int32_t( value.as_integer()->get() ) );
+        } else {
+          GC::vec_long_type & V{ gc.set_vec_long() };
+          V.reserve( N );
+          for ( const auto & value : *ary ) V.emplace_back( value.as_integer()->get() );
+        }
 
       } else if (is_float_array) {
 
-- 
2.43.0


From 2ef4ef30f1e836fb4f3ad39bf543f00f7af00879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:07 +0000
Subject: [PATCH 39/92] fix: from_toml replaces the previous content

---
 src_toml_interface/from_toml.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index 216e706..018fb7f 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -75,7 +75,8 @@ namespace GC_namespace {
   TOML_to_GC( toml::node const & node, GenericContainer & gc ) {
     // Controlla il tipo di nodo
     bool ok{true};
-    
+    gc.clear(); // drop the previous content
+
     if ( node.is_string() ) {
 
       gc.set_string(node.as_string()->get());
-- 
2.43.0


From 8d640d95ddedf3beece1d3cdf3a8dca8b523382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:13 +0000
Subject: [PATCH 40/92] fix: from_toml refuses a table header that does not
 start with a key

---
 src_toml_interface/toml++/impl/parser.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src_toml_interface/toml++/impl/parser.inl b/src_toml_interface/toml++/impl/parser.inl
index 6f0136f..4f9c768 100644
--- a/src_toml_interface/toml++/impl/parser.inl
+++ b/src_toml_interface/toml++/impl/parser.inl
@@ -3151,6 +3151,10 @@ TOML_IMPL_NAMESPACE_START
 				if (*cp == U']')
 					set_error_and_return_default("tables with blank bare keys are explicitly prohibited"sv);
 
+				// check that a key starts here, as parse_key() requires
+				if (!is_bare_key_character(*cp) && !is_string_delimiter(*cp))
+					set_error_and_return_default("expected bare key starting character or string delimiter, saw '"sv, to_sv(*cp), "'"sv);
+
 				// get the actual key
 				start_recording();
 				parse_key();
-- 
2.43.0


From 4e12492800850676d63cab082300e28159cd5e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:16 +0000
Subject: [PATCH 41/92] fix: to_toml writes multi-line strings so that leading
 line breaks and quotes are read back

---
 src_toml_interface/toml++/impl/formatter.inl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src_toml_interface/toml++/impl/formatter.inl b/src_toml_interface/toml++/impl/formatter.inl
index f429d32..9cbc037 100644
--- a/src_toml_interface/toml++/impl/formatter.inl
+++ b/src_toml_interface/toml++/impl/formatter.inl
@@ -234,7 +234,7 @@ TOML_IMPL_NAMESPACE_START
 		// determine if this should be a literal string (single-quotes with no escaping)
 		const auto literal = literal_strings_allowed()											//
 						  && !(traits & formatted_string_traits::control_chars)					//
-						  && (!(traits & formatted_string_traits::single_quotes) || multi_line) //
+						  && !(traits & formatted_string_traits::single_quotes)					//
 						  && (!(traits & formatted_string_traits::tabs) || real_tabs_allowed)	//
 						  && (!(traits & formatted_string_traits::line_breaks) || multi_line)	//
 						  && (!(traits & formatted_string_traits::non_ascii) || unicode_allowed);
@@ -244,6 +244,8 @@ TOML_IMPL_NAMESPACE_START
 		{
 			const auto quot = multi_line ? R"(''')"sv : R"(')"sv;
 			print_unformatted(quot);
+			if (multi_line && str.front() == '\n')
+				print_unformatted("\n"sv); // the first line break after the opening quotes is not part of the string
 			print_unformatted(str);
 			print_unformatted(quot);
 			return;
@@ -251,6 +253,8 @@ TOML_IMPL_NAMESPACE_START
 
 		// anything from here down is a non-literal string, so requires iteration and escaping.
 		print_unformatted(multi_line ? R"(""")"sv : R"(")"sv);
+		if (multi_line && str.front() == '\n')
+			print_unformatted("\n"sv); // the first line break after the opening quotes is not part of the string
 
 		// ascii fast path
 		if (!(traits & formatted_string_traits::non_ascii))
-- 
2.43.0


From cca11d086c4acb3e857c30ed6505c36a140d04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:49 +0000
Subject: [PATCH 42/92] fix: from_toml refuses an array whose element does not
 start with a value

---
 src_toml_interface/toml++/impl/parser.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src_toml_interface/toml++/impl/parser.inl b/src_toml_interface/toml++/impl/parser.inl
index 4f9c768..481a053 100644
--- a/src_toml_interface/toml++/impl/parser.inl
+++ b/src_toml_interface/toml++/impl/parser.inl
@@ -3625,6 +3625,10 @@ TOML_IMPL_NAMESPACE_START
 				}
 				prev = parse_type::val;
 
+				// parse_value() requires the start of a value
+				if (is_value_terminator(*cp))
+					set_error_and_return_default("expected value or closing ']', saw '"sv, to_sv(*cp), "'"sv);
+
 				auto val = parse_value();
 				return_if_error({});
 
-- 
2.43.0


From fba9fbb1fb81b036a15f6329ca918a058f8acb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 43/92] fix: to_yaml restores the format of the stream after
 writing pointers

---
 src_yaml_interface/to_yaml.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 4e5dfcb..045ffde 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -45,6 +45,14 @@ namespace GC_namespace {
   //         |_____|___/
   */
 
+  static
+  void
+  pointer_to_yaml( ostream_type & stream, pointer_type const p ) {
+    auto const flags{ stream.flags() };
+    stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(p) << '\n';
+    stream.flags( flags );
+  }
+
   void
   GenericContainer::to_yaml(
     ostream_type & stream,
@@ -189,13 +197,14 @@ namespace GC_namespace {
         break;
       }
       case GC_type::POINTER:
-        stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+        pointer_to_yaml( stream, m_data.p );
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
         stream << '\n';
         for ( auto const & vi : V ) {
-          stream << prefix << "- " << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi) << '\n';
+          stream << prefix << "- ";
+          pointer_to_yaml( stream, vi );
         }
         break;
       }
-- 
2.43.0


From 468b50b71165e1cf7e768c0d7cf9d587021f108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 44/92] fix: to_yaml quotes the keys that are not plain words

---
 src_yaml_interface/to_yaml.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 045ffde..45cc396 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -53,6 +53,20 @@ namespace GC_namespace {
     stream.flags( flags );
   }
 
+  // keys that YAML would not read as the same string are quoted
+  static
+  void
+  key_to_yaml( ostream_type & stream, string_type const & key ) {
+    bool plain{ !key.empty() };
+    for ( auto const c : key )
+      plain = plain && ( c == '_' || ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ) || ( c >= '0' && c <= '9' ) );
+    if ( plain && key[0] >= '0' && key[0] <= '9' ) plain = false;
+    for ( char const * w : { "null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE" } )
+      if ( key == w ) plain = false;
+    if ( plain ) stream << key;
+    else         string_escape( stream, key );
+  }
+
   void
   GenericContainer::to_yaml(
     ostream_type & stream,
@@ -146,7 +160,9 @@ namespace GC_namespace {
           stream << '\n';
           string prefix2{prefix}; prefix2 += "  ";
           for ( auto const & im : m ) {
-            stream << prefix << im.first << ": ";
+            stream << prefix;
+            key_to_yaml( stream, im.first );
+            stream << ": ";
             im.second.to_yaml(stream,prefix2);
           }
         }
-- 
2.43.0


From 2e36940cd8e45eefb8164f0b8a07a0f66ff39ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:43 +0000
Subject: [PATCH 45/92] fix: to_yaml writes empty vectors, non-finite reals and
 vectors and matrices of complex as valid YAML

---
 src_yaml_interface/to_yaml.cc | 76 +++++++++++++++++------------------
 1 file changed, 36 insertions(+), 40 deletions(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 45cc396..ac943c8 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -45,6 +45,14 @@ namespace GC_namespace {
   //         |_____|___/
   */
 
+  static
+  void
+  real_to_yaml( ostream_type & stream, real_type const r ) {
+    if      ( std::isnan(r) ) stream << ".nan";
+    else if ( std::isinf(r) ) stream << ( r > 0 ? ".inf" : "-.inf" );
+    else                      stream << r;
+  }
+
   static
   void
   pointer_to_yaml( ostream_type & stream, pointer_type const p ) {
@@ -86,7 +94,8 @@ namespace GC_namespace {
         stream << m_data.l << '\n';
         break;
       case GC_type::REAL:
-        stream << m_data.r << '\n';
+        real_to_yaml( stream, m_data.r );
+        stream << '\n';
         break;
       case GC_type::COMPLEX:
         stream << to_string(*m_data.c) << '\n';
@@ -97,7 +106,8 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_BOOL: {
         vec_bool_type const & v{*m_data.v_b};
-        char const * pre = "[ ";
+        char const * pre = " ";
+        stream << '[';
         for ( bool vi : v ) {
           stream << pre << (vi?"true":"false");
           pre = ", ";
@@ -105,37 +115,35 @@ namespace GC_namespace {
         stream << " ]\n";
         break;
       }
-      #define GC_PRINT_VECTOR                  \
-        char const * pre = "[ ";               \
-        for ( auto const & vi : v )            \
-          { stream << pre << vi; pre = ", "; } \
+      #define GC_PRINT_VECTOR(PRINT)              \
+        char const * pre = " ";                   \
+        stream << '[';                            \
+        for ( auto const & vi : v )               \
+          { stream << pre; PRINT; pre = ", "; }   \
         stream << " ]\n"
       case GC_type::VEC_INTEGER: {
         vec_int_type const & v{*m_data.v_i};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR( stream << vi );
         break;
       }
       case GC_type::VEC_LONG: {
         vec_long_type const & v{*m_data.v_l};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR( stream << vi );
         break;
       }
       case GC_type::VEC_REAL: {
         vec_real_type const & v{*m_data.v_r};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR( real_to_yaml( stream, vi ) );
         break;
       }
       case GC_type::VEC_COMPLEX: {
         vec_complex_type const & v{*m_data.v_c};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR( stream << to_string(vi) );
         break;
       }
       case GC_type::VEC_STRING: {
         vec_string_type const & v{*m_data.v_s};
-        char const * pre = "[ ";
-        for ( auto const & vi : v )
-          { stream << pre; string_escape(stream,vi); pre = ", "; }
-        stream << " ]\n";
+        GC_PRINT_VECTOR( string_escape(stream,vi) );
         break;
       }
       case GC_type::VECTOR: {
@@ -168,48 +176,36 @@ namespace GC_namespace {
         }
         break;
       }
-      #define GC_PRINT_MATRIX                        \
-        unsigned NR{M.num_rows()};                   \
-        unsigned NC{M.num_cols()};                   \
-        stream << '\n';                              \
-        for ( unsigned j{0}; j < NC; ++j ) {         \
-          stream << prefix;                          \
-          char const * pre = "- [ ";                 \
-          for ( unsigned i{0}; i < NR; ++i )         \
-            { stream << pre << M(i,j); pre = ", "; } \
-          stream << " ]\n";                          \
-        }
-
-      #define GC_PRINT_MATRIXT                       \
-        unsigned NR{M.num_rows()};                   \
-        unsigned NC{M.num_cols()};                   \
-        stream << '\n';                              \
-        for ( unsigned i{0}; i < NR; ++i )           \
-          stream << prefix;                          \
-          char const * pre = "- [ ";                 \
-          for ( unsigned j{0}; j < NC; ++j ) {       \
-            { stream << pre << M(i,j); pre = ", "; } \
-          stream << " ]\n";                          \
+      #define GC_PRINT_MATRIX(PRINT)                    \
+        unsigned NR{M.num_rows()};                      \
+        unsigned NC{M.num_cols()};                      \
+        stream << '\n';                                 \
+        for ( unsigned j{0}; j < NC; ++j ) {            \
+          stream << prefix << "- [";                    \
+          char const * pre = " ";                       \
+          for ( unsigned i{0}; i < NR; ++i )            \
+            { stream << pre; PRINT; pre = ", "; }       \
+          stream << " ]\n";                             \
         }
 
       case GC_type::MAT_INTEGER: {
         mat_int_type const & M{*m_data.m_i};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX( stream << M(i,j) );
         break;
       }
       case GC_type::MAT_LONG: {
         mat_long_type const & M{*m_data.m_l};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX( stream << M(i,j) );
         break;
       }
       case GC_type::MAT_REAL: {
         mat_real_type const & M{*m_data.m_r};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX( real_to_yaml( stream, M(i,j) ) );
         break;
       }
       case GC_type::MAT_COMPLEX: {
         mat_complex_type const & M{*m_data.m_c};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX( stream << to_string(M(i,j)) );
         break;
       }
       case GC_type::POINTER:
-- 
2.43.0


From fab8f04cc7a789b61c2c218c64f80d9889acba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:54 +0000
Subject: [PATCH 46/92] fix: from_yaml reads quoted strings that start with
 backslashes

---
 .../fkYAML/detail/input/lexical_analyzer.hpp             | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
index 130a9d3..97f7a2f 100644
--- a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
@@ -812,12 +812,13 @@ private:
                 // * even number of backslashes -> double quotation mark IS NOT escaped (e.g., "\\"")
                 uint32_t backslash_counts = 0;
                 const char* p = m_token_begin_itr + (pos - 1);
-                do {
-                    if (*p-- != '\\') {
+                while (*p == '\\') {
+                    ++backslash_counts;
+                    if (p == m_token_begin_itr) {
                         break;
                     }
-                    ++backslash_counts;
-                } while (p != m_token_begin_itr);
+                    --p;
+                }
                 is_closed = ((backslash_counts & 1u) == 0); // true: even, false: odd
             }
 
-- 
2.43.0


From 73532a3405606d4f1b74d96577348179804270f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:02 +0000
Subject: [PATCH 47/92] fix: from_yaml replaces the previous content, and only
 if the document is accepted

---
 src_yaml_interface/from_yaml.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src_yaml_interface/from_yaml.cc b/src_yaml_interface/from_yaml.cc
index 6f15fc3..ceadd06 100755
--- a/src_yaml_interface/from_yaml.cc
+++ b/src_yaml_interface/from_yaml.cc
@@ -117,8 +117,12 @@ namespace GC_namespace {
     try {
       // deserialize the loaded file contents.
       fkyaml::node root = fkyaml::node::deserialize(stream);
-      ok = YAML_to_GC( root, *this );
-      if ( ok ) this->collapse();
+      GenericContainer tmp;
+      ok = YAML_to_GC( root, tmp );
+      if ( ok ) {
+        tmp.collapse();
+        this->from_gc( tmp );
+      }
     }
     catch ( std::exception const & e ) {
       std::cerr << "GenericContainer::from_yaml: " << e.what() << '\n';
-- 
2.43.0


From 8b471992436f9ba1deabe7804e717b9071a9e351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 48/92] fix: from_yaml refuses documents that violate
 assertions of the YAML library instead of aborting or going on

---
 src_yaml_interface/from_yaml.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src_yaml_interface/from_yaml.cc b/src_yaml_interface/from_yaml.cc
index ceadd06..ca4ecc5 100755
--- a/src_yaml_interface/from_yaml.cc
+++ b/src_yaml_interface/from_yaml.cc
@@ -42,6 +42,12 @@
 #include <limits>
 #include <cstdlib>
 
+// malformed documents can violate the assertions of the YAML library:
+// report them as errors (caught in from_yaml) whatever the build type is
+#include <stdexcept>
+#define FK_YAML_ASSERT(x) \
+  ( (x) ? static_cast<void>(0) : throw std::runtime_error( "malformed YAML document" ) )
+
 //#include "yaml-cpp/yaml.h"
 #include "fkYAML/node.hpp"
 
-- 
2.43.0


From 52650ac3e1e0712370bfd68829c63355b0501a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:17 +0000
Subject: [PATCH 49/92] fix: from_yaml refuses content after the end of the
 root node

---
 .../fkYAML/detail/input/deserializer.hpp      | 81 ++++++++++---------
 1 file changed, 45 insertions(+), 36 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
index 2e9c586..ba0a68f 100644
--- a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
@@ -397,14 +397,14 @@ private:
         do {
             switch (token.type) {
             case lexical_token_t::EXPLICIT_KEY_PREFIX: {
-                const bool needs_to_move_back = indent == 0 || indent < m_context_stack.back().indent;
+                const bool needs_to_move_back = indent == 0 || indent < current_context().indent;
                 if (needs_to_move_back) {
                     pop_to_parent_node(line, indent, [indent](const parse_context& c) {
                         return c.state == context_state_t::BLOCK_MAPPING && indent == c.indent;
                     });
                 }
 
-                switch (m_context_stack.back().state) {
+                switch (current_context().state) {
                 case context_state_t::MAPPING_VALUE:
                 case context_state_t::BLOCK_MAPPING_EXPLICIT_KEY:
                 case context_state_t::BLOCK_MAPPING_EXPLICIT_VALUE:
@@ -453,7 +453,7 @@ private:
                 // heap-allocated node will be freed in handling the corresponding KEY_SEPARATOR event
                 m_context_stack.emplace_back(
                     line, indent, context_state_t::BLOCK_MAPPING_EXPLICIT_KEY, new basic_node_type());
-                mp_current_node = m_context_stack.back().p_node;
+                mp_current_node = current_context().p_node;
                 apply_directive_set(*mp_current_node);
                 indent = lexer.get_last_token_begin_pos();
                 line = lexer.get_lines_processed();
@@ -462,7 +462,7 @@ private:
             }
             case lexical_token_t::KEY_SEPARATOR: {
                 FK_YAML_ASSERT(!m_context_stack.empty());
-                if FK_YAML_UNLIKELY (m_context_stack.back().state == context_state_t::BLOCK_SEQUENCE_ENTRY) {
+                if FK_YAML_UNLIKELY (current_context().state == context_state_t::BLOCK_SEQUENCE_ENTRY) {
                     // empty mapping keys are not supported.
                     // ```yaml
                     // - : foo
@@ -492,7 +492,7 @@ private:
                 indent = lexer.get_last_token_begin_pos();
 
                 const bool is_implicit_same_line =
-                    (line == old_line) && (m_context_stack.empty() || old_indent > m_context_stack.back().indent);
+                    (line == old_line) && (m_context_stack.empty() || old_indent > current_context().indent);
                 if (is_implicit_same_line) {
                     // a key separator for an implicit key with its value on the same line.
                     continue;
@@ -524,7 +524,7 @@ private:
                         *mp_current_node = basic_node_type::sequence({basic_node_type()});
                         apply_directive_set(*mp_current_node);
                         apply_node_properties(*mp_current_node);
-                        auto& cur_context = m_context_stack.back();
+                        auto& cur_context = current_context();
                         cur_context.line = line;
                         cur_context.indent = indent;
                         cur_context.state = context_state_t::BLOCK_SEQUENCE;
@@ -570,8 +570,8 @@ private:
                         continue;
                     }
 
-                    if (indent <= m_context_stack.back().indent) {
-                        FK_YAML_ASSERT(m_context_stack.back().state == context_state_t::MAPPING_VALUE);
+                    if (indent <= current_context().indent) {
+                        FK_YAML_ASSERT(current_context().state == context_state_t::MAPPING_VALUE);
 
                         // Mapping values can be omitted and are considered to be null.
                         // ```yaml
@@ -592,13 +592,13 @@ private:
                 }
 
                 // handle explicit mapping key separators.
-                FK_YAML_ASSERT(m_context_stack.back().state == context_state_t::BLOCK_MAPPING_EXPLICIT_KEY);
+                FK_YAML_ASSERT(current_context().state == context_state_t::BLOCK_MAPPING_EXPLICIT_KEY);
 
-                basic_node_type key_node = std::move(*m_context_stack.back().p_node);
+                basic_node_type key_node = std::move(*current_context().p_node);
                 m_context_stack.pop_back();
-                m_context_stack.back().p_node->template get_value_ref<mapping_type&>().emplace(
+                current_context().p_node->template get_value_ref<mapping_type&>().emplace(
                     key_node, basic_node_type());
-                mp_current_node = &(m_context_stack.back().p_node->operator[](std::move(key_node)));
+                mp_current_node = &(current_context().p_node->operator[](std::move(key_node)));
                 m_context_stack.emplace_back(
                     old_line, old_indent, context_state_t::BLOCK_MAPPING_EXPLICIT_VALUE, mp_current_node);
 
@@ -609,7 +609,7 @@ private:
                     m_context_stack.emplace_back(line, indent, context_state_t::BLOCK_SEQUENCE, mp_current_node);
 
                     mp_current_node = &(mp_current_node->template get_value_ref<sequence_type&>().back());
-                    parse_context entry_context = m_context_stack.back();
+                    parse_context entry_context = current_context();
                     entry_context.state = context_state_t::BLOCK_SEQUENCE_ENTRY;
                     entry_context.p_node = mp_current_node;
                     m_context_stack.emplace_back(std::move(entry_context));
@@ -633,7 +633,7 @@ private:
                 continue;
             case lexical_token_t::SEQUENCE_BLOCK_PREFIX: {
                 FK_YAML_ASSERT(!m_context_stack.empty());
-                const uint32_t parent_indent = m_context_stack.back().indent;
+                const uint32_t parent_indent = current_context().indent;
                 if (indent == parent_indent) {
                     // If the previous block sequence entry is empty, just move to the parent context.
                     // ```yaml
@@ -653,7 +653,7 @@ private:
                     });
                 }
                 else /*parent_indent < indent*/ {
-                    if FK_YAML_UNLIKELY (m_context_stack.back().state == context_state_t::BLOCK_SEQUENCE) {
+                    if FK_YAML_UNLIKELY (current_context().state == context_state_t::BLOCK_SEQUENCE) {
                         // bad indentation like the following YAML:
                         // ```yaml
                         // - "foo"
@@ -680,7 +680,7 @@ private:
                 if (m_flow_context_depth == 0) {
                     lexer.set_context_state(true);
 
-                    if (indent <= m_context_stack.back().indent) {
+                    if (indent <= current_context().indent) {
                         pop_to_parent_node(line, indent, [indent](const parse_context& c) {
                             switch (c.state) {
                             case context_state_t::BLOCK_MAPPING:
@@ -698,7 +698,7 @@ private:
 
                 ++m_flow_context_depth;
 
-                switch (m_context_stack.back().state) {
+                switch (current_context().state) {
                 case context_state_t::BLOCK_SEQUENCE:
                 case context_state_t::FLOW_SEQUENCE:
                     mp_current_node->template get_value_ref<sequence_type&>().emplace_back(basic_node_type::sequence());
@@ -710,11 +710,11 @@ private:
                     // heap-allocated node will be freed in handling the corresponding SEQUENCE_FLOW_END event.
                     m_context_stack.emplace_back(
                         line, indent, context_state_t::FLOW_SEQUENCE_KEY, new basic_node_type(node_type::SEQUENCE));
-                    mp_current_node = m_context_stack.back().p_node;
+                    mp_current_node = current_context().p_node;
                     break;
                 default: {
                     *mp_current_node = basic_node_type::sequence();
-                    parse_context& last_context = m_context_stack.back();
+                    parse_context& last_context = current_context();
                     last_context.line = line;
                     last_context.indent = indent;
                     last_context.state = context_state_t::FLOW_SEQUENCE;
@@ -756,7 +756,7 @@ private:
                 }
 
                 // keep the last state for later processing.
-                parse_context& last_context = m_context_stack.back();
+                parse_context& last_context = current_context();
                 mp_current_node = last_context.p_node;
                 last_context.p_node = nullptr;
                 indent = last_context.indent;
@@ -768,7 +768,7 @@ private:
                 if (!m_context_stack.empty() && state == context_state_t::FLOW_SEQUENCE_KEY) {
                     basic_node_type key_node = std::move(*mp_current_node);
                     delete mp_current_node;
-                    mp_current_node = m_context_stack.back().p_node;
+                    mp_current_node = current_context().p_node;
                     m_flow_token_state = flow_token_state_t::NEEDS_VALUE_OR_SUFFIX;
 
                     add_new_key(std::move(key_node), line, indent);
@@ -788,7 +788,7 @@ private:
                 }
                 else {
                     if (!m_context_stack.empty()) {
-                        mp_current_node = m_context_stack.back().p_node;
+                        mp_current_node = current_context().p_node;
                     }
                     if (m_flow_context_depth > 0) {
                         m_flow_token_state = flow_token_state_t::NEEDS_SEPARATOR_OR_SUFFIX;
@@ -803,7 +803,7 @@ private:
                 if (m_flow_context_depth == 0) {
                     lexer.set_context_state(true);
 
-                    if (indent <= m_context_stack.back().indent) {
+                    if (indent <= current_context().indent) {
                         pop_to_parent_node(line, indent, [indent](const parse_context& c) {
                             switch (c.state) {
                             case context_state_t::BLOCK_MAPPING:
@@ -821,7 +821,7 @@ private:
 
                 ++m_flow_context_depth;
 
-                switch (m_context_stack.back().state) {
+                switch (current_context().state) {
                 case context_state_t::BLOCK_SEQUENCE:
                 case context_state_t::FLOW_SEQUENCE:
                     mp_current_node->template get_value_ref<sequence_type&>().emplace_back(basic_node_type::mapping());
@@ -833,11 +833,11 @@ private:
                     // heap-allocated node will be freed in handling the corresponding MAPPING_FLOW_END event.
                     m_context_stack.emplace_back(
                         line, indent, context_state_t::FLOW_MAPPING_KEY, new basic_node_type(node_type::MAPPING));
-                    mp_current_node = m_context_stack.back().p_node;
+                    mp_current_node = current_context().p_node;
                     break;
                 default: {
                     *mp_current_node = basic_node_type::mapping();
-                    parse_context& last_context = m_context_stack.back();
+                    parse_context& last_context = current_context();
                     last_context.line = line;
                     last_context.indent = indent;
                     last_context.state = context_state_t::FLOW_MAPPING;
@@ -882,7 +882,7 @@ private:
                 }
 
                 // keep the last state for later processing.
-                parse_context& last_context = m_context_stack.back();
+                parse_context& last_context = current_context();
                 mp_current_node = last_context.p_node;
                 last_context.p_node = nullptr;
                 indent = last_context.indent;
@@ -894,7 +894,7 @@ private:
                 if (!m_context_stack.empty() && state == context_state_t::FLOW_MAPPING_KEY) {
                     basic_node_type key_node = std::move(*mp_current_node);
                     delete mp_current_node;
-                    mp_current_node = m_context_stack.back().p_node;
+                    mp_current_node = current_context().p_node;
                     m_flow_token_state = flow_token_state_t::NEEDS_VALUE_OR_SUFFIX;
 
                     add_new_key(std::move(key_node), line, indent);
@@ -914,7 +914,7 @@ private:
                 }
                 else {
                     if (!m_context_stack.empty()) {
-                        mp_current_node = m_context_stack.back().p_node;
+                        mp_current_node = current_context().p_node;
                     }
                     if (m_flow_context_depth > 0) {
                         m_flow_token_state = flow_token_state_t::NEEDS_SEPARATOR_OR_SUFFIX;
@@ -1094,7 +1094,7 @@ private:
     /// @param indent The indentation width in the current line where the key is found.
     void add_new_key(basic_node_type&& key, const uint32_t line, const uint32_t indent) {
         if (m_flow_context_depth == 0) {
-            if FK_YAML_UNLIKELY (m_context_stack.back().indent < indent) {
+            if FK_YAML_UNLIKELY (current_context().indent < indent) {
                 // bad indentation like the following YAML:
                 // ```yaml
                 // foo: true
@@ -1126,7 +1126,7 @@ private:
         }
 
         mp_current_node = &(itr.first->second);
-        const parse_context& key_context = m_context_stack.back();
+        const parse_context& key_context = current_context();
         m_context_stack.emplace_back(
             key_context.line, key_context.indent, context_state_t::MAPPING_VALUE, mp_current_node);
     }
@@ -1157,9 +1157,9 @@ private:
             return;
         }
 
-        if FK_YAML_LIKELY (m_context_stack.back().state != context_state_t::BLOCK_MAPPING_EXPLICIT_KEY) {
+        if FK_YAML_LIKELY (current_context().state != context_state_t::BLOCK_MAPPING_EXPLICIT_KEY) {
             m_context_stack.pop_back();
-            mp_current_node = m_context_stack.back().p_node;
+            mp_current_node = current_context().p_node;
 
             if (m_flow_context_depth > 0) {
                 m_flow_token_state = flow_token_state_t::NEEDS_SEPARATOR_OR_SUFFIX;
@@ -1200,7 +1200,7 @@ private:
                 indent = lexer.get_last_token_begin_pos();
                 line = lexer.get_lines_processed();
 
-                if (m_context_stack.back().state != context_state_t::BLOCK_MAPPING_EXPLICIT_KEY) {
+                if (current_context().state != context_state_t::BLOCK_MAPPING_EXPLICIT_KEY) {
                     pop_to_parent_node(line, indent, [indent](const parse_context& c) {
                         return c.state == context_state_t::BLOCK_MAPPING_EXPLICIT_KEY && indent == c.indent;
                     });
@@ -1210,7 +1210,7 @@ private:
 
             if (mp_current_node->is_scalar()) {
                 if FK_YAML_LIKELY (!m_context_stack.empty()) {
-                    parse_context& cur_context = m_context_stack.back();
+                    parse_context& cur_context = current_context();
                     switch (cur_context.state) {
                     case context_state_t::BLOCK_MAPPING_EXPLICIT_KEY:
                     case context_state_t::BLOCK_MAPPING_EXPLICIT_VALUE:
@@ -1281,7 +1281,16 @@ private:
         for (uint32_t i = 0; i < pop_num; i++) {
             m_context_stack.pop_back();
         }
-        mp_current_node = m_context_stack.back().p_node;
+        mp_current_node = current_context().p_node;
+    }
+
+    /// @brief Get the innermost parse context.
+    /// @return The innermost parse context; an error is thrown if all contexts have already been closed.
+    parse_context& current_context() {
+        if FK_YAML_UNLIKELY (m_context_stack.empty()) {
+            throw parse_error("Content is found after the end of the root node.", 0, 0);
+        }
+        return m_context_stack.back();
     }
 
     /// @brief Set YAML directive properties to the given node.
-- 
2.43.0


From c5caddb23e7f4a53975bace13003657234aacbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:25 +0000
Subject: [PATCH 50/92] fix: from_yaml does not read past the end of an
 unfinished verbatim tag

---
 src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
index 97f7a2f..671247a 100644
--- a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
@@ -680,7 +680,9 @@ private:
         case '<':
             // Verbatim tags (!<TAG>)
             is_verbatim = true;
-            ++m_cur_itr;
+            if FK_YAML_UNLIKELY (++m_cur_itr == m_end_itr) {
+                emit_error("verbatim tag (!<TAG>) must be ended with \'>\'.");
+            }
             break;
         default:
             // Either local tags (!suffix) or named handles (!tag!suffix)
-- 
2.43.0


From 655ccde04603fdb56a6a4f72d2943c4271e5e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:16 +0000
Subject: [PATCH 51/92] fix: GC_delete releases the container and no longer
 leaves it selected

---
 src/GenericContainerInterface_C.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index bf24c5a..14f817b 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -242,7 +242,12 @@ GC_mem_ptr( char const id[] ) {
 
 int
 GC_delete( char const id[] ) {
-  gc_explorer.erase(id);
+  auto const pos{ gc_explorer.find(id) };
+  if ( pos != gc_explorer.end() ) {
+    if ( gc_active == pos->second ) gc_active = nullptr;
+    delete pos->second;
+    gc_explorer.erase(pos);
+  }
   return GENERIC_CONTAINER_OK;
 }
 
-- 
2.43.0


From 888715809a794abb8cdca1724ff218474fa57506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:17 +0000
Subject: [PATCH 52/92] fix: GC_get_next_key returns NULL after the last key
 and before GC_init_map_key

---
 src/GenericContainerInterface_C.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 14f817b..2c55c5e 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -59,8 +59,8 @@ namespace GC_namespace {
     GenericContainer         data;
     deque<GenericContainer*> head;
 
-    map_type         * ptr_map{nullptr};
-    map_type::iterator map_iterator;
+    vec_string_type keys;       // keys of the map visited with next_map_key
+    size_t          next_key{0};
 
   public:
 
@@ -82,7 +82,7 @@ namespace GC_namespace {
     int push_map_position( char const pos[] );
     int init_map_key();
 
-    string_view next_map_key();
+    char const * next_map_key();
 
     int reset();
 
@@ -169,16 +169,17 @@ namespace GC_namespace {
   GenericContainerExplorer::init_map_key() {
     int const ok{ check( GC_type::MAP ) };
     if ( ok == GENERIC_CONTAINER_OK ) {
-      ptr_map = &head.back()->get_map();
-      map_iterator = ptr_map->begin();
+      keys.clear();
+      next_key = 0;
+      for ( auto const & it : head.back()->get_map() ) keys.emplace_back( it.first );
     }
     return ok;
   }
 
-  string_view
+  char const *
   GenericContainerExplorer::next_map_key() {
-    if ( map_iterator != ptr_map->end() ) return map_iterator++->first;
-    return "";
+    if ( next_key < keys.size() ) return keys[next_key++].c_str();
+    return nullptr;
   }
 
   int
@@ -737,7 +738,7 @@ GC_init_map_key() {
 char const *
 GC_get_next_key( void ) {
   if ( gc_active == nullptr ) return nullptr;
-  return gc_active->next_map_key().data();
+  return gc_active->next_map_key();
 }
 
 } // close extern "C"
-- 
2.43.0


From 5c07cf4c16c6d184da13fd256512556dc4ff0d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:17 +0000
Subject: [PATCH 53/92] fix: GC_pop_head refuses to go above the first level

---
 src/GenericContainerInterface_C.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 2c55c5e..d425761 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -134,7 +134,7 @@ namespace GC_namespace {
 
   int
   GenericContainerExplorer::pop() {
-    if ( head.empty() ) return GENERIC_CONTAINER_NO_DATA;
+    if ( head.size() < 2 ) return GENERIC_CONTAINER_NO_DATA; // the first level is never removed
     head.pop_back();
     return GENERIC_CONTAINER_OK;
   }
-- 
2.43.0


From 551d4842465093830cec1fd32c1788855f7ef14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:18 +0000
Subject: [PATCH 54/92] fix: the C functions that set an empty vector or a map
 drop the previous elements

---
 src/GenericContainerInterface_C.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index d425761..bfbc90e 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -592,35 +592,35 @@ GC_get_complex_imag_at_coor( int const i, int const j ) {
 int
 GC_set_empty_vector_of_bool() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_bool() );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vec_bool() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_int() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_int() );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vec_int() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_real() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_real() );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vec_real() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_complex() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_complex() );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vec_complex() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_string() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_string() );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vec_string() );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -673,14 +673,14 @@ GC_set_vector_of_string( char const ** a, int const nelem ) {
 int
 GC_set_vector( int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vector(nelem) );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vector(nelem) );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vector() );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vector() );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -713,7 +713,7 @@ GC_push_vector_position( int const pos ) {
 int
 GC_set_map() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_map() );
+  GC_TRY( gc_active->top()->clear(); gc_active->top()->set_map() );
   return GENERIC_CONTAINER_OK;
 }
 
-- 
2.43.0


From f71df27f0cf698905e4edfecac262a2c3bd80df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:19 +0000
Subject: [PATCH 55/92] fix: the C functions that store vectors accept an empty
 array and refuse a negative length

---
 src/GenericContainerInterface_C.cc | 33 +++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index bfbc90e..147c3ab 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -191,8 +191,8 @@ namespace GC_namespace {
 
 }
 
-#define GC_TRY(A)                               \
-try { A; }                                      \
+#define GC_TRY(...)                             \
+try { __VA_ARGS__; }                            \
 catch(std::runtime_error & err) {               \
   std::cerr << "Error: " << err.what() << "\n"; \
   return GENERIC_CONTAINER_NO_DATA;             \
@@ -629,8 +629,12 @@ GC_set_empty_vector_of_string() {
 int
 GC_set_vector_of_bool( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_bool_type & v{ gc_active->top()->set_vec_bool( nelem ) };
-  for ( unsigned i{0}; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i] != 0;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_bool_type v( static_cast<size_t>(nelem) );
+    for ( int i{0}; i < nelem; ++i ) v[i] = a[i] != 0;
+    gc_active->top()->set_vec_bool( v )
+  );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -639,32 +643,36 @@ GC_set_vector_of_bool( int const * a, int const nelem ) {
 int
 GC_set_vector_of_int( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_int_type & v{ gc_active->top()->set_vec_int( nelem ) };
-  std::copy_n( a, nelem, v.begin() );
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY( gc_active->top()->set_vec_int( vec_int_type( a, a+nelem ) ) );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_real( double const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_real_type & v{ gc_active->top()->set_vec_real(nelem) };
-  std::copy_n( a, nelem, v.begin() );
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY( gc_active->top()->set_vec_real( vec_real_type( a, a+nelem ) ) );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_complex( double const * re, double const * im, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_complex_type & v{gc_active->top()->set_vec_complex(nelem)};
-  for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = complex_type(re[i],im[i]);
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_complex_type v( static_cast<size_t>(nelem) );
+    for ( int i{0}; i < nelem; ++i ) v[i] = complex_type(re[i],im[i]);
+    gc_active->top()->set_vec_complex( v )
+  );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_string( char const ** a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_string_type & v{ gc_active->top()->set_vec_string(nelem) };
-  for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i];
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY( gc_active->top()->set_vec_string( vec_string_type( a, a+nelem ) ) );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -673,6 +681,7 @@ GC_set_vector_of_string( char const ** a, int const nelem ) {
 int
 GC_set_vector( int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
   GC_TRY( gc_active->top()->clear(); gc_active->top()->set_vector(nelem) );
   return GENERIC_CONTAINER_OK;
 }
-- 
2.43.0


From 83b43ea8e72f050c9bcbdfb65c010baf65071887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:20 +0000
Subject: [PATCH 56/92] fix: GC_push_vector_position refuses a position out of
 range, as documented

---
 src/GenericContainerInterface_C.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 147c3ab..305e471 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -149,6 +149,7 @@ namespace GC_namespace {
   GenericContainerExplorer::push_vector_position( unsigned const pos ) {
     int const ok{ check( GC_type::VECTOR ) };
     if ( ok == GENERIC_CONTAINER_OK  ) {
+      if ( pos >= head.back()->get_num_elements() ) return GENERIC_CONTAINER_NO_DATA;
       GenericContainer * gc = &((*head.back())[pos]);
       head.push_back( gc );
     }
-- 
2.43.0


From 8dbf618f545e1c1e44e04087b349a4bed85edf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:21 +0000
Subject: [PATCH 57/92] fix: reading through the C interface neither throws nor
 changes the container

---
 src/GenericContainerInterface_C.cc | 137 ++++++++++++++++-------------
 1 file changed, 77 insertions(+), 60 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 305e471..d745cc5 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -201,6 +201,16 @@ catch(std::runtime_error & err) {               \
   return GENERIC_CONTAINER_NO_DATA;             \
 }
 
+// the functions that read report an error with the neutral value V: no exception reaches the C code
+#define GC_TRY_VALUE(V,A)                       \
+try { return A; }                               \
+catch(std::exception & err) {                   \
+  std::cerr << "Error: " << err.what() << "\n"; \
+  return V;                                     \
+} catch (...) {                                 \
+  return V;                                     \
+}
+
 using namespace ::GC_namespace;
 
 typedef std::map<string_type,GenericContainerExplorer*>  MAP;
@@ -209,6 +219,34 @@ typedef std::pair<string_type,GenericContainerExplorer*> MAP_DATA;
 static MAP                        gc_explorer;
 static GenericContainerExplorer * gc_active = nullptr;
 
+// current element, for reading only (reading must not change its type or size)
+static
+GenericContainer const &
+gc_top() { return *static_cast<GenericContainerExplorer const*>(gc_active)->top(); }
+
+// element `i` of a vector of containers, or `nullptr` if the current element is something else
+static
+GenericContainer const *
+gc_item( unsigned const i ) {
+  GenericContainer const & gc{ gc_top() };
+  return gc.get_type() == GC_type::VECTOR ? &gc( i, "GC_get_*_at_pos" ) : nullptr;
+}
+
+// element (i,j) of a matrix; a vector is read as one column
+static
+complex_type
+gc_number( int const i, int const j ) {
+  GenericContainer const & gc{ gc_top() };
+  bool     const is_mat{ gc.get_type() >= GC_type::MAT_INTEGER && gc.get_type() <= GC_type::MAT_COMPLEX };
+  unsigned const nr{ is_mat ? gc.num_rows() : gc.get_num_elements() };
+  unsigned const nc{ is_mat ? gc.num_cols() : 1 };
+  GC_ASSERT(
+    i >= 0 && j >= 0 && static_cast<unsigned>(i) < nr && static_cast<unsigned>(j) < nc,
+    "GC_get_*_at_coor( " << i << ", " << j << " ) out of range"
+  )
+  return gc.get_complex_number_at( static_cast<unsigned>(i) + static_cast<unsigned>(j)*nr );
+}
+
 extern "C" {
 
 int
@@ -348,14 +386,14 @@ GC_dump() {
 int
 GC_get_type() {
   if ( gc_active == nullptr ) return -1;
-  return static_cast<int>(gc_active->top()->get_type());
+  GC_TRY_VALUE( -1, static_cast<int>(gc_top().get_type()) );
 }
 
 char const *
 GC_get_type_name() {
   static char const * empty{""};
   if ( gc_active == nullptr ) return empty;
-  return gc_active->top()->get_type_name().data();
+  GC_TRY_VALUE( empty, gc_top().get_type_name().data() );
 }
 
 //..............................................................................
@@ -407,54 +445,48 @@ GC_set_string( char const a[] ) {
 int
 GC_get_bool() {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_bool() ? 1 : 0;
+  GC_TRY_VALUE( 0, gc_top().get_bool() ? 1 : 0 );
 }
 
 int
 GC_get_int() {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_int();
+  GC_TRY_VALUE( 0, gc_top().get_int() );
 }
 
 long
 GC_get_long() {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_long();
+  GC_TRY_VALUE( 0, gc_top().get_long() );
 }
 
 double
 GC_get_real( ) {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_real();
+  GC_TRY_VALUE( 0, gc_top().get_real() );
 }
 
 c_complex_type
 GC_get_complex( ) {
-  c_complex_type tmp{ 0, 0 };
-  if ( gc_active != nullptr ) {
-    complex_type const t = gc_active->top()->get_complex();
-    tmp.real = t.real();
-    tmp.imag = t.imag();
-  }
-  return tmp;
+  return { GC_get_complex_re(), GC_get_complex_im() };
 }
 
 double
 GC_get_complex_re( ) {
-  if ( gc_active != nullptr ) return gc_active->top()->get_complex().real();
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_VALUE( 0, gc_top().get_complex().real() );
 }
 
 double
 GC_get_complex_im( ) {
-  if ( gc_active != nullptr ) return gc_active->top()->get_complex().imag();
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_VALUE( 0, gc_top().get_complex().imag() );
 }
 
 char const *
 GC_get_string( ) {
   if ( gc_active == nullptr ) return nullptr;
-  return gc_active->top()->get_string().data();
+  GC_TRY_VALUE( nullptr, gc_top().get_string().data() );
 }
 
 //..............................................................................
@@ -505,87 +537,72 @@ GC_push_string( char const a[] ) {
 
 int
 GC_get_bool_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return 0;
-  bool const val{ gc_active->top()->get_bool_at(pos) };
-  return val ? 1 : 0;
+  if ( gc_active == nullptr || pos < 0 ) return 0;
+  unsigned const i{ static_cast<unsigned>(pos) };
+  GC_TRY_VALUE( 0, ( gc_item(i) ? gc_item(i)->get_bool() : gc_top().get_bool_at( i, "GC_get_bool_at_pos" ) ) ? 1 : 0 );
 }
 
 int
 GC_get_int_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_int_at( static_cast<unsigned>(pos) );
+  if ( gc_active == nullptr || pos < 0 ) return 0;
+  unsigned const i{ static_cast<unsigned>(pos) };
+  if ( gc_top().get_type() == GC_type::VEC_BOOL ) return GC_get_bool_at_pos( pos );
+  GC_TRY_VALUE( 0, gc_item(i) ? gc_item(i)->get_int() : gc_top().get_int_at( i, "GC_get_int_at_pos" ) );
 }
 
 double
 GC_get_real_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_number_at( static_cast<unsigned>(pos) );
+  if ( gc_active == nullptr || pos < 0 ) return 0;
+  GC_TRY_VALUE( 0, gc_top().get_number_at( static_cast<unsigned>(pos) ) );
 }
 
 c_complex_type
 GC_get_complex_at_pos( int const pos ) {
-  c_complex_type tmp;
-  tmp.real = tmp.imag = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), tmp.real, tmp.imag );
-  return tmp;
+  return { GC_get_complex_real_at_pos( pos ), GC_get_complex_imag_at_pos( pos ) };
 }
 
 double
 GC_get_complex_real_at_pos( int const pos ) {
-  real_type re = 0, im = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
-  return re;
+  if ( gc_active == nullptr || pos < 0 ) return 0;
+  GC_TRY_VALUE( 0, gc_top().get_complex_number_at( static_cast<unsigned>(pos) ).real() );
 }
 
 double
 GC_get_complex_imag_at_pos( int const pos ) {
-  real_type re = 0, im = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
-  return im;
+  if ( gc_active == nullptr || pos < 0 ) return 0;
+  GC_TRY_VALUE( 0, gc_top().get_complex_number_at( static_cast<unsigned>(pos) ).imag() );
 }
 
 char const *
 GC_get_string_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return nullptr;
-  return gc_active->top()->get_string_at(pos).data();
+  if ( gc_active == nullptr || pos < 0 ) return nullptr;
+  unsigned const i{ static_cast<unsigned>(pos) };
+  GC_TRY_VALUE( nullptr, gc_item(i) ? gc_item(i)->get_string().data() : gc_top().get_string_at( i, "GC_get_string_at_pos" ).data() );
 }
 
 //..............................................................................
 
 double
 GC_get_real_at_coor( int const i, int const j ) {
-  if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_real_at( static_cast<unsigned>(i), static_cast<unsigned>(j) );
+  if ( gc_active == nullptr || gc_top().get_type() == GC_type::MAT_COMPLEX || gc_top().get_type() == GC_type::VEC_COMPLEX ) return 0;
+  GC_TRY_VALUE( 0, gc_number( i, j ).real() );
 }
 
 c_complex_type
 GC_get_complex_at_coor( int const i, int const j ) {
-  c_complex_type tmp;
-  tmp.real = tmp.imag = 0;
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    tmp.real = res.real();
-    tmp.imag = res.imag();
-  }
-  return tmp;
+  return { GC_get_complex_real_at_coor( i, j ), GC_get_complex_imag_at_coor( i, j ) };
 }
 
 double
 GC_get_complex_real_at_coor( int const i, int const j ) {
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    return res.real();
-  }
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_VALUE( 0, gc_number( i, j ).real() );
 }
 
 double
 GC_get_complex_imag_at_coor( int const i, int const j ) {
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    return res.imag();
-  }
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_VALUE( 0, gc_number( i, j ).imag() );
 }
 
 //..............................................................................
@@ -697,19 +714,19 @@ GC_set_empty_vector() {
 int
 GC_get_vector_size() {
   if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->get_num_elements());
+  GC_TRY_VALUE( 0, static_cast<int>(gc_top().get_num_elements()) );
 }
 
 int
 GC_get_matrix_num_rows() {
   if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->num_rows());
+  GC_TRY_VALUE( 0, static_cast<int>(gc_top().num_rows()) );
 }
 
 int
 GC_get_matrix_num_cols() {
   if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->num_cols());
+  GC_TRY_VALUE( 0, static_cast<int>(gc_top().num_cols()) );
 }
 
 int
-- 
2.43.0


From 30a774562fcfe717783de33b1b3b598d5aa9e833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:33 +0000
Subject: [PATCH 58/92] fix: the functions of the Lua interface leave the Lua
 stack as they found it

---
 .../GenericContainerInterface_lua.cc           | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 4968a88..fb41264 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -78,6 +78,17 @@ namespace GC_namespace {
   using std::floor;
   using std::string;
 
+  // on exit (also with an exception) the Lua stack is as it was found
+  class LuaStackGuard {
+    lua_State * L;
+    int const   top;
+  public:
+    explicit LuaStackGuard( lua_State * _L ) : L(_L), top(lua_gettop(_L)) {}
+    ~LuaStackGuard() { lua_settop( L, top ); }
+    LuaStackGuard( LuaStackGuard const & ) = delete;
+    LuaStackGuard & operator = ( LuaStackGuard const & ) = delete;
+  };
+
   static
   inline
   bool
@@ -210,7 +221,6 @@ namespace GC_namespace {
       case LUA_TTABLE:
         lua_table_to_GC( L, gc );
         //global_to_GC( gc );
-        lua_settop(L, 0);
         break;
     }
   }
@@ -261,7 +271,6 @@ namespace GC_namespace {
           lua_rawseti( L, -2, int(i+1) );
         }
       }
-      lua_pushnil(L);
       break;
     case GC_type::VEC_INTEGER:
       { vec_int_type const & vi = gc.get_vec_int();
@@ -368,6 +377,7 @@ namespace GC_namespace {
       "LuaInterpreter::do_file('" << filename <<
       "')\nlua_State invalid!"
     )
+    LuaStackGuard guard{ L };
     if ( luaL_loadfile(L, filename) || lua_pcall(L, 0, 0, 0)  ) {
       GC_ASSERT(
         lua_isnil(L,-1),
@@ -382,6 +392,7 @@ namespace GC_namespace {
   void
   LuaInterpreter::execute( char const cmd[] ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
+    LuaStackGuard guard{ L };
     GC_ASSERT(
       L != nullptr &&
       !luaL_loadbuffer(L, cmd, strlen(cmd), "line") &&
@@ -397,6 +408,7 @@ namespace GC_namespace {
   LuaInterpreter::call( GenericContainer const & fun_io, GenericContainer & res ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
 
+    LuaStackGuard guard{ L };
     // args must be of type MAP
     string_view            fname = fun_io("function").get_string();
     GenericContainer const & args = fun_io("args");
@@ -429,6 +441,7 @@ namespace GC_namespace {
       L != nullptr, "LuaInterpreter::global_to_GC(...) lua_State invalid!"
     )
 
+    LuaStackGuard guard{ L };
     lua_getglobal( L, global_var );
     GC_ASSERT(
       !lua_isnil(L,-1),
@@ -454,7 +467,6 @@ namespace GC_namespace {
     case LUA_TTABLE:
       lua_table_to_GC( L, gc );
       //global_to_GC( gc );
-      lua_settop(L, 0);
       break;
     default:
       GC_DO_ERROR(
-- 
2.43.0


From ce87a478fa26e6d9b7f4ee4d69ab9d71ceeaaf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:34 +0000
Subject: [PATCH 59/92] fix: the Lua interface keeps zero bytes of strings and
 keys

---
 .../GenericContainerInterface_lua.cc          | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index fb41264..2f9e1b1 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -114,6 +114,15 @@ namespace GC_namespace {
   void
   lua_table_to_GC( lua_State * L, GenericContainer & gc );
 
+  // the string at position `pos` of the stack, which may contain zero bytes
+  static
+  string
+  lua_to_string( lua_State * L, int pos ) {
+    size_t       len{0};
+    char const * str{ lua_tolstring( L, pos, &len ) };
+    return string( str, len );
+  }
+
   static
   void
   push_vec_element( lua_State * L, GenericContainer & gc ) {
@@ -143,7 +152,7 @@ namespace GC_namespace {
       }
       break;
     case LUA_TSTRING:
-      gc.get_string_at(idx) = lua_tostring(L, -1);
+      gc.get_string_at(idx) = lua_to_string(L, -1);
       break;
     case LUA_TTABLE:
       lua_table_to_GC( L, gc[idx] );
@@ -157,7 +166,7 @@ namespace GC_namespace {
   void
   push_hash_element( lua_State * L, GenericContainer & gc ) {
     // assegna il valore
-    string key  = lua_tostring(L, -2);
+    string key  = lua_to_string(L, -2);
     int    type = lua_type(L, -1);
     switch( type ) {
       case LUA_TBOOLEAN:
@@ -171,7 +180,7 @@ namespace GC_namespace {
         }
         break;
       case LUA_TSTRING:
-        gc[key].set_string(lua_tostring(L, -1));
+        gc[key].set_string(lua_to_string(L, -1));
         break;
       case LUA_TTABLE:
         lua_table_to_GC( L, gc[key] );
@@ -216,7 +225,7 @@ namespace GC_namespace {
         }
         break;
       case LUA_TSTRING:
-        gc.set_string(lua_tostring(L, -1));
+        gc.set_string(lua_to_string(L, -1));
         break;
       case LUA_TTABLE:
         lua_table_to_GC( L, gc );
@@ -258,7 +267,7 @@ namespace GC_namespace {
       lua_pushnumber( L, gc.get_real() );
       break;
     case GC_type::STRING:
-      lua_pushstring( L, gc.get_string().data() );
+      lua_pushlstring( L, gc.get_string().data(), gc.get_string().size() );
       break;
     case GC_type::VEC_POINTER:
       lua_pushnil(L);
@@ -303,7 +312,7 @@ namespace GC_namespace {
       { vec_string_type const & vs = gc.get_vec_string();
         lua_createtable( L, int(vs.size()), 0);
         for ( unsigned i = 0; i < vs.size(); ++i ) {
-          lua_pushstring( L, vs[i].c_str() );
+          lua_pushlstring( L, vs[i].data(), vs[i].size() );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -321,7 +330,7 @@ namespace GC_namespace {
       { map_type const & m = gc.get_map();
         lua_createtable(L, int(m.size()), 0);
         for ( map_type::const_iterator it = m.begin(); it != m.end(); ++it ) {
-          lua_pushstring(L, it->first.c_str());
+          lua_pushlstring( L, it->first.data(), it->first.size() );
           GC_to_lua( L, it->second );
           lua_settable( L, -3 );
         }
@@ -462,7 +471,7 @@ namespace GC_namespace {
       }
       break;
     case LUA_TSTRING:
-      gc.set_string(lua_tostring(L, -1));
+      gc.set_string(lua_to_string(L, -1));
       break;
     case LUA_TTABLE:
       lua_table_to_GC( L, gc );
-- 
2.43.0


From db6e395dc37b43351b54c6c6498bfb382189676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:35 +0000
Subject: [PATCH 60/92] fix: the Lua interface exchanges 64-bit integers
 without rounding them

---
 .../GenericContainerInterface_lua.cc          | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 2f9e1b1..a779762 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -99,7 +99,11 @@ namespace GC_namespace {
   inline
   bool
   isInteger64( real_type x )
-  { return isZero( x-static_cast<int64_t>(floor(x)) ); }
+  {
+    // -2^63 <= x < 2^63: out of this range (or NaN) the conversion is undefined
+    return x >= -9223372036854775808.0 && x < 9223372036854775808.0 &&
+           isZero( x-static_cast<int64_t>(floor(x)) );
+  }
 
   /*
   //   _                _           ____  ____
@@ -144,6 +148,8 @@ namespace GC_namespace {
         if ( gc.get_type() == GC_type::VEC_REAL ||
              gc.get_type() == GC_type::MAT_REAL ) {
           gc.get_real_at(idx) = val;
+        } else if ( lua_isinteger(L, -1) ) {
+          gc.get_long_at(idx) = long_type(lua_tointeger(L, -1));
         } else if ( isInteger64(val) ) {
           gc.get_long_at(idx) = long_type(val);
         } else {
@@ -175,8 +181,9 @@ namespace GC_namespace {
       case LUA_TNUMBER:
         {
           real_type val = lua_tonumber(L, -1);
-          if ( isInteger64(val) ) gc[key].set_long(long_type(val));
-          else                    gc[key].set_real(val);
+          if      ( lua_isinteger(L, -1) ) gc[key].set_long(long_type(lua_tointeger(L, -1)));
+          else if ( isInteger64(val)     ) gc[key].set_long(long_type(val));
+          else                             gc[key].set_real(val);
         }
         break;
       case LUA_TSTRING:
@@ -220,8 +227,9 @@ namespace GC_namespace {
       case LUA_TNUMBER:
         {
         real_type val = lua_tonumber(L, -1);
-        if ( isInteger64(val) ) gc.set_long(long_type(val));
-        else                    gc.set_real(val);
+        if      ( lua_isinteger(L, -1) ) gc.set_long(long_type(lua_tointeger(L, -1)));
+        else if ( isInteger64(val)     ) gc.set_long(long_type(val));
+        else                             gc.set_real(val);
         }
         break;
       case LUA_TSTRING:
@@ -261,7 +269,7 @@ namespace GC_namespace {
       lua_pushnumber( L, gc.get_int() );
       break;
     case GC_type::LONG:
-      lua_pushnumber( L, lua_Number(gc.get_long()) );
+      lua_pushinteger( L, lua_Integer(gc.get_long()) );
       break;
     case GC_type::REAL:
       lua_pushnumber( L, gc.get_real() );
@@ -294,7 +302,7 @@ namespace GC_namespace {
       { vec_long_type const & vi = gc.get_vec_long();
         lua_createtable(L, int(vi.size()), 0);
         for ( unsigned i = 0; i < vi.size(); ++i ) {
-          lua_pushnumber( L, lua_Number(vi[i]) );
+          lua_pushinteger( L, lua_Integer(vi[i]) );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -466,8 +474,9 @@ namespace GC_namespace {
     case LUA_TNUMBER:
       {
         real_type val = lua_tonumber(L, -1);
-        if ( isInteger64(val) ) gc.set_long(long_type(val));
-        else                    gc.set_real(val);
+        if      ( lua_isinteger(L, -1) ) gc.set_long(long_type(lua_tointeger(L, -1)));
+        else if ( isInteger64(val)     ) gc.set_long(long_type(val));
+        else                             gc.set_real(val);
       }
       break;
     case LUA_TSTRING:
-- 
2.43.0


From 64053043d674fe908e1f630f135bd4d0ce3a9357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:35 +0000
Subject: [PATCH 61/92] fix: Lua arrays that mix booleans or tables with other
 values are converted element by element

---
 src_lua_interface/GenericContainerInterface_lua.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index a779762..69e9017 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -136,7 +136,10 @@ namespace GC_namespace {
     lua_Integer type = lua_type(L, -1);
     switch( type ) {
     case LUA_TBOOLEAN:
-      {
+      if ( gc.get_type() != GC_type::NOTYPE && gc.get_type() != GC_type::VEC_BOOL ) {
+        if ( gc.get_type() != GC_type::VECTOR ) gc.promote_to_vector();
+        gc[idx].set_bool( lua_toboolean(L, -1) ? true : false );
+      } else {
         gc.get_bool_at(idx);
         vec_bool_type & bv = gc.get_vec_bool();
         bv[idx] = lua_toboolean(L, -1) ? true : false;
@@ -145,6 +148,7 @@ namespace GC_namespace {
     case LUA_TNUMBER:
       {
         real_type val = lua_tonumber(L, -1);
+        if ( gc.get_type() == GC_type::VEC_BOOL ) gc.promote_to_vector();
         if ( gc.get_type() == GC_type::VEC_REAL ||
              gc.get_type() == GC_type::MAT_REAL ) {
           gc.get_real_at(idx) = val;
@@ -161,6 +165,7 @@ namespace GC_namespace {
       gc.get_string_at(idx) = lua_to_string(L, -1);
       break;
     case LUA_TTABLE:
+      if ( gc.get_type() != GC_type::NOTYPE && gc.get_type() != GC_type::VECTOR ) gc.promote_to_vector();
       lua_table_to_GC( L, gc[idx] );
       break;
     }
-- 
2.43.0


From 6070d547aa26744a4caa7f7d78d74e83369d3a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:36 +0000
Subject: [PATCH 62/92] fix: Lua tables whose keys are neither all positions
 nor all strings are refused

---
 src_lua_interface/GenericContainerInterface_lua.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 69e9017..b32a16e 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -132,6 +132,10 @@ namespace GC_namespace {
   push_vec_element( lua_State * L, GenericContainer & gc ) {
     // assegna il valore
     // index start from 1 in LUA
+    GC_ASSERT(
+      lua_isinteger(L, -2) && lua_tointeger(L, -2) >= 1 && gc.get_type() != GC_type::MAP,
+      "Lua table with a key that is neither a string nor a position, or with both"
+    )
     unsigned    idx  = unsigned(lua_tointeger(L, -2)-1);
     lua_Integer type = lua_type(L, -1);
     switch( type ) {
@@ -177,6 +181,10 @@ namespace GC_namespace {
   void
   push_hash_element( lua_State * L, GenericContainer & gc ) {
     // assegna il valore
+    GC_ASSERT(
+      gc.get_type() == GC_type::NOTYPE || gc.get_type() == GC_type::MAP,
+      "Lua table with both positions and strings as keys"
+    )
     string key  = lua_to_string(L, -2);
     int    type = lua_type(L, -1);
     switch( type ) {
-- 
2.43.0


From 4f529d9972f048bd7c945fc6ffa2fd51fe852b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:36 +0000
Subject: [PATCH 63/92] fix: nested Lua tables and containers do not overflow
 the Lua stack

---
 src_lua_interface/GenericContainerInterface_lua.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index b32a16e..6af1128 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -78,6 +78,9 @@ namespace GC_namespace {
   using std::floor;
   using std::string;
 
+  // limit on the positions of the Lua stack used by nested tables
+  static constexpr int LUA_NESTING_MAX{ 400 };
+
   // on exit (also with an exception) the Lua stack is as it was found
   class LuaStackGuard {
     lua_State * L;
@@ -213,6 +216,11 @@ namespace GC_namespace {
   static
   void
   lua_table_to_GC( lua_State * L, GenericContainer & gc ) {
+    // each level uses two positions of the stack; a table that contains itself never ends
+    GC_ASSERT(
+      lua_gettop(L) < LUA_NESTING_MAX && lua_checkstack(L,4),
+      "Lua table nested too deeply, or that contains itself"
+    )
     // ---
     lua_pushnil(L); // first key
     // ---
@@ -268,6 +276,7 @@ namespace GC_namespace {
   void
   GC_to_lua( lua_State * L, GenericContainer const & gc ) {
     // inizializzazione
+    GC_ASSERT( lua_checkstack(L,4), "container nested too deeply for the Lua stack" )
     switch ( gc.get_type() ) {
     case GC_type::NOTYPE:
       lua_pushnil(L);
@@ -518,6 +527,7 @@ namespace GC_namespace {
     char             const * global_var
   ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
+    LuaStackGuard guard{ L };
     GC_to_lua( L, gc );
     lua_setglobal( L, global_var );
   }
-- 
2.43.0


From e9337daf25fa14898dc5a2e268675b73894a5104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:41 +0000
Subject: [PATCH 64/92] fix: dump restores the format of the stream after
 printing pointers

---
 src/GenericContainer.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 2724e9a..d5fdd28 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3458,6 +3458,15 @@ namespace GC_namespace {
     return iv->second;
   }
 
+  // print a pointer without changing the format of the stream
+  static
+  void
+  dump_pointer( ostream_type & stream, void const * p ) {
+    std::ios_base::fmtflags const flags{ stream.flags() };
+    stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(p) << '\n';
+    stream.flags( flags );
+  }
+
   /*
   //              _       _
   //   _ __  _ __(_)_ __ | |_
@@ -3479,7 +3488,8 @@ namespace GC_namespace {
       stream << prefix << "null\n";
       break;
     case GC_type::POINTER:
-      stream << prefix << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+      stream << prefix;
+      dump_pointer( stream, m_data.p );
       break;
     case GC_type::BOOL:
       stream << prefix << (m_data.b?"true":"false") << '\n';
@@ -3501,9 +3511,10 @@ namespace GC_namespace {
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const & v{*m_data.v_p};
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
-          stream << prefix << "vec_pointer(" << i << "): "
-                 << std::hex << std::showbase << reinterpret_cast<uintptr_t>(v[i]) << '\n';
+        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i ) {
+          stream << prefix << "vec_pointer(" << i << "): ";
+          dump_pointer( stream, v[i] );
+        }
       }
       break;
     case GC_type::VEC_BOOL:
-- 
2.43.0


From 44749cde84b6760a4f0147513eed7ce9e5eda80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:41 +0000
Subject: [PATCH 65/92] fix: dump uses the given indentation at every level

---
 src/GenericContainer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index d5fdd28..7b999d5 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3571,7 +3571,7 @@ namespace GC_namespace {
             vi.dump(stream,"");
           } else {
             stream << prefix << i << ":\n";
-            vi.dump(stream,prefix2);
+            vi.dump(stream,prefix2,indent);
           }
         }
       }
@@ -3602,7 +3602,7 @@ namespace GC_namespace {
                 stream << ':';
               }
               stream << '\n';
-              snd.dump(stream,prefix2);
+              snd.dump(stream,prefix2,indent);
             }
           } else {
             string_type header = pcreExecRet == 3 ? matches[3] : fst;
@@ -3611,7 +3611,7 @@ namespace GC_namespace {
               snd.dump(stream,"");
             } else {
               stream << prefix << header << ":\n";
-              snd.dump(stream,prefix2);
+              snd.dump(stream,prefix2,indent);
             }
           }
         }
-- 
2.43.0


From 7edcd5ba2496eecfa46fb3c53e20c656f7241972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:41 +0000
Subject: [PATCH 66/92] fix: all the columns of a complex matrix are printed in
 the same form

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 7b999d5..0befd19 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -253,7 +253,7 @@ namespace GC_namespace {
   operator << ( ostream_type & s, mat_complex_type const & m ) {
     if ( m.num_rows() > 0 && m.num_cols() ) {
       for ( unsigned i{0}; i < m.num_rows(); ++i ) {
-        s << std::setw(8) << m(i,0);
+        s << std::setw(12) << to_string(m(i,0));
         for ( unsigned j{1}; j < m.num_cols(); ++j )
           s << " " << std::setw(12) << to_string(m(i,j));
         s << '\n';
-- 
2.43.0


From 5f6e911b66be628e6971c1440c0513f530e18684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:41 +0000
Subject: [PATCH 67/92] fix: info prints strings that contain a zero byte

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 0befd19..574a918 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3245,7 +3245,7 @@ namespace GC_namespace {
       stream << "Complex Floating Point: " << to_string(*m_data.c) << '\n';
       break;
     case GC_type::STRING:
-      stream << "String: " << m_data.s->c_str() << '\n';
+      stream << "String: " << *m_data.s << '\n';
       break;
     case GC_type::VEC_POINTER:
       stream << "Vector of generic pointer of size " << m_data.v_p->size() << '\n';
-- 
2.43.0


From 0a91401e1683ea52ce356ca0d3c2054fcc434fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:01 +0000
Subject: [PATCH 68/92] fix: only the lines of a table that begin with a
 comment char are skipped

---
 src/GenericContainerSupport.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index 9b51fdc..ab53f45 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -83,6 +83,13 @@ namespace GC_namespace {
   //  |___/_/  \___/   \__,_|\__|_|_|___/
   */
 
+  // a comment is a line beginning with one of the comment chars
+  static
+  bool
+  is_comment( string_type const & line, string_view const commentchars ) {
+    return !line.empty() && commentchars.find( line[0] ) != string_view::npos;
+  }
+
   static
   unsigned
   get_line_and_skip_comments(
@@ -95,7 +102,7 @@ namespace GC_namespace {
       if ( stream.fail() ) return 0;
       getline( stream, line );
       ++nl;
-    } while ( line.find_first_of(commentchars) != string_type::npos ); // ????????????
+    } while ( is_comment( line, commentchars ) );
     return nl;
   }
 
@@ -113,7 +120,7 @@ namespace GC_namespace {
       if ( stream.fail() ) return 0;
       getline( stream, line );
       comment = line.empty() ||
-                line.find_first_of(commentchars) != string_type::npos;
+                is_comment( line, commentchars );
       if ( ptr_pars != nullptr && comment && line.length() > 2 && line[1] == '!' ) {
         vec_string_type a_eq_b;
         tokenizeString( line.substr(2), a_eq_b, "=" );
-- 
2.43.0


From fbe6bb754d346377a19b27dc8f812a9556fb4d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:01 +0000
Subject: [PATCH 69/92] fix: reading a table replaces a previously read one

---
 src/GenericContainerSupport.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index ab53f45..3bdcf19 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -182,6 +182,7 @@ namespace GC_namespace {
     //read a line
     string_type line;
 
+    this->clear();
     this->set_map();
     GenericContainer & tmp = (*this)["headers"];
     vec_string_type & headers = tmp.set_vec_string();
@@ -229,6 +230,7 @@ namespace GC_namespace {
     //read a line
     string_type line;
 
+    this->clear();
     this->set_map();
     GenericContainer & tmp = (*this)["headers"];
     vec_string_type & headers = tmp.set_vec_string();
-- 
2.43.0


From 1ec4d784927af89aceb19e67e551beea53ac7481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:41 +0000
Subject: [PATCH 70/92] fix: tables whose headers do not match the columns are
 refused

---
 src/GenericContainerTables.cc | 40 +++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainerTables.cc b/src/GenericContainerTables.cc
index 24a178e..8b1883b 100755
--- a/src/GenericContainerTables.cc
+++ b/src/GenericContainerTables.cc
@@ -30,6 +30,30 @@ namespace GC_namespace {
   #ifndef DOXYGEN_SHOULD_SKIP_THIS
   using namespace std;
 
+  static
+  void
+  check_table( vec_string_type const & headers, vector_type const & data ) {
+    GC_ASSERT(
+      headers.size() == data.size(),
+      "write_table, " << headers.size() << " headers for " << data.size() << " columns"
+    )
+    for ( auto const & column : data ) {
+      GC_ASSERT(
+        column.get_num_elements() == data[0].get_num_elements(),
+        "write_table, the columns have different sizes"
+      )
+    }
+  }
+
+  static
+  void
+  check_table( vec_string_type const & headers, mat_real_type const & data ) {
+    GC_ASSERT(
+      headers.size() == data.num_cols(),
+      "write_table, " << headers.size() << " headers for " << data.num_cols() << " columns"
+    )
+  }
+
   void
   write_table(
     vec_string_type const & headers,
@@ -38,7 +62,11 @@ namespace GC_namespace {
     char const              delimiter
   ) {
 
+    check_table( headers, data );
+
     auto const ncol{ static_cast<unsigned>(headers.size()) };
+    if ( ncol == 0 ) return;
+
     auto const nrow{ (data[0].get_num_elements()) };
 
     stream << headers[0];
@@ -62,9 +90,13 @@ namespace GC_namespace {
     char const              delimiter
   ) {
 
+    check_table( headers, data );
+
     auto const ncol{ (data.num_cols()) };
     auto const nrow{ (data.num_rows()) };
 
+    if ( ncol == 0 ) return;
+
     stream << headers[0];
     for ( unsigned icol{1}; icol < ncol; ++icol )
       stream << delimiter << headers[icol];
@@ -85,11 +117,13 @@ namespace GC_namespace {
     ostream_type          & stream
   ) {
 
-    auto const ncol{ static_cast<unsigned>(headers.size()) };
-    auto const nrow{ (data[0].get_num_elements()) };
+    check_table( headers, data );
 
+    auto const ncol{ static_cast<unsigned>(headers.size()) };
     if ( ncol == 0 ) return;
 
+    auto const nrow{ (data[0].get_num_elements()) };
+
     // calcolo lunghezza massima stringhe headers
     unsigned ml { 0 };
     auto     is { headers.begin() };
@@ -123,6 +157,8 @@ namespace GC_namespace {
     ostream_type          & stream
   ) {
 
+    check_table( headers, data );
+
     auto const ncol{ (data.num_cols()) };
     auto const nrow{ (data.num_rows()) };
 
-- 
2.43.0


From 3ef99d9272225f7a12e20b7fd5b43c0197dcb826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:42 +0000
Subject: [PATCH 71/92] fix: the last row of a table without final newline is
 read once

---
 src/GenericContainerSupport.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index 3bdcf19..3943ea9 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -99,8 +99,8 @@ namespace GC_namespace {
   ) {
     unsigned nl = 0;
     do {
-      if ( stream.fail() ) return 0;
-      getline( stream, line );
+      line.clear();
+      if ( !getline( stream, line ) ) return 0;
       ++nl;
     } while ( is_comment( line, commentchars ) );
     return nl;
@@ -117,8 +117,8 @@ namespace GC_namespace {
     unsigned nl      = 0;
     bool     comment = true;
     while ( comment ) {
-      if ( stream.fail() ) return 0;
-      getline( stream, line );
+      line.clear();
+      if ( !getline( stream, line ) ) return 0;
       comment = line.empty() ||
                 is_comment( line, commentchars );
       if ( ptr_pars != nullptr && comment && line.length() > 2 && line[1] == '!' ) {
-- 
2.43.0


From 284ed2d39508321eb406b008c1dc9d77c8ab9eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:16 +0000
Subject: [PATCH 72/92] fix: from_json2 keeps the nesting of arrays

---
 src_json_interface/jsonParser.tab.hh | 4 ++--
 src_json_interface/jsonParser.yy     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index 7df0263..68d1e30 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -121,8 +121,8 @@
     void open_map()  { m_stack.push_back( get_gc() ); m_stack.back()->set_map(); }
     void close_map() { m_stack.pop_back(); }
 
-    void open_vector()  { get_gc()->set_vector(); }
-    void close_vector() { }
+    void open_vector()  { m_stack.push_back( get_gc() ); m_stack.back()->set_vector(); }
+    void close_vector() { m_stack.pop_back(); }
 
     void
     set_key( string const & s ) {
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index c9e16a1..0b67c5b 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -76,8 +76,8 @@
     void open_map()  { m_stack.push_back( get_gc() ); m_stack.back()->set_map(); }
     void close_map() { m_stack.pop_back(); }
 
-    void open_vector()  { get_gc()->set_vector(); }
-    void close_vector() { }
+    void open_vector()  { m_stack.push_back( get_gc() ); m_stack.back()->set_vector(); }
+    void close_vector() { m_stack.pop_back(); }
 
     void
     set_key( string const & s ) {
-- 
2.43.0


From 70a01f717aa8ca172e9ba33e60c9a05f721d0339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:16 +0000
Subject: [PATCH 73/92] fix: from_json2 does not mix what is read with previous
 content or repeated keys

---
 src_json_interface/from_json2.cc     | 8 ++++++--
 src_json_interface/jsonParser.tab.hh | 4 +++-
 src_json_interface/jsonParser.yy     | 4 +++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src_json_interface/from_json2.cc b/src_json_interface/from_json2.cc
index 59eaa5d..7452ef8 100644
--- a/src_json_interface/from_json2.cc
+++ b/src_json_interface/from_json2.cc
@@ -20,12 +20,16 @@ namespace GC_namespace {
     lexer.set_stream(&stream);
 
     // Crea il parser e passa il lexer
-    GenericContainerWrapper gcw(this);
+    GenericContainer tmp;
+    GenericContainerWrapper gcw(&tmp);
     yy::parser parser(lexer,&gcw);
 
     // Esegui il parsing
     bool ok{parser() == 0};
-    if ( ok ) this->collapse();
+    if ( ok ) {
+      tmp.collapse();
+      this->from_gc( tmp );
+    }
     return ok;
   }
 
diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index 68d1e30..9b05618 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -127,7 +127,9 @@
     void
     set_key( string const & s ) {
       map_type & m{ get_gc()->set_map() };
-      m_stack.push_back( &m[s] );
+      GenericContainer & gc{ m[s] };
+      gc.clear(); // the last of repeated keys counts
+      m_stack.push_back( &gc );
     }
 
     void pop() { m_stack.pop_back(); }
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index 0b67c5b..ae43f13 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -82,7 +82,9 @@
     void
     set_key( string const & s ) {
       map_type & m{ get_gc()->set_map() };
-      m_stack.push_back( &m[s] );
+      GenericContainer & gc{ m[s] };
+      gc.clear(); // the last of repeated keys counts
+      m_stack.push_back( &gc );
     }
 
     void pop() { m_stack.pop_back(); }
-- 
2.43.0


From 26a5cd54ae3b79c6cad9174aa367474e7df3038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:16 +0000
Subject: [PATCH 74/92] fix: from_json2 reads integers that do not fit in 64
 bit as real numbers

---
 src_json_interface/jsonParser.tab.hh | 6 +++++-
 src_json_interface/jsonParser.yy     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index 9b05618..e92f180 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -47,6 +47,7 @@
 // "%code requires" blocks.
 #line 4 "jsonParser.yy"
 
+  #include <cerrno>
   #include <cstdlib>
   #include <sstream>
   #include "jsonLexer.hh"
@@ -104,8 +105,11 @@
     set_integer( string const & s ) {
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
+      errno = 0;
       long long res = std::strtoll(s.c_str(), &end, 10);
-      if ( *end == '\0' ) {
+      if ( errno == ERANGE ) { // does not fit in 64 bit
+        gc->set_real( std::strtod( s.c_str(), nullptr ) );
+      } else if ( *end == '\0' ) {
         if ( res <= std::numeric_limits<GC::int_type>::max() &&
              res >= std::numeric_limits<GC::int_type>::min() ) {
           gc->set_int(GC::int_type(res));
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index ae43f13..82a219c 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -2,6 +2,7 @@
 %language "c++"
 
 %code requires {
+  #include <cerrno>
   #include <cstdlib>
   #include <sstream>
   #include "jsonLexer.hh"
@@ -59,8 +60,11 @@
     set_integer( string const & s ) {
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
+      errno = 0;
       long long res = std::strtoll(s.c_str(), &end, 10);
-      if ( *end == '\0' ) {
+      if ( errno == ERANGE ) { // does not fit in 64 bit
+        gc->set_real( std::strtod( s.c_str(), nullptr ) );
+      } else if ( *end == '\0' ) {
         if ( res <= std::numeric_limits<GC::int_type>::max() &&
              res >= std::numeric_limits<GC::int_type>::min() ) {
           gc->set_int(GC::int_type(res));
-- 
2.43.0


From b1cbbd1963ab0c43a6148529032bd989d7f51faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:17 +0000
Subject: [PATCH 75/92] fix: from_json2 refuses a text with characters that are
 no JSON instead of ending there

---
 src_json_interface/jsonLexer.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index a4c38c8..f2e50be 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -29,10 +29,12 @@ namespace yy {
     do {
       char const & ch{*m_cursor};
       if      ( ch == '\n'  ) { ++m_lineno; m_colno = 1; }
-      else if ( isspace(ch) ) ++m_colno;
+      else if ( ch == ' ' || ch == '\t' || ch == '\r' ) ++m_colno;
       else                    break;
     } while ( ++m_cursor != m_input.end() );
 
+    if ( m_cursor == m_input.end() ) return 0; // EOF
+
     auto res{yy::parser::token::ERROR};
 
     if ( !unicode_1(*m_cursor) ) return res;
@@ -72,7 +74,7 @@ namespace yy {
         // controllo che non sia unicode
         if ( unicode_1(ch0) ) {
           if ( ch0 == '\\' ) {
-            if ( ++m_cursor == m_input.end() ) return 0; // EOF
+            if ( ++m_cursor == m_input.end() ) return res; // EOF
             char const & ch1{*m_cursor};
             switch (ch1) {
             case 'n':  m_lexeme += '\n'; break;
@@ -91,17 +93,17 @@ namespace yy {
           }
         } else { // multibyte unicode
           m_lexeme += ch0;
-          if ( ++m_cursor == m_input.end() ) return 0; // EOF
+          if ( ++m_cursor == m_input.end() ) return res; // EOF
           char const & ch1{*m_cursor};
           if ( !ok_unicode(ch1) ) break; // Invalid UTF-8 continuation byte
           m_lexeme += ch1;
           if ( unicode_min_3(ch0) ) {
-            if ( ++m_cursor == m_input.end() ) return 0; // EOF
+            if ( ++m_cursor == m_input.end() ) return res; // EOF
             char const & ch2{*m_cursor};
             if ( !ok_unicode(ch2) ) break; // Invalid UTF-8 continuation byte
             m_lexeme += ch2;
             if ( unicode_min_4(ch0) ) {
-              if ( ++m_cursor == m_input.end() ) return 0; // EOF
+              if ( ++m_cursor == m_input.end() ) return res; // EOF
               char const & ch3{*m_cursor};
               if ( !ok_unicode(ch3) ) break; // Invalid UTF-8 continuation byte
               m_lexeme += ch3;
@@ -153,7 +155,7 @@ namespace yy {
       //std::cerr << "lexeme: " << m_lexeme << "\n";
       //std::cerr << "FAILED\n";
       m_cursor = start_pos;  // Ripristina la posizione iniziale
-      return -1;             // Se nessuna corrispondenza
+      return res;            // Se nessuna corrispondenza
     } else {
       m_colno += m_cursor-start_pos;
       //yylloc->begin.line   = m_lineno;
-- 
2.43.0


From 67100da39e75335d966b92cdf45dfe51527926d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:17 +0000
Subject: [PATCH 76/92] fix: from_json2 reads exactly the numbers of JSON, also
 at the end of the text

---
 src_json_interface/jsonLexer.cc | 52 +++++++++++++++++----------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index f2e50be..961cd43 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -112,7 +112,6 @@ namespace yy {
         }
       }
       break;
-    case '+':
     case '-':
     case '0':
     case '1':
@@ -124,30 +123,33 @@ namespace yy {
     case '7':
     case '8':
     case '9': // Numeri o altri caratteri
-      char const & ch0{*m_cursor};
-      int state{ (ch0 == '+' || ch0 == '-') ? 0 : 1 };
-      while ( ++m_cursor != m_input.end() ) {
-        char const & ch{*m_cursor};
-        m_lexeme += ch;
-        if ( isdigit(ch) ) {
-          if      ( state == 0 ) state = 1;
-          else if ( state == 3 ) state = 4;
-        } else if ( ch == '.' ) {
-          if ( state > 1 ) break;
-          state = 2;
-        } else if ( ch == 'e' || ch == 'E' ) {
-          if ( state > 2 || state == 0 ) break;
-          state = 3;
-        } else if ( ch == '+' || ch == '-' ) {
-          if ( state != 3 ) return false;
-          state = 4;
-        } else {
-          //std::cout << "STATE = " << state << '\n';
-          m_lexeme.pop_back();
-          if      ( state == 1               ) res = yy::parser::token::INTEGER;
-          else if ( state == 4 || state == 2 ) res = yy::parser::token::FLOAT;
-          break;
-        }
+      // -? (0|[1-9][0-9]*) (.[0-9]+)? ([eE][+-]?[0-9]+)?
+      auto const next{ [this]() -> char { return m_cursor == m_input.end() ? '\0' : *m_cursor; } };
+      auto const digits{ [this,&next]() -> bool {
+        if ( next() < '0' || next() > '9' ) return false;
+        while ( next() >= '0' && next() <= '9' ) ++m_cursor;
+        return true;
+      } };
+      bool is_integer{ true };
+      if ( next() == '-' ) ++m_cursor;
+      bool ok{ true };
+      if ( next() == '0' ) ++m_cursor;
+      else                 ok = digits();
+      if ( ok && next() == '.' ) {
+        is_integer = false;
+        ++m_cursor;
+        ok = digits();
+      }
+      if ( ok && ( next() == 'e' || next() == 'E' ) ) {
+        is_integer = false;
+        ++m_cursor;
+        if ( next() == '+' || next() == '-' ) ++m_cursor;
+        ok = digits();
+      }
+      if ( ok ) {
+        m_lexeme.assign( start_pos, m_cursor );
+        if ( is_integer ) res = yy::parser::token::INTEGER;
+        else              res = yy::parser::token::FLOAT;
       }
       break;
     }
-- 
2.43.0


From ea12970ef1b1428884344327091689d0bb349505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:17 +0000
Subject: [PATCH 77/92] fix: from_json2 decodes all the escapes of JSON and
 refuses the others

---
 src_json_interface/jsonLexer.cc | 68 +++++++++++++++++++++++++++++++--
 1 file changed, 65 insertions(+), 3 deletions(-)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index 961cd43..e4f07bc 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -19,6 +19,64 @@ namespace yy {
 
   inline bool ok_unicode ( char c ) { return ( reinterpret_cast<unsigned char&>(c) & 0xC0 ) == 0x80; }
 
+  // read the 4 hexadecimal digits of an escape, pos is left on the last one
+  static
+  bool
+  read_hex4(
+    std::string::const_iterator     & pos,
+    std::string::const_iterator const end,
+    unsigned                        & code
+  ) {
+    code = 0;
+    for ( int i{0}; i < 4; ++i ) {
+      if ( ++pos == end ) return false;
+      char const c{*pos};
+      code *= 16;
+      if      ( c >= '0' && c <= '9' ) code += static_cast<unsigned>(c-'0');
+      else if ( c >= 'a' && c <= 'f' ) code += static_cast<unsigned>(c-'a'+10);
+      else if ( c >= 'A' && c <= 'F' ) code += static_cast<unsigned>(c-'A'+10);
+      else return false;
+    }
+    return true;
+  }
+
+  // read the code after a backslash u, pos is left on the last digit
+  static
+  bool
+  read_unicode(
+    std::string::const_iterator     & pos,
+    std::string::const_iterator const end,
+    std::string                     & str
+  ) {
+    unsigned code;
+    if ( !read_hex4( pos, end, code ) ) return false;
+    if ( code >= 0xDC00 && code <= 0xDFFF ) return false;
+    if ( code >= 0xD800 && code <= 0xDBFF ) { // surrogate pair
+      unsigned low;
+      if ( ++pos == end || *pos != '\\' ) return false;
+      if ( ++pos == end || *pos != 'u'  ) return false;
+      if ( !read_hex4( pos, end, low )  ) return false;
+      if ( low < 0xDC00 || low > 0xDFFF ) return false;
+      code = 0x10000 + ((code-0xD800)<<10) + (low-0xDC00);
+    }
+    if ( code < 0x80 ) {
+      str += static_cast<char>(code);
+    } else if ( code < 0x800 ) {
+      str += static_cast<char>(0xC0|(code>>6));
+      str += static_cast<char>(0x80|(code&0x3F));
+    } else if ( code < 0x10000 ) {
+      str += static_cast<char>(0xE0|(code>>12));
+      str += static_cast<char>(0x80|((code>>6)&0x3F));
+      str += static_cast<char>(0x80|(code&0x3F));
+    } else {
+      str += static_cast<char>(0xF0|(code>>18));
+      str += static_cast<char>(0x80|((code>>12)&0x3F));
+      str += static_cast<char>(0x80|((code>>6)&0x3F));
+      str += static_cast<char>(0x80|(code&0x3F));
+    }
+    return true;
+  }
+
   // Restituisce il prossimo token
   int
   jsonLexer::yylex( std::string * yylval, yy::location * yylloc ) {
@@ -84,10 +142,14 @@ namespace yy {
             case 'r':  m_lexeme += '\r'; break;
             case 'b':  m_lexeme += '\b'; break;
             case 'f':  m_lexeme += '\f'; break;
-            default:
-              m_lexeme += '\\';
-              m_lexeme += ch1;
+            case '/':  m_lexeme += '/';  break;
+            case 'u':
+              if ( !read_unicode( m_cursor, m_input.end(), m_lexeme ) ) return res;
+              break;
+            default: return res; // invalid escape
             }
+          } else if ( static_cast<unsigned char>(ch0) < 0x20 ) {
+            return res; // control characters must be escaped
           } else {
             m_lexeme += ch0;
           }
-- 
2.43.0


From d0ae3726aedfd40fbd745fed595be4c134e070fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:30 +0000
Subject: [PATCH 78/92] fix: copyto_mat_complex copies a matrix of complex

---
 src/GenericContainerPromote.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 5c72fa5..1cf8387 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1082,6 +1082,12 @@ namespace GC_namespace {
         std::copy_n( m_r->data(), m_r->num_rows()*m_r->num_cols(), m.data() );
       }
       break;
+    case GC_type::MAT_COMPLEX:
+      { mat_complex_type const * m_c{m_data.m_c};
+        m.resize(m_c->num_rows(),m_c->num_cols());
+        std::copy_n( m_c->data(), m_c->num_rows()*m_c->num_cols(), m.data() );
+      }
+      break;
     case GC_type::VECTOR:
       { vector_type const & v{*m_data.v};
         if ( auto nc{static_cast<unsigned>(v.size())}; nc > 0 ) {
@@ -1109,7 +1115,6 @@ namespace GC_namespace {
     case GC_type::STRING:
     case GC_type::VEC_POINTER:
     case GC_type::VEC_STRING:
-    case GC_type::MAT_COMPLEX:
     case GC_type::MAP:
       GC_DO_ERROR( where << "copyto_mat_complex() cannot promote " << get_type_name() << " to mat_complex_type" )
     }
-- 
2.43.0


From 06cd51cc268a455f3599d7d1242c561bf3cb941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:56 +0000
Subject: [PATCH 79/92] fix: a matrix with more than 2^32 elements is not
 allocated with a wrapped size

---
 include/GenericContainer/GenericContainer.hh | 4 ++--
 src/GenericContainer.cc                      | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 4faee7d..45c2657 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -189,7 +189,7 @@ namespace GC_namespace {
     mat_type( unsigned nr, unsigned nc )
     : m_num_rows(nr)
     , m_num_cols(nc)
-    { vector<TYPE>::resize(size_type(nr*nc)); }
+    { vector<TYPE>::resize(size_type(nr)*size_type(nc)); }
 
     //!
     //! Resizes the matrix to the specified dimensions.
@@ -205,9 +205,9 @@ namespace GC_namespace {
     //!
     void
     resize( unsigned nr, unsigned nc ) {
+      vector<TYPE>::resize(size_type(nr)*size_type(nc));
       m_num_rows = nr;
       m_num_cols = nc;
-      vector<TYPE>::resize(size_type(nr*nc));
     }
 
     //!
diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 574a918..10e86ef 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -869,8 +869,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_int( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_INTEGER ) {
       clear();
-      m_data_type = GC_type::MAT_INTEGER;
       m_data.m_i  = new mat_int_type( nr, nc );
+      m_data_type = GC_type::MAT_INTEGER;
     } else {
       m_data.m_i->resize( nr, nc );
     }
@@ -880,8 +880,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_long( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_LONG ) {
       clear();
-      m_data_type = GC_type::MAT_LONG;
       m_data.m_l  = new mat_long_type( nr, nc );
+      m_data_type = GC_type::MAT_LONG;
     } else {
       m_data.m_l->resize( nr, nc );
     }
@@ -891,8 +891,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_real( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_REAL ) {
       clear();
-      m_data_type = GC_type::MAT_REAL;
       m_data.m_r  = new mat_real_type( nr, nc );
+      m_data_type = GC_type::MAT_REAL;
     } else {
       m_data.m_r->resize( nr, nc );
     }
@@ -902,8 +902,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_complex( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_COMPLEX ) {
       clear();
-      m_data_type = GC_type::MAT_COMPLEX;
       m_data.m_c  = new mat_complex_type( nr, nc );
+      m_data_type = GC_type::MAT_COMPLEX;
     } else {
       m_data.m_c->resize( nr, nc );
     }
-- 
2.43.0


From 3440caf6d2781b17a41b8f6a7eff75529c0d8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:56 +0000
Subject: [PATCH 80/92] fix: indexed access at the largest index does not wrap
 the new size to 0

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 10e86ef..0c5ec6a 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -42,7 +42,7 @@
 #include <fstream>
 
 #ifndef DOXYGEN_SHOULD_SKIP_THIS
-#define CHECK_RESIZE(pV,I) if ( pV->size() <= (I) ) pV->resize((I)+1)
+#define CHECK_RESIZE(pV,I) if ( pV->size() <= (I) ) pV->resize(static_cast<std::size_t>(I)+1)
 
 using std::fpclassify;
 using GC_namespace::real_type;
-- 
2.43.0


From 572cdab2e434d7407b3c8c0bea1f74d8721ce65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:56 +0000
Subject: [PATCH 81/92] fix: get_pointer_at reads a vector of pointers instead
 of dropping it

---
 include/GenericContainer/GenericContainer.hh | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 45c2657..c317a42 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -2724,8 +2724,13 @@ namespace GC_namespace {
     //! \endcode
     //!
     template <typename T>
-    T& get_pointer_at( unsigned i )
-    { return (*this)[i].get_pointer<T>(); }
+    T& get_pointer_at( unsigned i ) {
+      if ( m_data_type == GC_type::VEC_POINTER ) {
+        if ( m_data.v_p->size() <= i ) m_data.v_p->resize( static_cast<std::size_t>(i)+1 );
+        return *reinterpret_cast<T*>(&(*m_data.v_p)[i]);
+      }
+      return (*this)[i].get_pointer<T>();
+    }
 
     //!
     //! Get the `i`-th pointer of the vector of pointers.
@@ -2740,8 +2745,13 @@ namespace GC_namespace {
     //! \endcode
     //!
     template <typename T>
-    T get_pointer_at( unsigned i ) const
-    { return (*this)[i].get_pointer<T>(); }
+    T get_pointer_at( unsigned i ) const {
+      if ( m_data_type == GC_type::VEC_POINTER ) {
+        GC_ASSERT( i < m_data.v_p->size(), "get_pointer_at( " << i << " ) const, out of range" )
+        return reinterpret_cast<T>((*m_data.v_p)[i]);
+      }
+      return (*this)[i].get_pointer<T>();
+    }
     //!< Return `i`-th generic pointer (if fails issue an error).
 
     //!
-- 
2.43.0


From 57617dc043833ff2bac0f0a69059b5e144e432c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:05 +0000
Subject: [PATCH 82/92] fix: Lua positions above 2^32 are refused instead of
 wrapped

---
 src_lua_interface/GenericContainerInterface_lua.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 6af1128..c68f230 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -58,6 +58,7 @@
   #endif
 #endif
 
+#include <limits>
 #include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -136,7 +137,8 @@ namespace GC_namespace {
     // assegna il valore
     // index start from 1 in LUA
     GC_ASSERT(
-      lua_isinteger(L, -2) && lua_tointeger(L, -2) >= 1 && gc.get_type() != GC_type::MAP,
+      lua_isinteger(L, -2) && lua_tointeger(L, -2) >= 1 &&
+      lua_tointeger(L, -2) <= lua_Integer(std::numeric_limits<unsigned>::max()) && gc.get_type() != GC_type::MAP,
       "Lua table with a key that is neither a string nor a position, or with both"
     )
     unsigned    idx  = unsigned(lua_tointeger(L, -2)-1);
-- 
2.43.0


From c880e992c84f086db80f18d20c8452cba16621a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:54 +0000
Subject: [PATCH 83/92] fix: a failed allocation leaves an empty container, not
 a type without its data

---
 src/GenericContainer.cc | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 0c5ec6a..d93e3c1 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -777,8 +777,8 @@ namespace GC_namespace {
   GenericContainer::allocate_string() {
     if ( m_data_type != GC_type::STRING ) {
       clear();
-      m_data_type = GC_type::STRING;
       m_data.s    = new string_type;
+      m_data_type = GC_type::STRING;
     }
   }
 
@@ -786,8 +786,8 @@ namespace GC_namespace {
   GenericContainer::allocate_complex() {
     if ( m_data_type != GC_type::COMPLEX ) {
       clear();
-      m_data_type = GC_type::COMPLEX;
       m_data.c    = new complex_type;
+      m_data_type = GC_type::COMPLEX;
     }
   }
 
@@ -795,8 +795,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_pointer( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_POINTER ) {
       clear();
-      m_data_type = GC_type::VEC_POINTER;
       m_data.v_p  = new vec_pointer_type();
+      m_data_type = GC_type::VEC_POINTER;
     }
     if ( sz > 0 ) m_data.v_p->resize( sz );
   }
@@ -819,8 +819,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_bool( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_BOOL ) {
       clear();
-      m_data_type = GC_type::VEC_BOOL;
       m_data.v_b  = new vec_bool_type();
+      m_data_type = GC_type::VEC_BOOL;
     }
     if ( sz > 0 ) m_data.v_b->resize( sz );
   }
@@ -829,8 +829,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_int( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_INTEGER ) {
       clear();
-      m_data_type = GC_type::VEC_INTEGER;
       m_data.v_i  = new vec_int_type();
+      m_data_type = GC_type::VEC_INTEGER;
     }
     if ( sz > 0 ) m_data.v_i->resize( sz );
   }
@@ -839,8 +839,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_long( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_LONG ) {
       clear();
-      m_data_type = GC_type::VEC_LONG;
       m_data.v_l  = new vec_long_type();
+      m_data_type = GC_type::VEC_LONG;
     }
     if ( sz > 0 ) m_data.v_l->resize( sz );
   }
@@ -849,8 +849,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_real( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_REAL ) {
       clear();
-      m_data_type = GC_type::VEC_REAL;
       m_data.v_r  = new vec_real_type();
+      m_data_type = GC_type::VEC_REAL;
     }
     if ( sz > 0 ) m_data.v_r->resize( sz );
   }
@@ -859,8 +859,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_complex( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_COMPLEX ) {
       clear();
-      m_data_type = GC_type::VEC_COMPLEX;
       m_data.v_c  = new vec_complex_type();
+      m_data_type = GC_type::VEC_COMPLEX;
     }
     if ( sz > 0 ) m_data.v_c->resize( sz );
   }
@@ -913,8 +913,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_string( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_STRING ) {
       clear();
-      m_data_type = GC_type::VEC_STRING;
       m_data.v_s  = new vec_string_type();
+      m_data_type = GC_type::VEC_STRING;
     }
     if ( sz > 0 ) m_data.v_s->resize( sz );
   }
@@ -923,8 +923,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vector( unsigned const sz ) {
     if ( m_data_type != GC_type::VECTOR ) {
       clear();
-      m_data_type = GC_type::VECTOR;
       m_data.v    = new vector_type();
+      m_data_type = GC_type::VECTOR;
     }
     if ( sz > 0 ) m_data.v->resize( sz );
   }
@@ -933,8 +933,8 @@ namespace GC_namespace {
   GenericContainer::allocate_map() {
     if ( m_data_type != GC_type::MAP ) {
       clear();
-      m_data_type = GC_type::MAP;
       m_data.m    = new map_type();
+      m_data_type = GC_type::MAP;
     }
   }
 
@@ -990,8 +990,8 @@ namespace GC_namespace {
   complex_type &
   GenericContainer::set_complex( real_type const re, real_type const im ) {
     clear();
-    m_data_type = GC_type::COMPLEX;
     m_data.c    = new complex_type(re,im);
+    m_data_type = GC_type::COMPLEX;
     return *m_data.c;
   }
 
@@ -2120,8 +2120,8 @@ namespace GC_namespace {
   GenericContainer::get_complex( string_view const where ) {
     if ( m_data_type == GC_type::NOTYPE ) {
       clear();
-      m_data_type = GC_type::COMPLEX;
       m_data.c    = new complex_type;
+      m_data_type = GC_type::COMPLEX;
     } else {
       ck(where,GC_type::COMPLEX);
     }
@@ -2138,8 +2138,8 @@ namespace GC_namespace {
   GenericContainer::get_string( string_view const where ) {
     if ( m_data_type == GC_type::NOTYPE ) {
       clear();
-      m_data_type = GC_type::STRING;
       m_data.s    = new string_type("");
+      m_data_type = GC_type::STRING;
     } else {
       ck(where,GC_type::STRING);
     }
-- 
2.43.0


From c5220029517f41c1b540d8048ab9725207e3d706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:28 +0000
Subject: [PATCH 84/92] fix: a string view converted to MATLAB stops at its own
 end

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 4e6137c..eafd208 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -368,7 +368,7 @@ namespace GC_namespace {
 
   void
   to_mxArray( string_view val, mxArray * & mx ) {
-    mx = mxCreateString( val.data() );
+    mx = mxCreateString( string(val).data() );
   }
 
   void
-- 
2.43.0


From e85e0c54a5abc819d1a41f2faaaeb6aa4ed6eec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:28 +0000
Subject: [PATCH 85/92] fix: no debug output when a vector of integers is
 converted to MATLAB

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index eafd208..82f58d3 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -381,7 +381,6 @@ namespace GC_namespace {
 
   void
   to_mxArray( vec_int_type const & val, mxArray * & mx ) {
-  cout << "in  to_mxArray( vec_int_type\n";
     mwSize dims[2] = { mwSize(val.size()), 1 };
     mx = mxCreateNumericArray(2,dims,mxINT32_CLASS,mxREAL);
     int32_t * ptr = static_cast<int32_t*>(mxGetData(mx));
-- 
2.43.0


From 5ced126a94215719ea82a6abfb3cb4572e331141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:28 +0000
Subject: [PATCH 86/92] fix: MATLAB uint32 values above 2^31-1 do not become
 negative

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 82f58d3..f2feaf9 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -318,7 +318,7 @@ namespace GC_namespace {
           case mxINT16_CLASS:   mx_to_vec_int<int16_t>(mx,gc);   break;
           case mxUINT16_CLASS:  mx_to_vec_int<uint16_t>(mx,gc);  break;
           case mxINT32_CLASS:   mx_to_vec_int<int32_t>(mx,gc);   break;
-          case mxUINT32_CLASS:  mx_to_vec_int<uint32_t>(mx,gc);  break;
+          case mxUINT32_CLASS:  mx_to_vec_long<uint32_t>(mx,gc); break;
           case mxINT64_CLASS:   mx_to_vec_long<int64_t>(mx,gc);  break;
           case mxUINT64_CLASS:  mx_to_vec_long<uint64_t>(mx,gc); break;
           case mxSINGLE_CLASS:  mx_to_vec_real<float>(mx,gc);    break;
-- 
2.43.0


From d5ab4631fb4119a1271f39f7e4b6aaa37405c037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:28 +0000
Subject: [PATCH 87/92] fix: a sparse logical matrix from MATLAB is not read as
 doubles

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index f2feaf9..42bc1d1 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -251,6 +251,14 @@ namespace GC_namespace {
     for ( unsigned i = 0; i <= nc; ++i ) jc[i] = jcs[i];
     for ( unsigned i = 0; i < nnz; ++i ) ir[i] = irs[i];
 
+    if ( mxIsLogical( mx ) ) {
+      // sparse logical: the values are stored as mxLogical
+      mxLogical const * sl = mxGetLogicals(mx);
+      vec_real_type & val = gc["values"].set_vec_real( nnz );
+      for ( unsigned i = 0; i < nnz; ++i ) val[i] = sl[i] ? 1 : 0;
+      return;
+    }
+
     real_type * sr = mxGetPr(mx);
     if ( mxIsComplex( mx ) ) {
       real_type * si = mxGetPi(mx);
-- 
2.43.0


From 1c41b5d5ca9ca25e7215fede4938578a32f5b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 88/92] fix: file_YAML_to_GC and file_TOML_to_GC use the given
 name only

---
 include/GenericContainer/GenericContainerInterface_toml.hh | 2 +-
 include/GenericContainer/GenericContainerInterface_yaml.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GenericContainer/GenericContainerInterface_toml.hh b/include/GenericContainer/GenericContainerInterface_toml.hh
index 2302031..0d8ae45 100644
--- a/include/GenericContainer/GenericContainerInterface_toml.hh
+++ b/include/GenericContainer/GenericContainerInterface_toml.hh
@@ -55,7 +55,7 @@ namespace GC_namespace {
     string_view        file_name,
     GenericContainer & gc
   ) {
-    ifstream stream(file_name.data());
+    ifstream stream{ string(file_name) };
     gc.clear();
     return gc.from_toml( stream );
   }
diff --git a/include/GenericContainer/GenericContainerInterface_yaml.hh b/include/GenericContainer/GenericContainerInterface_yaml.hh
index 595d29e..9bb07cf 100644
--- a/include/GenericContainer/GenericContainerInterface_yaml.hh
+++ b/include/GenericContainer/GenericContainerInterface_yaml.hh
@@ -55,7 +55,7 @@ namespace GC_namespace {
     string_view        file_name,
     GenericContainer & gc
   ) {
-    ifstream stream(file_name.data());
+    ifstream stream{ string(file_name) };
     gc.clear();
     return gc.from_yaml( stream );
   }
-- 
2.43.0


From 8b4d5474b177025404959cfe22487323cd97b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 89/92] fix: a stream that cannot be read is an error and not
 an empty or shorter document

---
 src/GenericContainerSupport.cc   |  6 ++++++
 src_json_interface/from_json.cc  |  6 ++++++
 src_json_interface/from_json2.cc |  2 +-
 src_json_interface/jsonLexer.hh  | 14 ++++++++++----
 src_toml_interface/from_toml.cc  | 12 +++++++++++-
 src_yaml_interface/from_yaml.cc  | 12 +++++++++++-
 6 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index 3943ea9..42add62 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -187,6 +187,8 @@ namespace GC_namespace {
     GenericContainer & tmp = (*this)["headers"];
     vec_string_type & headers = tmp.set_vec_string();
 
+    GC_ASSERT( !stream.fail(), "read_formatted_data, the stream cannot be read" );
+
     // reading header line
     unsigned nline { get_line_and_skip_comments( stream, line, commentChars ) }; // read  line
     tokenizeString( line, headers, delimiters ); // tokenize line
@@ -215,6 +217,7 @@ namespace GC_namespace {
       for ( unsigned icol = 0; icol < ncol; ++icol )
         data[icol].get_vec_real().push_back(atof(tokens[icol].data()) );
     }
+    GC_ASSERT( !stream.bad(), "read_formatted_data, error in reading the stream" );
     return *this;
   }
 
@@ -235,6 +238,8 @@ namespace GC_namespace {
     GenericContainer & tmp = (*this)["headers"];
     vec_string_type & headers = tmp.set_vec_string();
 
+    GC_ASSERT( !stream.fail(), "read_formatted_data2, the stream cannot be read" );
+
     // reading header line
     auto nline{ get_line_and_skip_comments2( stream, line, commentChars, ptr_pars ) }; // read  line
     tokenizeString( line, headers, delimiters ); // tokenize line
@@ -269,6 +274,7 @@ namespace GC_namespace {
       for ( unsigned icol = 0; icol < ncol; ++icol )
         pcolumns[icol]->push_back(atof(tokens[icol].data()) );
     }
+    GC_ASSERT( !stream.bad(), "read_formatted_data2, error in reading the stream" );
     return *this;
   }
 
diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index 9ebd1d0..7bdb7db 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -100,6 +100,12 @@ namespace GC_namespace {
     // Parse del file
     document.ParseStream(isw);
 
+    // Controllare errori di lettura
+    if ( stream.bad() ) {
+      std::cerr << "Errore di lettura in JSON_to_GC\n";
+      return false;
+    }
+
     // Controllare eventuali errori di parsing
     if (document.HasParseError()) {
       std::cerr << "Errore di parsing in JSON_to_GC\n";
diff --git a/src_json_interface/from_json2.cc b/src_json_interface/from_json2.cc
index 7452ef8..1b536bb 100644
--- a/src_json_interface/from_json2.cc
+++ b/src_json_interface/from_json2.cc
@@ -17,7 +17,7 @@ namespace GC_namespace {
 
     // Crea il lexer e reindirizza l'input verso il file
     yy::jsonLexer lexer;
-    lexer.set_stream(&stream);
+    if ( !lexer.set_stream(&stream) ) return false;
 
     // Crea il parser e passa il lexer
     GenericContainer tmp;
diff --git a/src_json_interface/jsonLexer.hh b/src_json_interface/jsonLexer.hh
index 1906a70..253a4e7 100644
--- a/src_json_interface/jsonLexer.hh
+++ b/src_json_interface/jsonLexer.hh
@@ -36,13 +36,19 @@ namespace yy {
     jsonLexer() { m_lexeme.reserve(1023); }
     int yylex( std::string * yylval, yy::location * yylloc );
 
-    void
+    // return false if the stream cannot be read
+    bool
     set_stream( std::istream * file ) {
       // Utilizziamo un buffer di stringa per leggere tutto il contenuto dello stream
-      std::ostringstream oss;
-      oss << file->rdbuf(); // Leggiamo tutto il contenuto nel buffer della stringa
-      m_input  = oss.str();
+      bool const ok{ !file->fail() };
+      char buffer[256];
+      m_input.clear();
+      while ( *file ) { // Leggiamo tutto il contenuto nel buffer della stringa
+        file->read( buffer, 256 );
+        m_input.append( buffer, static_cast<std::size_t>(file->gcount()) );
+      }
       m_cursor = m_input.begin();
+      return ok && !file->bad();
     }
 
   private:
diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index 018fb7f..83fd66d 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -200,8 +200,18 @@ namespace GC_namespace {
   GenericContainer::from_toml( istream_type & stream ) {
     bool ok{true};
     try {
+      // the whole text is read first (the stream may be not seekable)
+      if ( stream.fail() ) throw std::runtime_error( "the stream cannot be read" );
+      string text;
+      char   buffer[256];
+      while ( stream ) {
+        stream.read( buffer, 256 );
+        text.append( buffer, static_cast<size_t>(stream.gcount()) );
+      }
+      if ( stream.bad() ) throw std::runtime_error( "the stream cannot be read" );
       // deserialize the loaded file contents.
-      ok = TOML_to_GC( toml::parse(stream), *this );
+      toml::table const root{ toml::parse(text) };
+      ok = TOML_to_GC( root, *this );
       if ( ok ) this->collapse();
     }
     catch ( std::exception const & e ) {
diff --git a/src_yaml_interface/from_yaml.cc b/src_yaml_interface/from_yaml.cc
index ca4ecc5..cc15e6c 100755
--- a/src_yaml_interface/from_yaml.cc
+++ b/src_yaml_interface/from_yaml.cc
@@ -121,8 +121,18 @@ namespace GC_namespace {
   GenericContainer::from_yaml( istream_type & stream ) {
     bool ok{true};
     try {
+      // the whole text is read first (the stream may be not seekable)
+      if ( stream.fail() ) throw std::runtime_error( "the stream cannot be read" );
+      string text;
+      char   buffer[256];
+      while ( stream ) {
+        stream.read( buffer, 256 );
+        text.append( buffer, static_cast<size_t>(stream.gcount()) );
+      }
+      if ( stream.bad() ) throw std::runtime_error( "the stream cannot be read" );
+      istringstream text_stream( text );
       // deserialize the loaded file contents.
-      fkyaml::node root = fkyaml::node::deserialize(stream);
+      fkyaml::node root = fkyaml::node::deserialize(text_stream);
       GenericContainer tmp;
       ok = YAML_to_GC( root, tmp );
       if ( ok ) {
-- 
2.43.0


From c4456be77f064b15fe4321ba714cff19c617a056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 90/92] fix: YAML texts that end inside a character or are a
 part of a BOM are refused

---
 .../fkYAML/detail/encodings/utf_encode_detector.hpp      | 9 ++++++++-
 src_yaml_interface/fkYAML/detail/input/input_adapter.hpp | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src_yaml_interface/fkYAML/detail/encodings/utf_encode_detector.hpp b/src_yaml_interface/fkYAML/detail/encodings/utf_encode_detector.hpp
index 9b91c71..f29d41b 100644
--- a/src_yaml_interface/fkYAML/detail/encodings/utf_encode_detector.hpp
+++ b/src_yaml_interface/fkYAML/detail/encodings/utf_encode_detector.hpp
@@ -301,6 +301,7 @@ struct stream_utf_encode_detector {
         // the inner curly braces are necessary for older compilers
         std::array<uint8_t, 4> bytes {{}};
         bytes.fill(0xFFu);
+        std::streamoff read_size = 0;
         for (int i = 0; i < 4; i++) {
             char ch = 0;
             is.read(&ch, 1);
@@ -311,10 +312,11 @@ struct stream_utf_encode_detector {
                 break;
             }
             bytes[i] = static_cast<uint8_t>(ch & 0xFF); // NOLINT(cppcoreguidelines-pro-bounds-constant-array-index)
+            ++read_size;
         }
 
         bool has_bom = false;
-        const utf_encode_t encode_type = detect_encoding_type(bytes, has_bom);
+        utf_encode_t encode_type = detect_encoding_type(bytes, has_bom);
 
         // move back to the beginning if a BOM doesn't exist.
         std::streamoff offset = 0;
@@ -333,6 +335,11 @@ struct stream_utf_encode_detector {
                 break;
             }
         }
+        // not a BOM if completed by the filling of `bytes`.
+        if (offset > read_size) {
+            offset = 0;
+            encode_type = utf_encode_t::UTF_8;
+        }
         is.seekg(offset, std::ios_base::beg);
 
         return encode_type;
diff --git a/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp b/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
index af74b16..90b8bef 100644
--- a/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
@@ -820,6 +820,9 @@ private:
         while (current != end) {
             const auto first = static_cast<uint8_t>(*current++);
             const uint32_t num_bytes = utf8::get_num_bytes(first);
+            if FK_YAML_UNLIKELY (std::distance(current, end) + 1 < static_cast<std::ptrdiff_t>(num_bytes)) {
+                throw fkyaml::invalid_encoding("Invalid UTF-8 encoding.", {first});
+            }
 
             switch (num_bytes) {
             case 1:
-- 
2.43.0


From ebcb7e35a325a46b1f3fe1ff7e9f5a5b0811263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 91/92] fix: LuaInterpreter::do_file reports a script that
 fails with error(nil)

---
 src_lua_interface/GenericContainerInterface_lua.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index c68f230..f05e3b2 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -420,10 +420,10 @@ namespace GC_namespace {
     )
     LuaStackGuard guard{ L };
     if ( luaL_loadfile(L, filename) || lua_pcall(L, 0, 0, 0)  ) {
-      GC_ASSERT(
-        lua_isnil(L,-1),
+      char const * msg{ lua_tostring(L, -1) }; // nullptr if the error is not a string
+      GC_DO_ERROR(
         "In LuaInterpreter::do_file('" << filename <<
-        "')\n" << lua_tostring(L, -1)
+        "')\n" << ( msg != nullptr ? msg : "error without a message" )
       )
     }
   }
-- 
2.43.0


From 9a77b3b0cf5b40e5119eaaf1ce17888daf8e20e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 92/92] fix: GenericContainer::exception uses the given text
 only

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index d93e3c1..64b265d 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3893,7 +3893,7 @@ namespace GC_namespace {
 
   void
   GenericContainer::exception( string_view const where ) {
-    throw std::runtime_error(where.data());
+    throw std::runtime_error( string(where) );
   }
 
   // instantate classes
-- 
2.43.0

