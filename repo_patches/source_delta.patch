From 93038c8588fc163ca1804eb22cdab062b15f7617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:19 +0000
Subject: [PATCH 01/67] fix: compare_content never terminated on vectors and
 reported equal reals as pointers

---
 src/GenericContainer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 039ae28..0e8d62c 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -417,7 +417,7 @@ namespace GC_namespace {
                << *it1 << " <> " << *it2 << '\n';
           break;
         }
-        ++i;
+        ++i; ++it1; ++it2;
       }
     } else {
       data << who << " size: " << A->size() << " <> " << B->size() << '\n';
@@ -478,6 +478,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         if ( m_data.r != gc.m_data.r )
           data << from << "real: " << m_data.r << " <> " << gc.m_data.r << '\n';
+        break;
       case GC_type::POINTER:
         if ( m_data.p != gc.m_data.p )
           data << from << "pointer: 0x" << std::hex << m_data.p << " <> 0x" <<  std::hex << gc.m_data.p << '\n';
-- 
2.43.0


From 5a5febf20d10a52b7c8bbdb33ef751fb55933bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:34 +0000
Subject: [PATCH 02/67] fix: a failed allocation left a container tagged with
 storage it did not own

---
 include/GenericContainer/GenericContainer.hh | 32 +++++------
 src/GenericContainer.cc                      | 59 +++++++++++++-------
 2 files changed, 55 insertions(+), 36 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 4faee7d..2c5dc11 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -189,7 +189,7 @@ namespace GC_namespace {
     mat_type( unsigned nr, unsigned nc )
     : m_num_rows(nr)
     , m_num_cols(nc)
-    { vector<TYPE>::resize(size_type(nr*nc)); }
+    { vector<TYPE>::resize(size_type(nr)*size_type(nc)); }
 
     //!
     //! Resizes the matrix to the specified dimensions.
@@ -205,9 +205,9 @@ namespace GC_namespace {
     //!
     void
     resize( unsigned nr, unsigned nc ) {
+      vector<TYPE>::resize(size_type(nr)*size_type(nc));
       m_num_rows = nr;
       m_num_cols = nc;
-      vector<TYPE>::resize(size_type(nr*nc));
     }
 
     //!
@@ -3788,98 +3788,98 @@ namespace GC_namespace {
     //! \param[in] a initializer data
     //!
     GenericContainer( bool const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing an integer
     //! \param[in] a initializer data
     //!
     GenericContainer( uint_type const & a )
-    : m_data_type(GC_type::NOTYPE) { *this = a; }
+    : GenericContainer() { *this = a; }
 
     //!
     //! Construct a generic container storing an integer
     //! \param[in] a initializer data
     //!
     GenericContainer( int_type const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing an integer
     //! \param[in] a initializer data
     //!
     GenericContainer( ulong_type const & a )
-    : m_data_type(GC_type::NOTYPE) { *this = a; }
+    : GenericContainer() { *this = a; }
 
     //!
     //! Construct a generic container storing an integer
     //! \param[in] a initializer data
     //!
     GenericContainer( long_type const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a floating point number
     //! \param[in] a initializer data
     //!
     GenericContainer( float const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a floating point number
     //! \param[in] a initializer data
     //!
     GenericContainer( double const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a complex floating point number
     //! \param[in] a initializer data
     //!
     GenericContainer( complex<float> const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a complex floating point number
     //! \param[in] a initializer data
     //!
     GenericContainer( complex<double> const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a string or pointer
     //! \param[in] a initializer data
     //!
     GenericContainer( char const * a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a string or pointer
     //! \param[in] a initializer data
     //!
     GenericContainer( string const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a string or pointer
     //! \param[in] a initializer data
     //!
     GenericContainer( string_view a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a pointer
     //! \param[in] a initializer data
     //!
     GenericContainer( pointer_type a )
-    : m_data_type(GC_type::NOTYPE) { this->set_pointer(a); }
+    : GenericContainer() { this->set_pointer(a); }
 
     //!
     //! Construct a generic container copying container `gc`
     //! \param[in] gc initializer data
     //!
     GenericContainer( GenericContainer const & gc )
-    : m_data_type(GC_type::NOTYPE) { this->from_gc(gc); }
+    : GenericContainer() { this->from_gc(gc); }
 
     ///@}
 
diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 0e8d62c..436ad23 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -757,27 +757,30 @@ namespace GC_namespace {
   void
   GenericContainer::allocate_string() {
     if ( m_data_type != GC_type::STRING ) {
+      auto * ptr = new string_type;
       clear();
+      m_data.s = ptr;
       m_data_type = GC_type::STRING;
-      m_data.s    = new string_type;
     }
   }
 
   void
   GenericContainer::allocate_complex() {
     if ( m_data_type != GC_type::COMPLEX ) {
+      auto * ptr = new complex_type;
       clear();
+      m_data.c = ptr;
       m_data_type = GC_type::COMPLEX;
-      m_data.c    = new complex_type;
     }
   }
 
   void
   GenericContainer::allocate_vec_pointer( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_POINTER ) {
+      auto * ptr = new vec_pointer_type();
       clear();
+      m_data.v_p = ptr;
       m_data_type = GC_type::VEC_POINTER;
-      m_data.v_p  = new vec_pointer_type();
     }
     if ( sz > 0 ) m_data.v_p->resize( sz );
   }
@@ -799,9 +802,10 @@ namespace GC_namespace {
   void
   GenericContainer::allocate_vec_bool( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_BOOL ) {
+      auto * ptr = new vec_bool_type();
       clear();
+      m_data.v_b = ptr;
       m_data_type = GC_type::VEC_BOOL;
-      m_data.v_b  = new vec_bool_type();
     }
     if ( sz > 0 ) m_data.v_b->resize( sz );
   }
@@ -809,9 +813,10 @@ namespace GC_namespace {
   void
   GenericContainer::allocate_vec_int( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_INTEGER ) {
+      auto * ptr = new vec_int_type();
       clear();
+      m_data.v_i = ptr;
       m_data_type = GC_type::VEC_INTEGER;
-      m_data.v_i  = new vec_int_type();
     }
     if ( sz > 0 ) m_data.v_i->resize( sz );
   }
@@ -819,9 +824,10 @@ namespace GC_namespace {
   void
   GenericContainer::allocate_vec_long( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_LONG ) {
+      auto * ptr = new vec_long_type();
       clear();
+      m_data.v_l = ptr;
       m_data_type = GC_type::VEC_LONG;
-      m_data.v_l  = new vec_long_type();
     }
     if ( sz > 0 ) m_data.v_l->resize( sz );
   }
@@ -829,9 +835,10 @@ namespace GC_namespace {
   void
   GenericContainer::allocate_vec_real( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_REAL ) {
+      auto * ptr = new vec_real_type();
       clear();
+      m_data.v_r = ptr;
       m_data_type = GC_type::VEC_REAL;
-      m_data.v_r  = new vec_real_type();
     }
     if ( sz > 0 ) m_data.v_r->resize( sz );
   }
@@ -839,9 +846,10 @@ namespace GC_namespace {
   void
   GenericContainer::allocate_vec_complex( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_COMPLEX ) {
+      auto * ptr = new vec_complex_type();
       clear();
+      m_data.v_c = ptr;
       m_data_type = GC_type::VEC_COMPLEX;
-      m_data.v_c  = new vec_complex_type();
     }
     if ( sz > 0 ) m_data.v_c->resize( sz );
   }
@@ -849,9 +857,10 @@ namespace GC_namespace {
   void
   GenericContainer::allocate_mat_int( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_INTEGER ) {
+      auto * ptr = new mat_int_type( nr, nc );
       clear();
+      m_data.m_i = ptr;
       m_data_type = GC_type::MAT_INTEGER;
-      m_data.m_i  = new mat_int_type( nr, nc );
     } else {
       m_data.m_i->resize( nr, nc );
     }
@@ -860,9 +869,10 @@ namespace GC_namespace {
   void
   GenericContainer::allocate_mat_long( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_LONG ) {
+      auto * ptr = new mat_long_type( nr, nc );
       clear();
+      m_data.m_l = ptr;
       m_data_type = GC_type::MAT_LONG;
-      m_data.m_l  = new mat_long_type( nr, nc );
     } else {
       m_data.m_l->resize( nr, nc );
     }
@@ -871,9 +881,10 @@ namespace GC_namespace {
   void
   GenericContainer::allocate_mat_real( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_REAL ) {
+      auto * ptr = new mat_real_type( nr, nc );
       clear();
+      m_data.m_r = ptr;
       m_data_type = GC_type::MAT_REAL;
-      m_data.m_r  = new mat_real_type( nr, nc );
     } else {
       m_data.m_r->resize( nr, nc );
     }
@@ -882,9 +893,10 @@ namespace GC_namespace {
   void
   GenericContainer::allocate_mat_complex( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_COMPLEX ) {
+      auto * ptr = new mat_complex_type( nr, nc );
       clear();
+      m_data.m_c = ptr;
       m_data_type = GC_type::MAT_COMPLEX;
-      m_data.m_c  = new mat_complex_type( nr, nc );
     } else {
       m_data.m_c->resize( nr, nc );
     }
@@ -893,9 +905,10 @@ namespace GC_namespace {
   void
   GenericContainer::allocate_vec_string( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_STRING ) {
+      auto * ptr = new vec_string_type();
       clear();
+      m_data.v_s = ptr;
       m_data_type = GC_type::VEC_STRING;
-      m_data.v_s  = new vec_string_type();
     }
     if ( sz > 0 ) m_data.v_s->resize( sz );
   }
@@ -903,9 +916,10 @@ namespace GC_namespace {
   void
   GenericContainer::allocate_vector( unsigned const sz ) {
     if ( m_data_type != GC_type::VECTOR ) {
+      auto * ptr = new vector_type();
       clear();
+      m_data.v = ptr;
       m_data_type = GC_type::VECTOR;
-      m_data.v    = new vector_type();
     }
     if ( sz > 0 ) m_data.v->resize( sz );
   }
@@ -913,9 +927,10 @@ namespace GC_namespace {
   void
   GenericContainer::allocate_map() {
     if ( m_data_type != GC_type::MAP ) {
+      auto * ptr = new map_type();
       clear();
+      m_data.m = ptr;
       m_data_type = GC_type::MAP;
-      m_data.m    = new map_type();
     }
   }
 
@@ -964,17 +979,19 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::set_complex( complex_type const & value ) {
+    auto * ptr = new complex_type(value);
     clear();
+    m_data.c    = ptr;
     m_data_type = GC_type::COMPLEX;
-    m_data.c    = new complex_type;
-    return (*m_data.c=value);
+    return *m_data.c;
   }
 
   complex_type &
   GenericContainer::set_complex( real_type const re, real_type const im ) {
+    auto * ptr = new complex_type(re,im);
     clear();
+    m_data.c    = ptr;
     m_data_type = GC_type::COMPLEX;
-    m_data.c    = new complex_type(re,im);
     return *m_data.c;
   }
 
@@ -2089,9 +2106,10 @@ namespace GC_namespace {
   complex_type &
   GenericContainer::get_complex( string_view const where ) {
     if ( m_data_type == GC_type::NOTYPE ) {
+      auto * ptr = new complex_type;
       clear();
+      m_data.c = ptr;
       m_data_type = GC_type::COMPLEX;
-      m_data.c    = new complex_type;
     } else {
       ck(where,GC_type::COMPLEX);
     }
@@ -2107,9 +2125,10 @@ namespace GC_namespace {
   string_type &
   GenericContainer::get_string( string_view const where ) {
     if ( m_data_type == GC_type::NOTYPE ) {
+      auto * ptr = new string_type("");
       clear();
+      m_data.s = ptr;
       m_data_type = GC_type::STRING;
-      m_data.s    = new string_type("");
     } else {
       ck(where,GC_type::STRING);
     }
-- 
2.43.0


From 8a9d095a96f1f543ada6eb031a82e54c28a0c77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:30 +0000
Subject: [PATCH 03/67] fix: assigning an empty or own vector, matrix or string
 kept stale or freed content

---
 src/GenericContainer.cc | 91 +++++++++++++++++++++++++----------------
 1 file changed, 55 insertions(+), 36 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 436ad23..cba1554 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -337,43 +337,37 @@ namespace GC_namespace {
 
   GenericContainer &
   GenericContainer::operator = ( vec_bool_type const & a ) {
-    set_vec_bool( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_b->begin() );
+    set_vec_bool( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_int_type const & a ) {
-    set_vec_int( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_i->begin() );
+    set_vec_int( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_long_type const & a ) {
-    set_vec_long( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_l->begin() );
+    set_vec_long( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_real_type const & a ) {
-    set_vec_real( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_r->begin() );
+    set_vec_real( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_complex_type const & a ) {
-    set_vec_complex( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_c->begin() );
+    set_vec_complex( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_string_type const & a ) {
-    set_vec_string( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_s->begin() );
+    set_vec_string( a );
     return *this;
   }
 
@@ -997,8 +991,11 @@ namespace GC_namespace {
 
   string_type &
   GenericContainer::set_string( string_view const value ) {
-    allocate_string();
-    return (*m_data.s = value);
+    auto * ptr = new string_type( value ); // `value` may be stored in this container
+    clear();
+    m_data.s    = ptr;
+    m_data_type = GC_type::STRING;
+    return *m_data.s;
   }
 
   vec_pointer_type &
@@ -1009,8 +1006,10 @@ namespace GC_namespace {
 
   vec_pointer_type &
   GenericContainer::set_vec_pointer( vec_pointer_type const & v ) {
-    allocate_vec_pointer( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_p->begin() );
+    auto * ptr = new vec_pointer_type( v ); // `v` may be stored in this container
+    clear();
+    m_data.v_p = ptr;
+    m_data_type = GC_type::VEC_POINTER;
     return *m_data.v_p;
   }
 
@@ -1021,8 +1020,10 @@ namespace GC_namespace {
 
   vec_bool_type &
   GenericContainer::set_vec_bool( vec_bool_type const & v ) {
-    allocate_vec_bool( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_b->begin() );
+    auto * ptr = new vec_bool_type( v ); // `v` may be stored in this container
+    clear();
+    m_data.v_b = ptr;
+    m_data_type = GC_type::VEC_BOOL;
     return *m_data.v_b;
   }
 
@@ -1034,8 +1035,10 @@ namespace GC_namespace {
 
   vec_int_type &
   GenericContainer::set_vec_int( vec_int_type const & v ) {
-    allocate_vec_int( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_i->begin() );
+    auto * ptr = new vec_int_type( v ); // `v` may be stored in this container
+    clear();
+    m_data.v_i = ptr;
+    m_data_type = GC_type::VEC_INTEGER;
     return *m_data.v_i;
   }
 
@@ -1047,8 +1050,10 @@ namespace GC_namespace {
 
   vec_long_type &
   GenericContainer::set_vec_long( vec_long_type const & v ) {
-    allocate_vec_long( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_l->begin() );
+    auto * ptr = new vec_long_type( v ); // `v` may be stored in this container
+    clear();
+    m_data.v_l = ptr;
+    m_data_type = GC_type::VEC_LONG;
     return *m_data.v_l;
   }
 
@@ -1060,8 +1065,10 @@ namespace GC_namespace {
 
   vec_real_type &
   GenericContainer::set_vec_real( vec_real_type const & v ) {
-    allocate_vec_real( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_r->begin() );
+    auto * ptr = new vec_real_type( v ); // `v` may be stored in this container
+    clear();
+    m_data.v_r = ptr;
+    m_data_type = GC_type::VEC_REAL;
     return *m_data.v_r;
   }
 
@@ -1073,8 +1080,10 @@ namespace GC_namespace {
 
   vec_complex_type &
   GenericContainer::set_vec_complex( vec_complex_type const & v ) {
-    allocate_vec_complex( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_c->begin() );
+    auto * ptr = new vec_complex_type( v ); // `v` may be stored in this container
+    clear();
+    m_data.v_c = ptr;
+    m_data_type = GC_type::VEC_COMPLEX;
     return *m_data.v_c;
   }
 
@@ -1086,8 +1095,10 @@ namespace GC_namespace {
 
   mat_int_type &
   GenericContainer::set_mat_int( mat_int_type const & m ) {
-    allocate_mat_int( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_i->begin() );
+    auto * ptr = new mat_int_type( m ); // `m` may be stored in this container
+    clear();
+    m_data.m_i = ptr;
+    m_data_type = GC_type::MAT_INTEGER;
     return *m_data.m_i;
   }
 
@@ -1099,8 +1110,10 @@ namespace GC_namespace {
 
   mat_long_type &
   GenericContainer::set_mat_long( mat_long_type const & m ) {
-    allocate_mat_long( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_l->begin() );
+    auto * ptr = new mat_long_type( m ); // `m` may be stored in this container
+    clear();
+    m_data.m_l = ptr;
+    m_data_type = GC_type::MAT_LONG;
     return *m_data.m_l;
   }
 
@@ -1112,8 +1125,10 @@ namespace GC_namespace {
 
   mat_real_type &
   GenericContainer::set_mat_real( mat_real_type const & m ) {
-    allocate_mat_real( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_r->begin() );
+    auto * ptr = new mat_real_type( m ); // `m` may be stored in this container
+    clear();
+    m_data.m_r = ptr;
+    m_data_type = GC_type::MAT_REAL;
     return *m_data.m_r;
   }
 
@@ -1125,8 +1140,10 @@ namespace GC_namespace {
 
   mat_complex_type &
   GenericContainer::set_mat_complex( mat_complex_type const & m ) {
-    allocate_mat_complex( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_c->begin() );
+    auto * ptr = new mat_complex_type( m ); // `m` may be stored in this container
+    clear();
+    m_data.m_c = ptr;
+    m_data_type = GC_type::MAT_COMPLEX;
     return *m_data.m_c;
   }
 
@@ -1138,8 +1155,10 @@ namespace GC_namespace {
 
   vec_string_type &
   GenericContainer::set_vec_string( vec_string_type const & v ) {
-    allocate_vec_string( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_s->begin() );
+    auto * ptr = new vec_string_type( v ); // `v` may be stored in this container
+    clear();
+    m_data.v_s = ptr;
+    m_data_type = GC_type::VEC_STRING;
     return *m_data.v_s;
   }
 
-- 
2.43.0


From fa91fa7abf04bc4dd92c444a2bd28e169af6fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:30 +0000
Subject: [PATCH 04/67] fix: copying a container kept old entries of the
 destination and broke on aliased operands

---
 include/GenericContainer/GenericContainer.hh |  2 +
 src/GenericContainer.cc                      | 56 +++++---------------
 2 files changed, 14 insertions(+), 44 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 2c5dc11..3ffa350 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -694,6 +694,8 @@ namespace GC_namespace {
     //! \brief Checks or sets the type of data stored.
     void ck_or_set(string_view, TypeAllowed);
 
+    void copy_from( GenericContainer const & gc );
+
     //! \brief Returns true if the data type is a simple type (e.g., primitive).
     #ifdef GENERIC_CONTAINER_ON_WINDOWS
     bool simple_data() const;
diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index cba1554..0c50b80 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3756,49 +3756,7 @@ namespace GC_namespace {
 
   void
   GenericContainer::to_gc( GenericContainer & gc ) const {
-    switch (m_data_type) {
-    case GC_type::NOTYPE:      gc.clear();                break;
-    case GC_type::BOOL:        gc = m_data.b;    break;
-    case GC_type::INTEGER:     gc = m_data.i;    break;
-    case GC_type::LONG:        gc = m_data.l;    break;
-    case GC_type::REAL:        gc = m_data.r;    break;
-    case GC_type::COMPLEX:     gc = *m_data.c;   break;
-    case GC_type::STRING:      gc = *m_data.s;   break;
-    case GC_type::VEC_BOOL:    gc = *m_data.v_b; break;
-    case GC_type::VEC_INTEGER: gc = *m_data.v_i; break;
-    case GC_type::VEC_LONG:    gc = *m_data.v_l; break;
-    case GC_type::VEC_REAL:    gc = *m_data.v_r; break;
-    case GC_type::VEC_STRING:  gc = *m_data.v_s; break;
-
-    case GC_type::VECTOR:
-      gc.set_vector();
-      { vector_type const & v{*m_data.v};
-        vector_type       & vv = gc.set_vector(v.size());
-        for ( vector_type::size_type i{0}; i < v.size(); ++i )
-          v[i].to_gc(vv[i]);
-      }
-      break;
-    case GC_type::MAP:
-      gc.set_map();
-      { map_type const & m{*m_data.m};
-        for ( const auto &[fst, snd] : m )
-          snd.to_gc(gc[fst]);
-      }
-      break;
-    case GC_type::MAT_INTEGER: gc = *m_data.m_i; break;
-    case GC_type::MAT_LONG:    gc = *m_data.m_l; break;
-    case GC_type::MAT_REAL:    gc = *m_data.m_r; break;
-    case GC_type::VEC_COMPLEX: gc = *m_data.v_c; break;
-    case GC_type::MAT_COMPLEX: gc = *m_data.m_c; break;
-    case GC_type::POINTER:     gc = this->get_pointer<void *>(); break;
-    case GC_type::VEC_POINTER:
-      { vec_pointer_type const & v  = this->get_vec_pointer();
-        vec_pointer_type       & vv = gc.set_vec_pointer(v.size());
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
-          vv[i] = v[i];
-      }
-      break;
-    }
+    gc.from_gc( *this );
   }
 
   /*
@@ -3812,6 +3770,15 @@ namespace GC_namespace {
 
   void
   GenericContainer::from_gc( GenericContainer const & gc ) {
+    // `gc` may be (part of) this container, or contain it: copy first, then replace
+    GenericContainer tmp;
+    tmp.copy_from( gc );
+    std::swap( m_data, tmp.m_data );
+    std::swap( m_data_type, tmp.m_data_type );
+  }
+
+  void
+  GenericContainer::copy_from( GenericContainer const & gc ) {
     switch ( gc.get_type()) {
     case GC_type::NOTYPE:
       this->clear();
@@ -3908,7 +3875,8 @@ namespace GC_namespace {
     )
     if ( m_data_type == GC_type::NOTYPE ) this->set_map();
     ck( where, GC_type::MAP );
-    { map_type const & m{gc.get_map()};
+    { GenericContainer const tmp(gc); // `gc` may be (part of) this container
+      map_type const & m{tmp.get_map()};
       for ( const auto &[fst, snd] : m )
         (*this)[fst].from_gc(snd);
     }
-- 
2.43.0


From 7849e1a61fa7a0cf0675945da823ec7245f0609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:21 +0000
Subject: [PATCH 05/67] fix: keys and messages passed as string_view were read
 past their end

---
 src/GenericContainer.cc | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 0c50b80..3c7f6c6 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2396,7 +2396,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_as_int( where );
+    return this->m_data.m->at(string(key)).get_as_int( where );
   }
 
   int_type
@@ -2428,7 +2428,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_number( where );
+    return this->m_data.m->at(string(key)).get_number( where );
   }
 
   real_type
@@ -2460,7 +2460,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_string( where );
+    return this->m_data.m->at(string(key)).get_string( where );
   }
 
   string_view
@@ -2492,7 +2492,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_real( where );
+    return this->m_data.m->at(string(key)).get_vec_real( where );
   }
 
   vec_real_type const &
@@ -2524,7 +2524,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_complex( where );
+    return this->m_data.m->at(string(key)).get_vec_complex( where );
   }
 
   vec_complex_type const &
@@ -2556,7 +2556,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_string( where );
+    return this->m_data.m->at(string(key)).get_vec_string( where );
   }
 
   vec_string_type const &
@@ -2587,7 +2587,7 @@ namespace GC_namespace {
   bool
   GenericContainer::exists( string_view const s ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(s.data()) };
+    auto const iv{ m_data.m->find(string(s)) };
     return iv != m_data.m->end();
   }
 
@@ -2595,7 +2595,7 @@ namespace GC_namespace {
   GenericContainer::exists( vec_string_type const & vs ) const {
     if (m_data_type != GC_type::MAP) return false;
     return std::any_of(vs.begin(), vs.end(),
-      [this](string_type const & s) { return m_data.m->find(s.data()) != m_data.m->end(); }
+      [this](string_type const & s) { return m_data.m->find(string(s)) != m_data.m->end(); }
     );
   }
   string
@@ -2617,7 +2617,7 @@ namespace GC_namespace {
   bool
   GenericContainer::get_if_exists( string_view const field, bool & value ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::BOOL ) return false;
     value = iv->second.m_data.b;
@@ -2648,7 +2648,7 @@ namespace GC_namespace {
     int_type &        value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2698,7 +2698,7 @@ namespace GC_namespace {
     uint_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2750,7 +2750,7 @@ namespace GC_namespace {
     long_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2800,7 +2800,7 @@ namespace GC_namespace {
     ulong_type &      value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2852,7 +2852,7 @@ namespace GC_namespace {
     real_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2900,7 +2900,7 @@ namespace GC_namespace {
     complex_type &    value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2947,7 +2947,7 @@ namespace GC_namespace {
     string_type &     value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::STRING ) return false;
     value = *iv->second.m_data.s;
@@ -3362,7 +3362,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << " operator(): Cannot find key '" << s <<
@@ -3380,7 +3380,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << "\noperator() const: Cannot find key '" << s <<
@@ -3435,8 +3435,9 @@ namespace GC_namespace {
 
   GenericContainer &
   GenericContainer::operator [] ( string_view const s ) {
+    string const key(s);
     if ( ck( GC_type::MAP ) != 0 ) set_map(); // if not data present allocate!
-    return (*m_data.m)[s.data()];
+    return (*m_data.m)[key];
   }
 
   GenericContainer const &
@@ -3884,7 +3885,7 @@ namespace GC_namespace {
 
   void
   GenericContainer::exception( string_view const where ) {
-    throw std::runtime_error(where.data());
+    throw std::runtime_error(string(where));
   }
 
   // instantate classes
-- 
2.43.0


From 08da6955325c1ccd7f85a0e4c025e6a516ed350c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:35 +0000
Subject: [PATCH 06/67] fix: get_if_exists over a list of names returned only
 values that are not boolean

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 3c7f6c6..799a7d5 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2632,7 +2632,7 @@ namespace GC_namespace {
     if ( m_data_type != GC_type::MAP ) return false;
     map_type & m = *m_data.m;
     for ( string_type const & field : fields ) {
-      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type != GC_type::BOOL ) {
+      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type == GC_type::BOOL ) {
         value = iv->second.m_data.b;
         return true;
       }
-- 
2.43.0


From 90761253ddf26d78628a70efa7c869a7855aed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:49 +0000
Subject: [PATCH 07/67] fix: operator[] on a const map inserted the missing key

---
 src/GenericContainer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 799a7d5..e83e4f2 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3448,7 +3448,12 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    return (*m_data.m)[s.data()];
+    auto const iv{ m_data.m->find(string(s)) };
+    GC_ASSERT(
+      iv != m_data.m->end(),
+      "operator [] const: Cannot find key '" << s << "'!\npossibile keys: " << get_keys()
+    )
+    return iv->second;
   }
 
   /*
-- 
2.43.0


From 39efd02c0da5535f210fc29a96907885031ffdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:49 +0000
Subject: [PATCH 08/67] fix: numeric conversions silently truncated values the
 target type cannot hold

---
 src/GenericContainer.cc        | 55 +++++++++++++++++-----------
 src/GenericContainerPromote.cc | 65 +++++++++++++++++++---------------
 2 files changed, 70 insertions(+), 50 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index e83e4f2..6b66934 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -24,6 +24,7 @@
 #include "GenericContainer/GenericContainer.hh"
 #include <iomanip>
 #include <cmath>
+#include <limits>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -53,11 +54,17 @@ using GC_namespace::real_type;
 static bool isZero0( real_type const x )
 { int const c = fpclassify(x); return FP_ZERO == c || FP_SUBNORMAL == c; }
 
+// `x` is integral and can be stored in the integer type INT
+template <typename INT>
 static bool isInteger( real_type const x )
-{ using std::round; return isZero0( x-round(x) ); }
+{
+  using std::round; using std::ldexp; using LIM = std::numeric_limits<INT>;
+  return isZero0( x-round(x) ) && x >= static_cast<real_type>(LIM::min()) && x < ldexp(1.0,LIM::digits);
+}
 
+template <typename INT>
 static bool isUnsigned( real_type const x )
-{ return isInteger(x) && x >= 0; }
+{ return isInteger<INT>(x) && x >= 0; }
 
 #endif
 
@@ -1599,15 +1606,15 @@ namespace GC_namespace {
       break;
     case GC_type::LONG:
       GC_ASSERT(
-        m_data.l >= 0,
-        where << " in get_value(...) negative `long` value '" << m_data.l
+        m_data.l >= 0 && m_data.l <= std::numeric_limits<uint_type>::max(),
+        where << " in get_value(...) negative or too large `long` value '" << m_data.l
               << "' cannot be converted into `uint_type'"
       )
       v = static_cast<unsigned>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
+        m_data.r >= 0 && isUnsigned<uint_type>(m_data.r),
         where << " in get_value(...) negative or fractional `real` value '" << m_data.r
               << "' cannot be converted into `uint_type'"
       )
@@ -1615,7 +1622,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isUnsigned<uint_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `uint_type'"
       )
@@ -1655,11 +1662,16 @@ namespace GC_namespace {
       v = m_data.i;
       break;
     case GC_type::LONG:
+      GC_ASSERT(
+        static_cast<int_type>(m_data.l) == m_data.l,
+        where << " in get_value(...) `long` value '" << m_data.l
+              << "' cannot be converted into `int_type'"
+      )
       v = static_cast<int>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
+        isInteger<int_type>(m_data.r),
         where << " in get_value(...) fractional `real` value '" << m_data.r
               << "' cannot be converted into `int_type'"
       )
@@ -1667,7 +1679,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isInteger<int_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `int_type'"
       )
@@ -1721,7 +1733,7 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
+        m_data.r >= 0 && isUnsigned<ulong_type>(m_data.r),
         where << " in get_value(...) negative or fractional `real` value '" << m_data.r
               << "' cannot be converted into `ulong_type'"
       )
@@ -1729,7 +1741,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isUnsigned<ulong_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value "
               << to_string(*m_data.c) << " cannot be converted into `ulong_type'"
       )
@@ -1774,7 +1786,7 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
+        isInteger<long_type>(m_data.r),
         where << " in get_value(...) fractional `real` value '" << m_data.r
               << "' cannot be converted into `long_type'"
       )
@@ -1782,7 +1794,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isInteger<long_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `long_type'"
       )
@@ -2658,14 +2670,15 @@ namespace GC_namespace {
       value = iv->second.m_data.i;
       break;
     case GC_type::LONG:
+      if ( static_cast<int_type>(iv->second.m_data.l) != iv->second.m_data.l ) return false;
       value = static_cast<int_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( !isInteger(iv->second.m_data.r) ) return false;
+      if ( !isInteger<int_type>(iv->second.m_data.r) ) return false;
       value = static_cast<int_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+      if ( ! ( isInteger<int_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<int_type>(iv->second.m_data.c->real());
       break;
@@ -2709,15 +2722,15 @@ namespace GC_namespace {
       value = static_cast<uint_type>(iv->second.m_data.i);
       break;
     case GC_type::LONG:
-      if ( iv->second.m_data.l < 0 ) return false;
+      if ( iv->second.m_data.l < 0 || iv->second.m_data.l > std::numeric_limits<uint_type>::max() ) return false;
       value = static_cast<uint_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( ! isUnsigned<uint_type>(iv->second.m_data.r) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+      if ( ! ( isUnsigned<uint_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.c->real());
       break;
@@ -2763,11 +2776,11 @@ namespace GC_namespace {
       value = iv->second.m_data.l;
       break;
     case GC_type::REAL:
-      if ( ! isInteger(iv->second.m_data.r) ) return false;
+      if ( ! isInteger<long_type>(iv->second.m_data.r) ) return false;
       value = static_cast<long_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+      if ( ! ( isInteger<long_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<long_type>(iv->second.m_data.c->real());
       break;
@@ -2815,11 +2828,11 @@ namespace GC_namespace {
       value = static_cast<ulong_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( ! isUnsigned<ulong_type>(iv->second.m_data.r) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+      if ( ! ( isUnsigned<ulong_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.c->real());
       break;
diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 4368a21..5bd1d51 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -24,6 +24,7 @@
 #include "GenericContainer/GenericContainer.hh"
 #include <iomanip>
 #include <cmath>
+#include <limits>
 #include <algorithm>
 
 #ifdef __clang__
@@ -46,11 +47,17 @@ namespace GC_namespace {
   static bool isZero0( real_type const x )
   { int const c{ fpclassify(x) }; return FP_ZERO == c || FP_SUBNORMAL == c; }
 
+  // `x` is integral and can be stored in the integer type INT
+  template <typename INT>
   static bool isInteger( real_type const x )
-  { using std::round; return isZero0( x-round(x) ); }
+  {
+    using std::round; using std::ldexp; using LIM = std::numeric_limits<INT>;
+    return isZero0( x-round(x) ) && x >= static_cast<real_type>(LIM::min()) && x < ldexp(1.0,LIM::digits);
+  }
 
+  template <typename INT>
   static bool isUnsigned( real_type const x )
-  { return isInteger(x) && x >= 0; }
+  { return isInteger<INT>(x) && x >= 0; }
 
   #endif
 
@@ -86,7 +93,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          isInteger<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -110,7 +117,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -119,7 +126,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -128,7 +135,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -149,7 +156,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -158,7 +165,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -212,7 +219,7 @@ namespace GC_namespace {
       case GC_type::LONG:
         lval = m_data.l;
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval && lval >= 0,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -221,7 +228,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -242,7 +249,7 @@ namespace GC_namespace {
       case GC_type::VEC_LONG:
         lval = (*m_data.v_l)[i];
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval && lval >= 0,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -251,7 +258,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -260,7 +267,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -269,7 +276,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned<uint_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         );
@@ -287,7 +294,7 @@ namespace GC_namespace {
       case GC_type::MAT_LONG:
         lval = (*m_data.m_l)[i];
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval && lval >= 0,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -296,7 +303,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -305,7 +312,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -354,7 +361,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          isInteger<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -372,7 +379,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -381,7 +388,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -390,7 +397,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -405,7 +412,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -414,7 +421,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -477,7 +484,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -507,7 +514,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -516,7 +523,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
@@ -525,7 +532,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         );
@@ -552,7 +559,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -561,7 +568,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
-- 
2.43.0


From eea2d46e6750c31788a0bf33a08e6a6d267e9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:04 +0000
Subject: [PATCH 09/67] fix: promotions leaked the old storage when the new one
 could not be allocated

---
 src/GenericContainerPromote.cc | 109 +++++++++++----------------------
 1 file changed, 37 insertions(+), 72 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 5bd1d51..1a8e2a3 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -26,6 +26,7 @@
 #include <cmath>
 #include <limits>
 #include <algorithm>
+#include <memory>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -1295,12 +1296,11 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vec_int(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_i)[i] = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
@@ -1352,21 +1352,19 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vec_long(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_l)[i] = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_vec_long(v_i->size());
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v_l)[i] = static_cast<int_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG: // nothing to do
@@ -1421,30 +1419,27 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b}; // salva puntatore
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b}; // salva puntatore
         m_data_type = GC_type::NOTYPE;
         set_vec_real(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_r)[i] = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i}; // salva puntatore
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i}; // salva puntatore
         m_data_type = GC_type::NOTYPE;
         set_vec_real(v_i->size());
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v_r)[i] = static_cast<real_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l}; // salva puntatore
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l}; // salva puntatore
         m_data_type = GC_type::NOTYPE;
         set_vec_real(v_l->size());
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.v_r)[i] = static_cast<real_type>((*v_l)[i]);
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
@@ -1503,39 +1498,35 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_c)[i] = complex_type( (*v_b)[i] ? 1: 0, 0 );
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_i->size());
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v_c)[i] = complex_type( static_cast<real_type>((*v_i)[i]) , 0 );
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_l->size());
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.v_c)[i] = complex_type( static_cast<real_type>((*v_l)[i]), 0 );
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> const v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_r->size());
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.v_c)[i] = complex_type( (*v_r)[i], 0 );
-        delete v_r;
       }
       break;
     case GC_type::VEC_COMPLEX:
@@ -1574,21 +1565,19 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::MAT_INTEGER:
@@ -1632,39 +1621,35 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_long(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_l)(i,0) = static_cast<long_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_long(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.m_l)(i,0) = (*v_l)[i];
-        delete v_l;
       }
       break;
     case GC_type::MAT_INTEGER:
-      { mat_int_type const * m_i{m_data.m_i};
+      { std::unique_ptr<mat_int_type const> const m_i{m_data.m_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_long(m_i->num_rows(),m_i->num_cols());
         for ( unsigned i{0}; i < m_i->size(); ++i )
           (*m_data.m_l)[i] = static_cast<long_type>((*m_i)[i]);
-        delete m_i;
       }
       break;
     case GC_type::MAT_LONG:
@@ -1712,57 +1697,51 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.m_r)(i,0) = static_cast<real_type>((*v_l)[i]);
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> const v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.m_r)(i,0) = (*v_r)[i];
-        delete v_r;
       }
       break;
     case GC_type::MAT_INTEGER:
-      { mat_int_type const * m_i{m_data.m_i};
+      { std::unique_ptr<mat_int_type const> const m_i{m_data.m_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(m_i->num_rows(),m_i->num_cols());
         for ( unsigned i{0}; i < m_i->size(); ++i )
           (*m_data.m_r)[i] = static_cast<real_type>((*m_i)[i]);
-        delete m_i;
       }
       break;
     case GC_type::MAT_LONG:
-      { mat_long_type const * m_l{m_data.m_l};
+      { std::unique_ptr<mat_long_type const> const m_l{m_data.m_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(m_l->num_rows(),m_l->num_cols());
         for ( unsigned i{0}; i < m_l->size(); ++i )
           (*m_data.m_r)[i] = static_cast<real_type>((*m_l)[i]);
-        delete m_l;
       }
       break;
     case GC_type::MAT_REAL:
@@ -1813,66 +1792,59 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l};
        m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.m_r)(i,0) = static_cast<real_type>((*v_l)[i]);
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> const v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.m_r)(i,0) = (*v_r)[i];
-        delete v_r;
       }
       break;
     case GC_type::MAT_INTEGER:
-      { mat_int_type const * m_i{m_data.m_i};
+      { std::unique_ptr<mat_int_type const> const m_i{m_data.m_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(m_i->num_rows(),m_i->num_cols());
         for ( unsigned i{0}; i < m_i->size(); ++i )
           (*m_data.m_c)[i] = complex_type( static_cast<real_type>((*m_i)[i]), 0 );
-        delete m_i;
       }
       break;
     case GC_type::MAT_LONG:
-      { mat_long_type const * m_l{m_data.m_l};
+      { std::unique_ptr<mat_long_type const> const m_l{m_data.m_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(m_l->num_rows(),m_l->num_cols());
         for ( unsigned i{0}; i < m_l->size(); ++i )
           (*m_data.m_c)[i] = complex_type( static_cast<real_type>((*m_l)[i]), 0 );
-        delete m_l;
       }
       break;
     case GC_type::MAT_REAL:
-      { mat_real_type const * m_r{m_data.m_r};
+      { std::unique_ptr<mat_real_type const> const m_r{m_data.m_r};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(m_r->num_rows(),m_r->num_cols());
         for ( unsigned i{0}; i < m_r->size(); ++i )
           (*m_data.m_c)[i] = complex_type((*m_r)[i],0);
-        delete m_r;
       }
       break;
     case GC_type::MAT_COMPLEX:
@@ -1918,66 +1890,59 @@ namespace GC_namespace {
       { set_vector(1); (*this)[0] = *m_data.s; }
       break;
     case GC_type::VEC_POINTER:
-      { vec_pointer_type const * v_p{m_data.v_p};
+      { std::unique_ptr<vec_pointer_type const> const v_p{m_data.v_p};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_p->size());
         for ( unsigned i{0}; i < v_p->size(); ++i )
           (*m_data.v)[i] = (*v_p)[i];
-        delete v_p;
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v)[i] = (*v_b)[i];
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_vector(static_cast<unsigned>(v_i->size()));
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v)[i] = (*v_i)[i];
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_l->size());
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.v)[i] = (*v_l)[i];
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> const v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_r->size());
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.v)[i] = (*v_r)[i];
-        delete v_r;
       }
       break;
     case GC_type::VEC_COMPLEX:
-      { vec_complex_type const * v_c{m_data.v_c};
+      { std::unique_ptr<vec_complex_type const> const v_c{m_data.v_c};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_c->size());
         for ( unsigned i{0}; i < v_c->size(); ++i )
           (*m_data.v)[i] = (*v_c)[i];
-        delete v_c;
       }
       break;
     case GC_type::VEC_STRING:
-      { vec_string_type const * v_s{m_data.v_s};
+      { std::unique_ptr<vec_string_type const> const v_s{m_data.v_s};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_s->size());
         for ( unsigned i{0}; i < v_s->size(); ++i )
           (*m_data.v)[i] = (*v_s)[i];
-        delete v_s;
       }
       break;
     case GC_type::VECTOR:
-- 
2.43.0


From 8dd0ffb9fd2780e5432f8d702add8ff8ddb95267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:11 +0000
Subject: [PATCH 10/67] fix: promotions to matrices and vectors read or wrote
 elements with the wrong type

---
 src/GenericContainerPromote.cc | 36 ++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 1a8e2a3..8af3338 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -688,7 +688,7 @@ namespace GC_namespace {
       case GC_type::MAT_LONG:    val = { static_cast<real_type>((*m_data.m_l)[i]),0 };         break;
       case GC_type::MAT_REAL:    val = {(*m_data.m_r)[i],0};                                   break;
       case GC_type::MAT_COMPLEX: val = (*m_data.m_c)[i];                                                 break;
-      case GC_type::VECTOR:      val = (*this)(i).get_complex();                                         break;
+      case GC_type::VECTOR:      val = (*this)(i).get_complex_number();                                   break;
 
       case GC_type::NOTYPE:
       case GC_type::POINTER:
@@ -1084,6 +1084,9 @@ namespace GC_namespace {
         std::copy_n( m_r->data(), m_r->num_rows()*m_r->num_cols(), m.data() );
       }
       break;
+    case GC_type::MAT_COMPLEX:
+      m = *m_data.m_c;
+      break;
     case GC_type::VECTOR:
       { vector_type const & v{*m_data.v};
         if ( auto nc{static_cast<unsigned>(v.size())}; nc > 0 ) {
@@ -1111,7 +1114,6 @@ namespace GC_namespace {
     case GC_type::STRING:
     case GC_type::VEC_POINTER:
     case GC_type::VEC_STRING:
-    case GC_type::MAT_COMPLEX:
     case GC_type::MAP:
       GC_DO_ERROR( where << "copyto_mat_complex() cannot promote " << get_type_name() << " to mat_complex_type" )
     }
@@ -1569,7 +1571,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_i)(i,0) = ((*v_b)[i]?1:0);
       }
       break;
     case GC_type::VEC_INTEGER:
@@ -1577,7 +1579,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_i)(i,0) = (*v_i)[i];
       }
       break;
     case GC_type::MAT_INTEGER:
@@ -1623,9 +1625,9 @@ namespace GC_namespace {
     case GC_type::VEC_BOOL:
       { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
-        set_mat_real(static_cast<unsigned>(v_b->size()),1);
+        set_mat_long(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_l)(i,0) = ((*v_b)[i]?1:0);
       }
       break;
     case GC_type::VEC_INTEGER:
@@ -1796,7 +1798,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_c)(i,0) = ((*v_b)[i]?1:0);
       }
       break;
     case GC_type::VEC_INTEGER:
@@ -1804,7 +1806,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_i)[i]);
       }
       break;
     case GC_type::VEC_LONG:
@@ -1812,7 +1814,7 @@ namespace GC_namespace {
        m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_l)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_l)[i]);
       }
       break;
     case GC_type::VEC_REAL:
@@ -1820,7 +1822,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
-          (*m_data.m_r)(i,0) = (*v_r)[i];
+          (*m_data.m_c)(i,0) = (*v_r)[i];
       }
       break;
     case GC_type::MAT_INTEGER:
@@ -1869,25 +1871,25 @@ namespace GC_namespace {
       { set_vector(1); (*this)[0].clear(); } // set data to no type
       break;
     case GC_type::POINTER:
-      { set_vector(1); (*this)[0] = m_data.p; }
+      { pointer_type const tmp{m_data.p}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::BOOL:
-      { set_vector(1); (*this)[0] = m_data.b; }
+      { bool_type const tmp{m_data.b}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::INTEGER:
-      { set_vector(1); (*this)[0] = m_data.i; }
+      { int_type const tmp{m_data.i}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::LONG:
-      { set_vector(1); (*this)[0] = m_data.l; }
+      { long_type const tmp{m_data.l}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::REAL:
-      { set_vector(1); (*this)[0] = m_data.r; }
+      { real_type const tmp{m_data.r}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::COMPLEX:
-      { set_vector(1); (*this)[0] = *m_data.c; }
+      { complex_type const tmp{*m_data.c}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::STRING:
-      { set_vector(1); (*this)[0] = *m_data.s; }
+      { string_type const tmp{*m_data.s}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::VEC_POINTER:
       { std::unique_ptr<vec_pointer_type const> const v_p{m_data.v_p};
-- 
2.43.0


From f6dae4c8af47059f3cd6ed5275558e0a8b2dc613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:12 +0000
Subject: [PATCH 11/67] fix: matrix and vector element reads did not check
 every index against the stored sizes

---
 src/GenericContainer.cc | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 6b66934..367a0eb 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -141,25 +141,23 @@ namespace GC_namespace {
   template <typename TYPE>
   TYPE const &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) const {
-    try {
-      return this->at(i+j*m_num_rows);
-    } catch ( std::exception const & exc ) {
-      GC_DO_ERROR( "mat_type::operator() (" << i << ", " << j << "): " << exc.what() << '\n' );
-    } catch ( ... ) {
-      GC_DO_ERROR( "mat_type::operator() (" << i << ", " << j << "): unknown error\n" );
-    }
+    GC_ASSERT(
+      i < m_num_rows && j < m_num_cols,
+      "mat_type::operator() (" << i << ", " << j << "): out of range, matrix is " <<
+      m_num_rows << " x " << m_num_cols
+    )
+    return this->at( size_type(i) + size_type(j)*size_type(m_num_rows) );
   }
 
   template <typename TYPE>
   TYPE &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) {
-    try {
-      return this->at(i+j*m_num_rows);
-    } catch ( std::exception const & exc ) {
-      GC_DO_ERROR( "mat_type::operator() (" << i << ", " << j << "): " << exc.what() << '\n' );
-    } catch ( ... ) {
-      GC_DO_ERROR( "mat_type::operator() (" << i << ", " << j << "): unknown error\n" );
-    }
+    GC_ASSERT(
+      i < m_num_rows && j < m_num_cols,
+      "mat_type::operator() (" << i << ", " << j << "): out of range, matrix is " <<
+      m_num_rows << " x " << m_num_cols
+    )
+    return this->at( size_type(i) + size_type(j)*size_type(m_num_rows) );
   }
 
   template <typename TYPE>
@@ -1989,6 +1987,7 @@ namespace GC_namespace {
 
   real_type
   GenericContainer::get_number_at( unsigned const i, string_view const where ) const {
+    GC_ASSERT( i < get_num_elements(), where << " get_number_at( " << i << " ) const, out of range" )
     switch (m_data_type) {
     case GC_type::VEC_BOOL:    return (*m_data.v_b)[i] ? 1 : 0;
     case GC_type::VEC_INTEGER: return (*m_data.v_i)[i];
@@ -2021,6 +2020,7 @@ namespace GC_namespace {
 
   complex_type
   GenericContainer::get_complex_number_at( unsigned const i, string_view const where ) const {
+    GC_ASSERT( i < get_num_elements(), where << " get_complex_number_at( " << i << " ) const, out of range" )
     switch (m_data_type) {
     case GC_type::VEC_BOOL:    return {static_cast<real_type>( (*m_data.v_b)[i]?1:0 ),0};
     case GC_type::VEC_INTEGER: return {static_cast<real_type>( (*m_data.v_i)[i] ),0};
@@ -3136,7 +3136,7 @@ namespace GC_namespace {
   GenericContainer::get_real_at( unsigned const i, unsigned const j, string_view const where ) const  {
     ck(where,GC_type::MAT_REAL);
     GC_ASSERT(
-      i < m_data.v_r->size(),
+      i < m_data.m_r->num_rows() && j < m_data.m_r->num_cols(),
       where << " get_real_at( " << i << ", " << j << " ) const, out of range"
     )
     return (*m_data.m_r)(i,j);
@@ -3189,6 +3189,10 @@ namespace GC_namespace {
   complex_type const &
   GenericContainer::get_complex_at( unsigned const i, unsigned const j, string_view const where ) const  {
     ck(where,GC_type::MAT_COMPLEX);
+    GC_ASSERT(
+      i < m_data.m_c->num_rows() && j < m_data.m_c->num_cols(),
+      where << " get_complex_at( " << i << ", " << j << " ) const, out of range"
+    )
     return (*m_data.m_c)(i,j);
   }
 
-- 
2.43.0


From 07fb832b0be10b9b98b8f643dc3be2ea97236b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:27 +0000
Subject: [PATCH 12/67] fix: element accessors on an empty container or on a
 vector used a wrong type or size

---
 src/GenericContainer.cc | 45 ++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 367a0eb..569061a 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -742,8 +742,12 @@ namespace GC_namespace {
 
   void
   GenericContainer::ck_or_set( string_view const where, TypeAllowed const tp ) {
-    if ( m_data_type == GC_type::NOTYPE ) m_data_type = tp;
-    else                                  ck(where,tp);
+    if ( m_data_type == GC_type::NOTYPE ) {
+      m_data.l    = 0; // no stale bits of a previous content
+      m_data_type = tp;
+    } else {
+      ck(where,tp);
+    }
   }
 
   /*
@@ -3017,9 +3021,13 @@ namespace GC_namespace {
 
   int_type &
   GenericContainer::get_int_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_int(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
-              m_data_type == GC_type::VEC_INTEGER ) promote_to_mat_int();
+              m_data_type == GC_type::VEC_INTEGER ) {
+      // promoted to a single column, check before touching the data
+      GC_ASSERT( i < get_num_elements() && j == 0, "get_int_at( " << i << ", " << j << " ) out of range" )
+      promote_to_mat_int();
+    }
     GC_ASSERT(
       GC_type::MAT_INTEGER == m_data_type,
       "get_int_at( " << i << ", " << j << " ) bad data type" <<
@@ -3068,10 +3076,14 @@ namespace GC_namespace {
 
   long_type &
   GenericContainer::get_long_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_long(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
-              m_data_type == GC_type::VEC_LONG ) promote_to_mat_long();
+              m_data_type == GC_type::VEC_LONG ) {
+      // promoted to a single column, check before touching the data
+      GC_ASSERT( i < get_num_elements() && j == 0, "get_long_at( " << i << ", " << j << " ) out of range" )
+      promote_to_mat_long();
+    }
     GC_ASSERT(
       GC_type::MAT_LONG == m_data_type,
       "get_long_at( " << i << ", " << j << " ) bad data type" <<
@@ -3118,11 +3130,15 @@ namespace GC_namespace {
 
   real_type &
   GenericContainer::get_real_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG ||
-              m_data_type == GC_type::VEC_REAL ) promote_to_mat_real();
+              m_data_type == GC_type::VEC_REAL ) {
+      // promoted to a single column, check before touching the data
+      GC_ASSERT( i < get_num_elements() && j == 0, "get_real_at( " << i << ", " << j << " ) out of range" )
+      promote_to_mat_real();
+    }
     GC_ASSERT(
       GC_type::MAT_REAL == m_data_type,
       "get_real_at( " << i << ", " << j << " ) bad data type" <<
@@ -3170,13 +3186,22 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::get_complex_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG    ||
               m_data_type == GC_type::VEC_REAL    ||
               m_data_type == GC_type::VEC_COMPLEX ||
-              m_data_type == GC_type::MAT_REAL ) promote_to_mat_complex();
+              m_data_type == GC_type::MAT_REAL ) {
+      // vectors are promoted to a single column, check before touching the data
+      bool const in_range{
+        m_data_type == GC_type::MAT_REAL ?
+        i < m_data.m_r->num_rows() && j < m_data.m_r->num_cols() :
+        i < get_num_elements() && j == 0
+      };
+      GC_ASSERT( in_range, "get_complex_at( " << i << ", " << j << " ) out of range" )
+      promote_to_mat_complex();
+    }
     GC_ASSERT(
       GC_type::MAT_COMPLEX == m_data_type,
       "get_complex_at( " << i << ", " << j << " ) bad data type" <<
-- 
2.43.0


From 0798a421dfd7f4f3696d0de0d6920ebda17a95b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:55 +0000
Subject: [PATCH 13/67] fix: printing from two threads raced on the match
 results of the header pattern

---
 src/GenericContainer.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 569061a..b5af560 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -257,8 +257,7 @@ namespace GC_namespace {
 
   class Pcre_for_GC {
 
-    std::regex  reCompiled;
-    std::smatch reMatches;
+    std::regex reCompiled;
 
   public:
 
@@ -269,7 +268,8 @@ namespace GC_namespace {
     ~Pcre_for_GC() = default;
 
     int
-    exec( string_view const str_in, string_type matches[4] ) {
+    exec( string_view const str_in, string_type matches[4] ) const {
+      std::smatch reMatches; // local: shared by all the threads which print
       if ( string const str(str_in); std::regex_match( str, reMatches, reCompiled ) ) {
         for ( size_t i{0}; i < reMatches.size(); ++i ) matches[i] = reMatches[i].str();
         return static_cast<int>(reMatches.size());
@@ -278,7 +278,7 @@ namespace GC_namespace {
     }
   };
 
-  static Pcre_for_GC pcre_for_GC;
+  static Pcre_for_GC const pcre_for_GC;
 
   #endif
 
-- 
2.43.0


From 7c9274b451cb59f1f8c2c9e77a988ecc7aea26da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:19 +0000
Subject: [PATCH 14/67] fix: saving a complex matrix ran into the string case
 and short or negative buffers were not handled

---
 src/GenericContainerSerialize.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index c8b0958..a36b674 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -33,7 +33,7 @@ namespace GC_namespace {
 
   static
   uint32_t
-  int8_to_buffer( int8_t in, uint8_t * buffer, uint32_t const available ) {
+  int8_to_buffer( int8_t in, uint8_t * buffer, int32_t const available ) {
     GC_ASSERT( available >= 1, msg );
     buffer[0] = *reinterpret_cast<uint8_t*>(&in);
     return sizeof(int8_t);
@@ -41,7 +41,7 @@ namespace GC_namespace {
 
   static
   uint32_t
-  uint32_to_buffer( uint32_t in, uint8_t * buffer, uint32_t const available ) {
+  uint32_to_buffer( uint32_t in, uint8_t * buffer, int32_t const available ) {
     GC_ASSERT( available >= 4, msg );
     buffer[0] = static_cast<uint8_t>(in & 0xFF); in >>= 8;
     buffer[1] = static_cast<uint8_t>(in & 0xFF); in >>= 8;
@@ -52,13 +52,13 @@ namespace GC_namespace {
 
   static
   uint32_t
-  int32_to_buffer( int32_t in, uint8_t * buffer, uint32_t const available ) {
+  int32_to_buffer( int32_t in, uint8_t * buffer, int32_t const available ) {
     return uint32_to_buffer( *reinterpret_cast<uint32_t*>(&in), buffer, available );
   }
 
   static
   uint32_t
-  uint64_to_buffer( uint64_t in, uint8_t * buffer, uint32_t const available ) {
+  uint64_to_buffer( uint64_t in, uint8_t * buffer, int32_t const available ) {
     GC_ASSERT( available >= 8, msg );
     buffer[0] = static_cast<uint8_t>(in&0xFF); in >>= 8;
     buffer[1] = static_cast<uint8_t>(in&0xFF); in >>= 8;
@@ -73,13 +73,13 @@ namespace GC_namespace {
 
   static
   uint32_t
-  int64_to_buffer( int64_t in, uint8_t * buffer, uint32_t const available ) {
+  int64_to_buffer( int64_t in, uint8_t * buffer, int32_t const available ) {
     return uint64_to_buffer( *reinterpret_cast<uint64_t*>(&in), buffer, available );
   }
 
   static
   uint32_t
-  double_to_buffer( double const in, uint8_t * buffer, uint32_t const available ) {
+  double_to_buffer( double const in, uint8_t * buffer, int32_t const available ) {
     union { double f; uint64_t i; } tmp;
     tmp.f = in;
     uint64_to_buffer( tmp.i, buffer, available );
@@ -186,6 +186,8 @@ namespace GC_namespace {
 
   int32_t
   GenericContainer::serialize( std::vector<uint8_t> & buffer ) const {
+    int32_t const needed{ this->mem_size() };
+    if ( static_cast<int32_t>(buffer.size()) < needed ) buffer.resize( static_cast<size_t>(needed) );
     int32_t const sz{ static_cast<int32_t>(buffer.size()) };
     return this->serialize( sz, buffer.data() );
   }
@@ -327,6 +329,7 @@ namespace GC_namespace {
         nb = double_to_buffer( c.imag(), buffer, available );
         buffer += nb; available -= nb;
       }
+      break;
     case GC_type::VEC_STRING:
       nb = int32_to_buffer( static_cast<int32_t>(m_data.v_s->size()), buffer, available );
       buffer += nb; available -= nb;
-- 
2.43.0


From 4ce29b52532e2793197460632db7bbd53d07249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:33 +0000
Subject: [PATCH 15/67] fix: loading a truncated or corrupted binary image read
 outside the buffer

---
 src/GenericContainerSerialize.cc | 172 +++++++++++++++++++------------
 1 file changed, 107 insertions(+), 65 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index a36b674..2360019 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -30,6 +30,7 @@ namespace GC_namespace {
   using std::memcpy;
 
   static constexpr char msg[]{"GenericContainer::serialize, memory exausted use method mem_size() to estimate memory requirement"};
+  static constexpr char msg_in[]{"GenericContainer::de_serialize, the buffer is truncated or corrupted"};
 
   static
   uint32_t
@@ -90,14 +91,16 @@ namespace GC_namespace {
 
   static
   uint32_t
-  buffer_to_uint8( uint8_t const * buffer, uint8_t * out ) {
+  buffer_to_uint8( uint8_t const * buffer, uint8_t * out, int32_t const available ) {
+    GC_ASSERT( available >= 1, msg_in );
     *out = buffer[0];
     return sizeof(uint8_t);
   }
 
   static
   uint32_t
-  buffer_to_uint32( uint8_t const * buffer, uint32_t * out ) {
+  buffer_to_uint32( uint8_t const * buffer, uint32_t * out, int32_t const available ) {
+    GC_ASSERT( available >= 4, msg_in );
     uint32_t const tmp0{ buffer[0] };
     uint32_t const tmp1{ buffer[1] };
     uint32_t const tmp2{ buffer[2] };
@@ -108,13 +111,14 @@ namespace GC_namespace {
 
   static
   uint32_t
-  buffer_to_int32( uint8_t const * buffer, int32_t * out ) {
-    return buffer_to_uint32( buffer, reinterpret_cast<uint32_t*>(out) );
+  buffer_to_int32( uint8_t const * buffer, int32_t * out, int32_t const available ) {
+    return buffer_to_uint32( buffer, reinterpret_cast<uint32_t*>(out), available );
   }
 
   static
   uint32_t
-  buffer_to_uint64( uint8_t const * buffer, uint64_t * out ) {
+  buffer_to_uint64( uint8_t const * buffer, uint64_t * out, int32_t const available ) {
+    GC_ASSERT( available >= 8, msg_in );
     uint64_t const tmp0{ buffer[0] };
     uint64_t const tmp1{ buffer[1] };
     uint64_t const tmp2{ buffer[2] };
@@ -129,19 +133,47 @@ namespace GC_namespace {
 
   static
   uint32_t
-  buffer_to_int64( uint8_t const * buffer, int64_t * out ) {
-    return buffer_to_uint64( buffer, reinterpret_cast<uint64_t*>(out) );
+  buffer_to_int64( uint8_t const * buffer, int64_t * out, int32_t const available ) {
+    return buffer_to_uint64( buffer, reinterpret_cast<uint64_t*>(out), available );
   }
 
   static
   uint32_t
-  buffer_to_double( uint8_t const * buffer, double * out ) {
+  buffer_to_double( uint8_t const * buffer, double * out, int32_t const available ) {
     union { double f; uint64_t i; } tmp;
-    buffer_to_uint64( buffer, &tmp.i );
+    buffer_to_uint64( buffer, &tmp.i, available );
     *out = tmp.f;
     return sizeof(double);
   }
 
+  //! read the number of stored elements and check that so many elements can lie in the rest of the buffer
+  static
+  uint32_t
+  buffer_to_count( uint8_t const * buffer, int32_t * out, int32_t const elem_size, int32_t const available ) {
+    uint32_t const nb{ buffer_to_int32( buffer, out, available ) };
+    GC_ASSERT( *out >= 0 && *out <= (available-static_cast<int32_t>(nb))/elem_size, msg_in );
+    return nb;
+  }
+
+  //! check that a matrix can lie in the rest of the buffer
+  static
+  void
+  check_mat( int32_t const nr, int32_t const nc, int32_t const elem_size, int32_t const available ) {
+    GC_ASSERT( nr >= 0 && nc >= 0 && available >= 0, msg_in );
+    GC_ASSERT( static_cast<int64_t>(nr) * static_cast<int64_t>(nc) <= available/elem_size, msg_in );
+  }
+
+  //! read a string stored as length (including the ending 0) and characters
+  static
+  uint32_t
+  buffer_to_string( uint8_t const * buffer, string & out, int32_t const available ) {
+    int32_t len;
+    uint32_t const nb{ buffer_to_count( buffer, &len, 1, available ) };
+    GC_ASSERT( len >= 1, msg_in );
+    out.assign( reinterpret_cast<char const*>(buffer+nb), static_cast<size_t>(len-1) );
+    return nb+static_cast<uint32_t>(len);
+  }
+
   int32_t
   GenericContainer::mem_size() const {
     constexpr int32_t header_size { sizeof(int32_t) };
@@ -377,167 +409,178 @@ namespace GC_namespace {
   int32_t
   GenericContainer::de_serialize( int32_t buffer_dim, uint8_t const * buffer ) {
     //int_type ptr_size = 8;
-    int32_t sz, nb, nbyte;
+    int32_t sz, nb, nbyte{0};
     double  bf;
 
     this->clear();
 
     int32_t nr, nc, i32;
-    nbyte = nb = buffer_to_int32( buffer, &i32 );
-    buffer += nb;
+    nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
+    buffer += nb; nbyte += nb;
+
+    GC_ASSERT(
+      i32 >= static_cast<int32_t>(GC_type::NOTYPE) && i32 <= static_cast<int32_t>(GC_type::MAP),
+      "GenericContainer::de_serialize, bad type code " << i32
+    )
 
     switch (static_cast<TypeAllowed>(i32)) {
     case GC_type::NOTYPE:
       m_data_type = GC_type::NOTYPE;
       break;
     case GC_type::BOOL:
-      m_data_type = GC_type::BOOL;
       uint8_t b;
-      nb = buffer_to_uint8( buffer, &b );
+      nb = buffer_to_uint8( buffer, &b, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       m_data.b = b > 0;
+      m_data_type = GC_type::BOOL;
       break;
     case GC_type::INTEGER:
-      m_data_type = GC_type::INTEGER;
-      nb = buffer_to_int32( buffer, &m_data.i );
+      nb = buffer_to_int32( buffer, &m_data.i, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      m_data_type = GC_type::INTEGER;
       break;
     case GC_type::LONG:
-      m_data_type = GC_type::LONG;
-      nb = buffer_to_int64( buffer, &m_data.l );
+      nb = buffer_to_int64( buffer, &m_data.l, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      m_data_type = GC_type::LONG;
       break;
     case GC_type::REAL:
-      m_data_type = GC_type::REAL;
-      nb = buffer_to_double( buffer, &m_data.r );
+      nb = buffer_to_double( buffer, &m_data.r, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      m_data_type = GC_type::REAL;
       break;
-    case GC_type::POINTER:
+    case GC_type::POINTER: // a raw pointer is not restored, skip it
+      GC_ASSERT( buffer_dim-nbyte >= 8, msg_in );
+      buffer += 8; nbyte += 8;
       break;
     case GC_type::STRING:
-      nb = buffer_to_int32( buffer, &i32 );
-      buffer += nb; nbyte += nb;
       allocate_string();
-      *m_data.s = reinterpret_cast<char const*>(buffer);
-      buffer += i32; nbyte += i32;
+      nb = buffer_to_string( buffer, *m_data.s, buffer_dim-nbyte );
+      buffer += nb; nbyte += nb;
       break;
     case GC_type::COMPLEX:
       allocate_complex();
-      nb = buffer_to_double( buffer, &bf ); m_data.c->real(bf);
+      nb = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); m_data.c->real(bf);
       buffer += nb; nbyte += nb;
-      nb = buffer_to_double( buffer, &bf ); m_data.c->imag(bf);
+      nb = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); m_data.c->imag(bf);
       buffer += nb; nbyte += nb;
       break;
-    case GC_type::VEC_POINTER:
+    case GC_type::VEC_POINTER: // raw pointers are not restored, skip them
+      nb = buffer_to_count( buffer, &i32, 8, buffer_dim-nbyte );
+      buffer += nb; nbyte += nb;
+      buffer += 8*i32; nbyte += 8*i32;
       break;
     case GC_type::VEC_BOOL:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_count( buffer, &i32, 1, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       allocate_vec_bool(0);
       m_data.v_b->reserve(i32);
       for ( int32_t i = 0; i < i32; ++i ) {
         uint8_t i8;
-        buffer_to_uint8( buffer, &i8 );
+        buffer_to_uint8( buffer, &i8, buffer_dim-nbyte );
         ++nb; ++buffer; ++nbyte;
         m_data.v_b->push_back( i8 > 0 );
       }
       break;
     case GC_type::VEC_INTEGER:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_count( buffer, &i32, sizeof(int_type), buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       allocate_vec_int(i32);
       for ( auto & i : *m_data.v_i ) {
-        sz = buffer_to_int32( buffer, &i );
+        sz = buffer_to_int32( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_LONG:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_count( buffer, &i32, sizeof(long_type), buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       allocate_vec_long(i32);
       for ( auto & i : *m_data.v_l ) {
-        sz = buffer_to_int64( buffer, &i );
+        sz = buffer_to_int64( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_REAL:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_count( buffer, &i32, sizeof(real_type), buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       allocate_vec_real(i32);
       for ( auto & r : *m_data.v_r ) {
-        sz = buffer_to_double( buffer, &r );
+        sz = buffer_to_double( buffer, &r, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_COMPLEX:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_count( buffer, &i32, sizeof(complex_type), buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       allocate_vec_complex(i32);
       for ( auto & c : *m_data.v_c ) {
-        sz = buffer_to_double( buffer, &bf ); c.real(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.real(bf);
         nb += sz; buffer += sz; nbyte += sz;
-        sz = buffer_to_double( buffer, &bf ); c.imag(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_INTEGER:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      allocate_mat_int( nr, nc );
+      check_mat( nr, nc, sizeof(int_type), buffer_dim-nbyte );
+      allocate_mat_int( static_cast<unsigned>(nr), static_cast<unsigned>(nc) );
       for ( auto & i : *m_data.m_i ) {
-        sz = buffer_to_int32( buffer, &i );
+        sz = buffer_to_int32( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_LONG:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      allocate_mat_long( nr, nc );
+      check_mat( nr, nc, sizeof(long_type), buffer_dim-nbyte );
+      allocate_mat_long( static_cast<unsigned>(nr), static_cast<unsigned>(nc) );
       for ( auto & i : *m_data.m_l ) {
-        sz = buffer_to_int64( buffer, &i );
+        sz = buffer_to_int64( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_REAL:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      allocate_mat_real( nr, nc );
+      check_mat( nr, nc, sizeof(real_type), buffer_dim-nbyte );
+      allocate_mat_real( static_cast<unsigned>(nr), static_cast<unsigned>(nc) );
       for ( auto & r : *m_data.m_r ) {
-        sz = buffer_to_double( buffer, &r );
+        sz = buffer_to_double( buffer, &r, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_COMPLEX:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      allocate_mat_complex( nr, nc );
+      check_mat( nr, nc, sizeof(complex_type), buffer_dim-nbyte );
+      allocate_mat_complex( static_cast<unsigned>(nr), static_cast<unsigned>(nc) );
       for ( auto & c : *m_data.m_c ) {
-        sz = buffer_to_double( buffer, &bf ); c.real(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.real(bf);
         nb += sz; buffer += sz; nbyte += sz;
-        sz = buffer_to_double( buffer, &bf ); c.imag(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
+      break;
     case GC_type::VEC_STRING:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_count( buffer, &i32, 5, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       allocate_vec_string(i32);
       for ( auto & s : *m_data.v_s ) {
-        nb = buffer_to_int32( buffer, &i32 );
+        nb = buffer_to_string( buffer, s, buffer_dim-nbyte );
         buffer += nb; nbyte += nb;
-        s = reinterpret_cast<char const*>(buffer);
-        buffer += i32; nbyte += i32;
       }
       break;
     case GC_type::VECTOR:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_count( buffer, &i32, 4, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       allocate_vector(i32);
       for ( auto & S : *m_data.v ) {
@@ -546,14 +589,13 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAP:
-      nb = buffer_to_int32( buffer, &i32 ); nr = i32;
+      nb = buffer_to_count( buffer, &nr, 9, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       allocate_map();
       for ( int32_t i = 0; i < nr; ++i ) {
-        nb = buffer_to_int32( buffer, &i32 );
+        string_type key;
+        nb = buffer_to_string( buffer, key, buffer_dim-nbyte );
         buffer += nb; nbyte += nb;
-        string_type key = reinterpret_cast<char const*>(buffer);
-        buffer += i32; nbyte += i32;
         //std::cout << "key[" << i << "] = " << key << '\n';
         sz = (*m_data.m)[key].de_serialize( buffer_dim-nbyte, buffer );
         buffer += sz; nbyte += sz;
-- 
2.43.0


From 524f6834661fccd5a8a380194967cbcfd277a968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:17 +0000
Subject: [PATCH 16/67] fix: collapse raised an error on mixed vectors, changed
 nesting and rounded long integers

---
 src/GenericContainerCollapse.cc | 39 +++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/GenericContainerCollapse.cc b/src/GenericContainerCollapse.cc
index 1238a24..f38a5c5 100755
--- a/src/GenericContainerCollapse.cc
+++ b/src/GenericContainerCollapse.cc
@@ -24,6 +24,7 @@
 #include "GenericContainer/GenericContainer.hh"
 #include <iomanip>
 #include <cmath>
+#include <limits>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -42,6 +43,28 @@ namespace GC_namespace {
   //         |_____|___/
   */
 
+  // true if `v` can be converted to `real_type` without changing its value
+  static
+  bool
+  exact_as_real( long_type const v ) {
+    constexpr long_type max_exact{ long_type(1) << std::numeric_limits<real_type>::digits };
+    return v >= -max_exact && v <= max_exact;
+  }
+
+  static
+  bool
+  exact_as_real( GenericContainer const & gc ) {
+    switch ( gc.get_type() ) {
+      case GC_type::LONG:
+        return exact_as_real( gc.get_long() );
+      case GC_type::VEC_LONG:
+        for ( long_type const v : gc.get_vec_long() ) if ( !exact_as_real(v) ) return false;
+        return true;
+      default:
+        return true;
+    }
+  }
+
   void
   GenericContainer::collapse() {
     switch (m_data_type) {
@@ -55,6 +78,8 @@ namespace GC_namespace {
         vector_type & v{*m_data.v};
         if ( v.empty() ) break; // empty vector nothing to do
         auto max_sub_type{GC_type::NOTYPE};
+        auto min_sub_type{GC_type::MAP};
+        bool all_exact{true};
         bool can_collapse{true};
         bool all_string{true};
         int_type last_nelem{-1};
@@ -64,6 +89,8 @@ namespace GC_namespace {
           auto ti{vi.get_type()};
           if ( ti != GC_type::STRING ) all_string = false;
           if ( max_sub_type < ti ) max_sub_type = ti;
+          if ( min_sub_type > ti ) min_sub_type = ti;
+          if ( !exact_as_real(vi) ) all_exact = false;
           int_type ne{ static_cast<int_type>(vi.get_num_elements()) };
           if ( last_nelem >= 0 && can_collapse ) {
             can_collapse = last_nelem == ne;
@@ -79,6 +106,18 @@ namespace GC_namespace {
           *this = tmp;
           break;
         }
+        // only numbers collapse to a vector, only vectors of numbers collapse to a matrix
+        if ( max_sub_type <= GC_type::COMPLEX ) {
+          if ( min_sub_type < GC_type::BOOL ) break;
+        } else {
+          if ( min_sub_type < GC_type::VEC_BOOL ) break;
+        }
+        // do not collapse if a long integer is not representable as real
+        bool const to_real{
+          max_sub_type == GC_type::REAL     || max_sub_type == GC_type::COMPLEX ||
+          max_sub_type == GC_type::VEC_REAL || max_sub_type == GC_type::VEC_COMPLEX
+        };
+        if ( to_real && !all_exact ) break;
         switch ( max_sub_type ) {
           case GC_type::BOOL: {
             vec_bool_type tmp; tmp.reserve(v.size());
-- 
2.43.0


From 2921a89724e7ad22afe068444fd25405cc2d7ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:50 +0000
Subject: [PATCH 17/67] fix: printing a pointer left the output stream in
 hexadecimal mode

---
 src/GenericContainer.cc       | 13 +++++++++++--
 src_json_interface/to_json.cc | 13 +++++++++++--
 src_yaml_interface/to_yaml.cc | 13 +++++++++++--
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index b5af560..ab1446f 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3507,6 +3507,15 @@ namespace GC_namespace {
   //  |_|
   */
 
+  // hexadecimal value of a pointer, the format flags of the output stream are not touched
+  static
+  string
+  hex_pointer( pointer_type const p ) {
+    ostringstream data;
+    data << std::hex << std::showbase << reinterpret_cast<uintptr_t>(p);
+    return data.str();
+  }
+
   void
   GenericContainer::dump(
     ostream_type &    stream,
@@ -3519,7 +3528,7 @@ namespace GC_namespace {
       stream << prefix << "null\n";
       break;
     case GC_type::POINTER:
-      stream << prefix << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+      stream << prefix << hex_pointer(m_data.p) << '\n';
       break;
     case GC_type::BOOL:
       stream << prefix << (m_data.b?"true":"false") << '\n';
@@ -3543,7 +3552,7 @@ namespace GC_namespace {
       { vec_pointer_type const & v{*m_data.v_p};
         for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
           stream << prefix << "vec_pointer(" << i << "): "
-                 << std::hex << std::showbase << reinterpret_cast<uintptr_t>(v[i]) << '\n';
+                 << hex_pointer(v[i]) << '\n';
       }
       break;
     case GC_type::VEC_BOOL:
diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index c2ed0bf..bfd1175 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -45,6 +45,15 @@ namespace GC_namespace {
   //         |_____|__/
   */
 
+  // hexadecimal value of a pointer, the format flags of the output stream are not touched
+  static
+  string
+  hex_pointer( pointer_type const p ) {
+    ostringstream data;
+    data << std::hex << std::showbase << reinterpret_cast<uintptr_t>(p);
+    return data.str();
+  }
+
   void
   GenericContainer::to_json(
     ostream_type & stream,
@@ -180,13 +189,13 @@ namespace GC_namespace {
         break;
       }
       case GC_type::POINTER:
-        stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p);
+        stream << hex_pointer(m_data.p);
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
         char const * pre{"[ "};
         for ( auto const & vi : V ) {
-          stream << pre << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi);
+          stream << pre << hex_pointer(vi);
           pre = ", ";
         }
         stream << " ]";
diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 4e5dfcb..3ae361a 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -45,6 +45,15 @@ namespace GC_namespace {
   //         |_____|___/
   */
 
+  // hexadecimal value of a pointer, the format flags of the output stream are not touched
+  static
+  string
+  hex_pointer( pointer_type const p ) {
+    ostringstream data;
+    data << std::hex << std::showbase << reinterpret_cast<uintptr_t>(p);
+    return data.str();
+  }
+
   void
   GenericContainer::to_yaml(
     ostream_type & stream,
@@ -189,13 +198,13 @@ namespace GC_namespace {
         break;
       }
       case GC_type::POINTER:
-        stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+        stream << hex_pointer(m_data.p) << '\n';
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
         stream << '\n';
         for ( auto const & vi : V ) {
-          stream << prefix << "- " << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi) << '\n';
+          stream << prefix << "- " << hex_pointer(vi) << '\n';
         }
         break;
       }
-- 
2.43.0


From 2fb2b749dc54dd3f7795f7b8e237ff1132889b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:29 +0000
Subject: [PATCH 18/67] fix: to_json wrote invalid documents for empty values,
 complex matrices, control characters and special keys

---
 src/GenericContainer.cc       |  7 +++++--
 src_json_interface/to_json.cc | 30 ++++++++++++++++++++----------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index ab1446f..b09a2ec 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -95,10 +95,13 @@ namespace GC_namespace {
       else if ( c == '\n' ) { stream << "\\n"; }
       else if ( c == '\r' ) { stream << "\\r"; }
       else if ( c == '\t' ) { stream << "\\t"; }
-      else if ( c == '\v' ) { stream << "\\v"; }
       else if ( c == '\b' ) { stream << "\\b"; }
-      else if ( c == '\a' ) { stream << "\\a"; }
       else if ( c == '\\' ) { stream << "\\\\"; }
+      else if ( static_cast<unsigned char>(c) < 0x20 ) {
+        // the other control characters, in a form valid both for JSON and YAML
+        char const hex[]{"0123456789abcdef"};
+        stream << "\\u00" << hex[(c>>4)&0xF] << hex[c&0xF];
+      }
       else                    stream << c;
     }
     stream << '"';
diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index bfd1175..1c44548 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -85,7 +85,8 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_BOOL: {
         vec_bool_type const & v{*m_data.v_b};
-        string_view pre{"[ "};
+        string_view pre{""};
+        stream << "[ ";
         for ( bool vi : v ) {
           stream << pre << (vi?"true":"false");
           pre = ", ";
@@ -94,7 +95,8 @@ namespace GC_namespace {
         break;
       }
       #define GC_PRINT_VECTOR(VDATA)              \
-      string_view pre = "[ ";                     \
+        string_view pre = "";                     \
+        stream << "[ ";                           \
         for ( auto const & vi : v )               \
           { stream << pre << VDATA; pre = ", "; } \
         stream << " ]"
@@ -121,7 +123,8 @@ namespace GC_namespace {
       }
       case GC_type::VEC_STRING: {
         vec_string_type const & v{*m_data.v_s};
-        char const * pre = "[ ";
+        char const * pre = "";
+        stream << "[ ";
         for ( auto const & vi : v )
           { stream << pre; string_escape(stream,vi); pre = ", "; }
         stream << " ]";
@@ -138,6 +141,8 @@ namespace GC_namespace {
             pre = ",\n";
           }
           stream << '\n' << prefix << "]";
+        } else {
+          stream << "[ ]";
         }
         break;
       }
@@ -147,11 +152,15 @@ namespace GC_namespace {
           stream << '\n' << prefix;
           char const * pre{"{\n"};
           for ( auto const & im : m ) {
-            stream << pre << prefix << indent << '"' << im.first <<  '"' << ": ";
+            stream << pre << prefix << indent;
+            string_escape( stream, im.first );
+            stream << ": ";
             im.second.to_json(stream,prefix1);
             pre = ",\n";
           }
           stream << '\n' << prefix << "}";
+        } else {
+          stream << "{ }";
         }
         break;
       }
@@ -159,14 +168,14 @@ namespace GC_namespace {
         unsigned NR{M.num_rows()};                   \
         unsigned NC{M.num_cols()};                   \
         stream << "[\n";                             \
-        string pre0 = prefix1+"[ ";                  \
         for ( unsigned j{0}; j < NC; ++j ) {         \
-          string pre{pre0};                          \
+          stream << (j>0?",\n":"") << prefix1 << "[ "; \
+          char const * pre{""};                      \
           for ( unsigned i{0}; i < NR; ++i )         \
             { stream << pre << MDATA; pre = ", "; }  \
-          pre0 = " ],\n"+prefix1+"[ ";               \
+          stream << " ]";                            \
         }                                            \
-        stream << " ]\n" << prefix << "]"
+        stream << '\n' << prefix << "]"
 
       case GC_type::MAT_INTEGER: {
         mat_int_type const & M{*m_data.m_i};
@@ -185,7 +194,7 @@ namespace GC_namespace {
       }
       case GC_type::MAT_COMPLEX: {
         mat_complex_type const & M{*m_data.m_c};
-        GC_PRINT_MATRIX("'" << to_string(M(i,j)) << "'");
+        GC_PRINT_MATRIX('"' << to_string(M(i,j)) << '"');
         break;
       }
       case GC_type::POINTER:
@@ -193,7 +202,8 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
-        char const * pre{"[ "};
+        char const * pre{""};
+        stream << "[ ";
         for ( auto const & vi : V ) {
           stream << pre << hex_pointer(vi);
           pre = ", ";
-- 
2.43.0


From 0231a6bc403aee2927d2adcf320697434af82dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:37 +0000
Subject: [PATCH 19/67] fix: from_json merged with the old content and
 truncated strings and big integers

---
 src_json_interface/from_json.cc | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index 5c109e8..e1a6668 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -64,25 +64,20 @@ namespace GC_namespace {
       gc = value.GetBool();
     } else if ( value.IsInt() ) {
       gc = value.GetInt();
-    } else if ( value.IsUint() ) {
-      gc = value.GetUint();
     } else if ( value.IsInt64() ) {
       gc = value.GetInt64();
-    } else if ( value.IsUint64() ) {
-      gc = value.GetUint64();
-    } else if ( value.IsDouble() ) {
-      gc = value.GetDouble();
+    } else if ( value.IsNumber() ) {
+      gc = value.GetDouble(); // real or integer too big for long_type
     } else if ( value.IsString() ) {
-      gc = value.GetString();
+      gc.set_string( std::string_view( value.GetString(), value.GetStringLength() ) );
     } else if ( value.IsArray() ) {
       vector_type & V{ gc.set_vector( value.Size() ) };
-      for ( rapidjson::SizeType i{0}; i < value.Size(); ++i )
-        decode_json( V[i], value[i] );
+      for ( rapidjson::SizeType i{0}; ok && i < value.Size(); ++i )
+        ok = decode_json( V[i], value[i] );
     } else if ( value.IsObject() ) {
       map_type & M{ gc.set_map() };
-      map<std::string, GenericContainer> object;
       for ( auto it = value.MemberBegin(); ok && it != value.MemberEnd(); ++it ) {
-        GenericContainer & gc1 = M[it->name.GetString()];
+        GenericContainer & gc1 = M[std::string( it->name.GetString(), it->name.GetStringLength() )];
         ok = decode_json(gc1,it->value);
       }
     } else {
@@ -114,8 +109,14 @@ namespace GC_namespace {
     //document.Accept(writer);    // Accept() traverses the DOM and generates Handler events.
     //puts(sb.GetString());
 
-    bool ok = decode_json( *this, document );
-    if ( ok ) this->collapse();
+    // replace the content only when everything succeed
+    GenericContainer tmp;
+    bool const ok{ decode_json( tmp, document ) };
+    if ( ok ) {
+      tmp.collapse();
+      std::swap( m_data, tmp.m_data );
+      std::swap( m_data_type, tmp.m_data_type );
+    }
     return ok;
   }
 
-- 
2.43.0


From 404b1f1b5db9e4d4e5bfd5523b754b3b8535510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:08 +0000
Subject: [PATCH 20/67] fix: to_yaml lost empty values and special keys,
 from_yaml merged with the old content

---
 src_yaml_interface/from_yaml.cc | 10 ++++++--
 src_yaml_interface/to_yaml.cc   | 42 ++++++++++++++++++++++++++-------
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/src_yaml_interface/from_yaml.cc b/src_yaml_interface/from_yaml.cc
index 6f15fc3..6942611 100755
--- a/src_yaml_interface/from_yaml.cc
+++ b/src_yaml_interface/from_yaml.cc
@@ -117,8 +117,14 @@ namespace GC_namespace {
     try {
       // deserialize the loaded file contents.
       fkyaml::node root = fkyaml::node::deserialize(stream);
-      ok = YAML_to_GC( root, *this );
-      if ( ok ) this->collapse();
+      // replace the content only when everything succeed
+      GenericContainer tmp;
+      ok = YAML_to_GC( root, tmp );
+      if ( ok ) {
+        tmp.collapse();
+        std::swap( m_data, tmp.m_data );
+        std::swap( m_data_type, tmp.m_data_type );
+      }
     }
     catch ( std::exception const & e ) {
       std::cerr << "GenericContainer::from_yaml: " << e.what() << '\n';
diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 3ae361a..c50475a 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -24,6 +24,7 @@
 #include "GenericContainer/GenericContainer.hh"
 #include <iomanip>
 #include <cmath>
+#include <cctype>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -54,6 +55,18 @@ namespace GC_namespace {
     return data.str();
   }
 
+  // write a key, quoted when YAML would not read it back as the same string
+  static
+  void
+  yaml_key( ostream_type & stream, string const & key ) {
+    bool plain{ !key.empty() && !std::isdigit( static_cast<unsigned char>(key[0]) ) };
+    for ( unsigned char const c : key ) plain = plain && ( c == '_' || ( c < 0x80 && std::isalnum(c) ) );
+    for ( char const * word : { "null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE" } )
+      plain = plain && key != word;
+    if ( plain ) stream << key;
+    else         string_escape( stream, key );
+  }
+
   void
   GenericContainer::to_yaml(
     ostream_type & stream,
@@ -84,7 +97,8 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_BOOL: {
         vec_bool_type const & v{*m_data.v_b};
-        char const * pre = "[ ";
+        char const * pre = "";
+        stream << "[ ";
         for ( bool vi : v ) {
           stream << pre << (vi?"true":"false");
           pre = ", ";
@@ -93,7 +107,8 @@ namespace GC_namespace {
         break;
       }
       #define GC_PRINT_VECTOR                  \
-        char const * pre = "[ ";               \
+        char const * pre = "";                 \
+        stream << "[ ";                        \
         for ( auto const & vi : v )            \
           { stream << pre << vi; pre = ", "; } \
         stream << " ]\n"
@@ -119,7 +134,8 @@ namespace GC_namespace {
       }
       case GC_type::VEC_STRING: {
         vec_string_type const & v{*m_data.v_s};
-        char const * pre = "[ ";
+        char const * pre = "";
+        stream << "[ ";
         for ( auto const & vi : v )
           { stream << pre; string_escape(stream,vi); pre = ", "; }
         stream << " ]\n";
@@ -129,7 +145,7 @@ namespace GC_namespace {
         vector_type const & v{*m_data.v};
         string prefix2{prefix}; prefix2 += "  ";
         if ( v.empty() ) {
-          stream << "null\n";
+          stream << "[ ]\n";
         } else {
           stream << '\n';
           for ( auto const & vi : v ) {
@@ -142,12 +158,14 @@ namespace GC_namespace {
       case GC_type::MAP: {
         map_type const & m{*m_data.m};
         if ( m.empty() ) {
-          stream << "null\n";
+          stream << "{ }\n";
         } else {
           stream << '\n';
           string prefix2{prefix}; prefix2 += "  ";
           for ( auto const & im : m ) {
-            stream << prefix << im.first << ": ";
+            stream << prefix;
+            yaml_key( stream, im.first );
+            stream << ": ";
             im.second.to_yaml(stream,prefix2);
           }
         }
@@ -156,10 +174,14 @@ namespace GC_namespace {
       #define GC_PRINT_MATRIX                        \
         unsigned NR{M.num_rows()};                   \
         unsigned NC{M.num_cols()};                   \
+        if ( NC == 0 ) {                             \
+          stream << "[ ]\n";                         \
+          break;                                     \
+        }                                            \
         stream << '\n';                              \
         for ( unsigned j{0}; j < NC; ++j ) {         \
-          stream << prefix;                          \
-          char const * pre = "- [ ";                 \
+          stream << prefix << "- [ ";                \
+          char const * pre = "";                     \
           for ( unsigned i{0}; i < NR; ++i )         \
             { stream << pre << M(i,j); pre = ", "; } \
           stream << " ]\n";                          \
@@ -202,6 +224,10 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
+        if ( V.empty() ) {
+          stream << "[ ]\n";
+          break;
+        }
         stream << '\n';
         for ( auto const & vi : V ) {
           stream << prefix << "- " << hex_pointer(vi) << '\n';
-- 
2.43.0


From de0f896477d3e28e67ec5772bf7ea89c19235451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:28 +0000
Subject: [PATCH 21/67] fix: TOML truncated long integers in arrays, merged
 with the old content and crashed on empty values

---
 src_toml_interface/from_toml.cc | 27 ++++++++++++++++++++++-----
 src_toml_interface/to_toml.cc   |  2 +-
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index 70ab7cb..1cae202 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -154,9 +154,20 @@ namespace GC_namespace {
 
       } else if (is_integer_array) {
 
-        GC::vec_int_type & V{ gc.set_vec_int() };
-        V.reserve( N );
-        for ( const auto & value : *ary ) V.emplace_back( value.as_integer()->get() );
+        bool is_int32{ true };
+        for ( const auto & value : *ary ) {
+          std::int64_t const tmp{ value.as_integer()->get() };
+          if ( tmp < numeric_limits<int32_t>::min() || tmp > numeric_limits<int32_t>::max() ) is_int32 = false;
+        }
+        if ( is_int32 ) {
+          GC::vec_int_type & V{ gc.set_vec_int() };
+          V.reserve( N );
+          for ( const auto & value : *ary ) V.emplace_back( static_cast<int_type>(value.as_integer()->get()) );
+        } else {
+          GC::vec_long_type & V{ gc.set_vec_long() };
+          V.reserve( N );
+          for ( const auto & value : *ary ) V.emplace_back( value.as_integer()->get() );
+        }
 
       } else if (is_float_array) {
 
@@ -189,8 +200,14 @@ namespace GC_namespace {
     bool ok{true};
     try {
       // deserialize the loaded file contents.
-      ok = TOML_to_GC( toml::parse(stream), *this );
-      if ( ok ) this->collapse();
+      // replace the content only when everything succeed
+      GenericContainer tmp;
+      ok = TOML_to_GC( toml::parse(stream), tmp );
+      if ( ok ) {
+        tmp.collapse();
+        std::swap( m_data, tmp.m_data );
+        std::swap( m_data_type, tmp.m_data_type );
+      }
     }
     catch ( std::exception const & e ) {
       std::cerr << "GenericContainer::from_toml: " << e.what() << '\n';
diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index d8a1218..5d11aa4 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -63,7 +63,7 @@ namespace GC_namespace {
     std::unique_ptr<toml::array> empty;
     switch ( gc.get_type() ) {
       case GC_type::NOTYPE:
-        return empty;
+        GC_DO_ERROR( "an empty container cannot be written in TOML" )
       case GC_type::BOOL:    return NEW_UNIQUE( toml::value<bool>,    gc.get_bool() );
       case GC_type::INTEGER: return NEW_UNIQUE( toml::value<int64_t>, gc.get_int()  );
       case GC_type::LONG:    return NEW_UNIQUE( toml::value<int64_t>, gc.get_long() );
-- 
2.43.0


From ba04f0b50baedcd35816f52c0245a712ed5401e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:39 +0000
Subject: [PATCH 22/67] fix: get_map_bool, get_map_string and
 get_map_vec_string on a const map changed an empty value

---
 src/GenericContainer.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index b09a2ec..6b4a525 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2383,7 +2383,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(string(key)).get_bool( where );
+    return (*this)(key,where).get_bool( where );
   }
 
   bool_type
@@ -2406,7 +2406,7 @@ namespace GC_namespace {
     string_view     const   where
   ) const {
     string const who{ must_exists( keys, where ) };
-    return this->m_data.m->at(who).get_bool( where );
+    return (*this)(who,where).get_bool( where );
   }
 
   int_type
@@ -2479,7 +2479,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(string(key)).get_string( where );
+    return (*this)(key,where).get_string( where );
   }
 
   string_view
@@ -2502,7 +2502,7 @@ namespace GC_namespace {
     string_view     const   where
   ) const {
     string const who{ must_exists( keys, where ) };
-    return this->m_data.m->at(who).get_string( where );
+    return (*this)(who,where).get_string( where );
   }
 
   vec_real_type const &
@@ -2575,7 +2575,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(string(key)).get_vec_string( where );
+    return (*this)(key,where).get_vec_string( where );
   }
 
   vec_string_type const &
@@ -2598,7 +2598,7 @@ namespace GC_namespace {
     string_view     const   where
   ) const {
     string const who{ must_exists( keys, where ) };
-    return this->m_data.m->at(who).get_vec_string( where );
+    return (*this)(who,where).get_vec_string( where );
   }
 
   // --------------------------------------------------------------
-- 
2.43.0


From 3913b514bccf703cddea489ad95a22ea6c4d78fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:34 +0000
Subject: [PATCH 23/67] fix: from_json reports a medium that fails while the
 document is read

---
 src_json_interface/from_json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index e1a6668..042b05b 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -99,7 +99,7 @@ namespace GC_namespace {
     document.ParseStream(isw);
 
     // Controllare eventuali errori di parsing
-    if (document.HasParseError()) {
+    if ( document.HasParseError() || stream.bad() ) {
       std::cerr << "Errore di parsing in JSON_to_GC\n";
       return false;
     }
-- 
2.43.0


From 490cfe211b6fffc6bb579e7e8357cf4b2e4f6cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:34 +0000
Subject: [PATCH 24/67] fix: from_toml reports an unreadable stream and does
 not need a seekable one

---
 src_toml_interface/from_toml.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index 1cae202..fc014c8 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -199,10 +199,13 @@ namespace GC_namespace {
   GenericContainer::from_toml( istream_type & stream ) {
     bool ok{true};
     try {
+      GC_ASSERT( stream.good(), "the input stream cannot be read" )
+      // read everything first: the parser needs a stream that can be rewound
+      string const text{ istreambuf_iterator<char>(stream), istreambuf_iterator<char>() };
       // deserialize the loaded file contents.
       // replace the content only when everything succeed
       GenericContainer tmp;
-      ok = TOML_to_GC( toml::parse(stream), tmp );
+      ok = TOML_to_GC( toml::parse(text), tmp );
       if ( ok ) {
         tmp.collapse();
         std::swap( m_data, tmp.m_data );
-- 
2.43.0


From 416f91b6e89e20014d7d9ba7567003e545984dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:34 +0000
Subject: [PATCH 25/67] fix: to_toml does not emit multi-line strings, which
 lose a leading newline

---
 src_toml_interface/to_toml.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index 5d11aa4..f09f9d6 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -194,7 +194,9 @@ namespace GC_namespace {
     try {
       // deserialize the loaded file contents.
       std::unique_ptr<toml::node> root{ GC_to_TOML( *this ) };
-      if ( ok ) stream << toml::toml_formatter(*root);
+      // a multi line string loses its leading newline, write only single line strings
+      constexpr toml::format_flags flags{ toml::toml_formatter::default_flags & ~toml::format_flags::allow_multi_line_strings };
+      if ( ok ) stream << toml::toml_formatter(*root,flags);
     }
     catch ( std::exception const & e ) {
       std::cerr << "GenericContainer::to_toml: " << e.what() << '\n';
-- 
2.43.0


From 3d6840fa08aacd7c9cdb82b73aa6b85c51c65f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:34 +0000
Subject: [PATCH 26/67] fix: from_yaml reports an unreadable stream or a
 violated parser assertion, and does not need a seekable stream

---
 src_yaml_interface/from_yaml.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src_yaml_interface/from_yaml.cc b/src_yaml_interface/from_yaml.cc
index 6942611..017d7b5 100755
--- a/src_yaml_interface/from_yaml.cc
+++ b/src_yaml_interface/from_yaml.cc
@@ -43,6 +43,9 @@
 #include <cstdlib>
 
 //#include "yaml-cpp/yaml.h"
+// a malformed document must raise an error, not break the invariants of the parser
+#define FK_YAML_ASSERT(COND) \
+  do { if ( !(COND) ) throw std::runtime_error( "malformed YAML document" ); } while ( false )
 #include "fkYAML/node.hpp"
 
 namespace GC_namespace {
@@ -115,8 +118,11 @@ namespace GC_namespace {
   GenericContainer::from_yaml( istream_type & stream ) {
     bool ok{true};
     try {
+      GC_ASSERT( stream.good(), "the input stream cannot be read" )
+      // read everything first: the parser needs a stream that can be rewound
+      string const text{ istreambuf_iterator<char>(stream), istreambuf_iterator<char>() };
       // deserialize the loaded file contents.
-      fkyaml::node root = fkyaml::node::deserialize(stream);
+      fkyaml::node root = fkyaml::node::deserialize(text);
       // replace the content only when everything succeed
       GenericContainer tmp;
       ok = YAML_to_GC( root, tmp );
-- 
2.43.0


From c468b7bcd618ef740bd12da558f095c9d64f7eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:34 +0000
Subject: [PATCH 27/67] fix: a double-quoted YAML scalar ending in an escaped
 backslash is closed by its quote

---
 .../fkYAML/detail/input/lexical_analyzer.hpp               | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
index 130a9d3..5ec2f81 100644
--- a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
@@ -812,12 +812,9 @@ private:
                 // * even number of backslashes -> double quotation mark IS NOT escaped (e.g., "\\"")
                 uint32_t backslash_counts = 0;
                 const char* p = m_token_begin_itr + (pos - 1);
-                do {
-                    if (*p-- != '\\') {
-                        break;
-                    }
+                while (p >= m_token_begin_itr && *p-- == '\\') {
                     ++backslash_counts;
-                } while (p != m_token_begin_itr);
+                }
                 is_closed = ((backslash_counts & 1u) == 0); // true: even, false: odd
             }
 
-- 
2.43.0


From f0a8279b2fb9a390a356513a5eb79488ceaa190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:34 +0000
Subject: [PATCH 28/67] fix: malformed YAML no longer uses an empty context
 stack

---
 .../fkYAML/detail/input/deserializer.hpp         | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
index 2e9c586..20ae2f1 100644
--- a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
@@ -108,6 +108,20 @@ class basic_deserializer {
         basic_node_type* p_node {nullptr};
     };
 
+    /// @brief The stack of parse contexts. A malformed document can ask for the top of an empty stack.
+    struct context_stack : public std::deque<parse_context> {
+        parse_context& back() {
+            if FK_YAML_UNLIKELY (this->empty()) {
+                throw fkyaml::exception("malformed YAML document.");
+            }
+            return std::deque<parse_context>::back();
+        }
+        void pop_back() {
+            this->back();
+            std::deque<parse_context>::pop_back();
+        }
+    };
+
     /// @brief Definitions of state types for expected flow token hints.
     enum class flow_token_state_t : std::uint8_t {
         NEEDS_VALUE_OR_SUFFIX,     //!< Either value or flow suffix (`]` or `}`)
@@ -1316,7 +1330,7 @@ private:
     /// The currently focused YAML node.
     basic_node_type* mp_current_node {nullptr};
     /// The stack of parse contexts.
-    std::deque<parse_context> m_context_stack {};
+    context_stack m_context_stack {};
     /// The current depth of flow contexts.
     uint32_t m_flow_context_depth {0};
     /// The set of YAML directives.
-- 
2.43.0


From 5350e6621ad39d7653946dab384abd01d5061329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:34 +0000
Subject: [PATCH 29/67] fix: YAML input cut inside a UTF-8/16/32 unit is
 rejected instead of read past its end

---
 .../fkYAML/detail/input/input_adapter.hpp     | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp b/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
index af74b16..8da969a 100644
--- a/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
@@ -97,6 +97,9 @@ private:
         while (current != m_end) {
             const auto first = static_cast<uint8_t>(*current++);
             const uint32_t num_bytes = utf8::get_num_bytes(first);
+            if FK_YAML_UNLIKELY (std::distance(current, m_end) + 1 < static_cast<std::ptrdiff_t>(num_bytes)) {
+                throw fkyaml::invalid_encoding("Truncated UTF-8 encoding.", {first});
+            }
 
             switch (num_bytes) {
             case 1:
@@ -161,6 +164,9 @@ private:
 
         // Assume the input characters are all ASCII characters.
         // That's the most probably the case.
+        if FK_YAML_UNLIKELY (std::distance(m_begin, m_end) % 2 != 0) {
+            throw fkyaml::invalid_encoding("Truncated UTF-16 encoding.", std::array<char16_t, 2> {{0, 0}});
+        }
         m_buffer.reserve(std::distance(m_begin, m_end) / 2);
 
         int shift_bits[2] {0, 0};
@@ -190,8 +196,15 @@ private:
                 }
             }
 
+            if (encoded_buf_size == 0) {
+                break; // only CRs were left.
+            }
+
             uint32_t consumed_size = 0;
             utf8::from_utf16(encoded_buffer, utf8_buffer, consumed_size, utf8_buf_size);
+            if FK_YAML_UNLIKELY (consumed_size > encoded_buf_size) {
+                throw fkyaml::invalid_encoding("Truncated UTF-16 encoding.", encoded_buffer);
+            }
 
             if FK_YAML_LIKELY (consumed_size == 1) {
                 encoded_buffer[0] = encoded_buffer[1];
@@ -211,6 +224,9 @@ private:
 
         // Assume the input characters are all ASCII characters.
         // That's the most probably the case.
+        if FK_YAML_UNLIKELY (std::distance(m_begin, m_end) % 4 != 0) {
+            throw fkyaml::invalid_encoding("Truncated UTF-32 encoding.", char32_t(0));
+        }
         m_buffer.reserve(std::distance(m_begin, m_end) / 4);
 
         int shift_bits[4] {0, 0, 0, 0};
@@ -302,6 +318,9 @@ public:
         while (current != m_end) {
             const auto first = static_cast<uint8_t>(*current++);
             const uint32_t num_bytes = utf8::get_num_bytes(first);
+            if FK_YAML_UNLIKELY (std::distance(current, m_end) + 1 < static_cast<std::ptrdiff_t>(num_bytes)) {
+                throw fkyaml::invalid_encoding("Truncated UTF-8 encoding.", {first});
+            }
 
             switch (num_bytes) {
             case 1:
-- 
2.43.0


From 942a322f6dc984007d2062dd8480eef346e2f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:18 +0000
Subject: [PATCH 30/67] fix: merge takes the values to merge before it turns an
 empty destination into a map

---
 src/GenericContainer.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 6b4a525..9f580e2 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3933,13 +3933,12 @@ namespace GC_namespace {
         << " in merge data expected to be of type: " << to_string(GC_type::MAP)
         << " but data stored is of type: " << gc.get_type_name()
     )
+    GenericContainer const tmp(gc); // `gc` may be (part of) this container
     if ( m_data_type == GC_type::NOTYPE ) this->set_map();
     ck( where, GC_type::MAP );
-    { GenericContainer const tmp(gc); // `gc` may be (part of) this container
-      map_type const & m{tmp.get_map()};
-      for ( const auto &[fst, snd] : m )
-        (*this)[fst].from_gc(snd);
-    }
+    map_type const & m{tmp.get_map()};
+    for ( const auto &[fst, snd] : m )
+      (*this)[fst].from_gc(snd);
   }
 
   void
-- 
2.43.0


From 8f4a8294e24965f6b2ab3fbfb50535eda8e711af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:34 +0000
Subject: [PATCH 31/67] fix: a table whose last line has no newline is not read
 as if that line were there twice

---
 src/GenericContainerSupport.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index 9b51fdc..44c8fa1 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -92,8 +92,7 @@ namespace GC_namespace {
   ) {
     unsigned nl = 0;
     do {
-      if ( stream.fail() ) return 0;
-      getline( stream, line );
+      if ( !getline( stream, line ) ) { line.clear(); return 0; }
       ++nl;
     } while ( line.find_first_of(commentchars) != string_type::npos ); // ????????????
     return nl;
@@ -110,8 +109,7 @@ namespace GC_namespace {
     unsigned nl      = 0;
     bool     comment = true;
     while ( comment ) {
-      if ( stream.fail() ) return 0;
-      getline( stream, line );
+      if ( !getline( stream, line ) ) { line.clear(); return 0; }
       comment = line.empty() ||
                 line.find_first_of(commentchars) != string_type::npos;
       if ( ptr_pars != nullptr && comment && line.length() > 2 && line[1] == '!' ) {
-- 
2.43.0


From 7906661befa9debc3d55d5d37fa61e75f76a5629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:37 +0000
Subject: [PATCH 32/67] fix: reading a table reports a medium that fails
 instead of returning a shorter table

---
 src/GenericContainerSupport.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index 44c8fa1..cb7c71b 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -205,6 +205,7 @@ namespace GC_namespace {
       for ( unsigned icol = 0; icol < ncol; ++icol )
         data[icol].get_vec_real().push_back(atof(tokens[icol].data()) );
     }
+    GC_ASSERT( !stream.bad(), "read_formatted_data, failed reading after line: " << nline )
     return *this;
   }
 
@@ -258,6 +259,7 @@ namespace GC_namespace {
       for ( unsigned icol = 0; icol < ncol; ++icol )
         pcolumns[icol]->push_back(atof(tokens[icol].data()) );
     }
+    GC_ASSERT( !stream.bad(), "read_formatted_data2, failed reading after line: " << nline )
     return *this;
   }
 
-- 
2.43.0


From a2352b16dfe4e4d1aacdf48f46003d59373fb001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:40 +0000
Subject: [PATCH 33/67] fix: read_formatted_data2 refuses two columns with the
 same name instead of mixing their values

---
 src/GenericContainerSupport.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index cb7c71b..2d103fb 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -234,6 +234,10 @@ namespace GC_namespace {
 
     GenericContainer & data = (*this)["data"];
     for ( unsigned icol = 0; icol < ncol; ++icol ) {
+      GC_ASSERT(
+        icol == 0 || !data.exists(headers[icol]),
+        "read_formatted_data2, column `" << headers[icol] << "` is duplicated"
+      )
       GenericContainer & ICOL = data[headers[icol]];
       ICOL.set_vec_real();
       pcolumns[icol] = &ICOL.get_vec_real();
-- 
2.43.0


From ffe92b12d827f4a3fba62990ec6446fcde015005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:43 +0000
Subject: [PATCH 34/67] fix: writing a table checks that there is a column for
 every header

---
 src/GenericContainerTables.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainerTables.cc b/src/GenericContainerTables.cc
index 24a178e..fa0acfc 100755
--- a/src/GenericContainerTables.cc
+++ b/src/GenericContainerTables.cc
@@ -39,6 +39,8 @@ namespace GC_namespace {
   ) {
 
     auto const ncol{ static_cast<unsigned>(headers.size()) };
+    GC_ASSERT( data.size() >= ncol, "write_table, found " << ncol << " headers and " << data.size() << " columns" )
+    if ( ncol == 0 ) return;
     auto const nrow{ (data[0].get_num_elements()) };
 
     stream << headers[0];
@@ -64,6 +66,8 @@ namespace GC_namespace {
 
     auto const ncol{ (data.num_cols()) };
     auto const nrow{ (data.num_rows()) };
+    GC_ASSERT( headers.size() >= ncol, "write_table, found " << headers.size() << " headers and " << ncol << " columns" )
+    if ( ncol == 0 ) return;
 
     stream << headers[0];
     for ( unsigned icol{1}; icol < ncol; ++icol )
@@ -86,9 +90,9 @@ namespace GC_namespace {
   ) {
 
     auto const ncol{ static_cast<unsigned>(headers.size()) };
-    auto const nrow{ (data[0].get_num_elements()) };
-
+    GC_ASSERT( data.size() >= ncol, "write_table_formatted, found " << ncol << " headers and " << data.size() << " columns" )
     if ( ncol == 0 ) return;
+    auto const nrow{ (data[0].get_num_elements()) };
 
     // calcolo lunghezza massima stringhe headers
     unsigned ml { 0 };
@@ -127,6 +131,7 @@ namespace GC_namespace {
     auto const nrow{ (data.num_rows()) };
 
     if ( ncol == 0 ) return;
+    GC_ASSERT( !headers.empty(), "write_table_formatted, no headers for " << ncol << " columns" )
 
     // calcolo lunghezza massima stringhe headers
     unsigned ml { 0 };
-- 
2.43.0


From a3e5dc5e2a63dc80988d05ac5ac8fc886881b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:27 +0000
Subject: [PATCH 35/67] fix: reading a table over a previous one does not keep
 its rows or columns

---
 src/GenericContainerSupport.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index 2d103fb..f3df49b 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -182,6 +182,7 @@ namespace GC_namespace {
     tokenizeString( line, headers, delimiters ); // tokenize line
     unsigned const ncol { static_cast<unsigned>(headers.size()) };
 
+    (*this)["data"].clear(); // drop the rows of a table read before
     vector_type & data { (*this)["data"].set_vector(ncol) };
     for ( unsigned icol{0}; icol < ncol; ++icol ) data[icol].set_vec_real();
 
@@ -233,6 +234,7 @@ namespace GC_namespace {
     vector<vec_real_type*> pcolumns(ncol);
 
     GenericContainer & data = (*this)["data"];
+    data.clear(); // drop the columns of a table read before
     for ( unsigned icol = 0; icol < ncol; ++icol ) {
       GC_ASSERT(
         icol == 0 || !data.exists(headers[icol]),
-- 
2.43.0


From 66bbbef5235f74a2f56bf209921f0745487084e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:08 +0000
Subject: [PATCH 36/67] fix: GC_delete releases the container and does not
 leave it selected

---
 src/GenericContainerInterface_C.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index bf24c5a..14f817b 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -242,7 +242,12 @@ GC_mem_ptr( char const id[] ) {
 
 int
 GC_delete( char const id[] ) {
-  gc_explorer.erase(id);
+  auto const pos{ gc_explorer.find(id) };
+  if ( pos != gc_explorer.end() ) {
+    if ( gc_active == pos->second ) gc_active = nullptr;
+    delete pos->second;
+    gc_explorer.erase(pos);
+  }
   return GENERIC_CONTAINER_OK;
 }
 
-- 
2.43.0


From 256d9554d9a31345554dfaee441d2b0d2cadb6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:12 +0000
Subject: [PATCH 37/67] fix: GC_get_next_key does not follow an iterator into a
 map that was not chosen or has changed

---
 src/GenericContainerInterface_C.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 14f817b..8ab2ff0 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -59,8 +59,9 @@ namespace GC_namespace {
     GenericContainer         data;
     deque<GenericContainer*> head;
 
-    map_type         * ptr_map{nullptr};
-    map_type::iterator map_iterator;
+    // keys found by `init_map_key`, the map may change while they are visited
+    vec_string_type map_keys;
+    size_t          map_key_pos{0};
 
   public:
 
@@ -169,15 +170,17 @@ namespace GC_namespace {
   GenericContainerExplorer::init_map_key() {
     int const ok{ check( GC_type::MAP ) };
     if ( ok == GENERIC_CONTAINER_OK ) {
-      ptr_map = &head.back()->get_map();
-      map_iterator = ptr_map->begin();
+      vec_string_type keys;
+      head.back()->get_keys( keys );
+      map_keys.swap( keys );
+      map_key_pos = 0;
     }
     return ok;
   }
 
   string_view
   GenericContainerExplorer::next_map_key() {
-    if ( map_iterator != ptr_map->end() ) return map_iterator++->first;
+    if ( map_key_pos < map_keys.size() ) return map_keys[map_key_pos++];
     return "";
   }
 
-- 
2.43.0


From fb2d7507c5692d8571da1fcb343cba621fc92d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:15 +0000
Subject: [PATCH 38/67] fix: reading through the C interface neither changes
 the data nor lets C++ exceptions out

---
 src/GenericContainerInterface_C.cc | 99 +++++++++++++++++-------------
 1 file changed, 58 insertions(+), 41 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 8ab2ff0..14fbd38 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -202,6 +202,15 @@ catch(std::runtime_error & err) {               \
   return GENERIC_CONTAINER_NO_DATA;             \
 }
 
+// for the functions that return a value: `B` is returned if `A` cannot be obtained
+#define GC_TRY_GET(A,B)                         \
+try { return A; }                               \
+catch(std::runtime_error & err) {               \
+  std::cerr << "Error: " << err.what() << "\n"; \
+} catch (...) {                                 \
+}                                               \
+return B
+
 using namespace ::GC_namespace;
 
 typedef std::map<string_type,GenericContainerExplorer*>  MAP;
@@ -210,6 +219,21 @@ typedef std::pair<string_type,GenericContainerExplorer*> MAP_DATA;
 static MAP                        gc_explorer;
 static GenericContainerExplorer * gc_active = nullptr;
 
+// the element pointed by the head, for reading only
+static
+GenericContainer const *
+gc_top() { return static_cast<GenericContainerExplorer const *>(gc_active)->top(); }
+
+static
+complex_type
+gc_complex_at( int const i, int const j ) {
+  GenericContainer const & gc{ *gc_top() };
+  auto const ii{ static_cast<unsigned>(i) };
+  auto const jj{ static_cast<unsigned>(j) };
+  if ( gc.get_type() == GC_type::MAT_REAL ) return { gc.get_real_at( ii, jj, "" ), 0 };
+  return gc.get_complex_at( ii, jj, "" );
+}
+
 extern "C" {
 
 int
@@ -349,14 +373,14 @@ GC_dump() {
 int
 GC_get_type() {
   if ( gc_active == nullptr ) return -1;
-  return static_cast<int>(gc_active->top()->get_type());
+  GC_TRY_GET( static_cast<int>(gc_top()->get_type()), -1 );
 }
 
 char const *
 GC_get_type_name() {
   static char const * empty{""};
   if ( gc_active == nullptr ) return empty;
-  return gc_active->top()->get_type_name().data();
+  GC_TRY_GET( gc_top()->get_type_name().data(), empty );
 }
 
 //..............................................................................
@@ -408,54 +432,56 @@ GC_set_string( char const a[] ) {
 int
 GC_get_bool() {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_bool() ? 1 : 0;
+  GC_TRY_GET( gc_top()->get_bool() ? 1 : 0, 0 );
 }
 
 int
 GC_get_int() {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_int();
+  GC_TRY_GET( gc_top()->get_int(), 0 );
 }
 
 long
 GC_get_long() {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_long();
+  GC_TRY_GET( gc_top()->get_long(), 0 );
 }
 
 double
 GC_get_real( ) {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_real();
+  GC_TRY_GET( gc_top()->get_real(), 0 );
 }
 
 c_complex_type
 GC_get_complex( ) {
   c_complex_type tmp{ 0, 0 };
-  if ( gc_active != nullptr ) {
-    complex_type const t = gc_active->top()->get_complex();
+  if ( gc_active == nullptr ) return tmp;
+  try {
+    complex_type const t = gc_top()->get_complex();
     tmp.real = t.real();
     tmp.imag = t.imag();
+  } catch (...) {
   }
   return tmp;
 }
 
 double
 GC_get_complex_re( ) {
-  if ( gc_active != nullptr ) return gc_active->top()->get_complex().real();
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_GET( gc_top()->get_complex().real(), 0 );
 }
 
 double
 GC_get_complex_im( ) {
-  if ( gc_active != nullptr ) return gc_active->top()->get_complex().imag();
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_GET( gc_top()->get_complex().imag(), 0 );
 }
 
 char const *
 GC_get_string( ) {
   if ( gc_active == nullptr ) return nullptr;
-  return gc_active->top()->get_string().data();
+  GC_TRY_GET( gc_top()->get_string().data(), nullptr );
 }
 
 //..............................................................................
@@ -507,48 +533,45 @@ GC_push_string( char const a[] ) {
 int
 GC_get_bool_at_pos( int const pos ) {
   if ( gc_active == nullptr ) return 0;
-  bool const val{ gc_active->top()->get_bool_at(pos) };
-  return val ? 1 : 0;
+  GC_TRY_GET( gc_top()->get_bool_at( static_cast<unsigned>(pos), "" ) ? 1 : 0, 0 );
 }
 
 int
 GC_get_int_at_pos( int const pos ) {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_int_at( static_cast<unsigned>(pos) );
+  GC_TRY_GET( gc_top()->get_int_at( static_cast<unsigned>(pos), "" ), 0 );
 }
 
 double
 GC_get_real_at_pos( int const pos ) {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_number_at( static_cast<unsigned>(pos) );
+  GC_TRY_GET( gc_top()->get_number_at( static_cast<unsigned>(pos) ), 0 );
 }
 
 c_complex_type
 GC_get_complex_at_pos( int const pos ) {
   c_complex_type tmp;
   tmp.real = tmp.imag = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), tmp.real, tmp.imag );
+  if ( gc_active == nullptr ) return tmp;
+  try { gc_top()->get_complex_number_at( static_cast<unsigned>(pos), tmp.real, tmp.imag ); }
+  catch (...) { tmp.real = tmp.imag = 0; }
   return tmp;
 }
 
 double
 GC_get_complex_real_at_pos( int const pos ) {
-  real_type re = 0, im = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
-  return re;
+  return GC_get_complex_at_pos( pos ).real;
 }
 
 double
 GC_get_complex_imag_at_pos( int const pos ) {
-  real_type re = 0, im = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
-  return im;
+  return GC_get_complex_at_pos( pos ).imag;
 }
 
 char const *
 GC_get_string_at_pos( int const pos ) {
   if ( gc_active == nullptr ) return nullptr;
-  return gc_active->top()->get_string_at(pos).data();
+  GC_TRY_GET( gc_top()->get_string_at( static_cast<unsigned>(pos), "" ).data(), nullptr );
 }
 
 //..............................................................................
@@ -556,37 +579,31 @@ GC_get_string_at_pos( int const pos ) {
 double
 GC_get_real_at_coor( int const i, int const j ) {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_real_at( static_cast<unsigned>(i), static_cast<unsigned>(j) );
+  GC_TRY_GET( gc_top()->get_real_at( static_cast<unsigned>(i), static_cast<unsigned>(j), "" ), 0 );
 }
 
 c_complex_type
 GC_get_complex_at_coor( int const i, int const j ) {
   c_complex_type tmp;
   tmp.real = tmp.imag = 0;
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
+  if ( gc_active == nullptr ) return tmp;
+  try {
+    complex_type const res{ gc_complex_at( i, j ) };
     tmp.real = res.real();
     tmp.imag = res.imag();
+  } catch (...) {
   }
   return tmp;
 }
 
 double
 GC_get_complex_real_at_coor( int const i, int const j ) {
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    return res.real();
-  }
-  return 0;
+  return GC_get_complex_at_coor( i, j ).real;
 }
 
 double
 GC_get_complex_imag_at_coor( int const i, int const j ) {
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    return res.imag();
-  }
-  return 0;
+  return GC_get_complex_at_coor( i, j ).imag;
 }
 
 //..............................................................................
@@ -689,19 +706,19 @@ GC_set_empty_vector() {
 int
 GC_get_vector_size() {
   if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->get_num_elements());
+  GC_TRY_GET( static_cast<int>(gc_top()->get_num_elements()), 0 );
 }
 
 int
 GC_get_matrix_num_rows() {
   if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->num_rows());
+  GC_TRY_GET( static_cast<int>(gc_top()->num_rows()), 0 );
 }
 
 int
 GC_get_matrix_num_cols() {
   if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->num_cols());
+  GC_TRY_GET( static_cast<int>(gc_top()->num_cols()), 0 );
 }
 
 int
-- 
2.43.0


From e42e94891180cb64a8aea11d7efb26d84d126a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:46 +0000
Subject: [PATCH 39/67] fix: the C interface reports bad sizes and failures,
 and its empty vectors are empty

---
 src/GenericContainerInterface_C.cc | 105 +++++++++++++++++------------
 1 file changed, 63 insertions(+), 42 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 14fbd38..bb5beda 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -86,6 +86,7 @@ namespace GC_namespace {
     string_view next_map_key();
 
     int reset();
+    void rewind();
 
   };
 
@@ -191,6 +192,13 @@ namespace GC_namespace {
     return GENERIC_CONTAINER_OK;
   }
 
+  // the whole data is going to be replaced: the head goes back to the root
+  void
+  GenericContainerExplorer::rewind() {
+    head.clear();
+    head.push_back( &data );
+  }
+
 }
 
 #define GC_TRY(A)                               \
@@ -239,31 +247,28 @@ extern "C" {
 int
 GC_new( char const id[] ) {
   // ckeck if exists
-  auto pos = gc_explorer.find(id);
-  if ( pos == gc_explorer.end() ) {
-    gc_explorer.insert( MAP_DATA( id, new GenericContainerExplorer() ) );
-    pos = gc_explorer.find(id);
-  }
-  gc_active = pos->second;
+  GC_TRY(
+    auto & ptr{ gc_explorer[id] };
+    if ( !ptr ) ptr = new GenericContainerExplorer();
+    gc_active = ptr
+  );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_select( char const id[] ) {
   // ckeck if exists
-  auto pos{ gc_explorer.find(id) };
-  if ( pos == gc_explorer.end() ) {
-    gc_explorer.insert( MAP_DATA( id, new GenericContainerExplorer() ) );
-    pos = gc_explorer.find(id);
-  }
-  gc_active = pos->second;
+  GC_TRY(
+    auto & ptr{ gc_explorer[id] };
+    if ( !ptr ) ptr = new GenericContainerExplorer();
+    gc_active = ptr
+  );
   return GENERIC_CONTAINER_OK;
 }
 
 void *
 GC_mem_ptr( char const id[] ) {
-  GC_select( id );
-  if ( gc_active == nullptr ) return nullptr;
+  if ( GC_select( id ) != GENERIC_CONTAINER_OK ) return nullptr;
   return gc_active->mem_ptr();
 }
 
@@ -278,13 +283,9 @@ GC_delete( char const id[] ) {
   return GENERIC_CONTAINER_OK;
 }
 
-int
-GC_fill_for_test( char const id[] ) {
-  // ckeck if exists
-  GC_select( id );
-  GenericContainer & gc =
-     *static_cast<GenericContainer*>(gc_active->mem_ptr());
-
+static
+void
+gc_fill_for_test( GenericContainer & gc ) {
   vector_type & v = gc.set_vector();
   v.resize(11);
   v[0] = 1;
@@ -340,7 +341,18 @@ GC_fill_for_test( char const id[] ) {
   gm1.set_mat_complex(2,2);
   gm1.get_complex_at(1,1) = std::complex<double>(2,2);
   gm1.get_complex_at(0,1) = std::complex<double>(1,-1);
+}
 
+int
+GC_fill_for_test( char const id[] ) {
+  // ckeck if exists
+  if ( GC_select( id ) != GENERIC_CONTAINER_OK ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    GenericContainer tmp;
+    gc_fill_for_test( tmp );
+    gc_active->rewind();
+    *static_cast<GenericContainer*>(gc_active->mem_ptr()) = tmp
+  );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -611,35 +623,35 @@ GC_get_complex_imag_at_coor( int const i, int const j ) {
 int
 GC_set_empty_vector_of_bool() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_bool() );
+  GC_TRY( gc_active->top()->set_vec_bool( vec_bool_type() ) );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_int() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_int() );
+  GC_TRY( gc_active->top()->set_vec_int( vec_int_type() ) );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_real() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_real() );
+  GC_TRY( gc_active->top()->set_vec_real( vec_real_type() ) );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_complex() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_complex() );
+  GC_TRY( gc_active->top()->set_vec_complex( vec_complex_type() ) );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_string() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_string() );
+  GC_TRY( gc_active->top()->set_vec_string( vec_string_type() ) );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -648,8 +660,12 @@ GC_set_empty_vector_of_string() {
 int
 GC_set_vector_of_bool( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_bool_type & v{ gc_active->top()->set_vec_bool( nelem ) };
-  for ( unsigned i{0}; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i] != 0;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_bool_type v( static_cast<size_t>(nelem) );
+    for ( size_t i{0}; i < v.size(); ++i ) v[i] = a[i] != 0;
+    gc_active->top()->set_vec_bool( v )
+  );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -658,32 +674,36 @@ GC_set_vector_of_bool( int const * a, int const nelem ) {
 int
 GC_set_vector_of_int( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_int_type & v{ gc_active->top()->set_vec_int( nelem ) };
-  std::copy_n( a, nelem, v.begin() );
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY( gc_active->top()->set_vec_int( vec_int_type( a, a+nelem ) ) );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_real( double const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_real_type & v{ gc_active->top()->set_vec_real(nelem) };
-  std::copy_n( a, nelem, v.begin() );
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY( gc_active->top()->set_vec_real( vec_real_type( a, a+nelem ) ) );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_complex( double const * re, double const * im, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_complex_type & v{gc_active->top()->set_vec_complex(nelem)};
-  for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = complex_type(re[i],im[i]);
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_complex_type v( static_cast<size_t>(nelem) );
+    for ( size_t i{0}; i < v.size(); ++i ) v[i] = complex_type(re[i],im[i]);
+    gc_active->top()->set_vec_complex( v )
+  );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_string( char const ** a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_string_type & v{ gc_active->top()->set_vec_string(nelem) };
-  for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i];
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY( gc_active->top()->set_vec_string( vec_string_type( a, a+nelem ) ) );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -692,14 +712,15 @@ GC_set_vector_of_string( char const ** a, int const nelem ) {
 int
 GC_set_vector( int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vector(nelem) );
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY( gc_active->top()->set_vector( static_cast<unsigned>(nelem) ).resize( static_cast<size_t>(nelem) ) );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vector() );
+  GC_TRY( gc_active->top()->set_vector().clear() );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -724,7 +745,8 @@ GC_get_matrix_num_cols() {
 int
 GC_push_vector_position( int const pos ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  return gc_active->push_vector_position(pos);
+  if ( pos < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY( return gc_active->push_vector_position( static_cast<unsigned>(pos) ) );
 }
 
 //..............................................................................
@@ -744,14 +766,13 @@ GC_set_map() {
 int
 GC_push_map_position( char const pos[] ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  return gc_active->push_map_position( pos );
+  GC_TRY( return gc_active->push_map_position( pos ) );
 }
 
 int
 GC_init_map_key() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  int const ok{gc_active->init_map_key()};
-  return ok;
+  GC_TRY( return gc_active->init_map_key() );
 }
 
 char const *
-- 
2.43.0


From 649a0defd47e16e5e5cc9874dfe44d391775e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:51 +0000
Subject: [PATCH 40/67] fix: pushing a vector of booleans to Lua leaves an
 extra nil on the stack

---
 src_lua_interface/GenericContainerInterface_lua.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 4968a88..93ab127 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -261,7 +261,6 @@ namespace GC_namespace {
           lua_rawseti( L, -2, int(i+1) );
         }
       }
-      lua_pushnil(L);
       break;
     case GC_type::VEC_INTEGER:
       { vec_int_type const & vi = gc.get_vec_int();
-- 
2.43.0


From e177537498916c9067a5ea3dbdb630f1b810c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:54 +0000
Subject: [PATCH 41/67] fix: 64 bit integers cross the Lua boundary without
 rounding

---
 .../GenericContainerInterface_lua.cc          | 48 +++++++++++--------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 93ab127..75df0bb 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -87,8 +87,24 @@ namespace GC_namespace {
   static
   inline
   bool
-  isInteger64( real_type x )
-  { return isZero( x-static_cast<int64_t>(floor(x)) ); }
+  isInteger64( real_type x ) {
+    // nan, infinite and too large values cannot be stored in an integer
+    return x >= -9223372036854775808.0 && x < 9223372036854775808.0 && isZero( x-floor(x) );
+  }
+
+  // store the number at the top of the stack
+  static
+  inline
+  void
+  lua_number_to_GC( lua_State * L, GenericContainer & gc ) {
+    if ( lua_isinteger(L, -1) ) {
+      gc.set_long( static_cast<long_type>(lua_tointeger(L, -1)) );
+    } else {
+      real_type const val = lua_tonumber(L, -1);
+      if ( isInteger64(val) ) gc.set_long( static_cast<long_type>(val) );
+      else                    gc.set_real( val );
+    }
+  }
 
   /*
   //   _                _           ____  ____
@@ -124,6 +140,8 @@ namespace GC_namespace {
         if ( gc.get_type() == GC_type::VEC_REAL ||
              gc.get_type() == GC_type::MAT_REAL ) {
           gc.get_real_at(idx) = val;
+        } else if ( lua_isinteger(L, -1) ) {
+          gc.get_long_at(idx) = static_cast<long_type>(lua_tointeger(L, -1));
         } else if ( isInteger64(val) ) {
           gc.get_long_at(idx) = long_type(val);
         } else {
@@ -153,11 +171,7 @@ namespace GC_namespace {
         gc[key].set_bool( lua_toboolean(L, -1) ? true : false );
         break;
       case LUA_TNUMBER:
-        {
-          real_type val = lua_tonumber(L, -1);
-          if ( isInteger64(val) ) gc[key].set_long(long_type(val));
-          else                    gc[key].set_real(val);
-        }
+        lua_number_to_GC( L, gc[key] );
         break;
       case LUA_TSTRING:
         gc[key].set_string(lua_tostring(L, -1));
@@ -198,11 +212,7 @@ namespace GC_namespace {
         gc.set_bool(lua_toboolean(L, -1) ? true : false );
         break;
       case LUA_TNUMBER:
-        {
-        real_type val = lua_tonumber(L, -1);
-        if ( isInteger64(val) ) gc.set_long(long_type(val));
-        else                    gc.set_real(val);
-        }
+        lua_number_to_GC( L, gc );
         break;
       case LUA_TSTRING:
         gc.set_string(lua_tostring(L, -1));
@@ -239,10 +249,10 @@ namespace GC_namespace {
       lua_pushboolean( L, gc.get_bool() ? 1 : 0 );
       break;
     case GC_type::INTEGER:
-      lua_pushnumber( L, gc.get_int() );
+      lua_pushinteger( L, gc.get_int() );
       break;
     case GC_type::LONG:
-      lua_pushnumber( L, lua_Number(gc.get_long()) );
+      lua_pushinteger( L, lua_Integer(gc.get_long()) );
       break;
     case GC_type::REAL:
       lua_pushnumber( L, gc.get_real() );
@@ -266,7 +276,7 @@ namespace GC_namespace {
       { vec_int_type const & vi = gc.get_vec_int();
         lua_createtable( L, int(vi.size()), 0);
         for ( unsigned i = 0; i < vi.size(); ++i ) {
-          lua_pushnumber( L, lua_Number(vi[i]) );
+          lua_pushinteger( L, lua_Integer(vi[i]) );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -275,7 +285,7 @@ namespace GC_namespace {
       { vec_long_type const & vi = gc.get_vec_long();
         lua_createtable(L, int(vi.size()), 0);
         for ( unsigned i = 0; i < vi.size(); ++i ) {
-          lua_pushnumber( L, lua_Number(vi[i]) );
+          lua_pushinteger( L, lua_Integer(vi[i]) );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -441,11 +451,7 @@ namespace GC_namespace {
       gc.set_bool(lua_toboolean(L, -1) ? true : false );
       break;
     case LUA_TNUMBER:
-      {
-        real_type val = lua_tonumber(L, -1);
-        if ( isInteger64(val) ) gc.set_long(long_type(val));
-        else                    gc.set_real(val);
-      }
+      lua_number_to_GC( L, gc );
       break;
     case LUA_TSTRING:
       gc.set_string(lua_tostring(L, -1));
-- 
2.43.0


From fca3ad07e2aeb45be0bab89ede9018fac473c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:56 +0000
Subject: [PATCH 42/67] fix: strings with embedded zeros cross the Lua boundary
 whole

---
 .../GenericContainerInterface_lua.cc          | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 75df0bb..f289310 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -92,6 +92,16 @@ namespace GC_namespace {
     return x >= -9223372036854775808.0 && x < 9223372036854775808.0 && isZero( x-floor(x) );
   }
 
+  // the string at position `idx` of the stack, with the zeros it may contain
+  static
+  inline
+  string_view
+  lua_to_string_view( lua_State * L, int const idx ) {
+    size_t len{0};
+    char const * s = lua_tolstring( L, idx, &len );
+    return string_view( s, len );
+  }
+
   // store the number at the top of the stack
   static
   inline
@@ -150,7 +160,7 @@ namespace GC_namespace {
       }
       break;
     case LUA_TSTRING:
-      gc.get_string_at(idx) = lua_tostring(L, -1);
+      gc.get_string_at(idx) = lua_to_string_view(L, -1);
       break;
     case LUA_TTABLE:
       lua_table_to_GC( L, gc[idx] );
@@ -164,7 +174,7 @@ namespace GC_namespace {
   void
   push_hash_element( lua_State * L, GenericContainer & gc ) {
     // assegna il valore
-    string key  = lua_tostring(L, -2);
+    string key( lua_to_string_view(L, -2) );
     int    type = lua_type(L, -1);
     switch( type ) {
       case LUA_TBOOLEAN:
@@ -174,7 +184,7 @@ namespace GC_namespace {
         lua_number_to_GC( L, gc[key] );
         break;
       case LUA_TSTRING:
-        gc[key].set_string(lua_tostring(L, -1));
+        gc[key].set_string(lua_to_string_view(L, -1));
         break;
       case LUA_TTABLE:
         lua_table_to_GC( L, gc[key] );
@@ -215,7 +225,7 @@ namespace GC_namespace {
         lua_number_to_GC( L, gc );
         break;
       case LUA_TSTRING:
-        gc.set_string(lua_tostring(L, -1));
+        gc.set_string(lua_to_string_view(L, -1));
         break;
       case LUA_TTABLE:
         lua_table_to_GC( L, gc );
@@ -258,7 +268,9 @@ namespace GC_namespace {
       lua_pushnumber( L, gc.get_real() );
       break;
     case GC_type::STRING:
-      lua_pushstring( L, gc.get_string().data() );
+      { string_view const s = gc.get_string();
+        lua_pushlstring( L, s.data(), s.size() );
+      }
       break;
     case GC_type::VEC_POINTER:
       lua_pushnil(L);
@@ -303,7 +315,7 @@ namespace GC_namespace {
       { vec_string_type const & vs = gc.get_vec_string();
         lua_createtable( L, int(vs.size()), 0);
         for ( unsigned i = 0; i < vs.size(); ++i ) {
-          lua_pushstring( L, vs[i].c_str() );
+          lua_pushlstring( L, vs[i].data(), vs[i].size() );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -321,7 +333,7 @@ namespace GC_namespace {
       { map_type const & m = gc.get_map();
         lua_createtable(L, int(m.size()), 0);
         for ( map_type::const_iterator it = m.begin(); it != m.end(); ++it ) {
-          lua_pushstring(L, it->first.c_str());
+          lua_pushlstring( L, it->first.data(), it->first.size() );
           GC_to_lua( L, it->second );
           lua_settable( L, -3 );
         }
@@ -454,7 +466,7 @@ namespace GC_namespace {
       lua_number_to_GC( L, gc );
       break;
     case LUA_TSTRING:
-      gc.set_string(lua_tostring(L, -1));
+      gc.set_string(lua_to_string_view(L, -1));
       break;
     case LUA_TTABLE:
       lua_table_to_GC( L, gc );
-- 
2.43.0


From 2b330eec2d511b66f20f36735c2d1d1f5fd8b027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:33 +0000
Subject: [PATCH 43/67] fix: Lua tables are read whatever the order, kind and
 nesting of their entries

---
 .../GenericContainerInterface_lua.cc          | 203 ++++++++++--------
 1 file changed, 117 insertions(+), 86 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index f289310..d0d4397 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -71,6 +71,8 @@
 
 // load string.h for strlen
 #include <string.h>
+#include <algorithm>
+#include <vector>
 
 namespace GC_namespace {
 
@@ -125,114 +127,152 @@ namespace GC_namespace {
   //               |_____|    |_____|
   */
 
-  static
-  void
-  lua_table_to_GC( lua_State * L, GenericContainer & gc );
+  // nesting of tables and containers accepted by the conversions
+  static int const LUA_MAX_NESTING{ 1000 };
+
+  // the tables being converted, from the outermost to the current one
+  typedef std::vector<void const *> lua_parents_type;
 
   static
   void
-  push_vec_element( lua_State * L, GenericContainer & gc ) {
-    // assegna il valore
-    // index start from 1 in LUA
-    unsigned    idx  = unsigned(lua_tointeger(L, -2)-1);
-    lua_Integer type = lua_type(L, -1);
-    switch( type ) {
-    case LUA_TBOOLEAN:
-      {
-        gc.get_bool_at(idx);
-        vec_bool_type & bv = gc.get_vec_bool();
-        bv[idx] = lua_toboolean(L, -1) ? true : false;
-      }
-      break;
-    case LUA_TNUMBER:
-      {
-        real_type val = lua_tonumber(L, -1);
-        if ( gc.get_type() == GC_type::VEC_REAL ||
-             gc.get_type() == GC_type::MAT_REAL ) {
-          gc.get_real_at(idx) = val;
-        } else if ( lua_isinteger(L, -1) ) {
-          gc.get_long_at(idx) = static_cast<long_type>(lua_tointeger(L, -1));
-        } else if ( isInteger64(val) ) {
-          gc.get_long_at(idx) = long_type(val);
-        } else {
-          gc.get_real_at(idx) = val;
-        }
-      }
-      break;
-    case LUA_TSTRING:
-      gc.get_string_at(idx) = lua_to_string_view(L, -1);
-      break;
-    case LUA_TTABLE:
-      lua_table_to_GC( L, gc[idx] );
-      break;
-    }
-  }
-
-  // -----------------------------------------------------------------------------
+  lua_table_to_GC( lua_State * L, GenericContainer & gc, lua_parents_type & parents );
 
+  // convert the value at the top of the stack,
+  // what has no counterpart (nil, functions, ...) leave `gc` as is
   static
   void
-  push_hash_element( lua_State * L, GenericContainer & gc ) {
-    // assegna il valore
-    string key( lua_to_string_view(L, -2) );
-    int    type = lua_type(L, -1);
-    switch( type ) {
+  lua_value_to_GC( lua_State * L, GenericContainer & gc, lua_parents_type & parents ) {
+    switch( lua_type(L, -1) ) {
       case LUA_TBOOLEAN:
-        gc[key].set_bool( lua_toboolean(L, -1) ? true : false );
+        gc.set_bool( lua_toboolean(L, -1) ? true : false );
         break;
       case LUA_TNUMBER:
-        lua_number_to_GC( L, gc[key] );
+        lua_number_to_GC( L, gc );
         break;
       case LUA_TSTRING:
-        gc[key].set_string(lua_to_string_view(L, -1));
+        gc.set_string( lua_to_string_view(L, -1) );
         break;
       case LUA_TTABLE:
-        lua_table_to_GC( L, gc[key] );
+        lua_table_to_GC( L, gc, parents );
         break;
     }
   }
 
   // -----------------------------------------------------------------------------
 
+  // an integer stored in a real without rounding
+  static
+  inline
+  bool
+  is_exact( long_type const l )
+  { return l >= -9007199254740992 && l <= 9007199254740992; }
+
+  // a vector of values of the same kind becomes a vector of booleans, numbers or strings
   static
   void
-  lua_table_to_GC( lua_State * L, GenericContainer & gc ) {
-    // ---
-    lua_pushnil(L); // first key
-    // ---
-    while ( lua_next(L,-2) != 0 ) {
-      switch( lua_type(L, -2) ) {
-        case LUA_TNUMBER:
-          push_vec_element( L, gc );
-          break;
-        case LUA_TSTRING:
-          push_hash_element( L, gc );
-          break;
+  lua_pack_vector( GenericContainer & gc ) {
+    vector_type const & v = gc.get_vector();
+    size_t n_bool{0}, n_long{0}, n_real{0}, n_string{0};
+    bool   exact{true};
+    for ( GenericContainer const & e : v ) {
+      switch ( e.get_type() ) {
+      case GC_type::BOOL:   ++n_bool; break;
+      case GC_type::LONG:   ++n_long; if ( !is_exact( e.get_long() ) ) exact = false; break;
+      case GC_type::REAL:   ++n_real; break;
+      case GC_type::STRING: ++n_string; break;
+      default: return;
       }
-      lua_pop(L, 1);  // removes `value'; keeps `key' for next iteration
+    }
+    if ( n_bool == v.size() ) {
+      vec_bool_type vb;
+      for ( GenericContainer const & e : v ) vb.push_back( e.get_bool() );
+      gc.set_vec_bool( vb );
+    } else if ( n_string == v.size() ) {
+      vec_string_type vs;
+      for ( GenericContainer const & e : v ) vs.emplace_back( e.get_string() );
+      gc.set_vec_string( vs );
+    } else if ( n_long == v.size() ) {
+      vec_long_type vl;
+      for ( GenericContainer const & e : v ) vl.push_back( e.get_long() );
+      gc.set_vec_long( vl );
+    } else if ( n_long + n_real == v.size() && exact ) {
+      vec_real_type vr;
+      for ( GenericContainer const & e : v ) vr.push_back( e.get_number() );
+      gc.set_vec_real( vr );
     }
   }
 
+  // -----------------------------------------------------------------------------
+
   static
   void
-  lua_to_GC( lua_State * L, GenericContainer & gc ) {
-    gc.clear();
-    switch( lua_type(L, -1) ) {
-      case LUA_TBOOLEAN:
-        gc.set_bool(lua_toboolean(L, -1) ? true : false );
-        break;
+  lua_table_to_GC( lua_State * L, GenericContainer & gc, lua_parents_type & parents ) {
+    void const * const self{ lua_topointer(L, -1) };
+    GC_ASSERT(
+      std::find( parents.begin(), parents.end(), self ) == parents.end(),
+      "lua_table_to_GC, a table that contains itself cannot be converted"
+    )
+    GC_ASSERT(
+      parents.size() < static_cast<size_t>(LUA_MAX_NESTING) && lua_checkstack( L, 4 ),
+      "lua_table_to_GC, tables nested too deeply"
+    )
+
+    // index start from 1 in LUA
+    bool        named{false};
+    lua_Integer nelem{0};
+    lua_pushnil(L); // first key
+    while ( lua_next(L,-2) != 0 ) {
+      switch( lua_type(L, -2) ) {
       case LUA_TNUMBER:
-        lua_number_to_GC( L, gc );
+        {
+          lua_Integer const idx{ lua_isinteger(L, -2) ? lua_tointeger(L, -2) : 0 };
+          GC_ASSERT(
+            idx >= 1 && idx <= 0x7FFFFFFF,
+            "lua_table_to_GC, the position " << lua_tonumber(L, -2) << " cannot be stored in a vector"
+          )
+          if ( idx > nelem ) nelem = idx;
+        }
         break;
       case LUA_TSTRING:
-        gc.set_string(lua_to_string_view(L, -1));
-        break;
-      case LUA_TTABLE:
-        lua_table_to_GC( L, gc );
-        //global_to_GC( gc );
-        lua_settop(L, 0);
+        named = true;
         break;
+      }
+      lua_pop(L, 1);  // removes `value'; keeps `key' for next iteration
+    }
+    GC_ASSERT(
+      !named || nelem == 0,
+      "lua_table_to_GC, a table with both positions and names cannot be converted"
+    )
+
+    parents.push_back( self );
+    if ( named ) {
+      gc.set_map();
+      lua_pushnil(L); // first key
+      while ( lua_next(L,-2) != 0 ) {
+        if ( lua_type(L, -2) == LUA_TSTRING )
+          lua_value_to_GC( L, gc[lua_to_string_view(L, -2)], parents );
+        lua_pop(L, 1);
+      }
+    } else if ( nelem > 0 ) {
+      vector_type & v{ gc.set_vector( static_cast<unsigned>(nelem) ) };
+      lua_pushnil(L); // first key
+      while ( lua_next(L,-2) != 0 ) {
+        if ( lua_type(L, -2) == LUA_TNUMBER )
+          lua_value_to_GC( L, v[static_cast<size_t>(lua_tointeger(L, -2)-1)], parents );
+        lua_pop(L, 1);
+      }
+      lua_pack_vector( gc );
     }
+    parents.pop_back();
+  }
+
+  static
+  void
+  lua_to_GC( lua_State * L, GenericContainer & gc ) {
+    lua_parents_type parents;
+    GenericContainer res;
+    lua_value_to_GC( L, res, parents );
+    gc = res;
   }
 
   /*
@@ -457,21 +497,12 @@ namespace GC_namespace {
       global_var << "'"
     )
 
-    gc.clear();
     switch( lua_type(L, -1) ) {
     case LUA_TBOOLEAN:
-      gc.set_bool(lua_toboolean(L, -1) ? true : false );
-      break;
     case LUA_TNUMBER:
-      lua_number_to_GC( L, gc );
-      break;
     case LUA_TSTRING:
-      gc.set_string(lua_to_string_view(L, -1));
-      break;
     case LUA_TTABLE:
-      lua_table_to_GC( L, gc );
-      //global_to_GC( gc );
-      lua_settop(L, 0);
+      lua_to_GC( L, gc );
       break;
     default:
       GC_DO_ERROR(
-- 
2.43.0


From 21bd4c146d96c31ed7b75d67571f35a492d8bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:19 +0000
Subject: [PATCH 44/67] fix: Lua failures are caught, reported and leave the
 interpreter stack as it was

---
 .../GenericContainerInterface_lua.cc          | 172 ++++++++++++++----
 1 file changed, 136 insertions(+), 36 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index d0d4397..456fe05 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -284,10 +284,13 @@ namespace GC_namespace {
   //             |_____|    |_____|
   */
 
+  // to be called in protected mode only: it may raise a Lua error (memory, nesting)
   static
   void
-  GC_to_lua( lua_State * L, GenericContainer const & gc ) {
+  GC_to_lua( lua_State * L, GenericContainer const & gc, int const depth = 0 ) {
     // inizializzazione
+    if ( depth >= LUA_MAX_NESTING ) luaL_error( L, "container nested too deeply" );
+    luaL_checkstack( L, 3, "container nested too deeply" );
     switch ( gc.get_type() ) {
     case GC_type::NOTYPE:
       lua_pushnil(L);
@@ -364,7 +367,7 @@ namespace GC_namespace {
       { vector_type const & v = gc.get_vector();
         lua_createtable(L, int(v.size()), 0);
         for ( unsigned i = 0; i < v.size(); ++i ) {
-          GC_to_lua( L, v[i] );
+          GC_to_lua( L, v[i], depth+1 );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -374,7 +377,7 @@ namespace GC_namespace {
         lua_createtable(L, int(m.size()), 0);
         for ( map_type::const_iterator it = m.begin(); it != m.end(); ++it ) {
           lua_pushlstring( L, it->first.data(), it->first.size() );
-          GC_to_lua( L, it->second );
+          GC_to_lua( L, it->second, depth+1 );
           lua_settable( L, -3 );
         }
       }
@@ -400,13 +403,122 @@ namespace GC_namespace {
   //                                          |_|
   */
 
+  // restore the Lua stack when the scope is left
+  class LuaStackGuard {
+    lua_State * L;
+    int         top;
+  public:
+    explicit LuaStackGuard( lua_State * _L ) : L(_L), top(lua_gettop(_L)) {}
+    LuaStackGuard( LuaStackGuard const & ) = delete;
+    LuaStackGuard const & operator = ( LuaStackGuard const & ) = delete;
+    ~LuaStackGuard() { lua_settop( L, top ); }
+  };
+
+  // what the functions below, executed in protected mode, work on
+  typedef struct {
+    char const             * name;
+    size_t                   len;
+    GenericContainer const * gc;
+  } LuaRequest;
+
+  static
+  LuaRequest const &
+  lua_request( lua_State * L )
+  { return *static_cast<LuaRequest const*>( lua_touserdata( L, 1 ) ); }
+
+  static
+  int
+  protected_openlibs( lua_State * L ) {
+    luaL_openlibs( L );
+    return 0;
+  }
+
+  static
+  int
+  protected_file( lua_State * L ) {
+    if ( luaL_loadfile( L, lua_request( L ).name ) != LUA_OK ) return lua_error( L );
+    lua_call( L, 0, 0 );
+    return 0;
+  }
+
+  static
+  int
+  protected_string( lua_State * L ) {
+    LuaRequest const & R{ lua_request( L ) };
+    if ( luaL_loadbuffer( L, R.name, R.len, "line" ) != LUA_OK ) return lua_error( L );
+    lua_call( L, 0, 0 );
+    return 0;
+  }
+
+  static
+  int
+  protected_get_global( lua_State * L ) {
+    LuaRequest const & R{ lua_request( L ) };
+    lua_pushglobaltable( L );
+    lua_pushlstring( L, R.name, R.len );
+    lua_gettable( L, -2 );
+    return 1;
+  }
+
+  static
+  int
+  protected_set_global( lua_State * L ) {
+    LuaRequest const & R{ lua_request( L ) };
+    lua_pushglobaltable( L );
+    lua_pushlstring( L, R.name, R.len );
+    GC_to_lua( L, *R.gc );
+    lua_settable( L, -3 );
+    return 0;
+  }
+
+  static
+  int
+  protected_call_function( lua_State * L ) {
+    // push functions and arguments
+    LuaRequest const & R{ lua_request( L ) };
+    protected_get_global( L );  // function to be called
+    GC_to_lua( L, *R.gc );
+    /* do the call (1 arguments, 1 result) */
+    lua_call( L, 1, 1 );
+    return 1;
+  }
+
+  // run `fun` in protected mode, the results are left on the stack
+  static
+  void
+  lua_protected(
+    lua_State        * L,
+    lua_CFunction      fun,
+    LuaRequest const & R,
+    int const          nres,
+    string_view const  where
+  ) {
+    GC_ASSERT( L != nullptr && lua_checkstack( L, 4 ), where << "\nlua_State invalid!" )
+    lua_pushcfunction( L, fun );
+    lua_pushlightuserdata( L, const_cast<LuaRequest*>(&R) );
+    if ( lua_pcall( L, 1, nres, 0 ) != LUA_OK ) {
+      GC_DO_ERROR(
+        where << '\n' <<
+        ( lua_type(L, -1) == LUA_TSTRING ? lua_to_string_view(L, -1) : string_view("unknown Lua error") )
+      )
+    }
+  }
+
+  // -----------------------------------------------------------------------------
+
   LuaInterpreter::LuaInterpreter() {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
     L = luaL_newstate(); // opens Lua
-    GC_ASSERT_DEBUG(
+    GC_ASSERT(
       L != nullptr, "LuaInterpreter::LuaInterpreter() lua_State invalid!"
     )
-    luaL_openlibs(L);
+    try {
+      LuaStackGuard guard( L );
+      lua_protected( L, protected_openlibs, LuaRequest{ "", 0, nullptr }, 0, "LuaInterpreter::LuaInterpreter()" );
+    } catch (...) {
+      lua_close( L );
+      throw;
+    }
   }
 
   // -----------------------------------------------------------------------------
@@ -424,18 +536,9 @@ namespace GC_namespace {
   void
   LuaInterpreter::do_file( char const filename[] ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
-    GC_ASSERT_DEBUG(
-      L != nullptr,
-      "LuaInterpreter::do_file('" << filename <<
-      "')\nlua_State invalid!"
-    )
-    if ( luaL_loadfile(L, filename) || lua_pcall(L, 0, 0, 0)  ) {
-      GC_ASSERT(
-        lua_isnil(L,-1),
-        "In LuaInterpreter::do_file('" << filename <<
-        "')\n" << lua_tostring(L, -1)
-      )
-    }
+    LuaStackGuard guard( L );
+    string const where{ string("In LuaInterpreter::do_file('") + filename + "')" };
+    lua_protected( L, protected_file, LuaRequest{ filename, strlen(filename), nullptr }, 0, where );
   }
 
   // -----------------------------------------------------------------------------
@@ -443,13 +546,9 @@ namespace GC_namespace {
   void
   LuaInterpreter::execute( char const cmd[] ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
-    GC_ASSERT(
-      L != nullptr &&
-      !luaL_loadbuffer(L, cmd, strlen(cmd), "line") &&
-      !lua_pcall(L, 0, 0, 0),
-      "In LuaInterpreter::execute('" << cmd <<
-      "')\ncannot run the command or lua_State invalid"
-    )
+    LuaStackGuard guard( L );
+    string const where{ string("In LuaInterpreter::execute('") + cmd + "')\ncannot run the command" };
+    lua_protected( L, protected_string, LuaRequest{ cmd, strlen(cmd), nullptr }, 0, where );
   }
 
   // -----------------------------------------------------------------------------
@@ -462,15 +561,9 @@ namespace GC_namespace {
     string_view            fname = fun_io("function").get_string();
     GenericContainer const & args = fun_io("args");
 
-    // push functions and arguments
-    lua_getglobal( L, fname.data() );  // function to be called
-    GC_to_lua( L, args );
-
-    /* do the call (1 arguments, 1 result) */
-    GC_ASSERT(
-      lua_pcall(L, 1, 1, 0) == 0,
-      "GenericContainer: error running function `" << fname << "'\n"
-    )
+    LuaStackGuard guard( L );
+    string const where{ string("GenericContainer: error running function `") + string(fname) + "'" };
+    lua_protected( L, protected_call_function, LuaRequest{ fname.data(), fname.size(), &args }, 1, where );
 
     /* retrieve result */
     lua_to_GC( L, res );
@@ -490,7 +583,11 @@ namespace GC_namespace {
       L != nullptr, "LuaInterpreter::global_to_GC(...) lua_State invalid!"
     )
 
-    lua_getglobal( L, global_var );
+    LuaStackGuard guard( L );
+    lua_protected(
+      L, protected_get_global, LuaRequest{ global_var, strlen(global_var), nullptr }, 1,
+      "LuaInterpreter::global_to_GC(...)"
+    );
     GC_ASSERT(
       !lua_isnil(L,-1),
       "LuaInterpreter::global_to_GC(...) cannot find global variable: '" <<
@@ -523,8 +620,11 @@ namespace GC_namespace {
     char             const * global_var
   ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
-    GC_to_lua( L, gc );
-    lua_setglobal( L, global_var );
+    LuaStackGuard guard( L );
+    lua_protected(
+      L, protected_set_global, LuaRequest{ global_var, strlen(global_var), &gc }, 0,
+      "LuaInterpreter::GC_to_global(...)"
+    );
   }
 
   // -----------------------------------------------------------------------------
-- 
2.43.0


From e41def29b4d3243ee89e0a8c59e0a2ef33c6e431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:25 +0000
Subject: [PATCH 45/67] fix: GC_to_TOML tells the caller when the container
 cannot be converted

---
 .../GenericContainerInterface_toml.hh                 | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/GenericContainer/GenericContainerInterface_toml.hh b/include/GenericContainer/GenericContainerInterface_toml.hh
index 2302031..bb16fa2 100644
--- a/include/GenericContainer/GenericContainerInterface_toml.hh
+++ b/include/GenericContainer/GenericContainerInterface_toml.hh
@@ -110,13 +110,15 @@ namespace GC_namespace {
   //!
   //! \param[in]  gc   The `GenericContainer` to convert.
   //! \param[out] DATA String to store the TOML encoded GenericContainer.
+  //! \return     true if the conversion was successful, false otherwise.
   //!
   inline
-  void
+  bool
   GC_to_TOML( GenericContainer const & gc, std::string & res ) {
     ostringstream stream;
-    gc.to_toml( stream );
+    bool const ok{ gc.to_toml( stream ) };
     res = stream.str();
+    return ok && stream.good();
   }
 
   //!
@@ -127,14 +129,15 @@ namespace GC_namespace {
   //!
   //! \param[in]  gc     The `GenericContainer` to convert.
   //! \param[out] stream Output stream to write the TOML data.
+  //! \return     true   if the conversion was successful, false otherwise.
   //!
   inline
-  void
+  bool
   GC_to_TOML(
     GenericContainer const & gc,
     ostream_type           & stream
   ) {
-    gc.to_toml( stream );
+    return gc.to_toml( stream );
   }
 
   //!
-- 
2.43.0


From 0cd359ee27a94fc1daca0be5460965092c0049ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:52 +0000
Subject: [PATCH 46/67] fix: a text cut short by a failed memory request is
 reported, not returned

---
 include/GenericContainer/GenericContainer.hh               | 3 +++
 include/GenericContainer/GenericContainerInterface_json.hh | 1 +
 include/GenericContainer/GenericContainerInterface_toml.hh | 1 +
 include/GenericContainer/GenericContainerInterface_yaml.hh | 1 +
 src/GenericContainer.cc                                    | 5 +++++
 src_json_interface/to_json.cc                              | 1 +
 src_toml_interface/from_toml.cc                            | 3 +++
 src_toml_interface/to_toml.cc                              | 2 ++
 src_yaml_interface/to_yaml.cc                              | 1 +
 9 files changed, 18 insertions(+)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 3ffa350..e87e8cb 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -391,6 +391,7 @@ namespace GC_namespace {
     string_type
     info() const {
       ostringstream ostr;
+      ostr.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
       this->info(ostr);
       return ostr.str();
     }
@@ -1557,6 +1558,7 @@ namespace GC_namespace {
     string_type
     info() const {
       ostringstream sstr;
+      sstr.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
       this->info(sstr);
       return sstr.str();
     }
@@ -4074,6 +4076,7 @@ namespace GC_namespace {
       string_view indent = "    "
     ) const {
       ostringstream ostr;
+      ostr.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
       ostr.precision(stream_number_precision);
       this->print(ostr,prefix,indent);
       return ostr.str();
diff --git a/include/GenericContainer/GenericContainerInterface_json.hh b/include/GenericContainer/GenericContainerInterface_json.hh
index 4a9a1f1..81acf1b 100644
--- a/include/GenericContainer/GenericContainerInterface_json.hh
+++ b/include/GenericContainer/GenericContainerInterface_json.hh
@@ -110,6 +110,7 @@ namespace GC_namespace {
   void
   GC_to_JSON( GenericContainer const & gc, std::string & res ) {
     ostringstream stream;
+    stream.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
     gc.to_json( stream );
     res = stream.str();
   }
diff --git a/include/GenericContainer/GenericContainerInterface_toml.hh b/include/GenericContainer/GenericContainerInterface_toml.hh
index bb16fa2..7c54a09 100644
--- a/include/GenericContainer/GenericContainerInterface_toml.hh
+++ b/include/GenericContainer/GenericContainerInterface_toml.hh
@@ -116,6 +116,7 @@ namespace GC_namespace {
   bool
   GC_to_TOML( GenericContainer const & gc, std::string & res ) {
     ostringstream stream;
+    stream.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
     bool const ok{ gc.to_toml( stream ) };
     res = stream.str();
     return ok && stream.good();
diff --git a/include/GenericContainer/GenericContainerInterface_yaml.hh b/include/GenericContainer/GenericContainerInterface_yaml.hh
index 595d29e..e819d77 100644
--- a/include/GenericContainer/GenericContainerInterface_yaml.hh
+++ b/include/GenericContainer/GenericContainerInterface_yaml.hh
@@ -115,6 +115,7 @@ namespace GC_namespace {
   void
   GC_to_YAML( GenericContainer const & gc, std::string & res ) {
     ostringstream stream;
+    stream.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
     gc.to_yaml( stream );
     res = stream.str();
   }
diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 9f580e2..8baeeb8 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -80,6 +80,7 @@ namespace GC_namespace {
   string
   to_string( complex_type const & v ) {
     ostringstream data;
+    data.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
     data.precision(stream_number_precision);
     data << v.real();
     if ( v.imag() > 0 ) data << '+' << v.imag() << 'i';
@@ -408,6 +409,7 @@ namespace GC_namespace {
   string
   compare_vector( string_view const who, vector<TYPE> const * A, vector<TYPE> const * B ) {
     ostringstream data;
+    data.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
     if ( A->size() == B->size() ) {
       // controllo valori
       auto it1 = A->begin();
@@ -432,6 +434,7 @@ namespace GC_namespace {
   string
   compare_matrix( string_view const who, mat_type<TYPE> const * A, mat_type<TYPE> const * B ) {
     ostringstream data;
+    data.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
     if ( A->num_rows() == B->num_rows() && A->num_cols() == B->num_cols() ) {
       for ( unsigned i{0}; i < A->num_rows(); ++i ) {
         for ( unsigned j{0}; j < A->num_cols(); ++j ) {
@@ -455,6 +458,7 @@ namespace GC_namespace {
   string
   GenericContainer::compare_content( GenericContainer const & gc, string_view from ) const {
     ostringstream data;
+    data.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
     if ( m_data_type != gc.m_data_type ) {
       data << from
            << "different type: "
@@ -3515,6 +3519,7 @@ namespace GC_namespace {
   string
   hex_pointer( pointer_type const p ) {
     ostringstream data;
+    data.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
     data << std::hex << std::showbase << reinterpret_cast<uintptr_t>(p);
     return data.str();
   }
diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index 1c44548..51db3f2 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -50,6 +50,7 @@ namespace GC_namespace {
   string
   hex_pointer( pointer_type const p ) {
     ostringstream data;
+    data.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
     data << std::hex << std::showbase << reinterpret_cast<uintptr_t>(p);
     return data.str();
   }
diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index fc014c8..e7fac16 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -100,18 +100,21 @@ namespace GC_namespace {
     } else if ( node.is_date() ) {
 
       std::ostringstream oss;
+      oss.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
       oss << node.as_date()->get();
       gc["$date"] = oss.str();
 
     } else if ( node.is_time() ) {
 
       std::ostringstream oss;
+      oss.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
       oss << node.as_time()->get();
       gc["$time"] = oss.str();
 
     } else if ( node.is_date_time() ) {
 
       std::ostringstream oss;
+      oss.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
       oss << node.as_date_time()->get();
       gc["$date_time"] = oss.str();
 
diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index f09f9d6..f93c11a 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -172,6 +172,7 @@ namespace GC_namespace {
       case GC_type::POINTER: {
         DEF_UNIQUE( toml::array );
         std::ostringstream ostr;
+        ostr.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
         ostr << std::hex << gc.get_pointer<void*>();
         return NEW_UNIQUE(toml::value<std::string>,ostr.str());
       }
@@ -179,6 +180,7 @@ namespace GC_namespace {
         DEF_UNIQUE( toml::array );
         for ( auto vi : gc.get_vec_pointer() ) {
           std::ostringstream ostr;
+          ostr.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
           ostr << std::hex << static_cast<void*>(vi);
           node->as_array()->push_back( ostr.str() );
         }
diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index c50475a..c3372fa 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -51,6 +51,7 @@ namespace GC_namespace {
   string
   hex_pointer( pointer_type const p ) {
     ostringstream data;
+    data.exceptions( std::ios_base::badbit ); // do not return a text cut by a failed memory request
     data << std::hex << std::showbase << reinterpret_cast<uintptr_t>(p);
     return data.str();
   }
-- 
2.43.0


From 44e0443e59faef2acc5389fc5f960f1a71a88514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:06 +0000
Subject: [PATCH 47/67] fix: reading YAML or TOML survives a failed memory
 request

---
 .../toml++/impl/parse_error.hpp               |  6 ++--
 .../toml++/impl/print_to_stream.inl           |  2 ++
 .../fkYAML/detail/conversions/to_node.hpp     |  4 +--
 src_yaml_interface/fkYAML/exception.hpp       | 34 +++++++++----------
 src_yaml_interface/fkYAML/node.hpp            |  8 +++--
 src_yaml_interface/from_yaml.cc               |  3 +-
 6 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/src_toml_interface/toml++/impl/parse_error.hpp b/src_toml_interface/toml++/impl/parse_error.hpp
index 05f2b6d..1ab9dfc 100644
--- a/src_toml_interface/toml++/impl/parse_error.hpp
+++ b/src_toml_interface/toml++/impl/parse_error.hpp
@@ -39,20 +39,20 @@ TOML_NAMESPACE_START
 
 		TOML_NODISCARD_CTOR
 		TOML_ATTR(nonnull)
-		parse_error(const char* desc, source_region&& src) noexcept //
+		parse_error(const char* desc, source_region&& src) //
 			: std::runtime_error{ desc },
 			  source_{ std::move(src) }
 		{}
 
 		TOML_NODISCARD_CTOR
 		TOML_ATTR(nonnull)
-		parse_error(const char* desc, const source_region& src) noexcept //
+		parse_error(const char* desc, const source_region& src) //
 			: parse_error{ desc, source_region{ src } }
 		{}
 
 		TOML_NODISCARD_CTOR
 		TOML_ATTR(nonnull)
-		parse_error(const char* desc, const source_position& position, const source_path_ptr& path = {}) noexcept
+		parse_error(const char* desc, const source_position& position, const source_path_ptr& path = {})
 			: parse_error{ desc, source_region{ position, position, path } }
 		{}
 
diff --git a/src_toml_interface/toml++/impl/print_to_stream.inl b/src_toml_interface/toml++/impl/print_to_stream.inl
index 57dbf76..a4531a4 100644
--- a/src_toml_interface/toml++/impl/print_to_stream.inl
+++ b/src_toml_interface/toml++/impl/print_to_stream.inl
@@ -142,6 +142,7 @@ TOML_ANON_NAMESPACE_START
 		else
 		{
 			std::ostringstream ss;
+			ss.exceptions(std::ios_base::badbit);
 			ss.imbue(std::locale::classic());
 			ss << std::uppercase << std::setbase(base);
 			if (min_digits)
@@ -203,6 +204,7 @@ TOML_ANON_NAMESPACE_START
 #else
 
 				std::ostringstream ss;
+				ss.exceptions(std::ios_base::badbit);
 				ss.imbue(std::locale::classic());
 				if (!relaxed_precision)
 					ss.precision(std::numeric_limits<T>::max_digits10);
diff --git a/src_yaml_interface/fkYAML/detail/conversions/to_node.hpp b/src_yaml_interface/fkYAML/detail/conversions/to_node.hpp
index 6f05b94..1d0ed81 100644
--- a/src_yaml_interface/fkYAML/detail/conversions/to_node.hpp
+++ b/src_yaml_interface/fkYAML/detail/conversions/to_node.hpp
@@ -101,7 +101,7 @@ template <
             is_basic_node<BasicNodeType>,
             std::is_same<typename BasicNodeType::sequence_type, remove_cvref_t<T>>>::value,
         int> = 0>
-inline void to_node(BasicNodeType& n, T&& s) noexcept {
+inline void to_node(BasicNodeType& n, T&& s) {
     external_node_constructor<BasicNodeType>::sequence(n, std::forward<T>(s));
 }
 
@@ -186,7 +186,7 @@ template <
         conjunction<
             is_basic_node<BasicNodeType>, std::is_same<typename BasicNodeType::mapping_type, remove_cvref_t<T>>>::value,
         int> = 0>
-inline void to_node(BasicNodeType& n, T&& m) noexcept {
+inline void to_node(BasicNodeType& n, T&& m) {
     external_node_constructor<BasicNodeType>::mapping(n, std::forward<T>(m));
 }
 
diff --git a/src_yaml_interface/fkYAML/exception.hpp b/src_yaml_interface/fkYAML/exception.hpp
index e7cc0d4..a237452 100644
--- a/src_yaml_interface/fkYAML/exception.hpp
+++ b/src_yaml_interface/fkYAML/exception.hpp
@@ -31,7 +31,7 @@ public:
     /// @brief Construct a new exception object with an error message.
     /// @param[in] msg An error message.
     /// @sa https://fktn-k.github.io/fkYAML/api/exception/constructor/
-    explicit exception(const char* msg) noexcept {
+    explicit exception(const char* msg) {
         if (msg) {
             m_error_msg = msg;
         }
@@ -57,7 +57,7 @@ public:
     /// @brief Construct a new invalid_encoding object for UTF-8 related errors.
     /// @param msg An error message.
     /// @param u8 The UTF-8 character bytes.
-    explicit invalid_encoding(const char* msg, const std::initializer_list<uint8_t>& u8) noexcept
+    explicit invalid_encoding(const char* msg, const std::initializer_list<uint8_t>& u8)
         : exception(generate_error_message(msg, u8).c_str()) {
     }
 
@@ -65,19 +65,19 @@ public:
     /// @param msg An error message.
     /// @param u16_h The first UTF-16 encoded element used for the UTF-8 encoding.
     /// @param u16_l The second UTF-16 encoded element used for the UTF-8 encoding.
-    explicit invalid_encoding(const char* msg, std::array<char16_t, 2> u16) noexcept
+    explicit invalid_encoding(const char* msg, std::array<char16_t, 2> u16)
         : exception(generate_error_message(msg, u16).c_str()) {
     }
 
     /// @brief Construct a new invalid_encoding object for UTF-32 related errors.
     /// @param msg An error message.
     /// @param u32 The UTF-32 encoded element used for the UTF-8 encoding.
-    explicit invalid_encoding(const char* msg, char32_t u32) noexcept
+    explicit invalid_encoding(const char* msg, char32_t u32)
         : exception(generate_error_message(msg, u32).c_str()) {
     }
 
 private:
-    static std::string generate_error_message(const char* msg, const std::initializer_list<uint8_t>& u8) noexcept {
+    static std::string generate_error_message(const char* msg, const std::initializer_list<uint8_t>& u8) {
         const auto* itr = u8.begin();
         const auto* end_itr = u8.end();
         std::string formatted = detail::format("invalid_encoding: %s in=[ 0x%02x", msg, *itr++);
@@ -93,7 +93,7 @@ private:
     /// @param h The first UTF-16 encoded element used for the UTF-8 encoding.
     /// @param l The second UTF-16 encoded element used for the UTF-8 encoding.
     /// @return A generated error message.
-    static std::string generate_error_message(const char* msg, std::array<char16_t, 2> u16) noexcept {
+    static std::string generate_error_message(const char* msg, std::array<char16_t, 2> u16) {
         // uint16_t is large enough for UTF-16 encoded elements.
         return detail::format(
             "invalid_encoding: %s in=[ 0x%04x, 0x%04x ]",
@@ -106,7 +106,7 @@ private:
     /// @param msg An error message.
     /// @param u32 The UTF-32 encoded element used for the UTF-8 encoding.
     /// @return A genereated error message.
-    static std::string generate_error_message(const char* msg, char32_t u32) noexcept {
+    static std::string generate_error_message(const char* msg, char32_t u32) {
         // uint32_t is large enough for UTF-32 encoded elements.
         return detail::format("invalid_encoding: %s in=0x%08x", msg, static_cast<uint32_t>(u32));
     }
@@ -120,12 +120,12 @@ public:
     /// @param[in] msg An error message.
     /// @param[in] lines Count of lines.
     /// @param[in] cols_in_line Count of colums.
-    explicit parse_error(const char* msg, uint32_t lines, uint32_t cols_in_line) noexcept
+    explicit parse_error(const char* msg, uint32_t lines, uint32_t cols_in_line)
         : exception(generate_error_message(msg, lines, cols_in_line).c_str()) {
     }
 
 private:
-    static std::string generate_error_message(const char* msg, uint32_t lines, uint32_t cols_in_line) noexcept {
+    static std::string generate_error_message(const char* msg, uint32_t lines, uint32_t cols_in_line) {
         return detail::format("parse_error: %s (at line %u, column %u)", msg, lines, cols_in_line);
     }
 };
@@ -137,7 +137,7 @@ public:
     /// @brief Construct a new type_error object with an error message and a node type.
     /// @param[in] msg An error message.
     /// @param[in] type The type of a source node value.
-    explicit type_error(const char* msg, node_type type) noexcept
+    explicit type_error(const char* msg, node_type type)
         : exception(generate_error_message(msg, type).c_str()) {
     }
 
@@ -146,7 +146,7 @@ public:
     /// @param[in] msg An error message.
     /// @param[in] type The type of a source node value.
     FK_YAML_DEPRECATED("Since 0.3.12; Use explicit type_error(const char*, node_type)")
-    explicit type_error(const char* msg, detail::node_t type) noexcept
+    explicit type_error(const char* msg, detail::node_t type)
         : type_error(msg, detail::convert_to_node_type(type)) {
     }
 
@@ -155,7 +155,7 @@ private:
     /// @param msg An error message.
     /// @param type The type of a source node value.
     /// @return A generated error message.
-    static std::string generate_error_message(const char* msg, node_type type) noexcept {
+    static std::string generate_error_message(const char* msg, node_type type) {
         return detail::format("type_error: %s type=%s", msg, to_string(type));
     }
 };
@@ -166,22 +166,22 @@ class out_of_range : public exception {
 public:
     /// @brief Construct a new out_of_range object with an invalid index value.
     /// @param[in] index An invalid index value.
-    explicit out_of_range(int index) noexcept
+    explicit out_of_range(int index)
         : exception(generate_error_message(index).c_str()) {
     }
 
     /// @brief Construct a new out_of_range object with invalid key contents.
     /// @param[in] key Invalid key contents
-    explicit out_of_range(const char* key) noexcept
+    explicit out_of_range(const char* key)
         : exception(generate_error_message(key).c_str()) {
     }
 
 private:
-    static std::string generate_error_message(int index) noexcept {
+    static std::string generate_error_message(int index) {
         return detail::format("out_of_range: index %d is out of range", index);
     }
 
-    static std::string generate_error_message(const char* key) noexcept {
+    static std::string generate_error_message(const char* key) {
         return detail::format("out_of_range: key \'%s\' is not found.", key);
     }
 };
@@ -198,7 +198,7 @@ public:
     }
 
 private:
-    static std::string generate_error_message(const char* msg, const char* tag) noexcept {
+    static std::string generate_error_message(const char* msg, const char* tag) {
         return detail::format("invalid_tag: %s tag=%s", msg, tag);
     }
 };
diff --git a/src_yaml_interface/fkYAML/node.hpp b/src_yaml_interface/fkYAML/node.hpp
index b884700..e7c213f 100644
--- a/src_yaml_interface/fkYAML/node.hpp
+++ b/src_yaml_interface/fkYAML/node.hpp
@@ -204,6 +204,9 @@ private:
         /// containers.
         /// @param[in] type A Node type to determine the value to be destroyed.
         void destroy(detail::node_attr_t value_type_bit) {
+            // the allocation of the value may have failed: all the owning members share the same storage.
+            if (!p_mapping) return;
+
             switch (value_type_bit) {
             case detail::node_attr_bits::seq_bit:
                 p_sequence->clear();
@@ -353,8 +356,7 @@ public:
                 detail::negation<detail::is_basic_node<U>>,
                 detail::disjunction<detail::is_node_compatible_type<basic_node, U>>>::value,
             int> = 0>
-    basic_node(CompatibleType&& val) noexcept(
-        noexcept(ConverterType<U, void>::to_node(std::declval<basic_node&>(), std::declval<CompatibleType>()))) {
+    basic_node(CompatibleType&& val) {
         ConverterType<U, void>::to_node(*this, std::forward<CompatibleType>(val));
     }
 
@@ -567,7 +569,7 @@ public:
     /// @param[in] rhs A lvalue basic_node object to be copied with.
     /// @return Reference to this basic_node object.
     /// @sa https://fktn-k.github.io/fkYAML/api/basic_node/operator=/
-    basic_node& operator=(const basic_node& rhs) noexcept {
+    basic_node& operator=(const basic_node& rhs) {
         basic_node(rhs).swap(*this);
         return *this;
     }
diff --git a/src_yaml_interface/from_yaml.cc b/src_yaml_interface/from_yaml.cc
index 017d7b5..fb4addf 100755
--- a/src_yaml_interface/from_yaml.cc
+++ b/src_yaml_interface/from_yaml.cc
@@ -96,8 +96,9 @@ namespace GC_namespace {
       case fkyaml::node_type::SEQUENCE: {
         size_t N{node.size()};
         vector_type & V{ gc.set_vector( N ) };
+        auto & sequence = node.get_value_ref<const fkyaml::node::sequence_type&>();
         for ( size_t i{0}; ok && i < N; ++i )
-          ok = YAML_to_GC( node[i], V[i] );
+          ok = YAML_to_GC( sequence[i], V[i] );
         break;
       }
       case fkyaml::node_type::MAPPING: {
-- 
2.43.0


From 3caba72df03df68b014b998b7730af67094bc00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:18 +0000
Subject: [PATCH 48/67] fix: to_json writes pointers as strings, a bare
 hexadecimal number makes the whole document unreadable

---
 src_json_interface/to_json.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index 51db3f2..37f6860 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -199,14 +199,14 @@ namespace GC_namespace {
         break;
       }
       case GC_type::POINTER:
-        stream << hex_pointer(m_data.p);
+        stream << '"' << hex_pointer(m_data.p) << '"'; // JSON has no hexadecimal numbers
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
         char const * pre{""};
         stream << "[ ";
         for ( auto const & vi : V ) {
-          stream << pre << hex_pointer(vi);
+          stream << pre << '"' << hex_pointer(vi) << '"';
           pre = ", ";
         }
         stream << " ]";
-- 
2.43.0


From d7445dc82cb7afba6af57a6c803922b5caa1e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:36 +0000
Subject: [PATCH 49/67] fix: to_yaml writes the elements of complex vectors and
 matrices so that they are read back as one element

---
 src_yaml_interface/to_yaml.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index c3372fa..1318c91 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -56,6 +56,10 @@ namespace GC_namespace {
     return data.str();
   }
 
+  // element of a sequence: complex numbers not as (re,im), the comma would split the element
+  template <typename T> static T const & yaml_element( T const & v ) { return v; }
+  static string yaml_element( complex_type const & v ) { return to_string(v); }
+
   // write a key, quoted when YAML would not read it back as the same string
   static
   void
@@ -111,7 +115,7 @@ namespace GC_namespace {
         char const * pre = "";                 \
         stream << "[ ";                        \
         for ( auto const & vi : v )            \
-          { stream << pre << vi; pre = ", "; } \
+          { stream << pre << yaml_element(vi); pre = ", "; } \
         stream << " ]\n"
       case GC_type::VEC_INTEGER: {
         vec_int_type const & v{*m_data.v_i};
@@ -184,7 +188,7 @@ namespace GC_namespace {
           stream << prefix << "- [ ";                \
           char const * pre = "";                     \
           for ( unsigned i{0}; i < NR; ++i )         \
-            { stream << pre << M(i,j); pre = ", "; } \
+            { stream << pre << yaml_element(M(i,j)); pre = ", "; } \
           stream << " ]\n";                          \
         }
 
-- 
2.43.0


From 6603e08c00a96114e3e233b6c87d2ce2442dbc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 50/67] fix: to_toml labels matrices of real and complex
 numbers with their own type

---
 src_toml_interface/to_toml.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index f93c11a..3b04e48 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -151,7 +151,7 @@ namespace GC_namespace {
         mat_real.insert("$ncols",gc.num_cols());
         mat_real.insert("$data",data);
         DEF_UNIQUE( toml::table );
-        node->as_table()->insert( "$mat_long", std::move(mat_real) );
+        node->as_table()->insert( "$mat_real", std::move(mat_real) );
         return node;
       }
       case GC_type::MAT_COMPLEX: {
@@ -166,7 +166,7 @@ namespace GC_namespace {
         mat_complex.insert("$data_real",data_real);
         mat_complex.insert("$data_imag",data_imag);
         DEF_UNIQUE( toml::table );
-        node->as_table()->insert( "$mat_long", std::move(mat_complex) );
+        node->as_table()->insert( "$mat_complex", std::move(mat_complex) );
         return node;
       }
       case GC_type::POINTER: {
-- 
2.43.0


From 5accb59c3ae3e29f4b9551d83814c4519896b042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:40 +0000
Subject: [PATCH 51/67] fix: tables with CR LF line ends, the last header kept
 the CR and an empty line was taken as data

---
 src/GenericContainerSupport.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index f3df49b..1a99a15 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -93,6 +93,7 @@ namespace GC_namespace {
     unsigned nl = 0;
     do {
       if ( !getline( stream, line ) ) { line.clear(); return 0; }
+      if ( !line.empty() && line.back() == '\r' ) line.pop_back(); // line ends of the other systems
       ++nl;
     } while ( line.find_first_of(commentchars) != string_type::npos ); // ????????????
     return nl;
@@ -110,6 +111,7 @@ namespace GC_namespace {
     bool     comment = true;
     while ( comment ) {
       if ( !getline( stream, line ) ) { line.clear(); return 0; }
+      if ( !line.empty() && line.back() == '\r' ) line.pop_back(); // line ends of the other systems
       comment = line.empty() ||
                 line.find_first_of(commentchars) != string_type::npos;
       if ( ptr_pars != nullptr && comment && line.length() > 2 && line[1] == '!' ) {
-- 
2.43.0


From 7d6ed26bfe54da713abf09f6d150bb52ff4cbf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:42 +0000
Subject: [PATCH 52/67] fix: from_json2 keeps nested arrays nested and the last
 of equal keys

---
 src_json_interface/jsonParser.tab.hh | 9 +++++----
 src_json_interface/jsonParser.yy     | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index 7df0263..1674437 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -121,13 +121,14 @@
     void open_map()  { m_stack.push_back( get_gc() ); m_stack.back()->set_map(); }
     void close_map() { m_stack.pop_back(); }
 
-    void open_vector()  { get_gc()->set_vector(); }
-    void close_vector() { }
+    void open_vector()  { m_stack.push_back( get_gc() ); m_stack.back()->set_vector(); }
+    void close_vector() { m_stack.pop_back(); }
 
     void
     set_key( string const & s ) {
-      map_type & m{ get_gc()->set_map() };
-      m_stack.push_back( &m[s] );
+      GenericContainer & gc{ m_stack.back()->set_map()[s] };
+      gc.clear(); // the last of equal keys wins
+      m_stack.push_back( &gc );
     }
 
     void pop() { m_stack.pop_back(); }
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index c9e16a1..a9cc40b 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -76,13 +76,14 @@
     void open_map()  { m_stack.push_back( get_gc() ); m_stack.back()->set_map(); }
     void close_map() { m_stack.pop_back(); }
 
-    void open_vector()  { get_gc()->set_vector(); }
-    void close_vector() { }
+    void open_vector()  { m_stack.push_back( get_gc() ); m_stack.back()->set_vector(); }
+    void close_vector() { m_stack.pop_back(); }
 
     void
     set_key( string const & s ) {
-      map_type & m{ get_gc()->set_map() };
-      m_stack.push_back( &m[s] );
+      GenericContainer & gc{ m_stack.back()->set_map()[s] };
+      gc.clear(); // the last of equal keys wins
+      m_stack.push_back( &gc );
     }
 
     void pop() { m_stack.pop_back(); }
-- 
2.43.0


From 0febe53dcf5af1f046cfbd9637ad65b9f925f6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:30 +0000
Subject: [PATCH 53/67] fix: from_json2 took a token it cannot read as the end
 of the text

---
 src_json_interface/jsonLexer.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index a4c38c8..8ea4517 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -23,15 +23,15 @@ namespace yy {
   int
   jsonLexer::yylex( std::string * yylval, yy::location * yylloc ) {
 
-    if ( m_cursor == m_input.end() ) return 0; // EOF
-
     // skip whitespace
-    do {
-      char const & ch{*m_cursor};
+    for ( ; m_cursor != m_input.end(); ++m_cursor ) {
+      unsigned char const ch{static_cast<unsigned char>(*m_cursor)};
       if      ( ch == '\n'  ) { ++m_lineno; m_colno = 1; }
       else if ( isspace(ch) ) ++m_colno;
       else                    break;
-    } while ( ++m_cursor != m_input.end() );
+    }
+
+    if ( m_cursor == m_input.end() ) return 0; // EOF
 
     auto res{yy::parser::token::ERROR};
 
@@ -72,7 +72,7 @@ namespace yy {
         // controllo che non sia unicode
         if ( unicode_1(ch0) ) {
           if ( ch0 == '\\' ) {
-            if ( ++m_cursor == m_input.end() ) return 0; // EOF
+            if ( ++m_cursor == m_input.end() ) return res; // unterminated string
             char const & ch1{*m_cursor};
             switch (ch1) {
             case 'n':  m_lexeme += '\n'; break;
@@ -91,17 +91,17 @@ namespace yy {
           }
         } else { // multibyte unicode
           m_lexeme += ch0;
-          if ( ++m_cursor == m_input.end() ) return 0; // EOF
+          if ( ++m_cursor == m_input.end() ) return res; // unterminated string
           char const & ch1{*m_cursor};
           if ( !ok_unicode(ch1) ) break; // Invalid UTF-8 continuation byte
           m_lexeme += ch1;
           if ( unicode_min_3(ch0) ) {
-            if ( ++m_cursor == m_input.end() ) return 0; // EOF
+            if ( ++m_cursor == m_input.end() ) return res; // unterminated string
             char const & ch2{*m_cursor};
             if ( !ok_unicode(ch2) ) break; // Invalid UTF-8 continuation byte
             m_lexeme += ch2;
             if ( unicode_min_4(ch0) ) {
-              if ( ++m_cursor == m_input.end() ) return 0; // EOF
+              if ( ++m_cursor == m_input.end() ) return res; // unterminated string
               char const & ch3{*m_cursor};
               if ( !ok_unicode(ch3) ) break; // Invalid UTF-8 continuation byte
               m_lexeme += ch3;
@@ -137,7 +137,7 @@ namespace yy {
           if ( state > 2 || state == 0 ) break;
           state = 3;
         } else if ( ch == '+' || ch == '-' ) {
-          if ( state != 3 ) return false;
+          if ( state != 3 ) break;
           state = 4;
         } else {
           //std::cout << "STATE = " << state << '\n';
@@ -153,7 +153,7 @@ namespace yy {
       //std::cerr << "lexeme: " << m_lexeme << "\n";
       //std::cerr << "FAILED\n";
       m_cursor = start_pos;  // Ripristina la posizione iniziale
-      return -1;             // Se nessuna corrispondenza
+      return res;            // Se nessuna corrispondenza
     } else {
       m_colno += m_cursor-start_pos;
       //yylloc->begin.line   = m_lineno;
-- 
2.43.0


From 9b34996c1e3d8b8c6bb691e06a468ce8b8425df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:30 +0000
Subject: [PATCH 54/67] fix: from_json2 reads a number at the end of the text
 and integers beyond 64 bits, refuses malformed numbers

---
 src_json_interface/jsonLexer.cc      | 43 ++++++++++++----------------
 src_json_interface/jsonParser.tab.hh |  6 +++-
 src_json_interface/jsonParser.yy     |  6 +++-
 3 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index 8ea4517..7d1d7d3 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -122,31 +122,26 @@ namespace yy {
     case '7':
     case '8':
     case '9': // Numeri o altri caratteri
-      char const & ch0{*m_cursor};
-      int state{ (ch0 == '+' || ch0 == '-') ? 0 : 1 };
-      while ( ++m_cursor != m_input.end() ) {
-        char const & ch{*m_cursor};
-        m_lexeme += ch;
-        if ( isdigit(ch) ) {
-          if      ( state == 0 ) state = 1;
-          else if ( state == 3 ) state = 4;
-        } else if ( ch == '.' ) {
-          if ( state > 1 ) break;
-          state = 2;
-        } else if ( ch == 'e' || ch == 'E' ) {
-          if ( state > 2 || state == 0 ) break;
-          state = 3;
-        } else if ( ch == '+' || ch == '-' ) {
-          if ( state != 3 ) break;
-          state = 4;
-        } else {
-          //std::cout << "STATE = " << state << '\n';
-          m_lexeme.pop_back();
-          if      ( state == 1               ) res = yy::parser::token::INTEGER;
-          else if ( state == 4 || state == 2 ) res = yy::parser::token::FLOAT;
-          break;
-        }
+      auto skip_digits = [this]() {
+        std::string::const_iterator const first{m_cursor};
+        while ( m_cursor != m_input.end() && *m_cursor >= '0' && *m_cursor <= '9' ) ++m_cursor;
+        return m_cursor != first;
+      };
+      auto next_is = [this]( char a, char b ) {
+        return m_cursor != m_input.end() && ( *m_cursor == a || *m_cursor == b );
+      };
+      bool is_float{false};
+      if ( next_is('+','-') ) ++m_cursor;
+      bool ok{skip_digits()};
+      if ( next_is('.','.') ) { is_float = true; ++m_cursor; ok = skip_digits() || ok; }
+      if ( ok && next_is('e','E') ) {
+        is_float = true;
+        ++m_cursor;
+        if ( next_is('+','-') ) ++m_cursor;
+        ok = skip_digits();
       }
+      m_lexeme.assign( start_pos, m_cursor );
+      if ( ok ) res = is_float ? yy::parser::token::FLOAT : yy::parser::token::INTEGER;
       break;
     }
     if ( res == yy::parser::token::ERROR ) {
diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index 1674437..a182e5a 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -47,6 +47,7 @@
 // "%code requires" blocks.
 #line 4 "jsonParser.yy"
 
+  #include <cerrno>
   #include <cstdlib>
   #include <sstream>
   #include "jsonLexer.hh"
@@ -104,9 +105,12 @@
     set_integer( string const & s ) {
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
+      errno = 0;
       long long res = std::strtoll(s.c_str(), &end, 10);
       if ( *end == '\0' ) {
-        if ( res <= std::numeric_limits<GC::int_type>::max() &&
+        if ( errno == ERANGE ) {
+          gc->set_real( std::strtod( s.c_str(), nullptr ) );
+        } else if ( res <= std::numeric_limits<GC::int_type>::max() &&
              res >= std::numeric_limits<GC::int_type>::min() ) {
           gc->set_int(GC::int_type(res));
         } else {
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index a9cc40b..2e4ef16 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -2,6 +2,7 @@
 %language "c++"
 
 %code requires {
+  #include <cerrno>
   #include <cstdlib>
   #include <sstream>
   #include "jsonLexer.hh"
@@ -59,9 +60,12 @@
     set_integer( string const & s ) {
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
+      errno = 0;
       long long res = std::strtoll(s.c_str(), &end, 10);
       if ( *end == '\0' ) {
-        if ( res <= std::numeric_limits<GC::int_type>::max() &&
+        if ( errno == ERANGE ) {
+          gc->set_real( std::strtod( s.c_str(), nullptr ) );
+        } else if ( res <= std::numeric_limits<GC::int_type>::max() &&
              res >= std::numeric_limits<GC::int_type>::min() ) {
           gc->set_int(GC::int_type(res));
         } else {
-- 
2.43.0


From 933424894d291be64efa07cdb1041279c5ec040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:30 +0000
Subject: [PATCH 55/67] fix: from_json2 decodes \u and \/ in strings

---
 src_json_interface/jsonLexer.cc | 39 +++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index 7d1d7d3..6dbdd0d 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -82,6 +82,45 @@ namespace yy {
             case 'r':  m_lexeme += '\r'; break;
             case 'b':  m_lexeme += '\b'; break;
             case 'f':  m_lexeme += '\f'; break;
+            case '/':  m_lexeme += '/';  break;
+            case 'u':
+              {
+                auto hex4 = [this]( unsigned & code ) { // the four digits after m_cursor
+                  code = 0;
+                  for ( int i{0}; i < 4; ++i ) {
+                    if ( ++m_cursor == m_input.end() || !isxdigit( static_cast<unsigned char>(*m_cursor) ) ) return false;
+                    int const h{ tolower( static_cast<unsigned char>(*m_cursor) ) };
+                    code = code*16 + static_cast<unsigned>( h <= '9' ? h-'0' : h-'a'+10 );
+                  }
+                  return true;
+                };
+                unsigned code, low;
+                if ( !hex4(code) ) { m_cursor = start_pos; return res; }
+                if ( code >= 0xD800 && code < 0xE000 ) { // surrogate pair
+                  if ( code >= 0xDC00 ||
+                       ++m_cursor == m_input.end() || *m_cursor != '\\' ||
+                       ++m_cursor == m_input.end() || *m_cursor != 'u'  ||
+                       !hex4(low) || low < 0xDC00 || low >= 0xE000 ) { m_cursor = start_pos; return res; }
+                  code = 0x10000 + ((code-0xD800)<<10) + (low-0xDC00);
+                }
+                if ( code < 0x80 ) {
+                  m_lexeme += static_cast<char>(code);
+                } else {
+                  if ( code < 0x800 ) {
+                    m_lexeme += static_cast<char>(0xC0|(code>>6));
+                  } else {
+                    if ( code < 0x10000 ) {
+                      m_lexeme += static_cast<char>(0xE0|(code>>12));
+                    } else {
+                      m_lexeme += static_cast<char>(0xF0|(code>>18));
+                      m_lexeme += static_cast<char>(0x80|((code>>12)&0x3F));
+                    }
+                    m_lexeme += static_cast<char>(0x80|((code>>6)&0x3F));
+                  }
+                  m_lexeme += static_cast<char>(0x80|(code&0x3F));
+                }
+              }
+              break;
             default:
               m_lexeme += '\\';
               m_lexeme += ch1;
-- 
2.43.0


From c336cd68d68bd17009136ee98c8cd241e702bec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:30 +0000
Subject: [PATCH 56/67] fix: from_json2 reports a medium that fails and an
 empty text, and replaces the earlier content only on success

---
 src_json_interface/from_json2.cc | 12 ++++++++++--
 src_json_interface/jsonLexer.hh  |  9 ++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src_json_interface/from_json2.cc b/src_json_interface/from_json2.cc
index 59eaa5d..e937554 100644
--- a/src_json_interface/from_json2.cc
+++ b/src_json_interface/from_json2.cc
@@ -19,13 +19,21 @@ namespace GC_namespace {
     yy::jsonLexer lexer;
     lexer.set_stream(&stream);
 
+    if ( stream.bad() || lexer.no_input() ) return false;
+
     // Crea il parser e passa il lexer
-    GenericContainerWrapper gcw(this);
+    // replace the content only when everything succeed
+    GenericContainer tmp;
+    GenericContainerWrapper gcw(&tmp);
     yy::parser parser(lexer,&gcw);
 
     // Esegui il parsing
     bool ok{parser() == 0};
-    if ( ok ) this->collapse();
+    if ( ok ) {
+      tmp.collapse();
+      std::swap( m_data, tmp.m_data );
+      std::swap( m_data_type, tmp.m_data_type );
+    }
     return ok;
   }
 
diff --git a/src_json_interface/jsonLexer.hh b/src_json_interface/jsonLexer.hh
index 1906a70..c3ec703 100644
--- a/src_json_interface/jsonLexer.hh
+++ b/src_json_interface/jsonLexer.hh
@@ -39,12 +39,15 @@ namespace yy {
     void
     set_stream( std::istream * file ) {
       // Utilizziamo un buffer di stringa per leggere tutto il contenuto dello stream
-      std::ostringstream oss;
-      oss << file->rdbuf(); // Leggiamo tutto il contenuto nel buffer della stringa
-      m_input  = oss.str();
+      m_input.clear();
+      for ( int c; ( c = file->get() ) != std::istream::traits_type::eof(); ) // a failure is recorded in the stream
+        m_input += std::istream::traits_type::to_char_type(c);
       m_cursor = m_input.begin();
     }
 
+    //! true if the text has nothing but white space
+    bool no_input() const { return m_input.find_first_not_of(" \t\n\v\f\r") == std::string::npos; }
+
   private:
 
     std::string                 m_lexeme;
-- 
2.43.0


From b9636b84871b85918b980f02d481b2ad62015604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:52 +0000
Subject: [PATCH 57/67] fix: a failed memory request while from_json2 sets up
 its parser ended the program

---
 src_json_interface/jsonParser.tab.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index a182e5a..1ee3628 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -757,7 +757,7 @@ namespace yy {
       typedef typename S::size_type size_type;
       typedef typename std::ptrdiff_t index_type;
 
-      stack (size_type n = 200) YY_NOEXCEPT
+      stack (size_type n = 200)
         : seq_ (n)
       {}
 
-- 
2.43.0


From c4b0030eacf795fe56650fd2112abec38d5f99e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:04 +0000
Subject: [PATCH 58/67] fix: a YAML block scalar whose first line is one
 character swallowed the next line

---
 src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
index 5ec2f81..df453c4 100644
--- a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
@@ -1006,7 +1006,7 @@ private:
             emit_error("The first non-empty line in the block scalar is less indented.");
         }
 
-        std::size_t last_newline_pos = sv.find('\n', cur_itr - m_token_begin_itr + 1);
+        std::size_t last_newline_pos = sv.find('\n', cur_itr - m_token_begin_itr);
         if (last_newline_pos == str_view::npos) {
             last_newline_pos = remain_input_len;
         }
-- 
2.43.0


From e886d03c190f74919a4f7d161e0e94063f1626d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:38 +0000
Subject: [PATCH 59/67] fix: to_mxArray of a string_view read past the end of
 the text

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 4e6137c..08be824 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -368,7 +368,7 @@ namespace GC_namespace {
 
   void
   to_mxArray( string_view val, mxArray * & mx ) {
-    mx = mxCreateString( val.data() );
+    mx = mxCreateString( string(val).c_str() );
   }
 
   void
-- 
2.43.0


From d2a6ef1b64cfc19c7c8b0e72f6d5795165444a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:38 +0000
Subject: [PATCH 60/67] fix: a sparse logical matrix from MATLAB was read as
 doubles, past the end of its entries

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 08be824..7fe56e8 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -251,6 +251,13 @@ namespace GC_namespace {
     for ( unsigned i = 0; i <= nc; ++i ) jc[i] = jcs[i];
     for ( unsigned i = 0; i < nnz; ++i ) ir[i] = irs[i];
 
+    if ( mxIsLogical( mx ) ) { // the entries are mxLogical, not double
+      mxLogical const * sl = mxGetLogicals(mx);
+      vec_real_type & val = gc["values"].set_vec_real( nnz );
+      for ( unsigned i = 0; i < nnz; ++i ) val[i] = sl[i];
+      return;
+    }
+
     real_type * sr = mxGetPr(mx);
     if ( mxIsComplex( mx ) ) {
       real_type * si = mxGetPi(mx);
-- 
2.43.0


From 0fd1aa640c58f77224668d8c529bb807c4e058cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:38 +0000
Subject: [PATCH 61/67] fix: uint32 values above 2^31-1 from MATLAB became
 negative

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 7fe56e8..31455b7 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -325,7 +325,7 @@ namespace GC_namespace {
           case mxINT16_CLASS:   mx_to_vec_int<int16_t>(mx,gc);   break;
           case mxUINT16_CLASS:  mx_to_vec_int<uint16_t>(mx,gc);  break;
           case mxINT32_CLASS:   mx_to_vec_int<int32_t>(mx,gc);   break;
-          case mxUINT32_CLASS:  mx_to_vec_int<uint32_t>(mx,gc);  break;
+          case mxUINT32_CLASS:  mx_to_vec_long<uint32_t>(mx,gc); break;
           case mxINT64_CLASS:   mx_to_vec_long<int64_t>(mx,gc);  break;
           case mxUINT64_CLASS:  mx_to_vec_long<uint64_t>(mx,gc); break;
           case mxSINGLE_CLASS:  mx_to_vec_real<float>(mx,gc);    break;
-- 
2.43.0


From 2b9b0abb33e770024c9a18fd93b2d57339a1a419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:38 +0000
Subject: [PATCH 62/67] fix: text from MATLAB that cannot be obtained crashed,
 and a MATLAB string with wide characters was cut and leaked on failure

---
 .../GenericContainerInterface_matlab.cc       | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 31455b7..25f6b52 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -7,6 +7,7 @@
 
 #include <iostream>
 #include <cstdint>
+#include <stdexcept>
 
 #ifndef DOXYGEN_SHOULD_SKIP_THIS
 using namespace std;
@@ -24,6 +25,18 @@ namespace GC_namespace {
 
   // ===========================================================================
 
+  static
+  void
+  mx_to_string( mxArray const * mx, GenericContainer & gc ) {
+    char * str = mxArrayToString(mx);
+    if ( str == nullptr )
+      throw std::runtime_error("mxArray_to_GenericContainer: cannot get the text of a char array");
+    gc = str;
+    mxFree(str);
+  }
+
+  // ===========================================================================
+
   static
   void
   mx_to_vec_bool( mxArray const * mx, GenericContainer & gc ) {
@@ -282,7 +295,7 @@ namespace GC_namespace {
     } else if ( category == mxSTRUCT_CLASS ) {
       mx_to_map(mx,gc);
     } else if ( category == mxCHAR_CLASS ) {
-      gc = mxArrayToString(mx);
+      mx_to_string(mx,gc);
     } else if ( mxIsSparse(mx) ) {
       mxSparse_to_GenericContainer( mx, gc );
     } else if ( mxIsClass(mx,"string") ) {
@@ -293,12 +306,8 @@ namespace GC_namespace {
       mxArray * char_array[1];
       string_class[0] = const_cast<mxArray*>(mx);
       mexCallMATLAB(1, char_array, 1, string_class, "char");
-      // Parse the char array to create an std::string
-      int buflen = mxGetN(char_array[0])*sizeof(mxChar)+1;
-      char* buf = new char[buflen];
-      mxGetString(char_array[0],buf,buflen);
-      gc = buf;
-      delete [] buf;
+      mx_to_string(char_array[0],gc);
+      mxDestroyArray(char_array[0]);
     } else {
       if ( mxIsComplex(mx) ) {
         switch (category)  {
-- 
2.43.0


From 19264506803b23a473a99f6d6c19aaa0b59e2362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:46 +0000
Subject: [PATCH 63/67] fix: pushing a text or complex number stored in the
 container itself used freed memory

---
 src/GenericContainer.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 8baeeb8..a9a2339 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -1270,12 +1270,13 @@ namespace GC_namespace {
 
   void
   GenericContainer::push_complex( complex_type & c ) {
+    complex_type const tmp( c ); // `c` may be stored in this container
     if ( m_data_type == GC_type::VECTOR ) {
       m_data.v->resize(m_data.v->size()+1);
-      m_data.v->back().set_complex( c );
+      m_data.v->back().set_complex( tmp );
     } else {
       if ( m_data_type != GC_type::VEC_COMPLEX ) promote_to_vec_complex();
-      m_data.v_c->emplace_back( c );
+      m_data.v_c->emplace_back( tmp );
     }
   }
 
@@ -1287,12 +1288,13 @@ namespace GC_namespace {
 
   void
   GenericContainer::push_string( string_view const s ) {
+    string_type const tmp( s ); // `s` may be stored in this container
     if ( m_data_type != GC_type::VEC_STRING ) promote_to_vector();
     if ( m_data_type == GC_type::VEC_STRING ) {
-      m_data.v_s->emplace_back( s );
+      m_data.v_s->emplace_back( tmp );
     } else {
       m_data.v->resize(m_data.v->size()+1);
-      m_data.v->back().set_string( s );
+      m_data.v->back().set_string( tmp );
     }
   }
 
-- 
2.43.0


From 8446c325cf6a4f62821c1a0f45348bf2bfd12619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:20 +0000
Subject: [PATCH 64/67] fix: printing a map with a very long key exhausted the
 stack

---
 src/GenericContainer.cc | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index a9a2339..69f0658 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -37,7 +37,7 @@
   #error This library needs at least a C++11 compliant compiler
 #endif
 
-#include <regex>
+#include <algorithm>
 #include <fstream>
 
 #ifndef DOXYGEN_SHOULD_SKIP_THIS
@@ -261,24 +261,33 @@ namespace GC_namespace {
 
   class Pcre_for_GC {
 
-    std::regex reCompiled;
-
   public:
 
-    Pcre_for_GC()
-    : reCompiled(R"(^\s*\d+\s*(##?)(-|=|~|_|)\s*(.*)$)")
-    { }
+    Pcre_for_GC() { }
 
     ~Pcre_for_GC() = default;
 
+    // match ^\s*\d+\s*(##?)(-|=|~|_|)\s*(.*)$
+    // std::regex is not used: it recurs for each character and a long key exhausts the stack
     int
-    exec( string_view const str_in, string_type matches[4] ) const {
-      std::smatch reMatches; // local: shared by all the threads which print
-      if ( string const str(str_in); std::regex_match( str, reMatches, reCompiled ) ) {
-        for ( size_t i{0}; i < reMatches.size(); ++i ) matches[i] = reMatches[i].str();
-        return static_cast<int>(reMatches.size());
-      }
-      return 0;
+    exec( string_view const str, string_type matches[4] ) const {
+      size_t i{0};
+      auto is_one_of = [&]( char const * set ) { return i < str.length() && string_view(set).find( str[i] ) != string_view::npos; };
+      while ( is_one_of(" \t\n\v\f\r") ) ++i;
+      if ( !is_one_of("0123456789") ) return 0;
+      while ( is_one_of("0123456789") ) ++i;
+      while ( is_one_of(" \t\n\v\f\r") ) ++i;
+      if ( !is_one_of("#") ) return 0;
+      ++i;
+      matches[1] = "#";
+      if ( is_one_of("#") ) { matches[1] += '#'; ++i; }
+      matches[2].clear();
+      if ( is_one_of("-=~_") ) matches[2] = str[i++];
+      while ( is_one_of(" \t\n\v\f\r") ) ++i;
+      if ( str.find_first_of( "\n\r", i ) != string_view::npos ) return 0; // not in one line
+      matches[0] = str;
+      matches[3] = str.substr(i);
+      return 4;
     }
   };
 
-- 
2.43.0


From ba8fee9541972425d1805c78a31df354d21e21c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:08 +0000
Subject: [PATCH 65/67] fix: a Lua session without a program name used the name
 of the previous session

---
 src_lua_interface/GenericContainerLuaPmain.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src_lua_interface/GenericContainerLuaPmain.cc b/src_lua_interface/GenericContainerLuaPmain.cc
index 19555f7..18ad4cc 100644
--- a/src_lua_interface/GenericContainerLuaPmain.cc
+++ b/src_lua_interface/GenericContainerLuaPmain.cc
@@ -695,6 +695,7 @@ namespace GC_namespace {
   ) {
     lua_State *L = luaL_newstate();  /* create state */
     GC_ASSERT( L != nullptr, "LuaInterpreter::interactive, cannot create state: not enough memory" );
+    progname = LUA_PROGNAME;  /* the name of a previous session may no longer exist */
     /* call 'pmain' in protected mode */
     lua_pushcfunction(L, &pmain);
     lua_pushinteger(L, argc);  /* 1st argument */
-- 
2.43.0


From 64a0830b3dc5e87e3dc292e241b2016c7287da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:08 +0000
Subject: [PATCH 66/67] fix: the prompt of a Lua session was used after it was
 freed, and a failed memory request there aborted

---
 src_lua_interface/GenericContainerLuaPmain.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_lua_interface/GenericContainerLuaPmain.cc b/src_lua_interface/GenericContainerLuaPmain.cc
index 18ad4cc..1bcd21b 100644
--- a/src_lua_interface/GenericContainerLuaPmain.cc
+++ b/src_lua_interface/GenericContainerLuaPmain.cc
@@ -644,7 +644,7 @@ pmain (lua_State *L) {
   int argc = static_cast<int>(lua_tointeger(L, 1));
   char       ** argv     = static_cast<char **>(lua_touserdata(L, 2));
   char const ** messages = static_cast<char const **>(lua_touserdata(L, 3));
-  char const *  prompt   = lua_tostring(L, 4);
+  char const *  prompt   = static_cast<char const *>(lua_touserdata(L, 4));
 
   int script;
   int args = collectargs(argv, &script);
@@ -701,7 +701,7 @@ namespace GC_namespace {
     lua_pushinteger(L, argc);  /* 1st argument */
     lua_pushlightuserdata(L, argv); /* 2nd argument */
     lua_pushlightuserdata(L, messages); /* 4nd argument */
-    lua_pushstring(L, prompt); /* 5nd argument */
+    lua_pushlightuserdata(L, const_cast<char *>(prompt)); /* 5nd argument, no memory is requested */
 
     int status = lua_pcall(L, 4, 1, 0);
     int result = lua_toboolean(L, -1);  /* get result */
-- 
2.43.0


From 6bfbba0a5c619cd7d973b0489574b311a4bf2fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:08 +0000
Subject: [PATCH 67/67] fix: a statement unfinished at the end of the input was
 reported without its error

---
 src_lua_interface/GenericContainerLuaPmain.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src_lua_interface/GenericContainerLuaPmain.cc b/src_lua_interface/GenericContainerLuaPmain.cc
index 1bcd21b..7409d21 100644
--- a/src_lua_interface/GenericContainerLuaPmain.cc
+++ b/src_lua_interface/GenericContainerLuaPmain.cc
@@ -345,7 +345,7 @@ get_prompt (lua_State *L, int firstline) {
 /*
 ** Check whether 'status' signals a syntax error and the error
 ** message at the top of the stack ends with the above mark for
-** incomplete statements.
+** incomplete statements. The message is left on the stack.
 */
 static
 int
@@ -353,10 +353,8 @@ incomplete (lua_State *L, int status) {
   if (status == LUA_ERRSYNTAX) {
     size_t lmsg;
     const char *msg = lua_tolstring(L, -1, &lmsg);
-    if (lmsg >= marklen && strcmp(msg + lmsg - marklen, EOFMARK) == 0) {
-      lua_pop(L, 1);
+    if (lmsg >= marklen && strcmp(msg + lmsg - marklen, EOFMARK) == 0)
       return 1;
-    }
   }
   return 0;  /* else... */
 }
@@ -373,8 +371,10 @@ pushline (lua_State *L, int firstline) {
   size_t l;
   const char *prmt = get_prompt(L, firstline);
   int readstatus = lua_readline(L, b, prmt);
-  if (readstatus == 0)
-    return 0;  /* no input (prompt will be popped by caller) */
+  if (readstatus == 0) {
+    lua_pop(L, 1);  /* remove prompt */
+    return 0;  /* no input */
+  }
   lua_pop(L, 1);  /* remove prompt */
   l = strlen(b);
   if (l > 0 && b[l-1] == '\n')  /* line ends with newline? */
@@ -421,6 +421,7 @@ multiline (lua_State *L) {
       lua_saveline(L, line);  /* keep history */
       return status;  /* cannot or should not try to add continuation line */
     }
+    lua_remove(L, -2);  /* remove the message of the incomplete statement */
     lua_pushliteral(L, "\n");  /* add newline... */
     lua_insert(L, -2);  /* ...between the two lines */
     lua_concat(L, 3);  /* join them */
-- 
2.43.0

