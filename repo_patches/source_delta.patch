From 69a09ce8de069f3d8d04017efe9fc156d21badc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 01/14] fix: read_from_raw rejects short files and failed
 reads, frees its buffer

---
 vmmlib/matrix.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 99c3069..2b93391 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2648,7 +2648,7 @@ Matrix< M, N, T >::read_from_raw( const std::string& dir_, const std::string& fi
 
     size_t max_file_len = 2147483648u - sizeof(T) ;
     size_t len_data = sizeof(T) * size();
-    char* data = new char[ len_data ];
+    std::vector< char > data( len_data );
     std::ifstream infile;
     infile.open( path.c_str(), std::ios::in);
 
@@ -2662,7 +2662,12 @@ Matrix< M, N, T >::read_from_raw( const std::string& dir_, const std::string& fi
             size_t len_read = (len_data % max_file_len ) > 0 ?
                                         len_data % max_file_len : len_data;
             len_data -= len_read;
-            infile.read( data, len_read );
+            infile.read( &data[0], len_read );
+            if( size_t( infile.gcount( )) != len_read )
+            {
+                std::cout << "could not read " << path << std::endl;
+                return;
+            }
 
             T* T_ptr = (T*)&(data[0]);
             for( ; (it != it_end) && (len_read > 0); ++it, len_read -= sizeof(T) )
@@ -2671,7 +2676,6 @@ Matrix< M, N, T >::read_from_raw( const std::string& dir_, const std::string& fi
             }
         }
 
-        delete[] data;
         infile.close();
     } else {
         std::cout << "no file open" << std::endl;
-- 
2.43.0


From 4114619c05f3b00e2ac4bf5c3da4f604b3cf005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 02/14] fix: write_to_raw and write_csv_file report incomplete
 writes

---
 vmmlib/matrix.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 2b93391..0fe2c79 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2629,6 +2629,8 @@ Matrix< M, N, T >::write_to_raw( const std::string& dir_, const std::string& fil
         size_t len_slice = sizeof(T) * M*N;
         outfile.write( (char*)&(*this), len_slice );
         outfile.close();
+        if( !outfile )
+            std::cout << "could not write " << path_raw << std::endl;
     } else {
         std::cout << "no file open" << std::endl;
     }
@@ -2709,6 +2711,8 @@ Matrix< M, N, T >::write_csv_file( const std::string& dir_, const std::string& f
     if( outfile.is_open() ) {
         outfile << *this  << std::endl;
         outfile.close();
+        if( !outfile )
+            std::cout << "could not write " << path << std::endl;
     } else {
         std::cout << "no file open" << std::endl;
     }
-- 
2.43.0


From 3758a07b3ce9ddcd918eca46f4c932b4adc3ea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 03/14] fix: sum_rows and sum_columns leaked when memory ran
 out

---
 vmmlib/matrix.hpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 0fe2c79..3623ba8 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2782,24 +2782,21 @@ Matrix< M, N, T >::sum_rows( Matrix< M/2, N, T>& other ) const
 {
     typedef Vector< N, T > row_type;
 
-    row_type* row0 = new row_type;
-    row_type* row1 = new row_type;
+    row_type row0;
+    row_type row1;
 
     other.zero();
 
     for ( size_t row = 0; row < M; ++row )
     {
-        get_row( row++, *row0 );
+        get_row( row++, row0 );
         if ( row < M )
         {
-            get_row( row, *row1 );
-            *row0 += *row1;
-            other.set_row( row/2 , *row0 );
+            get_row( row, row1 );
+            row0 += row1;
+            other.set_row( row/2 , row0 );
         }
     }
-
-    delete row0;
-    delete row1;
 }
 
 template< size_t M, size_t N, typename T >
@@ -2808,24 +2805,21 @@ Matrix< M, N, T >::sum_columns( Matrix< M, N/2, T>& other ) const
 {
     typedef Vector< M, T > col_type;
 
-    col_type* col0 = new col_type;
-    col_type* col1 = new col_type;
+    col_type col0;
+    col_type col1;
 
     other.zero();
 
     for ( size_t col = 0; col< N; ++col )
     {
-        get_column( col++, *col0 );
+        get_column( col++, col0 );
         if ( col < N )
         {
-            get_column( col, *col1 );
-            *col0 += *col1;
-            other.set_column( col/2, *col0 );
+            get_column( col, col1 );
+            col0 += col1;
+            other.set_column( col/2, col0 );
         }
     }
-
-    delete col0;
-    delete col1;
 }
 
 
-- 
2.43.0


From 0f2e2f84ca67baee0ac9b71232b433bd6cc84f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 04/14] fix: Matrix::operator[] accepted row index M

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 3623ba8..e6faeda 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -439,7 +439,7 @@ public:
     inline row_accessor operator[]( size_t row_index )
     {
         #ifdef VMMLIB_SAFE_ACCESSORS
-        if ( row_index > M )
+        if ( row_index >= M )
             VMMLIB_ERROR( "row index out of bounds", VMMLIB_HERE );
         #endif
         return row_accessor( array + row_index );
-- 
2.43.0


From 93b2e4f3d94de8a308deb04fce0ea272a3ad68cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 05/14] fix: set_sub_matrix checks its bounds before writing

---
 vmmlib/matrix.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index e6faeda..7247df0 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1668,6 +1668,11 @@ Matrix< M, N, T >::
 set_sub_matrix( const Matrix< O, P, T >& sub_matrix,
     size_t row_offset, size_t col_offset )
 {
+    #ifdef VMMLIB_SAFE_ACCESSORS
+    if ( O + row_offset > M || P + col_offset > N )
+        VMMLIB_ERROR( "index out of bounds.", VMMLIB_HERE );
+    #endif
+
     for( size_t row = 0; row < O; ++row )
     {
         for( size_t col = 0; col < P; ++col )
-- 
2.43.0


From d0809757f1f24f6a0cf32211652cce73ab66ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 06/14] fix: get_minor checks its bounds before writing

---
 vmmlib/matrix.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 7247df0..199a949 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1751,6 +1751,11 @@ Matrix< M, N, T >::
 get_minor( Matrix< O, P, T >& minor_, size_t row_to_cut, size_t col_to_cut,
 typename enable_if< O == M-1 && P == N-1 && M == N && M >= 2 >::type* ) const
 {
+    #ifdef VMMLIB_SAFE_ACCESSORS
+    if ( row_to_cut >= M || col_to_cut >= N )
+        VMMLIB_ERROR( "index out of bounds.", VMMLIB_HERE );
+    #endif
+
     size_t row_offset = 0;
     size_t col_offset = 0;
     for( size_t row_index = 0; row_index < M; ++row_index )
-- 
2.43.0


From 54cef5b19cbb35409aac2a0ebc3f6b1c8c5a8df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 07/14] fix: AABB::isEmpty compared z with x

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index bfab1f5..a1f4787 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -371,7 +371,7 @@ void AABB< T >::setEmpty()
 template< typename T > inline bool AABB< T >::isEmpty() const
 {
     return ( _min.x() >=  _max.x() || _min.y() >=  _max.y() ||
-             _min.z() >=  _max.x( ));
+             _min.z() >=  _max.z( ));
 }
 
 template< typename T >
-- 
2.43.0


From 0f60a6ac18260cb287f61ae43999e7ee035ee243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 08/14] fix: empty AABB was not neutral for long double and
 unsigned types

---
 vmmlib/aabb.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index a1f4787..ca7c8d3 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -114,7 +114,8 @@ inline std::ostream& operator << ( std::ostream& os,
 
 template< typename T > AABB< T >::AABB()
     : _min( std::numeric_limits< T >::max( ))
-    , _max( std::numeric_limits< T >::min( ))
+    , _max( std::numeric_limits< T >::is_integer ?
+                std::numeric_limits< T >::min() : -std::numeric_limits< T >::max( ))
 {}
 
 template<> inline AABB< float >::AABB()
@@ -363,8 +364,7 @@ void AABB< T >::merge( const Vector< 3, T >& point )
 template< typename T >inline
 void AABB< T >::setEmpty()
 {
-    _min = std::numeric_limits< T >::max();
-    _max = -std::numeric_limits< T >::max();
+    *this = AABB< T >();
 }
 
 
-- 
2.43.0


From 1a5c5c213db6a36d1fb2b84dd2350a3fd6a5f48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 09/14] fix: printing restores the stream format completely,
 also on failure

---
 vmmlib/frustum.hpp |  5 +----
 vmmlib/matrix.hpp  |  5 +----
 vmmlib/vector.hpp  | 22 ++++++++++++++++++----
 3 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 76088dc..5d97ebc 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -104,8 +104,7 @@ public:
 
     friend std::ostream& operator << ( std::ostream& os, const Frustum& f )
     {
-        const std::ios::fmtflags flags = os.flags();
-        const int                prec  = os.precision();
+        const FormatGuard guard( os );
 
         os.setf( std::ios::right, std::ios::adjustfield );
         os.precision( 5 );
@@ -115,8 +114,6 @@ public:
            << std::setw(10) << f.top()    << " "
            << std::setw(10) << f.near_plane()   << " "
            << std::setw(10) << f.far_plane()    << "]";
-        os.precision( prec );
-        os.setf( flags );
         return os;
     };
 
diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 199a949..013a9d8 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -454,8 +454,7 @@ public:
     friend std::ostream& operator << ( std::ostream& os,
         const Matrix< M, N, T >& matrix )
     {
-        const std::ios::fmtflags flags = os.flags();
-        const int                prec  = os.precision();
+        const FormatGuard guard( os );
 
         os.setf( std::ios::right, std::ios::adjustfield );
         os.precision( 5 );
@@ -469,8 +468,6 @@ public:
             }
             os << "|" << std::endl;
         }
-        os.precision( prec );
-        os.setf( flags );
         return os;
     };
 
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 4adc2de..7da28d4 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -49,6 +49,23 @@
 namespace vmml
 {
 
+/** Restores flags and precision of a stream, also when printing throws. */
+class FormatGuard
+{
+public:
+    explicit FormatGuard( std::ios_base& ios_ )
+        : _ios( ios_ ), _flags( ios_.flags( )), _prec( ios_.precision( )) {}
+    ~FormatGuard() { _ios.flags( _flags ); _ios.precision( _prec ); }
+
+private:
+    FormatGuard( const FormatGuard& );
+    FormatGuard& operator=( const FormatGuard& );
+
+    std::ios_base&                _ios;
+    const std::ios_base::fmtflags _flags;
+    const std::streamsize         _prec;
+};
+
 template< size_t M, typename T = float >
 class Vector
 {
@@ -338,8 +355,7 @@ public:
 
     friend std::ostream& operator<< ( std::ostream& os, const Vector& vector_ )
     {
-        const std::ios::fmtflags flags = os.flags();
-        const int                prec  = os.precision();
+        const FormatGuard guard( os );
 
         os.setf( std::ios::right, std::ios::adjustfield );
         os.precision( 5 );
@@ -347,8 +363,6 @@ public:
         for( size_t index = 0; index < M; ++index )
             os << std::setw(10) << vector_.at( index ) << " ";
         os << "]";
-        os.precision( prec );
-        os.setf( flags );
         return os;
     }
 
-- 
2.43.0


From 242a3f174c37edb323bc09e4172d18b2f5cecd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:13 +0000
Subject: [PATCH 10/14] fix: Matrix::tensor read past the end of its vectors

---
 vmmlib/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 013a9d8..9c7159c 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1227,8 +1227,8 @@ Matrix< M, N, T >::tensor( const Vector< M, T >& u, const Vector< N, T >& v )
 {
     for ( size_t col_index = 0; col_index < N; ++col_index )
         for ( size_t row_index = 0; row_index < M; ++row_index )
-            at( row_index, col_index ) = u.array[ col_index ] *
-                                         v.array[ row_index ];
+            at( row_index, col_index ) = u.array[ row_index ] *
+                                         v.array[ col_index ];
 }
 
 
-- 
2.43.0


From e77843e35521f522b5e1cc5ff11d1bbeedfe1b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 11/14] fix: Matrix operator*= with itself as the right operand

---
 vmmlib/matrix.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 9c7159c..2fe299d 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1079,8 +1079,10 @@ template< size_t O, size_t P, typename TT >
 typename enable_if< M == N && O == P && M == O, TT >::type*
 Matrix< M, N, T >::operator*=( const Matrix< O, P, TT >& right )
 {
-    Matrix< M, N, T > copy( *this );
-    multiply( copy, right );
+    // right may be this matrix
+    Matrix< M, N, T > result;
+    result.multiply( *this, right );
+    *this = result;
     return 0;
 }
 
-- 
2.43.0


From ca50b8694d32bf2e9e43ceff3da2993fc8016896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 12/14] fix: Matrix::set in column order stops at the end of
 the source

---
 vmmlib/matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 2fe299d..5b7f16f 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1503,7 +1503,8 @@ void Matrix< M, N, T >::set( input_iterator_t begin_,
     }
     else
     {
-        std::copy( it, it + ( M * N ), begin() );
+        for( iterator out = begin(); out != end() && it != end_; ++out, ++it )
+            *out = static_cast< T >( *it );
     }
 }
 
-- 
2.43.0


From 96b07f0adbac8d714bc4685f8536ad888ceb7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 13/14] fix: is_positive_definite's default limit did not fit
 integer elements

---
 vmmlib/matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 5b7f16f..2741212 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -791,7 +791,8 @@ transpose( const Matrix< M, N, T >& Matrix_ )
 
 template< size_t M, size_t N, typename T >
 bool is_positive_definite( const Matrix< M, N, T >& matrix_,
-    const T limit = -1e12,
+    const T limit = static_cast< T >( // -1e12, or the lowest integer if higher
+        std::max< long double >( -1e12, std::numeric_limits< T >::lowest( ))),
     typename enable_if< M == N && M <= 3 >::type* = 0 )
 {
     if ( matrix_.at( 0, 0 ) < limit )
-- 
2.43.0


From 6f08eea70186ae8c1bc7e3ce05b6899c95b9c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 14/14] fix: Vector equality compared the padding of long
 double elements

---
 vmmlib/vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 7da28d4..048e0aa 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1322,7 +1322,8 @@ Vector< M, T >::project_point_onto_plane( const Vector< 3, TT >& point,
 template< size_t M, typename T >
 bool Vector< M, T >::operator==( const Vector< M, T >& other ) const
 {
-    return memcmp( array, other.array, sizeof( array )) == 0;
+    // element by element: the bytes of a long double include padding
+    return std::equal( array, array + M, other.array );
 }
 
 
-- 
2.43.0

