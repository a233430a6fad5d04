From b380a8c5b37f436c3f802c418e50208f1172ae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:58 +0000
Subject: [PATCH 01/81] fix: assigning a vector from a smaller view of itself
 read past its end

---
 include/ode_num_int/la/VectorTemplate.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/la/VectorTemplate.h b/include/ode_num_int/la/VectorTemplate.h
index 3d39666..5eda4dd 100644
--- a/include/ode_num_int/la/VectorTemplate.h
+++ b/include/ode_num_int/la/VectorTemplate.h
@@ -91,7 +91,12 @@ class VectorData
         template< class ThatD >
         void assign( const ThatD& that )
             {
-            resize( that.size() );
+            if( that.size() != size() ) {
+                // Note: that can be a view of *this, so it has to be read before *this is resized
+                Data data( that.begin(), that.end() );
+                m_data.swap( data );
+                return;
+                }
             std::copy( that.begin(), that.end(), begin() );
             }
 
-- 
2.43.0


From 7ab9632f9dcd40ab3ec63a6733805e31ad29639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:58 +0000
Subject: [PATCH 02/81] fix: infinity norm of a vector containing NaN ignored
 the NaN

---
 include/ode_num_int/la/VectorTemplate.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/la/VectorTemplate.h b/include/ode_num_int/la/VectorTemplate.h
index 5eda4dd..656159c 100644
--- a/include/ode_num_int/la/VectorTemplate.h
+++ b/include/ode_num_int/la/VectorTemplate.h
@@ -404,8 +404,11 @@ class VectorTemplate : public D
         value_type infNorm() const
             {
             value_type result = value_type ();
-            for( const auto& v : *this )
-                result = std::max( result, std::fabs( v ) );
+            for( const auto& v : *this ) {
+                auto a = std::fabs( v );
+                if( a > result || a != a )  // Note: NaN must not get lost
+                    result = a;
+                }
             return result;
             }
 
-- 
2.43.0


From a7de4af272fa58f86f7f4ef3cea705812b09e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:09 +0000
Subject: [PATCH 03/81] fix: access by row and column through sparse block and
 transposed views ignored the view

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 52c865f..07a982e 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -340,7 +340,7 @@ class Block : public SparseMatrixTypes< typename D::element_type >
             }
 
         element_type get( unsigned int r, unsigned int c ) const {
-            return m_source.get( r, c );
+            return get( Index( r, c ) );
             }
 
         element_type operator[]( const Index& index ) const {
@@ -359,7 +359,7 @@ class Block : public SparseMatrixTypes< typename D::element_type >
             return m_source.at( sourceIndex(index) );
             }
 
-        element_type at( unsigned int r, unsigned int c ) const {
+        element_type& at( unsigned int r, unsigned int c ) {
             return at( Index( r, c ) );
             }
 
@@ -548,7 +548,7 @@ class Transpose : public SparseMatrixTypes< typename D::element_type >
             }
 
         element_type get( unsigned int r, unsigned int c ) const {
-            return m_source.get( r, c );
+            return get( Index( r, c ) );
             }
 
         element_type operator[]( const Index& index ) const {
@@ -567,7 +567,7 @@ class Transpose : public SparseMatrixTypes< typename D::element_type >
             return m_source.at( transposedIndex(index) );
             }
 
-        element_type at( unsigned int r, unsigned int c ) const {
+        element_type& at( unsigned int r, unsigned int c ) {
             return at( Index( r, c ) );
             }
 
-- 
2.43.0


From b9ee061008fc41c8cb9adf02bed0e097d83cd065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:44 +0000
Subject: [PATCH 04/81] fix: product of a vector and a non-square sparse matrix
 wrote past its result

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 07a982e..42d7807 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -1075,7 +1075,7 @@ template< class DM, class DV >
 inline VectorTemplate<typename DV::vector_data_type> operator*( const VectorTemplate<DV>& v, const SparseMatrixTemplate<DM>& m )
     {
     ASSERT( v.size() == m.size().first );
-    VectorTemplate<typename DV::vector_data_type> result( m.size().first );
+    VectorTemplate<typename DV::vector_data_type> result( m.size().second );
     m.mulVectLeft( v.begin(), result.begin() );
     return result;
     }
-- 
2.43.0


From 95c7ec6182d79904f8d07e873008cc752e238826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:59 +0000
Subject: [PATCH 05/81] fix: transposed view of a non-square sparse matrix had
 the size of the matrix

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 42d7807..b01ed46 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -998,7 +998,7 @@ class SparseMatrixTemplate : public D
             {
             return SparseMatrixTemplate< SparseMatrixProxy::Transpose< D > >(
                         SparseMatrixProxy::Transpose< D >( *this ),
-                        m_size );
+                        Index( m_size.second, m_size.first ) );
             }
 
         SparseMatrixTemplate<matrix_data_type> clone() const {
-- 
2.43.0


From 505380b9969e248e17022e9e2a1924f9a8a4bad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:42 +0000
Subject: [PATCH 06/81] fix: iterators of blocks and transpositions of scaled
 sparse matrices returned dangling references

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 44 ++++++++++++++-----
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index b01ed46..9294ea5 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -8,6 +8,7 @@
 #include <utility>
 #include <algorithm>
 #include <functional>
+#include <type_traits>
 #include <string>
 #include <sstream>
 
@@ -28,6 +29,21 @@ void copyFrom( This& left, const That& right ) {
     for( auto v : right )
         left.at( v.first ) = v.second;
     }
+
+// How an iterator of a view provides the value of an element: refers to the element of the viewed matrix,
+// unless the iterator of the viewed matrix computes elements on the fly, in which case provides the value itself.
+template< class EmbeddedIterator, class ActualElementType >
+struct ViewElementValue
+    {
+    template< class T > struct IsRef : std::false_type {};
+    template< class T > struct IsRef< std::reference_wrapper<T> > : std::true_type {};
+    typedef typename EmbeddedIterator::reference EmbeddedReference;
+    typedef typename std::remove_reference< EmbeddedReference >::type::second_type EmbeddedValue;
+    typedef typename std::conditional<
+        std::is_reference< EmbeddedReference >::value || IsRef< EmbeddedValue >::value,
+        std::reference_wrapper< ActualElementType >,
+        typename std::remove_const< ActualElementType >::type >::type type;
+    };
 }
 
 class SparseMatrixCommonTypes
@@ -363,21 +379,23 @@ class Block : public SparseMatrixTypes< typename D::element_type >
             return at( Index( r, c ) );
             }
 
-        template<class ActualElementType>
-        using iterator_value_type = std::pair< const Index, std::reference_wrapper<ActualElementType> >;
+        template< class EmbeddedIterator, class ActualElementType >
+        using iterator_value_type = std::pair<
+            const Index,
+            typename priv::ViewElementValue< EmbeddedIterator, ActualElementType >::type >;
 
         template< class EmbeddedIterator, class ActualElementType >
         class iterator_template : public std::iterator<
                 std::forward_iterator_tag,
-                iterator_value_type<ActualElementType>,
+                iterator_value_type<EmbeddedIterator, ActualElementType>,
                 std::ptrdiff_t,
-                cxx::mock_ptr< iterator_value_type<ActualElementType> >,
-                iterator_value_type<ActualElementType> >
+                cxx::mock_ptr< iterator_value_type<EmbeddedIterator, ActualElementType> >,
+                iterator_value_type<EmbeddedIterator, ActualElementType> >
             {
             friend class Block<D>;
             public:
                 typedef iterator_template< EmbeddedIterator, ActualElementType > ThisClass;
-                typedef iterator_value_type<ActualElementType> value_type;
+                typedef iterator_value_type<EmbeddedIterator, ActualElementType> value_type;
                 typedef cxx::mock_ptr< value_type > pointer;
                 typedef value_type reference;
                 const EmbeddedIterator& unwrap() const {
@@ -571,21 +589,23 @@ class Transpose : public SparseMatrixTypes< typename D::element_type >
             return at( Index( r, c ) );
             }
 
-        template<class ActualElementType>
-        using iterator_value_type = std::pair< const Index, std::reference_wrapper<ActualElementType> >;
+        template< class EmbeddedIterator, class ActualElementType >
+        using iterator_value_type = std::pair<
+            const Index,
+            typename priv::ViewElementValue< EmbeddedIterator, ActualElementType >::type >;
 
         template< class EmbeddedIterator, class ActualElementType >
         class iterator_template : public std::iterator<
                 std::forward_iterator_tag,
-                iterator_value_type<ActualElementType>,
+                iterator_value_type<EmbeddedIterator, ActualElementType>,
                 std::ptrdiff_t,
-                cxx::mock_ptr< iterator_value_type<ActualElementType> >,
-                iterator_value_type<ActualElementType> >
+                cxx::mock_ptr< iterator_value_type<EmbeddedIterator, ActualElementType> >,
+                iterator_value_type<EmbeddedIterator, ActualElementType> >
             {
             friend class Transpose<D>;
             public:
                 typedef iterator_template< EmbeddedIterator, ActualElementType > ThisClass;
-                typedef iterator_value_type<ActualElementType> value_type;
+                typedef iterator_value_type<EmbeddedIterator, ActualElementType> value_type;
                 typedef cxx::mock_ptr< value_type > pointer;
                 typedef value_type reference;
                 const EmbeddedIterator& unwrap() const {
-- 
2.43.0


From 256613934af7afcce32898e6f7025eb9d40c23d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:08 +0000
Subject: [PATCH 07/81] fix: constructing a compact sparse matrix from another
 matrix threw an exception

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 9294ea5..95b2e54 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -865,10 +865,9 @@ class SparseMatrixTemplate : public D
             D( data ), m_size( size ) {}
 
         template< class ThatD >
-        SparseMatrixTemplate( const SparseMatrixTemplate< ThatD >& that ) : m_size( that.size() )
+        SparseMatrixTemplate( const SparseMatrixTemplate< ThatD >& that )
             {
-            for( auto v : that )
-                this->at( v.first ) = v.second;
+            doAssign( that );
             }
 
         template< class ThatD >
-- 
2.43.0


From e53c6147f85125fb09d88356db659ca8beb5a42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:23 +0000
Subject: [PATCH 08/81] fix: compact sparse matrix assigned from a transposed
 view or from a view of itself was corrupted

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 95b2e54..03a5cc2 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -313,10 +313,14 @@ class SparseMatrixFastData : public SparseMatrixTypes< ElementType >
         template< class That >
         void copyFrom( const That& that )
             {
-            auto begin = that.begin();
-            auto end = that.end();
-            m_data.resize( std::distance( begin, end ) );
-            std::copy( begin, end, m_data.begin() );
+            // Note: that can be a view of *this, and it can provide elements in any order
+            Data data;
+            for( auto v : that )
+                data.push_back( data_element_type( v.first, v.second ) );
+            std::sort( data.begin(), data.end(), []( const data_element_type& l, const data_element_type& r ) {
+                return l.first < r.first;
+                } );
+            m_data.swap( data );
             }
 
         static bool compare( const data_element_type& l, const Index& r ) {
-- 
2.43.0


From d3dd745dc838e30aa1439e9485e8c73a36140639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:15 +0000
Subject: [PATCH 09/81] fix: sparse matrix assigned from a view of itself lost
 its elements

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 03a5cc2..4e78f89 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -87,7 +87,9 @@ class SparseMatrixData : public SparseMatrixTypes< ElementType >
 
         template< class That >
         SparseMatrixData& operator=( const That& that ) {
-            priv::copyFrom( *this, that );
+            // Note: that can be a view of *this
+            SparseMatrixData data( that );
+            m_data.swap( data.m_data );
             return *this;
             }
 
@@ -345,13 +347,13 @@ class Block : public SparseMatrixTypes< typename D::element_type >
 
         Block& operator=( const Block& that ) {
             if( this != &that )
-                priv::copyFrom( *this, that );
+                assign( that );
             return *this;
             }
 
         template< class That >
         Block& operator=( const That& that ) {
-            priv::copyFrom( *this, that );
+            assign( that );
             return *this;
             }
 
@@ -532,6 +534,14 @@ class Block : public SparseMatrixTypes< typename D::element_type >
         D& m_source;
         Index m_from;
         Index m_size;
+
+        template< class That >
+        void assign( const That& that ) {
+            // Note: that can be a view of the same matrix
+            SparseMatrixData< element_type > data( that );
+            priv::copyFrom( *this, data );
+            }
+
         void assertIndexValid( const Index& index ) const
             {
             ASSERT( index.first < m_size.first );
-- 
2.43.0


From 9f28dc53b13b2980cb7f880747c86c2bdb141ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:53 +0000
Subject: [PATCH 10/81] fix: infinity norm of a sparse matrix containing NaN
 ignored the NaN

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 4e78f89..bf31527 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -1041,8 +1041,11 @@ class SparseMatrixTemplate : public D
         element_type infNorm() const
             {
             element_type result = element_type ();
-            for( const auto& v : *this )
-                result = std::max( result, std::fabs( v.second ) );
+            for( const auto& v : *this ) {
+                auto a = std::fabs( v.second );
+                if( a > result || a != a )  // Note: NaN must not get lost
+                    result = a;
+                }
             return result;
             }
 
-- 
2.43.0


From 26839c0759a59946561e8f888b31f3c44cfe4d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 11/81] fix: LUFactorizer::setMatrixFast wrote out of bounds
 when the matrix order had changed

---
 include/ode_num_int/lu/LUFactorizer.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index afd1744..c5d4d32 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -134,17 +134,24 @@ class LUFactorizer
             for( auto it=matrixBegin; it!=matrixEnd; ++it, ++fc )
                 **fc = it->second;
 #else // CTM_MATH_LU_USE_MX_FAST_CACHE
-            auto elementsSet = 0;
+            unsigned int n = m_p.size();
+            unsigned int nr = 0,   nc = 0;
             for( auto it=matrixBegin; it!=matrixEnd; ++it ) {
-                ++elementsSet;
                 auto r = it->first.first;
                 auto c = it->first.second;
-                if (!setLU(r, c, it->second)) {
+                nr = std::max( nr, r + 1 );
+                nc = std::max( nc, c + 1 );
+                if (r >= n   ||   c >= n   ||   !setLU(r, c, it->second)) {
                     // Fall back to setMatrix because the sparsity layout has changed
                     setMatrix(matrixBegin, matrixEnd);
                     return;
                     }
                 }
+            if (nr != n   ||   nc != n) {
+                // Fall back to setMatrix because the matrix size has changed
+                setMatrix(matrixBegin, matrixEnd);
+                return;
+                }
 #endif // CTM_MATH_LU_USE_MX_FAST_CACHE
             m_factorized = false;
             }
-- 
2.43.0


From 82914b57a794b7257aa297d74f9c1b9a150abcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:57 +0000
Subject: [PATCH 12/81] fix: LUFactorizer ignored fill-in right of the last
 stored element of a row

---
 include/ode_num_int/lu/LUFactorizer.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index c5d4d32..96ac082 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -61,10 +61,6 @@ class LUFactorizer
                 if( acc > value )
                     acc = value;
                 };
-            auto setMax = []( unsigned int& acc, unsigned int value ) {
-                if( acc < value )
-                    acc = value;
-                };
             fill( m_p, n, n );
             fill( m_q, n, n );
             fill( m_s, n, 0 );
@@ -73,7 +69,6 @@ class LUFactorizer
                 auto c = it->first.second;
                 setMin( m_p[r], c );
                 setMin( m_q[c], r );
-                setMax( m_s[r], c );
                 }
 
             // Verify m_p and m_q
@@ -84,6 +79,11 @@ class LUFactorizer
                     throw cxx::exception("Invalid matrix stencil: the stencil does not cover the diagonal");
                 }
 
+            // Compute m_s (note that U fills in below the first row of each column)
+            for( unsigned int c=0; c<n; ++c )
+                for( unsigned int r=m_q[c]; r<=c; ++r )
+                    m_s[r] = c;
+
             // Compute address sequences for triangular matrices m_l, m_u
             auto initTriangularMatrix = [n](
                     std::vector<real_type>& m,
-- 
2.43.0


From f309827967fb59074b245d6463cd101baa6547b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:48 +0000
Subject: [PATCH 13/81] fix: a matrix rejected by LUFactorizer left its
 sparsity layout inconsistent with its storage

---
 include/ode_num_int/lu/LUFactorizer.h | 30 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index 96ac082..569be95 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -52,7 +52,8 @@ class LUFactorizer
                 return nr;
                 }();
 
-            // Allocate and initialize storage for m_p, m_q, m_s
+            // Allocate and initialize storage for new values of m_p, m_q, m_s
+            // (the members are only changed after the stencil has been verified)
             auto fill = []( std::vector<unsigned int>& v, unsigned int size, unsigned int value ) {
                 v.resize( size );
                 std::fill( v.begin(), v.end(), value );
@@ -61,28 +62,33 @@ class LUFactorizer
                 if( acc > value )
                     acc = value;
                 };
-            fill( m_p, n, n );
-            fill( m_q, n, n );
-            fill( m_s, n, 0 );
+            std::vector<unsigned int> p, q, s;
+            fill( p, n, n );
+            fill( q, n, n );
+            fill( s, n, 0 );
             for( auto it=matrixBegin; it!=matrixEnd; ++it ) {
                 auto r = it->first.first;
                 auto c = it->first.second;
-                setMin( m_p[r], c );
-                setMin( m_q[c], r );
+                setMin( p[r], c );
+                setMin( q[c], r );
                 }
 
-            // Verify m_p and m_q
+            // Verify p and q
             for( unsigned int i=0; i<n; ++i ) {
-                if( m_p[i] >= n   ||   m_q[i] >= n )
+                if( p[i] >= n   ||   q[i] >= n )
                     throw cxx::exception("Invalid matrix stencil: the stencil is incomplete");
-                if( m_p[i] > i   ||   m_q[i] > i )
+                if( p[i] > i   ||   q[i] > i )
                     throw cxx::exception("Invalid matrix stencil: the stencil does not cover the diagonal");
                 }
 
-            // Compute m_s (note that U fills in below the first row of each column)
+            // Compute s (note that U fills in below the first row of each column)
             for( unsigned int c=0; c<n; ++c )
-                for( unsigned int r=m_q[c]; r<=c; ++r )
-                    m_s[r] = c;
+                for( unsigned int r=q[c]; r<=c; ++r )
+                    s[r] = c;
+
+            m_p.swap( p );
+            m_q.swap( q );
+            m_s.swap( s );
 
             // Compute address sequences for triangular matrices m_l, m_u
             auto initTriangularMatrix = [n](
-- 
2.43.0


From 5afbe25f0264d5664ee0a4aadc182d2d1d46a0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:03 +0000
Subject: [PATCH 14/81] fix: proportional secant update of LU factors did not
 satisfy the secant condition

---
 include/ode_num_int/lu/LUFactorizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index 569be95..676a1df 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -305,7 +305,6 @@ class LUFactorizer
             unsigned int n = m_p.size();
             m_r.resize( n );
             for( unsigned int i=0; i<n; ++i ) {
-                real_type beta = y[i];
                 real_type cl = 0;
                 for( unsigned int k=m_p[i]; k<i; ++k )
                     cl += L(i,k)*m_r[k];
@@ -315,6 +314,7 @@ class LUFactorizer
                     if( i >= m_q[k] )
                         cu += U(i,k)*s[k];
                 real_type c = cl + cu;
+                real_type beta = y[i] - c;
                 if( beta == 0 )
                     // Just compute r[i]
                     m_r[i] = cu;
-- 
2.43.0


From 4153563431c6dc1035b5d437ca7cbde37b1edfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:19 +0000
Subject: [PATCH 15/81] fix: Hart update of LU factors aborted if the step
 vanished on a row of the stencil

---
 include/ode_num_int/lu/LUFactorizer.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index 676a1df..6284019 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -275,15 +275,14 @@ class LUFactorizer
                         }
                 auto& ri = m_r[i];
                 ri = 0;
-                if( beta == 0 ) {
-                    // Just compute r[i]
+                if( beta == 0   ||   aa == 0 ) {
+                    // Just compute r[i] (if aa == 0, no update of this row has any effect on LU*s)
                     for( unsigned int k=i; k<=umaxcol; ++k )
                         if( i >= m_q[k] )
                             ri += U(i,k) * s[k];
                     }
                 else {
                     // Update L, U; compute r[i]
-                    ASSERT( aa > 0 );
                     auto factor = beta/aa;
                     for( unsigned int k=m_p[i]; k<i; ++k )
                         L(i,k) += m_r[k] * factor;
-- 
2.43.0


From e33473919ed4570c6f883491ef14ed5b942552cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 16/81] fix: Newton iteration moved to NaN if the line search
 failed along a non-finite direction

---
 include/ode_num_int/alg/NewtonIterationPerformerImpl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
index 4f4be14..596a97b 100644
--- a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
+++ b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
@@ -45,7 +45,8 @@ class NewtonIterationPerformerImpl :
             auto ddir = this->newtonDescentDirection();
             auto dir = ddir->computeDescentDirection( m_x, f0, iterationNumber );
             m_currentStepRatio = this->newtonLinearSearch()->lineSearch( dir, m_x, f0, &m_f );
-            m_x += dir.scaled( m_currentStepRatio );
+            if( m_currentStepRatio != 0 )   // Note: if the line search fails, dir can contain infinity or NaN
+                m_x += dir.scaled( m_currentStepRatio );
             this->errorEstimator()->setCurrentSolution( m_x, m_f );
             auto result = this->errorEstimator()->currentStatus();
             if( m_currentStepRatio == 0   &&   result == ErrorEstimator<VD>::ContinueIterations )
-- 
2.43.0


From ff3214759b1e08ee1a689d848750f42c0b1e3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:00 +0000
Subject: [PATCH 17/81] fix: Newton solver reported divergence as an exceeded
 iteration limit, and reported one failure twice

---
 include/ode_num_int/alg/NewtonSolver.h | 27 ++++++++++----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/include/ode_num_int/alg/NewtonSolver.h b/include/ode_num_int/alg/NewtonSolver.h
index c0aff89..537feb0 100644
--- a/include/ode_num_int/alg/NewtonSolver.h
+++ b/include/ode_num_int/alg/NewtonSolver.h
@@ -55,6 +55,7 @@ class NewtonSolver :
             auto iterationNumberBias = 0u;
             while( true ) {
                 auto breakLoop = false;
+                auto failureStatus = BaseClass::IterationCountLimitExceeded;
                 auto iterationNumber=0u;
                 for( ; !breakLoop && iterationNumber<m_iterationCountLimit; ++iterationNumber ) {
                     auto status = itperf->iteration( iterationNumber );
@@ -72,28 +73,20 @@ class NewtonSolver :
                         case ErrorEstimator<VD>::Diverged:
                             if( maybeAdjustRegularizationParameter() )
                                 break;
-                            ddir->reportSuccess( false );
-                            if( !hardResetTried ) {
-                                breakLoop = true;
-                                break;
-                                }
-                            return BaseClass::Diverged;
+                            failureStatus = BaseClass::Diverged;
+                            breakLoop = true;
+                            break;
                         default:
                             ASSERT( false );
                         }
                     }
-                if( hardResetTried )
-                    break;
-                else if( ddir->hardResetMayHelp() ) {
-                    setInitialGuess( x0, true );
-                    hardResetTried = true;
-                    iterationNumberBias += iterationNumber;
-                    }
-                else
-                    break;
+                ddir->reportSuccess( false );
+                if( hardResetTried   ||   !ddir->hardResetMayHelp() )
+                    return failureStatus;
+                setInitialGuess( x0, true );
+                hardResetTried = true;
+                iterationNumberBias += iterationNumber;
                 }
-            ddir->reportSuccess( false );
-            return BaseClass::IterationCountLimitExceeded;
             }
 
         const V& currentSolution() const {
-- 
2.43.0


From 72ef7afd62e7ace8dced862c7614c0393597b1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:01 +0000
Subject: [PATCH 18/81] fix: Newton solver run again on a changed problem used
 the residual of the old one

---
 include/ode_num_int/alg/NewtonIterationPerformerImpl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
index 596a97b..e173c44 100644
--- a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
+++ b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
@@ -33,6 +33,7 @@ class NewtonIterationPerformerImpl :
         void reset( bool hardResetDescentDirection )
             {
             m_currentStepRatio = 1;
+            m_f_valid = false;  // Note: the mapping can have changed since the previous run
             this->errorEstimator()->reset( m_x );
             this->newtonDescentDirection()->reset( hardResetDescentDirection );
             }
-- 
2.43.0


From 291501cb113c92d4a41d76c5336b324f9bc7fd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:44 +0000
Subject: [PATCH 19/81] fix: Broyden-type updates of the Jacobian after a zero
 step made it NaN

---
 .../alg/JacobianBroydenUpdateNewtonDescentDirection.h          | 3 ++-
 .../alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h      | 3 ++-
 .../alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
index 19689cd..1c3a582 100644
--- a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
@@ -53,7 +53,8 @@ class JacobianBroydenUpdateNewtonDescentDirection :
                 V dx = x0 - m_xprev;
                 V df = f0 - m_fprev;
                 V left = df - J*dx;
-                left *= 1 / dx.euclideanNormSquare();
+                auto dxNorm2 = dx.euclideanNormSquare();
+                left *= dxNorm2 > 0 ?   1 / dxNorm2 :   0;  // Note: a zero step carries no information
                 unsigned int n = x0.size();
                 ASSERT( J.size() == sparse::SparseMatrixCommonTypes::Index(n, n) );
                 for( unsigned int i=0; i<n; ++i )
diff --git a/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h
index 7b4ed38..1ccda08 100644
--- a/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h
@@ -52,7 +52,8 @@ class JacobianFakeBroydenUpdateNewtonDescentDirection :
                 V dx = x0 - m_xprev;
                 V df = f0 - m_fprev;
                 V left = df - J*dx;
-                left *= 1 / dx.euclideanNormSquare();
+                auto dxNorm2 = dx.euclideanNormSquare();
+                left *= dxNorm2 > 0 ?   1 / dxNorm2 :   0;  // Note: a zero step carries no information
                 unsigned int n = x0.size();
                 ASSERT( J.size() == sparse::SparseMatrixCommonTypes::Index(n, n) );
                 for( auto& element : J )
diff --git a/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h
index fe29cb2..d599ed4 100644
--- a/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h
@@ -68,7 +68,8 @@ class JacobianLazyFakeBroydenUpdateNewtonDescentDirection :
                 V dx = x0 - m_xprev;
                 V df = f0 - m_fprev;
                 V left = df - J*dx;
-                left *= 1 / dx.euclideanNormSquare();
+                auto dxNorm2 = dx.euclideanNormSquare();
+                left *= dxNorm2 > 0 ?   1 / dxNorm2 :   0;  // Note: a zero step carries no information
                 unsigned int n = x0.size();
                 ASSERT( m_dJ.size() == sparse::SparseMatrixCommonTypes::Index(n, n) );
                 for( auto& element : m_dJ )
-- 
2.43.0


From 613b55d239f573a2bf20721597549a07cff15ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:17 +0000
Subject: [PATCH 20/81] fix: Broyden update failed if the Jacobian was not
 dense

---
 .../alg/JacobianBroydenUpdateNewtonDescentDirection.h         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
index 1c3a582..b2fff7d 100644
--- a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
@@ -57,12 +57,14 @@ class JacobianBroydenUpdateNewtonDescentDirection :
                 left *= dxNorm2 > 0 ?   1 / dxNorm2 :   0;  // Note: a zero step carries no information
                 unsigned int n = x0.size();
                 ASSERT( J.size() == sparse::SparseMatrixCommonTypes::Index(n, n) );
+                sparse::SparseMatrix<real_type> Jnew = J;   // Note: in contrast to J, new elements can be added to it
                 for( unsigned int i=0; i<n; ++i )
                     for( unsigned int j=0; j<n; ++j ) {
                         real_type x = left[i] * dx[j];
                         if( x != 0 )
-                            J.at( i, j ) += x;
+                            Jnew.at( i, j ) += x;
                         }
+                J = Jnew;
                 }
             m_xprev = x0;
             m_fprev = f0;
-- 
2.43.0


From 2256227a67873198770f6ab5831f885d21a36cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:01 +0000
Subject: [PATCH 21/81] fix: lazy Broyden-type updates accumulated over
 iterations violated the secant condition

---
 .../alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h
index d599ed4..d81808a 100644
--- a/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h
@@ -67,7 +67,7 @@ class JacobianLazyFakeBroydenUpdateNewtonDescentDirection :
             if( !recalcJacobian   &&   m_havePrev ) {
                 V dx = x0 - m_xprev;
                 V df = f0 - m_fprev;
-                V left = df - J*dx;
+                V left = df - J*dx - m_dJ*dx;
                 auto dxNorm2 = dx.euclideanNormSquare();
                 left *= dxNorm2 > 0 ?   1 / dxNorm2 :   0;  // Note: a zero step carries no information
                 unsigned int n = x0.size();
-- 
2.43.0


From cd94a280cc7a2fec54752366cb1fc24fd1c073b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:58 +0000
Subject: [PATCH 22/81] fix: DefaultJacobianProvider ignored a hard reset, so
 that Broyden-type strategies kept an outdated Jacobian

---
 include/ode_num_int/alg/DefaultJacobianProvider.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ode_num_int/alg/DefaultJacobianProvider.h b/include/ode_num_int/alg/DefaultJacobianProvider.h
index f48e696..53f9b09 100644
--- a/include/ode_num_int/alg/DefaultJacobianProvider.h
+++ b/include/ode_num_int/alg/DefaultJacobianProvider.h
@@ -19,6 +19,10 @@ class DefaultJacobianProvider :
         typedef typename VD::value_type real_type;
         typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<real_type> > FastSparseMatrix;
 
+        void hardReset() {
+            m_J = FastSparseMatrix();
+            }
+
         void computeJacobian( const V& x0 )
             {
             if( auto jt = this->jacobianTrimmer() )
-- 
2.43.0


From 3a78943324715a42b48cb1c988fda776f82a2225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:19 +0000
Subject: [PATCH 23/81] fix: narrowed mapping with disabled outputs removed the
 wrong outputs

---
 include/ode_num_int/alg/VectorNarrowingMapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/VectorNarrowingMapping.h b/include/ode_num_int/alg/VectorNarrowingMapping.h
index 2f1e7f2..38bf1a4 100644
--- a/include/ode_num_int/alg/VectorNarrowingMapping.h
+++ b/include/ode_num_int/alg/VectorNarrowingMapping.h
@@ -114,7 +114,7 @@ class VectorNarrowingMapping :
             this->mapping()->map( *pdst, *px );
 
             if( !m_disabledOutputIndices.empty() )
-                reduce( dst, dsts, m_disabledInputIndices );
+                reduce( dst, dsts, m_disabledOutputIndices );
             }
 
         std::vector<unsigned int> inputIds() const {
-- 
2.43.0


From c3ca86e9ab30d60691f0e7c7631675648394ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:39 +0000
Subject: [PATCH 24/81] fix: sparse Jacobian was not updated, or memory
 corrupted, after its trimmer had been removed

---
 include/ode_num_int/alg/SparseJacobianProvider.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/alg/SparseJacobianProvider.h b/include/ode_num_int/alg/SparseJacobianProvider.h
index 5d67cf1..c898c55 100644
--- a/include/ode_num_int/alg/SparseJacobianProvider.h
+++ b/include/ode_num_int/alg/SparseJacobianProvider.h
@@ -21,7 +21,8 @@ class SparseJacobianProvider :
         typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<real_type> > FastSparseMatrix;
 
         SparseJacobianProvider() :
-            m_Jcalc( &m_J )
+            m_Jcalc( &m_J ),
+            m_JcalcValid( false )
             {}
 
         SparseJacobianProvider( const SparseJacobianProvider<VD>& ) = delete;
@@ -37,11 +38,14 @@ class SparseJacobianProvider :
 
         void computeJacobian( const V& x0 )
             {
-            if( auto jt = this->jacobianTrimmer() )
+            if( auto jt = this->jacobianTrimmer() ) {
                 m_J = jt->trimJacobian( math::computeJacobian( *this->mapping(), x0 ) );
-            else if( m_J.empty() ) {
+                m_JcalcValid = false;
+                }
+            else if( m_J.empty()   ||   !m_JcalcValid ) {
                 m_J = math::computeJacobian( *this->mapping(), x0 );
                 m_Jcalc = SparseJacobianCalculator<VD>( &m_J );
+                m_JcalcValid = true;
                 }
             else
                 m_Jcalc.calculate( *this->mapping(), x0, 1e-6 );
@@ -54,6 +58,7 @@ class SparseJacobianProvider :
     private:
         FastSparseMatrix m_J;
         SparseJacobianCalculator< VD > m_Jcalc;
+        bool m_JcalcValid;  // Whether m_Jcalc refers to the current elements of m_J
     };
 
 } // end namespace math
-- 
2.43.0


From a08db8d464336fc71849553ba9373de478811215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:20 +0000
Subject: [PATCH 25/81] fix: reject negative and too large values of unsigned
 options instead of wrapping them

---
 include/ode_num_int/infra/OptionalParameters.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index bbf3438..29e6ac7 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -10,6 +10,7 @@
 #include <map>
 #include <sstream>
 #include <iomanip>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 
@@ -166,7 +167,10 @@ class OptionalParameters
                     {
                     if( !lang::IsIntegerNumber( m_value.c_str() ) )
                         throw cxx::exception( std::string("Not an integer number: '") + m_value + "'");
-                    dst = static_cast<unsigned int>( std::stoul( m_value ) );
+                    auto x = std::stoll( m_value );
+                    if( x < 0 || x > std::numeric_limits<unsigned int>::max() )
+                        throw cxx::exception( std::string("Unsigned integer number is out of range: '") + m_value + "'");
+                    dst = static_cast<unsigned int>( x );
                     }
 
                 void toType( bool& dst ) const
-- 
2.43.0


From d0db931403e0d6fa5b576d5569f9cb8401469d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:00 +0000
Subject: [PATCH 26/81] fix: accept subnormal numbers as values of real options

---
 include/ode_num_int/infra/OptionalParameters.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index 29e6ac7..c18b0ba 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -11,6 +11,8 @@
 #include <sstream>
 #include <iomanip>
 #include <limits>
+#include <cmath>
+#include <cstdlib>
 #include <tuple>
 #include <type_traits>
 
@@ -153,7 +155,11 @@ class OptionalParameters
                     {
                     if( !lang::IsNumber( m_value.c_str() ) )
                         throw cxx::exception( std::string("Not a number: '") + m_value + "'");
-                    dst = std::stod( m_value );
+                    // Note: unlike std::stod, std::strtod gives subnormal numbers without raising an error
+                    auto x = std::strtod( m_value.c_str(), nullptr );
+                    if( std::abs( x ) > std::numeric_limits<double>::max() )
+                        throw cxx::exception( std::string("Number is out of range: '") + m_value + "'");
+                    dst = x;
                     }
 
                 void toType( int& dst ) const
-- 
2.43.0


From 308fdfa1f6a0d37bf8b6fd98d0ee8015ca7ad267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:32 +0000
Subject: [PATCH 27/81] fix: keep all digits of a real option value that are
 needed to restore it

---
 include/ode_num_int/infra/OptionalParameters.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index c18b0ba..d66406e 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -86,9 +86,14 @@ class OptionalParameters
                 /// \brief Constructor accepting a double initializer (no nested parameters).
                 Value( double x )
                     {
-                    std::ostringstream s;
-                    s << std::setprecision(16) << x;
-                    m_value = s.str();
+                    // Use the 17th digit only if 16 digits are not enough to get the same number back
+                    for( int precision=16; precision<=17; ++precision ) {
+                        std::ostringstream s;
+                        s << std::setprecision(precision) << x;
+                        m_value = s.str();
+                        if( std::strtod( m_value.c_str(), nullptr ) == x )
+                            break;
+                        }
                     }
 
                 /// \brief Constructor accepting a boolean initializer (no nested parameters).
-- 
2.43.0


From 65826a4d4b48299000f2f182a4b57a5f56a1598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:16 +0000
Subject: [PATCH 28/81] fix: reject option paths with empty items instead of
 truncating them

---
 include/ode_num_int/infra/OptionalParameters.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index d66406e..69ce4ab 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -389,13 +389,14 @@ class OptionalParameters
         static Path parsePath( const std::string& formattedPath )
             {
             Path result;
-            auto n = 0u;
-            while( n < formattedPath.size() ) {
+            if( formattedPath.empty() )
+                return result;
+            for( std::string::size_type n=0; n<=formattedPath.size(); ) {
                 auto nd = formattedPath.find_first_of( '.', n );
                 if( nd == std::string::npos )
                     nd = formattedPath.size();
                 if( nd == n )
-                    break;
+                    throw cxx::exception( std::string("Invalid path '") + formattedPath + "': empty path item" );
                 result.push_back( formattedPath.substr( n, nd-n ) );
                 n = nd + 1;
                 }
-- 
2.43.0


From 93dd443ac8add074b857e59c86fffbadb07c64fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:48 +0000
Subject: [PATCH 29/81] fix: copy nested parameters together with an option
 value instead of sharing them

---
 .../ode_num_int/infra/OptionalParameters.h    | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index 69ce4ab..0e4f3c0 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -63,6 +63,21 @@ class OptionalParameters
                 /// \brief Default constructor. Value is initialized by an empty string; no nested parameters.
                 Value() {}
 
+                /// \brief Copy constructor. Nested parameters are copied, too, rather than shared.
+                inline Value( const Value& that );
+
+                /// \brief Move constructor.
+                Value( Value&& that ) = default;
+
+                /// \brief Assignment. Nested parameters are copied, too, rather than shared.
+                Value& operator=( Value that )
+                    {
+                    m_value.swap( that.m_value );
+                    m_nestedParameters.swap( that.m_nestedParameters );
+                    m_typeRegistryGetter.swap( that.m_typeRegistryGetter );
+                    return *this;
+                    }
+
                 /// \brief Constructor.
                 /// \param text Initializer for the field storing the value.
                 /// \param nestedParameters Initializer for the field storing nested parameters.
@@ -404,6 +419,13 @@ class OptionalParameters
             }
     };
 
+inline OptionalParameters::Value::Value( const Value& that ) :
+    m_value( that.m_value ),
+    m_nestedParameters( that.m_nestedParameters ?   std::make_shared<Parameters>( *that.m_nestedParameters ) :   std::shared_ptr<Parameters>() ),
+    m_typeRegistryGetter( that.m_typeRegistryGetter )
+    {
+    }
+
 template<class Interface>
 inline OptionalParameters::Value::Value( const std::shared_ptr<Interface>& x ) :
     m_typeRegistryGetter(&Factory<Interface>::registeredTypes)
-- 
2.43.0


From bde9e94e1a9062357710ce22393fa7bcc8bff141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:27 +0000
Subject: [PATCH 30/81] fix: do not take punctuation between 'Z' and 'a' for
 letters of an identifier

---
 include/ode_num_int/util/lex_idnum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/util/lex_idnum.h b/include/ode_num_int/util/lex_idnum.h
index cb1ce67..aff37cc 100644
--- a/include/ode_num_int/util/lex_idnum.h
+++ b/include/ode_num_int/util/lex_idnum.h
@@ -62,7 +62,7 @@ inline bool IsHexIntegerNumber( const char * ) {
 inline bool IsIdentifier( const char *str ) {
     return std::regex_match(
                 str,
-                std::regex( "^[a-zA-z_][a-zA-z0-9_]*$" ) );
+                std::regex( "^[a-zA-Z_][a-zA-Z0-9_]*$" ) );
     }
 
 /// \brief Returns true if \a str is a real number.
-- 
2.43.0


From b260a371187c0346beea91c0543e722b92981c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:52 +0000
Subject: [PATCH 31/81] fix: avoid integer overflow in modp for the smallest
 integer

---
 include/ode_num_int/util/m_inline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/util/m_inline.h b/include/ode_num_int/util/m_inline.h
index c5b5c4b..5edc0a6 100644
--- a/include/ode_num_int/util/m_inline.h
+++ b/include/ode_num_int/util/m_inline.h
@@ -54,7 +54,7 @@ inline unsigned int modp( int x, unsigned int m ) {
     ASSERT( m );
     unsigned int xx;
     if( x < 0 ) {
-        xx = m - (-x)%m;
+        xx = m - (0u - static_cast<unsigned int>(x))%m;
         if( xx == m )
             xx = 0;
         }
-- 
2.43.0


From 44d6f6da9d3085edabf7f277399953e5523f6c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:15 +0000
Subject: [PATCH 32/81] fix: let roundi return the nearest integer also next to
 a half and at the lower limit

---
 include/ode_num_int/util/m_inline.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/ode_num_int/util/m_inline.h b/include/ode_num_int/util/m_inline.h
index 5edc0a6..c2a23a0 100644
--- a/include/ode_num_int/util/m_inline.h
+++ b/include/ode_num_int/util/m_inline.h
@@ -44,9 +44,7 @@ inline X Max( X a, X b ) { return a > b ?   a :   b; }
 
 // Returns nearest integer to specified x.
 inline int roundi( double x ) {
-    return x >= 0 ?
-        static_cast<int>( x + 0.5 ) :
-       -static_cast<int>( -x + 0.5 );
+    return static_cast<int>( ::round( x ) );
     }
 
 // Returns remainder, taking the sign of x into account
-- 
2.43.0


From ae6493f56d0f6d3ca9de4b651c181c3af1579522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:43 +0000
Subject: [PATCH 33/81] fix: keep the result of modd within the promised range
 in spite of rounding

---
 include/ode_num_int/util/m_inline.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/util/m_inline.h b/include/ode_num_int/util/m_inline.h
index c2a23a0..05d6465 100644
--- a/include/ode_num_int/util/m_inline.h
+++ b/include/ode_num_int/util/m_inline.h
@@ -67,7 +67,8 @@ inline double modd( double x, double period, double bias )
     x -= bias;
     x -= floor( x/period )*period;
     x += bias;
-    return x;
+    // Both ends of the range stand for the same value; due to rounding, x can be slightly out of the range
+    return x >= bias && x < bias+period ?   x :   bias;
     }
 
 namespace cubic {
-- 
2.43.0


From b55f5d28f86d0c536a55c39e6e77ecb5a692b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:19 +0000
Subject: [PATCH 34/81] fix: a rejected option value does not stay in the
 configuration

---
 include/ode_num_int/infra/ComponentConfiguration.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/infra/ComponentConfiguration.h b/include/ode_num_int/infra/ComponentConfiguration.h
index a210da4..395bb0c 100644
--- a/include/ode_num_int/infra/ComponentConfiguration.h
+++ b/include/ode_num_int/infra/ComponentConfiguration.h
@@ -108,10 +108,14 @@ class ComponentConfiguration
         template< class PathType >
         void setValuePriv( const PathType& path, const OptionalParameters::Value& value ) const
             {
-            valuePriv( path ) = value;
+            parametersPriv( Path() );   // Make sure parameters are loaded
+
+            // Note: m_parameters must not keep the new value if it is rejected
+            auto newParameters = m_parameters;
+            OptionalParameters::value( newParameters, path ) = value;
 
             // Always reload auto setting, in particular, to load nested parameters
-            parameterProvider()->setParameters( m_parameters );
+            parameterProvider()->setParameters( newParameters );
             m_parametersKnown = false;
             }
 
-- 
2.43.0


From e78b11bdec93f59df5d5297e1b0f3797a69bbf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:35 +0000
Subject: [PATCH 35/81] fix: selecting no component for a part of a solver does
 not crash

---
 .../alg/interfaces/NewtonSolverInterface.h           | 12 ++++++++----
 include/ode_num_int/ode/OdeSolverImplicitEuler.h     |  4 ++++
 .../ode/interfaces/OdeSolverErrorNormCalculator.h    |  3 ++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
index e3659da..d5a254c 100644
--- a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
+++ b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
@@ -68,8 +68,10 @@ class NewtonSolverInterface :
             auto itperf = this->iterationPerformer();
             if( itperf ) {
                 itperf->setMapping( eqnRhs );
-                itperf->newtonDescentDirection()->setMapping( eqnRhs );
-                itperf->newtonLinearSearch()->setMapping( eqnRhs );
+                if( auto ddir = itperf->newtonDescentDirection() )
+                    ddir->setMapping( eqnRhs );
+                if( auto lineSearch = itperf->newtonLinearSearch() )
+                    lineSearch->setMapping( eqnRhs );
                 }
             return *this;
             }
@@ -155,7 +157,8 @@ class NewtonSolverInterface :
                 result["ddir"] = ddir;
                 if( ddir ) {
                     result["jacobian"] = ddir->jacobianProvider();
-                    result["jtrim"] = ddir->jacobianProvider()->jacobianTrimmer();
+                    if( auto jp = ddir->jacobianProvider() )
+                        result["jtrim"] = jp->jacobianTrimmer();
                     }
                 result["linsearch"] = itperf->newtonLinearSearch();
                 result["err"] = itperf->errorEstimator();
@@ -210,7 +213,8 @@ class NewtonSolverInterface :
                             parameters, "linsearch",
                             [itperf]( const std::shared_ptr< NewtonLinearSearch<VD> >& lineSearch )
                             {
-                            lineSearch->setMapping( itperf->mapping() );
+                            if( lineSearch )
+                                lineSearch->setMapping( itperf->mapping() );
                             itperf->setNewtonLinearSearch( lineSearch );
                             } );
 
diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index bfb01c5..257640c 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -32,6 +32,8 @@ class OdeSolverImplicitEuler :
             {
             auto setupNewtonSolver = [this]() {
                 auto newton = this->newtonSolver();
+                if( !newton )
+                    return;
                 // Set vector mapping for the Newton's solver
                 if( m_reorder )
                     this->newtonSolver()->setComponent( m_reorder );
@@ -166,6 +168,8 @@ class OdeSolverImplicitEuler :
             m_reorder = reorder;
             if( m_reorder )
                 m_reorder->setMapping( m_mapping4Newton );
+            if( !this->newtonSolver() )
+                return;
             if( m_reorder )
                 this->newtonSolver()->setComponent( m_reorder );
             else
diff --git a/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h b/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
index 295eb60..7b01e42 100644
--- a/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
+++ b/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
@@ -21,7 +21,8 @@ class OdeSolverErrorNormCalculator :
             OdeSolverComponent<VD>( solver )
             {
             auto updateOdeRhs = [this] {
-                this->errorNormCalculator()->setOdeRhs( this->solver().odeRhs() );
+                if( auto enorm = this->errorNormCalculator() )
+                    enorm->setOdeRhs( this->solver().odeRhs() );
                 };
             this->onErrorNormCalculatorChanged( updateOdeRhs );
             solver.onOdeRhsChanged( updateOdeRhs );
-- 
2.43.0


From 9140b72e3726e9ef8e54647b941f8abd7188a3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 36/81] fix: a negative size of the specified initial state is
 rejected

---
 include/ode_num_int/ode/SpecifiedOdeInitState.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ode_num_int/ode/SpecifiedOdeInitState.h b/include/ode_num_int/ode/SpecifiedOdeInitState.h
index e3fe7ca..cd475af 100644
--- a/include/ode_num_int/ode/SpecifiedOdeInitState.h
+++ b/include/ode_num_int/ode/SpecifiedOdeInitState.h
@@ -55,6 +55,8 @@ class SpecifiedOdeInitState :
         V m_initialState;
 
         void resize( int n ) {
+            if( n < 0 )
+                throw cxx::exception( "The size of the initial state must not be negative" );
             int n0 = m_initialState.size();
             if( n != n0 ) {
                 m_initialState.resize( n );
-- 
2.43.0


From 4ad7394a6edff60809983c2eabe13ac28046a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 37/81] fix: running a solver without a required part is an
 exception, not a crash

---
 include/ode_num_int/alg/NewtonSolver.h        | 22 ++++++++++++++++++-
 .../ode/OdeSolverExplicitEmbeddedRK.h         |  4 ++--
 .../ode_num_int/ode/OdeSolverExtrapolator.h   |  6 ++---
 .../ode_num_int/ode/OdeSolverImplicitEuler.h  |  2 ++
 .../ode/OdeSolverRosenbrock_SW2_4.h           |  4 ++--
 .../interfaces/OdeSolverErrorNormCalculator.h |  9 ++++++++
 .../interfaces/OdeSolverStepSizeController.h  |  9 ++++++++
 7 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/include/ode_num_int/alg/NewtonSolver.h b/include/ode_num_int/alg/NewtonSolver.h
index 537feb0..267509b 100644
--- a/include/ode_num_int/alg/NewtonSolver.h
+++ b/include/ode_num_int/alg/NewtonSolver.h
@@ -41,12 +41,15 @@ class NewtonSolver :
             m_iterationCountLimit = iterationCountLimit;
             }
 
-        void setInitialGuess( const V& initialGuess, bool hardReset = true ) {
+        void setInitialGuess( const V& initialGuess, bool hardReset = true )
+            {
+            checkComponents();
             this->iterationPerformer()->setInitialGuess( initialGuess, hardReset );
             }
 
         Status run()
             {
+            checkComponents();
             auto itperf = this->iterationPerformer();
             auto ddir = itperf->newtonDescentDirection();
             itperf->reset( false );
@@ -96,6 +99,23 @@ class NewtonSolver :
     private:
         static const unsigned int DefaultIterationCountLimit = 100;
         unsigned int m_iterationCountLimit;
+
+        void checkComponents() const
+            {
+            auto itperf = this->iterationPerformer();
+            if( !itperf )
+                throw cxx::exception( "Newton iteration performer is not set" );
+            if( !itperf->errorEstimator() )
+                throw cxx::exception( "Error estimator of the Newton solver is not set" );
+            if( !itperf->newtonLinearSearch() )
+                throw cxx::exception( "Linear search of the Newton solver is not set" );
+            auto ddir = itperf->newtonDescentDirection();
+            if( !ddir )
+                throw cxx::exception( "Descent direction of the Newton solver is not set" );
+            if( !ddir->jacobianProvider() )
+                throw cxx::exception( "Jacobian provider of the Newton solver is not set" );
+            }
+
         bool maybeAdjustRegularizationParameter()
             {
             auto rs = this->regularizationStrategy();
diff --git a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
index 6c71ee0..81ce6ef 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
@@ -100,7 +100,7 @@ class OdeSolverExplicitEmbeddedRK :
                 if( !m_disable_error_check   ||   m_force_error_calc ) {
                     RKHelper::copy( m_output.buf, m_output.x2[HighMode] );
                     m_output.buf -= m_output.x2[LowMode];
-                    errorNorm = this->errorNormCalculator()->errorNorm( m_output.buf );
+                    errorNorm = this->requiredErrorNormCalculator()->errorNorm( m_output.buf );
                     }
 
                 // Compute step size, if error check is enabled
@@ -108,7 +108,7 @@ class OdeSolverExplicitEmbeddedRK :
                 auto hcur = m_h;
                 auto scResult = m_disable_error_check ?
                             typename OdeStepSizeController<VD>::Result( m_h, true, false ) :
-                            this->odeStepSizeController()->controlStepSize( m_h, errorNorm, m_lowOrder );
+                            this->requiredOdeStepSizeController()->controlStepSize( m_h, errorNorm, m_lowOrder );
 
                 this->tstat2.add( timer.Lap() );
 
diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index ef3c540..12d6bb3 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -81,7 +81,7 @@ class OdeSolverExtrapolator :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
-            if( !soft )
+            if( !soft && m_referenceSolver )
                 m_referenceSolver->setInitialState( initialTime, initialState, false );
             cleanupStep();
             }
@@ -157,7 +157,7 @@ class OdeSolverExtrapolator :
                     auto& err = m_T[1];
                     err *= -1;
                     err += nextState;
-                    errorNorm = this->errorNormCalculator()->errorNorm( err );
+                    errorNorm = this->requiredErrorNormCalculator()->errorNorm( err );
                     }
 
                 // Compute step size, if error check is enabled
@@ -165,7 +165,7 @@ class OdeSolverExtrapolator :
                 auto hcur = m_h;
                 auto scResult = m_disable_error_check ?
                             typename OdeStepSizeController<VD>::Result( m_h, true, false ) :
-                            this->odeStepSizeController()->controlStepSize( m_h, errorNorm, lowOrder() );
+                            this->requiredOdeStepSizeController()->controlStepSize( m_h, errorNorm, lowOrder() );
 
                 this->tstat2.add( timer.Lap() );
 
diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index 257640c..a437c92 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -89,6 +89,8 @@ class OdeSolverImplicitEuler :
             auto& initialState = m_mapping4Newton->initialState();
 
             auto newton = this->newtonSolver();
+            if( !newton )
+                throw cxx::exception( "Algebraic solver is not set" );
             m_mapping4Newton->setTimeStep( h );
 
             if( m_predictor ) {
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 7a5c16a..5eecfc9 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -140,14 +140,14 @@ class OdeSolverRosenbrock_SW2_4 :
                     m_buf += m_k1;
                     m_buf -= m_k4;
                     m_buf *= 0.125*m_h;
-                    errorNorm = this->errorNormCalculator()->errorNorm( m_buf );
+                    errorNorm = this->requiredErrorNormCalculator()->errorNorm( m_buf );
                 }
 
                 real_type nextTime = m_initialTime + m_h;
                 auto hcur = m_h;
                 auto scResult = m_disable_error_check ?
                             typename OdeStepSizeController<VD>::Result( m_h, true, false ) :
-                            this->odeStepSizeController()->controlStepSize( m_h, errorNorm, 2 );
+                            this->requiredOdeStepSizeController()->controlStepSize( m_h, errorNorm, 2 );
 
                 this->tstat6.add( timer.Lap() );
 
diff --git a/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h b/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
index 7b01e42..d451f40 100644
--- a/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
+++ b/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
@@ -33,6 +33,15 @@ class OdeSolverErrorNormCalculator :
         OdeSolverErrorNormCalculator( const OdeSolverErrorNormCalculator<VD>& ) = delete;
         OdeSolverErrorNormCalculator<VD>& operator=( const OdeSolverErrorNormCalculator<VD>& ) = delete;
 
+        /// \brief Returns the error norm calculator; throws an exception if there is none.
+        std::shared_ptr< ErrorNormCalculator<VD> > requiredErrorNormCalculator() const
+            {
+            auto result = this->errorNormCalculator();
+            if( !result )
+                throw cxx::exception( "Error norm calculator is not set" );
+            return result;
+            }
+
         void saveParameters( Parameters& parameters ) const {
             parameters["enorm"] = this->errorNormCalculator();
             }
diff --git a/include/ode_num_int/ode/interfaces/OdeSolverStepSizeController.h b/include/ode_num_int/ode/interfaces/OdeSolverStepSizeController.h
index be60d16..8ed1a23 100644
--- a/include/ode_num_int/ode/interfaces/OdeSolverStepSizeController.h
+++ b/include/ode_num_int/ode/interfaces/OdeSolverStepSizeController.h
@@ -27,6 +27,15 @@ class OdeSolverStepSizeController :
         OdeSolverStepSizeController( const OdeSolverStepSizeController<VD>& ) = delete;
         OdeSolverStepSizeController<VD>& operator=( const OdeSolverStepSizeController<VD>& ) = delete;
 
+        /// \brief Returns the step size controller; throws an exception if there is none.
+        std::shared_ptr< OdeStepSizeController<VD> > requiredOdeStepSizeController() const
+            {
+            auto result = this->odeStepSizeController();
+            if( !result )
+                throw cxx::exception( "Step size controller is not set" );
+            return result;
+            }
+
         void saveParameters( Parameters& parameters ) const {
             parameters["stepsizectl"] = this->odeStepSizeController();
             }
-- 
2.43.0


From 3e4faa19efa5270f16abf1ac155208a5d30e977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 38/81] fix: replacing a part of a Newton solver keeps its
 other parts and links

---
 .../alg/interfaces/NewtonSolverInterface.h    | 36 +++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
index d5a254c..7a165ce 100644
--- a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
+++ b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
@@ -54,7 +54,7 @@ class NewtonSolverInterface :
 
         NewtonSolverInterface<VD>& setComponent( const std::shared_ptr< NewtonIterationPerformer<VD> >& itperf )
             {
-            this->setIterationPerformer( itperf );
+            replaceIterationPerformer( itperf );
             auto rs = this->regularizationStrategy();
             if( rs ) {
                 rs->setErrorEstimator( itperf->errorEstimator() );
@@ -92,6 +92,7 @@ class NewtonSolverInterface :
             auto itperf = this->iterationPerformer();
             if( itperf ) {
                 ddir->setMapping( itperf->mapping() );
+                inheritJacobianProvider( ddir, itperf->newtonDescentDirection() );
                 itperf->setNewtonDescentDirection( ddir );
                 }
             auto rs = this->regularizationStrategy();
@@ -170,7 +171,7 @@ class NewtonSolverInterface :
             {
             OptionalParameters::maybeSetParameter(
                         parameters, "itperf",
-                        std::bind( &NewtonSolverInterface<VD>::setIterationPerformer, this, std::placeholders::_1 ) );
+                        std::bind( &NewtonSolverInterface<VD>::replaceIterationPerformer, this, std::placeholders::_1 ) );
             auto itperf = this->iterationPerformer();
             OptionalParameters::maybeSetParameter(
                         parameters, "regularizer",
@@ -190,8 +191,10 @@ class NewtonSolverInterface :
                             parameters, "ddir",
                             [this, itperf]( const std::shared_ptr< NewtonDescentDirection<VD> >& ddir )
                             {
-                            if( ddir )
+                            if( ddir ) {
                                 ddir->setMapping( itperf->mapping() );
+                                inheritJacobianProvider( ddir, itperf->newtonDescentDirection() );
+                                }
                             itperf->setNewtonDescentDirection( ddir );
                             auto rs = this->regularizationStrategy();
                             if( rs )
@@ -264,6 +267,33 @@ class NewtonSolverInterface :
 
             return result;
             }
+
+    private:
+        // A new iteration performer takes over the parts it does not have from the previous one
+        void replaceIterationPerformer( const std::shared_ptr< NewtonIterationPerformer<VD> >& itperf )
+            {
+            auto previous = this->iterationPerformer();
+            if( itperf && previous && itperf != previous ) {
+                if( !itperf->errorEstimator() )
+                    itperf->setErrorEstimator( previous->errorEstimator() );
+                if( !itperf->newtonDescentDirection() )
+                    itperf->setNewtonDescentDirection( previous->newtonDescentDirection() );
+                if( !itperf->newtonLinearSearch() )
+                    itperf->setNewtonLinearSearch( previous->newtonLinearSearch() );
+                }
+            this->setIterationPerformer( itperf );
+            if( itperf && previous && !itperf->mapping() )
+                setComponent( previous->mapping() );
+            }
+
+        // A new descent direction takes over the Jacobian provider from the previous one, if it does not have its own
+        static void inheritJacobianProvider(
+                const std::shared_ptr< NewtonDescentDirection<VD> >& ddir,
+                const std::shared_ptr< NewtonDescentDirection<VD> >& previous )
+            {
+            if( previous && !ddir->jacobianProvider() )
+                ddir->setJacobianProvider( previous->jacobianProvider() );
+            }
     };
 
 CTM_DEF_NOTIFIED_PROP_VD_TEMPLATE_CLASS(
-- 
2.43.0


From c56a2a127eb891a62c8d1ce45792c8d9217db589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:16 +0000
Subject: [PATCH 39/81] fix: the extrapolator reports the order it has with
 reference solvers of higher order

---
 .../ode_num_int/ode/OdeSolverExtrapolator.h   | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 12d6bb3..65945fc 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -37,18 +37,12 @@ class OdeSolverExtrapolator :
             this->onOdeRhsChanged( getSyncOdeRhs() );
             }
 
-        int order() const
-            {
-            if( auto rs = referenceSolver() ) {
-                auto rsOrder = rs->order();
-                return rsOrder + ( m_max_stages - 1 )*( m_symmetric? 2: 1 );
-                }
-            else
-                return -1;  // TODO
+        int order() const {
+            return orderAtStages( m_max_stages );
             }
 
         int lowOrder() const {
-            return order() - ( m_symmetric? 2: 1 );
+            return orderAtStages( m_max_stages - 1 );
             }
 
         unsigned int maxStages() const {
@@ -254,6 +248,16 @@ class OdeSolverExtrapolator :
         V m_buf;
         std::vector<unsigned int> m_n;
 
+        // Extrapolation with k stages eliminates the terms h, ..., h^(k-1) of the error (h^2, ..., h^(2*(k-1))
+        // for symmetric solvers), of which the reference solver does not have those below its own order.
+        int orderAtStages( int stages ) const
+            {
+            if( auto rs = referenceSolver() )
+                return std::max( rs->order(), stages*( m_symmetric? 2: 1 ) );
+            else
+                return -1;  // TODO
+            }
+
         void initStep()
             {
             if( !m_T.empty() )
-- 
2.43.0


From 9f1f74476f75f2a898b695f014ec6cced0bd5a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:08 +0000
Subject: [PATCH 40/81] fix: reject a step whose error norm is not a number

---
 include/ode_num_int/ode/OdeStepSizeSimpleController.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ode_num_int/ode/OdeStepSizeSimpleController.h b/include/ode_num_int/ode/OdeStepSizeSimpleController.h
index bf30ee9..d1a5512 100644
--- a/include/ode_num_int/ode/OdeStepSizeSimpleController.h
+++ b/include/ode_num_int/ode/OdeStepSizeSimpleController.h
@@ -37,6 +37,8 @@ class OdeStepSizeSimpleController :
             if( errorNorm == 0 )
                 return Result( currentStepSize, true, false );
             real_type p = std::pow( m_tolerance/errorNorm, 1./(methodOrder+1) );
+            if( !(p >= 0) )
+                p = 0;  // Not a number, reject the step
             real_type pd = p * m_insuranceCoefficient;
             if( p >= 1 ) {
                 if( m_maxThreshold > 0   &&   pd*currentStepSize > m_maxThreshold ) {
-- 
2.43.0


From f796819ed75384b0ea67158033ffa0dfd2a773c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:08 +0000
Subject: [PATCH 41/81] fix: keep the step size when the proposed one is not
 finite

---
 include/ode_num_int/ode/OdeStepSizeSimpleController.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeStepSizeSimpleController.h b/include/ode_num_int/ode/OdeStepSizeSimpleController.h
index d1a5512..012a536 100644
--- a/include/ode_num_int/ode/OdeStepSizeSimpleController.h
+++ b/include/ode_num_int/ode/OdeStepSizeSimpleController.h
@@ -50,7 +50,10 @@ class OdeStepSizeSimpleController :
                     return Result( currentStepSize, true, false );
                 if( m_incMaxFactor > 0   &&   pd > m_incMaxFactor )
                     pd = m_incMaxFactor;
-                return Result( currentStepSize*pd, true, true );
+                real_type newStepSize = currentStepSize*pd;
+                if( !std::isfinite( newStepSize ) )
+                    return Result( currentStepSize, true, false );
+                return Result( newStepSize, true, true );
                 }
             else if( p > 1 - GEOM_EPS )
                 return Result( currentStepSize, true, false );
-- 
2.43.0


From ccb3203fa9db50dba49afc17654b25aebea0e7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:27 +0000
Subject: [PATCH 42/81] fix: notify step size controller observers

---
 .../ode_num_int/ode/OdeStepSizeSimpleController.h   | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/ode_num_int/ode/OdeStepSizeSimpleController.h b/include/ode_num_int/ode/OdeStepSizeSimpleController.h
index 012a536..576f4f6 100644
--- a/include/ode_num_int/ode/OdeStepSizeSimpleController.h
+++ b/include/ode_num_int/ode/OdeStepSizeSimpleController.h
@@ -30,6 +30,18 @@ class OdeStepSizeSimpleController :
             {}
 
         Result controlStepSize(
+            real_type currentStepSize,
+            real_type errorNorm,
+            real_type methodOrder ) const
+            {
+            auto result = computeStepSize( currentStepSize, errorNorm, methodOrder );
+            this->odeStepSizeControllerObservers(
+                currentStepSize, result.newStepSize, result.acceptStep, result.changeStepSize );
+            return result;
+            }
+
+    private:
+        Result computeStepSize(
             real_type currentStepSize,
             real_type errorNorm,
             real_type methodOrder ) const
@@ -64,6 +76,7 @@ class OdeStepSizeSimpleController :
                 }
             }
 
+    public:
         Parameters parameters() const
             {
             Parameters result;
-- 
2.43.0


From 2550981f35083ab430db1e2b94ac602fd34fc45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 43/81] fix: rebuild W when a Rosenbrock SW2(4) step is
 repeated with another size

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 5eecfc9..97e0b73 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -66,18 +66,13 @@ class OdeSolverRosenbrock_SW2_4 :
 
         void doStep()
             {
-            bool needInitStep = true;
-
             while( true ) {
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
-                if( needInitStep ) {
-                    needInitStep = false;
-                    initStep();
-                    }
+                initStep();
 
                 auto rhs = this->odeRhs();
 
-- 
2.43.0


From 78438d12a323140423f20f02c58fe00f573ba948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 44/81] fix: compute all columns of the Jacobian in Rosenbrock
 methods

---
 include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
index f656cc7..5afe60b 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
@@ -115,7 +115,7 @@ class OdeSolverRosenbrock_W_base :
                 SparseMatrix Jm( m_n2+m_n1, m_n2+m_n1 );
                 V x = initialState;
                 V f( m_n );
-                for( unsigned int i=istart; i<isize; ++i ) {
+                for( unsigned int i=istart; i<istart+isize; ++i ) {
                     x[i] += dx;
                     rhs->rhs( f, initialTime, x );
                     x[i] = initialState[i];
-- 
2.43.0


From 5239be11171f65949b1fb6e57d62e4e90d78a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 45/81] fix: keep track of the sign of zero functions watched
 in one direction

---
 .../ode/LinearOdeEventController.h            | 23 +++++--------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index 9405d31..a2ab106 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -37,7 +37,7 @@ class LinearOdeEventController :
                     auto rhs = this->odeRhs();
                     rhs->zeroFunctions( m_zf1, t1, x1 );
                     for (typename V::size_type i=0; i<m_zf1.size(); ++i)
-                        m_state[i] = s(m_zf1[i], m_zfflags[i]);
+                        m_state[i] = s(m_zf1[i]);
                     }
                 }
             }
@@ -65,6 +65,9 @@ class LinearOdeEventController :
             if( nx == 0 ) {
                 // No event indicators changed sign
                 m_zf1.swap( m_zf2 );
+                for( decltype(nz) i=0; i<nz; ++i )
+                    if( s(m_zf1[i]) != 0 )
+                        m_state[i] = s(m_zf1[i]);
                 return false;
                 }
 
@@ -114,12 +117,12 @@ class LinearOdeEventController :
                     zf = zf*( 1. - tmin ) + m_zf2[i]*tmin;
                 auto& st = m_state[i];
                 if (recompute)
-                    st = s(zf, zff);
+                    st = s(zf);
                 else if (i == itmin) {
                     if ((zff & OdeRhs<VD>::BothDirections) == OdeRhs<VD>::BothDirections)
                         st = currentTransitionType;
                     else
-                        st = s(zf, zff);
+                        st = 0;
                     }
                 }
 
@@ -169,20 +172,6 @@ class LinearOdeEventController :
             return x < 0? -1: x > 0? 1: 0;
             }
 
-        static int s( real_type x, unsigned int flags ) {
-            switch( flags & OdeRhs<VD>::BothDirections ) {
-                case OdeRhs<VD>::PlusMinus:
-                    return x <= 0 ?   0 :   1;
-                case OdeRhs<VD>::MinusPlus:
-                    return x >= 0 ?   0 :  -1;
-                case OdeRhs<VD>::BothDirections:
-                    return s(x);
-                default:
-                    ASSERT(false);
-                    return 0;
-                }
-            }
-
         bool xz( unsigned int i ) const
             {
             auto x2 = m_zf2[i];
-- 
2.43.0


From 9c965b8e3e4e4364d5ae32b31801ec800e1ba472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:04 +0000
Subject: [PATCH 46/81] fix: events exactly at the ends of a step

---
 include/ode_num_int/ode/LinearOdeEventController.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index a2ab106..400d22f 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -79,8 +79,9 @@ class LinearOdeEventController :
                 auto zf1 = m_zf1[i];
                 auto zf2 = m_zf2[i];
                 real_type t = zf1 / ( zf1 - zf2 );
-                ASSERT (t >= 0);
-                if( tmin > t ) {
+                if( !(t > 0) )
+                    t = 0;  // Zero up to rounding at the beginning of the step
+                if( itmin == ~0u   ||   tmin > t ) {
                     tmin = t;
                     itmin = i;
                     }
-- 
2.43.0


From 50186e8c4f57bed072a78cd8fedb7e8df89ca2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 47/81] fix: report the direction of an event whose function
 ends at exactly zero

---
 include/ode_num_int/ode/LinearOdeEventController.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index 400d22f..a21147e 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -97,6 +97,8 @@ class LinearOdeEventController :
             // Switch state
             std::fill( m_transitions.begin(), m_transitions.end(), 0 );
             auto currentTransitionType = s( m_zf2[itmin] );
+            if( currentTransitionType == 0 )
+                currentTransitionType = -m_state[itmin];    // Exactly zero at the end of the step
             m_transitions[itmin] = currentTransitionType;
             // m_state[itmin] = ( m_zfflags[itmin] & OdeRhs<VD>::BothDirections ) == OdeRhs<VD>::BothDirections ?   m_transitions[itmin] :   0;
             rhs->switchPhaseState( m_transitions.data(), t2, x2 );
-- 
2.43.0


From 153896166e9f5e70dae9752906a7d021b90b6614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:36 +0000
Subject: [PATCH 48/81] fix: a zero function watched in one direction made no
 progress after its event

---
 include/ode_num_int/ode/LinearOdeEventController.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index a21147e..1afbaa7 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -119,13 +119,13 @@ class LinearOdeEventController :
                 else
                     zf = zf*( 1. - tmin ) + m_zf2[i]*tmin;
                 auto& st = m_state[i];
-                if (recompute)
+                bool bothDirections = (zff & OdeRhs<VD>::BothDirections) == OdeRhs<VD>::BothDirections;
+                if (recompute && (i != itmin || bothDirections || s(zf) == -currentTransitionType))
                     st = s(zf);
                 else if (i == itmin) {
-                    if ((zff & OdeRhs<VD>::BothDirections) == OdeRhs<VD>::BothDirections)
-                        st = currentTransitionType;
-                    else
-                        st = 0;
+                    // A function watched in one direction fires once more if it leaves zero in that direction
+                    st = bothDirections || st == 0 ?   currentTransitionType :   0;
+                    zf = 0;
                     }
                 }
 
-- 
2.43.0


From a744444c639d314a9d43c7effb07c141d576fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:49 +0000
Subject: [PATCH 49/81] fix: reset event detection when the initial state of
 Rosenbrock, Gragg and implicit Euler solvers is set

---
 include/ode_num_int/ode/OdeSolverGragg.h            | 2 ++
 include/ode_num_int/ode/OdeSolverImplicitEuler.h    | 2 ++
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 2 ++
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverGragg.h b/include/ode_num_int/ode/OdeSolverGragg.h
index 3607889..5bbabaf 100644
--- a/include/ode_num_int/ode/OdeSolverGragg.h
+++ b/include/ode_num_int/ode/OdeSolverGragg.h
@@ -58,6 +58,8 @@ class OdeSolverGragg :
             {
             m_initialTime = initialTime;
             m_initialU = initialState;
+            if( auto ec = this->eventController() )
+                ec->reset();
             m_stepsRunning = false;
             }
 
diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index a437c92..3f02dfd 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -73,6 +73,8 @@ class OdeSolverImplicitEuler :
         void setInitialState( real_type initialTime, const V& initialState, bool soft = false )
             {
             m_mapping4Newton->setInitialState( initialTime, initialState );
+            if( auto ec = this->eventController() )
+                ec->reset();
             if( !soft )
                 m_hardResetRequested = true;
             }
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 97e0b73..e32f77c 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -56,6 +56,8 @@ class OdeSolverRosenbrock_SW2_4 :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
+            if( auto ec = this->eventController() )
+                ec->reset();
 
             if( soft )
                 // Compute ODE RHS at the beginning of the step
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index c80a6f0..f273027 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -49,6 +49,8 @@ class OdeSolverRosenbrock_W1 :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
+            if( auto ec = this->eventController() )
+                ec->reset();
 
             if( !soft )
                 cleanupStep();
-- 
2.43.0


From ee7570436471a339744a98febaf151d5e5608c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 50/81] fix: report the size of the step just made to observers
 of the extrapolation solver

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 65945fc..f96cdef 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -188,7 +188,7 @@ class OdeSolverExtrapolator :
 
                 // Invoke observers
                 this->odeSolverPostObservers( OdeSolverPostObserverArg<VD>(
-                    m_h, scResult.acceptStep, scResult.changeStepSize, stepTruncated, errorNorm, izfTrunc, transitionType, this ) );
+                    hcur, scResult.acceptStep, scResult.changeStepSize, stepTruncated, errorNorm, izfTrunc, transitionType, this ) );
 
                 this->tstat4.add( timer.Lap() );
 
-- 
2.43.0


From da3d55838a0562cb60180e0c3c601afbd728c618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 51/81] fix: process events once per step of extrapolation and
 predictor-based solvers

---
 .../ode_num_int/ode/OdeSolverExtrapolator.h   |  4 +++
 .../ode_num_int/ode/OdeSolverImplicitEuler.h  |  1 +
 .../ode/interfaces/OdeSolverEventController.h | 27 +++++++++++++++++++
 3 files changed, 32 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index f96cdef..354b93a 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -104,6 +104,9 @@ class OdeSolverExtrapolator :
                 ss->reset();
                 auto solver = m_referenceSolver.get();
                 ASSERT( solver );
+                {
+                // Events are processed at the end of the whole step
+                OdeSolverEventSuspender<VD> eventSuspender( *solver );
                 for( unsigned int k=0; k<m_max_stages; ++k ) {
                     solver->setInitialState( m_initialTime, m_initialState, true );
                     auto n = ss->next();
@@ -114,6 +117,7 @@ class OdeSolverExtrapolator :
                     m_T[k] = solver->initialState();
                     m_n[k] = n;
                     }
+                }
 
                 // Hairer I, p. 237: Aitken - Neville algorithm
                 // See also
diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index 3f02dfd..c56a2a3 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -99,6 +99,7 @@ class OdeSolverImplicitEuler :
                 m_predictor->setOdeRhs( this->odeRhs() );
                 m_predictor->setInitialStepSize( h/m_predictorSteps );
                 m_predictor->setInitialState( initialTime, initialState );
+                OdeSolverEventSuspender<VD> eventSuspender( *m_predictor );
                 for( auto istep=0u; istep<m_predictorSteps; ++istep )
                     m_predictor->doStep();
                 m_mapping4Newton->computeEqnState( m_eqnbuf, m_predictor->initialState() );
diff --git a/include/ode_num_int/ode/interfaces/OdeSolverEventController.h b/include/ode_num_int/ode/interfaces/OdeSolverEventController.h
index fe6a9b8..c0c3e18 100644
--- a/include/ode_num_int/ode/interfaces/OdeSolverEventController.h
+++ b/include/ode_num_int/ode/interfaces/OdeSolverEventController.h
@@ -51,6 +51,33 @@ class OdeSolverEventController :
             }
     };
 
+/// \brief Suspends event processing of a solver used as a part of another one, until the end of the scope.
+template< class VD >
+class OdeSolverEventSuspender
+    {
+    public:
+        explicit OdeSolverEventSuspender( OdeSolver<VD>& solver ) :
+            m_holder( dynamic_cast< OdeEventControllerHolder<VD>* >( &solver ) )
+            {
+            if( m_holder ) {
+                m_eventController = m_holder->eventController();
+                m_holder->setEventController( nullptr );
+                }
+            }
+
+        ~OdeSolverEventSuspender() {
+            if( m_holder )
+                m_holder->setEventController( m_eventController );
+            }
+
+        OdeSolverEventSuspender( const OdeSolverEventSuspender<VD>& ) = delete;
+        OdeSolverEventSuspender<VD>& operator=( const OdeSolverEventSuspender<VD>& ) = delete;
+
+    private:
+        OdeEventControllerHolder<VD> *m_holder;
+        std::shared_ptr< OdeEventController<VD> > m_eventController;
+    };
+
 } // end namespace math
 } // end namespace ctm
 
-- 
2.43.0


From e3eefedd082d8d48ccd52040b5fd5d95d51b40ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:42 +0000
Subject: [PATCH 52/81] fix: Rosenbrock solvers start with the initial step
 size

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 4 +++-
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h    | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index e32f77c..e3431c8 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -31,7 +31,7 @@ class OdeSolverRosenbrock_SW2_4 :
             m_d( 1 ),
             m_disable_error_check( false ),
             m_initialTime( 0 ),
-            m_h( 0 )
+            m_h( this->initialStepSize() )
             {}
 
         void setInitialStepSize( real_type initialStepSize )
@@ -224,6 +224,8 @@ class OdeSolverRosenbrock_SW2_4 :
             bool hard = m_k1.empty();
 
             if( hard ) {
+                m_h = this->initialStepSize();
+
                 auto rhs = this->odeRhs();
                 auto n = rhs->varCount();
 
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index f273027..8dcc1ab 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -24,7 +24,7 @@ class OdeSolverRosenbrock_W1 :
             OdeSolverEventController<VD>( *this, "linear" ),
             m_d( 1 ),
             m_initialTime( 0 ),
-            m_h( 0 )
+            m_h( this->initialStepSize() )
             {}
 
         void setInitialStepSize( real_type initialStepSize )
-- 
2.43.0


From 78d6c489fd10ab2425a6b4277a4216c939306eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:42 +0000
Subject: [PATCH 53/81] fix: trim the Jacobian in Rosenbrock solvers as
 configured

---
 include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
index 5afe60b..5e1c480 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
@@ -126,6 +126,8 @@ class OdeSolverRosenbrock_W_base :
                         Jm.at( j-m_n2, i-istart ) = df / dx;
                         }
                     }
+                if( auto jt = this->jacobianTrimmer() )
+                    Jm = jt->trimJacobian( Jm );
                 J = Jm;
                 };
 
-- 
2.43.0


From 1ec33a3eaff3edb601ab361bdef69746ca9eb2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:41 +0000
Subject: [PATCH 54/81] fix: evaluate the step equation with the current system
 after it was replaced

---
 include/ode_num_int/ode/OdeStepMappingEuler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeStepMappingEuler.h b/include/ode_num_int/ode/OdeStepMappingEuler.h
index abdda10..c0ff1a4 100644
--- a/include/ode_num_int/ode/OdeStepMappingEuler.h
+++ b/include/ode_num_int/ode/OdeStepMappingEuler.h
@@ -22,7 +22,9 @@ class OdeStepMappingEuler :
             m_h( 0.1 ),
             m_t0( 0 ),
             m_f0scaledValid( false )
-            {}
+            {
+            this->onOdeRhsChanged( [this]() { m_f0scaledValid = false; } );
+            }
 
         // VectorMapping interface
         unsigned int inputSize() const
-- 
2.43.0


From b408684bab5b2cea26f30c09661a8b528945e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:29 +0000
Subject: [PATCH 55/81] fix: a failed initialisation of a Rosenbrock step is
 repeated by the next one

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h  | 3 ++-
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h     | 3 ++-
 include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index e3431c8..fad9906 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -235,7 +235,6 @@ class OdeSolverRosenbrock_SW2_4 :
                 // Allocate memory
                 m_initialOdeRhs.resize( n );
                 m_nextOdeRhs.resize( n );
-                m_k1.resize( n );
                 m_k2.resize( n );
                 m_k3.resize( n );
                 m_k4.resize( n );
@@ -249,6 +248,8 @@ class OdeSolverRosenbrock_SW2_4 :
 
             OdeSolverRosenbrock_W_base<VD>::initStep(
                 hard, m_initialTime, m_initialState, m_initialOdeRhs, m_h * m_d );
+            if( hard )
+                m_k1.resize( m_nextState.size() );
             }
 
         void cleanupStep() {
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index 8dcc1ab..ce6b0d3 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -151,7 +151,6 @@ class OdeSolverRosenbrock_W1 :
 
                 // Allocate memory
                 m_initialOdeRhs.resize( n );
-                m_k1.resize( n );
                 m_nextState.resize( n );
                 }
 
@@ -160,6 +159,8 @@ class OdeSolverRosenbrock_W1 :
 
             OdeSolverRosenbrock_W_base<VD>::initStep(
                 hard, m_initialTime, m_initialState, m_initialOdeRhs, m_h * m_d );
+            if( hard )
+                m_k1.resize( m_nextState.size() );
             }
 
         void cleanupStep() {
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
index 5e1c480..a32d28b 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
@@ -153,7 +153,6 @@ class OdeSolverRosenbrock_W_base :
             {
             ASSERT( hd != 0 ); // Required for cache to work
             if( m_hd4W != hd ) {
-                m_hd4W = hd;
                 auto it = m_W_LU_cache.find( hd );
                 if( it != m_W_LU_cache.end() )
                     m_W_LU = &it->second;
@@ -169,6 +168,7 @@ class OdeSolverRosenbrock_W_base :
                     ASSERT( itbool.second );
                     m_W_LU = &itbool.first->second;
                     }
+                m_hd4W = hd;
                 }
             }
     };
-- 
2.43.0


From ecfc0c68177ececa203567c7d61883cc84364ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 56/81] fix: the number of stages of the extrapolation solver
 can be increased between steps

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 354b93a..36dad14 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -264,8 +264,14 @@ class OdeSolverExtrapolator :
 
         void initStep()
             {
-            if( !m_T.empty() )
+            if( !m_T.empty() ) {
+                // The number of stages may have been increased
+                if( m_T.size() < m_max_stages ) {
+                    m_T.resize( m_max_stages );
+                    m_n.resize( m_max_stages );
+                    }
                 return;
+                }
 
             if( !m_referenceSolver )
                 throw cxx::exception( "Reference solver is not set" );
-- 
2.43.0


From 9cc11604b8fb9331acbaf7cfac8554a5e8509b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 57/81] fix: Rosenbrock solvers do not use the Jacobian of a
 system that has been replaced

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 4 +++-
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index fad9906..b49b9f6 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -32,7 +32,9 @@ class OdeSolverRosenbrock_SW2_4 :
             m_disable_error_check( false ),
             m_initialTime( 0 ),
             m_h( this->initialStepSize() )
-            {}
+            {
+            this->onOdeRhsChanged( [this]() { cleanupStep(); } );
+            }
 
         void setInitialStepSize( real_type initialStepSize )
             {
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index ce6b0d3..624a967 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -25,7 +25,9 @@ class OdeSolverRosenbrock_W1 :
             m_d( 1 ),
             m_initialTime( 0 ),
             m_h( this->initialStepSize() )
-            {}
+            {
+            this->onOdeRhsChanged( [this]() { cleanupStep(); } );
+            }
 
         void setInitialStepSize( real_type initialStepSize )
             {
-- 
2.43.0


From 13c80a2b01eda87f1e5b9dc3c5e8d35d9a6e9d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 58/81] fix: event detection is initialised again if the first
 evaluation of the zero functions fails

---
 include/ode_num_int/ode/LinearOdeEventController.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index 1afbaa7..4112763 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -39,6 +39,7 @@ class LinearOdeEventController :
                     for (typename V::size_type i=0; i<m_zf1.size(); ++i)
                         m_state[i] = s(m_zf1[i]);
                     }
+                m_clean = false;
                 }
             }
 
@@ -149,7 +150,6 @@ class LinearOdeEventController :
             {
             if( !m_clean )
                 return false;
-            m_clean = false;
             auto rhs = this->odeRhs();
             auto nz = rhs->zeroFuncCount();
             m_haveZf = nz > 0;
-- 
2.43.0


From caf0c778d885aa3b898c9dc20c4522e3ef6e1858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 59/81] fix: a failing right-hand side does not spoil the state
 of the Gragg solver

---
 include/ode_num_int/ode/OdeSolverGragg.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverGragg.h b/include/ode_num_int/ode/OdeSolverGragg.h
index 5bbabaf..6601d81 100644
--- a/include/ode_num_int/ode/OdeSolverGragg.h
+++ b/include/ode_num_int/ode/OdeSolverGragg.h
@@ -74,6 +74,7 @@ class OdeSolverGragg :
                 auto nv = m_initialU.size();
                 m_fbuf.resize( nv );
                 m_nextU.resize( nv );
+                m_nextf.resize( nv );
             }
 
             auto rhs = this->odeRhs();
@@ -89,12 +90,13 @@ class OdeSolverGragg :
                 m_initialV = m_initialU;
                 rhs->rhs( m_fbuf, m_initialTime, m_initialU );
                 }
-            m_initialV += m_fbuf.scaled( h2 );
-            rhs->rhs( m_fbuf, m_initialTime + h2, m_initialV );
+            m_nextV = m_initialV;
+            m_nextV += m_fbuf.scaled( h2 );
+            rhs->rhs( m_nextf, m_initialTime + h2, m_nextV );
             m_nextU = m_initialU;
-            m_nextU += m_fbuf.scaled( h );
-            rhs->rhs( m_fbuf, m_initialTime + h, m_nextU );
-            m_initialV += m_fbuf.scaled( h2 );
+            m_nextU += m_nextf.scaled( h );
+            rhs->rhs( m_nextf, m_initialTime + h, m_nextU );
+            m_nextV += m_nextf.scaled( h2 );
 
             this->tstat1.add( timer.Lap() );
 
@@ -109,6 +111,8 @@ class OdeSolverGragg :
                 }
             m_initialTime = nextTime;
             m_initialU.swap( m_nextU );
+            m_initialV.swap( m_nextV );
+            m_fbuf.swap( m_nextf );
             m_stepsRunning = !stepTruncated;
 
             this->tstat2.add( timer.Lap() );
@@ -153,6 +157,8 @@ class OdeSolverGragg :
         V m_initialV;
         V m_fbuf;
         V m_nextU;
+        V m_nextV;
+        V m_nextf;
         cxx::bool0 m_stepsRunning;
     };
 
-- 
2.43.0


From 4a39f867625ae4a1d233398c88a02a6cad62275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 60/81] fix: a Newton solver with parts of its own kind does
 not need the parts they do not use

---
 .../alg/ConstJacobianNewtonDescentDirection.h        |  4 ++--
 .../JacobianBroydenUpdateNewtonDescentDirection.h    |  4 ++--
 ...JacobianFakeBroydenUpdateNewtonDescentDirection.h |  4 ++--
 .../alg/JacobianHartUpdateNewtonDescentDirection.h   |  4 ++--
 ...bianLazyFakeBroydenUpdateNewtonDescentDirection.h |  4 ++--
 .../ode_num_int/alg/NewtonIterationPerformerImpl.h   | 12 ++++++++++++
 include/ode_num_int/alg/NewtonSolver.h               |  9 +--------
 .../ode_num_int/alg/SimpleNewtonDescentDirection.h   |  6 +++---
 .../alg/interfaces/NewtonDescentDirection.h          |  9 +++++++++
 9 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/include/ode_num_int/alg/ConstJacobianNewtonDescentDirection.h b/include/ode_num_int/alg/ConstJacobianNewtonDescentDirection.h
index e52b54f..58ec716 100644
--- a/include/ode_num_int/alg/ConstJacobianNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/ConstJacobianNewtonDescentDirection.h
@@ -21,7 +21,7 @@ class ConstJacobianNewtonDescentDirection :
 
         void reset( bool hard ) {
             if( hard ) {
-                this->jacobianProvider()->hardReset();
+                this->requiredJacobianProvider()->hardReset();
                 m_lu = decltype(m_lu)();
                 }
             }
@@ -35,7 +35,7 @@ class ConstJacobianNewtonDescentDirection :
             m_lu.clearTimingStats();
             if( !m_lu.isFactorized() ) {
                 this->jacobianRefreshObservers( true );
-                auto jp = this->jacobianProvider();
+                auto jp = this->requiredJacobianProvider();
                 ASSERT( jp );
                 auto& J = jp->jacobian();
                 jp->computeJacobian( x0 );
diff --git a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
index b2fff7d..ce923f5 100644
--- a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
@@ -29,7 +29,7 @@ class JacobianBroydenUpdateNewtonDescentDirection :
         void reset( bool hard )
             {
             if( hard )
-                this->jacobianProvider()->hardReset();
+                this->requiredJacobianProvider()->hardReset();
             m_havePrev = false;
             }
 
@@ -39,7 +39,7 @@ class JacobianBroydenUpdateNewtonDescentDirection :
 
         void computeDescentDirection( V& dir, const V& x0, const V& f0, unsigned int /*iterationNumber*/ )
             {
-            auto jp = this->jacobianProvider();
+            auto jp = this->requiredJacobianProvider();
             ASSERT( jp );
             auto& J = jp->jacobian();
             auto recalcJacobian = J.empty();
diff --git a/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h
index 1ccda08..eaa7c74 100644
--- a/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h
@@ -25,7 +25,7 @@ class JacobianFakeBroydenUpdateNewtonDescentDirection :
         void reset( bool hard )
             {
             if( hard ) {
-                this->jacobianProvider()->hardReset();
+                this->requiredJacobianProvider()->hardReset();
                 m_lu = decltype(m_lu)();
                 }
             m_havePrev = false;
@@ -38,7 +38,7 @@ class JacobianFakeBroydenUpdateNewtonDescentDirection :
         void computeDescentDirection( V& dir, const V& x0, const V& f0, unsigned int /*iterationNumber*/ )
             {
             m_lu.clearTimingStats();
-            auto jp = this->jacobianProvider();
+            auto jp = this->requiredJacobianProvider();
             ASSERT( jp );
             auto& J = jp->jacobian();
             auto recalcJacobian = J.empty();
diff --git a/include/ode_num_int/alg/JacobianHartUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianHartUpdateNewtonDescentDirection.h
index 86e4859..50dd0f9 100644
--- a/include/ode_num_int/alg/JacobianHartUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianHartUpdateNewtonDescentDirection.h
@@ -28,7 +28,7 @@ class JacobianHartUpdateNewtonDescentDirection :
         void reset( bool hard )
             {
             if( hard ) {
-                this->jacobianProvider()->hardReset();
+                this->requiredJacobianProvider()->hardReset();
                 m_lu = decltype(m_lu)();
                 }
             m_havePrev = false;
@@ -44,7 +44,7 @@ class JacobianHartUpdateNewtonDescentDirection :
             bool recalcJacobian = !m_lu.isFactorized();
             if( recalcJacobian ) {
                 this->jacobianRefreshObservers( true );
-                auto jp = this->jacobianProvider();
+                auto jp = this->requiredJacobianProvider();
                 ASSERT( jp );
                 auto& J = jp->jacobian();
                 jp->computeJacobian( x0 );
diff --git a/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h
index d81808a..fa70308 100644
--- a/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h
@@ -33,7 +33,7 @@ class JacobianLazyFakeBroydenUpdateNewtonDescentDirection :
         void reset( bool hard )
             {
             if( hard ) {
-                this->jacobianProvider()->hardReset();
+                this->requiredJacobianProvider()->hardReset();
                 m_lu = decltype(m_lu)();
                 m_jacobianAction = RecomputeJacobian;
                 }
@@ -48,7 +48,7 @@ class JacobianLazyFakeBroydenUpdateNewtonDescentDirection :
             {
             m_lastIterationNumber = iterationNumber;
             m_lu.clearTimingStats();
-            auto jp = this->jacobianProvider();
+            auto jp = this->requiredJacobianProvider();
             ASSERT( jp );
             auto& J = jp->jacobian();
             bool recalcJacobian = iterationNumber == 0   &&   ( J.empty()   ||   m_jacobianAction == RecomputeJacobian );
diff --git a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
index e173c44..39cedfb 100644
--- a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
+++ b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
@@ -32,6 +32,7 @@ class NewtonIterationPerformerImpl :
 
         void reset( bool hardResetDescentDirection )
             {
+            checkComponents();
             m_currentStepRatio = 1;
             m_f_valid = false;  // Note: the mapping can have changed since the previous run
             this->errorEstimator()->reset( m_x );
@@ -40,6 +41,7 @@ class NewtonIterationPerformerImpl :
 
         typename ErrorEstimator<VD>::Status iteration( unsigned int iterationNumber )
             {
+            checkComponents();
             if( iterationNumber == 0 )
                 m_hardResetTried = false;
             auto f0 = currentResidual();
@@ -78,6 +80,16 @@ class NewtonIterationPerformerImpl :
         mutable bool m_f_valid;
         real_type m_currentStepRatio;
         bool m_hardResetTried;
+
+        void checkComponents() const
+            {
+            if( !this->errorEstimator() )
+                throw cxx::exception( "Error estimator of the Newton solver is not set" );
+            if( !this->newtonLinearSearch() )
+                throw cxx::exception( "Linear search of the Newton solver is not set" );
+            if( !this->newtonDescentDirection() )
+                throw cxx::exception( "Descent direction of the Newton solver is not set" );
+            }
     };
 
 } // end namespace math
diff --git a/include/ode_num_int/alg/NewtonSolver.h b/include/ode_num_int/alg/NewtonSolver.h
index 267509b..ddf3766 100644
--- a/include/ode_num_int/alg/NewtonSolver.h
+++ b/include/ode_num_int/alg/NewtonSolver.h
@@ -105,15 +105,8 @@ class NewtonSolver :
             auto itperf = this->iterationPerformer();
             if( !itperf )
                 throw cxx::exception( "Newton iteration performer is not set" );
-            if( !itperf->errorEstimator() )
-                throw cxx::exception( "Error estimator of the Newton solver is not set" );
-            if( !itperf->newtonLinearSearch() )
-                throw cxx::exception( "Linear search of the Newton solver is not set" );
-            auto ddir = itperf->newtonDescentDirection();
-            if( !ddir )
+            if( !itperf->newtonDescentDirection() )
                 throw cxx::exception( "Descent direction of the Newton solver is not set" );
-            if( !ddir->jacobianProvider() )
-                throw cxx::exception( "Jacobian provider of the Newton solver is not set" );
             }
 
         bool maybeAdjustRegularizationParameter()
diff --git a/include/ode_num_int/alg/SimpleNewtonDescentDirection.h b/include/ode_num_int/alg/SimpleNewtonDescentDirection.h
index 9e8cf9f..3bed498 100644
--- a/include/ode_num_int/alg/SimpleNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/SimpleNewtonDescentDirection.h
@@ -21,20 +21,20 @@ class SimpleNewtonDescentDirection :
 
         void reset( bool hard ) {
             if( hard ) {
-                this->jacobianProvider()->hardReset();
+                this->requiredJacobianProvider()->hardReset();
                 m_lu = decltype(m_lu)();
                 }
             }
 
         bool hardResetMayHelp() const {
-            return this->jacobianProvider()->hardResetMayHelp();
+            return this->requiredJacobianProvider()->hardResetMayHelp();
             }
 
         void computeDescentDirection( V& dir, const V& x0, const V& f0, unsigned int /*iterationNumber*/ )
             {
             m_lu.clearTimingStats();
             this->jacobianRefreshObservers( true );
-            auto jp = this->jacobianProvider();
+            auto jp = this->requiredJacobianProvider();
             ASSERT( jp );
             jp->computeJacobian( x0 );
             auto& J = jp->jacobian();
diff --git a/include/ode_num_int/alg/interfaces/NewtonDescentDirection.h b/include/ode_num_int/alg/interfaces/NewtonDescentDirection.h
index bfc72e6..418e5f5 100644
--- a/include/ode_num_int/alg/interfaces/NewtonDescentDirection.h
+++ b/include/ode_num_int/alg/interfaces/NewtonDescentDirection.h
@@ -50,6 +50,15 @@ class NewtonDescentDirection :
             this->onJacobianProviderChanged( setJpMapping );
             }
 
+        /// \brief Returns the Jacobian provider; throws an exception if there is none.
+        std::shared_ptr< JacobianProvider<VD> > requiredJacobianProvider() const
+            {
+            auto result = this->jacobianProvider();
+            if( !result )
+                throw cxx::exception( "Jacobian provider of the Newton solver is not set" );
+            return result;
+            }
+
         virtual void reset( bool hard ) = 0;
         virtual bool hardResetMayHelp() const = 0;
         virtual void computeDescentDirection( V& dir, const V& x0, const V& f0, unsigned int iterationNumber ) = 0;
-- 
2.43.0


From 7a49b45d797bd3843d36ad5e63cbb46e11304695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 61/81] fix: observers are told the step size of the first step

---
 include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h | 1 +
 include/ode_num_int/ode/OdeSolverExplicitRK.h         | 1 +
 include/ode_num_int/ode/OdeSolverExtrapolator.h       | 1 +
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
index 81ce6ef..e317ff6 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
@@ -74,6 +74,7 @@ class OdeSolverExplicitEmbeddedRK :
         void doStep()
             {
             while( true ) {
+                initStep();     // Sets the step size passed to the observers
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
diff --git a/include/ode_num_int/ode/OdeSolverExplicitRK.h b/include/ode_num_int/ode/OdeSolverExplicitRK.h
index c98e824..050af15 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitRK.h
@@ -49,6 +49,7 @@ class OdeSolverExplicitRK :
 
         void doStep()
             {
+            initStep();     // Sets the step size passed to the observers
             this->odeSolverPreObservers( m_h, this );
 
             OpaqueTickCounter timer;    // deBUG
diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 36dad14..bfd6f67 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -83,6 +83,7 @@ class OdeSolverExtrapolator :
         void doStep()
             {
             while( true ) {
+                initStep();     // Sets the step size passed to the observers
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index b49b9f6..c4b9260 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -256,6 +256,7 @@ class OdeSolverRosenbrock_SW2_4 :
 
         void cleanupStep() {
             m_k1.resize( 0 );
+            m_h = this->initialStepSize();
             }
 
         void linSolve( V& x ) {
-- 
2.43.0


From 625d8f5b8b90201d967c0af407a1e58852fcc045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:42 +0000
Subject: [PATCH 62/81] fix: implicit Euler reports each iteration and Jacobian
 refresh of the Newton solver in use once

---
 .../ode_num_int/ode/OdeSolverImplicitEuler.h  | 65 ++++++++++++++++---
 1 file changed, 55 insertions(+), 10 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index c56a2a3..c65fd7a 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -39,25 +39,23 @@ class OdeSolverImplicitEuler :
                     this->newtonSolver()->setComponent( m_reorder );
                 else
                     this->newtonSolver()->setComponent( m_mapping4Newton );
-               cxx::forwardObservers( newton->iterationObservers, this->iterationObservers );
-                if( auto itperf = newton->iterationPerformer() ) {
-                    // Forward jacobian refresh observers
-                    auto setupDdir = [this, itperf] {
-                        if( auto ddir = itperf->newtonDescentDirection() )
-                            cxx::forwardObservers( ddir->jacobianRefreshObservers, this->jacobianRefreshObservers );
-                        };
-                    itperf->onNewtonDescentDirectionChanged( setupDdir );
-                    setupDdir();
-                    }
                 };
             setupNewtonSolver();
+            forwardFromNewtonSolver();
             this->onNewtonSolverChanged( setupNewtonSolver );
+            this->onNewtonSolverChanged( [this]() { forwardFromNewtonSolver(); } );
 
             this->onOdeRhsChanged([this](){
                 m_mapping4Newton->setOdeRhs( this->odeRhs() );
                 });
             }
 
+        ~OdeSolverImplicitEuler() {
+            stopForwarding( m_newtonForwarding );
+            stopForwarding( m_itperfForwarding );
+            stopForwarding( m_ddirForwarding );
+            }
+
         int order() const {
             return 1;
             }
@@ -229,6 +227,53 @@ class OdeSolverImplicitEuler :
         V m_buf;
         V m_eqnbuf;
         bool m_hardResetRequested;
+
+        // Forwarding of the observers of each part of the Newton solver ends as soon as the part is no longer used
+        typedef std::vector< std::function<void()> > Forwarding;
+        Forwarding m_newtonForwarding;
+        Forwarding m_itperfForwarding;
+        Forwarding m_ddirForwarding;
+
+        static void stopForwarding( Forwarding& forwarding )
+            {
+            for( auto& stop : forwarding )
+                stop();
+            forwarding.clear();
+            }
+
+        void forwardFromNewtonSolver()
+            {
+            stopForwarding( m_newtonForwarding );
+            if( auto newton = this->newtonSolver() ) {
+                auto iterId = cxx::forwardObservers( newton->iterationObservers, this->iterationObservers );
+                m_newtonForwarding.push_back( [newton, iterId]() { newton->iterationObservers.remove( iterId ); } );
+                auto itperfId = newton->onNewtonIterationPerformerChanged( [this]() { forwardFromIterationPerformer(); } );
+                m_newtonForwarding.push_back( [newton, itperfId]() { newton->offNewtonIterationPerformerChanged( itperfId ); } );
+                }
+            forwardFromIterationPerformer();
+            }
+
+        void forwardFromIterationPerformer()
+            {
+            stopForwarding( m_itperfForwarding );
+            auto newton = this->newtonSolver();
+            if( auto itperf = newton?   newton->iterationPerformer():   nullptr ) {
+                auto ddirId = itperf->onNewtonDescentDirectionChanged( [this]() { forwardFromDescentDirection(); } );
+                m_itperfForwarding.push_back( [itperf, ddirId]() { itperf->offNewtonDescentDirectionChanged( ddirId ); } );
+                }
+            forwardFromDescentDirection();
+            }
+
+        void forwardFromDescentDirection()
+            {
+            stopForwarding( m_ddirForwarding );
+            auto newton = this->newtonSolver();
+            auto itperf = newton?   newton->iterationPerformer():   nullptr;
+            if( auto ddir = itperf?   itperf->newtonDescentDirection():   nullptr ) {
+                auto id = cxx::forwardObservers( ddir->jacobianRefreshObservers, this->jacobianRefreshObservers );
+                m_ddirForwarding.push_back( [ddir, id]() { ddir->jacobianRefreshObservers.remove( id ); } );
+                }
+            }
     };
 
 
-- 
2.43.0


From 1fe0ddc35f62665819918352f23f3683ecf37aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:03 +0000
Subject: [PATCH 63/81] fix: the solution output writes the first row after the
 initial one only when the interval has passed

---
 include/ode_num_int/ode/ode_solver_output.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ode_num_int/ode/ode_solver_output.h b/include/ode_num_int/ode/ode_solver_output.h
index 5c366fa..ea651c5 100644
--- a/include/ode_num_int/ode/ode_solver_output.h
+++ b/include/ode_num_int/ode/ode_solver_output.h
@@ -373,6 +373,7 @@ class OdeSolverStepSolutionConsoleOutput :
                 solverConfig, solverComponents, m_sizeHalfLimit, this->fileName() ) );
             auto s = solverComponents->solver().get();
             m_d->writeHeaders( s );
+            m_d->outputNow( s->initialTime() );     // The next row is due one output interval later
             m_d->write( s );
             }
 
-- 
2.43.0


From 89688657cd77a6a7d9e19fb2d335b578efa9dcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:07 +0000
Subject: [PATCH 64/81] fix: outputs do not remain attached to the solver after
 a run has failed

---
 .../ode_num_int/ode/OdeSolverConfiguration.h  | 41 ++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverConfiguration.h b/include/ode_num_int/ode/OdeSolverConfiguration.h
index ae5d5ad..fa1173d 100644
--- a/include/ode_num_int/ode/OdeSolverConfiguration.h
+++ b/include/ode_num_int/ode/OdeSolverConfiguration.h
@@ -306,6 +306,41 @@ class OdeSolverOutputOption :
         virtual void afterSolve() = 0;
     };
 
+// Makes sure outputs do not remain attached to the solver if an exception occurs
+template< class VD >
+class FinalizeOdeOutputOnFailure
+    {
+    public:
+        typedef std::vector< OdeSolverOutputOption<VD>* > OutputOptions;
+
+        explicit FinalizeOdeOutputOnFailure( const OutputOptions& outputOptions ) :
+            m_outputOptions( outputOptions ),
+            m_cancelled( false )
+            {}
+
+        FinalizeOdeOutputOnFailure( const FinalizeOdeOutputOnFailure<VD>& ) = delete;
+        FinalizeOdeOutputOnFailure<VD>& operator=( const FinalizeOdeOutputOnFailure<VD>& ) = delete;
+
+        ~FinalizeOdeOutputOnFailure()
+            {
+            if( m_cancelled )
+                return;
+            for( auto oo : m_outputOptions )
+                try {
+                    oo->afterSolve();
+                    }
+                catch( ... ) {}     // The exception being handled is to be reported
+            }
+
+        void cancel() {
+            m_cancelled = true;
+            }
+
+    private:
+        const OutputOptions& m_outputOptions;
+        bool m_cancelled;
+    };
+
 template< class VD >
 inline std::vector< OdeSolverOutputOption<VD>* > initOdeOutput(
         const OdeSolverConfiguration<VD> *config,
@@ -315,8 +350,10 @@ inline std::vector< OdeSolverOutputOption<VD>* > initOdeOutput(
     std::vector< OdeSolverOutputOption<VD>* > outputOptions;
     auto collectOutputOption = [&]( const std::shared_ptr< OdeSolverOutputOption<VD> >& oo ) {
         if( oo ) {
-            outputOptions.push_back( oo.get() );
+            FinalizeOdeOutputOnFailure<VD> finalizeOnFailure( outputOptions );
             oo->beforeFirstStep( config, components );
+            outputOptions.push_back( oo.get() );
+            finalizeOnFailure.cancel();
             }
         };
     collectOutputOption( paramProvider->statisticsOutput() );
@@ -346,6 +383,7 @@ inline void solveOde(
 
     auto outputOptions = initOdeOutput( config, components );
 
+    FinalizeOdeOutputOnFailure<VD> finalizeOnFailure( outputOptions );
     auto startTime = solver->initialTime();
     auto endTime = startTime + paramProvider->odeSolverDuration();
     auto currentTime = startTime;
@@ -354,6 +392,7 @@ inline void solveOde(
         currentTime = solver->initialTime();
         }
     while( currentTime < endTime );
+    finalizeOnFailure.cancel();
     finalizeOdeOutput( outputOptions );
     }
 
-- 
2.43.0


From 035315f4e40daa4c5bf49f844627ed197f0f1f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:11 +0000
Subject: [PATCH 65/81] fix: a configuration without system or with an initial
 state of wrong size is rejected

---
 include/ode_num_int/ode/OdeSolverConfiguration.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverConfiguration.h b/include/ode_num_int/ode/OdeSolverConfiguration.h
index fa1173d..4ada956 100644
--- a/include/ode_num_int/ode/OdeSolverConfiguration.h
+++ b/include/ode_num_int/ode/OdeSolverConfiguration.h
@@ -257,6 +257,8 @@ class OdeSolverConfiguration : public ComponentConfiguration
 
                 if( auto initState = getInitState() ) {
                     auto state = initState->initialState();
+                    if( !odeRhs )
+                        throw cxx::exception( "ODE right hand side is not specified" );
                     auto requiredStateSize = solver->odeRhs()->varCount();
                     if( state.size() != requiredStateSize )
                         throw cxx::exception(
@@ -264,6 +266,10 @@ class OdeSolverConfiguration : public ComponentConfiguration
                                 cxx::FormatInt(requiredStateSize) + ", passed " + cxx::FormatInt(state.size()) );
                     solver->setInitialState( initState->initialTime(), state );
                     }
+                else if( odeRhs   &&   odeInitState.size() != odeRhs->varCount() )
+                    throw cxx::exception(
+                            std::string("Invalid initial state size: expected ") +
+                            cxx::FormatInt(odeRhs->varCount()) + ", passed " + cxx::FormatInt(odeInitState.size()) );
                 else
                     solver->setInitialState( odeInitTime, odeInitState );
                 };
-- 
2.43.0


From e25850f2b01c7b32692793469ac4c6f3c527803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:09 +0000
Subject: [PATCH 66/81] fix: the extrapolation solver rejects a number of
 stages that makes no step possible

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index bfd6f67..4a69c99 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -265,6 +265,8 @@ class OdeSolverExtrapolator :
 
         void initStep()
             {
+            if( m_max_stages < (m_disable_error_check? 1u: 2u) )
+                throw cxx::exception( "Too few stages: at least one is required, and at least two if error check is enabled" );
             if( !m_T.empty() ) {
                 // The number of stages may have been increased
                 if( m_T.size() < m_max_stages ) {
-- 
2.43.0


From df8e7c738c7d44d971d9751e8af9b3075094ad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:57 +0000
Subject: [PATCH 67/81] fix: a part of the extrapolation solver removed between
 steps is an exception, not a crash

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 4a69c99..6ca64a9 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -267,6 +267,11 @@ class OdeSolverExtrapolator :
             {
             if( m_max_stages < (m_disable_error_check? 1u: 2u) )
                 throw cxx::exception( "Too few stages: at least one is required, and at least two if error check is enabled" );
+            if( !m_referenceSolver )
+                throw cxx::exception( "Reference solver is not set" );
+            if( !stepSequence() )
+                throw cxx::exception( "Step sequence is not set" );
+
             if( !m_T.empty() ) {
                 // The number of stages may have been increased
                 if( m_T.size() < m_max_stages ) {
@@ -276,11 +281,6 @@ class OdeSolverExtrapolator :
                 return;
                 }
 
-            if( !m_referenceSolver )
-                throw cxx::exception( "Reference solver is not set" );
-            if( !stepSequence() )
-                throw cxx::exception( "Step sequence is not set" );
-
             auto rhs = this->odeRhs();
             auto n = rhs->varCount();
 
-- 
2.43.0


From e96cd13d79bbc07176ec5043db74458e16d346df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:36 +0000
Subject: [PATCH 68/81] fix: extrapolation of steps that do not add up to the
 step is an exception

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 6ca64a9..ea0b826 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -9,6 +9,9 @@
 #include "./interfaces/OdeSolverStepSizeController.h"
 #include "./interfaces/OdeSolverEventController.h"
 
+#include <cmath>
+#include <limits>
+
 namespace ctm {
 namespace math {
 
@@ -115,6 +118,12 @@ class OdeSolverExtrapolator :
                     solver->setInitialStepSize( h );
                     for( int istep=0; istep<n; ++istep )
                         solver->doStep();
+                    // A reference solver that controls its step size may end up elsewhere
+                    auto timeError = std::abs( solver->initialTime() - m_initialTime - m_h );
+                    auto timeTol = 1e-6*std::abs( m_h ) +
+                        4*n*std::numeric_limits<real_type>::epsilon()*( std::abs( m_initialTime ) + std::abs( m_h ) );
+                    if( !( timeError <= timeTol ) )
+                        throw cxx::exception( "The steps of the reference solver do not add up to the extrapolation step" );
                     m_T[k] = solver->initialState();
                     m_n[k] = n;
                     }
-- 
2.43.0


From 3661361a1c55f5b6b75a843bf6655f5cbea8a2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:45 +0000
Subject: [PATCH 69/81] fix: the specified initial state can be made smaller

---
 include/ode_num_int/ode/SpecifiedOdeInitState.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/SpecifiedOdeInitState.h b/include/ode_num_int/ode/SpecifiedOdeInitState.h
index cd475af..1701d84 100644
--- a/include/ode_num_int/ode/SpecifiedOdeInitState.h
+++ b/include/ode_num_int/ode/SpecifiedOdeInitState.h
@@ -60,7 +60,8 @@ class SpecifiedOdeInitState :
             int n0 = m_initialState.size();
             if( n != n0 ) {
                 m_initialState.resize( n );
-                std::fill( m_initialState.begin() + n0, m_initialState.end(), real_type(0) );
+                if( n > n0 )
+                    std::fill( m_initialState.begin() + n0, m_initialState.end(), real_type(0) );
                 }
             }
 
-- 
2.43.0


From 9f03e63b6f0321ddd8c1dac4c0c800361a31982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:45 +0000
Subject: [PATCH 70/81] fix: a zero function that starts at zero can trigger
 once more after its first event

---
 include/ode_num_int/ode/LinearOdeEventController.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index 4112763..03f3396 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -69,6 +69,7 @@ class LinearOdeEventController :
                 for( decltype(nz) i=0; i<nz; ++i )
                     if( s(m_zf1[i]) != 0 )
                         m_state[i] = s(m_zf1[i]);
+                std::fill( m_fired.begin(), m_fired.end(), 0 );
                 return false;
                 }
 
@@ -125,9 +126,10 @@ class LinearOdeEventController :
                     st = s(zf);
                 else if (i == itmin) {
                     // A function watched in one direction fires once more if it leaves zero in that direction
-                    st = bothDirections || st == 0 ?   currentTransitionType :   0;
+                    st = bothDirections || (st == 0 && m_fired[i]) ?   currentTransitionType :   0;
                     zf = 0;
                     }
+                m_fired[i] = st == 0 && (i == itmin || m_fired[i]);
                 }
 
             return true;
@@ -144,6 +146,7 @@ class LinearOdeEventController :
         std::vector<unsigned int> m_zfi;// Indices of zero function that changed their sign, terminated with ~0u
         std::vector<int> m_transitions;
         std::vector<int> m_state;
+        std::vector<int> m_fired;       // Nonzero if the state is zero since an event at the end of the last step
         real_type m_t1;
 
         bool init()
@@ -160,6 +163,7 @@ class LinearOdeEventController :
             m_transitions.resize( nz );
             m_state.resize( nz );
             std::fill( m_state.begin(), m_state.end(), 0 );
+            m_fired.assign( nz, 0 );
             m_zfflags = rhs->zeroFuncFlags();
             ASSERT( m_zfflags.size() == nz );
             m_haveRecomputedZf = false;
-- 
2.43.0


From b5207a8b747ad38dd6ba5dce60cc0d70359a4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:23 +0000
Subject: [PATCH 71/81] fix: a bouncing ball that came to rest can be started
 again

---
 include/ode_num_int/ode/test_models/BouncingBall.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/test_models/BouncingBall.h b/include/ode_num_int/ode/test_models/BouncingBall.h
index 3efec43..d5ce395 100644
--- a/include/ode_num_int/ode/test_models/BouncingBall.h
+++ b/include/ode_num_int/ode/test_models/BouncingBall.h
@@ -50,7 +50,8 @@ class BouncingBall :
             {
             this->odeRhsPreObservers( time, x, this );
             dst.resize( 2 );
-            if( m_sticking )
+            // A state other than rest means that another motion has been started
+            if( m_sticking && x[0] == 0 && x[1] == 0 )
                 dst[0] = dst[1] = 0;
             else {
                 dst[0] = x[1];
-- 
2.43.0


From b82d0bdfd39d20b6f8d4a213e4418497c06d2f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:14 +0000
Subject: [PATCH 72/81] fix: default constructed error statistics of numbers
 start from zero

---
 include/ode_num_int/util/ErrorStats.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/util/ErrorStats.h b/include/ode_num_int/util/ErrorStats.h
index 02c9921..b8d974a 100644
--- a/include/ode_num_int/util/ErrorStats.h
+++ b/include/ode_num_int/util/ErrorStats.h
@@ -14,7 +14,7 @@ class ErrorStats
     public:
         typedef X value_type;
 
-        ErrorStats() : m_sampleCount( 0 ) {}
+        ErrorStats() : m_errorMax(), m_errorSum(), m_errorSquareSum(), m_sampleCount( 0 ) {}
 
         ErrorStats( const ErrorStats& ) = default;
 
-- 
2.43.0


From dcafe821517f1342b9669f3856164a9fd79ef36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 73/81] fix: the mean square deviation of errors is the one
 from their mean value

---
 include/ode_num_int/util/ErrorStats.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/util/ErrorStats.h b/include/ode_num_int/util/ErrorStats.h
index b8d974a..01fb611 100644
--- a/include/ode_num_int/util/ErrorStats.h
+++ b/include/ode_num_int/util/ErrorStats.h
@@ -60,9 +60,12 @@ class ErrorStats
         X errorMeanSqareDev() const
             {
             ASSERT( m_sampleCount > 0 );
-            X result = ( math::sqr( m_errorSum ) + m_errorSquareSum );
+            // Root of the difference of the mean square and the square of the mean, where fabs() removes
+            // the sign of a difference that is zero up to rounding
+            X result = m_errorSquareSum;
             result *= 1. / m_sampleCount;
-            return std::sqrt( result );
+            result -= math::sqr( errorMeanValue() );
+            return std::sqrt( std::fabs( result ) );
             }
 
         unsigned int sampleCount() const {
-- 
2.43.0


From 2844117ce9617da8625ddf7b3235ecc4dfe8df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:53 +0000
Subject: [PATCH 74/81] fix: the largest of a series of errors is not a number
 if any of them is not

---
 include/ode_num_int/util/ErrorStats.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/util/ErrorStats.h b/include/ode_num_int/util/ErrorStats.h
index 01fb611..0d70263 100644
--- a/include/ode_num_int/util/ErrorStats.h
+++ b/include/ode_num_int/util/ErrorStats.h
@@ -76,14 +76,14 @@ class ErrorStats
             {
             ++m_sampleCount;
             auto e = std::fabs( error );
-            m_errorMax = std::max( e, m_errorMax );
+            m_errorMax = maxValue( e, m_errorMax );
             m_errorSum += e;
             m_errorSquareSum += math::sqr( e );
             }
 
         ErrorStats<X>& operator+=( const ErrorStats<X>& that )
             {
-            m_errorMax = std::max( m_errorMax, that.m_errorMax );
+            m_errorMax = maxValue( m_errorMax, that.m_errorMax );
             m_errorSum += that.m_errorSum;
             m_errorSquareSum += that.m_errorSquareSum;
             m_sampleCount += that.m_sampleCount;
@@ -98,6 +98,19 @@ class ErrorStats
             }
 
     private:
+        // The larger value, or NaN if any of them is NaN
+        template< class T >
+        static T maxValue( const T& a, const T& b ) {
+            return a > b   ||   a != a ?   a :   b;
+            }
+
+        template< class VD >
+        static VectorTemplate< VD > maxValue( const VectorTemplate< VD >& a, const VectorTemplate< VD >& b )
+            {
+            typedef typename VD::value_type T;
+            return vectorMemberwiseBinaryOp( a, b, []( T x, T y ) { return maxValue( x, y ); } );
+            }
+
         X m_errorMax;
         X m_errorSum;
         X m_errorSquareSum;
-- 
2.43.0


From cf0071f9552d3de21e49f4cb2cf122e68c8de2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:52 +0000
Subject: [PATCH 75/81] fix: Richardson error calculation processes events once
 and goes on at the time of the event

---
 .../ode/util/RichardsonErrorCalculator.h      | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/ode_num_int/ode/util/RichardsonErrorCalculator.h b/include/ode_num_int/ode/util/RichardsonErrorCalculator.h
index 500d3f2..be4241a 100644
--- a/include/ode_num_int/ode/util/RichardsonErrorCalculator.h
+++ b/include/ode_num_int/ode/util/RichardsonErrorCalculator.h
@@ -7,6 +7,7 @@
 #include "../interfaces/OdeStepSizeController.h"
 #include "../interfaces/OdeEventController.h"
 #include "../interfaces/OdeSolver.h"
+#include "../interfaces/OdeSolverEventController.h"
 #include "../../util/ErrorStats.h"
 
 namespace ctm {
@@ -55,17 +56,23 @@ class RichardsonErrorCalculator :
                 } );
             do {
                 skipStep = false;
+                V x2;
+                {
+                // The solution goes on with the two half steps; the other step must not
+                // affect event detection and the phase state of the system
+                OdeSolverEventSuspender<VD> eventSuspender( *solver );
                 solver->setInitialState( t, x, true );
+                solver->setInitialStepSize( h );
+                solver->doStep();
+                x2 = solver->initialState();
+                solver->setInitialState( t, x, true );
+                }
+
                 solver->setInitialStepSize( 0.5*h );
                 solver->doStep();
                 solver->doStep();
                 auto x1 = solver->initialState();
 
-                solver->setInitialState( t, x, true );
-                solver->setInitialStepSize( h );
-                solver->doStep();
-                auto x2 = solver->initialState();
-
                 if( !skipStep ) {
                     error = x1;
                     error -= x2;
@@ -75,7 +82,7 @@ class RichardsonErrorCalculator :
                     }
 
                 x = x1;
-                t += h;
+                t = solver->initialTime();      // Less than t+h after a truncated step
                 }
             while( t < tEnd );
             return result;
-- 
2.43.0


From 51d2eafde06f8b15f1311668785b75fb57b0264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:17 +0000
Subject: [PATCH 76/81] fix: Richardson error calculation without solver or
 with a step size that is not positive is rejected

---
 include/ode_num_int/ode/util/RichardsonErrorCalculator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ode_num_int/ode/util/RichardsonErrorCalculator.h b/include/ode_num_int/ode/util/RichardsonErrorCalculator.h
index be4241a..d840229 100644
--- a/include/ode_num_int/ode/util/RichardsonErrorCalculator.h
+++ b/include/ode_num_int/ode/util/RichardsonErrorCalculator.h
@@ -32,6 +32,10 @@ class RichardsonErrorCalculator :
         ErrorStats<V> calculateError( real_type T, real_type h ) const
             {
             auto solver = this->odeSolver();
+            if( !solver )
+                throw cxx::exception( "ODE solver is not set" );
+            if( !( h > 0 ) )
+                throw cxx::exception( "The step size of Richardson error calculation must be positive" );
             OptionalParameters::Parameters solverParam;
             solverParam["disable_error_check"] = 1;
             solver->setParameters( solverParam );
-- 
2.43.0


From 8f10cb8d314605bc6703ec6fc8ad65afadcc79b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:00 +0000
Subject: [PATCH 77/81] fix: help on the extrapolation solver lacked the
 options common to all solvers

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index ea0b826..c57bc9e 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -239,7 +239,7 @@ class OdeSolverExtrapolator :
 
         Parameters helpOnParameters() const
             {
-            Parameters result;
+            Parameters result = OdeSolver<VD>::helpOnParameters();
             result["disable_error_check"] = "Disable error check and always use the initial step size.";
             result["step_sequence"] = this->appendNestedHelp( stepSequence(), "The type of step size sequence for the extrapolation." );
             result["reference_solver"] = this->appendNestedHelp( m_referenceSolver, "Reference solver to use." );
-- 
2.43.0


From 7d28724f1d8657c8af79af34faa68e4cca8559c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:45 +0000
Subject: [PATCH 78/81] fix: a mock_ptr could not be converted to a plain
 pointer (compilation error)

---
 include/ode_num_int/infra/cxx_mock_ptr.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/cxx_mock_ptr.h b/include/ode_num_int/infra/cxx_mock_ptr.h
index e9e6bc0..db4d6a6 100644
--- a/include/ode_num_int/infra/cxx_mock_ptr.h
+++ b/include/ode_num_int/infra/cxx_mock_ptr.h
@@ -44,7 +44,12 @@ class mock_ptr {
             }
 
         /// \brief Implicit cast to pointer to T*.
-        operator T*() const {
+        operator T*() {
+            return &m_data;
+            }
+
+        /// \brief Implicit cast to pointer to const T*.
+        operator const T*() const {
             return &m_data;
             }
     private:
-- 
2.43.0


From 0091aab55f98a6edf13c6f5fc90e27b01ab069db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:14 +0000
Subject: [PATCH 79/81] fix: private types of the same name in different source
 files shared a storage cell and thereby their registered name

---
 include/ode_num_int/infra/PerTypeStorage.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/ode_num_int/infra/PerTypeStorage.h b/include/ode_num_int/infra/PerTypeStorage.h
index 22a649e..2d4a3f3 100644
--- a/include/ode_num_int/infra/PerTypeStorage.h
+++ b/include/ode_num_int/infra/PerTypeStorage.h
@@ -6,8 +6,8 @@
 #ifndef _INFRA_PERTYPESTORAGE_H_AB0B81B0_CF3E_424f_9766_BA04D388199F_
 #define _INFRA_PERTYPESTORAGE_H_AB0B81B0_CF3E_424f_9766_BA04D388199F_
 
-#include <typeinfo>
-#include <string>
+#include <typeindex>
+#include <utility>
 #include <map>
 #include "../defs.h"
 
@@ -30,11 +30,14 @@ class PerTypeStorage
         /// is allocated and filled with the default-constructed value.
         template< class ClassType, class ValueType >
         static ValueType& value() {
-            return value< ValueType >( std::string(typeid(ClassType).name()) + " / " + typeid(ValueType).name() );
+            // Note: type names cannot be used as a key because private types of different source files can have the same name
+            return value< ValueType >( Key( typeid(ClassType), typeid(ValueType) ) );
             }
     private:
+        typedef std::pair< std::type_index, std::type_index > Key;
+
         template< class ValueType >
-        static ValueType& value( const std::string& key )
+        static ValueType& value( const Key& key )
             {
             auto& d = data();
             auto it = d.find( key );
@@ -47,7 +50,7 @@ class PerTypeStorage
                 return *reinterpret_cast<ValueType*>( it->second );
             }
 
-        typedef std::map< std::string, void* > Data;
+        typedef std::map< Key, void* > Data;
 
         static Data& data()
             {
-- 
2.43.0


From fe47411ea9e3fcc208e728dd5cc1e5e7616d262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:01 +0000
Subject: [PATCH 80/81] Restore the test model of the bouncing ball as it was

---
 include/ode_num_int/ode/test_models/BouncingBall.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/test_models/BouncingBall.h b/include/ode_num_int/ode/test_models/BouncingBall.h
index d5ce395..3efec43 100644
--- a/include/ode_num_int/ode/test_models/BouncingBall.h
+++ b/include/ode_num_int/ode/test_models/BouncingBall.h
@@ -50,8 +50,7 @@ class BouncingBall :
             {
             this->odeRhsPreObservers( time, x, this );
             dst.resize( 2 );
-            // A state other than rest means that another motion has been started
-            if( m_sticking && x[0] == 0 && x[1] == 0 )
+            if( m_sticking )
                 dst[0] = dst[1] = 0;
             else {
                 dst[0] = x[1];
-- 
2.43.0


From a09dfdb1a069549f0e0a9d035db8a2121006efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:44 +0000
Subject: [PATCH 81/81] fix: a new iteration performer of a Newton solver
 shares its problem and parts with the rest, however it is set

---
 .../alg/interfaces/NewtonSolverInterface.h      | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
index 7a165ce..4d0fceb 100644
--- a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
+++ b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
@@ -55,11 +55,6 @@ class NewtonSolverInterface :
         NewtonSolverInterface<VD>& setComponent( const std::shared_ptr< NewtonIterationPerformer<VD> >& itperf )
             {
             replaceIterationPerformer( itperf );
-            auto rs = this->regularizationStrategy();
-            if( rs ) {
-                rs->setErrorEstimator( itperf->errorEstimator() );
-                rs->setNewtonDescentDirection( itperf->newtonDescentDirection() );
-                }
             return *this;
             }
 
@@ -282,8 +277,16 @@ class NewtonSolverInterface :
                     itperf->setNewtonLinearSearch( previous->newtonLinearSearch() );
                 }
             this->setIterationPerformer( itperf );
-            if( itperf && previous && !itperf->mapping() )
-                setComponent( previous->mapping() );
+            if( itperf ) {
+                // Note: all parts, including those taken over, work on the same problem
+                if( itperf->mapping() || previous )
+                    setComponent( itperf->mapping() ?   itperf->mapping() :   previous->mapping() );
+                auto rs = this->regularizationStrategy();
+                if( rs ) {
+                    rs->setErrorEstimator( itperf->errorEstimator() );
+                    rs->setNewtonDescentDirection( itperf->newtonDescentDirection() );
+                    }
+                }
             }
 
         // A new descent direction takes over the Jacobian provider from the previous one, if it does not have its own
-- 
2.43.0

