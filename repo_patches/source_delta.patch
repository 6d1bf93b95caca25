From 4e54e75570854b435428075bf6b4459d7d760f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 01/62] fix: free the destination's storage in move assignment
 of Array and SortedArray

The destination's values were neither destroyed nor their buffer freed.
---
 src/Array.hpp       | 1 +
 src/SortedArray.hpp | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index 69fc34e..b0a2367 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -192,6 +192,7 @@ public:
   LVARRAY_HOST_DEVICE
   Array & operator=( Array && rhs )
   {
+    bufferManipulation::free( this->m_dataBuffer, this->size() );
     ParentClass::operator=( std::move( rhs ) );
 
     for( int i = 0; i < NDIM; ++i )
diff --git a/src/SortedArray.hpp b/src/SortedArray.hpp
index 58ea36f..bd27448 100644
--- a/src/SortedArray.hpp
+++ b/src/SortedArray.hpp
@@ -106,12 +106,17 @@ public:
   }
 
   /**
-   * @brief Default move assignment operator, performs a shallow copy.
+   * @brief Move assignment operator, performs a shallow copy.
    * @param src the SortedArray to be moved from.
    * @return *this.
    */
   inline
-  SortedArray & operator=( SortedArray && src ) = default;
+  SortedArray & operator=( SortedArray && src )
+  {
+    bufferManipulation::free( this->m_values, size() );
+    ParentClass::operator=( std::move( src ) );
+    return *this;
+  }
 
   ///@}
 
-- 
2.43.0


From 4ce6275cf77ba2f53a60811b66fb0c09aba442de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 02/62] fix: destroy every value shiftUp moves out of

When shifting by less than the number of values shifted the values in between
were constructed over without having been destroyed.
---
 src/arrayManipulation.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 9cf25ee..724bb79 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -338,11 +338,10 @@ void shiftUp( T * const LVARRAY_RESTRICT ptr,
   {
     std::ptrdiff_t const curIndex = i - 1;
     new ( ptr + curIndex + n ) T( std::move( ptr[ curIndex ] ) );
-  }
 
-  // Delete the values moved out of.
-  std::ptrdiff_t const bounds = (index + n < size) ? index + n : size;
-  destroy( ptr + index, bounds - index );
+    // Delete the value moved out of.
+    ptr[ curIndex ].~T();
+  }
 }
 
 /**
-- 
2.43.0


From 6fb07ba1a97b24f665b2b28d2774d5b8539423cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 03/62] fix: construct every new value from intact arguments in
 resize

An rvalue argument was moved out of for the first new value.
---
 src/arrayManipulation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 724bb79..db32784 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -301,9 +301,10 @@ void resize( T * const LVARRAY_RESTRICT ptr,
   }
   else
   {
+    // The arguments are not forwarded since that would move out of them for the first value.
     for( std::ptrdiff_t i = size; i < newSize; ++i )
     {
-      new ( ptr + i ) T( std::forward< ARGS >( args )... );
+      new ( ptr + i ) T( args ... );
     }
   }
 }
-- 
2.43.0


From 452d781c2dda7d9797497cde15a80bf3758bad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 04/62] fix: bound the stack of ranges in introsortLoop

An adversarial order made the partitions so uneven that more ranges were
pending than the stack holds and it was overrun.
---
 src/sortedArrayManipulationHelpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sortedArrayManipulationHelpers.hpp b/src/sortedArrayManipulationHelpers.hpp
index be6765b..635ffab 100644
--- a/src/sortedArrayManipulationHelpers.hpp
+++ b/src/sortedArrayManipulationHelpers.hpp
@@ -650,9 +650,9 @@ LVARRAY_HOST_DEVICE inline void introsortLoop( RandomAccessIterator first, Rando
   {
     RandomAccessIterator const m_first = ranges[nRanges - 1];
 
-    if( ranges[nRanges] - m_first > INTROSORT_THRESHOLD )
+    // If there is no room for another range the current one is left to the final insertion sort.
+    if( ranges[nRanges] - m_first > INTROSORT_THRESHOLD && nRanges < MAX_RANGES )
     {
-      LVARRAY_ASSERT( nRanges < MAX_RANGES );
       ranges[nRanges + 1] = ranges[nRanges];
       ranges[nRanges] = unguardedPartitionPivot( m_first, ranges[nRanges], comp );
       ++nRanges;
-- 
2.43.0


From 747bac9bcc4e7e98cb627edfd9bb25fc03470dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 05/62] fix: relocate no values when assigning to an array of
 arrays

setEqualTo took the number of values to relocate from the offsets it had just overwritten,
using the old number of arrays: it read past the copied offsets, and moved and destroyed
values that had already been destroyed.
---
 src/ArrayOfArraysView.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 7aebc59..0e9b656 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -840,10 +840,10 @@ protected:
     bufferManipulation::copyInto( m_offsets, offsetsSize, srcOffsets, srcNumArrays + 1 );
     bufferManipulation::copyInto( m_sizes, m_numArrays, srcSizes, srcNumArrays );
 
-    INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
-    typeManipulation::forEachArg( [maxOffset, srcMaxOffset]( auto & dstBuffer )
+    // The values have been destroyed above, so there is nothing to relocate.
+    typeManipulation::forEachArg( [srcMaxOffset]( auto & dstBuffer )
     {
-      bufferManipulation::reserve( dstBuffer, maxOffset, MemorySpace::host, srcMaxOffset );
+      bufferManipulation::reserve( dstBuffer, 0, MemorySpace::host, srcMaxOffset );
     }, m_values, pairs.first ... );
 
     m_numArrays = srcNumArrays;
-- 
2.43.0


From 19cc43bf9aa4e93897c5ebc92873b26d5afc543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 06/62] fix: make self assignment of the array of arrays family
 a no-op

setEqualTo destroyed the values and then copied from them.
---
 src/ArrayOfArrays.hpp   | 2 ++
 src/ArrayOfSets.hpp     | 2 ++
 src/CRSMatrix.hpp       | 2 ++
 src/SparsityPattern.hpp | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index 1ce2231..3214c7e 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -168,6 +168,8 @@ public:
   inline
   ArrayOfArrays & operator=( ArrayOfArrays const & src )
   {
+    if( &src == this ) return *this;
+
     ParentClass::setEqualTo( src.m_numArrays,
                              src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index c8b7519..bfe9f2e 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -98,6 +98,8 @@ public:
   inline
   ArrayOfSets & operator=( ArrayOfSets const & src )
   {
+    if( &src == this ) return *this;
+
     ParentClass::setEqualTo( src.m_numArrays,
                              src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index ddd786c..eaf6f95 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -100,6 +100,8 @@ public:
   inline
   CRSMatrix & operator=( CRSMatrix const & src )
   {
+    if( &src == this ) return *this;
+
     this->m_numCols = src.m_numCols;
     ParentClass::setEqualTo( src.m_numArrays,
                              src.m_offsets[ src.m_numArrays ],
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 652d5e5..7c803c2 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -95,6 +95,8 @@ public:
   inline
   SparsityPattern & operator=( SparsityPattern const & src )
   {
+    if( &src == this ) return *this;
+
     this->m_numCols = src.m_numCols;
     ParentClass::setEqualTo( src.m_numArrays,
                              src.m_offsets[ src.m_numArrays ],
-- 
2.43.0


From ce5b1837fd4aa332df02ef6e6822eac06abe3725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 07/62] fix: relocate only constructed values when an array of
 arrays reallocates

The reallocation of the values moved and destroyed everything up to the last offset, so it ran move constructors
and destructors on the unconstructed space between the arrays, and constructed objects there that nobody destroyed.
---
 src/ArrayOfArraysView.hpp | 57 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 0e9b656..0398612 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -645,10 +645,9 @@ protected:
   template< class ... BUFFERS >
   void reserveValues( INDEX_TYPE const newValueCapacity, BUFFERS & ... buffers )
   {
-    INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
-    typeManipulation::forEachArg( [newValueCapacity, maxOffset] ( auto & buffer )
+    typeManipulation::forEachArg( [this, newValueCapacity] ( auto & buffer )
     {
-      bufferManipulation::reserve( buffer, maxOffset, MemorySpace::host, newValueCapacity );
+      reserveBuffer( buffer, newValueCapacity );
     }, m_values, buffers ... );
   }
 
@@ -784,10 +783,9 @@ protected:
 
         INDEX_TYPE const totalSize = m_offsets[ newSize ];
 
-        INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
-        typeManipulation::forEachArg( [totalSize, maxOffset]( auto & buffer )
+        typeManipulation::forEachArg( [this, totalSize]( auto & buffer )
         {
-          bufferManipulation::reserve( buffer, maxOffset, MemorySpace::host, totalSize );
+          reserveBuffer( buffer, totalSize );
         }, m_values, buffers ... );
       }
     }
@@ -889,7 +887,10 @@ protected:
         [this, i, maxOffset, capacityIncrease]( auto & buffer )
       {
         // Increase the size of the buffer.
-        bufferManipulation::dynamicReserve( buffer, maxOffset, maxOffset + capacityIncrease );
+        if( maxOffset + capacityIncrease > buffer.capacity() )
+        {
+          reserveBuffer( buffer, 2 * std::ptrdiff_t( maxOffset + capacityIncrease ) );
+        }
 
         // Shift up the values.
         for( INDEX_TYPE array = m_numArrays - 1; array > i; --array )
@@ -972,6 +973,48 @@ protected:
 
 private:
 
+  /**
+   * @brief Reserve space in @p buffer for @p newCapacity values.
+   * @tparam BUFFER the type of the buffer, either that of m_values or of a buffer treated similarly.
+   * @param buffer the buffer to reserve space in.
+   * @param newCapacity the new minimum capacity of the buffer.
+   * @note A buffer that reallocates relocates a contiguous range of values, but between the arrays there may be space
+   *   that holds no values. Unless the values can be copied as raw memory they are therefore packed together for
+   *   the reallocation and moved back to where they belong afterwards.
+   */
+  template< typename BUFFER >
+  void reserveBuffer( BUFFER & buffer, std::ptrdiff_t const newCapacity )
+  {
+    using VALUE_TYPE = std::remove_reference_t< decltype( buffer[ 0 ] ) >;
+
+    if( newCapacity <= buffer.capacity() ) return;
+
+    if( std::is_trivially_copyable< VALUE_TYPE >::value )
+    {
+      bufferManipulation::reserve( buffer, m_offsets[ m_numArrays ], MemorySpace::host, newCapacity );
+      return;
+    }
+
+    INDEX_TYPE_NC numValues = 0;
+    for( INDEX_TYPE_NC i = 0; i < m_numArrays; ++i )
+    {
+      INDEX_TYPE const offset = m_offsets[ i ];
+      INDEX_TYPE const arraySize = sizeOfArray( i );
+      arrayManipulation::uninitializedShiftDown( &buffer[ offset ], arraySize, offset - numValues );
+      numValues += arraySize;
+    }
+
+    bufferManipulation::reserve( buffer, numValues, MemorySpace::host, newCapacity );
+
+    for( INDEX_TYPE_NC i = m_numArrays; i > 0; --i )
+    {
+      INDEX_TYPE const offset = m_offsets[ i - 1 ];
+      INDEX_TYPE const arraySize = sizeOfArray( i - 1 );
+      numValues -= arraySize;
+      arrayManipulation::uninitializedShiftUp( &buffer[ numValues ], arraySize, offset - numValues );
+    }
+  }
+
   /**
    * @brief Destroy the values in arrays in the range [begin, end).
    * @tparam BUFFERS variadic template where each type is a BUFFER_TYPE.
-- 
2.43.0


From cc8dbaee0c20be51a7386985e14834c02201ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 08/62] fix: let a ChaiBuffer that has been moved from grow
 again

---
 src/ChaiBuffer.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 7a3bfd5..4847cb4 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -282,11 +282,17 @@ public:
   {
     chai::PointerRecord * const newRecord = new chai::PointerRecord{};
     newRecord->m_size = newCapacity * sizeof( T );
-    newRecord->m_user_callback = m_pointerRecord->m_user_callback;
+
+    // A buffer that has been moved from has no record.
+    if( m_pointerRecord != nullptr )
+    {
+      newRecord->m_user_callback = m_pointerRecord->m_user_callback;
+    }
 
     for( int s = chai::CPU; s < chai::NUM_EXECUTION_SPACES; ++s )
     {
-      newRecord->m_allocators[ s ] = m_pointerRecord->m_allocators[ s ];
+      newRecord->m_allocators[ s ] = ( m_pointerRecord != nullptr ) ? m_pointerRecord->m_allocators[ s ] :
+                                     internal::getArrayManager().getAllocatorId( chai::ExecutionSpace( s ) );
     }
 
     chai::ExecutionSpace const chaiSpace = internal::toChaiExecutionSpace( space );
-- 
2.43.0


From 0a4900fd7e2fd6ca6565973dcdbf65cbd7f0dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 09/62] fix: leave the array of arrays family usable after a
 move

A moved from ArrayOfArrays, ArrayOfSets, SparsityPattern or CRSMatrix had no offsets, not even the first one, so
appending to it, reserving in it or copying it dereferenced a null pointer.
---
 src/ArrayOfArrays.hpp   | 8 +++++++-
 src/ArrayOfSets.hpp     | 8 +++++++-
 src/CRSMatrix.hpp       | 8 +++++++-
 src/SparsityPattern.hpp | 7 ++++++-
 4 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index 3214c7e..649ac26 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -72,7 +72,9 @@ public:
    * @brief Default move constructor, performs a shallow copy.
    */
   inline
-  ArrayOfArrays( ArrayOfArrays && ) = default;
+  ArrayOfArrays( ArrayOfArrays && src ):
+    ParentClass( std::move( src ) )
+  { src.resize( 0 ); }
 
   /**
    * @brief Destructor, frees the values, sizes and offsets buffers.
@@ -186,8 +188,11 @@ public:
   inline
   ArrayOfArrays & operator=( ArrayOfArrays && src )
   {
+    if( &src == this ) return *this;
+
     ParentClass::free();
     ParentClass::operator=( std::move( src ) );
+    src.resize( 0 );
     return *this;
   }
 
@@ -200,6 +205,7 @@ public:
   {
     ParentClass::free();
     ParentClass::assimilate( reinterpret_cast< ParentClass && >( src ) );
+    src.resize( 0 );
   }
 
   using ParentClass::resizeFromCapacities;
diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index bfe9f2e..a7da14e 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -74,7 +74,9 @@ public:
    * @brief Default move constructor, performs a shallow copy.
    */
   inline
-  ArrayOfSets( ArrayOfSets && ) = default;
+  ArrayOfSets( ArrayOfSets && src ):
+    ParentClass( std::move( src ) )
+  { src.resize( 0 ); }
 
   /**
    * @brief Destructor, frees the values, sizes and offsets Buffers.
@@ -116,8 +118,11 @@ public:
   inline
   ArrayOfSets & operator=( ArrayOfSets && src )
   {
+    if( &src == this ) return *this;
+
     ParentClass::free();
     ParentClass::operator=( std::move( src ) );
+    src.resize( 0 );
     return *this;
   }
 
@@ -133,6 +138,7 @@ public:
   {
     ParentClass::free();
     ParentClass::assimilate( reinterpret_cast< ParentClass && >( src ) );
+    src.resize( 0 );
 
     INDEX_TYPE const numSets = size();
     if( desc == sortedArrayManipulation::UNSORTED_NO_DUPLICATES )
diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index eaf6f95..9a2e08f 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -77,7 +77,9 @@ public:
    * @brief Default move constructor, performs a shallow copy.
    */
   inline
-  CRSMatrix( CRSMatrix && ) = default;
+  CRSMatrix( CRSMatrix && src ):
+    ParentClass( std::move( src ) )
+  { src.resize( 0, 0, 0 ); }
 
   /**
    * @brief Destructor, frees the entries, values (columns), sizes and offsets Buffers.
@@ -120,8 +122,11 @@ public:
   inline
   CRSMatrix & operator=( CRSMatrix && src )
   {
+    if( &src == this ) return *this;
+
     ParentClass::free( this->m_entries );
     ParentClass::operator=( std::move( src ) );
+    src.resize( 0, 0, 0 );
     return *this;
   }
 
@@ -151,6 +156,7 @@ public:
     bufferManipulation::reserve( this->m_entries, 0, MemorySpace::host, src.nonZeroCapacity() );
 
     ParentClass::assimilate( reinterpret_cast< SparsityPatternView< COL_TYPE, INDEX_TYPE, BUFFER_TYPE > && >( src ) );
+    src.resize( 0, 0, 0 );
 
     CRSMatrixView< T, COL_TYPE const, INDEX_TYPE const, BUFFER_TYPE > const view = toViewConstSizes();
     RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, numRows() ),
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 7c803c2..2c0e8d2 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -71,7 +71,9 @@ public:
    * @brief Default move constructor, performs a shallow copy.
    */
   inline
-  SparsityPattern( SparsityPattern && ) = default;
+  SparsityPattern( SparsityPattern && src ):
+    ParentClass( std::move( src ) )
+  { src.resize( 0, 0, 0 ); }
 
   /**
    * @brief Destructor, frees the values, sizes and offsets Buffers.
@@ -114,8 +116,11 @@ public:
   inline
   SparsityPattern & operator=( SparsityPattern && src )
   {
+    if( &src == this ) return *this;
+
     ParentClass::free();
     ParentClass::operator=( std::move( src ) );
+    src.resize( 0, 0, 0 );
     return *this;
   }
 
-- 
2.43.0


From 034ec28bed3dd1cb8a6edd6a4058dedd1f399e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 10/62] fix: check the capacity before appending a range to an
 inner array

The bounds check of ArrayOfArraysView::appendToArray reported the overrun only after the values had been written.
---
 src/ArrayOfArraysView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 0398612..a853b4c 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -486,8 +486,8 @@ public:
     ARRAYOFARRAYS_CHECK_BOUNDS( i );
 
     T * const ptr = m_values.data() + m_offsets[ i ];
+    ARRAYOFARRAYS_CAPACITY_CHECK( i, arrayManipulation::iterDistance( first, last ) );
     INDEX_TYPE const n = arrayManipulation::append( ptr, sizeOfArray( i ), first, last );
-    ARRAYOFARRAYS_CAPACITY_CHECK( i, n );
     m_sizes[ i ] += n;
   }
 
-- 
2.43.0


From db61137c1361f8d3f594362d467839aac3ea86de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 11/62] fix: check the sets in ArrayOfSets::assimilate when
 bounds checking

The check was guarded by a macro that doesn't exist.
---
 src/ArrayOfSets.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index a7da14e..aab2842 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -175,7 +175,7 @@ public:
       }
     }
 
-#ifdef ARRAY_BOUNDS_CHECK
+#ifdef LVARRAY_BOUNDS_CHECK
     consistencyCheck();
 #endif
   }
-- 
2.43.0


From e216e022b91d39e06297987a7be5b4adbd78f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 12/62] fix: check rows and columns in every insertion into and
 removal from a sparse matrix

SparsityPattern and CRSMatrix inserted columns beyond the number of columns without report, the views of
SparsityPattern reported them.
---
 src/CRSMatrix.hpp       | 17 +++++++++++++++--
 src/CRSMatrixView.hpp   | 30 +++++++++++++++++++++++++++---
 src/SparsityPattern.hpp | 17 +++++++++++++++--
 3 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index 9a2e08f..303940a 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -384,7 +384,11 @@ public:
    */
   inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col, T const & entry )
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+  }
 
   /**
    * @brief Insert a non-zero entries into the given row.
@@ -401,7 +405,16 @@ public:
                              COL_TYPE const * const cols,
                              T const * const entriesToInsert,
                              INDEX_TYPE const ncols )
-  { return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) );
+  }
 
   using ParentClass::removeNonZero;
   using ParentClass::removeNonZeros;
diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index 703688c..d7c7337 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -276,7 +276,11 @@ public:
    */
   LVARRAY_HOST_DEVICE inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col, T const & entry ) const
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+  }
 
   /**
    * @brief Insert a non-zero entries into the given row.
@@ -294,7 +298,16 @@ public:
                                 COL_TYPE const * const LVARRAY_RESTRICT cols,
                                 T const * const LVARRAY_RESTRICT entriesToInsert,
                                 INDEX_TYPE const ncols ) const
-  { return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE_NC i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) );
+  }
 
   /**
    * @brief Remove a non-zero entry at the given position.
@@ -304,7 +317,11 @@ public:
    */
   LVARRAY_HOST_DEVICE inline
   bool removeNonZero( INDEX_TYPE const row, COL_TYPE const col ) const
-  { return ParentClass::removeFromSetImpl( row, col, CallBacks( *this, row, nullptr )); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::removeFromSetImpl( row, col, CallBacks( *this, row, nullptr ));
+  }
 
   /**
    * @brief Remove non-zero entries from the given row.
@@ -320,6 +337,13 @@ public:
                                 COL_TYPE const * const LVARRAY_RESTRICT cols,
                                 INDEX_TYPE const ncols ) const
   {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE_NC i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
     T * const entries = getEntries( row );
     INDEX_TYPE const rowNNZ = numNonZeros( row );
     INDEX_TYPE const nRemoved = ParentClass::removeFromSetImpl( row, cols, cols + ncols, CallBacks( *this, row, nullptr ) );
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 2c0e8d2..cefda30 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -331,7 +331,11 @@ public:
    */
   inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col )
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row ) );
+  }
 
   /**
    * @tparam ITER An iterator type.
@@ -345,7 +349,16 @@ public:
   template< typename ITER >
   inline
   INDEX_TYPE insertNonZeros( INDEX_TYPE const row, ITER const first, ITER const last )
-  { return ParentClass::insertIntoSetImpl( row, first, last, CallBacks( *this, row ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( ITER iter = first; iter != last; ++iter )
+    { SPARSITYPATTERN_COLUMN_CHECK( *iter ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, first, last, CallBacks( *this, row ) );
+  }
 
   using ParentClass::removeNonZero;
 
-- 
2.43.0


From 49587375a85bc2c7528049faea2916a08d8d427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 13/62] fix: report the capacity of an array of arrays for any
 growth history

The buffers of sizes and offsets grow separately, so after some histories the sizes have the larger capacity: the
assertion failed, and without it more arrays were promised than fit before reallocation.
---
 src/ArrayOfArraysView.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index a853b4c..c9acbef 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -369,8 +369,8 @@ public:
   LVARRAY_HOST_DEVICE CONSTEXPR_WITH_NDEBUG inline
   INDEX_TYPE_NC capacity() const
   {
-    LVARRAY_ASSERT( m_sizes.capacity() < m_offsets.capacity());
-    return m_sizes.capacity();
+    // There is one more offset than there are arrays, and the two buffers grow separately.
+    return math::max( std::ptrdiff_t( 0 ), math::min( m_sizes.capacity(), m_offsets.capacity() - 1 ) );
   }
 
   /**
-- 
2.43.0


From d8feb02d322b743b713411b2f2ac472c04ba216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 14/62] fix: allow inserting an empty range into an array
 without storage

---
 src/arrayManipulation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index db32784..c4613c4 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -505,7 +505,7 @@ void insert( T * const LVARRAY_RESTRICT ptr,
              ITERATOR first,
              std::ptrdiff_t const n )
 {
-  LVARRAY_ASSERT( ptr != nullptr );
+  LVARRAY_ASSERT( ptr != nullptr || (size == 0 && n == 0) );
   LVARRAY_ASSERT( isPositive( size ) );
   ARRAYMANIPULATION_CHECK_INSERT_BOUNDS( index );
 
-- 
2.43.0


From cc859a07faa09b153de512cf708e747e93d413eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 15/62] fix: check the sign when converting to a larger
 unsigned integer

A signed integer was converted to any larger unsigned type without a check, so that a
negative one silently became a huge value.
---
 src/limits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limits.hpp b/src/limits.hpp
index 9a55104..4f7d754 100644
--- a/src/limits.hpp
+++ b/src/limits.hpp
@@ -120,7 +120,8 @@ constexpr bool sameSignedness = ( std::is_signed< T >::value && std::is_signed<
  * @brief True iff @tparam OUTPUT can hold every possible value of @tparam INPUT.
  */
 template< typename INPUT, typename OUTPUT >
-constexpr bool canEasilyConvert = sizeof( INPUT ) < sizeof( OUTPUT ) ||
+constexpr bool canEasilyConvert = ( sizeof( INPUT ) < sizeof( OUTPUT ) &&
+                                    ( std::is_unsigned< INPUT >::value || std::is_signed< OUTPUT >::value ) ) ||
                                   ( sizeof( INPUT ) == sizeof( OUTPUT ) && sameSignedness< INPUT, OUTPUT > );
 
 } // namespace internal
-- 
2.43.0


From 053eb6870d22b79e4a8be6ee47c84c9f89faeb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 16/62] fix: report lhs <= rhs, not lhs >= rhs, in
 LVARRAY_ERROR_IF_LE and LVARRAY_THROW_IF_LE

---
 src/Macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Macros.hpp b/src/Macros.hpp
index aa8fe6f..da2ce11 100644
--- a/src/Macros.hpp
+++ b/src/Macros.hpp
@@ -446,7 +446,7 @@
  * @param lhs expression to be evaluated and used as left-hand side in comparison
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  */
-#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_GE_MSG( lhs, rhs, "" )
+#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_LE_MSG( lhs, rhs, "" )
 
 /**
  * @brief Throw an exception if one value compares less than or equal to the other.
@@ -454,7 +454,7 @@
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  * @param TYPE the type of exception to throw
  */
-#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_GE_MSG( lhs, rhs, "", TYPE )
+#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_LE_MSG( lhs, rhs, "", TYPE )
 
 /**
  * @brief Abort execution if @p lhs @p OP @p rhs is false.
-- 
2.43.0


From efd0aa8c85ea17904bc6a8d0c54afb5415d12fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 17/62] fix: parenthesise the operands of the comparing error,
 throw and assert macros

LVARRAY_ERROR_IF_NE( a & 1, 0 ) compared a & ( 1 != 0 ).
---
 src/Macros.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Macros.hpp b/src/Macros.hpp
index da2ce11..7618cc2 100644
--- a/src/Macros.hpp
+++ b/src/Macros.hpp
@@ -242,11 +242,11 @@
  * @param msg The message to diplay.
  */
 #define LVARRAY_ERROR_IF_OP_MSG( lhs, OP, NOP, rhs, msg ) \
-  LVARRAY_ERROR_IF( lhs OP rhs, \
+  LVARRAY_ERROR_IF( ( lhs ) OP ( rhs ), \
                     msg << "\n" << \
                     "Expected " << #lhs << " " << #NOP << " " << #rhs << "\n" << \
-                    "  " << #lhs << " = " << lhs << "\n" << \
-                    "  " << #rhs << " = " << rhs << "\n" )
+                    "  " << #lhs << " = " << ( lhs ) << "\n" << \
+                    "  " << #rhs << " = " << ( rhs ) << "\n" )
 
 /**
  * @brief Throw an exception if @p lhs @p OP @p rhs.
@@ -258,11 +258,11 @@
  * @param TYPE the type of exception to throw.
  */
 #define LVARRAY_THROW_IF_OP_MSG( lhs, OP, NOP, rhs, msg, TYPE ) \
-  LVARRAY_THROW_IF( lhs OP rhs, \
+  LVARRAY_THROW_IF( ( lhs ) OP ( rhs ), \
                     msg << "\n" << \
                     "Expected " << #lhs << " " << #NOP << " " << #rhs << "\n" << \
-                    "  " << #lhs << " = " << lhs << "\n" << \
-                    "  " << #rhs << " = " << rhs << "\n", TYPE )
+                    "  " << #lhs << " = " << ( lhs ) << "\n" << \
+                    "  " << #rhs << " = " << ( rhs ) << "\n", TYPE )
 
 /**
  * @brief Raise a hard error if two values are equal.
@@ -464,10 +464,10 @@
  * @param msg The message to diplay.
  */
 #define LVARRAY_ASSERT_OP_MSG( lhs, OP, rhs, msg ) \
-  LVARRAY_ASSERT_MSG( lhs OP rhs, \
+  LVARRAY_ASSERT_MSG( ( lhs ) OP ( rhs ), \
                       msg << "\n" << \
-                      "  " << #lhs << " = " << lhs << "\n" << \
-                      "  " << #rhs << " = " << rhs << "\n" )
+                      "  " << #lhs << " = " << ( lhs ) << "\n" << \
+                      "  " << #rhs << " = " << ( rhs ) << "\n" )
 
 /**
  * @brief Assert that two values compare equal in debug builds.
-- 
2.43.0


From 90bea95562830178f403b36ba7676a811e2bb147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 18/62] fix: do not truncate sizes of 100000 GB and more in
 calculateSize

---
 src/system.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system.cpp b/src/system.cpp
index 019fe66..a7a417b 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -425,8 +425,8 @@ std::string calculateSize( size_t const bytes )
 
   double const units = double( bytes ) / ( 1 << shift );
 
-  char result[10];
-  std::snprintf( result, 10, "%.1f %s", units, suffix );
+  char result[ 32 ];
+  std::snprintf( result, sizeof( result ), "%.1f %s", units, suffix );
   return result;
 }
 
-- 
2.43.0


From aaa2e1cce18e90705ce63288d4746b74763d862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 19/62] fix: remember the original signal handlers, not those
 of the last setSignalHandling

After two calls resetSignalHandling restored the first call's handler.
---
 src/system.cpp | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/system.cpp b/src/system.cpp
index a7a417b..1c222c8 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -490,25 +490,25 @@ void stackTraceHandler( int const sig, bool const exit )
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 void setSignalHandling( void (* handler)( int ) )
 {
-  initialHandler[SIGHUP] = signal( SIGHUP, handler );
-  initialHandler[SIGINT] = signal( SIGINT, handler );
-  initialHandler[SIGQUIT] = signal( SIGQUIT, handler );
-  initialHandler[SIGILL] = signal( SIGILL, handler );
-  initialHandler[SIGTRAP] = signal( SIGTRAP, handler );
-  initialHandler[SIGABRT] = signal( SIGABRT, handler );
+  initialHandler.emplace( SIGHUP, signal( SIGHUP, handler ) );
+  initialHandler.emplace( SIGINT, signal( SIGINT, handler ) );
+  initialHandler.emplace( SIGQUIT, signal( SIGQUIT, handler ) );
+  initialHandler.emplace( SIGILL, signal( SIGILL, handler ) );
+  initialHandler.emplace( SIGTRAP, signal( SIGTRAP, handler ) );
+  initialHandler.emplace( SIGABRT, signal( SIGABRT, handler ) );
 #if  (defined(_POSIX_C_SOURCE) && !defined(_DARWIN_C_SOURCE))
-  initialHandler[SIGPOLL] = signal( SIGPOLL, handler );
+  initialHandler.emplace( SIGPOLL, signal( SIGPOLL, handler ) );
 #else
-  initialHandler[SIGIOT] = signal( SIGIOT, handler );
-  initialHandler[SIGEMT] = signal( SIGEMT, handler );
+  initialHandler.emplace( SIGIOT, signal( SIGIOT, handler ) );
+  initialHandler.emplace( SIGEMT, signal( SIGEMT, handler ) );
 #endif
-  initialHandler[SIGFPE] = signal( SIGFPE, handler );
-  initialHandler[SIGKILL] = signal( SIGKILL, handler );
-  initialHandler[SIGBUS] = signal( SIGBUS, handler );
-  initialHandler[SIGSEGV] = signal( SIGSEGV, handler );
-  initialHandler[SIGSYS] = signal( SIGSYS, handler );
-  initialHandler[SIGPIPE] = signal( SIGPIPE, handler );
-  initialHandler[SIGTERM] = signal( SIGTERM, handler );
+  initialHandler.emplace( SIGFPE, signal( SIGFPE, handler ) );
+  initialHandler.emplace( SIGKILL, signal( SIGKILL, handler ) );
+  initialHandler.emplace( SIGBUS, signal( SIGBUS, handler ) );
+  initialHandler.emplace( SIGSEGV, signal( SIGSEGV, handler ) );
+  initialHandler.emplace( SIGSYS, signal( SIGSYS, handler ) );
+  initialHandler.emplace( SIGPIPE, signal( SIGPIPE, handler ) );
+  initialHandler.emplace( SIGTERM, signal( SIGTERM, handler ) );
 
   return;
 }
@@ -520,6 +520,8 @@ void resetSignalHandling()
   {
     signal( a.first, a.second );
   }
+
+  initialHandler.clear();
 }
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 967dcc93b92fb0b2e3dbd9e8343b96b66e000c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 20/62] fix: return the value, not the type trait, from
 getFirst and getSecond

The generic versions returned the struct SingleType< T >, to which nothing converts, so that
any use of them with a type other than __half2 failed to compile.
---
 src/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.hpp b/src/math.hpp
index f832e0f..b197055 100644
--- a/src/math.hpp
+++ b/src/math.hpp
@@ -77,7 +77,7 @@ struct SingleType
  */
 template< typename T >
 LVARRAY_HOST_DEVICE inline constexpr
-SingleType< T > getFirst( T const x )
+typename SingleType< T >::type getFirst( T const x )
 { return x; }
 
 /**
@@ -87,7 +87,7 @@ SingleType< T > getFirst( T const x )
  */
 template< typename T >
 LVARRAY_HOST_DEVICE inline constexpr
-SingleType< T > getSecond( T const x )
+typename SingleType< T >::type getSecond( T const x )
 { return x; }
 
 /**
-- 
2.43.0


From c2e0e959cdd2144ba19c2b8d3d1b834f363d89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 21/62] fix: restore exactly the previous exceptions when a
 FloatingPointExceptionGuard is destroyed

The guard promises to revert the floating point environment, but exceptions that were enabled
while it was alive stayed enabled.
---
 src/system.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/system.hpp b/src/system.hpp
index 59a7752..b8c0809 100644
--- a/src/system.hpp
+++ b/src/system.hpp
@@ -136,7 +136,11 @@ public:
    * @brief Re-enable the floating point exceptions that were active on construction.
    */
   ~FloatingPointExceptionGuard()
-  { enableFloatingPointExceptions( m_previousExceptions ); }
+  {
+    // Exceptions that were enabled during the lifetime of the guard have to be disabled again.
+    disableFloatingPointExceptions( ~m_previousExceptions );
+    enableFloatingPointExceptions( m_previousExceptions );
+  }
 
 private:
   /// The floating point exceptions that were active on construction.
-- 
2.43.0


From e197c852f423aa9204f03f31dcc73f8958f0d5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 22/62] fix: return the eigenvalues of 3x3 matrices in
 ascending order

Rounding could swap (nearly) repeated eigenvalues, they are documented to be sorted.
---
 src/fixedSizeSquareMatrixOpsImpl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fixedSizeSquareMatrixOpsImpl.hpp b/src/fixedSizeSquareMatrixOpsImpl.hpp
index f006d86..12df184 100644
--- a/src/fixedSizeSquareMatrixOpsImpl.hpp
+++ b/src/fixedSizeSquareMatrixOpsImpl.hpp
@@ -1214,6 +1214,9 @@ private:
     eigenvalues[ 0 ] = -p * ( cosTheta + squareRootThree * sinTheta ); // == 2 * p * cos( theta + 2pi/3 )
     eigenvalues[ 1 ] = -p * ( cosTheta - squareRootThree * sinTheta ); // == 2 * p * cos( theta +  pi/3 )
     eigenvalues[ 2 ] = 2 * p * cosTheta;
+
+    // However floating point error may swap (nearly) repeated roots.
+    eigenvalues[ 1 ] = math::min( math::max( eigenvalues[ 1 ], eigenvalues[ 0 ] ), eigenvalues[ 2 ] );
   }
 
   /**
-- 
2.43.0


From ce16dbb2073ff2687bd0b51eb98afb7689ab4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 23/62] fix: don't divide by zero when calculating the
 eigenvalues of a 3x3 matrix

For a matrix very close to a multiple of the identity p * p * p underflows,
the eigenvalues and eigenvectors were NaN.
---
 src/fixedSizeSquareMatrixOpsImpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fixedSizeSquareMatrixOpsImpl.hpp b/src/fixedSizeSquareMatrixOpsImpl.hpp
index 12df184..449a12f 100644
--- a/src/fixedSizeSquareMatrixOpsImpl.hpp
+++ b/src/fixedSizeSquareMatrixOpsImpl.hpp
@@ -1200,7 +1200,9 @@ private:
 
     FloatingPoint const p = math::sqrt( oneSixthTraceASquared );
 
-    FloatingPoint const det = ( p > 0 ) ? symDeterminant( matrix ) / ( p * p * p ) : 0;
+    // p can be positive and small enough that its cube isn't.
+    FloatingPoint const pCubed = p * p * p;
+    FloatingPoint const det = ( pCubed > 0 ) ? symDeterminant( matrix ) / pCubed : 0;
 
     // det should be in [-2, 2] but it may be slightly outside do to floating point error.
     FloatingPoint const halfDetB = det > 2 ? 1 : ( det < -2 ? -1 : det / 2 );
-- 
2.43.0


From 277c5588a747e67b7ceafc9d279ec8819bef51dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 24/62] fix: don't overflow when scaling a matrix of denormal
 numbers

The reciprocal of the largest entry after the shift could be infinite, the eigenvalues
of an otherwise ordinary 3x3 matrix were NaN.
---
 src/fixedSizeSquareMatrixOpsImpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fixedSizeSquareMatrixOpsImpl.hpp b/src/fixedSizeSquareMatrixOpsImpl.hpp
index 449a12f..b09aa5b 100644
--- a/src/fixedSizeSquareMatrixOpsImpl.hpp
+++ b/src/fixedSizeSquareMatrixOpsImpl.hpp
@@ -49,7 +49,9 @@ static void shiftAndScale( FloatingPoint (& matrix)[ ( M * ( M + 1 ) ) / 2 ],
   maxEntryAfterShift = maxAbsoluteEntry< SYM_SIZE< M > >( matrix );
   if( maxEntryAfterShift > 0 )
   {
-    scale< SYM_SIZE< M > >( matrix, 1 / maxEntryAfterShift );
+    // Divide instead of scaling by the reciprocal, which for a denormal number can be infinite.
+    for( std::ptrdiff_t i = 0; i < SYM_SIZE< M >; ++i )
+    { matrix[ i ] /= maxEntryAfterShift; }
   }
 
   // A second shift is necessary because of floating point round off and because the eigenvalue
-- 
2.43.0


From 932662eb2caf6086184c38d0c0867de82221a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 25/62] fix: reject text nested deeper than the array it is
 read into

stringToArray only counted the leading braces, deeper ones indexed past the ends of
dims, currentDims and dimSet.
---
 src/input.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input.hpp b/src/input.hpp
index fde15d5..6db411a 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -230,6 +230,10 @@ static void stringToArray( Array< T, NDIM, PERMUTATION, INDEX_TYPE, BUFFER_TYPE
     if( c=='{' )
     {
       ++dimLevel;
+      LVARRAY_ERROR_IF( dimLevel >= NDIM,
+                        "In parsing the input string, the braces are nested deeper than the "<<NDIM<<
+                        " dimensions of the array. The values that have been parsed prior to the error are:\n"<<
+                        valueString.substr( 0, charCount+1 ) );
     }
     else if( c=='}' )
     {
-- 
2.43.0


From 55a8b6bacca93d65600e0339102cee9d93d192c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 26/62] fix: reject a trailing comma in array text

{ 1-2, } was read as the two values 1 and -2, in other cases the error was misleading.
---
 src/input.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/input.hpp b/src/input.hpp
index 6db411a..74674a5 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -237,6 +237,9 @@ static void stringToArray( Array< T, NDIM, PERMUTATION, INDEX_TYPE, BUFFER_TYPE
     }
     else if( c=='}' )
     {
+      LVARRAY_ERROR_IF( lastChar==',',
+                        "character of '}' follows ','. Comma must be followed by an array value." );
+
       // } means that we are closing a dimension. That means we know the size of this dimLevel
       dimSet[dimLevel] = true;
       LVARRAY_ERROR_IF( dims[dimLevel]!=currentDims[dimLevel],
-- 
2.43.0


From e9d524cc7368605f307bc0f8e1236d4055265b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 27/62] fix: report invalid values in array text

After a failed extraction tellg returns -1, so an std::out_of_range exception was thrown instead
of the error being reported.
---
 src/input.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/input.hpp b/src/input.hpp
index 74674a5..dc7ac51 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -60,11 +60,13 @@ struct StringToArrayHelper
                     INDEX_TYPE const *,
                     std::istringstream & inputStream )
   {
+    // The position has to be queried first, tellg returns -1 once the extraction has failed.
+    std::streamoff const position = inputStream.tellg();
     inputStream >> arrayValue;
 
     LVARRAY_ERROR_IF( inputStream.fail(),
                       "Invalid value of type " << typeid(T).name() << " in: " <<
-                      ( inputStream.eof()  ?  "" : inputStream.str().substr( inputStream.tellg() ) ) );
+                      ( position < 0  ?  "" : inputStream.str().substr( position ) ) );
   }
 
   /**
-- 
2.43.0


From 6f93f5beef9dd807e749c4b034ce98aa6f4e839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 28/62] fix: empty slices are contiguous

For some empty arrays, such as one of extents (0, 2, 3), isContiguous returned false and
dataIfContiguous, begin, end and memcpy reported an error.
---
 src/ArraySlice.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index b4e2234..b56d968 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -217,6 +217,7 @@ public:
   {
     if( USD < 0 ) return false;
     if( NDIM == 1 && USD == 0 ) return true;
+    if( size() == 0 ) return true;
 
     bool rval = true;
     for( int i = 0; i < NDIM; ++i )
-- 
2.43.0


From 373da1df0bf4e655a08fefaf823bcee9fd5b06e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 29/62] fix: don't pass null pointers to memcpy when copying
 empty arrays

---
 src/umpireInterface.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/umpireInterface.cpp b/src/umpireInterface.cpp
index 9219564..12074ae 100644
--- a/src/umpireInterface.cpp
+++ b/src/umpireInterface.cpp
@@ -34,7 +34,9 @@ void copy( void * const dstPointer, void * const srcPointer, std::size_t const s
   }
 #endif
 
-  std::memcpy( dstPointer, srcPointer, size );
+  // The pointers of empty arrays may be null.
+  if( size > 0 )
+  { std::memcpy( dstPointer, srcPointer, size ); }
 }
 
 camp::resources::Event copy( void * const dstPointer, void * const srcPointer,
@@ -58,7 +60,10 @@ camp::resources::Event copy( void * const dstPointer, void * const srcPointer,
   }
 #endif
 
-  std::memcpy( dstPointer, srcPointer, size );
+  // The pointers of empty arrays may be null.
+  if( size > 0 )
+  { std::memcpy( dstPointer, srcPointer, size ); }
+
   return resource.get_event();
 }
 
-- 
2.43.0


From bdc02db233d0a796c17fa0ed685decf274ce03bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:46 +0000
Subject: [PATCH 30/62] fix: report negative dimensions passed to
 ArraySlice::size and stride

---
 src/ArraySlice.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index b56d968..6421feb 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -190,6 +190,7 @@ public:
   INDEX_TYPE size( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
+    LVARRAY_ERROR_IF_LT( dim, 0 );
     LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_dims[ dim ];
@@ -203,6 +204,7 @@ public:
   INDEX_TYPE stride( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
+    LVARRAY_ERROR_IF_LT( dim, 0 );
     LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_strides[ dim ];
-- 
2.43.0


From e04e598097de2327f014c88c0d571d3ff184aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:46 +0000
Subject: [PATCH 31/62] fix: don't read the size of an inner array that does
 not exist while reporting it

---
 src/ArrayOfArraysView.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index c9acbef..3545d4f 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -43,8 +43,8 @@
  * @note This is only active when LVARRAY_BOUNDS_CHECK is defined.
  */
 #define ARRAYOFARRAYS_CHECK_BOUNDS2( i, j ) \
-  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( i ) || i >= this->size() || \
-                    !arrayManipulation::isPositive( j ) || j >= this->m_sizes[ i ], \
+  ARRAYOFARRAYS_CHECK_BOUNDS( i ); \
+  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( j ) || j >= this->m_sizes[ i ], \
                     "Bounds Check Failed: i=" << i << " size()=" << this->size() << \
                     " j=" << j << " m_sizes[ i ]=" << this->m_sizes[ i ] )
 
@@ -64,8 +64,8 @@
  * @note This is only active when LVARRAY_BOUNDS_CHECK is defined.
  */
 #define ARRAYOFARRAYS_CHECK_INSERT_BOUNDS2( i, j ) \
-  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( i ) || i >= this->size() || \
-                    !arrayManipulation::isPositive( j ) || j > this->sizeOfArray( i ), \
+  ARRAYOFARRAYS_CHECK_BOUNDS( i ); \
+  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( j ) || j > this->sizeOfArray( i ), \
                     "Insert Bounds Check Failed: i=" << i << " size()=" << this->size() << \
                     " j=" << j << " sizeOfArray( i )=" << this->sizeOfArray( i ) )
 
-- 
2.43.0


From a1d94f8e6dc445aad47ef18ba2a9d3a639e647ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:26 +0000
Subject: [PATCH 32/62] fix: don't read past the end of a row while asserting
 that a column exists in it

---
 src/CRSMatrixView.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index d7c7337..4d71f55 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -509,6 +509,7 @@ public:
           break;
         }
       }
+      LVARRAY_ASSERT_GT( nnz, curPos );
       LVARRAY_ASSERT_EQ( columns[ curPos ], cols[ i ] );
       internal::atomicAdd( AtomicPolicy{}, entries + curPos, vals[ i ] );
       ++curPos;
-- 
2.43.0


From 27f4a19c30d9afcc6c5fbbba5b101af6d8bf2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:26 +0000
Subject: [PATCH 33/62] fix: report invalid dimensions passed to
 ArrayView::size in all bounds checked builds

---
 src/ArrayView.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index cbbf669..34b7c32 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -416,8 +416,8 @@ public:
   INDEX_TYPE size( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
-    LVARRAY_ASSERT_GE( dim, 0 );
-    LVARRAY_ASSERT_GT( NDIM, dim );
+    LVARRAY_ERROR_IF_LT( dim, 0 );
+    LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_dims[ dim ];
   }
-- 
2.43.0


From aa365b64619d3fce895b6ff58f4e49e1eff8c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 34/62] fix: ChaiBuffer::setName dereferenced the missing
 record of a moved from buffer

---
 src/ChaiBuffer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 4847cb4..3e6237a 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -448,6 +448,9 @@ public:
   template< typename U=ChaiBuffer< T > >
   void setName( std::string const & name )
   {
+    // A buffer that has been moved from has no record.
+    if( m_pointerRecord == nullptr ) return;
+
     std::string const typeString = system::demangleType< U >();
     m_pointerRecord->m_user_callback =
       [name, typeString]( chai::PointerRecord const * const record, chai::Action const act, chai::ExecutionSpace const s )
-- 
2.43.0


From 7440039a46a73c885145627c16505c8151cab327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 35/62] fix: writes to nested arrays lost when the outer buffer
 didn't move

When the outer buffer was already in the space it is captured in the inner buffers
weren't touched there, so what a kernel wrote was never copied back. The inner objects
are now always moved, through the host allocation.
---
 src/ChaiBuffer.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 3e6237a..141488e 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -381,13 +381,13 @@ public:
         m_capacity == 0 ||
         chaiSpace == chai::NONE ) return;
 
-    chai::ExecutionSpace const prevSpace = m_pointerRecord->m_last_space;
-
-    if( prevSpace == chai::CPU && prevSpace != chaiSpace ) moveInnerData( space, size, touch );
+    // The sub objects are moved through the host allocation, even if this buffer is already in the
+    // given space since they may still need to be touched there.
+    if( chaiSpace == chai::GPU ) moveInnerData( space, size, touch );
 
     move( space, touch );
 
-    if( prevSpace == chai::GPU && prevSpace != chaiSpace ) moveInnerData( space, size, touch );
+    if( chaiSpace == chai::CPU ) moveInnerData( space, size, touch );
   #else
     LVARRAY_ERROR_IF_NE( space, MemorySpace::host );
     LVARRAY_UNUSED_VARIABLE( size );
@@ -480,11 +480,12 @@ private:
   std::enable_if_t< bufferManipulation::HasMemberFunction_move< U > >
   moveInnerData( MemorySpace const space, std::ptrdiff_t const size, bool const touch ) const
   {
-    if( space == MemorySpace::undefined ) return;
+    T_non_const * const hostPointer = static_cast< T_non_const * >( m_pointerRecord->m_pointers[ chai::CPU ] );
+    if( space == MemorySpace::undefined || hostPointer == nullptr ) return;
 
     for( std::ptrdiff_t i = 0; i < size; ++i )
     {
-      const_cast< T_non_const * >( m_pointer )[ i ].move( space, touch );
+      hostPointer[ i ].move( space, touch );
     }
   }
 
-- 
2.43.0


From daab61cdce9e50b790bf6e0fbc2b79e92a567762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 36/62] fix: copying nothing with Umpire copied the whole
 source

---
 src/umpireInterface.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/umpireInterface.cpp b/src/umpireInterface.cpp
index 12074ae..a8b6ce7 100644
--- a/src/umpireInterface.cpp
+++ b/src/umpireInterface.cpp
@@ -25,6 +25,9 @@ namespace umpireInterface
 
 void copy( void * const dstPointer, void * const srcPointer, std::size_t const size )
 {
+  // The pointers of empty arrays may be null and to Umpire a size of zero means the whole source.
+  if( size == 0 ) return;
+
 #if defined( LVARRAY_USE_UMPIRE )
   umpire::ResourceManager & rm = umpire::ResourceManager::getInstance();
   if( rm.hasAllocator( dstPointer ) && rm.hasAllocator( srcPointer ) )
@@ -34,14 +37,15 @@ void copy( void * const dstPointer, void * const srcPointer, std::size_t const s
   }
 #endif
 
-  // The pointers of empty arrays may be null.
-  if( size > 0 )
-  { std::memcpy( dstPointer, srcPointer, size ); }
+  std::memcpy( dstPointer, srcPointer, size );
 }
 
 camp::resources::Event copy( void * const dstPointer, void * const srcPointer,
                              camp::resources::Resource & resource, std::size_t const size )
 {
+  // The pointers of empty arrays may be null and to Umpire a size of zero means the whole source.
+  if( size == 0 ) return resource.get_event();
+
 #if defined( LVARRAY_USE_UMPIRE )
   umpire::ResourceManager & rm = umpire::ResourceManager::getInstance();
 
@@ -60,9 +64,7 @@ camp::resources::Event copy( void * const dstPointer, void * const srcPointer,
   }
 #endif
 
-  // The pointers of empty arrays may be null.
-  if( size > 0 )
-  { std::memcpy( dstPointer, srcPointer, size ); }
+  std::memcpy( dstPointer, srcPointer, size );
 
   return resource.get_event();
 }
-- 
2.43.0


From 473120742b612bf593fc2b48cecad1b3cf92bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 37/62] fix: the memory of Python wrapper objects was never
 freed

The tp_dealloc slots released what the wrappers hold but not the wrappers.
---
 src/python/PyArray.cpp         | 6 +++++-
 src/python/PyArrayOfArrays.cpp | 6 +++++-
 src/python/PyArrayOfSets.cpp   | 6 +++++-
 src/python/PyCRSMatrix.cpp     | 6 +++++-
 src/python/PySortedArray.cpp   | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 8e36b51..86980d8 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -69,7 +69,11 @@ struct PyArray
  * @param self The PyArray to destroy.
  */
 static void PyArray_dealloc( PyArray * const self )
-{ delete self->array; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->array;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 /**
  * @brief The Python __repr__ method for PyArray.
diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index d4dcd7c..e6b4778 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -68,7 +68,11 @@ struct PyArrayOfArrays
 };
 
 static void PyArrayOfArrays_dealloc( PyArrayOfArrays * const self )
-{ delete self->arrayOfArrays; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->arrayOfArrays;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyArrayOfArrays_repr( PyObject * const obj )
 {
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 33192fd..a93a874 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -68,7 +68,11 @@ struct PyArrayOfSets
 };
 
 static void PyArrayOfSets_dealloc( PyArrayOfSets * const self )
-{ delete self->arrayOfSets; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->arrayOfSets;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyArrayOfSets_repr( PyObject * const obj )
 {
diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 9b81a4b..bcebe8c 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -64,7 +64,11 @@ struct PyCRSMatrix
 };
 
 static void PyCRSMatrix_dealloc( PyCRSMatrix * const self )
-{ delete self->matrix; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->matrix;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyCRSMatrix_repr( PyObject * const obj )
 {
diff --git a/src/python/PySortedArray.cpp b/src/python/PySortedArray.cpp
index 669ba1e..b23e2b1 100644
--- a/src/python/PySortedArray.cpp
+++ b/src/python/PySortedArray.cpp
@@ -64,7 +64,11 @@ struct PySortedArray
 
 
 static void PySortedArray_dealloc( PySortedArray * const self )
-{ delete self->sortedArray; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->sortedArray;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 
 static PyObject * PySortedArray_repr( PyObject * const obj )
-- 
2.43.0


From 91c2555ca2e6b94634419344cabb4e1b5f52633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 38/62] fix: assigning to a PyObjectRef leaked the object it
 referred to

---
 src/python/pythonHelpers.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/pythonHelpers.hpp b/src/python/pythonHelpers.hpp
index 3a5c976..b84f107 100644
--- a/src/python/pythonHelpers.hpp
+++ b/src/python/pythonHelpers.hpp
@@ -189,8 +189,9 @@ public:
    */
   PyObjectRef & operator=( PyObjectRef const & src )
   {
-    m_object = src.m_object;
     internal::xincref( reinterpret_cast< PyObject * >( src.m_object ) );
+    internal::xdecref( reinterpret_cast< PyObject * >( m_object ) );
+    m_object = src.m_object;
     return *this;
   }
 
@@ -202,8 +203,9 @@ public:
    */
   PyObjectRef & operator=( PyObjectRef && src )
   {
-    m_object = src.m_object;
-    src.m_object = nullptr;
+    T * const object = src.release();
+    internal::xdecref( reinterpret_cast< PyObject * >( m_object ) );
+    m_object = object;
     return *this;
   }
 
-- 
2.43.0


From 86fca86a390f9240619b793a81f256d84188313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 39/62] fix: adding pylvarray to a module released the module's
 reference

PyModule_AddObject steals the reference that addPyLvArrayModule then released a second time.
---
 src/python/python.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/python.cpp b/src/python/python.cpp
index 341bab1..179ca60 100644
--- a/src/python/python.cpp
+++ b/src/python/python.cpp
@@ -146,11 +146,14 @@ PyObjectRef<> getModule()
 bool addPyLvArrayModule( PyObject * module )
 {
   LvArray::python::PyObjectRef<> pylvarrayModule { PyImport_ImportModule( "pylvarray" ) };
-  if( PyModule_AddObject( module, "pylvarray", pylvarrayModule ) < 0 )
+  if( pylvarrayModule == nullptr || PyModule_AddObject( module, "pylvarray", pylvarrayModule ) < 0 )
   {
     return false;
   }
 
+  // PyModule_AddObject stole the reference.
+  pylvarrayModule.release();
+
   return true;
 }
 
-- 
2.43.0


From 61acd0cf3732b270f8d602e52c96e3c489cbc997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 40/62] fix: to_scipy leaked its NumPy arrays and crashed
 without SciPy

---
 src/python/PyCRSMatrix.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index bcebe8c..6e03e2f 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -170,6 +170,9 @@ static PyObject * PyCRSMatrix_toSciPy( PyCRSMatrix * const self, PyObject * cons
                    "Empty matrices cannot be exported to SciPy", nullptr );
 
   std::array< PyObject *, 3 > const triple = self->matrix->getEntriesColumnsAndOffsets();
+  PyObjectRef<> const entries{ triple[ 0 ] };
+  PyObjectRef<> const columns{ triple[ 1 ] };
+  PyObjectRef<> const offsets{ triple[ 2 ] };
 
   PYTHON_ERROR_IF( triple[ 0 ] == nullptr, PyExc_RuntimeError,
                    "Error constructing the entries NumPy array", nullptr );
@@ -181,7 +184,16 @@ static PyObject * PyCRSMatrix_toSciPy( PyCRSMatrix * const self, PyObject * cons
                    "Error constructing the offsets NumPy array", nullptr );
 
   PyObjectRef<> sciPySparse = PyImport_ImportModule( "scipy.sparse" );
+  if( sciPySparse == nullptr )
+  {
+    return nullptr;
+  }
+
   PyObjectRef<> constructor = PyObject_GetAttrString( sciPySparse, "csr_matrix" );
+  if( constructor == nullptr )
+  {
+    return nullptr;
+  }
 
   return PyObject_CallFunction( constructor,
                                 "(OOO)(ll)",
-- 
2.43.0


From 0cc4924004f569ed40d802093ea1b6b6f9caee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 41/62] fix: CRSMatrix bindings went on with an exception set

When the columns could not be converted the entries were converted all the same.
---
 src/python/PyCRSMatrix.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 6e03e2f..abf1956 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -263,10 +263,15 @@ static PyObject * PyCRSMatrix_insertNonZeros( PyCRSMatrix * const self, PyObject
   std::tuple< PyObjectRef< PyObject >, void const *, long long > colsInfo =
     parseNumPyArray( cols, self->matrix->columnType() );
 
+  if( std::get< 0 >( colsInfo ) == nullptr )
+  {
+    return nullptr;
+  }
+
   std::tuple< PyObjectRef< PyObject >, void const *, long long > entriesInfo =
     parseNumPyArray( entries, self->matrix->entryType() );
 
-  if( std::get< 0 >( colsInfo ) == nullptr ||  std::get< 0 >( entriesInfo ) == nullptr )
+  if( std::get< 0 >( entriesInfo ) == nullptr )
   {
     return nullptr;
   }
@@ -342,10 +347,15 @@ static PyObject * PyCRSMatrix_addToRow( PyCRSMatrix * const self, PyObject * con
   std::tuple< PyObjectRef< PyObject >, void const *, long long > colsInfo =
     parseNumPyArray( cols, self->matrix->columnType() );
 
+  if( std::get< 0 >( colsInfo ) == nullptr )
+  {
+    return nullptr;
+  }
+
   std::tuple< PyObjectRef< PyObject >, void const *, long long > valsInfo =
     parseNumPyArray( vals, self->matrix->entryType() );
 
-  if( std::get< 0 >( colsInfo ) == nullptr ||  std::get< 0 >( valsInfo ) == nullptr )
+  if( std::get< 0 >( valsInfo ) == nullptr )
   {
     return nullptr;
   }
-- 
2.43.0


From 00d44375f7ab254946cc5de8f6419b5b9498c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 42/62] fix: add_to_row read past its columns when given more
 values than columns

---
 src/python/PyCRSMatrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index abf1956..21d220f 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -360,6 +360,9 @@ static PyObject * PyCRSMatrix_addToRow( PyCRSMatrix * const self, PyObject * con
     return nullptr;
   }
 
+  PYTHON_ERROR_IF( std::get< 2 >( colsInfo ) != std::get< 2 >( valsInfo ), PyExc_RuntimeError,
+                   "Number of columns and values must match!", nullptr );
+
   long long const numRows = self->matrix->numRows();
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
-- 
2.43.0


From 85c6652158556b13780f2703b06ab9a4e1436853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 43/62] fix: modifying an uninitialized ArrayOfArrays or
 ArrayOfSets crashed Python

---
 src/python/PyArrayOfArrays.cpp | 4 ++++
 src/python/PyArrayOfSets.cpp   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index e6b4778..48b39c4 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -111,6 +111,7 @@ static PyObject * PyArrayOfArrays_getitem( PyArrayOfArrays * const self, Py_ssiz
 
 static int PyArrayOfArrays_delitem( PyArrayOfArrays * const self, Py_ssize_t pyindex, PyObject * val )
 {
+  PYTHON_ERROR_IF( self->arrayOfArrays == nullptr, PyExc_RuntimeError, "The PyArrayOfArrays is not initialized.", -1 );
   if( self->arrayOfArrays->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::RESIZEABLE ) )
   {
     PyErr_SetString( PyExc_RuntimeError, "ArrayOfArrays is not resizeable" );
@@ -157,6 +158,7 @@ static constexpr char const * PyArrayOfArrays_insertIntoDocString =
   "as the underlying instance, raising an exception if the conversion cannot be made safely.";
 static PyObject * PyArrayOfArrays_insertIntoArray( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long array, index;
   PyObject * arr;
@@ -188,6 +190,7 @@ static constexpr char const * PyArrayOfArrays_insertDocString =
   "as the underlying instance, raising an exception if the conversion cannot be made safely.";
 static PyObject * PyArrayOfArrays_insert( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   PyObject * arr;
@@ -216,6 +219,7 @@ static constexpr char const * PyArrayOfArrays_eraseFromDocString =
   "Remove the value at ``index`` in the subarray ``array``.";
 static PyObject * PyArrayOfArrays_eraseFrom( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index, begin;
   if( !PyArg_ParseTuple( args, "LL", &index, &begin ) )
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index a93a874..3500059 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -111,6 +111,7 @@ static PyObject * PyArrayOfSets_getitem( PyArrayOfSets * const self, Py_ssize_t
 
 static int PyArrayOfSets_delitem( PyArrayOfSets * const self, Py_ssize_t pyindex, PyObject * val )
 {
+  PYTHON_ERROR_IF( self->arrayOfSets == nullptr, PyExc_RuntimeError, "The PyArrayOfSets is not initialized.", -1 );
   if( self->arrayOfSets->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::RESIZEABLE ) )
   {
     PyErr_SetString( PyExc_RuntimeError, "ArrayOfSets is not resizeable" );
@@ -159,6 +160,7 @@ static constexpr char const * PyArrayOfSets_insertIntoDocString =
   "    The number of values inserted into the set.";
 static PyObject * PyArrayOfSets_insertIntoSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long setIndex;
   PyObject * arr;
@@ -192,6 +194,7 @@ static constexpr char const * PyArrayOfSets_insertSetDocString =
   "Insert a new set with a starting capacity";
 static PyObject * PyArrayOfSets_insertSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   long long capacity = 0;
@@ -223,6 +226,7 @@ static constexpr char const * PyArrayOfSets_removeFromSetDocString =
   "    The number of values removed from the set.";
 static PyObject * PyArrayOfSets_removeFromSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   PyObject * arr;
-- 
2.43.0


From d3d9b2aad93218b80753b59cf25ba5fb6c3daee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 44/62] fix: resize_all aborted Python when given a negative
 dimension

---
 src/python/PyArray.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 86980d8..3e9b46b 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -182,7 +182,13 @@ static PyObject * PyArray_resizeAll( PyArray * const self, PyObject * const args
   PYTHON_ERROR_IF( std::get< 2 >( ret ) != self->array->ndim(), PyExc_RuntimeError,
                    "Invalid number of dimensions, should be " << self->array->ndim(), nullptr );
 
-  self->array->resize( reinterpret_cast< long long const * >( std::get< 1 >( ret ) ) );
+  long long const * const newDims = reinterpret_cast< long long const * >( std::get< 1 >( ret ) );
+  for( int i = 0; i < self->array->ndim(); ++i )
+  {
+    PYTHON_ERROR_IF( newDims[ i ] < 0, PyExc_ValueError, "Dimensions must be positive.", nullptr );
+  }
+
+  self->array->resize( newDims );
 
   Py_RETURN_NONE;
 }
-- 
2.43.0


From 72b517cf94cf9935413fe18e68483c371a427bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 45/62] fix: erase_from of ArrayOfSets returned a value with an
 exception set

---
 src/python/PyArrayOfSets.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 3500059..b4aba78 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -244,6 +244,11 @@ static PyObject * PyArrayOfSets_removeFromSet( PyArrayOfSets * self, PyObject *
   std::tuple< PyObjectRef< PyObject >, void const *, long long > ret =
     parseNumPyArray( arr, self->arrayOfSets->valueType() );
 
+  if( std::get< 0 >( ret ) == nullptr )
+  {
+    return nullptr;
+  }
+
   return PyLong_FromLongLong( self->arrayOfSets->removeFromSet( index,
                                                                 std::get< 1 >( ret ),
                                                                 std::get< 2 >( ret ) ) );
-- 
2.43.0


From 8eba3365844c32d3f16b1e42f5de135d3981c99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 46/62] fix: values passed from Python in any order corrupted
 the sorted containers

The bindings handed them to the batch insertions and removals of SortedArray, ArrayOfSets and
CRSMatrix, which need them sorted and unique.
---
 src/python/PyArrayOfSets.hpp | 16 ++++++++++++++--
 src/python/PyCRSMatrix.hpp   | 16 ++++++++++++++--
 src/python/PySortedArray.hpp | 16 ++++++++++++++--
 3 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/python/PyArrayOfSets.hpp b/src/python/PyArrayOfSets.hpp
index 93f77cb..d21a0cc 100644
--- a/src/python/PyArrayOfSets.hpp
+++ b/src/python/PyArrayOfSets.hpp
@@ -227,7 +227,13 @@ public:
     INDEX_TYPE convertedIndex = integerConversion< INDEX_TYPE >( setIndex );
     T const * begin = static_cast< T const * >( values );
     T const * end = begin + numVals;
-    return integerConversion< long long >( m_arrayOfSets.removeFromSet( convertedIndex, begin, end ) );
+    if( sortedArrayManipulation::isSortedUnique( begin, end ) )
+    { return integerConversion< long long >( m_arrayOfSets.removeFromSet( convertedIndex, begin, end ) ); }
+
+    long long count = 0;
+    for( long long i = 0; i < numVals; ++i )
+    { count += m_arrayOfSets.removeFromSet( convertedIndex, begin[ i ] ); }
+    return count;
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -238,7 +244,13 @@ public:
     INDEX_TYPE convertedSetIndex = integerConversion< INDEX_TYPE >( setIndex );
     T const * begin = static_cast< T const * >( values );
     T const * end = begin + numVals;
-    return integerConversion< long long >( m_arrayOfSets.insertIntoSet( convertedSetIndex, begin, end ) );
+    if( sortedArrayManipulation::isSortedUnique( begin, end ) )
+    { return integerConversion< long long >( m_arrayOfSets.insertIntoSet( convertedSetIndex, begin, end ) ); }
+
+    long long count = 0;
+    for( long long i = 0; i < numVals; ++i )
+    { count += m_arrayOfSets.insertIntoSet( convertedSetIndex, begin[ i ] ); }
+    return count;
   }
 
 private:
diff --git a/src/python/PyCRSMatrix.hpp b/src/python/PyCRSMatrix.hpp
index b7659e3..3c406b8 100644
--- a/src/python/PyCRSMatrix.hpp
+++ b/src/python/PyCRSMatrix.hpp
@@ -345,7 +345,13 @@ public:
     COL_TYPE const * const castedCols = reinterpret_cast< COL_TYPE const * >( cols );
     T const * const castedEntries = reinterpret_cast< T const * >( entries );
     INDEX_TYPE const convertedNumCols = integerConversion< INDEX_TYPE >( numCols );
-    return integerConversion< long long >( m_matrix.insertNonZeros( convertedRow, castedCols, castedEntries, convertedNumCols ) );
+    if( sortedArrayManipulation::isSortedUnique( castedCols, castedCols + numCols ) )
+    { return integerConversion< long long >( m_matrix.insertNonZeros( convertedRow, castedCols, castedEntries, convertedNumCols ) ); }
+
+    long long count = 0;
+    for( long long i = 0; i < numCols; ++i )
+    { count += m_matrix.insertNonZero( convertedRow, castedCols[ i ], castedEntries[ i ] ); }
+    return count;
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -356,7 +362,13 @@ public:
     INDEX_TYPE const convertedRow = integerConversion< INDEX_TYPE >( row );
     COL_TYPE const * const castedCols = reinterpret_cast< COL_TYPE const * >( cols );
     INDEX_TYPE const convertedNumCols = integerConversion< INDEX_TYPE >( numCols );
-    return integerConversion< long long >( m_matrix.removeNonZeros( convertedRow, castedCols, convertedNumCols ) );
+    if( sortedArrayManipulation::isSortedUnique( castedCols, castedCols + numCols ) )
+    { return integerConversion< long long >( m_matrix.removeNonZeros( convertedRow, castedCols, convertedNumCols ) ); }
+
+    long long count = 0;
+    for( long long i = 0; i < numCols; ++i )
+    { count += m_matrix.removeNonZero( convertedRow, castedCols[ i ] ); }
+    return count;
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
diff --git a/src/python/PySortedArray.hpp b/src/python/PySortedArray.hpp
index 8b0c9a5..1f2f034 100644
--- a/src/python/PySortedArray.hpp
+++ b/src/python/PySortedArray.hpp
@@ -169,14 +169,26 @@ public:
   virtual long long insert( void const * const values, long long const nVals ) final override
   {
     T const * const castedValues = reinterpret_cast< T const * >( values );
-    return integerConversion< long long >( m_sortedArray.insert( castedValues, castedValues + nVals ) );
+    if( sortedArrayManipulation::isSortedUnique( castedValues, castedValues + nVals ) )
+    { return integerConversion< long long >( m_sortedArray.insert( castedValues, castedValues + nVals ) ); }
+
+    long long count = 0;
+    for( long long i = 0; i < nVals; ++i )
+    { count += m_sortedArray.insert( castedValues[ i ] ); }
+    return count;
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
   virtual long long remove( void const * const values, long long const nVals ) final override
   {
     T const * const castedValues = reinterpret_cast< T const * >( values );
-    return integerConversion< long long >( m_sortedArray.remove( castedValues, castedValues + nVals ) );
+    if( sortedArrayManipulation::isSortedUnique( castedValues, castedValues + nVals ) )
+    { return integerConversion< long long >( m_sortedArray.remove( castedValues, castedValues + nVals ) ); }
+
+    long long count = 0;
+    for( long long i = 0; i < nVals; ++i )
+    { count += m_sortedArray.remove( castedValues[ i ] ); }
+    return count;
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 4b6dc842257b72214173740cce10b0e1044a5ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 47/62] fix: columns passed from Python that the matrix or row
 does not have corrupted memory

insert_nonzeros stored columns past the last one, growing rows past their largest capacity, and
add_to_row modified whatever entry lies where an absent one would be.
---
 src/python/PyCRSMatrix.cpp |  6 ++++++
 src/python/PyCRSMatrix.hpp | 41 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 21d220f..c911dff 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -283,6 +283,9 @@ static PyObject * PyCRSMatrix_insertNonZeros( PyCRSMatrix * const self, PyObject
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
 
+  PYTHON_ERROR_IF( !self->matrix->areValidColumns( std::get< 1 >( colsInfo ), std::get< 2 >( colsInfo ) ), PyExc_RuntimeError,
+                   "Columns must be within the " << self->matrix->numColumns() << " columns of the matrix.", nullptr );
+
   return PyLong_FromLongLong( self->matrix->insertNonZeros( row,
                                                             std::get< 1 >( colsInfo ),
                                                             std::get< 1 >( entriesInfo ),
@@ -367,6 +370,9 @@ static PyObject * PyCRSMatrix_addToRow( PyCRSMatrix * const self, PyObject * con
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
 
+  PYTHON_ERROR_IF( !self->matrix->areNonZeros( row, std::get< 1 >( colsInfo ), std::get< 2 >( colsInfo ) ), PyExc_RuntimeError,
+                   "Row " << row << " does not have an entry in every one of the columns.", nullptr );
+
   self->matrix->addToRow( row,
                           std::get< 1 >( colsInfo ),
                           std::get< 1 >( valsInfo ),
diff --git a/src/python/PyCRSMatrix.hpp b/src/python/PyCRSMatrix.hpp
index 3c406b8..ace2f4f 100644
--- a/src/python/PyCRSMatrix.hpp
+++ b/src/python/PyCRSMatrix.hpp
@@ -34,6 +34,7 @@
 #include <RAJA/RAJA.hpp>
 
 // System includes
+#include <algorithm>
 #include <string>
 #include <memory>
 #include <typeindex>
@@ -149,6 +150,26 @@ public:
    */
   virtual void compress() = 0;
 
+  /**
+   * @brief Return true iff every one of @p cols is a column of the matrix.
+   * @param cols The columns to check, must be of type @c columnType() and length @c numCols.
+   * @param numCols The number of columns to check.
+   * @return True iff every one of @p cols is a column of the matrix.
+   */
+  virtual bool areValidColumns( void const * const cols,
+                                long long const numCols ) const = 0;
+
+  /**
+   * @brief Return true iff the row has an entry in every one of @p cols.
+   * @param row The row to check.
+   * @param cols The columns to check, must be of type @c columnType() and length @c numCols.
+   * @param numCols The number of columns to check.
+   * @return True iff the row has an entry in every one of @p cols.
+   */
+  virtual bool areNonZeros( long long const row,
+                            void const * const cols,
+                            long long const numCols ) const = 0;
+
   /**
    * @brief Insert new non zero entries into a row.
    * @param row The row to insert into.
@@ -335,6 +356,26 @@ public:
   virtual void compress() final override
   { m_matrix.compress(); }
 
+  /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
+  virtual bool areValidColumns( void const * const cols,
+                                long long const numCols ) const final override
+  {
+    COL_TYPE const * const castedCols = reinterpret_cast< COL_TYPE const * >( cols );
+    return std::all_of( castedCols, castedCols + numCols, [this] ( COL_TYPE const col )
+    { return arrayManipulation::isPositive( col ) && col < m_matrix.numColumns(); } );
+  }
+
+  /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
+  virtual bool areNonZeros( long long const row,
+                            void const * const cols,
+                            long long const numCols ) const final override
+  {
+    INDEX_TYPE const convertedRow = integerConversion< INDEX_TYPE >( row );
+    COL_TYPE const * const castedCols = reinterpret_cast< COL_TYPE const * >( cols );
+    return std::all_of( castedCols, castedCols + numCols, [this, convertedRow] ( COL_TYPE const col )
+    { return !m_matrix.empty( convertedRow, col ); } );
+  }
+
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
   virtual long long insertNonZeros( long long const row,
                                     void const * const cols,
-- 
2.43.0


From 160d51abe34dee685b03a0b8b2e6bbf659f505fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 48/62] fix: get_entries returned a writable array at an access
 level below READ_ONLY

---
 src/python/PyCRSMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/PyCRSMatrix.hpp b/src/python/PyCRSMatrix.hpp
index ace2f4f..09c549f 100644
--- a/src/python/PyCRSMatrix.hpp
+++ b/src/python/PyCRSMatrix.hpp
@@ -312,7 +312,7 @@ public:
     T * const entries = m_matrix.getEntries( convertedRow );
     INDEX_TYPE const nnz = m_matrix.numNonZeros( convertedRow );
     constexpr INDEX_TYPE unitStride = 1;
-    return createNumPyArray( entries, getAccessLevel(), 1, &nnz, &unitStride );
+    return createNumPyArray( entries, getAccessLevel() >= static_cast< int >( LvArray::python::PyModify::MODIFIABLE ), 1, &nnz, &unitStride );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 7b06855026d8056bff89b8d28bf52000b204adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 49/62] fix: exporting a container whose elements have no NumPy
 type leaked its wrapper

---
 src/python/PyArray.cpp         | 6 +++---
 src/python/PyArrayOfArrays.cpp | 6 +++---
 src/python/PyArrayOfSets.cpp   | 6 +++---
 src/python/PyCRSMatrix.cpp     | 6 +++---
 src/python/PySortedArray.cpp   | 6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 3e9b46b..e7ccbb6 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -294,8 +294,8 @@ namespace internal
 PyObject * create( std::unique_ptr< PyArrayWrapperBase > && array )
 {
   // Create a new Group and set the dataRepository::Group it points to.
-  PyObject * const ret = PyObject_CallFunction( reinterpret_cast< PyObject * >( getPyArrayType() ), "" );
-  PyArray * const retArray = reinterpret_cast< PyArray * >( ret );
+  PyObjectRef<> ret{ PyObject_CallFunction( reinterpret_cast< PyObject * >( getPyArrayType() ), "" ) };
+  PyArray * const retArray = reinterpret_cast< PyArray * >( ret.get() );
   if( retArray == nullptr )
   {
     return nullptr;
@@ -310,7 +310,7 @@ PyObject * create( std::unique_ptr< PyArrayWrapperBase > && array )
   retArray->numpyDtype = typeObject;
   retArray->array = array.release();
 
-  return ret;
+  return ret.release();
 }
 
 } // namespace internal
diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index 48b39c4..35e0bc6 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -320,8 +320,8 @@ namespace internal
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 PyObject * create( std::unique_ptr< PyArrayOfArraysWrapperBase > && arrayOfArrays )
 {
-  PyObject * const ret = PyObject_CallFunction( reinterpret_cast< PyObject * >( getPyArrayOfArraysType() ), "" );
-  PyArrayOfArrays * const retArrayOfArrays = reinterpret_cast< PyArrayOfArrays * >( ret );
+  PyObjectRef<> ret{ PyObject_CallFunction( reinterpret_cast< PyObject * >( getPyArrayOfArraysType() ), "" ) };
+  PyArrayOfArrays * const retArrayOfArrays = reinterpret_cast< PyArrayOfArrays * >( ret.get() );
   if( retArrayOfArrays == nullptr )
   {
     return nullptr;
@@ -336,7 +336,7 @@ PyObject * create( std::unique_ptr< PyArrayOfArraysWrapperBase > && arrayOfArray
   retArrayOfArrays->numpyDtype = typeObject;
   retArrayOfArrays->arrayOfArrays = arrayOfArrays.release();
 
-  return ret;
+  return ret.release();
 }
 
 } // namespace internal
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index b4aba78..9c14e6c 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -340,8 +340,8 @@ namespace internal
 PyObject * create( std::unique_ptr< PyArrayOfSetsWrapperBase > && arrayOfSets )
 {
   // Create a new Group and set the dataRepository::Group it points to.
-  PyObject * const ret = PyObject_CallFunction( reinterpret_cast< PyObject * >( getPyArrayOfSetsType() ), "" );
-  PyArrayOfSets * const retArrayOfSets = reinterpret_cast< PyArrayOfSets * >( ret );
+  PyObjectRef<> ret{ PyObject_CallFunction( reinterpret_cast< PyObject * >( getPyArrayOfSetsType() ), "" ) };
+  PyArrayOfSets * const retArrayOfSets = reinterpret_cast< PyArrayOfSets * >( ret.get() );
   if( retArrayOfSets == nullptr )
   {
     return nullptr;
@@ -356,7 +356,7 @@ PyObject * create( std::unique_ptr< PyArrayOfSetsWrapperBase > && arrayOfSets )
   retArrayOfSets->numpyDtype = typeObject;
   retArrayOfSets->arrayOfSets = arrayOfSets.release();
 
-  return ret;
+  return ret.release();
 }
 
 } // namespace internal
diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index c911dff..30e5c15 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -470,8 +470,8 @@ namespace internal
 PyObject * create( std::unique_ptr< PyCRSMatrixWrapperBase > && matrix )
 {
   // Create a new Group and set the dataRepository::Group it points to.
-  PyObject * const ret = PyObject_CallFunction( reinterpret_cast< PyObject * >( getPyCRSMatrixType() ), "" );
-  PyCRSMatrix * const retMatrix = reinterpret_cast< PyCRSMatrix * >( ret );
+  PyObjectRef<> ret{ PyObject_CallFunction( reinterpret_cast< PyObject * >( getPyCRSMatrixType() ), "" ) };
+  PyCRSMatrix * const retMatrix = reinterpret_cast< PyCRSMatrix * >( ret.get() );
   if( retMatrix == nullptr )
   {
     return nullptr;
@@ -486,7 +486,7 @@ PyObject * create( std::unique_ptr< PyCRSMatrixWrapperBase > && matrix )
   retMatrix->numpyDtype = typeObject;
   retMatrix->matrix = matrix.release();
 
-  return ret;
+  return ret.release();
 }
 
 } // namespace internal
diff --git a/src/python/PySortedArray.cpp b/src/python/PySortedArray.cpp
index b23e2b1..e1f84b6 100644
--- a/src/python/PySortedArray.cpp
+++ b/src/python/PySortedArray.cpp
@@ -242,8 +242,8 @@ namespace internal
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 PyObject * create( std::unique_ptr< PySortedArrayWrapperBase > && sortedArray )
 {
-  PyObject * const ret = PyObject_CallFunction( reinterpret_cast< PyObject * >( getPySortedArrayType() ), "" );
-  PySortedArray * const retSortedArray = reinterpret_cast< PySortedArray * >( ret );
+  PyObjectRef<> ret{ PyObject_CallFunction( reinterpret_cast< PyObject * >( getPySortedArrayType() ), "" ) };
+  PySortedArray * const retSortedArray = reinterpret_cast< PySortedArray * >( ret.get() );
   if( retSortedArray == nullptr )
   {
     return nullptr;
@@ -259,7 +259,7 @@ PyObject * create( std::unique_ptr< PySortedArrayWrapperBase > && sortedArray )
   retSortedArray->numpyDtype = typeObject;
   retSortedArray->sortedArray = sortedArray.release();
 
-  return ret;
+  return ret.release();
 }
 
 } // namespace internal
-- 
2.43.0


From 1c9b026818693de4e5958c1f9ad113f11aab9b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 50/62] fix: exporting strings with null characters truncated
 them, and a list with invalid UTF-8 held null pointers

---
 src/python/pythonHelpers.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/python/pythonHelpers.cpp b/src/python/pythonHelpers.cpp
index 53f737d..7ebf435 100644
--- a/src/python/pythonHelpers.cpp
+++ b/src/python/pythonHelpers.cpp
@@ -79,18 +79,28 @@ bool addTypeToModule( PyObject * const module,
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 PyObject * create( std::string const & value )
-{ return PyUnicode_FromString( value.c_str() ); }
+{ return PyUnicode_FromStringAndSize( value.data(), integerConversion< Py_ssize_t >( value.size() ) ); }
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 PyObject * createPyListOfStrings( std::string const * const strptr, long long const size )
 {
-  PyObject * pylist = PyList_New( size );
+  PyObjectRef<> pylist{ PyList_New( size ) };
+  if( pylist == nullptr )
+  {
+    return nullptr;
+  }
+
   for( long long i = 0; i < size; ++i )
   {
-    PyObject * pystr = PyUnicode_FromString( strptr[ i ].c_str() );
-    PyList_SET_ITEM( pylist, integerConversion< Py_ssize_t >( i ), pystr );
+    PyObject * pystr = create( strptr[ i ] );
+    if( pystr == nullptr )
+    {
+      return nullptr;
+    }
+
+    PyList_SET_ITEM( pylist.get(), integerConversion< Py_ssize_t >( i ), pystr );
   }
-  return pylist;
+  return pylist.release();
 }
 
 } // namespace python
-- 
2.43.0


From b2b5158c8705641986a416a154cc4c5770a29abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 51/62] fix: adding and multiplying arrays of arrays or sets in
 Python evaluated to NotImplemented

The sq_concat and sq_repeat slots must not return NotImplemented; without them Python raises a
TypeError.
---
 src/python/PyArrayOfArrays.cpp | 16 ----------------
 src/python/PyArrayOfSets.cpp   | 16 ----------------
 2 files changed, 32 deletions(-)

diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index 35e0bc6..61257a6 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -136,20 +136,6 @@ static int PyArrayOfArrays_delitem( PyArrayOfArrays * const self, Py_ssize_t pyi
   return 0;
 }
 
-static PyObject * PyArrayOfArrays_sq_concat( PyArrayOfArrays * self, PyObject * args )
-{
-  LVARRAY_UNUSED_VARIABLE( self );
-  LVARRAY_UNUSED_VARIABLE( args );
-  Py_RETURN_NOTIMPLEMENTED;
-}
-
-static PyObject * PyArrayOfArrays_sq_repeat( PyArrayOfArrays * self, Py_ssize_t args )
-{
-  LVARRAY_UNUSED_VARIABLE( self );
-  LVARRAY_UNUSED_VARIABLE( args );
-  Py_RETURN_NOTIMPLEMENTED;
-}
-
 static constexpr char const * PyArrayOfArrays_insertIntoDocString =
   "insert_into(self, array, index, values)\n"
   "--\n\n"
@@ -287,8 +273,6 @@ static PyMethodDef PyArrayOfArrays_methods[] = {
 
 static PySequenceMethods PyArrayOfArraysSequenceMethods = {
   .sq_length = (lenfunc) PyArrayOfArrays_len,
-  .sq_concat = (binaryfunc) PyArrayOfArrays_sq_concat,
-  .sq_repeat = (ssizeargfunc) PyArrayOfArrays_sq_repeat,
   .sq_item = (ssizeargfunc) PyArrayOfArrays_getitem,
   .sq_ass_item = (ssizeobjargproc) PyArrayOfArrays_delitem,
 };
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 9c14e6c..f951c8f 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -136,20 +136,6 @@ static int PyArrayOfSets_delitem( PyArrayOfSets * const self, Py_ssize_t pyindex
   return 0;
 }
 
-static PyObject * PyArrayOfSets_sq_concat( PyArrayOfSets * self, PyObject * args )
-{
-  LVARRAY_UNUSED_VARIABLE( self );
-  LVARRAY_UNUSED_VARIABLE( args );
-  Py_RETURN_NOTIMPLEMENTED;
-}
-
-static PyObject * PyArrayOfSets_sq_repeat( PyArrayOfSets * self, Py_ssize_t args )
-{
-  LVARRAY_UNUSED_VARIABLE( self );
-  LVARRAY_UNUSED_VARIABLE( args );
-  Py_RETURN_NOTIMPLEMENTED;
-}
-
 static constexpr char const * PyArrayOfSets_insertIntoDocString =
   "insert_into(self, set, values)\n"
   "--\n\n"
@@ -306,8 +292,6 @@ static PyMethodDef PyArrayOfSets_methods[] = {
 
 static PySequenceMethods PyArrayOfSetsSequenceMethods = {
   .sq_length = (lenfunc) PyArrayOfSets_len,
-  .sq_concat = (binaryfunc) PyArrayOfSets_sq_concat,
-  .sq_repeat = (ssizeargfunc) PyArrayOfSets_sq_repeat,
   .sq_item = (ssizeargfunc) PyArrayOfSets_getitem,
   .sq_ass_item = (ssizeobjargproc) PyArrayOfSets_delitem,
 };
-- 
2.43.0


From 53cdb497b227a26c75d743b2f5dcd788085db821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 52/62] fix: removing columns outside of the matrix aborted
 Python in bounds checked builds

---
 src/python/PyCRSMatrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 30e5c15..d39b694 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -323,6 +323,9 @@ static PyObject * PyCRSMatrix_removeNonZeros( PyCRSMatrix * const self, PyObject
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
 
+  PYTHON_ERROR_IF( !self->matrix->areValidColumns( std::get< 1 >( colsInfo ), std::get< 2 >( colsInfo ) ), PyExc_RuntimeError,
+                   "Columns must be within the " << self->matrix->numColumns() << " columns of the matrix.", nullptr );
+
   return PyLong_FromLongLong( self->matrix->removeNonZeros( row,
                                                             std::get< 1 >( colsInfo ),
                                                             std::get< 2 >( colsInfo ) ) );
-- 
2.43.0


From 267c14c2e4c4a6d0b0d7ea84759450f018d82b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 53/62] fix: views of a container passed to its own bindings
 were read after it had changed

---
 src/python/numpyHelpers.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/python/numpyHelpers.cpp b/src/python/numpyHelpers.cpp
index 0929fcc..78b2d1b 100644
--- a/src/python/numpyHelpers.cpp
+++ b/src/python/numpyHelpers.cpp
@@ -257,6 +257,16 @@ parseNumPyArray( PyObject * const obj, std::type_index const expectedType )
 
   if( srcNumPyType == expectedNumPyType )
   {
+    // The values might be a view of the container they are about to be inserted into.
+    if( !PyArray_CHKFLAGS( array, NPY_ARRAY_OWNDATA ) )
+    {
+      array = reinterpret_cast< PyArrayObject * >( PyArray_NewCopy( array, NPY_CORDER ) );
+      if( array == nullptr )
+      {
+        return ErrorReturn;
+      }
+    }
+
     void const * vals = PyArray_DATA( array );
     long long const nVals = integerConversion< long long >( PyArray_SIZE( array ) );
     return ReturnType{ reinterpret_cast< PyObject * >( array.release() ), vals, nVals };
-- 
2.43.0


From 9891e05b98c55feafa516c6fcfaab637de554417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:29 +0000
Subject: [PATCH 54/62] fix: CRSMatrixView::zero computes the number of bytes
 in a type that can hold it

---
 src/CRSMatrixView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index 4d71f55..e6dea22 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -401,7 +401,7 @@ public:
       ParentClass::move( m_entries.getPreviousSpace(), false );
       m_entries.move( m_entries.getPreviousSpace(), true );
 
-      INDEX_TYPE const numBytes = m_entries.capacity() * sizeof( T );
+      std::size_t const numBytes = m_entries.capacity() * sizeof( T );
       umpireInterface::memset( m_entries.data(), 0, numBytes );
     }
   }
-- 
2.43.0


From caad65ebfd03dd9e43755c9e9e56bb57f324dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 55/62] fix: resizing one dimension of an Array registers the
 touch whichever the dimension

---
 src/Array.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Array.hpp b/src/Array.hpp
index b0a2367..31a394a 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -678,6 +678,13 @@ private:
         ptr[ newSize + i ].~T();
       }
     }
+
+#if !defined(__CUDA_ARCH__)
+    if( newSize > 0 )
+    {
+      this->m_dataBuffer.registerTouch( MemorySpace::host );
+    }
+#endif
   }
 };
 
-- 
2.43.0


From 3db7918fc26fea72a5f27970163f79a0435c7528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:03 +0000
Subject: [PATCH 56/62] fix: ArrayView compiles with
 LVARRAY_USE_TOTALVIEW_OUTPUT

---
 src/ArrayView.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index 34b7c32..86c1238 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -703,9 +703,9 @@ public:
       // m_data;"<<std::endl;
       // TV_ttf_add_row( "tv(m_data)", totalview::format< T, INDEX_TYPE >( NDIM, av->m_dims ).c_str(), (av->m_data) );
       // TV_ttf_add_row( "m_data", totalview::format< T, INDEX_TYPE >( 0, av->m_dims ).c_str(), (av->m_data) );
-      TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims) );
-      TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides) );
-      TV_ttf_add_row( "m_dataBuffer", LvArray::system::demangle< BUFFER_TYPE< T > >().c_str(), &(av->m_dataBuffer) );
+      TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims.data) );
+      TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides.data) );
+      TV_ttf_add_row( "m_dataBuffer", LvArray::system::demangleType< BUFFER_TYPE< T > >().c_str(), &(av->m_dataBuffer) );
       TV_ttf_add_row( "m_singleParameterResizeIndex", "int", &(av->m_singleParameterResizeIndex) );
     }
     return 0;
-- 
2.43.0


From efe17b11b796530a76dbba881e384fe44d7d2428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:03 +0000
Subject: [PATCH 57/62] fix: rows for TotalView show any address and end with
 the buffer

Addresses with bit 31 set indexed digits[] with a negative value, the space that
remains was computed backwards, a string that filled the buffer was copied
forever and the part of a row that did not fit was left behind.
---
 src/totalview/tv_data_display.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/totalview/tv_data_display.c b/src/totalview/tv_data_display.c
index 7770087..b1e66ff 100644
--- a/src/totalview/tv_data_display.c
+++ b/src/totalview/tv_data_display.c
@@ -139,9 +139,10 @@ marshal_string ( char * buffer, size_t len, const char * s,
     ret_val++;
     if( len > 1 )
     {
-      *cursor++ = *s++;
+      *cursor++ = *s;
       len--;
     }
+    s++;
   }
   if( len > 0 )
     *cursor = '\0';
@@ -166,7 +167,7 @@ marshal_unsigned_body ( char * buffer, size_t len, size_t val, int base,
   char * my_buffer  = buffer;
   size_t my_len     = len;
 
-  if( (int)val < base )
+  if( val < (size_t)base )
   {
     r = val;
   }
@@ -269,8 +270,8 @@ int TV_ttf_add_row( const char * field_name,
     TV_ttf_data_format_control = TV_FORMAT_APPEND_CALL;
   }
 
-  remaining = TV_ttf_data_buffer_ptr +
-              DATA_FORMAT_BUFFER_SIZE - TV_ttf_data_format_buffer;
+  remaining = TV_ttf_data_format_buffer +
+              DATA_FORMAT_BUFFER_SIZE - TV_ttf_data_buffer_ptr;
 
 /*
    out = snprintf(TV_ttf_data_buffer_ptr,
@@ -280,8 +281,12 @@ int TV_ttf_add_row( const char * field_name,
   out = marshal_row ( TV_ttf_data_buffer_ptr, remaining,
                       field_name, type_name, value, 0, 0 );
 
-  if( out < 1 )
+  /* Leave no part of a row that does not fit */
+  if( out < 1 || (size_t)out >= remaining )
+  {
+    my_zeroit( TV_ttf_data_buffer_ptr, remaining );
     return TV_ttf_ec_buffer_exhausted;
+  }
 
   TV_ttf_data_buffer_ptr += out;
 
-- 
2.43.0


From 8a189d2c82f0719f6e20b9f9283c38693a24252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:03 +0000
Subject: [PATCH 58/62] fix: the GDB printer of ArraySlice shows as many
 extents as there are dimensions

---
 scripts/gdb-printers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/gdb-printers.py b/scripts/gdb-printers.py
index b065d9e..d2fd7cd 100644
--- a/scripts/gdb-printers.py
+++ b/scripts/gdb-printers.py
@@ -6,8 +6,10 @@ def array_length(arr):
     return int(arr.type.sizeof / arr.type.target().sizeof)
 
 
-def format_array(arr):
-    return '[' + ']['.join([str(arr[i]) for i in range(array_length(arr))]) + ']'
+def format_array(arr, length=None):
+    if length is None:
+        length = array_length(arr)
+    return '[' + ']['.join([str(arr[i]) for i in range(length)]) + ']'
 
 
 class LvArrayPrinter(gdb.printing.PrettyPrinter):
@@ -122,7 +124,7 @@ class ArraySlicePrinter(LvArrayPrinter):
         return self.val['m_data']
 
     def to_string(self):
-        return '%s of size %s' % (self.real_type(), format_array(self.dims()))
+        return '%s of size %s' % (self.real_type(), format_array(self.dims(), self.ndim()))
 
     def children(self):
         array_type = self.value_type()
-- 
2.43.0


From 42747753fd945e65b16ab80812843c8780240d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:27 +0000
Subject: [PATCH 59/62] fix: a ChaiBuffer that was moved from announces its
 moves again once it is in use

---
 src/ChaiBuffer.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 141488e..677a82d 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -280,19 +280,16 @@ public:
    */
   void reallocate( std::ptrdiff_t const size, MemorySpace const space, std::ptrdiff_t const newCapacity )
   {
+    // A buffer that has been moved from has no record.
+    if( m_pointerRecord == nullptr ) setName( "" );
+
     chai::PointerRecord * const newRecord = new chai::PointerRecord{};
     newRecord->m_size = newCapacity * sizeof( T );
-
-    // A buffer that has been moved from has no record.
-    if( m_pointerRecord != nullptr )
-    {
-      newRecord->m_user_callback = m_pointerRecord->m_user_callback;
-    }
+    newRecord->m_user_callback = m_pointerRecord->m_user_callback;
 
     for( int s = chai::CPU; s < chai::NUM_EXECUTION_SPACES; ++s )
     {
-      newRecord->m_allocators[ s ] = ( m_pointerRecord != nullptr ) ? m_pointerRecord->m_allocators[ s ] :
-                                     internal::getArrayManager().getAllocatorId( chai::ExecutionSpace( s ) );
+      newRecord->m_allocators[ s ] = m_pointerRecord->m_allocators[ s ];
     }
 
     chai::ExecutionSpace const chaiSpace = internal::toChaiExecutionSpace( space );
@@ -449,7 +446,15 @@ public:
   void setName( std::string const & name )
   {
     // A buffer that has been moved from has no record.
-    if( m_pointerRecord == nullptr ) return;
+    if( m_pointerRecord == nullptr )
+    {
+      m_pointerRecord = new chai::PointerRecord{};
+      m_pointerRecord->m_size = 0;
+      for( int space = chai::CPU; space < chai::NUM_EXECUTION_SPACES; ++space )
+      {
+        m_pointerRecord->m_allocators[ space ] = internal::getArrayManager().getAllocatorId( chai::ExecutionSpace( space ) );
+      }
+    }
 
     std::string const typeString = system::demangleType< U >();
     m_pointerRecord->m_user_callback =
-- 
2.43.0


From cf94b50da9846862d0b1757f9dacf36c611e4b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:41 +0000
Subject: [PATCH 60/62] fix: copies of containers announce their moves as their
 own type

---
 src/ArrayOfArrays.hpp   | 5 ++++-
 src/ArrayOfSets.hpp     | 5 ++++-
 src/CRSMatrix.hpp       | 5 ++++-
 src/SortedArray.hpp     | 5 ++++-
 src/SparsityPattern.hpp | 5 ++++-
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index 649ac26..869684e 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -66,7 +66,10 @@ public:
   inline
   ArrayOfArrays( ArrayOfArrays const & src ):
     ParentClass( true )
-  { *this = src; }
+  {
+    setName( "" );
+    *this = src;
+  }
 
   /**
    * @brief Default move constructor, performs a shallow copy.
diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index aab2842..103fbd4 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -68,7 +68,10 @@ public:
   inline
   ArrayOfSets( ArrayOfSets const & src ):
     ParentClass( true )
-  { *this = src; }
+  {
+    setName( "" );
+    *this = src;
+  }
 
   /**
    * @brief Default move constructor, performs a shallow copy.
diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index 303940a..4ae27c5 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -71,7 +71,10 @@ public:
   inline
   CRSMatrix( CRSMatrix const & src ):
     ParentClass( true )
-  { *this = src; }
+  {
+    setName( "" );
+    *this = src;
+  }
 
   /**
    * @brief Default move constructor, performs a shallow copy.
diff --git a/src/SortedArray.hpp b/src/SortedArray.hpp
index bd27448..006ff00 100644
--- a/src/SortedArray.hpp
+++ b/src/SortedArray.hpp
@@ -76,7 +76,10 @@ public:
   inline
   SortedArray( SortedArray const & src ):
     ParentClass()
-  { *this = src; }
+  {
+    setName( "" );
+    *this = src;
+  }
 
   /**
    * @brief Default move constructor, performs a shallow copy.
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index cefda30..a8d4cae 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -65,7 +65,10 @@ public:
   inline
   SparsityPattern( SparsityPattern const & src ):
     ParentClass( true )
-  { *this = src; }
+  {
+    setName( "" );
+    *this = src;
+  }
 
   /**
    * @brief Default move constructor, performs a shallow copy.
-- 
2.43.0


From b8f8b5c81ce1fbbd6f056123700415319f15d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 61/62] fix: what an array of arrays or sets assimilates
 announces its moves as its own

The buffers kept the type and the name of the container they came from. CRSMatrix::assimilate
already renames what it takes.
---
 src/ArrayOfArrays.hpp | 1 +
 src/ArrayOfSets.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index 869684e..b8baede 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -209,6 +209,7 @@ public:
     ParentClass::free();
     ParentClass::assimilate( reinterpret_cast< ParentClass && >( src ) );
     src.resize( 0 );
+    setName( "" );
   }
 
   using ParentClass::resizeFromCapacities;
diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index 103fbd4..7957e40 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -142,6 +142,7 @@ public:
     ParentClass::free();
     ParentClass::assimilate( reinterpret_cast< ParentClass && >( src ) );
     src.resize( 0 );
+    setName( "" );
 
     INDEX_TYPE const numSets = size();
     if( desc == sortedArrayManipulation::UNSORTED_NO_DUPLICATES )
-- 
2.43.0


From 015f42a3dcfe33713be01117c38668bf6908bc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:46 +0000
Subject: [PATCH 62/62] fix: check the size of the matrix inverted in place in
 3 x 3

---
 src/fixedSizeSquareMatrixOpsImpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fixedSizeSquareMatrixOpsImpl.hpp b/src/fixedSizeSquareMatrixOpsImpl.hpp
index b09aa5b..7e7c115 100644
--- a/src/fixedSizeSquareMatrixOpsImpl.hpp
+++ b/src/fixedSizeSquareMatrixOpsImpl.hpp
@@ -630,9 +630,11 @@ struct SquareMatrixOps< 3 >
    * @note @p srcMatrix must contain floating point values.
    */
   template< typename MATRIX >
-  LVARRAY_HOST_DEVICE constexpr inline
+  LVARRAY_HOST_DEVICE CONSTEXPR_WITHOUT_BOUNDS_CHECK inline
   static auto invert( MATRIX && matrix )
   {
+    checkSizes< 3, 3 >( matrix );
+
     using realType = std::remove_reference_t< decltype( matrix[ 0 ][ 0 ] ) >;
 #if 0
     realType temp[ 3 ][ 3 ];
-- 
2.43.0

