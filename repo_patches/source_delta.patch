From cff5b025d9e537cc545a5f4acc608b2029ecd692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 01/31] fix: ConstFieldIterator::operator[] returned a
 non-const reference and did not compile

---
 spatialops/structured/MemoryWindow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/structured/MemoryWindow.h b/spatialops/structured/MemoryWindow.h
index 988cc71..abfb1fa 100644
--- a/spatialops/structured/MemoryWindow.h
+++ b/spatialops/structured/MemoryWindow.h
@@ -547,7 +547,7 @@ namespace structured{
     inline ptrdiff_t operator- (Self const & other) const { return count_ - other.count_; };
 
     //offset dereference
-    inline AtomicType & operator[](int change) { Self result = *this; result += change; return *result; };
+    inline AtomicType const & operator[](int change) const { Self result = *this; result += change; return *result; };
 
     IntVec location() const{ return IntVec(xIndex_,yIndex_,zIndex_); }
 
-- 
2.43.0


From f4d0128a84015139a4a502ab58d21b173b147bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 02/31] fix: Grid::set_coord ignored the offset of the field's
 visible window

---
 spatialops/structured/Grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/Grid.cpp b/spatialops/structured/Grid.cpp
index 0612150..ffd466b 100644
--- a/spatialops/structured/Grid.cpp
+++ b/spatialops/structured/Grid.cpp
@@ -77,7 +77,8 @@ namespace structured{
     const IntVec lo(0,0,0);
     const IntVec hi( mw.extent() );
 
-    const int ixOffset = mwInterior.offset(dir);
+    // position of the first interior point relative to the field's (visible) window
+    const int ixOffset = mwInterior.offset()[dir] - mw.offset()[dir];
     IntVec ix;
     for( ix[2]=lo[2]; ix[2]<hi[2]; ++ix[2] ){
       for( ix[1]=lo[1]; ix[1]<hi[1]; ++ix[1] ){
-- 
2.43.0


From 6cbb7b063b2f47642d5ddc99b4c52cef6a7bc14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 03/31] fix: shrinking a thread pool could end all of its
 workers

Every worker that looked between another worker's decision to end and its
deregistration saw the old count and ended as well.
---
 .../threadpool/threadpool/detail/pool_core.hpp      | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 7b79d81..d4b774c 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -108,6 +108,7 @@ namespace boost { namespace threadpool { namespace detail
   private: // The following members may be accessed by _multiple_ threads at the same time:
     volatile size_t m_worker_count;
     volatile size_t m_target_worker_count;
+    volatile size_t m_terminating_worker_count;  // workers which decided to end but are not destructed yet
     volatile size_t m_active_worker_count;
     volatile size_t m_target_active_worker_count;
 
@@ -128,6 +129,7 @@ namespace boost { namespace threadpool { namespace detail
     pool_core()
       : m_worker_count(0)
       , m_target_worker_count(0)
+      , m_terminating_worker_count(0)
       , m_active_worker_count(0)
       , m_target_active_worker_count(0)
       , m_terminate_all_workers(false)
@@ -320,10 +322,10 @@ namespace boost { namespace threadpool { namespace detail
         return false;
       }
 
-      if(m_worker_count <= m_target_worker_count){
+      if(m_worker_count - m_terminating_worker_count <= m_target_worker_count){
 
     	// increase worker count
-        while(m_worker_count < m_target_worker_count)
+        while(m_worker_count - m_terminating_worker_count < m_target_worker_count)
         {
           try {
             worker_thread<pool_type>::create_and_attach(lockedThis->shared_from_this());
@@ -374,6 +376,7 @@ namespace boost { namespace threadpool { namespace detail
     {
       locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
       m_worker_count--;
+      m_terminating_worker_count--;
       m_active_worker_count--;
       lockedThis->m_worker_idle_or_terminated_event.notify_all();
 
@@ -392,8 +395,9 @@ namespace boost { namespace threadpool { namespace detail
         recursive_mutex::scoped_lock lock(lockedThis->m_monitor);
 
         // decrease number of threads if necessary
-        if(m_worker_count > m_target_worker_count)
+        if(m_worker_count - m_terminating_worker_count > m_target_worker_count)
         {
+          m_terminating_worker_count++;
           return false;	// terminate worker
         }
 
@@ -402,8 +406,9 @@ namespace boost { namespace threadpool { namespace detail
         while(lockedThis->m_scheduler.empty() || (m_active_worker_count > m_target_active_worker_count) )
         {
           // decrease number of workers if necessary
-          if(m_worker_count > m_target_worker_count)
+          if(m_worker_count - m_terminating_worker_count > m_target_worker_count)
           {
+            m_terminating_worker_count++;
             return false;	// terminate worker
           }
           else
-- 
2.43.0


From b4012f1061573c662b9632d3a66ea3921a717359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 04/31] fix: thread-pool counters were read and written without
 the pool's lock

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index d4b774c..7c299bc 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -157,7 +157,8 @@ namespace boost { namespace threadpool { namespace detail
     * \return The number of threads.
     */
     size_t size() const volatile {
-    	return m_worker_count;
+      locking_ptr<const pool_type, recursive_mutex> lockedThis(*this, m_monitor);
+      return lockedThis->m_worker_count;
     }
 
 
@@ -165,7 +166,8 @@ namespace boost { namespace threadpool { namespace detail
     * \return The number of threads.
     */
     size_t max_active() const volatile {
-    	return m_target_active_worker_count;
+      locking_ptr<const pool_type, recursive_mutex> lockedThis(*this, m_monitor);
+      return lockedThis->m_target_active_worker_count;
     }
 
     /**
@@ -197,7 +199,8 @@ namespace boost { namespace threadpool { namespace detail
     * \return The number of active tasks.
     */
     size_t active() const volatile {
-      return m_active_worker_count;
+      locking_ptr<const pool_type, recursive_mutex> lockedThis(*this, m_monitor);
+      return lockedThis->m_active_worker_count;
     }
 
     /*! Returns the number of tasks which are ready for execution.
@@ -349,6 +352,7 @@ namespace boost { namespace threadpool { namespace detail
      * @return
      */
     bool resize_active(size_t const worker_count) volatile {
+      locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
     	m_target_active_worker_count = ( worker_count < m_worker_count ) ? worker_count : m_worker_count;
     	return true;
     }
-- 
2.43.0


From c55797716d449909a37a17616ba2677132723a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 05/31] fix: raising a pool's active limit did not wake the
 workers it lets run

The limit is also clamped to the requested number of workers, not to the
number still shutting down after a reduction.
---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 7c299bc..df48eee 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -353,7 +353,8 @@ namespace boost { namespace threadpool { namespace detail
      */
     bool resize_active(size_t const worker_count) volatile {
       locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
-    	m_target_active_worker_count = ( worker_count < m_worker_count ) ? worker_count : m_worker_count;
+    	m_target_active_worker_count = ( worker_count < m_target_worker_count ) ? worker_count : m_target_worker_count;
+      lockedThis->m_task_or_terminate_workers_event.notify_all(); // workers held back by the old limit
     	return true;
     }
 
-- 
2.43.0


From beb793749a88b9a6b409cca020f07385e052486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 06/31] fix: clearing a pool's pending tasks left threads
 blocked in wait()

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index df48eee..36e63c9 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -216,6 +216,7 @@ namespace boost { namespace threadpool { namespace detail
     void clear() volatile {
       locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
       lockedThis->m_scheduler.clear();
+      lockedThis->m_worker_idle_or_terminated_event.notify_all(); // wait() also depends on pending tasks
     }
 
     /*! Indicates that there are no tasks pending.
-- 
2.43.0


From 10ce737ecd95a68befc0a74163be85663502b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 07/31] fix: a task could be stranded when a worker ended while
 others were at the active limit

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 36e63c9..35698ca 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -385,6 +385,7 @@ namespace boost { namespace threadpool { namespace detail
       m_terminating_worker_count--;
       m_active_worker_count--;
       lockedThis->m_worker_idle_or_terminated_event.notify_all();
+      lockedThis->m_task_or_terminate_workers_event.notify_all(); // this worker counted against the active limit until now
 
       if(m_terminate_all_workers)
       {
-- 
2.43.0


From 78c12bcea13067d6f4124768c827c8b4fe3c8a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 08/31] fix: reductions of expressions containing stencils did
 not compile

---
 spatialops/NeboStencils.h     | 4 ++--
 spatialops/NeboStencils.h.fmr | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spatialops/NeboStencils.h b/spatialops/NeboStencils.h
index 10a8907..525b4a8 100644
--- a/spatialops/NeboStencils.h
+++ b/spatialops/NeboStencils.h
@@ -761,7 +761,7 @@
           inline ReductionType reduce_init(structured::IntVec const & minus,
                                            structured::IntVec const & plus,
                                            structured::IntVec const & shift) const {
-             return ReductionType(ConstructExpr::in_reduce_construct(minus,
+             return ReductionType(ConstructReductionExpr::in_rd_construct(minus,
                                                                      plus,
                                                                      shift,
                                                                      arg_,
@@ -976,7 +976,7 @@
           inline ReductionType reduce_init(structured::IntVec const & minus,
                                            structured::IntVec const & plus,
                                            structured::IntVec const & shift) const {
-             return ReductionType(ConstructExpr::in_reduce_construct(minus,
+             return ReductionType(ConstructReductionExpr::in_rd_construct(minus,
                                                                      plus,
                                                                      shift,
                                                                      arg_));
diff --git a/spatialops/NeboStencils.h.fmr b/spatialops/NeboStencils.h.fmr
index bb9416f..f0ff9ee 100644
--- a/spatialops/NeboStencils.h.fmr
+++ b/spatialops/NeboStencils.h.fmr
@@ -443,7 +443,7 @@
                                       'coefs_
                                       DI-chunk)
                                   (mfc 'arg_ 'gpu_prep DI-chunk)
-                                  (fc (scope 'ConstructExpr 'in_reduce_construct)
+                                  (fc (scope 'ConstructReductionExpr 'in_rd_construct)
                                       resize-arg
                                       'shift
                                       'arg_
@@ -542,7 +542,7 @@
                                       'arg_
                                       DI-chunk)
                                   (mfc 'arg_ 'gpu_prep DI-chunk)
-                                  (fc (scope 'ConstructExpr 'in_reduce_construct)
+                                  (fc (scope 'ConstructReductionExpr 'in_rd_construct)
                                       resize-arg
                                       'shift
                                       'arg_)
-- 
2.43.0


From eaf603f259c62c71b070905cdd06b137018d56ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 09/31] fix: a failed allocation left the memory pool's counts
 and size classes wrong

The block stayed counted as active for good, and the size class of the
failed request captured every later request larger than the others, so
requests that fit in memory kept failing.
---
 spatialops/structured/MemoryPool.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/spatialops/structured/MemoryPool.cpp b/spatialops/structured/MemoryPool.cpp
index af87468..07ae372 100644
--- a/spatialops/structured/MemoryPool.cpp
+++ b/spatialops/structured/MemoryPool.cpp
@@ -116,14 +116,15 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
 {
   assert( !destroyed_ );
 
-  if( pad_==0 ) pad_ = _n/10;
-  size_t n = _n+pad_;
+  const size_t pad = ( pad_==0 ) ? _n/10 : pad_;
+  size_t n = _n+pad;
 
   switch(mtype) {
   case LOCAL_RAM: {
     T* field = NULL;
     typename FQSizeMap::iterator ifq = cpufqm_.lower_bound( n );
-    if( ifq == cpufqm_.end() ){
+    const bool newSize = ( ifq == cpufqm_.end() );
+    if( newSize ){
       ifq = cpufqm_.insert( ifq, make_pair(n,FieldQueue()) );
     }
     else{
@@ -131,7 +132,6 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
     }
     FieldQueue& fq = ifq->second;
     if( fq.empty() ){
-      ++cpuhighWater_;
       try{
 #ifdef ENABLE_CUDA
         /* Pinned Memory Mode
@@ -153,17 +153,25 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
         // Pageable Memory mode
         field = new T[n];
 #endif
+        fsm_[field] = n;
       }
       catch(std::runtime_error& e){
         std::cout << "Error occurred while allocating memory on LOCAL_RAM" << std::endl
                   << e.what() << std::endl
                   << __FILE__ << " : " << __LINE__ << std::endl;
       }
-      fsm_[field] = n;
+      catch(...){
+        // nothing is handed out, so leave no trace of this request
+        delete [] field;
+        if( newSize ) cpufqm_.erase( ifq );
+        throw;
+      }
+      ++cpuhighWater_;
     }
     else{
       field = fq.top(); fq.pop();
     }
+    pad_ = pad;
     return field;
   }
 # ifdef ENABLE_CUDA
@@ -186,6 +194,7 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
     else{
       field = fq.top(); fq.pop();
     }
+    pad_ = pad;
     return field;
   }
 # endif
-- 
2.43.0


From 2ec5fd81330c4efbca6e404c01c491bdd067c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 10/31] fix: a field store request that failed after taking its
 block never gave it back

---
 spatialops/structured/SpatialFieldStore.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 01c66a7..9348bab 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -469,7 +469,16 @@ get_from_window( const structured::MemoryWindow& window,
     ValT* iftmp = fnew;
     for( size_t i=0; i<npts; ++i, ++iftmp )  *iftmp = 0.0;
 #   endif
-    return SpatFldPtr<FieldT>( new FieldT(mw,bc,ghost,fnew,structured::ExternalStorage), true );
+    FieldT* field = NULL;
+    try{
+      field = new FieldT(mw,bc,ghost,fnew,structured::ExternalStorage);
+      return SpatFldPtr<FieldT>( field, true );
+    }
+    catch(...){
+      delete field;
+      structured::Pool<ValT>::self().put( mtype, fnew );
+      throw;
+    }
   }
 # ifdef ENABLE_CUDA
   case EXTERNAL_CUDA_GPU: {
-- 
2.43.0


From a5f8e87525219ea4639555fe10ad80c8d2958784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 11/31] fix: SpatFldPtr mishandled self-assignment, empty
 pointers and detach

---
 spatialops/structured/SpatialFieldStore.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 9348bab..65fd561 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -146,7 +146,7 @@ public:
   }
 
   int count() const {
-    return *count_;
+    return count_ == NULL ? 0 : *count_;
   }
 
   bool built_from_store() const {
@@ -330,7 +330,7 @@ SpatFldPtr<FieldT>::SpatFldPtr(const SpatFldPtr<FieldT>& p)
     deviceIndex_( p.deviceIndex_),
     memType_( p.memType_ )
 {
-    ++(*count_);
+    if( count_ != NULL ) ++(*count_);
 }
 
 //------------------------------------------------------------------
@@ -349,6 +349,7 @@ template<typename FieldT>
 SpatFldPtr<FieldT>&
 SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
 {
+  if( this == &p ) return *this;
   // was this an active SpatFldPtr?
   if (count_ != NULL) {
     // this one is dying so decrement the count.
@@ -371,7 +372,7 @@ SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
   memType_ = p.memType_;
   deviceIndex_ = p.deviceIndex_;
   // increment copy count
-  ++(*count_);
+  if( count_ != NULL ) ++(*count_);
 
   return *this;
 }
@@ -400,8 +401,8 @@ SpatFldPtr<FieldT>::operator=(FieldT* const f) {
   count_ = new int;
   *count_ = 1;
   builtFromStore_ = false;
-  memType_ = f->memory_device_type();
-  deviceIndex_ = f->device_index();
+  memType_ = ( f != NULL ? f->memory_device_type() : LOCAL_RAM );
+  deviceIndex_ = ( f != NULL ? f->device_index() : 0 );
 
   return *this;
 }
@@ -419,9 +420,11 @@ void SpatFldPtr<FieldT>::detach() {
       if( builtFromStore_ ){
 	SpatialFieldStore::restore_field(memType_, *f_);
       }
-      delete count_; count_ = NULL;
-      delete f_;     f_     = NULL;
+      delete count_;
+      delete f_;
     }
+    count_ = NULL;
+    f_     = NULL;
   }
 }
 
-- 
2.43.0


From b896add22339b1b036ee09a7f966ed2c889c4fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 12/31] fix: concurrent first uses of the library's thread
 pools raced on registering them

---
 spatialops/ThreadPool.cpp | 18 ++++++------------
 spatialops/ThreadPool.h   |  6 ------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/spatialops/ThreadPool.cpp b/spatialops/ThreadPool.cpp
index cb96dc4..32181f9 100644
--- a/spatialops/ThreadPool.cpp
+++ b/spatialops/ThreadPool.cpp
@@ -148,7 +148,9 @@ namespace SpatialOps {
    ThreadPool::ThreadPool( const int nthreads )
      : boost::threadpool::prio_pool( nthreads )
    {
-     init_ = false;
+     // registered here rather than in self(), where only the construction
+     // of the static object is safe against concurrent first calls
+     ThreadPoolResourceManager::self().insert<boost::threadpool::prio_pool>( *this, nthreads );
    }
 
    ThreadPool::~ThreadPool()
@@ -171,11 +173,6 @@ namespace SpatialOps {
    ThreadPool& ThreadPool::self()
    {
      static ThreadPool tp(NTHREADS);
-     ThreadPoolResourceManager& tprm = ThreadPoolResourceManager::self();
-     if( tp.init_ == false ){
-       tprm.insert<boost::threadpool::prio_pool>(tp, NTHREADS);
-       tp.init_ = true;
-     }
      return tp;
    }
 
@@ -184,7 +181,9 @@ namespace SpatialOps {
    ThreadPoolFIFO::ThreadPoolFIFO( const int nthreads )
      : boost::threadpool::fifo_pool( nthreads )
    {
-     init_ = false;
+     // registered here rather than in self(), where only the construction
+     // of the static object is safe against concurrent first calls
+     ThreadPoolResourceManager::self().insert<boost::threadpool::fifo_pool>( *this, nthreads );
    }
 
    ThreadPoolFIFO::~ThreadPoolFIFO()
@@ -194,11 +193,6 @@ namespace SpatialOps {
    ThreadPoolFIFO::self()
    {
      static ThreadPoolFIFO tp( NTHREADS );
-     ThreadPoolResourceManager& tprm = ThreadPoolResourceManager::self();
-     if( tp.init_ == false ){
-       tprm.insert<boost::threadpool::fifo_pool>( tp, NTHREADS );
-       tp.init_ = true;
-     }
      return tp;
    }
 
diff --git a/spatialops/ThreadPool.h b/spatialops/ThreadPool.h
index c9e29e5..9d19ca3 100644
--- a/spatialops/ThreadPool.h
+++ b/spatialops/ThreadPool.h
@@ -89,9 +89,6 @@ namespace SpatialOps{
      * @return the maximum number of threads in the pool
      */
     static int get_pool_capacity();
-
-  private:
-    bool init_;
   };
 
   /**
@@ -131,9 +128,6 @@ namespace SpatialOps{
     static int get_pool_capacity();
 
     static bool is_thread_parallel();
-
-  private:
-    bool init_;
   };
 } // namespace SpatialOps
 
-- 
2.43.0


From 26557de5937b99ea101799afdbe66e96f031e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 13/31] fix: the memory pool was used from several threads
 without a lock

---
 spatialops/structured/MemoryPool.cpp | 19 +++++++++++++++++++
 spatialops/structured/MemoryPool.h   | 10 +++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/MemoryPool.cpp b/spatialops/structured/MemoryPool.cpp
index 07ae372..2eba12a 100644
--- a/spatialops/structured/MemoryPool.cpp
+++ b/spatialops/structured/MemoryPool.cpp
@@ -116,6 +116,9 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
 {
   assert( !destroyed_ );
 
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
   const size_t pad = ( pad_==0 ) ? _n/10 : pad_;
   size_t n = _n+pad;
 
@@ -220,6 +223,10 @@ Pool<T>::put( const MemoryType mtype, T* t )
   // leak memory on shut-down in those cases.
   if( destroyed_ ) return;
 
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
+
   switch(mtype) {
   case LOCAL_RAM: {
     const size_t n = fsm_[t];
@@ -251,6 +258,9 @@ Pool<T>::put( const MemoryType mtype, T* t )
 template<typename T>
 size_t
 Pool<T>::active() const{
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
   size_t n=0;
   for( typename FQSizeMap::const_iterator ifq=cpufqm_.begin(); ifq!=cpufqm_.end(); ++ifq ){
     n += ifq->second.size();
@@ -258,6 +268,15 @@ Pool<T>::active() const{
   return cpuhighWater_-n;
 }
 
+template<typename T>
+size_t
+Pool<T>::total() const{
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
+  return cpuhighWater_;
+}
+
 
 // explicit instantiation
 template class Pool<double>;
diff --git a/spatialops/structured/MemoryPool.h b/spatialops/structured/MemoryPool.h
index 3a4e0f1..7a97cf8 100644
--- a/spatialops/structured/MemoryPool.h
+++ b/spatialops/structured/MemoryPool.h
@@ -26,8 +26,13 @@
 #include <stack>
 #include <map>
 
+#include <spatialops/SpatialOpsConfigure.h>
 #include <spatialops/structured/MemoryTypes.h>
 
+#ifdef ENABLE_THREADS
+# include <boost/thread/mutex.hpp>
+#endif
+
 namespace SpatialOps {
 namespace structured {
 
@@ -44,6 +49,9 @@ class Pool{
   FieldSizeMap fsm_;
   size_t pad_;
   size_t cpuhighWater_, gpuhighWater_;
+# ifdef ENABLE_THREADS
+  mutable boost::mutex mutex_;  // fields and masks use the pool directly from any thread
+# endif
   Pool();
   ~Pool();
   Pool(const Pool&);
@@ -55,7 +63,7 @@ class Pool{
   T* get( const MemoryType mtype, const size_t n );
   void put( const MemoryType mtype, T* );
   size_t active() const;
-  size_t total() const{ return cpuhighWater_; }
+  size_t total() const;
   const unsigned short int deviceIndex_;
 };
 
-- 
2.43.0


From 32671c8854747de8f613e7c0970124e973446abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 14/31] fix: a temporary modelled on a field with reduced valid
 ghosts had the wrong interior

---
 spatialops/structured/SpatialFieldStore.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 65fd561..228aff2 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -250,7 +250,7 @@ public:
     if( mtype == UNKNOWN ) mtype = f.memory_device_type();
 
     const MemoryWindow& ws = f.window_with_ghost();
-    GhostData gs = f.get_ghost_data();
+    const GhostData gs = f.get_valid_ghost_data(); // the ghosts that window_with_ghost() includes
 
     const BoundaryCellInfo bc = BoundaryCellInfo::build<FieldT>( f.boundary_info().has_bc() );
 
-- 
2.43.0


From ca6603e454862743be952ea0e3f73725de47ec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 15/31] fix: a negative relative tolerance gave the field
 comparisons a negative absolute error

---
 spatialops/structured/FieldComparisons.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spatialops/structured/FieldComparisons.h b/spatialops/structured/FieldComparisons.h
index ad1745b..7b2b0ad 100644
--- a/spatialops/structured/FieldComparisons.h
+++ b/spatialops/structured/FieldComparisons.h
@@ -78,7 +78,7 @@ namespace structured{
  */
 template<typename FieldT>
 bool field_not_equal(const FieldT& f1, const FieldT& f2, double error=0.0) {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return !field_equal(f1, f2, error, error_abs);
 }
 
@@ -123,7 +123,7 @@ bool field_not_equal(const FieldT& f1, const FieldT& f2, double error, const dou
 template<typename FieldT>
 bool field_equal(const FieldT& f1, const FieldT& f2, double error=0.0)
 {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return field_equal(f1, f2, error, error_abs);
 }
 
@@ -412,7 +412,7 @@ bool field_equal_ulp(const FieldT& f1, const FieldT& f2, const unsigned int ulps
  */
 template<typename FieldT>
 bool field_not_equal(const double d, const FieldT& f1, double error=0.0) {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return !field_equal(d, f1, error, error_abs);
 }
 
@@ -457,7 +457,7 @@ bool field_not_equal(const double d, const FieldT& f1, double error, const doubl
 template<typename FieldT>
 bool field_equal(const double d, const FieldT& f1, double error=0.0)
 {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return field_equal(d, f1, error, error_abs);
 }
 
-- 
2.43.0


From 58106d5a24d4ccb6130cb834eb91498a530d288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 16/31] fix: field comparisons with a tolerance took NaN as
 equal to anything

---
 spatialops/structured/FieldComparisons.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spatialops/structured/FieldComparisons.h b/spatialops/structured/FieldComparisons.h
index 7b2b0ad..3d88d50 100644
--- a/spatialops/structured/FieldComparisons.h
+++ b/spatialops/structured/FieldComparisons.h
@@ -187,7 +187,7 @@ bool field_equal(const FieldT& f1, const FieldT& f2, double error, const double
     else {
       const double denom = std::abs(**if1) + error_abs;
 
-      if (std::abs(**if1 - **if2)/denom > error) {
+      if (!(**if1 == **if2 || std::abs(**if1 - **if2)/denom <= error)) { // false for NaN
         result =  false;
         break;
       }
@@ -276,7 +276,7 @@ bool field_equal_abs(const FieldT& f1, const FieldT& f2, double error=0.0)
       }
     }
     else {
-      if(std::abs(**if1 - **if2) > error) {
+      if(!(**if1 == **if2 || std::abs(**if1 - **if2) <= error)) { // false for NaN
         result = false;
         break;
       }
@@ -508,7 +508,7 @@ bool field_equal(const double d, const FieldT& f1, double error, const double er
     }
     else {
 
-      if (std::abs(d - **if1)/denom > error) {
+      if (!(**if1 == d || std::abs(d - **if1)/denom <= error)) { // false for NaN
         result =  false;
         break;
       }
@@ -583,7 +583,7 @@ bool field_equal_abs(const double d, const FieldT& f1, double error=0.0)
       }
     }
     else {
-      if(std::abs(d - **if1) > error) {
+      if(!(**if1 == d || std::abs(d - **if1) <= error)) { // false for NaN
         result = false;
         break;
       }
-- 
2.43.0


From 9027283dae31251fad78f055b5ada78f207dadb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 17/31] fix: particle operators took the mesh to start at zero

---
 spatialops/particles/ParticleOperators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/particles/ParticleOperators.h b/spatialops/particles/ParticleOperators.h
index 6e1ea93..a158547 100644
--- a/spatialops/particles/ParticleOperators.h
+++ b/spatialops/particles/ParticleOperators.h
@@ -158,7 +158,7 @@ namespace Particle{
       //identify the location of the particle right boundary
       const double rightloc = *plociter+( 0.5 * *psizeiter );
       //identify the cell index where particle left boundary located
-      int leftcellIx1 = int((*plociter-( 0.5 * *psizeiter )) / dx_) + 1;
+      int leftcellIx1 = int( std::floor( (leftloc - xo_) / dx_ + 0.5 ) );
 #     ifndef NDEBUG
       if( (leftcellIx1 >= nmax) || (leftcellIx1<0) ){
         throw std::runtime_error( "Particle is outside of the domain!" );
@@ -219,7 +219,7 @@ namespace Particle{
     for( ; plociter!=particleCoord.end(); ++plociter, ++destiter, ++psizeiter ){
       double leftloc = *plociter-( *psizeiter / 2.0) ;
       const double rightloc = *plociter+( *psizeiter / 2.0) ;
-      int leftcellIx1 = int((*plociter-( *psizeiter / 2.0)) / dx_) + 1;
+      int leftcellIx1 = int( std::floor( (leftloc - xo_) / dx_ + 0.5 ) );
 #     ifndef NDEBUG
       if( leftcellIx1 >= nmax || leftcellIx1<0 ){
         throw std::runtime_error( "Particle is outside of the domain!" );
-- 
2.43.0


From 49da8d520d71a4063e168775ee35d48f0c80a5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 18/31] fix: particles reaching past the (+) end of the mesh
 accessed memory beyond it

---
 spatialops/particles/ParticleOperators.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/spatialops/particles/ParticleOperators.h b/spatialops/particles/ParticleOperators.h
index a158547..853592f 100644
--- a/spatialops/particles/ParticleOperators.h
+++ b/spatialops/particles/ParticleOperators.h
@@ -144,9 +144,8 @@ namespace Particle{
    {
      dest <<= 0.0;
 
-#   ifndef NDEBUG
     const int nmax = dest.window_with_ghost().local_npts();
-#   endif
+    const double xend = coordVec_[nmax-1] + dx_/2;  // (+) face of the mesh
 
     ParticleField::const_iterator plociter = particleCoord.begin();
     ParticleField::const_iterator psizeiter = particleSize.begin();
@@ -159,15 +158,15 @@ namespace Particle{
       const double rightloc = *plociter+( 0.5 * *psizeiter );
       //identify the cell index where particle left boundary located
       int leftcellIx1 = int( std::floor( (leftloc - xo_) / dx_ + 0.5 ) );
-#     ifndef NDEBUG
-      if( (leftcellIx1 >= nmax) || (leftcellIx1<0) ){
+      // a particle on the edge of the mesh may be off it by roundoff
+      if( leftcellIx1 == -1 && leftloc > xo_ - dx_/2 - 1e-6*dx_ ) leftcellIx1 = 0;
+      if( (leftcellIx1 >= nmax) || (leftcellIx1<0) || rightloc > xend + 1e-6*dx_ ){
         throw std::runtime_error( "Particle is outside of the domain!" );
       }
-#     endif
       //loop through all cells effected by the particle and add the source term
       while(leftloc < rightloc){
         double rb = coordVec_[leftcellIx1] + dx_/2;
-        if( rb > rightloc ) rb = rightloc;
+        if( rb > rightloc || leftcellIx1 == nmax-1 ) rb = rightloc;
         dest[leftcellIx1] += *isrc * (rb-leftloc) / *psizeiter;
         ++leftcellIx1;
         leftloc = rb ;
@@ -210,9 +209,8 @@ namespace Particle{
                   const SrcFieldType& src,
                   DestFieldType& dest ) const
   {
-#   ifndef NDEBUG
     const int nmax = src.window_with_ghost().local_npts();
-#   endif
+    const double xend = coordVec_[nmax-1] + dx_/2.0;  // (+) face of the mesh
     ParticleField::const_iterator plociter = particleCoord.begin();
     ParticleField::const_iterator psizeiter = particleSize.begin();
     ParticleField::iterator destiter = dest.begin();
@@ -220,15 +218,15 @@ namespace Particle{
       double leftloc = *plociter-( *psizeiter / 2.0) ;
       const double rightloc = *plociter+( *psizeiter / 2.0) ;
       int leftcellIx1 = int( std::floor( (leftloc - xo_) / dx_ + 0.5 ) );
-#     ifndef NDEBUG
-      if( leftcellIx1 >= nmax || leftcellIx1<0 ){
+      // a particle on the edge of the mesh may be off it by roundoff
+      if( leftcellIx1 == -1 && leftloc > xo_ - dx_/2.0 - 1e-6*dx_ ) leftcellIx1 = 0;
+      if( leftcellIx1 >= nmax || leftcellIx1<0 || rightloc > xend + 1e-6*dx_ ){
         throw std::runtime_error( "Particle is outside of the domain!" );
       }
-#     endif
       *destiter = 0.0;
       while(leftloc < rightloc){
         double rb = coordVec_[leftcellIx1] + dx_/2.0;
-        if( rb > rightloc ) rb = rightloc;
+        if( rb > rightloc || leftcellIx1 == nmax-1 ) rb = rightloc;
         *destiter += src[leftcellIx1] * (rb-leftloc) / *psizeiter;
         ++leftcellIx1;
         leftloc = rb ;
-- 
2.43.0


From b9942f6f05d4e1030a3bf66156bfe2583e8a933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 19/31] fix: GaussianFunction::dx was not the derivative of the
 function

---
 spatialops/FieldFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/FieldFunctions.h b/spatialops/FieldFunctions.h
index cd4ae08..85c93c4 100644
--- a/spatialops/FieldFunctions.h
+++ b/spatialops/FieldFunctions.h
@@ -647,7 +647,7 @@ dx( FieldT& f ) const
 {
   this->set_fields();
   const FieldT& x = this->get_x();
-  f <<= -2/b_ * (x-xo_)*(x-xo_)*exp(-1.0/b_ * (x-xo_)*(x-xo_) ) + yo_;
+  f <<= -2/b_ * (x-xo_) * ( a_*exp(-1.0/b_ * (x-xo_)*(x-xo_) ) );
 }
 //------------------------------------------------------------------
 template<typename FieldT, typename PatchT>
-- 
2.43.0


From 8646aa91ca2104964ceb9fccbcfaa8025cdb8492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 20/31] fix: point operators built from a marker field used the
 wrong flat indices in windows

---
 spatialops/pointfield/PointOperators.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spatialops/pointfield/PointOperators.h b/spatialops/pointfield/PointOperators.h
index c6f3375..24d1e9c 100644
--- a/spatialops/pointfield/PointOperators.h
+++ b/spatialops/pointfield/PointOperators.h
@@ -96,9 +96,10 @@ namespace Point{
   template< typename FieldT >
   PointToField<FieldT>::PointToField( const FieldT& locs )
   {
+    const structured::MemoryWindow& w = locs.window_with_ghost();
     size_t i=0;
     for( typename FieldT::const_iterator ii=locs.begin(); ii!=locs.end(); ++ii, ++i ){
-      if( *ii != 0.0 ) indices_.push_back(i);
+      if( *ii != 0.0 ) indices_.push_back( w.flat_index( w.ijk_index_from_local(i) ) );
     }
   }
 
@@ -132,9 +133,10 @@ namespace Point{
   template< typename FieldT >
   FieldToPoint<FieldT>::FieldToPoint( const FieldT& locs )
   {
+    const structured::MemoryWindow& w = locs.window_with_ghost();
     size_t i=0;
     for( typename FieldT::const_iterator ii=locs.begin(); ii!=locs.end(); ++ii, ++i ){
-      if( *ii != 0.0 ) indices_.push_back(i);
+      if( *ii != 0.0 ) indices_.push_back( w.flat_index( w.ijk_index_from_local(i) ) );
     }
   }
 
-- 
2.43.0


From 45fff1b193524b9a99e78dd4ad38845224871f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 21/31] fix: comparing a float field with a scalar in ulps did
 not compile

---
 spatialops/structured/FieldComparisons.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/FieldComparisons.h b/spatialops/structured/FieldComparisons.h
index 3d88d50..3442767 100644
--- a/spatialops/structured/FieldComparisons.h
+++ b/spatialops/structured/FieldComparisons.h
@@ -657,13 +657,13 @@ bool field_equal_ulp(const double d, const FieldT& f1, const unsigned int ulps)
   bool result = true;
   for (; *if1 != *iend; ++(*if1)) {
     if(exact_comparison) {
-      if (boost::math::float_distance(d, **if1) != 0) {
+      if (boost::math::float_distance(typename FieldT::value_type(d), **if1) != 0) {
         result = false;
         break;
       }
     }
     else {
-      if (std::abs(boost::math::float_distance(d, **if1)) > ulps) {
+      if (std::abs(boost::math::float_distance(typename FieldT::value_type(d), **if1)) > ulps) {
         result =  false;
         break;
       }
-- 
2.43.0


From 35dacc84de631b538aa77ccefe7979b776be04a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 22/31] fix: boundary conditions given as a list of points used
 the wrong cells

The stored flat indices refer to the whole field; they were decoded with the
extent of the interior and then shifted by the window's offset again.
---
 spatialops/structured/stencil/FVStaggeredBCOp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/stencil/FVStaggeredBCOp.h b/spatialops/structured/stencil/FVStaggeredBCOp.h
index a77e81a..1360664 100644
--- a/spatialops/structured/stencil/FVStaggeredBCOp.h
+++ b/spatialops/structured/stencil/FVStaggeredBCOp.h
@@ -234,8 +234,8 @@ namespace structured{
       std::vector<int>::const_iterator ia = flatGhostPoints_.begin(); // ia is the ghost flat index
       std::vector<int>::const_iterator ib = flatInteriorPoints_.begin(); // ib is the interior flat index
       for( ; ia != flatGhostPoints_.end(); ++ia, ++ib ){
-        const MemoryWindow wa( w.glob_dim(), w.offset()+w.ijk_index_from_local(*ia), IntVec(1,1,1) );
-        const MemoryWindow wb( w.glob_dim(), w.offset()+w.ijk_index_from_local(*ib), IntVec(1,1,1) );
+        const MemoryWindow wa( w.glob_dim(), w.ijk_index_from_global(*ia), IntVec(1,1,1) );
+        const MemoryWindow wb( w.glob_dim(), w.ijk_index_from_global(*ib), IntVec(1,1,1) );
         SrcFieldT fa( wa, f );
         SrcFieldT fb( wb, f );
         fa <<= ( bcEval_() - cb_ * fb ) / ca_;
-- 
2.43.0


From ca00a3713ed4dd7bb8a4a8b0a9733a1fab247b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:06 +0000
Subject: [PATCH 23/31] fix: the boundary-condition builder read neighbours of
 the cells other threads were writing

---
 spatialops/NeboStencilBuilder.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/spatialops/NeboStencilBuilder.h b/spatialops/NeboStencilBuilder.h
index 1803255..43392c0 100644
--- a/spatialops/NeboStencilBuilder.h
+++ b/spatialops/NeboStencilBuilder.h
@@ -521,6 +521,9 @@ namespace SpatialOps {
                              PhiFieldType & phi,
                              const NeboExpression<ExprType, GammaFieldType> & gamma,
                              bool minus) const {
+#       ifdef ENABLE_THREADS
+          const OnePartition onePartition(phi);
+#       endif
         if(minus)
           phi <<= cond(shift_.minus(mask), (gammaShift_(gamma) - phiShift_(phi) * srcCoef_) / destCoef_)
                       (phi);
@@ -560,6 +563,15 @@ namespace SpatialOps {
       }
 
     private:
+#     ifdef ENABLE_THREADS
+        // The assignment reads neighboring cells of the field it writes, so it must not be split between threads.
+        struct OnePartition {
+          PhiFieldType & phi_;
+          const int count_;
+          OnePartition(PhiFieldType & phi) : phi_(phi), count_(phi.get_partition_count()) { phi_.set_partition_count(1); }
+          ~OnePartition() { phi_.set_partition_count(count_); }
+        };
+#     endif
       const double destCoef_;
       const double srcCoef_;
       const GammaShiftType gammaShift_;
-- 
2.43.0


From 919964c6c07d3898e305689a87bdc06591a408a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 24/31] fix: a one-point coefficient collection returned a
 coefficient for index 1

---
 spatialops/NeboStencils.h     | 2 +-
 spatialops/NeboStencils.h.fmr | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/NeboStencils.h b/spatialops/NeboStencils.h
index 525b4a8..09f9839 100644
--- a/spatialops/NeboStencils.h
+++ b/spatialops/NeboStencils.h
@@ -100,7 +100,7 @@
                 throw(std::runtime_error(msg.str()));;
              };
 
-             if(index > 1) {
+             if(index >= 1) {
                 std::ostringstream msg;
                 msg << "Nebo error in " << "Nebo Stencil Coefficient Collection"
                 << ":\n";
diff --git a/spatialops/NeboStencils.h.fmr b/spatialops/NeboStencils.h.fmr
index f0ff9ee..a00b339 100644
--- a/spatialops/NeboStencils.h.fmr
+++ b/spatialops/NeboStencils.h.fmr
@@ -237,7 +237,7 @@
                                      (list (nif (n< 'index "0")
                                                 (build-error '(Nebo Stencil Coefficient Collection)
                                                              '(given negative value for coefficient index)))
-                                           (nif (n> 'index "1")
+                                           (nif (n>= 'index "1")
                                                 (build-error '(Nebo Stencil Coefficient Collection)
                                                              '(trying to access a coefficient that does not exist))))
                                      (fc 'coef)))
-- 
2.43.0


From bb9e6769245e6f81fadfb8adb9bd1421def36232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 25/31] fix: a rejected add_consumer left the field read-only

---
 spatialops/structured/SpatialField.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index ec68e13..ee38647 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -914,8 +914,6 @@ add_consumer( MemoryType consumerMemoryType,
     return;
   }
 
-  readOnly_ = true;  // once a consumer is added, we only allow read-only access
-
 # ifdef ENABLE_THREADS
   //Make sure adding consumers is per-field atomic
   ExecMutex lock;
@@ -1023,6 +1021,8 @@ add_consumer( MemoryType consumerMemoryType,
     throw(std::runtime_error(msg.str()));
   }
   }
+
+  readOnly_ = true;  // once a consumer is added, we only allow read-only access
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 971dd6c8cd37ab909854e8b3395b9058ecf70e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 26/31] fix: a thread-pool future's flags were read and written
 without its lock, one of them uninitialised

---
 spatialops/threadpool/threadpool/detail/future.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spatialops/threadpool/threadpool/detail/future.hpp b/spatialops/threadpool/threadpool/detail/future.hpp
index 4e4b35b..53a14f3 100755
--- a/spatialops/threadpool/threadpool/detail/future.hpp
+++ b/spatialops/threadpool/threadpool/detail/future.hpp
@@ -59,11 +59,13 @@ public:
   future_impl()
   : m_ready(false)
   , m_is_cancelled(false)
+  , m_executing(false)
   {
   }
 
   bool ready() const volatile
   {
+    mutex::scoped_lock lock(const_cast<const future_type*>(this)->m_monitor);
     return m_ready; 
   }
 
@@ -132,6 +134,7 @@ public:
 
    bool cancel() volatile
    {
+     mutex::scoped_lock lock(const_cast<const future_type*>(this)->m_monitor);
      if(!m_ready || m_executing)
      {
         m_is_cancelled = true;
@@ -146,12 +149,14 @@ public:
 
    bool is_cancelled() const volatile
    {
+     mutex::scoped_lock lock(const_cast<const future_type*>(this)->m_monitor);
      return m_is_cancelled;
    }
 
 
    void set_execution_status(bool executing) volatile
    {
+     mutex::scoped_lock lock(const_cast<const future_type*>(this)->m_monitor);
      m_executing = executing;
    }
 };
-- 
2.43.0


From f0324a5da780ba54200e59d90aab43861105df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 27/31] fix: futures of tasks returning a class type did not
 compile

---
 spatialops/threadpool/threadpool/detail/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/threadpool/threadpool/detail/future.hpp b/spatialops/threadpool/threadpool/detail/future.hpp
index 53a14f3..8caf335 100755
--- a/spatialops/threadpool/threadpool/detail/future.hpp
+++ b/spatialops/threadpool/threadpool/detail/future.hpp
@@ -43,7 +43,7 @@ public:
 
 private:
     volatile bool m_ready;
-    volatile future_result_type m_result;
+    future_result_type m_result;
 
     mutable mutex m_monitor;
     mutable condition m_condition_ready;	
-- 
2.43.0


From 8f06a9b2a92383da7164bc7ccb621b08055a9dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 28/31] fix: wake threads in wait(n) when a worker goes on to
 the next pending task

A worker that finishes a task and takes the next one without going idle lowers
the number of active and pending tasks, but nobody waiting for a threshold was
told: wait(n) stayed blocked until some worker found the queue empty.
---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 35698ca..6b5ab70 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -429,6 +429,9 @@ namespace boost { namespace threadpool { namespace detail
 
         task = lockedThis->m_scheduler.top();
         lockedThis->m_scheduler.pop();
+
+        // the number of active and pending tasks went down: see wait
+        lockedThis->m_worker_idle_or_terminated_event.notify_all();
       }
 
       // call task function
-- 
2.43.0


From 15ba30c3c5bc8481712b92179e8d02c499260916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:02 +0000
Subject: [PATCH 29/31] fix: field functions built from a patch and field id
 compile and bind the field

FieldSetter assigned to a const parameter, so no function built from a patch
could be evaluated.
---
 spatialops/FieldFunctions.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spatialops/FieldFunctions.h b/spatialops/FieldFunctions.h
index 85c93c4..31df6c1 100644
--- a/spatialops/FieldFunctions.h
+++ b/spatialops/FieldFunctions.h
@@ -391,9 +391,9 @@ namespace FFLocal{
   template<typename FieldT, typename PatchT>
   struct FieldSetter
   {
-    static void set( const FieldT* const f, PatchT* p, typename PatchT::FieldID id )
+    static void set( const FieldT*& f, PatchT* p, typename PatchT::FieldID id )
     {
-      f = p->template field_manager<FieldT>().field_ref(id);
+      f = &p->template field_manager<FieldT>().field_ref(id);
     }
   };
 
@@ -402,7 +402,7 @@ namespace FFLocal{
   template<typename FieldT>
   struct FieldSetter<FieldT,NULLPatch>
   {
-    static void set( const FieldT* const f, NULLPatch* p, typename NULLPatch::FieldID id ){}
+    static void set( const FieldT*& f, NULLPatch* p, typename NULLPatch::FieldID id ){}
   };
 }
 
-- 
2.43.0


From 52870f93fb3c0c79b38619d568bc91cf32e49376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 30/31] fix: field functions for a patch type can be built from
 fields

The 1D and 2D bases left their const identifiers uninitialised, which does not
compile for identifiers without a default constructor; the 3D base did not.
---
 spatialops/FieldFunctions.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spatialops/FieldFunctions.h b/spatialops/FieldFunctions.h
index 31df6c1..16d0046 100644
--- a/spatialops/FieldFunctions.h
+++ b/spatialops/FieldFunctions.h
@@ -414,6 +414,7 @@ namespace FFLocal{
 template<typename FieldT,typename PatchT>
 FieldFunction1D<FieldT,PatchT>::FieldFunction1D( const FieldT& x )
   : patch_( NULL ),
+    xid_(),
     x_( &x )
 {}
 //--------------------------------------------------------------------
@@ -444,6 +445,7 @@ FieldFunction1D<FieldT,PatchT>::set_fields() const
 template<typename FieldT,typename PatchT>
 FieldFunction2D<FieldT,PatchT>::FieldFunction2D( const FieldT& x, const FieldT& y )
   : patch_( NULL ),
+    xid_(), yid_(),
     x_(&x), y_(&y)
 {
 }
-- 
2.43.0


From f505e3c822e9a6ad7ca7fda332d1ae58eb48a198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 31/31] fix: keep the field store's mutex alive for fields
 released during static destruction

---
 spatialops/structured/SpatialFieldStore.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 228aff2..29e3d03 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -281,7 +281,8 @@ private:
   /**
    *  Used to lock threads to prevent simultaneous access.
    */
-  inline static boost::mutex& get_mutex() {static boost::mutex m; return m;}
+  // never destroyed: fields with static lifetime may be restored after every other static object is gone
+  inline static boost::mutex& get_mutex() {static boost::mutex* const m = new boost::mutex; return *m;}
 #endif
 
 };
-- 
2.43.0

