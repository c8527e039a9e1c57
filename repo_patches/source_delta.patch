From b339535f8b0e58382da3dbaa464f8bf3d77e4a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 001/157] fix: do not access task provider after its last task
 was reported as completed

---
 src/thread_pool.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index af9a214..a1eb19e 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -50,9 +50,11 @@ AbstractTaskProvider & AbstractTaskProvider::operator=( const AbstractTaskProvid
 
 void AbstractTaskProvider::_taskRun( bool skip )
 {
+    // the provider can be destroyed or be run again as soon as the last task is reported as completed so no member can be read after the report
+    const size_t taskCount = _taskCount;
     const size_t taskId = _givenTaskCount++;
 
-    if ( taskId < _taskCount ) {
+    if ( taskId < taskCount ) {
         if ( !skip ) {
             try {
                 _task( taskId );
@@ -66,7 +68,7 @@ void AbstractTaskProvider::_taskRun( bool skip )
 
         const size_t completedTasks = ( ++_completedTaskCount );
 
-        if ( completedTasks == _taskCount ) {
+        if ( completedTasks == taskCount ) {
             _completion.lock();
 
             _running = false;
-- 
2.43.0


From 26849b3a9453eb8627b23893ced3cfbfd20edcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 002/157] fix: clearing thread pool must complete pending tasks
 without executing them

---
 src/thread_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index a1eb19e..e32f4c8 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -251,7 +251,7 @@ void ThreadPool::clear()
 {
     _taskInfo.lock();
     // complete all tasks without real computations. It helps to avoid a deadlock in a case when thread pool is destroyed
-    std::for_each( _task.begin(), _task.end(), []( AbstractTaskProvider * task ) { task->_task( true ); } );
+    std::for_each( _task.begin(), _task.end(), []( AbstractTaskProvider * task ) { task->_taskRun( true ); } );
     _task.clear();
 
     _taskInfo.unlock();
-- 
2.43.0


From 84db709727f19c5cf333ba85a713ba1148ad5ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 003/157] fix: removing tasks of a provider from thread pool
 must not leave the provider waiting forever

---
 src/thread_pool.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index e32f4c8..dec7e33 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -242,8 +242,14 @@ void ThreadPool::remove( AbstractTaskProvider * provider )
 {
     _taskInfo.lock();
 
+    const size_t taskCount = _task.size();
+
     _task.remove( provider );
 
+    // complete all removed tasks without real computations, otherwise nobody would ever report about completion of them
+    for ( size_t removedCount = taskCount - _task.size(); removedCount > 0; --removedCount )
+        provider->_taskRun( true );
+
     _taskInfo.unlock();
 }
 
-- 
2.43.0


From 12a83e744662420ce884faf94e8c1b6537cc6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 004/157] fix: allow to start threads again after thread pool
 was stopped

---
 src/thread_pool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index dec7e33..54f331b 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -280,6 +280,9 @@ void ThreadPool::stop()
             thread->join();
 
         _worker.clear();
+
+        _run.clear();
+        _exit.clear();
     }
 }
 
-- 
2.43.0


From 6d3ec1f58ca9428ce7ed2c8907fbe28722dea9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 005/157] fix: task provider flags are accessed by several
 threads so they must be atomic

---
 src/thread_pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thread_pool.h b/src/thread_pool.h
index 3a05aa0..242b420 100644
--- a/src/thread_pool.h
+++ b/src/thread_pool.h
@@ -55,12 +55,12 @@ private:
     std::atomic<size_t> _givenTaskCount; // number of tasks which were given to thread pool
     std::atomic<size_t> _completedTaskCount; // number of completed tasks
 
-    bool _running; // boolean variable specifies the state of tasks processing
+    std::atomic<bool> _running; // boolean variable specifies the state of tasks processing
     std::mutex _completion; // mutex for synchronization reporting about completion of all tasks
                             // this mutex is waited in _wait() function
     std::condition_variable _waiting; // condition variable for verification that all tasks are really completed
 
-    bool _exceptionRaised; // notifies whether an exception raised during task execution
+    std::atomic<bool> _exceptionRaised; // notifies whether an exception raised during task execution
 
     void _taskRun( bool skip ); // function is called only by thread pool to call _task() function and increment counters
 };
-- 
2.43.0


From 3de1013dcd0daaae76a49dc40361f31e2b3b3691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 006/157] fix: worker threads must not read their indicators
 while thread pool is being resized

---
 src/thread_pool.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 54f331b..1d85136 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -295,29 +295,25 @@ void ThreadPool::_workerThread( ThreadPool * pool, size_t threadId )
         pool->_creation.unlock();
     }
 
-    while ( !pool->_exit[threadId] ) {
+    while ( true ) {
+        // all indicators could be reallocated while the pool is being resized so they must be accessed only under the lock
         std::unique_lock<std::mutex> _mutexLock( pool->_taskInfo );
         pool->_waiting.wait( _mutexLock, [&] { return pool->_run[threadId]; } );
-        _mutexLock.unlock();
 
         if ( pool->_exit[threadId] )
             break;
 
-        pool->_taskInfo.lock();
-
         if ( !pool->_task.empty() ) {
             AbstractTaskProvider * task = pool->_task.front();
 
             pool->_task.pop_front();
 
-            pool->_taskInfo.unlock();
+            _mutexLock.unlock();
 
             task->_taskRun( false );
         }
         else {
             pool->_run[threadId] = 0;
-
-            pool->_taskInfo.unlock();
         }
     }
 
-- 
2.43.0


From 179a5b7b4fd014625b14b0f52899e5e86a7720f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 007/157] fix: number of requested threads is read by starting
 threads while thread pool is being resized

---
 src/thread_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_pool.h b/src/thread_pool.h
index 242b420..f4bbc71 100644
--- a/src/thread_pool.h
+++ b/src/thread_pool.h
@@ -113,7 +113,7 @@ private:
     std::mutex _creation; // mutex for thread creation verification
     std::atomic<size_t> _runningThreadCount; // variable used to calculate a number of running threads
     std::condition_variable _completeCreation; // condition variable for verification that all threads are created
-    std::size_t _threadCount; // current number of threads in pool
+    std::atomic<size_t> _threadCount; // current number of threads in pool
     bool _threadsCreated; // indicator for pool that all threads are created
 
     std::list<AbstractTaskProvider *> _task; // a list of tasks to perform
-- 
2.43.0


From e63d7e9d29a23dfbd1485ee44a4c59511799a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 008/157] fix: GammaCorrection, LookupTable, Normalize and
 Resize functions returning an image must keep the number of color channels

---
 src/image_function_helper.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index 62ef931..fa6aa82 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -352,7 +352,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         gammaCorrection( in, 0, 0, out, 0, 0, out.width(), out.height(), a, gamma );
 
@@ -371,7 +371,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         gammaCorrection( in, startXIn, startYIn, out, 0, 0, width, height, a, gamma );
 
@@ -536,7 +536,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         lookupTable( in, 0, 0, out, 0, 0, out.width(), out.height(), table );
 
@@ -555,7 +555,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         lookupTable( in, startXIn, startYIn, out, 0, 0, width, height, table );
 
@@ -657,7 +657,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         normalize( in, 0, 0, out, 0, 0, out.width(), out.height() );
 
@@ -675,7 +675,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         normalize( in, startXIn, startYIn, out, 0, 0, width, height );
 
@@ -710,7 +710,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( widthOut, heightOut );
+        Image out = in.generate( widthOut, heightOut, in.colorCount() );
 
         resize( in, 0, 0, in.width(), in.height(), out, 0, 0, widthOut, heightOut );
 
@@ -730,7 +730,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
 
-        Image out = in.generate( widthOut, heightOut );
+        Image out = in.generate( widthOut, heightOut, in.colorCount() );
 
         resize( in, startXIn, startYIn, widthIn, heightIn, out, 0, 0, widthOut, heightOut );
 
-- 
2.43.0


From 9f6bb6bc2c855fbb726574893acba88da915d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 009/157] fix: Subtract function must verify second input image
 before treating area as a continuous one

---
 src/image_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index f0abeab..a9aa16a 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1915,7 +1915,7 @@ namespace Image_Function
         const uint8_t colorCount = CheckCommonColorCount( in1, in2, out );
         width = width * colorCount;
 
-        OptimiseRoi( width, height, in1, in1, out );
+        OptimiseRoi( width, height, in1, in2, out );
 
         const uint32_t rowSize1 = in1.rowSize();
         const uint32_t rowSize2 = in2.rowSize();
-- 
2.43.0


From ee1b6d451d6aa84fad3eccf337aca32bfce8c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 010/157] fix: Histogram function must take into account all
 pixels of a color image

---
 src/image_function.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index a9aa16a..d24297f 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -867,9 +867,11 @@ namespace Image_Function
     void Histogram( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, std::vector<uint32_t> & histogram )
     {
         ValidateImageParameters( image, x, y, width, height );
-        OptimiseRoi( width, height, image );
 
         const uint32_t colorCount = image.colorCount();
+        width = width * colorCount;
+
+        OptimiseRoi( width, height, image );
 
         histogram.resize( 256u * colorCount );
         std::fill( histogram.begin(), histogram.end(), 0u );
-- 
2.43.0


From 2cd92eca13f8fd168f289a4f99ac2aa2cefa3ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 011/157] fix: Histogram function with mask must take into
 account all pixels of a color image and reject non-gray-scale mask

---
 src/image_function.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index d24297f..1df951e 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -922,9 +922,13 @@ namespace Image_Function
                     std::vector<uint32_t> & histogram )
     {
         ValidateImageParameters( image, x, y, mask, maskX, maskY, width, height );
-        OptimiseRoi( width, height, image, mask );
+        VerifyGrayScaleImage( mask );
 
         const uint32_t colorCount = image.colorCount();
+        if ( colorCount == 1 )
+            OptimiseRoi( width, height, image, mask );
+        else
+            width = width * colorCount;
 
         histogram.resize( 256u * colorCount );
         std::fill( histogram.begin(), histogram.end(), 0u );
-- 
2.43.0


From db17a965a726e5a8e3fd1abfc36c97ec45af7763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 012/157] fix: ConvertTo16Bit and ConvertTo8Bit functions must
 start from a correct column of a color image

---
 src/image_function.cpp      | 4 ++--
 src/image_function_simd.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 1df951e..be71c98 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -472,7 +472,7 @@ namespace Image_Function
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint16_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint16_t * outYEnd = outY + height * rowSizeOut;
@@ -528,7 +528,7 @@ namespace Image_Function
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint8_t * outYEnd = outY + height * rowSizeOut;
diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index d4a8764..19a0b1e 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2729,7 +2729,7 @@ namespace simd
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint16_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint16_t * outYEnd = outY + height * rowSizeOut;
@@ -2768,7 +2768,7 @@ namespace simd
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint8_t * outYEnd = outY + height * rowSizeOut;
-- 
2.43.0


From 6dd26bfb120d6180fcb99cfb79799312923bed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 013/157] fix: ConvertTo16Bit and ConvertTo8Bit functions must
 reject images of different sizes

---
 src/image_function.cpp        | 4 ++++
 src/image_function_helper.cpp | 4 ++++
 src/image_function_simd.cpp   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index be71c98..add5903 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -445,6 +445,8 @@ namespace Image_Function
     {
         ValidateImageParameters( in );
         ValidateImageParameters( out );
+        if ( in.width() != out.width() || in.height() != out.height() )
+            throw penguinVException( "Bad input parameters in image function" );
 
         ConvertTo16Bit( in, 0, 0, out, 0, 0, in.width(), in.height() );
     }
@@ -501,6 +503,8 @@ namespace Image_Function
     {
         ValidateImageParameters( in );
         ValidateImageParameters( out );
+        if ( in.width() != out.width() || in.height() != out.height() )
+            throw penguinVException( "Bad input parameters in image function" );
 
         ConvertTo8Bit( in, 0, 0, out, 0, 0, in.width(), in.height() );
     }
diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index fa6aa82..30fa88c 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -207,6 +207,8 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
         Image_Function::ValidateImageParameters( out );
+        if ( in.width() != out.width() || in.height() != out.height() )
+            throw penguinVException( "Bad input parameters in image function" );
 
         convertTo16Bit( in, 0, 0, out, 0, 0, in.width(), in.height() );
     }
@@ -215,6 +217,8 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
         Image_Function::ValidateImageParameters( out );
+        if ( in.width() != out.width() || in.height() != out.height() )
+            throw penguinVException( "Bad input parameters in image function" );
 
         convertTo8Bit( in, 0, 0, out, 0, 0, in.width(), in.height() );
     }
diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 19a0b1e..a89bd8d 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -3341,6 +3341,8 @@ namespace Image_Function_Simd
     {
         Image_Function::ValidateImageParameters( in );
         Image_Function::ValidateImageParameters( out );
+        if ( in.width() != out.width() || in.height() != out.height() )
+            throw penguinVException( "Bad input parameters in image function" );
 
         ConvertTo16Bit( in, 0, 0, out, 0, 0, in.width(), in.height() );
     }
@@ -3373,6 +3375,8 @@ namespace Image_Function_Simd
     {
         Image_Function::ValidateImageParameters( in );
         Image_Function::ValidateImageParameters( out );
+        if ( in.width() != out.width() || in.height() != out.height() )
+            throw penguinVException( "Bad input parameters in image function" );
 
         ConvertTo8Bit( in, 0, 0, out, 0, 0, in.width(), in.height() );
     }
-- 
2.43.0


From 16b16513cbe2b6af7853d63753de38d7f270a0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 014/157] fix: Copy function must write into output image
 instead of replacing it

---
 src/image_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index add5903..2ee137a 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -650,7 +650,7 @@ namespace Image_Function
     {
         ValidateImageParameters( in, out );
 
-        out = in;
+        Copy( in, 0, 0, out, 0, 0, out.width(), out.height() );
     }
 
     Image Copy( const Image & in, uint32_t startXIn, uint32_t startYIn, uint32_t width, uint32_t height )
-- 
2.43.0


From 96ea6c8bee36c04cf8523e582af113060091aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 015/157] fix: Fill function must reject empty image and must
 not write outside image area

---
 src/image_function.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 2ee137a..4d5ad35 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -728,7 +728,9 @@ namespace Image_Function
 
     void Fill( Image & image, uint8_t value )
     {
-        image.fill( value );
+        ValidateImageParameters( image );
+
+        Fill( image, 0, 0, image.width(), image.height(), value );
     }
 
     void Fill( Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, uint8_t value )
-- 
2.43.0


From 89e22cf7e8bc563ad4a89f8a3a9ac37caa1bcb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 016/157] fix: ConvertToGrayScale function must take into
 account the number of color channels of RGBA image

---
 src/image_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 4d5ad35..4121696 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -578,7 +578,7 @@ namespace Image_Function
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint8_t colorCount = RGB;
+        const uint8_t colorCount = in.colorCount();
 
         const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut;
-- 
2.43.0


From aea86904395c6cc261cd747788a420775acda3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 017/157] fix: ConvertToRgb function must not treat RGBA image
 as a gray-scale image

---
 src/image_function.cpp      | 5 +++++
 src/image_function_simd.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 4121696..2fc3a37 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -621,6 +621,11 @@ namespace Image_Function
             return;
         }
 
+        if ( in.colorCount() == RGBA ) {
+            RgbaToRgb( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+            return;
+        }
+
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index a89bd8d..fb1c739 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2811,6 +2811,11 @@ namespace simd
             return;
         }
 
+        if ( in.colorCount() == RGBA ) {
+            Image_Function::RgbaToRgb( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+            return;
+        }
+
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-- 
2.43.0


From 7ab92c34cb7b6db4a02ffb91bd87b2b3889fe11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 018/157] fix: Shift function must read pixels only inside of
 input image and place them at correct positions

---
 src/image_function.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 2fc3a37..cb2f3b2 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1779,7 +1779,7 @@ namespace Image_Function
         ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         VerifyGrayScaleImage( in, out );
 
-        if ( ( fabs( shiftX ) > width - 1 ) || ( fabs( shiftY ) > height - 1 ) )
+        if ( !( fabs( shiftX ) <= width - 1 ) || !( fabs( shiftY ) <= height - 1 ) ) // the check must be false for NaN values
             throw penguinVException( "Shift value by value bigger than ROI" );
 
         // take a note that we use an opposite values
@@ -1795,8 +1795,12 @@ namespace Image_Function
         if ( shiftY > 0.0 )
             --shiftYIntegral;
 
-        const double coeffX = ( shiftX < 0.0 ) ? ( 1.0 + shiftX ) : shiftX;
-        const double coeffY = ( shiftY < 0.0 ) ? ( 1.0 + shiftY ) : shiftY;
+        // a shift by an integral number of pixels does not need a subsequent pixel
+        const uint32_t stepX = ( shiftX < 0.0 || shiftX > 0.0 ) ? 1u : 0u;
+        const uint32_t stepY = ( shiftY < 0.0 || shiftY > 0.0 ) ? 1u : 0u;
+
+        const double coeffX = ( shiftX > 0.0 ) ? shiftX : ( 1.0 + shiftX );
+        const double coeffY = ( shiftY > 0.0 ) ? shiftY : ( 1.0 + shiftY );
 
         // 2^23 = 8388608, 2^23 * 256 is a integer limit
         const uint32_t coeff0 = static_cast<uint32_t>( ( coeffX ) * (coeffY)*16384 + 0.5 );
@@ -1804,19 +1808,19 @@ namespace Image_Function
         const uint32_t coeff2 = static_cast<uint32_t>( ( 1.0 - coeffX ) * ( 1.0 - coeffY ) * 16384 + 0.5 );
         const uint32_t coeff3 = static_cast<uint32_t>( ( coeffX ) * ( 1.0 - coeffY ) * 16384 + 0.5 );
 
-        const uint32_t limitX = in.width() - 1u; // we need 2 subsequent pixels so we cannot use last pixel
-        const uint32_t limitY = in.height() - 1u;
+        const uint32_t limitX = in.width() - stepX; // if we need 2 subsequent pixels we cannot use last pixel
+        const uint32_t limitY = in.height() - stepY;
 
         const uint32_t emptyLeftArea
             = ( shiftXIntegral < 0 && startXIn < static_cast<uint32_t>( -shiftXIntegral ) ) ? ( static_cast<uint32_t>( -shiftXIntegral ) - startXIn ) : 0u;
-        const uint32_t emptyRightArea = ( shiftXIntegral > 0 && limitX < startXIn + width + static_cast<uint32_t>( shiftXIntegral ) )
+        const uint32_t emptyRightArea = ( shiftXIntegral >= 0 && limitX < startXIn + width + static_cast<uint32_t>( shiftXIntegral ) )
                                             ? ( startXIn + width + static_cast<uint32_t>( shiftXIntegral ) - limitX )
                                             : 0u;
         const uint32_t realWidth = width - emptyLeftArea - emptyRightArea;
 
         const uint32_t emptyTopArea
             = ( shiftYIntegral < 0 && startYIn < static_cast<uint32_t>( -shiftYIntegral ) ) ? ( static_cast<uint32_t>( -shiftYIntegral ) - startYIn ) : 0u;
-        const uint32_t emptyBottomArea = ( shiftYIntegral > 0 && limitY < startYIn + height + static_cast<uint32_t>( shiftYIntegral ) )
+        const uint32_t emptyBottomArea = ( shiftYIntegral >= 0 && limitY < startYIn + height + static_cast<uint32_t>( shiftYIntegral ) )
                                              ? ( startYIn + height + static_cast<uint32_t>( shiftYIntegral ) - limitY )
                                              : 0u;
         const uint32_t realHeight = height - emptyTopArea - emptyBottomArea;
@@ -1827,6 +1831,8 @@ namespace Image_Function
         const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut;
 
+        const uint32_t nextRowIn = stepY * rowSizeIn;
+
         inY += shiftXIntegral + shiftYIntegral * static_cast<int32_t>( rowSizeIn );
 
         const uint8_t * outYEnd = outY + emptyTopArea * rowSizeOut;
@@ -1843,12 +1849,13 @@ namespace Image_Function
 
             memset( outX, 0, emptyLeftArea );
             inX += emptyLeftArea;
+            outX += emptyLeftArea;
 
-            for ( ; outX != outXEnd; ++outX ) {
+            for ( ; outX != outXEnd; ++outX, ++inX ) {
                 uint32_t data = ( *( inX ) ) * coeff0;
-                data += ( *( inX + rowSizeIn ) ) * coeff3;
-                data += ( *( ++inX ) ) * coeff1; // here we increment inX
-                data += ( *( inX + rowSizeIn ) ) * coeff2;
+                data += ( *( inX + nextRowIn ) ) * coeff3;
+                data += ( *( inX + stepX ) ) * coeff1;
+                data += ( *( inX + nextRowIn + stepX ) ) * coeff2;
 
                 *outX = static_cast<uint8_t>( ( data + 8192 ) >> 14 ); // 8192 is 0.5 after calculations
             }
-- 
2.43.0


From eb806f15f07e02fe8afcaa9496f82de53d4476c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 019/157] fix: avoid integer overflow in Resize function

---
 src/image_function.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index cb2f3b2..225f775 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1476,7 +1476,7 @@ namespace Image_Function
         // Precalculation of X position
         std::vector<uint32_t> positionX( widthOut );
         for ( uint32_t x = 0; x < widthOut; ++x )
-            positionX[x] = ( x * widthIn / widthOut ) * colorCount;
+            positionX[x] = static_cast<uint32_t>( static_cast<uint64_t>( x ) * widthIn / widthOut ) * colorCount;
 
         widthOut *= colorCount;
 
@@ -1485,7 +1485,7 @@ namespace Image_Function
                 uint8_t * outX = outY;
                 const uint8_t * outXEnd = outX + widthOut;
 
-                const uint8_t * inX = inY + ( idY * heightIn / heightOut ) * rowSizeIn;
+                const uint8_t * inX = inY + static_cast<uint32_t>( static_cast<uint64_t>( idY ) * heightIn / heightOut ) * rowSizeIn;
                 const uint32_t * idX = positionX.data();
 
                 for ( ; outX != outXEnd; ++outX, ++idX )
@@ -1499,7 +1499,7 @@ namespace Image_Function
                 uint8_t * outX = outY;
                 const uint8_t * outXEnd = outX + widthOut;
 
-                const uint8_t * inX = inY + ( idY * heightIn / heightOut ) * rowSizeIn;
+                const uint8_t * inX = inY + static_cast<uint32_t>( static_cast<uint64_t>( idY ) * heightIn / heightOut ) * rowSizeIn;
                 const uint32_t * idX = positionX.data();
 
                 for ( ; outX != outXEnd; outX += colorCount, ++idX )
-- 
2.43.0


From d2695458c4a9c1bca779189c0c90d5647c37e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 020/157] fix: Resize function must reject images with
 different number of color channels

---
 src/image_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 225f775..7ed1328 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1462,7 +1462,7 @@ namespace Image_Function
         ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
         ValidateImageParameters( out, startXOut, startYOut, widthOut, heightOut );
 
-        const uint8_t colorCount = in.colorCount();
+        const uint8_t colorCount = CheckCommonColorCount( in, out );
 
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
-- 
2.43.0


From 8722ab7bf58e286f3e07693cd79556bc96ac7fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 021/157] fix: SetPixel function must not modify an image if
 any of points is out of the image

---
 src/image_function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 7ed1328..ff9e64e 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1753,9 +1753,10 @@ namespace Image_Function
         for ( ; x != end; ++x, ++y ) {
             if ( ( *x ) >= width || ( *y ) >= height )
                 throw penguinVException( "Position of point [x, y] is out of image" );
+        }
 
+        for ( x = X.begin(), y = Y.begin(); x != end; ++x, ++y )
             *( data + ( *y ) * rowSize + ( *x ) ) = value;
-        }
     }
 
     Image Shift( const Image & in, double shiftX, double shiftY )
-- 
2.43.0


From aa35a5e50f559ed8c556eda0c43ea23e115c113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 022/157] fix: Rotate function must verify a position before
 converting it to an integral type

---
 src/image_function.cpp | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index ff9e64e..7f78719 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1686,8 +1686,8 @@ namespace Image_Function
 
         const double minX = startXIn;
         const double minY = startYIn;
-        const uint32_t maxX = startXIn + width - 1u;
-        const uint32_t maxY = startYIn + height - 1u;
+        const double maxX = startXIn + width - 1u;
+        const double maxY = startYIn + height - 1u;
 
         for ( ; outY != outYEnd; outY += rowSizeOut, inXPos += sinAngle, inYPos += cosAngle ) {
             uint8_t * outX = outY;
@@ -1697,31 +1697,27 @@ namespace Image_Function
             double posY = inYPos;
 
             for ( ; outX != outXEnd; ++outX, posX += cosAngle, posY -= sinAngle ) {
-                if ( posX < minX || posY < minY ) {
+                // the check must be false for NaN values
+                if ( !( posX >= minX && posY >= minY && posX < maxX && posY < maxY ) ) {
                     ( *outX ) = 0; // we actually do not know what is beyond an image so we set value 0
                 }
                 else {
                     const uint32_t x = static_cast<uint32_t>( posX );
                     const uint32_t y = static_cast<uint32_t>( posY );
 
-                    if ( x >= maxX || y >= maxY ) {
-                        ( *outX ) = 0; // we actually do not know what is beyond an image so we set value 0
-                    }
-                    else {
-                        const uint8_t * inX = inY + y * rowSizeIn + x;
+                    const uint8_t * inX = inY + y * rowSizeIn + x;
 
-                        // we use bilinear approximation to find pixel intensity value
-                        const double coeffX = posX - x;
-                        const double coeffY = posY - y;
+                    // we use bilinear approximation to find pixel intensity value
+                    const double coeffX = posX - x;
+                    const double coeffY = posY - y;
 
-                        // Take a weighted mean of four pixels. Use offset of 0.5
-                        // so that integer conversion leads to rounding instead of
-                        // simple truncation.
-                        const double sum = *( inX ) * ( 1 - coeffX ) * ( 1 - coeffY ) + *( inX + 1 ) * ( coeffX ) * ( 1 - coeffY )
-                                           + *( inX + rowSizeIn ) * ( 1 - coeffX ) * ( coeffY ) + *( inX + rowSizeIn + 1 ) * ( coeffX ) * ( coeffY ) + 0.5;
+                    // Take a weighted mean of four pixels. Use offset of 0.5
+                    // so that integer conversion leads to rounding instead of
+                    // simple truncation.
+                    const double sum = *( inX ) * ( 1 - coeffX ) * ( 1 - coeffY ) + *( inX + 1 ) * ( coeffX ) * ( 1 - coeffY )
+                                       + *( inX + rowSizeIn ) * ( 1 - coeffX ) * ( coeffY ) + *( inX + rowSizeIn + 1 ) * ( coeffX ) * ( coeffY ) + 0.5;
 
-                        ( *outX ) = static_cast<uint8_t>( sum );
-                    }
+                    ( *outX ) = static_cast<uint8_t>( sum );
                 }
             }
         }
-- 
2.43.0


From 9ba57e033b93e72ebcac60a6ef22716d8906e011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 023/157] fix: Rotate function returning an image must keep the
 center of rotation inside of ROI

---
 src/image_function_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index 30fa88c..00a8473 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -863,7 +863,7 @@ namespace Image_Function_Helper
 
         Image out = in.generate( width, height, in.colorCount() );
 
-        rotate( in, x, y, centerX, centerY, out, 0, 0, centerX, centerY, width, height, angle );
+        rotate( in, x, y, centerX, centerY, out, 0, 0, centerX - x, centerY - y, width, height, angle );
 
         return out;
     }
-- 
2.43.0


From 9b0b403dcb354392dbc88a7e404f17df2e1c46ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 024/157] fix: avoid integer overflow in GetThreshold function

---
 src/image_function_helper.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index 00a8473..748fd6a 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -406,15 +406,15 @@ namespace Image_Function_Helper
             throw penguinVException( "Histogram size is not 256" );
 
         // It is well-known Otsu's method to find threshold
-        uint32_t pixelCount = histogram[0] + histogram[1];
-        uint32_t sum = histogram[1];
+        uint64_t pixelCount = static_cast<uint64_t>( histogram[0] ) + histogram[1];
+        uint64_t sum = histogram[1];
         for ( uint16_t i = 2; i < 256; ++i ) {
-            sum = sum + i * histogram[i];
+            sum = sum + static_cast<uint64_t>( i ) * histogram[i];
             pixelCount += histogram[i];
         }
 
-        uint32_t sumTemp = 0;
-        uint32_t pixelCountTemp = 0;
+        uint64_t sumTemp = 0;
+        uint64_t pixelCountTemp = 0;
 
         double maximumSigma = -1;
 
@@ -427,10 +427,11 @@ namespace Image_Function_Helper
                 break;
 
             if ( pixelCountTemp > 0 ) {
-                sumTemp += i * histogram[i];
+                sumTemp += static_cast<uint64_t>( i ) * histogram[i];
 
-                const double w1 = static_cast<double>( pixelCountTemp ) / pixelCount;
-                const double a = static_cast<double>( sumTemp ) / pixelCountTemp - static_cast<double>( sum - sumTemp ) / ( pixelCount - pixelCountTemp );
+                const double w1 = static_cast<double>( pixelCountTemp ) / static_cast<double>( pixelCount );
+                const double a = static_cast<double>( sumTemp ) / static_cast<double>( pixelCountTemp )
+                                 - static_cast<double>( sum - sumTemp ) / static_cast<double>( pixelCount - pixelCountTemp );
                 const double sigma = w1 * ( 1 - w1 ) * a * a;
 
                 if ( sigma > maximumSigma ) {
-- 
2.43.0


From bad2169860543739bce78f7dc0f4479eb2b5986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 025/157] fix: SIMD Accumulate function must accept color
 images as well as the generic one

---
 src/image_function_simd.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index fb1c739..697736a 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2562,7 +2562,6 @@ namespace simd
         }
 
         Image_Function::ValidateImageParameters( image, x, y, width, height );
-        Image_Function::VerifyGrayScaleImage( image );
         width = width * colorCount;
 
         if ( result.size() != width * height )
-- 
2.43.0


From 5480268e2fd4424a92b79ffdc8a58ecce39ac0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 026/157] fix: SIMD ConvertTo16Bit functions must convert all
 pixels and keep their order

---
 src/image_function_simd.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 697736a..cb950f5 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -237,16 +237,18 @@ namespace avx512
                          uint32_t totalSimdWidth, uint32_t nonSimdWidth )
     {
         const simd zero = _mm512_setzero_si512();
+        // unpack instructions work within 128-bit lanes so data must be rearranged in advance
+        const simd order = _mm512_setr_epi64( 0, 4, 1, 5, 2, 6, 3, 7 );
         for ( ; outY != outYEnd; outY += rowSizeOut, inY += rowSizeIn ) {
             const simd * src = reinterpret_cast<const simd *>( inY );
             simd * dst = reinterpret_cast<simd *>( outY );
             const simd * srcEnd = src + simdWidth;
 
             for ( ; src != srcEnd; ++src ) {
-                const simd srcData = _mm512_loadu_si512( src );
+                const simd srcData = _mm512_permutexvar_epi64( order, _mm512_loadu_si512( src ) );
 
                 _mm512_storeu_si512( dst++, _mm512_unpacklo_epi8( zero, srcData ) );
-                _mm512_storeu_si512( dst++, _mm512_unpacklo_epi8( zero, srcData ) );
+                _mm512_storeu_si512( dst++, _mm512_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -703,10 +705,11 @@ namespace avx
             const simd * srcEnd = src + simdWidth;
 
             for ( ; src != srcEnd; ++src ) {
-                const simd srcData = _mm256_loadu_si256( src );
+                // unpack instructions work within 128-bit lanes so data must be rearranged in advance
+                const simd srcData = _mm256_permute4x64_epi64( _mm256_loadu_si256( src ), 0xD8 );
 
                 _mm256_storeu_si256( dst++, _mm256_unpacklo_epi8( zero, srcData ) );
-                _mm256_storeu_si256( dst++, _mm256_unpacklo_epi8( zero, srcData ) );
+                _mm256_storeu_si256( dst++, _mm256_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -1323,7 +1326,7 @@ namespace sse
                 const simd srcData = _mm_loadu_si128( src );
 
                 _mm_storeu_si128( dst++, _mm_unpacklo_epi8( zero, srcData ) );
-                _mm_storeu_si128( dst++, _mm_unpacklo_epi8( zero, srcData ) );
+                _mm_storeu_si128( dst++, _mm_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
-- 
2.43.0


From 742bb2dd192a89285fbbee65e156d2be68a77def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 027/157] fix: AVX and AVX512 ConvertTo8Bit functions must keep
 the order of pixels

---
 src/image_function_simd.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index cb950f5..9504061 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -265,6 +265,9 @@ namespace avx512
     void ConvertTo8Bit( uint8_t * outY, const uint8_t * outYEnd, const uint16_t * inY, uint32_t rowSizeOut, uint32_t rowSizeIn, uint32_t simdWidth,
                         uint32_t totalSimdWidth, uint32_t nonSimdWidth )
     {
+        // pack instruction works within 128-bit lanes so result must be rearranged
+        const simd order = _mm512_setr_epi64( 0, 2, 4, 6, 1, 3, 5, 7 );
+
         for ( ; outY != outYEnd; outY += rowSizeOut, inY += rowSizeIn ) {
             const simd * src = reinterpret_cast<const simd *>( inY );
             simd * dst = reinterpret_cast<simd *>( outY );
@@ -276,7 +279,8 @@ namespace avx512
                 const simd srcData2 = _mm512_loadu_si512( src );
                 ++src;
 
-                _mm512_storeu_si512( dst, _mm512_packus_epi16( _mm512_srli_epi16( srcData1, 8 ), _mm512_srli_epi16( srcData2, 8 ) ) );
+                const simd dstData = _mm512_packus_epi16( _mm512_srli_epi16( srcData1, 8 ), _mm512_srli_epi16( srcData2, 8 ) );
+                _mm512_storeu_si512( dst, _mm512_permutexvar_epi64( order, dstData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -737,7 +741,9 @@ namespace avx
                 const simd srcData2 = _mm256_loadu_si256( src );
                 ++src;
 
-                _mm256_storeu_si256( dst, _mm256_packus_epi16( _mm256_srli_epi16( srcData1, 8 ), _mm256_srli_epi16( srcData2, 8 ) ) );
+                // pack instruction works within 128-bit lanes so result must be rearranged
+                const simd dstData = _mm256_packus_epi16( _mm256_srli_epi16( srcData1, 8 ), _mm256_srli_epi16( srcData2, 8 ) );
+                _mm256_storeu_si256( dst, _mm256_permute4x64_epi64( dstData, 0xD8 ) );
             }
 
             if ( nonSimdWidth > 0 ) {
-- 
2.43.0


From dd8c53552a32ab6e117a6ed6c2174a1a509ee8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 028/157] fix: AVX and AVX512 Accumulate functions must keep
 the order of pixels

---
 src/image_function_simd.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 9504061..23a62be 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -115,6 +115,8 @@ namespace avx512
                      uint32_t nonSimdWidth )
     {
         simd zero = _mm512_setzero_si512();
+        // unpack instructions work within 128-bit lanes so data must be rearranged in advance
+        const simd order = _mm512_setr_epi32( 0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15 );
 
         const uint32_t width = totalSimdWidth + nonSimdWidth;
 
@@ -124,7 +126,7 @@ namespace avx512
             simd * dst = reinterpret_cast<simd *>( outY );
 
             for ( ; src != srcEnd; ++src ) {
-                simd data = _mm512_loadu_si512( src );
+                simd data = _mm512_permutexvar_epi32( order, _mm512_loadu_si512( src ) );
 
                 const simd dataLo = _mm512_unpacklo_epi8( data, zero );
                 const simd dataHi = _mm512_unpackhi_epi8( data, zero );
@@ -581,6 +583,8 @@ namespace avx
                      uint32_t nonSimdWidth )
     {
         simd zero = _mm256_setzero_si256();
+        // unpack instructions work within 128-bit lanes so data must be rearranged in advance
+        const simd order = _mm256_setr_epi32( 0, 2, 4, 6, 1, 3, 5, 7 );
 
         const uint32_t width = totalSimdWidth + nonSimdWidth;
 
@@ -590,7 +594,7 @@ namespace avx
             simd * dst = reinterpret_cast<simd *>( outY );
 
             for ( ; src != srcEnd; ++src ) {
-                simd data = _mm256_loadu_si256( src );
+                simd data = _mm256_permutevar8x32_epi32( _mm256_loadu_si256( src ), order );
 
                 const simd dataLo = _mm256_unpacklo_epi8( data, zero );
                 const simd dataHi = _mm256_unpackhi_epi8( data, zero );
-- 
2.43.0


From 3e6ab8ddac005e8784e3a674d37b03a64ca62241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 029/157] fix: AVX and AVX512 ProjectionProfile functions must
 keep the order of columns

---
 src/image_function_simd.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 23a62be..09a8649 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -389,6 +389,8 @@ namespace avx512
         const simd zero = _mm512_setzero_si512();
 
         if ( horizontal ) {
+            // unpack instructions work within 128-bit lanes so data must be rearranged in advance
+            const simd order = _mm512_setr_epi32( 0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15 );
             const uint8_t * imageSimdXEnd = imageStart + totalSimdWidth;
 
             for ( ; imageStart != imageSimdXEnd; imageStart += simdSize, out += simdSize ) {
@@ -404,7 +406,7 @@ namespace avx512
                 for ( ; imageSimdY != imageSimdYEnd; imageSimdY += rowSize ) {
                     const simd * src = reinterpret_cast<const simd *>( imageSimdY );
 
-                    const simd data = _mm512_loadu_si512( src );
+                    const simd data = _mm512_permutexvar_epi32( order, _mm512_loadu_si512( src ) );
 
                     const simd dataLo = _mm512_unpacklo_epi8( data, zero );
                     const simd dataHi = _mm512_unpackhi_epi8( data, zero );
@@ -856,6 +858,8 @@ namespace avx
         const simd zero = _mm256_setzero_si256();
 
         if ( horizontal ) {
+            // unpack instructions work within 128-bit lanes so data must be rearranged in advance
+            const simd order = _mm256_setr_epi32( 0, 2, 4, 6, 1, 3, 5, 7 );
             const uint8_t * imageSimdXEnd = imageStart + totalSimdWidth;
 
             for ( ; imageStart != imageSimdXEnd; imageStart += simdSize, out += simdSize ) {
@@ -871,7 +875,7 @@ namespace avx
                 for ( ; imageSimdY != imageSimdYEnd; imageSimdY += rowSize ) {
                     const simd * src = reinterpret_cast<const simd *>( imageSimdY );
 
-                    const simd data = _mm256_loadu_si256( src );
+                    const simd data = _mm256_permutevar8x32_epi32( _mm256_loadu_si256( src ), order );
 
                     const simd dataLo = _mm256_unpacklo_epi8( data, zero );
                     const simd dataHi = _mm256_unpackhi_epi8( data, zero );
-- 
2.43.0


From 6228244d59a5b248386a3a8921d9a74f88a7fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 030/157] fix: all functions of function table must be set
 while updating the table

---
 src/image_function_helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index 748fd6a..7f2cee6 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -62,9 +62,12 @@ namespace
         SET_FUNCTION( Normalize )
         SET_FUNCTION( ProjectionProfile )
         SET_FUNCTION( Resize )
+        SET_FUNCTION( RgbaToRgb )
         SET_FUNCTION( RgbToBgr )
+        SET_FUNCTION( RgbToRgba )
         SET_FUNCTION( SetPixel )
         SET_FUNCTION( SetPixel2 )
+        SET_FUNCTION( Shift )
         SET_FUNCTION( Split )
         SET_FUNCTION( Subtract )
         SET_FUNCTION( Sum )
-- 
2.43.0


From b6aaca201714a704ec68ccd4a1d378a0f3600a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 031/157] fix: Prewitt and Sobel filters must use pixels beyond
 right and bottom sides of ROI if they exist

---
 src/filtering.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/filtering.cpp b/src/filtering.cpp
index 3d95200..a5cdc23 100644
--- a/src/filtering.cpp
+++ b/src/filtering.cpp
@@ -174,8 +174,8 @@ namespace Image_Function
 
         const uint32_t startXOffset = ( startXIn > 0u ) ? 1u : 0u;
         const uint32_t startYOffset = ( startYIn > 0u ) ? 1u : 0u;
-        const uint32_t endXOffset = ( ( startXIn + width + 1u ) < in.width() ) ? 1u : 0u;
-        const uint32_t endYOffset = ( ( startYIn + height + 1u ) < in.height() ) ? 1u : 0u;
+        const uint32_t endXOffset = ( ( startXIn + width ) < in.width() ) ? 1u : 0u;
+        const uint32_t endYOffset = ( ( startYIn + height ) < in.height() ) ? 1u : 0u;
 
         // Create the map of gradient values
         const uint32_t gradientWidth = width - ( ( ( startXOffset > 0u ) ? 0u : 1u ) + ( ( endXOffset > 0u ) ? 0u : 1u ) );
@@ -282,8 +282,8 @@ namespace Image_Function
 
         const uint32_t startXOffset = ( startXIn > 0u ) ? 1u : 0u;
         const uint32_t startYOffset = ( startYIn > 0u ) ? 1u : 0u;
-        const uint32_t endXOffset = ( ( startXIn + width + 1u ) < in.width() ) ? 1u : 0u;
-        const uint32_t endYOffset = ( ( startYIn + height + 1u ) < in.height() ) ? 1u : 0u;
+        const uint32_t endXOffset = ( ( startXIn + width ) < in.width() ) ? 1u : 0u;
+        const uint32_t endYOffset = ( ( startYIn + height ) < in.height() ) ? 1u : 0u;
 
         // Create the map of gradient values
         const uint32_t gradientWidth = width - ( ( ( startXOffset > 0u ) ? 0u : 1u ) + ( ( endXOffset > 0u ) ? 0u : 1u ) );
-- 
2.43.0


From c1ca8f518130bccdf6558051d5a0ecb8e5c54609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 032/157] fix: Gaussian kernel cannot be created for zero sigma
 or for a kernel bigger than requested size

---
 src/filtering.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filtering.cpp b/src/filtering.cpp
index a5cdc23..b17f671 100644
--- a/src/filtering.cpp
+++ b/src/filtering.cpp
@@ -352,7 +352,7 @@ namespace Image_Function
 
     void GetGaussianKernel( std::vector<float> & filter, uint32_t width, uint32_t height, uint32_t kernelSize, float sigma )
     {
-        if ( width < 3 || height < 3 || kernelSize == 0 || width < ( kernelSize * 2 + 1 ) || height < ( kernelSize * 2 + 1 ) || sigma < 0 )
+        if ( width < 3 || height < 3 || kernelSize == 0 || ( width - 1 ) / 2 < kernelSize || ( height - 1 ) / 2 < kernelSize || !( sigma > 0 ) )
             throw penguinVException( "Incorrect input parameters for Gaussian filter kernel" );
 
         filter.resize( width * height );
-- 
2.43.0


From 89d2cb3ab6d7e6b375c865d130f40c50802f5f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 033/157] fix: ProjectionProfile function of function pool must
 support color images

---
 src/function_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index 8a43caf..529a5ee 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -310,7 +310,7 @@ namespace Function_Pool
             _dataIn.horizontalProjection = horizontal;
             _process( _ProjectionProfile );
 
-            projection.resize( horizontal ? width : height );
+            projection.resize( horizontal ? width * image.colorCount() : height );
             _dataOut.getProjection( projection );
         }
 
-- 
2.43.0


From 6fda14cb4f4c78797fd16b89b04fc2b4c1f75516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 034/157] fix: Normalize function of function pool must support
 color images

---
 src/function_pool.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index 529a5ee..45fe438 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -896,18 +896,20 @@ namespace Function_Pool
     void Normalize( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
         const std::vector<uint32_t> histogram = Function_Pool::Histogram( in, startXIn, startYIn, width, height );
-        if ( histogram.size() != 256u )
-            throw penguinVException( "Histogram size is not equal to 256" );
+        const uint32_t colorCount = in.colorCount();
+        if ( histogram.size() != 256u * colorCount )
+            throw penguinVException( "Histogram size is not equal to 256 for every color channel" );
 
         uint16_t minimum = 255u;
         uint16_t maximum = 0u;
 
-        for ( uint16_t i = 0u; i < 256u; ++i ) {
+        for ( uint32_t i = 0u; i < histogram.size(); ++i ) {
             if ( histogram[i] > 0u ) {
-                if ( maximum < i )
-                    maximum = i;
-                if ( minimum > i )
-                    minimum = i;
+                const uint16_t intensity = static_cast<uint16_t>( i / colorCount );
+                if ( maximum < intensity )
+                    maximum = intensity;
+                if ( minimum > intensity )
+                    minimum = intensity;
             }
         }
 
-- 
2.43.0


From 65a54444e597e28b64792e200c401ffaa682bc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 035/157] fix: Resize function of function pool must return the
 same result regardless of the number of threads

---
 src/function_pool.cpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index 45fe438..040a601 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -35,6 +35,10 @@ namespace Function_Pool
         bool horizontalProjection{ false }; // for ProjectionProfile() function
         bool horizontalFlip{ false };
         bool verticalFlip{ false };
+        uint32_t resizeStartYIn{ 0u }; // for Resize() function
+        uint32_t resizeHeightIn{ 0u }; // for Resize() function
+        uint32_t resizeStartYOut{ 0u }; // for Resize() function
+        uint32_t resizeHeightOut{ 0u }; // for Resize() function
         double coefficientA{ 1.0 }; // for GammaCorrection() function
         double coefficientGamma{ 1.0 }; // for GammaCorrection() function
         std::vector<uint8_t> lookupTable; // for LookupTable() function
@@ -317,7 +321,25 @@ namespace Function_Pool
         void Resize( const Image & in, uint32_t startXIn, uint32_t startYIn, uint32_t widthIn, uint32_t heightIn, Image & out, uint32_t startXOut, uint32_t startYOut,
                      uint32_t widthOut, uint32_t heightOut )
         {
-            _setup( in, startXIn, startYIn, widthIn, heightIn, out, startXOut, startYOut, widthOut, heightOut );
+            _validateTask();
+
+            Image_Function::CheckCommonColorCount( in, out );
+
+            // Output rows are distributed between tasks. Every task has access to whole input area because a position of an input row depends on full sizes of areas
+            const uint32_t taskCount = std::min( heightOut, static_cast<uint32_t>( ThreadPoolMonoid::instance().threadCount() ) );
+            if ( taskCount == 0u )
+                throw penguinVException( "Thread Pool is not initialized." );
+
+            _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, startXOut, startYOut, 1u, heightOut, taskCount ) );
+            _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in, startXIn, startYIn, 1u, heightOut, taskCount ) );
+            std::fill( _infoOut1->width.begin(), _infoOut1->width.end(), widthOut );
+            std::fill( _infoIn1->width.begin(), _infoIn1->width.end(), widthIn );
+
+            _dataIn.resizeStartYIn = startYIn;
+            _dataIn.resizeHeightIn = heightIn;
+            _dataIn.resizeStartYOut = startYOut;
+            _dataIn.resizeHeightOut = heightOut;
+
             _process( _Resize );
         }
 
@@ -488,8 +510,11 @@ namespace Function_Pool
                                              _dataIn.horizontalProjection, _dataOut.projection[taskId] );
                 break;
             case _Resize:
-                penguinV::Resize( _infoIn1->image, _infoIn1->startX[taskId], _infoIn1->startY[taskId], _infoIn1->width[taskId], _infoIn1->height[taskId],
-                                  _infoOut1->image, _infoOut1->startX[taskId], _infoOut1->startY[taskId], _infoOut1->width[taskId], _infoOut1->height[taskId] );
+                for ( uint32_t y = _infoOut1->startY[taskId]; y < _infoOut1->startY[taskId] + _infoOut1->height[taskId]; ++y ) {
+                    const uint64_t rowId = static_cast<uint64_t>( y - _dataIn.resizeStartYOut ) * _dataIn.resizeHeightIn / _dataIn.resizeHeightOut;
+                    penguinV::Resize( _infoIn1->image, _infoIn1->startX[taskId], _dataIn.resizeStartYIn + static_cast<uint32_t>( rowId ), _infoIn1->width[taskId], 1u,
+                                      _infoOut1->image, _infoOut1->startX[taskId], y, _infoOut1->width[taskId], 1u );
+                }
                 break;
             case _RgbToBgr:
                 penguinV::RgbToBgr( _infoIn1->image, _infoIn1->startX[taskId], _infoIn1->startY[taskId], _infoOut1->image, _infoOut1->startX[taskId],
-- 
2.43.0


From 0fb28887054a8230ea06c886717e47a5c536b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 036/157] fix: references to converted images must remain valid
 while other images are being converted

---
 src/penguinv/image_manager.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/penguinv/image_manager.h b/src/penguinv/image_manager.h
index b5fbd0f..ac18c85 100644
--- a/src/penguinv/image_manager.h
+++ b/src/penguinv/image_manager.h
@@ -21,6 +21,7 @@
 #pragma once
 
 #include "../image_buffer.h"
+#include <deque>
 #include <vector>
 
 template <typename _Type>
@@ -95,8 +96,9 @@ private:
     ConvertImage _convertImage;
     std::vector<ConstReferenceOwner<_Type> *> _input;
     std::vector<ReferenceOwner<_Type> *> _output;
-    std::vector<penguinV::ImageTemplate<_Type>> _inputClone;
-    std::vector<penguinV::ImageTemplate<_Type>> _outputClone;
+    // references to these images are given outside so they must remain valid while adding new images
+    std::deque<penguinV::ImageTemplate<_Type>> _inputClone;
+    std::deque<penguinV::ImageTemplate<_Type>> _outputClone;
 
     penguinV::Image _clone( const penguinV::ImageTemplate<_Type> & in )
     {
-- 
2.43.0


From 8b9f4ad3c16457551f8f6681dec0bfd68bdf6412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 037/157] fix: images must be converted before calling a
 function of another image type

---
 src/penguinv/penguinv.cpp | 60 +++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/src/penguinv/penguinv.cpp b/src/penguinv/penguinv.cpp
index c0adb93..3ccde43 100644
--- a/src/penguinv/penguinv.cpp
+++ b/src/penguinv/penguinv.cpp
@@ -94,7 +94,7 @@ namespace penguinV
 
     void Accumulate( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, std::vector<uint32_t> & result )
     {
-        initialize( image, Accumulate ) func( image, x, y, width, height, result );
+        initialize( image, Accumulate ) func( manager( image ), x, y, width, height, result );
     }
 
     Image BitwiseAnd( const Image & in1, const Image & in2 )
@@ -115,7 +115,7 @@ namespace penguinV
     void BitwiseAnd( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                      uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseAnd ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseAnd ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image BitwiseOr( const Image & in1, const Image & in2 )
@@ -136,7 +136,7 @@ namespace penguinV
     void BitwiseOr( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                     uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseOr ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseOr ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image BitwiseXor( const Image & in1, const Image & in2 )
@@ -157,7 +157,7 @@ namespace penguinV
     void BitwiseXor( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                      uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseXor ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseXor ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image ConvertToGrayScale( const Image & in )
@@ -198,7 +198,7 @@ namespace penguinV
 
     void ConvertToRgb( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, ConvertToRgb ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, ConvertToRgb ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     void Copy( const Image & in, Image & out )
@@ -213,7 +213,7 @@ namespace penguinV
 
     void Copy( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Copy ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Copy ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image ExtractChannel( const Image & in, uint8_t channelId )
@@ -234,7 +234,7 @@ namespace penguinV
     void ExtractChannel( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                          uint8_t channelId )
     {
-        initialize( in, ExtractChannel ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, channelId );
+        initialize( in, ExtractChannel ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, channelId );
     }
 
     void Fill( Image & image, uint8_t value )
@@ -244,7 +244,7 @@ namespace penguinV
 
     void Fill( Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, uint8_t value )
     {
-        initialize( image, Fill ) func( image, x, y, width, height, value );
+        initialize( image, Fill ) func( manager( image ), x, y, width, height, value );
     }
 
     Image Flip( const Image & in, bool horizontal, bool vertical )
@@ -265,7 +265,7 @@ namespace penguinV
     void Flip( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                bool horizontal, bool vertical )
     {
-        initialize( in, Flip ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, horizontal, vertical );
+        initialize( in, Flip ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, horizontal, vertical );
     }
 
     Image GammaCorrection( const Image & in, double a, double gamma )
@@ -286,13 +286,13 @@ namespace penguinV
     void GammaCorrection( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                           double a, double gamma )
     {
-        initialize( in, GammaCorrection ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, a, gamma );
+        initialize( in, GammaCorrection ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, a, gamma );
     }
 
     uint8_t GetPixel( const Image & image, uint32_t x, uint32_t y )
     {
         initialize( image, GetPixel );
-        return func( image, x, y );
+        return func( manager( image ), x, y );
     }
 
     uint8_t GetThreshold( const std::vector<uint32_t> & histogram )
@@ -337,7 +337,7 @@ namespace penguinV
 
     void Invert( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Invert ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Invert ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     bool IsEqual( const Image & in1, const Image & in2 )
@@ -348,7 +348,7 @@ namespace penguinV
     bool IsEqual( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, uint32_t width, uint32_t height )
     {
         initialize( in1, IsEqual );
-        return func( in1, startX1, startY1, in2, startX2, startY2, width, height );
+        return func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, width, height );
     }
 
     Image LookupTable( const Image & in, const std::vector<uint8_t> & table )
@@ -369,7 +369,7 @@ namespace penguinV
     void LookupTable( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                       const std::vector<uint8_t> & table )
     {
-        initialize( in, LookupTable ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, table );
+        initialize( in, LookupTable ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, table );
     }
 
     Image Maximum( const Image & in1, const Image & in2 )
@@ -390,7 +390,7 @@ namespace penguinV
     void Maximum( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                   uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Maximum ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Maximum ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image Merge( const Image & in1, const Image & in2, const Image & in3 )
@@ -412,7 +412,9 @@ namespace penguinV
     void Merge( const Image & in1, uint32_t startXIn1, uint32_t startYIn1, const Image & in2, uint32_t startXIn2, uint32_t startYIn2, const Image & in3,
                 uint32_t startXIn3, uint32_t startYIn3, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Merge ) func( in1, startXIn1, startYIn1, in2, startXIn2, startYIn2, in3, startXIn3, startYIn3, out, startXOut, startYOut, width, height );
+        initialize( in1, Merge )
+            func( manager( in1 ), startXIn1, startYIn1, manager( in2 ), startXIn2, startYIn2, manager( in3 ), startXIn3, startYIn3,
+                   manager( out ), startXOut, startYOut, width, height );
     }
 
     Image Minimum( const Image & in1, const Image & in2 )
@@ -433,7 +435,7 @@ namespace penguinV
     void Minimum( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                   uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Minimum ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Minimum ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image Normalize( const Image & in )
@@ -453,7 +455,7 @@ namespace penguinV
 
     void Normalize( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Normalize ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Normalize ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     std::vector<uint32_t> ProjectionProfile( const Image & image, bool horizontal )
@@ -473,7 +475,7 @@ namespace penguinV
 
     void ProjectionProfile( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, bool horizontal, std::vector<uint32_t> & projection )
     {
-        initialize( image, ProjectionProfile ) func( image, x, y, width, height, horizontal, projection );
+        initialize( image, ProjectionProfile ) func( manager( image ), x, y, width, height, horizontal, projection );
     }
 
     Image Resize( const Image & in, uint32_t widthOut, uint32_t heightOut )
@@ -494,7 +496,7 @@ namespace penguinV
     void Resize( const Image & in, uint32_t startXIn, uint32_t startYIn, uint32_t widthIn, uint32_t heightIn, Image & out, uint32_t startXOut, uint32_t startYOut,
                  uint32_t widthOut, uint32_t heightOut )
     {
-        initialize( in, Resize ) func( in, startXIn, startYIn, widthIn, heightIn, out, startXOut, startYOut, widthOut, heightOut );
+        initialize( in, Resize ) func( manager( in ), startXIn, startYIn, widthIn, heightIn, manager( out ), startXOut, startYOut, widthOut, heightOut );
     }
 
     Image RgbToBgr( const Image & in )
@@ -514,17 +516,17 @@ namespace penguinV
 
     void RgbToBgr( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, RgbToBgr ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, RgbToBgr ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     void SetPixel( Image & image, uint32_t x, uint32_t y, uint8_t value )
     {
-        initialize( image, SetPixel ) func( image, x, y, value );
+        initialize( image, SetPixel ) func( manager( image ), x, y, value );
     }
 
     void SetPixel( Image & image, const std::vector<uint32_t> & X, const std::vector<uint32_t> & Y, uint8_t value )
     {
-        initialize( image, SetPixel2 ) func( image, X, Y, value );
+        initialize( image, SetPixel2 ) func( manager( image ), X, Y, value );
     }
 
     void Split( const Image & in, Image & out1, Image & out2, Image & out3 )
@@ -535,7 +537,9 @@ namespace penguinV
     void Split( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out1, uint32_t startXOut1, uint32_t startYOut1, Image & out2, uint32_t startXOut2,
                 uint32_t startYOut2, Image & out3, uint32_t startXOut3, uint32_t startYOut3, uint32_t width, uint32_t height )
     {
-        initialize( in, Split ) func( in, startXIn, startYIn, out1, startXOut1, startYOut1, out2, startXOut2, startYOut2, out3, startXOut3, startYOut3, width, height );
+        initialize( in, Split )
+            func( manager( in ), startXIn, startYIn, manager( out1 ), startXOut1, startYOut1, manager( out2 ), startXOut2, startYOut2,
+                   manager( out3 ), startXOut3, startYOut3, width, height );
     }
 
     Image Subtract( const Image & in1, const Image & in2 )
@@ -556,7 +560,7 @@ namespace penguinV
     void Subtract( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                    uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Subtract ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Subtract ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     uint32_t Sum( const Image & image )
@@ -567,7 +571,7 @@ namespace penguinV
     uint32_t Sum( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height )
     {
         initialize( image, Sum );
-        return func( image, x, y, width, height );
+        return func( manager( image ), x, y, width, height );
     }
 
     Image Threshold( const Image & in, uint8_t threshold )
@@ -609,7 +613,7 @@ namespace penguinV
     void Threshold( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                     uint8_t minThreshold, uint8_t maxThreshold )
     {
-        initialize( in, Threshold2 ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, minThreshold, maxThreshold );
+        initialize( in, Threshold2 ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, minThreshold, maxThreshold );
     }
 
     Image Transpose( const Image & in )
@@ -629,6 +633,6 @@ namespace penguinV
 
     void Transpose( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Transpose ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Transpose ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 }
-- 
2.43.0


From e9e54f9554e9e8095166ea625cadb8e05a8e7d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 038/157] fix: AVX512 instruction set is supported only if all
 of its parts are supported

---
 src/penguinv/cpu_id_unix.h    | 4 +++-
 src/penguinv/cpu_id_windows.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/penguinv/cpu_id_unix.h b/src/penguinv/cpu_id_unix.h
index 54f6246..7038735 100644
--- a/src/penguinv/cpu_id_unix.h
+++ b/src/penguinv/cpu_id_unix.h
@@ -65,7 +65,9 @@ struct CpuInformation
 
         if ( id >= 0x00000007 ) {
             __cpuid_count( 0x00000007, 0, info[0], info[1], info[2], info[3] );
-            return ( info[1] & ( ( (int)1 << 31 ) | ( (int)1 << 30 ) | ( (int)1 << 28 ) | ( (int)1 << 17 ) | ( (int)1 << 16 ) ) ) != 0;
+            // all of these instruction sets must be supported
+            const int flags = ( (int)1 << 31 ) | ( (int)1 << 30 ) | ( (int)1 << 28 ) | ( (int)1 << 17 ) | ( (int)1 << 16 );
+            return ( info[1] & flags ) == flags;
         }
 #endif
         return false;
diff --git a/src/penguinv/cpu_id_windows.h b/src/penguinv/cpu_id_windows.h
index e4abf36..f135834 100644
--- a/src/penguinv/cpu_id_windows.h
+++ b/src/penguinv/cpu_id_windows.h
@@ -60,7 +60,9 @@ struct CpuInformation
 
         if ( id >= 0x00000007 ) {
             __cpuidex( info, 0x00000007, 0 );
-            return ( info[1] & ( ( (int)1 << 31 ) | ( (int)1 << 30 ) | ( (int)1 << 28 ) | ( (int)1 << 17 ) | ( (int)1 << 16 ) ) ) != 0;
+            // all of these instruction sets must be supported
+            const int flags = ( (int)1 << 31 ) | ( (int)1 << 30 ) | ( (int)1 << 28 ) | ( (int)1 << 17 ) | ( (int)1 << 16 );
+            return ( info[1] & flags ) == flags;
         }
 
         return false;
-- 
2.43.0


From 6da37549bfae6e4e39a8b9ee6f6cdc2a68b91c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 039/157] fix: Copy and Fill functions for whole images must
 behave the same way as functions for ROI

---
 src/penguinv/penguinv.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/penguinv/penguinv.cpp b/src/penguinv/penguinv.cpp
index 3ccde43..3757a60 100644
--- a/src/penguinv/penguinv.cpp
+++ b/src/penguinv/penguinv.cpp
@@ -20,6 +20,7 @@
 
 #include "penguinv.h"
 #include "../image_function_helper.h"
+#include "../parameter_validation.h"
 #include "image_manager.h"
 
 namespace
@@ -203,7 +204,9 @@ namespace penguinV
 
     void Copy( const Image & in, Image & out )
     {
-        out = Image_Function_Helper::Copy( Copy, in, 0, 0, in.width(), in.height() );
+        Image_Function::ValidateImageParameters( in, out );
+
+        Copy( in, 0, 0, out, 0, 0, out.width(), out.height() );
     }
 
     Image Copy( const Image & in, uint32_t startXIn, uint32_t startYIn, uint32_t width, uint32_t height )
@@ -239,7 +242,9 @@ namespace penguinV
 
     void Fill( Image & image, uint8_t value )
     {
-        image.fill( value );
+        Image_Function::ValidateImageParameters( image );
+
+        Fill( image, 0, 0, image.width(), image.height(), value );
     }
 
     void Fill( Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, uint8_t value )
-- 
2.43.0


From 868f764b539d8e46924a78e613754db9c8f5f972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 040/157] fix: Transpose function must reject output image of
 incorrect size

---
 src/image_function_helper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index 7f2cee6..024b124 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -1012,6 +1012,8 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
         Image_Function::ValidateImageParameters( out );
+        if ( in.width() != out.height() || in.height() != out.width() )
+            throw penguinVException( "Bad input parameters in image function" );
 
         transpose( in, 0, 0, out, 0, 0, in.width(), in.height() );
     }
-- 
2.43.0


From a6976af6396056c537003fbf28a63fae05398deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 041/157] fix: Flip function of function pool must verify
 images before copying them

---
 src/function_pool.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index 040a601..d4b15df 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -734,14 +734,14 @@ namespace Function_Pool
     void Flip( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                bool horizontal, bool vertical )
     {
+        Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        Image_Function::VerifyGrayScaleImage( in, out );
+
         if ( !horizontal && !vertical ) {
             penguinV::Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
             return;
         }
 
-        Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
-        Image_Function::VerifyGrayScaleImage( in, out );
-
         FunctionTask().Flip( in, startXIn, startYIn, out, startXOut, startYOut, width, height, horizontal, vertical );
     }
 
-- 
2.43.0


From b02965f00344e5c929d0db8188a13e36816527c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 042/157] fix: SIMD Threshold function must reject incorrect
 threshold range

---
 src/image_function_simd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 09a8649..3c84c49 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -3231,6 +3231,9 @@ namespace simd
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyGrayScaleImage( in, out );
 
+        if ( minThreshold > maxThreshold )
+            throw penguinVException( "Minimum threshold value is bigger than maximum threshold value" );
+
         Image_Function::OptimiseRoi( width, height, in, out );
 
         const uint32_t rowSizeIn = in.rowSize();
-- 
2.43.0


From 2f0ef82dba1d0f09fbdb6bd13e98313de7b9425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 043/157] fix: keep the content of an image which is copied to
 itself

---
 src/image_buffer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index 6ed23b0..aee4f9b 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -211,6 +211,10 @@ namespace penguinV
 
         void copy( const ImageTemplate & image )
         {
+            if ( this == &image ) {
+                return;
+            }
+
             if ( _deviceType != image._deviceType ) {
                 throw penguinVException( "Cannot copy image of one type to another type." );
             }
-- 
2.43.0


From 85da7ee62e7e9b4d006d08beca59563d70526539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 044/157] fix: refuse image sizes which do not fit row size
 type

---
 src/image_buffer.h | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index aee4f9b..bcdae80 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -83,15 +83,13 @@ namespace penguinV
         void resize( uint32_t width_, uint32_t height_ )
         {
             if ( width_ > 0 && height_ > 0 && ( width_ != _width || height_ != _height ) ) {
+                const uint32_t rowSize_ = _validRowSize( width_, colorCount(), alignment() );
+
                 clear();
 
                 _width = width_;
                 _height = height_;
-
-                _rowSize = width() * colorCount();
-                if ( _rowSize % alignment() != 0 ) {
-                    _rowSize = ( _rowSize / alignment() + 1 ) * alignment();
-                }
+                _rowSize = rowSize_;
 
                 _data = _allocate( static_cast<size_t>( _height ) * static_cast<size_t>( _rowSize ) );
             }
@@ -125,6 +123,8 @@ namespace penguinV
                 throw penguinVException( "Invalid image assignment parameters" );
             }
 
+            const uint32_t rowSize_ = _validRowSize( width_, colorCount_, alignment_ );
+
             clear();
 
             _width = width_;
@@ -135,10 +135,7 @@ namespace penguinV
 
             _data = data_;
 
-            _rowSize = width() * colorCount();
-            if ( _rowSize % alignment() != 0 ) {
-                _rowSize = ( _rowSize / alignment() + 1 ) * alignment();
-            }
+            _rowSize = rowSize_;
         }
 
         bool empty() const
@@ -238,12 +235,9 @@ namespace penguinV
         bool mutate( uint32_t width_, uint32_t height_, uint8_t colorCount_, uint8_t alignment_ )
         {
             if ( colorCount_ > 0 && alignment_ > 0 ) {
-                uint32_t rowSize_ = width_ * colorCount_;
-                if ( rowSize_ % alignment_ != 0 ) {
-                    rowSize_ = ( rowSize_ / alignment_ + 1 ) * alignment_;
-                }
+                const uint64_t rowSize_ = _calculateRowSize( width_, colorCount_, alignment_ );
 
-                if ( rowSize_ * height_ != _rowSize * _height ) {
+                if ( rowSize_ > UINT32_MAX || rowSize_ * height_ != static_cast<uint64_t>( _rowSize ) * _height ) {
                     return false;
                 }
 
@@ -251,7 +245,7 @@ namespace penguinV
                 _height = height_;
                 _colorChannelCount = colorCount_;
                 _alignment = alignment_;
-                _rowSize = rowSize_;
+                _rowSize = static_cast<uint32_t>( rowSize_ );
 
                 return true;
             }
@@ -290,6 +284,23 @@ namespace penguinV
         }
 
     private:
+        static uint64_t _calculateRowSize( const uint32_t width_, const uint8_t colorCount_, const uint8_t alignment_ )
+        {
+            const uint64_t rowSize_ = static_cast<uint64_t>( width_ ) * colorCount_;
+
+            return ( rowSize_ + alignment_ - 1u ) / alignment_ * alignment_;
+        }
+
+        static uint32_t _validRowSize( const uint32_t width_, const uint8_t colorCount_, const uint8_t alignment_ )
+        {
+            const uint64_t rowSize_ = _calculateRowSize( width_, colorCount_, alignment_ );
+            if ( rowSize_ > UINT32_MAX ) {
+                throw penguinVException( "Image row size is too big" );
+            }
+
+            return static_cast<uint32_t>( rowSize_ );
+        }
+
         TColorDepth * _allocate( size_t size ) const
         {
             return FunctionFacade::instance().allocate( _deviceType )( size );
-- 
2.43.0


From 3f2ccc7059a1dd28d933a3de37080d6eb769e680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 045/157] fix: leave an image empty when its memory allocation
 failed

---
 src/image_buffer.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index bcdae80..547d1ac 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -87,11 +87,11 @@ namespace penguinV
 
                 clear();
 
+                _data = _allocate( static_cast<size_t>( height_ ) * static_cast<size_t>( rowSize_ ) );
+
                 _width = width_;
                 _height = height_;
                 _rowSize = rowSize_;
-
-                _data = _allocate( static_cast<size_t>( _height ) * static_cast<size_t>( _rowSize ) );
             }
         }
 
@@ -218,6 +218,10 @@ namespace penguinV
 
             clear();
 
+            if ( image._data != nullptr ) {
+                _data = _allocate( static_cast<size_t>( image._height ) * static_cast<size_t>( image._rowSize ) );
+            }
+
             _width = image._width;
             _height = image._height;
 
@@ -226,8 +230,6 @@ namespace penguinV
             _alignment = image._alignment;
 
             if ( image._data != nullptr ) {
-                _data = _allocate( static_cast<size_t>( _height ) * static_cast<size_t>( _rowSize ) );
-
                 _copy( _data, image._data, sizeof( TColorDepth ) * _height * _rowSize );
             }
         }
-- 
2.43.0


From 233e8608cf16641f8c1c13193b76723a7aeb27d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 046/157] fix: do not serve a request whose size in bytes
 overflows from the preallocated memory

---
 src/memory/cpu_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 33eb783..6036eb9 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -57,7 +57,7 @@ namespace cpu_Memory
             if ( _data != nullptr ) {
                 const size_t overallSize = size * sizeof( _DataType );
 
-                if ( overallSize < _size ) {
+                if ( size < _size && overallSize < _size ) {
                     const uint8_t level = _getAllocationLevel( overallSize );
 
                     if ( _split( level ) ) {
-- 
2.43.0


From 8aaa4edf6142fc6e91b76576221b440dced4b3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 047/157] fix: release the lock of CPU memory allocator when an
 exception is thrown

---
 src/memory/cpu_memory.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 6036eb9..a41e399 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -53,7 +53,7 @@ namespace cpu_Memory
         template <typename _DataType = uint8_t>
         _DataType * allocate( size_t size = 1 )
         {
-            _lock.lock();
+            std::unique_lock<std::mutex> guard( _lock );
             if ( _data != nullptr ) {
                 const size_t overallSize = size * sizeof( _DataType );
 
@@ -65,12 +65,11 @@ namespace cpu_Memory
                         _DataType * address = reinterpret_cast<_DataType *>( _alignedData + *chunk );
                         _allocatedChunk.insert( std::pair<size_t, uint8_t>( *chunk, level ) );
                         _freeChunk[level].erase( chunk );
-                        _lock.unlock();
                         return address;
                     }
                 }
             }
-            _lock.unlock();
+            guard.unlock();
 
             // if no space in preallocated memory, allocate as usual memory
             return new _DataType[size];
@@ -110,7 +109,7 @@ namespace cpu_Memory
         // true memory allocation on CPU
         virtual void _allocate( size_t size )
         {
-            _lock.lock();
+            std::lock_guard<std::mutex> guard( _lock );
             if ( _size != size && size > 0 ) {
                 if ( !_allocatedChunk.empty() ) {
                     throw std::logic_error( "Cannot free a memory on CPU. Not all objects were previously deallocated from allocator." );
@@ -125,7 +124,6 @@ namespace cpu_Memory
 
                 _size = size;
             }
-            _lock.unlock();
         }
 
         // true memory deallocation on CPU
-- 
2.43.0


From 56b061864eb5434aaa319472f47fc7daf8880928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 048/157] fix: merge only halves of the same chunk in memory
 allocator

---
 src/memory/memory_allocator.h | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/src/memory/memory_allocator.h b/src/memory/memory_allocator.h
index d59dba1..d0f301c 100644
--- a/src/memory/memory_allocator.h
+++ b/src/memory/memory_allocator.h
@@ -130,32 +130,17 @@ protected:
         size_t memorySize = static_cast<size_t>( 1 ) << from;
 
         for ( std::vector<std::set<size_t>>::iterator level = _freeChunk.begin() + from; level < _freeChunk.end(); ++level, memorySize <<= 1 ) {
-            std::set<size_t>::iterator pos = level->find( offset );
-            std::set<size_t>::iterator neighbour = pos;
-            ++neighbour;
-
-            if ( neighbour != level->end() ) {
-                if ( *( neighbour ) - *( pos ) == memorySize ) {
-                    offset = *pos;
-                    ( level + 1 )->insert( offset );
-                    level->erase( pos, ++neighbour );
-                    continue;
-                }
+            // only two halves of a chunk which was split before can be merged
+            std::set<size_t>::iterator neighbour = level->find( offset ^ memorySize );
+            if ( neighbour == level->end() ) {
+                return;
             }
 
-            if ( pos != level->begin() ) {
-                neighbour = pos;
-                --neighbour;
+            level->erase( neighbour );
+            level->erase( offset );
 
-                if ( *( pos ) - *( neighbour ) == memorySize ) {
-                    offset = *neighbour;
-                    ( level + 1 )->insert( offset );
-                    level->erase( neighbour, ++pos );
-                    continue;
-                }
-            }
-
-            return;
+            offset &= ~memorySize;
+            ( level + 1 )->insert( offset );
         }
     }
 
-- 
2.43.0


From 530526c5ffc4732eb9cc41bdd2638fe7fb5e7966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 049/157] fix: keep free chunks of memory allocator disjoint
 when splitting fails

---
 src/memory/memory_allocator.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/memory/memory_allocator.h b/src/memory/memory_allocator.h
index d0f301c..d7addfa 100644
--- a/src/memory/memory_allocator.h
+++ b/src/memory/memory_allocator.h
@@ -116,7 +116,15 @@ protected:
             for ( ; startLevel > from; --startLevel, memorySize >>= 1 ) {
                 const size_t previousLevelValue = *_freeChunk[startLevel].begin();
                 _freeChunk[startLevel - 1u].insert( previousLevelValue );
-                _freeChunk[startLevel - 1u].insert( previousLevelValue + memorySize );
+
+                try {
+                    _freeChunk[startLevel - 1u].insert( previousLevelValue + memorySize );
+                }
+                catch ( ... ) {
+                    _freeChunk[startLevel - 1u].erase( previousLevelValue );
+                    throw;
+                }
+
                 _freeChunk[startLevel].erase( _freeChunk[startLevel].begin() );
             }
         }
-- 
2.43.0


From 1da0c706decf0ecaba06558cc61775447e15a0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 050/157] fix: refuse to reserve a memory size which overflows
 with alignment

---
 src/memory/cpu_memory.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index a41e399..7792dc0 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -23,6 +23,7 @@
 #include "memory_allocator.h"
 #include <map>
 #include <mutex>
+#include <new>
 
 namespace cpu_Memory
 {
@@ -118,6 +119,10 @@ namespace cpu_Memory
                 _free();
 
                 const size_t alignment = 32u; // AVX alignment requirement
+                if ( size + alignment < size ) {
+                    throw std::bad_alloc();
+                }
+
                 _data = new uint8_t[size + alignment];
                 const std::uintptr_t dataAddress = reinterpret_cast<std::uintptr_t>( _data );
                 _alignedData = ( ( dataAddress % alignment ) == 0 ) ? _data : _data + ( alignment - ( dataAddress % alignment ) );
-- 
2.43.0


From 382561f5d5072ab9de030591b6663c8865ac2527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 051/157] fix: release memory of CPU memory allocator without
 throwing and without keeping the lock

---
 src/memory/cpu_memory.h       | 18 ++++++++++++------
 src/memory/memory_allocator.h |  3 ++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 7792dc0..2b6fe4c 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -81,19 +81,25 @@ namespace cpu_Memory
         template <typename _DataType>
         void free( _DataType * address )
         {
-            _lock.lock();
+            std::unique_lock<std::mutex> guard( _lock );
             if ( _data != nullptr && reinterpret_cast<uint8_t *>( address ) >= _alignedData ) {
                 auto pos = _allocatedChunk.find( static_cast<size_t>( reinterpret_cast<uint8_t *>( address ) - _alignedData ) );
 
                 if ( pos != _allocatedChunk.end() ) {
-                    _freeChunk[pos->second].insert( pos->first );
-                    _merge( pos->first, pos->second );
-                    _allocatedChunk.erase( pos );
-                    _lock.unlock();
+                    const std::pair<size_t, uint8_t> chunk = *pos;
+
+                    // releasing memory must not throw: without heap memory the chunk stays in use or unmerged
+                    try {
+                        _freeChunk[chunk.second].insert( chunk.first );
+                        _allocatedChunk.erase( pos );
+                        _merge( chunk.first, chunk.second );
+                    }
+                    catch ( const std::bad_alloc & ) {
+                    }
                     return;
                 }
             }
-            _lock.unlock();
+            guard.unlock();
 
             delete[] address;
         }
diff --git a/src/memory/memory_allocator.h b/src/memory/memory_allocator.h
index d7addfa..68d1b46 100644
--- a/src/memory/memory_allocator.h
+++ b/src/memory/memory_allocator.h
@@ -144,11 +144,12 @@ protected:
                 return;
             }
 
+            ( level + 1 )->insert( offset & ~memorySize );
+
             level->erase( neighbour );
             level->erase( offset );
 
             offset &= ~memorySize;
-            ( level + 1 )->insert( offset );
         }
     }
 
-- 
2.43.0


From 6e4a8e7364f7cf69c531959d2b62d40322344e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 052/157] fix: do not copy images during parameter validation,
 other threads may be writing into them

---
 src/parameter_validation.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parameter_validation.h b/src/parameter_validation.h
index 154959d..6e1a2d0 100644
--- a/src/parameter_validation.h
+++ b/src/parameter_validation.h
@@ -64,7 +64,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void VerifyRGBImage( const TImage & image, Args... args )
+    void VerifyRGBImage( const TImage & image, const Args &... args )
     {
         VerifyRGBImage( image );
         VerifyRGBImage( args... );
@@ -78,7 +78,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void VerifyGrayScaleImage( const TImage & image, Args... args )
+    void VerifyGrayScaleImage( const TImage & image, const Args &... args )
     {
         VerifyGrayScaleImage( image );
         VerifyGrayScaleImage( args... );
@@ -100,7 +100,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void ValidateImageParameters( const TImage & image1, const TImage & image2, Args... args )
+    void ValidateImageParameters( const TImage & image1, const TImage & image2, const Args &... args )
     {
         ValidateImageParameters( image1, image2 );
         ValidateImageParameters( image2, args... );
@@ -113,7 +113,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    std::pair<uint32_t, uint32_t> ExtractRoiSize( const TImage &, uint32_t, uint32_t, Args... args )
+    std::pair<uint32_t, uint32_t> ExtractRoiSize( const TImage &, uint32_t, uint32_t, const Args &... args )
     {
         return ExtractRoiSize( args... );
     }
@@ -127,7 +127,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void ValidateImageParameters( const TImage & image1, uint32_t startX1, uint32_t startY1, Args... args )
+    void ValidateImageParameters( const TImage & image1, uint32_t startX1, uint32_t startY1, const Args &... args )
     {
         const std::pair<uint32_t, uint32_t> & dimensions = ExtractRoiSize( args... );
 
@@ -142,7 +142,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    bool IsFullImageRow( uint32_t width, const TImage & image, Args... args )
+    bool IsFullImageRow( uint32_t width, const TImage & image, const Args &... args )
     {
         if ( !IsFullImageRow( width, image ) )
             return false;
@@ -151,7 +151,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void OptimiseRoi( uint32_t & width, uint32_t & height, const TImage & image, Args... args )
+    void OptimiseRoi( uint32_t & width, uint32_t & height, const TImage & image, const Args &... args )
     {
         if ( IsFullImageRow( width, image, args... ) && ( width < ( std::numeric_limits<uint32_t>::max() / height ) ) ) {
             width = width * height;
-- 
2.43.0


From 6d60dffa30071c9322501f3887a48e271c793a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 053/157] fix: do not restore an output image which could not
 be converted

---
 src/penguinv/image_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/penguinv/image_manager.h b/src/penguinv/image_manager.h
index ac18c85..830a2fa 100644
--- a/src/penguinv/image_manager.h
+++ b/src/penguinv/image_manager.h
@@ -81,8 +81,8 @@ public:
     penguinV::ImageTemplate<_Type> & operator()( penguinV::ImageTemplate<_Type> & image )
     {
         if ( image.type() != _type ) {
-            _output.push_back( new ReferenceOwner<_Type>( image ) );
             _outputClone.push_back( _clone( image ) );
+            _output.push_back( new ReferenceOwner<_Type>( image ) );
             return _outputClone.back();
         }
         else {
-- 
2.43.0


From 6369eba6a57d408fd4a36ed104b20c69f504a8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 054/157] fix: report an output image which cannot be converted
 to its original type instead of terminating

---
 src/penguinv/image_manager.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/penguinv/image_manager.h b/src/penguinv/image_manager.h
index 830a2fa..57e68f4 100644
--- a/src/penguinv/image_manager.h
+++ b/src/penguinv/image_manager.h
@@ -22,6 +22,7 @@
 
 #include "../image_buffer.h"
 #include <deque>
+#include <exception>
 #include <vector>
 
 template <typename _Type>
@@ -55,16 +56,27 @@ public:
         , _convertImage( convertImage )
     {}
 
-    ~ImageManager()
+    // the destructor throws an exception if an output image cannot be converted to its original type
+    ~ImageManager() noexcept( false )
     {
         for ( typename std::vector<ConstReferenceOwner<_Type> *>::iterator data = _input.begin(); data != _input.end(); ++data )
             delete *data;
 
+        bool restored = true;
+
         for ( size_t i = 0u; i < _output.size(); ++i ) {
-            _restore( _outputClone[i], _output[i]->data );
+            try {
+                _restore( _outputClone[i], _output[i]->data );
+            }
+            catch ( ... ) {
+                restored = false;
+            }
 
             delete _output[i];
         }
+
+        if ( !restored && !std::uncaught_exception() )
+            throw penguinVException( "Cannot convert an output image to its original type" );
     }
 
     const penguinV::Image & operator()( const penguinV::ImageTemplate<_Type> & image )
-- 
2.43.0


From 339265d72f943f9bc772de93c4ac0fcac22bb70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 055/157] fix: take the end point of the longest blob chord
 from its Y coordinate

---
 src/blob_detection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index a9d6e3a..a2c5926 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -64,7 +64,7 @@ namespace
                     startPoint.y = *y;
 
                     endPoint.x = *xx;
-                    endPoint.y = *xx;
+                    endPoint.y = *yy;
                 }
             }
         }
-- 
2.43.0


From ed7b9268a94b4d21130d9ac1a6498a23c9faf735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 056/157] fix: calculate blob chord length without integer
 overflow

---
 src/blob_detection.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index a2c5926..41e4d3f 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -47,15 +47,16 @@ namespace
         auto y = contourY.cbegin();
         auto end = contourX.cend();
 
-        int32_t maximumDistance = 0;
+        int64_t maximumDistance = 0;
 
         for ( ; x != ( end - 1 ); ++x, ++y ) {
             auto xx = x + 1;
             auto yy = y + 1;
 
             for ( ; xx != end; ++xx, ++yy ) {
-                const int32_t distance
-                    = static_cast<int32_t>( *x - *xx ) * static_cast<int32_t>( *x - *xx ) + static_cast<int32_t>( *y - *yy ) * static_cast<int32_t>( *y - *yy );
+                const int64_t distanceX = static_cast<int64_t>( *x ) - static_cast<int64_t>( *xx );
+                const int64_t distanceY = static_cast<int64_t>( *y ) - static_cast<int64_t>( *yy );
+                const int64_t distance = distanceX * distanceX + distanceY * distanceY;
 
                 if ( maximumDistance < distance ) {
                     maximumDistance = distance;
-- 
2.43.0


From a4165577f5a1bbd5e4f5f093b1b353ea3418671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 057/157] fix: sum up blob point coordinates without integer
 overflow

---
 src/blob_detection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index 41e4d3f..ca7b3a0 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -91,8 +91,8 @@ namespace Blob_Detection
     void BlobInfo::_getCenter()
     {
         if ( !_center.found && !_pointX.empty() && !_pointY.empty() ) {
-            _center.value.x = static_cast<double>( std::accumulate( _pointX.begin(), _pointX.end(), 0 ) ) / static_cast<double>( size() );
-            _center.value.y = static_cast<double>( std::accumulate( _pointY.begin(), _pointY.end(), 0 ) ) / static_cast<double>( size() );
+            _center.value.x = static_cast<double>( std::accumulate( _pointX.begin(), _pointX.end(), static_cast<uint64_t>( 0 ) ) ) / static_cast<double>( size() );
+            _center.value.y = static_cast<double>( std::accumulate( _pointY.begin(), _pointY.end(), static_cast<uint64_t>( 0 ) ) ) / static_cast<double>( size() );
 
             _center.found = true;
         }
-- 
2.43.0


From 2c01c106127ebf7a2a3b568b7232dffcbe3a6fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 058/157] fix: do not subtract unsigned coordinates below zero
 in blob elongation

---
 src/blob_detection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index ca7b3a0..4cea3e1 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -127,7 +127,8 @@ namespace Blob_Detection
                 PointBase2D<uint32_t> startPoint;
                 PointBase2D<uint32_t> endPoint;
                 const double length = getLengthFromCountour( _contourX, _contourY, startPoint, endPoint );
-                const double angle = -atan2( static_cast<double>( endPoint.y - startPoint.y ), static_cast<double>( endPoint.x - startPoint.x ) );
+                const double angle = -atan2( static_cast<double>( endPoint.y ) - static_cast<double>( startPoint.y ),
+                                             static_cast<double>( endPoint.x ) - static_cast<double>( startPoint.x ) );
 
                 const double _cos = cos( angle );
                 const double _sin = sin( angle );
@@ -139,7 +140,7 @@ namespace Blob_Detection
                 auto endRotated = _contourX.end();
 
                 for ( ; xRotated != endRotated; ++xRotated, ++yRotated ) {
-                    ( *yRotated ) = ( *xRotated - startPoint.x ) * _sin + ( *yRotated - startPoint.y ) * _cos;
+                    ( *yRotated ) = ( static_cast<double>( *xRotated ) - static_cast<double>( startPoint.x ) ) * _sin + ( *yRotated - startPoint.y ) * _cos;
                 }
 
                 double height = *( std::max_element( contourYTemp.begin(), contourYTemp.end() ) ) - *( std::min_element( contourYTemp.begin(), contourYTemp.end() ) );
-- 
2.43.0


From 1f925dd54a0ff324a38327011ee107d4f8205ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 059/157] fix: do not read outside of a line for huge offsets
 of contrast verification in edge detection

---
 src/edge_detection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edge_detection.cpp b/src/edge_detection.cpp
index 03c3ac4..5e0a6ec 100644
--- a/src/edge_detection.cpp
+++ b/src/edge_detection.cpp
@@ -87,7 +87,7 @@ namespace
             return false;
         }
 
-        if ( checkContrast && leftSideContrastCheck <= position && ( rightSideContrastCheck + position ) < size ) {
+        if ( checkContrast && leftSideContrastCheck <= position && rightSideContrastCheck < size - position ) {
             const uint32_t blackContrastEnd = position;
             const uint32_t whiteContrastStart = position + 1;
 
-- 
2.43.0


From 516027a95840a2e99eeaae63bb494805c7e0cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 060/157] fix: do not read outside of an image when edge
 detection groups more lines than the region has

---
 src/edge_detection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/edge_detection.cpp b/src/edge_detection.cpp
index 5e0a6ec..59930cc 100644
--- a/src/edge_detection.cpp
+++ b/src/edge_detection.cpp
@@ -268,6 +268,10 @@ namespace
             return;
         }
 
+        if ( edgeParameter.groupFactor > ( horizontalEdgeDetectionBase ? height : width ) ) {
+            return; // there is no complete group
+        }
+
         const uint32_t rowSize = image.rowSize();
 
         if ( horizontalEdgeDetectionBase ) {
-- 
2.43.0


From bd8358786c38c7e19be43f79494c29db4eda6bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 061/157] fix: transform the dimensions of FFT data in the
 order they are stored

---
 src/fft.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index 24cf13b..f1e7f63 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -202,7 +202,7 @@ namespace FFT
 
     void FFTExecutor::_makePlans()
     {
-        const int dims[2] = { static_cast<int>( _width ), static_cast<int>( _height ) };
+        const int dims[2] = { static_cast<int>( _height ), static_cast<int>( _width ) };
         _planDirect = kiss_fftnd_alloc( dims, 2, false, 0, 0 );
         _planInverse = kiss_fftnd_alloc( dims, 2, true, 0, 0 );
     }
-- 
2.43.0


From bb59c917d5c312b70ff790939c57d89ef2e13111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 062/157] fix: swap quadrants of FFT data with odd width or
 height without losing values

---
 src/fft.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index f1e7f63..909707e 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -112,12 +112,12 @@ namespace FFT
         const uint32_t middleY = _height / 2;
 
         for ( uint32_t inY = 0; inY < _height; ++inY ) {
-            const uint32_t outY = ( inY < middleY ) ? middleY + inY : inY - middleY;
+            const uint32_t outY = ( inY < middleY ) ? _height - middleY + inY : inY - middleY;
 
             const uint32_t posYIn = inY * _width;
             const uint32_t posYOut = outY * _width;
             for ( uint32_t inX = 0; inX < _width; ++inX ) {
-                const uint32_t outX = ( inX < middleX ) ? middleX + inX : inX - middleX;
+                const uint32_t outX = ( inX < middleX ) ? _width - middleX + inX : inX - middleX;
                 out[posYOut + outX] = static_cast<uint8_t>( _data[posYIn + inX].r / static_cast<float>( size ) + 0.5 );
             }
         }
-- 
2.43.0


From fd20d2e697f7069b19f1be17813ae214897c5343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 063/157] fix: multiply complex data in place correctly

---
 src/fft.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index 909707e..2aa0b8f 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -195,8 +195,12 @@ namespace FFT
         const kiss_fft_cpx * outXEnd = outX + size;
 
         for ( ; outX != outXEnd; ++in1X, ++in2X, ++outX ) {
-            outX->r = in1X->r * in2X->r - in1X->i * in2X->i;
-            outX->i = in1X->r * in2X->i + in1X->i * in2X->r;
+            // output can be the same as one of inputs
+            const kiss_fft_scalar real = in1X->r * in2X->r - in1X->i * in2X->i;
+            const kiss_fft_scalar imaginary = in1X->r * in2X->i + in1X->i * in2X->r;
+
+            outX->r = real;
+            outX->i = imaginary;
         }
     }
 
-- 
2.43.0


From a3e686361b2e02f99537f65d1d09df868be9b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 064/157] fix: do not throw an exception in default constructor
 of FFTExecutor

---
 src/fft.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index 2aa0b8f..577bc58 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -144,7 +144,8 @@ namespace FFT
         : _planDirect( 0 )
         , _planInverse( 0 )
     {
-        initialize( width_, height_ );
+        if ( width_ != 0u || height_ != 0u )
+            initialize( width_, height_ );
     }
 
     FFTExecutor::~FFTExecutor()
-- 
2.43.0


From 61ce0162835665d534746cf4bf1c015afc0385be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 065/157] fix: do not lose complex data assigned to itself

---
 src/math/fft_base.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math/fft_base.h b/src/math/fft_base.h
index 37f8608..e88eeb3 100644
--- a/src/math/fft_base.h
+++ b/src/math/fft_base.h
@@ -131,6 +131,9 @@ namespace FFT
 
         void _copy( const BaseComplexData & data )
         {
+            if ( this == &data )
+                return;
+
             _clean();
 
             resize( data._width, data._height );
-- 
2.43.0


From 9dc906131d0ab71197fc7107c14f30c561d6a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 066/157] fix: do not overflow the number of elements of
 complex data

---
 src/fft.cpp         | 4 ++--
 src/math/fft_base.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index 577bc58..54d19c2 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -58,7 +58,7 @@ namespace FFT
 
         _clean();
 
-        const uint32_t size = image.width() * image.height();
+        const size_t size = static_cast<size_t>( image.width() ) * image.height();
 
         _allocateData( size * sizeof( kiss_fft_cpx ) );
 
@@ -86,7 +86,7 @@ namespace FFT
 
     void ComplexData::set( const std::vector<float> & data )
     {
-        if ( data.empty() || _width == 0 || _height == 0 || data.size() != _width * _height )
+        if ( data.empty() || _width == 0 || _height == 0 || data.size() != static_cast<size_t>( _width ) * _height )
             throw penguinVException( "Failed to allocate complex data for empty or coloured image" );
 
         const float * in = data.data();
diff --git a/src/math/fft_base.h b/src/math/fft_base.h
index e88eeb3..6297af1 100644
--- a/src/math/fft_base.h
+++ b/src/math/fft_base.h
@@ -76,7 +76,7 @@ namespace FFT
             if ( ( _width != width_ || _height != height_ ) && width_ != 0 && height_ != 0 ) {
                 _clean();
 
-                const uint32_t size = width_ * height_;
+                const size_t size = static_cast<size_t>( width_ ) * height_;
                 _allocateData( size * sizeof( DataType ) );
 
                 _width = width_;
-- 
2.43.0


From 342aca8d26072c9d5d13bc97c7465c55f294415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 067/157] fix: release complex data when its construction from
 a vector fails

---
 src/fft.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index 54d19c2..5ebc735 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -33,7 +33,14 @@ namespace FFT
     ComplexData::ComplexData( const std::vector<float> & data, uint32_t width, uint32_t height )
     {
         resize( width, height );
-        set( data );
+
+        try {
+            set( data );
+        }
+        catch ( ... ) {
+            _clean();
+            throw;
+        }
     }
 
     ComplexData::ComplexData( const BaseComplexData<kiss_fft_cpx> & data )
-- 
2.43.0


From a76a416e9a4437e8cc537d7b4344b0d275aae1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 068/157] fix: forbid copying of FFT executors which released
 the same plans twice

---
 src/math/fft_base.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math/fft_base.h b/src/math/fft_base.h
index 6297af1..54bc095 100644
--- a/src/math/fft_base.h
+++ b/src/math/fft_base.h
@@ -161,6 +161,9 @@ namespace FFT
         BaseFFTExecutor();
         virtual ~BaseFFTExecutor();
 
+        BaseFFTExecutor( const BaseFFTExecutor & ) = delete;
+        BaseFFTExecutor & operator=( const BaseFFTExecutor & ) = delete;
+
         void initialize( uint32_t width_, uint32_t height_ ); // Calls virtual functions
 
         uint32_t width() const;
-- 
2.43.0


From 0653185a0cc2bfa412c4afe726da4156a55d4f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 069/157] fix: comparison of lines called a function which does
 not exist

---
 src/math/math_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/math_base.h b/src/math/math_base.h
index cfbedc9..56d4ec0 100644
--- a/src/math/math_base.h
+++ b/src/math/math_base.h
@@ -194,7 +194,7 @@ public:
 
     bool operator==( const LineBase2D & line ) const
     {
-        return parallel( line ) && pvmath::isEqual<_Type>( distance( line._position ), 0 );
+        return isParallel( line ) && pvmath::isEqual<_Type>( distance( line._position ), 0 );
     }
 
     // This is translation (shift) function
-- 
2.43.0


From ab6cd3536a0db3ca07453da38a10a46d54ada3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 070/157] fix: store roots of a linear system without access
 outside of a container

---
 src/math/math_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/math_base.cpp b/src/math/math_base.cpp
index ac870f2..ec90899 100644
--- a/src/math/math_base.cpp
+++ b/src/math/math_base.cpp
@@ -137,6 +137,7 @@ namespace pvmath
         }
 
         // Results
+        roots.resize( size );
         for ( size_t i = 0; i < size; ++i )
             roots[matrixIndices[i + i * size]] = unsortedRoots[i];
     }
-- 
2.43.0


From fbcd4079353ef1d82c26f593f50425c0bfb8ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 071/157] fix: inequality of 3D points ignored the third
 coordinate

---
 src/math/math_base.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math/math_base.h b/src/math/math_base.h
index 56d4ec0..84dbe29 100644
--- a/src/math/math_base.h
+++ b/src/math/math_base.h
@@ -137,6 +137,11 @@ struct PointBase3D : public PointBase2D<_Type>
         return PointBase2D<_Type>::operator==( point ) && pvmath::isEqual( z, point.z );
     }
 
+    bool operator!=( const PointBase3D & point ) const
+    {
+        return !( *this == point );
+    }
+
     PointBase3D & operator+=( const PointBase3D & point )
     {
         PointBase2D<_Type>::operator+=( point );
-- 
2.43.0


From 4a62866448f47c6bd1364f1f6da557bca933c92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 072/157] fix: use a coefficient of full precision for Haar
 transform of double values

---
 src/math/haar_transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/haar_transform.cpp b/src/math/haar_transform.cpp
index 7332d8a..7a5d251 100644
--- a/src/math/haar_transform.cpp
+++ b/src/math/haar_transform.cpp
@@ -39,7 +39,7 @@ namespace
         // a =  x * (1 / sqrt(2)) + y * (1 / sqrt(2)) = (y + x) * (1 / sqrt(2))
         // b = -x * (1 / sqrt(2)) + y * (1 / sqrt(2)) = (y - x) * (1 / sqrt(2))
 
-        const _Type coefficient = 1.0f / std::sqrt( 2.0f );
+        const _Type coefficient = static_cast<_Type>( 1 ) / std::sqrt( static_cast<_Type>( 2 ) );
         std::vector<_Type> temp( input.size() );
 
         // Transform by X
@@ -91,7 +91,7 @@ namespace
         // a = x * (1 / sqrt(2)) - y * (1 / sqrt(2)) = (x - y) * (1 / sqrt(2))
         // b = x * (1 / sqrt(2)) + y * (1 / sqrt(2)) = (x + y) * (1 / sqrt(2))
 
-        const _Type coefficient = 1.0f / std::sqrt( 2.0f );
+        const _Type coefficient = static_cast<_Type>( 1 ) / std::sqrt( static_cast<_Type>( 2 ) );
         std::vector<_Type> temp( input.size() );
 
         // Transform by X
-- 
2.43.0


From d98294c36f9ee589613e1fbd4d80b0dbc0c42cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 073/157] fix: do not lose points of the best line in Hough
 transform

The number of points was counted for an angle accumulated step by step and
for the range of distances between the first and the last points while
points were put on the line for another value of the angle and for a range
restored from an average distance. Due to rounding the points at the ends
of the range were reported as points not on the line, sometimes all of them.
---
 src/math/hough_transform.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/math/hough_transform.cpp b/src/math/hough_transform.cpp
index e1ec68c..1e4d133 100644
--- a/src/math/hough_transform.cpp
+++ b/src/math/hough_transform.cpp
@@ -66,10 +66,11 @@ namespace
         int bestAngleId = -angleStepPerSide;
         size_t highestPointCount = 0u;
         _Type averageDistance = 0;
+        _Type firstDistance = 0;
+        _Type lastDistance = 0;
 
-        _Type angleVal = -( initialAngle - angleStep * static_cast<_Type>( angleStepPerSide ) ); // this should be an opposite angle
-
-        for ( int angleId = -angleStepPerSide; angleId <= angleStepPerSide; ++angleId, angleVal -= angleStep ) {
+        for ( int angleId = -angleStepPerSide; angleId <= angleStepPerSide; ++angleId ) {
+            const _Type angleVal = -( initialAngle + angleStep * static_cast<_Type>( angleId ) ); // this should be an opposite angle
             const _Type cosVal = std::cos( angleVal );
             const _Type sinVal = std::sin( angleVal );
 
@@ -109,6 +110,8 @@ namespace
                     highestPointCount = onLinePointCount;
                     bestAngleId = angleId;
                     averageDistance = currentDistance;
+                    firstDistance = distanceToLine[initialPointId];
+                    lastDistance = distanceToLine[initialPointId + onLinePointCount - 1u];
                 }
             }
         }
@@ -116,10 +119,11 @@ namespace
         outOnLine.clear();
         outOffLine.clear();
 
-        angleVal = -( initialAngle + angleStep * static_cast<_Type>( bestAngleId ) );
+        const _Type angleVal = -( initialAngle + angleStep * static_cast<_Type>( bestAngleId ) );
 
-        const _Type minDistance = averageDistance - lineTolerance;
-        const _Type maxDistance = averageDistance + lineTolerance;
+        // all counted points must be on the line despite of rounding
+        const _Type minDistance = std::min( averageDistance - lineTolerance, firstDistance );
+        const _Type maxDistance = std::max( averageDistance + lineTolerance, lastDistance );
 
         // sort points
         const _Type cosVal = std::cos( angleVal );
-- 
2.43.0


From bbf2cd13be39b12f4a7a382d2159a2904b1a77f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 074/157] fix: light correction used a state which was never
 set

Width and height of a new object were not initialised so a correction before
any analysis accessed memory by an invalid address instead of being refused.
---
 src/tool/light_correction.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tool/light_correction.h b/src/tool/light_correction.h
index c5daff1..987f8f1 100644
--- a/src/tool/light_correction.h
+++ b/src/tool/light_correction.h
@@ -29,6 +29,11 @@
 class LightCorrection
 {
 public:
+    LightCorrection()
+        : _width( 0 )
+        , _height( 0 )
+    {}
+
     void analyze( const penguinV::Image & image );
     void correct( penguinV::Image & image ) const;
     void correct( penguinV::Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height ) const;
-- 
2.43.0


From 8cbddb35c0a9013b8d80916e5fa7ff008535874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 075/157] fix: refused analysis made light correction unusable

Size of an image was stored before the analysis succeeded. After a refused
analysis a correction divided by zero or used data of another image.
---
 src/tool/light_correction.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index 828ec22..dab4852 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -25,21 +25,21 @@ void LightCorrection::analyze( const penguinV::Image & image )
 {
     Image_Function::ValidateImageParameters( image );
 
-    _width = image.width();
-    _height = image.height();
+    const uint32_t width = image.width();
+    const uint32_t height = image.height();
 
-    _data.resize( _width * _height );
+    std::vector<uint32_t> correctionData( static_cast<size_t>( width ) * height );
 
     uint8_t minValue = 255u;
     uint8_t maxValue = 0u;
 
     const uint32_t rowSize = image.rowSize();
     const uint8_t * imageY = image.data();
-    const uint8_t * imageYEnd = imageY + _height * rowSize;
+    const uint8_t * imageYEnd = imageY + height * rowSize;
 
     for ( ; imageY != imageYEnd; imageY += rowSize ) {
         const uint8_t * imageX = imageY;
-        const uint8_t * imageXEnd = imageX + _width;
+        const uint8_t * imageXEnd = imageX + width;
 
         for ( ; imageX != imageXEnd; ++imageX ) {
             if ( ( *imageX ) < minValue && ( *imageX ) > 0 )
@@ -54,12 +54,12 @@ void LightCorrection::analyze( const penguinV::Image & image )
         throw penguinVException( "Image in invalid. Minimum value cannot be greater or equal to maximum value." );
 
     imageY = image.data();
-    imageYEnd = imageY + _height * rowSize;
-    uint32_t * data = _data.data();
+    imageYEnd = imageY + height * rowSize;
+    uint32_t * data = correctionData.data();
 
     for ( ; imageY != imageYEnd; imageY += rowSize ) {
         const uint8_t * imageX = imageY;
-        const uint8_t * imageXEnd = imageX + _width;
+        const uint8_t * imageXEnd = imageX + width;
 
         for ( ; imageX != imageXEnd; ++imageX, ++data ) {
             if ( ( *imageX ) > maxValue )
@@ -70,6 +70,10 @@ void LightCorrection::analyze( const penguinV::Image & image )
                 *data = static_cast<unsigned int>( static_cast<double>( ( *imageX ) ) * 4194304u / maxValue ) + 1u;
         }
     }
+
+    _data.swap( correctionData );
+    _width = width;
+    _height = height;
 }
 
 void LightCorrection::correct( penguinV::Image & image ) const
-- 
2.43.0


From ffa192d58e6ccf7209f6aa6dad11f02f5a325182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 076/157] fix: refuse light correction of an area which was not
 analyzed

---
 src/tool/light_correction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index dab4852..4dad382 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -89,6 +89,9 @@ void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y,
     if ( _width == 0 || _height == 0 )
         throw penguinVException( "Image is not being analyzed before calling correction. Analyze first." );
 
+    if ( x + width > _width || y + height > _height )
+        throw penguinVException( "Area of image for correction is bigger than the analyzed image." );
+
     const uint32_t rowSize = image.rowSize();
 
     uint8_t * imageY = image.data() + y * rowSize + x;
-- 
2.43.0


From 560f122ad916b0446047df9078c0f4cc1abe316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 077/157] fix: search of incorrect pixels used the size of
 another image

The size of the analyzed image was used to go through the given image.
---
 src/tool/light_correction.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index 4dad382..f04d3a0 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -116,15 +116,18 @@ void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y,
 
 std::vector<PointBase2D<uint32_t>> LightCorrection::findIncorrectPixels( const penguinV::Image & image ) const
 {
+    Image_Function::ValidateImageParameters( image );
+
     std::vector<PointBase2D<uint32_t>> point;
 
+    const uint32_t width = image.width();
     const uint32_t rowSize = image.rowSize();
     const uint8_t * imageY = image.data();
-    const uint8_t * imageYEnd = imageY + _height * rowSize;
+    const uint8_t * imageYEnd = imageY + image.height() * rowSize;
 
     for ( uint32_t y = 0; imageY != imageYEnd; imageY += rowSize, ++y ) {
         const uint8_t * imageX = imageY;
-        const uint8_t * imageXEnd = imageX + _width;
+        const uint8_t * imageXEnd = imageX + width;
 
         for ( uint32_t x = 0; imageX != imageXEnd; ++imageX, ++x ) {
             if ( ( ( *imageX ) == 0u ) || ( ( *imageX ) == 255u ) )
-- 
2.43.0


From 75d0441153c15c6725ba80d7a010adf83b72130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 078/157] fix: light correction processed only a part of a
 colored image

The algorithm works with one value per pixel so colored images are refused
by other tools of this kind too.
---
 src/tool/light_correction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index f04d3a0..ca7c1c2 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -24,6 +24,7 @@
 void LightCorrection::analyze( const penguinV::Image & image )
 {
     Image_Function::ValidateImageParameters( image );
+    Image_Function::VerifyGrayScaleImage( image );
 
     const uint32_t width = image.width();
     const uint32_t height = image.height();
@@ -86,6 +87,8 @@ void LightCorrection::correct( penguinV::Image & image ) const
 void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height ) const
 {
     Image_Function::ValidateImageParameters( image, x, y, width, height );
+    Image_Function::VerifyGrayScaleImage( image );
+
     if ( _width == 0 || _height == 0 )
         throw penguinVException( "Image is not being analyzed before calling correction. Analyze first." );
 
@@ -117,6 +120,7 @@ void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y,
 std::vector<PointBase2D<uint32_t>> LightCorrection::findIncorrectPixels( const penguinV::Image & image ) const
 {
     Image_Function::ValidateImageParameters( image );
+    Image_Function::VerifyGrayScaleImage( image );
 
     std::vector<PointBase2D<uint32_t>> point;
 
-- 
2.43.0


From 101b9638350c3d603e17a95188123d16b45b74cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 079/157] fix: read fields of bitmap headers without misaligned
 access

---
 src/file/bmp_image.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 1fb3550..3aeb214 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -21,6 +21,7 @@
 #include "bmp_image.h"
 #include "../parameter_validation.h"
 #include "../penguinv_exception.h"
+#include <cstring>
 #include <fstream>
 #include <memory>
 #include <vector>
@@ -71,7 +72,7 @@ namespace Bitmap_Operation
     template <typename valueType>
     void get_value( const std::vector<uint8_t> & data, size_t & offset, valueType & value )
     {
-        value = *( reinterpret_cast<const valueType *>( data.data() + offset ) );
+        memcpy( &value, data.data() + offset, sizeof( valueType ) );
         offset += sizeof( valueType );
     }
 
-- 
2.43.0


From 8685096aaa58ec8052d75175d80ed98f2fd78c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 080/157] fix: small bitmap files saved by the library were not
 loaded

The minimum length of a file was calculated from the size of structures in
memory, which is bigger than the size of headers in a file.
---
 src/file/bmp_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 3aeb214..b68485e 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -397,7 +397,7 @@ namespace Bitmap_Operation
         file.seekg( 0, file.end );
         std::streamoff length = file.tellg();
 
-        if ( length == std::char_traits<char>::pos_type( -1 ) || static_cast<size_t>( length ) < sizeof( BitmapFileHeader ) + sizeof( BitmapInfoHeader ) )
+        if ( length == std::char_traits<char>::pos_type( -1 ) || length < BitmapFileHeader().overallSize + BitmapCoreHeader().overallSize )
             return penguinV::Image();
 
         file.seekg( 0, file.beg );
-- 
2.43.0


From 18ab1f1b6cfd1004e2d7040484900bea9b17a979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 081/157] fix: the first row of bitmap images with a palette
 was not converted

---
 src/file/bmp_image.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index b68485e..4d296a3 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -500,7 +500,7 @@ namespace Bitmap_Operation
             const uint8_t * inYEnd = image.data();
             uint8_t * outY = image.data() + image.rowSize() * ( image.height() - 1 );
 
-            for ( ; inY != inYEnd; inY -= rowSize, outY -= image.rowSize() ) {
+            for ( ;; inY -= rowSize, outY -= image.rowSize() ) {
                 const uint8_t * inX = inY + ( info->width() - 1u );
                 const uint8_t * inXEnd = inY;
                 uint8_t * outX = outY + 3u * ( image.width() - 1u );
@@ -514,6 +514,9 @@ namespace Bitmap_Operation
                     if ( inX == inXEnd ) // this is done to count first pixel in row
                         break;
                 }
+
+                if ( inY == inYEnd ) // this is done to count first row in image
+                    break;
             }
         }
 
-- 
2.43.0


From 3683a279e2b5d064e566da5c9f2458a2c913c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 082/157] fix: do not negate the smallest height in a bitmap
 header

---
 src/file/bmp_image.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 4d296a3..e05bb62 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -23,6 +23,7 @@
 #include "../penguinv_exception.h"
 #include <cstring>
 #include <fstream>
+#include <limits>
 #include <memory>
 #include <vector>
 
@@ -284,7 +285,7 @@ namespace Bitmap_Operation
             get_value( data, offset, biClrUsed );
             get_value( data, offset, biClrImportant );
 
-            if ( biHeight < 0 ) {
+            if ( biHeight < 0 && biHeight != std::numeric_limits<int32_t>::min() ) {
                 biHeight = -biHeight;
                 flipped = false;
             }
-- 
2.43.0


From f68dfe900128f7cb05cf6f4d52f55461985932ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 083/157] fix: the expected length of a bitmap file overflowed
 32 bits

A short file with a header of a big image was accepted and its image had
pixels which were never read.
---
 src/file/bmp_image.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index e05bb62..7980b80 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -442,13 +442,15 @@ namespace Bitmap_Operation
         if ( info->validate( header ) )
             return penguinV::Image();
 
-        uint32_t rowSize = info->width() * info->colorCount();
-        if ( rowSize % BITMAP_ALIGNMENT != 0 )
-            rowSize = ( rowSize / BITMAP_ALIGNMENT + 1 ) * BITMAP_ALIGNMENT;
+        uint64_t fullRowSize = static_cast<uint64_t>( info->width() ) * info->colorCount();
+        if ( fullRowSize % BITMAP_ALIGNMENT != 0 )
+            fullRowSize = ( fullRowSize / BITMAP_ALIGNMENT + 1 ) * BITMAP_ALIGNMENT;
 
-        if ( length != header.bfOffBits + rowSize * info->height() )
+        if ( fullRowSize > std::numeric_limits<uint32_t>::max() || static_cast<uint64_t>( length ) != header.bfOffBits + fullRowSize * info->height() )
             return penguinV::Image();
 
+        const uint32_t rowSize = static_cast<uint32_t>( fullRowSize );
+
         const uint32_t palleteSize = header.bfOffBits - info->size() - header.overallSize;
         std::vector<uint8_t> pallete( palleteSize );
 
-- 
2.43.0


From 9ac63edd29af604186e442083cb29f4cab355311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 084/157] fix: do not return an image if reading of a bitmap
 file failed

---
 src/file/bmp_image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 7980b80..f6b99b2 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -497,6 +497,9 @@ namespace Bitmap_Operation
             dataToRead -= readSize;
         }
 
+        if ( !file )
+            return penguinV::Image();
+
         // A special case for 256 color bitmap files
         if ( convertFrom256Color ) {
             const uint8_t * inY = image.data() + rowSize * ( info->height() - 1 );
-- 
2.43.0


From 2464610015244e3ec7dbe4fbef87b60531c15571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 085/157] fix: raw images with aligned rows were saved with
 padding

Such a file could not be loaded back because only pixels are expected in it.
---
 src/file/raw_image.h | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/file/raw_image.h b/src/file/raw_image.h
index e7c7bda..5b97d38 100644
--- a/src/file/raw_image.h
+++ b/src/file/raw_image.h
@@ -78,22 +78,15 @@ namespace Raw_Operation
         if ( !file )
             throw penguinVException( "Cannot create file for saving" );
 
-        size_t dataToWrite = sizeof( _Type ) * image.rowSize() * image.height();
-        size_t dataWritten = 0;
+        const size_t lineSize = sizeof( _Type ) * image.width() * image.colorCount();
 
-        const size_t blockSize = 4 * 1024 * 1024; // read by 4 MB blocks
-
-        const char * output = reinterpret_cast<const char *>( image.data() );
-        while ( dataToWrite > 0 ) {
-            size_t writeSize = dataToWrite > blockSize ? blockSize : dataToWrite;
-
-            file.write( output + dataWritten, static_cast<std::streamsize>( writeSize ) );
-            file.flush();
-
-            dataWritten += writeSize;
-            dataToWrite -= writeSize;
+        const _Type * imageY = image.data();
+        for ( uint32_t rowId = 0; rowId < image.height(); ++rowId, imageY += image.rowSize() ) {
+            file.write( reinterpret_cast<const char *>( imageY ), static_cast<std::streamsize>( lineSize ) );
         }
 
+        file.flush();
+
         if ( !file )
             throw penguinVException( "failed to write data into file" );
     }
-- 
2.43.0


From 9662651c9f1ce01963595cc515a67f2da00e841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 086/157] fix: the expected length of a raw image file
 overflowed 32 bits

An empty file was accepted for an image of 65536 x 65536 pixels and its
pixels were never read. Also do not return an image if reading failed.
---
 src/file/raw_image.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/file/raw_image.h b/src/file/raw_image.h
index 5b97d38..b5570b4 100644
--- a/src/file/raw_image.h
+++ b/src/file/raw_image.h
@@ -40,16 +40,18 @@ namespace Raw_Operation
         file.seekg( 0, file.end );
         std::streamoff length = file.tellg();
 
-        const uint32_t overallImageSize = width * height * colorCount * static_cast<uint32_t>( sizeof( _Type ) );
+        // this multiplication does not overflow as the product of width and height takes 64 bits at most
+        const uint64_t pixelCount = static_cast<uint64_t>( width ) * height;
+        const uint64_t pixelSize = colorCount * sizeof( _Type );
 
-        if ( length != overallImageSize )
+        if ( length < 0 || pixelCount > static_cast<uint64_t>( length ) / pixelSize || pixelCount * pixelSize != static_cast<uint64_t>( length ) )
             return penguinV::ImageTemplate<_Type>();
 
         file.seekg( 0, file.beg );
 
         penguinV::ImageTemplate<_Type> image( width, height, colorCount );
 
-        size_t dataToRead = overallImageSize;
+        size_t dataToRead = static_cast<size_t>( length );
         size_t dataReaded = 0;
 
         const size_t blockSize = 4 * 1024 * 1024; // read by 4 MB blocks
@@ -64,6 +66,9 @@ namespace Raw_Operation
             dataToRead -= readSize;
         }
 
+        if ( !file )
+            return penguinV::ImageTemplate<_Type>();
+
         return image;
     }
 
-- 
2.43.0


From bfee83cec5ddda1f83a34dc11d211c83f4c07563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 087/157] fix: errors of libpng terminated the process

No error handler was set so a damaged file or a failed write aborted the
process. Also nothing was released if an error happened, and memory of an
info structure was never released.
---
 src/file/png_image.cpp | 213 +++++++++++++++++++++++++++--------------
 1 file changed, 142 insertions(+), 71 deletions(-)

diff --git a/src/file/png_image.cpp b/src/file/png_image.cpp
index adc71bb..bab13a1 100644
--- a/src/file/png_image.cpp
+++ b/src/file/png_image.cpp
@@ -52,34 +52,79 @@ namespace Png_Operation
 #else
 
 #include <png.h>
-#include <stdlib.h>
+#include <setjmp.h>
+#include <stdio.h>
+#include <vector>
 
 #include "../parameter_validation.h"
 
-namespace Png_Operation
+namespace
 {
-    penguinV::Image Load( const std::string & path )
+    // libpng reports errors by a jump so everything what must be released is owned by an object which lives outside of a function with setjmp() call
+    struct PngReader
     {
-        if ( path.empty() )
-            throw penguinVException( "Incorrect file path for image file loading" );
+        PngReader()
+            : file( nullptr )
+            , png( nullptr )
+            , info( nullptr )
+        {}
+
+        ~PngReader()
+        {
+            if ( png )
+                png_destroy_read_struct( &png, info ? &info : nullptr, nullptr );
+
+            if ( file )
+                fclose( file );
+        }
 
-        FILE * file = fopen( path.data(), "rb" );
-        if ( !file )
-            return penguinV::Image();
+        PngReader( const PngReader & ) = delete;
+        PngReader & operator=( const PngReader & ) = delete;
 
-        png_structp png = png_create_read_struct( PNG_LIBPNG_VER_STRING, NULL, NULL, NULL );
-        if ( !png ) {
-            fclose( file );
-            return penguinV::Image();
-        }
+        FILE * file;
+        png_structp png;
+        png_infop info;
 
-        png_infop info = png_create_info_struct( png );
-        if ( !info ) {
-            fclose( file );
-            return penguinV::Image();
+        std::vector<uint8_t> data;
+        std::vector<uint8_t *> row;
+    };
+
+    struct PngWriter
+    {
+        PngWriter()
+            : file( nullptr )
+            , png( nullptr )
+            , info( nullptr )
+        {}
+
+        ~PngWriter()
+        {
+            if ( png )
+                png_destroy_write_struct( &png, info ? &info : nullptr );
+
+            if ( file )
+                fclose( file );
         }
 
-        png_init_io( png, file );
+        PngWriter( const PngWriter & ) = delete;
+        PngWriter & operator=( const PngWriter & ) = delete;
+
+        FILE * file;
+        png_structp png;
+        png_infop info;
+
+        std::vector<uint8_t> row;
+    };
+
+    bool readImage( PngReader & reader, penguinV::Image & image )
+    {
+        png_structp png = reader.png;
+        png_infop info = reader.info;
+
+        if ( setjmp( png_jmpbuf( png ) ) )
+            return false;
+
+        png_init_io( png, reader.file );
         png_read_info( png, info );
 
         const uint32_t width = static_cast<uint32_t>( png_get_image_width( png, info ) );
@@ -109,22 +154,23 @@ namespace Png_Operation
 
         png_read_update_info( png, info );
 
-        uint8_t ** row_pointers = reinterpret_cast<uint8_t **>( malloc( sizeof( uint8_t * ) * height ) );
-
         const size_t rowByteCount = png_get_rowbytes( png, info );
 
+        reader.data.resize( rowByteCount * height );
+        reader.row.resize( height );
+
         for ( uint32_t y = 0; y < height; ++y )
-            row_pointers[y] = reinterpret_cast<uint8_t *>( malloc( rowByteCount ) );
+            reader.row[y] = reader.data.data() + rowByteCount * y;
 
-        png_read_image( png, row_pointers );
+        png_read_image( png, reader.row.data() );
 
         const bool isGrayScale = ( colorType == PNG_COLOR_TYPE_GRAY || colorType == PNG_COLOR_TYPE_GRAY_ALPHA );
 
-        penguinV::Image image( width, height, isGrayScale ? penguinV::GRAY_SCALE : penguinV::RGB );
+        image = penguinV::Image( width, height, isGrayScale ? penguinV::GRAY_SCALE : penguinV::RGB );
 
         uint8_t * outY = image.data();
         for ( uint32_t y = 0; y < height; ++y, outY += image.rowSize() ) {
-            const uint8_t * column = row_pointers[y];
+            const uint8_t * column = reader.row[y];
             uint8_t * outX = outY;
 
             if ( isGrayScale ) {
@@ -140,44 +186,18 @@ namespace Png_Operation
             }
         }
 
-        fclose( file );
-
-        for ( uint32_t y = 0; y < height; ++y )
-            free( row_pointers[y] );
-        free( row_pointers );
-
-        png_destroy_read_struct( &png, &info, NULL );
-
-        return image;
-    }
-
-    void Load( const std::string & path, penguinV::Image & raw )
-    {
-        raw = Load( path );
-    }
-
-    void Save( const std::string & path, const penguinV::Image & image )
-    {
-        Save( path, image, 0, 0, image.width(), image.height() );
+        return true;
     }
 
-    void Save( const std::string & path, const penguinV::Image & image, uint32_t startX, uint32_t startY, uint32_t width, uint32_t height )
+    bool writeImage( PngWriter & writer, const penguinV::Image & image, uint32_t startX, uint32_t startY, uint32_t width, uint32_t height )
     {
-        Image_Function::ValidateImageParameters( image, startX, startY, width, height );
-
-        FILE * file = fopen( path.data(), "wb" );
-        if ( !file )
-            throw penguinVException( "Cannot create file for saving" );
+        png_structp png = writer.png;
+        png_infop info = writer.info;
 
-        png_structp png = png_create_write_struct( PNG_LIBPNG_VER_STRING, NULL, NULL, NULL );
-        if ( !png )
-            throw penguinVException( "Cannot create file for saving" );
+        if ( setjmp( png_jmpbuf( png ) ) )
+            return false;
 
-        png_infop info = png_create_info_struct( png );
-        if ( !info )
-            throw penguinVException( "Cannot create file for saving" );
-
-        png_init_io( png, file );
+        png_init_io( png, writer.file );
 
         const bool grayScaleImage = image.colorCount() == penguinV::GRAY_SCALE;
 
@@ -187,16 +207,11 @@ namespace Png_Operation
 
         png_write_info( png, info );
 
-        uint8_t ** row_pointers = reinterpret_cast<uint8_t **>( malloc( sizeof( uint8_t * ) * height ) );
-
-        const size_t rowByteCount = png_get_rowbytes( png, info );
-
-        for ( uint32_t y = 0; y < height; ++y )
-            row_pointers[y] = reinterpret_cast<uint8_t *>( malloc( rowByteCount ) );
+        writer.row.resize( png_get_rowbytes( png, info ) );
 
         const uint8_t * outY = image.data() + startY * image.rowSize() + startX * image.colorCount();
         for ( uint32_t y = 0; y < height; ++y, outY += image.rowSize() ) {
-            uint8_t * column = row_pointers[y];
+            uint8_t * column = writer.row.data();
             const uint8_t * outX = outY;
 
             if ( grayScaleImage ) {
@@ -210,18 +225,74 @@ namespace Png_Operation
                     column[0] = *( outX++ );
                 }
             }
+
+            png_write_row( png, writer.row.data() );
         }
 
-        png_write_image( png, row_pointers );
-        png_write_end( png, NULL );
+        png_write_end( png, nullptr );
 
-        fclose( file );
+        return true;
+    }
+}
 
-        for ( uint32_t y = 0; y < height; ++y )
-            free( row_pointers[y] );
-        free( row_pointers );
+namespace Png_Operation
+{
+    penguinV::Image Load( const std::string & path )
+    {
+        if ( path.empty() )
+            throw penguinVException( "Incorrect file path for image file loading" );
+
+        PngReader reader;
+
+        reader.file = fopen( path.data(), "rb" );
+        if ( !reader.file )
+            return penguinV::Image();
+
+        reader.png = png_create_read_struct( PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr );
+        if ( !reader.png )
+            return penguinV::Image();
+
+        reader.info = png_create_info_struct( reader.png );
+        if ( !reader.info )
+            return penguinV::Image();
+
+        penguinV::Image image;
+        if ( !readImage( reader, image ) )
+            return penguinV::Image();
+
+        return image;
+    }
+
+    void Load( const std::string & path, penguinV::Image & raw )
+    {
+        raw = Load( path );
+    }
+
+    void Save( const std::string & path, const penguinV::Image & image )
+    {
+        Save( path, image, 0, 0, image.width(), image.height() );
+    }
+
+    void Save( const std::string & path, const penguinV::Image & image, uint32_t startX, uint32_t startY, uint32_t width, uint32_t height )
+    {
+        Image_Function::ValidateImageParameters( image, startX, startY, width, height );
+
+        PngWriter writer;
+
+        writer.file = fopen( path.data(), "wb" );
+        if ( !writer.file )
+            throw penguinVException( "Cannot create file for saving" );
+
+        writer.png = png_create_write_struct( PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr );
+        if ( !writer.png )
+            throw penguinVException( "Cannot create file for saving" );
+
+        writer.info = png_create_info_struct( writer.png );
+        if ( !writer.info )
+            throw penguinVException( "Cannot create file for saving" );
 
-        png_destroy_write_struct( &png, &info );
+        if ( !writeImage( writer, image, startX, startY, width, height ) )
+            throw penguinVException( "failed to write data into file" );
     }
 }
 
-- 
2.43.0


From 79757e9300e46af63efd6d05a8ba16426d30fa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 088/157] fix: report a failure of writing the last part of a
 png file

Data kept in a buffer of a file are written while closing it.
---
 src/file/png_image.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/file/png_image.cpp b/src/file/png_image.cpp
index bab13a1..e48585f 100644
--- a/src/file/png_image.cpp
+++ b/src/file/png_image.cpp
@@ -293,6 +293,12 @@ namespace Png_Operation
 
         if ( !writeImage( writer, image, startX, startY, width, height ) )
             throw penguinVException( "failed to write data into file" );
+
+        FILE * file = writer.file;
+        writer.file = nullptr;
+
+        if ( fclose( file ) != 0 )
+            throw penguinVException( "failed to write data into file" );
     }
 }
 
-- 
2.43.0


From a84b78a0188ff0eac2d2a1eaf38eae9167b564df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 089/157] fix: refuse saving of images with 4 channels in png
 format

Pixels of such images were read as if they had 3 channels.
---
 src/file/png_image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file/png_image.cpp b/src/file/png_image.cpp
index e48585f..8d60f00 100644
--- a/src/file/png_image.cpp
+++ b/src/file/png_image.cpp
@@ -277,6 +277,9 @@ namespace Png_Operation
     {
         Image_Function::ValidateImageParameters( image, startX, startY, width, height );
 
+        if ( image.colorCount() != penguinV::GRAY_SCALE && image.colorCount() != penguinV::RGB )
+            throw penguinVException( "Only gray-scale and RGB images can be saved in png format" );
+
         PngWriter writer;
 
         writer.file = fopen( path.data(), "wb" );
-- 
2.43.0


From bffb5d0232842f6d02b65cd3b2de73c53038b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 090/157] fix: errors of libjpeg terminated the process

The default error handler of libjpeg calls exit() so a damaged file, a failed
write or an image of an unsupported type ended the whole process.
---
 src/file/jpeg_image.cpp | 148 +++++++++++++++++++++++++++++++++-------
 1 file changed, 122 insertions(+), 26 deletions(-)

diff --git a/src/file/jpeg_image.cpp b/src/file/jpeg_image.cpp
index a7fb787..9c404a8 100644
--- a/src/file/jpeg_image.cpp
+++ b/src/file/jpeg_image.cpp
@@ -75,24 +75,91 @@ namespace Jpeg_Operation
 
 #include <jerror.h>
 #include <jpeglib.h>
+#include <setjmp.h>
 
-namespace Jpeg_Operation
+namespace
 {
-    void Load( const std::string & path, penguinV::Image & image )
+    // By default libjpeg terminates the process in case of an error
+    struct JpegErrorManager
     {
-        if ( path.empty() )
-            throw penguinVException( "Incorrect parameters for Jpeg image loading" );
+        jpeg_error_mgr manager; // this member must be the first one
+        jmp_buf position;
+    };
 
-        FILE * file = fopen( path.data(), "rb" );
-        if ( file == nullptr )
-            throw penguinVException( "Cannot open Jpeg image" );
+    void returnFromError( j_common_ptr info )
+    {
+        ( *info->err->output_message )( info );
+        longjmp( reinterpret_cast<JpegErrorManager *>( info->err )->position, 1 );
+    }
+
+    // libjpeg reports errors by a jump so everything what must be released is owned by an object which lives outside of a function with setjmp() call
+    struct JpegReader
+    {
+        JpegReader()
+            : file( nullptr )
+            , isCreated( false )
+        {
+            info.err = jpeg_std_error( &error.manager );
+            error.manager.error_exit = returnFromError;
+        }
+
+        ~JpegReader()
+        {
+            if ( isCreated )
+                jpeg_destroy_decompress( &info );
+
+            if ( file )
+                fclose( file );
+        }
+
+        JpegReader( const JpegReader & ) = delete;
+        JpegReader & operator=( const JpegReader & ) = delete;
+
+        FILE * file;
+        bool isCreated;
+        jpeg_decompress_struct info;
+        JpegErrorManager error;
+    };
+
+    struct JpegWriter
+    {
+        JpegWriter()
+            : file( nullptr )
+            , isCreated( false )
+        {
+            info.err = jpeg_std_error( &error.manager );
+            error.manager.error_exit = returnFromError;
+        }
+
+        ~JpegWriter()
+        {
+            if ( isCreated )
+                jpeg_destroy_compress( &info );
+
+            if ( file )
+                fclose( file );
+        }
+
+        JpegWriter( const JpegWriter & ) = delete;
+        JpegWriter & operator=( const JpegWriter & ) = delete;
+
+        FILE * file;
+        bool isCreated;
+        jpeg_compress_struct info;
+        JpegErrorManager error;
+    };
+
+    bool readImage( JpegReader & reader, penguinV::Image & image )
+    {
+        jpeg_decompress_struct & info = reader.info;
+
+        if ( setjmp( reader.error.position ) )
+            return false;
 
-        struct jpeg_decompress_struct info;
-        struct jpeg_error_mgr error;
-        info.err = jpeg_std_error( &error );
         jpeg_create_decompress( &info );
+        reader.isCreated = true;
 
-        jpeg_stdio_src( &info, file );
+        jpeg_stdio_src( &info, reader.file );
         jpeg_read_header( &info, TRUE );
 
         jpeg_start_decompress( &info );
@@ -108,26 +175,21 @@ namespace Jpeg_Operation
         }
 
         jpeg_finish_decompress( &info );
-        jpeg_destroy_decompress( &info );
-        fclose( file );
+
+        return true;
     }
 
-    void Save( const std::string & path, const penguinV::Image & image, uint32_t startX, uint32_t startY, uint32_t width, uint32_t height )
+    bool writeImage( JpegWriter & writer, const penguinV::Image & image, uint32_t width, uint32_t height )
     {
-        Image_Function::ValidateImageParameters( image, startX, startY, width, height );
+        jpeg_compress_struct & info = writer.info;
 
-        FILE * file = fopen( path.data(), "wb" );
-        if ( !file )
-            throw penguinVException( "Cannot create file for saving" );
+        if ( setjmp( writer.error.position ) )
+            return false;
 
-        struct jpeg_compress_struct info;
-        struct jpeg_error_mgr jerr;
-        JSAMPROW row_pointer[1];
-
-        info.err = jpeg_std_error( &jerr );
         jpeg_create_compress( &info );
+        writer.isCreated = true;
 
-        jpeg_stdio_dest( &info, file );
+        jpeg_stdio_dest( &info, writer.file );
 
         info.image_width = width;
         info.image_height = height;
@@ -139,6 +201,7 @@ namespace Jpeg_Operation
 
         jpeg_start_compress( &info, TRUE );
 
+        JSAMPROW row_pointer[1];
         while ( info.next_scanline < info.image_height ) {
             row_pointer[0] = const_cast<uint8_t *>( image.data() + image.rowSize() * info.next_scanline ); // libjpeg is C based library so no choice
             jpeg_write_scanlines( &info, row_pointer, 1 );
@@ -146,9 +209,42 @@ namespace Jpeg_Operation
 
         jpeg_finish_compress( &info );
 
-        fclose( file );
+        return true;
+    }
+}
+
+namespace Jpeg_Operation
+{
+    void Load( const std::string & path, penguinV::Image & image )
+    {
+        if ( path.empty() )
+            throw penguinVException( "Incorrect parameters for Jpeg image loading" );
+
+        JpegReader reader;
+
+        reader.file = fopen( path.data(), "rb" );
+        if ( reader.file == nullptr )
+            throw penguinVException( "Cannot open Jpeg image" );
+
+        penguinV::Image loaded;
+        if ( !readImage( reader, loaded ) )
+            throw penguinVException( "Cannot read Jpeg image" );
+
+        image = loaded;
+    }
+
+    void Save( const std::string & path, const penguinV::Image & image, uint32_t startX, uint32_t startY, uint32_t width, uint32_t height )
+    {
+        Image_Function::ValidateImageParameters( image, startX, startY, width, height );
+
+        JpegWriter writer;
+
+        writer.file = fopen( path.data(), "wb" );
+        if ( !writer.file )
+            throw penguinVException( "Cannot create file for saving" );
 
-        jpeg_destroy_compress( &info );
+        if ( !writeImage( writer, image, width, height ) )
+            throw penguinVException( "failed to write data into file" );
     }
 }
 #endif
-- 
2.43.0


From 8f65043f4e79173d58845bd99240e4f9a9f3fbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 091/157] fix: save the requested area of an image in jpeg
 format

The position of the area was ignored.
---
 src/file/jpeg_image.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/file/jpeg_image.cpp b/src/file/jpeg_image.cpp
index 9c404a8..ea0d7c7 100644
--- a/src/file/jpeg_image.cpp
+++ b/src/file/jpeg_image.cpp
@@ -179,7 +179,7 @@ namespace
         return true;
     }
 
-    bool writeImage( JpegWriter & writer, const penguinV::Image & image, uint32_t width, uint32_t height )
+    bool writeImage( JpegWriter & writer, const penguinV::Image & image, uint32_t startX, uint32_t startY, uint32_t width, uint32_t height )
     {
         jpeg_compress_struct & info = writer.info;
 
@@ -202,8 +202,9 @@ namespace
         jpeg_start_compress( &info, TRUE );
 
         JSAMPROW row_pointer[1];
+        const uint8_t * imageData = image.data() + startY * image.rowSize() + startX * image.colorCount();
         while ( info.next_scanline < info.image_height ) {
-            row_pointer[0] = const_cast<uint8_t *>( image.data() + image.rowSize() * info.next_scanline ); // libjpeg is C based library so no choice
+            row_pointer[0] = const_cast<uint8_t *>( imageData + image.rowSize() * info.next_scanline ); // libjpeg is C based library so no choice
             jpeg_write_scanlines( &info, row_pointer, 1 );
         }
 
@@ -243,7 +244,7 @@ namespace Jpeg_Operation
         if ( !writer.file )
             throw penguinVException( "Cannot create file for saving" );
 
-        if ( !writeImage( writer, image, width, height ) )
+        if ( !writeImage( writer, image, startX, startY, width, height ) )
             throw penguinVException( "failed to write data into file" );
     }
 }
-- 
2.43.0


From 2d5fdf12c51333c5846132db256862b36371ff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 092/157] fix: red and blue channels were swapped in jpeg files

Colored images have the order of channels as in bitmap files: blue, green
and red. Such images are handled in this way for png files too.
---
 src/file/jpeg_image.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/file/jpeg_image.cpp b/src/file/jpeg_image.cpp
index ea0d7c7..4406ee9 100644
--- a/src/file/jpeg_image.cpp
+++ b/src/file/jpeg_image.cpp
@@ -76,6 +76,7 @@ namespace Jpeg_Operation
 #include <jerror.h>
 #include <jpeglib.h>
 #include <setjmp.h>
+#include <vector>
 
 namespace
 {
@@ -147,8 +148,21 @@ namespace
         bool isCreated;
         jpeg_compress_struct info;
         JpegErrorManager error;
+
+        std::vector<uint8_t> row;
     };
 
+    void swapRedAndBlue( const uint8_t * in, uint8_t * out, uint32_t width )
+    {
+        for ( uint32_t x = 0; x < width; ++x, in += 3, out += 3 ) {
+            const uint8_t red = in[0];
+            const uint8_t blue = in[2];
+            out[0] = blue;
+            out[1] = in[1];
+            out[2] = red;
+        }
+    }
+
     bool readImage( JpegReader & reader, penguinV::Image & image )
     {
         jpeg_decompress_struct & info = reader.info;
@@ -172,6 +186,9 @@ namespace
         while ( info.output_scanline < info.output_height ) {
             line[0] = image.data() + image.rowSize() * info.output_scanline;
             jpeg_read_scanlines( &info, line, 1 );
+
+            if ( info.out_color_space == JCS_RGB )
+                swapRedAndBlue( line[0], line[0], info.output_width );
         }
 
         jpeg_finish_decompress( &info );
@@ -201,10 +218,18 @@ namespace
 
         jpeg_start_compress( &info, TRUE );
 
+        writer.row.resize( static_cast<size_t>( width ) * image.colorCount() );
+
         JSAMPROW row_pointer[1];
         const uint8_t * imageData = image.data() + startY * image.rowSize() + startX * image.colorCount();
         while ( info.next_scanline < info.image_height ) {
-            row_pointer[0] = const_cast<uint8_t *>( imageData + image.rowSize() * info.next_scanline ); // libjpeg is C based library so no choice
+            const uint8_t * imageRow = imageData + image.rowSize() * info.next_scanline;
+            if ( info.in_color_space == JCS_RGB ) {
+                swapRedAndBlue( imageRow, writer.row.data(), width );
+                imageRow = writer.row.data();
+            }
+
+            row_pointer[0] = const_cast<uint8_t *>( imageRow ); // libjpeg is C based library so no choice
             jpeg_write_scanlines( &info, row_pointer, 1 );
         }
 
-- 
2.43.0


From 3de6fa71c3fd5fdfc5c62b5e711664da300ca18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 093/157] fix: report a failure of closing a jpeg file

---
 src/file/jpeg_image.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/file/jpeg_image.cpp b/src/file/jpeg_image.cpp
index 4406ee9..e0ab52c 100644
--- a/src/file/jpeg_image.cpp
+++ b/src/file/jpeg_image.cpp
@@ -271,6 +271,12 @@ namespace Jpeg_Operation
 
         if ( !writeImage( writer, image, startX, startY, width, height ) )
             throw penguinVException( "failed to write data into file" );
+
+        FILE * file = writer.file;
+        writer.file = nullptr;
+
+        if ( fclose( file ) != 0 )
+            throw penguinVException( "failed to write data into file" );
     }
 }
 #endif
-- 
2.43.0


From 19e28874fa55927f3eb2ebd0238a47bb537a64a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 094/157] fix: refuse saving of images with 4 channels in jpeg
 format before creating a file

---
 src/file/jpeg_image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file/jpeg_image.cpp b/src/file/jpeg_image.cpp
index e0ab52c..3b86077 100644
--- a/src/file/jpeg_image.cpp
+++ b/src/file/jpeg_image.cpp
@@ -263,6 +263,9 @@ namespace Jpeg_Operation
     {
         Image_Function::ValidateImageParameters( image, startX, startY, width, height );
 
+        if ( image.colorCount() != penguinV::GRAY_SCALE && image.colorCount() != penguinV::RGB )
+            throw penguinVException( "Only gray-scale and RGB images can be saved in jpeg format" );
+
         JpegWriter writer;
 
         writer.file = fopen( path.data(), "wb" );
-- 
2.43.0


From 705609454aaab7cb4af0c98c03555dc83e8c243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 095/157] fix: write copied pixels of OpenCL image at the
 position of region of interest

---
 src/opencl/image_function_opencl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index cbe877d..a96e866 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -171,7 +171,7 @@ namespace
             const size_t y = get_global_id(1);
 
             if ( x < width && y < height ) {
-                out[rowSizeOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x];
+                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x];
             }
         }
 
-- 
2.43.0


From 25dec6977a8da305afbb822fcdd9d5c053190bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 096/157] fix: read the pixel of requested column while
 extracting a channel of OpenCL image

---
 src/opencl/image_function_opencl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index a96e866..a0ff644 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -182,7 +182,7 @@ namespace
             const size_t y = get_global_id(1);
 
             if( x < width && y < height )
-                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + (y * rowSizeIn + x) * colorCount + channelId];
+                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x * colorCount + channelId];
         }
 
         __kernel void fillOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uchar value )
-- 
2.43.0


From 383932eaa7bdba22707f37dae290b33357b370d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 097/157] fix: flip only the region of interest of OpenCL image

---
 src/opencl/image_function_opencl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index a0ff644..98f7ce8 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -813,9 +813,9 @@ namespace Image_Function_OpenCL
             const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
-            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, in.width(), in.height(), horizontal, vertical );
+            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, horizontal, vertical );
 
-            multiCL::launchKernel2D( kernel, in.width(), in.height() );
+            multiCL::launchKernel2D( kernel, width, height );
         }
     }
 
-- 
2.43.0


From 6ec10e392a4422324828c88f9a15e0c5a3eec270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 098/157] fix: pass proper arguments to OpenCL kernel searching
 for intensity range

---
 src/opencl/image_function_opencl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 98f7ce8..229c890 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -1111,7 +1111,7 @@ namespace Image_Function_OpenCL
 
         multiCL::Array<uint32_t> rangeOpenCL( range );
 
-        kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, rangeOpenCL.data() );
+        kernel.setArgument( in.data(), offsetIn, rowSizeIn, width, height, rangeOpenCL.data() );
 
         multiCL::launchKernel2D( kernel, width, height );
 
-- 
2.43.0


From d0f85d75d3f871615b14cefd3a8bc3d027444db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 099/157] fix: use the first row and column of region of
 interest in OpenCL functions in the right order

---
 src/opencl/image_function_opencl.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 229c890..3f7cf0d 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -640,7 +640,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, width, height );
@@ -678,7 +678,7 @@ namespace Image_Function_OpenCL
             const uint32_t rowSizeIn = in.rowSize();
             const uint32_t rowSizeOut = out.rowSize();
 
-            const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+            const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
             kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
@@ -712,7 +712,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * colorCount;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height );
@@ -750,7 +750,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, width, height, channelId );
@@ -772,7 +772,7 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "fillOpenCL" );
 
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = y * rowSize + x;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, value );
 
@@ -879,7 +879,7 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "histogramOpenCL" );
 
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = y * rowSize + x;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, histogramOpenCL.data() );
 
@@ -990,7 +990,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * colorCount;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, tableOpenCL.data() );
@@ -1289,7 +1289,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, threshold );
@@ -1324,7 +1324,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, minThreshold, maxThreshold );
-- 
2.43.0


From d8a9468d6d451f23678abe64589a0427bf75a068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 100/157] fix: respect region of interest of OpenCL images
 which need no colour conversion

---
 src/opencl/image_function_opencl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 3f7cf0d..7aff66a 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -630,7 +630,7 @@ namespace Image_Function_OpenCL
         Image_Function::VerifyGrayScaleImage( out );
 
         if ( in.colorCount() == penguinV::GRAY_SCALE ) {
-            Copy( in, out );
+            Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
             return;
         }
 
@@ -669,7 +669,7 @@ namespace Image_Function_OpenCL
         Image_Function::VerifyRGBImage( out );
 
         if ( in.colorCount() == penguinV::RGB ) {
-            Copy( in, out );
+            Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         }
         else {
             const multiCL::OpenCLProgram & program = GetProgram();
-- 
2.43.0


From 727f0086a89678f74eb8eb2e40c06929dbf6ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 101/157] fix: keep alignment of output OpenCL image while
 copying an image

---
 src/opencl/image_function_opencl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 7aff66a..9473a17 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -691,7 +691,7 @@ namespace Image_Function_OpenCL
     {
         Image_Function::ValidateImageParameters( in, out );
 
-        out = in;
+        Copy( in, 0, 0, out, 0, 0, out.width(), out.height() );
     }
 
     Image Copy( const Image & in, uint32_t startXIn, uint32_t startYIn, uint32_t width, uint32_t height )
-- 
2.43.0


From 020fcda081a94004b65a740d92ba69d62c148b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 102/157] fix: do not count alpha channel as a colour in
 conversion of OpenCL image to gray-scale

---
 src/opencl/image_function_opencl.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 9473a17..64f15a8 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -136,14 +136,10 @@ namespace
             if( x < width && y < height ) {
                 __global const uchar * data = in + offsetIn + (rowSizeIn * y) + x * colorCount;
 
-                uint sum = 0;
-                for( uchar i = 0; i < colorCount; ++i, ++data )
-                {
-                    sum += (*data);
-                }
+                const uint sum = data[0] + data[1] + data[2]; // red, green and blue components
 
                 const size_t id = offsetOut + y * rowSizeOut + x;
-                out[id] = sum / colorCount;
+                out[id] = sum / 3;
             }
         }
 
-- 
2.43.0


From 77ed7217622af188927315015fab86f9992a88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 103/157] fix: conversion of OpenCL image with alpha channel to
 rgb

---
 src/opencl/image_function_opencl.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 64f15a8..cbce370 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -143,20 +143,20 @@ namespace
             }
         }
 
-        __kernel void convertToRgbOpenCL( __global const uchar * in, uint offsetIn, uint rowSizeIn, __global uchar * out, uint offsetOut, uint rowSizeOut, uchar colorCount,
-                                          uint width, uint height )
+        __kernel void convertToRgbOpenCL( __global const uchar * in, uint offsetIn, uint rowSizeIn, uchar colorCountIn, __global uchar * out, uint offsetOut, uint rowSizeOut,
+                                          uchar colorCount, uint width, uint height )
         {
             const size_t x = get_global_id(0);
             const size_t y = get_global_id(1);
 
             if( x < width && y < height ) {
-                const size_t id = offsetIn + y * rowSizeIn + x;
+                const size_t id = offsetIn + y * rowSizeIn + x * colorCountIn;
 
                 __global uchar * data = out + offsetOut + (rowSizeOut * y) + x * colorCount;
 
                 for( uchar i = 0; i < colorCount; ++i, ++data )
                 {
-                    (*data) = in[id];
+                    (*data) = (colorCountIn == 1) ? in[id] : in[id + i];
                 }
             }
         }
@@ -677,7 +677,7 @@ namespace Image_Function_OpenCL
             const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
-            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
+            kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
 
             multiCL::launchKernel2D( kernel, width, height );
         }
-- 
2.43.0


From e195dbec15f45746f1a978ffcfe73fe709bfffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 104/157] fix: normalization of OpenCL images with several
 channels

---
 src/opencl/image_function_opencl.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index cbce370..4e6ba11 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -1095,21 +1095,16 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "intensityRangeOpenCL" );
 
         const uint8_t colorCount = Image_Function::CheckCommonColorCount( in, out );
-        width = width * colorCount;
-
         const uint32_t rowSizeIn = in.rowSize();
-        const uint32_t rowSizeOut = out.rowSize();
 
         const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
-        const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
-
         std::vector<uint32_t> range = { 255, 0 };
 
         multiCL::Array<uint32_t> rangeOpenCL( range );
 
-        kernel.setArgument( in.data(), offsetIn, rowSizeIn, width, height, rangeOpenCL.data() );
+        kernel.setArgument( in.data(), offsetIn, rowSizeIn, width * colorCount, height, rangeOpenCL.data() );
 
-        multiCL::launchKernel2D( kernel, width, height );
+        multiCL::launchKernel2D( kernel, width * colorCount, height );
 
         range = rangeOpenCL.get();
 
-- 
2.43.0


From c2a97aaf8f73351ccb3e719471f8a341a78e86e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 105/157] fix: reject minimum threshold bigger than maximum for
 OpenCL images

---
 src/opencl/image_function_opencl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 4e6ba11..d9e4430 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -1308,6 +1308,8 @@ namespace Image_Function_OpenCL
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyGrayScaleImage( in, out );
+        if ( minThreshold > maxThreshold )
+            throw penguinVException( "Minimum threshold value is bigger than maximum threshold value" );
 
         const multiCL::OpenCLProgram & program = GetProgram();
         multiCL::OpenCLKernel kernel( program, "thresholdDoubleOpenCL" );
-- 
2.43.0


From 9af9d3c17f38bc3eafb4b9f636d4bddc18cedd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 106/157] fix: setting of pixels of OpenCL images

---
 src/opencl/image_function_opencl.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index d9e4430..8765b6f 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -322,15 +322,15 @@ namespace
             }
         }
 
-        __kernel void __attribute__(( overloadable )) setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uint x, uint y, uchar value )
+        __kernel void setPixelOpenCL( __global uchar * data, uint rowSize, uint width, uint height, uint x, uint y, uchar value )
         {
             if ( x < width && y < height ) {
-                data[offset + y * rowSize + x] = value;
+                data[y * rowSize + x] = value;
             }
         }
 
-        __kernel void __attribute__(( overloadable )) setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height,
-                                                                      __global const uint * pointX, __global const uint * pointY, uint pointSize, uint value )
+        __kernel void setPixelsOpenCL( __global uchar * data, uint rowSize, uint width, uint height, __global const uint * pointX, __global const uint * pointY,
+                                       uint pointSize, uchar value )
         {
             const size_t id = get_global_id(0);
 
@@ -338,7 +338,7 @@ namespace
                 const uint x = pointX[id];
                 const uint y = pointY[id];
                 if ( x < width && y < height ) {
-                    data[offset + y * rowSize + x] = value;
+                    data[y * rowSize + x] = value;
                 }
             }
         }
@@ -1218,9 +1218,8 @@ namespace Image_Function_OpenCL
         const uint32_t width = image.width();
         const uint32_t height = image.height();
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
 
-        kernel.setArgument( image.data(), offset, rowSize, width, height, x, y, value );
+        kernel.setArgument( image.data(), rowSize, width, height, x, y, value );
 
         multiCL::launchKernel1D( kernel, 1 );
     }
@@ -1230,7 +1229,7 @@ namespace Image_Function_OpenCL
         Image_Function::ValidateImageParameters( image );
 
         const multiCL::OpenCLProgram & program = GetProgram();
-        multiCL::OpenCLKernel kernel( program, "setPixelOpenCL" );
+        multiCL::OpenCLKernel kernel( program, "setPixelsOpenCL" );
 
         if ( image.empty() || X.empty() || X.size() != Y.size() )
             throw penguinVException( "Bad input parameters in image function" );
@@ -1248,7 +1247,7 @@ namespace Image_Function_OpenCL
         multiCL::Array<uint32_t> pointX( X );
         multiCL::Array<uint32_t> pointY( Y );
 
-        kernel.setArgument( image.data(), rowSize, width, height, pointX.data(), pointY.data(), X.size(), value );
+        kernel.setArgument( image.data(), rowSize, width, height, pointX.data(), pointY.data(), static_cast<uint32_t>( X.size() ), value );
 
         multiCL::launchKernel1D( kernel, static_cast<uint32_t>( X.size() ) );
     }
-- 
2.43.0


From 186a81b17b11f2c749490404b86fb63c86bd717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 107/157] fix: transfer of images with padded rows to and from
 OpenCL device

---
 src/opencl/image_function_opencl.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 8765b6f..f93c1af 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -561,16 +561,16 @@ namespace Image_Function_OpenCL
         if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( in.alignment() == 1u || ( in.rowSize() == in.width() * in.colorCount() ) ) {
+        if ( in.rowSize() == out.rowSize() ) {
             const size_t size = static_cast<size_t>( in.rowSize() ) * in.height();
             multiCL::writeBuffer( reinterpret_cast<cl_mem>( out.data() ), size * sizeof( uint8_t ), in.data() );
         }
         else {
             const size_t origin[3] = { 0, 0, 0 };
-            const size_t region[3] = { in.width(), in.height(), 1 };
+            const size_t region[3] = { static_cast<size_t>( in.width() ) * in.colorCount(), in.height(), 1 };
 
-            multiCL::openCLCheck( clEnqueueWriteImage( multiCL::OpenCLDeviceManager::instance().device().queue()(), reinterpret_cast<cl_mem>( out.data() ), CL_TRUE,
-                                                       origin, region, in.rowSize(), 0, in.data(), 0, NULL, NULL ) );
+            multiCL::openCLCheck( clEnqueueWriteBufferRect( multiCL::OpenCLDeviceManager::instance().device().queue()(), reinterpret_cast<cl_mem>( out.data() ), CL_TRUE,
+                                                            origin, origin, region, out.rowSize(), 0, in.rowSize(), 0, in.data(), 0, NULL, NULL ) );
         }
     }
 
@@ -590,17 +590,17 @@ namespace Image_Function_OpenCL
         if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( out.alignment() == 1u || ( out.rowSize() == out.width() * out.colorCount() ) ) {
+        if ( in.rowSize() == out.rowSize() ) {
             const size_t size = static_cast<size_t>( in.rowSize() ) * in.height();
             multiCL::readBuffer( reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), size * sizeof( uint8_t ), out.data() );
         }
         else {
             const size_t origin[3] = { 0, 0, 0 };
-            const size_t region[3] = { out.width(), out.height(), 1 };
+            const size_t region[3] = { static_cast<size_t>( out.width() ) * out.colorCount(), out.height(), 1 };
 
-            multiCL::openCLCheck( clEnqueueReadImage( multiCL::OpenCLDeviceManager::instance().device().queue()(),
-                                                      reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), CL_TRUE, origin, region, out.rowSize(), 0,
-                                                      out.data(), 0, NULL, NULL ) );
+            multiCL::openCLCheck( clEnqueueReadBufferRect( multiCL::OpenCLDeviceManager::instance().device().queue()(),
+                                                           reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), CL_TRUE, origin, origin, region, in.rowSize(), 0,
+                                                           out.rowSize(), 0, out.data(), 0, NULL, NULL ) );
         }
     }
 
-- 
2.43.0


From ee22b34e10cb068de6effe17aaae5fd45c835dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 108/157] fix: release events of OpenCL kernels

---
 src/opencl/opencl_helper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opencl/opencl_helper.cpp b/src/opencl/opencl_helper.cpp
index 4e2079e..dfc8808 100644
--- a/src/opencl/opencl_helper.cpp
+++ b/src/opencl/opencl_helper.cpp
@@ -80,7 +80,10 @@ namespace
         multiCL::openCLCheck( clEnqueueNDRangeKernel( multiCL::OpenCLDeviceManager::instance().device().queue()(), kernel(), parameters.dimensionCount, NULL,
                                                       parameters.dimensionSize, parameters.threadsPerBlock, 0, NULL, &waitingEvent ) );
 
-        multiCL::openCLCheck( clWaitForEvents( 1, &waitingEvent ) );
+        const cl_int error = clWaitForEvents( 1, &waitingEvent );
+        clReleaseEvent( waitingEvent );
+
+        multiCL::openCLCheck( error );
     }
 }
 
-- 
2.43.0


From 090faf1e2656fb944480adb184863dc2250b8dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 109/157] fix: reject setting of pixels of OpenCL images with
 several channels

---
 src/opencl/image_function_opencl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index f93c1af..5468e4a 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -1208,6 +1208,7 @@ namespace Image_Function_OpenCL
     void SetPixel( Image & image, uint32_t x, uint32_t y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
         const multiCL::OpenCLProgram & program = GetProgram();
         multiCL::OpenCLKernel kernel( program, "setPixelOpenCL" );
@@ -1227,6 +1228,7 @@ namespace Image_Function_OpenCL
     void SetPixel( Image & image, const std::vector<uint32_t> & X, const std::vector<uint32_t> & Y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
         const multiCL::OpenCLProgram & program = GetProgram();
         multiCL::OpenCLKernel kernel( program, "setPixelsOpenCL" );
-- 
2.43.0


From 6649aa067f41f03f6d897f3f46c3cde0f3bac8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 110/157] fix: release memory of OpenCL values and arrays which
 cannot be initialized

---
 src/opencl/opencl_types.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/opencl/opencl_types.h b/src/opencl/opencl_types.h
index 886c37a..8b8f528 100644
--- a/src/opencl/opencl_types.h
+++ b/src/opencl/opencl_types.h
@@ -42,7 +42,14 @@ namespace multiCL
         Type( const TData & in )
         {
             _allocate();
-            _copyFrom( in );
+
+            try {
+                _copyFrom( in );
+            }
+            catch ( ... ) {
+                _free();
+                throw;
+            }
         }
 
         Type( Type && in )
@@ -162,7 +169,14 @@ namespace multiCL
         Array( const std::vector<TData> & data )
         {
             _allocate( data.size() );
-            _copyFrom( data );
+
+            try {
+                _copyFrom( data );
+            }
+            catch ( ... ) {
+                _free();
+                throw;
+            }
         }
 
         Array( size_t size )
-- 
2.43.0


From 770589d8c376490ea172826025773334581d97bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 111/157] fix: keep OpenCL arrays consistent when memory cannot
 be allocated

---
 src/opencl/opencl_types.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opencl/opencl_types.h b/src/opencl/opencl_types.h
index 8b8f528..0c47fe6 100644
--- a/src/opencl/opencl_types.h
+++ b/src/opencl/opencl_types.h
@@ -266,6 +266,7 @@ namespace multiCL
         {
             if ( _size != size ) {
                 _free();
+                _size = 0;
 
                 if ( size != 0 )
                     _data = MemoryManager::memory().allocate<TData>( size );
-- 
2.43.0


From 61ef8e83362c7d744d63166e0bd8d2daa669d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 112/157] fix: release image memory when an image cannot be
 copied

---
 src/image_buffer.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index 547d1ac..61fe80d 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -47,7 +47,13 @@ namespace penguinV
         ImageTemplate( const ImageTemplate & image )
             : _deviceType( image._deviceType )
         {
-            copy( image );
+            try {
+                copy( image );
+            }
+            catch ( ... ) {
+                clear();
+                throw;
+            }
         }
 
         ImageTemplate( ImageTemplate && image )
-- 
2.43.0


From f10f53b8e5f12e85b2345244613673fafb92bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 113/157] fix: copying of OpenCL images

---
 src/opencl/image_buffer_opencl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opencl/image_buffer_opencl.h b/src/opencl/image_buffer_opencl.h
index 5ebe84c..3ec7807 100644
--- a/src/opencl/image_buffer_opencl.h
+++ b/src/opencl/image_buffer_opencl.h
@@ -47,8 +47,9 @@ namespace penguinV
         }
 
         ImageTemplateOpenCL( const ImageTemplateOpenCL & image )
+            : ImageTemplate<TColorDepth>( image )
         {
-            ImageTemplate<TColorDepth>::operator=( image );
+            // Do nothing.
         }
 
         ImageTemplateOpenCL( ImageTemplateOpenCL && image )
-- 
2.43.0


From eaf38b3e41d2924411a65121879527b93498373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 114/157] fix: build OpenCL programs again after a device was
 closed and initialized

---
 src/opencl/image_function_opencl.cpp | 16 ++++++++++------
 src/opencl/opencl_device.cpp         |  4 +++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 5468e4a..7795727 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -369,19 +369,23 @@ namespace
 
     const multiCL::OpenCLProgram & GetProgram()
     {
-        static std::map<cl_device_id, std::shared_ptr<multiCL::OpenCLProgram>> deviceProgram;
+        // The context is needed to find out that the device was closed and initialized again.
+        static std::map<cl_device_id, std::pair<cl_context, std::shared_ptr<multiCL::OpenCLProgram>>> deviceProgram;
         static std::mutex mapGuard;
 
         std::lock_guard<std::mutex> lock( mapGuard );
         multiCL::OpenCLDevice & device = multiCL::OpenCLDeviceManager::instance().device();
 
-        std::map<cl_device_id, std::shared_ptr<multiCL::OpenCLProgram>>::const_iterator program = deviceProgram.find( device.deviceId() );
-        if ( program != deviceProgram.cend() )
-            return *( program->second );
+        const cl_context context = device.context()();
 
-        deviceProgram[device.deviceId()] = std::shared_ptr<multiCL::OpenCLProgram>( new multiCL::OpenCLProgram( device.context(), programCode.data() ) );
+        const auto foundProgram = deviceProgram.find( device.deviceId() );
+        if ( foundProgram != deviceProgram.end() && foundProgram->second.first == context )
+            return *( foundProgram->second.second );
 
-        return *( deviceProgram[device.deviceId()] );
+        const std::shared_ptr<multiCL::OpenCLProgram> program( new multiCL::OpenCLProgram( device.context(), programCode.data() ) );
+        deviceProgram[device.deviceId()] = std::make_pair( context, program );
+
+        return *program;
     }
 }
 
diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index bbd5357..514be63 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -67,6 +67,7 @@ namespace
             program.reset();
         }
 
+        cl_context context{ NULL };
         std::shared_ptr<multiCL::OpenCLProgram> program;
         std::shared_ptr<multiCL::OpenCLKernel> kernel;
     };
@@ -80,11 +81,12 @@ namespace
         multiCL::OpenCLDevice & device = multiCL::OpenCLDeviceManager::instance().device();
 
         auto program = deviceProgram.find( device.deviceId() );
-        if ( program != deviceProgram.cend() ) {
+        if ( program != deviceProgram.cend() && program->second.context == device.context()() ) {
             return *( program->second.kernel );
         }
 
         MemsetKernelHolder holder;
+        holder.context = device.context()();
         holder.program = std::shared_ptr<multiCL::OpenCLProgram>( new multiCL::OpenCLProgram( device.context(), memsetCode.data() ) );
         holder.kernel = std::shared_ptr<multiCL::OpenCLKernel>( new multiCL::OpenCLKernel( *( holder.program ), "memsetOpenCL" ) );
 
-- 
2.43.0


From d41b0b7b8bcb635136ae98d72b15e5f3b17c6347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 115/157] fix: reject IDs of OpenCL devices which do not exist

---
 src/opencl/opencl_device.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index 514be63..a86e7a8 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -391,6 +391,10 @@ namespace multiCL
             throw penguinVException( "Device manager does not contain any devices" );
         }
 
+        if ( deviceId >= _supportedDeviceId.size() ) {
+            throw penguinVException( "System does not contain a device with such ID" );
+        }
+
         auto foundDevice
             = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
@@ -407,6 +411,10 @@ namespace multiCL
             throw penguinVException( "Device manager does not contain any devices" );
         }
 
+        if ( deviceId >= _supportedDeviceId.size() ) {
+            throw penguinVException( "System does not contain a device with such ID" );
+        }
+
         auto foundDevice
             = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
@@ -419,6 +427,10 @@ namespace multiCL
 
     void OpenCLDeviceManager::setActiveDevice( uint32_t deviceId )
     {
+        if ( deviceId >= _supportedDeviceId.size() ) {
+            throw penguinVException( "System does not contain a device with such ID" );
+        }
+
         auto foundDevice
             = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
-- 
2.43.0


From b4671e8f1e92a77e19383653b224cba1178f889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 116/157] fix: release resources of an OpenCL device which
 cannot be initialized

---
 src/opencl/opencl_device.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index a86e7a8..d301d61 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -232,7 +232,13 @@ namespace multiCL
     {
         _allocator = new MemoryAllocator( _context(), _deviceId, static_cast<size_t>( totalMemorySize() ) );
 
-        setQueueCount( 1u );
+        try {
+            setQueueCount( 1u );
+        }
+        catch ( ... ) {
+            delete _allocator;
+            throw;
+        }
     }
 
     OpenCLDevice::~OpenCLDevice()
-- 
2.43.0


From 9bd80c22757b737f922847cdea0ce275223344f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 117/157] fix: keep at least one queue of OpenCL device

---
 src/opencl/opencl_device.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index d301d61..9866723 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -305,6 +305,11 @@ namespace multiCL
 
     void OpenCLDevice::setQueueCount( size_t queueCount )
     {
+        // A device without queues is not usable.
+        if ( queueCount == 0u ) {
+            queueCount = 1u;
+        }
+
         // No real device needs more than 255 queues.
         if ( queueCount > 255u ) {
             queueCount = 255u;
-- 
2.43.0


From 98ce7b64a99356277092271b1890cbd1c2ef4309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 118/157] fix: do not list OpenCL devices without a context as
 supported ones

---
 src/opencl/opencl_device.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index 9866723..01278d2 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -487,6 +487,7 @@ namespace multiCL
                     cl_int error;
                     cl_context _context = clCreateContext( NULL, 1u, &_supportedDeviceId[supportedDeviceCount + deviceId], NULL, NULL, &error );
                     if ( error != CL_SUCCESS ) {
+                        _supportedDeviceId.erase( _supportedDeviceId.begin() + static_cast<std::ptrdiff_t>( supportedDeviceCount + deviceId ) );
                         --deviceCount;
                     }
                     else {
-- 
2.43.0


From f12306e88e049020cf1e4c17b0de01b6076bc5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 119/157] fix: terminate source code of OpenCL programs read
 from a file

---
 src/opencl/opencl_helper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opencl/opencl_helper.cpp b/src/opencl/opencl_helper.cpp
index dfc8808..c57496b 100644
--- a/src/opencl/opencl_helper.cpp
+++ b/src/opencl/opencl_helper.cpp
@@ -180,6 +180,8 @@ namespace multiCL
 
         file.close();
 
+        fileContent.push_back( '\0' );
+
         return OpenCLProgram( context, fileContent.data() );
     }
 
-- 
2.43.0


From 7949674d3a6490d87a7f6a364baaee86e2d8c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 120/157] fix: keep alignment of output CUDA image while
 copying an image

---
 src/cuda/image_function_cuda.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index d038ec1..c424d48 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -694,7 +694,7 @@ namespace Image_Function_Cuda
     {
         Image_Function::ValidateImageParameters( in, out );
 
-        out = in;
+        Copy( in, 0, 0, out, 0, 0, out.width(), out.height() );
     }
 
     Image Copy( const Image & in, uint32_t startXIn, uint32_t startYIn, uint32_t width, uint32_t height )
-- 
2.43.0


From 1e20c55e2b9589a2401f05471acf65169ac07e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 121/157] fix: transfer of images with padded rows to and from
 CUDA device

---
 src/cuda/image_function_cuda.cu | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index c424d48..25b717e 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -566,9 +566,9 @@ namespace Image_Function_Cuda
              in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( in.alignment() == 1u || (in.rowSize() == in.width() * in.colorCount()) )
+        if ( in.rowSize() == in.width() * in.colorCount() && in.rowSize() == out.rowSize() )
         {
-            const uint32_t size = in.rowSize() * in.height();
+            const size_t size = static_cast<size_t>( in.rowSize() ) * in.height();
 
             if ( !multiCuda::cudaSafeCheck( cudaMemcpy( out.data(), in.data(), size * sizeof( uint8_t ), cudaMemcpyHostToDevice ) ) )
                 throw penguinVException( "Cannot copy a memory to CUDA device" );
@@ -599,9 +599,9 @@ namespace Image_Function_Cuda
              in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( out.alignment() == 1u || (out.rowSize() == out.width() * out.colorCount()) )
+        if ( out.rowSize() == out.width() * out.colorCount() && out.rowSize() == in.rowSize() )
         {
-            const uint32_t size = in.rowSize() * in.height();
+            const size_t size = static_cast<size_t>( in.rowSize() ) * in.height();
 
             if ( !multiCuda::cudaSafeCheck( cudaMemcpy( out.data(), in.data(), size, cudaMemcpyDeviceToHost ) ) )
                 throw penguinVException( "Cannot copy a memory from CUDA device" );
-- 
2.43.0


From 0c3009127d940336f3894f16b6d849e0d9646a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 122/157] fix: do not count alpha channel as a colour in
 conversion of CUDA image to gray-scale

---
 src/cuda/image_function_cuda.cu | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index 25b717e..7811f7d 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -128,16 +128,11 @@ namespace
 
         if ( x < width && y < height ) {
             const uint8_t * data = in + y * rowSizeIn + x * colorCount;
-            const uint8_t * dataEnd = data + colorCount;
 
-            uint32_t sum = 0;
-            for ( ; data != dataEnd; ++data )
-            {
-                sum += (*data);
-            }
+            const uint32_t sum = data[0] + data[1] + data[2]; // red, green and blue components
 
             const uint32_t id = y * rowSizeOut + x;
-            out[id] = static_cast<uint8_t>(sum / colorCount);
+            out[id] = static_cast<uint8_t>(sum / 3);
         }
     }
 
-- 
2.43.0


From 7222bc155a40fd442958187aadbf64cb0edd6e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 123/157] fix: conversion of CUDA image with alpha channel to
 rgb

---
 src/cuda/image_function_cuda.cu | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index 7811f7d..5355392 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -136,21 +136,20 @@ namespace
         }
     }
 
-    __global__ void convertToRgbCuda( const uint8_t * in, uint32_t rowSizeIn, uint8_t * out, uint32_t rowSizeOut, uint8_t colorCount,
+    __global__ void convertToRgbCuda( const uint8_t * in, uint32_t rowSizeIn, uint8_t colorCountIn, uint8_t * out, uint32_t rowSizeOut, uint8_t colorCount,
                                       uint32_t width, uint32_t height )
     {
         const uint32_t x = blockDim.x * blockIdx.x + threadIdx.x;
         const uint32_t y = blockDim.y * blockIdx.y + threadIdx.y;
 
         if ( x < width && y < height ) {
-            const uint8_t * dataIn = in + y * rowSizeIn + x;
+            const uint8_t * dataIn = in + y * rowSizeIn + x * colorCountIn;
 
             uint8_t * dataOut = out + y * rowSizeOut + x * colorCount;
-            const uint8_t * dataOutEnd = dataOut + colorCount;
 
-            for ( ; dataOut != dataOutEnd; ++dataOut )
+            for ( uint8_t i = 0; i < colorCount; ++i )
             {
-                (*dataOut) = (*dataIn);
+                dataOut[i] = (colorCountIn == 1) ? dataIn[0] : dataIn[i];
             }
         }
     }
@@ -678,11 +677,11 @@ namespace Image_Function_Cuda
 
         const uint8_t colorCount = out.colorCount();
 
-        const uint8_t * inY  = in.data()  + startYIn  * rowSizeIn  + startXIn;
+        const uint8_t * inY  = in.data()  + startYIn  * rowSizeIn  + startXIn  * in.colorCount();
         uint8_t       * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         launchKernel2D( convertToRgbCuda, width, height,
-                        inY, rowSizeIn, outY, rowSizeOut, colorCount, width, height );
+                        inY, rowSizeIn, in.colorCount(), outY, rowSizeOut, colorCount, width, height );
     }
 
     void Copy( const Image & in, Image & out )
-- 
2.43.0


From 891757832662603a4e7575ae294a104c0214b821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 124/157] fix: reject minimum threshold bigger than maximum for
 CUDA images

---
 src/cuda/image_function_cuda.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index 5355392..b770aed 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -1234,6 +1234,8 @@ namespace Image_Function_Cuda
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyGrayScaleImage( in, out );
+        if ( minThreshold > maxThreshold )
+            throw penguinVException( "Minimum threshold value is bigger than maximum threshold value" );
 
         const uint32_t rowSizeIn  = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
-- 
2.43.0


From 9e1cfb279d0f8ca49e4d14ac64b4c1a958bd09a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 125/157] fix: reject setting of pixels of CUDA images with
 several channels

---
 src/cuda/image_function_cuda.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index b770aed..8a5203e 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -1114,6 +1114,7 @@ namespace Image_Function_Cuda
     void SetPixel( Image & image, uint32_t x, uint32_t y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
         if ( x >= image.width() || y >= image.height() )
             throw penguinVException( "Bad input parameters in image function" );
@@ -1125,6 +1126,7 @@ namespace Image_Function_Cuda
     void SetPixel( Image & image, const std::vector<uint32_t> & X, const std::vector<uint32_t> & Y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
         if ( X.size() != Y.size() )
             throw penguinVException( "Bad input parameters in image function" );
-- 
2.43.0


From a15f65f3af4a61fac2660647794a69f325d06565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 126/157] fix: order operations in CUDA streams with transfers
 of memory

---
 src/cuda/cuda_device.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/cuda_device.cu b/src/cuda/cuda_device.cu
index 456a8c0..88dabe6 100644
--- a/src/cuda/cuda_device.cu
+++ b/src/cuda/cuda_device.cu
@@ -391,7 +391,8 @@ namespace multiCuda
     CudaStream::CudaStream()
         : _id( 0 )
     {
-        cudaCheck( cudaStreamCreateWithFlags( &_id, cudaStreamNonBlocking ) );
+        // memory is copied and filled in the default stream so operations in other streams must be synchronized with it
+        cudaCheck( cudaStreamCreateWithFlags( &_id, cudaStreamDefault ) );
     }
 
     CudaStream::~CudaStream()
-- 
2.43.0


From 071a745145ab00c19f0c235be14b776b3e5905bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 127/157] fix: set pixels beyond input CUDA image to 0 while
 rotating

---
 src/cuda/image_function_cuda.cu | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index 8a5203e..8f655e3 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -308,17 +308,17 @@ namespace
             const float exactInX = inXStart + cosAngle * outX + sinAngle * outY;
             const float exactInY = inYStart - sinAngle * outX + cosAngle * outY;
 
-            const int32_t inX = static_cast<int32_t>(exactInX);
-            const int32_t inY = static_cast<int32_t>(exactInY);
-
             // Shift to the output pixel
             out = out + outY * rowSizeOut + outX;
 
             // Note that we will be taking an average with next pixels, so next pixels need to be in the image too
-            if ( inX < 0 || inX >= width - 1 || inY < 0 || inY >= height - 1 ) {
+            if ( !( exactInX >= 0 && exactInX < width - 1 && exactInY >= 0 && exactInY < height - 1 ) ) {
                 *out = 0; // We do not actually know what is beyond the image, so set value to 0
             }
             else {
+                const uint32_t inX = static_cast<uint32_t>(exactInX);
+                const uint32_t inY = static_cast<uint32_t>(exactInY);
+
                 // Shift to the input pixel
                 in = in + inY * rowSizeIn + inX;
 
-- 
2.43.0


From a292940151c5725de7a2188be35b58946fcd4cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 128/157] fix: copying of CUDA images

---
 src/cuda/image_buffer_cuda.cuh        | 2 +-
 src/cuda/image_buffer_cuda_pinned.cuh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cuda/image_buffer_cuda.cuh b/src/cuda/image_buffer_cuda.cuh
index b3cc49c..8f117f3 100644
--- a/src/cuda/image_buffer_cuda.cuh
+++ b/src/cuda/image_buffer_cuda.cuh
@@ -38,8 +38,8 @@ namespace penguinV
         }
 
         ImageTemplateCuda( const ImageTemplateCuda & image )
+            : ImageTemplate<TColorDepth>( image )
         {
-            ImageTemplate<TColorDepth>::operator=( image );
         }
 
         ImageTemplateCuda( ImageTemplateCuda && image )
diff --git a/src/cuda/image_buffer_cuda_pinned.cuh b/src/cuda/image_buffer_cuda_pinned.cuh
index 1995478..456c719 100644
--- a/src/cuda/image_buffer_cuda_pinned.cuh
+++ b/src/cuda/image_buffer_cuda_pinned.cuh
@@ -38,8 +38,8 @@ namespace penguinV
         }
 
         ImageTemplateCudaPinned( const ImageTemplateCudaPinned & image )
+            : ImageTemplate<TColorDepth>( image )
         {
-            ImageTemplate<TColorDepth>::operator=( image );
         }
 
         ImageTemplateCudaPinned( ImageTemplateCudaPinned && image )
-- 
2.43.0


From e64e060c1d5589989ea50b80e1ce6b8d1a9dfd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 129/157] fix: keep CUDA arrays consistent when memory cannot
 be allocated

---
 src/cuda/cuda_types.cuh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cuda/cuda_types.cuh b/src/cuda/cuda_types.cuh
index 2acb783..55927e8 100644
--- a/src/cuda/cuda_types.cuh
+++ b/src/cuda/cuda_types.cuh
@@ -276,6 +276,7 @@ namespace multiCuda
         {
             if( _size != size ) {
                 _free();
+                _size = 0;
 
                 if( size != 0 )
                     _data = MemoryManager::memory().allocate<TData>( size );
-- 
2.43.0


From 05faaffb15734d47c815ba3ab9c0380d88014a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 130/157] fix: copying of empty CUDA arrays

---
 src/cuda/cuda_types.cuh | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/cuda/cuda_types.cuh b/src/cuda/cuda_types.cuh
index 55927e8..dd26c2c 100644
--- a/src/cuda/cuda_types.cuh
+++ b/src/cuda/cuda_types.cuh
@@ -294,9 +294,6 @@ namespace multiCuda
                 if( error != cudaSuccess )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
-            else {
-                throw penguinVException( "Memory in CUDA device is not allocated" );
-            }
         }
 
         void _swap( Array & in )
-- 
2.43.0


From 8dc538499e7e7655650f3ad8693ce6ca8bdef24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 131/157] fix: release memory of CUDA values and arrays which
 cannot be initialized

---
 src/cuda/cuda_types.cuh | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/cuda/cuda_types.cuh b/src/cuda/cuda_types.cuh
index dd26c2c..83459db 100644
--- a/src/cuda/cuda_types.cuh
+++ b/src/cuda/cuda_types.cuh
@@ -42,14 +42,28 @@ namespace multiCuda
             : _data( NULL )
         {
             _allocate();
-            _copyFrom( in );
+
+            try {
+                _copyFrom( in );
+            }
+            catch( ... ) {
+                _free();
+                throw;
+            }
         }
 
         Type( const Type & in )
             : _data( NULL )
         {
             _allocate();
-            _copy( in );
+
+            try {
+                _copy( in );
+            }
+            catch( ... ) {
+                _free();
+                throw;
+            }
         }
 
         Type( Type && in )
@@ -179,7 +193,14 @@ namespace multiCuda
             , _size( 0 )
         {
             _allocate( data.size() );
-            _copyFrom( data );
+
+            try {
+                _copyFrom( data );
+            }
+            catch( ... ) {
+                _free();
+                throw;
+            }
         }
 
         Array( size_t size )
@@ -193,7 +214,13 @@ namespace multiCuda
             : _data( NULL )
             , _size( 0 )
         {
-            _copy( in );
+            try {
+                _copy( in );
+            }
+            catch( ... ) {
+                _free();
+                throw;
+            }
         }
 
         Array ( Array && in )
-- 
2.43.0


From 3372140fa174f4db385ab6dcc6f2da59c2ffdc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 132/157] fix: do not report an error of CUDA function again
 while launching kernels

---
 src/cuda/cuda_memory.cuh              | 13 +++++--------
 src/cuda/cuda_types.cuh               | 19 +++++++------------
 src/cuda/image_buffer_cuda.cuh        |  7 +++----
 src/cuda/image_buffer_cuda_pinned.cuh |  7 +++----
 4 files changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/cuda/cuda_memory.cuh b/src/cuda/cuda_memory.cuh
index 1571ecd..ecd9703 100644
--- a/src/cuda/cuda_memory.cuh
+++ b/src/cuda/cuda_memory.cuh
@@ -22,6 +22,7 @@
 
 #include <cuda_runtime.h>
 #include <map>
+#include "cuda_helper.cuh"
 #include "../memory/memory_allocator.h"
 
 namespace multiCuda
@@ -63,8 +64,7 @@ namespace multiCuda
 
             // if no space in preallocated memory just allocate as usual memory
             _DataType* address = nullptr;
-            cudaError_t error = cudaMalloc( &address, size );
-            if ( error != cudaSuccess )
+            if ( !cudaSafeCheck( cudaMalloc( &address, size ) ) )
                 throw std::logic_error( "Cannot allocate a memory for CUDA device" );
 
             return address;
@@ -88,8 +88,7 @@ namespace multiCuda
                 }
             }
 
-            cudaError_t error = cudaFree( address );
-            if ( error != cudaSuccess )
+            if ( !cudaSafeCheck( cudaFree( address ) ) )
                 throw std::logic_error( "Cannot deallocate memory for CUDA device" );
         }
 
@@ -118,8 +117,7 @@ namespace multiCuda
 
                 _free();
 
-                cudaError_t error = cudaMalloc( &_data, size );
-                if ( error != cudaSuccess )
+                if ( !cudaSafeCheck( cudaMalloc( &_data, size ) ) )
                     throw std::logic_error( "Cannot allocate a memory for CUDA device" );
 
                 _size = size;
@@ -130,8 +128,7 @@ namespace multiCuda
         virtual void _deallocate()
         {
             if ( _data != nullptr ) {
-                cudaError_t error = cudaFree( _data );
-                if ( error != cudaSuccess )
+                if ( !cudaSafeCheck( cudaFree( _data ) ) )
                     throw std::logic_error( "Cannot deallocate memory for CUDA device" );
                 _data = nullptr;
             }
diff --git a/src/cuda/cuda_types.cuh b/src/cuda/cuda_types.cuh
index 83459db..00c44fc 100644
--- a/src/cuda/cuda_types.cuh
+++ b/src/cuda/cuda_types.cuh
@@ -21,6 +21,7 @@
 #pragma once
 
 #include "cuda_device.cuh"
+#include "cuda_helper.cuh"
 #include "../penguinv_exception.h"
 
 namespace multiCuda
@@ -134,8 +135,7 @@ namespace multiCuda
         void _copy( const Type & in )
         {
             if( _data != NULL && in._data != NULL ) {
-                cudaError_t error = cudaMemcpy( _data, in._data, sizeof( TData ), cudaMemcpyDeviceToDevice );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( _data, in._data, sizeof( TData ), cudaMemcpyDeviceToDevice ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
             else {
@@ -151,8 +151,7 @@ namespace multiCuda
         void _copyFrom( const TData & in )
         {
             if( _data != NULL ) {
-                cudaError_t error = cudaMemcpy( _data, &in, sizeof( TData ), cudaMemcpyHostToDevice );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( _data, &in, sizeof( TData ), cudaMemcpyHostToDevice ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
             else {
@@ -165,8 +164,7 @@ namespace multiCuda
             TData out;
 
             if( _data != NULL ) {
-                cudaError_t error = cudaMemcpy( &out, _data, sizeof( TData ), cudaMemcpyDeviceToHost );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( &out, _data, sizeof( TData ), cudaMemcpyDeviceToHost ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
             else {
@@ -317,8 +315,7 @@ namespace multiCuda
             _allocate( in._size );
 
             if( in._data != NULL ) {
-                cudaError_t error = cudaMemcpy( _data, in._data, _size * sizeof( TData ), cudaMemcpyDeviceToDevice );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( _data, in._data, _size * sizeof( TData ), cudaMemcpyDeviceToDevice ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
         }
@@ -332,8 +329,7 @@ namespace multiCuda
         void _copyFrom( const std::vector <TData> & data )
         {
             if( _data != NULL && _size == data.size() ) {
-                cudaError_t error = cudaMemcpy( _data, data.data(), _size * sizeof( TData ), cudaMemcpyHostToDevice );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( _data, data.data(), _size * sizeof( TData ), cudaMemcpyHostToDevice ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
         }
@@ -343,8 +339,7 @@ namespace multiCuda
             std::vector <TData> out( _size );
 
             if( _data != NULL ) {
-                cudaError_t error = cudaMemcpy( out.data(), _data, _size * sizeof( TData ), cudaMemcpyDeviceToHost );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( out.data(), _data, _size * sizeof( TData ), cudaMemcpyDeviceToHost ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
 
diff --git a/src/cuda/image_buffer_cuda.cuh b/src/cuda/image_buffer_cuda.cuh
index 8f117f3..fa86c34 100644
--- a/src/cuda/image_buffer_cuda.cuh
+++ b/src/cuda/image_buffer_cuda.cuh
@@ -21,6 +21,7 @@
 #pragma once
 
 #include "../image_buffer.h"
+#include "cuda_helper.cuh"
 #include "cuda_device.cuh"
 
 namespace penguinV
@@ -73,15 +74,13 @@ namespace penguinV
 
         static void _copyMemory( TColorDepth * out, TColorDepth * in, size_t size )
         {
-            cudaError error = cudaMemcpy( out, in, size, cudaMemcpyDeviceToDevice );
-            if( error != cudaSuccess )
+            if( !multiCuda::cudaSafeCheck( cudaMemcpy( out, in, size, cudaMemcpyDeviceToDevice ) ) )
                 throw penguinVException( "Cannot copy a memory in CUDA device" );
         }
 
         static void _setMemory( TColorDepth * data, TColorDepth value, size_t size )
         {
-            cudaError_t error = cudaMemset( data, value, size );
-            if( error != cudaSuccess )
+            if( !multiCuda::cudaSafeCheck( cudaMemset( data, value, size ) ) )
                 throw penguinVException( "Cannot fill a memory for CUDA device" );
         }
     };
diff --git a/src/cuda/image_buffer_cuda_pinned.cuh b/src/cuda/image_buffer_cuda_pinned.cuh
index 456c719..6a53091 100644
--- a/src/cuda/image_buffer_cuda_pinned.cuh
+++ b/src/cuda/image_buffer_cuda_pinned.cuh
@@ -22,6 +22,7 @@
 
 #include <cuda_runtime.h>
 #include "../image_buffer.h"
+#include "cuda_helper.cuh"
 
 namespace penguinV
 {
@@ -65,8 +66,7 @@ namespace penguinV
         {
             uint8_t * data = nullptr;
 
-            cudaError_t error = cudaMallocHost( &data, sizeof(uint8_t) * size );
-            if( error != cudaSuccess )
+            if( !multiCuda::cudaSafeCheck( cudaMallocHost( &data, sizeof(uint8_t) * size ) ) )
                 throw penguinVException( "Cannot allocate pinned memory on HOST" );
 
             return data;
@@ -74,8 +74,7 @@ namespace penguinV
 
         static void _deallocateMemory( TColorDepth * data )
         {
-            cudaError_t error = cudaFreeHost( data );
-            if( error != cudaSuccess )
+            if( !multiCuda::cudaSafeCheck( cudaFreeHost( data ) ) )
                 throw penguinVException( "Cannot deallocate pinned memory on HOST" );
         }
     };
-- 
2.43.0


From 01066105cdaba534e39e1ec1d1492f359119f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 133/157] fix: keep active CUDA device while closing another
 one

---
 src/cuda/cuda_device.cu | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cuda/cuda_device.cu b/src/cuda/cuda_device.cu
index 88dabe6..db85e40 100644
--- a/src/cuda/cuda_device.cu
+++ b/src/cuda/cuda_device.cu
@@ -122,11 +122,15 @@ namespace multiCuda
 
     CudaDevice::~CudaDevice()
     {
-        setActive();
+        const int previousDeviceId = getDefaultDeviceId();
+        cudaSafeCheck( cudaSetDevice( _deviceId ) );
+
         delete _allocator;
 
         for( std::vector< CudaStream * >::iterator streamId = _stream.begin(); streamId != _stream.end(); ++streamId )
             delete (*streamId);
+
+        cudaSafeCheck( cudaSetDevice( previousDeviceId ) );
     }
 
     int CudaDevice::deviceId() const
-- 
2.43.0


From 1bed3dc9b43357226e0c676b0e1a2a493f201a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 134/157] fix: do not throw exceptions from destructor while
 initializing CUDA device

---
 src/cuda/cuda_device.cu | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cuda/cuda_device.cu b/src/cuda/cuda_device.cu
index db85e40..8274a31 100644
--- a/src/cuda/cuda_device.cu
+++ b/src/cuda/cuda_device.cu
@@ -60,8 +60,7 @@ namespace
         ~DeviceAutoRestorer()
         {
             if( _currentDeviceId != _previousDeviceId ) {
-                multiCuda::cudaCheck( cudaSetDevice( _previousDeviceId ) );
-                setDefaultDeviceId( _previousDeviceId );
+                multiCuda::cudaSafeCheck( cudaSetDevice( _previousDeviceId ) );
             }
         }
 
-- 
2.43.0


From dac6659fa539e1855ef8726d556f65a3eb957d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 135/157] fix: allow CUDA FFT executors without size

---
 src/cuda/cuda_fft.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 0f8ac54..3ce6990 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -171,7 +171,8 @@ namespace FFT_Cuda
     FFTExecutor::FFTExecutor( uint32_t width_, uint32_t height_ )
         : _plan ( 0 )
     {
-        initialize( width_, height_ );
+        if ( width_ != 0 && height_ != 0 )
+            initialize( width_, height_ );
     }
 
     FFTExecutor::~FFTExecutor()
-- 
2.43.0


From e49727e66f0063c6801c28c01100f4b87ef7b929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 136/157] fix: release CUDA complex data which cannot be
 initialized

---
 src/cuda/cuda_fft.cu | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 3ce6990..7b30c13 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -94,12 +94,24 @@ namespace FFT_Cuda
 
     ComplexData::ComplexData( const penguinV::Image & image )
     {
-        set( image );
+        try {
+            set( image );
+        }
+        catch ( ... ) {
+            _clean();
+            throw;
+        }
     }
 
     ComplexData::ComplexData( const ComplexData & data )
     {
-        _copy( data );
+        try {
+            _copy( data );
+        }
+        catch ( ... ) {
+            _clean();
+            throw;
+        }
     }
 
     ComplexData::ComplexData( ComplexData && data )
-- 
2.43.0


From f5b37d018ec2e6a76bb8873dc4503cd9c0565605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 137/157] fix: read rows of CUDA images properly while
 preparing data for FFT

---
 src/cuda/cuda_fft.cu | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 7b30c13..38312ba 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -27,14 +27,14 @@
 
 namespace
 {
-    __global__ void copyFromImageCuda( const uint8_t * in, cufftComplex * out, uint32_t width, uint32_t height )
+    __global__ void copyFromImageCuda( const uint8_t * in, uint32_t rowSizeIn, cufftComplex * out, uint32_t width, uint32_t height )
     {
         const uint32_t x = blockDim.x * blockIdx.x + threadIdx.x;
         const uint32_t y = blockDim.y * blockIdx.y + threadIdx.y;
 
         if( x < width && y < height ) {
             const uint32_t id = y * width + x;
-            out[id].x = in[id];
+            out[id].x = in[y * rowSizeIn + x];
             out[id].y = 0;
         }
     }
@@ -137,7 +137,7 @@ namespace FFT_Cuda
         _height = image.height();
 
         launchKernel2D( copyFromImageCuda, _width, _height,
-                        image.data(), _data, _width, _height );
+                        image.data(), image.rowSize(), _data, _width, _height );
     }
 
     void ComplexData::set( const multiCuda::Array<float> & data )
-- 
2.43.0


From 12ce83b5599a157ecd300c0ccaed3c935ba8b325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 138/157] fix: swap quadrants of CUDA images with odd width or
 height

---
 src/cuda/cuda_fft.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 38312ba..49fd4c0 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -62,8 +62,8 @@ namespace
             const uint32_t middleX = width / 2;
             const uint32_t middleY = height / 2;
 
-            const uint32_t outX = (inX < middleX) ? middleX + inX : inX - middleX;
-            const uint32_t outY = (inY < middleY) ? middleY + inY : inY - middleY;
+            const uint32_t outX = (inX < middleX) ? width - middleX + inX : inX - middleX;
+            const uint32_t outY = (inY < middleY) ? height - middleY + inY : inY - middleY;
 
             out[outY * width + outX] = static_cast<uint8_t>(in[id].x / size + 0.5f);
         }
-- 
2.43.0


From b3c56a41ed0c51652463b86d6e08fb08382f650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 139/157] fix: order of dimensions in FFT plan on CUDA device

---
 src/cuda/cuda_fft.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 49fd4c0..fc9b926 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -240,7 +240,7 @@ namespace FFT_Cuda
 
     void FFTExecutor::_makePlans()
     {
-        if ( cufftPlan2d( &_plan, _width, _height, CUFFT_C2C ) != CUFFT_SUCCESS )
+        if ( cufftPlan2d( &_plan, _height, _width, CUFFT_C2C ) != CUFFT_SUCCESS )
             throw penguinVException( "Cannot create FFT plan on CUDA device" );
     }
 }
-- 
2.43.0


From 6e70c9d49a0a3f73a48bcab74875ad2413ee903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 140/157] fix: multiply all complex values on CUDA device

---
 src/cuda/cuda_fft.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index fc9b926..53f9e88 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -225,8 +225,8 @@ namespace FFT_Cuda
         if ( !FFT::equalSize( in1, in2 ) || !FFT::equalSize( in1, out ) || in1.width() == 0 || in2.height() == 0 )
             throw penguinVException( "Invalid parameters for FFTExecutor" );
 
-        launchKernel2D( complexMultiplicationCuda, _width, _height,
-                        in1.data(), in2.data(), out.data(), _width, _height );
+        launchKernel2D( complexMultiplicationCuda, in1.width(), in1.height(),
+                        in1.data(), in2.data(), out.data(), in1.width(), in1.height() );
     }
 
     void FFTExecutor::_cleanPlans()
-- 
2.43.0


From 17842cd9ddf54dc0f69103de7305a71bb569cf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 141/157] fix: number of threads in 3D blocks of CUDA kernels

---
 src/cuda/cuda_helper.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuda/cuda_helper.cu b/src/cuda/cuda_helper.cu
index b2021b8..e909cfb 100644
--- a/src/cuda/cuda_helper.cu
+++ b/src/cuda/cuda_helper.cu
@@ -73,7 +73,7 @@ namespace
             threadsPerBlock.y = threadTotalCount / (threadsPerBlock.x * threadsPerBlock.z);
         }
 
-        adjust2DThreadsPerBlock( threadTotalCount, blockDimension, threadsPerBlock );
+        adjust2DThreadsPerBlock( threadTotalCount / threadsPerBlock.z, blockDimension, threadsPerBlock );
     }
 }
 
-- 
2.43.0


From f5a9afcffe8912e0f05eea0f3ff402f2cb8ebb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 142/157] fix: overflow while computing grid of CUDA kernels

---
 src/cuda/cuda_helper.cu | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/cuda/cuda_helper.cu b/src/cuda/cuda_helper.cu
index e909cfb..5ca8cac 100644
--- a/src/cuda/cuda_helper.cu
+++ b/src/cuda/cuda_helper.cu
@@ -66,6 +66,16 @@ namespace
         }
     }
 
+    bool isBlockCountValid( uint32_t size, uint32_t threadsPerBlock, uint32_t maximumBlockCount )
+    {
+        return static_cast<uint64_t>( threadsPerBlock ) * maximumBlockCount >= size;
+    }
+
+    uint32_t getBlockCount( uint32_t size, uint32_t threadsPerBlock )
+    {
+        return static_cast<uint32_t>( (static_cast<uint64_t>( size ) + threadsPerBlock - 1) / threadsPerBlock );
+    }
+
     void adjust3DThreadsPerBlock( uint32_t threadTotalCount, const dim3 & blockDimension, dim3 & threadsPerBlock )
     {
         if( threadsPerBlock.z > blockDimension.z ) {
@@ -164,10 +174,10 @@ namespace multiCuda
 
         const uint32_t threadsPerBlockX = (threadTotalCount <= blockDimension.x) ? threadTotalCount : blockDimension.x;
 
-        if( threadsPerBlockX * dimensionSize.x < sizeX )
+        if( !isBlockCountValid( sizeX, threadsPerBlockX, dimensionSize.x ) )
             throw penguinVException( "Input parameters for kernel execution are out of limits" );
 
-        return GridParameters( (sizeX + threadsPerBlockX - 1) / threadsPerBlockX, threadsPerBlockX );
+        return GridParameters( getBlockCount( sizeX, threadsPerBlockX ), threadsPerBlockX );
     }
 
     GridParameters getGridParameters( uint32_t sizeX, uint32_t sizeY )
@@ -180,11 +190,11 @@ namespace multiCuda
         dim3 threadsPerBlock = get2DThreadsPerBlock( threadTotalCount );
         adjust2DThreadsPerBlock( threadTotalCount, blockDimension, threadsPerBlock );
 
-        if( (threadsPerBlock.x * dimensionSize.x < sizeX) || (threadsPerBlock.y * dimensionSize.y < sizeY) )
+        if( !isBlockCountValid( sizeX, threadsPerBlock.x, dimensionSize.x ) || !isBlockCountValid( sizeY, threadsPerBlock.y, dimensionSize.y ) )
             throw penguinVException( "Input parameters for kernel execution are out of limits" );
 
-        const dim3 blocksPerGrid( (sizeX + threadsPerBlock.x - 1) / threadsPerBlock.x,
-                                  (sizeY + threadsPerBlock.y - 1) / threadsPerBlock.y );
+        const dim3 blocksPerGrid( getBlockCount( sizeX, threadsPerBlock.x ),
+                                  getBlockCount( sizeY, threadsPerBlock.y ) );
 
         return GridParameters( blocksPerGrid, threadsPerBlock );
     }
@@ -199,12 +209,12 @@ namespace multiCuda
         dim3 threadsPerBlock = get3DThreadsPerBlock( threadTotalCount );
         adjust3DThreadsPerBlock( threadTotalCount, blockDimension, threadsPerBlock );
 
-        if( (threadsPerBlock.x * dimensionSize.x < sizeX) || (threadsPerBlock.y * dimensionSize.y < sizeY) || (threadsPerBlock.z * dimensionSize.z < sizeZ) )
+        if( !isBlockCountValid( sizeX, threadsPerBlock.x, dimensionSize.x ) || !isBlockCountValid( sizeY, threadsPerBlock.y, dimensionSize.y ) || !isBlockCountValid( sizeZ, threadsPerBlock.z, dimensionSize.z ) )
             throw penguinVException( "Input parameters for kernel execution are out of limits" );
 
-        const dim3 blocksPerGrid( (sizeX + threadsPerBlock.x - 1) / threadsPerBlock.x,
-                                  (sizeY + threadsPerBlock.y - 1) / threadsPerBlock.y,
-                                  (sizeZ + threadsPerBlock.z - 1) / threadsPerBlock.z );
+        const dim3 blocksPerGrid( getBlockCount( sizeX, threadsPerBlock.x ),
+                                  getBlockCount( sizeY, threadsPerBlock.y ),
+                                  getBlockCount( sizeZ, threadsPerBlock.z ) );
 
         return GridParameters( blocksPerGrid, threadsPerBlock );
     }
-- 
2.43.0


From 992f7e9dd7134769d926a4b1ed3edd160b9045d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 143/157] fix: keep geometry of output CUDA image while
 filtering

---
 src/cuda/filtering_cuda.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/filtering_cuda.cu b/src/cuda/filtering_cuda.cu
index 84b5311..161f58a 100644
--- a/src/cuda/filtering_cuda.cu
+++ b/src/cuda/filtering_cuda.cu
@@ -21,6 +21,7 @@
 #include <cmath>
 #include <cuda_runtime.h>
 #include "filtering_cuda.cuh"
+#include "image_function_cuda.cuh"
 #include "../filtering.h"
 #include "../image_buffer.h"
 #include "../penguinv_exception.h"
@@ -58,7 +59,7 @@ namespace Image_Function_Cuda
 
         executor.inverseTransform( image );
 
-        out = image.get();
+        Copy( image.get(), out );
     }
 
     FFT_Cuda::ComplexData GetGaussianKernel( uint32_t width, uint32_t height, uint32_t kernelSize, float sigma )
-- 
2.43.0


From d4dee6982c090c9f4b97ebcc08ddbc423ea345b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 144/157] fix: complex multiplication in place on CUDA device

---
 src/cuda/cuda_fft.cu | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 53f9e88..68db18f 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -80,8 +80,11 @@ namespace
 
         if( x < width && y < height ) {
             const uint32_t id = y * width + x;
-            out[id].x = in1[id].x * in2[id].x - in1[id].y * in2[id].y;
-            out[id].y = in1[id].x * in2[id].y + in1[id].y * in2[id].x;
+            const float real      = in1[id].x * in2[id].x - in1[id].y * in2[id].y;
+            const float imaginary = in1[id].x * in2[id].y + in1[id].y * in2[id].x;
+
+            out[id].x = real;
+            out[id].y = imaginary;
         }
     }
 }
-- 
2.43.0


From 0f18b77fb32630f8e0806373d3bae18673a3e9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 145/157] fix: release resources of X11 window

---
 src/ui/x11/x11_ui.cpp | 16 ++++++++++++++++
 src/ui/x11/x11_ui.h   |  1 +
 2 files changed, 17 insertions(+)

diff --git a/src/ui/x11/x11_ui.cpp b/src/ui/x11/x11_ui.cpp
index aaf1fd5..4cb9f64 100644
--- a/src/ui/x11/x11_ui.cpp
+++ b/src/ui/x11/x11_ui.cpp
@@ -23,6 +23,8 @@
 #ifndef _WIN32 // Not for Windows
 
 #include "../../penguinv_exception.h"
+#include <X11/Xutil.h>
+#include <cstring>
 
 UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & title )
     : UiWindow( image, title )
@@ -34,6 +36,9 @@ UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & tit
     , _width( image.width() )
     , _height( image.height() )
 {
+    if ( !image.empty() && image.colorCount() != penguinV::GRAY_SCALE && image.colorCount() != penguinV::RGB )
+        throw penguinVException( "Color image has different than 3 color channels." );
+
     _uiDisplay = XOpenDisplay( NULL );
     if ( _uiDisplay == nullptr )
         throw penguinVException( "Cannot create window for display" );
@@ -53,6 +58,8 @@ UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & tit
 
 UiWindowX11::~UiWindowX11()
 {
+    _releaseImage();
+
     XDestroyWindow( _uiDisplay, _window );
     XCloseDisplay( _uiDisplay );
 }
@@ -81,6 +88,15 @@ void UiWindowX11::_display()
     }
 }
 
+void UiWindowX11::_releaseImage()
+{
+    if ( _image != nullptr ) {
+        _image->data = nullptr; // the data belongs to this class
+        XDestroyImage( _image );
+        _image = nullptr;
+    }
+}
+
 void UiWindowX11::_setupImage( const penguinV::Image & image )
 {
     if ( image.empty() )
diff --git a/src/ui/x11/x11_ui.h b/src/ui/x11/x11_ui.h
index dfee3c1..ad8b4b3 100644
--- a/src/ui/x11/x11_ui.h
+++ b/src/ui/x11/x11_ui.h
@@ -50,6 +50,7 @@ private:
 
     std::vector<std::pair<Point2d, uint32_t>> _point;
 
+    void _releaseImage();
     void _setupImage( const penguinV::Image & image );
 };
 
-- 
2.43.0


From 139b186257abb183cdb10ed9ebde8829fb4092ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 146/157] fix: X11 window without image

---
 src/ui/x11/x11_ui.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ui/x11/x11_ui.cpp b/src/ui/x11/x11_ui.cpp
index 4cb9f64..b767a73 100644
--- a/src/ui/x11/x11_ui.cpp
+++ b/src/ui/x11/x11_ui.cpp
@@ -43,7 +43,7 @@ UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & tit
     if ( _uiDisplay == nullptr )
         throw penguinVException( "Cannot create window for display" );
 
-    _window = XCreateSimpleWindow( _uiDisplay, RootWindow( _uiDisplay, _screen ), 10, 10, _width, _height, 1, BlackPixel( _uiDisplay, _screen ),
+    _window = XCreateSimpleWindow( _uiDisplay, RootWindow( _uiDisplay, _screen ), 10, 10, _width > 0 ? _width : 1u, _height > 0 ? _height : 1u, 1, BlackPixel( _uiDisplay, _screen ),
                                    WhitePixel( _uiDisplay, _screen ) );
     XSelectInput( _uiDisplay, _window, ExposureMask | KeyPressMask );
     XMapWindow( _uiDisplay, _window );
@@ -74,7 +74,8 @@ void UiWindowX11::_display()
         XNextEvent( _uiDisplay, &e );
         if ( e.type == Expose ) {
             GC defaultGC = DefaultGC( _uiDisplay, _screen );
-            XPutImage( _uiDisplay, _window, defaultGC, _image, 0, 0, 0, 0, _width, _height );
+            if ( _image != nullptr )
+                XPutImage( _uiDisplay, _window, defaultGC, _image, 0, 0, 0, 0, _width, _height );
 
             for ( size_t i = 0u; i < _point.size(); ++i ) {
                 const Point2d & point = _point[i].first;
-- 
2.43.0


From af5b0955a9c774b7394bd54e3011f03ea5d5735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 147/157] fix: show the image which was set to X11 window

---
 src/ui/x11/x11_ui.cpp | 20 ++++++++++++++++++--
 src/ui/x11/x11_ui.h   |  1 +
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/ui/x11/x11_ui.cpp b/src/ui/x11/x11_ui.cpp
index b767a73..7f99fac 100644
--- a/src/ui/x11/x11_ui.cpp
+++ b/src/ui/x11/x11_ui.cpp
@@ -64,6 +64,16 @@ UiWindowX11::~UiWindowX11()
     XCloseDisplay( _uiDisplay );
 }
 
+void UiWindowX11::setImage( const penguinV::Image & image )
+{
+    _setupImage( image );
+
+    if ( _width > 0 && _height > 0 )
+        XResizeWindow( _uiDisplay, _window, _width, _height );
+
+    UiWindow::setImage( image );
+}
+
 void UiWindowX11::_display()
 {
     if ( !_shown ) // we don't need to display anything
@@ -100,6 +110,14 @@ void UiWindowX11::_releaseImage()
 
 void UiWindowX11::_setupImage( const penguinV::Image & image )
 {
+    if ( !image.empty() && image.colorCount() != penguinV::GRAY_SCALE && image.colorCount() != penguinV::RGB )
+        throw penguinVException( "Color image has different than 3 color channels." );
+
+    _releaseImage();
+
+    _width = image.width();
+    _height = image.height();
+
     if ( image.empty() )
         return;
 
@@ -124,8 +142,6 @@ void UiWindowX11::_setupImage( const penguinV::Image & image )
         }
     }
     else {
-        if ( image.colorCount() != penguinV::RGB )
-            throw penguinVException( "Color image has different than 3 color channels." );
         for ( ; imageY != imageYEnd; imageY += rowSize ) {
             const uint8_t * imageX = imageY;
             const uint8_t * imageXEnd = imageX + _width * 3u;
diff --git a/src/ui/x11/x11_ui.h b/src/ui/x11/x11_ui.h
index ad8b4b3..c812708 100644
--- a/src/ui/x11/x11_ui.h
+++ b/src/ui/x11/x11_ui.h
@@ -33,6 +33,7 @@ public:
     explicit UiWindowX11( const penguinV::Image & image = penguinV::Image(), const std::string & title = std::string() );
     virtual ~UiWindowX11();
 
+    virtual void setImage( const penguinV::Image & image );
     virtual void drawPoint( const Point2d & point, const PaintColor & color );
 
 protected:
-- 
2.43.0


From e3cd4c14c6ed3f6d26ccd321f190ae5843867546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 148/157] fix: overflow while displaying histogram

---
 src/tool/ui/tool_ui.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tool/ui/tool_ui.h b/src/tool/ui/tool_ui.h
index 5700b2d..3bbf300 100644
--- a/src/tool/ui/tool_ui.h
+++ b/src/tool/ui/tool_ui.h
@@ -34,7 +34,7 @@ void DisplayHistogram( UiWindow & window, const std::vector<_Type> & histogram )
     if ( minValue >= maxValue )
         return;
 
-    const _Type range = maxValue - minValue;
+    const double range = static_cast<double>( maxValue ) - static_cast<double>( minValue );
 
     penguinV::Image image( histogram.size(), 100 );
     image.fill( 0u );
@@ -43,9 +43,9 @@ void DisplayHistogram( UiWindow & window, const std::vector<_Type> & histogram )
     uint8_t * dataX = image.data() + ( image.height() - 1u ) * rowSize;
 
     for ( size_t i = 0u; i < histogram.size(); ++i, ++dataX ) {
-        const _Type limit = ( histogram[i] - minValue ) * 100 / range;
+        const uint32_t limit = static_cast<uint32_t>( ( static_cast<double>( histogram[i] ) - static_cast<double>( minValue ) ) * 100 / range );
         uint8_t * dataY = dataX;
-        for ( _Type y = 0; y < limit; ++y, dataY -= rowSize )
+        for ( uint32_t y = 0; y < limit; ++y, dataY -= rowSize )
             *dataY = 255;
     }
 
-- 
2.43.0


From 5241c4fa5bd7491c287c14b1011683bfb4915fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 149/157] fix: OpenCL and CUDA allocators refuse sizes which
 overflow

---
 src/cuda/cuda_memory.cuh   | 5 +++++
 src/opencl/opencl_memory.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/cuda/cuda_memory.cuh b/src/cuda/cuda_memory.cuh
index ecd9703..a113e8d 100644
--- a/src/cuda/cuda_memory.cuh
+++ b/src/cuda/cuda_memory.cuh
@@ -21,6 +21,7 @@
 #pragma once
 
 #include <cuda_runtime.h>
+#include <limits>
 #include <map>
 #include "cuda_helper.cuh"
 #include "../memory/memory_allocator.h"
@@ -49,6 +50,10 @@ namespace multiCuda
         template <typename _DataType = uint8_t>
         _DataType* allocate( size_t size = 1 )
         {
+            if ( size > std::numeric_limits<size_t>::max() / sizeof( _DataType ) ) {
+                throw std::logic_error( "Memory size is too big" );
+            }
+
             size = size * sizeof( _DataType );
 
             if ( _data != nullptr && size < _size ) {
diff --git a/src/opencl/opencl_memory.h b/src/opencl/opencl_memory.h
index c34177e..7670a46 100644
--- a/src/opencl/opencl_memory.h
+++ b/src/opencl/opencl_memory.h
@@ -30,6 +30,7 @@
 #endif
 
 #include "../memory/memory_allocator.h"
+#include <limits>
 #include <map>
 
 namespace multiCL
@@ -64,6 +65,10 @@ namespace multiCL
         template <typename _DataType>
         cl_mem allocate( size_t size = 1 )
         {
+            if ( size > std::numeric_limits<size_t>::max() / sizeof( _DataType ) ) {
+                throw std::logic_error( "Memory size is too big" );
+            }
+
             size = size * sizeof( _DataType );
 
             if ( _data != NULL && size < _size ) {
-- 
2.43.0


From f20ccbcbd5b0d775474e4276defe058a99b02a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:10 +0000
Subject: [PATCH 150/157] fix: Qt window shows the image which is set after
 creation

---
 src/ui/qt/qt_ui.cpp | 21 +++++++++++++++++----
 src/ui/qt/qt_ui.h   |  3 +++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ui/qt/qt_ui.cpp b/src/ui/qt/qt_ui.cpp
index ef7a6e7..e6209e6 100644
--- a/src/ui/qt/qt_ui.cpp
+++ b/src/ui/qt/qt_ui.cpp
@@ -26,15 +26,20 @@
 UiWindowQt::UiWindowQt( const penguinV::Image & image, const std::string & title )
     : UiWindow( image, title )
 {
-    const QImage imageQt( _image.data(), static_cast<int>( _image.width() ), static_cast<int>( _image.height() ), static_cast<int>( _image.rowSize() ),
-                          ( _image.colorCount() == 1u ) ? QImage::Format_Grayscale8 : QImage::Format_RGB888 );
-    _pixmap = QPixmap::fromImage( imageQt );
-    _window.setPixmap( _pixmap );
+    _setupImage( image );
     _window.window()->setWindowTitle( QString::fromStdString( _title ) );
 }
 
 UiWindowQt::~UiWindowQt() {}
 
+void UiWindowQt::setImage( const penguinV::Image & image )
+{
+    _setupImage( image );
+    _window.adjustSize();
+
+    UiWindow::setImage( image );
+}
+
 void UiWindowQt::_display()
 {
     if ( !_shown ) // we don't need to display anything
@@ -43,6 +48,14 @@ void UiWindowQt::_display()
     _window.show();
 }
 
+void UiWindowQt::_setupImage( const penguinV::Image & image )
+{
+    const QImage imageQt( image.data(), static_cast<int>( image.width() ), static_cast<int>( image.height() ), static_cast<int>( image.rowSize() ),
+                          ( image.colorCount() == 1u ) ? QImage::Format_Grayscale8 : QImage::Format_RGB888 );
+    _pixmap = QPixmap::fromImage( imageQt );
+    _window.setPixmap( _pixmap );
+}
+
 void UiWindowQt::drawPoint( const Point2d & point, const PaintColor & color )
 {
     QPainter paint( &_pixmap );
diff --git a/src/ui/qt/qt_ui.h b/src/ui/qt/qt_ui.h
index 312f4b3..2d2f92a 100644
--- a/src/ui/qt/qt_ui.h
+++ b/src/ui/qt/qt_ui.h
@@ -30,6 +30,7 @@ public:
     explicit UiWindowQt( const penguinV::Image & image = penguinV::Image(), const std::string & title = std::string() );
     virtual ~UiWindowQt();
 
+    virtual void setImage( const penguinV::Image & image );
     virtual void drawPoint( const Point2d & point, const PaintColor & color );
     virtual void drawLine( const Point2d & start, const Point2d & end, const PaintColor & color );
     virtual void drawEllipse( const Point2d & center, double xRadius, double yRadius, const PaintColor & color );
@@ -39,6 +40,8 @@ protected:
     virtual void _display();
 
 private:
+    void _setupImage( const penguinV::Image & image );
+
     QPixmap _pixmap;
     QLabel _window;
 };
-- 
2.43.0


From b21b49ddec60d0f25581e8f7673662f1bfab8dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:10 +0000
Subject: [PATCH 151/157] fix: Qt window refuses images which are neither
 gray-scale nor RGB

---
 src/ui/qt/qt_ui.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ui/qt/qt_ui.cpp b/src/ui/qt/qt_ui.cpp
index e6209e6..64bf587 100644
--- a/src/ui/qt/qt_ui.cpp
+++ b/src/ui/qt/qt_ui.cpp
@@ -19,6 +19,7 @@
  ***************************************************************************/
 
 #include "qt_ui.h"
+#include "../../penguinv_exception.h"
 #include <QImage>
 #include <QPainter>
 #include <QString>
@@ -50,6 +51,9 @@ void UiWindowQt::_display()
 
 void UiWindowQt::_setupImage( const penguinV::Image & image )
 {
+    if ( !image.empty() && image.colorCount() != penguinV::GRAY_SCALE && image.colorCount() != penguinV::RGB )
+        throw penguinVException( "Color image has different than 3 color channels." );
+
     const QImage imageQt( image.data(), static_cast<int>( image.width() ), static_cast<int>( image.height() ), static_cast<int>( image.rowSize() ),
                           ( image.colorCount() == 1u ) ? QImage::Format_Grayscale8 : QImage::Format_RGB888 );
     _pixmap = QPixmap::fromImage( imageQt );
-- 
2.43.0


From ad2731fa8f3b7093edb7504735a439ff914f586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:10 +0000
Subject: [PATCH 152/157] fix: Qt window shows colors of an image in BGR order

---
 src/ui/qt/qt_ui.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ui/qt/qt_ui.cpp b/src/ui/qt/qt_ui.cpp
index 64bf587..0b262f8 100644
--- a/src/ui/qt/qt_ui.cpp
+++ b/src/ui/qt/qt_ui.cpp
@@ -54,9 +54,10 @@ void UiWindowQt::_setupImage( const penguinV::Image & image )
     if ( !image.empty() && image.colorCount() != penguinV::GRAY_SCALE && image.colorCount() != penguinV::RGB )
         throw penguinVException( "Color image has different than 3 color channels." );
 
+    const bool isGrayScale = image.colorCount() == penguinV::GRAY_SCALE;
     const QImage imageQt( image.data(), static_cast<int>( image.width() ), static_cast<int>( image.height() ), static_cast<int>( image.rowSize() ),
-                          ( image.colorCount() == 1u ) ? QImage::Format_Grayscale8 : QImage::Format_RGB888 );
-    _pixmap = QPixmap::fromImage( imageQt );
+                          isGrayScale ? QImage::Format_Grayscale8 : QImage::Format_RGB888 );
+    _pixmap = QPixmap::fromImage( isGrayScale ? imageQt : imageQt.rgbSwapped() ); // color images are stored in BGR order
     _window.setPixmap( _pixmap );
 }
 
-- 
2.43.0


From 6fc1bc76a69d87b64e3f25062664327763092ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:10 +0000
Subject: [PATCH 153/157] fix: python binding reports C++ exceptions

---
 src/python/penguinV.i | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/python/penguinV.i b/src/python/penguinV.i
index fca9749..22e349e 100644
--- a/src/python/penguinV.i
+++ b/src/python/penguinV.i
@@ -3,6 +3,7 @@
 %include "stdint.i"
 %include "std_string.i"
 %include "std_vector.i"
+%include "exception.i"
 
 %{
 #include "../image_buffer.h"
@@ -10,6 +11,16 @@
 #include "../image_function.h"
 %}
 
+// C++ exceptions must not leave a call from python
+%exception {
+    try {
+        $action
+    }
+    catch ( const std::exception & ex ) {
+        SWIG_exception( SWIG_RuntimeError, ex.what() );
+    }
+}
+
 %nodefaultctor penguinV::ImageTemplate;
 %nodefaultctor Image;
 
-- 
2.43.0


From d71841c809ef1e8a4fe7fead9a53746997a98df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:09 +0000
Subject: [PATCH 154/157] fix: thread pool survives a lack of threads and
 memory

---
 src/thread_pool.cpp | 70 ++++++++++++++++++++++++++++-----------------
 src/thread_pool.h   |  2 ++
 2 files changed, 45 insertions(+), 27 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 1d85136..a3e061a 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -163,41 +163,58 @@ void ThreadPool::resize( size_t threads )
         throw penguinVException( "Try to set zero threads in thread pool" );
 
     if ( threads > threadCount() ) {
-        _taskInfo.lock();
-        _run.resize( threads, 1 );
-        _exit.resize( threads, 0 );
-        _taskInfo.unlock();
+        const size_t previousThreadCount = threadCount();
+
+        try {
+            _worker.reserve( threads );
+
+            {
+                std::lock_guard<std::mutex> _mutexLock( _taskInfo );
+                _run.resize( threads, 1 );
+                _exit.resize( threads, 0 );
+            }
 
-        _threadCount = threads;
+            _threadCount = threads;
 
-        while ( threads > threadCount() )
-            _worker.push_back( std::thread( ThreadPool::_workerThread, this, threadCount() ) );
+            while ( threads > threadCount() )
+                _worker.push_back( std::thread( ThreadPool::_workerThread, this, threadCount() ) );
+        }
+        catch ( ... ) {
+            // not all threads are created because of a lack of memory or system resources, the pool must stay as it was before
+            _removeThreads( previousThreadCount );
+            throw;
+        }
 
         std::unique_lock<std::mutex> _mutexLock( _creation );
         _completeCreation.wait( _mutexLock, [&] { return _threadsCreated; } );
     }
     else if ( threads < threadCount() ) {
-        _taskInfo.lock();
+        _removeThreads( threads );
+    }
+}
 
-        std::fill( _exit.begin() + static_cast<std::vector<uint8_t>::difference_type>( threads ), _exit.end(), 1 );
-        std::fill( _run.begin() + static_cast<std::vector<uint8_t>::difference_type>( threads ), _run.end(), 1 );
-        _waiting.notify_all();
+void ThreadPool::_removeThreads( size_t threads )
+{
+    _taskInfo.lock();
 
-        _taskInfo.unlock();
+    std::fill( _exit.begin() + static_cast<std::vector<uint8_t>::difference_type>( threads ), _exit.end(), 1 );
+    std::fill( _run.begin() + static_cast<std::vector<uint8_t>::difference_type>( threads ), _run.end(), 1 );
+    _waiting.notify_all();
 
-        while ( threads < threadCount() ) {
-            _worker.back().join();
+    _taskInfo.unlock();
 
-            _worker.pop_back();
+    while ( threads < threadCount() ) {
+        _worker.back().join();
 
-            _taskInfo.lock();
+        _worker.pop_back();
+    }
 
-            _exit.pop_back();
-            _run.pop_back();
+    _taskInfo.lock();
 
-            _taskInfo.unlock();
-        }
-    }
+    _exit.resize( threads );
+    _run.resize( threads );
+
+    _taskInfo.unlock();
 }
 
 size_t ThreadPool::threadCount() const
@@ -213,18 +230,17 @@ void ThreadPool::add( AbstractTaskProvider * provider, size_t taskCount )
     if ( threadCount() == 0 )
         throw penguinVException( "No threads in thread pool" );
 
+    std::lock_guard<std::mutex> _mutexLock( _taskInfo );
+
+    // the provider is not running if there is no memory for its tasks
+    _task.insert( _task.end(), taskCount, provider );
+
     provider->_completion.lock();
     provider->_running = true;
     provider->_completion.unlock();
 
-    _taskInfo.lock();
-
-    _task.insert( _task.end(), taskCount, provider );
-
     std::fill( _run.begin(), _run.end(), 1 );
     _waiting.notify_all();
-
-    _taskInfo.unlock();
 }
 
 bool ThreadPool::empty()
diff --git a/src/thread_pool.h b/src/thread_pool.h
index f4bbc71..40f0d59 100644
--- a/src/thread_pool.h
+++ b/src/thread_pool.h
@@ -119,6 +119,8 @@ private:
     std::list<AbstractTaskProvider *> _task; // a list of tasks to perform
     std::mutex _taskInfo; // mutex for synchronization between threads and pool to manage tasks
 
+    void _removeThreads( size_t threads ); // stop and remove all working threads after the first ones
+
     static void _workerThread( ThreadPool * pool, size_t threadId );
 };
 
-- 
2.43.0


From 394c78184e2c9dc32635ebed63561ad6b95e72a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:09 +0000
Subject: [PATCH 155/157] fix: Windows window draws the last pixel of lines and
 rectangles

---
 src/ui/win/win_ui.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ui/win/win_ui.cpp b/src/ui/win/win_ui.cpp
index ef52208..906f3f7 100644
--- a/src/ui/win/win_ui.cpp
+++ b/src/ui/win/win_ui.cpp
@@ -82,6 +82,7 @@ namespace WindowsUi
                 HGDIOBJ hOldPen = SelectObject( hdc, hPen );
                 MoveToEx( hdc, xStart, yStart, NULL );
                 LineTo( hdc, xEnd, yEnd );
+                SetPixel( hdc, xEnd, yEnd, RGB( line->color.red, line->color.green, line->color.blue ) ); // the function above does not draw the last pixel
                 SelectObject( hdc, hOldPen );
                 DeleteObject( hPen );
             }
-- 
2.43.0


From 48fe6bb54da3fe0433ca1401523b8e43e9314a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:09 +0000
Subject: [PATCH 156/157] fix: Windows window can be shown again and does not
 outlive its object

---
 src/ui/win/win_ui.cpp | 21 +++++++++++++++++++--
 src/ui/win/win_ui.h   |  1 +
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/ui/win/win_ui.cpp b/src/ui/win/win_ui.cpp
index 906f3f7..5f24769 100644
--- a/src/ui/win/win_ui.cpp
+++ b/src/ui/win/win_ui.cpp
@@ -132,8 +132,11 @@ namespace
             }
             EndPaint( window, &paintStructure );
         } break;
-        case WM_DESTROY:
+        case WM_CLOSE:
+            // the window belongs to its owner class object which may show it again
+            ShowWindow( window, SW_HIDE );
             PostQuitMessage( 0 );
+            break;
         default:
             return DefWindowProc( window, msg, wp, lp );
         }
@@ -196,12 +199,20 @@ UiWindowWin::UiWindowWin( const penguinV::Image & image, const std::string & tit
     if ( _window == nullptr )
         throw penguinVException( "Unable to create Windows API window" );
 
-    UiWindowWin::setImage( image );
+    try {
+        UiWindowWin::setImage( image );
+    }
+    catch ( ... ) {
+        _free();
+        _destroy();
+        throw;
+    }
 }
 
 UiWindowWin::~UiWindowWin()
 {
     _free();
+    _destroy();
 }
 
 void UiWindowWin::_display()
@@ -372,4 +383,10 @@ void UiWindowWin::_free()
     }
 }
 
+void UiWindowWin::_destroy()
+{
+    SetWindowLongPtr( _window, GWLP_USERDATA, 0 ); // owner class object is not going to exist anymore
+    DestroyWindow( _window );
+}
+
 #endif
diff --git a/src/ui/win/win_ui.h b/src/ui/win/win_ui.h
index 45d3eea..1310cea 100644
--- a/src/ui/win/win_ui.h
+++ b/src/ui/win/win_ui.h
@@ -100,6 +100,7 @@ private:
     friend class WindowsUi::UiWindowWinInfo;
 
     void _free();
+    void _destroy();
 };
 
 #endif
-- 
2.43.0


From 758dc8b0d548cded8ea03c9ec9d5d1cbd743e8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:09 +0000
Subject: [PATCH 157/157] fix: Windows window with empty, unsupported and large
 images

---
 src/ui/win/win_ui.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/ui/win/win_ui.cpp b/src/ui/win/win_ui.cpp
index 5f24769..fd9eaa3 100644
--- a/src/ui/win/win_ui.cpp
+++ b/src/ui/win/win_ui.cpp
@@ -23,6 +23,7 @@
 #ifdef _WIN32 // Windows
 
 #include <iostream>
+#include <new>
 #include <string>
 
 namespace WindowsUi
@@ -232,7 +233,15 @@ void UiWindowWin::_display()
 
 void UiWindowWin::setImage( const penguinV::Image & image )
 {
+    if ( !image.empty() && image.colorCount() != 1u && image.colorCount() != 3u && image.colorCount() != 4u )
+        throw penguinVException( "Only gray-scale, RGB and RGBA images are supported" );
+
     _free();
+    _image.clear();
+    _scaleFactor = 1.0;
+
+    if ( image.empty() )
+        return;
 
     // We need to set image upside-down to show correctly in UI window as well as make 4 byte row length for bitmap
     _image.setAlignment( 4u );
@@ -246,7 +255,9 @@ void UiWindowWin::setImage( const penguinV::Image & image )
         const double scaleY = static_cast<double>( maxWindowHeight ) / image.height();
 
         _scaleFactor = scaleX < scaleY ? scaleX : scaleY;
-        _image.resize( static_cast<uint32_t>( _scaleFactor * image.width() ), static_cast<uint32_t>( _scaleFactor * image.height() ) );
+        const uint32_t scaledWidth = static_cast<uint32_t>( _scaleFactor * image.width() );
+        const uint32_t scaledHeight = static_cast<uint32_t>( _scaleFactor * image.height() );
+        _image.resize( scaledWidth > 0u ? scaledWidth : 1u, scaledHeight > 0u ? scaledHeight : 1u );
 
         const uint8_t colorCount = image.colorCount();
 
@@ -268,7 +279,7 @@ void UiWindowWin::setImage( const penguinV::Image & image )
         // Precalculation of X position
         std::vector<uint32_t> positionX( widthOut );
         for ( uint32_t x = 0; x < widthOut; ++x )
-            positionX[x] = ( x * widthIn / widthOut ) * colorCount;
+            positionX[x] = static_cast<uint32_t>( static_cast<uint64_t>( x ) * widthIn / widthOut ) * colorCount;
 
         widthOut *= colorCount;
 
@@ -278,7 +289,7 @@ void UiWindowWin::setImage( const penguinV::Image & image )
             uint8_t * outX = outY;
             const uint8_t * outXEnd = outX + widthOut;
 
-            const uint8_t * inX = inY + ( heightIn - 1 - ( idY * heightIn / heightOut ) ) * rowSizeIn;
+            const uint8_t * inX = inY + static_cast<size_t>( heightIn - 1 - static_cast<uint32_t>( static_cast<uint64_t>( idY ) * heightIn / heightOut ) ) * rowSizeIn;
             const uint32_t * idX = positionX.data();
 
             for ( ; outX != outXEnd; outX += colorCount, ++idX )
@@ -286,8 +297,6 @@ void UiWindowWin::setImage( const penguinV::Image & image )
         }
     }
     else {
-        _scaleFactor = 1.0;
-
         _image.resize( image.width(), image.height() );
 
         const uint32_t rowSizeIn = image.rowSize();
@@ -306,6 +315,9 @@ void UiWindowWin::setImage( const penguinV::Image & image )
     const DWORD bmpInfoSize = sizeof( BITMAPINFOHEADER ) + ( rgbImage ? 1 : 256 ) * sizeof( RGBQUAD );
 
     _bmpInfo = reinterpret_cast<BITMAPINFO *>( malloc( bmpInfoSize ) );
+    if ( _bmpInfo == nullptr )
+        throw std::bad_alloc();
+
     _bmpInfo->bmiHeader.biSize = sizeof( BITMAPINFOHEADER );
     _bmpInfo->bmiHeader.biWidth = _image.width();
     _bmpInfo->bmiHeader.biHeight = _image.height();
-- 
2.43.0

