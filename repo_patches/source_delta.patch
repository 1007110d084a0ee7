From 25901fb6fe1e7868010c8c083a3db74e122341c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 01/23] fix: return the outcome of posix_semaphore::waitFor

The function was missing its return statement, which is undefined behaviour.
---
 include/oqpi/synchronization/posix/posix_semaphore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore.hpp b/include/oqpi/synchronization/posix/posix_semaphore.hpp
index 4d840dc..891c866 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore.hpp
@@ -91,7 +91,7 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         bool waitFor(const std::chrono::duration<_Rep, _Period> &relTime)
         {
-            sem_.waitFor(relTime);
+            return sem_.waitFor(relTime);
         }
 
     private:
-- 
2.43.0


From 504ca8e14bfef6d437bf32273b19656ab6364a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 02/23] fix: compute a valid deadline for timed waits

tv_nsec could exceed one second or be negative, in which case sem_timedwait failed with
EINVAL and the wait gave up immediately.
---
 .../posix/posix_semaphore_wrapper.hpp           | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 7008dad..42408e1 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -125,11 +125,24 @@ namespace oqpi {
                 return false;
             }
 
-            auto nanoseconds    = std::chrono::duration_cast<std::chrono::nanoseconds>(relTime);
+            // Clamp the duration so that the computation of the deadline can't overflow
+            constexpr auto maxTime  = std::chrono::hours(24 * 365 * 100);
+            auto nanoseconds        = std::chrono::nanoseconds::zero();
+            if (relTime >= maxTime)
+            {
+                nanoseconds         = maxTime;
+            }
+            else if (relTime > relTime.zero())
+            {
+                nanoseconds         = std::chrono::ceil<std::chrono::nanoseconds>(relTime);
+            }
+
+            // tv_nsec has to stay within [0, 1s[ for the deadline to be valid
+            nanoseconds         += std::chrono::nanoseconds(t.tv_nsec);
             const auto secs     = std::chrono::duration_cast<std::chrono::seconds>(nanoseconds);
             nanoseconds         -= secs;
             t.tv_sec            += secs.count();
-            t.tv_nsec           += nanoseconds.count();
+            t.tv_nsec           = nanoseconds.count();
 
             const auto error    = sem_timedwait(handle_, &t);
             if(error == -1 && errno != ETIMEDOUT)
-- 
2.43.0


From 8fd4957cc9676be4bcc559b1c024f1a5fc367754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 03/23] fix: keep waiting on a semaphore when interrupted by a
 signal

sem_wait and sem_timedwait return EINTR when a signal handler runs, waiting on a task or an
event returned early in that case.
---
 .../posix/posix_semaphore_wrapper.hpp                | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 42408e1..3cf5cc1 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -106,7 +106,11 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         bool wait()
         {
-            const auto error = sem_wait(handle_);
+            auto error = sem_wait(handle_);
+            while (error == -1 && errno == EINTR)
+            {
+                error = sem_wait(handle_);
+            }
             if (error == -1)
             {
                 oqpi_error("sem_wait failed with error code %d", errno);
@@ -144,7 +148,11 @@ namespace oqpi {
             t.tv_sec            += secs.count();
             t.tv_nsec           = nanoseconds.count();
 
-            const auto error    = sem_timedwait(handle_, &t);
+            auto error          = sem_timedwait(handle_, &t);
+            while (error == -1 && errno == EINTR)
+            {
+                error           = sem_timedwait(handle_, &t);
+            }
             if(error == -1 && errno != ETIMEDOUT)
             {
                 oqpi_error("sem_timedwait failed with error code %d", errno);
-- 
2.43.0


From fcacdcbbda0daf74a1bf9ca5faf2f95895693c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 04/23] fix: make this_thread::sleep_for usable on posix

pthread_sleep doesn't exist, sleep_for (and scheduler::waitUntilIdle) didn't compile.
---
 include/oqpi/threading/posix_thread.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index ebf615a..d89ed32 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <chrono>
+#include <thread>
 #include <pthread.h>
 #include <unistd.h>
 #include <math.h>
@@ -403,7 +404,7 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         inline void sleep_for(const std::chrono::duration<_Rep, _Period>& relTime)
         {
-            pthread_sleep(std::chrono::duration_cast<std::chrono::milliseconds>(relTime).count());
+            std::this_thread::sleep_for(relTime);
         }
         //------------------------------------------------------------------------------------------
         inline uint32_t get_current_core()
-- 
2.43.0


From d60fc0d9a24804224ee638f7104b4705d6f4ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 05/23] fix: atomic_partitioner covers ranges not starting at 0

The remaining indices were computed from the element count instead of the last index, so the
end of a range starting after 0 was skipped and a range starting before 0 was overrun.
---
 include/oqpi/parallel_algorithms/atomic_partitioner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/oqpi/parallel_algorithms/atomic_partitioner.hpp b/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
index 1263cc9..417312f 100644
--- a/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
+++ b/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
@@ -46,7 +46,7 @@ namespace oqpi {
                 // Get a copy of where we're at in the array
                 auto expectedIndex = sharedIndex_.load();
                 // Compute how many indices we could grab
-                const auto count = std::min<int32_t>(elementCount_ - expectedIndex, indicesToGrab_);
+                const auto count = std::min<int32_t>(lastIndex_ - expectedIndex, indicesToGrab_);
                 if (count > 0)
                 {
                     // There's still something to grab, try to do it, by being the one to increment the shared index.
-- 
2.43.0


From 33b9c2d2775de9b9d04f7796673c777608e14c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 06/23] fix: never exceed the maximum of simultaneous tasks of
 a parallel_group

A maximum of 1 ran two tasks at once, and a thread actively waiting on the group ran tasks on
top of the limit. Each finished task now releases exactly one other task, and an active waiter
only picks tasks that have been released.
---
 include/oqpi/scheduling/parallel_group.hpp | 24 +++++++++++++---------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/oqpi/scheduling/parallel_group.hpp b/include/oqpi/scheduling/parallel_group.hpp
index 8ae89c8..138a4d3 100644
--- a/include/oqpi/scheduling/parallel_group.hpp
+++ b/include/oqpi/scheduling/parallel_group.hpp
@@ -64,11 +64,18 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         virtual void activeWait() override final
         {
-            for (auto &hTask : tasks_)
+            const auto taskCount = tasks_.size();
+            for (size_t i = 0; i < taskCount; ++i)
             {
-                if (hTask.tryGrab())
+                // Leave alone the tasks that are held back by the limit of simultaneous tasks,
+                // currentTaskIndex_ increases as the running tasks finish
+                if (maxSimultaneousTasks_ > 0 && i >= currentTaskIndex_.load())
+                {
+                    break;
+                }
+                if (tasks_[i].tryGrab())
                 {
-                    hTask.execute();
+                    tasks_[i].execute();
                 }
             }
 
@@ -92,15 +99,13 @@ namespace oqpi {
                 size_t i = 0;
                 int32_t scheduledTasks = 0;
 
-                while ((i = currentTaskIndex_.fetch_add(1)) < taskCount)
+                // One slot is kept for the first task, which is run by the current thread
+                while ((maxSimultaneousTasks_ <= 0 || ++scheduledTasks < maxSimultaneousTasks_)
+                    && (i = currentTaskIndex_.fetch_add(1)) < taskCount)
                 {
                     if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
                     {
                         this->scheduler_.add(tasks_[i]);
-                        if (maxSimultaneousTasks_ > 0 && ++scheduledTasks >= maxSimultaneousTasks_-1)
-                        {
-                            break;
-                        }
                     }
                 }
 
@@ -123,12 +128,11 @@ namespace oqpi {
             {
                 const auto taskCount = tasks_.size();
                 size_t i = 0;
-                while ((i = currentTaskIndex_.fetch_add(1)) < taskCount)
+                if ((i = currentTaskIndex_.fetch_add(1)) < taskCount)
                 {
                     if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
                     {
                         this->scheduler_.add(tasks_[i]);
-                        break;
                     }
                 }
             }
-- 
2.43.0


From 86179dce661e56eeea9571efdaa7b761ed514797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 07/23] fix: don't let a worker run an invalid task while
 stopping the scheduler

A worker noticing that the scheduler is not running anymore before being itself tagged as not
running went on with an invalid task.
---
 include/oqpi/scheduling/scheduler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index e2839df..f8f6d53 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -113,13 +113,14 @@ namespace oqpi {
         // Stops the workers and waits on them
         void stop()
         {
-            running_.store(false);
-
             for (auto &upWorker : workers_)
             {
                 upWorker->stop();
             }
 
+            // A worker returning without a task from signalAvailableWorker has to be tagged as not running
+            running_.store(false);
+
             wakeUpAllWorkers();
 
             for (auto &upWorker : workers_)
-- 
2.43.0


From adf97de7710cd71d87063d53076a1d660235b87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 08/23] fix: don't drop the task a worker has just taken when
 stopping the scheduler

A task popped and grabbed by a worker right before stopping was never executed, and could not be
executed by anyone else anymore, leaving its waiters blocked.
---
 include/oqpi/scheduling/scheduler.hpp | 4 ++--
 include/oqpi/scheduling/worker.hpp    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index f8f6d53..607116f 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -288,8 +288,8 @@ namespace oqpi {
                 // Grab the next task
                 task_handle hTask = waitForNextTask(w);
 
-                // We could have been waken up to stop
-                if (!running_.load())
+                // We could have been waken up to stop, if we took a task nonetheless it has to be executed
+                if (!hTask.isValid() && !running_.load())
                 {
                     return;
                 }
diff --git a/include/oqpi/scheduling/worker.hpp b/include/oqpi/scheduling/worker.hpp
index cee6369..d0fdfa4 100644
--- a/include/oqpi/scheduling/worker.hpp
+++ b/include/oqpi/scheduling/worker.hpp
@@ -107,7 +107,7 @@ namespace oqpi {
                 _WorkerContext::worker_onActive();
 
                 // Check if we've waken up to work on a new task
-                if (isRunning())
+                if (!worker_base::isAvailable())
                 {
                     if (oqpi_ensure(worker_base::hTask_.isValid()))
                     {
-- 
2.43.0


From d9a4f8a9807e052186bf06e7a3cad1582dd8f973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 09/23] fix: don't report the scheduler as idle while tasks are
 pending

A task popped from its queue but not yet assigned to the worker was seen by nobody, a task could
also go from a queue already checked to a worker checked later. Looking at the task of a running
worker from another thread was a data race on top of that.
---
 include/oqpi/scheduling/scheduler.hpp | 31 ++++++++++++---------------
 include/oqpi/scheduling/worker.hpp    |  2 ++
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index 607116f..d04d5cd 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -30,6 +30,7 @@ namespace oqpi {
     public:
         scheduler()
             : running_(false)
+            , unfinishedTasksCount_(0)
         {
             std::memset(&workersPerPrio_[0], 0, sizeof(workersPerPrio_));
         }
@@ -148,23 +149,7 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         bool isIdle() const
         {
-            for (const auto &taskQueue : pendingTasks_)
-            {
-                if (!taskQueue.empty())
-                {
-                    return false;
-                }
-            }
-
-            for (const auto &upWorker : workers_)
-            {
-                if (!upWorker->isAvailable())
-                {
-                    return false;
-                }
-            }
-
-            return true;
+            return unfinishedTasksCount_.load() == 0;
         }
 
         //------------------------------------------------------------------------------------------
@@ -193,6 +178,7 @@ namespace oqpi {
             if (hTask.isValid() && !hTask.isGrabbed() && !hTask.isDone())
             {
                 const auto priority = resolveTaskPriority(hTask);
+                unfinishedTasksCount_.fetch_add(1);
                 pendingTasks_[int(priority)].push(hTask);
                 wakeUpWorkersWithPriority(priority);
             }
@@ -255,6 +241,7 @@ namespace oqpi {
                             {
                                 // The task has already been grabbed by someone else
                                 hTask.reset();
+                                unfinishedTasksCount_.fetch_sub(1);
                             }
                         }
                     }
@@ -307,9 +294,17 @@ namespace oqpi {
                         break;
                     }
                 }
+                unfinishedTasksCount_.fetch_sub(1);
             }
         }
 
+        //------------------------------------------------------------------------------------------
+        // Called by worker threads once they're done with the task they've been assigned.
+        void signalTaskExecuted()
+        {
+            unfinishedTasksCount_.fetch_sub(1);
+        }
+
     private:
         //------------------------------------------------------------------------------------------
         // Signal all workers
@@ -340,6 +335,8 @@ namespace oqpi {
         int32_t                     workersPerPrio_[PRIO_COUNT];
         _TaskQueueType<task_handle> pendingTasks_[PRIO_COUNT];
         std::atomic<bool>           running_;
+        // Number of tasks in the queues or being executed by the workers
+        std::atomic<int32_t>        unfinishedTasksCount_;
     };
     //----------------------------------------------------------------------------------------------
 
diff --git a/include/oqpi/scheduling/worker.hpp b/include/oqpi/scheduling/worker.hpp
index d0fdfa4..40e1396 100644
--- a/include/oqpi/scheduling/worker.hpp
+++ b/include/oqpi/scheduling/worker.hpp
@@ -119,6 +119,8 @@ namespace oqpi {
                         _WorkerContext::worker_onPostExecute(worker_base::hTask_);
                         // Reset the task, can potentially free the memory if there's no more reference to that task
                         worker_base::hTask_.reset();
+                        // The scheduler can consider itself idle once all the tasks have been executed
+                        scheduler_.signalTaskExecuted();
                     }
                 }
             }
-- 
2.43.0


From 8dafc72e9f39dd2b27a836a57c760f628bf8b8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 10/23] fix: don't race with the completion of a task when
 resolving its priority

A task inheriting its priority can be executed by an active waiter while it's being scheduled,
its parent group was then released while being read by the scheduler.
---
 include/oqpi/scheduling/scheduler.hpp       | 12 +++++++-----
 include/oqpi/scheduling/task_base.hpp       |  5 +++--
 include/oqpi/scheduling/task_group_base.hpp |  2 +-
 include/oqpi/scheduling/task_handle.hpp     |  2 +-
 4 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index d04d5cd..bd9fa69 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -195,17 +195,19 @@ namespace oqpi {
 
             if (priority == task_priority::inherit)
             {
-                auto pParentGroup = hTask.getParentGroup().get();
+                auto spParentGroup = hTask.getParentGroup();
                 do 
                 {
-                    if (oqpi_failedf(pParentGroup != nullptr, "One parent group is invalid for this task: %d", hTask.getUID()))
+                    if (spParentGroup == nullptr)
                     {
-                         priority = task_priority::normal;
+                        // A task grabbed in the meantime releases its parents once it's done, its priority doesn't matter anymore
+                        oqpi_checkf(hTask.isGrabbed() || hTask.isDone(), "One parent group is invalid for this task: %d", hTask.getUID());
+                        priority = task_priority::normal;
                         break;
                     }
 
-                    priority     = pParentGroup->getPriority();
-                    pParentGroup = pParentGroup->getParentGroup().get();
+                    priority      = spParentGroup->getPriority();
+                    spParentGroup = spParentGroup->getParentGroup();
 
                 } while (priority == task_priority::inherit);
             }
diff --git a/include/oqpi/scheduling/task_base.hpp b/include/oqpi/scheduling/task_base.hpp
index 69f16f8..7edb7b0 100644
--- a/include/oqpi/scheduling/task_base.hpp
+++ b/include/oqpi/scheduling/task_base.hpp
@@ -96,9 +96,10 @@ namespace oqpi {
             onParentGroupSet();
         }
 
-        inline const task_group_sptr& getParentGroup() const
+        // The parent is released once the task is done, potentially while another thread asks for it
+        inline task_group_sptr getParentGroup() const
         {
-            return spParentGroup_;
+            return std::atomic_load(&spParentGroup_);
         }
 
         inline task_priority getPriority() const
diff --git a/include/oqpi/scheduling/task_group_base.hpp b/include/oqpi/scheduling/task_group_base.hpp
index 800ad37..e5436fb 100644
--- a/include/oqpi/scheduling/task_group_base.hpp
+++ b/include/oqpi/scheduling/task_group_base.hpp
@@ -44,7 +44,7 @@ namespace oqpi {
         if (spParentGroup_)
         {
             spParentGroup_->oneTaskDone();
-            spParentGroup_.reset();
+            std::atomic_store(&spParentGroup_, task_group_sptr());
         }
     }
     //----------------------------------------------------------------------------------------------
diff --git a/include/oqpi/scheduling/task_handle.hpp b/include/oqpi/scheduling/task_handle.hpp
index cc0c20e..6f229e6 100644
--- a/include/oqpi/scheduling/task_handle.hpp
+++ b/include/oqpi/scheduling/task_handle.hpp
@@ -139,7 +139,7 @@ namespace oqpi {
         }
 
         //------------------------------------------------------------------------------------------
-        const task_group_sptr& getParentGroup() const
+        task_group_sptr getParentGroup() const
         {
             validate();
             return spTask_->getParentGroup();
-- 
2.43.0


From d1f3a8338fc6ff2ba37062363dd2b047ec38294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 11/23] fix: move assigning a synchronization object onto a
 valid one

The assignment was silently ignored when the target was valid.
---
 include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 3cf5cc1..9cbaa40 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -57,8 +57,9 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         posix_semaphore_wrapper &operator =(posix_semaphore_wrapper &&rhs)
         {
-            if (this != &rhs && !isValid())
+            if (this != &rhs)
             {
+                release();
                 handle_     = rhs.handle_;
                 name_       = rhs.name_;
                 rhs.handle_ = nullptr;
-- 
2.43.0


From bfec7adbd27490ed1ec98fb6c98b1dfebd6b0399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 12/23] fix: opening an existing semaphore never creates one

open_existing created the object for a short while when it didn't exist, which made concurrent
requests fail or share an object that is being unlinked, and could leave behind an object created
with a count of 0.
---
 .../posix/posix_semaphore_wrapper.hpp         | 39 +++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 9cbaa40..faf77f0 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -198,24 +198,31 @@ namespace oqpi {
                 return false;
             }
 
-            // If both O_CREAT and O_EXCL are specified, then an error is returned if a semaphore with the given
-            // name already exists. Otherwise it creates it.
-            handle_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
-
-            if (handle_ != SEM_FAILED && creationOption == sync_object_creation_options::open_existing)
+            auto retry = false;
+            do
             {
-                // We've created a semaphore even though given the open_existing creation option.
-                oqpi_error("Trying to open an existing semaphore that doesn't exist.");
-                return false;
-            }
+                retry = false;
 
-            // Open a semaphore
-            if (handle_ == SEM_FAILED &&
-                (creationOption == sync_object_creation_options::open_existing
-                    || creationOption == sync_object_creation_options::open_or_create))
-            {
-                handle_ = sem_open(name_.c_str(), O_CREAT, S_IRUSR | S_IWUSR, 0);
-            }
+                if (creationOption == sync_object_creation_options::open_existing)
+                {
+                    // Without O_CREAT an error is returned if the semaphore doesn't exist.
+                    handle_ = sem_open(name_.c_str(), 0);
+                }
+                else
+                {
+                    // If both O_CREAT and O_EXCL are specified, then an error is returned if a semaphore with the given
+                    // name already exists. Otherwise it creates it.
+                    handle_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
+
+                    if (handle_ == SEM_FAILED && errno == EEXIST
+                        && creationOption == sync_object_creation_options::open_or_create)
+                    {
+                        // Open the existing semaphore, try again from the start if it's been destroyed in the meantime
+                        handle_ = sem_open(name_.c_str(), 0);
+                        retry   = (handle_ == SEM_FAILED && errno == ENOENT);
+                    }
+                }
+            } while (retry);
 
             if (handle_ == SEM_FAILED)
             {
-- 
2.43.0


From 6bee4d44804e93d1de83a49e825b08aa5854405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 13/23] fix: closing a handle that only opened a named object
 leaves its name alone

Every handle unlinked the name when released, later openers got another object.
---
 .../posix/posix_semaphore_wrapper.hpp              | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index faf77f0..290368c 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -15,12 +15,14 @@ namespace oqpi {
         posix_semaphore_wrapper()
             : handle_(nullptr)
             , name_()
+            , isCreator_(false)
         {}
 
         //------------------------------------------------------------------------------------------
         posix_semaphore_wrapper(const std::string &name, sync_object_creation_options creationOption, int32_t initCount)
             : handle_(nullptr)
             , name_(name.empty() ? "" : "/" + name)
+            , isCreator_(false)
         {
             const auto isLocalSyncObject = name_.empty();
             if (isLocalSyncObject && creationOption != sync_object_creation_options::open_existing)
@@ -50,6 +52,7 @@ namespace oqpi {
         posix_semaphore_wrapper(posix_semaphore_wrapper &&other)
             : handle_(other.handle_)
             , name_(other.name_)
+            , isCreator_(other.isCreator_)
         {
             other.handle_ = nullptr;
         }
@@ -62,6 +65,7 @@ namespace oqpi {
                 release();
                 handle_     = rhs.handle_;
                 name_       = rhs.name_;
+                isCreator_  = rhs.isCreator_;
                 rhs.handle_ = nullptr;
             }
             return (*this);
@@ -213,6 +217,7 @@ namespace oqpi {
                     // If both O_CREAT and O_EXCL are specified, then an error is returned if a semaphore with the given
                     // name already exists. Otherwise it creates it.
                     handle_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
+                    isCreator_ = handle_ != SEM_FAILED;
 
                     if (handle_ == SEM_FAILED && errno == EEXIST
                         && creationOption == sync_object_creation_options::open_or_create)
@@ -272,7 +277,11 @@ namespace oqpi {
         void releaseGlobalSemaphore()
         {
             sem_close(handle_);
-            sem_unlink(name_.c_str());
+            // Only the handle that created the semaphore frees its name
+            if (isCreator_)
+            {
+                sem_unlink(name_.c_str());
+            }
         }
 
 
@@ -288,6 +297,9 @@ namespace oqpi {
         sem_t       *handle_;
         //------------------------------------------------------------------------------------------
         std::string name_;
+        //------------------------------------------------------------------------------------------
+        // Whether this handle created the named semaphore, as opposed to opened it
+        bool        isCreator_;
     };
 
 } /*oqpi*/
-- 
2.43.0


From d739a4b2dde961b644f00ef0c259e221c72af41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 14/23] fix: resetting an event never blocks

The reset waited on the semaphore after having checked its value, if a waiter or another reset
took the token in between it blocked until the next notification.
---
 include/oqpi/synchronization/posix/posix_event.hpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_event.hpp b/include/oqpi/synchronization/posix/posix_event.hpp
index 3485d70..0a47a55 100644
--- a/include/oqpi/synchronization/posix/posix_event.hpp
+++ b/include/oqpi/synchronization/posix/posix_event.hpp
@@ -140,19 +140,8 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         void reset(posix_semaphore_wrapper &sem)
         {
-            auto semValue = sem.getValue();
-
             // Decrement internal counter to 0. Event is unsignaled.
-            while (semValue != 0)
-            {
-                if (!sem.wait())
-                {
-                    oqpi_error("Was not able to reset event.");
-                    break;
-                }
-
-                semValue = sem.getValue();
-            }
+            while (sem.tryWait());
         }
     };
 
-- 
2.43.0


From 409110a24c0166c48390b46a71e089e12f355379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 15/23] fix: notifying an event that is already set has no
 effect

Notifications of an auto reset event were counted, it released as many waiters later on.
---
 include/oqpi/synchronization/posix/posix_event.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_event.hpp b/include/oqpi/synchronization/posix/posix_event.hpp
index 0a47a55..11d42d6 100644
--- a/include/oqpi/synchronization/posix/posix_event.hpp
+++ b/include/oqpi/synchronization/posix/posix_event.hpp
@@ -70,7 +70,11 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         void notify()
         {
-            sem_.post();
+            // Notifying an event that is already set has no effect
+            if (sem_.getValue() == 0)
+            {
+                sem_.post();
+            }
         }
 
         //------------------------------------------------------------------------------------------
-- 
2.43.0


From 0e30a0578142f509d832d134270149ac58198e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 16/23] fix: never exceed the maximum count of a semaphore

maxCount was ignored by notify.
---
 include/oqpi/synchronization/posix/posix_semaphore.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore.hpp b/include/oqpi/synchronization/posix/posix_semaphore.hpp
index 891c866..5fae423 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore.hpp
@@ -63,7 +63,8 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         void notify(int32_t count)
         {
-            for(auto i = 0; i < count; ++i)
+            // The count of the semaphore can't exceed its maximum
+            for(auto i = 0; i < count && sem_.getValue() < maxCount_; ++i)
             {
                 sem_.post();
             }
-- 
2.43.0


From 4b382259221df1a36b676b3294b2eb7118d5630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 17/23] fix: concurrent_queue::empty takes the lock

It read the queue while other threads were modifying it.
---
 include/oqpi/concurrent_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/concurrent_queue.hpp b/include/oqpi/concurrent_queue.hpp
index f4071bd..6575175 100644
--- a/include/oqpi/concurrent_queue.hpp
+++ b/include/oqpi/concurrent_queue.hpp
@@ -35,10 +35,11 @@ public:
 
     bool empty() const
     {
+        lock_t __l(mutex_);
         return queue_.empty();
     }
 
 private:
-    std::mutex      mutex_;
+    mutable std::mutex mutex_;
     std::queue<T>   queue_;
 };
-- 
2.43.0


From 4a63e0d190309b4a9d043fd191110dc38f246ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 18/23] fix: executing a group single threaded doesn't complete
 a group taken by someone else

The group was marked as done and its waiters released even though its tasks were still being
executed by the one who had taken it.
---
 include/oqpi/scheduling/parallel_group.hpp | 15 ++++++---------
 include/oqpi/scheduling/sequence_group.hpp |  9 +++------
 include/oqpi/scheduling/task_group.hpp     | 13 ++++++++-----
 3 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/include/oqpi/scheduling/parallel_group.hpp b/include/oqpi/scheduling/parallel_group.hpp
index 138a4d3..71ae041 100644
--- a/include/oqpi/scheduling/parallel_group.hpp
+++ b/include/oqpi/scheduling/parallel_group.hpp
@@ -46,19 +46,16 @@ namespace oqpi {
         // For debug purposes
         virtual void executeSingleThreadedImpl() override final
         {
-            if (task_base::tryGrab())
+            const auto taskCount = tasks_.size();
+            if (oqpi_ensure(taskCount > 0))
             {
-                const auto taskCount = tasks_.size();
-                if (oqpi_ensure(taskCount > 0))
+                oqpi_check(taskCount == activeTasksCount_);
+                for (size_t i = 0; i < taskCount; ++i)
                 {
-                    oqpi_check(taskCount == activeTasksCount_);
-                    for (size_t i = 0; i < taskCount; ++i)
-                    {
-                        tasks_[i].executeSingleThreaded();
-                    }
+                    tasks_[i].executeSingleThreaded();
                 }
-                tasks_.clear();
             }
+            tasks_.clear();
         }
 
         //------------------------------------------------------------------------------------------
diff --git a/include/oqpi/scheduling/sequence_group.hpp b/include/oqpi/scheduling/sequence_group.hpp
index 94ca50c..90ace90 100644
--- a/include/oqpi/scheduling/sequence_group.hpp
+++ b/include/oqpi/scheduling/sequence_group.hpp
@@ -38,13 +38,10 @@ namespace oqpi {
         // For debug purposes
         virtual void executeSingleThreadedImpl() override final
         {
-            if (task_base::tryGrab())
+            while (!empty())
             {
-                while (!empty())
-                {
-                    auto hTask = popTask();
-                    hTask.executeSingleThreaded();
-                }
+                auto hTask = popTask();
+                hTask.executeSingleThreaded();
             }
         }
 
diff --git a/include/oqpi/scheduling/task_group.hpp b/include/oqpi/scheduling/task_group.hpp
index 2b4e4a1..7211716 100644
--- a/include/oqpi/scheduling/task_group.hpp
+++ b/include/oqpi/scheduling/task_group.hpp
@@ -57,12 +57,15 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         virtual void executeSingleThreaded() override final
         {
-            _GroupContext::group_onPreExecute();
-            executeSingleThreadedImpl();
-            _GroupContext::group_onPostExecute();
+            if (task_base::tryGrab())
+            {
+                _GroupContext::group_onPreExecute();
+                executeSingleThreadedImpl();
+                _GroupContext::group_onPostExecute();
 
-            task_base::setDone();
-            notifier_type::notify();
+                task_base::setDone();
+                notifier_type::notify();
+            }
         }
 
         //------------------------------------------------------------------------------------------
-- 
2.43.0


From bcd74cb930ce1dfd28d6f5955df2015de05d5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 19/23] fix: A thread object is empty when the system refuses
 the thread

---
 include/oqpi/threading/posix_thread.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index d89ed32..0d03584 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -148,15 +148,17 @@ namespace oqpi {
 
             error = pthread_create(&handle_, pThreadAttr, lpStartAddress, pData);
 
-            if(error != 0)
+            if(pThreadAttr != nullptr)
             {
-                oqpi_error("pthread_create failed with error number: %d", error);
-                return false;
+                pthread_attr_destroy(pThreadAttr);
             }
 
-            if(pThreadAttr != nullptr)
+            if(error != 0)
             {
-                pthread_attr_destroy(pThreadAttr);
+                // There's no thread, whatever pthread_create left in the handle
+                handle_ = 0;
+                oqpi_error("pthread_create failed with error number: %d", error);
+                return false;
             }
 
             setCoreAffinityMask(attributes.coreAffinityMask_);
-- 
2.43.0


From eedf7927cced2ddbee24f66e03d3995cdc1d1f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:36 +0000
Subject: [PATCH 20/23] fix: A thread's core affinity is set before it starts,
 not afterwards

---
 include/oqpi/threading/posix_thread.hpp | 31 +++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index 0d03584..c55a231 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -5,6 +5,7 @@
 #include <pthread.h>
 #include <unistd.h>
 #include <math.h>
+#include <cerrno>
 #include <cstring>
 #include <sys/resource.h>
 
@@ -132,6 +133,14 @@ namespace oqpi {
                     }
                 }
 
+                // Has to be known before the thread starts, which can change it on its own from then on
+                const auto cores = core_set(attributes.coreAffinityMask_);
+                error = pthread_attr_setaffinity_np(pThreadAttr, sizeof(cpu_set_t), &cores);
+                if(error != 0)
+                {
+                    oqpi_error("pthread_attr_setaffinity_np failed with error number: %d", error);
+                }
+
                 if(attributes.stackSize_ > 0)
                 {
                     error = pthread_attr_setstacksize(pThreadAttr, attributes.stackSize_);
@@ -148,6 +157,15 @@ namespace oqpi {
 
             error = pthread_create(&handle_, pThreadAttr, lpStartAddress, pData);
 
+            if(error == EINVAL && pThreadAttr != nullptr)
+            {
+                // None of the cores may be available to this process
+                oqpi_error("pthread_create failed with error number: %d, ignoring the core affinity mask", error);
+                auto none = cpu_set_t{};
+                pthread_attr_setaffinity_np(pThreadAttr, 0, &none);
+                error = pthread_create(&handle_, pThreadAttr, lpStartAddress, pData);
+            }
+
             if(pThreadAttr != nullptr)
             {
                 pthread_attr_destroy(pThreadAttr);
@@ -161,8 +179,6 @@ namespace oqpi {
                 return false;
             }
 
-            setCoreAffinityMask(attributes.coreAffinityMask_);
-
             return true;
         }
 
@@ -367,6 +383,17 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
 
     private:
+        //------------------------------------------------------------------------------------------
+        static inline cpu_set_t core_set(core_affinity affinityMask)
+        {
+            auto set = cpu_set_t{};
+            CPU_ZERO(&set);
+            memcpy(&set.__bits, &affinityMask, sizeof(affinityMask));
+
+            oqpi_check(static_cast<uint64_t>(affinityMask) < (1ull << hardware_concurrency()) || affinityMask == core_affinity::all_cores);
+
+            return set;
+        }
         //------------------------------------------------------------------------------------------
         static inline int get_min_priority()
         {
-- 
2.43.0


From 464d145de610a71a00f3ec1d54699fd3a40125ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:01 +0000
Subject: [PATCH 21/23] fix: let the layers of a thread see its calls

itfc::thread called the implementation directly, bypassing the augmentation
layer: a layer's join, detach, ... were never called and its state was not
moved by an assignment, unlike for semaphores, mutexes and events.
---
 include/oqpi/threading/interface_thread.hpp | 24 ++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/oqpi/threading/interface_thread.hpp b/include/oqpi/threading/interface_thread.hpp
index 5d1ceda..8dd8faa 100644
--- a/include/oqpi/threading/interface_thread.hpp
+++ b/include/oqpi/threading/interface_thread.hpp
@@ -86,7 +86,7 @@ namespace oqpi { namespace itfc {
                 {
                     std::terminate();
                 }
-                thread_impl::operator =(std::move(rhs));
+                base_type::operator =(std::move(rhs));
             }
             return (*this);
         }
@@ -107,21 +107,21 @@ namespace oqpi { namespace itfc {
     public:
         //------------------------------------------------------------------------------------------
         // Public interface that needs to be implemented by the thread implementation
-        id                  getId()                                     const   { return thread_impl::getId();                       }
-        native_handle_type  getNativeHandle()                           const   { return thread_impl::getNativeHandle();             }
+        id                  getId()                                     const   { return base_type::getId();                       }
+        native_handle_type  getNativeHandle()                           const   { return base_type::getNativeHandle();             }
 
-        bool                joinable()                                  const   { return thread_impl::joinable();                    }
-        void                join()                                              { return thread_impl::join();                        }
-        void                detach()                                            { return thread_impl::detach();                      }
-        void                terminate()                                         { return thread_impl::terminate();                   }
+        bool                joinable()                                  const   { return base_type::joinable();                    }
+        void                join()                                              { return base_type::join();                        }
+        void                detach()                                            { return base_type::detach();                      }
+        void                terminate()                                         { return base_type::terminate();                   }
 
-        void                cancelSynchronousIO()                               { return thread_impl::cancelSynchronousIO();         }
+        void                cancelSynchronousIO()                               { return base_type::cancelSynchronousIO();         }
                                         
-        void                setCoreAffinityMask(core_affinity affinity)         { return thread_impl::setCoreAffinityMask(affinity); }
-        core_affinity       getCoreAffinityMask()                       const   { return thread_impl::getCoreAffinityMask();         }
+        void                setCoreAffinityMask(core_affinity affinity)         { return base_type::setCoreAffinityMask(affinity); }
+        core_affinity       getCoreAffinityMask()                       const   { return base_type::getCoreAffinityMask();         }
 
-        void                setPriority(thread_priority priority)               { return thread_impl::setPriority(priority);         }
-        thread_priority     getPriority()                               const   { return thread_impl::getPriority();                 }
+        void                setPriority(thread_priority priority)               { return base_type::setPriority(priority);         }
+        thread_priority     getPriority()                               const   { return base_type::getPriority();                 }
 
     public:
         //------------------------------------------------------------------------------------------
-- 
2.43.0


From fb327da83d47dc3c4ae042f407ce4c1a0e65d18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:36 +0000
Subject: [PATCH 22/23] fix: move the result along with a task

The result of a task that was already executed was lost (left uninitialised)
when the task was moved by construction or assignment.
---
 include/oqpi/scheduling/task.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/oqpi/scheduling/task.hpp b/include/oqpi/scheduling/task.hpp
index 0508f71..6f2cc80 100644
--- a/include/oqpi/scheduling/task.hpp
+++ b/include/oqpi/scheduling/task.hpp
@@ -36,6 +36,7 @@ namespace oqpi {
         // Movable
         task(self_type &&other)
             : task_base(std::move(other))
+            , task_result_type(std::move(other))
             , _TaskContext(std::move(other))
             , notifier_type(std::move(other))
             , func_(std::move(other.func_))
@@ -47,6 +48,7 @@ namespace oqpi {
             if (this != &rhs)
             {
                 task_base::operator =(std::move(rhs));
+                task_result_type::operator =(std::move(rhs));
                 _TaskContext::operator =(std::move(rhs));
                 notifier_type::operator =(std::move(rhs));
                 func_ = std::move(rhs.func_);
-- 
2.43.0


From cb984ffe032eab4f50aabda43aed38a653fca866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:46 +0000
Subject: [PATCH 23/23] fix: a task that was moved from gives up its unique id

Assignment already did so, construction left two tasks with the same id.
---
 include/oqpi/scheduling/task_base.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/scheduling/task_base.hpp b/include/oqpi/scheduling/task_base.hpp
index 7edb7b0..a342583 100644
--- a/include/oqpi/scheduling/task_base.hpp
+++ b/include/oqpi/scheduling/task_base.hpp
@@ -48,7 +48,9 @@ namespace oqpi {
             , priority_(other.priority_)
             , grabbed_(other.grabbed_.load())
             , done_(other.done_.load())
-        {}
+        {
+            other.uid_ = invalid_task_uid;
+        }
 
         //------------------------------------------------------------------------------------------
         task_base& operator =(task_base &&rhs)
-- 
2.43.0

