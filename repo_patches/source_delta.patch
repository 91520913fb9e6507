From e4215d2ec3c49b63c98dfbd6ee00e438a3ba0fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 01/22] fix: stopping the scheduler no longer asserts in, or
 loses a task grabbed by, a running worker

stop() flagged the scheduler as stopped before its workers: a worker coming back empty handed in
between failed the check in worker::run (or executed an invalid handle with checks disabled), and a
task already popped and grabbed when the flag changed was dropped without having been executed.
---
 include/oqpi/scheduling/scheduler.hpp | 13 ++++++++-----
 include/oqpi/scheduling/worker.hpp    | 24 +++++++++++-------------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index e2839df..5525230 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -113,13 +113,15 @@ namespace oqpi {
         // Stops the workers and waits on them
         void stop()
         {
-            running_.store(false);
-
+            // The workers have to be flagged as stopped before the scheduler, as a worker returning
+            // empty handed because the scheduler stopped expects to have been stopped itself
             for (auto &upWorker : workers_)
             {
                 upWorker->stop();
             }
 
+            running_.store(false);
+
             wakeUpAllWorkers();
 
             for (auto &upWorker : workers_)
@@ -287,14 +289,15 @@ namespace oqpi {
                 // Grab the next task
                 task_handle hTask = waitForNextTask(w);
 
-                // We could have been waken up to stop
-                if (!running_.load())
+                // We could have been waken up to stop, note that a task that has been grabbed has to
+                // be executed even if we're stopping as no one else will be able to
+                if (!hTask.isValid())
                 {
                     return;
                 }
 
                 // Make sure it's runnable
-                if (oqpi_ensure(hTask.isValid() && hTask.isGrabbed()))
+                if (oqpi_ensure(hTask.isGrabbed()))
                 {
                     // Make sure it's not done (activeWait on groups can leave a task done without being grabbed)
                     if (!hTask.isDone())
diff --git a/include/oqpi/scheduling/worker.hpp b/include/oqpi/scheduling/worker.hpp
index cee6369..3dc1261 100644
--- a/include/oqpi/scheduling/worker.hpp
+++ b/include/oqpi/scheduling/worker.hpp
@@ -106,20 +106,18 @@ namespace oqpi {
                 // We consider ourselves active either way
                 _WorkerContext::worker_onActive();
 
-                // Check if we've waken up to work on a new task
-                if (isRunning())
+                // Check if we've waken up to work on a new task, if so it has to be executed even if
+                // we've been stopped in the meantime as no one else will be able to
+                if (worker_base::hTask_.isValid())
                 {
-                    if (oqpi_ensure(worker_base::hTask_.isValid()))
-                    {
-                        // Inform the context that we're about to start the execution of a new task
-                        _WorkerContext::worker_onPreExecute(worker_base::hTask_);
-                        // Actually execute the task
-                        worker_base::hTask_.execute();
-                        // Inform the context that we just finished the execution of a task
-                        _WorkerContext::worker_onPostExecute(worker_base::hTask_);
-                        // Reset the task, can potentially free the memory if there's no more reference to that task
-                        worker_base::hTask_.reset();
-                    }
+                    // Inform the context that we're about to start the execution of a new task
+                    _WorkerContext::worker_onPreExecute(worker_base::hTask_);
+                    // Actually execute the task
+                    worker_base::hTask_.execute();
+                    // Inform the context that we just finished the execution of a task
+                    _WorkerContext::worker_onPostExecute(worker_base::hTask_);
+                    // Reset the task, can potentially free the memory if there's no more reference to that task
+                    worker_base::hTask_.reset();
                 }
             }
 
-- 
2.43.0


From e240dd62dccc7368e51c904e9154a997611fa002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 02/22] fix: a fork capped at one task no longer runs two at
 once

The cap was only looked at after having scheduled a task, which is one too many when the
task executed by the fork itself already uses up the cap.
---
 include/oqpi/scheduling/parallel_group.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/oqpi/scheduling/parallel_group.hpp b/include/oqpi/scheduling/parallel_group.hpp
index 8ae89c8..39301a6 100644
--- a/include/oqpi/scheduling/parallel_group.hpp
+++ b/include/oqpi/scheduling/parallel_group.hpp
@@ -92,15 +92,14 @@ namespace oqpi {
                 size_t i = 0;
                 int32_t scheduledTasks = 0;
 
-                while ((i = currentTaskIndex_.fetch_add(1)) < taskCount)
+                // The first task is executed right here, so it counts as one of the simultaneous tasks
+                while ((maxSimultaneousTasks_ <= 0 || scheduledTasks < maxSimultaneousTasks_-1)
+                    && (i = currentTaskIndex_.fetch_add(1)) < taskCount)
                 {
                     if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
                     {
                         this->scheduler_.add(tasks_[i]);
-                        if (maxSimultaneousTasks_ > 0 && ++scheduledTasks >= maxSimultaneousTasks_-1)
-                        {
-                            break;
-                        }
+                        ++scheduledTasks;
                     }
                 }
 
-- 
2.43.0


From f5c5cd067e73982efba0d3ac7c356b1150ef0c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 03/22] fix: resolving an inherited priority no longer races
 with the task's completion

A fork handing in its members while somebody else actively waits on it reads the parent group
of a member which is being executed and thus unbound from its group at the same time.
---
 include/oqpi/scheduling/scheduler.hpp       | 13 ++++++++-----
 include/oqpi/scheduling/task_base.hpp       |  8 +++++---
 include/oqpi/scheduling/task_group_base.hpp |  6 +++---
 include/oqpi/scheduling/task_handle.hpp     |  2 +-
 4 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index 5525230..ac5a3f2 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -210,17 +210,20 @@ namespace oqpi {
 
             if (priority == task_priority::inherit)
             {
-                auto pParentGroup = hTask.getParentGroup().get();
+                auto spParentGroup = hTask.getParentGroup();
                 do 
                 {
-                    if (oqpi_failedf(pParentGroup != nullptr, "One parent group is invalid for this task: %d", hTask.getUID()))
+                    if (spParentGroup == nullptr)
                     {
-                         priority = task_priority::normal;
+                        // Someone else could be executing the task (or be done with it) by now, in
+                        // which case it's not bound to its group anymore and its priority is moot
+                        oqpi_checkf(hTask.isGrabbed(), "One parent group is invalid for this task: %d", hTask.getUID());
+                        priority = task_priority::normal;
                         break;
                     }
 
-                    priority     = pParentGroup->getPriority();
-                    pParentGroup = pParentGroup->getParentGroup().get();
+                    priority      = spParentGroup->getPriority();
+                    spParentGroup = spParentGroup->getParentGroup();
 
                 } while (priority == task_priority::inherit);
             }
diff --git a/include/oqpi/scheduling/task_base.hpp b/include/oqpi/scheduling/task_base.hpp
index 69f16f8..72ea5b1 100644
--- a/include/oqpi/scheduling/task_base.hpp
+++ b/include/oqpi/scheduling/task_base.hpp
@@ -92,13 +92,15 @@ namespace oqpi {
 
         inline void setParentGroup(const task_group_sptr &spParentGroup)
         {
-            spParentGroup_ = spParentGroup;
+            std::atomic_store(&spParentGroup_, spParentGroup);
             onParentGroupSet();
         }
 
-        inline const task_group_sptr& getParentGroup() const
+        // The parent group is released once the task is done, which can happen at any time if
+        // someone else is executing the task, hence the copy.
+        inline task_group_sptr getParentGroup() const
         {
-            return spParentGroup_;
+            return std::atomic_load(&spParentGroup_);
         }
 
         inline task_priority getPriority() const
diff --git a/include/oqpi/scheduling/task_group_base.hpp b/include/oqpi/scheduling/task_group_base.hpp
index 800ad37..e8dfa0c 100644
--- a/include/oqpi/scheduling/task_group_base.hpp
+++ b/include/oqpi/scheduling/task_group_base.hpp
@@ -41,10 +41,10 @@ namespace oqpi {
     // task_group_base.
     inline void task_base::notifyParent()
     {
-        if (spParentGroup_)
+        if (auto spParentGroup = getParentGroup())
         {
-            spParentGroup_->oneTaskDone();
-            spParentGroup_.reset();
+            spParentGroup->oneTaskDone();
+            std::atomic_store(&spParentGroup_, task_group_sptr());
         }
     }
     //----------------------------------------------------------------------------------------------
diff --git a/include/oqpi/scheduling/task_handle.hpp b/include/oqpi/scheduling/task_handle.hpp
index cc0c20e..6f229e6 100644
--- a/include/oqpi/scheduling/task_handle.hpp
+++ b/include/oqpi/scheduling/task_handle.hpp
@@ -139,7 +139,7 @@ namespace oqpi {
         }
 
         //------------------------------------------------------------------------------------------
-        const task_group_sptr& getParentGroup() const
+        task_group_sptr getParentGroup() const
         {
             validate();
             return spTask_->getParentGroup();
-- 
2.43.0


From 8e8bfe7f45f00a29b350c00a138dc42830a376d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 04/22] fix: atomic_partitioner covers ranges that don't start
 at 0

The end of the range was mistaken for its number of elements: indices were missing when the
first index was positive, and handed out beyond the range when it was negative.
---
 include/oqpi/parallel_algorithms/atomic_partitioner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/oqpi/parallel_algorithms/atomic_partitioner.hpp b/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
index 1263cc9..417312f 100644
--- a/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
+++ b/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
@@ -46,7 +46,7 @@ namespace oqpi {
                 // Get a copy of where we're at in the array
                 auto expectedIndex = sharedIndex_.load();
                 // Compute how many indices we could grab
-                const auto count = std::min<int32_t>(elementCount_ - expectedIndex, indicesToGrab_);
+                const auto count = std::min<int32_t>(lastIndex_ - expectedIndex, indicesToGrab_);
                 if (count > 0)
                 {
                     // There's still something to grab, try to do it, by being the one to increment the shared index.
-- 
2.43.0


From c02b79e2c842df6396800f2417ba700d8263eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 05/22] fix: a scheduler only reports idle once all tasks have
 been processed

isIdle looked at the queues and then at the workers one after the other: a
task popped in between, or one handing in another task before completing, was
missed, and the workers' task handles and the queues were read unsynchronized.
---
 include/oqpi/scheduling/scheduler.hpp | 37 ++++++++++++++-------------
 include/oqpi/scheduling/worker.hpp    |  2 ++
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index ac5a3f2..88809ee 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -29,7 +29,8 @@ namespace oqpi {
 
     public:
         scheduler()
-            : running_(false)
+            : unfinishedTasks_(0)
+            , running_(false)
         {
             std::memset(&workersPerPrio_[0], 0, sizeof(workersPerPrio_));
         }
@@ -147,25 +148,10 @@ namespace oqpi {
         }
 
         //------------------------------------------------------------------------------------------
+        // Whether all the tasks handed in so far have been processed by the workers
         bool isIdle() const
         {
-            for (const auto &taskQueue : pendingTasks_)
-            {
-                if (!taskQueue.empty())
-                {
-                    return false;
-                }
-            }
-
-            for (const auto &upWorker : workers_)
-            {
-                if (!upWorker->isAvailable())
-                {
-                    return false;
-                }
-            }
-
-            return true;
+            return unfinishedTasks_.load() == 0;
         }
 
         //------------------------------------------------------------------------------------------
@@ -194,6 +180,8 @@ namespace oqpi {
             if (hTask.isValid() && !hTask.isGrabbed() && !hTask.isDone())
             {
                 const auto priority = resolveTaskPriority(hTask);
+                // Has to be done before anyone can pop the task
+                unfinishedTasks_.fetch_add(1);
                 pendingTasks_[int(priority)].push(hTask);
                 wakeUpWorkersWithPriority(priority);
             }
@@ -259,6 +247,7 @@ namespace oqpi {
                             {
                                 // The task has already been grabbed by someone else
                                 hTask.reset();
+                                signalTaskProcessed();
                             }
                         }
                     }
@@ -312,8 +301,18 @@ namespace oqpi {
                         break;
                     }
                 }
+
+                // Nothing to do for this one
+                signalTaskProcessed();
             }
         }
+        //------------------------------------------------------------------------------------------
+        // Called once for each task popped from the queues, as soon as there's nothing left to do
+        // for it (the worker it was assigned to executed it, or it was discarded)
+        void signalTaskProcessed()
+        {
+            unfinishedTasks_.fetch_sub(1);
+        }
 
     private:
         //------------------------------------------------------------------------------------------
@@ -344,6 +343,8 @@ namespace oqpi {
         std::vector<worker_uptr>    workers_;
         int32_t                     workersPerPrio_[PRIO_COUNT];
         _TaskQueueType<task_handle> pendingTasks_[PRIO_COUNT];
+        // Number of tasks pending or being executed by a worker
+        std::atomic<int32_t>        unfinishedTasks_;
         std::atomic<bool>           running_;
     };
     //----------------------------------------------------------------------------------------------
diff --git a/include/oqpi/scheduling/worker.hpp b/include/oqpi/scheduling/worker.hpp
index 3dc1261..ff10f4b 100644
--- a/include/oqpi/scheduling/worker.hpp
+++ b/include/oqpi/scheduling/worker.hpp
@@ -118,6 +118,8 @@ namespace oqpi {
                     _WorkerContext::worker_onPostExecute(worker_base::hTask_);
                     // Reset the task, can potentially free the memory if there's no more reference to that task
                     worker_base::hTask_.reset();
+                    // Signal to the scheduler that we're done with this task
+                    scheduler_.signalTaskProcessed();
                 }
             }
 
-- 
2.43.0


From 39b25a94968930f751bbdbe52a9664b1468cf625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 06/22] fix: this_thread::sleep_for compiles on POSIX

There is no pthread_sleep, so neither sleep_for, sleep_until nor
scheduler::waitUntilIdle could be used.
---
 include/oqpi/threading/posix_thread.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index ebf615a..d330743 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -5,6 +5,7 @@
 #include <unistd.h>
 #include <math.h>
 #include <cstring>
+#include <thread>
 #include <sys/resource.h>
 
 #include "oqpi/platform.hpp"
@@ -403,7 +404,7 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         inline void sleep_for(const std::chrono::duration<_Rep, _Period>& relTime)
         {
-            pthread_sleep(std::chrono::duration_cast<std::chrono::milliseconds>(relTime).count());
+            std::this_thread::sleep_for(relTime);
         }
         //------------------------------------------------------------------------------------------
         inline uint32_t get_current_core()
-- 
2.43.0


From 3070c375ce5e45df412197196646a607bd6edeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 07/22] fix: concurrent_queue::empty doesn't read the queue
 unlocked

---
 include/oqpi/concurrent_queue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/concurrent_queue.hpp b/include/oqpi/concurrent_queue.hpp
index f4071bd..c508a75 100644
--- a/include/oqpi/concurrent_queue.hpp
+++ b/include/oqpi/concurrent_queue.hpp
@@ -35,10 +35,11 @@ public:
 
     bool empty() const
     {
+        lock_t __l(mutex_);
         return queue_.empty();
     }
 
 private:
-    std::mutex      mutex_;
-    std::queue<T>   queue_;
+    mutable std::mutex  mutex_;
+    std::queue<T>       queue_;
 };
-- 
2.43.0


From ed70bfba156c195eb9fc5d13686dc323fd233dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 08/22] fix: resetting a manual-reset event never blocks

reset looked at the count and then waited on the semaphore: if someone else
(e.g. another reset) took the count in between it blocked until the next notify.
---
 include/oqpi/synchronization/posix/posix_event.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_event.hpp b/include/oqpi/synchronization/posix/posix_event.hpp
index 3485d70..ceeca14 100644
--- a/include/oqpi/synchronization/posix/posix_event.hpp
+++ b/include/oqpi/synchronization/posix/posix_event.hpp
@@ -140,19 +140,9 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         void reset(posix_semaphore_wrapper &sem)
         {
-            auto semValue = sem.getValue();
-
             // Decrement internal counter to 0. Event is unsignaled.
-            while (semValue != 0)
-            {
-                if (!sem.wait())
-                {
-                    oqpi_error("Was not able to reset event.");
-                    break;
-                }
-
-                semValue = sem.getValue();
-            }
+            // Must never block, someone else could decrement the counter at the same time.
+            while (sem.tryWait());
         }
     };
 
-- 
2.43.0


From 2dfb22a2fa084f67e6453f9ee0b420dfcdb22811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 09/22] fix: semaphore waitFor returns its result

---
 include/oqpi/synchronization/posix/posix_semaphore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore.hpp b/include/oqpi/synchronization/posix/posix_semaphore.hpp
index 4d840dc..891c866 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore.hpp
@@ -91,7 +91,7 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         bool waitFor(const std::chrono::duration<_Rep, _Period> &relTime)
         {
-            sem_.waitFor(relTime);
+            return sem_.waitFor(relTime);
         }
 
     private:
-- 
2.43.0


From b8f1cda9e26de4a3ccca5e5c31a90dc2dd97d84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 10/22] fix: timed waits normalize their deadline

When the current time's and the duration's nanoseconds added up to a second or
more, or to less than zero, sem_timedwait failed right away with EINVAL.
---
 .../posix/posix_semaphore_wrapper.hpp         | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 7008dad..b3dae63 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -125,11 +125,23 @@ namespace oqpi {
                 return false;
             }
 
-            auto nanoseconds    = std::chrono::duration_cast<std::chrono::nanoseconds>(relTime);
-            const auto secs     = std::chrono::duration_cast<std::chrono::seconds>(nanoseconds);
-            nanoseconds         -= secs;
+            const auto secs     = std::chrono::duration_cast<std::chrono::seconds>(relTime);
+            const auto nanosecs = std::chrono::duration_cast<std::chrono::nanoseconds>(relTime - secs);
             t.tv_sec            += secs.count();
-            t.tv_nsec           += nanoseconds.count();
+            t.tv_nsec           += nanosecs.count();
+
+            // sem_timedwait only accepts nanoseconds in the range [0, 1 second)
+            constexpr auto oneSec = 1000000000l;
+            if (t.tv_nsec >= oneSec)
+            {
+                t.tv_nsec -= oneSec;
+                ++t.tv_sec;
+            }
+            else if (t.tv_nsec < 0)
+            {
+                t.tv_nsec += oneSec;
+                --t.tv_sec;
+            }
 
             const auto error    = sem_timedwait(handle_, &t);
             if(error == -1 && errno != ETIMEDOUT)
-- 
2.43.0


From 7ab0606224f62d72f31d0020559b65e11a2082a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 11/22] fix: a signal handler interrupting a wait doesn't end
 it

---
 .../posix/posix_semaphore_wrapper.hpp          | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index b3dae63..b695dea 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -106,7 +106,13 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         bool wait()
         {
-            const auto error = sem_wait(handle_);
+            auto error = sem_wait(handle_);
+            // Being interrupted by a signal handler doesn't end the wait
+            while (error == -1 && errno == EINTR)
+            {
+                error = sem_wait(handle_);
+            }
+
             if (error == -1)
             {
                 oqpi_error("sem_wait failed with error code %d", errno);
@@ -143,8 +149,14 @@ namespace oqpi {
                 --t.tv_sec;
             }
 
-            const auto error    = sem_timedwait(handle_, &t);
-            if(error == -1 && errno != ETIMEDOUT)
+            auto error = sem_timedwait(handle_, &t);
+            // Being interrupted by a signal handler doesn't end the wait
+            while (error == -1 && errno == EINTR)
+            {
+                error = sem_timedwait(handle_, &t);
+            }
+
+            if (error == -1 && errno != ETIMEDOUT)
             {
                 oqpi_error("sem_timedwait failed with error code %d", errno);
             }
-- 
2.43.0


From 7aa9fedac72c64ba97e31a837db11d0f40c1013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 12/22] fix: opening a named semaphore doesn't create it

open_existing created the semaphore and then removed it again (along with the
name) when it didn't exist, so that others could see it or lose theirs, and
open_or_create could create one whose count wasn't the initial one.
---
 .../posix/posix_semaphore_wrapper.hpp         | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index b695dea..c8834bb 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -200,23 +200,28 @@ namespace oqpi {
                 return false;
             }
 
-            // If both O_CREAT and O_EXCL are specified, then an error is returned if a semaphore with the given
-            // name already exists. Otherwise it creates it.
-            handle_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
+            const auto canOpen      = creationOption != sync_object_creation_options::create_if_nonexistent;
+            const auto canCreate    = creationOption != sync_object_creation_options::open_existing;
 
-            if (handle_ != SEM_FAILED && creationOption == sync_object_creation_options::open_existing)
+            // If the semaphore comes into existence or disappears between both calls we have to try again
+            auto tryAgain = true;
+            while (tryAgain)
             {
-                // We've created a semaphore even though given the open_existing creation option.
-                oqpi_error("Trying to open an existing semaphore that doesn't exist.");
-                return false;
-            }
+                tryAgain = false;
 
-            // Open a semaphore
-            if (handle_ == SEM_FAILED &&
-                (creationOption == sync_object_creation_options::open_existing
-                    || creationOption == sync_object_creation_options::open_or_create))
-            {
-                handle_ = sem_open(name_.c_str(), O_CREAT, S_IRUSR | S_IWUSR, 0);
+                if (canCreate)
+                {
+                    // If both O_CREAT and O_EXCL are specified, then an error is returned if a semaphore with the
+                    // given name already exists. Otherwise it creates it.
+                    handle_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
+                }
+
+                if (canOpen && handle_ == SEM_FAILED && (!canCreate || errno == EEXIST))
+                {
+                    // Without O_CREAT, an error is returned if there's no semaphore with the given name.
+                    handle_     = sem_open(name_.c_str(), 0);
+                    tryAgain    = canCreate && handle_ == SEM_FAILED && errno == ENOENT;
+                }
             }
 
             if (handle_ == SEM_FAILED)
-- 
2.43.0


From 18a65d64f99aa43dee22980049a9860639d71843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 13/22] fix: closing an opened named semaphore leaves its name
 in place

Closing any handle unlinked the name, so a mutex, semaphore or event someone
else had created could not be found anymore, and others created a second one.
---
 .../posix/posix_semaphore_wrapper.hpp              | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index c8834bb..005702b 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -15,12 +15,14 @@ namespace oqpi {
         posix_semaphore_wrapper()
             : handle_(nullptr)
             , name_()
+            , isOwner_(false)
         {}
 
         //------------------------------------------------------------------------------------------
         posix_semaphore_wrapper(const std::string &name, sync_object_creation_options creationOption, int32_t initCount)
             : handle_(nullptr)
             , name_(name.empty() ? "" : "/" + name)
+            , isOwner_(false)
         {
             const auto isLocalSyncObject = name_.empty();
             if (isLocalSyncObject && creationOption != sync_object_creation_options::open_existing)
@@ -50,6 +52,7 @@ namespace oqpi {
         posix_semaphore_wrapper(posix_semaphore_wrapper &&other)
             : handle_(other.handle_)
             , name_(other.name_)
+            , isOwner_(other.isOwner_)
         {
             other.handle_ = nullptr;
         }
@@ -61,6 +64,7 @@ namespace oqpi {
             {
                 handle_     = rhs.handle_;
                 name_       = rhs.name_;
+                isOwner_    = rhs.isOwner_;
                 rhs.handle_ = nullptr;
             }
             return (*this);
@@ -214,6 +218,7 @@ namespace oqpi {
                     // If both O_CREAT and O_EXCL are specified, then an error is returned if a semaphore with the
                     // given name already exists. Otherwise it creates it.
                     handle_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
+                    isOwner_ = handle_ != SEM_FAILED;
                 }
 
                 if (canOpen && handle_ == SEM_FAILED && (!canCreate || errno == EEXIST))
@@ -272,7 +277,11 @@ namespace oqpi {
         void releaseGlobalSemaphore()
         {
             sem_close(handle_);
-            sem_unlink(name_.c_str());
+            // Others could still want to open it, it's up to the one who created it to remove its name
+            if (isOwner_)
+            {
+                sem_unlink(name_.c_str());
+            }
         }
 
 
@@ -288,6 +297,9 @@ namespace oqpi {
         sem_t       *handle_;
         //------------------------------------------------------------------------------------------
         std::string name_;
+        //------------------------------------------------------------------------------------------
+        // Whether we created the named semaphore (as opposed to having opened an existing one)
+        bool        isOwner_;
     };
 
 } /*oqpi*/
-- 
2.43.0


From 93906d987810dacd2d2d2090f327090e47d79b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 14/22] fix: moving into a valid synchronization object
 replaces it

The assignment was silently ignored when the target already was a valid object
(while a semaphore's maximum count and the name were taken over regardless).
---
 include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 005702b..2784fca 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -60,8 +60,9 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         posix_semaphore_wrapper &operator =(posix_semaphore_wrapper &&rhs)
         {
-            if (this != &rhs && !isValid())
+            if (this != &rhs)
             {
+                release();
                 handle_     = rhs.handle_;
                 name_       = rhs.name_;
                 isOwner_    = rhs.isOwner_;
-- 
2.43.0


From 0adf230583cf0782d36d51ace8b347e9db0b7ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 15/22] fix: a thread that couldn't be created isn't joinable

---
 include/oqpi/threading/posix_thread.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index d330743..8a229a7 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -148,15 +148,17 @@ namespace oqpi {
 
             error = pthread_create(&handle_, pThreadAttr, lpStartAddress, pData);
 
-            if(error != 0)
+            if(pThreadAttr != nullptr)
             {
-                oqpi_error("pthread_create failed with error number: %d", error);
-                return false;
+                pthread_attr_destroy(pThreadAttr);
             }
 
-            if(pThreadAttr != nullptr)
+            if(error != 0)
             {
-                pthread_attr_destroy(pThreadAttr);
+                oqpi_error("pthread_create failed with error number: %d", error);
+                // The content of the handle is undefined if there's no thread
+                handle_ = 0;
+                return false;
             }
 
             setCoreAffinityMask(attributes.coreAffinityMask_);
-- 
2.43.0


From ef9514a3a9aa2e423a811ded3ff84cc795091f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 16/22] fix: launching a thread never changes its launcher's
 core affinity

---
 include/oqpi/threading/posix_thread.hpp | 41 +++++++++++++++++++------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index 8a229a7..c4e51e8 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -140,6 +140,15 @@ namespace oqpi {
                         oqpi_error("pthread_attr_setstacksize failed with error number: %d", error);
                     }
                 }
+
+                // The affinity can't be set through the handle as the thread might be over by then, in which case
+                // it would apply to the calling thread.
+                const auto set = make_cpu_set(attributes.coreAffinityMask_);
+                error = pthread_attr_setaffinity_np(pThreadAttr, sizeof(set), &set);
+                if(error != 0)
+                {
+                    oqpi_error("pthread_attr_setaffinity_np failed with error number: %d", error);
+                }
             }
             else
             {
@@ -148,6 +157,15 @@ namespace oqpi {
 
             error = pthread_create(&handle_, pThreadAttr, lpStartAddress, pData);
 
+            if(error == EINVAL && pThreadAttr != nullptr)
+            {
+                // None of the requested cores might be available, still run the thread in this case
+                oqpi_error("pthread_create failed with error number: %d, ignoring the core affinity", error);
+                const auto noSet = cpu_set_t{};
+                pthread_attr_setaffinity_np(pThreadAttr, 0, &noSet);
+                error = pthread_create(&handle_, pThreadAttr, lpStartAddress, pData);
+            }
+
             if(pThreadAttr != nullptr)
             {
                 pthread_attr_destroy(pThreadAttr);
@@ -161,8 +179,6 @@ namespace oqpi {
                 return false;
             }
 
-            setCoreAffinityMask(attributes.coreAffinityMask_);
-
             return true;
         }
 
@@ -291,13 +307,7 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         static void set_core_affinity_mask(native_handle_type handle, core_affinity affinityMask)
         {
-            auto set = cpu_set_t{};
-            // Clears set, so that it contains no CPUs.
-            CPU_ZERO(&set);
-            memcpy(&set.__bits, &affinityMask, sizeof(affinityMask));
-
-            // Make sure the selected mask is valid
-            oqpi_check(static_cast<uint64_t>(affinityMask) < (1ull << hardware_concurrency()) || affinityMask == core_affinity::all_cores);
+            const auto set = make_cpu_set(affinityMask);
 
             const auto error = pthread_setaffinity_np(handle, sizeof(cpu_set_t), &set);
             if(error != 0)
@@ -367,6 +377,19 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
 
     private:
+        //------------------------------------------------------------------------------------------
+        static cpu_set_t make_cpu_set(core_affinity affinityMask)
+        {
+            auto set = cpu_set_t{};
+            // Clears set, so that it contains no CPUs.
+            CPU_ZERO(&set);
+            memcpy(&set.__bits, &affinityMask, sizeof(affinityMask));
+
+            // Make sure the selected mask is valid
+            oqpi_check(static_cast<uint64_t>(affinityMask) < (1ull << hardware_concurrency()) || affinityMask == core_affinity::all_cores);
+
+            return set;
+        }
         //------------------------------------------------------------------------------------------
         static inline int get_min_priority()
         {
-- 
2.43.0


From 4bddb53f0ab2a5b642931d7b0406326e634edad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 17/22] fix: a group's pre-execution hook precedes the tasks
 executed by whoever waits for it actively

---
 include/oqpi/scheduling/parallel_group.hpp |  2 ++
 include/oqpi/scheduling/task_group.hpp     | 19 +++++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/scheduling/parallel_group.hpp b/include/oqpi/scheduling/parallel_group.hpp
index 39301a6..b4690be 100644
--- a/include/oqpi/scheduling/parallel_group.hpp
+++ b/include/oqpi/scheduling/parallel_group.hpp
@@ -64,6 +64,8 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         virtual void activeWait() override final
         {
+            this->preExecuteOnce();
+
             for (auto &hTask : tasks_)
             {
                 if (hTask.tryGrab())
diff --git a/include/oqpi/scheduling/task_group.hpp b/include/oqpi/scheduling/task_group.hpp
index 2b4e4a1..5f19dc9 100644
--- a/include/oqpi/scheduling/task_group.hpp
+++ b/include/oqpi/scheduling/task_group.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <mutex>
+
 #include "oqpi/scheduling/task_handle.hpp"
 #include "oqpi/scheduling/task_notifier.hpp"
 #include "oqpi/scheduling/task_group_base.hpp"
@@ -50,14 +52,14 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         virtual void execute() override final
         {
-            _GroupContext::group_onPreExecute();
+            preExecuteOnce();
             executeImpl();
         }
 
         //------------------------------------------------------------------------------------------
         virtual void executeSingleThreaded() override final
         {
-            _GroupContext::group_onPreExecute();
+            preExecuteOnce();
             executeSingleThreadedImpl();
             _GroupContext::group_onPostExecute();
 
@@ -92,6 +94,15 @@ namespace oqpi {
         virtual void executeSingleThreadedImpl()            = 0;
 
     protected:
+        //------------------------------------------------------------------------------------------
+        // Has to be called, and to return, before any task of the group is executed. The tasks of a
+        // group can be executed by the thread executing the group as well as by the ones actively
+        // waiting for it: whoever comes first triggers the pre-execution of the context.
+        void preExecuteOnce()
+        {
+            std::call_once(preExecuted_, [this] { _GroupContext::group_onPreExecute(); });
+        }
+
         //------------------------------------------------------------------------------------------
         // Called once all tasks of a group are done
         void notifyGroupDone()
@@ -105,6 +116,10 @@ namespace oqpi {
     protected:
         // We need a reference to the scheduler so that the groups can add their tasks
         _Scheduler &scheduler_;
+
+    private:
+        // Makes sure the pre-execution of the context happens only once
+        std::once_flag preExecuted_;
     };
     //----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 3dc57d8e853558bbc5a62d62d2de9e83426cdb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:23 +0000
Subject: [PATCH 18/22] fix: executing a group single threaded a second time
 does nothing

---
 include/oqpi/scheduling/parallel_group.hpp | 15 ++++++---------
 include/oqpi/scheduling/sequence_group.hpp |  9 +++------
 include/oqpi/scheduling/task_group.hpp     | 14 +++++++++-----
 3 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/include/oqpi/scheduling/parallel_group.hpp b/include/oqpi/scheduling/parallel_group.hpp
index b4690be..6f09538 100644
--- a/include/oqpi/scheduling/parallel_group.hpp
+++ b/include/oqpi/scheduling/parallel_group.hpp
@@ -46,19 +46,16 @@ namespace oqpi {
         // For debug purposes
         virtual void executeSingleThreadedImpl() override final
         {
-            if (task_base::tryGrab())
+            const auto taskCount = tasks_.size();
+            if (oqpi_ensure(taskCount > 0))
             {
-                const auto taskCount = tasks_.size();
-                if (oqpi_ensure(taskCount > 0))
+                oqpi_check(taskCount == activeTasksCount_);
+                for (size_t i = 0; i < taskCount; ++i)
                 {
-                    oqpi_check(taskCount == activeTasksCount_);
-                    for (size_t i = 0; i < taskCount; ++i)
-                    {
-                        tasks_[i].executeSingleThreaded();
-                    }
+                    tasks_[i].executeSingleThreaded();
                 }
-                tasks_.clear();
             }
+            tasks_.clear();
         }
 
         //------------------------------------------------------------------------------------------
diff --git a/include/oqpi/scheduling/sequence_group.hpp b/include/oqpi/scheduling/sequence_group.hpp
index 94ca50c..90ace90 100644
--- a/include/oqpi/scheduling/sequence_group.hpp
+++ b/include/oqpi/scheduling/sequence_group.hpp
@@ -38,13 +38,10 @@ namespace oqpi {
         // For debug purposes
         virtual void executeSingleThreadedImpl() override final
         {
-            if (task_base::tryGrab())
+            while (!empty())
             {
-                while (!empty())
-                {
-                    auto hTask = popTask();
-                    hTask.executeSingleThreaded();
-                }
+                auto hTask = popTask();
+                hTask.executeSingleThreaded();
             }
         }
 
diff --git a/include/oqpi/scheduling/task_group.hpp b/include/oqpi/scheduling/task_group.hpp
index 5f19dc9..6504ff0 100644
--- a/include/oqpi/scheduling/task_group.hpp
+++ b/include/oqpi/scheduling/task_group.hpp
@@ -59,12 +59,16 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         virtual void executeSingleThreaded() override final
         {
-            preExecuteOnce();
-            executeSingleThreadedImpl();
-            _GroupContext::group_onPostExecute();
+            // Note that the group can be done without being grabbed when calling activeWait
+            if (task_base::tryGrab() && !task_base::isDone())
+            {
+                preExecuteOnce();
+                executeSingleThreadedImpl();
+                _GroupContext::group_onPostExecute();
 
-            task_base::setDone();
-            notifier_type::notify();
+                task_base::setDone();
+                notifier_type::notify();
+            }
         }
 
         //------------------------------------------------------------------------------------------
-- 
2.43.0


From eb1ed3432e48c165001d08a7855798fee89e5172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 19/22] fix: a task executed single threaded doesn't keep its
 group alive

---
 include/oqpi/scheduling/task.hpp            | 1 +
 include/oqpi/scheduling/task_base.hpp       | 8 ++++++++
 include/oqpi/scheduling/task_group.hpp      | 1 +
 include/oqpi/scheduling/task_group_base.hpp | 2 +-
 4 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/scheduling/task.hpp b/include/oqpi/scheduling/task.hpp
index 0508f71..a161f6a 100644
--- a/include/oqpi/scheduling/task.hpp
+++ b/include/oqpi/scheduling/task.hpp
@@ -78,6 +78,7 @@ namespace oqpi {
                 invoke();
                 // We are single threaded meaning that our parent (if any) is running this task
                 // in its executeSingleThreaded function, so no need to notify it.
+                task_base::releaseParentGroup();
             }
         }
 
diff --git a/include/oqpi/scheduling/task_base.hpp b/include/oqpi/scheduling/task_base.hpp
index 72ea5b1..9a6df5f 100644
--- a/include/oqpi/scheduling/task_base.hpp
+++ b/include/oqpi/scheduling/task_base.hpp
@@ -131,6 +131,14 @@ namespace oqpi {
 
         inline void notifyParent();
 
+    protected:
+        //------------------------------------------------------------------------------------------
+        // A task that is done doesn't need its group anymore, and would keep it alive otherwise
+        inline void releaseParentGroup()
+        {
+            std::atomic_store(&spParentGroup_, task_group_sptr());
+        }
+
     protected:
         //------------------------------------------------------------------------------------------
         // The unique id of this task
diff --git a/include/oqpi/scheduling/task_group.hpp b/include/oqpi/scheduling/task_group.hpp
index 6504ff0..58ba933 100644
--- a/include/oqpi/scheduling/task_group.hpp
+++ b/include/oqpi/scheduling/task_group.hpp
@@ -68,6 +68,7 @@ namespace oqpi {
 
                 task_base::setDone();
                 notifier_type::notify();
+                task_base::releaseParentGroup();
             }
         }
 
diff --git a/include/oqpi/scheduling/task_group_base.hpp b/include/oqpi/scheduling/task_group_base.hpp
index e8dfa0c..eb99abf 100644
--- a/include/oqpi/scheduling/task_group_base.hpp
+++ b/include/oqpi/scheduling/task_group_base.hpp
@@ -44,7 +44,7 @@ namespace oqpi {
         if (auto spParentGroup = getParentGroup())
         {
             spParentGroup->oneTaskDone();
-            std::atomic_store(&spParentGroup_, task_group_sptr());
+            releaseParentGroup();
         }
     }
     //----------------------------------------------------------------------------------------------
-- 
2.43.0


From 91c2bfa57183385cb04eeeaa0925de87d8272bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:06 +0000
Subject: [PATCH 20/22] fix: moving a task that is done keeps its result

---
 include/oqpi/scheduling/task.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/oqpi/scheduling/task.hpp b/include/oqpi/scheduling/task.hpp
index a161f6a..2b0da65 100644
--- a/include/oqpi/scheduling/task.hpp
+++ b/include/oqpi/scheduling/task.hpp
@@ -36,6 +36,7 @@ namespace oqpi {
         // Movable
         task(self_type &&other)
             : task_base(std::move(other))
+            , task_result_type(std::move(other))
             , _TaskContext(std::move(other))
             , notifier_type(std::move(other))
             , func_(std::move(other.func_))
@@ -47,6 +48,7 @@ namespace oqpi {
             if (this != &rhs)
             {
                 task_base::operator =(std::move(rhs));
+                task_result_type::operator =(std::move(rhs));
                 _TaskContext::operator =(std::move(rhs));
                 notifier_type::operator =(std::move(rhs));
                 func_ = std::move(rhs.func_);
-- 
2.43.0


From 0d8d582ec179768da30fcb16b57b43c43bd3d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:10 +0000
Subject: [PATCH 21/22] fix: formatted ensure and failed checks report with
 their arguments

---
 include/oqpi/error_handling.hpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/oqpi/error_handling.hpp b/include/oqpi/error_handling.hpp
index afbe669..8f6b998 100644
--- a/include/oqpi/error_handling.hpp
+++ b/include/oqpi/error_handling.hpp
@@ -2,6 +2,8 @@
 
 #include <string>
 #include <cassert>
+#include <cstdarg>
+#include <cstdio>
 #include <iostream>
 
 #include "oqpi/platform.hpp"
@@ -86,16 +88,13 @@ namespace oqpi {
         eAR_AlwaysIgnore
     };
     //----------------------------------------------------------------------------------------------
-    inline eAssertResult assert_function(const char *file, int line, const char *expression, const char *description = "", ...)
+    inline eAssertResult assert_function_args(const char *file, int line, const char *expression, const char *description, va_list argPtr)
     {
         std::string strMessage;
 
-        va_list argPtr;
         static const unsigned int bufferSize = 1 << 10;
         thread_local static char formattedMessage[bufferSize];
-        va_start(argPtr, description);
         vsnprintf(formattedMessage, bufferSize, description, argPtr);
-        va_end(argPtr);
 
 
         strMessage = std::string(
@@ -138,6 +137,15 @@ namespace oqpi {
 #endif // OQPI_PLATFORM_WIN
     }
     //----------------------------------------------------------------------------------------------
+    inline eAssertResult assert_function(const char *file, int line, const char *expression, const char *description = "", ...)
+    {
+        va_list argPtr;
+        va_start(argPtr, description);
+        const eAssertResult assertResult = assert_function_args(file, line, expression, description, argPtr);
+        va_end(argPtr);
+        return assertResult;
+    }
+    //----------------------------------------------------------------------------------------------
     inline void debugger_break()
     {
 #if (OQPI_PLATFORM_WIN)
@@ -149,7 +157,11 @@ namespace oqpi {
     //----------------------------------------------------------------------------------------------
     inline bool assert_and_return_false(const char *file, int line, const char *expression, const char *description = "", ...)
     {
-        const eAssertResult assertResult = assert_function(file, line, expression, description);
+        // The arguments of the description are ours, they have to be handed over explicitly
+        va_list argPtr;
+        va_start(argPtr, description);
+        const eAssertResult assertResult = assert_function_args(file, line, expression, description, argPtr);
+        va_end(argPtr);
         if (assertResult == eAR_Retry)
         {
             debugger_break();
@@ -159,7 +171,11 @@ namespace oqpi {
     //----------------------------------------------------------------------------------------------
     inline bool assert_and_return_true(const char *file, int line, const char *expression, const char *description = "", ...)
     {
-        const eAssertResult assertResult = assert_function(file, line, expression, description);
+        // The arguments of the description are ours, they have to be handed over explicitly
+        va_list argPtr;
+        va_start(argPtr, description);
+        const eAssertResult assertResult = assert_function_args(file, line, expression, description, argPtr);
+        va_end(argPtr);
         if (assertResult == eAR_Retry)
         {
             debugger_break();
-- 
2.43.0


From abd79c89fd14c87930a9654555d48be9c60d2db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:00 +0000
Subject: [PATCH 22/22] fix: let thread layers take part in the thread's
 operations and assignments

---
 include/oqpi/threading/interface_thread.hpp | 26 ++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/oqpi/threading/interface_thread.hpp b/include/oqpi/threading/interface_thread.hpp
index 5d1ceda..e796f10 100644
--- a/include/oqpi/threading/interface_thread.hpp
+++ b/include/oqpi/threading/interface_thread.hpp
@@ -86,7 +86,7 @@ namespace oqpi { namespace itfc {
                 {
                     std::terminate();
                 }
-                thread_impl::operator =(std::move(rhs));
+                base_type::operator =(std::move(rhs));
             }
             return (*this);
         }
@@ -107,21 +107,21 @@ namespace oqpi { namespace itfc {
     public:
         //------------------------------------------------------------------------------------------
         // Public interface that needs to be implemented by the thread implementation
-        id                  getId()                                     const   { return thread_impl::getId();                       }
-        native_handle_type  getNativeHandle()                           const   { return thread_impl::getNativeHandle();             }
+        id                  getId()                                     const   { return base_type::getId();                         }
+        native_handle_type  getNativeHandle()                           const   { return base_type::getNativeHandle();               }
 
-        bool                joinable()                                  const   { return thread_impl::joinable();                    }
-        void                join()                                              { return thread_impl::join();                        }
-        void                detach()                                            { return thread_impl::detach();                      }
-        void                terminate()                                         { return thread_impl::terminate();                   }
+        bool                joinable()                                  const   { return base_type::joinable();                      }
+        void                join()                                              { return base_type::join();                          }
+        void                detach()                                            { return base_type::detach();                        }
+        void                terminate()                                         { return base_type::terminate();                     }
 
-        void                cancelSynchronousIO()                               { return thread_impl::cancelSynchronousIO();         }
+        void                cancelSynchronousIO()                               { return base_type::cancelSynchronousIO();           }
                                         
-        void                setCoreAffinityMask(core_affinity affinity)         { return thread_impl::setCoreAffinityMask(affinity); }
-        core_affinity       getCoreAffinityMask()                       const   { return thread_impl::getCoreAffinityMask();         }
+        void                setCoreAffinityMask(core_affinity affinity)         { return base_type::setCoreAffinityMask(affinity);   }
+        core_affinity       getCoreAffinityMask()                       const   { return base_type::getCoreAffinityMask();           }
 
-        void                setPriority(thread_priority priority)               { return thread_impl::setPriority(priority);         }
-        thread_priority     getPriority()                               const   { return thread_impl::getPriority();                 }
+        void                setPriority(thread_priority priority)               { return base_type::setPriority(priority);           }
+        thread_priority     getPriority()                               const   { return base_type::getPriority();                   }
 
     public:
         //------------------------------------------------------------------------------------------
@@ -173,7 +173,7 @@ namespace oqpi { namespace itfc {
 
             // Actually creates the thread. Passed a pointer to the launcher as user data.
             // The implementation should take the ownership of the launcher if the thread creation succeeds.
-            if (thread_impl::template create<launcher_t>(attributes, upLauncher.get()))
+            if (base_type::template create<launcher_t>(attributes, upLauncher.get()))
             {
                 // If the thread creation succeeded, we transfer the ownership of the launcher to it.
                 upLauncher.release();
-- 
2.43.0

