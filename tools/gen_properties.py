#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is the output of this script)."""
import json, os, sys
S = "include/oqpi/scheduling/"
Y = "include/oqpi/synchronization/"
T = "include/oqpi/threading/"
P = "include/oqpi/parallel_algorithms/"
H = "include/oqpi/scheduling_helpers.hpp"
props = []
def P_(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                     "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                     "observe_at": observe or [], "hook_needed": hook}}
    assert len(title) <= 80, title
    props.append(d)

P_("C01", "Every scheduled task is executed exactly once",
   "Every task handed to a scheduler that has a worker able to take its priority is executed exactly once: "
   "never twice and never zero times, no matter from which threads (including from inside running tasks), "
   "before or after start, or how many times the same task is handed in, and even when other threads actively wait on it at the same time. "
   "No task stays pending while a compatible worker sleeps (no lost wake-up).",
   ["schedules", "programs"],
   "all interleavings of producers, workers and active waiters; single tasks, same task added several times, tasks adding tasks",
   "The tests schedule eight tasks once each on free-running workers and only check that nothing hangs; the race windows between pushing, notifying, going to sleep and grabbing are a few instructions wide.",
   [S+"scheduler.hpp", S+"worker.hpp", S+"task_base.hpp", S+"task.hpp", "include/oqpi/concurrent_queue.hpp"],
   [("grab token (compare-exchange)", S+"task_base.hpp"), ("drain tokens, pop, then sleep on the worker semaphore", S+"scheduler.hpp waitForNextTask"), ("push before notify", S+"scheduler.hpp add")],
   [("pending queues", "tasks not yet taken, one queue per priority", S+"scheduler.hpp"), ("grab flag", "who may execute the task", S+"task_base.hpp")],
   ["task function invocations", "deadlock of the closed system"])

P_("C02", "A wait on a task returns after its completion, and always returns",
   "Every wait on a waitable task (plain wait, active wait, wait for result), by any number of threads and started before, during or after the task's execution, "
   "returns only once the task's function has completed; from then on the task reports done, and everything the function wrote and returned is visible to the waiter. "
   "Every such wait does return once the task has completed, and a task never reports done before its function has completed.",
   ["schedules"], "all interleavings of waiters, pollers of the done flag and the executing thread",
   "Tests wait from one thread and do not look at the values; a completion signalled too early or a wake-up lost to a second waiter shows only on particular interleavings.",
   [S+"task.hpp", S+"task_notifier.hpp", S+"task_result.hpp", S+"task_base.hpp", S+"task_handle.hpp", Y+"posix/posix_event.hpp"],
   [("run, set done, post hook, notify", S+"task.hpp invoke"), ("manual-reset event per waitable task", S+"task_notifier.hpp")],
   [("done flag", "execution finished", S+"task_base.hpp"), ("result", "value returned by the function", S+"task_result.hpp")],
   ["return of wait/activeWait/waitForResult", "isDone", "getResult"])

P_("C03", "A fork completes exactly when all of its members have",
   "A fork (parallel group) executes each of its members exactly once and is reported complete (its waits return, it reports done, its parent moves on) only after every member, including members that are groups themselves, has completed. "
   "It is always reported complete once they have, exactly once, and whether or not some thread actively waits on it. Everything its members wrote is visible to whoever waited for the fork.",
   ["schedules", "programs"], "all interleavings; forks of 1..4 members, nested forks/sequences, shared scheduling with other tasks, with and without active waiters",
   "The tests run forks of busy loops with no shared result and check nothing but termination; lost decrements or early completion need simultaneous member endings.",
   [S+"parallel_group.hpp", S+"task_group.hpp", S+"task_group_base.hpp", S+"task_base.hpp"],
   [("countdown of unfinished members", S+"parallel_group.hpp oneTaskDone"), ("completion chain to parent", S+"task_group.hpp notifyGroupDone")],
   [("active task count", "members still to finish", S+"parallel_group.hpp")],
   ["member execution events vs. group completion events"])

P_("C04", "A sequence runs its members one after the other, in order",
   "The members of a sequence group are executed exactly once each and in the order they were added: a member (task or group) starts only after its predecessor has fully completed, and it sees everything its predecessors wrote. "
   "The sequence is reported complete after, and always after, its last member.",
   ["schedules", "programs"], "all interleavings; sequences of 1..4 tasks, of forks, and sequences nested in forks and sequences, mixed priorities, several workers",
   "Tests run sequences of independent tasks and check neither order nor overlap.",
   [S+"sequence_group.hpp", S+"task_group.hpp", S+"task_group_base.hpp"],
   [("next member scheduled from the end of the previous one", S+"sequence_group.hpp oneTaskDone")],
   [("queue of remaining members", "head is next to run", S+"sequence_group.hpp")],
   ["start/end events of members"])

P_("C05", "A capped fork never runs more members at once than its cap",
   "A parallel group created with a maximum number of simultaneous tasks never has more than that many members executing at the same instant, for any cap of at least one and any number of workers. "
   "It still executes all of its members exactly once and completes.",
   ["schedules", "configurations"], "all interleavings; caps 1..3, 2..5 members, 1..3 workers, with and without active waiters",
   "No test uses the cap.",
   [S+"parallel_group.hpp"],
   [("initial batch limited by the cap, one more per completion", S+"parallel_group.hpp executeImpl/oneTaskDone")],
   [("next index to schedule", "members handed out so far", S+"parallel_group.hpp")],
   ["number of members between start and end"])

P_("C06", "Actively waiting on a fork or parallel-for never deadlocks",
   "A thread that actively waits on a fork of plain tasks, or runs a parallel-for, always gets through, even when it is itself a task running on the only worker, when the calls are nested, or when all other workers are busy waiting too: it executes the members nobody has started itself. "
   "When it returns, all members have completed and none of them runs afterwards.",
   ["schedules", "programs", "configurations"], "all interleavings; 0, 1 or 2 workers, active waits from outside, from inside worker tasks, nested and from several threads at once",
   "Tests call parallel_for from the main thread with idle workers only.",
   [S+"parallel_group.hpp", P+"parallel_for.hpp", S+"scheduler.hpp", S+"task.hpp"],
   [("grab-and-execute loop before blocking", S+"parallel_group.hpp activeWait"), ("group may be done without being grabbed", S+"scheduler.hpp")],
   [], ["deadlock of the closed system", "execution events after return"])

P_("C07", "Pending tasks are taken in priority order, first come first served",
   "When a worker looks for work, it takes a pending task of the highest priority it may work on, and among tasks of equal priority the one handed in first. "
   "A task with inherited priority counts with the priority of its nearest enclosing group that has one of its own.",
   ["schedules", "inputs"], "all priority assignments of small task sets incl. inherited ones, all interleavings of producers with a worker",
   "Tests use one priority only.",
   [S+"scheduler.hpp", S+"worker_base.hpp", "include/oqpi/concurrent_queue.hpp", S+"task_type.hpp"],
   [("one FIFO per priority scanned high to low", S+"scheduler.hpp waitForNextTask"), ("walk up the parent groups", S+"scheduler.hpp resolveTaskPriority")],
   [], ["order of task starts on a single worker"])

P_("C08", "A worker only takes tasks of the priorities it is registered for",
   "A worker registered for a set of priorities never picks up a pending task whose (resolved) priority is outside that set, and every pending task is eventually picked up by one of the workers registered for it even if all others are idle or busy. "
   "The scheduler's worker counts, in total and per priority, are exactly what the registered configurations add up to.",
   ["schedules", "configurations"], "all worker priority sets of two workers against all task priorities; all interleavings",
   "Tests register identical workers for all priorities.",
   [S+"worker_base.hpp", S+"scheduler.hpp", S+"worker.hpp"],
   [("priority bit masks", S+"worker_base.hpp can_work_on_priority"), ("selective wake-up", S+"scheduler.hpp wakeUpWorkersWithPriority")],
   [], ["(worker, task priority) pairs", "workersCount/workersTotalCount"])

P_("C09", "Partitioners hand out every index of the range exactly once",
   "For any first and last index (including negative and non-zero starts) whose distance fits the index type, any batch limit and grab size of at least one, and any number of threads drawing ranges concurrently, the ranges a partitioner hands out are non-empty, lie within [first, last), are disjoint and together cover it completely; afterwards every draw says there is nothing left. A copy continues where the original was when it was copied, and the two do not influence each other. "
   "An empty or reversed range is reported invalid and yields nothing. The number of batches announced is at most both the limit and the number of elements, a simple partitioner hands out exactly that many ranges whose sizes differ by at most one, and an atomic partitioner's ranges never exceed the grab size.",
   ["inputs", "schedules"], "all (first, last, limit, grab) in a box plus extreme ranges, all interleavings of up to three drawing threads, copies of partitioners",
   "Tests use ranges starting at zero, sequentially sized, and never check coverage.",
   [P+"base_partitioner.hpp", P+"simple_partitioner.hpp", P+"atomic_partitioner.hpp"],
   [("atomic batch counter", P+"simple_partitioner.hpp"), ("compare-exchange on shared index", P+"atomic_partitioner.hpp")],
   [("shared index / batch index", "what has been handed out", P)],
   ["ranges returned"])

P_("C10", "A parallel-for calls the function once per index and then returns",
   "A parallel-for (or for-each) over any range, with any of the partitioners and default overloads, calls the function exactly once for every index (element) of the range and for nothing else, and returns only after all calls have finished with their effects visible; an empty range makes no call and returns. "
   "If the function takes a batch index, that index is at least 0 and below the number of batches, and no two calls with the same batch index ever overlap.",
   ["schedules", "inputs"], "all interleavings; ranges of 0..4 elements with several starts, 1..3 workers and batch limits, both partitioners, unit and nested use",
   "Tests only accumulate into locals and check no coverage.",
   [P+"parallel_for.hpp", H, P+"simple_partitioner.hpp", P+"atomic_partitioner.hpp"],
   [("one task per batch drawing ranges", P+"parallel_for.hpp make_parallel_for_task_group")],
   [], ["calls of the user function"])

P_("C11", "Stopping a scheduler is safe at any moment and loses no task",
   "Stopping a running scheduler, at any moment relative to what its workers and task producers are doing, never crashes or hangs, and when it returns all worker threads have ended and no task function is running on them. "
   "Every task handed in before has either been executed completely or is still pending untouched; after the scheduler is started again, the pending ones are executed exactly once. Destroying a running scheduler stops it the same way.",
   ["schedules", "histories"], "all interleavings of stop/start/destroy with workers at any point of their loop and with producers; repeated start/stop cycles",
   "Tests stop the scheduler once, when it has long been idle.",
   [S+"scheduler.hpp", S+"worker.hpp"],
   [("running flags, wake-up, join", S+"scheduler.hpp stop"), ("worker main loop", S+"worker.hpp run")],
   [("running flags", "scheduler and worker are to go on", S+"scheduler.hpp, worker.hpp")],
   ["task starts/ends relative to return of stop", "assertions", "deadlock"])

P_("C12", "A scheduler reported idle has no pending or running task",
   "When the scheduler reports that it is idle, every task handed to it before the question was asked (and every task those have handed in) has been completely executed, whatever its workers are doing meanwhile (tasks which an actively waiting thread outside the scheduler took over are that thread's affair); once all work is done and the workers have come back, it does report idle. "
   "Waiting until idle returns when that is the case or when the maximum time has passed, and asking is safe while tasks are being added and executed.",
   ["schedules"], "all interleavings of the idle query with producers and workers taking and finishing tasks, including tasks handing in tasks",
   "No test calls it.",
   [S+"scheduler.hpp", S+"worker.hpp", S+"worker_base.hpp", T+"posix_thread.hpp", "include/oqpi/concurrent_queue.hpp"],
   [("idle query", S+"scheduler.hpp isIdle/waitUntilIdle")], [], ["isIdle result vs. task events"])

P_("C13", "The task queue is a linearizable first-in first-out queue",
   "Under any concurrent use, the queue that holds pending tasks behaves as if its operations took place one at a time: every pushed element is popped at most once and in push order, a pop fails only if the queue was empty at some moment during the call, and the emptiness query answers for some moment during its call.",
   ["schedules", "histories"], "all interleavings of up to three threads with two operations each (push by copy, push by move, pop, empty); all sequential histories up to depth 6",
   "No test exercises the queue directly.",
   ["include/oqpi/concurrent_queue.hpp"], [("mutex around a std::queue", "include/oqpi/concurrent_queue.hpp")], [], ["call/return histories"])

P_("C14", "A manual-reset event stays set until it is reset",
   "A manual-reset event behaves as a flag that starts clear: notify sets it and releases every thread waiting at that time and every later waiter until reset clears it; a wait returns success only if the flag was set at some moment during the call, and while the flag stays set no waiter stays blocked. "
   "Reset and notify never block.",
   ["schedules", "histories"], "all sequential histories up to a depth against a flag; all interleavings of small concurrent histories, checked for linearizability; local and named events",
   "Tests perform one notify, two waits and one reset, one after the other.",
   [Y+"posix/posix_event.hpp", Y+"interface/interface_event.hpp", Y+"posix/posix_semaphore_wrapper.hpp", Y+"event.hpp"],
   [("re-post after a successful wait", Y+"posix/posix_event.hpp wait/waitFor"), ("drain on reset", Y+"posix/posix_event.hpp reset")],
   [], ["call/return histories"])

P_("C15", "An auto-reset event releases one waiter per signal",
   "An auto-reset event behaves as a flag that starts clear: notify sets it, and a successful wait clears it again as part of the wait, so no notify ever releases more than one wait, no wait succeeds without a notify that no other wait has consumed, and a notify is never lost: if a thread is or comes waiting, one is released. "
   "Notifying an event that is already set changes nothing.",
   ["schedules", "histories"], "all sequential histories up to a depth against a flag; all interleavings of small concurrent histories; local and named events",
   "Tests perform one notify and two timed waits, one after the other.",
   [Y+"posix/posix_event.hpp", Y+"interface/interface_event.hpp", Y+"posix/posix_semaphore_wrapper.hpp", Y+"event.hpp"],
   [("semaphore token", Y+"posix/posix_event.hpp")], [], ["call/return histories"])

P_("C16", "A semaphore admits exactly as many waits as it has counts",
   "A semaphore behaves as a counter that starts at its initial count: every notify(n) adds n (notifyOne one, notifyAll its maximum count), every successful wait or tryWait takes one, a wait or tryWait succeeds if and only if the count it sees is positive, and no waiter stays blocked while the count is positive. "
   "The count never goes above the semaphore's maximum.",
   ["schedules", "histories"], "all sequential histories up to a depth against a counter, initial counts and maxima 0..3; all interleavings of small concurrent histories; local and named semaphores",
   "Tests run one fixed history from a single thread.",
   [Y+"posix/posix_semaphore.hpp", Y+"interface/interface_semaphore.hpp", Y+"posix/posix_semaphore_wrapper.hpp"],
   [("POSIX semaphore", Y+"posix/posix_semaphore.hpp")], [], ["call/return histories"])

P_("C17", "A mutex is held by at most one owner at a time",
   "For any number of threads and handles opened on the same named mutex, at most one holds it at any time: lock, tryLock and the timed locks succeed only when nobody else holds it, tryLock succeeds when nobody does, unlocking lets one waiting locker in, and everything written under the lock is visible to the next holder. "
   "A mutex created locked is held by its creator from the start, opening an existing one neither locks nor unlocks it, and a superfluous unlock does not let two owners in.",
   ["schedules", "histories"], "all sequential histories up to a depth against an owner flag; all interleavings of two or three lockers over two handles",
   "Tests lock and unlock from one thread.",
   [Y+"posix/posix_mutex.hpp", Y+"interface/interface_mutex.hpp", Y+"posix/posix_semaphore_wrapper.hpp"],
   [("binary semaphore", Y+"posix/posix_mutex.hpp")], [], ["overlap of critical sections"])

P_("C18", "Timed waits wait as long as asked and report truthfully",
   "A timed wait on an event or semaphore, or a timed lock of a mutex (relative or until a point in time), returns success exactly when it obtained the signal, and reports failure only if that did not become available and at least the requested time has passed, whatever the current time and the duration are. "
   "A zero or negative time asks without waiting, and a signal arriving before the deadline is not missed.",
   ["inputs", "schedules"], "all combinations of clock positions within a second and durations around the second and nanosecond boundaries, signed; all orders of signal versus deadline",
   "Tests use 1 microsecond and 10 seconds at arbitrary times of day; wrong results depend on the position of the clock within the second.",
   [Y+"posix/posix_semaphore_wrapper.hpp", Y+"posix/posix_semaphore.hpp", Y+"posix/posix_event.hpp", Y+"posix/posix_mutex.hpp", Y+"interface/interface_semaphore.hpp", Y+"interface/interface_event.hpp", Y+"interface/interface_mutex.hpp"],
   [("absolute deadline from the realtime clock", Y+"posix/posix_semaphore_wrapper.hpp waitFor")], [], ["virtual clock at call and return", "result"])

P_("C19", "A signal handler interrupting a wait does not end it",
   "When a blocking wait (task or group wait, event or semaphore wait, mutex lock, timed or not, or an idle worker) is interrupted by a signal handler any number of times, it goes on waiting: it does not report success without the signal it waits for, and it does not return early. "
   "In particular a wait on a task still returns only after the task has completed, and no token is consumed or added by the interruption.",
   ["fault_sequences", "schedules"], "every subset of up to two interruption points among all blocking waits, all interleavings",
   "No test delivers a signal.",
   [Y+"posix/posix_semaphore_wrapper.hpp", Y+"posix/posix_event.hpp", Y+"posix/posix_mutex.hpp", S+"task_notifier.hpp", S+"scheduler.hpp"],
   [("retry on interruption", Y+"posix/posix_semaphore_wrapper.hpp")], [], ["results of waits with injected EINTR"])

P_("C20", "Named synchronization objects obey their creation options",
   "Creating a named object with create-if-nonexistent succeeds only if no such object exists, opening an existing one succeeds only if it does and never creates it or disturbs others, and open-or-create always succeeds, using the initial state only if it creates. "
   "All handles opened under a name while its creator's handle is open refer to the same object, closing a handle that merely opened the object leaves it in place for everyone else, closing the creator's handle removes the name, and a failed creation leaves an invalid handle and no trace.",
   ["histories", "schedules"], "all histories of create/open/close over two names and three handles up to a depth, for events, semaphores and mutexes; all interleavings of two concurrent creators/openers",
   "Tests run one fixed history per type.",
   [Y+"posix/posix_semaphore_wrapper.hpp", Y+"sync_common.hpp", Y+"posix/posix_mutex.hpp", Y+"posix/posix_event.hpp", Y+"posix/posix_semaphore.hpp"],
   [("sem_open/sem_unlink use", Y+"posix/posix_semaphore_wrapper.hpp")], [], ["validity of handles", "namespace of the (modelled) system", "token flow between handles"])

P_("C21", "Moving a synchronization object transfers it completely",
   "After move-constructing or move-assigning an event, semaphore or mutex, the target is the very object the source was (state, name, maximum count), the source is invalid, and whatever the target held before has been released exactly once. "
   "No underlying object is leaked, released twice or used after release in any sequence of constructions, moves and destructions, including self-moves and moves from and to invalid objects.",
   ["histories"], "all sequences of create/move-construct/move-assign/destroy/use over three variables up to a depth, local and named, for all types",
   "Tests move-assign temporaries twice and look only at validity.",
   [Y+"posix/posix_semaphore_wrapper.hpp", Y+"posix/posix_semaphore.hpp", Y+"posix/posix_event.hpp", Y+"posix/posix_mutex.hpp", Y+"interface/interface_event.hpp", Y+"sync_common.hpp"],
   [("move operations of the wrapper", Y+"posix/posix_semaphore_wrapper.hpp")], [], ["live underlying objects and their identity"])

P_("C22", "A thread runs its function once, with its arguments and attributes",
   "Launching a thread runs the given callable exactly once on a new thread with the given arguments (moved or copied, released afterwards), under the requested name, stack size, core affinity and, where the system permits it, priority; join returns only after it has finished, with its effects visible, and makes the thread non-joinable, as do detach and moving from it. "
   "Launching leaves the attributes of the launching thread unchanged. Setting a priority or affinity and reading it back gives the same value. If the system refuses to create the thread, the callable is not run, its resources are released, and the object is not joinable.",
   ["schedules", "inputs", "fault_sequences"], "all interleavings of parent and child; all six priorities, affinity masks, creation failures injected at every creation",
   "The one threading test fails in this environment and covers one attribute combination.",
   [T+"interface_thread.hpp", T+"posix_thread.hpp", T+"thread_attributes.hpp", T+"this_thread.hpp"],
   [("launcher ownership hand-over", T+"interface_thread.hpp launch"), ("attribute set-up", T+"posix_thread.hpp create")], [], ["modelled pthread layer"])

P_("C23", "Context hooks bracket execution, exactly once and in order",
   "Every user context attached to a task sees its pre-execute hook exactly once before and its post-execute hook exactly once after the task's function, the latter before any wait on the task returns; a group's contexts see pre-execute before any member starts, task-added for each member added, and post-execute once after all members have completed and before waits on the group return. "
   "A worker's contexts see start first and stop last, idle/active around each search for work and pre-/post-execute around each task it executes. With several contexts, all of them are called, in the order they are listed.",
   ["schedules", "programs"], "all interleavings; tasks, forks, sequences, nested groups, parallel-for and workers with two contexts each",
   "Tests attach one timing context to tasks and groups and check nothing about the calls.",
   [S+"context_container.hpp", S+"task.hpp", S+"task_group.hpp", S+"worker.hpp", S+"parallel_group.hpp", S+"group_context.hpp", S+"task_context.hpp", S+"worker_context.hpp"],
   [("hook calls", S+"task.hpp invoke, task_group.hpp execute/notifyGroupDone, worker.hpp run")], [], ["hook event log"])

P_("C24", "Tasks, groups and handles are released exactly once, and not before",
   "Nothing the library allocated is accessed after it was freed or freed twice, on any schedule and for any order in which users drop their handles, including while the task is executing. "
   "Once a task or group has been executed and the last handle to it is gone, its memory and everything captured by its function has been released; nothing is left after the scheduler has been stopped and destroyed.",
   ["schedules", "programs"], "all interleavings of handle drops with execution, for tasks, forks, sequences, nestings, parallel-for, active waits, stop with pending tasks",
   "Tests keep their handles, run without leak checking and free-running.",
   [S+"task_base.hpp", S+"task_group_base.hpp", S+"task_handle.hpp", S+"parallel_group.hpp", S+"sequence_group.hpp", S+"worker.hpp"],
   [("parent link dropped on completion", S+"task_group_base.hpp notifyParent"), ("worker drops its handle", S+"worker.hpp run")], [], ["allocation log of every explored execution"])

P_("C25", "The library has no data race of its own",
   "Whatever documented-as-safe operations threads perform concurrently (handing in, executing, waiting, actively waiting, polling done/grabbed/idle, querying and dropping handles, starting and stopping around them, using synchronization objects), no two of them access the same memory without synchronization, at least one of them writing. "
   "In particular what one thread writes before handing in a task is visible to the task.",
   ["schedules"], "every explored execution of a set of mixed scenarios is checked with happens-before vector clocks over all memory accesses of library and test code",
   "No test runs under a race detector, and a detector only sees the interleavings that happen.",
   [S+"scheduler.hpp", S+"task_base.hpp", S+"parallel_group.hpp", S+"sequence_group.hpp", S+"worker.hpp", "include/oqpi/concurrent_queue.hpp"],
   [("seq_cst atomics, queue mutex, semaphores", "include/oqpi")], [], ["instrumented memory accesses"])

P_("C26", "A task calls its function with its arguments and yields its result",
   "A task created from any callable and arguments invokes that callable once with exactly those argument values, taken when the task was created, and its result is exactly what the callable returned, for values, movable and trivial types and void, also after the task object was moved. "
   "All convenience overloads for creating and scheduling tasks build the task they say: type, context, priority (normal by default) and arguments.",
   ["programs", "inputs"], "all overload families, callable kinds (function, lambda, mutable functor, move-only captures, member pointers), argument kinds and small value domains",
   "Tests use a lambda and one function with one argument.",
   [S+"task.hpp", S+"task_result.hpp", H],
   [("argument tuple applied on execution", S+"task.hpp make_task"), ("overload chain", H)], [], ["observed arguments, priorities and results"])

P_("C27", "Single-threaded execution runs the whole group in order on the caller",
   "Executing a task or group in single-threaded mode runs it entirely on the calling thread before returning: every member, at any nesting depth, exactly once in the order added, with the same hooks as usual, and leaves all of them done, so that waits on them return immediately and a second execution or later scheduling runs nothing again. Whatever else executes the same task or group at the same time, nothing runs twice.",
   ["programs"], "all trees of tasks, forks and sequences up to a size and depth",
   "No test uses it.",
   [S+"task_group.hpp", S+"parallel_group.hpp", S+"sequence_group.hpp", S+"task.hpp"],
   [("single-threaded execution", S+"task_group.hpp executeSingleThreaded")], [], ["execution log"])

P_("C28", "Task identifiers are unique and valid",
   "Tasks and groups created by any number of threads concurrently all have different identifiers, none of them the invalid one, and a handle reports its task's identifier unchanged throughout the task's life.",
   ["schedules"], "all interleavings of three creating threads",
   "Tests never compare identifiers.",
   [S+"task_base.hpp"], [("atomic generator", S+"task_base.hpp uid_provider")], [], ["identifiers"])

P_("C29", "Fork and sequence helpers build and schedule exactly what is passed",
   "The one-call helpers that fork or sequence a list of tasks put every task passed into one new group, in the given order, with the requested group type and priority, schedule it once, and return a handle to it that can be waited on; groups passed as members behave like tasks. "
   "Adding an invalid handle to a group is ignored, and adding to a group keeps the order and parent of all earlier members.",
   ["programs", "schedules"], "all overloads with 1..4 tasks and all priorities, all interleavings",
   "The README example is the only use; tests do not call them.",
   [H, S+"task_group.hpp", S+"sequence_group.hpp", S+"parallel_group.hpp"],
   [("recursive add to group", H), ("parent binding", S+"task_group.hpp addTask")], [], ["member order and completion"])

P_("C30", "Schedulers are independent of each other",
   "Any number of schedulers can be used side by side: a task is executed by a worker of the scheduler it was handed to (the members of a group by workers of the scheduler the group was made for, "
   "apart from the first one, which whoever executes the group executes, and those an actively waiting thread takes), and starting, stopping, destroying, loading or blocking one scheduler never stops, blocks or loses tasks of another "
   "nor changes its idle state or worker counts, even when their tasks hand in to and wait for each other. A task handed to two schedulers is executed once. "
   "The toolkit's default start brings up exactly the requested number of workers (by default one per core), each able to take every priority, on a scheduler of that toolkit's own, and its stop ends exactly those.",
   ["schedules", "programs"], "all interleavings; two schedulers with one to three workers each, tasks and groups handed in on either and across, stop/restart/destroy of one under load of the other, two toolkits",
   "The tests only ever use one scheduler; state shared by accident shows only with a second one.",
   [S+"scheduler.hpp", S+"worker.hpp", S+"task_group.hpp", S+"parallel_group.hpp", S+"sequence_group.hpp", H],
   [("a group's reference to its scheduler", S+"task_group.hpp"), ("static scheduler per helpers instantiation", H)],
   [("queues, workers and counters", "per scheduler object", S+"scheduler.hpp")],
   ["name of the thread executing a task", "worker counts", "idle queries"])

P_("C31", "A checked build reports misuse in full and refuses it",
   "In a build with checks enabled, breaking a precondition the library states (using an invalid handle, waiting for a fire-and-forget task, asking for an unfinished result, executing a task that has not been grabbed or an empty group, "
   "actively waiting for a sequence, adding a task to a second group, inheriting a priority from no group, starting a scheduler twice or without a worker for every priority, asking for an invalid priority, a core that does not exist, an invalid name) "
   "is reported on standard output by the very thread, with the expression, the place and the description including all of its arguments, and stops that thread in the debugger; two threads doing so at once get a whole report each. If execution goes on, the operation has been refused and everything else works as before. "
   "Nothing is reported for proper use. The check macros (verify, check, ensure, failed, plain and formatted) evaluate their expression exactly once and yield what they say; without checks verify still evaluates it once, the others never, ensure being true and failed false.",
   ["programs", "schedules"], "every macro with every outcome, repeatedly; all interleavings of each kind of misuse, on an outside thread and on a worker, with a running scheduler, and of two and three threads reporting at once",
   "A failing check ends the test program; the tests have none.",
   ["include/oqpi/error_handling.hpp", S+"task_handle.hpp", S+"task.hpp", S+"task_group.hpp", S+"parallel_group.hpp", S+"sequence_group.hpp", S+"scheduler.hpp", "include/oqpi/threading/posix_thread.hpp"],
   [("assertion macros", "include/oqpi/error_handling.hpp"), ("preconditions", "oqpi_check/oqpi_ensure uses")], [], ["captured standard output", "debugger traps per thread", "state afterwards"])

P_("C32", "What a user plugs in is what is used",
   "The types a user plugs in are the ones used. Pending tasks go into and come out of the scheduler's queue type, in the order it gives, and nowhere else; workers run on the thread type they were registered with, made with the attributes they were registered with each time the scheduler starts "
   "(the name with the worker's number when there are several), and sleep and are woken on the notifier type they were registered with, one that wakes them for nothing doing no harm; waits on a task use its event type; "
   "a parallel-for calls the function for exactly the ranges handed out by a copy of the partitioner it is given, whatever they are, leaving the original as it was. "
   "An augmentation layer put on an event, semaphore, mutex or thread sees each operation on the object once, with its arguments (waits until a point in time as waits for the time left, single notifications as notifications by one, a core as the mask of that core), "
   "its answers are the ones returned, its data move with the object, and moving is no operation.",
   ["programs", "schedules"], "all operation sequences up to a depth on objects with a layer that may turn every answer round; all interleavings of workers with a last-in first-out queue, an own notifier, thread, event type; partitioners handing out ranges in every shape",
   "The tests plug in nothing but the library's own types, with empty layers.",
   ["include/oqpi/synchronization/interface/interface_semaphore.hpp", "include/oqpi/synchronization/interface/interface_event.hpp", "include/oqpi/synchronization/interface/interface_mutex.hpp", "include/oqpi/threading/interface_thread.hpp",
    S+"worker.hpp", S+"worker_base.hpp", S+"scheduler.hpp", S+"task_notifier.hpp", "include/oqpi/parallel_algorithms/parallel_for.hpp"],
   [("base_type of the interfaces", "include/oqpi/*/interface_*.hpp"), ("template parameters of the scheduler, worker, task and parallel_for", S)], [], ["calls seen by the plugged in type", "answers", "order of execution"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props), "properties")
