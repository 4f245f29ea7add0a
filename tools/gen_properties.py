#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the list stays consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
I = "include/asyncpp/"
TESTS = "The unit tests drive one fixed order of calls, mostly from one thread; "

p("C01", "Manual-reset events wake every waiting coroutine exactly once",
  "A coroutine that awaits a single_consumer_event or multi_consumer_event continues exactly once: at once if the event is set, otherwise because of a set() that follows, on the dispatcher the wait named (else the one passed to set(), else inside set()), and it never stays suspended after a completed set(). "
  "set() returns true exactly when it released at least one waiting coroutine, reset() only ever turns a set event into an unset one and never drops a waiter, and everything written before the set() is visible to the coroutine after it and to whoever saw is_set() return true. "
  "A released coroutine may destroy the event at once.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of any number of set(), reset(), is_set() callers with waiters arriving, under spurious CAS failure and stale (weak-memory) reads",
  TESTS + "the interleavings between publishing a waiter and exchanging the state word are never exercised, and memory-order mistakes are invisible on x86.",
  [I+"event.h"], [("state word CAS/exchange hands the waiter list to exactly one set()", I+"event.h: single_consumer_event, multi_consumer_event")],
  ["resumption count per wait", "set() result", "thread and dispatcher of resumption"], [("m_state", "nullptr unset / this set / waiter", I+"event.h")])
p("C02", "Auto-reset events lose no signal and release each wait at most once",
  "For single_consumer_auto_reset_event and multi_consumer_auto_reset_event every wait continues exactly once and no coroutine stays suspended once a set() that began after its wait was registered has completed; a set() that finds no waiter is remembered until exactly one later wait consumes it or reset() discards it, and a set() that releases waiters leaves the event unset. "
  "Signals may coalesce but are never duplicated: the number of waits that pass without a waiter being released by set() never exceeds the number of set() calls. set() returns true exactly when it released a waiter, and writes made before the set() are visible to the coroutine it lets through and to whoever saw is_set() return true.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of set(), reset(), is_set() and waits from several threads, spurious CAS failure, stale reads",
  TESTS + "the two-step exchange/clear in set() and the consume path of a wait only interact under real concurrency.",
  [I+"event.h"], [("CAS protocol on the state word that consumes or stores one signal", I+"event.h: *_auto_reset_event")],
  ["resumptions per wait", "set() results", "is_set() at quiescence"])
p("C03", "The async mutex excludes, hands over in FIFO order and never loses a waiter",
  "At most one coroutine is between acquiring a mutex (lock(), lock_scoped(), mutex_lock::lock(), successful try_lock()) and the matching unlock(), what the previous holder wrote is visible to the next one, and try_lock() fails only while the mutex is held. "
  "Every coroutine that awaits the lock eventually acquires it exactly once if holders keep unlocking, coroutines that queued one after the other while the mutex was held acquire it in that order, and once nobody holds or waits the mutex is unlocked and can be taken again. "
  "A mutex_lock releases the lock it owns exactly once, also across moves and exceptions.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of lockers, try_lockers and unlockers on several threads, locks carried across threads, spurious CAS failure",
  TESTS + "contention between the waiter push and the unlock fast path needs a precise interleaving of two threads.",
  [I+"mutex.h"], [("lock-free waiter stack reversed into a FIFO list by unlock()", I+"mutex.h: mutex::unlock, lock_awaiter::await_suspend")],
  ["critical section overlap counter", "acquisition order"])
p("C04", "A latch opens exactly when its count reaches zero and releases every waiter",
  "A latch becomes ready exactly when the sum of all decrements equals its initial count - not earlier, and never fails to once it does - after which is_ready() stays true, every coroutine waiting on it continues exactly once on the dispatcher it asked for, and later waits do not suspend. "
  "Everything written before any of the decrements is visible to a coroutine released by the latch and to whoever saw is_ready() return true.",
  ["schedules", "histories", "inputs"], "all interleavings of concurrent decrement(n) calls with waiters arriving, any initial count including zero",
  TESTS + "concurrent decrements racing with waiters are not run at all.",
  [I+"latch.h", I+"event.h"], [("fetch_sub on the counter decides the single caller that sets the event", I+"latch.h: latch::decrement")],
  ["is_ready()", "resumptions"])
p("C05", "A channel delivers each value to exactly one reader, in order, until closed",
  "Each value whose write(), or try_write(), reports success is received by exactly one read() or try_read(), values of one writer are received in the order written, no value is received twice or invented, and a write that reports failure was not received. "
  "Waiting readers and writers are served first come first served on the dispatcher they chose, and a reader and a writer never both stay suspended. "
  "close() makes every waiting and every later operation finish promptly with nullopt or false, so that no coroutine stays suspended on a closed channel.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of readers, writers, try operations and close() on several threads and dispatchers",
  TESTS + "close() racing a suspending reader or writer and rendezvous between threads are never sampled.",
  [I+"channel.h"], [("waiter lists under one mutex, closed flag re-checked when suspending", I+"channel.h: read_awaiter, write_awaiter, close")],
  ["received multiset vs. acknowledged writes", "suspended coroutines after close"])
p("C06", "A bounded queue is FIFO, loses and duplicates nothing and respects its bound",
  "For any maximum size of at least one, every item whose push reported success is popped exactly once and in the order accepted, the number of stored items never exceeds the bound, try_push() fails only when full and try_pop() only when empty. "
  "A producer suspends only while the queue is full and a consumer only while it is empty, and each continues, on its chosen or the queue's default dispatcher, as soon as an item or space becomes available to it in first come first served order. "
  "clear() and move assignment drop stored items and fail the affected waiting operations without leaving any coroutine suspended.",
  ["schedules", "histories", "inputs"], "all interleavings of push, pop, try_push, try_emplace, try_pop, size, empty, clear and move assignment from several threads, all small bounds",
  TESTS + "the lock taken in one half of an await and released in the other is never contended.",
  [I+"queue.h"], [("mutex held from await_ready to await_suspend, waiter lists", I+"queue.h")],
  ["linearizability of the recorded history against a bounded FIFO model", "size()"])
p("C07", "A promise settles once and every observer sees that one result",
  "However many threads race fulfil and reject calls, exactly one succeeds; the throwing forms throw and the try forms return false for all others, and state queries never go back from settled to pending. "
  "Every get(), timed get, try_get, co_await, then() and on_settle() observer - whether registered before, during or after settling - is completed or called exactly once with that one value or exception, whose contents are fully visible, and none is lost; once settled the promise keeps none of the callbacks. "
  "A timed get() returns nullptr only after its timeout has elapsed with the promise unsettled, and then promptly.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of settlers and observers, spurious condition variable wake-ups, clock jumps, exceptions from copying the value",
  TESTS + "concurrent settlement, observers arriving while callbacks run and spurious wake-ups are not covered.",
  [I+"promise.h"], [("state transition under one mutex, callbacks moved out then run", I+"promise.h: promise_state")],
  ["winner count", "observer call counts and values", "elapsed simulated time of timed waits"])
p("C08", "Promise combinators settle exactly when and with what they promise",
  "promise_first settles with the result of the first argument to settle, promise_first_successful is fulfilled with the first fulfilled argument and rejected only once all arguments were rejected, with the exception of the last one, and promise_all is fulfilled once, and only once, all arguments have settled. "
  "This holds no matter from which threads and in which order the arguments settle, including before the combinator is called (arguments that are settled by then count in argument order); the result settles exactly once, never stays pending once its condition is met, and releases every resource it holds.",
  ["schedules", "histories"], "all interleavings of threads settling the arguments before, while and after the combinator subscribes to them",
  TESTS + "arguments settling from different threads at the same time are never tried.",
  [I+"promise.h"], [("shared atomic counter / first try_fulfill wins", I+"promise.h: promise_first, promise_first_successful, promise_all")],
  ["result state vs. argument states at every settle"])
p("C09", "A thread pool runs every accepted task exactly once, on its own threads",
  "Every callable accepted by push() runs exactly once on a thread of that very pool, with dispatcher::current() being the pool, within bounded time, also if it is pushed from a task of the same or of another pool, while threads steal from each other or while the pool is being resized. "
  "push() refuses a task (by throwing) only when the pool has no threads - never one pushed by a task of the pool itself, which may push until it has finished - and destroying or shrinking the pool first runs every task already accepted and then joins its threads. "
  "After resize(n) the pool has exactly n threads, and what a pusher wrote before push() is visible to the task. A task pushed to an idle pool starts at once and an empty callable is ignored.",
  ["schedules", "histories", "configurations", "fault_sequences"], "all interleavings of pushes (outside, own pool, other pool), stealing, resize and destruction, spurious wake-ups, stalled threads",
  TESTS + "a push racing a shrink, a thief racing the final drain and cross-pool pushes need exact interleavings.",
  [I+"thread_pool.h"], [("per-thread queues, work stealing, resize handshake", I+"thread_pool.h: push, resize, thread_state::run, try_steal_task")],
  ["execution count per task", "thread and dispatcher of execution", "live threads after resize"])
p("C10", "The timer runs each callback once, not before its time, and promptly",
  "Every callable given to a timer's push(), schedule() or wait() is invoked exactly once, on the timer's thread: scheduled ones with true no earlier than the requested point of the steady clock and after it without further delay than that of callbacks already due or running, in order of their deadlines (among entries without stop token, and among those with one), or with false if the timer is destroyed first. "
  "Destruction always finishes and leaves no callback uninvoked and no coroutine suspended; operations racing with it either take effect or throw. "
  "Callbacks that keep pushing further callbacks do not starve scheduled ones. An empty callable is accepted and ignored. The global timer behind co_await <duration> is one such timer, created once and destroyed at exit. Spurious wake-ups, system clock jumps, other scheduled work and stop tokens of other entries do not change any of this.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of schedulers, pushers and destruction with the timer thread, any set of deadlines, spurious wake-ups, wall-clock jumps, stalls",
  TESTS + "they sleep in real time for a few milliseconds and cannot place a schedule() or destruction inside the timer loop.",
  [I+"timer.h"], [("ordered sets and push queue drained by one thread", I+"timer.h: timer::run")],
  ["invocation count, argument, simulated time of invocation"])
p("C11", "Cancelling a timed wait completes it once, without deadlock or loss",
  "If stop is requested before a cancellable schedule() or wait() expires, its callback is invoked exactly once with false and promptly; if it expires first, exactly once with true; in every interleaving of stop request, expiry, scheduling and timer destruction it is exactly one of the two. "
  "request_stop() never deadlocks with the timer and is safe from any thread, including from inside timer callbacks, and a stop requested before scheduling cancels at once. "
  "Cancellation of one entry never affects another.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of request_stop() with schedule(), expiry and destruction, several entries sharing stop sources",
  TESTS + "cancellation is only ever requested long before expiry from one thread.",
  [I+"timer.h", I+"stop_token.h"], [("stop callback removing the scheduled entry", I+"timer.h: cancellable_scheduled_entry::cancel_callback")],
  ["invocation count and argument", "progress of request_stop()"])
p("C12", "simple_dispatcher runs tasks in FIFO order and stops promptly; async_main ends",
  "Tasks pushed to a running simple_dispatcher from any thread are each run exactly once, in push order for each pusher, on the thread inside run() with dispatcher::current() set to it, and the previous current dispatcher is restored when run() returns or a task throws; empty callables are ignored. With several threads inside run(), a blocked task does not keep the others from running the rest. "
  "run() returns after stop() was called - before, during or after run() started waiting - without running further tasks than the one in progress, and never hangs. "
  "async_main runs the user's main coroutine to completion, possibly across other dispatchers, and yields its result or exception.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of push() and stop() with run(), spurious wake-ups, nested run()",
  TESTS + "stop() hitting the gap between the check and the wait in run() is never produced.",
  [I+"simple_dispatcher.h", I+"async_main.h"], [("queue under a mutex with condition variable and done flag", I+"simple_dispatcher.h: run, stop, push")],
  ["execution log", "termination of run()"])
p("C13", "Suspended coroutines resume once, on the dispatcher they asked for",
  "co_await defer(d) continues exactly once on a thread of d, and a null dispatcher does not suspend; awaiting an event, latch, channel or queue from a thread of dispatcher d continues on d unless another dispatcher was named, for every dispatcher type and chain of dispatchers. "
  "dispatcher::current() inside any callback or continuation run by a thread_pool, simple_dispatcher or timer is that dispatcher and is unaffected by nested or concurrent use of others. "
  "What the coroutine wrote before it moved is visible after it.",
  ["schedules", "programs", "configurations"], "all interleavings of hops between several dispatchers of several kinds",
  TESTS + "the tests hop between at most two dispatchers in one order.",
  [I+"defer.h", I+"dispatcher.h", I+"event.h", I+"channel.h", I+"queue.h"], [("awaiters capture dispatcher::current() and push the resumption", I+"defer.h, "+I+"event.h")],
  ["dispatcher::current() and thread after every resumption"])
p("C14", "Joining a launch scope returns exactly when all its tasks are done",
  "For async_launch_scope, a coroutine awaiting join() (or the future from join_future()) continues exactly once, never before every task launched on the scope up to then has finished and always once they have, on whatever threads they finish. "
  "After it continues the results of all tasks are visible, the scope may be destroyed at once and may be used for further launches and joins, and inflight_coroutines() is the number of unfinished tasks, zero when idle. "
  "Only a second concurrent join() is refused.",
  ["schedules", "histories"], "all interleavings of tasks finishing on several threads with join(), repeated launch/join rounds and scope destruction right after join",
  TESTS + "tasks finish in the testing thread, so the window between registering the joiner and re-checking the count is never hit.",
  [I+"launch.h"], [("atomic count plus continuation hand-off", I+"launch.h: async_launch_scope")],
  ["resumptions of the joiner", "task completion at that moment"])
p("C15", "Task results are delivered once and every coroutine frame is destroyed once",
  "A task, fire-and-forget task, launch() or as_promise() coroutine runs its body exactly once after it is started, delivers its value or exception exactly once to whoever awaits or gets it, on whichever thread it finishes, and destroys its frame, parameters and locals exactly once - after completion or when an unstarted or finished handle is dropped - with no leak, double destruction or access after destruction. "
  "Dropping, copying or moving a handle from another thread while the coroutine runs or finishes is safe, and copies of one handle start it at most once. Chains of awaited tasks of any length need no more stack for it in an optimised build. Frames live in suitably aligned memory of the given allocator and go back to it. "
  "An exception leaving a fire-and-forget task goes exactly to its exception_policy: the handler is called, ignored, or the process terminates.",
  ["schedules", "programs", "fault_sequences"], "all interleavings of completion with awaiting, handle destruction and result retrieval across threads; exceptions at any point",
  TESTS + "completion on another thread racing with handle destruction is never sampled.",
  [I+"task.h", I+"fire_and_forget.h", I+"launch.h", I+"sync_wait.h", I+"policy.h"], [("reference count and final suspend decide the one destroyer; symmetric transfer to the continuation", I+"fire_and_forget.h, "+I+"task.h")],
  ["live object counters, allocation ledger", "delivered results"])
p("C16", "An async generator yields each value once, in order, across any suspension",
  "Iterating an async_generator produces exactly the sequence its body yields, each element once and in order, then end; an exception in the body surfaces at the awaiting begin() or increment exactly once, which ends the sequence, and work happens only on demand. "
  "This holds for sequences of any length (without more stack, in an optimised build), when the body suspends on other threads or dispatchers, completes synchronously, or the consumer moves between threads, and yielded values are fully visible to the consumer. "
  "Destroying or replacing the generator at any suspension point destroys the frame and everything it holds exactly once.",
  ["schedules", "programs", "fault_sequences"], "all interleavings of producer and consumer resumption on several threads, early destruction, exceptions, both directions completing synchronously",
  TESTS + "the producer always completes in the consumer's thread.",
  [I+"async_generator.h"], [("producer/consumer state hand-off between advance and yield", I+"async_generator.h")],
  ["consumed sequence", "live object counters"])
p("C17", "A fiber behaves as one logical thread across waits, threads and destruction",
  "A fiber body runs exactly once from start to end with its stack, locals and in-flight exceptions intact, each fiber_await() inside it continues exactly once with the awaited result or exception even if the awaited operation completes on another thread, at once, or before the fiber is fully suspended. "
  "Its result is delivered exactly once to the awaiter, which is resumed exactly once, and the state is fully visible across threads; an exception leaving the body, or a wait while an exception is being thrown, terminates the process. Exceptions being handled and the floating-point environment are kept per fiber (and a fiber leaves those of the threads that resume it alone), and its stack has at least the requested size. "
  "When the fiber has finished, or its handle is dropped while it is unstarted, suspended or finished, its objects are destroyed once (a suspended fiber is unwound, without resuming its awaiter) and its stack is returned exactly once.",
  ["schedules", "programs", "fault_sequences"], "all interleavings of suspension with completion of the awaited operation on other threads, nesting of fibers and coroutines, early destruction, exceptions",
  TESTS + "fibers are resumed from the test thread after they are fully suspended.",
  [I+"fiber.h"], [("stack switch plus suspend handler run on the resumer's stack", I+"fiber.h: fiber_handle, fiber_await")],
  ["results, live object counters", "mapped stacks"])
p("C18", "A signal calls each connected slot once per emission, safely under concurrency",
  "An emission calls, in connection order (prepend before, append after the others), exactly once every slot that is connected before it starts and not disconnected meanwhile, calls no slot whose disconnection or removal finished before it started nor one connected after it started, and returns the number of calls made. "
  "append, prepend, remove, handle and scoped_handle disconnect, size and emission may run concurrently from any threads and from inside slots, moving a signal while others append, prepend or disconnect, without losing, duplicating or corrupting connections; remove() of a handle of another signal changes nothing. "
  "A slot's callable is destroyed exactly once, at the latest when the signal, the emissions using it and the handles are gone - or, if it was disconnected, a later emission has passed and no handle of a disconnected slot is left - and its destructor may use the signal. "
  "remove() and owns_handle() tell exactly whether the slot is connected to this signal, handles compare equal exactly if they refer to the same slot, and signal_manager keeps the same guarantees per event, also when it is moved.",
  ["schedules", "histories", "programs"], "all interleavings of emissions, connections and disconnections from several threads and from within slots",
  TESTS + "everything happens in one thread.",
  [I+"signal.h"], [("linked slot list under a mutex with generation counters and lazy unlinking", I+"signal.h: signal, signal_manager")],
  ["call log per emission vs. connection history", "live slot objects"])
p("C19", "Shared references destroy their object exactly once, after the last use",
  "An object managed by ref<> with thread-safe counting is destroyed exactly once, when the last reference to it goes away on whatever thread, never while any ref to it exists, and everything done through any reference is visible to the destructor. "
  "Copying, moving, assigning (also to itself or from a reference reachable only through the replaced object), resetting, releasing and swapping keep the count exact, and a handle holds its new value by the time the old object is destroyed. "
  "atomic_ref loads, stores, exchanges and resets are atomic: concurrent readers always obtain a live object that was stored, and none is leaked.",
  ["schedules", "histories", "programs"], "all interleavings of copies, drops and atomic_ref operations on several threads; all operation sequences on one thread",
  TESTS + "the tests check counts from one thread only; weak memory ordering of the final decrement cannot show on x86.",
  [I+"ref.h"], [("intrusive atomic count; spin-locked pointer in atomic_ref", I+"ref.h: thread_safe_refcount, ref, atomic_ref")],
  ["destructor calls", "use after destruction"])
p("C20", "Stop requests are seen once by all tokens and run each callback exactly once",
  "With the bundled stop_token implementation exactly one request_stop() of a shared state returns true, after which every associated token and source reports the request forever; stop_possible() of a token is true exactly while a stop was requested or a source remains that can request it. "
  "Every stop_callback registered before or at the request runs exactly once - in its constructor if the request was already made, otherwise in the requesting thread - and never after its destructor returned, which waits for a callback running in another thread but not for one running in its own. "
  "Registering and destroying callbacks from inside callbacks and from other threads never deadlocks, loses a callback or touches freed memory, and the shared state is freed exactly once.",
  ["schedules", "histories"], "all interleavings of request_stop(), registration, deregistration and token/source copies on several threads and from within callbacks",
  TESTS + "deregistration racing the running callback is not exercised; the default build does not even use this implementation.",
  [I+"stop_token.h"], [("locked callback list and requester hand-shake", I+"stop_token.h: detail of the custom implementation")],
  ["callback counts and threads", "request_stop() results"])
p("C21", "threadsafe_queue is a linearizable FIFO queue",
  "Concurrent push, emplace and pop operations on a threadsafe_queue behave as if executed one after the other on a plain FIFO queue, in an order consistent with real time: every pushed item is popped exactly once, per producer in order, and pop() returns nothing only if the queue is empty at some moment during the call. "
  "Copying and moving between queues takes or transfers the contents atomically and does not deadlock, also in opposite directions at once; operations of the elements themselves do not use the queue.",
  ["schedules", "histories"], "all interleavings of operations on several threads over several queues",
  TESTS + "only sequential use is tested.",
  [I+"threadsafe_queue.h"], [("one mutex per queue, both locked for transfers", I+"threadsafe_queue.h")],
  ["linearizability of recorded histories"])
p("C22", "A request that fails for lack of resources or a throwing element has no effect",
  "If memory allocation, thread creation, stack mapping or a copy or move of a user's object fails inside a library call, the call reports it by exception to its caller (a coroutine gets it at its co_await) without terminating, hanging, leaking or corrupting anything, and the request is not half done: no rejected callable ever runs and no rejected value is ever received. "
  "Whatever was accepted before is still served exactly once, nobody waiting on the object is forgotten, no stored value is lost (save one whose own move throws on its way out of try_pop/try_read), and the object stays usable and destructible; a failed resize() or construction of a thread_pool keeps the previous threads. "
  "Given: dispatchers accept the resumptions handed to them, and calls declared noexcept or documented to terminate are exempt.",
  ["fault_sequences", "schedules"], "an allocation, thread-creation, mapping or element failure at every possible point of random workloads on thread_pool, simple_dispatcher, timer, queue, threadsafe_queue, channel, promise and combinators, signal, all coroutine types, launch_scope and fibers, combined with interleavings",
  TESTS + "no test makes an allocation, thread creation, mapping or element operation fail.",
  [I+"thread_pool.h", I+"timer.h", I+"queue.h", I+"promise.h", I+"channel.h", I+"fiber.h", I+"signal.h", I+"launch.h", I+"detail/promise_allocator_base.h", I+"threadsafe_queue.h", I+"simple_dispatcher.h"],
  [("strong exception guarantees from container operations and rollback", I+"thread_pool.h: resize"), ("waiters unlinked only after their value was transferred", I+"queue.h, "+I+"channel.h")],
  ["requests served vs. requests accepted", "leak ledger, thread ledger, mapping ledger", "exceptions seen"])
p("C23", "Values, fmap and pure helpers compute what they document",
  "generator<T> and fmap yield exactly the sequence their body produces, ptr_tag round-trips pointer and tag, and scope_guard runs its action exactly once unless disengaged.",
  ["inputs", "programs"], "all inputs of these sequential helpers",
  "Tests sample few inputs; there is no schedule, clock, fault or interleaving involved.",
  [I+"generator.h", I+"ptr_tag.h", I+"scope_guard.h"], [("pure functions of their input", I+"ptr_tag.h")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
