#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here so that they stay diffable."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
H="include/coro/"
prop("C01","Async mutex: exclusive ownership, handed over and released exactly once",
 "At any moment at most one coroutine owns a mutex, and a coroutine that asked for it resumes only as owner. A release either hands ownership to exactly one queued waiter or leaves the mutex free, so that no waiter is stranded while the mutex is free. A guard releases the lock it owns exactly once over its whole life, including when it is moved from, moved onto, explicitly unlocked or destroyed by an exception.",
 ["schedules","programs"],"all interleavings of lock / try_lock / unlock / guard moves by any number of coroutines and threads",
 "Tests run a handful of coroutines with lucky interleavings; the window between an attempt to take the lock and queueing behind it, and a guard assigned over a held guard, are never driven.",
 [H+"mutex.hpp","src/mutex.cpp",H+"detail/awaiter_list.hpp"],
 [("CAS loop that either takes a free lock or queues the waiter","src/mutex.cpp lock_operation_base::await_suspend"),("unlock hands over or frees","src/mutex.cpp mutex::unlock"),("guard special members",H+"mutex.hpp scoped_lock")],
 [("m_state","free / held / held with LIFO list of waiters",H+"mutex.hpp")],["await_suspend/await_ready results","coroutine resumptions","guard special members"])
prop("C02","Semaphore: permits conserved and bounded, waiters never lost",
 "A successful acquire consumes exactly one permit and a release either gives its permit to exactly one waiting acquirer or adds one to the count, which never drops below zero nor rises above the maximum. An acquirer is put to sleep only when no permit is available and it is then visible to the next release, so no waiter sleeps while a permit is available. After shutdown every waiting and every later acquire completes and reports shutdown.",
 ["schedules","histories"],"all interleavings of acquire, try_acquire, release and shutdown",
 "Tests sample a few producer/consumer schedules; the check-then-queue window and release-at-maximum with concurrent operations cannot be enumerated by running it.",
 [H+"semaphore.hpp","src/semaphore.cpp",H+"detail/awaiter_list.hpp"],
 [("internal mutex held from entry to count update or queueing",H+"semaphore.hpp acquire_operation, release"),("bounded CAS decrement",H+"semaphore.hpp try_acquire"),("shutdown drains waiters",H+"semaphore.hpp shutdown")],
 [("m_counter","permits available",H+"semaphore.hpp"),("m_acquire_waiters","sleeping acquirers",H+"semaphore.hpp")],["result of acquire","value()"])
prop("C03","Shared mutex: exclusive excludes everybody, waiters are always woken",
 "An exclusive holder never coexists with any other holder, and shared holders coexist only with shared holders. While an exclusive request is waiting, no new shared request is granted ahead of it. Every release that leaves the mutex without holders either wakes the longest-waiting request (and every shared request directly behind a shared one) or marks the mutex free, and the bookkeeping of holders, waiters and waiting writers matches what was granted.",
 ["schedules","histories"],"all sequences and interleavings of shared/exclusive lock, try_lock and unlock, with any mix of waiters",
 "Tests cover a few reader/writer orders; the counts and list links are updated on many branches whose combinations the tests do not reach.",
 [H+"shared_mutex.hpp"],
 [("grant decision",H+"shared_mutex.hpp try_lock_locked / try_lock_shared_locked"),("queueing",H+"shared_mutex.hpp shared_lock_operation::await_suspend"),("hand-over",H+"shared_mutex.hpp wake_waiters, unlock, unlock_shared")],
 [("m_state","free / shared / exclusive",H+"shared_mutex.hpp"),("m_shared_users","shared holders",H+"shared_mutex.hpp"),("m_exclusive_waiters","writers waiting",H+"shared_mutex.hpp")],["coroutine resumptions"])
prop("C04","Event and latch: setting wakes every waiter once; no wake-up is lost",
 "A coroutine that awaits an event continues at once if the event is set and otherwise is resumed exactly once by the next set, whatever the interleaving of the await with the set; a set event stays set until reset, and reset never discards waiters. With the first-in-first-out policy waiters are resumed in arrival order, otherwise in reverse arrival order. A latch opens when, and only when, its count has been brought to zero or below.",
 ["schedules","histories"],"all interleavings of await, set (inline or through an executor), reset and count_down",
 "The await-versus-set race needs the set to land between the readiness check and the enqueue; tests never force it.",
 [H+"event.hpp","src/event.cpp",H+"latch.hpp",H+"detail/awaiter_list.hpp"],
 [("CAS push that re-checks the set state","src/event.cpp awaiter::await_suspend"),("set detaches the whole list at once","src/event.cpp event::set, include/coro/event.hpp event::set(executor)"),("count crossing",H+"latch.hpp count_down")],
 [("m_state","unset / list of waiters / set",H+"event.hpp"),("m_count","remaining count",H+"latch.hpp")],["coroutine resumptions","is_set, is_ready"])
prop("C05","Condition variable: waiter returns owning the lock, notifications are not lost",
 "Every form of wait releases the caller's lock only after the waiter is registered and returns only with the lock held again; a wait with a predicate returns only after the predicate was evaluated under the lock and was true, or stop was requested, or time ran out. A notification wakes a waiter or keeps it registered, and never loses or double-resumes it. A timed wait is completed by exactly one of notification and timeout.",
 ["schedules","programs"],"all interleavings of wait, wait_for, wait_until, notify_one and notify_all on any executors, with any predicates",
 "Tests use a few waiters on one or two threads; the timeout-versus-notify race and predicate-false re-registration depend on schedules the tests do not control.",
 [H+"condition_variable.hpp","src/condition_variable.cpp"],
 [("register then unlock","src/condition_variable.cpp *::await_suspend; include/coro/condition_variable.hpp make_controller_task"),("re-lock then evaluate then resume","src/condition_variable.cpp *::on_notify; make_timeout_task"),("completion flag",H+"condition_variable.hpp controller_data")],
 [("m_awaiters","registered waiters",H+"condition_variable.hpp"),("m_awaiter_completed","who finished the timed wait",H+"condition_variable.hpp")],["coroutine resumptions","wait results"])
prop("C06","Ring buffer: bounded, first-in first-out, no element lost or duplicated",
 "Elements leave in the order they entered; the buffer never holds more elements than its capacity, and each accepted element is delivered to exactly one consumer. A producer waits only while the buffer is full and a consumer only while it is empty, and each transfer then lets a matching waiter proceed. After shutdown every waiting producer and consumer is resumed, and each result (produced, consumed, notified, stopped) tells what actually happened to the element.",
 ["schedules","histories"],"all interleavings of produce, consume, notify_*, shutdown and shutdown_drain; any capacity and element type",
 "Tests count elements under a few schedules; the wrap-around, waiter hand-off and shutdown paths combine in ways no test enumerates.",
 [H+"ring_buffer.hpp"],
 [("guarded slot transfer under the mutex",H+"ring_buffer.hpp produce_operation/consume_operation::await_ready, try_resume_*"),("shutdown and drain",H+"ring_buffer.hpp shutdown, shutdown_drain")],
 [("m_used/m_front/m_back","occupancy and cursors",H+"ring_buffer.hpp"),("m_produce_waiters/m_consume_waiters","sleeping operations",H+"ring_buffer.hpp")],["produce/consume results"])
prop("C07","Queue: first-in first-out, every accepted element reaches one consumer",
 "Every element accepted by push or emplace is either handed to one waiting consumer or stored and later delivered to exactly one, in order of acceptance. A consumer sleeps only while the queue is empty and running. After shutdown a push is refused and says so, and every waiting or later consumer that finds no element is resumed and told that the queue stopped.",
 ["schedules","histories"],"all interleavings of push, emplace, pop, try_pop, shutdown, shutdown_drain",
 "Tests run a few producers and consumers; the empty-check versus push race and drain termination need schedules they cannot force.",
 [H+"queue.hpp"],
 [("push hands over or stores under the mutex",H+"queue.hpp push, emplace"),("awaiter checks under the mutex",H+"queue.hpp awaiter"),("shutdown",H+"queue.hpp shutdown, shutdown_drain")],
 [("m_elements","stored elements",H+"queue.hpp"),("m_waiters","sleeping consumers",H+"queue.hpp")],["pop/push results"])
prop("C08","Task: lazy, single result or exception, frame destroyed exactly once",
 "A task does not start until awaited or resumed, runs its body once and then resumes whoever awaited it. Its awaiter gets the value the body returned, or the exception it threw is rethrown to it, never neither. A task object owns its coroutine frame: moving transfers it, assignment and destruction free the frame exactly once, and copying is impossible.",
 ["programs"],"all task bodies (value, reference, void, throwing), all ways to move, assign, destroy and await a task",
 "Tests exercise a few return types and exceptions; leaks, double frees after self- or over-assignment and lost exceptions are not observable in their assertions.",
 [H+"task.hpp",H+"detail/task_self_deleting.hpp","src/detail/task_self_deleting.cpp",H+"invoke.hpp"],
 [("promise stores result or exception",H+"task.hpp detail::promise"),("continuation resumed at final suspend",H+"task.hpp promise_base::final_awaitable"),("special members",H+"task.hpp task")],
 [("m_continuation","who awaits",H+"task.hpp"),("m_coroutine","owned frame",H+"task.hpp")],["co_await result"])
prop("C09","when_all: completes only after every task, results kept in order",
 "Awaiting a group of tasks starts every one of them and resumes the awaiter exactly once, only after the last has finished, even when tasks finish on other threads before the awaiter suspends. The result holds one entry per task in the order given, and a task's exception is rethrown when its entry is read, not lost.",
 ["schedules","programs"],"all task counts (also zero), completion orders and threads, value/void/throwing tasks",
 "The last-finisher versus suspending-awaiter race and the memory ordering that publishes results cannot be driven by tests.",
 [H+"when_all.hpp"],
 [("count of tasks plus one for the awaiter",H+"when_all.hpp when_all_latch"),("result and exception stored in the task promise",H+"when_all.hpp when_all_task_promise")],
 [("m_count","unfinished tasks + awaiter",H+"when_all.hpp")],["awaiter resumption","return_value() of each entry"])
prop("C10","when_any: exactly the first finisher wins, the others are told to stop",
 "The awaiter of a when_any is resumed exactly once, with the result of a task that finished first; results of later finishers never overwrite it. The winner's result is complete before the awaiter can see it, and when a stop source was given stop is requested as soon as there is a winner. The state shared by the remaining tasks stays valid until the last of them has finished.",
 ["schedules","programs"],"all task sets, completion orders and threads",
 "Two tasks finishing at once, and losers outliving the awaiter, need schedules and lifetimes that tests sample only by luck.",
 [H+"when_any.hpp"],
 [("first-claimer compare-exchange",H+"when_any.hpp make_when_any_task*"),("event set after the result is stored",H+"when_any.hpp")],
 [("first_completed","whether a winner exists",H+"when_any.hpp"),("notify","wakes the awaiter",H+"when_any.hpp")],["when_any result"])
prop("C11","sync_wait: blocks until completion, then gives the result or exception",
 "A blocking wait on an awaitable returns only after it has completed, on whichever thread that happens, and wakes up always. It returns the produced value or rethrows the exception, and everything the coroutine wrote is visible to the waiting thread. The helper frame is freed exactly once.",
 ["schedules","programs"],"all awaitables and completion threads",
 "Completion between the predicate check and the block, and use of the wake-up object after the waiter returned, are not reachable by tests.",
 [H+"sync_wait.hpp","src/sync_wait.cpp"],
 [("mutex+condition variable event","src/sync_wait.cpp sync_wait_event"),("promise stores result or exception, signals at final suspend",H+"sync_wait.hpp")],
 [("m_set","completed",H+"sync_wait.hpp")],["sync_wait result"])
prop("C12","Generator: yields every value once in order, ends, and rethrows",
 "Iterating a generator gives each yielded value exactly once in order and stops when its body returns. An exception thrown by the body reaches the iterating code at the step that hit it. The generator owns its frame: moved, not copied, and destroyed exactly once.",
 ["programs"],"all generator bodies, including ones that throw before the first or after any yield, and all moves of the generator",
 "Tests iterate non-throwing generators only.",
 [H+"generator.hpp"],
 [("promise keeps current value and exception",H+"generator.hpp generator_promise"),("iterator resumes, then rethrows",H+"generator.hpp generator_iterator, begin")],
 [("m_exception","exception of the body",H+"generator.hpp")],["iteration"])
prop("C13","Task group: every started task is accounted for until it finishes",
 "A task accepted by a group is counted before it can run and un-counted exactly once when it has ended, normally or by exception. Waiting for the group to be empty therefore completes when, and not before, all accepted tasks have ended. A task refused by the executor is reported to the caller and leaves the count unchanged, and destroying the group waits for its tasks.",
 ["schedules","fault_sequences"],"all start/finish interleavings, throwing tasks, executors that refuse work",
 "Tests never start a group on a stopped executor and cannot force completion races with the destructor.",
 [H+"task_group.hpp",H+"detail/task_self_deleting.hpp","src/detail/task_self_deleting.cpp"],
 [("count up before hand-off, count down on refusal and at final suspend",H+"task_group.hpp start, count_down"),("event opened when count returns to zero",H+"task_group.hpp")],
 [("m_size","tasks running",H+"task_group.hpp"),("m_on_empty_event","set when empty",H+"task_group.hpp")],["size, empty, awaiting the group"])
prop("C14","Thread pool: accepted work runs exactly once; shutdown drains and joins",
 "Every coroutine the pool accepts is resumed exactly once by one of its worker threads, and work offered after shutdown began is refused and reported so. The count of pending work goes up before the work becomes visible and down once after it ran, so it returns to zero when idle. Shutdown wakes all workers, lets them finish what was accepted, and returns after they have exited; a second shutdown does nothing.",
 ["schedules","histories"],"all interleavings of schedule/yield/resume/spawn/shutdown from any threads",
 "Work submitted while the last worker leaves, and missed wake-ups, depend on schedules the tests cannot force.",
 [H+"thread_pool.hpp","src/thread_pool.cpp",H+"default_executor.hpp","src/default_executor.cpp"],
 [("queue under mutex + condition variable","src/thread_pool.cpp schedule_impl, executor"),("size accounting","src/thread_pool.cpp"),("shutdown flag, notify, join","src/thread_pool.cpp shutdown")],
 [("m_queue","accepted handles",H+"thread_pool.hpp"),("m_size","pending + running",H+"thread_pool.hpp"),("m_shutdown_requested","closing",H+"thread_pool.hpp")],["resume() result","coroutine resumptions"])
prop("C15","Scheduler: accepted work is resumed once and pending work is counted",
 "Every coroutine handed to the scheduler (scheduled, yielded, resumed, spawned) is resumed exactly once, on the event-loop thread or its pool as configured, and the loop is always woken for it. Pending work is counted from acceptance until resumption on every path, so shutdown waits for exactly the outstanding work and terminates. Work offered after shutdown is refused, and the refusal is reported or the waiting coroutine continues.",
 ["schedules","histories","configurations"],"all interleavings of schedule/yield/resume/spawn/timers/poll/shutdown in each threading and execution configuration",
 "Tests run each configuration briefly; the wake-up flag protocol and the count on rare branches cannot be sampled to exhaustion.",
 [H+"scheduler.hpp","src/scheduler.cpp"],
 [("schedule list + wake-up flag + pipe","src/scheduler.cpp schedule_operation::await_suspend, resume, process_scheduled_execute_inline"),("size accounting",H+"scheduler.hpp, src/scheduler.cpp"),("shutdown","src/scheduler.cpp shutdown")],
 [("m_size","outstanding work",H+"scheduler.hpp"),("m_schedule_fd_triggered","wake-up already sent",H+"scheduler.hpp")],["coroutine resumptions","size()"])
prop("C16","Timers: never early, always armed for the earliest deadline",
 "A coroutine that sleeps for a duration or until a time point is resumed after that time has passed, never before, and sooner or later is. Whenever the set of pending timers changes, the clock is re-armed for the earliest remaining deadline, or disarmed when there is none; one that is already due is not skipped. A non-positive delay is treated as already due.",
 ["schedules","inputs"],"all durations and time points, all orders of insertion, expiry and removal",
 "Tests check a lower bound on a few millisecond-scale sleeps; sub-millisecond remainders, equal deadlines and re-arm races are not covered.",
 [H+"scheduler.hpp","src/scheduler.cpp","src/detail/io_notifier_epoll.cpp","src/detail/timer_handle.cpp"],
 [("ordered timer map","src/scheduler.cpp add_timer_token, remove_timer_token, process_timeout_execute, update_timeout"),("one-shot absolute/relative arm","src/detail/io_notifier_epoll.cpp watch_timer")],
 [("m_timed_events","pending deadlines",H+"scheduler.hpp")],["resumption time"])
prop("C17","Poll: one resumption, the true outcome, nothing left registered",
 "A coroutine polling a descriptor is resumed exactly once, with the outcome that happened first among readiness, error, peer close, timeout and cancellation. When it resumes, its timer and everything registered with the kernel for it (the descriptor and the cancellation trigger) have been removed. A descriptor that cannot be registered is reported as an error and not waited for.",
 ["schedules","fault_sequences"],"all orders and simultaneous arrivals of event, timeout and cancellation; all registration failures",
 "Tests poll one descriptor with one outcome at a time and never with a failing registration.",
 [H+"detail/poll_info.hpp",H+"poll.hpp","src/poll.cpp",H+"scheduler.hpp","src/scheduler.cpp",H+"detail/io_notifier_epoll.hpp","src/detail/io_notifier_epoll.cpp"],
 [("processed flag","src/scheduler.cpp process_event_execute, process_timeout_execute"),("unregister on completion","src/detail/io_notifier_epoll.cpp unwatch, next_events"),("event to status mapping","src/detail/io_notifier_epoll.cpp event_to_poll_status")],
 [("m_processed","already completed",H+"detail/poll_info.hpp"),("m_timer_pos","pending timer of the poll",H+"detail/poll_info.hpp")],["poll result","kernel registrations"])
prop("C18","Every OS resource is owned once and released once",
 "Each descriptor, pipe end, timer, epoll instance, socket, TLS session, TLS context and DNS channel the library opens is closed exactly once, when its owner is closed, overwritten or destroyed, also when construction fails half way. A moved-from owner releases nothing, self-assignment is harmless, and no descriptor the library did not open is ever closed.",
 ["programs","fault_sequences"],"all construction, copy, move, assignment, close and failure sequences of the owning types",
 "Leaked or doubly closed descriptors are invisible to the tests' assertions and failing system calls are never injected.",
 [H+"net/socket.hpp","src/net/socket.cpp",H+"detail/pipe.hpp","src/detail/pipe.cpp",H+"detail/timer_handle.hpp","src/detail/timer_handle.cpp",H+"detail/io_notifier_epoll.hpp","src/detail/io_notifier_epoll.cpp",H+"net/tls/context.hpp","src/net/tls/context.cpp",H+"net/tls/client.hpp","src/net/tls/client.cpp",H+"net/dns/resolver.hpp","src/scheduler.cpp"],
 [("destructors and special members","src/net/socket.cpp, src/detail/pipe.cpp, src/detail/io_notifier_epoll.cpp, src/net/tls/context.cpp")],
 [("m_fd / m_fds","owned descriptors",H+"net/socket.hpp, "+H+"detail/pipe.hpp")],["close, SSL_free, SSL_CTX_free, ares_destroy calls"])
prop("C19","TCP and UDP: byte counts, buffers and failures are reported truthfully",
 "A read or write hands the caller exactly the part of its buffer that was transferred or that remains, never memory outside it, and a transfer of part of the data is continued or reported, never counted twice or skipped. A would-block result waits for readiness and tries again; a peer close, timeout, cancellation or system error reaches the caller as the matching status and never as success.",
 ["inputs","schedules","fault_sequences"],"all buffer sizes and element types, short transfers, and error/would-block/close/timeout/cancel sequences",
 "Loopback tests see full transfers and few errors; short writes and errors in the middle of a transfer are not produced.",
 [H+"net/tcp/client.hpp","src/net/tcp/client.cpp",H+"net/tcp/server.hpp","src/net/tcp/server.cpp",H+"net/udp/peer.hpp","src/net/udp/peer.cpp","src/net/connect.cpp"],
 [("send/recv result mapping",H+"net/tcp/client.hpp write_some, read_some"),("exact transfer loops",H+"net/tcp/client.hpp write_all, read_exact"),("readiness then retry",H+"net/tcp/client.hpp")],
 [("m_socket","connection",H+"net/tcp/client.hpp")],["status and span results"])
prop("C20","Status mappings are total and no failure maps to success",
 "Every errno, TLS-library, kernel-event and DNS outcome the library sees maps to a status that tells success from failure, timeouts, closes and would-block apart: distinct documented causes keep distinct statuses, unknown causes become an error. Every status has a text of its own.",
 ["inputs"],"all error codes, event masks and status values",
 "Tests call each mapping on one or two values.",
 ["src/net/io_status.cpp",H+"net/io_status.hpp","src/poll.cpp",H+"poll.hpp","src/net/connect.cpp","src/net/tls/connection_status.cpp","src/net/tls/recv_status.cpp","src/net/tls/send_status.cpp","src/semaphore.cpp","src/detail/io_notifier_epoll.cpp"],
 [("switches over codes and statuses","src/net/io_status.cpp make_io_status_from_native, make_io_status_from_poll_status, to_string")],(),["mapping results"])
prop("C21","TLS: nothing is sent or trusted before a verified handshake",
 "Application data is exchanged only on a connection whose handshake succeeded; a failed handshake is never reported as connected. Contexts refuse obsolete protocol versions and verify the peer when asked to by default; a certificate or key that cannot be loaded is an error and not ignored. The TLS library's error queue is emptied before each operation whose outcome is judged from it, and each want-read or want-write outcome waits for that direction and retries the operation.",
 ["inputs","fault_sequences","configurations"],"all handshake and record outcomes of the TLS library",
 "Tests complete one good handshake with a local certificate.",
 [H+"net/tls/client.hpp","src/net/tls/client.cpp",H+"net/tls/context.hpp","src/net/tls/context.cpp",H+"net/tls/server.hpp","src/net/tls/server.cpp"],
 [("handshake loop","src/net/tls/client.cpp handshake"),("connect","src/net/tls/client.cpp connect"),("context options","src/net/tls/context.cpp"),("send/recv loops",H+"net/tls/client.hpp")],
 [("m_connect_status","state of the session",H+"net/tls/client.hpp")],["connect/handshake/send/recv results","OpenSSL calls"])
prop("C22","DNS: every lookup completes once with the outcome of its query",
 "A name lookup resumes its caller exactly once, after the resolver library has reported both address families or failed, with success only if an answer was obtained. The sockets the resolver library asks to be watched are each watched by one poll at a time until the query ends, and its results and channels are freed on every path. Library initialisation and clean-up are counted once for the whole process.",
 ["schedules","fault_sequences"],"all callback orders, failures and timeouts of the resolver library; any number of resolvers",
 "Tests resolve one name at a time, when the network allows.",
 [H+"net/dns/resolver.hpp","src/net/dns/resolver.cpp"],
 [("callback countdown",H+"net/dns/resolver.hpp ares_dns_callback"),("poll loop",H+"net/dns/resolver.hpp ares_poll, make_poll_task"),("library reference count",H+"net/dns/resolver.hpp")],
 [("m_pending_dns_requests","outstanding queries",H+"net/dns/resolver.hpp"),("m_ares_count","live resolvers",H+"net/dns/resolver.hpp")],["host_by_name result"])
prop("C23","Lock discipline: shared state is guarded and locks are balanced everywhere",
 "Data shared between threads under a lock is only touched with that lock held, at every place it is touched. Every internal lock taken is released exactly once on every way out, including exceptions and early returns, and never while not held. User coroutines are never resumed inline while an internal lock is held.",
 ["schedules","programs"],"all functions, paths and callers in the library",
 "A race or a lock kept on a rare path shows up only under timing and failures the tests do not create.",
 [H+"thread_pool.hpp","src/thread_pool.cpp",H+"scheduler.hpp","src/scheduler.cpp",H+"queue.hpp",H+"ring_buffer.hpp",H+"semaphore.hpp",H+"shared_mutex.hpp",H+"sync_wait.hpp","src/sync_wait.cpp",H+"net/dns/resolver.hpp",H+"condition_variable.hpp"],
 [("std::scoped_lock / unique_lock regions","src/thread_pool.cpp, src/scheduler.cpp"),("async mutex regions",H+"semaphore.hpp, queue.hpp, ring_buffer.hpp, shared_mutex.hpp")],(),["lock/unlock calls","accesses to guarded state"])
prop("C24","Hand-off safety: nothing is touched after it may be gone or before it is ready",
 "Once a suspended operation has been published to other threads, or a waiter has been resumed, the code that did so never touches that operation or its coroutine again. Everything the resuming thread will read is written before publication, publication has release ordering and the taking side acquire ordering, and a waiter list is never popped by two threads without mutual exclusion.",
 ["schedules"],"all awaitable operations and wake-up paths, any resuming thread",
 "Use-after-free and reordering need another thread to run inside a few instructions' window and often another CPU architecture.",
 [H+"detail/awaiter_list.hpp","src/mutex.cpp","src/event.cpp",H+"semaphore.hpp",H+"shared_mutex.hpp",H+"ring_buffer.hpp",H+"queue.hpp",H+"condition_variable.hpp","src/condition_variable.cpp",H+"when_all.hpp",H+"task.hpp","src/thread_pool.cpp","src/scheduler.cpp",H+"detail/task_self_deleting.hpp","src/detail/task_self_deleting.cpp"],
 [("publish last in await_suspend","all await_suspend functions"),("read next before resume","all waiter walks"),("release/acquire orders",H+"detail/awaiter_list.hpp")],(),["memory accesses after publication/resumption","memory orders"])
prop("C25","Refused or failed hand-offs are noticed, never silently dropped",
 "When an executor, a kernel registration, a waiter hand-off or a system call can refuse, the caller inspects the refusal and then resumes, reports or frees; no coroutine, element or error is lost because a result was ignored.",
 ["fault_sequences"],"all call sites of operations that can refuse or fail",
 "Tests never make an executor or a registration refuse in the middle of an operation.",
 ["src/scheduler.cpp",H+"scheduler.hpp","src/thread_pool.cpp",H+"thread_pool.hpp",H+"task_group.hpp","src/detail/io_notifier_epoll.cpp",H+"net/tls/client.hpp",H+"net/tcp/client.hpp",H+"event.hpp",H+"shared_mutex.hpp"],
 [("checked results","call sites of resume, watch, spawn, send/recv, SSL_*")],(),["results of refusing operations"])
prop("C26","Fairness and latency of wake-ups",
 "Waiters of the same kind are served within bounded time and without starvation, timers fire within a small bound of their deadline, and yielding lets other ready work run.",
 ["schedules","histories"],"all loads and schedules","Tests measure a few wall-clock intervals.",
 ["src/scheduler.cpp","src/thread_pool.cpp"],[("event loop","src/scheduler.cpp")])
prop("C27","Numeric and protocol correctness of addresses and answers",
 "An address parsed from text and printed again denotes the same address, socket addresses convert without loss, and a lookup returns the addresses the name servers gave.",
 ["inputs"],"all address texts, address families, ports and DNS answers","Tests convert a handful of addresses.",
 [H+"net/ip_address.hpp",H+"net/socket_address.hpp","src/net/ip_address.cpp"],[("inet_pton/inet_ntop conversions",H+"net/ip_address.hpp")])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in P))
for p in P: assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))
