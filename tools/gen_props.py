#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
HP = "high_performance/modules/high_performance/include/klepsydra/high_performance/"
D = HP + "disruptor4cpp/"
CO = "core/modules/core/include/klepsydra/core/"
COS = "core/modules/core/src/"
MM = "core/modules/mem_mdlw/include/klepsydra/mem_core/"
MMS = "core/modules/mem_mdlw/src/"
SO = "core/modules/socket_mdlw/include/klepsydra/socket_core/"
SOS = "core/modules/socket_mdlw/src/"
SM = "state_machine/modules/state_machine/include/klepsydra/state_machine/"
SMS = "state_machine/modules/state_machine/src/"
SE = "serialization/modules/serialization/include/klepsydra/serialization/"
ZM = "core/modules/zmq_mdlw/include/klepsydra/zmq_core/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Ring buffer claims are unique, contiguous and fail only when full",
  "For any number of producer threads, every successful slot claim (blocking or non-blocking, one slot or a batch) returns a range of sequence numbers that begins directly after the previously claimed one, so no sequence number is handed out twice or skipped. A non-blocking claim fails, without side effect, exactly when fewer free slots than requested exist, and asking for less than one slot is rejected as an invalid argument.",
  ["schedules", "inputs"], "all interleavings of producers and consumers, all mixes of next/try_next with batch sizes, single- and multi-producer rings, any point of the sequence number line",
  "The existing tests claim from one thread with a handful of sizes near sequence zero; uniqueness is a statement over all interleavings of several producers and over the whole sequence range.",
  [D+"multi_producer_sequencer.h", D+"single_producer_sequencer.h", D+"ring_buffer.h"],
  [("compare-and-set claim loop", D+"multi_producer_sequencer.h: next, try_next"), ("private next value", D+"single_producer_sequencer.h: next, try_next")],
  ["return values and exceptions of next/try_next"], [("cursor", "highest claimed sequence (multi) / highest published (single)", D+"multi_producer_sequencer.h")])
p("C02", "A producer never overwrites an event a consumer has not released",
  "A claim never covers a slot whose previous event has not yet been released by every registered gating consumer, at whatever sequence number the ring has reached during its lifetime (including past 2^31). A producer that waits for room gets it as soon as enough slots are released, and never waits while enough room exists.",
  ["schedules", "histories"], "all interleavings of producers with one or more gating consumers, buffer sizes, batch sizes and starting points of the sequence numbers",
  "Tests fill a small ring once near sequence zero; wrap-around under concurrent consumers and sequence numbers beyond 32 bits are never reached.",
  [D+"multi_producer_sequencer.h", D+"single_producer_sequencer.h", D+"utils/util.h"],
  [("wrap point compared with minimum gating sequence", D+"multi_producer_sequencer.h: next, has_available_capacity"), ("gating cache", D+"single_producer_sequencer.h: next")],
  ["claim return values versus consumer sequences", "event contents while a consumer handles them"])
p("C03", "Every consumer processes every published event once, in order, intact",
  "Each event processor attached to a ring hands to its handler every published event exactly once, in sequence order, with the contents the producer wrote before publishing it, and never an event that is not yet published, whatever the order in which concurrent producers publish. The end-of-batch flag is set exactly on the last event of each contiguous run the processor has found available, after which its sequence is advanced to that event.",
  ["schedules"], "all interleavings of up to three producers and several consumers, out-of-order publication, all wait strategies, both producer types",
  "The streaming and multi-producer tests run one wall-clock schedule each and compare counts.",
  [D+"batch_event_processor.h", D+"multi_producer_sequencer.h", D+"single_producer_sequencer.h", D+"sequence_barrier.h", D+"ring_buffer.h"],
  [("availability flags", D+"multi_producer_sequencer.h: publish, get_highest_published_sequence"), ("batch loop", D+"batch_event_processor.h: run"), ("release/acquire on sequences", D+"sequence.h")],
  ["handler invocations (sequence, content, end-of-batch)", "processor sequence"])
p("C04", "Waiting on a barrier returns when, and only when, it should",
  "Waiting for a sequence never reports more than what is published and released by all sequences the barrier tracks, contiguously, and at least what was so when the wait began, and it does not return below the requested sequence unless a concurrent producer has claimed but not yet published a slot before it; it ends with the alert error if the barrier is alerted (until the alert is cleared), and with the timeout error only for the timeout strategy after its period. With every wait strategy a waiter whose condition has become true, or that is alerted, always wakes up: no wake-up is lost.",
  ["schedules", "configurations"], "all interleavings of waiters with publication, upstream progress and alerts, for each of the wait strategies",
  "Lost wake-ups and premature returns depend on an interleaving between testing the condition and going to sleep; the tests start a thread and sleep.",
  [D+"sequence_barrier.h"] + [D+"wait_strategies/%s_wait_strategy.h" % x for x in ("blocking", "lite_blocking", "timeout_blocking", "busy_spin", "yielding", "sleeping", "phased_backoff")],
  [("condition re-test under the mutex, notify_all", D+"wait_strategies/blocking_wait_strategy.h"), ("signal-needed flag", D+"wait_strategies/lite_blocking_wait_strategy.h"), ("alert flag", D+"sequence_barrier.h")],
  ["return value or exception of wait_for"])
p("C05", "A dependent consumer runs strictly after the consumers it depends on",
  "A consumer whose barrier tracks other consumers handles an event only after each of those consumers has finished handling it, still sees every event exactly once in order, and sees the modifications they made to it. Groups of sequences always report the minimum of their members.",
  ["schedules", "configurations"], "all interleavings over chains and diamonds of consumers",
  "No test runs a consumer topology concurrently.",
  [D+"sequence_barrier.h", D+"fixed_sequence_group.h", D+"utils/util.h", D+"batch_event_processor.h"],
  [("dependent sequence group", D+"sequence_barrier.h: constructor"), ("minimum over sequences", D+"utils/util.h: get_minimum_sequence")],
  ["order of handler invocations of different processors"])
p("C06", "Event processors start, stop and restart cleanly",
  "Halting a processor makes its run return whatever it is doing at that moment (including starting up), after it has called the start hook once and the shutdown hook once; a second concurrent run is refused with an error. A handler error is reported once for the event that caused it, does not stop the processor and does not cause any event to be skipped or repeated, and a processor run again continues with the first event it has not handled.",
  ["schedules", "histories"], "all interleavings of halt with run, waiting and handling; all positions of throwing handlers; halt/run histories",
  "Tests halt a processor that is quietly waiting; the race of halt with startup and restart histories are not reached.",
  [D+"batch_event_processor.h", D+"sequence_barrier.h", D+"event_handler.h"],
  [("running flag and alert", D+"batch_event_processor.h: run, halt"), ("exception handling advances the sequence", D+"batch_event_processor.h: run")],
  ["run returning or throwing", "lifecycle hooks and handler invocations"])
p("C07", "Ring buffer queries report the true state",
  "At rest, remaining capacity equals buffer size minus claimed-but-unreleased slots, a sequence is reported available exactly if it has been published (and, with several producers, not since overwritten), the highest published sequence within a range is the last before the first gap, capacity checks agree with what a claim would do, and the minimum sequence is the minimum over the registered consumers (which can be added, starting at the current cursor when everything claimed is published, and removed). Sequences behave as atomic counters, and none of these queries changes any observable behaviour.",
  ["histories", "inputs"], "all histories of claim, out-of-order publish, release, consumer registration and removal, and queries, at any point of the sequence number line",
  "Tests query after one or two operations near sequence zero.",
  [D+"multi_producer_sequencer.h", D+"single_producer_sequencer.h", D+"ring_buffer.h", D+"utils/util.h"],
  [("availability flag per slot and round", D+"multi_producer_sequencer.h: calculate_availability_flag, is_available"), ("remaining capacity", D+"single_producer_sequencer.h: remaining_capacity")],
  ["return values of the query functions"])
p("C08", "The lock-free stack never loses, duplicates or invents an element",
  "Whatever threads push and pop concurrently (fewer than 2^16 operations overlapping any one of them), an element is at any time either in the stack or held by exactly one popper: a pop returns a pushed element that nobody else holds, a pop comes back empty-handed only if the stack was empty, and a push is refused only if elements and operations in flight reached the capacity (1 to 65534), at some moment of the call. After all threads finish the stack holds exactly the elements not held by anyone, in last-in first-out order for sequential use.",
  ["schedules"], "all interleavings of push and pop, including the ABA pattern of pop, push and pop of the same element",
  "The tests push and pop from threads under one wall-clock schedule; losing or duplicating an element needs a preemption inside a compare-and-swap loop.",
  [CO+"lock_free_stack.h"], [("tagged head pointer compare-and-swap", CO+"lock_free_stack.h: push, pop")],
  ["return values of push/pop"])
p("C09", "Pooled objects have exactly one owner and always find their way back",
  "An object acquired from the pool belongs to no other live handle and keeps its contents while held, and on release of its handle, by any thread, becomes available again exactly once; the pool constructs its objects once, initializing each at that point, and an acquisition fails with an error (and is counted) exactly if no object is free. Objects idle when the pool is destroyed are finalized and destroyed, and handles released after (or while) that happens destroy their object exactly once.",
  ["schedules", "histories"], "all interleavings of acquire and release from several threads, any acquire/release history, pool destroyed before its handles",
  "Tests acquire and release from one thread or without checking that two live handles differ at every moment.",
  [CO+"smart_object_pool.h", CO+"lock_free_stack.h"],
  [("custom deleter with weak reference to the pool", CO+"smart_object_pool.h"), ("lock-free free list", CO+"lock_free_stack.h")],
  ["object identity, construction/destruction and initializer/finalizer calls"])
p("C10", "The bounded queue is a linearizable FIFO that respects its capacity",
  "For any number of producers and consumers each successfully inserted element is removed exactly once and in insertion order, no insertion makes the queue hold more elements than its capacity, a non-blocking insert or remove fails exactly if the queue is full or empty, and a forced insert always succeeds, discarding precisely the oldest elements needed to make room and reporting how many. Copy, move, swap and clear transfer or drop precisely the queued elements, and copies and moves keep the capacity.",
  ["schedules", "histories"], "all interleavings of all queue operations from several threads, capacities 1..n",
  "The queue has no test of its own; the middleware tests use one producer and one poller.",
  [MM+"safe_queue.h"], [("mutex held over check and update", MM+"safe_queue.h"), ("forced push pops the front", MM+"safe_queue.h: force_move_push")],
  ["return values of the queue operations", "size/is_empty"])
p("C11", "Blocking queue operations wake up when they can proceed",
  "A blocked insert proceeds once there is room and a blocked remove proceeds once there is an element, for any number of waiting threads: no wake-up is lost. A timed remove returns an element if one is there before the time is over and otherwise reports a timeout, and no remove ever returns anything that was not inserted, even if another consumer takes the element first or the thread is woken for no reason.",
  ["schedules", "fault_sequences"], "all interleavings of waiting, notifying and stealing threads, spurious wake-ups and timeouts",
  "A lost or stolen wake-up needs a particular interleaving, a spurious wake-up cannot be provoked by a test.",
  [MM+"safe_queue.h"], [("condition variables for not-empty and not-full", MM+"safe_queue.h: push, wait_pop, timeout_pop")],
  ["completion and return values of the blocking operations"])
p("C12", "In-memory middleware delivers each event once, in publication order",
  "Every event published to a queue-based in-memory channel (with listeners that do not throw) is delivered exactly once, unchanged and in publication order (per publisher) to the listeners registered at delivery time, unless it was discarded by the channel's policy. With discarding off nothing is lost and the publisher waits instead; with discarding on precisely the oldest queued events are dropped one by one until the new one fits and the publisher's discarded-items statistic counts each of them (the lock-free variant, with one publishing thread, has capacity in whole blocks, at least what was asked for, and may drop up to a block of 32).",
  ["schedules", "configurations"], "all interleavings of publishers and the poller, queue sizes, both discard policies, mutex-based and lock-free queues",
  "The middleware tests are not part of the reliable suite, use sleeps and run one schedule.",
  [MM+"basic_publisher.h", MM+"safe_queue_poller.h", MM+"concurrent_queue_publisher.h", MM+"concurrent_queue_poller.h", MM+"in_memory_queue_poller.h", MM+"basic_middleware_provider.h", MM+"concurrent_middleware_provider.h", MM+"in_memory_middleware_provider.h"],
  [("bounded queue with force push", MM+"basic_publisher.h"), ("retry/discard loop", MM+"concurrent_queue_publisher.h"), ("poll loop", MMS+"in_memory_queue_poller.cpp")],
  ["listener invocations", "publication statistics"])
p("C13", "Pollers start, stop and restart without losing or duplicating work",
  "Starting a poller (by its one controlling thread) makes it deliver until it is stopped; stopping waits until no delivery is in progress and none happens afterwards; start and stop can be repeated, in any order and also redundantly, and always return, the running flag telling the truth. Events published while stopped stay queued and are delivered after the next start, and destroying a poller or its provider ends its thread.",
  ["schedules", "histories"], "all start/stop/publish/destroy histories and their interleavings with the poller thread",
  "Tests start and stop once around a sleep.",
  [MM+"in_memory_queue_poller.h", MMS+"in_memory_queue_poller.cpp", MM+"safe_queue_poller.h", MM+"concurrent_queue_poller.h"],
  [("running and started flags, thread future", MMS+"in_memory_queue_poller.cpp: start, stop, loop")],
  ["returning of start/stop", "deliveries after stop", "running flag"])
p("C14", "The event loop serves every subscriber every event once, in order",
  "An event accepted by a publisher of a running event loop is delivered exactly once to each listener registered for it (listeners change while the loop is at rest), in the order in which the loop accepted it (and so in each publisher's order), unchanged by later publications and one at a time over all publishers and subscribers of that loop. Listeners of one subscriber name never receive the events of another.",
  ["schedules"], "all interleavings of publishers on one loop with its processing thread, several event types and subscribers",
  "Event-loop tests need the SDK, are not part of the reliable suite and run one wall-clock schedule.",
  [HP+"event_loop.h", HP+"event_loop_publisher.h", HP+"event_loop_subscriber.h", HP+"event_loop_event_handler.h", HP+"event_loop_middleware_provider.h", HP+"event_loop_function_exec_listener.h"],
  [("one ring buffer, one processor", HP+"event_loop.h"), ("dispatch by name", HP+"event_loop_event_handler.h")],
  ["listener invocations"])
p("C15", "Publishing to a full event loop is accounted for, never silent",
  "When the event loop's ring is full, publishing neither blocks nor overwrites anything: it drops precisely that event, counting it once as discarded for its publisher, and a dropped event is never delivered to anybody. Every published event, also one published before the first start or while the loop is stopped, is in the end either delivered or counted as discarded and never both, and as long as there is room nothing is discarded.",
  ["schedules", "configurations"], "all interleavings of publishers with a slow or stopped consumer, ring sizes, retry settings",
  "Tests never compare the discarded count with what actually arrived.",
  [HP+"event_loop_publisher.h", HP+"data_multiplexer_publisher.h", HP+"event_loop.h"],
  [("try_next and insufficient capacity handling", HP+"event_loop_publisher.h: internalPublish")],
  ["publication statistics", "listener invocations"])
p("C16", "The event loop can be started and stopped at any time",
  "Start (by the one controlling thread) returns with the loop running, stop returns with its thread ended and no listener running or called afterwards, both may be repeated in any order, and destroying the loop or its provider ends the thread. Events published while the loop is stopped are kept as far as the ring has room and, like those published after a restart, delivered exactly once.",
  ["schedules", "histories"], "all start/stop/publish histories and their interleavings with the loop thread",
  "Tests start and stop once around sleeps.",
  [HP+"event_loop.h", HP+"event_loop_middleware_provider.h", D+"batch_event_processor.h"],
  [("processor run in a thread, halt and join", HP+"event_loop.h: start, stop")],
  ["returning of start/stop", "listener invocations"])
p("C17", "The data multiplexer gives each listener the newest data, intact, in order",
  "Each listener of a data multiplexer (fed by one publishing thread) sees a strictly increasing subsequence of the published events, each with exactly the contents published and unchanged while the listener looks at it; a slow listener may skip events but always ends with the newest accepted one, and other listeners do not lose events because of it. When the ring is full because a listener has not released its slots, a publication is refused and counted once as discarded, and otherwise it is accepted. Removing a listener (while no publication is in progress) ends its deliveries.",
  ["schedules", "configurations"], "all interleavings of publishers and listeners of different speed, ring sizes, copying and shared-pointer publication",
  "Multiplexer tests need the SDK, are not part of the reliable suite and only compare the last value after a sleep.",
  [HP+"data_multiplexer_publisher.h", HP+"data_multiplexer_event_handler.h", HP+"data_multiplexer_listener.h", HP+"data_multiplexer_subscriber.h", HP+"data_multiplexer_middleware_provider.h", HP+"data_multiplexer_event_data.h"],
  [("end-of-batch delivery", HP+"data_multiplexer_event_handler.h: on_event"), ("one processor per listener, gating", HP+"data_multiplexer_subscriber.h")],
  ["listener invocations", "subscription statistics"])
p("C18", "Emitters call exactly the registered listeners, in registration order",
  "Emitting an event calls every listener registered for that event at that moment exactly once, in registration order and with that event, and nobody else: a removed listener is never called again, removing one listener leaves the others alone, unknown ids or names are harmless or reported, and listeners of other events are unaffected. The unsafe multi-listener kind refuses a second listener under a name, the single-listener kind any second listener. Listener counts and statistics objects exist exactly for the listeners registered, and a one-shot listener is called for the first event only.",
  ["histories"], "all histories of register, register-once, remove, remove-all and emit over several event and listener names, for each emitter kind",
  "Tests use fixed short sequences; wrong behaviour shows after particular removal orders or with mixed names.",
  [CO+"safe_event_emitter.h", CO+"unsafe_multi_listener_event_emitter.h", CO+"unsafe_single_listener_event_emitter.h", CO+"event_emitter_interface.h", CO+"event_emitter_subscriber.h", CO+"event_emitter_publisher.h", CO+"event_emitter_middleware_provider.h"],
  [("listener lists and ids", CO+"safe_event_emitter.h"), ("name to id map", CO+"event_emitter_subscriber.h")],
  ["listener invocations", "listener statistics queries"])
p("C19", "The thread-safe emitter stays correct under concurrent use",
  "While threads concurrently emit, register and remove listeners on the thread-safe emitter, every listener registered throughout an emission is called exactly once by it, one removed before the emission began or registered after it ended is not called, a one-shot listener is called exactly once overall, and no such use throws or deadlocks, including listeners that themselves register, remove or emit.",
  ["schedules"], "all interleavings of emit, register, register-once and remove from several threads and from within listeners",
  "The emitter tests are single threaded.",
  [CO+"safe_event_emitter.h", CO+"event_emitter_subscriber.h"], [("mutex around the listener map", CO+"safe_event_emitter.h")],
  ["listener invocations", "exceptions from emit"])
p("C20", "Published pooled events are isolated from each other",
  "What a listener receives through a pooled publisher is exactly what was published, also if it keeps the event while more events are published: an event object is reused only after every holder released it, pooled objects are initialized at creation and filled by the cloner or by assignment for each publication by value, and in-place publication runs the initializer, then the callback, and publishes what they wrote. Pool exhaustion allocates and counts an allocation rather than sharing or losing an event, and an exception of the callback or cloner publishes nothing and returns the object to the pool.",
  ["histories", "schedules"], "all histories of publish by value, by pointer and in place, with listeners holding events for arbitrarily long, pool sizes from zero",
  "Tests never hold an event over later publications while checking its contents.",
  [CO+"object_pool_publisher.h", CO+"smart_object_pool.h", CO+"event_forwarder.h"],
  [("acquire from pool, clone, publish shared pointer", CO+"object_pool_publisher.h")],
  ["contents of events held by listeners", "allocation statistics"])
p("C21", "Each reply reaches precisely the callback of its request",
  "A reply invokes the callback of the oldest outstanding request it matches exactly once and no other callback, in whatever order replies arrive; an unmatched or repeated reply is ignored, further requests may be issued from within callbacks, and in the multi-threaded variant this holds for any interleaving without deadlock.",
  ["schedules", "histories"], "all histories of requests and matching, late, repeated and unknown replies, including nested requests, and all interleavings of requesting and replying threads",
  "The single test sends a few requests and replies in order.",
  [CO+"callback_handler.h"], [("list of outstanding requests", CO+"callback_handler.h: requestAsync, onReplyReceived")],
  ["callback invocations", "requests forwarded"])
p("C22", "Scheduled tasks run when asked, until stopped",
  "A one-shot task runs exactly once and not before its delay; a repeating task runs after its delay and then again a period after its previous run began (later ones may follow more closely only in the event-loop scheduler, which hands runs to its loop and may drop what the loop cannot take), until it is stopped, and with the basic scheduler never after stop has returned; an unfired one-shot task that is stopped may or may not run before stop returns. Starting, stopping and restarting tasks under any name in any order by one controlling thread, and destroying the scheduler, always returns and never terminates the process; tasks under different names do not affect each other.",
  ["schedules", "histories"], "all start/stop/restart/destroy histories and their interleavings with task threads under any timing",
  "The scheduler tests use wall-clock sleeps and a fixed sequence and are not part of the reliable suite.",
  [MM+"basic_scheduler.h", MMS+"basic_scheduler.cpp"], [("thread per task, running flag, join on stop", MMS+"basic_scheduler.cpp")],
  ["task invocations", "returning of the scheduler calls"])
p("C23", "The container tracks exactly the attached statistics objects",
  "The container's registry contains exactly the services and the publication, subscription, service and function statistics attached and not since detached (as often as attached): detaching one removes that very object and nothing else, also among objects of equal names, detaching something unknown changes nothing, and starting or stopping reaches all and only the registered statistics. Functions and components register on construction and deregister on destruction, and all of this holds when several threads do it at once.",
  ["histories"], "all histories of attach and detach over several objects, including equal names and repeated attachment",
  "The container tests attach and detach one object of each kind.",
  [CO+"core_container.h", COS+"core_container.cpp"], [("per-kind lists", COS+"core_container.cpp: attach, detach")],
  ["contents of the container's statistics lists"])
p("C24", "State machines take exactly the configured transitions",
  "After any sequence of events a state machine is in the state reached by taking, for each processed event in order, the first transition of its current state whose event matches, and unmatched events leave it unchanged; one update consumes queued events up to and including the first one that makes a transition and tells every observer exactly once the resulting state, updates made by observers being told in order. Reset returns to the initial state and drops queued events, stop keeps them, and nothing is processed before start or after stop.",
  ["histories", "configurations"], "all small state machine configurations (including self loops, unreachable states and shared event names) and all event, start, stop and reset histories",
  "The six tests walk a few fixed paths through fixed machines.",
  [SM+"state_machine_impl.h", SM+"config_state_machine.h", SMS+"state_machine_impl.cpp", SMS+"state_impl.cpp", SMS+"transition_impl.cpp", SMS+"sm_factory_impl.cpp", "state_machine/modules/json_conf/src/json_config_loader.cpp", "state_machine/modules/json_conf/src/kpsr_state_machine.cpp"],
  [("transition lookup", SMS+"state_machine_impl.cpp"), ("factory from configuration", SMS+"sm_factory_impl.cpp")],
  ["current state after each step", "observer notifications"])
p("C25", "State machine listeners run exactly the actions of the entered states",
  "For every state update the listener runs the actions registered for that machine and state exactly as configured and in the order registered: one-time actions at the next entry into the state (then they are gone), entry actions on each entry, and periodic ones on every update while in it. Removing the actions of a machine's state removes every kind and leaves all others untouched, and actions may add or remove actions, which takes effect at the latest from the next update.",
  ["histories"], "all histories of action registration, removal and state updates over several machines and states",
  "Tests register one action per state and walk one path.",
  [SM+"state_machine_listener.h", SMS+"state_machine_listener.cpp"], [("action map per state", SMS+"state_machine_listener.cpp")],
  ["action invocations"])
p("C26", "Sockets deliver exactly the bytes sent, or report an error",
  "Whatever way the operating system splits reads and writes or interrupts them, a message put to a data socket arrives at the peer complete, unduplicated and in order, a receive returns exactly the bytes of the stream up to its end or its size, and no failure is reported as success or success as failure. Interrupted calls are retried (writes also when the system asks to try again), a connection reset or not connected ends the stream for a reader, and every other error surfaces as an exception.",
  ["fault_sequences", "inputs"], "all sequences of short reads, short writes, interruptions, errors and end-of-stream, message sizes around the buffer size",
  "There is no socket test; short transfers and interruptions cannot be provoked by the example programs.",
  [SO+"data_socket.h", SOS+"data_socket.cpp", SO+"connect_socket.h", CO+"non_copying_stream_buffer.h"],
  [("write loop over remaining bytes", SOS+"data_socket.cpp: putMessageData"), ("read loop until full or end", SOS+"data_socket.cpp: getMessageData")],
  ["bytes passed to and from the operating system", "exceptions"])
p("C27", "Every socket descriptor is closed exactly once by its only owner",
  "Each descriptor obtained by a socket object is closed exactly once: when the object is closed or destroyed or construction fails, also when close is interrupted or reports an error, and after a move only by the new owner. Closing succeeds without an error report when the operating system reports success or an interruption, and no operation ever touches a descriptor that is closed or owned by another object.",
  ["histories", "fault_sequences"], "all histories of construct, move, swap, close, accept and destroy with failures injected into any system call",
  "There is no socket test; ownership errors only show as closing somebody else's descriptor.",
  [SO+"base_socket.h", SOS+"base_socket.cpp", SOS+"server_socket.cpp", SOS+"connect_socket.cpp", SO+"server_socket.h", SO+"connect_socket.h"],
  [("move-only ownership", SO+"base_socket.h"), ("close with retry on interruption", SOS+"base_socket.cpp: close")],
  ["system calls made on descriptors", "exceptions"])
p("C28", "Configuration environments return what was stored",
  "A typed property lookup returns the value last stored under that key (and root), or the given default and a false result if there is none, independent of properties of other types, keys and roots; loading into an environment adds what does not conflict, keeps what is there on a conflict and then returns false, an update replaces whole sections present in the document, and exporting and loading an environment reproduces it. Malformed documents, failed lookups and refused updates change nothing; environments read from property files (one type per key) are read-only, and a dynamic property can be overwritten by one of its own type only.",
  ["histories", "inputs"], "all histories of set, get, update, copy, export and load over several types, keys and roots",
  "Tests check individual accessors and one file.",
  [CO+"configuration_environment.h", COS+"configuration_environment.cpp", CO+"configuration_properties.h", CO+"property.h", CO+"prop_file_environment.h", COS+"prop_file_environment.cpp", MM+"mem_env.h", MMS+"mem_env.cpp"],
  [("one map per type", CO+"configuration_properties.h"), ("per root containers", COS+"configuration_environment.cpp")],
  ["return values of the environment accessors"])
p("C29", "Cache listeners hold the latest event and count every event",
  "A cache listener hands out precisely the last event it received (or nothing if there has been none), counts each event once, and its stored copy of an event received by reference is independent of later changes to the original, while an event received as a shared pointer is shared. The multi-threaded listener keeps this under concurrent use, its count and event always belonging together, and the time reported for copying is the time the copies took.",
  ["histories", "schedules"], "all histories of events and accesses, concurrent access by readers",
  "Used only as a helper within tests that check one value.",
  [CO+"cache_listener.h", MM+"in_memory_middleware_provider.h"], [("copy on event", CO+"cache_listener.h: cacheListener...")],
  ["last received event and counters"])
p("C30", "Managed services run between startup and shutdown only",
  "A managed service is started by a start command exactly when it is stopped and stopped by a stop command exactly when it is started, in any command history from any middleware (redundant and idle commands have no effect), commands taking effect in the order the middleware delivers them, and its work runs only while it is started. Each service follows the commands of its own subscriber only (none if it has none), and every service of a subscriber follows them.",
  ["histories"], "all command histories, including repeated and unmatched start and stop commands",
  "Not tested.",
  [CO+"manage_service.h", CO+"sensor.h"], [("command dispatch", CO+"manage_service.h")],
  ["startup, shutdown and runOnce invocations"])
p("C31", "Middleware channels convert and forward every event faithfully",
  "Every event published through a to-middleware channel (by value, by pointer or in place) is forwarded exactly once, in order, as the mapping of that event, and every message received by a from-middleware channel is published exactly once and in order as the event it encodes; mapping there and back yields an equal event for the provided mappers (text without NUL characters and finite numbers in JSON). A message that cannot be converted, or a callback or middleware that throws, raises an exception and publishes nothing, and event forwarders publish each event once.",
  ["inputs", "histories"], "all histories of messages over several channels, events with boundary values for the fixed-size, text and structured mappers",
  "One test maps a single value.",
  [CO+"to_middleware_channel.h", CO+"from_middleware_channel.h", SE+"mapper.h", SE+"void_caster_mapper.h", SE+"json_cereal_mapper.h", SE+"binary_cereal_mapper.h", SE+"identity_mapper.h"],
  [("mapper call then publish", CO+"to_middleware_channel.h"), ("mapper call then publish", CO+"from_middleware_channel.h")],
  ["messages and events observed at both ends"])
p("C32", "ZMQ channels deliver each message to its topic's listener in order",
  "Every event published on a topic of a ZMQ provider (whatever the serialization) is sent once, and a running from-channel gives every well formed message it receives for a registered topic to that topic's publisher exactly once, in the order received and equal to what was sent; messages of other topics, also of ones sharing a prefix, and malformed messages are passed over without effect on the rest. Registering a registered topic changes nothing and an unregistered one can be registered again; after unregistering, stopping or destroying a channel has returned nothing more is delivered, and a restarted channel goes on with what it receives.",
  ["histories", "schedules"], "all histories of publication, malformed messages, registration, start, stop and destruction over several sockets, topics and serializations, with one thread per socket",
  "There is no ZMQ test (the library is not even built in the test set-up).",
  [ZM+"zmq_poller.h", ZM+"from_zmq_middleware_provider.h", ZM+"to_zmq_middleware_provider.h", ZM+"json_zmq_poller.h", ZM+"binary_zmq_poller.h", ZM+"void_caster_zmq_poller.h", ZM+"json_to_zmq_channel.h", ZM+"binary_to_zmq_channel.h", ZM+"void_caster_to_zmq_channel.h"],
  [("dispatch by topic under a lock", ZM+"zmq_poller.h: executeFunction"), ("poller lifecycle", ZM+"zmq_poller.h: start, stop")],
  ["events delivered to the registered publishers"])
p("C33", "ZMQ environments adopt each other's changes",
  "A change made through a ZMQ environment (also loading a file) takes effect locally and reaches every other environment with the same key that is subscribed to its topic, in the order made; once everything sent has been received each holds precisely the last state it received (and its own changes after that). An environment never adopts what it sent itself, what has another key or what is malformed, none of which does any harm, and its accessors may be used while updates arrive.",
  ["histories", "schedules"], "all histories of changes, lookups, file loads and malformed messages over several environments, keys and topics, with one user thread per environment",
  "There is no ZMQ test (the library is not even built in the test set-up).",
  [ZM+"zmq_env.h", "core/modules/zmq_mdlw/src/zmq_env.cpp", ZM+"zmq_environment_data.h"],
  [("publication of changes", "core/modules/zmq_mdlw/src/zmq_env.cpp: publishConfiguration"), ("adoption of changes", "core/modules/zmq_mdlw/src/zmq_env.cpp: poll")],
  ["return values of the environment accessors"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    for fn in x["anchors"]["files"]:
        if not os.path.exists("/repo/" + fn): print("missing", x["id"], fn)
print(len(P))
