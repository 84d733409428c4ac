fixed("C11", "blocking pushes treat a limit of 0", "a blocking push into a queue created with limit 0 (documented as no limit) blocked for ever")
fixed("C11", "timed pops re-test", "a timed pop gave up after a spurious or stolen wake-up although its time had not passed, or popped from an empty queue")
fixed("C10", "copies and moves keep the limit", "copying or moving a limited queue lost its limit, so the copy grew beyond it")
fixed("C11", "set_max_num_items wakes producers", "raising the limit did not wake producers blocked on the old one, and wrote it without the lock")
fixed("C11", "swap and assignment take both locks", "two threads swapping or assigning the same two queues in opposite order deadlocked")
fixed("C01", "capacity check no longer truncates", "try_next / has_available_capacity granted claims without room once the sequence passed 2^31")
fixed("C03", "makes the event visible before its availability flag", "the availability flags were plain ints: with several producers a consumer could see the flag before the event")
fixed("C06", 'fix: a batch event processor refuses a second run until a halted one has returned', "run() called between halt() and the end of the halted run was accepted: two threads handled the same events")
fixed("C06", "a halt during the start of a batch event processor", "halt() right after is_running() became true could be wiped out by clear_alert(): run() never returned")
fixed("C04", "lite blocking wait strategy does not lose a signal", "store-buffer race between announcing a waiter and testing the cursor: the waiter slept over a published event")
fixed("C06", "halting a no-op event processor ends its run", "no_op_event_processor::halt() did not alert its barrier: run() never returned")
fixed("C09", "objects released while their pool is destroyed", "an object released while its pool was being destroyed was pushed into a deleted stack (crash or leak)")
fixed("C13", "pollers end before what they use is destroyed", "destroying a running middleware provider or poller let its thread call a destroyed object (pure virtual call, use of the destroyed queue)")
fixed("C19", "one-shot listeners of the safe", "two concurrent or nested emissions both called a one-shot listener before it was removed")
fixed("C19", "safe event emitter locks", "the safe emitter read its listeners without the lock in emit, count and discard operations, and detached missing statistics (null dereference)")
fixed("C18", "unsafe multi listener emitter keeps", "the unsafe multi listener emitter lost or mixed up the statistics of its listeners when one was removed")
fixed("C18", "asking for the statistics of an unknown", "getSubscriptionStats of an unknown listener registered its name, so a later registration under that name was refused")
fixed("C18", "a listener refused by the single", "the single listener emitter gave a refused listener the id of the registered one, so removing it removed the other")
fixed("C16", "an event loop gates its ring", "events published before the start of an event loop or while it was stopped were lost or overwritten, and each restart registered its sequence again")
fixed("C16", "an event loop provider stops its loop", "destroying a running event loop provider let its thread call destroyed subscribers")
fixed("C15", "concurrent publications to a full event loop", "the discarded events of concurrent publishers were counted with a plain counter, which lost counts")
fixed("C17", "the slots of a data multiplexer created from a model", "all slots of a data multiplexer created from a model event shared one event, which a cloning publisher overwrote while it was being read")
fixed("C21", "callbacks of a callback handler", "a callback which made a request or received a reply itself invalidated the iterator in use, or dead-locked on the lock of the multi-threaded handler")
fixed("C22", "scheduled tasks end when", "starting a task again under its name, or destroying a scheduler with a task, terminated the program (joinable thread destroyed)")
fixed("C23", "the container detaches precisely", "detaching one publication statistics detached all, other objects were detached by name (so possibly another one of that name), and service statistics could not be detached at all")
fixed("C23", "the container starts, stops and changes", "starting, stopping and detaching read the lists of the container without their locks, and attaching a service changed the service statistics under another lock")
fixed("C24", "resetting a state machine drops", "events queued before a reset were processed after it")
fixed("C24", "observers of a state machine may update it", "an observer which updated the machine made the remaining observers miss a state and see another one twice")
fixed("C25", "removing the actions of a state machine listener", "removeActions kept the entry and one-time actions, which went on running")
fixed("C25", "actions of a state machine listener may", "an action which added or removed actions invalidated the iteration running it")
fixed("C27", "closing a socket reports success", "close() treated success as a failure (it threw by a stale errno, and closed the descriptor again when destroyed or interrupted) and failures as success")
fixed("C26", "data can be received from a socket with descriptor 0", "receiving from a socket whose descriptor is 0 was refused")
fixed("C28", "a conflict while loading a configuration", "a conflict of one property while loading a configuration made the properties of the following types being skipped")
fixed("C28", "a configuration with values of the wrong type", "a configuration with a value of the wrong type threw or was taken over in part")
fixed("C28", "environments keep the roots of properties apart", "the memory and property file environments ignored the root of properties, or reported missing ones as found")
fixed("C28", "text properties of several words", "only the first word of a text property was read from property files")
fixed("C28", "dynamic configuration properties can be overwritten", "a dynamic property kept its first value for ever")
fixed("C31", "the void caster and the identity mapper", "the two mappers shared an include guard, so including both silently dropped one")
fixed("C31", "the void caster mapper refuses", "a message shorter than the event made the void caster mapper read beyond it")
fixed("C32", "a topic can be registered again", "a topic unregistered from a ZMQ channel could never be registered again")
fixed("C32", "ZMQ pollers end before", "destroying a running ZMQ channel or poller let its thread call a destroyed object")
fixed("C32", "a message which cannot be processed", "a malformed message, or a listener that threw, ended the thread of a ZMQ poller (or the process), so that nothing more was delivered")
fixed("C33", "a ZMQ environment publishes what it loaded", "what a ZMQ environment loaded from a file with one conflict was not published")
fixed("C33", "malformed data received by a ZMQ environment", "malformed data received by a ZMQ environment terminated the process")
fixed("C33", "ZMQ environments created in the same", "environments created in the same millisecond took each other's changes for their own and ignored them")
fixed("C33", "a ZMQ environment is not used while", "a ZMQ environment was read and written by its user while its poller updated it, without any lock")
fixed("C06", "a no-op event processor refuses a second run", "run() of a no-op processor called between halt() and the end of the halted run was accepted: two threads moved the same sequence")
