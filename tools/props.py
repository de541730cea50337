#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
H="src/HsmImpl.cpp"; T="src/HsmImplTypes.cpp"; B="src/HsmEventDispatcherBase.cpp"; S="src/HsmEventDispatcherSTD.cpp"; V="src/variant.cpp"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

# ---------------- state machine semantics
p("C01","Substate registration only ever builds a forest",
 "With structure checks enabled, registering a substate or entry point succeeds exactly when the parent and the substate differ, the substate has no parent yet, and the substate is not already an ancestor of the parent; a refused registration changes nothing. Hence no sequence of registrations can give a state two parents or make a state its own ancestor, and every later transition through the structure terminates.",
 ["inputs","histories"],"every sequence of registerState/registerSubstate/registerSubstateEntryPoint calls with arbitrary ids",
 "the tests try three hand-picked recursions; cycles of any length and refused registrations with side effects need arbitrary sequences",
 [H,"src/HsmImpl.hpp","src/hsm.cpp"],[("registerSubstate",H),("hasParentState",H)],["return value","active states after entering the structure"])
p("C02","The active configuration is always well formed",
 "Whenever the machine is idle after a dispatched event, the list of active states contains no duplicates, every ancestor of an active state is active too, an active state with substates that offer a matching unconditional entry point has an active child, and two sibling states are both active only if a transition or entry rule with several targets selected both. At least one state is active at all times after initialization.",
 ["inputs","histories","programs"],"every state structure within the bounds, every event sequence and every guard/veto outcome",
 "tests check the active set at chosen points of a few fixed machines",
 [H],[("replaceActiveState/addActiveState",H),("executeExitTransition",H),("determineTargetState",H)],["getActiveStates","isStateActive","getLastActiveState"])
p("C03","Callbacks of a transition run in the documented order with its arguments",
 "An accepted external transition runs, in this order and each exactly once: the exit callbacks of every active state at or below the source (most recently activated first), the transition callback, the entering callback of the target and the state-changed callback of the target; entry into substates follows with the same protocol for each entered substate. Transition, entering and state-changed callbacks receive exactly the arguments the event was sent with, and callbacks of states that are not involved never run.",
 ["inputs","histories","programs"],"every structure, source depth, target, argument value and event sequence within the bounds",
 "tests use mocks that count calls for a few machines and rarely check the global order",
 [H],[("handleSingleTransition",H),("executeExitTransition",H),("processExternalTransition",H)],["registered callbacks"])
p("C04","Entry and exit of every state strictly alternate and match the active set",
 "For each state, accepted entries and accepted exits alternate starting with an entry: a state is never entered while it is active nor exited while it is inactive, and its state-changed callback runs once after every accepted entry. When the machine is idle a state is reported active exactly when its last accepted entry has not been followed by an accepted exit, whatever transitions were vetoed, rolled back or rejected in between.",
 ["inputs","histories","programs"],"every event sequence and every veto outcome on structures within the bounds (including several transitions on one event)",
 "an imbalance needs vetoes combined with nesting or multi-target transitions, which the tests do not combine",
 [H],[("onStateEntering",H),("onStateExiting",H),("isStateActive",H)],["registered callbacks","isStateActive"])
p("C05","A vetoed exit cancels the transition and restores every state already left",
 "If any exit callback of a transition returns false, the target is not entered, the transition callback does not run, and every state that was active before is active afterwards; states whose exit had already been accepted are entered again (entering and state-changed callbacks) and their veto on re-entry is ignored. The event then counts as failed for the caller, and the history memory is not changed by the cancelled transition.",
 ["inputs","histories","programs"],"every nesting depth, every position of the vetoing state, every later event",
 "the tests veto only at one level of one machine",
 [H],[("executeExitTransition rollback",H)],["registered callbacks","transitionEx result","getActiveStates"])
p("C06","A refused entry returns the machine to the states it came from",
 "If the entering callback of a transition's only target returns false, the target does not become active and its state-changed callback does not run, the states exited by this transition become active again through their entering and state-changed callbacks, and the event counts as failed. No other state is affected.",
 ["inputs","histories","programs"],"every nesting depth of the source, every target and every veto pattern",
 "the tests refuse entry only on flat machines",
 [H],[("processExternalTransition rollback",H)],["registered callbacks","transitionEx result","getActiveStates"])
p("C07","A transition is taken exactly when its guard yields the expected value",
 "A transition whose source state is active and whose event is being dispatched is taken iff it has no condition callback or the callback, given exactly the event's arguments, returns the expected value; all matching transitions of the innermost matching state are taken and no others. When no transition qualifies, no exit, transition, entering or state-changed callback runs and the active states stay the same.",
 ["inputs","histories"],"every combination of guards, expected values, callback results and arguments, with several transitions per (state,event)",
 "tests cover one or two guards with fixed results",
 [H],[("findTransitionTarget",H)],["condition callbacks","registered callbacks"])
p("C08","The innermost active state that accepts an event handles it",
 "Each event is offered to active states from the innermost outwards; once a state accepts it, none of that state's ancestors handles the same event. If inner states have no qualifying transition, the event reaches the outer state's transition, which leaves all of that state's active descendants.",
 ["inputs","histories","programs"],"every nesting and every assignment of transitions/guards to levels within the bounds",
 "tests use two fixed two-level machines",
 [H],[("doTransition",H),("isSubstateOf",H)],["registered callbacks","getActiveStates"])
p("C09","Entering a composite state activates exactly its matching entry points",
 "When a composite state becomes active through a transition, exactly those entry points are entered whose event is unset or equals the triggering event and whose condition (if any) yields the expected value for the event's arguments, recursively down to states without substates, before any other queued event is processed. A transition into a composite state that has no matching entry point is not taken.",
 ["inputs","histories","programs"],"every set of entry points with symbolic events/conditions, nesting up to the bound, several pending events",
 "tests use single entry points with fixed conditions",
 [H],[("getEntryPoints",H),("TransitionBehavior::ENTRYPOINT",H)],["registered callbacks","getActiveStates"])
p("C10","History restores what was active when the parent was last left",
 "A transition to a history state of parent P re-activates P and, for shallow history, the direct child of P that was active when P was last left (its own substates are then entered by entry points); for deep history, all descendants of P that were active then, including parallel ones. If P was never left since, the registered default target is entered (its callback runs once), or P's entry points when there is none; the history state itself does not remain active once the event is processed.",
 ["inputs","histories","programs"],"every sequence of events before the history transition, every structure and history type within the bounds",
 "tests run a handful of fixed sequences on a few machines",
 [H],[("updateHistory",H),("transitionToPreviousActiveStates",H),("transitionToDefaultHistoryState",H)],["getActiveStates","registered callbacks"])
p("C11","Entering a final state raises its event once all regions are final",
 "When a final substate is entered and no non-final descendant of its parent is active, exactly one event is raised and processed before any other queued event: the event registered for the final state, or the triggering event if none is registered, with the triggering event's arguments. While another non-final descendant of that parent is active no such event is raised, and top-level final states raise none.",
 ["inputs","histories","programs"],"every combination of final/non-final siblings, parallel regions and registered events",
 "tests check a few fixed machines",
 [H],[("processFinalStateTransition",H),("hasActiveChildren",H)],["registered callbacks","getActiveStates"])
p("C12","Internal self-transitions only run the transition callback",
 "An internal self-transition whose condition holds runs its transition callback once with the event's arguments and nothing else: no exit, entering or state-changed callback, no change of the active states of the machine or of history. An external self-transition leaves and re-enters the state, including leaving all its active descendants and entering its entry points again.",
 ["inputs","histories"],"every active configuration below the state, mixed internal/external transitions on the same event",
 "tests check leaf states only",
 [H],[("executeSelfTransitions",H),("executeExitTransition",H)],["registered callbacks","getActiveStates"])
p("C13","Parallel regions each process an event exactly once and independently",
 "When several orthogonal states are active, one event is offered to every one of them and each takes its own matching transition exactly once; a region without a match keeps its active states untouched, and a transition that leaves a common ancestor removes all regions. A state shared as target by several regions is entered once.",
 ["inputs","histories","programs"],"every assignment of transitions, guards and vetoes to up to three regions and every event sequence within the bounds",
 "tests check fixed parallel machines with fixed events",
 [H],[("doTransition",H),("onStateEntering duplicate check",H)],["registered callbacks","getActiveStates"])
p("C14","Accepted events are dispatched in order, exactly once, unchanged",
 "Every event accepted by an initialized machine is processed exactly once, in the order the events were accepted (entry, history and final-state follow-ups of the current event come first), and its callbacks observe exactly the argument list it was sent with. Events sent from inside callbacks are queued behind those already pending.",
 ["inputs","histories"],"every sequence of transitions, argument values and callback-originated events within the bounds",
 "tests send short fixed sequences",
 [H,"include/hsmcpp/hsm.hpp","src/hsm.cpp"],[("mPendingEvents",H),("dispatchEvents",H)],["registered callbacks"])
p("C15","Clearing the queue drops pending events but never breaks an ongoing entry",
 "Sending an event with queue clearing discards every regular event still pending (a waiting synchronous sender of a discarded event is released with a failure result) and the new event is processed next. A composite entry, history restoration or similar follow-up that has already begun is completed, so the machine never stays in a composite state whose entry was dropped, and its synchronous sender still gets its result.",
 ["histories","schedules"],"every point of a multi-step entry at which the clearing event is sent, every mix of pending events",
 "tests clear a queue of plain events only",
 [H],[("clearPendingEvents",H)],["transitionEx","getActiveStates"])
p("C16","A synchronous transition returns the outcome of its own event",
 "A synchronous send returns true iff the transition(s) triggered by that event were carried out (including all entry steps), and false when the event was ignored, vetoed, refused, discarded or timed out; when it returns true, all callbacks of the transition have already run. It never reports the outcome of a different event.",
 ["inputs","schedules"],"every outcome of guards and vetoes, every interleaving with the dispatcher and with other senders within the bounds",
 "tests sample a few schedules",
 [H,T],[("PendingEventInfo::wait/unlock",T),("transitionExWithArgsArray",H)],["transitionEx return value"])
p("C17","A synchronous transition never waits for a wake-up that was missed",
 "A thread blocked in a synchronous send without timeout is always released once its event has been processed, discarded, or the machine has been released; with a timeout it always returns. There is no interleaving of sender and dispatcher in which the completion notification is lost.",
 ["schedules"],"all interleavings at synchronisation points and shared accesses of the completion status within the bounds",
 "a lost wake-up needs one particular preemption between two instructions",
 [T,H,"src/os/stl/ConditionVariable.cpp"],[("PendingEventInfo::unlock",T),("ConditionVariable::wait",  "src/os/stl/ConditionVariable.cpp")],["termination of transitionEx"])
p("C18","The possibility query agrees with what dispatching would do and has no effects",
 "With no events pending, asking whether an event is possible returns true iff dispatching that event with the same arguments now would find a qualifying transition from some active state or one of its ancestors (guards and entry points included). With events pending in a machine without composite states it answers for the state that is reached once those events were processed with their own arguments. The query changes neither the active states nor the queue and runs no callbacks other than conditions.",
 ["inputs","histories","programs"],"every structure, configuration, guard outcome and event within the bounds",
 "tests query a few fixed situations",
 [H],[("checkTransitionPossibility",H),("findTransitionTarget",H)],["isTransitionPossible","transitionEx"])
p("C19","Failed events are reported exactly once with their id and arguments",
 "For every processed event for which no transition was carried out because nothing matched, an exit was vetoed or the target refused entry, the failed-transition callback runs exactly once, with the states that were active, the event id and its arguments; for an event that led to a completed or ongoing transition it never runs.",
 ["inputs","histories"],"every outcome of matching, guards and vetoes within the bounds",
 "tests check single failures",
 [H],[("doTransition",H)],["registerFailedTransitionCallback"])
p("C20","Initialization enters the initial state and its entry points exactly once",
 "A successful initialization runs the initial state's entering and state-changed callbacks once and then enters its matching entry points recursively before any event sent later; a second initialization is refused without effect. Initialization fails, leaving the machine uninitialized and without callbacks run, when the dispatcher is missing, cannot start or refuses handlers.",
 ["inputs","fault_sequences","programs"],"every initial structure and every failure of the dispatcher",
 "tests initialize working dispatchers only",
 [H,"src/hsm.cpp"],[("initialize",H),("handleStartup",H)],["initialize return value","registered callbacks"])
p("C21","Events raised inside callbacks never interrupt the transition in progress",
 "Processing is run-to-completion: while one event is processed, callbacks that send further events, start timers or dispatch again never cause a nested transition; the callbacks of one event complete before those of the next begin. An action enqueued by a callback - also one that releases or destroys the machine - never runs inside a callback or between the callbacks of one transition; after a release or destruction no further callback runs.",
 ["histories","schedules"],"every callback position from which an event, nested dispatch or release is issued",
 "tests exercise a few positions",
 [H],[("mIsDispatching",H),("release",H)],["registered callbacks"])
p("C22","State actions fire exactly on accepted entry and exit",
 "Each action registered for a state runs exactly once on every accepted entry (respectively exit) of that state, with the registered arguments, and not when the entry or exit was vetoed; malformed action arguments are refused at registration. Timer actions start, restart or stop exactly the given timer, and a transition action sends exactly the given event with the given arguments.",
 ["inputs","histories"],"every sequence of entries, exits, vetoes and argument lists within the bounds",
 "tests check each action type once",
 [H,"include/hsmcpp/hsm.hpp"],[("executeStateAction",H),("registerStateAction",H)],["dispatcher timer API","registered callbacks"])
p("C23","A timer expiry sends exactly the event registered for that timer",
 "Each expiry of a timer started through a machine delivers exactly one event to that machine: the one registered for the timer id; timers with no registered event deliver nothing. After the machine was released or destroyed its timers are stopped and expiries deliver nothing.",
 ["inputs","histories"],"every timer id, registration order, expiry sequence and release point",
 "tests use one or two timers",
 [H,B],[("dispatchTimerEvent",H),("unregisterTimerHandler",B)],["registered callbacks","isTimerRunning"])
p("C24","Interrupt-safe events are delivered exactly once, in order, up to capacity",
 "An interrupt-safe send returns true iff the event was stored; at most the configured number of undelivered events is stored, and stored events never make the storage grow. Every stored event is delivered exactly once, in the order sent per machine, unless the machine is released or the dispatcher stopped; a machine that was released in between never makes delivery fail.",
 ["inputs","histories","schedules"],"every capacity and interleaving of sends, dispatching and handler removal within the bounds",
 "tests send a couple of events",
 [B,H],[("enqueueEvent",B),("dispatchEnqueuedEvents",B)],["transitionInterruptSafe","registered callbacks"])
# ---------------- dispatcher
p("C25","Handler ids are unique and unregistered handlers are never called again",
 "Every registration of an event, timer or enqueued-event handler returns a new valid id different from all ids handed out before. Once a handler was unregistered it is never invoked for work picked up afterwards, other handlers are unaffected, and unregistering an unknown id has no effect.",
 ["histories"],"every sequence of register/unregister/emit/dispatch operations within the bounds",
 "tests register one or two handlers",
 [B],[("getNextHandlerID",B),("unregisterEventHandler",B)],["handler invocations"])
p("C26","Every emitted event invokes its handler exactly once, in emission order",
 "Between start and stop, each emitted event invokes the handler it names exactly once, in emission order; events emitted during dispatch are processed by a later round. A handler that returns false is not invoked again in that round, other handlers still are, and after stop no further handler is invoked.",
 ["histories"],"every sequence of emit/dispatch/stop with several handlers, return values and re-entrant emits",
 "tests look at single handlers",
 [B],[("dispatchPendingEvents",B),("dispatchPendingEventsImpl",B)],["handler invocations"])
p("C27","Enqueued actions run exactly once, in order, before pending events",
 "Every action handed to a dispatcher runs exactly once on the dispatching side, in the order handed over and before events that are still waiting, even when no event ever follows. Actions enqueued from within an action or handler run in a later round.",
 ["histories","schedules"],"every sequence of enqueueAction/emit/dispatch and every interleaving with an idle dispatcher",
 "tests enqueue actions together with events",
 [B,S],[("enqueueAction",B),("dispatchPendingActions",B),("doDispatching wait predicate",S)],["action invocations"])
p("C28","Timer bookkeeping follows start, restart, stop and expiry exactly",
 "A timer is reported running exactly from a successful start (interval above zero, known handler) until it is stopped, its handler is unregistered, or - for single-shot timers - it expires; starting it again replaces interval, mode and handler. Expiry calls the owning handler once with the timer's id and asks to be re-armed with the configured interval exactly for repeating timers; an expired single-shot timer can be restarted with its settings, and restarting a timer that was never started has no effect.",
 ["inputs","histories"],"every sequence of operations over several timers and handlers with arbitrary ids and intervals",
 "tests run one timer at a time in real time",
 [B],[("startTimer/stopTimer/restartTimer",B),("handleTimerEvent",B)],["handler invocations","isTimerRunning"])
p("C29","The standard dispatcher never loses an event, action or wake-up",
 "For every interleaving of threads that emit events, enqueue interrupt-safe events or actions with the dispatching thread, each of them is eventually processed without needing a further event. The dispatching thread never sleeps while work is pending.",
 ["schedules"],"all interleavings of a dispatcher thread with producers within the preemption bound",
 "a lost wake-up needs one exact preemption",
 [S,B,"src/os/stl/ConditionVariable.cpp"],[("doDispatching",S),("notifyDispatcherAboutEvent",S)],["handler invocations","termination"])
p("C30","Stopping and destroying the standard dispatcher always terminates",
 "From any moment of operation (idle, dispatching, timers running, before or after the first timer), stop followed by join or destruction terminates, without deadlock with handlers or timer callbacks in progress, and no handler runs after destruction.",
 ["schedules"],"all interleavings of stop/join/destroy with dispatcher and timer threads within the preemption bound",
 "shutdown races need exact preemptions",
 [S,B],[("stop",S),("join",S),("handleTimers",S)],["termination"])
p("C31","Standard-dispatcher timers never fire early, twice or after being stopped",
 "A running timer fires only when at least its interval has passed since it was (re)started, a single-shot timer fires once, a repeating timer at most once per interval, and a stopped timer does not fire again unless restarted. A timer that stays running is eventually fired: no interleaving of start/stop/restart with the timer thread loses it.",
 ["inputs","schedules"],"all clock values, timeouts and interleavings within the bounds",
 "tests depend on real time",
 [S,B],[("handleTimers",S),("startTimerImpl/stopTimerImpl",S)],["timer handler invocations"])
p("C32","Polling dispatcher timers fire on time, repeat and survive clock wrap-around",
 "With a dispatcher driven by polling a millisecond counter, a timer started at t with interval i does not fire at any poll before t+i and fires exactly once at the first poll at or after t+i; a repeating timer is re-armed relative to that poll, a single-shot timer is not. This also holds when the 32-bit counter wraps around (as long as the counter did not go all the way round since the timer was started).",
 ["inputs","histories"],"every start time, interval, counter value (including wrap-around) and poll sequence within the bounds",
 "this dispatcher is not built or tested here at all",
 ["src/HsmEventDispatcherArduino.cpp",B],[("dispatchEvents","src/HsmEventDispatcherArduino.cpp")],["timer handler invocations"])
p("C33","The GLib dispatcher delivers all pending work for every pipe wake-up",
 "For every sequence of emit, enqueue, action, timer and stop operations and main-loop callbacks, including failing or short pipe operations, each emitted event is dispatched once after the main loop serves the dispatcher, timers are armed and disarmed to match the timer bookkeeping, and file descriptors and sources are released exactly once.",
 ["histories","fault_sequences"],"every operation sequence and every result of the stubbed system/GLib calls within the bounds",
 "tests run against a working pipe and loop only",
 ["src/HsmEventDispatcherGLib.cpp",B],[("HsmEventDispatcherGLib","src/HsmEventDispatcherGLib.cpp")],["handler invocations","system calls"])
p("C34","GLibmm, Qt and FreeRTOS dispatchers keep the same delivery and timer contract",
 "For every sequence of dispatcher operations and every behaviour of the host framework allowed by its contract, each emitted event is dispatched exactly once after the host serves the dispatcher, timers are armed and disarmed to match the timer bookkeeping, and after stop nothing is dispatched.",
 ["histories","configurations"],"every operation sequence and host callback order within the bounds",
 "tests use the real hosts on a good day; FreeRTOS is not built here",
 ["src/HsmEventDispatcherGLibmm.cpp","src/HsmEventDispatcherQt.cpp","src/HsmEventDispatcherFreeRTOS.cpp",B],[("host adapters","src/HsmEventDispatcherQt.cpp")],["handler invocations"])
p("C35","Releasing or destroying a machine is safe at any time",
 "After a machine was released or destroyed - from the outside, from an enqueued action or another thread while the dispatcher is working (release then waits for the processing in progress), and with events, timers and interrupt-safe events still pending - none of its callbacks runs any more, nothing freed is accessed, a later dispatcher round completes normally, and other machines on the same dispatcher are not affected. Calls on an uninitialized or released machine fail without effect.",
 ["histories","schedules"],"every release point relative to pending work, callbacks and API calls within the bounds",
 "tests release at a few points",
 [H,B,"src/hsm.cpp"],[("release",H),("weak_ptr handlers",H)],["registered callbacks","memory safety"])
p("C36","Concurrent senders lose nothing and duplicate nothing",
 "When several threads send events to one machine whose dispatcher runs in its own thread, every event is processed exactly once, events of one thread keep their order, and no interleaving leads to corrupted state, a data race on the event queue, deadlock or a stuck event.",
 ["schedules"],"all interleavings of two senders and the dispatcher within the preemption bound",
 "tests run random schedules",
 [H,B,S],[("mEventsSync",H),("mIsDispatching",H)],["registered callbacks","termination"])
p("C37","Transitions, timers and callbacks cannot deadlock each other",
 "As long as callbacks do not themselves wait for other threads, no combination of threads sending events, starting or stopping timers, expiring timers, unregistering handlers and stopping the dispatcher can block forever on the library's own locks.",
 ["schedules"],"all interleavings of two to three threads over the dispatcher API within the preemption bound",
 "lock-order inversions need exact preemptions",
 [B,S,H],[("mHandlersSync/mEmitSync/mRunningTimersSync",B)],["termination"])
# ---------------- variant
p("C38","A value stored in a Variant is returned unchanged with its type",
 "For every integer of every supported width, every boolean, finite double, string, byte array and container, constructing or assigning a Variant and reading it back through the matching accessor yields the same value, and exactly the type predicates documented for that type hold. Clearing makes it empty, and reading an empty Variant yields zero, false or empty results.",
 ["inputs"],"all values of all numeric widths; strings, byte arrays and containers up to the stated lengths with arbitrary bytes/elements",
 "tests use one or two sample values per type",
 [V,"include/hsmcpp/variant.hpp"],[("assign/value",  "include/hsmcpp/variant.hpp")],["Variant accessors"])
p("C39","Variant conversions compute the documented value for every input",
 "Numeric accessors on numeric Variants equal the C++ conversion of the stored value; on strings they yield the parsed leading number, and zero (or false) when there is none or it is out of range, without throwing; on unsupported types they yield zero. Boolean conversion is true exactly for non-zero numbers, true, the string \"true\" and numeric non-zero strings; byte-array conversion yields the value's bytes.",
 ["inputs"],"all values of all numeric widths, all strings up to the stated length",
 "tests use one or two sample values per conversion",
 [V],[("toInt64/toUInt64/toDouble/toBool/toByteArray",V)],["Variant accessors"])
p("C40","Copies of a Variant are independent and moves transfer the value",
 "Copying or assigning a Variant of any type gives an equal Variant of the same type that shares no state: modifying, clearing or destroying either one never changes the other, self-assignment keeps the value, and moving leaves the destination with the old value and the source empty. No operation sequence leaks into, double frees or touches freed storage.",
 ["inputs","histories"],"all operation sequences over a few Variants of all types within the bounds",
 "tests copy single values",
 [V,"include/hsmcpp/variant.hpp"],[("operator=",V),("memoryAllocator","include/hsmcpp/variant.hpp")],["Variant accessors","memory safety"])
p("C41","Variant comparison is a consistent order usable for map keys",
 "Equality is reflexive and symmetric; for Variants of comparable types exactly one of less, equal and greater holds, greater is less with the operands exchanged, and less-or-equal and greater-or-equal are its unions with equality; integer comparison agrees with the mathematical order for any mix of widths and signedness, and less-than is a strict weak order over integers, over strings and over booleans, so that maps keyed by values of one of these kinds find every key.",
 ["inputs"],"all pairs/triples of values over all numeric types, strings up to the stated length",
 "tests compare a few equal or obviously ordered values",
 [V,"include/hsmcpp/variant.hpp"],[("operator==/operator>",V)],["comparison operators","VariantMap_t lookup"])
p("C42","Variant text output is exact and parses back",
 "The text of an integer Variant is its exact decimal representation, that of booleans is \"true\" or \"false\", strings and byte arrays are reproduced byte for byte including zero bytes, and containers list their elements in order with the documented separators. Parsing the text of an integer back yields the same integer.",
 ["inputs"],"all values of all integer widths; strings/byte arrays/containers up to the stated lengths",
 "tests print a few constants",
 [V],[("toString",V)],["toString"])
p("C43","Containers stored in a Variant keep size, order, keys and elements",
 "Building a Variant from a vector, list, map or pair and converting it back through an element converter yields the same elements in the same order, with every key mapped to its own value. Accessing it through a different container accessor yields an empty result rather than a reinterpretation.",
 ["inputs"],"containers up to the stated size with arbitrary elements",
 "tests use a few literals",
 ["include/hsmcpp/variant.hpp",V],[("toVector/toList/toMap/toPair","include/hsmcpp/variant.hpp")],["Variant accessors"])
# ---------------- OS layer
p("C44","Scoped locks always release exactly what they own",
 "For every sequence of construct, lock, unlock, move, assign, release and destroy on scoped locks, each mutex is locked at most once at a time per owner and unlocked exactly as often as it was locked, a moved-from lock owns nothing, and a destroyed lock leaves its mutex free. A critical section that blocks interrupts/signals restores the previous state on exit.",
 ["histories"],"all operation sequences over two mutexes and three lock objects within the bounds",
 "tests never use these classes directly",
 ["src/os/common/UniqueLock.cpp","src/os/common/LockGuard.cpp","src/os/common/CriticalSection.cpp","src/os/posix/InterruptsFreeSection.cpp"],[("UniqueLock","src/os/common/UniqueLock.cpp")],["mutex and signal-mask operations"])
p("C45","Flag and condition primitives never miss a change",
 "A thread waiting for an atomic flag to change returns once another thread changed it while holding its lock and notified, whatever the interleaving, and never before it changed; waiting on a condition with a predicate returns only when the predicate holds (or, for timed waits, returns false at timeout with the predicate false), and leaves the lock released as documented by the wrapper. Setting the flag reports the previous value exactly.",
 ["schedules"],"all interleavings of a waiter and a notifier within the preemption bound, including spurious wake-ups and timeouts",
 "needs exact preemptions and spurious wake-ups",
 ["src/os/stl/AtomicFlag.cpp","src/os/stl/ConditionVariable.cpp",T],[("AtomicFlag::wait","src/os/stl/AtomicFlag.cpp")],["return of wait"])
p("C46","The debug log records every step truthfully",
 "With debug logging enabled, each callback, transition and idle step appends exactly one record whose action, states, event, failure status, arguments and active-state list are those of that step, in the order they happened, and logging never changes the machine's behaviour.",
 ["inputs","histories"],"every event sequence and veto outcome on bounded machines",
 "tests do not read the log",
 [H],[("logHsmAction",H)],["log file content"])
p("C47","The code generator rejects invalid names and conditions and keeps valid ones",
 "For every attribute string, the generator accepts exactly C++ identifiers (Latin letters, digits and underscores, not starting with a digit) as names of states, events of transitions and callbacks, parses conditions of the form 'callback', 'callback is true' and 'callback is false' into that callback and value (surrounding spaces and tabs and the case of the value do not matter) and rejects all others, and recognises a script as a state action exactly when it has an action form, splitting its arguments in order.",
 ["inputs"],"all strings up to the stated length",
 "the tests generate from a handful of files",
 ["tools/scxml2gen/scxml2gen.py"],[("validateIdentifier","tools/scxml2gen/scxml2gen.py"),("getCallbackName","tools/scxml2gen/scxml2gen.py")],["generator functions"])
p("C48","Two machines on one dispatcher do not interfere",
 "Machines sharing a dispatcher behave as if each had its own: every event, timer expiry and interrupt-safe event reaches only the machine it was sent to, both make progress whatever the other does (including vetoes, ignored events and release), and each keeps its own event order.",
 ["histories"],"every interleaving of operations on two machines within the bounds",
 "tests use one machine per dispatcher almost everywhere",
 [H,B],[("handler ids",B)],["registered callbacks"])
p("C49","Generated code registers exactly the elements of the state machine description",
 "For every valid SCXML description, the generated class registers each state, final state, substate, entry point (with its event and condition), history state (with type, default target and callback), transition (with target, event, type, callback, guard and expected value), timer and state action exactly once with the described properties, keeps the order of transitions and of actions of a state, resolves names of included documents, declares every callback once with the right signature and every state, event and timer it refers to with unique values, and returns the names of states and events unchanged.",
 ["inputs"],"every description within the stated structure bounds",
 "tests compile a handful of descriptions and compare behaviour of few of them",
 ["tools/scxml2gen/scxml2gen.py","tools/scxml2gen/template.cpp","tools/scxml2gen/template.hpp"],[("parseScxmlStates","tools/scxml2gen/scxml2gen.py"),("generateCppCode","tools/scxml2gen/scxml2gen.py")],["generated .hpp and .cpp text"])
p("C50","The PlantUML diagram shows exactly the elements of the state machine description",
 "For every valid SCXML description, the generated PlantUML diagram declares each state (other than final and history states) exactly once inside its parent, has one entry arrow per entry point (with its event and condition), one arrow per transition with its source, target, event, condition with expected value and callback, draws arrows to final states as arrows to [*] whatever the other states are called, draws history states as [H] or [H*] inside their parent with their incoming arrows and default target, and lists the callbacks and actions of every state without substates under the right heading and in order. Highlighting marks exactly the given transition or entry point and changes nothing else, and the layout direction is the requested one.",
 ["inputs"],"every description within the stated structure bounds",
 "no test looks at a diagram",
 ["tools/scxml2gen/scxml2gen.py"],[("generatePlantumlState","tools/scxml2gen/scxml2gen.py"),("generatePlantumlInMemory","tools/scxml2gen/scxml2gen.py")],["generated PlantUML text"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
