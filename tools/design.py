import json
P=[
# id, what/oracle, bounds
('C01','ids: registerSubstate / registerSubstateEntryPoint with arbitrary 16-bit ids; oracle = own list of accepted (parent, child) pairs; a call must be accepted exactly if it keeps a forest; behaviour: the resulting machine enters/leaves along the accepted tree only','3 calls, arbitrary ids (thorough 4)'),
('C02','structural invariant (every active composite has exactly one active child per region, children of inactive states are inactive, no duplicates, children after parents) on the active list after every event; structure of the machine chosen by the solver','2 events on solver-chosen structures; 3-6 events on the combined machines'),
('C03','reference order exit (innermost first) → transition → entering → state-changed, arguments unchanged; compared with a reference interpreter','depth 1-3 of source and target, owner level free, 0-3 symbolic 64-bit args; combined machines 4-7 events'),
('C04','entry/exit counters per state: alternate, and agree with isStateActive after every event, under arbitrary refusals','3 machines x 3-4 events; combined machines 3-6 events, every refusing state'),
('C05','one state (solver-chosen) refuses its exit: nothing stays left, the states already exited are re-entered parents first, active set unchanged, event reported failed','solver-chosen refusing state, 1-5 events'),
('C06','as C05 for a refused entering callback: exited states re-entered, target not entered','solver-chosen refusing state, 1-5 events'),
('C07','transition taken iff condition result == expected value; conditions evaluated with the event\'s args; entry point conditions too; parents asked only if the child has no matching transition','symbolic condition results, expected values, a 64-bit argument'),
('C08','innermost-first rule compared with the reference for three levels (and a second region)','3 levels, conditions symbolic, one optional preceding cancelled event'),
('C09','entry points of the target (unconditional, onEvent, conditional, several) - set of activated children equals the reference\'s, recursively; each entered once','3 scenarios, nested 3 levels, conditions symbolic'),
('C10','history restored = states active when the parent was last left (shallow: direct children, deep: all), default target on first use with its callback exactly once; reference keeps its own record','every sequence of 4-7 events over machines with shallow and deep history of nested parents'),
('C11','final state raises its event once when all regions of the parent are final, before later events, with the triggering args','every sequence of 4-7 events; parallel and nested regions, own/own-less events'),
('C12','internal self transition: transition callback only; external one exits and enters once incl. children','self transitions on each of 3 levels, conditions symbolic'),
('C13','each region processes the event at most once; regions not involved stay unchanged','3 regions (one composite), symbolic choice of transitions, 3 events; combined machines'),
('C14','log of processed (id, args) equals the accepted sends in order, synchronous and asynchronous, from outside and callbacks','3 sends + nested (thorough 4)'),
('C15','clear removes exactly the waiting regular events, keeps FORCED/ENTRYPOINT steps in progress and releases waiting callers','4 sends interleaved with rounds'),
('C16','result of transitionSync equals the reference outcome of that very event; time-out only if not processed in time','2-4 events, refusals, regions, history, final states'),
('C17','threads: a synchronous sender always returns - processed, discarded, released or time-out; result correct','2 threads, <=2 preemptions (thorough 3)'),
('C18','isTransitionPossible(e,args) == outcome predicted by the reference and by actually dispatching; no callbacks except conditions, no state change','symbolic event, args, conditions; no pending events'),
('C19','failed callback exactly once per failed event with its id, args and the active states; never for accepted ones','2-4 events, every refusal'),
('C20','initialize: initial state and matching entry points entered once, failures (each dispatcher registration refused) leave an uninitialized machine; double initialization refused','all registration failures symbolic, 2 attempts, events sent before and from the initial callback'),
('C21','callbacks that send, expire timers, re-enter dispatching, enqueue actions, send synchronously: never nested; queued effects follow in order','2 events, 1 act per callback (thorough 2), queueing and inline dispatcher'),
('C22','state actions (start/stop/restart timer, transition with 0-2 args) exactly on accepted entry/exit; argument validation of registerStateAction','2-3 events, refusals symbolic'),
('C23','timer expiry sends the registered event (or none) to its own machine; nothing after stop/release/destroy','4 operations over 2 machines, 2 timers'),
('C24','interrupt-safe events: accepted iff room, delivered in order, once, to the right machine; plus race detection by vector clocks on the storage','5 operations, storage of 2; 3 threads <=3 preemptions'),
('C25','handler ids unique across kinds and never reused; unregistered handlers not called again (also from inside handlers)','3 operations; 2 threads <=2 preemptions'),
('C26','every emitted event calls its handler once in order; declining, stop, events emitted by handlers','3 events, 3 handlers'),
('C27','actions once, in order, before the events that were pending; nested actions in the next round','4 operations'),
('C28','model of timer table: isRunning, native start/stop calls, handler called iff running, intervals','4 operations, symbolic ids and intervals'),
('C29','everything accepted is processed without further wake-ups (quiescence of all threads then compare)','2 operations racing with dispatch thread, <=2 preemptions'),
('C30','stop/join/destroy from outside, from handlers, actions, timers: all threads end, no self join, no use after free','<=1-2 preemptions incl. after unlock'),
('C31','expiry only at or after due time, at most once per period, never after stop returned; never lost; next-due semantics loose','4 operations, 2 timers, 2/5 ms and long intervals up to 2^32-1, <=1 preemption'),
('C32','polling dispatcher: timer fires exactly in the first poll at/after due time over the whole 32-bit millis range','4 operations, symbolic clock readings and intervals'),
('C33','GLib host model (contexts, sources, pipe with EINTR/EAGAIN and failures): delivery and timer contract, leaks, use after destroy, restart','4 operations; faults; threads <=2 preemptions'),
('C34','the same contract with host models of glibmm, Qt and FreeRTOS (tasks, timer daemon task, notifications, ISR variants)','2-4 operations; threads <=2 preemptions'),
('C35','release/destroy of a machine anywhere (outside, action, other thread, dispatcher first): no later callback, no freed access, other machine complete','4 operations; threads <=2 preemptions'),
('C36','N senders and dispatcher thread: each event processed once, per-sender order, no data race (vector clocks over the machine and dispatcher)','2 senders x 2 events <=1 preemption, x1 <=2'),
('C37','no schedule blocks forever: every lock wait and join must end (deadlock detector), machine still alive afterwards','pairs of 11 operations in 2 threads + dispatcher + timers thread, <=1 preemption'),
('C38','store/load identity incl. type for every constructor, make and assignment','all 64-bit values, strings and byte arrays <=3 (6) symbolic bytes'),
('C39','conversions against an independent parser/arithmetics; unsupported types throw/return as documented','all numeric values; strings <=4 (6) symbolic bytes; boundary digits'),
('C40','shadow model of three Variants under copy, move, self-assignment, element assignment, destruction; heap checked','3 operations (4)'),
('C41','six operators against mathematical order, antisymmetry, map lookup','all 64-bit values of all integer types; strings of 2 symbolic bytes'),
('C42','toString of all types; digits checked and parsed back','all 8/16-bit values, windows around powers of 10 and limits for wide ones; 4 symbolic bytes'),
('C43','conversion of std containers to Variant and back: size, order, keys, elements','size <=3, symbolic elements'),
('C44','ownership model of LockGuard/UniqueLock/InterruptsFreeSection; mutual exclusion of threads; signal mask restored','3 operations; 3 threads <=2 preemptions'),
('C45','AtomicFlag and ConditionVariable: waits end iff the change happened / time-out; no missed notification','2-3 threads <=3 preemptions'),
('C46','log file read back as YAML: records equal the observed steps (type, states, event, args, status)','2-3 events; symbolic text of printable ASCII, numbers of all types'),
('C47','generator\'s checks of names, conditions, scripts against an independent oracle','symbolic strings: names <=2 Unicode / 4 ASCII characters'),
('C48','two machines on one dispatcher, each compared with its own reference','3 operations'),
('C49','generated registration calls equal the elements of the description (symbolic structure)','<=8 states'),
('C50','generated PlantUML text read back: states, nesting, arrows, labels, descriptions, highlighting (symbolic structure)','<=8 states'),
]
titles={json.loads(l)['id']:json.loads(l)['title'] for l in open('/verif/properties.jsonl')}
rows=[]
for i,w,b in P:
    e=json.load(open(f'/verif/evidence/{i}.json'))
    rows.append(f"| {i} | {titles[i]} | {w} | {b} | {round(e.get('wall_s',0))} s |")
t=open('/verif/tools/design.tmpl').read().replace('@ROWS@','\n'.join(rows))
import os
seeds=['| planted change | needs | caught by |','|---|---|---|']
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json')); seeds.append(f"| {d} | {m['needs']} | {m['property']} |")
t=t.replace('@SEEDS@','\n'.join(seeds))
open('/verif/DESIGN.md','w').write(t)
