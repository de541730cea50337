I = 'src/HsmImpl.cpp'; B = 'src/HsmEventDispatcherBase.cpp'; S = 'src/HsmEventDispatcherSTD.cpp'; V = 'src/variant.cpp'; T = 'src/HsmImplTypes.cpp'; HH = 'include/hsmcpp/hsm.hpp'; PY = 'tools/scxml2gen/scxml2gen.py'
PRE = '#include "d.hpp"\n'
PRET = PRE + '#include <thread>\n#include <chrono>\n#include <atomic>\n'
BUGS = {
'composite-callback-after-entry': dict(prop='C03', needs='a transition with a callback whose target state has substates and an entering callback',
  breaks='the transition callback runs after the state was already entered',
  edits=[(I, '    if (curTransition.onTransition) {\n        curTransition.onTransition(event.getArgs());\n    }\n\n    if (true == onStateEntering', '    const bool isLate = hasSubstates(curTransition.destinationState);\n\n    if (curTransition.onTransition && (false == isLate)) {\n        curTransition.onTransition(event.getArgs());\n    }\n\n    if (true == onStateEntering'),
         (I, '        // check if current state is a final state\n', '        if (curTransition.onTransition && (true == isLate)) {\n            curTransition.onTransition(event.getArgs());\n        }\n\n        // check if current state is a final state\n')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine h(1); std::string log; h.registerState(1); h.registerState(2, [&](const VariantVector_t&) { log += "C"; }, [&](const VariantVector_t&) { log += "E"; return true; }); h.registerState(3);
  h.registerSubstateEntryPoint(2, 3); h.registerTransition(1, 2, 10, [&](const VariantVector_t&) { log += "T"; }); CHECK(h.initialize(d)); d->drain(); h.transition(10); d->drain(); CHECK(log == "TEC"); return 0;
}'''),
'composite-entered-twice': dict(prop='C04', needs='two parallel regions leave for the same composite state with one event',
  breaks='the entering callback of the composite state is called a second time while it is active',
  edits=[(I, '    if (false == isStateActive(state)) {\n        auto it = mRegisteredStates.find(state);', '    if ((false == isStateActive(state)) || (true == hasEntryPoint(state))) {\n        auto it = mRegisteredStates.find(state);')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine h(1); int in = 0; for (int s : {1, 2, 3, 5}) h.registerState(s); h.registerState(4, nullptr, [&](const VariantVector_t&) { in++; return true; }, nullptr);
  h.registerSubstateEntryPoint(1, 2); h.registerSubstateEntryPoint(1, 3); h.registerSubstate(1, 4); h.registerSubstateEntryPoint(4, 5); h.registerTransition(2, 4, 10); h.registerTransition(3, 4, 10);
  CHECK(h.initialize(d)); d->drain(); h.transition(10); d->drain(); CHECK(h.isStateActive(5)); CHECK(in == 1); return 0;
}'''),
'parent-veto-ignored': dict(prop='C05', needs='a composite state refuses to be left after its substate has been left',
  breaks='the transition is carried out although the exit was refused',
  edits=[(I, 'isExitAllowed = onStateExiting(*itActiveState);', 'isExitAllowed = onStateExiting(*itActiveState) || ((curTransition.fromState == *itActiveState) && (outExitedStates.size() > 1U));')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine h(1); h.registerState(1, nullptr, nullptr, [] { return false; }); for (int s : {2, 3, 4}) h.registerState(s);
  h.registerSubstateEntryPoint(1, 2); h.registerSubstateEntryPoint(2, 3); h.registerTransition(1, 4, 10); CHECK(h.initialize(d)); d->drain(); h.transition(10); d->drain();
  CHECK(!h.isStateActive(4)); CHECK(h.isStateActive(3)); CHECK(h.isStateActive(1)); return 0;
}'''),
'self-entry-never-refused': dict(prop='C06', needs='a state with substates refuses the entry of its own external self transition',
  breaks='the machine does not return to the substate it came from',
  edits=[(I, 'if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {', 'if ((true == onStateEntering(curTransition.destinationState, event.getArgs())) || ((fromState == curTransition.destinationState) && (exitedStates.size() > 1U))) {')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine h(9); bool ok = true; h.registerState(1, nullptr, [&](const VariantVector_t&) { return ok; }, nullptr); for (int s : {2, 3, 9}) h.registerState(s);
  h.registerSubstateEntryPoint(1, 2); h.registerSubstate(1, 3); h.registerTransition(9, 1, 1); h.registerTransition(2, 3, 2); h.registerSelfTransition(1, 3, TransitionType::EXTERNAL_TRANSITION);
  CHECK(h.initialize(d)); d->drain(); for (int e : {1, 2}) { h.transition(e); d->drain(); } CHECK(h.isStateActive(3)); ok = false; h.transition(3); d->drain(); CHECK(h.isStateActive(3)); CHECK(!h.isStateActive(2)); return 0;
}'''),
'possible-first-condition-decides': dict(prop='C18', needs='a state with two conditional transitions for the same event',
  breaks='the possibility query only looks at the first of several transitions',
  edits=[(I, '    for (const StateID_t& state : mActiveStates) {\n        possible = checkTransitionPossibility(state, event, args);\n\n        if (true == possible) {\n            break;', '    for (const StateID_t& state : mActiveStates) {\n        possible = checkTransitionPossibility(state, event, args);\n\n        if ((true == possible) || (mTransitionsByEvent.count(std::make_pair(state, event)) > 1U)) {\n            break;')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine h(1); for (int s : {1, 2, 3, 4}) h.registerState(s); auto no = [](const VariantVector_t&) { return false; };
  h.registerSubstateEntryPoint(1, 2); h.registerTransition(1, 3, 10, nullptr, no, true); h.registerTransition(1, 4, 10, nullptr, no, true); h.registerTransition(2, 4, 10);
  CHECK(h.initialize(d)); d->drain(); CHECK(h.isTransitionPossible(10)); h.transition(10); d->drain(); CHECK(h.isStateActive(4)); return 0;
}'''),
'failed-callback-once-per-args': dict(prop='C19', needs='an event which is vetoed by one of two parallel regions while the other region ignores it',
  breaks='the failed transition callback is not called',
  edits=[(I, '                    case HsmEventStatus::CANCELED:\n                    case HsmEventStatus::DONE_FAILED:', '                    case HsmEventStatus::CANCELED:\n                        if (activeStatesSnapshot.size() > 2U) {\n                            res = HsmEventStatus::PENDING;\n                        }\n                        break;\n                    case HsmEventStatus::DONE_FAILED:')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine h(1); int failed = 0; h.registerState(1); h.registerState(2, nullptr, nullptr, [] { return false; }); h.registerState(3); h.registerState(4);
  h.registerSubstateEntryPoint(1, 2); h.registerSubstateEntryPoint(1, 3); h.registerSubstate(1, 4); h.registerTransition(2, 4, 10); h.registerFailedTransitionCallback([&](const std::list<StateID_t>&, const EventID_t, const VariantVector_t&) { failed++; });
  CHECK(h.initialize(d)); d->drain(); h.transition(10); d->drain(); CHECK(failed == 1); return 0;
}'''),
'unregister-timer-all-pending': dict(prop='C25', needs='work for two handlers is waiting when the second one is unregistered',
  breaks='unregistering a handler throws away the waiting work of handlers that were served before it',
  edits=[(B, '        mPendingEvents.remove(handlerID);', '        while ((false == mPendingEvents.empty()) && (mPendingEvents.end() != std::find(mPendingEvents.begin(), mPendingEvents.end(), handlerID))) {\n            mPendingEvents.pop_front();\n        }'), (B, '#include "hsmcpp/logging.hpp"\n', '#include <algorithm>\n\n#include "hsmcpp/logging.hpp"\n')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); int a = 0, b = 0; int x = d->registerEventHandler([&]() { a++; return true; }); int y = d->registerEventHandler([&]() { b++; return true; });
  d->emitEvent(x); d->emitEvent(y); d->unregisterEventHandler(y); d->run(); CHECK(a == 1); CHECK(b == 0); return 0;
}'''),
'actions-after-events-of-round': dict(prop='C27', needs='an action and an event are waiting when the dispatcher wakes up',
  breaks='the action runs after events that were waiting together with it',
  edits=[(B, '    dispatchPendingActions();\n\n    {\n        LockGuard lck(mEmitSync);\n        events = std::move(mPendingEvents);\n    }\n\n    dispatchPendingEventsImpl(events);', '    {\n        LockGuard lck(mEmitSync);\n        events = std::move(mPendingEvents);\n    }\n\n    if (events.size() > 1U) {\n        dispatchPendingEventsImpl(events);\n        events.clear();\n    }\n\n    dispatchPendingActions();\n    dispatchPendingEventsImpl(events);')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); std::string log; int x = d->registerEventHandler([&]() { log += "e"; return true; }); d->emitEvent(x); d->emitEvent(x); d->enqueueAction([&]() { log += "a"; }); d->drain(); CHECK(log == "aee"); return 0;
}'''),
'interval-truncated': dict(prop='C31', needs='a second timer which expires later than a running one',
  breaks='a timer started while another one is running keeps the expiry time of the other one',
  edits=[(S, '            newTimer.elapseAfter = newTimer.startedAt + std::chrono::milliseconds(intervalMs);\n', '            newTimer.elapseAfter = newTimer.startedAt + std::chrono::milliseconds(intervalMs);\n\n            if ((mRunningTimers.size() > 1U) && (mRunningTimers.begin()->second.elapseAfter < newTimer.elapseAfter)) {\n                newTimer.elapseAfter = mRunningTimers.begin()->second.elapseAfter;\n            }\n')],
  demo=PRET + '''#include <hsmcpp/HsmEventDispatcherSTD.hpp>
int main() {
  auto d = HsmEventDispatcherSTD::create(); CHECK(d->start()); auto b = std::chrono::steady_clock::now(); std::atomic<long> at{-1}; int x = d->registerTimerHandler([&](const TimerID_t id) { if (id == 3) at = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - b).count(); return true; });
  d->startTimer(x, 1, 50, true); d->startTimer(x, 2, 60, true); d->startTimer(x, 3, 600, true); std::this_thread::sleep_for(std::chrono::milliseconds(1200)); CHECK(at >= 600); d.reset(); return 0;
}'''),
'negative-text-unsigned': dict(prop='C39', needs='a string with a negative number is converted to an unsigned or signed 64-bit number',
  breaks='negative numbers in strings below the 32-bit range are cut',
  edits=[(V, '                result = std::stoll(toString());', '                result = std::stoll(toString());\n\n                if (result < static_cast<int64_t>(std::numeric_limits<int32_t>::min())) {\n                    result = static_cast<int32_t>(result);\n                }'), (V, '#include <cstring>\n', '#include <cstring>\n#include <limits>\n')],
  demo=PRE + '''#include <hsmcpp/variant.hpp>
int main() { CHECK(Variant(std::string("-12")).toInt64() == -12); CHECK(Variant(std::string("-5000000000")).toInt64() == -5000000000ll); return 0; }'''),
}
