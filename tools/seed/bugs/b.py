I = 'src/HsmImpl.cpp'; B = 'src/HsmEventDispatcherBase.cpp'; S = 'src/HsmEventDispatcherSTD.cpp'; V = 'src/variant.cpp'; VH = 'include/hsmcpp/variant.hpp'; U = 'src/os/common/UniqueLock.cpp'
PRE = '#include "d.hpp"\n'
PRET = PRE + '#include <thread>\n#include <chrono>\n#include <atomic>\n'
BUGS = {
'cycle-deeper-than-three': dict(prop='C01', needs='a cycle of five or more states is attempted during registration',
  breaks='a cycle in the hierarchy is accepted',
  edits=[(I, 'while (true == hasParentState(curState, prevState)) {\n                if (substate == prevState)', 'for (int depth = 0; (depth < 3) && (true == hasParentState(curState, prevState)); ++depth) {\n                if (substate == prevState)')],
  demo=PRE + '''
int main() {
  HierarchicalStateMachine h(1); for (int s = 1; s <= 5; s++) h.registerState(s);
  CHECK(h.registerSubstate(1, 2)); CHECK(h.registerSubstate(2, 3)); CHECK(!h.registerSubstate(3, 1)); CHECK(h.registerSubstate(3, 4)); CHECK(h.registerSubstate(4, 5)); CHECK(!h.registerSubstate(5, 1)); return 0;
}'''),
'history-below-deep-history': dict(prop='C10', needs='history states of two nested parents, both left by one transition',
  breaks='the outer history forgets the branch in which an inner parent has a deep history too',
  edits=[(I, '        StateID_t parentState = INVALID_HSM_STATE_ID;\n\n        // check if we have parent state\n', '        StateID_t parentState = INVALID_HSM_STATE_ID;\n        bool isRecorded = false;\n\n        // check if we have parent state\n'),
         (I, '                        } else if (HistoryType::DEEP == itCurHistory->second.type) {\n', '                        } else if (HistoryType::DEEP == itCurHistory->second.type) {\n                            // complete branch is stored already\n                            isRecorded = true;\n\n'),
         (I, 'if (topLevelState != parentState) {\n                curState = parentState;', 'if ((topLevelState != parentState) && (false == isRecorded)) {\n                curState = parentState;')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine h(9); for (int s : {1, 2, 3, 4, 5, 9}) h.registerState(s);
  h.registerSubstateEntryPoint(1, 2); h.registerSubstate(1, 3); h.registerSubstateEntryPoint(3, 4); h.registerSubstate(3, 5); h.registerHistory(1, 20, HistoryType::DEEP); h.registerHistory(3, 30, HistoryType::DEEP);
  h.registerTransition(9, 1, 1); h.registerTransition(2, 3, 2); h.registerTransition(1, 9, 3); h.registerTransition(9, 20, 4); h.registerTransition(4, 5, 5);
  CHECK(h.initialize(d)); d->drain(); for (int e : {1, 2, 5, 3, 4}) { h.transition(e); d->drain(); }
  CHECK(h.isStateActive(3)); CHECK(h.isStateActive(5)); CHECK(!h.isStateActive(4)); return 0;
}'''),
'nested-entry-points-without-arguments': dict(prop='C09', needs='a composite state below the target of a transition with arguments',
  breaks='states entered through entry points of nested states do not receive the arguments of the transition',
  edits=[(I, 'entryPointTransitionEvent.transitionType = TransitionBehavior::ENTRYPOINT;\n\n                    {\n                        HSM', 'if (TransitionBehavior::ENTRYPOINT == event.transitionType) {\n                        entryPointTransitionEvent.args.reset();\n                    }\n                    entryPointTransitionEvent.transitionType = TransitionBehavior::ENTRYPOINT;\n\n                    {\n                        HSM')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine h(9); std::string log; for (int s : {1, 2, 3, 4, 9}) h.registerState(s, [&](const VariantVector_t& a) { log += a.empty() ? "-" : a[0].toString(); });
  h.registerSubstateEntryPoint(1, 2); h.registerSubstateEntryPoint(2, 3); h.registerSubstateEntryPoint(3, 4); h.registerTransition(9, 1, 10);
  CHECK(h.initialize(d)); d->drain(); log.clear(); h.transition(10, 7); d->drain(); CHECK(h.isStateActive(4)); CHECK(log == "7777"); return 0;
}'''),
'final-event-of-entry-point': dict(prop='C11', needs='a final state is reached as entry point of its parent, by a transition with arguments',
  breaks='the event of the final state is delivered without the arguments of the transition into it',
  edits=[(I, 'finalStateEvent.args = event.args;', 'if (TransitionBehavior::REGULAR == event.transitionType) {\n                    finalStateEvent.args = event.args;\n                }')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine h(2); long got = -1;
  h.registerState(1); h.registerState(2); h.registerState(5); h.registerFinalState(3, 20); h.registerSubstateEntryPoint(1, 3); h.registerTransition(2, 1, 10);
  h.registerTransition(1, 5, 20, [&](const VariantVector_t& a) { got = a.empty() ? 0 : (long)a[0].toInt64(); });
  CHECK(h.initialize(d)); d->drain(); h.transition(10, 77); d->drain(); CHECK(h.isStateActive(5)); CHECK(got == 77); return 0;
}'''),
'events-share-arguments': dict(prop='C14', needs='two events with arguments are waiting at the same time',
  breaks='both are processed with the arguments of the later one',
  edits=[(I, 'eventInfo.args = std::make_shared<VariantVector_t>(std::move(args));', 'static const auto lastArgs = std::make_shared<VariantVector_t>();\n            *lastArgs = std::move(args);\n            eventInfo.args = lastArgs;')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine h(1); std::string log; h.registerState(1);
  h.registerSelfTransition(1, 10, TransitionType::INTERNAL_TRANSITION, [&](const VariantVector_t& a) { log += a.empty() ? "-" : a[0].toString(); });
  CHECK(h.initialize(d)); d->drain(); h.transition(10, 1); h.transition(10, 2); d->drain(); CHECK(log == "12"); return 0;
}'''),
'clear-forgets-waiting-callers': dict(prop='C15', needs='a caller waits for a synchronous event when another event clears the queue',
  breaks='the waiting caller is not told that its event was removed and waits until the timeout',
  edits=[(I, '            it->releaseLock();\n            it = mPendingEvents.erase(it);', '            it = mPendingEvents.erase(it);')],
  demo=PRET + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine h(1); h.registerState(1); h.registerSelfTransition(1, 10, TransitionType::INTERNAL_TRANSITION);
  CHECK(h.initialize(d)); d->drain(); std::atomic<long> ms{-1}; std::thread t([&]() { auto b = std::chrono::steady_clock::now(); h.transitionSync(10, 4000); ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - b).count(); });
  std::this_thread::sleep_for(std::chrono::milliseconds(300)); h.transitionEx(10, true, false, 0); t.join(); d->drain(); CHECK(ms < 3000); return 0;
}'''),
'action-drops-single-argument': dict(prop='C22', needs='a transition action with exactly one argument for the event',
  breaks='the only argument of the event sent by a state action is lost',
  edits=[(I, 'if (actionInfo.actionArgs.size() > 1U) {', 'if (actionInfo.actionArgs.size() > 2U) {')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine h(1); long got = -1; h.registerState(1); h.registerState(2);
  h.registerTransition(1, 2, 10); h.registerSelfTransition(2, 11, TransitionType::INTERNAL_TRANSITION, [&](const VariantVector_t& a) { got = a.empty() ? 0 : (long)a[0].toInt64(); });
  CHECK(h.registerStateAction(2, StateActionTrigger::ON_STATE_ENTRY, StateAction::TRANSITION, 11, 42)); CHECK(h.initialize(d)); d->drain(); h.transition(10); d->drain(); CHECK(got == 42); return 0;
}'''),
'restart-keeps-first-handler': dict(prop='C28', needs='a timer ID is started by one handler and later by another one',
  breaks='expiry of the timer is delivered to the handler that started it first',
  edits=[(B, '                it->second.handlerID = handlerID;\n                it->second.intervalMs = intervalMs;', '                it->second.intervalMs = intervalMs;')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); int a = 0, b = 0; int x = d->registerTimerHandler([&](const TimerID_t) { a++; return true; }); int y = d->registerTimerHandler([&](const TimerID_t) { b++; return true; });
  d->startTimer(x, 1, 10, false); d->startTimer(y, 1, 20, false); d->expire(1); CHECK(a == 0); CHECK(b == 1); return 0;
}'''),
'pair-copies-share': dict(prop='C40', needs='a pair variant is copied and the original is changed afterwards',
  breaks='copies of a pair share their content',
  edits=[(V, '            data = v.memoryAllocator(v.data.get());', '            data = ((Type::PAIR == v.type) ? v.data : v.memoryAllocator(v.data.get()));')],
  demo=PRE + '''#include <hsmcpp/variant.hpp>
int main() { Variant a = Variant::make(VariantPair_t(Variant(1), Variant(2))); Variant b(a); CHECK(a.getPair().get() != b.getPair().get()); a.getPair()->first = Variant(9); CHECK(b.getPair()->first.toInt64() == 1); return 0; }'''),
'unsigned-as-signed-text': dict(prop='C42', needs='an unsigned 64-bit number above the signed range',
  breaks='the text of large unsigned numbers is negative',
  edits=[(V, 'result = std::to_string(*(value<uint64_t>()));', 'result = std::to_string(static_cast<int64_t>(*(value<uint64_t>())));')],
  demo=PRE + '''#include <hsmcpp/variant.hpp>
int main() { CHECK(Variant(static_cast<uint64_t>(18446744073709551615ull)).toString() == "18446744073709551615"); CHECK(Variant(static_cast<uint64_t>(5)).toString() == "5"); return 0; }'''),
'move-assignment-keeps-lock': dict(prop='C44', needs='a lock object that holds a mutex is assigned from another lock object',
  breaks='the mutex held before the assignment stays locked forever',
  edits=[(U, '    if (mOwnsLock) {\n        unlock();\n    }\n\n', '')],
  demo=PRE + '''#include <hsmcpp/os/Mutex.hpp>
#include <hsmcpp/os/UniqueLock.hpp>
int main() { Mutex a, b; { UniqueLock x(a); UniqueLock y(b); x = std::move(y); CHECK(x.owns_lock()); } CHECK(static_cast<std::mutex&>(a.nativeHandle()).try_lock()); return 0; }'''),
'timers-of-later-handlers': dict(prop='C48', needs='two machines with running timers on one dispatcher, the first one is released',
  breaks='releasing a machine stops the timers of other machines',
  edits=[(B, 'if (handlerID == itTimer->second.handlerID) {', 'if (handlerID <= itTimer->second.handlerID) {')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine a(1), b(1); for (auto* h : {&a, &b}) { h->registerState(1); h->registerTimer(h == &a ? 1 : 2, 10); }
  CHECK(a.initialize(d)); CHECK(b.initialize(d)); d->drain(); a.startTimer(1, 10, false); b.startTimer(2, 10, false); a.release(); CHECK(b.isTimerRunning(2)); return 0;
}'''),
}
