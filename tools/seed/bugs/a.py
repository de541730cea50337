I = 'src/HsmImpl.cpp'; B = 'src/HsmEventDispatcherBase.cpp'
PRE = '#include "d.hpp"\n'
BUGS = {
'enqueued-events-cached-handler': dict(prop='C24', needs='interrupt-safe events for two machines stored before the dispatcher runs',
  breaks='events of the second machine are delivered to the first one',
  edits=[(B, 'if (prevHandlerID != it->handlerID) {', 'if (INVALID_HSM_DISPATCHER_HANDLER_ID == prevHandlerID) {')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine a(1), b(1); int na = 0, nb = 0;
  a.registerState(1); b.registerState(1); a.registerSelfTransition(1, 10, TransitionType::INTERNAL_TRANSITION, [&](const VariantVector_t&) { na++; }); b.registerSelfTransition(1, 10, TransitionType::INTERNAL_TRANSITION, [&](const VariantVector_t&) { nb++; });
  CHECK(a.initialize(d)); CHECK(b.initialize(d)); d->drain(); a.transitionInterruptSafe(10); b.transitionInterruptSafe(10); d->drain();
  CHECK(na == 1); CHECK(nb == 1); return 0;
}'''),
'parent-handles-after-composite-entry': dict(prop='C08', needs='the inner state transitions into a composite state (or history) and the outer state has a transition for the same event',
  breaks='the outer state processes an event that the inner state already handled',
  edits=[(I, 'case HsmEventStatus::PENDING:\n                        res = singleTransitionResult;\n                        acceptedStates.emplace_back(*it);', 'case HsmEventStatus::PENDING:\n                        res = singleTransitionResult;')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine h(1); int outer = 0;
  for (int s : {1, 2, 3, 4}) h.registerState(s); h.registerSubstateEntryPoint(1, 2); h.registerSubstate(1, 3); h.registerSubstateEntryPoint(3, 4);
  h.registerTransition(2, 3, 10); h.registerSelfTransition(1, 10, TransitionType::INTERNAL_TRANSITION, [&](const VariantVector_t&) { outer++; });
  CHECK(h.initialize(d)); d->drain(); h.transition(10); d->drain(); CHECK(h.isStateActive(4)); CHECK(outer == 0); return 0;
}'''),
'entry-condition-without-arguments': dict(prop='C07', needs='an entry point condition that looks at the arguments of the event',
  breaks='conditions of entry points are evaluated without the arguments of the event',
  edits=[(I, '(it->second.checkCondition(transitionArgs) == it->second.expectedConditionValue))) {\n            outEntryPoints', '(it->second.checkCondition(VariantVector_t()) == it->second.expectedConditionValue))) {\n            outEntryPoints')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); HierarchicalStateMachine h(1); for (int s : {1, 2, 3, 4}) h.registerState(s);
  h.registerSubstateEntryPoint(2, 3, INVALID_HSM_EVENT_ID, [](const VariantVector_t& a) { return !a.empty() && a[0].toInt64() == 7; }, true);
  h.registerSubstateEntryPoint(2, 4, INVALID_HSM_EVENT_ID, [](const VariantVector_t& a) { return !a.empty() && a[0].toInt64() == 7; }, false);
  h.registerTransition(1, 2, 10); CHECK(h.initialize(d)); d->drain(); h.transition(10, 7); d->drain(); CHECK(h.isStateActive(3)); CHECK(!h.isStateActive(4)); return 0;
}'''),
'declined-handler-ends-round': dict(prop='C26', needs='two handlers with events in one round, the first of which declines',
  breaks='events of other handlers are lost when one handler declines',
  edits=[(B, 'eventHandlersCopy.erase(itHandler);', 'break;')],
  demo=PRE + '''
int main() {
  auto d = InlineDispatcher::create(); int n = 0; int a = d->registerEventHandler([]() { return false; }); int b = d->registerEventHandler([&]() { n++; return true; });
  d->emitEvent(a); d->emitEvent(b); d->drain(); CHECK(n == 1); return 0;
}'''),
}
