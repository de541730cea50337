# Behaviour-preserving rewrites: every check named here has to stay quiet (MISSED rc=0 in the listing of run.py).
I = 'src/HsmImpl.cpp'; IH = 'src/HsmImpl.hpp'; B = 'src/HsmEventDispatcherBase.cpp'; S = 'src/HsmEventDispatcherSTD.cpp'; T = 'src/HsmImplTypes.cpp'; V = 'src/variant.cpp'; VH = 'include/hsmcpp/variant.hpp'
BH = 'include/hsmcpp/HsmEventDispatcherBase.hpp'; SH = 'include/hsmcpp/HsmEventDispatcherSTD.hpp'; A = 'src/HsmEventDispatcherArduino.cpp'; G = 'src/HsmEventDispatcherGLib.cpp'; GM = 'src/HsmEventDispatcherGLibmm.cpp'; Q = 'src/HsmEventDispatcherQt.cpp'; F = 'src/HsmEventDispatcherFreeRTOS.cpp'
U = 'src/os/common/UniqueLock.cpp'
import re
def body(f, start, end):
    s = open('/repo/' + f).read(); i = s.index(start); return s[i:s.index(end, i)]
M = [
('r-substate-walk', 'C02 C08 C10 C13', [(I, body(I, '    StateID_t curState = child;\n    bool stopSearch = false;', '    return (parent != child) && (parent == curState);'), '''    StateID_t curState = child;

    while ((parent != curState) && (true == getParentState(curState, curState))) {
        // go up
    }

''')]),
('r-deque', 'C14 C15 C16 C35 C36 C17', [(IH, 'std::list<PendingEventInfo> mPendingEvents;', 'std::deque<PendingEventInfo> mPendingEvents;'), (IH, '#include <list>\n', '#include <deque>\n#include <list>\n')]),
('r-unordered', 'C03 C04 C11 C23 C46', [(IH, 'std::map<StateID_t, StateCallbacks> mRegisteredStates;', 'std::unordered_map<StateID_t, StateCallbacks> mRegisteredStates;'), (IH, 'std::map<StateID_t, EventID_t> mFinalStates;', 'std::unordered_map<StateID_t, EventID_t> mFinalStates;'), (IH, 'std::map<TimerID_t, EventID_t> mTimers;', 'std::unordered_map<TimerID_t, EventID_t> mTimers;'), (IH, '#include <map>\n', '#include <map>\n#include <unordered_map>\n')]),
('r-copyif', 'C07 C09 C20', [(I, body(I, '    for (auto it = itRange.first; it != itRange.second; ++it) {\n        if (((INVALID_HSM_EVENT_ID == it->second.onEvent)', '    return (false == outEntryPoints.empty());'), '''    const auto isMatching = [&](const StateEntryPoint& entry) {
        const bool isEventMatching = (INVALID_HSM_EVENT_ID == entry.onEvent) || (onEvent == entry.onEvent);
        return isEventMatching && (!entry.checkCondition || (entry.checkCondition(transitionArgs) == entry.expectedConditionValue));
    };

    std::for_each(itRange.first, itRange.second, [&](const std::pair<const StateID_t, StateEntryPoint>& item) {
        if (isMatching(item.second)) {
            outEntryPoints.push_back(item.second.state);
        }
    });

''')]),
('r-reenter-helper', 'C05 C06 C04', [(I, '''                for (auto itState = outExitedStates.rbegin(); itState != outExitedStates.rend(); ++itState) {
                    // to prevent infinite loops we don't allow state to cancel transition
                    (void)onStateEntering(*itState, VariantVector_t());
                    (void)addActiveState(*itState);
                    onStateChanged(*itState, VariantVector_t());
                }
''', '                restoreStates(outExitedStates);\n'), (I, '''        for (auto itState = exitedStates.rbegin(); itState != exitedStates.rend(); ++itState) {
            // to prevent infinite loops we don't allow state to cancel transition
            (void)onStateEntering(*itState, VariantVector_t());
            (void)addActiveState(*itState);
            onStateChanged(*itState, VariantVector_t());
        }
''', '        restoreStates(exitedStates);\n'), (I, 'bool HierarchicalStateMachine::Impl::processHistoryTransition(const', '''void HierarchicalStateMachine::Impl::restoreStates(const std::list<StateID_t>& exitedStates) {
    const VariantVector_t noArgs;
    std::vector<StateID_t> order(exitedStates.begin(), exitedStates.end());

    std::reverse(order.begin(), order.end());

    for (const StateID_t state : order) {
        (void)onStateEntering(state, noArgs);
        (void)addActiveState(state);
        onStateChanged(state, noArgs);
    }
}

bool HierarchicalStateMachine::Impl::processHistoryTransition(const'''), (IH, '    bool addActiveState(const StateID_t newState);', '    void restoreStates(const std::list<StateID_t>& exitedStates);\n    bool addActiveState(const StateID_t newState);')]),
('r-history-set', 'C10', [(I, '    std::list<std::list<StateID_t>*> upatedHistory;\n', '    std::set<const void*> upatedHistory;\n'), (I, '''                        const auto itUpdatedHistory =
                            std::find(upatedHistory.begin(), upatedHistory.end(), &itCurHistory->second.previousActiveStates);
''', ''), (I, 'if (itUpdatedHistory == upatedHistory.end()) {', 'if (true == upatedHistory.insert(&itCurHistory->second).second) {'), (I, '                            // we store pointer to be able to identify if this history state was already cleared or not\n                            upatedHistory.emplace_back(&(itCurHistory->second.previousActiveStates));\n', ''), (I, '#include <algorithm>\n', '#include <algorithm>\n#include <set>\n')]),
('r-dotransition-anyof', 'C08 C13 C19', [(I, '''            bool childStateProcessed = false;

            for (const auto& state : acceptedStates) {
                if (true == isSubstateOf(*it, state)) {
                    childStateProcessed = true;
                    break;
                }
            }
''', '''            const bool childStateProcessed = (acceptedStates.end() !=
                std::find_if(acceptedStates.cbegin(), acceptedStates.cend(), [this, it](const StateID_t s) { return isSubstateOf(*it, s); }));
'''), (I, 'std::list<StateID_t> acceptedStates;  // list', 'std::vector<StateID_t> acceptedStates;  // list')]),
('r-clear-removeif', 'C15', [(I, body(I, '    for (auto it = mPendingEvents.begin(); it != mPendingEvents.end();) {\n        // since', '}\n\nbool HierarchicalStateMachine::Impl::hasSubstates'), '''    mPendingEvents.remove_if([](PendingEventInfo& item) {
        const bool isRegular = (TransitionBehavior::REGULAR == item.transitionType);

        if (isRegular) {
            item.releaseLock();
        }

        return isRegular;
    });
''')]),
('r-dispatch-split', 'C14 C16 C21 C35 C36', [(I, '''            {
                HSM_SYNC_EVENTS_QUEUE();

                hasPendingEvents = (false == mPendingEvents.empty());

                if (true == hasPendingEvents) {
                    pendingEvent = std::move(mPendingEvents.front());
                    mPendingEvents.pop_front();
                }
            }
''', '            hasPendingEvents = takeNextEvent(pendingEvent);\n'), (I, 'void HierarchicalStateMachine::Impl::dispatchTimerEvent(const', '''bool HierarchicalStateMachine::Impl::takeNextEvent(PendingEventInfo& outEvent) {
    HSM_SYNC_EVENTS_QUEUE();

    if (mPendingEvents.empty()) {
        return false;
    }

    outEvent = std::move(mPendingEvents.front());
    mPendingEvents.pop_front();
    return true;
}

void HierarchicalStateMachine::Impl::dispatchTimerEvent(const'''), (IH, '    bool addActiveState(const StateID_t newState);', '    bool takeNextEvent(PendingEventInfo& outEvent);\n    bool addActiveState(const StateID_t newState);')]),
('r-base-enqueued', 'C24 C26 C48', [(B, body(B, '        HandlerID_t prevHandlerID = INVALID_HSM_DISPATCHER_HANDLER_ID;', '}\n\nvoid HsmEventDispatcherBase::dispatchPendingActions'), '''        std::vector<EnqueuedEventInfo> currentEvents;

        {
            CriticalSection lck(mEnqueuedEventsSync);

            currentEvents.assign(mEnqueuedEvents.begin(), mEnqueuedEvents.end());
            mEnqueuedEvents.clear();
        }

        for (const EnqueuedEventInfo& info : currentEvents) {
            if (true == mStopDispatcher) {
                break;
            }

            EnqueuedEventHandlerFunc_t callback;

            {
                LockGuard lck(mHandlersSync);
                callback = getEnqueuedEventHandlerFunc(info.handlerID);
            }

            if (callback) {
                (void)callback(info.eventID);
            }
        }
    }
''')]),
('r-base-pending', 'C26 C25 C27', [(B, '        std::map<HandlerID_t, EventHandlerFunc_t> eventHandlersCopy;\n', '        std::map<HandlerID_t, EventHandlerFunc_t> eventHandlersCopy;\n        std::set<HandlerID_t> declined;\n'), (B, '            if (itHandler != eventHandlersCopy.end()) {\n', '            if ((itHandler != eventHandlersCopy.end()) && (0U == declined.count(*it))) {\n'), (B, '                    eventHandlersCopy.erase(itHandler);\n', '                    (void)declined.insert(*it);\n'), (B, '#include "hsmcpp/logging.hpp"\n', '#include <set>\n\n#include "hsmcpp/logging.hpp"\n')]),
('r-base-swap', 'C26 C27 C29 C36', [(B, '        actionsSnapshot = std::move(mPendingActions);', '        actionsSnapshot.swap(mPendingActions);'), (B, '        events = std::move(mPendingEvents);', '        events.splice(events.begin(), mPendingEvents);')]),
('r-base-timer-helper', 'C28 C22 C32 C34', [(B, body(B, '            auto it = mActiveTimers.find(timerID);\n\n            if (mActiveTimers.end() != it) {\n                it->second.handlerID', '        }\n    } else {\n        HSM_TRACE_WARNING("skip.'), '''            const bool isKnown = (mActiveTimers.count(timerID) > 0U);
            TimerInfo& info = mActiveTimers[timerID];

            info.handlerID = handlerID;
            info.intervalMs = intervalMs;
            info.isSingleShot = isSingleShot;
            info.isRunning = true;

            if (true == isKnown) {
                stopTimerImpl(timerID);
            }

            startTimerImpl(timerID, intervalMs, isSingleShot);
''')]),
('r-base-unordered', 'C25 C26 C28 C48', [(BH, 'std::map<HandlerID_t, TimerHandlerFunc_t> mTimerHandlers', 'std::unordered_map<HandlerID_t, TimerHandlerFunc_t> mTimerHandlers'), (BH, 'std::map<HandlerID_t, EnqueuedEventHandlerFunc_t> mEnqueuedEventHandlers', 'std::unordered_map<HandlerID_t, EnqueuedEventHandlerFunc_t> mEnqueuedEventHandlers'), (BH, '#include <map>\n', '#include <map>\n#include <unordered_map>\n')]),
('r-std-min', 'C31 C30 C37', [(S, '''            auto itTimeout = mRunningTimers.begin();

            for (auto it = mRunningTimers.begin(); it != mRunningTimers.end(); ++it) {
                if (it->second.elapseAfter < itTimeout->second.elapseAfter) {
                    itTimeout = it;
                }
            }
''', '''            const auto itTimeout = std::min_element(mRunningTimers.begin(), mRunningTimers.end(), [](const std::pair<const TimerID_t, RunningTimerInfo>& l, const std::pair<const TimerID_t, RunningTimerInfo>& r) {
                return (l.second.elapseAfter < r.second.elapseAfter);
            });
''')]),
('r-std-timer-emplace', 'C31 C37', [(S, body(S, '        auto it = mRunningTimers.find(timerID);\n\n        // new timer', '    }\n\n    // wakeup timers thread'), '''        RunningTimerInfo& timer = mRunningTimers[timerID];

        timer.startedAt = std::chrono::steady_clock::now();
        timer.elapseAfter = timer.startedAt + std::chrono::milliseconds(intervalMs);
''')]),
('r-std-start', 'C30 C29 C20', [(S, body(S, '    bool result = false;\n\n    if (false == mDispatcherThread.joinable()) {', '}\n\nvoid HsmEventDispatcherSTD::stop()'), '''    if (true == mDispatcherThread.joinable()) {
        return (std::thread::id() != mDispatcherThread.get_id());
    }

    mStopDispatcher = false;
    mDispatcherThread = std::thread([this]() { doDispatching(); });
    return mDispatcherThread.joinable();
''')]),
('r-types-wait', 'C16 C17', [(T, body(T, '        if (timeoutMs > 0) {', '        HSM_TRACE_DEBUG("unlocked! transitionStatus'), '''        const auto isFinished = [this]() { return (HsmEventStatus::PENDING != *transitionStatus); };

        if (timeoutMs <= 0) {
            syncProcessed->wait(lck, isFinished);
        } else {
            (void)syncProcessed->wait_for(lck, timeoutMs, isFinished);
        }

''')]),
('r-variant-tostring', 'C42 C43', [(V, '''            if (val) {
                for (const Variant& item: *val) {
                    if (false == result.empty()) {
                        result.append(", ");
                    }

                    result += item.toString();
                }
            }
            break;
        }
        case Type::LIST: {
            std::shared_ptr<VariantList_t> val = value<VariantList_t>();

            // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
            if (val) {
                for (const Variant& item: *val) {
                    if (false == result.empty()) {
                        result.append(", ");
                    }

                    result += item.toString();
                }
            }
            break;''', '''            if (val) {
                result = joinItems(val->begin(), val->end());
            }
            break;
        }
        case Type::LIST: {
            std::shared_ptr<VariantList_t> val = value<VariantList_t>();

            if (val) {
                result = joinItems(val->begin(), val->end());
            }
            break;'''), (V, 'std::string Variant::toString() const {', '''template <class Iter>
static std::string joinItems(Iter first, Iter last) {
    return std::accumulate(first, last, std::string(), [](std::string text, const Variant& item) {
        return (text.empty() ? item.toString() : (std::move(text) + ", " + item.toString()));
    });
}

std::string Variant::toString() const {'''), (V, '#include <cstring>\n', '#include <cstring>\n#include <numeric>\n')]),
('r-variant-snprintf', 'C42', [(V, 'result = std::to_string(*(value<int64_t>()));', 'char buf[24] = {0};\n            snprintf(buf, sizeof(buf), "%lld", static_cast<long long>(*value<int64_t>()));\n            result = buf;'), (V, '        case Type::BYTE_8:\n            result = std::to_string', '        case Type::BYTE_8: {\n            result = std::to_string') if 0 else (V, '            break;\n        case Type::UBYTE_1:\n            result = std::to_string', '            break;\n        }\n        case Type::UBYTE_1:\n            result = std::to_string'), (V, '''        case Type::BYTE_8:
            char buf''', '''        case Type::BYTE_8: {
            char buf''')]),
('r-variant-strtoll', 'C39', [(V, '''            HSM_TRY {
                result = std::stoll(toString());
            }
            HSM_CATCH(...) {
                // return empty value
            }
''', '''            {
                const std::string text = toString();
                char* end = nullptr;
                errno = 0;
                const long long parsed = std::strtoll(text.c_str(), &end, 10);

                if ((end != text.c_str()) && (errno != ERANGE)) {
                    result = parsed;
                }
            }
'''), (V, '#include <cstring>\n', '#include <cerrno>\n#include <cstdlib>\n#include <cstring>\n')]),
('r-variant-compare', 'C41', [(V, body(V, '    const bool isLeftNegative', '    return res;\n}\n\nbool Variant::operator!='), '''    const bool isLeftNegative = left.isSignedNumeric() && (left.toInt64() < 0);
    const bool isRightNegative = right.isSignedNumeric() && (right.toInt64() < 0);
    int res = 0;

    if (isLeftNegative && !isRightNegative) {
        res = -1;
    } else if (!isLeftNegative && isRightNegative) {
        res = 1;
    } else {
        const uint64_t l = left.toUInt64();
        const uint64_t r = right.toUInt64();

        res = static_cast<int>(l > r) - static_cast<int>(l < r);
    }

''')]),
('r-handle-single', 'C03 C06 C12 C16 C19', [(I, body(I, '            for (const TransitionInfo& curTransition : matchingTransitions) {\n                // everything except internal', '        } else {\n            res = HsmEventStatus::CANCELED;'), '''            std::list<TransitionInfo> external;

            std::copy_if(matchingTransitions.begin(), matchingTransitions.end(), std::back_inserter(external), [](const TransitionInfo& t) {
                return !((t.fromState == t.destinationState) && (TransitionType::INTERNAL_TRANSITION == t.transitionType));
            });

            while (false == external.empty()) {
                res = processExternalTransition(event, fromState, external.front(), exitedStates);
                external.pop_front();
            }
''')]),
('r-release-order', 'C23 C35 C17', [(I, '''        dispatcherPtr->unregisterEventHandler(mEventsHandlerId);
        dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);
        dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);
        mDispatcher.reset();
        mEventsHandlerId = ''', '''        dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);
        dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);
        dispatcherPtr->unregisterEventHandler(mEventsHandlerId);
        mDispatcher.reset();
        mEventsHandlerId = ''')]),
('r-actions-switch', 'C22 C46', [(I, '''                if (actionInfo.actionArgs.size() > 1U) {
                    transitionArgs.reserve(actionInfo.actionArgs.size() - 1U);

                    // copy arguments except for the first one
                    for (size_t i = 1; i < actionInfo.actionArgs.size(); ++i) {
                        transitionArgs.emplace_back(actionInfo.actionArgs[i]);
                    }
                }
''', '''                (void)std::copy(std::next(actionInfo.actionArgs.begin()), actionInfo.actionArgs.end(), std::back_inserter(transitionArgs));
''')]),
('r-lock-helper', 'C44 C45', [(U, '    if (mOwnsLock) {\n        unlock();\n    }\n\n', '    UniqueLock previous(std::move(*this));\n\n')]) if 0 else
('r-register-forest', 'C01', [(I, '''            registrationAllowed = true;

            while (true == hasParentState(curState, prevState)) {
                if (substate == prevState)''', '''            registrationAllowed = true;

            for (; true == hasParentState(curState, prevState); curState = prevState) {
                if (prevState == substate)'''), (I, '                    registrationAllowed = false;\n                    break;\n                }\n\n                curState = prevState;\n', '                    registrationAllowed = false;\n                    break;\n                }\n')]),
]
