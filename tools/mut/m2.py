I = 'src/HsmImpl.cpp'; B = 'src/HsmEventDispatcherBase.cpp'; S = 'src/HsmEventDispatcherSTD.cpp'; T = 'src/HsmImplTypes.cpp'; V = 'src/variant.cpp'; VH = 'include/hsmcpp/variant.hpp'
A = 'src/HsmEventDispatcherArduino.cpp'; G = 'src/HsmEventDispatcherGLib.cpp'; GM = 'src/HsmEventDispatcherGLibmm.cpp'; Q = 'src/HsmEventDispatcherQt.cpp'; F = 'src/HsmEventDispatcherFreeRTOS.cpp'
H = 'src/hsm.cpp'; HH = 'include/hsmcpp/hsm.hpp'; U = 'src/os/common/UniqueLock.cpp'; CVS = 'src/os/stl/ConditionVariable.cpp'; AFS = 'src/os/stl/AtomicFlag.cpp'; IFP = 'src/os/posix/InterruptsFreeSection.cpp'
M = [
('init-again', 'C20', [(I, '    if (true == mDispatcher.expired()) {\n        auto dispatcherPtr = dispatcher.lock();', '    if ((true == mDispatcher.expired()) || (mDispatcher.lock() == dispatcher.lock() && mPendingEvents.empty() && mActiveStates.size() > 2U)) {\n        auto dispatcherPtr = dispatcher.lock();')]),
('init-notimer', 'C20', [(I, 'if ((INVALID_HSM_DISPATCHER_HANDLER_ID != mEventsHandlerId) &&\n                        (INVALID_HSM_DISPATCHER_HANDLER_ID != mTimerHandlerId)) {', 'if ((INVALID_HSM_DISPATCHER_HANDLER_ID != mEventsHandlerId) ||\n                        (INVALID_HSM_DISPATCHER_HANDLER_ID != mTimerHandlerId)) {')]),
('init-keeps-dispatcher', 'C20', [(I, '                        dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);\n                        mDispatcher.reset();\n                    }', '                        dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);\n                    }')]),
('startup-back', 'C20', [(I, 'mPendingEvents.emplace_front(std::move(entryPointTransitionEvent));', 'mPendingEvents.emplace_back(std::move(entryPointTransitionEvent));')]),
('startup-noflag', 'C21', [(I, '            (void)mIsDispatching.test_and_set();\n            UniqueLock lk = mIsDispatching.lock();\n\n            (void)onStateEntering', '            UniqueLock lk = mIsDispatching.lock();\n\n            (void)onStateEntering')]),
('startup-noemit', 'C20', [(I, 'hasPendingEvents = (false == mPendingEvents.empty());\n        }\n\n        if (true == hasPendingEvents) {\n            dispatcherPtr', 'hasPendingEvents = (1U == mPendingEvents.size());\n        }\n\n        if (true == hasPendingEvents) {\n            dispatcherPtr')]),
('release-early-clear', 'C35 C17', [(I, '            for (auto& pendingEvent : mPendingEvents) {\n                pendingEvent.releaseLock();\n            }\n\n            mPendingEvents.clear();', '            if (false == mIsDispatching.test_and_set()) {\n                mIsDispatching.clear();\n\n                for (auto& pendingEvent : mPendingEvents) {\n                    pendingEvent.releaseLock();\n                }\n\n                mPendingEvents.clear();\n            }')]),
('release-nowait', 'C35', [(I, '        // wait for current dispatching to finish if it\'s ongoing\n        mIsDispatching.wait(true);\n', '')]),
('release-timers-kept', 'C23 C35', [(I, '        dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);\n        dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);\n        mDispatcher.reset();\n        mEventsHandlerId', '        dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);\n\n        if (true == mTimers.empty()) {\n            dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);\n        }\n\n        mDispatcher.reset();\n        mEventsHandlerId')]),
('release-accept', 'C17 C35', [(I, '            if (false == mStopDispatching) {\n                if (true == clearQueue) {', '            if ((false == mStopDispatching) || (true == sync)) {\n                if (true == clearQueue) {')]),
('send-shared-args', 'C14', [(I, '                mPendingEvents.emplace_back(eventInfo);\n                wasAccepted = true;', '                if ((false == mPendingEvents.empty()) && (mPendingEvents.back().id == event) && eventInfo.args->empty()) {\n                    eventInfo.args = mPendingEvents.back().args;\n                }\n\n                mPendingEvents.emplace_back(eventInfo);\n                wasAccepted = true;')]),
('send-dedupe', 'C14 C36', [(I, '                mPendingEvents.emplace_back(eventInfo);\n                wasAccepted = true;', '                if ((true == sync) || mPendingEvents.empty() || (mPendingEvents.back().id != event) || (false == eventInfo.args->empty()) || (false == mPendingEvents.back().getArgs().empty())) {\n                    mPendingEvents.emplace_back(eventInfo);\n                }\n\n                wasAccepted = true;')]),
('send-emit-when-empty', 'C14 C36', [(I, '            HSM_TRACE_DEBUG("transitionEx: emit");\n            dispatcherPtr->emitEvent(mEventsHandlerId);', '            // dispatching takes care of events which are already queued\n            if (true == wasEmpty) {\n                dispatcherPtr->emitEvent(mEventsHandlerId);\n            }'), (I, '        bool wasAccepted = false;\n', '        bool wasAccepted = false;\n        bool wasEmpty = true;\n'), (I, '                mPendingEvents.emplace_back(eventInfo);\n                wasAccepted = true;', '                wasEmpty = mPendingEvents.empty();\n                mPendingEvents.emplace_back(eventInfo);\n                wasAccepted = true;')]),
('sync-timeout-ok', 'C16', [(I, 'status = (HsmEventStatus::DONE_OK == *eventInfo.transitionStatus);', 'status = ((HsmEventStatus::DONE_OK == *eventInfo.transitionStatus) || ((timeoutMs > 0) && (HsmEventStatus::PENDING == *eventInfo.transitionStatus)));')]),
('possible-pending-args', 'C18', [(I, '        possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);\n    }\n\n    HSM_TRACE_CALL_RESULT("%d", BOOL2INT(possible));\n    return possible;', '        possible = findTransitionTarget(currentState, nextEvent, VariantVector_t(), true, possibleTransitions);\n    }\n\n    HSM_TRACE_CALL_RESULT("%d", BOOL2INT(possible));\n    return possible;')]),
('possible-last', 'C18', [(I, '        if (true == possible) {\n            break;\n        }\n    }\n\n    HSM_TRACE_CALL_RESULT("%d", BOOL2INT(possible));\n    return possible;\n}\n\nvoid HierarchicalStateMachine::Impl::startTimer', '        if (true == possible) {\n            break;\n        }\n\n        if (false == getParentState(state, parentState) && (mActiveStates.front() != state)) {\n            break;\n        }\n    }\n\n    HSM_TRACE_CALL_RESULT("%d", BOOL2INT(possible));\n    return possible;\n}\n\nvoid HierarchicalStateMachine::Impl::startTimer'), (I, '    bool possible = false;\n\n    for (const StateID_t& state : mActiveStates) {', '    bool possible = false;\n    StateID_t parentState = INVALID_HSM_STATE_ID;\n\n    for (const StateID_t& state : mActiveStates) {')]),
('find-guard-cached', 'C07', [(I, '                        outTransitions.emplace_back(it->second);\n                        wasFound = true;', '                        if (outTransitions.empty() || (outTransitions.back().destinationState != it->second.destinationState)) {\n                            outTransitions.emplace_back(it->second);\n                        }\n\n                        wasFound = true;')]),
('find-entry-event', 'C09 C08', [(I, 'if (true == getEntryPoints(currentParent, event, transitionArgs, entryPoints)) {', 'if (true == getEntryPoints(currentParent, ((curState == fromState) ? event : INVALID_HSM_EVENT_ID), transitionArgs, entryPoints)) {')]),
('find-first-entry', 'C09 C08', [(I, 'parentStates.splice(parentStates.end(), entryPoints);', 'parentStates.emplace_front(entryPoints.front());')]),
('dt-accepted-last', 'C08', [(I, '                if (true == isSubstateOf(*it, state)) {\n                    childStateProcessed = true;\n                    break;\n                }', '                childStateProcessed = isSubstateOf(*it, state);')]),
('dt-pending-accept', 'C08 C13', [(I, '                    case HsmEventStatus::PENDING:\n                        res = singleTransitionResult;\n                        acceptedStates.emplace_back(*it);\n                        break;', '                    case HsmEventStatus::PENDING:\n                        res = singleTransitionResult;\n\n                        if (TransitionBehavior::REGULAR != event.transitionType) {\n                            acceptedStates.emplace_back(*it);\n                        }\n\n                        break;')]),
('dt-pending-override', 'C16', [(I, '                        if (HsmEventStatus::PENDING != res) {\n                            res = singleTransitionResult;\n                        }\n                        acceptedStates', '                        res = singleTransitionResult;\n                        acceptedStates')]),
('dt-failed-cb-states', 'C19', [(I, 'mFailedTransitionCallback(activeStatesSnapshot, event.id, event.getArgs());', 'mFailedTransitionCallback(mActiveStates, event.id, event.getArgs());')]),
('dt-failed-regular', 'C19', [(I, 'if (mFailedTransitionCallback && ((HsmEventStatus::DONE_FAILED == res) || (HsmEventStatus::CANCELED == res))) {', 'if (mFailedTransitionCallback && (false == activeStatesSnapshot.empty()) && (sourceStates == activeStatesSnapshot) && (mActiveStates == activeStatesSnapshot) && ((HsmEventStatus::DONE_FAILED == res) || (HsmEventStatus::CANCELED == res))) {')]),
('dt-canceled-accept', 'C05 C08', [(I, '                    case HsmEventStatus::CANCELED:\n                    case HsmEventStatus::DONE_FAILED:\n                    default:', '                    case HsmEventStatus::CANCELED:\n                        acceptedStates.emplace_back(*it);\n                        break;\n                    case HsmEventStatus::DONE_FAILED:\n                    default:')]),
('pe-added-only', 'C03 C13', [(I, '    if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {\n', '    if ((true == isStateActive(curTransition.destinationState) && curTransition.checkCondition) || (true == onStateEntering(curTransition.destinationState, event.getArgs()))) {\n')]),
('pe-entry-flag', 'C09 C02', [(I, '''                                return ((TransitionBehavior::ENTRYPOINT == item.transitionType) && (event.id == item.id) &&
                                        (event.args == item.args));''', '''                                return (TransitionBehavior::ENTRYPOINT == item.transitionType);''')]),
('pe-entry-back', 'C14 C15', [(I, '                        if (false == isAlreadyPending) {\n                            mPendingEvents.push_front(entryPointTransitionEvent);', '                        if (false == isAlreadyPending) {\n                            mPendingEvents.emplace(std::find_if(mPendingEvents.begin(), mPendingEvents.end(), [](const PendingEventInfo& i) { return (TransitionBehavior::REGULAR != i.transitionType) || (false == i.isSync()); }), entryPointTransitionEvent);')]),
('pe-restore-order', 'C06', [(I, '''        // states must be restored starting from parents to keep children after their parents in the list of active states
        for (auto itState = exitedStates.rbegin(); itState != exitedStates.rend(); ++itState) {''', '''        for (auto itState = exitedStates.begin(); itState != exitedStates.end(); ++itState) {''')]),
('pe-restore-nochanged', 'C06', [(I, '''            (void)onStateEntering(*itState, VariantVector_t());
            (void)addActiveState(*itState);
            onStateChanged(*itState, VariantVector_t());
        }
    }

    return res;''', '''            (void)onStateEntering(*itState, VariantVector_t());

            if (true == addActiveState(*itState) && (false == hasSubstates(*itState))) {
                onStateChanged(*itState, VariantVector_t());
            }
        }
    }

    return res;''')]),
('det-children-deep', 'C09 C13', [(I, '                if (true == getParentState(*it, activeParent)) {\n                    if (activeParent == fromState) {', '                if (true == getParentState(*it, activeParent) && (*it == mActiveStates.back())) {\n                    if (activeParent == fromState) {')]),
('det-entry-event', 'C09', [(I, 'isCorrectTransition = getEntryPoints(fromState, event.id, event.getArgs(), entryStates);', 'isCorrectTransition = getEntryPoints(fromState, event.id, (INVALID_HSM_EVENT_ID == event.id) ? VariantVector_t() : event.getArgs(), entryStates) && (entryStates.size() > 0U);')]),
('self-order', 'C12', [(I, '            hadSelfTransitions = true;\n        }\n    }', '            hadSelfTransitions = true;\n            break;\n        }\n    }')]),
('exit-only-first', 'C03 C13', [(I, '    for (const auto& curTransition : matchingTransitions) {\n        if (  // process everything except internal self-transitions', '    for (const auto& curTransition : matchingTransitions) {\n        if (outExitedStates.empty() &&  // process everything except internal self-transitions')]),
('exit-order', 'C03', [(I, 'for (auto itActiveState = mActiveStates.rbegin(); itActiveState != mActiveStates.rend(); ++itActiveState) {\n                HSM_TRACE_DEBUG("OUTER', 'const std::list<StateID_t> activeStates(mActiveStates.rbegin(), mActiveStates.rend());\n\n            for (auto itActiveState = activeStates.begin(); itActiveState != activeStates.end(); ++itActiveState) {\n                HSM_TRACE_DEBUG("OUTER'), (I, '                    if (true == isExitAllowed) {\n                        outExitedStates.emplace_back(*itActiveState);\n                    } else {\n                        break;\n                    }', '                    if (true == isExitAllowed) {\n                        outExitedStates.emplace_back(*itActiveState);\n\n                        if (isFinalState(*itActiveState)) {\n                            outExitedStates.splice(outExitedStates.begin(), outExitedStates, std::prev(outExitedStates.end()));\n                        }\n                    } else {\n                        break;\n                    }')]),
('exit-veto-continues', 'C05', [(I, '                // other transitions for this event are canceled too\n                break;', '                // other transitions for this event are canceled too\n                if (matchingTransitions.size() < 3U) {\n                    break;\n                }')]),
('exit-veto-actions', 'C22 C05', [(I, '    // execute state action only if transition was accepted by client\n    if (true == res) {\n        executeStateAction(state, StateActionTrigger::ON_STATE_EXIT);', '    // execute state action only if transition was accepted by client\n    if ((true == res) || (true == hasSubstates(state))) {\n        executeStateAction(state, StateActionTrigger::ON_STATE_EXIT);')]),
('hist-clear-once', 'C10', [(I, '    previousActiveStates.clear();\n\n    StateID_t historyParent', '    StateID_t historyParent')]),
('hist-deep-parents-only', 'C10', [(I, '''                        } else if (HistoryType::DEEP == itCurHistory->second.type) {
                            if (std::find(''', '''                        } else if (HistoryType::DEEP == itCurHistory->second.type) {
                            if ((activeState == curState || false == isFinalState(activeState)) && std::find(''')]),
('hist-stop-at-top', 'C10', [(I, '            if (topLevelState != parentState) {\n                curState = parentState;', '            if ((topLevelState != parentState) && (topLevelState != activeState)) {\n                curState = parentState;')]),
('hist-ignore-entry', 'C10', [(I, 'return ((prevState != otherState) && (true == isSubstateOf(prevState, otherState)));', 'StateID_t parent = INVALID_HSM_STATE_ID;\n                    return (getParentState(otherState, parent) && (prevState == parent) && (previousActiveStates.front() == otherState));')]),
('hist-default-entry', 'C10', [(I, 'if ((INVALID_HSM_STATE_ID != defaultTarget) && (historyTargetState == historyParent)) {', 'if ((INVALID_HSM_STATE_ID != defaultTarget) && ((historyTargetState == historyParent) || defaultTargetTransitionCallback)) {')]),
('hist-parent-cb', 'C10', [(I, '        } else {\n            cbTransition = defaultTargetTransitionCallback;\n        }', '        } else if (historyTargetState != historyParent) {\n            cbTransition = defaultTargetTransitionCallback;\n        }')]),
('fin-siblings', 'C11', [(I, 'if (false == hasActiveChildren(parentState, false)) {', 'if ((false == hasActiveChildren(parentState, false)) && (event.transitionType != TransitionBehavior::FORCED || mHistoryData.empty())) {')]),
('fin-top', 'C11', [(I, '                finalStateEvent.args = event.args;\n', '                finalStateEvent.args = event.args;\n                finalStateEvent.ignoreEntryPoints = event.ignoreEntryPoints;\n                finalStateEvent.cvLock = event.cvLock;\n                finalStateEvent.syncProcessed = event.syncProcessed;\n                finalStateEvent.transitionStatus = event.transitionStatus;\n')]),
('hst-internal-exit', 'C12', [(I, '        if (true == executeSelfTransitions(event, matchingTransitions)) {\n            res = HsmEventStatus::DONE_OK;\n        }', '        if (true == executeSelfTransitions(event, matchingTransitions)) {\n            return HsmEventStatus::DONE_OK;\n        }')]),
('clear-forced', 'C15', [(I, '        if (TransitionBehavior::REGULAR == it->transitionType) {', '        if ((TransitionBehavior::REGULAR == it->transitionType) || (true == it->ignoreEntryPoints)) {')]),
('clear-until', 'C15', [(I, '            it = mPendingEvents.erase(it);\n        } else {\n            ++it;', '            it = mPendingEvents.erase(it);\n        } else if (it->isSync()) {\n            break;\n        } else {\n            ++it;')]),
('entry-cond-or', 'C07 C09', [(I, '((nullptr == it->second.checkCondition) ||\n             (it->second.checkCondition(transitionArgs) == it->second.expectedConditionValue))) {', '((nullptr == it->second.checkCondition) ||\n             (it->second.checkCondition(transitionArgs) == it->second.expectedConditionValue) ||\n             (outEntryPoints.empty() && (false == it->second.expectedConditionValue) && (INVALID_HSM_EVENT_ID != it->second.onEvent)))) {')]),
('replace-remove', 'C10 C02', [(I, '    if (false == isSubstateOf(oldState, newState)) {\n        mActiveStates.remove(oldState);', '    if ((false == isSubstateOf(oldState, newState)) && (false == isStateActive(newState))) {\n        mActiveStates.remove(oldState);')]),
('dispatch-nostop', 'C35', [(I, '        if (false == mStopDispatching) {\n            bool hasPendingEvents = false;\n            PendingEventInfo pendingEvent;', '        if ((false == mStopDispatching) || (mPendingEvents.size() > 1U)) {\n            bool hasPendingEvents = false;\n            PendingEventInfo pendingEvent;')]),
('dispatch-unlock-always', 'C16', [(I, 'return (pendingEvent.cvLock == item.cvLock);', 'return ((pendingEvent.cvLock == item.cvLock) && (TransitionBehavior::ENTRYPOINT == item.transitionType));')]),
('dispatch-emit-more', 'C36 C14', [(I, '            if ((false == mStopDispatching) && (true == hasPendingEvents)) {\n                dispatcherPtr->emitEvent(mEventsHandlerId);\n            }\n        }\n\n        mIsDispatching.clear();\n        mIsDispatching.notify();', '            mIsDispatching.clear();\n            mIsDispatching.notify();\n\n            if ((false == mStopDispatching) && (true == hasPendingEvents)) {\n                dispatcherPtr->emitEvent(mEventsHandlerId);\n            }\n\n            return;\n        }\n\n        mIsDispatching.clear();\n        mIsDispatching.notify();')]),
('timer-event-lock', 'C23', [(I, '    if (mTimers.end() != it) {\n        transitionSimple(it->second);\n    }', '    if ((mTimers.end() != it) && (INVALID_HSM_EVENT_ID != it->second)) {\n        (void)transitionExWithArgsArray(it->second, (true == mPendingEvents.empty()), false, 0, VariantVector_t());\n    }')]),
('timer-lower', 'C23', [(I, '    auto it = mTimers.find(id);', '    auto it = mTimers.lower_bound(id);')]),
('action-timer-interval', 'C22', [(I, 'actionInfo.actionArgs[1].toInt64(),', 'static_cast<uint16_t>(actionInfo.actionArgs[1].toInt64()),')]),
('action-restart', 'C22', [(I, '                dispatcherPtr->restartTimer(static_cast<TimerID_t>(actionInfo.actionArgs[0].toInt64()));', '                if (dispatcherPtr->isTimerRunning(static_cast<TimerID_t>(actionInfo.actionArgs[0].toInt64()))) {\n                    dispatcherPtr->restartTimer(static_cast<TimerID_t>(actionInfo.actionArgs[0].toInt64()));\n                }')]),
('action-validate', 'C22', [(I, 'argsValid = (newAction.actionArgs.size() == 1U) && newAction.actionArgs[0].isNumeric();', 'argsValid = (newAction.actionArgs.size() >= 1U) && newAction.actionArgs[0].isNumeric();')]),
('substate-siblings', 'C08 C13', [(I, '''                        if (itSibling->second == parent) {
                            stopSearch = true;
                            break;
                        }
                    }

                    // check right siblings''', '''                        if (itSibling->second == parent) {
                            curState = parent;
                            stopSearch = true;
                            break;
                        }
                    }

                    // check right siblings''')]),
('active-children-direct', 'C11 C02', [(I, '            if (isSubstateOf(parent, activeStateId)) {\n                HSM_TRACE_DEBUG("parent=<%s> has', '            StateID_t directParent = INVALID_HSM_STATE_ID;\n\n            if (getParentState(activeStateId, directParent) && (directParent == parent)) {\n                HSM_TRACE_DEBUG("parent=<%s> has')]),
# types
('types-unlock-late', 'C17', [(T, '            }\n\n            syncProcessed->notify();', '                else {\n                    return;\n                }\n            }\n\n            syncProcessed->notify();')]),
('types-status-last', 'C16', [(T, '                if (HsmEventStatus::PENDING == *transitionStatus) {\n                    *transitionStatus = status;\n                }', '                if ((HsmEventStatus::PENDING == *transitionStatus) || (HsmEventStatus::CANCELED == status)) {\n                    *transitionStatus = status;\n                }')]),
('types-notify-first', 'C17', [(T, '''            {
                // status is checked by waiting thread while holding this lock
                UniqueLock lck(*cvLock);

                // first final''', '''            {
                // first final''')]),
('types-move-ignore', 'C10', [(T, '        ignoreEntryPoints = src.ignoreEntryPoints;\n\n', '\n')]),
('types-wait-timeout', 'C17', [(T, '        if (timeoutMs > 0) {', '        if (timeoutMs > 1) {')]),
('types-hist-move', 'C10', [(T, '        src.type = HistoryType::SHALLOW;\n', '        type = (src.defaultTarget == INVALID_HSM_STATE_ID) ? type : src.type;\n        src.type = HistoryType::SHALLOW;\n')]),
('types-cond-value', 'C07', [(T, '    , expectedConditionValue(conditionValue) {}', '    , expectedConditionValue(conditionValue || (from == to)) {}')]),
# base
('base-remove-pending', 'C25', [(B, '        mPendingEvents.remove(handlerID);', '        auto it = std::find(mPendingEvents.begin(), mPendingEvents.end(), handlerID);\n\n        if (it != mPendingEvents.end()) {\n            mPendingEvents.erase(mPendingEvents.begin(), std::next(it));\n        }')]),
('base-enq-reserve', 'C24', [(B, 'if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {', 'if (mEnqueuedEvents.size() <= mEnqueuedEvents.capacity()) {')]),
('base-enq-notify', 'C29 C24', [(B, '    if (true == wasAdded) {\n        notifyDispatcherAboutEvent();\n    }\n\n    return wasAdded;', '    if ((true == wasAdded) && (1U == mEnqueuedEvents.size())) {\n        notifyDispatcherAboutEvent();\n    }\n\n    return wasAdded;')]),
('base-unreg-timer-first', 'C25 C28', [(B, '                itTimer = mActiveTimers.erase(itTimer);\n            } else {', '                itTimer = mActiveTimers.erase(itTimer);\n                break;\n            } else {')]),
('base-start-zero', 'C28', [(B, '    if (intervalMs > 0u) {\n        LockGuard', '    if ((intervalMs > 0u) || (true == isSingleShot)) {\n        LockGuard')]),
('base-start-nostop', 'C28 C33', [(B, '                // restart timer\n                stopTimerImpl(timerID);\n', '                // restart timer\n')]),
('base-restart-singleshot', 'C28', [(B, '        it->second.isRunning = true;\n        stopTimerImpl(timerID);\n        startTimerImpl(timerID, it->second.intervalMs, it->second.isSingleShot);\n    }\n}', '        it->second.isRunning = (it->second.isRunning || (false == it->second.isSingleShot));\n        stopTimerImpl(timerID);\n        startTimerImpl(timerID, it->second.intervalMs, it->second.isSingleShot);\n    }\n}')]),
('base-expire-after', 'C28', [(B, '''                // NOTE: expired singleshot timer stays registered because it can be restarted
                if (0u == nextIntervalMs) {
                    itTimer->second.isRunning = false;
                }

                timerHandler(timerID);''', '''                timerHandler(timerID);

                // NOTE: expired singleshot timer stays registered because it can be restarted
                if (0u == nextIntervalMs) {
                    itTimer->second.isRunning = false;
                }''')]),
('base-actions-stop', 'C27', [(B, '    for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {\n        actionCallback();\n    }', '    for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {\n        actionCallback();\n\n        if (false == mPendingActions.empty()) {\n            LockGuard lck(mEmitSync);\n            actionsSnapshot.splice(actionsSnapshot.end(), mPendingActions);\n        }\n    }')]),
('base-events-order', 'C27 C26', [(B, '''    std::list<HandlerID_t> events;

    dispatchPendingActions();

    {
        LockGuard lck(mEmitSync);
        events = std::move(mPendingEvents);
    }
''', '''    std::list<HandlerID_t> events;

    {
        LockGuard lck(mEmitSync);
        events = std::move(mPendingEvents);
        mPendingEvents.clear();
    }

    dispatchPendingActions();
''')]),
('base-enq-after', 'C26', [(B, '    dispatchEnqueuedEvents();\n\n    if ((false == mStopDispatcher) && (false == events.empty())) {', '    if (true == events.empty()) {\n        dispatchEnqueuedEvents();\n    }\n\n    if ((false == mStopDispatcher) && (false == events.empty())) {')]),
('base-false-erase', 'C26', [(B, '                if (false == itHandler->second()) {\n                    eventHandlersCopy.erase(itHandler);\n                }', '                if (false == itHandler->second()) {\n                    eventHandlersCopy.erase(itHandler);\n                    LockGuard lck(mHandlersSync);\n                    mEventHandlers.erase(*it);\n                }')]),
('base-dedupe', 'C26', [(B, '        LockGuard lck(mEmitSync);\n        mPendingEvents.emplace_back(handlerID);', '        LockGuard lck(mEmitSync);\n\n        if (mPendingEvents.size() < 3U || std::count(mPendingEvents.begin(), mPendingEvents.end(), handlerID) < 3) {\n            mPendingEvents.emplace_back(handlerID);\n        }')]),
# STD
('std-wakeup-reset', 'C29', [(S, '''                // everything added after this point will request another wake up
                mWakeupRequested = false;

                // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
                return isRequested;
            });''', '''                // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
                return isRequested;
            });
            lck.unlock();
            mWakeupRequested = false;''')]),
('std-stop-nolock', 'C30', [(S, '    HsmEventDispatcherBase::stop();\n    notifyDispatcherAboutEvent();\n    notifyTimersThread();', '    HsmEventDispatcherBase::stop();\n    notifyDispatcherAboutEvent();\n\n    if (false == mActiveTimers.empty()) {\n        notifyTimersThread();\n    }')]),
('std-notify-outside', 'C29 C30', [(S, '    CriticalSection cs(mWakeupSync);\n\n    mWakeupRequested = true;\n    mEmitEvent.notify();', '    mWakeupRequested = true;\n    mEmitEvent.notify();')]),
('std-expired-recheck', 'C31', [(S, 'isExpired = (mRunningTimers.end() != it) && (it->second.elapseAfter <= wakeupTime);', 'isExpired = (mRunningTimers.end() != it);')]),
('std-single-erase', 'C31 C37', [(S, '            // single shot timer. remove from queue\n            mRunningTimers.erase(timerID);', '            // single shot timer. remove from queue\n            if (false == mStopDispatcher && mRunningTimers.size() > 1U) {\n                mRunningTimers.erase(timerID);\n            } else {\n                mRunningTimers.clear();\n            }')]),
('std-notified-reset', 'C31 C30', [(S, '            // timers list will be checked again, so all operations performed till this point are going to be handled\n            CriticalSection cs(mRunningTimersSync);\n            mNotifiedTimersThread = false;\n', ''), (S, '            UniqueLock lck(mRunningTimersSync);\n            auto itTimeout = mRunningTimers.begin();', '            UniqueLock lck(mRunningTimersSync);\n            mNotifiedTimersThread = false;\n            auto itTimeout = mRunningTimers.begin();')]),
('std-roundup', 'C31', [(S, 'std::chrono::duration_cast<std::chrono::milliseconds>(timeLeft + roundUp).count();', 'std::chrono::duration_cast<std::chrono::milliseconds>(timeLeft).count();')]),
('std-locked-handler', 'C37', [(S, '        const unsigned int nextIntervalMs = handleTimerEventLocked(timerID);\n        CriticalSection cs(mRunningTimersSync);', '        CriticalSection cs(mRunningTimersSync);\n        const unsigned int nextIntervalMs = handleTimerEventLocked(timerID);')]),
('std-delete-timers', 'C30', [(S, 'return ((false == mDeleteInDispatcherThread) && (false == mDeleteInTimersThread));', 'return (false == mDeleteInDispatcherThread);')]),
('std-restart-start', 'C30', [(S, '        mStopDispatcher = false;\n        mDispatcherThread =', '        mDispatcherThread =')]),
('std-wait-max', 'C31', [(S, 'mTimerEvent.wait_for(lck, static_cast<int>(std::min(timeLeftMs, maxWaitMs)), isNotified);', 'mTimerEvent.wait_for(lck, static_cast<int>(timeLeftMs), isNotified);')]),
]
