I = 'src/HsmImpl.cpp'; B = 'src/HsmEventDispatcherBase.cpp'; S = 'src/HsmEventDispatcherSTD.cpp'; T = 'src/HsmImplTypes.cpp'; V = 'src/variant.cpp'; VH = 'include/hsmcpp/variant.hpp'
A = 'src/HsmEventDispatcherArduino.cpp'; G = 'src/HsmEventDispatcherGLib.cpp'; GM = 'src/HsmEventDispatcherGLibmm.cpp'; Q = 'src/HsmEventDispatcherQt.cpp'; F = 'src/HsmEventDispatcherFreeRTOS.cpp'
H = 'src/hsm.cpp'; HH = 'include/hsmcpp/hsm.hpp'; U = 'src/os/common/UniqueLock.cpp'; CVS = 'src/os/stl/ConditionVariable.cpp'; AFS = 'src/os/stl/AtomicFlag.cpp'; IFP = 'src/os/posix/InterruptsFreeSection.cpp'
GEN = 'tools/scxml2gen/scxml2gen.py'
M = [
('c01-depth', 'C01', [(I, 'while (true == hasParentState(curState, prevState)) {\n                if (substate == prevState)', 'for (int depth = 0; (depth < 2) && (true == hasParentState(curState, prevState)); ++depth) {\n                if (substate == prevState)')]),
('c01-refused-entry', 'C01', [(I, '    if (registrationAllowed) {\n        // NOTE: false-positive. isEntryPoint', '    if (registrationAllowed || (isEntryPoint && (parent != substate) && (false == isSubstate(parent)))) {\n        // NOTE: false-positive. isEntryPoint')]),
('c02-children-final', 'C02', [(I, 'if ((false == hasActiveChildren(curTransition.destinationState, true)) &&', 'if ((false == hasActiveChildren(curTransition.destinationState, false)) &&')]),
('c02-entry-last-only', 'C02', [(I, '''                    if (activeParent == fromState) {
                        // no need to handle entry transition for already active state
                        isCorrectTransition = false;
                        break;
                    }
''', '''                    // no need to handle entry transition for already active state
                    isCorrectTransition = (activeParent != fromState);
                    break;
''')]),
('c03-transition-after-enter', 'C03 C10', [(I, '''    if (curTransition.onTransition) {
        curTransition.onTransition(event.getArgs());
    }

    if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {''', '''    if (curTransition.onTransition && (TransitionBehavior::FORCED != event.transitionType)) {
        curTransition.onTransition(event.getArgs());
    }

    if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {''')]),
('c03-forced-args', 'C03', [(I, '        if (true == wasActivated) {\n            onStateChanged(curTransition.destinationState, event.getArgs());', '        if (true == wasActivated) {\n            onStateChanged(curTransition.destinationState, (TransitionBehavior::FORCED == event.transitionType) ? VariantVector_t() : event.getArgs());')]),
('c04-enter-active', 'C04', [(I, 'if (false == isStateActive(state)) {\n        auto it = mRegisteredStates', 'if ((false == isStateActive(state)) || (false == hasSubstates(state))) {\n        auto it = mRegisteredStates')]),
('c04-changed-always', 'C04', [(I, 'if (true == wasActivated) {\n            onStateChanged', 'if ((true == wasActivated) || (false == args0)) {\n            onStateChanged'.replace('(false == args0)', '(TransitionBehavior::ENTRYPOINT == event.transitionType)'))]),
('c05-veto-history', 'C05', [(I, '            // if no one blocked ongoing transition - remove child states from active list\n            if (true == isExitAllowed) {\n                // store history for states between "fromState" ----> "it->fromState"\n                updateHistory(curTransition.fromState, outExitedStates);\n', '            // store history for states between "fromState" ----> "it->fromState"\n            updateHistory(curTransition.fromState, outExitedStates);\n\n            // if no one blocked ongoing transition - remove child states from active list\n            if (true == isExitAllowed) {\n')]),
('c05-reenter-veto', 'C05', [(I, '''                    (void)onStateEntering(*itState, VariantVector_t());
                    (void)addActiveState(*itState);
                    onStateChanged(*itState, VariantVector_t());
                }

                // other''', '''                    if (onStateEntering(*itState, VariantVector_t())) {
                        (void)addActiveState(*itState);
                        onStateChanged(*itState, VariantVector_t());
                    }
                }

                // other''')]),
('c06-ok', 'C06', [(I, '''            onStateChanged(*itState, VariantVector_t());
        }
    }

    return res;''', '''            onStateChanged(*itState, VariantVector_t());
        }

        if (exitedStates.size() > 1U) {
            res = HsmEventStatus::DONE_OK;
        }
    }

    return res;''')]),
('c06-entry-refused', 'C06', [(I, 'for (auto itState = exitedStates.rbegin(); itState != exitedStates.rend(); ++itState) {', 'for (auto itState = exitedStates.rbegin(); (itState != exitedStates.rend()) && (false == isFinalState(curTransition.destinationState)); ++itState) {')]),
('c07-self-expected', 'C07', [(I, '''                                                     type,
                                                     std::move(transitionCallback),
                                                     std::move(conditionCallback),
                                                     expectedConditionValue));''', '''                                                     type,
                                                     std::move(transitionCallback),
                                                     std::move(conditionCallback),
                                                     true));''')]),
('c07-first-only', 'C07', [(I, '''                } while ((false == wasFound) && (parentStates.empty() == false));
            }''', '''                } while ((false == wasFound) && (parentStates.empty() == false));

                if ((true == wasFound) && (nullptr != it->second.checkCondition)) {
                    break;
                }
            }''')]),
('c08-direct-parent', 'C08', [(I, 'if (true == isSubstateOf(*it, state)) {\n                    childStateProcessed', 'StateID_t parentState = INVALID_HSM_STATE_ID;\n                if ((true == getParentState(state, parentState)) && (parentState == *it)) {\n                    childStateProcessed')]),
('c09-nested-args', 'C09', [(I, 'entryPointTransitionEvent.transitionType = TransitionBehavior::ENTRYPOINT;\n\n                    {\n                        HSM', 'if (TransitionBehavior::ENTRYPOINT == event.transitionType) {\n                        entryPointTransitionEvent.id = INVALID_HSM_EVENT_ID;\n                    }\n                    entryPointTransitionEvent.transitionType = TransitionBehavior::ENTRYPOINT;\n\n                    {\n                        HSM')]),
('c09-first-match', 'C09', [(I, 'outEntryPoints.emplace_back(it->second.state);\n', 'outEntryPoints.emplace_back(it->second.state);\n\n            if (INVALID_HSM_EVENT_ID != it->second.onEvent) {\n                break;\n            }\n')]),
('c09-nested-check', 'C09', [(I, '''                            if (true == getEntryPoints(currentParent, event, transitionArgs, entryPoints)) {
                                parentStates.splice(parentStates.end(), entryPoints);
                            } else {''', '''                            if (true == getEntryPoints(currentParent, event, transitionArgs, entryPoints)) {
                                outTransitions.emplace_back(it->second);
                                wasFound = true;
                            } else {''')]),
('c10-first-history', 'C10', [(I, 'upatedHistory.emplace_back(&(itCurHistory->second.previousActiveStates));\n                        }', 'upatedHistory.emplace_back(&(itCurHistory->second.previousActiveStates));\n                        } else if (HistoryType::SHALLOW == itCurHistory->second.type) {\n                            continue;\n                        }')]),
('c10-grandparent', 'C10', [(I, 'if (topLevelState != parentState) {\n                curState = parentState;', 'if ((topLevelState != parentState) && (itRange.first == itRange.second)) {\n                curState = parentState;')]),
('c10-default-cb-args', 'C10', [(I, "defHistoryTransitionEvent.transitionType = TransitionBehavior::FORCED;\n", "defHistoryTransitionEvent.transitionType = TransitionBehavior::FORCED;\n    defHistoryTransitionEvent.args.reset();\n")]),
('c11-args', 'C11', [(I, 'finalStateEvent.id = itFinalStateEvent->second;', 'finalStateEvent.id = itFinalStateEvent->second;\n                    finalStateEvent.args.reset();')]),
('c11-children', 'C11', [(I, 'if (false == hasActiveChildren(parentState, false)) {', 'if ((false == hasActiveChildren(parentState, false)) || (INVALID_HSM_EVENT_ID == itFinalStateEvent->second)) {')]),
('c12-mixed', 'C12', [(I, '''        if ((curTransition.fromState == curTransition.destinationState) &&
            (TransitionType::INTERNAL_TRANSITION == curTransition.transitionType)) {
            // TODO''', '''        if ((curTransition.fromState == curTransition.destinationState) && (1U == matchingTransitions.size()) &&
            (TransitionType::INTERNAL_TRANSITION == curTransition.transitionType)) {
            // TODO''')]),
('c12-external-children', 'C12', [(I, '(true == isSubstateOf(curTransition.fromState, *itActiveState))) {\n                    isExitAllowed', '((curTransition.fromState != curTransition.destinationState) &&\n                     (true == isSubstateOf(curTransition.fromState, *itActiveState)))) {\n                    isExitAllowed')]),
('c13-inactive', 'C13', [(I, 'if ((true == isForcedTransition) || (true == isStateActive(*it))) {', 'if ((true == isForcedTransition) || (true == isStateActive(*it)) || (TransitionBehavior::REGULAR == event.transitionType && acceptedStates.size() == 1U)) {')]),
('c13-composite-stops', 'C13', [(I, '''                    case HsmEventStatus::PENDING:
                        res = singleTransitionResult;
                        acceptedStates.emplace_back(*it);
                        break;''', '''                    case HsmEventStatus::PENDING:
                        res = singleTransitionResult;
                        acceptedStates.emplace_back(*it);
                        acceptedStates.insert(acceptedStates.end(), mActiveStates.begin(), mActiveStates.end());
                        break;''')]),
('c14-args-shared', 'C14', [(I, 'eventInfo.args = std::make_shared<VariantVector_t>(std::move(args));', 'if (false == args.empty()) {\n            static const auto lastArgs = std::make_shared<VariantVector_t>();\n            *lastArgs = std::move(args);\n            eventInfo.args = lastArgs;\n        }')]),
('c14-sync-first', 'C14', [(I, '                mPendingEvents.emplace_back(eventInfo);\n', '                if (true == sync) {\n                    mPendingEvents.emplace_front(eventInfo);\n                } else {\n                    mPendingEvents.emplace_back(eventInfo);\n                }\n')]),
('c15-forced', 'C15', [(I, 'if (TransitionBehavior::REGULAR == it->transitionType) {\n            it->releaseLock', 'if (TransitionBehavior::ENTRYPOINT != it->transitionType) {\n            it->releaseLock')]),
('c15-norelease', 'C15', [(I, '            it->releaseLock();\n            it = mPendingEvents.erase(it);', '            it = mPendingEvents.erase(it);')]),
('c16-failed', 'C16 C17', [(I, 'status = (HsmEventStatus::DONE_OK == *eventInfo.transitionStatus);', 'status = (HsmEventStatus::DONE_FAILED != *eventInfo.transitionStatus);')]),
('c16-pending', 'C16 C17', [(I, 'if (HsmEventStatus::PENDING != res) {\n                            res = singleTransitionResult;\n                        }', 'res = singleTransitionResult;')]),
('c17-order', 'C17', [(T, '''        if (timeoutMs > 0) {''', '''        if (HsmEventStatus::PENDING != *transitionStatus) {
            return;
        }

        lck.unlock();
        lck.lock();

        if (timeoutMs > 0) {'''), (T, 'syncProcessed->wait(lck, [=]() { return (HsmEventStatus::PENDING != *transitionStatus); });', 'syncProcessed->wait(lck);')]),
('c17-nolock', 'C17', [(T, '                UniqueLock lck(*cvLock);\n\n                // first final', '                // first final')]),
('c18-onelevel', 'C18', [(I, 'continueSearch = getParentState(curState, curState);', 'continueSearch = (curState == fromState) && getParentState(curState, curState);')]),
('c18-args', 'C18', [(I, '    if (true == possible) {\n        nextEvent = event;\n        possible = findTransitionTarget(currentState, nextEvent, args, true,', '    if (true == possible) {\n        nextEvent = event;\n        possible = findTransitionTarget(currentState, nextEvent, (currentState == fromState) ? args : VariantVector_t(), true,')]),
('c18-inherit', 'C18', [(I, 'for (const StateID_t& state : mActiveStates) {\n        possible', 'for (const StateID_t& state : mActiveStates) {\n        if (hasSubstates(state)) {\n            continue;\n        }\n\n        possible')]),
('c19-states', 'C19', [(I, 'mFailedTransitionCallback(activeStatesSnapshot, event.id, event.getArgs());', 'mFailedTransitionCallback(sourceStates, event.id, event.getArgs());')]),
('c19-refused', 'C19', [(I, '    if (mFailedTransitionCallback && ((HsmEventStatus::DONE_FAILED == res)', '    if (mFailedTransitionCallback && (activeStatesSnapshot == mActiveStates) && ((HsmEventStatus::DONE_FAILED == res)')]),
('c20-or', 'C20', [(I, 'if ((INVALID_HSM_DISPATCHER_HANDLER_ID != mEventsHandlerId) &&\n                        (INVALID', 'if ((INVALID_HSM_DISPATCHER_HANDLER_ID != mEventsHandlerId) ||\n                        (INVALID')]),
('c20-entry-cond', 'C20', [(I, '            if (true == getEntryPoints(mInitialState, INVALID_HSM_EVENT_ID, VariantVector_t(), entryPoints)) {', '            if ((true == mPendingEvents.empty()) && (true == getEntryPoints(mInitialState, INVALID_HSM_EVENT_ID, VariantVector_t(), entryPoints))) {')]),
('c21-action-inline', 'C21', [(B, '    {\n        LockGuard lck(mEmitSync);\n        mPendingActions.emplace_back(std::move(actionCallback));\n    }\n\n    notify', '    {\n        LockGuard lck(mEmitSync);\n        mPendingActions.emplace_back(std::move(actionCallback));\n    }\n\n    if (true == mStopDispatcher) {\n        dispatchPendingActions();\n    }\n\n    notify')]),
('c21-flag', 'C21', [(I, 'HsmEventStatus transitiontStatus = doTransition(pendingEvent);', 'if (true == pendingEvent.isSync()) {\n                    mIsDispatching.clear();\n                }\n\n                HsmEventStatus transitiontStatus = doTransition(pendingEvent);')]),
('c22-one-arg', 'C22', [(I, 'if (actionInfo.actionArgs.size() > 1U) {', 'if (actionInfo.actionArgs.size() > 2U) {')]),
('c22-valid-bool', 'C22', [(I, 'newAction.actionArgs[1].isNumeric() && newAction.actionArgs[2].isBool();', 'newAction.actionArgs[1].isNumeric() && (newAction.actionArgs[2].isBool() || newAction.actionArgs[2].isNumeric());')]),
('c22-action-first', 'C22', [(I, '    bool res = true;\n    auto it = mRegisteredStates.find(state);\n\n    if ((mRegisteredStates.end() != it) && it->second.onExiting) {', '    bool res = true;\n    auto it = mRegisteredStates.find(state);\n\n    if (mRegisteredStates.end() == it) {\n        return res;\n    }\n\n    if (it->second.onExiting) {')]),
('c23-release', 'C23', [(I, '        dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);\n        mDispatcher.reset();\n        mEventsHandlerId =', '        if (INVALID_HSM_DISPATCHER_HANDLER_ID == mTimerHandlerId) {\n            dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);\n        }\n        mDispatcher.reset();\n        mEventsHandlerId =')]),
('c23-invalid', 'C23', [(I, 'auto it = mTimers.find(id);\n\n    if (mTimers.end() != it) {', 'auto it = mTimers.lower_bound(id);\n\n    if (mTimers.end() != it) {')]),
('c24-stop-on-false', 'C24', [(B, '            if (callback) {\n                callback(it->eventID);\n            }', '            if (callback && (false == callback(it->eventID))) {\n                break;\n            }')]),
('c24-swap', 'C24', [(B, '            currentEvents = mEnqueuedEvents;\n            mEnqueuedEvents.clear();', '            currentEvents.swap(mEnqueuedEvents);\n            mEnqueuedEvents.reserve(currentEvents.size());')]),
('c24-handler-cache-fail', 'C24', [(B, 'prevHandlerID = it->handlerID;\n            }', 'prevHandlerID = it->handlerID;\n            }\n\n            if (!callback) {\n                break;\n            }')]),
('c25-reuse', 'C25', [(B, '        LockGuard lck(mHandlersSync);\n        mEventHandlers.erase(handlerID);', '        LockGuard lck(mHandlersSync);\n\n        if ((mEventHandlers.erase(handlerID) > 0) && ((handlerID + 1) == mNextHandlerId)) {\n            --mNextHandlerId;\n        }')]),
('c25-timer-sep', 'C25', [(B, '    LockGuard lck(mHandlersSync);\n    const HandlerID_t newID = getNextHandlerID();\n\n    mTimer', '    LockGuard lck(mHandlersSync);\n    const HandlerID_t newID = (mTimerHandlers.empty() ? getNextHandlerID() : (mTimerHandlers.rbegin()->first + 1));\n\n    mTimer')]),
('c26-unique', 'C26', [(B, '        events = std::move(mPendingEvents);\n    }', '        events = std::move(mPendingEvents);\n        events.unique();\n    }')]),
('c26-stop', 'C26', [(B, 'for (auto it = events.begin(); (it != events.end()) && (false == mStopDispatcher); ++it) {', 'for (auto it = events.begin(); it != events.end(); ++it) {')]),
('c27-loop', 'C27', [(B, '''    for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {
        actionCallback();
    }''', '''    for (auto it = actionsSnapshot.begin(); it != actionsSnapshot.end(); ++it) {
        (*it)();
        LockGuard lck(mEmitSync);
        actionsSnapshot.splice(actionsSnapshot.end(), mPendingActions);
    }''')]),
('c27-after-events', 'C27', [(B, '    std::list<HandlerID_t> events;\n\n    dispatchPendingActions();\n\n', '    std::list<HandlerID_t> events;\n\n    dispatchEnqueuedEvents();\n    dispatchPendingActions();\n\n')]),
('c27-copy-clear', 'C27', [(B, '''        LockGuard lck(mEmitSync);
        actionsSnapshot = std::move(mPendingActions);
    }

    for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {
        actionCallback();
    }''', '''        LockGuard lck(mEmitSync);
        actionsSnapshot = mPendingActions;
    }

    for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {
        actionCallback();
    }

    LockGuard lck(mEmitSync);
    mPendingActions.clear();''')]),
('c28-restart-handler', 'C28', [(B, '                it->second.handlerID = handlerID;\n                it->second.intervalMs = intervalMs;', '                it->second.intervalMs = intervalMs;')]),
('c28-one-timer', 'C28', [(B, '                itTimer = mActiveTimers.erase(itTimer);\n            } else {\n                ++itTimer;\n            }', '                mActiveTimers.erase(itTimer);\n                break;\n            } else {\n                ++itTimer;\n            }')]),
('c29-reset-late', 'C29', [(S, '''                const bool isRequested = mWakeupRequested;

                // everything added after this point will request another wake up
                mWakeupRequested = false;

''', '''                const bool isRequested = mWakeupRequested;

'''), (S, '            HSM_TRACE_DEBUG("woke up");\n        }\n    }', '            HSM_TRACE_DEBUG("woke up");\n            lck.unlock();\n            lck.lock();\n            mWakeupRequested = false;\n        } \n    }')]),
('c29-clear-after-dispatch', 'C29', [(S, '        HsmEventDispatcherBase::dispatchPendingEvents();\n\n        if (false == mStopDispatcher) {\n            // NOTE: signal', '        HsmEventDispatcherBase::dispatchPendingEvents();\n\n        if (false == mStopDispatcher) {\n            {\n                CriticalSection cs(mWakeupSync);\n                mWakeupRequested = !mPendingEvents.empty();\n            }\n            // NOTE: signal')]),
('c30-timers-flag', 'C30', [(S, '    HsmEventDispatcherBase::stop();\n    notifyDispatcherAboutEvent();\n    notifyTimersThread();', '    notifyTimersThread();\n    HsmEventDispatcherBase::stop();\n    notifyDispatcherAboutEvent();')]),
('c30-join-order', 'C30', [(S, '''    if (true == mDispatcherThread.joinable()) {
        mDispatcherThread.join();
    }

    if (true == mTimersThread.joinable()) {
        mTimersThread.join();
    }''', '''    if (true == mTimersThread.joinable()) {
        mTimersThread.join();
    }

    if (true == mDispatcherThread.joinable()) {
        mDispatcherThread.join();
    }''')]),
('c31-catch-up', 'C31', [(S, '                it->second.startedAt = wakeupTime;\n                it->second.elapseAfter = it->second.startedAt', '                it->second.startedAt = it->second.elapseAfter;\n                it->second.elapseAfter = it->second.startedAt')]),
('c31-now', 'C31', [(S, '''        isExpired = (mRunningTimers.end() != it) && (it->second.elapseAfter <= wakeupTime);''', '''        isExpired = (mRunningTimers.end() != it);''')]),
('c31-first', 'C31', [(S, 'if (it->second.elapseAfter < itTimeout->second.elapseAfter) {', 'if (it->second.startedAt < itTimeout->second.startedAt) {')]),
('c32-millis-twice', 'C32', [(A, 'newTimer.elapseAfter = newTimer.startedAt + intervalMs;', 'newTimer.elapseAfter = millis() + intervalMs;')]),
('c32-first-only', 'C32', [(A, '                    it->second.elapseAfter += it->second.startedAt;\n                    ++it;', '                    it->second.elapseAfter += it->second.startedAt;\n                    break;')]),
('c32-signed', 'C32', [(A, 'if ((curTime - it->second.startedAt) >= (it->second.elapseAfter - it->second.startedAt)) {', 'if (static_cast<int32_t>(curTime - it->second.elapseAfter) >= 0) {')]),
('c33-eintr', 'C33', [(G, '    } while ((bytes < 0) && (EINTR == errno));', '    } while (false);')]),
('c33-leak-timer', 'C33', [(G, '                    g_source_unref(itTimer->second);\n                    pThis->mNativeTimerHandlers.erase(itTimer);', '                    pThis->mNativeTimerHandlers.erase(itTimer);')]),
('c33-close-one', 'C33', [(G, '        close(mPipeFD[0]);\n        close(mPipeFD[1]);\n        mPipeFD[0] = -1;\n        mPipeFD[1] = -1;\n    }\n}', '        close(mPipeFD[0]);\n\n        if (mPipeFD[1] > 3) {\n            close(mPipeFD[1]);\n        }\n        mPipeFD[0] = -1;\n        mPipeFD[1] = -1;\n    }\n}')]),
('c33-read-zero', 'C33', [(G, 'if (1 == bytes) {', 'if ((1 == bytes) && !(condition & G_IO_ERR)) {')]),
('c34-qt-actual', 'C34', [(Q, "isActualTimer = (mNativeTimerHandlers.end() != itTimer) && (itTimer->second == ptrTimer);", "isActualTimer = (mNativeTimerHandlers.end() != itTimer);")]),
('c34-freertos-tick', 'C34', [(F, "return (intervalMs / portTICK_PERIOD_MS) + (((intervalMs % portTICK_PERIOD_MS) > 0) ? 1 : 0);", "return (intervalMs + portTICK_PERIOD_MS / 2) / portTICK_PERIOD_MS;")]),
('c34-gmm-erase', 'C34', [(GM, '        it->second.disconnect();\n        mNativeTimerHandlers.erase(it);', '        mNativeTimerHandlers.erase(it);')]),
('c34-freertos-reload', 'C34', [(F, '        { vTimerSetReloadMode(timer, reloadMode); }', '        if (mNativeTimerHandlers.end() == it) { vTimerSetReloadMode(timer, reloadMode); }')]),
('c35-wait', 'C35', [(I, '        mIsDispatching.wait(true);\n', '        if (false == mPendingEvents.empty()) {\n            mIsDispatching.wait(true);\n        }\n')]),
('c35-enqueued', 'C35', [(I, '        dispatcherPtr->unregisterEventHandler(mEventsHandlerId);\n        dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);\n        dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);\n        mDispatcher.reset();\n        mEventsHandlerId =', '        dispatcherPtr->unregisterEventHandler(mEventsHandlerId);\n        dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);\n        mDispatcher.reset();\n        mEventsHandlerId =')]),
('c35-timer-stop', 'C35', [(I, 'if (pThis && (false == pThis->mStopDispatching)) {\n            pThis->dispatchTimerEvent', 'if (pThis) {\n            pThis->dispatchTimerEvent')]),
('c36-emit-first', 'C36', [(B, '''    {
        LockGuard lck(mEmitSync);
        mPendingEvents.emplace_back(handlerID);
    }

    notifyDispatcherAboutEvent();

    // NOTE: this''', '''    notifyDispatcherAboutEvent();

    {
        LockGuard lck(mEmitSync);
        mPendingEvents.emplace_back(handlerID);
    }

    // NOTE: this''')]),
('c36-unlocked-check', 'C36', [(I, '''            {
                HSM_SYNC_EVENTS_QUEUE();
                hasPendingEvents = (false == mPendingEvents.empty());
            }

            if ((false == mStop''', '''            hasPendingEvents = (false == mPendingEvents.empty());

            if ((false == mStop''')]),
('c37-stop-lock', 'C37', [(S, '    HsmEventDispatcherBase::stop();\n    notifyDispatcherAboutEvent();', '    HsmEventDispatcherBase::stop();\n    unregisterAllEventHandlers();\n    notifyDispatcherAboutEvent();')]),
('c37-lock-order', 'C37', [(S, '        if (nextIntervalMs > 0u) {\n            // restart timer', '        if (nextIntervalMs > 0u) {\n            // restart timer'), (S, 'const unsigned int nextIntervalMs = handleTimerEventLocked(timerID);\n        CriticalSection cs(mRunningTimersSync);', 'CriticalSection cs(mRunningTimersSync);\n        const unsigned int nextIntervalMs = handleTimerEventLocked(timerID);')]),
('c38-binary', 'C38', [(V, ': Variant(ByteArray_t(binaryData, &binaryData[bytesCount])) {}', ': Variant(ByteArray_t(binaryData, &binaryData[(bytesCount > 256U) ? 256U : bytesCount])) {}')]),
('c38-assign-short', 'C38', [(V, 'IMPL_OPERATOR_ASSIGN(uint16_t, Type::UBYTE_2)', 'IMPL_OPERATOR_ASSIGN(uint16_t, Type::BYTE_2)')]),
('c39-stoull', 'C39', [(V, 'result = std::stoull(toString());', 'result = static_cast<uint64_t>(std::stoll(toString()));')]),
('c39-double-u64', 'C39', [(V, 'result = static_cast<double>(*value<uint64_t>());', 'result = static_cast<double>(static_cast<int64_t>(*value<uint64_t>()));')]),
('c39-bool-num', 'C39', [(V, 'result = (0 != std::stoll(strValue));', 'result = (0 < std::stoll(strValue));')]),
('c40-shallow', 'C40', [(V, '            data = v.memoryAllocator(v.data.get());', '            data = ((Type::PAIR == v.type) ? v.data : v.memoryAllocator(v.data.get()));')]),
('c40-move', 'C40', [(V, '        v.type = Type::UNKNOWN;\n', '        if (false == isNumeric()) {\n            v.type = Type::UNKNOWN;\n        }\n')]),
('c41-bool', 'C41', [(V, 'isGreater = (1 == compareOperator(data.get(), val.data.get()));', 'isGreater = (0 != compareOperator(data.get(), val.data.get()));')]),
('c41-mixed', 'C41', [(V, 'const bool isRightNegative = (false == right.isUnsignedNumeric()) && (right.toInt64() < 0);', 'const bool isRightNegative = (right.toInt64() < 0);')]),
('c42-u64', 'C42', [(V, 'result = std::to_string(*(value<uint64_t>()));', 'result = std::to_string(*(value<int64_t>()));')]),
('c42-bytes', 'C42', [(V, 'result.assign(val->begin(), val->end());\n            break;\n        }\n        case Type::VECTOR: {\n            std::shared_ptr<VariantVector_t> val', 'result = val->empty() ? "" : std::string(reinterpret_cast<const char*>(val->data()), strnlen(reinterpret_cast<const char*>(val->data()), val->size()));\n            break;\n        }\n        case Type::VECTOR: {\n            std::shared_ptr<VariantVector_t> val')]),
('c43-map', 'C43', [(VH, 'res.insert(std::make_pair(converterKey(curItem.first), converterValue(curItem.second)));', 'res.insert(res.end(), std::make_pair(converterKey(curItem.first), converterValue(res.empty() ? curItem.second : mapData->begin()->second)));')]),
('c43-list-accessor', 'C43', [(V, '    if (true == isList()) {\n        result = value<VariantList_t>();', '    if ((true == isList()) || (true == isVector())) {\n        result = value<VariantList_t>();')]),
('c44-move', 'C44', [(U, '    if (mOwnsLock) {\n        unlock();\n    }\n\n', '')]),
('c44-unblock', 'C44', [(IFP, 'pthread_sigmask(SIG_SETMASK, &mOriginalSigMask, nullptr);', 'sigset_t all;\n    sigfillset(&all);\n    pthread_sigmask(SIG_UNBLOCK, &all, nullptr);')]),
('c45-wait', 'C45', [(AFS, 'mWaitCond.wait(lk, [&]() { return (mValue.load() != old); });', 'mWaitCond.wait(lk);')]),
('c45-waitfor', 'C45', [(CVS, '        res = mVariable.wait_for(lck, std::chrono::milliseconds(timeoutMs), stopWaiting);', '        res = stopWaiting() || ((std::cv_status::timeout != mVariable.wait_for(lck, std::chrono::milliseconds(timeoutMs))) && stopWaiting());')]),
('c46-exit-status', 'C46', [(I, '                     state,\n                     INVALID_HSM_STATE_ID,\n                     INVALID_HSM_EVENT_ID,\n                     (false == res),', '                     state,\n                     INVALID_HSM_STATE_ID,\n                     INVALID_HSM_EVENT_ID,\n                     (true == res) && isFinalState(state),')]),
('c46-entry-type', 'C46', [(I, '((TransitionBehavior::ENTRYPOINT != event.transitionType) ? HsmLogAction::TRANSITION', '((TransitionBehavior::REGULAR == event.transitionType) ? HsmLogAction::TRANSITION')]),
('c48-timers', 'C48', [(B, 'if (handlerID == itTimer->second.handlerID) {', 'if (handlerID >= itTimer->second.handlerID) {')]),
('c48-release-remove', 'C48', [(B, '        mPendingEvents.remove(handlerID);', '        mPendingEvents.remove_if([handlerID](const HandlerID_t id) { return (id >= handlerID); });')]),
]
