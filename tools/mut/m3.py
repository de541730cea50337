# Third campaign: API templates, Variant, event loop adapters, locks, code generator.
I = 'src/HsmImpl.cpp'; B = 'src/HsmEventDispatcherBase.cpp'; S = 'src/HsmEventDispatcherSTD.cpp'; V = 'src/variant.cpp'; VH = 'include/hsmcpp/variant.hpp'; U = 'src/os/common/UniqueLock.cpp'; T = 'src/HsmImplTypes.cpp'
HH = 'include/hsmcpp/hsm.hpp'; HC = 'src/hsm.cpp'; GL = 'src/HsmEventDispatcherGLib.cpp'; GM = 'src/HsmEventDispatcherGLibmm.cpp'; QT = 'src/HsmEventDispatcherQt.cpp'; FR = 'src/HsmEventDispatcherFreeRTOS.cpp'; AR = 'src/HsmEventDispatcherArduino.cpp'
CS = 'src/os/common/CriticalSection.cpp'; AF = 'src/os/stl/AtomicFlag.cpp'; CV = 'src/os/stl/ConditionVariable.cpp'; PY = 'tools/scxml2gen/scxml2gen.py'
M = [
('api-state-exit', 'C05 C04', [(HH, '    registerState(state, funcStateChanged, funcEntering, funcExiting);', '    registerState(state, funcStateChanged, funcEntering, (nullptr != onStateChanged) ? funcExiting : nullptr);')]),
('api-final-exit', 'C11 C03', [(HH, '    registerFinalState(state, event, funcStateChanged, funcEntering, funcExiting);', '    registerFinalState(state, event, funcStateChanged, nullptr, funcExiting);')]),
('api-hist-default', 'C10', [(HH, '    registerHistory(parent, historyState, type, defaultTarget, funcTransitionCallback);', '    registerHistory(parent, historyState, HistoryType::SHALLOW, defaultTarget, funcTransitionCallback);')]),
('api-entry-expected', 'C09 C07', [(HH, 'return registerSubstateEntryPoint(parent, substate, onEvent, condition, expectedConditionValue);', 'return registerSubstateEntryPoint(parent, substate, onEvent, condition);')]),
('api-transition-cond', 'C07', [(HH, '    registerTransition(fromState, toState, onEvent, funcTransitionCallback, funcConditionCallback, expectedConditionValue);', '    registerTransition(fromState, toState, onEvent, funcTransitionCallback, funcConditionCallback);')]),
('api-self-type', 'C12', [(HH, '    registerSelfTransition(state, onEvent, type, funcTransitionCallback, funcConditionCallback, expectedConditionValue);', '    registerSelfTransition(state, onEvent, TransitionType::EXTERNAL_TRANSITION, funcTransitionCallback, funcConditionCallback, expectedConditionValue);')]),
('api-self-expected', 'C07 C12', [(HH, '    registerSelfTransition(state, onEvent, type, funcTransitionCallback, funcConditionCallback, expectedConditionValue);', '    registerSelfTransition(state, onEvent, type, funcTransitionCallback, funcConditionCallback);')]),
('api-clear-async', 'C15', [(HH, '    (void)transitionEx(event, true, false, 0, std::forward<Args>(args)...);', '    (void)transitionEx(event, (sizeof...(Args) < 2U), false, 0, std::forward<Args>(args)...);')]),
('api-sync-timeout', 'C16 C17', [(HH, 'return transitionEx(event, false, true, timeoutMs, std::forward<Args>(args)...);', 'return transitionEx(event, false, true, (sizeof...(Args) > 0U) ? 0 : timeoutMs, std::forward<Args>(args)...);')]),
('api-possible-args', 'C18', [(HH, '    return isTransitionPossibleImpl(event, eventArgs);', '    return isTransitionPossibleImpl(event, (eventArgs.size() > 1U) ? eventArgs : VariantVector_t());')]),
('impl-enter-needs-changed', 'C03 C04 C05 C06', [(I, 'if ((mRegisteredStates.end() != it) && it->second.onEntering) {', 'if ((mRegisteredStates.end() != it) && it->second.onEntering && it->second.onStateChanged) {')]),
('v-str-double', 'C39', [(V, '                result = std::stoll(toString());', '                result = static_cast<int64_t>(std::stod(toString()));')]),
('v-bool-one', 'C39', [(V, 'result = (0 != std::stoll(strValue));', 'result = ("1" == strValue);')]),
('v-eq-sign', 'C41', [(V, 'equal = (0 == compareIntegers(*this, val));', 'equal = (isSignedNumeric() == val.isSignedNumeric()) && (0 == compareIntegers(*this, val));')]),
('v-float-text', 'C42', [(V, 'result = std::to_string(*(value<double>()));', 'result = std::to_string(static_cast<float>(*(value<double>())));')]),
('v-binary-zero', 'C38', [(V, ': Variant(ByteArray_t(binaryData, &binaryData[bytesCount])) {}', ': Variant(ByteArray_t(binaryData, &binaryData[strnlen(binaryData, bytesCount)])) {}')]),
('v-map-text', 'C42', [(V, '.append("=[").append(item.second.toString()).append("]")', '.append("=[").append(item.second.isMap() ? std::string() : item.second.toString()).append("]")')]),
('v-short-bytes', 'C38 C39 C42', [(V, '            static_cast<void>(memcpy(result.data(), data.get(), sizeof(int16_t)));', '            result[0] = static_cast<unsigned char>(toInt64() & 0xFF);\n            result[1] = static_cast<unsigned char>((toInt64() >> 7) & 0xFF);')]),
('v-u32', 'C39', [(V, '        case Type::UBYTE_4:\n            result = static_cast<int64_t>(*value<uint32_t>());', '        case Type::UBYTE_4:\n            result = static_cast<int64_t>(*value<int32_t>());')]),
('v-list-bytes', 'C42 C43 C39', [(V, '            std::shared_ptr<VariantList_t> data = value<VariantList_t>();\n\n            // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator\n            if (data) {', '            std::shared_ptr<VariantList_t> data = value<VariantList_t>();\n\n            // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator\n            if (data && (data->size() < 3U)) {')]),
('gl-two-wakeups', 'C33', [(GL, 'char dummy;\n            int bytes = read(pThis->mPipeFD[0], &dummy, sizeof(dummy));', 'char dummy[2];\n            int bytes = read(pThis->mPipeFD[0], dummy, sizeof(dummy));')]),
('gm-stop-keeps', 'C34', [(GM, '        it->second.disconnect();\n        mNativeTimerHandlers.erase(it);', '        mNativeTimerHandlers.erase(it);')]),
('gm-stop-all', 'C34', [(GM, '        it->second.disconnect();\n    }\n\n    mNativeTimerHandlers.clear();', '        it->second.disconnect();\n    }\n')]),
('gl-stop-fd', 'C33', [(GL, '        mReadChannel = nullptr;\n        close(mPipeFD[0]);\n        close(mPipeFD[1]);\n        mPipeFD[0] = -1;', '        mReadChannel = nullptr;\n        close(mPipeFD[0]);\n        close(mPipeFD[1]);\n        mPipeFD[0] = mPipeFD[1];')]),
('qt-clear', 'C34', [(QT, '        it->second->deleteLater();\n    }\n\n    mNativeTimerHandlers.clear();', '        it->second->deleteLater();\n    }\n')]),
('fr-actions', 'C34', [(FR, '            pThis->dispatchPendingActions();\n', '            if (false == pThis->mPendingEvents.empty()) {\n                pThis->dispatchPendingActions();\n            }\n')]),
('fr-wait-always', 'C34', [(FR, '                if (true == noPendingEvents) {\n', '                if ((true == noPendingEvents) || (false == events.empty())) {\n')]),
('ar-order', 'C32', [(AR, '        handleTimers();\n        HsmEventDispatcherBase::dispatchPendingEvents();', '        if (true == mPendingEvents.empty()) {\n            handleTimers();\n        }\n        HsmEventDispatcherBase::dispatchPendingEvents();')]),
('cs-order', 'C24 C44', [(CS, '    : mSync(sync)\n    , mInterruptsBlock(new InterruptsFreeSection()) {\n    mSync.lock();', '    : mSync(sync) {\n    mSync.lock();\n    mInterruptsBlock.reset(new InterruptsFreeSection());')]),
('af-tas', 'C45 C37', [(AF, '    return mValue.exchange(true);', '    const bool old = mValue.load();\n    mValue.store(true);\n    return old;')]),
('cv-owns', 'C45 C44', [(CV, '    if (true == sync.owns_lock()) {\n        lck.release();\n        sync.unlock();\n    }\n\n    return res;', '    if (true == sync.owns_lock()) {\n        lck.release();\n        if (true == res) {\n            sync.unlock();\n        }\n    }\n\n    return res;')]),
('ul-move-owns', 'C44', [(U, '    , mOwnsLock(src.mOwnsLock) {\n    src.mSync = nullptr;\n    src.mOwnsLock = false;', '    , mOwnsLock(src.mOwnsLock) {\n    src.mSync = nullptr;')]),
('log-args-text', 'C46', [(I, '((curArg.isNumeric() || curArg.isBool()) ? curArg.toString() : toLogString(curArg.toString()))', '(curArg.isString() ? toLogString(curArg.toString()) : curArg.toString())')]),
('log-states-order', 'C46', [(I, '        for (const auto& curState : mActiveStates) {\n            *mHsmLog << "\\n    - " << toLogString(getStateName(curState));\n        }', '        for (const auto& curState : mActiveStates) {\n            if (curState != fromState) {\n                *mHsmLog << "\\n    - " << toLogString(getStateName(curState));\n            }\n        }')]),
('py-identifier-newline', 'C47', [(PY, '    p = re.compile("[a-zA-Z_][a-zA-Z0-9_]*")\n    if p.fullmatch(identifier) is None:', '    p = re.compile("^[a-zA-Z_][a-zA-Z0-9_]*$")\n    if p.match(identifier) is None:')]),
('py-cond-substring', 'C47', [(PY, '            if (callback[1] != "true") and (callback[1] != "false"):', '            if callback[1] not in "true|false":')]),
('py-cond-lower', 'C47', [(PY, 'callback = [temp[0].strip(" \\t"), temp[1].strip(" \\t").lower()]', 'callback = [temp[0].strip(" \\t"), temp[1].lower()]')]),
('py-final-unvalidated', 'C47', [(PY, '                            validateIdentifier(newState["final_event"])\n', '')]),
('py-entry-one', 'C49', [(PY, '                        initialStatesTransitions[initialStateName].append(transitionInfo)', '                        initialStatesTransitions[initialStateName] = [transitionInfo]')]),
('py-action-args', 'C49', [(PY, "        for i in range(1, len(actionInfo['args'])):", "        for i in range(1, min(3, len(actionInfo['args']))):")]),
('py-history-target', 'C49', [(PY, "                                defaultTransition = curSubstate['transitions'][0]", "                                defaultTransition = curSubstate['transitions'][-1]")]),
('py-exit-callback-once', 'C49', [(PY, "                genVars[\"HSM_STATE_EXITING_ACTIONS\"].add(prepareHsmcppStateExitCallbackDeclaration(curState['onexit']))\n", "                if curState['onexit'] not in definedCallbacks:\n                    genVars[\"HSM_STATE_EXITING_ACTIONS\"].add(prepareHsmcppStateExitCallbackDeclaration(curState['onexit']))\n")]),
('py-final-event-any', 'C49', [(PY, "                    if \"final_event\" in curState:\n                        genVars", "                    if (\"final_event\" in curState) and (curState['final_event'] not in genVars['ENUM_EVENTS_ITEM']):\n                        genVars")]),
('py-include-prefix', 'C49', [(PY, '                                newTransition["target"] = namePrefix + curTransition.attrib["target"]', '                                newTransition["target"] = (namePrefix if len(states) == 0 else "") + curTransition.attrib["target"]')]),
('py-entry-cond-expected', 'C49', [(PY, "currentCondition += f\", {curTransition['condition'][1]}\"", "currentCondition += f\", {curTransition['condition'][1]}\" if 'event' in curTransition else \"\"")]),
]
