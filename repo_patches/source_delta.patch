From 5fe38cf8b736a6bee1b1a4c34f90644be0a3555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 01/59] fix: keep a re-entered state active when a self
 transition is combined with another transition

---
 src/HsmImpl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index b00c921..beb83ae 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1131,7 +1131,13 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
     }
 
     if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {
-        if (true == replaceActiveState(fromState, curTransition.destinationState)) {
+        // NOTE: regular transitions already deactivated all exited states, and "fromState" might have been activated again by
+        //       another transition for the same event (external self transition)
+        const bool wasActivated = ((TransitionBehavior::FORCED == event.transitionType)
+                                       ? replaceActiveState(fromState, curTransition.destinationState)
+                                       : addActiveState(curTransition.destinationState));
+
+        if (true == wasActivated) {
             onStateChanged(curTransition.destinationState, event.getArgs());
         }
 
-- 
2.43.0


From 647284340c214fadb46f1a45c268f58ffc9d4ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 02/59] fix: restore states of a cancelled transition parents
 first

---
 src/HsmImpl.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index beb83ae..86cfee2 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1176,11 +1176,12 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             }
         }
     } else {
-        for (const StateID_t& curState : exitedStates) {
+        // states must be restored starting from parents to keep children after their parents in the list of active states
+        for (auto itState = exitedStates.rbegin(); itState != exitedStates.rend(); ++itState) {
             // to prevent infinite loops we don't allow state to cancel transition
-            (void)onStateEntering(curState, VariantVector_t());
-            (void)addActiveState(curState);
-            onStateChanged(curState, VariantVector_t());
+            (void)onStateEntering(*itState, VariantVector_t());
+            (void)addActiveState(*itState);
+            onStateChanged(*itState, VariantVector_t());
         }
     }
 
@@ -1321,10 +1322,14 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
             else {
                 for (const auto& curState : outExitedStates) {
                     mActiveStates.remove(curState);
+                }
+
+                // states must be restored starting from parents to keep children after their parents in the list of active states
+                for (auto itState = outExitedStates.rbegin(); itState != outExitedStates.rend(); ++itState) {
                     // to prevent infinite loops we don't allow state to cancel transition
-                    (void)onStateEntering(curState, VariantVector_t());
-                    mActiveStates.emplace_back(curState);
-                    onStateChanged(curState, VariantVector_t());
+                    (void)onStateEntering(*itState, VariantVector_t());
+                    (void)addActiveState(*itState);
+                    onStateChanged(*itState, VariantVector_t());
                 }
             }
         }
-- 
2.43.0


From a4cc471653b7e3c01083ea909aab5a1a9c1910eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 03/59] fix: stop exiting states for further transitions of an
 event once an exit was refused

---
 src/HsmImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 86cfee2..d93f312 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1331,6 +1331,9 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
                     (void)addActiveState(*itState);
                     onStateChanged(*itState, VariantVector_t());
                 }
+
+                // other transitions for this event are canceled too
+                break;
             }
         }
     }
-- 
2.43.0


From 77e6f056018aa15630e4bc2882175c5819db1df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 04/59] fix: execute history transitions once instead of once
 for every active state

---
 src/HsmImpl.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index d93f312..80b6b1a 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1048,13 +1048,20 @@ bool HierarchicalStateMachine::Impl::findTransitionTarget(const StateID_t fromSt
 HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventInfo& event) {
     HSM_TRACE_CALL_DEBUG_ARGS("event=<%s>, transitionType=%d", getEventName(event.id).c_str(), SC2INT(event.transitionType));
     HsmEventStatus res = HsmEventStatus::DONE_FAILED;
+    const bool isForcedTransition = (TransitionBehavior::FORCED == event.transitionType);
     auto activeStatesSnapshot = mActiveStates;
+    auto sourceStates = activeStatesSnapshot;
     std::list<StateID_t> acceptedStates;  // list of states that accepted transitions
 
-    for (auto it = activeStatesSnapshot.rbegin(); it != activeStatesSnapshot.rend(); ++it) {
+    if (true == isForcedTransition) {
+        // history transitions have a fixed source and must be executed only once (not for every active state)
+        sourceStates = {event.forcedTransitionsInfo->front().fromState};
+    }
+
+    for (auto it = sourceStates.rbegin(); it != sourceStates.rend(); ++it) {
         // in case of parallel transitions some states might become inactive after handleSingleTransition()
         // example: [*B, *C] -> D
-        if (true == isStateActive(*it)) {
+        if ((true == isForcedTransition) || (true == isStateActive(*it))) {
             // we don't need to process transitions for active states if their child already processed it
             bool childStateProcessed = false;
 
-- 
2.43.0


From b0124c7036366ca32685a37e7260896adac71dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 05/59] fix: restore parallel regions from deep history parents
 first and without default entry

---
 src/HsmImpl.cpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 80b6b1a..b344cc0 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1374,36 +1374,29 @@ bool HierarchicalStateMachine::Impl::processHistoryTransition(const PendingEvent
 void HierarchicalStateMachine::Impl::transitionToPreviousActiveStates(std::list<StateID_t>& previousActiveStates,
                                                                       const PendingEventInfo& event,
                                                                       const StateID_t destinationState) {
-    StateID_t prevChildState = INVALID_HSM_STATE_ID;
     PendingEventInfo historyTransitionEvent = event;
 
     historyTransitionEvent.transitionType = TransitionBehavior::FORCED;
-    historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();
 
     {
         HSM_SYNC_EVENTS_QUEUE();
 
+        // NOTE: states were stored in the order they were exited (children first). since each new event is added to the front of
+        //       the queue they will be activated in reverse order (parents first)
         for (const StateID_t prevState : previousActiveStates) {
-            if ((INVALID_HSM_STATE_ID != prevChildState) && (true == isSubstateOf(prevState, prevChildState))) {
-                if (false == historyTransitionEvent.forcedTransitionsInfo->empty()) {
-                    mPendingEvents.push_front(historyTransitionEvent);
-                }
-
-                historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();
-                historyTransitionEvent.ignoreEntryPoints = true;
-            } else {
-                historyTransitionEvent.ignoreEntryPoints = false;
-            }
-
-            prevChildState = prevState;
+            // substates of this state will be restored by their own transition
+            historyTransitionEvent.ignoreEntryPoints =
+                std::any_of(previousActiveStates.begin(), previousActiveStates.end(), [&](const StateID_t otherState) {
+                    return ((prevState != otherState) && (true == isSubstateOf(prevState, otherState)));
+                });
+            historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();
             historyTransitionEvent.forcedTransitionsInfo->emplace_back(destinationState,
                                                                        prevState,
                                                                        TransitionType::EXTERNAL_TRANSITION,
                                                                        nullptr,
                                                                        nullptr);
+            mPendingEvents.push_front(historyTransitionEvent);
         }
-
-        mPendingEvents.push_front(historyTransitionEvent);
     }
 
     previousActiveStates.clear();
-- 
2.43.0


From c1aa5ef9e6d961f42ae037af708bf372c51cfe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 06/59] fix: queue the entry transition of an event only once
 when several composite states are entered

---
 src/HsmImpl.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index b344cc0..507191c 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1171,7 +1171,16 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
 
                     {
                         HSM_SYNC_EVENTS_QUEUE();
-                        mPendingEvents.push_front(entryPointTransitionEvent);
+                        // entry transition handles all active states, so it's needed only once per event
+                        const bool isAlreadyPending =
+                            std::any_of(mPendingEvents.begin(), mPendingEvents.end(), [&event](const PendingEventInfo& item) {
+                                return ((TransitionBehavior::ENTRYPOINT == item.transitionType) && (event.id == item.id) &&
+                                        (event.args == item.args));
+                            });
+
+                        if (false == isAlreadyPending) {
+                            mPendingEvents.push_front(entryPointTransitionEvent);
+                        }
                     }
                     res = HsmEventStatus::PENDING;
                 } else {
-- 
2.43.0


From 62f2eb7033ff1b62c85454dc2ee4b2632188aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:53 +0000
Subject: [PATCH 07/59] fix: do not start entry transition of a composite state
 which already has active substates

---
 src/HsmImpl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 507191c..bec8e02 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1160,7 +1160,9 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             if (false == event.ignoreEntryPoints) {
                 std::list<StateID_t> entryPoints;
 
-                if (true == getEntryPoints(curTransition.destinationState, event.id, event.getArgs(), entryPoints)) {
+                // NOTE: state could be already active with its substates (parallel transitions)
+                if ((false == hasActiveChildren(curTransition.destinationState, true)) &&
+                    (true == getEntryPoints(curTransition.destinationState, event.id, event.getArgs(), entryPoints))) {
                     HSM_TRACE_DEBUG("state <%s> has substates with %d entry points (first: <%s>)",
                                     getStateName(curTransition.destinationState).c_str(),
                                     SC2INT(entryPoints.size()),
-- 
2.43.0


From 9c973b148a6dffea7fd0060fb0b447617d82436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 08/59] fix: keep follow-up steps of ongoing transitions when
 the events queue is cleared

---
 src/HsmImpl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index bec8e02..f5df8fe 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1568,14 +1568,15 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
 void HierarchicalStateMachine::Impl::clearPendingEvents() {
     HSM_TRACE_CALL_DEBUG_ARGS("clearPendingEvents: mPendingEvents.size()=%ld", mPendingEvents.size());
 
-    for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()); ++it) {
+    for (auto it = mPendingEvents.begin(); it != mPendingEvents.end();) {
         // since ongoing transitions can't be canceled we need to treat entry point transitions as atomic
         if (TransitionBehavior::REGULAR == it->transitionType) {
             it->releaseLock();
+            it = mPendingEvents.erase(it);
+        } else {
+            ++it;
         }
     }
-
-    mPendingEvents.clear();
 }
 
 bool HierarchicalStateMachine::Impl::hasSubstates(const StateID_t parent) const {
-- 
2.43.0


From ea8c2785b7aeb43ef9a0f4bc8682f77daf22372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:49 +0000
Subject: [PATCH 09/59] fix: release synchronous caller only once, after the
 last step of its event

---
 src/HsmImpl.cpp      | 11 +++++++++++
 src/HsmImplTypes.cpp | 11 ++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index f5df8fe..0f03e77 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -641,6 +641,17 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
 
                 HsmEventStatus transitiontStatus = doTransition(pendingEvent);
 
+                // caller of synchronous transition must wait until all follow-up steps of this event are done
+                if ((HsmEventStatus::DONE_OK == transitiontStatus) && (true == pendingEvent.isSync())) {
+                    HSM_SYNC_EVENTS_QUEUE();
+
+                    if (std::any_of(mPendingEvents.begin(), mPendingEvents.end(), [&pendingEvent](const PendingEventInfo& item) {
+                            return (pendingEvent.cvLock == item.cvLock);
+                        })) {
+                        transitiontStatus = HsmEventStatus::PENDING;
+                    }
+                }
+
                 HSM_TRACE_DEBUG("unlock with status %d", SC2INT(transitiontStatus));
                 pendingEvent.unlock(transitiontStatus);
             }
diff --git a/src/HsmImplTypes.cpp b/src/HsmImplTypes.cpp
index 3406f41..630a5d3 100644
--- a/src/HsmImplTypes.cpp
+++ b/src/HsmImplTypes.cpp
@@ -170,9 +170,18 @@ void PendingEventInfo::unlock(const HsmEventStatus status) {
 
     if (true == isSync()) {
         HSM_TRACE_DEBUG("SYNC object (%p)", transitionStatus.get());
-        *transitionStatus = status;
 
         if (status != HsmEventStatus::PENDING) {
+            {
+                // status is checked by waiting thread while holding this lock
+                UniqueLock lck(*cvLock);
+
+                // first final status is the result of synchronous transition
+                if (HsmEventStatus::PENDING == *transitionStatus) {
+                    *transitionStatus = status;
+                }
+            }
+
             syncProcessed->notify();
         }
     } else {
-- 
2.43.0


From e311aef724c20563895ac7d43daa616993718856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:07 +0000
Subject: [PATCH 10/59] fix: release callers of pending synchronous transitions
 when HSM is released

---
 src/HsmImpl.cpp | 66 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 0f03e77..843dafc 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -181,6 +181,17 @@ void HierarchicalStateMachine::Impl::release() {
         mDispatcher.reset();
         mEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
 
+        {
+            // pending events will never be processed. release callers waiting for results of synchronous transitions
+            HSM_SYNC_EVENTS_QUEUE();
+
+            for (auto& pendingEvent : mPendingEvents) {
+                pendingEvent.releaseLock();
+            }
+
+            mPendingEvents.clear();
+        }
+
         // wait for current dispatching to finish if it's ongoing
         mIsDispatching.wait(true);
     }
@@ -426,26 +437,34 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
             eventInfo.initLock();
         }
 
+        bool wasAccepted = false;
+
         {
             HSM_SYNC_EVENTS_QUEUE();
 
-            if (true == clearQueue) {
-                clearPendingEvents();
-            }
+            // HSM could have been released in the meantime
+            if (false == mStopDispatching) {
+                if (true == clearQueue) {
+                    clearPendingEvents();
+                }
 
-            mPendingEvents.emplace_back(eventInfo);
+                mPendingEvents.emplace_back(eventInfo);
+                wasAccepted = true;
+            }
         }
 
-        HSM_TRACE_DEBUG("transitionEx: emit");
-        dispatcherPtr->emitEvent(mEventsHandlerId);
+        if (true == wasAccepted) {
+            HSM_TRACE_DEBUG("transitionEx: emit");
+            dispatcherPtr->emitEvent(mEventsHandlerId);
 
-        if (true == sync) {
-            HSM_TRACE_DEBUG("transitionEx: wait...");
-            eventInfo.wait(timeoutMs);
-            status = (HsmEventStatus::DONE_OK == *eventInfo.transitionStatus);
-        } else {
-            // always return true for async transitions
-            status = true;
+            if (true == sync) {
+                HSM_TRACE_DEBUG("transitionEx: wait...");
+                eventInfo.wait(timeoutMs);
+                status = (HsmEventStatus::DONE_OK == *eventInfo.transitionStatus);
+            } else {
+                // always return true for async transitions
+                status = true;
+            }
         }
     } else {
         HSM_TRACE_ERROR("HSM is not initialized");
@@ -630,15 +649,21 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
         UniqueLock lk = mIsDispatching.lock();
 
         if (false == mStopDispatching) {
-            if (false == mPendingEvents.empty()) {
-                PendingEventInfo pendingEvent;
+            bool hasPendingEvents = false;
+            PendingEventInfo pendingEvent;
 
-                {
-                    HSM_SYNC_EVENTS_QUEUE();
+            {
+                HSM_SYNC_EVENTS_QUEUE();
+
+                hasPendingEvents = (false == mPendingEvents.empty());
+
+                if (true == hasPendingEvents) {
                     pendingEvent = std::move(mPendingEvents.front());
                     mPendingEvents.pop_front();
                 }
+            }
 
+            if (true == hasPendingEvents) {
                 HsmEventStatus transitiontStatus = doTransition(pendingEvent);
 
                 // caller of synchronous transition must wait until all follow-up steps of this event are done
@@ -656,7 +681,12 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
                 pendingEvent.unlock(transitiontStatus);
             }
 
-            if ((false == mStopDispatching) && (false == mPendingEvents.empty())) {
+            {
+                HSM_SYNC_EVENTS_QUEUE();
+                hasPendingEvents = (false == mPendingEvents.empty());
+            }
+
+            if ((false == mStopDispatching) && (true == hasPendingEvents)) {
                 dispatcherPtr->emitEvent(mEventsHandlerId);
             }
         }
-- 
2.43.0


From def70ea7515b970b876de5c4030e23dd5b515e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 11/59] fix: dispatch enqueued events in the order they were
 enqueued

---
 src/HsmEventDispatcherBase.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index b1c8812..0feef83 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -296,8 +296,7 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
             mEnqueuedEvents.clear();
         }
 
-        // need to traverse events in reverse order
-        for (auto it = currentEvents.rbegin(); (it != currentEvents.rend()) && (false == mStopDispatcher); ++it) {
+        for (auto it = currentEvents.begin(); (it != currentEvents.end()) && (false == mStopDispatcher); ++it) {
             if (prevHandlerID != it->handlerID) {
                 callback = getEnqueuedEventHandlerFunc(it->handlerID);
                 prevHandlerID = it->handlerID;
-- 
2.43.0


From 70c648fc0b1770aefe18c96779d072668c9705fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 12/59] fix: skip enqueued events of unregistered handlers

---
 src/HsmEventDispatcherBase.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 0feef83..9ae5f5e 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -302,7 +302,10 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
                 prevHandlerID = it->handlerID;
             }
 
-            callback(it->eventID);
+            // handler could have been unregistered after event was enqueued
+            if (callback) {
+                callback(it->eventID);
+            }
         }
     }
 }
-- 
2.43.0


From 36ba77e3167121a1c8bc6a1c5f3e8c0f0b02bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 13/59] fix: check capacity of the enqueued events storage
 inside the critical section

---
 src/HsmEventDispatcherBase.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 9ae5f5e..cf7e7d3 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -75,13 +75,16 @@ void HsmEventDispatcherBase::emitEvent(const HandlerID_t handlerID) {
 bool HsmEventDispatcherBase::enqueueEvent(const HandlerID_t handlerID, const EventID_t event) {
     bool wasAdded = false;
 
-    if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
-        {
-            CriticalSection cs(mEnqueuedEventsSync);
+    {
+        CriticalSection cs(mEnqueuedEventsSync);
+
+        if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
             mEnqueuedEvents.emplace_back(handlerID, event);
+            wasAdded = true;
         }
+    }
 
-        wasAdded = true;
+    if (true == wasAdded) {
         notifyDispatcherAboutEvent();
     }
 
-- 
2.43.0


From 2420b72472ff2c8d52536e391ea8901705c0d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 14/59] fix: do not report HSM as initialized when registration
 of dispatcher handlers failed

---
 src/HsmImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 843dafc..a644c54 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -142,6 +142,7 @@ bool HierarchicalStateMachine::Impl::initialize(const std::weak_ptr<IHsmEventDis
                         dispatcherPtr->unregisterEventHandler(mEventsHandlerId);
                         dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);
                         dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);
+                        mDispatcher.reset();
                     }
                 }
             } else {
-- 
2.43.0


From a17b626e100cd2f81a931d33e7b1a842e46fea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:59 +0000
Subject: [PATCH 15/59] fix: allocate handler ids inside the critical section

---
 src/HsmEventDispatcherBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index cf7e7d3..af2b0eb 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -38,8 +38,8 @@ void HsmEventDispatcherBase::stop() {
 
 HandlerID_t HsmEventDispatcherBase::registerEventHandler(const EventHandlerFunc_t& handler) {
     HSM_TRACE_CALL_DEBUG();
-    HandlerID_t id = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    const HandlerID_t id = getNextHandlerID();
 
     mEventHandlers[id] = handler;
 
@@ -104,8 +104,8 @@ void HsmEventDispatcherBase::enqueueAction(ActionHandlerFunc_t actionCallback) {
 
 HandlerID_t HsmEventDispatcherBase::registerEnqueuedEventHandler(const EnqueuedEventHandlerFunc_t& handler) {
     HSM_TRACE_CALL_DEBUG();
-    HandlerID_t id = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    const HandlerID_t id = getNextHandlerID();
 
     mEnqueuedEventHandlers[id] = handler;
 
@@ -120,8 +120,8 @@ void HsmEventDispatcherBase::unregisterEnqueuedEventHandler(const HandlerID_t ha
 }
 
 HandlerID_t HsmEventDispatcherBase::registerTimerHandler(const TimerHandlerFunc_t& handler) {
-    const HandlerID_t newID = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    const HandlerID_t newID = getNextHandlerID();
 
     mTimerHandlers[newID] = handler;
 
-- 
2.43.0


From f672bc035ffa6e1f9f3d612b79592f7c7d50e0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:59 +0000
Subject: [PATCH 16/59] fix: allow to restart expired singleshot timers as
 documented

---
 include/hsmcpp/HsmEventDispatcherBase.hpp |  1 +
 src/HsmEventDispatcherBase.cpp            | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherBase.hpp b/include/hsmcpp/HsmEventDispatcherBase.hpp
index 07d95f9..ff71186 100644
--- a/include/hsmcpp/HsmEventDispatcherBase.hpp
+++ b/include/hsmcpp/HsmEventDispatcherBase.hpp
@@ -31,6 +31,7 @@ protected:
         HandlerID_t handlerID = INVALID_HSM_DISPATCHER_HANDLER_ID;
         unsigned int intervalMs = 0;
         bool isSingleShot = false;
+        bool isRunning = true;  ///< FALSE for singleshot timers which have already expired (can still be restarted)
     };
 
     struct EnqueuedEventInfo {
diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index af2b0eb..13f9594 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -165,6 +165,7 @@ void HsmEventDispatcherBase::startTimer(const HandlerID_t handlerID,
                 it->second.handlerID = handlerID;
                 it->second.intervalMs = intervalMs;
                 it->second.isSingleShot = isSingleShot;
+                it->second.isRunning = true;
 
                 // restart timer
                 stopTimerImpl(timerID);
@@ -191,6 +192,7 @@ void HsmEventDispatcherBase::restartTimer(const TimerID_t timerID) {
     auto it = mActiveTimers.find(timerID);
 
     if (mActiveTimers.end() != it) {
+        it->second.isRunning = true;
         stopTimerImpl(timerID);
         startTimerImpl(timerID, it->second.intervalMs, it->second.isSingleShot);
     }
@@ -210,7 +212,10 @@ void HsmEventDispatcherBase::stopTimer(const TimerID_t timerID) {
 }
 
 bool HsmEventDispatcherBase::isTimerRunning(const TimerID_t timerID) {
-    return (mActiveTimers.find(timerID) != mActiveTimers.end());
+    LockGuard lck(mHandlersSync);
+    auto it = mActiveTimers.find(timerID);
+
+    return (mActiveTimers.end() != it) && (true == it->second.isRunning);
 }
 
 int HsmEventDispatcherBase::getNextHandlerID() {
@@ -264,7 +269,7 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
 
         auto itTimer = mActiveTimers.find(timerID);
 
-        if (mActiveTimers.end() != itTimer) {
+        if ((mActiveTimers.end() != itTimer) && (true == itTimer->second.isRunning)) {
             HSM_TRACE_DEBUG("curTimer.handlerID=%d", itTimer->second.handlerID);
 
             if (INVALID_HSM_DISPATCHER_HANDLER_ID != itTimer->second.handlerID) {
@@ -272,9 +277,9 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
 
                 nextIntervalMs = ((true == itTimer->second.isSingleShot) ? 0 : itTimer->second.intervalMs);
 
-                // Remove singleshot timer from active list
+                // NOTE: expired singleshot timer stays registered because it can be restarted
                 if (0u == nextIntervalMs) {
-                    mActiveTimers.erase(itTimer);
+                    itTimer->second.isRunning = false;
                 }
 
                 timerHandler(timerID);
-- 
2.43.0


From 041ba56556b4c23ed7fdb5d9684f080346955667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:16 +0000
Subject: [PATCH 17/59] fix: access queues and handlers of the dispatcher only
 with corresponding locks

---
 src/HsmEventDispatcherBase.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 13f9594..e520e4a 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -291,7 +291,7 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
-    if ((false == mStopDispatcher) && (false == mEnqueuedEvents.empty())) {
+    if (false == mStopDispatcher) {
         HandlerID_t prevHandlerID = INVALID_HSM_DISPATCHER_HANDLER_ID;
         EnqueuedEventHandlerFunc_t callback;
         std::vector<EnqueuedEventInfo> currentEvents;
@@ -306,6 +306,7 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
 
         for (auto it = currentEvents.begin(); (it != currentEvents.end()) && (false == mStopDispatcher); ++it) {
             if (prevHandlerID != it->handlerID) {
+                LockGuard lck(mHandlersSync);
                 callback = getEnqueuedEventHandlerFunc(it->handlerID);
                 prevHandlerID = it->handlerID;
             }
@@ -319,17 +320,15 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
 }
 
 void HsmEventDispatcherBase::dispatchPendingActions() {
-    if (false == mPendingActions.empty()) {
-        std::list<ActionHandlerFunc_t> actionsSnapshot;
+    std::list<ActionHandlerFunc_t> actionsSnapshot;
 
-        {
-            LockGuard lck(mEmitSync);
-            actionsSnapshot = std::move(mPendingActions);
-        }
+    {
+        LockGuard lck(mEmitSync);
+        actionsSnapshot = std::move(mPendingActions);
+    }
 
-        for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {
-            actionCallback();
-        }
+    for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {
+        actionCallback();
     }
 }
 
@@ -338,7 +337,7 @@ void HsmEventDispatcherBase::dispatchPendingEvents() {
 
     dispatchPendingActions();
 
-    if (false == mPendingEvents.empty()) {
+    {
         LockGuard lck(mEmitSync);
         events = std::move(mPendingEvents);
     }
-- 
2.43.0


From 3aa24d7978646e3a35825712fa6df000cac97ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:12 +0000
Subject: [PATCH 18/59] fix: add default history transition to the events queue
 only with lock

---
 src/HsmImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index a644c54..c46bd60 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1516,7 +1516,10 @@ void HierarchicalStateMachine::Impl::transitionToDefaultHistoryState(
                                                                       cbTransition,
                                                                       nullptr);
 
-        mPendingEvents.push_front(defHistoryTransitionEvent);
+        {
+            HSM_SYNC_EVENTS_QUEUE();
+            mPendingEvents.push_front(defHistoryTransitionEvent);
+        }
     }
 }
 
-- 
2.43.0


From 168945b7c46577c1b5ce82a7003cd9926a636861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:58 +0000
Subject: [PATCH 19/59] fix: do not dispatch events sent by callbacks of the
 initial state before startup is finished

---
 src/HsmImpl.cpp | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index c46bd60..9d3ec94 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -614,24 +614,39 @@ void HierarchicalStateMachine::Impl::handleStartup() {
     if (dispatcherPtr) {
         HSM_TRACE_DEBUG("state=<%s>", getStateName(mInitialState).c_str());
         std::list<StateID_t> entryPoints;
+        bool hasPendingEvents = false;
 
-        (void)onStateEntering(mInitialState, VariantVector_t());
-        mActiveStates.emplace_back(mInitialState);
-        onStateChanged(mInitialState, VariantVector_t());
+        {
+            // events which are sent by callbacks of the initial state must not be dispatched until startup is finished
+            (void)mIsDispatching.test_and_set();
+            UniqueLock lk = mIsDispatching.lock();
 
-        if (true == getEntryPoints(mInitialState, INVALID_HSM_EVENT_ID, VariantVector_t(), entryPoints)) {
-            PendingEventInfo entryPointTransitionEvent;
+            (void)onStateEntering(mInitialState, VariantVector_t());
+            mActiveStates.emplace_back(mInitialState);
+            onStateChanged(mInitialState, VariantVector_t());
 
-            entryPointTransitionEvent.transitionType = TransitionBehavior::ENTRYPOINT;
-            entryPointTransitionEvent.id = INVALID_HSM_EVENT_ID;
+            if (true == getEntryPoints(mInitialState, INVALID_HSM_EVENT_ID, VariantVector_t(), entryPoints)) {
+                PendingEventInfo entryPointTransitionEvent;
 
-            {
-                HSM_SYNC_EVENTS_QUEUE();
-                mPendingEvents.emplace_front(std::move(entryPointTransitionEvent));
+                entryPointTransitionEvent.transitionType = TransitionBehavior::ENTRYPOINT;
+                entryPointTransitionEvent.id = INVALID_HSM_EVENT_ID;
+
+                {
+                    HSM_SYNC_EVENTS_QUEUE();
+                    mPendingEvents.emplace_front(std::move(entryPointTransitionEvent));
+                }
             }
+
+            mIsDispatching.clear();
+            mIsDispatching.notify();
+        }
+
+        {
+            HSM_SYNC_EVENTS_QUEUE();
+            hasPendingEvents = (false == mPendingEvents.empty());
         }
 
-        if (false == mPendingEvents.empty()) {
+        if (true == hasPendingEvents) {
             dispatcherPtr->emitEvent(mEventsHandlerId);
         }
     }
-- 
2.43.0


From 609206fdda39e7b93c18b68dd457b696888a616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 20/59] fix: convert doubles with a zero integer part to bool
 according to their value

---
 src/variant.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/variant.cpp b/src/variant.cpp
index a249742..019bd6d 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -631,6 +631,8 @@ bool Variant::toBool() const {
         } else {
             result = true;
         }
+    } else if (Type::DOUBLE == type) {
+        result = (0.0 != *value<double>());
     } else {
         result = (0 != toInt64());
     }
-- 
2.43.0


From 0b935db0969cd479a8b9efee067ddf2a9a3a398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 21/59] fix: keep the current value of a Variant alive while it
 is replaced by a part of itself

---
 include/hsmcpp/variant.hpp | 3 +++
 src/variant.cpp            | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 41697c8..fa97269 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -864,6 +864,9 @@ Variant::Variant(const T& v, const Type t) {
 
 template <typename T>
 void Variant::assign(const T& v, const Type t) {
+    // NOTE: v could be part of the current value (for example, an element of a container), so keep it alive
+    const std::shared_ptr<void> previousData = data;
+
     freeMemory();
     createMemoryAllocator<T>();
     type = t;
diff --git a/src/variant.cpp b/src/variant.cpp
index 019bd6d..7066b28 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -130,6 +130,9 @@ Variant& Variant::operator=(const char* v) {
 
 Variant& Variant::operator=(const Variant& v) {
     if (false == isSameObject(v)) {
+        // NOTE: v could be part of the current value (for example, an element of a container), so keep it alive
+        const std::shared_ptr<void> previousData = data;
+
         if ((Type::UNKNOWN != v.type) && (v.memoryAllocator)) {
             data = v.memoryAllocator(v.data.get());
             type = v.type;
@@ -145,6 +148,9 @@ Variant& Variant::operator=(const Variant& v) {
 
 Variant& Variant::operator=(Variant&& v) noexcept {
     if (false == isSameObject(v)) {
+        // NOTE: v could be part of the current value (for example, an element of a container), so keep it alive
+        const std::shared_ptr<void> previousData = data;
+
         data = std::move(v.data);
         type = v.type;
         memoryAllocator = std::move(v.memoryAllocator);
-- 
2.43.0


From f99986fc431f15586240309148584d05d211f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 22/59] fix: compare integer variants of different signedness
 by their mathematical values

---
 src/variant.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index 7066b28..9f34a44 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -167,6 +167,24 @@ Variant::operator bool() const {
     return (data && (Type::UNKNOWN != type));
 }
 
+// compares values of integer variants (any combination of signed and unsigned types)
+static int compareIntegers(const Variant& left, const Variant& right) {
+    const bool isLeftNegative = (false == left.isUnsignedNumeric()) && (left.toInt64() < 0);
+    const bool isRightNegative = (false == right.isUnsignedNumeric()) && (right.toInt64() < 0);
+    int res = 0;
+
+    if (isLeftNegative != isRightNegative) {
+        res = ((true == isLeftNegative) ? -1 : 1);
+    } else if (left.toUInt64() != right.toUInt64()) {
+        // values have the same sign so their order is kept by conversion to unsigned
+        res = ((left.toUInt64() < right.toUInt64()) ? -1 : 1);
+    } else {
+        // do nothing
+    }
+
+    return res;
+}
+
 bool Variant::operator!=(const Variant& val) const {
     return !(*this == val);
 }
@@ -178,10 +196,8 @@ bool Variant::operator>(const Variant& val) const {
         if (isNumeric() && val.isNumeric()) {
             if ((Type::DOUBLE == type) || (Type::DOUBLE == val.type)) {
                 isGreater = toDouble() > val.toDouble();
-            } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {
-                isGreater = toUInt64() > val.toUInt64();
             } else {
-                isGreater = toInt64() > val.toInt64();
+                isGreater = (compareIntegers(*this, val) > 0);
             }
         } else if (type == val.type) {
             isGreater = (1 == compareOperator(data.get(), val.data.get()));
@@ -216,10 +232,8 @@ bool Variant::operator==(const Variant& val) const {
                     // compare with precision for double
                     // cppcheck-suppress misra-c2012-10.4 : false positive. both operands have type double
                     equal = (std::abs(toDouble() - val.toDouble()) < comparePrecision);
-                } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {
-                    equal = (toUInt64() == val.toUInt64());
                 } else {
-                    equal = (toInt64() == val.toInt64());
+                    equal = (0 == compareIntegers(*this, val));
                 }
             } else if (val.type == type) {
                 equal = (0 == compareOperator(data.get(), val.data.get()));
-- 
2.43.0


From 6ccf069e4dac4c017e1e37c06968512d6bc9af96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 23/59] fix: do not lose wake ups of the standard dispatcher

---
 include/hsmcpp/HsmEventDispatcherSTD.hpp |  2 ++
 src/HsmEventDispatcherSTD.cpp            | 37 +++++++++++++++---------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherSTD.hpp b/include/hsmcpp/HsmEventDispatcherSTD.hpp
index c04001f..2b72468 100644
--- a/include/hsmcpp/HsmEventDispatcherSTD.hpp
+++ b/include/hsmcpp/HsmEventDispatcherSTD.hpp
@@ -108,6 +108,8 @@ private:
     std::thread mTimersThread;
     // NOTE: ideally it would be better to use a semaphore here, but there are no semaphores in C++11
     ConditionVariable mEmitEvent;
+    Mutex mWakeupSync;
+    bool mWakeupRequested = false;  // protected by mWakeupSync
     ConditionVariable mTimerEvent;
     bool mNotifiedTimersThread = false;
     std::map<TimerID_t, RunningTimerInfo> mRunningTimers; // protected by mRunningTimersSync
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 2f216a7..6951806 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -5,6 +5,7 @@
 
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/InterruptsFreeSection.hpp"
 
 namespace hsmcpp {
 
@@ -60,7 +61,6 @@ bool HsmEventDispatcherSTD::start() {
 
 void HsmEventDispatcherSTD::stop() {
     HSM_TRACE_CALL_DEBUG();
-    UniqueLock lck(mEmitSync);
 
     HsmEventDispatcherBase::stop();
     unregisterAllEventHandlers();
@@ -125,6 +125,10 @@ void HsmEventDispatcherSTD::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherSTD::notifyDispatcherAboutEvent() {
+    // NOTE: could be called from a signal handler (see enqueueEvent())
+    CriticalSection cs(mWakeupSync);
+
+    mWakeupRequested = true;
     mEmitEvent.notify();
 }
 
@@ -135,19 +139,24 @@ void HsmEventDispatcherSTD::doDispatching() {
         HsmEventDispatcherBase::dispatchPendingEvents();
 
         if (false == mStopDispatcher) {
-            UniqueLock lck(mEmitSync);
-
-            if (true == mPendingEvents.empty()) {
-                HSM_TRACE_DEBUG("wait for emit...");
-                // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
-                //       "return" statement belogs to a lamda function, not doDispatching.
-                // cppcheck-suppress misra-c2012-15.5
-                mEmitEvent.wait(lck, [=]() {
-                    // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
-                    return (false == mPendingEvents.empty()) || (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher);
-                });
-                HSM_TRACE_DEBUG("woke up. pending events=%lu", mPendingEvents.size());
-            }
+            // NOTE: signal handlers must not be executed in this thread while it holds mWakeupSync
+            InterruptsFreeSection interruptsBlock;
+            UniqueLock lck(mWakeupSync);
+
+            HSM_TRACE_DEBUG("wait for emit...");
+            // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
+            //       "return" statement belogs to a lamda function, not doDispatching.
+            // cppcheck-suppress misra-c2012-15.5
+            mEmitEvent.wait(lck, [&]() {
+                const bool isRequested = mWakeupRequested;
+
+                // everything added after this point will request another wake up
+                mWakeupRequested = false;
+
+                // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
+                return isRequested;
+            });
+            HSM_TRACE_DEBUG("woke up");
         }
     }
 
-- 
2.43.0


From 5d86592f7577153ca92c76f5f1c43b413faa464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 24/59] fix: synchronise the timers thread of the standard
 dispatcher with start, stop and stopping the dispatcher

---
 include/hsmcpp/HsmEventDispatcherBase.hpp |   5 +
 include/hsmcpp/HsmEventDispatcherSTD.hpp  |   3 +-
 src/HsmEventDispatcherBase.cpp            |  10 +-
 src/HsmEventDispatcherSTD.cpp             | 116 ++++++++++++----------
 4 files changed, 80 insertions(+), 54 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherBase.hpp b/include/hsmcpp/HsmEventDispatcherBase.hpp
index ff71186..c697cc5 100644
--- a/include/hsmcpp/HsmEventDispatcherBase.hpp
+++ b/include/hsmcpp/HsmEventDispatcherBase.hpp
@@ -224,6 +224,11 @@ protected:
      */
     unsigned int handleTimerEvent(const TimerID_t timerID);
 
+    /**
+     * @brief Same as handleTimerEvent(), but mHandlersSync must already be locked by the caller.
+     */
+    unsigned int handleTimerEventLocked(const TimerID_t timerID);
+
     /**
      * @brief Wakeup dispatching thread to process pending events.
      * @details Must be implemented by derived classes.
diff --git a/include/hsmcpp/HsmEventDispatcherSTD.hpp b/include/hsmcpp/HsmEventDispatcherSTD.hpp
index 2b72468..4223be5 100644
--- a/include/hsmcpp/HsmEventDispatcherSTD.hpp
+++ b/include/hsmcpp/HsmEventDispatcherSTD.hpp
@@ -102,6 +102,7 @@ protected:
 
     void notifyTimersThread();
     void handleTimers();
+    void handleExpiredTimer(const TimerID_t timerID);
 
 private:
     std::thread mDispatcherThread;
@@ -111,7 +112,7 @@ private:
     Mutex mWakeupSync;
     bool mWakeupRequested = false;  // protected by mWakeupSync
     ConditionVariable mTimerEvent;
-    bool mNotifiedTimersThread = false;
+    bool mNotifiedTimersThread = false;  // protected by mRunningTimersSync
     std::map<TimerID_t, RunningTimerInfo> mRunningTimers; // protected by mRunningTimersSync
 };
 
diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index e520e4a..bd11daa 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -261,12 +261,16 @@ void HsmEventDispatcherBase::stopTimerImpl(const TimerID_t timerID) {
 
 unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
     HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
+    // NOTE: should lock the whole block to prevent situation when timer handler is unregistered during handler execution
+    LockGuard lck(mHandlersSync);
+
+    return handleTimerEventLocked(timerID);
+}
+
+unsigned int HsmEventDispatcherBase::handleTimerEventLocked(const TimerID_t timerID) {
     unsigned int nextIntervalMs = 0;
 
     if (INVALID_HSM_TIMER_ID != timerID) {
-        // NOTE: should lock the whole block to prevent situation when timer handler is unregistered during handler execution
-        LockGuard lck(mHandlersSync);
-
         auto itTimer = mActiveTimers.find(timerID);
 
         if ((mActiveTimers.end() != itTimer) && (true == itTimer->second.isRunning)) {
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 6951806..01b0873 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -3,9 +3,13 @@
 
 #include "hsmcpp/HsmEventDispatcherSTD.hpp"
 
+#include <algorithm>
+#include <limits>
+
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
 #include "hsmcpp/os/InterruptsFreeSection.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -82,7 +86,6 @@ void HsmEventDispatcherSTD::join() {
 
 void HsmEventDispatcherSTD::startTimerImpl(const TimerID_t timerID, const unsigned int intervalMs, const bool isSingleShot) {
     HSM_TRACE_CALL_ARGS("timerID=%d, intervalMs=%d, isSingleShot=%d", SC2INT(timerID), intervalMs, BOOL2INT(isSingleShot));
-    auto it = mRunningTimers.end();
 
     // lazy initialization of timers thread
     if (false == mTimersThread.joinable()) {
@@ -91,7 +94,7 @@ void HsmEventDispatcherSTD::startTimerImpl(const TimerID_t timerID, const unsign
 
     {
         CriticalSection cs(mRunningTimersSync);
-        it = mRunningTimers.find(timerID);
+        auto it = mRunningTimers.find(timerID);
 
         // new timer
         if (mRunningTimers.end() == it) {
@@ -165,19 +168,24 @@ void HsmEventDispatcherSTD::doDispatching() {
 
 void HsmEventDispatcherSTD::notifyTimersThread() {
     HSM_TRACE_CALL_DEBUG();
+    CriticalSection cs(mRunningTimersSync);
+
     mNotifiedTimersThread = true;
     mTimerEvent.notify();
 }
 
 void HsmEventDispatcherSTD::handleTimers() {
     HSM_TRACE_CALL_DEBUG();
-    Mutex timerEventSync;
-    UniqueLock lck(timerEventSync);
+    // NOTE: false-positive. "return" statement belongs to lambda function
+    // cppcheck-suppress misra-c2012-15.5
+    const auto isNotified = [&]() { return mNotifiedTimersThread; };
 
     while (false == mStopDispatcher) {
-        mRunningTimersSync.lock();
+        TimerID_t expiredTimerId = INVALID_HSM_TIMER_ID;
+        bool isExpired = false;
 
-        if (false == mRunningTimers.empty()) {
+        {
+            UniqueLock lck(mRunningTimersSync);
             auto itTimeout = mRunningTimers.begin();
 
             for (auto it = mRunningTimers.begin(); it != mRunningTimers.end(); ++it) {
@@ -186,63 +194,71 @@ void HsmEventDispatcherSTD::handleTimers() {
                 }
             }
 
-            TimerID_t waitingTimerId = itTimeout->first;
-            const int waitDurationMs = std::chrono::duration_cast<std::chrono::milliseconds>(itTimeout->second.elapseAfter -
-                                                                                         std::chrono::steady_clock::now())
-                                       .count();
-
-            // unlock after itTimeout value is not needed anymore
-            mRunningTimersSync.unlock();
-            // NOTE: make sure we don't use itTimeout value after this line
+            if (mRunningTimers.end() == itTimeout) {
+                // wait for timer events
+                mTimerEvent.wait(lck, isNotified);
+            } else {
+                const auto timeLeft = itTimeout->second.elapseAfter - std::chrono::steady_clock::now();
 
-            bool waitResult = false;
+                if (timeLeft > std::chrono::steady_clock::duration::zero()) {
+                    // round up to make sure that timer is not triggered ahead of time
+                    const auto roundUp = std::chrono::milliseconds(1) - std::chrono::steady_clock::duration(1);
+                    const auto timeLeftMs = std::chrono::duration_cast<std::chrono::milliseconds>(timeLeft + roundUp).count();
+                    const auto maxWaitMs = static_cast<decltype(timeLeftMs)>(std::numeric_limits<int>::max());
 
-            // if waitDurationMs <= 0 it means that timer already expired and we only need to trigger event
-            if (waitDurationMs > 0) {
-                // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
-                //       "return" statement belogs to a lamda function, not doDispatching.
-                // cppcheck-suppress misra-c2012-15.5
-                waitResult = mTimerEvent.wait_for(lck, waitDurationMs, [&]() { return mNotifiedTimersThread; });
+                    mTimerEvent.wait_for(lck, static_cast<int>(std::min(timeLeftMs, maxWaitMs)), isNotified);
+                } else {
+                    expiredTimerId = itTimeout->first;
+                    isExpired = true;
+                }
             }
+        }
 
+        if (true == isExpired) {
+            handleExpiredTimer(expiredTimerId);
+        } else {
+            // timers list will be checked again, so all operations performed till this point are going to be handled
+            CriticalSection cs(mRunningTimersSync);
             mNotifiedTimersThread = false;
+        }
+    }
 
-            if (false == waitResult) {
-                // timeout expired
+    HSM_TRACE_DEBUG("EXIT");
+}
 
-                // store wakeup time in case we'll need to calculate new elapseAfter value
-                // needed to avoid potential delays caused by CriticalSection and handleTimerEvent()
-                const auto wakeupTime = std::chrono::steady_clock::now();
-                CriticalSection lckExpired(mRunningTimersSync);
+void HsmEventDispatcherSTD::handleExpiredTimer(const TimerID_t timerID) {
+    // NOTE: same locking order as in startTimer() and stopTimer(). Handler must not be called while mRunningTimersSync is locked
+    LockGuard lckHandlers(mHandlersSync);
+    bool isExpired = false;
+    // store wakeup time in case we'll need to calculate new elapseAfter value
+    // needed to avoid potential delays caused by handler execution
+    const auto wakeupTime = std::chrono::steady_clock::now();
 
-                itTimeout = mRunningTimers.find(waitingTimerId);
+    {
+        CriticalSection cs(mRunningTimersSync);
+        auto it = mRunningTimers.find(timerID);
 
-                if (itTimeout != mRunningTimers.end()) {
-                    const unsigned int nextIntervalMs = handleTimerEvent(waitingTimerId);
+        // timer could have been stopped or restarted before mHandlersSync was locked
+        isExpired = (mRunningTimers.end() != it) && (it->second.elapseAfter <= wakeupTime);
+    }
 
-                    if (nextIntervalMs > 0u) {
-                        // restart timer
-                        itTimeout->second.startedAt = wakeupTime;
-                        itTimeout->second.elapseAfter = itTimeout->second.startedAt + std::chrono::milliseconds(nextIntervalMs);
-                    } else {
-                        // single shot timer. remove from queue
-                        mRunningTimers.erase(itTimeout);
-                    }
-                } else {
-                    // do nothing
-                }
-            } else {
-                // thread was woken up by start/stop operation. no need to do anything
+    if (true == isExpired) {
+        const unsigned int nextIntervalMs = handleTimerEventLocked(timerID);
+        CriticalSection cs(mRunningTimersSync);
+
+        if (nextIntervalMs > 0u) {
+            // restart timer
+            auto it = mRunningTimers.find(timerID);
+
+            if (mRunningTimers.end() != it) {
+                it->second.startedAt = wakeupTime;
+                it->second.elapseAfter = it->second.startedAt + std::chrono::milliseconds(nextIntervalMs);
             }
         } else {
-            mRunningTimersSync.unlock();
-
-            // wait for timer events
-            mTimerEvent.wait(lck);
+            // single shot timer. remove from queue
+            mRunningTimers.erase(timerID);
         }
     }
-
-    HSM_TRACE_DEBUG("EXIT");
 }
 
-}  // namespace hsmcpp
\ No newline at end of file
+}  // namespace hsmcpp
-- 
2.43.0


From 999a59a595d57d12ecd069636119524f73326be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 25/59] fix: allow the last reference to the standard
 dispatcher to be released by its own threads

---
 include/hsmcpp/HsmEventDispatcherSTD.hpp |  2 ++
 src/HsmEventDispatcherSTD.cpp            | 31 +++++++++++++++++++++---
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherSTD.hpp b/include/hsmcpp/HsmEventDispatcherSTD.hpp
index 4223be5..450729b 100644
--- a/include/hsmcpp/HsmEventDispatcherSTD.hpp
+++ b/include/hsmcpp/HsmEventDispatcherSTD.hpp
@@ -107,6 +107,8 @@ protected:
 private:
     std::thread mDispatcherThread;
     std::thread mTimersThread;
+    bool mDeleteInDispatcherThread = false;  // used only by dispatcher thread (see deleteSafe())
+    bool mDeleteInTimersThread = false;      // used only by timers thread (see deleteSafe())
     // NOTE: ideally it would be better to use a semaphore here, but there are no semaphores in C++11
     ConditionVariable mEmitEvent;
     Mutex mWakeupSync;
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 01b0873..842f906 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -35,8 +35,19 @@ std::shared_ptr<HsmEventDispatcherSTD> HsmEventDispatcherSTD::create(const size_
 }
 
 bool HsmEventDispatcherSTD::deleteSafe() {
-    // NOTE: just delete the instance. Calling destructor from any thread is safe
-    return true;
+    const std::thread::id currentThread = std::this_thread::get_id();
+
+    // NOTE: threads of the dispatcher can't wait for themselves. if the last reference was released by one of them then
+    //       instance will be deleted when this thread finishes. Calling destructor from any other thread is safe
+    if (mDispatcherThread.get_id() == currentThread) {
+        mDeleteInDispatcherThread = true;
+    } else if (mTimersThread.get_id() == currentThread) {
+        mDeleteInTimersThread = true;
+    } else {
+        // do nothing
+    }
+
+    return ((false == mDeleteInDispatcherThread) && (false == mDeleteInTimersThread));
 }
 
 void HsmEventDispatcherSTD::emitEvent(const HandlerID_t handlerID) {
@@ -66,8 +77,9 @@ bool HsmEventDispatcherSTD::start() {
 void HsmEventDispatcherSTD::stop() {
     HSM_TRACE_CALL_DEBUG();
 
+    // NOTE: event handlers are unregistered by the dispatcher thread. mHandlersSync must not be locked here because stop()
+    //       could be called by a timer handler
     HsmEventDispatcherBase::stop();
-    unregisterAllEventHandlers();
     notifyDispatcherAboutEvent();
     notifyTimersThread();
 }
@@ -163,7 +175,14 @@ void HsmEventDispatcherSTD::doDispatching() {
         }
     }
 
+    unregisterAllEventHandlers();
     HSM_TRACE_DEBUG("EXIT");
+
+    if (true == mDeleteInDispatcherThread) {
+        mDispatcherThread.detach();
+        // NOLINTNEXTLINE(cppcoreguidelines-owning-memory): see deleteSafe()
+        delete this;
+    }
 }
 
 void HsmEventDispatcherSTD::notifyTimersThread() {
@@ -223,6 +242,12 @@ void HsmEventDispatcherSTD::handleTimers() {
         }
     }
 
+    if (true == mDeleteInTimersThread) {
+        mTimersThread.detach();
+        // NOLINTNEXTLINE(cppcoreguidelines-owning-memory): see deleteSafe()
+        delete this;
+    }
+
     HSM_TRACE_DEBUG("EXIT");
 }
 
-- 
2.43.0


From 6c69660b965efcda1eb767d69c3bf6ceddeb0f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 26/59] fix: restart repeating timers of the Arduino dispatcher

---
 src/HsmEventDispatcherArduino.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherArduino.cpp b/src/HsmEventDispatcherArduino.cpp
index 513ce13..2b11aa4 100644
--- a/src/HsmEventDispatcherArduino.cpp
+++ b/src/HsmEventDispatcherArduino.cpp
@@ -105,7 +105,7 @@ void HsmEventDispatcherArduino::handleTimers() {
 
         while (it != mRunningTimers.end()) {
             if (curTime >= it->second.elapseAfter) {
-                if (true == handleTimerEvent(it->first)) {
+                if (handleTimerEvent(it->first) > 0u) {
                     // fast way to check timer interval without searching the map
                     it->second.elapseAfter = it->second.elapseAfter - it->second.startedAt;
                     it->second.startedAt = millis();
-- 
2.43.0


From d6ed53667ccfb73b1fa12e9a46bd88ab47d4c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 27/59] fix: handle overflow of millis() in timers of the
 Arduino dispatcher

---
 src/HsmEventDispatcherArduino.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherArduino.cpp b/src/HsmEventDispatcherArduino.cpp
index 2b11aa4..a434039 100644
--- a/src/HsmEventDispatcherArduino.cpp
+++ b/src/HsmEventDispatcherArduino.cpp
@@ -104,7 +104,8 @@ void HsmEventDispatcherArduino::handleTimers() {
         auto it = mRunningTimers.begin();
 
         while (it != mRunningTimers.end()) {
-            if (curTime >= it->second.elapseAfter) {
+            // NOTE: compare durations instead of time values because millis() overflows
+            if ((curTime - it->second.startedAt) >= (it->second.elapseAfter - it->second.startedAt)) {
                 if (handleTimerEvent(it->first) > 0u) {
                     // fast way to check timer interval without searching the map
                     it->second.elapseAfter = it->second.elapseAfter - it->second.startedAt;
-- 
2.43.0


From dc81b7a52f933d74508ea98b84f80428e48660a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 28/59] fix: close the pipe when start of the GLib dispatcher
 fails

---
 src/HsmEventDispatcherGLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 52443cd..0d0a85c 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -93,7 +93,7 @@ bool HsmEventDispatcherGLib::start() {
                 mReadChannel = nullptr;
             }
 
-            if ((-1) == mPipeFD[0]) {
+            if ((-1) != mPipeFD[0]) {
                 close(mPipeFD[0]);
                 close(mPipeFD[1]);
                 mPipeFD[0] = -1;
-- 
2.43.0


From 2126caee557a265c78c5e526bccc64110dbb3277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 29/59] fix: delete GLib dispatcher in the context it was
 created for

---
 src/HsmEventDispatcherGLib.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 0d0a85c..41bba6b 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -40,7 +40,11 @@ std::shared_ptr<HsmEventDispatcherGLib> HsmEventDispatcherGLib::create(GMainCont
 }
 
 bool HsmEventDispatcherGLib::deleteSafe() {
-    g_idle_add(
+    // NOTE: must be deleted by the same context which is used for dispatching
+    GSource* idleSource = g_idle_source_new();
+
+    g_source_set_callback(
+        idleSource,
         // cppcheck-suppress misra-c2012-13.1 ; false-positive. this is a functor, not initializer list
         [](void* data) {
             if (nullptr != data) {
@@ -54,7 +58,10 @@ bool HsmEventDispatcherGLib::deleteSafe() {
             // cppcheck-suppress misra-c2012-15.5
             return G_SOURCE_REMOVE;
         },
-        this);
+        this,
+        nullptr);
+    g_source_attach(idleSource, mContext);
+    g_source_unref(idleSource);
 
     return false;
 }
-- 
2.43.0


From ba1b9924adf3bbe9b96ed66a4b24a4dd59a0f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 30/59] fix: do not lose wake ups of the GLib dispatcher when
 write is interrupted by a signal

---
 src/HsmEventDispatcherGLib.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 41bba6b..74b5e49 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -5,6 +5,8 @@
 
 #include <unistd.h>
 
+#include <cerrno>
+
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
 
@@ -221,8 +223,11 @@ void HsmEventDispatcherGLib::notifyDispatcherAboutEvent() {
     char dummy = 1;
 
     // we just need to trigger the callback. there is no need to pass any real data there
-    // TODO: should we check for result?
-    write(mPipeFD[1], &dummy, sizeof(dummy));
+    ssize_t bytes = 0;
+
+    do {
+        bytes = write(mPipeFD[1], &dummy, sizeof(dummy));
+    } while ((bytes < 0) && (EINTR == errno));
 }
 
 gboolean HsmEventDispatcherGLib::onPipeDataAvailable(GIOChannel* gio, GIOCondition condition, gpointer data) {
-- 
2.43.0


From 122dfad2f9c1510580684ef549afbf7345b9bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 31/59] fix: allow to start GLib dispatcher again after it was
 stopped

---
 src/HsmEventDispatcherGLib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 74b5e49..d051f67 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -84,6 +84,7 @@ bool HsmEventDispatcherGLib::start() {
 
                 if (nullptr != mIoSource) {
                     g_source_set_callback(mIoSource, reinterpret_cast<GSourceFunc>(onPipeDataAvailable), this, nullptr);
+                    mStopDispatcher = false;
                     g_source_attach(mIoSource, mContext);
                     result = true;
                 } else {
-- 
2.43.0


From 598b398d57dc1c5217006b35fb454de07ef61ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 32/59] fix: ignore expired timers of the GLib dispatcher which
 were restarted or stopped in the meantime

---
 src/HsmEventDispatcherGLib.cpp | 37 +++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index d051f67..f0c9a8d 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -9,6 +9,7 @@
 
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -196,18 +197,34 @@ gboolean HsmEventDispatcherGLib::onTimerEvent(const TimerData_t* timerData) {
     bool restartTimer = false;
 
     if (nullptr != timerData) {
-        restartTimer = (timerData->first->handleTimerEvent(timerData->second) > 0);
+        HsmEventDispatcherGLib* pThis = timerData->first;
+        const TimerID_t timerID = timerData->second;
+        LockGuard lckHandlers(pThis->mHandlersSync);
+        bool isActualSource = false;
+
+        {
+            // NOTE: timer could have been restarted or stopped by another thread while this event was waiting for the lock
+            CriticalSection lckExpired(pThis->mRunningTimersSync);
+            auto itTimer = pThis->mNativeTimerHandlers.find(timerID);
+
+            isActualSource =
+                (pThis->mNativeTimerHandlers.end() != itTimer) && (g_main_current_source() == itTimer->second);
+        }
 
-        if (false == restartTimer) {
-            CriticalSection lckExpired(timerData->first->mRunningTimersSync);
-            auto itTimer = timerData->first->mNativeTimerHandlers.find(timerData->second);
+        if (true == isActualSource) {
+            restartTimer = (pThis->handleTimerEventLocked(timerID) > 0);
 
-            if (timerData->first->mNativeTimerHandlers.end() != itTimer) {
-                g_source_unref(itTimer->second);
-                timerData->first->mNativeTimerHandlers.erase(itTimer);
-            } else {
-                HSM_TRACE_DEF();
-                HSM_TRACE_ERROR("unexpected error. timer not found");
+            if (false == restartTimer) {
+                CriticalSection lckExpired(pThis->mRunningTimersSync);
+                auto itTimer = pThis->mNativeTimerHandlers.find(timerID);
+
+                if (pThis->mNativeTimerHandlers.end() != itTimer) {
+                    g_source_unref(itTimer->second);
+                    pThis->mNativeTimerHandlers.erase(itTimer);
+                } else {
+                    HSM_TRACE_DEF();
+                    HSM_TRACE_ERROR("unexpected error. timer not found");
+                }
             }
         }
     }
-- 
2.43.0


From ef27f09cf6b3c567547c04ac27eef992445f767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 33/59] fix: do not crash when events are enqueued while the
 GLibmm dispatcher is stopped

---
 src/HsmEventDispatcherGLibmm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 0c1081e..1ea69bf 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -146,7 +146,10 @@ void HsmEventDispatcherGLibmm::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
-    mDispatcher->emit();
+    // NOTE: dispatcher could be not started yet or already stopped
+    if (mDispatcher) {
+        mDispatcher->emit();
+    }
 }
 
 bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID) {
-- 
2.43.0


From 850e3f9b40d61ffc9a4527a343f1665d7664a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 34/59] fix: allow to start GLibmm dispatcher again after it
 was stopped

---
 src/HsmEventDispatcherGLibmm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 1ea69bf..88b8ff1 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -78,6 +78,8 @@ bool HsmEventDispatcherGLibmm::start() {
             mDispatcher.reset(new Glib::Dispatcher(mMainContext));
 
             if (mDispatcher) {
+                mStopDispatcher = false;
+
                 if (mDispatcherConnection.connected() == false) {
                     mDispatcherConnection =
                         mDispatcher->connect(sigc::mem_fun(this, &HsmEventDispatcherGLibmm::dispatchPendingEvents));
-- 
2.43.0


From aaca7ef3e932288f8627be0e8c0f6c30b9567c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 35/59] fix: ignore expired timers of the Qt dispatcher which
 were restarted or stopped in the meantime

---
 src/HsmEventDispatcherQt.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 4b79444..c22db21 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -10,6 +10,7 @@
 
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -151,7 +152,18 @@ void HsmEventDispatcherQt::onTimerEvent() {
 
         HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
 
-        if (0 == handleTimerEvent(timerID)) {
+        LockGuard lckHandlers(mHandlersSync);
+        bool isActualTimer = false;
+
+        {
+            // NOTE: timer could have been restarted or stopped, but its QTimer was not deleted yet
+            CriticalSection cs(mRunningTimersSync);
+            auto itTimer = mNativeTimerHandlers.find(timerID);
+
+            isActualTimer = (mNativeTimerHandlers.end() != itTimer) && (itTimer->second == ptrTimer);
+        }
+
+        if ((true == isActualTimer) && (0 == handleTimerEventLocked(timerID))) {
             // delete timer since it doesn't need to be restarted
             CriticalSection cs(mRunningTimersSync);
             auto itTimer = mNativeTimerHandlers.find(timerID);
-- 
2.43.0


From 2967339b6b8268a4c3cb3f890bff14394f47bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 36/59] fix: allow to start Qt dispatcher again after it was
 stopped

---
 src/HsmEventDispatcherQt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index c22db21..2dee4da 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -56,6 +56,8 @@ bool HsmEventDispatcherQt::start() {
     }
 
     if (true == result) {
+        mStopDispatcher = false;
+
         // if dispatcher wasn't created on main thread we need to move it there
         if (QObject::thread() != QCoreApplication::eventDispatcher()->thread()) {
             QObject::moveToThread(QCoreApplication::eventDispatcher()->thread());
-- 
2.43.0


From d4fc1c07b718977387908c6938be86d02da3c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 37/59] fix: respect stopping and restarting of timers which
 are created by the Qt main thread later

---
 include/hsmcpp/HsmEventDispatcherQt.hpp |  7 ++++
 src/HsmEventDispatcherQt.cpp            | 48 ++++++++++++++++---------
 2 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherQt.hpp b/include/hsmcpp/HsmEventDispatcherQt.hpp
index d2bebef..8653e5e 100644
--- a/include/hsmcpp/HsmEventDispatcherQt.hpp
+++ b/include/hsmcpp/HsmEventDispatcherQt.hpp
@@ -57,6 +57,13 @@ protected:
     void startTimerImpl(const TimerID_t timerID, const unsigned int intervalMs, const bool isSingleShot) override;
     void stopTimerImpl(const TimerID_t timerID) override;
 
+    /**
+     * @brief Create and start a native timer if it doesn't exist yet.
+     * @details mHandlersSync must already be locked by the caller.
+     * @notthreadsafe{Must be called only from Qt main thread.}
+     */
+    void createNativeTimer(const TimerID_t timerID, const unsigned int intervalMs, const bool isSingleShot);
+
 private slots:
     void onTimerEvent();
 
diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 2dee4da..4592724 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -98,21 +98,14 @@ void HsmEventDispatcherQt::startTimerImpl(const TimerID_t timerID, const unsigne
                               SC2INT(timerID),
                               intervalMs,
                               BOOL2INT(isSingleShot));
-    auto it = mNativeTimerHandlers.find(timerID);
-
-    if (mNativeTimerHandlers.end() == it) {
-        auto funcCreateTimer = [=]() {
-            QTimer* newTimer = new QTimer(this);
+    bool isAlreadyCreated = false;
 
-            newTimer->setProperty("hsmid", QVariant(timerID));
-            connect(newTimer, SIGNAL(timeout()), this, SLOT(onTimerEvent()));
-            newTimer->setSingleShot(isSingleShot);
-            newTimer->start(intervalMs);
-
-            CriticalSection cs(mRunningTimersSync);
-            mNativeTimerHandlers[timerID] = newTimer;
-        };
+    {
+        CriticalSection cs(mRunningTimersSync);
+        isAlreadyCreated = (mNativeTimerHandlers.find(timerID) != mNativeTimerHandlers.end());
+    }
 
+    if (false == isAlreadyCreated) {
         // NOTE: need to make sure that QTimer is started only from Qt main thread
         QThread* callerThread = QThread::currentThread();
 
@@ -122,19 +115,40 @@ void HsmEventDispatcherQt::startTimerImpl(const TimerID_t timerID, const unsigne
             mainthreadTimer->moveToThread(qApp->thread());
             mainthreadTimer->setSingleShot(true);
 
-            QObject::connect(mainthreadTimer, &QTimer::timeout, [=]() {
-                funcCreateTimer();
-                mainthreadTimer->deleteLater();
+            QObject::connect(mainthreadTimer, &QTimer::timeout, this, [=]() {
+                // NOTE: timer could have been stopped, restarted or already created since it was requested
+                LockGuard lckHandlers(mHandlersSync);
+                auto itTimer = mActiveTimers.find(timerID);
+
+                if ((mActiveTimers.end() != itTimer) && (true == itTimer->second.isRunning)) {
+                    createNativeTimer(timerID, itTimer->second.intervalMs, itTimer->second.isSingleShot);
+                }
             });
+            QObject::connect(mainthreadTimer, &QTimer::timeout, mainthreadTimer, &QObject::deleteLater);
             QMetaObject::invokeMethod(mainthreadTimer, "start", Qt::QueuedConnection, Q_ARG(int, 0));
         } else {
-            funcCreateTimer();
+            createNativeTimer(timerID, intervalMs, isSingleShot);
         }
     } else {
         HSM_TRACE_ERROR("timer with id=%d already exists", timerID);
     }
 }
 
+void HsmEventDispatcherQt::createNativeTimer(const TimerID_t timerID, const unsigned int intervalMs, const bool isSingleShot) {
+    CriticalSection cs(mRunningTimersSync);
+
+    if (mNativeTimerHandlers.find(timerID) == mNativeTimerHandlers.end()) {
+        QTimer* newTimer = new QTimer(this);
+
+        newTimer->setProperty("hsmid", QVariant(timerID));
+        connect(newTimer, SIGNAL(timeout()), this, SLOT(onTimerEvent()));
+        newTimer->setSingleShot(isSingleShot);
+        newTimer->start(intervalMs);
+
+        mNativeTimerHandlers[timerID] = newTimer;
+    }
+}
+
 void HsmEventDispatcherQt::stopTimerImpl(const TimerID_t timerID) {
     HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
     CriticalSection cs(mRunningTimersSync);
-- 
2.43.0


From a4e5cf13122833cbc29e3657417377d27b4c6a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 38/59] fix: round up intervals of timers to FreeRTOS ticks

---
 src/HsmEventDispatcherFreeRTOS.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index c282fa3..d612767 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -27,6 +27,11 @@ namespace hsmcpp {
 
 constexpr const char* HSM_TRACE_CLASS = "HsmEventDispatcherFreeRTOS";
 
+// NOTE: round up. timer must not expire before its interval has passed and can't have a period of 0 ticks
+static TickType_t convertToTicks(const unsigned int intervalMs) {
+    return (intervalMs / portTICK_PERIOD_MS) + (((intervalMs % portTICK_PERIOD_MS) > 0) ? 1 : 0);
+}
+
 HsmEventDispatcherFreeRTOS::HsmEventDispatcherFreeRTOS(const configSTACK_DEPTH_TYPE stackDepth,
                                                        const UBaseType_t priority,
                                                        const size_t eventsCacheSize)
@@ -150,7 +155,7 @@ void HsmEventDispatcherFreeRTOS::startTimerImpl(const TimerID_t timerID,
 
     if (mNativeTimerHandlers.end() == it) {
         timer = xTimerCreate("hsmtimer",
-                             intervalMs / portTICK_PERIOD_MS,
+                             convertToTicks(intervalMs),
                              reloadMode,
                              this,
                              HsmEventDispatcherFreeRTOS::onTimerEvent);
@@ -162,8 +167,8 @@ void HsmEventDispatcherFreeRTOS::startTimerImpl(const TimerID_t timerID,
     } else {
         timer = it->second;
 
-        if ((xTimerGetPeriod(timer) * portTICK_PERIOD_MS) != intervalMs) {
-            if (pdPASS != xTimerChangePeriod(timer, intervalMs / portTICK_PERIOD_MS, 0)) {
+        if (xTimerGetPeriod(timer) != convertToTicks(intervalMs)) {
+            if (pdPASS != xTimerChangePeriod(timer, convertToTicks(intervalMs), 0)) {
                 xTimerDelete(timer, 0);
                 {
                     InterruptsFreeSection lck;
-- 
2.43.0


From 78ae2ee8461b3209efb7e0e912c1fffcfcfa8e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 39/59] fix: do not lose native timers of expired singleshot
 timers in the FreeRTOS dispatcher

---
 src/HsmEventDispatcherFreeRTOS.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index d612767..1a148bd 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -289,20 +289,8 @@ void HsmEventDispatcherFreeRTOS::onTimerEvent(TimerHandle_t timerHandle) {
                 }
             }
 
-            const bool restartTimer = pThis->handleTimerEvent(timerID);
-
-            HSM_TRACE_DEBUG("restartTimer=%d", (int)restartTimer);
-
-            if (false == restartTimer) {
-                InterruptsFreeSection lck;
-                auto itTimer = pThis->mNativeTimerHandlers.find(timerID);
-
-                if (pThis->mNativeTimerHandlers.end() != itTimer) {
-                    pThis->mNativeTimerHandlers.erase(itTimer);
-                } else {
-                    HSM_TRACE_ERROR("unexpected error. timer not found");
-                }
-            }
+            // NOTE: expired singleshot timer is kept because it can be restarted
+            (void)pThis->handleTimerEvent(timerID);
         }
     }
 }
-- 
2.43.0


From ef8c6b4497de9ae4bdf9e62965dd32a65eeff3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 40/59] fix: do not wait forever in join of the FreeRTOS
 dispatcher

---
 include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp |  1 -
 src/HsmEventDispatcherFreeRTOS.cpp            | 19 +++++++++----------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp b/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
index 63f2ce3..dd1f1b4 100644
--- a/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
+++ b/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
@@ -109,7 +109,6 @@ protected:
     static void onTimerEvent(TimerHandle_t timerHandle);
 
 private:
-    TaskHandle_t mMainTask = nullptr;
     TaskHandle_t mDispatcherTask = nullptr;
 
     configSTACK_DEPTH_TYPE mStackDepth = configMINIMAL_STACK_SIZE;
diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index 1a148bd..adfd5c7 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -81,9 +81,7 @@ bool HsmEventDispatcherFreeRTOS::start() {
     bool result = false;
 
     if (nullptr == mDispatcherTask) {
-        mMainTask = xTaskGetCurrentTaskHandle();
-
-        if (nullptr != mMainTask) {
+        if (nullptr != xTaskGetCurrentTaskHandle()) {
             HSM_TRACE_DEBUG("starting task...");
             BaseType_t taskStatus = xTaskCreate(HsmEventDispatcherFreeRTOS::doDispatching,
                                                 "HsmEventDispatcherFreeRTOS",
@@ -132,8 +130,11 @@ void HsmEventDispatcherFreeRTOS::stop() {
 void HsmEventDispatcherFreeRTOS::join() {
     HSM_TRACE_CALL_DEBUG();
 
-    if (nullptr != mDispatcherTask) {
-        vTaskSuspend(nullptr);
+    // NOTE: dispatcher's task can't wait for itself
+    if (xTaskGetCurrentTaskHandle() != mDispatcherTask) {
+        while (nullptr != mDispatcherTask) {
+            vTaskDelay(1);
+        }
     }
 }
 
@@ -259,13 +260,11 @@ void HsmEventDispatcherFreeRTOS::doDispatching(void* pvParameters) {
 
     HSM_TRACE_DEBUG("EXIT");
 
-    if (nullptr != pThis->mMainTask) {
-        if (eSuspended == eTaskGetState(pThis->mMainTask)) {
-            vTaskResume(pThis->mMainTask);
-        }
+    if (nullptr != pThis) {
+        // NOTE: dispatcher can be deleted by the task waiting in join() right after this
+        pThis->mDispatcherTask = nullptr;
     }
 
-    pThis->mDispatcherTask = nullptr;
     vTaskDelete(nullptr);
 }
 
-- 
2.43.0


From 7db54a18af071e670f447ae32dfe488c92ca6e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 41/59] fix: do not leave the task of the FreeRTOS dispatcher
 when it runs before start has returned

---
 src/HsmEventDispatcherFreeRTOS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index adfd5c7..b77147c 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -83,6 +83,7 @@ bool HsmEventDispatcherFreeRTOS::start() {
     if (nullptr == mDispatcherTask) {
         if (nullptr != xTaskGetCurrentTaskHandle()) {
             HSM_TRACE_DEBUG("starting task...");
+            mStopDispatcher = false;
             BaseType_t taskStatus = xTaskCreate(HsmEventDispatcherFreeRTOS::doDispatching,
                                                 "HsmEventDispatcherFreeRTOS",
                                                 mStackDepth,
@@ -91,7 +92,6 @@ bool HsmEventDispatcherFreeRTOS::start() {
                                                 &mDispatcherTask);
 
             if (pdPASS == taskStatus) {
-                mStopDispatcher = false;
                 result = true;
             } else {
                 HSM_TRACE_ERROR("failed to start task");
-- 
2.43.0


From d7bc1139c161f822a6532e1ddc73023e39ef3bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 42/59] fix: synchronize unregistering of handlers with pending
 events in the FreeRTOS dispatcher

---
 include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp |  6 ++++++
 src/HsmEventDispatcherFreeRTOS.cpp            | 15 +++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp b/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
index dd1f1b4..6ef8683 100644
--- a/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
+++ b/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
@@ -54,6 +54,12 @@ public:
      */
     void emitEvent(const HandlerID_t handlerID) override;
 
+    /**
+     * @brief See IHsmEventDispatcher::unregisterEventHandler()
+     * @threadsafe{Only for systems with single core CPU}
+     */
+    void unregisterEventHandler(const HandlerID_t handlerID) override;
+
     /**
      * @brief See IHsmEventDispatcher::start()
      * @notthreadsafe{Thread safety is not required by HierarchicalStateMachine::initialize() which uses this API.}
diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index b77147c..6665346 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -5,6 +5,7 @@
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/InterruptsFreeSection.hpp"
 #include "hsmcpp/os/ConditionVariable.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 #include "hsmcpp/os/freertos/FreeRtosPort.hpp"
 
 #if (INCLUDE_xTaskGetCurrentTaskHandle != 1)
@@ -76,6 +77,20 @@ void HsmEventDispatcherFreeRTOS::emitEvent(const HandlerID_t handlerID) {
     }
 }
 
+void HsmEventDispatcherFreeRTOS::unregisterEventHandler(const HandlerID_t handlerID) {
+    HSM_TRACE_CALL_DEBUG_ARGS("handlerID=%d", handlerID);
+
+    {
+        // NOTE: pending events are protected by disabled interrupts and not by mEmitSync
+        InterruptsFreeSection lck;
+        mPendingEvents.remove(handlerID);
+    }
+    {
+        LockGuard lck(mHandlersSync);
+        mEventHandlers.erase(handlerID);
+    }
+}
+
 bool HsmEventDispatcherFreeRTOS::start() {
     HSM_TRACE_CALL_DEBUG();
     bool result = false;
-- 
2.43.0


From c6a4635686a436592119aadf036c987ca2aee14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 43/59] fix: use the requested interval when a FreeRTOS timer
 is restarted with pending commands

---
 src/HsmEventDispatcherFreeRTOS.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index 6665346..0386d83 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -183,24 +183,24 @@ void HsmEventDispatcherFreeRTOS::startTimerImpl(const TimerID_t timerID,
     } else {
         timer = it->second;
 
-        if (xTimerGetPeriod(timer) != convertToTicks(intervalMs)) {
-            if (pdPASS != xTimerChangePeriod(timer, convertToTicks(intervalMs), 0)) {
-                xTimerDelete(timer, 0);
-                {
-                    InterruptsFreeSection lck;
-                    mNativeTimerHandlers.erase(timerID);
-                }
-
-                HSM_TRACE_ERROR("xTimerChangePeriod failed");
+        // NOTE: current period can't be used to skip this. it doesn't include changes which were not processed yet
+        if (pdPASS != xTimerChangePeriod(timer, convertToTicks(intervalMs), 0)) {
+            xTimerDelete(timer, 0);
+            {
+                InterruptsFreeSection lck;
+                mNativeTimerHandlers.erase(timerID);
             }
+
+            timer = nullptr;
+            HSM_TRACE_ERROR("xTimerChangePeriod failed");
         }
+    }
 
+    if (nullptr != timer) {
         // NOTE: not available in all versions
         // if (uxTimerGetReloadMode(timer) != reloadMode)
         { vTimerSetReloadMode(timer, reloadMode); }
-    }
 
-    if (nullptr != timer) {
         // try to start timer without blocking
         // NOTE: this will not work for sync transitions which are called from ISR
         if (pdPASS != xTimerStart(timer, 0)) {
@@ -213,7 +213,7 @@ void HsmEventDispatcherFreeRTOS::startTimerImpl(const TimerID_t timerID,
             HSM_TRACE_ERROR("xTimerStart failed");
         }
     } else {
-        HSM_TRACE_ERROR("xTimerCreate failed");
+        HSM_TRACE_ERROR("failed to create or change timer");
     }
 }
 
-- 
2.43.0


From 1e73ff2012bec6f0f601b541f641a7e8e3ca2e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 44/59] fix: ignore expired timers of the FreeRTOS dispatcher
 which were restarted in the meantime

---
 include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp |  7 +++++++
 src/HsmEventDispatcherFreeRTOS.cpp            | 19 +++++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp b/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
index 6ef8683..ef31000 100644
--- a/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
+++ b/include/hsmcpp/HsmEventDispatcherFreeRTOS.hpp
@@ -114,12 +114,19 @@ protected:
 
     static void onTimerEvent(TimerHandle_t timerHandle);
 
+private:
+    struct TimerPeriod {
+        TickType_t startTime = 0;
+        TickType_t duration = 0;
+    };
+
 private:
     TaskHandle_t mDispatcherTask = nullptr;
 
     configSTACK_DEPTH_TYPE mStackDepth = configMINIMAL_STACK_SIZE;
     UBaseType_t mPriority = tskIDLE_PRIORITY;
     std::map<TimerID_t, TimerHandle_t> mNativeTimerHandlers; // protected by InterruptsFreeSection class
+    std::map<TimerID_t, TimerPeriod> mTimerPeriods;          // protected by mHandlersSync
 };
 
 }  // namespace hsmcpp
diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index 0386d83..499da85 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -161,9 +161,13 @@ void HsmEventDispatcherFreeRTOS::startTimerImpl(const TimerID_t timerID,
                               intervalMs,
                               BOOL2INT(isSingleShot));
     auto it = mNativeTimerHandlers.end();
+    TimerPeriod& timerPeriod = mTimerPeriods[timerID];
     TimerHandle_t timer = nullptr;
     UBaseType_t reloadMode = (false == isSingleShot ? pdTRUE : pdFALSE);
 
+    timerPeriod.startTime = xTaskGetTickCount();
+    timerPeriod.duration = convertToTicks(intervalMs);
+
     {
         InterruptsFreeSection lck;
         it = mNativeTimerHandlers.find(timerID);
@@ -290,6 +294,7 @@ void HsmEventDispatcherFreeRTOS::onTimerEvent(TimerHandle_t timerHandle) {
         HsmEventDispatcherFreeRTOS* pThis = static_cast<HsmEventDispatcherFreeRTOS*>(pvTimerGetTimerID(timerHandle));
 
         if (nullptr != pThis) {
+            LockGuard lckHandlers(pThis->mHandlersSync);
             TimerID_t timerID = INVALID_HSM_TIMER_ID;
 
             {
@@ -303,8 +308,18 @@ void HsmEventDispatcherFreeRTOS::onTimerEvent(TimerHandle_t timerHandle) {
                 }
             }
 
-            // NOTE: expired singleshot timer is kept because it can be restarted
-            (void)pThis->handleTimerEvent(timerID);
+            if (INVALID_HSM_TIMER_ID != timerID) {
+                TimerPeriod& timerPeriod = pThis->mTimerPeriods[timerID];
+
+                const TickType_t elapsedTime = xTaskGetTickCount() - timerPeriod.startTime;
+
+                // NOTE: timer could have been restarted after it expired. in this case new interval is not finished yet
+                if (elapsedTime >= timerPeriod.duration) {
+                    timerPeriod.startTime += timerPeriod.duration;
+                    // NOTE: expired singleshot timer is kept because it can be restarted
+                    (void)pThis->handleTimerEventLocked(timerID);
+                }
+            }
         }
     }
 }
-- 
2.43.0


From e110cc35abc14d11e995adf7a4fbaebb684828b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:35 +0000
Subject: [PATCH 45/59] fix: do not lock FreeRTOS dispatcher when a timer
 handler emits events

---
 src/HsmEventDispatcherFreeRTOS.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index 499da85..c6ddff5 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -65,8 +65,7 @@ void HsmEventDispatcherFreeRTOS::emitEvent(const HandlerID_t handlerID) {
     HSM_TRACE_CALL_DEBUG();
 
     if (nullptr != mDispatcherTask) {
-        dispatchEnqueuedEvents();
-
+        // NOTE: enqueued events can't be dispatched here because mHandlersSync is locked when called from a timer handler
         {
             // TODO: this will work only for single-core FreeRTOS
             InterruptsFreeSection lck;
-- 
2.43.0


From ffc028f6243fb972a59c6824d94dac574ca8747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 46/59] fix: synchronize the check for pending events in the
 task of the FreeRTOS dispatcher

---
 src/HsmEventDispatcherFreeRTOS.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherFreeRTOS.cpp b/src/HsmEventDispatcherFreeRTOS.cpp
index c6ddff5..6981ec6 100644
--- a/src/HsmEventDispatcherFreeRTOS.cpp
+++ b/src/HsmEventDispatcherFreeRTOS.cpp
@@ -267,10 +267,17 @@ void HsmEventDispatcherFreeRTOS::doDispatching(void* pvParameters) {
             pThis->dispatchPendingEventsImpl(events);
 
             if (false == pThis->mStopDispatcher) {
-                if (true == pThis->mPendingEvents.empty()) {
+                bool noPendingEvents = false;
+
+                {
+                    InterruptsFreeSection lck;
+                    noPendingEvents = pThis->mPendingEvents.empty();
+                }
+
+                if (true == noPendingEvents) {
                     HSM_TRACE_DEBUG("wait for emit...");
                     ulTaskNotifyTake(pdTRUE, portMAX_DELAY);
-                    HSM_TRACE_DEBUG("woke up. pending events=%lu", pThis->mPendingEvents.size());
+                    HSM_TRACE_DEBUG("woke up");
                 }
             }
         }
-- 
2.43.0


From 34631027e4fedb2d37653d83d2d788f15896b752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 47/59] fix: write names of states and events to the debug log
 when traces are disabled

---
 src/HsmImpl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 9d3ec94..f1118ab 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1873,7 +1873,10 @@ void HierarchicalStateMachine::Impl::dumpActiveStates() {
 
     HSM_TRACE_DEBUG("active states: <%s>", temp.c_str());
 }
+#endif  // HSM_DISABLE_DEBUG_TRACES
 
+// NOTE: names are also written to the debug log
+#if !defined(HSM_DISABLE_DEBUG_TRACES) || defined(HSMBUILD_DEBUGGING)
 std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state) {
     std::string res;
   #ifndef HSM_DISABLE_THREADSAFETY
@@ -1899,7 +1902,7 @@ std::string HierarchicalStateMachine::Impl::getEventName(const EventID_t event)
 
     return res;
 }
-#else   // HSM_DISABLE_DEBUG_TRACES
+#else   // !defined(HSM_DISABLE_DEBUG_TRACES) || defined(HSMBUILD_DEBUGGING)
 
 std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state) {
     return std::string();
@@ -1908,6 +1911,6 @@ std::string HierarchicalStateMachine::Impl::getStateName(const StateID_t state)
 std::string HierarchicalStateMachine::Impl::getEventName(const EventID_t event) {
     return std::string();
 }
-#endif  // HSM_DISABLE_DEBUG_TRACES
+#endif  // !defined(HSM_DISABLE_DEBUG_TRACES) || defined(HSMBUILD_DEBUGGING)
 
 }  // namespace hsmcpp
\ No newline at end of file
-- 
2.43.0


From 4ff0eb563690d2dd4b4fd1eeb0e1702c37381447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 48/59] fix: write arguments with special characters to the
 debug log in a form which can be read back

---
 src/HsmImpl.cpp | 52 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index f1118ab..c935080 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1768,6 +1768,35 @@ void HierarchicalStateMachine::Impl::disableHsmDebugging() {
 #endif
 }
 
+#ifdef HSMBUILD_DEBUGGING
+// NOTE: text must not break the structure of the log file (YAML)
+static std::string toLogString(const std::string& text) {
+    constexpr const char* hexDigits = "0123456789abcdef";
+    constexpr unsigned char firstPrintableChar = 0x20;
+    constexpr unsigned char deleteChar = 0x7F;
+    std::string result("\"");
+
+    for (const char curChar : text) {
+        const unsigned char charCode = static_cast<unsigned char>(curChar);
+
+        if (('"' == curChar) || ('\\' == curChar)) {
+            result += '\\';
+            result += curChar;
+        } else if ((charCode < firstPrintableChar) || (deleteChar == charCode)) {
+            result += "\\x";
+            result += hexDigits[charCode >> 4U];
+            result += hexDigits[charCode & 0x0FU];
+        } else {
+            result += curChar;
+        }
+    }
+
+    result += '"';
+
+    return result;
+}
+#endif  // HSMBUILD_DEBUGGING
+
 void HierarchicalStateMachine::Impl::logHsmAction(const HsmLogAction action,
                                                   const StateID_t fromState,
                                                   const StateID_t targetState,
@@ -1833,27 +1862,28 @@ void HierarchicalStateMachine::Impl::logHsmAction(const HsmLogAction action,
                     "  active_states:";
 
         for (const auto& curState : mActiveStates) {
-            *mHsmLog << "\n    - \"" << getStateName(curState) << "\"";
+            *mHsmLog << "\n    - " << toLogString(getStateName(curState));
         }
 
         *mHsmLog << "\n  action: " << actionsMap.at(action)
                  << "\n"
-                    "  from_state: \""
-                 << getStateName(fromState)
-                 << "\"\n"
-                    "  target_state: \""
-                 << getStateName(targetState)
-                 << "\"\n"
-                    "  event: \""
-                 << getEventName(event)
-                 << "\"\n"
+                    "  from_state: "
+                 << toLogString(getStateName(fromState))
+                 << "\n"
+                    "  target_state: "
+                 << toLogString(getStateName(targetState))
+                 << "\n"
+                    "  event: "
+                 << toLogString(getEventName(event))
+                 << "\n"
                     "  status: "
                  << (hasFailed ? "failed" : "")
                  << "\n"
                     "  args:";
 
         for (const auto& curArg : args) {
-            *mHsmLog << "\n    - " << curArg.toString();
+            *mHsmLog << "\n    - "
+                     << ((curArg.isNumeric() || curArg.isBool()) ? curArg.toString() : toLogString(curArg.toString()));
         }
 
         mHsmLog->flush();
-- 
2.43.0


From 70241d10def0acf332e44100fb6757eac058c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 49/59] fix: reject names with non-Latin letters or a trailing
 line break in scxml2gen

---
 tools/scxml2gen/scxml2gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index aaa3a73..1da2e83 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -31,8 +31,8 @@ def isStateActionDefinition(identifier):
 
 def validateIdentifier(identifier):
     isCorrect = False
-    p = re.compile("^[a-zA-Z_]+[\w]*$")
-    if p.match(identifier) is None:
+    p = re.compile("[a-zA-Z_][a-zA-Z0-9_]*")
+    if p.fullmatch(identifier) is None:
         print(f"ERROR: <{identifier}> is not a valid C++ identifier (only digits, underscores, lowercase and uppercase Latin letters are permitted)")
         exit(3)
     else:
-- 
2.43.0


From 920c0359989643e6cf2a1556829e193cce14a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 50/59] fix: validate names of events of final states and
 initial transitions in scxml2gen

---
 tools/scxml2gen/scxml2gen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 1da2e83..e72ecea 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -170,6 +170,7 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
 
                         if "event" in initialTransition.attrib:
                             transitionInfo["event"] = initialTransition.attrib["event"]
+                            validateIdentifier(transitionInfo["event"])
                         if "cond" in initialTransition.attrib:
                             transitionInfo["condition"] = getCallbackName(initialTransition)
 
@@ -227,6 +228,7 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         newState["type"] = STATETYPE_FINAL
                         if "event" in curState.attrib:
                             newState["final_event"] = curState.attrib["event"]
+                            validateIdentifier(newState["final_event"])
 
                     if getTag(curState.tag) == "history":
                         newState["type"] = STATETYPE_HISTORY
-- 
2.43.0


From 3bf928590bad4b427d626ef5a1b3a16d759bf89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 51/59] fix: generate valid code for default transitions of
 history states

---
 tools/scxml2gen/scxml2gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index e72ecea..75bb8dc 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -577,12 +577,12 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
 
                             if ('transitions' in curSubstate) and (len(curSubstate['transitions']) > 0):
                                 defaultTransition = curSubstate['transitions'][0]
-                                defaultTarget = f", {getStateEnumValue(genVars, defaultTransition['target'])})"
+                                defaultTarget = f", {getStateEnumValue(genVars, defaultTransition['target'])}"
                                 if 'callback' in defaultTransition:
                                     if defaultTransition['callback'] not in definedCallbacks:
                                         genVars["HSM_TRANSITION_ACTIONS"].add(prepareHsmcppTransitionCallbackDeclaration(defaultTransition['callback']))
                                         definedCallbacks.append(defaultTransition['callback'])
-                                    historyCallback += f", &{genVars['CLASS_NAME']}::{defaultTransition['callback']}"
+                                    historyCallback += f", this, {prepareTransitionCallbackPtr(defaultTransition['callback'])}"
 
                             genVars["REGISTER_SUBSTATES"].append(f"registerHistory({getStateEnumValue(genVars, curState['id'])}, " +
                                                                  f"{getStateEnumValue(genVars, curSubstate['id'])}, " +
-- 
2.43.0


From d704d8203dd560ced12659c39eec21c442d2388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 52/59] fix: declare events which are only used by final states
 or state actions in generated code

---
 tools/scxml2gen/scxml2gen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 75bb8dc..40a4746 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -657,6 +657,8 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
                     for curAction in curState['actions'][actionTrigger]:
                         if '_timer' in curAction['action']:
                             genVars["ENUM_TIMERS_ITEM"].add(curAction['args'][0])
+                        else:
+                            genVars["ENUM_EVENTS_ITEM"].add(curAction['args'][0])
                         stateId = f"{getStateEnumValue(genVars, curState['id'])}"
                         genVars["REGISTER_ACTIONS"].append(prepareRegisterActionFunction(stateId,
                                                                                          genVars['ENUM_EVENTS'],
@@ -672,6 +674,7 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
             if (curState["type"] != STATETYPE_HISTORY):
                 if curState["type"] == STATETYPE_FINAL:
                     if "final_event" in curState:
+                        genVars["ENUM_EVENTS_ITEM"].add(curState['final_event'])
                         finalEventID = f"{getEventEnumValue(genVars, curState['final_event'])}"
                     else:
                         finalEventID = "hsmcpp::INVALID_HSM_EVENT_ID"
-- 
2.43.0


From 6c0ca32817006eb29addbcadcd4da25fead4f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 53/59] fix: do not register history states of parallel states
 as entry points in generated code

---
 tools/scxml2gen/scxml2gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 40a4746..523f8d4 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -234,7 +234,8 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         newState["type"] = STATETYPE_HISTORY
                         newState["history_type"] = curState.attrib["type"]
 
-                    if (getTag(parentElement.tag) == "parallel") or (newState['id'] in initialStates):
+                    if (newState["type"] != STATETYPE_HISTORY) and \
+                       ((getTag(parentElement.tag) == "parallel") or (newState['id'] in initialStates)):
                         newState["type"] = STATETYPE_INITIAL
                         if newState['id'] in initialStatesTransitions:
                             newState["initial_state_transitions"] = initialStatesTransitions[newState['id']]
-- 
2.43.0


From 824589f8986b62c185ae386f2008102356057862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 54/59] fix: keep unconditional initial transition of a state
 which also has conditional ones in scxml2gen

---
 tools/scxml2gen/scxml2gen.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 523f8d4..ce5a4ec 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -151,6 +151,7 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
     states = []
     initialStates = []
     initialStatesTransitions = {}
+    unconditionalInitialStates = []
 
     # entry point can be defined in multiple ways:
     #  - as "initial" attribute of <state> node
@@ -177,6 +178,13 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
                         if initialStateName not in initialStatesTransitions:
                             initialStatesTransitions[initialStateName] = []
                         initialStatesTransitions[initialStateName].append(transitionInfo)
+                    else:
+                        unconditionalInitialStates.append(initialStateName)
+
+            # keep unconditional entry if state also has entry transitions with event or condition
+            for initialStateName in unconditionalInitialStates:
+                if initialStateName in initialStatesTransitions:
+                    initialStatesTransitions[initialStateName].append({})
 
             if len(initialStates) == 0:
                 print(f"ERROR: <initial> element doesn't have transition defined or that transition "
@@ -877,7 +885,7 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
 
         for currentEntryTransition in initialTransitions:
             condition = ""
-            if currentEntryTransition is not None:
+            if currentEntryTransition:
                 condition = " : "
                 if 'event' in currentEntryTransition:
                     condition += currentEntryTransition['event']
-- 
2.43.0


From ef55a5dc3df586df80d024bc3ae37c646a35b9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 55/59] fix: process the event of a final state after pending
 entry points of the same transition

---
 src/HsmImpl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index c935080..f04eece 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1563,7 +1563,12 @@ bool HierarchicalStateMachine::Impl::processFinalStateTransition(const PendingEv
 
                 {
                     HSM_SYNC_EVENTS_QUEUE();
-                    mPendingEvents.push_front(finalStateEvent);
+                    // transitions which are still in progress (pending entry points and history) must be completed first
+                    const auto itPos = std::find_if(mPendingEvents.begin(), mPendingEvents.end(), [](const PendingEventInfo& item) {
+                        return (TransitionBehavior::REGULAR == item.transitionType);
+                    });
+
+                    (void)mPendingEvents.insert(itPos, finalStateEvent);
                 }
             }
         }
-- 
2.43.0


From f3c1d10f50d9d3e5c210a0c8d7c029785471e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 56/59] fix: check possibility of a transition for the state
 reached after pending events

Results of the previous lookups were not cleared, so with a pending event that
could be processed every event was reported as possible. Pending events were
also checked with the arguments of the query, and conditions were called while
the queue was locked (deadlock if a condition sends an event).
---
 src/HsmImpl.cpp | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index f04eece..45c7ef8 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1002,33 +1002,26 @@ bool HierarchicalStateMachine::Impl::checkTransitionPossibility(const StateID_t
 
     StateID_t currentState = fromState;
     std::list<TransitionInfo> possibleTransitions;
-    EventID_t nextEvent = INVALID_HSM_EVENT_ID;
-    bool possible = true;
+    std::list<PendingEventInfo> pendingEvents;
 
     {
-        // NOTE: findTransitionTarget can be a bit heavy. possible optimization to reduce lock time is
-        //       to make a copy of mPendingEvents and work with it
+        // NOTE: conditions are evaluated without holding the lock because they could send new events
         HSM_SYNC_EVENTS_QUEUE();
+        pendingEvents = mPendingEvents;
+    }
 
-        for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()) && (true == possible); ++it) {
-            nextEvent = it->id;
-            possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
+    for (const auto& pendingEvent : pendingEvents) {
+        possibleTransitions.clear();
 
-            if (true == possible) {
-                if (false == possibleTransitions.empty()) {
-                    currentState = possibleTransitions.front().destinationState;
-                } else {
-                    possible = false;
-                    break;
-                }
-            }
+        // events which can't be handled will be ignored and don't change current state
+        if (true == findTransitionTarget(currentState, pendingEvent.id, pendingEvent.getArgs(), true, possibleTransitions)) {
+            currentState = possibleTransitions.front().destinationState;
         }
     }
 
-    if (true == possible) {
-        nextEvent = event;
-        possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
-    }
+    possibleTransitions.clear();
+
+    const bool possible = findTransitionTarget(currentState, event, args, true, possibleTransitions);
 
     HSM_TRACE_CALL_RESULT("%d", BOOL2INT(possible));
     return possible;
-- 
2.43.0


From b01f94d2a15b58ee5340497eacd5094c095acae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 57/59] fix: generate final states which are entry points of
 their parent as final states in scxml2gen

---
 tools/scxml2gen/scxml2gen.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index ce5a4ec..1a2255e 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -234,6 +234,8 @@ def parseScxmlStates(parentElement, rootDir, namePrefix):
 
                     if getTag(curState.tag) == "final":
                         newState["type"] = STATETYPE_FINAL
+                        # NOTE: type will be replaced if final state is also an entry point
+                        newState["is_final"] = True
                         if "event" in curState.attrib:
                             newState["final_event"] = curState.attrib["event"]
                             validateIdentifier(newState["final_event"])
@@ -681,7 +683,7 @@ def generateCppCode(hsm, pathHpp, pathCpp, class_name, class_suffix, template_hp
                 registerCallbacks = ""
 
             if (curState["type"] != STATETYPE_HISTORY):
-                if curState["type"] == STATETYPE_FINAL:
+                if "is_final" in curState:
                     if "final_event" in curState:
                         genVars["ENUM_EVENTS_ITEM"].add(curState['final_event'])
                         finalEventID = f"{getEventEnumValue(genVars, curState['final_event'])}"
@@ -811,7 +813,7 @@ def generateStatesList(states, level):
     offset = generateOffset(level * 4)
 
     for curState in states:
-        if curState["type"] not in [STATETYPE_HISTORY, STATETYPE_FINAL]:
+        if (curState["type"] != STATETYPE_HISTORY) and ("is_final" not in curState):
             statesList += f"{offset}state {curState['id']}\n"
     statesList += "\n"
     return statesList
@@ -916,7 +918,7 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
             plantumlState += substatePlantuml
             finalStates += substateFinalStates
         plantumlState += f"{offset}}}\n\n"
-    elif stateData["type"] == STATETYPE_FINAL:
+    elif "is_final" in stateData:
         finalStates = [stateData['id']]
     else:
         highlightOnEntryGroup = ""
-- 
2.43.0


From 2b95b8b58f0a1a0edf8a42622d5f0a23c5f9f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 58/59] fix: draw arrows to final states correctly in PlantUML
 diagrams

---
 tools/scxml2gen/scxml2gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index 1a2255e..f13dfb6 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -1022,6 +1022,7 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
     # but skip self transitions since in this case state will be active
     if highlight \
             and (stateData["type"] != STATETYPE_HISTORY) \
+            and ("is_final" not in stateData) \
             and (stateData['id'] in highlight['transitions']) \
             and (stateData['id'] != highlight['transitions'][stateData['id']]["from"]):
         plantumlState += f"{offset}state {stateData['id']} ##[dotted]{highlightColorActive}\n"
@@ -1073,7 +1074,8 @@ def generatePlantumlInMemory(hsm, left2right=False, highlight=None):
         finalStates += stateFinalStates
 
     for finalID in finalStates:
-        plantuml = plantuml.replace(f"--> {finalID}", "--> [*]")
+        # NOTE: arrow can have a style and ID of another state can start with ID of the final state
+        plantuml = re.sub(f"(-(?:\\[[^\\]]*\\])?->) {finalID}(?![a-zA-Z0-9_])", "\\1 [*]", plantuml)
 
     plantuml += "\n@enduml"
     return plantuml
-- 
2.43.0


From 4a4ed60941850f8933f301d2895e916b5fdcb782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:52 +0000
Subject: [PATCH 59/59] fix: highlight entry transitions with an event in
 PlantUML diagrams

---
 tools/scxml2gen/scxml2gen.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/scxml2gen/scxml2gen.py b/tools/scxml2gen/scxml2gen.py
index f13dfb6..f2f22fa 100644
--- a/tools/scxml2gen/scxml2gen.py
+++ b/tools/scxml2gen/scxml2gen.py
@@ -877,9 +877,6 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
     # -----------------------------------
     # handle initial states
     if stateData["type"] == STATETYPE_INITIAL:
-        condition = ""
-        highlightEntryTransition = ""
-        entryTransitionArgs = ""
         if 'initial_state_transitions' in stateData:
             initialTransitions = stateData['initial_state_transitions']
         else:
@@ -887,6 +884,8 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
 
         for currentEntryTransition in initialTransitions:
             condition = ""
+            highlightEntryTransition = ""
+            entryTransitionArgs = ""
             if currentEntryTransition:
                 condition = " : "
                 if 'event' in currentEntryTransition:
@@ -897,8 +896,9 @@ def generatePlantumlState(hsm, stateData, level, highlight=None):
             if highlight and (stateData['id'] in highlight['transitions']):
                 highlightEntryTransitionInfo = highlight['transitions'][stateData['id']]
                 if (highlightEntryTransitionInfo["from"] == "") and \
-                    (('initial_state_transitions' not in stateData) or \
-                    highlightEntryTransitionInfo["event"] == stateData['initial_state_transitions']):
+                    ((currentEntryTransition is None) or \
+                    ('event' not in currentEntryTransition) or \
+                    (highlightEntryTransitionInfo["event"] == currentEntryTransition['event'])):
                     highlightEntryTransition = f"[#{highlightColorActive},bold]"
                     if "args" in highlightEntryTransitionInfo:
                         entryTransitionArgs = highlightEntryTransitionInfo['args']
-- 
2.43.0

