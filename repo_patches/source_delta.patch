From bf216535b289d4590c48e68edc7739818ac60ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 01/40] fix: HierarchicalLB computed a bottom parent outside
 the job for odd node counts

With an odd number of nodes (and with a single node) the offset used to pair
each node with its leaf-level parent was rounded up past the number of nodes,
so the last node sent its load to a node that does not exist and the load
balancer aborted.
---
 src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc b/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc
index a89ab18..514ca96 100644
--- a/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc
+++ b/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc
@@ -197,9 +197,6 @@ void HierarchicalLB::setupTree(TimeType const threshold) {
   if (children.size() == 0) {
     for (NodeType node = 0; node < hierlb_nary; node++) {
       NodeType factor = num_nodes / hierlb_nary * hierlb_nary;
-      if (factor < num_nodes) {
-        factor += hierlb_nary;
-      }
       NodeType const child = (this_node * hierlb_nary + node + 1) - factor - 1;
       if (child < num_nodes && child >= 0) {
         children.emplace(
@@ -221,9 +218,6 @@ void HierarchicalLB::setupTree(TimeType const threshold) {
   parent = (this_node - 1) / hierlb_nary;
 
   NodeType factor = num_nodes / hierlb_nary * hierlb_nary;
-  if (factor < num_nodes) {
-    factor += hierlb_nary;
-  }
 
   bottom_parent = ((this_node + 1 + factor) - 1) / hierlb_nary;
 
-- 
2.43.0


From 6d021dfdbe98a6a4af1957edf00c2e51cb7835bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 02/40] fix: set the bare-handler LB element ID before the
 start-up barrier runs handlers

Handlers of the start-up barrier run before ActiveMessenger::startup(), so
their sends were recorded in the phase 0 communication graph as coming from an
element without ID or node; balancers that need the communication graph then
aborted in the first phase.
---
 src/vt/messaging/active.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 8ed080b..02edbcc 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -148,12 +148,14 @@ ActiveMessenger::ActiveMessenger()
 
 void ActiveMessenger::initialize() {
   comm_ = theContext()->getComm();
-}
 
-void ActiveMessenger::startup() {
+  // Must be set before any message is delivered: handlers already run during
+  // the start-up barrier, before startup() is called, and record LB data
   bare_handler_dummy_elm_id_for_lb_data_ =
     elm::ElmIDBits::createBareHandler(this_node_);
+}
 
+void ActiveMessenger::startup() {
 #if vt_check_enabled(lblite)
   // Hook to collect LB data about objgroups
   thePhase()->registerHookCollective(phase::PhaseHook::DataCollection, [this]{
-- 
2.43.0


From e9c281083d28cdaecac0faeb842d5c50958c1eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 03/40] fix: poll for progress when idle with
 --vt_sched_progress_han or --vt_sched_progress_sec

With a handler-count interval configured, progress was made only after that
many handlers had been executed. An idle scheduler executes none, so it never
polled and every multi-node program hung in the start-up barrier.
---
 src/vt/scheduler/scheduler.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vt/scheduler/scheduler.cc b/src/vt/scheduler/scheduler.cc
index d2c6ba1..cb75641 100644
--- a/src/vt/scheduler/scheduler.cc
+++ b/src/vt/scheduler/scheduler.cc
@@ -251,7 +251,12 @@ void Scheduler::runSchedulerOnceImpl(bool msg_only) {
   if (special_progress_) {
     auto current_time = getRecentTime();
     auto time_since_last_progress = current_time - last_progress_time_;
-    if (shouldCallProgress(processed_after_last_progress_, time_since_last_progress)) {
+    // With nothing to execute no handler will ever be counted, so an idle
+    // scheduler must always poll or it would never receive any work
+    if (
+      work_queue_.empty() or
+      shouldCallProgress(processed_after_last_progress_, time_since_last_progress)
+    ) {
       runProgress(msg_only, current_time);
     }
   } else if (work_queue_.empty()) {
-- 
2.43.0


From 5ec7d472837ad2a8e936e8f2be29ec4ad9bc8974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 04/40] fix: receive a put payload larger than the maximum MPI
 send size in all its chunks

The sender splits the payload, but the receiver asked for one chunk, so the
handler saw only the first --vt_max_mpi_send_size bytes.
---
 src/vt/messaging/active.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 02edbcc..4f5684b 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -1107,8 +1107,15 @@ void ActiveMessenger::finishPendingActiveMsgAsyncRecv(InProgressIRecv* irecv) {
       envelopeSetPutPtrOnly(msg->env, put_ptr);
       put_finished = true;
     } else {
-      /*bool const put_delivered = */recvDataMsg(
-        1, put_tag, sender,
+      // The sender splits a payload larger than the maximum MPI send size into
+      // several chunks, so receive as many as it sent
+      auto const put_size = envelopeGetPutSize(msg->env);
+      auto const max_per_send = theConfig()->vt_max_mpi_send_size;
+      auto const nchunks = std::max<std::size_t>(
+        1, (put_size + max_per_send - 1) / max_per_send
+      );
+      recvDataDirect(
+        static_cast<int>(nchunks), put_tag, sender, put_size,
         [=](PtrLenPairType ptr, ActionType deleter){
           envelopeSetPutPtr(base->env, std::get<0>(ptr), std::get<1>(ptr));
           processActiveMsg(base, sender, true, deleter);
-- 
2.43.0


From bae5549cde5ce4865812b68ef9dada8be9592776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 05/40] fix: keep every pending data receive when two senders
 use the same tag

Tags are allocated by each sender, so two pending receives can share one; the
second was dropped by the map and its data never received.
---
 src/vt/messaging/active.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/messaging/active.h b/src/vt/messaging/active.h
index 544dbb0..05900a8 100644
--- a/src/vt/messaging/active.h
+++ b/src/vt/messaging/active.h
@@ -326,7 +326,7 @@ struct ActiveMessenger : runtime::component::PollableComponent<ActiveMessenger>
   using EventRecordType      = event::AsyncEvent::EventRecordType;
   using SendFnType           = std::function<SendInfo(PtrLenPairType,NodeType,TagType)>;
   using UserSendFnType       = std::function<void(SendFnType)>;
-  using ContainerPendingType = std::unordered_map<TagType,PendingRecvType>;
+  using ContainerPendingType = std::unordered_multimap<TagType,PendingRecvType>;
   using ReadyHanTagType      = std::tuple<HandlerType, TagType>;
   using HandlerManagerType   = HandlerManager;
   using PendingSendType      = PendingSend;
-- 
2.43.0


From d6f2d945bbe6ae0da8b8bf00a63defeee4b2d30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 06/40] fix: keep a received put payload alive while it is
 forwarded

A node forwarding a broadcast freed the payload buffer once its own handler had
run, although the sends to its children could still be reading it.
---
 src/vt/messaging/active.cc | 19 ++++++++++++++++++-
 src/vt/messaging/active.h  |  4 ++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 4f5684b..a2f9e6d 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -274,6 +274,9 @@ EventType ActiveMessenger::sendMsgBytesWithPut(
       if (ret_tag != env_tag) {
         envelopeSetPutTag(msg->env, ret_tag);
       }
+      if (forward_put_hold_ != nullptr) {
+        theEvent()->attachAction(ret.getEvent(), forward_put_hold_());
+      }
     }
   }
 
@@ -1118,7 +1121,21 @@ void ActiveMessenger::finishPendingActiveMsgAsyncRecv(InProgressIRecv* irecv) {
         static_cast<int>(nchunks), put_tag, sender, put_size,
         [=](PtrLenPairType ptr, ActionType deleter){
           envelopeSetPutPtr(base->env, std::get<0>(ptr), std::get<1>(ptr));
-          processActiveMsg(base, sender, true, deleter);
+
+          // Forwarding the message to other nodes sends the payload out of this
+          // buffer, so it must outlive those sends as well as the handler
+          auto uses = std::make_shared<int>(1);
+          auto release = [uses, deleter]{
+            if (--*uses == 0) {
+              deleter();
+            }
+          };
+          forward_put_hold_ = [uses, release]() -> ActionType {
+            ++*uses;
+            return release;
+          };
+          processActiveMsg(base, sender, true, release);
+          forward_put_hold_ = nullptr;
         }
      );
     }
diff --git a/src/vt/messaging/active.h b/src/vt/messaging/active.h
index 05900a8..0d3013a 100644
--- a/src/vt/messaging/active.h
+++ b/src/vt/messaging/active.h
@@ -76,6 +76,7 @@
 #include <vector>
 #include <unordered_map>
 #include <limits>
+#include <functional>
 #include <stack>
 
 namespace vt {
@@ -1750,6 +1751,9 @@ private:
   RequestHolder<InProgressDataIRecv> in_progress_data_irecv;
   RequestHolder<AsyncOpWrapper> in_progress_ops;
   NodeType this_node_                                     = uninitialized_destination;
+  // Set while a received put message is forwarded: takes a hold on its payload
+  // and returns the action that drops it
+  std::function<ActionType()> forward_put_hold_           = nullptr;
 
 private:
   // Diagnostic counter gauge combos for sent counts/bytes
-- 
2.43.0


From 3a30c4eee9527909a7138363f7210c6a85b74e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 07/40] fix: forward a put payload under a tag of the
 forwarding node

Reusing the originator's tag collided with the forwarder's own data sends to the
same child, which then received the wrong payload.
---
 src/vt/messaging/active.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index a2f9e6d..ceb039a 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -1122,6 +1122,10 @@ void ActiveMessenger::finishPendingActiveMsgAsyncRecv(InProgressIRecv* irecv) {
         [=](PtrLenPairType ptr, ActionType deleter){
           envelopeSetPutPtr(base->env, std::get<0>(ptr), std::get<1>(ptr));
 
+          // The tag belongs to the sender: if the message is forwarded, this
+          // node allocates its own
+          envelopeSetPutTag(base->env, no_tag);
+
           // Forwarding the message to other nodes sends the payload out of this
           // buffer, so it must outlive those sends as well as the handler
           auto uses = std::make_shared<int>(1);
-- 
2.43.0


From f5c2396b20d19d093872e34fe68064ff1223efaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 08/40] fix: asking a remote root whether an epoch terminated
 must not hold the current epoch

The inquiry was sent in the current epoch and its handler registered an action
there, so asking from inside the epoch (or one nested in it) deadlocked.
---
 src/vt/termination/termination.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/termination/termination.cc b/src/vt/termination/termination.cc
index 197b705..c4ad254 100644
--- a/src/vt/termination/termination.cc
+++ b/src/vt/termination/termination.cc
@@ -775,7 +775,11 @@ TermStatusEnum TerminationDetector::testEpochTerminated(EpochType epoch) {
          * terminated or not
          */
         auto msg = makeMessage<TermTerminatedMsg>(epoch,this_node_);
+        // The inquiry must not become work of the current epoch, which might be
+        // the one (or be nested in the one) whose termination it waits for
+        pushEpoch(any_epoch_sentinel);
         theMsg()->sendMsg<inquireEpochTerminated>(root, msg);
+        popEpoch(any_epoch_sentinel);
         epoch_wait_status_.insert(epoch);
       }
       status = TermStatusEnum::Remote;
-- 
2.43.0


From 52def68b12105071b66430a3a9c8bdf5d6b50a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 09/40] fix: ask the root of a Dijkstra-Scholten epoch whether
 it terminated

Any other node took the initial, terminated state of its own epoch window as
the answer, so isEpochTerminated reported a live epoch as terminated and an
action on it ran at once. A reply also terminated a wave-based epoch a second
time.
---
 src/vt/termination/termination.cc | 19 +++++++++++++++++--
 src/vt/termination/termination.h  |  3 +++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/vt/termination/termination.cc b/src/vt/termination/termination.cc
index c4ad254..e0e9a8b 100644
--- a/src/vt/termination/termination.cc
+++ b/src/vt/termination/termination.cc
@@ -727,7 +727,13 @@ void TerminationDetector::replyTerminated(
     epoch_wait_status_.erase(iter);
   }
 
-  epochTerminated(epoch, CallFromEnum::NonRoot);
+  // For a wave-based epoch every node is told with a broadcast; a reply only
+  // informs nodes about a DS epoch. The global count for the epoch is consumed
+  // by its root, which is the node that produced it.
+  if (isDS(epoch)) {
+    remote_terminated_.insert(epoch);
+    queueActions(epoch);
+  }
 }
 
 void TerminationDetector::updateResolvedEpochs(EpochType const& epoch) {
@@ -753,7 +759,16 @@ TermStatusEnum TerminationDetector::testEpochTerminated(EpochType epoch) {
   TermStatusEnum status = TermStatusEnum::Pending;
   auto const& is_rooted_epoch = epoch::EpochManip::isRooted(epoch);
 
-  if (theEpoch()->getTerminatedWindow(epoch)->isTerminated(epoch)) {
+  // Only the root of a DS epoch knows whether it is active: in the window of any
+  // other node it always is in its initial, terminated state
+  bool const is_remote_ds =
+    isDS(epoch) and epoch::EpochManip::node(epoch) != this_node_;
+
+  bool const is_known_terminated = is_remote_ds ?
+    remote_terminated_.find(epoch) != remote_terminated_.end() :
+    theEpoch()->getTerminatedWindow(epoch)->isTerminated(epoch);
+
+  if (is_known_terminated) {
     status = TermStatusEnum::Terminated;
   } else if (is_rooted_epoch) {
     auto const& root = epoch::EpochManip::node(epoch);
diff --git a/src/vt/termination/termination.h b/src/vt/termination/termination.h
index c88cb5f..f523d97 100644
--- a/src/vt/termination/termination.h
+++ b/src/vt/termination/termination.h
@@ -699,6 +699,7 @@ public:
       | epoch_state_
       | epoch_ready_
       | epoch_wait_status_
+      | remote_terminated_
       | has_printed_epoch_graph;
   }
 
@@ -820,6 +821,8 @@ private:
   std::unordered_set<EpochType> epoch_ready_            = {};
   // list of remote epochs pending status report of finished
   std::unordered_set<EpochType> epoch_wait_status_      = {};
+  // DS epochs rooted elsewhere that their root reported as terminated
+  std::unordered_set<EpochType> remote_terminated_      = {};
   // has printed epoch graph during abort
   bool has_printed_epoch_graph                          = false;
   NodeType this_node_ = uninitialized_destination;
-- 
2.43.0


From 6ab17eeace5df23a2e422f626ab2d7988fae15cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 10/40] fix: an epoch that was not yet activated on a node is
 not terminated

A handler that runs in a collective or rooted epoch before its node has
created (or been told of) that epoch found it terminated.
---
 src/vt/epoch/epoch_window.cc | 6 +++++-
 src/vt/epoch/epoch_window.h  | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vt/epoch/epoch_window.cc b/src/vt/epoch/epoch_window.cc
index cefa98a..fc5acd0 100644
--- a/src/vt/epoch/epoch_window.cc
+++ b/src/vt/epoch/epoch_window.cc
@@ -147,6 +147,10 @@ void EpochWindow::activateEpoch(EpochType epoch) {
     terminated_epochs_.erase(epoch);
   }
 
+  if (epoch > last_activated_) {
+    last_activated_ = epoch;
+  }
+
   vt_debug_print(
     normal, term,
     "activateEpoch: (after) epoch={:x}, first={:x}, last={:x}, num={}, "
@@ -186,7 +190,7 @@ bool EpochWindow::isTerminated(EpochType epoch) const {
     terminated_epochs_.size(), terminated_epochs_.compression()
   );
 
-  return terminated_epochs_.contains(epoch);
+  return epoch <= last_activated_ and terminated_epochs_.contains(epoch);
 }
 
 }} /* end namespace vt::epoch */
diff --git a/src/vt/epoch/epoch_window.h b/src/vt/epoch/epoch_window.h
index 85dd722..6352a85 100644
--- a/src/vt/epoch/epoch_window.h
+++ b/src/vt/epoch/epoch_window.h
@@ -91,7 +91,8 @@ public:
   EpochType getLast()  const { return terminated_epochs_.upper(); }
 
   /**
-   * \brief Check if an epoch is terminated or not.
+   * \brief Check if an epoch is terminated or not. An epoch that was never
+   * activated on this node is not.
    *
    * \param[in] epoch the epoch to check for termination
    */
@@ -137,6 +138,7 @@ public:
     s | archetype_epoch_
       | terminated_epochs_
       | next_epoch_
+      | last_activated_
       | total_terminated_;
   }
 
@@ -160,6 +162,10 @@ private:
   /// next one.
   std::unique_ptr<adt::RangedCounter<EpochType::ImplType>> next_epoch_;
 
+  /// The greatest epoch activated so far on this node. An epoch after it might
+  /// be active on another node, without this node being told of it yet.
+  EpochType last_activated_ = makeEpochZero();
+
   ///
   /// The total number of terminated epochs for this window.
   ///
-- 
2.43.0


From 4045bd8a59ddf27d2935b97e54b349a5368c5a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 11/40] fix: an action on an epoch may add another action on
 the same epoch

The list of actions was changed while it was iterated over.
---
 src/vt/termination/term_action.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/vt/termination/term_action.cc b/src/vt/termination/term_action.cc
index ce90145..be37124 100644
--- a/src/vt/termination/term_action.cc
+++ b/src/vt/termination/term_action.cc
@@ -133,14 +133,16 @@ void TermAction::triggerAllEpochActions(
       iter != epoch_actions_.end()) {
     if (auto iter2 = iter->second.find(encapsulated_epoch);
         iter2 != iter->second.end()) {
-      for (auto&& action : iter2->second) {
+      // An action might add another one for this epoch
+      auto const actions = std::move(iter2->second);
+      iter->second.erase(iter2);
+      if (iter->second.size() == 0) {
+        epoch_actions_.erase(iter);
+      }
+      for (auto&& action : actions) {
         theTerm()->consume(encapsulated_epoch);
         action();
       }
-      iter->second.erase(iter2);
-    }
-    if (iter->second.size() == 0) {
-      epoch_actions_.erase(iter);
     }
   }
 
@@ -150,14 +152,15 @@ void TermAction::triggerAllEpochActions(
       iter != epoch_callable_actions_.end()) {
     if (auto iter2 = iter->second.find(encapsulated_epoch);
         iter2 != iter->second.end()) {
-      for (auto&& action : iter2->second) {
+      auto const actions = std::move(iter2->second);
+      iter->second.erase(iter2);
+      if (iter->second.size() == 0) {
+        epoch_callable_actions_.erase(iter);
+      }
+      for (auto&& action : actions) {
         theTerm()->consume(encapsulated_epoch);
         action->invoke();
       }
-      iter->second.erase(iter2);
-    }
-    if (iter->second.size() == 0) {
-      epoch_callable_actions_.erase(iter);
     }
   }
 }
-- 
2.43.0


From 4048e37ed66f855b6e78ab516f63fa7dca6258c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 12/40] fix: allocate a single epoch in
 EpochManip::getNextRootedEpoch(category)

---
 src/vt/epoch/epoch_manip.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vt/epoch/epoch_manip.cc b/src/vt/epoch/epoch_manip.cc
index 0ce8109..70834a7 100644
--- a/src/vt/epoch/epoch_manip.cc
+++ b/src/vt/epoch/epoch_manip.cc
@@ -104,8 +104,7 @@ EpochType EpochManip::getNextRootedEpoch(
   eEpochCategory const& category
 ) {
   auto const root_node = theContext()->getNode();
-  auto const arch_epoch = getNextRootedEpoch(category, root_node);
-  return getTerminatedWindow(arch_epoch)->allocateNewEpoch();
+  return getNextRootedEpoch(category, root_node);
 }
 
 EpochType EpochManip::getNextRootedEpoch(
-- 
2.43.0


From 99c87ad53448be55bb395617ab65d30498b215d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 13/40] fix: IntegralSet clear() and copies left a stale count
 or insertion hint

---
 src/vt/termination/interval/integral_set.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/vt/termination/interval/integral_set.h b/src/vt/termination/interval/integral_set.h
index ff76a61..de921ec 100644
--- a/src/vt/termination/interval/integral_set.h
+++ b/src/vt/termination/interval/integral_set.h
@@ -79,9 +79,22 @@ struct IntegralSetBase {
   using PositionType        = typename IntervalType::PositionEnum;
 
   IntegralSetBase() : hint_(set_.end()) { }
-  IntegralSetBase(IntegralSetBase const&) = default;
-  IntegralSetBase(IntegralSetBase&&) = default;
-  IntegralSetBase& operator=(IntegralSetBase const&) = default;
+  // The insertion hint must point into this set, not the one copied
+  IntegralSetBase(IntegralSetBase const& other)
+    : lb_(other.lb_),
+      ub_(other.ub_),
+      set_(other.set_),
+      hint_(set_.end()),
+      elms_(other.elms_)
+  { }
+  IntegralSetBase& operator=(IntegralSetBase const& other) {
+    lb_ = other.lb_;
+    ub_ = other.ub_;
+    set_ = other.set_;
+    hint_ = set_.end();
+    elms_ = other.elms_;
+    return *this;
+  }
 
   explicit IntegralSetBase(DomainT base)
     : lb_(base),
@@ -121,7 +134,7 @@ struct IntegralSetBase {
     >
   >
   IteratorType insert(IteratorType it, DomainU&& val) {
-    vtAsserExpr(it not_eq set_.end());
+    vtAssertExpr(it not_eq set_.end());
     return insertInterval(IntervalType(std::forward<DomainU>(val)));
   }
 
@@ -229,6 +242,7 @@ struct IntegralSetBase {
   void clear() {
     set_.clear();
     lb_ = ub_ = 0;
+    elms_ = 0;
     hint_ = set_.end();
   }
 
-- 
2.43.0


From 6af12c27d23bea6c0f7228deea625d0326400efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 14/40] fix: group Range size, membership and split with a
 stride; unsorted shallow copy

---
 src/vt/group/region/group_range.cc        | 6 +++---
 src/vt/group/region/group_shallow_list.cc | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vt/group/region/group_range.cc b/src/vt/group/region/group_range.cc
index e237868..9273154 100644
--- a/src/vt/group/region/group_range.cc
+++ b/src/vt/group/region/group_range.cc
@@ -63,7 +63,7 @@ Range::Range(
 }
 
 /*virtual*/ Range::SizeType Range::getSize() const {
-  return (hi_ - lo_) / stride_;
+  return lo_ < hi_ ? (hi_ - lo_ + stride_ - 1) / stride_ : 0;
 }
 
 /*virtual*/ void Range::sort() {
@@ -76,7 +76,7 @@ Range::Range(
     // List must be sorted
     return std::binary_search(list_.begin(), list_.end(), node);
   } else {
-    return node >= lo_ && node < hi_ && node % stride_ == 0;
+    return node >= lo_ && node < hi_ && (node - lo_) % stride_ == 0;
   }
 }
 
@@ -114,7 +114,7 @@ Range::Range(Range const& in_other, BoundType in_remove_extent)
 
 /*virtual*/ Range::SplitRegionType Range::split() const {
   auto const& size = getSize();
-  auto const& span = (hi_ - lo_) / 2;
+  auto const& span = static_cast<BoundType>(size / 2) * stride_;
   vtAssert(
     size >= 2, "Size must be at least 2 to split"
   );
diff --git a/src/vt/group/region/group_shallow_list.cc b/src/vt/group/region/group_shallow_list.cc
index a68b4a6..0e5f566 100644
--- a/src/vt/group/region/group_shallow_list.cc
+++ b/src/vt/group/region/group_shallow_list.cc
@@ -113,7 +113,7 @@ ShallowList::ShallowList(ListType const& in_list)
 }
 
 /*virtual*/ ShallowList::RegionUPtrType ShallowList::copy() const {
-  return std::make_unique<List>(bound_, size_, true);
+  return std::make_unique<List>(bound_, size_, false);
 }
 
 /*virtual*/ void ShallowList::splitN(int nsplits, ApplyFnType apply) const {
-- 
2.43.0


From a0f506e9fd64e368fcec3582e58fecd809670668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 15/40] fix: remaining size of a pool allocation excludes its
 oversize

---
 src/vt/pool/pool.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vt/pool/pool.cc b/src/vt/pool/pool.cc
index 97b45b3..df8f4bb 100644
--- a/src/vt/pool/pool.cc
+++ b/src/vt/pool/pool.cc
@@ -207,11 +207,11 @@ Pool::SizeType Pool::remainingSize(
     ePoolSize const pool_type = getPoolType(actual_alloc_size, oversize);
 
     if (pool_type == ePoolSize::Small) {
-      return small_msg->getNumBytes() - actual_alloc_size;
+      return small_msg->getNumBytes() - actual_alloc_size - oversize;
     } else if (pool_type == ePoolSize::Medium) {
-      return medium_msg->getNumBytes() - actual_alloc_size;
+      return medium_msg->getNumBytes() - actual_alloc_size - oversize;
     } else {
-      return oversize;
+      return 0;
     }
   #else
     return 0;
-- 
2.43.0


From 0f4851c43a8e78a916bfa4d9bcffd5a31221ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 16/40] fix: merging histograms keeps the smallest and largest
 value

---
 src/vt/utils/adt/histogram_approx.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/utils/adt/histogram_approx.h b/src/vt/utils/adt/histogram_approx.h
index 2e801ce..0499266 100644
--- a/src/vt/utils/adt/histogram_approx.h
+++ b/src/vt/utils/adt/histogram_approx.h
@@ -407,6 +407,10 @@ struct HistogramApprox {
       add(c.getValue(), c.getCount());
     }
 
+    // The extreme values might have been averaged away in the input centroids
+    min_ = std::min(min_, in_hist.getMin());
+    max_ = std::max(max_, in_hist.getMax());
+
     // Pare the histogram down to the allowed size
     pareToNewMaxCentroids(cur_max_centroids);
   }
-- 
2.43.0


From 1801a68ea6d54737dd006d08e77311d69ddcf9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 17/40] fix: going back to an earlier subphase discarded the
 data of later ones

---
 src/vt/elm/elm_lb_data.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/vt/elm/elm_lb_data.cc b/src/vt/elm/elm_lb_data.cc
index 4489e6b..d6a7b32 100644
--- a/src/vt/elm/elm_lb_data.cc
+++ b/src/vt/elm/elm_lb_data.cc
@@ -104,16 +104,22 @@ void ElementLBData::addReadOnlySharedID(
 
 void ElementLBData::sendComm(elm::CommKey key, double bytes) {
   phase_comm_[cur_phase_][key].sendMsg(bytes);
-  subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
-  subphase_comm_[cur_phase_].at(cur_subphase_)[key].sendMsg(bytes);
+  auto& subphases = subphase_comm_[cur_phase_];
+  if (subphases.size() <= cur_subphase_) {
+    subphases.resize(cur_subphase_ + 1);
+  }
+  subphases.at(cur_subphase_)[key].sendMsg(bytes);
 }
 
 void ElementLBData::recvComm(
   elm::CommKey key, double bytes
 ) {
   phase_comm_[cur_phase_][key].receiveMsg(bytes);
-  subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
-  subphase_comm_[cur_phase_].at(cur_subphase_)[key].receiveMsg(bytes);
+  auto& subphases = subphase_comm_[cur_phase_];
+  if (subphases.size() <= cur_subphase_) {
+    subphases.resize(cur_subphase_ + 1);
+  }
+  subphases.at(cur_subphase_)[key].receiveMsg(bytes);
 }
 
 void ElementLBData::recvObjData(
@@ -143,8 +149,11 @@ void ElementLBData::recvToNode(
 void ElementLBData::addTime(LoadType const timeLoad) {
   phase_timings_[cur_phase_] += timeLoad;
 
-  subphase_timings_[cur_phase_].resize(cur_subphase_ + 1);
-  subphase_timings_[cur_phase_].at(cur_subphase_) += timeLoad;
+  auto& subphases = subphase_timings_[cur_phase_];
+  if (subphases.size() <= cur_subphase_) {
+    subphases.resize(cur_subphase_ + 1);
+  }
+  subphases.at(cur_subphase_) += timeLoad;
 
   vt_debug_print(
     verbose,lb,
-- 
2.43.0


From e892d0a3ffdae7809bc6f6f3a6a2f23e0ffb3343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 18/40] fix: setting a full-width bit field did not clear its
 previous contents

---
 src/vt/utils/bits/bits_packer.impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/utils/bits/bits_packer.impl.h b/src/vt/utils/bits/bits_packer.impl.h
index 7329336..086d592 100644
--- a/src/vt/utils/bits/bits_packer.impl.h
+++ b/src/vt/utils/bits/bits_packer.impl.h
@@ -121,7 +121,9 @@ BitPacker::setFieldDynamic(
   // sizeof(UnsignedBitField) is guaranteed to be the same as sizeof(BitField)
   using UnsignedBitField = std::make_unsigned_t<BitField>;
   auto const nbits = (sizeof(BitField) * 8) - len;
-  field = field & ~(gen_bit_mask(len) << start);
+  // a shift by the full width is undefined, so a full-width field needs its own mask
+  uint64_t const mask = len < 64 ? gen_bit_mask(len) : ~static_cast<uint64_t>(0);
+  field = field & ~(mask << start);
   auto seg = bit_cast<UnsignedBitField>(static_cast<BitField>(segment));
   UnsignedBitField bits = ((seg << nbits) >> nbits) << start;
   field = field | bit_cast<BitField>( bits );
-- 
2.43.0


From 63c97d2954465e1a87ac972f6596d4a88a2600f2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 19/40] fix: drop the home's location record when a collection
 element is destroyed

An element destroyed away from its home node was only unregistered on the
node where it lived. The home kept its directory record, so the index could
not be inserted again: the insertion was silently cancelled. The deferred
removal was not part of the modification epoch either, which let
finishModification return before it ran.
---
 src/vt/topos/location/location.h      | 16 ++++++++++++++++
 src/vt/topos/location/location.impl.h | 22 ++++++++++++++++++++++
 src/vt/vrt/collection/manager.impl.h  | 11 ++++++++---
 3 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/src/vt/topos/location/location.h b/src/vt/topos/location/location.h
index e0a82a8..9a7639c 100644
--- a/src/vt/topos/location/location.h
+++ b/src/vt/topos/location/location.h
@@ -155,6 +155,15 @@ struct EntityLocationCoord : LocationCoord {
    */
   void unregisterEntity(EntityID const& id);
 
+  /**
+   * \brief Unregister an entity that no longer exists, and have its home drop
+   * the record of where it lived
+   *
+   * \param[in] id the entity ID
+   * \param[in] home the entity's home node
+   */
+  void unregisterEntity(EntityID const& id, NodeType const& home);
+
   /**
    * \brief Tell coordinator that the entity has migrated to another node
    *
@@ -388,6 +397,13 @@ private:
    */
   void updateLocation(EntityID const& id, NodeType answer, NodeType home_node);
 
+  /**
+   * \internal \brief Drop the home's record of an entity that was destroyed
+   *
+   * \param[in] id the entity ID
+   */
+  void entityDestroyed(EntityID const& id);
+
   /**
    * \internal \brief Route a message to destination with eager protocol
    *
diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index c9b0b10..cdac853 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -192,6 +192,28 @@ void EntityLocationCoord<EntityID>::unregisterEntity(EntityID const& id) {
   }
 }
 
+template <typename EntityID>
+void EntityLocationCoord<EntityID>::unregisterEntity(
+  EntityID const& id, NodeType const& home
+) {
+  unregisterEntity(id);
+
+  if (home != theContext()->getNode()) {
+    proxy_[home].template send<&ThisType::entityDestroyed>(
+      MsgProps().asLocationMsg(), id
+    );
+  }
+}
+
+template <typename EntityID>
+void EntityLocationCoord<EntityID>::entityDestroyed(EntityID const& id) {
+  if (
+    local_registered_.find(id) == local_registered_.end() and recs_.exists(id)
+  ) {
+    recs_.remove(id);
+  }
+}
+
 template <typename EntityID>
 void EntityLocationCoord<EntityID>::entityEmigrated(
   EntityID const& id, NodeType const& new_node
diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index aead7c8..20e43d5 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -1747,15 +1747,20 @@ void CollectionManager::destroyElm(
   auto elm_holder = findElmHolder<IndexType>(untyped_proxy);
   if (elm_holder->exists(idx)) {
     // Delay this so we can finish processing this work unit first (which might
-    // be this collection element running)
-    theSched()->enqueue([idx,untyped_proxy]{
+    // be this collection element running). It is still part of the modification
+    auto const home = getMappedNode<ColT>(proxy, idx);
+    theTerm()->produce(modify_epoch);
+    theSched()->enqueue([idx,untyped_proxy,home,modify_epoch]{
+      theMsg()->pushEpoch(modify_epoch);
       auto elm = theCollection()->findElmHolder<IndexType>(untyped_proxy);
       if (elm->exists(idx)) {
         elm->remove(idx);
         theLocMan()
           ->getCollectionLM<IndexType>(untyped_proxy)
-          ->unregisterEntity(idx);
+          ->unregisterEntity(idx, home);
       }
+      theMsg()->popEpoch(modify_epoch);
+      theTerm()->consume(modify_epoch);
     });
   } else {
     // Otherwise, we send a destroy message that will be routed (eventually
-- 
2.43.0


From e0fd1bb4c8df37186d6d64a888eff2381bad539c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 20/40] fix: RandomLB on a node without migratable objects

Skipping the first of zero objects incremented the end iterator of an empty
set, after which the loop never terminated.
---
 src/vt/vrt/collection/balance/randomlb/randomlb.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/vrt/collection/balance/randomlb/randomlb.cc b/src/vt/vrt/collection/balance/randomlb/randomlb.cc
index 42032a7..672d9f4 100644
--- a/src/vt/vrt/collection/balance/randomlb/randomlb.cc
+++ b/src/vt/vrt/collection/balance/randomlb/randomlb.cc
@@ -126,6 +126,10 @@ void RandomLB::runLB(LoadType) {
     }
   }
 
+  if (objs.empty()) {
+    return;
+  }
+
   // we skip the first object to be certain we never end up with zero objects
   for (auto it = ++objs.begin(); it != objs.end(); ++it) {
     auto const to_node = dist(gen);
-- 
2.43.0


From e1a94325a361ee430828dfbadf470a58e12f407e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:39:00 +0000
Subject: [PATCH 21/40] fix: inserted collection elements did not join the
 reduction sequence

finishModification gives elements whose reduce stamp is zero the stamp of the
existing ones, but insert never asked for a zero stamp: new elements started
at the initial stamp, so their contributions were combined with those of other
reductions and later reductions never completed.
---
 src/vt/vrt/collection/manager.impl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index 20e43d5..c814d9e 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -1593,7 +1593,9 @@ void CollectionManager::finishModification(
   auto iter = reduce_stamp_.find(untyped_proxy);
   vtAssert(iter != reduce_stamp_.end(), "Must have value");
 
-  SeqType const global_min_stamp = iter->second;
+  // When there are only new elements, they start from the initial stamp
+  SeqType const global_min_stamp =
+    iter->second == std::numeric_limits<SeqType>::max() ? 1 : iter->second;
   reduce_stamp_.erase(iter);
 
   // set all new insertions to proper value
@@ -1710,7 +1712,9 @@ void CollectionManager::insert(
 
   if (insert_node == this_node and proceed_with_insertion) {
     auto cons_fn = detail::InsertMsgDispatcher<MsgT, ColT>::makeCons(insert_msg);
-    makeCollectionElement<ColT>(untyped_proxy, idx, mapped_node, cons_fn);
+    makeCollectionElement<ColT>(
+      untyped_proxy, idx, mapped_node, cons_fn, true
+    );
   } else if (insert_node != this_node) {
     auto msg = makeMessage<InsertMsg<ColT, MsgT>>(
       proxy, idx, insert_node, mapped_node, modify_epoch, insert_msg
-- 
2.43.0


From 9dba6e056d4514a7d64abb20104cb218eb861e4f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:58:22 +0000
Subject: [PATCH 22/40] fix: scatter aborted on messages of more than about
 half a pool bucket

The size check compared the space left beyond the message, whose extra bytes
were already counted as allocated, with the size of the data.
---
 src/vt/collective/scatter/scatter.impl.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/vt/collective/scatter/scatter.impl.h b/src/vt/collective/scatter/scatter.impl.h
index ec2db7d..fd67336 100644
--- a/src/vt/collective/scatter/scatter.impl.h
+++ b/src/vt/collective/scatter/scatter.impl.h
@@ -67,21 +67,22 @@ void Scatter::scatter(
   vtAssert(total_size == combined_size, "Sizes must be consistent");
   auto ptr = reinterpret_cast<std::byte*>(scatter_msg.get()) + sizeof(ScatterMsg);
 #if vt_check_enabled(memory_pool)
-  auto remaining_size =
-    thePool()->remainingSize(reinterpret_cast<std::byte*>(scatter_msg.get()));
+  auto allocated_size =
+    thePool()->allocatedSize(reinterpret_cast<std::byte*>(scatter_msg.get()));
   vtAssertInfo(
-    remaining_size >= combined_size, "Remaining size must be sufficient",
-    total_size, combined_size, remaining_size, elm_size
+    allocated_size >= sizeof(ScatterMsg) + combined_size,
+    "Allocated size must be sufficient",
+    total_size, combined_size, allocated_size, elm_size
   );
 #else
-  auto remaining_size = elm_size;
+  auto allocated_size = sizeof(ScatterMsg) + combined_size;
 #endif
   vt_debug_print(
     terse, scatter,
     "Scatter::scatter: total_size={}, elm_size={}, ScatterMsg={}, msg-ptr={}, "
-    "ptr={}, remaining_size={}\n",
+    "ptr={}, allocated_size={}\n",
     total_size, elm_size, sizeof(ScatterMsg), print_ptr(scatter_msg.get()),
-    print_ptr(ptr), remaining_size
+    print_ptr(ptr), allocated_size
   );
   auto const& root_node = 0;
   auto nptr = applyScatterRecur(root_node, ptr, elm_size, size_fn, data_fn);
-- 
2.43.0


From 873f2fc806f9202563af6348d274b41b4e7085c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:16 +0000
Subject: [PATCH 23/40] fix: user and system collective scopes shared reduction
 stamps

---
 src/vt/collective/collective_scope.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vt/collective/collective_scope.cc b/src/vt/collective/collective_scope.cc
index 16b6116..8f9d242 100644
--- a/src/vt/collective/collective_scope.cc
+++ b/src/vt/collective/collective_scope.cc
@@ -86,13 +86,15 @@ TagType CollectiveScope::mpiCollectiveAsync(ActionType action) {
   auto cb = theCB()->makeBcast<&CollectiveAlg::runCollective>();
   auto msg = makeMessage<CollectiveMsg>(is_user_tag_, scope_, tag, collective_root);
 
-  // The tag for the reduce is a combination of the scope and seq tag.
+  // The tag for the reduce is a combination of the scope and seq tag. User and
+  // system scopes are numbered independently, so the sign of the seq tag (which
+  // is always positive) tells them apart.
   auto r = theCollective()->reducer();
 
   using collective::reduce::makeStamp;
   using collective::reduce::TagPair;
 
-  auto stamp = makeStamp<TagPair>(scope_, tag);
+  auto stamp = makeStamp<TagPair>(scope_, is_user_tag_ ? -tag : tag);
   r->reduce<collective::None>(collective_root, msg.get(), cb, stamp);
 
   return tag;
-- 
2.43.0


From 63caf53dd18179624c8f12060bbfbb1f5dc7b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:16 +0000
Subject: [PATCH 24/40] fix: object group multicast to a region used dead
 references and unfinished groups

---
 src/vt/objgroup/proxy/proxy_objgroup.impl.h | 29 ++++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/vt/objgroup/proxy/proxy_objgroup.impl.h b/src/vt/objgroup/proxy/proxy_objgroup.impl.h
index 337f9fc..7a964f5 100644
--- a/src/vt/objgroup/proxy/proxy_objgroup.impl.h
+++ b/src/vt/objgroup/proxy/proxy_objgroup.impl.h
@@ -151,22 +151,25 @@ typename Proxy<ObjT>::PendingSendType Proxy<ObjT>::multicast(
 
   auto groupID = theGroup()->GetTempGroupForRange(range);
   if (!groupID.has_value()) {
+    // The group is created asynchronously, so its action must own all it uses
+    std::shared_ptr<group::region::Region> region = std::move(nodes);
     return typename Proxy<ObjT>::PendingSendType{
       theTerm()->getCurrentEpoch(),
-      [&, this,
+      [proxy = *this, region,
        args = std::make_tuple(std::forward<Params>(params)...)] {
-        std::apply(
-          [&, this](auto&&... unpackedArgs) {
-            // Explicit copy, we move 'nodes' in group creation
-            auto range_copy = nodes->makeList();
-            auto id =
-              theGroup()->newGroup(std::move(nodes), [&, this](GroupType type) {
-                multicast<f>(
-                  type, std::forward<decltype(unpackedArgs)>(unpackedArgs)...);
-              });
-            theGroup()->AddNewTempGroup(range_copy, id);
-          },
-          std::move(args));
+        auto const range_copy = region->makeList();
+        theGroup()->newGroup(
+          region->copy(), [proxy, range_copy, args](GroupType type) {
+            // Only reuse the group once its tree is complete
+            theGroup()->AddNewTempGroup(range_copy, type);
+            std::apply(
+              [&](auto const&... unpackedArgs) {
+                proxy.template multicast<f>(type, unpackedArgs...);
+              },
+              args
+            );
+          }
+        );
       }};
   } else {
     return multicast<f>(groupID.value(), std::forward<Params>(params)...);
-- 
2.43.0


From 4c7203a7171e5ee008e7b0247e9a3ee9e02eec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:16 +0000
Subject: [PATCH 25/40] fix: callbacks to collection elements could only be
 triggered once

---
 src/vt/pipe/callback/proxy_send/callback_proxy_send.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vt/pipe/callback/proxy_send/callback_proxy_send.h b/src/vt/pipe/callback/proxy_send/callback_proxy_send.h
index cfb681a..5b5f9ca 100644
--- a/src/vt/pipe/callback/proxy_send/callback_proxy_send.h
+++ b/src/vt/pipe/callback/proxy_send/callback_proxy_send.h
@@ -68,14 +68,16 @@ struct CallbackProxySend : CallbackBase<signal::Signal<MsgT>> {
 
   CallbackProxySend(
     HandlerType const in_handler, IndexedProxyType const& in_proxy
-  ) : proxy_(in_proxy.getCollectionProxy()),
+  ) : CallbackBase<SignalBaseType>(CallbackPersistTag),
+      proxy_(in_proxy.getCollectionProxy()),
       idx_(in_proxy.getElementProxy().getIndex()), handler_(in_handler)
   { }
 
   CallbackProxySend(
     HandlerType const in_handler, ProxyType const& in_proxy,
     IndexType const& in_idx
-  ) : proxy_(in_proxy), idx_(in_idx), handler_(in_handler)
+  ) : CallbackBase<SignalBaseType>(CallbackPersistTag),
+      proxy_(in_proxy), idx_(in_idx), handler_(in_handler)
   { }
 
   template <typename SerializerT>
-- 
2.43.0


From 2fade8990d4f6ae46519e912a50634fca88ced6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:16 +0000
Subject: [PATCH 26/40] fix: broadcasts to a rooted group looped or lost
 members

---
 src/vt/group/group_manager.cc | 41 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/vt/group/group_manager.cc b/src/vt/group/group_manager.cc
index 647a056..2fc4662 100644
--- a/src/vt/group/group_manager.cc
+++ b/src/vt/group/group_manager.cc
@@ -441,8 +441,7 @@ EventType GroupManager::sendGroup(
   auto const& this_node = theContext()->getNode();
   auto const& msg = base.get();
   auto const& group = envelopeGetGroup(msg->env);
-  auto const& dest = envelopeGetDest(msg->env);
-  auto const& this_node_dest = dest == this_node;
+  auto const dest = envelopeGetDest(msg->env);
   auto const& first_send = from == uninitialized_destination;
 
   vt_debug_print(
@@ -474,17 +473,25 @@ EventType GroupManager::sendGroup(
   } else {
     auto iter = local_group_info_.find(group);
     bool is_at_root = iter != local_group_info_.end();
-    if (is_at_root && iter->second->forward_node_ != this_node) {
-      if (iter->second->forward_node_ != this_node) {
-        auto& info = *iter->second;
-        vtAssert(info.is_forward_, "Must be a forward");
-        auto const& node = info.forward_node_;
-        *deliver = false;
-        return send_to_node(node);
-      } else {
-        *deliver = true;
-        return no_event;
+    // A message is forwarded to the root of the spanning tree when it starts
+    // here or comes straight from its sender; otherwise, it is already traveling
+    // down the tree, which may include this node
+    bool const to_forward = first_send or from == dest;
+    if (
+      is_at_root && iter->second->forward_node_ != this_node && to_forward
+    ) {
+      auto& info = *iter->second;
+      vtAssert(info.is_forward_, "Must be a forward");
+      auto const& node = info.forward_node_;
+      if (not first_send and info.region_->contains(from)) {
+        // The sender is in the tree and might be the parent of this node: make
+        // its message distinguishable from now on
+        envelopeUnlockForForwarding(msg->env);
+        envelopeSetDest(msg->env, this_node);
+        envelopeSetIsLocked(msg->env, true);
       }
+      *deliver = false;
+      return send_to_node(node);
     } else {
       auto remote_iter = remote_group_info_.find(group);
 
@@ -496,7 +503,7 @@ EventType GroupManager::sendGroup(
         is_root
       );
 
-      if (remote_iter != remote_group_info_.end() && (!this_node_dest || first_send)) {
+      if (remote_iter != remote_group_info_.end()) {
         auto& info = *remote_iter->second;
         vtAssert(!info.is_forward_, "Must not be a forward");
         vtAssert(
@@ -523,13 +530,7 @@ EventType GroupManager::sendGroup(
           });
         }
 
-        if (is_root && from == uninitialized_destination) {
-          *deliver = true;
-        } else if (!is_root && dest == this_node) {
-          *deliver = false;
-        } else {
-          *deliver = true;
-        }
+        *deliver = true;
       }
     }
   }
-- 
2.43.0


From a0e134f5d074c6b37fba31945fd11c36a93250a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:16 +0000
Subject: [PATCH 27/40] fix: messages forwarded to a group without delivery
 blocked termination

---
 src/vt/messaging/active.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index ceb039a..71d0c8e 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -928,6 +928,14 @@ void ActiveMessenger::processActiveMsg(
   } else {
     amForwardCounterGauge.incrementUpdate(base.size(), 1);
 
+    if (not is_term) {
+      // The message ends here (any forwarded copies were produced when sent)
+      auto const epoch = envelopeIsEpochType(msg->env) ?
+        envelopeGetEpoch(msg->env) : term::any_epoch_sentinel;
+      theTerm()->consume(epoch,1,from);
+      theTerm()->hangDetectRecv();
+    }
+
     if (cont != nullptr) {
       cont();
     }
-- 
2.43.0


From 98651689f1bbc252daddb3307f58670a79d023bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:16 +0000
Subject: [PATCH 28/40] fix: the action of an empty collective group ran twice
 on node 0

---
 src/vt/group/collective/group_info_collective.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/group/collective/group_info_collective.cc b/src/vt/group/collective/group_info_collective.cc
index 4aa6b7d..a38f6a4 100644
--- a/src/vt/group/collective/group_info_collective.cc
+++ b/src/vt/group/collective/group_info_collective.cc
@@ -665,8 +665,9 @@ void InfoColl::newTree(NodeType const& parent) {
   theCollective()->makeReducerGroup(group_, collective_->span_.get());
   collective_->reduce_ = theCollective()->getReducerGroup(group_);
 
+  // For an empty group, the action was already run when it was finalized
   auto const& action = getAction();
-  if (action) {
+  if (action and not is_empty_group_) {
     action();
   }
   auto cur_actions = pending_ready_actions_;
-- 
2.43.0


From bc1ab41e962945623ff43c3a867defd958542350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:42 +0000
Subject: [PATCH 29/40] fix: a chain of dependent sends that was never used
 counted as unfinished

isTerminated() asked the termination detector about no_epoch, which is never
terminated, so removing an index from a CollectionChainSet before its first
step (an element that migrates or is destroyed early) hit an assertion.
---
 src/vt/messaging/dependent_send_chain.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/messaging/dependent_send_chain.h b/src/vt/messaging/dependent_send_chain.h
index 92b1d68..458f8f3 100644
--- a/src/vt/messaging/dependent_send_chain.h
+++ b/src/vt/messaging/dependent_send_chain.h
@@ -181,6 +181,10 @@ class DependentSendChain final {
    * \return whether the chain has terminated
    */
   bool isTerminated() {
+    // Before anything is added to the chain, there is no epoch to wait for
+    if (last_epoch_ == no_epoch) {
+      return true;
+    }
     return theTerm()->testEpochTerminated(last_epoch_) == vt::term::TermStatusEnum::Terminated;
   }
 
-- 
2.43.0


From f54e39e71b584adb1a14ebfd7a6e89e5b90d64b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:42 +0000
Subject: [PATCH 30/40] fix: destroying one collection element did not tell its
 listeners

Listeners registered on an element were never called with ElementDestroyed
when the element was destroyed on its own, so a CollectionChainSet kept the
index and its next step waited for an element that no longer exists.
---
 src/vt/vrt/collection/manager.impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index c814d9e..3049bfe 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -1762,6 +1762,9 @@ void CollectionManager::destroyElm(
         theLocMan()
           ->getCollectionLM<IndexType>(untyped_proxy)
           ->unregisterEntity(idx, home);
+        elm->applyListeners(
+          listener::ElementEventEnum::ElementDestroyed, idx, home
+        );
       }
       theMsg()->popEpoch(modify_epoch);
       theTerm()->consume(modify_epoch);
-- 
2.43.0


From 568f9c5a8ca4ede1b1ab3b7d916945c468305750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:42 +0000
Subject: [PATCH 31/40] fix: multicast to a range of nodes aborted once the
 range had been listed

The list is only a cached expansion of the same bounds, and the multicast
path always creates it, so ranges sent by bounds always hit the assertion.
---
 src/vt/group/region/group_range.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/vt/group/region/group_range.h b/src/vt/group/region/group_range.h
index 36eefcb..82936b2 100644
--- a/src/vt/group/region/group_range.h
+++ b/src/vt/group/region/group_range.h
@@ -99,9 +99,7 @@ struct RangeData {
     : lo_(r.lo_),
       hi_(r.hi_),
       stride_(r.stride_)
-  {
-    vtAssertExpr(not r.made_list_);
-  }
+  { }
 
 public:
   Range getRange() const {
-- 
2.43.0


From fe7e85e7235fda722bc8d52d6648b28cbc36c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:42 +0000
Subject: [PATCH 32/40] fix: local access through an index handle exposed the
 other indices' data

The accessor passed the number of items up to the end of the node's whole
window as the count instead of the number of items of that index.
---
 src/vt/rdmahandle/sub_handle.impl.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vt/rdmahandle/sub_handle.impl.h b/src/vt/rdmahandle/sub_handle.impl.h
index 057174e..8ad1234 100644
--- a/src/vt/rdmahandle/sub_handle.impl.h
+++ b/src/vt/rdmahandle/sub_handle.impl.h
@@ -416,7 +416,12 @@ void SubHandle<T,E,IndexT>::access(
   auto iter = sub_handles_.find(idx);
   vtAssert(iter != sub_handles_.end(), "Index must be local here");
   auto local_offset  = iter->second.offset_;
-  data_handle_.access(l, fn, offset + local_offset);
+  auto local_count   = iter->second.count_ - offset;
+  // The underlying handle covers all the local indices: only expose the data
+  // that belongs to this index
+  data_handle_.access(
+    l, [&](T* t, std::size_t) { fn(t, local_count); }, offset + local_offset
+  );
 }
 
 template <typename T, HandleEnum E, typename IndexT>
-- 
2.43.0


From fc7015fbfeaa84f523c0134dd5b31f26c268f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:45 +0000
Subject: [PATCH 33/40] fix: elements inserted 'here' off their home node could
 not be reached

listInsertHere (and so restoreFromFile) registered the element with this
node as its home; the real home never learned where the element lives and
held every message for it forever.
---
 src/vt/vrt/collection/collection_builder.impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/collection_builder.impl.h b/src/vt/vrt/collection/collection_builder.impl.h
index 3b2a10d..724f804 100644
--- a/src/vt/vrt/collection/collection_builder.impl.h
+++ b/src/vt/vrt/collection/collection_builder.impl.h
@@ -212,7 +212,9 @@ void CollectionManager::makeCollectionImpl(param::ConstructParams<ColT>& po) {
   for (auto&& elm : po.list_insert_here_) {
     auto const idx = std::get<0>(elm);
     detail::ContainableElementFn<ColT> c{std::move(std::get<1>(elm))};
-    makeCollectionElement<ColT>(proxy, idx, this_node, std::move(c));
+    // The element may live off its home node, which must learn where it is
+    auto const home = getElementMapping(map_han, map_object, idx, bounds);
+    makeCollectionElement<ColT>(proxy, idx, home, std::move(c));
   }
 
   if (not has_dynamic_membership) {
-- 
2.43.0


From 24512780558192a429bc22f26a37341ded6c2002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:45 +0000
Subject: [PATCH 34/40] fix: elements restored in place kept the proxy of the
 checkpointed collection

Restoring a checkpoint on top of another collection overwrote each
element's proxy, so whatever the element sent or reduced afterwards went
to the old, possibly destroyed, collection.
---
 src/vt/vrt/collection/manager.impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index 3049bfe..5ad9e42 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -2294,6 +2294,8 @@ void CollectionManager::restoreFromFileInPlace(
 
     auto ptr = elm_holder->lookup(idx).getRawPtr();
     checkpoint::deserializeInPlaceFromFile<ColT>(file_name, static_cast<ColT*>(ptr));
+    // The checkpoint may have been taken of another collection
+    CollectionTypeAttorney::setProxy(static_cast<ColT*>(ptr), proxy_bits);
     ptr->lb_data_.resetPhase();
   }
 }
-- 
2.43.0


From b8afc9885da36878d2abafbb78839b97c4a7eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:04 +0000
Subject: [PATCH 35/40] fix: single triggers run safely when they register or
 run a nested scheduler

The triggers registered once for an event were run while still in the list
and cleared afterwards: one that registered another for the event, or ran a
nested scheduler in which it occurs, iterated over freed memory, ran twice
or was dropped.
---
 src/vt/scheduler/scheduler.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vt/scheduler/scheduler.cc b/src/vt/scheduler/scheduler.cc
index cb75641..2febe51 100644
--- a/src/vt/scheduler/scheduler.cc
+++ b/src/vt/scheduler/scheduler.cc
@@ -54,6 +54,8 @@
 #include "vt/runtime/mpi_access.h"
 #include "vt/scheduler/thread_manager.h"
 
+#include <utility>
+
 namespace vt { namespace sched {
 
 /*static*/ void Scheduler::checkTermSingleNode() {
@@ -357,10 +359,12 @@ void Scheduler::triggerEvent(SchedulerEventType const& event) {
     t();
   }
 
-  for (auto& t : event_triggers_once[event]) {
+  // Take them out first: a trigger may register another one, or run a nested
+  // scheduler in which the same event occurs
+  auto const once = std::exchange(event_triggers_once[event], {});
+  for (auto& t : once) {
     t();
   }
-  event_triggers_once[event].clear();
 }
 
 void Scheduler::registerTrigger(
-- 
2.43.0


From d5db585c3a2138f714a70ccfce5ee393cf5b41cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:04 +0000
Subject: [PATCH 36/40] fix: completion of an asynchronous operation may start
 further ones

The callable was given a reference into the vector of operations in
progress; when a completion registered another operation, or ran a nested
scheduler, the vector changed underneath (use after free, double run).
---
 src/vt/messaging/request_holder.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vt/messaging/request_holder.h b/src/vt/messaging/request_holder.h
index 1948bbe..8103b4d 100644
--- a/src/vt/messaging/request_holder.h
+++ b/src/vt/messaging/request_holder.h
@@ -117,15 +117,18 @@ struct RequestHolder {
         continue;
       }
 
-      c(&e);
-      progress_made = true;
-      e.valid = false;
+      // Take the element out before running the callable, which might add new
+      // elements to this holder or test it again
+      T elm = std::move(e);
 
       if (i < holder_.size() - 1) {
         holder_[i] = std::move(holder_.back());
       }
 
       holder_.pop_back();
+
+      c(&elm);
+      progress_made = true;
     }
 
 #   if vt_check_enabled(trace_enabled)
-- 
2.43.0


From 646054806b8e3e7c339d892d3bdd7f3f6075107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:04 +0000
Subject: [PATCH 37/40] fix: remote action on a pending event used the freed
 request message

The handler's raw message pointer was captured in the action that runs when
the event completes, by which time the message is gone.
---
 src/vt/event/event.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vt/event/event.cc b/src/vt/event/event.cc
index f7d32c3..3069e22 100644
--- a/src/vt/event/event.cc
+++ b/src/vt/event/event.cc
@@ -157,11 +157,15 @@ EventType AsyncEvent::attachAction(EventType const& event, ActionType callable)
     node == theContext()->getNode(), "Node must be identical"
   );
 
+  // The message might be gone by the time the event completes
+  auto const event_back = msg->event_back_;
+  auto const sent_from_node = msg->sent_from_node_;
+
   auto send_back_fun = [=]{
-    auto send_back = theEvent()->getOwningNode(msg->event_back_);
-    vtAssertExpr(send_back == msg->sent_from_node_);
+    auto send_back = theEvent()->getOwningNode(event_back);
+    vtAssertExpr(send_back == sent_from_node);
 
-    auto msg_send = makeMessage<EventFinishedMsg>(event, msg->event_back_);
+    auto msg_send = makeMessage<EventFinishedMsg>(event, event_back);
     theMsg()->sendMsg<eventFinished>(
       send_back, msg_send
     );
-- 
2.43.0


From e34adb8c88f92d406680d9528153658cf89936c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:04 +0000
Subject: [PATCH 38/40] fix: an event that has occurred is ready for actions
 attached meanwhile

setReady() was never consulted: an action of an event attaching another
one to it added to the list being iterated instead of running it.
---
 src/vt/event/event_record.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/event/event_record.cc b/src/vt/event/event_record.cc
index 5840b42..d66bfdd 100644
--- a/src/vt/event/event_record.cc
+++ b/src/vt/event/event_record.cc
@@ -109,7 +109,7 @@ bool EventRecord::testMPIEventReady() {
 }
 
 bool EventRecord::testNormalEventReady() {
-  return false;
+  return ready;
 }
 
 bool EventRecord::testParentEventReady() {
-- 
2.43.0


From 09ce33f26a52963c20c68fc59e4f8bf3019ad8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:00 +0000
Subject: [PATCH 39/40] fix: write No Color as it is and Debug Replay to the
 YAML configuration

The YAML configuration written with --vt_output_config had No Color
inverted and lacked Debug Replay, which the reader looks for: a run
started with the written file was not configured like the one that
wrote it.
---
 src/vt/configs/arguments/args.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 39b31d4..eb38567 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -1184,7 +1184,7 @@ std::string convertConfigToYamlString(AppConfig& appConfig) {
   std::vector<std::tuple<std::string, std::string, variantArg_t>> cli_to_yaml_args = {
       // Output Control
       {"Output Control", vt_color_label, static_cast<variantArg_t>(appConfig.vt_color)},
-      {"Output Control", vt_no_color_label, static_cast<variantArg_t>(not appConfig.vt_no_color)},
+      {"Output Control", vt_no_color_label, static_cast<variantArg_t>(appConfig.vt_no_color)},
       {"Output Control", vt_quiet_label, static_cast<variantArg_t>(appConfig.vt_quiet)},
 
       // Signal Handling
@@ -1236,6 +1236,7 @@ std::string convertConfigToYamlString(AppConfig& appConfig) {
       {"Debug Print Configuration", vt_debug_all_label, static_cast<variantArg_t>(appConfig.vt_debug_all)},
       {"Debug Print Configuration", vt_debug_none_label, static_cast<variantArg_t>(appConfig.vt_debug_none)},
       {"Debug Print Configuration", vt_debug_print_flush_label, static_cast<variantArg_t>(appConfig.vt_debug_print_flush)},
+      {"Debug Print Configuration", vt_debug_replay_label, static_cast<variantArg_t>(appConfig.vt_debug_replay)},
       {"Debug Print Configuration/Enable", vt_debug_gen_label, static_cast<variantArg_t>(appConfig.vt_debug_gen)},
       {"Debug Print Configuration/Enable", vt_debug_runtime_label, static_cast<variantArg_t>(appConfig.vt_debug_runtime)},
       {"Debug Print Configuration/Enable", vt_debug_active_label, static_cast<variantArg_t>(appConfig.vt_debug_active)},
-- 
2.43.0


From 951b5651263cc169401386440694fe80364ddfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:21 +0000
Subject: [PATCH 40/40] fix: build the tree of the default group for each
 initialization of the runtime

The default group lives longer than the runtime: after a second
vt::initialize with a communicator of another size or order, broadcasts
still followed the tree of the first one, and went to nodes that do not
exist or left out some.
---
 src/vt/group/global/group_default.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vt/group/global/group_default.cc b/src/vt/group/global/group_default.cc
index 9593dbb..2fe1818 100644
--- a/src/vt/group/global/group_default.cc
+++ b/src/vt/group/global/group_default.cc
@@ -62,6 +62,9 @@ namespace vt { namespace group { namespace global {
 }
 
 /*static*/ void DefaultGroup::setupDefaultTree() {
+  // The runtime may have been initialized before, with other nodes
+  default_group_ = std::make_unique<DefaultGroup>();
+
   PhaseType const& initial_phase = 0;
   DefaultGroup::localSync(initial_phase);
 
-- 
2.43.0

