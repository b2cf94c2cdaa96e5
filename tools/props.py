#!/usr/bin/env python3
"""The texts of the properties; run to write properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state, obs):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/vt/" + f for f in files], mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=obs, hook_needed=None)))
S, I, C, H, G = "schedules", "inputs", "configurations", "histories", "programs"

p('M01', 'Every active message is handled exactly once, intact, at its destination',
  'A message sent to a node runs its handler on that node exactly once, and the handler sees exactly the contents, payload and payload length the sender gave it, whichever kind of message it is (plain, serialized, with parameters, or with a separate payload) and whatever its size relative to the configured maximum MPI send size. No handler runs for a message nobody sent, and no message is lost, whatever order the network completes transfers in. Memory handed to the network is left untouched until the transfer is over.',
  ['schedules', 'inputs', 'configurations'], 'every message kind, size and destination (self included), every interleaving of sends, polls and arrivals, every maximum send size',
  'Tests send a few fixed messages on one or two nodes, most of the suite is not even built here, and real MPI almost never reorders completions or exercises the multi-chunk path.',
  ['messaging/active.cc', 'messaging/active.impl.h', 'messaging/active.h', 'messaging/request_holder.h', 'messaging/send_info.h', 'messaging/pending_send.cc', 'messaging/param_msg.h', 'serialization/messaging/serialized_messenger.impl.h', 'event/event.cc', 'pool/pool.cc'],
  [('eager, packed-put, data-message and multi-chunk protocols', 'ActiveMessenger::sendMsgBytesWithPut/sendMsgMPI/sendData/recvDataDirect'), ('polling of outstanding receives', 'RequestHolder::testAll'), ('send-completion events keep messages alive', 'AsyncEvent::testEventsTrigger')],
  [('pending_recvs_', 'data receives not yet matched', 'src/vt/messaging/active.h')],
  ['handler entry with message contents'])

p('M02', 'A broadcast reaches every node exactly once',
  'A broadcast message is handled exactly once on every node of the job, with the contents it was sent with, from whichever node it starts and for any number of nodes; the sender itself is left out exactly when delivery to the sender was declined. The spanning tree used for collectives is a tree over all nodes: every node but the root has one parent that lists it as a child, and the number of descendants it reports is right.',
  ['schedules', 'inputs', 'configurations'], 'every originating node, number of nodes, message kind and size, and every network interleaving',
  'Tests broadcast from each node on two or three ranks only; tree shape errors and forwarding races need particular node counts and orders.',
  ['messaging/active.cc', 'group/global/group_default.cc', 'collective/tree/tree.cc', 'group/group_manager.cc'],
  [('forwarding along the tree', 'DefaultGroup::broadcast'), ('tree construction', 'Tree::setupTree')],
  [('children_/parent_', 'spanning tree', 'src/vt/collective/tree/tree.h')],
  ['handler entry on each node', 'Tree accessors'])

p("T01", "Termination is never reported while work remains",
  "Nobody observes that an epoch has terminated (by polling it, waiting for it, or through an action on it, on any node) while a message sent in it is not completely handled, while an action registered inside it has not run, or before every participant has declared it finished, whichever detection algorithm the epoch uses. A handler runs in the epoch its message was sent in, and what it sends belongs to that epoch too. Global termination is not reported while any such work remains anywhere.",
  [S, G, C], "every pattern of sends, hops and broadcasts, every number of nodes, every interleaving, both detection algorithms",
  "False detection needs a particular race between counting waves or acknowledgements and messages in flight; tests sample a handful of schedules and check only outcomes.",
  ["termination/termination.cc", "termination/term_state.cc", "termination/dijkstra-scholten/ds.cc", "termination/dijkstra-scholten/comm.cc", "termination/term_action.cc", "context/runnable_context/td.cc", "epoch/epoch_window.cc", "messaging/active.cc"],
  [("four-counter waves", "TerminationDetector::propagateEpoch, propagateEpochExternal"), ("Dijkstra-Scholten credit", "TermDS::msgSent/msgProcessed/gotAck/tryLast"), ("epoch of a message", "ActiveMessenger::setEpochMessage, ctx::TD")],
  [("l_prod/l_cons/g_prod/g_cons", "produced and consumed units", "src/vt/termination/term_state.h"), ("C, D, lC, lD, outstanding", "credit and debt", "src/vt/termination/dijkstra-scholten/ds.h"), ("terminated_epochs_", "epochs not active", "src/vt/epoch/epoch_window.h")],
  ["isEpochTerminated", "actions", "runSchedulerThrough"])

p("T02", "Every epoch terminates, and each action on it runs exactly once",
  "Once all work of an epoch is over and every participant has declared it finished, its termination becomes visible on every node that asks, each wait on it returns, and each action registered on it runs exactly once on the node that registered it: also when it is registered late, by another action, on another node than the root, or on an epoch its node has not been told of yet. When nothing is left anywhere the whole job terminates: global actions run once on every node and finalization returns.",
  [S, G, C], "every order of registration, finishing, message completion and inquiry, every number of nodes",
  "Lost or duplicated actions and hangs need a registration that races with detection, or an inquiry from a node that is not the root; tests wait on quiet epochs they created.",
  ["termination/termination.cc", "termination/term_action.cc", "termination/term_action.impl.h", "termination/term_state.cc", "termination/dijkstra-scholten/ds.cc", "epoch/epoch_window.cc", "scheduler/scheduler.cc"],
  [("running actions", "TermAction::queueActions, triggerAllEpochActions"), ("asking the root", "TerminationDetector::testEpochTerminated, inquireTerminated, replyTerminated")],
  [("epoch_actions_", "actions waiting", "src/vt/termination/term_action.h"), ("epoch_wait_status_", "inquiries under way", "src/vt/termination/termination.h")],
  ["action execution", "poll results", "return of waits and of vt::finalize"])

p("T03", "An epoch outlasts every epoch nested in it",
  "An epoch created while another epoch is current holds that one: the outer epoch is not observed as terminated before the inner one, for any depth, any combination of collective, wave-detected and Dijkstra-Scholten epochs, and also when the outer epoch is declared finished first or the inner one is created inside a handler on another node. Once the inner epochs have terminated they no longer hold it back.",
  [S, G, C], "every nesting of epoch kinds, every order of finishing, on every node",
  "Nested epochs in tests are created and finished in order on one node; the dependency bookkeeping goes wrong only for particular kinds and orders.",
  ["termination/epoch_dependency.cc", "termination/epoch_dependency.h", "termination/termination.cc", "termination/epoch_tags.h", "messaging/active.cc"],
  [("successors", "EpochDependency::addIfNewSuccessor, clearSuccessors, TerminationDetector::addDependency")],
  [("successors_", "epochs waiting for this one", "src/vt/termination/epoch_dependency.h")],
  ["poll results", "actions"])

p("T05", "Epoch identifiers are never reused while active, and windows know what ended",
  "The identifier an epoch window hands out is of the kind asked for (rooted or collective, category, node), is active, was never handed out before and follows the previous one; an epoch is reported as terminated exactly while it is not active, and the number of terminated epochs is right. The compressed integer set behind it answers membership, size, bounds, iteration in order and its number of runs as a plain set of integers would, after any mix of insertions, interval insertions, erasures, clearing and copying.",
  [H], "every sequence of allocations, activations, terminations and set operations, every base value",
  "Tests use a few dozen consecutive values; splitting, joining and hint reuse go wrong only after particular orders of operations.",
  ["epoch/epoch_window.cc", "epoch/epoch_manip.cc", "termination/interval/integral_set.h", "termination/interval/interval.h", "utils/adt/ranged_counter.h"],
  [("intervals joined and split", "IntegralSet::insert, erase, IntervalSplit"), ("allocation", "EpochWindow::allocateNewEpoch")],
  [("terminated_epochs_", "identifiers not in use", "src/vt/epoch/epoch_window.h")], ["isTerminated, allocated identifiers", "set queries"])
p("G02", "Splitting a region of nodes partitions it",
  "A region (a range with any stride, a list, or a list that shares its storage) contains exactly the nodes it was made of: size, membership, iteration, first node, remainder, copies and sorting agree on that. Splitting it in two or into n parts yields min(n, size) non-empty regions that share no node and together contain exactly the nodes of the region, so that a delivery along the splits reaches each node once.",
  [I, H], "every range, stride and list, every sequence of copies, tails and splits",
  "Tests split a few ranges with stride one; sizes that do not divide, strides and repeated splitting are where it fails.",
  ["group/region/group_range.cc", "group/region/group_list.cc", "group/region/group_shallow_list.cc", "group/region/group_region.h"],
  [("splitting", "Range::split, splitN, List::splitN, ShallowList::splitN")], [("lo_, hi_, stride_, size_", "a range", "src/vt/group/region/group_range.h")], ["region queries", "children of a split"])
p("M03", "Pool memory: live blocks never overlap and keep their contents",
  "Each allocation is aligned and at least as large as asked, including the extra bytes; live allocations never overlap, whatever sequence of allocations and releases of whatever sizes precedes, also when a pool runs out and grows. The contents of a live allocation are untouched by other operations. Growing an allocation in place succeeds exactly when the reported remaining size suffices, and then the added bytes belong to it too; the recorded size is exact.",
  [H, I], "every sequence of allocations, growths and releases, every size around the class limits",
  "Tests allocate and free in simple patterns; an overlap needs a class limit, extra bytes, or reuse after many releases.",
  ["pool/pool.cc", "pool/pool.h", "pool/header/pool_header.cc", "pool/static_sized/memory_pool_equal.h"],
  [("size classes", "Pool::getPoolType, tryPooledAlloc"), ("free slots", "MemoryPoolEqual::alloc, dealloc"), ("header in front of a block", "HeaderManager")],
  [("holder_, cur_slot_", "slots", "src/vt/pool/static_sized/memory_pool_equal.h")], ["addresses, contents, sizes"])
p("B01", "Packed identifiers return what was stored in them, field by field",
  "Epochs, pipe, group, object-group, virtual and collection-element proxies, handlers, object identifiers, priorities and message envelopes are records packed into words: reading a field returns the value stored there last, for every value in the range of the field, and storing one field changes no other, whatever the previous contents.",
  [I, H], "every value of every field, every order of stores",
  "Tests store a few small values; overlapping, truncated or stale bits appear only for extreme values and repeated stores.",
  ["utils/bits/bits_packer.impl.h", "utils/bits/bits_packer.h", "epoch/epoch_manip.cc", "pipe/id/pipe_id.cc", "group/id/group_id.cc", "objgroup/proxy/proxy_bits.cc", "vrt/proxy/proxy_bits.cc", "elm/elm_id_bits.cc", "handler/handler.cc", "scheduler/priority_manip.cc", "messaging/envelope/envelope_get.h", "messaging/envelope/envelope_set.h"],
  [("packing", "BitPacker::setFieldDynamic, getFieldDynamic, boolSetField")], [("bits", "the packed word", "src/vt/utils/bits/bits_packer.h")], ["accessors of each identifier"])
p("P02", "A signal reaches each listener of its pipe exactly once",
  "Delivering a signal triggers every listener registered on that pipe exactly once with that signal, and no other; a listener with a limited number of uses is destroyed after exactly that many and never triggered again, a persistent one stays; clearing a pipe and destroying the holder destroy each remaining listener once. Counts stored for a pipe are returned, and an automatic pipe is finished exactly after the expected number of signals.",
  [H], "every sequence of registrations, signals and clears on several pipes",
  "Tests use one listener per pipe; losing or repeating one needs several listeners of which some expire during a delivery.",
  ["pipe/signal/signal_holder.impl.h", "pipe/signal/signal_holder.h", "pipe/state/pipe_state.cc", "pipe/callback/callback_base.h"],
  [("delivery", "SignalHolder::deliverAll, removeListener"), ("end of a pipe", "PipeState::finished")], [("listeners_", "listeners by pipe", "src/vt/pipe/signal/signal_holder.h")], ["listener triggers and destruction"])
p("S02", "User-level threads resume where they suspended, with their own state",
  "A thread runs its steps in order and each exactly once: suspending returns control to whoever started or resumed it, also when threads start or resume others; resuming continues right after the suspension with its local variables intact, and resuming a finished thread does nothing. Thread identifiers are distinct, the identifier of the running thread is right whenever it is asked for, a thread is found by its identifier until it is released, and it is reported done exactly when its function has returned.",
  [H, G], "every interleaving of creation, suspension, resumption and release, nested to any depth",
  "Tests suspend and resume one or two threads in order; nesting and interleaving decide which context is current.",
  ["scheduler/thread_action.cc", "scheduler/thread_manager.cc", "scheduler/thread_manager.h"],
  [("context switch", "ThreadAction::run, resume, suspend"), ("current thread", "ThreadAction::cur_running_")], [("threads_", "threads by identifier", "src/vt/scheduler/thread_manager.h")], ["steps of the thread functions"])
p("S03", "Timed triggers fire when their period has passed, and never after removal",
  "At each progress call exactly the triggers whose period has passed since they last fired (or were added) fire, each at most once and the earlier due first; a trigger added with immediate firing fires at once. A removed trigger never fires again, also when it removes itself, and removing one affects no other; trigger identifiers are distinct.",
  [H, S], "every set of periods, every sequence of additions, removals and progress times",
  "Tests wait for one timer in real time; order and removal need several timers due together.",
  ["timetrigger/time_trigger_manager.cc", "timetrigger/time_trigger_manager.h", "timetrigger/trigger.h"],
  [("queue of triggers", "TimeTriggerManager::triggerReady")], [("queue_, removed_", "triggers by next time", "src/vt/timetrigger/time_trigger_manager.h")], ["trigger actions"])
p("I01", "Dense indices are enumerated once and mapped to nodes evenly",
  "Enumerating a dense index range visits each index exactly once, the first dimension fastest; an index is recovered from its bits, and equality, hash and order agree with its components. The linearisations are bijections onto 0..size-1 with the stated dimension fastest; the block mapping gives each node one contiguous block, sizes differing by at most one, and the round-robin mapping deals linear positions to nodes in turn.",
  [I], "every number of dimensions up to four, every extent and number of nodes",
  "Tests map a few square ranges onto two nodes; uneven extents and remainders are where elements fall outside or double up.",
  ["topos/index/dense/dense_array.impl.h", "topos/index/dense/dense_array.h", "topos/mapping/dense/dense.impl.h", "topos/mapping/dense/dense.h"],
  [("block mapping", "mapping::linearizeDenseIndex*, denseBlockMap"), ("packing an index", "DenseIndexArray::uniqueBits")], [("dims", "components", "src/vt/topos/index/dense/dense_array.h")], ["index and mapping functions"])
p("L04", "Object load data: time and communication are charged where they occurred",
  "Every measured interval of an object is added once to the load of the phase and subphase that were current when it ended, and every communication once to its edge in both; a stop without a start adds nothing. Data of other phases and subphases is unaffected by changing phase or subphase in any order, and released phases, and only those, are forgotten.",
  [H], "every sequence of measurements, communications, subphase and phase changes and releases",
  "Tests record one or two phases in order; revisited subphases and releases are not exercised.",
  ["elm/elm_lb_data.cc", "elm/elm_lb_data.h", "elm/elm_comm.h"],
  [("recording", "ElementLBData::addTime, sendComm, recvComm, setSubPhase, releaseLBDataFromUnneededPhases")], [("phase_timings_, subphase_timings_, phase_comm_", "data by phase", "src/vt/elm/elm_lb_data.h")], ["getLoad, getComm, getSubphaseTimes"])
p("U01", "Containers: circular buffer, wrapping counter and approximate histogram",
  "The circular buffer returns what was put in, first in first out, and reports its fill correctly across wrap-around; the ranged counter steps through its range and wraps in both directions. The approximate histogram counts every value added or merged in exactly once, keeps its smallest and largest value, stays within its limit of buckets in sorted order, and answers exactly as long as it never had to merge buckets.",
  [H, I], "every sequence of operations",
  "Tests follow one fixed sequence; wrap-around and merging depend on history.",
  ["utils/container/circular_buffer.h", "utils/adt/ranged_counter.h", "utils/adt/histogram_approx.h"],
  [("wrap-around", "CircularBuffer::push, pop; RangedCounter"), ("bucket merging", "HistogramApprox::add, mergeIn")], [("cs_", "buckets", "src/vt/utils/adt/histogram_approx.h")], ["queries of each container"])

p("C01", "A collection has exactly the elements asked for, each once, where it is mapped",
  "Once construction of a collection has finished, exactly the elements that were asked for (all indices of the range, or the listed ones, or those handed over) exist, each exactly once in the whole job, on the node its mapping names, built by the constructor given, whichever way it was built (collectively or from one node, in bulk, from a list, in place, with an element constructor) and however it is mapped (default blocks, a mapping function, a mapping object). Each node lists precisely its own elements. Destroying a collection destroys every element, and no element disappears otherwise before the end.",
  [I, C, S], "every shape and number of dimensions, every mapping, every way of construction, every number of nodes and every interleaving",
  "Tests build a handful of square collections; uneven shapes, remote mappings and late nodes are not sampled, and most collection tests are not built here.",
  ["vrt/collection/collection_builder.impl.h", "vrt/collection/param/construct_params.h", "vrt/collection/manager.impl.h", "vrt/collection/holders/elm_holder.impl.h", "topos/mapping/dense/dense.impl.h"],
  [("construction", "CollectionManager::makeCollection, insertElms, CollectionBuilder"), ("destruction", "CollectionManager::destroy, destroyMatching")],
  [("Holder::vc_container_", "elements living here", "src/vt/vrt/collection/holders/elm_holder.h")], ["getLocalIndices", "constructors and destructors", "handlers"])
p("C02", "A message to a collection element runs once, on the element, wherever it lives",
  "A message sent to an element of a collection runs its handler on that element exactly once, on the node where the element lives, from whichever node it is sent, whichever form the message takes (plain, serialized, parameters, direct local invocation), whether or not the sender's record of where the element lives is current, and after any number of migrations. The element finds its state as it was when it last left: nothing it recorded is lost, repeated or mixed up by moving. Location queries answer with the node the element is on (from a cache elsewhere: with one it has lived on).",
  [S, H, C], "every sequence of migrations between rounds of messages, every interleaving of messages, location updates and forwarding, every number of nodes (migrations are separated from messages by a finished epoch, as load balancing does)",
  "Forwarding, stale caches and eager updates matter only for particular orders of migrations and sends among at least three nodes.",
  ["topos/location/location.impl.h", "topos/location/location.h", "topos/location/cache/cache.impl.h", "topos/location/directory/directory.impl.h", "vrt/collection/manager.impl.h", "vrt/collection/types/indexable.impl.h", "messaging/collection_chain_set.h"],
  [("routing and forwarding", "EntityLocationCoord::routeMsgEager, routeMsgNode, getLocation"), ("keeping records current", "registerEntity, entityEmigrated, handleEagerUpdate, updatePendingRequest"), ("migration", "CollectionManager::migrateOut, migrateIn")],
  [("recs_, local_registered_, pending_lookups_", "records, elements here, waiting messages", "src/vt/topos/location/location.h")], ["handlers on elements", "element state after migration", "getLocation answers"])
p("C03", "A collection broadcast reaches every element exactly once",
  "A broadcast to a collection runs its handler exactly once on every element that is a member at the time, on the node where the element lives, with the contents sent, from whichever node it starts, whichever form it takes, and also when elements have migrated, been inserted or destroyed before. A collective invocation reaches each element once as well, from the node it lives on.",
  [S, H, C], "every distribution of elements over nodes, every history of migrations and membership changes, every interleaving",
  "A node with no elements, a group rebuilt after migration or a broadcast overtaking creation shows only in particular distributions and orders.",
  ["vrt/collection/manager.impl.h", "vrt/collection/broadcast/broadcastable.impl.h", "vrt/collection/holders/elm_holder.impl.h", "vrt/collection/manager.cc", "group/group_manager.cc", "group/collective/group_info_collective.cc"],
  [("broadcast", "CollectionManager::broadcastMsgUntypedHandler, broadcastFromRoot, collectionBcastHandler"), ("groups over nodes that have elements", "constructGroup, invokeAllGroupConstructors")],
  [("group_ready_, use_group_", "group state of a collection", "src/vt/vrt/collection/holders/elm_holder.h")], ["handlers on elements"])
p("C04", "A finished modification has inserted and destroyed exactly what was asked",
  "When a collection with dynamic membership is modified, then once the modification is finished on every node each element asked for exists exactly once, on the node it was asked for (its mapped node by default) whichever node asked, also when several nodes ask for the same index, when it existed earlier and was destroyed, or when it lives away from its home; each element asked to go is destroyed exactly once; no other element is affected. New elements take part in messages, broadcasts and reductions from then on like the others.",
  [S, H], "every sequence of insertions and destructions of the same and of different indices from any nodes, every interleaving",
  "Tests insert a few elements once; repeating an index, races for one index and elements away from home need particular histories.",
  ["vrt/collection/manager.impl.h", "vrt/collection/messages/system_create.h", "topos/location/location.impl.h", "vrt/collection/insert/insertable.impl.h"],
  [("insertion and reservation", "CollectionManager::insert, pingHomeHandler, insertHandler"), ("destruction", "CollectionManager::destroyElm, EntityLocationCoord::unregisterEntity"), ("end of modification", "CollectionManager::finishModification")],
  [("recs_", "the home's directory reserves indices", "src/vt/topos/location/location.h")], ["getLocalIndices", "constructors and destructors"])
p("C05", "A checkpointed collection is restored as it was, in place or anew",
  "Writing a collection at rest to files and restoring it gives back exactly the elements it had, each on the node where it was and with the state it had, whatever their distribution, whether the files are spread over directories or not, as often as wanted, and from any of several checkpoints. Restored as a new collection, the elements belong to that collection only, carry its label and can be reached from every node like any others (messages, broadcasts, reductions, location queries, migration), whether or not the original still exists. Restored in place, elements that have since moved return, their later changes are undone, and they go on as elements of the collection they were restored into.",
  [S, H], "every distribution and state of the elements, every history of checkpoints, migrations and restores",
  "Tests restore one collection once, mostly with every element at home, and look at its contents only; what restored elements send and reduce later, and elements away from home, differ.",
  ["vrt/collection/manager.impl.h", "vrt/collection/collection_builder.impl.h", "vrt/collection/collection_directory.h", "vrt/collection/types/base.impl.h"],
  [("writing", "CollectionManager::checkpointToFile, makeFilename"), ("restoring", "CollectionManager::restoreFromFile, restoreFromFileInPlace, migrateToRestoreLocation")],
  [("elements_", "what a node wrote", "src/vt/vrt/collection/collection_directory.h")], ["getLocalIndices", "handlers"])
p("R02", "A collection reduction combines every element's contribution exactly once",
  "A reduction over a collection combines the contribution of every element of it exactly once, with those of the same reduction only, and delivers the result exactly once to its target, whatever the target is (a node, an element wherever it lives, every element, every node) and however the elements are distributed. Consecutive reductions do not mix when they overlap, and reductions go on working after elements migrate, are inserted or are destroyed.",
  [S, H, C], "every distribution of elements, every number of reductions in a row or at once, every interleaving and history of membership changes",
  "Overlapping reductions, nodes without elements and changes of membership between reductions are not covered by tests that reduce once over a fixed range.",
  ["collective/reduce/reduce.impl.h", "collective/reduce/reduce.cc", "collective/reduce/reduce_manager.cc", "vrt/collection/reducable/reducable.impl.h", "vrt/collection/manager.impl.h", "vrt/collection/types/indexable.impl.h", "group/group_info.cc"],
  [("combining up the tree", "Reduce::reduceImmediate, reduceAddMsg, reduceNewMsg, startReduce"), ("sequence of an element's reductions", "Indexable::getNextStamp, finishModification")],
  [("state_ (ReduceState)", "contributions so far", "src/vt/collective/reduce/reduce_state.h"), ("reduce_stamp_", "sequence number of an element", "src/vt/vrt/collection/types/indexable.h")], ["result handlers"])
p("L01", "Load balancing moves objects without losing, copying or corrupting any",
  "Whichever load balancer runs at the end of a phase, every element afterwards exists exactly once, with its state unchanged and known where it now lives; migrations happen only within the load balancing step and are over on every node when the phase change returns; the change returns on every node, whatever the numbers of nodes, elements per node (none included) and collections. Messages, broadcasts and reductions work after it as before.",
  [C, S, H], "every load balancer, every distribution of elements, number of phases, number of nodes and interleaving",
  "Tests run one or two balancers on evenly spread elements; empty nodes, several collections and repeated phases differ.",
  ["vrt/collection/balance/lb_invoke/lb_manager.cc", "vrt/collection/balance/baselb/baselb.cc", "vrt/collection/balance/rotatelb/rotatelb.cc", "vrt/collection/balance/randomlb/randomlb.cc", "vrt/collection/balance/greedylb/greedylb.cc", "vrt/collection/balance/hierarchicallb/hierlb.cc", "vrt/collection/balance/temperedlb/temperedlb.cc", "vrt/collection/balance/model/proposed_reassignment.cc", "phase/phase_manager.cc"],
  [("running a balancer", "LBManager::startLB, runLB, finishedLB"), ("transfers", "BaseLB::migrateObjectTo, normalizeReassignments, LBManager::runLB")],
  [("transfers_", "objects to move", "src/vt/vrt/collection/balance/baselb/baselb.h")], ["nextPhaseCollective", "preMigrateOut/epiMigrateIn", "handlers"])

p("G01", "A message to a group of nodes reaches exactly its members, once each",
  "A broadcast to a group of nodes is handled exactly once on every member and on no other node, with the contents sent, whichever node sends it (creator, member or neither) and whatever the members are. A group made from a list or range of nodes has those members; a collectively made group has the nodes that said they belong, and each node can ask whether it does. The creation action runs once (on the creator; on every node for a collective group), and only when the group is complete; creating a group or sending to it never keeps an epoch from terminating. The same holds for multicasts of object groups to groups or to regions of nodes.",
  [S, I, H], "every set of members, sender, number of nodes, several groups at once, and every interleaving",
  "Tests send to one group from its creator, mostly to all nodes but one; wrong trees, forwarding loops and lost members depend on who is a member and who sends.",
  ["group/group_manager.cc", "group/group_info.impl.h", "group/rooted/group_info_rooted.cc", "group/collective/group_info_collective.cc", "group/collective/group_collective_finished.cc", "objgroup/proxy/proxy_objgroup.impl.h", "messaging/active.cc", "collective/tree/tree.cc"],
  [("forwarding to a rooted group", "GroupManager::sendGroup"), ("forwarding to a collective group", "GroupManager::sendGroupCollective"), ("building the trees", "Info::groupSetupHandler, InfoColl::upTree/downTree/finalize/newTree"), ("groups of multicasts", "Proxy::multicast, GroupManager::AddNewTempGroup")],
  [("default_spanning_tree_", "tree of a rooted group", "src/vt/group/rooted/group_info_rooted.h"), ("span_children_, msgs_", "tree of a collective group", "src/vt/group/collective/group_info_collective.h")], ["handler entry on each node", "creation actions"])
p("O01", "Object group messages run on the current local instance of each target",
  "A message to one node of an object group runs exactly once on that node's instance, a broadcast once on every node's instance, with the contents sent, also when it arrives before the node has made its instance. A direct invocation runs in place and returns what the method returns. The local instance is the one the node supplied or last updated, it keeps its state between messages, the proxy and the pointer of an instance lead to each other, and several object groups never mix, however they are created and destroyed.",
  [S, H], "every way of creating an object group, every sequence of sends, broadcasts, invocations, updates and destructions, every interleaving",
  "Tests create one or two object groups and wait; messages ahead of creation and histories of several groups are rare there.",
  ["objgroup/manager.cc", "objgroup/manager.h", "objgroup/manager.impl.h", "objgroup/manager.static.h", "objgroup/proxy/proxy_objgroup.impl.h", "objgroup/proxy/proxy_objgroup_elm.impl.h", "objgroup/proxy/proxy_bits.cc", "objgroup/holder/holder.h", "runnable/runnable.cc"],
  [("dispatch to the local instance", "objgroup::detail::dispatch, dispatchImpl"), ("registration", "ObjGroupManager::makeCollectiveImpl, regObjProxy"), ("pending messages", "getPending")],
  [("objs_", "proxy to local instance", "src/vt/objgroup/manager.h"), ("pending_", "messages for instances not made yet", "src/vt/objgroup/manager.h")], ["methods of the instances", "Proxy::get"])
p("P01", "A callback delivers every triggering to its target exactly once",
  "Each time a callback is triggered, on whichever node and however often it was passed on and serialized, its target receives the arguments exactly once: a function or functor on a node, one on every node, an instance of an object group, all its instances, a collection element, all elements, or a closure on the node that made it. Callbacks remain valid for any number of triggerings unless made for one only, and different callbacks never mix.",
  [S, H, G], "every kind of target and message, every number of triggerings and of hops before them, every interleaving",
  "Tests trigger each kind once, most often where it was made; losing or mixing needs repeated and remote triggerings.",
  ["pipe/pipe_manager.cc", "pipe/pipe_manager_base.cc", "pipe/pipe_manager_base.impl.h", "pipe/pipe_manager_tl.impl.h", "pipe/callback/cb_union/cb_raw_base.cc", "pipe/callback/cb_union/cb_raw_base.impl.h", "pipe/callback/cb_union/cb_raw.h", "pipe/callback/proxy_send/callback_proxy_send.h", "pipe/callback/handler_send/callback_send.impl.h", "pipe/callback/handler_bcast/callback_bcast.impl.h", "pipe/id/pipe_id.cc", "pipe/signal/signal_holder.impl.h"],
  [("triggering", "CallbackRawBaseSingle::send, PipeManagerBase::triggerPipe*"), ("making callbacks", "PipeManagerTL::makeCallback*")],
  [("pipe_state_", "pipes of this node", "src/vt/pipe/pipe_manager_base.h"), ("listeners_", "targets of a pipe", "src/vt/pipe/signal/signal_holder.h")], ["handlers of the targets"])
p("R05", "Scatter gives each node its own part of the data, once",
  "A scatter handles on every node exactly once the part of the buffer that was produced for that node, unchanged, whatever the size of a part, the number of nodes and the node that starts it, also when several scatters are under way.",
  [I, S], "every size of a part, number of nodes, origin and interleaving",
  "Tests scatter one small fixed size from one node.",
  ["collective/scatter/scatter.cc", "collective/scatter/scatter.impl.h", "collective/scatter/scatter_msg.h", "collective/tree/tree.cc"],
  [("splitting and forwarding", "Scatter::applyScatterRecur, scatterImpl, scatterHandler")],
  [("ScatterMsg", "parts for a subtree", "src/vt/collective/scatter/scatter_msg.h")], ["handlers"])
p("R01", "A node reduction combines each contribution once and delivers the result once",
  "A reduction over all nodes, over an object group or over a group of nodes combines exactly the contributions of its parties, each once, with the operator asked for, and delivers the result exactly once to its target (a node, every node, or a callback). Reductions that overlap never mix: those without an explicit identity are matched by their order, those with one by that identity, in whichever order each node starts them and whichever other reductions are under way on the same or other object groups.",
  [S, I, C], "every operator, identity and target, every number and order of overlapping reductions on each node, every number of nodes and interleaving",
  "Tests reduce one value at a time on one or two nodes; mixing needs overlap in different orders on different nodes.",
  ["collective/reduce/reduce.cc", "collective/reduce/reduce.impl.h", "collective/reduce/reduce_manager.cc", "collective/reduce/reduce_scope.h", "collective/reduce/reduce_state_holder.cc", "collective/reduce/scoping/strong_types.h", "collective/reduce/operators/default_op.h", "collective/reduce/operators/functors/plus_op.h", "collective/reduce/get_reduce_stamp.h", "objgroup/manager.impl.h", "objgroup/proxy/proxy_objgroup.impl.h", "group/group_manager.cc"],
  [("combining up the tree", "Reduce::reduceAddMsg, reduceNewMsg, startReduce"), ("identity of a reduction", "Reduce::generateNextID, ReduceStamp"), ("operators", "operator functors in operators/")],
  [("ReduceState", "contributions so far under one stamp", "src/vt/collective/reduce/reduce_state.h"), ("next_seq_", "order of unidentified reductions", "src/vt/collective/reduce/reduce.h")], ["result handlers"])
p("R03", "No node passes a barrier before every node has reached it",
  "A barrier, blocking or with a continuation, anonymous or named, lets a node go on only after every node has reached that same barrier, and then lets each go on exactly once; different barriers never satisfy each other, also when their arrivals overlap or are ordered differently in time on different nodes. Nodes keep processing messages while they wait.",
  [S, G], "every sequence of barriers of all kinds, every order of arrival and interleaving, every number of nodes",
  "Tests run a few barriers in lockstep; early passage needs a late node and consecutive barriers in flight.",
  ["collective/barrier/barrier.cc", "collective/barrier/barrier.h", "collective/collective_alg.cc", "collective/collective_ops.cc"],
  [("counting up and releasing down the tree", "Barrier::barrierUp, barrierDown, waitBarrier, contBarrier")],
  [("named_barrier_state_, unnamed_barrier_state_", "arrivals of a barrier", "src/vt/collective/barrier/barrier.h")], ["return of barrier()", "continuations"])
p("R04", "Collective actions run once on every node, in one common order",
  "An MPI action planned through collective scopes runs exactly once on every node, after every node has planned it and within its epoch, and all nodes run all the planned actions in one common order even when different scopes are used in different orders; so blocking MPI operations inside always meet their counterparts. Asking whether an action is done, and waiting for it, report exactly that, and a scope is released once it is dropped and its actions are done.",
  [S, G], "every number of scopes (user or system), every interleaving of planning on different nodes and scopes, every mixture of waiting and asking",
  "Tests use one or two scopes in the same order everywhere; divergence of the common order needs a race.",
  ["collective/collective_scope.cc", "collective/collective_alg.cc", "collective/collective_scope.h"],
  [("agreeing on the next action", "CollectiveAlg::runCollective, broadcastConsensus"), ("planning", "CollectiveScope::mpiCollectiveAsync")],
  [("planned_collective_", "actions not run yet", "src/vt/collective/collective_scope.h"), ("postponed_collectives_", "requests behind the running one", "src/vt/collective/collective_alg.h")], ["the actions", "isCollectiveDone", "isDeallocated"])

p("M04", "Steps of a chain run once, in order, each after all the previous one caused",
  "Each index of a chain set runs the steps given to it exactly once and in the order they were given; a step begins only when everything the previous step of that chain caused (including remote work and work caused by that) is over, while chains of different indices proceed independently. Collective steps wait for every index, merged steps for both chains. Each element is in exactly one node's part of a set, also after migration, insertion and destruction, and the epoch given to a phase ends only when all its steps are over.",
  [S, G], "every number of chains and steps, every interleaving of steps, messages, migrations, insertions and destructions",
  "Tests run a few fixed chains; order violations need a step whose consequences outlast the next step's arrival.",
  ["messaging/dependent_send_chain.h", "messaging/collection_chain_set.h", "messaging/collection_chain_set.impl.h", "messaging/pending_send.cc", "vrt/collection/listener/listen_events.h"],
  [("a step", "DependentSendChain::add"), ("stepping all indices", "CollectionChainSet::nextStep, nextStepCollective, mergeStep")],
  [("last_epoch_", "what the next step waits for", "src/vt/messaging/dependent_send_chain.h"), ("chains_", "indices kept here", "src/vt/messaging/collection_chain_set.h")], ["the elements' steps", "getSet"])
p("H01", "Memory behind node handles and handle sets behaves as shared memory",
  "A block of a one-sided handle (one per node, or one per entry of a node's set) holds what was last put or locally written there: every get, local access and accumulate from any node sees and changes exactly the named cells of the named block, concurrent accumulates all take effect, fetch-and-op calls take place one after another, an exclusive lock excludes everybody else, sizes are reported as created, and actions attached to a get run once with the data. Other blocks and other handles never change.",
  [S, G], "every number of nodes, blocks, sizes (equal or not), element type, mix of operations and lock modes, every interleaving of their effects",
  "Tests write whole blocks and read them after a barrier; mixed-up offsets, missing locks and lost updates need several blocks per node and concurrent access.",
  ["rdmahandle/holder.impl.h", "rdmahandle/handle.node.impl.h", "rdmahandle/handle.index.impl.h", "rdmahandle/sub_handle.impl.h", "rdmahandle/manager.impl.h", "rdmahandle/request_holder.cc", "rdmahandle/lock_mpi.h"],
  [("one-sided operations", "Holder::rget, rput, raccum, fetchOp, access"), ("finding an entry of a set", "SubHandle::fetchInfo, getOrderedOffset, stageLocalIndex")],
  [("data_base_", "the block", "src/vt/rdmahandle/holder.h"), ("sub_prefix_", "where entries lie", "src/vt/rdmahandle/sub_handle.h")], ["get/put/accum/fetchOp", "readShared/modifyExclusive", "getCount"])
p("H02", "Memory of a collection element keeps its contents wherever the element lives",
  "The block of a handle made by a collection element is reached by the element's index from every node, before and after migrations by the load balancer or by the user followed by the phase hooks, and it keeps its contents and size across them; operations on it behave as on node handles.",
  [S, G], "every element count, placement, size, sequence of migrations, operations and handles per element",
  "Tests migrate once in one pattern with equal sizes; a wrong layout shows with unequal sizes, several elements per node and repeated migration.",
  ["rdmahandle/sub_handle.impl.h", "rdmahandle/manager.collection.impl.h", "rdmahandle/handle.index.impl.h", "rdmahandle/cache.h", "vrt/collection/rdmaable/rdmaable.impl.h"],
  [("after a migration", "SubHandle::afterLB, checkChanged, updateInfo"), ("finding an element's block", "SubHandle::resolveLocation, fetchInfo")],
  [("sub_handles_", "blocks kept here", "src/vt/rdmahandle/sub_handle.h"), ("cache_", "known locations", "src/vt/rdmahandle/sub_handle.h")], ["get/put/accum/fetchOp", "getCount"])

p("S01", "The scheduler runs all work once, most urgent first, and reports its events",
  "Work enqueued on a node runs exactly once there, in order of priority among what is waiting, and is not run inside other work except by a scheduler loop that work itself starts; messages are handled in that order too, with the priority they were given or derive from the message being handled. A loop goes on exactly as long as its condition holds and may be nested to any depth; the network is polled at least as often as configured. Triggers registered for an event of the scheduler (begin or end of idling, idling but for termination detection, begin or end of a loop, new work) run exactly when it occurs, in order of registration: the permanent ones each time, the single ones once, also when a trigger registers others, enqueues work or runs a loop itself.",
  [H, S, G], "every set of priorities, nesting of loops and epochs, registration of triggers and interleaving with messages",
  "Tests enqueue a few units in one loop; nested loops, triggers acting on the scheduler and derived priorities need particular combinations.",
  ["scheduler/scheduler.cc", "scheduler/scheduler.impl.h", "scheduler/priority_queue.h", "scheduler/prioritized_work_unit.h", "scheduler/priority_manip.cc", "messaging/message/message_priority.impl.h", "messaging/active.cc"],
  [("running work", "Scheduler::runSchedulerOnceImpl, runNextUnit, runProgress"), ("loops", "Scheduler::runSchedulerWhile, runInEpochRooted"), ("triggers", "Scheduler::triggerEvent, registerTriggerOnce"), ("derived priority", "msgSetPriorityImpl, setPriorityTo")],
  [("work_queue_", "work by priority", "src/vt/scheduler/scheduler.h"), ("event_triggers_once", "single triggers by event", "src/vt/scheduler/scheduler.h")], ["order in which work, handlers and triggers run"])
p("L02", "A phase ends for all nodes together, with every hook run in its place",
  "A phase change returns on a node only when every node has called it, and the phase number goes up by one everywhere. In it the hooks for data collection run first, then those for the end of the phase, those after migrations, and those for the start of the next; in each set the rooted ones run first, then the collective ones, then the unsynchronised ones, each exactly once per node it is registered on and in order of registration. A rooted hook is over only when all work it caused, on whatever node, is done, a collective one when that holds for all nodes, the next does not start before; those for data collection are over together. A hook runs in every phase change from its registration until it is unregistered and in no other.",
  [S, C, H], "every set of hooks of all kinds, work they cause and interleaving of the nodes, every history of registrations",
  "Tests register one hook of each kind that sends nothing; the ordering is visible only when hooks cause work on nodes that are ahead or behind.",
  ["phase/phase_manager.cc", "phase/phase_manager.h", "phase/phase_hook_enum.h"],
  [("change of phase", "PhaseManager::nextPhaseCollective"), ("running hooks", "PhaseManager::runHooks, runHooksManual"), ("registration", "registerHookRooted, registerHookCollective, registerHookUnsynchronized, unregisterHook")],
  [("collective_hooks_, rooted_hooks_, unsync_hooks_", "hooks by set", "src/vt/phase/phase_manager.h"), ("cur_phase_", "current phase", "src/vt/phase/phase_manager.h")], ["hooks and handlers run", "getCurrentPhase"])
p("A01", "Asynchronous operations and events complete once, and their epoch waits",
  "An asynchronous operation is polled until it reports completion, then its completion runs exactly once and it is not polled again; the epoch it was started in does not end before that, nor before what the completion causes there, and a user-level thread blocked on it goes on only then, as it was (same epoch, same thread, same locals) while others go on meanwhile. A completion may start further operations, wait for an epoch or send messages. An action attached to an event runs exactly once, on the node that attached it, once the event has occurred: at once if it has already, also when attached from another node, while other actions run, or by an action of the same event. A parent event occurs when all its events have.",
  [S, H, G], "every number of operations and events, durations, nesting of completions, every interleaving with messages and thread switches",
  "Tests start one operation that starts nothing; operations ending out of order, started from completions or blocking several threads need particular histories.",
  ["messaging/request_holder.h", "messaging/async_op_wrapper.cc", "messaging/active.cc", "event/event.cc", "event/event_holder.cc", "event/event_record.cc"],
  [("polling", "ActiveMessenger::testPendingAsyncOps, RequestHolder::testAll"), ("blocking", "ActiveMessenger::blockOnAsyncOp, AsyncOpWrapper::done"), ("events", "AsyncEvent::attachAction, checkEventFinished, EventHolder::makeReadyTrigger, EventRecord::testReady")],
  [("in_progress_ops", "operations in progress", "src/vt/messaging/active.h"), ("event_container_, polling_event_container_", "events and their actions", "src/vt/event/event.h")], ["poll and done calls", "actions run", "end of epochs"])
p("V01", "Exactly the needed components are made, in dependency order, and torn down once",
  "Constructing a component pack makes exactly the components that were added and those they transitively need (to start or to run), each once, from the arguments it was registered with. Everything a component needs to start is constructed and initialised before it is constructed, and it is initialised, reachable through its reference, before the next one is made; startup runs once per component, in the order of construction, after all are initialised. The pack is live from then until it is destructed. Each progress call polls every pollable component once and returns the sum. Iteration visits exactly the components it holds. Destruction finalizes each component once, in reverse order of construction and before destroying it; a component that was extracted belongs to the caller, is not finalized, and cannot be extracted again.",
  [S, H, G], "every dependency graph, registration order, set of additions and extractions",
  "Tests build one or two fixed packs; order and closure depend on the shape of the dependency graph and on the order of registration.",
  ["runtime/component/component_pack.h", "runtime/component/component_pack.impl.h", "runtime/component/component_pack.cc", "runtime/component/component_registry.h"],
  [("closure and order", "ComponentPack::addAllRequiredComponents, topoSort"), ("construction", "ComponentConstructor, registerComponent"), ("end", "ComponentPack::destruct, extractComponent")],
  [("live_components_, pollable_components_", "components made and polled", "src/vt/runtime/component/component_pack.h"), ("added_components_, registered_components_", "components wanted and known", "src/vt/runtime/component/component_pack.h")], ["calls of the components' methods", "live status, iteration and progress results"])
p("V02", "A runtime can be started again, with other processes, untouched by the last one",
  "vt::initialize on a communicator makes an instance whose nodes are numbered as the communicator numbers its processes; instances on disjoint communicators live side by side in one MPI world, and after vt::finalize the same processes can start further instances with other sizes, orders and groupings. Every message, broadcast, asynchronous operation and termination action is carried out in the instance it was made in, exactly once on each node it is for. vt::finalize returns on no node before all nodes of the instance have called it and all its work is done, including work that causes further work, and the phase of a new instance is the first.",
  [S, I, H, G], "every sequence of communicators, work in each instance and interleaving of processes",
  "Tests start every instance on the same communicator; state that outlives an instance shows only when the next one differs.",
  ["runtime/runtime.cc", "runtime/runtime_holder.h", "collective/startup.cc", "collective/collective_ops.cc", "group/global/group_default.cc", "context/context.cc", "termination/termination.cc"],
  [("lifetime", "CollectiveAnyOps::initialize, finalize"), ("end of work", "Runtime::terminationHandler, finalize"), ("broadcast tree", "DefaultGroup::setupDefaultTree, broadcast")],
  [("default_group_", "tree of the default group", "src/vt/group/global/group_default.h"), ("runtime_active_, aborted_", "state of the runtime", "src/vt/runtime/runtime.h")], ["node numbers and counts", "work carried out", "return of finalize"])
p("V03", "Each option takes the value of its strongest source, else its default",
  "The value of every option is that of the command line, else that of the configuration file (--vt_input_config), else that of the YAML file (--vt_input_config_yaml, given on the command line or by the program), else that of the program's AppConfig, else its default; options nobody mentions and options next to them are unaffected. Of the command line, exactly what follows --vt_args (or, before either marker, an argument starting with --vt_) up to -- is the runtime's; all else stays with the program, in order, behind the program's name. A configuration written out in YAML and read by another run gives the same values (user options aside).",
  [S, I, G], "every combination of options, values, sources and order of arguments",
  "Tests set a handful of the more than hundred options, from one or two sources each.",
  ["configs/arguments/args.cc", "configs/arguments/args.h", "configs/arguments/argv_container.h", "configs/arguments/app_config.h"],
  [("sources", "parseArguments, parseYaml, ArgConfig::parse"), ("arguments of the program", "parseArguments: passthru_args"), ("output", "convertConfigToYamlString")],
  [("AppConfig", "values of all options", "src/vt/configs/arguments/app_config.h")], ["AppConfig after parse", "argc and argv after parse", "vt_output_config_str"])
p("L03", "Load models predict from exactly the recorded loads they are defined on",
  "Stacked load models answer each question (an object; a past or coming phase; the whole phase or a subphase) by their definitions: raw data gives what was recorded for exactly that object, phase and subphase (nothing recorded is 0); persistence takes the last completed phase; the median and the linear regression use the last n completed phases (or all there are) and only for coming phases; multiple phases add up the coming block; selected subphases and norms combine the subphases of that phase; communication overheads count messages and bytes that crossed nodes and were received (or the larger of sent and received) by that object in that phase; per-collection models apply to the objects of their collection only; a proposed reassignment shows arriving objects with the loads they bring, hides departing ones and leaves the others as they are. Object iteration and counts, the number of completed phases and subphases and the number of past phases needed agree with that.",
  [I, H, G], "every stack of models, recorded history, object, phase offset and subphase",
  "Tests check each model alone on a few phases of fixed loads; models are stacked, and an error shows for particular offsets, lengths of history or shares of communication.",
  ["vrt/collection/balance/model/raw_data.cc", "vrt/collection/balance/model/naive_persistence.cc", "vrt/collection/balance/model/persistence_median_last_n.cc", "vrt/collection/balance/model/linear_model.cc", "vrt/collection/balance/model/norm.cc", "vrt/collection/balance/model/multiple_phases.cc", "vrt/collection/balance/model/select_subphases.cc", "vrt/collection/balance/model/comm_overhead.cc", "vrt/collection/balance/model/weighted_messages.cc", "vrt/collection/balance/model/weighted_communication_volume.cc", "vrt/collection/balance/model/per_collection.cc", "vrt/collection/balance/model/proposed_reassignment.cc", "utils/stats/linear_regression.h", "elm/elm_comm.h"],
  [("questions", "LoadModel::getModeledLoad, getModeledComm, getRawLoad"), ("history", "setLoads, updateLoads, getNumPastPhasesNeeded"), ("objects", "begin, getNumObjects")],
  [("last_completed_phase_", "last completed phase", "src/vt/vrt/collection/balance/model/raw_data.h"), ("proc_load_, proc_comm_", "recorded loads and communication", "src/vt/vrt/collection/balance/model/raw_data.h")], ["predicted loads", "objects iterated"])
#---- more

if __name__ == "__main__":
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    seen = set()
    for d in P:
        assert d["id"] not in seen, d["id"]; seen.add(d["id"])
        for f in d["anchors"]["files"]: assert os.path.exists(os.path.join(os.environ.get("VT_REPO", "/repo"), f)), f
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
