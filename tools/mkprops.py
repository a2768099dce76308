#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script so that the file stays valid JSON lines).
import json, os
D = "include/boost/statechart/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": [D + f for f in files],
         "mechanism": [{"name": n, "where": D + w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": D + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Transitions exit, act and enter in exactly the documented order",
  "For every transition, the innermost common context of source and destination is kept and all active states inside it that have to go are exited and destroyed, innermost first and from the last orthogonal region to the first. Then the transition action runs exactly once, and then the destination branch is entered outermost first and from the first region to the last, down to the initial states below the destination and in every region the destination does not name. No other state is exited, destroyed, constructed or entered, also when source and destination are equal or one contains the other.",
  ["inputs", "histories", "programs"],
  "every machine of the generated hierarchies (up to 3 levels, up to 3 orthogonal regions), every reachable configuration within k events, every source state and every legal destination, each with and without action",
  "TransitionTest walks one fixed script through one chart; the order has to hold for every (configuration, source, destination) triple and after every history, including exits of states whose sibling regions changed earlier.",
  ["simple_state.hpp", "state_machine.hpp", "detail/constructor.hpp", "detail/state_base.hpp", "detail/node_state.hpp", "detail/leaf_state.hpp"],
  [("transit_impl / common-context search", "simple_state.hpp"), ("terminate_as_part_of_transit, unwinding order", "simple_state.hpp"), ("constructor, inner_constructor, outer_constructor", "detail/constructor.hpp"), ("node_state::exit_impl region order", "detail/node_state.hpp")],
  ["constructors, destructors and exit() of user states", "transition actions"])

p("C02", "The reported configuration is exactly the set of states entered and not exited",
  "Between calls, iterating over the active states yields every active innermost state exactly once and nothing else, and following the outer-state links from them yields exactly the states that were entered and not yet exited. Lookups of a state by type find precisely the active states (by exact type or by inheritance for the casting form) and otherwise report absence; they never return a state that was destroyed or that was never entered. A machine reports itself terminated exactly when no state is active.",
  ["histories", "inputs", "programs"],
  "all generated hierarchies, all event histories of up to k events with any reaction outcome, including partial terminations of orthogonal regions, exceptions and re-initiation",
  "StateCastTest and StateIterationTest look at a handful of configurations reached by fixed scripts; the query structures are updated incrementally on each entry and exit, so an error shows only after particular histories.",
  ["state_machine.hpp", "simple_state.hpp", "detail/leaf_state.hpp", "detail/node_state.hpp", "detail/state_base.hpp"],
  [("state_cast / state_downcast", "state_machine.hpp"), ("currentStates_ list and add / remove_from_state_list", "detail/leaf_state.hpp"), ("state_iterator", "state_machine.hpp")],
  ["state_begin/state_end", "state_cast", "state_downcast", "terminated", "outer_state_ptr"],
  [("currentStates_", "active innermost states", "state_machine.hpp"), ("pOutermostState_, pOutermostUnstableState_", "root of the state tree and stability marker", "state_machine.hpp")])

p("C03", "An event is offered innermost to outermost and consumed by one reaction at most",
  "For a processed event every active innermost state starts a search for a matching reaction that moves outward through its enclosing states, trying the reactions of a state in the order they are listed. The search resumes past a reaction only if it forwarded the event; it stops for good at the first one that discards, defers, transits or terminates, and no further reaction of any state is run for that event. The unconsumed-event hook is called exactly once, with the very event, exactly if the search ended without such a reaction; a state shared by several regions may see a forwarded event again.",
  ["inputs", "histories", "programs"],
  "all generated hierarchies and configurations reachable within k events; each reaction independently forwards, discards, defers, transits or terminates as a symbolic choice",
  "The tests fix each state's answer at compile time and cover only a few combinations of answers across regions.",
  ["state_machine.hpp", "simple_state.hpp", "result.hpp", "custom_reaction.hpp", "detail/state_base.hpp"],
  [("send_event loop over current states", "state_machine.hpp"), ("local_react / react_impl chain", "simple_state.hpp"), ("combine with forward/no_reaction", "simple_state.hpp"), ("unconsumed_event", "state_machine.hpp")],
  ["react() of user states", "unconsumed_event"])

p("C04", "Posted events run to completion, in first-in first-out order, exactly once",
  "An event posted from inside a reaction, an entry or exit action or a transition action never interrupts the reaction that posted it: it is processed, exactly once, after the event being processed is completely finished and before the outermost call into the machine returns. Posted events are processed in the order they were posted, after those already waiting. An event posted from outside a running machine waits until the next call that processes events.",
  ["histories", "inputs"],
  "all sequences of up to k posted events over all posting sites (reactions, entry and exit actions, transition actions, machine subclass, unconsumed hook) with symbolic event types",
  "TriggeringEventTest and FifoSchedulerTest post one or two events from one site; nesting and interleaving of several posts from several sites is never exercised.",
  ["state_machine.hpp", "simple_state.hpp"],
  [("post_event_impl, process_queued_events", "state_machine.hpp"), ("simple_state::post_event", "simple_state.hpp")],
  ["order of react() calls", "return from process_event / initiate"],
  [("eventQueue_", "posted events waiting", "state_machine.hpp")])

p("C05", "Deferred events are kept and released first when their deferrer exits",
  "An event that a state defers is neither lost nor processed again while that state stays active; it is kept in deferral order. When a state that deferred an event is exited or destroyed in the normal course of events, all deferred events are put, in their deferral order, in front of the events waiting in the posting queue and are then dispatched exactly once each. Exiting a state that did not defer releases nothing.",
  ["histories", "inputs", "programs"],
  "all histories of up to k events in which any active state may defer any event, post further events, and exit, over nested and orthogonal states",
  "DeferralTest and DeferralBug check two fixed charts; the release point depends on which of several active states deferred what and when each one exits.",
  ["state_machine.hpp", "simple_state.hpp", "deferral.hpp", "detail/state_base.hpp"],
  [("defer_event / release_events", "state_machine.hpp"), ("deferredEvents_ flag of the state", "detail/state_base.hpp"), ("leaf_state / node_state removal notifying release", "state_machine.hpp")],
  ["order of react() calls"],
  [("deferredEventQueue_", "events deferred so far", "state_machine.hpp")])

p("C06", "Events live as long as needed, and reactions see the event object itself",
  "A reaction sees the very event that was processed, posted or deferred, with unchanged contents: an event that is already held by a shared pointer is shared and not copied, and one that lives on the stack is copied (exactly into an event of the same type) when and only when it has to outlive the call. Each event object is destroyed exactly once, after the last shared pointer to it is gone and not before its last use; the reference count of an event is exact for any sequence of copies and releases. Copying an event does not copy its reference count.",
  ["histories", "inputs"],
  "all histories of up to k events mixing stack and heap events, process, post and defer, symbolic 32-bit payloads; all sequences of up to k reference-count operations",
  "Tests use empty events and never look at the identity, the contents or the destruction of a deferred or posted event.",
  ["event_base.hpp", "event.hpp", "detail/counted_base.hpp", "state_machine.hpp", "simple_state.hpp"],
  [("intrusive_from_this / clone", "event_base.hpp"), ("counted_base add_ref/release", "detail/counted_base.hpp")],
  ["event pointer and payload in react()", "event copy constructor and destructor"])

p("C07", "Shallow history re-enters the direct inner state that was last active",
  "A transition to the shallow history of a context enters, in the stated orthogonal region, the direct inner state of that context that was active when the context was last exited, followed by that state's own initial states. If nothing is stored, the default state given in the chart is entered instead. The history of one region or context is never affected by that of another.",
  ["histories", "inputs", "programs"],
  "all histories of up to k events over charts with shallow history on one or two levels and one or two regions, each direct inner state reachable as last active",
  "HistoryTest runs one fixed script; what is stored is history and must be right after every sequence of exits and entries.",
  ["state_machine.hpp", "simple_state.hpp", "history.hpp", "shallow_history.hpp", "detail/constructor.hpp"],
  [("add_inner_state / store_shallow_history / construct_with_shallow_history", "state_machine.hpp"), ("history_key", "state_machine.hpp"), ("shallow_history_storage", "simple_state.hpp")],
  ["constructors of user states after a transition to history"],
  [("shallowHistoryMap_", "last active direct inner state per context and region", "state_machine.hpp")])

p("C08", "Deep history re-enters the innermost state that was last active",
  "A transition to the deep history of a context enters, in the stated orthogonal region, the innermost state inside that context that was active when the context was last exited, together with all states between the context and it. If nothing is stored, the default state given in the chart is entered. Contexts that are nested in one another or belong to different regions keep separate histories.",
  ["histories", "inputs", "programs"],
  "all histories of up to k events over charts with deep history on one or two levels and one or two regions, every innermost state reachable as last active",
  "HistoryTest runs one fixed script; the stored innermost state is history-dependent and differs per context.",
  ["state_machine.hpp", "simple_state.hpp", "history.hpp", "deep_history.hpp", "detail/leaf_state.hpp", "detail/constructor.hpp"],
  [("store_deep_history / construct_with_deep_history", "state_machine.hpp"), ("deep_history_storer", "simple_state.hpp")],
  ["constructors of user states after a transition to history"],
  [("deepHistoryMap_", "last active innermost state per context and region", "state_machine.hpp")])

p("C09", "History can be cleared exactly, and does not survive termination or initiation",
  "Clearing the shallow or the deep history of a context and region makes the next transition to that history enter the default state and leaves every other stored history alone. Terminating or initiating a machine forgets all stored history. Clearing a history that holds nothing has no effect.",
  ["histories", "inputs"],
  "all histories of up to k operations from {events, clear shallow/deep of each region, terminate, initiate}",
  "HistoryTest clears two histories once; independence of keys and the reset on terminate/initiate depend on history.",
  ["simple_state.hpp", "state_machine.hpp"],
  [("clear_shallow_history / clear_deep_history", "simple_state.hpp"), ("clear_shallow_history / clear_deep_history", "state_machine.hpp"), ("terminate_impl clearing the maps", "state_machine.hpp")],
  ["constructors of user states after a transition to history"])

p("C10", "Termination removes exactly the terminated state and everything left empty by it",
  "Terminating a state exits and destroys it and all states active inside it, innermost first and last region first; an enclosing state left without any active inner state is terminated too, outward up to the machine itself, and all other regions remain active. Terminating the machine exits every active state in that order, empties it and drops posted and deferred events; doing so on a terminated machine has no effect. Destroying a machine destroys all its states, innermost first, without calling any exit function.",
  ["histories", "inputs", "programs"],
  "all generated hierarchies and configurations reachable within k events, termination of every state by every route (reaction, machine call, destruction)",
  "TerminationTest and UnconsumedResultTest cover one chart with fixed scripts.",
  ["state_machine.hpp", "simple_state.hpp", "termination.hpp", "detail/node_state.hpp", "detail/leaf_state.hpp"],
  [("terminate / terminate_impl", "state_machine.hpp"), ("remove_from_state_list", "detail/node_state.hpp"), ("destructor of the machine", "state_machine.hpp")],
  ["exit() and destructors of user states", "terminated", "process_event after termination"])

p("C11", "An exception that is not translated empties the machine and reaches the caller",
  "If an entry action, exit action, reaction or transition action throws and no translator turns it into a handled event, all states are destroyed, innermost first, each exactly once and without any further exit call, the machine is terminated and the original exception leaves the call unchanged. No later event is processed, nothing leaks, and the machine can be initiated again and then behaves like a new one. An exception from the unconsumed-event hook leaves the states alone and reaches the caller.",
  ["fault_sequences", "histories", "inputs"],
  "a throw at every possible action invocation along all histories of up to k events, over the generated hierarchies, with posted and deferred events outstanding",
  "UncaughtExceptionTest throws from three fixed places in one small chart.",
  ["state_machine.hpp", "null_exception_translator.hpp", "simple_state.hpp", "detail/leaf_state.hpp", "detail/node_state.hpp"],
  [("send_event, initial_construct_function, terminate_function guards", "state_machine.hpp"), ("performFullExit_ flag", "state_machine.hpp")],
  ["exit() and destructors of user states", "exception seen by the caller", "terminated"])

p("C12", "Translated exceptions go outward from the failing state and must end stable",
  "With an exception translator, an exception from an action is turned into an event that is offered first to the state that caused it (the outermost unstable state if an entry, exit or transition action failed, otherwise the innermost state whose reaction failed) and then only outward, never to other regions. The exception counts as handled only if a reaction consumed that event and the machine is stable or terminated afterwards, in which case processing continues normally; otherwise all states are destroyed without exit calls, the machine is terminated and the original exception reaches the caller. No exit function is called for states removed between the throw and the end of the handling reaction, and an exception thrown while handling one propagates.",
  ["fault_sequences", "histories", "inputs"],
  "a throw at every action invocation along all histories of up to k events; at the exception event each state independently forwards, discards, transits anywhere, terminates or throws again",
  "InvalidResultAssignment and InconsistentHistory aside, UncaughtExceptionTest/ExceptionTest cover a few handlers in one chart.",
  ["state_machine.hpp", "exception_translator.hpp", "simple_state.hpp"],
  [("exception_event_handler / translator operator()", "exception_translator.hpp"), ("exception_event_handler in state_machine", "state_machine.hpp"), ("pOutermostUnstableState_ bookkeeping", "state_machine.hpp")],
  ["react() calls for the exception event", "exit() calls", "exception seen by the caller"])

p("C13", "Initiation always starts from a clean slate",
  "Initiating a machine first terminates it if it is running and then enters its initial state and, innermost last, first region first, all initial states below; afterwards it behaves exactly like a newly created machine that was initiated, whatever happened before: no event, deferral, history, pending exception or state survives. Initiation processes events posted by the entry actions before it returns.",
  ["histories", "fault_sequences"],
  "every history of up to k operations (events with any reaction, deferral, history, termination, a throw at any action) followed by initiation and any further l events, compared with a new machine given the same l events",
  "Tests initiate each machine mostly once, from a fresh state.",
  ["state_machine.hpp"],
  [("initiate / initial_construct_function", "state_machine.hpp"), ("terminate_impl", "state_machine.hpp")],
  ["all user-visible actions after initiation"])

p("C14", "The triggering event is exact at every point of a run",
  "While an event is processed, in reactions, transition actions and the entry and exit actions it causes, the machine and every state report exactly that event as the triggering one; during handling of an exception it is the exception event. While initiating, terminating or destroying a machine from outside, and between calls, none is reported. After nested or failed processing the previous value is restored.",
  ["histories", "inputs", "fault_sequences"],
  "every action invocation along all histories of up to k events, including posted and deferred events, exceptions with and without translator, initiation and termination",
  "TriggeringEventTest checks a single chart and no exceptions.",
  ["state_machine.hpp", "simple_state.hpp"],
  [("current_event_guard", "state_machine.hpp"), ("triggering_event", "simple_state.hpp")],
  ["triggering_event() called in every user action"])

p("C15", "Events and states are told apart by exact dynamic type, in either RTTI mode",
  "A reaction to an event type is run for events of exactly that most-derived type, and a reaction to the event base type for every event; a lookup of a state by exact type matches only that type. Custom type information is reported as set for each class and belongs to no other class. All of this is the same whether the library's own or the compiler's run-time type information is used.",
  ["inputs", "programs", "configurations"],
  "event hierarchies with inheritance, symbolic dynamic type of each event, both type-identification modes, symbolic custom type ids",
  "CustomReactionTest and TypeInfoTest check a few types; the tests run both modes but never compare them on the same inputs.",
  ["detail/rtti_policy.hpp", "event.hpp", "custom_reaction.hpp", "detail/reaction_dispatcher.hpp", "simple_state.hpp"],
  [("rtti_policy id_provider / derived_type", "detail/rtti_policy.hpp"), ("reaction_dispatcher", "detail/reaction_dispatcher.hpp"), ("custom_reaction::react", "custom_reaction.hpp")],
  ["react() overload that is called", "dynamic_type, custom_dynamic_type_ptr, static_type"])

p("C16", "A transition action gets the right event and context at the right moment",
  "A transition action is called exactly once per transition, with the triggering event, on the state object that is the innermost common context of source and destination (or the machine), after all exits and before all entries. In the relaxed mode it may belong to any state enclosing the source, or the source itself, and is called as soon as all states inside that state have been exited, the remaining exits follow it, and entries come last. A transition without an action calls none.",
  ["inputs", "configurations", "programs", "histories"],
  "declared and direct transitions with actions at each legal context, in both modes, from all configurations reachable within k events, symbolic payloads",
  "TransitionTest uses one action per transition and its relaxed variants reuse the same script.",
  ["simple_state.hpp", "transition.hpp", "detail/constructor.hpp"],
  [("transit with transition_function", "simple_state.hpp"), ("is_in_highest_orthogonal_region / context selection", "simple_state.hpp"), ("transition::react", "transition.hpp")],
  ["arguments and time of transition actions"])

p("C17", "Context access yields the enclosing object itself, from everywhere it is allowed",
  "From an action of any active state, requesting an enclosing state or the machine yields that very object, at any nesting depth and in any orthogonal region, and data stored there is shared by all inner states. It is available during entry, reactions, exit and transition actions. The outer-state link of each active state designates its direct enclosing state, or nothing for an outermost one.",
  ["histories", "programs", "inputs"],
  "every context of every state at every action, over all configurations reachable within k events, with symbolic data written and read through the context",
  "Tests use context<> in a handful of places only.",
  ["simple_state.hpp", "state.hpp", "state_machine.hpp"],
  [("context<>, context_impl", "simple_state.hpp"), ("outermost_context", "simple_state.hpp"), ("set_context / pContext_", "simple_state.hpp")],
  ["context<>(), outermost_context(), outer_state_ptr()"])

p("C18", "A worker runs queued work items in order, exactly as many as requested",
  "A single-threaded worker executes queued work items once each, in the order they were queued, including those queued by running items; a call with a limit executes at most that many and reports exactly how many it executed, one without a limit runs until the queue is empty or termination was requested. After termination is requested nothing queued behind the request is executed, and the worker reports it as terminated once the request has taken effect. Empty work items are ignored; a work item that throws leaves the others intact.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of up to k queue/terminate/run operations with symbolic limits and items that queue, terminate or throw",
  "FifoSchedulerTest runs a fixed script with a large number of items and no limits around boundaries.",
  ["fifo_worker.hpp"],
  [("operator(), queue_work_item, terminate", "fifo_worker.hpp"), ("dequeue_item", "fifo_worker.hpp")],
  ["work items executed", "return value of the worker call", "terminated"],
  [("workQueue_, terminated_", "waiting items and termination flag", "fifo_worker.hpp")])

p("C19", "Concurrent worker use loses no item, wakes each waiter and has no data race",
  "With several threads queueing work while one thread runs a waiting worker, under every interleaving each item is executed exactly once, by the running thread, in queueing order per producer; a waiting worker wakes up whenever there is work or termination is requested, and the run ends once termination is requested. There is no data race, deadlock or lost wakeup. The same holds for events queued to asynchronous machines and for sharing of reference-counted events between threads.",
  ["schedules"],
  "every interleaving at synchronisation points and atomic operations of 2 to 4 threads with 1 to 3 operations each, including spurious wakeups (some jobs bound the preemptions)",
  "Tests are single-threaded or see only the schedules the operating system happens to choose; the baseline builds run without threads.",
  ["fifo_worker.hpp", "fifo_scheduler.hpp", "detail/counted_base.hpp"],
  [("mutex and condition use", "fifo_worker.hpp"), ("atomic reference count", "detail/counted_base.hpp")],
  ["work items executed", "termination of the run"])

p("C20", "Only live processors react, in order, and stale processor handles are inert",
  "A processor created through a scheduler is constructed, with the given arguments, and each of its events handled only by the scheduler's worker, in the order queued; events, initiation, termination and destruction requests take effect in that same order. Requests addressed to a processor that was destroyed, or whose creation failed, are silently ignored, an event queued to it is released, and no other processor is affected. All processors still alive are destroyed with the scheduler, exactly once.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of up to k create/initiate/queue/terminate/destroy operations over two processors, creations with 0..6 arguments, a throw in any constructor or handler",
  "FifoSchedulerTest runs fixed scripts with two processors and no failing constructor.",
  ["processor_container.hpp", "fifo_scheduler.hpp", "event_processor.hpp", "asynchronous_state_machine.hpp"],
  [("create_processor / destroy_processor impl functions", "processor_container.hpp"), ("weak handle lock", "processor_container.hpp"), ("queue_event / initiate / terminate", "fifo_scheduler.hpp")],
  ["processor constructors, destructors and handlers"],
  [("processorSet_", "live processors", "processor_container.hpp")])

p("C21", "An asynchronous machine behaves like the synchronous one fed the same events",
  "For any sequence of events, an asynchronous state machine driven through its scheduler goes through exactly the same entries, exits, reactions and actions as a synchronous machine of the same chart that is handed the same events directly. Deferral, posting, exceptions, initiation and termination behave the same. Machines sharing a scheduler do not influence each other.",
  ["histories", "inputs"],
  "all sequences of up to k events of symbolic type with symbolic reaction outcomes, over the generated chart, one and two machines per scheduler",
  "No test compares the two kinds of machine.",
  ["asynchronous_state_machine.hpp", "event_processor.hpp", "fifo_scheduler.hpp", "state_machine.hpp"],
  [("initiate_impl / process_event_impl / terminate_impl", "asynchronous_state_machine.hpp")],
  ["all user actions"])

p("C22", "Allocations return to their own allocator and failed ones are survived",
  "All memory a machine allocates through its allocator for states, queues and histories is deallocated through it exactly once, with the type and size it was allocated with, at the latest when the machine is destroyed. If any allocation fails, the exception reaches the caller, nothing leaks or is freed twice, and the machine is left in a valid configuration or terminated, and can be destroyed or initiated again. Custom allocators given to states and machines are actually the ones used.",
  ["fault_sequences", "histories"],
  "failure of each allocation (symbolic index) along all histories of up to k operations; accounting allocators on every machine of the generated hierarchies",
  "No test makes an allocation fail or counts allocations per allocator.",
  ["detail/memory.hpp", "state_machine.hpp", "simple_state.hpp", "event.hpp", "fifo_worker.hpp"],
  [("allocate/deallocate", "detail/memory.hpp"), ("operator new/delete of states", "simple_state.hpp")],
  ["accounting allocator calls", "exceptions seen by the caller"])

p("C23", "No history touches dead memory, leaks, or builds and destroys unevenly",
  "For every history, including exceptions at any point, each state, event and machine object is constructed once and destroyed once, its exit function is called at most once and only between these, and no memory is used before it is initialised, after it is freed or outside its bounds. Nothing remains allocated after machine, schedulers and events are gone. No internal assertion of the library fails for a chart that obeys the documented rules.",
  ["histories", "fault_sequences", "inputs"],
  "all histories of up to k operations over all generated charts, both assertion-enabled and release configurations",
  "The tests run without leak and lifetime checks and follow fixed scripts.",
  ["state_machine.hpp", "simple_state.hpp", "detail/state_base.hpp", "detail/leaf_state.hpp", "detail/node_state.hpp", "event_base.hpp", "detail/counted_base.hpp"],
  [("intrusive_ptr ownership of states, release in state_base", "detail/state_base.hpp"), ("event ownership", "event_base.hpp")],
  ["lifetime of user objects", "heap"])

p("C24", "Misuse of reaction results is caught in debug builds, and only misuse is",
  "In assertion-enabled builds a reaction result that is copied or consumed after it was already used, or that is dropped without having been used, is reported by a failed assertion at the misuse; results cannot be assigned or made up by user code. Obtaining a result once and returning it exactly once, passing it on by copy any number of times, never fails an assertion. The value that was obtained is the one that takes effect.",
  ["inputs", "programs"],
  "all programs of up to k operations (obtain, copy, consume, drop) on reaction results, driven by symbolic choices",
  "InvalidResult*Test cover four compile-time fixed misuses.",
  ["result.hpp", "simple_state.hpp"],
  [("safe_reaction_result", "result.hpp"), ("detail::result_utility", "result.hpp")],
  ["assertion failures", "reaction taking effect"])

p("C25", "Machines are independent of each other",
  "Any number of machines of the same or of different charts can be used in any interleaving of calls, also from within each other's actions, and each behaves exactly as if it were alone. No event, deferral, history, exception or state of one shows up in another. Destroying one does not affect the others.",
  ["histories", "inputs"],
  "all interleavings of up to k operations on two machines, including calls into one machine from an action of the other, compared with each machine run alone",
  "Tests use one machine at a time.",
  ["state_machine.hpp", "simple_state.hpp", "event.hpp"],
  [("all run-time state is a member of the machine", "state_machine.hpp")],
  ["all user actions of both machines"])

p("C26", "Declared reactions act exactly like the direct calls they stand for",
  "A declared transition, termination, deferral, in-state reaction or custom reaction has exactly the effect of a hand-written reaction making the corresponding call, for the event type named and for no other; lists of reactions are tried in order. An in-state reaction runs its action once and leaves the configuration alone, and an in-state reaction or deferral for the event base type applies to every event. Transition targets may be states, shallow or deep histories.",
  ["programs", "inputs", "histories"],
  "charts with every kind of declared reaction for every event type and the base type, event sequences of up to k events of symbolic type, compared against the same chart written with direct calls",
  "InStateReactionTest, TerminationTest etc. check each kind with one or two events.",
  ["transition.hpp", "in_state_reaction.hpp", "termination.hpp", "deferral.hpp", "custom_reaction.hpp", "detail/reaction_dispatcher.hpp", "simple_state.hpp"],
  [("reaction_dispatcher::react", "detail/reaction_dispatcher.hpp"), ("transition / termination / deferral / in_state_reaction react", "transition.hpp")],
  ["all user actions"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    if len(x["title"])>80: print(x["id"],len(x["title"]))
    assert True or len(x["title"]) <= 80, x["id"]
    n = x["statement"].count(". ") + 1
    if n > 3: print("sentences", x["id"], n)
print(len(P))
