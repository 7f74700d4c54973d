"""Writes /verif/properties.jsonl (kept here so that statements are easy to edit)."""
import json, pathlib

P = []


def add(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })


S = "src/psygnal/"
add("C01", "Every emission calls each connected callback exactly once, in order",
    "Each emission (by emit(), by calling the signal, or by emit_fast()) of a signal that is neither blocked nor paused calls every connected callback exactly once with the emitted arguments, in descending priority and, among equal priorities, in the order they were connected. "
    "This also holds while callbacks connect or disconnect callbacks during the emission: a callback disconnected before its turn is not called, and every other callback that was connected when the emission began is still called exactly once. "
    "When emit() returns, all of these calls have completed.",
    ["histories", "inputs"], "all sequences of connect (any priority) / disconnect / emit, including those performed by callbacks in the middle of an emission, for every kind of callable (functions, lambdas, bound methods, partials, builtins, callable objects)",
    "Tests connect two or three callbacks with fixed priorities and emit; ordering and completeness must hold for every history of connections and for every mutation made by a callback mid-emission.",
    [S + "_signal.py", S + "_weak_callback.py"],
    [("sorted insertion of slots", S + "_signal.py SignalInstance._append_slot"), ("emit loops over the slots", S + "_signal.py SignalInstance._run_emit_loop_*, emit_fast, _iter_slots"), ("per-kind callback wrappers", S + "_weak_callback.py weak_callback")],
    ["log of (callback, args) calls", "len(signal)"],
    [("slot list", "ordered connected callbacks", S + "_signal.py SignalInstance._slots")])
add("C02", "Connections behave as an ordered multiset of callbacks",
    "After any sequence of connect, connect_setattr/connect_setitem, disconnect and disconnect_setattr/setitem calls, `len(signal)`, `callback in signal` and the callbacks invoked by an emission agree with an ordered multiset of callbacks: connect adds one entry and returns the callback it was given, disconnect(cb) removes exactly one entry for that callback (if there are several, the one that is called first), disconnect() removes all of them. "
    "With unique=True an already connected callback (equal function, or same method of the same object, however it was connected) is not added again; with unique='raise' a ValueError is raised; disconnecting something that is not connected is ignored, or raises ValueError with missing_ok=False. "
    "An operation that raises leaves the connections unchanged.",
    ["histories", "inputs"], "all sequences of connection operations over all kinds of callbacks and owners, with any options",
    "Tests check one connect/disconnect at a time; the bookkeeping must agree with a model after every history and for every mix of callback kinds that may be confused with each other.",
    [S + "_signal.py", S + "_weak_callback.py", S + "_queue.py"],
    [("callback identity key", S + "_weak_callback.py WeakCallback.object_key/__eq__"), ("lookup/removal", S + "_signal.py SignalInstance._slot_index, disconnect, _try_discard")],
    ["len(signal)", "in", "return values and exceptions", "log of calls"])
add("C03", "Callback arity and types are validated; extra arguments are dropped",
    "connect() accepts a callback if and only if it requires no more positional arguments than the signal's signature provides and has no required keyword-only argument (otherwise it raises ValueError), and each emission then passes to it exactly the leading arguments that it can accept (all of them for *args, and at most `max_args` if that was given). "
    "With check_types=True (at connection, or for the signal) callbacks whose annotated parameter types are incompatible with the signal's types are rejected with ValueError. The same holds for callbacks connected to a SignalGroup (which provides one EmissionInfo) and, with `connect_direct`, to all of its members at once. With check_nargs=True / check_types=True, emit() raises TypeError for arguments that don't match the signature before any callback has been called.",
    ["inputs", "programs"], "all callback signatures (positional-only, defaults, *args, keyword-only, **kwargs; functions, methods, partials, classes, callable objects) x all signal signatures x all emitted arguments",
    "Tests enumerate about a dozen callback shapes against one or two signatures; the rule quantifies over all callable signatures and argument counts.",
    [S + "_signal.py", S + "_group.py"],
    [("positional argument range", S + "_signal.py _acceptable_posarg_range, SignalInstance._check_nargs"), ("type check", S + "_signal.py _parameter_types_match, _is_subclass"), ("argument truncation", S + "_weak_callback.py *.cb")],
    ["exceptions from connect/emit", "arguments received by callbacks"])
add("C04", "Re-emission strategies: immediate, queued, latest-only",
    "When callbacks emit the signal that is being emitted, 'immediate' runs each nested emission to completion inside the callback that made it, before the remaining callbacks of the outer emission are called; 'queued' lets the current emission finish and then processes nested emissions one after another in the order in which they were emitted, each calling all callbacks; 'latest-only' runs the nested emission at once, after which the remaining callbacks of all emissions it supersedes are skipped. "
    "No emission is lost, duplicated or reordered beyond that, and once the outermost emit() returns, the signal behaves as if freshly created (with its connections).",
    ["programs", "histories"], "all callback programs that re-emit (any depth, any branching, any number of callbacks and top-level emissions)",
    "Tests fix one re-emission pattern per strategy; the ordering rules quantify over all trees of nested emissions.",
    [S + "_signal.py"],
    [("emit queue and recursion depth", S + "_signal.py SignalInstance._run_emit_loop, _run_emit_loop_immediate/_queued/_latest_only")],
    ["global log of (callback, value) calls"],
    [("emit queue", "pending arguments", S + "_signal.py SignalInstance._emit_queue"), ("recursion depth", "nesting of emissions, deepest one", S + "_signal.py SignalInstance._recursion_depth, _max_recursion_depth")])
add("C05", "Callback exceptions surface as EmitLoopError and leave the signal usable",
    "If a callback raises an Exception, the emission stops there (later callbacks of that emission are not called) and emit() raises EmitLoopError whose __cause__ is the original exception object, also through nested emissions of the same or of other signals. "
    "Afterwards the signal, its connections, and Signal.current_emitter() are as if the emission had not taken place: subsequent emissions call all callbacks and no argument of the failed emission is delivered again.",
    ["fault_sequences", "histories"], "all placements of exceptions among callbacks, nesting depths, re-emission strategies and sequences of emissions",
    "Tests raise from one callback at a time; the recovery must hold for each position, depth, strategy and follow-up history.",
    [S + "_signal.py", S + "_exceptions.py", S + "_group.py"],
    [("wrapping and cleanup", S + "_signal.py SignalInstance._run_emit_loop try/except/finally"), ("exception type", S + "_exceptions.py EmitLoopError")],
    ["exceptions raised by emit()", "log of calls after the failure"])
add("C06", "Signal.sender()/current_emitter() name the innermost running emission",
    "Inside a callback, Signal.current_emitter() is the signal whose emission is running that callback and Signal.sender() is the object that signal belongs to; after a nested emission returns or raises, both again name the enclosing emission, and outside of any emission both are None. "
    "This holds independently in every thread, whatever is being emitted in other threads.",
    ["histories", "schedules", "fault_sequences"], "all nestings of emissions of any signals, with exceptions, in any number of threads and for all interleavings",
    "Tests look at the sender in a few fixed callbacks, in one thread; nesting, exceptions and concurrent emissions are unbounded.",
    [S + "_signal.py", S + "_group.py"],
    [("current emitter bookkeeping", S + "_signal.py Signal._emitting, current_emitter, sender")],
    ["value of Signal.current_emitter()/sender() at every callback entry and exit"])
add("C07", "Blocked signals deliver nothing, and blocking is undone exactly",
    "While a signal is blocked (block(), a blocked() context, or block()/blocked() of its group unless excluded by name or instance) its emissions call no callbacks and are never delivered later; once unblocked, emissions are delivered again. "
    "Leaving a blocked() context, normally or by an exception and at any nesting depth of contexts of signals and groups, restores for each signal and group the blocked state it had on entry (unless block() or unblock() was called explicitly in between).",
    ["histories", "fault_sequences"], "all properly nested combinations of blocked() contexts of signals and groups (with any exclusions), explicit block/unblock, exceptions and emissions",
    "Tests cover single-level blocking; restoration must hold for every nesting and exclusion set.",
    [S + "_signal.py", S + "_group.py"],
    [("block state", S + "_signal.py SignalInstance.block/unblock/_SignalBlocker"), ("group block state", S + "_group.py SignalRelay.block/unblock/blocked")],
    ["log of calls after each step"])
add("C08", "Paused emissions are delivered exactly once on resume, in order, or reduced",
    "While a signal (or the relay of a signal group) is paused, its emissions call no callbacks; on resume they are delivered exactly once each, in the order in which they were emitted, or - if a reducer is given - as one single emission of the arguments that reducing all collected arguments (a two-argument function, with the initial value if given, or a one-argument function of the whole list) yields. "
    "Nested paused() contexts resume only when the outermost one exits, also by an exception; emissions made by callbacks during resume, and callbacks that raise or pause again during resume, neither lose nor duplicate any other collected emission.",
    ["histories", "fault_sequences"], "all interleavings of pause/paused/emit/resume with any nesting, reducers, callbacks that emit, pause or raise while resuming",
    "Tests pause once, emit a few times and resume; conservation must hold for every history, including errors and re-entrancy while the queue is flushed.",
    [S + "_signal.py", S + "_group.py"],
    [("queue of arguments while paused", S + "_signal.py SignalInstance.pause/resume/_SignalPauser"), ("group relay queue", S + "_group.py SignalRelay._slot_relay")],
    ["log of delivered arguments vs. emitted arguments"])
add("C09", "Signals hold method owners weakly; dead callbacks vanish silently",
    "Connecting a bound method, a partial of one, a callable object, or an attribute/item setter never keeps the (weakly referenceable) owner alive, and a signal never keeps the object it belongs to alive; plain functions and lambdas are kept alive while connected, and emitted arguments are not kept alive once the emission is over. "
    "Once an owner is gone - at any time, including during an emission - its callbacks are no longer counted or called, no exception is raised, and all the other callbacks are called as before, in the same order. "
    "An owner that cannot be weakly referenced is held strongly (silently with on_ref_error='ignore', with a warning with 'warn'), or its connection is rejected with on_ref_error='raise'.",
    ["histories", "schedules"], "all connection histories over owners with weak references; owners die at any point (between emissions, inside any callback, from other callbacks' cleanup)",
    "Tests delete one owner between two emissions; death may happen at any point of any history, including inside the emit loop.",
    [S + "_weak_callback.py", S + "_signal.py"],
    [("weak references and finalizers", S + "_weak_callback.py WeakCallback._try_ref, _kill_and_finalize"), ("discard on death", S + "_signal.py SignalInstance._try_discard"), ("weak reference to the emitting object", S + "_signal.py SignalInstance._instance_ref")],
    ["weakref of owner after del + gc", "len(signal)", "log of calls", "sys.unraisablehook"])
add("C10", "Callbacks connected to a thread run in that thread, once and in order",
    "A callback connected with thread=T is never run in another thread unless that thread calls emit_queued(T): emissions made in T call it immediately, all other emissions queue it, and calling emit_queued() in T (or a running psygnal.qt timer in T) calls it exactly once per emission, with the arguments emitted, in the order in which each emitting thread emitted them (and, within one emission, by priority). "
    "A queued callback that raises makes emit_queued raise EmitLoopError and only that call is consumed; callbacks whose owner died meanwhile are skipped; no emission is lost or duplicated however many threads emit and drain at the same time.",
    ["schedules", "histories", "fault_sequences"], "all interleavings of any number of emitting threads with the draining thread(s), including the first emission to a thread and a drain at the same time",
    "Tests run one emitter thread and one drain; conservation and order must hold for every schedule.",
    [S + "_queue.py", S + "_signal.py", S + "qt.py"],
    [("per-thread queues", S + "_queue.py QueuedCallback.cb, emit_queued, _thread_queue"), ("Qt timer", S + "qt.py start_emitting_from_queue")],
    ["thread ident, args and order of each call"],
    [("queues", "pending calls per thread", S + "_queue.py QueuedCallback._GLOBAL_QUEUE")])
add("C11", "Concurrent emit/connect/disconnect are safe and lose nothing",
    "Threads may emit(), connect() and disconnect() on the same signal at the same time: no call raises an unexpected exception or deadlocks, emissions of one signal never overlap (the callbacks of one emission all run before those of another thread's emission), and every emission calls each callback that was connected during the whole of the call exactly once, with its own arguments, in priority order. "
    "Afterwards the connections are those that some sequential order of the connect and disconnect calls produces; in particular, connect(unique=True) of one callback from many threads connects it once.",
    ["schedules"], "all interleavings of any number of threads emitting, connecting and disconnecting on shared signals",
    "The tests run a handful of threads without control over the schedule; the guarantee is about every preemption point.",
    [S + "_signal.py"],
    [("per-signal re-entrant lock", S + "_signal.py SignalInstance._lock in connect, disconnect, _run_emit_loop")],
    ["per-thread event log of calls with thread id, exceptions, len(signal) at quiescence"])
add("C12", "Each object has its own signal instances, created once",
    "For a class that declares Signals, every access of a signal on the same object returns the same SignalInstance, bound to that object and carrying the declared name, signature and options, while different objects - also of subclasses, of slotted classes and of objects created after others were destroyed - never share instances: connecting to or emitting on one object never calls callbacks connected to another. "
    "A signal inherited by a subclass, or overridden in it, behaves as declared in the most derived class.",
    ["programs", "histories"], "all class shapes (plain, slotted with or without __weakref__, unhashable, inherited, overridden, named signals) and all histories of object creation, access, connection, emission and destruction",
    "Tests use two objects of one class; aliasing bugs depend on the class shape and on object id reuse after destruction.",
    [S + "_signal.py"],
    [("descriptor and cache", S + "_signal.py Signal.__get__, __set_name__, _cache_signal_instance")],
    ["identity of obj.signal", "log of calls", "SignalInstance attributes"])
add("C13", "A signal group relays every member emission to its listeners once",
    "A callback connected to a SignalGroup (group.connect / group.all.connect) receives, for every emission of any member signal and only for those, exactly one EmissionInfo naming that member signal and carrying exactly the emitted arguments, in emission order, while the member's own callbacks are still called as without the group. "
    "connect_direct connects a callback to each member; group.disconnect(cb) removes the callback from the group and from the members, after which it is not called anymore; iteration, len, `in` and lookup by name list exactly the declared (and inherited) signals, and strict groups reject members with different signatures.",
    ["histories", "programs"], "all group classes (inheritance, name conflicts, uniform or not, with instance) and all histories of connecting to the group and its members, disconnecting and emitting",
    "Tests connect one callback to one group with two signals; relay connections are created and removed lazily, so correctness depends on the whole history.",
    [S + "_group.py"],
    [("lazy relay connection", S + "_group.py SignalRelay._append_slot/_remove_slot/_slot_relay"), ("collection of signals", S + "_group.py SignalGroup.__init_subclass__")],
    ["log of EmissionInfo objects vs. emissions made"])
add("C14", "connect_setattr/connect_setitem keep the target equal to the last emission",
    "After connect_setattr(obj, name, maxargs) or connect_setitem(obj, key, maxargs), each emission sets that attribute or item - of that object only - to the emitted value: the single argument, or the tuple of the first `maxargs` arguments when there are several (equivalently for partial(setattr, obj, name) and partial(obj.__setitem__, key) passed to connect). "
    "disconnect_setattr / disconnect_setitem stop it for that object and name only; targets that lack the attribute, or cannot hold items, are rejected with AttributeError / TypeError.",
    ["inputs", "histories"], "all targets, attribute names/keys, argument counts, maxargs and histories of (dis)connecting and emitting",
    "Tests set one attribute of one object; confusion between similar targets and argument counts shows only in mixed histories.",
    [S + "_signal.py", S + "_weak_callback.py"],
    [("setter callbacks", S + "_weak_callback.py WeakSetattr, WeakSetitem"), ("connection", S + "_signal.py connect_setattr, disconnect_setattr, connect_setitem, disconnect_setitem")],
    ["state of all targets after each emission"])
add("C15", "Evented dataclasses emit (new, old) exactly when a field value changes",
    "For any class made evented (the @evented decorator or a SignalGroupDescriptor on a dataclass, attrs class, msgspec Struct or pydantic model), assigning a field with a connected listener stores the value as the undecorated class would and emits the field's signal exactly once with (stored value, previous value) if they differ under the field's equality operator, and not at all otherwise (two values that the operator cannot compare are compared as arrays if one of them is an array, else by identity, without effect on later comparisons); other fields' and other objects' signals stay silent. "
    "Signal names follow the aliases (None removes the signal); group listeners get the same emission; assigning anything else, deleting attributes, and errors raised by the class behave as without psygnal and emit nothing; frozen classes stay frozen. "
    "is_evented and get_evented_namespace report this for the class and its instances, and subclasses are evented with their own fields.",
    ["programs", "histories", "inputs"], "all evented class definitions (4 kinds, slots, inheritance, aliases, equality operators, field types incl. numpy arrays) and all assignment histories",
    "Tests assign one or two fields per class kind; the emission condition quantifies over values, comparison behaviours, inheritance and histories.",
    [S + "_group_descriptor.py", S + "_evented_decorator.py", S + "_dataclass_utils.py"],
    [("patched __setattr__", S + "_group_descriptor.py evented_setattr, _changes_emitted"), ("comparison", S + "_group_descriptor.py _check_field_equality, _pick_equality_operator"), ("group construction", S + "_group_descriptor.py _build_dataclass_signal_group, SignalGroupDescriptor"), ("field discovery", S + "_dataclass_utils.py iter_fields")],
    ["log of emissions", "field values vs. plain twin class"])
add("C16", "EventedModel field events mirror value changes",
    "Assigning a field of an EventedModel validates and stores the value as the plain pydantic model would; if the stored value differs from the previous one (under the field's equality operator, as for C15), the field's event is emitted exactly once with the stored value, otherwise nothing is emitted. "
    "If validation fails the error propagates, the model is unchanged and nothing is emitted; private attributes, frozen fields and events of other fields or instances never emit.",
    ["programs", "inputs", "histories"], "all model definitions (field types, validators, defaults, inheritance, nested models, arrays) and all histories of valid and invalid assignments",
    "Tests assign a few values on a few fixed models.",
    [S + "_evented_model.py", S + "_group_descriptor.py"],
    [("__setattr__", S + "_evented_model.py EventedModel.__setattr__, _setattr_default, _setattr_impl"), ("class construction", S + "_evented_model.py EventedMetaclass.__new__")],
    ["log of events", "model values vs. plain pydantic twin"])
add("C17", "EventedModel dependents, setters, update and reset emit each change once",
    "When a field assignment changes the value of properties (or fields) that were declared (field_dependencies) or guessed (guess_property_dependencies) to depend on that field, each such property with listeners emits its new value exactly once, and one whose value did not change emits nothing. "
    "In a model with such dependencies, assigning through a property setter emits exactly once, after the setter has finished, for every field and every such property whose value it changed, with the final value; errors raised by a setter, getter or validator propagate and cause no wrong, missing or repeated events in later assignments. "
    "update() sets all given values (also of nested models, unless recurse=False), emits one event for each changed field, and calls listeners of the whole group only after all values are set; reset() restores all defaults and emits one event for each field that changes.",
    ["programs", "histories"], "all models with (chains of) dependent properties and setters, all histories of assignments, update() and reset() calls and sets of listeners",
    "Tests have a few fixed models; the rules quantify over dependency graphs, which listeners are connected and update histories.",
    [S + "_evented_model.py"],
    [("change tracking", S + "_evented_model.py EventedModel._check_if_values_changed_and_emit_if_needed, _setattr_with_dependents_impl"), ("dependents", S + "_evented_model.py _get_field_dependents"), ("batch", S + "_evented_model.py ComparisonDelayer, update, reset")],
    ["log of events", "values at the time of each event"])
add("C18", "EventedList behaves like list and its events mirror every change",
    "Every EventedList operation returns, stores and raises what the same operation on a built-in list does; move(src, dest) and move_multiple(sources, dest) put the sources, in the given order, before the item that was at dest. "
    "A listener that applies the inserted, removed, moved and changed events (index or slice, and values) to its own copy, in order, has a copy with the same items as the list whenever an operation returns (reverse() without individual events emits reordered instead). "
    "Each item that is inserted, removed, moved or replaced is reported exactly once, with its value; an operation that fails leaves the list unchanged and reports no such event.",
    ["histories", "inputs"], "all sequences of list operations (index, slice, extended slice, negative and out-of-range indices, insert/append/extend/pop/remove/clear/reverse/move/move_multiple/iadd/...) on all contents",
    "Tests check single operations on a 5-element list; the mirror property quantifies over operation histories and index arithmetic.",
    [S + "containers/_evented_list.py"],
    [("MutableSequence primitives with events", S + "containers/_evented_list.py EventedList.__setitem__, __delitem__, insert, move, move_multiple, reverse")],
    ["return values, exceptions, list(contents) vs. plain list", "mirror fed by events only"])
add("C19", "child_event reports each event of each current item, with its index",
    "For an EventedList created with child_events=True, whenever a signal of an object that is currently an item emits, the list's child_event is emitted exactly once with the item's current index, the item, the emitting signal and the arguments. "
    "Objects that are not, or no longer, items (after removal, replacement or clearing, by any operation) cause none, and moving or reordering items keeps reporting their current indices. A list created without child_events reports none.",
    ["histories"], "all histories of list operations on evented items (also items that compare equal) interleaved with events of current and former items",
    "Tests insert one item and emit once; connection bookkeeping must survive every way of adding, replacing, moving and removing items.",
    [S + "containers/_evented_list.py"],
    [("connecting children", S + "containers/_evented_list.py _connect_child_emitters, _disconnect_child_emitters, _reemit_child_event")],
    ["log of child_event vs. emissions made"])
add("C20", "EventedDict behaves like dict and its events mirror every change",
    "Every EventedDict operation (the MutableMapping interface and copy) returns, stores and raises what the same operation on a built-in dict does; values that violate the basetype raise TypeError and change nothing. "
    "Setting a new key emits adding(key) and added(key, value); setting an existing key emits changing(key) and changed(key, old, new) if the value is a different object; deleting emits removing(key) and removed(key, value); a listener that applies added/changed/removed to its own copy always has an equal copy when an operation returns.",
    ["histories", "inputs"], "all sequences of mapping operations (setitem, delitem, pop, popitem, update, setdefault, clear, copy, ...) over all keys and values, listeners included",
    "Tests check single operations; the mirror must hold after every history.",
    [S + "containers/_evented_dict.py"],
    [("MutableMapping primitives with events", S + "containers/_evented_dict.py EventedDict.__setitem__, __delitem__")],
    ["return values and state vs. dict", "mirror fed by events only"])
add("C21", "EventedSet/OrderedEventedSet behave like set; items_changed is the exact diff",
    "Every EventedSet operation leaves, returns and raises what the same operation on a built-in set does (OrderedEventedSet also keeps insertion order), for arbitrary iterables as arguments. "
    "Each mutating method call that changes the set emits items_changed exactly once with (the items that were added, the items that were removed) - two disjoint tuples without duplicates that describe exactly the change - and calls that change nothing emit nothing. "
    "The events of in-place operators together also describe exactly the change.",
    ["histories", "inputs"], "all sequences of set operations (methods and operators, in-place and not, any number and kind of iterables, the set itself, duplicates) on all contents",
    "Tests check each operation on one fixed set; the diff must be exact for all overlaps and argument kinds.",
    [S + "containers/_evented_set.py"],
    [("bulk operations", S + "containers/_evented_set.py _BaseMutableSet, EventedSet._emit_change, _prep_event")],
    ["state and return values vs. set", "items_changed arguments vs. observed diff"])
add("C22", "Selection stays consistent with its list and reports its changes",
    "Selecting an item that is not in the parent container raises ValueError and changes nothing; whenever an operation returns, `active` is the selected item if exactly one item is selected and None otherwise, the last `active` event has reported that value, and items_changed events describe exactly how the selection changed. "
    "In a SelectableEventedList, items that are no longer in the list are not selected, newly inserted items become active, and select_all, deselect_all and remove_selected select, deselect and remove exactly those items (after the only selected item has been removed that way, the item before it is selected, or else the first). "
    "select_next / select_previous make the item `step` places from the current one active (or add it to the selection), wrapping around or stopping at the ends of the list as requested, for every list and selection.",
    ["histories", "inputs"], "all histories of list mutations and selection operations on lists of any content",
    "Tests exercise each method once on a small list; the invariants must hold after every history.",
    [S + "containers/_selection.py", S + "containers/_selectable_evented_list.py"],
    [("selection updates", S + "containers/_selection.py Selection._update_active, active, toggle, select_only"), ("list integration", S + "containers/_selectable_evented_list.py SelectableEventedList")],
    ["selection, active, current and list after each operation", "log of events"])
add("C23", "Evented object proxies behave like the wrapped object and emit its changes",
    "An EventedObjectProxy (or EventedCallableProxy) is transparent: attribute and item access, comparison, arithmetic, iteration, calls, containment and truth value give what the wrapped object gives, and mutations through the proxy take effect on the wrapped object. "
    "Setting an attribute or item to a different object emits attribute_set(name, value) / item_set(key, value) exactly once, setting it to the same object emits nothing, deleting emits attribute_deleted(name) / item_deleted(key), in-place operators emit in_place(operator name, operand), and calling a callable proxy emits called(args, kwargs), each exactly once. "
    "Failing attribute and item operations raise what the wrapped object raises and emit nothing; the events of different proxies are independent.",
    ["histories", "inputs"], "all histories of attribute, item, deletion, in-place and read operations on proxied objects of any type",
    "Tests do one operation of each kind on two objects.",
    [S + "containers/_evented_proxy.py"],
    [("wrapt proxy with events", S + "containers/_evented_proxy.py EventedObjectProxy, EventedCallableProxy, EventedProxyEvents")],
    ["return values/exceptions/state vs. twin object", "log of events"])
add("C24", "throttled/debounced functions respect the interval and lose no last call",
    "A throttled function runs the wrapped function at most once per interval, immediately on the first call when leading (after the interval when trailing); a debounced function runs it only when no call was made for the interval (leading: also immediately on the first call). "
    "Whatever the timing, threads and exceptions, after the calls stop the wrapped function runs, within one interval of the last run or call, with the arguments of the last call if that call has not been executed yet; it never runs with arguments that were not passed, more often than it was called, or twice for one call. "
    "flush() runs a pending call now and exactly once; cancel() drops it, and the next call is treated as the first one.",
    ["schedules", "histories", "inputs"], "all timings and interleavings of calls, timer expirations, flush and cancel, from any number of threads, with wrapped functions that raise, block or call back",
    "Tests sleep through a few real-time scenarios; the guarantee concerns every interleaving of calls with timer expirations, which real time hits only by chance.",
    [S + "_throttler.py"],
    [("timer and pending flag", S + "_throttler.py Throttler, Debouncer, _ThrottlerBase")],
    ["virtual-clock log of calls made and wrapped calls executed"])
add("C25", "Copying and pickling signals keeps what should be kept",
    "A pickled-and-restored (or copied, with copy.copy or copy.deepcopy) SignalInstance has the same name, signature, description, options and blocked/paused state with its pending arguments, keeps connected plain functions with their priorities, order and argument limits, drops weakly referenced callbacks, and works independently of the original: connecting to or emitting one never affects the other. "
    "Deep-copying an object with a signal group gives the copy a fresh, unconnected group bound to the copy.",
    ["histories", "configurations"], "all signal configurations and connection histories at the time of copying and all histories afterwards",
    "Tests pickle one signal with one or two slots and look at a single attribute.",
    [S + "_signal.py", S + "_weak_callback.py", S + "_group.py"],
    [("state", S + "_signal.py SignalInstance.__getstate__/__setstate__"), ("function callbacks", S + "_weak_callback.py StrongFunction.__getstate__/__setstate__"), ("groups", S + "_group.py SignalGroup.__deepcopy__")],
    ["attributes and call logs of original and copy"])
add("C26", "monitor_events and iter_signal_instances see all signals and leave no trace",
    "Within `with monitor_events(obj, logger)` the logger is called exactly once, in order, for every emission of every public signal of obj (for a signal group: of each member), with an EmissionInfo naming the signal and its arguments; monitor_events() without object reports every emit() of every signal that is not blocked or paused. "
    "After the context exits, normally or by an exception, the logger is never called again, and all connections, existing callbacks and enclosing monitors are as before. "
    "iter_signal_instances yields each SignalInstance attribute of the object once (private ones only on request).",
    ["programs", "histories"], "all objects with any signals, groups and private attributes, nested monitors and histories of emissions, also with failing callbacks",
    "Tests monitor one object with one emission.",
    [S + "utils.py", S + "_signal.py"],
    [("monitoring", S + "utils.py monitor_events, iter_signal_instances"), ("debug hook", S + "_signal.py SignalInstance._debug_hook")],
    ["log of logger calls", "len(signal) before and after"])
add("C27", "Unbounded re-emission ends in RecursionError and the signal stays usable",
    "If callbacks re-emit signals without end - one signal or a cycle of signals, with any re-emission strategy, and through emit_fast - the outermost emit raises RecursionError (not a hang, a crash or another error) after finitely many calls. "
    "Afterwards Signal.current_emitter() is None, and every signal involved delivers subsequent emissions completely, once and in order.",
    ["programs", "configurations"], "all cyclic callback programs over any number of signals, strategies and callbacks",
    "Tests have two fixed infinite loops and don't look at the state afterwards for all strategies and cycle shapes.",
    [S + "_signal.py"],
    [("recursion limit", S + "_signal.py RECURSION_LIMIT, SignalInstance._run_emit_loop, _run_emit_loop_queued, emit_fast")],
    ["type of the exception, number of calls, logs of later emissions"])

add("C28", "Evented containers are pydantic fields validating like list, set and dict",
    "A pydantic field (of a BaseModel, EventedModel, pydantic dataclass or TypeAdapter; also nested in other types or without parameters) declared as EventedList[T], SelectableEventedList[T], EventedSet[T], EventedOrderedSet[T], Selection[T] or EventedDict[K, V] accepts a value, from Python or JSON, exactly if list[T], set[T] or dict[K, V] does, and raises ValidationError otherwise; "
    "the field then holds a new container of exactly the declared class with the items that the built-in type would hold after validation (converted items, in the order of the input for lists, ordered sets and dicts), independent of the value it was made from, and with working events. "
    "Assigning such a field of an EventedModel emits its event exactly once if the contents differ from the previous ones, and not otherwise.",
    ["inputs", "configurations"], "all item types and values, valid or not, of all kinds of iterables and mappings, for all evented container types and kinds of models",
    "Tests validate one list of three integers per container type; acceptance, conversion and order must match pydantic's for every type and input.",
    [S + "containers/_evented_list.py", S + "containers/_evented_set.py", S + "containers/_evented_dict.py", S + "containers/_selection.py"],
    [("schemas", S + "containers/_evented_list.py, _evented_set.py, _evented_dict.py __get_pydantic_core_schema__"), ("comparison of fields", S + "_evented_model.py EventedModel.__setattr__")],
    ["outcome of validation, type and items of the field", "log of events"])
add("C29", "Group descriptors honour their options independently of other classes",
    "The group of an object of a class with a SignalGroupDescriptor (or @evented) is an instance of the descriptor's signal_group_class with that class's own signals and, unless collect_fields=False, one signal per field, named by signal_aliases (mapping or function), else by the aliases of the group class, else like the field (None: no signal; a name that the group class already has: that signal). "
    "Changing a field emits the signal that it is mapped to, once, with (new, old) - with patch_setattr=False only if the class itself uses evented_setattr - and connect_setattr on a field's signal sets the new value alone. "
    "This holds in whatever order the classes are used and whatever other classes, base classes or subclasses share the group class or replace the descriptor; every object has its own group, also deep copies, and with cache_on_instance=False objects can be pickled and shallow copies have groups of their own, too; a class without any signals is warned about once, unless warn_on_no_fields=False.",
    ["configurations", "histories"], "all combinations of descriptor options, group classes and class hierarchies in one program, and all histories of their use",
    "Tests use one class with one option at a time, so that classes that share group classes, aliases or bases are never used together.",
    [S + "_group_descriptor.py", S + "_group.py", S + "_evented_decorator.py"],
    [("group construction and caching", S + "_group_descriptor.py SignalGroupDescriptor.__get__, _create_group, _build_dataclass_signal_group"), ("aliases and inherited signals", S + "_group.py SignalGroup.__init_subclass__"), ("emission", S + "_group_descriptor.py evented_setattr, get_signal_from_field")],
    ["names of the signals of each group", "log of emissions", "copies, warnings"])
add("C30", "EmitLoopError says which emission and which line of which callback failed",
    "The message of an EmitLoopError names the failing signal (with the class of its instance), the type and message of the exception, the innermost function outside of psygnal that caused the emission and its caller (file, line, function), "
    "the callback and - with the number of functions in between - the function that raised, with the local variables of the latter unless PSYGNAL_HIDE_LOCALS is set, the number of enclosing emissions of the same signal, and for queued emissions the position in the queue and the arguments of the one that failed. "
    "This holds for every way of emitting (emit, call, emit_fast, resume, fields, containers, groups), every kind of callback, nested emissions, and exceptions that are re-raised or replaced on their way through outer callbacks.",
    ["programs"], "all chains of functions, emissions and callbacks, in files of any name",
    "Tests look at messages of a few fixed calls and can't vary who emits, how deep, and what else is queued.",
    [S + "_exceptions.py", S + "_signal.py"],
    [("message", S + "_exceptions.py EmitLoopError, _build_psygnal_exception_msg"), ("what it is given", S + "_signal.py SignalInstance._run_emit_loop, emit_fast, _run_emit_loop_queued")],
    ["message of the exception"])
add("C31", "EventedModels compare by their fields, and copy and serialize like plain models",
    "Two instances of one EventedModel class are equal if and only if each field is equal under that field's equality operator (also arrays), whatever has been assigned, compared or listened to before; != is the opposite, comparing never raises or emits, and a model equals a dict if and only if its dump does. "
    "Validation, dumps (Python and JSON), JSON schemas and copies (copy.copy, copy.deepcopy, model_copy with and without update, pickle, model_construct) have the class, values and fields set that the same plain pydantic model gives. "
    "Every copy - also one made by a listener during an emission - has its own event group bound to it and without listeners: afterwards, assigning a field emits that object's events exactly if its value changes, and never those of another one.",
    ["histories", "configurations"], "all models, values and histories of construction, copies, assignments and comparisons",
    "Tests compare two models with one field, and copy one model that nobody listens to.",
    [S + "_evented_model.py", S + "_group_descriptor.py"],
    [("equality", S + "_evented_model.py EventedModel.__eq__; " + S + "_group_descriptor.py _check_field_equality"), ("copies", S + "_evented_model.py EventedModel.__copy__/__deepcopy__/__setstate__/model_construct/_reset_events")],
    ["results of comparisons, dumps and copies; log of listeners on all instances"])
add("C32", "Linked signals, objects and containers pass emissions on as one network",
    "In any network of signals connected to signals (or to their emit method), connect_setattr and connect_setitem links between evented objects and containers (also in both directions and in rings), signal groups and callbacks that emit or assign further, "
    "one emission or assignment calls every listener exactly as the connections, priorities, re-emission strategies, blocked and paused states of the individual signals say, in that order, and afterwards every value is the one last assigned on the way; "
    "rings of attribute links come to an end as soon as the values agree. An exception of any callback surfaces as one EmitLoopError caused by it and leaves all signals on the way usable. "
    "Links never keep their target alive, callbacks keep what they refer to alive only as long as their own source is: an evented object or model that only refers to itself through its callbacks is freed, "
    "while a node that a living source's callback refers to keeps working.",
    ["histories", "inputs"], "all networks, values and histories of linking, unlinking, pausing, blocking, dropping nodes and emitting",
    "Tests connect single pairs of signals and objects.",
    [S + "_signal.py", S + "_weak_callback.py", S + "_group.py", S + "_group_descriptor.py", S + "_evented_model.py", S + "containers/_evented_dict.py", S + "containers/_evented_list.py"],
    [("emission", S + "_signal.py SignalInstance._run_emit_loop and its three strategies"), ("links", S + "_weak_callback.py WeakSetattr, WeakSetitem, WeakMethod, WeakFunction"), ("lifetime", S + "_group_descriptor.py SignalGroupDescriptor.__get__; " + S + "_signal.py Signal.__get__")],
    ["calls of all listeners with arguments", "values of all objects and containers", "which nodes are alive"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
