"""Writes /verif/known_findings.txt from the commits in /repo (run by hand)."""
import pathlib, subprocess

PROP = {  # subject (without "fix: ") -> property
    "don't assign read-only computed fields in EventedModel.update": ('C17', 'update() with another model that has read-only computed fields raised an AttributeError'),
    'reset fields whose default factories take the validated data': ('C17', 'reset() of a model with a default factory that takes the validated data (pydantic >= 2.10) raised a ValueError'),
    "don't call methods of None instead of builtin methods whose owner died": ('C10', 'a queued slot that is a builtin method (obj.__setattr__) whose owner has died before run_queued/emit_queued raised EmitLoopError (the method of None was called) instead of being skipped'),
    'callbacks that refer to an evented object do not keep it alive': ('C32', 'an evented dataclass or attrs object was never freed once a callback that refers to it had been connected to one of its signals'),
    'an equality operator that fails once is not replaced for all later values': ('C15', "after one comparison by the field's equality operator raised, that field was compared by identity (or array_equal) from then on, by all objects of the class: equal values were reported as changes"),
    'EventedModel.model_construct() creates the events': ('C31', 'EventedModel.model_construct() made an object without events: every assignment raised'),
    'EventedModels compare their fields only': ('C31', 'equality of EventedModels depended on whether properties had been compared before: a property (or a field with an equality operator that raised) took part in == from then on'),
    'a copy of a paused signal does not share its pending emissions': ('C25', 'copy.copy(signal_instance) of a paused signal shared the list of pending emissions: resuming one of the two dropped the emissions of the other'),
    'report the arguments of the queued emission that failed, not the last ones': ('C30', 'with queued emissions waiting behind the failing one, EmitLoopError reported the arguments and position of the last one in the queue'),
    "don't take packages like psygnal_plugin for psygnal in error messages": ('C30', "frames of files below a directory like site-packages/psygnal_plugin were skipped as if they were psygnal's: EmitLoopError pointed at their callers"),
    "use equality_operators of a descriptor that doesn't collect fields": ('C29', 'equality_operators passed along with collect_fields=False were ignored'),
    "don't change a group class that is used without collecting fields": ('C29', 'SignalGroupDescriptor(signal_group_class=G, collect_fields=False, signal_aliases={...}) added its aliases to G itself (and so to every other class that uses G)'),
    'keep the order of the items of EventedOrderedSet fields of pydantic models': ('C28', 'an EventedOrderedSet field of a pydantic model given [3, 1, 2] held OrderedSet in arbitrary (hash) order'),
    'fall back to comparing arrays if only the previous value is one': ('C16', 'after a field without an array type changed from None to an array (in an EventedModel; from an array to None in other evented classes), equal arrays were reported as changes from then on'),
    'inherited fields of evented msgspec Structs keep their type': ('C15', "inherited fields of evented msgspec Struct subclasses lost their annotated type, so that a dask array field was compared with == (and computed) and the signal's signature was (object, object)"),
    'an object with several SignalGroupDescriptors has one group for each': ('C12', 'on a class with two SignalGroupDescriptors, both attributes of an object gave the group of the descriptor that was accessed first'),
    'EventedModel uses the property setter that the class has, not an overridden one': ('C17', "with base classes B1(A) and B2(A), where B2 overrides a property of A, assigning the property to an object of class M(B1, B2) ran A's setter (M.p is B2.p); a property overridden by a read-only one stayed assignable"),
    'raise EmitLoopError if the exception or arguments cannot be formatted': ('C05', 'a callback error whose __str__ raises (or queued arguments whose __repr__ raises) surfaced as that other error'),
    'raise EmitLoopError if the owner of the signal has no truth value': ('C05', "a callback error on a signal whose owner's __bool__ raises surfaced as that other error"),
    'monitor_events leaves no loggers connected if an attribute of the object raises': ('C26', 'if a property of obj raised, monitor_events raised but left the logger connected to the signals before it'),
    'iter_signal_instances yields signals with several names once': ('C26', 'a signal found under two attribute names was yielded twice, and the logger of monitor_events called twice per emission (e.g. EventedModel with include_private_attrs)'),
    'monitor_events accepts signals with check_types_on_connect': ('C26', 'monitor_events(obj) raised ValueError if a signal of obj has check_types_on_connect=True (and left the logger connected to others)'),
    'accept methods and functions with default arguments as logger of monitor_events': ('C26', 'monitor_events(obj, self.log) and loggers with default arguments were called with two arguments (name, args) as if they were old-style loggers; monitor_events(logger=self.log) raised ValueError'),
    'copy of a signal made during its emission is not stuck in that emission': ('C25', 'a queued signal that was copied or pickled by one of its callbacks never emitted again (nested latest-only ones stopped early): the emission in progress was copied too'),
    'set unreadable attributes and items through an evented proxy': ('C23', 'setting an attribute/item that cannot be read raised instead of setting it; setting the default of a defaultdict emitted nothing'),
    'keep the evented proxy after in-place operators on immutable objects': ('C23', "after an in-place operator on an immutable object the proxy was a plain one without events (wrapt 2); @= also emitted attribute_set('__wrapped__')"),
    'never run a call to a throttled/debounced function twice': ('C24', 'two threads could run the function with the arguments of the same call'),
    'assign an iterator to the selection of a Selectable': ('C22', 'assigning an iterator to lst.selection selected nothing'),
    "don't clear a Selection when select_only is given a foreign item": ('C22', 'select_only with a foreign item raised but cleared the selection'),
    'support deleting EventedList items by any integer-like index, like list': ('C18', 'del el[np.int64(0)] and el.pop(np.int64(0)) raised TypeError'),
    'raise IndexError when moving items from out of range indices of EventedList': ('C18', 'move(-15, 0) on a list of 10 items moved item -5; move_multiple([0, 7], 2) moved item 0 and then raised IndexError'),
    'report the stored value in EventedList.events.inserted': ('C18', 'inserted reported the value before _pre_insert converted it'),
    'EventedModel can be changed after assigning a property whose getter raised': ('C17', 'after an assignment of a property whose getter raised, the next assignment raised KeyError'),
    "EventedModel with dependencies doesn't emit if an assignment failed and the value does not equal itself": ('C16', 'a failing assignment of a field holding NaN emitted, in models with field_dependencies'),
    "don't include the events of an EventedModel in its extra fields": ('C16', "with validate_assignment and extra='allow', model_dump() of an EventedModel contained its events after an assignment"),
    'EventedModel.update sets values that are not models or dicts on nested model fields': ('C17', "update({'nested': None}) raised TypeError"),
    'EventedModel.reset restores the default values of nested models': ('C17', 'reset() of a model whose default is Inner(x=5) reset inner.x to the default of Inner; raised if the nested model had been set to None'),
    "don't share events between an EventedModel and its copies": ('C16', 'copy.copy/model_copy of an EventedModel shared the events of the original'),
    'emit events of EventedModel fields whose names are reserved in signal groups': ('C16', "assigning an EventedModel field called 'all', 'connect', 'signals', ... raised, or emitted the raw value to group listeners, instead of emitting the field's event"),
    "don't emit when an assignment failed and the value does not equal itself": ('C15', "a failing assignment of a field holding NaN (or whose equality operator says 'different') emitted"),
    'keep frozen msgspec structs frozen when they are made evented': ('C15', 'assigning a field of an evented frozen msgspec Struct succeeded once its events had been accessed'),
    'allow subclassing signal groups that have signals with reserved names': ('C13', 'subclassing a SignalGroup that declares a signal with a reserved psygnal... name raised AttributeError'),
    "don't skip a connected callback if another one is removed concurrently": ('C11', 'an emission could skip a callback that was connected all the time, when the owner of an earlier callback died in another thread at that moment'),
    'skip callbacks whose owner dies (in another thread) just before they are called': ('C11', 'a callback whose owner died in another thread while its turn came made emit() raise EmitLoopError (ReferenceError)'),
    'resolve string annotations of callable objects, classes and partials when checking types on connect': ('C03', 'connect(check_types=True) of a callable object, class or partial with string annotations raised TypeError'),
    'accept callbacks annotated with X | Y unions when checking types on connect': ('C03', "connect(check_types=True) of a callback annotated 'int | str' raised TypeError"),
    "call every connected slot once when callbacks (dis)connect during emission": ("C01", "callbacks were skipped or called twice when a callback (dis)connected others during an emission"),
    "keep track of the current emitter per thread": ("C06", "current_emitter()/sender() were shared by all threads: emissions in another thread changed or reset it"),
    "never emit paused arguments twice when resuming": ("C08", "after an exception (or a nested pause/resume) while resuming, already delivered arguments were emitted again"),
    "hold back emissions to group listeners while the group is paused": ("C08", "group.pause() did not hold back emissions of the members to the group's listeners"),
    "restore the blocked state of all signals when leaving group.blocked()": ("C07", "leaving a nested group.blocked() (or one around an already blocked member) did not restore the blocked state of members"),
    "group.disconnect(slot, missing_ok=False) only raises if slot is not connected": ("C13", "group.disconnect(slot, missing_ok=False) raised although slot was connected"),
    "don't retain the last emitted arguments in latest-only mode": ("C09", "a latest-only signal kept the last emitted arguments alive"),
    "cache signal instances under the attribute name if it differs from the signal name": ("C12", "Signal(name=...) differing from the attribute created a new SignalInstance at each access"),
    "pickle all attributes of signal instances and connected functions": ("C25", "unpickled signals lacked attributes/keys: priorities, disconnect and emit failed"),
    "move items to the right place in EventedList.move_multiple": ("C18", "move_multiple moved the wrong items for some combinations of sources"),
    "support negative source indices in EventedList.move and move_multiple": ("C18", "negative source indices moved items to the wrong place"),
    "raise IndexError when deleting out of range indices from EventedList": ("C18", "del lst[i] with an out-of-range negative index deleted another item"),
    "EventedList items that are lists are not converted when accessed by index": ("C18", "lst[i] returned a converted copy if the item was a list"),
    "update child event connections when setting items of EventedList": ("C19", "items set by lst[i] = x were not connected, replaced ones not disconnected"),
    "emit child_event with the index of the emitting object, not of an equal one": ("C19", "child_event reported the index of another item that compares equal"),
    "deep-copied signal groups refer to the copied instance": ("C25", "deepcopy of an object with a group left the copied group bound to the original object"),
    "EventedDict.popitem removes the last inserted item, like dict": ("C20", "popitem() was FIFO"),
    "set operations with duplicates, iterators, no arguments, or the set itself": ("C21", "wrong results or errors for set operations with duplicates, one-shot iterators, no arguments, or the set itself"),
    "don't change the active item of a Selection if it is not in the parent": ("C22", "setting selection.active to a foreign item raised but changed the active item"),
    "select_next after the current item was removed from the list": ("C22", "select_next raised ValueError after the current item had been removed"),
    "support setting new keys on EventedObjectProxy": ("C23", "proxy[new_key] = value raised KeyError"),
    "connect partials of setattr/__setitem__ that also bind the value": ("C14", "partial(setattr, obj, 'x', value) could not be connected"),
    "EventedModel emits the value that was actually set, not the input value": ("C16", "events carried the unvalidated input value"),
    "add events for inherited property setters on EventedModel subclasses": ("C17", "inherited property setters raised KeyError when assigned"),
    "EventedModel.reset with default factories and required fields": ("C17", "reset() failed or set invalid values for default_factory/required fields"),
    "EventedModel change tracking survives errors in property getters": ("C17", "an error in a property getter left stale change records, later assignments emitted wrong events"),
    "don't lose callbacks when a thread's queue is created concurrently": ("C10", "two threads creating the queue of a thread at once lost a queued callback"),
    "emit_queued never blocks when the queue is drained concurrently": ("C10", "emit_queued blocked forever if another thread drained the queue"),
    "skip queued callbacks whose owner was deleted before they were called": ("C10", "emit_queued raised when the owner of a queued callback had died"),
    "emit aliased signals of evented subclasses if the base class has no aliases": ("C15", "aliased fields of a subclass did not emit if the base class had been patched without aliases"),
    "don't lose calls to throttled/debounced functions when racing with the timer": ("C24", "calls racing with the timer were lost or ran twice; errors in the function stopped it for good"),
    "don't drop the latest emission in latest-only mode after deeper nested emissions": ("C04", "latest-only dropped the newest emission if an earlier one had been nested deeper"),
}
FINDINGS = [
    ("C11", "owner-dies-during-disconnect", "an owner that dies at a certain point of a concurrent connect()/disconnect() on the same signal (in another thread, or in a garbage collection) makes disconnect() remove another callback or fail, or is never removed: removal by the finalizer is not synchronized with them"),
    ("C02", "partials-of-one-function", "connect(partial(f, 1)) makes `partial(f, 2) in signal` True, and disconnect/unique confuse them: the arguments are not part of a callback's identity"),
    ("C09", "on-ref-error-ignored", "connect(obj.method, on_ref_error='raise'/'warn') of an object that cannot be weakly referenced neither raises nor warns while the (default) arity check is on: the object is silently held strongly"),
    ("C15", "msgspec-mixin-first", "an evented msgspec Struct with a plain mixin class in front of msgspec.Struct in its bases: every assignment raises TypeError once its events have been accessed (CPython forbids the call of the original __setattr__ slot from the patched one)"),
    ("C32", "self-reference-of-slotted", "an evented object that cannot store its SignalGroup (slots, frozen, msgspec Struct, plain pydantic.BaseModel) is never freed while a connected function refers to it: the group is held by the class (only a weak-key store with ephemerons could avoid that)"),
    ("C22", "replaced-item-stays-selected", "SelectableEventedList: an item replaced by `lst[i] = x` (or a slice assignment) stays in lst.selection although it is no longer in the list"),
]
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h|%s"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, sub = line.split("|", 1)
    if sub.startswith("fix: "):
        p, what = PROP[sub[5:]]
        out.append(f"fixed: property={p} {h} {what}")
for p, key, what in FINDINGS:
    out.append(f"finding: property={p} key={key} {what}")
(pathlib.Path(__file__).resolve().parent.parent / "known_findings.txt").write_text("\n".join(out) + "\n")
