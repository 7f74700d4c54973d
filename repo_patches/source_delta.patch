From dd6c32f7358b0a680538ab0612388276f0132d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 01/78] fix: call every connected slot once when callbacks
 (dis)connect during emission

---
 src/psygnal/_signal.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 86573de..0245aa5 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1237,7 +1237,7 @@ class SignalInstance:
 
         self._recursion_depth += 1
         try:
-            for caller in self._slots:
+            for caller in self._iter_slots():
                 caller.cb(args)
         except RecursionError as e:
             raise RecursionError(
@@ -1302,14 +1302,27 @@ class SignalInstance:
                     self._recursion_depth = 0
                 self._emit_queue.clear()
 
+    def _iter_slots(self) -> Iterator[WeakCallback]:
+        """Iterate over connected slots, tolerating (dis)connections on the way.
+
+        Slots that get disconnected (or die) before their turn are not yielded,
+        slots that get connected after iteration has begun are not yielded either.
+        """
+        slots = self._slots
+        for i, caller in enumerate(tuple(slots)):
+            # (fast path first: usually, the slot is still where it was.)
+            here = slots[i : i + 1]
+            if (here and here[0] is caller) or any(s is caller for s in slots):
+                yield caller
+
     def _run_emit_loop_immediate(self) -> None:
         args = self._emit_queue.popleft()
-        for caller in self._slots:
+        for caller in self._iter_slots():
             caller.cb(args)
 
     def _run_emit_loop_latest_only(self) -> None:
         self._args = args = self._emit_queue.popleft()
-        for caller in self._slots:
+        for caller in self._iter_slots():
             if self._recursion_depth < self._max_recursion_depth:
                 # we've already entered a deeper emit loop
                 # we should drop the remaining slots in this round and return
@@ -1321,7 +1334,7 @@ class SignalInstance:
         i = 0
         while i < len(self._emit_queue):
             args = self._emit_queue[i]
-            for caller in self._slots:
+            for caller in self._iter_slots():
                 caller.cb(args)
                 if len(self._emit_queue) > RECURSION_LIMIT:
                     raise RecursionError
-- 
2.43.0


From 3c5046be3483995eb270c300dba312098e5a4f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 02/78] fix: keep track of the current emitter per thread

---
 src/psygnal/_signal.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 0245aa5..98e222b 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -290,7 +290,8 @@ class Signal:
 
     # _signature: Signature  # callback signature for this signal
 
-    _current_emitter: ClassVar[SignalInstance | None] = None
+    # holds the SignalInstance that is currently emitting, in each thread
+    _current_emitter: ClassVar[threading.local] = threading.local()
 
     def __init__(
         self,
@@ -409,11 +410,11 @@ class Signal:
     @contextmanager
     def _emitting(cls, emitter: SignalInstance) -> Iterator[None]:
         """Context that sets the sender on a receiver object while emitting a signal."""
-        previous, cls._current_emitter = cls._current_emitter, emitter
+        previous, cls._current_emitter.value = cls.current_emitter(), emitter
         try:
             yield
         finally:
-            cls._current_emitter = previous
+            cls._current_emitter.value = previous
 
     @classmethod
     def current_emitter(cls) -> SignalInstance | None:
@@ -431,7 +432,7 @@ class Signal:
             source = Signal.current_emitter()
         ```
         """
-        return cls._current_emitter
+        return getattr(cls._current_emitter, "value", None)
 
     @classmethod
     def sender(cls) -> Any:
@@ -439,7 +440,7 @@ class Signal:
 
         This will typically be used in a callback.
         """
-        return getattr(cls._current_emitter, "instance", None)
+        return getattr(cls.current_emitter(), "instance", None)
 
 
 _empty_signature = Signature()
-- 
2.43.0


From 357e9aaaed49190057d5c84de94501d5388e1c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 03/78] fix: never emit paused arguments twice when resuming

---
 src/psygnal/_signal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 98e222b..7341905 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1436,11 +1436,13 @@ class SignalInstance:
                     args = reduce(reducer, self._args_queue)
                 else:
                     args = reduce(reducer, self._args_queue, initial)
+            self._args_queue = []
             self._run_emit_loop(args)
         else:
-            for args in self._args_queue:
-                self._run_emit_loop(args)
-        self._args_queue.clear()
+            # remove args from the queue *before* emitting them, so that they are never
+            # emitted twice (if a callback raises an exception or pauses/resumes again)
+            while self._args_queue and not self._is_paused:
+                self._run_emit_loop(self._args_queue.pop(0))
 
     def paused(
         self, reducer: ReducerFunc | None = None, initial: Any = _NULL
-- 
2.43.0


From adba9245e17117408b8b4ce7e819bdec59df1ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 04/78] fix: hold back emissions to group listeners while the
 group is paused

---
 src/psygnal/_group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index a2f6ba8..c25945c 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -97,7 +97,10 @@ class SignalRelay(SignalInstance):
     def _slot_relay(self, *args: Any) -> None:
         if emitter := Signal.current_emitter():
             info = EmissionInfo(emitter, args)
-            self._run_emit_loop((info,))
+            if self._is_paused:
+                self._args_queue.append((info,))
+            else:
+                self._run_emit_loop((info,))
 
     def connect_direct(
         self,
-- 
2.43.0


From 53cf87a48102a39a0d0f11e1970426c3fa1b8e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 05/78] fix: restore the blocked state of all signals when
 leaving group.blocked()

---
 src/psygnal/_group.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index c25945c..23c72d4 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -162,9 +162,10 @@ class SignalRelay(SignalInstance):
         """Block this signal and all emitters from emitting."""
         super().block()
         for name, sig in self._signals.items():
+            # don't overwrite the original state if the group was already blocked
+            self._sig_was_blocked.setdefault(name, sig._is_blocked)
             if name in exclude or sig in exclude:
                 continue
-            self._sig_was_blocked[name] = sig._is_blocked
             sig.block()
 
     def unblock(self) -> None:
@@ -185,7 +186,7 @@ class SignalRelay(SignalInstance):
             An iterable of signal instances or names to exempt from the block,
             by default ()
         """
-        return _SignalBlocker(self, exclude=exclude)
+        return _GroupBlocker(self, exclude=exclude)
 
     def disconnect(self, slot: Callable | None = None, missing_ok: bool = True) -> None:
         """Disconnect slot from all signals.
@@ -209,6 +210,27 @@ class SignalRelay(SignalInstance):
         super().disconnect(slot, missing_ok)
 
 
+class _GroupBlocker(_SignalBlocker):
+    """Context manager to block and unblock all signals in a group."""
+
+    def __init__(
+        self, relay: SignalRelay, exclude: Container[str | SignalInstance] = ()
+    ) -> None:
+        super().__init__(relay, exclude)
+        self._signals = relay._signals
+        self._unblocked: list[SignalInstance] = []
+
+    def __enter__(self) -> None:
+        self._unblocked = [s for s in self._signals.values() if not s._is_blocked]
+        super().__enter__()
+
+    def __exit__(self, *args: Any) -> None:
+        super().__exit__(*args)
+        # when nested in another blocker, restore the signals it had excluded.
+        for sig in self._unblocked:
+            sig.unblock()
+
+
 # NOTE
 # To developers. Avoid adding public names to this class, as it is intended to be
 # a container for user-determined names.  If names must be added, try to prefix
-- 
2.43.0


From b5125f7fb709e680d5a7bead5f36aed3517d660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 06/78] fix: group.disconnect(slot, missing_ok=False) only
 raises if slot is not connected

---
 src/psygnal/_group.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 23c72d4..7468935 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -205,9 +205,12 @@ class SignalRelay(SignalInstance):
         ValueError
             If `slot` is not connected and `missing_ok` is False.
         """
+        if not (missing_ok or slot is None or slot in self):
+            if not any(slot in sig for sig in self._signals.values()):
+                raise ValueError(f"slot is not connected: {slot}")
         for sig in self._signals.values():
-            sig.disconnect(slot, missing_ok)
-        super().disconnect(slot, missing_ok)
+            sig.disconnect(slot)
+        super().disconnect(slot)
 
 
 class _GroupBlocker(_SignalBlocker):
-- 
2.43.0


From bccad77dd76c20a1affeade42f4662062e688578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 07/78] fix: don't retain the last emitted arguments in
 latest-only mode

---
 src/psygnal/_signal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 7341905..929aa88 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1322,13 +1322,12 @@ class SignalInstance:
             caller.cb(args)
 
     def _run_emit_loop_latest_only(self) -> None:
-        self._args = args = self._emit_queue.popleft()
+        args = self._emit_queue.popleft()
         for caller in self._iter_slots():
             if self._recursion_depth < self._max_recursion_depth:
                 # we've already entered a deeper emit loop
                 # we should drop the remaining slots in this round and return
                 break
-            self._caller = caller
             caller.cb(args)
 
     def _run_emit_loop_queued(self) -> None:
-- 
2.43.0


From 80ab6be122c91f81af68b7181f645a3cc2d37338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 08/78] fix: cache signal instances under the attribute name if
 it differs from the signal name

---
 src/psygnal/_signal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 929aa88..7e8b296 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -303,6 +303,7 @@ class Signal:
         reemission: ReemissionVal = DEFAULT_REEMISSION,
     ) -> None:
         self._name = name
+        self._attr_name: str | None = None  # name of the attribute on the owner class
         self.description = description
         self._check_nargs_on_connect = check_nargs_on_connect
         self._check_types_on_connect = check_types_on_connect
@@ -328,6 +329,8 @@ class Signal:
 
     def __set_name__(self, owner: type[Any], name: str) -> None:
         """Set name of signal when declared as a class attribute on `owner`."""
+        if self._attr_name is None:
+            self._attr_name = name
         if self._name is None:
             self._name = name
 
@@ -372,7 +375,8 @@ class Signal:
             # first, try to assign it to instance.name ... this essentially breaks the
             # descriptor, (i.e. __get__ will never again be called for this instance)
             # (note, this is the same mechanism used in the `cached_property` decorator)
-            setattr(instance, cast("str", self._name), signal_instance)
+            attr_name = self._attr_name or self._name
+            setattr(instance, cast("str", attr_name), signal_instance)
         except AttributeError:
             # if that fails, which may happen in slotted classes, then we fall back to
             # our internal cache
-- 
2.43.0


From 59d9ff0be8464d71aff40595e0eddf9a52cc662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 09/78] fix: pickle all attributes of signal instances and
 connected functions

---
 src/psygnal/_signal.py        |  1 +
 src/psygnal/_weak_callback.py | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 7e8b296..c49f4ec 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1486,6 +1486,7 @@ class SignalInstance:
         attrs = (
             "_signature",
             "_name",
+            "_description",
             "_is_blocked",
             "_is_paused",
             "_args_queue",
diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index aa23330..ed237dc 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -363,12 +363,26 @@ class StrongFunction(WeakCallback):
         return self._f
 
     def __getstate__(self) -> dict[str, Any]:
-        atr = ("_key", "_max_args", "_alive", "_on_ref_error", "_f", "_args", "_kwargs")
+        atr = (
+            "_key",
+            "_obj_module",
+            "_obj_qualname",
+            "_object_repr",
+            "_max_args",
+            "_alive",
+            "_on_ref_error",
+            "priority",
+            "_f",
+            "_args",
+            "_kwargs",
+        )
         return {k: getattr(self, k) for k in atr}
 
     def __setstate__(self, state: dict) -> None:
         for k, v in state.items():
             setattr(self, k, v)
+        # the key depends on the id of the function (which differs after unpickling)
+        self._key = WeakCallback.object_key(self._f)
 
 
 class WeakFunction(WeakCallback):
-- 
2.43.0


From f22ad91a83da5827c8144523f5c48b8a8e0b3f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 10/78] fix: move items to the right place in
 EventedList.move_multiple

---
 src/psygnal/containers/_evented_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index e72a647..4165502 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -382,12 +382,12 @@ class EventedList(MutableSequence[_T]):
             if src != dest_index:
                 # we need to decrement the src_i by 1 for each time we have
                 # previously pulled items out from in front of the src_i
-                src -= sum(x <= src for x in popped)
+                src_i = src - sum(x <= src for x in popped)
                 # if source is past the insertion point, increment src for each
                 # previous insertion
                 if src >= dest_index:
-                    src += i
-                yield src, dest_index + d_inc
+                    src_i += i
+                yield src_i, dest_index + d_inc
 
             popped.append(src)
             # if the item moved up, increment the destination index
-- 
2.43.0


From dab267a837c22bd2e79e5ce852085f68ef21da91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 11/78] fix: support negative source indices in
 EventedList.move and move_multiple

---
 src/psygnal/containers/_evented_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 4165502..bec61b1 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -274,6 +274,8 @@ class EventedList(MutableSequence[_T]):
         Both indices refer to the list prior to any object removal
         (pre-move space).
         """
+        if src_index < 0:
+            src_index += len(self)
         if dest_index < 0:
             dest_index += len(self) + 1
         if dest_index in (src_index, src_index + 1):
@@ -365,7 +367,7 @@ class EventedList(MutableSequence[_T]):
             if isinstance(idx, slice):
                 to_move.extend(list(range(*idx.indices(len(self)))))
             elif isinstance(idx, int):
-                to_move.append(idx)
+                to_move.append(idx if idx >= 0 else idx + len(self))
             else:
                 raise TypeError(
                     "Can only move integer or slice indices"
-- 
2.43.0


From cf5d1bfafbe76395ffe45cfdb99f7ef902829e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 12/78] fix: raise IndexError when deleting out of range
 indices from EventedList

---
 src/psygnal/containers/_evented_list.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index bec61b1..adb9a0f 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -189,6 +189,7 @@ class EventedList(MutableSequence[_T]):
     def _delitem_indices(self, key: Index) -> Iterable[tuple[EventedList[_T], int]]:
         # returning (self, int) allows subclasses to pass nested members
         if isinstance(key, int):
+            self._data[key]  # raise IndexError if out of range
             yield (self, key if key >= 0 else key + len(self))
         elif isinstance(key, slice):
             yield from ((self, i) for i in range(*key.indices(len(self))))
-- 
2.43.0


From 9576471f5f3ccdd98dc4126448144da2468c740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 13/78] fix: EventedList items that are lists are not converted
 when accessed by index

---
 src/psygnal/containers/_evented_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index adb9a0f..5083969 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -151,7 +151,9 @@ class EventedList(MutableSequence[_T]):
     def __getitem__(self, key: Index) -> _T | Self:
         """Return self[key]."""
         result = self._data[key]
-        return self.__newlike__(result) if isinstance(result, list) else result
+        if isinstance(key, slice):
+            return self.__newlike__(cast("list[_T]", result))
+        return cast("_T", result)
 
     @overload
     def __setitem__(self, key: int, value: _T) -> None: ...
-- 
2.43.0


From 5dd12809050a531d9742bf58ac76e58e66c3d643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 14/78] fix: update child event connections when setting items
 of EventedList

---
 src/psygnal/containers/_evented_list.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 5083969..85aa391 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -177,6 +177,13 @@ class EventedList(MutableSequence[_T]):
             value = self._pre_insert(cast("_T", value))
             self._data[key] = value
 
+        if self._child_events:
+            is_slice = isinstance(key, slice)
+            for child in cast("list", old if is_slice else [old]):
+                self._disconnect_child_emitters(child)
+            for child in cast("list", value if is_slice else [value]):
+                self._connect_child_emitters(child)
+
         self.events.changed.emit(key, old, value)
 
     def __delitem__(self, key: Index) -> None:
-- 
2.43.0


From 1dedf30ee5213fa385ed8a40b5165768b575e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 15/78] fix: emit child_event with the index of the emitting
 object, not of an equal one

---
 src/psygnal/containers/_evented_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 85aa391..f69f7a2 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -422,9 +422,9 @@ class EventedList(MutableSequence[_T]):
         if emitter is None:
             return  # pragma: no cover
         obj = emitter.instance
-        try:
-            idx = self.index(obj)
-        except ValueError:  # pragma: no cover
+        # look for the object itself ... other items may compare equal to it
+        idx = next((i for i, item in enumerate(self._data) if item is obj), -1)
+        if idx == -1:  # pragma: no cover
             return
 
         if (
-- 
2.43.0


From 4029892e6cacdde738a3915c96897a3e7b71cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 16/78] fix: deep-copied signal groups refer to the copied
 instance

---
 src/psygnal/_group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 7468935..73d7ece 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -457,7 +457,9 @@ class SignalGroup:
         # This really isn't a deep copy. Should we also copy connections?
         # a working deepcopy is important for pydantic support, but in most cases
         # it will be a group without any signals connected
-        return type(self)(instance=self._psygnal_relay.instance)
+        instance = self._psygnal_relay.instance
+        # if we're being copied along with our instance, refer to the copied instance
+        return type(self)(instance=memo.get(id(instance), instance))
 
     # The rest are passthrough methods to the SignalRelay.
     # The full signatures are here to make mypy and IDEs happy.
-- 
2.43.0


From d13cc28d50b02ca9ddabacfd2085af21520a1cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 17/78] fix: EventedDict.popitem removes the last inserted
 item, like dict

---
 src/psygnal/containers/_evented_dict.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psygnal/containers/_evented_dict.py b/src/psygnal/containers/_evented_dict.py
index 5f60338..c7cbd1a 100644
--- a/src/psygnal/containers/_evented_dict.py
+++ b/src/psygnal/containers/_evented_dict.py
@@ -68,6 +68,13 @@ class TypedMutableMapping(MutableMapping[_K, _V]):
     def __repr__(self) -> str:
         return repr(self._dict)
 
+    def popitem(self) -> tuple[_K, _V]:
+        """Remove and return the last inserted (key, value) pair (like `dict`)."""
+        if not self._dict:
+            raise KeyError("popitem(): dictionary is empty")
+        key = next(reversed(self._dict))
+        return key, self.pop(key)
+
     def _type_check(self, value: _V) -> _V:
         """Check the types of items if basetypes are set for the model."""
         if self._basetypes and not any(isinstance(value, t) for t in self._basetypes):
-- 
2.43.0


From 8081e1f10766f16db262fd2e05c9e436f95b1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 18/78] fix: set operations with duplicates, iterators, no
 arguments, or the set itself

---
 src/psygnal/containers/_evented_set.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index 2c841c8..99baf78 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -126,7 +126,7 @@ class _BaseMutableSet(MutableSet[_T]):
 
     def difference_update(self, *s: Iterable[_T]) -> None:
         """Remove all elements of another set from this set."""
-        for i in chain(*s):
+        for i in tuple(chain(*s)):  # (one of them could be self)
             self.discard(i)
 
     def intersection(self, *s: Iterable[_T]) -> Self:
@@ -134,12 +134,12 @@ class _BaseMutableSet(MutableSet[_T]):
 
         (i.e. all elements that are in both sets.)
         """
-        other = set.intersection(*(set(x) for x in s))
+        other = set(self).intersection(*s)
         return self.__class__(i for i in self if i in other)
 
     def intersection_update(self, *s: Iterable[_T]) -> None:
         """Update this set with the intersection of itself and another."""
-        other = set.intersection(*(set(x) for x in s))
+        other = set(self).intersection(*s)
         for i in tuple(self):
             if i not in other:
                 self.discard(i)
@@ -157,7 +157,10 @@ class _BaseMutableSet(MutableSet[_T]):
 
         (i.e. all elements that are in exactly one of the sets.)
         """
-        a = chain((i for i in __s if i not in self), (i for i in self if i not in __s))
+        other = dict.fromkeys(__s)
+        a = chain(
+            (i for i in other if i not in self), (i for i in self if i not in other)
+        )
         return self.__class__(a)
 
     def symmetric_difference_update(self, __s: Iterable[_T]) -> None:
@@ -166,7 +169,7 @@ class _BaseMutableSet(MutableSet[_T]):
         This will remove any items in this set that are also in `other`, and
         add any items in others that are not present in this set.
         """
-        for i in __s:
+        for i in dict.fromkeys(__s):
             self.discard(i) if i in self else self.add(i)
 
     def union(self, *s: Iterable[_T]) -> Self:
-- 
2.43.0


From ffe7f773f4435d692394295ea711a960a2a98e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 19/78] fix: don't change the active item of a Selection if it
 is not in the parent

---
 src/psygnal/containers/_selection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 7650a16..c02e036 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -108,6 +108,8 @@ class Selection(EventedOrderedSet[_T]):
         """
         if value == self._active:
             return
+        if value is not None:
+            self._pre_add_hook(value)  # validate before changing anything
         self._active = value
         self.clear() if value is None else self.select_only(value)
         self._current = value
-- 
2.43.0


From e121450856ddee23320399af5293e7177086a585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 20/78] fix: select_next after the current item was removed
 from the list

---
 src/psygnal/containers/_selectable_evented_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index bebe8da..842436e 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -83,7 +83,7 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         """
         if len(self) == 0:
             return
-        elif not self.selection:
+        elif not self.selection or self.selection._current not in self:
             idx = -1 if step > 0 else 0
         else:
             idx = self.index(self.selection._current) + step
-- 
2.43.0


From 8b0205fb2379d3f1b25da3584e4c61310959c281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 21/78] fix: support setting new keys on EventedObjectProxy

---
 src/psygnal/containers/_evented_proxy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index fcd5f57..537ca8d 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -90,7 +90,10 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         self.events.attribute_deleted(name)
 
     def __setitem__(self, key: Any, value: Any) -> None:
-        before = self[key]
+        try:
+            before = self[key]
+        except LookupError:
+            before = _UNSET
         super().__setitem__(key, value)
         if before is not (after := self[key]):
             self.events.item_set(key, after)
-- 
2.43.0


From c3c94d41c8d88c787d434a519759ca89841e66cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 22/78] fix: connect partials of setattr/__setitem__ that also
 bind the value

---
 src/psygnal/_weak_callback.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index ed237dc..ce4f8e9 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -134,7 +134,8 @@ def weak_callback(
         )
 
     if isinstance(cb, MethodType):
-        if getattr(cb, "__name__", None) == "__setitem__":
+        # (if the value is bound too, this is just a regular method)
+        if getattr(cb, "__name__", None) == "__setitem__" and len(args) < 2:
             try:
                 key = args[0]
             except IndexError as e:  # pragma: no cover
@@ -155,7 +156,8 @@ def weak_callback(
                 "MethodWrapperTypes do not support keyword arguments"
             )
 
-        if cb is setattr:
+        # (if the value is bound too, this is just a regular builtin)
+        if cb is setattr and len(args) < 3:
             try:
                 obj, attr = args[:2]
             except IndexError as e:  # pragma: no cover
-- 
2.43.0


From 17298a83248f43ac4363ad8d7a17a5dec656c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 23/78] fix: EventedModel emits the value that was actually
 set, not the input value

---
 src/psygnal/_evented_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 31f90f9..2f589f1 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -631,8 +631,10 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             return self._super_setattr_(name, value)
         old_value = getattr(self, name, object())
         self._super_setattr_(name, value)
-        if not _check_field_equality(type(self), name, value, old_value):
-            getattr(self._events, name)(value)
+        # the value may have been coerced by pydantic, use the one that was actually set
+        new_value = getattr(self, name)
+        if not _check_field_equality(type(self), name, new_value, old_value):
+            getattr(self._events, name)(new_value)
 
     def _setattr_with_dependents(self, name: str, value: Any) -> None:
         """__setattr__ behavior when the class does properties."""
-- 
2.43.0


From 39f9ca6f65433a35063e64dd428e385cc274c59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 24/78] fix: add events for inherited property setters on
 EventedModel subclasses

---
 src/psygnal/_evented_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 2f589f1..87909bc 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -279,8 +279,9 @@ class EventedMetaclass(pydantic_main.ModelMetaclass):
                     attr = attr.wrapped
                 if isinstance(attr, property) and attr.fset is not None:
                     cls.__property_setters__[key] = attr
-                    recursion = emission_map.get(key, default_strategy)
-                    signals[key] = Signal(object, reemission=recursion)
+            for key in cls.__property_setters__:
+                recursion = emission_map.get(key, default_strategy)
+                signals[key] = Signal(object, reemission=recursion)
         else:
             for b in cls.__bases__:
                 with suppress(AttributeError):
-- 
2.43.0


From 7b4a29fd3a64808c0dc94af6ae51c98b572e0d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 25/78] fix: EventedModel.reset with default factories and
 required fields

---
 src/psygnal/_evented_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 87909bc..55dc192 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -29,6 +29,7 @@ if TYPE_CHECKING:
     from pydantic._internal import _model_construction as pydantic_main
     from pydantic._internal import _utils as utils
     from pydantic._internal._decorators import PydanticDescriptorProxy
+    from pydantic_core import PydanticUndefined
     from typing_extensions import TypeGuard  # py310
     from typing_extensions import dataclass_transform as dataclass_transform  # py311
 
@@ -42,6 +43,7 @@ else:
     else:
         from pydantic._internal import _model_construction as pydantic_main
         from pydantic._internal import _utils as utils
+        from pydantic_core import PydanticUndefined
 
     try:
         # py311
@@ -112,7 +114,9 @@ if not PYDANTIC_V1:
         """Get possibly nested default values for a Model object."""
         dflt = {}
         for k, v in obj.model_fields.items():
-            d = v.get_default()
+            d = v.get_default(call_default_factory=True)
+            if d is PydanticUndefined:
+                continue  # required field
             if (
                 d is None
                 and isinstance(v.annotation, type)
-- 
2.43.0


From 6e84cc604181d539ae4d8783fa49bec533118721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 26/78] fix: EventedModel change tracking survives errors in
 property getters

---
 src/psygnal/_evented_model.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 55dc192..383da8d 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -569,27 +569,26 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         if self._delay_check_semaphore > 0 or len(self._changes_queue) == 0:
             # do not run whole machinery if there is no need
             return
+        # take the recorded changes, so that they don't persist if a comparison fails
+        changes, primary = dict(self._changes_queue), set(self._primary_changes)
+        self._changes_queue.clear()
+        self._primary_changes.clear()
         to_emit = []
-        for name in self._primary_changes:
+        for name in primary:
             # primary changes should contains only fields
             # that are changed directly by assignment
-            old_value = self._changes_queue[name]
+            old_value = changes.pop(name)
             new_value = getattr(self, name)
             if not _check_field_equality(type(self), name, new_value, old_value):
                 to_emit.append((name, new_value))
-            self._changes_queue.pop(name)
         if not to_emit:
             # If no direct changes was made then we can skip whole machinery
-            self._changes_queue.clear()
-            self._primary_changes.clear()
             return
-        for name, old_value in self._changes_queue.items():
+        for name, old_value in changes.items():
             # check if any of dependent properties changed
             new_value = getattr(self, name)
             if not _check_field_equality(type(self), name, new_value, old_value):
                 to_emit.append((name, new_value))
-        self._changes_queue.clear()
-        self._primary_changes.clear()
 
         with ComparisonDelayer(self):
             # Again delay comparison to avoid having events caused by callback functions
-- 
2.43.0


From 966b79147ebde5d075c142bd14f8457a8090b748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 27/78] fix: don't lose callbacks when a thread's queue is
 created concurrently

---
 src/psygnal/_queue.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index 4093a8c..807f55a 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -60,12 +60,21 @@ class QueuedCallback(WeakCallback):
         if current_thread() is self._cbthread:
             self._wrapped.cb(args)
         else:
-            QueuedCallback._GLOBAL_QUEUE[self._cbthread].put((self._wrapped.cb, args))
+            _thread_queue(self._cbthread).put((self._wrapped.cb, args))
 
     def dereference(self) -> Callable | None:
         return self._wrapped.dereference()
 
 
+def _thread_queue(thread: Thread) -> Queue[CbArgsTuple]:
+    """Return the queue of callbacks to be called on `thread`."""
+    queues = QueuedCallback._GLOBAL_QUEUE
+    if thread not in queues:
+        # unlike defaultdict.__getitem__, setdefault is safe to call concurrently
+        queues.setdefault(thread, Queue())
+    return queues[thread]
+
+
 def emit_queued(thread: Thread | None = None) -> None:
     """Trigger emissions of all callbacks queued in the current thread.
 
@@ -84,7 +93,7 @@ def emit_queued(thread: Thread | None = None) -> None:
         raises an exception.
     """
     _thread = current_thread() if thread is None else thread
-    queue = QueuedCallback._GLOBAL_QUEUE[_thread]
+    queue = _thread_queue(_thread)
 
     while not queue.empty():
         cb, args = queue.get()
-- 
2.43.0


From 91e5b4be8761e1274bef084fac350b2055908dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 28/78] fix: emit_queued never blocks when the queue is drained
 concurrently

---
 src/psygnal/_queue.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index 807f55a..d38d413 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 from collections import defaultdict
-from queue import Queue
+from queue import Empty, Queue
 from threading import Thread, current_thread, main_thread
 from typing import Any, Callable, ClassVar, Literal
 
@@ -95,8 +95,11 @@ def emit_queued(thread: Thread | None = None) -> None:
     _thread = current_thread() if thread is None else thread
     queue = _thread_queue(_thread)
 
-    while not queue.empty():
-        cb, args = queue.get()
+    while True:
+        try:
+            cb, args = queue.get_nowait()
+        except Empty:
+            return
         try:
             cb(args)
         except Exception as e:  # pragma: no cover
-- 
2.43.0


From 667c88c13bc2b633d2a98cbfff73f2bada80d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 29/78] fix: skip queued callbacks whose owner was deleted
 before they were called

---
 src/psygnal/_queue.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index d38d413..791daca 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -60,7 +60,13 @@ class QueuedCallback(WeakCallback):
         if current_thread() is self._cbthread:
             self._wrapped.cb(args)
         else:
-            _thread_queue(self._cbthread).put((self._wrapped.cb, args))
+            _thread_queue(self._cbthread).put((self._call_wrapped, args))
+
+    def _call_wrapped(self, args: tuple = ()) -> None:
+        # skip callbacks whose owner died while they were in the queue
+        ref = self._wrapped.dereference()
+        if ref is not None:
+            self._wrapped.cb(args)
 
     def dereference(self) -> Callable | None:
         return self._wrapped.dereference()
-- 
2.43.0


From 8cdd6eb0574f4387cd9da54a45dd6b0786ae149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:58 +0000
Subject: [PATCH 30/78] fix: emit aliased signals of evented subclasses if the
 base class has no aliases

---
 src/psygnal/_group_descriptor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 557c543..c3491af 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -651,5 +651,7 @@ class SignalGroupDescriptor:
                 stacklevel=2,
             )
 
-        self._do_patch_setattr(owner, with_aliases=bool(Group._psygnal_aliases))
+        # always look for aliases: the patched method is inherited by subclasses, which
+        # may have aliases even if `owner` doesn't.
+        self._do_patch_setattr(owner, with_aliases=True)
         return Group
-- 
2.43.0


From f5e5a52bace4e442a23ddf7d527d83aeb71f09ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 31/78] fix: don't lose calls to throttled/debounced functions
 when racing with the timer

---
 src/psygnal/_throttler.py | 88 +++++++++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 26 deletions(-)

diff --git a/src/psygnal/_throttler.py b/src/psygnal/_throttler.py
index 470b9b7..727220a 100644
--- a/src/psygnal/_throttler.py
+++ b/src/psygnal/_throttler.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from threading import Timer
+from threading import RLock, Timer
 from typing import TYPE_CHECKING, Any, Callable, Generic, Literal, TypeVar
 
 if TYPE_CHECKING:
@@ -31,8 +31,12 @@ class _ThrottlerBase(Generic[P]):
         self._interval: float = interval / 1000
         self._policy: EmissionPolicy = policy
         self._has_pending: bool = False
+        # protects the state below, but is never held while calling `func`
+        self._lock = RLock()
+        # whether we're currently calling `func`, or waiting for the timer
+        self._waiting: bool = False
         self._timer: Timer = Timer(0, lambda: None)
-        self._timer.start()
+        self._timer_id: object = None  # identifies the current timer
         self._args: tuple[Any, ...] = ()
         self._kwargs: dict[str, Any] = {}
 
@@ -46,23 +50,49 @@ class _ThrottlerBase(Generic[P]):
         self.__annotations__: dict[str, Any] = getattr(func, "__annotations__", {})
 
     def _actually_call(self) -> None:
-        self._has_pending = False
-        self.__wrapped__(*self._args, **self._kwargs)
-        self._start_timer()
+        with self._lock:
+            self._has_pending = False
+            self._waiting = True
+            self._timer_id = None  # (the timer is started again after the call)
+            self._timer.cancel()
+            args, kwargs = self._args, self._kwargs
+        try:
+            self.__wrapped__(*args, **kwargs)
+        finally:
+            self._start_timer()
 
     def _call_if_has_pending(self) -> None:
-        if self._has_pending:
-            self._actually_call()
+        with self._lock:
+            if not self._has_pending:
+                return
+            self._has_pending = False
+            self._waiting = True
+        self._actually_call()
+
+    def _on_timeout(self, timer_id: object) -> None:
+        with self._lock:
+            if timer_id is not self._timer_id:
+                return  # this timer has been cancelled or restarted
+            if not self._has_pending:
+                self._waiting = False
+                return
+        self._call_if_has_pending()
 
     def _start_timer(self) -> None:
-        self._timer.cancel()
-        self._timer = Timer(self._interval, self._call_if_has_pending)
-        self._timer.start()
+        with self._lock:
+            self._timer.cancel()
+            self._waiting = True
+            self._timer_id = timer_id = object()
+            self._timer = Timer(self._interval, self._on_timeout, (timer_id,))
+            self._timer.start()
 
     def cancel(self) -> None:
         """Cancel any pending calls."""
-        self._has_pending = False
-        self._timer.cancel()
+        with self._lock:
+            self._has_pending = False
+            self._waiting = False
+            self._timer_id = None
+            self._timer.cancel()
 
     def flush(self) -> None:
         """Force a call if there is one pending."""
@@ -105,15 +135,18 @@ class Throttler(_ThrottlerBase, Generic[P]):
 
     def __call__(self, *args: P.args, **kwargs: P.kwargs) -> None:
         """Call underlying function."""
-        self._has_pending = True
-        self._args = args
-        self._kwargs = kwargs
+        with self._lock:
+            self._has_pending = True
+            self._args = args
+            self._kwargs = kwargs
+            if self._waiting:
+                return
+            self._waiting = True
 
-        if not self._timer.is_alive():
-            if self._policy == "leading":
-                self._actually_call()
-            else:
-                self._start_timer()
+        if self._policy == "leading":
+            self._call_if_has_pending()
+        else:
+            self._start_timer()
 
 
 class Debouncer(_ThrottlerBase, Generic[P]):
@@ -143,12 +176,15 @@ class Debouncer(_ThrottlerBase, Generic[P]):
 
     def __call__(self, *args: P.args, **kwargs: P.kwargs) -> None:
         """Call underlying function."""
-        self._has_pending = True
-        self._args = args
-        self._kwargs = kwargs
-
-        if not self._timer.is_alive() and self._policy == "leading":
-            self._actually_call()
+        with self._lock:
+            self._has_pending = True
+            self._args = args
+            self._kwargs = kwargs
+            call_now = not self._waiting and self._policy == "leading"
+            self._waiting = True
+
+        if call_now:
+            self._call_if_has_pending()
         self._start_timer()
 
 
-- 
2.43.0


From f4ca214a7c4f8780be282a5a5b0963f307de966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 32/78] fix: don't drop the latest emission in latest-only mode
 after deeper nested emissions

---
 src/psygnal/_signal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index c49f4ec..c7575cc 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1277,9 +1277,9 @@ class SignalInstance:
             try:
                 # allow receiver to query sender with Signal.current_emitter()
                 self._recursion_depth += 1
-                self._max_recursion_depth = max(
-                    self._max_recursion_depth, self._recursion_depth
-                )
+                # (not the max depth of *all* emissions so far: in latest-only mode, this
+                # is now the latest emission, even if others have been nested deeper)
+                self._max_recursion_depth = self._recursion_depth
                 with Signal._emitting(self):
                     self._run_emit_loop_inner()
             except RecursionError as e:
-- 
2.43.0


From 7ff05d2ec408d838f828347dcb6716bfc03b3ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:19 +0000
Subject: [PATCH 33/78] fix: accept callbacks annotated with X | Y unions when
 checking types on connect

---
 src/psygnal/_signal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index c7575cc..70cc823 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1731,9 +1731,15 @@ def _parameter_types_match(
     return True
 
 
+try:
+    from types import UnionType as _UnionType  # type of `int | str`, python 3.10+
+except ImportError:  # pragma: no cover
+    _UnionType = None  # type: ignore
+
+
 def _is_subclass(left: type[Any], right: type) -> bool:
     """Variant of issubclass with support for unions."""
-    if not isclass(left) and get_origin(left) is Union:
+    if not isclass(left) and get_origin(left) in (Union, _UnionType):
         return any(issubclass(i, right) for i in get_args(left))
     return issubclass(left, right)
 
-- 
2.43.0


From f34761953b0560372d523cb2b5ca97f1c276bf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:22 +0000
Subject: [PATCH 34/78] fix: resolve string annotations of callable objects,
 classes and partials when checking types on connect

---
 src/psygnal/_signal.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 70cc823..23578a3 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1723,7 +1723,7 @@ def _parameter_types_match(
 
         if isinstance(f_anno, str):
             if func_hints is None:
-                func_hints = get_type_hints(function)
+                func_hints = get_type_hints(_annotated_function(function))
             f_anno = func_hints.get(f_param.name)
 
         if not _is_subclass(f_anno, spec_param.annotation):
@@ -1737,6 +1737,17 @@ except ImportError:  # pragma: no cover
     _UnionType = None  # type: ignore
 
 
+def _annotated_function(obj: Any) -> Any:
+    """Return the function that holds the (parameter) annotations of a callable."""
+    while isinstance(obj, partial):
+        obj = obj.func
+    if isclass(obj):
+        return obj.__init__
+    if inspect.isroutine(obj) or not callable(obj):
+        return obj
+    return type(obj).__call__
+
+
 def _is_subclass(left: type[Any], right: type) -> bool:
     """Variant of issubclass with support for unions."""
     if not isclass(left) and get_origin(left) in (Union, _UnionType):
-- 
2.43.0


From affc78f92b47d646e64513211b9f23c07cc09366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:16 +0000
Subject: [PATCH 35/78] fix: skip callbacks whose owner dies (in another
 thread) just before they are called

---
 src/psygnal/_signal.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 23578a3..7523e58 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1243,7 +1243,7 @@ class SignalInstance:
         self._recursion_depth += 1
         try:
             for caller in self._iter_slots():
-                caller.cb(args)
+                _call_slot(caller, args)
         except RecursionError as e:
             raise RecursionError(
                 f"RecursionError when emitting signal {self.name!r} with args {args}"
@@ -1323,7 +1323,7 @@ class SignalInstance:
     def _run_emit_loop_immediate(self) -> None:
         args = self._emit_queue.popleft()
         for caller in self._iter_slots():
-            caller.cb(args)
+            _call_slot(caller, args)
 
     def _run_emit_loop_latest_only(self) -> None:
         args = self._emit_queue.popleft()
@@ -1332,14 +1332,14 @@ class SignalInstance:
                 # we've already entered a deeper emit loop
                 # we should drop the remaining slots in this round and return
                 break
-            caller.cb(args)
+            _call_slot(caller, args)
 
     def _run_emit_loop_queued(self) -> None:
         i = 0
         while i < len(self._emit_queue):
             args = self._emit_queue[i]
             for caller in self._iter_slots():
-                caller.cb(args)
+                _call_slot(caller, args)
                 if len(self._emit_queue) > RECURSION_LIMIT:
                     raise RecursionError
             i += 1
@@ -1527,6 +1527,16 @@ class SignalInstance:
             self._run_emit_loop_inner = self._run_emit_loop_immediate
 
 
+def _call_slot(caller: WeakCallback, args: tuple[Any, ...]) -> None:
+    """Call `caller`, ignoring it if it died in the meantime (e.g. in another thread)."""
+    try:
+        caller.cb(args)
+    except ReferenceError:
+        # (if the callback itself raised this, the traceback is keeping it alive)
+        if caller.dereference() is not None:
+            raise
+
+
 class _SignalBlocker:
     """Context manager to block and unblock a signal."""
 
-- 
2.43.0


From 02e8c478e995db3384f42db9533715e863c26f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:33 +0000
Subject: [PATCH 36/78] fix: don't skip a connected callback if another one is
 removed concurrently

---
 src/psygnal/_signal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 7523e58..eec4a68 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1317,7 +1317,9 @@ class SignalInstance:
         for i, caller in enumerate(tuple(slots)):
             # (fast path first: usually, the slot is still where it was.)
             here = slots[i : i + 1]
-            if (here and here[0] is caller) or any(s is caller for s in slots):
+            if (here and here[0] is caller) or any(
+                s is caller for s in tuple(slots)
+            ):
                 yield caller
 
     def _run_emit_loop_immediate(self) -> None:
-- 
2.43.0


From 250424d55b650b46da1ac7baaa54591ad62a9bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 37/78] fix: allow subclassing signal groups that have signals
 with reserved names

---
 src/psygnal/_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 73d7ece..ad9a237 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -347,7 +347,7 @@ class SignalGroup:
         }
         if conflicts:
             for name in conflicts:
-                if isinstance(getattr(cls, name), Signal):
+                if isinstance(cls.__dict__.get(name), Signal):
                     delattr(cls, name)
             Names = "Names" if len(conflicts) > 1 else "Name"
             Are = "are" if len(conflicts) > 1 else "is"
-- 
2.43.0


From 6d48d56ba1fb1eb9769d3dcb49dfc8eca67a5b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:24 +0000
Subject: [PATCH 38/78] fix: keep frozen msgspec structs frozen when they are
 made evented

---
 src/psygnal/_group_descriptor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index c3491af..fd2150c 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -18,7 +18,7 @@ from typing import (
     overload,
 )
 
-from ._dataclass_utils import iter_fields
+from ._dataclass_utils import is_frozen, iter_fields
 from ._group import SignalGroup
 from ._signal import Signal, SignalInstance
 
@@ -561,7 +561,9 @@ class SignalGroupDescriptor:
 
     def _do_patch_setattr(self, owner: type, with_aliases: bool = True) -> None:
         """Patch the owner class's __setattr__ method to emit events."""
-        if not self._patch_setattr:
+        if not self._patch_setattr or is_frozen(owner):
+            # (there are no changes of frozen objects... and, in the case of msgspec, it
+            # is the original __setattr__ slot that keeps them frozen)
             return
         if getattr(owner.__setattr__, PATCHED_BY_PSYGNAL, False):
             return
-- 
2.43.0


From 3aead9b68dd4d8c117258436451af2af2ae096f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:24 +0000
Subject: [PATCH 39/78] fix: don't emit when an assignment failed and the value
 does not equal itself

---
 src/psygnal/_group_descriptor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index fd2150c..4e354b7 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -314,6 +314,8 @@ class _changes_emitted:
 
     def __exit__(self, *args: Any) -> None:
         new: Any = getattr(self.obj, self.field, _NULL)
+        if new is self._prev and any(args):
+            return  # the assignment failed (NOTE: the value may not equal itself)
         if not _check_field_equality(type(self.obj), self.field, self._prev, new):
             self.signal.emit(new, self._prev)
 
-- 
2.43.0


From 6fa534174f5097f6e43290a5c8d4c4e30f4818d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:07 +0000
Subject: [PATCH 40/78] fix: emit events of EventedModel fields whose names are
 reserved in signal groups

---
 src/psygnal/_evented_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 383da8d..c588b0a 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -593,7 +593,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         with ComparisonDelayer(self):
             # Again delay comparison to avoid having events caused by callback functions
             for name, new_value in to_emit:
-                getattr(self._events, name)(new_value)
+                self._events[name](new_value)
 
     def __setattr__(self, name: str, value: Any) -> None:
         if (
@@ -638,7 +638,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         # the value may have been coerced by pydantic, use the one that was actually set
         new_value = getattr(self, name)
         if not _check_field_equality(type(self), name, new_value, old_value):
-            getattr(self._events, name)(new_value)
+            self._events[name](new_value)
 
     def _setattr_with_dependents(self, name: str, value: Any) -> None:
         """__setattr__ behavior when the class does properties."""
-- 
2.43.0


From 534eb2cc0cd9848e205e0f5c2a6eb3de81954c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:07 +0000
Subject: [PATCH 41/78] fix: don't share events between an EventedModel and its
 copies

---
 src/psygnal/_evented_model.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index c588b0a..9f2177d 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -697,6 +697,27 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
 
     else:
 
+        def __copy__(self) -> "EventedModel":
+            """Return a shallow copy, with its own events."""
+            new = super().__copy__()
+            new._reset_events()
+            return new
+
+        def __deepcopy__(
+            self, memo: Union[dict[int, Any], None] = None
+        ) -> "EventedModel":
+            """Return a deep copy, with its own events."""
+            new = super().__deepcopy__(memo)
+            new._reset_events()
+            return new
+
+        def _reset_events(self) -> None:
+            self._events = self.__signal_group__(self)  # type: ignore [misc]
+            # (the original may be in the middle of emitting its changes)
+            self._changes_queue = {}
+            self._primary_changes = set()
+            self._delay_check_semaphore = 0
+
         @classmethod
         @contextmanager
         def enums_as_values(  # type: ignore [misc] # Incompatible redefinition
-- 
2.43.0


From b56f9511b2454686320551fe21d7a2be806e6188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:07 +0000
Subject: [PATCH 42/78] fix: EventedModel.reset restores the default values of
 nested models

---
 src/psygnal/_evented_model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 9f2177d..18415eb 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -551,11 +551,16 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
 
     def reset(self) -> None:
         """Reset the state of the model to default values."""
+        self._reset_to(self._defaults)
+
+    def _reset_to(self, defaults: dict[str, Any]) -> None:
         model_config = _get_config(self)
         model_fields = _get_fields(self)
-        for name, value in self._defaults.items():
-            if isinstance(value, EventedModel):
-                cast("EventedModel", getattr(self, name)).reset()
+        for name, value in defaults.items():
+            current = getattr(self, name)
+            if isinstance(value, EventedModel) and type(current) is type(value):
+                # restore the values of nested models, keeping the object
+                current._reset_to({k: getattr(value, k) for k in _get_fields(value)})
             elif not model_config.get("frozen") and not model_fields[name].frozen:
                 setattr(self, name, value)
 
-- 
2.43.0


From 1e3673c5d262b6c01ba4b2100479d613e70307c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:07 +0000
Subject: [PATCH 43/78] fix: EventedModel.update sets values that are not
 models or dicts on nested model fields

---
 src/psygnal/_evented_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 18415eb..3550d29 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -544,7 +544,11 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         with self.events._psygnal_relay.paused():  # TODO: reduce?
             for key, value in values.items():
                 field = getattr(self, key)
-                if isinstance(field, EventedModel) and recurse:
+                if (
+                    recurse
+                    and isinstance(field, EventedModel)
+                    and isinstance(value, (pydantic.BaseModel, dict))
+                ):
                     field.update(value, recurse=recurse)
                 else:
                     setattr(self, key, value)
-- 
2.43.0


From 5e603feed71fc54c253c6bd3eec4c09aafa34ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:41 +0000
Subject: [PATCH 44/78] fix: don't include the events of an EventedModel in its
 extra fields

---
 src/psygnal/_evented_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 3550d29..cff811f 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -470,7 +470,9 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
     # when field is changed, an event for dependent properties will be emitted.
     __field_dependents__: ClassVar[dict[str, set[str]]]
     __eq_operators__: ClassVar[dict[str, "EqOperator"]]
-    __slots__ = {"__weakref__"}
+    # (in a slot because anything in the __dict__ that isn't a field is taken for an
+    # extra field by pydantic)
+    __slots__ = {"__weakref__", "_events"}
     __signal_group__: ClassVar[type[SignalGroup]]
     _changes_queue: dict[str, Any] = PrivateAttr(default_factory=dict)
     _primary_changes: set[str] = PrivateAttr(default_factory=set)
@@ -720,6 +722,10 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             new._reset_events()
             return new
 
+        def __setstate__(self, state: dict[Any, Any]) -> None:
+            super().__setstate__(state)
+            self._reset_events()
+
         def _reset_events(self) -> None:
             self._events = self.__signal_group__(self)  # type: ignore [misc]
             # (the original may be in the middle of emitting its changes)
-- 
2.43.0


From c81f2a037aa53b4904e7a153525099777cbbff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:52 +0000
Subject: [PATCH 45/78] fix: EventedModel with dependencies doesn't emit if an
 assignment failed and the value does not equal itself

---
 src/psygnal/_evented_model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index cff811f..e5df213 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -675,6 +675,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             and not len(group._psygnal_relay)  # no listeners on the SignalGroup
         ):
             return self._super_setattr_(name, value)
+        is_first_change = name not in self._primary_changes
         self._primary_changes.add(name)
         if name not in self._changes_queue:
             self._changes_queue[name] = getattr(self, name, object())
@@ -682,7 +683,14 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         for dep in deps_with_callbacks:
             if dep not in self._changes_queue:
                 self._changes_queue[dep] = getattr(self, dep, object())
-        self._super_setattr_(name, value)
+        try:
+            self._super_setattr_(name, value)
+        except Exception:
+            if is_first_change and name not in self.__property_setters__:
+                # the field was not changed (NOTE: its value may not equal itself)
+                self._primary_changes.discard(name)
+                self._changes_queue.pop(name, None)
+            raise
 
     if PYDANTIC_V1:
 
-- 
2.43.0


From f2a1c143d7e788cdb0a172cf1ea0faf22a951757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:15 +0000
Subject: [PATCH 46/78] fix: EventedModel can be changed after assigning a
 property whose getter raised

---
 src/psygnal/_evented_model.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index e5df213..135d5dc 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -676,13 +676,14 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         ):
             return self._super_setattr_(name, value)
         is_first_change = name not in self._primary_changes
+        # (getters may raise: collect all values before recording anything)
+        old_values = {
+            key: getattr(self, key, object())
+            for key in (name, *deps_with_callbacks)
+            if key not in self._changes_queue
+        }
+        self._changes_queue.update(old_values)
         self._primary_changes.add(name)
-        if name not in self._changes_queue:
-            self._changes_queue[name] = getattr(self, name, object())
-
-        for dep in deps_with_callbacks:
-            if dep not in self._changes_queue:
-                self._changes_queue[dep] = getattr(self, dep, object())
         try:
             self._super_setattr_(name, value)
         except Exception:
-- 
2.43.0


From a0539d3365bb64dd1f644d42090f0f70637bc6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:21 +0000
Subject: [PATCH 47/78] fix: report the stored value in
 EventedList.events.inserted

---
 src/psygnal/containers/_evented_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index f69f7a2..5f00a06 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -139,8 +139,8 @@ class EventedList(MutableSequence[_T]):
         _value = self._pre_insert(value)
         self.events.inserting.emit(index)
         self._data.insert(index, _value)
-        self.events.inserted.emit(index, value)
-        self._post_insert(value)
+        self.events.inserted.emit(index, _value)
+        self._post_insert(_value)
 
     @overload
     def __getitem__(self, key: int) -> _T: ...
-- 
2.43.0


From c112e6f512110701c7c0260b6d211da84c547931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:21 +0000
Subject: [PATCH 48/78] fix: raise IndexError when moving items from out of
 range indices of EventedList

---
 src/psygnal/containers/_evented_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 5f00a06..bc2edef 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -284,6 +284,7 @@ class EventedList(MutableSequence[_T]):
         Both indices refer to the list prior to any object removal
         (pre-move space).
         """
+        self._data[src_index]  # raise IndexError if out of range
         if src_index < 0:
             src_index += len(self)
         if dest_index < 0:
@@ -377,6 +378,7 @@ class EventedList(MutableSequence[_T]):
             if isinstance(idx, slice):
                 to_move.extend(list(range(*idx.indices(len(self)))))
             elif isinstance(idx, int):
+                self._data[idx]  # raise IndexError if out of range
                 to_move.append(idx if idx >= 0 else idx + len(self))
             else:
                 raise TypeError(
-- 
2.43.0


From b90652b0e415d97553137a59880e78e0f24f1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:21 +0000
Subject: [PATCH 49/78] fix: support deleting EventedList items by any
 integer-like index, like list

---
 src/psygnal/containers/_evented_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index bc2edef..af68fab 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -29,6 +29,7 @@ from typing import (
     TYPE_CHECKING,
     Any,
     Callable,
+    SupportsIndex,
     TypeVar,
     Union,
     cast,
@@ -197,7 +198,8 @@ class EventedList(MutableSequence[_T]):
 
     def _delitem_indices(self, key: Index) -> Iterable[tuple[EventedList[_T], int]]:
         # returning (self, int) allows subclasses to pass nested members
-        if isinstance(key, int):
+        if isinstance(key, SupportsIndex):
+            key = key.__index__()
             self._data[key]  # raise IndexError if out of range
             yield (self, key if key >= 0 else key + len(self))
         elif isinstance(key, slice):
-- 
2.43.0


From b28df198098325a0c6933cc5a70f0b7ff609a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:09 +0000
Subject: [PATCH 50/78] fix: don't clear a Selection when select_only is given
 a foreign item

---
 src/psygnal/containers/_selection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index c02e036..ac35067 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -133,6 +133,7 @@ class Selection(EventedOrderedSet[_T]):
 
     def select_only(self, obj: _T) -> None:
         """Unselect everything but `obj`. Add to selection if not currently selected."""
+        self._pre_add_hook(obj)  # validate before changing anything
         self.intersection_update({obj})
         self.add(obj)
 
-- 
2.43.0


From 2a83f62b4dd0dfd1611568780016e15b2aeab504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:09 +0000
Subject: [PATCH 51/78] fix: assign an iterator to the selection of a
 Selectable

---
 src/psygnal/containers/_selection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index ac35067..32696e8 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -184,5 +184,6 @@ class Selectable(Container[_S]):
     @selection.setter
     def selection(self, new_selection: Iterable[_S]) -> None:  # pragma: no cover
         """Set selection, without deleting selection model object."""
-        self._selection.intersection_update(new_selection)
-        self._selection.update(new_selection)
+        items = list(new_selection)  # (it could be an iterator)
+        self._selection.intersection_update(items)
+        self._selection.update(items)
-- 
2.43.0


From ac0ebc47ba01fbe2a9574215d18d98327f5b7f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 52/78] fix: never run a call to a throttled/debounced function
 twice

---
 src/psygnal/_throttler.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/psygnal/_throttler.py b/src/psygnal/_throttler.py
index 727220a..733e532 100644
--- a/src/psygnal/_throttler.py
+++ b/src/psygnal/_throttler.py
@@ -49,8 +49,12 @@ class _ThrottlerBase(Generic[P]):
         self.__doc__: str | None = getattr(func, "__doc__", None)
         self.__annotations__: dict[str, Any] = getattr(func, "__annotations__", {})
 
-    def _actually_call(self) -> None:
+    def _call_if_has_pending(self) -> None:
         with self._lock:
+            # (clear the flag and take the arguments at once, so that no other thread
+            # can make the same call)
+            if not self._has_pending:
+                return
             self._has_pending = False
             self._waiting = True
             self._timer_id = None  # (the timer is started again after the call)
@@ -61,14 +65,6 @@ class _ThrottlerBase(Generic[P]):
         finally:
             self._start_timer()
 
-    def _call_if_has_pending(self) -> None:
-        with self._lock:
-            if not self._has_pending:
-                return
-            self._has_pending = False
-            self._waiting = True
-        self._actually_call()
-
     def _on_timeout(self, timer_id: object) -> None:
         with self._lock:
             if timer_id is not self._timer_id:
-- 
2.43.0


From aaec9ce911b143529cfc461ccc35f6724bd42ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 53/78] fix: keep the evented proxy after in-place operators on
 immutable objects

---
 src/psygnal/containers/_evented_proxy.py | 36 +++++++++++++++---------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index 537ca8d..8ca489a 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -1,3 +1,4 @@
+import operator
 from functools import partial
 from typing import Any, Callable, Generic, TypeVar
 from weakref import finalize
@@ -38,6 +39,14 @@ class CallableProxyEvents(ProxyEvents):
 _OBJ_CACHE: dict[int, ProxyEvents] = {}
 
 
+def _in_place(proxy: Any, op: Callable[[Any, Any], Any], other: Any) -> Any:
+    """Apply in-place operator to the wrapped object (but keep the proxy)."""
+    # not all versions of wrapt return the proxy itself if the wrapped object is
+    # immutable, but then the result would have lost its events.
+    ObjectProxy.__setattr__(proxy, "__wrapped__", op(proxy.__wrapped__, other))
+    return proxy
+
+
 class EventedObjectProxy(ObjectProxy, Generic[T]):
     """Create a proxy of `target` that includes an `events` [psygnal.SignalGroup][].
 
@@ -110,56 +119,55 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
 
     def __iadd__(self, other: Any) -> T:
         self.events.in_place("add", other)
-        return super().__iadd__(other)  # type: ignore
+        return _in_place(self, operator.iadd, other)
 
     def __isub__(self, other: Any) -> T:
         self.events.in_place("sub", other)
-        return super().__isub__(other)  # type: ignore
+        return _in_place(self, operator.isub, other)
 
     def __imul__(self, other: Any) -> T:
         self.events.in_place("mul", other)
-        return super().__imul__(other)  # type: ignore
+        return _in_place(self, operator.imul, other)
 
     def __imatmul__(self, other: Any) -> T:
         self.events.in_place("matmul", other)
-        self.__wrapped__ @= other  # not in wrapt  # type: ignore
-        return self
+        return _in_place(self, operator.imatmul, other)
 
     def __itruediv__(self, other: Any) -> T:
         self.events.in_place("truediv", other)
-        return super().__itruediv__(other)  # type: ignore
+        return _in_place(self, operator.itruediv, other)
 
     def __ifloordiv__(self, other: Any) -> T:
         self.events.in_place("floordiv", other)
-        return super().__ifloordiv__(other)  # type: ignore
+        return _in_place(self, operator.ifloordiv, other)
 
     def __imod__(self, other: Any) -> T:
         self.events.in_place("mod", other)
-        return super().__imod__(other)  # type: ignore
+        return _in_place(self, operator.imod, other)
 
     def __ipow__(self, other: Any) -> T:
         self.events.in_place("pow", other)
-        return super().__ipow__(other)  # type: ignore
+        return _in_place(self, operator.ipow, other)
 
     def __ilshift__(self, other: Any) -> T:
         self.events.in_place("lshift", other)
-        return super().__ilshift__(other)  # type: ignore
+        return _in_place(self, operator.ilshift, other)
 
     def __irshift__(self, other: Any) -> T:
         self.events.in_place("rshift", other)
-        return super().__irshift__(other)  # type: ignore
+        return _in_place(self, operator.irshift, other)
 
     def __iand__(self, other: Any) -> T:
         self.events.in_place("and", other)
-        return super().__iand__(other)  # type: ignore
+        return _in_place(self, operator.iand, other)
 
     def __ixor__(self, other: Any) -> T:
         self.events.in_place("xor", other)
-        return super().__ixor__(other)  # type: ignore
+        return _in_place(self, operator.ixor, other)
 
     def __ior__(self, other: Any) -> T:
         self.events.in_place("or", other)
-        return super().__ior__(other)  # type: ignore
+        return _in_place(self, operator.ior, other)
 
 
 class EventedCallableObjectProxy(EventedObjectProxy):
-- 
2.43.0


From a24af0e98c5a2f6965a0dd944bdea39b7ea34e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:17 +0000
Subject: [PATCH 54/78] fix: set unreadable attributes and items through an
 evented proxy

---
 src/psygnal/containers/_evented_proxy.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index 8ca489a..b09d263 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -1,4 +1,5 @@
 import operator
+from collections.abc import Mapping
 from functools import partial
 from typing import Any, Callable, Generic, TypeVar
 from weakref import finalize
@@ -39,6 +40,14 @@ class CallableProxyEvents(ProxyEvents):
 _OBJ_CACHE: dict[int, ProxyEvents] = {}
 
 
+def _read(getter: Callable, obj: Any, key: Any, default: Any = _UNSET) -> Any:
+    """Return attribute or item, or `default` if it cannot be read."""
+    try:
+        return getter(obj, key)
+    except Exception:
+        return default
+
+
 def _in_place(proxy: Any, op: Callable[[Any, Any], Any], other: Any) -> Any:
     """Apply in-place operator to the wrapped object (but keep the proxy)."""
     # not all versions of wrapt return the proxy itself if the wrapped object is
@@ -89,9 +98,9 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         return _OBJ_CACHE[obj_id]
 
     def __setattr__(self, name: str, value: None) -> None:
-        before = getattr(self, name, _UNSET)
+        before = _read(getattr, self, name)
         super().__setattr__(name, value)
-        if before is not (after := getattr(self, name, _UNSET)):
+        if before is not (after := _read(getattr, self, name, default=value)):
             self.events.attribute_set(name, after)
 
     def __delattr__(self, name: str) -> None:
@@ -99,12 +108,13 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         self.events.attribute_deleted(name)
 
     def __setitem__(self, key: Any, value: Any) -> None:
-        try:
-            before = self[key]
-        except LookupError:
-            before = _UNSET
+        wrapped = self.__wrapped__
+        if isinstance(wrapped, Mapping) and key not in wrapped:
+            before = _UNSET  # (reading it could add it, e.g. to a defaultdict)
+        else:
+            before = _read(operator.getitem, wrapped, key)
         super().__setitem__(key, value)
-        if before is not (after := self[key]):
+        if before is not (after := _read(operator.getitem, wrapped, key, default=value)):
             self.events.item_set(key, after)
 
     def __delitem__(self, key: Any) -> None:
-- 
2.43.0


From 786328aaf55f68adda218e5533a03f7a0ba128b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 55/78] fix: copy of a signal made during its emission is not
 stuck in that emission

---
 src/psygnal/_signal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index eec4a68..9d4a6c2 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1494,11 +1494,8 @@ class SignalInstance:
             "_args_queue",
             "_check_nargs_on_connect",
             "_check_types_on_connect",
-            "_emit_queue",
             "_priority_in_use",
             "_reemission",
-            "_max_recursion_depth",
-            "_recursion_depth",
         )
         dd = {slot: getattr(self, slot) for slot in attrs}
         dd["_instance"] = self._instance()
@@ -1520,6 +1517,10 @@ class SignalInstance:
                 self._instance = self._instance_ref(v)
             else:
                 setattr(self, k, v)
+        # (an emission in progress remains with the original)
+        self._emit_queue = deque()
+        self._recursion_depth = 0
+        self._max_recursion_depth = 0
         self._lock = threading.RLock()
         if self._reemission == ReemissionMode.QUEUED:  # pragma: no cover
             self._run_emit_loop_inner = self._run_emit_loop_queued
-- 
2.43.0


From 87d7643913d9e954b184bfd2dd6ab4f0e4ac780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 56/78] fix: accept methods and functions with default
 arguments as logger of monitor_events

---
 src/psygnal/utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/utils.py b/src/psygnal/utils.py
index e37a290..6aede32 100644
--- a/src/psygnal/utils.py
+++ b/src/psygnal/utils.py
@@ -21,6 +21,15 @@ def _default_event_monitor(info: EmissionInfo) -> None:
     print(f"{info.signal.name}.emit{info.args!r}")
 
 
+def _n_required_args(logger: Callable) -> int:
+    """Return the number of positional arguments that have to be passed to `logger`."""
+    if (code := getattr(logger, "__code__", None)) is None:
+        return 1
+    n_args: int = code.co_argcount - len(getattr(logger, "__defaults__", None) or ())
+    # the first argument of a bound method has been passed already
+    return n_args - 1 if getattr(logger, "__self__", None) is not None else n_args
+
+
 @contextmanager
 def monitor_events(
     obj: Any | None = None,
@@ -43,8 +52,7 @@ def monitor_events(
         Whether private signals (starting with an underscore) should also be logged,
         by default False
     """
-    code = getattr(logger, "__code__", None)
-    _old_api = bool(code and code.co_argcount > 1)
+    _old_api = _n_required_args(logger) > 1
 
     if obj is None:
         # install the hook globally
-- 
2.43.0


From 2c7e71475146057745ff95c30443ddf35977f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 57/78] fix: monitor_events accepts signals with
 check_types_on_connect

---
 src/psygnal/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/utils.py b/src/psygnal/utils.py
index 6aede32..3b90c44 100644
--- a/src/psygnal/utils.py
+++ b/src/psygnal/utils.py
@@ -80,7 +80,8 @@ def monitor_events(
                 def _report(*args: Any, signal: SignalInstance = siginst) -> None:
                     logger(EmissionInfo(signal, args))
 
-            disconnectors.add(partial(siginst.disconnect, siginst.connect(_report)))
+            siginst.connect(_report, check_nargs=False, check_types=False)
+            disconnectors.add(partial(siginst.disconnect, _report))
 
     try:
         yield
-- 
2.43.0


From 4aa241708f4a808dc4e941cf49c15d99f2893b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 58/78] fix: iter_signal_instances yields signals with several
 names once

---
 src/psygnal/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/utils.py b/src/psygnal/utils.py
index 3b90c44..34bc4a6 100644
--- a/src/psygnal/utils.py
+++ b/src/psygnal/utils.py
@@ -118,15 +118,17 @@ def iter_signal_instances(
         return
 
     # Signal attached to Class
+    seen: dict[int, SignalInstance] = {}  # the same signal may be found under several names
     for n in dir(obj):
         if not include_private_attrs and n.startswith("_"):
             continue
         with suppress(AttributeError, FutureWarning):
             attr = getattr(obj, n)
-            if isinstance(attr, SignalInstance):
-                yield attr
             if isinstance(attr, SignalGroup):
-                yield attr._psygnal_relay
+                attr = attr._psygnal_relay
+            if isinstance(attr, SignalInstance) and id(attr) not in seen:
+                seen[id(attr)] = attr
+                yield attr
 
 
 _COMPILED_EXTS = (".so", ".pyd")
-- 
2.43.0


From d175d93d2ba26583c22ca545065c5a8101b7b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 59/78] fix: monitor_events leaves no loggers connected if an
 attribute of the object raises

---
 src/psygnal/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/utils.py b/src/psygnal/utils.py
index 34bc4a6..c06e304 100644
--- a/src/psygnal/utils.py
+++ b/src/psygnal/utils.py
@@ -69,7 +69,8 @@ def monitor_events(
                 stacklevel=2,
             )
         disconnectors = set()
-        for siginst in iter_signal_instances(obj, include_private_attrs):
+        # (find all of them first: nothing must remain connected if that fails)
+        for siginst in list(iter_signal_instances(obj, include_private_attrs)):
             if _old_api:
 
                 def _report(*args: Any, signal: SignalInstance = siginst) -> None:
-- 
2.43.0


From 855f361d85dca85ca82e2495e4f409a0714d4058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 60/78] fix: raise EmitLoopError if the owner of the signal has
 no truth value

---
 src/psygnal/_exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/_exceptions.py b/src/psygnal/_exceptions.py
index f87d88e..cd97c7b 100644
--- a/src/psygnal/_exceptions.py
+++ b/src/psygnal/_exceptions.py
@@ -39,7 +39,7 @@ class EmitLoopError(Exception):
         # grab the signal name or repr
         if signal is None:  # pragma: no cover
             sig_name: str = ""
-        elif instance := signal.instance:
+        elif (instance := signal.instance) is not None:
             inst_class = instance.__class__
             mod = getattr(inst_class, "__module__", "")
             if mod:
-- 
2.43.0


From 99057a19d19c46f6c6c26320922c239b8559a402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 61/78] fix: raise EmitLoopError if the exception or arguments
 cannot be formatted

---
 src/psygnal/_exceptions.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_exceptions.py b/src/psygnal/_exceptions.py
index cd97c7b..269d4be 100644
--- a/src/psygnal/_exceptions.py
+++ b/src/psygnal/_exceptions.py
@@ -9,7 +9,7 @@ from typing import TYPE_CHECKING
 import psygnal
 
 if TYPE_CHECKING:
-    from collections.abc import Container, Sequence
+    from collections.abc import Callable, Container, Sequence
 
     from ._signal import SignalInstance
 
@@ -55,7 +55,8 @@ class EmitLoopError(Exception):
         if reemission == "queued" and (depth := len(emit_queue) - 1):
             msg += (
                 "\nNOTE: reemission is set to 'queued', and this error occurred "
-                f"at a queue-depth of {depth}.\nEmitting arguments: {emit_queue[-1]})\n"
+                f"at a queue-depth of {depth}.\n"
+                f"Emitting arguments: {_safe_format(emit_queue[-1], repr)})\n"
             )
 
         super().__init__(msg)
@@ -65,7 +66,7 @@ def _build_psygnal_exception_msg(
     sig_name: str, exc: BaseException, recursion_depth: int
 ) -> str:
     msg = f"\n\nWhile emitting signal {sig_name!r}, an error occurred in a callback:"
-    line = f"\n\n  {exc.__class__.__name__}: {exc}"
+    line = f"\n\n  {exc.__class__.__name__}: {_safe_format(exc, str)}"
     msg += line + "\n  " + "-" * (len(line) - 4)
 
     if recursion_depth:
@@ -108,6 +109,14 @@ def _build_psygnal_exception_msg(
     return msg
 
 
+def _safe_format(obj: object, fmt: Callable[[object], str]) -> str:
+    """Return `fmt(obj)`, even if `obj` cannot be formatted."""
+    try:
+        return fmt(obj)
+    except Exception:
+        return object.__repr__(obj)
+
+
 def _fmt_frame(fi: inspect.FrameInfo, with_context: bool = True) -> str:
     msg = f"{fi.filename}:{fi.lineno} in {fi.function}\n"
     if with_context and (code_ctx := fi.code_context):
-- 
2.43.0


From 56b722a022f4a59bd9ad1da72f4c93f5954b0749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 62/78] fix: EventedModel uses the property setter that the
 class has, not an overridden one

---
 src/psygnal/_evented_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 135d5dc..7d62878 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -1,3 +1,4 @@
+import inspect
 import sys
 import warnings
 from collections.abc import Iterator, Mapping
@@ -283,6 +284,11 @@ class EventedMetaclass(pydantic_main.ModelMetaclass):
                     attr = attr.wrapped
                 if isinstance(attr, property) and attr.fset is not None:
                     cls.__property_setters__[key] = attr
+            # inherited properties may be overridden, here or in another base class
+            for key in cls.__property_setters__:
+                attr = inspect.getattr_static(cls, key, None)
+                if isinstance(attr, property):
+                    cls.__property_setters__[key] = attr
             for key in cls.__property_setters__:
                 recursion = emission_map.get(key, default_strategy)
                 signals[key] = Signal(object, reemission=recursion)
@@ -623,7 +629,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         # so we first check to see if this field has a property.setter.
         # if so, we use it instead.
         if name in self.__property_setters__:
-            self.__property_setters__[name].fset(self, value)  # type: ignore[misc]
+            self.__property_setters__[name].__set__(self, value)
         elif name == "_events":
             # pydantic v2 prohibits shadowing class vars, on instances
             object.__setattr__(self, name, value)
-- 
2.43.0


From 6b786df1bd55acebd1bd4612b3ebe251908ba8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 63/78] fix: an object with several SignalGroupDescriptors has
 one group for each

---
 src/psygnal/_group_descriptor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 4e354b7..8b89c1d 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -510,10 +510,6 @@ class SignalGroupDescriptor:
     ```
     """
 
-    # map of id(obj) -> SignalGroup
-    # cached here in case the object isn't modifiable
-    _instance_map: ClassVar[dict[int, SignalGroup]] = {}
-
     def __init__(
         self,
         *,
@@ -553,6 +549,10 @@ class SignalGroupDescriptor:
         self._signal_aliases = signal_aliases
 
         self._signal_groups: dict[int, type[SignalGroup]] = {}
+        # map of id(obj) -> SignalGroup
+        # cached here in case the object isn't modifiable
+        # (NOTE: not shared with the other descriptors that `obj` may have)
+        self._instance_map: dict[int, SignalGroup] = {}
 
     def __set_name__(self, owner: type, name: str) -> None:
         """Called when this descriptor is added to class `owner` as attribute `name`."""
-- 
2.43.0


From 061d852cfbacb1ca22beefc49439e13b8317a7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 64/78] fix: inherited fields of evented msgspec Structs keep
 their type

---
 src/psygnal/_dataclass_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_dataclass_utils.py b/src/psygnal/_dataclass_utils.py
index 69b039d..6fe4645 100644
--- a/src/psygnal/_dataclass_utils.py
+++ b/src/psygnal/_dataclass_utils.py
@@ -183,7 +183,10 @@ def iter_fields(
         return
 
     if is_msgspec_struct(cls):
+        # (__annotations__ only has the fields of the class itself)
+        annotations: dict[str, Any] = {}
+        for base in reversed(cls.__mro__):
+            annotations.update(getattr(base, "__annotations__", {}))
         for m_field in cls.__struct_fields__:
-            type_ = cls.__annotations__.get(m_field, None)
-            yield m_field, type_
+            yield m_field, annotations.get(m_field, None)
         return
-- 
2.43.0


From 3d047eb2f065ec60f82328e6d5f06c0eb1fcac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 65/78] fix: fall back to comparing arrays if only the previous
 value is one

---
 src/psygnal/_group_descriptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 8b89c1d..7bfe09e 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -105,7 +105,7 @@ def _check_field_equality(
         # finally, fallback to operator.is_
         np = sys.modules.get("numpy", None)
         if (
-            hasattr(after, "__array__")
+            (hasattr(after, "__array__") or hasattr(before, "__array__"))
             and np is not None
             and are_equal is not np.array_equal
         ):
-- 
2.43.0


From 6b1c94da3286702b4fa92260904901ca06ab4fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 66/78] fix: keep the order of the items of EventedOrderedSet
 fields of pydantic models

---
 src/psygnal/containers/_evented_set.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index 99baf78..daf56da 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -191,9 +191,12 @@ class _BaseMutableSet(MutableSet[_T]):
         from pydantic_core import core_schema
 
         args = get_args(source_type)
+        # (validating the items as a set would lose their order)
+        is_ordered = issubclass(cls, OrderedSet)
+        make_schema = core_schema.list_schema if is_ordered else core_schema.set_schema
         return core_schema.no_info_after_validator_function(
             function=cls,
-            schema=core_schema.set_schema(
+            schema=make_schema(
                 items_schema=handler(args[0]) if args else None,
             ),
         )
-- 
2.43.0


From d7af1965f9a7b08c3843e54c541e3489d9328b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 67/78] fix: don't change a group class that is used without
 collecting fields

---
 src/psygnal/_group_descriptor.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 7bfe09e..7d40b18 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import contextlib
-import copy
 import operator
 import sys
 import warnings
@@ -478,7 +477,8 @@ class SignalGroupDescriptor:
     collect_fields : bool, optional
         Create a signal for each field in the dataclass. If True, the `SignalGroup`
         instance will be a subclass of `signal_group_class` (SignalGroup if it is None).
-        If False, a deepcopy of `signal_group_class` will be used.
+        If False, `signal_group_class` itself will be used (or a subclass of it, if
+        `signal_aliases` are given).
         Default to True
     signal_aliases: Mapping[str, str | None] | Callable[[str], str | None] | None
         If defined, a mapping between field name and signal name. Field names that are
@@ -633,11 +633,13 @@ class SignalGroupDescriptor:
     def _create_group(self, owner: type) -> type[SignalGroup]:
         if not self._collect_fields:
             # Do not collect fields from owner class
-            Group = copy.deepcopy(self._signal_group_class)
+            Group = self._signal_group_class
 
-            # Add aliases
-            if isinstance(self._signal_aliases, dict):
-                Group._psygnal_aliases.update(self._signal_aliases)
+            # Add aliases (in a subclass: the class may be used by others)
+            if self._signal_aliases:
+                Group = type(
+                    Group.__name__, (Group,), {}, signal_aliases=self._signal_aliases
+                )
 
         else:
             # Collect fields and create SignalGroup subclass
-- 
2.43.0


From d1a05f8a44d936683ee92b2472c2e65a289ab05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 68/78] fix: use equality_operators of a descriptor that
 doesn't collect fields

---
 src/psygnal/_group_descriptor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 7d40b18..861d54a 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -640,6 +640,7 @@ class SignalGroupDescriptor:
                 Group = type(
                     Group.__name__, (Group,), {}, signal_aliases=self._signal_aliases
                 )
+            _get_eq_operator_map(owner).update(self._eqop or ())
 
         else:
             # Collect fields and create SignalGroup subclass
-- 
2.43.0


From 8768ecdf784cc153e7b35c08a25105213cb1bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:39 +0000
Subject: [PATCH 69/78] fix: don't take packages like psygnal_plugin for
 psygnal in error messages

---
 src/psygnal/_exceptions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_exceptions.py b/src/psygnal/_exceptions.py
index 269d4be..54bda31 100644
--- a/src/psygnal/_exceptions.py
+++ b/src/psygnal/_exceptions.py
@@ -14,7 +14,8 @@ if TYPE_CHECKING:
     from ._signal import SignalInstance
 
 
-ROOT = str(Path(psygnal.__file__).parent)
+# (with a separator: "psygnal_plugin" is another package)
+ROOT = str(Path(psygnal.__file__).parent) + os.sep
 
 
 class EmitLoopError(Exception):
-- 
2.43.0


From c22a52fd2175a5ab46963415bf346f28692b0608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:39 +0000
Subject: [PATCH 70/78] fix: report the arguments of the queued emission that
 failed, not the last ones

---
 src/psygnal/_signal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 9d4a6c2..11ebfa3 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -558,6 +558,7 @@ class SignalInstance:
         self._is_paused: bool = False
         self._lock = threading.RLock()
         self._emit_queue: deque[tuple] = deque()
+        self._emit_index: int = 0  # of the args in the queue that are being emitted
         self._recursion_depth: int = 0
         self._max_recursion_depth: int = 0
         self._run_emit_loop_inner: Callable[[], None]
@@ -1295,7 +1296,7 @@ class SignalInstance:
                     signal=self,
                     recursion_depth=self._recursion_depth - 1,
                     reemission=self._reemission,
-                    emit_queue=self._emit_queue,
+                    emit_queue=tuple(self._emit_queue)[: self._emit_index + 1],
                 ).with_traceback(cb_err.__traceback__)
                 # this comment will show up in the traceback
                 raise loop_err from cb_err  # emit() call ABOVE || callback error BELOW
@@ -1339,6 +1340,7 @@ class SignalInstance:
     def _run_emit_loop_queued(self) -> None:
         i = 0
         while i < len(self._emit_queue):
+            self._emit_index = i
             args = self._emit_queue[i]
             for caller in self._iter_slots():
                 _call_slot(caller, args)
@@ -1519,6 +1521,7 @@ class SignalInstance:
                 setattr(self, k, v)
         # (an emission in progress remains with the original)
         self._emit_queue = deque()
+        self._emit_index = 0
         self._recursion_depth = 0
         self._max_recursion_depth = 0
         self._lock = threading.RLock()
-- 
2.43.0


From 3cab5d53d11045f1a67491bfefd536f7d1da67c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 71/78] fix: a copy of a paused signal does not share its
 pending emissions

---
 src/psygnal/_signal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 11ebfa3..452d31f 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1501,6 +1501,7 @@ class SignalInstance:
         )
         dd = {slot: getattr(self, slot) for slot in attrs}
         dd["_instance"] = self._instance()
+        dd["_args_queue"] = list(self._args_queue)  # (not shared with a copy)
         dd["_slots"] = [x for x in self._slots if isinstance(x, StrongFunction)]
         if len(self._slots) > len(dd["_slots"]):
             warnings.warn(
-- 
2.43.0


From fc2ca2a87999f95661b8a2a6790a613cb6147a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:57 +0000
Subject: [PATCH 72/78] fix: EventedModels compare their fields only

---
 src/psygnal/_evented_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 7d62878..5550c09 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -519,7 +519,8 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         if not isinstance(other, EventedModel):
             return bool(_model_dump(self) == other)
 
-        for f_name, _ in self.__eq_operators__.items():
+        # (`__eq_operators__` also has the properties that have ever been compared)
+        for f_name in _get_fields(self):
             if not hasattr(self, f_name) or not hasattr(other, f_name):
                 return False  # pragma: no cover
             a = getattr(self, f_name)
-- 
2.43.0


From cd5c23de9228a1e20dd91fb0a7893494a61f58cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:08 +0000
Subject: [PATCH 73/78] fix: EventedModel.model_construct() creates the events

---
 src/psygnal/_evented_model.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 5550c09..59d029d 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -31,7 +31,7 @@ if TYPE_CHECKING:
     from pydantic._internal import _utils as utils
     from pydantic._internal._decorators import PydanticDescriptorProxy
     from pydantic_core import PydanticUndefined
-    from typing_extensions import TypeGuard  # py310
+    from typing_extensions import Self, TypeGuard  # py310
     from typing_extensions import dataclass_transform as dataclass_transform  # py311
 
     from ._signal import SignalInstance
@@ -738,6 +738,15 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             new._reset_events()
             return new
 
+        @classmethod
+        def model_construct(
+            cls, _fields_set: Union[set[str], None] = None, **values: Any
+        ) -> "Self":
+            """Create a model without validation (see `pydantic.BaseModel`)."""
+            new = super().model_construct(_fields_set, **values)
+            new._reset_events()
+            return new
+
         def __setstate__(self, state: dict[Any, Any]) -> None:
             super().__setstate__(state)
             self._reset_events()
-- 
2.43.0


From 6beba26b391d88326f8eabb188b931ff2d8b2f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 74/78] fix: an equality operator that fails once is not
 replaced for all later values

---
 src/psygnal/_group_descriptor.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 861d54a..8c51300 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -56,9 +56,7 @@ def _get_eq_operator_map(cls: type) -> dict[str, EqOperator]:
         return _EQ_OPERATORS.setdefault(cls, {})
 
 
-def _check_field_equality(
-    cls: type, name: str, before: Any, after: Any, _fail: bool = False
-) -> bool:
+def _check_field_equality(cls: type, name: str, before: Any, after: Any) -> bool:
     """Test if two values are equal for a given field.
 
     This function will look for a field-specific operator in the the `__eq_operators__`
@@ -75,9 +73,6 @@ def _check_field_equality(
         The value of the field before the change.
     after : Any
         The value of the field after the change.
-    _fail : bool, optional
-        If True, raise a ValueError if the field is not found in the class.
-        by default False
 
     Returns
     -------
@@ -88,19 +83,14 @@ def _check_field_equality(
         # field didn't exist to begin with (unlikely)
         return after is _NULL  # pragma: no cover
 
-    eq_map = _get_eq_operator_map(cls)
-
     # get and execute the equality operator for the field
-    are_equal = eq_map.setdefault(name, operator.eq)
+    are_equal = _get_eq_operator_map(cls).get(name, operator.eq)
     try:
         # may fail depending on the __eq__ method for the type
         return bool(are_equal(after, before))
     except Exception:
-        if _fail:
-            raise  # pragma: no cover
-
-        # if we fail, we try to pick a new equality operator
-        # if it's a numpy array, we use np.array_equal
+        # if we fail, we try another equality operator for these values (the next ones
+        # may be of another type): if it's a numpy array, we use np.array_equal
         # finally, fallback to operator.is_
         np = sys.modules.get("numpy", None)
         if (
@@ -108,14 +98,12 @@ def _check_field_equality(
             and np is not None
             and are_equal is not np.array_equal
         ):
-            eq_map[name] = np.array_equal
-            return _check_field_equality(cls, name, before, after, _fail=False)
-        else:  # pragma: no cover
-            # at some point, dask array started hitting in the above condition
-            # so we add explicit casing in _pick_equality_operator
-            # but we keep this fallback just in case
-            eq_map[name] = operator.is_
-            return _check_field_equality(cls, name, before, after, _fail=True)
+            with contextlib.suppress(Exception):
+                return bool(np.array_equal(after, before))
+        # at some point, dask array started hitting in the above condition
+        # so we add explicit casing in _pick_equality_operator
+        # but we keep this fallback just in case
+        return after is before
 
 
 def _pick_equality_operator(type_: type | None) -> EqOperator:
-- 
2.43.0


From 5c47bd93466c6ed649db34d00cd4ba2e4bead7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:18 +0000
Subject: [PATCH 75/78] fix: callbacks that refer to an evented object do not
 keep it alive

---
 src/psygnal/_group_descriptor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 8c51300..539d42a 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -599,12 +599,17 @@ class SignalGroupDescriptor:
         obj_id = id(instance)
         if obj_id not in self._instance_map:
             # cache it
-            self._instance_map[obj_id] = signal_group(instance)
+            self._instance_map[obj_id] = group = signal_group(instance)
             # also *try* to set it on the instance as well, since it will skip all the
             # __get__ logic in the future, but if it fails, no big deal.
             if self._name and self._cache_on_instance:
                 with contextlib.suppress(Exception):
-                    setattr(instance, self._name, self._instance_map[obj_id])
+                    setattr(instance, self._name, group)
+                if getattr(instance, "__dict__", {}).get(self._name) is group:
+                    # don't hold it here too: a callback that refers to `instance`
+                    # would keep it alive forever
+                    self._instance_map.pop(obj_id, None)
+                    return group
 
             # clean up the cache when the instance is deleted
             with contextlib.suppress(TypeError):  # if it's not weakref-able
-- 
2.43.0


From bfd774c23e6259e201a9ed251d80446f759a116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 76/78] fix: don't call methods of None instead of builtin
 methods whose owner died

---
 src/psygnal/_weak_callback.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index ce4f8e9..864ba7b 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -512,7 +512,8 @@ class WeakBuiltin(WeakCallback):
         return f"{obj.__class__.__qualname__}.{self._func_name}"
 
     def cb(self, args: tuple[Any, ...] = ()) -> None:
-        func = getattr(self._obj_ref(), self._func_name, None)
+        # (NOTE: `None` has some methods, too)
+        func = self.dereference()
         if func is None:
             raise ReferenceError("weakly-referenced object no longer exists")
         if self._max_args is None:
@@ -521,7 +522,8 @@ class WeakBuiltin(WeakCallback):
             func(*self._args, *args[: self._max_args])
 
     def dereference(self) -> MethodWrapperType | BuiltinMethodType | None:
-        return getattr(self._obj_ref(), self._func_name, None)
+        obj = self._obj_ref()
+        return None if obj is None else getattr(obj, self._func_name, None)
 
 
 class WeakSetattr(WeakCallback):
-- 
2.43.0


From f1689ca7dd6c6225caf5ecf82601f5cceb758f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:47 +0000
Subject: [PATCH 77/78] fix: reset fields whose default factories take the
 validated data

---
 src/psygnal/_evented_model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 59d029d..2c3233f 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -114,9 +114,15 @@ if not PYDANTIC_V1:
     ) -> dict[str, Any]:
         """Get possibly nested default values for a Model object."""
         dflt = {}
+        data = {}  # values of all fields so far, including required ones
         for k, v in obj.model_fields.items():
-            d = v.get_default(call_default_factory=True)
+            if getattr(v, "default_factory_takes_validated_data", False):
+                d = v.get_default(call_default_factory=True, validated_data=data)
+            else:
+                d = v.get_default(call_default_factory=True)
             if d is PydanticUndefined:
+                if not isinstance(obj, type) and hasattr(obj, k):
+                    data[k] = getattr(obj, k)
                 continue  # required field
             if (
                 d is None
@@ -124,7 +130,7 @@ if not PYDANTIC_V1:
                 and issubclass(v.annotation, pydantic.BaseModel)
             ):
                 d = _get_defaults(v.annotation)  # pragma: no cover
-            dflt[k] = d
+            dflt[k] = data[k] = d
         return dflt
 
     def _get_config(cls: pydantic.BaseModel) -> "ConfigDict":
-- 
2.43.0


From 47472e825ad9f64853e9980c6ae4e60fda28df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:47 +0000
Subject: [PATCH 78/78] fix: don't assign read-only computed fields in
 EventedModel.update

---
 src/psygnal/_evented_model.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 2c3233f..05c93b1 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -142,6 +142,20 @@ if not PYDANTIC_V1:
     def _model_dump(obj: pydantic.BaseModel) -> dict:
         return obj.model_dump()
 
+    def _dump_settable(obj: pydantic.BaseModel) -> dict:
+        """Like `_model_dump`, but without read-only computed fields."""
+        read_only = {
+            name
+            for name, computed in obj.__pydantic_decorators__.computed_fields.items()
+            if getattr(computed.info.wrapped_property, "fset", None) is None
+        }
+        dump = obj.model_dump(exclude=read_only)
+        for name in type(obj).model_fields:
+            value = getattr(obj, name, None)
+            if isinstance(value, pydantic.BaseModel) and name in dump:
+                dump[name] = _dump_settable(value)
+        return dump
+
     def _is_pydantic_descriptor_proxy(obj: Any) -> "TypeGuard[PydanticDescriptorProxy]":
         if (
             type(obj).__module__.startswith("pydantic")
@@ -189,6 +203,8 @@ else:
     def _model_dump(obj: pydantic.BaseModel) -> dict:
         return obj.dict()
 
+    _dump_settable = _model_dump
+
     def _is_pydantic_descriptor_proxy(obj: Any) -> "TypeGuard[PydanticDescriptorProxy]":
         return False
 
@@ -551,7 +567,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             different realized types with different fields.
         """
         if isinstance(values, pydantic.BaseModel):
-            values = _model_dump(values)
+            values = _dump_settable(values)
 
         if not isinstance(values, dict):  # pragma: no cover
             raise TypeError(f"values must be a dict or BaseModel. got {type(values)}")
-- 
2.43.0

