"""Callables of every kind, which report their calls as (tag, args)."""
from __future__ import annotations

import functools
from collections import deque

import numpy as np

try:
    from toolz import curry as _curry
except ImportError:  # pragma: no cover
    _curry = None


class Falsy:
    """Some of these objects are falsy."""

    def __bool__(self):
        return sum(map(ord, self.truth())) % 3 > 0

    def truth(self):
        return str(self.tag)


class Owner(Falsy):
    """Weakly referenceable owner of a method. Owners compare equal to each other."""

    def __init__(self, tag, sink):
        self.tag = tag
        self.sink = sink

    def __eq__(self, other):
        return isinstance(other, Owner)

    def __hash__(self):
        return 1

    def meth(self, *args):
        self.sink(self.tag, args)

    def meth2(self, *args):
        self.sink(self.tag + "'", args)

    def tagged(self, extra, *args):
        self.sink(self.tag, args)

    def kwtagged(self, *args, opt):
        assert opt == "opt"
        self.sink(self.tag, args)

    def kwtagged2(self, extra, *args, opt, opt2=2):
        assert (extra, opt, opt2) == ("extra", "opt", 2)
        self.sink(self.tag, args)

    def curried(self, extra, a, *args):
        self.sink(self.tag, (a, *args))

    def fixed(self, a):
        self.sink(self.tag, (a,))


class CallableObj(Falsy):
    def __init__(self, tag, sink):
        self.tag, self.sink = tag, sink

    def __call__(self, *args):
        self.sink(self.tag, args)

    def __hash__(self):
        return 1

    def __eq__(self, other):
        return isinstance(other, CallableObj)


class Inherits(Falsy):
    """Object with a (builtin) `__setattr__` that reports, in the end."""

    def __init__(self, tag, sink):
        self.s = (tag, sink)

    def truth(self):
        return str(self.s[0])

    def _x(self, value):
        tag, sink = self.s
        sink(tag, (value,))

    x = property(None, _x)


class CallableKw(Falsy):
    def __init__(self, tag, sink):
        self.tag, self.sink = tag, sink

    def __call__(self, extra, *args, opt):
        assert (extra, opt) == ("extra", "opt")
        self.sink(self.tag, args)


class SinkDeque(deque):
    """Weakly referenceable; `append` is a builtin method."""

    def __hash__(self):
        return id(self)


class SinkAttr(Falsy):
    """Object whose attribute/item assignment reports."""

    def __init__(self, tag, sink):
        object.__setattr__(self, "_s", (tag, sink))
        object.__setattr__(self, "x", None)

    def __setattr__(self, name, value):
        tag, sink = self._s
        sink(tag, (value,))

    def truth(self):
        return str(self._s[0])

    def __setitem__(self, key, value):
        tag, sink = self._s
        sink(tag, (value,))


KINDS = ["func", "lambda", "method", "partial", "pmethod", "obj", "kwfunc", "classmeth", "static", "fixed1", "fmeth1", "setattr", "setitem", "psetitem", "kwpmethod", "kwpmethod2", "kwpartial", "pobj", "dunder", "wrapper"]
if _curry is not None:
    KINDS += ["curry", "cmethod"]

# the kinds that own nothing weakly
STRONG = {"func", "lambda", "partial", "kwfunc", "static", "fixed1", "curry", "kwpartial"}


def make(kind, tag, sink):
    """Return (callback, owner, nmax): strong refs to both keep it alive.

    nmax: how many leading arguments it gets (None: all)
    """
    if kind == "func":

        def f(*args):
            sink(tag, args)

        return f, None, None
    if kind == "kwfunc":

        def f(*args, opt=1, **kw):
            assert not kw and opt == 1
            sink(tag, args)

        return f, None, None
    if kind == "lambda":
        return (lambda *args: sink(tag, args)), None, None
    if kind == "method":
        o = Owner(tag, sink)
        return o.meth, o, None
    if kind == "partial":

        def g(extra, *args):
            assert extra == "extra"
            sink(tag, args)

        return functools.partial(g, "extra"), None, None
    if kind == "pmethod":
        o = Owner(tag, sink)
        return functools.partial(o.tagged, "extra"), o, None
    if kind == "kwpmethod":
        o = Owner(tag, sink)
        return functools.partial(o.kwtagged, opt="opt"), o, None
    if kind == "kwpmethod2":
        o = Owner(tag, sink)
        return functools.partial(functools.partial(o.kwtagged2, "extra"), opt="opt"), o, None
    if kind == "kwpartial":

        def h(extra, *args, opt):
            assert (extra, opt) == ("extra", "opt")
            sink(tag, args)

        return functools.partial(h, "extra", opt="opt"), None, None
    if kind == "pobj":
        o = CallableKw(tag, sink)
        return functools.partial(o, "extra", opt="opt"), o, None
    if kind == "dunder":
        o = CallableObj(tag, sink)
        return o.__call__, o, None
    if kind == "wrapper":
        o = Inherits(tag, sink)
        return functools.partial(o.__setattr__, "x"), o, 1
    if kind == "obj":
        o = CallableObj(tag, sink)
        return o, o, None
    if kind == "classmeth":

        class K:
            @classmethod
            def cm(cls, *args):
                sink(tag, args)

        return K.cm, K, None
    if kind == "static":

        class K:
            @staticmethod
            def sm(*args):
                sink(tag, args)

        return K.sm, None, None
    if kind == "fixed1":

        def f(a):
            sink(tag, (a,))

        return f, None, 1
    if kind == "fmeth1":
        o = Owner(tag, sink)
        return o.fixed, o, 1
    if kind == "setattr":
        o = SinkAttr(tag, sink)
        return functools.partial(setattr, o, "x"), o, 1
    if kind == "setitem":
        o = SinkAttr(tag, sink)
        return functools.partial(o.__setitem__, "k"), o, 1
    if kind == "psetitem":
        o = SinkAttr(tag, sink)
        return functools.partial(o.__setitem__, 3), o, 1
    if kind == "curry":

        @_curry
        def c(extra, a, *args, opt=None):  # (needs at least one argument)
            if (extra, opt) != bound:
                raise AssertionError(f"curried function called with {(extra, opt)} instead of {bound}")
            sink(tag, (a, *args))

        with_keyword = sum(map(ord, str(tag))) % 2
        bound = ("extra", "opt" if with_keyword else None)
        return (c("extra", opt="opt") if with_keyword else c("extra")), None, None
    if kind == "cmethod":
        o = Owner(tag, sink)
        return _curry(o.curried)("extra"), o, None
    raise KeyError(kind)


def expected_args(args, nmax):
    return args if nmax is None else args[:nmax]


class Bomb:
    """A value that cannot be compared."""

    def __init__(self, k):
        self.k = k

    __hash__ = None

    def __eq__(self, o):
        raise RuntimeError(f"cannot compare {self!r}")

    def __repr__(self):
        return f"Bomb({self.k})"


_BOMBS = {}


def bomb(k):
    if k not in _BOMBS:
        _BOMBS[k] = Bomb(k)
    return _BOMBS[k]


def judged_equal(op, new, old):
    """The operator of the field decides; values that it cannot compare are compared as arrays if one is, else by identity (each time anew)."""
    try:
        return bool(op(new, old))
    except Exception:
        if isinstance(new, np.ndarray) or isinstance(old, np.ndarray):
            try:
                return bool(np.array_equal(new, old))
            except Exception:
                pass
        return new is old
