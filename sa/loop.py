"""Iteration protocols: the steps of a solver are kept as opaque events; the
ordered trace of events (with the state each of them sees) and the final
state of the documented loop are compared with those of the `solve` method,
unrolled for a few iterations."""
from . import lib, spec
from .lib import *

TRACE = '$trace'


def trace(st):
    return st.heap[TRACE]['t'].t


def event(st, name, *args):
    t = app('ev', trace(st), const(name), *args)
    st.setattr(TRACE, 't', VT(t))
    return t


def step(name, reads=(), havoc=(), results=None, inplace=()):
    """model of an opaque step: records an event that mentions its arguments
    and the attributes it depends on, and changes the attributes it may
    write"""
    def model(it, f, args, kwargs, st, node):
        b = it.bindargs(f, args, kwargs, st, node)
        if b is None:
            return NotImplemented
        ps = f.fi.params
        o = it.resolve(args[0], st) if args else None
        xs = [it.term(b[p], st) for p in ps if p != 'self' and p in b]
        if isinstance(o, VO):
            for r in reads:
                v = st.heap.get(o.oid, {}).get(r)
                xs.append(it.term(v, st) if v is not None else NONE)
        e = event(st, name, *xs)
        if isinstance(o, VO):
            for h in havoc:
                t = app('after', e, const(h))
                old = it.resolve(st.heap.get(o.oid, {}).get(h), st) \
                    if h in inplace else None
                if isinstance(old, VA):
                    it.write(old, t, st, node, name)
                else:
                    st.setattr(o.oid, h, it.arr(st, t))
        if results is None:
            return VT(NONE)
        if results == 1:
            return VT(app('res', e))
        return VTup(tuple(VT(app('res', e, const(i)))
                          for i in range(results)))
    model.spec = (name, reads, havoc, results)
    return model


def writes_inplace(s, meth, attrs):
    """attributes whose array is overwritten in place by a step"""
    it = s.it
    old = {a: it.resolve(s.attrs().get(a), s.st) for a in attrs
           if a in s.attrs()}
    st = s.st.copy()
    m = it.muted
    it.muted += 1
    try:
        it.call(it.getattr(s.o, meth, st), [], {}, st, None)
    except Dead:
        return ()
    finally:
        it.muted = m
    r = []
    for a, v in old.items():
        if isinstance(v, VA) and \
                it.term(v, st) is not it.term(v, s.st):
            r.append(a)
    return tuple(r)


def pure(n):
    """a function without events (displays)"""
    def model(it, f, args, kwargs, st, node):
        return VT(NONE) if not n else VTup(tuple(
            VT(sym('$disp%d' % i)) for i in range(n)))
    return model
