"""Flow-sensitive, interprocedural abstract interpreter over the syntax tree.

Nothing of the analysed program is imported or executed.  Values are abstract:
terms (``terms.py``), array references into abstract cells (so that aliasing
and in-place updates are visible), objects with attribute maps, functions,
classes.  Control-flow joins build gated (``ite``) values; symbolic loops are
summarised by a fold term computed at a fixpoint of the written locations.
"""
import ast
import os
from fractions import Fraction
from . import terms as tm
from .terms import T, const, app, kw, sym, NONE, TRUE, FALSE

REPO = os.environ.get('SA_REPO', '/repo')


# ---------------------------------------------------------------- values

class V(object):
    __slots__ = ()


class VT(V):
    """immutable value described by a term"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'VT(%s)' % self.t


class VA(V):
    """reference to (a view of) an abstract array cell"""
    __slots__ = ('cell', 'view')

    def __init__(self, cell, view=()):
        self.cell = cell
        self.view = view

    def __repr__(self):
        return 'VA(%s%s)' % (self.cell, ''.join(str(v) for v in self.view))


class VL(V):
    """reference to a list/dict cell"""
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell

    def __repr__(self):
        return 'VL(%s)' % (self.cell,)


class VTup(V):
    __slots__ = ('items', 'kind')

    def __init__(self, items, kind='tuple'):
        self.items = tuple(items)
        self.kind = kind

    def __repr__(self):
        return 'VTup%r' % (self.items,)


class VDict(V):
    __slots__ = ('d', 'open')

    def __init__(self, d, open=False):
        self.d = d          # const key -> V
        self.open = open    # may hold unknown keys

    def __repr__(self):
        return 'VDict(%r)' % (self.d,)


class VO(V):
    __slots__ = ('oid', 'cls')

    def __init__(self, oid, cls):
        self.oid = oid
        self.cls = cls

    def __repr__(self):
        return 'VO(%s:%s)' % (self.oid, self.cls)


class VF(V):
    __slots__ = ('fi', 'env', 'defaults', 'kwdefaults')

    def __init__(self, fi, env=None, defaults=(), kwdefaults=None):
        self.fi = fi
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}

    def __repr__(self):
        return 'VF(%s)' % self.fi.qual


class VB(V):
    __slots__ = ('slf', 'f')

    def __init__(self, slf, f):
        self.slf = slf
        self.f = f

    def __repr__(self):
        return 'VB(%s)' % (self.f,)


class VC(V):
    __slots__ = ('ci',)

    def __init__(self, ci):
        self.ci = ci

    def __repr__(self):
        return 'VC(%s)' % self.ci.qual


class VM(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'VM(%s)' % self.name


class VX(V):
    """external (library / builtin) named entity"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'VX(%s)' % self.name


class VS(V):
    """super() proxy"""
    __slots__ = ('ci', 'slf')

    def __init__(self, ci, slf):
        self.ci = ci
        self.slf = slf


class VP(V):
    """property / staticmethod / classmethod wrapper"""
    __slots__ = ('kind', 'f')

    def __init__(self, kind, f):
        self.kind = kind
        self.f = f


def undef_to(v, d):
    """v with its undefined alternatives replaced"""
    if v is UNDEF:
        return d
    if isinstance(v, VPhi):
        return VPhi(v.c, undef_to(v.a, d), undef_to(v.b, d))
    return v


class VOpt(V):
    """(node of) an options object.  root: id, path: tuple of keys"""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def __repr__(self):
        return 'VOpt(%s%r)' % (self.root, self.path)


class VPhi(V):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'VPhi(%s, %s, %s)' % (self.c, self.a, self.b)


class _Undef(V):
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class FuncInfo(object):
    def __init__(self, node, mod, qual, cls=None):
        self.node = node
        self.mod = mod
        self.qual = qual
        self.cls = cls
        a = node.args
        self.params = [x.arg for x in getattr(a, 'posonlyargs', [])] + \
            [x.arg for x in a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.name = getattr(node, 'name', '<lambda>')
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                          for n in _walk_noscope(node))
        self.globals = set()
        for n in _walk_noscope(node):
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)

    @property
    def file(self):
        return self.mod.file


def _walk_noscope(fn):
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo(object):
    def __init__(self, name, qual, mod, node, bases, metaclass=None):
        self.name = name
        self.qual = qual
        self.mod = mod
        self.node = node
        self.bases = bases      # list of ClassInfo or str (external)
        self.nsid = 'cls:' + qual
        self.meta = metaclass
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, ClassInfo)]
        seqs.append([b for b in self.bases if isinstance(b, ClassInfo)])
        res = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in o[1:] for o in seqs):
                    break
            else:
                break
            res.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return res

    def extbases(self):
        r = []
        for c in self.mro:
            for b in c.bases:
                if isinstance(b, str):
                    r.append(b)
        return r

    def is_sub(self, qual):
        return any(c.qual == qual for c in self.mro)

    def __repr__(self):
        return 'ClassInfo(%s)' % self.qual


class ModInfo(object):
    def __init__(self, name, file, tree, pkg):
        self.name = name
        self.file = file
        self.tree = tree
        self.pkg = pkg
        self.nsid = 'mod:' + name
        self._globals = None

    def globalnames(self):
        """names that functions of the module bind at run time"""
        if self._globals is None:
            self._globals = set()
            for n in ast.walk(self.tree):
                if isinstance(n, ast.Global):
                    self._globals |= set(n.names)
        return self._globals


# ---------------------------------------------------------------- state

class State(object):
    __slots__ = ('env', 'heap', 'cells', 'pc', 'ts')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.cells = {}
        self.pc = ()
        self.ts = {}

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.cells = dict(self.cells)
        s.pc = self.pc
        s.ts = dict(self.ts)
        return s

    def setattr(self, oid, name, v):
        d = dict(self.heap.get(oid, ()))
        d[name] = v
        self.heap[oid] = d

    def getattr(self, oid, name):
        return self.heap.get(oid, {}).get(name)


class Out(object):
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Hooks(object):
    """override to observe the analysis"""

    def call(self, it, st, name, args, kwargs, node):
        pass

    def call_result(self, it, st, name, args, kwargs, node, res):
        pass

    def attr_undef(self, it, st, obj, name, node, cond):
        pass

    def name_undef(self, it, st, name, node, cond):
        pass

    def mutate(self, it, st, cell, node, how):
        pass

    def attr_write(self, it, st, obj, name, val, node):
        pass

    def opt_read(self, it, st, opt, path, node):
        pass

    def opt_write(self, it, st, opt, path, val, node):
        pass

    def binop(self, it, st, op, l, r, node):
        pass

    def raised(self, it, st, node):
        pass

    def loop(self, it, st, node, phase):
        pass

    def ret(self, it, st, fi, val, node):
        pass

    def binding_error(self, it, st, fi, msg, node):
        pass

    def unpack_error(self, it, st, n, m, node):
        pass


AnalysisError = tm.AnalysisError


BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict)
               else __builtins__.keys())

BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div',
       ast.Pow: 'pow', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
       ast.BitAnd: 'band', ast.BitOr: 'bor', ast.BitXor: 'bxor',
       ast.MatMult: 'matmul', ast.LShift: 'shl', ast.RShift: 'shr'}
CMP = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge',
       ast.Eq: 'eq', ast.NotEq: 'ne', ast.Is: 'is', ast.In: 'in'}

MAXDEPTH = 24
UNROLL = 10     # ranges
UNROLL_SEQ = 24     # explicit sequences


class Interp(object):

    def __init__(self, base=None, hooks=None, inline=None, models=None,
                 typed=False, opaque_classes=()):
        from . import models as md
        self.md = md
        self.hooks = hooks or Hooks()
        self.inline = inline or (lambda fi: True)
        self.typed = typed          # keep casts in terms
        self.import_fallbacks = False
        self.zeroconst = True
        self.widen = 0              # >0: abstract values larger than this
        self.widened = {}
        self.counter = [0]
        self.stack = []             # FuncInfo
        self.nodes = []             # current call nodes
        self.cellinfo = {}          # cell -> dict(origin=...)
        self.mayorig = {}           # cell -> origins by loop summaries
        self.maybe_none = set()     # symbol names that may be None
        self.optinfo = {}           # root -> dict
        self.extra_models = models or {}
        self.keep = []
        self.shapes = {}
        self.cellshape = {}
        self.partials = {}
        self.callpartials = False
        self.fnmode = False
        self.opaque_classes = set(opaque_classes)
        self.tries = 0
        del RAISED[:]
        self.muted = 0
        self.loopdepth = 0
        self.steps = 0
        self.maxsteps = 4000000
        self.curnode = None
        self.mods = {} if base is None else base.mods
        self.classes = {} if base is None else base.classes
        self.static = None if base is None else base.static
        self.statichooks = None
        if base is not None:
            self.counter = [base.counter[0] + 1000000]
            self.cellinfo = dict(base.cellinfo)
            self.optinfo = dict(base.optinfo)

    # ------------------------------------------------------------ utilities
    def zeros_as_const(self):
        return self.zeroconst

    def fresh(self, prefix='k'):
        self.counter[0] += 1
        return '%s%d' % (prefix, self.counter[0])

    def newcell(self, st, content, origin=None):
        c = self.fresh('c')
        st.cells[c] = content
        if origin is not None:
            self.cellinfo[c] = origin
        return c

    def origins(self, v):
        """supplied arrays that an array may share memory with"""
        if isinstance(v, VPhi):
            return self.origins(v.a) | self.origins(v.b)
        if isinstance(v, VA):
            r = self.mayorig.get(v.cell, frozenset())
            o = self.cellinfo.get(v.cell)
            return r | {o} if o is not None else r
        return frozenset()

    def arr(self, st, t, origin=None):
        if self.fnmode:
            t = self.md.litvec(t) or t
        return VA(self.newcell(st, t, origin))

    def symarr(self, st, name, maybe_none=False, origin=None):
        if maybe_none:
            self.maybe_none.add(name)
        return self.arr(st, sym(name), origin or ('param', name))

    def newlist(self, st, items):
        return VL(self.newcell(st, VTup(items, 'list')))

    def newdict(self, st, d, open=False):
        return VL(self.newcell(st, VDict(d, open)))

    def loc(self, node=None):
        node = node or self.curnode
        fi = self.stack[-1] if self.stack else None
        f = fi.file if fi else '?'
        return '%s:%s%s' % (f, getattr(node, 'lineno', '?'),
                            ' (%s)' % fi.qual if fi else '')

    # ------------------------------------------------------------ conditions
    def lits(self, st):
        return dict(st.pc)

    def decide(self, c, st):
        if c.tag == 'c':
            return TRUE if c.a[0] else FALSE
        if st.pc:
            l = dict(st.pc)
            c = tm.assume(c, l)
            if c.tag != 'c':
                eqs = {}
                for k, v in l.items():
                    if v and k.tag == 'cmp' and k.a[0] in ('eq', 'is'):
                        x, y = k.a[1], k.a[2]
                        if x.tag == 'c':
                            x, y = y, x
                        if y.tag == 'c' and x.tag != 'c':
                            eqs[x] = y
                if eqs:
                    c2 = tm.subst(c, eqs)
                    if c2.tag == 'c':
                        c = c2
        if c.tag == 'c' and not isinstance(c.a[0], bool):
            c = const(bool(c.a[0]))
        return c

    def add_pc(self, st, c, val):
        if c.tag == 'not':
            return self.add_pc(st, c.a[0], not val)
        if c.tag == 'and' and val:
            for x in c.a[0]:
                self.add_pc(st, x, True)
            return
        if c.tag == 'c':
            return
        if c.tag == 'and' and st.pc:
            c2 = self.decide(c, st)
            if c2 is not c:
                if c2.tag != 'c':
                    self.add_pc(st, c2, val)
                return
        elif st.pc:
            # unit propagation through pending disjunctions
            st.pc = st.pc + ((c, val),)
            for k, v in st.pc:
                if not v and k.tag == 'and' and (
                        c in k.a[0] or tm.not_(c) in k.a[0]):
                    k2 = tm.assume(k, {x: y for x, y in st.pc
                                       if x is not k})
                    if k2.tag not in ('and', 'c'):
                        self.add_pc(st, k2, False)
            return
        st.pc = st.pc + ((c, val),)

    def resolve(self, v, st):
        while isinstance(v, VPhi):
            c = self.decide(v.c, st)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            else:
                a = self.resolve(v.a, st)
                b = self.resolve(v.b, st)
                if a is b:
                    return a
                if a is not v.a or b is not v.b or c is not v.c:
                    return self.mergev(c, a, b)
                return v
        if isinstance(v, VT) and v.t.tag == 'ite' and st.pc:
            t = tm.assume(v.t, dict(st.pc))
            if t is not v.t:
                return VT(t)
        return v

    # ------------------------------------------------------------ merging
    def mergev(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, VT) and isinstance(b, VT):
            return VT(tm.ite(c, a.t, b.t))
        if isinstance(a, VA) and isinstance(b, VA) and a.cell == b.cell \
                and a.view == b.view:
            return a
        if isinstance(a, VTup) and isinstance(b, VTup) and \
                len(a.items) == len(b.items) and a.kind == b.kind:
            return VTup([self.mergev(c, x, y)
                         for x, y in zip(a.items, b.items)], a.kind)
        if isinstance(a, VO) and isinstance(b, VO) and a.oid == b.oid:
            return a
        if isinstance(a, VL) and isinstance(b, VL) and a.cell == b.cell:
            return a
        if isinstance(a, VOpt) and isinstance(b, VOpt) and \
                a.root == b.root and a.path == b.path:
            return a
        if isinstance(a, VC) and isinstance(b, VC) and a.ci is b.ci:
            return a
        if isinstance(a, VF) and isinstance(b, VF) and a.fi is b.fi and \
                a.env is b.env:
            return a
        if isinstance(a, VM) and isinstance(b, VM) and a.name == b.name:
            return a
        if isinstance(a, VX) and isinstance(b, VX) and a.name == b.name:
            return a
        if isinstance(a, VB) and isinstance(b, VB):
            f = self.mergev(c, a.f, b.f)
            s = self.mergev(c, a.slf, b.slf)
            if not isinstance(f, VPhi) and not isinstance(s, VPhi):
                return VB(s, f)
        return VPhi(c, a, b)

    def mergecontent(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return tm.ite(c, a, b)
        if isinstance(a, VDict) and isinstance(b, VDict):
            d = {}
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                d[k] = self.mergev(c, a.d.get(k, UNDEF), b.d.get(k, UNDEF))
            return VDict(d, a.open or b.open)
        if isinstance(a, VTup) and isinstance(b, VTup) and \
                len(a.items) == len(b.items):
            return VTup([self.mergev(c, x, y)
                         for x, y in zip(a.items, b.items)], 'list')
        if isinstance(a, VTup) and isinstance(b, VTup):
            return VTup([VT(tm.unknown('list'))], 'openlist')
        return tm.unknown('content')

    def mergedict(self, c, a, b):
        if a is b:
            return a
        r = {}
        for k in a:
            va = a[k]
            vb = b.get(k, UNDEF)
            r[k] = va if va is vb else self.mergev(c, va, vb)
        for k in b:
            if k not in a:
                r[k] = self.mergev(c, UNDEF, b[k])
        return r

    def merge(self, c, s1, s2, pc=None):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        s = State.__new__(State)
        s.pc = pc if pc is not None else self._commonpc(s1.pc, s2.pc)
        s.env = self.mergedict(c, s1.env, s2.env)
        s.heap = {}
        for k in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(k), s2.heap.get(k)
            if k.startswith('obj:'):
                a, b = a or {}, b or {}
            if a is b or b is None:
                s.heap[k] = a
            elif a is None:
                s.heap[k] = b
            else:
                s.heap[k] = self.mergedict(c, a, b)
        s.cells = {}
        for k in s1.cells:
            a = s1.cells[k]
            b = s2.cells.get(k)
            s.cells[k] = a if (b is None or a is b) else \
                self.mergecontent(c, a, b)
        for k in s2.cells:
            if k not in s1.cells:
                s.cells[k] = s2.cells[k]
        s.ts = {}
        for k in set(s1.ts) | set(s2.ts):
            s.ts[k] = s1.ts.get(k, frozenset()) | s2.ts.get(k, frozenset())
        return s

    @staticmethod
    def _commonpc(p1, p2):
        r = []
        for a, b in zip(p1, p2):
            if a != b:
                break
            r.append(a)
        return tuple(r)

    # ------------------------------------------------------------ terms
    def content(self, st, v):
        t = st.cells.get(v.cell)
        if not isinstance(t, T):
            t = tm.unknown('nocell')
        for op in v.view:
            t = self.md.viewterm(t, op)
        return t

    def term(self, v, st):
        if isinstance(v, VT):
            return v.t
        if isinstance(v, VA):
            return self.content(st, v)
        if isinstance(v, VTup):
            return tm.tup(self.term(x, st) for x in v.items)
        if isinstance(v, VPhi):
            c = self.decide(v.c, st)
            if c is TRUE:
                return self.term(v.a, st)
            if c is FALSE:
                return self.term(v.b, st)
            return tm.ite(c, self.term(v.a, st), self.term(v.b, st))
        if isinstance(v, VL):
            c = st.cells.get(v.cell)
            if isinstance(c, VTup):
                if c.kind == 'openlist':
                    return tm.unknown('openlist')
                return tm.tup(self.term(x, st) for x in c.items)
            if isinstance(c, VDict):
                if c.open:
                    return tm.unknown('opendict')
                ks = list(c.d.items())
                if all(isinstance(k, str) for k, x in ks):
                    ks.sort(key=lambda kx: kx[0])
                return app('dict', *[tm.tup((const(k) if not isinstance(
                    k, T) else k, self.term(x, st))) for k, x in ks])
            if isinstance(c, T):
                return c
            return tm.unknown('list')
        if isinstance(v, VO):
            return sym('obj:%s' % v.oid)
        if isinstance(v, VOpt):
            return self.optterm(v)
        if isinstance(v, VF):
            return sym('fn:%s' % v.fi.qual)
        if isinstance(v, VB):
            return app('bound', self.term(v.f, st), self.term(v.slf, st))
        if isinstance(v, VC):
            return sym('class:%s' % v.ci.qual)
        if isinstance(v, VM):
            return sym('mod:%s' % v.name)
        if isinstance(v, VX):
            return sym(v.name)
        if v is UNDEF:
            return tm.unknown('undef')
        return tm.unknown(type(v).__name__)

    def optterm(self, v):
        return sym('%s[%s]' % (v.root, '.'.join(map(str, v.path))))

    def truth(self, v, st):
        """condition term for bool(v)"""
        v = self.resolve(v, st)
        if isinstance(v, VPhi):
            return tm.ite(v.c, self.truth(v.a, st), self.truth(v.b, st))
        if isinstance(v, VT):
            return self.truth_t(v.t)
        if isinstance(v, VTup):
            return const(len(v.items) > 0)
        if isinstance(v, VL):
            c = st.cells.get(v.cell)
            if isinstance(c, VTup) and c.kind != 'openlist':
                return const(len(c.items) > 0)
            if isinstance(c, VDict) and not c.open:
                return const(len(c.d) > 0)
            return app('truth', self.term(v, st))
        if isinstance(v, VA):
            return self.truth_t(self.content(st, v))
        if isinstance(v, (VO, VF, VB, VC, VM)):
            return TRUE
        if isinstance(v, VOpt):
            return TRUE
        return app('truth', self.term(v, st))

    def truth_t(self, t):
        if t.tag == 'c':
            return const(bool(t.a[0]))
        if t.tag in ('cmp', 'not', 'and'):
            return t
        if t.tag == 'ite':
            return tm.ite(t.a[0], self.truth_t(t.a[1]), self.truth_t(t.a[2]))
        if t.tag == 'app' and t.a[0] in self.md.BOOLFUNCS:
            return t
        if t.tag == 'tup':
            return const(len(t.a[0]) > 0)
        return app('truth', t)

    def is_none(self, v, st):
        v = self.resolve(v, st)
        if isinstance(v, VPhi):
            return tm.ite(v.c, self.is_none(v.a, st), self.is_none(v.b, st))
        if isinstance(v, VT):
            return self.is_none_t(v.t)
        if isinstance(v, VA):
            t = st.cells.get(v.cell)
            if not v.view and isinstance(t, T) and t.tag in ('s', 'ite'):
                return self.is_none_t(t)
            return FALSE
        if isinstance(v, VOpt):
            return FALSE
        if v is UNDEF:
            return app('isnone', tm.unknown('undef'))
        if isinstance(v, VX):
            return FALSE
        return FALSE

    def is_none_t(self, t):
        if t is NONE:
            return TRUE
        if t.tag == 'ite':
            return tm.ite(t.a[0], self.is_none_t(t.a[1]),
                          self.is_none_t(t.a[2]))
        if t.tag == 's':
            n = t.a[0]
            if n in self.maybe_none or '[' in n:
                return tm.isnone(t)
            return FALSE
        if t.tag in ('c', 'sum', 'tup', 'cmp', 'not', 'and'):
            return FALSE
        if t.tag == 'app' and t.a[0] in ('attr', 'call', 'sub', 'getattr'):
            return tm.isnone(t)
        if t.tag == 'u':
            return tm.isnone(t)
        if t.tag == 'app' and (t.a[0] in ('ntuple', 'namedtuple') or
                               t.a[0].startswith('new:')):
            return FALSE
        if t.tag == 'app' and (t.a[0].startswith('np.') or
                               t.a[0] in self.md.ARRAYFUNCS):
            return FALSE
        return tm.isnone(t)

    # ------------------------------------------------------------ modules
    def load_program(self, root=None):
        root = root or REPO
        self.root = root
        st = State()
        self.static = st
        self.files = {}
        pk = os.path.join(root, 'sporco')
        for dp, dn, fn in os.walk(pk):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, '.')
                ispkg = False
                if name.endswith('.__init__'):
                    name = name[:-9]
                    ispkg = True
                self.files[name] = (p, rel, ispkg)
        self.parse_errors = []
        for name in sorted(self.files):
            self.load_module(name)
        return self

    def load_module(self, name):
        if name in self.mods:
            return self.mods[name]
        if name not in self.files:
            return None
        p, rel, ispkg = self.files[name]
        with open(p, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, p)
        m = ModInfo(name, rel, tree, name if ispkg else
                    name.rpartition('.')[0])
        self.mods[name] = m
        # parents first
        par = name.rpartition('.')[0]
        st = self.static
        st.heap[m.nsid] = {'__name__': VT(const(name)),
                           '__file__': VT(const(rel))}
        if par and par in self.files:
            self.load_module(par)
            if par in self.mods and self.static.getattr(
                    'mod:' + par, name.rpartition('.')[2]) is None:
                self.static.setattr('mod:' + par, name.rpartition('.')[2],
                                    VM(name))
        self.exec_module(m)
        return m

    def exec_module(self, m):
        st = self.static
        fi = FuncInfo(ast.parse('def _m(): pass').body[0], m,
                      m.name + '.<module>')
        fi.globals = None   # everything is global
        saved = st.env
        st.env = {}
        self.stack.append(fi)
        self.modlevel = True
        try:
            outs = self.exec_block(tree_body(m.tree), st)
        finally:
            self.stack.pop()
        for o in outs:
            if o.kind == 'normal':
                s = o.st
                st.heap, st.cells = s.heap, s.cells
        st.env = saved
        st.pc = ()

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        outs = []
        cur = st
        for s in stmts:
            if cur is None:
                break
            os_ = self.exec_stmt(s, cur)
            cur = None
            for o in os_:
                if o.kind == 'normal':
                    cur = o.st
                else:
                    outs.append(o)
        if cur is not None:
            outs.append(Out('normal', cur))
        return outs

    def exec_stmt(self, s, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise AnalysisError('step budget exhausted at %s' % self.loc(s))
        self.curnode = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return [Out('normal', st)]
        try:
            return m(s, st)
        except Dead as d:
            return [Out('raise', st, s)]

    def s_Pass(self, s, st):
        return [Out('normal', st)]

    s_Global = s_Pass
    s_Nonlocal = s_Pass

    def s_Expr(self, s, st):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, st)
        return [Out('normal', st)]

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return [Out('normal', st)]

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return [Out('normal', st)]

    def s_AugAssign(self, s, st):
        op = BIN.get(type(s.op), 'unk')
        rhs = self.ev(s.value, st)
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.ev(ast.copy_location(
                ast.Name(tg.id, ast.Load()), tg), st)
            new = self.inplace(op, cur, rhs, st, s)
            self.assign(tg, new, st, aug=True)
        elif isinstance(tg, ast.Attribute):
            base = self.ev(tg.value, st)
            cur = self.getattr(base, tg.attr, st, tg)
            new = self.inplace(op, cur, rhs, st, s)
            self.setattr(base, tg.attr, new, st, s)
        elif isinstance(tg, ast.Subscript):
            base = self.ev(tg.value, st)
            idx = self.evindex(tg.slice, st)
            cur = self.getitem(base, idx, st, tg)
            new = self.binop(op, cur, rhs, st, s)
            self.setitem(base, idx, new, st, s)
        return [Out('normal', st)]

    def inplace(self, op, cur, rhs, st, node):
        cur = self.resolve(cur, st)
        if isinstance(cur, VA):
            t = self.binterm(op, self.term(cur, st), self.term(rhs, st))
            self.hooks.binop(self, st, op, cur, rhs, node)
            self.write(cur, t, st, node, 'aug-assign')
            return cur
        if isinstance(cur, VPhi):
            return self.fork(cur.c, st,
                             lambda s_: self.inplace(op, cur.a, rhs, s_,
                                                     node),
                             lambda s_: self.inplace(op, cur.b, rhs, s_,
                                                     node))
        if isinstance(cur, VL) and op == 'add':
            c = st.cells.get(cur.cell)
            r = self.seqitems(rhs, st)
            self.note_mutate(st, cur.cell, node, 'aug-assign')
            if isinstance(c, VTup) and c.kind == 'list' and r is not None:
                st.cells[cur.cell] = VTup(c.items + tuple(r), 'list')
            else:
                st.cells[cur.cell] = VTup([VT(tm.unknown('list'))],
                                          'openlist')
            return cur
        if isinstance(cur, VL):
            self.note_mutate(st, cur.cell, node, 'aug-assign')
            st.cells[cur.cell] = VTup([VT(tm.unknown('list'))], 'openlist')
            return cur
        return self.binop(op, cur, rhs, st, node)

    def s_Return(self, s, st):
        v = VT(NONE) if s.value is None else self.ev(s.value, st)
        if not self.muted and self.stack:
            self.hooks.ret(self, st, self.stack[-1], v, s)
        return [Out('return', st, v)]

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.muted_eval(s.exc, st)
        if not self.muted:
            self.hooks.raised(self, st, s)
            if not self.tries and not getattr(self.hooks, 'inspec', 0) and \
                    st.pc:
                RAISED.append(tuple(st.pc))
        return [Out('raise', st, s)]

    def muted_eval(self, e, st):
        try:
            return self.ev(e, st)
        except AnalysisError:
            raise
        except RecursionError:
            raise

    def s_Break(self, s, st):
        return [Out('break', st)]

    def s_Continue(self, s, st):
        return [Out('continue', st)]

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.resolve(self.ev(t.value, st), st)
                if isinstance(b, VO):
                    d = dict(st.heap.get(b.oid, {}))
                    d.pop(t.attr, None)
                    st.heap[b.oid] = d
        return [Out('normal', st)]

    def s_Assert(self, s, st):
        c = self.decide(self.truth(self.ev(s.test, st), st), st)
        if c is not TRUE and c is not FALSE:
            self.add_pc(st, c, True)
        return [Out('normal', st)]

    def s_If(self, s, st):
        v = self.ev(s.test, st)
        c = self.decide(self.truth(v, st), st)
        if c is TRUE:
            return self.exec_block(s.body, st)
        if c is FALSE:
            return self.exec_block(s.orelse, st)
        pre = st.pc
        s1 = st.copy()
        s2 = st
        self.add_pc(s1, c, True)
        self.add_pc(s2, c, False)
        o1 = self.exec_block(s.body, s1)
        o2 = self.exec_block(s.orelse, s2)
        outs = [o for o in o1 + o2 if o.kind != 'normal']
        n1 = next((o.st for o in o1 if o.kind == 'normal'), None)
        n2 = next((o.st for o in o2 if o.kind == 'normal'), None)
        if n1 is not None and n2 is not None:
            outs.append(Out('normal', self.merge(c, n1, n2, pre)))
        elif n1 is not None or n2 is not None:
            outs.append(Out('normal', n1 or n2))
        return outs

    def fork(self, c, st, f1, f2):
        """evaluate f1 under c and f2 under not c; merges effects into st"""
        c = self.decide(c, st)
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        pre = st.pc
        s1 = st.copy()
        s2 = st.copy()
        self.add_pc(s1, c, True)
        self.add_pc(s2, c, False)
        try:
            v1 = f1(s1)
        except Dead:
            v1 = DEAD
        try:
            v2 = f2(s2)
        except Dead:
            v2 = DEAD
        if v1 is DEAD and v2 is DEAD:
            raise Dead(st)
        if v1 is DEAD:
            self.become(st, s2)
            return v2
        if v2 is DEAD:
            self.become(st, s1)
            return v1
        m = self.merge(c, s1, s2, pre)
        self.become(st, m)
        return self.mergev(c, v1, v2)

    def become(self, st, m):
        st.env, st.heap, st.cells, st.pc, st.ts = \
            m.env, m.heap, m.cells, m.pc, m.ts

    def s_Try(self, s, st):
        pre = st.copy()
        # state in which a handler may start: any point of the body
        self.tries += 1 if s.handlers else 0
        try:
            outs = self.exec_block(s.body, st)
        finally:
            self.tries -= 1 if s.handlers else 0
        res = [o for o in outs if o.kind not in ('normal', 'raise')]
        norm = next((o.st for o in outs if o.kind == 'normal'), None)
        raises = [o for o in outs if o.kind == 'raise']
        if norm is not None and s.orelse:
            o2 = self.exec_block(s.orelse, norm)
            res += [o for o in o2 if o.kind != 'normal']
            norm = next((o.st for o in o2 if o.kind == 'normal'), None)
        handlers = s.handlers
        if any(isinstance(n, (ast.Import, ast.ImportFrom)) for n in s.body) \
                and norm is not None and not self.import_fallbacks:
            handlers = []   # optional dependency assumed importable
        for i, h in enumerate(handlers):
            hs = pre.copy()
            c = app('exc', const('%s:%d' % (
                self.stack[-1].qual if self.stack else '', i)),
                self.exckey(s, hs))
            c = self.decide(c, hs)
            if c is FALSE:
                continue
            self.add_pc(hs, c, True)
            if h.name:
                hs.env[h.name] = VT(tm.unknown('exc'))
            o3 = self.exec_block(h.body, hs)
            res += [o for o in o3 if o.kind != 'normal']
            hn = next((o.st for o in o3 if o.kind == 'normal'), None)
            if hn is not None:
                if norm is None:
                    norm = hn
                else:
                    norm = self.merge(c, hn, norm, pre.pc)
        if not s.handlers:
            res += raises
        if s.finalbody:
            fin = []
            if norm is not None:
                o4 = self.exec_block(s.finalbody, norm)
                fin += [o for o in o4 if o.kind != 'normal']
                norm = next((o.st for o in o4 if o.kind == 'normal'), None)
            r2 = []
            for o in res:
                o5 = self.exec_block(s.finalbody, o.st)
                for x in o5:
                    if x.kind == 'normal':
                        r2.append(Out(o.kind, x.st, o.val))
                    else:
                        r2.append(x)
            res = r2 + fin
        if norm is not None:
            res.append(Out('normal', norm))
        return res

    def exckey(self, s, st):
        # a stable key: the imported module for import guards
        for n in s.body:
            if isinstance(n, ast.Import):
                return const('import ' + n.names[0].name)
            if isinstance(n, ast.ImportFrom):
                return const('import %s' % n.module)
        return const('try')

    s_TryStar = s_Try

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                r = v
                rv = self.resolve(v, st)
                if isinstance(rv, VO):
                    m = self.lookup(rv.cls, '__enter__', st)
                    if m is not None:
                        r = self.call(VB(rv, m), [], {}, st, s)
                self.assign(it.optional_vars, r, st)
        return self.exec_block(s.body, st)

    def s_Import(self, s, st):
        for a in s.names:
            top = a.name.split('.')[0]
            if a.asname:
                self.bind(a.asname, self.module(a.name, st), st)
            else:
                if a.name in self.files_():
                    self.load_module(a.name)
                    self.sync(st)
                self.bind(top, self.module(top, st), st)
        return [Out('normal', st)]

    def files_(self):
        return getattr(self, 'files', None) or {}

    def sync(self, st):
        """pick up namespaces of modules loaded meanwhile"""
        if self.static is not None and st is not self.static:
            for k, d in self.static.heap.items():
                if k not in st.heap:
                    st.heap[k] = d
                elif k.startswith('mod:') and len(d) > len(st.heap[k]):
                    n = dict(d)
                    n.update(st.heap[k])
                    st.heap[k] = n
            for k, c in self.static.cells.items():
                if k not in st.cells:
                    st.cells[k] = c

    def module(self, name, st):
        if name in self.mods:
            return VM(name)
        if name in self.files_():
            self.load_module(name)
            self.sync(st)
            return VM(name)
        return VM(self.md.MODALIAS.get(name, name))

    def s_ImportFrom(self, s, st):
        m = self.stack[-1].mod
        name = s.module or ''
        if s.level:
            base = m.pkg
            for _ in range(s.level - 1):
                base = base.rpartition('.')[0]
            name = base + ('.' + name if name else '')
        if name in ('__future__', 'future', 'builtins'):
            for a in s.names:
                if name == 'builtins':
                    self.bind(a.asname or a.name, VX(a.name), st)
            return [Out('normal', st)]
        mod = self.module(name, st)
        for a in s.names:
            if a.name == '*':
                if mod.name in self.mods:
                    ns = st.heap.get('mod:' + mod.name, {})
                    al = ns.get('__all__')
                    names = None
                    if al is not None:
                        it = self.seqitems(al, st)
                        if it is not None:
                            names = [x.t.a[0] for x in it
                                     if isinstance(x, VT) and
                                     x.t.tag == 'c']
                    if names is None:
                        names = [k for k in ns if not k.startswith('_')]
                    for k in names:
                        if k in ns:
                            self.bind(k, ns[k], st)
                continue
            full = name + '.' + a.name
            if full in self.files_() and full not in self.mods:
                self.load_module(full)
                self.sync(st)
            if mod.name in self.mods:
                v = st.getattr('mod:' + mod.name, a.name)
                if v is None and full in self.mods:
                    v = VM(full)
                if v is None:
                    self.hooks.name_undef(self, st, full, s, TRUE)
                    v = VT(tm.unknown(full))
            else:
                full = mod.name + '.' + a.name
                v = VT(self.md.EXTCONST[full]) if full in self.md.EXTCONST \
                    else VX(full)
            self.bind(a.asname or a.name, v, st)
        return [Out('normal', st)]

    def widen_t(self, t):
        if self.widen <= 0 or tm.size(t) <= self.widen:
            return t
        if t.tag == 'ite':
            c = t.a[0]
            if tm.size(c) > self.widen:
                c = app('truth', self.widesym(c))
            return tm.ite(c, self.widen_t(t.a[1]), self.widen_t(t.a[2]))
        if t.tag == 'tup':
            return tm.tup(self.widen_t(x) for x in t.a[0])
        if t.unk:
            return tm.unknown('wide')
        return self.widesym(t)

    def widesym(self, t):
        w = self.widened.get(t)
        if w is None:
            w = self.widened[t] = sym('w:%d' % len(self.widened))
        return w

    def widen_v(self, v, st):
        if isinstance(v, VT):
            t = self.widen_t(v.t)
            return v if t is v.t else VT(t)
        if isinstance(v, VA):
            c = st.cells.get(v.cell)
            if isinstance(c, T):
                t = self.widen_t(c)
                if t is not c:
                    st.cells[v.cell] = t
            return v
        if isinstance(v, VTup):
            return VTup([self.widen_v(x, st) for x in v.items], v.kind)
        if isinstance(v, VPhi):
            c = v.c
            if tm.size(c) > self.widen:
                c = app('truth', self.widesym(c))
            return VPhi(c, self.widen_v(v.a, st), self.widen_v(v.b, st))
        return v

    def bind(self, name, v, st):
        if self.widen:
            v = self.widen_v(v, st)
        fi = self.stack[-1]
        if fi.globals is None:
            if getattr(self, 'classenv', None):
                st.env[name] = v
            else:
                st.setattr(fi.mod.nsid, name, v)
        elif name in fi.globals:
            st.setattr(fi.mod.nsid, name, v)
        else:
            st.env[name] = v

    def mkfunc(self, node, st, cls=None):
        fi0 = self.stack[-1]
        qual = (cls + '.' if cls else
                (fi0.qual + '.' if fi0.globals is not None or
                 not fi0.qual.endswith('<module>') else
                 fi0.mod.name + '.')) + getattr(node, 'name', '<lambda>')
        key = (id(node), qual)
        cache = getattr(self, '_ficache', None)
        if cache is None:
            cache = self._ficache = {}
        fi = cache.get(key)
        if fi is None:
            fi = FuncInfo(node, fi0.mod, qual)
            cache[key] = fi
        a = node.args
        defaults = [self.ev(d, st) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d, st)
        env = None
        if fi0.globals is not None:
            env = dict(st.env)
        elif st.env and not getattr(self, 'classenv', None):
            env = dict(st.env)
        elif getattr(self, 'enclenv', None):
            env = dict(self.enclenv)
        return VF(fi, env, defaults, kwd)

    def s_FunctionDef(self, s, st):
        f = self.mkfunc(s, st, getattr(self, 'classenv', None))
        v = f
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Name) and d.id in (
                    'property', 'staticmethod', 'classmethod'):
                v = VP(d.id, v)
            elif isinstance(d, ast.Attribute) and d.attr in ('setter',
                                                             'getter'):
                v = VP('property', v) if d.attr == 'getter' else \
                    st.env.get(s.name, VP('property', v))
            else:
                dv = self.ev(d, st)
                if isinstance(dv, VF):
                    v = self.call(dv, [v], {}, st, s)
        if isinstance(v, VF) and getattr(self, 'classenv', None):
            pass
        self.bind(s.name, v, st)
        return [Out('normal', st)]

    def s_ClassDef(self, s, st):
        fi0 = self.stack[-1]
        outer = getattr(self, 'classenv', None)
        if outer:
            qual = outer + '.' + s.name
        elif fi0.globals is None:
            qual = fi0.mod.name + '.' + s.name
        else:
            qual = fi0.qual + '.' + s.name
        bases = []
        meta = None
        for k_ in s.keywords:
            if k_.arg == 'metaclass':
                mv = self.resolve(self.ev(k_.value, st), st)
                if isinstance(mv, VC):
                    meta = mv.ci
        for b in s.bases:
            bv = self.resolve(self.ev(b, st), st)
            if isinstance(bv, VC):
                bases.append(bv.ci)
                if meta is None:
                    meta = bv.ci.meta
            elif isinstance(bv, VX):
                bases.append(bv.name)
            elif isinstance(bv, (VT, VA)) and \
                    self.term(bv, st).tag == 'app' and \
                    self.term(bv, st).a[0] == 'future.utils.with_metaclass':
                bases.append('object')
                for x in self.term(bv, st).a[1]:
                    if x.tag == 's' and x.a[0].startswith('class:'):
                        c_ = self.classes.get(x.a[0][6:])
                        if c_ is not None and 'type' in c_.extbases():
                            meta = c_
            else:
                bases.append(str(self.term(bv, st)))
        ci = ClassInfo(s.name, qual, fi0.mod, s, bases)
        ci.meta = meta
        if fi0.globals is not None:
            ci.nsid = 'cls:%s#%s' % (qual, self.fresh('d'))
        ns = {}
        # run the class body in its own env whose fallback is the enclosing
        saved = st.env
        savedcls = outer
        st.env = dict() if fi0.globals is None and not outer else dict(saved)
        base_env = st.env.copy()
        self.classenv = qual
        saveencl = getattr(self, 'enclenv', None)
        if fi0.globals is not None:
            self.enclenv = saved
        elif not outer:
            self.enclenv = None
        fake = FuncInfo(ast.parse('def _c(): pass').body[0], fi0.mod,
                        qual + '.<class>')
        fake.globals = None
        self.stack.append(fake)
        try:
            outs = self.exec_block(s.body, st)
        finally:
            self.stack.pop()
            self.classenv = savedcls
            self.enclenv = saveencl
        s2 = next((o.st for o in outs if o.kind == 'normal'), st)
        ns = {k: v for k, v in s2.env.items()
              if k not in base_env or base_env[k] is not v}
        self.become(st, s2)
        st.env = saved
        for k, v in ns.items():
            f = v.f if isinstance(v, VP) else v
            if isinstance(f, VF) and f.fi.qual == qual + '.' + f.fi.name:
                f.fi.cls = ci
                if f.env is not None and fi0.globals is not None:
                    f.env[s.name] = VC(ci)
        st.heap[ci.nsid] = ns
        if self.static is not None and st is self.static:
            pass
        self.classes[qual] = ci
        v = VC(ci)
        self.bind(s.name, v, st)
        if meta is not None:
            mi = self.lookup(meta, '__init__', st)
            if isinstance(mi, VF):
                try:
                    self.call(mi, [v], {}, st, s)
                except Dead:
                    pass
        return [Out('normal', st)]

    # ------------------------------------------------------------ loops
    def s_For(self, s, st):
        itv = self.ev(s.iter, st)
        items = self.iteritems(itv, st, s.iter)
        if items is not None and len(items) <= UNROLL_SEQ:
            return self.unrolled(s, items, st)
        return self.symloop(s, itv, st)

    def unrolled(self, s, items, st):
        outs = []
        cur = st
        brks = []
        for x in items:
            if cur is None:
                break
            self.assign(s.target, x, cur)
            os_ = self.exec_block(s.body, cur)
            cur = None
            conts = []
            for o in os_:
                if o.kind == 'normal':
                    conts.append(o.st)
                elif o.kind == 'continue':
                    conts.insert(0, o.st)
                elif o.kind == 'break':
                    brks.append(o.st)
                else:
                    outs.append(o)
            cur = self.mergemany(conts)
        if cur is not None and s.orelse:
            oe = self.exec_block(s.orelse, cur)
            outs += [o for o in oe if o.kind != 'normal']
            cur = next((o.st for o in oe if o.kind == 'normal'), None)
        end = self.mergemany(brks + ([cur] if cur is not None else []))
        if end is not None:
            outs.append(Out('normal', end))
        return outs

    def mergemany(self, sts):
        """merge states (earlier ones take priority by their path cond)"""
        if not sts:
            return None
        acc = sts[-1]
        for s in reversed(sts[:-1]):
            common = self._commonpc(s.pc, acc.pc)
            g = self.guard(s.pc[len(common):])
            acc = self.merge(g, s, acc, common)
        return acc

    def guard(self, pcs):
        cs = []
        for c, v in pcs:
            cs.append(c if v else tm.not_(c))
        return tm.and_(*cs)

    def s_While(self, s, st):
        c = self.decide(self.truth(self.muted_cond(s.test, st), st), st)
        if c is FALSE:
            return self.exec_block(s.orelse, st)
        if self.unroll_while and not s.orelse:
            r = self.unrolled_while(s, st)
            if r is not None:
                return r
        return self.symloop(s, None, st)

    unroll_while = 0

    def unrolled_while(self, s, st):
        """a loop that provably ends within a few rounds"""
        st0 = st
        cur = st.copy()
        exits, outs = [], []
        for i in range(self.unroll_while + 1):
            c = self.decide(self.truth(self.ev(s.test, cur), cur), cur)
            if c is FALSE:
                exits.append(cur)
                cur = None
                break
            if i == self.unroll_while:
                return None
            if c is not TRUE:
                ex = cur.copy()
                self.add_pc(ex, c, False)
                exits.append(ex)
                self.add_pc(cur, c, True)
            conts = []
            for o in self.exec_block(s.body, cur):
                if o.kind == 'normal':
                    conts.append(o.st)
                elif o.kind == 'continue':
                    conts.insert(0, o.st)
                elif o.kind == 'break':
                    exits.append(o.st)
                else:
                    outs.append(o)
            cur = self.mergemany(conts)
            if cur is None:
                break
        end = self.mergemany(exits)
        if end is not None:
            outs.append(Out('normal', end))
        return outs

    def muted_cond(self, test, st):
        self.muted += 1
        try:
            return self.ev(test, st.copy())
        finally:
            self.muted -= 1

    def symloop(self, s, itv, st):
        """symbolic loop: fixpoint on written locations, fold summary"""
        depth = self.loopdepth
        self.loopdepth += 1
        pre = st.copy()
        W = {}          # location -> placeholder name
        isfor = isinstance(s, ast.For)
        idx = sym('$i%d' % depth)
        result = None
        carried = {}
        for attempt in range(8):
            cur = pre.copy()
            for loc, ph in W.items():
                self.havoc(cur, loc, ph, pre, carried)
            final_try = attempt == 7
            self.muted += 1
            try:
                os_ = self.loopbody(s, itv, idx, cur.copy())
            finally:
                self.muted -= 1
            new = set()
            for o in os_:
                if o.kind in ('normal', 'continue', 'break'):
                    new |= self.written(cur, o.st)
            tsn = self.tsgrow(pre, os_)
            add = [w for w in new if w not in W]
            grown = self.carry(W, add, carried, os_)
            if not add and not tsn and not grown:
                break
            for w in sorted(add, key=str):
                W[w] = '$w%d_%d' % (depth, len(W))
        # final (observed) pass
        cur = pre.copy()
        for loc, ph in W.items():
            self.havoc(cur, loc, ph, pre, carried)
        start = cur.copy()
        if not self.muted:
            self.hooks.loop(self, cur, s, 'enter')
        os_ = self.loopbody(s, itv, idx, cur)
        outs = []
        ends, brks = [], []
        for o in os_:
            if o.kind in ('normal',):
                ends.append(o.st)
            elif o.kind == 'continue':
                ends.insert(0, o.st)
            elif o.kind == 'break':
                brks.append(o.st)
            elif o.kind == 'return':
                # a return inside a symbolic loop: taken in some iteration
                c = app('loopret', self.itterm(s, itv, pre),
                        self.guard(o.st.pc[len(pre.pc):]))
                o.st.pc = pre.pc + ((c, True),)
                outs.append(o)
            else:
                outs.append(o)
        end = self.mergemany(ends)
        post = pre.copy()
        hasbrk = bool(brks)
        brkg = tm.or_(*[self.guard(b.pc[len(pre.pc):]) for b in brks]) \
            if brks else None
        allst = self.mergemany(brks + ([end] if end is not None else []))
        itt = self.itterm(s, itv, pre)
        if allst is not None:
            self.fold(s, itt, W, pre, start, allst, post, brkg)
            self.keeporigins(W, carried, pre, post)
            # cells created in the loop may be referenced by folded values
            for k, c in allst.cells.items():
                if k not in post.cells:
                    post.cells[k] = c
            for k, h in allst.heap.items():
                if k not in post.heap:
                    post.heap[k] = h
            post.ts = {}
            for k in set(pre.ts) | set(allst.ts):
                post.ts[k] = pre.ts.get(k, frozenset()) | \
                    allst.ts.get(k, frozenset())
        self.loopdepth -= 1
        if not self.muted:
            self.hooks.loop(self, post, s, 'exit')
        if outs:
            for o in outs:
                if o.kind == 'return':
                    pass
            self.add_pc_loop(post, outs)
        if allst is None and post.pc is pre.pc:
            # the body never completes: only zero iterations get here
            post.pc = post.pc + ((app('truth', sym('$trip0')), False),)
        infinite = (not isfor and isinstance(s.test, ast.Constant) and
                    s.test.value and not brks)
        if not infinite:
            if s.orelse and not hasbrk:
                oe = self.exec_block(s.orelse, post)
                outs += oe
            else:
                outs.append(Out('normal', post))
        return outs

    def add_pc_loop(self, post, outs):
        pass

    def tsgrow(self, pre, outs):
        grew = False
        for o in outs:
            if o.kind in ('normal', 'continue'):
                for k, v in o.st.ts.items():
                    if not v <= pre.ts.get(k, frozenset()):
                        pre.ts[k] = pre.ts.get(k, frozenset()) | v
                        grew = True
        return grew

    def itterm(self, s, itv, st):
        if itv is None:
            return app('while')
        return self.term(itv, st)

    def loopbody(self, s, itv, idx, st):
        if isinstance(s, ast.For):
            el = self.element(itv, idx, st, s.iter)
            self.assign(s.target, el, st)
            return self.exec_block(s.body, st)
        c = self.decide(self.truth(self.ev(s.test, st), st), st)
        if c is FALSE:
            return [Out('normal', st)]
        if c is not TRUE:
            self.add_pc(st, c, True)
        return self.exec_block(s.body, st)

    def written(self, a, b):
        r = set()
        for k, v in b.env.items():
            if a.env.get(k) is not v:
                r.add(('e', k))
        for oid, d in b.heap.items():
            d0 = a.heap.get(oid)
            if d0 is d or d0 is None:
                continue
            for k, v in d.items():
                if d0.get(k) is not v:
                    r.add(('h', oid, k))
        for c, v in b.cells.items():
            if c in a.cells and a.cells[c] is not v:
                r.add(('c', c))
        return r

    def getloc(self, st, loc):
        if loc[0] == 'e':
            return st.env.get(loc[1], UNDEF)
        if loc[0] == 'h':
            return st.heap.get(loc[1], {}).get(loc[2], UNDEF)
        return st.cells.get(loc[1])

    def putloc(self, st, loc, v):
        if loc[0] == 'e':
            st.env[loc[1]] = v
        elif loc[0] == 'h':
            st.setattr(loc[1], loc[2], v)
        else:
            st.cells[loc[1]] = v

    def carry(self, W, add, carried, outs):
        """origins of the arrays at the end of a loop iteration"""
        grown = False
        for o in outs:
            if o.kind in ('normal', 'continue', 'break'):
                for loc in list(W) + add:
                    if loc[0] != 'c':
                        v = self.getloc(o.st, loc)
                        s = self.origins(v) if isinstance(v, V) else ()
                        if not carried.get(loc, frozenset()) >= set(s):
                            carried[loc] = carried.get(
                                loc, frozenset()) | s
                            grown = True
        return grown

    def keeporigins(self, W, carried, pre, st):
        for loc in W:
            if loc[0] != 'c':
                v, w = self.getloc(st, loc), self.getloc(pre, loc)
                o = carried.get(loc, frozenset())
                if isinstance(w, V):
                    o = o | self.origins(w)
                if o and isinstance(v, VA) and v.cell not in self.cellinfo:
                    self.mayorig[v.cell] = self.mayorig.get(
                        v.cell, frozenset()) | o

    def havoc(self, st, loc, ph, pre, carried):
        self.havoc_(st, loc, ph, pre)
        self.keeporigins([loc], carried, pre, st)

    def havoc_(self, st, loc, ph, pre):
        v = self.getloc(pre, loc)
        t = sym(ph)
        if loc[0] == 'c':
            if isinstance(v, T):
                st.cells[loc[1]] = t
            elif isinstance(v, VTup):
                st.cells[loc[1]] = VTup([VT(t)], 'openlist')
            elif isinstance(v, VDict):
                st.cells[loc[1]] = VDict(dict(v.d), True)
            return
        if v is UNDEF or v is None:
            return
        if isinstance(v, (VT,)):
            # a None-initialised slot may stay None
            if self.is_none(v, pre) is not FALSE:
                self.maybe_none.add(ph)
            self.putloc(st, loc, VT(t))
        elif isinstance(v, VA):
            self.putloc(st, loc, self.arr(st, t))
        elif isinstance(v, VPhi):
            if self.is_none(v, pre) is not FALSE:
                self.maybe_none.add(ph)
            self.putloc(st, loc, self.havocphi(v, t, st))
        elif isinstance(v, VTup):
            self.putloc(st, loc, VTup(
                [VT(app('item', t, const(i))) for i in range(len(v.items))],
                v.kind))
        # objects, functions: keep (identity assumed stable)

    def havocphi(self, v, t, st):
        def leaves(x):
            if isinstance(x, VPhi):
                return leaves(x.a) + leaves(x.b)
            return [x]
        ls = leaves(v)
        if any(isinstance(x, VA) for x in ls) and \
                all(isinstance(x, (VA, VT)) or x is UNDEF for x in ls):
            return self.arr(st, t)
        if all(isinstance(x, VT) or x is UNDEF for x in ls):
            return VT(t)
        return v

    def fold(self, s, itt, W, pre, start, end, post, brkg):
        locs = list(W)
        ph = {sym(W[l]): l for l in locs}
        newt = {}
        for l in locs:
            ev = self.getloc(end, l)
            if l[0] == 'c':
                if isinstance(ev, T):
                    newt[l] = ev
            elif ev is not UNDEF and ev is not None and not isinstance(
                    ev, (VO, VF, VB, VC, VM, VOpt)):
                newt[l] = self.term(ev, end)
        memo = {}

        def closure(l):
            order = []

            def visit(x):
                if x in order:
                    return
                order.append(x)
                t = newt.get(x)
                if t is None:
                    return
                for y in tm.walk(t):
                    if y in ph:
                        visit(ph[y])
            visit(l)
            return order

        def initterm(x):
            iv = self.getloc(pre, x)
            if isinstance(iv, T):
                return iv
            if iv is UNDEF or iv is None or isinstance(iv, (VTup, VDict)) \
                    and x[0] == 'c':
                return sym('$undef')
            return self.term(iv, pre)

        for l in locs:
            iv = self.getloc(pre, l)
            ev = self.getloc(end, l)
            if l not in newt:
                if l[0] != 'c' and isinstance(ev, (VO, VF, VB, VC, VM,
                                                   VOpt)):
                    if ev is not iv:
                        self.putloc(post, l, ev if iv is UNDEF else
                                    VPhi(app('looped', itt), ev, iv)
                                    if iv is not None else ev)
                elif l[0] == 'c':
                    if isinstance(iv, VTup):
                        post.cells[l[1]] = self.foldlist(iv, ev, itt)
                    elif isinstance(iv, VDict):
                        d = dict(iv.d)
                        post.cells[l[1]] = VDict(d, True)
                    else:
                        post.cells[l[1]] = tm.unknown('loop')
                continue
            cl = closure(l)
            ren = {sym(W[x]): sym('$a%d_%d' % (self.loopdepth - 1, i))
                   for i, x in enumerate(cl)}
            body = newt[l]
            dep = any(sym(W[l]) is y for y in tm.walk(body))
            if iv is UNDEF and not any(y in ph for y in tm.walk(body)):
                t = app('last', itt, body)
            else:
                parts = []
                for x in cl:
                    bt = newt.get(x)
                    bt = tm.subst(bt, ren) if bt is not None else \
                        tm.unknown('loopvar')
                    parts.append(tm.tup((initterm(x), bt)))
                extra = ()
                if brkg is not None:
                    extra = (kw('break', tm.subst(brkg, ren)),)
                t = app('fold', itt, *(tuple(parts) + extra))
            if l[0] == 'c':
                post.cells[l[1]] = t
            elif isinstance(ev, VA) or isinstance(iv, VA):
                if isinstance(ev, VA) and isinstance(iv, VA) and \
                        ev.cell == iv.cell:
                    self.putloc(post, l, iv)
                else:
                    org = self.cellinfo.get(ev.cell) \
                        if isinstance(ev, VA) else None
                    self.putloc(post, l, self.arr(post, t, org))
            elif isinstance(ev, VTup):
                self.putloc(post, l, VTup(
                    [VT(app('item', t, const(i)))
                     for i in range(len(ev.items))], ev.kind))
            elif isinstance(ev, VPhi) and self._hasarr(ev):
                self.putloc(post, l, self.arr(post, t))
            else:
                if self.is_none_t(newt[l]) is not FALSE:
                    pass
                self.putloc(post, l, VT(t))

    def _hasarr(self, v):
        if isinstance(v, VPhi):
            return self._hasarr(v.a) or self._hasarr(v.b)
        return isinstance(v, VA)

    def foldlist(self, iv, ev, itt):
        """list built by appending once per iteration"""
        if isinstance(ev, VTup) and ev.kind == 'openlist' and \
                len(ev.items) == 2 and not iv.items:
            return VTup([VT(app('comp', itt, sym('$el')))], 'openlist')
        return VTup([VT(tm.unknown('looplist'))], 'openlist')

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, aug=False):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.setattr(base, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.evindex(t.slice, st)
            self.setitem(base, idx, v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), st, t)
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if star:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e,
                                VT(tm.unknown('star')), st)
                return
            for e, x in zip(t.elts, items):
                self.assign(e, x, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack(self, v, n, st, node):
        v = self.resolve(v, st)
        if isinstance(v, VPhi):
            a = self.unpack(v.a, n, st, node)
            b = self.unpack(v.b, n, st, node)
            return [self.mergev(v.c, x, y) for x, y in zip(a, b)]
        it = self.seqitems(v, st)
        if it is not None:
            if len(it) == n:
                return list(it)
            if not self.muted:
                self.hooks.unpack_error(self, st, n, len(it), node)
            return [VT(tm.unknown('unpack'))] * n
        t = self.term(v, st)
        if t.tag == 'ite':
            return [VT(self.md.itemterm(t, i)) for i in range(n)]
        return [self.wrap(st, self.md.itemterm(t, i)) for i in range(n)]

    def wrap(self, st, t):
        """value for an arbitrary (possibly array) term"""
        return self.arr(st, t)

    def seqitems(self, v, st):
        v = self.resolve(v, st)
        if isinstance(v, VTup) and v.kind != 'openlist':
            return v.items
        if isinstance(v, VL):
            c = st.cells.get(v.cell)
            if isinstance(c, VTup) and c.kind == 'list':
                return c.items
        if isinstance(v, VT) and v.t.tag == 'tup':
            return tuple(VT(x) for x in v.t.a[0])
        if isinstance(v, VA) and self.fnmode:
            t = self.term(v, st)
            if t.tag == 'tup':
                return tuple(VT(x) for x in t.a[0])
        return None

    def iteritems(self, v, st, node):
        """concrete list of iterated values or None"""
        v = self.resolve(v, st)
        it = self.seqitems(v, st)
        if it is not None:
            return list(it)
        if isinstance(v, VL):
            c = st.cells.get(v.cell)
            if isinstance(c, VDict) and not c.open:
                return [VT(const(k) if not isinstance(k, T) else k)
                        for k in c.d]
        if isinstance(v, VT):
            t = v.t
            if t.tag == 'app' and t.a[0] == 'range':
                a = t.a[1]
                if all(tm.isnum(x) and x.a[0].denominator == 1 for x in a):
                    r = range(*[int(x.a[0]) for x in a])
                    if len(r) <= UNROLL:
                        return [VT(const(i)) for i in r]
            if self.md.numset(t):
                return [VT(x) for x in t.a[1]]
            if t.tag == 'c' and isinstance(t.a[0], str) and \
                    len(t.a[0]) <= UNROLL:
                return [VT(const(ch)) for ch in t.a[0]]
        return None

    def element(self, v, idx, st, node):
        """abstract element of iterable v at symbolic position idx"""
        v = self.resolve(v, st)
        if isinstance(v, VT) and v.t.tag == 'app':
            f, a = v.t.a[0], v.t.a[1]
            if f == 'range':
                if len(a) == 1:
                    return VT(idx)
                if len(a) == 2:
                    return VT(tm.add(a[0], idx))
                return VT(tm.add(a[0], tm.mul(a[2], idx)))
            if f == 'enumerate':
                return VTup([VT(idx), VT(app('elem', a[0], idx))])
            if f == 'zip':
                return VTup([VT(app('elem', x, idx)) for x in a])
        if isinstance(v, VL):
            c = st.cells.get(v.cell)
            if isinstance(c, VTup) and len(c.items) and \
                    c.kind == 'openlist':
                return VT(app('elem', self.term(v, st), idx))
        if isinstance(v, VA):
            return VA(v.cell, v.view + (('sub', idx),))
        return VT(app('elem', self.term(v, st), idx))

    # ------------------------------------------------------------ attributes
    def lookup(self, ci, name, st, start=None):
        mro = ci.mro
        if start is not None:
            if start in mro:
                mro = mro[mro.index(start) + 1:]
        for c in mro:
            d = st.heap.get(c.nsid)
            if d is None and self.static is not None:
                d = self.static.heap.get(c.nsid)
            if d is not None and name in d:
                return d[name]
        return None

    def bindattr(self, v, slf, ci, st, node):
        v = self.resolve(v, st)
        if isinstance(v, VF):
            return VB(slf, v)
        if isinstance(v, VP):
            if v.kind == 'staticmethod':
                return v.f
            if v.kind == 'classmethod':
                return VB(VC(ci), v.f)
            if v.kind == 'property':
                if isinstance(slf, VC):
                    return v
                return self.call(VB(slf, v.f), [], {}, st, node)
        return v

    def getattr(self, base, name, st, node=None):
        base = self.resolve(base, st)
        if isinstance(base, VPhi):
            b = base
            return self.fork(b.c, st,
                             lambda s: self.getattr(b.a, name, s, node),
                             lambda s: self.getattr(b.b, name, s, node))
        if isinstance(base, VO):
            d = st.heap.get(base.oid, {})
            if name in d:
                v = self.resolve(d[name], st)
                v = self.checkundef(v, base, name, st, node)
                return v
            if name == '__class__':
                return VC(base.cls)
            if name == '__dict__':
                return VT(tm.reapp('attr', (self.term(base, st), const(name))))
            v = self.lookup(base.cls, name, st)
            if v is not None:
                return self.bindattr(v, base, base.cls, st, node)
            if base.cls is not None and base.cls.is_sub(
                    'sporco.cdict.ConstrainedDict'):
                return VX('dict.' + name)
            # dynamic attribute providers
            if base.cls is not None and self.lookup(
                    base.cls, '__getattr__', st) is not None:
                return VT(tm.reapp('attr', (self.term(base, st), const(name))))
            ext = [b for b in base.cls.extbases()
                   if b not in ('object', 'type')] if base.cls else ['?']
            if name.startswith('__') or ext:
                return VT(tm.reapp('attr', (self.term(base, st), const(name))))
            if not self.muted:
                self.hooks.attr_undef(self, st, base, name, node, TRUE)
            return VT(tm.unknown('attr ' + name))
        if isinstance(base, VS) and isinstance(base.slf, VC) and \
                name == '__call__' and 'type' in base.ci.extbases():
            return VB(base.slf, VX('type.__call__'))
        if isinstance(base, VS):
            v = self.lookup(base.slf.cls if isinstance(base.slf, VO)
                            else base.slf.ci, name, st, start=base.ci)
            if v is None:
                return VX('super.' + name)
            return self.bindattr(v, base.slf, base.ci, st, node)
        if isinstance(base, VC):
            if name == '__name__':
                return VT(const(base.ci.name))
            v = self.lookup(base.ci, name, st)
            if v is None:
                if name in ('__dict__', '__mro__', '__bases__',
                            '__module__', '__qualname__'):
                    return VT(tm.reapp('attr', (self.term(base, st), const(name))))
                eb = [b for b in base.ci.extbases() if b != 'object']
                if eb:
                    return VX(eb[0] + '.' + name)
                if name.startswith('__'):
                    return VX('object.' + name)
                if not self.muted:
                    self.hooks.attr_undef(self, st, base, name, node, TRUE)
                return VT(tm.unknown('attr ' + name))
            v = self.resolve(v, st)
            if isinstance(v, VP):
                if v.kind == 'classmethod':
                    return VB(base, v.f)
                if v.kind == 'staticmethod':
                    return v.f
            return v
        if isinstance(base, VM):
            if base.name in self.mods:
                v = st.getattr('mod:' + base.name, name)
                if v is None and self.static is not None:
                    v = self.static.getattr('mod:' + base.name, name)
                if v is None:
                    full = base.name + '.' + name
                    if full in self.mods:
                        return VM(full)
                    if full in self.files_():
                        self.load_module(full)
                        self.sync(st)
                        return VM(full)
                    if not self.muted:
                        self.hooks.name_undef(self, st, full, node, TRUE)
                    return VT(tm.unknown(full))
                return v
            full = base.name + '.' + name
            full = self.md.MODALIAS.get(full, full)
            if full in self.md.EXTMODS:
                return VM(full)
            if full in self.md.EXTCONST:
                return VT(self.md.EXTCONST[full])
            return VX(full)
        if isinstance(base, VX):
            return VX(base.name + '.' + name)
        if isinstance(base, VOpt):
            return VB(base, VX('opt.' + name))
        if isinstance(base, VL):
            return VB(base, VX('list.' + name))
        if isinstance(base, VTup):
            return VB(base, VX('tuple.' + name))
        if isinstance(base, VT):
            r = st.heap.get('obj:%d' % id(base.t), {}).get(name)
            if r is not None:
                return self.resolve(undef_to(r, VT(tm.reapp(
                    'attr', (base.t, const(name))))), st)
        if isinstance(base, (VA, VT)):
            return self.md.array_attr(self, base, name, st, node)
        if isinstance(base, VF):
            if name == '__name__':
                return VT(const(base.fi.name))
            return VT(tm.reapp('attr', (self.term(base, st), const(name))))
        if isinstance(base, VB):
            return VT(tm.reapp('attr', (self.term(base, st), const(name))))
        return VT(tm.unknown('attr ' + name))

    def checkundef(self, v, base, name, st, node):
        if v is UNDEF:
            if not self.muted:
                self.hooks.attr_undef(self, st, base, name, node, TRUE)
            return VT(tm.unknown('attr ' + name))
        if isinstance(v, VPhi):
            cs = []
            r = self.stripundef(v, TRUE, cs)
            if cs:
                c = self.decide(tm.or_(*cs), st)
                # fall back on class attribute
                cv = self.lookup(base.cls, name, st) \
                    if isinstance(base, VO) else None
                if cv is None and c is not FALSE:
                    if not self.muted:
                        self.hooks.attr_undef(self, st, base, name, node, c)
                if r is UNDEF:
                    return VT(tm.unknown('attr ' + name))
                return r
        return v

    def stripundef(self, v, g, cs):
        if v is UNDEF:
            cs.append(g)
            return v
        if isinstance(v, VPhi):
            a = self.stripundef(v.a, tm.and_(g, v.c), cs)
            b = self.stripundef(v.b, tm.and_(g, tm.not_(v.c)), cs)
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            if a is v.a and b is v.b:
                return v
            return self.mergev(v.c, a, b)
        return v

    def setattr(self, base, name, v, st, node):
        base = self.resolve(base, st)
        if isinstance(base, VPhi):
            b = base
            self.fork(b.c, st,
                      lambda s: self.setattr(b.a, name, v, s, node),
                      lambda s: self.setattr(b.b, name, v, s, node))
            return VT(NONE)
        if self.widen:
            v = self.widen_v(v, st)
        if not self.muted:
            self.hooks.attr_write(self, st, base, name, v, node)
        if isinstance(base, VO):
            st.setattr(base.oid, name, v)
        elif isinstance(base, VC):
            self.note_mutate(st, base.ci.nsid, node, 'class-attr ' + name)
            st.setattr(base.ci.nsid, name, v)
        elif isinstance(base, VM) and base.name in self.mods:
            st.setattr('mod:' + base.name, name, v)
        elif isinstance(base, VT) and base.t.tag == 'app' and \
                isinstance(base.t.a[0], str) and \
                base.t.a[0].startswith('new:'):
            # an object that is known by its constructor call only
            k = 'obj:%d' % id(base.t)
            self.keep.append(base.t)
            st.heap.setdefault(k, {})
            st.setattr(k, name, v)
        return VT(NONE)

    # ------------------------------------------------------------ items
    def evindex(self, s, st):
        if isinstance(s, ast.Slice):
            return VT(self.sliceterm(s, st))
        if isinstance(s, ast.Tuple):
            return VTup([self.evindex(e, st) if isinstance(e, ast.Slice)
                         else self.ev(e, st) for e in s.elts])
        if s.__class__.__name__ == 'Index':
            return self.evindex(s.value, st)
        return self.ev(s, st)

    def sliceterm(self, s, st):
        f = lambda e: NONE if e is None else self.term(self.ev(e, st), st)
        return tm.mk('slice', f(s.lower), f(s.upper), f(s.step))

    def idxterm(self, idx, st):
        """index term; a list selects rows and keeps the axis"""
        t = self.term(idx, st)
        if isinstance(idx, VL) and t.tag == 'tup':
            return app('rows', *t.a[0])
        return t

    def getitem(self, base, idx, st, node):
        base = self.resolve(base, st)
        idx = self.resolve(idx, st)
        if isinstance(base, VPhi):
            b = base
            return self.fork(b.c, st,
                             lambda s: self.getitem(b.a, idx, s, node),
                             lambda s: self.getitem(b.b, idx, s, node))
        it = self.idxterm(idx, st)
        if isinstance(base, VA) and it.tag == 'app' and \
                it.a[0] == 'rows' and len(it.a[1]) == 1:
            # x[[i]] is x[i] with a leading axis
            return self.getitem(self.getitem(base, VT(it.a[1][0]), st, node),
                                VTup((VT(NONE), VT(const(Ellipsis)))), st,
                                node)
        if isglobals(base) and it.tag == 'c':
            v = st.getattr(base.t.a[1][0].a[0], it.a[0])
            if v is not None:
                return v
        if isinstance(base, VOpt):
            return self.optget(base, it, st, node)
        if isinstance(base, (VTup, VL)):
            c = base if isinstance(base, VTup) else st.cells.get(base.cell)
            if isinstance(c, VTup) and c.kind != 'openlist':
                n = len(c.items)
                if tm.isnum(it) and it.a[0].denominator == 1:
                    i = int(it.a[0])
                    if -n <= i < n:
                        return c.items[i]
                    if not self.muted:
                        self.hooks.unpack_error(self, st, i, n, node)
                    return VT(tm.unknown('index'))
                if it.tag == 'slice':
                    ok, a = self.constslice(it)
                    if ok:
                        r = c.items[a]
                        if isinstance(base, VL):
                            return self.newlist(st, r)
                        return VTup(r, c.kind)
            if isinstance(c, VDict):
                if it.tag == 'c':
                    k = it.a[0]
                    if k in c.d:
                        v = self.resolve(c.d[k], st)
                        if isinstance(v, VPhi):
                            v = self.stripundef(v, TRUE, [])
                        return v
                if it.tag == 'tup' and all(x.tag == 'c' for x in it.a[0]):
                    k = tuple(x.a[0] for x in it.a[0])
                    if k in c.d:
                        return c.d[k]
                if it in c.d:
                    return c.d[it]
                # value among the known ones
                if not c.open and c.d:
                    return self.dictchoice(c, it, st)
            return VT(app('sub', self.term(base, st), it))
        if isinstance(base, VA):
            if self.fnmode:
                it = self.md.normindex(self, base, st, it)
            if self.md.fullindex(it):
                return base
            if self.md.isviewindex(it):
                return VA(base.cell, base.view + (('sub', it),))
            return self.arr(st, self.md.subterm(self.term(base, st), it))
        if isinstance(base, VT):
            t = base.t
            if t.tag == 'tup' and tm.isnum(it):
                i = int(it.a[0])
                if -len(t.a[0]) <= i < len(t.a[0]):
                    return VT(t.a[0][i])
            return VT(self.md.subterm(t, it))
        if isinstance(base, VO):
            m = self.lookup(base.cls, '__getitem__', st)
            if m is not None:
                return self.call(VB(base, m), [idx], {}, st, node)
        return VT(app('sub', self.term(base, st), it))

    def dictchoice(self, c, it, st):
        r = None
        for k, v in c.d.items():
            kt = k if isinstance(k, T) else const(k)
            r = v if r is None else self.mergev(tm.cmp_('eq', it, kt), v, r)
        return r

    def constslice(self, it):
        r = []
        for x in it.a:
            if x is NONE:
                r.append(None)
            elif tm.isnum(x):
                r.append(int(x.a[0]))
            else:
                return False, None
        return True, slice(*r)

    def setitem(self, base, idx, v, st, node):
        base = self.resolve(base, st)
        idx = self.resolve(idx, st)
        if isinstance(base, VPhi):
            b = base
            self.fork(b.c, st,
                      lambda s: (self.setitem(b.a, idx, v, s, node),
                                 VT(NONE))[1],
                      lambda s: (self.setitem(b.b, idx, v, s, node),
                                 VT(NONE))[1])
            return
        it = self.idxterm(idx, st)
        if isglobals(base) and it.tag == 'c':
            st.setattr(base.t.a[1][0].a[0], it.a[0], v)
            return
        if isinstance(base, VOpt):
            return self.optset(base, it, v, st, node)
        if isinstance(base, VL):
            c = st.cells.get(base.cell)
            self.note_mutate(st, base.cell, node, 'item-assign')
            if isinstance(c, VDict):
                d = dict(c.d)
                if it.tag == 'c':
                    d[it.a[0]] = v
                    st.cells[base.cell] = VDict(d, c.open)
                else:
                    d[it] = v
                    st.cells[base.cell] = VDict(d, True)
            elif isinstance(c, VTup) and c.kind == 'list' and \
                    tm.isnum(it) and -len(c.items) <= it.a[0] < \
                    len(c.items):
                l = list(c.items)
                l[int(it.a[0])] = v
                st.cells[base.cell] = VTup(l, 'list')
            elif isinstance(c, VTup) and c.kind == 'list' and \
                    it.tag == 'slice' and all(
                        x is NONE or tm.isnum(x) for x in it.a) and \
                    self.seqitems(v, st) is not None:
                l = list(c.items)
                l[slice(*[None if x is NONE else int(x.a[0])
                          for x in it.a])] = list(self.seqitems(v, st))
                st.cells[base.cell] = VTup(l, 'list')
            elif isinstance(c, VTup):
                st.cells[base.cell] = VTup(
                    [VT(tm.unknown('list'))], 'openlist')
            return
        if isinstance(base, VA):
            if self.fnmode:
                it = self.md.normindex(self, base, st, it)
            ref = base if self.md.fullindex(it) else \
                VA(base.cell, base.view + (('sub', it),))
            self.write(ref, self.term(v, st), st, node, 'item-assign')
            return
        if isinstance(base, VO):
            m = self.lookup(base.cls, '__setitem__', st)
            if m is not None:
                self.call(VB(base, m), [idx, v], {}, st, node)
            return

    def write(self, ref, t, st, node, how):
        """in-place store of term t through array reference ref"""
        self.note_mutate(st, ref.cell, node, how)
        base = st.cells.get(ref.cell)
        if not isinstance(base, T):
            return
        if self.typed and not ref.view:
            t = app('cast', t, app('attr', base, const('dtype')))
        t = self.md.store(base, ref.view, t)
        if self.fnmode:
            t = self.md.litvec(t) or t
        if self.widen:
            t = self.widen_t(t)
        st.cells[ref.cell] = t
        if self.fnmode and t.tag == 'upd' and ref.cell in self.cellshape:
            self.shapes[t] = self.cellshape[ref.cell]

    def note_mutate(self, st, cell, node, how):
        if not self.muted:
            self.hooks.mutate(self, st, cell, node or self.curnode, how)

    # ------------------------------------------------------------ options
    def optget(self, o, it, st, node):
        keys = None
        if it.tag == 'c':
            keys = (it.a[0],)
        elif it.tag == 'tup' and all(x.tag == 'c' for x in it.a[0]):
            keys = tuple(x.a[0] for x in it.a[0])
        if keys is None:
            return VT(app('sub', self.optterm(o), it))
        path = o.path + keys
        if not self.muted:
            self.hooks.opt_read(self, st, o, path, node)
        info = self.optinfo[o.root]
        ov = st.heap.get('opt:' + o.root, {})
        if path in ov:
            return ov[path]
        node_ = info['tree']
        for k in path:
            if isinstance(node_, dict) and k in node_:
                node_ = node_[k]
            elif any(p[:len(path)] == path for p in ov):
                return VOpt(o.root, path)
            else:
                return VT(tm.unknown('opt ' + '.'.join(map(str, path))))
        if isinstance(node_, dict):
            return VOpt(o.root, path)
        if info.get('concrete'):
            if isinstance(node_, V):
                return node_
            return VT(node_)
        # symbolic: cache one array cell per path so aliasing is visible
        name = '%s[%s]' % (o.root, '.'.join(map(str, path)))
        if info.get('arrays') and path[-1] in info['arrays']:
            c = 'optcell:' + name
            if c not in st.cells:
                st.cells[c] = sym(name)
                self.cellinfo[c] = ('option', name)
            return VA(c)
        return VT(sym(name))

    def optset(self, o, it, v, st, node):
        if it.tag == 'c':
            keys = (it.a[0],)
        elif it.tag == 'tup' and all(x.tag == 'c' for x in it.a[0]):
            keys = tuple(x.a[0] for x in it.a[0])
        else:
            return
        path = o.path + keys
        if not self.muted:
            self.hooks.opt_write(self, st, o, path, v, node)
        rv = self.resolve(v, st)
        c = st.cells.get(rv.cell) if isinstance(rv, VL) else None
        if isinstance(c, VDict):
            for k, x in c.d.items():
                self.optset(VOpt(o.root, path), const(k), x, st, node)
            return
        st.setattr('opt:' + o.root, path, v)
        # __setitem__ side effects of option classes are modelled by callers

    def opt_tree(self, ci, st=None):
        """defaults tree of an Options class: nested dict of leaf V"""
        st = st or self.static
        v = self.lookup(ci, 'defaults', st)
        return self.treeof(v, st)

    def treeof(self, v, st):
        v = self.resolve(v, st) if v is not None else None
        if isinstance(v, VL):
            c = st.cells.get(v.cell)
            if isinstance(c, VDict):
                return {k: self.treeof(x, st) for k, x in c.d.items()}
        if isinstance(v, VOpt):
            t = self.optinfo[v.root]['tree']
            for k in v.path:
                t = t[k]
            return t
        return v

    def new_opt(self, ci, name, st, concrete=False, arrays=()):
        root = name
        self.optinfo[root] = dict(cls=ci, tree=self.opt_tree(ci, st),
                                  concrete=concrete, arrays=set(arrays))
        return VOpt(root)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return VT(tm.unknown(type(e).__name__))
        return m(e, st)

    def e_Constant(self, e, st):
        return VT(const(e.value))

    def e_Name(self, e, st):
        n = e.id
        env = st.env
        if n in env:
            v = env[n]
            if isinstance(v, VPhi):
                v = self.resolve(v, st)
                cs = []
                r = self.stripundef(v, TRUE, cs)
                if cs:
                    c = self.decide(tm.or_(*cs), st)
                    if c is not FALSE and not self.muted:
                        self.hooks.name_undef(self, st, n, e, c)
                    if r is UNDEF:
                        return VT(tm.unknown(n))
                    return r
                return v
            if v is UNDEF:
                if not self.muted:
                    self.hooks.name_undef(self, st, n, e, TRUE)
                return VT(app('undefined-name', const(n)))
            return self.resolve(v, st)
        fi = self.stack[-1]
        v = st.getattr(fi.mod.nsid, n)
        if v is None and self.static is not None:
            v = self.static.getattr(fi.mod.nsid, n)
        if v is not None:
            return self.resolve(v, st)
        if n == 'Ellipsis':
            return VT(const(Ellipsis))
        if n in BUILTINS:
            return VX(n)
        # local of an enclosing function executed later
        if not self.muted:
            self.hooks.name_undef(self, st, n, e, TRUE)
        if n in fi.mod.globalnames():
            return VT(tm.unknown(n))
        return VT(app('undefined-name', const(n)))

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.getattr(b, e.attr, st, e)

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        i = self.evindex(e.slice, st)
        return self.getitem(b, i, st, e)

    def e_Tuple(self, e, st):
        return VTup(self.evseq(e.elts, st))

    def e_List(self, e, st):
        return self.newlist(st, self.evseq(e.elts, st))

    def e_Set(self, e, st):
        return VT(app('set', *[self.term(self.ev(x, st), st)
                               for x in e.elts]))

    def evseq(self, elts, st):
        r = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.seqitems(self.ev(x.value, st), st)
                if it is None:
                    r.append(VT(tm.unknown('star')))
                else:
                    r.extend(it)
            else:
                r.append(self.ev(x, st))
        return r

    def e_Dict(self, e, st):
        d = {}
        opn = False
        for k, x in zip(e.keys, e.values):
            v = self.ev(x, st)
            if k is None:
                vv = self.resolve(v, st)
                c = st.cells.get(vv.cell) if isinstance(vv, VL) else None
                if isinstance(c, VDict):
                    d.update(c.d)
                else:
                    opn = True
                continue
            kt = self.term(self.ev(k, st), st)
            if kt.tag == 'c':
                d[kt.a[0]] = v
            elif kt.tag == 'tup' and all(y.tag == 'c' for y in kt.a[0]):
                d[tuple(y.a[0] for y in kt.a[0])] = v
            else:
                d[kt] = v
        return self.newdict(st, d, opn)

    def e_BinOp(self, e, st):
        l = self.ev(e.left, st)
        r = self.ev(e.right, st)
        return self.binop(BIN.get(type(e.op), 'unk'), l, r, st, e)

    def binop(self, op, l, r, st, node):
        l = self.resolve(l, st)
        r = self.resolve(r, st)
        # tuples / lists
        isarr = self.fnmode and (isinstance(l, VA) or isinstance(r, VA))
        if isarr:
            t = self.binterm(op, self.term(l, st), self.term(r, st))
            return VT(t) if t.tag == 'c' else self.arr(st, t)
        if op == 'add':
            a, b = self.seqitems(l, st), self.seqitems(r, st)
            if a is not None and b is not None:
                if isinstance(l, VL):
                    return self.newlist(st, list(a) + list(b))
                return VTup(list(a) + list(b))
        if op == 'mul':
            for x, y in ((l, r), (r, l)):
                a = self.seqitems(x, st)
                if a is not None:
                    n = self.term(y, st)
                    if tm.isnum(n) and n.a[0].denominator == 1 and \
                            int(n.a[0]) * len(a) <= 64:
                        z = list(a) * int(n.a[0])
                        return self.newlist(st, z) if isinstance(x, VL) \
                            else VTup(z)
                    return VT(app('rep', self.term(x, st), n))
        if isinstance(l, VPhi) and self._seqphi(l, st) and op == 'add':
            p = l
            return self.fork(p.c, st,
                             lambda s: self.binop(op, p.a, r, s, node),
                             lambda s: self.binop(op, p.b, r, s, node))
        if isinstance(r, VPhi) and self._seqphi(r, st) and op == 'add':
            p = r
            return self.fork(p.c, st,
                             lambda s: self.binop(op, l, p.a, s, node),
                             lambda s: self.binop(op, l, p.b, s, node))
        if not self.muted:
            self.hooks.binop(self, st, op, l, r, node)
        lt, rt = self.term(l, st), self.term(r, st)
        if op == 'mod' and lt.tag == 'c' and isinstance(lt.a[0], str):
            return VT(self.strfmt(lt, rt))
        if op == 'add' and (self._istup(lt) or self._istup(rt)):
            return VT(self.tcat(lt, rt))
        t = self.binterm(op, lt, rt)
        if isinstance(l, VT) and isinstance(r, VT):
            return VT(t)
        if t.tag == 'c':
            return VT(t)
        return self.arr(st, t)

    def strfmt(self, lt, rt):
        try:
            if rt.tag == 'c':
                return const(lt.a[0] % (rt.a[0] if not isinstance(
                    rt.a[0], Fraction) else int(rt.a[0])))
            if rt.tag == 'tup' and all(x.tag == 'c' for x in rt.a[0]):
                return const(lt.a[0] % tuple(
                    x.a[0] if not isinstance(x.a[0], Fraction)
                    else int(x.a[0]) for x in rt.a[0]))
        except (TypeError, ValueError):
            pass
        return app('strfmt', lt, rt)

    def _seqphi(self, v, st):
        if isinstance(v, VPhi):
            return self._seqphi(v.a, st) and self._seqphi(v.b, st)
        return self.seqitems(v, st) is not None

    def _istup(self, t):
        return t.tag == 'tup' or t.tag == 'app' and t.a[0] in ('rep', 'tcat',
                                                               'tuple')

    def tcat(self, a, b):
        def parts(t):
            if t.tag == 'app' and t.a[0] == 'tcat':
                return list(t.a[1])
            return [t]
        ps = parts(a) + parts(b)
        r = []
        for p in ps:
            if p.tag == 'tup' and not p.a[0]:
                continue
            if r and r[-1].tag == 'tup' and p.tag == 'tup':
                r[-1] = tm.tup(r[-1].a[0] + p.a[0])
            else:
                r.append(p)
        if len(r) == 1:
            return r[0]
        return app('tcat', *r)

    def binterm(self, op, a, b):
        return self.md.binterm(op, a, b)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return VT(tm.not_(self.truth(v, st)))
        t = self.term(v, st)
        if isinstance(e.op, ast.USub):
            r = tm.neg(t)
            return VT(r) if isinstance(v, VT) else self.arr(st, r)
        if isinstance(e.op, ast.Invert):
            r = app('invert', t) if t.tag not in ('cmp', 'not', 'and') \
                else tm.not_(t)
            return VT(r) if isinstance(v, VT) else self.arr(st, r)
        return v

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        return self.boolchain(e.values, isand, st)

    def boolchain(self, vals, isand, st):
        v = self.ev(vals[0], st)
        if len(vals) == 1:
            return v
        c = self.decide(self.truth(v, st), st)
        if c is TRUE:
            return self.boolchain(vals[1:], isand, st) if isand else v
        if c is FALSE:
            return v if isand else self.boolchain(vals[1:], isand, st)
        # purely boolean operands: build the conjunction/disjunction
        s1 = st.copy()
        self.add_pc(s1, c, isand)
        try:
            w = self.boolchain(vals[1:], isand, s1)
        except Dead:
            self.add_pc(st, c, not isand)
            return v
        pre = st.pc
        if isand:
            self.become(st, self.merge(c, s1, st.copy(), pre))
        else:
            self.become(st, self.merge(c, st.copy(), s1, pre))
        if isinstance(v, VT) and isinstance(w, VT) and \
                self._isbool(v.t) and self._isbool(w.t):
            return VT(tm.and_(c, w.t) if isand else tm.or_(c, w.t))
        if self._isboolv(v) and self._isboolv(w):
            wt = self.truth(w, st)
            return VT(tm.and_(c, wt) if isand else tm.or_(c, wt))
        return self.mergev(c, w, v) if isand else self.mergev(c, v, w)

    def _isboolv(self, v):
        return isinstance(v, VT) and (self._isbool(v.t) or
                                      v.t.tag in ('s',))

    def _isbool(self, t):
        return t.tag in ('cmp', 'not', 'and') or t.tag == 'c' and \
            isinstance(t.a[0], bool) or t.tag == 'app' and \
            t.a[0] in self.md.BOOLFUNCS or t.tag == 'ite' and \
            self._isbool(t.a[1]) and self._isbool(t.a[2])

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        res = []
        arrayish = False
        for op, rhs in zip(e.ops, e.comparators):
            r = self.ev(rhs, st)
            res.append(self.compare(op, left, r, st, e))
            arrayish = arrayish or isinstance(
                self.resolve(left, st), VA) or isinstance(
                self.resolve(r, st), VA)
            left = r
        t = res[0] if len(res) == 1 else tm.and_(*res)
        return VT(t)

    def compare(self, op, l, r, st, node):
        l, r = self.resolve(l, st), self.resolve(r, st)
        neg = isinstance(op, (ast.IsNot, ast.NotIn))
        if isinstance(op, (ast.Is, ast.IsNot)):
            rt = self.term(r, st)
            if rt is NONE:
                c = self.is_none(l, st)
            elif self.term(l, st) is NONE:
                c = self.is_none(r, st)
            elif isinstance(l, (VC, VF, VO, VX)) and isinstance(
                    r, (VC, VF, VO, VX)):
                c = const(self.term(l, st) is self.term(r, st))
            else:
                c = tm.cmp_('is', self.term(l, st), rt)
            c = self.decide(c, st)
            return tm.not_(c) if neg else c
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(l, r, st, node)
            return tm.not_(c) if neg else c
        lt, rt = self.term(l, st), self.term(r, st)
        o = CMP.get(type(op), 'eq')
        if isinstance(l, VPhi) or isinstance(r, VPhi):
            pass
        elif o in ('eq', 'ne'):
            for x, t in ((l, rt), (r, lt)):
                # a list or tuple is not a string
                if (isinstance(x, VTup) or isinstance(x, VL) and isinstance(
                        st.cells.get(x.cell), VTup)) and t.tag == 'c' and \
                        isinstance(t.a[0], str):
                    return const(o == 'ne')
        return tm.cmp_(o, lt, rt)

    def contains(self, l, r, st, node):
        lt = self.term(l, st)
        if isinstance(r, VL):
            c = st.cells.get(r.cell)
            if isinstance(c, VDict) and lt.tag == 'c':
                if lt.a[0] in c.d:
                    v = c.d[lt.a[0]]
                    cs = []
                    self.stripundef(self.resolve(v, st), TRUE, cs)
                    return tm.not_(tm.or_(*cs)) if cs else TRUE
                if not c.open:
                    return FALSE
        it = self.seqitems(r, st)
        if it is not None:
            cs = [tm.cmp_('eq', lt, self.term(x, st)) for x in it]
            return tm.or_(*cs) if cs else FALSE
        if isinstance(r, VOpt):
            tree = self.optinfo[r.root]['tree']
            for k in r.path:
                tree = tree.get(k, {}) if isinstance(tree, dict) else {}
            if lt.tag == 'c' and isinstance(tree, dict):
                return const(lt.a[0] in tree)
        return tm.mk('cmp', 'in', lt, self.term(r, st))

    def e_IfExp(self, e, st):
        c = self.truth(self.ev(e.test, st), st)
        return self.fork(c, st, lambda s: self.ev(e.body, s),
                         lambda s: self.ev(e.orelse, s))

    def e_Lambda(self, e, st):
        fi0 = self.stack[-1]
        cache = getattr(self, '_ficache', None)
        if cache is None:
            cache = self._ficache = {}
        key = (id(e), 'lambda')
        fi = cache.get(key)
        if fi is None:
            fi = FuncInfo(e, fi0.mod, fi0.qual + '.<lambda>', fi0.cls)
            cache[key] = fi
        return VF(fi, dict(st.env), [self.ev(d, st)
                                     for d in e.args.defaults])

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_JoinedStr(self, e, st):
        ps = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                ps.append(const(x.value))
            else:
                ps.append(self.term(self.ev(x.value, st), st))
        if all(p.tag == 'c' and isinstance(p.a[0], str) for p in ps):
            return VT(const(''.join(p.a[0] for p in ps)))
        return VT(app('fstr', *ps))

    def e_Slice(self, e, st):
        return VT(self.sliceterm(e, st))

    def e_ListComp(self, e, st):
        r = self.comp(e, st)
        if isinstance(r, list):
            return self.newlist(st, r)
        return VL(self.newcell(st, VTup([r], 'openlist'))) \
            if not isinstance(r, VT) else r

    def e_GeneratorExp(self, e, st):
        r = self.comp(e, st)
        if isinstance(r, list):
            return VTup(r)
        return r

    def e_SetComp(self, e, st):
        r = self.comp(e, st)
        if isinstance(r, list):
            return VT(app('set', *[self.term(x, st) for x in r]))
        return r

    def comp(self, e, st):
        saved = dict(st.env)
        saveg = getattr(self, 'classenv', None)
        fi = self.stack[-1]
        usemod = fi.globals is None
        try:
            if len(e.generators) == 1:
                g = e.generators[0]
                itv = self.ev(g.iter, st)
                items = self.iteritems(itv, st, g.iter)
                if items is not None and len(items) <= 40:
                    out = []
                    ok = True
                    for x in items:
                        self.compassign(g.target, x, st)
                        keep = True
                        for c in g.ifs:
                            d = self.decide(self.truth(self.ev(c, st), st),
                                            st)
                            if d is FALSE:
                                keep = False
                            elif d is not TRUE:
                                ok = False
                        if keep:
                            out.append(self.ev(e.elt, st))
                    if ok:
                        return out
                idx = sym('$i%d' % self.loopdepth)
                self.loopdepth += 1
                try:
                    el = self.element(itv, idx, st, g.iter)
                    self.compassign(g.target, el, st)
                    cs = [self.truth(self.ev(c, st), st) for c in g.ifs]
                    v = self.ev(e.elt, st)
                finally:
                    self.loopdepth -= 1
                t = app('comp', self.term(itv, st), self.term(v, st),
                        *cs)
                return VT(t)
            for g in e.generators:
                itv = self.ev(g.iter, st)
                el = self.element(itv, sym('$i%d' % self.loopdepth), st,
                                  g.iter)
                self.compassign(g.target, el, st)
                for c in g.ifs:
                    self.ev(c, st)
            self.ev(e.elt, st)
            return VT(tm.unknown('comp'))
        finally:
            st.env = saved

    def compassign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x, y in zip(t.elts, self.unpack(v, len(t.elts), st, t)):
                self.compassign(x, y, st)

    def e_DictComp(self, e, st):
        saved = dict(st.env)
        try:
            if len(e.generators) == 1:
                g = e.generators[0]
                itv = self.ev(g.iter, st)
                items = self.iteritems(itv, st, g.iter)
                if items is not None and len(items) <= 40 and not g.ifs:
                    d = {}
                    for x in items:
                        self.compassign(g.target, x, st)
                        kt = self.term(self.ev(e.key, st), st)
                        d[kt.a[0] if kt.tag == 'c' else kt] = \
                            self.ev(e.value, st)
                    return self.newdict(st, d)
                el = self.element(itv, sym('$i%d' % self.loopdepth), st,
                                  g.iter)
                self.compassign(g.target, el, st)
                self.ev(e.key, st)
                self.ev(e.value, st)
            return VT(tm.unknown('dictcomp'))
        finally:
            st.env = saved

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and \
                'super' not in st.env:
            return self.mksuper(e, st)
        if isinstance(f, ast.Name) and f.id == 'globals' and \
                not e.args and not e.keywords and self.stack and \
                'globals' not in st.env:
            return VT(app('$globals', const(
                'mod:' + self.stack[-1].mod.name)))
        fv = self.ev(f, st)
        args = []
        unkstar = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                it = self.seqitems(v, st)
                if it is None:
                    unkstar = True
                    args.append(VT(app('star', self.term(v, st))))
                else:
                    args.extend(it)
            else:
                args.append(self.ev(a, st))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                vv = self.resolve(v, st)
                c = st.cells.get(vv.cell) if isinstance(vv, VL) else None
                if isinstance(c, VDict):
                    for kk, x in c.d.items():
                        if isinstance(kk, str):
                            kwargs[kk] = x
                    if c.open:
                        kwargs['**'] = v
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        self.curnode = e
        return self.call(fv, args, kwargs, st, e)

    def mksuper(self, e, st):
        if e.args:
            c = self.resolve(self.ev(e.args[0], st), st)
            s = self.resolve(self.ev(e.args[1], st), st)
        else:
            fi = self.stack[-1]
            c = VC(fi.cls) if fi.cls else None
            s = self.resolve(st.env.get(fi.params[0], UNDEF), st) \
                if fi.params else None
        if isinstance(c, VC) and isinstance(s, (VO, VC)):
            return VS(c.ci, s)
        return VT(tm.unknown('super'))

    def call(self, fv, args, kwargs, st, node):
        fv = self.resolve(fv, st)
        if isinstance(fv, VPhi):
            p = fv
            if p.a is UNDEF:
                return self.call(p.b, args, kwargs, st, node)
            if p.b is UNDEF:
                return self.call(p.a, args, kwargs, st, node)
            return self.fork(p.c, st,
                             lambda s: self.call(p.a, args, kwargs, s, node),
                             lambda s: self.call(p.b, args, kwargs, s, node))
        if isinstance(fv, VB):
            if isinstance(fv.f, VF):
                return self.callfunc(fv.f, [fv.slf] + list(args), kwargs,
                                     st, node)
            if isinstance(fv.f, VX) and fv.f.name == 'type.__call__':
                return self.instantiate(fv.slf.ci, args, kwargs, st, node,
                                        raw=True)
            if isinstance(fv.f, VX):
                return self.md.call_method(self, fv.slf, fv.f.name, args,
                                           kwargs, st, node)
            if isinstance(fv.f, VPhi):
                return self.call(VPhi(fv.f.c, VB(fv.slf, fv.f.a),
                                      VB(fv.slf, fv.f.b)), args, kwargs,
                                 st, node)
            return self.call(fv.f, [fv.slf] + list(args), kwargs, st, node)
        if isinstance(fv, VF):
            return self.callfunc(fv, args, kwargs, st, node)
        if isinstance(fv, VC):
            return self.instantiate(fv.ci, args, kwargs, st, node)
        if isinstance(fv, VX):
            return self.md.call_external(self, fv.name, args, kwargs, st,
                                         node)
        if isinstance(fv, VO):
            m = self.lookup(fv.cls, '__call__', st)
            if m is not None:
                return self.call(VB(fv, m), args, kwargs, st, node)
        if isinstance(fv, VP):
            return self.call(fv.f, args, kwargs, st, node)
        return self.md.call_term(self, fv, args, kwargs, st, node)

    def callfunc(self, f, args, kwargs, st, node):
        fi = f.fi
        if not self.muted:
            self.hooks.call(self, st, fi.qual, args, kwargs, node)
        m = self.extra_models.get(fi.qual)
        if m is not None:
            r = m(self, f, args, kwargs, st, node)
            if r is not NotImplemented:
                if not self.muted:
                    self.hooks.call_result(self, st, fi.qual, args, kwargs,
                                           node, r)
                return r
        if not self.inline(fi) or len(self.stack) > MAXDEPTH or \
                sum(1 for x in self.stack if x is fi) >= 1 and \
                not isinstance(fi.node, ast.Lambda) or fi.is_gen:
            r = self.opaque(f, args, kwargs, st, node)
        else:
            r = self.inlinecall(f, args, kwargs, st, node)
        if not self.muted:
            self.hooks.call_result(self, st, fi.qual, args, kwargs, node, r)
        return r

    def opaque(self, f, args, kwargs, st, node):
        fi = f.fi
        m = self.md.SPORCO.get(fi.qual)
        bound = self.bindargs(f, args, kwargs, st, node, quiet=True)
        if m is not None and bound is not None:
            r = m(self, fi, bound, st, node)
            if r is not NotImplemented:
                return r
        if bound is not None and '**' not in bound:
            ts = []
            for p in fi.params + fi.kwonly:
                if p == 'dtype' and not self.typed:
                    ts.append(NONE)
                    continue
                ts.append(self.term(bound.get(p, VT(NONE)), st))
            if fi.vararg:
                ts.append(self.term(bound[fi.vararg], st))
        else:
            ts = [self.term(a, st) for a in args] + \
                [kw(k, self.term(v, st)) for k, v in sorted(kwargs.items())]
        t = tm.reapp(fi.qual, tuple(ts))
        return self.arr(st, t)

    def bindargs(self, f, args, kwargs, st, node, quiet=False):
        """Bind arguments; None on error"""
        fi = f.fi
        env = {}
        params = fi.params
        n = len(params)
        err = None
        star = any(isinstance(a, VT) and a.t.tag == 'app' and
                   a.t.a[0] == 'star' for a in args)
        dstar = '**' in kwargs
        if len(args) > n:
            if fi.vararg:
                env[fi.vararg] = VTup(args[n:])
            elif not star:
                err = 'takes %d positional arguments, %d given' % (
                    n, len(args))
            args_ = args[:n]
        else:
            args_ = args
            if fi.vararg:
                env[fi.vararg] = VTup(())
        if star:
            args_ = args_[:-1] if len(args_) and isinstance(
                args_[-1], VT) and args_[-1].t.tag == 'app' and \
                args_[-1].t.a[0] == 'star' else args_
        for p, a in zip(params, args_):
            env[p] = a
        extra = {}
        for k, v in kwargs.items():
            if k == '**':
                continue
            if k in params or k in fi.kwonly:
                if k in env and k in params and not star:
                    err = 'multiple values for argument %r' % k
                env[k] = v
            elif fi.kwarg:
                extra[k] = v
            else:
                err = 'unexpected keyword argument %r' % k
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in env:
                j = i - (n - nd)
                if j >= 0:
                    env[p] = f.defaults[j] if not (star or dstar) else \
                        f.defaults[j]
                elif star or dstar:
                    env[p] = VT(tm.unknown(p))
                else:
                    err = 'missing argument %r' % p
                    env[p] = VT(tm.unknown(p))
        for p in fi.kwonly:
            if p not in env:
                if p in f.kwdefaults:
                    env[p] = f.kwdefaults[p]
                else:
                    env[p] = VT(tm.unknown(p))
        if fi.kwarg:
            env[fi.kwarg] = self.newdict(st, extra, dstar)
        if err and not quiet and not self.muted:
            self.hooks.binding_error(self, st, fi, err, node)
        if err and quiet:
            if not self.muted:
                self.hooks.binding_error(self, st, fi, err, node)
            return None
        return env

    def inlinecall(self, f, args, kwargs, st, node):
        fi = f.fi
        bound = self.bindargs(f, args, kwargs, st, node)
        saved = st.env
        savecls = getattr(self, 'classenv', None)
        self.classenv = None
        env = dict(f.env) if f.env else {}
        env.update(bound)
        st.env = env
        entrypc = st.pc
        self.stack.append(fi)
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.ev(fi.node.body, st)
                st.env = saved
                return v
            outs = self.exec_block(fi.node.body, st)
        finally:
            self.stack.pop()
            self.classenv = savecls
        rets = []
        raised = []
        for o in outs:
            if o.kind == 'return':
                rets.append((o.st, o.val))
            elif o.kind == 'raise':
                raised.append(o)
        norm = next((o for o in outs if o.kind == 'normal'), None)
        if norm is not None:
            rets.append((norm.st, VT(NONE)))
        if not rets:
            # every path raises: the rest of the caller is unreachable
            self.become(st, raised[0].st if raised else st)
            st.env = saved
            raise Dead(st)
        acc, val = rets[-1]
        accpc = acc.pc
        for s, v in reversed(rets[:-1]):
            common = self._commonpc(s.pc, accpc)
            k = max(len(entrypc), 0)
            g = self.guard(s.pc[k:])
            if s.env is not acc.env:
                s.env = acc.env = {}
            acc = self.merge(g, s, acc, entrypc)
            val = self.mergev(g, v, val)
            accpc = entrypc
        # a path that raised is excluded: keep the surviving condition if
        # there is exactly one surviving return
        if len(rets) == 1:
            newpc = rets[0][0].pc
        else:
            newpc = entrypc
        self.become(st, acc)
        st.env = saved
        st.pc = newpc if raised or len(rets) == 1 and norm is not None and \
            False else entrypc
        return val

    def instantiate(self, ci, args, kwargs, st, node, raw=False):
        if ci.meta is not None and not raw:
            mc = self.lookup(ci.meta, '__call__', st)
            if isinstance(mc, VF):
                return self.call(mc, [VC(ci)] + list(args), kwargs, st,
                                 node)
        if not self.muted:
            self.hooks.call(self, st, ci.qual, args, kwargs, node)
        m = self.extra_models.get(ci.qual)
        if m is not None:
            r = m(self, ci, args, kwargs, st, node)
            if r is not NotImplemented:
                return r
        if ci.is_sub('sporco.cdict.ConstrainedDict'):
            return self.newoptions(ci, args, kwargs, st, node)
        if ci.qual in self.opaque_classes or any(
                c.qual in self.opaque_classes for c in ci.mro):
            init = self.lookup(ci, '__init__', st)
            ps = init.fi.params[1:] if isinstance(init, VF) else []
            kwargs = dict(kwargs)
            while args and ps and args[0] is not None:
                kwargs.setdefault(ps[0], args[0])
                args, ps = args[1:], ps[1:]
            ts = [self.term(a, st) for a in args] + \
                [kw(k, self.term(v, st)) for k, v in sorted(kwargs.items())]
            return VT(app('new:' + ci.qual, *ts))
        new = self.lookup(ci, '__new__', st)
        oid = self.fresh('o')
        st.heap[oid] = {}
        o = VO(oid, ci)
        if isinstance(new, VF) or isinstance(new, VP):
            nf = new.f if isinstance(new, VP) else new
            self.pendingnew = o
            r = self.call(nf, [VC(ci)] + list(args), kwargs, st, node)
            r = self.resolve(r, st)
            if not (isinstance(r, VO) and r.oid == oid):
                if isinstance(r, VO):
                    o = r
                else:
                    return r
        init = self.lookup(ci, '__init__', st)
        if isinstance(init, VF):
            self.call(VB(o, init), args, kwargs, st, node)
        elif any(b not in ('object',) for b in ci.extbases()):
            pass
        return o

    def newoptions(self, ci, args, kwargs, st, node):
        root = self.fresh('opt')
        o = self.new_opt(ci, root, st, concrete=True)
        st.heap['opt:' + root] = {}
        if args or kwargs:
            a = self.resolve(args[0] if args else
                             list(kwargs.values())[0], st)
            c = st.cells.get(a.cell) if isinstance(a, VL) else None
            if isinstance(c, VDict):
                for k, x in c.d.items():
                    self.optset(o, const(k) if not isinstance(k, T) else k,
                                x, st, node)
            elif isinstance(a, VOpt):
                self.optinfo[root]['tree'] = self.optinfo[a.root]['tree']
                st.heap['opt:' + root] = dict(
                    st.heap.get('opt:' + a.root, {}))
                self.optinfo[root]['concrete'] = \
                    self.optinfo[a.root]['concrete']
        return o


DEAD = object()

# path conditions under which the analysed code raises an exception
RAISED = []


class Dead(Exception):
    """every path of a call raises"""

    def __init__(self, st):
        Exception.__init__(self)
        self.st = st


def isglobals(v):
    """the namespace dictionary returned by globals()"""
    return isinstance(v, VT) and v.t.tag == 'app' and \
        v.t.a[0] == '$globals'


def tree_body(tree):
    return tree.body
