"""Values of the symbolic interpreter."""
import itertools
from .terms import *

_ser = itertools.count()


def now():
    """serial number for the creation order of mutable values"""
    return next(_ser)


class Unsupported(Exception):
    """the engine does not reach this construct: never a violation, never a proof"""


class PyRaise(Exception):
    def __init__(self, name, value=None):
        Exception.__init__(self, name)
        self.name, self.value = name, value


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathEnd(Exception):
    """infeasible path"""


class Frame:
    def __init__(self, module, parent=None, func=None):
        self.locals = {}
        self.module = module
        self.parent = parent
        self.func = func
        self.yields = None
        self.ser = now()


class Module:
    def __init__(self, name, path):
        self.name, self.path, self.ns = name, path, {}
        self.dropped = []


class ClassVal:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.ser = now()

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<class %s>" % self.name


class ObjVal:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}
        self.ser = now()

    def __repr__(self):
        return "<%s object>" % self.cls.name


class FuncVal:
    def __init__(self, node, frame, module, name, cls=None):
        self.node, self.frame, self.module, self.name, self.cls = node, frame, module, name, cls
        self.defaults, self.kwdefaults = [], {}
        self.is_gen = False

    def __repr__(self):
        return "<function %s>" % self.name


class StaticVal:
    def __init__(self, fn):
        self.fn = fn


class ClassMethodVal:
    def __init__(self, fn):
        self.fn = fn


class PropertyVal:
    def __init__(self, fn):
        self.fn = fn


class Bound:
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class ExtModule:
    """an external module (numpy, scipy ...): attributes resolved by the models"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<module %s>" % self.name


class TypeVal:
    """builtin type (int, float, str ...)"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<type %s>" % self.name


class Unavailable:
    """a module-level name bound by a statement that extraction drops"""

    def __init__(self, name):
        self.name = name


class PathVal:
    """pathlib.Path: its text (str or Rope)"""

    def __init__(self, text):
        self.text = text


class Poison:
    """value of a variable carried by a loop, unknown to the engine: reading it is unsupported"""

    def __init__(self, name):
        self.name = name


class ListVal:
    """list: segments ('e', value) | ('r', n, x, template): n elements template[x := 0..n-1]
    | ('b', n, x, segs): concatenation of segs[x := 0..n-1] | ('g', cond, segs): segs if cond
    | ('c', cond, segs, other): segs if cond, else other"""

    def __init__(self, segs=None, kind="list"):
        self.segs = list(segs or [])
        self.kind = kind
        self.ser = now()

    @classmethod
    def of(cls, values, kind="list"):
        return cls([("e", v) for v in values], kind)

    def concrete(self):
        if all(s[0] == "e" for s in self.segs):
            return [s[1] for s in self.segs]
        return None

    def length(self):
        return seg_len(self.segs)


def seg_len(segs):
    """python int if concrete, else an integer term"""
    k = 0
    t = None
    for s in segs:
        if s[0] == "e":
            k += 1
            continue
        if s[0] == "r":
            m = s[1]
        elif s[0] == "b":
            inner = lift(seg_len(s[3]))
            m = mul(s[1], inner) if s[2] not in free_vars(inner) else tsum(iconst(0), s[1], lambda i, s=s, inner=inner: subst(inner, {s[2]: i}))
        elif s[0] == "g":
            m = ite(s[1], lift(seg_len(s[2])), iconst(0))
        elif s[0] == "c":
            m = ite(s[1], lift(seg_len(s[2])), lift(seg_len(s[3])))
        else:
            raise Unsupported("length of a sequence under construction in a loop")
        t = m if t is None else add(t, m)
    if t is None:
        return k
    t = add(t, iconst(k)) if k else t
    return int(cval(t)) if is_const(t) else t


def seg_sum(segs, f):
    """sum of f(element) over a segment list"""
    acc = iconst(0)
    for s in segs:
        if s[0] == "e":
            v = f(s[1])
        elif s[0] == "r":
            v = tsum(iconst(0), s[1], lambda i, s=s: f(vsubst(s[3], {s[2]: i})))
        elif s[0] == "b":
            v = tsum(iconst(0), s[1], lambda i, s=s: seg_sum(vsubst(s[3], {s[2]: i}), f))
        elif s[0] == "g":
            v = ite(s[1], to_real(seg_sum(s[2], f)), rconst(0))
        else:
            raise Unsupported("sum over a sequence under construction in a loop")
        acc = add(acc, v)
    return acc


def seg_all(segs, f):
    out = []
    for s in segs:
        if s[0] == "e":
            out.append(f(s[1]))
        elif s[0] == "r":
            out.append(tall(iconst(0), s[1], lambda i, s=s: f(vsubst(s[3], {s[2]: i}))))
        elif s[0] == "b":
            out.append(tall(iconst(0), s[1], lambda i, s=s: seg_all(vsubst(s[3], {s[2]: i}), f)))
        elif s[0] == "g":
            out.append(implies(s[1], seg_all(s[2], f)))
        else:
            raise Unsupported("test over a sequence under construction in a loop")
    return land(*out)


class DictVal:
    """dict: segments ('e', key, value) | ('r', n, x, keytemplate, valuetemplate) with distinct keys"""

    def __init__(self, segs=None):
        self.segs = list(segs or [])
        self.ser = now()


class SetVal:
    def __init__(self, source):
        self.source = source    # ListVal: members with repetition


class Key:
    """an opaque, hashable key: family name and index"""

    def __init__(self, fam, idx):
        self.fam, self.idx = fam, idx

    def __repr__(self):
        return "key:%s[%s]" % (self.fam, show(self.idx))


class ArrVal:
    """numpy array: shape (tuple of integer terms), element function of index terms.

    A view (slice, row) reads its base at access time; `snap` gives the element function of the
    current contents, which later writes do not change."""

    def __init__(self, shape, f, sort="R", uniq_of=None, view=None):
        self.shape = tuple(lift(s) for s in shape)
        self._f, self.sort = f, sort
        self.uniq_of = uniq_of
        self.view = view        # (base array, index map)
        self.writes = None      # writes in the current loop iteration
        self.whole = None       # path in which it was changed as a whole (in-place operator)
        self.ser = now()

    @property
    def frozen(self):
        return self.view is not None

    @property
    def f(self):
        if self.view is not None:
            g, m = self.view[0].f, self.view[1]
            return lambda *i: g(*m(*i))
        return self._f

    @f.setter
    def f(self, fn):
        self._f = fn

    def snap(self):
        return self.f

    def at(self, *idx):
        return self.f(*[lift(i) for i in idx])

    @property
    def n(self):
        return self.shape[0]

    def __repr__(self):
        return "<array %s>" % (", ".join(show(s) for s in self.shape))


class Opaque:
    """contract-supplied object with assumed behaviour; `cls` is the real class it is an instance of"""

    def __init__(self, name, cls, idx=(), call=None, methods=None, attrs=None):
        self.name, self.cls, self.idx = name, cls, tuple(idx)
        self.call_fn, self.methods, self.attrs = call, methods or {}, attrs or {}

    def __repr__(self):
        return "<opaque %s%s>" % (self.name, list(map(show, self.idx)) if self.idx else "")


class UFn:
    """uninterpreted real function (elementwise on arrays)"""

    def __init__(self, name, idx=()):
        self.name, self.idx = name, tuple(idx)


class Tok:
    """piece of symbolic text: its kind, the value it denotes, the characters it can consist of (None: any)"""

    def __init__(self, kind, value, chars, nonempty=True, label="", opts=None):
        self.kind, self.value, self.chars, self.nonempty, self.label = kind, value, chars, nonempty, label
        self.opts = opts or {}

    def __repr__(self):
        return "<%s:%s>" % (self.kind, self.value if not isinstance(self.value, T) else show(self.value))


class Rope:
    """symbolic text: literal strings and tokens"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        self.parts = out

    def __repr__(self):
        return "rope" + repr(self.parts)


def values_free(v, x, seen=None):
    """does value v depend on variable x?"""
    if isinstance(v, T):
        return x in free_vars(v)
    if isinstance(v, tuple):
        return any(values_free(a, x, seen) for a in v)
    if seen is None:
        seen = set()
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, ArrVal):
        probe = [fresh("p", "I") for _ in v.shape]
        return x in free_vars(v.f(*probe)) or any(x in free_vars(s) for s in v.shape)
    if isinstance(v, ListVal):
        return any(values_free(s[1:], x, seen) for s in v.segs)
    if isinstance(v, DictVal):
        return any(values_free(s[1:], x, seen) for s in v.segs)
    if isinstance(v, ObjVal):
        return any(values_free(a, x, seen) for a in v.attrs.values())
    if isinstance(v, (Opaque, UFn)):
        return any(x in free_vars(i) for i in v.idx)
    if isinstance(v, Key):
        return x in free_vars(v.idx)
    if isinstance(v, Rope):
        return any(isinstance(p, Tok) and values_free(p.value, x, seen) for p in v.parts)
    if isinstance(v, Bound):
        return values_free(v.obj, x, seen)
    if isinstance(v, FuncVal):
        f = v.frame
        while f is not None and f.func is not None:
            if any(values_free(a, x, seen) for a in list(f.locals.values())):
                return True
            f = f.parent
        return False
    return False


def vsubst(v, m, memo=None):
    """value with terms substituted; objects that depend on the variables are copied"""
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, tuple):
        return tuple(vsubst(a, m, memo) for a in v)
    if v is None or isinstance(v, (int, str, float, Builtin, ClassVal, TypeVal, ExtModule, Module)):
        return v
    if memo is None:
        memo = {}
    if id(v) in memo:
        return memo[id(v)]
    if not any(values_free(v, x) for x in m):
        memo[id(v)] = v
        return v
    if isinstance(v, ArrVal):
        r = ArrVal([subst(s, m) for s in v.shape], lambda *i, f=v.f: _arr_subst(f, i, m), v.sort,
                   vsubst(v.uniq_of, m, memo) if v.uniq_of is not None else None)
    elif isinstance(v, ListVal):
        r = ListVal([(s[0],) + tuple(vsubst(a, m, memo) for a in s[1:]) for s in v.segs], v.kind)
    elif isinstance(v, DictVal):
        r = DictVal([(s[0],) + tuple(vsubst(a, m, memo) for a in s[1:]) for s in v.segs])
    elif isinstance(v, ObjVal):
        r = ObjVal(v.cls)
        memo[id(v)] = r
        r.attrs = {k: vsubst(a, m, memo) for k, a in v.attrs.items()}
    elif isinstance(v, Opaque):
        r = Opaque(v.name, v.cls, [subst(i, m) for i in v.idx], v.call_fn, v.methods, v.attrs)
    elif isinstance(v, UFn):
        r = UFn(v.name, [subst(i, m) for i in v.idx])
    elif isinstance(v, Key):
        r = Key(v.fam, subst(v.idx, m))
    elif isinstance(v, Rope):
        r = Rope([Tok(p.kind, vsubst(p.value, m, memo), p.chars, p.nonempty, p.label, p.opts) if isinstance(p, Tok) else p for p in v.parts])
    elif isinstance(v, Bound):
        r = Bound(vsubst(v.obj, m, memo), v.fn)
    elif isinstance(v, FuncVal):
        nf = Frame(v.frame.module, v.frame.parent, v.frame.func)
        nf.locals = {k: vsubst(a, m, memo) for k, a in v.frame.locals.items()}
        r = FuncVal(v.node, nf, v.module, v.name, v.cls)
        r.defaults, r.kwdefaults = [vsubst(d, m, memo) for d in v.defaults], v.kwdefaults
    else:
        raise Unsupported("value depends on a loop index: %r" % (v,))
    memo[id(v)] = r
    return r


def _arr_subst(f, idx, m):
    ps = [fresh("q", "I") for _ in idx]
    body = subst(f(*ps), m)
    return subst(body, dict(zip(ps, idx)))
