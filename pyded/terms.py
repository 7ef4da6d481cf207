"""Hash-consed terms: the logic the verification conditions are written in.

Sorts: 'R' (real), 'I' (integer), 'B' (boolean).  Floats are mathematical reals, decimal
literals denote the decimal number written in the source.
Binders (SUM, ALL, INT) use a canonical bound variable per binder height, so alpha-equivalent
terms are the same object.
"""
from fractions import Fraction
import itertools

_table = {}
_counter = itertools.count()


class T:
    __slots__ = ("op", "args", "sort", "id", "height", "_fv")

    def __repr__(self):
        return show(self)

    # operator sugar (used by the models; the interpreter calls the functions below)
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return neg(self)
    def __bool__(self):
        raise TypeError("truth value of a symbolic term: " + show(self))


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = object.__new__(T)
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_counter)
        h = 0
        for a in args:
            if type(a) is T and a.height > h:
                h = a.height
        if op in ("SUM", "ALL", "INT"):
            h += 1
        t.height = h
        t._fv = None
        _table[key] = t
    return t


def lift(x):
    if type(x) is T:
        return x
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    if isinstance(x, int):
        return _mk("c", (Fraction(x),), "I")
    if isinstance(x, Fraction):
        return _mk("c", (x,), "R")
    if isinstance(x, float):
        return real_lit(x)
    raise TypeError("cannot lift %r" % (x,))


TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")


def rconst(x):
    return _mk("c", (Fraction(x),), "R")


def iconst(x):
    return _mk("c", (Fraction(x),), "I")


def real_lit(x):
    """float literal -> the decimal number it was written as"""
    return _mk("c", (Fraction(repr(x)),), "R")


def var(name, sort="R"):
    return _mk("v", (name,), sort)


_fresh = {}


def reset_fresh():
    _fresh.clear()


def fresh(prefix, sort="R"):
    n = _fresh.get(prefix, 0)
    _fresh[prefix] = n + 1
    return var("%s!%d" % (prefix, n), sort)


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


def _join(a, b):
    return "I" if a.sort == "I" and b.sort == "I" else "R"


def to_real(t):
    if t.sort == "I":
        if t.op == "c":
            return rconst(t.args[0])
        return _mk("real", (t,), "R")
    return t


def add(a, b):
    s = _join(a, b)
    if a.op == "c" and b.op == "c":
        return _mk("c", (a.args[0] + b.args[0],), s)
    if s == "R":
        a, b = to_real(a), to_real(b)
    if a.op == "c" and a.args[0] == 0:
        return b
    if b.op == "c" and b.args[0] == 0:
        return a
    return _mk("+", (a, b), s)


def mul(a, b):
    s = _join(a, b)
    if a.op == "c" and b.op == "c":
        return _mk("c", (a.args[0] * b.args[0],), s)
    if s == "R":
        a, b = to_real(a), to_real(b)
    for x, y in ((a, b), (b, a)):
        if x.op == "c":
            if x.args[0] == 1:
                return y
            if x.args[0] == 0:
                return _mk("c", (Fraction(0),), s)
    return _mk("*", (a, b), s)


def neg(a):
    return mul(_mk("c", (Fraction(-1),), a.sort), a)


def sub(a, b):
    if a is b:
        return _mk("c", (Fraction(0),), _join(a, b))
    return add(a, neg(b))


def div(a, b):
    a, b = to_real(a), to_real(b)
    if b.op == "c" and b.args[0] != 0:
        return mul(a, rconst(1 / b.args[0]))
    if a.op == "c" and a.args[0] == 0:
        return a
    return _mk("/", (a, b), "R")


def powi(a, n):
    """integer power"""
    if n == 0:
        return iconst(1) if a.sort == "I" else rconst(1)
    if n == 1:
        return a
    if n < 0:
        return div(rconst(1), powi(to_real(a), -n))
    if a.op == "c":
        return _mk("c", (a.args[0] ** n,), a.sort)
    return _mk("^", (a, n), a.sort)


def app(f, *args, sort="R"):
    if f in ("sqrt", "root") and args[0].op == "c" and args[0].args[0] in (0, 1):
        return args[0]
    return _mk("app", (f,) + tuple(args), sort)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B" or b.sort == "B":
        if a.op == "true":
            return b
        if b.op == "true":
            return a
        if a.op == "false":
            return lnot(b)
        if b.op == "false":
            return lnot(a)
        return _mk("iff", (a, b), "B")
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.sort != b.sort:
        a, b = to_real(a), to_real(b)
        if a is b:
            return TRUE
    return _mk("=", (a, b), "B")


def _sure_pos(t):
    """a logarithm of a constant larger than 1, or a positive constant"""
    if t.op == "app" and t.args[0] == "log" and t.args[1].op == "c":
        return t.args[1].args[0] > 1
    return t.op == "c" and t.args[0] > 0


def le(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] <= b.args[0] else FALSE
    if a.sort != b.sort:
        a, b = to_real(a), to_real(b)
    if a.op == "/" and b.op == "/" and a.args[1] is b.args[1] and _sure_pos(a.args[1]):
        return le(a.args[0], b.args[0])
    return _mk("<=", (a, b), "B")


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a.sort != b.sort:
        a, b = to_real(a), to_real(b)
    if a.op == "/" and b.op == "/" and a.args[1] is b.args[1] and _sure_pos(a.args[1]):
        return lt(a.args[0], b.args[0])
    return _mk("<", (a, b), "B")


def lnot(a):
    if a.op == "true":
        return FALSE
    if a.op == "false":
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "<":
        return le(a.args[1], a.args[0])
    if a.op == "<=":
        return lt(a.args[1], a.args[0])
    return _mk("not", (a,), "B")


def land(*xs):
    out = []
    for x in xs:
        if x.op == "false":
            return FALSE
        if x.op == "true":
            continue
        if x.op == "and":
            out.extend(y for y in x.args if y not in out)
        elif x not in out:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), "B")


def lor(*xs):
    out = []
    for x in xs:
        if x.op == "true":
            return TRUE
        if x.op == "false":
            continue
        if x.op == "or":
            out.extend(y for y in x.args if y not in out)
        elif x not in out:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out), "B")


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        a, b = to_real(a), to_real(b)
        if a is b:
            return a
    if a.sort == "B":
        return lor(land(c, a), land(lnot(c), b))
    return _mk("ite", (c, a, b), a.sort)


def tmin(a, b):
    if a.sort != b.sort:
        a, b = to_real(a), to_real(b)
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return a if a.args[0] <= b.args[0] else b
    if b.id < a.id:
        a, b = b, a
    return _mk("min", (a, b), a.sort)


def tmax(a, b):
    if a.sort != b.sort:
        a, b = to_real(a), to_real(b)
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return a if a.args[0] >= b.args[0] else b
    if b.id < a.id:
        a, b = b, a
    return _mk("max", (a, b), a.sort)


def tabs(a):
    if a.op == "c":
        return _mk("c", (abs(a.args[0]),), a.sort)
    return _mk("abs", (a,), a.sort)


# ---------------------------------------------------------------- binders
def _binder(op, lo, hi, x, body, sort):
    h = body.height + 1
    b = var("#%d" % h, x.sort)
    return _mk(op, (lo, hi, subst(body, {x: b})), sort)


def bound_var(t):
    """the canonical bound variable of a binder term"""
    h = t.args[2].height + 1
    return var("#%d" % h, "R" if t.op == "INT" else "I")


def tsum(lo, hi, fn):
    x = fresh("k", "I")
    body = fn(x)
    if body.op == "c" and body.args[0] == 0:
        return body
    if lo.op == "c" and hi.op == "c":
        n = hi.args[0] - lo.args[0]
        if n <= 8:
            acc = _mk("c", (Fraction(0),), body.sort)
            i = lo.args[0]
            while i < hi.args[0]:
                acc = add(acc, subst(body, {x: iconst(i)}))
                i += 1
            return acc
    return _binder("SUM", lo, hi, x, body, body.sort)


def tall(lo, hi, fn):
    x = fresh("k", "I")
    body = fn(x)
    if body.op == "true":
        return TRUE
    if lo.op == "c" and hi.op == "c" and hi.args[0] - lo.args[0] <= 8:
        out = TRUE
        i = lo.args[0]
        while i < hi.args[0]:
            out = land(out, subst(body, {x: iconst(i)}))
            i += 1
        return out
    return _binder("ALL", lo, hi, x, body, "B")


def tint(a, b, fn):
    x = fresh("t", "R")
    body = to_real(fn(x))
    return _binder("INT", to_real(a), to_real(b), x, body, "R")


def inst(t, value):
    """body of a binder at a value"""
    return subst(t.args[2], {bound_var(t): value})


# ---------------------------------------------------------------- traversal
_fv_cache = {}


def free_vars(t):
    if t._fv is not None:
        return t._fv
    if t.op == "v":
        r = frozenset((t,))
    else:
        r = frozenset()
        for a in t.args:
            if type(a) is T:
                r |= free_vars(a)
        if t.op in ("SUM", "ALL", "INT"):
            lo, hi, body = t.args
            r = free_vars(lo) | free_vars(hi) | (free_vars(body) - {bound_var(t)})
    t._fv = r
    return r


def rebuild(t, args):
    """t with new arguments, through the simplifying constructors"""
    op = t.op
    if op == "+":
        return add(*args)
    if op == "*":
        return mul(*args)
    if op == "/":
        return div(*args)
    if op == "^":
        return powi(*args)
    if op == "real":
        return to_real(args[0])
    if op == "=":
        return eq(*args)
    if op == "iff":
        return eq(*args)
    if op == "<":
        return lt(*args)
    if op == "<=":
        return le(*args)
    if op == "not":
        return lnot(*args)
    if op == "and":
        return land(*args)
    if op == "or":
        return lor(*args)
    if op == "ite":
        return ite(*args)
    if op == "min":
        return tmin(*args)
    if op == "max":
        return tmax(*args)
    if op == "abs":
        return tabs(*args)
    return _mk(op, tuple(args), t.sort)


def subst(t, m):
    """capture-avoiding: bound variables are canonical per height and never free in values we plug in
    except inside enclosing binders of larger height; we re-bind when the height changes."""
    if not m:
        return t
    return _subst(t, m, {})


def _subst(t, m, memo):
    if t.op == "c":
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "v":
        r = m.get(t, t)
    elif not t.args:
        r = t
    elif not (free_vars(t) & m.keys()):
        r = t
    elif t.op in ("SUM", "ALL", "INT"):
        lo, hi, body = t.args
        bv = bound_var(t)
        x = fresh("s", bv.sort)
        m2 = {k: w for k, w in m.items() if k is not bv}
        b2 = _subst(_subst(body, {bv: x}, {}), m2, {})
        lo2, hi2 = _subst(lo, m, memo), _subst(hi, m, memo)
        if t.op == "SUM":
            r = tsum(lo2, hi2, lambda y: _subst(b2, {x: y}, {}))
        elif t.op == "ALL":
            r = tall(lo2, hi2, lambda y: _subst(b2, {x: y}, {}))
        else:
            r = _binder("INT", lo2, hi2, x, b2, "R")
    else:
        args = [_subst(a, m, memo) if type(a) is T else a for a in t.args]
        r = rebuild(t, args)
    memo[t] = r
    return r


def subterms(t, seen=None):
    """all subterms (not descending under binders' bodies twice)"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if type(a) is T:
                stack.append(a)
    return seen


def _fs(q):
    if q.denominator == 1:
        return str(q.numerator)
    d = q.denominator
    while d % 2 == 0:
        d //= 2
    while d % 5 == 0:
        d //= 5
    if d == 1:
        return repr(float(q))
    return "%s/%s" % (q.numerator, q.denominator)


def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if depth > 40:
        return "..."
    s = lambda x: show(x, depth + 1)
    o = t.op
    if o == "c":
        return _fs(t.args[0])
    if o == "v":
        return t.args[0]
    if o in ("true", "false"):
        return o
    if o in ("+", "*", "/", "<", "<=", "=", "iff", "^"):
        return "(" + (" %s " % o).join(s(a) for a in t.args) + ")"
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(s(a) for a in t.args) + ")"
    if o == "real":
        return s(t.args[0])
    if o == "app":
        return "%s(%s)" % (t.args[0], ", ".join(s(a) for a in t.args[1:]))
    if o in ("SUM", "ALL", "INT"):
        return "%s[%s in %s..%s](%s)" % (o, bound_var(t).args[0], s(t.args[0]), s(t.args[1]), s(t.args[2]))
    return "%s(%s)" % (o, ", ".join(s(a) for a in t.args))


PI = app("pi")
