"""Assumed contracts of the Python builtins, numpy and scipy functions the code calls.

Everything here is trusted; names of the models used in a run are reported in the evidence.
"""
import os
import re
from fractions import Fraction
from .terms import *
from .values import *
from .helpers import same_value
from .logic import schema
from .exprs import StarArg
from .text import Text, TextFile, DIGITS

POSINF, NEGINF = app("posinf"), app("neginf")
BOOL_OPS = {"Lt": lt, "LtE": le, "Gt": lambda a, b: lt(b, a), "GtE": lambda a, b: le(b, a), "Eq": eq, "NotEq": lambda a, b: lnot(eq(a, b))}


def scalar(v):
    return isinstance(v, (bool, int, T))


def tlift(v):
    return lift(v)


class Dist:
    """scipy.stats distribution: methods of (x, loc, scale)"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<scipy.stats.%s>" % self.name


class Frozen:
    """distribution with fixed parameters"""

    def __init__(self, dist, args, kw):
        self.dist, self.args, self.kw = dist, args, kw


class Constants:
    """scipy.constants.physical_constants"""


class Vectorized:
    def __init__(self, fn):
        self.fn = fn

    def pycall(self, it, args, kw):
        if kw:
            raise Unsupported("keyword arguments of a vectorized function")
        return it.models.map_elementwise(lambda xs: it.call(self.fn, xs, {}), args)


class Interp1d:
    def __init__(self, x, y, lo, hi):
        self.x, self.y, self.lo, self.hi = x, y, lo, hi

    def pycall(self, it, args, kw):
        return it.models.interp_eval(self, args[0])


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw

    def pycall(self, it, args, kw):
        return it.call(self.fn, list(self.args) + list(args), {**self.kw, **kw})


class RootResult:
    def __init__(self, root, converged):
        self.root, self.converged = root, converged


class NamedTuple:
    """result(root, converged, zero_der)"""

    def __init__(self, names, values):
        self.names, self.values = names, values

    def iterate_segs(self, it):
        return [("e", v) for v in self.values]


# ------------------------------------------------------------------ axioms of the distributions
def _ax_dist(name):
    cdf, ppf = name + "_cdf", name + "_ppf"
    zero, one, half = rconst(0), rconst(1), rconst(Fraction(1, 2))

    @schema(cdf, ppf)
    def ax(apps):
        cs = [a for a in apps if a.args[0] == cdf]
        ps = [a for a in apps if a.args[0] == ppf]
        for a in cs:
            z = a.args[1]
            yield land(lt(zero, a), lt(a, one))
            yield implies(lt(zero, z), lt(half, a))
            yield implies(lt(z, zero), lt(a, half))
            yield implies(eq(z, zero), eq(a, half))
            if z.op == "app" and z.args[0] == ppf:
                q = z.args[1]
                yield implies(land(lt(zero, q), lt(q, one)), eq(a, q))
        for a in ps:
            q = a.args[1]
            inr = land(lt(zero, q), lt(q, one))
            yield implies(inr, eq(app(cdf, a), q))
            yield implies(land(inr, lt(half, q)), lt(zero, a))
            yield implies(land(inr, lt(q, half)), lt(a, zero))
            yield implies(eq(q, half), eq(a, zero))
            if q.op == "app" and q.args[0] == cdf:
                yield eq(a, q.args[1])
        for i, a in enumerate(cs):
            for b in cs[i + 1:]:
                z, w = a.args[1], b.args[1]
                yield implies(lt(z, w), lt(a, b))
                yield implies(lt(w, z), lt(b, a))
                yield implies(eq(z, w), eq(a, b))
                yield implies(eq(add(z, w), zero), eq(add(a, b), one))
        for i, a in enumerate(ps):
            for b in ps[i + 1:]:
                q, r = a.args[1], b.args[1]
                inr = land(lt(zero, q), lt(q, one), lt(zero, r), lt(r, one))
                yield implies(land(inr, lt(q, r)), lt(a, b))
                yield implies(land(inr, lt(r, q)), lt(b, a))
                yield implies(land(inr, eq(add(q, r), one)), eq(add(a, b), zero))
    return ax


for _n in ("norm", "cauchy"):
    _ax_dist(_n)


@schema("voigt")
def _ax_voigt(apps):
    # voigt(x, sigma, gamma) is positive and even in x
    for a in apps:
        x, s, g = a.args[1:]
        yield implies(land(lt(rconst(0), s), lt(rconst(0), g)), lt(rconst(0), a))
    for i, a in enumerate(apps):
        for b in apps[i + 1:]:
            same = land(eq(a.args[2], b.args[2]), eq(a.args[3], b.args[3]))
            yield implies(land(same, eq(add(a.args[1], b.args[1]), rconst(0))), eq(a, b))


class Models(Text):
    def __init__(self, it):
        self.it = it

    # ------------------------------------------------------------------ numbers and arrays
    def use(self, name):
        self.it.assumed.add(name)

    def inf(self, v):
        if v != v:
            raise Unsupported("nan")
        return POSINF if v > 0 else NEGINF

    def num(self, v):
        if scalar(v):
            return lift(v)
        if isinstance(v, ArrVal) and len(v.shape) == 0:
            return v.f()
        raise Unsupported("number expected, got %r" % (v,))

    def as_array(self, v):
        """numpy conversion of array-likes"""
        if isinstance(v, ArrVal) or scalar(v):
            return v
        if isinstance(v, SetVal):
            raise Unsupported("array of a set")
        if isinstance(v, (tuple, ListVal)):
            segs = [("e", x) for x in v] if isinstance(v, tuple) else v.segs
            return self.array_of_segs(segs)
        if isinstance(v, NamedTuple):
            return self.array_of_segs([("e", x) for x in v.values])
        if v is None:
            raise Unsupported("array of None")
        raise Unsupported("array from %r" % (v,))

    def array_of_segs(self, segs):
        pieces = []     # (length, element fn(i) -> value)
        rank = None
        shape2 = None
        for s in segs:
            if s[0] == "e":
                v = self.as_array(s[1])
                if isinstance(v, ArrVal) and len(v.shape) == 0:
                    v = v.f()
                pieces.append((iconst(1), (lambda i, v=v: v)))
            elif s[0] == "r":
                x = s[2]
                v = self.as_array(s[3])
                pieces.append((s[1], (lambda i, v=v, x=x: vsubst(v, {x: i}))))
            else:
                raise Unsupported("array of a sequence with irregular parts")
            r = 0 if scalar(v) else len(v.shape)
            if rank is None:
                rank = r
                shape2 = v.shape if r else None
            elif rank != r:
                raise Unsupported("ragged array")
            elif r:
                for a, b in zip(shape2, v.shape):
                    self.it.defined(eq(a, b), "equal row lengths")
        n = iconst(0)
        starts = []
        for m, _ in pieces:
            starts.append(n)
            n = add(n, m)
        nf = self.it.prover.normer([])
        sort = "R"
        if rank in (None, 0) and pieces:
            sorts = {self.num(f(iconst(0))).sort for _, f in pieces}
            sort = "B" if sorts == {"B"} else "I" if sorts == {"I"} else "R"

        def pick(i, get):
            if is_const(i):
                for st, (m, f) in zip(starts, pieces):
                    if is_const(st) and is_const(m):
                        if cval(st) <= cval(i) < cval(st) + cval(m):
                            return get(f(sub(i, st)))
                    else:
                        break
            out = None
            for st, (m, f) in reversed(list(zip(starts, pieces))):
                val = get(f(sub(i, st)))
                out = val if out is None else ite(lt(i, add(st, m)), val, out)
            return out

        if not pieces:
            return ArrVal([iconst(0)], lambda i: rconst(0))
        if rank == 0:
            cast = (lambda t: to_real(t)) if sort == "R" else (lambda t: t)
            return ArrVal([n], lambda i: pick(i, lambda v: cast(self.num(v))), sort)
        fs = None
        return ArrVal([n] + list(shape2), lambda i, *j: pick(i, lambda v: v.f(*j)))

    def snapf(self, v):
        """(shape, element fn of full index) of a scalar or array, contents as of now"""
        if scalar(v):
            t = lift(v)
            return (), (lambda *i: t)
        return v.shape, v.snap()

    def bshape(self, shapes):
        r = max(len(s) for s in shapes)
        out = []
        for d in range(r):
            dim = None
            for s in shapes:
                p = d - (r - len(s))
                if p < 0:
                    continue
                m = s[p]
                if is_const(m) and cval(m) == 1:
                    if dim is None:
                        dim = m
                    continue
                if dim is None or (is_const(dim) and cval(dim) == 1):
                    dim = m
                elif dim is not m:
                    self.it.defined(eq(dim, m), "array shapes match")
            out.append(dim)
        return tuple(out)

    def bidx(self, shape, idx):
        """index of an operand of `shape` for result index idx"""
        k = len(idx) - len(shape)
        return [iconst(0) if is_const(m) and cval(m) == 1 else i for m, i in zip(shape, idx[k:])]

    def elementwise(self, fn, vals, sort=None):
        vals = [self.as_array(v) for v in vals]
        if all(scalar(v) for v in vals):
            return fn(*[lift(v) for v in vals])
        ops = [self.snapf(v) for v in vals]
        shape = self.bshape([s for s, _ in ops])

        def f(*i):
            return fn(*[g(*self.bidx(s, i)) for s, g in ops])

        if sort is None:
            sort = f(*[fresh("p", "I") for _ in shape]).sort
        return ArrVal(shape, f, sort)

    def elementwise1(self, v, fn, what):
        if isinstance(v, (ObjVal, Opaque)):
            m = self.it.user(v, "__neg__")
            if m is not None:
                return self.it.call(Bound(v, m), [], {})
        if isinstance(v, bool) and what == "neg":
            v = int(v)
        if isinstance(v, int) and what == "neg":
            return -v
        r = self.elementwise(fn, [v])
        return self.back(r)

    def back(self, t):
        """integer constants are Python ints"""
        if isinstance(t, T):
            if t.op == "c" and t.sort == "I":
                return int(t.args[0])
            if t.op == "true":
                return True
            if t.op == "false":
                return False
        return t

    def elem_all(self, cond, vals):
        """the condition for every element"""
        ops = [self.snapf(self.as_array(v)) for v in vals]
        shape = self.bshape([s for s, _ in ops])
        if not shape:
            return cond(*[g() for _, g in ops])

        def rec(d, idx):
            if d == len(shape):
                return cond(*[g(*self.bidx(s, idx)) for s, g in ops])
            return tall(iconst(0), shape[d], lambda i: rec(d + 1, idx + [i]))
        return rec(0, [])

    def require_elem(self, cond, vals, what):
        """definedness of an elementwise operation, for every element"""
        self.it.defined(self.elem_all(cond, vals), what)

    def map_elementwise(self, fn, args):
        """fn(list of scalars) for every element, facts and obligations for a generic element"""
        args = [self.as_array(a) for a in args]
        if all(scalar(a) for a in args):
            return fn(args)
        ops = [self.snapf(a) for a in args]
        shape = self.bshape([s for s, _ in ops])
        if len(shape) != 1:
            raise Unsupported("map over a multidimensional array")
        it = self.it
        k = fresh("e", "I")
        base = list(it.pc)
        ctx = it.index_ctx

        def go():
            it.index_ctx = ctx + [k]
            it.fact(le(iconst(0), k))
            it.fact(lt(k, shape[0]))
            return fn([self.back(g(*self.bidx(s, [k]))) for s, g in ops])
        try:
            outs = it.explore(go)
        finally:
            it.index_ctx = ctx
        val = None
        for o in outs:
            if o.kind != "normal" or o.effects:
                raise Unsupported("elementwise function with side effects or exceptions")
            for ob in o.obligations:
                it.obligations.append(ob)
            v = self.num(o.value)
            val = v if val is None else ite(land(*o.dec), v, val)
            for p in o.pc:
                if any(s.op == "app" and isinstance(s.args[0], str) and s.args[0].startswith("wit:") and k in free_vars(s) for s in subterms(p)):
                    g = implies(land(*o.dec), p)
                    it.fact(tall(iconst(0), shape[0], lambda i, g=g: subst(g, {k: i})))
        if val is None:
            return ArrVal(shape, lambda i: rconst(0))
        return ArrVal(shape, lambda i, val=val: subst(val, {k: i}), val.sort)

    # ------------------------------------------------------------------ operators
    def binop(self, op, a, b):
        it = self.it
        if isinstance(a, bool):
            a = int(a) if op not in ("BitAnd", "BitOr", "BitXor") else a
        if isinstance(b, bool):
            b = int(b) if op not in ("BitAnd", "BitOr", "BitXor") else b
        if isinstance(a, (str, Rope)) or isinstance(b, (str, Rope)):
            if op == "Add" and isinstance(a, (str, Rope)) and isinstance(b, (str, Rope)):
                return self.text([a, b])
            if op == "Mult" and isinstance(a, str) and isinstance(b, int):
                return a * b
            if op == "Mod" and isinstance(a, str):
                return self.percent(a, b)
            if op == "Div" and isinstance(a, PathVal):
                return PathVal(self.text([a.text, "/", b]))
            if op == "Div":
                raise Unsupported("path operator")
            raise PyRaise("TypeError", "str operand")
        if a is None or b is None or isinstance(a, (DictVal,)) or isinstance(b, DictVal):
            if isinstance(a, DictVal) and isinstance(b, DictVal) and op == "BitOr":
                d = DictVal(list(a.segs))
                self.dict_update(d, b)
                return d
            raise PyRaise("TypeError", "operand")
        if isinstance(a, SetVal) or isinstance(b, SetVal):
            if isinstance(a, SetVal) and isinstance(b, SetVal) and op == "BitOr":
                return SetVal(ListVal(a.source.segs + b.source.segs))
            raise Unsupported("set operator")
        la, lb = isinstance(a, (ListVal, tuple)), isinstance(b, (ListVal, tuple))
        if (la or lb) and not (isinstance(a, ArrVal) or isinstance(b, ArrVal)):
            return self.seqop(op, a, b)
        if isinstance(a, int) and isinstance(b, int):
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mult":
                return a * b
            if op == "Div":
                if b == 0:
                    raise PyRaise("ZeroDivisionError")
                return rconst(Fraction(a, b))
            if op == "FloorDiv" and b:
                return a // b
            if op == "Mod" and b:
                return a % b
            if op == "Pow":
                if b >= 0:
                    return a ** b
                return rconst(Fraction(a) ** b)
            if op in ("BitAnd", "BitOr", "BitXor") and isinstance(a, bool):
                return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
        for v in (a, b):
            if not (scalar(v) or isinstance(v, (ArrVal, ListVal, tuple))):
                raise Unsupported("operator %s on %r" % (op, v))
        fn = {"Add": add, "Sub": sub, "Mult": mul}.get(op)
        if fn is not None:
            def safe(x, y):
                for t in (x, y):
                    if t.sort == "B":
                        raise Unsupported("arithmetic on a boolean")
                    if t is POSINF or t is NEGINF:
                        raise Unsupported("arithmetic on an infinity")
                return fn(x, y)
            return self.back(self.elementwise(safe, [a, b]))
        if op == "Div":
            self.require_elem(lambda x, y: lnot(eq(to_real(y), rconst(0))) if not is_const(y) or cval(y) == 0 else TRUE, [a, b], "division by nonzero")
            return self.elementwise(div, [a, b])
        if op == "Pow":
            return self.power(a, b)
        if op in ("BitAnd", "BitOr"):
            g = land if op == "BitAnd" else lor
            def bb(x, y):
                if x.sort != "B" or y.sort != "B":
                    raise Unsupported("bit operation")
                return g(x, y)
            return self.back(self.elementwise(bb, [a, b]))
        if op == "MatMult":
            return self.dot(a, b)
        if op in ("FloorDiv", "Mod") and isinstance(b, int) and b > 0 and isinstance(a, T) and a.sort == "I":
            q = it.witness("q", "I")
            r = sub(a, mul(iconst(b), q))
            it.fact(land(le(iconst(0), r), lt(r, iconst(b))))
            return q if op == "FloorDiv" else r
        raise Unsupported("operator %s" % op)

    def power(self, a, b):
        e = self.as_array(b)
        if isinstance(e, int) or (isinstance(e, T) and e.op == "c" and cval(e).denominator == 1):
            n = int(e) if isinstance(e, int) else int(cval(e))
            if isinstance(e, T) and isinstance(a, int):
                a = lift(a)
            if n < 0:
                self.require_elem(lambda x: lnot(eq(to_real(x), rconst(0))), [a], "negative power of nonzero")
            real = isinstance(e, T) and e.sort == "R" or n < 0
            return self.back(self.elementwise(lambda x: powi(to_real(x) if real else x, n), [a]))
        if isinstance(e, T) and e.op == "c":
            q = cval(e)
            if abs(q.numerator) > 20 or q.denominator > 20:
                raise Unsupported("power with exponent %s" % q)
            if q > 0:
                self.require_elem(lambda x: le(rconst(0), to_real(x)), [a], "fractional power of a nonnegative number")
            else:
                self.require_elem(lambda x: lt(rconst(0), to_real(x)), [a], "fractional power of a positive number")

            def rt(x):
                x = to_real(x)
                base = app("sqrt", x) if q.denominator == 2 else app("root", x, iconst(q.denominator))
                return powi(base, q.numerator)
            return self.elementwise(rt, [a])
        base = self.as_array(a)
        self.require_elem(lambda x: lt(rconst(0), to_real(x)), [base], "power of a positive base")

        def g(x, y):
            return app("exp", mul(to_real(y), app("log", to_real(x))))
        return self.elementwise(g, [base, e])

    def seqop(self, op, a, b):
        la, lb = isinstance(a, (ListVal, tuple)), isinstance(b, (ListVal, tuple))
        if op == "Add" and la and lb:
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            ka = "tuple" if isinstance(a, tuple) else a.kind
            kb = "tuple" if isinstance(b, tuple) else b.kind
            if ka != kb:
                raise PyRaise("TypeError", "concatenation")
            sa = [("e", x) for x in a] if isinstance(a, tuple) else a.segs
            sb = [("e", x) for x in b] if isinstance(b, tuple) else b.segs
            return ListVal(sa + sb, ka)
        if op == "Mult":
            if lb:
                a, b = b, a
            if isinstance(a, tuple):
                if isinstance(b, int):
                    return a * b
                raise Unsupported("tuple repetition")
            if isinstance(b, int):
                return ListVal(a.segs * max(b, 0), a.kind)
            if isinstance(b, T) and b.sort == "I":
                n = b if self.it.prover.entails_quick(self.it.pc, le(iconst(0), b)) else tmax(b, iconst(0))
                if len(a.segs) == 1 and a.segs[0][0] == "e":
                    return ListVal([("r", n, fresh("x", "I"), a.segs[0][1])], a.kind)
                return ListVal([("b", n, fresh("x", "I"), tuple(a.segs))], a.kind)
            raise PyRaise("TypeError", "repetition")
        raise PyRaise("TypeError", "sequence operand")

    def compare(self, name, a, b):
        it = self.it
        if isinstance(a, str) and isinstance(b, str):
            return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[name]
        if isinstance(a, (Rope,)) or isinstance(b, Rope):
            return self.rope_compare(name, a, b)
        if isinstance(a, Key) or isinstance(b, Key):
            r = self.key_eq(a, b)
            if name == "Eq":
                return self.back(r)
            if name == "NotEq":
                return self.back(lnot(r))
            raise Unsupported("ordering of keys")
        if (scalar(a) or isinstance(a, ArrVal)) and (scalar(b) or isinstance(b, ArrVal)) or isinstance(a, ArrVal) or isinstance(b, ArrVal):
            if isinstance(a, bool) and isinstance(b, bool):
                return {"Eq": a == b, "NotEq": a != b}.get(name)
            if scalar(a) and scalar(b) and not isinstance(a, T) and not isinstance(b, T):
                return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[name]
            return self.back(self.elementwise(lambda x, y: self.cmp_terms(name, x, y), [a, b]))
        if name in ("Eq", "NotEq"):
            if isinstance(a, (tuple, ListVal)) and isinstance(b, (tuple, ListVal)):
                r = self.seq_eq(a, b)
            elif a is None or b is None:
                r = a is b
            elif isinstance(a, (ObjVal, Opaque, FuncVal, ClassVal, TypeVal, Dist)) or isinstance(b, (ObjVal, Opaque, FuncVal, ClassVal, TypeVal, Dist)):
                r = self.identical(a, b)
            elif type(a) is not type(b) and not isinstance(a, (DictVal, SetVal)):
                r = False
            else:
                raise Unsupported("equality of %r and %r" % (a, b))
            if name == "Eq":
                return r
            return (not r) if isinstance(r, bool) else lnot(r)
        if a is None or b is None:
            raise PyRaise("TypeError", "comparison")
        raise Unsupported("comparison of %r and %r" % (a, b))

    def cmp_terms(self, name, x, y):
        for u, w, flip in ((x, y, False), (y, x, True)):
            if w is POSINF or w is NEGINF:
                if u is w:
                    c = 0
                else:
                    if u is not POSINF and u is not NEGINF and u.op == "ite":
                        return ite(u.args[0], self.cmp_terms(name, *( (u.args[1], w) if not flip else (w, u.args[1]))),
                                   self.cmp_terms(name, *((u.args[2], w) if not flip else (w, u.args[2]))))
                    c = -1 if w is POSINF else 1
                    if flip:
                        c = -c
                r = {"Lt": c < 0, "LtE": c <= 0, "Gt": c > 0, "GtE": c >= 0, "Eq": c == 0, "NotEq": c != 0}[name]
                return TRUE if r else FALSE
        for u, w, flip in ((x, y, False), (y, x, True)):
            if u.op == "ite" and any(s is POSINF or s is NEGINF for s in subterms(u)):
                g = lambda t: self.cmp_terms(name, t, w) if not flip else self.cmp_terms(name, w, t)
                return ite(u.args[0], g(u.args[1]), g(u.args[2]))
        return BOOL_OPS[name](x, y)

    def seq_eq(self, a, b):
        sa = [("e", x) for x in a] if isinstance(a, tuple) else a.segs
        sb = [("e", x) for x in b] if isinstance(b, tuple) else b.segs
        if (isinstance(a, tuple) or a.kind == "tuple") != (isinstance(b, tuple) or b.kind == "tuple"):
            return False
        if all(s[0] == "e" for s in sa) and all(s[0] == "e" for s in sb):
            if len(sa) != len(sb):
                return False
            out = TRUE
            for x, y in zip(sa, sb):
                r = self.compare("Eq", x[1], y[1])
                out = land(out, lift(r))
            return self.back(out)
        n, m = lift(seg_len(sa)), lift(seg_len(sb))
        if not self.it.branch(eq(n, m)):
            return False
        raise Unsupported("equality of unbounded sequences")

    def identical(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isinstance(a, T) and a.sort == "B" and isinstance(b, bool):
            return a if b else lnot(a)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a is b:
                return True
            if a.name == b.name and a.idx and len(a.idx) == len(b.idx):
                return self.back(land(*[eq(x, y) for x, y in zip(a.idx, b.idx)]))
            return False
        if isinstance(a, (ObjVal, ListVal, DictVal, ArrVal, FuncVal, ClassVal, TypeVal, Opaque, Dist, Builtin)) or isinstance(b, (ObjVal, ListVal, DictVal, ArrVal, FuncVal, ClassVal, TypeVal, Opaque, Dist, Builtin)):
            if isinstance(a, TypeVal) and isinstance(b, TypeVal):
                return a.name == b.name
            return a is b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a is b
        if isinstance(a, (int, T)) != isinstance(b, (int, T)):
            return False
        raise Unsupported("identity of %r and %r" % (a, b))

    def contains(self, c, x):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Rope) or isinstance(x, Rope):
            return self.rope_contains(c, x)
        if isinstance(c, ArrVal):
            if len(c.shape) != 1:
                raise Unsupported("membership in a matrix")
            f = c.snap()
            xt = lift(x)
            return self.back(lnot(tall(iconst(0), c.shape[0], lambda i: lnot(eq(f(i), xt)))))
        if isinstance(c, DictVal):
            r = self.dict_find(c, x)
            return r is not None
        if isinstance(c, SetVal):
            c = c.source
        if isinstance(c, (tuple, ListVal)):
            segs = [("e", y) for y in c] if isinstance(c, tuple) else c.segs

            def ne(y):
                r = self.compare("Eq", y, x)
                return lnot(lift(r)) if isinstance(r, (bool, T)) else self._bad()
            return self.back(lnot(seg_all(segs, ne)))
        raise Unsupported("membership in %r" % (c,))

    def _bad(self):
        raise Unsupported("membership")

    # ------------------------------------------------------------------ keys and dictionaries
    def key_eq(self, a, b):
        if isinstance(a, Key) and isinstance(b, Key):
            return eq(a.idx, b.idx) if a.fam == b.fam else FALSE
        if isinstance(a, Key) or isinstance(b, Key):
            return FALSE
        if isinstance(a, (Rope, str)) and isinstance(b, (Rope, str)):
            if isinstance(a, str) and isinstance(b, str):
                return TRUE if a == b else FALSE
            return lift(self.rope_compare("Eq", a, b))
        if scalar(a) and scalar(b):
            return eq(lift(a), lift(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            return land(*[self.key_eq(x, y) for x, y in zip(a, b)])
        if type(a) is not type(b):
            return FALSE
        r = self.identical(a, b)
        return lift(r)

    def lone_symbol(self, k):
        """the key of a text that is one element symbol"""
        if isinstance(k, Rope) and len(k.parts) == 1 and isinstance(k.parts[0], Tok) and k.parts[0].kind == "sym" and isinstance(k.parts[0].value, Key):
            return k.parts[0].value
        return None

    def dict_find(self, d, k):
        """(segment position, index substitution) of the entry with key k, or None; may fork"""
        it = self.it
        for pos in range(len(d.segs) - 1, -1, -1):
            s = d.segs[pos]
            if s[0] == "havoc":
                if not scalar(k):
                    raise Unsupported("dictionary read while it is built in a loop")
                if it.branch(eq(app(s[1], lift(k), sort="I"), iconst(1))):
                    return pos, None
                continue
            if s[0] == "e":
                if it.branch(self.key_eq(s[1], k)):
                    return pos, None
            elif s[0] == "r":
                _, n, x, kt, vt = s
                i = None
                if isinstance(kt, Key) and kt.idx is x:
                    if isinstance(k, Key) and k.fam == kt.fam:
                        i = k.idx
                    else:
                        continue
                elif isinstance(kt, T) and kt is x and scalar(k):
                    i = lift(k)
                elif self.lone_symbol(kt) is not None and self.lone_symbol(kt).idx is x and self.lone_symbol(k) is not None and self.lone_symbol(k).fam == self.lone_symbol(kt).fam:
                    i = self.lone_symbol(k).idx
                else:
                    w = it.witness("pos", "I")
                    ex = lnot(tall(iconst(0), n, lambda j: lnot(self.key_eq(vsubst(kt, {x: j}), k))))
                    if ex.op == "false":
                        continue
                    if it.branch(ex):
                        it.fact(le(iconst(0), w))
                        it.fact(lt(w, n))
                        it.fact(self.key_eq(vsubst(kt, {x: w}), k))
                        return pos, w
                    continue
                if it.branch(land(le(iconst(0), i), lt(i, n))):
                    return pos, i
            elif s[0] == "f":
                # ('f', fam, n, order, has, value): arbitrary order
                _, fam, n, order, has, val = s
                if isinstance(k, Key) and k.fam == fam:
                    if it.branch(has(k.idx)):
                        return pos, k.idx
            else:
                raise Unsupported("dictionary segment")
        return None

    def dict_value(self, d, found):
        pos, i = found
        s = d.segs[pos]
        if s[0] == "e":
            return s[2]
        if s[0] == "havoc":
            raise Unsupported("dictionary read while it is built in a loop")
        if s[0] == "f":
            return s[5](i)
        return vsubst(s[4], {s[2]: i})

    def dict_get(self, d, k):
        f = self.dict_find(d, k)
        if f is None:
            raise PyRaise("KeyError", k)
        return self.dict_value(d, f)

    def dict_set(self, d, k, v):
        it = self.it
        self.hashable(k)
        if d.segs and d.segs[0][0] == "havoc":
            # inside a summarised loop: entries written in this iteration follow the havocked part
            for pos, s in enumerate(d.segs[1:], 1):
                r = self.key_eq(s[1], k)
                if it.branch(r):
                    segs = list(d.segs)
                    segs[pos] = ("e", s[1], v)
                    it.set_segs(d, segs)
                    return
            it.set_segs(d, d.segs + [("e", k, v)])
            return
        f = self.dict_find(d, k)
        if f is None:
            it.set_segs(d, d.segs + [("e", k, v)])
            return
        pos, i = f
        s = d.segs[pos]
        segs = list(d.segs)
        if s[0] == "e":
            segs[pos] = ("e", s[1], v)
        elif s[0] == "r":
            old, x = s[4], s[2]
            segs[pos] = ("r", s[1], x, s[3], it.merge_values(eq(x, i), v, old))
        else:
            raise Unsupported("write to an abstract dictionary")
        it.set_segs(d, segs)

    def hashable(self, k):
        if isinstance(k, (ListVal, DictVal, SetVal, ArrVal)):
            raise PyRaise("TypeError", "unhashable")

    def dict_keys(self, d):
        out = []
        for s in d.segs:
            if s[0] == "e":
                out.append(("e", s[1]))
            elif s[0] == "r":
                out.append(("r", s[1], s[2], s[3]))
            elif s[0] == "f":
                x = fresh("x", "I")
                out.append(("r", s[2], x, Key(s[1], s[3](x))))
            else:
                raise Unsupported("iteration over a dictionary under construction in a loop")
        return out

    def dict_items(self, d):
        if not isinstance(d, DictVal):
            raise Unsupported("mapping expected")
        out = []
        for s in d.segs:
            if s[0] == "e":
                out.append(("e", (s[1], s[2])))
            elif s[0] == "r":
                out.append(("r", s[1], s[2], (s[3], s[4])))
            elif s[0] == "f":
                x = fresh("x", "I")
                out.append(("r", s[2], x, (Key(s[1], s[3](x)), s[5](s[3](x)))))
            else:
                raise Unsupported("iteration over a dictionary under construction in a loop")
        return out

    def dict_values(self, d):
        out = []
        for s in self.dict_items(d):
            out.append(("e", s[1][1]) if s[0] == "e" else ("r", s[1], s[2], s[3][1]))
        return out

    def dict_update(self, d, o):
        if not isinstance(o, DictVal):
            raise Unsupported("dict update")
        if not d.segs:
            self.it.set_segs(d, list(o.segs))
            return
        for s in o.segs:
            if s[0] != "e":
                raise Unsupported("dict update with an unbounded mapping")
            self.dict_set(d, s[1], s[2])

    def set_iter(self, s):
        raise Unsupported("iteration order of a set")

    # ------------------------------------------------------------------ subscripts
    def row(self, a, i):
        if len(a.shape) == 1:
            return self.back(a.f(i)) if a.sort != "I" else self.back(a.f(i))
        return ArrVal(a.shape[1:], None, a.sort, view=(a, lambda *j: (i,) + j))

    def norm_index(self, i, n, what="index"):
        """normalised index term, bounds as definedness"""
        it = self.it
        if isinstance(i, bool):
            raise Unsupported("boolean index")
        if isinstance(i, int):
            if i >= 0:
                c = lt(iconst(i), n)
                t = iconst(i)
            else:
                c = le(iconst(-i), n)
                t = add(n, iconst(i))
        elif isinstance(i, T) and i.sort == "I":
            nonneg = it.prover.entails_quick(it.pc, le(iconst(0), i))
            if not nonneg and not it.branch(le(iconst(0), i)):
                t = add(n, i)
                c = land(le(iconst(0), t))
            else:
                t = i
                c = lt(i, n)
        else:
            raise PyRaise("IndexError", "index type")
        if c.op == "false":
            raise PyRaise("IndexError", what)
        if c.op != "true":
            if not it.prover.feasible(it.pc, c):
                raise PyRaise("IndexError", what)
            if isinstance(i, int) or True:
                self.it.defined(c, what + " in range")
        return t

    def slice_bounds(self, s, n):
        it = self.it
        if s.step is not None and s.step != 1:
            if s.step == -1 and s.start is None and s.stop is None:
                return "rev"
            raise Unsupported("slice step")

        def norm(b, default):
            if b is None:
                return default
            t = lift(b)
            if t.sort != "I":
                raise PyRaise("TypeError", "slice")
            if is_const(t):
                if cval(t) < 0:
                    t = add(n, t)
                    if is_const(t):
                        return t if cval(t) >= 0 else iconst(0)
                    return t if it.prover.entails_quick(it.pc, le(iconst(0), t)) else tmax(t, iconst(0))
                if cval(t) == 0:
                    return t
            elif not it.prover.entails_quick(it.pc, le(iconst(0), t)):
                if not it.branch(le(iconst(0), t)):
                    t = add(n, t)
                    t = t if it.prover.entails_quick(it.pc, le(iconst(0), t)) else tmax(t, iconst(0))
            if t is n:
                return t
            return t if it.prover.entails_quick(it.pc, le(t, n)) else tmin(t, n)
        lo, hi = norm(s.start, iconst(0)), norm(s.stop, n)
        m = sub(hi, lo)
        nf = it.prover.normer([]).canon(m)
        from .norm import unreal
        m = unreal(nf) if nf.sort == "R" else nf
        if not it.prover.entails_quick(it.pc, le(iconst(0), m)):
            m = tmax(m, iconst(0))
        return lo, m

    def getitem(self, obj, idx):
        it = self.it
        if isinstance(obj, ArrVal):
            return self.arr_get(obj, idx)
        if isinstance(obj, DictVal):
            return self.dict_get(obj, idx)
        if isinstance(obj, str):
            if isinstance(idx, slice):
                return obj[idx]
            try:
                return obj[idx]
            except IndexError:
                raise PyRaise("IndexError", "string index")
        if isinstance(obj, tuple):
            if isinstance(idx, slice):
                if all(x is None or isinstance(x, int) for x in (idx.start, idx.stop, idx.step)):
                    return obj[idx]
                raise Unsupported("symbolic slice of a tuple")
            if isinstance(idx, int):
                try:
                    return obj[idx]
                except IndexError:
                    raise PyRaise("IndexError", "tuple index")
            return self.getitem(ListVal.of(obj, "tuple"), idx)
        if isinstance(obj, NamedTuple):
            return self.getitem(tuple(obj.values), idx)
        if isinstance(obj, ListVal):
            if isinstance(idx, slice):
                return self.list_slice(obj, idx)
            return self.list_at(obj, idx)
        if isinstance(obj, Constants):
            return self.constant(idx)
        if isinstance(obj, Rope):
            return self.rope_getitem(obj, idx)
        if obj is None or scalar(obj):
            raise PyRaise("TypeError", "not subscriptable")
        raise Unsupported("subscript of %r" % (obj,))

    def list_slice(self, obj, idx):
        c = obj.concrete()
        if c is not None and all(x is None or isinstance(x, int) for x in (idx.start, idx.stop, idx.step)):
            return ListVal.of(c[idx], obj.kind)
        if idx.start is None and idx.stop is None and idx.step is None:
            return ListVal(list(obj.segs), obj.kind)
        n = lift(obj.length())
        b = self.slice_bounds(idx, n)
        x = fresh("x", "I")
        if b == "rev":
            return ListVal([("r", n, x, self.list_val(obj, sub(sub(n, iconst(1)), x)))], obj.kind)
        lo, m = b
        saved = list(self.it.pc)
        self.it.fact(le(iconst(0), x))
        self.it.fact(lt(x, m))
        try:
            v = self.list_val(obj, add(lo, x))
        finally:
            self.it.pc = saved
        return ListVal([("r", m, x, v)], obj.kind)

    def list_at(self, obj, idx):
        n = lift(obj.length())
        i = self.norm_index(idx, n, "list index")
        return self.list_val(obj, i)

    def list_val(self, obj, i):
        """value at a valid index, forking over segments where needed"""
        it = self.it
        start = iconst(0)
        segs = obj.segs
        for p, s in enumerate(segs):
            if s[0] == "e":
                m = iconst(1)
            elif s[0] == "r":
                m = s[1]
            else:
                raise Unsupported("index into an irregular list")
            end = add(start, m)
            last = p == len(segs) - 1
            inside = True if last else self.decided(lt(i, end))
            if inside is None:
                # same type of numeric values: merge, otherwise fork
                vals = [self.seg_value(t, i, segs, q) for q, t in enumerate(segs)]
                if all(scalar(v) for v in vals):
                    out = lift(vals[-1])
                    ends = self.ends(segs)
                    for v, e in reversed(list(zip(vals[:-1], ends[:-1]))):
                        out = ite(lt(i, e), lift(v), out)
                    return out
                inside = it.branch(lt(i, end))
            if inside:
                return self.seg_value(s, i, segs, p)
            start = end
        raise PyRaise("IndexError", "list index")

    def ends(self, segs):
        out = []
        t = iconst(0)
        for s in segs:
            t = add(t, iconst(1) if s[0] == "e" else s[1])
            out.append(t)
        return out

    def seg_value(self, s, i, segs, p):
        if s[0] == "e":
            return s[1]
        start = self.ends(segs)[p - 1] if p else iconst(0)
        d = sub(i, start)
        nf = self.it.prover.normer([]).canon(d)
        from .norm import unreal
        d = unreal(nf) if nf.sort == "R" else nf
        return vsubst(s[3], {s[2]: d})

    def decided(self, c):
        it = self.it
        n = it.prover.normer(it.pc)
        c2 = n.canon_bool(c)
        if c2.op == "true":
            return True
        if c2.op == "false":
            return False
        if it.prover.entails_quick(it.pc, c):
            return True
        if it.prover.entails_quick(it.pc, lnot(c)):
            return False
        return None

    def arr_get(self, a, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        if any(x is Ellipsis or x is None for x in idx):
            if idx in ((Ellipsis,),):
                return ArrVal(a.shape, None, a.sort, view=(a, lambda *j: j))
            raise Unsupported("array index with newaxis or ellipsis")
        if len(idx) == 1 and isinstance(idx[0], (ArrVal, ListVal)):
            ix = self.as_array(idx[0])
            if len(a.shape) != 1 or len(ix.shape) != 1:
                raise Unsupported("fancy index")
            if ix.sort == "B":
                raise Unsupported("boolean mask")
            if ix.sort != "I":
                raise Unsupported("fancy index")
            g, h, n = a.snap(), ix.snap(), a.shape[0]
            self.require_elem(lambda i: land(le(iconst(0), i), lt(i, n)), [ix], "index in range")
            return ArrVal(ix.shape, lambda i: g(h(i)), a.sort)
        if len(idx) > len(a.shape):
            raise PyRaise("IndexError", "too many indices")
        maps, shape = [], []
        for d, x in enumerate(idx):
            n = a.shape[d]
            if isinstance(x, slice):
                b = self.slice_bounds(x, n)
                if b == "rev":
                    maps.append(("s", lambda j, n=n: sub(sub(n, iconst(1)), j)))
                    shape.append(n)
                else:
                    lo, m = b
                    maps.append(("s", lambda j, lo=lo: add(j, lo)))
                    shape.append(m)
            else:
                if isinstance(x, T) and x.sort == "R":
                    raise PyRaise("IndexError", "float index")
                maps.append(("i", self.norm_index(x, n, "array index")))
        for d in range(len(idx), len(a.shape)):
            maps.append(("s", lambda j: j))
            shape.append(a.shape[d])

        def m(*j):
            out, p = [], 0
            for kind, g in maps:
                if kind == "i":
                    out.append(g)
                else:
                    out.append(g(j[p]))
                    p += 1
            return tuple(out)
        if not shape:
            return self.back(a.f(*m()))
        return ArrVal(shape, None, a.sort, view=(a, m))

    def setitem(self, obj, idx, v):
        it = self.it
        f = it.user(obj, "__setitem__")
        if f is not None:
            it.call(Bound(obj, f), [idx, v], {})
            return
        if isinstance(obj, DictVal):
            self.dict_set(obj, idx, v)
            return
        if isinstance(obj, ListVal):
            if obj.kind != "list":
                raise PyRaise("TypeError", "item assignment")
            c = obj.concrete()
            if isinstance(idx, int) and c is not None:
                try:
                    c[idx] = v
                except IndexError:
                    raise PyRaise("IndexError", "list assignment")
                it.set_segs(obj, [("e", x) for x in c])
                return
            if isinstance(idx, slice):
                if idx.start is None and idx.stop is None and idx.step is None:
                    it.set_segs(obj, it.iterate(v))
                    return
                raise Unsupported("list slice assignment")
            n = lift(obj.length())
            i = self.norm_index(idx, n, "list index")
            if len(obj.segs) == 1 and obj.segs[0][0] == "r":
                _, m, x, old = obj.segs[0]
                it.set_segs(obj, [("r", m, x, it.merge_values(eq(x, i), v, old))])
                return
            raise Unsupported("list assignment at a symbolic index")
        if isinstance(obj, ArrVal):
            self.arr_set(obj, idx, v)
            return
        if isinstance(obj, (tuple, str)) or obj is None or scalar(obj):
            raise PyRaise("TypeError", "item assignment")
        raise Unsupported("item assignment on %r" % (obj,))

    def arr_set(self, a, idx, v):
        it = self.it
        if not isinstance(idx, tuple):
            idx = (idx,)
        if len(idx) > len(a.shape) or any(isinstance(x, (ArrVal, ListVal)) or x is Ellipsis or x is None for x in idx):
            if len(idx) == 1 and isinstance(idx[0], ArrVal) and idx[0].sort == "B" and len(idx[0].shape) == len(a.shape) and scalar(v):
                g, mk, t = a.snap(), idx[0].snap(), lift(v)
                it.set_arr(a, lambda *j: ite(mk(*j), t, g(*j)))
                return
            raise Unsupported("array assignment index")
        v = self.as_array(v)
        conds, shape, inv, simple = [], [], [], True
        for d in range(len(a.shape)):
            x = idx[d] if d < len(idx) else slice(None)
            n = a.shape[d]
            if isinstance(x, slice):
                simple = False
                b = self.slice_bounds(x, n)
                if b == "rev":
                    raise Unsupported("reversed assignment")
                lo, m = b
                conds.append(lambda j, lo=lo, m=m: land(le(lo, j), lt(j, add(lo, m))))
                inv.append(lambda j, lo=lo: sub(j, lo))
                shape.append(m)
            else:
                i = self.norm_index(x, n, "array index")
                conds.append(lambda j, i=i: eq(j, i))
                inv.append(None)
                if simple:
                    shape_i = i
        vs, vf = self.snapf(v)
        if len(vs) > len(shape):
            raise Unsupported("array assignment shape")
        for p, m in zip(vs[::-1], shape[::-1]):
            if not (is_const(p) and cval(p) == 1) and p is not m:
                it.defined(eq(p, m), "assigned array has the right shape")
        g = a.snap()
        real = a.sort == "R"

        def f(*j):
            c = land(*[cn(x) for cn, x in zip(conds, j)])
            if c.op == "false":
                return g(*j)
            sj = [h(x) for h, x in zip(inv, j) if h is not None]
            val = vf(*self.bidx(vs, sj))
            if real:
                val = to_real(val)
            return ite(c, val, g(*j))
        writes = a.writes
        if a.sort == "I" and isinstance(v, T) and v.sort == "R":
            raise Unsupported("real value written to an integer array")
        if simple and scalar(v) and writes is not None:
            ix = tuple(self.norm_index(x, n, "array index") for x, n in zip(idx, a.shape))
            it.set_arr(a, f, False)
            a.writes = writes + [(ix, to_real(lift(v)) if real else lift(v))]
        else:
            it.set_arr(a, f, not simple)

    # ------------------------------------------------------------------ text
    def text(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Rope):
                out.extend(p.parts)
            else:
                out.append(p)
        r = Rope(out)
        if all(isinstance(p, str) for p in r.parts):
            return "".join(r.parts)
        return r

    def format_value(self, v, spec):
        if isinstance(v, (str, int)) and not isinstance(v, bool):
            return format(v, spec)
        if isinstance(v, T):
            if v.sort == "I" and spec in ("", "d", "02d") and self.it.prover.entails_quick(self.it.pc, le(iconst(0), v)):
                return Tok("int", v, DIGITS, label=spec)
            return Tok("fmt", (v, spec), None, label=spec)
        if isinstance(v, PathVal) and spec == "":
            return v.text
        if isinstance(v, Rope) and spec == "":
            return v
        if isinstance(v, Key) and spec == "":
            return Tok("key", v, None)
        if v is None and spec == "":
            return "None"
        raise Unsupported("formatting of %r" % (v,))

    def str_format(self, fmt, args, kw):
        parts, auto = [], 0
        for lit, field, spec, conv in __import__("string").Formatter().parse(fmt):
            if lit:
                parts.append(lit)
            if field is None:
                continue
            if conv:
                raise Unsupported("format conversion")
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                raise Unsupported("format field")
            parts.append(self.format_value(v, spec or ""))
        return self.text(parts)

    def percent(self, fmt, args):
        if not isinstance(args, tuple):
            args = (args,)
        parts, k, pos = [], 0, 0
        for m in re.finditer(r"%(?:%|([-+ 0-9.]*[sdfegG]))", fmt):
            parts.append(fmt[pos:m.start()])
            pos = m.end()
            if m.group(0) == "%%":
                parts.append("%")
                continue
            sp = m.group(1)
            if sp.endswith("s"):
                if sp != "s":
                    raise Unsupported("% formatting")
                sp = ""
            parts.append(self.format_value(args[k], sp))
            k += 1
        parts.append(fmt[pos:])
        return self.text(parts)

    def enter(self, cm):
        if isinstance(cm, (ObjVal,)):
            en, ex = self.it.user(cm, "__enter__"), self.it.user(cm, "__exit__")
            if en and ex:
                v = self.it.call(Bound(cm, en), [], {})
                return v, lambda: self.it.call(Bound(cm, ex), [None, None, None], {})
        if hasattr(cm, "cm_enter"):
            return cm.cm_enter(self.it), getattr(cm, "cm_exit", None)
        raise Unsupported("context manager %r" % (cm,))

    def constant(self, name):
        if not isinstance(name, str):
            raise Unsupported("constant name")
        c = self.it.consts.get(name)
        if c is None:
            raise PyRaise("KeyError", name)
        self.use("scipy.constants.physical_constants[%r] (value read from the installed scipy)" % name)
        return (rconst(Fraction(c[0])), c[1], rconst(Fraction(c[2])))

    # ------------------------------------------------------------------ attribute access on model values
    def getattr(self, obj, name):
        it = self.it
        B = lambda fn: Builtin(name, fn)
        if isinstance(obj, ExtModule):
            return self.ext_attr(obj, name)
        if isinstance(obj, ListVal):
            return self.list_method(obj, name)
        if isinstance(obj, DictVal):
            return self.dict_method(obj, name)
        if isinstance(obj, SetVal):
            if name == "add":
                return B(lambda a, k: it.set_segs(obj.source, obj.source.segs + [("e", a[0])]))
            if name == "update":
                return B(lambda a, k: it.set_segs(obj.source, obj.source.segs + [s for x in a for s in it.iterate(x)]))
            if name == "union":
                return B(lambda a, k: SetVal(ListVal(obj.source.segs + [s for x in a for s in it.iterate(x)])))
            raise Unsupported("set.%s" % name)
        if isinstance(obj, ArrVal):
            return self.arr_attr(obj, name)
        if isinstance(obj, str):
            return self.str_method(obj, name)
        if isinstance(obj, Dist):
            if name in ("pdf", "cdf", "ppf", "sf", "isf", "logpdf"):
                return B(lambda a, k: self.dist(obj.name, name, a, k))
            raise Unsupported("scipy.stats.%s.%s" % (obj.name, name))
        if isinstance(obj, Frozen):
            return B(lambda a, k: self.dist(obj.dist.name, name, list(a) + list(obj.args), {**k, **obj.kw}))
        if isinstance(obj, PathVal):
            if name in ("absolute", "resolve", "as_posix", "__str__"):
                return B(lambda a, k: obj if name in ("absolute", "resolve") else obj.text)
            if name == "joinpath":
                return B(lambda a, k: PathVal(self.text([x for p in [obj.text] + list(a) for x in ("/", p.text if isinstance(p, PathVal) else p)][1:])))
            if name == "parent" and isinstance(obj.text, str):
                return PathVal(os.path.dirname(obj.text))
            if name == "open":
                return B(lambda a, k: self.b_open([obj] + list(a), k))
            raise Unsupported("path attribute %s" % name)
        if isinstance(obj, RootResult):
            if name in ("root", "converged"):
                return getattr(obj, name)
            if name == "flag":
                raise Unsupported("root result flag")
            raise Unsupported("root result attribute %s" % name)
        if isinstance(obj, NamedTuple):
            if name in obj.names:
                return obj.values[obj.names.index(name)]
            raise PyRaise("AttributeError", name)
        if isinstance(obj, Constants):
            if name == "get":
                return B(lambda a, k: self.constant(a[0]))
            if name == "__getitem__":
                return B(lambda a, k: self.constant(a[0]))
        if isinstance(obj, Builtin) and obj.name == "chain" and name == "from_iterable":
            return Builtin("chain.from_iterable", lambda a, k: self.chain_iter(it.iterate(a[0])))
        if isinstance(obj, TypeVal):
            if obj.name == "dict" and name == "fromkeys":
                raise Unsupported("dict.fromkeys")
            if obj.name == "str" and name == "join":
                return Builtin("join", lambda a, k: self.getattr(a[0], "join").fn(a[1:], k))
            if name == "__name__":
                return obj.name
            if obj.name == "object" and name == "__init__":
                return Builtin("object.__init__", lambda a, k: None)
        if isinstance(obj, T):
            if name in ("item",):
                return B(lambda a, k: obj)
            if name in ("sum", "min", "max", "copy"):
                return B(lambda a, k: obj)
            if name == "real":
                return obj
            if name == "is_integer":
                raise Unsupported("is_integer")
            if name in ("shape", "ndim", "size", "dtype", "__len__", "astype", "flatten"):
                raise PyRaise("AttributeError", name)
            raise PyRaise("AttributeError", name)
        if isinstance(obj, (int, tuple)) or obj is None:
            if isinstance(obj, tuple) and name in ("index", "count"):
                raise Unsupported("tuple method")
            raise PyRaise("AttributeError", name)
        if isinstance(obj, Bound) and name == "__self__":
            return obj.obj
        if isinstance(obj, (FuncVal, Bound)) and name in ("__name__", "__doc__"):
            return obj.name if isinstance(obj, FuncVal) else obj.fn.name
        if isinstance(obj, Interp1d):
            if name in ("x", "y"):
                return getattr(obj, name)
        if isinstance(obj, Rope):
            return self.rope_method(obj, name)
        if hasattr(obj, "getattr_model"):
            return obj.getattr_model(it, name)
        raise Unsupported("attribute %s of %r" % (name, obj))

    def list_method(self, l, name):
        it = self.it
        B = lambda fn: Builtin(name, fn)
        if l.kind != "list" and name not in ("index", "count", "__len__", "copy"):
            raise PyRaise("AttributeError", name)
        if name == "append":
            return B(lambda a, k: it.set_segs(l, l.segs + [("e", a[0])]))
        if name == "extend":
            return B(lambda a, k: it.set_segs(l, l.segs + it.iterate(a[0])))
        if name == "copy":
            return B(lambda a, k: ListVal(list(l.segs), l.kind))
        if name == "clear":
            return B(lambda a, k: it.set_segs(l, []))
        if name == "insert":
            def ins(a, k):
                if a[0] == 0 and isinstance(a[0], int):
                    it.set_segs(l, [("e", a[1])] + l.segs)
                    return
                c = l.concrete()
                if c is None or not isinstance(a[0], int):
                    raise Unsupported("list.insert")
                c.insert(a[0], a[1])
                it.set_segs(l, [("e", x) for x in c])
            return B(ins)
        if name == "pop":
            def pop(a, k):
                if not l.segs:
                    raise PyRaise("IndexError", "pop")
                if not a and l.segs[-1][0] == "e":
                    v = l.segs[-1][1]
                    it.set_segs(l, l.segs[:-1])
                    return v
                if a and a[0] == 0 and isinstance(a[0], int) and l.segs[0][0] == "e":
                    v = l.segs[0][1]
                    it.set_segs(l, l.segs[1:])
                    return v
                raise Unsupported("list.pop")
            return B(pop)
        if name == "__len__":
            return B(lambda a, k: l.length())
        if name == "reverse":
            def rev(a, k):
                c = l.concrete()
                if c is None:
                    raise Unsupported("list.reverse")
                it.set_segs(l, [("e", x) for x in reversed(c)])
            return B(rev)
        if name == "__getitem__":
            return B(lambda a, k: self.getitem(l, a[0]))
        raise Unsupported("list.%s" % name)

    def dict_method(self, d, name):
        it = self.it
        B = lambda fn: Builtin(name, fn)
        if name == "keys":
            return B(lambda a, k: ListVal(self.dict_keys(d), "view"))
        if name == "values":
            return B(lambda a, k: ListVal(self.dict_values(d), "view"))
        if name == "items":
            return B(lambda a, k: ListVal(self.dict_items(d), "view"))
        if name == "copy":
            return B(lambda a, k: DictVal(list(d.segs)))
        if name == "update":
            def upd(a, k):
                for o in a:
                    self.dict_update(d, o)
                for kk, vv in k.items():
                    self.dict_set(d, kk, vv)
            return B(upd)
        if name == "get":
            def get(a, k):
                f = self.dict_find(d, a[0])
                if f is None:
                    return a[1] if len(a) > 1 else k.get("default")
                return self.dict_value(d, f)
            return B(get)
        if name == "setdefault":
            def sd(a, k):
                f = self.dict_find(d, a[0])
                if f is None:
                    self.dict_set(d, a[0], a[1] if len(a) > 1 else None)
                    return a[1] if len(a) > 1 else None
                return self.dict_value(d, f)
            return B(sd)
        if name == "__getitem__":
            return B(lambda a, k: self.dict_get(d, a[0]))
        if name == "__contains__":
            return B(lambda a, k: self.contains(d, a[0]))
        raise Unsupported("dict.%s" % name)

    def str_method(self, s, name):
        it = self.it
        B = lambda fn: Builtin(name, fn)
        if name == "format":
            return B(lambda a, k: self.str_format(s, a, k))
        if name == "join":
            def join(a, k):
                segs = it.iterate(a[0])
                if not all(x[0] == "e" for x in segs):
                    raise Unsupported("join of an unbounded sequence")
                parts = []
                for i, x in enumerate(segs):
                    if i:
                        parts.append(s)
                    parts.append(x[1])
                return self.text(parts)
            return B(join)
        if name in ("strip", "lstrip", "rstrip", "upper", "lower", "title", "capitalize", "replace", "startswith", "endswith", "find", "isdigit", "isalpha", "split",
                    "count", "rfind", "index", "zfill", "ljust", "rjust", "isspace", "removeprefix", "removesuffix", "partition", "splitlines", "isnumeric", "isdecimal"):
            def m(a, k):
                if not all(isinstance(x, (str, int, tuple)) or x is None for x in a):
                    raise Unsupported("str.%s with symbolic arguments" % name)
                try:
                    r = getattr(s, name)(*a, **k)
                except ValueError:
                    raise PyRaise("ValueError", name)
                return ListVal.of(r) if isinstance(r, list) else r
            return B(m)
        raise Unsupported("str.%s" % name)

    def arr_attr(self, a, name):
        it = self.it
        B = lambda fn: Builtin(name, fn)
        if name == "shape":
            return tuple(self.back(s) for s in a.shape)
        if name == "size":
            n = iconst(1)
            for s in a.shape:
                n = mul(n, s)
            return self.back(n)
        if name == "ndim":
            return len(a.shape)
        if name == "T":
            if len(a.shape) == 1:
                return ArrVal(a.shape, None, a.sort, view=(a, lambda *j: j))
            return ArrVal(a.shape[::-1], None, a.sort, view=(a, lambda *j: j[::-1]))
        if name in ("sum", "min", "max", "any", "all", "mean", "clip", "dot", "cumsum", "prod"):
            return B(lambda x, k: self.np(name)([a] + list(x), k))
        if name == "copy":
            return B(lambda x, k: ArrVal(a.shape, a.snap(), a.sort))
        if name == "astype":
            def astype(x, k):
                t = x[0] if x else k.get("dtype")
                if isinstance(t, TypeVal) and t.name in ("float", "float64") or t == "float":
                    f = a.snap()
                    return ArrVal(a.shape, (lambda *i: to_real(f(*i))) if a.sort == "I" else f, "R")
                raise Unsupported("astype")
            return B(astype)
        if name == "tolist":
            return B(lambda x, k: ListVal(self.it.iterate(ArrVal(a.shape, a.snap(), a.sort))) if len(a.shape) == 1 else self._no("tolist"))
        if name in ("flatten", "ravel"):
            if len(a.shape) == 1:
                return B(lambda x, k: ArrVal(a.shape, a.snap(), a.sort))
            raise Unsupported("flatten")
        if name == "fill":
            def fill(x, k):
                t = to_real(lift(x[0])) if a.sort == "R" else lift(x[0])
                it.set_arr(a, lambda *i: t)
            return B(fill)
        if name == "sort":
            raise Unsupported("ndarray.sort")
        if name == "dtype":
            return TypeVal("float64" if a.sort == "R" else "int64" if a.sort == "I" else "bool")
        if name == "item":
            return B(lambda x, k: self.back(a.f(*[iconst(0)] * len(a.shape))))
        if name == "__len__":
            return B(lambda x, k: self.back(a.shape[0]))
        raise Unsupported("ndarray.%s" % name)

    def _no(self, what):
        raise Unsupported(what)

    # ------------------------------------------------------------------ builtins
    TYPES = ("int", "float", "str", "bool", "list", "tuple", "dict", "set", "frozenset", "object", "complex", "bytes", "type", "property", "staticmethod", "classmethod",
             "range", "slice")

    def builtin(self, name):
        it = self.it
        if name in self.TYPES:
            return TypeVal(name)
        if name in it.EXC or name in ("BaseException", "RuntimeWarning", "DeprecationWarning"):
            return TypeVal(name)
        if name == "NotImplemented":
            return NotImplemented
        fn = getattr(self, "b_" + name, None)
        if fn is not None:
            return Builtin(name, fn)
        if name in ("eval", "locals", "globals", "vars"):
            return Builtin(name, None)
        if name in ("__name__", "__file__"):
            raise Unsupported(name)
        if name in dir(__builtins__ if not isinstance(__builtins__, dict) else type("x", (), __builtins__)):
            raise Unsupported("builtin %s" % name)
        raise PyRaise("NameError", name)

    def seq(self, v):
        return self.it.iterate(v)

    def b_len(self, a, k):
        v = a[0]
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, Rope):
            return self.rope_len(v)
        if isinstance(v, ListVal):
            if v.kind == "iter":
                raise PyRaise("TypeError", "len of iterator")
            return v.length()
        if isinstance(v, ArrVal):
            if not v.shape:
                raise PyRaise("TypeError", "len of unsized")
            return self.back(v.shape[0])
        if isinstance(v, DictVal):
            return seg_len([("e", None) if s[0] == "e" else ("r", s[1] if s[0] == "r" else s[2]) if s[0] in "rf" else s for s in v.segs])
        if isinstance(v, (ObjVal, Opaque)):
            f = self.it.user(v, "__len__")
            if f is not None:
                return self.it.call(Bound(v, f), [], {})
            raise PyRaise("TypeError", "len")
        if scalar(v) or v is None:
            raise PyRaise("TypeError", "len")
        if isinstance(v, NamedTuple):
            return len(v.values)
        raise Unsupported("len of %r" % (v,))

    def b_range(self, a, k):
        return self.mk_range(a)

    def mk_range(self, a):
        a = [lift(x) for x in a]
        if any(x.sort != "I" for x in a):
            raise PyRaise("TypeError", "range")
        step = iconst(1)
        if len(a) == 1:
            lo, hi = iconst(0), a[0]
        else:
            lo, hi = a[0], a[1]
            if len(a) == 3:
                step = a[2]
        if all(is_const(x) for x in (lo, hi, step)):
            r = range(int(cval(lo)), int(cval(hi)), int(cval(step)))
            if len(r) <= 400:
                return ListVal.of(list(r), "range")
        x = fresh("x", "I")
        if not is_const(step) or abs(cval(step)) != 1:
            raise Unsupported("range step")
        n = sub(hi, lo) if cval(step) == 1 else sub(lo, hi)
        nf = self.it.prover.normer([]).canon(n)
        from .norm import unreal
        n = unreal(nf) if nf.sort == "R" else nf
        if not self.it.prover.entails_quick(self.it.pc, le(iconst(0), n)):
            n = iconst(0) if not self.it.prover.feasible(self.it.pc, lt(iconst(0), n)) else tmax(n, iconst(0))
        return ListVal([("r", n, x, add(lo, x) if cval(step) == 1 else sub(lo, x))], "range")

    def b_enumerate(self, a, k):
        start = lift(a[1] if len(a) > 1 else k.get("start", 0))
        out = []
        pos = start
        for s in self.seq(a[0]):
            if s[0] == "e":
                out.append(("e", (self.back(pos), s[1])))
                pos = add(pos, iconst(1))
            elif s[0] == "r":
                out.append(("r", s[1], s[2], (add(pos, s[2]), s[3])))
                pos = add(pos, s[1])
            else:
                raise Unsupported("enumerate of an irregular sequence")
        return ListVal(out, "iter")

    def b_zip(self, a, k):
        if not a:
            return ListVal([], "iter")
        if len(a) == 1 and isinstance(a[0], StarArg):
            raise Unsupported("zip of unbounded arguments")
        cols = [list(self.seq(x)) for x in a]
        out = []
        it = self.it
        while all(cols):
            heads = [c[0] for c in cols]
            if all(h[0] == "e" for h in heads):
                out.append(("e", tuple(h[1] for h in heads)))
                for c in cols:
                    c.pop(0)
                continue
            if all(h[0] == "r" for h in heads):
                ns = [h[1] for h in heads]
                n = ns[0]
                same = all(m is n or self.decided(eq(m, n)) for m in ns[1:])
                x = fresh("x", "I")
                if same:
                    out.append(("r", n, x, tuple(vsubst(h[3], {h[2]: x}) for h in heads)))
                    for c in cols:
                        c.pop(0)
                    continue
                if all(len(c) == 1 for c in cols):
                    # the shortest
                    m = n
                    for q in ns[1:]:
                        d = self.decided(le(q, m))
                        m = q if d else m if self.decided(le(m, q)) else tmin(m, q)
                    out.append(("r", m, x, tuple(vsubst(h[3], {h[2]: x}) for h in heads)))
                    return ListVal(out, "iter")
                raise Unsupported("zip of differently split sequences")
            # mixed: re-express every column as one run if all are indexable
            lists = [ListVal(c) for c in cols]
            ns = [lift(l.length()) for l in lists]
            m = ns[0]
            for q in ns[1:]:
                d = self.decided(le(q, m))
                m = q if d else m if self.decided(le(m, q)) else tmin(m, q)
            x = fresh("x", "I")
            saved = list(it.pc)
            it.fact(le(iconst(0), x))
            it.fact(lt(x, m))
            try:
                vals = tuple(self.list_val(l, x) for l in lists)
            finally:
                it.pc = saved
            out.append(("r", m, x, vals))
            return ListVal(out, "iter")
        return ListVal(out, "iter")

    def fold(self, segs, init, f):
        """left fold with a user function, through the loop machinery"""
        it = self.it
        fr = Frame(next(iter(it.modules.values())))
        fr.locals["acc"] = init
        it.run_segs(segs, lambda v: it.set_var(fr, "acc", f(fr.locals["acc"] if not isinstance(fr.locals["acc"], Poison) else it._got(fr.locals["acc"], "acc"), v)), fr, set())
        return it._got(fr.locals["acc"], "acc")

    def b_sum(self, a, k):
        import ast
        it = self.it
        segs = self.seq(a[0])
        start = a[1] if len(a) > 1 else k.get("start", 0)
        if all(s[0] == "e" for s in segs):
            acc = start
            for s in segs:
                acc = it.binop(ast.Add(), acc, s[1])
            return acc
        return self.fold(segs, start, lambda x, y: it.binop(ast.Add(), x, y))

    def minmax(self, a, k, name):
        g = tmin if name == "min" else tmax
        if k:
            raise Unsupported("%s with key" % name)
        if len(a) == 1:
            if isinstance(a[0], ArrVal):
                return self.np(name)([a[0]], {})
            segs = self.seq(a[0])
            if not all(s[0] == "e" for s in segs):
                return self.np(name)([self.array_of_segs(segs)], {})
            a = [s[1] for s in segs]
        if not a:
            raise PyRaise("ValueError", "empty")
        if all(isinstance(x, int) for x in a):
            return min(a) if name == "min" else max(a)
        out = self.num(a[0])
        for x in a[1:]:
            out = g(out, self.num(x))
        return self.back(out)

    def b_min(self, a, k):
        return self.minmax(a, k, "min")

    def b_max(self, a, k):
        return self.minmax(a, k, "max")

    def b_abs(self, a, k):
        if isinstance(a[0], int):
            return abs(a[0])
        return self.elementwise(tabs, [a[0]])

    def b_round(self, a, k):
        raise Unsupported("round")

    def b_pow(self, a, k):
        return self.binop("Pow", a[0], a[1])

    def b_print(self, a, k):
        return None

    def b_callable(self, a, k):
        v = a[0]
        if isinstance(v, ObjVal):
            return self.it.user(v, "__call__") is not None
        if isinstance(v, Opaque):
            return v.call_fn is not None
        return isinstance(v, (FuncVal, Builtin, Bound, ClassVal, TypeVal, UFn, Partial, Vectorized, Interp1d))

    def b_isinstance(self, a, k):
        return self.isinstance(a[0], a[1])

    def isinstance(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinstance(v, x) for x in t)
        if isinstance(t, ListVal):
            raise PyRaise("TypeError", "isinstance")
        if isinstance(t, ClassVal):
            if isinstance(v, Opaque) and v.cls is not None and v.cls is not t and t.issub(v.cls):
                raise Unsupported("an arbitrary %s may or may not be a %s" % (v.cls.name, t.name))
            return isinstance(v, (ObjVal, Opaque)) and v.cls is not None and v.cls.issub(t)
        if isinstance(t, TypeVal):
            n = t.name
            if n == "object":
                return True
            if n in ("int", "Integral"):
                return isinstance(v, int) or (isinstance(v, T) and v.sort in "IB")
            if n == "bool":
                return isinstance(v, bool) or (isinstance(v, T) and v.sort == "B")
            if n in ("float", "floating"):
                return isinstance(v, T) and v.sort == "R"
            if n == "float64":
                raise Unsupported("isinstance with numpy.float64")
            if n in ("Number", "Real", "number"):
                return scalar(v)
            if n in ("integer",):
                return False
            if n == "complex":
                return False
            if n == "str":
                return isinstance(v, (str, Rope, TextFile))
            if n == "list":
                return isinstance(v, ListVal) and v.kind == "list"
            if n == "tuple":
                return isinstance(v, (tuple, NamedTuple)) or isinstance(v, ListVal) and v.kind == "tuple"
            if n in ("dict", "Mapping"):
                return isinstance(v, DictVal)
            if n in ("set",):
                return isinstance(v, SetVal)
            if n == "ndarray":
                return isinstance(v, ArrVal)
            if n in ("Sequence",):
                return isinstance(v, (tuple, str)) or isinstance(v, ListVal) and v.kind in ("list", "tuple", "range")
            if n in ("Iterable", "Sized"):
                return isinstance(v, (tuple, str, ListVal, ArrVal, DictVal, SetVal))
            if n == "Callable":
                return self.b_callable([v], {})
            if n == "type(None)":
                return v is None
        raise Unsupported("isinstance with %r" % (t,))

    def b_issubclass(self, a, k):
        if isinstance(a[0], ClassVal) and isinstance(a[1], ClassVal):
            return a[0].issub(a[1])
        raise Unsupported("issubclass")

    def b_type(self, a, k):
        return self.typeof(a[0])

    def typeof(self, v):
        if isinstance(v, (ObjVal,)):
            return v.cls
        if isinstance(v, bool):
            return TypeVal("bool")
        if isinstance(v, int) or isinstance(v, T) and v.sort == "I":
            return TypeVal("int")
        if isinstance(v, T):
            return TypeVal("float" if v.sort == "R" else "bool")
        if isinstance(v, str):
            return TypeVal("str")
        if isinstance(v, tuple):
            return TypeVal("tuple")
        if isinstance(v, ListVal):
            return TypeVal(v.kind)
        if isinstance(v, DictVal):
            return TypeVal("dict")
        if isinstance(v, ArrVal):
            return TypeVal("ndarray")
        if v is None:
            return TypeVal("type(None)")
        raise Unsupported("type of %r" % (v,))

    def b_iter(self, a, k):
        return ListVal(self.seq(a[0]), "iter")

    def b_next(self, a, k):
        l = a[0]
        if isinstance(l, ListVal) and l.kind in ("iter", "gen"):
            if not l.segs:
                if len(a) > 1:
                    return a[1]
                raise PyRaise("StopIteration")
            if l.segs[0][0] == "e":
                v = l.segs[0][1]
                self.it.set_segs(l, l.segs[1:])
                return v
            if l.segs[0][0] == "r":
                _, n, x, t = l.segs[0]
                if len(l.segs) == 1 and not self.it.branch(lt(iconst(0), n)):
                    if len(a) > 1:
                        return a[1]
                    raise PyRaise("StopIteration")
                y = fresh("x", "I")
                self.it.set_segs(l, [("r", sub(n, iconst(1)), y, vsubst(t, {x: add(y, iconst(1))}))] + l.segs[1:])
                return vsubst(t, {x: iconst(0)})
        raise Unsupported("next")

    def b_reversed(self, a, k):
        v = a[0]
        if isinstance(v, tuple):
            return ListVal.of(v[::-1], "iter")
        l = v if isinstance(v, ListVal) else ListVal(self.seq(v))
        c = l.concrete()
        if c is not None:
            return ListVal.of(c[::-1], "iter")
        out = []
        for s in reversed(l.segs):
            if s[0] == "e":
                out.append(s)
            elif s[0] == "r":
                y = fresh("x", "I")
                out.append(("r", s[1], y, vsubst(s[3], {s[2]: sub(sub(s[1], iconst(1)), y)})))
            else:
                raise Unsupported("reversed")
        return ListVal(out, "iter")

    def b_map(self, a, k):
        it = self.it
        segs = self.seq(a[1]) if len(a) == 2 else self.b_zip(a[1:], {}).segs
        acc = ListVal([], "list")
        fr = Frame(next(iter(it.modules.values())))
        it.run_segs(segs, lambda v: it.set_segs(acc, acc.segs + [("e", it.call(a[0], [v] if len(a) == 2 else list(v), {}))]), fr, set())
        acc.kind = "iter"
        return acc

    def b_filter(self, a, k):
        it = self.it
        acc = ListVal([], "list")
        fr = Frame(next(iter(it.modules.values())))

        def step(v):
            if it.truth(it.call(a[0], [v], {}) if a[0] is not None else v):
                it.set_segs(acc, acc.segs + [("e", v)])
        it.run_segs(self.seq(a[1]), step, fr, set())
        acc.kind = "iter"
        return acc

    def truth_term(self, v):
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, T) and v.sort == "B":
            return v
        if scalar(v):
            return lnot(eq(lift(v), lift(0)))
        return TRUE if self.it.truth(v) else FALSE

    def b_all(self, a, k):
        return self.back(seg_all(self.seq(a[0]), self.truth_term))

    def b_any(self, a, k):
        return self.back(lnot(seg_all(self.seq(a[0]), lambda v: lnot(self.truth_term(v)))))

    def b_sorted(self, a, k):
        if k:
            raise Unsupported("sorted with key")
        v = a[0]
        if isinstance(v, SetVal):
            return ListVal(self.it.iterate(self.unique(v.source.segs)))
        if isinstance(v, ArrVal) and v.uniq_of is not None:
            return ListVal(self.it.iterate(v))
        raise Unsupported("sorted")

    def b_hasattr(self, a, k):
        try:
            self.it.getattr(a[0], a[1])
            return True
        except PyRaise as e:
            if e.name == "AttributeError":
                return False
            raise

    def b_getattr(self, a, k):
        if not isinstance(a[1], str):
            raise Unsupported("getattr with symbolic name")
        try:
            return self.it.getattr(a[0], a[1])
        except PyRaise as e:
            if e.name == "AttributeError" and len(a) > 2:
                return a[2]
            raise

    def b_setattr(self, a, k):
        if not isinstance(a[1], str):
            raise Unsupported("setattr with symbolic name")
        self.it.setattr(a[0], a[1], a[2])

    def b_open(self, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if isinstance(a[0], TextFile) and mode in ("r", "rt"):
            return a[0].open(self.it)
        name = a[0].text if isinstance(a[0], PathVal) else a[0]
        if isinstance(name, Rope) and mode in ("r", "rt"):
            for folder, ending, make in self.it.folders:
                f = self.numbered_file(name, folder, ending, make)
                if f is not None:
                    return f.open(self.it)
        raise Unsupported("open of a real file")

    def numbered_file(self, name, folder, ending, make):
        """the file folder/NN<ending> for a symbolic number"""
        if len(name.parts) != 3:
            return None
        head, num, tail = name.parts
        if not isinstance(head, str) or not isinstance(num, Tok) or num.kind != "int" or num.label != "02d" or tail != ending:
            return None
        if not head.endswith("/") or os.path.normpath(head) != folder:
            return None
        return make(num.value)

    def b_super(self, a, k):
        if len(a) == 2:
            return SuperVal(a[0], a[1])
        raise Unsupported("super")

    def b_id(self, a, k):
        raise Unsupported("id")

    def construct(self, t, a, k):
        it = self.it
        n = t.name
        if n == "list":
            return ListVal(self.seq(a[0]) if a else [])
        if n == "tuple":
            segs = self.seq(a[0]) if a else []
            if all(s[0] == "e" for s in segs):
                return tuple(s[1] for s in segs)
            return ListVal(segs, "tuple")
        if n in ("set", "frozenset"):
            return SetVal(ListVal(self.seq(a[0]) if a else []))
        if n == "range":
            return self.mk_range(a)
        if n == "dict":
            d = DictVal()
            if a:
                if isinstance(a[0], DictVal):
                    d.segs = list(a[0].segs)
                else:
                    fr = Frame(next(iter(it.modules.values())))

                    def step(v):
                        kk, vv = it.unpack(v, 2)
                        self.dict_set(d, kk, vv)
                    it.run_segs(self.seq(a[0]), step, fr, set())
            for kk, vv in k.items():
                self.dict_set(d, kk, vv)
            return d
        if n in ("float", "float64"):
            v = a[0] if a else 0
            if isinstance(v, str):
                try:
                    if v.strip().lower().lstrip("+-") in ("inf", "infinity", "nan"):
                        return self.inf(float(v))
                    return rconst(Fraction(v.strip()))
                except ValueError:
                    raise PyRaise("ValueError", "float")
            if isinstance(v, ArrVal):
                it.defined(eq(v.shape[0], iconst(1)), "float() of a one-element array")
                return v.at(0)
            if isinstance(v, Rope):
                return self.rope_number(v, "float")
            if not scalar(v):
                raise PyRaise("TypeError", "float")
            return to_real(lift(int(v) if isinstance(v, bool) else v))
        if n == "int":
            v = a[0] if a else 0
            if isinstance(v, str):
                try:
                    return int(v)
                except ValueError:
                    raise PyRaise("ValueError", "int")
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, int) or isinstance(v, T) and v.sort == "I":
                return v
            if isinstance(v, T) and v.op == "c":
                return int(cval(v))
            if isinstance(v, T) and v.op == "real":
                return v.args[0]
            if isinstance(v, Rope):
                return self.rope_number(v, "int")
            raise Unsupported("int()")
        if n == "bool":
            v = a[0] if a else False
            return self.truth_term(v) if scalar(v) else it.truth(v)
        if n == "str":
            v = a[0] if a else ""
            if isinstance(v, (str, Rope)):
                return v
            if isinstance(v, PathVal):
                return v.text
            if isinstance(v, int):
                return str(v)
            return self.text([self.format_value(v, "")])
        if n in it.EXC or n in ("BaseException",):
            return PyRaise(n, tuple(a))
        if n == "object":
            return ObjVal(ClassVal("object", [], {}, None))
        if n == "property":
            return PropertyVal(a[0])
        if n == "staticmethod":
            return StaticVal(a[0])
        if n == "classmethod":
            return ClassMethodVal(a[0])
        if n == "type" and len(a) == 1:
            return self.typeof(a[0])
        if n == "slice":
            return slice(*(list(a) if len(a) > 1 else [None, a[0]]))
        raise Unsupported("constructor %s" % n)

    # ------------------------------------------------------------------ functions
    def apply_ufn(self, f, args):
        """uninterpreted function, elementwise"""
        return self.elementwise(lambda *x: app(f.name, *f.idx, *[to_real(t) for t in x]), args)

    def chain_iter(self, segs):
        out = []
        for s in segs:
            if s[0] == "e":
                out.extend(self.it.iterate(s[1]))
            elif s[0] == "r":
                out.append(("b", s[1], s[2], tuple(self.it.iterate(s[3]))))
            elif s[0] == "b":
                out.append(("b", s[1], s[2], tuple(self.chain_iter(s[3]).segs)))
            elif s[0] == "g":
                out.append(("g", s[1], tuple(self.chain_iter(s[2]).segs)))
            else:
                raise Unsupported("chain")
        return ListVal(out, "iter")

    def unique(self, segs):
        """sorted array of the distinct values"""
        it = self.it
        self.use("numpy.unique")
        segs = [s for s in segs]
        if not segs:
            return ArrVal([iconst(0)], lambda i: rconst(0), uniq_of=())
        name = it.witness("uniq")
        n = it.witness("nuniq", "I")
        fn = name.args[0]
        ctx = name.args[1:]
        u = lambda i: app(fn, *ctx, i)
        it.uniqs[fn] = (ctx, n, tuple(segs))
        it.fact(le(iconst(0), n))
        it.fact(le(n, lift(seg_len(segs))))
        it.fact(tall(iconst(0), n, lambda i: tall(add(i, iconst(1)), n, lambda j: lt(u(i), u(j)))))
        return ArrVal([n], u, "R", uniq_of=tuple(segs))

    def dot(self, a, b):
        a, b = self.as_array(a), self.as_array(b)
        if scalar(a) or scalar(b):
            return self.binop("Mult", a, b)
        if len(a.shape) == 1 and len(b.shape) == 1:
            if a.shape[0] is not b.shape[0]:
                self.it.defined(eq(a.shape[0], b.shape[0]), "array shapes match")
            f, g = a.snap(), b.snap()
            return to_real(tsum(iconst(0), a.shape[0], lambda i: mul(f(i), g(i))))
        if len(a.shape) == 1 and len(b.shape) == 2:
            if a.shape[0] is not b.shape[0]:
                self.it.defined(eq(a.shape[0], b.shape[0]), "array shapes match")
            f, g, n = a.snap(), b.snap(), a.shape[0]
            return ArrVal([b.shape[1]], lambda j: to_real(tsum(iconst(0), n, lambda i: mul(f(i), g(i, j)))))
        if len(a.shape) == 2 and len(b.shape) == 1:
            if a.shape[1] is not b.shape[0]:
                self.it.defined(eq(a.shape[1], b.shape[0]), "array shapes match")
            f, g, n = a.snap(), b.snap(), b.shape[0]
            return ArrVal([a.shape[0]], lambda j: to_real(tsum(iconst(0), n, lambda i: mul(f(j, i), g(i)))))
        raise Unsupported("matrix product")

    def ext_attr(self, mod, name):
        from . import extlib
        return extlib.resolve(self, mod.name, name)

    def np(self, name):
        from . import extlib
        r = extlib.resolve(self, "numpy", name)
        return r.fn

    # ------------------------------------------------------------------ distributions
    def dist(self, name, method, args, kw):
        self.use("scipy.stats.%s.%s" % (name, method))
        kw = dict(kw)
        args = list(args)
        x = args.pop(0) if args else kw.pop("x" if method not in ("ppf", "isf") else "q")
        loc = args.pop(0) if args else kw.pop("loc", 0)
        scale = args.pop(0) if args else kw.pop("scale", 1)
        if args or kw:
            raise PyRaise("TypeError", "distribution arguments")
        x, loc, scale = self.as_array(x), self.as_array(loc), self.as_array(scale)
        self.require_elem(lambda s: lt(rconst(0), to_real(s)), [scale], "positive scale of the distribution")
        one, half = rconst(1), rconst(Fraction(1, 2))
        if method == "sf":
            r = self.dist(name, "cdf", [x, loc, scale], {})
            return self.elementwise(lambda t: sub(one, t), [r])
        if method == "isf":
            q = self.elementwise(lambda t: sub(one, to_real(t)), [x])
            return self.dist(name, "ppf", [q, loc, scale], {})
        if method == "logpdf":
            raise Unsupported("logpdf")
        if method == "ppf":
            self.require_elem(lambda q: land(le(rconst(0), to_real(q)), le(to_real(q), one)), [x], "quantile in [0, 1]")

            inner = self.elem_all(lambda q: land(lt(rconst(0), to_real(q)), lt(to_real(q), one)), [x])
            inside = name != "uniform" and any(s.op == "app" and s.args[0].endswith("_cdf") for s in subterms(inner)) and self.it.prover.attempt(self.it.pc, inner, -1).ok

            def ppf(q, l, s):
                q, l, s = to_real(q), to_real(l), to_real(s)
                if name == "uniform":
                    return add(l, mul(s, q))
                fin = add(l, mul(s, app(name + "_ppf", q)))
                if inside:
                    return fin
                r = fin
                for end, val in ((rconst(1), POSINF), (rconst(0), NEGINF)):
                    c = eq(q, end)
                    if self.never(c):
                        continue
                    r = ite(c, val, r)
                return r
            return self.elementwise(ppf, [x, loc, scale], "R")

        def z(e, l, s):
            return div(sub(to_real(e), to_real(l)), to_real(s))

        if method == "cdf":
            if name == "uniform":
                return self.elementwise(lambda e, l, s: tmin(tmax(z(e, l, s), rconst(0)), one), [x, loc, scale], "R")
            return self.elementwise(lambda e, l, s: app(name + "_cdf", z(e, l, s)), [x, loc, scale], "R")
        if method == "pdf":
            if name == "uniform":
                return self.elementwise(lambda e, l, s: ite(land(le(rconst(0), z(e, l, s)), le(z(e, l, s), one)), div(one, to_real(s)), rconst(0)), [x, loc, scale], "R")
            if name == "cauchy":
                return self.elementwise(lambda e, l, s: div(one, mul(mul(PI, to_real(s)), add(one, powi(z(e, l, s), 2)))), [x, loc, scale], "R")
            return self.elementwise(lambda e, l, s: div(app("exp", neg(mul(half, powi(z(e, l, s), 2)))), mul(app("sqrt", mul(rconst(2), PI)), to_real(s))), [x, loc, scale], "R")
        raise Unsupported(method)

    def never(self, c):
        """can the condition be excluded (for free indices too)?"""
        n = self.it.prover.normer(self.it.pc)
        c2 = n.canon_bool(c)
        if c2.op == "false":
            return True
        if c2.op == "true":
            return False
        return not self.it.prover.feasible(self.it.pc, c)

    def isinf(self, t):
        if t is POSINF or t is NEGINF:
            return TRUE
        if t.op == "ite":
            return ite(t.args[0], self.isinf(t.args[1]), self.isinf(t.args[2]))
        if any(s is POSINF or s is NEGINF for s in subterms(t)):
            raise Unsupported("arithmetic on an infinity")
        return FALSE

    # ------------------------------------------------------------------ interpolation
    def interp_eval(self, f, e):
        """piecewise linear interpolation of (x_i, y_i), x increasing; constant or given values outside"""
        it = self.it
        n = f.x.shape[0]
        xs, ys = f.x.snap(), f.y.snap()

        def one(args):
            t = to_real(lift(args[0]))
            s = it.witness("seg", "I")
            inside = land(le(xs(iconst(0)), t), le(t, xs(sub(n, iconst(1)))))
            s1 = add(s, iconst(1))
            it.fact(implies(inside, land(le(iconst(0), s), lt(s1, n), le(xs(s), t), le(t, xs(s1)), lor(lt(xs(s), t), eq(s, iconst(0))), lt(xs(s), xs(s1)))))
            lin = add(ys(s), mul(div(sub(ys(s1), ys(s)), sub(xs(s1), xs(s))), sub(t, xs(s))))
            if f.lo is None:
                it.defined(inside, "interpolation inside of the table")
                return lin
            return ite(lt(t, xs(iconst(0))), f.lo, ite(lt(xs(sub(n, iconst(1))), t), f.hi, lin))
        return self.map_elementwise(one, [e])
