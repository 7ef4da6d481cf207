"""Assumed contracts of numpy / scipy / stdlib names."""
import os
from fractions import Fraction
from .terms import *
from .values import *
from .models import Dist, Frozen, Constants, Vectorized, Interp1d, Partial, RootResult, NamedTuple, scalar, POSINF, NEGINF
from .exprs import StarArg

ZERO, ONE = rconst(0), rconst(1)
LIB = {}


def lib(*names, star=False):
    def deco(f):
        for n in names:
            LIB[n] = (f, star)
        return f
    return deco


MODULES = {"numpy", "math", "scipy", "scipy.stats", "scipy.constants", "scipy.optimize", "scipy.integrate", "scipy.interpolate", "scipy.special", "itertools",
           "functools", "operator", "warnings", "copy", "pathlib", "os", "sys", "re", "collections", "collections.abc", "numbers", "typing", "abc", "os.path", "numpy.linalg", "contextlib"}


def resolve(md, mod, name):
    full = mod + "." + name
    if full in LIB:
        f, star = LIB[full]
        b = Builtin(full, lambda a, k: _use(md, full, f, a, k))
        b.name = name
        b.star_ok = star
        b.full = full
        return b
    if full in MODULES:
        return ExtModule(full)
    if full in ("numpy.pi", "math.pi", "scipy.constants.pi"):
        return PI
    if full in ("numpy.inf", "math.inf"):
        return POSINF
    if full in ("numpy.e", "math.e"):
        return app("exp", ONE)
    if full in ("numpy.newaxis",):
        return None
    if full in ("numpy.nan", "math.nan"):
        raise Unsupported("nan")
    if mod == "scipy.stats" and name in ("norm", "cauchy", "uniform"):
        return Dist(name)
    if full == "scipy.constants.physical_constants":
        return Constants()
    if mod == "scipy.constants":
        c = md.it.consts.get("." + name)
        if c is not None:
            md.use("scipy.constants.%s (value read from the installed scipy)" % name)
            return rconst(Fraction(c))
    if full in ("numpy.float64", "numpy.double", "numpy.float_"):
        return TypeVal("float64")
    if full in ("numpy.ndarray", "numpy.integer", "numpy.floating", "numpy.number"):
        return TypeVal(name)
    if mod in ("numbers", "collections.abc", "typing") and name in ("Number", "Real", "Integral", "Sequence", "Iterable", "Mapping", "Callable", "Sized"):
        return TypeVal(name)
    if full == "collections.OrderedDict":
        return TypeVal("dict")
    if mod == "typing":
        return Builtin(name, lambda a, k: None)
    if full == "abc.ABC":
        return TypeVal("object")
    if full == "abc.abstractmethod":
        return Builtin(name, lambda a, k: a[0])
    raise Unsupported("external name %s" % full)


def _use(md, full, f, a, k):
    md.use(full)
    return f(md, a, dict(k))


def names(args, kw, spec):
    """positional/keyword binding: spec is a list of (name, default)"""
    out = []
    args = list(args)
    kw = dict(kw)
    for n, d in spec:
        if args:
            out.append(args.pop(0))
        elif n in kw:
            out.append(kw.pop(n))
        elif d is REQ:
            raise PyRaise("TypeError", "missing " + n)
        else:
            out.append(d)
    if args or kw:
        raise Unsupported("arguments %s" % (sorted(kw),))
    return out


REQ = object()


# ------------------------------------------------------------------ elementary functions
def elementary(fname, dom=None, what="", fn=None):
    g = fn or (lambda x: app(fname, x))

    def f(md, a, k):
        x, = names(a, k, [("x", REQ)])
        if isinstance(x, (ObjVal, Opaque)) or x is None:
            raise Unsupported("%s of an object" % fname)
        if dom is not None:
            md.require_elem(lambda t: dom(to_real(t)), [x], what)
        return md.elementwise(lambda t: g(to_real(t)), [x])
    return f


LOG10 = app("log", rconst(10))
LOG2 = app("log", rconst(2))
for m in ("numpy", "math"):
    lib(m + ".sqrt")(elementary("sqrt", lambda t: le(ZERO, t), "square root of a nonnegative number"))
    lib(m + ".exp")(elementary("exp"))
    lib(m + ".expm1")(elementary("expm1", fn=lambda x: sub(app("exp", x), ONE)))
    lib(m + ".log10")(elementary("log10", lambda t: lt(ZERO, t), "logarithm of a positive number", lambda x: div(app("log", x), LOG10)))
    lib(m + ".log2")(elementary("log2", lambda t: lt(ZERO, t), "logarithm of a positive number", lambda x: div(app("log", x), LOG2)))
    lib(m + ".log1p")(elementary("log1p", lambda t: lt(rconst(-1), t), "logarithm of a positive number", lambda x: app("log", add(ONE, x))))
    lib(m + ".cos")(elementary("cos"))
    lib(m + ".sin")(elementary("sin"))
    lib(m + ".tan")(elementary("tan", fn=lambda x: div(app("sin", x), app("cos", x))))
lib("numpy.arccos", "math.acos")(elementary("arccos", lambda t: land(le(rconst(-1), t), le(t, ONE)), "arccos argument in [-1, 1]"))
lib("numpy.log")(elementary("log", lambda t: lt(ZERO, t), "logarithm of a positive number"))
lib("numpy.square")(elementary("square", fn=lambda x: mul(x, x)))
lib("numpy.reciprocal")(elementary("reciprocal", lambda t: lnot(eq(t, ZERO)), "division by nonzero", lambda x: div(ONE, x)))
lib("numpy.negative")(elementary("negative", fn=neg))
lib("numpy.deg2rad", "math.radians", "numpy.radians")(elementary("deg2rad", fn=lambda x: div(mul(x, PI), rconst(180))))


@lib("math.log")
def _mlog(md, a, k):
    md.require_elem(lambda t: lt(ZERO, to_real(t)), [a[0]], "logarithm of a positive number")
    r = md.elementwise(lambda t: app("log", to_real(t)), [a[0]])
    if len(a) > 1:
        return md.binop("Div", r, md.elementwise(lambda t: app("log", to_real(t)), [a[1]]))
    return r


@lib("numpy.abs", "numpy.absolute", "math.fabs", "numpy.fabs")
def _abs(md, a, k):
    return md.back(md.elementwise(tabs, [a[0]]))


def binary(full, op):
    @lib(full)
    def f(md, a, k):
        import ast
        return md.it.binop(getattr(ast, op)(), a[0], a[1])


for n, op in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"), ("power", "Pow"), ("float_power", "Pow")):
    binary("numpy." + n, op)
for n, op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("pow", "Pow")):
    binary("operator." + n, op)
binary("math.pow", "Pow")


@lib("operator.itemgetter")
def _itemgetter(md, a, k):
    return Builtin("itemgetter", lambda x, kk: md.getitem(x[0], a[0]) if len(a) == 1 else tuple(md.getitem(x[0], i) for i in a))


@lib("operator.attrgetter")
def _attrgetter(md, a, k):
    return Builtin("attrgetter", lambda x, kk: md.it.getattr(x[0], a[0]))


@lib("numpy.hypot", "math.hypot")
def _hypot(md, a, k):
    return md.elementwise(lambda x, y: app("sqrt", add(mul(to_real(x), to_real(x)), mul(to_real(y), to_real(y)))), a)


@lib("numpy.minimum", "numpy.fmin")
def _minimum(md, a, k):
    return md.elementwise(tmin, a[:2])


@lib("numpy.maximum", "numpy.fmax")
def _maximum(md, a, k):
    return md.elementwise(tmax, a[:2])


@lib("numpy.clip")
def _clip(md, a, k):
    x, lo, hi = names(a, k, [("a", REQ), ("a_min", None), ("a_max", None)])

    def cl(t, l, h):
        if any(s is POSINF or s is NEGINF for s in subterms(t)):
            def leaf(u):
                if u is POSINF:
                    return h
                if u is NEGINF:
                    return l
                if u.op == "ite":
                    return ite(u.args[0], leaf(u.args[1]), leaf(u.args[2]))
                if any(s is POSINF or s is NEGINF for s in subterms(u)):
                    raise Unsupported("arithmetic on an infinity")
                return tmin(tmax(u, l), h)
            return leaf(t)
        return tmin(tmax(t, l), h)
    if lo is None:
        return md.elementwise(lambda t, h: tmin(t, h), [x, hi])
    if hi is None:
        return md.elementwise(lambda t, l: tmax(t, l), [x, lo])
    return md.elementwise(lambda t, l, h: cl(to_real(t), to_real(l), to_real(h)), [x, lo, hi])


@lib("numpy.where")
def _where(md, a, k):
    if len(a) != 3:
        raise Unsupported("where with one argument")

    def w(c, x, y):
        if c.sort != "B":
            c = lnot(eq(c, lift(0)))
        return ite(c, x, y)
    return md.elementwise(w, a)


@lib("numpy.isinf", "math.isinf")
def _isinf(md, a, k):
    return md.back(md.elementwise(lambda t: md.isinf(t), [a[0]]))


@lib("numpy.isnan", "math.isnan")
def _isnan(md, a, k):
    return md.back(md.elementwise(lambda t: FALSE, [a[0]]))


@lib("numpy.isfinite", "math.isfinite")
def _isfin(md, a, k):
    return md.back(md.elementwise(lambda t: lnot(md.isinf(t)), [a[0]]))


@lib("numpy.logical_and")
def _land(md, a, k):
    return md.back(md.elementwise(lambda x, y: land(x, y), a))


@lib("numpy.logical_or")
def _lor(md, a, k):
    return md.back(md.elementwise(lambda x, y: lor(x, y), a))


@lib("numpy.logical_not")
def _lnot(md, a, k):
    return md.back(md.elementwise(lambda x: lnot(x), a))


for n, c in (("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE"), ("equal", "Eq"), ("not_equal", "NotEq")):
    lib("numpy." + n)(lambda md, a, k, c=c: md.compare(c, md.as_array(a[0]), md.as_array(a[1])))


# ------------------------------------------------------------------ array construction
def dtype_sort(dtype, sort):
    if dtype is None:
        return sort
    n = dtype.name if isinstance(dtype, TypeVal) else dtype
    if n in ("float", "float64", "double", "d", "f8"):
        return "R"
    if n in ("int", "int64", "integer"):
        return "I"
    if n == "bool":
        return "B"
    raise Unsupported("dtype %r" % (dtype,))


def cast(v, sort):
    if isinstance(v, ArrVal) and v.sort == "I" and sort == "R":
        f = v.snap()
        return ArrVal(v.shape, lambda *i: to_real(f(*i)), "R")
    if isinstance(v, ArrVal) and v.sort != sort:
        raise Unsupported("dtype conversion")
    return v


@lib("numpy.array", "numpy.asarray", "numpy.copy", "numpy.ascontiguousarray", "numpy.asfarray", "numpy.fromiter")
def _array(md, a, k):
    k.pop("copy", None)
    k.pop("ndmin", None) if k.get("ndmin") in (0, None) else None
    x, dt = names(a, k, [("a", REQ), ("dtype", None)])
    r = md.as_array(x)
    if scalar(r):
        t = lift(r)
        return ArrVal([], lambda: t, t.sort)
    r = ArrVal(r.shape, r.snap(), r.sort, r.uniq_of)
    return cast(r, dtype_sort(dt, r.sort))


@lib("numpy.atleast_1d")
def _atleast(md, a, k):
    r = md.as_array(a[0])
    if scalar(r):
        t = lift(r)
        return ArrVal([iconst(1)], lambda i: t, t.sort)
    return r


def shape_of(md, s):
    if isinstance(s, tuple):
        return [lift(x) for x in s]
    if isinstance(s, ListVal):
        c = s.concrete()
        if c is None:
            raise Unsupported("shape")
        return [lift(x) for x in c]
    t = lift(s)
    if t.sort != "I":
        raise PyRaise("TypeError", "shape")
    return [t]


def filled(name, val):
    @lib("numpy." + name)
    def f(md, a, k):
        s, dt = names(a, k, [("shape", REQ), ("dtype", None)])
        sort = dtype_sort(dt, "R")
        sh = shape_of(md, s)
        for d in sh:
            md.it.defined(le(iconst(0), d), "nonnegative array dimension")
        if val is None:
            w = md.it.witness("empty")
            return ArrVal(sh, lambda *i: app(w.args[0], *w.args[1:], *i))
        v = rconst(val) if sort == "R" else iconst(val)
        return ArrVal(sh, lambda *i: v, sort)

    @lib("numpy." + name + "_like")
    def g(md, a, k):
        s, dt = names(a, k, [("a", REQ), ("dtype", None)])
        s = md.as_array(s)
        if scalar(s):
            t = rconst(val or 0)
            return ArrVal([], lambda: t)
        sort = dtype_sort(dt, s.sort)
        v = rconst(val or 0) if sort == "R" else iconst(val or 0)
        if val is None:
            w = md.it.witness("empty")
            return ArrVal(s.shape, lambda *i: app(w.args[0], *w.args[1:], *i))
        return ArrVal(s.shape, lambda *i: v, sort)


filled("zeros", 0)
filled("ones", 1)
filled("empty", None)


@lib("numpy.full")
def _full(md, a, k):
    s, v, dt = names(a, k, [("shape", REQ), ("fill_value", REQ), ("dtype", None)])
    t = md.num(v)
    sort = dtype_sort(dt, t.sort)
    t = to_real(t) if sort == "R" else t
    return ArrVal(shape_of(md, s), lambda *i: t, sort)


@lib("numpy.full_like")
def _full_like(md, a, k):
    s, v, dt = names(a, k, [("a", REQ), ("fill_value", REQ), ("dtype", None)])
    t = md.num(v)
    s = md.as_array(s)
    sort = dtype_sort(dt, s.sort)
    return ArrVal(s.shape, lambda *i: to_real(t) if sort == "R" else t, sort)


@lib("numpy.linspace")
def _linspace(md, a, k):
    lo, hi, n, endpoint = names(a, k, [("start", REQ), ("stop", REQ), ("num", 50), ("endpoint", True)])
    it = md.it
    lo, hi = to_real(md.num(lo)), to_real(md.num(hi))
    n = lift(n)
    if n.sort != "I":
        raise PyRaise("TypeError", "linspace")
    it.defined(le(iconst(0), n), "nonnegative number of points")
    for t in (lo, hi):
        if any(s is POSINF or s is NEGINF for s in subterms(t)):
            raise Unsupported("grid with an infinite limit")
    if endpoint is True:
        if is_const(n) and cval(n) <= 1 or not is_const(n) and it.branch(le(n, iconst(1))):
            return ArrVal([n], lambda i: lo)
        m = to_real(sub(n, iconst(1)))
    else:
        m = to_real(n)
    return ArrVal([n], lambda i: add(lo, mul(to_real(i), div(sub(hi, lo), m))))


@lib("numpy.arange")
def _arange(md, a, k):
    if k or any(not (isinstance(x, int) or isinstance(x, T) and x.sort == "I") for x in a):
        raise Unsupported("arange of floats")
    return md.as_array(md.mk_range(a))


@lib("numpy.unique")
def _unique(md, a, k):
    if k:
        raise Unsupported("unique with options")
    x = a[0]
    if isinstance(x, ArrVal):
        if x.uniq_of is not None:
            return x
        if len(x.shape) != 1:
            raise Unsupported("unique of a matrix")
        return md.unique(md.it.iterate(ArrVal(x.shape, x.snap(), x.sort)))
    return md.unique(md.it.iterate(x))


@lib("numpy.sort")
def _sort(md, a, k):
    x = a[0]
    if isinstance(x, ArrVal) and x.uniq_of is not None:
        return ArrVal(x.shape, x.snap(), x.sort, x.uniq_of)
    if isinstance(x, ListVal):
        raise Unsupported("sort")
    raise Unsupported("sort")


@lib("numpy.roll")
def _roll(md, a, k):
    x, s, axis = names(a, k, [("a", REQ), ("shift", REQ), ("axis", None)])
    x = md.as_array(x)
    if not isinstance(s, int) or len(x.shape) != 1:
        raise Unsupported("roll")
    n, f = x.shape[0], x.snap()
    if abs(s) > 1:
        raise Unsupported("roll by more than one")
    # |s| <= 1: exact for every n >= 1
    if s >= 0:
        return ArrVal([n], lambda i: f(ite(le(iconst(s), i), sub(i, iconst(s)), add(sub(i, iconst(s)), n))) if not (is_const(i) and cval(i) >= s) else f(sub(i, iconst(s))), x.sort)
    return ArrVal([n], lambda i: f(ite(lt(sub(i, iconst(s)), n), sub(i, iconst(s)), sub(sub(i, iconst(s)), n))), x.sort)


@lib("numpy.diff")
def _diff(md, a, k):
    x, n = names(a, k, [("a", REQ), ("n", 1)])
    x = md.as_array(x)
    if n != 1 or len(x.shape) != 1:
        raise Unsupported("diff")
    f = x.snap()
    m = sub(x.shape[0], iconst(1))
    if not md.it.prover.entails_quick(md.it.pc, le(iconst(0), m)):
        m = tmax(m, iconst(0))
    return ArrVal([m], lambda i: sub(f(add(i, iconst(1))), f(i)), x.sort)


@lib("numpy.concatenate", "numpy.hstack")
def _concat(md, a, k):
    x, axis = names(a, k, [("arrays", REQ), ("axis", 0)])
    segs = md.it.iterate(x)
    return cat(md, md.chain_iter(segs))


def cat(md, lst):
    try:
        return md.array_of_segs(lst.segs)
    except Unsupported:
        # irregular concatenation: only its elements are known
        r = LazySeq(lst.segs)
        return r


class LazySeq:
    """concatenation of unboundedly many arrays: only consumed by unique / iteration"""

    def __init__(self, segs):
        self.segs = list(segs)

    def iterate_segs(self, it):
        return list(self.segs)


@lib("numpy.append")
def _append(md, a, k):
    x, v, axis = names(a, k, [("arr", REQ), ("values", REQ), ("axis", None)])
    segs = []
    for y in (x, v):
        if scalar(y):
            segs.append(("e", y))
        else:
            segs.extend(md.it.iterate(y))
    return cat(md, ListVal(segs))


@lib("numpy.vstack", "numpy.stack")
def _vstack(md, a, k):
    x, axis = names(a, k, [("arrays", REQ), ("axis", 0)])
    if axis != 0:
        raise Unsupported("stack axis")
    r = md.as_array(x)
    if len(r.shape) != 2:
        raise Unsupported("stack")
    return r


@lib("numpy.column_stack")
def _cstack(md, a, k):
    r = md.as_array(a[0])
    f = r.snap()
    return ArrVal(r.shape[::-1], lambda i, j: f(j, i), r.sort)


# ------------------------------------------------------------------ reductions
def unroll0(md, x):
    if not is_const(x.shape[0]):
        return None
    return int(cval(x.shape[0]))


def reduction(name, red):
    @lib("numpy." + name)
    def f(md, a, k):
        x, axis = names(a, k, [("a", REQ), ("axis", None)])
        if isinstance(x, ListVal) and x.segs and any(s[0] in "bg" for s in x.segs):
            if name == "sum":
                return to_real(seg_sum(x.segs, lambda v: md.num(v)))
            raise Unsupported(name)
        x = md.as_array(x)
        if scalar(x):
            return x
        if isinstance(axis, tuple):
            raise Unsupported("axis")
        if len(x.shape) == 0:
            return x.f()
        g = x.snap()
        if len(x.shape) == 1 and axis in (None, 0, -1):
            return red(md, x.shape[0], g)
        if len(x.shape) == 2 and axis in (0, -2):
            return ArrVal([x.shape[1]], lambda j: lift(red(md, x.shape[0], lambda i: g(i, j))))
        if len(x.shape) == 2 and axis in (1, -1):
            return ArrVal([x.shape[0]], lambda i: lift(red(md, x.shape[1], lambda j: g(i, j))))
        if len(x.shape) == 2 and axis is None and name == "sum":
            return red(md, x.shape[0], lambda i: red(md, x.shape[1], lambda j: g(i, j)))
        raise Unsupported("%s of a multidimensional array" % name)


def red_sum(md, n, g):
    t = tsum(iconst(0), n, g)
    return t


def red_ext(which):
    def red(md, n, g):
        if is_const(n):
            m = int(cval(n))
            if m == 0:
                raise PyRaise("ValueError", "empty")
            if m <= 64:
                out = g(iconst(0))
                for i in range(1, m):
                    out = which(out, g(iconst(i)))
                return out
        it = md.it
        it.defined(lt(iconst(0), n), "nonempty array")
        w = it.witness("ext", "I")
        it.fact(le(iconst(0), w))
        it.fact(lt(w, n))
        v = g(w)
        it.fact(tall(iconst(0), n, lambda i: le(v, g(i)) if which is tmin else le(g(i), v)))
        return v
    return red


reduction("sum", red_sum)
reduction("min", red_ext(tmin))
reduction("max", red_ext(tmax))
reduction("amin", red_ext(tmin))
reduction("amax", red_ext(tmax))
reduction("all", lambda md, n, g: md.back(tall(iconst(0), n, g)))
reduction("any", lambda md, n, g: md.back(lnot(tall(iconst(0), n, lambda i: lnot(g(i))))))
LIB["math.fsum"] = LIB["numpy.sum"]


@lib("numpy.mean", "numpy.average")
def _mean(md, a, k):
    x = md.as_array(a[0])
    if len(a) > 1 or k or len(x.shape) != 1:
        raise Unsupported("mean")
    md.it.defined(lt(iconst(0), x.shape[0]), "nonempty array")
    return div(to_real(tsum(iconst(0), x.shape[0], x.snap())), to_real(x.shape[0]))


@lib("numpy.cumsum")
def _cumsum(md, a, k):
    x = md.as_array(a[0])
    if len(a) > 1 or k or len(x.shape) != 1:
        raise Unsupported("cumsum")
    f = x.snap()
    return ArrVal(x.shape, lambda i: tsum(iconst(0), add(i, iconst(1)), f), x.sort)


@lib("numpy.dot", "numpy.inner", "numpy.matmul", "numpy.vdot")
def _dot(md, a, k):
    return md.dot(a[0], a[1])


@lib("numpy.trapz", "numpy.trapezoid", "scipy.integrate.trapezoid", "scipy.integrate.trapz")
def _trapz(md, a, k):
    raise Unsupported("trapezoidal rule")


@lib("numpy.size")
def _size(md, a, k):
    x = md.as_array(a[0])
    return 1 if scalar(x) else md.arr_attr(x, "size")


@lib("numpy.shape")
def _shape(md, a, k):
    x = md.as_array(a[0])
    return () if scalar(x) else md.arr_attr(x, "shape")


@lib("numpy.ndim")
def _ndim(md, a, k):
    x = md.as_array(a[0])
    return 0 if scalar(x) else len(x.shape)


@lib("numpy.isscalar")
def _isscalar(md, a, k):
    return scalar(a[0]) or isinstance(a[0], (str, Rope))


@lib("numpy.transpose")
def _transpose(md, a, k):
    return md.arr_attr(md.as_array(a[0]), "T")


@lib("numpy.flip")
def _flip(md, a, k):
    return md.arr_get(md.as_array(a[0]), slice(None, None, -1))


@lib("numpy.vectorize")
def _vectorize(md, a, k):
    if k or len(a) != 1:
        raise Unsupported("vectorize options")
    return Vectorized(a[0])


@lib("numpy.interp")
def _interp(md, a, k):
    t, x, y, left, right = names(a, k, [("x", REQ), ("xp", REQ), ("fp", REQ), ("left", None), ("right", None)])
    x, y = md.as_array(x), md.as_array(y)
    f = x.snap()
    n = x.shape[0]
    g = y.snap()
    sorted_check(md, f, n, strict=True)
    lo = g(iconst(0)) if left is None else to_real(lift(left))
    hi = g(sub(n, iconst(1))) if right is None else to_real(lift(right))
    return Interp1d(x, y, lo, hi).pycall(md.it, [t], {})


def sorted_check(md, f, n, strict=False):
    cmp = lt if strict else le
    goal = tall(iconst(0), n, lambda i: tall(add(i, iconst(1)), n, lambda j: cmp(f(i), f(j))))
    if md.it.prover.prove(md.it.pc, goal).status != "proved":
        raise Unsupported("interpolation nodes are not known to be increasing")


@lib("scipy.interpolate.interp1d")
def _interp1d(md, a, k):
    k.pop("assume_sorted", None)
    k.pop("copy", None)
    x, y, kind, axis, be, fv = names(a, k, [("x", REQ), ("y", REQ), ("kind", "linear"), ("axis", -1), ("bounds_error", None), ("fill_value", None)])
    if kind != "linear":
        raise Unsupported("interpolation kind")
    x, y = md.as_array(x), md.as_array(y)
    if len(x.shape) != 1 or len(y.shape) != 1:
        raise Unsupported("interpolation of a matrix")
    if x.shape[0] is not y.shape[0]:
        md.it.defined(eq(x.shape[0], y.shape[0]), "array shapes match")
    sorted_check(md, x.snap(), x.shape[0])
    xs, ys = ArrVal(x.shape, x.snap()), ArrVal(y.shape, y.snap())
    f = x.snap()
    md.it.defined(le(iconst(2), x.shape[0]), "at least two interpolation nodes")
    md.it.defined(lt(f(iconst(0)), f(iconst(1))), "first two interpolation nodes differ")
    if be is True or (be is None and fv is None):
        return Interp1d(xs, ys, None, None)
    if isinstance(fv, tuple) and len(fv) == 2:
        lo, hi = to_real(md.num(fv[0])), to_real(md.num(fv[1]))
    elif scalar(fv) and fv is not None:
        lo = hi = to_real(md.num(fv))
    elif isinstance(fv, ListVal) or isinstance(fv, str) or fv is None:
        raise Unsupported("fill value %r" % (fv,))
    else:
        raise Unsupported("fill value")
    return Interp1d(xs, ys, lo, hi)


# ------------------------------------------------------------------ integration, roots
def integrand_args(md, a):
    if isinstance(a, ListVal):
        return a.concrete()
    return list(a) if isinstance(a, tuple) else [a]


def integral(md, fn, ranges, inner=()):
    """nested integral; the innermost variable is the first argument of fn"""
    it = md.it

    def rec(d, vars):
        # d: index of the outermost range not yet bound (from the last to the first)
        if d < 0:
            return to_real(md.num(it.call(fn, vars, {})))
        lo, hi = ranges[d]
        x = fresh("t")
        saved = list(it.pc)
        pend0 = it.pos

        def go():
            it.fact(lor(land(lt(lo, x), lt(x, hi)), land(lt(hi, x), lt(x, lo))) if not it.prover.entails_quick(it.pc, le(lo, hi)) else land(lt(lo, x), lt(x, hi)))
            return rec(d - 1, [x] + vars)
        outs = it.explore(go)
        val = None
        for o in outs:
            if o.kind != "normal" or o.effects:
                raise Unsupported("integrand with side effects or exceptions")
            it.obligations.extend(o.obligations)
            val = o.value if val is None else ite(land(*o.dec), o.value, val)
        if val is None:
            return ZERO
        if any(s.op == "app" and s.args[0].startswith("wit:") for s in subterms(val) if s.op == "app"):
            raise Unsupported("integrand known only through facts")
        return tint(lo, hi, lambda t: subst(val, {x: t}))
    return rec(len(ranges) - 1, list(inner))


@lib("scipy.integrate.quad")
def _quad(md, a, k):
    for o in ("limit", "epsabs", "epsrel", "points"):
        k.pop(o, None)
    fn, lo, hi, args = names(a, k, [("func", REQ), ("a", REQ), ("b", REQ), ("args", ())])
    lo, hi = to_real(md.num(lo)), to_real(md.num(hi))
    if any(s is POSINF or s is NEGINF for t in (lo, hi) for s in subterms(t)):
        raise Unsupported("improper integral")
    v = integral(md, fn, [(lo, hi)], integrand_args(md, args))
    return (v, app("quaderr", v))


@lib("scipy.integrate.dblquad")
def _dblquad(md, a, k):
    raise Unsupported("dblquad")


@lib("scipy.integrate.nquad")
def _nquad(md, a, k):
    k.pop("opts", None)
    fn, ranges, args, full = names(a, k, [("func", REQ), ("ranges", REQ), ("args", ()), ("full_output", False)])
    if full is not False:
        raise Unsupported("nquad full_output")
    segs = md.it.iterate(ranges)
    if not all(s[0] == "e" for s in segs):
        raise Unsupported("unbounded number of integration ranges")
    rs = []
    for s in segs:
        if isinstance(s[1], (FuncVal, Bound, Opaque, Builtin)):
            raise Unsupported("integration range given by a function")
        lo, hi = md.it.unpack(s[1], 2)
        rs.append((to_real(md.num(lo)), to_real(md.num(hi))))
    v = integral(md, fn, rs, integrand_args(md, args))
    return (v, app("quaderr", v))


@lib("scipy.optimize.newton")
def _newton(md, a, k):
    for o in ("tol", "maxiter", "rtol"):
        k.pop(o, None)
    fn, x0, fp, args, full, disp, fp2 = names(a, k, [("func", REQ), ("x0", REQ), ("fprime", None), ("args", ()), ("full_output", False), ("disp", True), ("fprime2", None)])
    it = md.it
    extra = integrand_args(md, args)
    x0 = md.as_array(x0)
    if scalar(x0):
        if disp is not False and not it.decide_fork():
            it.root_failed = True
            raise PyRaise("RuntimeError", "newton failed to converge")
        conv = True if disp is not False else it.decide_fork()
        r = it.witness("root")
        if conv:
            # assumed: a root reported as converged is a root
            saved = list(it.obligations)
            v = it.call(fn, [r] + extra, {})
            it.obligations = saved
            it.fact(eq(to_real(md.num(v)), ZERO))
        else:
            it.root_failed = True
            if not it.decide_fork():
                it.warn(("RuntimeWarning", "newton"))
        if full:
            return (r, RootResult(r, conv))
        return r
    if len(x0.shape) != 1:
        raise Unsupported("newton on a matrix")
    n = x0.shape[0]
    if not it.decide_fork():
        it.root_failed = True
        raise PyRaise("RuntimeError", "newton failed to converge")
    w = it.witness("roots")
    rt = ArrVal([n], lambda i: app(w.args[0], *w.args[1:], i))
    c = it.witness("conv", "B")
    cv = lambda i: app(c.args[0], *c.args[1:], i, sort="B")
    saved = list(it.obligations)
    v = md.as_array(it.call(fn, [rt] + extra, {}))
    it.obligations = saved
    if not isinstance(v, ArrVal) or len(v.shape) != 1:
        raise Unsupported("newton: function values")
    g = v.snap()
    it.fact(tall(iconst(0), n, lambda i: implies(cv(i), eq(g(i), ZERO))))
    allc = tall(iconst(0), n, cv)
    if not it.branch(allc):
        it.root_failed = True
        if not it.decide_fork():
            it.warn(("RuntimeWarning", "newton"))
    if full:
        z = it.witness("zeroder", "B")
        return NamedTuple(["root", "converged", "zero_der"], [rt, ArrVal([n], cv, "B"), ArrVal([n], lambda i: app(z.args[0], *z.args[1:], i, sort="B"), "B")])
    return rt


@lib("scipy.special.voigt_profile")
def _voigt(md, a, k):
    x, s, g = names(a, k, [("x", REQ), ("sigma", REQ), ("gamma", REQ)])
    md.require_elem(lambda u, v: land(le(ZERO, to_real(u)), le(ZERO, to_real(v))), [s, g], "nonnegative Voigt widths")
    return md.elementwise(lambda u, v, w: app("voigt", to_real(u), to_real(v), to_real(w)), [x, s, g])


@lib("pathlib.Path", "pathlib.PurePath")
def _path(md, a, k):
    parts = [x.text if isinstance(x, PathVal) else x for x in a]
    if not parts or not all(isinstance(x, (str, Rope)) for x in parts):
        raise Unsupported("path of %r" % (a,))
    return PathVal(md.text([x for p in parts for x in ("/", p)][1:]))


@lib("os.path.join")
def _join(md, a, k):
    return _path(md, a, k).text


@lib("os.path.dirname")
def _dirname(md, a, k):
    if isinstance(a[0], str):
        return os.path.dirname(a[0])
    raise Unsupported("dirname")


@lib("os.path.abspath", "os.path.normpath", "os.fspath")
def _abspath(md, a, k):
    return a[0].text if isinstance(a[0], PathVal) else a[0]


@lib("scipy.constants.value")
def _cvalue(md, a, k):
    return md.constant(a[0])[0]


# ------------------------------------------------------------------ stdlib
@lib("itertools.chain", star=True)
def _chain(md, a, k):
    segs = []
    for x in a:
        if isinstance(x, StarArg):
            segs.extend(md.chain_iter(x.lst.segs).segs)
        else:
            segs.extend(md.it.iterate(x))
    return ListVal(segs, "iter")


@lib("itertools.pairwise")
def _pairwise(md, a, k):
    l = ListVal(md.it.iterate(a[0]))
    return md.b_zip([l, md.list_slice(l, slice(1, None, None))], {})


@lib("itertools.repeat")
def _repeat(md, a, k):
    if len(a) != 2:
        raise Unsupported("infinite repeat")
    r = md.seqop("Mult", ListVal([("e", a[0])]), a[1])
    r.kind = "iter"
    return r


@lib("itertools.starmap")
def _starmap(md, a, k):
    return md.b_map([Builtin("starmap", lambda x, kk: md.it.call(a[0], list(md.it.unpack(x[0], 0, True)), {})), a[1]], {})


@lib("itertools.accumulate")
def _accumulate(md, a, k):
    raise Unsupported("accumulate")


@lib("functools.reduce")
def _reduce(md, a, k):
    segs = md.it.iterate(a[1])
    if len(a) > 2:
        init = a[2]
    else:
        if not segs:
            raise PyRaise("TypeError", "reduce of empty")
        if segs[0][0] == "e":
            init, segs = segs[0][1], segs[1:]
        else:
            l = ListVal(segs)
            md.it.defined(lt(iconst(0), lift(l.length())), "reduce of a nonempty sequence")
            init = md.list_val(l, iconst(0))
            segs = md.list_slice(l, slice(1, None, None)).segs
    return md.fold(segs, init, lambda x, y: md.it.call(a[0], [x, y], {}))


@lib("functools.partial")
def _partial(md, a, k):
    return Partial(a[0], a[1:], k)


@lib("functools.wraps")
def _wraps(md, a, k):
    return Builtin("wraps", lambda x, kk: x[0])


@lib("copy.copy")
def _copy(md, a, k):
    v = a[0]
    if isinstance(v, ListVal):
        return ListVal(list(v.segs), v.kind)
    if isinstance(v, DictVal):
        return DictVal(list(v.segs))
    if isinstance(v, ArrVal):
        return ArrVal(v.shape, v.snap(), v.sort, v.uniq_of)
    if isinstance(v, ObjVal):
        o = ObjVal(v.cls)
        o.attrs = dict(v.attrs)
        return o
    if scalar(v) or v is None or isinstance(v, (str, tuple)):
        return v
    raise Unsupported("copy")


@lib("copy.deepcopy")
def _deepcopy(md, a, k):
    return deep(a[0], {})


def deep(v, memo):
    if id(v) in memo:
        return memo[id(v)]
    if scalar(v) or v is None or isinstance(v, (str, FuncVal, ClassVal, TypeVal, Builtin, Dist)):
        return v
    if isinstance(v, tuple):
        return tuple(deep(x, memo) for x in v)
    if isinstance(v, ArrVal):
        r = ArrVal(v.shape, v.snap(), v.sort, v.uniq_of)
    elif isinstance(v, ListVal):
        if any(s[0] != "e" and not (s[0] == "r" and scalar(s[3])) for s in v.segs):
            raise Unsupported("deepcopy")
        r = ListVal([("e", deep(s[1], memo)) if s[0] == "e" else s for s in v.segs], v.kind)
    elif isinstance(v, DictVal):
        if any(s[0] != "e" for s in v.segs):
            raise Unsupported("deepcopy")
        r = DictVal([("e", s[1], deep(s[2], memo)) for s in v.segs])
    elif isinstance(v, ObjVal):
        r = ObjVal(v.cls)
        memo[id(v)] = r
        r.attrs = {n: deep(x, memo) for n, x in v.attrs.items()}
        return r
    else:
        raise Unsupported("deepcopy")
    memo[id(v)] = r
    return r


@lib("warnings.warn")
def _warn(md, a, k):
    cat = a[1] if len(a) > 1 else k.get("category")
    name = cat.name if isinstance(cat, (TypeVal, ClassVal)) else "UserWarning"
    md.it.warn((name, a[0] if a else k.get("message")))


class NullCm:
    def cm_enter(self, it):
        return None


@lib("warnings.catch_warnings")
def _catch(md, a, k):
    raise Unsupported("warnings filter")


@lib("numpy.errstate")
def _errstate(md, a, k):
    return NullCm()
