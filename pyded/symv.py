"""Symbolic side of the contract language (the concrete side is vspec/concrete.py).

A contract theorem is a plain Python function of one argument `v`.  It is executed by the same
symbolic interpreter as the code under verification: inputs are arbitrary, `require` adds facts,
`ensure` / `equal` become proof obligations.
"""
import os
from fractions import Fraction
from .terms import *
from .values import *
from .models import scalar, POSINF, NEGINF, Models
from .helpers import same_value
from .text import TextFile, DIGITS, FLOAT, LETTERS

UPPER = LETTERS[26:]


class Obs:
    """what a call did"""

    def __init__(self, value, raised, warned, messages, root_failed=False):
        self.value, self.raised, self.warned, self.messages = value, raised, warned, messages
        self.root_failed = root_failed

    def getattr_model(self, it, name):
        if name in ("value", "raised", "warned", "messages", "root_failed"):
            v = getattr(self, name)
            if name == "value" and self.raised is not None:
                raise Unsupported("value of a call that raised")
            return v
        raise PyRaise("AttributeError", name)


class Numbers:
    """text of a warning: its formatted numbers"""


class SymV:
    def __init__(self, it):
        self.it = it
        self.inputs = {}
        self.theorem = None
        self.choices = {}

    def getattr_model(self, it, name):
        f = getattr(self, "v_" + name, None)
        if f is None:
            raise PyRaise("AttributeError", "contract operation " + name)
        return Builtin("v." + name, lambda a, k: f(*a, **k))

    # ------------------------------------------------------------------ inputs
    def _idx(self, i):
        if i is None:
            return []
        if isinstance(i, tuple):
            return [lift(x) for x in i]
        return [lift(i)]

    def _bounds(self, t, gt=None, ge=None, lt=None, le=None):
        from . import terms as tm
        L = lambda x: to_real(lift(x)) if t.sort == "R" else lift(x)
        out = []
        if gt is not None:
            out.append(tm.lt(L(gt), t))
        if ge is not None:
            out.append(tm.le(L(ge), t))
        if lt is not None:
            out.append(tm.lt(t, L(lt)))
        if le is not None:
            out.append(tm.le(t, L(le)))
        return land(*out)

    def _quant_fact(self, idx, fact):
        """a fact about an input indexed by template variables holds for every index"""
        self.it.fact(fact)

    def v_real(self, name, i=None, **b):
        t = app("in:" + name, *self._idx(i))
        self.inputs[name] = "R"
        b = {k: x for k, x in b.items() if k in ("gt", "ge", "lt", "le")}
        self.it.fact(self._bounds(t, **b))
        return t

    def v_near(self, name, center, scale):
        """any real number; the centre and scale only guide the concrete trials"""
        return self.v_real(name)

    def v_int(self, name, i=None, **b):
        t = app("in:" + name, *self._idx(i), sort="I")
        self.inputs[name] = "I"
        b = {k: x for k, x in b.items() if k in ("gt", "ge", "lt", "le")}
        self.it.fact(self._bounds(t, **b))
        return t

    def v_number(self, name, i=None, **b):
        """an int or a float"""
        if self._pick("number:" + name, 2) == 0:
            return self.v_real(name + "_f", i, **b)
        return self.v_int(name + "_i", i, **b)

    def _pick(self, name, n):
        if "choice:" + name in self.choices:
            return self.choices["choice:" + name]
        c = 0
        while c < n - 1 and not self.it.decide_fork():
            c += 1
        self.choices["choice:" + name] = c
        return c

    def v_flag(self, name):
        return self._pick(name, 2) == 0

    def v_choice(self, name, *options):
        return options[self._pick(name, len(options))]

    def v_array(self, name, n, increasing=False, i=None, step=None, **b):
        pre = self._idx(i)
        n = lift(n)
        f = lambda k: app("in:" + name, *pre, k)
        self.inputs[name] = "A"
        bb = {k: x for k, x in b.items() if k in ("gt", "ge", "lt", "le")}
        if bb:
            self.it.fact(tall(iconst(0), n, lambda k: self._bounds(f(k), **bb)))
        if increasing:
            self.it.fact(tall(iconst(0), n, lambda a: tall(add(a, iconst(1)), n, lambda c: lt(f(a), f(c)))))
        return ArrVal([n], f)

    def v_energy(self, name="E", **b):
        """a scalar or an array of energies"""
        if self._pick("energy:" + name, 2) == 0:
            return self.v_real(name, **b)
        n = self.v_int("len_" + name, ge=1, le=None)
        return self.v_array(name + "s", n, **b)

    def v_le(self, a, b, tol=None):
        return self.it.models.compare("LtE", a, b)

    def v_lt(self, a, b, tol=None):
        return self.it.models.compare("Lt", a, b)

    def v_fn(self, name, i=None, positive=False):
        return UFn("in:" + name, self._idx(i))

    def v_key(self, fam, i):
        return Key(fam, lift(i))

    def v_list(self, name, n, fn):
        """list of n elements fn(i), n arbitrary"""
        return ListVal(self._run(n, fn))

    def _run(self, n, fn):
        n = lift(n)
        it = self.it
        if is_const(n) and cval(n) <= 16:
            return [("e", it.call(fn, [i], {})) for i in range(int(cval(n)))]
        x = fresh("x", "I")
        saved = list(it.pc)
        it.index_ctx = it.index_ctx + [x]
        it.fact(le(iconst(0), x))
        it.fact(lt(x, n))
        base = list(it.pc)
        p0 = it.pos
        try:
            val = it.call(fn, [x], {})
        finally:
            it.index_ctx = it.index_ctx[:-1]
        if it.pos != p0:
            raise Unsupported("contract: choice inside a list template")
        new = [p for p in it.pc if p not in base]
        it.pc = saved
        for p in new:
            it.fact(tall(iconst(0), n, lambda j, p=p: subst(p, {x: j})))
        return [("r", n, x, val)]

    def v_dict(self, name, n, keyfn, valfn):
        """dict with n entries keyfn(i) -> valfn(i), keys distinct"""
        ks, vs = self._run(n, keyfn), self._run(n, valfn)
        out = []
        for a, b in zip(ks, vs):
            if a[0] == "e":
                out.append(("e", a[1], b[1]))
            else:
                out.append(("r", a[1], a[2], a[3], vsubst(b[3], {b[2]: a[2]})))
        return DictVal(out)

    def v_shuffled_dict(self, name, n, fam, valfn):
        """dict with the keys v.key(fam, 0..n-1) in an arbitrary insertion order"""
        n = lift(n)
        vs = self._run(n, valfn)
        if vs and vs[0][0] == "r":
            tmpl, x = vs[0][3], vs[0][2]
            val = lambda i: vsubst(tmpl, {x: i})
        else:
            raise Unsupported("contract: shuffled_dict needs a symbolic length")
        perm = "in:perm_" + name
        order = lambda j: app(perm, j, sort="I")
        self.it.fact(tall(iconst(0), n, lambda j: land(le(iconst(0), order(j)), lt(order(j), n))))
        has = lambda i: land(le(iconst(0), i), lt(i, n))
        return DictVal([("f", fam, n, order, has, val)])

    def v_merge(self, *dicts):
        segs = []
        for d in dicts:
            segs.extend(d.segs)
        return DictVal(segs)

    def v_concat(self, *lists):
        segs = []
        for l in lists:
            segs.extend(l.segs)
        return ListVal(segs)

    def v_cross_section(self, name, i=None):
        """an arbitrary cross section: instance of CrossSection, values an arbitrary function of energy,
        probability grid an arbitrary array"""
        it = self.it
        cls = it.load("ries.cross_section").ns["CrossSection"]
        if not isinstance(cls, ClassVal):
            raise Unsupported("CrossSection is not extracted")
        fn = "in:" + name

        def call(o, a, k):
            e = a[0] if a else k.get("E", k.get("energy"))
            return it.models.elementwise(lambda t: app(fn, *o.idx, to_real(t)), [e], "R")

        def grid(o, a, k):
            lim, n = a
            n = lift(n)
            lo, hi = it.models.getitem(lim, 0), it.models.getitem(lim, 1)
            g = lambda j: app("in:grid_" + name, *o.idx, to_real(lift(lo)), to_real(lift(hi)), n, j)
            return ArrVal([n], g)
        return Opaque(name, cls, self._idx(i), call, {"equidistant_probability_grid": grid})

    def v_cross_section_value(self, name, i, E):
        return app("in:" + name, *self._idx(i), to_real(lift(E)))

    def v_fixed_result(self, kept):
        """a cross section that returns the same array object every time"""
        cls = self.it.load("ries.cross_section").ns["CrossSection"]
        if not isinstance(cls, ClassVal):
            raise Unsupported("CrossSection is not extracted")
        return Opaque("fixed", cls, [], lambda o, a, k: kept, {"equidistant_probability_grid": lambda o, a, k: kept})

    def v_table(self, name, n):
        """attenuation table: increasing positive energies, positive coefficients"""
        e = self.v_array(name + "_e", n, increasing=True, gt=0)
        c = self.v_array(name + "_c", n, gt=0)
        d = self.v_array(name + "_d", n, gt=0)
        fe, fc, fd = e.snap(), c.snap(), d.snap()
        return ArrVal([lift(n), iconst(3)], lambda i, j: ite(eq(j, iconst(0)), fe(i), ite(eq(j, iconst(1)), fc(i), fd(i))))

    def v_record(self, **attrs):
        """a plain object with the given attributes"""
        o = Opaque("record", None, (), None, {}, dict(attrs))
        return o

    # ------------------------------------------------------------------ text
    def v_digits(self, x):
        """decimal digits of a non-negative integer"""
        self.it.fact(le(iconst(0), lift(x)))
        return Rope([Tok("int", lift(x), DIGITS)])

    def v_decimal(self, x):
        """any text that is read as the non-negative number x: starts with a digit, no blanks"""
        return Rope([Tok("float", to_real(lift(x)), FLOAT, opts={"first": DIGITS})])

    def v_symbol(self, fam, i):
        """an arbitrary element symbol, one or two letters; different numbers mean different symbols"""
        return Rope([Tok("sym", Key(fam, lift(i)), LETTERS, opts={"max": 2, "first": UPPER})])

    def _code(self, fam, i):
        return Key(fam, app("code:" + fam, *self._idx(i), sort="I") if isinstance(i, tuple) else lift(i))

    def v_word(self, fam, i, width):
        """an arbitrary word of at most `width` letters and digits that starts with a letter"""
        return Rope([Tok("word", self._code(fam, i), LETTERS + DIGITS, opts={"max": width, "first": UPPER})])

    def v_free(self, fam, i, chars):
        """arbitrary text over the given characters, may be empty"""
        return Rope([Tok("free", self._code(fam, i), chars, nonempty=False)])

    def v_padded(self, text, n):
        """text filled with blanks to n characters"""
        if isinstance(text, str):
            return text.ljust(n)
        md = self.it.models
        most = 0
        for p in text.parts:
            most += len(p) if isinstance(p, str) else p.opts.get("max", n)
        return md.text([text, Tok("pad", sub(iconst(n), lift(md.rope_len(text))), " ", nonempty=most < n)])

    def v_text(self, *parts):
        return self.it.models.text(list(parts))

    def v_line_if(self, c, a, b):
        """line a if c holds, line b otherwise"""
        return ListVal([("c", self.bt(c), (("e", a),) if isinstance(a, (str, Rope)) else tuple(a.segs),
                         (("e", b),) if isinstance(b, (str, Rope)) else tuple(b.segs))])

    def _line_segs(self, parts):
        out = []
        for p in parts:
            if isinstance(p, (ListVal, tuple)):
                for s in (p.segs if isinstance(p, ListVal) else [("e", x) for x in p]):
                    out.extend(self._line_segs([s[1]]) if s[0] == "e" else [s])
            else:
                out.append(("e", p))
        return out

    def v_lines(self, n, fn):
        """n groups of lines fn(i), n arbitrary"""
        out = []
        for s in self._run(n, fn):
            if s[0] == "e":
                out += self._line_segs([s[1]])
            else:
                inner = self._line_segs([s[3]])
                if len(inner) == 1 and inner[0][0] == "e":
                    out.append(("r", s[1], s[2], inner[0][1]))
                else:
                    out.append(("b", s[1], s[2], tuple(inner)))
        return ListVal(out)

    def v_text_file(self, *parts):
        """a file with the given lines; the value is its name"""
        return TextFile(self._line_segs(parts))

    def v_mod(self, name):
        return self.it.load(name)

    def v_module_turn(self, name, z):
        """the module after its loop over numbers, seen for the arbitrary number z"""
        return self.it.load_turn(name, lift(z))

    def v_element_tables(self, z):
        """arbitrary symbol table and element table (any number of elements, distinct symbols, positive masses) -> (symbol, mass) of z"""
        it = self.it
        n = app("in:elements", sort="I")
        it.fact(le(iconst(119), n))
        x = fresh("x", "I")
        sym = lambda i: Rope([Tok("sym", Key("element", i), LETTERS, opts={"max": 2, "first": UPPER})])
        amu = lambda i: app("in:amu", i)
        m = it.load("ries.constituents.element")
        element = ObjVal(m.ns["Element"])
        element.attrs.update({"amu": amu(x), "Z": x, "X": sym(x)})
        m.ns["X"] = DictVal([("r", n, x, x, sym(x))])
        m.ns["natural_elements"] = DictVal([("r", n, x, sym(x), element)])
        it.fact(tall(iconst(0), n, lambda j: lt(rconst(0), amu(j))))
        return sym(lift(z)), amu(lift(z))

    def v_reader_tables(self, z):
        """assumed results of the two readers (their contracts are C13 and C14), as functions of the atomic number or symbol
        -> (symbol, number of isotopes, isotope key, masses, abundances, density) of z"""
        it = self.it
        m = it.load("ries.constituents.natural_element_data")
        iso = it.load("ries.constituents.isotope").ns["Isotope"]
        last = app("in:elements", sort="I")
        it.fact(le(iconst(119), last))
        sym = lambda i: Rope([Tok("sym", Key("element", i), LETTERS, opts={"max": 2, "first": UPPER})])
        count = lambda t: app("in:isotopes", t, sort="I")
        mass, share = (lambda t, i: app("in:mass", t, i)), (lambda t, i: app("in:share", t, i))
        key = lambda t, i: Key("isotope of " + show(t), i)
        listed = self._pick("listed", 2) == 0
        density = lambda t: app("in:density", t) if listed else None

        def data(a, k):
            t = lift(a[1])
            x = fresh("x", "I")
            it.fact(le(iconst(0), count(t)))
            o = ObjVal(iso)
            o.attrs.update({"AX": key(t, x), "amu": mass(t, x), "ground_state": None, "excited_states": ListVal([])})
            return (DictVal([("r", count(t), x, key(t, x), share(t, x))]), DictVal([("r", count(t), x, key(t, x), o)]))

        def look(a, k):
            s = it.models.lone_symbol(a[1])
            if s is None:
                raise Unsupported("density of an unknown symbol")
            return density(s.idx)
        x = fresh("x", "I")
        nist, geant = m.ns["NISTElementDataReader"], m.ns["Geant4DensityDataReader"]
        nist.ns["read_nist_element_symbols"] = Builtin("symbols", lambda a, k: DictVal([("r", last, x, x, sym(x))]))
        nist.ns["read_nist_element_data"] = Builtin("data", data)
        geant.ns["read_density_data"] = Builtin("density", look)
        z = lift(z)
        it.assumed.add("contracts of the two table readers (C13, C14)")
        arr = lambda f: ArrVal([count(z)], lambda i: f(z, i))
        return sym(z), count(z), Builtin("key", lambda a, k: key(z, lift(a[0]))), arr(mass), arr(share), density(z)

    def v_attenuation(self, z):
        """columns of the attenuation table of number z: any length, energies that do not fall, positive numbers"""
        it = self.it
        z = lift(z)
        n = app("in:rows", z, sort="I")
        it.fact(le(iconst(2), n))
        cols = []
        for name in ("energies", "totals", "absorbed"):
            f = lambda k, name=name: app("in:" + name, z, k)
            it.fact(tall(iconst(0), n, lambda k: lt(rconst(0), f(k))))
            cols.append(ArrVal([n], f))
        f = cols[0].snap()
        it.fact(tall(iconst(0), n, lambda a: tall(add(a, iconst(1)), n, lambda b: le(f(a), f(b)))))
        it.fact(lt(f(iconst(0)), f(iconst(1))))
        return (n,) + tuple(cols)

    def v_numbered_files(self, folder, ending, fn):
        """assumed: folder contains a file NN<ending> with the lines fn(NN) for every number"""
        root = self.it.roots["ries"]
        self.it.folders = [f for f in self.it.folders if f[0] != os.path.normpath(os.path.join(root, folder))]
        self.it.folders.append((os.path.normpath(os.path.join(root, folder)), ending, lambda t: self.it.call(fn, [t], {})))

    def v_const(self, name):
        return self.it.models.constant(name)[0]

    # ------------------------------------------------------------------ specification vocabulary
    def bt(self, c):
        if isinstance(c, bool):
            return TRUE if c else FALSE
        if isinstance(c, T) and c.sort == "B":
            return c
        if isinstance(c, ArrVal) and c.sort == "B":
            f = c.snap()
            if len(c.shape) != 1:
                raise Unsupported("contract: condition of rank %d" % len(c.shape))
            return tall(iconst(0), c.shape[0], f)
        raise Unsupported("contract: condition expected, got %r" % (c,))

    def v_require(self, c):
        t = self.bt(c)
        if not self.it.prover.feasible(self.it.pc, t):
            raise PathEnd()
        self.it.fact(t)

    def v_ensure(self, label, c):
        self.it.oblige("%s: %s" % (self.theorem, label), self.bt(c), "post")

    def v_lemma(self, label, c):
        """an intermediate obligation that later ones may use"""
        self.v_ensure(label, c)
        self.it.fact(self.bt(c))

    def v_induct(self, label, n, fn):
        """ghost: fn(n) by induction over its argument"""
        it = self.it
        n = lift(n)
        self.v_ensure(label + ": start", it.call(fn, [0], {}))
        k = fresh("k", "I")
        mark = list(it.pc)
        it.fact(le(iconst(0), k))
        it.fact(lt(k, n))
        it.fact(self.bt(it.call(fn, [k], {})))
        self.v_ensure(label + ": step", it.call(fn, [add(k, iconst(1))], {}))
        it.pc[:] = mark
        self.v_ensure(label + ": range", le(iconst(0), n))
        it.fact(self.bt(it.call(fn, [n], {})))

    def v_voigt(self, x, sigma, gamma):
        """convolution of the normal density (sigma) and the Lorentz density (half width gamma)"""
        from .extlib import resolve
        return resolve(self.it.models, "scipy.special", "voigt_profile").fn([x, sigma, gamma], {})

    def v_all(self, *cs):
        return land(*[self.bt(c) for c in cs])

    def v_any(self, *cs):
        return lor(*[self.bt(c) for c in cs])

    def v_implies(self, a, b):
        return implies(self.bt(a), self.bt(b))

    def v_iff(self, a, b):
        a, b = self.bt(a), self.bt(b)
        return land(implies(a, b), implies(b, a))

    def v_not_(self, a):
        return lnot(self.bt(a))

    def v_forall(self, n, fn):
        it = self.it

        def body(i):
            return self.bt(it.call(fn, [i], {}))
        n = lift(n)
        if is_const(n) and cval(n) <= 8:
            return land(*[body(int(i)) for i in range(int(cval(n)))])
        return self._binder(n, fn, tall, self.bt)

    def _binder(self, n, fn, binder, conv):
        it = self.it
        x = fresh("i", "I")
        if not it.prover.feasible(it.pc, lt(iconst(0), n)):
            return TRUE if binder is tall else rconst(0)

        def go():
            it.fact(le(iconst(0), x))
            it.fact(lt(x, n))
            return conv(it.call(fn, [x], {}))
        outs = it.explore(go)
        val = None
        for o in outs:
            if o.kind != "normal" or o.effects:
                raise Unsupported("contract: effect inside a quantifier: %s %s %s" % (o.kind, o.value, o.effects))
            it.obligations.extend(o.obligations)
            val = o.value if val is None else ite(land(*o.dec), o.value, val)
        if val is None:
            val = TRUE if binder is tall else rconst(0)
        return binder(iconst(0), n, lambda i: subst(val, {x: i}))

    def v_sum(self, n, fn):
        n = lift(n)
        if is_const(n) and cval(n) <= 8:
            acc = rconst(0)
            for i in range(int(cval(n))):
                acc = add(acc, to_real(self.it.models.num(self.it.call(fn, [i], {}))))
            return acc
        return self._binder(n, fn, tsum, lambda v: to_real(self.it.models.num(v)))

    def v_integral(self, fn, a, b):
        from .extlib import integral
        md = self.it.models
        return integral(md, fn, [(to_real(md.num(a)), to_real(md.num(b)))])

    def v_integrals(self, fn, *ranges):
        from .extlib import integral
        md = self.it.models
        rs = [tuple(to_real(md.num(x)) for x in self.it.unpack(r, 2)) for r in ranges]
        return integral(md, fn, rs)

    def v_quad_error(self, value):
        """error estimate the integration routine returns with this value"""
        return app("quaderr", value)

    def v_sum_over(self, lst, fn):
        """sum of fn(element) over a list of unbounded length"""
        return to_real(seg_sum(self.it.iterate(lst), lambda v: self.it.models.num(self.it.call(fn, [v], {}))))

    def v_len(self, x):
        return self.it.models.b_len([x], {})

    def v_map(self, x, fn):
        """scalar spec function applied to a scalar or to every element of an array"""
        return self.it.models.map_elementwise(lambda a: self.it.call(fn, a, {}), [x])

    def v_where(self, c, a, b):
        return ite(self.bt(c), lift(a), lift(b))

    def v_array_of(self, n, fn):
        """spec array: element i is fn(i)"""
        n = lift(n)
        it = self.it
        x = fresh("i", "I")
        saved = list(it.pc)
        it.fact(le(iconst(0), x))
        it.fact(lt(x, n))
        p0 = it.pos
        t = it.models.num(it.call(fn, [x], {}))
        if it.pos != p0:
            raise Unsupported("contract: choice inside an array template")
        it.pc = saved
        return ArrVal([n], lambda i: subst(t, {x: i}), t.sort)

    def v_is_array(self, x):
        return isinstance(x, ArrVal)

    def v_is_number(self, x):
        return isinstance(x, int) and not isinstance(x, bool) or isinstance(x, T) and x.sort in "IR"

    def v_equal(self, label, a, b, rtol=None, atol=None):
        g = self.eq_goal(a, b)
        self.it.oblige("%s: %s" % (self.theorem, label), g, "post")

    def eq_goal(self, a, b):
        md = self.it.models
        if isinstance(a, (tuple, ListVal)) or isinstance(b, (tuple, ListVal)):
            if isinstance(a, (int, T)) or isinstance(b, (int, T)):
                return FALSE
            a, b = md.as_array(a), md.as_array(b)
        if a is None or b is None or not (scalar(a) or isinstance(a, ArrVal)) or not (scalar(b) or isinstance(b, ArrVal)):
            if a is None and b is None:
                return TRUE
            if isinstance(a, str) and isinstance(b, str):
                return TRUE if a == b else FALSE
            if isinstance(a, (ObjVal, Opaque, DictVal)) or a is None or b is None:
                return FALSE
            raise Unsupported("contract: comparison of %r and %r" % (a, b))
        if scalar(a) and scalar(b):
            return eq(lift(a), lift(b))
        sa, fa = md.snapf(a)
        sb, fb = md.snapf(b)
        if len(sa) != len(sb):
            # a scalar against an array: equal elementwise after broadcasting
            if len(sa) > 0 and len(sb) > 0:
                return FALSE
        shape = sa or sb
        out = [eq(x, y) for x, y in zip(sa, sb)]

        def rec(d, idx):
            if d == len(shape):
                return eq(fa(*idx[:len(sa)]), fb(*idx[:len(sb)]))
            return tall(iconst(0), shape[d], lambda i: rec(d + 1, idx + [i]))
        return land(*out, rec(0, []))

    def v_same_shape(self, a, b):
        if isinstance(a, ArrVal) and isinstance(b, ArrVal):
            return len(a.shape) == len(b.shape) and self.it.models.back(land(*[eq(x, y) for x, y in zip(a.shape, b.shape)]))
        return isinstance(a, ArrVal) == isinstance(b, ArrVal)

    def v_observe(self, fn, *args):
        it = self.it
        before = it.warnings
        it.warnings = []
        it.root_failed = False
        raised, value = None, None
        try:
            value = it.call(fn, list(args), {})
        except PyRaise as e:
            raised = e.name
        ws = it.warnings
        it.warnings = before + ws
        user = [w for w in ws if w[0] not in ("RuntimeWarning",)]
        return Obs(value, raised, len(user) > 0, ListVal.of([w[1] for w in user]), it.root_failed)

    def v_root_finder_faults(self):
        """the root finder may fail in every way its contract allows (it always may, here)"""

    def v_numbers_in(self, message):
        """numbers formatted into a message"""
        if isinstance(message, Rope):
            return ListVal.of([p.value[0] if p.kind == "fmt" else p.value for p in message.parts
                               if isinstance(p, Tok) and p.kind in ("fmt", "int")])
        if isinstance(message, (int, float)) or hasattr(message, "sort") and message.sort in ("R", "I"):
            return ListVal.of([message])
        return ListVal([])

    def v_finite(self, x):
        return lnot(self.bt(self.v_isinf(x)))

    def v_isinf(self, x):
        return self.it.models.back(self.it.models.isinf(lift(x)))

    def v_increasing(self, a):
        """strictly increasing"""
        n = a.shape[0]
        f = a.snap()
        return tall(iconst(0), n, lambda i: tall(add(i, iconst(1)), n, lambda j: lt(f(i), f(j))))

    def v_nondecreasing(self, a):
        n = a.shape[0]
        f = a.snap()
        return tall(iconst(0), n, lambda i: tall(add(i, iconst(1)), n, lambda j: le(f(i), f(j))))

    def v_derivative(self, fn, x):
        """derivative of a ghost function at x"""
        from .deriv import derivative
        t = fresh("d")
        self.it.call(fn, [x], {})
        n = len(self.it.obligations)
        val = to_real(self.it.models.num(self.it.call(fn, [t], {})))
        del self.it.obligations[n:]     # definedness is asked at x itself
        return subst(derivative(val, t), {t: lift(x)})

    def v_nonneg_from(self, label, fn, a, t, order):
        """ghost: fn(t) >= 0 for t >= a because fn and its first derivatives are not negative at a and
        the derivative of the given order is not negative above a"""
        from .deriv import derivative
        it = self.it
        x = fresh("d")
        n = len(it.obligations)
        f = to_real(it.models.num(it.call(fn, [x], {})))
        del it.obligations[n:]
        a, t = to_real(lift(a)), to_real(lift(t))
        value = subst(f, {x: t})
        for k in range(order):
            self.v_ensure("%s: derivative %d at the start" % (label, k), le(rconst(0), subst(f, {x: a})))
            f = derivative(f, x)
        mark = list(it.pc)
        it.fact(le(a, x))
        self.v_ensure("%s: derivative %d" % (label, order), le(rconst(0), f))
        it.pc[:] = mark
        self.v_ensure("%s: range" % label, le(a, t))
        it.assumed.add("mean value theorem (ghost lemma)")
        it.fact(le(rconst(0), value))

    def v_integral_order(self, label, g, f, a, b, lemma=None):
        """ghost: the integral of g over [a, b] is not larger than the one of f because g <= f inside"""
        it = self.it
        a, b = to_real(lift(a)), to_real(lift(b))
        self.v_ensure(label + ": range", le(a, b))
        t = fresh("t")
        mark = list(it.pc)
        it.fact(lt(a, t))
        it.fact(lt(t, b))
        if lemma is not None:
            it.call(lemma, [t], {})
        num = lambda h: to_real(it.models.num(it.call(h, [t], {})))
        self.v_ensure(label + ": pointwise", le(num(g), num(f)))
        it.pc[:] = mark
        it.assumed.add("monotonicity of the integral (ghost lemma)")
        it.fact(le(self.v_integral(g, a, b), self.v_integral(f, a, b)))

    def v_pi(self):
        return PI

    def v_is_unique_union(self, grid, parts):
        """grid = sorted distinct values of the union of the arrays in parts (list, unbounded)"""
        if not isinstance(grid, ArrVal):
            return FALSE
        if grid.uniq_of is None:
            raise Unsupported("contract: grid not built by a known set operation")
        segs = self.it.models.chain_iter(self.it.iterate(parts)).segs
        return self._same_members(self._open_uniq(grid.uniq_of), self._open_uniq(segs))

    def _open_uniq(self, segs):
        """members of a nested sorted union are the members of its parts"""
        out = []
        for s in segs:
            if s[0] == "r" and isinstance(s[3], T) and s[3].op == "app" and s[3].args[0] in self.it.uniqs and s[3].args[-1] is s[2]:
                ctx, n, parts = self.it.uniqs[s[3].args[0]]
                m = dict(zip(ctx, s[3].args[1:-1]))
                if subst(n, m) is s[1]:
                    out.extend(self._open_uniq(vsubst(tuple(parts), m)))
                    continue
            if s[0] == "b":
                s = (s[0], s[1], s[2], tuple(self._open_uniq(s[3])))
            out.append(s)
        return out

    def _same_members(self, a, b):
        """every element of one occurs in the other: structural matching of segments"""
        def covered(s, t):
            if s[0] != t[0]:
                return None
            if s[0] == "e":
                return eq(lift(s[1]), lift(t[1])) if scalar(s[1]) and scalar(t[1]) else None
            if s[0] == "r":
                x = fresh("m", "I")
                u, w = vsubst(s[3], {s[2]: x}), vsubst(t[3], {t[2]: x})
                if not (scalar(u) and scalar(w)):
                    return None
                return land(eq(s[1], t[1]), tall(iconst(0), s[1], lambda i: subst(eq(to_real(lift(u)), to_real(lift(w))), {x: i})))
            if s[0] == "b":
                if len(s[3]) != len(t[3]):
                    return None
                x = fresh("m", "I")
                cs = [covered(p, q) for p, q in zip(vsubst(s[3], {s[2]: x}), vsubst(t[3], {t[2]: x}))]
                if any(c is None for c in cs):
                    return None
                return land(eq(s[1], t[1]), tall(iconst(0), s[1], lambda i: subst(land(*cs), {x: i})))
            return None
        out = []
        for p, q in ((a, b), (b, a)):
            for s in p:
                cs = [c for c in (covered(s, t) for t in q) if c is not None]
                if not cs:
                    raise Unsupported("contract: no structural match of grid parts")
                out.append(lor(*cs))
        return land(*out)

    def v_snapshot(self, obj):
        """frame condition: everything reachable from obj now, to be compared later"""
        return Snapshot(self.it, obj)

    def v_unchanged(self, snap):
        return snap.unchanged(self)

    def v_shares(self, a, b):
        """do a and b share a mutable container (list or dict) directly held?"""
        return bool(containers(a) & containers(b))

    def v_note(self, *a, **k):
        return None


def containers(o):
    out = set()
    if isinstance(o, ObjVal):
        for v in o.attrs.values():
            if isinstance(v, (ListVal, DictVal, ArrVal)):
                out.add(id(v))
    return out


class Snapshot:
    def __init__(self, it, obj):
        self.it = it
        self.items = []
        self.seen = set()
        self.walk(obj)

    def walk(self, v):
        if id(v) in self.seen:
            return
        if isinstance(v, tuple):
            for x in v:
                self.walk(x)
            return
        if isinstance(v, ObjVal):
            self.seen.add(id(v))
            self.items.append((v, dict(v.attrs)))
            for x in v.attrs.values():
                self.walk(x)
        elif isinstance(v, (ListVal, DictVal)):
            self.seen.add(id(v))
            self.items.append((v, list(v.segs)))
            for s in v.segs:
                for x in s[1:]:
                    self.walk(x)
        elif isinstance(v, ArrVal):
            self.seen.add(id(v))
            self.items.append((v, v.snap()))

    def unchanged(self, sv):
        out = []
        for v, old in self.items:
            if isinstance(v, ObjVal):
                if set(v.attrs) != set(old):
                    return FALSE
                for k in old:
                    out.append(self.same(sv, v.attrs[k], old[k]))
            elif isinstance(v, (ListVal, DictVal)):
                if len(v.segs) != len(old):
                    return FALSE
                for s, t in zip(v.segs, old):
                    if s[0] != t[0] or len(s) != len(t):
                        return FALSE
                    for a, b in zip(s[1:], t[1:]):
                        out.append(self.same(sv, a, b))
            else:
                f = v.snap()
                if f is old:
                    continue

                def rec(d, idx):
                    if d == len(v.shape):
                        return eq(f(*idx), old(*idx))
                    return tall(iconst(0), v.shape[d], lambda i: rec(d + 1, idx + [i]))
                out.append(rec(0, []))
        return land(*out)

    def same(self, sv, a, b):
        if a is b:
            return TRUE
        if scalar(a) and scalar(b):
            return eq(lift(a), lift(b))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return land(*[self.same(sv, x, y) for x, y in zip(a, b)])
        if same_value(a, b):
            return TRUE
        return FALSE
