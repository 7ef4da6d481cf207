"""Discharging obligations: exact normal forms first, then z3 (incl. nlsat) and cvc5."""
import os
import pickle
import select
import signal
import time
from fractions import Fraction
import z3
from .terms import *
from .terms import _mk, _binder
from .norm import Norm, padd, pscale, TooBig, unreal, ONE, size_over

z3.set_param("memory_max_size", 6000)


class Result:
    def __init__(self, status, backend="", info="", model=None):
        self.status, self.backend, self.info, self.model = status, backend, info, model

    def __repr__(self):
        return "Result(%s,%s,%s)" % (self.status, self.backend, self.info[:80])

    @property
    def ok(self):
        return self.status == "proved"


# axiom schemas: name -> fn(list of applications) -> list of boolean terms (ground instances)
SCHEMAS = {}


def schema(*names):
    def deco(f):
        for n in names:
            SCHEMAS.setdefault(n, []).append(f)
        return f
    return deco


def _zero():
    return rconst(0)


def bracket(a, c, n):
    """rational bounds of the n-th root of a constant (no large algebraic numbers for the solvers)"""
    r = Fraction(float(c) ** (1.0 / n))
    lo, hi = r * Fraction(999999, 1000000), r * Fraction(1000001, 1000000)
    lo, hi = lo.limit_denominator(10 ** 8), hi.limit_denominator(10 ** 8)
    if lo > 0 and lo ** n < c < hi ** n:
        return land(lt(rconst(lo), a), lt(a, rconst(hi)))
    return lt(_zero(), a)


@schema("sqrt")
def _ax_sqrt(apps):
    for a in apps:
        u = a.args[1]
        if u.op == "c" and u.args[0] > 20:
            yield bracket(a, u.args[0], 2)
            continue
        yield implies(le(_zero(), u), land(le(_zero(), a), eq(mul(a, a), u)))
        yield implies(lt(_zero(), u), lt(_zero(), a))


@schema("root")
def _ax_root(apps):
    for a in apps:
        u, n = a.args[1], int(a.args[2].args[0])
        if u.op == "c" and u.args[0] > 20:
            yield bracket(a, u.args[0], n)
            continue
        yield implies(le(_zero(), u), land(le(_zero(), a), eq(powi(a, n), u)))
        yield implies(lt(_zero(), u), lt(_zero(), a))


@schema("exp")
def _ax_exp(apps):
    for a in apps:
        u = a.args[1]
        yield lt(_zero(), a)
        yield le(add(u, rconst(1)), a)
        yield implies(lt(u, rconst(0)), lt(a, rconst(1)))
    for i, a in enumerate(apps):
        for b in apps[i + 1:]:
            yield implies(lt(a.args[1], b.args[1]), lt(a, b))
            yield implies(lt(b.args[1], a.args[1]), lt(b, a))


@schema("log")
def _ax_log(apps):
    for a in apps:
        u = a.args[1]
        if u.op == "c" and u.args[0] == 2:
            yield land(lt(rconst("0.693147"), a), lt(a, rconst("0.693148")))
        yield implies(lt(_zero(), u), le(a, sub(u, rconst(1))))
        yield implies(lt(rconst(1), u), lt(_zero(), a))
        yield implies(land(lt(_zero(), u), lt(u, rconst(1))), lt(a, _zero()))
    for i, a in enumerate(apps):
        for b in apps[i + 1:]:
            u, w = a.args[1], b.args[1]
            yield implies(land(lt(_zero(), u), lt(u, w)), lt(a, b))
            yield implies(land(lt(_zero(), w), lt(w, u)), lt(b, a))


@schema("cos", "sin")
def _ax_trig(apps):
    for a in apps:
        yield land(le(rconst(-1), a), le(a, rconst(1)))
        if a.args[0] == "sin":
            c = app("cos", a.args[1])
            yield eq(add(mul(a, a), mul(c, c)), rconst(1))
            yield implies(land(le(_zero(), a.args[1]), le(a.args[1], PI)), le(_zero(), a))
            yield implies(land(lt(_zero(), a.args[1]), lt(a.args[1], PI)), lt(_zero(), a))
        else:
            # |cos x| = 1 only at multiples of pi (used on [0, pi])
            yield implies(land(lt(_zero(), a.args[1]), lt(a.args[1], PI)), land(lt(rconst(-1), a), lt(a, rconst(1))))
    cs = [a for a in apps if a.args[0] == "cos"]
    for i, a in enumerate(cs):
        for b in cs[i + 1:]:
            u, w = a.args[1], b.args[1]
            inr = land(le(_zero(), u), le(u, PI), le(_zero(), w), le(w, PI))
            yield implies(land(inr, lt(u, w)), lt(b, a))
            yield implies(land(inr, lt(w, u)), lt(a, b))


@schema("arccos")
def _ax_arccos(apps):
    for a in apps:
        u = a.args[1]
        inr = land(le(rconst(-1), u), le(u, rconst(1)))
        yield implies(inr, land(le(_zero(), a), le(a, PI), eq(app("cos", a), u)))
        if u.op == "app" and u.args[0] == "cos":
            w = u.args[1]
            yield implies(land(le(_zero(), w), le(w, PI)), eq(a, w))


@schema("pi")
def _ax_pi(apps):
    for a in apps:
        yield land(lt(rconst("3.14159265"), a), lt(a, rconst("3.14159266")))


@schema("count")
def _ax_count(apps):
    for a in apps:
        yield eq(a, to_real(tmax(a.args[1], iconst(0))))


class Stats:
    def __init__(self):
        self.solver_time = 0.0
        self.queries = 0
        self.backends = {}


class Prover:
    """Facts = path condition and input constraints; quantified facts are (guarded) ALL terms."""

    def __init__(self, stats=None, timeout=4000):
        self.stats = stats or Stats()
        self.timeout = timeout
        self.light = 0
        self._mono = {}
        self._sat_cache = {}
        self._pos_cache = {}

    # ------------------------------------------------------------ norm per fact set
    def normer(self, facts):
        key = frozenset(facts)
        n = self._pos_cache.get(key)
        if n is None:
            lits = set()
            for f in facts:
                for g in (f.args if f.op == "and" else (f,)):
                    if g.op == "<" and g.args[0].op == "c" and g.args[0].args[0] >= 0:
                        lits.add(unreal_to_real(g.args[1]))
                    if g.op == "<=" and g.args[0].op == "c" and g.args[0].args[0] > 0:
                        lits.add(unreal_to_real(g.args[1]))
            cache = {}
            small = [f for f in facts if not size_over(f, 100)]

            def is_pos(t):
                t = unreal_to_real(t)
                if t in lits:
                    return True
                if t in cache:
                    return cache[t]
                cache[t] = False
                if t.op == "v" and not any(t in free_vars(f) or unreal(t) in free_vars(f) for f in facts):
                    return False
                vs = {s for s in subterms(t) if s.op == "v" or s.op == "app" and s.args[0].startswith("in:")}
                cache[t] = self.entails_quick([f for f in small if any(s in vs for s in subterms(f))], lt(rconst(0), t))
                return cache[t]

            n = Norm(is_pos)
            self._pos_cache[key] = n
            if len(self._pos_cache) > 400:
                self._pos_cache.clear()
        return n

    # ------------------------------------------------------------ public
    def feasible(self, facts, cond):
        """may facts & cond hold?  (unknown counts as feasible)"""
        if cond.op == "false" or cond.op != "true" and lnot(cond) in facts:
            return False
        key = (frozenset(facts), cond)
        if key in self._sat_cache:
            return self._sat_cache[key]
        if cond.op != "true" and self._integral(cond):
            # decided by the facts on integers
            r = self._sat_cache[key] = self._z3([*[f for f in facts if self._integral(f)], cond], 1500)[0] != "unsat"
            return r
        short = self.abbreviate(facts, cond)
        given, form = (facts, cond) if short is None else short
        n = self.normer(given)
        c = n.canon_bool(form)
        if c.op == "false":
            r = False
        elif short is not None:
            r = self._z3([*[f for f in given if not size_over(f, 150)], c], 700)[0] != "unsat"
        else:
            r = self._z3([*[f for f in facts if not size_over(f, 150)], c], 1500)[0] != "unsat"
        self._sat_cache[key] = r
        return r

    @staticmethod
    def _integral(t):
        """comparisons of integer inputs and variables"""
        if t.op in ("and", "or", "not", "iff"):
            return all(Prover._integral(a) for a in t.args)
        return t.op in ("<", "<=", "=") and all(s.op in ("v", "c") and s.sort == "I" or s.op in ("+", "*") or s.op == "app" and s.sort == "I" and len(s.args) == 1
                                                for a in t.args for s in subterms(a))

    def entails_quick(self, facts, goal):
        if goal in facts:
            return True
        return self._z3([*facts, lnot(goal)], 400)[0] == "unsat"

    def prove(self, facts, goal, depth=0):
        facts, goal = list(facts), goal
        while True:
            if goal.op == "ALL" and goal in facts:
                break
            if goal.op == "ALL":
                x = fresh("i", "I")
                lo, hi = goal.args[0], goal.args[1]
                facts += [le(lo, x), lt(x, hi)]
                goal = inst(goal, x)
                continue
            if goal.op == "not" and goal.args[0].op == "or":
                goal = land(*[lnot(a) for a in goal.args[0].args])
                continue
            if goal.op == "or":
                # assume the negation of all arms but the last equational one
                arms = list(goal.args)
                pick = next((a for a in arms if a.op in ("=", "ALL", "and", "iff")), arms[-1])
                rest = [a for a in arms if a is not pick]
                facts += [self.negate(a) for a in rest]
                goal = pick
                continue
            break
        if goal.op == "true":
            return Result("proved", "trivial")
        if goal in facts:
            return Result("proved", "assumption")
        if goal.op == "and":
            back = []
            for g in goal.args:
                r = self.prove(facts, g, depth)
                if not r.ok:
                    return r
                back.append(r.backend)
            return Result("proved", max(back, key=len) if back else "trivial")
        if depth == 0:
            goal = self.narrow(facts, goal)
            short = self.abbreviate(facts, goal)
            if short is not None:
                r = self.prove(*short, 1)
                if r.ok:
                    return r
        if goal.op == "=" and goal.args[0].sort != "B":
            return self.prove_eq(facts, goal.args[0], goal.args[1], depth)
        if goal.op == "iff":
            a, b = goal.args
            r = self.prove(facts + [a], b, depth + 1)
            if not r.ok:
                return r
            return self.prove(facts + [self.negate(a)], lnot(b), depth + 1)
        if goal.op in ("<", "<="):
            r = self.prove_ineq(facts, goal, depth)
            if r.ok:
                return r
            return r
        return self.finish(facts, goal)

    def abbreviate(self, facts, goal):
        """the goal with the roots of expressions of the inputs replaced by arbitrary numbers of the same sign
        (for goals about distribution functions, whose arguments would be torn apart by the normal form)"""
        if not any(s.op == "app" and (s.args[0] in DISTRIBUTIONS or s.args[0].startswith("wit:roots")) for s in subterms(goal)):
            return None
        n = self.normer(facts)
        seen = set()
        for t in (*facts, goal):
            subterms(t, seen)
        plain = {}

        def inputs_only(t):
            r = plain.get(t)
            if r is None:
                if t.op == "app":
                    r = t.args[0] in ("sqrt", "root", "log", "exp", "pi") or t.args[0].startswith("in:") and len(t.args) == 1
                else:
                    r = t.op in ("+", "*", "/", "^", "c", "real")
                r = r and all(inputs_only(a) for a in t.args if type(a) is T)
                plain[t] = r
            return r

        rep, names, more = {}, {}, []
        for t in seen:
            if t.op == "app" and t.args[0] in ("sqrt", "root") and inputs_only(t) and any(s.op == "app" and s.args[0].startswith("in:") for s in subterms(t)):
                try:
                    c = n.canon(t)
                except (TooBig, ZeroDivisionError):
                    c = t
                x = names.get(c)
                if x is None:
                    x = names[c] = app("in:~%d" % len(names))
                    more.append((lt if n.pos(t) else le)(_zero(), x))
                rep[t] = x
        if not rep:
            return None
        return [f for f in [replace(f, rep) for f in facts] if f.op != "true"] + more, replace(goal, rep)

    def attempt(self, facts, goal, depth):
        """a proof with short solver calls only"""
        self.light += 1
        try:
            return self.prove(facts, goal, depth + 1)
        finally:
            self.light -= 1

    def order_rule(self, facts, goal, depth):
        """orders of minima and maxima from orders of their arguments"""
        a, b = goal.args
        if depth > 14 or not any(x.op in ("min", "max") for x in goal.args):
            return None
        rel = lt if goal.op == "<" else le
        if b.op == "min" or a.op == "max":
            parts = [(a, x) for x in b.args] if b.op == "min" else [(x, b) for x in a.args]
            for x, y in parts:
                r = self.prove(facts, rel(x, y), depth + 1)
                if not r.ok:
                    return None
            return r
        parts = [(x, b) for x in a.args] if a.op == "min" else [(a, x) for x in b.args]
        goals = [rel(x, y) for x, y in parts]
        for g in goals:
            if g.op == "true" or g in facts:
                return self._count("sign")
        heads = lambda t: {s.args[0] if s.op == "app" else s.op for s in subterms(t) if s.op in ("app", "min", "max")}
        for g in sorted(goals, key=lambda g: len(heads(g.args[0]) ^ heads(g.args[1]))):
            r = self.attempt(facts, g, depth)
            if r.ok:
                return r
        return None

    def settle(self, facts, t, depth):
        """t with the minima and maxima replaced by the argument that is provably the smaller or larger one"""
        rep = {}
        for s in sorted((s for s in subterms(t) if s.op in ("min", "max")), key=lambda s: s.height):
            u = replace(s, rep)
            if u.op in ("min", "max"):
                x, y = u.args
                if any(self._mentions_root(z) for z in (x, y)):
                    for small, large in ((x, y), (y, x)) if u.op == "max" else ((y, x), (x, y)):
                        if self.attempt(facts, le(small, large), depth).ok:
                            rep[s] = small if u.op == "min" else large
                            break
        return replace(t, rep) if rep else None

    @staticmethod
    def _mentions_root(t):
        return any(s.op == "app" and (s.args[0].startswith("wit:") or s.args[0].endswith("_ppf")) for s in subterms(t))

    def root_order(self, facts, goal, depth):
        """order of a root w of an increasing function h and x: w <= x if 0 <= h(x), x <= w if h(x) <= 0"""
        a, b = goal.args
        if depth > 10:
            return None
        n = self.normer(facts)
        for side, w, x in ((0, a, b), (1, b, a)):
            if w.op != "app" or not w.args[0].startswith("wit:"):
                continue
            for f in self.equations(facts, w):
                h = sub(f.args[0], f.args[1])
                name = app("in:~root")
                body = replace(h, {w: name})
                if any(s is w for s in subterms(body)) or not self.increasing(facts, body, name, n):
                    continue
                y = replace(body, {name: x})
                g = le(_zero(), y) if side == 0 else le(y, _zero())
                if goal.op == "<":
                    g = lt(*g.args)
                if x.op == "app" and x.args[0].startswith("wit:"):
                    # the function has the same shape at the other root, where its value is known
                    for f2 in self.equations(facts, x):
                        g2 = sub(y, sub(f2.args[0], f2.args[1]))
                        g3 = (lt if goal.op == "<" else le)(_zero(), g2) if side == 0 else (lt if goal.op == "<" else le)(g2, _zero())
                        r = self.prove(facts, g3, depth + 1)
                        if r.ok:
                            return r
                r = self.prove(facts, g, depth + 1)
                if r.ok:
                    return r
        return None

    def equations(self, facts, w):
        """equations that hold for the witness w (also as instances of quantified facts)"""
        out = []
        known = set(facts)

        def units(f):
            if f.op == "or":
                rest = [g for g in f.args if not (g.op == "not" and g.args[0] in known) and lnot(g) not in known]
                if len(rest) == 1:
                    f = rest[0]
            return f.args if f.op == "and" else (f,)

        forms = []
        for f in facts:
            if f.op == "ALL" and len(w.args) == 2 and any(s.op == "app" and s.args[0].startswith("wit:") for s in subterms(f)):
                i = w.args[1]
                lo, hi = f.args[0], f.args[1]
                if not self.entails_quick([g for g in facts if self._integral(g)], land(le(lo, i), lt(i, hi))):
                    continue
                f = inst(f, i)
            forms.append(f)
            known.update(f.args if f.op == "and" else (f,))
        for f in forms:
            for g in units(f):
                for e in units(g):
                    if e.op == "=" and e.args[0].sort != "B" and any(s is w for s in subterms(e)):
                        out.append(e)
        return out

    def increasing(self, facts, body, name, n):
        x, y = app("in:~x"), app("in:~y")
        known = [f for f in facts if f.op in ("<", "<=", "and") and not any(s.op == "app" and s.args[0].startswith("wit:") for s in subterms(f))]
        key = (frozenset(known), body)
        r = self._mono.get(key)
        if r is None:
            g = lt(_zero(), sub(replace(body, {name: y}), replace(body, {name: x})))
            known = known + [lt(x, y)]
            r = self.generalise(known, g, self.normer(known), 0)
            r = self._mono[key] = r is not None and r.ok
        return r

    @staticmethod
    def negate(a):
        return lnot(a)

    def _count(self, backend):
        self.stats.backends[backend] = self.stats.backends.get(backend, 0) + 1
        return Result("proved", backend)

    # ------------------------------------------------------------ equalities
    def prove_eq(self, facts, a, b, depth=0):
        n = self.normer(facts)
        c = self.find_cond(eq(a, b))
        if c is not None and c.op in ("<", "<=") and self._mentions_root(c):
            t = self.settle(facts, eq(a, b), depth)
            if t is not None:
                return self.prove(facts, t, depth + 1)
        try:
            p = padd(n.norm(a), n.norm(b), -1)
            if not p:
                return self._count("normal-form")
            q = n.clear(p)
            if not q:
                return self._count("normal-form")
        except (TooBig, ZeroDivisionError):
            return self.finish(facts, eq(a, b))
        d = n.to_term(q)
        roots = {s for s in subterms(d) if s.op == "app" and s.args[0].startswith("wit:roots")}
        if self.by_fact(facts + [f for w in roots for f in self.equations(facts, w)], p, n):
            return self._count("equation")
        r = self.split_case(facts, eq(d, rconst(0)), depth)
        if r is not None:
            return r
        r = self.sum_rule(facts, q, n, depth)
        if r is not None and r.ok:
            return r
        if self._z3([*facts, lnot(eq(d, rconst(0)))], 700)[0] == "unsat":
            return self._count("z3")
        r = self.index_cases(facts, eq(d, rconst(0)), depth)
        if r is not None:
            return r
        q2 = self.merge_apps(facts, q, n, depth)
        if q2 is not None:
            r = self.prove_eq(facts, q2, rconst(0), depth + 1)
            if r.ok:
                return r
        return self.finish(facts, eq(d, rconst(0)), orig=eq(a, b))

    def by_fact(self, facts, p, n):
        """the equation is a multiple of a known one"""
        if not any(a.op == "app" and a.args[0].startswith("wit:") for m in p for x, e in m for a in subterms(x)):
            return False
        idx = set()
        for m in p:
            for x, e in m:
                for s in subterms(x):
                    if s.op == "app":
                        idx |= {a for a in s.args[1:] if type(a) is T and a.sort == "I" and not any(v.args[0].startswith("#") for v in free_vars(a))}
        known = self.ground(facts, sorted(idx, key=show)[:6])
        for f in known:
            arms = f.args if f.op == "or" else (f,)
            for e in arms:
                if e.op != "=" or e.args[0].sort == "B":
                    continue
                try:
                    k = padd(n.norm(e.args[0]), n.norm(e.args[1]), -1)
                except (TooBig, ZeroDivisionError):
                    continue
                try:
                    if not any(m in p2 and not padd(p2, k2, -p2[m] / k2[m]) for p2, k2 in ((p, k), (n.clear(p), n.clear(k))) for m in list(k2)[:1]):
                        continue
                except (TooBig, ZeroDivisionError):
                    continue
                if all(a is e or lnot(a) in known or self.entails_quick([g for g in known if not size_over(g, 40)], lnot(a)) for a in arms):
                    return True
        return False

    def split_case(self, facts, goal, depth):
        """case split on a conditional occurring in the goal (not under a binder)"""
        c = self.find_cond(goal)
        if c is None or depth > 24:
            return None
        res = None
        known = None
        if c.op in ("<", "<=") and any(x.op in ("SUM", "INT") for x in subterms(c)):
            # signs of sums follow from the signs of their terms, which the solver does not see
            if self.sign_of_sum(facts, c, depth):
                known = c
            elif c.op == "<=" and not any(x.op == "ite" and x.args[0] in (c, lnot(c)) for x in subterms(goal)) and self.sign_of_sum(facts, le(c.args[1], c.args[0]), depth):
                # only min, max and abs depend on c: both arms agree when the two sides are equal
                known = le(c.args[1], c.args[0])
        for lit in (c, lnot(c)) if known is None else (known,):
            f2 = facts + [lit]
            if known is None and not self.feasible(facts, lit):
                continue
            g2 = self.decide(goal, c, lit is c)
            r = self.prove(f2, g2, depth + 1)
            if not r.ok:
                return r
            res = r
        return res or self._count("infeasible")

    def sign_of_sum(self, facts, goal, depth):
        """a (weak or strict) inequality between sums over the same range, term by term"""
        if goal.op not in ("<", "<=") or depth > 8:
            return False
        n = self.normer(facts)
        try:
            p = padd(n.norm(goal.args[1]), n.norm(goal.args[0]), -1)
        except (TooBig, ZeroDivisionError):
            return False
        if goal.op == "<":
            return False
        return self.pointwise(facts, p, n, depth + 1)

    def pointwise(self, facts, p, n, depth):
        """0 <= p for a linear combination of sums (or integrals) over one range"""
        sums = {}
        for m, cf in p.items():
            ss = [(x, e) for x, e in m if x.op in ("SUM", "INT")]
            if len(ss) != 1 or ss[0][1] != 1:
                return False
            x = ss[0][0]
            om = tuple((y, e) for y, e in m if y is not x)
            sums.setdefault((x.op, x.args[0], x.args[1]), []).append((x, {om: cf}))
        if len(sums) != 1:
            return False
        (op, lo, hi), items = next(iter(sums.items()))
        x = fresh("i", "I" if op == "SUM" else "R")
        body = rconst(0)
        for at, cf in items:
            body = add(body, mul(n.to_term(cf), inst(at, x)))
        if op == "INT" and not self.prove(facts, le(lo, hi), depth + 1).ok:
            return False
        return self.prove(facts + [le(lo, x), lt(x, hi)], le(rconst(0), body), depth + 1).ok

    def narrow(self, facts, t):
        """decide the conditions inside sums that hold over their whole range"""
        memo = {}

        def go(x):
            if x in memo:
                return memo[x]
            r = x
            if x.op == "SUM" and any(y.op == "ite" for y in subterms(x.args[2])):
                i = fresh("i", "I")
                body = inst(x, i)
                rng = facts + [le(x.args[0], i), lt(i, x.args[1])]
                for _ in range(12):
                    c = next((y.args[0] for y in subterms(body) if y.op == "ite" and not any(z.op == "ite" for z in subterms(y.args[0]))
                              and (self.entails_quick(rng, y.args[0]) or self.entails_quick(rng, lnot(y.args[0])))), None)
                    if c is None:
                        break
                    body = self.decide(body, c, self.entails_quick(rng, c))
                body = go(body)
                r = tsum(x.args[0], x.args[1], lambda k: subst(body, {i: k}))
            elif x.op not in ("v", "c", "ALL", "INT") and x.args and any(y.op == "SUM" for y in subterms(x)):
                r = rebuild(x, [go(y) if type(y) is T else y for y in x.args])
            memo[x] = r
            return r

        return go(t)

    def find_cond(self, t, under=False):
        best = None
        stack = [t]
        seen = set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "ite":
                inner = self.find_cond(x.args[0])
                c = inner if inner is not None else x.args[0]
                if c.op in ("and", "or"):
                    c = c.args[0]
                if c.op == "not":
                    c = c.args[0]
                return c
            if x.op in ("min", "max"):
                return le(x.args[0], x.args[1])
            if x.op == "abs":
                return le(_zero(), x.args[0])
            if x.op in ("SUM", "ALL", "INT"):
                stack.extend(x.args[:2])
                continue
            stack.extend(y for y in x.args if type(y) is T)
        return best

    def decide(self, t, c, val):
        """replace the condition c by its truth value"""
        memo = {}

        def go(x):
            if x in memo:
                return memo[x]
            if x is c:
                r = TRUE if val else FALSE
            elif x.op == "not" and x.args[0] is c:
                r = FALSE if val else TRUE
            elif x is lnot(c):
                r = FALSE if val else TRUE
            elif x.op in ("min", "max") and le(x.args[0], x.args[1]) is c:
                first = val if x.op == "min" else not val
                r = go(x.args[0] if first else x.args[1])
            elif x.op == "abs" and le(_zero(), x.args[0]) is c:
                r = go(x.args[0]) if val else neg(go(x.args[0]))
            elif not x.args or x.op in ("v", "c"):
                r = x
            else:
                args = [go(y) if type(y) is T else y for y in x.args]
                r = rebuild(x, args)
            memo[x] = r
            return r

        return go(t)

    def sum_rule(self, facts, p, n, depth):
        """sum_k c_k * SUM(body_k) over equal ranges: pointwise"""
        sums = {}
        rest = {}
        for m, c in p.items():
            ss = [(a, e) for a, e in m if a.op == "SUM"]
            if not ss:
                rest = padd(rest, {m: c})
            elif len(ss) == 1 and ss[0][1] == 1:
                a = ss[0][0]
                om = tuple((x, e) for x, e in m if x is not a)
                sums.setdefault(a.args[1], []).append((a, {om: c}))
            else:
                return None
        if not sums:
            return None
        # merge provably equal ranges and peel constant differences
        his = list(sums)
        groups = []
        for h in his:
            placed = False
            for g in groups:
                diff = n.norm(sub(h, g[0]))
                if not diff:
                    g[1].extend(sums[h])
                    placed = True
                    break
                if len(diff) == 1 and () in diff and abs(diff[()]) <= 4:
                    k = int(diff[()])
                    if k > 0 and self.entails_quick(facts, le(iconst(0), g[0])):
                        for a, coef in sums[h]:
                            short = self._resum(a, g[0])
                            for j in range(k):
                                rest = padd(rest, n.pmul(coef, n.norm(inst(a, add(g[0], iconst(j))))))
                            g[1].append((short, coef))
                        placed = True
                        break
                    if k < 0 and self.entails_quick(facts, le(iconst(0), h)):
                        newg = []
                        for a, coef in g[1]:
                            short = self._resum(a, h)
                            for j in range(-k):
                                rest = padd(rest, n.pmul(coef, n.norm(inst(a, add(h, iconst(j))))))
                            newg.append((short, coef))
                        g[0] = h
                        g[1] = newg + sums[h]
                        placed = True
                        break
                if self.entails_quick(facts, eq(h, g[0])):
                    g[1].extend(sums[h])
                    placed = True
                    break
            if not placed:
                groups.append([h, list(sums[h])])
        for h, items in groups:
            x = fresh("i", "I")
            body = rconst(0)
            if len(items) > 1 and self.entails_quick(facts, le(iconst(0), h)):
                for j, (a, coef) in enumerate(items):
                    a, extra = self.unshift(a, h)
                    items[j] = (a, coef)
                    rest = padd(rest, n.pmul(coef, n.norm(extra)))
            for a, coef in items:
                body = add(body, mul(n.to_term(coef), inst(a, x)))
            r = self.prove(facts + [le(iconst(0), x), lt(x, h)], eq(body, rconst(0)), depth + 1)
            if not r.ok:
                return r
        if rest:
            return self.prove_eq(facts, n.to_term(rest), rconst(0), depth + 1)
        return self._count("sum-pointwise")

    @staticmethod
    def _resum(a, hi):
        return _mk("SUM", (a.args[0], hi, a.args[2]), a.sort)

    @staticmethod
    def unshift(a, h):
        """SUM_{i<h} b(i+k) = SUM_{i<h} b(i) + b(h) + .. + b(h+k-1) - b(0) - .. - b(k-1) for h >= 0"""
        i = fresh("i", "I")
        body = inst(a, i)
        offs = set()
        for s in subterms(body):
            if s.op == "app":
                for y in s.args[1:]:
                    if type(y) is T and i in free_vars(y) and not any(z.op == "app" for z in subterms(y)):
                        d = Norm(None).norm(sub(y, i)) if y.sort == "I" else None
                        if d is None or any(m for m in d):
                            return a, rconst(0)
                        offs.add(int(d.get((), 0)))
        k = min(offs) if offs else 0
        if not 0 < k <= 4:
            return a, rconst(0)
        new = tsum(a.args[0], h, lambda j: subst(body, {i: sub(j, iconst(k))}))
        extra = rconst(0)
        for j in range(k):
            extra = add(extra, sub(subst(body, {i: add(h, iconst(j - k))}), subst(body, {i: iconst(j - k)})))
        return new, extra

    @staticmethod
    def ground(facts, idx):
        """quantified facts at the given indices only"""
        out, todo = [], [(f, 0) for f in facts]
        while todo:
            f, level = todo.pop(0)
            if f.op == "and":
                todo.extend((g, level) for g in f.args)
            elif f.op == "ALL":
                if level < 2:
                    todo.extend((implies(land(le(f.args[0], i), lt(i, f.args[1])), inst(f, i)), level + 1) for i in idx)
            elif f.op == "or" and any(a.op == "ALL" for a in f.args):
                q = next(a for a in f.args if a.op == "ALL")
                rest = lor(*[a for a in f.args if a is not q])
                if level < 2:
                    todo.extend((lor(rest, lnot(land(le(q.args[0], i), lt(i, q.args[1]))), inst(q, i)), level + 1) for i in idx)
            elif f.op != "true" and f not in out:
                out.append(f)
        return out

    def index_cases(self, facts, goal, depth):
        """a position known only through facts (the interval found by a search) is another index of the goal,
        or its neighbour: one case for each possibility"""
        if depth > 10:
            return None
        wits = sorted({s for s in subterms(goal) if s.op == "app" and s.sort == "I" and s.args[0].startswith("wit:") and not any(v.args[0].startswith("#") for v in free_vars(s))}, key=show)
        if not wits:
            return None
        idx = {}
        for s in subterms(goal):
            if s.op == "app":
                for a in s.args[1:]:
                    if type(a) is T and a.sort == "I" and not any(v.args[0].startswith("#") for v in free_vars(a)):
                        idx[a] = idx.get(a, 0) + 1
        # facts about the arrays that determine the positions, at the indices that occur
        arrays = lambda f: {s.args[0] for s in subterms(f) if s.op == "app" and len(s.args) > 1 and s.args[0].startswith("in:")}
        names = {w.args[0] for w in wits}
        known = set()
        for f in facts:
            if any(s.op == "app" and s.args[0] in names for s in subterms(f)):
                known |= arrays(f)
        few = [f for f in facts if arrays(f) <= known]
        n = self.normer([])
        near = {}
        for group in ([goal], [f for f in few if f.op in ("<", "<=", "=")]):
            for f in group:
                for s in subterms(f):
                    if s.op == "app" and s.args[0] in known:
                        for a in s.args[1:]:
                            if type(a) is T and a.sort == "I" and not any(v.args[0].startswith("#") for v in free_vars(a)):
                                near.setdefault(n.canon(a), a)
        for u in idx:
            near.setdefault(n.canon(u), u)
        ground = self.ground(few, list(near.values())[:8])
        for w in wits:
            for u in sorted(idx, key=show):
                if any(s is w for s in subterms(u)):
                    continue
                cases = [eq(w, add(u, iconst(k))) for k in (0, -1, 1)]
                if self._z3([*ground, *[lnot(c) for c in cases]], 3000)[0] != "unsat":
                    continue
                res = None
                for k, c in zip((0, -1, 1), cases):
                    if self._z3([*ground, c], 1500)[0] == "unsat":
                        continue
                    rep = {w: add(u, iconst(k))}
                    f2 = [replace(f, rep) for f in facts]
                    r = self.prove([f for f in f2 if f.op != "true"], replace(goal, rep), depth + 1)
                    if not r.ok:
                        return r
                    res = r
                return res or self._count("infeasible")
        return None

    def merge_apps(self, facts, p, n, depth):
        """replace f(s) by f(t) when s = t is provable"""
        if depth > 3:
            return None
        apps = {}
        for m in p:
            for a, e in m:
                if a.op == "app" and len(a.args) > 1:
                    apps.setdefault((a.args[0], len(a.args)), set()).add(a)
                if a.op == "INT":
                    apps.setdefault(("INT", 0), set()).add(a)
        rep = {}
        for key, s in apps.items():
            s = sorted(s, key=lambda t: t.id)
            for i, a in enumerate(s):
                if a in rep:
                    continue
                for b in s[i + 1:]:
                    if b in rep:
                        continue
                    if key[0] == "INT":
                        x = fresh("t", "R")
                        goals = [eq(a.args[0], b.args[0]), eq(a.args[1], b.args[1]), eq(inst(a, x), inst(b, x))]
                        f2 = facts + [le(a.args[0], x), le(x, a.args[1])]
                    else:
                        goals = [eq(u, w) for u, w in zip(a.args[1:], b.args[1:]) if type(u) is T]
                        f2 = facts
                    if all(self.equal_quick(f2, g) for g in goals):
                        rep[b] = a
        if not rep:
            return None
        out = {}
        for m, c in p.items():
            d = {}
            for a, e in m:
                a = rep.get(a, a)
                d[a] = d.get(a, 0) + e
            out = padd(out, n._wrap(n.mono(d)), c)
        return n.to_term(out)

    def equal_quick(self, facts, g):
        if g.op == "true":
            return True
        if g.op != "=":
            return False
        n = self.normer(facts)
        try:
            p = padd(n.norm(g.args[0]), n.norm(g.args[1]), -1)
            if not p or not n.clear(p):
                return True
        except (TooBig, ZeroDivisionError):
            pass
        if len(p) == 1 and () in p:
            return False
        return self.entails_quick(facts, g)

    # ------------------------------------------------------------ inequalities
    def prove_ineq(self, facts, goal, depth):
        n = self.normer(facts)
        a, b = goal.args
        if a.op == "c" and a.args[0] == 0 and (n.pos(b) if goal.op == "<" else n.nonneg(b)):
            return self._count("sign")
        for x in (a, b):
            if x.op == "ite" and depth < 24 and self._mentions_root(goal):
                res = None
                for lit in (x.args[0], lnot(x.args[0])):
                    if self.feasible(facts, lit):
                        res = self.prove(facts + [lit], self.decide(goal, x.args[0], lit is x.args[0]), depth + 1)
                        if not res.ok:
                            return res
                return res or self._count("infeasible")
        for rule in (self.order_rule, self.root_order):
            r = rule(facts, goal, depth)
            if r is not None and r.ok:
                return r
        early = self.find_cond(goal) is None and any(s.op == "app" and s.args[0] in DISTRIBUTIONS for s in subterms(goal))
        if early:
            r = self.generalise(facts, goal, n, depth)
            if r is not None and r.ok:
                return r
        try:
            p = padd(n.norm(b), n.norm(a), -1)
        except (TooBig, ZeroDivisionError):
            return self.finish(facts, goal)
        t = n.to_term(p)
        if goal.op == "<=" and (not p or n.nonneg(t)):
            return self._count("sign")
        if goal.op == "<" and n.pos(t):
            return self._count("sign")
        for q, f, rest in self.modulo_equations(facts, p, n):
            g = add(sub(b, a), mul(rconst(q), sub(f.args[0], f.args[1])))
            r = self.generalise(rest, _mk(goal.op, (_zero(), g), "B"), n, depth)
            if r is not None and r.ok:
                return r
        g = le(_zero(), t) if goal.op == "<=" else lt(_zero(), t)
        c = self.find_cond(g)
        if c is not None and depth < 24:
            return self.split_case(facts, g, depth)
        if goal.op == "<=" and self.pointwise(facts, p, n, depth):
            return self._count("sum-pointwise")
        if self.positive_multiple(facts, p, n, goal.op):
            return self._count("inequality")
        r = self.quantile_rule(facts, p, n, goal.op, depth)
        if r is not None and r.ok:
            return r
        if any(x.op in ("SUM", "INT") for x in subterms(g)):
            # bring what is known about sums and integrals to the form they have in the goal
            more = [n.canon_bool(f) for f in facts if f.op in ("<", "<=", "=") and any(x.op in ("SUM", "INT") for x in subterms(f))]
            facts = facts + [f for f in more if f not in facts]
        r = self.index_cases(facts, g, depth)
        if r is None:
            r = self.root_rule(facts, goal, n, depth)
        if r is None and not early:
            r = self.generalise(facts, goal, n, depth)
        if r is not None:
            return r
        return self.finish(facts, g, orig=goal)

    def modulo_equations(self, facts, p, n):
        """eliminate an input from the inequality by an equation that defines a root"""
        out = []
        known = set(facts)
        for f in facts:
            if f.op == "or":
                rest = [g for g in f.args if not (g.op == "not" and g.args[0] in known) and lnot(g) not in known]
                if len(rest) == 1:
                    f = rest[0]
            if f.op != "=" or f.args[0].sort == "B" or not any(s.op == "app" and s.args[0].startswith("wit:") for s in subterms(f)):
                continue
            try:
                k = padd(n.norm(f.args[0]), n.norm(f.args[1]), -1)
            except (TooBig, ZeroDivisionError):
                continue
            m = next((m for m in k if m in p and len(m) == 1 and m[0][0].op == "app" and m[0][0].args[0].startswith("in:")), None)
            if m is not None:
                p2 = padd(p, k, -p[m] / k[m])
                if m not in p2:
                    out.append((-p[m] / k[m], f, [g for g in facts if g is not f]))
        return out[:2]

    def positive_multiple(self, facts, p, n, op):
        """0 < p (0 <= p) is a known inequality times something positive"""
        if not 1 < len(p) <= 6:
            return False
        top = next(iter(p))
        for f in facts:
            if f.op not in ("<", "<=") or f.op == "<=" and op == "<":
                continue
            try:
                q = padd(n.norm(f.args[1]), n.norm(f.args[0]), -1)
                if len(q) != len(p):
                    continue
                for m in q:
                    d = {a: -e for a, e in m}
                    for a, e in top:
                        d[a] = d.get(a, 0) + e
                    d = {a: e for a, e in d.items() if e}
                    k = p[top] / q[m]
                    if k > 0 and all(n.pos(a) for a in d) and not padd(p, n.pmul(q, pscale(n._wrap(n.mono(d)), k)), -1):
                        return True
            except (TooBig, ZeroDivisionError):
                continue
        return False

    def quantile_rule(self, facts, p, n, op, depth):
        """R < F(z) for a distribution function F follows from Q(R) < z, and F(z) < R from z < Q(R) (0 < R < 1)"""
        ms = [(m, m[0][0]) for m in p if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] in ("norm_cdf", "cauchy_cdf")]
        if not ms:
            return self.ppf_rule(facts, p, n, op, depth)
        if len(ms) != 1 or depth > 6:
            return None
        m, at = ms[0]
        k = p[m]
        R = n.to_term(pscale({x: c for x, c in p.items() if x != m}, -1 / k))
        if any(s.op == "app" and s.args[0].endswith("_cdf") for s in subterms(R)):
            return None
        if not self.prove(facts, land(lt(rconst(0), R), lt(R, rconst(1))), depth + 1).ok:
            return None
        q = app(at.args[0][:-4] + "_ppf", R)
        a, b = (q, at.args[1]) if k > 0 else (at.args[1], q)
        return self.prove(facts, (lt if op == "<" else le)(a, b), depth + 1)

    def ppf_rule(self, facts, p, n, op, depth):
        """x < c*Q(R) for c > 0 follows from F(x/c) < R, and c*Q(R) < x from R < F(x/c)"""
        ms = [(m, a) for m in p for a, e in m if e == 1 and a.op == "app" and a.args[0] in ("norm_ppf", "cauchy_ppf")]
        if len(ms) != 1 or depth > 8:
            return None
        m, at = ms[0]
        c = {tuple(x for x in m if x[0] is not at): abs(p[m])}
        c = n.to_term(c)
        if not n.pos(c):
            return None
        rest = n.to_term({x: k for x, k in p.items() if x != m})
        if any(s.op == "app" and s.args[0].endswith("_ppf") for s in subterms(rest)):
            return None
        F = app(at.args[0][:-4] + "_cdf", n.canon(div(neg(rest) if p[m] > 0 else rest, c)))
        R = at.args[1]
        return self.prove(facts, (lt if op == "<" else le)(*((F, R) if p[m] > 0 else (R, F))), depth + 1)

    def root_rule(self, facts, goal, n, depth):
        """0 <= a, 0 <= b:  a <= b  follows from  a^k <= b^k"""
        a, b = goal.args
        try:
            ms = [m for p in (n.norm(a), n.norm(b)) if len(p) == 1 for m in p]
        except (TooBig, ZeroDivisionError):
            return None
        k = max([2 if x.args[0] == "sqrt" else int(x.args[2].args[0]) for m in ms for x, e in m if x.op == "app" and x.args[0] in ("sqrt", "root") and x.args[1].op != "c"] or [0])
        if not k or depth > 6 or not (n.nonneg(a) and n.nonneg(b)):
            return None
        try:
            d = n.to_term(padd(n.ppow(n.norm(b), k), n.ppow(n.norm(a), k), -1))
        except (TooBig, ZeroDivisionError):
            return None
        return self._count("sign") if (n.pos(d) if goal.op == "<" else n.nonneg(d)) else None

    def generalise(self, facts, goal, n, depth):
        """prove the goal with the terms the facts speak about replaced by variables (equal terms, after
        normalisation, by equal variables); applications become variables with their axioms"""
        if depth > 18 or not size_over(goal, 60):
            return None
        keys = {}
        canon = lambda t: n.canon(t) if t.op not in ("v", "c") else t
        try:
            for f in facts:
                for g in (f.args if f.op == "and" else (f,)):
                    if g.op in ("<", "<=", "="):
                        for t in g.args:
                            if t.sort == "R" and t.op not in ("v", "c") and not (t.op == "app" and len(t.args) == 1):
                                keys.setdefault(canon(t), None)
            if not keys:
                return None
            forms = self.expand([*facts, self.negate(goal)])
        except (TooBig, ZeroDivisionError):
            return None
        memo, vals, extra = {}, {}, []

        def named(c, t):
            x = vals.get(c)
            if x is None:
                x = vals[c] = fresh("g", t.sort)
                if t.sort == "R":
                    if n.pos(t):
                        extra.append(lt(_zero(), x))
                    elif n.nonneg(t):
                        extra.append(le(_zero(), x))
            return x

        def rep(t):
            r = memo.get(t)
            if r is None:
                r = memo[t] = rep1(t)
            return r

        def rep1(t):
            if t.op in ("v", "c", "true", "false"):
                return t
            if t.sort == "R" and t.op != "real":
                c = canon(t)
                if c in keys or t.op in ("app", "SUM", "INT", "PROD"):
                    if t.op == "app" and len(t.args) == 1:
                        return t
                    return named(c, t)
            if t.op in ("+", "*", "/", "^", "ite", "abs", "min", "max", "<", "<=", "=", "and", "or", "not", "real", "iff"):
                return rebuild(t, [rep(a) for a in t.args if type(a) is T]) if t.op != "^" else powi(rep(t.args[0]), t.args[1])
            return named(t, t) if t.sort != "B" else t

        def atoms(t):
            return {s for s in subterms(t) if s.op == "v" or s.op == "app"}

        neg = rep(self.negate(goal))
        used = atoms(neg)
        for s in subterms(goal):
            if s.op == "app" and len(s.args) > 1 and rep(s) in used:
                for a in s.args[1:]:
                    if type(a) is T and a.sort == "R":
                        used |= atoms(rep(a))
        new = [neg]
        for f in forms:
            try:
                g = rep(f)
            except (TooBig, ZeroDivisionError):
                continue
            if g.op != "true" and atoms(g) <= used and g not in new:
                new.append(g)
        new += extra
        # order of the arguments of functions with order axioms
        apps = {}
        for s in subterms(goal):
            if s.op == "app" and len(s.args) == 2 and s.args[0] in SCHEMAS and type(s.args[1]) is T and rep(s) in used:
                apps.setdefault(s.args[0], []).append(s)
        for name, ss in apps.items():
            for i, a in enumerate(ss[:4]):
                for b in ss[i + 1:4]:
                    for u, w in ((a, b), (b, a)):
                        if self.order(facts, u.args[1], w.args[1], n):
                            new.append(lt(rep(u.args[1]), rep(w.args[1])))
                            break
        if self._z3(new, 600 if self.light else 3000)[0] == "unsat":
            return self._count("z3")
        if self._nlsat(new, 600 if self.light else 4000)[0] == "unsat":
            return self._count("z3-nlsat")
        return None

    def order(self, facts, u, w, n):
        """u < w is certain: w - u is a product of positive terms and of differences known to be positive"""
        try:
            p = padd(n.norm(w), n.norm(u), -1)
            if not p:
                return False
            c, m, prim = n.content(p)
        except (TooBig, ZeroDivisionError):
            return False
        t = n.to_term(pscale(prim, c))
        if size_over(t, 60) or not all(n.pos(a) for a, e in m):
            if not any(s.op == "app" and s.args[0] in DISTRIBUTIONS for x in (u, w) for s in subterms(x)):
                return False
            self.light += 1
            try:
                r = self.generalise(facts, lt(u, w), n, 7)
            finally:
                self.light -= 1
            return r is not None and r.ok
        return n.pos(t) or self.entails_quick([f for f in facts if not size_over(f, 60)], lt(_zero(), t))

    # ------------------------------------------------------------ SMT
    def finish(self, facts, goal, orig=None):
        neg_goal = self.negate(goal)
        if self.light:
            for solve in (self._z3, self._nlsat):
                st, model, back = solve([*facts, neg_goal], 600)
                if st == "unsat":
                    return self._count(back)
            return Result("unknown", "z3", show(goal)[:300])
        st, model, back = self._z3([*facts, neg_goal], self.timeout, want_model=True)
        if st == "unsat":
            return self._count(back)
        st2, model2, back2 = self._nlsat([*facts, neg_goal], self.timeout * 2)
        if st2 == "unsat":
            return self._count(back2)
        if st != "sat" and st2 != "sat":
            st3 = self._cvc5([*facts, neg_goal], self.timeout)
            if st3 == "unsat":
                return self._count("cvc5")
        info = "%s: z3=%s nlsat=%s" % (show(goal if orig is None else orig)[:2000], st, st2)
        if st == "sat" or st2 == "sat":
            sure = self.definite([*facts, neg_goal])
            return Result("refuted" if sure else "failed", "z3", info, model if model is not None else model2)
        return Result("unknown", "z3", info, None)

    def expand(self, forms):
        """ground the quantified facts, skolemise, add axiom instances"""
        out = []
        univ = []
        for f in forms:
            self._flatten(f, out, univ)
        first = {s for f in out for s in subterms(f)}
        # index terms
        for _ in range(3):
            idx = set()
            for f in out:
                for s in subterms(f):
                    if s.op == "app":
                        for a in s.args[1:]:
                            if type(a) is T and a.sort == "I" and not any(v.args[0].startswith("#") for v in free_vars(a)) and not nested_witness(a):
                                idx.add(a)
            new = []
            for u in univ:
                lo, hi = u.args[0], u.args[1]
                for i in sorted(idx, key=show)[:12] + [lo, sub(hi, iconst(1))]:
                    new.append(implies(land(le(lo, i), lt(i, hi)), inst(u, i)))
            before = len(out)
            extra = []
            for g in new:
                if g not in out:
                    self._flatten(g, out, extra)
            univ2 = [u for u in extra if u not in univ]
            univ += univ2[:24]
            if len(out) == before and not univ2:
                break
        # axioms
        seen_ax = set()
        for _ in range(2):
            apps = {}
            for f in out:
                for s in subterms(f):
                    if s.op == "app" and s.args[0] in SCHEMAS and not any(v.args[0].startswith("#") for v in free_vars(s)):
                        apps.setdefault(s.args[0], set()).add(s)
            new = []
            done_fn = set()
            for name, ss in apps.items():
                for fn in SCHEMAS[name]:
                    group = []
                    for other, os in apps.items():
                        if fn in SCHEMAS[other]:
                            group.extend(os)
                    if fn in done_fn:
                        continue
                    done_fn.add(fn)
                    group = sorted(set(group), key=lambda t: (t not in first, t.id))[:16]
                    for ax in fn(group):
                        if ax not in seen_ax:
                            seen_ax.add(ax)
                            new.append(ax)
            if not new:
                break
            out.extend(new)
        return out

    def _flatten(self, f, out, univ):
        if f.op == "and":
            for g in f.args:
                self._flatten(g, out, univ)
        elif f.op == "ALL":
            univ.append(f)
        elif f.op == "not" and f.args[0].op == "ALL":
            q = f.args[0]
            w = var("w%d" % q.id, "I")
            out.append(le(q.args[0], w))
            out.append(lt(w, q.args[1]))
            self._flatten(lnot(inst(q, w)), out, univ)
        elif f.op == "not" and f.args[0].op == "and":
            self._flatten(lor(*[lnot(a) for a in f.args[0].args]), out, univ)
        elif f.op == "not" and f.args[0].op == "or":
            for a in f.args[0].args:
                self._flatten(lnot(a), out, univ)
        elif f.op == "true":
            pass
        elif f.op == "or" and any(a.op == "ALL" for a in f.args):
            q = next(a for a in f.args if a.op == "ALL")
            rest = [a for a in f.args if a is not q]
            self._flatten(tall(q.args[0], q.args[1], lambda i: lor(*rest, inst(q, i))), out, univ)
        elif f.op == "or" and any(a.op == "not" and a.args[0].op == "ALL" for a in f.args):
            arm = next(a for a in f.args if a.op == "not" and a.args[0].op == "ALL")
            q = arm.args[0]
            w = var("w%d" % q.id, "I")
            rest = [a for a in f.args if a is not arm]
            self._flatten(lor(*rest, land(le(q.args[0], w), lt(w, q.args[1]), lnot(inst(q, w)))), out, univ)
        elif f.op == "or" and any(a.op == "and" and self._has_quant(a) for a in f.args):
            arm = next(a for a in f.args if a.op == "and" and self._has_quant(a))
            rest = [a for a in f.args if a is not arm]
            for g in arm.args:
                self._flatten(lor(*rest, g), out, univ)
        elif f.op == "or" and any(a.op == "not" and a.args[0].op in ("and", "or") and self._has_quant(a) for a in f.args):
            arm = next(a for a in f.args if a.op == "not" and a.args[0].op in ("and", "or") and self._has_quant(a))
            rest = [a for a in f.args if a is not arm]
            parts = [lnot(a) for a in arm.args[0].args]
            new = land(*parts) if arm.args[0].op == "or" else lor(*parts)
            self._flatten(lor(*rest, new), out, univ)
        else:
            out.append(f)

    @staticmethod
    def _has_quant(t):
        if t.op == "ALL":
            return True
        return t.op in ("and", "or", "not") and any(Prover._has_quant(a) for a in t.args)

    @staticmethod
    def definite(forms):
        """is a model of these formulas a model of the real semantics?  (only inputs are uninterpreted)"""
        for f in forms:
            for s in subterms(f):
                if s.op in ("ALL", "SUM", "INT", "PROD"):
                    return False
                if s.op == "app" and not s.args[0].startswith("in:"):
                    return False
                if s.op == "app" and len(s.args) > 1:
                    return False
                if s.op == "v" and s.args[0].startswith("#"):
                    return False
        return True

    def _z3(self, forms, timeout, want_model=False):
        t0 = time.time()
        forms = self.expand(forms)

        def check():
            s = z3.Solver()
            s.set("timeout", timeout)
            tr = Z3Tr()
            try:
                for f in forms:
                    s.add(tr.b(f))
                r = str(s.check())
                return r, tr.model(s.model()) if r == "sat" and want_model else None
            except z3.Z3Exception as e:
                return "unknown", None

        r, m = guarded(check, forms, timeout)
        self.stats.solver_time += time.time() - t0
        self.stats.queries += 1
        return r, m, "z3"

    def _nlsat(self, forms, timeout):
        """all applications replaced by variables (sound: drops congruence only)"""
        t0 = time.time()
        forms = self.expand(forms)

        def check():
            tr = Z3Tr(purify=True)
            g = z3.Goal()
            try:
                for f in forms:
                    e = tr.b(f)
                    g.add(e)
                s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-term-ite", "qfnra-nlsat").solver()
                s.set("timeout", timeout)
                for e in g:
                    s.add(e)
                r = str(s.check())
                return r, tr.model(s.model()) if r == "sat" else None
            except z3.Z3Exception as e:
                return "unknown", None

        r, m = guarded(check, forms, timeout)
        self.stats.solver_time += time.time() - t0
        self.stats.queries += 1
        return r, m, "z3-nlsat"

    def _cvc5(self, forms, timeout):
        t0 = time.time()
        forms = self.expand(forms)

        def check():
            import cvc5
            tr = Z3Tr()
            s = z3.Solver()
            for f in forms:
                s.add(tr.b(f))
            smt = "(set-logic ALL)\n" + s.to_smt2()
            slv = cvc5.Solver()
            slv.setOption("tlimit-per", str(timeout))
            ip = cvc5.InputParser(slv)
            ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "q")
            sm = ip.getSymbolManager()
            res = "unknown"
            while True:
                cmd = ip.nextCommand()
                if cmd.isNull():
                    break
                out = cmd.invoke(slv, sm)
                if str(out).strip() in ("sat", "unsat", "unknown"):
                    res = str(out).strip()
            return res, None

        res = guarded(check, forms, timeout, always=True)[0]
        self.stats.solver_time += time.time() - t0
        self.stats.queries += 1
        return res


def guarded(check, forms, timeout, always=False):
    """run a solver query; large ones in a child process, which is killed when the solver ignores its limit"""
    if not always:
        seen, n, stack = set(), 0, list(forms)
        while stack and n <= 80:
            x = stack.pop()
            if x not in seen:
                seen.add(x)
                n += 1
                stack.extend(y for y in x.args if type(y) is T)
        if n <= 80:
            return check()
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                out = check()
            except BaseException:
                out = ("unknown", None)
            data = pickle.dumps(out)
            while data:
                data = data[os.write(wr, data):]
        finally:
            os._exit(0)
    os.close(wr)
    data, end = b"", time.time() + timeout / 1000.0 + 0.5
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                break
            chunk = os.read(rd, 65536)
            if not chunk:
                break
            data += chunk
    finally:
        os.close(rd)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return "unknown", None


def nested_witness(t):
    """a witness that depends on a witness (instances at such indices do not end)"""
    wit = lambda s: s.op == "app" and s.args[0].startswith("wit:")
    return any(wit(s) and any(wit(u) for a in s.args[1:] if type(a) is T for u in subterms(a)) for s in subterms(t))


def replace(t, rep):
    """replace whole subterms"""
    memo = {}

    def go(x):
        if x in rep:
            return rep[x]
        if x in memo:
            return memo[x]
        if not x.args or x.op in ("v", "c"):
            r = x
        elif x.op in ("SUM", "ALL", "INT"):
            i = fresh("s", bound_var(x).sort)
            body = go(inst(x, i))
            lo, hi = go(x.args[0]), go(x.args[1])
            if x.op == "INT":
                r = _binder("INT", lo, hi, i, body, "R")
            else:
                r = (tsum if x.op == "SUM" else tall)(lo, hi, lambda k: subst(body, {i: k}))
        else:
            r = rebuild(x, [go(y) if type(y) is T else y for y in x.args])
        memo[x] = r
        return r

    return go(t)


def unreal_to_real(t):
    return to_real(t) if t.sort == "I" else t


DISTRIBUTIONS = ("norm_cdf", "cauchy_cdf", "norm_ppf", "cauchy_ppf")


class Z3Tr:
    def __init__(self, purify=False):
        self.memo = {}
        self.vars = {}
        self.purify = purify

    def b(self, t):
        return self.tr(t)

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tr(t)
            self.memo[t] = r
        return r

    def const(self, name, sort):
        if sort == "R":
            return z3.Real(name)
        if sort == "I":
            return z3.Int(name) if not self.purify else z3.Real(name)
        return z3.Bool(name)

    def _tr(self, t):
        o = t.op
        if o == "c":
            q = t.args[0]
            if t.sort == "I" and not self.purify:
                return z3.IntVal(int(q))
            return z3.RealVal("%d/%d" % (q.numerator, q.denominator))
        if o == "v":
            c = self.const(t.args[0], t.sort)
            self.vars[t] = c
            return c
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o in ("SUM", "INT", "ALL"):
            return self.const("%s$%d" % (o, t.id), t.sort)
        a = None
        if o == "app":
            f = t.args[0]
            if self.purify:
                c = self.const("%s$%d" % (f, t.id), t.sort)
                if f.startswith("in:"):
                    self.vars[t] = c
                return c
            if any(type(x) is not T for x in t.args[1:]):
                return self.const("%s$%d" % (f, t.id), t.sort)
            args = [self.tr(x) for x in t.args[1:]]
            if not args:
                return self.const(f, t.sort)
            srt = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}
            fn = z3.Function(f + "/" + "".join(x.sort for x in t.args[1:]), *[srt[x.sort] for x in t.args[1:]], srt[t.sort])
            r = fn(*args)
            if f.startswith("in:"):
                self.vars[t] = r
            return r
        args = [self.tr(x) if type(x) is T else x for x in t.args]
        if o == "+":
            return args[0] + args[1]
        if o == "*":
            return args[0] * args[1]
        if o == "/":
            return args[0] / args[1]
        if o == "^":
            r = args[0]
            for _ in range(args[1] - 1):
                r = r * args[0]
            return r
        if o == "real":
            return z3.ToReal(args[0]) if not self.purify else args[0]
        if o == "=" or o == "iff":
            return args[0] == args[1]
        if o == "<":
            return args[0] < args[1]
        if o == "<=":
            return args[0] <= args[1]
        if o == "not":
            return z3.Not(args[0])
        if o == "and":
            return z3.And(*args)
        if o == "or":
            return z3.Or(*args)
        if o == "ite":
            return z3.If(args[0], args[1], args[2])
        if o == "min":
            return z3.If(args[0] <= args[1], args[0], args[1])
        if o == "max":
            return z3.If(args[0] <= args[1], args[1], args[0])
        if o == "abs":
            return z3.If(args[0] >= 0, args[0], -args[0])
        raise TypeError(o)

    def model(self, m):
        """{term: python number/bool} for variables and input applications"""
        out = {}
        for t, c in self.vars.items():
            try:
                v = m.eval(c, model_completion=True)
                key = t
                if t.op == "app":
                    idx = []
                    for x in t.args[1:]:
                        w = m.eval(self.tr(x), model_completion=True)
                        idx.append(_num(w))
                    out[(t.args[0],) + tuple(idx)] = _num(v)
                else:
                    out[t.args[0]] = _num(v)
            except Exception:
                pass
        return out


def _num(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None
