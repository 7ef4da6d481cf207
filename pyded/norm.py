"""Exact normaliser: terms -> Laurent polynomials with rational coefficients over atoms.

Atoms are variables, applications of functions (sqrt, exp, log, sin, cos, uninterpreted ...), sums,
integrals, conditionals and `inv(p)` for a primitive polynomial p.  All rewriting used here is an
identity of real analysis on the domain where the source expression is defined (denominators are
non-zero, arguments of sqrt/log non-negative/positive); these definedness conditions are separate
obligations of the interpreter.
"""
from fractions import Fraction
from math import isqrt, gcd
from .terms import *
from .terms import _mk, _binder

ONE = {(): Fraction(1)}
SMALL_PRIMES = (2, 3, 5, 7, 11, 13)


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, q):
    if q == 0:
        return {}
    return {m: c * q for m, c in a.items()}


class TooBig(Exception):
    pass


def addends(t):
    out, stack = [], [t]
    while stack:
        x = stack.pop()
        if x.op == "+":
            stack.extend(reversed(x.args))
        else:
            out.append(x)
    return out


def size_over(t, limit):
    n, stack = 0, [t]
    while stack:
        x = stack.pop()
        n += 1
        if n > limit:
            return True
        stack.extend(y for y in x.args if type(y) is T)
    return False


class Norm:
    MAX = 6000

    def __init__(self, is_pos=None):
        self.memo = {}
        self.ext_pos = is_pos or (lambda t: False)
        self.pos_memo = {}

    # -------------------------------------------------------------- signs
    def pos(self, t):
        """t > 0 is certain"""
        if t in self.pos_memo:
            return self.pos_memo[t]
        self.pos_memo[t] = False
        r = self._pos(t)
        self.pos_memo[t] = r
        return r

    def _pos(self, t):
        o = t.op
        if o == "c":
            return t.args[0] > 0
        if o == "real":
            return self.pos(t.args[0])
        if o == "app":
            f = t.args[0]
            if f in ("exp", "pi"):
                return True
            if f in ("sqrt", "root") and self.pos(t.args[1]):
                return True
            if f == "inv" and self.pos(t.args[1]):
                return True
            if f == "log" and t.args[1].op == "c":
                return t.args[1].args[0] > 1
        if o == "+":
            adds = addends(t)
            if all(self.nonneg(x) for x in adds) and any(self.pos(x) for x in adds):
                return True
        if o in ("*", "/"):
            if self.pos(t.args[0]) and self.pos(t.args[1]):
                return True
        if o == "^" and self.pos(t.args[0]):
            return True
        if o == "ite" and self.pos(t.args[1]) and self.pos(t.args[2]):
            return True
        if o in ("min",) and all(self.pos(x) for x in t.args):
            return True
        if o in ("max",) and any(self.pos(x) for x in t.args):
            return True
        if size_over(t, 60) or self.negative(t):
            return False
        return self.ext_pos(t)

    def negative(self, t):
        """a product with a negative coefficient and otherwise positive factors"""
        if t.op == "c":
            return t.args[0] < 0
        if t.op == "*" and t.args[0].op == "c" and t.args[0].args[0] < 0:
            return self.pos(t.args[1])
        return False

    def nonneg(self, t):
        if t.op == "^" and t.args[1] % 2 == 0:
            return True
        if t.op == "abs":
            return True
        if t.op == "app" and t.args[0] in ("sqrt", "root"):
            return True
        if t.op == "c":
            return t.args[0] >= 0
        if t.op == "+":
            if all(self.nonneg(x) for x in addends(t)):
                return True
        elif t.op == "*" and all(self.nonneg(x) for x in t.args):
            return True
        if t.op == "/" and self.nonneg(t.args[0]) and self.pos(t.args[1]):
            return True
        return self.pos(t)

    # -------------------------------------------------------------- monomials
    def pmul(self, a, b):
        if len(a) * len(b) > self.MAX:
            raise TooBig()
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                p = self.mmul(m1, m2)
                if type(p) is tuple:
                    v = r.get(p, 0) + c1 * c2
                    if v:
                        r[p] = v
                    else:
                        del r[p]
                else:
                    r = padd(r, p, c1 * c2)
        return r

    def mmul(self, m1, m2):
        """product of two monomials: a monomial (tuple), or a polynomial if a reduction applies"""
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        return self.mono(d)

    def mono(self, d):
        """normalise {atom: exp} -> monomial tuple or polynomial"""
        exps = []
        fix = None
        for a, e in d.items():
            if e == 0:
                continue
            if a.op == "app":
                f = a.args[0]
                if f == "exp":
                    exps.append((a, e))
                elif f == "sqrt" and (e >= 2 or e < 0):
                    fix = (a, e)
                elif f == "root" and (e >= a.args[2].args[0] or e < 0):
                    fix = (a, e)
                elif f == "sin" and e >= 2:
                    fix = (a, e)
                elif f == "inv" and e < 0:
                    fix = (a, e)
        if len(exps) > 1 or (exps and exps[0][1] != 1):
            arg = {}
            for a, e in exps:
                del d[a]
                arg = padd(arg, self.norm(a.args[1]), e)
            return self.pmul(self._wrap(self.mono(d)), self.norm_exp(arg))
        if fix is None:
            return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))
        a, e = fix
        d = dict(d)
        f = a.args[0]
        if f in ("sqrt", "root"):
            n = 2 if f == "sqrt" else int(a.args[2].args[0])
            q, r = divmod(e, n)
            if r:
                d[a] = r
            else:
                del d[a]
            rest = self._wrap(self.mono(d))
            return self.pmul(rest, self.ppow(self.norm(a.args[1]), q))
        if f == "sin":
            q, r = divmod(e, 2)
            if r:
                d[a] = r
            else:
                del d[a]
            rest = self._wrap(self.mono(d))
            c = self.norm(app("cos", a.args[1]))
            one_minus = padd(ONE, self.pmul(c, c), -1)
            return self.pmul(rest, self.ppow(one_minus, q))
        if f == "inv":
            del d[a]
            rest = self._wrap(self.mono(d))
            return self.pmul(rest, self.ppow(self.norm(a.args[1]), -e))

    @staticmethod
    def _wrap(p):
        return {p: Fraction(1)} if type(p) is tuple else p

    def ppow(self, p, n):
        if n < 0:
            return self.ppow(self.pinv(p), -n)
        r = ONE
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    # -------------------------------------------------------------- factoring helpers
    def content(self, p):
        """p = c * mono * primitive;  returns (c, mono tuple, primitive poly)"""
        it = iter(p.items())
        m0, c0 = next(it)
        common = dict(m0)
        for m in p:
            md = dict(m)
            for a in list(common):
                e = md.get(a, 0)
                f = common[a]
                common[a] = min(e, f)
            for a, e in md.items():
                if e < 0 and a not in common:
                    common[a] = e
        # atoms missing in some monomial have exponent 0 there
        for m in p:
            md = dict(m)
            for a in list(common):
                common[a] = min(common[a], md.get(a, 0))
        common = {a: e for a, e in common.items() if e}
        lead = min(p, key=lambda m: tuple((a.id, e) for a, e in m))
        c = p[lead]
        # rational content: gcd of coefficients with sign of the leading one
        num = 0
        den = 1
        for v in p.values():
            num = gcd(num, abs(v.numerator))
            den = den * v.denominator // gcd(den, v.denominator)
        cont = Fraction(num, den)
        if c < 0:
            cont = -cont
        if common:
            inv = {a: -e for a, e in common.items()}
            prim = {}
            for m, v in p.items():
                d = dict(m)
                for a, e in inv.items():
                    d[a] = d.get(a, 0) + e
                mm = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))
                prim[mm] = v / cont
        else:
            prim = {m: v / cont for m, v in p.items()}
        return cont, tuple(sorted(common.items(), key=lambda x: x[0].id)), prim

    def pinv(self, p):
        if not p:
            raise ZeroDivisionError
        if len(p) == 1:
            (m, c), = p.items()
            d = {a: -e for a, e in m}
            return pscale(self._wrap(self.mono(d)), 1 / c)
        c, m, prim = self.content(p)
        base = self._wrap(self.mono({a: -e for a, e in m}))
        if len(prim) == 1 and () in prim:
            return pscale(base, 1 / (c * prim[()]))
        at = app("inv", self.to_term(prim))
        return pscale(self.pmul(base, {((at, 1),): Fraction(1)}), 1 / c)

    # -------------------------------------------------------------- terms <-> polynomials
    def mono_term(self, m):
        out = None
        for a, e in m:
            x = to_real(a) if a.sort == "I" else a
            if a.op == "app" and a.args[0] == "inv":
                x = div(rconst(1), powi(a.args[1], e))
            else:
                x = powi(x, e)
            out = x if out is None else mul(out, x)
        return rconst(1) if out is None else out

    def to_term(self, p):
        if not p:
            return rconst(0)
        out = None
        for m in sorted(p, key=lambda m: tuple((a.id, e) for a, e in m)):
            x = mul(rconst(p[m]), self.mono_term(m))
            out = x if out is None else add(out, x)
        return out

    def canon(self, t):
        if t.sort == "B":
            return self.canon_bool(t)
        if t.op in ("v", "c"):
            return t
        try:
            r = self.to_term(self.norm(t))
        except TooBig:
            return t
        if t.sort == "I":
            r = unreal(r)
        return r

    def canon_bool(self, t):
        if t.op in ("<", "<=", "="):
            a, b = t.args
            if a.sort == "B":
                return t
            try:
                p = padd(self.norm(a), self.norm(b), -1)
            except TooBig:
                return t
            if not p:
                return TRUE if t.op in ("<=", "=") else FALSE
            if len(p) == 1 and () in p:
                v = p[()]
                return TRUE if {"<": v < 0, "<=": v <= 0, "=": False}[t.op] else FALSE
            cont, mono, prim = self.content(p)
            isint = a.sort == "I" and b.sort == "I"
            if mono and len(p) > 1 and all(self.pos(x) for x, e in mono) and not isint:
                q = pscale(prim, -1 if cont < 0 and t.op != "=" else 1)
            else:
                q = pscale(p, 1 / (abs(cont) if t.op != "=" else cont))
            d = self.to_term(q)
            z = rconst(0)
            if isint:
                d, z = unreal(d), iconst(0)
            return {"<": lt, "<=": le, "=": eq}[t.op](d, z)
        if t.op in ("and", "or", "not"):
            return rebuild(t, [self.canon_bool(a) for a in t.args])
        return t

    def norm(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._norm(t)
            self.memo[t] = r
        return r

    def atom(self, t):
        return {((t, 1),): Fraction(1)}

    def _norm(self, t):
        o = t.op
        if o == "c":
            return {(): t.args[0]} if t.args[0] else {}
        if o == "v":
            return self.atom(t)
        if o == "real":
            return self.norm(t.args[0])
        if o == "+":
            return padd(self.norm(t.args[0]), self.norm(t.args[1]))
        if o == "*":
            return self.pmul(self.norm(t.args[0]), self.norm(t.args[1]))
        if o == "/":
            d = self.norm(t.args[1])
            if not d:
                return self.atom(t)
            return self.pmul(self.norm(t.args[0]), self.pinv(d))
        if o == "^":
            return self.ppow(self.norm(t.args[0]), t.args[1])
        if o == "ite":
            c = self.canon_bool(t.args[0])
            a, b = self.norm(t.args[1]), self.norm(t.args[2])
            if c.op == "true" or a == b:
                return a
            if c.op == "false":
                return b
            return self.atom(_mk("ite", (c, self.to_term(a), self.to_term(b)), "R"))
        if o in ("min", "max"):
            a, b = self.norm(t.args[0]), self.norm(t.args[1])
            if a == b:
                return a
            r = (tmin if o == "min" else tmax)(self.to_term(a), self.to_term(b))
            return self.norm(r) if r.op not in ("min", "max") else self.atom(r)
        if o == "abs":
            p = self.norm(t.args[0])
            if not p:
                return p
            tt = self.to_term(p)
            if self.nonneg(tt):
                return p
            q = pscale(p, -1)
            if self.nonneg(self.to_term(q)):
                return q
            lead = min(p, key=lambda m: tuple((a.id, e) for a, e in m))
            if p[lead] < 0:
                tt = self.to_term(q)
            return self.atom(tabs(tt)) if tt.op != "c" else self.norm(tabs(tt))
        if o == "SUM":
            return self.norm_sum(t)
        if o == "INT":
            return self.norm_int(t)
        if o == "app":
            return self.norm_app(t)
        return self.atom(t)

    # -------------------------------------------------------------- binders
    def norm_sum(self, t):
        lo, hi = t.args[0], t.args[1]
        x = fresh("n", "I")
        zero = iconst(0)
        if lo is not zero:
            body = inst(t, add(x, lo))
            hi = unreal(self.to_term(padd(self.norm(hi), self.norm(lo), -1)))
        else:
            body = inst(t, x)
            hi = self.canon(hi)
        if hi.op == "c" and hi.args[0] <= 0:
            return {}
        if hi.op == "c" and hi.args[0] <= 8:
            r = {}
            for i in range(int(hi.args[0])):
                r = padd(r, self.norm(subst(body, {x: iconst(i)})))
            return r
        p = self.norm(body)
        groups = {}
        for m, c in p.items():
            dep = tuple((a, e) for a, e in m if x in free_vars(a))
            ind = tuple((a, e) for a, e in m if x not in free_vars(a))
            groups[dep] = padd(groups.get(dep, {}), {ind: c})
        out = {}
        for dep, coef in groups.items():
            if not dep:
                at = {((app("count", hi), 1),): Fraction(1)} if not self.pos_int(hi) else self.norm(hi)
            else:
                at = self.atom(_binder("SUM", zero, hi, x, self.mono_term(dep), "R"))
            out = padd(out, self.pmul(coef, at))
        return out

    def pos_int(self, hi):
        return self.ext_pos(add(hi, iconst(1)))

    def norm_int(self, t):
        lo, hi = self.canon(t.args[0]), self.canon(t.args[1])
        x = fresh("n", "R")
        p = self.norm(inst(t, x))
        groups = {}
        for m, c in p.items():
            dep = tuple((a, e) for a, e in m if x in free_vars(a))
            ind = tuple((a, e) for a, e in m if x not in free_vars(a))
            groups[dep] = padd(groups.get(dep, {}), {ind: c})
        out = {}
        for dep, coef in groups.items():
            if not dep:
                at = padd(self.norm(hi), self.norm(lo), -1)
            elif len(dep) == 1 and dep[0][0] is x and dep[0][1] > 0:
                n = dep[0][1] + 1
                at = pscale(padd(self.ppow(self.norm(hi), n), self.ppow(self.norm(lo), n), -1), Fraction(1, n))
            else:
                at = self.atom(_binder("INT", lo, hi, x, self.mono_term(dep), "R"))
            out = padd(out, self.pmul(coef, at))
        return out

    # -------------------------------------------------------------- functions
    def norm_app(self, t):
        f = t.args[0]
        if f == "sqrt":
            return self.norm_root(self.norm(t.args[1]), 2)
        if f == "root":
            return self.norm_root(self.norm(t.args[1]), int(t.args[2].args[0]))
        if f == "exp":
            return self.norm_exp(self.norm(t.args[1]))
        if f == "log":
            return self.norm_log(self.norm(t.args[1]))
        if f == "inv":
            return self.pinv(self.norm(t.args[1]))
        if f in ("sin", "cos"):
            return self.norm_trig(f, self.norm(t.args[1]))
        if f in ("norm_cdf", "cauchy_cdf") and len(t.args) == 2:
            # symmetric about 0
            p = self.norm(t.args[1])
            if not p:
                return {(): Fraction(1, 2)}
            lead = min(p, key=lambda m: tuple((a.id, e) for a, e in m))
            if p[lead] < 0:
                return padd(ONE, self.atom(app(f, self.to_term(pscale(p, -1)))), -1)
            return self.atom(app(f, self.to_term(p)))
        if f in ("norm_ppf", "cauchy_ppf") and len(t.args) == 2:
            # odd about 1/2
            p = self.norm(t.args[1])
            c = padd(p, {(): Fraction(1, 2)}, -1)
            if not c:
                return {}
            lead = min((m for m in c if m), key=lambda m: tuple((a.id, e) for a, e in m), default=())
            if c[lead] < 0:
                return pscale(self.atom(app(f, self.to_term(padd(ONE, p, -1)))), -1)
            return self.atom(app(f, self.to_term(p)))
        args = [self.canon(a) if type(a) is T else a for a in t.args[1:]]
        return self.atom(_mk("app", (f,) + tuple(args), t.sort))

    def norm_trig(self, f, p):
        if not p:
            return ONE if f == "cos" else {}
        pi_m = ((PI, 1),)
        if len(p) == 1 and pi_m in p:
            q = p[pi_m] * 2
            if q.denominator == 1:
                k = int(q) % 4
                v = [1, 0, -1, 0][k] if f == "cos" else [0, 1, 0, -1][k]
                return {(): Fraction(v)} if v else {}
        sign = 1
        # sin(pi - x) = sin x, cos(pi - x) = -cos x, and 2 pi periodicity
        if pi_m in p and p[pi_m].denominator == 1:
            k = int(p[pi_m])
            p = {m: c for m, c in p.items() if m != pi_m}
            if k % 2:
                sign = -1
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] == "arccos":
                u = self.norm(m[0][0].args[1])
                if f == "cos":
                    return pscale(u, sign)
                return pscale(self.norm_root(padd(ONE, self.pmul(u, u), -1), 2), sign)
        lead = min(p, key=lambda m: tuple((a.id, e) for a, e in m))
        if p[lead] < 0:
            p = pscale(p, -1)
            if f == "sin":
                sign = -sign
        return pscale(self.atom(app(f, self.to_term(p))), sign)

    def norm_root(self, p, n):
        name = "sqrt" if n == 2 else "root"
        mk = lambda u: app("sqrt", u) if n == 2 else app("root", u, iconst(n))
        if not p:
            return {}
        if p == ONE:
            return p
        c, m, prim = self.content(p)
        if c < 0:
            prim = pscale(prim, -1)
            c = -c
        # atoms that may be pulled out of the root
        out = {}
        inside = {}
        if n % 2:
            # sqrt(x) * x^j is an odd power of sqrt(x)
            d = dict(m)
            for s, e in m:
                if e == 1 and s.op == "app" and s.args[0] == "sqrt":
                    x = s.args[1]
                    if x in d and self.pos(x) and (2 * d[x] + 1) % n == 0:
                        out[s] = out.get(s, 0) + (2 * d[x] + 1) // n
                        del d[s], d[x]
                    elif x.op == "c" and x.args[0] > 1 and x.args[0].denominator == 1:
                        k = x.args[0]
                        for j in ((n - 1) // 2, -(n + 1) // 2):
                            rest = c / k ** j
                            if (rest.denominator if j > 0 else rest.numerator) == (c.denominator if j > 0 else c.numerator):
                                c = rest
                                out[s] = out.get(s, 0) + (1 if j > 0 else -1)
                                del d[s]
                                break
            m = tuple(d.items())
        for a, e in m:
            if self.pos(a):
                if a.op == "app" and a.args[0] == "exp":
                    pass
                q, r = divmod(e, n)
                if q:
                    out[a] = out.get(a, 0) + q
                if r:
                    rt = mk(a)
                    if a.op == "app" and a.args[0] == "exp":
                        arg = pscale(self.norm(a.args[1]), Fraction(1, n))
                        (em, _), = self.norm_exp(arg).items() if len(self.norm_exp(arg)) == 1 else ((None, None),)
                        if em is not None and len(em) == 1:
                            out[em[0][0]] = out.get(em[0][0], 0) + r * em[0][1]
                            continue
                    out[rt] = out.get(rt, 0) + r
            else:
                inside[a] = e
        res = self._wrap(self.mono(out)) if out else ONE
        if inside:
            prim = self.pmul(prim, self._wrap(self.mono(inside)))
        # rational constant
        cnum, cden = c.numerator, c.denominator
        const = ONE
        for val, sgn in ((cnum, 1), (cden, -1)):
            for pr in SMALL_PRIMES:
                e = 0
                while val % pr == 0:
                    val //= pr
                    e += 1
                e *= sgn
                q, r = divmod(e, n)
                const = pscale(const, Fraction(pr) ** q)
                if r:
                    const = self.pmul(const, self._wrap(self.mono({mk(rconst(pr)): r})))
            if val != 1:
                rt = round(val ** (1.0 / n)) if n != 2 else isqrt(val)
                if rt ** n == val:
                    const = pscale(const, Fraction(rt) ** sgn)
                else:
                    const = self.pmul(const, self._wrap(self.mono({mk(rconst(val)): sgn})))
        res = self.pmul(res, const)
        if prim != ONE:
            if () in prim and len(prim) == 1:
                res = self.pmul(res, self.norm_root(prim, n)) if prim != p else res
            else:
                res = self.pmul(res, self.atom(mk(self.to_term(prim))))
        return res

    def cancel(self, p):
        """divide the numerator over a denominator inv(b) by b where that leaves no remainder"""
        invs = sorted({a for m in p for a, e in m if a.op == "app" and a.args[0] == "inv" and e >= 1}, key=lambda a: a.id)
        for at in invs[:4]:
            over, rest = {}, {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(at, 0)
                if e >= 1:
                    if e > 1:
                        d[at] = e - 1
                    over[tuple(sorted(d.items(), key=lambda x: x[0].id))] = c
                else:
                    rest[m] = c
            q = self.divide(over, self.norm(at.args[1]))
            if q is not None:
                p = padd(rest, q)
        return p

    def divide(self, p, b):
        """exact quotient p/b or None"""
        atoms = sorted({a for q in (p, b) for m in q for a, e in m}, key=lambda a: a.id)
        key = lambda m: tuple(dict(m).get(a, 0) for a in atoms)
        lead = max(b, key=key)
        inv = {a: -e for a, e in lead}
        out, r = {}, dict(p)
        for _ in range(4 * len(p) + 4):
            if not r:
                return out
            top = max(r, key=key)
            d = dict(inv)
            for a, e in top:
                d[a] = d.get(a, 0) + e
            t = {tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id)): r[top] / b[lead]}
            out = padd(out, t)
            r = padd(r, self.pmul(t, b), -1)
        return None

    def norm_exp(self, p):
        """exp(sum c_i*log(a_i) + rest)"""
        p = self.cancel(p)
        if not p:
            return ONE
        rest = {}
        d = ONE
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] == "log":
                base = self.norm(m[0][0].args[1])
                if c.denominator == 1 and abs(c) <= 12:
                    d = self.pmul(d, self.ppow(base, int(c)))
                    continue
                if c.denominator in (2, 3, 5) and abs(c) <= 12:
                    r = self.norm_root(base, c.denominator)
                    d = self.pmul(d, self.ppow(r, c.numerator))
                    continue
            rest[m] = c
        if not rest:
            return d
        at = {((app("exp", self.to_term(rest)), 1),): Fraction(1)}
        return self.pmul(d, at) if d != ONE else at

    def norm_log(self, p):
        if p == ONE:
            return {}
        c, m, prim = self.content(p)
        if c < 0:
            prim = pscale(prim, -1)
            c = -c
        r = {}
        inside = {}
        for a, e in m:
            if self.pos(a):
                if a.op == "app" and a.args[0] == "exp":
                    r = padd(r, self.norm(a.args[1]), e)
                elif a.op == "app" and a.args[0] == "sqrt":
                    r = padd(r, self.norm_log(self.norm(a.args[1])), Fraction(e, 2))
                elif a.op == "app" and a.args[0] == "inv":
                    r = padd(r, self.norm_log(self.norm(a.args[1])), -e)
                else:
                    r = padd(r, self.atom(app("log", to_real(a))), e)
            else:
                inside[a] = e
        for val, sgn in ((c.numerator, 1), (c.denominator, -1)):
            for pr in SMALL_PRIMES:
                e = 0
                while val % pr == 0:
                    val //= pr
                    e += 1
                if e and pr == 5:
                    # log 10 is kept as an atom: decimal logarithms divide by it
                    r = padd(r, self.atom(app("log", rconst(10))), e * sgn)
                    r = padd(r, self.atom(app("log", rconst(2))), -e * sgn)
                elif e:
                    r = padd(r, self.atom(app("log", rconst(pr))), e * sgn)
            if val != 1:
                r = padd(r, self.atom(app("log", rconst(val))), sgn)
        if inside:
            prim = self.pmul(prim, self._wrap(self.mono(inside)))
        if prim != ONE:
            r = padd(r, self.atom(app("log", self.to_term(prim))))
        return r

    # -------------------------------------------------------------- clearing denominators
    def clear(self, p):
        """p times a product of its (non-zero) denominators: a polynomial without inv/negative powers"""
        for _ in range(40):
            worst = {}
            for m in p:
                for a, e in m:
                    if a.op == "app" and a.args[0] == "inv":
                        worst[a] = max(worst.get(a, 0), e)
                    elif e < 0:
                        worst[a] = max(worst.get(a, 0), -e)
            if not worst:
                return p
            # deepest first: an inv atom with largest id is the outermost
            a = max(worst, key=lambda x: x.id)
            e = worst[a]
            if a.op == "app" and a.args[0] == "inv":
                base = self.norm(a.args[1])
                r = {}
                for m, c in p.items():
                    d = dict(m)
                    k = d.pop(a, 0)
                    q = {tuple(sorted(d.items(), key=lambda x: x[0].id)): c}
                    r = padd(r, self.pmul(q, self.ppow(base, e - k)) if e - k else q)
                p = r
            else:
                r = {}
                for m, c in p.items():
                    d = dict(m)
                    d[a] = d.get(a, 0) + e
                    r = padd(r, self._wrap(self.mono(d)), c)
                p = r
        raise TooBig()


def unreal(t):
    """drop the int->real coercions of a linear integer term"""
    if t.op == "real":
        return t.args[0]
    if t.op == "c" and t.args[0].denominator == 1:
        return iconst(t.args[0])
    if t.op in ("+", "*"):
        a, b = unreal(t.args[0]), unreal(t.args[1])
        if a.sort == "I" and b.sort == "I":
            return (add if t.op == "+" else mul)(a, b)
        return t
    if t.op == "^":
        a = unreal(t.args[0])
        if a.sort == "I":
            return powi(a, t.args[1])
    if t.op == "ite":
        a, b = unreal(t.args[1]), unreal(t.args[2])
        if a.sort == "I" and b.sort == "I":
            return ite(t.args[0], a, b)
    return t
