"""Loops: unrolling of concrete sequences, inductive summaries of unbounded ones."""
import ast
from .terms import *
from .values import *
from .helpers import replace_app, distribute_ite_diff, same_value

MAX_UNROLL = 400


class Hav:
    """a location written by a loop body and how its value is carried"""

    def __init__(self, obj, mode, **kw):
        self.obj, self.mode = obj, mode
        self.sym = self.j = self.shape = None
        self.inplace = False
        self.__dict__.update(kw)


class Loops:
    # ------------------------------------------------------------------ statements
    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)
        try:
            self.run_segs(self.iterate(it), lambda v: (self.assign(st.target, v, fr), self.exec_block(st.body, fr)),
                          fr, target_names(st.target))
        except BreakEx:
            return
        self.exec_block(st.orelse, fr)

    def run_segs(self, segs, step, fr, targets):
        """step(value) for every element, in order"""
        for s in segs:
            if s[0] == "e":
                try:
                    step(s[1])
                except ContinueEx:
                    pass
            elif s[0] == "r":
                _, n, x, tmpl = s
                self.loop_run(lambda k, x=x, tmpl=tmpl: step(vsubst(tmpl, {x: k})), n, fr, targets)
            elif s[0] == "b":
                _, n, x, inner = s
                self.loop_run(lambda k, x=x, inner=inner: self.run_segs(vsubst(tuple(inner), {x: k}), step, fr, targets), n, fr, targets)
            elif s[0] == "g":
                if self.branch(s[1]):
                    self.run_segs(s[2], step, fr, targets)
            elif s[0] == "c":
                if not self._either(s[1], lambda s=s: self.run_segs(s[2], step, fr, targets), lambda s=s: self.run_segs(s[3], step, fr, targets), fr, targets):
                    self.run_segs(s[2] if self.branch(s[1]) else s[3], step, fr, targets)
            else:
                raise Unsupported("iteration over a sequence under construction in a loop")

    def _either(self, cond, a, b, fr, targets):
        """run a if cond, else b, as one step without a fork: the effects are merged; False if that fails"""
        stamp = now()
        res = []
        try:
            for c, run in ((cond, a), (lnot(cond), b)):
                outs = self.explore(lambda: (self.fact(c), run()))
                if len(outs) != 1 or outs[0].kind != "normal":
                    return False
                res.append(outs[0])
            x, y = res
            todo = []
            for key, (obj, _) in list(x.effects.items()) + list(y.effects.items()):
                if key[0] == "var" and obj is fr and key[2] in targets:
                    todo.append((self.set_var, obj, key[2], Poison(key[2])))
                    continue
                u, w = (o.effects[key][1] if key in o.effects else self.read_loc(key, obj) for o in res)
                if key[0] == "var":
                    todo.append((self.set_var, obj, key[2], self.merge_values(cond, u, w, stamp)))
                elif key[0] == "segs" and len(u) == len(w):
                    segs = []
                    for p, q in zip(u, w):
                        if same_value(p, q):
                            segs.append(p)
                        elif p[0] == q[0] == "e":
                            segs.append(("e",) + tuple(self.merge_values(cond, m, n, stamp) for m, n in zip(p[1:], q[1:])))
                        else:
                            return False
                    todo.append((self.set_segs, obj, segs))
                else:
                    return False
        except Unsupported:
            return False
        for c, o in ((cond, x), (lnot(cond), y)):
            self.obligations.extend(o.obligations)
            for p in o.pc:
                if p is not c:
                    self.fact(implies(c, p))
        for t in todo:
            t[0](*t[1:])
        return True

    def s_While(self, st, fr):
        for _ in range(MAX_UNROLL):
            c = self.eval(st.test, fr)
            if isinstance(c, T) and c.op not in ("true", "false"):
                b = c if c.sort == "B" else lnot(eq(c, lift(0)))
                t, f = self.prover.feasible(self.pc, b), self.prover.feasible(self.pc, lnot(b))
                if t and f:
                    break
                c = t
            if not self.truth(c):
                self.exec_block(st.orelse, fr)
                return
            try:
                self.exec_block(st.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
        else:
            raise Unsupported("while loop without bound")

        def body(k):
            if not self.truth(self.eval(st.test, fr)):
                raise BreakEx()
            self.exec_block(st.body, fr)

        marker = []

        def body2(k):
            if not self.truth(self.eval(st.test, fr)):
                marker.append(1)
                raise BreakEx()
            del marker[:]
            self.exec_block(st.body, fr)

        try:
            self.loop_run(body2, None, fr, set())
        except BreakEx:
            if marker:
                self.exec_block(st.orelse, fr)
            return

    # ------------------------------------------------------------------ inductive summary
    def loop_run(self, body, n, fr, targets):
        """inductive summary of `for k in 0..n-1: body(k)` from the current state.

        1. find the locations the body writes (fixpoint over havocked states)
        2. solve for closed forms over the iteration counter (sum accumulators, last values,
           appended lists, array and dictionary writes)
        3. run the body once more at an arbitrary k in the closed-form state: its obligations are
           kept, and `closed(k+1) = state after the body` (the inductive step) is an obligation too
        4. leave the state closed(n); an early exit is the first k whose body exits
        """
        if self.loop_depth > 4:
            raise Unsupported("loop nesting")
        if n is not None and is_const(n) and cval(n) <= 8:
            for i in range(int(cval(n))):
                try:
                    body(iconst(i))
                except ContinueEx:
                    pass
            return
        if n is not None and not self.prover.feasible(self.pc, lt(iconst(0), n)):
            return
        saved = (list(self.obligations), list(self.pc), self.pos, self.prefix, list(self.pending), list(self.dec))
        self.loop_depth += 1
        ctx = self.index_ctx
        try:
            try:
                return self._summary(body, n, fr, targets)
            finally:
                self.index_ctx = ctx
        except Unsupported as e:
            if n is None or self.pos != saved[2] or getattr(e, "final", False):
                raise
            self.obligations, self.pc, self.pos, self.prefix, self.pending, self.dec = saved
            # peel the first iteration
            if not self.branch(lt(iconst(0), n)):
                return
            try:
                body(iconst(0))
            except ContinueEx:
                pass
            try:
                return self._summary(lambda k: body(add(k, iconst(1))), sub(n, iconst(1)), fr, targets)
            finally:
                self.index_ctx = ctx
        finally:
            self.loop_depth -= 1

    @staticmethod
    def _rng(k, n):
        return [le(iconst(0), k)] + ([lt(k, n)] if n is not None else [])

    def _summary(self, body, n, fr, targets):
        k = fresh("k", "I")
        stamp = now()
        line = self.line
        base_pc = list(self.pc)
        ctx = self.index_ctx

        def at(pre, idx):
            def go():
                self.index_ctx = ctx + [idx]
                for f in self._rng(idx, n):
                    self.fact(f)
                pre()
                body(idx)
            return go

        # ---- 1. written locations
        hav = {}
        for rounds in range(8):
            outs = self.explore(at(lambda: self._install(hav), k))
            new = {}
            for o in outs:
                for key, (obj, val) in o.effects.items():
                    if key[0] == "var" and obj is fr and key[2] in targets:
                        continue
                    if key not in hav:
                        new[key] = obj
            if not new:
                break
            for key, obj in new.items():
                hav[key] = self._make_hav(key, obj, [o.effects[key][1] for o in outs if key in o.effects])
        else:
            raise Unsupported("loop state does not stabilise")
        if not outs:
            return
        normal = [o for o in outs if o.kind == "normal"]
        # ---- 2. closed forms
        syms = {h.sym: key for key, h in hav.items() if h.sym is not None}
        closed = {}
        pend = [key for key, h in hav.items() if h.mode in ("num", "arrnum")]
        progress = True
        while pend and progress:
            progress = False
            for key in list(pend):
                h = hav[key]
                if normal:
                    me = app(h.sym, h.j) if h.mode == "arrnum" else h.sym
                    nxt = None
                    for o in normal:
                        v = self._elem(o.effects[key][1], h.j) if key in o.effects else me
                        nxt = v if nxt is None else ite(land(*o.dec), v, nxt)
                    res = self._solve(nxt, me, self._elem(h.init, h.j), k, hav, syms, closed)
                    if res is None:
                        continue
                else:
                    res = lambda idx, h=h: self._elem(h.init, h.j)
                closed[key] = res
                pend.remove(key)
                progress = True
        if pend:
            raise Unsupported("loop-carried variable %s at %s has no closed form" % (sorted(str(p[2]) for p in pend), line))
        widen = any(h.mode == "arrnum" and not isinstance(h.init, ArrVal) for h in hav.values())
        if widen and n is not None and not self.branch(lt(iconst(0), n)):
            return

        # dictionaries the body looks into: what an iteration adds is guessed and then checked
        guess = {}
        for key, h in hav.items():
            if h.mode == "dict" and any(s.op == "app" and s.args[0] == h.sym for o in outs for d in o.dec for s in subterms(d)):
                w = [o.effects[key][1] for o in normal if key in o.effects]
                w = [v for v in w if v and v[0] == ("havoc", h.sym) and len(v) > 1]
                guess[key] = tuple(w[0][1:]) if w else ()

        def pre_at(idx):
            def pre():
                for key, h in hav.items():
                    if key in guess:
                        self.set_segs(h.obj, self._added(h, guess[key], k, idx))
                    elif h.mode == "num":
                        self._write_loc(key, h.obj, closed[key](idx))
                    elif h.mode == "arrnum":
                        self._write_loc(key, h.obj, self._closed_arr(closed[key], h, idx))
                    else:
                        self._install({key: h})
            return pre

        # ---- 3. inductive step
        for attempt in range(4):
            outs = self.explore(at(pre_at(k), k))
            better = {}
            for key, g in guess.items():
                h = hav[key]
                start = self._added(h, g, k, k)
                got = []
                for o in outs:
                    if o.kind == "normal":
                        v = o.effects[key][1] if key in o.effects else start
                        if len(v) < len(start) or not all(same_value(a, b) for a, b in zip(v, start)):
                            raise Unsupported("dictionary entry replaced in a loop")
                        got.append(tuple(v[len(start):]))
                if any(not same_value(a, got[0]) for a in got):
                    raise Unsupported("conditional dictionary writes in a loop")
                if got and not same_value(got[0], g):
                    better[key] = got[0]
            if not better:
                break
            guess.update(better)
        else:
            raise Unsupported("dictionary written in a loop has no closed form")
        exits = [o for o in outs if o.kind != "normal"]
        normal = [o for o in outs if o.kind == "normal"]
        for o in outs:
            self.obligations.extend(o.obligations)
        for key, h in hav.items():
            if h.mode in ("num", "arrnum"):
                for o in normal:
                    after = self._elem(o.effects[key][1], h.j) if key in o.effects else closed[key](k)
                    goal = eq(closed[key](add(k, iconst(1))), after)
                    ob = self.mk_obligation("loop invariant preserved (%s) at %s" % (key[2] or key[0], line), goal, "inv")
                    ob.facts = base_pc + o.pc
                    if goal.op != "true":
                        self.obligations.append(ob)
        tm = {}
        for key, h in hav.items():
            if key in guess:
                if self._dirty(guess[key], syms):
                    raise Unsupported("written value depends on a value carried by the loop")
                tm[key] = guess[key]
            elif h.mode not in ("num", "arrnum", "poison"):
                tm[key] = self._template(key, h, normal, syms, stamp)
        # facts about values known only through facts, for every iteration
        if n is not None:
            for o in normal:
                for p in o.pc:
                    if any(s.op == "app" and isinstance(s.args[0], str) and s.args[0].startswith("wit:") and k in free_vars(s) for s in subterms(p)):
                        g = implies(land(*o.dec), p)
                        self.fact(tall(iconst(0), n, lambda i, g=g: subst(g, {k: i})))
        # ---- 4. exits
        if exits:
            g = lor(*[land(*o.dec) for o in exits])
            if any(self._bad(x, syms) for x in [g]):
                raise Unsupported("loop exit depends on carried state")
            guard = lambda i: subst(g, {k: i})
            leaves = True
            if n is not None:
                leaves = not self.branch(tall(iconst(0), n, lambda i: lnot(guard(i))))
            if leaves:
                K = self.witness("exit", "I")
                for f in self._rng(K, n):
                    self.fact(f)
                self.fact(guard(K))
                self.fact(tall(iconst(0), K, lambda i: lnot(guard(i))))
                self._leave(hav, closed, tm, k, K)
                self.index_ctx = ctx
                try:
                    body(K)       # ends by break / return / raise on every feasible path
                except Unsupported as e:
                    e.final = True
                    raise
                raise Unsupported("loop exit not reproduced at %s" % line)
        if n is None:
            raise PathEnd()       # a while loop without exit does not continue
        self._leave(hav, closed, tm, k, n)
        for t in targets:
            if t in fr.locals:
                self.set_var(fr, t, Poison(t))

    def _added(self, h, g, k, idx):
        """dictionary before iteration idx if every iteration k adds the entry g"""
        if len(g) > 1 or g and g[0][0] != "e":
            raise Unsupported("several dictionary writes per iteration")
        if not g:
            return list(h.init)
        if h.j is None:
            h.j = fresh("x", "I")
        x = h.j
        return list(h.init) + [("r", idx, x) + tuple(vsubst(a, {k: x}) for a in g[0][1:])]

    def _closed_arr(self, cf, h, idx):
        return ArrVal(h.shape, lambda i, cf=cf, j=h.j, idx=idx: subst(cf(idx), {j: i}))

    def _install(self, hav):
        for key, h in hav.items():
            if h.mode == "num":
                self._write_loc(key, h.obj, h.sym)
            elif h.mode == "arrnum":
                self._write_loc(key, h.obj, ArrVal(h.shape, lambda i, s=h.sym: app(s, i)))
            elif h.mode == "poison":
                self._write_loc(key, h.obj, Poison(key[2]))
            elif h.mode in ("list", "dict"):
                self.set_segs(h.obj, [("havoc", h.sym)])
            elif h.mode == "arr":
                self.set_arr(h.obj, lambda *i, s=h.sym, h=h: app(s, *i, sort=h.obj.sort), False)
                h.obj.writes = []
            elif h.mode == "warn":
                self.set_warnings([("havoc",)])

    def _write_loc(self, key, obj, val):
        if key[0] == "var":
            self.set_var(obj, key[2], val)
        elif key[0] == "attr":
            self.set_attr(obj, key[2], val)
        elif key[0] == "arr":
            self.set_arr(obj, val.f)
        else:
            raise Unsupported("loop writes %s" % (key[0],))

    def _make_hav(self, key, obj, samples):
        kind = key[0]
        if kind == "segs":
            return Hav(obj, "dict" if isinstance(obj, DictVal) else "list", sym=fresh("hl").args[0], init=list(obj.segs))
        if kind == "arr":
            if any(v[2] for v in samples):
                if len(obj.shape) != 1:
                    raise Unsupported("array changed as a whole in a loop")
                return Hav(obj, "arrnum", sym=fresh("h").args[0], j=fresh("j", "I"), init=ArrVal(obj.shape, obj.f), shape=obj.shape, inplace=True)
            return Hav(obj, "arr", sym=fresh("ha").args[0], init=obj.f)
        if kind == "warn":
            return Hav(obj, "warn", init=list(self.warnings))
        old = self.read_loc(key, obj)
        num = lambda v: isinstance(v, (int, T)) and not isinstance(v, bool) and not (isinstance(v, T) and v.sort == "B")
        if num(old):
            arrs = [v for v in samples if isinstance(v, ArrVal)]
            if arrs and all(isinstance(v, ArrVal) or num(v) for v in samples):
                if len(arrs[0].shape) != 1:
                    raise Unsupported("array accumulator of rank > 1")
                return Hav(obj, "arrnum", sym=fresh("h").args[0], j=fresh("j", "I"), init=old, shape=arrs[0].shape)
            if all(num(v) for v in samples):
                ints = all(isinstance(v, int) or v.sort == "I" for v in [old] + samples)
                return Hav(obj, "num", sym=fresh("h", "I" if ints else "R"), init=old)
        if isinstance(old, ArrVal) and len(old.shape) == 1 and all(isinstance(v, ArrVal) and len(v.shape) == 1 for v in samples):
            # a mutated (in-place) array is an effect on the array itself; here the variable is re-bound
            return Hav(obj, "arrnum", sym=fresh("h").args[0], j=fresh("j", "I"), init=old, shape=old.shape)
        return Hav(obj, "poison", init=old)

    @staticmethod
    def _elem(v, j):
        if isinstance(v, ArrVal) and j is not None:
            return v.f(j)
        if isinstance(v, tuple) and len(v) == 3 and callable(v[0]):
            return v[0](j)
        if isinstance(v, (int, T)) and not isinstance(v, bool):
            return lift(v)
        raise Unsupported("loop variable of type %s" % type(v).__name__)

    def _bad(self, t, syms):
        """mentions a havocked location"""
        if isinstance(t, T):
            for s in subterms(t):
                if s in syms or (s.op == "app" and s.args[0] in syms):
                    return True
                if s.op == "app" and isinstance(s.args[0], str) and s.args[0][:3] in ("ha!", "hl!"):
                    return True
        return False

    def _solve(self, nxt, me, init, k, hav, syms, closed):
        n = self.prover.normer(self.pc)
        mykey = syms.get(me) or (syms.get(me.args[0]) if me.op == "app" else None)

        def close(t):
            """replace other havocked symbols by their closed forms at k"""
            for _ in range(8):
                found = None
                for s in subterms(t):
                    if s.op == "v" and s in syms:
                        found = s
                    elif s.op == "app" and s.args[0] in syms:
                        found = s.args[0]
                if found is None:
                    return t
                key2 = syms[found]
                if key2 == mykey or key2 not in closed:
                    return None
                if isinstance(found, str):
                    cf, jv = closed[key2], hav[key2].j
                    t = replace_app(t, found, lambda i: subst(cf(k), {jv: i}))
                else:
                    t = subst(t, {found: closed[key2](k)})
            return None

        def mentions(t):
            if me.op == "v":
                return me in free_vars(t)
            return any(s.op == "app" and s.args[0] == me.args[0] for s in subterms(t))

        if not mentions(nxt):
            t = close(nxt)
            if t is None:
                return None
            return lambda idx: ite(eq(idx, iconst(0)), init, subst(t, {k: sub(idx, iconst(1))}))
        ds = []
        try:
            d0 = n.canon(sub(to_real(nxt), to_real(me)))
            ds.append(d0)
        except Exception:
            pass
        d1 = distribute_ite_diff(nxt, me)
        if d1 is not None:
            ds.append(d1)
        for d in ds:
            if mentions(d):
                continue
            if nxt.sort == "I" and me.sort == "I" and d.sort == "R":
                from .norm import unreal
                d = unreal(d)
            t = close(d)
            if t is None:
                return None
            if k not in free_vars(t):
                return lambda idx: add(init, mul(idx, t))
            return lambda idx: add(init, tsum(iconst(0), idx, lambda i: subst(t, {k: i})))
        return None

    def _template(self, key, h, normal, syms, stamp):
        """what one iteration appends / writes"""
        res = [(o, o.effects[key][1] if key in o.effects else None) for o in normal]
        if h.mode == "warn":
            if any(v and any(x != ("havoc",) for x in v) for _, v in res):
                raise Unsupported("warnings issued in an unbounded loop")
            return ()
        if h.mode in ("list", "dict"):
            adds = []
            for o, v in res:
                if v is None:
                    adds.append((o, ()))
                    continue
                if not v or v[0][0] != "havoc" or v[0][1] != h.sym:
                    raise Unsupported("list or dict replaced in a loop")
                adds.append((o, tuple(v[1:])))
            for _, a in adds:
                if self._dirty(a, syms):
                    raise Unsupported("appended value depends on a value carried by the loop")
            if not adds:
                return ()
            if all(same_value(a, adds[0][1]) for _, a in adds):
                return adds[0][1]
            if len({len(a) for _, a in adds}) == 1 and all(s[0] == "e" for _, a in adds for s in a):
                try:
                    out = []
                    for pos in range(len(adds[0][1])):
                        m = adds[0][1][pos]
                        for o, a in adds[1:]:
                            m = ("e",) + tuple(self.merge_values(land(*o.dec), x, y, stamp) for x, y in zip(a[pos][1:], m[1:]))
                        out.append(m)
                    return tuple(out)
                except Unsupported:
                    pass
            if h.mode == "dict":
                raise Unsupported("conditional dictionary writes in a loop")
            return tuple(("g", land(*o.dec), a) for o, a in adds if a)
        if h.mode == "arr":
            ws = []
            for o, v in res:
                if v is None:
                    ws.append((o, []))
                elif v[1] is None or v[2]:
                    raise Unsupported("array replaced in a loop")
                else:
                    ws.append((o, v[1]))
            if not ws:
                return []
            out = list(ws[0][1])
            for o, w in ws[1:]:
                if len(w) != len(out) or not all(same_value(a[0], b[0]) for a, b in zip(w, out)):
                    raise Unsupported("conditional array writes in a loop")
                out = [(i, ite(land(*o.dec), a[1], v)) for (i, v), a in zip(out, w)]
            if any(self._dirty(x, syms) for x in out):
                raise Unsupported("written value depends on a value carried by the loop")
            return out

    def _dirty(self, v, syms):
        if isinstance(v, T):
            return self._bad(v, syms)
        if isinstance(v, (tuple, list)):
            if len(v) and v[0] == "havoc":
                return True
            return any(self._dirty(a, syms) for a in v)
        if isinstance(v, Poison):
            return True
        if isinstance(v, ArrVal):
            return self._bad(v.f(*[fresh("p", "I") for _ in v.shape]), syms)
        if isinstance(v, (ListVal, DictVal)):
            return self._dirty(tuple(v.segs), syms)
        if isinstance(v, ObjVal):
            return any(self._dirty(a, syms) for a in v.attrs.values() if not isinstance(a, ObjVal))
        return False

    def merge_values(self, c, a, b, stamp=None):
        """a if c, else b; objects only if both were created after the stamp, in one iteration of a loop"""
        if same_value(a, b):
            return a
        if isinstance(a, (int, T)) and isinstance(b, (int, T)):
            return ite(c, lift(a), lift(b))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_values(c, x, y, stamp) for x, y in zip(a, b))
        if isinstance(a, ArrVal) and isinstance(b, ArrVal) and len(a.shape) == len(b.shape) and all(x is y for x, y in zip(a.shape, b.shape)):
            return ArrVal(a.shape, lambda *i: ite(c, a.f(*i), b.f(*i)))
        if isinstance(a, ListVal) and isinstance(b, ListVal):
            x, y = a.concrete(), b.concrete()
            if x is not None and y is not None and len(x) == len(y):
                return ListVal.of([self.merge_values(c, p, q, stamp) for p, q in zip(x, y)], a.kind)
        if isinstance(a, ObjVal) and isinstance(b, ObjVal) and a.cls is b.cls and set(a.attrs) == set(b.attrs) and stamp is not None and min(a.ser, b.ser) > stamp:
            r = ObjVal(a.cls)
            r.attrs = {n: self.merge_values(c, v, b.attrs[n], stamp) for n, v in a.attrs.items()}
            return r
        raise Unsupported("cannot merge values of two paths")

    def _leave(self, hav, closed, tm, k, idx):
        """install the state before iteration idx"""
        todo = []
        for key, h in hav.items():
            if h.mode == "num":
                todo.append((self._write_loc, key, h.obj, closed[key](idx)))
            elif h.mode == "arrnum":
                todo.append((self._write_loc, key, h.obj, self._closed_arr(closed[key], h, idx)))
            elif h.mode == "poison":
                todo.append((self._write_loc, key, h.obj, Poison(key[2])))
            elif h.mode == "list":
                segs = list(h.init)
                t = tm[key]
                if len(t) == 1 and t[0][0] == "e":
                    segs.append(("r", idx, k, t[0][1]))
                elif t:
                    segs.append(("b", idx, k, t))
                todo.append((self.set_segs, h.obj, segs))
            elif h.mode == "dict":
                segs = list(h.init)
                t = tm[key]
                if len(t) > 1 or (t and t[0][0] != "e"):
                    raise Unsupported("several dictionary writes per iteration")
                if t:
                    i1, i2 = fresh("i", "I"), fresh("i", "I")
                    ka, kb = vsubst(t[0][1], {k: i1}), vsubst(t[0][1], {k: i2})
                    same = self.models.key_eq(ka, kb)
                    if self.prover.feasible(self.pc + [le(iconst(0), i1), lt(i1, i2), lt(i2, idx)], same):
                        raise Unsupported("dictionary keys of different iterations may coincide")
                    for s in h.init:
                        ks = s[1] if s[0] == "e" else vsubst(s[3], {s[2]: i2})
                        rng = [] if s[0] == "e" else [le(iconst(0), i2), lt(i2, s[1])]
                        if self.prover.feasible(self.pc + rng + [le(iconst(0), i1), lt(i1, idx)], self.models.key_eq(ka, ks)):
                            raise Unsupported("dictionary key may already exist")
                    segs.append(("r", idx, k, t[0][1], t[0][2]))
                todo.append((self.set_segs, h.obj, segs))
            elif h.mode == "arr":
                f = h.init
                for (ix, val) in tm[key]:
                    f = self._written(f, ix, val, k, idx, h.obj)
                todo.append((self.set_arr, h.obj, f, True))
        for t in todo:
            t[0](*t[1:])

    def _written(self, f0, ix, val, k, idx, arr):
        """array after writing val[k] at ix[k] for k < idx; one index is k + constant, the others fixed"""
        pos = [p for p, i in enumerate(ix) if k in free_vars(i)]
        if len(pos) != 1:
            raise Unsupported("array write pattern in a loop")
        p = pos[0]
        nf = self.prover.normer(self.pc)
        off = nf.canon(sub(ix[p], k))
        if k in free_vars(off):
            raise Unsupported("array write pattern in a loop")
        from .norm import unreal
        off = unreal(off) if off.sort == "R" else off

        def f(*i):
            kk = sub(i[p], off)
            c = [le(iconst(0), kk), lt(kk, idx)] + [eq(a, b) for q, (a, b) in enumerate(zip(i, ix)) if q != p]
            return ite(land(*c), subst(val, {k: kk}), f0(*i))

        return f


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
