"""Symbolic interpreter for the Python subset used by the code under verification.

The input is the AST of the *current* files of the repository.  Path exploration is by re-execution
with recorded decisions; loops over unbounded sequences are replaced by inferred inductive summaries
(`loop_run`), whose inductive step is itself an obligation.
"""
import ast
import os
from .terms import *
from .values import *
from .logic import Prover, Stats
from .loops import Loops
from .exprs import Exprs, walk_no_nested

MAX_PATHS = 400
MAX_UNROLL = 400


class Obligation:
    def __init__(self, label, kind, facts, goal, where):
        self.label, self.kind, self.facts, self.goal, self.where = label, kind, facts, goal, where


class Outcome:
    pass


class Interp(Loops, Exprs):
    def __init__(self, roots, prover=None, consts=None, specs=None):
        self.roots = roots              # {package prefix: directory}
        self.prover = prover or Prover()
        self.modules = {}
        self.folders = []               # assumed data files: (directory, ending, number -> TextFile)
        self.consts = consts or {}
        self.specs = specs or {}        # qualified function name -> contract used at call sites
        self.spec_used = set()
        self.functions_seen = {}        # (file, qualname) -> lines: functions of /repo executed symbolically
        self.assumed = set()            # names of external contracts used
        self.deriv_seeds = {}
        from . import models
        self.models = models.Models(self)
        self.reset()

    # ------------------------------------------------------------------ state
    def reset(self):
        self.pc = []
        self.obligations = []
        self.prefix, self.pos, self.pending = [], 0, []
        self.journal = None
        self.warnings = []
        self.root_failed = False
        self.depth = 0
        self.line = None
        self.loop_depth = 0
        self.dec = []
        self.index_ctx = []
        self.path_id = -1
        self.wit_count = getattr(self, "wit_count", 0)

    def fact(self, t):
        if t.op == "false":
            raise PathEnd()
        if t.op == "and":
            for a in t.args:
                self.fact(a)
            return
        if t.op != "true" and t not in self.pc:
            self.pc.append(t)

    def oblige(self, label, goal, kind="post"):
        if goal.op == "true" and kind == "def":
            return
        self.obligations.append(self.mk_obligation(label, goal, kind))

    def mk_obligation(self, label, goal, kind):
        return Obligation(label, kind, list(self.pc), goal, self.line)

    def defined(self, cond, what):
        """a definedness condition of the source: obligation, then known"""
        if cond.op == "true":
            return
        if cond in self.pc:
            return
        self.oblige("defined: %s at %s" % (what, self.line), cond, "def")
        if cond.op == "false":
            raise Unsupported("definitely undefined: %s at %s" % (what, self.line))
        self.fact(cond)

    def branch(self, cond):
        """decide a symbolic condition, forking if both outcomes are possible"""
        if isinstance(cond, bool):
            return cond
        n = self.prover.normer(self.pc)
        c = n.canon_bool(cond) if cond.op in ("<", "<=", "=") else cond
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        if cond in self.pc:
            return True
        if lnot(cond) in self.pc:
            return False
        if not self.prover.feasible(self.pc, cond):
            self.fact(lnot(cond))
            return False
        if not self.prover.feasible(self.pc, lnot(cond)):
            self.fact(cond)
            return True
        return self.decide_fork(cond)

    def decide_fork(self, cond=None):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = True
            self.pending.append(self.prefix[: self.pos] + [False])
            self.prefix = self.prefix[: self.pos] + [True]
        self.pos += 1
        if cond is not None:
            self.dec.append(cond if d else lnot(cond))
            self.fact(cond if d else lnot(cond))
        return d

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, T):
            if v.sort == "B":
                return self.branch(v)
            return self.branch(lnot(eq(v, rconst(0) if v.sort == "R" else iconst(0))))
        if v is None:
            return False
        if isinstance(v, str):
            return v != ""
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, ListVal):
            n = v.length()
            return n != 0 if isinstance(n, int) else self.branch(lt(iconst(0), n))
        if isinstance(v, DictVal):
            n = self.models.b_len([v], {})
            return n != 0 if isinstance(n, int) else self.branch(lt(iconst(0), n))
        if isinstance(v, ArrVal):
            n = v.shape[0]
            if self.branch(eq(n, iconst(1))):
                return self.truth(self._scalar_truth(v.at(0)))
            raise PyRaise("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, (ObjVal, Opaque)):
            for m in ("__bool__", "__len__"):
                f, _ = v.cls.lookup(m) if v.cls else (None, None)
                if f is not None:
                    return self.truth(self.call(Bound(v, f), [], {}))
            return True
        if isinstance(v, (FuncVal, Builtin, ClassVal, Bound, UFn, ExtModule, TypeVal)):
            return True
        if isinstance(v, Rope):
            return self.truth(self.models.rope_nonempty(v))
        raise Unsupported("truth value of %r" % (v,))

    def _scalar_truth(self, t):
        return t

    # ------------------------------------------------------------------ mutation (journalled)
    def _log(self, key, obj, undo):
        if self.journal is not None:
            self.journal.append((key, obj, undo))

    def set_var(self, frame, name, val):
        loc = frame.locals
        had = name in loc
        old = loc.get(name)
        self._log(("var", id(frame), name), frame, (lambda: loc.__setitem__(name, old)) if had else (lambda: loc.pop(name, None)))
        loc[name] = val

    def set_attr(self, obj, name, val):
        d = obj.attrs if isinstance(obj, (ObjVal,)) else obj.ns
        had = name in d
        old = d.get(name)
        self._log(("attr", id(obj), name), obj, (lambda: d.__setitem__(name, old)) if had else (lambda: d.pop(name, None)))
        d[name] = val

    def set_segs(self, lst, segs):
        old = lst.segs
        self._log(("segs", id(lst), ""), lst, lambda: setattr(lst, "segs", old))
        lst.segs = segs

    def set_arr(self, arr, f, whole=True):
        if arr.frozen:
            raise Unsupported("write to an array that is or has a view")
        old = (arr._f, arr.uniq_of, arr.writes, arr.whole)

        def undo():
            arr.f, arr.uniq_of, arr.writes, arr.whole = old
        self._log(("arr", id(arr), ""), arr, undo)
        arr.f = f
        arr.uniq_of = None
        if whole:
            arr.whole = self.path_id

    def witness(self, prefix, sort="R"):
        """a value known only through facts; inside a loop body it is a function of the loop indices"""
        self.wit_count += 1
        return app("wit:%s%d" % (prefix, self.wit_count), *self.index_ctx, sort=sort)

    def warn(self, item):
        self.set_warnings(self.warnings + [item])

    def set_warnings(self, items):
        old = list(self.warnings)
        self._log(("warn", 0, ""), None, lambda: setattr(self, "warnings", old))
        self.warnings = items

    def read_loc(self, key, obj):
        k = key[0]
        if k == "var":
            return obj.locals.get(key[2], Poison(key[2]))
        if k == "attr":
            return (obj.attrs if isinstance(obj, ObjVal) else obj.ns).get(key[2], Poison(key[2]))
        if k == "segs":
            return list(obj.segs)
        if k == "arr":
            return (obj.f, obj.writes, obj.whole == self.path_id)
        if k == "warn":
            return list(self.warnings)

    def explore(self, fn, limit=64):
        """all decision paths of fn from the current state; effects on existing objects are rolled back"""
        saved = (self.prefix, self.pos, self.pending, self.journal, list(self.pc), self.obligations, self.dec, self.path_id)
        base_pc = set(self.pc)
        base = list(self.pc)
        stamp = now()
        outs = []
        work = [[]]
        try:
            while work:
                if len(outs) > limit:
                    raise Unsupported("too many paths in a loop body")
                self.prefix, self.pos, self.pending = work.pop(), 0, []
                self.journal = []
                self.path_id = now()
                self.pc = list(base)
                self.obligations = []
                self.dec = []
                o = Outcome()
                o.value = None
                dead = False
                try:
                    try:
                        o.value = fn()
                        o.kind = "normal"
                    except ReturnEx as e:
                        o.kind, o.value = "return", e.value
                    except BreakEx:
                        o.kind = "break"
                    except ContinueEx:
                        o.kind = "normal"
                    except PyRaise as e:
                        o.kind, o.value = "raise", e
                    except PathEnd:
                        dead = True
                    o.pc = [p for p in self.pc if p not in base_pc]
                    o.dec = list(self.dec)
                    o.obligations = self.obligations
                    o.effects = {}
                    for key, obj, undo in self.journal:
                        if obj is None or obj.ser < stamp:
                            o.effects[key] = (obj, self.read_loc(key, obj))
                finally:
                    for key, obj, undo in reversed(self.journal):
                        if obj is None or obj.ser < stamp:
                            undo()
                if not dead:
                    outs.append(o)
                work.extend(self.pending)
        finally:
            inner = self.journal
            self.prefix, self.pos, self.pending, self.journal, self.pc, self.obligations, self.dec, self.path_id = saved
        return outs

    # ------------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.find(name)
        if path is None:
            raise Unsupported("module %s not found" % name)
        m = Module(name, path)
        self.modules[name] = m
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        m.tree = tree
        fr = Frame(m)
        fr.locals = m.ns
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        m.frame = fr
        for st in tree.body:
            self.exec_toplevel(st, m, fr)
        return m

    def load_turn(self, name, z):
        """the module after its top-level loops, seen for one arbitrary turn z of each

        The body is executed once, for the loop variable z, on dictionaries with unknown earlier
        entries.  Afterwards the loop variable is any value of the range (the loop went on), and other
        names bound by the body are not available.  Sound because the turns share nothing else: only
        entries of module-level dictionaries may be stored."""
        m = Module(name, self.find(name))
        with open(m.path) as f:
            m.tree = ast.parse(f.read(), m.path)
        fr = m.frame = Frame(m)
        fr.locals = m.ns
        m.ns["__name__"], m.ns["__file__"] = name, m.path
        old, self.modules[name] = self.modules.get(name), m
        try:
            for st in m.tree.body:
                if isinstance(st, ast.For):
                    self.turn(st, m, fr, z)
                else:
                    self.exec_toplevel(st, m, fr)
        finally:
            if old is None:
                del self.modules[name]
            else:
                self.modules[name] = old
        return m

    def turn(self, st, m, fr, z):
        if not isinstance(st.target, ast.Name) or st.orelse:
            raise Unsupported("module-level loop")
        values = [s[1] if s[0] == "e" else None for s in self.iterate(self.eval(st.iter, fr))]
        if not values or not all(isinstance(x, int) for x in values) or values != list(range(values[0], values[0] + len(values))):
            raise Unsupported("module-level loop over something else than a range")
        bound = {n.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for b in st.body:
            if not isinstance(b, ast.Assign) or not all(isinstance(t, (ast.Name, ast.Tuple)) or isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) for t in b.targets):
                raise Unsupported("statement in a module-level loop")
            for t in b.targets:
                if isinstance(t, ast.Subscript):
                    d = fr.locals.get(t.value.id)
                    if not isinstance(d, DictVal):
                        raise Unsupported("store in a module-level loop")
                    if not d.segs:
                        d.segs = [("havoc", "turn:" + t.value.id)]
        for n in bound:
            fr.locals[n] = Unavailable("%s.%s" % (m.name, n))
        lo, hi = iconst(values[0]), iconst(values[-1])
        self.line = "%s:%d" % (os.path.basename(m.path), st.lineno)
        self.defined(land(le(lo, z), le(z, hi)), "the loop covers the number")
        fr.locals[st.target.id] = z
        self.exec_block(st.body, fr)
        for n in bound:
            fr.locals[n] = Unavailable("%s.%s" % (m.name, n))
        other = self.witness("turn", "I")
        self.fact(land(le(lo, other), le(other, hi)))
        fr.locals[st.target.id] = other

    def find(self, name):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split("."))
        for p in (base + ".py", os.path.join(base, "__init__.py")):
            if os.path.isfile(p):
                return p
        if os.path.isdir(base):
            return None
        return None

    def exec_toplevel(self, st, m, fr):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            return
        simple = isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Assign, ast.AnnAssign, ast.If, ast.AugAssign))
        saved = (self.pc, self.obligations, self.prefix, self.pos, self.pending, self.journal, self.line)
        try:
            if not simple:
                raise Unsupported("module-level %s" % type(st).__name__)
            self.pc, self.obligations, self.pending, self.journal = [], [], [], None
            self.exec(st, fr)
            if self.pending:
                raise Unsupported("module-level branch")
        except (Unsupported, PyRaise) as e:
            names = sorted({n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                names = [st.name]
            m.dropped.append((st.lineno, names, str(e)))
            for n in names:
                fr.locals[n] = Unavailable("%s.%s" % (m.name, n))
        finally:
            self.pc, self.obligations, self.prefix, self.pos, self.pending, self.journal, self.line = saved

    def import_module(self, name):
        top = name.split(".")[0]
        if top in self.roots:
            p = self.find(name)
            if p is None and os.path.isdir(os.path.join(self.roots[top], *name.split("."))):
                return ExtModule(name)
            return self.load(name)
        return ExtModule(name)

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        self.line = "%s:%d" % (os.path.basename(fr.module.path), st.lineno)
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s at %s" % (type(st).__name__, self.line))
        m(st, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(st.value, fr)
            return
        self.eval(st.value, fr)

    def do_yield(self, e, fr):
        f = fr
        while f.yields is None and f.parent is not None:
            f = f.parent
        if f.yields is None:
            raise Unsupported("yield outside of a generator")
        if isinstance(e, ast.YieldFrom):
            seq = self.iterate(self.eval(e.value, fr))
            self.set_segs(f.yields, f.yields.segs + seq)
        else:
            v = self.eval(e.value, fr) if e.value is not None else None
            self.set_segs(f.yields, f.yields.segs + [("e", v)])

    def s_Return(self, st, fr):
        raise ReturnEx(self.eval(st.value, fr) if st.value is not None else None)

    def s_Break(self, st, fr):
        raise BreakEx()

    def s_Continue(self, st, fr):
        raise ContinueEx()

    def s_Global(self, st, fr):
        raise Unsupported("global statement")

    def s_Nonlocal(self, st, fr):
        f = fr.parent
        fr.nonlocals = getattr(fr, "nonlocals", {})
        for n in st.names:
            g = f
            while g is not None and n not in g.locals:
                g = g.parent
            if g is None:
                raise Unsupported("nonlocal")
            fr.nonlocals[n] = g

    def s_Import(self, st, fr):
        for a in st.names:
            if a.asname:
                self.set_var(fr, a.asname, self.import_module(a.name))
            else:
                top = a.name.split(".")[0]
                if top in self.roots:
                    raise Unsupported("plain import of a repository package")
                self.set_var(fr, top, ExtModule(top))

    def s_ImportFrom(self, st, fr):
        name = st.module or ""
        if st.level:
            pkg = fr.module.name.split(".")
            base = pkg[: len(pkg) - st.level + (1 if fr.module.path.endswith("__init__.py") else 0)]
            name = ".".join(base + ([st.module] if st.module else []))
        mod = self.import_module(name)
        for a in st.names:
            if a.name == "*":
                raise Unsupported("import *")
            if isinstance(mod, Module):
                if a.name in mod.ns:
                    v = mod.ns[a.name]
                else:
                    v = self.import_module(name + "." + a.name)
            else:
                if name.split(".")[0] in self.roots:
                    v = self.import_module(name + "." + a.name)
                else:
                    v = self.models.ext_attr(mod, a.name)
            self.set_var(fr, a.asname or a.name, v)

    def s_FunctionDef(self, st, fr):
        f = self.make_func(st, fr, st.name)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.eval(d, fr)
            if isinstance(dv, TypeVal) and dv.name == "staticmethod":
                v = StaticVal(v)
            elif isinstance(dv, TypeVal) and dv.name == "classmethod":
                v = ClassMethodVal(v)
            elif isinstance(dv, TypeVal) and dv.name == "property":
                v = PropertyVal(v)
            else:
                v = self.call(dv, [v], {})
        self.set_var(fr, st.name, v)

    def make_func(self, node, fr, name):
        f = FuncVal(node, fr, fr.module, name)
        a = node.args
        f.defaults = [self.eval(d, fr) for d in a.defaults]
        f.kwdefaults = {k.arg: self.eval(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if not isinstance(node, ast.Lambda):
            for n in walk_no_nested(node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    f.is_gen = True
        return f

    def s_ClassDef(self, st, fr):
        bases = [self.eval(b, fr) for b in st.bases]
        if st.decorator_list or st.keywords:
            raise Unsupported("class decorator or keyword at %s" % self.line)
        cf = Frame(fr.module, fr)
        cls = ClassVal(st.name, bases, cf.locals, fr.module)
        cf.is_class = True
        for s in st.body:
            self.exec(s, cf)
        for k, v in cf.locals.items():
            f = v.fn if isinstance(v, (StaticVal, ClassMethodVal, PropertyVal)) else v
            if isinstance(f, FuncVal) and f.cls is None:
                f.cls = cls
                f.frame = fr if f.frame is cf else f.frame
        self.set_var(fr, st.name, cls)

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        rhs = self.eval(st.value, fr)
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            if isinstance(cur, ListVal) and isinstance(st.op, ast.Add):
                self.set_segs(cur, cur.segs + self.iterate(rhs))
                self.assign(t, cur, fr)
                return
            if isinstance(cur, ArrVal):
                new = self.binop(st.op, cur, rhs)
                if isinstance(new, ArrVal) and len(new.shape) == len(cur.shape):
                    # in-place update of a numpy array object
                    self.set_arr(cur, new.snap())
                    self.assign(t, cur, fr)
                    return
                raise Unsupported("in-place array operation")
            self.assign(t, self.binop(st.op, cur, rhs), fr)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, fr)
            cur = self.getattr(obj, t.attr)
            if isinstance(cur, ListVal) and isinstance(st.op, ast.Add):
                self.set_segs(cur, cur.segs + self.iterate(rhs))
                return
            if isinstance(cur, ArrVal):
                new = self.binop(st.op, cur, rhs)
                self.set_arr(cur, new.snap())
                return
            self.setattr(obj, t.attr, self.binop(st.op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, fr)
            idx = self.eval_index(t.slice, fr)
            cur = self.models.getitem(obj, idx)
            self.models.setitem(obj, idx, self.binop(st.op, cur, rhs))
        else:
            raise Unsupported("augmented assignment")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            nl = getattr(fr, "nonlocals", {})
            self.set_var(nl.get(t.id, fr), t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                rest = len(t.elts) - k - 1
                mid = vals[k: len(vals) - rest]
                for e, x in zip(t.elts[:k], vals[:k]):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, ListVal.of(mid), fr)
                for e, x in zip(t.elts[k + 1:], vals[len(vals) - rest:]):
                    self.assign(e, x, fr)
            else:
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, fr)
            self.models.setitem(obj, self.eval_index(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, star=False):
        if isinstance(v, ArrVal):
            k = v.shape[0]
            if not is_const(k):
                self.defined(eq(k, iconst(n)), "unpacking %d values" % n)
                k = iconst(n)
            v = tuple(self.models.getitem(v, i) for i in range(int(cval(k))))
        if isinstance(v, str):
            v = tuple(v)
        if not isinstance(v, tuple):
            seq = self.iterate(v)
            if not all(s[0] == "e" for s in seq):
                raise Unsupported("unpacking of an unbounded sequence")
            v = tuple(s[1] for s in seq)
        if not star and len(v) != n:
            raise PyRaise("ValueError", "unpack")
        return v

    def s_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            raise PyRaise("AssertionError")

    def s_Raise(self, st, fr):
        if st.exc is None:
            raise PyRaise(getattr(fr, "handling", "RuntimeError"))
        e = self.eval(st.exc, fr)
        if isinstance(e, TypeVal):
            raise PyRaise(e.name)
        if isinstance(e, PyRaise):
            raise e
        if isinstance(e, ClassVal):
            raise PyRaise(e.name)
        if isinstance(e, ObjVal):
            raise PyRaise(e.cls.name, e)
        raise Unsupported("raise of %r" % (e,))

    def s_Try(self, st, fr):
        try:
            try:
                self.exec_block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e, self.eval(h.type, fr)):
                        if h.name:
                            self.set_var(fr, h.name, e)
                        fr.handling = e.name
                        self.exec_block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, fr)
        finally:
            import sys
            ex = sys.exc_info()[0]
            if ex is None or issubclass(ex, (PyRaise, ReturnEx, BreakEx, ContinueEx)):
                self.exec_block(st.finalbody, fr)

    EXC = {"ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
           "LookupError": "Exception", "ValueError": "Exception", "TypeError": "Exception", "RuntimeError": "Exception",
           "NotImplementedError": "RuntimeError", "AttributeError": "Exception", "AssertionError": "Exception", "OverflowError": "ArithmeticError",
           "StopIteration": "Exception", "Exception": "BaseException", "UserWarning": "Warning", "Warning": "Exception", "OSError": "Exception",
           "FileNotFoundError": "OSError", "UnboundLocalError": "NameError", "NameError": "Exception"}

    def exc_match(self, e, typ):
        if isinstance(typ, tuple):
            return any(self.exc_match(e, t) for t in typ)
        name = typ.name
        n = e.name
        while n:
            if n == name:
                return True
            n = self.EXC.get(n)
        return False

    def s_With(self, st, fr):
        exits = []
        for it in st.items:
            cm = self.eval(it.context_expr, fr)
            val, ex = self.models.enter(cm)
            exits.append(ex)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, fr)
        try:
            self.exec_block(st.body, fr)
        finally:
            for ex in reversed(exits):
                if ex:
                    ex()

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.set_var(fr, t.id, Poison(t.id))
            else:
                raise Unsupported("del")
