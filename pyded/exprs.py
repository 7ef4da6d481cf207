"""Expressions, attributes, calls."""
import ast
import os
from fractions import Fraction
from .terms import *
from .values import *
from .helpers import same_value


def walk_no_nested(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                stack.append(c)


class Exprs:
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (type(e).__name__, self.line))
        if hasattr(e, "lineno") and fr.module is not None and not getattr(fr, "no_lines", False):
            self.line = "%s:%d" % (os.path.basename(fr.module.path), e.lineno)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return self.models.inf(v)
            seg = self.literal_text(e, fr)
            return rconst(Fraction(seg)) if seg is not None else real_lit(v)
        if v is None or isinstance(v, (bool, int, str)):
            return v
        if v is Ellipsis:
            return v
        raise Unsupported("constant %r" % (v,))

    def literal_text(self, e, fr):
        return None

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def lookup(self, name, fr):
        f = fr
        nl = getattr(fr, "nonlocals", None)
        if nl and name in nl:
            return self._got(nl[name].locals[name], name)
        first = True
        while f is not None:
            if name in f.locals and (first or not getattr(f, "is_class", False)):
                return self._got(f.locals[name], name)
            if first and f.func is not None and name in self.local_names(f.func):
                raise PyRaise("UnboundLocalError", name)
            first = False
            f = f.parent
        ns = fr.module.ns
        if name in ns:
            return self._got(ns[name], name)
        return self.models.builtin(name)

    def local_names(self, func):
        r = getattr(func, "_locals", None)
        if r is None:
            r = set()
            if not isinstance(func.node, ast.Lambda):
                glob = set()
                for n in walk_no_nested(func.node):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        r.add(n.id)
                    if isinstance(n, (ast.Global, ast.Nonlocal)):
                        glob.update(n.names)
                    if isinstance(n, ast.comprehension):
                        pass
                comp = set()
                for n in walk_no_nested(func.node):
                    if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                        for g in n.generators:
                            for t in ast.walk(g.target):
                                if isinstance(t, ast.Name):
                                    comp.add(t.id)
                r -= glob | comp
            func._locals = r
        return r

    def _got(self, v, name):
        if isinstance(v, Unavailable):
            raise Unsupported("module-level name %s is bound by a dropped statement" % v.name)
        if isinstance(v, Poison):
            raise Unsupported("value of %s after a loop is not tracked" % v.name)
        return v

    def e_Tuple(self, e, fr):
        out = self.elts(e.elts, fr)
        return ListVal(out, "tuple") if not all(s[0] == "e" for s in out) else tuple(s[1] for s in out)

    def e_List(self, e, fr):
        return ListVal(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return SetVal(ListVal(self.elts(e.elts, fr)))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, fr)))
            else:
                out.append(("e", self.eval(x, fr)))
        return out

    def e_Dict(self, e, fr):
        d = DictVal()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.dict_update(d, self.eval(v, fr))
            else:
                kv = self.eval(k, fr)
                self.models.dict_set(d, kv, self.eval(v, fr))
        return d

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def e_IfExp(self, e, fr):
        return self.eval(e.body, fr) if self.truth(self.eval(e.test, fr)) else self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, T) or v.sort != "B" else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, T) or v.sort != "B" else True
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, T) and v.sort == "B":
                return lnot(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return self.models.elementwise1(v, neg, "neg")
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.models.elementwise1(v, lnot, "invert")
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    OPS = {ast.Add: ("__add__", "__radd__"), ast.Sub: ("__sub__", "__rsub__"), ast.Mult: ("__mul__", "__rmul__"), ast.Div: ("__truediv__", "__rtruediv__"),
           ast.Pow: ("__pow__", "__rpow__"), ast.Mod: ("__mod__", "__rmod__"), ast.FloorDiv: ("__floordiv__", "__rfloordiv__"), ast.MatMult: ("__matmul__", "__rmatmul__"),
           ast.BitAnd: ("__and__", "__rand__"), ast.BitOr: ("__or__", "__ror__"), ast.BitXor: ("__xor__", "__rxor__"), ast.LShift: ("__lshift__", "__rlshift__"),
           ast.RShift: ("__rshift__", "__rrshift__")}

    def user(self, v, name):
        if isinstance(v, (ObjVal, Opaque)) and v.cls is not None:
            f, _ = v.cls.lookup(name)
            return f
        return None

    def binop(self, op, a, b):
        n1, n2 = self.OPS[type(op)]
        ua, ub = isinstance(a, (ObjVal, Opaque)), isinstance(b, (ObjVal, Opaque))
        if ua or ub:
            f, g = self.user(a, n1), self.user(b, n2)
            first = not (ub and ua and g is not None and b.cls is not a.cls and b.cls.issub(a.cls) and b.cls.lookup(n2)[1] is not a.cls.lookup(n2)[1])
            order = [(a, f, b), (b, g, a)] if first else [(b, g, a), (a, f, b)]
            for s, m, o in order:
                if m is not None:
                    r = self.call(Bound(s, m), [o], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(a, ArrVal) or isinstance(b, ArrVal):
                raise Unsupported("array with object operand")
            raise PyRaise("TypeError", "operands")
        return self.models.binop(type(op).__name__, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        if len(e.ops) == 1:
            return self.compare(e.ops[0], left, self.eval(e.comparators[0], fr))
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            c = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                return c
            if not self.truth(c):
                return False
            left = right

    def compare(self, op, a, b):
        name = type(op).__name__
        if name in ("Is", "IsNot"):
            r = self.models.identical(a, b)
            return r if name == "Is" else (not r if isinstance(r, bool) else lnot(r))
        if name in ("In", "NotIn"):
            r = self.models.contains(b, a)
            return r if name == "In" else (not r if isinstance(r, bool) else lnot(r))
        dunder = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[name]
        f = self.user(a, dunder)
        if f is not None:
            return self.call(Bound(a, f), [b], {})
        return self.models.compare(name, a, b)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        obj = self.eval(e.value, fr)
        idx = self.eval_index(e.slice, fr)
        f = self.user(obj, "__getitem__")
        if f is not None:
            return self.call(Bound(obj, f), [idx], {})
        return self.models.getitem(obj, idx)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Slice(self, s, fr):
        return self.eval_index(s, fr)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                spec = ""
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, fr)
                    if not isinstance(spec, str):
                        raise Unsupported("symbolic format specification")
                if v.conversion not in (-1,):
                    raise Unsupported("f-string conversion")
                parts.append(self.models.format_value(self.eval(v.value, fr), spec))
        return self.models.text(parts)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    def e_GeneratorExp(self, e, fr):
        r = self.comp(e, fr)
        r.kind = "gen"
        return r

    def e_SetComp(self, e, fr):
        return SetVal(self.comp(e, fr))

    def e_DictComp(self, e, fr):
        acc = DictVal()
        cf = self.comp_frame(fr)
        self.comp_gen(e.generators, cf, lambda: self.models.dict_set(acc, self.eval(e.key, cf), self.eval(e.value, cf)))
        return acc

    def comp_frame(self, fr):
        cf = Frame(fr.module, fr)
        return cf

    def comp(self, e, fr):
        acc = ListVal()
        cf = self.comp_frame(fr)

        def add():
            v = self.eval(e.elt, cf)
            self.set_segs(acc, acc.segs + [("e", v)])

        self.comp_gen(e.generators, cf, add)
        return acc

    def comp_gen(self, gens, cf, leaf):
        if not gens:
            leaf()
            return
        g = gens[0]
        from .loops import target_names

        def step(v):
            self.assign(g.target, v, cf)
            for c in g.ifs:
                if not self.truth(self.eval(c, cf)):
                    return
            self.comp_gen(gens[1:], cf, leaf)

        self.run_segs(self.iterate(self.eval(g.iter, cf)), step, cf, target_names(g.target))

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        """segments of an iterable"""
        if isinstance(v, ListVal):
            if v.kind == "iter":
                segs = v.segs
                self.set_segs(v, [])
                return list(segs)
            return list(v.segs)
        if isinstance(v, tuple):
            return [("e", x) for x in v]
        if isinstance(v, str):
            return [("e", x) for x in v]
        if isinstance(v, ArrVal):
            x = fresh("x", "I")
            if is_const(v.shape[0]) and cval(v.shape[0]) <= 64:
                return [("e", self.models.row(v, iconst(i))) for i in range(int(cval(v.shape[0])))]
            return [("r", v.shape[0], x, self.models.row(v, x))]
        if isinstance(v, DictVal):
            return self.models.dict_keys(v)
        if isinstance(v, SetVal):
            return self.models.set_iter(v)
        if isinstance(v, (ObjVal, Opaque)):
            f = self.user(v, "__iter__")
            if f is not None:
                return self.iterate(self.call(Bound(v, f), [], {}))
        if isinstance(v, (int, T)) or v is None:
            raise PyRaise("TypeError", "not iterable")
        if hasattr(v, "iterate_segs"):
            return v.iterate_segs(self)
        raise Unsupported("iteration over %r" % (v,))

    # ------------------------------------------------------------------ attributes
    def getattr(self, obj, name):
        if isinstance(obj, ObjVal):
            f, c = obj.cls.lookup(name)
            if isinstance(f, PropertyVal):
                return self.call(f.fn, [obj], {})
            if name in obj.attrs:
                return self._got(obj.attrs[name], name)
            if f is not None:
                return self.bind(obj, f)
            if name == "__class__":
                return obj.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            g, _ = obj.cls.lookup("__getattr__")
            if g is not None:
                return self.call(Bound(obj, g), [name], {})
            if any(not isinstance(b, ClassVal) for c in obj.cls.mro() for b in c.bases if not (isinstance(b, TypeVal) and b.name == "object")):
                raise Unsupported("attribute of an external base class")
            raise PyRaise("AttributeError", name)
        if isinstance(obj, Opaque):
            if name in obj.attrs:
                return obj.attrs[name]
            if name in obj.methods:
                m = obj.methods[name]
                return Builtin(name, lambda a, k: m(obj, a, k))
            if obj.cls is not None:
                f, c = obj.cls.lookup(name)
                if name == "__call__":
                    return Builtin("__call__", lambda a, k: obj.call_fn(obj, a, k))
                if f is not None:
                    return self.bind(obj, f)
            raise Unsupported("attribute %s of an abstract object" % name)
        if isinstance(obj, ClassVal):
            f, c = obj.lookup(name)
            if f is not None:
                if isinstance(f, StaticVal):
                    return f.fn
                if isinstance(f, ClassMethodVal):
                    return Bound(obj, f.fn)
                return f
            if name == "__name__":
                return obj.name
            if name == "__init__":
                return Builtin("object.__init__", lambda a, k: None)
            raise PyRaise("AttributeError", name)
        if isinstance(obj, SuperVal):
            mro = obj.obj.cls.mro() if isinstance(obj.obj, (ObjVal, Opaque)) else obj.obj.mro()
            i = mro.index(obj.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bind(obj.obj, c.ns[name])
            if name == "__init__":
                return Builtin("object.__init__", lambda a, k: None)
            raise PyRaise("AttributeError", name)
        if isinstance(obj, Module):
            if name in obj.ns:
                return self._got(obj.ns[name], name)
            raise PyRaise("AttributeError", name)
        return self.models.getattr(obj, name)

    def bind(self, obj, f):
        if isinstance(f, (FuncVal, Builtin)):
            return Bound(obj, f)
        if isinstance(f, StaticVal):
            return f.fn
        if isinstance(f, ClassMethodVal):
            return Bound(obj.cls, f.fn)
        if isinstance(f, PropertyVal):
            return self.call(f.fn, [obj], {})
        return f

    def setattr(self, obj, name, v):
        if isinstance(obj, ObjVal):
            f, c = obj.cls.lookup(name)
            if isinstance(f, PropertyVal):
                raise PyRaise("AttributeError", name)
            if self.user(obj, "__setattr__") is not None:
                raise Unsupported("__setattr__")
            self.set_attr(obj, name, v)
        elif isinstance(obj, ClassVal):
            self.set_attr(obj, name, v)
        elif isinstance(obj, Module):
            raise Unsupported("module attribute assignment")
        else:
            raise Unsupported("attribute assignment on %r" % (obj,))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and (f.func is None or f.func.cls is None):
                f = f.parent
            if f is None:
                raise Unsupported("super() outside of a method")
            a = f.func.node.args
            return SuperVal(f.func.cls, f.locals[(a.posonlyargs + a.args)[0].arg])
        fn = self.eval(e.func, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                segs = self.iterate(self.eval(x.value, fr))
                if all(s[0] == "e" for s in segs):
                    args.extend(s[1] for s in segs)
                else:
                    args.append(StarArg(ListVal(segs)))
            else:
                args.append(self.eval(x, fr))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                for s in self.models.dict_items(v):
                    if s[0] != "e" or not isinstance(s[1][0], str):
                        raise Unsupported("** with symbolic keys")
                    kw[s[1][0]] = s[1][1]
            else:
                kw[k.arg] = v
        if isinstance(fn, Builtin) and fn.name in ("eval", "locals", "vars", "globals"):
            return self.do_eval(fn.name, args, fr)
        line = self.line
        r = self.call(fn, args, kw)
        self.line = line
        return r

    def do_eval(self, name, args, fr):
        if name != "eval" or len(args) != 1 or not isinstance(args[0], str):
            raise Unsupported(name)
        node = ast.parse(args[0].strip(), mode="eval").body
        f = Frame(fr.module, fr)
        f.no_lines = True
        return self.eval(node, f)

    def call(self, fn, args, kw):
        if isinstance(fn, FuncVal):
            return self.call_func(fn, args, kw)
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.obj] + list(args), kw)
        if isinstance(fn, ClassVal):
            if any(isinstance(b, TypeVal) and b.name in self.EXC for c in fn.mro() for b in c.bases):
                self.EXC.setdefault(fn.name, next(b.name for c in fn.mro() for b in c.bases if isinstance(b, TypeVal)))
                return PyRaise(fn.name)
            new, _ = fn.lookup("__new__")
            if new is not None:
                raise Unsupported("__new__")
            for c in fn.mro():
                for b in c.bases:
                    if not isinstance(b, ClassVal) and not (isinstance(b, TypeVal) and b.name == "object"):
                        raise Unsupported("class with external base")
            o = ObjVal(fn)
            init, _ = fn.lookup("__init__")
            if init is not None:
                self.call(Bound(o, init), args, kw)
            elif args or kw:
                raise PyRaise("TypeError", "arguments")
            return o
        if isinstance(fn, (StaticVal, ClassMethodVal)):
            return self.call(fn.fn, args, kw)
        if isinstance(fn, Builtin):
            if any(isinstance(a, StarArg) for a in args) and not getattr(fn, "star_ok", False):
                raise Unsupported("unbounded * arguments to %s" % fn.name)
            return fn.fn(args, kw)
        if isinstance(fn, TypeVal):
            return self.models.construct(fn, args, kw)
        if isinstance(fn, UFn):
            return self.models.apply_ufn(fn, args)
        if isinstance(fn, Opaque):
            if fn.call_fn is None:
                raise PyRaise("TypeError", "not callable")
            return fn.call_fn(fn, args, kw)
        if isinstance(fn, ObjVal):
            f, _ = fn.cls.lookup("__call__")
            if f is None:
                raise PyRaise("TypeError", "not callable")
            return self.call(self.bind(fn, f), args, kw)
        if callable(getattr(fn, "pycall", None)):
            return fn.pycall(self, args, kw)
        if fn is None or isinstance(fn, (int, str, T, tuple, ListVal, DictVal, ArrVal)):
            raise PyRaise("TypeError", "not callable")
        raise Unsupported("call of %r" % (fn,))

    def call_func(self, fn, args, kw):
        if self.depth > 60:
            raise Unsupported("recursion")
        a = fn.node.args
        fr = Frame(fn.module, fn.frame if fn.frame is not None and (fn.frame.func is not None or fn.frame.parent is not None) else None, fn)
        loc = fr.locals
        names = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        if any(isinstance(x, StarArg) for x in args):
            if a.vararg is None or not isinstance(args[-1], StarArg) or len(args) - 1 > len(names) or any(isinstance(x, StarArg) for x in args[:-1]):
                raise Unsupported("unbounded * arguments")
            if len(args) - 1 < len(names):
                raise Unsupported("unbounded * arguments")
            loc[a.vararg.arg] = ListVal([("e", x) for x in args[len(names):-1]] + args[-1].lst.segs, "tuple")
            args = args[:len(names)]
            vararg_done = True
        else:
            vararg_done = False
        for n, v in zip(names, args):
            loc[n] = v
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise("TypeError", "too many arguments to " + fn.name)
            loc[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None and not vararg_done:
            loc[a.vararg.arg] = ()
        extra = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in loc:
                    raise PyRaise("TypeError", "multiple values for " + k)
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise("TypeError", "unexpected keyword " + k)
        if a.kwarg is not None:
            d = DictVal()
            for k, v in extra.items():
                d.segs.append(("e", k, v))
            loc[a.kwarg.arg] = d
        nd = len(fn.defaults)
        for i, n in enumerate(names):
            if n not in loc:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise("TypeError", "missing argument " + n)
                loc[n] = fn.defaults[j]
        for n in kwonly:
            if n not in loc:
                if n not in fn.kwdefaults:
                    raise PyRaise("TypeError", "missing argument " + n)
                loc[n] = fn.kwdefaults[n]
        if fn.module is not None and fn.module.name.split(".")[0] in self.roots and fn.module.path:
            q = (fn.module.name, (fn.cls.name + "." if fn.cls else "") + fn.name)
            self.functions_seen.setdefault(q, getattr(fn.node, "lineno", 0))
        self.depth += 1
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, fr)
            if fn.is_gen:
                fr.yields = ListVal([], "gen")
            try:
                self.exec_block(fn.node.body, fr)
            except ReturnEx as r:
                if fn.is_gen:
                    return fr.yields
                return r.value
            return fr.yields if fn.is_gen else None
        finally:
            self.depth -= 1


class StarArg:
    """* argument of unbounded length"""

    def __init__(self, lst):
        self.lst = lst
