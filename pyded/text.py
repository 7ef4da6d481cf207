"""Symbolic text: lines made of literal characters and tokens (numbers, symbols, padding, free text).

A token stands for an unknown string over a known alphabet.  An operation is carried out only if its
result is the same for every string the tokens can stand for; otherwise it is not supported.
"""
import string
from .terms import *
from .values import *
from .helpers import same_value

SPACE = " \t\n\r\x0b\x0c"
DIGITS = "0123456789"
FLOAT = DIGITS + ".eE+-"
LETTERS = string.ascii_letters


class TextFile:
    """a text file: its lines as list segments; stands for its name"""

    def __init__(self, segs):
        self.segs = segs

    def open(self, it):
        return FileVal(self.segs, it.loop_depth)


class FileVal:
    """an open text file"""

    def __init__(self, segs, depth):
        self.rest, self.depth, self.closed = list(segs), depth, False

    def cm_enter(self, it):
        return self

    def cm_exit(self):
        self.closed = True

    def take(self, it):
        if self.closed:
            raise PyRaise("ValueError", "closed file")
        if it.loop_depth > self.depth:
            raise Unsupported("file read inside a loop")

    def iterate_segs(self, it):
        self.take(it)
        segs, self.rest = self.rest, []
        return segs

    def readline(self, it):
        self.take(it)
        while self.rest:
            s = self.rest.pop(0)
            if s[0] == "e":
                return s[1]
            if s[0] == "g":
                if it.branch(s[1]):
                    self.rest[:0] = list(s[2])
                continue
            if s[0] == "c":
                self.rest[:0] = list(s[2] if it.branch(s[1]) else s[3])
                continue
            n, x = s[1], s[2]
            if not it.branch(lt(iconst(0), n)):
                continue
            body = (("e", s[3]),) if s[0] == "r" else tuple(s[3])
            first = list(vsubst(body, {x: iconst(0)}))
            y = fresh("x", "I")
            later = vsubst(body, {x: add(y, iconst(1))})
            tail = ("r", sub(n, iconst(1)), y, later[0][1]) if s[0] == "r" else ("b", sub(n, iconst(1)), y, later)
            self.rest[:0] = first + [tail]
        return ""

    def getattr_model(self, it, name):
        B = lambda f: Builtin("file." + name, f)
        if name == "readline":
            return B(lambda a, k: self.readline(it))
        if name == "readlines":
            return B(lambda a, k: ListVal(self.iterate_segs(it)))
        if name == "read":
            return B(lambda a, k: Lines(self.iterate_segs(it)))
        if name in ("close", "__exit__"):
            return B(lambda a, k: self.cm_exit())
        if name == "__enter__":
            return B(lambda a, k: self)
        if name == "closed":
            return self.closed
        raise Unsupported("file method " + name)


class Lines:
    """the whole text of a file"""

    def __init__(self, segs):
        self.segs = segs

    def getattr_model(self, it, name):
        md = it.models
        cut = lambda v: md.rope_call(v, "rstrip", ["\n"])

        def go(segs):
            out = []
            for s in segs:
                if s[0] == "e":
                    out.append(("e", cut(s[1])))
                elif s[0] == "r":
                    out.append(("r", s[1], s[2], cut(s[3])))
                elif s[0] == "b":
                    out.append(("b", s[1], s[2], tuple(go(s[3]))))
                else:
                    out.append((s[0], s[1]) + tuple(tuple(go(t)) for t in s[2:]))
            return out
        if name == "splitlines":
            return Builtin(name, lambda a, k: ListVal(go(self.segs)))
        raise Unsupported("method %s of the text of a file" % name)


def width(t):
    """length of a token as an integer term"""
    v = t.value
    if t.kind == "pad":
        return v
    if isinstance(v, Key):
        return app("width:%s:%s" % (t.kind, v.fam), v.idx, sort="I")
    if isinstance(v, T) and v.op == "app":
        return app("width:%s:%s" % (t.kind, v.args[0]), *v.args[1:], sort="I")
    raise Unsupported("length of %r" % (t,))


class Text:
    """operations of the interpreter on symbolic text"""

    # ------------------------------------------------------------------ occurrence
    def _possible(self, parts, i, off, p, j, used=False):
        """can p[j:] match the text starting at part i, offset off?"""
        if j == len(p):
            return True
        if i >= len(parts):
            return False
        q = parts[i]
        if isinstance(q, str):
            m = min(len(q) - off, len(p) - j)
            if q[off:off + m] != p[j:j + m]:
                return False
            return self._possible(parts, i + 1, 0, p, j + m)
        if q.chars is None:
            return True
        if p[j] in q.chars and self._possible(parts, i, 0, p, j + 1, True):
            return True
        return (used or not q.nonempty) and self._possible(parts, i + 1, 0, p, j)

    def _occurrences(self, r, p):
        """places where p can start: (part, offset, certain)"""
        out = []
        for i, q in enumerate(r.parts):
            if isinstance(q, str):
                for o in range(len(q)):
                    if q[o:o + len(p)] == p:
                        out.append((i, o, True))
                    elif self._possible(r.parts, i, o, p, 0):
                        out.append((i, o, False))
            elif q.chars is None or (p[0] in q.chars and self._possible(r.parts, i, 0, p, 0)):
                out.append((i, 0, False))
        return out

    def rope_contains(self, c, x):
        if isinstance(c, Rope) and isinstance(x, str):
            if x == "":
                return True
            occ = self._occurrences(c, x)
            if any(o[2] for o in occ):
                return True
            if not occ:
                return False
        if isinstance(c, str) and isinstance(x, Rope):
            raise Unsupported("membership of symbolic text")
        if isinstance(c, (tuple, ListVal)):
            out = [self.rope_compare("Eq", y, x) for y in (c if isinstance(c, tuple) else c.concrete() or self._bad())]
            return self.back(lor(*[lift(o) for o in out]))
        if isinstance(c, DictVal):
            return self.dict_find(c, x) is not None
        raise Unsupported("membership in symbolic text")

    def _first(self, r, p, last=False):
        """part and offset of the first (last) occurrence of p, None if there is none"""
        occ = self._occurrences(r, p)
        if not occ:
            return None
        o = occ[-1 if last else 0]
        if not o[2]:
            raise Unsupported("search in symbolic text")
        return o[:2]

    # ------------------------------------------------------------------ positions
    def rope_len(self, r, upto=None, off=0):
        k, t = 0, []
        for i, q in enumerate(r.parts if upto is None else r.parts[:upto]):
            if isinstance(q, str):
                k += len(q)
            else:
                w = width(q)
                self._width_facts(q, w)
                t.append(w)
        k += off
        if not t:
            return k
        s = iconst(k)
        for w in t:
            s = add(s, w)
        s = self.back(self._int_canon(s))
        return s

    def _width_facts(self, q, w):
        if q.kind != "pad":
            self.it.fact(le(iconst(1 if q.nonempty else 0), w))
        m = q.opts.get("max")
        if m is not None:
            self.it.fact(le(w, iconst(m)))

    def _int_canon(self, t):
        from .norm import unreal
        c = self.it.prover.normer(self.it.pc).canon(t)
        return unreal(c) if c.sort == "R" else c

    def _cut(self, r, idx, default):
        """(part, offset) of a slice bound"""
        n = len(r.parts)
        if idx is None:
            return default
        idx = lift(idx)
        if is_const(idx) and cval(idx) < 0:
            k = -int(cval(idx))
            for i in range(n - 1, -1, -1):
                q = r.parts[i]
                if k == 0:
                    return i + 1, 0
                if isinstance(q, str):
                    if k <= len(q):
                        return i, len(q) - k
                    k -= len(q)
                else:
                    raise Unsupported("negative index into a token")
            return (n, 0) if k == 0 else (0, 0)
        acc = iconst(0)
        for i, q in enumerate(r.parts):
            d = self._int_canon(sub(idx, acc))
            if is_const(d):
                if cval(d) == 0:
                    return i, 0
                if isinstance(q, str) and 0 < cval(d) < len(q):
                    return i, int(cval(d))
                if cval(d) < 0:
                    raise Unsupported("slice inside a token")
            if isinstance(q, str):
                acc = add(acc, iconst(len(q)))
            else:
                w = width(q)
                self._width_facts(q, w)
                acc = add(acc, w)
        d = self._int_canon(sub(idx, acc))
        if is_const(d) and cval(d) >= 0 or self.it.prover.entails_quick(self.it.pc, le(acc, idx)):
            return n, 0
        raise Unsupported("slice bound inside a token")

    def _piece(self, r, a, b):
        out = []
        for i, q in enumerate(r.parts):
            if i < a[0] or i > b[0]:
                continue
            lo = a[1] if i == a[0] else 0
            if i == b[0]:
                if b[1] > lo:
                    out.append(q[lo:b[1]])
            else:
                out.append(q[lo:] if isinstance(q, str) else q)
        return self.text(out) if out else ""

    def rope_getitem(self, r, idx):
        if isinstance(idx, slice):
            if idx.step not in (None, 1):
                raise Unsupported("step in a slice of text")
            a = self._cut(r, idx.start, (0, 0))
            b = self._cut(r, idx.stop, (len(r.parts), 0))
            if a > b:
                return ""
            return self._piece(r, a, b)
        if isinstance(idx, int) and idx in (0, -1) and r.parts:
            q = r.parts[idx]
            if isinstance(q, str):
                return q[idx]
            if q.nonempty and idx == 0:
                return Rope([Tok("char", q.value, q.opts.get("first", q.chars), True, opts={"max": 1})])
        raise Unsupported("subscript of symbolic text")

    # ------------------------------------------------------------------ stripping and splitting
    def _strip(self, r, chars, left, right):
        parts = list(r.parts)

        def end(at):
            while parts:
                q = parts[at]
                if isinstance(q, str):
                    s = q.lstrip(chars) if at == 0 else q.rstrip(chars)
                    if s:
                        parts[at] = s
                        return
                    parts.pop(at)
                    continue
                if q.chars is None:
                    raise Unsupported("strip of free text")
                if all(c in chars for c in q.chars):
                    parts.pop(at)
                    continue
                edge = q.opts.get("first", q.chars) if at == 0 else q.chars
                if any(c in chars for c in edge):
                    raise Unsupported("strip of a token")
                if not q.nonempty:
                    raise Unsupported("strip of a possibly empty token")
                return
        if left:
            end(0)
        if right:
            end(-1)
        return self.text(parts) if parts else ""

    def _split_space(self, r):
        words, cur = [], []

        def flush():
            if cur:
                words.append(self.text(list(cur)))
                del cur[:]
        parts = [q for q in r.parts]
        for i, q in enumerate(parts):
            if isinstance(q, str):
                for c in q:
                    if c in SPACE:
                        flush()
                    else:
                        cur.append(c)
                continue
            if q.chars is None or not q.nonempty and q.kind != "pad":
                raise Unsupported("split of free text")
            inside = [c in SPACE for c in q.chars]
            if all(inside):
                if q.nonempty or not cur:
                    flush()
                elif i + 1 == len(parts) or isinstance(parts[i + 1], str) and parts[i + 1][0] in SPACE:
                    flush()
                else:
                    raise Unsupported("split at padding that may be empty")
            elif any(inside):
                raise Unsupported("split of a token with blanks")
            else:
                cur.append(q)
        flush()
        return ListVal.of(words)

    def _split_at(self, r, sep, count=-1, right=False):
        out, rest = [], r
        if right:
            raise Unsupported("rsplit")
        while count != 0 and isinstance(rest, Rope):
            o = self._first(rest, sep)
            if o is None:
                break
            out.append(self._piece(rest, (0, 0), o))
            rest = self._piece(rest, (o[0], o[1] + len(sep)), (len(rest.parts), 0))
            count -= 1
        if isinstance(rest, str) and count != 0:
            return ListVal.of(out + rest.split(sep, count))
        return ListVal.of(out + [rest])

    # ------------------------------------------------------------------ comparison
    def rope_nonempty(self, r):
        if any(isinstance(p, str) or p.nonempty for p in r.parts):
            return True
        if len(r.parts) == 1:
            return self.back(lt(iconst(0), width(r.parts[0])))
        raise Unsupported("emptiness of symbolic text")

    def rope_compare(self, name, a, b):
        if name not in ("Eq", "NotEq"):
            raise Unsupported("ordering of symbolic text")
        if not isinstance(a, (str, Rope)) or not isinstance(b, (str, Rope)):
            return name == "NotEq"
        t = self.rope_eq(a, b)
        return self.back(t if name == "Eq" else lnot(t))

    def rope_eq(self, a, b):
        pa = list(a.parts) if isinstance(a, Rope) else [a] if a else []
        pb = list(b.parts) if isinstance(b, Rope) else [b] if b else []
        conds = []
        for at in (0, -1):
            while pa and pb:
                x, y = pa[at], pb[at]
                if isinstance(x, str) and isinstance(y, str):
                    m = min(len(x), len(y))
                    u, w = (x[:m], y[:m]) if at == 0 else (x[-m:], y[-m:])
                    if u != w:
                        return FALSE
                    for ps, z in ((pa, x), (pb, y)):
                        rest = z[m:] if at == 0 else z[:-m]
                        if rest:
                            ps[at] = rest
                        else:
                            ps.pop(at)
                    continue
                if isinstance(x, Tok) and isinstance(y, Tok):
                    if x.kind == y.kind and same_value(x.value, y.value) and x.kind != "pad":
                        pa.pop(at)
                        pb.pop(at)
                        continue
                    c = self._tok_eq(x, y)
                    if c is not None and at == 0 and self._ends(x, pa, 1) and self._ends(y, pb, 1):
                        conds.append(c)
                        pa.pop(at)
                        pb.pop(at)
                        continue
                break
        if not pa and not pb:
            return land(*conds)
        for p, q in ((pa, pb), (pb, pa)):
            if not p:
                if any(isinstance(z, str) or z.nonempty for z in q):
                    return FALSE
                raise Unsupported("comparison with a possibly empty text")
        for p, q in ((pa, pb), (pb, pa)):
            if len(p) == 1 and isinstance(p[0], str) and not self._possible(q, 0, 0, p[0] + "\0", 0) and not self._full(q, p[0]):
                return FALSE
        # first characters that can never agree
        f = [self._first_chars(p) for p in (pa, pb)]
        if f[0] is not None and f[1] is not None and not set(f[0]) & set(f[1]):
            return FALSE
        raise Unsupported("comparison of symbolic text")

    def _full(self, parts, s):
        """can the parts spell exactly s?"""
        def go(i, j, used):
            if i == len(parts):
                return j == len(s)
            q = parts[i]
            if isinstance(q, str):
                return s.startswith(q, j) and go(i + 1, j + len(q), False)
            if q.chars is None:
                return True
            if j < len(s) and s[j] in q.chars and go(i, j + 1, True):
                return True
            return (used or not q.nonempty) and go(i + 1, j, False)
        return go(0, 0, False)

    def _first_chars(self, parts):
        q = parts[0]
        if isinstance(q, str):
            return q[0]
        if not q.nonempty or q.chars is None:
            return None
        return q.opts.get("first", q.chars)

    def _ends(self, x, parts, nxt):
        """the token cannot run into what follows it: its end is where its alphabet ends"""
        if len(parts) <= nxt:
            return True
        f = self._first_chars(parts[nxt:])
        return f is not None and not set(f) & set(x.chars)

    def _tok_eq(self, x, y):
        """equality of two tokens as a condition on what they stand for"""
        if x.kind != y.kind:
            return None
        if x.kind == "int":
            return eq(x.value, y.value)
        if x.kind in ("sym", "word") and isinstance(x.value, Key) and isinstance(y.value, Key):
            if x.value.fam == y.value.fam:
                return eq(x.value.idx, y.value.idx)
        return None

    # ------------------------------------------------------------------ conversions
    def rope_number(self, r, kind):
        r = self._strip(r, SPACE, True, True)
        if isinstance(r, str):
            return self.construct(TypeVal(kind), [r], {})
        if len(r.parts) == 1:
            t = r.parts[0]
            if t.kind == "int":
                self.it.fact(le(iconst(0), t.value))
                return to_real(t.value) if kind == "float" else t.value
            if t.kind == "float" and kind == "float":
                return t.value
            if t.chars is not None and not (set(t.chars) & set(DIGITS)) and t.kind != "pad":
                if kind == "int" or t.kind in ("sym", "word"):
                    raise PyRaise("ValueError", kind)
            raise Unsupported("%s() of a token" % kind)
        # more than one piece: never a number if some piece contains a foreign character for certain
        for p in r.parts:
            if isinstance(p, str) and any(c not in FLOAT + "_" + SPACE + "infatyINFATY" for c in p):
                raise PyRaise("ValueError", kind)
        if len(r.parts) == 2 and r.parts[0] == "+" and isinstance(r.parts[1], Tok) and r.parts[1].opts.get("first") == DIGITS:
            return self.rope_number(Rope(r.parts[1:]), kind)
        if any(isinstance(p, str) and any(c in SPACE for c in p) for p in r.parts):
            raise PyRaise("ValueError", kind)
        raise Unsupported("%s() of symbolic text" % kind)

    # ------------------------------------------------------------------ methods
    def rope_method(self, r, name):
        return Builtin("str." + name, lambda a, k: self.rope_call(r, name, list(a) + list(k.values())))

    def rope_call(self, r, name, a):
        if isinstance(r, str):
            v = getattr(r, name)(*a)
            return ListVal.of(v) if isinstance(v, list) else v
        if any(not isinstance(x, (str, int, tuple, type(None))) for x in a):
            raise Unsupported("argument of %s" % name)
        if name in ("strip", "lstrip", "rstrip"):
            ch = a[0] if a and a[0] is not None else SPACE
            return self._strip(r, ch, name != "rstrip", name != "lstrip")
        if name == "split":
            if not a or a[0] is None:
                if len(a) > 1:
                    raise Unsupported("split with a limit")
                return self._split_space(r)
            return self._split_at(r, *a)
        if name in ("find", "index", "rfind", "rindex"):
            o = self._first(r, a[0], name[0] == "r")
            if o is None:
                if name.endswith("index"):
                    raise PyRaise("ValueError", "substring not found")
                return -1
            return self.rope_len(r, *o)
        if name in ("partition", "rpartition"):
            o = self._first(r, a[0], name[0] == "r")
            if o is None:
                return (r, "", "") if name == "partition" else ("", "", r)
            return (self._piece(r, (0, 0), o), a[0], self._piece(r, (o[0], o[1] + len(a[0])), (len(r.parts), 0)))
        if name in ("startswith", "endswith"):
            opts = a[0] if isinstance(a[0], tuple) else (a[0],)
            res = [self._edge(r, p, name == "startswith") for p in opts]
            if True in res:
                return True
            if None in res:
                raise Unsupported(name)
            return False
        if name in ("removeprefix", "removesuffix"):
            e = self._edge(r, a[0], name == "removeprefix")
            if e is None:
                raise Unsupported(name)
            if not e:
                return r
            n = len(a[0])
            return self.rope_getitem(r, slice(n, None) if name == "removeprefix" else slice(None, -n))
        if name == "replace":
            return self._replace(r, *a)
        if name == "count":
            occ = self._occurrences(r, a[0])
            if all(o[2] for o in occ) and len(a[0]) == 1:
                return len(occ)
            raise Unsupported("count")
        if name in ("isdigit", "isalpha", "isspace", "isnumeric", "isdecimal", "isupper", "islower", "isalnum"):
            if name in ("isupper", "islower") and len(r.parts) > 1:
                raise Unsupported(name)
            good = []
            for p in r.parts:
                if not isinstance(p, str) and (p.chars is None or not p.nonempty):
                    raise Unsupported(name)
                t = [getattr(c, name)() for c in (p if isinstance(p, str) else p.chars)]
                if all(t):
                    good.append(True)
                elif not any(t) or isinstance(p, str):
                    return False
                else:
                    good.append(False)
            if all(good):
                return True
            if len(r.parts) == 1 and isinstance(r.parts[0], Tok) and "first" in r.parts[0].opts and not any(getattr(c, name)() for c in r.parts[0].opts["first"]):
                return False
            raise Unsupported(name)
        if name in ("splitlines",):
            return self._split_at(self._strip(r, "\n", False, True), "\n")
        if name == "join":
            raise Unsupported("join")
        if name == "format":
            raise Unsupported("format of symbolic text")
        raise Unsupported("method %s of symbolic text" % name)

    def _edge(self, r, p, start):
        """does the text start / end with p: True, False or None (depends)"""
        if p == "":
            return True
        if start:
            q = r.parts[0]
            if isinstance(q, str) and len(q) >= len(p):
                return q.startswith(p)
            if not self._possible(r.parts, 0, 0, p, 0):
                return False
            return None
        q = r.parts[-1]
        if isinstance(q, str):
            m = min(len(p), len(q))
            if q[-m:] != p[-m:]:
                return False
            return True if len(q) >= len(p) else None
        if q.nonempty and q.chars is not None and p[-1] not in q.chars:
            return False
        return None

    def _replace(self, r, old, new, count=-1):
        if count != -1:
            raise Unsupported("replace with a limit")
        out = []
        rest = r
        while isinstance(rest, Rope):
            o = self._first(rest, old)
            if o is None:
                break
            out += [self._piece(rest, (0, 0), o), new]
            rest = self._piece(rest, (o[0], o[1] + len(old)), (len(rest.parts), 0))
        if isinstance(rest, str):
            rest = rest.replace(old, new)
        return self.text(out + [rest])
