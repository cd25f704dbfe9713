"""Abstract interpreter over the dumped MIR.

Values are abstract (values.py), numbers are linear terms with facts (terms.py). Calls are analysed
in their calling context, branches split the state, and every loop is brought to a fixpoint: its
head states are generalised (loops.py) until the body maps each of them into itself.
"""
import json
import sys

from terms import *
from values import *

sys.setrecursionlimit(100000)


class State:
    __slots__ = ("mem", "facts", "trace")

    def __init__(self, mem, facts, trace=None):
        self.mem = mem
        self.facts = facts
        self.trace = trace

    def fork(self):
        return State(dict(self.mem), self.facts.copy(), self.trace)


class Alarm:
    def __init__(self, kind, where, span, msg, stack, trace, facts=None):
        self.props = 0
        self.kind = kind
        self.where = where
        self.span = span
        self.msg = msg
        self.stack = stack
        self.trace = trace
        self.facts = facts

    def key(self):
        return (self.kind, self.where, self.span, self.msg)

    def __repr__(self):
        return "%s in %s (%s): %s" % (self.kind, self.where, self.span, self.msg)


class Fun:
    __slots__ = (
        "key", "path", "krate", "kind", "args", "span", "argc", "locals", "blocks", "live", "wto",
        "mutaddr", "closure", "names",
    )


class World:
    def __init__(self, dump):
        self.d = dump
        self.types = dump["types"]
        self.fns = {}
        self.roots = dump["roots"]
        self.entry_crates = {dump["fns"][str(k)]["krate"] for k in self.roots.values() if k is not None}
        self._ft = {}
        self._lb = {}
        self._native = {}
        for i, t in enumerate(self.types):
            if t["k"] in ("struct", "enum"):
                NAMES[i] = (t["p"].split("::")[-1], [v["n"] for v in t["v"]])
            elif t["k"] == "tuple":
                NAMES[i] = ("", None)

    def fn(self, key):
        f = self.fns.get(key)
        if f is None:
            d = self.d["fns"].get(str(key))
            if d is None:
                return None
            f = prepare(key, d)
            self.fns[key] = f
        return f

    def loops_below(self, block):
        """does the call at the end of this block reach a loop?"""
        t = block[1]
        return t[0] == "call" and t[1][0] == "k" and t[1][1][1][0] == "fn" and self._loops(t[1][1][1][1])

    def _loops(self, c):
        key = c["key"]
        if key is None or key < 0 or c["path"].startswith("ops::"):
            return False
        if c["path"].endswith("core::clone::Clone>::clone") and "alloc::" in c["path"]:
            # modelled
            return False
        r = self._lb.get(key)
        if r is None:
            self._lb[key] = False
            f = self.fn(key)
            r = f is not None and (
                any(type(el) is tuple for el in f.wto) or any(self.loops_below(b) for b in f.blocks if b is not None)
            )
            self._lb[key] = r
        return r

    # ---- types
    def t(self, i):
        return self.types[i]

    def field_types(self, ty, var):
        t = self.types[ty]
        k = t["k"]
        if k in ("struct", "enum", "union"):
            return [f[1] for f in t["v"][var]["f"]]
        if k in ("tuple", "closure"):
            return t["f"]
        return []

    def native(self, ty):
        """the kind of a type that is represented by a single built in value"""
        r = self._native.get(ty, 0)
        if r == 0:
            r = self._nat(ty)
            self._native[ty] = r
        return r

    def _nat(self, ty):
        t = self.types[ty]
        k = t["k"]
        if k == "slice" or k == "array":
            return ("seq", t["e"])
        if k == "str":
            return ("seq", self.u8())
        if k == "struct":
            p = t["p"]
            if p == "alloc::vec::Vec":
                return ("seq", t["a"][0])
            if p == "alloc::string::String":
                return ("seq", self.u8())
            if p in ("core::slice::iter::Iter",):
                return ("iter", t["a"][0])
            if p in ("core::slice::iter::IterMut",):
                return ("itermut", t["a"][0])
            if p in ("alloc::vec::into_iter::IntoIter", "core::array::iter::IntoIter"):
                return ("intoiter", t["a"][0])
            if p in ("core::str::iter::Bytes", "core::str::iter::Chars"):
                return ("opaque", 0)
        return None

    def usize(self):
        for i, t in enumerate(self.types):
            if t["k"] == "int" and t["name"] == "usize":
                return i
        raise Unsupported("no usize")

    def u8(self):
        for i, t in enumerate(self.types):
            if t["k"] == "int" and t["bits"] == 8 and not t["s"]:
                return i
        raise Unsupported("no u8")

    def range_of(self, ty):
        t = self.types[ty]
        k = t["k"]
        if k == "int":
            if t["s"]:
                return -(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1
            return 0, (1 << t["bits"]) - 1
        if k == "bool":
            return 0, 1
        if k == "char":
            return 0, 0x10FFFF
        if k == "pat":
            return self.range_of(t["e"])
        return None

    # ---- unknown values
    def make(self, ty, key):
        t = self.types[ty]
        k = t["k"]
        if k == "int" or k == "char":
            lo, hi = self.range_of(ty)
            return A(atom("in", (key,), lo, hi))
        if k == "bool":
            return Cond("eq", A(atom("in", (key,), 0, 1)) - 1)
        if k in ("tuple", "closure"):
            return Agg(ty, 0, tuple(self.make(f, (key, i)) for i, f in enumerate(t["f"])))
        if k == "ref":
            if t["m"]:
                raise Unsupported("unknown mutable reference")
            return Ref(self.make(t["e"], key))
        n = self.native(ty)
        if n is not None:
            if n[0] == "opaque":
                return Opq(key)
            b = Base(key, n[1])
            if k == "array":
                return sub(b, ZERO, K(t["n"]))
            ln = A(atom("len", (b,), 0, ISIZE_MAX))
            q = whole(b, ln, self.isstr(ty))
            if n[0] == "seq":
                return q
            return Agg(ty, 0, (q,))
        if k == "struct":
            if t.get("p") == "core::marker::PhantomData":
                return Agg(ty, 0, ())
            return Agg(ty, 0, tuple(self.make(f, (key, i)) for i, f in enumerate(self.field_types(ty, 0))))
        if k == "enum":
            if len(t["v"]) == 1:
                return Agg(ty, 0, tuple(self.make(f, (key, i)) for i, f in enumerate(self.field_types(ty, 0))))
            return Sym(ty, key)
        return Opq(key)

    def isstr(self, ty):
        t = self.types[ty]
        return t["k"] == "str" or (t["k"] == "struct" and t["p"] == "alloc::string::String")

    def expand(self, s, var):
        fts = self.field_types(s.ty, var)
        return Agg(s.ty, var, tuple(self.make(f, (s.key, var, i)) for i, f in enumerate(fts)))

    def inhabited(self, ty, depth=0):
        t = self.types[ty]
        k = t["k"]
        if k == "never":
            return False
        if depth > 6:
            return True
        if k == "enum":
            return any(self.var_inhabited(ty, v, depth) for v in range(len(t["v"])))
        if k in ("struct", "tuple"):
            return all(self.inhabited(f, depth + 1) for f in self.field_types(ty, 0))
        return True

    def var_inhabited(self, ty, v, depth=0):
        return all(self.inhabited(f, depth + 1) for f in self.field_types(ty, v))


def t_opt(w, ty):
    t = w.types[ty]
    return t["k"] == "enum" and t.get("p") == "core::option::Option"


def succs(term):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "switch":
        return [b for _, b in term[2]] + [term[3]]
    if k == "drop":
        return [term[2]]
    if k == "call":
        return [term[4]] if term[4] is not None and term[4] >= 0 else []
    if k == "assert":
        return [term[4]]
    return []


def locals_of_place(p, out):
    out.add(p[0])
    for e in p[1]:
        if type(e) is list and e[0] == "i":
            out.add(e[1])


def uses_of(o, out):
    """locals mentioned by an operand or an rvalue"""
    if type(o) is not list or not o:
        return
    if o[0] in ("c", "m") and len(o) == 2 and type(o[1]) is list and len(o[1]) == 2 and type(o[1][0]) is int:
        locals_of_place(o[1], out)
        return
    if o[0] in ("ref",) or o[0] == "reborrow" or o[0] == "raw" or o[0] == "discr":
        locals_of_place(o[-1], out)
        return
    if o[0] == "k":
        return
    for x in o[1:]:
        if type(x) is list:
            if x and type(x[0]) is list:
                for y in x:
                    uses_of(y, out)
            else:
                uses_of(x, out)


def prepare(key, d):
    f = Fun()
    f.key = key
    f.path = d["path"]
    f.krate = d["krate"]
    f.kind = d["kind"]
    f.args = d["args"]
    f.span = d["span"]
    f.argc = d["argc"]
    f.locals = d["locals"]
    f.names = d["names"]
    f.blocks = d["blocks"]
    f.closure = "{closure#" in f.path.split("::")[-1] and f.kind == "item"
    n = len(f.blocks)
    f.mutaddr = set()
    gen, kill = [], []
    for stmts, term in f.blocks:
        g, k = set(), set()

        def use(s):
            for x in s:
                if x not in k:
                    g.add(x)

        for s in stmts:
            if s[0] == "=":
                u = set()
                uses_of(s[2], u)
                if s[2][0] == "ref" and s[2][1] and "*" not in s[2][2][1]:
                    f.mutaddr.add(s[2][2][0])
                if s[2][0] == "raw" and "*" not in s[2][2][1]:
                    f.mutaddr.add(s[2][2][0])
                if s[1][1]:
                    locals_of_place(s[1], u)
                use(u)
                if not s[1][1]:
                    k.add(s[1][0])
            elif s[0] == "sd":
                u = set()
                locals_of_place(s[1], u)
                use(u)
            elif s[0] in ("x", "l"):
                k.add(s[1])
            elif s[0] == "assume":
                u = set()
                uses_of(s[1], u)
                use(u)
        u = set()
        if term[0] == "switch":
            uses_of(term[1], u)
        elif term[0] == "call":
            uses_of(term[1], u)
            for a in term[2]:
                uses_of(a, u)
            if term[3][1]:
                locals_of_place(term[3], u)
        elif term[0] == "assert":
            uses_of(term[1], u)
        elif term[0] == "ret":
            u.add(0)
        use(u)
        if term[0] == "call" and not term[3][1]:
            pass
        gen.append(g)
        kill.append(k)
    live = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for b in range(n - 1, -1, -1):
            o = set()
            term = f.blocks[b][1]
            for s in succs(term):
                o |= live[s]
            if term[0] == "call" and not term[3][1]:
                o.discard(term[3][0])
            new = gen[b] | (o - kill[b])
            if new != live[b]:
                live[b] = new
                changed = True
    f.live = live
    f.wto = make_wto(f)
    return f


def make_wto(f):
    n = len(f.blocks)
    sc = [succs(b[1]) for b in f.blocks]

    def build(nodes, entry):
        # reverse post order and strongly connected components within nodes
        index, low, stack, on, comps = {}, {}, [], set(), []
        cnt = [0]

        def strong(v):
            work = [(v, iter([w for w in sc[v] if w in nodes]))]
            index[v] = low[v] = cnt[0]
            cnt[0] += 1
            stack.append(v)
            on.add(v)
            while work:
                x, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        stack.append(w)
                        on.add(w)
                        work.append((w, iter([y for y in sc[w] if y in nodes])))
                        adv = True
                        break
                    elif w in on:
                        low[x] = min(low[x], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    p = work[-1][0]
                    low[p] = min(low[p], low[x])
                if low[x] == index[x]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == x:
                            break
                    comps.append((x, c))

        for e in entry:
            if e in nodes and e not in index:
                strong(e)
        out = []
        for head, c in reversed(comps):
            if len(c) == 1 and head not in sc[head]:
                out.append(head)
            else:
                inner = set(c) - {head}
                out.append((head, build(inner, [w for w in sc[head] if w in inner]), frozenset(c)))
        return out

    return build(set(range(n)), [0])


class Interp:
    def __init__(self, world, models, config=None):
        self.w = world
        self.models = models
        self.alarms = []
        self.stack = []
        self.frames = {}
        self.obligations = []
        self.stats = {"blocks": 0, "calls": 0, "loops": 0, "loop_passes": 0, "splits": 0}
        self.fns_seen = set()
        self.sites = {}  # (fn path, span, kind) -> 'ok' | 'alarm'
        self.quiet = 0
        self.cfg = config or {}
        self.budget = self.cfg.get("budget", 12000000)
        self.assumed = {}
        self.maxdepth = 120
        self.frame_fn = {}
        self.ghost_ty = {}
        self.unroll = 0
        self.reached = {}
        import loops
        import prover

        self.loops = loops.Loops(self)
        self.prover = prover.Prover(self)
        self.obligations = {}

    # ------------------------------------------------------------ frames, alarms
    def frame_id(self, parent, fnkey, blk):
        k = (parent, fnkey, blk)
        r = self.frames.get(k)
        if r is None:
            r = len(self.frames) + 2
            self.frames[k] = r
        return r

    def alarm(self, kind, span, msg, st):
        fn = self.stack[-1][0].path if self.stack else "?"
        self.alarms.append(
            Alarm(kind, fn, span, msg, [(f.path, s) for f, s in self.stack], tracelist(st.trace), st.facts)
        )

    def site(self, kind, span, ok=True):
        """a place where the rule was applied (whether it held there is what the alarms say)"""
        if self.quiet:
            return
        k = (self.stack[-1][0].path, span, kind)
        self.sites[k] = self.sites.get(k, 0) + 1

    def obligation(self, st, call, ok, props, msg):
        if not self.quiet:
            k = (call.span, props)
            self.obligations[k] = self.obligations.get(k, 0) + 1
        if not ok:
            self.alarm("spec", call.span, msg(), st)
            self.alarms[-1].props = props

    def note_alloc(self, st, call, n):
        """is a reservation no larger than something that is in memory?"""
        if self.quiet:
            return
        n = self.as_lin(n)
        self.site("alloc", call.span)
        import loops

        out = {ZERO + 64}
        for v in st.mem.values():
            loops.lengths(v, out)
        for a in st.facts.bnd:
            if a.kind == "len":
                out.add(A(a))
        for a, _ in n.t:
            if a.kind == "len":
                out.add(A(a))
        F = st.facts
        if not any(F.entails(ge(x, n)) for x in sorted(out, key=lambda x: len(x.t))):
            self.alarm("alloc", call.span, "a reservation of %s, which no length of data present bounds" % (n,), st)

    def models_names(self, v, out):
        import models

        models.names_in(v, out)

    def root_key(self, path):
        k = self.w.roots.get(path)
        if k is None:
            raise Unsupported("no entry program %s" % path)
        return k

    def eval_fn(self, path, args, st):
        """the results of an entry program on the given arguments"""
        f = self.w.fn(self.root_key(path))
        return self.run(f, args, st, self.frame_id(-1, f.key, 0))

    # ------------------------------------------------------------ memory
    def getpath(self, st, v, path):
        for e in path:
            v = self.step(st, v, e)
        return v

    def step(self, st, v, e):
        k = e[0]
        if k == "f":
            if type(v) is Agg:
                return v.f[e[1]]
            if v is UNINIT:
                return v
            raise Unsupported("field %s of %r" % (e[1], v))
        if k == "d":
            return self.variant(st, v, e[1])
        if k == "i":
            return self.elem(st, v, e[1])
        if k == "s":
            return self.slice(st, v, e[1], e[2])
        raise Unsupported("path %s" % (e,))

    def setpath(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        k = e[0]
        if k == "f":
            if type(v) is Agg:
                x = self.setpath(st, v.f[e[1]], path[1:], val)
                return Agg(v.ty, v.var, v.f[: e[1]] + (x,) + v.f[e[1] + 1 :])
            if v is UNINIT:
                # through the wrappers of uninitialised memory
                return self.setpath(st, v, path[1:], val)
            raise Unsupported("store to field of %r" % (v,))
        if k == "d":
            return self.setpath(st, self.variant(st, v, e[1]), path[1:], val)
        if k == "i":
            n = seq_len(v)
            x = self.setpath(st, self.elem(st, v, e[1]) if len(path) > 1 else None, path[1:], val)
            a = self.slice(st, v, ZERO, e[1])
            b = self.slice(st, v, e[1] + 1, n - e[1] - 1)
            return concat(concat(a, lit(x)), b)
        if k == "s":
            n = seq_len(v)
            x = self.setpath(st, self.slice(st, v, e[1], e[2]), path[1:], val)
            a = self.slice(st, v, ZERO, e[1])
            b = self.slice(st, v, e[1] + e[2], n - e[1] - e[2])
            return concat(concat(a, x), b)
        raise Unsupported("path %s" % (e,))

    def rd(self, st, mref):
        return self.getpath(st, st.mem[mref.root], mref.path)

    def wr(self, st, mref, val):
        st.mem[mref.root] = self.setpath(st, st.mem[mref.root], mref.path, val)

    def variant_of(self, st, v):
        """the variant index of an enum value; may split"""
        if type(v) is Agg:
            return v.var
        if type(v) is Sym:
            c = st.facts.choice.get(v.key)
            if c is not None:
                return c
            alts = []
            n = len(self.w.types[v.ty]["v"])
            allowed = self.sym_allowed(st, v)
            for i in range(n):
                if not self.w.var_inhabited(v.ty, i) or (allowed is not None and i not in allowed):
                    continue

                def f(s, i=i, key=v.key):
                    s.facts.choice[key] = i

                alts.append(f)
            if len(alts) == 1:
                st.facts.choice[v.key] = [
                    i for i in range(n) if self.w.var_inhabited(v.ty, i) and (allowed is None or i in allowed)
                ][0]
                return st.facts.choice[v.key]
            raise NeedSplit(alts, "variant of %r" % (v,))
        raise Unsupported("variant of %r" % (v,))

    def sym_allowed(self, st, v):
        return None

    def variant(self, st, v, var):
        if type(v) is Agg:
            if v.var != var and self.w.types[v.ty]["k"] == "enum":
                raise Unsupported("wrong variant")
            return v
        if type(v) is Sym:
            c = self.variant_of(st, v)
            if c != var:
                raise Infeasible
            return self.w.expand(v, var)
        raise Unsupported("variant of %r" % (v,))

    # ------------------------------------------------------------ sequences
    def base_elem(self, st, base, idx):
        if base.tmpl is not None:
            return self.loops.instantiate(st, base, idx)
        if type(base.name) is tuple and base.name and base.name[0] == "cmp":
            # elements made one by one from an index
            return self.star_elem(st, ("star", None, base.name[1], base.name[2]), idx)
        t = self.w.types[base.ety] if base.ety is not None else {"k": "int", "bits": 8, "s": False}
        if t["k"] == "int" and t["bits"] == 8 and not t["s"]:
            return byte_at(base, idx)
        return self.w.make(base.ety, ("el", base, idx))

    def seg_elem(self, st, s, off):
        k = s[0]
        if k in ("lit", "be"):
            off = self.fixed(st, off)
        if k == "lit":
            if off.const:
                return s[1][off.c]
            alts = []
            for i in range(len(s[1])):
                alts.append(lambda t, i=i: t.facts.assume(eq(off, K(i))))
            raise NeedSplit(alts, "literal index")
        if k == "sub":
            return self.base_elem(st, s[1], s[2] + off)
        if k == "rep":
            return s[1]
        if k == "be":
            if off.const:
                # the byte of a big endian number
                return A(atom("op", ("bebyte", s[1], s[2], off.c), 0, 255))
        if k == "star":
            e = self.star_elem(st, s, off)
            if e is not None:
                return e
        raise Unsupported("element of %s" % show_seg(s))

    def star_elem(self, st, s, off):
        _, n, i, alts = s
        if any(len(g) != 1 or g[0][0] != "lit" or len(g[0][1]) != 1 for _, g in alts):
            return None
        sb = Subst({i: off})
        if len(alts) == 1:
            for c in alts[0][0]:
                self.assume_alt(st, sb, c)
            return sb.any(alts[0][1][0][1][0])
        opts = []
        for j, (f, g) in enumerate(alts):
            ok = True
            t = st.fork()
            try:
                for c in f:
                    self.assume_alt(t, sb, c)
            except Infeasible:
                ok = False
            if ok:
                opts.append((j, f, g))
        if len(opts) == 1:
            for c in opts[0][1]:
                self.assume_alt(st, sb, c)
            return sb.any(opts[0][2][0][1][0])
        if not opts:
            raise Infeasible

        def mk(f):
            def go(t):
                for c in f:
                    self.assume_alt(t, sb, c)

            return go

        raise NeedSplit([mk(f) for j, f, g in opts], "star alternative")

    def assume_alt(self, st, sb, c):
        """a condition of a star alternative: a Cond, ('choice', key, var), ('set', atom, mask)"""
        if type(c) is tuple and c and c[0] == "choice":
            k = sb.any(c[1])
            if st.facts.choice.get(k, c[2]) != c[2]:
                raise Infeasible
            st.facts.choice[k] = c[2]
        elif type(c) is tuple and c and c[0] == "set":
            f = Facts()
            f.sets[c[1]] = c[2]
            sb.facts(f, st.facts)
        elif type(c) is tuple and c and c[0] == "prop":
            st.facts.props = st.facts.props | {sb.any(c[1])}
        else:
            st.facts.assume(sb.any(c))

    def locate(self, st, q, pos):
        """(segment number, offset in it) of position pos, which is at most the length; a position at
        a boundary belongs to the following segment"""
        off = pos
        for i, s in enumerate(q.segs):
            if off == ZERO:
                return i, ZERO
            n = seg_len(s)
            c = ge(off, n)
            if st.facts.entails(c):
                off = off - n
                continue
            if st.facts.refutes(c):
                return i, off
            raise NeedSplit([lambda t, c=c: t.facts.assume(c), lambda t, c=c: t.facts.assume(neg(c))], "position")
        return len(q.segs), off

    def elem(self, st, q, idx):
        if type(q) is not Seq:
            raise Unsupported("element of %r" % (q,))
        i, off = self.locate(st, q, idx)
        if i == len(q.segs):
            raise Unsupported("element out of range")
        return self.seg_elem(st, q.segs[i], off)

    def counts(self, st, what, good):
        """no loop goes round 2^62 times: what counts its turns does not overflow"""
        if "overflow in Add" not in (what if isinstance(what, str) else what[0]):
            return False
        ns = [v for r, v in st.mem.items() if type(r[1]) is tuple and r[1] and r[1][0] == "iter" and type(v) is Lin]
        if not ns:
            return False
        s = st.fork()
        try:
            for v in ns:
                s.facts.assume(ge(K(1 << 62), v))
            if not s.facts.entails(good):
                return False
        except Infeasible:
            return False
        st.facts.assume(good)
        return True

    def fixed(self, st, x):
        """a number the state leaves no choice for, as a constant"""
        if not x.const:
            lo, hi = st.facts.bounds(x)
            if lo == hi:
                return K(lo)
        return x

    def cut(self, st, s, off):
        """split a segment at an inner offset"""
        k = s[0]
        off = self.fixed(st, off)
        if k == "sub":
            return (("sub", s[1], s[2], off),), (("sub", s[1], s[2] + off, s[3] - off),)
        if k == "lit":
            if off.const:
                return (("lit", s[1][: off.c]),), (("lit", s[1][off.c :]),)
            raise NeedSplit(
                [lambda t, i=i: t.facts.assume(eq(off, K(i))) for i in range(len(s[1]) + 1)], "cut literal"
            )
        if k == "rep":
            return (("rep", s[1], off),), (("rep", s[1], s[2] - off),)
        if k == "be" and off.const:
            bs = [A(atom("op", ("bebyte", s[1], s[2], j), 0, 255)) for j in range(s[1])]
            return (("lit", tuple(bs[: off.c])),), (("lit", tuple(bs[off.c :])),)
        if k == "star":
            _, n, i, alts = s
            if all(len(g) == 1 and g[0][0] == "lit" and len(g[0][1]) == 1 for _, g in alts):
                sb = Subst({i: A(i) + off})
                alts2 = tuple((tuple(self.shift_alt(sb, c) for c in f), tuple(y for x in g for y in sb.seg(x))) for f, g in alts)
                return (("star", off, i, alts),), (("star", n - off, i, alts2),)
        raise Unsupported("cut of %s" % show_seg(s))

    def shift_alt(self, sb, c):
        if type(c) is tuple and c and c[0] in ("choice",):
            return ("choice", sb.any(c[1]), c[2])
        if type(c) is tuple and c and c[0] == "set":
            l = sb.atom(c[1])
            return ("set", l.t[0][0], c[2])
        return sb.any(c)

    def slice(self, st, q, start, ln):
        """q[start .. start+ln], known to be in range"""
        if type(q) is not Seq:
            raise Unsupported("slice of %r" % (q,))
        if start == ZERO and ln == seq_len(q):
            return q
        if ln == ZERO:
            return Seq((), q.utf8)
        if len(q.segs) == 1 and q.segs[0][0] in ("sub", "rep"):
            # no need to know where the ends are
            s = q.segs[0]
            if s[0] == "sub":
                return mkseq([("sub", s[1], s[2] + start, ln)])
            return mkseq([("rep", s[1], ln)])
        i, off = self.locate(st, q, start)
        end = start + ln
        # is the end the end of the sequence?
        if st.facts.entails(eq(end, seq_len(q))):
            j, eoff = len(q.segs), ZERO
        else:
            j, eoff = self.locate(st, q, end)
        out = []
        if i == j:
            if i == len(q.segs):
                return Seq(())
            s = q.segs[i]
            if off != ZERO:
                s = self.cut(st, s, off)[1]
                s = s[0] if len(s) == 1 else s
            if eoff == off:
                return Seq(())
            p = self.cut(st, s, eoff - off)[0]
            return mkseq(p)
        for m in range(i, min(j + 1, len(q.segs))):
            s = q.segs[m]
            if m == i and off != ZERO:
                out.extend(self.cut(st, s, off)[1])
            elif m == j:
                if eoff != ZERO:
                    out.extend(self.cut(st, s, eoff)[0])
            else:
                out.append(s)
        return mkseq(out)

    # ------------------------------------------------------------ places
    def place(self, st, fr, pl):
        """('v', value) for a place behind a shared reference, ('p', root, path) otherwise"""
        loc, proj = pl
        root = (fr, loc)
        if not proj:
            return ("p", root, ())
        mode = "p"
        path = []
        val = None
        for e in proj:
            if e == "*":
                v = val if mode == "v" else self.getpath(st, st.mem.get(root, UNINIT), tuple(path))
                if type(v) is Ref:
                    mode, val = "v", v.v
                elif type(v) is MRef:
                    mode, root, path = "p", v.root, list(v.path)
                else:
                    raise Unsupported("deref of %r" % (v,))
                continue
            if e == "=":
                continue
            k = e[0]
            if k == "f":
                x = ("f", e[1])
            elif k == "d":
                x = ("d", e[1])
            elif k == "i":
                x = ("i", st.mem[(fr, e[1])])
            elif k == "ci":
                q = val if mode == "v" else self.getpath(st, st.mem[root], tuple(path))
                x = ("i", (seq_len(q) - e[1]) if e[3] else K(e[1]))
            elif k == "s":
                q = val if mode == "v" else self.getpath(st, st.mem[root], tuple(path))
                n = seq_len(q)
                end = (n - e[2]) if e[3] else K(e[2])
                x = ("s", K(e[1]), end - K(e[1]))
            else:
                raise Unsupported("projection %s" % (e,))
            if mode == "v":
                val = self.step(st, val, x)
            else:
                path.append(x)
        if mode == "v":
            return ("v", val)
        return ("p", root, tuple(path))

    def read(self, st, fr, pl):
        if not pl[1]:
            v = st.mem.get((fr, pl[0]))
            if v is None:
                return UNINIT
            return v
        p = self.place(st, fr, pl)
        if p[0] == "v":
            return p[1]
        v = st.mem.get(p[1])
        if v is None:
            raise Unsupported("read of uninitialised place")
        return self.getpath(st, v, p[2])

    def write(self, st, fr, fn, pl, val):
        if not pl[1]:
            st.mem[(fr, pl[0])] = val
            return
        p = self.place(st, fr, pl)
        if p[0] == "v":
            raise Unsupported("store through a shared reference")
        _, root, path = p
        if root not in st.mem:
            # initialisation field by field
            v = self.blank(fn.locals[pl[0]]) if root == (fr, pl[0]) else None
            if v is None:
                raise Unsupported("store to uninitialised place")
            st.mem[root] = v
        st.mem[root] = self.setpath(st, st.mem[root], path, val)

    def blank(self, ty):
        t = self.w.types[ty]
        if t["k"] in ("struct", "tuple", "closure"):
            return Agg(ty, 0, tuple(UNINIT for _ in self.w.field_types(ty, 0)))
        return None

    def place_ty(self, fn, pl):
        ty = fn.locals[pl[0]]
        var = 0
        for e in pl[1]:
            if e == "*":
                t = self.w.types[ty]
                ty = t.get("e", t["a"][0] if t.get("a") else None)
            elif e == "=":
                pass
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = self.w.types[ty].get("e")
            if ty is None:
                return None
        return ty

    def op_ty(self, fn, o):
        if o[0] == "k":
            return o[1][0]
        if o[0] in ("c", "m"):
            return self.place_ty(fn, o[1])
        return None

    def operand(self, st, fr, o):
        k = o[0]
        if k == "c" or k == "m":
            return self.read(st, fr, o[1])
        if k == "k":
            return self.const(o[1][0], o[1][1])
        if k == "rc":
            return False
        raise Unsupported("operand %s" % k)

    def const(self, ty, c):
        k = c[0]
        if k == "int":
            return K(c[1])
        if k == "bool":
            return bool(c[1])
        if k == "str":
            return Ref(mkseq((("lit", tuple(K(b) for b in c[1])),), True))
        if k == "sliceref":
            t = self.w.types[ty]
            return Ref(self.const(t.get("e", ty), c[1]))
        if k == "ref":
            return Ref(self.const(c[1], c[2]))
        if k == "adt":
            fts = self.w.field_types(ty, c[1])
            if self.w.native(ty):
                raise Unsupported("constant of native type")
            return Agg(ty, c[1], tuple(self.const(t, x) for t, x in zip(fts, c[2])))
        if k == "tuple":
            fts = self.w.field_types(ty, 0)
            return Agg(ty, 0, tuple(self.const(t, x) for t, x in zip(fts, c[1])))
        if k == "array":
            e = self.w.types[ty].get("e")
            return mkseq((("lit", tuple(self.const(e, x) for x in c[1])),))
        if k == "fn":
            return Fn(c[1])
        if k == "zst":
            return Agg(ty, 0, ())
        t = self.w.types[ty]
        if t["k"] == "tuple" and not t["f"]:
            return Agg(ty, 0, ())
        if t["k"] == "fndef":
            return Fn(t["c"])
        if t["k"] in ("struct", "closure") and not self.w.field_types(ty, 0):
            return Agg(ty, 0, ())
        if t["k"] == "enum" and not self.w.native(ty):
            vs = [i for i in range(len(t["v"])) if self.w.var_inhabited(ty, i)]
            if len(vs) == 1 and not self.w.field_types(ty, vs[0]):
                return Agg(ty, vs[0], ())
        if t["k"] == "pat" and c[0] == "int":
            return K(c[1])
        return Opq(("const", self.w.types[ty]["name"], json.dumps(c)))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, fn, rv, dest):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            p = self.place(st, fr, rv[2])
            if rv[1]:
                if p[0] == "v":
                    # a mutable reference to a zero sized constant, or an unsupported pattern
                    raise Unsupported("mutable reference behind a shared one")
                if p[1] not in st.mem:
                    b = self.blank(fn.locals[rv[2][0]])
                    st.mem[p[1]] = b if b is not None else UNINIT
                return MRef(p[1], p[2])
            if p[0] == "v":
                return Ref(p[1])
            return Ref(self.getpath(st, st.mem[p[1]], p[2]))
        if k == "reborrow":
            return self.rvalue(st, fr, fn, ["ref", rv[1], rv[2]], dest)
        if k == "raw":
            p = self.place(st, fr, rv[2])
            if p[0] == "v":
                return Ref(p[1])
            if rv[1] in ("mut", "Mut", True):
                return MRef(p[1], p[2])
            return Ref(self.getpath(st, st.mem[p[1]], p[2]))
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[2]]
            a = rv[1]
            if a[0] == "tuple":
                ty = self.place_ty(fn, dest)
                return Agg(ty, 0, tuple(ops))
            if a[0] == "array":
                return mkseq((("lit", tuple(ops)),))
            if a[0] == "adt":
                if a[3] is not None and a[3] >= 0 and self.w.types[a[1]]["k"] == "union":
                    return ops[0]
                if self.w.native(a[1]):
                    n = self.w.native(a[1])
                    if n[0] == "seq" and len(ops) == 1 and type(ops[0]) is Seq:
                        # a string of a vector
                        return Seq(ops[0].segs, self.w.isstr(a[1]))
                    if n[0] == "seq" and len(ops) == 2 and type(ops[1]) is Lin and ops[1] == ZERO:
                        return EMPTY
                    raise Unsupported("construction of %s" % self.w.types[a[1]]["name"])
                return Agg(a[1], a[2], tuple(ops))
            if a[0] == "closure":
                return Agg(a[1], 0, tuple(ops))
            raise Unsupported("aggregate %s" % a[0])
        if k == "discr":
            v = self.read(st, fr, rv[1])
            if v is UNINIT:
                # a type with a single possible value needs no value
                t = self.place_ty(fn, rv[1])
                vs = [i for i in range(len(self.w.types[t].get("v", ()))) if self.w.var_inhabited(t, i)]
                if len(vs) == 1:
                    return K(self.w.types[t]["v"][vs[0]]["d"])
            var = self.variant_of(st, v)
            return K(self.w.types[v.ty]["v"][var]["d"])
        if k == "bin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            ty = self.op_ty(fn, rv[2])
            dty = self.place_ty(fn, dest)
            return self.binop(st, rv[1], a, b, ty, dty)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            return self.unop(st, rv[1], a, self.op_ty(fn, rv[2]))
        if k == "cast":
            a = self.operand(st, fr, rv[2])
            return self.cast(st, rv[1], a, self.op_ty(fn, rv[2]), rv[3])
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            return mkseq((("rep", v, K(n)),))
        raise Unsupported("rvalue %s" % k)

    def binop(self, st, op, a, b, ty, dty):
        F = st.facts
        ta, tb = type(a), type(b)
        if ta is not Lin or tb is not Lin:
            if ta in (bool, Cond, Or, And) or tb in (bool, Cond, Or, And):
                return self.boolop(st, op, a, b)
            if op in ("Eq", "Ne") and a == b:
                return op == "Eq"
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                return self.unknown_bool((op, a, b))
            raise Unsupported("%s of %r and %r" % (op, a, b))
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if op == "Eq":
                return eq(a, b)
            if op == "Ne":
                return ne(a, b)
            if op == "Lt":
                return ge(b, a + 1)
            if op == "Le":
                return ge(b, a)
            if op == "Gt":
                return ge(a, b + 1)
            return ge(a, b)
        if op == "Cmp":
            c = ge(a, b)
            if F.entails(eq(a, b)):
                return self.ordering(dty, 0)
            if F.entails(ge(a, b + 1)):
                return self.ordering(dty, 1)
            if F.entails(ge(b, a + 1)):
                return self.ordering(dty, -1)
            raise NeedSplit(
                [
                    lambda s: s.facts.assume(eq(a, b)),
                    lambda s: s.facts.assume(ge(a, b + 1)),
                    lambda s: s.facts.assume(ge(b, a + 1)),
                ],
                "compare",
            )
        rng = self.w.range_of(ty) if ty is not None else None
        base = op
        ovf = False
        if op.endswith("WithOverflow"):
            base = op[: -len("WithOverflow")]
            ovf = True
        elif op.endswith("Unchecked"):
            base = op[: -len("Unchecked")]
        r = self.arith(st, base, a, b, rng, self.w.types[ty] if ty is not None else None)
        if base in ("Add", "Sub", "Mul"):
            lo, hi = rng
            inr = self.in_range(F, r, lo, hi)
            if ovf:
                fits = [x for x in (ge(r, K(lo)), ge(K(hi), r)) if not F.entails(x)]
                if not fits:
                    return Agg(dty, 0, (r, False))
                c = Or([neg(x) for x in fits]) if len(fits) > 1 else neg(fits[0])
                if c is True or c is False or not fits:
                    return Agg(dty, 0, (r, c))
                return Agg(dty, 0, (r, c))
            if inr:
                return r
            return self.wrap(st, r, lo, hi)
        if ovf:
            raise Unsupported(op)
        return r

    def in_range(self, F, r, lo, hi):
        return F.entails(ge(r, K(lo))) and F.entails(ge(K(hi), r))

    def wrap(self, st, r, lo, hi):
        """r modulo the range"""
        F = st.facts
        if self.in_range(F, r, lo, hi):
            return r
        if r.const:
            m = hi - lo + 1
            return K((r.c - lo) % m + lo)
        tb = table_of(r)
        m = hi - lo + 1
        if tb is not None:
            a, t = tb
            t = tuple((x - lo) % m + lo for x in t)
            if F.mask(a) == 3:
                return A(a) * (t[1] - t[0]) + t[0]
            return mk_table(a, t)
        # outside on one side only, by one turn
        if F.entails(ge(r, K(hi + 1))) and F.entails(ge(K(hi + m), r)):
            return r - m
        if F.entails(ge(K(lo - 1), r)) and F.entails(ge(r, K(lo - m))):
            return r + m
        return A(atom("op", ("wrap", r, lo, hi), lo, hi))

    def arith(self, st, op, a, b, rng, t):
        F = st.facts
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mul":
            if a.const:
                return b * a.c
            if b.const:
                return a * b.c
            return A(atom("op", ("mul",) + tuple(sorted((a, b), key=hash)), -(1 << 128), 1 << 128))
        if a.const and b.const:
            return K(self.cop(op, a.c, b.c, t))
        if op in ("BitAnd", "BitOr", "BitXor", "Shr", "Shl") and len(a.t) + len(b.t) > 0:
            r = self.bitwise(op, a, b, rng, F)
            if r is not None:
                return r
        # both are functions of one byte
        r = self.bytewise(op, a, b, t, F)
        if r is not None:
            return r
        if op == "BitOr" or op == "BitXor" or op == "Add":
            r = self.disjoint_or(F, a, b)
            if r is not None:
                return r
            r = self.disjoint_or(F, b, a)
            if r is not None:
                return r
            if a == ZERO:
                return b
            if b == ZERO:
                return a
        if op == "BitAnd":
            for x, y in ((a, b), (b, a)):
                if y.const and y.c >= 0:
                    m = y.c + 1
                    lo, hi = F.bounds(x)
                    if y.c == 0:
                        return ZERO
                    if m & (m - 1) == 0 and lo >= 0 and hi <= y.c:
                        return x
                    if m & (m - 1) == 0:
                        return self.wrap(st, x, 0, y.c)
        if op == "Shl" and b.const and t is not None:
            lo, hi = rng
            return self.wrap(st, a * (1 << (b.c % t["bits"])), lo, hi)
        if op in ("Shr", "Div") and b.const and b.c >= 0:
            d = (1 << b.c) if op == "Shr" else b.c
            if d > 0:
                lo, hi = F.bounds(a)
                if lo >= 0 and hi < d:
                    return ZERO
                if lo >= 0 and all(k % d == 0 for _, k in a.t) and a.c >= 0:
                    # exact part plus constant remainder
                    if all(k > 0 for _, k in a.t):
                        return Lin(a.c // d, tuple((x, k // d) for x, k in a.t))
        lo, hi = rng if rng else (-(1 << 128), 1 << 128)
        x, y = F.bounds(a), F.bounds(b)
        if op == "BitAnd" and x[0] >= 0 and y[0] >= 0:
            lo, hi = 0, min(hi, x[1], y[1])
        elif op in ("BitOr", "BitXor") and x[0] >= 0 and y[0] >= 0:
            n = max(x[1], y[1]).bit_length()
            lo, hi = 0, min(hi, (1 << n) - 1)
        elif op in ("Shr", "Div") and x[0] >= 0:
            lo, hi = 0, x[1]
            if b.const:
                d = (1 << b.c) if op == "Shr" else b.c
                if d > 0:
                    hi = x[1] // d
        elif op == "Rem" and x[0] >= 0 and y[0] > 0:
            lo, hi = 0, min(x[1], y[1] - 1)
            if F.entails(ge(b, a + 1)):
                return a
        key = (op, a, b)
        if op in ("BitAnd", "BitOr", "BitXor") and hash(b) < hash(a):
            key = (op, b, a)
        # the range of the atom is that of its type; what the facts add belongs to the state
        tlo, thi = rng if rng else (-(1 << 128), 1 << 128)
        r = A(atom("op", key + (tlo, thi), tlo, thi))
        if lo > tlo:
            F.assume(ge(r, K(lo)))
        if hi < thi:
            F.assume(ge(K(hi), r))
        return r

    def cop(self, op, x, y, t):
        if op == "BitAnd":
            return x & y
        if op == "BitOr":
            return x | y
        if op == "BitXor":
            r = x ^ y
            return r
        if op == "Shl":
            bits = t["bits"] if t else 64
            r = (x << (y % bits)) & ((1 << bits) - 1)
            if t and t["s"] and r >> (bits - 1):
                r -= 1 << bits
            return r
        if op == "Shr":
            bits = t["bits"] if t else 64
            return x >> (y % bits)
        if op == "Div":
            if y == 0:
                raise Infeasible
            q = abs(x) // abs(y)
            return q if (x >= 0) == (y >= 0) else -q
        if op == "Rem":
            if y == 0:
                raise Infeasible
            r = abs(x) % abs(y)
            return r if x >= 0 else -r
        raise Unsupported(op)

    def bytewise(self, op, a, b, t, F):
        ta = table_of(a) if a.t else None
        tb = table_of(b) if b.t else None
        if a.t and ta is None or b.t and tb is None:
            return None
        if ta and tb and ta[0] is not tb[0]:
            return None
        base = (ta or tb)[0]
        m = F.mask(base)
        va = ta[1] if ta else (a.c,) * 256
        vb = tb[1] if tb else (b.c,) * 256
        out = []
        dflt = None
        for i in range(256):
            if m >> i & 1:
                try:
                    v = self.cop(op, va[i], vb[i], t)
                except Infeasible:
                    v = 0
                if dflt is None:
                    dflt = v
                out.append(v)
            else:
                try:
                    v = self.cop(op, va[i], vb[i], t)
                except Infeasible:
                    v = 0
                out.append(v)
        # a constant on all the possible bytes
        vals = {out[i] for i in range(256) if m >> i & 1}
        if len(vals) == 1:
            return K(vals.pop())
        if m == 3:
            return A(base) * (out[1] - out[0]) + out[0]
        # the byte itself on all the possible bytes, possibly shifted
        ds = {out[i] - i for i in range(256) if m >> i & 1}
        if len(ds) == 1:
            return A(base) + ds.pop()
        return mk_table(base, tuple(out))

    def bits_of(self, F, l):
        """the binary digits of a number whose digits are unknown numbers of 0 or 1: place -> atom (None: the digit 1)"""
        if l.c < 0 or len(l.t) > 64:
            return None
        out = {}
        c = l.c
        for x, k in l.t:
            if k <= 0 or k & (k - 1) or x.lo < 0 or F.bounds(A(x))[1] > 1 or F.bounds(A(x))[0] < 0:
                return None
            lo, hi = F.bounds(A(x))
            if lo == hi:
                c += lo * k
                continue
            p = k.bit_length() - 1
            if p in out:
                return None
            out[p] = x
        while c:
            p = c.bit_length() - 1
            if p in out:
                return None
            out[p] = None
            c -= 1 << p
        return out

    def bitwise(self, op, a, b, rng, F):
        x = self.bits_of(F, a)
        y = self.bits_of(F, b) if x is not None else None
        if x is None or y is None or not (any(x.values()) or any(y.values())):
            return None
        if op in ("Shl", "Shr"):
            if any(y.values()) or rng is None or rng[0] < 0:
                return None
            n = sum(1 << p for p in y)
            if op == "Shr":
                r = {p - n: d for p, d in x.items() if p >= n}
            else:
                r = {p + n: d for p, d in x.items() if p + n < rng[1].bit_length()}
        elif op == "BitAnd":
            r = {}
            for p in set(x) & set(y):
                if x[p] is None or x[p] is y[p]:
                    r[p] = y[p]
                elif y[p] is None:
                    r[p] = x[p]
                else:
                    return None
        else:
            r = dict(x)
            for p, d in y.items():
                if p not in r:
                    r[p] = d
                elif op == "BitXor":
                    if r[p] is not d:
                        return None
                    del r[p]
                elif r[p] is None or d is None:
                    r[p] = None
                elif r[p] is not d:
                    return None
        l = ZERO
        for p, d in sorted(r.items()):
            l = l + (K(1 << p) if d is None else A(d) * (1 << p))
        return l

    def disjoint_or(self, F, a, b):
        """a | b where a is a multiple of 2^k and 0 <= b < 2^k"""
        lo, hi = F.bounds(b)
        if lo < 0:
            return None
        k = hi.bit_length()
        d = 1 << k
        if a.c % d == 0 and all(x % d == 0 for _, x in a.t):
            return a + b
        return None

    def unop(self, st, op, a, ty):
        if op == "Not":
            if type(a) in (bool, Cond, Or, And):
                return neg(a)
            t = self.w.types[ty]
            lo, hi = self.w.range_of(ty)
            if t["s"]:
                return -a - 1
            return K(hi) - a
        if op == "Neg":
            lo, hi = self.w.range_of(ty)
            return self.wrap(st, -a, lo, hi)
        if op == "PtrMetadata":
            v = a.v if type(a) is Ref else self.rd(st, a) if type(a) is MRef else None
            v = self.unwrap_seq(v)
            if type(v) is Seq:
                return seq_len(v)
            raise Unsupported("metadata of %r" % (a,))
        raise Unsupported("unary %s" % op)

    def unwrap_seq(self, v):
        while type(v) is Agg:
            nz = [x for x in v.f if not (type(x) is Agg and not x.f)]
            if len(nz) != 1:
                return None
            v = nz[0]
        return v

    def boolop(self, st, op, a, b):
        if op in ("Eq", "Ne"):
            if type(a) is bool or type(b) is bool:
                if type(a) is bool:
                    a, b = b, a
                r = a if b else neg(a)
                return r if op == "Eq" else neg(r)
            if a == b:
                return op == "Eq"
        if op == "BitAnd":
            if a is False or b is False:
                return False
            if a is True:
                return b
            if b is True:
                return a
            return And([a, b])
        if op == "BitOr":
            if a is True or b is True:
                return True
            if a is False:
                return b
            if b is False:
                return a
            return Or([a, b])
        self.decide(st, a)
        self.decide(st, b)
        x, y = st.facts.entails(a), st.facts.entails(b)
        if op == "Eq":
            return x == y
        if op in ("Ne", "BitXor"):
            return x != y
        if op == "Lt":
            return (not x) and y
        if op == "Gt":
            return x and not y
        if op == "Le":
            return (not x) or y
        if op == "Ge":
            return x or not y
        raise Unsupported("bool %s" % op)

    def decide(self, st, c):
        if c is True or c is False:
            return c
        if st.facts.entails(c):
            return True
        if st.facts.refutes(c):
            return False
        raise NeedSplit([lambda s: s.facts.assume(c), lambda s: s.facts.assume(neg(c))], "condition")

    def unknown_bool(self, key):
        return Cond("eq", A(atom("op", ("bool",) + key, 0, 1)) - 1)

    def as_lin(self, v):
        """a boolean as a number, if it is a constant"""
        if v is True:
            return ONE
        if v is False:
            return ZERO
        return v

    def ordering(self, ty, n):
        t = self.w.types[ty]
        for i, v in enumerate(t["v"]):
            d = v["d"]
            if d == n or d == n + 256 or (n == -1 and d in (255, -1)):
                return Agg(ty, i, ())
        raise Unsupported("ordering")

    def cast(self, st, kind, a, fty, tty):
        t = self.w.types[tty]
        if kind in ("IntToInt",):
            if type(a) in (bool, Cond, Or, And):
                v = self.decide(st, a)
                return ONE if v else ZERO
            if type(a) is not Lin:
                raise Unsupported("cast of %r" % (a,))
            lo, hi = self.w.range_of(tty)
            return self.wrap(st, a, lo, hi)
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "ptr", "Unsize", "MutToConstPointer", "BoxDerefTransmute", "ReifyFnPointer", "ClosureFnPointer", "ArrayToPointer") or "Pointer" in kind:
            return self.ptr_cast(st, a, fty, tty)
        if kind.startswith("Float") or kind.startswith("IntToFloat"):
            return Opq(("cast", kind, tty, a))
        raise Unsupported("cast %s" % kind)

    def ptr_cast(self, st, a, fty, tty):
        t = self.w.types[tty]
        f = self.w.types[fty] if fty is not None else None
        if t["k"] in ("ref", "ptr"):
            e = t["e"]
            if type(a) is Ref:
                return Ref(self.coerce(a.v, e))
            if type(a) is MRef:
                if t["k"] == "ref" and not t["m"]:
                    return Ref(self.coerce(self.rd(st, a), e))
                return a
            if type(a) is Opq:
                return a
        if t["k"] == "fnptr":
            return a
        if t["k"] == "int" and type(a) is Lin:
            lo, hi = self.w.range_of(tty)
            return self.wrap(st, a, lo, hi)
        if t["k"] == "int" and type(a) is Agg:
            # the number in a NonZero, or in an optional one
            if t_opt(self.w, a.ty) and self.nonzero(self.w.field_types(a.ty, 1)[0]):
                if self.variant_of(st, a) == 0:
                    return ZERO
                a = a.f[0]
            x = a
            while type(x) is Agg and len(x.f) == 1:
                x = x.f[0]
            if type(x) is Lin and self.nonzero(a.ty):
                return x
        if type(a) is Lin and self.nonzero(tty):
            return self.coerce(a, tty)
        if type(a) is Lin and t_opt(self.w, tty):
            e = self.w.field_types(tty, 1)[0]
            if self.nonzero(e):
                if self.decide(st, eq(a, ZERO)):
                    return Agg(tty, 0, ())
                return Agg(tty, 1, (self.coerce(a, e),))
        if f is not None and f["k"] == t["k"] and type(a) is Agg and len(a.f) == len(self.w.field_types(tty, 0)):
            return Agg(tty, a.var, a.f)
        raise Unsupported("cast of %r to %s" % (a, t["name"]))

    def nonzero(self, ty):
        t = self.w.types[ty]
        return t["k"] == "struct" and t.get("p") == "core::num::nonzero::NonZero"

    def coerce(self, v, ty):
        """the value seen at another pointee type of the same layout"""
        t = self.w.types[ty]
        if self.w.native(ty) is not None:
            n = self.w.native(ty)
            q = self.unwrap_seq(v) if type(v) is Agg else v
            if type(q) is Seq and n[0] == "seq":
                return q
            raise Unsupported("coercion of %r" % (v,))
        if t["k"] == "struct":
            if type(v) is Agg and v.ty == ty:
                return v
            fs = self.w.field_types(ty, 0)
            nz = [i for i, x in enumerate(fs) if not self.zst(x)]
            if type(v) is Agg:
                v = self.unwrap_seq(v)
            if len(nz) == 1 and v is not None:
                return Agg(ty, 0, tuple(self.coerce(v, x) if i == nz[0] else self.w.make(x, ("zst",)) for i, x in enumerate(fs)))
        if t["k"] == "dyn":
            return Opq(("dyn", v))
        if type(v) is Lin:
            return v
        if type(v) is Agg and v.ty == ty:
            return v
        raise Unsupported("coercion of %r to %s" % (v, t["name"]))

    def zst(self, ty):
        t = self.w.types[ty]
        if t["k"] == "struct":
            if t["p"] == "core::marker::PhantomData":
                return True
            return all(self.zst(f) for f in self.w.field_types(ty, 0))
        if t["k"] == "tuple":
            return all(self.zst(f) for f in t["f"])
        return False

    # ------------------------------------------------------------ statements
    def split(self, st, e):
        """apply the alternatives of a NeedSplit"""
        self.stats["splits"] += 1
        out = []
        for f in e.alts:
            s = st.fork()
            try:
                f(s)
            except Infeasible:
                continue
            out.append(s)
        return out

    def exec_block(self, fn, fr, b, st0):
        """[(target, state)], a target of -1 is a return"""
        stmts, term = fn.blocks[b]
        self.stats["blocks"] += 1
        if self.stats["blocks"] > self.budget:
            raise Unsupported("analysis budget exhausted")
        out = []
        work = [(st0, 0)]
        n = len(stmts)
        while work:
            st, i = work.pop()
            try:
                while i < n:
                    self.stmt(fn, fr, stmts[i], st)
                    i += 1
                self.term(fn, fr, b, term, st, out)
            except NeedSplit as e:
                for s in self.split(st, e):
                    work.append((s, i))
            except Infeasible:
                continue
            except Unsupported as e:
                if not hasattr(e, "stack"):
                    e.stack = [(f.path, s) for f, s in self.stack]
                    e.at = (fn.path, b, i, stmts[i] if i < n else term)
                    e.trace = tracelist(st.trace)
                raise
        return out

    def stmt(self, fn, fr, s, st):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, fr, fn, s[2], s[1])
            self.write(st, fr, fn, s[1], v)
        elif k == "x":
            st.mem.pop((fr, s[1]), None)
        elif k == "l":
            st.mem.pop((fr, s[1]), None)
        elif k == "sd":
            v = self.read(st, fr, s[1])
            raise Unsupported("set discriminant")
        elif k == "assume":
            pass
        elif k == "nop":
            pass
        else:
            raise Unsupported("statement %s" % (s,))

    def term(self, fn, fr, b, t, st, out):
        k = t[0]
        if k == "goto":
            out.append((t[1], st))
        elif k == "switch":
            self.switch(fn, fr, t, st, out)
        elif k == "ret":
            out.append((-1, st))
        elif k == "drop":
            if t[1] and not t[1][1]:
                pass
            out.append((t[2], st))
        elif k == "call":
            self.call_term(fn, fr, b, t, st, out)
        elif k == "assert":
            c = self.operand(st, fr, t[1])
            exp = bool(t[2])
            good = c if exp else neg(c)
            self.stack[-1] = (fn, t[5])
            if not (good is True or st.facts.entails(good) or self.counts(st, t[3], good)):
                self.site("assert", t[5], False)
                self.alarm("panic", t[5], "%s possible when %r" % (t[3] if isinstance(t[3], str) else t[3][0], neg(good)), st)
                st.facts.assume(good)
            else:
                self.site("assert", t[5], True)
            out.append((t[4], st))
        elif k == "unreachable":
            self.stack[-1] = (fn, t[1])
            self.alarm("unreachable", t[1], "unreachable code can be reached", st)
        elif k == "cleanup":
            raise Unsupported("cleanup block reached")
        else:
            raise Unsupported("terminator %s" % (t,))

    def switch(self, fn, fr, t, st, out):
        v = self.operand(st, fr, t[1])
        targets, other = t[2], t[3]
        span = t[4] if len(t) > 4 else ""
        tr = (st.trace, span) if span.startswith("/repo") else st.trace
        if type(v) in (bool, Cond, Or, And):
            for val, blk in [(x, y) for x, y in targets] + [(None, other)]:
                if val is None:
                    rest = {0, 1} - {x for x, _ in targets}
                    if not rest:
                        continue
                    want = rest.pop() == 1
                else:
                    want = val == 1
                c = v if want else neg(v)
                if c is False:
                    continue
                if c is True:
                    st.trace = tr
                    out.append((blk, st))
                    continue
                for cc in disjuncts(c):
                    s = st.fork()
                    s.trace = tr
                    try:
                        s.facts.assume(cc)
                    except Infeasible:
                        continue
                    out.append((blk, s))
            return
        if type(v) is not Lin:
            raise Unsupported("switch on %r" % (v,))
        if v.const:
            for val, blk in targets:
                if val == v.c:
                    out.append((blk, st))
                    return
            out.append((other, st))
            return
        # group the targets
        groups = {}
        for val, blk in targets:
            groups.setdefault(blk, []).append(val)
        tb = table_of(v)
        rest = None
        if tb is not None:
            a, tab = tb
            m = st.facts.mask(a)
            left = m
            for blk, vals in groups.items():
                vs = set(vals)
                mm = 0
                for i in range(256):
                    if m >> i & 1 and tab[i] in vs:
                        mm |= 1 << i
                left &= ~mm
                if mm:
                    s = st.fork()
                    s.trace = tr
                    s.facts.sets[a] = mm
                    out.append((blk, s))
            if left:
                s = st.fork()
                s.trace = tr
                s.facts.sets[a] = left
                out.append((other, s))
            return
        for blk, vals in groups.items():
            for val in vals:
                s = st.fork()
                s.trace = tr
                try:
                    s.facts.assume(eq(v, K(val)))
                except Infeasible:
                    continue
                out.append((blk, s))
        s = st.fork()
        s.trace = tr
        try:
            for val, _ in targets:
                s.facts.assume(ne(v, K(val)))
        except Infeasible:
            return
        out.append((other, s))

    # ------------------------------------------------------------ calls
    def call_term(self, fn, fr, b, t, st, out):
        args = [self.operand(st, fr, a) for a in t[2]]
        f = t[1]
        if f[0] == "k" and f[1][1][0] == "fn":
            c = f[1][1][1]
        else:
            v = self.operand(st, fr, f)
            if type(v) is Fn:
                c = v.c
            else:
                ty = self.op_ty(fn, f)
                tt = self.w.types[ty] if ty is not None else {}
                if tt.get("k") == "fndef":
                    c = tt["c"]
                else:
                    raise Unsupported("call of %r" % (v,))
        # locals that are dead after the call need not be carried through it
        tgt = t[4] if t[4] is not None else -1
        span = t[5]
        self.stack[-1] = (fn, span)
        dty = self.place_ty(fn, t[3])
        argtys = [self.op_ty(fn, a) for a in t[2]]
        keep = st.mem
        if tgt >= 0:
            live = fn.live[tgt]
            dest = t[3][0]
            drop = [
                r for r in keep
                if r[0] == fr and type(r[1]) is int and r[1] not in live and r[1] not in fn.mutaddr
                and not (t[3][1] and r[1] == dest)
            ]
            if drop:
                st = State({k: v for k, v in keep.items() if k not in drop}, st.facts.copy(), st.trace)
        for s, r in self.call(st, c, args, fr, b, span, dty, argtys):
            if tgt < 0:
                continue
            # writing the destination may in turn need a split
            todo = [s]
            while todo:
                x = todo.pop()
                try:
                    self.write(x, fr, fn, t[3], r)
                    out.append((tgt, x))
                except NeedSplit as e:
                    todo.extend(self.split(x, e))

    def call(self, st, c, args, fr, blk, span, dty=None, argtys=None):
        """analyse a call; [(state, result)]"""
        self.stats["calls"] += 1
        if c["kind"] == "ctor":
            return [(st, Agg(dty, c["var"], tuple(args)))]
        m = self.models.find(c)
        if m is not None:
            return m(self, st, c, args, Call(fr, blk, span, dty, argtys))
        if c["kind"] == "item" and c["key"] >= 0:
            f = self.w.fn(c["key"])
            if f is not None:
                if c["decl"].startswith("core::ops::function::Fn") and f.closure and len(args) == 2:
                    args = [args[0]] + list(args[1].f)
                elif c["decl"].startswith("core::ops::function::Fn") and f.kind == "item" and not f.path.startswith(
                    "core::ops::function"
                ):
                    args = list(args[1].f)
                return self.run(f, args, st, self.frame_id(fr, c["key"], blk))
        return self.models.unknown(self, st, c, args, Call(fr, blk, span, dty, argtys))

    def run(self, fn, args, st, fr):
        if any(f is fn for f, _ in self.stack) and sum(1 for f, _ in self.stack if f is fn) > 3:
            raise Unsupported("recursion in %s" % fn.path)
        if len(self.stack) > self.maxdepth:
            raise Unsupported("call depth")
        self.fns_seen.add((fn.krate, fn.path))
        self.frame_fn[fr] = fn
        st = st.fork()
        if len(args) != fn.argc:
            raise Unsupported("arity of %s: %d for %d" % (fn.path, len(args), fn.argc))
        for i, a in enumerate(args):
            st.mem[(fr, i + 1)] = a
        self.stack.append((fn, fn.span))
        try:
            outs = self.sched(fn, fr, fn.wto, {0: [st]}, None)[-1]
        finally:
            self.stack.pop()
        res = []
        for s in outs:
            r = s.mem.get((fr, 0), None)
            if r is None:
                t = self.w.types[fn.locals[0]]
                r = Agg(fn.locals[0], 0, ()) if t["k"] == "tuple" and not t["f"] else UNINIT
            for k in [k for k in s.mem if k[0] == fr]:
                del s.mem[k]
            res.append((s, r))
        if len(res) > 1:
            res = self.merge_results(res)
        return res

    def merge_results(self, res):
        groups = {}
        for s, r in res:
            k = (r, frozenset(s.mem.items()))
            groups.setdefault(k, []).append(s)
        out = []
        for (r, _), ss in groups.items():
            for s in self.loops.join_equal(ss):
                out.append((s, r))
        return out

    def sched(self, fn, fr, wto, pending, within):
        """run the blocks of a weak topological order; returns the states leaving it by target"""
        outs = {-1: []}
        for el in wto:
            if type(el) is tuple:
                sts = pending.pop(el[0], None)
                if not sts:
                    continue
                res = self.loops.analyse(fn, fr, el, self.prune(fn, fr, el[0], sts))
            else:
                sts = pending.pop(el, None)
                if not sts:
                    continue
                res = []
                sts = self.prune(fn, fr, el, sts)
                if len(sts) > 8 and fn.krate == "cbored" and self.w.loops_below(fn.blocks[el]):
                    sts = self.loops.join_many(fn, fr, el, sts)
                for s in sts:
                    res.extend(self.exec_block(fn, fr, el, s))
            for tgt, s in res:
                if tgt == -1:
                    outs[-1].append(s)
                elif within is None or tgt in within:
                    pending.setdefault(tgt, []).append(s)
                else:
                    outs.setdefault(tgt, []).append(s)
        for tgt, ss in pending.items():
            outs.setdefault(tgt, []).extend(ss)
        return outs

    def prune(self, fn, fr, b, sts):
        live = fn.live[b]
        for s in sts:
            dead = [r for r in s.mem if r[0] == fr and type(r[1]) is int and r[1] not in live and r[1] not in fn.mutaddr]
            for r in dead:
                del s.mem[r]
        if len(sts) == 1:
            return sts
        groups = {}
        for s in sts:
            groups.setdefault(frozenset(s.mem.items()), []).append(s)
        out = []
        for ss in groups.values():
            out.extend(self.loops.join_equal(ss))
        return out


class Call:
    __slots__ = ("fr", "blk", "span", "dty", "argtys")

    def __init__(self, fr, blk, span, dty, argtys):
        self.fr = fr
        self.blk = blk
        self.span = span
        self.dty = dty
        self.argtys = argtys


def disjuncts(c):
    """conditions whose disjunction is c, made exclusive"""
    if type(c) is Or:
        out = []
        prev = []
        for x in c.cs:
            out.append(And(prev + [x]) if prev else x)
            prev = prev + [neg(x)]
        return out
    return [c]


def tracelist(t):
    r = []
    while t is not None and len(r) < 14:
        if not r or r[-1] != t[1]:
            r.append(t[1])
        t = t[0]
    return r[::-1]
