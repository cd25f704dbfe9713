"""Loop fixpoints, joins of states, and the invariants that relate what a loop changes.

The states that reach a loop head are partitioned by shape (which variants, which boolean constants,
which literal structure); inside a partition, whatever two states disagree on is replaced by a head
atom. Disagreements that keep a constant difference (or a constant sum) share one atom, so counters
that move together stay related. Candidate inequalities between head atoms are kept as long as
every state that reaches the head satisfies them. Vectors that grow are replaced by an unknown
sequence with a template of their elements; when what one iteration appends is a function of the
iteration number alone, by the exact comprehension.
"""
import os

from terms import *
from values import *

WIDE = (-(1 << 127), 1 << 127)
THRESH = [0, 1, 19, 23, 255, 65535, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1]


class Restart(Exception):
    pass


class TooMany(Unsupported):
    pass


class Part:
    __slots__ = ("state", "heads", "k", "joins", "dirty", "exits", "backs", "events", "pid", "star", "parent")

    def __init__(self, state, pid):
        self.state = state
        self.heads = {}
        self.k = 0
        self.joins = 0
        self.dirty = True
        self.exits = []
        self.backs = []
        self.events = []
        self.pid = pid
        self.star = False
        self.parent = None


class Loops:
    def __init__(self, interp):
        self.I = interp
        self.tpn = 0
        self.info = {}  # (fn path, head) -> description, for evidence
        self.tmplids = {}
        self.shapes = {}

    # ------------------------------------------------------------ shapes
    def shape(self, v, path, L):
        t = type(v)
        if t is Lin:
            return "#"
        if t is bool:
            return v
        if t is Cond or t is Or or t is And:
            return "?"
        if t is Agg:
            return (v.ty, v.var) + tuple(self.shape(x, path + (i,), L) for i, x in enumerate(v.f))
        if t is Ref:
            return ("r", self.shape(v.v, path + ("r",), L))
        if t is MRef:
            return ("m", v.root, tuple((e[0], e[1]) if e[0] in "fd" else e[0] for e in v.path))
        if t is Seq:
            if L is not None and path in L.collapse:
                return "S*"
            return ("S",) + tuple(self.seg_shape(s, path, L) for s in v.segs)
        if t is Sym:
            return ("y", v.ty)
        if t is Opq:
            return "o"
        if t is Fn:
            return v.key
        raise Unsupported("shape of %r" % (v,))

    def seg_shape(self, s, path, L):
        k = s[0]
        if k == "sub":
            return ("sub", s[1].id)
        if k == "lit":
            return ("lit",) + tuple(self.shape(x, path + ("l", i), L) for i, x in enumerate(s[1]))
        if k == "be":
            return ("be", s[1])
        if k == "rep":
            return ("rep", self.shape(s[1], path + ("e",), L))
        if k == "star":
            return ("star", s[2].id, len(s[3]))
        return (k,) + tuple(x for x in s[1:] if type(x) in (int, str, Base))

    def resolve(self, st, v):
        """replace symbolic enums whose variant is known by that variant"""
        t = type(v)
        if t is Sym:
            c = st.facts.choice.get(v.key)
            if c is None:
                return v
            return self.resolve(st, self.I.w.expand(v, c))
        if t is Agg:
            f = tuple(self.resolve(st, x) for x in v.f)
            return Agg(v.ty, v.var, f) if f != v.f else v
        if t is Ref:
            return Ref(self.resolve(st, v.v))
        if t is Seq:
            if any(s[0] == "lit" for s in v.segs):
                return mkseq(
                    [("lit", tuple(self.resolve(st, x) for x in s[1])) if s[0] == "lit" else s for s in v.segs], v.utf8
                )
        return v

    def split_bools(self, st, limit=4):
        """the states with each unknown truth value in memory known: what it is correlated with is kept"""
        found = []
        for r, v in st.mem.items():
            bools_of(v, (r,), found)
        if not found:
            return [st]
        done = []
        todo = [(st, found)]
        while todo:
            s, fs = todo.pop()
            if not fs:
                done.append(s)
                continue
            path, c = fs[0]
            try:
                val = True if s.facts.entails(c) else False if s.facts.refutes(c) else None
            except Infeasible:
                continue
            if val is not None:
                set_bool(s, path, val)
                todo.append((s, fs[1:]))
            elif len(done) + len(todo) + 1 >= limit:
                todo.append((s, fs[1:]))
            else:
                for x, y in ((True, c), (False, neg(c))):
                    n = s.fork()
                    try:
                        n.facts.assume(y)
                    except Infeasible:
                        continue
                    set_bool(n, path, x)
                    todo.append((n, fs[1:]))
        return done

    def state_shape(self, st, L):
        return tuple(sorted(((repr(r), self.shape(v, (r,), L)) for r, v in st.mem.items()), key=lambda x: x[0]))

    def seqs(self, v, path, out):
        t = type(v)
        if t is Agg:
            for i, x in enumerate(v.f):
                self.seqs(x, path + (i,), out)
        elif t is Ref:
            self.seqs(v.v, path + ("r",), out)
        elif t is Seq:
            out[path] = v

    # ------------------------------------------------------------ joining equal states
    def join_equal(self, ss, limit=300):
        """states with the same values: fewer states with weaker facts"""
        if len(ss) == 1:
            return ss
        out = []
        for s in ss:
            merged = False
            for o in out:
                if self.try_merge(o, s):
                    merged = True
                    break
            if not merged:
                out.append(s)
        # a merge may enable others
        if len(out) > 1 and len(out) < len(ss):
            again = self.join_equal(out, limit)
            out = again
        if len(out) > limit:
            s = out[0]
            for o in out[1:]:
                s = State_join(self, s, o)
            return [s]
        return out

    def try_merge(self, o, s):
        a, b = o.facts, s.facts
        if a.choice != b.choice or a.props != b.props:
            ch = self.choice_rel(a.choice, b.choice)
            if ch is None or a.props != b.props:
                return False
        if set(a.ineq) != set(b.ineq) or a.nes != b.nes or a.bnd != b.bnd:
            # one implies the other?
            if implies_facts(b, a):
                return True
            if implies_facts(a, b):
                o.facts = b
                return True
            return False
        if a.choice != b.choice:
            if implies_facts(b, a):
                return True
            if implies_facts(a, b):
                o.facts = b
                return True
            return False
        if a.sets == b.sets:
            return True
        keys = set(a.sets) | set(b.sets)
        diff = [k for k in keys if a.sets.get(k, FULL) != b.sets.get(k, FULL)]
        if len(diff) == 1:
            k = diff[0]
            o.facts = a.copy()
            m = a.sets.get(k, FULL) | b.sets.get(k, FULL)
            if m == FULL:
                o.facts.sets.pop(k, None)
            else:
                o.facts.sets[k] = m
            return True
        if implies_facts(b, a):
            return True
        if implies_facts(a, b):
            o.facts = b
            return True
        return False

    def choice_rel(self, a, b):
        small, big = (a, b) if len(a) <= len(b) else (b, a)
        if all(big.get(k) == v for k, v in small.items()):
            return True
        return None

    # ------------------------------------------------------------ loops
    def analyse(self, fn, fr, el, sts):
        if len(sts) > 8:
            # many ways to get here: one fixpoint for all of them
            return self.one(fn, fr, el, sts)
        res = []
        for e in sts:
            res.extend(self.one(fn, fr, el, [e]))
        return res

    def join_many(self, fn, fr, blk, sts):
        """fewer states, by shape: what they disagree on becomes unknown, with what all of them know of it"""
        L = self.inst(fn, fr, (("j", blk), None, None), sts)
        tries = 0
        while True:
            tries += 1
            if tries > 30:
                raise Unsupported("states in %s cannot be joined" % (fn.path,))
            try:
                L.start()
                break
            except Restart:
                continue
            except TooMany:
                # they stay apart
                return sts
        out = [p.state for p in L.order]
        for s in out:
            s.mem.pop(L.ghost, None)
        return out

    def one(self, fn, fr, el, es):
        self.I.stats["loops"] += 1
        L = self.inst(fn, fr, el, es)
        n, most = self.I.unroll or self.trips(fr, es), 64
        if not n and all(fn.blocks[b][1][0] != "call" for b in L.nodes):
            # nothing but arithmetic: it may be over after a few turns, whatever it starts from
            n, most = 17, 8
        if n:
            out = L.unroll(n, most)
            if out is not None:
                return out
        tries = 0
        while True:
            tries += 1
            if tries > 30:
                raise Unsupported("loop at %s does not stabilise" % (fn.path,))
            try:
                return L.solve()
            except Restart:
                continue

    def trips(self, fr, es, limit=16):
        """how often a loop can go round that goes through something whose length is a small constant"""
        most = 0
        for e in es:
            ns = []
            for r, v in e.mem.items():
                if r[0] == fr:
                    self.bounded(e, v, ns, 0)
            ns = [n for n in ns if n <= limit]
            if not ns:
                return 0
            most = max(most, max(ns))
        return most + 1

    def bounded(self, st, v, out, depth):
        """the small constant lengths of the iterators in a value, and of ranges"""
        if depth > 5:
            return
        if type(v) is MRef:
            w = st.mem.get(v.root)
            if w is None:
                return
            try:
                self.bounded(st, self.I.getpath(st, w, v.path), out, depth + 1)
            except Unsupported:
                pass
            return
        if type(v) is not Agg or type(v.ty) is not int:
            return
        k = self.I.w.native(v.ty)
        n = None
        if k is not None:
            if k[0] in ("iter", "intoiter", "itermut") and len(v.f) == 1:
                if type(v.f[0]) is Seq:
                    n = seq_len(v.f[0])
                elif type(v.f[0]) is MRef and v.f[0].path and v.f[0].path[-1][0] == "s":
                    n = v.f[0].path[-1][2]
        else:
            t = self.I.w.types[v.ty]
            if t.get("p") == "core::ops::range::Range" and all(type(x) is Lin for x in v.f):
                n = v.f[1] - v.f[0]
            elif t["k"] in ("struct", "closure"):
                for x in v.f:
                    self.bounded(st, x, out, depth + 1)
        if n is not None and n.const and n.c > 0:
            out.append(n.c)

    def inst(self, fn, fr, el, es):
        head = el[0]
        used = set()
        vs = []
        for e in es:
            vs += list(e.mem.values())
            vs += [tuple(e.facts.sets), tuple(e.facts.bnd), e.facts.ineq, tuple(e.facts.nes), tuple(e.facts.choice), tuple(e.facts.props)]
        for v in vs:
            ats, bs, ks = atoms_in(v)
            for a in ats:
                if a.kind == "head" and a.args[0][:2] == (fr, head):
                    used.add(a.args[0][2])
            for b in bs:
                if type(b.name) is tuple and b.name and b.name[0] == "H" and b.name[1][:2] == (fr, head):
                    used.add(b.name[1][2])
            for k in ks:
                if type(k) is tuple and len(k) > 1 and k[0] == "hs" and k[1][:2] == (fr, head):
                    used.add(k[1][2])
        g = 0
        while g in used:
            g += 1
        return LoopInst(self, fn, fr, el, (fr, head, g), es)

    # ------------------------------------------------------------ templates
    def instantiate(self, st, base, idx):
        alts = base.tmpl
        key = ("alt", base, idx)
        if len(alts) == 1:
            j = 0
        else:
            j = st.facts.choice.get(key)
            if j is None:
                raise NeedSplit(
                    [lambda s, j=j: s.facts.choice.__setitem__(key, j) for j in range(len(alts))], "element shape"
                )
        v, f = alts[j]
        amap, bmap, kmap = {}, {}, {}
        ats, bs, ks = atoms_in((v,) + tuple(f.sets) + tuple(f.bnd) + f.ineq + tuple(f.nes) + tuple(f.choice))
        for a in ats:
            if a.kind == "tp":
                amap[a] = A(atom("el", (base, idx, a.args), a.lo, a.hi))
        for b in bs:
            if type(b.name) is tuple and b.name[0] == "tpb":
                nb = Base(("elb", base, idx, b.name), b.ety)
                nb.tmpl = b.tmpl
                bmap[b] = nb
        for k in ks:
            if type(k) is tuple and k and k[0] == "tpk":
                kmap[k] = None
        sb = Subst(amap, bmap, None)
        if kmap:
            sb.kmap = {}
            for k in kmap:
                # the symbol keeps its type
                sb.kmap[k] = ("elk", base, idx, k)
            sb = KSubst(amap, bmap, sb.kmap)
        r = sb.any(v)
        sb.facts(f, st.facts)
        return r


class KSubst(Subst):
    """also renames the keys of symbolic enums"""

    def __init__(self, amap, bmap, keys):
        Subst.__init__(self, amap, bmap, keys)
        self.keys = keys

    def any(self, o):
        if type(o) is Sym and o.key in self.keys:
            return Sym(o.ty, self.keys[o.key])
        if type(o) is tuple and o in self.keys:
            return self.keys[o]
        return Subst.any(self, o)

    def touched(self, obj):
        return True if atoms_in(obj)[2] else Subst.touched(self, obj)


def implies_facts(f, g):
    """f entails g"""
    if any(f.choice.get(k) != v for k, v in g.choice.items()):
        return False
    if not g.props <= f.props:
        return False
    for a, m in g.sets.items():
        if f.mask(a) & ~m:
            return False
    for a, (lo, hi) in g.bnd.items():
        l2, h2 = f.abounds(a)
        if l2 < lo or h2 > hi:
            return False
    for l in g.ineq:
        if not f.entails_ge(l):
            return False
    for l in g.nes:
        if not f.entails(Cond("ne", l)):
            return False
    return True


def State_join(loops, s, o):
    """same values, weaker facts"""
    r = s.fork()
    r.facts = join_facts(s.facts, o.facts)
    return r


def join_facts(a, b):
    f = Facts()
    for k, m in a.sets.items():
        n = m | b.mask(k)
        if n != FULL:
            f.sets[k] = n
    for k, (lo, hi) in a.bnd.items():
        l2, h2 = b.abounds(k)
        lo, hi = min(lo, l2), max(hi, h2)
        if lo > k.lo or hi < k.hi:
            f.bnd[k] = (lo, hi)
    for k, (lo, hi) in b.bnd.items():
        if k not in f.bnd and k not in a.bnd:
            l2, h2 = a.abounds(k)
            lo, hi = min(lo, l2), max(hi, h2)
            if lo > k.lo or hi < k.hi:
                f.bnd[k] = (lo, hi)
    f.ineq = tuple(l for l in a.ineq if b.entails_ge(l)) + tuple(
        l for l in b.ineq if l not in a.ineq and a.entails_ge(l)
    )
    f.nes = frozenset(l for l in a.nes if b.entails(Cond("ne", l)))
    f.choice = {k: v for k, v in a.choice.items() if b.choice.get(k) == v}
    f.props = a.props & b.props
    return f


def least(F, m, lo, hi):
    """the smallest k in lo..hi for which m + k >= 0 is known (it is for hi)"""
    while lo < hi:
        k = (lo + hi) // 2
        if F.entails_ge(m + k):
            hi = k
        else:
            lo = k + 1
    return hi


class Conflict(Exception):
    pass


class Generaliser:
    """merges state b into head state P; heads maps the head atoms of P to True"""

    def __init__(self, loops, P, b, heads, new_atom, new_base, new_sym, types, collapse, heap=None):
        self.lp = loops
        self.I = loops.I
        self.P = P
        self.b = b
        self.heads = heads
        self.sig = {}
        self.bsig = {}
        self.ksig = {}
        self.new_atom = new_atom
        self.new_base = new_base
        self.new_sym = new_sym
        self.types = types
        self.collapse = collapse
        self.defs = []  # (atom, value in P, value in b)
        self.bdefs = []  # (base, sequence in P, sequence in b)
        self.lens = []
        self.changed = False
        self.semantic = False
        self.forced = False  # generalise whatever is loop variant even where equal
        self.stable = None

    def presig(self, v, w, path):
        t = type(v)
        if t is Lin:
            if type(w) is Lin and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0] in self.heads:
                self.sig.setdefault(v.t[0][0], w)
        elif t is Agg and type(w) is Agg and len(v.f) == len(w.f):
            for i, (x, y) in enumerate(zip(v.f, w.f)):
                self.presig(x, y, path + (i,))
        elif t is Ref and type(w) is Ref:
            self.presig(v.v, w.v, path + ("r",))
        elif t is Cond and type(w) is Cond:
            if v.k == "eq" and len(v.l.t) == 1 and v.l.c == -1 and v.l.t[0][0] in self.heads:
                if w.k == "eq" and w.l.c == -1 and len(w.l.t) == 1:
                    self.sig.setdefault(v.l.t[0][0], w.l + 1)
        elif t is Seq and type(w) is Seq:
            if len(v.segs) == 1 and v.segs[0][0] == "sub" and v.segs[0][1] in self.heads:
                H = v.segs[0][1]
                self.bsig.setdefault(H, w)
                self.presig(v.segs[0][3], seq_len(w), path)
            elif len(v.segs) == len(w.segs):
                for i, (s, u) in enumerate(zip(v.segs, w.segs)):
                    if s[0] == u[0]:
                        if s[0] == "sub" and s[1] is u[1]:
                            self.presig(s[2], u[2], path)
                            self.presig(s[3], u[3], path)
                        elif s[0] == "lit" and len(s[1]) == len(u[1]):
                            for x, y in zip(s[1], u[1]):
                                self.presig(x, y, path)
                        elif s[0] in ("be", "rep", "star"):
                            for x, y in zip(s[1:], u[1:]):
                                if type(x) is Lin and type(y) is Lin:
                                    self.presig(x, y, path)
        elif t is Sym and type(w) is Sym and v.key in self.heads:
            self.ksig.setdefault(v.key, w)
        elif t is MRef and type(w) is MRef:
            for x, y in zip(v.path, w.path):
                for p, q in zip(x, y):
                    if type(p) is Lin and type(q) is Lin:
                        self.presig(p, q, path)

    def sub(self):
        s = Subst(dict(self.sig))
        return s

    def eqb(self, x, y):
        """equal in the second state"""
        if x is None:
            return False
        return x == y or (self.semantic and self.b.facts.entails(eq(x, y)))

    def eqv(self, v, w):
        """these values are equal in the second state, as the facts say"""
        if v == w:
            return True
        t = type(v)
        if t is not type(w):
            return False
        if t is Lin:
            return self.b.facts.entails(eq(v, w))
        if t is Agg:
            return v.ty == w.ty and v.var == w.var and len(v.f) == len(w.f) and all(map(self.eqv, v.f, w.f))
        if t is Ref:
            return self.eqv(v.v, w.v)
        if t is Seq:
            return (
                v.utf8 == w.utf8
                and len(v.segs) == len(w.segs)
                and all(
                    x == y
                    or (
                        x[0] == y[0] == "sub" and x[1] is y[1] and self.eqv(x[2], y[2]) and self.eqv(x[3], y[3])
                    )
                    or (x[0] == y[0] == "lit" and len(x[1]) == len(y[1]) and all(map(self.eqv, x[1], y[1])))
                    for x, y in zip(v.segs, w.segs)
                )
            )
        return False

    def lin(self, l1, l2, ty):
        if not self.forced:
            if len(l1.t) == 1 and l1.c == 0 and l1.t[0][1] == 1 and l1.t[0][0] in self.heads:
                if self.eqb(self.sig.get(l1.t[0][0]), l2):
                    return l1
            elif self.eqb(self.S.lin(l1), l2):
                return l1
        elif l1 == l2 and self.stable(l1):
            return l1
        for h, p1, p2 in self.defs:
            d = l1 - p1
            if self.eqb(self.S.lin(d), l2 - p2) and (not self.forced or self.stable(d)):
                return A(h) + d
            d = l1 + p1
            if self.eqb(self.S.lin(d), l2 + p2) and (not self.forced or self.stable(d)):
                return d - A(h)
        if not self.forced:
            for h in self.sig:
                if type(h) is not Atom:
                    continue
                p2 = self.sig[h]
                d = l1 - A(h)
                # only interesting when the difference does not mention the head itself
                if mentions(d, h):
                    d = l1 + A(h)
                    if mentions(d, h):
                        continue
                    if self.eqb(self.S.lin(d), l2 + p2):
                        return d - A(h)
                    continue
                if self.eqb(self.S.lin(d), l2 - p2):
                    return A(h) + d
            if not self.semantic:
                # equal because of the facts, not as terms
                ent = self.b.facts.entails
                if len(l1.t) == 1 and l1.c == 0 and l1.t[0][1] == 1 and l1.t[0][0] in self.heads:
                    x = self.sig.get(l1.t[0][0])
                    if x is not None and ent(eq(x, l2)):
                        return l1
                for h, p1, p2 in self.defs:
                    d = l1 - p1
                    if len(d.t) < 3 and ent(eq(self.S.lin(d), l2 - p2)):
                        return A(h) + d
                for h in self.sig:
                    if type(h) is Atom:
                        d = l1 - A(h)
                        if len(d.t) < 3 and not mentions(d, h) and ent(eq(self.S.lin(d), l2 - self.sig[h])):
                            return A(h) + d
        lo, hi = WIDE
        if ty is not None:
            r = self.I.w.range_of(ty)
            if r:
                lo, hi = r
        h = self.new_atom(lo, hi)
        self.defs.append((h, l1, l2))
        self.changed = True
        return A(h)

    def val(self, v, w, ty, path):
        t = type(v)
        if t is Lin:
            if type(w) is not Lin:
                raise Conflict
            return self.lin(v, w, ty)
        if t is bool:
            if v is w:
                return v
            raise Conflict
        if t in (Cond, Or, And):
            if not self.forced:
                if v == w and self.S.any(v) == v:
                    return v
                if t is Cond and v.k == "eq" and len(v.l.t) == 1 and v.l.t[0][0] in self.heads:
                    x = self.sig.get(v.l.t[0][0])
                    if x is not None and type(w) is Cond and w.l + 1 == x:
                        return v
            elif v == w and all(self.stable(a) for a in atoms_in(v)[0]):
                return v
            h = self.new_atom(0, 1)
            self.changed = True
            return Cond("eq", A(h) - 1)
        if t is Agg:
            fts = self.I.w.field_types(v.ty, v.var)
            if len(fts) != len(v.f):
                fts = [None] * len(v.f)
                n = self.I.w.native(v.ty)
                if n is not None and n[0] in ("iter", "intoiter"):
                    fts = [("elems", n[1])] * len(v.f)
            elif self.I.w.native(v.ty) is not None:
                fts = [("elems", self.I.w.native(v.ty)[1])] * len(v.f)
            f = tuple(self.val(x, y, a, path + (i,)) for i, (x, y, a) in enumerate(zip(v.f, w.f, fts)))
            return Agg(v.ty, v.var, f) if f != v.f else v
        if t is Ref:
            e = self.I.w.types[ty].get("e") if type(ty) is int else None
            return Ref(self.val(v.v, w.v, e, path + ("r",)))
        if t is MRef:
            p = []
            for x, y in zip(v.path, w.path):
                if x[0] in "fd":
                    p.append(x)
                else:
                    p.append((x[0],) + tuple(self.lin(a, c, None) for a, c in zip(x[1:], y[1:])))
            return MRef(v.root, tuple(p))
        if t is Seq:
            return self.seq(v, w, ty, path)
        if t is Sym:
            if not self.forced:
                if v.key in self.heads:
                    if self.ksig.get(v.key) == w:
                        return v
                elif v == w and self.S.any(v) == v:
                    return v
            elif v == w and self.stable(v.key):
                return v
            self.changed = True
            return Sym(v.ty, self.new_sym())
        if t is Opq:
            if v == w:
                return v
            self.changed = True
            return Opq(self.new_sym())
        if t is Fn:
            return v
        raise Unsupported("join of %r" % (v,))

    def ety(self, ty, v):
        if type(ty) is tuple:
            return ty[1]
        if type(ty) is int:
            n = self.I.w.native(ty)
            if n is not None:
                return n[1]
        return None

    def seq(self, v, w, ty, path):
        ety = self.ety(ty, v)
        if path in self.collapse:
            return self.collapse_seq(v, w, ety, path)
        if self.forced and v == w and self.stable(v):
            return v
        segs = []
        for s, u in zip(v.segs, w.segs):
            k = s[0]
            if k == "sub":
                if s[1] is not u[1] or (self.forced and not self.stable(s[1])):
                    raise Conflict
                segs.append(("sub", s[1], self.lin(s[2], u[2], None), self.lin(s[3], u[3], None)))
                self.lens.append(segs[-1][3])
                self.lens.append(segs[-1][2])
            elif k == "lit":
                segs.append(("lit", tuple(self.val(x, y, ety, path + ("l", i)) for i, (x, y) in enumerate(zip(s[1], u[1])))))
            elif k == "be":
                segs.append(("be", s[1], self.lin(s[2], u[2], None)))
            elif k == "rep":
                segs.append(("rep", self.val(s[1], u[1], ety, path + ("e",)), self.lin(s[2], u[2], None)))
            elif k == "star":
                n = self.lin(s[1], u[1], None)
                if s[3] != u[3] or self.S.any(s[3]) != s[3]:
                    raise Conflict
                segs.append(("star", n, s[2], s[3]))
            elif s == u and (self.S.any(s) == s):
                segs.append(s)
            else:
                raise Conflict
        return mkseq(segs, v.utf8 and w.utf8)

    def collapse_seq(self, v, w, ety, path):
        n = self.lin(seq_len(v), seq_len(w), None)
        self.lens.append(n)
        H = None
        if len(v.segs) == 1 and v.segs[0][0] == "sub" and v.segs[0][1] in self.heads and v.segs[0][2] == ZERO:
            H = v.segs[0][1]
        isbyte = ety is not None and self.I.w.range_of(ety) == (0, 255)
        if H is not None and H in self.bsig and self.eqv(self.bsig[H], w):
            if isbyte or self.covered(H, w):
                return sub(H, ZERO, n, v.utf8 and w.utf8)
        if H is None and v == w and self.S.any(v) == v:
            return v
        self.changed = True
        # two vectors that hold the same in both states go on as one
        for B, v0, w0, n0 in self.bdefs:
            if v0 == v and B.ety == ety and self.eqv(w0, w):
                return sub(B, ZERO, n0, v.utf8 and w.utf8)
        alts = []
        if not isbyte:
            if H is not None and H.tmpl:
                alts = list(H.tmpl)
            self.collect(alts, v, H, self.P)
            self.collect(alts, w, H, self.b)
        B = self.new_base(ety, path, H, alts)
        self.bdefs.append((B, v, w, n))
        return sub(B, ZERO, n, v.utf8 and w.utf8)

    # ---- element templates
    def pieces(self, q, H):
        """(value, None) for literal elements, (None, base) for ranges of other bases"""
        for s in q.segs:
            if s[0] == "lit":
                for x in s[1]:
                    yield x, None
            elif s[0] == "sub":
                if s[1] is not H:
                    yield None, s[1]
            elif s[0] == "rep":
                yield s[1], None
            else:
                raise Unsupported("collapse of %s" % show_seg(s))

    def covered(self, H, w):
        for x, b in self.pieces(w, H):
            if b is not None:
                if b.tmpl is None or not all(any(self.alt_covers(a, c) for a in H.tmpl) for c in b.tmpl):
                    return False
            else:
                y = self.abstract(x, self.b)
                if not any(self.alt_covers(a, y) for a in H.tmpl):
                    return False
        return True

    def collect(self, alts, q, H, st):
        for x, b in self.pieces(q, H):
            if b is not None:
                if b.tmpl is None:
                    ety = b.ety
                    tp = self.I.w.make(ety, ("tpk", self.lp.tpn))
                    self.lp.tpn += 1
                    new = [self.abstract(tp, st)]
                else:
                    new = b.tmpl
            else:
                new = [self.abstract(x, st)]
            for a in new:
                for i, c in enumerate(alts):
                    j = self.alt_join(c, a)
                    if j is not None:
                        alts[i] = j
                        break
                else:
                    alts.append(a)

    def global_stable(self, x):
        ats, bs, ks = atoms_in(x)
        ns = set()
        self.I.models_names(x, ns)
        if ns:
            return False
        for a in ats:
            if a.kind in ("head", "byte", "be", "el", "op", "tp", "sum", "sumalt", "tbl", "join"):
                return False
        for b in bs:
            if type(b.name) is tuple and b.name and b.name[0] in ("H", "elb", "tpb"):
                return False
        for k in ks:
            if type(k) is tuple and k and k[0] in ("hs", "elk", "tpk", "el"):
                return False
        return True

    def abstract(self, x, st):
        """(value, facts) of one element with its varying parts replaced by placeholders"""
        x = self.lp.resolve(st, x)
        s = type(st)({("t", 0): x}, st.facts.copy())
        for l in seg_lens(x):
            # (no sequence has a negative length)
            if s.facts.bounds(l)[0] < 0:
                s.facts.assume(ge(l, ZERO))
        lp = self.lp
        gen = Generaliser(lp, s, s, {}, lp_newtp(lp), lp_newtpb(lp), lp_newtpk(lp), {}, set())
        gen.forced = True
        gen.stable = self.global_stable
        gen.S = Subst({})
        gen.sample = st
        v = gen.tval(x)
        f = gen.join_facts(relevant_only=True)
        return (v, f if f is not None else Facts())

    def tval(self, x):
        """abstract a value against itself: everything that is not globally stable varies"""
        t = type(x)
        if t is Seq:
            return self.tseq(x, None)
        if t is Agg:
            fts = self.I.w.field_types(x.ty, x.var)
            out = []
            for i, y in enumerate(x.f):
                a = fts[i] if i < len(fts) and self.I.w.native(x.ty) is None else None
                if type(y) is Seq:
                    out.append(self.tseq(y, a))
                elif type(y) is Ref and type(y.v) is Seq:
                    e = self.I.w.types[a].get("e") if a is not None else None
                    out.append(Ref(self.tseq(y.v, e)))
                elif type(y) in (Agg, Ref):
                    out.append(self.tval(y))
                else:
                    out.append(self.val(y, y, a, ("t",)))
            return Agg(x.ty, x.var, tuple(out))
        if t is Ref:
            return Ref(self.tval(x.v))
        return self.val(x, x, None, ("t",))

    def tseq(self, q, ty):
        if self.global_stable(q):
            return q
        if len(q.segs) == 1 and q.segs[0][0] == "sub" and self.global_stable(q.segs[0][1]):
            s = q.segs[0]
            return Seq((("sub", s[1], self.lin(s[2], s[2], None), self.lin(s[3], s[3], None)),), q.utf8)
        if not q.segs:
            return q
        # an unknown sequence of that length
        n = seq_len(q)
        ety = self.ety(ty, q)
        if ety is None:
            b0 = [s[1].ety for s in q.segs if s[0] == "sub"]
            ety = b0[0] if b0 else None
        tmpl = None
        if len(q.segs) == 1 and q.segs[0][0] == "sub":
            tmpl = q.segs[0][1].tmpl
        b = self.new_base(ety, ("t",), None, tmpl)
        if n.const:
            ln = n
        else:
            ln = self.lin(n, n, None)
        return sub(b, ZERO, ln, q.utf8)

    def alt_covers(self, a, c):
        """alternative c is an instance of alternative a"""
        try:
            if self.lp.shape(a[0], (), None) != self.lp.shape(c[0], (), None) and not same_shape(self.lp, a[0], c[0]):
                return False
        except Unsupported:
            return False
        r = self.alt_join(a, c)
        return r is not None and r is a

    def alt_join(self, a, c):
        from interp import State

        if not same_shape(self.lp, a[0], c[0]):
            return None
        P = State({("t", 0): a[0]}, a[1])
        b = State({("t", 0): c[0]}, c[1])
        heads = {}
        ats, bs, ks = atoms_in(a[0])
        for x in ats:
            if x.kind == "tp":
                heads[x] = True
        for x in bs:
            if type(x.name) is tuple and x.name[0] == "tpb":
                heads[x] = True
        for k in ks:
            if type(k) is tuple and k and k[0] == "tpk":
                heads[k] = True
        lp = self.lp
        g = Generaliser(lp, P, b, heads, lp_newtp(lp), lp_newtpb(lp), lp_newtpk(lp), {}, TplCollapse())
        g.presig(a[0], c[0], ("t",))
        g.S = g.sub()
        g.semantic = True
        try:
            v = g.val(a[0], c[0], None, ("t",))
        except Conflict:
            return None
        f = g.join_facts()
        if not g.changed and f is None:
            return a
        return (v, f if f is not None else a[1])

    # ---- facts
    def join_facts(self, relevant_only=False, joins=0):
        """the facts of P that hold in b as well, plus new ones about the new atoms"""
        P, b, S = self.P.facts, self.b.facts, self.S
        F = Facts()
        changed = self.changed
        if not relevant_only:
            for a, m in P.sets.items():
                l = S.atom(a)
                n = m | mask_of_lin(b, l)
                if n != m:
                    changed = True
                if n != FULL:
                    F.sets[a] = n
            for a, (lo, hi) in P.bnd.items():
                l = S.atom(a)
                l2, h2 = b.bounds(l)
                if not (l2 >= lo) and not b.entails(ge(l, K(lo))):
                    lo = max([t for t in THRESH if t <= l2], default=a.lo) if joins > 2 else l2
                    lo = max(lo, a.lo)
                    changed = True
                if not (h2 <= hi) and not b.entails(ge(K(hi), l)):
                    hi = min([t for t in THRESH if t >= h2], default=a.hi) if joins > 2 else h2
                    hi = min(hi, a.hi)
                    changed = True
                if lo > a.lo or hi < a.hi:
                    F.bnd[a] = (lo, hi)
            keep = []
            for l in P.ineq:
                m = S.lin(l)
                if b.entails_ge(m):
                    keep.append(l)
                else:
                    changed = True
                    # a weaker constant may hold
                    ks = [1, 2] if joins < 6 else []
                    if l.c < 0:
                        ks.append(-l.c)
                    for k in ks:
                        if b.entails_ge(m + k):
                            if k > 1 and (k <= 20 or joins < 16 and k <= 64):
                                k = least(b, m, 1, k)
                            keep.append(l + k)
                            break
            F.ineq = tuple(keep)
            kn = []
            for l in P.nes:
                if b.entails(ne(S.lin(l), ZERO)):
                    kn.append(l)
                else:
                    changed = True
            F.nes = frozenset(kn)
            for k, v in P.choice.items():
                k2 = S.any(k)
                if k in self.ksig:
                    k2 = self.ksig[k].key
                if b.choice.get(k2) == v:
                    F.choice[k] = v
                else:
                    changed = True
            F.props = frozenset(p for p in P.props if self.prop_holds(p))
            if F.props != P.props:
                changed = True
        # new atoms
        if self.defs:
            terms = []
            seen = set()
            for h, p1, p2 in self.defs:
                terms.append((A(h), p1, p2))
                seen.add(h)
            for h, p2 in self.sig.items():
                if type(h) is Atom and h not in seen:
                    terms.append((A(h), A(h), p2))
                    seen.add(h)
            for t in self.stable_terms():
                terms.append((t, t, t))
            for h, p1, p2 in self.defs:
                lo = min(P.bounds(p1)[0], b.bounds(p2)[0])
                hi = max(P.bounds(p1)[1], b.bounds(p2)[1])
                if table_of(A(h)) is not None:
                    m = mask_of_lin(P, p1) | mask_of_lin(b, p2)
                    if m != FULL:
                        F.sets[h] = m
                    continue
                lo, hi = max(lo, h.lo), min(hi, h.hi)
                if lo < 0 and P.entails_ge(p1) and b.entails_ge(p2):
                    lo = 0
                if lo > h.lo or hi < h.hi:
                    F.bnd[h] = (lo, hi)
            done = set()
            news = {h for h, _, _ in self.defs}
            cand = []
            for i, (h, p1, p2) in enumerate(self.defs):
                for tn, t1, t2 in terms:
                    if tn == A(h):
                        continue
                    for sgn in (1, -1):
                        key = (tn - A(h)) * sgn
                        if key in done:
                            continue
                        done.add(key)
                        cand.append((key, (t1 - p1) * sgn, (t2 - p2) * sgn))
            # sums of two changing terms against a third
            if len(self.defs) <= 4 and len(terms) <= 24:
                for i, (h, p1, p2) in enumerate(self.defs):
                    for tn, t1, t2 in terms:
                        if tn == A(h) or not any(A(x) == tn for x in news):
                            continue
                        for un, u1, u2 in terms:
                            if un == tn or un == A(h) or any(A(x) == un for x in news):
                                continue
                            key = un - tn - A(h)
                            if key in done:
                                continue
                            done.add(key)
                            cand.append((key, u1 - t1 - p1, u2 - t2 - p2))
                            cand.append((key * -1, t1 + p1 - u1, t2 + p2 - u2))
            for key, c1, c2 in cand:
                if F.entails_ge(key):
                    continue
                if P.entails_ge(c1) and b.entails_ge(c2):
                    if P.entails_ge(c1 - 1) and b.entails_ge(c2 - 1):
                        k = 1
                        if not c1.t and 1 < c1.c <= 64:
                            k = -least(b, c2, -c1.c, -1)
                        elif not c2.t and 1 < c2.c <= 64:
                            k = -least(P, c1, -c2.c, -1)
                        try:
                            F._ge(key - k)
                        except Infeasible:
                            pass
                    else:
                        try:
                            F._ge(key)
                        except Infeasible:
                            pass
        for n in self.lens:
            if n.t and not F.entails_ge(n):
                try:
                    F._ge(n)
                except Infeasible:
                    pass
        # flat properties of new bases
        for B, q1, q2, n in self.bdefs:
            for p in self.lp_flats(B, q1, q2, n):
                F.props = F.props | {p}
        if not changed and not self.defs and not self.bdefs:
            return None
        return F

    def stable_terms(self):
        """terms both states agree on and that do not vary, to compare the new atoms with"""
        out = []
        seen = set()

        def add(l):
            if l.t and l not in seen and len(out) < 30:
                seen.add(l)
                out.append(l)

        src = self.sample if getattr(self, "sample", None) is not None else self.P
        for v in src.mem.values():
            ats = atoms_in(v)[0]
            for a in ats:
                if a.kind in ("len", "in") and (a.kind == "len" or a.hi > 255):
                    if self.forced or self.S.atom(a) == A(a):
                        add(A(a))
            if not self.forced and type(v) is Lin and self.S.lin(v) == v:
                add(v)
        for l in src.facts.ineq:
            for a, _ in l.t:
                if a.kind in ("len",) and (self.forced or self.S.atom(a) == A(a)):
                    add(A(a))
        if not self.forced:
            for r, v in self.P.mem.items():
                if type(v) is Agg:
                    for x in v.f:
                        if type(x) is Lin and self.S.lin(x) == x:
                            add(x)
        for r, v in self.P.mem.items():
            qs = {}
            self.lp.seqs(v, (r,), qs)
            for q in qs.values():
                n = seq_len(q)
                if n.t and (self.stable(n) if self.forced else self.S.lin(n) == n):
                    add(n)
        return out

    def prop_holds(self, p):
        S = self.S
        if p[0] == "flat":
            # ("flat", kind, H, n, D, a, x): the serialisation of H[0..n] is D[a..x]
            _, kind, H, n, D, a, x = p
            q = self.bsig.get(H)
            if q is None:
                try:
                    return S.any(p) in self.b.facts.props
                except Unsupported:
                    return False
            if not self.b.facts.entails(eq(seq_len(q), S.lin(n))):
                return False
            return flat_claim(self.I, self.b, kind, q, D, S.lin(a), S.lin(x))
        try:
            return S.any(p) in self.b.facts.props
        except Unsupported:
            return False

    def lp_flats(self, B, q1, q2, n):
        """which ranges of which buffers the elements of the new base are the parts of, in order"""
        I = self.I
        kind = I.cfg.get("flats", {}).get(B.ety)
        if kind is None:
            return
        ds = set()
        for v in self.b.mem.values():
            for bb in atoms_in(v)[1]:
                if bb.tmpl is None and bb.ety is not None and I.w.range_of(bb.ety) == (0, 255):
                    ds.add(bb)
        xs = [(A(h), p1, p2) for h, p1, p2 in self.defs] + [
            (A(h), A(h), p2) for h, p2 in self.sig.items() if type(h) is Atom
        ]
        for D in sorted(ds, key=lambda d: d.id):
            for x, p1, p2 in xs:
                # the starting point: where x stood when the vector was empty
                starts = []
                if not q1.segs:
                    starts.append(p1)
                for p in self.P.facts.props:
                    if p[0] == "flat" and p[1] == kind and len(q1.segs) == 1 and q1.segs[0][1] is p[2] and p[4] is D:
                        starts.append(p[5])
                for a in starts:
                    if self.S.lin(a) != a and a != p1:
                        continue
                    if flat_claim(I, self.P, kind, q1, D, a, p1) and flat_claim(I, self.b, kind, q2, D, a, p2):
                        yield ("flat", kind, B, n, D, a, x)


def flat_claim(I, st, kind, q, D, a, x):
    """the serialisation of the elements of q is D[a..x]"""
    pos = a
    st = st.fork()
    I.quiet += 1
    ev = len(I.alarms)
    try:
        for s in q.segs:
            if s[0] == "sub":
                hit = None
                for p in st.facts.props:
                    if p[0] == "flat" and p[1] == kind and p[2] is s[1] and p[4] is D and st.facts.entails(eq(p[5], pos)):
                        if s[2] == ZERO and st.facts.entails(eq(p[3], s[3])):
                            hit = p
                            break
                if hit is None:
                    return False
                pos = hit[6]
            elif s[0] == "lit":
                for el in s[1]:
                    outs = I.eval_fn(kind, [Ref(el)], st)
                    if not outs:
                        return True
                    nxt = None
                    for s2, r in outs:
                        n = seq_len(r)
                        if I.prover.seq_eq(s2, r, sub(D, pos, n)) is not True:
                            return False
                        if nxt is None:
                            nxt = n
                        elif nxt != n and not s2.facts.entails(eq(nxt, n)):
                            return False
                    pos = pos + nxt
            else:
                return False
        return st.facts.entails(eq(pos, x))
    except (Unsupported, NeedSplit):
        return False
    finally:
        I.quiet -= 1
        del I.alarms[ev:]


def same_shape(lp, a, b):
    try:
        return lp.shape(a, ("t",), TPL) == lp.shape(b, ("t",), TPL)
    except Unsupported:
        return False


def seg_lens(x):
    t = type(x)
    if t is Agg:
        for y in x.f:
            yield from seg_lens(y)
    elif t is Ref:
        yield from seg_lens(x.v)
    elif t is Seq:
        for s in x.segs:
            if s[0] == "sub" and not s[3].const:
                yield s[3]


class TplCollapse:
    """inside templates, sequences that are not ranges of a common base are collapsed"""

    def __contains__(self, path):
        return False


class TplCollapseAll:
    """shapes in which all sequences are alike"""

    class collapse:
        def __contains__(self, path):
            return True

    collapse = collapse()


class _Tpl:
    collapse = TplCollapse()


TPL = _Tpl()


def lp_newtp(lp):
    def f(lo, hi):
        lp.tpn += 1
        return atom("tp", (lp.tpn, lo, hi), lo, hi)

    return f


def lp_newtpb(lp):
    def f(ety, path, old, tmpl=None):
        lp.tpn += 1
        return templated(lp, ("tpb", lp.tpn), ety, tmpl)

    return f


def templated(lp, name, ety, alts):
    """the base of that name whose elements are instances of the templates; the templates are part
    of its identity"""
    alts = [canon(lp, a) for a in alts] if alts else None
    key = None
    if alts:
        k = tuple((v, facts_key(f)) for v, f in alts)
        key = lp.tmplids.setdefault(k, len(lp.tmplids))
    b = Base(name + (key,), ety)
    if alts and b.tmpl is None:
        b.tmpl = alts
    return b


def facts_key(f):
    return (
        frozenset(f.sets.items()), frozenset(f.bnd.items()), frozenset(f.ineq), f.nes, frozenset(f.choice.items()), f.props
    )


def canon(lp, alt):
    """rename the placeholders of a template in their order of occurrence"""
    v, f = alt
    amap, bmap, keys = {}, {}, {}

    def key(k):
        if type(k) is tuple and k:
            if k[0] == "tpk":
                keys.setdefault(k, ("tpk", -1 - len(keys)))
                return
            for x in k:
                key(x) if type(x) is tuple else go(x)

    def go(o):
        t = type(o)
        if t is Lin:
            for a, _ in o.t:
                go(a)
        elif t is Atom:
            if o.kind == "tp":
                if o not in amap:
                    amap[o] = A(atom("tp", (-1 - len(amap), o.lo, o.hi), o.lo, o.hi))
            elif o.args:
                go(o.args)
        elif t is tuple:
            for x in o:
                go(x)
        elif t is Agg:
            go(o.f)
        elif t is Ref:
            go(o.v)
        elif t is Seq:
            go(o.segs)
        elif t is Base:
            if type(o.name) is tuple and o.name and o.name[0] == "tpb":
                if o not in bmap:
                    b = Base(("tpb", -1 - len(bmap)) + o.name[2:], o.ety)
                    if b.tmpl is None:
                        b.tmpl = o.tmpl
                    bmap[o] = b
            elif type(o.name) is tuple:
                go(o.name)
        elif t is Sym:
            key(o.key)
        elif t is Cond:
            go(o.l)
        elif t is Or or t is And:
            for c in o.cs:
                go(c)

    go(v)
    if not amap and not bmap and not keys:
        return alt
    sb = KSubst(amap, bmap, keys)
    try:
        return (sb.any(v), sb.facts(f))
    except (Unsupported, Infeasible):
        return alt


def lp_newtpk(lp):
    def f():
        lp.tpn += 1
        return ("tpk", lp.tpn)

    return f


def mask_of_lin(F, l):
    if l.const:
        return 1 << l.c if 0 <= l.c <= 255 else FULL
    tb = table_of(l)
    if tb is not None:
        a, t = tb
        m = F.mask(a)
        r = 0
        for i in range(256):
            if m >> i & 1 and 0 <= t[i] <= 255:
                r |= 1 << t[i]
        return r
    lo, hi = F.bounds(l)
    if lo < 0 or hi > 255:
        return FULL
    return ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)


class LoopInst:
    def __init__(self, lp, fn, fr, el, inst, es):
        self.lp = lp
        self.I = lp.I
        self.fn = fn
        self.fr = fr
        self.head, self.inner, self.nodes = el
        self.inst = inst
        self.es = es
        self.collapse = set()
        self.ghost = (fr, ("iter", self.head))
        self.enames = None
        self.nostar = set()
        self.etys = {}
        self.nver = 0

    def start(self):
        lp = self.lp
        entries = []
        for e in self.es:
            e = e.fork()
            # the iteration counter comes first
            mem = {self.ghost: ZERO}
            mem.update(e.mem)
            e.mem = mem
            e.mem = {r: lp.resolve(e, v) for r, v in e.mem.items()}
            entries.extend(lp.split_bools(e) if self.inner is not None else [e])
        self.entry = entries[0]
        self.parts = {}
        self.order = []
        self.nver = 0
        self.add_part(entries[0])
        for e in entries[1:]:
            self.absorb(None, e)

    def solve(self):
        I, lp = self.I, self.lp
        self.start()
        rounds = 0
        while True:
            todo = [p for p in self.order if p.dirty]
            if not todo:
                if self.try_star():
                    continue
                break
            rounds += 1
            if rounds > 120:
                raise Unsupported("loop in %s does not converge" % self.fn.path)
            p = todo[0]
            p.dirty = False
            self.body(p)
            for b in p.backs:
                self.absorb(p, b)
        self.progress()
        out = []
        for p in self.order:
            I.alarms.extend(p.events)
            for tgt, s in p.exits:
                try:
                    for q in s.facts.props:
                        if q[0] == "flat":
                            s.facts.assume(ge(q[6], q[5]))
                except Infeasible:
                    continue
                s.mem.pop(self.ghost, None)
                if self.etys:
                    s.mem = {r: self.settle_stars(v) for r, v in s.mem.items()}
                out.append((tgt, s))
        lp.info[(self.fn.path, self.head)] = [
            {"shape": i, "heads": len(p.heads), "facts": p.state.facts.show()[:40]} for i, p in enumerate(self.order)
        ]
        return out

    def unroll(self, n, most=64):
        """each iteration on its own (for loops whose body makes no new unknowns: those are named by where they are)"""
        I = self.I
        n0 = len(I.alarms)
        res, events = [], []
        todo = self.es
        for _ in range(n):
            more = []
            for e in todo:
                p = Part(e.fork(), 0)
                p.state.mem[self.ghost] = ZERO
                self.body(p)
                events += p.events
                res += p.exits
                more += p.backs
            todo = more
            if len(todo) > most:
                break
            if not todo:
                I.alarms.extend(events)
                for tgt, s in res:
                    s.mem.pop(self.ghost, None)
                return res
        del I.alarms[n0:]
        return None

    # ------------------------------------------------------------ progress
    def progress(self):
        """is there a number (a position, a length) that each iteration moves in one direction, towards a bound that
        is the length of something in memory?"""
        I = self.I
        if self.fn.krate in I.w.entry_crates or I.quiet:
            return
        span = loop_span(self.fn, self.head, self.nodes)
        edges = [(p, b) for p in self.order for b in p.backs]
        if not edges:
            return
        kinds = {}
        for n, (p, b) in enumerate(edges):
            old, new = {}, {}
            for r, v in p.state.mem.items():
                if r != self.ghost and r in b.mem and not (type(r[1]) is tuple and r[1] and r[1][0] == "ghost"):
                    measures(v, (r,), old)
                    measures(b.mem[r], (r,), new)
            good = set()
            limits = None
            for path, h in old.items():
                v = new.get(path)
                if v is None or v == h:
                    continue
                F = b.facts
                try:
                    if F.entails(ge(h, v + 1)):
                        # towards zero, from no more than the length of something
                        if path[-1] == "len":
                            good.add((path, "down"))
                        else:
                            limits = self.limits(p) if limits is None else limits
                            if F.entails(ge(v, ZERO)) and any(p.state.facts.entails(ge(x, h)) for x in limits):
                                good.add((path, "down"))
                    elif F.entails(ge(v, h + 1)):
                        limits = self.limits(p) if limits is None else limits
                        if any(F.entails(ge(x, v)) for x in limits):
                            good.add((path, "up"))
                except Infeasible:
                    good = None
                    break
            if good is None:
                continue
            kinds[n] = good
        I.site("progress", span)
        if not kinds:
            return
        both = set.intersection(*kinds.values())
        if not both:
            for n, k in kinds.items():
                p, b = edges[n]
                if not k or len(kinds) > 1:
                    I.alarm("progress" if not k else "progress?", span,
                            "an iteration that moves no position towards the end of what it goes through" if not k else
                            "no position that every iteration moves", b)

    def limits(self, p):
        """lengths that the loop does not change (and a constant)"""
        out = set()
        for r, v in p.state.mem.items():
            lengths(v, out)
        for a in p.state.facts.bnd:
            if a.kind == "len":
                out.add(A(a))
        res = [ZERO + 65536]
        for l in out:
            if any(a in p.heads or (a.kind == "len" and a.args[0] in p.heads) for a, _ in l.t):
                continue
            res.append(l)
        return res

    def settle_stars(self, v):
        """comprehensions of this loop that make one element per iteration become bases"""
        t = type(v)
        if t is Agg:
            f = tuple(self.settle_stars(x) for x in v.f)
            return Agg(v.ty, v.var, f) if any(x is not y for x, y in zip(f, v.f)) else v
        if t is Ref:
            x = self.settle_stars(v.v)
            return Ref(x) if x is not v.v else v
        if t is Seq:
            segs = []
            hit = False
            for s in v.segs:
                if s[0] == "star" and s[3] in self.etys:
                    s = comprehension(s, self.etys[s[3]])
                    hit = True
                elif s[0] == "lit":
                    x = tuple(self.settle_stars(y) for y in s[1])
                    if any(a is not b for a, b in zip(x, s[1])):
                        s = ("lit", x)
                        hit = True
                segs.append(s)
            return mkseq(segs, v.utf8) if hit else v
        return v

    def add_part(self, st):
        p = Part(st, len(self.order))
        self.parts[lp_shape(self.lp, st, self)] = p
        self.order.append(p)
        if len(self.order) > 60:
            raise TooMany("too many shapes at a loop of %s" % self.fn.path)
        return p

    def body(self, p):
        I = self.I
        I.stats["loop_passes"] += 1
        n0 = len(I.alarms)
        exits, backs = [], []
        st = p.state.fork()
        outs = I.exec_block(self.fn, self.fr, self.head, st)
        pending = {}
        for tgt, s in outs:
            if tgt == self.head:
                backs.append(s)
            elif tgt in self.nodes:
                pending.setdefault(tgt, []).append(s)
            else:
                exits.append((tgt, s))
        inner = self.nodes - {self.head}
        res = I.sched(self.fn, self.fr, self.inner, pending, inner)
        for tgt, ss in res.items():
            for s in ss:
                if tgt == self.head:
                    backs.append(s)
                else:
                    exits.append((tgt, s))
        p.events = I.alarms[n0:]
        del I.alarms[n0:]
        backs = I.prune(self.fn, self.fr, self.head, backs)
        p.backs = []
        for b in backs:
            b.mem[self.ghost] = b.mem[self.ghost] + 1
            b.mem = {r: self.lp.resolve(b, v) for r, v in b.mem.items()}
            p.backs.extend(self.lp.split_bools(b))
        p.exits = exits

    def absorb(self, src, b):
        # does a sequence grow, from one state to another that differs in nothing else?
        new = set()
        a = src
        plain = None
        while a is not None:
            grown = set()
            for r, v in b.mem.items():
                w = a.state.mem.get(r)
                if w is None:
                    continue
                qa, qb = {}, {}
                self.lp.seqs(w, (r,), qa)
                self.lp.seqs(v, (r,), qb)
                for path, q in qb.items():
                    o = qa.get(path)
                    if o is None or path in self.collapse:
                        continue
                    if a.star and path in a.star:
                        continue
                    if grows(o, q):
                        grown.add(path)
            if grown:
                if plain is None:
                    plain = self.lp.state_shape(b, TplCollapseAll)
                if self.lp.state_shape(a.state, TplCollapseAll) == plain:
                    new |= grown
            a = a.parent
        if new:
            self.collapse |= new
            raise Restart
        sh = lp_shape(self.lp, b, self)
        p = self.parts.get(sh)
        if p is None:
            if len(self.order) >= 40:
                # give up the structure of sequences that differ
                for q in self.order:
                    for r, v in b.mem.items():
                        w = q.state.mem.get(r)
                        qa, qb = {}, {}
                        if w is not None:
                            self.lp.seqs(w, (r,), qa)
                            self.lp.seqs(v, (r,), qb)
                            for path in qb:
                                if path in qa and qa[path] != qb[path] and path not in self.collapse:
                                    new.add(path)
                if new:
                    self.collapse |= new
                    raise Restart
            self.add_part(b).parent = src
            return
        if p.star:
            self.check_star(p, b)
            return
        self.merge(p, b)

    def generaliser(self, p, b):
        def new_atom(lo, hi):
            a = atom("head", (self.inst, p.pid, p.k, lo, hi), lo, hi)
            p.k += 1
            return a

        def new_base(ety, path, old, tmpl=None):
            self.nver += 1
            return templated(self.lp, ("H", self.inst, p.pid, self.nver), ety, tmpl)

        def new_sym():
            k = ("hs", self.inst, p.pid, p.k)
            p.k += 1
            return k

        g = Generaliser(self.lp, p.state, b, p.heads, new_atom, new_base, new_sym, None, self.collapse)
        for r in p.state.mem:
            g.presig(p.state.mem[r], b.mem[r], (r,))
        g.S = g.sub()
        return g

    def merge(self, p, b):
        g = self.generaliser(p, b)
        mem = {}
        try:
            for r, v in p.state.mem.items():
                ty = None
                if type(r[1]) is int and r[0] in self.I.frame_fn:
                    ty = self.I.frame_fn[r[0]].locals[r[1]]
                elif r[1] in self.I.ghost_ty:
                    ty = self.I.ghost_ty[r[1]]
                elif r == self.ghost:
                    ty = self.I.w.usize()
                mem[r] = g.val(v, b.mem[r], ty, (r,))
        except Conflict:
            # sequences that cannot be merged in structure are collapsed
            new = set()
            for r, v in b.mem.items():
                qa, qb = {}, {}
                self.lp.seqs(p.state.mem[r], (r,), qa)
                self.lp.seqs(v, (r,), qb)
                for path in qb:
                    if path in qa and qa[path] != qb[path] and path not in self.collapse:
                        new.add(path)
            if not new:
                raise Unsupported("cannot join at a loop of %s" % self.fn.path)
            self.collapse |= new
            raise Restart
        f = g.join_facts(joins=p.joins)
        if f is None:
            return
        # nothing bounds the number of iterations: do not step through the thresholds
        c = mem[self.ghost]
        if type(c) is Lin and len(c.t) == 1 and c.t[0][0] in f.bnd:
            a = c.t[0][0]
            lo = f.bnd[a][0]
            f.bnd = dict(f.bnd)
            f.bnd[a] = (lo, a.hi)
        if f is not None and mem == p.state.mem and facts_key(f) == facts_key(p.state.facts):
            return
        p.joins += 1
        if p.joins > 60:
            raise Unsupported("loop in %s does not converge" % self.fn.path)
        st = type(b)(mem, f, p.state.trace)
        for h, p1, p2 in g.defs:
            p.heads[h] = True
        for B, _, _, _ in g.bdefs:
            p.heads[B] = True
        for v in mem.values():
            for k in atoms_in(v)[2]:
                if type(k) is tuple and k and k[0] == "hs" and k[1] == self.inst and k[2] == p.pid:
                    p.heads[k] = True
            for a in atoms_in(v)[0]:
                if a.kind == "head" and a.args[0] == self.inst and a.args[1] == p.pid:
                    p.heads[a] = True
        p.state = st
        p.dirty = True

    # ------------------------------------------------------------ closed forms
    def try_star(self):
        """replace collapsed sequences by comprehensions over the iteration number"""
        if len(self.order) != 1 or len(self.es) != 1:
            return False
        p = self.order[0]
        if p.star or not p.backs:
            return False
        P = p.state
        c = P.mem[self.ghost]
        if not (type(c) is Lin and c.c == 0 and len(c.t) == 1 and c.t[0][0] in p.heads):
            return False
        c = c.t[0][0]
        # closed forms of the head atoms
        gens = [self.generaliser(p, b) for b in p.backs]
        g0 = self.generaliser(p, self.entry)
        closed = {}
        pending = []
        for h in [h for h in p.heads if type(h) is Atom]:
            if h is c:
                continue
            x0 = g0.sig.get(h)
            if x0 is None:
                continue
            ds = [g.sig[h] - A(h) if h in g.sig else None for g in gens]
            if any(d is None for d in ds):
                continue
            if all(d.const and d == ds[0] for d in ds):
                closed[h] = x0 + A(c) * ds[0].c
            else:
                pending.append((h, x0, ds))
        # the bases
        bases = {}
        for r, v in P.mem.items():
            qs = {}
            self.lp.seqs(v, (r,), qs)
            for path, q in qs.items():
                if len(q.segs) == 1 and q.segs[0][0] == "sub" and q.segs[0][1] in p.heads and path not in self.nostar:
                    bases[path] = q.segs[0][1]
        if not bases and not pending:
            return False
        sb = Subst(closed)
        inner = {h for h in p.heads if h is not c and h not in closed}
        clos = {}
        todo = dict(bases)
        # sums
        for h, x0, ds in pending:
            d2 = [sb.lin(d) for d in ds]
            if all(d == d2[0] for d in d2) and self.closed_term(d2[0], inner, c):
                body = Subst({c: A(BOUND)}).lin(d2[0])
                clos[h] = x0 + mk_sum(A(c), body)
                continue
            # different terms in different cases
            alts = []
            for b, d in zip(p.backs, d2):
                x = (self.alt_conds(P, b, sb, inner, c), (d,))
                if x not in alts:
                    alts.append(x)
            if len(alts) > 1 and all(self.closed_term(d, inner, c) for d in d2):
                s2 = Subst({c: A(BOUND)})
                try:
                    body = [
                        (tuple(self.I.shift_alt(s2, x) for x in f), s2.lin(d[0])) for f, d in merge_alts(alts)
                    ]
                except Unsupported:
                    continue
                clos[h] = x0 + mk_sumalt(A(c), body)
        stars = {}
        for path, H in bases.items():
            q0 = get_path(self.entry, path)
            alts = []
            ok = q0 is not None
            for b, g in zip(p.backs, gens):
                q = get_path(b, path)
                if q is None or not q.segs or q.segs[0][0] != "sub" or q.segs[0][1] is not H:
                    ok = False
                    break
                s = q.segs[0]
                n = get_path(P, path).segs[0][3]
                if s[2] != ZERO or s[3] != n:
                    ok = False
                    break
                T = q.segs[1:]
                try:
                    T = tuple(y for x in T for y in sb.seg(x))
                except Unsupported:
                    ok = False
                    break
                if not self.closed_term(T, inner, c):
                    ok = False
                    break
                conds = self.alt_conds(P, b, sb, inner, c)
                if (conds, T) not in alts:
                    alts.append((conds, T))
            if not ok:
                self.nostar.add(path)
                continue
            alts = merge_alts(alts)
            i = A(BOUND)
            s2 = Subst({c: i})
            try:
                alts = tuple(
                    (tuple(self.I.shift_alt(s2, x) for x in f), tuple(y for x in T for y in s2.seg(x))) for f, T in alts
                )
            except Unsupported:
                self.nostar.add(path)
                continue
            if bases[path].ety is not None and self.I.w.range_of(bases[path].ety) != (0, 255):
                self.etys[alts] = bases[path].ety
            stars[path] = mkseq(q0.segs + (("star", A(c), BOUND, alts),), get_path(P, path).utf8)
        if not stars and not clos:
            return False
        # the new head state
        try:
            allm = dict(closed)
            allm.update(clos)
            bm = {bases[path]: q for path, q in stars.items()}
            # lengths of the new sequences
            for path, q in stars.items():
                n = get_path(P, path).segs[0][3]
                if len(n.t) == 1 and n.c == 0 and n.t[0][0] in p.heads and n.t[0][0] is not c:
                    allm.setdefault(n.t[0][0], seq_len(q))
            S = Subst(allm)
            mem = {}
            for r, v in P.mem.items():
                for path, q in stars.items():
                    if path[0] == r:
                        v = set_path(v, path[1:], q)
                mem[r] = S.any(v)
            Fn = Facts()
            try:
                f2 = P.facts.copy()
                f2.props = frozenset(x for x in f2.props if not any(h in atoms_in(x)[1] for h in bm))
                S.facts(f2, Fn)
            except Infeasible:
                return False
        except Unsupported:
            return False
        np = Part(type(P)(mem, Fn, P.trace), p.pid)
        np.k = p.k
        np.heads = {h: True for h in p.heads if h not in allm and h not in bm}
        np.star = set(stars) or True
        np.star = set(stars)
        np.star.add("closed")
        self.old = p
        self.order[0] = np
        self.parts = {lp_shape(self.lp, np.state, self): np}
        self.starfail = False
        self.alts_seen = {}
        return True

    def check_star(self, p, b):
        """the new head state must be inductive"""
        sh = lp_shape(self.lp, b, self)
        c = p.state.mem[self.ghost].t[0][0]
        g = self.generaliser(p, b)
        S = Subst({**{h: v for h, v in g.sig.items() if type(h) is Atom}, c: A(c) + 1})
        ok = True
        for r, v in p.state.mem.items():
            if not self.star_match(p, b, v, b.mem[r], S, (r,), g):
                ok = False
                break
        if ok:
            g.S = S
            f = p.state.facts
            for a, m in f.sets.items():
                if mask_of_lin(b.facts, S.atom(a)) & ~m:
                    ok = False
            for a, (lo, hi) in f.bnd.items():
                l = S.atom(a)
                if not (b.facts.entails(ge(l, K(lo))) and b.facts.entails(ge(K(hi), l))):
                    ok = False
            for l in f.ineq:
                if not b.facts.entails_ge(S.lin(l)):
                    ok = False
            for l in f.nes:
                if not b.facts.entails(ne(S.lin(l), ZERO)):
                    ok = False
            for k, v in f.choice.items():
                if b.facts.choice.get(S.any(k)) != v:
                    ok = False
            for q in f.props:
                if S.any(q) not in b.facts.props and not g.prop_holds(q):
                    ok = False
        if not ok:
            # drop what failed: facts first, then the whole closed form
            self.unstar(p, b, S, g)

    def unstar(self, p, b, S, g):
        f = p.state.facts
        n = f.copy()
        n.sets = {a: m for a, m in f.sets.items() if not (mask_of_lin(b.facts, S.atom(a)) & ~m)}
        n.bnd = {
            a: x
            for a, x in f.bnd.items()
            if b.facts.entails(ge(S.atom(a), K(x[0]))) and b.facts.entails(ge(K(x[1]), S.atom(a)))
        }
        n.ineq = tuple(l for l in f.ineq if b.facts.entails_ge(S.lin(l)))
        n.nes = frozenset(l for l in f.nes if b.facts.entails(ne(S.lin(l), ZERO)))
        n.choice = {k: v for k, v in f.choice.items() if b.facts.choice.get(S.any(k)) == v}
        n.props = frozenset(q for q in f.props if S.any(q) in b.facts.props or g.prop_holds(q))
        vals = all(self.star_match(p, b, v, b.mem[r], S, (r,), g) for r, v in p.state.mem.items())
        if vals and (
            len(n.sets) < len(f.sets) or len(n.bnd) < len(f.bnd) or len(n.ineq) < len(f.ineq)
            or len(n.nes) < len(f.nes) or len(n.choice) < len(f.choice) or len(n.props) < len(f.props)
        ):
            p.state = type(p.state)(p.state.mem, n, p.state.trace)
            p.dirty = True
            p.joins += 1
            if p.joins < 40:
                return
        for path in list(p.star):
            self.nostar.add(path)
        self.old.star = {"none"}
        o = self.old
        o.star = set()
        self.order[0] = o
        self.parts = {lp_shape(self.lp, o.state, self): o}
        o.dirty = True
        self.nostar_all = True
        if "closed" in self.nostar:
            # no further attempts
            self.try_star = lambda: False

    def star_match(self, p, b, v, w, S, path, g):
        t = type(v)
        if t is Lin:
            x = S.lin(v)
            if type(w) is not Lin:
                return False
            if x == w or b.facts.entails(eq(x, w)):
                return True
            return self.sum_step(S, v, w, b)
        if t is bool:
            return v is w
        if t is Agg:
            return (
                type(w) is Agg and v.ty == w.ty and v.var == w.var and len(v.f) == len(w.f)
                and all(self.star_match(p, b, x, y, S, path + (i,), g) for i, (x, y) in enumerate(zip(v.f, w.f)))
            )
        if t is Ref:
            return type(w) is Ref and self.star_match(p, b, v.v, w.v, S, path + ("r",), g)
        if t is Seq and type(w) is Seq:
            if path in p.star:
                # w must be v followed by one of the alternatives at the current index
                n = len(v.segs)
                star = v.segs[-1]
                if star[0] != "star" or w.segs[: n] != v.segs:
                    return False
                T = w.segs[n:]
                at = Subst({BOUND: star[1]})
                conds_b = b.facts
                for f, gg in star[3]:
                    gi = tuple(y for x in gg for y in at.seg(x))
                    if mkseq(gi) == mkseq(T):
                        return True
                    # equal under the facts
                    try:
                        if self.I.prover.seq_eq(b.fork(), mkseq(T), mkseq(gi)) is True:
                            return True
                    except (NeedSplit, Unsupported):
                        pass
                return False
            return S.any(v) == w or self.I.prover.try_eq(b, S.any(v), w)
        return S.any(v) == w

    def sum_step(self, S, v, w, b):
        """sums over the iterations gain the current term"""
        c = None
        x = ZERO + v.c
        for a, k in v.t:
            if a.kind == "sum" or a.kind == "sumalt":
                n = a.args[0]
                n2 = S.lin(n)
                if n2 - n == ONE:
                    y = sum_at(b.facts, a, n)
                    if y is not None:
                        x = x + A(a) * k + y * k
                        continue
            x = x + S.atom(a) * k
        return x == w or b.facts.entails(eq(x, w))

    def entry_names(self):
        if self.enames is None:
            ns = set()
            st = self.entry
            for v in list(st.mem.values()) + [
                tuple(st.facts.sets), tuple(st.facts.bnd), st.facts.ineq, tuple(st.facts.nes), tuple(st.facts.choice),
                tuple(st.facts.props),
            ]:
                self.lp.I.models_names(v, ns)
            self.enames = ns
        return self.enames

    def closed_term(self, T, inner, c):
        ats, bs, ks = atoms_in(T)
        # unknown values made inside the loop are different ones in every iteration
        ns = set()
        self.lp.I.models_names(T, ns)
        if ns - self.entry_names():
            return False
        for a in ats:
            if a in inner or (a.kind == "head" and a is not c and a.args[0] == self.inst):
                return False
        for x in bs:
            if x in inner:
                return False
        for k in ks:
            if k in inner:
                return False
        return True

    def alt_conds(self, P, b, sb, inner, c):
        """what is known of element c in this iteration and not before"""
        out = []
        for a, m in sorted(b.facts.sets.items(), key=lambda x: x[0].id):
            if P.facts.sets.get(a) == m:
                continue
            l = sb.atom(a)
            if self.closed_term(l, inner, c) and mentions(l, c):
                if len(l.t) == 1 and l.c == 0:
                    out.append(("set", l.t[0][0], m))
        for a, (lo, hi) in sorted(b.facts.bnd.items(), key=lambda x: x[0].id):
            if P.facts.bnd.get(a) == (lo, hi):
                continue
            l = sb.atom(a)
            if self.closed_term(l, inner, c) and mentions(l, c):
                if lo > a.lo:
                    out.append(Cond("ge", l - lo))
                if hi < a.hi:
                    out.append(Cond("ge", K(hi) - l))
        for l in b.facts.ineq:
            if l in P.facts.ineq:
                continue
            x = sb.lin(l)
            if self.closed_term(x, inner, c) and mentions(x, c):
                out.append(Cond("ge", x))
        for l in b.facts.nes:
            if l in P.facts.nes:
                continue
            x = sb.lin(l)
            if self.closed_term(x, inner, c) and mentions(x, c):
                out.append(Cond("ne", x))
        for k, v in b.facts.choice.items():
            if P.facts.choice.get(k) == v:
                continue
            try:
                k2 = sb.any(k)
            except Unsupported:
                continue
            if self.closed_term((k2,), inner, c) and mentions((k2,), c):
                out.append(("choice", k2, v))
        for q in b.facts.props:
            if q in P.facts.props:
                continue
            try:
                q2 = sb.any(q)
            except Unsupported:
                continue
            if self.closed_term((q2,), inner, c) and mentions((q2,), c):
                out.append(("prop", q2))
        return tuple(c for c in out if c is not True)


def merge_alts(alts):
    """alternatives that append the same keep only their common conditions"""
    if len(alts) > 12:
        return merge_by(alts, lambda f: ())
    # the variant an element is known to have is worth keeping
    return merge_by(alts, lambda f: tuple(x for x in f if type(x) is tuple and x and x[0] == "choice"))


def merge_by(alts, sig):
    by = {}
    order = []
    for f, T in alts:
        k = (T, sig(f))
        if k in by:
            by[k] = tuple(x for x in by[k] if x in f)
        else:
            by[k] = f
            order.append(k)
    return [(by[k], k[0]) for k in order]


def loop_span(fn, head, nodes):
    for b in [head] + sorted(nodes):
        stmts, term = fn.blocks[b]
        for s in stmts:
            if s[0] == "=":
                return s[3]
        if term[0] in ("call", "assert"):
            return term[5]
    return fn.span


def measures(v, path, out):
    """the numbers and the lengths in a value, by place"""
    t = type(v)
    if t is Lin:
        out[path] = v
    elif t is Agg:
        for i, x in enumerate(v.f):
            measures(x, path + (v.var, i), out)
    elif t is Ref:
        measures(v.v, path + ("r",), out)
    elif t is Seq:
        out[path + ("len",)] = seq_len(v)


def lengths(v, out):
    t = type(v)
    if t is Agg:
        for x in v.f:
            lengths(x, out)
    elif t is Ref:
        lengths(v.v, out)
    elif t is Seq:
        out.add(seq_len(v))
        for s in v.segs:
            if s[0] == "sub":
                out.add(s[2] + s[3])


def lp_shape(lp, st, L):
    return lp.state_shape(st, L)


def grows(o, q):
    """q (after an iteration) has more literal structure than o (before)"""
    lo = sum(len(s[1]) if s[0] == "lit" else 0 for s in o.segs)
    lq = sum(len(s[1]) if s[0] == "lit" else 0 for s in q.segs)
    return lq > lo or len(q.segs) > len(o.segs)


def get_path(st, path):
    v = st.mem.get(path[0])
    for e in path[1:]:
        if type(v) is Agg and type(e) is int and e < len(v.f):
            v = v.f[e]
        elif type(v) is Ref and e == "r":
            v = v.v
        else:
            return None
    return v if type(v) is Seq else None


def bools_of(v, path, out):
    t = type(v)
    if t is Cond or t is Or or t is And:
        out.append((path, v))
    elif t is Agg:
        for i, x in enumerate(v.f):
            bools_of(x, path + (i,), out)


def set_bool(st, path, x):
    st.mem[path[0]] = set_path(st.mem[path[0]], path[1:], x)


def set_path(v, path, x):
    if not path:
        return x
    e = path[0]
    if type(v) is Agg:
        return Agg(v.ty, v.var, v.f[:e] + (set_path(v.f[e], path[1:], x),) + v.f[e + 1 :])
    if type(v) is Ref:
        return Ref(set_path(v.v, path[1:], x))
    raise Unsupported("path")
