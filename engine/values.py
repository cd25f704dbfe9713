"""Abstract values. Shared references hold the value they point to (safe Rust forbids changing it
while the reference lives), mutable references hold a place. Sequences (slices, strings, vectors,
arrays) are concatenations of segments."""
from terms import *


class Agg:
    """struct, enum variant, tuple or closure"""

    __slots__ = ("ty", "var", "f", "_h")

    def __init__(self, ty, var, f):
        self.ty = ty
        self.var = var
        self.f = f
        self._h = hash((ty, var, f))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (
            type(o) is Agg and self._h == o._h and self.ty == o.ty and self.var == o.var and self.f == o.f
        )

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return "%s" % show(self)


class Ref:
    __slots__ = ("v", "_h")

    def __init__(self, v):
        self.v = v
        self._h = hash(("ref", v))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (type(o) is Ref and self._h == o._h and self.v == o.v)

    def __repr__(self):
        return "&%r" % (self.v,)


class MRef:
    """mutable reference: (root, path). path elements: ('f',i) field, ('v',n) variant (no-op),
    ('i',Lin) element, ('r',start,len) sub range"""

    __slots__ = ("root", "path", "_h")

    def __init__(self, root, path):
        self.root = root
        self.path = path
        self._h = hash((root, path))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return type(o) is MRef and self.root == o.root and self.path == o.path

    def __repr__(self):
        return "&mut %s%s" % (self.root, "".join("." + str(p) for p in self.path))


class Fn:
    __slots__ = ("c", "key")

    def __init__(self, c):
        self.c = c
        self.key = (c["path"], tuple(c["rargs"]), tuple(c.get("cargs", ())), c["key"])

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return type(o) is Fn and self.key == o.key

    def __repr__(self):
        return "fn %s" % self.c["path"]


class Sym:
    """an unknown value of an enum type, expanded when it is inspected"""

    __slots__ = ("ty", "key", "_h")

    def __init__(self, ty, key):
        self.ty = ty
        self.key = key
        self._h = hash((ty, key))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return type(o) is Sym and self._h == o._h and self.ty == o.ty and self.key == o.key

    def __repr__(self):
        return "?%s" % (showkey(self.key),)


class Opq:
    """a value nothing is known of"""

    __slots__ = ("what", "_h")

    def __init__(self, what):
        self.what = what
        self._h = hash(("opq", what))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return type(o) is Opq and self.what == o.what

    def __repr__(self):
        return "<%s>" % (self.what,)


class Base:
    """an unknown sequence"""

    __slots__ = ("name", "ety", "tmpl", "scope", "utf8", "id")
    _all = {}

    def __new__(cls, name, ety, scope=None):
        b = cls._all.get((name, ety))
        if b is None:
            b = object.__new__(cls)
            b.name = name
            b.ety = ety
            b.tmpl = None
            b.scope = scope
            b.id = len(cls._all)
            cls._all[(name, ety)] = b
        return b

    def __repr__(self):
        return self.name if isinstance(self.name, str) else "S%d" % self.id


class Seq:
    __slots__ = ("segs", "utf8", "_h")

    def __init__(self, segs, utf8=False):
        self.segs = segs
        self.utf8 = utf8
        self._h = hash(segs)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (type(o) is Seq and self._h == o._h and self.segs == o.segs)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return "[%s]" % " ++ ".join(show_seg(s) for s in self.segs)


EMPTY = Seq(())
UNINIT = Opq("uninit")
NAMES = {}  # type id -> short name, variant names (set by the world)


def show(v, depth=0):
    if type(v) is Agg:
        n = NAMES.get(v.ty)
        if n is None:
            return "%s(%s)" % (v.ty, ", ".join(show(x) for x in v.f))
        nm, vs = n
        if vs:
            nm = "%s::%s" % (nm, vs[v.var]) if len(vs) > 1 else nm
        return "%s(%s)" % (nm, ", ".join(show(x) for x in v.f)) if v.f else nm
    if type(v) is Ref:
        return "&" + show(v.v)
    return repr(v)


def showkey(k):
    if isinstance(k, tuple):
        return "(" + " ".join(showkey(x) for x in k) + ")"
    return str(k)


def show_seg(s):
    k = s[0]
    if k == "lit":
        return "<%s>" % " ".join(show(x) for x in s[1])
    if k == "sub":
        return "%r[%r;+%r]" % (s[1], s[2], s[3])
    if k == "be":
        return "be%d(%r)" % (s[1], s[2])
    if k == "rep":
        return "rep(%s,%r)" % (show(s[1]), s[2])
    if k == "star":
        return "star(%r<%r: %s)" % (
            s[2],
            s[1],
            " | ".join("%s => %s" % (list(f), "++".join(show_seg(x) for x in g)) for f, g in s[3]),
        )
    return str(s)


class NeedSplit(Exception):
    """the evaluation cannot continue before the state is divided: alternatives are functions that
    refine (in place) a copy of the state, raising Infeasible when impossible"""

    def __init__(self, alts, why=""):
        self.alts = alts
        self.why = why


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- segments
def seg_len(s):
    k = s[0]
    if k == "lit":
        return K(len(s[1]))
    if k == "sub":
        return s[3]
    if k == "be":
        return K(s[1])
    if k == "rep":
        return s[2]
    if k == "star":
        return star_len(s)
    raise Unsupported(k)


def alpha(i, obj):
    """rename the bound atom to the canonical one"""
    return Subst({i: A(BOUND)}).any(obj)


BOUND = atom("bound", (0,), 0, ISIZE_MAX)


def mk_sum(n, body):
    """sum of body (a Lin over BOUND) for BOUND in 0..n"""
    if not any(a is BOUND or mentions(a, BOUND) for a, _ in body.t):
        if body.const:
            return n * body.c
        if n.const:
            return body * n.c
    # split off the parts that do not depend on the index
    r = ZERO
    dep = []
    for a, k in body.t:
        if a is BOUND or mentions(a, BOUND):
            dep.append((a, k))
        elif n.const:
            r = r + Lin(0, ((a, k * n.c),))
        else:
            dep.append((a, k))
    if body.c:
        r = r + n * body.c
    for a, k in dep:
        lo, hi = a.lo, a.hi
        if n.const and lo is not None:
            b = (max(lo, 0) * n.c, hi * n.c)
        else:
            b = (0 if lo >= 0 else -(1 << 100), (1 << 127))
        r = r + Lin(0, ((atom("sum", (n, A(a)), b[0], b[1]), k),))
    return r


def star_len(s):
    _, n, i, alts = s
    ls = []
    for f, g in alts:
        t = ZERO
        for x in g:
            t = t + seg_len(x)
        ls.append(t)
    return mk_sumalt(n, [(alpha(i, f), alpha(i, l)) for (f, g), l in zip(alts, ls)])


def mk_sumalt(n, body):
    """the sum for BOUND in 0..n of the term whose conditions hold"""
    if all(l == body[0][1] for f, l in body):
        return mk_sum(n, body[0][1])
    # the variants are enough where they tell the alternatives apart
    short = [(tuple(x for x in f if type(x) is tuple and x and x[0] == "choice"), l) for f, l in body]
    if len({f for f, l in short}) == len(short):
        body = short
    body = tuple(sorted(body, key=lambda x: str(x)))
    return A(atom("sumalt", (n, body), 0, 1 << 127))


def sum_at(F, a, i):
    """the term of a sum at index i, when it is known"""
    sb = Subst({BOUND: i})
    if a.kind == "sum":
        return sb.lin(a.args[1])
    for f, l in a.args[1]:
        if all(sum_cond(F, sb, c) for c in f):
            return sb.lin(l)
    return None


def sum_cond(F, sb, c):
    if type(c) is tuple and c and c[0] == "choice":
        return F.choice.get(sb.any(c[1])) == c[2]
    if type(c) is tuple:
        return False
    return F.entails(sb.any(c))


def sum_variants(F, l):
    """terms that are at most l, by what is known of sums"""
    sums = [(a, k) for a, k in l.t if a.kind in ("sum", "sumalt")]
    # sums of the same terms up to the same index
    r = l
    used = set()
    for a, k in sums:
        for b, m in sums:
            if a is not b and a not in used and b not in used and k == -m and a.kind == b.kind and a.args[1] == b.args[1]:
                if F.lb(a.args[0] - b.args[0]) and F.lb(b.args[0] - a.args[0]):
                    used |= {a, b}
                    r = r - Lin(0, ((a, k),)) - Lin(0, ((b, m),))
    if used:
        yield r
    # a part of a sum of terms that are not negative is at most all of it
    known = {a for a in F.bnd if a.kind in ("sum", "sumalt")}
    for x in F.ineq:
        known |= {a for a, _ in x.t if a.kind in ("sum", "sumalt")}
    known |= {a for a, _ in sums}
    for a, k in sums:
        for b in sorted(known):
            if b is a or a in used or b.kind != a.kind or b.args[1] != a.args[1]:
                continue
            c, n = a.args[0], b.args[0]
            rest = r - Lin(0, ((a, k),))
            if F.lb(n - c) and F.lb(c - n):
                yield rest + A(b) * k
            if k > 0 or not positive(a):
                continue
            if F.lb(n - c - 1):
                t = sum_at(F, a, c)
                if t is not None:
                    yield rest + (A(b) - t) * k
            if F.lb(n - c):
                yield rest + A(b) * k


def positive(a):
    if a.kind == "sum":
        return Facts().lb(a.args[1])
    return all(Facts().lb(l) for f, l in a.args[1])


def sum_same(F, l):
    """the same term with other names of its sums"""
    known = set()
    for x in F.nes:
        known |= {a for a, _ in x.t if a.kind in ("sum", "sumalt")}
    for a, k in l.t:
        if a.kind in ("sum", "sumalt"):
            for b in sorted(known):
                if b is not a and b.kind == a.kind and b.args[1] == a.args[1]:
                    d = a.args[0] - b.args[0]
                    if F.lb(d) and F.lb(-d):
                        yield l + (A(b) - A(a)) * k


SUMS[0] = sum_variants
SUMS[1] = sum_same


def comprehension(s, ety):
    """a comprehension that makes one element per index, as a base of its own"""
    _, n, i, alts = s
    if any(len(g) != 1 or g[0][0] != "lit" or len(g[0][1]) != 1 for _, g in alts):
        return s
    d = max((a.args[0] for a in atoms_in(alts)[0] if a.kind == "bound" and a is not i), default=0) + 1
    j = atom("bound", (d,), 0, ISIZE_MAX)
    sb = Subst({i: A(j)})
    out = []
    for f, g in alts:
        cs = []
        for c in f:
            if type(c) is tuple and c and c[0] == "set":
                cs.append(("set", sb.atom(c[1]).t[0][0], c[2]))
            else:
                cs.append(sb.any(c))
        out.append((tuple(cs), tuple(y for x in g for y in sb.seg(x))))
    return ("sub", Base(("cmp", j, tuple(out)), ety), ZERO, n)


def seq_len(q):
    r = ZERO
    for s in q.segs:
        r = r + seg_len(s)
    return r


def byte_at(base, idx):
    return A(atom("byte", (base, idx), 0, 255, base.scope))


def norm_bytes_lit(vals):
    """split a run of literal values into segments: bytes read from a base become sub ranges"""
    out = []
    cur = []
    for v in vals:
        if type(v) is Lin and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].kind == "byte":
            a = v.t[0][0]
            if cur:
                out.append(("lit", tuple(cur)))
                cur = []
            out.append(("sub", a.args[0], a.args[1], ONE))
        else:
            cur.append(v)
    if cur:
        out.append(("lit", tuple(cur)))
    return out


def norm_be(n, l):
    if l.const and l.c >= 0:
        return [("lit", tuple(K(b) for b in l.c.to_bytes(n, "big")))]
    if n == 1:
        return norm_bytes_lit([l])
    if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1:
        a = l.t[0][0]
        if a.kind == "be" and a.args[0] == n:
            return [("sub", a.args[1], a.args[2], K(n))]
    return [("be", n, l)]


def whole_numbers(vals):
    """literal values, with the bytes of a number that stand together as that number"""
    for i, x in enumerate(vals):
        if type(x) is Lin and x.c == 0 and len(x.t) == 1:
            a, k = x.t[0]
            if k == 1 and a.kind == "op" and a.args[0] == "bebyte" and a.args[3] == a.args[1] - 1:
                n = a.args[1]
                if i + 1 >= n and all(
                    vals[i - n + 1 + j] == A(atom("op", ("bebyte", n, a.args[2], j), 0, 255)) for j in range(n)
                ):
                    res = [("be", n, a.args[2])]
                    if i + 1 > n:
                        res.insert(0, ("lit", vals[: i + 1 - n]))
                    if i + 1 < len(vals):
                        res += whole_numbers(vals[i + 1 :])
                    return res
    return [("lit", vals)]


def mkseq(segs, utf8=False):
    out = []
    for s in segs:
        k = s[0]
        if k == "lit":
            if not s[1]:
                continue
            parts = norm_bytes_lit(s[1])
        elif k == "be":
            parts = norm_be(s[1], s[2])
        elif k == "sub":
            if s[3].const and s[3].c == 0:
                continue
            parts = [s]
        elif k == "rep":
            if s[2].const:
                if s[2].c == 0:
                    continue
                parts = [("lit", (s[1],) * s[2].c)] if s[2].c <= 64 else [s]
            else:
                parts = [s]
        elif k == "star":
            if s[1].const and s[1].c == 0:
                continue
            if not s[3] or all(not g for _, g in s[3]):
                continue
            parts = [s]
        else:
            parts = [s]
        for p in parts:
            if out:
                q = out[-1]
                if q[0] == "lit" and p[0] == "lit":
                    out.pop()
                    out.extend(whole_numbers(q[1] + p[1]))
                    continue
                if q[0] == "sub" and p[0] == "sub" and q[1] is p[1] and q[2] + q[3] == p[2]:
                    out[-1] = ("sub", q[1], q[2], q[3] + p[3])
                    continue
            out.append(p)
    return Seq(tuple(out), utf8)


def concat(a, b):
    u = (a.utf8 or not a.segs) and (b.utf8 or not b.segs)
    return mkseq(a.segs + b.segs, u)


def lit(*vs):
    return mkseq((("lit", tuple(vs)),))


def sub(base, start, ln, utf8=False):
    return Seq((("sub", base, start, ln),), utf8)


def whole(base, ln, utf8=False):
    return sub(base, ZERO, ln, utf8)


_mention = {}


def mentions(obj, a):
    """does obj depend on atom a (structurally)?"""
    return a in atoms_in(obj)[0]


def atoms_in(obj):
    """(set of atoms, set of bases, set of sym keys) that occur anywhere inside"""
    r = _mention.get(obj) if not isinstance(obj, (list, dict)) else None
    if r is not None:
        return r
    ats, bs, ks = set(), set(), set()

    def go(o):
        t = type(o)
        if t is Lin:
            for a, _ in o.t:
                go(a)
        elif t is Atom:
            if o in ats:
                return
            ats.add(o)
            if o.args:
                x = atoms_in(o.args)
                ats.update(x[0])
                bs.update(x[1])
                ks.update(x[2])
        elif t is tuple:
            for x in o:
                go(x)
        elif t is Agg:
            x = atoms_in(o.f)
            ats.update(x[0])
            bs.update(x[1])
            ks.update(x[2])
        elif t is Ref:
            go(o.v)
        elif t is Seq:
            for s in o.segs:
                go(s)
        elif t is Base:
            bs.add(o)
            if isinstance(o.name, tuple):
                go(o.name)
        elif t is Sym:
            ks.add(o.key)
            go(o.key)
        elif t is Cond:
            go(o.l)
        elif t is Or or t is And:
            for c in o.cs:
                go(c)
        elif t is MRef:
            go(o.path)

    go(obj)
    r = (frozenset(ats), frozenset(bs), frozenset(ks))
    try:
        _mention[obj] = r
    except TypeError:
        pass
    return r


class Subst:
    """replaces atoms by linear forms, bases by sequences or other bases, and sym keys"""

    def __init__(self, amap, bmap=None, kmap=None):
        self.amap = amap
        self.bmap = bmap or {}
        self.kmap = kmap or {}
        self.memo = {}
        self.dirty = set(amap) | set(self.bmap)

    def touched(self, obj):
        ats, bs, ks = atoms_in(obj)
        if not self.amap.keys().isdisjoint(ats):
            return True
        if self.bmap and not self.bmap.keys().isdisjoint(bs):
            return True
        if self.kmap and not self.kmap.keys().isdisjoint(ks):
            return True
        return False

    def lin(self, l):
        if not l.t:
            return l
        r = self.memo.get(l)
        if r is None:
            if not self.touched(l):
                r = l
            else:
                r = K(l.c)
                for a, k in l.t:
                    r = r + self.atom(a) * k
            self.memo[l] = r
        return r

    def atom(self, a):
        r = self.amap.get(a)
        if r is not None:
            return r
        if not a.args or not self.touched(a.args):
            return A(a)
        return remake(a, self)

    def base(self, b):
        r = self.bmap.get(b)
        if r is not None:
            return r
        if isinstance(b.name, tuple) and self.touched(b.name):
            nb = Base(self.any(b.name), b.ety, b.scope)
            if nb.tmpl is None and b.tmpl is not None:
                nb.tmpl = b.tmpl
            return nb
        return b

    def seg(self, s):
        k = s[0]
        if k == "lit":
            return (("lit", tuple(self.any(x) for x in s[1])),)
        if k == "sub":
            b = self.base(s[1])
            st, ln = self.lin(s[2]), self.lin(s[3])
            if type(b) is Seq:
                return slice_plain(b, st, ln)
            return (("sub", b, st, ln),)
        if k == "be":
            return (("be", s[1], self.lin(s[2])),)
        if k == "rep":
            return (("rep", self.any(s[1]), self.lin(s[2])),)
        if k == "star":
            alts = tuple((tuple(self.any(c) for c in f), tuple(y for x in g for y in self.seg(x))) for f, g in s[3])
            return (("star", self.lin(s[1]), s[2], alts),)
        raise Unsupported(k)

    def any(self, o):
        t = type(o)
        if t is Lin:
            return self.lin(o)
        if t is int or t is str or t is bool or o is None:
            return o
        if t is Agg:
            if not self.touched(o):
                return o
            return Agg(o.ty, o.var, tuple(self.any(x) for x in o.f))
        if t is tuple:
            if not self.touched(o):
                return o
            if o and o[0] in ("sub", "lit", "be", "rep", "star") and len(o) > 1:
                r = self.seg(o)
                if len(r) == 1:
                    return r[0]
                raise Unsupported("segment in key")
            return tuple(self.any(x) for x in o)
        if t is Ref:
            return Ref(self.any(o.v))
        if t is Seq:
            if not self.touched(o):
                return o
            return mkseq([y for s in o.segs for y in self.seg(s)], o.utf8)
        if t is Atom:
            l = self.atom(o)
            if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1:
                return l.t[0][0]
            return l
        if t is Base:
            return self.base(o)
        if t is Sym:
            r = self.kmap.get(o.key)
            if r is not None:
                return r
            return Sym(o.ty, self.any(o.key))
        if t is Cond:
            l = self.lin(o.l)
            if not l.t:
                return l.c >= 0 if o.k == "ge" else (l.c == 0) == (o.k == "eq")
            return Cond(o.k, l)
        if t is Or:
            return Or([self.any(c) for c in o.cs])
        if t is And:
            return And([self.any(c) for c in o.cs])
        if t is MRef:
            return MRef(o.root, self.any(o.path))
        return o

    def facts(self, f, into=None):
        """the image of facts; raises Infeasible"""
        g = into if into is not None else Facts()
        for a, m in f.sets.items():
            l = self.atom(a)
            if l.const:
                if not (0 <= l.c <= 255 and m >> l.c & 1):
                    raise Infeasible
                continue
            tb = table_of(l)
            if tb is None:
                continue
            b, t = tb
            cur = g.mask(b)
            n = 0
            for i in range(256):
                if cur >> i & 1 and 0 <= t[i] < 256 and m >> t[i] & 1:
                    n |= 1 << i
            if n == 0:
                raise Infeasible
            if n != g.sets.get(b, FULL):
                g.sets[b] = n
        for a, (lo, hi) in f.bnd.items():
            l = self.atom(a)
            g.assume(ge(l, K(lo)))
            g.assume(ge(K(hi), l))
        for l in f.ineq:
            g.assume(ge(self.lin(l), ZERO))
        for l in f.nes:
            g.assume(ne(self.lin(l), ZERO))
        for k, v in f.choice.items():
            k2 = self.any(k)
            if g.choice.get(k2, v) != v:
                raise Infeasible
            g.choice[k2] = v
        if f.props:
            g.props = g.props | frozenset(self.any(p) for p in f.props)
        return g


def slice_plain(q, st, ln):
    """q[st .. st+ln] where the cut falls on known boundaries"""
    if st == ZERO and ln == seq_len(q):
        return q.segs
    if len(q.segs) == 1 and q.segs[0][0] == "sub":
        s = q.segs[0]
        return (("sub", s[1], s[2] + st, ln),)
    raise Unsupported("substitution cuts a sequence")


def remake(a, s):
    k = a.kind
    if k == "byte":
        b = s.base(a.args[0])
        i = s.lin(a.args[1])
        if type(b) is Seq:
            if len(b.segs) == 1 and b.segs[0][0] == "sub":
                return byte_at(b.segs[0][1], b.segs[0][2] + i)
            raise Unsupported("byte of a composite sequence")
        return byte_at(b, i)
    if k == "be":
        b = s.base(a.args[1])
        i = s.lin(a.args[2])
        if type(b) is Seq:
            if len(b.segs) == 1 and b.segs[0][0] == "sub":
                return A(atom("be", (a.args[0], b.segs[0][1], b.segs[0][2] + i), a.lo, a.hi))
            raise Unsupported("bytes of a composite sequence")
        return A(atom("be", (a.args[0], b, i), a.lo, a.hi))
    if k == "tbl":
        l = s.atom(a.args[0])
        t = a.args[1]
        if l.const:
            return K(t[l.c])
        tb = table_of(l)
        if tb is None:
            return A(atom("op", ("tblof", l, t), a.lo, a.hi))
        return mk_table(tb[0], tuple(t[min(max(x, 0), 255)] for x in tb[1]))
    if k == "sum":
        return mk_sum(s.lin(a.args[0]), s.lin(a.args[1]))
    if k == "sumalt":
        return mk_sumalt(s.lin(a.args[0]), s.any(a.args[1]))
    return A(atom(k, s.any(a.args), a.lo, a.hi, a.scope))
