"""Integer terms and the fact domain of the abstract interpreter.

An integer value is a linear form over atoms. An atom stands for one unknown mathematical integer:
an input, a byte or big endian number read at a position of an input, the length of a sequence, a
value that a loop head abstracts, or the result of an operation the linear domain cannot express
(hash consed on its operands, so that equal operations on equal operands are equal).

Facts are: a set of possible values for every byte (a bit mask of 256), an interval per atom, a
conjunction of linear inequalities, disequalities, and the variant chosen for symbolic enums.
Entailment adds up known inequalities; nothing is handed to a solver.
"""
from functools import lru_cache


class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "scope", "_h")

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o


_atoms = {}
_next = [0]
USIZE_MAX = (1 << 64) - 1
ISIZE_MAX = (1 << 63) - 1


def atom(kind, args, lo, hi, scope=None):
    k = (kind, args)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.id = _next[0]
        _next[0] += 1
        a.kind = kind
        a.args = args
        a.lo = lo
        a.hi = hi
        a.scope = scope
        a._h = hash((kind, a.id))
        _atoms[k] = a
    return a


def show_atom(a):
    if a.kind == "byte":
        return "%s[%s]" % (a.args[0], a.args[1])
    if a.kind == "be":
        return "%s.be%d[%s]" % (a.args[1], a.args[0], a.args[2])
    if a.kind == "in":
        return str(a.args[0])
    if a.kind == "len":
        return "len(%s)" % (a.args[0],)
    if a.kind == "tbl":
        return "f(%s)" % a.args[0]
    if a.kind == "head":
        return "h%d" % a.id
    return "%s#%d" % (a.kind, a.id)


class Lin:
    """constant + sum of coefficient * atom; the terms are sorted by atom"""

    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (type(o) is Lin and self._h == o._h and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        s = []
        for a, k in self.t:
            s.append(("%r" % a) if k == 1 else ("-%r" % a) if k == -1 else "%d*%r" % (k, a))
        if self.c or not s:
            s.append(str(self.c))
        return "+".join(s).replace("+-", "-")

    @property
    def const(self):
        return not self.t

    def __add__(self, o):
        if type(o) is int:
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        return Lin(self.c + o.c, _merge(self.t, o.t, 1))

    def __sub__(self, o):
        if type(o) is int:
            return Lin(self.c - o, self.t)
        if not o.t:
            return Lin(self.c - o.c, self.t)
        return Lin(self.c - o.c, _merge(self.t, o.t, -1))

    def __mul__(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, tuple((a, x * k) for a, x in self.t))

    def __neg__(self):
        return self * -1

    def atoms(self):
        return [a for a, _ in self.t]


def _merge(x, y, s):
    if not x:
        return tuple((a, s * k) for a, k in y) if s != 1 else y
    i = j = 0
    r = []
    nx, ny = len(x), len(y)
    while i < nx and j < ny:
        a, k = x[i]
        b, m = y[j]
        if a is b:
            z = k + s * m
            if z:
                r.append((a, z))
            i += 1
            j += 1
        elif a.id < b.id:
            r.append(x[i])
            i += 1
        else:
            r.append((b, s * m))
            j += 1
    r.extend(x[i:])
    if j < ny:
        r.extend((b, s * m) for b, m in y[j:])
    return tuple(r)


ZERO = Lin(0)
ONE = Lin(1)
_consts = {}


def K(n):
    r = _consts.get(n)
    if r is None:
        r = Lin(n)
        if -300 < n < 300:
            _consts[n] = r
    return r


def A(a):
    return Lin(0, ((a, 1),))


def mk_in(name, lo, hi):
    return A(atom("in", (name,), lo, hi))


# ---------------------------------------------------------------- conditions
class Cond:
    """lin >= 0 ('ge'), lin == 0 ('eq'), lin != 0 ('ne')"""

    __slots__ = ("k", "l", "_h")

    def __init__(self, k, l):
        self.k = k
        self.l = l
        self._h = hash((k, l))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return type(o) is Cond and self.k == o.k and self.l == o.l

    def __repr__(self):
        return "(%r %s 0)" % (self.l, {"ge": ">=", "eq": "==", "ne": "!="}[self.k])

    def neg(self):
        if self.k == "ge":
            return Cond("ge", -self.l - 1)
        return Cond("ne" if self.k == "eq" else "eq", self.l)


class Or:
    """a disjunction of conditions (and, negated, a conjunction)"""

    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = tuple(cs)

    def __hash__(self):
        return hash(self.cs)

    def __eq__(self, o):
        return type(o) is Or and self.cs == o.cs

    def __repr__(self):
        return " or ".join(map(repr, self.cs))


class And:
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = tuple(cs)

    def __hash__(self):
        return hash(("and", self.cs))

    def __eq__(self, o):
        return type(o) is And and self.cs == o.cs

    def __repr__(self):
        return " and ".join(map(repr, self.cs))


def neg(c):
    if c is True:
        return False
    if c is False:
        return True
    if type(c) is Cond:
        return c.neg()
    if type(c) is Or:
        return And([neg(x) for x in c.cs])
    return Or([neg(x) for x in c.cs])


def ge(a, b):
    l = a - b
    if not l.t:
        return l.c >= 0
    return Cond("ge", l)


def eq(a, b):
    l = a - b
    if not l.t:
        return l.c == 0
    if l.t[0][1] < 0:
        l = -l
    return Cond("eq", l)


def ne(a, b):
    return neg(eq(a, b))


FULL = (1 << 256) - 1


def table_of(l):
    """if l is a function of a single byte (0..255) atom: (atom, tuple of 256 values)"""
    r = _tables.get(l)
    if r is None:
        r = _table_of(l)
        _tables[l] = r
    return r or None


_tables = {}


def _table_of(l):
    base = None
    for a, _ in l.t:
        b = a if a.kind == "byte" or (a.lo == 0 and a.hi == 255 and a.kind in ("in", "sym", "head", "tp", "el")) else a.args[0] if a.kind == "tbl" else None
        if b is None or (base is not None and base is not b):
            return False
        base = b
    if base is None:
        return False
    v = [l.c] * 256
    for a, k in l.t:
        if a is base:
            for i in range(256):
                v[i] += k * i
        else:
            t = a.args[1]
            for i in range(256):
                v[i] += k * t[i]
    return (base, tuple(v))


def mk_table(base, t):
    """the linear form of a table over a byte atom, in canonical form"""
    if all(x == t[0] for x in t):
        return K(t[0])
    d = t[0]
    if all(t[i] == i + d for i in range(256)):
        return A(base) + d
    return A(atom("tbl", (base, t), min(t), max(t)))


class Infeasible(Exception):
    pass


SUMS = [None, None]


class Facts:
    __slots__ = ("sets", "bnd", "ineq", "nes", "choice", "props")

    def __init__(self):
        self.sets = {}
        self.bnd = {}
        self.ineq = ()
        self.nes = frozenset()
        self.choice = {}
        self.props = frozenset()

    def copy(self):
        f = Facts.__new__(Facts)
        f.sets = dict(self.sets)
        f.bnd = dict(self.bnd)
        f.ineq = self.ineq
        f.nes = self.nes
        f.choice = dict(self.choice)
        f.props = self.props
        return f

    def show(self):
        r = []
        for a, m in self.sets.items():
            r.append("%r in {%s}" % (a, show_mask(m)))
        for a, (lo, hi) in self.bnd.items():
            r.append("%d<=%r<=%d" % (lo, a, hi))
        r += ["%r>=0" % l for l in self.ineq]
        r += ["%r!=0" % l for l in self.nes]
        r += ["%r=%r" % x for x in self.choice.items()]
        r += ["%r" % (x,) for x in self.props]
        return r

    # ---- bounds
    def abounds(self, a):
        b = self.bnd.get(a)
        lo, hi = (a.lo, a.hi) if b is None else b
        k = a.kind
        if k == "tbl":
            m = self.sets.get(a.args[0])
            if m is not None and m != FULL:
                l2, h2 = _tbl_range(a.args[1], m)
                if l2 > lo:
                    lo = l2
                if h2 < hi:
                    hi = h2
        else:
            m = self.sets.get(a)
            if m is not None:
                l2 = (m & -m).bit_length() - 1
                h2 = m.bit_length() - 1
                if l2 > lo:
                    lo = l2
                if h2 < hi:
                    hi = h2
        return lo, hi

    def bounds(self, l, rel=True):
        if not l.t:
            return l.c, l.c
        if len(l.t) > 1:
            tb = table_of(l)
            if tb is not None:
                m = self.mask(tb[0])
                lo, hi = _tbl_range(tb[1], m)
                return lo, hi
        lo = hi = l.c
        for a, k in l.t:
            x, y = self.abounds(a)
            if k > 0:
                lo += k * x
                hi += k * y
            else:
                lo += k * y
                hi += k * x
        if rel and len(l.t) > 1:
            # a relation between the same terms
            n = None
            for c in self.ineq:
                if len(c.t) != len(l.t):
                    continue
                if c.t == l.t:
                    # c.t + c.c >= 0
                    lo = max(lo, l.c - c.c)
                else:
                    if n is None:
                        n = (l * -1).t
                    if c.t == n:
                        hi = min(hi, l.c + c.c)
        return lo, hi

    def mask(self, a):
        m = self.sets.get(a, FULL)
        b = self.bnd.get(a)
        if b is not None:
            lo, hi = b
            m &= ((1 << (hi + 1)) - 1) & ~((1 << max(lo, 0)) - 1)
        return m

    def related(self, a):
        """the values of a byte that the relations with other terms leave"""
        m = FULL
        for r in self.ineq:
            for b, j in r.t:
                if b is a:
                    x, y = self.abounds(a)
                    rest = self.bounds(r, False)[1] - (j * y if j > 0 else j * x)
                    if j > 0:
                        x = max(0, -(rest // j))
                        m &= ~((1 << min(x, 256)) - 1)
                    else:
                        m &= (1 << max(0, min(rest // -j, 255) + 1)) - 1
        return m

    # ---- entailment
    def lb(self, l, depth=3, skip=()):
        """True when l >= 0 follows"""
        lo, _ = self.bounds(l)
        if lo >= 0:
            return True
        if depth == 0 or not l.t:
            return False
        for c in self.ineq:
            if c in skip:
                continue
            # eliminate a negative contribution of l with c (c has the same atom, same sign)
            best = None
            for a, k in l.t:
                for b, m in c.t:
                    if a is b:
                        if (k > 0) == (m > 0) and k % m == 0:
                            f = k // m
                            if best is None or f > best:
                                best = f
                        break
            if best is None or best <= 0:
                continue
            if self.lb(l - c * best, depth - 1, skip + (c,)):
                return True
        return False

    def entails_ge(self, l):
        if not l.t:
            return l.c >= 0
        if self.lb(l):
            return True
        for a, k in l.t:
            if a.kind == "sum" or a.kind == "sumalt":
                return any(self.lb(x) for x in SUMS[0](self, l))
        return False

    def entails(self, c):
        if c is True or c is False:
            return c
        if type(c) is Or:
            return any(self.entails(x) for x in c.cs)
        if type(c) is And:
            return all(self.entails(x) for x in c.cs)
        l = c.l
        if c.k == "ge":
            return self.entails_ge(l)
        if c.k == "eq":
            if not l.t:
                return l.c == 0
            tb = table_of(l)
            if tb is not None:
                m = self.mask(tb[0])
                return _tbl_range(tb[1], m) == (0, 0)
            return self.entails_ge(l) and self.entails_ge(-l)
        # ne
        if not l.t:
            return l.c != 0
        if l in self.nes or -l in self.nes:
            return True
        tb = table_of(l)
        if tb is not None:
            m = self.mask(tb[0])
            return not (_tbl_zero_mask(tb[1]) & m)
        if any(a.kind == "sum" or a.kind == "sumalt" for a, _ in l.t):
            for x in SUMS[1](self, l):
                if x in self.nes or -x in self.nes:
                    return True
            return self.entails_ge(l - 1) or self.entails_ge(-l - 1)
        return self.lb(l - 1) or self.lb(-l - 1)

    def refutes(self, c):
        return self.entails(neg(c))

    # ---- assumption (in place); raises Infeasible
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible
        if type(c) is And:
            for x in c.cs:
                self.assume(x)
            return
        if type(c) is Or:
            alive = [x for x in c.cs if not self.refutes(x)]
            if not alive:
                raise Infeasible
            if len(alive) == 1:
                self.assume(alive[0])
            return
        l = c.l
        tb = table_of(l)
        if tb is not None:
            a, t = tb
            m = self.mask(a)
            if c.k == "eq":
                k = _tbl_zero_mask(t)
            elif c.k == "ne":
                k = ~_tbl_zero_mask(t)
            else:
                k = _tbl_ge_mask(t)
            n = m & k
            if n == 0:
                raise Infeasible
            if self.ineq and a.kind != "tbl" and not n & self.related(a):
                raise Infeasible
            if n != m or n != self.sets.get(a, FULL):
                self.sets[a] = n
                if n & (n - 1) == 0:
                    pass
            return
        if c.k == "ge":
            self._ge(l)
        elif c.k == "eq":
            if l in self.nes or -l in self.nes:
                raise Infeasible
            self._ge(l)
            self._ge(-l)
        else:
            lo, hi = self.bounds(l)
            if lo > 0 or hi < 0:
                return
            if self.entails(Cond("eq", l)):
                raise Infeasible
            if self.lb(l):
                self._ge(l - 1)
                return
            if self.lb(-l):
                self._ge(-l - 1)
                return
            if l.t[0][1] < 0:
                l = -l
            self.nes = self.nes | {l}

    def _ge(self, l):
        if not l.t:
            if l.c < 0:
                raise Infeasible
            return
        lo, hi = self.bounds(l)
        if hi < 0:
            raise Infeasible
        if lo >= 0:
            return
        if self.lb(-l - 1):
            raise Infeasible
        if len(l.t) == 1:
            a, k = l.t[0]
            self._tighten(a, k, l.c)
        else:
            if self.lb(l, 2):
                return
            # keep the set small: drop the inequalities that the new one implies
            new = [c for c in self.ineq if not _implied(l, c)]
            new.append(l)
            self.ineq = tuple(new)
            self._propagate(l)
        # disequalities at a boundary become strict
        if self.nes:
            for n in list(self.nes):
                if self.lb(n, 2):
                    self.nes = self.nes - {n}
                    self._ge(n - 1)
                elif self.lb(-n, 2):
                    self.nes = self.nes - {n}
                    self._ge(-n - 1)

    def _tighten(self, a, k, c):
        lo, hi = self.abounds(a)
        if k > 0:
            x = -((c) // k)  # a >= -c/k, rounded up
            if x > lo:
                lo = x
            else:
                return False
        else:
            x = c // (-k)
            if x < hi:
                hi = x
            else:
                return False
        if lo > hi:
            raise Infeasible
        if table_of(A(a)) is not None and a.kind != "tbl":
            m = self.mask(a) & ((1 << (hi + 1)) - 1) & ~((1 << max(lo, 0)) - 1)
            if not m:
                raise Infeasible
            self.sets[a] = m
        elif a.kind == "tbl":
            self.assume(Cond("ge", A(a) - lo))
            self.assume(Cond("ge", -A(a) + hi))
        else:
            self.bnd[a] = (lo, hi)
        return True

    def _propagate(self, l):
        _, hi = self.bounds(l, False)
        for a, k in l.t:
            x, y = self.abounds(a)
            rest = hi - (k * y if k > 0 else k * x)
            # k*a + rest_max >= 0
            if rest < 1 << 70:
                self._tighten(a, k, rest)


_tr = {}


def _tbl_range(t, m):
    k = (t, m)
    r = _tr.get(k)
    if r is None:
        vs = [t[i] for i in range(256) if m >> i & 1]
        r = (min(vs), max(vs)) if vs else (0, 0)
        _tr[k] = r
    return r


@lru_cache(maxsize=None)
def _tbl_zero_mask(t):
    m = 0
    for i in range(256):
        if t[i] == 0:
            m |= 1 << i
    return m


@lru_cache(maxsize=None)
def _tbl_ge_mask(t):
    m = 0
    for i in range(256):
        if t[i] >= 0:
            m |= 1 << i
    return m


def _implied(l, c):
    """c follows from l alone because they differ by a non negative constant"""
    return c.t == l.t and c.c >= l.c


def show_mask(m):
    v = [i for i in range(256) if m >> i & 1]
    r = []
    i = 0
    while i < len(v):
        j = i
        while j + 1 < len(v) and v[j + 1] == v[j] + 1:
            j += 1
        r.append("%02x" % v[i] if i == j else "%02x..%02x" % (v[i], v[j]))
        i = j + 1
    return ",".join(r)


def mask_of(vals):
    m = 0
    for v in vals:
        m |= 1 << v
    return m
