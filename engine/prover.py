"""Equality of abstract values under the facts of a state, by structure: sequences are walked
segment by segment. A question that the facts leave open raises NeedSplit (the interpreter divides
the state and asks again); what remains undecided is reported as a difference."""
from terms import *
from values import *


class Prover:
    def __init__(self, I):
        self.I = I
        self.depth = 0

    # True, or a description of the difference
    def same(self, st, a, b, depth=0):
        I = self.I
        ta, tb = type(a), type(b)
        if a is b or (ta is tb and a == b):
            return True
        if depth > 60:
            return "too deep"
        bools = (bool, Cond, Or, And)
        if ta in bools and tb in bools:
            x, y = I.decide(st, a), I.decide(st, b)
            return True if x == y else "%s is not %s" % (x, y)
        if ta is Lin and tb is Lin:
            if self.lin_eq(st, a, b):
                return True
            return "%r may differ from %r" % (a, b)
        if ta is MRef:
            return self.same(st, I.rd(st, a), b, depth)
        if tb is MRef:
            return self.same(st, a, I.rd(st, b), depth)
        if ta is Ref:
            return self.same(st, a.v, b.v if tb is Ref else b, depth)
        if tb is Ref:
            return self.same(st, a, b.v, depth)
        if ta is Sym or tb is Sym:
            if ta is Sym:
                if tb is not Sym and tb is not Agg:
                    return "different kinds of value"
                a = I.w.expand(a, I.variant_of(st, a))
            if tb is Sym:
                b = I.w.expand(b, I.variant_of(st, b))
            return self.same(st, a, b, depth + 1)
        if ta is Agg and tb is Agg:
            if a.ty != b.ty and len(a.f) != len(b.f):
                return "different types"
            if a.var != b.var:
                return "%s is not %s" % (show(a), show(b))
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                r = self.same(st, x, y, depth + 1)
                if r is not True:
                    return r
            return True
        if ta is Seq and tb is Seq:
            return self.seq_eq(st, a, b)
        if ta is Seq and tb is Agg:
            u = I.unwrap_seq(b)
            if u is not None:
                return self.same(st, a, u, depth + 1)
        if tb is Seq and ta is Agg:
            u = I.unwrap_seq(a)
            if u is not None:
                return self.same(st, u, b, depth + 1)
        return "%s is not known to equal %s" % (show(a), show(b))

    def lin_eq(self, st, a, b):
        if a == b:
            return True
        c = eq(a, b)
        if c is True or c is False:
            return c
        if st.facts.entails(c):
            return True
        # by contradiction
        for d in (ge(a, b + 1), ge(b, a + 1)):
            t = st.fork()
            try:
                t.facts.assume(d)
            except Infeasible:
                continue
            return False
        return True

    def try_eq(self, st, a, b):
        try:
            return self.same(st.fork(), a, b) is True
        except (NeedSplit, Unsupported):
            return False
        except Infeasible:
            return True

    def zero(self, st, l):
        """l == 0? decides"""
        if l.const:
            return l.c == 0
        return self.I.decide(st, eq(l, ZERO))

    def compared(self, st):
        """sequences that a comparison found to be equal"""
        for d in (st.facts.bnd, st.facts.sets):
            for a in d:
                if a.kind == "op" and len(a.args) == 4 and a.args[0] == "bool" and a.args[1] == "seqeq":
                    if st.facts.abounds(a)[0] == 1:
                        yield a.args[2], a.args[3]

    def alike(self, st, s, u, p, q):
        p, q = p.segs, q.segs
        if len(p) != 1 or len(q) != 1:
            return False
        p, q = p[0], q[0]
        return (
            p[0] == "sub" and q[0] == "sub" and p[1] is s[1] and q[1] is u[1]
            and self.lin_eq(st, p[2], s[2]) and self.lin_eq(st, p[3], s[3])
            and self.lin_eq(st, q[2], u[2]) and self.lin_eq(st, q[3], u[3])
        )

    def seq_eq(self, st, a, b):
        x, y = list(a.segs), list(b.segs)
        if len(x) != 1 or len(y) != 1 or x[0][0] != "sub" or y[0][0] != "sub":
            if any(k in ((a, b), (b, a)) for k in self.compared(st)):
                return True
        fuel = 400
        while True:
            fuel -= 1
            if fuel == 0:
                return "too long"
            while x and seg_len(x[0]).const and seg_len(x[0]).c == 0:
                x.pop(0)
            while y and seg_len(y[0]).const and seg_len(y[0]).c == 0:
                y.pop(0)
            if not x and not y:
                return True
            if not x or not y:
                r = x or y
                if st.facts.entails(eq(seg_len(r[0]), ZERO)):
                    r.pop(0)
                    continue
                if self.no_parts(st, r[0]):
                    continue
                if r[0][0] == "star":
                    q = self.unfold_flat(st, r[0], None)
                    if q is not None:
                        r[0] = q
                        continue
                if st.facts.refutes(eq(seg_len(r[0]), ZERO)):
                    return "%s has no counterpart" % show_seg(r[0])
                if self.zero(st, seg_len(r[0])):
                    r.pop(0)
                    continue
                return "%s has no counterpart" % show_seg(r[0])
            s, u = x[0], y[0]
            if s == u:
                x.pop(0)
                y.pop(0)
                continue
            ks, ku = s[0], u[0]
            if ks == "sub" and ku == "sub" and s[1] is u[1] and self.lin_eq(st, s[2], u[2]):
                n, m = s[3], u[3]
                if self.lin_eq(st, n, m):
                    x.pop(0)
                    y.pop(0)
                elif self.I.decide(st, ge(n, m)):
                    y.pop(0)
                    x[0] = ("sub", s[1], s[2] + m, n - m)
                else:
                    x.pop(0)
                    y[0] = ("sub", u[1], u[2] + n, m - n)
                continue
            if ks == "sub" and ku == "sub":
                # they were compared before
                if any(self.alike(st, s, u, p, q) or self.alike(st, u, s, p, q) for p, q in self.compared(st)):
                    x.pop(0)
                    y.pop(0)
                    continue
                if s[3].const and u[3].const and s[3].c == u[3].c <= 16:
                    for i in range(s[3].c):
                        r = self.same(st, self.I.seg_elem(st, s, K(i)), self.I.seg_elem(st, u, K(i)))
                        if r is not True:
                            return r
                    x.pop(0)
                    y.pop(0)
                    continue
            # the parts of a buffer in order
            if ks == "star" and ku == "sub":
                r = self.unfold_flat(st, s, u)
                if r is not None:
                    x[0] = r
                    continue
            if ku == "star" and ks == "sub":
                r = self.unfold_flat(st, u, s)
                if r is not None:
                    y[0] = r
                    continue
            if ks == "star" and ku == "star" and self.lin_eq(st, s[1], u[1]):
                r = self.star_eq(st, s, u)
                if r is not True:
                    return r
                x.pop(0)
                y.pop(0)
                continue
            # a possibly empty segment
            if ks != "lit" and ks != "be" and not st.facts.entails(ge(seg_len(s), ONE)):
                if self.zero(st, seg_len(s)):
                    x.pop(0)
                    continue
            if ku != "lit" and ku != "be" and not st.facts.entails(ge(seg_len(u), ONE)):
                if self.zero(st, seg_len(u)):
                    y.pop(0)
                    continue
            if ks == "be" and ku == "be" and s[1] == u[1]:
                if not self.lin_eq(st, s[2], u[2]):
                    return "%r may differ from %r" % (s[2], u[2])
                x.pop(0)
                y.pop(0)
                continue
            if ks == "be" or ku == "be":
                r = self.be_eq(st, x, y) if ks == "be" else self.be_eq(st, y, x)
                if r is not True:
                    return r
                continue
            if ks == "rep" and ku == "rep" and self.lin_eq(st, s[2], u[2]):
                r = self.same(st, s[1], u[1])
                if r is not True:
                    return r
                x.pop(0)
                y.pop(0)
                continue
            if ks == "lit" or ku == "lit":
                e, f = self.first(st, x), self.first(st, y)
                r = self.same(st, e, f)
                if r is not True:
                    return r
                continue
            return "%s is not known to equal %s" % (show_seg(s), show_seg(u))

    def first(self, st, x):
        """remove and return the first element"""
        s = x[0]
        e = self.I.seg_elem(st, s, ZERO)
        k = s[0]
        if k == "lit":
            if len(s[1]) == 1:
                x.pop(0)
            else:
                x[0] = ("lit", s[1][1:])
        elif k == "sub":
            x[0] = ("sub", s[1], s[2] + 1, s[3] - 1)
        else:
            x[0:1] = list(self.I.cut(st, s, ONE)[1])
        return e

    def be_eq(self, st, x, y):
        """x starts with a big endian number"""
        _, n, v = x[0]
        u = y[0]
        if u[0] == "sub" and st.facts.entails(ge(u[3], K(n))):
            w = A(atom("be", (n, u[1], u[2]), 0, (1 << 8 * n) - 1))
            if not self.lin_eq(st, v, w):
                return "%r may differ from the number at %s" % (v, show_seg(u))
            x.pop(0)
            y[0] = ("sub", u[1], u[2] + n, u[3] - n)
            return True
        if u[0] == "lit" and len(u[1]) >= n and all(type(e) is Lin for e in u[1][:n]):
            w = ZERO
            for e in u[1][:n]:
                w = w * 256 + e
            if not self.lin_eq(st, v, w):
                return "%r may differ from %r" % (v, w)
            x.pop(0)
            if len(u[1]) == n:
                y.pop(0)
            else:
                y[0] = ("lit", u[1][n:])
            return True
        # byte by byte
        bs = [A(atom("op", ("bebyte", n, v, j), 0, 255)) for j in range(n)]
        x[0] = ("lit", tuple(bs))
        r = self.same(st, self.first(st, x), self.first(st, y))
        return r

    def no_parts(self, st, u):
        """the range that an empty vector is cut from is empty"""
        for p in st.facts.props:
            if p[0] == "flat" and u[0] == "sub" and p[4] is u[1]:
                c = eq(p[5], p[6])
                if not st.facts.entails(c) and st.facts.entails(eq(p[3], ZERO)):
                    st.facts.assume(c)
                    return True
        return False

    def unfold_flat(self, st, s, u):
        """a comprehension that appends, for each element of a vector, the bytes the element stands
        for, is the range of the buffer that the vector is known to be cut from"""
        I = self.I
        for p in sorted((p for p in st.facts.props if p[0] == "flat"), key=repr):
            _, kind, B, n, D, a, x = p
            if not self.lin_eq(st, n, s[1]):
                continue
            if u is not None and (D is not u[1] or not self.lin_eq(st, a, u[2])):
                continue
            if self.is_flat(st, s, kind, B):
                return ("sub", D, a, x - a)
        return None

    def is_flat(self, st, s, kind, B):
        I = self.I
        n = s[1]
        ev = len(I.alarms)
        I.quiet += 1
        try:
            for f, g in s[3]:
                t = st.fork()
                try:
                    t.facts.assume(ge(n, A(BOUND) + 1))
                    sb = Subst({})
                    for c in f:
                        I.assume_alt(t, sb, c)
                except Infeasible:
                    continue

                def one(w):
                    el = I.base_elem(w, B, A(BOUND))
                    for w2, r in I.eval_fn(kind, [Ref(el)], w):
                        q = self.settle(w2, lambda v: self.seq_eq(v, mkseq(g), r))
                        if q is not True:
                            return q
                    return True

                if self.settle(t, one) is not True:
                    return False
            return True
        except Unsupported:
            return False
        finally:
            I.quiet -= 1
            del I.alarms[ev:]

    def star_eq(self, st, s, u):
        """one arbitrary iteration: whatever alternatives both sides may take append the same"""
        I = self.I
        n = s[1]
        for f, g in s[3]:
            for f2, g2 in u[3]:
                t = st.fork()
                try:
                    t.facts.assume(ge(n, A(BOUND) + 1))
                    sb = Subst({})
                    for c in f:
                        I.assume_alt(t, sb, c)
                    for c in f2:
                        I.assume_alt(t, sb, c)
                except Infeasible:
                    continue
                r = self.settle(t, lambda w: self.seq_eq(w, mkseq(g), mkseq(g2)))
                if r is not True:
                    return r
        return True

    def settle(self, st, q):
        """q(state) in every case it asks to distinguish"""
        work = [st]
        fuel = 200
        while work:
            fuel -= 1
            if fuel == 0:
                return "too many cases"
            t = work.pop()
            try:
                r = q(t)
                if r is not True:
                    return r
            except NeedSplit as e:
                work.extend(self.I.split(t, e))
            except Infeasible:
                continue
        return True
