"""Models of the standard library functions that the analysis does not look into (raw pointer code,
intrinsics) and of the harness operations that talk to the analysis. Anything else of the standard
library is analysed from its MIR; a call that has neither body nor model is an error of the analysis
unless it provably cannot matter."""
import re

from terms import *
from values import *

PATH = {}
DECL = {}
_norm = {}


def norm(p):
    r = _norm.get(p)
    if r is None:
        out = []
        i = 0
        n = len(p)
        while i < n:
            if p.startswith("::<", i) and not p.startswith("::<impl", i):
                d = 0
                j = i + 2
                while j < n:
                    if p[j] == "<":
                        d += 1
                    elif p[j] == ">" and p[j - 1] != "-":
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                i = j + 1
                continue
            out.append(p[i])
            i += 1
        r = "".join(out)
        r = re.sub(r"::<impl [^:]*>(?=::)", "", r)
        _norm[p] = r
    return r


def path(*names):
    def d(f):
        for n in names:
            PATH[n] = f
        return f

    return d


def decl(*names):
    def d(f):
        for n in names:
            DECL[n] = f
        return f

    return d


_found = {}


class Models:
    def __init__(self, world):
        self.w = world
        self.cache = {}

    def find(self, c):
        k = (c["path"], c["decl"], tuple(c["args"]), c["key"])
        r = self.cache.get(k, 0)
        if r == 0:
            r = self._find(c)
            self.cache[k] = r
        return r

    def _find(self, c):
        p = norm(c["path"])
        f = PATH.get(p)
        if f is not None:
            return f
        f = DECL.get(c["decl"])
        if f is not None:
            g = f(self.w, c)
            if g is not None:
                return g
        for pre, f in PREFIX:
            if p.startswith(pre):
                return f
        return None

    def unknown(self, I, st, c, args, call):
        dty = call.dty
        if dty is not None and not I.w.inhabited(dty):
            return panic(I, st, c, args, call)
        raise Unsupported("call of %s" % c["path"])


# ---------------------------------------------------------------- helpers
def deref(I, st, a):
    if type(a) is Ref:
        return a.v
    if type(a) is MRef:
        return I.rd(st, a)
    raise Unsupported("deref of %r" % (a,))


def seqv(I, v):
    """the sequence inside vectors, slices, strings, arrays and their transparent wrappers"""
    if type(v) is Seq:
        return v
    if type(v) is Agg:
        q = I.unwrap_seq(v)
        if type(q) is Seq:
            return q
        if type(q) is Ref:
            return seqv(I, q.v)
    if type(v) is Ref:
        return seqv(I, v.v)
    raise Unsupported("not a sequence: %r" % (v,))


def seqarg(I, st, a):
    return seqv(I, deref(I, st, a))


def variant_no(w, ty, name):
    for i, v in enumerate(w.types[ty]["v"]):
        if v["n"] == name:
            return i
    raise Unsupported("no variant %s" % name)


def some(I, ty, v):
    return Agg(ty, variant_no(I.w, ty, "Some"), (v,))


def none(I, ty):
    return Agg(ty, variant_no(I.w, ty, "None"), ())


def unit(I, call):
    return Agg(call.dty, 0, ())


def is_unit(I, ty):
    t = I.w.types[ty]
    return t["k"] == "tuple" and not t["f"]


def one(f):
    """a model that returns a single value"""

    def g(I, st, c, args, call):
        return [(st, f(I, st, c, args, call))]

    g.__name__ = f.__name__
    return g


def fresh_name(st, stem):
    """a name that nothing in the state mentions"""
    i = 0
    used = set()
    for v in list(st.mem.values()) + [
        tuple(st.facts.sets), tuple(st.facts.bnd), st.facts.ineq, tuple(st.facts.nes), tuple(st.facts.choice),
        tuple(st.facts.props),
    ]:
        names_in(v, used)
    while stem + (i,) in used:
        i += 1
    return stem + (i,)


_names = {}


def names_in(o, out):
    r = _names.get(o)
    if r is None:
        r = set()
        ats, bs, ks = atoms_in(o)
        for a in ats:
            if a.kind == "in":
                collect_names(a.args, r)
        for b in bs:
            collect_names(b.name, r)
        for k in ks:
            collect_names(k, r)
        _names[o] = r
    out |= r


def collect_names(t, out):
    if type(t) is tuple:
        if t and t[0] == "any":
            out.add(t)
        for x in t:
            collect_names(x, out)
    elif type(t) is Base:
        collect_names(t.name, out)


# ---------------------------------------------------------------- panics
def panic(I, st, c, args, call):
    I.site("panic", call.span, False)
    I.alarm("panic", call.span, "panic reachable: %s" % norm(c["path"]), st)
    return []


def panic_ok_oom(I, st, c, args, call):
    """allocation failure is outside the model"""
    return []


for n in ("alloc::alloc::handle_alloc_error", "alloc::raw_vec::handle_error", "alloc::raw_vec::capacity_overflow"):
    PATH[n] = panic_ok_oom


@path("core::hint::unreachable_unchecked", "core::intrinsics::unreachable", "core::intrinsics::abort")
def _unreach(I, st, c, args, call):
    I.alarm("unreachable", call.span, "unreachable code can be reached", st)
    return []


@path(
    "core::intrinsics::cold_path", "core::hint::cold_path", "core::intrinsics::assume", "core::hint::assert_unchecked",
    "core::mem::forget", "core::mem::drop", "core::hint::black_box_unit", "core::intrinsics::assert_inhabited",
)
@one
def _noop(I, st, c, args, call):
    return unit(I, call)


@path("core::intrinsics::likely", "core::intrinsics::unlikely", "core::hint::must_use", "core::hint::black_box",
      "core::convert::identity", "core::intrinsics::black_box", "core::hint::likely", "core::hint::unlikely")
@one
def _ident(I, st, c, args, call):
    return args[0]


@path("core::intrinsics::ub_checks", "core::ub_checks::check_language_ub", "core::ub_checks::is_aligned_and_not_null")
@one
def _false(I, st, c, args, call):
    return False


@path("core::intrinsics::overflow_checks")
@one
def _true(I, st, c, args, call):
    return True


# ---------------------------------------------------------------- integers
def width(I, ty):
    return I.w.types[ty]["bits"]


@path("core::intrinsics::ctlz", "core::intrinsics::ctlz_nonzero")
@one
def _ctlz(I, st, c, args, call):
    return clz(I, st, args[0], width(I, c["args"][0]), call)


def clz(I, st, x, bits, call):
    if x.const:
        return K(bits - x.c.bit_length())
    tb = table_of(x)
    if tb is not None:
        return mk_table(tb[0], tuple(bits - v.bit_length() if v >= 0 else 0 for v in tb[1]))
    # the result decides the magnitude: one alternative per possible value
    lo, hi = st.facts.bounds(x)
    alts = []
    a, b = lo.bit_length(), hi.bit_length()
    if lo < 0:
        raise Unsupported("leading zeros")
    if a == b:
        return K(bits - a)
    for n in range(a, b + 1):
        l, h = (0, 0) if n == 0 else (1 << (n - 1), (1 << n) - 1)

        def f(s, l=l, h=h):
            s.facts.assume(ge(x, K(l)))
            s.facts.assume(ge(K(h), x))

        alts.append(f)
    raise NeedSplit(alts, "magnitude")


@path("core::intrinsics::cttz", "core::intrinsics::ctpop", "core::intrinsics::bswap", "core::intrinsics::bitreverse",
      "core::intrinsics::rotate_left", "core::intrinsics::rotate_right")
@one
def _bits(I, st, c, args, call):
    r = I.w.range_of(call.dty)
    name = c["path"].split("::")[-1]
    if name in ("ctpop", "cttz") and all(type(a) is Lin for a in args):
        x = args[0]
        tb = table_of(x) if x.t else None
        bits = width(I, c["args"][0])

        def f(v):
            v &= (1 << bits) - 1
            if name == "ctpop":
                return bin(v).count("1")
            return bits if v == 0 else (v & -v).bit_length() - 1

        if x.const:
            return K(f(x.c))
        if tb is not None:
            return mk_table(tb[0], tuple(f(v) for v in tb[1]))
        return A(atom("op", (c["path"],) + tuple(args), 0, bits))
    return A(atom("op", (c["path"],) + tuple(args), r[0], r[1]))


def _num(name):
    """methods of integers that the analysis knows directly"""
    m = re.match(r"core::num::([a-z_0-9]+)$", name)
    return m.group(1) if m else None


@path("core::num::from_be_bytes", "core::num::from_le_bytes", "core::num::from_ne_bytes")
@one
def _from_be(I, st, c, args, call):
    q = seqv(I, args[0])
    n = width(I, call.dty) // 8
    big = c["path"].endswith("from_be_bytes")
    if big:
        if len(q.segs) == 1:
            s = q.segs[0]
            if s[0] == "sub" and s[1].tmpl is None:
                if n == 1:
                    return byte_at(s[1], s[2])
                return A(atom("be", (n, s[1], s[2]), 0, (1 << (8 * n)) - 1))
            if s[0] == "be":
                return s[2]
    r = ZERO
    bs = [I.elem(st, q, K(i)) for i in range(n)]
    if not big:
        bs = bs[::-1]
    for b in bs:
        r = r * 256 + b
    return r


@path("core::num::to_be_bytes", "core::num::to_le_bytes", "core::num::to_ne_bytes")
@one
def _to_be(I, st, c, args, call):
    t = I.w.types[call.dty]
    n = t["n"]
    x = args[0]
    if c["path"].endswith("to_be_bytes"):
        return mkseq((("be", n, x),))
    if n == 1:
        return lit(x)
    if x.const:
        return lit(*[K(b) for b in (x.c & ((1 << (8 * n)) - 1)).to_bytes(n, "little")])
    return lit(*[A(atom("op", ("bebyte", n, x, n - 1 - i), 0, 255)) for i in range(n)])


@path("core::num::f32::from_bits", "core::num::f64::from_bits", "core::f32::from_bits", "core::f64::from_bits",
      "core::num::imp::f32::from_bits", "core::num::imp::f64::from_bits")
@one
def _fbits(I, st, c, args, call):
    return Opq(("fbits", I.w.types[call.dty]["name"], args[0]))


@path("core::num::f32::to_bits", "core::num::f64::to_bits", "core::f32::to_bits", "core::f64::to_bits")
@one
def _tobits(I, st, c, args, call):
    v = args[0]
    if type(v) is Opq and type(v.what) is tuple and v.what[0] == "fbits":
        return v.what[2]
    r = I.w.range_of(call.dty)
    return A(atom("op", ("tobits", v), r[0], r[1]))


def fits(I, st, r, rng):
    """decide whether r is in range; the condition is split when needed"""
    c = And([x for x in (ge(r, K(rng[0])), ge(K(rng[1]), r)) if x is not True])
    if not c.cs:
        return True
    if any(x is False for x in c.cs):
        return False
    if st.facts.entails(c):
        return True
    lo, hi = ge(r, K(rng[0])), ge(K(rng[1]), r)
    if st.facts.refutes(lo) or st.facts.refutes(hi):
        return False
    alts = [lambda s: s.facts.assume(c)]
    if not st.facts.entails(lo):
        alts.append(lambda s: s.facts.assume(neg(lo)))
    if not st.facts.entails(hi):
        alts.append(lambda s: s.facts.assume(neg(hi)))
    raise NeedSplit(alts, "range")


OPS = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "shl": "Shl", "shr": "Shr", "neg": "Neg"}


def arith_model(kind, op):
    def f(I, st, c, args, call):
        ty = call.argtys[0]
        rng = I.w.range_of(ty)
        t = I.w.types[ty]
        if op == "Neg":
            r = -args[0]
        elif op in ("Div", "Rem"):
            if I.decide(st, eq(args[1], ZERO)):
                if kind == "checked":
                    return [(st, none(I, call.dty))]
                return panic(I, st, c, args, call)
            r = I.arith(st, op, args[0], args[1], rng, t)
        elif op in ("Shl", "Shr"):
            ok = I.decide(st, ge(K(t["bits"] - 1), args[1]))
            if kind == "checked":
                if not ok:
                    return [(st, none(I, call.dty))]
                return [(st, some(I, call.dty, I.arith(st, op, args[0], args[1], rng, t)))]
            if kind == "wrapping":
                b = args[1] if ok else I.wrap(st, args[1], 0, t["bits"] - 1)
                return [(st, I.arith(st, op, args[0], b, rng, t))]
            raise Unsupported(c["path"])
        else:
            r = I.arith(st, op, args[0], args[1], rng, t)
        if kind == "wrapping":
            return [(st, I.wrap(st, r, rng[0], rng[1]))]
        ok = fits(I, st, r, rng)
        if kind == "checked":
            return [(st, some(I, call.dty, r) if ok else none(I, call.dty))]
        if kind == "overflowing":
            return [(st, Agg(call.dty, 0, (r if ok else I.wrap(st, r, rng[0], rng[1]), not ok)))]
        if kind == "saturating":
            if ok:
                return [(st, r)]
            if I.decide(st, ge(r, K(rng[1] + 1))):
                return [(st, K(rng[1]))]
            return [(st, K(rng[0]))]
        raise Unsupported(c["path"])

    return f


for _k in ("checked", "wrapping", "saturating", "overflowing"):
    for _o, _O in OPS.items():
        PATH["core::num::%s_%s" % (_k, _o)] = arith_model(_k, _O)
PATH["core::intrinsics::saturating_add"] = arith_model("saturating", "Add")
PATH["core::intrinsics::saturating_sub"] = arith_model("saturating", "Sub")


@path("core::cmp::min", "core::cmp::Ord::min", "core::intrinsics::integer_min")
@one
def _min(I, st, c, args, call):
    if not all(type(a) is Lin for a in args):
        raise Unsupported("min")
    return args[0] if I.decide(st, ge(args[1], args[0])) else args[1]


@path("core::cmp::max", "core::cmp::Ord::max", "core::intrinsics::integer_max")
@one
def _max(I, st, c, args, call):
    if not all(type(a) is Lin for a in args):
        raise Unsupported("max")
    return args[1] if I.decide(st, ge(args[1], args[0])) else args[0]


@path("core::intrinsics::discriminant_value")
@one
def _discr(I, st, c, args, call):
    v = deref(I, st, args[0])
    if type(v) in (Agg, Sym):
        var = I.variant_of(st, v)
        return K(I.w.types[v.ty]["v"][var]["d"])
    raise Unsupported("discriminant")


# ---------------------------------------------------------------- memory
@path("core::mem::replace")
@one
def _replace(I, st, c, args, call):
    old = I.rd(st, args[0])
    I.wr(st, args[0], args[1])
    return old


@path("core::mem::swap")
@one
def _swap(I, st, c, args, call):
    a, b = I.rd(st, args[0]), I.rd(st, args[1])
    I.wr(st, args[0], b)
    I.wr(st, args[1], a)
    return unit(I, call)


@path("core::mem::take")
@one
def _take(I, st, c, args, call):
    old = I.rd(st, args[0])
    t = I.w.types[c["args"][0]]
    n = I.w.native(c["args"][0])
    if n is not None and n[0] == "seq" and t["k"] == "struct":
        new = EMPTY if not I.w.isstr(c["args"][0]) else Seq((), True)
    elif t["k"] == "int":
        new = ZERO
    elif t["k"] == "bool":
        new = False
    elif t["k"] == "enum" and t["p"] == "core::option::Option":
        new = none(I, c["args"][0])
    elif t["k"] == "ref" and not t["m"] and I.w.native(t["e"]) is not None and I.w.native(t["e"])[0] == "seq" and I.w.types[t["e"]]["k"] != "array":
        new = Ref(EMPTY if not I.w.isstr(t["e"]) else Seq((), True))
    else:
        raise Unsupported("take of %s" % t["name"])
    I.wr(st, args[0], new)
    return old


@path("core::any::type_name", "core::any::type_name_of_val", "core::intrinsics::type_name")
@one
def _type_name(I, st, c, args, call):
    b = Base(("tyname", I.w.types[c["args"][0]]["name"]), None)
    return Ref(whole(b, A(atom("len", (b,), 0, ISIZE_MAX)), True))


# ---------------------------------------------------------------- boxes
def heap_root(I, st, call):
    i = 0
    while (0, ("heap", call.fr, call.blk, i)) in st.mem:
        i += 1
    return (0, ("heap", call.fr, call.blk, i))


@path("alloc::boxed::Box::new_uninit")
@one
def _box_uninit(I, st, c, args, call):
    r = heap_root(I, st, call)
    st.mem[r] = UNINIT
    return Agg(call.dty, 0, (MRef(r, ()), Agg(0, 0, ())))


@path("alloc::boxed::Box::new")
@one
def _box_new(I, st, c, args, call):
    r = heap_root(I, st, call)
    st.mem[r] = args[0]
    return Agg(call.dty, 0, (MRef(r, ()), Agg(0, 0, ())))


@path("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::into_vec", "alloc::slice::hack::into_vec")
@one
def _box_vec(I, st, c, args, call):
    m = args[0].f[0]
    v = I.rd(st, m)
    st.mem.pop(m.root, None)
    return seqv(I, v)


# ---------------------------------------------------------------- vectors and slices
def alloc_note(I, st, call, n):
    I.note_alloc(st, call, n)


@path("alloc::vec::Vec::new", "alloc::string::String::new")
@one
def _vec_new(I, st, c, args, call):
    return Seq((), I.w.isstr(call.dty))


@path("alloc::vec::Vec::with_capacity", "alloc::string::String::with_capacity", "alloc::vec::Vec::with_capacity_in")
@one
def _vec_cap(I, st, c, args, call):
    alloc_note(I, st, call, args[0])
    return Seq((), I.w.isstr(call.dty))


@path("alloc::vec::Vec::reserve", "alloc::vec::Vec::reserve_exact", "alloc::string::String::reserve")
@one
def _vec_reserve(I, st, c, args, call):
    alloc_note(I, st, call, args[1])
    return unit(I, call)


@path("alloc::vec::Vec::try_reserve", "alloc::vec::Vec::try_reserve_exact", "alloc::string::String::try_reserve")
@one
def _vec_try_reserve(I, st, c, args, call):
    alloc_note(I, st, call, args[1])
    v = variant_no(I.w, call.dty, "Ok")
    return Agg(call.dty, v, (I.blank(I.w.field_types(call.dty, v)[0]),))


@path("alloc::vec::Vec::resize")
@one
def _vec_resize(I, st, c, args, call):
    q = I.rd(st, args[0])
    n = seq_len(q)
    if I.decide(st, ge(n, args[1])):
        I.wr(st, args[0], I.slice(st, q, ZERO, args[1]))
    else:
        alloc_note(I, st, call, args[1])
        I.wr(st, args[0], concat(q, mkseq((("rep", args[2], args[1] - n),))))
    return unit(I, call)


@path("alloc::vec::Vec::shrink_to_fit", "alloc::string::String::shrink_to_fit")
@one
def _shrink(I, st, c, args, call):
    return unit(I, call)


@path("alloc::vec::from_elem")
@one
def _from_elem(I, st, c, args, call):
    alloc_note(I, st, call, args[1])
    return mkseq((("rep", args[0], args[1]),))


@path("alloc::vec::Vec::push")
@one
def _push(I, st, c, args, call):
    q = I.rd(st, args[0])
    I.wr(st, args[0], concat(q, lit(args[1])))
    return unit(I, call)


@path("alloc::vec::Vec::pop")
@one
def _pop(I, st, c, args, call):
    q = I.rd(st, args[0])
    n = seq_len(q)
    if I.decide(st, eq(n, ZERO)):
        return none(I, call.dty)
    x = I.elem(st, q, n - 1)
    I.wr(st, args[0], I.slice(st, q, ZERO, n - 1))
    return some(I, call.dty, x)


@path("alloc::vec::Vec::clear", "alloc::string::String::clear")
@one
def _clear(I, st, c, args, call):
    I.wr(st, args[0], Seq((), I.rd(st, args[0]).utf8))
    return unit(I, call)


@path("alloc::vec::Vec::truncate")
@one
def _truncate(I, st, c, args, call):
    q = I.rd(st, args[0])
    n = seq_len(q)
    if I.decide(st, ge(args[1], n)):
        return unit(I, call)
    I.wr(st, args[0], I.slice(st, q, ZERO, args[1]))
    return unit(I, call)


@path("alloc::vec::Vec::insert")
def _insert(I, st, c, args, call):
    q = I.rd(st, args[0])
    n = seq_len(q)
    if not I.decide(st, ge(n, args[1])):
        return panic(I, st, c, args, call)
    a = I.slice(st, q, ZERO, args[1])
    b = I.slice(st, q, args[1], n - args[1])
    I.wr(st, args[0], concat(concat(a, lit(args[2])), b))
    return [(st, unit(I, call))]


@path("alloc::vec::Vec::remove", "alloc::vec::Vec::swap_remove")
def _remove(I, st, c, args, call):
    q = I.rd(st, args[0])
    n = seq_len(q)
    if not I.decide(st, ge(n, args[1] + 1)):
        return panic(I, st, c, args, call)
    x = I.elem(st, q, args[1])
    a = I.slice(st, q, ZERO, args[1])
    if c["path"].endswith("swap_remove"):
        if I.decide(st, eq(args[1] + 1, n)):
            I.wr(st, args[0], a)
        else:
            l = I.elem(st, q, n - 1)
            I.wr(st, args[0], concat(concat(a, lit(l)), I.slice(st, q, args[1] + 1, n - args[1] - 2)))
    else:
        I.wr(st, args[0], concat(a, I.slice(st, q, args[1] + 1, n - args[1] - 1)))
    return [(st, x)]


@path("alloc::vec::Vec::split_off")
def _split_off(I, st, c, args, call):
    q = I.rd(st, args[0])
    n = seq_len(q)
    if not I.decide(st, ge(n, args[1])):
        return panic(I, st, c, args, call)
    b = I.slice(st, q, args[1], n - args[1])
    I.wr(st, args[0], I.slice(st, q, ZERO, args[1]))
    return [(st, b)]


@path("alloc::vec::Vec::append")
@one
def _append(I, st, c, args, call):
    a, b = I.rd(st, args[0]), I.rd(st, args[1])
    I.wr(st, args[0], concat(a, b))
    I.wr(st, args[1], EMPTY)
    return unit(I, call)


@path("alloc::vec::Vec::extend_from_slice", "alloc::string::String::push_str")
@one
def _extend_from_slice(I, st, c, args, call):
    q = I.rd(st, args[0])
    I.wr(st, args[0], concat(q, seqarg(I, st, args[1])))
    return unit(I, call)


@path("alloc::string::String::push")
@one
def _push_char(I, st, c, args, call):
    q = I.rd(st, args[0])
    x = args[1]
    lo, hi = st.facts.bounds(x)
    if hi < 128:
        s = Seq((("lit", (x,)),), True)
    else:
        b = Base(("char", x), None)
        s = whole(b, A(atom("len", (b,), 1, 4)), True)
    I.wr(st, args[0], concat(q, s))
    return unit(I, call)


@path("alloc::vec::Vec::len", "core::slice::len", "core::str::len", "alloc::string::String::len", "core::slice::iter::Iter::len",
      "core::array::len")
@one
def _len(I, st, c, args, call):
    n = seq_len(seqarg(I, st, args[0]))
    if any(a.kind in ("sum", "sumalt") for a, _ in n.t) and c["path"].find("Iter") < 0:
        # no slice or vector of sized elements is longer
        st.facts.assume(ge(K(ISIZE_MAX), n))
    return n


@path("alloc::vec::Vec::is_empty", "core::slice::is_empty", "core::str::is_empty", "alloc::string::String::is_empty")
@one
def _is_empty(I, st, c, args, call):
    return eq(seq_len(seqarg(I, st, args[0])), ZERO)


@path("alloc::vec::Vec::capacity", "alloc::string::String::capacity")
@one
def _capacity(I, st, c, args, call):
    q = seqarg(I, st, args[0])
    return seq_len(q) + A(atom("op", ("spare", q), 0, ISIZE_MAX))


@path(
    "alloc::vec::Vec::as_slice", "core::str::as_bytes", "alloc::string::String::as_str", "alloc::string::String::as_bytes",
    "alloc::string::String::into_bytes", "alloc::vec::Vec::into_boxed_slice", "core::array::as_slice",
    "core::slice::as_ref", "core::str::as_ref",
)
@one
def _view(I, st, c, args, call):
    a = args[0]
    if type(a) is Seq:
        return Seq(a.segs)
    q = seqarg(I, st, a)
    t = I.w.types[call.dty]
    u = I.w.isstr(t["e"]) if t["k"] == "ref" else False
    return Ref(q if q.utf8 == u else Seq(q.segs, u))


@path("alloc::vec::Vec::as_mut_slice", "core::array::as_mut_slice", "core::slice::as_mut", "alloc::vec::Vec::leak")
@one
def _mview(I, st, c, args, call):
    return args[0]


@path("alloc::slice::to_vec", "alloc::slice::to_owned", "alloc::str::to_owned", "alloc::string::to_string",
      "alloc::str::into_string", "alloc::slice::hack::to_vec", "alloc::str::into_boxed_str")
@one
def _to_vec(I, st, c, args, call):
    q = seqarg(I, st, args[0])
    if call.dty is not None and I.w.isstr(call.dty):
        return q if q.utf8 else Seq(q.segs, True)
    return Seq(q.segs)


@path("core::slice::first")
@one
def _first(I, st, c, args, call):
    q = seqarg(I, st, args[0])
    if I.decide(st, eq(seq_len(q), ZERO)):
        return none(I, call.dty)
    return some(I, call.dty, Ref(I.elem(st, q, ZERO)))


@path("core::slice::last")
@one
def _last(I, st, c, args, call):
    q = seqarg(I, st, args[0])
    n = seq_len(q)
    if I.decide(st, eq(n, ZERO)):
        return none(I, call.dty)
    return some(I, call.dty, Ref(I.elem(st, q, n - 1)))


@path("core::slice::last_mut")
@one
def _last_mut(I, st, c, args, call):
    m = args[0]
    n = seq_len(I.rd(st, m))
    if I.decide(st, eq(n, ZERO)):
        return none(I, call.dty)
    return some(I, call.dty, MRef(m.root, m.path + (("i", n - 1),)))


@path("core::slice::first_mut")
@one
def _first_mut(I, st, c, args, call):
    m = args[0]
    n = seq_len(I.rd(st, m))
    if I.decide(st, eq(n, ZERO)):
        return none(I, call.dty)
    return some(I, call.dty, MRef(m.root, m.path + (("i", ZERO),)))


def range_parts(I, st, r, n):
    """(start, end, ok condition) of a range value used as an index of a sequence of length n"""
    if type(r) is Lin:
        return None
    t = I.w.types[r.ty]
    p = t.get("p", "")
    if p in ("core::ops::range::Range", "core::range::Range"):
        return r.f[0], r.f[1]
    if p in ("core::ops::range::RangeFrom", "core::range::RangeFrom"):
        return r.f[0], n
    if p == "core::ops::range::RangeTo":
        return ZERO, r.f[0]
    if p == "core::ops::range::RangeFull":
        return ZERO, n
    if p == "core::ops::range::RangeToInclusive":
        return ZERO, r.f[0] + 1
    if p == "core::ops::range::RangeInclusive":
        return r.f[0], r.f[1] + 1
    raise Unsupported("index by %s" % t["name"])


def check(I, st, c, call, conds, msg):
    """conds must hold; an alarm otherwise, and the analysis continues where they do"""
    bad = [x for x in conds if not (x is True or st.facts.entails(x))]
    if bad:
        I.site("index", call.span, False)
        I.alarm("panic", call.span, "%s when %s" % (msg, " or ".join(repr(neg(x)) for x in bad)), st)
        for x in bad:
            st.facts.assume(x)
    else:
        I.site("index", call.span, True)


def get_range(I, st, c, args, call, m, v, idx):
    q = v
    n = seq_len(q)
    if type(idx) is Lin:
        check(I, st, c, call, [ge(n, idx + 1)], "index out of bounds")
        if m is not None:
            return MRef(m.root, m.path + (("i", idx),))
        return Ref(I.elem(st, q, idx))
    a, b = range_parts(I, st, idx, n)
    check(I, st, c, call, [ge(b, a), ge(n, b)], "slice out of bounds")
    if q.utf8 and not (a == ZERO and st.facts.entails(eq(b, n))):
        # cutting a string needs a character boundary
        I.site("index", call.span, False)
        I.alarm("panic", call.span, "a string may be cut inside a character", st)
    if m is not None:
        return MRef(m.root, m.path + (("s", a, b - a),))
    return Ref(I.slice(st, q, a, b - a))


def _native_self(w, c, kinds=("seq",)):
    t = c["args"][0]
    tt = w.types[t]
    while tt["k"] == "ref":
        t = tt["e"]
        tt = w.types[t]
    n = w.native(t)
    return n is not None and n[0] in kinds


@decl("core::ops::index::Index::index")
def _index_decl(w, c):
    if not _native_self(w, c):
        return None
    return _index


@one
def _index(I, st, c, args, call):
    q = seqarg(I, st, args[0])
    return get_range(I, st, c, args, call, None, q, args[1])


@decl("core::ops::index::IndexMut::index_mut")
def _index_mut_decl(w, c):
    if not _native_self(w, c):
        return None
    return _index_mut


@one
def _index_mut(I, st, c, args, call):
    q = seqv(I, I.rd(st, args[0]))
    return get_range(I, st, c, args, call, args[0], q, args[1])


@path("core::slice::get", "core::str::get")
@one
def _get(I, st, c, args, call):
    q = seqarg(I, st, args[0])
    n = seq_len(q)
    if type(args[1]) is Lin:
        if I.decide(st, ge(n, args[1] + 1)):
            return some(I, call.dty, Ref(I.elem(st, q, args[1])))
        return none(I, call.dty)
    a, b = range_parts(I, st, args[1], n)
    if I.decide(st, ge(b, a)) and I.decide(st, ge(n, b)):
        if q.utf8:
            raise Unsupported("str::get")
        return some(I, call.dty, Ref(I.slice(st, q, a, b - a)))
    return none(I, call.dty)


@path("core::slice::get_mut")
@one
def _get_mut(I, st, c, args, call):
    m = args[0]
    n = seq_len(seqv(I, I.rd(st, m)))
    if type(args[1]) is Lin:
        if I.decide(st, ge(n, args[1] + 1)):
            return some(I, call.dty, MRef(m.root, m.path + (("i", args[1]),)))
        return none(I, call.dty)
    a, b = range_parts(I, st, args[1], n)
    if I.decide(st, ge(b, a)) and I.decide(st, ge(n, b)):
        return some(I, call.dty, MRef(m.root, m.path + (("s", a, b - a),)))
    return none(I, call.dty)


@path("core::slice::get_unchecked")
@one
def _get_unchecked(I, st, c, args, call):
    q = seqarg(I, st, args[0])
    n = seq_len(q)
    if type(args[1]) is Lin:
        conds = [ge(n, args[1] + 1)]
    else:
        a, b = range_parts(I, st, args[1], n)
        conds = [ge(b, a), ge(n, b)]
    for x in conds:
        if not (x is True or st.facts.entails(x)):
            I.alarm("unsafe", call.span, "unchecked access may be out of bounds", st)
            st.facts.assume(x)
    return get_range(I, st, c, args, call, None, Seq(q.segs), args[1])


@path("core::slice::split_at", "core::slice::split_at_unchecked")
@one
def _split_at(I, st, c, args, call):
    q = seqarg(I, st, args[0])
    n = seq_len(q)
    check(I, st, c, call, [ge(n, args[1])], "split out of bounds")
    return Agg(call.dty, 0, (Ref(I.slice(st, q, ZERO, args[1])), Ref(I.slice(st, q, args[1], n - args[1]))))


@path("core::slice::split_at_mut", "core::slice::split_at_mut_unchecked")
@one
def _split_at_mut(I, st, c, args, call):
    m = args[0]
    n = seq_len(seqv(I, I.rd(st, m)))
    check(I, st, c, call, [ge(n, args[1])], "split out of bounds")
    return Agg(
        call.dty, 0,
        (MRef(m.root, m.path + (("s", ZERO, args[1]),)), MRef(m.root, m.path + (("s", args[1], n - args[1]),))),
    )


@path("core::slice::split_at_checked")
@one
def _split_at_checked(I, st, c, args, call):
    q = seqarg(I, st, args[0])
    n = seq_len(q)
    if not I.decide(st, ge(n, args[1])):
        return none(I, call.dty)
    ft = I.w.field_types(call.dty, variant_no(I.w, call.dty, "Some"))[0]
    return some(I, call.dty, Agg(ft, 0, (Ref(I.slice(st, q, ZERO, args[1])), Ref(I.slice(st, q, args[1], n - args[1])))))


@path("core::slice::split_first", "core::slice::split_last")
@one
def _split_first(I, st, c, args, call):
    q = seqarg(I, st, args[0])
    n = seq_len(q)
    if I.decide(st, eq(n, ZERO)):
        return none(I, call.dty)
    ft = I.w.field_types(call.dty, variant_no(I.w, call.dty, "Some"))[0]
    if c["path"].endswith("split_first"):
        x, r = I.elem(st, q, ZERO), I.slice(st, q, ONE, n - 1)
    else:
        x, r = I.elem(st, q, n - 1), I.slice(st, q, ZERO, n - 1)
    return some(I, call.dty, Agg(ft, 0, (Ref(x), Ref(r))))


@path("core::slice::copy_from_slice", "core::slice::clone_from_slice")
@one
def _copy_from_slice(I, st, c, args, call):
    dst = seqv(I, I.rd(st, args[0]))
    src = seqarg(I, st, args[1])
    check(I, st, c, call, [eq(seq_len(dst), seq_len(src))], "copy between slices of different lengths")
    I.wr(st, args[0], Seq(src.segs))
    return unit(I, call)


@path("core::slice::fill")
@one
def _fill(I, st, c, args, call):
    q = seqv(I, I.rd(st, args[0]))
    I.wr(st, args[0], mkseq((("rep", args[1], seq_len(q)),)))
    return unit(I, call)


@path("core::slice::starts_with")
@one
def _starts_with(I, st, c, args, call):
    q, p = seqarg(I, st, args[0]), seqarg(I, st, args[1])
    n = seq_len(p)
    if not I.decide(st, ge(seq_len(q), n)):
        return False
    return seq_equal_cond(I, st, I.slice(st, q, ZERO, n), p)


@path("core::slice::ends_with")
@one
def _ends_with(I, st, c, args, call):
    q, p = seqarg(I, st, args[0]), seqarg(I, st, args[1])
    n = seq_len(p)
    if not I.decide(st, ge(seq_len(q), n)):
        return False
    return seq_equal_cond(I, st, I.slice(st, q, seq_len(q) - n, n), p)


@decl("alloc::slice::<impl [T]>::concat")
def _concat_decl(w, c):
    return None if w.types[c["args"][1]]["k"] == "str" else _concat


@one
def _concat(I, st, c, args, call):
    q = seqarg(I, st, args[0])
    r = EMPTY
    for s in q.segs:
        if s[0] != "lit":
            raise Unsupported("concat of %s" % show_seg(s))
        for x in s[1]:
            r = concat(r, seqv(I, x))
    return Seq(r.segs, I.w.isstr(call.dty))


@path("core::slice::contains")
@one
def _contains(I, st, c, args, call):
    q = seqarg(I, st, args[0])
    x = deref(I, st, args[1])
    out = []
    for s in q.segs:
        if s[0] != "lit":
            raise Unsupported("contains")
        for y in s[1]:
            if type(y) is Lin and type(x) is Lin:
                out.append(eq(y, x))
            else:
                raise Unsupported("contains")
    if any(o is True for o in out):
        return True
    out = [o for o in out if o is not False]
    if not out:
        return False
    return Or(out) if len(out) > 1 else out[0]


# ---- transparent views by trait
def _dst_ref(I, call, v, st):
    t = I.w.types[call.dty]
    if t["k"] == "ref" and t["m"]:
        return v
    q = seqarg(I, st, v)
    u = I.w.isstr(t["e"])
    return Ref(Seq(q.segs, u) if q.utf8 != u else q)


@one
def _as_view(I, st, c, args, call):
    return _dst_ref(I, call, args[0], st)


@decl("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsMut::as_mut",
      "core::borrow::BorrowMut::borrow_mut")
def _deref_decl(w, c):
    t = w.types[c["args"][0]]
    n = w.native(c["args"][0])
    if n is not None and n[0] == "seq":
        return _as_view
    if t["k"] == "struct" and t["p"] == "alloc::boxed::Box":
        return _box_deref
    return None


@one
def _box_deref(I, st, c, args, call):
    b = deref(I, st, args[0])
    m = b.f[0]
    t = I.w.types[call.dty]
    return m if t["m"] else Ref(I.rd(st, m))


@decl("core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow")
def _asref_decl(w, c):
    n = w.native(c["args"][0])
    if n is None or n[0] != "seq":
        return None
    return _as_view


@decl("core::convert::From::from", "core::convert::Into::into")
def _from_decl(w, c):
    # between vectors, slices, strings and arrays of the same elements
    if len(c["args"]) < 2:
        return None

    def nat(t):
        tt = w.types[t]
        if tt["k"] == "ref":
            t = tt["e"]
        return w.native(t)

    a, b = nat(c["args"][0]), nat(c["args"][1])
    if a and b and a[0] == "seq" and b[0] == "seq" and a[1] == b[1] and w.types[c["args"][0]]["k"] != "ref":
        return _from_seq
    return None


@one
def _from_seq(I, st, c, args, call):
    q = args[0] if type(args[0]) is Seq else seqv(I, args[0] if type(args[0]) is not MRef else I.rd(st, args[0]))
    return Seq(q.segs, I.w.isstr(call.dty))


@decl("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into")
def _tryfrom_decl(w, c):
    if len(c["args"]) < 2:
        return None
    a, b = w.types[c["args"][0]], w.types[c["args"][1]]
    if c["decl"].endswith("try_into"):
        a, b = b, a
    if a["k"] == "int" and b["k"] == "int":
        return _try_int
    if a["k"] == "array" or (a["k"] == "ref" and w.types[a["e"]]["k"] == "array"):
        return _try_array
    return None


@one
def _try_int(I, st, c, args, call):
    rng = I.w.range_of(I.w.types[call.dty]["a"][0])
    if fits(I, st, args[0], rng):
        return Agg(call.dty, variant_no(I.w, call.dty, "Ok"), (args[0],))
    return Agg(call.dty, variant_no(I.w, call.dty, "Err"), (Opq("TryFromIntError"),))


@one
def _try_array(I, st, c, args, call):
    q = args[0] if type(args[0]) is Seq else seqarg(I, st, args[0])
    at = I.w.types[call.dty]["a"][0]
    t = I.w.types[at]
    ref = t["k"] == "ref"
    if ref:
        t = I.w.types[t["e"]]
    if I.decide(st, eq(seq_len(q), K(t["n"]))):
        v = Seq(q.segs)
        return Agg(call.dty, variant_no(I.w, call.dty, "Ok"), (Ref(v) if ref else v,))
    return Agg(call.dty, variant_no(I.w, call.dty, "Err"), (Opq("TryFromSliceError"),))


@decl("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned")
def _clone_decl(w, c):
    t = w.types[c["args"][0]]
    n = w.native(c["args"][0])
    if n is not None:
        if n[0] == "seq" and c["decl"].endswith("clone") and t["k"] == "struct":
            # elements whose Clone is their own code: it has to give the same element
            e = w.types[n[1]]
            if e["k"] in ("struct", "enum") and e.get("kr") not in ("core", "alloc", "std"):
                return _clone_own(n[1]) if c["key"] >= 0 else _clone_seq
        return _clone_seq
    if t["k"] in ("int", "bool", "char", "ref", "ptr", "fndef", "never"):
        return _clone_copy
    return None


@one
def _clone_seq(I, st, c, args, call):
    v = deref(I, st, args[0])
    if type(v) is Seq:
        return v
    return v


CLONES = {}


def _clone_own(ety):
    @one
    def f(I, st, c, args, call):
        if not clone_is_same(I, ety):
            raise Unsupported("the clone of an element of %s is not known to be the same" % I.w.types[ety].get("p"))
        return deref(I, st, args[0])

    return f


def clone_is_same(I, ety):
    """the Clone of the element, run on any element, returns that element"""
    k = (id(I.w), ety)
    if k in CLONES:
        return CLONES[k] is True
    CLONES[k] = "busy"
    r = False
    for key, d in I.w.d["fns"].items():
        if d["path"].endswith("core::clone::Clone>::clone") and d["argc"] == 1:
            t = I.w.types[d["locals"][1]]
            if t["k"] == "ref" and t["e"] == ety:
                f = I.w.fn(int(key))
                import interp

                I.quiet += 1
                n = len(I.alarms)
                try:
                    x = I.w.make(ety, ("clone", ety))
                    st = interp.State({}, Facts())
                    outs = I.run(f, [Ref(x)], st, I.frame_id(-1, f.key, 0))
                    r = bool(outs) and all(I.prover.same(s, v, x) is True for s, v in outs) and len(I.alarms) == n
                finally:
                    I.quiet -= 1
                    del I.alarms[n:]
                break
    CLONES[k] = r
    return r


@one
def _clone_copy(I, st, c, args, call):
    return deref(I, st, args[0])


@decl("core::default::Default::default")
def _default_decl(w, c):
    n = w.native(c["args"][0])
    t = w.types[c["args"][0]]
    if n is not None and n[0] == "seq" and t["k"] == "struct":
        return _vec_new
    return None


@decl("alloc::string::ToString::to_string")
def _tostring_decl(w, c):
    t = w.types[c["args"][0]]
    if w.isstr(c["args"][0]):
        return _to_vec
    return _opaque_string


@one
def _opaque_string(I, st, c, args, call):
    b = Base(fresh_name(st, ("any", "string", call.fr, call.blk)), None)
    return whole(b, A(atom("len", (b,), 0, ISIZE_MAX)), True)


# ---- comparison of sequences
def seq_equal_cond(I, st, a, b):
    c = eq(seq_len(a), seq_len(b))
    if st.facts.refutes(c):
        return False
    try:
        if I.prover.seq_eq(st, a, b) is True:
            return True
    except NeedSplit:
        pass
    if c is not True and not st.facts.entails(c):
        if not I.decide(st, c):
            return False
    n = seq_len(a)
    if n.const and n.c <= 16:
        cs = []
        for i in range(n.c):
            x, y = I.elem(st, a, K(i)), I.elem(st, b, K(i))
            if type(x) is not Lin or type(y) is not Lin:
                break
            cs.append(eq(x, y))
        else:
            if any(x is False for x in cs):
                return False
            cs = [x for x in cs if x is not True]
            return And(cs) if len(cs) > 1 else cs[0] if cs else True
    x, y = (a, b) if hash(a) <= hash(b) else (b, a)
    return I.unknown_bool(("seqeq", x, y))


@decl("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def _eq_decl(w, c):
    def strip(t):
        tt = w.types[t]
        while tt["k"] == "ref":
            t = tt["e"]
            tt = w.types[t]
        return t

    if len(c["args"]) < 2:
        return None
    a, b = strip(c["args"][0]), strip(c["args"][1])
    n, m = w.native(a), w.native(b)
    if n is None or m is None or n[0] != "seq" or m[0] != "seq":
        if w.types[a]["k"] in ("int", "bool", "char") and w.types[b]["k"] == w.types[a]["k"]:
            return _eq_prim
        return None
    e = w.types[n[1]]
    if e["k"] == "int":
        return _eq_seq
    # other elements: compared one by one with their own equality
    return None


@one
def _eq_prim(I, st, c, args, call):
    a, b = args[0], args[1]
    while type(a) in (Ref, MRef):
        a = deref(I, st, a)
    while type(b) in (Ref, MRef):
        b = deref(I, st, b)
    if type(a) is Lin and type(b) is Lin:
        r = eq(a, b)
    else:
        r = I.boolop(st, "Eq", a, b)
    return neg(r) if c["decl"].endswith("ne") else r


@one
def _eq_seq(I, st, c, args, call):
    a, b = args[0], args[1]
    while type(a) in (Ref, MRef):
        a = deref(I, st, a)
    while type(b) in (Ref, MRef):
        b = deref(I, st, b)
    r = seq_equal_cond(I, st, seqv(I, a), seqv(I, b))
    return neg(r) if c["decl"].endswith("ne") else r


# ---- strings
def known_utf8(st, q):
    """was the sequence validated, and with what answer?"""
    if q.utf8 or not q.segs or st.facts.entails(eq(seq_len(q), ZERO)):
        return 1
    known = st.facts.choice.get(("utf8", q))
    if known is None and len(q.segs) == 1 and q.segs[0][0] == "sub":
        # the same range asked about before
        for k, v in st.facts.choice.items():
            if type(k) is tuple and k and k[0] == "utf8" and type(k[1]) is Seq and len(k[1].segs) == 1:
                x, y = k[1].segs[0], q.segs[0]
                if x[0] == "sub" and x[1] is y[1] and st.facts.entails(eq(x[2], y[2])) and st.facts.entails(eq(x[3], y[3])):
                    return v
    return known


@path("core::str::converts::from_utf8", "core::str::from_utf8", "core::str::converts::from_utf8_mut", "alloc::string::String::from_utf8")
def _from_utf8(I, st, c, args, call):
    owned = "String" in c["path"]
    q = seqv(I, args[0]) if owned else seqarg(I, st, args[0])
    out = []
    key = ("utf8", q)
    okv, errv = variant_no(I.w, call.dty, "Ok"), variant_no(I.w, call.dty, "Err")
    known = known_utf8(st, q)
    if known != 0:
        s = st.fork()
        s.facts.choice[key] = 1
        v = Seq(q.segs, True)
        out.append((s, Agg(call.dty, okv, (v if owned else Ref(v),))))
    if known != 1:
        s = st.fork()
        s.facts.choice[key] = 0
        # an entry program may ask whether this happened
        if (0, ("ghost", 251)) in s.mem:
            s.mem[(0, ("ghost", 251))] = ONE
        et = I.w.field_types(call.dty, errv)[0]
        out.append((s, Agg(call.dty, errv, (utf8_error(I, s, et, q, owned),))))
    return out


def utf8_error(I, st, et, q, owned):
    """what is valid ends before the end"""
    e = Opq(("utf8error", q))
    if owned:
        return e
    fts = I.w.field_types(et, 0)
    if len(fts) != 2:
        return e
    n = A(atom("in", (("utf8upto", q),), 0, ISIZE_MAX))
    st.facts.assume(ge(seq_len(q), n + 1))
    if len(q.segs) == 1:
        st.facts.choice[("utf8", I.slice(st, q, ZERO, n))] = 1
    return Agg(et, 0, (n, I.w.make(fts[1], ("utf8len", q))))


@path("core::str::converts::from_utf8_unchecked", "core::str::from_utf8_unchecked", "alloc::string::String::from_utf8_unchecked")
@one
def _from_utf8_unchecked(I, st, c, args, call):
    owned = "String" in c["path"]
    q = seqv(I, args[0]) if owned else seqarg(I, st, args[0])
    I.site("utf8", call.span)
    if known_utf8(st, q) != 1:
        I.alarm("utf8", call.span, "bytes become text without validation", st)
    v = Seq(q.segs, True)
    return v if owned else Ref(v)


@path("alloc::string::String::from_utf8_lossy")
@one
def _lossy(I, st, c, args, call):
    b = Base(("lossy", seqarg(I, st, args[0])), None)
    v = variant_no(I.w, call.dty, "Owned")
    return Agg(call.dty, v, (whole(b, A(atom("len", (b,), 0, ISIZE_MAX)), True),))


# ---- formatting: never looked into
@path("alloc::fmt::format", "alloc::fmt::format::format_inner")
@one
def _format(I, st, c, args, call):
    return _opaque_string.__wrapped__(I, st, c, args, call) if hasattr(_opaque_string, "__wrapped__") else _opaque_string(I, st, c, args, call)[0][1]


@one
def _opaque(I, st, c, args, call):
    return Opq(("fmt",))


PREFIX = [
    ("core::fmt::Arguments", _opaque),
    ("core::fmt::rt::", _opaque),
    ("core::panicking::", panic),
    ("core::option::unwrap_failed", panic),
    ("core::option::expect_failed", panic),
    ("core::result::unwrap_failed", panic),
    ("core::slice::index::slice_", panic),
    ("core::str::slice_error_fail", panic),
    ("std::rt::begin_panic", panic),
    ("std::panicking::", panic),
]


# ---------------------------------------------------------------- iterators
def iter_parts(I, st, a):
    it = I.rd(st, a)
    return it


@path("core::slice::iter")
@one
def _iter(I, st, c, args, call):
    return Agg(call.dty, 0, (seqarg(I, st, args[0]),))


@path("core::slice::iter_mut")
@one
def _iter_mut(I, st, c, args, call):
    m = args[0]
    n = seq_len(seqv(I, I.rd(st, m)))
    return Agg(call.dty, 0, (MRef(m.root, m.path + (("s", ZERO, n),)),))


def iter_next(I, st, c, args, call, back=False):
    m = args[0]
    it = I.rd(st, m)
    q = it.f[0]
    p = I.w.types[it.ty]["p"]
    if type(q) is MRef:
        e = q.path[-1]
        n = e[2]
        if I.decide(st, eq(n, ZERO)):
            return none(I, call.dty)
        pos = e[1] + n - 1 if back else e[1]
        I.wr(st, m, Agg(it.ty, 0, (MRef(q.root, q.path[:-1] + (("s", e[1] if back else e[1] + 1, n - 1),)),)))
        return some(I, call.dty, MRef(q.root, q.path[:-1] + (("i", pos),)))
    n = seq_len(q)
    if I.decide(st, eq(n, ZERO)):
        return none(I, call.dty)
    if back:
        x = I.elem(st, q, n - 1)
        r = I.slice(st, q, ZERO, n - 1)
    else:
        x = I.elem(st, q, ZERO)
        r = I.slice(st, q, ONE, n - 1)
    I.wr(st, m, Agg(it.ty, 0, (r,)))
    return some(I, call.dty, Ref(x) if p == "core::slice::iter::Iter" else x)


_next = one(lambda I, st, c, args, call: iter_next(I, st, c, args, call))
_next_back = one(lambda I, st, c, args, call: iter_next(I, st, c, args, call, True))


def _is_iter(w, c):
    n = w.native(c["args"][0])
    return n is not None and n[0] in ("iter", "intoiter", "itermut")


@decl("core::iter::traits::iterator::Iterator::next")
def _next_decl(w, c):
    return _next if _is_iter(w, c) else None


@decl("core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def _next_back_decl(w, c):
    return _next_back if _is_iter(w, c) else None


@decl("core::iter::traits::exact_size::ExactSizeIterator::len")
def _iter_len_decl(w, c):
    return _iter_len if _is_iter(w, c) else None


@one
def _iter_len(I, st, c, args, call):
    return iter_count(deref(I, st, args[0]))


def iter_count(it):
    q = it.f[0]
    return q.path[-1][2] if type(q) is MRef else seq_len(q)


@decl("core::iter::traits::iterator::Iterator::size_hint")
def _size_hint_decl(w, c):
    return _size_hint if _is_iter(w, c) else None


@one
def _size_hint(I, st, c, args, call):
    n = iter_count(deref(I, st, args[0]))
    ot = I.w.field_types(call.dty, 0)[1]
    return Agg(call.dty, 0, (n, some(I, ot, n)))


@decl("core::iter::traits::iterator::Iterator::__iterator_get_unchecked")
def _get_unchecked_decl(w, c):
    n = w.native(c["args"][0])
    return _iter_get if n is not None and n[0] in ("iter", "itermut") else None


@one
def _iter_get(I, st, c, args, call):
    it = deref(I, st, args[0])
    q, i = it.f[0], args[1]
    check(I, st, c, call, [ge(iter_count(it), i + 1)], "iterator out of bounds")
    if type(q) is MRef:
        return MRef(q.root, q.path[:-1] + (("i", q.path[-1][1] + i),))
    x = I.elem(st, q, i)
    return Ref(x) if I.w.types[it.ty]["p"] == "core::slice::iter::Iter" else x


@decl("core::iter::traits::iterator::Iterator::count")
def _count_decl(w, c):
    return _count if _is_iter(w, c) else None


@one
def _count(I, st, c, args, call):
    return iter_count(args[0])


@decl("core::iter::traits::collect::IntoIterator::into_iter")
def _into_iter_decl(w, c):
    t = w.types[c["args"][0]]
    if t["k"] == "ref":
        n = w.native(t["e"])
        if n is not None and n[0] == "seq":
            return _iter_mut if t["m"] else _iter
        return None
    n = w.native(c["args"][0])
    if n is not None and n[0] == "seq" and t["k"] == "struct" and t["p"] == "alloc::vec::Vec":
        return _vec_into_iter
    if t["k"] == "array":
        return _vec_into_iter
    return None


@one
def _vec_into_iter(I, st, c, args, call):
    return Agg(call.dty, 0, (args[0],))


@path("core::slice::iter::Iter::as_slice")
@one
def _iter_as_slice(I, st, c, args, call):
    return Ref(deref(I, st, args[0]).f[0])


# ---------------------------------------------------------------- the harness
@path("ops::nondet")
def _nondet(I, st, c, args, call):
    return [(st, True), (st.fork(), False)]


@path("ops::any")
@one
def _any(I, st, c, args, call):
    return I.w.make(call.dty, fresh_name(st, ("any", call.fr, call.blk)))


@path("ops::assume")
def _assume(I, st, c, args, call):
    out = []
    import interp

    for cc in interp.disjuncts(args[0]):
        s = st.fork()
        try:
            s.facts.assume(cc)
        except Infeasible:
            continue
        out.append((s, unit(I, call)))
    return out


@path("ops::prove")
@one
def _prove(I, st, c, args, call):
    cond = args[1]
    ok = cond is True or (cond is not False and holds(I, st, cond))
    I.obligation(st, call, ok, args[0].c, lambda: "not implied: %r" % (cond,))
    if cond is False:
        raise Infeasible
    if cond is not True:
        st.facts.assume(cond)
    return unit(I, call)


def holds(I, st, cond):
    if st.facts.entails(cond):
        return True
    from interp import disjuncts

    for n in disjuncts(neg(cond)):
        t = st.fork()
        try:
            t.facts.assume(n)
        except Infeasible:
            continue
        return False
    return True


@path("ops::same")
@one
def _same(I, st, c, args, call):
    a, b = deref(I, st, args[1]), deref(I, st, args[2])
    r = I.prover.same(st, a, b)
    I.obligation(st, call, r is True, args[0].c, lambda: "%s\n      found:    %s\n      expected: %s" % (r, show(a), show(b)))
    return unit(I, call)


def text_of(I, st, a):
    try:
        return bytes(x.c for s in deref(I, st, a).segs for x in s[1]).decode()
    except Exception:
        return "?"


@path("ops::fail")
def _fail(I, st, c, args, call):
    I.obligation(st, call, False, args[0].c, lambda: text_of(I, st, args[1]))
    return []


@path("ops::reached")
@one
def _reached(I, st, c, args, call):
    I.obligation(st, call, True, args[0].c, lambda: "")
    return unit(I, call)


@path("ops::is_variant")
@one
def _is_variant(I, st, c, args, call):
    v = deref(I, st, args[0])
    return I.variant_of(st, v) == variant_no(I.w, v.ty, text_of(I, st, args[1]))


@path("ops::payload")
@one
def _payload(I, st, c, args, call):
    v = deref(I, st, args[0])
    if type(v) is Sym:
        v = I.w.expand(v, I.variant_of(st, v))
    return v.f[c["cargs"][0]]


@path("ops::copy_of")
@one
def _copy_of(I, st, c, args, call):
    return deref(I, st, args[0])


@path("ops::known_same")
@one
def _known_same(I, st, c, args, call):
    return I.prover.same(st, deref(I, st, args[0]), deref(I, st, args[1])) is True


@path("ops::field_of")
@one
def _field_of(I, st, c, args, call):
    v = deref(I, st, args[0])
    if type(v) is Sym:
        v = I.w.expand(v, I.variant_of(st, v))
    at = [i for i, t in enumerate(I.w.field_types(v.ty, v.var)) if t == call.dty]
    if len(at) != 1:
        raise Unsupported("no field, or several, of the type")
    return v.f[at[0]]


@path("ops::gget")
@one
def _gget(I, st, c, args, call):
    v = st.mem.get((0, ("ghost", c["cargs"][0])))
    if v is None:
        raise Unsupported("ghost cell %s is not set" % c["cargs"][0])
    return v


@path("ops::gset")
@one
def _gset(I, st, c, args, call):
    st.mem[(0, ("ghost", c["cargs"][0]))] = args[0]
    if call.argtys:
        I.ghost_ty[("ghost", c["cargs"][0])] = call.argtys[0]
    return unit(I, call)


@path("ops::gdel")
@one
def _gdel(I, st, c, args, call):
    st.mem.pop((0, ("ghost", c["cargs"][0])), None)
    return unit(I, call)


@path("ops::unroll")
@one
def _unroll(I, st, c, args, call):
    I.unroll = 8
    return unit(I, call)


@path("ops::ghas")
@one
def _ghas(I, st, c, args, call):
    return (0, ("ghost", c["cargs"][0])) in st.mem


@path("ops::cbor_of")
@one
def _cbor_of(I, st, c, args, call):
    t = I.w.types[call.dty]
    return Ref(I.coerce(seqarg(I, st, args[0]), t["e"]))


@path("ops::reader_slice")
@one
def _reader_slice(I, st, c, args, call):
    """the only byte slice in a reader"""
    found = []

    def go(v):
        v = deref(I, st, v) if type(v) in (Ref, MRef) else v
        if type(v) is Sym:
            v = I.w.expand(v, I.variant_of(st, v))
        if type(v) is Seq:
            found.append(v)
        elif type(v) is Agg:
            for x in v.f:
                go(x)

    go(args[0])
    if len(found) != 1:
        raise Unsupported("a reader with %d slices" % len(found))
    return Ref(found[0])


@path("ops::read_on")
@one
def _read_on(I, st, c, args, call):
    """a reader further on: it has one slice and one position in it, that does not decrease (C20)"""
    r = args[0]
    v = I.getpath(st, st.mem[r.root], r.path)
    seqs, ints = [], []

    def go(v, at):
        if type(v) in (Ref, MRef):
            v, at = deref(I, st, v), None
        if type(v) is Sym:
            v, at = I.w.expand(v, I.variant_of(st, v)), None
        if type(v) is Seq:
            seqs.append(v)
        elif type(v) is Lin:
            ints.append((v, at))
        elif type(v) is Agg:
            for i, x in enumerate(v.f):
                go(x, None if at is None else at + (("f", i),))
        else:
            raise Unsupported("a reader with more than a slice and a position")

    go(v, ())
    if len(seqs) != 1 or len(ints) != 1 or ints[0][1] is None:
        raise Unsupported("a reader with more than a slice and a position")
    old, at = ints[0]
    new = A(atom("in", (fresh_name(st, ("any", call.fr, call.blk)),), 0, ISIZE_MAX))
    if holds(I, st, Cond("ge", seq_len(seqs[0]) - old)) is not True:
        raise Unsupported("a reader beyond the end")
    st.facts.assume(Cond("ge", new - old))
    st.facts.assume(Cond("ge", seq_len(seqs[0]) - new))
    st.mem[r.root] = I.setpath(st, st.mem[r.root], tuple(r.path) + at, new)
    return unit(I, call)


@path("ops::bytes_of")
@one
def _bytes_of(I, st, c, args, call):
    """an unknown function of the value"""
    v = deref(I, st, args[0])
    b = Base(("opb", v), I.w.u8())
    for o in sorted({x for m in st.mem.values() for x in atoms_in(m)[1]}, key=repr):
        if type(o.name) is tuple and o.name[0] == "opb" and len(o.name) == 2 and o is not b:
            if type(o.name[1]) is type(v) and o.name[1].ty == v.ty and I.prover.same(st, v, o.name[1]) is True:
                b = o
                break
    return Ref(whole(b, A(atom("len", (b,), 0, ISIZE_MAX))))


@path("ops::op_bytes")
@one
def _op_bytes(I, st, c, args, call):
    """the bytes of an unknown encoding: a function of the value"""
    v = deref(I, st, args[0])
    b = Base(("opb", c["cargs"][0], v.f[0]), I.w.u8())
    return Ref(whole(b, A(atom("len", (b,), 0, ISIZE_MAX))))


@path("ops::slice_of")
@one
def _slice_of(I, st, c, args, call):
    """d[a..b] of the analysis, without a bounds check of the program"""
    q = seqarg(I, st, args[0])
    return Ref(I.slice(st, q, args[1], args[2] - args[1]))
