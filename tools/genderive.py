#!/usr/bin/env python3
"""writes harness-derive/src/derived.rs: definitions with every form of derive, and for each of them
what encoding and decoding have to do, computed here from the documentation (and never from the code)"""
import os

OUT = []
DEFS = []
BIG = 1 << 40


def emit(s):
    OUT.append(s)


def define(s):
    DEFS.append(s)


def attrs(**kw):
    a = []
    for k, v in kw.items():
        if v is None:
            continue
        if isinstance(v, list):
            a += ["skipkey = %d" % x for x in v]
        elif isinstance(v, str):
            a.append('%s = "%s"' % (k, v))
        else:
            a.append("%s = %d" % (k, v))
    return "#[cborrepr(%s)]" % ", ".join(a) if a else ""


def numbers(start, skip, n):
    """numbers counting up from the start without the skipped ones"""
    out, k = [], start
    while len(out) < n:
        if k not in skip:
            out.append(k)
        k += 1
    return out


def enc(name, ty, prop, tag, body):
    emit("pub fn %s_encode(x: &%s, prefix: Vec<u8>) {" % (name, ty))
    emit("    let mut out = prefix.clone();")
    if tag is not None:
        emit("    put(&mut out, 6, shortest(%d));" % tag)
    emit(body)
    emit("    let mut w = Writer::new_from_vec(prefix);")
    emit("    x.encode(&mut w);")
    emit("    same(%s, &w.finalize(), &out);" % prop)
    emit("}")


def opt(tag):
    return "None" if tag is None else "Some(%d)" % tag


def dec(name, ty, prop, tag, what, first, setup, ok, err):
    emit("pub fn %s_decode(d: &[u8]) {" % name)
    emit("    let mut r = start(d, %s, %d);" % (what, first))
    emit(setup)
    emit("    match r.decode::<%s>() {" % ty)
    emit("        Ok(v) => {")
    emit("            clean(%s, &r, %s);" % (prop, opt(tag)))
    emit(ok)
    emit("        }")
    emit("        Err(_) => prove(%s, refused(%s)%s)," % (prop, opt(tag), err))
    emit("    }")
    emit("}")


def unknown(l):
    """a number was read, and it is another one"""
    return " || (ghas::<109>() && %s)" % " && ".join("!number_is(%d)" % k for k in l)


F = "abcdefgh"


def struct(name, structure, n, tag=None, tuple_=False, opts=(), mandatory=None, start=None, skip=(), vec=None):
    ty = name.capitalize().replace("_", "")
    define("#[derive(CborRepr)]")
    define(attrs(structure=structure, tag=tag, map_starts_at=start, skipkey=list(skip)))

    def fty(i):
        if vec == i:
            return "Vec<Op<9>>"
        return ("Option<Op<%d>>" if i in opts else "Op<%d>") % (i + 1)

    if tuple_:
        define("pub struct %s(%s);" % (ty, ", ".join("pub " + fty(i) for i in range(n))))
    else:
        define("pub struct %s {" % ty)
        for i in range(n):
            if structure == "mapint" and i not in opts:
                define("    #[cborrepr(mandatory)]")
            if vec == i:
                define('    #[cborrepr(variant = "vec")]')
            define("    pub %s: %s," % (F[i], fty(i)))
        define("}")
    f = lambda i: str(i) if tuple_ else F[i]
    prop = {"array": "C32", "array_lastopt": "C32", "flat": "C33", "mapint": "C34"}[structure]
    keys = numbers(start or 0, skip, n)
    body = []
    if structure == "array":
        body.append("    put(&mut out, 4, shortest(%d));" % n)
    if structure == "array_lastopt":
        body.append("    put(&mut out, 4, shortest(%d + x.%s.is_some() as u64));" % (n - 1, f(n - 1)))
    if structure == "mapint":
        c = "".join(" + x.%s.is_some() as u64" % f(i) for i in range(n) if i in opts)
        body.append("    put(&mut out, 5, shortest(%d%s));" % (n - len(opts), c))
    for i in range(n):
        k = "put(&mut out, 0, shortest(%d)); " % keys[i] if structure == "mapint" else ""
        if vec == i:
            body.append("    put(&mut out, 4, shortest(x.%s.len() as u64));" % f(i))
            body.append("    for v in x.%s.iter() { out.extend_from_slice(op_bytes(v)); }" % f(i))
        elif i in opts:
            body.append("    if let Some(v) = &x.%s { %sout.extend_from_slice(op_bytes(v)); }" % (f(i), k))
        else:
            body.append("    %sout.extend_from_slice(op_bytes(&x.%s));" % (k, f(i)))
    if vec is None or tuple_:
        enc(name, ty, prop, tag, "\n".join(body))
    ok = []
    for i in range(n):
        if vec == i:
            ok.append("            vector(%s, &v.%s);" % (prop, f(i)))
        else:
            ok.append("            %s(%s, &v.%s);" % ("optional" if i in opts else "field", prop, f(i)))
    if structure == "flat":
        ok.append("            prove(%s, gget::<usize, 133>() == %d);" % (prop, n + 1))
        err = ""
    if structure == "array":
        ok.append("            prove(%s, items() == %d);" % (prop, n))
        err = " || other_length(%d)" % n
    if structure == "array_lastopt":
        ok.append("            prove(%s, items() == %d + v.%s.is_some() as usize);" % (prop, n - 1, f(n - 1)))
        err = " || (other_length(%d) && other_length(%d))" % (n, n - 1)
    setup = ""
    what, first = {"array": "ARR", "array_lastopt": "ARR", "flat": "FLAT", "mapint": "MAPPED"}[structure], 0
    if vec is not None:
        setup = "    gset::<usize, 137>(%d);" % vec
    if structure == "mapint":
        setup = "    gset::<[u64; 6], 135>([%s]);" % ", ".join(str(x) for x in ([0] + keys + [0] * 5)[:6])
        ok.append("            prove(%s, at_end());" % prop)
        err = unknown(keys)
        err += "".join(" || (number_is(%d) && has(%d))" % (k, i + 1) for i, k in enumerate(keys))
        err += " || ghas::<141>()"
        m = [i for i in range(n) if i not in opts]
        if m:
            err += " || (at_end() && !(%s))" % " && ".join("has(%d)" % (i + 1) for i in m)
    dec(name, ty, prop, tag, what, first, setup, "\n".join(ok), err)


def variants(name, vs, start=None, skip=(), attr=True):
    """tagged variants; each is (kind, number of fields, index of a vector)"""
    ty = name.capitalize().replace("_", "")
    define("#[derive(CborRepr)]")
    define(attrs(enumtype="tagvariant" if attr else None, variant_starts_at=start, skipkey=list(skip)))
    define("pub enum %s {" % ty)
    nums = numbers(start or 0, skip, len(vs))
    b, o, e = [], [], []
    b.append("    match x {")
    o.append("            match &v {")
    vecs = [v[2] for v in vs if len(v) > 2]
    for k, v in enumerate(vs):
        kind, n = v[0], v[1]
        vec = v[2] if len(v) > 2 else None
        fty = lambda i: "Vec<Op<9>>" if i == vec else "Op<%d>" % (i + 1)
        V = "V%d" % k
        if kind == "unit":
            define("    %s," % V)
            pat = "%s::%s" % (ty, V)
        elif kind == "tuple":
            define("    %s(%s)," % (V, ", ".join(fty(i) for i in range(n))))
            pat = "%s::%s(%s)" % (ty, V, ", ".join(F[:n]))
        else:
            define("    %s { %s }," % (V, ", ".join("%s: %s" % (F[i], fty(i)) for i in range(n))))
            pat = "%s::%s { %s }" % (ty, V, ", ".join(F[:n]))
        b.append("        %s => {" % pat)
        b.append("            put(&mut out, 4, shortest(%d));" % (n + 1))
        b.append("            put(&mut out, 0, shortest(%d));" % nums[k])
        o.append("                %s => {" % pat)
        o.append("                    prove(C35, number_is(%d));" % nums[k])
        o.append("                    prove(C35, items() == %d);" % (n + 1))
        for i in range(n):
            if i == vec:
                b.append("            put(&mut out, 4, shortest(%s.len() as u64));" % F[i])
                b.append("            for v in %s.iter() { out.extend_from_slice(op_bytes(v)); }" % F[i])
                o.append("                    vector(C35, %s);" % F[i])
            else:
                b.append("            out.extend_from_slice(op_bytes(%s));" % F[i])
                o.append("                    field(C35, %s);" % F[i])
        b.append("        }")
        o.append("                }")
        e.append(" || (number_is(%d) && other_length(%d))" % (nums[k], n + 1))
    b.append("    }")
    o.append("            }")
    define("}")
    enc(name, ty, "C35", None, "\n".join(b))
    setup = "    gset::<usize, 137>(%d);" % (vecs[0] + 1) if vecs else ""
    err = " || (ghas::<101>() && items() == 0)" + unknown(nums) + "".join(e)
    dec(name, ty, "C35", None, "ARR", 1, setup, "\n".join(o), err)


def ints(name, n, start=None, skip=()):
    ty = name.capitalize().replace("_", "")
    define("#[derive(CborRepr)]")
    define(attrs(enumtype="enumint", variant_starts_at=start, skipkey=list(skip)))
    define("pub enum %s { %s }" % (ty, ", ".join("V%d" % i for i in range(n))))
    nums = numbers(start or 0, skip, n)
    body = ["    let n = match x {"] + ["        %s::V%d => %d," % (ty, i, nums[i]) for i in range(n)] + ["    };", "    put(&mut out, 0, shortest(n));"]
    enc(name, ty, "C36", None, "\n".join(body))
    emit("pub fn %s_decode(d: &[u8]) {" % name)
    emit("    let mut r = some_reader(d);")
    emit("    let i = r.consumed_bytes();")
    emit("    match r.decode::<%s>() {" % ty)
    emit("        Ok(v) => {")
    emit("            let n: u64 = match v { %s };" % ", ".join("%s::V%d => %d" % (ty, i, nums[i]) for i in range(n)))
    emit("            match header_at(d, i) {")
    emit("                Ok(h) => {")
    emit("                    prove(C36, h.kind == POSITIVE && h.val == n);")
    emit("                    prove(C36, r.consumed_bytes() == i + h.adv);")
    emit("                }")
    emit('                Err(_) => fail(C36, "no number is there"),')
    emit("            }")
    emit("        }")
    emit("        Err(_) => match header_at(d, i) {")
    emit("            Ok(h) => prove(C36, h.kind != POSITIVE || (%s))," % " && ".join("h.val != %d" % k for k in nums))
    emit("            Err(_) => (),")
    emit("        },")
    emit("    }")
    emit("}")


KINDS = dict(positive=0, negative=1, bytes=2, text=3, array=4, map=5, tag=6)


def types(name, l, record=()):
    """by type: the kinds of the variants in order; the field of each is Op<kind>"""
    ty = name.capitalize().replace("_", "")
    define("#[derive(CborRepr)]")
    define(attrs(enumtype="enumtype"))
    define("pub enum %s {" % ty)
    b, o = ["    match x {"], ["            match &v {"]
    for k in l:
        define('    #[cborrepr(cbortype = "%s")]' % k)
        V = k.capitalize()
        if k == "null":
            define("    %s," % V)
            b.append("        %s::%s => out.push(0xf6)," % (ty, V))
            o.append("                %s::%s => {" % (ty, V))
            o.append("                    prove(C37, kind_of(d[i]).ok() == Some(NULL));")
            o.append("                    prove(C37, r.consumed_bytes() == i + 1);")
            o.append("                    prove(C37, !ghas::<136>());")
            o.append("                }")
            continue
        n = KINDS[k]
        if k in record:
            define("    %s { a: Op<%d> }," % (V, n))
            pat = "%s::%s { a }" % (ty, V)
        else:
            define("    %s(Op<%d>)," % (V, n))
            pat = "%s::%s(a)" % (ty, V)
        b.append("        %s => out.extend_from_slice(op_bytes(a))," % pat)
        o.append("                %s => {" % pat)
        o.append("                    prove(C37, kind_of(d[i]).ok() == Some(%d));" % n)
        o.append("                    prove(C37, r.consumed_bytes() == gget::<usize, 136>());")
        o.append("                    same(C37, a, &op_of::<%d>(gget::<u64, 142>()));" % n)
        o.append("                }")
    b.append("    }")
    o.append("            }")
    define("}")
    enc(name, ty, "C37", None, "\n".join(b))
    emit("pub fn %s_decode(d: &[u8]) {" % name)
    emit("    let mut r = start(d, TYPED, 0);")
    emit("    let i = r.consumed_bytes();")
    emit("    match r.decode::<%s>() {" % ty)
    emit("        Ok(v) => {")
    emit("            prove(C37, !ghas::<102>());")
    emit("            prove(C37, i < d.len());")
    emit("\n".join(o))
    emit("        }")
    emit("        Err(_) => {")
    emit("            if !ghas::<102>() && i < d.len() {")
    emit("                if let Ok(k) = kind_of(d[i]) {")
    ks = [KINDS[k] if k != "null" else 9 for k in l]
    emit("                    prove(C37, %s);" % " && ".join("k != %d" % k for k in ks))
    emit("                }")
    emit("            }")
    emit("        }")
    emit("    }")
    emit("}")


emit("""//! (written by tools/genderive.py: definitions of every form, and what encoding and decoding have to do)
use crate::generated::*;
use crate::numbers::shortest;
use crate::ops::*;
use crate::spec::*;
use crate::writing::*;
use cbored::*;
use def::*;
""")
struct("array_one", "array", 1)
struct("array_two", "array", 2)
struct("array_three", "array", 3)
struct("array_five", "array", 5)
struct("array_tag_one", "array", 1, tag=0)
struct("array_tag", "array", 3, tag=55)
struct("array_tag_big", "array", 2, tag=BIG)
struct("array_tuple", "array", 3, tuple_=True)
struct("array_tuple_one", "array", 1, tuple_=True)
struct("array_tuple_tag", "array", 2, tuple_=True, tag=300)
struct("array_vec", "array", 3, vec=1)
struct("lastopt_one", "array_lastopt", 1, opts=[0])
struct("lastopt_two", "array_lastopt", 2, opts=[1])
struct("lastopt_four", "array_lastopt", 4, opts=[3])
struct("lastopt_tag", "array_lastopt", 3, opts=[2], tag=24)
struct("flat_one", "flat", 1)
struct("flat_three", "flat", 3)
struct("flat_default", None or "flat", 2)
struct("flat_tuple_one", "flat", 1, tuple_=True)
struct("flat_tuple", "flat", 4, tuple_=True)
struct("flat_tag", "flat", 1, tag=70000)
struct("flat_tuple_tag", "flat", 1, tuple_=True, tag=5)
struct("map_one", "mapint", 1)
struct("map_two", "mapint", 2)
struct("map_opt", "mapint", 2, opts=[0, 1])
struct("map_mixed", "mapint", 3, opts=[2])
struct("map_mixed_first", "mapint", 3, opts=[0, 1], start=23)
struct("map_start", "mapint", 2, start=2, opts=[1])
struct("map_start_big", "mapint", 2, start=BIG)
struct("map_skip", "mapint", 3, skip=[1], opts=[1])
struct("map_skip_first", "mapint", 2, skip=[0, 1])
struct("map_skip_start", "mapint", 3, start=2, skip=[3, 5], opts=[1, 2])
struct("map_skip_row", "mapint", 3, start=1, skip=[3, 2, 4], opts=[0])
struct("map_skip_below", "mapint", 2, start=4, skip=[0, 2, 9])
struct("map_skip_last", "mapint", 3, start=10, skip=[12], opts=[2])
struct("map_tag", "mapint", 2, opts=[1], tag=258)
struct("map_tag_skip", "mapint", 3, opts=[0, 2], tag=1, start=5, skip=[6, 8])
variants("variant_one", [("unit", 0)])
variants("variant_all", [("unit", 0), ("tuple", 1), ("record", 2), ("tuple", 2)])
variants("variant_default", [("tuple", 3), ("record", 1)], attr=False)
variants("variant_start", [("tuple", 1), ("unit", 0)], start=3)
variants("variant_start_big", [("tuple", 1), ("unit", 0)], start=BIG)
variants("variant_skip", [("unit", 0), ("tuple", 1), ("record", 1)], start=3, skip=[4])
variants("variant_skip_first", [("unit", 0), ("tuple", 2)], skip=[0, 1])
variants("variant_skip_row", [("tuple", 1), ("unit", 0), ("unit", 0)], start=22, skip=[24, 23])
variants("variant_skip_below", [("tuple", 1), ("unit", 0)], start=7, skip=[1, 9])
variants("variant_vec", [("unit", 0), ("tuple", 1, 0)])
variants("variant_vec_last", [("tuple", 2, 1), ("record", 1)], start=1)
ints("int_one", 1)
ints("int_three", 3)
ints("int_start", 3, start=254)
ints("int_start_big", 2, start=BIG)
ints("int_skip", 4, start=1, skip=[2, 4])
ints("int_skip_first", 2, skip=[0])
ints("int_skip_row", 3, start=21, skip=[24, 23, 22])
ints("int_many", 30, skip=[7, 8, 23])
types("type_all", ["positive", "negative", "bytes", "text", "array", "map", "tag", "null"])
types("type_null", ["null", "positive"])
types("type_some", ["text", "bytes"], record=["bytes"])
types("type_structure", ["tag", "map", "array", "negative"], record=["map"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness-derive/src/derived.rs")
head = "/// (nothing is imported but the macro and the types of the fields)\npub mod def {\n    use crate::ops::Op;\n    use cbored::CborRepr;\n"
open(path, "w").write("\n".join(x for x in OUT if x) + "\n" + head + "".join("    %s\n" % x for x in DEFS if x) + "}\n")
