"""Rules over the program: what has to compile, what must not, and queries on the lowered source."""
import json
import os
import re
import shutil
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("CBORED_REPO", "/repo")


def cargo_check(src, scratch, args=()):
    """the compiler's errors on a crate: (code, message, file, line)"""
    dst = os.path.join(scratch, "witness-" + os.path.basename(src))
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target"), dirs_exist_ok=True)
    p = os.path.join(dst, "Cargo.toml")
    t = open(p).read().replace('"/repo', '"' + REPO)
    open(p, "w").write(t)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(scratch, "target-witness"), CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
        env.pop(k, None)
    r = subprocess.run(
        ["cargo", "check", "--offline", "--message-format=json"] + list(args),
        cwd=dst, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
    )
    out = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message":
            continue
        m = m["message"]
        if m["level"] != "error":
            continue
        sp = [s for s in m["spans"] if s["is_primary"]]
        f, ln = (sp[0]["file_name"], sp[0]["line_start"]) if sp else ("", 0)
        out.append(((m.get("code") or {}).get("code"), m["message"], f, ln))
    if r.returncode != 0 and not out:
        out.append((None, r.stderr[-2000:], "", 0))
    return r.returncode, out


def derive_forms(ctx):
    """every documented form of derive compiles where only the macro is imported"""
    src = os.path.join(VERIF, "witness/derive")
    text = open(os.path.join(src, "src/lib.rs")).read()
    rc, errs = cargo_check(src, ctx.scratch)
    lines = text.splitlines()
    findings = []
    for code, msg, f, ln in errs:
        if not ln:
            if rc != 0 and "could not compile" not in msg and "aborting" not in msg:
                findings.append(("derive " + msg[:60], "does not compile: " + msg.split("\n")[0], msg))
            continue
        name = next((lines[i].strip() for i in range(ln - 1, min(ln + 8, len(lines))) if re.match(r"\s*(pub )?(struct|enum) ", lines[i])), "?")
        findings.append(
            ("derive %s %s" % (name, code), "the derived code of `%s` does not compile: %s" % (name.rstrip("{ "), msg.split("\n")[0]),
             "%s:%d %s %s" % (f, ln, code, msg))
        )
    if rc != 0 and not findings:
        findings.append(("derive", "the derive forms do not compile", str(errs)[:2000]))
    n = text.count("#[derive(CborRepr)]")
    return findings, dict(obligations=n, definitions=n, rule="each definition of /verif/witness/derive type checks against /repo (rustc)")


# ---------------------------------------------------------------- facts of the source
def plain(p):
    """a path without lifetimes and type arguments: <a::B<T> as c::D<E>>::f is <a::B as c::D>::f"""
    out, depth, i = [], 0, 0
    head = p.startswith("<")
    s = p[1:] if head else p
    # the outer brackets of a qualified path stay
    level = 0
    for ch in s:
        if ch == "<":
            level += 1
            continue
        if ch == ">":
            if level == 0:
                out.append(">")
            else:
                level -= 1
            continue
        if level == 0:
            out.append(ch)
    r = ("<" if head else "") + "".join(out)
    return re.sub(r"::(?=::|$|>| as )", "", r).replace("&'a ", "&")


def own_fns(facts):
    return [(k, f) for k, v in facts.items() for f in v["fns"]]


IMPURE = [
    (r"^std::io::(stdio|_print|_eprint|stdin|stdout|stderr|copy)", "input or output"),
    (r"^std::io::.*(stdin|stdout|stderr|_print|_eprint)", "input or output"),
    (r"^<?std::(fs|net|process|env|os|sys|thread|time)::", "the operating system"),
    (r"<std::(fs|net|process|env|os|sys|thread|time)::", "the operating system"),
    (r"^std::thread|thread::(local|LocalKey)|LocalKey", "thread state"),
    (r"RandomState|std::random|std::hash::random|DefaultHasher::new", "random state"),
    (r"std::collections::(hash::)?(map|set|hash_map|hash_set)::.*::(iter|iter_mut|keys|values|values_mut|drain|retain|into_iter|into_keys|into_values)$", "the order of a hash table"),
    (r"std::collections::(hash::)?.*as core::iter::.*IntoIterator>::into_iter$", "the order of a hash table"),
    (r"^std::(sync::)?(once|OnceLock|LazyLock)|std::sync::(lazy_lock|once_lock|once)", "state that is made once"),
    (r"^(core|std)::(core_arch|arch)::.*(rdtsc|rdrand|rdseed|cpuid)", "the processor's clock or randomness"),
    (r"^core::fmt::rt::Argument::.*new_pointer$|as core::fmt::Pointer>::fmt$", "an address"),
    (r"^std::backtrace|^std::panic::(set_hook|take_hook)|^std::panicking::(set_hook|take_hook)", "the process"),
]
# of std, what depends on nothing but its arguments
PURE_STD = (
    r"std::panicking|std::rt::|core::|alloc::|std::f(32|64)|std::num|std::ascii|std::error|std::io::(error|cursor|impls|Write|Read|Error|"
    r"Cursor)|std::collections|std::hash|std::string|std::vec|std::path|std::ffi"
)
KNOWN_CRATES = {"core", "alloc", "std", "cbored", "cbored_derive", "quote", "proc_macro2", "syn", "proc_macro"}


def pure(ctx):
    """nothing the two crates call, name or keep is outside of their arguments"""
    facts = ctx.facts()
    findings, undecided = [], []
    calls = 0
    for k, f in own_fns(facts):
        where = "%s %s" % (k, f["path"])
        for c in f["calls"]:
            calls += 1
            if c["foreign"]:
                findings.append(("pure %s %s" % (where, c["path"]), "a foreign function is called at %s: %s" % (c["span"], c["path"]), where))
                continue
            if c["krate"] not in KNOWN_CRATES:
                undecided.append("%s calls %s of %s at %s, which is not analysed" % (where, c["path"], c["krate"], c["span"]))
                continue
            hit = next((what for rx, what in IMPURE if re.search(rx, c["path"]) or re.search(rx, c["decl"])), None)
            if hit:
                findings.append(
                    ("pure %s %s" % (where, c["path"]), "%s depends on %s: %s at %s" % (f["path"], hit, c["path"], c["span"]), where)
                )
            elif c["krate"] == "std" and not re.search(PURE_STD, c["path"]):
                undecided.append("%s calls %s at %s, which is not classified" % (where, c["path"], c["span"]))
            if c["kind"] == "virtual" and k == "cbored" and "fmt" not in c["decl"]:
                undecided.append("%s calls %s through a table at %s" % (where, c["decl"], c["span"]))
        for o in f["other"]:
            if o[0] == "asm":
                findings.append(("pure %s asm" % where, "inline assembly at %s" % o[2], where))
        for kind, a, b, s in f["casts"]:
            if "Expose" in kind:
                undecided.append("%s takes an address as a number at %s" % (where, s))
    n = 0
    for k, v in facts.items():
        for s in v["statics"]:
            n += 1
            if s["mut"] or s["local"] or not s["freeze"]:
                findings.append(
                    ("pure static %s %s" % (k, s["path"]), "%s at %s is state that outlives a call" % (s["path"], s["span"]),
                     "mutable %(mut)s, without interior mutability %(freeze)s, of the thread %(local)s" % s)
                )
    nf = sum(len(v["fns"]) for v in facts.values())
    return findings, dict(
        obligations=calls + n,
        functions=nf,
        calls=calls,
        statics=n,
        undecided=undecided,
        rule="no function, closure or static of cbored or cbored_derive calls into the operating system, I/O, threads, "
        "clocks, randomness or foreign code, or keeps state",
    )


HANDLES = {"prim::CborSlice", "prim::CborData", "prim::CborSliceOf", "prim::CborDataOf"}
# exported functions that make handles, and what of the property each is
MAKERS = {
    "<prim::CborData as core::borrow::Borrow>::borrow": "borrowing",
    "<prim::CborDataOf as core::borrow::Borrow>::borrow": "borrowing",
    "<prim::CborData as core::clone::Clone>::clone": "cloning",
    "<prim::CborDataOf as core::clone::Clone>::clone": "cloning",
    "<prim::CborSlice as alloc::borrow::ToOwned>::to_owned": "owning",
    "<prim::CborSliceOf as alloc::borrow::ToOwned>::to_owned": "owning",
    "<prim::CborDataOf as core::convert::From>::from": "encoding",
    "writer::Writer::finalize_data": "encoding",
    "prim::CborData::validate_as": "decoding",
    "prim::CborSlice::validate_as": "decoding",
    "reader::Reader::exact_decodable_data": "decoding",
    "reader::Reader::exact_decodable_slice": "decoding",
    "<prim::CborDataOf as decode::Decode>::decode": "decoding",
    "prim::CborDataOf::untype": "untyping",
    "prim::CborSliceOf::untype": "untyping",
    "reader::Reader::array": "reading",
    "reader::Reader::map": "reading",
    "reader::Reader::tag": "reading",
    "reader::Reader::data": "reading",
    "validate::Validator::next": "validating",
}


def mentions(t):
    return [h for h in HANDLES if re.search(r"(?<![\w:])" + re.escape(h) + r"(?!\w)", t)]


def handle_makers(ctx):
    """who can make a handle, and from what"""
    facts = ctx.facts()["cbored"]
    fns = {f["path"]: f for f in facts["fns"]}
    findings = []
    sites = {}
    for p, f in fns.items():
        for a in f["aggs"]:
            if a[0] in HANDLES:
                sites.setdefault(p, []).append("builds %s at %s" % (a[1], a[2]))
        for kind, a, b, s in f["casts"]:
            if kind.startswith("PointerCoercion"):
                continue
            if mentions(b):
                sites.setdefault(p, []).append("casts %s to %s at %s" % (a, b, s))
        for c in f["calls"]:
            if "transmute" in c["path"] or c["path"].endswith("::zeroed") or "MaybeUninit" in c["path"] and "assume_init" in c["path"]:
                if any(mentions(t) for t in c["args"]):
                    sites.setdefault(p, []).append("%s at %s" % (c["path"], c["span"]))

    def open_(f):
        """safe code outside can call it"""
        return f["exported"] and not f["unsafe"]

    reach = {p: [p] for p in sites}
    todo = list(reach)
    callers = {}
    for p, f in fns.items():
        for q in {c["path"] for c in f["calls"]} | set(f["closures"]):
            callers.setdefault(q, []).append(p)
    while todo:
        q = todo.pop()
        if open_(fns[q]):
            continue
        for p in callers.get(q, ()):
            if p not in reach:
                reach[p] = [p] + reach[q]
                todo.append(p)
    n = 0
    made = {}
    for p, chain in sorted(reach.items()):
        if not open_(fns[p]):
            continue
        n += 1
        name = plain(p)
        if name in MAKERS:
            made.setdefault(MAKERS[name], []).append(name)
        else:
            end = chain[-1]
            findings.append(
                ("maker %s" % name, "safe code can make a handle with %s (%s), which neither reads, validates, encodes nor decodes: %s"
                 % (name, fns[p]["span"], sites[end][0]), "calls: %s\nin %s: %s" % (" > ".join(chain), end, "; ".join(sites[end])))
            )
    # who can change one
    for p, f in fns.items():
        if not open_(f):
            continue
        for t in f["in"]:
            if re.match(r"&('\w+ )?mut ", t) and mentions(t.split("mut ", 1)[1]) and plain(p).split("::")[-1] not in ("fmt",):
                n += 1
                inner = t.split("mut ", 1)[1]
                if re.match(r"(prim::)Cbor(Slice|Data)(Of)?\b", inner):
                    findings.append(("changes %s" % plain(p), "safe code can change a handle with %s (%s)" % (p, f["span"]), "takes %s" % t))
    # fields and layout
    seen = set()
    for a in facts["adts"]:
        if a["path"] not in HANDLES:
            continue
        seen.add(a["path"])
        n += 1
        for v, fld, t, pub in a["fields"]:
            if pub:
                findings.append(
                    ("field %s" % a["path"], "field %s of %s is public: safe code can make one of any bytes" % (fld, a["path"]), a["span"])
                )
        if not a["freeze"]:
            findings.append(("freeze %s" % a["path"], "%s can change behind a shared reference" % a["path"], a["span"]))
    undecided = ["%s is not a type of the crate" % h for h in sorted(HANDLES - seen)]
    adts = {a["path"]: a for a in facts["adts"]}
    casts = 0
    for p, f in fns.items():
        for kind, a, b, s in f["casts"]:
            if kind.startswith("PointerCoercion") or not (mentions(a) or mentions(b)):
                continue
            casts += 1
            bad = same_layout(a, b, adts)
            if bad:
                findings.append(("layout %s %s" % (plain(p), bad), "the conversion at %s, from %s to %s: %s" % (s, a, b, bad), p))
    return findings, dict(
        obligations=n + casts,
        makers=made,
        construction_sites={p: v for p, v in sorted(sites.items())},
        casts=casts,
        undecided=undecided,
        rule="every exported safe function from which a construction of a handle (aggregate, pointer cast, transmute) is "
        "reached without passing another exported safe function is one of the reading, validating, encoding, decoding, "
        "untyping, cloning, borrowing or owning operations; handles have no public field and no exported operation on a "
        "mutable reference; pointer casts to and from handles are between transparent types over the same bytes",
    )


def same_layout(a, b, adts):
    """is a pointer cast between types that are certainly laid out alike? what is wrong otherwise"""

    def core(t):
        m = re.match(r"^(\*const|\*mut|&'?\w*( ?mut)?) ?(.*)$", t)
        t = m.group(3) if m else t
        for _ in range(5):
            name = re.sub(r"<.*>$", "", t)
            d = adts.get(name)
            if d is None:
                return t, None
            if not d["transparent"]:
                return t, "%s is not transparent" % name
            fs = [f for f in d["fields"] if "PhantomData" not in f[2]]
            if len(fs) != 1:
                return t, "%s has not one field" % name
            t = fs[0][2]
        return t, None

    x, ex = core(a)
    y, ey = core(b)
    if ex or ey:
        return ex or ey
    if x != y:
        return "%s is not %s" % (x, y)
    return None


def no_forged_text(ctx):
    """no way from bytes to text but the validating ones"""
    facts = ctx.facts()["cbored"]
    findings, undecided = [], []
    n = 0
    seen = {x for r in ctx.results for x in map(tuple, r["fns"])}
    names = {x[1] for x in seen}
    for f in facts["fns"]:
        where = f["path"]
        for kind, a, b, s in f["casts"]:
            n += 1
            if kind.startswith("PointerCoercion"):
                continue
            m = re.match(r"^(\*const|\*mut) (.*)$", b)
            if m and re.match(r"(str|alloc::string::String)$", m.group(2)) and not re.search(r"(^| )(str|alloc::string::String)$", a):
                findings.append(("text %s" % where, "bytes become text without validation by the cast at %s, from %s to %s" % (s, a, b), where))
            elif "Transmute" in kind and re.search(r"(?<!\w)(str|String)(?!\w)", b) and not re.search(r"(?<!\w)(str|String)(?!\w)", a):
                findings.append(("text %s" % where, "bytes become text without validation by the transmute at %s, from %s to %s" % (s, a, b), where))
        for c in f["calls"]:
            n += 1
            p = c["path"]
            if "from_utf8_unchecked" in p or "from_boxed_utf8_unchecked" in p or "str::converts::from_raw_parts" in p:
                if not any(where in x or x in where for x in names):
                    undecided.append("%s calls %s at %s and is not reached by the entry programs" % (where, p, c["span"]))
            elif re.search(r"as_bytes_mut|as_mut_vec|str::.*as_mut_ptr", p):
                findings.append(("text %s" % where, "text is changed as bytes at %s: %s" % (c["span"], p), where))
            elif "transmute" in p and len(c["args"]) == 2 and re.search(r"(?<!\w)(str|String)(?!\w)", c["args"][1]) and not re.search(
                r"(?<!\w)(str|String)(?!\w)", c["args"][0]
            ):
                findings.append(("text %s" % where, "bytes become text without validation by %s at %s" % (p, c["span"]), where))
    return findings, dict(
        obligations=n,
        casts_and_calls=n,
        undecided=undecided,
        text_rule="no pointer cast or transmute makes str or String of something else, no text is changed as bytes; an "
        "unchecked conversion holds only where the entry programs prove that the same bytes were validated",
    )


RESERVES = r"::(with_capacity(_in)?|(try_)?reserve(_exact)?|resize(_with)?|from_elem|repeat(_n)?|new_uninit_slice|new_zeroed_slice|from_elem_in)$"


def reservations(ctx):
    """the places that reserve by a number, and which of them reading and decoding reach"""
    facts = ctx.facts()["cbored"]
    sites = {k.rsplit(" ", 2)[0] for r in ctx.results for k in r["sites"] if k.endswith(" alloc")}
    reached, other = [], []
    for f in facts["fns"]:
        for c in f["calls"]:
            if c["how"] == "call" and re.search(RESERVES, c["path"]):
                (reached if any(plain(s).endswith(plain(f["path"])) for s in sites) else other).append(
                    "%s %s at %s" % (f["path"], c["path"], c["span"])
                )
    return [], dict(reserving_sites_decided=reached, reserving_sites_not_reached_by_reading=other)


def no_recursion(ctx):
    """no function of cbored calls itself, through any chain, in the program as a whole"""
    findings = []
    n = nf = 0
    # the functions as written
    facts = ctx.facts()["cbored"]
    g = {}
    for f in facts["fns"]:
        g[f["path"]] = {c["path"] for c in f["calls"] if c["kind"] in ("item", "virtual") and not f["derived"]} | set(f["closures"])
    spans = {f["path"]: f["span"] for f in facts["fns"]}
    nf += len(g)
    n += sum(len(v) for v in g.values())
    for c in cycles(g):
        findings.append(
            ("recursion " + " ".join(sorted(map(plain, c))), "recursive: %s at %s" % (plain(c[0]), spans.get(c[0], "?")),
             " > ".join("%s (%s)" % (x, spans.get(x, "?")) for x in c))
        )
    # their instances, with the library functions they call
    done = {x for c in cycles(g) for x in c}
    for dfile in ctx.dumps.values():
        with open(dfile) as fh:
            d = json.load(fh)
        g = {}
        for k, f in d["fns"].items():
            out = set()
            for blk in f["blocks"]:
                if blk is None:
                    continue
                callees(blk, out)
            g[int(k)] = out
        nf += len(g)
        n += sum(len(v) for v in g.values())
        for c in cycles(g):
            fs = [d["fns"][str(x)] for x in c if str(x) in d["fns"]]
            if not any(f["krate"].startswith("cbored") for f in fs) or any(f["path"].replace("cbored::", "") in done for f in fs):
                continue
            fs.sort(key=lambda f: not f["krate"].startswith("cbored"))
            findings.append(
                ("recursion " + " ".join(sorted({plain(f["path"]) for f in fs})), "recursive: %s at %s" % (plain(fs[0]["path"]), fs[0]["span"]),
                 " > ".join("%s (%s)" % (f["path"], f["span"]) for f in fs))
            )
    return findings, dict(
        obligations=n,
        call_edges=n,
        call_graph_functions=nf,
        recursion_rule="the call graph of the functions as written, and of their instances together with the library "
        "functions they reach, has no cycle through cbored",
    )


def callees(x, out):
    """the keys of the functions that a block names"""
    if type(x) is list:
        if len(x) == 2 and x[0] == "fn" and type(x[1]) is dict and "key" in x[1]:
            k = x[1]["key"]
            if k is not None and k >= 0:
                out.add(k)
            return
        for y in x:
            callees(y, out)
    elif type(x) is dict:
        for y in x.values():
            callees(y, out)


def cycles(g):
    """the strongly connected components with a cycle"""
    index, low, stack, on, out = {}, {}, [], set(), []
    for root in g:
        if root in index:
            continue
        work = [(root, iter(sorted(g.get(root, ()), key=str)))]
        index[root] = low[root] = len(index)
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in g:
                    continue
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(g.get(w, ()), key=str))))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in g.get(v, ()):
                        out.append(sorted(c, key=str))
    return out


# ---------------------------------------------------------------- the stack of open structures
# what looks at, or changes, no more than the innermost open structure
TOP = {
    "new", "with_capacity", "push", "pop", "pop_if", "last", "last_mut", "is_empty", "deref", "deref_mut", "borrow", "as_slice", "as_mut_slice", "split_last",
    "split_last_mut", "reserve", "try_reserve", "default", "clear", "clone", "drop", "as_ref", "as_mut", "first_is_none", "fmt",
}


def only_top(ctx):
    """the state machine looks at nothing of its stack but the innermost open structure"""
    facts = ctx.facts()["cbored"]
    undecided = []
    st = [a for a in facts["adts"] if a["path"] == "state::State"]
    vec = None
    for a in st:
        fs = a["fields"]
        if len(fs) == 1 and re.match(r"alloc::vec::Vec<(.*)>$", fs[0][2]):
            vec = re.match(r"alloc::vec::Vec<(.*)>$", fs[0][2]).group(1)
    if vec is None:
        undecided.append("State is not one stack of open structures: %s" % [a["fields"] for a in st])
    n = nf = 0
    for f in facts["fns"]:
        if not f["path"].startswith(("state::", "<state::")) or f["derived"]:
            continue
        nf += 1
        for c in f["calls"]:
            p = c["path"]
            if not re.search(r"vec::|slice::|iter::", p):
                continue
            n += 1
            if p.split("::")[-1] not in TOP:
                undecided.append("%s calls %s at %s: more than the innermost open structure may be looked at" % (f["path"], p, c["span"]))
    return [], dict(
        undecided=undecided,
        obligations=n,
        functions=nf,
        rule="every call on a vector, slice or iterator in the state machine is one that sees the innermost open structure only "
        "(so that two open structures show what an event does on any stack)",
    )


# ---------------------------------------------------------------- borrowed values
# an expression on a slice D; what it makes must outlive the reader and not the slice
BORROWED = {
    "bytes": "Reader::new(D).bytes().unwrap()",
    "text": "Reader::new(D).text().unwrap()",
    "array": "Reader::new(D).array().unwrap()",
    "map": "Reader::new(D).map().unwrap()",
    "tag": "Reader::new(D).tag().unwrap()",
    "data": "Reader::new(D).data().unwrap()",
    "bytes_content": "match Reader::new(D).bytes().unwrap() { Bytes::Imm(b) => b.as_slice(), _ => panic!() }",
    "bytes_chunk": "match Reader::new(D).bytes().unwrap() { Bytes::Chunks(v) => v[0].as_slice(), _ => panic!() }",
    "text_content": "match Reader::new(D).text().unwrap() { Text::Imm(t) => t.as_str(), _ => panic!() }",
    "text_chunks": "Reader::new(D).text().unwrap().to_str_chunks()",
    "tag_data": "Reader::new(D).tag().unwrap().data()",
    "tag_reader": "Reader::new(D).tag().unwrap().reader()",
    "reader": "Reader::new(D)",
    "validator": "Validator::new(D)",
    "slice": "Validator::new(D).next().unwrap().0",
    "slice_reader": "Validator::new(D).next().unwrap().0.reader()",
    "slice_typed": "Validator::new(D).next().unwrap().0.validate_as::<u64>().unwrap()",
    "exact_slice": "Reader::new(D).exact_decodable_slice::<u64>().unwrap()",
    "exact_untyped": "Reader::new(D).exact_decodable_slice::<u64>().unwrap().untype()",
    "bytes_data": "BytesData::from_slice(D)",
    "bytes_made": "Bytes::from_slice(D)",
}
# an owner, and expressions on a reference R to it; what they make must not outlive the owner
OWNERS = {
    "bytes_owned": ("BytesOwned::from_vec(vec![1])", ["R.borrow()"]),
    "text_owned": ("TextOwned::from_string(String::new())", ["R.borrow()"]),
    "bytes_data_owned": ("BytesDataOwned::from_vec(vec![1])", ["R.as_slice()", "R.borrow()"]),
    "text_data_owned": ("TextDataOwned::from_string(String::new())", ["R.as_str()", "R.borrow()"]),
    "array_owned": ("ArrayBuilder::new().finite()", ["R.borrow()", "R.iter()", "R.iter().next().unwrap()"]),
    "map_owned": (
        "Reader::new(&[0xa0]).map().unwrap().owned()",
        ["R.borrow()", "R.iter()", "R.keys()", "R.values()", "R.keys().next().unwrap()", "R.values().next().unwrap()"],
    ),
    "tag_owned": (
        "Reader::new(&[0xc1, 0]).tag().unwrap().owned()",
        ["R.borrow()", "R.read_data()", "R.data()", "R.data().as_ref() as &[u8]"],
    ),
    "data_owned": ("Reader::new(&[0x80]).data().unwrap().owned()", ["R.borrow()"]),
    "handle": ("Writer::new().finalize_data()", ["R.read()", "R.as_ref() as &[u8]", "<_ as Borrow<CborSlice>>::borrow(R)"]),
    "typed_handle": (
        "CborDataOf::<u64>::from(&1u64)",
        [
            "R.as_ref()",
            "<_ as Borrow<CborSliceOf<u64>>>::borrow(R)",
            "<_ as Borrow<CborSliceOf<u64>>>::borrow(R).untype()",
            "<_ as Borrow<CborSliceOf<u64>>>::borrow(R).untype().reader()",
        ],
    ),
}
OUTLIVES = {"E0597", "E0505", "E0502", "E0506", "E0515", "E0716", "E0499", "E0521", "E0713", "E0310", "E0309", "E0621", "E0373"}
HEAD = """#![allow(warnings)]
use cbored::validate::Validator;
use cbored::*;
use std::borrow::Borrow;
fn keep<T>(_: &T) {}
"""
TOML = """[package]
name = "%s"
version = "0.0.0"
edition = "2021"
[dependencies]
cbored = { path = "/repo" }
[workspace]
"""


def borrow_programs():
    good, bad = {}, {}
    for k, e in BORROWED.items():
        x = lambda d: re.sub(r"\bD\b", d, e)
        good["ok_%s" % k] = "let v = vec![0u8]; let d: &[u8] = &v; let x = { %s }; keep(&x);" % x("d")
        good["ok_%s_returned" % k] = ("<'a>(d: &'a [u8]) -> impl Sized + 'a", "let x = %s; x" % x("d"))
        bad["bad_%s_outlives" % k] = "let x; { let v = vec![0u8]; x = %s; } keep(&x);" % x("&v[..]")
        bad["bad_%s_dropped" % k] = "let v = vec![0u8]; let x = %s; drop(v); keep(&x);" % x("&v[..]")
        bad["bad_%s_changed" % k] = "let mut v = vec![0u8]; let x = %s; v[0] = 1; keep(&x);" % x("&v[..]")
    for k, (o, es) in OWNERS.items():
        for i, e in enumerate(es):
            x = lambda r: re.sub(r"\bR\b", r, e)
            good["ok_%s_%d" % (k, i)] = "let o = %s; let x = %s; keep(&x);" % (o, x("(&o)"))
            bad["bad_%s_%d_outlives" % (k, i)] = "let x; { let o = %s; x = %s; } keep(&x);" % (o, x("(&o)"))
            bad["bad_%s_%d_dropped" % (k, i)] = "let o = %s; let x = %s; drop(o); keep(&x);" % (o, x("(&o)"))
            bad["bad_%s_%d_replaced" % (k, i)] = "let mut o = %s; let x = %s; o = %s; keep(&x);" % (o, x("(&o)"), o)
    return good, bad


def check_programs(ctx, name, progs):
    """the errors of each of a set of functions, by name ("" for those outside of them)"""
    d = os.path.join(ctx.scratch, "gen", name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    lines = HEAD.splitlines()
    where = {}
    for n, p in progs.items():
        sig, body = p if type(p) is tuple else ("()", p)
        lines.append("fn %s%s { %s }" % (n, sig, body))
        where[len(lines)] = n
    with open(os.path.join(d, "src/lib.rs"), "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(TOML % ("witness-" + name))
    rc, errs = cargo_check(d, ctx.scratch)
    out = {}
    for code, msg, f, ln in errs:
        if "aborting due to" in msg or "could not compile" in msg:
            continue
        out.setdefault(where.get(ln, "") if f.endswith("src/lib.rs") else "", []).append((code, msg))
    return rc, out, lines


def is_borrow_error(code, msg):
    return code in OUTLIVES or (code is None and "lifetime may not live long enough" in msg)


def borrows(ctx):
    good, bad = borrow_programs()
    findings, undecided = [], []
    rc, errs, lines = check_programs(ctx, "good", good)
    if "" in errs:
        undecided.append("the programs that must compile cannot be looked at: %s" % (errs[""][0],))
    for n, es in errs.items():
        if not n:
            continue
        hit = [e for e in es if is_borrow_error(*e)]
        src = next(l for l in lines if l.startswith("fn %s" % n))
        if hit:
            findings.append(("borrow %s" % n, "a value is not usable as long as its buffer: `%s` does not compile: %s" % (src, hit[0][1]), src))
        else:
            undecided.append("%s does not compile for another reason: %s" % (src, es[0]))
    rc, errs, lines = check_programs(ctx, "bad", bad)
    refused = 0
    if "" in errs:
        undecided.append("the programs that must not compile cannot be looked at: %s" % (errs[""][0],))
    else:
        for n in bad:
            es = errs.get(n, [])
            src = next(l for l in lines if l.startswith("fn %s" % n))
            if any(is_borrow_error(*e) for e in es):
                refused += 1
            elif es:
                undecided.append("%s does not compile for another reason: %s" % (src, es[0]))
            else:
                findings.append(
                    ("borrow %s" % n, "a value outlives its buffer, or the buffer changes under it: `%s` compiles" % src, src)
                )
    # no exported function makes up a lifetime
    facts = ctx.facts()["cbored"]
    n = 0
    for f in facts["fns"]:
        if not f["exported"] or f["kind"] == "Closure":
            continue
        n += 1
        given = set(re.findall(r"'(\w+)", " ".join(f["in"]) + " " + f["self"]))
        for l in set(re.findall(r"'(\w+)", f["out"])) - given - {"static", "_"}:
            findings.append(
                ("lifetime %s" % plain(f["path"]), "the lifetime '%s of what %s (%s) returns is not one of its arguments: the caller chooses it"
                 % (l, f["path"], f["span"]), "returns %s, takes %s" % (f["out"], ", ".join(f["in"])))
            )
    return findings, dict(
        obligations=len(good) + len(bad) + n,
        programs_that_compile=len(good),
        programs_refused=refused,
        signatures=n,
        undecided=undecided,
        rule="each program that keeps a value past its buffer, drops, replaces or changes the buffer under it is refused "
        "by the borrow checker with a lifetime error in that function; each that keeps it past the reader compiles; every "
        "lifetime an exported function returns is one of its arguments'",
    )
