#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current source.

The program is never executed. cbored and the entry programs of /verif/harness (or
/verif/harness-derive) are type checked and lowered to MIR by a rustc driver; the MIR is interpreted
abstractly over all values of the parameters; the obligations stated in the entry programs and the
panic conditions of every block reached must hold in every abstract state."""
import fcntl
import gc
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.path.insert(0, HERE)

REPO = os.environ.get("CBORED_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "evidence"))
RUSTFLAGS = (
    "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings "
    "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums"
)


class Broken(Exception):
    """the source cannot be analysed at all"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    r = sh(["rustc", "+nightly", "--print", "sysroot"])
    return r.stdout.strip()


def driver():
    """build the driver if this copy of /verif does not have it yet"""
    d = os.path.join(VERIF, "driver")
    exe = os.path.join(d, "target/release/mirdump")
    os.makedirs(os.path.join(VERIF, ".cache"), exist_ok=True)
    with open(os.path.join(VERIF, ".cache/driver.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        srcs = [os.path.join(d, "src", f) for f in os.listdir(os.path.join(d, "src"))]
        if not os.path.exists(exe) or os.path.getmtime(exe) < max(map(os.path.getmtime, srcs)):
            r = sh(["cargo", "+nightly", "build", "--offline", "--release"], cwd=d)
            if r.returncode != 0:
                raise RuntimeError("driver does not build:\n" + r.stdout)
    return exe


def dump(name, scratch):
    """the MIR of an entry crate and everything it reaches, from /repo's current source; "crate+x" uses
    the table of substitutions subst/x.txt of the crate"""
    exe = driver()
    crate, _, table = name.partition("+")
    src = os.path.join(VERIF, crate)
    if REPO != "/repo":
        # a copy of the entry crate that depends on another tree
        dst = os.path.join(scratch, "src-" + crate)
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target"), dirs_exist_ok=True)
        p = os.path.join(dst, "Cargo.toml")
        t = open(p).read().replace('"/repo', '"' + REPO)
        open(p, "w").write(t)
        src = dst
    out = os.path.join(scratch, name + ".json")
    env = dict(os.environ)
    env.update(
        LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
        MIRDUMP_CRATE=crate.replace("-", "_"),
        MIRDUMP_OUT=out,
        MIRDUMP_STOP=os.path.join(src, "stop.txt"),
        MIRDUMP_SUBST=os.path.join(src, "subst.txt"),
        RUSTC_WORKSPACE_WRAPPER=exe,
        RUSTFLAGS=RUSTFLAGS,
        CARGO_TARGET_DIR=os.path.join(scratch, "target-" + name),
        CARGO_NET_OFFLINE="true",
    )
    for k in ("VERIF_TIER", "VERIF_SEED", "RUSTC_WRAPPER", "MIRDUMP_SUBST_MORE"):
        env.pop(k, None)
    if table:
        env["MIRDUMP_SUBST_MORE"] = os.path.join(src, "subst/%s.txt" % table)
    r = sh(["cargo", "+nightly", "check", "--offline"], cwd=src, env=env)
    if r.returncode != 0 or not os.path.exists(out):
        raise Broken("the source does not type check together with the entry programs:\n" + r.stdout[-4000:])
    shutil.rmtree(env["CARGO_TARGET_DIR"], ignore_errors=True)
    return out


def facts(scratch):
    """what the functions and types of the two crates are made of, as they are written"""
    exe = driver()
    dst = os.path.join(scratch, "src-facts")
    shutil.copytree(os.path.join(VERIF, "witness/facts"), dst, ignore=shutil.ignore_patterns("target"), dirs_exist_ok=True)
    p = os.path.join(dst, "Cargo.toml")
    t = open(p).read().replace('"/repo', '"' + REPO)
    open(p, "w").write(t)
    env = dict(os.environ)
    env.update(
        LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
        MIRDUMP_FACTS="cbored,cbored_derive",
        MIRDUMP_FACTS_DIR=scratch,
        RUSTC_WRAPPER=exe,
        RUSTFLAGS=RUSTFLAGS,
        CARGO_TARGET_DIR=os.path.join(scratch, "target-facts"),
        CARGO_NET_OFFLINE="true",
    )
    for k in ("VERIF_TIER", "VERIF_SEED", "RUSTC_WORKSPACE_WRAPPER"):
        env.pop(k, None)
    r = sh(["cargo", "+nightly", "check", "--offline"], cwd=dst, env=env)
    out = {}
    for n in ("cbored", "cbored_derive"):
        f = os.path.join(scratch, n + ".json")
        if r.returncode != 0 or not os.path.exists(f):
            raise Broken("the source does not type check:\n" + r.stdout[-4000:])
        out[n] = json.load(open(f))
    shutil.rmtree(env["CARGO_TARGET_DIR"], ignore_errors=True)
    return out


# ---------------------------------------------------------------- analysis of the entry programs
WORLD = None
START = time.time()
# seconds for the whole check (an entry program that is not finished by then is undecided)
BUDGET = 660


class TimeUp(Exception):
    pass


def work(job):
    import signal

    import run

    path, limit = job

    def up(*_):
        raise TimeUp()

    t0 = time.time()
    limit = int(max(1, min(limit, START + BUDGET - t0)))
    signal.signal(signal.SIGALRM, up)
    signal.alarm(limit)
    try:
        r = run.analyse(WORLD, path)
    except TimeUp:
        return dict(path=path, gap="not finished within %d s" % limit, alarms=[], obligations={}, sites={}, fns=[], blocks=0, outs=0, time=time.time() - t0, allocs=[], loops=[])
    except (RecursionError, MemoryError, AssertionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
        import traceback

        return dict(path=path, gap="internal: %s" % traceback.format_exc()[-600:], alarms=[], obligations={}, sites={}, fns=[], blocks=0, outs=0, time=time.time() - t0, allocs=[], loops=[])
    finally:
        signal.alarm(0)
    I = r.interp
    al = []
    for a in r.alarms:
        al.append(
            dict(
                kind=a.kind,
                props=a.props,
                msg=a.msg,
                where=a.where,
                span=short(a.span),
                stack=[(f, short(s)) for f, s in a.stack],
                trace=[short(x) for x in a.trace],
                facts=a.facts.show() if a.facts else "",
            )
        )
    gap = None
    if r.gap:
        gap = "%s at %s" % (str(r.gap)[:400], [short(s) for f, s in getattr(r.gap, "stack", [])])
    return dict(
        path=path,
        gap=gap,
        alarms=al,
        obligations={"%s|%d" % (short(k[0]), k[1]): v for k, v in I.obligations.items()},
        sites={"%s %s %s" % (k[0], short(k[1]), k[2]): v for k, v in I.sites.items()},
        fns=sorted(I.fns_seen),
        blocks=I.stats["blocks"],
        outs=len(r.outs),
        time=r.time,
        allocs=[],
    )


def short(s):
    return re.sub(r"/root/\.rustup/.*?/library/", "", str(s)).replace(REPO + "/", "/repo/")


def analyse(dumpfile, patterns, limit):
    global WORLD
    import interp

    gc.disable()
    with open(dumpfile) as f:
        WORLD = interp.World(json.load(f))
    names = sorted(p for p in WORLD.roots if any(re.fullmatch(x, p) for x in patterns))
    for x in patterns:
        if not any(re.fullmatch(x, p) for p in names):
            raise RuntimeError("no entry program %s" % x)
    with multiprocessing.Pool(min(8, os.cpu_count() or 1, len(names)), maxtasksperchild=1) as pool:
        return pool.map(work, [(n, limit) for n in names], chunksize=1)


# ---------------------------------------------------------------- verdict
def known(prop):
    """exact keys of the findings that are recorded and not repaired"""
    out = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for l in f:
            m = re.match(r"finding: property=(\S+) key=(.*?)  (.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def claims(rule, stack):
    """is a panic with these callers one of the property? (True, or the callers it has and does not have)"""
    if rule is None or isinstance(rule, bool):
        return bool(rule)
    names = [x[0] for x in stack]
    has, hasnt = rule
    return any(re.search(has, n) for n in names) and not (hasnt and any(re.search(hasnt, n) for n in names))


def own(stack):
    """the innermost frame that is in cbored"""
    for f, s in reversed(stack):
        if "cbored" in f or "/repo/" in s:
            return f, s
    return stack[-1] if stack else ("?", "?")


def main():
    import props

    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    spec = props.PROPS[prop]
    findings, undecided = [], []
    cov = {}
    scratch = tempfile.mkdtemp(prefix="cbored-check-")
    try:
        bit = 1 << int(prop[1:])
        results = []
        dumps = {}
        try:
            for crate, pats in spec.get("roots", {}).items():
                dumps[crate] = dump(crate, scratch)
                results += analyse(dumps[crate], pats, spec.get("limit", 400))
            extra = {}
            ctx = props.Ctx(scratch, dumps, lambda c: dump(c, scratch), results, facts)
            for f in spec.get("rules", []):
                fi, co = f(ctx)
                findings += fi
                undecided += co.pop("undecided", [])
                co["obligations"] = co.get("obligations", 0) + extra.get("obligations", 0)
                extra.update(co)
        except Broken as e:
            findings.append(("broken source", str(e), str(e)))
            extra = {}
        nobl = disch = 0
        panics = 0
        samples = []
        for r in results:
            for k, v in r["obligations"].items():
                sp, ps = k.rsplit("|", 1)
                if int(ps) & bit:
                    nobl += v
                    if len(samples) < 12:
                        samples.append("%s: obligation at %s holds in %d abstract states" % (r["path"], sp, v))
            for k, v in r["sites"].items():
                special = k.rsplit(" ", 1)[1] in SPECIAL
                if k.rsplit(" ", 1)[1] in spec.get("kinds", ()) if special else spec.get("panics"):
                    panics += v
                    if special and len(samples) < 12:
                        samples.append("%s: %s checked %d times" % (r["path"], k, v))
            if r["gap"]:
                undecided.append("%s: %s" % (r["path"], r["gap"]))
            elif not any(int(k.rsplit("|", 1)[1]) & bit for k in r["obligations"]) and not spec.get("panics") and spec.get("floor", True):
                findings.append((
                    "vacuous %s" % r["path"],
                    "no obligation of %s is reached in %s" % (prop, r["path"]),
                    "every path ends before the obligations",
                ))
            for a in r["alarms"]:
                if a["kind"] == "spec":
                    if not a["props"] & bit:
                        continue
                elif a["kind"] in SPECIAL:
                    if a["kind"] not in spec.get("kinds", ()):
                        continue
                elif a["kind"] == "progress?":
                    if "progress" in spec.get("kinds", ()):
                        undecided.append("%s: %s at %s" % (r["path"], a["msg"], a["span"]))
                    continue
                elif not claims(spec.get("panics"), a["stack"]):
                    continue
                f, s = own(a["stack"])
                key = "%s %s %s %s" % (r["path"], a["kind"], f, re.sub(r"[\d:]+$", "", s))
                text = "%s: %s\n  in %s\n  entry %s\n  calls: %s\n  path: %s\n  state: %s\n" % (
                    a["kind"],
                    a["msg"],
                    "%s (%s)" % (f, s),
                    r["path"],
                    " > ".join("%s (%s)" % x for x in a["stack"]),
                    " ".join(a["trace"]),
                    a["facts"],
                )
                findings.append((key, "%s %s at %s" % (a["kind"], a["msg"].split("\n")[0], s), text))
        kn = known(prop)
        fresh = []
        seen = set()
        for key, line, text in findings:
            if key in kn:
                if key not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (prop, kn[key]))
                seen.add(key)
            else:
                fresh.append((key, line, text))
        os.makedirs(OUT, exist_ok=True)
        fns = sorted({tuple(f) for r in results for f in r["fns"]})
        own_fns = [f[1] for f in fns if f[0].startswith("cbored")]
        cov = dict(
            explanation=spec["explanation"],
            rule=spec.get("rule", RULE),
            entry_programs=[
                dict(name=r["path"], blocks=r["blocks"], seconds=round(r["time"], 1), decided=not r["gap"]) for r in results
            ],
            functions_analysed=len(fns),
            cbored_functions=own_fns,
            blocks_interpreted=sum(r["blocks"] for r in results),
            obligations=nobl + panics + extra.pop("obligations", 0),
            undecided=undecided,
            samples=samples,
        )
        if spec.get("panics"):
            cov["panic_sites"] = len({k for r in results for k in r["sites"] if k.rsplit(" ", 1)[1] not in SPECIAL})
        for kind in spec.get("kinds", ()):
            cov[kind + "_sites"] = sorted({k for r in results for k in r["sites"] if k.endswith(" " + kind)})
        cov["discharged"] = max(0, cov["obligations"] - len(fresh))
        cov.update(extra)
        ev = dict(
            property=prop,
            tier=tier,
            seed=int(os.environ.get("VERIF_SEED", "1")),
            level="other",
            coverage=cov,
            assumptions=ASSUMPTIONS + spec.get("assumptions", []),
            wall_s=round(time.time() - t0, 2),
            violations=len(fresh),
        )
        with open(os.path.join(OUT, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for u in undecided:
            print("UNDECIDED: property=%s %s" % (prop, u))
        if fresh:
            rp = os.path.join(OUT, prop + ".violations.txt")
            with open(rp, "w") as f:
                for key, line, text in fresh:
                    f.write("%s\n%s\n\n" % (line, text))
            for key, line, text in fresh[:10]:
                print(" -", line)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        print(
            "%s: %d obligations hold (%d entry programs, %d cbored functions, %.0f s)%s"
            % (prop, cov["obligations"], len(results), len(own_fns), time.time() - t0, ", %d undecided" % len(undecided) if undecided else "")
        )
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# kinds of alarms that are not panics
SPECIAL = ("alloc", "progress", "utf8")
RULE = (
    "An obligation is a claim stated in an entry program (or the panic condition of an instruction), "
    "counted once for every abstract state in which it is evaluated; it holds when the state implies it."
)
ASSUMPTIONS = [
    "The rustc front end lowers the source to the MIR that is analysed; the target is 64 bits.",
    "The abstract models of the standard library's vectors, slices, strings, boxes and integers (engine/models.py) "
    "describe them; the remaining library functions are analysed from their own MIR.",
    "Memory exhaustion is out of scope.",
]

if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.exit(main())
