"""Analyse entry programs of a dump: python3 run.py DUMP [-v] PATTERN..."""
import gc
import json
import re
import sys
import time

import interp
import models
from terms import *
from values import *

gc.disable()


class Result:
    def __init__(self, path):
        self.path = path
        self.alarms = []
        self.gap = None
        self.interp = None
        self.time = 0
        self.outs = []


def flats(world):
    """element type -> the entry program that says which bytes an element stands for"""
    out = {}
    for p in world.roots:
        if p.startswith("flat::"):
            t = world.types[world.fn(world.roots[p]).locals[1]]
            out[t["e"]] = p
    return out


def analyse(world, path, cfg=None):
    """run one entry program on unknown arguments"""
    r = Result(path)
    cfg = dict(cfg or {})
    cfg.setdefault("flats", flats(world))
    I = interp.Interp(world, models.Models(world), cfg)
    r.interp = I
    t0 = time.time()
    try:
        f = world.fn(I.root_key(path))
        st = interp.State({}, Facts())
        args = []
        for i in range(f.argc):
            args.append(world.make(f.locals[i + 1], f.names.get(str(i + 1), "arg%d" % i) if isinstance(f.names, dict) else "arg%d" % i))
        r.outs = I.run(f, args, st, 1)
    except Unsupported as e:
        r.gap = e
    except Infeasible:
        r.outs = []
    r.alarms = dedup(I.alarms)
    r.time = time.time() - t0
    return r


def dedup(alarms):
    seen, out = set(), []
    for a in alarms:
        k = (a.kind, a.where, a.span, tuple(s for _, s in a.stack))
        if k not in seen:
            seen.add(k)
            out.append(a)
    return out


def short(s):
    return re.sub(r"/root/\.rustup/.*?/library/", "", s)


GAPS = {}


def report(r, verbose=False, n=5):
    I = r.interp
    print("%-40s %5.1fs blocks %d splits %d outs %d alarms %d%s" % (
        r.path, r.time, I.stats["blocks"], I.stats["splits"], len(r.outs), len(r.alarms), "  GAP" if r.gap else ""))
    for a in r.alarms[:n]:
        print("  ", a.kind, short(a.span), a.msg)
        print("      stack:", " > ".join("%s@%s" % (f.split("::")[-1] if len(f) > 60 else f, short(s).split("/")[-1]) for f, s in a.stack))
        print("      trace:", " ".join(x.split("/")[-1] for x in a.trace))
        if verbose:
            print("      facts:", a.facts.show())
    if r.gap:
        g = (str(r.gap), str(getattr(r.gap, "at", None)))
        if g in GAPS:
            print("   GAP as", GAPS[g])
        else:
            GAPS[g] = r.path
            print("   GAP", str(r.gap)[:1500])
            print("      stack:", [short(s).split("/")[-1] for f, s in getattr(r.gap, "stack", [])])
            print("      at:", str(getattr(r.gap, "at", None))[:600])
    if verbose:
        for s, v in r.outs[:12]:
            print("   =", show(v))
            print("      ", s.facts.show())


if __name__ == "__main__":
    dump = json.load(open(sys.argv[1]))
    w = interp.World(dump)
    args = sys.argv[2:]
    v = "-v" in args
    pats = [a for a in args if a != "-v"]
    for p in sorted(w.roots):
        if any(x in p for x in pats):
            report(analyse(w, p), v)
