"""Entry point: python -m mc.run --property F01 --tier quick"""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)



def _needs_ext(argv):
    """Compiled modules are explored in a scratch build (before any import)."""
    for a, b in zip(argv, argv[1:]):
        if a == "--property":
            return b == "L05"
        if a == "--replay":
            return json.load(open(b))["property"] == "L05"
    return False


if _needs_ext(sys.argv):
    from mc import ext
    ext.build()

from mc import env                                    # noqa
from mc import explore                                # noqa


def registry():
    from mc import registry as r
    return r.REGISTRY


ASSUMPTIONS = [
    "NumPy, SciPy and the interpreter are trusted",
    "continuous inputs (tensors, Hamiltonians, angles, step sizes) range over the fixed finite alphabet listed in the bounds",
    "degenerate inputs outside the documented domain (listed in DESIGN.md) are disabled, not judged",
]


def known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--procs", type=int, default=None)
    ap.add_argument("--world", default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    reg = registry()[a.property]
    worlds = reg["worlds"]()
    if a.world:
        worlds = [w for w in worlds if w.name == a.world]
    budget = a.budget or (reg.get("budget_quick", 600) if a.tier == "quick" else reg.get("budget_thorough", 6 * 3600))
    t0 = time.time()
    tot, per, viol, errors, samples = explore.run_worlds(worlds, a.tier, budget, a.procs)
    kf = [k for k in known() if k.get("property") == a.property and k.get("status") == "open"]
    shown, fresh, seen_known = set(), [], {}
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    viol.sort(key=lambda v: (len(v["path"]), len(json.dumps(v["cfg"], default=str))))
    for v in viol:
        k = match_known(kf, v)
        if k is not None:
            seen_known.setdefault(k["id"], (k, v))
            continue
        fresh.append(v)
    for kid, (k, v) in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (a.property, k["what"]))
    for k in kf:                       # listed findings are always reported
        if k["id"] not in seen_known and k.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (a.property, k["what"]))
    n = 0
    for v in fresh:
        if v["sig"] in shown:
            continue
        shown.add(v["sig"])
        n += 1
        body = json.dumps(dict(property=a.property, world=v["world"], cfg=v["cfg"], path=v["path"],
                               sig=v["sig"], msg=v["msg"]), default=_js, indent=1)
        fn = os.path.join(rdir, "%s-%s.json" % (a.property, hashlib.sha1(body.encode()).hexdigest()[:10]))
        open(fn, "w").write(body)
        print("VIOLATION property=%s replay=%s" % (a.property, fn))
        print("  %s: %s" % (v["sig"], v["msg"][:600]))
        print("  world=%s cfg=%s" % (v["world"], json.dumps(v["cfg"], default=_js)))
        print("  path=%s" % (v["path"],))
        if n >= 8:
            break
    for e in errors[:3]:
        print("HARNESS-ERROR world=%s cfg=%s\n%s" % (e[0], e[1], e[2]))
    wall = time.time() - t0
    write_evidence(a, reg, tot, per, samples, wall, len(fresh), len(seen_known))
    print("%s %s: %d configurations, %d states, %d transitions (%d merged), depth %d, complete=%s, %.1fs" % (
        a.property, a.tier, tot["configs"], tot["states"], tot["transitions"], tot["merged"],
        tot["maxdepth"], tot["complete"], wall))
    for w in sorted(per):
        print("   %-24s %s" % (w, per[w]))
    if fresh:
        return 1
    if errors:
        return 2
    return 0


def _js(o):
    import numpy as np
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    return str(o)


def match_known(kf, v):
    for k in kf:
        if k["sig"] != v["sig"] or k.get("world", v["world"]) != v["world"]:
            continue
        ok = True
        for kk, vv in k.get("cfg", {}).items():
            if json.loads(json.dumps(v["cfg"].get(kk), default=_js)) != vv:
                ok = False
        if ok:
            return k
    return None


def write_evidence(a, reg, tot, per, samples, wall, nviol, nknown):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = dict(property=a.property, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")),
              level=reg["level"], wall_s=round(wall, 3), violations=nviol,
              assumptions=reg.get("assumptions", ASSUMPTIONS),
              coverage=dict(states=tot["states"], transitions=tot["transitions"],
                            traces_validated_against_impl=tot["histories"],
                            depth=tot["maxdepth"], configurations=tot["configs"], merged=tot["merged"],
                            disabled_actions=tot["disabled"],
                            exhaustive=bool(tot["complete"]) and nviol == 0,
                            bounds=tot["bounds"], per_world=per, known_findings=nknown,
                            rule="a state is an (implementation, model) pair reached by a distinct history and checked against the "
                                 "dense reference; a transition is one construction or library operation run on the real code; a "
                                 "trace is a maximal history, executed on the real code in lockstep with the model",
                            samples=samples))
    json.dump(ev, open(os.path.join(d, a.property + ".json"), "w"), indent=1, default=_js)


def do_replay(fn):
    r = json.load(open(fn))
    for w in registry()[r["property"]]["worlds"]():
        if w.name == r["world"]:
            try:
                explore.replay(w, r["cfg"], r["path"])
            except explore.Violation as v:
                print("VIOLATION property=%s replay=%s" % (r["property"], fn))
                print("  %s: %s" % (v.sig, v.msg))
                return 1
            print("property %s holds on this history" % r["property"])
            return 0
    print("unknown world %s" % r["world"])
    return 2


if __name__ == "__main__":
    sys.exit(main())
