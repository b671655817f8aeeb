"""Bounded exhaustive exploration of operation sequences on the real library.

A World supplies, for each initial configuration, an initial (implementation,
model) pair, the enabled actions of a pair, the transition (which drives the
implementation and the model in lockstep and compares them) and a canonical
key.  `explore_config` enumerates *every* action sequence up to the depth bound
(breadth first, merging pairs with equal keys), checking every transition and
every state.  There is no sampling; the only nondeterminism of the library (its
random number generator) is owned by the explorer.
"""
import copy
import hashlib
import json
import os
import signal
import sys
import threading
import time
import traceback
import multiprocessing as mp
import numpy as np

from . import env


class Violation(Exception):
    """The property does not hold in the state/transition just explored."""

    def __init__(self, sig, msg):
        Exception.__init__(self, sig + ": " + msg)
        self.sig = sig
        self.msg = msg


class Disabled(Exception):
    """The action turned out not to be enabled in this state."""


class Endless(BaseException):
    """One transition used more processor time than any terminating one does."""


STEP_CPU = 200.0


def _alarm(signum, frame):
    raise Endless("no end after %g s of processor time" % STEP_CPU)


class Watch(object):
    """Bounds the processor time of one transition and its checks.

    What escapes here is not a Violation the world raised, yet the world cannot
    confirm the property either: the library ran on for ever, or returned
    something (None, a wrong type, a wrong shape) that the comparison with the
    model could not digest.  On the correct code neither happens.
    """

    def __enter__(self):
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            signal.signal(signal.SIGPROF, _alarm)
            signal.setitimer(signal.ITIMER_PROF, STEP_CPU)
        return self

    def __exit__(self, et, ev, tb):
        if self.on:
            signal.setitimer(signal.ITIMER_PROF, 0.0)
        if et is None or issubclass(et, (Violation, Disabled, KeyboardInterrupt,
                                         SystemExit, GeneratorExit, MemoryError)):
            return False
        last = traceback.extract_tb(tb)[-3:]
        raise Violation("endless" if issubclass(et, Endless) else "indigestible-result",
                        "%s: %s  [%s]" % (et.__name__, str(ev)[:300], " <- ".join(
                            "%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name)
                            for f in reversed(last))))


def need(cond, sig, msg="", *args):
    if not cond:
        raise Violation(sig, msg % args if args else msg)


def close(got, want, sig, tol=1e-8, scale=None, what=""):
    """got and want agree to tol relative to max(1, scale)."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation(sig, "%s shape %s, expected %s" % (what, got.shape, want.shape))
    if got.size == 0:
        return 0.0
    s = max(1.0, float(np.max(np.abs(want)))) if scale is None else scale
    d = np.max(np.abs(got - want))
    if not (d <= tol * s):          # also catches nan
        raise Violation(sig, "%s off by %g (tolerance %g)\n got  %s\n want %s" % (
            what, d, tol * s, np.array2string(got.ravel()[:8], precision=8),
            np.array2string(want.ravel()[:8], precision=8)))
    return float(d / s)


def digest(x):
    """Something comparable for an attribute's value."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [digest(y) for y in x.ravel()]
        return (x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return [digest(y) for y in x]
    if hasattr(x, "toarray"):
        return digest(np.asarray(x.toarray()))
    if x is None or isinstance(x, (bool, int, float, complex, str, np.generic)):
        return repr(x)
    return id(x)


def attributes(obj, leave=()):
    """The values of all attributes but some."""
    return {k: digest(v) for k, v in vars(obj).items() if k not in leave}


def unchanged(obj, old, sig):
    """No attribute in old has another value now."""
    now = attributes(obj, set(vars(obj)) - set(old))
    bad = sorted(k for k in old if k in now and now[k] != old[k] or k not in now)
    need(not bad, sig, "attributes changed: %s", bad)


class World(object):
    """Base class; see module docstring."""
    name = "world"
    depth = 1

    def configs(self, tier):
        raise NotImplementedError

    def init(self, cfg):
        raise NotImplementedError

    def actions(self, st):
        return []

    def step(self, st, act):
        raise NotImplementedError

    def check(self, st):
        pass

    def key(self, st):
        return None

    def nontrivial(self, cfg):
        return True


def _frames(tb):
    out = []
    for f in traceback.extract_tb(tb):
        if "/evoMPS/" in f.filename:
            out.append("%s:%s" % (os.path.basename(f.filename), f.name))
    return out


class Guard(object):
    """Turns an exception escaping the library into a Violation."""

    def __init__(self, sig):
        self.sig = sig

    def __enter__(self):
        self._q = env.quiet()
        self._q.__enter__()
        return self

    def __exit__(self, et, ev, tb):
        self._q.__exit__()
        if et is None or issubclass(et, (Violation, Disabled, KeyboardInterrupt,
                                         MemoryError)):
            return False
        fr = _frames(tb)
        raise Violation(self.sig, "the library raised %s: %s  [%s]" % (
            et.__name__, str(ev)[:300], " <- ".join(reversed(fr[-4:]))))


def seed_for(*key):
    import zlib
    s = zlib.crc32(repr(key).encode()) & 0x7FFFFFFF
    np.random.seed(s)


def explore_config(world, cfg, depth, deadline=None, max_viol=2):
    """BFS from one configuration.  Returns a result dict."""
    res = dict(states=0, transitions=0, merged=0, maxdepth=0, histories=0, disabled=0,
               violations=[], complete=True, sample=None)
    seen = set()

    def record(path, v):
        res["violations"].append(dict(sig=v.sig, msg=v.msg, cfg=cfg, path=path,
                                      world=world.name))

    try:
        with Watch():
            st = world.init(cfg)
            world.check(st)
    except Disabled:
        res["disabled"] += 1
        return res
    except Violation as v:
        res["transitions"] += 1
        record([], v)
        return res
    res["states"] += 1
    res["transitions"] += 1            # the construction of the object
    res["sample"] = []
    k = world.key(st)
    if k is not None:
        seen.add(k)
    frontier = [(st, [])]
    for d in range(depth):
        nxt = []
        for st, path in frontier:
            leaf = True
            try:
                with Watch():
                    acts = list(world.actions(st))
            except Violation as v:
                record(path, v)
                if len(res["violations"]) >= max_viol:
                    return res
                continue
            for act in acts:
                if deadline is not None and time.time() > deadline:
                    res["complete"] = False
                    return res
                p = path + [act]
                try:
                    with Watch():
                        st2 = world.step(copy.deepcopy(st), act)
                        res["transitions"] += 1
                        leaf = False
                        k = world.key(st2)
                        dup = k is not None and k in seen
                        # also on a merged transition: the key does not
                        # cover every array derived from the state
                        world.check(st2)
                except Disabled:
                    res["disabled"] += 1
                    continue
                except Violation as v:
                    record(p, v)
                    if len(res["violations"]) >= max_viol:
                        return res
                    continue
                if dup:
                    res["merged"] += 1
                    res["histories"] += 1
                    continue
                if k is not None:
                    seen.add(k)
                res["states"] += 1
                res["maxdepth"] = d + 1
                res["sample"] = p
                nxt.append((st2, p))
            if leaf:
                res["histories"] += 1
        frontier = nxt
    res["histories"] += len(frontier)
    return res


def replay(world, cfg, path):
    with Watch():
        st = world.init(cfg)
        world.check(st)
    for act in path:
        if isinstance(act, list):
            act = _tup(act)
        with Watch():
            st = world.step(copy.deepcopy(st), act)
            world.check(st)
    return st


def _tup(x):
    return tuple(_tup(y) for y in x) if isinstance(x, (list, tuple)) else x


# ------------------------------------------------------------------ parallel
_W = {}


def _job(args):
    wname, cfg, depth, deadline = args
    if time.time() > deadline:
        return dict(states=0, transitions=0, merged=0, maxdepth=0, histories=0, disabled=0,
                    violations=[], complete=False, sample=None), wname, cfg
    try:
        return explore_config(_W[wname], cfg, depth, deadline), wname, cfg
    except Exception as e:                       # harness failure, not a verdict
        return dict(error="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())), wname, cfg


def run_worlds(worlds, tier, budget, procs=None, stop_after=6):
    """Explore all configurations of all worlds in parallel."""
    t0 = time.time()
    deadline = t0 + budget
    jobs = []
    for w in worlds:
        _W[w.name] = w
        for cfg in w.configs(tier):
            jobs.append((w.name, cfg, w.depth_for(cfg, tier) if hasattr(w, "depth_for") else w.depth, deadline))
    tot = dict(states=0, transitions=0, merged=0, maxdepth=0, configs=0,
               histories=0, disabled=0, complete=True, bounds=bounds_of(jobs))
    per = {}
    viol = []
    errors = []
    samples = []
    procs = procs or min(8, os.cpu_count() or 1)
    # long jobs first helps little here; keep the enumeration order.
    ctx = mp.get_context("fork")
    if procs == 1:
        it = map(_job, jobs)
        pool = None
    else:
        pool = ctx.Pool(procs)
        it = pool.imap_unordered(_job, jobs, chunksize=max(1, min(16, len(jobs) // (procs * 8) or 1)))
    try:
        for r, wname, cfg in it:
            if "error" in r:
                errors.append((wname, cfg, r["error"]))
                if len(errors) > 3:
                    break
                continue
            pw = per.setdefault(wname, dict(configs=0, states=0, transitions=0, merged=0))
            pw["configs"] += 1
            tot["configs"] += 1
            for k in ("states", "transitions", "merged"):
                tot[k] += r[k]
                pw[k] += r[k]
            tot["histories"] += r["histories"]
            tot["disabled"] += r["disabled"]
            tot["maxdepth"] = max(tot["maxdepth"], r["maxdepth"])
            if not r["complete"]:
                tot["complete"] = False
            if r["sample"] is not None and (pw["configs"] in (1, 7) or tot["configs"] % 97 == 0) and len(samples) < 14:
                samples.append("%s %s: history %s held; %d states, %d transitions from this configuration" % (
                    wname, _short(cfg), _short(r["sample"]), r["states"], r["transitions"]))
            viol.extend(r["violations"])
            if len(viol) >= 400:
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    tot["wall_s"] = time.time() - t0
    tot["jobs"] = len(jobs)
    return tot, per, viol, errors, samples


def bounds_of(jobs):
    """What was enumerated, in words, from the enumeration itself."""
    out = []
    for w in sorted(set(j[0] for j in jobs)):
        mine = [j for j in jobs if j[0] == w]
        vals = {}
        for _, cfg, _, _ in mine:
            for k, v in cfg.items():
                vals.setdefault(k, set()).add(json.dumps(v, default=str))
        txt = []
        for k in sorted(vals):
            if k == "depth":
                continue
            v = sorted(vals[k], key=lambda x: (len(x), x))
            txt.append("%s in {%s}" % (k, ", ".join(v)) if len(v) <= 8 else "%s: %d values from %s to %s" % (k, len(v), v[0], v[-1]))
        ds = sorted(set(j[2] for j in mine))
        out.append("%s: %d configurations (%s), every sequence of up to %s actions" % (
            w, len(mine), "; ".join(txt), "/".join(map(str, ds))))
    return " | ".join(out)


def _short(cfg):
    s = json.dumps(cfg, default=str, sort_keys=True)
    return s if len(s) < 160 else s[:157] + "..."


def canon(*arrays, digits=6):
    """Key from arrays rounded to `digits` significant decimals of their norm."""
    h = hashlib.sha1()
    for a in arrays:
        if isinstance(a, (str, int, bool, tuple)) or a is None:
            h.update(repr(a).encode())
        else:
            a = np.asarray(a)
            b = np.round(np.asarray(a, dtype=complex) * 10 ** digits).astype(np.complex64) + 0.0
            h.update(repr(a.shape).encode())
            h.update(np.ascontiguousarray(b).tobytes())
    return h.hexdigest()
