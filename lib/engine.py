"""The engine of the checks: model checking, running scripts through the real code, validating the traces."""
import concurrent.futures as cf
import json
import os
import random
import shutil
import sys
import tempfile
import threading
import time

import vp
from vp import VERIF, Broken

CHUNK_EVENTS = 1500


class Driver:
    """How scripts are run: the executable (or a Python program), its command lines, its trace specification."""

    def __init__(self, module, to_line, sources=None, fresh=False, python=None, sanitize=True, units=None):
        self.module, self.to_line, self.sources, self.fresh, self.python, self.sanitize = module, to_line, sources, fresh, python, sanitize


class Ctx:
    def __init__(self, pid, tier, seed, drivers):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.thorough = tier == "thorough"
        self.drivers = drivers
        self.work = tempfile.mkdtemp(prefix="cnars_%s_" % pid)
        self.scripts = []       # (driver name, ops)
        self.models = []        # reports of model checking
        self.states = self.transitions = 0
        self.exe = {}
        self.notes = []
        self.lock = threading.Lock()

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- model checking
    def model(self, module, constants, invariants=(), properties=(), extra="", simulate=None, workers=4, timeout=600, name=""):
        """Model-check; the specification must satisfy its properties.  Returns TLC's output."""
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + extra + "\n"
        if invariants:
            cfg += "INVARIANTS " + " ".join(invariants) + "\n"
        if properties:
            cfg += "PROPERTIES " + " ".join(properties) + "\n"
        if constants:
            cfg += "CONSTANTS\n" + "".join(" %s = %s\n" % x for x in constants.items())
        ext = None
        if simulate:
            num, depth = simulate
            ext = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)]
            workers = 1
        t = time.time()
        code, out = vp.tlc(module, cfg, self.work, workers=workers, extra=ext, timeout=timeout, heap="4g")
        if code != 0:
            raise Broken("the specification %s does not satisfy its own properties:\n%s" % (module, vp.errors_of(out)))
        gen, distinct = vp.stats(out)
        with self.lock:
            self.transitions += gen
            self.states += distinct
            self.models.append({"module": module, "checked": list(invariants) + list(properties), "constants": constants, "mode": "simulate" if simulate else "exhaustive",
                                "distinct_states": distinct, "states_generated": gen, "wall_s": round(time.time() - t, 1)})
        return out

    @staticmethod
    def printed(out, tag):
        res = []
        for ln in out.split("\n"):
            ln = ln.strip().strip('"')
            if ln.startswith(tag + " "):
                res.append(json.loads(ln[len(tag) + 1:].replace('\\"', '"').replace("\\\\", "\\")))
        return res

    def add(self, driver, ops):
        self.scripts.append((driver, ops))

    # -- running
    def fresh_runner(self, name):
        d = self.drivers[name]

        def fresh(op):
            ans, status, _ = vp.run_lines(self.exe[name], [d.to_line({"op": "reset"}), d.to_line(op)], 60)
            return ans[1] if len(ans) > 1 else {"res": status if status != "ok" else "silent"}
        return fresh

    def run(self, name, ops):
        d = self.drivers[name]
        return vp.execute(self.exe[name], ops, d.to_line, fresh=self.fresh_runner(name), timeout=60)

    def judge(self, name, trace, label):
        return vp.validate(self.drivers[name].module, self.pid, trace, self.work, label)


def chunks_of(scripts):
    by = {}
    for name, ops in scripts:
        by.setdefault(name, []).append(ops)
    out = []
    for name, lst in by.items():
        total = sum(len(o) for o in lst)
        n = max(1, -(-total // CHUNK_EVENTS))
        n = -(-n // vp.JOBS) * vp.JOBS if total > 300 else 1
        size = total / n
        cur, acc = [], 0
        for o in lst:
            cur.append(o)
            acc += len(o)
            if acc >= size:
                out.append((name, cur))
                cur, acc = [], 0
        if cur:
            out.append((name, cur))
    return out


def flat(lst):
    return [e for ops in lst for e in ops]


def work_chunk(ctx, k, name, lst):
    """None if the trace is accepted, else (index of the script, event, outcome)."""
    ops = flat(lst)
    trace, err = ctx.run(name, ops)
    ok, matched, states = ctx.judge(name, trace, "chunk%d" % k)
    return ok, matched, states, trace, err


def locate(lst, m):
    for j, ops in enumerate(lst):
        if m < len(ops):
            return j, m
        m -= len(ops)
    return len(lst) - 1, len(lst[-1])      # the end of the run


def confirm(ctx, name, lst, matched):
    """Re-run: the single script, else the whole chunk.  Returns (ops, matched, trace, stderr) or None."""
    j, _ = locate(lst, matched)
    one = [lst[j]] * 2 if len(lst) > 1 else []
    for ops in one + [flat(lst[:j + 1])] * 2 + [flat(lst)] * 4:   # the addresses of objects, and so the order of sets, differ from run to run
        trace, err = ctx.run(name, ops)
        ok, m, _ = ctx.judge(name, trace, "again")
        if not ok:
            return ops, m, trace, err
    return None


def kind(e):
    return e.get("op"), e.get("res")


def shrink(ctx, name, ops, m, rejected, budget=25):
    """Drop what comes before, while a rejection of the same kind stays.  Bounded effort."""
    best = (ops, m)
    t = time.time()
    head = [o for o in ops[:3] if o["op"] in ("reset", "mode", "universe", "max", "duration")]
    step = max(1, m // 2)
    while step >= 1 and time.time() - t < budget:
        cur, at = best
        body = cur[len(head):at + 1]
        done = True
        j = 0
        while j < len(body) - 1 and time.time() - t < budget:
            cand = head + body[:j] + body[j + step:] if j + step < len(body) else None
            if cand:
                try:
                    trace, _ = ctx.run(name, cand)
                    ok, mm, _ = ctx.judge(name, trace, "shrink")
                    ok = ok or mm >= len(trace) or kind(trace[mm]) != kind(rejected)     # may refer to what was dropped
                except Broken:
                    ok = True
                if not ok and mm < len(cand):
                    best = (cand, mm)
                    body = cand[len(head):mm + 1]
                    done = False
                    continue
            j += step
        if done:
            step //= 2
    return best


def build_drivers(ctx, names):
    native, plain = {}, {}
    for n in names:
        d = ctx.drivers[n]
        if d.python:
            ctx.exe[n] = vp.build_module(ctx.work) + [os.path.join(vp.HARNESS, d.python)]
        else:
            (native if d.sanitize else plain)[n] = d.sources
    if native:
        for n, path in vp.build(native, ctx.work, sanitize=True).items():
            ctx.exe[n] = [path]
    if plain:
        for n, path in vp.build(plain, os.path.join(ctx.work, "plain"), sanitize=False).items():
            ctx.exe[n] = [path]


def known(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % pid):
                out.append(ln)
    return out


def check(prop, pid, tier, seed, drivers):
    t0 = time.time()
    ctx = Ctx(pid, tier, seed, drivers)
    try:
        ex = cf.ThreadPoolExecutor(2)
        building = ex.submit(build_drivers, ctx, prop.drivers)
        try:
            prop.prepare(ctx)
        finally:
            building.result()
        t1 = time.time()
        chunks = chunks_of(ctx.scripts)
        bad, states, validated, events = None, 0, 0, 0
        ops_seen, outcomes, sizes = {}, {}, set()
        with cf.ThreadPoolExecutor(vp.JOBS) as pool:
            todo = {pool.submit(work_chunk, ctx, k, n, lst): (n, lst) for k, (n, lst) in enumerate(chunks)}
            for f in cf.as_completed(todo):
                n, lst = todo[f]
                if f.cancelled():
                    continue
                ok, matched, st, trace, err = f.result()
                states += st
                events += len(trace)
                for e in trace:
                    ops_seen[e["op"]] = ops_seen.get(e["op"], 0) + 1
                    key = e["op"] + "/" + str(e.get("res"))
                    outcomes[key] = outcomes.get(key, 0) + 1
                    if "text" in e and e.get("res") in ("ok", "rej"):
                        sizes.add(e["text"])
                if ok:
                    validated += len(lst)
                elif bad is None:
                    bad = (n, lst, matched)
                    for g in todo:
                        g.cancel()
        violations = 0
        if bad:
            n, lst, matched = bad
            again = confirm(ctx, n, lst, matched)
            if again is None:
                raise Broken("a rejected trace was accepted when the script was run again")
            ops, m, trace, err = again
            if m < len(ops):
                ops, m = shrink(ctx, n, ops, m, trace[m], 20 if not ctx.thorough else 60)
                trace, err = ctx.run(n, ops)
            violations = 1
            outdir = os.path.join(VERIF, "out")
            os.makedirs(outdir, exist_ok=True)
            replay = os.path.join(outdir, "%s.replay.json" % pid)
            with open(replay, "w") as f:
                json.dump({"property": pid, "driver": n, "module": drivers[n].module, "rejected_at": m, "ops": ops[:m + 1],
                           "rejected_event": trace[m] if m < len(trace) else None, "stderr": err[-3000:]}, f, indent=1)
            ev = trace[m] if m < len(trace) else {}
            print("rejected by %s at event %d: %s" % (drivers[n].module, m, json.dumps(ev)[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, replay))
        evidence = {
            "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": ctx.states + states, "transitions": ctx.transitions + events,
                "traces_validated_against_impl": validated,
                "samples": [{"driver": n, "script": ops[:12]} for n, ops in ctx.scripts[:: max(1, len(ctx.scripts) // 4)][:4]],
                "models": ctx.models, "scripts": len(ctx.scripts), "events": events, "events_by_call": ops_seen, "outcomes": outcomes,
                "distinct_inputs_parsed": len(sizes), "notes": ctx.notes},
            "assumptions": prop.assumptions, "wall_s": round(time.time() - t0, 1), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        print("%s %s: %d model states, %d scripts, %d events validated, %.0f s (%.0f s preparing)" % (
            pid, "VIOLATED" if violations else "holds", ctx.states, len(ctx.scripts), events, time.time() - t0, t1 - t0))
        return 1 if violations else 0
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
