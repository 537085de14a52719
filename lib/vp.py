"""Builds the drivers from /repo's working tree, runs scripts through them, validates traces with TLC."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JOBS = 8
JAR = "/opt/veriftools/tla/tla2tools.jar"


class Broken(Exception):
    """The check itself could not do its work."""


# ----------------------------------------------------------------------------- building

def includes():
    inc = [REPO, REPO + "/Narsese", REPO + "/Narsese/Parser", REPO + "/Interpreter", REPO + "/utils"]
    out = subprocess.run(["python3-config", "--includes"], capture_output=True, text=True).stdout.split()
    return ["-I" + d for d in inc] + out


BASE = ["-std=c++20", "-DFMT_CONSTEVAL=", "-w"]
CXX = "clang++"
SAN = ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,function", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
PLAIN = ["-O1"]


def lib_sources():
    pats = ["Narsese/src/*.cpp", "Narsese/Parser/*.cpp", "Interpreter/src/*.cpp", "utils/*.cpp", "Config.cpp", "Global.cpp"]
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(REPO, p)))
    return out


def compile_all(units, flags, outdir):
    """units: list of (source, extra flags); returns the objects."""
    os.makedirs(outdir, exist_ok=True)
    jobs = []
    for n, (src, extra) in enumerate(units):
        obj = os.path.join(outdir, "%d_%s.o" % (n, os.path.basename(src)))
        jobs.append(([CXX] + BASE + flags + extra + includes() + ["-I" + HARNESS, "-c", src, "-o", obj], obj))

    def one(job):
        r = subprocess.run(job[0], capture_output=True, text=True)
        if r.returncode != 0:
            raise Broken("compilation failed: %s\n%s" % (" ".join(job[0]), "\n".join([x for x in r.stderr.split("\n") if "error" in x][:10])))
        return job[1]
    # the biggest first
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, jobs))


def link(objs, out, flags):
    cmd = [CXX] + flags + objs + ["-lfmt"] + subprocess.run(["python3-config", "--embed", "--ldflags"], capture_output=True, text=True).stdout.split() + ["-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("link failed: %s\n%s" % (" ".join(cmd), "\n".join([x for x in r.stderr.split("\n") if "error" in x][:10])))
    return out


def build(drivers, work, sanitize=True, lib=True):
    """drivers: {name: [source files in harness]} -> {name: executable}"""
    flags = SAN if sanitize else PLAIN
    units, owner = [], []
    for name, srcs in drivers.items():
        for s in srcs:
            found = sorted(glob.glob(os.path.join(REPO, s[1:]))) if s[0] == "@" else [os.path.join(HARNESS, s)]
            units += [(x, []) for x in found]
            owner += [name] * len(found)
    if lib:
        for s in lib_sources():
            units.append((s, []))
            owner.append(None)
    objs = compile_all(units, flags, os.path.join(work, "obj"))
    shared = [o for o, w in zip(objs, owner) if w is None]
    return {name: link([o for o, w in zip(objs, owner) if w == name] + shared, os.path.join(work, name), flags) for name in drivers}


def build_module(work):
    """The Python module, into work/py; returns the command to run Python with it."""
    flags = SAN + ["-shared-libasan"]
    objs = compile_all([(s, []) for s in [REPO + "/Narsese.cpp"] + lib_sources()], flags + ["-fPIC", "-fvisibility=hidden"], os.path.join(work, "pyobj"))
    os.makedirs(os.path.join(work, "py"), exist_ok=True)
    suffix = subprocess.run(["python3-config", "--extension-suffix"], capture_output=True, text=True).stdout.strip()
    out = os.path.join(work, "py", "narsese" + suffix)
    cmd = [CXX, "-shared"] + flags + objs + ["-lfmt", "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("link failed: " + "\n".join([x for x in r.stderr.split("\n") if "error" in x][:10]))
    runtime = subprocess.run([CXX, "-print-file-name=libclang_rt.asan-x86_64.so"], capture_output=True, text=True).stdout.strip()
    return ["/usr/bin/env", "PYTHONPATH=" + os.path.dirname(out), "PYTHONDONTWRITEBYTECODE=1", "PYTHONMALLOC=malloc", "PYTHONHASHSEED=0", "LD_PRELOAD=" + runtime, "/usr/bin/python3"]


# ----------------------------------------------------------------------------- running

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=190:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=0:exitcode=77", LC_ALL="C", PYTHONDONTWRITEBYTECODE="1")


def run_lines(cmd, lines, timeout=120, env=None):
    """Feed the lines, return (answers, status): status 'ok', 'crash', 'hang'."""
    data = ("\n".join(lines) + "\n").encode("latin-1")
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENV, start_new_session=True)
    status, err = "ok", b""
    try:
        out, err = p.communicate(data, timeout=timeout)
        if p.returncode != 0:
            status = "crash"
    except subprocess.TimeoutExpired:
        status = "hang"
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
    if p.returncode == 99:
        raise Broken("driver rejected a command: " + err.decode(errors="replace")[-500:])
    answers = []
    for ln in out.decode("utf-8", errors="replace").split("\n"):
        if ln:
            try:
                answers.append(json.loads(ln))
            except ValueError:
                if status == "ok":
                    raise Broken("driver printed %r" % ln[:300])
                break
    return answers, status, err.decode(errors="replace")


def execute(cmd, script, to_line, fresh=None, timeout=120, env=None, ending=True):
    """Run a script (list of operations) through a driver; returns its trace (list of events)."""
    lines, where = [], []
    for j, op in enumerate(script):
        if op["op"] == "fresh":
            continue
        lines.append(to_line(op))
        where.append(j)
    answers, status, err = run_lines(cmd, lines, timeout, env)
    got = {}
    for m, a in zip(where, answers):
        got[m] = a
    trace = []
    for j, op in enumerate(script):
        if op["op"] == "fresh":
            trace.append(merge(op, fresh(op)))
        elif j in got:
            trace.append(merge(op, got[j]))
        else:
            trace.append(merge(op, {"res": status if status != "ok" else "silent"}))
            return trace, err
    if ending:
        extra = answers[len(lines):]
        if extra and status == "ok":
            trace.append(merge({"op": "end"}, extra[0]))
        else:
            trace.append({"op": "end", "res": status if status != "ok" else "silent", "left": 0 - 1})
    elif status != "ok":
        trace.append({"op": "end", "res": status, "left": 0 - 1})
    return trace, err


ANSI = re.compile(r"\x1b\[[0-9;]*m")


def plain(s):
    return ANSI.sub("", s)


def merge(op, ans):
    e = {k: v for k, v in op.items() if not k.startswith("_")}
    e.update(ans)
    for c, p in (("cterm", "pterm"), ("csent", "psent"), ("ctask", "ptask")):
        if c in e:
            e[p] = plain(e.pop(c))
    e.pop("what", None)
    return e


# ----------------------------------------------------------------------------- TLC

def tlc(module, cfg, work, env=None, workers=1, extra=None, timeout=800, heap="2g"):
    """Run TLC on spec/<module>.tla with the given configuration text; returns the output."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=work)
    for f in glob.glob(os.path.join(SPEC, "*.tla")):
        shutil.copy(f, d)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-Xmx" + heap, "-Xss512m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
           "-cp", JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-config", "run.cfg", "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", "-workers", str(workers)] + (extra or []) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + module)
    finally:
        pass
    out = r.stdout + r.stderr
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, out


def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))


def errors_of(out):
    """What TLC says went wrong, without the states."""
    keep, on = [], False
    if "Parsing or semantic" in out:
        return out[-3000:]
    for ln in out.split("\n"):
        if ln.startswith("Error:") or "xception" in ln:
            on = True
        elif ln.startswith("State ") or ln.startswith("/\\ "):
            on = False
        if on:
            keep.append(ln)
    return "\n".join(keep)[-6000:] or out[-2000:]


def validate(module, prop, trace, work, name):
    """Returns (accepted, matched, states)."""
    path = os.path.join(work, name + ".ndjson")
    with open(path, "w") as f:
        for e in trace:
            f.write(json.dumps(e) + "\n")
    cfg = "SPECIFICATION Spec\nCONSTANT Property = \"%s\"\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n" % prop
    code, out = tlc(module, cfg, work, env={"TRACE": path})
    m = re.search(r"MATCHED (\d+) OF (\d+)", out)
    if not m:
        # an event the specification cannot make sense of (a member that is missing, a value outside of every case) is no step of it
        at = re.findall(r"^/\\ l = (\d+)$", out, re.M)
        if at and code in (11, 12, 13, 75, 151, 255) and "OutOfMemory" not in out and "StackOverflow" not in out and "imeout" not in out:
            os.remove(path)
            return False, int(at[-1]) - 1, stats(out)[1]
        raise Broken("TLC failed on a trace (%s, code %d):\n%s" % (path, code, errors_of(out)))
    matched, total = int(m.group(1)), int(m.group(2))
    if total != len(trace):
        raise Broken("TLC read %d of %d events" % (total, len(trace)))
    os.remove(path)
    return matched == total, matched, stats(out)[1]
