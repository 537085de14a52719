"""Scripts for truth and budget values."""

FIELDS = {"reset": [], "config": [], "setconfig": ["f", "c"], "truth": ["slot", "f", "c", "k"], "truthfc": ["slot", "f", "c"], "truthk": ["slot", "k"], "default": ["slot"],
          "look": ["slot"], "setw": ["slot", "wpos", "wt"], "fromw": ["slot", "wpos", "wt", "k"], "weigh": ["f", "c", "k"], "back": ["wpos", "wt", "k"],
          "and": ["*args"], "or": ["*args"], "orlist": ["*args"], "revision": ["*args", "how"], "deduction": ["slot", "*args"], "induction": ["slot", "*args"],
          "comparison": ["slot", "*args"], "project": ["slot", "of", "source", "current", "target", "decay", "scale", "plain"], "budget": ["slot", "*args"],
          "setbudget": ["*args"], "drop": ["slot"]}


def to_line(op):
    out = [op["op"]]
    for k in FIELDS[op["op"]]:
        if k[0] == "*":
            out += [str(x) for x in op[k[1:]]]
        else:
            out.append(str(op[k]))
    return "\t".join(out)


def pct(r, top=100):
    return r.choice([0, 1, 10, 50, 90, 99, 100, r.randint(0, 100), r.randint(0, 100), r.randint(0, 100)]) if top == 100 else min(top, r.choice([0, 1, 50, 90, 99, r.randint(0, 99), r.randint(0, 99)]))


def time_(r, top):
    return r.choice([0, 1, 5, 10, -1, -5, 100, -100, 999, 1000, r.randint(-top, top), r.randint(-50, 50)])


def project(r, s, of):
    scale = r.choice([1, 1, 1, 2 ** 31, 2 ** 33])
    plain = 1 if scale == 1 and r.random() < 0.5 else 0
    top = r.choice([20, 2000, 400000])
    t = [time_(r, top) for _ in range(3)]
    if r.random() < 0.15:
        t[2] = t[0]
    if r.random() < 0.15:
        t[1] = t[0]
    return {"op": "project", "slot": s, "of": of, "source": t[0], "current": t[1], "target": t[2], "decay": 1000 if plain else r.choice([0, 1, 5, 10, 1000, 100000]), "scale": scale, "plain": plain}


def script(r, n, focus):
    ops = [{"op": "reset"}, {"op": "config"}] if r.random() < 0.3 else [{"op": "reset"}]
    exact, other = set(), set()
    rules = {"revision": 4, "deduction": 4, "induction": 4, "comparison": 4, "project": 6, "and": 1, "or": 1, "orlist": 1}
    values = {"truthk": 1, "default": 1, "setconfig": 0.5, "look": 6, "setw": 3, "fromw": 3, "weigh": 3, "back": 3, "budget": 3, "setbudget": 0.5}
    w = {"truth": 5, "truthfc": 1, "drop": 0.5}
    for d, m in ((rules, 1 if focus == "rules" else 0.15), (values, 1 if focus == "values" else 0.15)):
        for k, v in d.items():
            w[k] = v * m
    slots = ["a", "b", "c", "d"]
    while len(ops) < n:
        o = r.choices(list(w), list(w.values()))[0]
        s = r.choice(slots)
        k = r.choice([2, 2, 1, 3, 4, 10, 20])
        h = sorted(exact)
        if o in ("truth", "truthfc", "truthk", "default"):
            op = {"op": o, "slot": s}
            if o in ("truth", "truthfc"):
                op.update(f=pct(r), c=pct(r, 99))
            if o in ("truth", "truthk"):
                op["k"] = k
            ops.append(op)
            exact.add(s)
            other.discard(s)
        elif o == "drop":
            ops.append({"op": o, "slot": s})
            exact.discard(s)
            other.discard(s)
        elif o == "look" and h:
            ops.append({"op": o, "slot": r.choice(h)})
        elif o == "setconfig":
            ops.append({"op": o, "f": pct(r), "c": pct(r, 99)})
        elif o == "setw" and h:
            s = r.choice(h)
            t = r.choice([0, 1, 100, 250, r.randint(0, 1000), r.randint(0, 100000)])
            ops.append({"op": o, "slot": s, "wt": t, "wpos": r.choice([0, t, r.randint(0, t)])})
            exact.discard(s)
        elif o in ("fromw", "back"):
            t = r.choice([0, 1, 100, 250, r.randint(0, 1000), r.randint(0, 100000)])
            op = {"op": o, "wt": t, "wpos": r.choice([0, t, r.randint(0, t)]), "k": k}
            if o == "fromw":
                op["slot"] = s
                exact.discard(s)
            ops.append(op)
        elif o == "weigh":
            ops.append({"op": o, "f": pct(r), "c": pct(r, 99), "k": k})
        elif o in ("and", "or", "orlist"):
            ops.append({"op": o, "args": [pct(r) for _ in range(r.randint(2, 4) if o != "orlist" else r.randint(0, 4))]})
        elif o == "revision" and h:
            a, b = r.choice(h), r.choice(h)
            ops.append({"op": o, "args": [a, b], "how": r.choice(["ref", "ptr"])})
            exact.discard(a)
        elif o in ("deduction", "induction", "comparison") and h:
            ops.append({"op": o, "slot": s, "args": [r.choice(h), r.choice(h)]})
            exact.discard(s)
        elif o == "project" and h:
            ops.append(project(r, s, r.choice(h)))
            exact.discard(s)
        elif o == "budget":
            ops.append({"op": o, "slot": r.choice(["x", "y"]), "args": [pct(r) for _ in range(r.randint(0, 3))]})
        elif o == "setbudget":
            ops.append({"op": o, "args": [pct(r) for _ in range(3)]})
    return ops
