"""Scripts for trees of variable positions."""

FIELDS = {"reset": [], "create": ["slot"], "clone": ["slot", "of"], "alias": ["slot", "of"], "connect": ["slot", "of", "take"], "add": ["slot", "value", "*path"],
          "remove": ["slot", "*path"], "set": ["slot", "nth", "value"], "build": ["slot"], "rebuild": ["slot"], "norm": ["slot"], "hash": ["slot"], "equal": ["slot", "of"], "drop": ["slot"]}


def to_line(op):
    out = [op["op"]]
    for k in FIELDS[op["op"]]:
        if k[0] == "*":
            out += [str(x) for x in op[k[1:]]]
        else:
            out.append(str(op[k]))
    return "\t".join(out)


class Node:
    def __init__(self):
        self.succ, self.own = [], 0

    def count(self):
        return sum(x.count() for x in self.succ) if self.succ else self.own

    def paths(self):
        return [[j] + p for j, x in enumerate(self.succ) for p in x.paths()] if self.succ else [[]]

    def reach(self):
        out = [self]
        for x in self.succ:
            out += x.reach()
        return out

    def at(self, p):
        return self if not p else self.succ[p[0]].at(p[1:])


def script(r, n):
    ops, S = [{"op": "reset"}], {}
    many = r.random() < 0.4
    fresh = set()        # handles rebuilt since anything changed

    def judge(s):
        ops.append({"op": "rebuild", "slot": s})
        for x in r.sample(["norm", "hash", "norm"], r.randint(0, 3)):
            ops.append({"op": x, "slot": s})
        fresh.add(s)
    while len(ops) < n:
        o = r.choice(["create", "create", "create", "clone", "connect", "connect", "connect", "add", "add", "add", "remove", "set", "set", "build", "rebuild", "norm", "hash", "equal", "drop", "alias"])
        s = "n%d" % r.randrange(6)
        h = sorted(S)
        v = r.choice([0, 1, 2, 3, 7, -1, -5, 100, 2147483647] if not many else list(range(-6, 24)))
        if o == "create":
            if r.random() < 0.5 and s in S:
                continue
            S[s] = Node()
            ops.append({"op": o, "slot": s})
            fresh.discard(s)
            if r.random() < 0.7:
                ops.append({"op": "add", "slot": s, "value": v, "path": []})
                S[s].own = 1
        elif not h:
            continue
        elif o in ("clone", "alias"):
            x = r.choice(h)
            if o == "clone":
                judge(x)
                new = Node()
                new.own = S[x].count()
                S[s] = new
            else:
                S[s] = S[x]
            ops.append({"op": o, "slot": s, "of": x})
            fresh.discard(s)
        elif o == "connect":
            f, x = r.choice(h), r.choice(h)
            if S[f].own or S[f] in S[x].reach() or S[x].count() + S[f].count() > 40 or len(S[x].paths()) > 40 or any(len(p) > 6 for p in S[x].paths()):
                continue
            S[f].succ.append(S[x])
            ops.append({"op": o, "slot": f, "of": x, "take": r.randrange(2)})
            fresh.clear()
        elif o in ("add", "remove"):
            x = r.choice(h)
            p = r.choice(S[x].paths())
            node = S[x].at(p)
            if o == "add":
                if node.own > 3 and p:
                    continue
                node.own = 1 if not p else node.own + 1
                ops.append({"op": o, "slot": x, "value": v, "path": p})
            else:
                node.own = 0
                ops.append({"op": o, "slot": x, "path": p})
            fresh.clear()
            if r.random() < 0.4:
                judge(x)
        elif o == "set":
            x = r.choice(h)
            if S[x].count():
                if x not in fresh:
                    judge(x)
                ops.append({"op": o, "slot": x, "nth": r.randint(1, S[x].count()), "value": v})
                fresh.clear()
                if r.random() < 0.6:
                    judge(r.choice(h))
        elif o == "rebuild":
            judge(r.choice(h))
        elif o in ("build", "norm", "hash"):
            ops.append({"op": o, "slot": r.choice(h)})
        elif o == "equal":
            ops.append({"op": o, "slot": r.choice(h), "of": r.choice(h)})
        elif o == "drop":
            x = r.choice(h)
            del S[x]
            fresh.discard(x)
            ops.append({"op": o, "slot": x})
    return ops
