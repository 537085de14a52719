"""Random sessions with the term API.  A light shadow of the kinds keeps the calls meaningful."""
import gen

NAMES = ["a", "b", "c", "d", "e", "bird", "x1", "_", "tim", "%d", "{}", "a b", ""]
LONG = ["abcdefghijklmnop" * n + x for n in (1, 2, 8) for x in ("", "x", "y")]


class Session:
    def __init__(self, rng, slots=6, names=None, weights=None, parser=True, mode="full", variables=0.3, setvar=False, connectors=None):
        self.r = rng
        self.slots = ["s%d" % j for j in range(slots)]
        self.kind = {}          # slot -> kind or "?" when unknown
        self.names = names or NAMES[:9]
        self.w = dict(word=4, var=2, intv=1, stmt=4, cmp=6, cmpin=0, stmtin=0, shallow=0.4, clone=2, alias=1, sub=2, drop=3, parse=2, anon=0.3, anonop=0.2, reparse=0)
        self.w.update(weights or {})
        if self.w["cmpin"] and "stmtin" not in (weights or {}):
            self.w["stmtin"] = self.w["cmpin"] / 2
        if not parser:
            self.w["parse"] = self.w["reparse"] = 0
        if setvar:
            self.w.setdefault("setvar", 2)
        self.g = gen.Gen(rng, words=["a", "b", "c", "go"], variables=variables)
        self.tasks = set()
        self.depth = {}
        self.setvar = setvar
        self.connectors = connectors or gen.CONNECTORS + gen.COMMUTATIVE + ["&", "|", "{", "[", "#"]

    def held(self):
        return sorted(self.kind)

    def free(self):
        return self.r.choice(self.slots)

    def fill(self, s, kind, depth):
        self.kind[s] = kind
        self.depth[s] = depth
        self.tasks.discard(s)

    def shallow(self, limit=4):
        return [s for s in self.held() if self.depth[s] < limit]

    def step(self):
        """One operation, or None."""
        r = self.r
        op = r.choices(list(self.w), list(self.w.values()))[0]
        s = self.free()
        held = self.held()
        if op == "word":
            n = r.choice(self.names) if r.random() < 0.94 else r.choice(LONG)
            self.fill(s, "op" if n[:1] == "^" else "atom", 0)
            return {"op": "word", "slot": s, "name": n}
        if op in ("anon", "anonop"):
            self.fill(s, "atom" if op == "anon" else "op", 0)
            return {"op": op, "slot": s}
        if op == "intv":
            self.fill(s, "int", 0)
            return {"op": "intv", "slot": s, "value": r.choice([0, 1, 2, 5, -3]) if r.random() < 0.9 else r.choice([10, 127, 128, 255, 256, 65536, -70000, 2147483647])}
        if op == "var":
            self.fill(s, "var", 0)
            return {"op": "var", "slot": s, "kind": r.choice(["ivar", "dvar", "qvar"]), "value": r.choice([0, 1, 2, 3, 7]) if r.random() < 0.9 else r.choice([9, 10, 12, 255, 256, 70000, 2147483647])}
        if op == "parse":
            tk = self.g.sentence(r.choice([1, 2]), budget=0.1, tense=0.1, truth=0.2) if r.random() < 0.93 else self.g.unusual()
            self.fill(s, "?", 3)
            self.tasks.add(s)
            return gen.parse_op(s, tk, r, parser=r.choice(["p", "q"]))
        if not held:
            return None
        if op in ("stmt", "stmtin"):
            c = self.shallow()
            if not c:
                return None
            x, y = r.choice(c), r.choice(c)
            d = 1 + max(self.depth[x], self.depth[y])
            self.fill(s, "stmt", d)
            return {"op": op, "slot": s, "copula": r.choice(gen.COPULAS), "args": [x, y]}
        if op in ("cmp", "cmpin"):
            c = self.shallow()
            if not c:
                return None
            con = r.choice(self.connectors)
            if con in ("-", "~"):
                n = 2
            elif con == "--":
                n = 1
            else:
                n = r.randint(1, 4) if r.random() < 0.88 else r.choice([0, 5, 8, 12])
            args = [r.choice(c) for _ in range(n)]
            d = 1 + max([self.depth[x] for x in args] or [0])
            self.fill(s, "cmp", d)
            return {"op": op, "slot": s, "connector": con, "args": args, "way": r.choice(["vec", "vec", "list", "terms", "init", "one" if n == 1 else "init"])}
        if op in ("clone", "alias"):
            x = r.choice(held)
            self.fill(s, self.kind[x], self.depth[x])
            return {"op": op, "slot": s, "of": x}
        if op == "shallow":
            c = [x for x in held if self.kind[x] in ("stmt", "cmp", "?")]
            if not c:
                return None
            x = r.choice(c)
            self.fill(s, self.kind[x], self.depth[x])
            return {"op": "shallow", "slot": s, "of": x}
        if op == "sub":
            c = [x for x in held if self.kind[x] in ("stmt", "cmp", "?")]
            if not c:
                return None
            x = r.choice(c)
            n = r.choice([1, 2]) if self.kind[x] == "stmt" else r.choice([1, 1, 2, 2, 3])
            self.fill(s, "?", max(0, self.depth[x] - 1))
            return {"op": "sub", "slot": s, "of": x, "nth": n}
        if op == "drop":
            x = r.choice(held)
            del self.kind[x]
            self.tasks.discard(x)
            return {"op": "drop", "slot": x}
        if op == "reparse":
            c = sorted(self.tasks & set(held))
            if not c:
                return None
            x = r.choice(c)
            self.fill(s, "?", 3)
            self.tasks.add(s)
            return {"op": "reparse", "slot": s, "from": x, "parser": "p"}
        if op == "setvar":
            c = [x for x in held if self.kind[x] in ("var", "?")]
            if not c:
                return None
            return {"op": "setvar", "slot": r.choice(c), "value": r.choice([0, 1, 2, 3, 4, 9]) if r.random() < 0.9 else r.choice([12, 255, 256, 70000])}

    def script(self, n, mode, after=None):
        out = [{"op": "reset"}, {"op": "mode", "mode": mode}]
        while len(out) < n:
            o = self.step()
            if o is not None:
                out.append(o)
                if after:
                    out += after(self, o)
        return out
