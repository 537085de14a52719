"""Scripts of calls of the Python module.  Handles are named by what they hold: t terms, k tasks, s sentences, v truth values, b budgets, i iterators."""
import json

import gen

WRONG = 42          # how many calls harness/pydrv.py knows that cannot be meant


def to_line(op):
    return json.dumps({k: v for k, v in op.items() if k not in ("tk",) and not k.startswith("_")})


def truth_values(r):
    v = [r.choice([0, 1, 5, 500, 999, 1000, r.randint(0, 1000)]), r.choice([1, 500, 900, 999, r.randint(1, 999)])]
    return v + ([r.choice([1000, 2000, 500, 1500, 7000, 1999000])] if r.random() < 0.5 else [])


def script(r, n, words=("a", "b", "c", "bird", "x1")):
    g = gen.Gen(r, variables=0.25)
    ops = [{"op": "reset"}]
    have = {c: set() for c in "tksvbi"}

    def slot(c, k=4):
        s = c + str(r.randrange(k))
        have[c].add(s)
        return s

    def some(c):
        return r.choice(sorted(have[c])) if have[c] else c + "9"

    def parse():
        tk = g.sentence(r.choice([1, 2, 3]), budget=0.3, tense=0.3, truth=0.4)
        if r.random() < 0.15:
            tk = g.mutate(tk)
        return gen.parse_op(slot("k"), tk, r)

    while len(ops) < n:
        x = r.random()
        if x < 0.16 or not have["k"]:
            o = parse()
            if not gen.lexable(o["tk"]):
                continue
        elif x < 0.22:
            o = {"op": "word", "slot": slot("t", 6), "name": r.choice(words)}
        elif x < 0.23:
            o = {"op": "anon", "slot": slot("t", 6)}
        elif x < 0.30:
            o = {"op": "termof", "of": some("k"), "slot": slot("t", 6)}
        elif x < 0.38:
            if not have["t"]:
                continue
            o = {"op": "stmt", "copula": r.choice(gen.COPULAS), "args": [some("t"), some("t")], "slot": slot("t", 6)}
        elif x < 0.48:
            if not have["t"]:
                continue
            c = r.choice(gen.CONNECTORS + gen.COMMUTATIVE + ["&", "|", "{", "[", "#"])
            o = {"op": "cmp", "connector": c, "args": [some("t") for _ in range(2 if c in "-~" else 1 if c == "--" else r.choice([0, 1, 2, 2, 3]))], "slot": slot("t", 6)}
        elif x < 0.56:
            o = {"op": r.choice(["subject", "predicate"]), "of": some("t"), "slot": slot("t", 6)}
        elif x < 0.61:
            o = {"op": "iter", "of": some("t"), "slot": slot("i", 3)}
        elif x < 0.71:
            o = {"op": "next", "of": some("i"), "slot": slot("t", 6)}
        elif x < 0.75:
            o = {"op": "sentenceof", "of": some("k"), "slot": slot("s", 3)}
        elif x < 0.79:
            o = {"op": "sentence", "term": some("t"), "mark": r.choice(".?!@"), "truth": "" if r.random() < 0.3 else some("v"), "named": r.random() < 0.5, "slot": slot("s", 3)}
        elif x < 0.83:
            o = {"op": "truth", "values": truth_values(r), "named": r.random() < 0.5, "slot": slot("v", 3)}
        elif x < 0.86:
            k = r.randint(0, 3)
            o = {"op": "budget", "values": [r.randint(0, 1000) for _ in range(k)], "named": r.sample(["p", "d", "q"], k) if r.random() < 0.5 else [], "slot": slot("b", 3)}
            o["values"] = o["values"] if not o["named"] else o["values"][:len(o["named"])]
        elif x < 0.88:
            # a truth value a sentence refers to stays as it is
            s = some("b")
            o = {"op": "set", "slot": s, "field": r.choice("pdq"), "value": r.randint(0, 1000)}
        elif x < 0.89:
            o = {"op": "quality", "of": some("v")}
        elif x < 0.96:
            o = {"op": "show", "slot": some(r.choice("tktksvb"))}
            if o["slot"][0] == "v" and False:
                continue
        elif x < 0.97:
            o = {"op": "wrong", "which": r.randrange(WRONG)}
        else:
            s = some(r.choice("tktksvbi"))
            have[s[0]].discard(s)
            o = {"op": "drop", "slot": s}
        ops.append(o)
    return ops


def values(r, n):
    """Truth values and budgets, set and read."""
    ops = [{"op": "reset"}]
    for _ in range(n):
        v, b = "v%d" % r.randrange(2), "b%d" % r.randrange(2)
        ops.append({"op": "truth", "values": truth_values(r), "named": r.random() < 0.5, "slot": v})
        ops.append({"op": "quality", "of": v})
        f = r.choice("fck")
        ops.append({"op": "set", "slot": v, "field": f, "value": r.choice([1000, 2000, 2500, 1999000]) if f == "k" else r.choice([0, 1, 500, 1000, r.randint(0, 1000)])})
        ops += [{"op": "quality", "of": v}, {"op": "show", "slot": v}]
        k = r.randint(0, 3)
        ops.append({"op": "budget", "values": [r.choice([0, 1000, r.randint(0, 1000)]) for _ in range(k)], "named": r.sample(["p", "d", "q"], k) if r.random() < 0.5 else [], "slot": b})
        ops.append({"op": "set", "slot": b, "field": r.choice("pdq"), "value": r.choice([0, 1000, r.randint(0, 1000)])})
        ops.append({"op": "show", "slot": b})
    return ops


def all_parts(tk, text):
    """Parse, hold on to the components only, and look at them."""
    ops = [{"op": "reset"}, {"op": "parse", "slot": "k0", "text": text, "tk": list(tk)}, {"op": "termof", "of": "k0", "slot": "t0"}, {"op": "drop", "slot": "k0"},
           {"op": "iter", "of": "t0", "slot": "i0"}, {"op": "iter", "of": "t0", "slot": "i1"}, {"op": "next", "of": "i1", "slot": "t1"},
           {"op": "subject", "of": "t0", "slot": "t2"}, {"op": "predicate", "of": "t0", "slot": "t3"}, {"op": "drop", "slot": "t0"}]
    for j in range(4):
        ops.append({"op": "next", "of": "i0", "slot": "t%d" % (4 + j % 2)})
        ops.append({"op": "show", "slot": "t%d" % (4 + j % 2)})
    for s in ("t1", "t2", "t3", "t4", "t5"):
        ops.append({"op": "show", "slot": s})
        ops.append({"op": "iter", "of": s, "slot": "i2"})
        ops.append({"op": "next", "of": "i2", "slot": "t0"})
    return ops
