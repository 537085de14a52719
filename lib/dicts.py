"""Scripts for dictionaries of names."""

FIELDS = {"reset": [], "universe": ["*names", "=|", "*keys"], "word": ["dict", "slot", "name"], "parse": ["dict", "slot", "name"], "anon": ["slot"], "alias": ["slot", "of"], "drop": ["slot"],
          "put": ["dict", "name", "key", "obj"], "again": ["dict", "name", "times"], "erase": ["dict", "name"], "remove": ["dict", "name"], "erasekey": ["dict", "key"],
          "removekey": ["dict", "key"], "removename": ["dict", "name"], "clear": ["dict"], "text": ["dict", "slot", "color"]}
NAMES = ["a", "b", "c", "x1", "{}", "%d", "a b", "q\"", ""]
WORDS = ["a", "b", "c", "x1"]
KEYS = ["1", "2", "3", "4294967297", "8589934593", "18446744073709551615", "0"]


def to_line(op):
    out = [op["op"]]
    for k in FIELDS[op["op"]]:
        if k[0] == "=":
            out.append(k[1:])
        elif k[0] == "*":
            out += [str(x) for x in op[k[1:]]]
        else:
            out.append(str(op[k]))
    return "\t".join(out)


def begin():
    return [{"op": "reset"}, {"op": "universe", "names": NAMES, "keys": KEYS}]


def from_history(h, r):
    ops = begin()
    for c in h:
        ops.append(dict(c, times=1) if c["op"] == "again" else c)
    return ops


def script(r, n, words=None):
    """Follows along which names are registered, as the calls need names that are (or are not)."""
    ops = begin()
    words = words or WORDS
    D = {"d1": {}, "d2": {}, "g": {}}      # name -> [key or None, atom, own, n]
    S, m = {}, [0]
    named = set()                          # atoms that are or were named

    def sweep():
        held = set(S.values())
        for d in D.values():
            for x in [x for x, e in d.items() if e[2] and e[1] not in held]:
                del d[x]
    w = dict(word=8, parse=2, anon=2, alias=2, drop=6, put=4, again=2, erase=4, remove=2, removename=2, erasekey=1, removekey=1, clear=0.4, text=3)
    while len(ops) < n:
        o = r.choices(list(w), list(w.values()))[0]
        d = r.choice(["d1", "d1", "d2", "g"])
        s = "s%d" % r.randrange(5)
        names = sorted(D[d])
        if o in ("word", "parse"):
            x = r.choice(words)
            if o == "parse":
                d = "g"
            if x in D[d] and not D[d][x][2]:
                continue
            ops.append({"op": o, "dict": d, "slot": s, "name": x})
            if x not in D[d]:
                m[0] += 1
                D[d][x] = [None, m[0], True, 1]
            S[s] = D[d][x][1]
        elif o == "anon":
            m[0] += 1
            S[s] = m[0]
            ops.append({"op": o, "slot": s})
        elif o == "alias" and S:
            x = r.choice(sorted(S))
            S[s] = S[x]
            ops.append({"op": o, "slot": s, "of": x})
        elif o == "drop" and S:
            s = r.choice(sorted(S))
            del S[s]
            ops.append({"op": o, "slot": s})
        elif o == "put":
            x = r.choice(NAMES)
            used = {e[0] for e in D[d].values()}
            k = r.choice(KEYS)
            cand = ["-"] + [q for q, a in S.items() if a not in named]
            obj = r.choice(cand)
            if x in D[d] or k in used or (d == "g" and x in WORDS):
                continue
            ops.append({"op": o, "dict": d, "name": x, "key": k, "obj": obj})
            D[d][x] = [k, S.get(obj, 0), False, 1]
        elif o in ("again", "erase", "remove", "removename") and names:
            x = r.choice(names)
            if o == "removename" and r.random() < 0.3:
                x = r.choice(NAMES)
            ops.append({"op": o, "dict": d, "name": x})
            if o == "again":
                ops[-1]["times"] = r.choice([1, 1, 1, 2, 300, 70000]) if r.random() < 0.2 else 1
                D[d][x][3] += ops[-1]["times"]
            elif o == "erase" and D[d][x][3] > 1:
                D[d][x][3] -= 1
            else:
                D[d].pop(x, None)
        elif o in ("erasekey", "removekey"):
            k = r.choice(KEYS)
            ops.append({"op": o, "dict": d, "key": k})
            for x in [x for x, e in D[d].items() if e[0] == k]:
                if o == "erasekey" and D[d][x][3] > 1:
                    D[d][x][3] -= 1
                else:
                    del D[d][x]
        elif o == "clear":
            ops.append({"op": o, "dict": d})
            D[d] = {}
        elif o == "text" and S:
            ops.append({"op": o, "dict": d, "slot": r.choice(sorted(S)), "color": r.randrange(2)})
        sweep()
        for y in D.values():
            for e in y.values():
                if e[2]:
                    named.add(e[1])
    return ops
