"""Scripts for evidential bases, stamps and the clock."""


def to_line(op):
    o = op["op"]
    f = {"reset": [], "show": [], "now": [], "max": ["value"], "duration": ["value"], "time": ["unit", "value"], "new": ["slot", "unit"], "make": ["slot", "*elems"],
         "share": ["slot", "*elems"], "copy": ["slot", "of"], "assign": ["slot", "of"], "alias": ["slot", "of"], "merge": ["slot", "*args"], "into": ["slot", "*args"],
         "extend": ["slot", "*args"], "add": ["slot", "id"], "overlap": ["*args"], "hash": ["slot"], "drop": ["slot"], "stamp": ["slot", "unit", "eternal"],
         "stampat": ["slot", "unit", "at"], "stampfull": ["slot", "unit", "at", "created", "put", "base", "eternal"], "stampcopy": ["slot", "of"], "tense": ["slot", "unit"],
         "eternalize": ["slot"], "sextend": ["slot", "*args"], "unbase": ["slot"], "sentence": ["slot", "kind", "stamp"]}[o]
    out = [o]
    for k in f:
        if k[0] == "*":
            out += [str(x) for x in op[k[1:]]]
        elif k == "eternal" and o == "stamp" and op.get("plain"):
            out.append("-")
        else:
            out.append(str(op[k]))
    return "\t".join(out)


def script(r, n, bases=5, stamps=4, focus="both"):
    ops = [{"op": "reset"}]
    if r.random() < 0.8:
        ops.append({"op": "max", "value": r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 20, 33, 100, 128, 300])})
    if r.random() < 0.5:
        ops.append({"op": "duration", "value": r.choice([0, 1, 2, 5, 10])})
    B, S = set(), set()
    cellof, k = {}, [0]       # which handles share a base

    def newcell(s):
        k[0] += 1
        cellof[s] = k[0]
        B.add(s)
    w = {"new": 2, "make": 4, "share": 1, "copy": 2, "assign": 1, "alias": 1, "merge": 5, "into": 1.5, "extend": 4, "add": 3, "overlap": 4, "hash": 4, "drop": 1,
         "stamp": 2, "stampat": 2, "stampfull": 2, "stampcopy": 0.7, "tense": 4, "eternalize": 1, "sextend": 2, "unbase": 0.2, "sentence": 1.5, "time": 2, "now": 1}
    if focus == "bases":
        for x in ("stamp", "stampat", "stampcopy", "tense", "eternalize", "time", "now", "sentence"):
            w[x] *= 0.25
    if focus == "stamps":
        for x in ("make", "merge", "copy", "overlap", "hash", "add", "extend", "into", "assign"):
            w[x] *= 0.25
    top = r.choice([3, 6, 12, 40, 200])

    far = r.random() < 0.15

    def elems():
        e = sorted(r.sample(range(top + 1), r.randint(0, min(top, r.choice([2, 4, 8, 25] if top < 200 else [25, 60, 150])))))
        return sorted({x + r.choice([0, 1000000, 2147483000]) for x in e}) if far else e
    while len(ops) < n:
        o = r.choices(list(w), list(w.values()))[0]
        s = "b%d" % r.randrange(bases)
        t = "t%d" % r.randrange(stamps)
        hb, hs = sorted(B), sorted(S)
        u = r.choice("ab")
        if o == "new":
            ops.append({"op": o, "slot": s, "unit": u})
            newcell(s)
        elif o in ("make", "share"):
            ops.append({"op": o, "slot": s, "elems": elems()})
            newcell(s)
        elif o in ("copy", "alias", "assign") and hb:
            x = r.choice(hb)
            if o == "assign" and s not in B:
                continue
            ops.append({"op": o, "slot": s, "of": x})
            if o == "copy":
                newcell(s)
            elif o == "alias":
                cellof[s] = cellof[x]
                B.add(s)
        elif o == "merge" and hb:
            ops.append({"op": o, "slot": s, "args": [r.choice(hb), r.choice(hb)]})
            newcell(s)
        elif o == "into" and hb:
            z, x, y = r.choice(hb), r.choice(hb), r.choice(hb)
            if cellof[z] not in (cellof[x], cellof[y]):
                if r.random() < 0.7:
                    ops.append({"op": "hash", "slot": z})
                ops.append({"op": o, "slot": z, "args": [x, y]})
                ops.append({"op": "hash", "slot": z})
        elif o == "extend" and hb:
            x = r.choice(hb)
            ops.append({"op": o, "slot": x, "args": [r.choice(hb)]})
            if r.random() < 0.4:
                ops.append({"op": "hash", "slot": x})
        elif o == "add" and hb:
            x = r.choice(hb)
            if r.random() < 0.4:
                ops.append({"op": "hash", "slot": r.choice(hb)})
            ops.append({"op": o, "slot": x, "id": r.randint(0, top)})
            if r.random() < 0.4:
                ops.append({"op": "hash", "slot": r.choice(hb)})
        elif o == "overlap" and hb:
            ops.append({"op": o, "args": [r.choice(hb), r.choice(hb)]})
        elif o == "hash" and hb:
            ops.append({"op": o, "slot": r.choice(hb)})
        elif o == "drop":
            x = r.choice([s, t])
            ops.append({"op": o, "slot": x})
            B.discard(x)
            S.discard(x)
        elif o == "stamp":
            op = {"op": o, "slot": t, "unit": r.choice(["a", "b", "lib"]), "eternal": r.randrange(2)}
            if op["unit"] != "lib" and r.random() < 0.3:
                op.update(eternal=0, plain=1)
            ops.append(op)
            S.add(t)
        elif o == "stampat":
            un = r.choice(["a", "b", "lib"])
            ops.append({"op": o, "slot": t, "unit": un, "at": r.choice([0, 1, 3, 4, 5, 6, 7, 9, 10, 11, 12, 15, 100, 0 - 1, 0 - 5, 0 - 6, 999, 1000, 1001, 1006, 99999995, 99999999, 100000000, 100000005, 100000006, 0 - 100000000])})
            S.add(t)
        elif o == "stampfull":
            ops.append({"op": o, "slot": t, "unit": u, "at": r.randint(0, 20), "created": r.randint(0, 9), "put": r.choice([0 - 1, 0, 7]),
                        "base": r.choice(hb) if hb and r.random() < 0.6 else "-", "eternal": r.choice([0, 0, 1, 0 - 1])})
            S.add(t)
        elif o == "stampcopy" and hs:
            ops.append({"op": o, "slot": t, "of": r.choice(hs)})
            S.add(t)
        elif o == "tense" and hs:
            ops.append({"op": o, "slot": r.choice(hs), "unit": u})
        elif o == "eternalize" and hs:
            ops.append({"op": o, "slot": r.choice(hs)})
        elif o == "sextend" and hs and hb:
            ops.append({"op": o, "slot": r.choice(hs), "args": [r.choice(hb)]})
        elif o == "unbase" and hs and hb:
            x = r.choice(hs)
            ops.append({"op": o, "slot": x})
            ops.append({"op": "sextend", "slot": x, "args": [r.choice(hb)]})
        elif o == "sentence":
            ops.append({"op": o, "slot": t, "kind": r.choice(["judgement", "question", "goal", "quest", "plain"]), "stamp": r.choice(hs) if hs and r.random() < 0.5 else "-"})
            S.add(t)
        elif o == "time":
            ops.append({"op": o, "unit": u, "value": r.choice([0, 1, 2, 4, 5, 6, 10, 11, 20, 1000, 100000000])})
            for x in hs[:2]:
                ops.append({"op": "tense", "slot": x, "unit": u})
        elif o == "now":
            ops.append({"op": o})
    return ops
