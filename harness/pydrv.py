"""Drives the Python module: one JSON object per line in, one per line out.

The calls and what each of them must answer are specified in /verif/spec/PyTrace.tla.
"""
import json
import re
import sys

import narsese

COPULAS = {"Inheritance": "-->", "Similarity": "<->", "Instance": "{--", "Property": "--]", "InstanceProperty": "{-]", "Implication": "==>",
           "PredictiveImplication": "=/>", "ConcurrentImplication": "=|>", "RetrospectiveImplication": "=\\>", "Equivalence": "<=>",
           "PredictiveEquivalence": "</>", "ConcurrentEquivalence": "<|>"}
CONNECTORS = {"Conjunction": "&&", "Disjunction": "||", "Product": "*", "ParallelEvents": "&|", "SequentialEvents": "&/", "IntensionalIntersection": "|",
              "ExtensionalIntersection": "&", "ExtensionalDifference": "-", "IntensionalDifference": "~", "Negation": "--", "IntensionalSet": "[",
              "ExtensionalSet": "{", "IntensionalImage": "\\", "ExtensionalImage": "/", "List": "#"}
PUNCTS = {"Judgement": ".", "Question": "?", "Goal": "!", "Quest": "@"}
COPULA_OF = {v: k for k, v in COPULAS.items()}
CONNECTOR_OF = {v: k for k, v in CONNECTORS.items()}
PUNCT_OF = {v: k for k, v in PUNCTS.items()}

slots = {}


class NoSlot(Exception):
    pass


def at(s):
    if s not in slots:
        raise NoSlot()
    return slots[s]


def dump(t):
    """What the attributes of a term show, as a tree."""
    text = repr(t)
    m = re.match(r"<(\w+): (.*)>$", text, re.S)
    body = m.group(2) if m else text
    parts = t.terms
    copula, subject, predicate = t.copula, t.subject, t.predicate
    out = {"t": text, "i": 0, "n": "", "sp": [repr(x) for x in (subject, predicate) if x is not None], "a": []}
    if parts is None:
        if m and m.group(1) == "Variable":
            out["k"] = {"$": "ivar", "#": "dvar", "?": "qvar"}.get(body[:1], "?")
            out["i"] = int(body[1:])
        elif re.match(r"\+-?\d+$", body):
            out["k"], out["i"] = "int", int(body[1:])
        else:
            out["k"], out["n"] = "op" if body[:1] == "^" else "atom", body
    else:
        out["a"] = [dump(x) for x in parts]
        if copula is not None:
            out["k"], out["n"] = "stmt", COPULAS[copula.name]
        else:
            out["k"] = "cmp"
            c = re.match(r"\{|\[|\((\W+?), ", body)
            out["n"] = "" if not c else c.group(1) or c.group(0)
    return out


def micro(x):
    return round(x * 1000000)


def truth(t):
    return {"res": "ok", "v": [micro(t.f), micro(t.c), round(t.k * 1000)], "e": micro(t.e), "text": repr(t)}


def budget(b):
    return {"res": "ok", "v": [micro(b.p), micro(b.d), micro(b.q)], "text": repr(b)}


def term(s, t):
    slots[s] = t
    return {"res": "ok", "raw": dump(t)}


def show(x):
    if isinstance(x, narsese.Task):
        return {"res": "ok", "raw": dump(x.term), "sent": repr(x.sentence), "task": repr(x)}
    if isinstance(x, narsese.Sentence):
        return {"res": "ok", "sent": repr(x)}
    if isinstance(x, narsese.Truth):
        return truth(x)
    if isinstance(x, narsese.Budget):
        return budget(x)
    return {"res": "ok", "raw": dump(x)}


def thousandths(q):
    return [x / 1000 for x in q]


def some_term():
    return narsese.Term("w")


# calls that cannot be meant
WRONG = [
    lambda: narsese.parse(5), lambda: narsese.parse(None), lambda: narsese.parse(), lambda: narsese.parse("a.", "b."), lambda: narsese.parse(["a."]),
    lambda: narsese.Statement(None, narsese.Copula.Inheritance, some_term()), lambda: narsese.Statement(some_term(), narsese.Copula.Inheritance, None),
    lambda: narsese.Statement(some_term(), narsese.Connector.Product, some_term()), lambda: narsese.Statement(some_term(), some_term(), some_term()),
    lambda: narsese.Statement(some_term(), narsese.Copula.Inheritance), lambda: narsese.Statement(),
    lambda: narsese.Compound(narsese.Connector.Product, None), lambda: narsese.Compound(narsese.Connector.Product, 5), lambda: narsese.Compound(),
    lambda: narsese.Compound(narsese.Copula.Inheritance, some_term()), lambda: narsese.Compound(some_term(), some_term()),
    lambda: narsese.Compound(narsese.Connector.ExtensionalSet, some_term(), None), lambda: narsese.Compound(narsese.Connector.ExtensionalSet, narsese.Truth(1, .5)),
    lambda: narsese.Compound(narsese.Connector.ExtensionalSet, narsese.parse("a.")),
    lambda: narsese.Truth("x", 1), lambda: narsese.Truth(1), lambda: narsese.Truth(None, None), lambda: narsese.Budget("x"), lambda: narsese.Budget(None),
    lambda: narsese.Budget.quality_from_truth(None), lambda: narsese.Budget.quality_from_truth(0.5), lambda: narsese.Budget.quality_from_truth(),
    lambda: narsese.Term(5), lambda: narsese.Term(None), lambda: narsese.Term("a", "b"),
    lambda: narsese.Sentence(None, narsese.Punctuation.Goal, None, None), lambda: narsese.Sentence(some_term(), None, None, None),
    lambda: narsese.Sentence(some_term(), narsese.Punctuation.Goal, 5, None), lambda: narsese.Sentence(some_term(), narsese.Punctuation.Goal, None, 5),
    lambda: narsese.Sentence(some_term(), "!", None, None), lambda: narsese.Sentence(),
    lambda: setattr(some_term(), "copula", None), lambda: setattr(some_term(), "terms", []), lambda: setattr(narsese.Truth(1, .5), "e", 1),
    lambda: setattr(narsese.Truth(1, .5), "f", "x"), lambda: setattr(narsese.Budget(), "p", None), lambda: next(some_term().terms),
]


def call(o):
    op = o["op"]
    if op == "reset":
        slots.clear()
        return {"res": "ok"}
    if op == "parse":
        slots.pop(o["slot"], None)
        try:
            t = narsese.parse(o["text"])
        except RuntimeError:
            return {"res": "rej"}
        slots[o["slot"]] = t
        return show(t)
    if op == "anon":
        return term(o["slot"], narsese.Term())
    if op == "word":
        return term(o["slot"], narsese.Term(o["name"]))
    if op == "stmt":
        return term(o["slot"], narsese.Statement(at(o["args"][0]), getattr(narsese.Copula, COPULA_OF[o["copula"]]), at(o["args"][1])))
    if op == "cmp":
        return term(o["slot"], narsese.Compound(getattr(narsese.Connector, CONNECTOR_OF[o["connector"]]), *[at(x) for x in o["args"]]))
    if op == "termof":
        return term(o["slot"], at(o["of"]).term)
    if op == "sentenceof":
        slots[o["slot"]] = at(o["of"]).sentence
        return show(slots[o["slot"]])
    if op in ("subject", "predicate"):
        x = getattr(at(o["of"]), op)
        if x is None:
            slots.pop(o["slot"], None)
            return {"res": "nopart"}
        return term(o["slot"], x)
    if op == "iter":
        x = at(o["of"]).terms
        if x is None:
            slots.pop(o["slot"], None)
            return {"res": "nopart"}
        slots[o["slot"]] = x
        return {"res": "ok"}
    if op == "next":
        try:
            x = next(at(o["of"]))
        except StopIteration:
            slots.pop(o["slot"], None)
            return {"res": "stop"}
        return term(o["slot"], x)
    if op == "sentence":
        args = at(o["term"]), getattr(narsese.Punctuation, PUNCT_OF[o["mark"]]), at(o["truth"]) if o["truth"] else None, None
        slots[o["slot"]] = narsese.Sentence(*args) if not o["named"] else narsese.Sentence(stamp=args[3], truth=args[2], punct=args[1], term=args[0])
        return show(slots[o["slot"]])
    if op == "truth":
        v = thousandths(o["values"])
        slots[o["slot"]] = narsese.Truth(*v) if not o["named"] else narsese.Truth(**dict(zip("fck", v)))
        return show(slots[o["slot"]])
    if op == "budget":
        v = thousandths(o["values"])
        slots[o["slot"]] = narsese.Budget(*v) if not o["named"] else narsese.Budget(**dict(zip(o["named"], v)))
        return show(slots[o["slot"]])
    if op == "set":
        setattr(at(o["slot"]), o["field"], o["value"] / 1000)
        return show(at(o["slot"]))
    if op == "quality":
        return {"res": "ok", "q": micro(narsese.Budget.quality_from_truth(at(o["of"])))}
    if op == "show":
        return show(at(o["slot"]))
    if op == "drop":
        slots.pop(o["slot"], None)
        return {"res": "ok"}
    if op == "wrong":
        try:
            WRONG[o["which"] % len(WRONG)]()
        except Exception:
            return {"res": "exc"}
        return {"res": "ok"}
    if op == "names":
        return {"res": "ok", "copulas": sorted(narsese.Copula.__members__), "connectors": sorted(narsese.Connector.__members__), "puncts": sorted(narsese.Punctuation.__members__)}
    raise SystemExit(99)


def texts(x, conv):
    """The check writes one character per byte; Python sees the characters the bytes encode."""
    if isinstance(x, str):
        return conv(x)
    if isinstance(x, list):
        return [texts(y, conv) for y in x]
    return {k: texts(y, conv) for k, y in x.items()} if isinstance(x, dict) else x


def chars(s):
    return s.encode("latin-1").decode("utf-8")


def octets(s):
    return s.encode("utf-8").decode("latin-1")


def main():
    sys.setrecursionlimit(5000)
    for ln in sys.stdin:
        o = texts(json.loads(ln), chars)
        try:
            a = call(o)
        except NoSlot:
            if o["op"] in MAKERS:
                slots.pop(o["slot"], None)
            a = {"res": "noslot"}
        except Exception as e:
            a = {"res": "raised", "why": "%s: %s" % (type(e).__name__, str(e)[:200])}
        print(json.dumps(texts(a, octets)), flush=True)
    slots.clear()
    print('{"res": "end"}', flush=True)


MAKERS = {"stmt", "cmp", "termof", "sentenceof", "subject", "predicate", "iter", "next", "sentence"}
main()
