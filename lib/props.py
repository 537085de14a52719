"""What each check explores.  What must hold is in the specification (spec/*.tla), selected by the property's id."""
import dicts
import evidence
import gen
import indexes
import numbers_
import pymod
import session
from engine import Driver

DRIVERS = {
    "dict": Driver("DictTrace", dicts.to_line, ["dictdrv.cpp"]),
    "ev": Driver("EvidenceTrace", evidence.to_line, ["evdrv.cpp", "evunit_a.cpp", "evunit_b.cpp"]),
    "index": Driver("IndexTrace", indexes.to_line, ["ixdrv.cpp"]),
    "logic": Driver("LogicTrace", lambda o: "\t".join([o["op"]] + [o[k] for k in ("copula", "connector") if k in o] + [str(n) for n in o.get("counts", [])]), ["logicdrv.cpp"]),
    "num": Driver("NumberTrace", numbers_.to_line, ["numdrv.cpp", "@NAL/Functions/src/*.cpp"]),
    "py": Driver("PyTrace", pymod.to_line, python="pydrv.py"),
    "term": Driver("TermTrace", gen.to_line, ["termdrv.cpp"]),
}


class Prop:
    def __init__(self, prepare, drivers, assumptions=()):
        self.prepare, self.drivers, self.assumptions = prepare, drivers, list(assumptions) + COMMON


COMMON = ["TLC and the CommunityModules evaluate the specification correctly",
          "the projection in harness/ reports the state of the library's public objects",
          "single-threaded use, as the library is documented"]
PROPS = {}


def prop(pid, drivers, assumptions=()):
    def deco(f):
        PROPS[pid] = Prop(f, drivers, assumptions)
        return f
    return deco


# ----------------------------------------------------------------------------- specification-generated material

def lang(ctx, emit=True, **k):
    c = dict(Mode='"forms"', Alphabet="{}", MaxLen=0, MaxDepth=1, MaxList=2, Leaves='{"a","b"}', Names='{"x"}', Emit="TRUE" if emit else "FALSE")
    sim = k.pop("simulate", None)
    c.update(k)
    out = ctx.model("Lang", c, invariants=["Check"], simulate=sim, workers=4)
    return sorted(ctx.printed(out, "SENTENCE"), key=lambda s: " ".join(s["tk"]))     # the order in which several workers print them is not fixed


def forms(ctx, **k):
    """Every sentence with a term of depth 1 from two words and one variable name."""
    return lang(ctx, **k)


def tails(ctx):
    return lang(ctx, Mode='"tails"', Leaves='{"a"}')


def deep_forms(ctx, num, depth=3, lists=3):
    seen, out = set(), []
    for s in lang(ctx, MaxDepth=depth, MaxList=lists, Leaves='{"a","b","go"}', Names='{"x","y"}', simulate=(num, 60)):
        k = " ".join(s["tk"])
        if k not in seen and len(s["tk"]) < 150:
            seen.add(k)
            out.append(s)
    return out


ALPHABETS = ['{"a","(",")",",","&","-","--",".","<","-->",">","^"}',
             '{"a","(",")","*","+","1","/","?","$","x"}',
             '{"a",".","%","0.5",";","1",":|:","!","$"}',
             '{"{","}","[","]","a",",","#","@","&&","."}']


def tokens(ctx, length, alphabets=ALPHABETS):
    out = []
    for a in alphabets:
        for s in lang(ctx, Mode='"tokens"', MaxLen=length, Alphabet=a):
            if gen.lexable(s["tk"]):
                out.append(s)
    return out


def session_model(ctx, quick_constants=None):
    """The client of the term library, exhaustively within small constants."""
    two, three = '{"s1","s2"}', '{"s1","s2","s3"}'
    base = dict(Slots=two, Words='{"a"}', Numbers='{0,1}', Kinds='{"ivar"}', SomeCopulas='{"-->"}', SomeConnectors='{"&","{"}', MaxArgs=2, MaxSize=3,
                Steps=2, Renumber="TRUE", Sharing="FALSE", Track="FALSE")
    if quick_constants:
        base.update(quick_constants)
    if ctx.thorough:
        base.update(Words='{"a","b"}', Steps=3 if base["Renumber"] == "TRUE" else 0, MaxSize=base["MaxSize"] + (0 if base["Renumber"] == "TRUE" else 1))
    ctx.model("Session", base, invariants=["NormalForm", "Idempotent", "Blind", "Associative", "Closed", "Attributes"], properties=["Independent", "Apart"],
              extra="VIEW view\nCONSTRAINT Bounded", workers=6)


def histories(ctx, num, steps=14, **k):
    c = dict(Slots='{"s1","s2","s3","s4"}', Words='{"a","b","c"}', Numbers='{0,1}', Kinds='{"ivar","dvar"}', SomeCopulas='{"-->","<=>"}',
             SomeConnectors='{"&","|","{","[","*","&/","-"}', MaxArgs=2, MaxSize=14, Steps=steps, Renumber="FALSE", Sharing="TRUE", Track="TRUE")
    c.update(k)
    out = ctx.model("Session", c, invariants=["Report", "NormalForm", "Closed", "Attributes"] if c["Renumber"] == "FALSE" else ["Report", "Closed"], simulate=(num, steps + 3))
    return ctx.printed(out, "HISTORY")


def begin(mode="plain"):
    return [{"op": "reset"}, {"op": "mode", "mode": mode}]


def batches(items, n):
    return [items[j:j + n] for j in range(0, len(items), n)]


def random_sentences(ctx, n, **k):
    g = gen.Gen(ctx.rng)
    kw = dict(budget=0.2, tense=0.2, truth=0.3)
    kw.update(k)
    return [g.sentence(ctx.rng.choice([1, 2, 2, 3, 3, 4]), **kw) for _ in range(n)]


def unusual(ctx, n, **k):
    g = gen.Gen(ctx.rng, **k)
    return [g.unusual() for _ in range(n)]


def corpus_items(ctx):
    from vp import REPO
    return gen.corpus(REPO)


def parse_all(ctx, sentences, mode="plain", after=None, per=40, parsers=("p", "q"), slots=4):
    """Parse token sequences one after another, into a few handles."""
    r = ctx.rng
    for batch in batches(list(sentences), per):
        ops = begin(mode)
        for tk in batch:
            s = "s%d" % r.randrange(slots)
            if isinstance(tk, dict):
                ops.append(dict(tk, slot=s))
            else:
                ops.append(gen.parse_op(s, tk, r, parser=r.choice(parsers)))
            if after:
                ops += after(s)
        ctx.add("term", ops)


def corpus_ops(ctx):
    return [{"op": "parse", "parser": "p", "tk": list(tk), "text": txt} for txt, tk in corpus_items(ctx)]


# ----------------------------------------------------------------------------- the properties

@prop("P01", ["term"], ["names are printable ASCII; quoted names without quotes or backslashes"])
def p01(ctx):
    fs = forms(ctx)
    ds = deep_forms(ctx, ctx.scale(60, 600))
    ctx.rng.shuffle(fs)
    parse_all(ctx, [s["tk"] for s in fs[:ctx.scale(2500, 10 ** 6)]])
    parse_all(ctx, [s["tk"] for s in ds])
    parse_all(ctx, random_sentences(ctx, ctx.scale(3000, 30000)))
    parse_all(ctx, unusual(ctx, ctx.scale(500, 5000)), per=15)
    parse_all(ctx, [s["tk"] for s in tails(ctx)][:ctx.scale(300, 2000)])
    parse_all(ctx, corpus_ops(ctx))


def twins_deep(r, depth):
    """A sentence that states a deeply nested term twice, or with one leaf another."""
    kinds = [r.choice(["n", "s", "p", "c", "e", "o"]) for _ in range(depth)] if r.random() < 0.5 else [r.choice("nspceo")] * depth
    leaf = r.choice([["a"], ["$", "x"], ["#", "x"], ["?", "y"], ["+", "3"]])
    side = r.choice([["b"], ["$", "x"], ["c"], ["$", "z"]])
    cop, flip = r.choice(gen.COPULAS), r.random() < 0.5

    def term(leaf):
        t = list(leaf)
        for j, k in enumerate(kinds):
            if k == "n":
                t = ["(", "--", ","] + t + [")"]
            elif k == "s":
                t = ["<"] + (side + [cop] + t if flip else t + [cop] + side) + [">"]
            elif k == "p":
                t = ["(", "*", ","] + t + [","] + side + [")"]
            elif k == "c":
                t = ["(", ["&&", "||"][j % 2], ","] + side + [","] + t + [")"]
            elif k == "e":
                t = [["{"], ["["]][j % 2] + t + [["}"], ["]"]][j % 2]
            else:
                t = ["(", "^", "go", ","] + t + [")"]
        return t
    a, b = term(leaf), term(leaf if r.random() < 0.6 else r.choice([["a"], ["$", "y"], ["#", "x"], ["$", "x"]]))
    x = r.random()
    return (["{"] + a + [","] + b + ["}"] if x < 0.4 else ["(", "&&", ","] + a + [","] + b + [","] + a + [")"] if x < 0.7 else ["<"] + a + ["<->"] + b + [">"]) + ["."]


def wide(ctx):
    """Long and deep inputs."""
    r, out = ctx.rng, []
    for n in [10, 40, 120] + ctx.scale([], [400, 900]):
        out.append(["{"] + ["a", ","] * n + ["b", "}", "."])
        out.append(["("] + ["a", "*"] * n + ["b", ")", "?"])
        out.append(["(", "&&", ","] + ["x%d" % j if k == 0 else "," for j in range(n) for k in (0, 1)] + ["z", ")", "!"])
    for n in [5, 15, 29, 30, 31, 32, 33, 40, 64, 65] + ctx.scale([], [100, 130]):
        out.append(["--"] * n + ["a", "."])
        out.append(["{"] * n + ["a"] + ["}"] * n + ["."])
        out.append(["("] * n + ["a"] + ["*", "b", ")"] * n + ["."])
        out.append(["<"] * n + ["a"] + ["-->", "b", ">"] * n + ["."])
        out.append(["("] * n + ["a"] + [")"] * n + ["."])
        out.append(["go", "("] * n + ["a"] + [")"] * n + ["."])
        out.append(["{"] * n + ["a"] + ["}"] * (n - 1) + ["."])
    # every depth of the parser's stack and every length of a lexeme up to beyond several steps of their growth
    for n in range(1, ctx.scale(290, 900)):
        out.append(["--"] * n + ["a", "."] if n % 2 else ["{"] * n + ["a"] + ["}"] * n + ["."])
        if n % 3 == 0:
            out.append(["(", "a", "*"] * n + ["b"] + [")"] * n + ["."])
        out.append(["w" * n, "."] if n % 2 else ["<", "a", "-->", "+" , "1" * (n % 9 + 1), ">", "."] if n % 8 == 0 else ["{", "v" * (n - 1) + "x", ",", "b", "}", "?"])
    w = "w" * r.randint(200, 400)
    out += [[w, "."], ["<", w, "-->", w + "2", ">", "."], ["$", "0." + "3" * 60, "$", "a", "."], ["a", ".", "%", "0." + "0" * 80 + "1", ";", "0.5", "%"]]
    return out


def nasty(ctx):
    """Input that is not a sequence of tokens."""
    r, out = ctx.rng, []
    texts = [b"", b" ", b".", b"\"", b"\"a", b"a\"", b"a\"b\".", b"a\t.", b"\xc3\xa9.", b"\xff\xfe.", b"\x80", b"<a --> \xe4\xb8\xad>.", b"\xf0\x9f\x98\x80",
             b"<a -- > b>.", b"<a - -> b>.", b"a :| :.", b"a. : | :", b"a. :! 5 :x", b"a. %", b"%1;0.9%", b"$0.5;0.5$", b"'a.", b"''", b"a.'b", b"//a.", b"a..", b"a.!", b"<a-->b>", b"a --> b.", b"a.b", b"\\", b"a\\.", b"$a.", b"#a?", b"?a@"]
    for t in texts:
        if b"\n" not in t and b"\t" not in t:
            out.append(t)
    for _ in range(ctx.scale(60, 600)):
        out.append(bytes(r.choice([r.choice([r.randrange(32, 127), r.randrange(128, 256)]), r.choice(b"<->(){}[],.ab$#?!%;:|&*\\/")]) for _ in range(r.randint(1, 20))))
    return out


@prop("P02", ["term"])
def p02(ctx):
    toks = []
    for length, al in [(4, ALPHABETS)] if not ctx.thorough else [(5, ALPHABETS)]:
        toks += tokens(ctx, length, al)
    yes = [s["tk"] for s in toks if s["ok"]]
    no = [s["tk"] for s in toks if not s["ok"]]
    ctx.rng.shuffle(no)
    parse_all(ctx, yes, per=100)
    parse_all(ctx, no[:ctx.scale(8000, 120000)], per=200)
    base = random_sentences(ctx, ctx.scale(2500, 20000), budget=0.3, tense=0.4, truth=0.6)
    g = gen.Gen(ctx.rng)
    parse_all(ctx, base[:len(base) // 3])
    parse_all(ctx, [g.mutate(t) for t in base])
    fs = forms(ctx, emit=True)
    ctx.rng.shuffle(fs)
    parse_all(ctx, [g.mutate(s["tk"]) for s in fs[:ctx.scale(1500, 20000)]])
    parse_all(ctx, wide(ctx), per=10, mode="none")
    parse_all(ctx, [twins_deep(ctx.rng, d) for d in range(18, ctx.scale(50, 140))], per=4, mode="none")
    odd = unusual(ctx, ctx.scale(150, 1500))
    parse_all(ctx, odd + [g.mutate(t) for t in odd], per=15)
    parse_all(ctx, corpus_ops(ctx))
    lines = [{"op": "parse", "parser": "p", "text": "", "hex": t.hex(), "raw_input": 1} for t in nasty(ctx)]
    known = []
    for o in lines:
        t = bytes.fromhex(o["hex"])
        txt = t.decode("latin-1")
        tk = gen.lex(txt) if all(32 <= c for c in t) and t.strip() else None
        if tk is not None and gen.lexable(tk):
            known.append({"op": "parse", "parser": "p", "tk": tk, "text": txt})
        else:
            known.append(dict(o, unknown=1))
    parse_all(ctx, known, per=30)
    long_runs(ctx, ctx.scale(8, 60), "none")


def many(r, sentences, times, keep=0, parser="p"):
    return {"op": "many", "parser": parser, "times": times, "keep": keep, "tks": [list(t) for t in sentences], "texts": [gen.join(t, r) for t in sentences]}


def long_runs(ctx, n, mode, after=()):
    """One parser used thousands of times before it is looked at again."""
    r, g = ctx.rng, gen.Gen(ctx.rng)
    for _ in range(n):
        again = [g.sentence(r.choice([1, 2, 2]), budget=0.2, tense=0.2, truth=0.3) for _ in range(r.randint(1, 5))]
        again += [g.mutate(r.choice(again)) for _ in range(r.randint(0, 3))]
        ops = begin(mode)
        probe = [gen.parse_op("s%d" % j, tk, r) for j, tk in enumerate(again)]
        for times in r.sample([1, 7, 100, 260, 1100, r.randint(2, 600)], 3):
            ops += probe
            ops.append(many(r, again, times, r.choice([0, 0, 1])))
            ops += [dict(o) for o in after]
        ops += probe + [dict(o) for o in after]
        ctx.add("term", ops)


def shuffled_history(ctx, n, texts):
    r = ctx.rng
    ops = begin("plain")
    for _ in range(n):
        x = r.random()
        if x < 0.8:
            ops.append(dict(r.choice(texts), slot="s%d" % r.randrange(4), parser=r.choice("pqr")))
        elif x < 0.9:
            ops.append({"op": "drop", "slot": "s%d" % r.randrange(4)})
        elif x < 0.95:
            ops.append({"op": "dropparser", "parser": r.choice("pqr")})
        else:
            ops.append({"op": "time", "value": r.choice([0, 3, 100])})
    return ops


@prop("P03", ["term"])
def p03(ctx):
    r = ctx.rng
    g = gen.Gen(r)
    fs = forms(ctx)
    toks = [s["tk"] for s in tokens(ctx, 3)]
    for k in range(ctx.scale(60, 500)):
        texts = []
        for _ in range(r.randint(4, 9)):
            x = r.random()
            tk = g.unusual() if x < 0.06 else g.sentence(r.choice([1, 2, 3])) if x < 0.4 else r.choice(fs)["tk"] if x < 0.6 else g.mutate(g.sentence(2)) if x < 0.9 else r.choice(toks)
            texts.append({"op": "parse", "tk": tk, "text": gen.join(tk, r)})
        # inputs that fail after the syntax is settled, or overflow
        tk = g.sentence(1)
        for bad in ["<a --> b", "((((((a", "<(&&, a, ", "\"", "a. %1.5%", "(a & b | c).", "{a, {b, {c,", "$x."]:
            if r.random() < 0.35:
                texts.append({"op": "parse", "text": bad})
        if r.random() < 0.5:
            big = "9" * 400
            for t in ["<a --> +%s>." % big, "a. :!%s:" % big, "<(*, $x, a) --> (&, +%s, $y)>." % big]:
                texts.append({"op": "parse", "text": t, "huge": 1})
        ops = shuffled_history(ctx, ctx.scale(50, 80), texts)
        if k % ctx.scale(6, 2) == 0:
            ops.append({"op": "time", "value": 0})
            for t in texts:
                ops.append(dict(t, op="fresh", slot="f", parser="p"))
        ctx.add("term", ops)
    long_runs(ctx, ctx.scale(8, 60), "plain")


@prop("P04", ["term"], ["numbers of at most three decimals where a default depends on them"])
def p04(ctx):
    r = ctx.rng
    ts = tails(ctx)
    r.shuffle(ts)
    def timed(s):
        return [{"op": "time", "value": r.choice([0, 1, 4, 5, 6, 10, 1000, -7, 123456])}] if r.random() < 0.4 else []

    def configured(s):
        return [config(r)] if r.random() < 0.5 else timed(s)
    parse_all(ctx, [s["tk"] for s in ts], after=timed)
    parse_all(ctx, random_sentences(ctx, ctx.scale(5000, 40000), budget=0.7, tense=0.6, truth=0.8), after=timed)
    parse_all(ctx, corpus_ops(ctx), after=timed)
    parse_all(ctx, random_sentences(ctx, ctx.scale(1000, 8000), budget=0.6, tense=0.6, truth=0.6), after=configured)
    made_sentences(ctx, ctx.scale(20, 200))
    # every combination of what is stated and what is left out, with each value configured otherwise
    for n in CONFIG:
        ops = begin("plain") + [config(r, n), {"op": "time", "value": r.choice([7, 1000])}]
        for punct in ".!?@":
            for b in (None, ["0.5"], ["0.5", "0.25"], ["0.5", "0.25", "0.125"]):
                for tense in ([], [":/:"], [":|:"], [":\\:"], [":!", "3", ":"]):
                    for tr in (None, ["0.25"], ["0.25", "0.5"], ["0.25", "0.5", "3"]):
                        if tr and punct in "?@" or r.random() < ctx.scale(0.6, 0):
                            continue
                        tk = (["$"] + ";".join(b).replace(";", "\0;\0").split("\0") + ["$"] if b else []) + ["<", "a", "-->", "b", ">", punct] + tense \
                            + (["%"] + ";".join(tr).replace(";", "\0;\0").split("\0") + ["%"] if tr else [])
                        ops.append(gen.parse_op("s", tk, r))
        ctx.add("term", ops)


def made_sentences(ctx, n):
    """Sentences made by each class, with defaults configured otherwise."""
    r = ctx.rng
    for _ in range(n):
        ops = begin("plain") + [{"op": "word", "slot": "a", "name": "a"}, {"op": "word", "slot": "b", "name": "b"}, {"op": "stmt", "slot": "s", "copula": "-->", "args": ["a", "b"]}]
        for _ in range(25):
            if r.random() < 0.2:
                ops.append(config(r, r.choice(["f", "cj", "cg", "k", "c", "duration"])))
            if r.random() < 0.1:
                ops.append({"op": "time", "value": r.choice([0, 1, 4, 5, 6, 1000])})
            ops.append(api_sentence(r, "t", r.choice("abs")))
            ops.append({"op": "print", "slot": "t"})
        ctx.add("term", ops)


def interval_script(r, n):
    ops, held = begin("ids"), []
    for _ in range(n):
        x, s = r.random(), "q%d" % r.randrange(5)
        if x < 0.25 or len(held) < 2:
            ops.append({"op": "intv", "slot": s, "value": r.choice([0, 1, 2, 3, 5, -1, -3, 100, 100000])})
        elif x < 0.45:
            ops.append({"op": "ivadd", "slot": s, "of": r.choice(held), "other": r.choice(held)})
        elif x < 0.6:
            s = r.choice(held)
            ops.append({"op": "ivgrow", "slot": s, "other": r.choice(held)})
        elif x < 0.7:
            ops.append({"op": r.choice(["alias", "clone"]), "slot": s, "of": r.choice(held)})
        elif x < 0.9:
            ops.append({"op": "order", "args": [r.choice(held) for _ in range(5)]})
            continue
        else:
            ops.append({"op": "print", "slot": r.choice(held)})
            continue
        if s not in held:
            held.append(s)
        if r.random() < 0.3:
            ops.append({"op": "dumpall"})
    return ops


CONFIG = ["f", "c", "cj", "cg", "k", "p", "d", "q", "judgement", "goal", "question", "quest", "duration"]


def config(r, name=None):
    n = name or r.choice(CONFIG)
    v = r.choice([0, 1, 2, 3, 5, 8, 20, 1000]) if n == "duration" else 1000000 * r.randint(1, 50) if n == "k" else 1000 * r.choice([1, 999, r.randint(1, 999)])
    return {"op": "config", "name": n, "value": v}


def values(r, n):
    return [1000 * r.choice([0, 1, 500, 999, 1000, r.randint(0, 1000), r.randint(0, 1000)]) for _ in range(n)]


def api_sentence(r, s, term):
    return {"op": "sentence", "slot": s, "how": r.choice(["plain", "class"]), "mark": r.choice(".?!@"), "term": term, "given": r.random() < 0.6, "values": values(r, 5),
            "eternal": (e := r.random() < 0.4), "at": 0 if e else r.choice([0, 1, 4, 5, 6, -4, -5, -6, 100, -100, 12])}


def printing(ctx, reparse):
    r = ctx.rng

    def after(s):
        out = [{"op": "print", "slot": s}]
        if reparse:
            out.append({"op": "reparse", "slot": "r", "from": s, "parser": "p"})
            if r.random() < 0.3:
                out.append({"op": "print", "slot": "r"})
        if r.random() < 0.2:
            out.append({"op": "time", "value": r.choice([0, 1, 4, 5, 6, 10, -3, 1000])})
            if r.random() < 0.4:
                out.append(config(r, r.choice(["duration", None])))
            out.append({"op": "print", "slot": s})
        return out
    fs = forms(ctx)
    r.shuffle(fs)
    parse_all(ctx, [s["tk"] for s in fs[:ctx.scale(700, 10 ** 6)]], after=after, per=20)
    parse_all(ctx, [s["tk"] for s in tails(ctx)][:ctx.scale(300, 2000)], after=after, per=20)
    parse_all(ctx, random_sentences(ctx, ctx.scale(1500, 12000), budget=0.5, tense=0.5, truth=0.7), after=after, per=20)
    parse_all(ctx, corpus_ops(ctx), after=after, per=20)
    parse_all(ctx, unusual(ctx, ctx.scale(150, 1500)), after=after, per=10)
    # the parts of statements and operations
    for tk in [["(", "^", "c", ")", "."], ["(", "^", "c", ",", "a", ")", "!"], ["c", "(", "a", ")", "?"], ["<", "(", "^", "c", ")", "==>", "$", "x", ">", "."]]:
        ops = begin("plain") + [gen.parse_op("s", tk, r)]
        for path in ([1], [2], [1, 1], [1, 2], [2, 1]):
            at = "s"
            for n in path:
                ops.append({"op": "sub", "slot": "x%d" % n if at == "s" else "y", "of": at, "nth": n})
                at = ops[-1]["slot"]
            ops += [{"op": "print", "slot": at}, api_sentence(r, "t", at), {"op": "print", "slot": "t"}]
        ctx.add("term", ops)
    # sentences and terms made by the API
    for _ in range(ctx.scale(60, 600)):
        s = session.Session(r, slots=5, names=session.NAMES if not reparse or r.random() < 0.3 else None, weights=dict(clone=1, alias=0, drop=1, anon=0.3, anonop=0.2))

        def more(sess, o):
            out = []
            if o["op"] in ("drop", "setvar"):
                return out
            if o["op"] in ("stmt", "cmp", "parse", "word", "intv", "var") and r.random() < 0.6:
                out.append({"op": "print", "slot": o["slot"]})
            if r.random() < 0.2 and sess.held() and not (reparse and sess.w["anon"] and False):
                out.append(api_sentence(r, "t", r.choice(sess.held())))
                out.append({"op": "print", "slot": "t"})
                if reparse:
                    out.append({"op": "reparse", "slot": "r", "from": "t", "parser": "p"})
                out += [{"op": "drop", "slot": "t"}] if r.random() < 0.5 else []
            return out
        ctx.add("term", s.script(30, "plain", more))
    # printed, renumbered and printed again
    for _ in range(ctx.scale(40, 400)):
        s = session.Session(r, slots=6, variables=0.8, setvar=True, weights=dict(var=4, sub=5, setvar=6, clone=2, alias=1, cmpin=2, anon=0, anonop=0))
        ctx.add("term", s.script(40, "ids", lambda sess, o: [{"op": "print", "slot": r.choice(sess.held())}] if sess.held() and r.random() < 0.5 else []))


@prop("P05", ["term"], ["components of a set are printed in an unspecified order", "numbers are compared to within half a unit of the last place printed"])
def p05(ctx):
    printing(ctx, True)


@prop("P20", ["term"])
def p20(ctx):
    printing(ctx, False)


def sessions(ctx, n, mode, after, length=40, **k):
    for _ in range(n):
        s = session.Session(ctx.rng, **k)
        ctx.add("term", s.script(length, mode, after))


def modelled(ctx, hs, mode, after=None, parse=None):
    """Replay the histories of the specification's client."""
    for h in hs:
        ops = begin(mode)
        for c in h:
            ops.append(c)
            if after:
                ops += after(c)
        ctx.add("term", ops)


@prop("P06", ["term"], ["names of atoms do not begin with 0x"])
def p06(ctx):
    r = ctx.rng
    session_model(ctx, dict(SomeConnectors='{"&","*"}'))
    live = lambda c: [{"op": "live"}] if r.random() < 0.1 else []
    modelled(ctx, histories(ctx, ctx.scale(200, 1500)), "ids", live)

    def after(s, o):
        return [{"op": "dump", "slot": o["slot"]}] if o["op"] in ("word", "parse") and r.random() < 0.2 else [{"op": "live"}] if r.random() < 0.1 else []
    for _ in range(ctx.scale(40, 400)):
        ctx.add("term", parts(r))
    sessions(ctx, ctx.scale(120, 1000), "ids", after, slots=8, weights=dict(word=8, parse=6, drop=4, anon=1.5, anonop=1, clone=1, var=1), names=session.NAMES)
    ops = begin("ids")
    for j in range(ctx.scale(300, 2000)):
        ops.append({"op": "word", "slot": "m%d" % j, "name": "n%d" % j})
        if r.random() < 0.3:
            ops.append({"op": "drop", "slot": "m%d" % r.randint(0, j)})
    for j in range(0, ctx.scale(300, 2000), 3):
        ops += [{"op": "word", "slot": "z", "name": "n%d" % j}] if r.random() < 0.5 else [gen.parse_op("y", ["<", "n%d" % j, "-->", "n%d" % (j + 1), ">", "."], r)]
    ctx.add("term", ops + [{"op": "live"}])
    long_runs(ctx, ctx.scale(6, 40), "ids", [{"op": "live"}])
    # many names at once, made and dropped in turn
    for _ in range(ctx.scale(6, 40)):
        ops = begin("ids")
        names = ["n%d" % j for j in range(25)] + ["^x", "x"]
        for _ in range(120):
            s = "s%d" % r.randrange(14)
            x = r.random()
            if x < 0.5:
                ops.append({"op": "word", "slot": s, "name": r.choice(names[:25] + ["x"])})
            elif x < 0.75:
                a, b = r.choice(names[:25]), r.choice(["x", "n1", "n2"])
                ops.append(gen.parse_op(s, r.choice([["<", a, "-->", b, ">", "."], ["(", "^", b, ",", a, ")", "!"], [b, "(", a, ")", "!"], ["{", a, ",", b, "}", "?"], ["^", b, "."]]), r))
            else:
                ops.append({"op": "drop", "slot": s})
        ctx.add("term", ops)


@prop("P07", ["term"], ["no exception is thrown half-way through a parse"])
def p07(ctx):
    r = ctx.rng
    session_model(ctx, dict(SomeConnectors='{"&","{"}'))
    live = lambda c: [{"op": "live"}] if r.random() < 0.5 else []
    modelled(ctx, histories(ctx, ctx.scale(200, 1500)), "ids", live)

    def after(s, o):
        out = []
        if r.random() < 0.15 and s.held():
            x = r.choice(["tmake", "tlist", "sentence"])
            if x == "sentence":
                out.append(api_sentence(r, "t", r.choice(s.held())))
            else:
                out.append({"op": x, "slot": "b%d" % r.randrange(2), "commutative": r.random() < 0.6, "args": [r.choice(s.held()) for _ in range(r.randint(1, 3))]})
        if r.random() < 0.1:
            out.append({"op": "drop", "slot": r.choice(["b0", "b1", "t", "r"])})
        if r.random() < 0.05 and s.tasks:
            out.append({"op": "reparse", "slot": "r", "from": r.choice(sorted(s.tasks)), "parser": "p"})
        if r.random() < 0.5:
            out.append({"op": "live"})
        return out
    sessions(ctx, ctx.scale(150, 1200), "ids", after, slots=6, weights=dict(drop=5, parse=5, alias=2, clone=2, sub=3, cmpin=1))
    # handles on the parts of parsed terms, dropped in any order
    for _ in range(ctx.scale(60, 500)):
        ctx.add("term", parts(r))
    # rejected input leaves nothing behind
    long_runs(ctx, ctx.scale(8, 60), "ids", [{"op": "live"}])
    g = gen.Gen(r)
    for _ in range(ctx.scale(40, 400)):
        ops = begin("ids")
        for _ in range(15):
            tk = g.sentence(r.choice([1, 2, 3]))
            if r.random() < 0.08:
                tk = g.unusual()
            if r.random() < 0.5:
                tk = g.mutate(tk)
            s = "s%d" % r.randrange(3)
            ops.append(gen.parse_op(s, tk, r))
            if r.random() < 0.3:
                ops.append({"op": "print", "slot": s})
            ops.append({"op": "live"})
        ctx.add("term", ops)


def parts(r):
    ops, held = begin("ids"), []
    ws = ["a", "b", "go"]
    def w():
        return r.choice(ws)
    forms_ = [lambda: ["(", "^", "go", ",", w(), ")", "!"], lambda: ["go", "(", w(), ",", w(), ")", "."], lambda: ["<", "(", "^", w(), ")", "==>", w(), ">", "."],
              lambda: ["<", "{", w(), ",", "x", "}", "-->", w(), ">", "."], lambda: ["(", w(), "*", "^", w(), ")", "?"], lambda: ["(", "--", ",", "^", w(), ")", "@"], lambda: ["^", w(), "."],
              lambda: ["<", "(", "*", ",", "$", "x", ",", w(), ")", "-->", w(), ">", "."]]
    for _ in range(25):
        x, s = r.random(), "s%d" % r.randrange(5)
        if x < 0.3 or not held:
            ops.append(gen.parse_op(s, r.choice(forms_)(), r))
            held.append(s)
        elif x < 0.65:
            ops.append({"op": "sub", "slot": s, "of": r.choice(held), "nth": r.choice([1, 2])})
            held.append(s)
        elif x < 0.75:
            ops.append({"op": "alias", "slot": s, "of": r.choice(held)})
            held.append(s)
        elif x < 0.8:
            ops.append({"op": "word", "slot": s, "name": r.choice(ws)})
            held.append(s)
        else:
            s = held.pop(r.randrange(len(held)))
            ops.append({"op": "drop", "slot": s})
            held = [x for x in held if x != s]
        if r.random() < 0.6:
            ops.append({"op": "live"})
    return ops


@prop("P08", ["term"])
def p08(ctx):
    r = ctx.rng
    session_model(ctx, dict(SomeConnectors='{"&","|","{","["}', Words='{"a","b"}', Kinds="{}", Numbers="{}", Renumber="FALSE", Steps=0))
    modelled(ctx, histories(ctx, ctx.scale(250, 2000), SomeConnectors='{"&","|","{","[","&&","&/"}'), "plain")
    # small compounds of sets, everything in every combination
    pieces = ["a", "b"]
    for outer in gen.COMMUTATIVE + ["&/", "*"]:
        ops = begin()
        for j, w in enumerate(["a", "b", "c"]):
            ops.append({"op": "word", "slot": w, "name": w})
        for c, nm in (("{", "E"), ("[", "I"), ("&", "A"), ("|", "O"), ("&&", "C"), ("&/", "S")):
            for args in (["a"], ["b"], ["a", "b"], ["b", "c"], ["c"]):
                ops.append({"op": "cmp", "slot": nm + "".join(args), "connector": c, "args": args})
        things = ["a", "b"] + [o["slot"] for o in ops if o["op"] == "cmp"]
        pairs = [(x, y) for x in things for y in things]
        r.shuffle(pairs)
        for x, y in pairs[:ctx.scale(150, 2000)]:
            args = [x, y] + ([r.choice(things)] if r.random() < 0.4 else []) + ([r.choice(things)] if r.random() < 0.2 else [])
            ops.append({"op": "cmp", "slot": "t", "connector": outer, "args": args})
        ctx.add("term", ops)
    for _ in range(ctx.scale(20, 200)):
        ctx.add("term", lookalikes(r))
    for _ in range(ctx.scale(30, 300)):
        ops, made = same_shape(r)
        made = made + made[:2] + ["w0"]
        for k in range(6):
            ops.append({"op": "cmp", "slot": "u%d" % (k % 2), "connector": r.choice(gen.COMMUTATIVE + ["&/"]), "args": [r.choice(made) for _ in range(r.randint(2, 6))]})
        ctx.add("term", begin() + ops)
    sessions(ctx, ctx.scale(120, 1000), "plain", None, length=50, slots=8, weights=dict(cmp=14, word=4, stmt=2, parse=1, anon=0, anonop=0, sub=1, var=1, drop=1, cmpin=3))
    g = gen.Gen(r, words=["a", "b", "c"], variables=0.05)
    parse_all(ctx, [g.sentence(r.choice([2, 3, 4]), budget=0, tense=0, truth=0) for _ in range(ctx.scale(1500, 10000))])
    parse_all(ctx, [g.unusual(r.choice(["wide", "deep", "repeated", "similar", "variables"])) for _ in range(ctx.scale(250, 2500))], per=15)


@prop("P09", ["term"])
def p09(ctx):
    r = ctx.rng
    session_model(ctx, dict(SomeConnectors='{"&","*"}'))

    def after(s, o):
        if r.random() < 0.2 and len(s.held()) > 1:
            h = s.held()
            r.shuffle(h)
            return [{"op": "order", "args": h[:7]}]
        return []
    for h in histories(ctx, ctx.scale(200, 1500), Kinds='{"ivar","dvar"}'):
        ctx.add("term", begin() + h + [{"op": "order", "args": sorted({c["slot"] for c in h if c["op"] != "drop"} - dropped(h))}])
    sessions(ctx, ctx.scale(120, 900), "plain", after, slots=8, weights=dict(var=6, clone=3, parse=2, drop=1, anon=1, word=4, intv=2), variables=0.5)
    for _ in range(ctx.scale(25, 250)):
        ctx.add("term", interval_script(r, 40))
    # near relations: terms that differ in one variable number, one copula, one connector, one order
    for _ in range(ctx.scale(60, 600)):
        ops = begin()
        k1, k2 = r.choice(["ivar", "dvar", "qvar"]), r.choice(["ivar", "dvar", "qvar"])
        ops += [{"op": "word", "slot": "a", "name": "a"}, {"op": "var", "slot": "x", "kind": k1, "value": r.choice([0, 1])},
                {"op": "var", "slot": "y", "kind": k1, "value": r.choice([0, 1, 2])}, {"op": "var", "slot": "z", "kind": k2, "value": r.choice([0, 1])},
                {"op": "intv", "slot": "i", "value": r.choice([1, 2])}, {"op": "intv", "slot": "j", "value": r.choice([1, 2])}]
        base = ["a", "x", "y", "z", "i", "j"]
        made = []
        for n in range(7):
            s = "m%d" % n
            if r.random() < 0.5:
                ops.append({"op": "stmt", "slot": s, "copula": r.choice(["-->", "<->", "==>"]), "args": [r.choice(base), r.choice(base + made)]})
            else:
                ops.append({"op": "cmp", "slot": s, "connector": r.choice(["*", "&", "&&", "{", "/"]), "args": [r.choice(base + made) for _ in range(r.choice([1, 2, 2, 3]))]})
            made.append(s)
        al = base + made
        r.shuffle(al)
        ops += [{"op": "order", "args": al[:7]}, {"op": "order", "args": made}]
        ctx.add("term", ops)
    for _ in range(ctx.scale(40, 300)):
        ctx.add("term", lookalikes(r))
    for _ in range(ctx.scale(60, 600)):
        ops, made = same_shape(r)
        ctx.add("term", begin() + ops + [{"op": "order", "args": made}])
    for _ in range(ctx.scale(10, 80)):
        tk = twins_deep(r, r.choice([5, 10, 20, 30]))
        ctx.add("term", begin() + [gen.parse_op("s0", tk, r), gen.parse_op("s1", tk, r), gen.parse_op("s2", near(r, tk), r), {"op": "sub", "slot": "s3", "of": "s0", "nth": 1},
                                   {"op": "sub", "slot": "s4", "of": "s0", "nth": 2}, {"op": "clone", "slot": "s5", "of": "s0"}, {"op": "order", "args": ["s%d" % j for j in range(6)]}])
    g = gen.Gen(r, words=["a", "b"], variables=0.6)
    for _ in range(ctx.scale(80, 600)):
        ops = begin()
        for j in range(6):
            ops.append(gen.parse_op("s%d" % j, g.sentence(2, budget=0, tense=0, truth=0), r))
        ops.append({"op": "order", "args": ["s%d" % j for j in range(6)]})
        ctx.add("term", ops)
    # sentences of unusual size, beside others that differ in one place
    for _ in range(ctx.scale(60, 500)):
        ops = begin()
        tk = g.unusual()
        for j in range(5):
            ops.append(gen.parse_op("s%d" % j, tk if j < 2 else near(r, tk), r))
        ops += [{"op": "clone", "slot": "s5", "of": "s0"}, {"op": "order", "args": ["s%d" % j for j in range(6)]}]
        ctx.add("term", ops)


def near(r, tk):
    """The same sentence with one word, number, name, copula or connector another, or two neighbours exchanged."""
    for _ in range(50):
        t = list(tk)
        j = r.randrange(len(t))
        if t[j] in gen.COPULAS:
            t[j] = r.choice(gen.COPULAS)
        elif t[j] in gen.CON_MULTI and t[j + 1] == ",":
            t[j] = r.choice(gen.CON_MULTI)
        elif t[j] in ("$", "#", "?") and j + 1 < len(t) and gen.is_word(t[j + 1]) and "." not in t[j + 1]:
            t[j] = r.choice("$#?")
        elif j and t[j - 1] == "+":
            t[j] = str(int(t[j]) // 2 + 1)
        elif gen.is_word(t[j]) and "." not in t[j]:
            t[j] = r.choice(["a", "b", t[j] + "z", r.choice([x for x in tk if gen.is_word(x)])])
        elif t[j] == "," and 1 < j < len(t) - 2 and gen.is_word(t[j - 1]) and gen.is_word(t[j + 1]) and t[j - 2] == "," and t[j + 2] == ",":
            t[j - 1], t[j + 1] = t[j + 1], t[j - 1]
        else:
            continue
        if gen.lexable(t) and t != tk:
            return t
    return list(tk)


def same_shape(r, n=7, top="m"):
    """The calls that make n terms of one shape whose leaves are exchanged among a few variables, and the slots they are in."""
    kind = r.choice(["ivar", "dvar", "qvar"])
    ops = [{"op": "var", "slot": "w%d" % v, "kind": kind, "value": v} for v in range(3)]
    leaves = ["w0", "w1", "w2"][:r.choice([2, 2, 3])]
    if r.random() < 0.3:
        ops.append({"op": "var", "slot": "w3", "kind": r.choice(["ivar", "dvar", "qvar"]), "value": r.choice([0, 1])})
        leaves.append("w3")

    def shape(d):
        x = r.random()
        if d == 0 or x < 0.2:
            return None
        if x < 0.6:
            return ("stmt", r.choice(["-->", "<->", "==>", "<=>"]), [shape(d - 1), shape(d - 1)])
        c = r.choice(["*", "&", "&&", "{", "/", "&/"])
        return ("cmp", c, [shape(d - 1) for _ in range(r.choice([2, 2, 3]))])
    sh = None
    while sh is None:
        sh = shape(r.choice([1, 2, 2]))
    count = [0]

    def make(t, slot):
        if t is None:
            return r.choice(leaves)
        args = [make(x, "") for x in t[2]]
        count[0] += 1
        slot = slot or "n%d" % (count[0] % 40)
        ops.append({"op": t[0], "slot": slot, "copula" if t[0] == "stmt" else "connector": t[1], "args": args})
        return slot
    return ops, [make(sh, "%s%d" % (top, j)) for j in range(n)]


def lookalikes(r):
    """Terms that differ but have the same hash value (today)."""
    ops = begin()
    ops += [{"op": "word", "slot": "a", "name": "a"}]
    made = []
    for k, (n, kind) in enumerate(gen.ALIKE):
        v = r.choice([0, 1])
        ops += [{"op": "intv", "slot": "i%d" % k, "value": n}, {"op": "var", "slot": "v%d" % k, "kind": kind, "value": v}]
        made += ["i%d" % k, "v%d" % k]
    conn = r.choice(["*", "&/", "-", "/"])
    tw = gen.twins(r, conn, r.choice([2, 2, 3]) if conn not in "-" else 2)
    cs = []
    for j, t in enumerate(tw):
        for m, n in enumerate(t):
            ops.append({"op": "intv", "slot": "n%d" % m, "value": n})
        ops.append({"op": "cmp", "slot": "c%d" % j, "connector": conn, "args": ["n%d" % m for m in range(len(t))]})
        cs.append("c%d" % j)
    ops += [{"op": "order", "args": made}]
    if len(cs) > 1:
        ops += [{"op": "order", "args": cs + ["a"]}]
        for k in range(3):
            args = [r.choice(cs + made[:2]) for _ in range(3)]
            ops.append({"op": "cmp", "slot": "u%d" % k, "connector": r.choice(["{", "&", "&&", "||", "["]), "args": args})
            ops.append({"op": "stmt", "slot": "t%d" % k, "copula": "-->", "args": [r.choice(cs), "a"]})
        ops.append({"op": "order", "args": ["u0", "u1", "u2", "t0", "t1", "t2", cs[0]]})
        ops.append({"op": "tmake", "slot": "b0", "commutative": True, "args": cs + ["a"]})
        ops.append({"op": "tmake", "slot": "b1", "commutative": True, "args": cs[1:] + made})
        ops += [{"op": o, "slot": "b2", "args": ["b0", "b1"]} for o in ("tunion", "tinter", "tdiff")]
    k = r.randrange(3)
    ops.append({"op": "cmp", "slot": "u", "connector": r.choice(["{", "&", "&&"]), "args": ["i%d" % k, "v%d" % k, "a"]})
    return ops


def dropped(h):
    held = set()
    for c in h:
        if c["op"] == "drop":
            held.discard(c["slot"])
        else:
            held.add(c["slot"])
    return {c["slot"] for c in h} - held


@prop("P10", ["term"])
def p10(ctx):
    r = ctx.rng
    session_model(ctx, dict(Sharing="TRUE", SomeConnectors='{"&","*"}'))
    hs = histories(ctx, ctx.scale(200, 1500), Renumber="TRUE", steps=16, SomeConnectors='{"*","&/","-","/"}')
    modelled(ctx, hs, "ids", lambda c: [{"op": "dumpall"}] if r.random() < 0.4 else [])

    def after(s, o):
        out = [{"op": "dumpall"}] if o["op"] in ("setvar", "clone") or r.random() < 0.15 else []
        return out
    sessions(ctx, ctx.scale(150, 1200), "ids", after, slots=6, length=45, weights=dict(var=5, clone=6, sub=4, stmt=5, cmp=5, cmpin=1.5, parse=2, anon=0, word=3), variables=0.5, setvar=True)
    # a parsed term, cloned; a variable inside one of the two renumbered
    g = gen.Gen(r, words=["a", "b"], variables=0.7)
    for _ in range(ctx.scale(100, 800)):
        ops = begin("ids")
        tk = ["<"] + g.term(2) + [r.choice(gen.COPULAS[:1] + ["==>", "<=>"])] + g.term(2) + [">", "."]
        ops += [gen.parse_op("s", tk, r), {"op": "clone", "slot": "c", "of": "s"}, {"op": "sub", "slot": "x", "of": r.choice(["s", "c"]), "nth": r.choice([1, 2])},
                {"op": "clone", "slot": "d", "of": "x"}, {"op": "clone", "slot": "e", "of": "c"}, {"op": "dumpall"}]
        ctx.add("term", ops)
    for _ in range(ctx.scale(60, 500)):
        ops = begin("ids")
        ops += [gen.parse_op("s", g.unusual(r.choice(["variables", "variables", "deep", "wide"])), r), {"op": "clone", "slot": "c", "of": "s"}]
        at = r.choice("sc")
        for k in range(r.choice([1, 2, 3])):
            ops.append({"op": "sub", "slot": "x", "of": at, "nth": r.choice([1, 1, 2, 3, 5])})
            at = "x"
        ops += [{"op": "setvar", "slot": "x", "value": r.choice([50, 0])}, {"op": "dumpall"}, {"op": "clone", "slot": "d", "of": r.choice("xsc")}, {"op": "dumpall"}, {"op": "drop", "slot": "s"}, {"op": "dumpall"}]
        ctx.add("term", ops)


def attribute_sessions(ctx, n):
    r = ctx.rng

    def after(s, o):
        return [{"op": "dump", "slot": o["slot"]}] if o["op"] in ("clone", "alias") and r.random() < 0.3 else []
    sessions(ctx, n, "full", after, slots=6, weights=dict(var=5, intv=2, cmpin=2, parse=4), variables=0.45)


@prop("P11", ["term"])
def p11(ctx):
    r = ctx.rng
    session_model(ctx, dict(SomeConnectors='{"&","*"}', SomeCopulas='{"-->","==>"}'))
    modelled(ctx, histories(ctx, ctx.scale(200, 1500), SomeCopulas='{"-->","==>"}', Kinds='{"ivar","dvar","qvar"}'), "full")
    fs = forms(ctx)
    r.shuffle(fs)
    parse_all(ctx, [s["tk"] for s in fs[:ctx.scale(1200, 10 ** 6)]], mode="full")
    parse_all(ctx, random_sentences(ctx, ctx.scale(1200, 10000), budget=0, tense=0, truth=0), mode="full")
    parse_all(ctx, unusual(ctx, ctx.scale(150, 1500)), mode="full", per=10)
    parse_all(ctx, corpus_ops(ctx), mode="full")
    attribute_sessions(ctx, ctx.scale(100, 900))


@prop("P12", ["term"])
def p12(ctx):
    r = ctx.rng
    session_model(ctx, dict(SomeConnectors='{"&","*"}'))
    modelled(ctx, histories(ctx, ctx.scale(200, 1500), Kinds='{"ivar","dvar","qvar"}', Words='{"a"}', Numbers='{0,1,2}'), "full")
    fs = [s for s in forms(ctx, Leaves='{"a"}', Names='{"x","y"}') if any(t in "$#?" for t in s["tk"])]
    r.shuffle(fs)
    parse_all(ctx, [s["tk"] for s in fs[:ctx.scale(1000, 10 ** 6)]], mode="full")
    g = gen.Gen(r, words=["a", "b"], variables=0.75)
    parse_all(ctx, [g.sentence(r.choice([1, 2, 3, 3]), budget=0, tense=0, truth=0) for _ in range(ctx.scale(1200, 10000))], mode="full")
    attribute_sessions(ctx, ctx.scale(100, 900))
    parse_all(ctx, [g.unusual("variables") for _ in range(ctx.scale(120, 1200))], mode="full", per=10)
    # variables renumbered, and the indices built again
    def renumbered(s, o):
        if o["op"] == "setvar":
            return [{"op": "rebuild", "slot": x} for x in s.held()]
        return []
    sessions(ctx, ctx.scale(120, 1000), "full", renumbered, slots=6, weights=dict(var=4, word=2, stmt=5, cmp=6, cmpin=2, parse=3, clone=3, sub=6, setvar=4, anon=0, anonop=0),
             variables=0.6, setvar=True, connectors=["*", "/", "\\", "-", "~", "&/", "--"])


@prop("P13", ["term"])
def p13(ctx):
    r = ctx.rng
    base = dict(Slots='{"b1","b2","b3"}', MaxArgs=2, MaxLen=3, Steps=0, Track="FALSE")
    inv = ["OnceEach", "Folded", "Algebra"]
    ctx.model("TermSets", dict(base, Slots='{"b1","b2"}', MaxLen=ctx.scale(2, 3)), invariants=inv, properties=["OneBag"], extra="VIEW view", workers=6)
    out = ctx.model("TermSets", dict(base, Slots='{"b1","b2","b3","b4"}', MaxArgs=4, MaxLen=6, Steps=30, Track="TRUE"), invariants=["OnceEach", "Report"], simulate=(ctx.scale(200, 2000), 32))
    for h in ctx.printed(out, "HISTORY"):
        handles = [{"op": "word", "slot": "a", "name": "a"}, {"op": "word", "slot": "b", "name": "b"}, {"op": "var", "slot": "v1", "kind": "ivar", "value": 0}, {"op": "var", "slot": "v2", "kind": "ivar", "value": 0},
                   {"op": "cmp", "slot": "s1", "connector": "{", "args": ["a", "b"]}, {"op": "cmp", "slot": "s2", "connector": "{", "args": ["b", "a"]},
                   {"op": "cmp", "slot": "p1", "connector": "*", "args": ["v1", "a"]}, {"op": r.choice(["cmp", "cmpin"]), "slot": "p2", "connector": "*", "args": ["v2", "a"]}]
        if r.random() < 0.3:
            handles.append({"op": "clone", "slot": "p1", "of": "p2"})
        ctx.add("term", begin() + handles + h)
    for _ in range(ctx.scale(20, 200)):
        ctx.add("term", lookalikes(r))
    for _ in range(ctx.scale(50, 500)):
        ops, made = same_shape(r)
        for k in range(8):
            b = "b%d" % (k % 3)
            ops.append({"op": r.choice(["tmake", "tlist", "tset", "tinit"]), "slot": b, "commutative": r.random() < 0.85, "args": [r.choice(made) for _ in range(r.randint(1, 7))]})
            if k > 2:
                ops.append({"op": r.choice(["tunion", "tinter", "tdiff"]), "slot": "b3", "args": [r.choice(["b0", "b1", "b2"]) for _ in range(r.randint(1, 3))]})
                ops.append({"op": "tcopy", "slot": "b4", "commutative": r.random() < 0.7, "of": b})
        ctx.add("term", begin() + ops)
    for _ in range(ctx.scale(150, 1200)):
        s = session.Session(r, slots=6, weights=dict(word=4, var=3, stmt=2, cmp=2, parse=1, drop=0.5, anon=0.2, anonop=0, alias=0, sub=0, clone=1), variables=0.4)
        bags = {}

        def after(sess, o):
            out = []
            h = sess.held()
            if len(h) < 2:
                return out
            for _ in range(r.choice([0, 1, 2, 3])):
                x = r.random()
                b = "b%d" % r.randrange(4)
                if x < 0.35 or len(bags) < 2:
                    comm = r.random() < 0.75
                    out.append({"op": r.choice(["tmake", "tlist", "tset", "tinit"]), "slot": b, "commutative": comm, "args": [r.choice(h) for _ in range(r.randint(0, 5))]})
                    bags[b] = comm
                elif x < 0.4:
                    comm = r.random() < 0.75
                    out.append({"op": "tempty", "slot": b, "commutative": comm, "args": []})
                    bags[b] = comm
                elif x < 0.6:
                    b = r.choice(sorted(bags))
                    out.append({"op": "tpush", "slot": b, "args": [r.choice(h)]})
                elif x < 0.68:
                    of = r.choice(sorted(bags))
                    comm = r.random() < 0.6
                    out.append({"op": "tcopy", "slot": b, "commutative": comm, "of": of})
                    bags[b] = comm
                elif x < 0.9:
                    op = r.choice(["tunion", "tinter", "tdiff"])
                    args = [r.choice(sorted(bags)) for _ in range(r.randint(1, 3))]
                    if any(not bags[a] for a in args) and r.random() < 0.8:
                        continue
                    out.append({"op": op, "slot": b, "args": args})
                    if all(bags[a] for a in args):
                        bags[b] = True
                else:
                    b = r.choice(sorted(bags))
                    out.append({"op": "titer", "slot": b})
                if bags and r.random() < 0.3:
                    out.append({"op": "tshow", "slot": r.choice(sorted(bags))})
            return out
        ctx.add("term", s.script(60, "plain", after))


# ----------------------------------------------------------------------------- evidence, stamps and the clock

def evidence_model(ctx):
    base = dict(Slots='{"b1","b2"}', Stamps='{"t1"}', Ids="{0,1,2}", Limit=2, Duration=1, MaxTime=2, Steps=3, Track="FALSE")
    if ctx.thorough:
        base.update(Ids="{0,1,2}", Limit=3, Steps=4)
    ctx.model("Evidence", base, invariants=["MergeLaws", "Alternating", "Issued", "TenseLaws"], properties=["OneCell"], extra="VIEW view", workers=6)


def evidence_histories(ctx, num):
    out = []
    for mx, dur in ((2, 1), (3, 5), (5, 2)):
        c = dict(Slots='{"b1","b2","b3"}', Stamps='{"t1","t2"}', Ids="{0,1,2,3,4,5}", Limit=mx, Duration=dur, MaxTime=9, Steps=25, Track="TRUE")
        res = ctx.model("Evidence", c, invariants=["Report", "MergeLaws", "Issued", "TenseLaws"], simulate=(num, 27))
        out += [(mx, dur, h) for h in ctx.printed(res, "HISTORY")]
    return out


def evidence_check(ctx, focus):
    r = ctx.rng
    evidence_model(ctx)
    for mx, dur, h in evidence_histories(ctx, ctx.scale(60, 500)):
        ops = [{"op": "reset"}, {"op": "max", "value": mx}, {"op": "duration", "value": dur}]
        bases, stamps = set(), set()
        for c in h:
            ops.append(c)
            (stamps if "stamp" in c["op"] or c["op"] in ("eternalize", "sextend") else bases).add(c.get("slot"))
            bases.discard(None)
            if r.random() < 0.4 and bases:
                ops.append({"op": "hash", "slot": r.choice(sorted(bases))})
            if r.random() < 0.3 and bases:
                ops.append({"op": "overlap", "args": [r.choice(sorted(bases)), r.choice(sorted(bases))]})
            if r.random() < 0.4 and stamps:
                ops.append({"op": "tense", "slot": r.choice(sorted(stamps)), "unit": r.choice("ab")})
            if r.random() < 0.1:
                ops.append({"op": "now"})
        ctx.add("ev", ops)
    for _ in range(ctx.scale(150, 1500)):
        ctx.add("ev", evidence.script(r, 60, focus=focus))


@prop("P14", ["ev"])
def p14(ctx):
    r = ctx.rng
    evidence_check(ctx, "bases")
    # every pair of small bases, every maximum
    subsets = [[j for j in range(4) if m >> j & 1] for m in range(16)]
    for mx in range(0, 9):
        ops = [{"op": "reset"}, {"op": "max", "value": mx}]
        for x in subsets:
            for y in subsets:
                if r.random() > ctx.scale(0.35, 1.0):
                    continue
                ops += [{"op": "make", "slot": "x", "elems": x}, {"op": "make", "slot": "y", "elems": y}, {"op": "merge", "slot": "z", "args": ["x", "y"]},
                        {"op": "overlap", "args": ["x", "y"]}, {"op": "hash", "slot": "x"}, {"op": "extend", "slot": "x", "args": ["y"]}, {"op": "hash", "slot": "x"}]
        ctx.add("ev", ops)
    # the configured maximum as it is by default
    big = [{"op": "reset"}]
    for a, b in ((9000, 9000), (9999, 10001), (12000, 11000), (20000, 3), (2, 20000), (19999, 1), (20001, 5)):
        big += [{"op": "make", "slot": "x", "elems": list(range(0, 2 * a, 2))}, {"op": "make", "slot": "y", "elems": list(range(1, 3 * b, 3))},
                {"op": "merge", "slot": "x", "args": ["x", "y"]}, {"op": "drop", "slot": "y"}, {"op": "drop", "slot": "x"}]
    ctx.add("ev", big)


@prop("P15", ["ev", "term"])
def p15(ctx):
    r = ctx.rng
    evidence_check(ctx, "stamps")
    # stamps of parsed and constructed tasks, seen from moving time
    for _ in range(ctx.scale(60, 600)):
        s = session.Session(r, slots=4, weights=dict(parse=8, cmp=1, stmt=1, word=2, drop=1, clone=0, sub=0, anon=0, anonop=0, alias=0))

        def after(sess, o):
            out = []
            if r.random() < 0.4:
                out.append({"op": "time", "value": r.choice([0, 1, 4, 5, 6, 10, 11, 1000])})
            if sess.held() and r.random() < 0.4:
                out += [api_sentence(r, "t", r.choice(sess.held())), {"op": "print", "slot": "t"}]
            if sess.tasks and r.random() < 0.5:
                out.append({"op": "print", "slot": r.choice(sorted(sess.tasks))})
            return out
        ctx.add("term", s.script(40, "plain", after))


# ----------------------------------------------------------------------------- truth and budget values

def truth_laws(ctx, invariants):
    small = dict(Fs="{0,25,50,90,100}", Cs="{0,10,50,90,99}", Ks="{1,2,4}", Times="{0,1,5,12,13}", Decays="{0,1,5,1000}")
    if ctx.thorough:
        small = dict(Fs="{0,1,10,25,33,50,67,75,90,99,100}", Cs="{0,1,10,25,50,75,90,98,99}", Ks="{1,2,3,4,20}", Times="{0,1,2,5,12,13,100,300}", Decays="{0,1,5,1000}")
    ctx.model("TruthLaws", small, invariants=invariants, workers=6)


@prop("P16", ["num", "term"], ["values are judged to within binary32 rounding: 20 millionths absolute or 20 millionths of the value"])
def p16(ctx):
    truth_laws(ctx, ["Range", "Weights", "Middle"])
    r = ctx.rng
    for _ in range(ctx.scale(200, 2000)):
        ctx.add("num", numbers_.script(r, 60, "values"))
    grid = [0, 1, 33, 50, 90, 99, 100] if not ctx.thorough else list(range(0, 101, 5)) + [1, 99]
    ops = [{"op": "reset"}, {"op": "config"}]
    for f in grid:
        for c in grid:
            for k in (1, 2, 6):
                if c < 100:
                    ops += [{"op": "truth", "slot": "a", "f": f, "c": c, "k": k}, {"op": "look", "slot": "a"}]
    ctx.add("num", ops)
    ts = tails(ctx)
    r.shuffle(ts)
    parse_all(ctx, [s["tk"] for s in ts[:ctx.scale(400, 3000)]])
    made_sentences(ctx, ctx.scale(15, 150))


@prop("P17", ["num"], ["values are judged to within binary32 rounding: 20 millionths absolute or 20 millionths of the value"])
def p17(ctx):
    truth_laws(ctx, ["Range", "Short", "Symmetric", "Gains", "Weaker", "Booleans", "Projection"])
    r = ctx.rng
    for _ in range(ctx.scale(250, 2500)):
        ctx.add("num", numbers_.script(r, 60, "rules"))
    # every pair of premises of a grid
    fs, cs = ([0, 30, 100], [0, 90]) if not ctx.thorough else ([0, 1, 30, 50, 77, 100], [0, 1, 50, 90, 99])
    ops = [{"op": "reset"}]
    for f1 in fs:
        for c1 in cs:
            for f2 in fs:
                for c2 in cs:
                    for o in ("deduction", "induction", "comparison", "revision"):
                        ops += [{"op": "truth", "slot": "a", "f": f1, "c": c1, "k": r.choice([1, 2, 4])}, {"op": "truth", "slot": "b", "f": f2, "c": c2, "k": r.choice([1, 2, 4])}]
                        ops.append({"op": o, "slot": "c", "args": ["a", "b"], "how": "ref"} if o == "revision" else {"op": o, "slot": "c", "args": ["a", "b"]})
    ctx.add("num", ops)


# ----------------------------------------------------------------------------- dictionaries of names

@prop("P18", ["dict"], ["a dictionary outlives the handles of its atoms", "a key or name is put anew only with the partner it has"])
def p18(ctx):
    r = ctx.rng
    base = dict(Dicts='{"d1","d2"}', Slots='{"s1","s2"}', Words='{"a","b"}', RawNames='{"c"}', RawKeys="{1}", Steps=ctx.scale(5, 6), Track="FALSE")
    inv = ["OneToOne", "Counted", "NoGhosts", "OneName"]
    ctx.model("Dict", base, invariants=inv, properties=["Apart"], extra="VIEW view", workers=6)
    sim = dict(base, Slots='{"s1","s2","s3"}', RawNames='{"c","{}",""}', RawKeys="{1,2,3}", Steps=30, Track="TRUE")
    out = ctx.model("Dict", sim, invariants=inv + ["Report"], simulate=(ctx.scale(200, 2000), 32))
    for h in ctx.printed(out, "HISTORY"):
        ctx.add("dict", dicts.from_history(h, r))
    for _ in range(ctx.scale(200, 2000)):
        ctx.add("dict", dicts.script(r, 60))
    # many names at once
    many = ["n%d" % j for j in range(ctx.scale(60, 400))]
    ops = [{"op": "reset"}, {"op": "universe", "names": many, "keys": []}]
    for j, x in enumerate(many):
        ops.append({"op": "word", "dict": "d1", "slot": "m%d" % j, "name": x})
    for j, x in enumerate(many):
        ops.append({"op": "text", "dict": "d1", "slot": "m%d" % j, "color": j % 2} if r.random() < 0.5 else {"op": "drop", "slot": "m%d" % j})
    ctx.add("dict", ops)


# ----------------------------------------------------------------------------- trees of variable positions

@prop("P21", ["index"], ["a node is judged when it is up to date: built again since the last change below it, or its positions taken over", "occurrences are added to and removed from leaves"])
def p21(ctx):
    r = ctx.rng
    base = dict(Handles='{"n1","n2"}', Values="{0,1}", MaxNodes=3, Steps=ctx.scale(6, 8), Track="FALSE")
    inv = ["UpToDate", "NormLaws", "PathsLead", "ApartCells"]
    ctx.model("Index", base, invariants=inv, extra="VIEW view", workers=6)
    sim = dict(base, Handles='{"n1","n2","n3","n4"}', Values="{0,1,2,7}", MaxNodes=10, Steps=30, Track="TRUE")
    out = ctx.model("Index", sim, invariants=inv + ["Report"], simulate=(ctx.scale(150, 1500), 32))
    for h in ctx.printed(out, "HISTORY"):
        ops = [{"op": "reset"}]
        held = set()
        for c in h:
            ops.append(c)
            held.add(c["slot"])
            if r.random() < 0.3:
                ops.append({"op": r.choice(["norm", "hash"]), "slot": r.choice(sorted(held))})
        for x in sorted(held):
            ops += [{"op": "rebuild", "slot": x}, {"op": "norm", "slot": x}, {"op": "hash", "slot": x}]
        ctx.add("index", ops)
    for _ in range(ctx.scale(300, 3000)):
        ctx.add("index", indexes.script(r, 60))


@prop("P19", ["py"], ["names are printable ASCII", "Python code does not call __new__ of the module's classes without __init__", "truth values handed to a sentence are not changed afterwards"])
def p19(ctx):
    r = ctx.rng
    fs = forms(ctx)
    ts = tails(ctx)
    toks = tokens(ctx, 3)
    for lst in (fs, ts, toks):
        r.shuffle(lst)
    g = gen.Gen(r)
    for batch in batches([s["tk"] for s in fs[:ctx.scale(1200, 10000)] + ts[:ctx.scale(300, 2000)] + toks[:ctx.scale(800, 6000)]], 40):
        ops = [{"op": "reset"}]
        for tk in batch:
            ops.append(gen.parse_op("k%d" % r.randrange(3), tk, r))
        ctx.add("py", ops)
    for tk in random_sentences(ctx, ctx.scale(120, 1500)) + [list(tk) for _, tk in corpus_items(ctx)][:ctx.scale(60, 2000)] + [s["tk"] for s in deep_forms(ctx, ctx.scale(20, 200))] + unusual(ctx, ctx.scale(60, 600)):
        ctx.add("py", pymod.all_parts(tk, gen.join(tk, r)))
    for _ in range(ctx.scale(60, 600)):
        ctx.add("py", pymod.script(r, 60))
    for _ in range(ctx.scale(6, 40)):
        ctx.add("py", pymod.values(r, 12))
    ctx.add("py", [{"op": "reset"}, {"op": "names"}] + [{"op": "wrong", "which": j} for j in range(pymod.WRONG)])
    # every copula, connector and kind of sentence by its Python name
    ops = [{"op": "reset"}, {"op": "word", "slot": "t0", "name": "a"}, {"op": "word", "slot": "t1", "name": "b"}, {"op": "truth", "slot": "v0", "values": [250, 750], "named": False}]
    ops += [{"op": "stmt", "slot": "t2", "copula": c, "args": ["t0", "t1"]} for c in gen.COPULAS]
    for c in gen.CONNECTORS + gen.COMMUTATIVE + ["&", "|", "{", "[", "#"]:
        ops += [{"op": "cmp", "slot": "t3", "connector": c, "args": ["t0", "t1", "t2"][:n]} for n in range(4)]
    for m in ".?!@":
        for v in ("", "v0"):
            ops += [{"op": "sentence", "slot": "s0", "term": "t2", "mark": m, "truth": v, "named": n} for n in (False, True)]
    ctx.add("py", ops)


@prop("P22", ["logic"])
def p22(ctx):
    r = ctx.rng
    inv = ["OneRelationEach", "CommutesIsMutual", "SymmetrizedTwice", "ReversedTwice", "TemporalIsHigher", "AgreesWithTerms", "CommutativeIsReducible", "ArityIsOne", "CountAgrees", "ReducibleIsOpen"]
    ctx.model("LogicLaws", dict(MaxCount=ctx.scale(8, 40)), invariants=inv)
    connectors = gen.CONNECTORS + gen.COMMUTATIVE + ["&", "|", "{", "[", "#"]
    for n in range(ctx.scale(4, 20)):       # in one order and others
        ops = [{"op": "copula", "copula": c} for c in gen.COPULAS] + [{"op": "connector", "connector": c} for c in sorted(set(connectors))] + [{"op": "marks"}]
        for c in sorted(set(connectors)):
            ops.append({"op": "count", "connector": c, "counts": list(range(0, 12)) + [r.choice([31, 32, 63, 64, 255, 256, 65535, 65536, 2 ** 31 - 1]), r.randint(3, 10 ** 6)]})
        if n:
            r.shuffle(ops)
        ctx.add("logic", [{"op": "reset"}] + ops)
