"""Generates scripts: sequences of calls of the real API.  What the calls must answer is decided by the specification."""
import glob
import os
import random
import re

COPULAS = ["-->", "<->", "{--", "--]", "{-]", "==>", "=/>", "=|>", "=\\>", "<=>", "</>", "<|>"]
CON_MULTI = ["&&", "||", "&|", "&/", "|", "&"]
COMMUTATIVE = ["&&", "||", "&|", "|", "&", "[", "{"]
CONNECTORS = ["&&", "||", "*", "&|", "&/", "|", "&", "-", "~", "--", "[", "{", "\\", "/"]
SPECIAL = set("-+<>=\"&|!.?@~%;,:/\\*#$[]{}()^ ")


def utf8(text):
    """One character per byte, as everywhere in texts for the drivers."""
    return text.encode("utf-8").decode("latin-1")


WORDS = ["a", "b", "c", "d", "bird", "robin", "x1", "_", "go", "1", "0", "tim", "Sam_I'am", "007", "\"two words\"", "\"a-->b\"", "\"\"", "`", "\"{}\"", "\"{0} %s{\"", utf8("\u9e1f"), utf8("\u52a8\u7269_1"), utf8("\u00e9t\u00e9"), utf8('"\u03a9 \U0001f600"'), "a\x7fb"]
VARNAMES = ["x", "y", "z", "1", "2", "x1", "abc"]


# ----------------------------------------------------------------------------- sentences as token sequences

class Gen:
    def __init__(self, rng, words=None, variables=0.25):
        self.r = rng
        self.words = words or WORDS
        self.variables = variables

    def word(self):
        return self.r.choice(self.words)

    def commas(self, items):
        out = []
        for j, t in enumerate(items):
            if j:
                out.append(",")
            out += t
        return out

    def chain(self, items, c):
        out = []
        for j, t in enumerate(items):
            if j:
                out.append(c)
            out += t
        return out

    def terms(self, depth, lo=1, hi=3):
        return [self.term(depth - 1) for _ in range(self.r.randint(lo, hi))]

    def variable(self):
        return [self.r.choice("$#?"), self.r.choice(VARNAMES)]

    def term(self, depth, var=True):
        r = self.r
        if depth <= 0 or r.random() < 0.25:
            x = r.random()
            if var and x < self.variables:
                return self.variable()
            if x > 0.95:
                return ["+", str(r.choice([0, 1, 5, 10, 123, -5, -1, 2147483647]))]
            if x > 0.90:
                return ["^", self.word()]
            return [self.word()]
        return self.big(depth)

    def big(self, depth):
        r = self.r
        kind = r.choice(["stmt", "stmt", "stmt", "set", "set", "multi", "multi", "multi", "infix", "infix", "single", "neg", "image", "prod", "op"])
        if kind == "stmt":
            body = self.term(depth - 1) + [r.choice(COPULAS)] + self.term(depth - 1)
            return ["<"] + body + [">"] if r.random() < 0.6 else ["("] + body + [")"]
        if kind == "set":
            o, c = r.choice([("{", "}"), ("[", "]")])
            return [o] + self.commas(self.terms(depth)) + [c]
        if kind == "multi":
            return ["(", r.choice(CON_MULTI), ","] + self.commas(self.terms(depth, 2, 4)) + [")"]
        if kind == "infix":
            return ["("] + self.infix(depth) + [")"]
        if kind == "single":
            c = r.choice("-~")
            one = self.operand(depth - 1)
            two = self.operand(depth - 1)
            return ["(", c, ","] + one + [","] + two + [")"] if r.random() < 0.5 else ["("] + one + [c] + two + [")"]
        if kind == "neg":
            t = self.term(depth - 1)
            return ["--"] + t if r.random() < 0.5 else ["(", "--", ","] + t + [")"]
        if kind == "image":
            return ["(", r.choice("/\\"), ","] + self.commas(self.terms(depth, 1, 4)) + [")"]
        if kind == "prod":
            if r.random() < 0.5:
                return ["(", "*", ","] + self.commas(self.terms(depth, 1, 4)) + [")"]
            return ["("] + self.commas(self.terms(depth, 2, 4)) + [")"]
        if r.random() < 0.4:
            return [self.word(), "("] + self.commas(self.terms(depth, 1, 3)) + [")"]
        args = self.terms(depth, 0, 3)
        return ["(", "^", self.word()] + ([","] + self.commas(args) if args else []) + [")"]

    def infix(self, depth):
        return self.chain(self.terms(depth, 2, 4), self.r.choice(CON_MULTI + ["*"]))

    def operand(self, depth):
        return self.term(depth) if self.r.random() < 0.8 or depth <= 0 else self.infix(depth)

    def unit(self, digits=3):
        r = self.r
        x = r.random()
        if x < 0.15:
            return r.choice(["0", "1", "0.0", "1.0", "1.", "0.", ".5", "1.00"])
        return r.choice(["0.", "."]) + "".join(r.choice("0123456789") for _ in range(r.randint(1, digits)))

    def openunit(self, digits=3):
        while True:
            s = self.r.choice(["0.", "."]) + "".join(self.r.choice("0123456789") for _ in range(self.r.randint(1, digits)))
            if any(c in "123456789" for c in s):
                return s

    def numbers(self, mark, fns):
        n = self.r.randint(1, len(fns))
        out = [mark]
        for j in range(n):
            if j:
                out.append(";")
            out.append(fns[j]())
        return out + [mark]

    def tense(self):
        return self.r.choice([[":/:"], [":|:"], [":\\:"], [":!", str(self.r.choice([0, 1, 5, 17, -3, 100, 2000000])), ":"]])

    def sentence(self, depth, punct=None, budget=0.3, tense=0.35, truth=0.5, digits=3):
        r = self.r
        out = []
        if r.random() < budget:
            out += self.numbers("$", [lambda: self.unit(digits), lambda: self.openunit(digits), lambda: self.unit(digits)])
        while True:
            t = self.term(depth, var=False)
            if t[0] not in "$#?":
                break
        out += t
        p = punct or r.choice("...?!@")
        out.append(p)
        if r.random() < tense:
            out += self.tense()
        if p in ".!" and r.random() < truth:
            out += self.numbers("%", [lambda: self.unit(digits), lambda: self.openunit(digits), lambda: str(r.choice([1, 2, 10, 999]))])
        return out

    def unusual(self, what=None):
        """A sentence of unusual size: many variables, many components, deep nesting, long or similar names, large numbers."""
        r = self.r
        what = what or r.choice(["variables", "variables", "wide", "deep", "long", "similar", "numbers", "repeated"])
        if what == "variables":
            n = r.choice([6, 9, 10, 11, 12, 16, 20, 33])
            names = r.sample(["v%d" % j for j in range(n)] + ["x", "y", "1", "2"], n)
            kinds = r.choice(["$", "#", "?", "$#", "$#?"])
            vs = [[r.choice(kinds), x] for x in names]
            vs += [list(r.choice(vs)) for _ in range(r.choice([0, 1, 4]))] + [[r.choice("$#?"), r.choice(names)] for _ in range(r.choice([0, 2]))]
            if r.random() < 0.3:
                r.shuffle(vs)
            while len(vs) > 1:      # any grouping
                k = r.choice([2, 2, 3, 5, len(vs)])
                j = r.randrange(max(1, len(vs) - k + 1))
                part = vs[j:j + k]
                if len(part) < 2:
                    continue
                if len(part) == 2 and r.random() < 0.4:
                    t = ["<"] + part[0] + [r.choice(COPULAS)] + part[1] + [">"]
                else:
                    t = ["(", r.choice(CON_MULTI + ["*", "*", "/", "\\"]), ","] + self.commas(part) + [")"]
                vs[j:j + k] = [t]
            t = vs[0]
            if t[0] in "$#?":
                t = ["{"] + t + ["}"]
        elif what == "wide":
            n = r.choice([5, 7, 8, 9, 12, 16, 17, 24, 33])
            items = [self.term(r.choice([0, 0, 0, 1]), var=r.random() < 0.2) for _ in range(n // 2)] + [["w%d" % r.randrange(n)] for _ in range(n - n // 2)]
            r.shuffle(items)
            c = r.choice(CON_MULTI + ["*", "/", "\\", "{", "["])
            t = ["{"] + self.commas(items) + ["}"] if c == "{" else ["["] + self.commas(items) + ["]"] if c == "[" else ["(", c, ","] + self.commas(items) + [")"]
        elif what == "deep":
            t = self.term(1, var=False)
            for _ in range(r.choice([4, 6, 8, 9, 12, 17])):
                x = r.random()
                o = self.term(0)
                if x < 0.3:
                    t = ["<"] + (t + [r.choice(COPULAS)] + o if r.random() < 0.5 else o + [r.choice(COPULAS)] + t) + [">"]
                elif x < 0.45:
                    t = ["{"] + t + ["}"] if r.random() < 0.5 else ["["] + t + ["]"]
                elif x < 0.6:
                    t = ["(", "--", ","] + t + [")"]
                else:
                    its = [t, o] + ([self.term(0)] if r.random() < 0.3 else [])
                    r.shuffle(its)
                    t = ["(", r.choice(CON_MULTI + ["*", "/"]), ","] + self.commas(its) + [")"]
        elif what == "long":
            n = r.choice([14, 15, 16, 17, 22, 23, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257])
            w = "".join(r.choice("abcxyz") for _ in range(n))
            j = r.choice([0, n - 1, r.randrange(n)])
            ws = [[w], [w[:j] + "q" + w[j + 1:]], [w[:-1]], ["^", w] if r.random() < 0.5 else [w + "0"], [r.choice("$#?"), w], [r.choice("$#?"), w[:-1]]]
            k = r.choice([2, 3, 4])
            its = r.sample(ws, k)
            t = ["(", r.choice(CON_MULTI + ["*"]), ","] + self.commas(its) + [")"] if k > 2 else ["<"] + its[0] + [r.choice(COPULAS)] + its[1] + [">"]
        elif what == "similar":
            pool = [["a"], ["aa"], ["A"], ["ab"], ["ba"], ["a0"], ["0"], ["00"], ["1"], ["01"], ["^", "a"], ["^", "aa"], ["$", "a"], ["#", "a"], ["?", "a"], ["$", "aa"], ["+", "0"], ["+", "1"], ["+", "01"], ["_"], ["__"]]
            its = r.sample(pool, r.choice([2, 3, 5, 8]))
            t = ["(", r.choice(CON_MULTI + ["*", "/"]), ","] + self.commas(its) + [")"]
        elif what == "numbers":
            its = [["+", str(r.choice([r.randint(-9, 9), 10 ** r.randint(1, 9), 2 ** r.randint(4, 30), 2 ** r.randint(4, 30) - 1, 2 ** 31 - 1, -2 ** r.randint(4, 30), 1 - 2 ** 31]))] for _ in range(r.choice([2, 3, 5]))]
            t = ["(", r.choice(["&/", "*", "&&", "&|", "&"]), ","] + self.commas([["a"]] + its) + [")"]
        else:
            x, y = self.term(r.choice([1, 2])), self.term(1)
            its = [list(r.choice([x, x, y])) for _ in range(r.choice([2, 3, 6, 10]))]
            t = ["(", r.choice(CON_MULTI + ["*"]), ","] + self.commas(its) + [")"]
        out = ["$", "0.5", ";", "0.5", ";", "0.5", "$"] if r.random() < 0.2 else []
        out += t + [r.choice("...?!@")]
        return out + self.tense() if r.random() < 0.2 else out

    ALL = ["<", ">", "(", ")", "{", "}", "[", "]", ",", ";", "%", "$", "#", "?", ".", "!", "@", "^", "+", "-", "~", "--", "&", "|", "&&", "||", "&|", "&/",
           "*", "/", "\\", ":|:", ":/:", ":\\:", ":!", ":", "a", "b", "x", "1", "0", "\"q\""] + COPULAS

    def mutate(self, tk, n=None):
        r = self.r
        for _ in range(50):
            t = list(tk)
            for _ in range(n or r.choice([1, 1, 1, 2, 3])):
                k = r.random()
                j = r.randrange(len(t)) if t else 0
                if k < 0.25 and t:
                    del t[j]
                elif k < 0.5:
                    t.insert(r.randint(0, len(t)), r.choice(self.ALL))
                elif k < 0.75 and t:
                    t[j] = r.choice(self.ALL)
                elif k < 0.85 and t:
                    t.insert(j, t[j])
                elif len(t) > 1:
                    m = r.randrange(len(t))
                    t[j], t[m] = t[m], t[j]
            if lexable(t):
                return t
        return list(tk)


def lexable(tk):
    """Numbers other than words only where the scanner looks for a number."""
    for j, t in enumerate(tk):
        prev = tk[j - 1] if j else ""
        if re.fullmatch(r"-\d+", t) and prev not in ("+", ":!"):
            return False
        if re.fullmatch(r"\d*\.\d*", t) and len(t) > 1 and prev not in ("$", "%", ";"):
            return False
    return bool(tk)


def is_word(t):
    return t[:1] == '"' or all(c not in SPECIAL for c in t)


def join(tk, rng=None):
    """The text of a token sequence: spaces wherever tokens could run together."""
    out = ""
    for j, t in enumerate(tk):
        if j:
            p = tk[j - 1]
            tight = (is_word(p) and t in (",", ")", ">", "]", "}", "(")) or (p in (",", "(") and (is_word(t) or t == "(")) \
                or (p == "<" and is_word(t)) or (p in (">", ")") and t in (".", ",", ")", ">")) \
                or (p in "$#?^" and len(p) == 1 and is_word(t)) or (p in ("$", "%", ";") and re.fullmatch(r"[\d.]+", t)) \
                or (re.fullmatch(r"[\d.]*\d[\d.]*", p) and t in (";", "%", "$") and tk[j - 2] in ("$", "%", ";")) \
                or (p == "+" and re.fullmatch(r"-?\d+", t))
            if rng is None:
                out += "" if tight else " "
            else:
                out += ("" if tight and rng.random() < 0.7 else " " * rng.choice([1, 1, 1, 2]))
        out += t
    return out


OPS = sorted(COPULAS + [":/:", ":|:", ":\\:", ":!", "&&", "||", "&|", "&/", "--"] + list("&|*-~/\\[]{}()<>,;%$#?.!@^+:"), key=len, reverse=True)


def lex(text):
    """Tokens of a line of Narsese, or None."""
    tk, j = [], 0
    text = text.strip(" ")
    while j < len(text):
        c = text[j]
        if c == " ":
            j += 1
            continue
        if ord(c) < 32:
            return None
        prev = tk[-1] if tk else ""
        number = prev in ("$", "%", ";")
        m = re.compile(r"[0-9]*\.?[0-9]*").match(text, j) if number else None
        if m and m.group() not in ("", "."):
            after = text[m.end():m.end() + 1]
            if after in (";", "%", "$", " ") or prev == ";":
                tk.append(m.group())
                j = m.end()
                continue
        if prev in ("+", ":!"):
            m = re.compile(r"-?\d+").match(text, j)
            if m:
                tk.append(m.group())
                j = m.end()
                continue
        if c == '"':
            k = text.find('"', j + 1)
            if k < 0 or "\\" in text[j:k]:
                return None
            tk.append(text[j:k + 1])
            j = k + 1
            continue
        for o in OPS:
            if text.startswith(o, j):
                tk.append(o)
                j += len(o)
                break
        else:
            k = j
            while k < len(text) and text[k] not in SPECIAL and ord(text[k]) >= 32:
                k += 1
            if k == j:
                return None
            tk.append(text[j:k])
            j = k
    return tk


def corpus(repo):
    """The sentences of the repository's examples."""
    out = []
    for f in sorted(glob.glob(os.path.join(repo, "examples/**/*.nal"), recursive=True)):
        with open(f, encoding="latin-1") as h:
            for ln in h:
                ln = ln.strip()
                if not ln or ln[0] in "'/*" or ln[0].isdigit() or ln.startswith("IN") or ln.startswith("OUT"):
                    continue
                if any(not 32 <= ord(c) < 127 for c in ln):
                    continue
                tk = lex(ln)
                if tk and lexable(tk):
                    out.append((ln, tk))
    return sorted(set((a, tuple(b)) for a, b in out))


# ----------------------------------------------------------------------------- commands

def to_line(op):
    o = op["op"]
    if o == "parse" or o == "fresh":
        if "hex" in op:
            return "\t".join(["parsechars", op["slot"], op["parser"], op["hex"]])
        if "\t" in op["text"]:
            return "\t".join(["parsechars", op["slot"], op["parser"], op["text"].encode("latin-1").hex()])
        return "\t".join(["parse", op["slot"], op["parser"], op["text"]])
    if o == "many":
        return "\t".join([o, op["parser"], str(op["times"]), str(op["keep"])] + op["texts"])
    if o == "mode":
        return "mode\t" + op["mode"]
    if o == "config":
        return "config\t%s\t%d" % (op["name"], op["value"])
    if o == "time":
        return "time\t%d" % op["value"]
    if o in ("drop", "print", "dump", "tshow", "titer", "rebuild"):
        return o + "\t" + op["slot"]
    if o == "dropparser":
        return "dropparser\t" + op["parser"]
    if o in ("reset", "live", "dumpall"):
        return o
    if o == "reparse":
        return "\t".join([o, op["slot"], op["from"], op["parser"]])
    if o == "word":
        return "\t".join([o, op["slot"], op["name"]])
    if o in ("anon", "anonop"):
        return o + "\t" + op["slot"]
    if o == "intv":
        return "intv\t%s\t%d" % (op["slot"], op["value"])
    if o == "var":
        return "var\t%s\t%s\t%d" % (op["slot"], op["kind"], op["value"])
    if o in ("stmt", "stmtin"):
        return "\t".join([o, op["slot"], op["copula"]] + op["args"])
    if o in ("cmp", "cmpin"):
        return "\t".join([o, op["slot"], op["connector"], op.get("way", "vec")] + op["args"])
    if o in ("ivadd", "ivgrow"):
        return "\t".join([o, op["slot"]] + ([op["of"]] if o == "ivadd" else []) + [op["other"]])
    if o in ("clone", "alias", "shallow"):
        return "\t".join([o, op["slot"], op["of"]])
    if o == "sub":
        return "\t".join([o, op["slot"], op["of"], str(op["nth"])])
    if o == "setvar":
        return "setvar\t%s\t%d" % (op["slot"], op["value"])
    if o == "sentence":
        v = op["values"]
        return "\t".join([o, op["slot"], op["mark"], op["term"]] + ([str(v[0] // 1000), str(v[1] // 1000)] if op["given"] else ["-", "-"])
                         + ["eternal" if op["eternal"] else str(op["at"])] + [str(x // 1000) for x in v[2:]] + [op["how"]])
    if o == "order":
        return "\t".join([o] + op["args"])
    if o in ("tmake", "tlist", "tset", "tinit"):
        return "\t".join([o, op["slot"], "1" if op["commutative"] else "0"] + op["args"])
    if o == "tempty":
        return "\t".join([o, op["slot"], "1" if op["commutative"] else "0"])
    if o == "tpush":
        return "\t".join([o, op["slot"]] + op["args"])
    if o == "tcopy":
        return "\t".join([o, op["slot"], "1" if op["commutative"] else "0", op["of"]])
    if o in ("tunion", "tinter", "tdiff"):
        return "\t".join([o, op["slot"]] + op["args"])
    raise ValueError(o)


def parse_op(slot, tk, rng=None, parser="p", **more):
    op = dict({"op": "parse", "slot": slot, "parser": parser, "tk": list(tk), "text": join(tk, rng)}, **more)
    if rng is not None and rng.random() < 0.08:
        # long runs of spaces, and spaces before and after
        text = "".join(rng.choice([" ", "  ", " " * rng.choice([3, 40, 300])]) if c == " " and k not in quoted(op["text"]) else c for k, c in enumerate(op["text"]))
        op["text"] = rng.choice(["", " ", "   "]) + text + rng.choice(["", " ", "    "])
    return op


def quoted(text):
    """The positions inside quotation marks."""
    out, inside = set(), False
    for k, c in enumerate(text):
        if c == '"':
            inside = not inside
        elif inside:
            out.add(k)
    return out


# ----------------------------------------------------------------------------- terms whose hash values coincide
# (for the way hash values are computed today; with another way these are ordinary terms)

M64 = (1 << 64) - 1
GOLD = 0x9e3779b9


def mix(seed, v):
    return (seed ^ ((v & M64) + GOLD + ((seed << 6) & M64) + (seed >> 2))) & M64


def mixed(*vs):
    s = 0
    for v in vs:
        s = mix(s, v)
    return s


def interval_hash(n):
    return mixed(0 - 1, n)


def interval_of(h):
    """The interval with that hash value, or None."""
    s = mixed(0 - 1)
    n = ((h ^ s) - GOLD - (s << 6) - (s >> 2)) & M64
    n -= (1 << 64) if n >> 63 else 0
    return n if abs(n) < 2 ** 31 else None


CONNECTOR_CODE = {"&&": 0, "||": 1, "*": 2, "&|": 3, "&/": 4, "|": 5, "&": 6, "-": 7, "~": 8, "--": 9, "[": 10, "{": 11, "\\": 12, "/": 13}
ALIKE = [(0 - 127, "ivar"), (0 - 126, "dvar"), (0 - 129, "qvar")]   # interval, variable


def twins(rng, connector, n=2):
    """Some lists of n intervals the compounds of which have one hash value."""
    start = mixed(2, ord("("), CONNECTOR_CODE[connector])
    for _ in range(50):
        rest = [rng.randint(0, 300) for _ in range(n - 2)]
        seed = start
        for x in rest:
            seed = mix(seed, interval_hash(x))
        a, b = rng.randint(0, 40), rng.randint(0, 3000)
        one = mix(seed, interval_hash(a))
        want = mix(one, interval_hash(b))
        out = [rest + [a, b]]
        for a2 in range(max(0, a - 20), a + 20):
            two = mix(seed, interval_hash(a2))
            h = ((want ^ two) - GOLD - (two << 6) - (two >> 2)) & M64
            b2 = interval_of(h)
            if a2 != a and b2 is not None:
                out.append(rest + [a2, b2])
        if len(out) > 2:
            return out[:5]
    return []
