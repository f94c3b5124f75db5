"""One function per property: fills a suite with cases.  n scales the amount."""
import json
from lib import *
from suite import *
from gen import *

DELIMS = [",", "|", "\t"]
FARDELIMS = [";", "\u00a6", "\u2502", "\U0001f600", " ", "/", "\u00a0"]    # writing takes any
SAFE = ["1", "2", "x", "y", "true", "null", "\"q\"", "\"a b\"", "1.5", "ab"]


class Tame(G):
    """Simple tokens and keys: what is under test is structure."""
    TOKENS = SAFE
    BADTOK = SAFE
    FIELD = ["a", "b", "c", "\"k\""]
    BADFIELD = FIELD
    DKEYS = ["a", "b", "c", "d", "e", "\"k\""]
    BADKEYS = DKEYS
    IDKEYS = [a + c + b for c in IDLE if c not in "-#" for a, b in (("a", ""), ("a", "b"))] + ["a" * n for n in (9, 17, 33, 65, 129, 257)]

    def tok(self):
        return self.ch(SAFE)

    def count(self, n):
        return str(n)

    def row(self, n, d):
        return d.join(self.tok() for _ in range(n))

    def string(self):
        return self.ch(["x", "y", "hello", "a b", "zz", "q1"])

    def key(self, plain=0.5):
        return self.ch(IDENTS) if self.p(0.97) else self.almost()

    def number(self):
        return self.ch(["1", "2", "-1", "0", "1.5", "42"])

    def clean(self, ind):
        k = self.r.random()
        ls = self.lines_array(3, 0, "") if k < 0.3 else self.lines_fields(3, 0, self.r.randint(1, 3))
        return [" " * (ind * a) + t for a, t in ls]


class Counts(Tame):
    """Declared lengths and widths that are wrong now and then."""
    bad = 0.15

    def count(self, n):
        return str(max(0, n + self.ch([-1, 1, 1, 2]))) if self.p(self.bad) else str(n)

    def row(self, n, d):
        if self.p(self.bad / 2):
            n = max(0, n + self.ch([-1, 1]))
        t = super().row(n, d)
        if self.p(self.bad / 2):
            # a delimiter too many: an empty value, which counts
            t = self.ch([t + d, d + t, t + d + " ", t.replace(d, d + d, 1), t + d + d])
        return t

    def more(self, raw, ind):
        """Something after an array that has all it declared."""
        for _ in range(self.r.randint(0, 2)):
            i = self.r.randrange(len(raw))
            l = raw[i]
            j = len(l) - len(l.lstrip(" "))
            if self.p(0.3):
                # the same once more, with a character of structure in it
                c = self.r.randint(j, len(l))
                raw.insert(i + 1, l[:c] + self.ch([":", ": ", "|", ",", "\t", " :", "|:"]) + l[c:])
                continue
            raw.insert(i + 1, " " * max(0, j + self.ch([0, 0, ind, -ind])) +
                       self.ch(["-", "- x", "- a: 1", "x", "1,2", "1|2", "1,2,3", "b: 1", "a: 1,2", "x|y: 1", "- [1]: 1", "\"q\"", "\"a:b\",2"]))
        return raw


def unusual(h, r):
    """Now and then a case with line ends of two characters, or something in
    it of unusual size or spelling."""
    op = h["op"]
    k = r.random()
    if op in ("dec", "both") or op == "wasm" and h["fn"] > 2:
        f = "doc" if op != "wasm" else "text"
        if k < 0.04 and len(h[f]) < 3000:
            h[f] = h[f].replace("\n", "\r\n")
        elif k < 0.08 and len(h[f]) < 3000:
            h[f] = "".join(c if c != "\n" or r.random() < 0.5 else "\r\n" for c in h[f])
    elif op in ("enc", "str", "conv", "rep") and k < 0.06 and h["v"][0] < 6 and (op != "rep" or not h["rules"] or k < 0.03):
        h["v"] = G(r).grow(json.loads(json.dumps(h["v"])))
        if h.get("fold") and h.get("rt"):
            h["v"] = dotless(h["v"])


def dec(doc, ind=2, strict=True, expand=False, want=("ev",)):
    return dict(op="dec", doc=doc, indent=ind, strict=strict, expand=expand, want=list(want))


def enc(v, indent=2, delim=",", fold=False, flat=None, want=("lines",), rt=None):
    c = dict(op="enc", v=v, indent=indent, delim=delim, fold=fold, flat=flat, want=list(want))
    if rt:
        c["rt"] = rt
    return c


# ------------------------------------------------------------------ values
def c01(s, r, n):
    mk = enc_case({"rt"}, read=True)
    g = G(r)
    for i in range(n):
        v = g.root(g.ch([1, 2, 3, 3, 4]), g.ch([0.3, 0.7, 0.95]))
        s.add(enc(v, g.ch([1, 2, 2, 2, 3, 4, 8]), g.ch(DELIMS), want=(), rt=[[True, False], [False, False]]), mk)
    for i in range(n // 60):
        s.add(enc(g.huge(), g.ch([1, 2, 2, 4]), g.ch(DELIMS), want=(), rt=[[True, False], [False, False]]), mk)
    for m in (400, 700, 998, 999):
        s.add(enc(deep(g, m), 1, g.ch(DELIMS), want=(), rt=[[True, False], [False, False]]), enc_case({"rt"}))


def dotless(v):
    if v[0] == 4:
        return [4, [dotless(x) for x in v[1]]]
    if v[0] == 5:
        out, seen = [], set()
        for k, x in v[1]:
            k = k.replace(".", "")
            while k in seen:
                k += "_"
            seen.add(k)
            out.append([k, dotless(x)])
        return [5, out]
    return v


def deep(g, k):
    return [6, [g.ch(IDENTS) for _ in range(k)], g.prim()]


def c02(s, r, n):
    mk = enc_case({"rt"})
    g = G(r)
    for i in range(n):
        k = g.r.random()
        if k < 0.3:
            v = [5, [[x, g.chain(3, 0.9)] for x in g.keys(g.r.randint(1, 3), 0.9)]]
        elif k < 0.35:
            v = deep(g, g.r.randint(10, 60) if k < 0.345 else g.ch([120, 121, 122]))
        else:
            v = g.root(g.ch([2, 3, 4]), 0.85)
        flat = g.ch([None, None, None, 0, 1, 2, 2, 3, 4, 5])
        s.add(enc(dotless(v), g.ch([1, 2, 2, 4]), g.ch(DELIMS), True, flat, (), [[True, True], [False, True]]), mk)
    for k in (130, 200, 240, 250):
        # one key of many segments: one level of expansion each
        s.add(enc(deep(g, k), 2, ",", True, None, (), [[True, True], [False, True]]), mk)
    for i in range(n // 60):
        s.add(enc(dotless(g.huge()), g.ch([1, 2, 2, 4]), g.ch(DELIMS), True, g.ch([None, None, 0, 2, 3, 10]), (), [[True, True], [False, True]]), mk)


def c03(s, r, n):
    mk = enc_case({"lines", "text"})
    for i in range(n):
        g = (Tame if r.random() < 0.7 else G)(r)
        v = g.root(g.ch([2, 3, 3, 4]), g.ch([0.5, 0.9]))
        s.add(enc(v, g.ch([0, 1, 2, 2, 2, 3, 4, 8]), g.ch(FARDELIMS if g.p(0.08) else DELIMS), want=("lines", "text")), mk)
    for i in range(n // 60):
        s.add(enc(G(r).huge(), r.choice([0, 1, 2, 2, 4]), r.choice(DELIMS), want=("lines", "text")), mk)


def positions(x):
    """A primitive in every position a value can take."""
    k = [3, "k"]
    return [x,
            [5, [["k", x]]],
            [5, [["k", [4, [x, k, x]]]]],
            [4, [x]],
            [5, [["k", [4, [[5, [["a", x], ["b", k]]], [5, [["a", k], ["b", x]]]]]]]],
            [4, [[5, []], x]],
            [4, [[4, [x, x]], [5, [["a", [5, [["b", x]]]]]]]]]


def keyed(k):
    """A key in every position a key can take."""
    one = [2, "1"]
    return [[5, [[k, one]]],
            [5, [[k, [4, [one, one]]]]],
            [5, [[k, [5, [["z" + k, one]]]]]],
            [5, [["t", [4, [[5, [[k, one], [k + "z", one]]]]]]]],
            [4, [[5, [[k, one]]], one]],
            [4, [[5, [[k, [4, [[5, [[k, one]]], [5, [[k, one]]]]]]]]]],
            [5, [[k, [4, [[5, []]]]]]]]


def c04(s, r, n):
    write, read = enc_case({"lines"}), dec_case({"evs"})
    g = G(r)
    pool = list(STRINGS) + [c for c in WS + ODD] + [a + c + b for c in WS + ODD for a, b in (("a", ""), ("", "a"), ("a", "b"))]
    pool += [chr(i) for i in range(0, 160)] + ["a" + chr(i) + "b" for i in range(0, 160)]
    todo = list(dict.fromkeys(pool))
    r.shuffle(todo)
    for i in range(n // 2):
        t = todo[i] if i < len(todo) else g.string()
        d = DELIMS[i % 3]
        vs = positions([3, t]) + (keyed(t) if i % 2 else [])
        s.add(enc([4, [vs[0]]] if i % 5 == 0 else g.ch(vs), 2, d), write)
        s.add(enc([4, [[5, [["k", [4, vs]]]]]] if i % 3 == 0 else [4, vs], 2, d), write)
        if i % 2:
            s.add(enc([5, [[t, g.ch(vs)]]], 2, d), write)
    esc = ["\\\\", "\\\"", "\\n", "\\r", "\\t", "a", "b ", ",", ":", "|", "[", "]", "{", "}", "-", "#", "\u00e9", "\U0001f600", "\t", "1"]
    bad = ["\\x", "\\u0041", "\\b", "\\f", "\\/", "\\0", "\\N", "\\ ", "\\'", "\\", "\""]
    for i in range(n // 2):
        body = "".join(g.ch(esc) for _ in range(r.randint(0, 4)))
        k = r.random()
        if k < 0.4:
            j = r.randint(0, len(body))
            body = body[:j] + g.ch(bad) + body[j:]
        t = "\"" + body + ("\"" if k < 0.85 or k > 0.92 else "")
        if k > 0.92:
            t += g.ch(["x", " x", "\"", " ", "1", "\\", "\t", ",", ":"])
        p = g.ch(["{}", "k: {}", "k[1]: {}", "k[2]: {},1", "k[2|]: 1|{}", "k[1]{{a}}:\n  {}", "k[1]{{a,b}}:\n  1,{}", "[1]:\n  - {}", "[1]: {}",
                  "{}: 1", "{}:", "{}[1]: 1", "k[1]{{{}}}:\n  1", "[1]:\n  - {}: 1", "a:\n  {}: 1", "[1]:\n  - {}[1]: 1"])
        s.add(dec(p.format(t), 2, r.random() < 0.7), read)


def c05(s, r, n):
    read, write = dec_case({"evs"}), enc_case({"lines"})
    g = G(r)
    toks = ["true", "false", "null", "True", "TRUE", "nul", "nulll", "tru", "false1", "0", "-0", "00", "01", "-01", "1", "-1", "+1", "1.", ".1", "-.1",
            "0.0", "-0.0", "0.10", "1.0", "1e1", "1E1", "1e+1", "1e-1", "1e", "1e+", "1.e1", "1e1.5", "0e0", "-0e5", "00e1", "1e308", "1e309", "-1e309", "1e-400", "1e99999999999",
            "0x10", "1_0", "1 0", "Infinity", "-Infinity", "NaN", "inf", "1f", "1d", "--1", "- 1", "1-1", "9" * 30, "0." + "0" * 30 + "1", "1" + "0" * 40,
            "123456789012345678", "0.1234567890123456789", "9007199254740993", "5e-324", "4.9e-324", "2e-324", "1.7976931348623159e308", "1.7976931348623157e308",
            "\u0661", "\uff11", "1\u00a0", "\u22121", "1,", "e5", "E", "-", "-e", "-1e5", "1e05", "1e-05", "1e+05", "0.1e1", "-1.5E+3"]
    alpha = "0011259.-+eE_x "
    for i in range(n * 2 // 3):
        t = toks[i] if i < len(toks) else "".join(g.ch(alpha) for _ in range(r.randint(1, 8))) if r.random() < 0.75 else g.number()
        if i < len(toks):
            for p in ("{}", "k: {}", "k[2]: {},{}", "k[1]{{a,b}}:\n  {},{}", "[2]:\n  - {}\n  - a: {}"):
                s.add(dec(p.replace("{}", t).replace("{{", "{").replace("}}", "}"), 2), read)
        else:
            p = g.ch(["{}", "k: {}", "k[2]: {},1", "k[1]{{a,b}}:\n  {},x", "[2]:\n  - {}\n  - a: {}", "k[1|]: {}"])
            s.add(dec(p.replace("{}", t).replace("{{", "{").replace("}}", "}"), 2), read)
    for i in range(n // 3):
        x = [2, NUMBERS[i] if i < len(NUMBERS) else g.ch([g.number(), repr(r.uniform(-1, 1) * 10.0 ** r.randint(-30, 30)), repr(r.randint(-10 ** 18, 10 ** 18) / 10 ** r.randint(0, 20))])]
        if i % 50 == 7:
            x = [2, g.ch(["inf", "-inf", "NaN"])]
        s.add(enc(g.ch(positions(x))), write)


def c06(s, r, n):
    mk = dec_case({"verdict"})
    g = Counts(r)
    for i in range(n):
        g.bad = g.ch([0, 0.08, 0.08, 0.15, 0.3])
        ind = g.ch([2, 2, 2, 4, 1])
        raw = g.clean(ind)
        if g.p(0.5):
            raw = g.more(raw, ind)
        s.add(dec("\n".join(raw), ind), mk)
    for i in range(n // 40):
        ind = r.choice([2, 2, 2, 4, 1, 3])
        s.add(dec(G(r).vast(ind, r.choice([0, 0.2])), ind), mk)


def c07(s, r, n):
    mk = dec_case({"verdict", "line"})
    g = Tame(r)
    blanks = ["", "", "", " ", "  ", "   ", "\t", " \t", "\r", "\u00a0", "\u2003 ", "    \t\t"]
    for i in range(n):
        ind = g.ch([2, 2, 2, 4, 1, 3, 8, 0])
        raw = g.clean(ind or 2) if ind else [l.lstrip(" ") for l in g.clean(2)]
        for _ in range(g.ch([0, 1, 1, 1, 2, 2, 3])):
            k, j = g.r.random(), g.r.randrange(len(raw))
            l = raw[j]
            w = len(l) - len(l.lstrip(" "))
            if k < 0.5:
                raw.insert(g.r.randint(0, len(raw)), g.ch(blanks))
            elif k < 0.6:
                raw[j] = " " * g.ch([1, 1, 2, 3, ind]) + l
            elif k < 0.68 and w:
                raw[j] = l[g.r.randint(1, w):]
            elif k < 0.8:
                raw[j] = l[:w] + "\t" + l[w:]
            elif k < 0.9:
                c = g.r.randint(0, w)
                raw[j] = l[:c] + "\t" + l[c:]
            else:
                raw[j] = l + g.ch(["\t", "  ", "\r", "\u00a0"])
        s.add(dec("\n".join(raw), ind), mk)
    for i in range(n // 40):
        ind = r.choice([2, 2, 2, 4, 1, 3])
        raw = Tame(r).vast(ind).split("\n")
        raw.insert(r.randint(0, len(raw)), r.choice(blanks + ["\tz", " z: 1"]))
        s.add(dec("\n".join(raw), ind), mk)


def c08(s, r, n):
    for i in range(n):
        g = Counts(r) if r.random() < 0.6 else G(r)
        ind = g.ch([2, 2, 2, 4, 1, 3, 0])
        if isinstance(g, Counts):
            g.bad = g.ch([0, 0.1, 0.25])
            raw = g.clean(ind or 2)
            for _ in range(g.ch([0, 0, 1, 1, 2])):
                j = g.r.randrange(len(raw))
                k = g.r.random()
                if k < 0.4:
                    raw.insert(j, g.ch(["", " ", "\t"]))
                elif k < 0.8:
                    raw[j] = " " * g.ch([1, 1, 1, 3, ind]) + raw[j]
                else:
                    raw[j] = raw[j][1:] if raw[j].startswith(" ") else raw[j]
            if g.p(0.3):
                raw = g.more(raw, ind)
            doc = "\n".join(raw)
        else:
            doc = g.doc(ind or 2)
        s.add(dict(op="both", doc=doc, indent=ind, expand=False, want=["ev", "val"]), both_case)
    for i in range(n // 40):
        ind = r.choice([2, 2, 2, 4, 1, 3])
        s.add(dict(op="both", doc=G(r).vast(ind, r.choice([0, 0.1])), indent=ind, expand=False, want=["ev", "val"]), both_case)


def nested(kind, n):
    if kind == 0:
        return "\n".join(" " * i + "a:" for i in range(n)) + "\n" + " " * n + "b: 1"
    if kind == 1:
        return "\n".join(" " * i + ("- [1]:" if i else "[1]:") for i in range(n)) + "\n" + " " * n + "- 1"
    if kind == 2:
        return "[1]:\n" + "\n".join(" " * (2 * i + 1) + "- a:\n" + " " * (2 * i + 3) + "b[1]:" for i in range(n))
    return "\n".join(" " * i + "a[1]:" for i in range(n))


ALL = ("ev", "all", "astream", "val", "json", "tj")


def c09(s, r, n):
    mk = dec_case({"total"})
    g = G(r)
    for i in range(n):
        k = r.random()
        ind = g.ch([2, 2, 2, 4, 1, 0, 3, 1000000000, 2 ** 53])
        if k < 0.35:
            doc = g.doc(ind if 0 < ind < 10 else 2)
        elif k < 0.55:
            doc = g.soup()
        elif k < 0.75:
            doc = "".join(g.ch(WS + ODD + list("ab1:,|-\"\\[]{}.\n\n  ")) for _ in range(r.randint(0, 20)))
        elif k < 0.85:
            doc = "".join(chr(g.ch([r.randint(0, 0x7f), r.randint(0x80, 0xd7ff), r.randint(0xe000, 0x10ffff)])) for _ in range(r.randint(0, 12)))
        else:
            raw = g.doc(2).split("\n")
            j = r.randrange(len(raw))
            c = r.randint(0, len(raw[j]))
            raw[j] = raw[j][:c] + g.ch(WS + ODD) + raw[j][c:]
            doc = "\n".join(raw)
        # JSON text is laid out with the indent: a huge one asks for a huge text
        s.add(dec(doc, ind, g.p(0.5), g.p(0.5), ALL if ind < 100 else [w for w in ALL if w != "json"]), mk)
    huge = [str(10 ** 8), str(10 ** 8 + 1), str(2 ** 31), str(2 ** 32), str(2 ** 63), str(2 ** 64 - 1), str(2 ** 64), "9" * 30, "0" * 40 + "1"]
    for h in huge:
        for d in (f"[{h}]:", f"[{h}]: 1,2", f"a[{h}]{{x,y}}:\n  1,2", f"a[{h}]:\n  - 1", f"[1]:\n  - [{h}]: 1", f"[{h}|]{{x}}:\n  1", f"a:\n  b[{h}]:"):
            for strict in (True, False):
                s.add(dec(d, 2, strict, False, ALL), mk)
    for kind in range(4):
        for m in (50, 120, 250, 260, 990, 1000, 1010, 3000):
            if kind == 2:
                m //= 2
            for x in (False, True):
                s.add(dec(nested(kind, m), 1, kind < 2, x, ALL), mk)
    for m in (2, 100, 250, 260, 5000, 100000):
        s.add(dec(".".join(["a"] * m) + ": 1", 2, True, True, ALL), mk)
        s.add(dec("a: " + "x" * m * 10, 2, True, False, ALL), mk)
        s.add(dec("a[1]: \"" + "\\\\" * m + "\"", 2, True, False, ALL), mk)
        s.add(dec("a[%d]: " % m + ",".join("1" * m if m < 10 else "1" for _ in range(m)), 2, True, False, ALL), mk)
        s.add(dec("\"" + "\\\"" * m + "\"[1]: 1", 2, True, False, ALL), mk)
        # one duplicate test per pair of fields: not forever, but slow
        s.add(dec("\n".join("a%d: 1" % i for i in range(min(m, 4000))), 2, False, True, ALL), mk)
        s.add(dec("\n" * m, 2, True, False, ALL), mk)
        s.add(dec("x" + "[" * m, 2, True, False, ALL), mk)
        s.add(dec("[1]:\n  " + "- " * m + "x", 2, False, False, ALL), mk)


def c10(s, r, n):
    mk = dec_case({"wf", "asm", "keys"})
    for i in range(n):
        g = G(r) if r.random() < 0.6 else Tame(r)
        ind = g.ch([2, 2, 2, 4, 1])
        s.add(dec(g.doc(ind, g.ch([0, 0, 0, 1, 2])), ind, g.p(0.6), False, ("ev", "val")), mk)
    for i in range(n // 40):
        ind = r.choice([2, 2, 2, 4, 1, 3])
        s.add(dec(G(r).vast(ind), ind, r.random() < 0.6, False, ("ev", "val")), mk)


def c11(s, r, n):
    g = G(r)

    def evs_of(v):
        if v[0] < 4:
            return [[6, v]]
        if v[0] == 4:
            return [[3, len(v[1])]] + [e for x in v[1] for e in evs_of(x)] + [[4]]
        return [[1]] + [e for k, x in v[1] for e in [[5, 0, k]] + evs_of(x)] + [[2]]
    for i in range(n):
        k = r.random()
        if k < 0.15:
            es = g.events(r.randint(0, 8))
        else:
            es = evs_of(canonical(g.root(g.ch([1, 2, 3]), 0.6)))
            for _ in range(g.ch([0, 0, 1, 1, 2, 3])):
                j = r.randint(0, len(es))
                q = r.random()
                if q < 0.35 and es:
                    es.pop(min(j, len(es) - 1))
                elif q < 0.6:
                    es.insert(j, g.events(1)[0])
                elif q < 0.7 and es:
                    es = es[:j]
                elif q < 0.8:
                    es = es + es[:j]
                elif len(es) > 1:
                    a, b = r.randrange(len(es)), r.randrange(len(es))
                    es[a], es[b] = es[b], es[a]
        s.add(dict(op="build", evs=es, indent=g.ch([0, 1, 2, 2, 4])), build_case)


def c12(s, r, n):
    mk = dec_case({"jsonof"})
    g = G(r)
    for i in range(n // 2):
        ind = g.ch([2, 2, 4, 1, 3, 0, 8])
        x = g.p(0.4)
        doc = g.doc(ind or 2, 0) if g.p(0.5) else None
        if doc is None:
            t = g.string() if g.p(0.6) else chr(g.ch([r.randint(0, 0xff), r.randint(0x2000, 0x2100), r.randint(0x100, 0xd7ff), r.randint(0xe000, 0x10ffff)]))
            q = "\"" + t.replace("\\", "\\\\").replace("\"", "\\\"").replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t") + "\""
            p = g.ch(["{}", "{}: 1", "k: {}", "k[2]: {},{}", "[1]:\n" + " " * (ind or 0) + "- {}", "{}:"])
            doc = p.replace("{}", q)
        s.add(dec(doc, ind, g.p(0.5), x, ("val", "json")), mk)
    for i in range(n // 2):
        v = g.root(g.ch([1, 2, 3, 4]), 0.6)
        s.add(dict(op="str", v=v, indent=g.ch([0, 1, 2, 2, 3, 4, 16])), str_case)
    for i in range(n // 60):
        s.add(dict(op="str", v=g.huge(), indent=g.ch([0, 1, 2, 2, 4])), str_case)


def c13(s, r, n):
    mk = dec_case({"expandof"})
    g = G(r)
    ks = ["a", "b", "c", "a.b", "a.b", "a.c", "b.a", "a.b.c", "a.b.d", "b.a.c", "\"a.b\"", "\"a\"", "\"a.b.c\"", "a.", ".a", "a..b", "a.1", "a.b-c", "_.a", "a.b c", "x.y", "\u00e9.a", "a.\u00e9"]
    plain = ks

    def lists(depth, lvl, k):
        """Arrays in arrays, with objects or a table at the end."""
        out, at = [], lvl
        head = k
        for _ in range(r.randint(1, 3)):
            out.append((at, f"{head}[1]:"))
            at, head = at + 1, "- "
        if r.random() < 0.3:
            f = [g.ch(ks) for _ in range(r.randint(1, 2))]
            return out + [(at, f"- [1]{{{','.join(f)}}}:"), (at + 1, ",".join("1" for _ in f))]
        sub = fields(depth, at + 1, r.randint(1, 2))
        return out + [(at, "- " + sub[0][1])] + sub[1:]

    def fields(depth, lvl, m):
        out = []
        for _ in range(m):
            k = g.ch(ks)
            q = r.random()
            if depth == 0 or q < 0.4:
                out.append((lvl, f"{k}: {g.ch(['1', '2', 'x', 'null'])}"))
            elif q < 0.72:
                out += [(lvl, f"{k}:")] + fields(depth - 1, lvl + 1, r.randint(0, 3))
            elif q < 0.82:
                out.append((lvl, f"{k}[{(m2 := r.randint(0, 2))}]:" + (" " + ",".join("12"[:m2]) if m2 else "")))
            elif q < 0.9:
                f = [g.ch(ks) for _ in range(r.randint(1, 3))]
                out += [(lvl, f"{k}[1]{{{','.join(f)}}}:"), (lvl + 1, ",".join("1" for _ in f))]
            elif q < 0.95:
                out += lists(depth - 1, lvl, k)
            else:
                out.append((lvl, f"{k}[1]:"))
                sub = fields(depth - 1, lvl + 2, r.randint(1, 3))
                out += [(lvl + 1, "- " + sub[0][1])] + ([(a + (1 if sub[0][1].endswith(":") else 0), t) if False else (a, t) for a, t in sub[1:]])
        return out
    for i in range(n):
        if i < 180:
            m = [2, 10, 80, 100, 120, 124, 125, 126, 127, 128, 129, 130, 200, 250, 254, 255, 256, 257, 300, 600][i % 20]
            kind = i // 20
            seg = ".".join(["a"] * m)
            m = min(m, 400)
            tree = lambda lead, leaf: "\n".join([lead] + [" " * (j + 1) + "a:" for j in range(m)] + [" " * (m + 1) + leaf])
            doc = [f"{seg}: 1", f"a:\n {seg}: 1\n b: 1", nested(0, m), f"{seg}: 1\n{seg}.b: 2", f"{seg}.b: 1\n{seg}.c: 2",
                   tree("x.y:", "b: 1") + "\n" + tree("x.y:", "c: 2"), tree("x:", "b: 1") + "\n" + tree("x.a:", "c: 2"),
                   tree("x:", "b.c: 1"), tree("x:", "b: 1") + f"\nx.{seg}.d: 2"][kind]
            ind = 1
            s.add(dec(doc, ind, i % 2 == 0, True, ("ev", "val")), mk)
            continue
        ks = plain
        if g.p(0.3):
            ks = plain + [t for _ in range(3) for t in [g.ch(g.IDKEYS)] for t in (t, t + ".b", "a." + t, "a." + t + ".c", "\"" + t + ".b\"")]
        ls = fields(g.ch([1, 2, 2, 3]), 0, r.randint(1, 4))
        s.add(dec("\n".join(" " * (2 * a) + t for a, t in ls), 2, g.p(0.5), True, ("ev", "val")), mk)
    for i in range(n // 40):
        ind = r.choice([2, 2, 2, 4, 1, 3])
        s.add(dec(G(r).vast(ind).replace("g1", "g.a").replace("f1", "f.a").replace("g2", "g.b"), ind, r.random() < 0.5, True, ("ev", "val")), mk)


def c14(s, r, n):
    mk = dec_case({"alike", "streamof", "above"})
    for i in range(n):
        g = G(r) if r.random() < 0.6 else Counts(r)
        ind = g.ch([2, 2, 2, 4, 1, 0])
        k = r.random()
        if k < 0.5:
            doc = g.doc(ind or 2)
        elif k < 0.6:
            doc = g.soup()
        else:
            # flat fields, the stretch the stream handles line by line
            raw = [f"{g.dkey()}: {g.tok()}" for _ in range(r.randint(1, 5))]
            for _ in range(g.ch([0, 1, 1, 2])):
                raw.insert(r.randint(0, len(raw)), g.ch(["", " ", "  a: 1", " a: 1", "a:", "a", "-", "- a", "- a: 1", "- [1]: 1", "a[1]: 1", "\"a[1]\": 2", "\"a[1]\"[1]: 2", "a[2]: 1", "[1]: 1", "a[1]{b}:", "  1", "x: \"", "\"k\"x: 1", "\"k\" : 1", "\ta: 1", "a: [1]: 2", "\"a:b\"", "a\\: b"]))
            doc = "\n".join(raw)
        s.add(dec(doc, ind, g.p(0.6), g.p(0.3), ("ev", "all", "astream", "val")), mk)
    for i in range(n // 40):
        ind = r.choice([2, 2, 2, 4, 1, 3])
        s.add(dec(G(r).vast(ind, r.choice([0, 0.1])), ind, r.random() < 0.6, r.random() < 0.3, ("ev", "all", "astream", "val")), mk)


def c15(s, r, n):
    mk = enc_case({"alike", "joined", "evs"})
    g = G(r)
    g.nonfinite = 0.06
    for i in range(n // 4):
        v = g.root(g.ch([0, 1, 2]), 0.7)
        s.add(dict(op="rep", v=v, rules=[[4, canonical(a), b, c] if t == 4 else [t, a, b, c] for t, a, b, c in g.rules(v)], fold=g.p(0.2)), rep_case)
    for i in range(n):
        v = g.root(g.ch([1, 2, 3, 4]), g.ch([0.4, 0.8]))
        s.add(enc(v, g.ch([0, 1, 2, 2, 4]), g.ch(FARDELIMS if g.p(0.08) else DELIMS), g.p(0.4), g.ch([None, None, 0, 2, 3]), ("lines", "text", "evs", "all")), mk)
    for i in range(n // 60):
        s.add(enc(g.huge(), g.ch([0, 1, 2, 2, 4]), g.ch(DELIMS), g.p(0.4), g.ch([None, None, 0, 2, 3]), ("lines", "text", "evs", "all")), mk)


def canonical(v):
    """The numbers of a value as the replacer sees them."""
    if v[0] == 2:
        c = canon_num(v[1])
        return [2, c] if c else [0]
    if v[0] == 4:
        return [4, [canonical(x) for x in v[1]]]
    return [5, [[k, canonical(x)] for k, x in v[1]]] if v[0] == 5 else v


def c16(s, r, n):
    for i in range(n):
        g = Tame(r) if r.random() < 0.6 else G(r)
        g.nonfinite = 0.04
        v = g.root(g.ch([0, 1, 2, 3, 3]), 0.7)
        s.add(dict(op="rep", v=v, rules=[[4, canonical(a), b, c] if t == 4 else [t, a, b, c] for t, a, b, c in g.rules(v)], fold=g.p(0.2)), rep_case)
    for i in range(n // 60):
        g = G(r)
        v = g.huge()
        s.add(dict(op="rep", v=v, rules=[[4, canonical(a), b, c] if t == 4 else [t, a, b, c] for t, a, b, c in g.rules(v)], fold=g.p(0.2)), rep_case)


def c17(s, r, n):
    mk = dec_case({"evs"})
    g = G(r)
    keys = ["", "", "k", "a.b", "\"k\"", "\"a[1]\"", "\"a:b\"", "\"a{b}\"", "\"\\\"[\"", "k ", " k", "a b", "\"\"", "k:", "\"k", "k\"", "[", "]", "\"a\"b", "é", "k\"a\"", "k\"[\"", "\"a\"\"b\""]
    lens = ["0", "1", "2", "2", "3", "02", "+2", "-1", "", " 2", "2 ", "x", "1.0", "#2", "100000001", "18446744073709551616"]
    marks = ["", "", "", "|", "\t", ",", " ", "||", ";", "|\t"]
    flds = ["", "", "{a}", "{a,b}", "{a|b}", "{a\tb}", "{\"a,b\",c}", "{\"a|b\"|c}", "{\"a}\",b}", "{\"a:b\"}", "{}", "{ }", "{a", "a}", "{a}{b}", "{\"a}", "{,}", "{a,}", "{a b}", " {a}", "{a\"b\"}", "{a\"b\",c}", "{\"a\"b}", "{ \"a\" , b }", "{a\"x,y\"}", "{a\"b\"|\"c\"}", "{\"a\"\"b\"}"]
    ends = [":", ":", ":", ":", "", " :", "::", "x:"]
    inl = ["", "", " ", " 1", " 1,2", " 1|2", " 1\t2", " \"a,b\",c", " \"a|b\"|c", " a:b,c", " [1]: 2", " x]y,z", " {a},b", "1,2", " \"a", " ,", " ,,", " 1, 2", " \"x:y\"", " a]: b,c", " \"]\",1"]
    rows = ["1,2", "1|2", "1\t2", "\"a,b\",2", "\"a|b\"|2", "a:b,2", "x", "- 1", "- a: 1", "1", "- a[1|]: 1", "- [2]: 1,2", "- \"a:b\"", "- [2|]: 1|2,3", "- \"[1]\": 2", "a: 1"]
    pre = ["", "", "", "- ", "x: "]
    for i in range(n):
        head = g.ch(keys) + "[" + g.ch(lens if g.p(0.5) else ["0", "1", "2"]) + g.ch(marks if g.p(0.6) else ["", "|", "\t"]) + g.ch(["]", "]", "]", "]", "]", "", " ]", "]]"]) + g.ch(flds) + g.ch(ends) + g.ch(inl)
        k = r.random()
        body = ["  " + g.ch(rows) for _ in range(g.ch([0, 0, 1, 2, 2]))]
        if k < 0.5:
            doc = [head] + body
        elif k < 0.62:
            doc = ["z: 1", head] + body
        elif k < 0.74:
            doc = ["z:", "  " + head] + ["  " + b for b in body]
        elif k < 0.9:
            doc = ["[1]:", "  - " + head] + ["  " + b if g.p(0.5) else "    " + b for b in body]
        else:
            doc = ["[1|]{a,b}:", "  " + head, "y: 1"]
        if g.p(0.15):
            doc.append(g.ch(["y: 1", "  y: 1", "[1]: 1", "y[2]: 1,2"]))
        s.add(dec("\n".join(doc), 2, g.p(0.6)), mk)


def c20(s, r, n):
    mk = enc_case({"lines"})
    ks = ["a", "b", "c", "d", "_x", "k2", "a.b", "a.b.c", "b.c", "c.d", "a.b.c.d", "x-y", "1a", "", "a b", "a.", "\u00e9"]

    def tree(g, d):
        k = r.random()
        if d <= 0 or k < 0.15:
            return g.ch([[2, "1"], [3, "x"], [0], [5, []], [4, []], [4, [[2, "1"]]], [4, [[5, [["a", [5, [["b", [2, "1"]]]]]]]]]])
        if k < 0.6:
            return [5, [[g.ch(ks), tree(g, d - 1)]]]
        if k < 0.65:
            return [4, [tree(g, d - 1) for _ in range(r.randint(1, 2))]]
        out = []
        for _ in range(r.randint(1, 3)):
            x = g.ch(ks)
            if x not in [e[0] for e in out]:
                out.append([x, tree(g, d - 1)])
        return [5, out]
    def paths(v):
        if v[0] != 5:
            return []
        return [[k] + p for k, x in v[1] for p in [[]] + paths(x)]
    plain = ks
    for i in range(n):
        g = Tame(r)
        ks = plain if g.p(0.7) else plain + [g.almost() for _ in range(5)]
        v = tree(g, g.ch([3, 4, 5, 6]))
        if v[0] == 5 and g.p(0.3):
            # a root key spelled like a path further down
            q = [p for p in paths(v) if len(p) > 1]
            if q:
                x = ".".join(g.ch(q))
                if x not in [e[0] for e in v[1]]:
                    v[1].insert(r.randint(0, len(v[1])), [x, [2, "1"]])
        if v[0] == 5 and g.p(0.4):
            for x in (g.ch(ks), g.ch(ks)):
                if x not in [e[0] for e in v[1]]:
                    v[1].insert(r.randint(0, len(v[1])), [x, tree(g, 2)])
        s.add(enc(v, g.ch([2, 2, 4, 1]), g.ch(DELIMS), g.p(0.92), g.ch([None, None, 0, 1, 2, 2, 3, 4, 5])), mk)
    for i in range(n // 60):
        s.add(enc(G(r).huge(), 2, r.choice(DELIMS), True, r.choice([None, None, 0, 2, 3, 9, 33])), mk)


def c21(s, r, n):
    mk = dec_case({"evs", "val"})
    for i in range(n):
        g = Counts(r) if r.random() < 0.75 else G(r)
        g.bad = 0.03
        ind = g.ch([2, 2, 2, 4, 1, 3, 0])
        doc = g.doc(ind or 2, g.ch([0, 1, 1, 2, 2, 3]))
        s.add(dec(doc, ind, g.p(0.5), False, ("ev", "val")), mk)
    for i in range(n // 40):
        ind = r.choice([2, 2, 2, 4, 1, 3])
        s.add(dec(G(r).vast(ind, r.choice([0, 0.1])), ind, r.random() < 0.5, False, ("ev", "val")), mk)
    for kind, m in zip(r.sample(range(4), 2), (999, 1000)):
        # as deep as the reader goes, and one further
        s.add(dec(nested(kind, m // 2 if kind == 2 else m), 1, kind < 2, False, ("ev",)), mk)


JNUM = ["0", "-0", "1", "-1", "12", "1.5", "-2.25", "0.1", "1e3", "1E3", "1e+2", "1e-2", "0.0", "-0.0", "100", "123456789012345", "0.5e1", "1e22", "4.5e-5", "18446744073709551615", "-9223372036854775808", "9007199254740993"]
JBADNUM = ["01", "+1", "1.", ".5", "-", "1e", "0x1", "1e+", "NaN", "Infinity", "--1", "1_0", "1e400", "-1e999"]


BADJSON = ["", " ", "{", "[1,]", "{\"a\":1,}", "{a:1}", "'a'", "[1 2]", "{\"a\" 1}", "nul", "tru", "\"a", "\"\\x\"", "\"\\u12\"", "\"\\ud800\"", "\"\\ud800\\u0041\"", "\"\\udc00\"", "\"\n\"", "\"\u0001\"", "1 2", "[1]]", "{}{}", "//c\n1", "[", "]", ",", ":", "{\"a\":}", "\ufeff1", "\u00a01", "True", "undefined", "[1,,2]"]


def json_texts(g, r):
    """A source of JSON texts, a few of them damaged."""

    def ws():
        return g.ch(["", "", "", "", " ", "\n", "\t", "\r\n ", "  "])

    def jstr(t):
        out = ""
        for c in t:
            o = ord(c)
            k = r.random()
            if c in "\"\\" or o < 32:
                short = {"\"": "\\\"", "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t", "\b": "\\b", "\f": "\\f"}.get(c)
                out += short if short and k < 0.7 else "\\u%04x" % o if k < 0.85 else "\\u%04X" % o
            elif k < 0.12:
                out += "\\u%04x" % o if o < 0x10000 else "\\u%04x\\u%04X" % (0xd800 + ((o - 0x10000) >> 10), 0xdc00 + ((o - 0x10000) & 0x3ff))
            elif c == "/" and k < 0.5:
                out += "\\/"
            else:
                out += c
        return "\"" + out + "\""

    def jv(d):
        k = r.random()
        if d <= 0 or k < 0.35:
            q = r.random()
            return g.ch(["true", "false", "null"]) if q < 0.2 else g.ch(JNUM) if q < 0.5 else jstr(g.string())
        m = g.span(0, 3)
        d = d if m < 4 else 0
        if k < 0.6:
            return "[" + ws() + ("," + ws()).join(jv(d - 1) + ws() for _ in range(m)) + "]"
        ks = [g.key(0.7) + (str(i) if m > 3 else "") for i in range(m)]
        if m > 1 and g.p(0.2):
            ks[-1] = ks[0]
        return "{" + ws() + ("," + ws()).join(jstr(k2) + ws() + ":" + ws() + jv(d - 1) + ws() for k2 in ks) + "}"

    def one():
        while True:
            t = ws() + jv(g.ch([1, 2, 3])) + ws()
            if not (g.p(0.12) and t):
                return t
            j = r.randrange(len(t))
            t = g.ch([t[:j], t[:j] + t[j + 1:], t[:j] + g.ch(list("\",:{}[]\\1 tn")) + t[j:]])
            # a mutated number can leave the range that is read exactly
            if not any(len(re.sub(r"\D", "", m)) > 15 or "e" in m.lower() for m in RUN_RE.findall(t)):
                return t
    return one


def c22(s, r, n, known=()):
    g = G(r)
    one = json_texts(g, r)
    bad = BADJSON + JBADNUM
    for i in range(n * 3 // 4):
        if i < len(bad):
            t = bad[i]
        else:
            t = one()
        opts = {} if g.p(0.4) else dict(indent=g.ch([0, 2, 4]), delim=g.ch(DELIMS), fold=g.p(0.3), flat=g.ch([None, 2, 3]))
        s.add(dict(op="jenc", json=t, want=["default"] if not opts else [], **opts), json_case)
    mk = dec_case({"tj"})
    for i in range(n // 4):
        s.add(dec(g.doc(2, g.ch([0, 0, 0, 1])), 2, True, False, ("val", "tj")), mk)
    for k in known:
        s.add(dict(op="jenc", json=k, want=["default"]), json_case)


def c23(s, r, n):
    g = G(r)
    one = json_texts(g, r)

    def js(names):
        k = r.random()
        if k < 0.08:
            return g.ch([[0], [1], [6], [2, 2], [2, 0], [3, "safe"], [3, ""], [4, 0], [4, 1]])
        fields = []
        for name, vals in names:
            if g.p(0.6):
                fields.append([name, g.ch(vals) if g.p(0.85) else g.ch([[0], [1], [3, "2"], [4, 1], [6], [5, []], [2, 1]])])
        if g.p(0.1):
            fields.append([g.ch(["Indent", "key_folding", "expand_paths", "x", ""]), g.ch([[2, 4], [3, "safe"], [4, 0]])])
        r.shuffle(fields)
        return [5, fields]
    odd = [[7, 25], [7, 9], [7, -10], [7, -5], [9], [2, 255], [2, 256], [2, 258], [2, 511]]
    big = [[8, "1e6"], [8, "16777216"], [8, "2147483648"], [8, "4294967296"], [8, "4294967298"], [8, "9007199254740992"], [8, "1e19"], [8, "1e300"], [8, "inf"]]
    ind = ("indent", [[2, 0], [2, 1], [2, 2], [2, 3], [2, 4], [2, 8]] + odd)
    far = (ind[0], ind[1] + big)
    ENC = [ind, ("delimiter", [[3, ","], [3, "|"], [3, "\t"], [3, ""], [3, "|,"], [3, "\t|"]] + [[3, d] for d in FARDELIMS[:4]]), ("keyFolding", [[3, "safe"], [3, "safe"], [3, "off"], [3, "Safe"]]),
           ("flattenDepth", [[2, 0], [2, 1], [2, 2], [2, 3], [2, 10]] + odd + big)]
    DEC = [far, ("strict", [[4, 0], [4, 1]]), ("expandPaths", [[3, "safe"], [3, "safe"], [3, "off"], [3, "safe "]])]
    bad = BADJSON + JBADNUM
    for i in range(n):
        f = g.ch([1, 2, 2, 2, 3, 4, 4, 4, 5])
        o = js(ENC if f < 3 else DEC)
        if f < 3:
            t = bad[i % len(bad)] if g.p(0.05) else one()
        else:
            w = next((x[1][1] for x in [e for e in o[1] if e[0] == "indent"] if x[1][0] == 2), 2) if f == 4 and o[0] == 5 else 2
            t = g.doc(w or 2, g.ch([0, 0, 0, 1]))
        s.add(dict(op="wasm", fn=f, text=t, js=o if f in (2, 4) else [0]), wasm_case)


def c24(s, r, n):
    g = G(r)
    for i in range(n):
        g.nonfinite = g.ch([0, 0, 0.3])
        v = g.root(g.ch([1, 2, 3, 4]), 0.6)
        if g.p(0.2):
            v = g.ch([[2, g.ch(["9007199254740993", "-9223372036854775808", "9223372036854775807", "123456789012345678", "-1", "10", "4611686018427387905"])], v])
        if g.p(0.3):
            v = twice(g, v)
        s.add(dict(op="conv", v=v, indent=g.ch([2, 2, 4]), delim=g.ch(DELIMS), fold=g.p(0.2), want=["enc"]), conv_case)
    for i in range(n // 60):
        s.add(dict(op="conv", v=g.huge(), indent=g.ch([2, 2, 4]), delim=g.ch(DELIMS), fold=g.p(0.2), want=["enc"]), conv_case)


def twice(g, v):
    """With some key of some object there twice."""
    if v[0] == 4:
        return [4, [twice(g, x) for x in v[1]]]
    if v[0] == 5:
        es = [[k, twice(g, x)] for k, x in v[1]]
        if es and g.p(0.6):
            es.append([g.ch(es)[0], g.prim()])
        return [5, es]
    return v


def c25(s, r, n):
    """Runs of the tool itself, recorded as they are added."""
    import cli
    g = G(r)
    one = json_texts(g, r)
    fat = ["x" * k for k in (1, 3, 4, 5, 7, 8, 11, 12, 40, 41)] + ["a b c d", "a  b\u2003c\u00a0d", "\u200bz\u200b", "\u3000", "\u2028\u0085w", "one two three four five six seven"]
    runs = []
    for i in range(n):
        k = r.random()
        if k < 0.6:
            t = one()
        elif k < 0.8:
            rows = r.randint(1, 12)
            keys = r.sample(["id", "name", "value", "description", "k"], r.randint(1, 4))
            t = json.dumps([{q: g.ch([r.randint(0, 9999), g.ch(fat), True]) for q in keys} for _ in range(rows)], indent=g.ch([None, None, 1, 2, 4, 8]), ensure_ascii=False)
        else:
            t = json.dumps(g.ch([g.ch(fat), [g.ch(fat) for _ in range(r.randint(0, 5))], {g.ch(fat): g.ch(fat)}]), indent=g.ch([None, 2]), ensure_ascii=g.p(0.3))
        o = dict(indent=g.ch([None, None, 0, 4, 8]), delim=g.ch([None, ",", "|", "\t"]), fold=g.p(0.3), flat=g.ch([None, 2]), strict=True, x=False)
        runs.append((t, o, g.p(0.2)))
    for (t, o, _), got in zip(runs, cli.stats_runs(runs, r, s.work)):
        s.note(dict(op="stats", json=t, **o), got, stats_case)
