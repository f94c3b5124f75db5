"""Seeded generators of values, documents, event sequences, replacer rules.
They lean towards the places where the format changes its mind."""

WS = ["\t", "\u000b", "\u000c", "\r", " ", "\u0085", "\u00a0", "\u1680", "\u2003", "\u2028", "\u3000"]
ODD = ["\u0000", "\u0001", "\u0008", "\u001f", "\u007f", "\u0080", "\u00e9", "\u200b", "\ufeff",
       "\uffff", "\ud7ff", "\ue000", "\U0001f600", "\U0010ffff", "\u0660", "\u0130", "\u00df"]
STRINGS = ["", " ", "  ", "a", "b", "abc", "hello world", "true", "false", "null", "True", "NULL", "nul", "truey",
           "-", "--", "- a", "-a", "-1", "+1", "0", "-0", "00", "05", "-05", "0.", ".5", "1.", "1e", "1e5", "1E+5",
           "1e-", "0x1f", "1_000", "1,5", "1.5", "1.50", "1e400", "-1e400", "Infinity", "NaN", "inf",
           "01a", "00.0", "-00", "0e0", "1 2", " 1", "1 ",
           "a:b", ":", ": ", "a: b", "a,b", ",", "a|b", "|", "a\tb", "\t", "a\nb", "\n", "\r", "a\r", "\r\n",
           "\\", "\\n", "\\\\", "\"", "\"a\"", "a\"b", "\\\"", "'", "'a'", "[", "]", "[1]", "[2]: 1,2", "a[1]", "{", "}",
           "{a}", "{}", "[]", "#", "# c", "//", "*", "&", "a.b", "x y", " x", "x ", "\u00a0x", "x\u2028", "\u3000",
           "a#b", "@", "!", "~", "%", "caf\u00e9", "\u4f60\u597d", "\U0001f600", "\u200b", "\ufeffx", "x\u0000y", "\u0001"]
IDENTS = ["a", "b", "c", "d", "id", "name", "x", "y", "_", "_x", "A1", "k2", "value", "items", "A", "Id", "a_b", "true1"]
KEYS = IDENTS * 3 + ["a.b", "a.b.c", "b.a", "a.", ".a", "a..b", "x-y", "1", "1a", "a1", "", " ", "a b", "a:b", "a,b", "a|b",
                     "a\tb", "a\nb", "\"", "a\"b", "\\", "[", "]", "{", "}", "a[1]", "a[0]", "a{b}", "-", "- a", "true", "null", "\u00e9",
                     "#", "@id", "a}b", "a]b", "a\\", "_.x", "a.1", "a.b-c", "constructor", "__proto__", "\U0001f600"]
NUMBERS = ["0", "-0", "1", "-1", "2", "7", "10", "42", "100", "-5", "0.5", "-0.5", "1.5", "3.14", "0.1", "0.25", "100.5", "1e3", "1e6", "1e15", "1e16", "1e20",
           "1e21", "1e22", "1e-5", "1e-6", "1e-7", "1.5e-7", "1.5e300", "5e-324", "2.2250738585072014e-308", "1.7976931348623157e308",
           "9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993", "18446744073709551615", "9223372036854775807", "-9223372036854775808",
           "0.30000000000000004", "0.1234567890123456", "123456789012345680000", "1.0", "2.50", "1e2", "1E2", "1e+2", "12345.678"]


# sizes at and around the thresholds that code tends to have
SIZES = [5, 6, 7, 8, 9, 9, 10, 11, 12, 12, 15, 16, 17, 17, 20, 24, 31, 32, 33, 33, 40, 50, 63, 64, 65, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300]
LENGTHS = SIZES + [13, 21, 22, 23, 25, 41, 47, 48, 49, 79, 80, 81, 119, 120, 121, 511, 512, 513, 1000, 1023, 1024, 1025]
# characters that are no part of an identifier but mean nothing either
IDLE = list("$@%+~!?*&^=<>'`;/-#()") + ["\u00e9", "\u4f60", "\U0001f600", "\u00b7", "\u0301", "\u200d", "\u00ad", "\u00aa", "\u2160", "\uff41"]


def size_of(v):
    if v[0] == 4:
        return 1 + sum(map(size_of, v[1]))
    if v[0] == 5:
        return 1 + sum(size_of(x) for _, x in v[1])
    return 1


class G:
    wide = 0.004        # how often a list is long

    def __init__(self, rnd):
        self.r = rnd

    def span(self, lo, hi):
        return self.ch(SIZES) if self.wide and self.p(self.wide) else self.r.randint(lo, hi)

    def almost(self):
        """An identifier with something in it."""
        t = self.ch(IDENTS)
        j = self.r.randint(0, len(t))
        return t[:j] + self.ch(IDLE + ["1", "_", "."]) + t[j:]

    def long(self):
        """A long text, plain or of awkward pieces."""
        n = self.ch(LENGTHS)
        k = self.r.random()
        if k < 0.4:
            t = self.ch(["x", "ab", "a_", "\u00e9", "\U0001f600", "1", "0", "\\", "\"", "\n", "a b", "a,", "-"]) * n
            return t[:n]
        t = "".join(self.ch("abcdefgh12_") for _ in range(n))
        if k < 0.8:
            j = self.r.choice([0, n - 1, n // 2, self.r.randrange(n)])
            t = t[:j] + self.ch(list(" :,|\t\n\r\"\\[]{}#-.") + WS + ODD) + t[j + 1:]
        return t

    def grow(self, v):
        """The value with something in it of unusual size or spelling."""
        at = [x for x in self.subvalues(v) if x[0] in (3, 4, 5)]
        if not at:
            return v
        x = self.ch(at)
        k = self.r.random()
        if x[0] == 3:
            x[1] = self.long()
        elif x[0] == 4:
            n = self.ch(SIZES)
            es = x[1] or [self.prim()]
            if sum(map(size_of, es)) * n < 900 * len(es):
                x[1] = es + [self.clone(self.ch(es)) if self.p(0.9) else self.prim() for _ in range(max(0, n - len(es)))]
                if k < 0.2:
                    # the one that is different comes last
                    x[1].append(self.ch([[5, []], [4, []], [0], [3, ""], [4, [[0]]]]))
        elif k < 0.35 and x[1]:
            e = self.ch(x[1])
            n = self.almost() if k < 0.25 else self.long()
            if n not in [q for q, _ in x[1]]:
                e[0] = n
        elif k < 0.45:
            # deep below
            w = self.prim()
            for _ in range(self.ch([5, 8, 9, 10, 11, 12, 16, 17, 20, 22])):
                w = [4, [w]] if self.p(0.3) else [5, [[self.ch(IDENTS), w]]]
            x[1].append(["deep", w])
        else:
            have = {q for q, _ in x[1]}
            vs = [q for _, q in x[1]] or [self.prim()]
            stem = self.ch(["f", "a", "k_", "x.", "f "])
            if max(map(size_of, vs)) < 8:
                for i in range(self.ch(SIZES) - len(x[1])):
                    if stem + str(i) not in have:
                        x[1].append([stem + str(i), self.clone(self.ch(vs)) if self.p(0.5) else self.prim()])
                if k > 0.9:
                    self.r.shuffle(x[1])
        return v

    def clone(self, v):
        if v[0] == 4:
            return [4, [self.clone(x) for x in v[1]]]
        if v[0] == 5:
            return [5, [[k, self.clone(x)] for k, x in v[1]]]
        if v[0] == 2 and (len(v[1]) > 8 or "e" in v[1].lower()):
            # hundreds of digits, hundreds of times, are slow to judge
            return [2, str(self.r.randint(0, 999))]
        return [3, v[1][:40] + self.ch(["", "1", "x"])] if v[0] == 3 else list(v)

    def ch(self, xs):
        return xs[self.r.randrange(len(xs))]

    def p(self, x):
        return self.r.random() < x

    # ---------------------------------------------------------------- text
    ALPHA = "ab1 0.-:,|\"\\[]{}\t\n\rn e_#E+"

    def string(self):
        k = self.r.random()
        if k < self.wide:
            return self.long()
        if k < 0.45:
            return self.ch(STRINGS)
        if k < 0.6:
            return self.ch(IDENTS)
        if k < 0.9:
            return "".join(self.ch(self.ALPHA) for _ in range(self.r.randint(1, 6)))
        return "".join(self.ch(WS + ODD + list("a1-:\" ")) for _ in range(self.r.randint(1, 4)))

    def key(self, plain=0.5):
        if self.p(plain):
            return self.ch(IDENTS)
        if self.p(0.1):
            return self.almost()
        return self.ch(KEYS) if self.p(0.8) else self.string()

    nonfinite = 0

    def number(self):
        if self.nonfinite and self.p(self.nonfinite):
            return self.ch(["NaN", "inf", "-inf", "-0"])
        if self.p(0.7):
            return self.ch(NUMBERS)
        k = self.r.random()
        if k < 0.4:
            return str(self.r.randint(-1000, 1000))
        if k < 0.6:
            return f"{self.r.randint(-999, 999)}.{self.r.randint(0, 9999)}"
        if k < 0.8:
            return repr(self.r.uniform(-1, 1) * 10.0 ** self.r.randint(-320, 308))
        if k < 0.9:
            return str(self.r.randint(-2 ** 64, 2 ** 64))
        import struct
        f = struct.unpack("<d", self.r.getrandbits(64).to_bytes(8, "little"))[0]
        return repr(f) if f == f and abs(f) != float("inf") else "1"

    # ---------------------------------------------------------------- values
    def prim(self):
        k = self.r.random()
        if k < 0.5:
            return [3, self.string()]
        if k < 0.8:
            return [2, self.number()]
        if k < 0.93:
            return [1, self.p(0.5)]
        return [0]

    def keys(self, n, plain):
        out = []
        while len(out) < n:
            k = self.key(plain)
            if k not in out:
                out.append(k)
        return out

    def table(self, plain=0.6):
        """An array of objects that is a table, or very nearly one."""
        ks = self.keys(self.r.randint(1, 3), plain)
        if self.p(0.1):
            t = ks[0].swapcase()
            if t not in ks:
                ks.append(t)
        rows = []
        for _ in range(self.r.randint(1, 3)):
            order = list(ks)
            if self.p(0.3):
                self.r.shuffle(order)
            rows.append([5, [[k, self.prim()] for k in order]])
        k = self.r.random()
        if k < 0.5:
            return [4, rows]
        row = self.ch(rows)
        if k < 0.6:
            row[1].pop()
        elif k < 0.7:
            row[1].append([self.keys(1, plain)[0] + "z", self.prim()])
        elif k < 0.8:
            self.ch(row[1])[1] = self.ch([[4, []], [5, []], [4, [[0]]], [5, [["q", [0]]]]])
        elif k < 0.9:
            rows.insert(self.r.randint(0, len(rows)), self.ch([[5, []], [0], [4, []], self.prim()]))
        else:
            e = self.ch(row[1])
            e[0] = e[0] + "z"
        return [4, rows]

    def chain(self, depth, plain):
        """Nested single-field objects, the folding ground."""
        v = self.value(depth - 2, plain) if self.p(0.6) else self.ch([[5, []], [4, []], [0]])
        for _ in range(self.r.randint(1, 4)):
            v = [5, [[self.key(plain), v]]]
        return v

    def value(self, depth, plain=0.6):
        k = self.r.random()
        if depth <= 0 or k < 0.25:
            return self.prim()
        if k < 0.35:
            return [4, [self.prim() for _ in range(self.r.randint(0, 4))]]
        if k < 0.5:
            return self.table(plain)
        if k < 0.7:
            return [4, [self.value(depth - 1, plain) for _ in range(self.r.randint(0, 3))]]
        if k < 0.78:
            return self.chain(depth, plain)
        return [5, [[x, self.value(depth - 1, plain)] for x in self.keys(self.r.randint(0, 4), plain)]]

    def obj(self, depth, plain=0.6):
        return [5, [[x, self.value(depth - 1, plain)] for x in self.keys(self.r.randint(0, 4), plain)]]

    def root(self, depth, plain=0.6):
        k = self.r.random()
        if k < 0.08:
            return self.prim()
        if k < 0.35:
            return [4, [self.value(depth - 1, plain) for _ in range(self.r.randint(0, 4))]]
        if k < 0.42:
            return self.table(plain)
        return self.obj(depth, plain)

    # ---------------------------------------------------------------- documents
    TOKENS = ["1", "2", "-1", "0", "-0", "007", "1.5", "1.50", "1e3", "1E-2", "1e400", "true", "false", "null", "a", "b c", "x",
              "\"\"", "\"a\"", "\"a,b\"", "\"a|b\"", "\"a\tb\"", "\"x: y\"", "\"\\n\"", "\"\\\"\"", "\"\\\\\"", "\"tru\"", "\"1\"", "-", "- a", "#c",
              "é", "😀", "\u00a0", "a.b", "[1]", "{x}", "a]b", "1 2", "+1", ".5", "5.", "0x1"]
    BADTOK = ["\"", "\"a", "a\"", "\"a\"b", "\"\\x\"", "\"\\\"", "\"a\\", "\\n", "\"\\u0041\"", "\"a\" \"b\"", "a\"b,c\"d"]
    FIELD = ["a", "b", "c", "id", "x y", "\"k\"", "\"a,b\"", "\"a}b\"", "\"a:b\"", "\"a|b\"", "a.b", "1", "\"\"", "\"\\n\"", "é", "true"]
    BADFIELD = ["", "\"", "\"a", "\"a\"b", "a:b", "a]b", "a{b"]
    DKEYS = ["a", "b", "c", "d", "id", "x", "name", "a.b", "a.b.c", "a.x", "b.c", "x y", "1", "\"q\"", "\"a.b\"", "\"a b\"", "\"\"", "\"k:\"", "\"[x]\"", "é",
             "_", "-", "-k", "a-b", "\"\\t\"", "\"a\\\"b\"", "true"]
    BADKEYS = ["", "\"", "\"a", "\"a\"b", "a\"b", "\"\\q\"", "a]", "[", "a[", "a}", "a{b"]

    IDKEYS = [a + c + b for c in IDLE for a, b in (("a", ""), ("", "a"), ("a", "b"))] + ["a" * n for n in (9, 17, 33, 65, 129, 257)]

    def tok(self):
        k = self.r.random()
        if k < 0.9:
            return self.ch(self.TOKENS)
        return self.ch(self.BADTOK) if k < 0.94 else self.string().replace("\n", "n")

    def dkey(self):
        if self.p(0.03):
            return self.ch(self.IDKEYS)
        return self.ch(self.DKEYS) if self.p(0.96) else self.ch(self.BADKEYS)

    def delim(self):
        return self.ch([",", ",", ",", "|", "\t"])

    def count(self, n):
        """The declared length: usually right."""
        k = self.r.random()
        if k < 0.93:
            return str(n)
        return self.ch([str(n + 1), str(max(0, n - 1)), "0" + str(n), "+" + str(n), "-1", "", " ", str(n) + " ", "x", "1.0", "#" + str(n),
                        "100000000", "100000001", "18446744073709551615", "18446744073709551616", "99999999999999999999999"])

    def header(self, key, n, d, fields=None):
        m = "" if d == "," else d
        f = ""
        if fields is not None:
            f = "{" + d.join(fields) + "}"
        gap = self.ch(["", "", "", "", "", " "]) if self.p(0.1) else ""
        return f"{key}[{self.count(n)}{m}]{gap}{f}:"

    def row(self, n, d):
        k = self.r.random()
        if k > 0.95:
            n = max(0, n + self.ch([-1, 1]))
        sep = d if self.p(0.9) else self.ch([" " + d + " ", d + " ", " " + d])
        return sep.join(self.tok() for _ in range(n))

    def lines_fields(self, depth, lvl, n):
        out = []
        for _ in range(n):
            out += self.lines_field(depth, lvl, self.dkey())
        return out

    def lines_field(self, depth, lvl, key):
        """[(level, text)] for one field."""
        k = self.r.random()
        if depth <= 0 or k < 0.4:
            sp = self.ch([" ", " ", " ", "", "  "]) if self.p(0.2) else " "
            return [(lvl, f"{key}:{sp}{self.tok()}")]
        if k < 0.58:
            n = self.span(0, 3)
            return [(lvl, f"{key}:")] + self.lines_fields(depth - 1 if n < 4 else 0, lvl + 1, n)
        return self.lines_array(depth, lvl, key)

    def lines_array(self, depth, lvl, key):
        k = self.r.random()
        d = self.delim()
        if k < 0.3:
            n = self.span(0, 4)
            h = self.header(key, n, d)
            r = self.row(n, d)
            return [(lvl, h + (" " + r if r else self.ch(["", "", " "])))]
        if k < 0.6:
            m = self.span(1, 3)
            fs = [self.ch(self.FIELD) if self.p(0.97) else self.ch(self.BADFIELD) for _ in range(m)]
            n = self.span(0, 3) if m < 4 else self.r.randint(0, 3)
            return [(lvl, self.header(key, n, d, fs))] + [(lvl + 1, self.row(m, d)) for _ in range(n)]
        n = self.span(0, 3)
        out = [(lvl, self.header(key, n, d))]
        for _ in range(n):
            out += self.lines_item(depth - 1 if n < 4 else 0, lvl + 1)
        return out

    def lines_item(self, depth, lvl):
        k = self.r.random()
        if k < 0.35 or depth <= 0:
            return [(lvl, "- " + self.tok())]
        if k < 0.42:
            return [(lvl, self.ch(["-", "-", "- ", "-  "]))]
        if k < 0.6:
            ls = self.lines_array(depth, lvl, "")
            return [(lvl, "- " + ls[0][1])] + ls[1:]
        # an object: the first field on the hyphen line, one level deeper
        ls = self.lines_field(depth, lvl + 1, self.dkey())
        first = [(lvl, "- " + ls[0][1])] + ls[1:]
        n = self.span(0, 2)
        return first + self.lines_fields(depth - 1 if n < 3 else 0, lvl + 1, n)

    def vast(self, ind, off=0.0):
        """A document of one shape, repeated to an unusual size.  off: how
        often a declared count is wrong."""
        r, ch = self.r, self.ch
        n = ch(SIZES)
        d = ch([",", ",", "|", "\t"])
        m = "" if d == "," else d

        def cnt(k):
            return k + ch([-1, 1, 1, 2]) if self.p(off) else k

        def cells(k):
            return d.join(str(i) if i % 7 else "x%d" % i for i in range(cnt(k)))

        def cols(k):
            return "{" + d.join("f%d" % i for i in range(k)) + "}"

        def fields(lvl, k):
            return [(lvl, "g%d: %d" % (i, i)) for i in range(k)]

        def array(key, k):
            q = r.randrange(7)
            if q == 0:
                return [(0, f"{key}[{k}{m}]: {cells(k)}")]
            if q == 1:
                return [(0, f"{key}[{k}{m}]{cols(2)}:")] + [(1, cells(2)) for _ in range(cnt(k))]
            if q == 2:
                return [(0, f"{key}[2{m}]{cols(k)}:"), (1, cells(k)), (1, cells(k))]
            if q == 3:
                return [(0, f"{key}[{k}]:")] + [(1, "- %d" % i) for i in range(cnt(k))]
            if q == 4:
                return [(0, f"{key}[{k}]:")] + [x for i in range(cnt(k)) for x in ((1, "- a: %d" % i), (2, "b: x"))]
            if q == 5:
                return [(0, f"{key}[{k}]:")] + [x for i in range(cnt(k)) for x in ch([[(1, "- [1]: 1")], [(1, "- t[1]{a}:"), (3, "1")], [(1, "-")], [(1, "- o:"), (3, "p: 1")]])]
            return [(0, f"{key}[{k}]:")] + [(1, "- [%d]: %s" % (2, "1,2")) for i in range(cnt(k))]
        q = r.randrange(13)
        if q < 3:
            ls = array("k", n)
        elif q == 3:
            ls = array("", n)
        elif q == 4:
            ls = fields(0, n)
        elif q == 5:
            ls = [(0, "o:")] + fields(1, n) + [(0, "p: 1")]
        elif q < 9:
            # an object in a list: a first field of some kind, many more after it
            first = ch([[(0, "a: 1")], [(0, "a:"), (1, "b: 1")], [(0, "a:")], array("a", 2), array("a", 1), array("a", n) if n < 40 else array("a", 3)])
            ls = [(0, "k[2]:"), (1, "- " + first[0][1])] + [(l + 2, t) for l, t in first[1:]] + fields(2, n) + [(1, "- z")]
        elif q == 9:
            ls = [(i, "k%d:" % i) for i in range(min(n, 60))] + [(min(n, 60), "x: 1"), (r.randrange(min(n, 60)), "y: 2")]
        elif q == 10:
            w = min(n, 60)
            ls = [(0, "k[1]:")] + [(i + 1, "- [1]:") for i in range(w)] + [(w + 1, "- " + ch(["1", "a: 1", "[1]: 1"]))] + ([(0, "y: 2")] if self.p(0.5) else [])
        elif q == 11:
            t = "q" * n
            ls = ch([[(0, t + ": 1")], [(0, "a: " + t)], [(0, "a: \"" + t + "\"")], [(0, "\"" + t + "\"[1]: 1")], [(0, f"a[1]{{{t},b}}:"), (1, t + ",2")], [(0, "a: " + "7" * min(n, 14))]])
        else:
            ls = [x for i in range(min(n, 40)) for x in [(l, t.replace("k", "k%d" % i, 1)) for l, t in array("k", 2)]]
        if self.p(0.3):
            # everything below a key, and something after it
            ls = [(0, "top:")] + [(l + 1, t) for l, t in ls] + [(0, "end: 1")]
        raw = [" " * (ind * l) + t for l, t in ls]
        if self.p(0.2):
            raw += [""] * ch([1, 2, n])
        return "\n".join(raw)

    def mutate(self, ls, ind):
        """ls: raw lines."""
        k = self.r.randrange(16)
        i = self.r.randrange(len(ls)) if ls else 0
        if not ls:
            return [self.ch(["", " ", "\t", "a"])]
        l = ls[i]
        if k == 0:
            ls.pop(i)
        elif k == 1:
            ls.insert(i, l)
        elif k == 2:
            ls[i] = " " * self.ch([1, 1, ind, ind, ind + 1]) + l
        elif k == 3:
            ls[i] = l[1:] if l.startswith(" ") else l
        elif k == 4:
            ls[i] = l[ind:] if l.startswith(" " * ind) else l
        elif k in (5, 6):
            ls.insert(self.r.randint(0, len(ls)), self.ch(["", "", " ", " " * ind, " " * (ind * 2), "\t", "\r", "\u00a0"]))
        elif k == 7:
            j = len(l) - len(l.lstrip(" "))
            ls[i] = l[:j] + "\t" + l[j:] if self.p(0.6) else "\t" + l
        elif k == 8:
            ls[i] = l + self.ch([" ", "\r", "\t", "x", ",", ":", "\"", "|"])
        elif k == 9 and l:
            j = self.r.randrange(len(l))
            ls[i] = l[:j] + l[j + 1:]
        elif k == 10:
            j = self.r.randint(0, len(l))
            ls[i] = l[:j] + self.ch(list("\"\\:,|[]{}- 0a\t#.")) + l[j:]
        elif k == 11 and len(ls) > 1:
            j = self.r.randrange(len(ls))
            ls[i], ls[j] = ls[j], ls[i]
        elif k == 12:
            ls.append(self.ch(["", "a: 1", " " * ind + "a: 1", "- x", "-", " " * ind + "- x", " " * ind + "-", "1", " " * ind + "1,2", " " * ind + "x: 1", "[1]: 1"]))
        elif k == 13:
            j = len(l) - len(l.lstrip(" "))
            ls.insert(i + 1, l[:j] + self.ch(["-", "- x", "- x: 1", "z: 1", "1", "1,2", "1|2", "a", "\"q\"", "- [1]: 1"]))
        elif k == 14:
            ls[i] = l.replace(":", "", 1) if self.p(0.5) else l.replace(" ", "", 1)
        else:
            ls[i] = l.replace(self.ch([",", "|", "]", "}", "- "]), self.ch(["", ",", "|", "\t"]), 1)
        return ls

    def doc(self, ind, mut=None):
        k = self.r.random()
        if k < 0.1:
            ls = [(0, self.tok())]
        elif k < 0.3:
            ls = self.lines_array(3, 0, "")
        else:
            n = self.span(1, 4)
            ls = self.lines_fields(3 if n < 5 else 0, 0, n)
        raw = [" " * (ind * a) + t for a, t in ls]
        n = mut if mut is not None else self.ch([0, 0, 1, 1, 1, 2, 3])
        for _ in range(n):
            raw = self.mutate(raw, ind)
        if self.p(0.1):
            raw.append("")
        return "\n".join(raw)

    def soup(self):
        """Short text from the characters that matter."""
        return "".join(self.ch("a1 :,|-\"\\[]{}.0\t\n\n  ") for _ in range(self.r.randint(0, 14)))

    def huge(self):
        """A value of one shape, repeated to an unusual size."""
        r, ch = self.r, self.ch
        n = ch(SIZES)
        x = lambda i: ch([[2, str(i)], [3, "x%d" % i], [1, i % 2 == 0], [0]])
        obj = lambda k, f="f": [5, [[f + str(i), x(i)] for i in range(k)]]
        arr = lambda k: [4, [x(i) for i in range(k)]]
        some = lambda k: ch([arr(k), [4, [obj(2) for _ in range(k)]], [4, [obj(k), obj(k)]], obj(k), [4, [[5, []]] * k], [4, [arr(2) for _ in range(k)]],
                             [4, [[5, [["a", arr(2)], ["b", x(i)]]] for i in range(k)]], [4, [[5, [["t", [4, [obj(2), obj(2)]]], ["b", x(i)]]] for i in range(k)]],
                             [5, [["o%d" % i, obj(1)] for i in range(k)]], [4, [x(i) for i in range(k)] + [ch([obj(1), arr(1), [5, []], [4, []]])]],
                             [4, [obj(2) for _ in range(k)] + [ch([[5, [["f0", [0]]]], x(1), [5, []], [5, [["f0", arr(1)], ["f1", [0]]]], [5, [["f1", [0]], ["f0", [0]]]]])]]])
        q = r.randrange(6)
        if q == 0:
            return some(n)
        if q == 1:
            return [5, [["k", some(n)], ["z", x(1)]]]
        if q == 2:
            # an object in a list: some first field, many after it
            return [5, [["k", [4, [[5, [["a", some(ch([1, 2, 3]))]] + obj(n, "g")[1]], x(2)]]]]]
        if q == 3:
            v = ch([some(2), x(1)])
            for i in range(min(n, 33)):
                v = ch([[4, [v]], [5, [[ch(IDENTS), v]]], [5, [[ch(IDENTS), v], ["zz", x(3)]]]])
            return v
        if q == 4:
            t = self.long()
            return ch([[3, t], [5, [[t, x(1)]]], [5, [["k", [3, t]]]], [4, [[3, t], x(1)]], [4, [[5, [[t, x(1)], ["b", [3, t]]]]]], [5, [[t, arr(2)]]]])
        v = [5, [[ch(IDENTS) + str(i % 3), some(2)] for i in range(3)]]
        v[1] = list({k: [k, y] for k, y in v[1]}.values())
        return self.grow(v)

    # ---------------------------------------------------------------- events
    def events(self, n):
        pool = [[1], [2], [3, 0], [3, 1], [3, 2], [4], [5, 0, "a"], [5, 0, "b"], [5, 1, "a.b"], [5, 0, "a.b"],
                [6, [0]], [6, [2, "1"]], [6, [3, "x"]]]
        return [self.ch(pool) for _ in range(n)]

    # ---------------------------------------------------------------- replacer rules
    def paths(self, v, at=()):
        out = [list(at)]
        if v[0] == 4:
            for i, x in enumerate(v[1]):
                out += self.paths(x, at + ([1, str(i)],))
        elif v[0] == 5:
            for k, x in v[1]:
                out += self.paths(x, at + ([0, k],))
        return out

    def subvalues(self, v):
        out = [v]
        if v[0] in (4, 5):
            for x in v[1]:
                out += self.subvalues(x if v[0] == 4 else x[1])
        return out

    def rules(self, v):
        out = []
        ps = self.paths(v)
        for _ in range(self.r.randint(1, 3)):
            c = self.ch([0, 1, 1, 2, 2, 3, 4, 5, 6])
            arg = 0
            if c == 1:
                p = self.ch(ps)
                arg = p[-1][1] if p else ""
            elif c == 2:
                arg = self.ch(ps)
            elif c == 3:
                arg = [self.r.randint(0, 3)]
            elif c == 4:
                arg = self.ch(self.subvalues(v))
            a = self.ch([0, 0, 1, 1, 2, 3])
            if a == 2 and c in (0, 5, 6, 4):
                # wrapping answers are descended into: keep them finite
                c, arg = 2, self.ch(ps)
            res = 0
            if a == 1:
                res = self.value(2)
                if c in (0, 3, 5, 6, 4, 1):
                    # a replacement is descended into as well
                    res = self.prim() if c != 3 and self.p(0.7) else res
            elif a == 2:
                res = self.ch(["w", "a", "a.b"])
            out.append([c, arg, a, res])
        return out
