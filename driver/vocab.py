"""What the exhaustive models are instantiated with: alternatives per slot."""
from lib import cps

NL = "\n"


def texts(ls):
    return [cps(x) for x in ls]


def lines(words, depths, indent=2, last=False, extra=()):
    """One line, or none."""
    out = [""]
    for d in depths:
        out += [" " * (indent * d) + w + ("" if last else NL) for w in words]
    out += [x + ("" if last else NL) for x in extra]
    return out


def cfg(indent=2, strict=True, x=False):
    return dict(indent=indent, strict=strict, x=x)


WORDS = ["a: 1", "b:", "c: \"x:y\"", "\"q\": 2", "- 1", "-", "- a: 1", "- b:", "- [2]: 1,2", "- [1]:", "- k[1]{x}:",
         "k[2]: 1,2", "k[1]:", "k[2]{x,y}:", "[1]:", "[2]{x}:", "1,2", "x", "a.b: 1"]
FEW = ["a: 1", "b:", "- 1", "- b: 1", "- b:", "- [1]:", "k[2]:", "k[2]{x,y}:", "1,2", "- k[1]{x}:", "x"]
TINY = ["b: 1", "- b: 1", "[1]:", "k[1]:", "k[1]{x}:", "1"]

ALPHA = list("atn019.-+eE\"\\ ,|:[]{}#_") + ["\t", "\u00e9", "\u00a0"]
SHORT = list("a1-.\"\\ ,:[") + ["\t"]

FAMILIES = {}


def read(name, slots, cfgs, quiet=0, live=False, val=0):
    FAMILIES[name] = dict(module="MC_Read", cfg="MC_ReadLive" if live else "MC_Read",
                          const=dict(slots=[texts(s) for s in slots], cfgs=cfgs, quiet=quiet, val=val))


# documents of up to three lines, all line forms, three depths
read("docs3", [lines(WORDS, [0, 1], extra=["", " a: 1"]),
               lines(WORDS, [0, 1, 2], extra=["", " - 1", "\tx"]),
               lines(WORDS, [0, 1, 2], last=True, extra=["\n", "   1,2"])], [cfg()], val=1)
# documents of up to five lines over fewer forms
read("docs5", [lines(FEW[1:2] + FEW[6:8] + FEW[5:6], [0]),
               lines(FEW, [1], extra=[""]),
               lines(FEW, [0, 1, 2], extra=[""]),
               lines(["a: 1", "- 1", "1,2", "k[1]{x}:"], [0, 1, 2, 3], extra=[""]),
               lines(["- 1", "1,2"], [0, 1, 2, 3], last=True)], [cfg()])
# indentation alone: every width and kind of leading blank, two lines deep
WIDTH = [" " * n for n in range(0, 6)] + ["\t", " \t", "  \t", "\u00a0", "\r"]
read("widths", [["", "a:\n", "k[2]:\n", "a:\n  b:\n"], WIDTH, ["b: 1\n", "- 1\n", "\n", "k[1]:\n"], WIDTH, ["c: 1", "- 2", ""]],
     [cfg(i) for i in (0, 1, 2, 3, 4)])
# one token in every reading position
read("tokens", [["", "k: ", "k[1]: ", "k[2|]: 1|", "[1]:\n  - ", "k[1]{a}:\n  "]] + [[""] + ALPHA] * 3, [cfg()])
read("tokens4", [["", "k: "]] + [SHORT] * 4, [cfg()])
read("words", [["", "k: ", "k[2]: 1,"], ["", "\"", " ", "-"], ["true", "false", "null", "True", "12", "1.5", "007", "1e5", "-0"], ["", "\"", " ", ".", "e", "x", "0", "\\"]], [cfg()])
# keys in front of a colon
read("keys", [["", "[1]:\n  - ", "a:\n  "]] + [[""] + SHORT] * 3 + [[":", ": 1", "[1]: 1", "[0]:", ""]], [cfg()])
# headers put together from parts
read("headers", [["", "k", "\"a[1]\"", "\"a:b\"", "- ", "- k", "x: ", "\"k", "a b"],
                 ["[", "", "[["],
                 ["2", "0", "", "02", "+1", "-1", "x", "100000001"],
                 ["", "|", "\t", ",", " "],
                 ["]", "", "]]"],
                 ["", "{a}", "{a,b}", "{\"a|b\"|c}", "{\"}\"}", "{}", "{a", "{\"a,b\",c}"],
                 [":", "", "::", ": 1,2", ": \"a,b\",c", ": 1|2", ": x]y:z"],
                 ["", "\n  1,2", "\n  - 1\n  - 2"]], [cfg()])
# paths to expand
PATHS = ["a", "b", "a.b", "b.a", "a.b.a", "\"a.b\"", "a.", "\"a\""]
VALS = [": 1\n", ":\n", "[1]: 2\n", ":\n  a: 3\n", ":\n  b: 4\n", ":\n  a.b: 5\n", ":\n  \"a.b\": 6\n", "[1]:\n  - a.b: 7\n"]
PAIRS = [k + v for k in PATHS for v in VALS]
read("paths2", [[""] + PAIRS, [""] + PAIRS], [cfg(x=True)])
read("paths3", [[k + v for k in PATHS[:6] for v in VALS[:4]]] + [[k + v for k in PATHS[:6] for v in (VALS[0], VALS[1], VALS[4])]] * 2, [cfg(x=True)])
# few enough to follow every run to its end
read("live", [lines(TINY, [0], extra=[""]), lines(TINY, [0, 1], extra=[""]), lines(TINY, [0, 1, 2], last=True, extra=["\n"])], [cfg()], 1, True)


def write(name, family, cfgs, **kw):
    c = dict(family=family, cfgs=cfgs, quiet=0, prims=[], keys=[], tops=[], slots=[], leaves=[], wraps=0, wrapkeys=texts(["k", "l"]), whole=0)
    c.update(kw)
    FAMILIES[name] = dict(module="MC_Write", cfg="MC_Write", const=c)


def wcfg(indent=2, delim=",", fold=False, flat=1000000):
    return dict(indent=indent, delim=ord(delim), fold=fold, flat=flat)


S = lambda t: [3, cps(t)]
N = lambda t: [2, cps(t)]
A = lambda *x: [4, list(x)]
def O(*kv, **kw):
    return [5, [[cps(k), v] for k, v in list(kv) + list(kw.items())]]
ONE = N("1")
LEAVES = [ONE, S("x,|"), S(""), A(), O(), A(ONE, S("a b")), A(O(a=ONE, A=S("p,q")), O(("A", ONE), ("a", S("|")))), A(O(a=ONE), O(b=ONE)),
          A(A(ONE), A()), O(a=O(b=ONE)), O(a=O(b=O(c=O()))), O(("a.b", ONE), ("a", O(b=N("2")))), O(("a", O(b=ONE)), ("a.b", N("2")), ("b", O(c=ONE))),
          O(("", O(("", ONE)))), A(O(("a,b", ONE), ("c|d", S("e|f")))), O(a=A(O(b=ONE))), A(O(a=O(b=ONE))), A(O(), O()), A(O(a=A(ONE), b=N("2")), S("- x")),
          A(O(a=ONE), O(a=A())), A(O(a=O(b=O(c=A(ONE)))), [0]), O(("k.l", ONE), ("k", O(l=O(k=ONE)))), A(O(k=O(l=ONE)), O(k=O(l=ONE)))]
write("nests", "nests", [wcfg(), wcfg(2, "|", True), wcfg(1, "\t", True, 2)], leaves=LEAVES, wraps=3)
write("trees", "trees", [wcfg(), wcfg(1, "|"), wcfg(4, "\t", True)], prims=[N("1"), S("x,|"), [0]], keys=texts(["a", "b c"]))
write("chains", "chains", [wcfg(2, ",", True, f) for f in (1000000, 0, 2, 3)] + [wcfg(2, ",")],
      prims=[N("1")], keys=texts(["a", "b"]), tops=texts(["a", "b", "a.b", "a.b.a"]))
write("chains2", "chains", [wcfg(2, ",", True, f) for f in (1000000, 2)],
      prims=[N("1")], keys=texts(["a", "1"]), tops=texts(["a", "b-"]))
write("listchains", "chains", [wcfg(2, ",", True)], prims=[N("1")], keys=texts(["a", "b"]), tops=texts(["a", "a.b"]), wraps=1, whole=1)
# a chain, a fork, a chain; and a key spelled like a stretch of the path
def forks():
    out = []
    for names in ("abcdef", "aaaaaa"):
        for n1 in (1, 2, 3):
            for n2 in (1, 2, 3):
                for end in (ONE, O()):
                    seg = list(names[:n1 + n2])
                    lits = sorted({".".join(seg[i:j]) for i in range(len(seg)) for j in range(i + 2, len(seg) + 1)})
                    for lit in [None] + lits:
                        for at in (0, 1, 2, 3) if lit else (0,):
                            low = end
                            for k in reversed(seg[n1 + 1:]):
                                low = O((k, low))
                            fork = [(seg[n1], low), ("z", ONE)]
                            if at == 2:
                                fork.insert(0, (lit, N("7")))
                            if at == 3:
                                fork.append((lit, O(("y", O(y=ONE)))))
                            v = O(*fork)
                            for k in reversed(seg[1:n1]):
                                v = O((k, v))
                            root = [(seg[0], v)]
                            if lit and at < 2:
                                root.insert(at, (lit, N("7")))
                            out.append(O(*root))
    return out


write("forks", "nests", [wcfg(2, ",", True, f) for f in (1000000, 2, 3, 4)], leaves=forks())
# every small edit of these, written
TWO = N("2")
EDITED = [O(a=ONE), O(a=ONE, b=S("x y")), O(a=O(b=ONE), c=[0]), O(a=A(ONE, S("b"))), O(a=A(O(x=ONE, y=TWO), O(x=S("p"), y=S("q:")))), A(ONE, S("")), A(O(x=ONE)), A(A(ONE), A()),
          O(a=A(O(b=ONE, c=TWO), S("d"))), O(a=A(O(b=A(ONE, TWO), c=O(d=[0])), O()), e=ONE), O(a=A(A(ONE, TWO), O(b=A(O(x=ONE))))), A(O(a=A(O(x=ONE, y=TWO)), b=ONE), ONE), O(("a b", ONE), ("", A())),
          S("x"), S("a:b"), O(a=O(), b=A(), c=A(O(), A())), O(a=A(O(b=O(c=ONE), d=TWO)), e=TWO), A(A(A(ONE)), A(O(x=ONE), O(x=TWO)))]
EDCHARS = [ord(c) for c in " -:\"\\,|[]{}0a."] + [9, 10]
FAMILIES["edits"] = dict(module="MC_Mutate", cfg="MC_Mutate", const=dict(edits=1, values=EDITED, cfgs=[wcfg(), wcfg(1, "|")], chars=EDCHARS))
DOTTED = [O(("a.b", ONE), ("a.c", TWO)), O(("a.b", ONE), ("a", O(c=TWO))), O(("a", O(b=ONE)), ("a.b", TWO)), O(a=A(O(("b.c", ONE), ("b", TWO)))), O(a=O(b=O(c=ONE, d=TWO), e=O(f=A()))), A(O(("x.y", ONE), ("x.z", TWO)))]
FAMILIES["editsx"] = dict(module="MC_Mutate", cfg="MC_Mutate", const=dict(edits=1, values=DOTTED, cfgs=[wcfg(2, ",", True)], chars=EDCHARS))
STR = list("at1-.\"\\ ,|:[]{}#e+_") + ["\t", "\n", "\r", "\u00e9", "\u00a0", "\u0001"]
write("strings", "strings", [wcfg(), wcfg(2, "|"), wcfg(2, "\t")], slots=[texts([""] + STR)] * 3)
write("wordlike", "strings", [wcfg(), wcfg(2, "|")],
      slots=[texts(["", "-", " ", "0", "+"]), texts(["true", "false", "null", "True", "0", "12", "1.5", "1e5", "NaN", "a"]), texts(["", ".", "e", "e5", "x", " ", "0", ".0"])])


T = lambda b: [1, 1 if b else 0]
FAMILIES["events"] = dict(module="MC_Events", cfg="MC_Events", const=dict(length=8, events=[
    [1], [2], [3, 1], [4], [5, 0, cps("a")], [5, 1, cps("b")], [6, S("x")], [6, T(True)]]))
PATHTO = lambda *p: [[0, cps(x)] if isinstance(x, str) else [1, cps(str(x))] for x in p]
FAMILIES["replace"] = dict(module="MC_Replace", cfg="MC_Replace", const=dict(rules=2, values=[
    N("1"), A(), O(), A(N("1"), S("x")), O(a=N("1"), b=S("x")), O(a=A(N("1"), N("1"), O(a=N("1")))), A(O(a=N("1")), O(a=S("x"))),
    A(A(N("1")), A()), O(a=O(b=O(a=[0]))), O(a=O(), b=O(a=N("1"), b=A(S("x"), [0]))), [2, []], A([2, []], O(b=[2, []]))],
    pool=[[0, 0, 0, 0], [0, 0, 1, N("2")], [0, 0, 2, cps("w")], [0, 0, 3, 0], [1, cps("a"), 0, 0], [1, cps("0"), 0, 0], [1, cps(""), 0, 0], [1, cps("b"), 1, O(a=N("1"), c=A(N("5")))],
          [1, cps("1"), 1, A()], [1, cps(""), 1, A(N("1"), O(b=S("y")))], [2, PATHTO("a", 0), 0, 0], [2, PATHTO("a", "b"), 2, cps("v")], [2, PATHTO(0), 1, [2, []]], [3, [1], 0, 0],
          [3, [2], 1, S("deep")], [4, N("1"), 0, 0], [4, N("1"), 1, O(a=N("1"))], [5, 0, 0, 0], [5, 0, 1, A(N("1"), N("1"))], [6, 0, 2, cps("a.b")], [6, 0, 0, 0], [6, 0, 1, [0]]]))


def jsonf(name, slots):
    FAMILIES[name] = dict(module="MC_Json", cfg="MC_Json", const=dict(slots=[texts(x) for x in slots]))


TOK = ["", "{", "}", "[", "]", ",", ":", "\"a\"", "1", "null"]
jsonf("json", [TOK[1:]] + [TOK] * 4)
jsonf("jsonobj", [["{\"a\":", "[{\"b\":1},", " {\"a\":1,", "{\"b\":{},\"a\":"], ["1", "{\"a\":2}", "[1,\"x\"]", "\"a\":3", "{\"b\":2,\"b\":[]}", "tru", "\"\\u0041\\n\""],
                  ["", " ", ",", ",\"b\":true", ",\"a\":[]", ",\"a\":{\"c\":null}"], ["", "}", "]", "} ", "}}"]])
JS = ["", "a", "\\\"", "\\\\", "\\/", "\\b", "\\n", "\\t", "\\u0041", "\\u00e9", "\\ud83d\\ude00", "\\ud83d", "\\ude00", "\\x", "\\u00", "\n", "\u00e9", "\""]
jsonf("jsonstr", [["\"", "[\""], JS, JS, JS, ["\"", "\"]", ""]])
JN = ["", "-", "0", "1", "9", ".", "e", "E", "+", "5"]
jsonf("jsonnum", [["", "[", "-"], JN, JN, JN, JN, ["", "]"]])
jsonf("jsonnum2", [["1", "[1.", "[-0", "10.0", "-5.50", "0.0"], JN, JN, JN, ["", "]", ",1]"]])

FILE_NAMES = ["", "-", "in.json", "in.JSON", "in.toon", "in.TOON", "in.ToOn", "in.txt", "in", "in.toon.json", "in.json.toon", ".toon", ".x.toon",
              "in.", "in.toon.", "toon", "d.toon/in", "d.json/in.toon", "in.jsontoon", "in.toonx", "in toon.toon", "in.to on", "\u00fcber.toon", "./-"]
FAMILIES["cli"] = dict(module="MC_Cli", cfg="MC_Cli", const=dict(names=texts(FILE_NAMES)))
FAMILIES["clilive"] = dict(module="MC_Cli", cfg="MC_CliLive", const=dict(names=texts(["", "in.toon"])))

# option values of the bindings
JSN = lambda n: [2, n]
JST = lambda t: [3, cps(t)]
FAMILIES["bindings"] = dict(module="MC_Bindings", cfg="MC_Bindings", const=dict(
    whole=[[0], [1], [6], JSN(4), JST("safe"), [4, 1], [4, 0], [5, [[cps("Indent"), JSN(4)]]]],
    encfields=[[cps("indent"), [[0], [1], JSN(0), JSN(1), JSN(4), JST("4"), [4, 1]]], [cps("delimiter"), [JST(","), JST("|"), JST("\t"), JST(""), JSN(1)]],
               [cps("keyFolding"), [JST("safe"), JST("off"), JST("Safe"), [4, 1], [1]]], [cps("flattenDepth"), [JSN(0), JSN(2), JST("2"), [1]]]],
    decfields=[[cps("strict"), [[4, 0], [4, 1], JSN(0), JST("false"), [0]]], [cps("expandPaths"), [JST("safe"), JST("off"), JST("SAFE"), [4, 1], [0]]],
               [cps("indent"), [[0], [1], JSN(2), JSN(1), JSN(4), JST("4")]]],
    json=texts(['{"a":{"b":{"c":1}},"l":[1,"x|y"],"t":[{"p":1,"q":null},{"p":"a,b","q":true}],"m":[{"k":[2]},{}]}', '"x"', "{", "[1,{}]", "nul", " {} "]),
    docs=texts(["a: 1\nb:\n  c: x", "a: 1\nb:\n    c: x", "a.b: 1\na.c: 2", "a.b: 1\na: 2", "l[2]: 1", "t[2]{p,q}:\n  1,2\n  3,4", "l[1]:\n  - x\n\nk: 1", "k: \"\\q\"", "x", "", "a:\n b: 1", "a: 1\na: 2"])))

SW = ["", "a", "ab cd", "\u00a0", "x\\n", "   ", "\u2003y", "word word word", "12345678", "\u200b"]
FAMILIES["stats"] = dict(module="MC_Stats", cfg="MC_Stats", const=dict(slots=[texts(x) for x in [["", " \n"], ["\"", "[\"", "{\"k\": \""], SW, SW, SW, ["\"", "\"]", "\" }"]]]))


# ------------------------------------------------------------------ deeper
# Explored and replayed in thorough runs only.
plain = set(FAMILIES)
read("docs4", [lines(FEW, [0]), lines(FEW, [0, 1], extra=[""]), lines(FEW, [0, 1, 2], extra=[""]), lines(FEW, [0, 1, 2, 3], last=True, extra=[""])], [cfg()], val=1)
read("docs5x", [lines(TINY, [0]), lines(TINY, [0, 1]), lines(TINY, [0, 1, 2]), lines(TINY[:4], [0, 1, 2, 3], extra=[""]), lines(TINY[:4] + ["1"], [0, 1, 2, 3], last=True)], [cfg()])
read("tokens5", [["", "k: "]] + [[""] + list("a1-.\"\\ :,[e0")] * 5, [cfg()])
read("headers2", [["a:\n  k", "[1]:\n  - ", "[1]:\n  - k", "[1|]{a}:\n  ", "k: 1\n", "- \"[\"", "\"]\\\"\""], ["[2]", "[2|]", "[2\t]", "[0]", "[ 2]", "[2 ]", "[2||]", "[2,]"],
                   ["", "{a}", "{a,b}", "{a|b}", "{a\tb}", "{\"a:\",\"b]\"}", " {a}", "{a} ", "{ a , b }"], [":", " :", ""],
                   ["", " ", " 1,2", " 1|2", "1\t2", " \"1|2\",3", " \"x", " :", " 1,2 ", " ,", " a: b,c"],
                   ["", "\n  1,2", "\n    1|2\n    3|4", "\n  - 1\n  - 2", "\n    - a: 1\n    - b[1]: x"]], [cfg()])
read("paths3x", [PAIRS, [""] + PAIRS, [""] + PAIRS[:32]], [cfg(x=True)])
write("strings4", "strings", [wcfg(), wcfg(2, "|")], slots=[texts([""] + list("a1-.\"\\ ,|:[{#e") + ["\t", "\n"])] * 4)
write("trees4", "trees", [wcfg(), wcfg(1, "|"), wcfg(2, "\t", True)], prims=[N("1"), S("x,|"), [0], S("")], keys=texts(["a", "b c"]))
FAMILIES["edits2"] = dict(module="MC_Mutate", cfg="MC_Mutate", const=dict(edits=2, values=[O(a=ONE), A(ONE), A(O(x=ONE)), O(a=A()), A([0], O()), O(a=O(b=ONE))], cfgs=[wcfg()], chars=EDCHARS))
MORE = [O(a=A(O(b=O(c=O(d=ONE), e=A())), O(b=ONE)), f=A(A(), A(ONE))), A(A(O(a=ONE, b=TWO), O(a=S("x"), b=S("- y"))), A(O(a=A(O(x=ONE))))), O(a=A(O(t=A(O(x=ONE, y=TWO), O(x=S("a,b"), y=[0])), u=O(v=A(ONE, TWO)), w=S("z")))),
        O(("a:b", A(O(("c,d", ONE), ("e|f", S("g\th"))))), ("[1]", A(S("[2]: 1"), S("k[1]: 2")))), A(O(a=O()), O(a=A()), O(a=A(A())), O()), O(a=S("\n"), b=S("\\\""), c=A(S("\t"), S(" ")), d=O(e=S("-")))]
FAMILIES["edits3"] = dict(module="MC_Mutate", cfg="MC_Mutate", const=dict(edits=1, values=MORE, cfgs=[wcfg(), wcfg(4, "|"), wcfg(1, "\t")], chars=EDCHARS))
FAMILIES["events9"] = dict(module="MC_Events", cfg="MC_Events", const=dict(length=10, events=[[1], [2], [3, 1], [4], [5, 0, cps("a")], [6, S("x")]]))
FAMILIES["replace3"] = dict(module="MC_Replace", cfg="MC_Replace", const=dict(FAMILIES["replace"]["const"], rules=3))
jsonf("json6", [TOK[1:]] + [TOK] * 5)
jsonf("jsonstr4", [["\"", "[\"", "{\""], JS, JS, JS, JS, ["\"", "\"]", "\":1}"]])
DEEP = set(FAMILIES) - plain
