"""A suite: harness cases, and what of their observations TLC is to judge."""
import json, os
from lib import *

UNLIMITED = 1000000
EMPTY = {"st": "none"}


def norm(o):
    """An observation as the specification sees it (error texts do not count)."""
    r = {"st": o.get("st", "none")}
    if "evs" in o:
        r["evs"] = evs_tla(o["evs"])
    if "v" in o:
        r["v"] = flat(v_tla(o["v"]))
    if "text" in o:
        r["text"] = cps(o["text"])
    if "lines" in o:
        r["lines"] = [cps(l) for l in o["lines"]]
    if "calls" in o:
        r["calls"] = [[cps(k), [[p[0], cps(p[1])] for p in path], v_tla(x)] for k, path, x in o["calls"]]
    return r


def untwin(g, nums):
    """Observed lines or text with the spelling of exact ties made canonical."""
    alt = {}
    for t in nums:
        w = twin(t) if t else None
        if w:
            alt[w] = canon_num(t)
    if not alt:
        return g
    fix = lambda l: RUN_RE.sub(lambda m: alt.get(m.group(0), m.group(0)), l)
    g = dict(g)
    if "lines" in g:
        g["lines"] = [fix(l) for l in g["lines"]]
    if "text" in g:
        g["text"] = fix(g["text"])
    return g


def st_only(o):
    return {"st": o["st"]}


def panicked(o):
    """The entry point of an observation that panicked, or nothing."""
    if isinstance(o, dict):
        if o.get("st") == "panic":
            return "the code"
        for k, x in o.items():
            at = panicked(x)
            if at:
                return ",".join(o["n"]) if "n" in o else at
    elif isinstance(o, list) and (not o or isinstance(o[0], (dict, list))):
        for x in o:
            at = panicked(x) if isinstance(x, (dict, list)) else None
            if at:
                return at
    return None


DEFAULTS = {"dec": (("indent", 2), ("strict", True), ("expand", False)),
            "enc": (("indent", 2), ("delim", ","), ("fold", False))}


class Suite:
    def __init__(self, pid, work):
        self.pid, self.work = pid, work
        self.h = []          # harness cases
        self.mk = {}         # id -> function(h, obs) -> list of (tlc partial, [(label, obs)])
        self.tl = []         # tlc cases
        self.label = {}      # (tlc id, n) -> (harness id, text)
        self.direct = []     # violations needing no verdict: (harness id, text)
        self.obs = {}
        self.noted = {}
        self.tlc_id = 0
        self.twist = None    # function(h): changes a case before it is kept

    def add(self, h, mk):
        if self.twist:
            self.twist(h)
        h["id"] = len(self.h)
        if h["id"] % 4 == 0:
            # options left out take their defaults
            for k, default in DEFAULTS.get(h["op"], ()):
                if h.get(k) == default:
                    h[k] = None
        self.h.append(h)
        self.mk[h["id"]] = mk

    def note(self, h, o, mk):
        """A case observed already."""
        h["id"] = len(self.h)
        self.h.append(h)
        self.mk[h["id"]] = mk
        self.noted[h["id"]] = o

    def put(self, hid, obs, enc=None, dec=None, tab=None, give=0):
        """obs: list of (label, record).  Adds one TLC case."""
        if not obs:
            return
        tid = self.tlc_id
        self.tlc_id += 1
        self.tl.append({"id": tid, "give": give, "enc": [enc] if enc else [], "dec": [dec] if dec else [],
                        "obs": [o for _, o in obs], "tab": tab or []})
        for n, (lab, _) in enumerate(obs):
            self.label[(tid, n + 1)] = (hid, lab)

    def run(self, limit_ms=20000):
        ask = [h for h in self.h if h["id"] not in self.noted]
        self.obs = {**self.noted, **(run_harness(ask, self.work, limit_ms) if ask else {})}
        for h in self.h:
            o = self.obs[h["id"]]
            if o.get("skipped"):
                continue
            if "dead" in o:
                self.direct.append((h["id"], "the code did not return: " + o["dead"]))
                continue
            at = panicked(o)
            if at:
                self.direct.append((h["id"], "panic in " + at))
                continue
            self.mk[h["id"]](self, h, o)
        v, st, tr, _ = judge(self.tl, self.work)
        bad = list(self.direct)
        for k in sorted(v):
            if not v[k]:
                bad.append(self.label[k])
        self.verdicts, self.states, self.transitions = len(v), st, tr
        return bad


# ---------------------------------------------------------------- case makers
def groups(o, key):
    for g in o.get(key, []):
        yield ",".join(g["n"]), g["o"]


def dec_input(h):
    return {"own": 1, "doc": [cps(l) for l in h["doc"].split("\n")], "indent": h.get("indent", 2) if h.get("indent") is not None else 2,
            "strict": h["strict"] if h.get("strict") is not None else True}


def dec_case(kinds):
    """kinds: what to judge.  evs line verdict keys stream val json: against the
    reader of the specification; wf asm alike expandof jsonof streamof tj: the
    observations among themselves; above: a stream before an error; total."""
    def mk(s, h, o):
        out = []
        d = dec_input(h)
        x = bool(h.get("expand"))
        texts = [h["doc"]]
        above = None
        ev0 = norm(next(groups(o, "ev"), ("", {}))[1])
        val0 = norm(next(groups(o, "val"), ("", {}))[1])
        for lab, g in groups(o, "ev"):
            n = norm(g)
            n.setdefault("evs", [])
            if "evs" in kinds:
                out.append((lab, {"k": "evs", **n}))
            if "verdict" in kinds:
                out.append((lab, {"k": "verdict", **st_only(n)}))
            if "line" in kinds:
                out.append((lab + " (line named)", {"k": "line", **st_only(n), "el": err_line(g.get("msg"))}))
            if "wf" in kinds:
                out.append((lab + " (well-formed)", {"k": "wf", **n, "strict": d["strict"]}))
            if "keys" in kinds:
                out.append((lab + " (keys)", {"k": "keys", **n}))
            if "total" in kinds:
                out.append((lab, {"k": "total", **st_only(n)}))
        if "alike" in kinds:
            # Ok/Err outcome and content alike over all event APIs
            gs = list(groups(o, "ev"))
            for lab, g in gs[1:]:
                out.append((lab + " against " + gs[0][0], {"k": "alike", "a": norm(g), "b": norm(gs[0][1])}))
            gs = list(groups(o, "val"))
            for lab, g in gs[1:]:
                out.append((lab + " against " + gs[0][0], {"k": "alike", "a": norm(g), "b": norm(gs[0][1])}))
        for lab, g in groups(o, "astream"):
            n = norm(g)
            n["extra"] = g.get("extra", 0)
            n.setdefault("evs", [])
            if "stream" in kinds:
                out.append((lab, {"k": "stream", **n}))
            if "streamof" in kinds:
                out.append((lab, {"k": "streamof", **n, "est": ev0["st"], "all": ev0.get("evs", [])}))
            if "above" in kinds:
                ln = err_line(g.get("msg"))
                if n["st"] == "err" and ln > 0 and n["evs"]:
                    above = (lab, n["evs"], ln)
            if "total" in kinds:
                out.append((lab, {"k": "total", **st_only(n)}))
        for lab, g in groups(o, "val"):
            n = norm(g)
            n.setdefault("v", [0])
            if "val" in kinds:
                out.append((lab, {"k": "val", **n, "x": x}))
            if "total" in kinds:
                out.append((lab, {"k": "total", **st_only(n)}))
            if "expandof" in kinds:
                out.append((lab + " (expanded)", {"k": "expandof", **n, "est": ev0["st"], "evs": ev0.get("evs", []),
                                                  "strict": d["strict"]}))
            if "asm" in kinds:
                e = next((g for _, g in groups(o, "ev") if g["st"] == "ok"), None)
                if e and n["st"] == "ok":
                    out.append((lab + " (assembled)", {"k": "asm", "st": "ok", "v": n["v"], "evs": evs_tla(e["evs"])}))
        for lab, g in groups(o, "json"):
            n = norm(g)
            n.setdefault("text", [])
            texts.append(g.get("text", ""))
            if "jsonof" in kinds:
                out.append((lab, {"k": "jsonof", **n, "vst": val0["st"], "v": val0.get("v", [0]), "indent": d["indent"]}))
            if "json" in kinds:
                out.append((lab, {"k": "json", **n, "x": x, "indent": d["indent"]}))
            if "total" in kinds:
                out.append((lab, {"k": "total", **st_only(n)}))
        for lab, g in groups(o, "tj"):
            n = norm(g)
            n.setdefault("text", [])
            texts.append(g.get("text", ""))
            if "tj" in kinds:
                out.append((lab, {"k": "tj", **n, "vst": val0["st"], "v": val0.get("v", [0])}))
        if "total" in kinds:
            # working memory follows the text, not what the text announces
            out.append(("memory taken", {"k": "mem", "kb": o["peak"] // 1024, "bytes": len(h["doc"].encode("utf-8"))}))
        tab = table_for(texts)
        d["tab"] = tab
        need = kinds & {"evs", "line", "verdict", "keys", "stream", "val", "json"}
        s.put(h["id"], out, dec=d if need else None, tab=tab)
        if above:
            lab, evs, ln = above
            cut = dict(d)
            cut["doc"] = d["doc"][:ln - 1]
            s.put(h["id"], [(lab + " (before the error)", {"k": "above", "evs": evs})], dec=cut)
    return mk


def enc_input(h):
    return {"json": [], "v": flat(vin_tla(h["v"])), "indent": 2 if h.get("indent") is None else h["indent"],
            "delim": ord(h.get("delim") or ","), "fold": bool(h.get("fold")),
            "flat": UNLIMITED if h.get("flat") is None else h["flat"]}


def enc_case(kinds, read=False):
    """kinds: lines, text, evs, rt."""
    def mk(s, h, o):
        e = enc_input(h)
        out = []
        texts = [canon_num(t) for t in num_texts(h["v"])]
        if "lines" in kinds:
            for lab, g in groups(o, "lines"):
                out.append((lab, {"k": "lines", **norm(untwin(g, texts))}))
        if "text" in kinds:
            for lab, g in groups(o, "text"):
                out.append((lab, {"k": "text", **norm(untwin(g, texts))}))
        if "alike" in kinds:
            for key in ("lines", "text", "evs"):
                gs = list(groups(o, key))
                for lab, g in gs[1:]:
                    out.append((lab + " against " + gs[0][0], {"k": "alike", "a": norm(g), "b": norm(gs[0][1])}))
        if "joined" in kinds:
            a = list(groups(o, "lines"))[0][1]
            for lab, g in groups(o, "text"):
                out.append((lab + " against the joined lines",
                            {"k": "alike", "a": norm(g), "b": {"st": a["st"], "text": cps("\n".join(a.get("lines", [])))}}))
        if "evs" in kinds:
            for lab, g in groups(o, "evs"):
                out.append((lab, {"k": "vevs", **norm(g)}))
        if "rt" in kinds:
            for pair, gl in zip(h["rt"], o.get("rt", [])):
                for g in gl:
                    n = norm(g["o"])
                    n.pop("text", None)
                    texts.append(g["o"].get("text", ""))
                    out.append((f"round trip strict={pair[0]} expand={pair[1]}", {"k": "rt", "v": [0], **n}))
        tab = table_for(texts)
        dec = {"own": 0, "doc": [], "indent": e["indent"], "strict": True, "tab": tab} if read else None
        s.put(h["id"], out, enc=e, dec=dec, tab=tab)
    return mk


def build_case(s, h, o):
    evs = evs_tla(h["evs"])
    out = []
    for lab, g in groups(o, "val"):
        out.append((lab, {"k": "built", "v": [0], **norm(g), "evs": evs}))
    texts = num_texts(h["evs"])
    for lab, g in groups(o, "json"):
        texts.append(g.get("text", ""))
        out.append((lab, {"k": "streamed", "text": [], **norm(g), "evs": evs, "indent": h["indent"]}))
    s.put(h["id"], out, tab=table_for(texts))


def str_case(s, h, o):
    out, texts = [], [canon_num(t) for t in num_texts(h["v"])]
    v = vin_tla(h["v"])
    gs = list(groups(o, "json"))
    for lab, g in gs:
        texts.append(g.get("text", ""))
        out.append((lab, {"k": "jval", "text": [], **norm(g), "v": v, "indent": h["indent"]}))
    s.put(h["id"], out, tab=table_for(texts))


def rules_tla(rules):
    out = []
    for c, arg, a, r in rules:
        if c == 1:
            arg = cps(arg)
        elif c == 2:
            arg = [[p[0], cps(p[1])] for p in arg]
        elif c == 4:
            arg = vin_tla(arg)
        r = vin_tla(r) if a == 1 else cps(r) if a == 2 else r
        out.append([c, arg, a, r])
    return out


def rep_case(s, h, o):
    rules, v = rules_tla(h["rules"]), vin_tla(h["v"])
    out = []
    for lab, g in groups(o, "evs"):
        out.append((lab, {"k": "rep", "evs": [], "calls": [], **norm(g), "rules": rules, "v": v}))
    s.put(h["id"], out)
    # the lines are those of the replaced value, with the same calls
    e = norm(list(groups(o, "evs"))[0][1])
    p = norm(list(groups(o, "plain"))[0][1])
    out = []
    for lab, g in groups(o, "lines"):
        n = norm(g)
        out.append((lab + " (calls)", {"k": "alike", "a": n.get("calls", []), "b": e.get("calls", [])}))
        n.pop("calls", None)
        out.append((lab, {"k": "alike", "a": n, "b": p}))
    s.put(h["id"], out)


def json_case(s, h, o):
    """JSON text in, lines out."""
    tab = table_for([h["json"]])
    e = {"json": cps(h["json"]), "v": [0], "indent": 2 if h.get("indent") is None else h["indent"],
         "delim": ord(h.get("delim") or ","), "fold": bool(h.get("fold")),
         "flat": UNLIMITED if h.get("flat") is None else h["flat"]}
    out = [(lab, {"k": "jread", "lines": [], **norm(g)}) for lab, g in groups(o, "lines")]
    if not h["json"]:
        # no text is no JSON; an empty text cannot be handed over as one
        out = [(lab, {"k": "alike", "a": st_only(g), "b": {"st": "err"}}) for lab, g in groups(o, "lines")]
    a = next(g for _, g in groups(o, "lines"))
    for lab, g in groups(o, "text"):
        out.append((lab + " against encode_to_toon_lines",
                    {"k": "alike", "a": norm(g), "b": norm({"st": a["st"], "text": "\n".join(a["lines"])} if a["st"] == "ok" else st_only(a))}))
    s.put(h["id"], out, enc=e if h["json"] else None, tab=tab)


def unsigned(v):
    """Zeros without their sign."""
    if v[0] == 2:
        return [2, v[1][1:] if v[1].startswith("-") and float(v[1]) == 0 else v[1]]
    return [4, [unsigned(x) for x in v[1]]] if v[0] == 4 else [5, [[k, unsigned(x)] for k, x in v[1]]] if v[0] == 5 else v


def conv_case(s, h, o):
    v = vin_tla(h["v"])
    texts = [canon_num(t) for t in num_texts(h["v"])]
    out = []
    for key, kind in (("to", "toserde"), ("back", "toserde"), ("of", "pieces")):
        for lab, g in groups(o, key):
            if key == "to":
                # serde_json keeps the sign of a zero
                g = dict(g, v=unsigned(g["v"]))
            out.append((lab, {"k": kind, "v": [0], **norm(g), "given": v}))
    e = enc_input(h)
    for lab, g in groups(o, "stext"):
        s.put(h["id"], [(lab, {"k": "dtext", **norm(untwin(g, texts))})], enc=dict(e, dedup=1), tab=table_for(texts))
    s.put(h["id"], out, tab=table_for(texts))


def stats_case(s, h, o):
    """A run of the tool with statistics asked for."""
    if o["exit"] != 0 and o["exit"] != "none":
        return
    e = enc_input(dict(h, v=[0]))
    e["json"] = cps(h["json"])
    s.put(h["id"], [("the statistics", {"k": "stats", "st": "ok" if o["exit"] == 0 else "none", "nums": o["nums"], "input": cps(h["json"])})],
          enc=e, tab=table_for([h["json"]]))


def js_tla(v):
    """A value of JavaScript as the specification writes it."""
    return [3, cps(v[1])] if v[0] == 3 else [5, [[cps(k), js_tla(x)] for k, x in v[1]]] if v[0] == 5 else v


def wasm_case(s, h, o):
    """A call of the bindings: JSON text or a document, and option values."""
    lab, g = next(groups(o, "out"))
    js = js_tla(h["js"])
    n = {"text": [], **norm(g)}
    lab = "function %d of the bindings" % h["fn"]
    tab = table_for([h["text"], g.get("text", "")])
    if h["fn"] < 3:
        s.put(h["id"], [(lab, {"k": "wenc", **n})], enc={"json": cps(h["text"]), "v": [0], "js": js}, tab=tab)
    else:
        s.put(h["id"], [(lab, {"k": "wdec", **n, "indent": 2 if h["fn"] == 5 else 0})],
              dec={"own": 1, "doc": [cps(l) for l in h["text"].split("\n")], "js": js, "tab": tab}, tab=tab)


def both_case(s, h, o):
    """One document, strict and lenient."""
    out = []
    for key, blank in (("ev", {"evs": []}), ("val", {"v": [0]})):
        a = norm(next(groups(o["s"], key))[1])
        b = norm(next(groups(o["l"], key))[1])
        out.append((f"strict {key} against lenient", {"k": "forces", "a": a, "b": b}))
    lab, g = next(groups(o["l"], "ev"))
    out.append((lab + " lenient", {"k": "evs", "evs": [], **norm(g)}))
    d = dec_input(h)
    d["strict"] = False
    d["tab"] = table_for([h["doc"]])
    s.put(h["id"], out, dec=d, tab=d["tab"])
