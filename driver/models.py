"""Exhaustive models: run TLC over a family, keep what it printed, replay it."""
import gzip, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from json.decoder import scanstring
from lib import *
import suite, vocab

MC = os.path.join(BUILD, "mc")


# ------------------------------------------------------------------ exploring
def spec_hash(f):
    """Of a family and every module and configuration it rests on."""
    h = hashlib.sha256(json.dumps(f, sort_keys=True).encode())
    todo, seen = [f["module"]], set()
    while todo:
        m = todo.pop()
        p = os.path.join(SPEC, m + ".tla")
        if m in seen or not os.path.exists(p):
            continue
        seen.add(m)
        text = open(p).read()
        for names in re.findall(r"^EXTENDS (.*(?:,\n.*)*)", text, re.M):
            todo += re.findall(r"\w+", names)
        todo += re.findall(r"INSTANCE (\w+)", text)
    for m in sorted(seen):
        h.update(m.encode() + open(os.path.join(SPEC, m + ".tla"), "rb").read())
    h.update(open(os.path.join(SPEC, f["cfg"] + ".cfg"), "rb").read())
    return h.hexdigest()


def explore(name, workers=8, heap="10g", timeout=3000):
    """Run TLC on a family (once per specification).  Returns its statistics;
    the printed runs are in build/mc/NAME.runs.gz, in a fixed order."""
    f = vocab.FAMILIES[name]
    os.makedirs(MC, exist_ok=True)
    runs, stat = os.path.join(MC, name + ".runs.gz"), os.path.join(MC, name + ".stat")
    want = spec_hash(f)
    core = os.path.join(MC, name + ".core")
    if os.path.exists(stat):
        d = json.load(open(stat))
        if d["hash"] == want and os.path.exists(core):
            return d
    const = os.path.join(MC, name + ".const")
    with open(const, "w") as g:
        json.dump(f["const"], g)
    meta = tempfile.mkdtemp(dir=MC)
    out = os.path.join(MC, name + ".out")
    e = dict(os.environ, TOON_MC=const)
    e.pop("JAVA_TOOL_OPTIONS", None)
    t0 = time.time()
    try:
        with open(out, "w") as g:
            r = subprocess.run(tlc_cmd(f["module"], f["cfg"] + ".cfg", meta, workers, heap), cwd=SPEC, env=e,
                               stdout=g, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC did not finish the model {name}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    kept, rest = [], []
    with open(out) as g:
        for line in g:
            if line.startswith('"R'):
                kept.append(json.loads(line)[1:] + "\n")
            else:
                rest.append(line)
    os.unlink(out)
    text = "".join(rest)
    m = None
    for m in STATS_RE.finditer(text):
        pass
    if r.returncode != 0 or m is None:
        open(os.path.join(BUILD, "tlc-failure.log"), "w").write(text)
        raise ToolError(f"TLC failed on the model {name} (exit {r.returncode}):\n" + text[-3000:])
    kept.sort()
    with gzip.open(runs, "wt", compresslevel=1, encoding="ascii") as h:
        h.writelines(kept)
    with open(core, "w") as h:
        json.dump(core_of(f["module"], kept), h)
    g, d = (int(x.replace(",", "")) for x in m.groups())
    st = dict(hash=want, generated=g, distinct=d, runs=len(kept), seconds=round(time.time() - t0, 1))
    with open(stat, "w") as h:
        json.dump(st, h)
    return st


def kinds(evs):
    """A sequence of events without the texts in it."""
    return "".join("%d%d" % (e[0], e[1] if e[0] in (3, 5) else e[1][0] if e[0] == 6 else 0) for e in evs)


def core_of(module, lines):
    """The shortest run for each outcome (its shape, not its texts)."""
    best = {}
    for i, line in enumerate(lines):
        r = json.loads(line)
        if module in ("MC_Read", "MC_Mutate"):
            k = (r[2], r[4], r[5], kinds(r[6]), len(r[7]))
        elif module == "MC_Write":
            k = (tuple(r[1].values()), len(r[2]), r[4], kinds(r[5]))
        elif module == "MC_Events":
            k = (r[1], len(r[0]), kinds(r[0]) if r[1] == "ok" else kinds(r[0][-3:]))
        elif module == "MC_Json":
            k = (r[1], tuple(len(x) for x in r[2]))
        else:
            continue
        if k not in best or len(line) < best[k][0]:
            best[k] = (len(line), i)
    return sorted(i for _, i in best.values())


def explore_all():
    for name in vocab.FAMILIES:
        if name in vocab.DEEP:
            continue
        st = explore(name)
        print(f"model {name}: {st['distinct']} states, {st['runs']} runs, {st['seconds']} s")
        sys.stdout.flush()


def runs_of(name):
    with gzip.open(os.path.join(MC, name + ".runs.gz"), "rt", encoding="ascii") as h:
        yield from h


# ------------------------------------------------------------------ replaying
def un(v):
    """Specification value -> harness value."""
    t = v[0]
    if t == 0:
        return [0]
    if t == 1:
        return [1, v[1] == 1]
    if t == 2:
        return [2, uncps(v[1]) or "NaN"]
    if t == 3:
        return [3, uncps(v[1])]
    if t == 4:
        return [4, [un(x) for x in v[1]]]
    return [5, [[uncps(k), un(x)] for k, x in v[1]]]


def un_ev(e):
    if e[0] == 5:
        return [5, e[1], uncps(e[2])]
    return [6, un(e[1])] if e[0] == 6 else e


def un_rule(r):
    c, arg, a, res = r
    if c == 1:
        arg = uncps(arg)
    elif c == 2:
        arg = [[k, uncps(t)] for k, t in arg]
    elif c == 4:
        arg = un(arg)
    return [c, arg, a, un(res) if a == 1 else uncps(res) if a == 2 else res]


def un_js(v):
    return [3, uncps(v[1])] if v[0] == 3 else [5, [[uncps(k), un_js(x)] for k, x in v[1]]] if v[0] == 5 else v


def all_of(o, key):
    for g in o.get(key, []):
        yield ",".join(g["n"]), g["o"]


def same(lab, o, st, key, want):
    """o must be an answer with status st and, when ok, this content."""
    if o["st"] != st:
        return [f"{lab}: {o['st']} where the specification says {st}"]
    if st == "ok":
        got = evs_tla(o[key]) if key == "evs" else v_tla(o[key]) if key == "v" else [cps(x) for x in o[key]] if key == "lines" else o[key]
        if got != want:
            return [f"{lab}: other {key} than the specification"]
    return []


def match_tokens(text, toks):
    i = 0
    try:
        for k, t in toks:
            if k == 3:
                if text[i] != '"':
                    return False
                s, i = scanstring(text, i + 1, True)
                if s != uncps(t):
                    return False
            else:
                s = uncps(t)
                if k == 2:
                    m = RUN_RE.match(text, i)
                    if not m or not NUM_RE.match(m.group(0)) or canon_num(m.group(0)) != s:
                        return False
                    i = m.end()
                elif text.startswith(s, i):
                    i += len(s)
                else:
                    return False
    except (ValueError, IndexError):
        return False
    return i == len(text)


class Read:
    """Runs of MC_Read: <<text, indent, strict, x, st, el, evs, value>>."""
    def __init__(self, want, line=False, verdict=False, lenient=None):
        self.want, self.line, self.verdict, self.lenient = want, line, verdict, lenient
        self.mark = ""

    def takes(self, r):
        return self.lenient is None or self.lenient != r[2]

    def case(self, r):
        return dict(op="dec", doc=uncps(r[0]), indent=r[1], strict=r[2], expand=r[3], want=list(self.want))

    def judge(self, r, o):
        _, _, _, x, st, el, evs, val = r
        bad = []
        for lab, g in all_of(o, "ev"):
            bad += same(lab, g, st, "evs", evs) if not self.verdict else [] if g["st"] == st else [f"{lab}: {g['st']} where the specification says {st}"]
            if self.line and el and g["st"] == "err" and err_line(g.get("msg")) != el:
                bad.append(f"{lab}: names line {err_line(g.get('msg'))}, not line {el}")
        for lab, g in all_of(o, "astream"):
            if g["st"] != st or g["extra"]:
                bad.append(f"{lab}: {g['st']}, {g['extra']} more items, where the specification says {st}")
            elif st == "ok" and evs_tla(g["evs"]) != evs or el == 0 and evs_tla(g["evs"]) != evs[:len(g["evs"])]:
                bad.append(f"{lab}: other events than the specification")
        if "val" in self.want:
            vst = ("ok" if val else "err") if x else st
            for lab, g in all_of(o, "val"):
                if val or vst == "err":
                    bad += same(lab, g, vst, "v", val[0] if val else None)
                elif g["st"] != vst:
                    bad.append(f"{lab}: {g['st']} where the specification says {vst}")
            # toon_to_json reads strictly, without expansion, two spaces a level
            for k in ("json", "tj") if r[1] == 2 and r[2] and not x else ("json",):
                for lab, g in all_of(o, k):
                    if g["st"] != vst:
                        bad.append(f"{lab}: {g['st']} where the specification says {vst}")
        return bad


class Write:
    """Runs of MC_Write: <<value, cfg, lines, canonical value, dotless, events>>."""
    def __init__(self, want=("lines",), rt=False, dotless=False):
        self.want, self.rt, self.dotless = want, rt, dotless
        self.mark = '"fold":true' if dotless else ""

    def takes(self, r):
        return not self.dotless or (r[4] and r[1]["fold"])

    def case(self, r):
        c = r[1]
        d = dict(op="enc", v=un(r[0]), indent=c["indent"], delim=chr(c["delim"]), fold=c["fold"],
                 flat=None if c["flat"] == 1000000 else c["flat"], want=list(self.want))
        if self.rt:
            d["rt"] = [[True, c["fold"]], [False, c["fold"]]]
        return d

    def judge(self, r, o):
        _, c, lines, canon, dotless, evs = r
        bad = []
        for lab, g in all_of(o, "lines"):
            bad += same(lab, g, "ok", "lines", lines)
        for lab, g in all_of(o, "text"):
            bad += same(lab, g, "ok", "text", "\n".join(map(uncps, lines)))
        for lab, g in all_of(o, "evs"):
            bad += same(lab, g, "ok", "evs", evs)
        if not c["fold"] or dotless:
            for gl in o.get("rt", []):
                for g in gl:
                    bad += same("read back", g["o"], "ok", "v", canon)
        return bad


class Events:
    """Runs of MC_Events: <<events, verdict, value, tokens at indent 2, tokens at 0>>."""
    def __init__(self, value=True):
        self.value = value

    def takes(self, r):
        return self.value or r[1] == "ok"

    @property
    def mark(self):
        return "" if self.value else ',"ok",'

    def case(self, r):
        return dict(op="build", evs=[un_ev(e) for e in r[0]], indent=2 if len(r[0]) % 2 else 0)

    def judge(self, r, o):
        _, d, v, t2, t0 = r
        bad = []
        toks = t2 if len(r[0]) % 2 else t0
        if self.value and d != "loose":
            for lab, g in all_of(o, "val"):
                bad += same(lab, g, "ok" if d == "ok" else "err", "v", v)
        for lab, g in all_of(o, "json"):
            if d == "ok":
                if g["st"] != "ok" or not match_tokens(g["text"], toks):
                    bad.append(f"{lab}: other JSON text than the specification")
            elif d == "empty":
                if g["st"] not in ("ok", "err") or g.get("text"):
                    bad.append(f"{lab}: text for no events")
            elif d == "bad" and g["st"] != "err":
                bad.append(f"{lab}: {g['st']} where the specification says err")
        return bad


BIG_EXP = re.compile(r"[eE][+-]?0*([2-9][0-9]|1[6-9]|[0-9]{3})")


class Json:
    """Runs of MC_Json: <<text, ok or err, lines>>."""
    mark = ""

    def takes(self, r):
        # serde_json as configured rounds such exponents wrongly (the finding)
        return not BIG_EXP.search(uncps(r[0]))

    def case(self, r):
        return dict(op="jenc", json=uncps(r[0]), want=["default"])

    def judge(self, r, o):
        bad = []
        for lab, g in all_of(o, "lines"):
            bad += same(lab, g, r[1], "lines", r[2])
        for lab, g in all_of(o, "text"):
            bad += same(lab, g, r[1], "text", "\n".join(map(uncps, r[2])))
        return bad


class Replace:
    """Runs of MC_Replace: <<value, rules, calls, result, its events>>."""
    mark = ""

    def takes(self, r):
        return True

    def case(self, r):
        return dict(op="rep", v=un(r[0]), rules=[un_rule(x) for x in r[1]], fold=False)

    def judge(self, r, o):
        _, _, calls, _, evs = r
        bad = []
        plain = next(all_of(o, "plain"))[1]
        for key in ("lines", "evs"):
            for lab, g in all_of(o, key):
                if g["st"] != "ok":
                    bad.append(f"{lab}: {g['st']}")
                    continue
                got = [[cps(k), [[p[0], cps(p[1])] for p in path], v_tla(x)] for k, path, x in g["calls"]]
                if got != calls:
                    bad.append(f"{lab}: other calls than the specification")
                if key == "evs":
                    bad += same(lab, g, "ok", "evs", evs)
                elif g["lines"] != plain.get("lines"):
                    bad.append(f"{lab}: other lines than the replaced value has")
        return bad


class Conv:
    """Runs of MC_Write: the value on its way to serde_json and back."""
    mark = ""

    def takes(self, r):
        return not r[1]["fold"]

    def case(self, r):
        c = r[1]
        return dict(op="conv", v=un(r[0]), indent=c["indent"], delim=chr(c["delim"]), fold=False, want=["enc"])

    def judge(self, r, o):
        bad = []
        for key in ("to", "back", "of"):
            for lab, g in all_of(o, key):
                bad += same(lab, g, "ok", "v", r[0])
        for lab, g in all_of(o, "stext"):
            bad += same(lab, g, "ok", "text", "\n".join(map(uncps, r[2])))
        return bad


class Stats:
    """Runs of MC_Stats: <<text, its tokens, tokens of the output, saved>>."""
    mark = ""

    def takes(self, r):
        return True

    def case(self, r):
        return dict(op="stats", json=uncps(r[0]))

    def judge(self, r, o):
        _, a, b, d = r
        n = o["nums"]
        if o["exit"] != 0:
            return [f"toon --stats: exit {o['exit']}"]
        if n[:2] != [a, b] or (n[2:] if d == 0 else n[2:3] != [d] or len(n) != 4 or abs(n[3] * a - 1000 * d) * 2 > a):
            return [f"toon --stats: says {n} where the specification says {[a, b, d]}"]
        return []


class Bindings:
    """Runs of MC_Bindings: <<function, text, option value, ok or err, text or tokens>>."""
    mark = ""

    def takes(self, r):
        return True

    def case(self, r):
        return dict(op="wasm", fn=r[0], text=uncps(r[1]), js=un_js(r[2]))

    def judge(self, r, o):
        g = o["out"][0]["o"]
        if g["st"] != r[3]:
            return [f"bindings: {g['st']} where the specification says {r[3]}"]
        if r[3] == "ok" and not (g["text"] == uncps(r[4]) if r[0] < 3 else match_tokens(g["text"], r[4])):
            return ["bindings: other text than the specification"]
        return []


EV = Read(("ev",))
ALLREAD = Read(("ev", "all", "astream", "val"))
TOTAL = Read(("ev", "all", "astream", "val", "json", "tj"))
VAL = Read(("ev", "val"))
PLANS = {
    "C01": [(Write((), True), ["trees", "strings", "wordlike", "chains", "nests"])],
    "C02": [(Write((), True, True), ["chains", "chains2", "listchains", "nests", "forks"])],
    "C03": [(Write(("lines", "text")), ["trees", "chains", "nests"])],
    "C04": [(EV, ["tokens", "tokens4", "keys"]), (Write(("lines",)), ["strings"])],
    "C05": [(EV, ["tokens", "words"]), (Write(("lines",)), ["wordlike"])],
    "C06": [(Read(("ev",), verdict=True, lenient=False), ["docs3", "docs5", "headers", "edits"])],
    "C07": [(Read(("ev",), line=True, verdict=True, lenient=False), ["widths", "docs3", "docs5", "edits"])],
    "C08": [(Read(("ev",), lenient=True), ["docs3", "docs5", "widths", "edits"])],
    "C09": [(TOTAL, ["headers", "tokens4", "docs3", "keys", "edits"])],
    "C10": [(VAL, ["docs3", "live", "edits"])],
    "C11": [(Events(), ["events"])],
    "C12": [(Events(False), ["events"])],
    "C13": [(VAL, ["paths2", "paths3", "editsx"])],
    "C14": [(ALLREAD, ["docs3", "docs5", "live", "edits"])],
    "C15": [(Write(("lines", "text", "evs", "all")), ["trees", "chains", "nests"])],
    "C16": [(Replace(), ["replace"])],
    "C17": [(EV, ["headers", "edits"])],
    "C20": [(Write(("lines",)), ["chains", "chains2", "listchains", "nests", "forks"])],
    "C21": [(VAL, ["docs3", "live", "edits"]), (EV, ["docs5"])],
    "C22": [(Json(), ["json", "jsonobj", "jsonstr", "jsonnum", "jsonnum2"])],
    "C24": [(Conv(), ["trees", "nests", "strings"])],
    "C25": [(Stats(), ["stats"])],
    "C23": [(Bindings(), ["bindings"])],
}
DEEPER = {
    "C01": ["strings4", "trees4"], "C03": ["trees4"], "C04": ["tokens5", "strings4"], "C05": ["tokens5"], "C06": ["docs4", "docs5x", "headers2", "edits2", "edits3"],
    "C07": ["docs4", "edits2", "edits3"], "C08": ["docs4", "docs5x", "edits2", "edits3"], "C09": ["edits2", "headers2", "tokens5"], "C10": ["docs4", "edits3"],
    "C11": ["events9"], "C12": ["events9"], "C13": ["paths3x"], "C14": ["docs4", "docs5x", "edits2", "edits3"], "C15": ["trees4"], "C16": ["replace3"],
    "C17": ["headers2", "edits2", "edits3"], "C20": ["trees4"], "C21": ["docs4", "docs5x", "edits2", "edits3"], "C22": ["json6", "jsonstr4"], "C24": ["trees4", "strings4"],
}
QUICK = 80000
MOST = 700000       # runs of one deeper model replayed


def batch(jobs, rep, pid, known, work):
    """jobs: (judge object, family, run).  Run and judge them."""
    cases = []
    for i, (j, _, r) in enumerate(jobs):
        c = j.case(r)
        c["id"] = i
        cases.append(c)
    if cases and cases[0]["op"] == "stats":
        import cli
        none = dict(indent=None, delim=None, fold=False, flat=None, strict=True, x=False)
        obs = dict(enumerate(cli.stats_runs([(c["json"], none, i % 8 == 0) for i, c in enumerate(cases)], random.Random(len(cases)), work)))
    else:
        obs = run_harness(cases, work)
    for i, (j, fam, r) in enumerate(jobs):
        o = obs[i]
        if o.get("skipped"):
            continue
        at = suite.panicked(o)
        bad = ["the code did not return: " + o["dead"]] if "dead" in o else ["panic in " + at] if at else j.judge(r, o)
        if not bad:
            continue
        c = cases[i]
        inp = c.get("json", c.get("doc", c.get("text", c.get("v"))))
        hit = next((t for k, t in known if k == inp), None)
        if hit is not None:
            if hit not in rep.known:
                rep.known.append(hit)
                print(f"KNOWN-FINDING: property={pid} {hit}")
            continue
        rep.violation(f"{bad[0]}: run of model {fam}, input {json.dumps(inp, ensure_ascii=False)[:400]} observed {json.dumps(o, ensure_ascii=False)[:500]}",
                      {"kind": "model", "family": fam, "run": r, "which": PLANS[pid].index(next(p for p in PLANS[pid] if p[0] is j))})


def replay(rep, pid, tier, seed, work, known=()):
    """Runs of the exhaustive models against the real code: a sample drawn by
    the seed (quick) or every one (thorough)."""
    if pid not in PLANS:
        return []
    names = [n for _, ns in PLANS[pid] for n in ns]
    plans = list(PLANS[pid])
    if tier == "thorough" and pid in DEEPER:
        names += DEEPER[pid]
        first = lambda n: next((j for j, ns in plans for m in ns if vocab.FAMILIES[m]["module"] == vocab.FAMILIES[n]["module"] or
                                {vocab.FAMILIES[m]["module"], vocab.FAMILIES[n]["module"]} == {"MC_Read", "MC_Mutate"}), None)
        plans += [(first(n), [n]) for n in DEEPER[pid]]
    told = []
    for n in names:
        st = explore(n)
        rep.cov["states"] += st["distinct"]
        rep.cov["transitions"] += st["generated"]
    share = QUICK // len(names)
    for j, ns in plans:
        for n in ns:
            total = explore(n)["runs"]
            r = random.Random(f"{pid}/{n}/{seed}")
            pick = None
            if tier != "quick" and total > MOST and n in vocab.DEEP:
                pick = set(r.sample(range(total), MOST)) | set(json.load(open(os.path.join(MC, n + ".core"))))
            if tier == "quick" and total > share:
                # one for each outcome, the smallest ones, and a sample of all,
                # half of it accepted
                fit = sorted((len(line), '"ok"' in line, i) for i, line in enumerate(runs_of(n)) if j.mark in line)
                core = json.load(open(os.path.join(MC, n + ".core")))
                pick = set(core if len(core) < share // 2 else r.sample(core, share // 2)) & {i for _, _, i in fit}
                pick |= {i for _, _, i in fit[:share // 5]}
                for some in ([i for _, ok, i in fit if ok], [i for _, ok, i in fit if not ok]):
                    pick |= set(r.sample(some, min(share // 4, len(some))))
            jobs, done = [], 0
            for i, line in enumerate(runs_of(n)):
                if pick is not None and i not in pick:
                    continue
                run = json.loads(line)
                if not j.takes(run):
                    continue
                jobs.append((j, n, run))
                if len(jobs) == 20000:
                    batch(jobs, rep, pid, known, work)
                    done += len(jobs)
                    jobs = []
                    if len(rep.viol) > 50:
                        break
            batch(jobs, rep, pid, known, work)
            done += len(jobs)
            rep.cov["traces_validated_against_impl"] += done
            rep.cov["evaluations"] += done
            told.append(f"{n} {done} of {total}")
    rep.cov["model_runs"] = told
    return ["complete runs of the exhaustive models replayed: " + ", ".join(told)]


class Quiet:
    def __init__(self):
        self.known, self.viol = [], []

    def violation(self, what, _):
        self.viol.append(what)


def replay_one(d, work):
    """Run one reported violation again: exit status 1 if it shows again."""
    import checks
    pid = d["property"]
    if d["kind"] == "model":
        q = Quiet()
        batch([(PLANS[pid][d["which"]][0], d["family"], d["run"])], q, pid, [], work)
        bad = q.viol
    elif d["kind"] == "cli":
        import cli
        bad = cli.replay_one(d, work)
    else:
        s = suite.Suite(pid, work)
        getattr(checks, pid.lower())(s, random.Random(0), 60)
        mk = {h["op"]: s.mk[h["id"]] for h in s.h}
        t = suite.Suite(pid, work)
        h = d["case"]
        if h["op"] == "stats":
            import cli
            t.note(h, cli.stats_runs([(h["json"], h, False)], random.Random(0), work)[0], mk["stats"])
        else:
            t.add(h, mk[h["op"]])
        bad = [f"{lab}: observed {json.dumps(t.obs[0], ensure_ascii=False)[:1500]}" for _, lab in t.run()]
    for b in bad:
        print(f"VIOLATION property={pid} replay={d.get('file', '')}\n   {b}")
    if not bad:
        print(f"{pid}: it does not show on this tree")
    return 1 if bad else 0


if __name__ == "__main__":
    for name in sys.argv[1:] or vocab.FAMILIES:
        print(name, explore(name))
        sys.stdout.flush()
