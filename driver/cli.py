"""The command-line tool against the behaviours of Cli.tla."""
import fcntl, json, os, random, re, shutil, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from lib import *
import models, suite
from gen import G

TOON = os.path.join(TARGET, "debug", "toon")
F_SETPIPE_SZ = 1031

TEXTS = [
    # JSON
    '{"a":{"b":{"c":1}},"d":[1,2,3]}', '[{"x":1,"y":"p,q"},{"x":2,"y":"r|s"}]', '{"users":[{"id":1,"tags":["a","b"]},{"id":2}]}',
    '{"a.b":1,"a":{"c":{"d":{"e":null}}}}', '"just text"', '12.50', 'null', '[]', '{}', '{"s":"line\\nbreak\\ttab","u":"\u00fc\\u0001"}',
    '  {"k" : [ true , false ] }\n', '{"a":{"b":{}},"m":{"n":[]},"x":[[1,2],[3]]}', '{"dup":1,"dup":2}',
    # TOON
    'a: 1\nb:\n  c: x\n  d: true', 'k[3]: 1,2,3', 'users[2]{id,name}:\n  1,Ann\n  2,"Bob, Jr"', 'a.b.c: 1\na.b.d: 2\n"q.r": 3', 'a.b: 1\na: 2',
    'k[3]: 1,2', 'k[2]:\n  - 1\n\n  - 2', 'k[2]{a,b}:\n  1\n  2,3,4', 'a:\n   b: 1', 'a:\n    b: 1\n    c[1]:\n        - d: 2', 'a:\n b:\n  c: 1', 'a:\n\tb: 1',
    'k[2|]: x|y', 'l[2]:\n  - a: 1\n    b: 2\n  - [2]: 3,4', 'x: "a\\u0041"', 'x: "unterminated', 'hello world', '[2]{a}:\n  "l\\nm"\n  "\t"', 'a: 1\n', '\n\na: 1\n\n',
    'a:\n    - x', 'k[2]:\n  - 1\n  -\n  - 3', 'a: "\u0001\u007f\u2028"',
    '{"path":"C:\\\\dir\\\\n","q":"say \\"hi\\"","t":"a\\tb","r":["\\\\\\\\","\\\\n"]}', 'path: "C:\\\\dir\\\\n"\nq[2]: "\\\\","say \\"hi\\""\n"k\\\\": 1',
    '{"n":[0.1,1e21,-0.0,1e-7,12345678901234567890,100]}', 'n[5]: 0.1,1e21,-0,1e-7,007',
    # neither, or both
    '', '   ', '{', '{"a":1', '[1,2', 'a: 1\n  b: 2\nc', '"a" b', '\ufeff{"a":1}', '- 1\n- 2',
]
BIGJ = json.dumps([{"id": i, "name": f"row {i}, \"q\"", "f": i / 8} for i in range(700)] + ["end"])
BIGT = "t[900]{id,name,f}:\n" + "\n".join(f'  {i},"row {i}, x",{i}.5' for i in range(900)) + "\nlast: " + "y" * 9000
BAD = [["--indent", "17"], ["--indent", "-1"], ["--indent", "x"], ["--indent", "256"], ["--indent", ""], ["--indent=2.5"], ["--delimiter", ";"], ["--delimiter", ""],
       ["--delimiter", "\\n"], ["--delimiter=TAB"], ["--delimiter", ",,"], ["--key-folding", "on"], ["--key-folding=SAFE"], ["--expand-paths", "yes"], ["--expand-paths="],
       ["--flatten-depth", "-1"], ["--flatten-depth", "1.5"], ["--flatten-depth", "x"], ["--flatten-depth=99999999999999999999"], ["--bogus"], ["-x"], ["--strict"], ["--indent", "2", "--indent", "4"],
       ["one-more", "and-another"]]
STDIN_OTHER = "other: stdin\n"


def plain(v):
    """A value for json.dumps; numbers of few digits."""
    if v[0] == 2:
        f = float(v[1])
        return int(f) if f == int(f) and abs(f) < 1e15 else round(f, 3) if abs(f) < 1e9 else 1
    if v[0] == 4:
        return [plain(x) for x in v[1]]
    return {k: plain(x) for k, x in v[1]} if v[0] == 5 else v[1] if v[0] else None


def opts_of(r):
    return dict(indent=r.choice([None, None, 0, 1, 2, 3, 4, 8, 16]), delim=r.choice([None, None, ",", "|", "\t"]), fold=r.random() < 0.4,
                flat=r.choice([None, None, 0, 1, 2, 3, 10]), strict=r.random() < 0.6, x=r.random() < 0.4)


def spell(o, r):
    """Command-line words for the options."""
    out = []

    def add(k, v):
        out.append([f"--{k}={v}"] if r.random() < 0.4 else [f"--{k}", str(v)])
    if o["indent"] is not None:
        add("indent", o["indent"])
    if o["delim"] is not None:
        add("delimiter", r.choice({",": [",", "comma"], "|": ["|", "pipe"], "\t": ["\t", "\\t", "tab"]}[o["delim"]]))
    if o["fold"] or r.random() < 0.1:
        add("key-folding", "safe" if o["fold"] else "off")
    if o["flat"] is not None:
        add("flatten-depth", o["flat"])
    if o["x"] or r.random() < 0.1:
        add("expand-paths", "safe" if o["x"] else "off")
    if not o["strict"]:
        out.append(["--no-strict"])
    return out


def conversions(pid, pool, work):
    """What the library makes of each (text, options), in both directions, and
    the cases in which that is not what the specification says."""
    s = suite.Suite(pid, work)
    dec = suite.dec_case({"json"})
    for text, o in pool:
        i = 2 if o["indent"] is None else o["indent"]
        s.add(dict(op="jenc", json=text, want=[], indent=i, delim=o["delim"] or ",", fold=o["fold"], flat=o["flat"]),
              suite.json_case if len(text) < 2000 else lambda *a: None)
        s.add(dict(op="dec", doc=text, indent=i, strict=o["strict"], expand=o["x"], want=["json"]),
              dec if len(text) < 2000 else lambda *a: None)
    bad = s.run()
    got = []
    for k in range(len(pool)):
        e, d = s.obs[2 * k], s.obs[2 * k + 1]
        e = next(models.all_of(e, "lines"), ("", {"st": "dead"}))[1]
        d = next(models.all_of(d, "json"), ("", {"st": "dead"}))[1]
        got.append(("\n".join(e["lines"]) if e["st"] == "ok" else None if e["st"] == "err" else False,
                    d["text"] if d["st"] == "ok" else None if d["st"] == "err" else False))
    return got, [(s.h[i], lab) for i, lab in bad], s


# ------------------------------------------------------------------ statistics
NUM_IN_TEXT = re.compile(r"[0-9]+(?:\.[0-9]+)?")


def stats_runs(runs, r, work):
    """Runs with --stats of (text, options, to a file): exit status and the
    numbers said on standard error, a share in tenths."""
    jobs = []
    for text, o, to_file in runs:
        words = spell(o, r) + [["--stats"], ["-e"]] + ([["-o", "out.toon"]] if to_file else [])
        r.shuffle(words)
        jobs.append((text, [w for ws in words for w in ws]))
    root = tempfile.mkdtemp(dir=work)

    def one(job):
        d = tempfile.mkdtemp(dir=root)
        try:
            p = subprocess.run([TOON] + job[1], cwd=d, input=job[0].encode("utf-8", "surrogatepass"), capture_output=True, timeout=30,
                               env={"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C.UTF-8"})
            said = p.stderr.decode("utf-8", "replace")
            nums = [int(x) if "." not in x else round(float(x) * 10) if len(x.split(".")[1]) == 1 else -1 for x in NUM_IN_TEXT.findall(said)]
            return dict(exit=p.returncode, nums=nums, said=said)
        except subprocess.TimeoutExpired:
            return dict(exit="none", nums=[], said="")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, jobs))


# ------------------------------------------------------------------ one run
def execute(p, root):
    """Carry out a plan in a fresh directory; what is left."""
    d = tempfile.mkdtemp(dir=root)
    try:
        for name, kind, data in p["files"]:
            f = os.path.join(d, name)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if kind == "dir":
                os.makedirs(f, exist_ok=True)
            else:
                with open(f, "wb") as h:
                    h.write(bytes.fromhex(data) if kind == "hex" else data.encode("utf-8", "surrogatepass"))
        if p["stdin"][0] == "dir":
            fin = os.open(d, os.O_RDONLY)
        else:
            with open(os.path.join(d, ".stdin"), "wb") as h:
                h.write(bytes.fromhex(p["stdin"][1]) if p["stdin"][0] == "hex" else p["stdin"][1].encode())
            fin = os.open(os.path.join(d, ".stdin"), os.O_RDONLY)
        argv = [TOON] + p["argv"]
        if p["limit"] is not None:
            argv = ["env", "--ignore-signal=XFSZ", "prlimit", f"--fsize={p['limit']}:{p['limit']}"] + argv
        errf = open("/dev/full", "wb") if p["err"] == "full" else subprocess.PIPE
        reader = got = None
        if p["sink"] == "full":
            fout = os.open("/dev/full", os.O_WRONLY)
        else:
            rd, fout = os.pipe()
            if p["sink"] == "shut":
                os.close(rd)
            else:
                if p["sink"] == "cut":
                    fcntl.fcntl(fout, F_SETPIPE_SZ, 4096)
                got = []

                def read():
                    while True:
                        b = os.read(rd, 100 if p["sink"] == "cut" else 1 << 16)
                        if not b:
                            break
                        got.append(b)
                        if p["sink"] == "cut" and len(got) > 20:
                            break
                    os.close(rd)
                reader = threading.Thread(target=read)
        try:
            pr = subprocess.Popen(argv, cwd=d, stdin=fin, stdout=fout, stderr=errf, env={"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C.UTF-8"})
        finally:
            os.close(fin)
            os.close(fout)
        if reader:
            reader.start()
        try:
            said = pr.communicate(timeout=30)[1]
            code = pr.returncode
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.communicate()
            code, said = "none", b""
        if reader:
            reader.join()
        if p["err"] == "full":
            errf.close()
        else:
            said = bool(said)
        f = os.path.join(d, p["out"]) if p["out"] else None
        left = None
        if f:
            left = ["dir", len(os.listdir(f))] if os.path.isdir(f) else ["file", open(f, "rb").read().decode("latin-1")] if os.path.exists(f) else ["absent"]
        others = sorted(os.path.relpath(os.path.join(a, x), d) for a, _, xs in os.walk(d) for x in xs if x != ".stdin" and os.path.normpath(os.path.join(a, x)) != os.path.normpath(f or d))
        return dict(exit=code, stdout=b"".join(got).decode("latin-1") if got is not None else None, left=left, said=said, others=others)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stage(got, full):
    return "all" if got == full else "some" if full.startswith(got) else "other"


def judge(p, o):
    """Is what was observed one of the ends the specification allows?"""
    if o["exit"] == "none":
        return "the tool did not end"
    full = (p["text"] + "\n").encode("utf-8", "surrogatepass").decode("latin-1") if p["text"] is not None else None
    code = 0 if o["exit"] == 0 else 1
    out = None if o["stdout"] is None else "none" if o["stdout"] == "" else "other" if full is None else stage(o["stdout"], full)
    left = o["left"]
    if left is None or p["dst"] == "full":
        file = None
    elif left[0] == "absent":
        file = {"absent"}
    elif left[0] == "dir":
        file = {"before" if p["dst"] == "isdir" and left[1] == 0 else "other"}
    else:
        file = {"other" if full is None else stage(left[1], full)}
        if left[1] == p["was"]:
            file.add("before")
    if o["others"] != sorted(p["expect_others"]):
        return f"files besides the output: {o['others']}, not {p['expect_others']}"
    for _, _, c, so, fi, said, when in p["ends"]:
        if when == "help":
            if code == 0 and o["stdout"] and (file is None or file & {"absent", "before"}):
                return None
            continue
        if c != code or (out is not None and out != so) or (file is not None and fi not in file):
            continue
        if said and o["said"] is False:
            continue
        return None
    return (f"exit {o['exit']}, standard output: {out}, output file: {file}, message: {o['said']}; "
            f"the specification allows {[e[2:] for e in p['ends']]}")


def plan(sc, ends, combo, text, r):
    """A concrete command line and world for a scene."""
    src_text, o = combo
    words = []
    name = uncps(sc["name"])
    files, stdin = [], ["text", STDIN_OTHER]
    content = {"text": ["text", src_text], "bytes": ["hex", r.choice([b"\xff\xfe{}", b"a: \xc3\x28", b"{\"a\":\"\x80\"}", b"\xed\xa0\x80"]).hex()], "dir": ["dir", ""]}.get(sc["src"])
    if name in ("", "-"):
        stdin = content
    elif sc["src"] != "missing":
        files.append([name] + content)
    elif "/" in name and r.random() < 0.5:
        files.append([os.path.dirname(name), "dir", ""])
    if name:
        words.append([name])
    words += spell(o, r)
    if sc["flag"] in ("e", "ed"):
        words.append([r.choice(["-e", "--encode"])])
    if sc["flag"] in ("d", "ed"):
        words.append([r.choice(["-d", "--decode"])])
    if sc["flag"] == "help":
        words.append([r.choice(["--help", "-h", "--version", "-V"])])
    if sc["stats"]:
        words.append(["--stats"])
    if sc["opts"] == "bad":
        b = r.choice(BAD)
        head = b[0].partition("=")[0]
        words = [w for w in words if w[0].partition("=")[0] != head]
        words.append(b)
    out = was = limit = None
    full = (text + "\n").encode("utf-8", "surrogatepass") if text is not None else b""
    if sc["dst"] != "stdout":
        out = {"self": name, "nodir": "no/where/out.toon", "full": "/dev/full"}.get(sc["dst"]) or r.choice(["out.toon", "out.json", "o u t", "sub/out.txt", "out"])
        if sc["dst"] != "nodir" and sc["dst"] != "full" and "/" in out and sc["dst"] != "self":
            files.append([os.path.dirname(out), "dir", ""])
        if sc["dst"] == "isdir":
            files.append([out, "dir", ""])
        if sc["dst"] in ("old", "limit"):
            was = r.choice(["", "what was there before\n", "x" * 300])
            files.append([out, "text", was])
        if sc["dst"] == "self":
            f = files[0]
            was = f[2].encode("utf-8", "surrogatepass").decode("latin-1") if f[1] == "text" else bytes.fromhex(f[2]).decode("latin-1")
        if sc["dst"] == "limit":
            limit = r.randrange(len(full)) if full else 0
        words.append(r.choice([["-o", out], ["-o" + out], ["--output", out], ["--output=" + out]]))
    r.shuffle(words)
    return dict(argv=[w for ws in words for w in ws], files=files, stdin=stdin, sink=sc["sink"], err=sc["err"], limit=limit, dst=sc["dst"],
                out=None if sc["dst"] in ("stdout", "full") else out, was=was, text=text, ends=ends,
                expect_others=[os.path.normpath(f[0]) for f in files if f[1] != "dir" and f[0] != out])


def faulty(e):
    sc = e[0]
    return (sc["src"] != "text" or not sc["conv"] or sc["dst"] in ("nodir", "isdir", "full", "limit") or sc["sink"] != "pipe" or sc["err"] != "ok") and sc["opts"] == "good" and sc["flag"] in ("none", "e", "d")


def run(rep, pid, tier, seed, work):
    st = models.explore("cli")
    lv = models.explore("clilive")
    rep.cov["states"] += st["distinct"] + lv["distinct"]
    rep.cov["transitions"] += st["generated"] + lv["generated"]
    scenes = {}
    for line in models.runs_of("cli"):
        e = json.loads(line)
        if faulty(e) == (pid == "C19"):
            scenes.setdefault(json.dumps(e[0], sort_keys=True), []).append(e)
    keys = sorted(scenes)
    r = random.Random(f"{pid}/{seed}")
    want = 4000
    if tier == "quick" and len(keys) > want:
        # scenes that go on to read and convert are worth more than those refused at once
        deep = [k for k in keys if any(e[6] not in ("parse", "help") for e in scenes[k])]
        rest = [k for k in keys if k not in set(deep)]
        keys = r.sample(deep, min(len(deep), want * 9 // 10)) + r.sample(rest, min(len(rest), want // 10))
    times = (3 if pid == "C18" else 1) if tier == "quick" else 8
    pool = [(t, opts_of(r)) for t in TEXTS for _ in range(12)]
    g = G(r)
    for _ in range(90):
        pool.append((json.dumps(plain(g.root(3, 0.6)), ensure_ascii=g.p(0.5)), opts_of(r)))
        o = opts_of(r)
        pool.append((g.doc(2 if o["indent"] is None else o["indent"] or 2, g.ch([0, 0, 0, 1])), o))
    big = [(t, opts_of(r)) for t in (BIGJ, BIGT) for _ in range(6)]
    got, bad, s = conversions(pid, pool + big, work)
    rep.cov["states"] += s.states
    rep.cov["transitions"] += s.transitions
    rep.cov["verdicts"] += s.verdicts
    if pid == "C18":
        for h, lab in bad[:20]:
            rep.violation(f"the conversion itself: {lab}: {json.dumps(h)[:400]} gave {json.dumps(s.obs[h['id']])[:400]}", {"kind": "suite", "case": h, "label": lab})
    by = {}
    for k, (e, d) in enumerate(got):
        for way, t in (("encode", e), ("decode", d)):
            if t is not False:
                by.setdefault((way, t is not None, k >= len(pool)), []).append((k, t))
    plans = []
    for _ in range(times):
        for k in keys:
            ends = scenes[k]
            sc, way = ends[0][0], ends[0][1]
            cand = None
            if way and sc["src"] == "text":
                large = sc["conv"] and (sc["sink"] == "cut" or r.random() < 0.12)
                cand = by.get((way, sc["conv"], large))
                if not cand:
                    continue
                k2, text = r.choice(cand)
                combo = (pool + big)[k2]
                if sc["sink"] == "cut" and text is not None and len(text) < 20000:
                    continue
            else:
                combo, text = r.choice(pool), None
                way2 = way or "encode"
            if not sc["conv"]:
                text = None
            plans.append((k, plan(sc, ends, combo, text, r)))
    root = tempfile.mkdtemp(dir=work)
    shown = 0
    with ThreadPoolExecutor(8) as ex:
        for (k, p), o in zip(plans, ex.map(lambda kp: execute(kp[1], root), plans)):
            why = judge(p, o)
            rep.seen.add(hash(k))
            if why:
                shown += 1
                rep.violation(f"toon {' '.join(map(repr, p['argv']))}: {why}; scene {k}"[:1500], {"kind": "cli", "plan": p})
    rep.cov["evaluations"] += len(plans) + 2 * (len(pool) + len(big))
    rep.cov["traces_validated_against_impl"] += len(plans) + len(s.tl)
    rep.cov["samples"] = [dict(argv=p["argv"], ends=[e[1:] for e in p["ends"]]) for _, p in plans[:: max(1, len(plans) // 4)][:4]]
    what = "no fault in the world" if pid == "C18" else "a fault in the world or input that does not convert"
    return [f"scenes of the command-line model with {what}: {len(keys)} of {len(scenes)} scenes, {times} concrete command line(s) each, run on the real binary; "
            "the conversions they ask for judged by the specification; non-trivial: each distinct scene"]


def replay_one(d, work):
    p = d["plan"]
    root = tempfile.mkdtemp(dir=work)
    o = execute(p, root)
    why = judge(p, o)
    return [why + " " + json.dumps(o)[:800]] if why else []
