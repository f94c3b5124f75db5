"""Plumbing: build the harness, run it, run TLC, convert between notations."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from decimal import Decimal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TOON_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(BUILD, "target")
TLA = "/opt/veriftools/tla"
JOBS = 8


class ToolError(Exception):
    pass


# ------------------------------------------------------------------ building
def _env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
    e.pop("RUSTFLAGS", None)
    return e


def tree_hash():
    """Content hash of everything in /repo that a build depends on."""
    h = hashlib.sha256()
    files = ["Cargo.toml", "Cargo.lock", "build.rs"]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        files += [os.path.relpath(os.path.join(d, f), REPO) for f in fs]
    for f in sorted(files):
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            h.update(f.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for f in ("Cargo.toml", "Cargo.lock", "src/main.rs"):
        h.update(open(os.path.join(VERIF, "harness", f), "rb").read())
    return h.hexdigest()


def build():
    """Build the harness and the command-line tool from /repo's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "stamp")
    want = tree_hash()
    have = open(stamp).read().strip() if os.path.exists(stamp) else ""
    cwd = os.path.join(VERIF, "harness")
    paths = [os.path.join(TARGET, "debug", n) for n in ("toonh", "toon")]
    if want == have and all(os.path.exists(p) for p in paths):
        return paths[0], paths[1]
    if os.path.isdir(TARGET) and want != have:
        # file times say nothing about content in a copied tree
        subprocess.run(["cargo", "clean", "--offline", "-p", "tru", "-p", "toonh"], cwd=cwd, env=_env(),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    cmd = ["cargo", "build", "--offline", "--locked", "-p", "toonh", "-p", "tru", "--bins"]
    r = subprocess.run(cmd, cwd=cwd, env=_env(), capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        raise ToolError("the harness does not build")
    with open(stamp, "w") as f:
        f.write(want)
    return paths[0], paths[1]


def build_wasm():
    """Build the bindings, over stand-ins for the browser, with their harness."""
    target = os.path.join(BUILD, "wtarget")
    stamp = os.path.join(BUILD, "wstamp")
    cwd = os.path.join(VERIF, "wasmh")
    h = hashlib.sha256(tree_hash().encode())
    for d, ds, fs in os.walk(cwd):
        ds.sort()
        for f in sorted(fs):
            h.update(f.encode() + b"\0" + open(os.path.join(d, f), "rb").read() + b"\0")
    want = h.hexdigest()
    exe = os.path.join(target, "debug", "wasmh")
    if os.path.exists(stamp) and open(stamp).read().strip() == want and os.path.exists(exe):
        return exe
    e = dict(_env(), CARGO_TARGET_DIR=target)
    if os.path.isdir(target):
        subprocess.run(["cargo", "clean", "--offline", "-p", "tru", "-p", "wasmh"], cwd=cwd, env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--bins"], cwd=cwd, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        raise ToolError("the bindings do not build over the stand-ins")
    with open(stamp, "w") as f:
        f.write(want)
    return exe


# ------------------------------------------------------------------ running the harness
EXES = {"wasm": os.path.join(BUILD, "wtarget", "debug", "wasmh")}


def run_harness(cases, work, limit_ms=20000):
    """Observations by case id.  A case during which the process dies or hangs
    is reported as {"id", "dead": ...}."""
    exe = EXES.get(cases[0]["op"] if cases else "", os.path.join(TARGET, "debug", "toonh"))
    n = max(1, min(JOBS, (len(cases) + 199) // 200))
    shards = [cases[i::n] for i in range(n)]
    obs = {}
    pending = [(s, 0) for s in shards]
    deaths = 0
    while pending:
        procs = []
        for s, _ in pending:
            f = tempfile.NamedTemporaryFile("w", dir=work, suffix=".jsonl", delete=False)
            for c in s:
                f.write(json.dumps(c) + "\n")
            f.close()
            o = open(f.name + ".out", "wb")
            procs.append((s, f.name, o, subprocess.Popen([exe, f.name, str(limit_ms)], stdout=o,
                                                         stderr=subprocess.DEVNULL)))
        pending = []
        for s, name, o, p in procs:
            try:
                p.wait(timeout=600)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            o.close()
            hung = None
            with open(name + ".out", encoding="utf-8", errors="surrogatepass") as g:
                for line in g:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if d.get("hang"):
                        hung = d["id"]
                        continue
                    obs[d["id"]] = d
            os.unlink(name)
            os.unlink(name + ".out")
            if p.returncode != 0:
                rest = [c for c in s if c["id"] not in obs]
                if not rest:
                    continue
                cul = rest[0]
                obs[cul["id"]] = {"id": cul["id"],
                                  "dead": "no answer" if hung is not None else f"exit {p.returncode}"}
                deaths += 1
                if deaths > 12:
                    # plenty of evidence; do not spend the check's time on more
                    for c in rest[1:]:
                        obs[c["id"]] = {"id": c["id"], "skipped": True}
                elif len(rest) > 1:
                    pending.append((rest[1:], 0))
            elif any(c["id"] not in obs for c in s):
                raise ToolError("harness answered fewer cases than it was given")
    return obs


# ------------------------------------------------------------------ numbers
NUM_RE = re.compile(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?\Z")
RUN_RE = re.compile(r"[0-9+\-.eE]+")


def canon_float(f):
    if f != f or f in (float("inf"), float("-inf")):
        return ""
    if f == 0:
        return "0"
    s = format(Decimal(repr(f)), "f")
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    return s


def canon_num(tok):
    return canon_float(float(tok))


def twin(tok):
    """The other shortest text of the same double, when the double lies exactly
    half way between two decimals of that length; else None."""
    c = canon_num(tok)
    d = c.replace(".", "").replace("-", "").lstrip("0")
    if len(d) < 15 or "." not in c:
        return None
    x, f = Decimal(c), float(c)
    step = Decimal(1).scaleb(x.as_tuple().exponent)
    for y in (x + step, x - step):
        if float(y) == f and abs(Decimal(f) - x) == abs(Decimal(f) - y):
            return format(y, "f")
    return None


def table_for(texts):
    """Environment table: number tokens whose binary64 reading is not plain."""
    out = {}
    for t in texts:
        for m in RUN_RE.finditer(t):
            tok = m.group(0)
            if tok in out or not NUM_RE.match(tok):
                continue
            mant, _, ex = tok.lower().partition("e")
            digits = re.sub(r"[^0-9]", "", mant).strip("0")
            if len(digits) > 14 or len(tok) > 150 or (ex and abs(int(ex)) > 100):
                out[tok] = canon_num(tok)
    return [[cps(k), cps(v)] for k, v in out.items()]


# ------------------------------------------------------------------ notation
def cps(s):
    return [ord(c) for c in s]


def uncps(a):
    return "".join(map(chr, a))


def v_tla(v):
    """Harness value (or observed value) -> specification value."""
    t = v[0]
    if t == 0:
        return [0]
    if t == 1:
        return [1, 1 if v[1] else 0]
    if t == 3:
        return [3, cps(v[1])]
    if t == 2:
        # observed as the exact double; in canonical text from here on.  Zero
        # has a sign only if the code let it through.
        c = canon_num(v[1])
        return [2, cps("-0" if c == "0" and v[1].startswith("-") else c)]
    if t == 4:
        return [4, [v_tla(x) for x in v[1]]]
    return [5, [[cps(k), v_tla(x)] for k, x in v[1]]]


def vin_tla(v):
    """A value given to the code: numbers by any spelling."""
    t = v[0]
    if t == 2:
        return [2, cps(canon_num(v[1]))]
    if t == 4:
        return [4, [vin_tla(x) for x in v[1]]]
    if t == 5:
        return [5, [[cps(k), vin_tla(x)] for k, x in v[1]]]
    if t == 6:
        x = vin_tla(v[2])
        for k in reversed(v[1]):
            x = [5, [[cps(k), x]]]
        return x
    return v_tla(v)


def depth(v):
    if v[0] == 4:
        return 1 + max(map(depth, v[1]), default=0)
    return 1 + max((depth(x) for _, x in v[1]), default=0) if v[0] == 5 else 0


def v_evs(v, out):
    """Events of a value in specification notation."""
    if v[0] == 4:
        out.append([3, len(v[1])])
        for x in v[1]:
            v_evs(x, out)
        out.append([4])
    elif v[0] == 5:
        out.append([1])
        for k, x in v[1]:
            out.append([5, 0, k])
            v_evs(x, out)
        out.append([2])
    else:
        out.append([6, v])
    return out


def flat(v):
    """Deep values are too deep for TLC's reader of JSON."""
    return [9, v_evs(v, [])] if depth(v) > 50 else v


def ev_tla(e):
    if e[0] == 5:
        return [5, e[1], cps(e[2])]
    if e[0] == 6:
        return [6, v_tla(e[1])]
    return e


def evs_tla(es):
    return [ev_tla(e) for e in es]


def num_texts(x, acc=None):
    """All number texts in a value or event list (for the table)."""
    acc = [] if acc is None else acc
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 2 and isinstance(x[1], str):
            acc.append(x[1])
        else:
            for y in x:
                num_texts(y, acc)
    return acc


LINE_RE = re.compile(r"\bline (\d+)", re.I)


def err_line(msg):
    m = LINE_RE.search(msg or "")
    return int(m.group(1)) if m else 0


# ------------------------------------------------------------------ TLC
JAVA_OPTS = ["-XX:+UseParallelGC", "-Xss256m"]


def tlc_cmd(module, cfg, meta, workers, heap):
    return (["java", f"-Xmx{heap}"] + JAVA_OPTS +
            ["-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC",
             "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, module])


STATS_RE = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def run_tlc(module, cfg, work, env=None, workers=8, heap="8g", timeout=800, need_ok=True):
    """Returns (stdout, generated, distinct).  Raises on anything but a clean end."""
    meta = tempfile.mkdtemp(dir=work)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(tlc_cmd(module, cfg, meta, workers, heap), cwd=SPEC, env=e,
                           capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC did not finish {module} within {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = None
    for m in STATS_RE.finditer(r.stdout):
        pass
    if need_ok and (r.returncode != 0 or m is None):
        open(os.path.join(BUILD, "tlc-failure.log"), "w").write(r.stdout + r.stderr)
        raise ToolError(f"TLC failed on {module} (exit {r.returncode}):\n" + r.stdout[-3000:])
    g, d = (int(x.replace(",", "")) for x in m.groups()) if m else (0, 0)
    return r.stdout, g, d


V_RE = re.compile(r'^<<"V", (\d+), (\d+), (TRUE|FALSE)>>', re.M)


def judge(cases, work, timeout=800):
    """cases: TLC case records.  Returns ({(id, n): bool}, states, transitions, gives)."""
    if not cases:
        return {}, 0, 0, {}
    n = 1 if len(cases) < 60 else 4
    procs = []
    for i in range(n):
        f = os.path.join(work, f"cases{i}.json")
        with open(f, "w") as h:
            h.write(json.dumps(cases[i::n]))
        meta = tempfile.mkdtemp(dir=work)
        e = dict(os.environ, TOON_CASES=f)
        out = open(f + ".out", "w")
        p = subprocess.Popen(tlc_cmd("Conform", "Conform.cfg", meta, JOBS // n if n > 1 else JOBS, "5g"),
                             cwd=SPEC, env=e, stdout=out, stderr=subprocess.STDOUT)
        procs.append((p, f, out, meta))
    verdicts, gen, dist, gives = {}, 0, 0, {}
    end = time.time() + timeout
    fail = None
    for p, f, out, meta in procs:
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            fail = fail or "TLC did not finish judging in time"
        out.close()
        text = open(f + ".out").read()
        shutil.rmtree(meta, ignore_errors=True)
        m = None
        for m in STATS_RE.finditer(text):
            pass
        if p.returncode != 0 or m is None:
            open(os.path.join(BUILD, "tlc-failure.log"), "w").write(text)
            fail = fail or f"TLC failed judging (exit {p.returncode}):\n" + text[-3000:]
            continue
        gen += int(m.group(1).replace(",", ""))
        dist += int(m.group(2).replace(",", ""))
        for v in V_RE.finditer(text):
            verdicts[(int(v.group(1)), int(v.group(2)))] = v.group(3) == "TRUE"
        for line in text.splitlines():
            if line.startswith('"X'):
                d = json.loads(json.loads(line)[1:])
                gives[d["id"]] = d
    if fail:
        raise ToolError(fail)
    for c in cases:
        for k in range(len(c["obs"])):
            if (c["id"], k + 1) not in verdicts:
                raise ToolError(f"TLC gave no verdict for case {c['id']} observation {k + 1}")
    return verdicts, dist, gen, gives
