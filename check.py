#!/usr/bin/env python3
"""check.py ID [--thorough]   decide one property (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE  run one reported violation again
   check.py --setup        build everything, explore the models"""
import json, os, random, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
sys.setrecursionlimit(100000)
import lib, checks, suite, models, cli, fixtures
from lib import BUILD, VERIF, ToolError

# cases per quick run, and what makes a case count
PLAN = {
    "C01": (6000, "a value (root of depth 1-4, keys and strings from the awkward pools) written and read back under one indent and delimiter, strict and lenient; non-trivial: holds a container"),
    "C02": (5000, "a value with dot-free keys folded at some depth limit and read back with expansion; non-trivial: holds an object inside an object"),
    "C03": (6000, "a value written under one indent and delimiter; non-trivial: holds a container"),
    "C04": (7000, "a string or key in one or all positions written, or a quoted token in some position read; non-trivial: every one is"),
    "C05": (9000, "a token in some position read, or a number in some position written; non-trivial: every one is"),
    "C06": (7000, "a document of tables, inline arrays and lists with wrong lengths, widths or surplus lines here and there; non-trivial: has an array"),
    "C07": (7000, "a document with blank lines, tabs or odd indentation put in; non-trivial: more than one line"),
    "C08": (4000, "a document, damaged or not, read strictly and leniently; non-trivial: more than one line"),
    "C09": (12000, "a text, from damaged documents to random code points, and fixed huge/deep/long ones, through every decoding entry point; non-trivial: not empty"),
    "C10": (7000, "a document read to events and to a value; non-trivial: accepted with a container"),
    "C11": (12000, "an event sequence, of a value and usually damaged; non-trivial: at least two events"),
    "C12": (8000, "a document or a value turned into JSON text; non-trivial: every one is"),
    "C13": (6000, "a document of dotted, plain and quoted keys read with expansion; non-trivial: has a dot"),
    "C14": (6000, "a document through every synchronous and asynchronous entry point; non-trivial: more than one line"),
    "C15": (5000, "a value through every encoding entry point; non-trivial: holds a container"),
    "C16": (5000, "a value and a rule list for the replacer through every encoding entry point; non-trivial: holds a container"),
    "C17": (12000, "a header put together from key, length, delimiter mark, columns, colon and values, some of them broken, with lines below; non-trivial: every one is"),
    "C20": (8000, "an object tree with chains and dotted keys folded at some depth limit; non-trivial: holds an object inside an object"),
    "C21": (6000, "a document, damaged or not, read to events and value; non-trivial: more than one line"),
    "C22": (7000, "a JSON text, valid or not, encoded, or a document decoded to JSON text; non-trivial: every one is"),
    "C23": (6000, "a call of the bindings with JSON text or a document, damaged or not, and an option value; non-trivial: every one is"),
    "C25": (1500, "a JSON text encoded by the tool with statistics, its numbers against both texts; non-trivial: every one is"),
    "C24": (6000, "a value, some with repeated keys or non-finite numbers, converted to serde_json and back, built from Rust values, and encoded from serde_json; non-trivial: holds a container"),
}


def has_container(v):
    return v[0] in (4, 5, 6) and bool(v[1])


def nested_object(v):
    if v[0] == 6:
        return True
    if v[0] == 4:
        return any(nested_object(x) for x in v[1])
    return v[0] == 5 and any(x[0] == 5 or nested_object(x) for _, x in v[1])


def nontrivial(pid, h, o):
    if pid in ("C01", "C03", "C15", "C16", "C24"):
        return has_container(h["v"])
    if pid in ("C02", "C20"):
        return nested_object(h["v"])
    if pid in ("C07", "C08", "C14", "C21"):
        return "\n" in h["doc"]
    if pid == "C06":
        return "[" in h["doc"]
    if pid == "C09":
        return bool(h["doc"])
    if pid == "C10":
        return any(g["o"]["st"] == "ok" and len(g["o"]["evs"]) > 2 for g in o.get("ev", []))
    if pid == "C11":
        return len(h["evs"]) > 1
    if pid == "C13":
        return "." in h["doc"]
    return True


def known_findings():
    """{property: [(input, text)]} of the findings that stand."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("known: property="):
                head, _, rest = line[len("known: property="):].partition(" input=")
                inp, end = json.JSONDecoder().raw_decode(rest)
                out.setdefault(head, []).append((inp, rest[end:].strip()))
    return out


def short(x, n=600):
    t = json.dumps(x, ensure_ascii=False)
    return t if len(t) <= n else t[:n] + "..."


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.viol, self.known, self.t0 = [], [], time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, evaluations=0,
                        distinct_nontrivial=0, verdicts=0, samples=[])
        self.seen = set()
        self.replay_dir = os.path.join(BUILD, "replay")
        os.makedirs(self.replay_dir, exist_ok=True)
        self.nrep = 0

    def violation(self, what, replay):
        self.nrep += 1
        p = os.path.join(self.replay_dir, f"{self.pid}-{self.nrep}.json")
        if self.nrep <= 20:
            with open(p, "w") as f:
                json.dump({"property": self.pid, "what": what, **replay}, f)
            print(f"VIOLATION property={self.pid} replay={p}")
            print("   " + what)
            sys.stdout.flush()
        self.viol.append(what)

    def finish(self, level, rule, extra=None):
        self.cov["rule"] = rule
        self.cov["distinct_nontrivial"] = len(self.seen)
        self.cov.update(extra or {})
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  assumptions=["TLC evaluates the specification correctly", "Python's float reading is correctly rounded"],
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        if self.known:
            ev["coverage"]["known_findings"] = self.known
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(tmp, tmp[:-4])


def one_batch(rep, pid, seed, n, work, known):
    s = suite.Suite(pid, work)
    r = random.Random(f"{pid}/{seed}")
    t = random.Random(f"{pid}/{seed}/unusual")
    s.twist = lambda h: checks.unusual(h, t)
    fill = getattr(checks, pid.lower())
    kinputs = [k for k, _ in known]
    if pid == "C22":
        fill(s, r, n, kinputs)
    else:
        fill(s, r, n)
    bad = s.run()
    c = rep.cov
    c["states"] += s.states
    c["transitions"] += s.transitions
    c["traces_validated_against_impl"] += len(s.tl)
    c["evaluations"] += len(s.h)
    c["verdicts"] += s.verdicts
    for h in s.h:
        o = s.obs[h["id"]]
        k = json.dumps({x: y for x, y in h.items() if x != "id"}, sort_keys=True)
        if nontrivial(pid, h, o):
            rep.seen.add(hash(k))
    if not c["samples"]:
        c["samples"] = [{"case": json.loads(short(h)) if len(json.dumps(h)) < 600 else short(h), "observed": short(s.obs[h["id"]])}
                        for h in s.h[:: max(1, len(s.h) // 4)][:4]]
    done = set()
    for hid, label in bad:
        if hid in done:
            continue
        done.add(hid)
        h = s.h[hid]
        inp = h.get("json", h.get("doc", h.get("text", h.get("v"))))
        hit = next((t for k, t in known if k == inp), None)
        if hit is not None:
            if hit not in rep.known:
                rep.known.append(hit)
                print(f"KNOWN-FINDING: property={pid} {hit}")
            continue
        rep.violation(f"{label}: case {short(h)} observed {short(s.obs[hid])}", {"kind": "suite", "case": h, "label": label})


def run_check(pid, tier, seed):
    rep = Report(pid, tier, seed)
    lib.build_wasm() if pid == "C23" else lib.build()
    work = tempfile.mkdtemp(prefix=f"{pid}-", dir=BUILD)
    known = known_findings().get(pid, [])
    limit = 600
    try:
        rules = []
        if pid in PLAN:
            n, rule = PLAN[pid]
            rules.append("recorded cases: " + rule)
            one_batch(rep, pid, seed, n, work, known)
        if pid in ("C18", "C19"):
            rules += cli.run(rep, pid, tier, seed, work)
        rules += models.replay(rep, pid, tier, seed, work, known)
        if tier == "thorough" and pid in PLAN:
            k = 0
            while time.time() - rep.t0 < limit and not rep.viol:
                k += 1
                one_batch(rep, pid, f"{seed}.{k}", n * 2, work, [])
        rep.finish("model_checking", "; ".join(rules))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for k, t in known:
        if t not in rep.known:
            print(f"note: the finding '{t}' did not show on this tree")
    print(f"{pid}: {rep.cov['evaluations']} cases, {rep.cov['states']} states, "
          f"{len(rep.viol)} violations, {time.time() - rep.t0:.1f} s")
    return 1 if rep.viol else 0


def replay(path):
    d = dict(json.load(open(path)), file=path)
    lib.build_wasm() if d["property"] == "C23" else lib.build()
    work = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        return models.replay_one(d, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            lib.build()
            try:
                lib.build_wasm()
            except ToolError as e:
                print(f"note: {e}", file=sys.stderr)
            models.explore_all()
            return 2 if fixtures.main() else 0
        if a[:1] == ["--replay"]:
            return replay(a[1])
        seed = int(os.environ.get("VERIF_SEED", "1"))
        tier = "thorough" if "--thorough" in a else os.environ.get("VERIF_TIER", "quick")
        return run_check(a[0], tier, seed)
    except ToolError as e:
        print(f"ERROR: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
