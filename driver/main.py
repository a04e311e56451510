import json, os, re, shutil, sys, time
from util import *
import dictionary, props


def findings():
    """Known findings: lines `KNOWN property=<id> key=<key> :: <what fails>` (exact keys)."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


class Run:
    """One run of one property's check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.evaluations = 0
        self.distinct = set()
        self.coverage = {}
        self.counters = {}
        self.samples = []
        self.violations = []
        self.other = {}
        self.errors = []

    # -- results -------------------------------------------------------
    def violation(self, v):
        self.violations.append(v)

    def add_report(self, stage, r, blame=True):
        self.evaluations += r.get("runs", 0)
        self.distinct.update(stage + ":" + d for d in r.get("distinct", []))
        c = self.coverage.setdefault("stages", {}).setdefault(stage, {})
        for k in ("runs", "events", "polls", "stream_polls", "types", "cases", "skipped"):
            if k in r:
                c[k] = c.get(k, 0) + r[k]
        for k in ("classes", "counters"):
            merge_counts(c.setdefault(k, {}), r.get(k, {}))
        merge_counts(self.counters, r.get("counters", {}))
        if len(self.samples) < 4:
            self.samples += r.get("samples", [])[:1]
        for m in r.get("mismatches", []):
            b = m.get("blame", [])
            if self.prop in b:
                m = dict(m)
                m["stage"] = stage
                self.violation(m)
            else:
                key = ",".join(b)
                self.other[key] = self.other.get(key, 0) + 1

    def problems(self, stage, problems, hang_is=(), crash_is=()):
        for p in problems:
            if (p["kind"] == "timeout" and self.prop in hang_is) or (p["kind"] == "crash" and self.prop in crash_is):
                self.violation({"stage": stage, "what": "%s: %s" % (p["kind"], p.get("err", "")[-1500:]), "cmd": p["cmd"]})
            else:
                self.errors.append("%s: %s" % (stage, p))

    # -- stages --------------------------------------------------------
    def corpus(self, profile, cases, reqs, mode="std", args=(), seed=None, timeout=300, shards=CORES, tag=""):
        seed = self.seed if seed is None else seed
        key = (profile, cases, seed, shards, tag)
        cache = self.__dict__.setdefault("_corpora", {})
        if key not in cache:
            c = Corpus(seed, profile, cases, shards, tag)
            bad = c.build()
            cache[key] = c
            log("built %s (%d cases, seed %d)" % (c.name, cases, seed))
            if bad:
                self.coverage.setdefault("cases_that_do_not_compile", {})[c.name] = sorted(bad)
                if len(bad) > cases // 2:
                    self.errors.append("most generated types do not compile: %s" % list(bad.values())[0][:2000])
        c = cache[key]
        stage = "%s/%s" % (profile, mode) + (tag and "/" + tag)
        a = ["--prop", self.prop, "--mode", mode, "--reqs", str(reqs), "--rseed", str(seed)] + [str(x) for x in args]
        # threads of one process have to meet on the cores
        reports, problems = run_json([[b] + a for b in c.bins()], timeout, 1 if mode == "hammer" else CORES)
        n = 0
        for r in reports:
            for m in r.get("mismatches", []):
                m["replay"] = {"kind": "corpus", "seed": seed, "profile": profile, "cases": cases, "shards": shards, "tag": tag, "args": a,
                               "only": "%s,%s,%s" % (m.get("case"), m.get("type"), m.get("req"))}
            self.add_report(stage, r)
            n += r.get("runs", 0)
        # nothing in these runs may abort, overflow the stack or spin, whatever it is asked for
        every = ("C20", "C15") if mode == "tcp" else (self.prop,)
        self.problems(stage, problems, hang_is=every + ("C18", "C21"), crash_is=every)
        log("%s: %d runs, %d problems, %d violations so far" % (stage, n, len(problems), len(self.violations)))
        if n == 0 and not problems:
            self.errors.append("%s observed nothing" % stage)

    def tool(self, crate, binary, args=(), parallel=1, timeout=300, hang_is=(), crash_is=(), stage=None, seeds=True, prefix=()):
        """Runs a harness binary `parallel` times with different seeds."""
        build_tool(crate)
        cmds = []
        for i in range(parallel):
            a = list(prefix) + [bin_path(binary), "--prop", self.prop]
            if seeds:
                a += ["--seed", str(self.seed * 1000 + i)]
            cmds.append(a + [str(x) for x in args])
        reports, problems = run_json(cmds, timeout)
        stage = stage or binary
        n = 0
        for r in reports:
            for m in r.get("mismatches", []):
                m["replay"] = {"kind": "tool", "crate": crate, "cmd": r.get("cmd")}
            self.add_report(stage, r)
            n += r.get("runs", 0)
        self.problems(stage, problems, hang_is=hang_is, crash_is=crash_is)
        log("%s: %d runs, %d problems, %d violations so far" % (stage, n, len(problems), len(self.violations)))
        if n == 0 and not problems:
            self.errors.append("%s observed nothing" % stage)

    def require(self, **minimum):
        """A run that did not observe what it has to observe is no verdict."""
        for k, v in minimum.items():
            if self.counters.get(k, 0) < v and not self.violations:
                self.errors.append("observed only %d of %s (at least %d expected)" % (self.counters.get(k, 0), k, v))


def finish(run, wall):
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    known, fresh = [], []
    kf = [f for f in findings() if f[0] == run.prop]
    for v in run.violations:
        k = [f for f in kf if f[1] == v.get("key")]
        (known if k else fresh).append(v)
    info = props.PROPS[run.prop]
    cov = {
        "evaluations": run.evaluations,
        "distinct_nontrivial": len(run.distinct),
        "rule": info["rule"],
        "samples": run.samples[:4],
    }
    cov.update(run.coverage)
    if run.other:
        cov["mismatches_attributed_to_other_properties"] = run.other
    if run.errors:
        cov["errors"] = run.errors[:5]
    out = {
        "property": run.prop,
        "tier": run.tier,
        "seed": run.seed,
        "level": info.get("level", "exploration"),
        "coverage": cov,
        "assumptions": info.get("assumptions", []),
        "wall_s": round(wall, 1),
        "violations": len(fresh),
    }
    json.dump(out, open(os.path.join(ev, run.prop + ".json"), "w"), indent=1, sort_keys=True)
    for f in kf:
        print("KNOWN-FINDING: property=%s %s" % (run.prop, f[2]))
    if fresh:
        fresh.sort(key=lambda v: "what" not in v)
        path = os.path.join(ev, "%s-replay.json" % run.prop)
        json.dump({"property": run.prop, "tier": run.tier, "seed": run.seed, "violation": fresh[0], "more": fresh[1:10], "total": len(fresh)},
                  open(path, "w"), indent=1)
        print("%s: %s" % (run.prop, str(fresh[0].get("what", ""))[:1500]))
        print("VIOLATION property=%s replay=%s" % (run.prop, path))
        return 1
    if run.errors:
        for e in run.errors[:5]:
            print("ERROR %s: %s" % (run.prop, e[:3000]), file=sys.stderr)
        return 2
    print("%s held: %d evaluations, %d distinct non-trivial, %.0f s" % (run.prop, run.evaluations, len(run.distinct), wall))
    return 0


def replay(path):
    f = json.load(open(path))
    v = f["violation"]
    print(json.dumps({k: x for k, x in v.items() if k != "declaration"}, indent=1))
    print(v.get("declaration", ""))
    r = v.get("replay") or {}
    if r.get("kind") == "corpus":
        c = Corpus(r["seed"], r["profile"], r["cases"], r["shards"], r["tag"])
        c.build()
        case = int(r["only"].split(",")[0])
        b = c.bins()[case % r["shards"]]
        os.execv(b, [b] + r["args"] + ["--only", r["only"]])
    elif r.get("kind") == "contexts":
        import ctxgen
        x = Run(f["property"], f["tier"], f["seed"])
        ctxgen.check(x, r["n"], r["seed"], r["shards"])
        print("%d violations again" % len(x.violations))
        return 1 if x.violations else 0
    elif r.get("kind") in ("derive", "surroundings", "compile"):
        import derivecheck
        return derivecheck.replay(r)
    elif r.get("kind") == "tool":
        build_tool(r["crate"])
        os.execv(r["cmd"][0], r["cmd"])
    return 0


def use_dictionary():
    """Gives all workloads the literals which this tree has and the known one has not."""
    path = os.path.join(WORK, "dictionary.%d" % os.getpid())
    os.makedirs(WORK, exist_ok=True)
    words, numbers = dictionary.write(REPO, path)
    os.environ["VERIF_DICT"] = path
    return path, len(words), len(numbers)


def run(argv):
    if argv[:1] != ["setup"]:
        path, words, numbers = use_dictionary()
    if argv[:1] == ["replay"]:
        return replay(argv[1])
    if argv[:1] == ["setup"]:
        for t in props.TOOLS:
            build_tool(t)
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
        elif argv[i] == "--seed":
            seed = int(argv[i + 1])
        i += 2
    r = Run(prop, tier, seed)
    r.coverage["words_and_numbers_taken_from_changes_of_the_tree"] = [words, numbers]
    try:
        props.PROPS[prop]["run"](r)
    except CheckError as e:
        r.errors.append(str(e))
    finally:
        os.remove(path)
    return finish(r, time.time() - T0)
