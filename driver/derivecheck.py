"""Monitors of the derives' verdicts: which declarations they accept and reject (C10, C11)."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from util import *

CARGO = """[package]
name = "%s"
version = "0.0.0"
edition = "2018"
publish = false

[workspace]

[dependencies]
hyperdrive = { path = "%s" }
vcore = { path = "%s" }
hyper = "0.12.24"
serde = { version = "1", features = ["derive"] }

[profile.dev]
debug = 0
"""


# -- patterns, independent of the Rust implementations ------------------
def matches(pattern, path):
    """Whether a route pattern matches a path."""
    if pattern == "*":
        return path == "*"
    if not path.startswith("/"):
        return False
    ps, xs = pattern.split("/")[1:], path.split("/")[1:]
    for i, p in enumerate(ps):
        if p.startswith("{") and p.endswith("}") and len(p) > 1:
            if p.endswith("...}"):
                return len(xs) > i
            if i >= len(xs) or not xs[i]:
                return False
        elif i >= len(xs) or xs[i] != p:
            return False
    return len(xs) == len(ps)


# -- running the derives -------------------------------------------------
def strip_foreign(item):
    """Attributes of macros that are not in scope would make rustc reject an item by themselves."""
    return "\n".join(l for l in item.split("\n") if not l.strip().startswith("#[serde("))


def rustc_rejects(items, name, rounds, derive="req", raw=False):
    """Compiles each item as a module of its own; returns {index: message} of those with errors."""
    d = os.path.join(WORK, "corpus", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    open(os.path.join(d, "Cargo.toml"), "w").write(CARGO % (name, REPO, os.path.join(HARNESS, "vcore")))
    bad = {}
    for _ in range(rounds):
        mods = []
        for i, x in enumerate(items):
            f = os.path.join(d, "src", "m%d.rs" % i)
            if i in bad:
                continue
            dr, text = x
            if not raw:
                text = "#![allow(dead_code, non_snake_case, non_camel_case_types, unused)]\n#[derive(hyperdrive::%s)]\n%s" % (
                    {"req": "FromRequest", "ctx": "RequestContext"}[dr], strip_foreign(text))
            open(f, "w").write(text)
            mods.append("mod m%d;" % i)
        open(os.path.join(d, "src", "lib.rs"), "w").write(("#![allow(dead_code, unknown_lints)]\n" if raw else "") + "\n".join(mods) + "\n")
        try:
            cargo_build(d)
            return bad
        except BuildFailed as e:
            new = {}
            for (_, _, m) in e.msgs:
                for s in spans_of(m):
                    x = re.search(r"\bm(\d+)\.rs$", s.get("file_name", ""))
                    if x:
                        new.setdefault(int(x.group(1)), m.get("rendered") or m.get("message"))
            new = {k: v for k, v in new.items() if k not in bad}
            if not new:
                raise CheckError("cannot build the declarations: %s" % e.text)
            bad.update(new)
    raise CheckError("declarations still do not compile")


class Verdicts:
    """Declarations of vdgen with what the derives say about them."""

    def __init__(self, run, what, seed, n, limit=None):
        build_tool("vspec")
        self.hook = True
        try:
            cargo_build(os.path.join(HARNESS, "vderive"))
        except BuildFailed as e:
            # the hook does not build: ask rustc, for as many declarations as it can take
            log("vderive does not build, using rustc: %s" % e.text[-300:])
            self.hook = False
        self.items = []
        d = os.path.join(WORK, "out", "derive-%d" % os.getpid())
        os.makedirs(d, exist_ok=True)

        def shard(i):
            f, o = os.path.join(d, "%s%d.in" % (what, i)), os.path.join(d, "%s%d.out" % (what, i))
            with open(f, "w") as h:
                p = subprocess.run([bin_path("vdgen"), what, str(seed), str(n), str(i), str(CORES)], stdout=h, stderr=subprocess.PIPE, text=True)
            if p.returncode != 0:
                raise CheckError("vdgen: " + p.stderr[-2000:])
            ins = [json.loads(l) for l in open(f)]
            if self.hook:
                p = subprocess.run([bin_path("vderive"), "--in", f, "--out", o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                if p.returncode != 0:
                    raise CheckError("vderive: " + p.stderr[-2000:])
                for x, l in zip(ins, open(o)):
                    y = json.loads(l)
                    assert x["id"] == y["id"]
                    x["verdict"], x["msg"] = y["verdict"], y["msg"]
            return ins

        with ThreadPoolExecutor(CORES) as ex:
            for r in ex.map(shard, range(CORES)):
                self.items += r
        shutil.rmtree(d, ignore_errors=True)
        if not self.hook:
            step = max(1, len(self.items) // 700)
            self.items = self.items[seed % step::step]
            bad = rustc_rejects([(x["derive"], x["item"]) for x in self.items], "bulk_" + what, 8)
            for i, x in enumerate(self.items):
                x["verdict"], x["msg"] = ("reject", bad[i]) if i in bad else ("accept", "")
        c = run.coverage.setdefault("stages", {}).setdefault("derive/" + what, {"classes": {}, "runs": 0, "in_process": self.hook})
        for x in self.items:
            run.evaluations += 1
            c["runs"] += 1
            k = "%s: %s" % (x["class"], x["verdict"])
            c["classes"][k] = c["classes"].get(k, 0) + 1
            # distinct declarations
            run.distinct.add("derive:" + hashlib.sha1(x["item"].encode()).hexdigest()[:16])
        # without the hook, one declaration costs rustc as much as fifty in-process
        merge_counts(run.counters, {"derive runs": c["runs"] * (1 if self.hook else 50), "weight": 1 if self.hook else 50})
        log("%s: %d declarations derived" % (what, c["runs"]))


def report(run, what, x, seed, n, msg=""):
    run.violation({"stage": "derive/" + what, "blame": [run.prop], "what": msg, "declaration": x["item"], "derive": x["derive"],
                   "message": x.get("msg", "")[:3000], "class": x["class"], "key": x.get("key"),
                   "replay": {"kind": "derive", "what": what, "seed": seed, "n": n, "derive": x["derive"], "item": x["item"]}})


# -- C10 -----------------------------------------------------------------
WITNESS = re.compile(r"both would match path `(.*)`\)", re.S)
ROUTE = re.compile(r"`#\[(\w+)\(\"(.*?)\"\)\]`", re.S)


def c10(run, seed, pairs, sets):
    for what, n in (("pairs", pairs), ("sets", sets)):
        v = Verdicts(run, what, seed, n)
        for x in v.items:
            if x["verdict"] != x["want"]:
                report(run, what, x, seed, n, "%s: the derive %ss it\n%s" % (x["class"], x["verdict"], x["msg"][:500]))
                continue
            if x["verdict"] != "reject":
                continue
            w = WITNESS.search(x["msg"])
            if not w:
                if "overlapping" in x["class"] and "duplicate" not in x["msg"]:
                    merge_counts(run.counters, {"rejections without a witness path": 1})
                continue
            path = w.group(1)
            named = [p for (_, p) in ROUTE.findall(x["msg"][: w.start()])]
            declared = [p for (_, p) in x["routes"]]
            merge_counts(run.counters, {"witness paths checked": 1})
            if len([p for p in named if p in declared]) >= 2:
                who = [p for p in named if p in declared][:2]
                if not all(matches(p, path) for p in who):
                    report(run, what, x, seed, n, "the path named as overlap is not matched by both routes: %s" % x["msg"][:500])
            elif sum(matches(p, path) for p in declared) < 2:
                report(run, what, x, seed, n, "the path named as overlap is not matched by two routes: %s" % x["msg"][:500])
            if run.evaluations and len(run.samples) < 3 and x["class"].startswith("set"):
                run.samples.append({"declaration": x["item"], "message": x["msg"]})
            if len(run.violations) > 50:
                return
    # the message is hyperdrive's to word: if it names no path, there is nothing to check
    run.counters["overlap rejections"] = run.counters.get("witness paths checked", 0) + run.counters.get("rejections without a witness path", 0)
    run.require(**{"derive runs": 3000, "overlap rejections": 500})


# -- C11 -----------------------------------------------------------------
def c11_rejects(run, seed, n, per_class):
    v = Verdicts(run, "faults", seed, n)
    open_ = {}
    for x in v.items:
        if x["verdict"] == "reject":
            if len(run.samples) < 3 and x["msg"]:
                run.samples.append({"declaration": x["item"], "message": x["msg"]})
            continue
        open_.setdefault(x["class"], []).append(x)
    # the derive lets these pass: the declaration is rejected only if its expansion does not compile
    ask = []
    for c, xs in sorted(open_.items()):
        xs.sort(key=lambda x: (len(x["item"]), x["item"]))
        step = max(1, len(xs) // per_class)
        ask += xs[: per_class // 2] + xs[per_class // 2::step][:per_class]
    log("faults: %d declarations not rejected by the derive itself, rustc is asked about %d" % (sum(map(len, open_.values())), len(ask)))
    bad = rustc_rejects([(x["derive"], x["item"]) for x in ask], "bulk_confirm", 12) if ask else {}
    merge_counts(run.counters, {"rejected by rustc, not by the derive": len(bad)})
    for i, x in enumerate(ask):
        if i not in bad:
            report(run, "faults", x, seed, n, "a malformed declaration compiles: %s" % x["class"])


def c11_accepts(run, seed, n):
    v = Verdicts(run, "valid", seed, n)
    for x in v.items:
        if x["verdict"] != "accept":
            report(run, "valid", x, seed, n, "a well-formed declaration is not accepted: %s" % x["msg"][:1500])


def c11_compiles(run, corpora, seed):
    """The generated code of well-formed declarations compiles."""
    for profile, cases in corpora:
        c = Corpus(seed, profile, cases)
        bad = c.build()
        run.evaluations += cases
        merge_counts(run.counters, {"declarations compiled": cases - len(bad)})
        run.coverage.setdefault("stages", {})["compile/" + profile] = {"cases": cases, "do not compile": len(bad)}
        for case, msg in sorted(bad.items())[:10]:
            x = {"item": c.decl(case), "derive": "req", "class": "compile " + profile}
            run.violation({"stage": "compile", "blame": ["C11"], "what": "the code generated for a well-formed declaration does not compile:\n" + str(msg)[:2500],
                           "declaration": x["item"], "class": x["class"],
                           "replay": {"kind": "compile", "profile": profile, "cases": cases, "seed": seed, "case": case}})


def snippets():
    s = open(os.path.join(VERIF, "driver", "accept.rs")).read()
    out = []
    for p in s.split("//# ")[1:]:
        key, text = p.split("\n", 1)
        out.append((key.strip(), text))
    return out


def c11_surroundings(run):
    xs = snippets()
    bad = rustc_rejects([("raw", t) for _, t in xs], "bulk_accept", 12, raw=True)
    run.evaluations += len(xs)
    merge_counts(run.counters, {"surroundings compiled": len(xs) - len(bad)})
    run.coverage.setdefault("stages", {})["surroundings"] = {"declarations": len(xs), "do not compile": sorted(xs[i][0] for i in bad)}
    for i in sorted(bad):
        run.violation({"stage": "surroundings", "blame": ["C11"], "key": xs[i][0], "what": "%s: a well-formed declaration does not compile:\n%s" % (xs[i][0], bad[i][:2500]),
                       "declaration": xs[i][1], "replay": {"kind": "surroundings", "key": xs[i][0]}})


def replay(r):
    if r["kind"] == "derive":
        bad = rustc_rejects([(r["derive"], r["item"])], "bulk_replay", 2)
    elif r["kind"] == "surroundings":
        bad = rustc_rejects([("raw", t) for k, t in snippets() if k == r["key"]], "bulk_replay", 2, raw=True)
    else:
        c = Corpus(r["seed"], r["profile"], r["cases"])
        bad = c.build()
    print("rustc: " + ("accepted" if not bad else "rejected\n" + "\n".join(map(str, bad.values()))))
    return 0
