"""Building, running and reporting helpers shared by all checks."""
import json, os, shutil, signal, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(WORK, "target")
LOCK = os.path.join(HARNESS, "vcore", "Cargo.lock")
CORES = 8
T0 = time.time()


class CheckError(Exception):
    """The check could not give an answer."""


class BuildFailed(Exception):
    def __init__(self, msgs, text):
        Exception.__init__(self, text)
        self.msgs = msgs
        self.text = text


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(
        CARGO_TARGET_DIR=TARGET,
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUST_BACKTRACE="0",
    )
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    if extra:
        e.update(extra)
    return e


def cargo_build(pkg_dir, extra=None, args=(), keep_going=True, timeout=800):
    """Builds a package; raises BuildFailed with rustc's diagnostics."""
    if not os.path.exists(os.path.join(pkg_dir, "Cargo.lock")):
        shutil.copy(LOCK, os.path.join(pkg_dir, "Cargo.lock"))
    cmd = ["cargo", "build", "--offline", "--message-format=json"]
    if keep_going:
        cmd.append("--keep-going")
    p = subprocess.run(cmd + list(args), cwd=pkg_dir, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, timeout=timeout)
    if p.returncode != 0:
        msgs = []
        for line in p.stdout.splitlines():
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if o.get("reason") == "compiler-message" and o["message"]["level"].startswith("error"):
                msgs.append((o.get("target", {}).get("name", ""), o.get("package_id", ""), o["message"]))
        raise BuildFailed(msgs, p.stderr[-6000:])


def build_tool(name):
    d = os.path.join(HARNESS, name)
    try:
        cargo_build(d)
    except BuildFailed as e:
        raise CheckError("cannot build %s: %s" % (name, e.text))


def bin_path(name):
    return os.path.join(TARGET, "debug", name)


def spans_of(msg):
    out = list(msg.get("spans", []))
    for s in list(out):
        x = s.get("expansion")
        while x:
            out.append(x["span"])
            x = x["span"].get("expansion")
    for c in msg.get("children", []):
        out += spans_of(c)
    return out


# the library and the generated code as in a release build (the rest as ever, so that it is built once)
RELEASE = "_rel"
AS_RELEASED = """debug-assertions = false
overflow-checks = false

[profile.dev.package.hyperdrive]
debug-assertions = false
overflow-checks = false
[profile.dev.package."*"]
debug-assertions = true
overflow-checks = true
"""


class Corpus:
    """A generated package of derived types."""

    def __init__(self, seed, profile, cases, shards=CORES, tag=""):
        self.seed, self.profile, self.cases, self.shards, self.tag = seed, profile, cases, shards, tag
        self.name = "corpus_%s%s" % (profile, tag)
        self.dir = os.path.join(WORK, "corpus", self.name)
        self.skip = {}

    def emit(self):
        os.makedirs(self.dir, exist_ok=True)
        cmd = [bin_path("vgen"), "emit", str(self.seed), self.profile, str(self.cases), str(self.shards), self.dir,
               self.name, REPO, os.path.join(HARNESS, "vcore")] + [str(s) for s in self.skip]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise CheckError("vgen failed: " + p.stderr[-2000:])
        if self.tag == RELEASE:
            with open(os.path.join(self.dir, "Cargo.toml"), "a") as f:
                f.write(AS_RELEASED)

    def build(self):
        """Returns {case id: diagnostics} of the cases that do not compile; they are left out."""
        build_tool("vspec")
        for _ in range(6):
            self.emit()
            try:
                cargo_build(self.dir)
                return self.skip
            except BuildFailed as e:
                bad = {}
                for (_, _, m) in e.msgs:
                    for s in spans_of(m):
                        f = os.path.basename(s.get("file_name", ""))
                        if f.startswith("case_"):
                            bad.setdefault(int(f[5:-3]), m.get("rendered") or m.get("message"))
                bad = {k: v for k, v in bad.items() if k not in self.skip}
                if not bad:
                    raise CheckError("cannot build the generated types: %s\n%s" % (e.text, e.msgs[:1]))
                self.skip.update(bad)
                log("%d cases of %s do not compile" % (len(bad), self.name))
        raise CheckError("generated types still do not compile")

    def bins(self):
        return [bin_path("%s_%d" % (self.name, i)) for i in range(self.shards)]

    def decl(self, case):
        try:
            return open(os.path.join(self.dir, "src", "cases", "case_%d.rs" % case)).read()
        except OSError:
            return ""


def run_json(cmds, timeout, jobs=CORES):
    """Runs commands in parallel, each with `--out FILE`; returns (reports, problems)."""
    outdir = os.path.join(WORK, "out", str(os.getpid()))
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    procs = []

    def one(ic):
        i, cmd = ic
        f = os.path.join(outdir, "%d.json" % i)
        p = subprocess.Popen(cmd + ["--out", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            return None, {"kind": "timeout", "cmd": cmd, "err": err[-2000:], "partial": f}
        if p.returncode != 0 or not os.path.exists(f):
            return None, {"kind": "crash", "code": p.returncode, "cmd": cmd, "err": err[-3000:], "partial": f}
        return json.load(open(f)), None

    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, enumerate(cmds)))
    reports = [r for r, _ in res if r is not None]
    problems = [p for _, p in res if p is not None]
    shutil.rmtree(outdir, ignore_errors=True)
    return reports, problems


def merge_counts(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v
