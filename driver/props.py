"""What each property's check runs."""

import ctxgen
import derivecheck
from util import RELEASE

TOOLS = ["vspec", "vcore", "vsys", "vctx", "vderive"]

def corpora(profile, quick, thorough, mode="std", args=(), reqs=(600, 4000), mixed=True):
    def go(r):
        if r.quick:
            r.corpus(profile, quick, reqs[0], mode, args)
            if mixed and profile != "mixed":
                r.corpus("mixed", quick, reqs[0] // 2, mode, args, tag=RELEASE)
        else:
            for k in range(thorough):
                r.corpus(profile, 240, reqs[1], mode, args, seed=r.seed * 7919 + k)
                if mixed and profile != "mixed":
                    r.corpus("mixed", 160, reqs[1] // 2, mode, args, seed=r.seed * 7919 + k, tag=RELEASE)
    return go


def services(quick, thorough, args=(), pool=True, tcp=False, cases=96, reqs=(150, 1200), pool_reqs=(40, 300), tcp_reqs=(40, 300), tcp_args=(), need=()):
    """The generated types behind the service adapters: interleaved by hand, on thread pools, over TCP."""
    def go(r):
        seeds = [r.seed] if r.quick else [r.seed * 7919 + k for k in range(thorough)]
        for seed in seeds:
            n = cases if r.quick else 240
            i = 0 if r.quick else 1
            r.corpus("svc", n, reqs[i], "svc", args, seed=seed)
            if pool:
                r.corpus("svc", n, pool_reqs[i], "pool", args, seed=seed)
            if tcp:
                r.corpus("svc", n, tcp_reqs[i], "tcp", list(tcp_args) or args, seed=seed)
        r.require(**dict(need))
    return go


def vsys(what, quick, thorough, need=(), crash_is=(), hang_is=(), timeout=600, prefix=()):
    def go(r):
        n = quick if r.quick else thorough
        r.tool("vsys", "vsys", ["--what", what, "--n", n], parallel=1 if what in ("queue", "slow") else 8, stage=what, timeout=timeout, crash_is=crash_is, hang_is=hang_is, prefix=prefix)
        r.require(**dict(need))
    return go


def contexts(quick, thorough):
    def go(r):
        if r.quick:
            ctxgen.check(r, quick, r.seed)
        else:
            for k in range(thorough):
                ctxgen.check(r, 800, r.seed * 7919 + k)
                if r.violations:
                    break
        r.require(**{"places compared": 500, "impls ruled out": 500, "decodes with guards": 300})
    return go


def overlaps(r):
    if r.quick:
        derivecheck.c10(r, r.seed, 3, 8000)
    else:
        derivecheck.c10(r, r.seed, 4, 200000)


def declarations(r):
    derivecheck.c11_accepts(r, r.seed, 5000 if r.quick else 40000)
    derivecheck.c11_rejects(r, r.seed, 60 if r.quick else 1500, 12 if r.quick else 60)
    derivecheck.c11_surroundings(r)
    if r.quick:
        derivecheck.c11_compiles(r, [("compile", 200), ("mixed", 80)], r.seed)
    else:
        for k in range(8):
            derivecheck.c11_compiles(r, [("compile", 400), ("mixed", 160), ("forward", 160), ("svc", 160), ("query", 160)], r.seed * 7919 + k)
    r.require(**{"derive runs": 20000, "surroundings compiled": 60, "declarations compiled": 200})


def both(*fs):
    def go(r):
        for f in fs:
            f(r)
    return go


GENERATED = ("Random well-formed declarations of the %s profile, each compiled with /repo's derive and given random requests "
             "(about half derived from its own routes, the rest mutated or foreign) with random plans for guards, bodies and nested types; "
             "each decode is driven by a manual executor and compared with a reference model%s. "
             "Distinct non-trivial: distinct (declaration, chosen variant path, outcome class, event trace shape, implied HEAD, method of failures).")
ADAPTERS = ("The generated types behind AsyncService and SyncService (and catch_unwind), %s; each response, handler call and decoding step is compared with "
            "the reference model of the request which carried the same session. Distinct non-trivial: distinct (declaration, adapter, "
            "chosen variant path, outcome class, trace shape, handler's plan).")
OWN = "Distinct non-trivial: distinct (scenario, plan, outcome) shapes among the jobs completed."

RULES = {
    "C01": GENERATED % ("routing and mixed", ""),
    "C02": GENERATED % ("segments and mixed", ", with conversions that fail"),
    "C03": GENERATED % ("methods and mixed", ", restricted to HEAD requests"),
    "C04": GENERATED % ("methods and mixed", ", restricted to requests answered with 405"),
    "C05": GENERATED % ("forward and mixed", "; nested types log what they are handed, and chains of up to 14 types are built"),
    "C06": GENERATED % ("query and mixed", ""),
    "C07": GENERATED % ("order and mixed", "; slow steps run on real executors, too"),
    "C08": GENERATED % ("view", "; then over the adapters by hand, TCP and HTTP/2"),
    "C09": GENERATED % ("body and mixed", "; bodies from nothing to 2.3 MB in random chunks, with pends and failures; slow bodies on real executors"),
    "C10": "Every unordered pair of patterns of up to 3 (thorough: 4) segments over {a, b, empty, placeholder, rest} and random sets of routes run through the derive in-process, compared "
           "with an independent product walk over the two patterns. Distinct non-trivial: distinct (pattern pair or set, verdict).",
    "C11": "Valid declarations, declarations with one injected fault of each class and surroundings a declaration may stand in, run through the derive in-process and rustc. "
           "Distinct non-trivial: distinct (fault class or profile, shape of the declaration, verdict).",
    "C12": ADAPTERS % "driven by hand, on thread pools, and for seconds on real runtimes, restricted to failing decodes and handlers",
    "C13": ADAPTERS % "driven by hand and on thread pools, restricted to successes",
    "C14": ADAPTERS % "interleaved by hand in groups, on thread pools, over TCP and HTTP/2; long histories of abandoned, failing and in-flight calls; slow and queued calls",
    "C15": "Hand-written services which panic in every place (call, poll, readiness, handler) with payloads that carry an identity, and the generated types behind the adapters with "
           "panicking steps and handlers. " + OWN,
    "C16": "Closures run by blocking() on pools of random size: finishing, failing, panicking, waiting, dropped; gates which only open while ordinary futures make progress. " + OWN,
    "C17": "Every status from 100 to 599, every constructor, all kinds of sources and method lists against a specification of each accessor, Display, Debug and response. "
           "Distinct non-trivial: distinct (constructor, status, kind of source, shape of the method list).",
    "C18": "Types whose guards and bodies use timers, the reactor, spawned tasks, threads and background tasks decoded by from_request_sync, few file descriptors; the mixed corpus through both entry points. " + OWN,
    "C19": "Generated RequestContext types (fields, attributes, generics, tuple structs, enums), each compiled and executed: addresses of projections against addresses of fields; "
           "compile probes for impls which must not exist; identity recorded by guards. Distinct non-trivial: distinct (shape of the type, projection).",
    "C20": GENERATED % ("mixed", "; half of the requests are hostile (raw bytes, odd methods and targets, huge, deep or broken bodies); the same over TCP"),
    "C21": GENERATED % ("order and mixed", "; every decode is dropped after a random number of polls or driven to its end, and live counts and events are checked; likewise calls of the adapters; memory, threads and file descriptors in use over thousands of requests of each kind"),
    "C22": GENERATED % ("mixed", "; every request is decoded alone, again, interleaved with others and on 8 threads at once; long histories; slow decodes"),
}


def prop(run, rule=None, **kw):
    return dict(run=run, rule=rule, **kw)


# what stays behind
MEMORY = vsys("memory", 300, 6000, need={"growth_windows": 500, "let_go": 500})

# many at once
CROWD = vsys("crowd", 40, 1500, need=dict(under_way_at_once=200000, given_up=2000))
MEETING = vsys("meeting", 16, 600, crash_is=("C18",), hang_is=("C18",), need=dict(sync_calls_at_once=4000))

# what takes seconds (in the thorough tier a minute)
SLOW = vsys("slow", 1, 10, need=dict(completed=180))

PROPS = {
    "C01": prop(corpora("routing", 200, 10, args=["--mutate", 50])),
    "C02": prop(corpora("segments", 200, 10, args=["--seg-bad", 25, "--mutate", 15, "--wrong-method", 10])),
    "C03": prop(corpora("methods", 200, 10, args=["--filter", "head", "--wrong-method", 40])),
    "C04": prop(corpora("methods", 200, 10, args=["--filter", "405", "--wrong-method", 80, "--mutate", 8])),
    "C05": prop(corpora("forward", 160, 10, args=["--filter", "fwd"])),
    "C06": prop(corpora("query", 200, 10, args=["--mutate", 8, "--wrong-method", 8])),
    "C07": prop(both(SLOW, corpora("order", 160, 10, args=["--step-err", 15, "--pend", 50, "--mutate", 8, "--wrong-method", 10]))),
    "C08": prop(both(corpora("view", 160, 10, args=["--mutate", 8, "--wrong-method", 10], mixed=False),
                     services(64, 6, ["--filter", "ok", "--mutate", 8, "--wrong-method", 10, "--panic", 0], pool=False, tcp=True, reqs=(150, 1200), tcp_reqs=(30, 300)))),
    "C09": prop(both(SLOW, corpora("body", 200, 10, args=["--filter", "reads", "--pend", 50, "--stream-err", 12, "--mutate", 4, "--wrong-method", 5]))),
    "C10": prop(overlaps),
    "C11": prop(declarations),
    "C12": prop(both(SLOW, services(96, 8, ["--filter", "decode-error", "--panic", 2], need=dict(decode_errors_answered=5000)))),
    "C13": prop(services(96, 8, ["--filter", "ok", "--wrong-method", 12, "--panic", 2], reqs=(250, 1600), need=dict(head_with_handler_body=2000))),
    "C14": prop(both(CROWD, vsys("history", 1500, 30000, crash_is=("C14",), need={"kept_in_flight": 5000}), vsys("serve", 5, 60), SLOW, services(96, 8, ["--panic", 4], tcp=True, need=dict(interleaved_groups=2000)), vsys("queue", 1, 1))),
    "C15": prop(both(SLOW, CROWD, vsys("catch", 700, 30000, crash_is=("C15",)), services(96, 8, ["--panic", 25, "--filter", "panic"], need=dict(panics_caught=2000)))),
    "C16": prop(both(SLOW, vsys("blocking", 80, 4000, need={"waited": 2000, "gates": 20, "dropped while waiting": 200}, crash_is=("C16",), hang_is=("C16",)))),
    "C17": prop(vsys("error", 3000, 200000, crash_is=("C17",)), level="exploration"),
    "C19": prop(both(contexts(240, 12), corpora("view", 96, 3, args=["--mutate", 4, "--wrong-method", 5], reqs=(300, 2000), mixed=False))),
    "C20": prop(both(corpora("mixed", 120, 8, args=["--hostile", 50], reqs=(800, 4000)),
                     services(96, 8, ["--hostile", 40], pool=False, tcp=True, reqs=(100, 600), tcp_args=["--filter", "hostile", "--hostile", 30, "--panic", 6]))),
    "C18": prop(both(SLOW, MEETING, vsys("sync", 40, 2500, crash_is=("C18",), hang_is=("C18",), prefix=("/usr/bin/prlimit", "--nofile=700"), need=dict(guard_delay=500, guard_background=500, guard_tcp=500)),
                     corpora("mixed", 160, 10, mode="sync", args=["--pend", 50], reqs=(400, 2000)))),
    "C21": prop(both(MEMORY, corpora("order", 160, 10, mode="cancel", args=["--pend", 60, "--hang", 12, "--mutate", 10, "--wrong-method", 12], reqs=(500, 3000)),
                     services(96, 6, ["--cancel", 60, "--pend", 60, "--hang", 12, "--mutate", 8, "--wrong-method", 10], pool=False, need=dict(cancelled=5000, sync_calls_before_handler=2000)))),
    "C22": prop(both(SLOW, CROWD, corpora("mixed", 200, 10, mode="conc", args=["--panic", 4, "--pend", 40], reqs=(60, 400)),
                     corpora("mixed", 200, 2, mode="hammer", args=["--panic", 2, "--pend", 10, "--hang", 0, "--mutate", 10], reqs=(300, 3000)),
                     vsys("history", 1500, 30000, crash_is=("C22",)))),
}

for _id, _p in PROPS.items():
    _p["rule"] = _p["rule"] or RULES[_id]

TECHNIQUE = "runtime monitoring: recorded event logs and results of generated types under random workloads, checked online against an executable reference model"
NOTE = (
    "Held on the executions counted in the evidence file: random declarations x random requests x random completion/failure plans. "
    "Trusts the reference model in harness/vcore/src/model.rs and vspec/src/pat.rs (written from the documentation, independent of the derive), rustc, hyper, http, serde_urlencoded and serde_json."
)
NOT_APPLICABLE = {}
