"""Generates RequestContext types of every shape with monitors for their projections (C19)."""
import os, random
from util import *

NAMES = ["db", "log", "inner", "context", "as_ref_", "self_", "r#type", "x", "cfg", "request", "no_context", "a", "b", "c", "d", "fmt", "r#fn"]


class Ty:
    """A field type: text, head constructor (for overlap), expression, text as seen from outside."""

    def __init__(self, text, head, expr, inst=None, ctx=None, zst=False):
        self.text, self.head, self.expr, self.inst, self.ctx, self.zst = text, head, expr, inst or text, ctx, zst


class Gen:
    def __init__(self, seed):
        self.r = random.Random("ctx%s" % seed)
        self.n = 0

    def num(self):
        self.n += 1
        return self.n

    def base(self, i):
        """(text, head, expression factory)"""
        num = lambda: str(self.num())
        t = [
            ("::vctx::W0", "W0", lambda: "::vctx::W0(%s)" % num()),
            ("::vctx::W1", "W1", lambda: "::vctx::W1(%s)" % num()),
            ("::vctx::W2", "W2", lambda: "::vctx::W2(%s)" % num()),
            ("u8", "u8", lambda: "%du8" % (self.num() % 256)),
            ("i16", "i16", lambda: "%di16" % (self.num() % 30000)),
            ("u64", "u64", lambda: num() + "u64"),
            ("i128", "i128", lambda: "-%si128" % num()),
            ("bool", "bool", lambda: self.r.choice(["true", "false"])),
            ("char", "char", lambda: self.r.choice(["'a'", "'\\u{1F600}'"])),
            ("::std::string::String", "String", lambda: "\"s%s\".to_string()" % num()),
            ("String", "String", lambda: "\"s%s\".to_string()" % num()),
            ("::std::vec::Vec<u8>", "Vec", lambda: "vec![%d, 1]" % (self.num() % 256)),
            ("Vec<::vctx::W3>", "Vec", lambda: "vec![::vctx::W3(%s)]" % num()),
            ("::std::option::Option<::vctx::W1>", "Option", lambda: "Some(::vctx::W1(%s))" % num()),
            ("Option<u32>", "Option", lambda: self.r.choice(["Some(%su32)" % num(), "None"])),
            ("::std::boxed::Box<::vctx::W2>", "Box", lambda: "Box::new(::vctx::W2(%s))" % num()),
            ("(::vctx::W3, u8)", "tuple2", lambda: "(::vctx::W3(%s), 1)" % num()),
            ("(u8, ::vctx::W3)", "tuple2", lambda: "(1, ::vctx::W3(%s))" % num()),
            ("[u16; 3]", "array", lambda: "[%d, 2, 3]" % (self.num() % 60000)),
            ("&'static str", "ref", lambda: "\"st%s\"" % num()),
            ("::std::sync::Arc<::vctx::W4>", "Arc", lambda: "::std::sync::Arc::new(::vctx::W4(%s))" % num()),
            ("::std::marker::PhantomData<::vctx::W5>", "PhantomData", lambda: "::std::marker::PhantomData"),
            ("::vctx::Zst", "Zst", lambda: "::vctx::Zst"),
            ("()", "unit", lambda: "()"),
            ("::std::collections::BTreeMap<u8, String>", "BTreeMap", lambda: "vec![(1u8, \"m%s\".to_string())].into_iter().collect()" % num()),
            ("fn(u8) -> u8", "fn", lambda: "id"),
            ("::vctx::Gen<::vctx::W8>", "Gen", lambda: "::vctx::Gen(%s, ::vctx::W8(2))" % num()),
            ("::std::rc::Rc<::vctx::W0>", "Rc", lambda: "::std::rc::Rc::new(::vctx::W0(%s))" % num()),
            ("::std::cell::Cell<u16>", "Cell", lambda: "::std::cell::Cell::new(%d)" % (self.num() % 60000)),
            ("::std::boxed::Box<str>", "Box", lambda: "\"b%s\".into()" % num()),
            ("Box<[u8]>", "Box", lambda: "vec![%d].into()" % (self.num() % 256)),
            ("&'static [u8]", "ref", lambda: "b\"by%s\"" % num()),
            ("::std::sync::Arc<str>", "Arc", lambda: "\"a%s\".into()" % num()),
            ("Result<u8, ::vctx::W4>", "Result", lambda: "Err(::vctx::W4(%s))" % num()),
            ("::std::borrow::Cow<'static, str>", "Cow", lambda: "\"c%s\".into()" % num()),
            ("::std::path::PathBuf", "PathBuf", lambda: "\"p%s\".into()" % num()),
            ("(u8,)", "tuple1", lambda: "(%d,)" % (self.num() % 256)),
            ("::std::sync::Arc<::std::sync::Mutex<Vec<::vctx::W9>>>", "Arc", lambda: "Default::default()"),
        ]
        x = t[i % len(t)]
        return Ty(x[0], x[1], x[2]), len(t)

    def case(self, k, earlier):
        """Text of the module and a description used by main."""
        r = self.r
        name = r.choice(["Ctx", "Context", "MyContext", "State", "Ctx%d" % k])
        kind = r.choices(["named", "tuple", "unit", "enum", "named0", "tuple0"], [50, 28, 5, 14, 2, 2])[0]
        # generics: list of (decl, instantiation)
        params, inst, where = [], {}, []
        if kind != "unit" and kind not in ("named0", "tuple0") and r.random() < 0.35:
            for p in ["T", "U"][: r.choice([1, 1, 2])]:
                conc = r.choice(["::vctx::W6", "::vctx::W7", "::vctx::W6", "::vctx::W7", "::vctx::Local"])
                form = r.randrange(4)
                bound = r.choice(["", "::vctx::Named", "::std::fmt::Debug + Clone", "'static"])
                if form == 1 and bound:
                    where.append("%s: %s" % (p, bound))
                    bound = ""
                params.append([p, bound, " = " + conc if form == 2 and p == (["T", "U"][-1]) else ""])
                inst[p] = conc
            if len(params) == 2 and params[1][2] == "" and params[0][2]:
                params[0][2] = ""
        life = bool(kind in ("named", "tuple", "enum")) and r.random() < 0.12
        nf = r.choice([1, 2, 3, 3, 4, 5, 7]) if kind in ("named", "tuple") else 0
        if kind == "enum":
            nf = r.choice([0, 1, 2, 3, 4])
        fields = []
        total = self.base(0)[1]
        for _ in range(nf):
            c = r.random()
            if params and c < 0.4:
                p = r.choice(params)[0]
                e = ("%s::new(%d)" if inst[p].endswith("Local") else "%s(%d)") % (inst[p], self.num())
                form = r.randrange(6)
                t = [
                    Ty(p, "*", lambda e=e: e),
                    Ty("Option<%s>" % p, "Option", lambda e=e: "Some(%s)" % e),
                    Ty("::std::vec::Vec<%s>" % p, "Vec", lambda e=e: "vec![%s]" % e),
                    Ty("::vctx::Gen<%s>" % p, "Gen", lambda e=e: "::vctx::Gen(%d, %s)" % (self.num(), e)),
                    Ty("(%s, %s)" % (p, p), "tuple2", lambda e=e: "(%s, %s)" % (e, e)),
                    Ty("::std::marker::PhantomData<%s>" % p, "PhantomData", lambda: "::std::marker::PhantomData"),
                ][form]
                t.inst = t.text
                for q in inst:
                    t.inst = replace_word(t.inst, q, inst[q])
                t.generic = True
            elif life and c < 0.6:
                t = Ty("&'a ::vctx::W8", "ref", lambda: "&::vctx::W8(77)", inst="&'static ::vctx::W8")
            elif earlier and c < 0.65:
                e = r.choice(earlier)
                t = Ty(e["path"], e["path"].split("<")[0], lambda e=e: e["make"](self), ctx=e)
            else:
                t, _ = self.base(r.randrange(total))
            fields.append(t)
        # every parameter has to be used
        used = " ".join(t.text for t in fields)
        for p, _, _ in params:
            if not has_word(used, p):
                fields.append(Ty("::std::marker::PhantomData<%s>" % p, "PhantomData", lambda: "::std::marker::PhantomData",
                                 inst="::std::marker::PhantomData<%s>" % inst[p]))
        if life and "'a" not in used:
            fields.append(Ty("&'a ::vctx::W8", "ref", lambda: "&::vctx::W8(77)", inst="&'static ::vctx::W8"))
        r.shuffle(fields)
        # not every context can go to another thread
        local = any(w in " ".join([t.text for t in fields] + list(inst.values())) for w in ("::Rc<", "::Cell<", "::Local")) or any(t.ctx and t.ctx["local"] for t in fields)
        # marks: distinct heads, never a bare parameter
        marked = []
        heads = set()
        if kind in ("named", "tuple"):
            for i, t in enumerate(fields):
                if t.head != "*" and t.head not in heads and r.random() < 0.6:
                    heads.add(t.head)
                    marked.append(i)
        names = r.sample(NAMES, min(len(NAMES), len(fields)))
        while len(names) < len(fields):
            names.append("f%d" % len(names))
        o = []
        gen = ""
        if params or life:
            gen = "<" + ", ".join((["'a"] if life else []) + ["%s%s%s" % (p, ": " + b if b else "", d) for p, b, d in params]) + ">"
        wh = " where " + ", ".join(where) if where else ""

        def attrs(i, ind):
            a = []
            if i in marked:
                a.append(r.choice(["#[as_ref]"] * 6 + ["#[cfg_attr(all(), as_ref)]"]))
            for extra in ["/// Documentation.", "#[allow(dead_code)]", "#[cfg(all())]", "#[doc(hidden)]"]:
                if r.random() < 0.12:
                    a.append(extra)
            r.shuffle(a)
            return "".join("%s%s\n" % (ind, x) for x in a)

        o.append("#[derive(Debug, Clone, %s)]" % r.choice(["RequestContext", "hyperdrive::RequestContext", "::hyperdrive::RequestContext"]))
        # every field is reachable for the monitor, whatever its visibility means elsewhere
        vis = r.choice(["pub ", "pub(crate) ", "pub "])
        if kind in ("named", "named0"):
            o.append("%sstruct %s%s%s {" % (vis, name, gen, wh))
            for i, t in enumerate(fields):
                o.append(attrs(i, "    ") + "    pub %s: %s," % (names[i], t.text))
            o.append("}")
        elif kind in ("tuple", "tuple0"):
            o.append("%sstruct %s%s(" % (vis, name, gen))
            for i, t in enumerate(fields):
                o.append(attrs(i, "    ") + "    pub %s," % t.text)
            o.append(")%s;" % wh)
        elif kind == "unit":
            o.append("%sstruct %s;" % (vis, name))
        else:
            o.append("%senum %s%s%s {" % (vis, name, gen, wh))
            vs = r.choice(["tuple", "named"])
            vname = r.choice(["V", "On", "Variant1"])
            if fields:
                if vs == "tuple":
                    o.append("    %s(%s)," % (vname, ", ".join(t.text for t in fields)))
                else:
                    o.append("    %s { %s }," % (vname, ", ".join("%s: %s" % (n, t.text) for n, t in zip(names, fields))))
            o.append("    Off,")
            if r.random() < 0.3:
                o.append("    Other = 7," if not fields else "    Other(u8),")
            o.append("}")
        args = ([("'static")] if life else []) + [inst[p] for p, _, _ in params]
        path = name + ("<" + ", ".join(args) + ">" if args else "")

        def make(g=None):
            es = [t.expr() for t in fields]
            if kind in ("named", "named0"):
                return "%%s { %s }" % ", ".join("%s: %s" % (n, e) for n, e in zip(names, es))
            if kind in ("tuple", "tuple0"):
                return "%%s(%s)" % ", ".join(es)
            if kind == "unit":
                return "%s"
            if not fields or r.random() < 0.2:
                return "%s::Off"
            if vs == "tuple":
                return "%%s::%s(%s)" % (vname, ", ".join(es))
            return "%%s::%s { %s }" % (vname, ", ".join("%s: %s" % (n, e) for n, e in zip(names, es)))

        full = "crate::case_%d::%s" % (k, name)
        desc = dict(path=full + ("<" + ", ".join(args) + ">" if args else ""), make=lambda g: make() % full, local=local)
        acc = lambda i: names[i] if kind == "named" else str(i)
        shape = "%s: %d fields, marked %s%s%s%s" % (
            kind, len(fields), ",".join(fields[i].head for i in marked), ", generic %d" % len(params) if params else "", ", lifetime" if life else "", ", where" if where else "")
        # ---- the monitor of the impls
        m = ["#[allow(unused_imports)]", "use vctx::{Absent as _, NoCtx as _};", "#[allow(dead_code)] type Me = %s;" % path, "pub fn check(r: &mut vctx::Rep) {"]
        m.append("    type P<U> = vctx::Probe<Me, U>;")
        m.append("    r.is(%d, \"implements RequestContext\", vctx::IsCtx::<Me>::YES, true);" % k)
        m.append("    r.is(%d, \"implements AsRef<NoContext>\", P::<hyperdrive::NoContext>::HAS, true);" % k)
        for _ in range(3):
            m.append("    {")
            m.append("        let v: Me = %s;" % (make() % name))
            m.append("        r.value(%s, format!(\"{:?}\", v));" % rs(shape))
            m.append("        r.place(%d, \"Self\", P::<Me>::look(&v), &v);" % k)
            m.append("        if let Some(c) = P::<hyperdrive::NoContext>::look(&v) { vctx::nocontext(c); }")
            for i in marked:
                m.append("        r.place(%d, %s, P::<%s>::look(&v), &v.%s);" % (k, rs(fields[i].inst), fields[i].inst, acc(i)))
            # the same from a place that moved
            m.append("        let b = Box::new(v.clone());")
            for i in marked:
                m.append("        r.place(%d, %s, P::<%s>::look(&*b), &b.%s);" % (k, rs(fields[i].inst), fields[i].inst, acc(i)))
            m.append("    }")
        minst = set(norm(fields[i].inst) for i in marked)
        neg = set(norm(t.inst) for t in fields) | set(["u8", "str", "[u8]", "::vctx::W0", "String", "()", "::vctx::W9", "Option<u32>", "::std::path::Path"])
        for e in earlier[-3:]:
            neg.add(norm(e["path"]))
        for t in sorted(neg - minst - set([norm(desc["path"])])):
            m.append("    r.is(%d, %s, P::<%s>::HAS, false);" % (k, rs("implements AsRef<%s>" % t), t))
        m.append("}")
        use = "#[allow(unused_imports)]\nuse hyperdrive::RequestContext;\n"
        body = use + "\n".join(o) + "\n#[allow(dead_code)]\nfn id(x: u8) -> u8 { x }\n"
        # ---- a decoder using it
        nested = [i for i in marked if fields[i].ctx]
        g = ["use super::case_%d::*;" % k, "use hyperdrive::FromRequest;", "use futures::Future as _;", "#[allow(unused_imports)] use vctx::*;",
             "#[allow(dead_code)] type Me = super::case_%d::%s;" % (k, path), "#[allow(dead_code)] fn id(x: u8) -> u8 { x }"]
        want = ["Me", "hyperdrive::NoContext"] + [fields[i].inst for i in nested]
        guards = []
        for _ in range(r.choice([2, 3, 4])):
            j = r.randrange(len(want))
            guards.append((r.choice(["Saw", "SawLate"]), j))
        for j in range(2, len(want)):
            guards.append(("Saw", j))
        bj = r.randrange(len(want))
        ctx = r.choice(["Me", "super::case_%d::%s" % (k, path)])
        fl = "".join("        g%d: %s<%s>,\n" % (n, w, want[j]) for n, (w, j) in enumerate(guards))
        g.append("#[derive(FromRequest)]\n#[context(%s)]\nenum Route {\n    #[get(\"/a/{n}\")]\n    A {\n        n: u8,\n%s    },\n    #[post(\"/b\")]\n    B {\n%s        #[body]\n        b: BodySaw<%s>,\n    },\n    F { #[forward] inner: Inner },\n}" % (
            ctx, fl, fl, want[bj]))
        # the nested type is given the same context
        g.append("#[derive(FromRequest)]\n#[context(%s)]\nstruct Inner {\n    #[allow(dead_code)] x: Saw<hyperdrive::NoContext>,\n    me: Saw<Me>,\n    #[forward] rest: Last,\n}" % ctx)
        g.append("#[derive(FromRequest)]\n#[context(%s)]\n#[put(\"/last\")]\nstruct Last {\n    me: SawLate<Me>,\n}" % ctx)
        g.append("pub fn check(r: &mut vctx::Rep) {")

        def show(j, v):
            if j == 0:
                return "format!(\"{:?}\", %s)" % v
            if j == 1:
                return "format!(\"{:?}\", hyperdrive::NoContext)"
            return "format!(\"{:?}\", %s.%s)" % (v, acc(nested[j - 2]))
        for n in range(3):
            g.append("    {\n        let v: Me = %s;" % (make() % name))
            ws = "vec![" + ", ".join(show(j, "v") for _, j in guards) + "]"
            g.append("        let want = %s;" % ws)
            bind = ", ".join("g%d" % i for i in range(len(guards)))
            vec = "vec![" + ", ".join("g%d.0" % i for i in range(len(guards))) + "]"
            g.append("        let got = wait(Route::from_request(req(\"GET\", \"/a/%d\"), v.clone())).and_then(|x| match x { Route::A { n, %s } if n == %d => Ok(%s), _ => Err(\"another variant\".to_string()) });" % (n, bind, n, vec))
            g.append("        r.saw(%d, \"guards\", got, want.clone());" % k)
            g.append("        let mut want = want; want.push(%s);" % show(bj, "v"))
            g.append("        let got = wait(Route::from_request(req(\"POST\", \"/b\"), v.clone())).and_then(|x| match x { Route::B { %s, b } => { let mut w = %s; w.push(b.0); Ok(w) } _ => Err(\"another variant\".to_string()) });" % (bind, vec))
            g.append("        r.saw(%d, \"body\", got, want);" % k)
            g.append("        let want = vec![format!(\"{:?}\", v), format!(\"{:?}\", v)];")
            g.append("        let got = wait(Route::from_request(req(\"PUT\", \"/last\"), v)).and_then(|x| match x { Route::F { inner } => Ok(vec![inner.me.0, inner.rest.me.0]), _ => Err(\"another variant\".to_string()) });")
            g.append("        r.saw(%d, \"forward\", got, want);\n    }" % k)
        g.append("    let _ = futures::future::ok::<(), ()>(()).wait();\n}")
        if local:
            g = g[:0] + ["pub fn check(_: &mut vctx::Rep) {}"]
        return body, "\n".join(m), "\n".join(g), desc if not life else None


def norm(t):
    return t.replace("::std::string::String", "String").replace("::std::option::Option", "Option").replace("::std::vec::Vec", "Vec")


def replace_word(s, w, by):
    import re
    return re.sub(r"\b%s\b" % w, by, s)


def has_word(s, w):
    import re
    return re.search(r"\b%s\b" % w, s) is not None


def rs(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


CARGO = """[package]
name = "%s"
version = "0.0.0"
edition = "2018"
publish = false

[workspace]

[dependencies]
hyperdrive = { path = "%s" }
vctx = { path = "%s" }
futures = "0.1"
http = "0.1"
hyper = "0.12.24"
serde = "1"

[profile.dev]
debug = 0
"""


def generate(seed, n, shards, name):
    """Returns the package directory. Shards are separate binaries; nesting stays within a shard."""
    d = os.path.join(WORK, "corpus", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src", "bin"))
    open(os.path.join(d, "Cargo.toml"), "w").write(CARGO % (name, REPO, os.path.join(HARNESS, "vctx")))
    per = []
    for s in range(shards):
        g = Gen("%s/%s" % (seed, s))
        cases, earlier = [], []
        for k in range(n // shards):
            c = g.case(k, earlier)
            cases.append(c)
            if c[3]:
                earlier.append(c[3])
        per.append(cases)
    return d, per


def emit(d, per, name, skip):
    """`skip`: set of (shard, case, part) left out, part in {"type", "impls", "uses"}."""
    for s, cases in enumerate(per):
        sd = os.path.join(d, "src", "bin", "%s_%d" % (name, s))
        os.makedirs(sd, exist_ok=True)
        mods, calls = [], []
        for k, (body, mon, uses, _) in enumerate(cases):
            t = (s, k, "type") not in skip
            i = t and (s, k, "impls") not in skip
            u = t and (s, k, "uses") not in skip
            if not t:
                continue
            mods.append("#[allow(dead_code, unused_parens)] mod case_%d;" % k)
            text = body
            if i:
                text += "#[path = \"impls_%d.rs\"] mod impls;\npub fn check(r: &mut vctx::Rep) { impls::check(r) }\n" % k
                open(os.path.join(sd, "impls_%d.rs" % k), "w").write("use super::*;\n" + mon + "\n")
                calls.append("case_%d::check(&mut r);" % k)
            open(os.path.join(sd, "case_%d.rs" % k), "w").write(text)
            if u:
                mods.append("#[allow(dead_code)] mod uses_%d;" % k)
                open(os.path.join(sd, "uses_%d.rs" % k), "w").write(uses + "\n")
                calls.append("uses_%d::check(&mut r);" % k)
        open(os.path.join(sd, "main.rs"), "w").write("%s\nfn main() {\n    let mut r = vctx::Rep::default();\n    %s\n    r.write();\n}\n" % ("\n".join(mods), "\n    ".join(calls)))


def check(run, n, seed, shards=CORES):
    import re
    name = "corpus_ctx"
    d, per = generate(seed, n, shards, name)
    skip = set()
    first = True
    for _ in range(8):
        emit(d, per, name, skip)
        try:
            cargo_build(d)
            break
        except BuildFailed as e:
            new = {}
            for (_, _, m) in e.msgs:
                for sp in spans_of(m):
                    x = re.search(r"%s_(\d+)/(case|impls|uses)_(\d+)\.rs" % name, sp.get("file_name", ""))
                    if x:
                        key = (int(x.group(1)), int(x.group(3)), {"case": "type", "impls": "impls", "uses": "uses"}[x.group(2)])
                        new.setdefault(key, m.get("rendered") or m.get("message"))
            new = {k: v for k, v in new.items() if k not in skip}
            if not new:
                raise CheckError("cannot build the generated contexts: %s" % e.text)
            skip |= set(new)
            if first or len(run.violations) < 20:
                for (s, k, part), msg in sorted(new.items())[:5]:
                    what = {"type": "a well-formed context type does not compile", "impls": "the impls of a context type are not usable",
                            "uses": "guards and body decoders cannot be given the projections of the context"}[part]
                    f = os.path.join(d, "src", "bin", "%s_%d" % (name, s), "case_%d.rs" % k)
                    run.violation({"stage": "contexts", "blame": ["C19"], "what": what + ":\n" + msg, "declaration": per[s][k][0], "file": f,
                                   "replay": {"kind": "contexts", "seed": seed, "n": n, "shards": shards}})
            first = False
            # a type used by others takes them along
            log("contexts: %d parts do not compile" % len(new))
    else:
        run.errors.append("generated contexts still do not compile")
        return
    reports, problems = run_json([[bin_path("%s_%d" % (name, s)), "--prop", run.prop] for s in range(shards)], 120)
    for s, r in enumerate(reports):
        for m in r.get("mismatches", []):
            m["replay"] = {"kind": "contexts", "seed": seed, "n": n, "shards": shards}
            m["declaration"] = per[int(r["cmd"][0].rsplit("_", 1)[1])][m["case"]][0]
        run.add_report("contexts", r)
    run.problems("contexts", problems, crash_is=("C19",), hang_is=("C19",))
    log("contexts: %d values" % sum(r["runs"] for r in reports))
