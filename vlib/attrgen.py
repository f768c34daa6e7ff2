"""C13's programs: declarations with the metric attribute, compiled and run.

The quantifier is over programs, so the driver for this property writes
programs. The bound: the argument lists, expressions, statics and places below,
drawn from VERIF_SEED. Accepted declarations are compiled against /repo (once
with the crate under its own name, once renamed) and their entries compared
with what was declared; rejected ones must be reported by the compiler.
"""
import json, os, random, re, shutil, signal, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

POOL = ["", "a", "b", "name", "metric", "description", "unit", "formatter", "metadata", "crate", "value", "\"", "\\", "\n",
        "a\"b", "{", "}", "{}", "{x}", "=", ", ", "#", "#name", "$", "$crate", "/", " ", "  lead", "trail ", "\t", "\r\n", "\0", "é",
        "日本", "🦀", "'", "A", "Some(1)", "None", "r#type", "//", "/*", "a.b", "a-b", "0", "static", "x" * 200]
IDENTS = ["a", "b", "c", "name", "description", "formatter", "metadata", "unit", "kind", "_x", "snake_case", "CamelCase", "é", "x1", "value", "metric", "key", "union"]


def lit(s):
    return '"' + "".join(c if c.isascii() and c.isprintable() and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'


def lit_any(r, s):
    """A string literal with this value, written in one of the ways."""
    k = r.randrange(4)
    if k == 0 and "\r" not in s and "\0" not in s and '"##' not in s:
        return 'r##"' + s + '"##'
    if k == 1 and s.isascii():
        return '"' + "".join("\\x%02x" % ord(c) for c in s) + '"'
    return lit(s)


class Decl:
    pass


def text(r, extra):
    if extra and r.random() < 0.15:
        return r.choice(extra)
    return r.choice(POOL) if r.random() < 0.6 else "".join(r.choice("abcdefghij_-/ ") for _ in range(r.randrange(1, 9)))


def expr(r, s, d):
    """An expression for the constant text s."""
    k = r.randrange(10)
    if k < 5:
        return lit_any(r, s)
    if k == 5:
        c = f"K{len(d.items)}"
        d.items.append(f"const {c}: &str = {lit(s)};")
        return c
    if k == 6:
        i = r.randrange(len(s) + 1)
        return f"concat!({lit(s[:i])}, {lit(s[i:])})"
    if k == 7:
        return f"({lit(s)})"
    if k == 8:
        return f"super::pick(&[{lit('no')}, {lit(s)}], 1)"
    return f"{{ let v = {lit(s)}; v }}"


TYPES = [
    ("{M}::Counter", lambda r: ("{M}::Counter::new()", "x.value() == 0")),
    ("{M}::Counter", lambda r: (lambda n: (f"{{M}}::Counter::with_value({n})", f"x.value() == {n}"))(r.choice([0, 1, 2**64 - 1, 12345]))),
    ("{M}::Gauge", lambda r: (lambda n: (f"{{M}}::Gauge::with_value({n})", f"x.value() == {n}"))(r.choice([0, -1, 2**63 - 1, 77]))),
    ("{M}::Lazy<{M}::Counter>", lambda r: ("{M}::Lazy::new(|| {M}::Counter::with_value(9))", "{M}::Lazy::get(x).is_none() && x.value() == 9")),
    ("{M}::AtomicHistogram", lambda r: ("{M}::AtomicHistogram::new(4, 20)", "x.load().is_none() && x.config().grouping_power() == 4")),
    ("{M}::RwLockHistogram", lambda r: ("{M}::RwLockHistogram::new(3, 12)", "x.load().is_none() && x.config().max_value_power() == 12")),
    ("super::Own<3>", lambda r: (lambda n: (f"super::Own([{n}, {n} + 1, 7])", f"x.0 == [{n}, {n} + 1, 7]"))(r.randrange(100))),
    ("super::Own<0>", lambda r: ("super::Own([])", "x.0.is_empty()")),
]


def declaration(r, i, extra, krate):
    """One accepted declaration in its own module."""
    d = Decl()
    d.items = []
    ty, mk = r.choice(TYPES)
    init, same = mk(r)
    sname = r.choice(["X", "METRIC", "A_B", "lower", "é", "NAME", "DESCRIPTION", "metric", "Q1", "__M", "FORMATTER"])
    d.name, d.desc, d.meta, d.fmt = sname, None, {}, None
    args = []
    if r.random() < 0.6:
        d.name = text(r, extra)
        args.append("name = " + expr(r, d.name, d))
    if r.random() < 0.5:
        d.desc = text(r, extra)
        args.append("description = " + expr(r, d.desc, d))
    if r.random() < 0.6:
        parts = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5, 12])):
            if r.random() < 0.5:
                k = r.choice(IDENTS)
                w = k
            else:
                k = text(r, extra)
                w = lit_any(r, k)
            if k in d.meta:
                continue
            v = text(r, extra)
            d.meta[k] = v
            parts.append(f"{w} = {expr(r, v, d)}")
        args.append("metadata = {" + ", ".join(parts) + ("," if parts and r.random() < 0.4 else "") + "}")
    if r.random() < 0.4:
        k = r.randrange(5)
        d.fmt = f"f{i}"
        body = f"format!(\"f{i}|{{}}|{{}}\", m.name(), matches!(f, {{M}}::Format::Simple))"
        if k == 0:
            d.items.append(f"fn format_it(m: &{{M}}::MetricEntry, f: {{M}}::Format) -> String {{ {body} }}")
            args.append("formatter = format_it")
        elif k == 1:
            args.append(f"formatter = |m, f| {body}")
        elif k == 2:
            d.items.append(f"pub mod deep {{ use super::*; pub fn format_it(m: &{{M}}::MetricEntry, f: {{M}}::Format) -> String {{ {body} }} }}")
            args.append("formatter = self::deep::format_it")
        elif k == 3:
            d.items.append(f"fn g(m: &{{M}}::MetricEntry, f: {{M}}::Format) -> String {{ {body} }}")
            args.append("formatter = { g }")
        else:
            d.fmt = None
            args.append("formatter = {M}::default_formatter")
    if r.random() < 0.25:
        args.append("crate = " + r.choice(["{M}", "::{M}", "crate::reexport", "super::reexport"]))
    r.shuffle(args)
    attr = f"#[{{M}}::metric({', '.join(args)})]" if args or r.random() < 0.5 else "#[{M}::metric]"
    vis = r.choice(["", "pub ", "pub(crate) ", "pub(super) "])
    more = r.choice(["", "", "/// Some documentation.\n", "#[allow(dead_code)]\n", "#[allow(non_upper_case_globals, unused)]\n/// \"quoted\" {braces}\n"])
    static = f"{vis}static {sname}: {ty} = {init};"
    place = r.randrange(6)
    if place == 0:
        pre = f"pub fn get() -> &'static {ty} {{\n{attr}\n{more}{static.replace(vis, '', 1) if vis else static}\n&{sname}\n}}"
    elif place == 1:
        d.items.append(f"macro_rules! declare {{ ($(#[$a:meta])* $v:vis $n:ident, $t:ty, $e:expr) => {{ $(#[$a])* $v static $n: $t = $e; }} }}")
        pre = f"declare!({attr} {vis}{sname}, {ty}, {init});\npub fn get() -> &'static {ty} {{ &{sname} }}"
        attr2 = attr
    else:
        order = [attr + "\n", more] if r.random() < 0.7 else [more, attr + "\n"]
        pre = "".join(order) + static + f"\npub fn get() -> &'static {ty} {{ &{sname} }}"
    d.text = f"{attr} {static}"
    f = f"Some({lit(d.fmt)})" if d.fmt else "None"
    want = f"super::Want {{ id: {i}, name: {lit(d.name)}, description: {'Some(' + lit(d.desc) + ')' if d.desc is not None else 'None'}, metadata: &[{', '.join(f'({lit(k)}, {lit(v)})' for k, v in d.meta.items())}], tag: {f} }}"
    body = "\n".join(d.items) + "\n" + pre + f"\npub fn check() {{ let x: &'static {ty} = get(); super::compare(x, {same}, {want}); }}"
    d.source = f"pub mod d{i} {{\n{body}\n}}\n".replace("{M}", krate)
    d.text = d.text.replace("{M}", krate)
    d.desc_text = f"{d.text}   expected: name {d.name!r}, description {d.desc!r}, metadata {d.meta!r}, formatter {'its own' if d.fmt else 'default'}"
    return d


HELP = r'''
#![allow(unused, non_upper_case_globals, uncommon_codepoints, mixed_script_confusables)]
pub mod reexport { pub use {M}::*; }
pub struct Own<const N: usize>(pub [u64; N]);
impl<const N: usize> {M}::Metric for Own<N> {
    fn as_any(&self) -> Option<&dyn std::any::Any> { Some(self) }
    fn value(&self) -> Option<{M}::Value<'_>> { None }
}
pub const fn pick(s: &[&'static str], i: usize) -> &'static str { s[i] }
pub struct Want { id: usize, name: &'static str, description: Option<&'static str>, metadata: &'static [(&'static str, &'static str)], tag: Option<&'static str> }
fn fail(id: usize, what: String) { println!("FAIL {id} {what:?}"); }
pub fn compare(x: &dyn {M}::Metric, same: bool, w: Want) {
    use {M}::Format::*;
    if !same { fail(w.id, "the static does not have its initial value".into()); }
    let all = {M}::metrics().static_metrics();
    let size_zero = std::mem::size_of_val(x) == 0;
    let found: Vec<&{M}::MetricEntry> = all.iter().filter(|e| if size_zero { e.name() == w.name && e.metadata().len() == w.metadata.len() } else { e.is(x) && std::mem::size_of_val(e.metric()) != 0 }).collect();
    if found.is_empty() || (!size_zero && found.len() != 1) { return fail(w.id, format!("listed {} times", found.len())); }
    let mut why = String::new();
    for e in &found {
        why.clear();
        if e.name() != w.name { why += &format!("name {:?}; ", e.name()); }
        if e.description() != w.description { why += &format!("description {:?}; ", e.description()); }
        let mut m: Vec<(&str, &str)> = e.metadata().iter().collect();
        m.sort();
        let mut n = w.metadata.to_vec();
        n.sort();
        if m != n { why += &format!("metadata {m:?}; "); }
        for (k, v) in w.metadata { if e.metadata().get(k) != Some(v) { why += &format!("metadata.get({k:?}) is {:?}; ", e.metadata().get(k)); } }
        for f in [Simple, Prometheus] {
            let (simple, g) = if matches!(f, Simple) { (true, Simple) } else { (false, Prometheus) };
            let is = e.formatted(f);
            let want = match w.tag { Some(t) => format!("{t}|{}|{simple}", w.name), None => {M}::default_formatter(e, g) };
            if is != want { why += &format!("formatted as {is:?}, not {want:?}; "); }
        }
        if why.is_empty() { return; }
    }
    fail(w.id, why);
}
'''


def negatives(r, krate, extra):
    """Declarations that must be rejected -> [(text of the arguments, why)]."""
    out = []
    arg = {
        "name": lambda: f"name = {lit(r.choice(POOL))}",
        "description": lambda: f"description = {lit(r.choice(POOL))}",
        "metadata": lambda: r.choice(["metadata = {}", 'metadata = { a = "b" }', 'metadata = { "c" = "d", e = "f" }']),
        "formatter": lambda: f"formatter = {krate}::default_formatter",
        "crate": lambda: f"crate = {krate}",
    }
    for a in arg:
        one = arg[a]()
        out.append((f"{one}, {one}", f"{a} given twice"))
        out.append((f"{arg[a]()}, {arg[a]()}", f"{a} given twice"))
        b = [arg[x]() for x in arg if x != a]
        r.shuffle(b)
        out.append((", ".join([arg[a](), *b, arg[a]()]), f"{a} given twice"))
        b = [arg[x]() for x in arg if x != a][:2]
        out.append((", ".join([*b, arg[a](), arg[a]()]), f"{a} given twice"))
        out.append((", ".join([arg[a](), arg[a](), arg[a]()]), f"{a} given thrice"))
    for x, y in [("a", "a"), ("a", '"a"'), ('"a"', "a"), ('"a"', '"a"'), ('"a"', 'r"a"'), ('"a"', '"\\x61"'), ('""', '""'), ("é", '"\\u{e9}"'), ("name", "name")]:
        for mid in ["", 'z = "1", ', '"b" = "1", c = "2", ']:
            for v, w in [('"1"', '"1"'), ('"1"', '"2"')]:
                out.append((f"metadata = {{ {x} = {v}, {mid}{y} = {w} }}", "a metadata key given twice"))
    out.append(('name = "n", metadata = { q = "1", a = "1", b = "2", c = "3", d = "4", q = "1", }, description = "d"', "a metadata key given twice"))
    words = [w for w in extra if re.fullmatch(r"[A-Za-z_]\w*", w) and w not in ("name", "description", "metadata", "formatter", "crate", "_")]
    for n in words + ["names", "Name", "NAME", "nam", "desc", "descr", "descriptions", "format", "fmt", "formatters", "meta", "metadatas", "krate", "value", "unit", "help", "label", "labels", "kind", "_name", "name_", "x", "default", "export", "path", "metric", "r#name"]:
        out.append((f'{n} = "v"', f"unknown argument {n}"))
        if r.random() < 0.5:
            out.append((f'name = "a", {n} = "v"', f"unknown argument {n}"))
        if r.random() < 0.5:
            out.append((f'{n} = "v", description = "a"', f"unknown argument {n}"))
    return out


class Result:
    ok, info, message, case, log, cmd, wall = None, {}, "", "", "", "", 0.0


def cargo_toml(name, krate):
    dep = f'{krate} = {{ path = "{REPO}/metriken", package = "metriken" }}' if krate != "metriken" else f'metriken = {{ path = "{REPO}/metriken" }}'
    return f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\n{dep}\n\n[profile.dev]\ndebug = false\n\n[workspace]\n'


def crate(root, name, krate, source):
    d = os.path.join(root, name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(cargo_toml(name, krate))
    shutil.copy(os.path.join(VERIF, "driver", "core", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write(source)
    return d


def compile_(d, target, command="build"):
    """-> (compiled, error messages with their lines in main.rs, output)"""
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=target)
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", command, "--offline", "-q", "--message-format=json"], cwd=d, env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors="replace", timeout=600)
    errs = []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or not m["message"]["level"].startswith("error"):
            continue
        if m["target"]["name"] != os.path.basename(d):
            return False, None, m["message"].get("rendered") or ""
        lines = set()
        work = list(m["message"]["spans"])
        while work:
            s = work.pop()
            if s["file_name"].endswith("src/main.rs"):
                lines.add(s["line_start"])
            if s.get("expansion"):
                work.append(s["expansion"]["span"])
        errs.append((lines, m["message"].get("rendered") or m["message"]["message"]))
    if p.returncode == 0:
        return True, [], ""
    return False, errs, p.stderr + "\n".join(e for _, e in errs)


def program(decls, krate, mains=True):
    src = HELP.replace("{M}", krate)
    at = {}
    for d in decls:
        a = src.count("\n") + 1
        src += d.source
        at[d.i] = (a, src.count("\n"))
    calls = " ".join(f"d{d.i}::check();" for d in decls)
    src += f"fn main() {{ let n = {krate}::metrics().static_metrics().len(); if n != {len(decls)} {{ println!(\"FAIL -1 \\\"{{n}} entries for {len(decls)} declarations\\\"\"); }} {calls} println!(\"DONE\"); }}\n"
    return src, at


def run(prop, build_dir, dict_path, seed, tier, timeout):
    r, res, t0 = random.Random(seed * 7919 + 13), Result(), time.time()
    extra = []
    try:
        with open(dict_path, errors="replace") as f:
            for line in f:
                if line.startswith("s"):
                    extra.append(bytes.fromhex(line.split()[1]).decode()) if re.fullmatch(r"s\w* [0-9a-f]+\n?", line) else None
    except (OSError, ValueError, IndexError):
        pass
    root, target = os.path.join(build_dir, "attr"), os.path.join(build_dir, "driver-attr")
    shutil.rmtree(root, ignore_errors=True)
    n = 500 if tier == "quick" else 3000
    done, samples = 0, []
    res.cmd = f"cd {root}/<crate> && CARGO_TARGET_DIR={target} cargo run --offline   (programs written by {os.path.abspath(__file__)} from seed {seed})"

    def finish(ok, message="", case="", log=""):
        res.ok, res.message, res.case, res.log, res.wall = ok, message, case, log[-20000:], time.time() - t0
        res.info = dict(evaluations=done, distinct=done, samples=samples)
        return res

    for name, krate in (("plain", "metriken"), ("renamed", "mk")):
        decls = []
        for i in range(n if krate == "metriken" else n // 3):
            d = declaration(r, i, extra, krate)
            d.i = i
            decls.append(d)
        # a type without size has no address of its own: its entry is found by name
        src, at = program(decls, krate)
        d = crate(root, name, krate, src)
        ok, errs, log = compile_(d, target)
        if not ok:
            # which declarations are refused, each alone?
            trivial = Decl()
            trivial.i = 0
            trivial.source = f"pub mod d0 {{ #[{krate}::metric] pub static X: {krate}::Counter = {krate}::Counter::new(); pub fn check() {{}} }}\n"
            if errs is None or not compile_(crate(root, "trivial", krate, program([trivial], krate)[0]), target)[0]:
                return finish(None, "no program builds against the current tree", "", log)
            blamed = [x for x in decls if any(at[x.i][0] <= l <= at[x.i][1] for ls, _ in errs for l in ls)] or decls
            for x in blamed[:8]:
                ok1, _, log1 = compile_(crate(root, "alone", krate, program([x], krate)[0]), target)
                if not ok1:
                    return finish(False, "a valid declaration does not compile", x.desc_text, log1)
            return finish(False, "valid declarations do not compile together", "\n".join(x.desc_text for x in blamed[:8]), log)
        try:
            p = subprocess.run([os.path.join(target, "debug", name)], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, cwd=build_dir, errors="replace")
            out = p.stdout
        except subprocess.TimeoutExpired:
            return finish(False, "the program does not end", "", "")
        m = re.search(r"^FAIL (-?\d+) (.*)$", out, re.M)
        fails = re.findall(r"^FAIL (-?\d+) (.*)$", out, re.M)
        if fails:
            i, why = next(((i, w) for i, w in fails if i != "-1"), fails[0])
            return finish(False, why, decls[int(i)].desc_text if int(i) >= 0 else f"{root}/{name}/src/main.rs", out)
        if not out.rstrip().endswith("DONE"):
            return finish(False, f"the program ended with status {p.returncode}", f"{root}/{name}/src/main.rs", out)
        done += len(decls)
        samples += [x.desc_text[:400] for x in decls[:2]]
    neg = negatives(r, "metriken", extra)
    src, where = "#![allow(unused)]\n", []
    for k, (args, why) in enumerate(neg):
        src += f"mod n{k} {{ #[metriken::metric({args})] static X: metriken::Counter = metriken::Counter::new(); }}\n"
        where.append(k + 2)
    src += "fn main() {}\n"
    ok, errs, log = compile_(crate(root, "refused", "metriken", src), target, "check")
    if errs is None:
        return finish(None, "no program builds against the current tree", "", log)
    hit = set().union(*[ls for ls, _ in errs]) if errs else set()
    for k, (args, why) in enumerate(neg):
        if where[k] in hit:
            continue
        one = f"#![allow(unused)]\n#[metriken::metric({args})] static X: metriken::Counter = metriken::Counter::new();\nfn main() {{}}\n"
        if compile_(crate(root, "accepted", "metriken", one), target, "build")[0]:
            return finish(False, f"accepted: {why}", f"#[metriken::metric({args})] static X: metriken::Counter = metriken::Counter::new();", "")
    done += len(neg)
    samples += [f"refused: #[metric({a})] ({w})" for a, w in neg[:2]]
    shutil.rmtree(root, ignore_errors=True)
    return finish(True)
