"""C19: serde's derive as a contract, instantiated from the current source.

What `#[derive(Serialize, Deserialize)]` generates is a function of the type's
definition and its serde attributes. That function is serde's documented
contract (assumed; the driver runs the generated code itself). Here the type
definitions and attributes are read from /repo on every run, and for each type
T the specifications `ser_T` (value -> data model) and `de_T` (data model ->
value, or nothing) are written out, with the lemma that reading what was
written gives the value back. Definitions or attributes outside what is
understood here raise Lost: undecided.
"""
import itertools, os, re
from . import rust
from .rust import Lost

LEAF = {  # type -> (specification type, writer, reader, lemma, finite)
    "String": ("Str", "ser_text", "de_text"),
    "u64": ("u64", "ser_u64", "de_u64"),
    "i64": ("i64", "ser_i64", "de_i64"),
    "HashMap<String,String>": ("SMap", "ser_map", "de_map"),
    "std::collections::HashMap<String,String>": ("SMap", "ser_map", "de_map"),
    "histogram::Histogram": ("Hist", "ser_hist", "de_hist"),
    "SystemTime": ("Instant", "ser_time", "de_time"),
    "std::time::SystemTime": ("Instant", "ser_time", "de_time"),
    "Duration": ("Span", "ser_span", "de_span"),
    "std::time::Duration": ("Span", "ser_span", "de_span"),
}
DEFAULT = {"SMap": "Map::empty()", "Str": "Seq::empty()", "u64": "0u64", "i64": "0i64", "Span": "Span { secs: 0, nanos: 0 }"}


def attributes(t, i):
    """Attributes starting at i -> (list of token lists, next index)."""
    out = []
    while i < len(t) and t[i] == "#":
        j = i + 1
        if t[j] == "!":
            j += 1
        e = rust.match(t, j)
        out.append(t[j + 1:e])
        i = e + 1
    return out, i


def serde_args(attrs, where):
    """-> (derives, serde arguments) under the feature `serde`."""
    derives, args = set(), []
    work = list(attrs)
    while work:
        a = work.pop(0)
        if a[0] == "cfg_attr":
            parts = rust.split_top(a[2:-1], ",")
            if "".join(parts[0]) != 'feature="serde"':
                raise Lost(f"{where}: cfg_attr({' '.join(parts[0])})")
            work += [p for p in parts[1:] if p]
        elif a[0] == "cfg":
            raise Lost(f"{where}: conditional")
        elif a[0] == "derive":
            derives |= {"".join(p) for p in rust.split_top(a[2:-1], ",") if p}
        elif a[0] == "serde":
            args += ["".join(p) for p in rust.split_top(a[2:-1], ",") if p]
        elif a[0] in ("doc", "allow", "must_use", "non_exhaustive", "inline"):
            pass
        else:
            raise Lost(f"{where}: attribute {' '.join(a)}")
    return derives, args


def definitions(src):
    """All struct and enum definitions: name -> (kind, attributes, body tokens)."""
    t = rust.lex(src)
    out, i = {}, 0
    while i < len(t):
        attrs, j = attributes(t, i)
        k = j
        if k < len(t) and t[k] == "pub":
            k += 1
            if k < len(t) and t[k] == "(":
                k = rust.match(t, k) + 1
        if k < len(t) and t[k] in ("struct", "enum"):
            b = k + 2
            if t[b] == "{":
                e = rust.match(t, b)
                out.setdefault(t[k + 1], []).append((t[k], attrs, t[b + 1:e]))
                i = e + 1
                continue
        # skip to the end of this item
        while k < len(t) and t[k] not in ("{", ";"):
            k = rust.match(t, k) + 1 if t[k] in ("(", "[") else k + 1
        i = rust.match(t, k) + 1 if k < len(t) and t[k] == "{" else k + 1
        i = max(i, j + 1)
    return out


def parts(t):
    """Split at commas outside all brackets, angle brackets included."""
    out, cur, d = [], [], 0
    for p in rust.split_top(t, ","):
        cur += ([","] if cur and d else []) + p
        d = sum((x == "<") - (x == ">") for x in cur)
        if d == 0:
            out.append(cur)
            cur = []
    if cur:
        raise Lost("unbalanced angle brackets")
    return out


def both(name, derives):
    d = {x.split("::")[-1] for x in derives}
    if not {"Serialize", "Deserialize"} <= d:
        raise Lost(f"{name}: Serialize and Deserialize are not both derived")


class Gen:
    def __init__(self, defs):
        self.defs, self.done, self.text, self.fields = defs, {}, [], {}

    def one(self, name):
        if len(self.defs.get(name, [])) != 1:
            raise Lost(f"type {name}: {len(self.defs.get(name, []))} definitions")
        return self.defs[name][0]

    def typ(self, t, where):
        """Type text -> (spec type, ser, de, lemma(expr, named) or None)."""
        if t in LEAF:
            s, w, r = LEAF[t]
            return s, w, r, "rt_" + w[4:]
        m = re.fullmatch(r"Vec<(\w+)>", t)
        if m and m.group(1) in self.defs:
            n = m.group(1)
            self.struct(n)
            return f"Seq<{n}>", f"ser_list_{n}", f"de_list_{n}", f"rt_list_{n}"
        raise Lost(f"{where}: type {t}")

    def struct(self, name):
        if name in self.done:
            return
        kind, attrs, body = self.one(name)
        if kind != "struct":
            raise Lost(f"{name} is no struct")
        derives, args = serde_args(attrs, name)
        both(name, derives)
        if args:
            raise Lost(f"{name}: serde({', '.join(args)})")
        self.done[name] = True
        fs = []
        for part in parts(body):
            if not part:
                continue
            a, i = attributes(part, 0)
            _, fa = serde_args(a, name)
            if part[i] == "pub":
                i += 1
                if part[i] == "(":
                    i = rust.match(part, i) + 1
            f = part[i]
            if part[i + 1] != ":":
                raise Lost(f"{name}: field {' '.join(part)}")
            key, dflt = f, False
            for x in fa:
                m = re.fullmatch(r'rename="(\w+)"', x)
                if x == "default":
                    dflt = True
                elif m:
                    key = m.group(1)
                else:
                    raise Lost(f"{name}.{f}: serde({x})")
            st, w, r, l = self.typ("".join(part[i + 2:]), f"{name}.{f}")
            if dflt and st not in DEFAULT and not st.startswith("Seq<"):
                raise Lost(f"{name}.{f}: default of {st}")
            fs.append(dict(f=f, key=key, dflt=dflt, st=st, w=w, r=r, l=l))
        if len({x["key"] for x in fs}) != len(fs):
            raise Lost(f"{name}: two fields with the same key")
        self.fields[name] = fs
        n = len(fs)
        d = lambda x: f"Some({DEFAULT.get(x['st'], 'Seq::empty()')})" if x["dflt"] else "None"
        o = []
        o.append(f"pub struct {name} {{ " + ", ".join(f"pub {x['f']}: {x['st']}" for x in fs) + " }")
        o.append(f"pub open spec fn ser_{name}(x: {name}, named: bool) -> Value {{ if named {{ Value::Dict(dict_{name}(x, named)) }} else {{ Value::List(list_{name}(x, named)) }} }}")
        o.append(f"pub open spec fn dict_{name}(x: {name}, named: bool) -> Seq<(Str, Value)> {{ seq![" + ", ".join(f"(\"{x['key']}\"@, {x['w']}(x.{x['f']}, named))" for x in fs) + "] }")
        o.append(f"pub open spec fn list_{name}(x: {name}, named: bool) -> Seq<Value> {{ seq![" + ", ".join(f"{x['w']}(x.{x['f']}, named)" for x in fs) + "] }")
        o.append(f"pub open spec fn de_{name}(v: Value) -> Option<{name}> {{ match v {{")
        o.append("    Value::Dict(d) => { if !unique(d) { None } else {")
        for k, x in enumerate(fs):
            o.append(f"        let a{k} = match find(d, \"{x['key']}\"@) {{ Some(w) => {x['r']}(w), None => {d(x)} }};")
        cond = " && ".join(f"a{k} is Some" for k in range(n)) or "true"
        val = f"{name} {{ " + ", ".join(f"{x['f']}: a{k}->0" for k, x in enumerate(fs)) + " }"
        o.append(f"        if {cond} {{ Some({val}) }} else {{ None }} }} }}")
        o.append(f"    Value::List(l) => {{ if l.len() > {n} {{ None }} else {{")
        for k, x in enumerate(fs):
            o.append(f"        let a{k} = if {k} < l.len() {{ {x['r']}(l[{k}]) }} else {{ {d(x)} }};")
        o.append(f"        if {cond} {{ Some({val}) }} else {{ None }} }} }}")
        o.append("    _ => None } }")
        o.append(f"pub open spec fn wf_{name}(x: {name}) -> bool {{ " + (" && ".join(self.wf(x) for x in fs) or "true") + " }")
        o.append(f"pub proof fn keys_{name}() ensures " + ", ".join(f'"{a["key"]}"@ != "{b["key"]}"@' for a, b in itertools.combinations(fs, 2)) + " {")
        o += self.distinct([x["key"] for x in fs])
        o.append("}")
        o.append(f"/// Reading a written {name} gives it back.")
        o.append(f"pub proof fn rt_{name}(x: {name}, named: bool) requires wf_{name}(x) ensures de_{name}(ser_{name}(x, named)) == Some(x) {{")
        for x in fs:
            o.append(f"    {x['l']}(x.{x['f']}, named);")
        o.append(f"    if named {{ let d = dict_{name}(x, named); keys_{name}(); assert(unique(d)); " + " ".join(f"lemma_find(d, {k});" for k in range(n)) + " }")
        o.append("}")
        o.append(f"""pub open spec fn ser_list_{name}(s: Seq<{name}>, named: bool) -> Value {{ Value::List(Seq::new(s.len(), |i: int| ser_{name}(s[i], named))) }}
pub open spec fn de_list_{name}(v: Value) -> Option<Seq<{name}>> {{ match v {{
    Value::List(l) => if forall|i: int| 0 <= i < l.len() ==> de_{name}(#[trigger] l[i]) is Some {{ Some(Seq::new(l.len(), |i: int| de_{name}(l[i])->0)) }} else {{ None }},
    _ => None }} }}
pub open spec fn wf_list_{name}(s: Seq<{name}>) -> bool {{ forall|i: int| 0 <= i < s.len() ==> wf_{name}(#[trigger] s[i]) }}
pub proof fn rt_list_{name}(s: Seq<{name}>, named: bool) requires wf_list_{name}(s) ensures de_list_{name}(ser_list_{name}(s, named)) == Some(s) {{
    let l = Seq::new(s.len(), |i: int| ser_{name}(s[i], named));
    assert forall|i: int| 0 <= i < l.len() implies de_{name}(#[trigger] l[i]) == Some(s[i]) by {{ rt_{name}(s[i], named); }}
    assert(Seq::new(l.len(), |i: int| de_{name}(l[i])->0) =~= s);
}}""")
        self.text.append("\n".join(o))

    def wf(self, x):
        m = re.fullmatch(r"Seq<(\w+)>", x["st"])
        if m:
            return f"wf_list_{m.group(1)}(x.{x['f']})"
        if x["st"] in ("Instant", "Span"):
            return f"x.{x['f']}.secs <= u64::MAX && x.{x['f']}.nanos < 1_000_000_000"
        return "true"

    def distinct(self, keys):
        o = ["    " + " ".join(f'reveal_strlit("{k}");' for k in keys)]
        for a, b in itertools.combinations(keys, 2):
            if len(a) == len(b):
                i = next(i for i in range(len(a)) if a[i] != b[i])
                o.append(f'    assert("{a}"@[{i}] != "{b}"@[{i}]);')
            else:
                o.append(f'    assert("{a}"@.len() != "{b}"@.len());')
        return o

    def enum(self, name):
        kind, attrs, body = self.one(name)
        if kind != "enum":
            raise Lost(f"{name} is no enum")
        derives, args = serde_args(attrs, name)
        both(name, derives)
        if args not in ([], ["untagged"]):
            raise Lost(f"{name}: serde({', '.join(args)})")
        vs = []
        for part in rust.split_top(body, ","):
            if not part:
                continue
            a, i = attributes(part, 0)
            _, fa = serde_args(a, name)
            if fa or part[i + 1] != "(" or len(part) != i + 4:
                raise Lost(f"{name}: variant {' '.join(part)}")
            self.struct(part[i + 2])
            vs.append((part[i], part[i + 2]))
        o = [f"pub enum {name} {{ " + ", ".join(f"{v}({t})" for v, t in vs) + " }"]
        untagged = args == ["untagged"]
        if untagged:
            o.append(f"pub open spec fn ser_{name}(x: {name}, named: bool) -> Value {{ match x {{ " + ", ".join(f"{name}::{v}(y) => ser_{t}(y, named)" for v, t in vs) + " } }")
            e = "None"
            for v, t in reversed(vs):
                e = f"match de_{t}(v) {{ Some(y) => Some({name}::{v}(y)), None => {e} }}"
            o.append(f"/// The variants are tried in the order of their declaration.\npub open spec fn de_{name}(v: Value) -> Option<{name}> {{ {e} }}")
        else:
            o.append(f"pub open spec fn ser_{name}(x: {name}, named: bool) -> Value {{ match x {{ " + ", ".join(f"{name}::{v}(y) => Value::Dict(seq![(\"{v}\"@, ser_{t}(y, named))])" for v, t in vs) + " } }")
            e = "None"
            for v, t in reversed(vs):
                e = f"if d[0].0 == \"{v}\"@ {{ match de_{t}(d[0].1) {{ Some(y) => Some({name}::{v}(y)), None => None }} }} else {{ {e} }}"
            o.append(f"pub open spec fn de_{name}(v: Value) -> Option<{name}> {{ match v {{ Value::Dict(d) => if d.len() == 1 {{ {e} }} else {{ None }}, _ => None }} }}")
        o.append(f"pub open spec fn wf_{name}(x: {name}) -> bool {{ match x {{ " + ", ".join(f"{name}::{v}(y) => wf_{t}(y)" for v, t in vs) + " } }")
        # an earlier variant must not accept what a later one writes
        if untagged:
            for (v, t), (w, u) in itertools.combinations(vs, 2):
                fs, gs = self.fields[t], self.fields[u]
                o.append(f"/// What is written for {w} is not read as {v}.\npub proof fn not_{t}_{u}(y: {u}, named: bool) requires wf_{u}(y) ensures de_{t}(ser_{u}(y, named)) is None {{")
                for x in gs:
                    if x["st"] == "SMap":
                        o.append(f"    map_is_no_time(y.{x['f']}, named);")
                missing = [x["key"] for x in fs if x["key"] not in [g["key"] for g in gs]]
                o.append(f"    if named {{ let d = dict_{u}(y, named);")
                for k in missing:
                    o += self.distinct_from(k, [g["key"] for g in gs])
                    o.append(f'    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 != "{k}"@ by {{}}')
                    o.append(f'    assert(find(d, "{k}"@) is None);')
                o.append("    } else { let l = list_%s(y, named);" % u)
                o.append("    } }")
        o.append(f"/// The property: a written {name} reads back as itself, in both formats.\npub proof fn rt_{name}(x: {name}, named: bool) requires wf_{name}(x) ensures de_{name}(ser_{name}(x, named)) == Some(x) {{")
        if not untagged:
            o += self.distinct([v for v, _ in vs])
        arms = []
        for i, (v, t) in enumerate(vs):
            pre = " ".join(f"not_{u}_{t}(y, named);" for _, u in vs[:i]) if untagged else ""
            arms.append(f"{name}::{v}(y) => {{ rt_{t}(y, named); {pre} }}")
        o.append("    match x { " + " ".join(arms) + " }\n}")
        o.append(f"/// Not vacuous: none of the above leads to a contradiction.\npub fn reachable_{name}(Ghost(x): Ghost<{name}>) requires wf_{name}(x) {{\n/*probe 0*/\nproof {{ rt_{name}(x, true); rt_{name}(x, false); axiom_listing(Map::empty()); }}\n/*probe 1*/\n}}")
        self.text.append("\n".join(o))

    def distinct_from(self, k, keys):
        o = ["    " + " ".join(f'reveal_strlit("{x}");' for x in [k] + keys)]
        for b in keys:
            if len(b) == len(k):
                i = next(i for i in range(len(k)) if k[i] != b[i])
                o.append(f'    assert("{k}"@[{i}] != "{b}"@[{i}]);')
        return o


def generate(repo):
    path = os.path.join(repo, "metriken-exposition", "src")
    defs = {}
    for dp, _, fn in os.walk(path):
        for f in sorted(fn):
            if f.endswith(".rs"):
                with open(os.path.join(dp, f)) as h:
                    for n, ds in definitions(h.read()).items():
                        defs.setdefault(n, []).extend(ds)
    # the impls are the derived ones only if nobody writes them by hand
    for dp, _, fn in os.walk(path):
        for f in fn:
            if f.endswith(".rs"):
                with open(os.path.join(dp, f)) as h:
                    t = " ".join(rust.lex(h.read()))
                if re.search(r"\b(Serialize|Deserialize\b[^{;]*?) for (Snapshot|SnapshotV1|SnapshotV2|Counter|Gauge|Histogram)\b", t):
                    raise Lost("an impl of Serialize or Deserialize written by hand")
    g = Gen(defs)
    g.enum("Snapshot")
    return "\n\n".join(g.text)
