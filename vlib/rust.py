"""A Rust lexer, the extraction of items from the sources, and the fixed,
stated rewrites that bring the extracted text within Verus's reach.

Nothing here knows the functions under verification; every rewrite is applied
wherever its pattern occurs and is listed in RULES for the evidence.
"""
import os, re


class Lost(Exception):
    """The current sources cannot be brought in line with the annotated text."""


TOKEN = re.compile(r"""
  (?P<ws>\s+)
| (?P<lc>//[^\n]*)
| (?P<bc>/\*.*?\*/)
| (?P<rstr>b?r(?P<h>\#*)".*?"(?P=h))
| (?P<str>[bc]?"(?:[^"\\]|\\.)*")
| (?P<char>b?'(?:[^'\\]|\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.))')
| (?P<life>'[A-Za-z_]\w*)
| (?P<num>\d[\w]*(?:\.\d[\w]*)?)
| (?P<id>(?:r\#)?[A-Za-z_]\w*)
| (?P<op><<=|>>=|\.\.\.|\.\.=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|\.\.|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]«»‹›])
""", re.X | re.S)

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def lex(src):
    out, i = [], 0
    while i < len(src):
        m = TOKEN.match(src, i)
        if not m:
            raise Lost(f"unreadable text: {src[i:i + 40]!r}")
        i = m.end()
        if m.lastgroup not in ("ws", "lc", "bc"):
            out.append(m.group(0))
    return out


def match(t, i):
    """Index of the bracket closing the one at i."""
    d = 0
    for j in range(i, len(t)):
        if t[j] in OPEN:
            d += 1
        elif t[j] in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise Lost("unbalanced brackets")


def is_id(x):
    return re.fullmatch(r"(?:r#)?[A-Za-z_]\w*", x) is not None


def drop_attributes(t):
    """Remove #[..] and #![..]; an item under #[cfg(test)] is removed whole."""
    out, i = [], 0
    while i < len(t):
        if t[i] == "#" and i + 1 < len(t) and (t[i + 1] == "[" or (t[i + 1] == "!" and t[i + 2] == "[")):
            b = i + 1 if t[i + 1] == "[" else i + 2
            e = match(t, b)
            test = t[b:e + 1] == ["[", "cfg", "(", "test", ")", "]"]
            i = e + 1
            if test:
                while t[i] == "#":
                    i = match(t, i + 1) + 1
                while t[i] not in ("{", ";"):
                    i = match(t, i) + 1 if t[i] in OPEN else i + 1
                i = match(t, i) + 1 if t[i] == "{" else i + 1
            continue
        out.append(t[i])
        i += 1
    return out


def items(t, base=0):
    """Yield (kind, name-or-header tokens, start, end) for the items of a token list."""
    i, start = 0, 0
    while i < len(t):
        x = t[i]
        if x == ";" or x == "}":
            i += 1
            start = i
            continue
        if x in ("fn", "struct", "enum", "trait", "mod", "union", "const", "static", "type", "use", "impl", "macro_rules", "extern"):
            if x in ("const", "extern") and i + 1 < len(t) and t[i + 1] in ("fn", "unsafe") or x == "extern" and t[i + 1].startswith('"') and t[i + 2] == "fn":
                i += 1
                continue
            name = t[i + 1]
            j = i
            stop = ("{", ";") if x not in ("const", "static", "use", "type") else (";",)
            depth = 0
            while j < len(t) and t[j] not in stop:
                j = match(t, j) + 1 if t[j] in OPEN else j + 1
            if j >= len(t):
                return
            head = t[i:j]
            end = match(t, j) if t[j] == "{" else j
            if x == "struct" and t[j] == "{" or t[j] != "{":
                pass
            yield x, name, head, start, end, j
            i = end + 1
            start = i
            continue
        i = match(t, i) + 1 if x in OPEN else i + 1


class Crate:
    def __init__(self, root):
        self.files = {}
        for dp, dn, fn in os.walk(os.path.join(root, "src")):
            for f in fn:
                if f.endswith(".rs"):
                    p = os.path.join(dp, f)
                    with open(p) as fh:
                        self.files[os.path.relpath(p, root)] = drop_attributes(lex(fh.read()))

    def _walk(self, t):
        for it in items(t):
            yield t, it
            if it[0] == "mod" and t[it[5]] == "{":
                yield from self._walk(t[it[5] + 1:it[4]])

    def find(self, sel):
        """Token list of one item: 'fn f', 'struct S', 'impl HEAD fn f'."""
        hits = []
        where = re.match(r"(src/\S+) (.*)", sel)
        if where:
            sel = where.group(2)
        m = re.fullmatch(r"(impl\b.*) fn (\w+)", sel)
        for f, t in self.files.items():
            if where and f != where.group(1):
                continue
            for tt, (kind, name, head, s, e, b) in self._walk(t):
                if m:
                    if kind == "impl" and head == lex(m.group(1)):
                        body = tt[b + 1:e]
                        for (k2, n2, h2, s2, e2, b2) in items(body):
                            if k2 == "fn" and n2 == m.group(2):
                                hits.append(body[s2:e2 + 1])
                else:
                    k, n = sel.split(" ", 1)
                    if kind == k and (name == n or k == "impl" and head == lex(sel)):
                        hits.append(tt[s:e + 1])
        if len(hits) != 1:
            raise Lost(f"{sel}: found {len(hits)} times")
        return hits[0]


# ---------------------------------------------------------------- rewrites

RULES = {
    "attributes": "attributes (derive, cfg_attr, doc comments) are dropped",
    "for": "`for P in E { B }` becomes `let mut it = (E).into_iter(); loop { match it.next() { None => { break; } Some(P) => { B } } }` (its definition)",
    "names": "methods of std traits whose contracts are ours get the suffix _v: to_string, to_owned, into_iter, iter, iter_mut, into, chars, join",
    "closure": "`|P| E` becomes `|p| { let P = p; E }`, `|x| E` becomes `|x| { E }`, so that a contract can be attached",
    "format": "`format!(\"a{x}b{}\", y)` becomes the concatenation of its pieces; only plain {} and {ident} placeholders",
    "string_add": "in the assignments of string-building functions, `x = a + b + c` becomes `x = str_add(str_add(a, b), c)` and `x += a` becomes `x.push_str(a)`",
    "mut_self": "a parameter `mut self` becomes `self` and `let mut this = self;`",
    "vec": "`vec![a, b]` becomes `vec_v([a, b])`",
    "syn": "option syn: `ParseStream` becomes `&mut Stream`; `Token![x]` the type Token_x; `x.fork().parse()` is `x.fork_parse()`; `.peek(T)` is `.peek_v::<T>()`; `syn::Error::new(..)` and `new_spanned(..)` become `error_v()` (what an error says is dropped); `let c; syn::braced!(c in i)` is `let mut c = Stream::none_v(); braced_v(i, &mut c)?` and `&c` then `&mut c`",
    "quote": "option syn: `quote!{a #x b}` becomes `TokenStream::new_v().w(\"a\").i(&x).w(\"b\")`, `#(#x,)*` is `.each(&x, \",\")`, `parse_quote!{..}` is `parse_quoted(..)` of the same",
    "str_match": "option syn: `match &*E { \"a\" => A, _ => B }` becomes `let m = E; if str_is(&m, \"a\") { A } else { B }`",
    "entry_match": "option syn: `match M.entry(K) { Entry::Occupied(_) => A, Entry::Vacant(v) => B }` becomes `let k = K; if M.contains_key(&k) { A } else { B }` with `M.insert(k, x)` for `v.insert(x)`",
    "or_insert": "`.entry(k).or_insert(v)` becomes `.entry_or_insert(k, v)`",
}

SUFFIX = {"to_string", "to_owned", "into_iter", "iter", "iter_mut", "into", "chars", "join"}


def split_top(t, sep):
    out, cur, i = [], [], 0
    while i < len(t):
        if t[i] in OPEN:
            j = match(t, i)
            cur += t[i:j + 1]
            i = j + 1
        elif t[i] == sep:
            out.append(cur)
            cur = []
            i += 1
        else:
            cur.append(t[i])
            i += 1
    out.append(cur)
    return out


def rust_string(tok):
    """The text of a plain string literal token, keeping escapes as written."""
    if not tok.startswith('"'):
        raise Lost(f"format string {tok}")
    return tok[1:-1]


def rw_format(t):
    out, i = [], 0
    while i < len(t):
        if t[i] == "format" and i + 2 < len(t) and t[i + 1] == "!" and t[i + 2] == "(":
            e = match(t, i + 2)
            args = split_top(t[i + 3:e], ",")
            if args and not args[-1]:
                args.pop()
            f = rust_string(args[0][0])
            args = [rw_format(a) for a in args[1:]]
            pieces, lit, k = [], "", 0
            while k < len(f):
                if f[k] == "\\":
                    lit += f[k:k + 2]
                    k += 2
                elif f[k:k + 2] in ("{{", "}}"):
                    lit += f[k]
                    k += 2
                elif f[k] == "{":
                    m = f.index("}", k)
                    name = f[k + 1:m]
                    if lit:
                        pieces.append(['"' + lit + '"'])
                        lit = ""
                    if name == "":
                        if not args:
                            raise Lost("format!: too few arguments")
                        pieces.append(args.pop(0))
                    elif is_id(name):
                        pieces.append([name])
                    else:
                        raise Lost(f"format!: placeholder {{{name}}}")
                    k = m + 1
                else:
                    lit += f[k]
                    k += 1
            if lit:
                pieces.append(['"' + lit + '"'])
            if args:
                raise Lost("format!: named or unused arguments")
            out += ["fmt_v", "("] * len(pieces) + ["String", "::", "new", "(", ")"]
            for p in pieces:
                out += [",", "&", "("] + p + [")", ")"]
            i = e + 1
        else:
            out.append(t[i])
            i += 1
    return out


def rw_for(t, counter):
    out, i = [], 0
    while i < len(t):
        if t[i] == "for" and i > 0 and t[i - 1] in ("{", "}", ";") and t[i + 1] != "<":
            j = i + 1
            while t[j] != "in":
                j = match(t, j) + 1 if t[j] in OPEN else j + 1
            b = j + 1
            while t[b] != "{":
                b = match(t, b) + 1 if t[b] in OPEN else b + 1
            e = match(t, b)
            it = f"it_{counter[0]}"
            counter[0] += 1
            body = rw_for(t[b + 1:e], counter)
            out += ["let", "mut", it, "=", "("] + t[j + 1:b] + [")", ".", "into_iter", "(", ")", ";", "loop", "{",
                    "match", it, ".", "next", "(", ")", "{", "None", "=>", "{", "break", ";", "}", "Some", "("] \
                + t[i + 1:j] + [")", "=>", "{"] + body + ["}", "}", "}"]
            i = e + 1
        else:
            out.append(t[i])
            i += 1
    return out


def rw_closure(t, counter):
    out, i = [], 0
    while i < len(t):
        starts = i > 0 and (t[i - 1] in ("(", ",", "=", "move", ":", "{", "=>", "return"))
        if starts and t[i] in ("|", "||"):
            if t[i] == "||":
                params, j = [], i + 1
            else:
                j = i + 1
                while t[j] != "|":
                    j = match(t, j) + 1 if t[j] in OPEN else j + 1
                params = split_top(t[i + 1:j], ",") if j > i + 1 else []
                j += 1
            if t[j] == "->":
                raise Lost("closure with a return type")
            k = j
            while k < len(t) and t[k] not in (",", ";") and t[k] not in CLOSE:
                k = match(t, k) + 1 if t[k] in OPEN else k + 1
            body = rw_closure(t[j:k], counter)
            block = body[0] == "{" and match(body, 0) == len(body) - 1
            pre, ps = [], []
            for p in params:
                if len(p) == 1 and is_id(p[0]) and p[0] != "_" or ":" in p:
                    ps.append(p)
                else:
                    n = f"p_{counter[0]}"
                    counter[0] += 1
                    ps.append([n])
                    pre += ["let"] + p + ["=", n, ";"]
            out += ["|"]
            for n, p in enumerate(ps):
                out += ([","] if n else []) + p
            out += ["|"]
            if block:
                out += ["{"] + pre + body[1:]
            else:
                out += ["{"] + pre + body + ["}"]
            i = k
        else:
            out.append(t[i])
            i += 1
    return out


def rw_string_add(t):
    out, i = [], 0
    while i < len(t):
        if t[i] in ("=", "+=") and i > 0 and is_id(t[i - 1]):
            e = i + 1
            while e < len(t) and t[e] != ";" and t[e] not in CLOSE:
                e = match(t, e) + 1 if t[e] in OPEN else e + 1
            if e < len(t) and t[e] == ";":
                terms = split_top(t[i + 1:e], "+")
                if t[i] == "+=":
                    out += [".", "push_str", "("] + t[i + 1:e] + [")"]
                    i = e
                    continue
                if len(terms) > 1 and all(terms):
                    out += ["="] + ["str_add", "("] * (len(terms) - 1) + terms[0]
                    for x in terms[1:]:
                        out += [","] + x + [")"]
                    i = e
                    continue
        out.append(t[i])
        i += 1
    return out


def rw_or_insert(t):
    out, i = [], 0
    while i < len(t):
        if t[i:i + 3] == [".", "entry", "("]:
            e = match(t, i + 2)
            if t[e + 1:e + 4] == [".", "or_insert", "("]:
                f = match(t, e + 3)
                out += [".", "entry_or_insert", "("] + rw_or_insert(t[i + 3:e]) + [","] + rw_or_insert(t[e + 4:f]) + [")"]
                i = f + 1
                continue
        out.append(t[i])
        i += 1
    return out


def rw_vec(t):
    out, i = [], 0
    while i < len(t):
        if t[i:i + 3] == ["vec", "!", "["]:
            e = match(t, i + 2)
            if ";" in t[i + 3:e]:
                raise Lost("vec![x; n]")
            out += ["vec_v", "(", "["] + rw_vec(t[i + 3:e]) + ["]", ")"]
            i = e + 1
        else:
            out.append(t[i])
            i += 1
    return out


def quoted(t):
    """The builder chain for the text of a quote!."""
    out, words, i = ["TokenStream", "::", "new_v", "(", ")"], [], 0

    def flush():
        if words:
            text = " ".join(words).replace("\\", "\\\\").replace('"', '\\"')
            out.extend([".", "w", "(", '"' + text + '"', ")"])
            words.clear()

    while i < len(t):
        if t[i] == "#" and i + 1 < len(t) and is_id(t[i + 1]):
            flush()
            out += [".", "i", "(", "&", t[i + 1], ")"]
            i += 2
        elif t[i] == "#" and i + 1 < len(t) and t[i + 1] == "(":
            e = match(t, i + 1)
            inner = t[i + 2:e]
            if inner[0] != "#" or "#" in inner[1:] or not is_id(inner[1]):
                raise Lost("quote!: repetition")
            flush()
            if t[e + 1] == "*":
                out += [".", "each", "(", "&", inner[1], ",", '"' + " ".join(inner[2:]) + '"', ")"]
                i = e + 2
            elif t[e + 2] == "*" and len(inner) == 2:
                out += [".", "between", "(", "&", inner[1], ",", '"' + t[e + 1] + '"', ")"]
                i = e + 3
            else:
                raise Lost("quote!: repetition")
        else:
            words.append(t[i])
            i += 1
    flush()
    return out


TOKEN_TYPES = {",": "Token_Comma", "=": "Token_Eq", "crate": "Token_Crate"}


def arms(t):
    """The arms of a match: [(pattern, guard or None, body)]."""
    out, i = [], 0
    while i < len(t):
        j = i
        while t[j] != "=>":
            j = match(t, j) + 1 if t[j] in OPEN else j + 1
        pat, guard = t[i:j], None
        if "if" in pat:
            k = pat.index("if")
            pat, guard = pat[:k], pat[k + 1:]
        if t[j + 1] == "{":
            e = match(t, j + 1)
            body, i = t[j + 1:e + 1], e + 1
            if i < len(t) and t[i] == ",":
                i += 1
        else:
            e = j + 1
            while e < len(t) and t[e] != ",":
                e = match(t, e) + 1 if t[e] in OPEN else e + 1
            body, i = ["{"] + t[j + 1:e] + ["}"], e + 1
        out.append((pat, guard, body))
    return out


def rw_braced(t):
    """`let c; .. syn::braced!(c in i) .. &c` with the content as a stream of its own."""
    for i in range(len(t) - 2):
        if t[i] == "let" and is_id(t[i + 1]) and t[i + 2] == ";":
            c = t[i + 1]
            out, k = t[:i] + ["let", "mut", c, "=", "Stream", "::", "none_v", "(", ")", ";"], i + 3
            while k < len(t):
                if t[k] == "braced" and t[k + 1:k + 5] == ["!", "(", c, "in"]:
                    e = match(t, k + 2)
                    if out[-2:] == ["syn", "::"]:
                        del out[-2:]
                    out += ["braced_v", "("] + t[k + 5:e] + [",", "&", "mut", c, ")", "?"]
                    k = e + 1
                elif t[k] == "&" and t[k + 1] == c:
                    out += ["&", "mut", c]
                    k += 2
                else:
                    out.append(t[k])
                    k += 1
            return out
    return t


def rw_syn(t, counter):
    t = rw_braced(t)
    out, i = [], 0
    while i < len(t):
        if t[i] in ("quote", "parse_quote") and i + 2 < len(t) and t[i + 1] == "!" and t[i + 2] in OPEN:
            e = match(t, i + 2)
            q = quoted(t[i + 3:e])
            out += q if t[i] == "quote" else ["parse_quoted", "("] + q + [")"]
            i = e + 1
        elif t[i] == "Token" and t[i + 1:i + 3] == ["!", "["]:
            e = match(t, i + 2)
            k = "".join(t[i + 3:e])
            if k not in TOKEN_TYPES:
                raise Lost(f"Token![{k}]")
            out.append(TOKEN_TYPES[k])
            i = e + 1
        elif t[i] == "ParseStream":
            out += ["&", "mut", "Stream"]
            i += 1
        elif t[i:i + 8] == [".", "fork", "(", ")", ".", "parse", "(", ")"]:
            out += [".", "fork_parse", "(", ")"]
            i += 8
        elif t[i:i + 3] == [".", "peek", "("]:
            e = match(t, i + 2)
            out += [".", "peek_v", "::", "<"] + rw_syn(t[i + 3:e], counter) + [">", "(", ")"]
            i = e + 1
        elif t[i:i + 2] == ["Error", "::"] and t[i + 2] in ("new", "new_spanned") and t[i + 3] == "(":
            e = match(t, i + 3)
            if out[-2:] == ["syn", "::"]:
                del out[-2:]
            out += ["error_v", "(", ")"]
            i = e + 1
        elif t[i] == "match":
            b = i + 1
            while t[b] != "{":
                b = match(t, b) + 1 if t[b] in OPEN else b + 1
            e = match(t, b)
            head = t[i + 1:b]
            if head[:2] == ["&", "*"] and any(x.startswith('"') for x in t[b + 1:e]):
                m = f"m_{counter[0]}"
                counter[0] += 1
                chain = []
                for pat, guard, body in arms(t[b + 1:e]):
                    body = rw_syn(body, counter)
                    alts = split_top(pat, "|")
                    if pat == ["_"] and not guard:
                        chain += body
                        break
                    if guard or not all(len(a) == 1 and a[0].startswith('"') for a in alts):
                        raise Lost("match on text: pattern " + " ".join(pat))
                    cond = []
                    for a in alts:
                        cond += (["||"] if cond else []) + ["str_is", "(", "&", m, ",", a[0], ")"]
                    chain += ["if"] + cond + body + ["else"]
                else:
                    raise Lost("match on text without a last arm")
                out += ["{", "let", m, "="] + rw_syn(head[2:], counter) + [";"] + chain + ["}"]
                i = e + 1
            elif len(head) > 3 and head[-1] == ")" and "Entry" in t[b + 1:e]:
                o = next((k for k in range(len(head)) if head[k] == "entry" and head[k - 1] == "." and match(head, k + 1) == len(head) - 1), None)
                if o is None:
                    raise Lost("match on an entry")
                mp, key = head[:o - 1], head[o + 2:-1]
                got = {}
                for pat, guard, body in arms(t[b + 1:e]):
                    if guard or pat[:2] != ["Entry", "::"] or pat[3] != "(" or len(pat) != 6 or pat[2] in got:
                        raise Lost("match on an entry: " + " ".join(pat))
                    got[pat[2]] = (pat[4], rw_syn(body, counter))
                if set(got) != {"Occupied", "Vacant"} or got["Occupied"][0] != "_":
                    raise Lost("match on an entry: arms")
                kv = f"k_{counter[0]}"
                counter[0] += 1
                v, body = got["Vacant"]
                vac, k = [], 0
                while k < len(body):
                    if body[k:k + 4] == [v, ".", "insert", "("]:
                        vac += mp + [".", "insert", "(", kv, ","]
                        k += 4
                    elif body[k] == v:
                        raise Lost("a vacant entry is used otherwise")
                    else:
                        vac.append(body[k])
                        k += 1
                out += ["{", "let", kv, "="] + rw_syn(key, counter) + [";", "if"] + mp + [".", "contains_key", "(", "&", kv, ")"] \
                    + got["Occupied"][1] + ["else"] + vac + ["}"]
                i = e + 1
            else:
                out.append(t[i])
                i += 1
        else:
            out.append(t[i])
            i += 1
    return out


def rw_names(t):
    out = list(t)
    for i in range(1, len(t) - 1):
        if t[i] in SUFFIX and t[i - 1] == "." and t[i + 1] == "(":
            out[i] = t[i] + "_v"
    return out


def rw_mut_self(t):
    if "fn" not in t:
        return t
    i = t.index("fn")
    while t[i] != "(":
        i += 1
    if t[i + 1:i + 3] != ["mut", "self"]:
        return t
    b = match(t, i)
    while t[b] != "{":
        b = match(t, b) + 1 if t[b] in OPEN else b + 1
    return t[:i + 1] + t[i + 2:b + 1] + ["let", "mut", "this", "=", "self", ";"] + ["this" if x == "self" else x for x in t[b + 1:]]


def rewrite(t, options=()):
    t = rw_mut_self(t)
    if "syn" in options:
        t = rw_syn(t, [0])
    t = rw_format(t)
    t = rw_closure(t, [0])
    if "string_add" in options:
        t = rw_string_add(t)
    t = rw_for(t, [0])
    t = rw_or_insert(t)
    t = rw_vec(t)
    t = rw_names(t)
    # `, )` and `, ]` from rustfmt's line breaking
    out = []
    for i, x in enumerate(t):
        if x == "," and i + 1 < len(t) and t[i + 1] in (")", "]", "}", ">"):
            continue
        out.append(x)
    return out
