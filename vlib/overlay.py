"""Carries contracts and proofs over to the current text of a function.

An overlay file is Verus text. Between `//# item <crate> <selector> [options]`
and `//# end` it holds the rewritten text of one item with
    «text»   verified only (contracts, invariants, proof code),
    ‹text›   in the sources only (must be there unchanged, is not emitted);
everything else must be the sources' tokens. On each run the current item is
extracted, rewritten, aligned with the recorded tokens, and emitted with the
«» parts put back in place: the code that is verified is the current code.
"""
import difflib, re
from . import rust
from .rust import Lost


def parse(text):
    """-> (tokens, ghosts {position: text}, source-only ranges)."""
    toks, ghosts, only = [], {}, []
    for m in re.finditer(r"«(.*?)»|‹(.*?)›|([^«‹]+)", text, re.S):
        if m.group(1) is not None:
            ghosts[len(toks)] = ghosts.get(len(toks), "") + " " + m.group(1)
        elif m.group(2) is not None:
            n = rust.lex(m.group(2))
            only.append((len(toks), len(toks) + len(n)))
            toks += n
        else:
            toks += rust.lex(m.group(3))
    return toks, ghosts, only


def carry(name, text, cur):
    """Emit the current tokens `cur` with the overlay's additions. -> (text, changed)"""
    base, ghosts, only = parse(text)
    # consistently renamed identifiers
    sm = difflib.SequenceMatcher(None, base, cur, autojunk=False)
    ops = sm.get_opcodes()
    ren, bad = {}, set()
    for tag, a, b, c, d in ops:
        if tag == "replace" and b - a == d - c:
            for x, y in zip(base[a:b], cur[c:d]):
                if rust.is_id(x) and rust.is_id(y) and ren.get(x, y) == y:
                    ren[x] = y
                else:
                    bad.add(x)
        elif tag == "equal":
            bad.update(base[a:b])
    ren = {x: y for x, y in ren.items() if x not in bad and y not in base}
    if ren:
        base2 = [ren.get(x, x) for x in base]
        ghosts = {p: re.sub(r"[A-Za-z_]\w*", lambda m: ren.get(m.group(0), m.group(0)), g) for p, g in ghosts.items()}
        sm = difflib.SequenceMatcher(None, base2, cur, autojunk=False)
        ops = sm.get_opcodes()
        base = base2
    if base.count("loop") + base.count("while") != cur.count("loop") + cur.count("while"):
        raise Lost(f"{name}: loops added or removed")
    to = {}
    for tag, a, b, c, d in ops:
        if tag == "equal":
            for k in range(b - a):
                to[a + k] = c + k
    at, drop = {}, set()
    for p, g in sorted(ghosts.items()):
        if p in to:
            at[to[p]] = at.get(to[p], "") + g
        elif p - 1 in to:
            at[to[p - 1] + 1] = at.get(to[p - 1] + 1, "") + g
        else:
            raise Lost(f"{name}: the place of `{g.strip()[:60]}` is gone")
    for a, b in only:
        if not all(k in to for k in range(a, b)) or to[b - 1] - to[a] != b - 1 - a:
            raise Lost(f"{name}: `{' '.join(base[a:b])[:80]}` has changed")
        drop.update(to[k] for k in range(a, b))
    probes = probe_places(cur) if re.search(r"(^| )fn \w+$", name) else {}
    out = []
    for i in range(len(cur) + 1):
        if i in probes:
            out.append(f"/*probe {probes[i]}*/\n")
        if i in at:
            out.append("\n" + at[i] + "\n")
        if i < len(cur) and i not in drop:
            out.append(cur[i])
            if cur[i] in (";", "{", "}"):
                out.append("\n")
    return join(out), base != cur or bool(ren)


def probe_places(cur):
    """Where a reachability probe goes: at the start of the body and after its last `;`."""
    i = cur.index("fn")
    while cur[i] != "{":
        i = rust.match(cur, i) + 1 if cur[i] in rust.OPEN else i + 1
    places, last, e = {i + 1: 0}, None, rust.match(cur, i)
    j = i + 1
    while j < e:
        if cur[j] == ";":
            last = j + 1
        j = rust.match(cur, j) + 1 if cur[j] in rust.OPEN else j + 1
    if last:
        places[last] = 1
    return places


def closures(t):
    """The number of closures in executable text; what they compute is unknown to callers without a contract."""
    return sum(1 for a, b in zip(t, t[1:]) if b in ("|", "||") and a in ("(", ",", "=", "=>", "{", ";", "move", "return", "else"))


def words(t):
    """The literal texts in the quote!s of a function: what they mean when put together otherwise is not known here."""
    return sorted(t[i + k] for i, a in enumerate(t) for k in ({"w": 2, "each": 5}.get(a),) if k and i + k < len(t) and t[i + k].startswith('"'))


def join(toks):
    s = ""
    for t in toks:
        s += t if t.startswith("\n") else (" " + t)
    return s


ITEM = re.compile(r"^//# item (\S+) (.*?)(?: \[([\w, ]*)\])?\n(.*?)^//# end$", re.M | re.S)


def build(text, crates):
    """Replace every item region by the current code. -> (text, report)"""
    report = []

    def one(m):
        crate, sel, opts, body = m.group(1), m.group(2), m.group(3) or "", m.group(4)
        cur = rust.rewrite(crates(crate).find(sel), [o.strip() for o in opts.split(",")])
        emitted, changed = carry(sel, body, cur)
        base, ghosts, only = parse(body)
        report.append(dict(item=sel, crate=crate, changed=changed, opaque=closures(cur) > closures(base) or words(cur) != words(base),
                           not_emitted=[" ".join(base[a:b]) for a, b in only]))
        return f"//# item {crate} {sel}\n{emitted}\n//# end"

    return ITEM.sub(one, text), report
