"""Layer 1b: Verus on the current text of the functions under contract.

/verif/verus/prelude.rs holds the contracts of std and the dependencies,
/verif/verus/<file>.rs the contracts and proofs of our functions; the code
itself is taken from /repo on every run (overlay.py).
"""
import json, os, re, subprocess, time
from . import overlay, rust

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

FAILURES = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
            "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
            "loop ensures", "could not prove termination", "unable to prove", "requires not satisfied",
            "ensures not satisfied", "possible bit shift", "may fail", "not satisfied")


def run(path, extra=()):
    cmd = ["verus", path, "--triggers-mode", "silent", "--output-json", "--time", "--error-format=json",
           "--multiple-errors", "20", "--num-threads", "4", *extra]
    env = dict(os.environ)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=os.path.dirname(path), text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=400, env=env)
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        out, err = "", ""
    errors = []
    for line in err.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
            errors.append(d)
    try:
        res = json.loads(out)
    except ValueError:
        res = {}
    return cmd, res, errors, err, time.time() - t0


def function_at(text, line):
    name = "?"
    for n, l in enumerate(text.splitlines(), 1):
        if n > line:
            break
        m = re.search(r"\bfn\s+(\w+)", l)
        if m and "|" not in l[:m.start()]:
            name = m.group(1)
    return name


def trusted_scan(text):
    out = []
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*?>)?\s*\[\s*(.*?)\s*\]", text):
        out.append(f"assumed contract: {m.group(1)}")
    n = len(re.findall(r"external_body", text))
    if n:
        out.append(f"{n} trusted stand-in types and functions (external_body) of /verif/verus/prelude.rs")
    for m in re.finditer(r"axiom fn (\w+)", text):
        out.append(f"axiom: {m.group(1)}")
    for w in ("admit()", "assume("):
        if w in text:
            out.append(f"{text.count(w)} x {w}")
    return out


def prove(prop, cfg, work, tier):
    os.makedirs(work, exist_ok=True)
    r = dict(engine="verus", cmd="", obligations=0, discharged=0, bounded_obligations=0, failed=[], undecided=[],
             units=0, solver_s=0.0, wall_s=0.0, log="", trusted=[])
    t0 = time.time()
    crates = {}

    def crate(name):
        if name not in crates:
            crates[name] = rust.Crate(os.path.join(REPO, name))
        return crates[name]

    def read(name):
        with open(os.path.join(VERIF, "verus", name)) as f:
            return f.read()

    src = "\n".join(read(f) for f in ["prelude.rs"] + cfg["verus"]) + "\n} // verus!\nfn main() {}\n"
    r["obligations"] = n_items = len(overlay.ITEM.findall(src))
    try:
        if cfg.get("generate"):
            from . import serdegen
            src = src.replace("//# generated", serdegen.generate(REPO))
        text, report = overlay.build(src, crate)
    except (rust.Lost, IndexError, ValueError) as e:
        r["undecided"].append(f"verus: {e}")
        r["wall_s"] = time.time() - t0
        return r
    path = os.path.join(work, prop.lower() + ".rs")
    with open(path, "w") as f:
        f.write(text)
    cmd, res, errors, err, wall = run(path)
    r["cmd"] = " ".join(cmd)
    vr = res.get("verification-results", {})
    ok, bad = vr.get("verified", 0), vr.get("errors", 0)
    r["solver_s"] = res.get("times-ms", {}).get("smt", {}).get("total", 0) / 1000.0
    r["obligations"] = max(ok + bad, 1)
    r["discharged"] = ok
    r["units"] = n_items
    r["trusted"] = trusted_scan(text) + [f"rewrite: {v}" for v in rust.RULES.values()] \
        + [f"not emitted from {i['item']}: {o}" for i in report for o in i["not_emitted"]]
    r["log"] = "".join(e.get("rendered") or e["message"] for e in errors)[-20000:]
    if not vr or vr.get("encountered-vir-error") or any(not known(e) for e in errors):
        r["discharged"] = 0
        why = next((e["message"] for e in errors if not known(e)), "no result")
        r["undecided"].append(f"verus: {why[:300]}")
    elif errors or bad:
        lines = text
        for e in errors:
            sp = next((s for s in e["spans"] if s["is_primary"]), e["spans"][0] if e["spans"] else None)
            others = [s for s in e["spans"] if s is not sp]
            where = function_at(text, max(s["line_start"] for s in e["spans"])) if sp else "?"
            what = sp["text"][0]["text"].strip()[:200] if sp and sp["text"] else ""
            # a closure that was not there when the contract was written has none of its own
            opaque = any(i["opaque"] and i["item"].split()[-1] == where for i in report)
            r["undecided" if opaque else "failed"].append(f"verus: {where}: {e['message']}: {what}")
    if not errors and ok:
        # vacuity: an assertion of false must fail at the start and the end of every function
        total = failing = 0
        for k in (0, 1):
            probed = text.replace(f"/*probe {k}*/", "proof { assert(false); }")
            lines = {n for n, l in enumerate(probed.splitlines(), 1) if "proof { assert(false); }" in l}
            ppath = os.path.join(work, f"{prop.lower()}_probe{k}.rs")
            with open(ppath, "w") as f:
                f.write(probed)
            _, _, perr, _, _ = run(ppath)
            hit = {s["line_start"] for e in perr if e["message"] == "assertion failed" for s in e["spans"]} & lines
            total += len(lines)
            failing += len(hit)
            if lines - hit:
                r["discharged"] = 0
                r["undecided"].append(f"verus: reachability probes that did not fail (vacuous proof?): {ppath} lines {sorted(lines - hit)[:5]}")
        r["probes"] = f"{failing}/{total} reachability probes fail as they must"
    r["wall_s"] = time.time() - t0
    return r


def known(e):
    m = e["message"]
    return any(f in m for f in FAILURES) and "rlimit" not in m and e.get("code") is None
