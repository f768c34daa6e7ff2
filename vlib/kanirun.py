"""Kani back end: verifies the repository's own source files.

On every run the .rs files of /repo/metriken-core/src and /repo/metriken/src
are copied byte for byte; the only edit is the line
    use vshim as std;
appended to each file, and the Cargo manifests name the contract stand-ins of
/verif/kani/shim instead of the external crates. A harness crate with path
dependencies on the copies states the contracts.
"""
import os, re, shutil, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SHIM = os.path.join(VERIF, "kani", "shim")
APPEND = "\n#[allow(unused_imports)]\nuse vshim as std;\n"


def _write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def prepare(work, harness_file, append=True):
    shutil.rmtree(work, ignore_errors=True)
    for crate in ("metriken-core", "metriken"):
        src = os.path.join(REPO, crate, "src")
        for root, _, files in os.walk(src):
            for fn in files:
                if not fn.endswith(".rs"):
                    continue
                p = os.path.join(root, fn)
                with open(p) as f:
                    text = f.read()
                _write(os.path.join(work, crate, "src", os.path.relpath(p, src)), text + APPEND)
    lints = '\n[lints.rust]\nunexpected_cfgs = "allow"\n'
    _write(f"{work}/metriken-core/Cargo.toml", f"""[package]
name = "metriken-core"
version = "0.1.3"
edition = "2021"

[dependencies]
linkme = {{ path = "{SHIM}/linkme" }}
parking_lot = {{ path = "{SHIM}/parking_lot" }}
phf = {{ path = "{SHIM}/phf" }}
vshim = {{ path = "{SHIM}/vshim" }}
{lints}""")
    _write(f"{work}/metriken/Cargo.toml", f"""[package]
name = "metriken"
version = "0.7.0"
edition = "2021"

[dependencies]
metriken-core = {{ path = "../metriken-core" }}
metriken-derive = {{ path = "{SHIM}/metriken-derive" }}
histogram = {{ path = "{SHIM}/histogram" }}
once_cell = {{ path = "{SHIM}/once_cell" }}
parking_lot = {{ path = "{SHIM}/parking_lot" }}
vshim = {{ path = "{SHIM}/vshim" }}
{lints}""")
    _write(f"{work}/harness/Cargo.toml", f"""[package]
name = "harness"
version = "0.1.0"
edition = "2021"

[dependencies]
metriken-core = {{ path = "../metriken-core" }}
metriken = {{ path = "../metriken" }}
histogram = {{ path = "{SHIM}/histogram" }}
phf = {{ path = "{SHIM}/phf" }}
vshim = {{ path = "{SHIM}/vshim" }}

[workspace]
{lints}""")
    with open(harness_file) as f:
        _write(f"{work}/harness/src/lib.rs", f.read())


def _limit():
    import resource
    cap = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (cap, cap))


class Result:
    def __init__(self):
        self.harnesses = {}      # name -> dict(status, checks, failed[], covers, time)
        self.error = None        # not verifiable: reason
        self.log = ""
        self.cmd = ""


def run(work, timeout=600, jobs=8, extra=()):
    cmd = ["cargo", "kani", "-j", str(jobs), "--output-format=terse", *extra]
    with open(os.path.join(work, "harness", "src", "lib.rs")) as f:
        if "kani::stub(" in f.read():
            cmd += ["-Z", "stubbing"]
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               CARGO_TARGET_DIR=os.path.join(work, "target"))
    env.pop("RUSTFLAGS", None)
    r = Result()
    r.cmd = " ".join(cmd)
    t0 = time.time()
    try:
        p = subprocess.Popen(cmd, cwd=os.path.join(work, "harness"), env=env, text=True,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             start_new_session=True, preexec_fn=_limit)
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        out += f"\n[vlib] timeout after {timeout} s\n"
        r.error = "timeout"
    r.log = out
    r.wall = time.time() - t0
    parse(r, out)
    if not r.harnesses and not r.error:
        r.error = "no harness was verified (the copy does not compile with the stand-ins)"
    return r


def parse(r, out):
    cur = {}
    name_of = {}
    current = None
    thread = None
    for line in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?\s*Checking harness ([\w:]+)\.\.\.", line)
        if m:
            name_of[m.group(1)] = m.group(2)
            r.harnesses[m.group(2)] = dict(status=None, failed=[], checks=0, covers=None, time=0.0)
            current = m.group(2)
            continue
        m = re.match(r"Thread (\d+):\s*$", line)
        if m:
            current = name_of.get(m.group(1), current)
            continue
        m = re.match(r"Thread (\d+): (.*)", line)
        if m:
            current = name_of.get(m.group(1), current)
            line = m.group(2)
        if current is None:
            continue
        h = r.harnesses[current]
        m = re.search(r"\*\* (\d+) of (\d+) failed", line)
        if m:
            h["checks"] = int(m.group(2))
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", line)
        if m:
            h["covers"] = (int(m.group(1)), int(m.group(2)))
        m = re.match(r"Failed Checks: (.*)", line)
        if m:
            h["failed"].append(m.group(1))
        m = re.match(r"VERIFICATION:- (\w+)(.*)", line)
        if m:
            h["status"] = m.group(1)
            if m.group(1) == "SUCCESSFUL":
                h["failed"] = []
            elif "expected" in m.group(2):
                h["failed"].append("panic expected on every path:" + m.group(2))
        m = re.match(r"Verification Time: ([\d.]+)s", line)
        if m:
            h["time"] = float(m.group(1))


# A failed check that does not speak about the code: the proof is undecided.
UNDECIDED = [
    r"unwinding assertion", r"recursion unwinding", r"\[shim\]", r"is not currently supported by Kani",
    r"unsupported", r"not supported", r"Reached assignment statement with unequal types",
    r"loop 0: unwinding",
]


def _undecided(desc):
    return any(re.search(u, desc) for u in UNDECIDED)


def prove(prop, cfg, work, tier):
    prepare(work, os.path.join(VERIF, "kani", "harness", cfg["kani"]))
    r = run(work, timeout=700 if tier == "quick" else 3000)
    out = dict(engine="kani", cmd=f"{r.cmd} (in {work}/harness)", obligations=0, discharged=0, bounded_obligations=0,
               failed=[], undecided=[], units=0, solver_s=0.0, wall_s=r.wall, log=r.log[-30000:],
               trusted=["Kani 0.68 / CBMC 6.11 (verifier, MIR translation, SAT back end)",
                        "the copied sources differ from /repo only by the appended line `use vshim as std;`; the manifests name the contract stand-ins of /verif/kani/shim for external crates"])
    if r.error:
        out["undecided"].append(f"kani: {r.error}")
    expect = set(re.findall(r"#\[kani::proof\](?:\s*#\[[^\]]*\])*\s*fn (\w+)", open(os.path.join(VERIF, "kani", "harness", cfg["kani"])).read()))
    seen = set()
    for name, h in sorted(r.harnesses.items()):
        short = name.split("::")[-1]
        seen.add(short)
        out["units"] += 1
        out["solver_s"] += h["time"]
        is_bounded = short.startswith("bounded_")
        if h["status"] == "SUCCESSFUL":
            if h["covers"] and h["covers"][0] != h["covers"][1]:
                out["undecided"].append(f"kani {short}: {h['covers'][1] - h['covers'][0]} cover(s) not reachable (vacuous)")
                out["obligations"] += h["checks"]
                continue
            if is_bounded:
                out["bounded_obligations"] += h["checks"]
            else:
                out["obligations"] += h["checks"]
                out["discharged"] += h["checks"]
        elif h["status"] == "FAILED":
            real = [f for f in h["failed"] if not _undecided(f)]
            n = max(h["checks"], len(h["failed"]), 1)
            if is_bounded:
                out["bounded_obligations"] += n
            else:
                out["obligations"] += n
                out["discharged"] += n - max(len(h["failed"]), 1)
            if real:
                out["failed"] += [f"kani {short}: {f}" for f in real]
            else:
                out["undecided"].append(f"kani {short}: {'; '.join(h['failed']) or 'no result'}")
        else:
            out["undecided"].append(f"kani {short}: no verdict")
    if not r.error:
        for m in sorted(expect - seen):
            out["undecided"].append(f"kani {m}: not run")
    return out
