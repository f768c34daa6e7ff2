"""Layer 2: compiles the drivers against /repo and runs them.

A driver executes the real crates. It validates the contracts the proofs
assume of dependencies, finds the concrete failing input a replay file names,
and is the labelled bounded stand-in where a proof is undecided.
"""
import json, os, shutil, signal, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class DriverResult:
    def __init__(self):
        self.ok = None          # True, False, or None: could not be built
        self.info = {}
        self.message = ""
        self.case = ""
        self.log = ""
        self.cmd = ""
        self.wall = 0.0


def run(prop, crate, build_dir, dict_path, seed, tier, timeout):
    r = DriverResult()
    t0 = time.time()
    target = os.path.join(build_dir, "driver-" + crate)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=target)
    env.pop("RUSTFLAGS", None)
    src = os.path.join(VERIF, "driver", crate)
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=src, env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    r.log = p.stdout
    if p.returncode != 0:
        r.message = "the driver does not build against the current tree"
        r.wall = time.time() - t0
        return r
    exe = os.path.join(target, "debug", "driver-" + crate)
    r.cmd = f"VERIF_SEED={seed} VERIF_TIER={tier} {exe} {prop}   (after: cd {src} && cargo build --offline)"
    case_file = os.path.join(build_dir, f"case-{prop}.txt")
    if os.path.exists(case_file):
        os.remove(case_file)
    scratch = tempfile.mkdtemp(prefix=f"tmp-{prop}-", dir=build_dir)
    env = dict(os.environ, TMPDIR=scratch, DRIVER_DICT=dict_path, DRIVER_CASE_FILE=case_file, VERIF_SEED=str(seed), VERIF_TIER=tier,
               RUST_BACKTRACE="0")
    try:
        p = subprocess.Popen([exe, prop], env=env, text=True, errors="replace", stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, start_new_session=True, cwd=build_dir)
        out, _ = p.communicate(timeout=timeout)
        code = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        code = "timeout"
    shutil.rmtree(scratch, ignore_errors=True)
    r.log = out[-20000:]
    r.wall = time.time() - t0
    for line in out.splitlines():
        if line.startswith("DRIVER-FAIL "):
            d = json.loads(line[len("DRIVER-FAIL "):])
            r.ok, r.message, r.case = False, d["message"], d["case"]
            return r
        if line.startswith("DRIVER-OK ") and code == 0:
            r.ok, r.info = True, json.loads(line[len("DRIVER-OK "):])
            return r
    r.ok = False
    if os.path.exists(case_file):
        with open(case_file) as f:
            r.case = f.read()
    if code == "timeout":
        r.message = f"no progress: a call did not return within {timeout} s"
    elif isinstance(code, int) and code < 0:
        r.message = f"the process was killed by signal {-code} ({signal.Signals(-code).name})"
    else:
        r.message = f"the process ended with status {code}"
    return r
