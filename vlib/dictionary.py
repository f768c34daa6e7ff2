"""Literals of the sources under test, as extra inputs for the drivers."""
import os, re

REPO = "/repo"


def write(path):
    ints, strs = set(), set()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        for fn in files:
            if not fn.endswith(".rs") or "/tests" in root:
                continue
            with open(os.path.join(root, fn), errors="replace") as f:
                text = f.read()
            text = re.sub(r"//[^\n]*", "", text)
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?\b", text):
                try:
                    ints.add(int(m.group(1).replace("_", ""), 0))
                except ValueError:
                    try:
                        ints.add(int(m.group(1).replace("_", "")))
                    except ValueError:
                        pass
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', text):
                s = m.group(1)
                try:
                    s = s.encode("latin-1", "backslashreplace").decode("unicode_escape")
                    s.encode("utf-8")
                except (UnicodeDecodeError, UnicodeEncodeError):
                    continue
                if len(s) <= 40:
                    strs.add(s)
            for m in re.finditer(r"'(\\?[^'\n])'", text):
                s = m.group(1)
                try:
                    s = s.encode("latin-1", "backslashreplace").decode("unicode_escape")
                    s.encode("utf-8")
                except (UnicodeDecodeError, UnicodeEncodeError):
                    continue
                strs.add(s)
    lines = [f"i {n}" for n in sorted(ints) if n < 1 << 64]
    lines += [f"s {s.encode().hex()}" for s in sorted(strs)]
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
