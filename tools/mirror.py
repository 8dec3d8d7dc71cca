"""Mirror /repo into a scratch tree that can be type-checked offline.

The repository cannot be built as it stands (josekit is a git dependency; the ssi umbrella crate
cannot be resolved).  This does what /opt/vp/scope/mirror.py does (its ssi path rewriting is reused
from that file), except that josekit becomes a signatures-only stub crate, so src/core/jwe.rs and
the josekit-using examples are kept and analysed too.
"""
import importlib.util, os, re, sys, types

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {".git", "target"}


def _ssi():
    path = "/opt/vp/scope/mirror.py"
    if not os.path.exists(path):
        path = os.path.join(HERE, "tools", "ssi_paths.py")
    src = open(path).read()
    src = src[: src.rindex("\nmain()")] if "\nmain()" in src else src
    mod = types.ModuleType("ssi_mirror")
    exec(compile(src, path, "exec"), mod.__dict__)
    return mod


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def run(work, nojwe=False):
    ssi = _ssi()
    wanted = {}
    for top, dirs, names in os.walk(REPO):
        rel = os.path.relpath(top, REPO)
        rel = "" if rel == "." else rel + "/"
        dirs[:] = [d for d in dirs if d not in SKIP]
        for n in names:
            if rel + n == "Cargo.lock" or nojwe and rel + n == "src/core/jwe.rs":
                continue
            with open(os.path.join(top, n), "rb") as f:
                data = f.read()
            r = rel + n
            if r == "Cargo.toml":
                data = re.sub(rb"(?m)^josekit\s*=.*$", b'josekit = { path = "%s" }' % os.path.join(HERE, "stubs/josekit").encode(), data)
                if nojwe:
                    data = re.sub(rb"(?m)^josekit\s*=.*$", b"", data)
                data = re.sub(rb'(?m)^ssi = \{ version = "0\.14".*$', ssi.SSI_DEPS, data)
            elif nojwe and r == "src/core/mod.rs":
                data = re.sub(rb"(?m)^pub mod jwe;[ \t]*$", b"", data)
            if r.endswith(".rs") and b"ssi::" in data:
                try:
                    data = ssi.ssi_paths(data.decode()).encode()
                except UnicodeDecodeError:
                    pass
            wanted[r] = data
    if "Cargo.toml" not in wanted:
        sys.exit("Cargo.toml is missing from " + REPO)
    for r, data in wanted.items():
        put(os.path.join(work, r), data)
    for top, dirs, names in os.walk(work):
        dirs[:] = [d for d in dirs if d not in SKIP]
        for n in names:
            r = os.path.relpath(os.path.join(top, n), work)
            if r not in wanted and r != "Cargo.lock":
                os.remove(os.path.join(work, r))
    lock = os.path.join(work, "Cargo.lock")
    if not os.path.exists(lock):
        with open(os.path.join(HERE, "tools", "Cargo.lock"), "rb") as f:
            put(lock, f.read())
    return wanted


if __name__ == "__main__":
    run(sys.argv[1], "--nojwe" in sys.argv)
