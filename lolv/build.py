"""Builds the MIR exporter and exports the MIR of the library in /repo's current working tree."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LOLV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DRIVER_SRC = os.path.join(VERIF, "driver", "driver.rs")
DRIVER = os.path.join(BUILD, "lolv-driver")
TOOLCHAIN = "+nightly"

# Library functions that the analysis models itself; their bodies are not exported.
STOP = [
    "core::fmt", "std::fmt",
    "std::vec::Vec::", "<std::vec::Vec", "std::vec::from_elem", "std::vec::partial_eq",
    "<std::vec::IntoIter", "std::vec::IntoIter", "std::vec::spec_", "<std::vec::",
    "std::boxed::box_", "<std::boxed::Box<[I]> as std::iter::FromIterator",
    "std::collections::VecDeque::", "<std::collections::VecDeque", "std::collections::vec_deque",
    "<std::collections::vec_deque",
    "core::slice::", "std::slice::", "<[", "<std::slice::Iter<'a, T> as std::iter::Iterator>::", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::",
    "<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>",
    "core::str::", "std::str::", "<str as", "std::string::", "<std::string::", "<std::str::",
    "core::num::", "std::char::methods", "core::char::methods", "core::panicking", "std::rt::",
    "std::option::unwrap_failed", "std::option::expect_failed", "std::result::unwrap_failed",
    "std::mem::", "std::ptr::", "std::alloc", "alloc::",
]


class BuildError(Exception):
    pass


def _sysroot():
    r = subprocess.run(["rustc", TOOLCHAIN, "--print", "sysroot"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("rustc +nightly is not available: " + r.stderr)
    return r.stdout.strip()


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(DRIVER_SRC, "rb").read()).hexdigest()
    stamp = DRIVER + ".sha"
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    tmp = DRIVER + ".%d" % os.getpid()
    r = subprocess.run(["rustc", TOOLCHAIN, "--edition", "2021", "-O", DRIVER_SRC, "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("the MIR exporter does not build:\n" + r.stderr)
    os.replace(tmp, DRIVER)
    with open(stamp, "w") as f:
        f.write(h)


def export(repo=None):
    """Compiles the library in `repo` with the exporting driver; returns the path of the export."""
    repo = repo or REPO
    build_driver()
    sysroot = _sysroot()
    work = tempfile.mkdtemp(prefix="mir-", dir=BUILD)
    out = os.path.join(work, "mir.json")
    env = dict(os.environ)
    env.update({
        "LD_LIBRARY_PATH": os.path.join(sysroot, "lib"),
        "RUSTC_WRAPPER": DRIVER,
        "LOLV_RUSTC": os.path.join(sysroot, "bin", "rustc"),
        "LOLV_OUT": out,
        "LOLV_CRATE": "lolcode_ast",
        "LOLV_STOP": "\n".join(STOP),
        "CARGO_TARGET_DIR": os.path.join(work, "target"),
        "CARGO_NET_OFFLINE": "true",
    })
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
        env.pop(k, None)
    r = subprocess.run(["cargo", TOOLCHAIN, "check", "--offline", "--lib", "--manifest-path",
                        os.path.join(repo, "Cargo.toml")], capture_output=True, text=True, env=env,
                       cwd=repo)
    if r.returncode or not os.path.exists(out):
        shutil.rmtree(work, ignore_errors=True)
        raise BuildError("/repo does not build:\n" + r.stderr[-4000:])
    shutil.rmtree(os.path.join(work, "target"), ignore_errors=True)
    return out


def load(repo=None, keep=False):
    from .prog import Prog
    path = os.environ.get("LOLV_MIR")
    if path:
        return Prog(path)
    path = export(repo)
    p = Prog(path)
    if not keep:
        shutil.rmtree(os.path.dirname(path), ignore_errors=True)
    return p


if __name__ == "__main__":
    p = export(sys.argv[1] if len(sys.argv) > 1 else None)
    dst = os.path.join(BUILD, "mir.json") if len(sys.argv) < 3 else sys.argv[2]
    shutil.copy(p, dst)
    shutil.rmtree(os.path.dirname(p), ignore_errors=True)
    print(dst)
