"""Builds the MIR dump driver and runs it over the current source of /repo."""
import fcntl
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RADIXDB_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
DRIVER_TARGET = os.path.join(BUILD, "driver")
TARGET = os.path.join(BUILD, "target")
DRIVER = os.path.join(DRIVER_TARGET, "debug", "mirdump")
DUMP = os.path.join(BUILD, "dump.json")


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ)
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


class Lock:
    def __init__(self, name="build"):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def sysroot():
    rc, out = run(["rustc", "+nightly", "--print", "sysroot"], ROOT)
    if rc:
        raise BuildError("no nightly toolchain: " + out)
    return out.strip().splitlines()[-1]


def ensure_driver():
    src = os.path.join(ROOT, "driver")
    newest = max(os.path.getmtime(os.path.join(d, f)) for d, _, fs in os.walk(src) for f in fs)
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= newest:
        return
    rc, out = run(["cargo", "+nightly", "build", "--offline", "--target-dir", DRIVER_TARGET], src)
    if rc or not os.path.exists(DRIVER):
        raise BuildError("the MIR dump driver does not build:\n" + out[-4000:])
    os.utime(DRIVER)


def clean_own(target):
    """cargo must not believe that radixdb itself is fresh"""
    import glob
    for pat in ("*/build/radixdb", "*/build/radixdb-*", "*/.fingerprint/radixdb-*", "*/incremental"):
        for p in glob.glob(os.path.join(target, pat)):
            shutil.rmtree(p, ignore_errors=True)


def dump(out=None):
    """type checks /repo's library (all features) with the driver, returns the path of the dump"""
    out = out or DUMP
    with Lock():
        ensure_driver()
        clean_own(TARGET)
        if os.path.exists(out):
            os.remove(out)
        env = {
            "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"),
            "MIRDUMP_CRATE": "radixdb",
            "MIRDUMP_OUT": out,
            "RUSTC_WORKSPACE_WRAPPER": DRIVER,
            "CARGO_TARGET_DIR": TARGET,
        }
        rc, log = run(["cargo", "+nightly", "check", "--offline", "--locked", "--lib", "--all-features"], REPO, env)
        if rc:
            raise BuildError("/repo does not type check:\n" + log[-4000:])
        if not os.path.exists(out):
            raise BuildError("the driver wrote no dump:\n" + log[-4000:])
        with open(out) as f:
            return json.load(f)


if __name__ == "__main__":
    d = dump()
    print("%d bodies" % len(d["bodies"]))
