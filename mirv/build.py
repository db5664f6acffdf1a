"""Building the MIR dump and the replay binary from /repo's working tree."""
import os, subprocess, shutil, glob, time, fcntl, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
REPO = "/repo"
BASE = {"HOME": os.environ.get("HOME", "/root"), "PATH": "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), "LANG": os.environ.get("LANG", "C.UTF-8"), "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0"}
for k in ("RUSTUP_HOME", "CARGO_HOME"):
    if k in os.environ:
        BASE[k] = os.environ[k]


class BuildError(Exception):
    pass


def sh(cmd, env, cwd, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=BASE, stdout=subprocess.PIPE, text=True).stdout.strip()


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_mirdump():
    out = os.path.join(BUILD, "mirdump")
    src = os.path.join(VERIF, "mirdump", "main.rs")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    rc, o = sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", out], BASE, BUILD)
    if rc:
        raise BuildError("mirdump does not build:\n" + o[-3000:])
    return out


def force(target, names):
    """make cargo compile these packages again whatever the file times say"""
    for n in names:
        for d in glob.glob(os.path.join(target, "*", ".fingerprint", n + "-*")) + glob.glob(os.path.join(target, "*", "build", n)):
            shutil.rmtree(d, ignore_errors=True)


def dump(path):
    """write the MIR of /repo's crate to path"""
    l = lock()
    try:
        exe = build_mirdump()
        target = os.path.join(BUILD, "mir-target")
        env = dict(BASE, LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), MIRDUMP_STOP=os.path.join(VERIF, "mirdump", "stop.txt"), MIRDUMP_BIN=exe, MIRDUMP_OUT=path, RUSTC_WRAPPER=os.path.join(VERIF, "mirdump", "wrap.py"), RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=target)
        force(target, ["token-bonding-curve"])
        if os.path.exists(path):
            os.unlink(path)
        rc, o = sh(["cargo", "check", "-p", "token-bonding-curve", "--lib", "--locked", "--offline"], env, REPO)
        if rc or not os.path.exists(path):
            raise BuildError("the crate does not compile under the MIR dumper:\n" + "\n".join(x for x in o.splitlines() if "error" in x or x.startswith(" "))[-3000:])
    finally:
        l.close()


def replay_bin():
    l = lock()
    try:
        target = os.path.join(BUILD, "replay")
        env = dict(BASE, RUSTUP_TOOLCHAIN="1.70.0", CARGO_TARGET_DIR=target)
        force(target, ["token-bonding-curve", "replay"])
        rc, o = sh(["cargo", "build", "--locked", "--offline"], env, os.path.join(VERIF, "replay"))
        exe = os.path.join(target, "debug", "replay")
        if rc or not os.path.exists(exe):
            raise BuildError("replay binary does not build:\n" + o[-3000:])
        own = os.path.join(BUILD, f"replay-bin-{os.getpid()}")
        shutil.copy2(exe, own)
        return own
    finally:
        l.close()
