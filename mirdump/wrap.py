#!/usr/bin/env python3
"""RUSTC_WRAPPER used to build /repo's crate with the nightly compiler and to run
mirdump on the crate itself.  Build-script-detected nightly features of old
dependencies are switched off, and wasm-bindgen (unused on this target) gets a
version number that makes its build accept a new compiler."""
import sys, os
a = sys.argv[1:]
out = []
i = 0
DROP = ('feature="stdsimd"', 'feature="nightly"', 'nightly', 'procmacro2_semver_exempt')
while i < len(a):
    if a[i] == "--cfg" and i + 1 < len(a) and a[i + 1] in DROP:
        i += 2
        continue
    out.append(a[i])
    i += 1
if os.environ.get("CARGO_PKG_NAME") == "wasm-bindgen":
    os.environ["CARGO_PKG_VERSION_PATCH"] = "99"
    os.environ["CARGO_PKG_VERSION"] = "0.2.99"
if "--crate-name" in out:
    out += ["-Zmir-opt-level=0", "-Zalways-encode-mir", "-Zinline-mir=no", "-Zub-checks=no"]
    name = out[out.index("--crate-name") + 1]
    if name == "token_bonding_curve" and os.environ.get("MIRDUMP_BIN"):
        os.execv(os.environ["MIRDUMP_BIN"], out)
os.execvp(out[0], out)
