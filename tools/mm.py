#!/usr/bin/env python3
"""gen/mm/<crate>: /repo/<crate>'s sources (everything but its manifest, build
script, examples and tests), our manifest, and `extern crate simstd as std;` at
the end of lib.rs.  Files are only rewritten when their content changes."""
import os
REPO = "/repo"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "gen", "mm")
TPL = os.path.join(ROOT, "sim-mm", "crates")

def put(path, data):
    try:
        if open(path, "rb").read() == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "wb").write(data)

for crate in sorted(os.listdir(TPL)):
    src, dst, keep = f"{REPO}/{crate}", f"{OUT}/{crate}", set()
    for d, dirs, files in os.walk(src):
        rel = os.path.relpath(d, src)
        dirs[:] = [x for x in dirs if not (rel == "." and x in ("target", "examples", "tests", "benches"))]
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r in ("Cargo.toml", "build.rs", "Cargo.lock"):
                continue
            data = open(os.path.join(d, f), "rb").read()
            if r == "src/lib.rs":
                data += b"\nextern crate simstd as std;\n"
            keep.add(r)
            put(f"{dst}/{r}", data)
    for f in os.listdir(f"{TPL}/{crate}"):
        keep.add(f)
        put(f"{dst}/{f}", open(f"{TPL}/{crate}/{f}", "rb").read())
    for d, dirs, files in os.walk(dst):
        rel = os.path.relpath(d, dst)
        if rel == ".":
            dirs[:] = [x for x in dirs if x != "target"]
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r not in keep and r != "Cargo.lock":
                os.remove(os.path.join(d, f))
