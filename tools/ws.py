#!/usr/bin/env python3
"""Lays out gen/ws: the cargo workspace of /repo without the members that cannot
be built offline (same derivation as the sandbox's own build).  Members are
symlinks into /repo, so what is compiled is always /repo's working tree."""
import os, re, shutil, sys
REPO = "/repo"
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = os.path.join(root, "gen", "ws")
OMIT = {"unreal_mod_manager", "unreal_mod_integrator", "unreal_cpp_bootstrapper"}
os.makedirs(WS, exist_ok=True)
text = open(f"{REPO}/Cargo.toml", encoding="utf-8").read()
for name in OMIT:
    text = re.sub(rf'^\s*"{name}",[ \t]*\n', "", text, flags=re.M)
text = re.sub(r"^steamy-vdf = .*git.*\n", "", text, flags=re.M)
text += "\n[profile.dev]\nopt-level = 1\ndebug = 1\n"
p = f"{WS}/Cargo.toml"
if not os.path.exists(p) or open(p).read() != text:
    open(p, "w").write(text)
if not os.path.exists(f"{WS}/Cargo.lock"):
    shutil.copy(os.path.join(root, "tools", "ws.Cargo.lock"), f"{WS}/Cargo.lock")
for d in os.listdir(REPO):
    if d.startswith(".") or d in OMIT | {"target"} or not os.path.isdir(f"{REPO}/{d}"):
        continue
    if not os.path.islink(f"{WS}/{d}"):
        os.symlink(f"{REPO}/{d}", f"{WS}/{d}")
