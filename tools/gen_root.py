#!/usr/bin/env python3
"""Generate the harness's crate roots from /repo's working tree.

target/gen/src mirrors /repo/src by symlinks, so `mod x;` in the root resolves exactly as in the program.
lib.rs     = /repo/src/main.rs + the harness module
program.rs = /repo/src/main.rs
Both carry a hash of all sources, so that cargo (which goes by mtimes) rebuilds on any content change."""
import hashlib, os, sys
repo = os.environ.get("RBV_REPO", "/repo")
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = os.path.join(repo, "src")
gen = os.path.join(verif, "target", "gen", "src")
os.makedirs(gen, exist_ok=True)

h = hashlib.sha256()
for d, dirs, files in sorted(os.walk(src)):
    dirs.sort()
    for f in sorted(files):
        p = os.path.join(d, f)
        h.update(os.path.relpath(p, src).encode() + b"\0")
        h.update(open(p, "rb").read() + b"\0")
digest = h.hexdigest()

wanted = {n: os.path.join(src, n) for n in os.listdir(src) if n not in ("main.rs", "lib.rs", "program.rs")}
for n in os.listdir(gen):
    p = os.path.join(gen, n)
    if n in ("lib.rs", "program.rs"):
        continue
    if n not in wanted or not os.path.islink(p) or os.readlink(p) != wanted[n]:
        os.unlink(p)
for n, t in wanted.items():
    p = os.path.join(gen, n)
    if not os.path.islink(p):
        os.symlink(t, p)

main = open(os.path.join(src, "main.rs")).read()
head = f"// generated by tools/gen_root.py; sources {digest}\n#![allow(warnings)]\n"
def put(name, text):
    p = os.path.join(gen, name)
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, "w") as f:
            f.write(text)
put("program.rs", head + main)
put("lib.rs", head + main + f'\n#[path = "{verif}/harness/src/rbv/mod.rs"]\npub mod rbv;\n')
print(digest)
