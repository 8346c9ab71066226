#!/usr/bin/env python3
"""Makes the crate that is explored in process: the sources of the language server as they are in
/repo, with the harness as an additional module."""
import pathlib, re, shutil, sys
out = pathlib.Path("/verif/target/lsmc-crate")
repo = pathlib.Path("/repo/ginko_ls")
src = out / "src"
new = {}
for f in (repo / "src").rglob("*"):
    if f.is_file():
        new[f.relative_to(repo / "src")] = f.read_bytes()
main = pathlib.Path("main.rs")
new[main] += b'\n#[allow(dead_code)]\n#[path = "/verif/lsmc/src/lsmc.rs"]\npub mod lsmc;\n'
new[pathlib.Path("bin/lsmc.rs")] = b"fn main() {\n    ginko_ls_explored::lsmc::main()\n}\n"
toml = (repo / "Cargo.toml").read_text()
m = re.search(r"^\[dependencies\]\n(.*?)(?=^\[|\Z)", toml, re.S | re.M)
deps = m.group(1)
deps = re.sub(r'path\s*=\s*"([^"]*)"', lambda x: 'path = "%s"' % (repo / x.group(1)).resolve(), deps)
have = set(re.findall(r"^([A-Za-z0-9_-]+)\s*=", deps, re.M))
for name, spec in [("mc", '{ path = "/verif/mc" }'), ("futures-util", '{ version = "0.3", default-features = false, features = ["sink"] }'), ("tower", '{ version = "0.4", default-features = false }'),
                   ("tower-lsp", '"0.20.0"'), ("serde_json", '"1"'), ("url", '"2"'), ("tokio", '{ version = "1", features = ["rt", "rt-multi-thread"] }')]:
    if name not in have:
        deps += f"{name} = {spec}\n"
toml = f'''[package]
name = "ginko_ls_explored"
version = "0.0.0"
edition = "2021"
autobins = false

[workspace]

[lib]
path = "src/main.rs"

[[bin]]
name = "lsmc"
path = "src/bin/lsmc.rs"

[features]
default = ["inproc"]
inproc = []

[dependencies]
{deps}
[profile.release]
opt-level = 2
debug-assertions = true
overflow-checks = true
incremental = false
debug = 0
'''
out.mkdir(parents=True, exist_ok=True)
def put(p, b):
    if not p.exists() or p.read_bytes() != b:
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(b)
if src.exists():
    for f in list(src.rglob("*")):
        if f.is_file() and f.relative_to(src) not in new:
            f.unlink()
for k, b in new.items():
    put(src / k, b)
put(out / "Cargo.toml", toml.encode())
if not (out / "Cargo.lock").exists():
    shutil.copy("/repo/Cargo.lock", out / "Cargo.lock")
