"""Makes the harness crate for the command line tool: the tool's own sources as the crate, with
its main function under another name and the harness as one more module."""
import os
import re
import shutil
import sys

repo, out = sys.argv[1:]
src = os.path.join(out, "cli-copy", "src")
shutil.rmtree(os.path.join(out, "cli-copy"), ignore_errors=True)
shutil.copytree(os.path.join(repo, "cli", "src"), src)
path = os.path.join(src, "main.rs")
main = open(path).read()
main, n = re.subn(r"(?m)^(pub(\([^)]*\))? )?fn main\(", "fn cli_main(", main)
if n != 1:
    sys.exit("no main function found in cli/src/main.rs")
main += '''
#[allow(dead_code)]
#[path = "%s/util.rs"]
mod util;
#[allow(dead_code)]
#[path = "%s/model.rs"]
mod model;
#[path = "%s/cli.rs"]
mod verif_harness;
fn main() {
    verif_harness::run()
}
''' % ((os.path.join(out, "src"),) * 3)
open(path, "w").write(main)

toml = open(os.path.join(repo, "cli", "Cargo.toml")).read()
deps = re.search(r"(?ms)^\[dependencies\]\n(.*?)(?=^\[|\Z)", toml).group(1)
deps = re.sub(r'path *= *"\.\./', 'path = "%s/' % repo, deps)
have = set(re.findall(r"(?m)^([A-Za-z0-9_-]+) *=", deps))
open(os.path.join(out, "Cargo.toml"), "w").write('''[package]
name = "harness"
version = "0.1.0"
edition = "2021"

[[bin]]
name = "harness"
path = "cli-copy/src/main.rs"

[workspace]

[dependencies]
%spsym = { path = "../psym" }

[patch.crates-io]
aes-gcm = { path = "../models/aes-gcm" }
hmac = { path = "../models/hmac" }
scrypt = { path = "../models/scrypt" }
rand_chacha = { path = "../models/rand_chacha" }
getrandom = { path = "../models/getrandom" }
qrcodegen = { path = "../models/qrcodegen" }
io-streams = { path = "../models/io-streams" }

[profile.release]
opt-level = 1
lto = "fat"
codegen-units = 1
panic = "abort"
debug = "line-tables-only"
overflow-checks = true
''' % deps)
