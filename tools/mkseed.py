#!/usr/bin/env python3
"""Development tool: make one planted bug folder and confirm it.

  mkseed.py SPECFILE...   each SPECFILE is a python file defining
     id, property, edits=[(file, old, new), ...], main (demo main.rs text), needs, breaks
     bin (instead of main): a harness program the demo is made of, run for BUDGET seconds at most
     optional: cfg (list of --cfg), mods (harness modules the demo uses; default all)
Works in a scratch copy of /repo (/tmp/seedwork), never in /repo itself.
"""
import sys, os, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = '''#!/bin/bash
# cwd: the repository under test
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
cp -r "$here/demo/." "$w/"
sed -i "s#@REPO@#$repo#" "$w/Cargo.toml"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS="@CFG@ -Awarnings" CARGO_PROFILE_DEV_DEBUG=0
unset CARGO_TARGET_DIR
cd "$w" && cargo build -q --offline --locked --target-dir "$w/target" || exit 99
timeout 120 "$w/target/debug/demo"
'''
DEMOBIN = DEMO.replace('''timeout 120 "$w/target/debug/demo"
''', '''export VERIF_BUDGET=60
for seed in 1 2; do
    timeout 120 "$w/target/debug/demo" $seed quick "$w/out.json" || exit 1
    if ! grep -q '"status":"ok"' "$w/out.json"; then cut -c1-1500 "$w/out.json"; exit 1; fi
done
''')
CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
antlr-rust = { path = "@REPO@" }
parking_lot = "0.11"
bit-set = "0.5"

[workspace]
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    for f in sys.argv[1:]:
        d = {}
        exec(open(f).read(), d)
        out = os.path.join(V, "seeded", d["id"])
        shutil.rmtree(W, ignore_errors=True)
        os.makedirs(W)
        sh(f"git -C /repo archive HEAD | tar x -C {W}; cd {W} && git init -q && git add -A && cp /opt/vp/Cargo.lock Cargo.lock && git -c user.name=a -c user.email=a@a commit -qm base")
        # demo folder
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out + "/demo/src")
        for m in d.get("mods", ["gram", "lexdrv", "lib", "parsedrv", "stacks"]):
            p = f"{V}/harness/src/{m}.rs"
            if os.path.exists(p):
                shutil.copy(p, f"{out}/demo/src/{m}.rs")
        main = d.get("main")
        if "bin" in d:
            main = open(f"{V}/harness/src/bin/{d['bin']}.rs").read().replace("harness::", "demo::")
        open(out + "/demo/src/main.rs", "w").write(main)
        open(out + "/demo/Cargo.toml", "w").write(CARGO)
        lock = open(f"{V}/harness/Cargo.lock").read().replace('name = "harness"', 'name = "demo"')
        open(out + "/demo/Cargo.lock", "w").write(lock)
        open(out + "/demo.sh", "w").write((DEMOBIN if "bin" in d else DEMO).replace("@CFG@", " ".join("--cfg " + c for c in d.get("cfg", []))))
        os.chmod(out + "/demo.sh", 0o755)
        r0 = sh(f"bash {out}/demo.sh", cwd=W)
        for (file, old, new) in d["edits"]:
            p = os.path.join(W, file)
            s = open(p).read()
            assert s.count(old) == 1, (d["id"], file, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {W} diff").stdout
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        r1 = sh(f"bash {out}/demo.sh", cwd=W)
        # tests
        t = sh(f"cd {W} && CARGO_NET_OFFLINE=true cargo test --workspace --no-fail-fast --offline --target-dir /tmp/seedtarget -- --test-threads 8 2>&1 | grep -E '^test .*|^error'")
        passed = sum(1 for l in t.stdout.splitlines() if l.endswith("... ok"))
        failed = [l for l in t.stdout.splitlines() if "FAILED" in l or l.startswith("error")]
        ok = r0.returncode == 0 and r1.returncode not in (0, 99) and passed >= 59
        print(("OK  " if ok else "BAD ") + d["id"], "clean rc", r0.returncode, "patched rc", r1.returncode, "tests passed", passed, "failed", failed[:4])
        if not ok:
            print(r0.stdout[-1500:]); print(r1.stdout[-1500:])
        else:
            print("   ", r1.stdout.strip()[-300:].replace("\n", " | "))
        shutil.rmtree(W, ignore_errors=True)
main()
