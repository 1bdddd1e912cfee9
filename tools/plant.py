"""Creates and confirms planted bugs (see DESIGN.md, "Planted bugs").

plant(id, property, needs, what, edits, demo) makes the edits in a scratch copy
of /repo, confirms that the result builds and passes the existing tests and
that the demonstration tells the two trees apart, and writes seeded/<id>/.
No check uses this module.
"""
import json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/vp-scratch-repo"

DEMO = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
eth_trie_utils = { path = "$repo"@F@ }
ethereum-types = "0.14.1"
serde_json = "1.0.96"
[workspace]
END
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 280 cargo run %s--offline -q
'''


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e["PATH"]
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             RUSTC_WRAPPER="", RUST_BACKTRACE="0", CARGO_TARGET_DIR=SCR + "/target")
    return e


def sh(cmd, cwd=SCR, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)


def fresh():
    if not os.path.exists(SCR):
        subprocess.run(["cp", "-a", "/repo", SCR], check=True)
    sh(["git", "checkout", "-q", "--", "."])
    head = sh(["git", "rev-parse", "HEAD"]).stdout
    if head != sh(["git", "rev-parse", "HEAD"], cwd="/repo").stdout:
        shutil.rmtree(SCR)
        fresh()


def tests():
    subprocess.run("rm -rf %s/target/debug/.fingerprint/eth_trie_utils-*" % SCR, shell=True)
    p = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"])
    passed = sum(int(x) for x in re.findall(r"(\d+) passed", p.stdout))
    failed = sum(int(x) for x in re.findall(r"(\d+) failed", p.stdout))
    return p.returncode, passed, failed, p.stdout


def demo(d):
    # the demonstration finds the crate by the working directory
    return sh(["bash", os.path.join(d, "demo.sh")])


def removed_lines_original(base="9d03c02"):
    """Whether every line the change removes is one of the original repository."""
    n = 0
    for file in sh(["git", "diff", "--name-only"]).stdout.split():
        blame = {}
        for l in sh(["git", "blame", "-s", "-l", "HEAD", "--", file]).stdout.splitlines():
            m = re.match(r"\^?([0-9a-f]+)\s+(?:\S+\s+)?(\d+)\)", l)
            blame[int(m.group(2))] = m.group(1)
        for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh(["git", "diff", "-U0", "--", file]).stdout, re.M):
            start, cnt = int(h.group(1)), int(h.group(2) or 1)
            for i in range(start, start + cnt):
                n += 1
                if sh(["git", "merge-base", "--is-ancestor", blame[i][:39], base]).returncode != 0:
                    return "line %d of %s is not original" % (i, file)
    return None if n else "no line is changed"


def plant(bid, prop, needs, what, edits, demo_rs, release=False, debug=False):
    d = os.path.join(VERIF, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.rs", "w") as f:
        f.write(demo_rs.lstrip())
    with open(d + "/demo.sh", "w") as f:
        f.write(DEMO.replace("@F@", ', features = ["trie_debug"]' if debug else "")
                % ("--release " if release else ""))
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, f, indent=1)
        f.write("\n")
    fresh()
    p = demo(d)
    if p.returncode != 0:
        print(bid, "REJECTED: demonstration fails on the unchanged tree\n", p.stdout[-1500:])
        return False
    for file, old, new in edits:
        path = os.path.join(SCR, file)
        s = open(path).read()
        if s.count(old) != 1:
            print(bid, "REJECTED: edit matches %d times: %r" % (s.count(old), old))
            return False
        open(path, "w").write(s.replace(old, new))
    with open(d + "/patch.diff", "w") as f:
        f.write(sh(["git", "diff"]).stdout)
    why = removed_lines_original()
    if why:
        print(bid, "REJECTED:", why)
        return False
    code, passed, failed, out = tests()
    if code != 0:
        print(bid, "REJECTED: tests: %d passed, %d failed" % (passed, failed))
        print("\n".join(re.findall(r"^test .*FAILED|^error.*", out, re.M)) or out[-1500:])
        sh(["git", "checkout", "-q", "--", "."])
        return False
    p = demo(d)
    sh(["git", "checkout", "-q", "--", "."])
    if p.returncode == 0:
        print(bid, "REJECTED: demonstration passes with the change")
        return False
    print(bid, prop, "ok:", passed, "tests pass; demo exit", p.returncode,
          (p.stdout.strip().splitlines() or [""])[-1][:150])
    return True
