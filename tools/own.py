"""Ownership of what the read paths hand out: the borrow checker on the real code with every lifetime extension taken back.

The functions' signatures are the contracts: an entry is borrowed from the cursor (or block, or iterator) it came from.
`extract --own` copies /repo/src, turns every `transmute(x)` into `(x)` and every `'static` of a body into an inferred
lifetime; nothing else changes. The nightly compiler (whose borrow checker accepts conditional returns of borrows) then
checks each function against those signatures.
"""
import json, os, re, shutil, subprocess

BORROW = {"E0499", "E0500", "E0501", "E0502", "E0503", "E0505", "E0506", "E0515", "E0521", "E0597", "E0621", "E0712", "E0713", "E0716"}


def run(exe, repo, out, target):
    """(state, failures, notes): state ok | failed | undecided"""
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    p = subprocess.run([exe, "--own", os.path.join(repo, "src"), os.path.join(out, "src")], capture_output=True, text=True)
    if p.returncode != 0:
        return "undecided", [], ["the sources do not parse: " + p.stderr[-300:]]
    notes = [l.replace(repo + "/", "") for l in p.stdout.splitlines()]
    left = []
    for d, _, fs in os.walk(os.path.join(out, "src")):
        for f in fs:
            for i, l in enumerate(open(os.path.join(d, f), errors="replace")):
                if re.search(r"\btransmute(_copy)?\s*(::\s*<|\()", l) and not l.strip().startswith("//"):
                    left.append("%s:%d" % (f, i + 1))
    if left:
        return "undecided", [], ["lifetime extensions that could not be taken back: %s" % left]
    man = open(os.path.join(repo, "Cargo.toml")).read()
    man = "\n".join(x for x in re.split(r"(?m)^(?=\[)", man) if not re.match(r"\[\[(bench|test|example|bin)\]\]|\[dev-dependencies", x))
    open(os.path.join(out, "Cargo.toml"), "w").write(man + "\n[workspace]\n")
    shutil.copy(os.path.join(repo, "Cargo.lock"), os.path.join(out, "Cargo.lock"))
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints allow -Zpolonius=next")
    p = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--message-format", "json"], cwd=out, env=env, capture_output=True, text=True, timeout=400)
    bad, other = [], []
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        m = m["message"]
        sp = [s for s in m["spans"] if s["is_primary"]]
        if not sp:
            continue
        where = "%s:%d" % (sp[0]["file_name"], sp[0]["line_start"])
        code = (m.get("code") or {}).get("code")
        if code in BORROW or "lifetime may not live long enough" in m["message"]:
            bad.append((where, m["message"], m["rendered"]))
        else:
            other.append("%s: %s" % (where, m["message"]))
    if other:
        return "undecided", [], ["the code without lifetime extensions is not accepted: %s" % other[:3]]
    if bad:
        return "failed", bad, notes
    if p.returncode != 0:
        return "undecided", [], ["the compiler stopped: " + p.stderr[-400:]]
    return "ok", [], notes


if __name__ == "__main__":
    import sys
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    print(run(os.path.join(V, "target/extract/debug/extract"), sys.argv[1] if len(sys.argv) > 1 else "/repo", os.path.join(V, "target/own/crate"), os.path.join(V, "target/own/build")))
