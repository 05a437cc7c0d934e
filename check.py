#!/usr/bin/env python3
"""check.py PROPERTY : decides one property for the current /repo (see DESIGN.md)."""
import glob, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
sys.path.insert(0, os.path.join(V, "overlay"))
import vf
import own

REPO = os.environ.get("GRENAD_REPO", "/repo")
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
TARGET = os.path.join(V, "target")
CLAIM = json.load(open(os.path.join(V, "overlay", "claims.json")))[PROP]
THOROUGH = TIER == "thorough"


def log(*a):
    print(*a, flush=True)


def cargo(manifest, target, args=(), rustflags=None):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, target), CARGO_NET_OFFLINE="true")
    if rustflags is not None:
        env["RUSTFLAGS"] = rustflags
    return subprocess.run(["cargo", "build", "--offline", "--manifest-path", manifest, *args], env=env, capture_output=True, text=True)


# ------------------------------------------------------------------------------------------ replay

def dictionary():
    """the integer literals of the code, `new;all`: the sizes around them are worth a look.
    `new` are those which the code the contracts were written for does not have."""
    lit = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:usize|u8|u16|u32|u64|isize|i8|i16|i32|i64)?\b(?!\.\d)")
    shift = re.compile(r"\b1(?:usize|u32|u64|_usize|_u32|_u64)?\s*<<\s*(\d+)")

    prod = re.compile(r"(?<![\w.])\d\w*(?:\s*\*\s*\d\w*)+")

    def values(text):
        text = re.sub(r"//[^\n]*|\"(?:[^\"\\]|\\.)*\"", "", text)
        out = {int(x.replace("_", ""), 0 if x.startswith("0x") else 10) for x in lit.findall(text)}
        out |= {1 << int(x) for x in shift.findall(text) if int(x) < 64}
        for x in prod.findall(text):
            n = 1
            for y in lit.findall(x):
                n *= int(y.replace("_", ""), 0 if y.startswith("0x") else 10)
            out.add(n)
        for t, b in (("u8", 8), ("u16", 16), ("i8", 7), ("i16", 15)):
            if re.search(r"\b%s\b" % t, text):
                out.add((1 << b) - 1)
        return {x for x in out if 2 < x < 1 << 32}

    here = set()
    for f in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True)):
        t = open(f, errors="replace").read()
        here |= values(re.split(r"#\[cfg\(test\)\]\s*mod ", t)[0])
    base = set()
    for f in glob.glob(os.path.join(V, "overlay", "*.ov")):
        base |= values("\n".join(l for l in open(f).read().splitlines() if not l.startswith("@")))
    show = lambda s: ",".join(str(x) for x in sorted(s)[:60])
    return show(here - base) + ";" + show(here)


class Replay:
    """the bounded engine: runs the real code of /repo on generated inputs, against independent oracles"""

    def __init__(self):
        self.exe = None
        self.cases = 0
        self.distinct = 0
        self.samples = []
        self.failure = None
        self.problem = None
        self.hooks = True
        self.deep = False

    def build(self):
        man = os.path.join(V, "replay", "Cargo.toml")
        p = cargo(man, "replay", ["--features", "hooks"], "--cfg grenad_verif")
        if p.returncode != 0:
            self.hooks = False
            q = cargo(man, "replay", [], "")
            if q.returncode != 0:
                self.problem = "the replay engine does not build against /repo: " + q.stderr[-1500:]
                return
        self.exe = os.path.join(TARGET, "replay", "debug", "replay")

    def env(self, deep):
        return dict({"VERIF_DICT": dictionary()}, **({"VERIF_DEEP": "1"} if deep else {}))

    def run(self, secs, seed, jobs, deep=False):
        if self.exe is None or self.failure:
            return
        self.deep = deep
        cmd = [self.exe, "run", PROP, "--seed", str(seed), "--secs", str(secs), "--jobs", str(jobs)]
        if THOROUGH:
            cmd.append("--thorough")
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 150, env=dict(os.environ, **self.env(deep)))
        except subprocess.TimeoutExpired:
            self.problem = "the replay engine did not stop"
            return
        for l in p.stdout.splitlines():
            if l.startswith("CASES "):
                self.cases += int(l.split()[1])
            elif l.startswith("DISTINCT "):
                self.distinct += int(l.split()[1])
            elif l.startswith("SAMPLE "):
                self.samples.append(l[7:])
            elif l.startswith("FAIL "):
                self.failure = l[5:]
        if p.returncode not in (0, 1) and not self.failure:
            self.problem = "the replay engine stopped with %s: %s" % (p.returncode, p.stderr[-500:])

    def known(self):
        if self.exe is None:
            return
        p = subprocess.run([self.exe, "known", PROP], capture_output=True, text=True, timeout=60)
        for l in p.stdout.splitlines():
            if l.strip():
                log("KNOWN-FINDING: property=%s %s" % (PROP, l.strip()))


# ------------------------------------------------------------------------------------------- proof

class Proof:
    def __init__(self):
        self.state = "none"      # ok | failed | undecided | none
        self.reasons = []        # why undecided
        self.failures = []       # (key, obligation, source position, rendered)
        self.res = None
        self.merged = None
        self.unaffected = True   # the code under contract is the one the overlay was written for
        self.assumed = []
        self.own = None          # the ownership obligations, if this property has them
        self.interop = None      # the obligations of grenad 0.4.7, if this property has them

    def undecided(self, why):
        self.state = "undecided"
        self.reasons.append(why)


def closure(mods):
    out = set()
    for m in mods:
        parts = m.split("::")
        for i in range(len(parts)):
            out.add("::".join(parts[:i + 1]))
    return out


def scan_assumptions(overlay, models, mods, items):
    """every assumption in what is given to the verifier"""
    out = []
    texts = [(os.path.basename(f), open(f).read()) for f in models]
    for m in mods:
        if m in overlay.ghost:
            texts.append((m, "\n".join(overlay.ghost[m])))
    for key in overlay.order:
        it = overlay.items[key]
        if it["module"] in mods and it["kind"] == "item":
            g = "\n".join(t for gh, t in vf.parse_lines(it["lines"]) if gh)
            texts.append((key, g))
    pat = re.compile(r"(assume_specification[^;{]*?\[\s*(?P<a>[^\]]+(?:\][^\]]*?)??)\]|external_body\)?\]\s*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+|exec\s+|open\s+|closed\s+|spec\s+)*(?:fn|struct)\s+(?P<b>\w+)|axiom fn (?P<c>\w+)|uninterp spec fn (?P<d>\w+)|\badmit\(\)|\bassume\((?P<e>[^;]*)\);)")
    for name, t in texts:
        for m in pat.finditer(t):
            what = m.group("a") or m.group("b") or m.group("c") or m.group("d") or m.group(0)
            kind = "std contract" if m.group("a") else "trusted body" if m.group("b") else "axiom" if m.group("c") else "uninterpreted" if m.group("d") else "assume"
            out.append("%s %s (%s)" % (kind, " ".join(what.split())[:80], name))
    for key in overlay.order:
        it = overlay.items[key]
        if it["module"] in mods and it["kind"] in ("trusted", "drop"):
            out.append("%s %s: %s" % ("trusted, text pinned" if it["kind"] == "trusted" else "not verified", key, it["reason"]))
    return out


def prove(P):
    mods = CLAIM.get("modules") or []
    if not mods:
        return
    man = os.path.join(V, "tools", "extract", "Cargo.toml")
    b = cargo(man, "extract", [], "")
    if b.returncode != 0:
        return P.undecided("the extractor does not build: " + b.stderr[-800:])
    p = subprocess.run([os.path.join(TARGET, "extract", "debug", "extract"), os.path.join(REPO, "src"), os.path.join(V, "overlay", "rules.txt")], capture_output=True, text=True)
    if p.returncode != 0:
        return P.undecided("extraction failed: " + p.stderr[-800:])
    items = json.loads(p.stdout)["items"]
    overlay = vf.Overlay()
    for f in sorted(glob.glob(os.path.join(V, "overlay", "*.ov"))):
        overlay.load(f)
    mods = closure(mods)
    models = sorted(glob.glob(os.path.join(V, "overlay", "model", "*.rs")))
    header = open(os.path.join(V, "overlay", "header.rs")).read()
    P.assumed = scan_assumptions(overlay, models, mods, items)
    outdir = os.path.join(TARGET, "verus")
    os.makedirs(outdir, exist_ok=True)
    skip = set()
    for rnd in range(4):
        m = vf.build(overlay, items, models, header, skip_hints=skip, only_modules=mods)
        P.merged = m
        res = vf.run_verus(m, os.path.join(outdir, PROP + ".rs"), threads=6, rlimit=(20, 40, 60, 60)[rnd], timeout=max(30, min(400, T0 + 600 - time.time())),
                           extra=() if rnd == 0 else ("--smt-option", "smt.random_seed=%d" % rnd))
        P.res = res
        if res["status"] in ("ok", "rejected", "timeout"):
            break
        again = False
        for e in res["errors"]:
            w = locate(m, e)
            if "rlimit" in e["message"] or "Resource limit" in e["message"]:
                again = again or rnd < 2
            elif w["key"] is not None and w["key"] not in m.changed:
                # the obligation is the one discharged before, unless a type or a constant changed: try another seed
                again = again or rnd < 1
            # a proof hint that no longer holds in changed code is dropped: the obligations decide
            if e["message"] == "assertion failed" and w["key"] in m.changed:
                for ln, _, prim, _ in e["spans"]:
                    x = m.where[ln - 1]
                    t = m.text[ln - 1].strip()
                    if prim and x and x[2] and t.startswith("assert(") and t.endswith(");") and (x[0], t) not in skip:
                        skip.add((x[0], t))
                        again = True
        if not again or time.time() - T0 > 450:
            break
    P.unaffected = not (m.changed or m.unknown or m.missing or m.pinned)
    if res["status"] == "timeout":
        return P.undecided("verifier time limit")
    if res["status"] == "rejected":
        msg = "; ".join(e["message"] for e in res["errors"][:3]) or res.get("raw", "")[-400:]
        return P.undecided("the verifier does not accept the extracted code: " + msg)
    for key in m.pinned:
        P.undecided("the trusted text of %s changed" % key)
    for key in m.missing:
        if overlay.items[key]["kind"] != "drop":
            P.undecided("%s is gone: its contract has no anchor" % key)
    lost = {}
    for key, kind, t in m.lost:
        if kind != "hint":
            P.undecided("%s: lost %s" % (key, kind))
        lost.setdefault(key, []).append(kind)
    unknown_names = {k.split("::")[-1] for k in m.unknown}
    for e in res["errors"]:
        w = locate(m, e)
        key = w["key"]
        if key is None or key.startswith("ghost "):
            P.undecided("error outside of the code under contract: " + e["message"])
            continue
        if "rlimit" in e["message"] or "Resource limit" in e["message"]:
            P.undecided("%s: solver resource limit" % key)
            continue
        props = overlay.items[key]["props"] if key in overlay.items else []
        tags = w["tags"]
        mine = PROP in tags if tags else PROP in props
        if not mine:
            P.reasons.append("failure of another property in %s: %s" % (key, w["what"]))
            continue
        code = " ".join(m.items[key]["lines"]) if key in m.items else ""
        used = [u for u in unknown_names if re.search(r"\b%s\b" % re.escape(u), code)]
        if key in m.unknown or used or key in lost:
            P.undecided("%s: %s (calls code without contract or lost an anchor: %s)" % (key, w["what"], used or lost.get(key)))
            continue
        if w["ghost"] and e["message"] in ("assertion failed", "precondition not satisfied", "recommendation not met"):
            P.undecided("%s: a proof step fails: %s" % (key, w["what"]))
            continue
        P.failures.append((key, w["what"], w["src"], e["rendered"]))
    if P.failures:
        P.state = "failed"
    elif P.state != "undecided":
        if any(r.startswith("failure of another") for r in P.reasons) or res["status"] == "ok":
            P.state = "ok"
        else:
            P.undecided("the verifier reports failures that could not be attributed")
    if P.state == "ok" and res["verified"] < CLAIM.get("min_verified", 1):
        P.undecided("only %d obligations: vacuous run" % res["verified"])
    if P.state == "ok":
        client = lambda g: re.match(r"[ms]?trip::", g) and any(re.match(r"pub fn %s\b" % g.split("::")[1], l) for l in m.text)
        missing = [g for g in CLAIM.get("goals", []) if g not in m.items and not client(g)]
        if missing:
            P.undecided("functions under contract not found: %s" % missing)


def interop(P):
    """the frozen grenad 0.4.7 under the same contracts: the bytes its writer emits, and its forward scan"""
    import v047
    t0 = time.time()
    src = v047.source()
    if src is None:
        return P.undecided("the source of the frozen grenad 0.4.7 is not there, or is not the one the contracts were written for")
    p = subprocess.run([os.path.join(TARGET, "extract", "debug", "extract"), src, os.path.join(V, "overlay", "rules.txt")], capture_output=True, text=True)
    if p.returncode != 0:
        return P.undecided("extraction of grenad 0.4.7 failed: " + p.stderr[-800:])
    out = os.path.join(TARGET, "v047")
    ov, models = v047.overlay(vf, out), v047.models(out)
    items = json.loads(p.stdout)["items"]
    m = vf.build(ov, items, models, open(os.path.join(V, "overlay", "header.rs")).read(), only_modules=set(v047.MODULES))
    for rnd in range(3):
        res = vf.run_verus(m, os.path.join(out, "v047.rs"), threads=4, rlimit=(20, 40, 60)[rnd], timeout=max(30, min(300, T0 + 600 - time.time())),
                           extra=() if rnd == 0 else ("--smt-option", "smt.random_seed=%d" % rnd))
        if res["status"] == "ok" or time.time() - T0 > 450:
            break
    mods = closure(v047.MODULES)
    P.interop = {
        "source": src, "sha256": v047.SHA256, "state": res["status"], "discharged": res["verified"], "failed": res["failed"], "checker_cmd": res["cmd"],
        "solver_ms": res.get("smt_ms"), "verifier_wall_s": round(res["wall"], 1),
        "functions_under_contract": sorted(k for k, it in m.items.items() if it["kind"] in ("fn", "impl") and ov.items.get(k, {}).get("kind") == "item"),
        "theorems": ["trip::write_all (0.4.7): the same bytes, a valid file with the inserted content", "trip::scan (0.4.7): the content of any valid file"],
        "trusted_base": [x for x in scan_assumptions(ov, models, mods, items) if x.startswith(("trusted, text", "not verified"))] + v047.ASSUMED,
    }
    bad = m.unknown or m.missing or m.pinned or [x for x in m.lost if x[1] != "hint"]
    if res["status"] != "ok" or bad or res["verified"] < v047.MIN_VERIFIED:
        P.undecided("the obligations of grenad 0.4.7 are not discharged: %s" % (bad or "; ".join(e["message"] for e in res["errors"][:3]) or res["status"]))
    P.interop["wall_s"] = round(time.time() - t0, 1)


def ownership(P):
    """the borrow checker on the code with every lifetime extension taken back"""
    man = os.path.join(V, "tools", "extract", "Cargo.toml")
    if cargo(man, "extract", [], "").returncode != 0:
        return P.undecided("the extractor does not build")
    t0 = time.time()
    state, bad, notes = own.run(os.path.join(TARGET, "extract", "debug", "extract"), REPO, os.path.join(TARGET, "own", "crate"), os.path.join(TARGET, "own", "build"))
    P.own = {"state": state, "checker_cmd": "RUSTFLAGS=-Zpolonius=next cargo +nightly check --lib (on target/own/crate)", "taken_back": notes if state != "undecided" else [], "wall_s": round(time.time() - t0, 1)}
    for where, msg, rendered in bad:
        P.failures.append(("ownership", "what is handed out does not live as long as the signature says: " + msg, where, rendered))
    if bad:
        P.state = "failed"
    if state == "undecided":
        for n in notes:
            P.undecided("ownership: " + n)


def locate(m, e):
    """function, obligation text, tags and source line of a verifier error"""
    key, src, tags, what, ghost = None, None, set(), [], False
    order = sorted(e["spans"], key=lambda s: not s[2])
    for ln, label, prim, end in order:
        if not (0 < ln <= len(m.where)):
            continue
        w = m.where[ln - 1]
        for k in range(ln, min(end, ln + 12) + 1):
            t = m.text[k - 1]
            tags.update(re.findall(r"\[(C\d\d)\]", t))
            # a clause may continue on the next lines up to its tag
        if prim and not tags:
            for k in range(ln, min(ln + 8, len(m.text))):
                if m.where[k - 1] is None or not m.where[k - 1][2]:
                    break
                got = re.findall(r"\[(C\d\d)\]", m.text[k - 1])
                if got:
                    tags.update(got)
                    break
        what.append("%s `%s`" % (label or "", m.text[ln - 1].strip()))
        if w and not w[2]:
            # code line: the function in which the obligation arises
            key, src = w[0], "%s:%s" % (m.items[w[0]]["file"], w[1])
        elif w and key is None:
            key = w[0]
            ghost = True
    if key in m.items and src is None:
        src = "%s:%s" % (m.items[key]["file"], m.items[key]["start"])
    prim = [s for s in e["spans"] if s[2]]
    gh = bool(prim) and 0 < prim[0][0] <= len(m.where) and bool(m.where[prim[0][0] - 1]) and m.where[prim[0][0] - 1][2]
    return {"key": key, "src": src, "tags": tags, "what": e["message"] + ": " + " / ".join(what), "ghost": gh}


# ---------------------------------------------------------------------------------------- decision

def main():
    R, P = Replay(), Proof()
    secs = CLAIM.get("thorough_secs", 240) if THOROUGH else CLAIM.get("quick_secs", 25)
    secs = int(os.environ.get("VERIF_SECS", secs))

    def bounded():
        R.build()
        R.run(secs, SEED, 4)

    t = threading.Thread(target=bounded)
    t.start()
    try:
        prove(P)
    except Exception as ex:  # a defect of the machinery is never a verdict
        P.undecided("internal error of the proof driver: %r" % ex)
    if CLAIM.get("interop") and P.state == "ok":
        try:
            interop(P)
        except Exception as ex:
            P.undecided("internal error of the driver for grenad 0.4.7: %r" % ex)
    if CLAIM.get("ownership"):
        try:
            ownership(P)
        except Exception as ex:
            P.undecided("internal error of the ownership driver: %r" % ex)
    t.join()
    more = CLAIM.get("modules") and (P.state != "ok" or not P.unaffected)
    if more and not R.failure and not THOROUGH:
        # the code is not the one the proof was written for: look longer for a concrete input
        R.run(int(os.environ.get("VERIF_SECS", 60)), SEED + 1000, 8, deep=True)
    R.known() if not R.failure else None

    replay_dir = os.path.join(TARGET, "violations")
    os.makedirs(replay_dir, exist_ok=True)
    rpath = os.path.join(replay_dir, PROP + ".json")
    violation = None
    if R.failure or P.failures:
        obj = {"property": PROP, "failed_obligations": [{"function": k, "obligation": w, "source": s, "verifier_output": r} for k, w, s, r in P.failures]}
        if R.failure:
            try:
                obj["failing_input"] = json.loads(R.failure)
                obj["how_to_replay"] = "%s %s case %s --seed %s --case %s%s" % (" ".join("%s='%s'" % x for x in R.env(R.deep).items()), R.exe, PROP, obj["failing_input"]["seed"], obj["failing_input"]["case"], " --thorough" if THOROUGH else "")
            except ValueError:
                obj["failing_input"] = R.failure
        with open(rpath, "w") as f:
            json.dump(obj, f, indent=1)
        violation = "VIOLATION property=%s replay=%s" % (PROP, rpath) + ("" if R.failure else " no-failing-input-found")

    res = P.res or {}
    discharged = res.get("verified", 0)
    cov = {
        "evaluations": R.cases,
        "distinct_nontrivial": R.distinct,
        "rule": CLAIM["rule"],
        "samples": R.samples[:3] or ["(none)"],
        "replay_hooks_enabled": R.hooks,
        "proof_state": P.state,
        "proof_notes": P.reasons,
    }
    if CLAIM.get("modules"):
        under = sorted(k for k, it in (P.merged.items if P.merged else {}).items() if it["kind"] in ("fn", "impl"))
        cov.update({
            "obligations": discharged + res.get("failed", 0),
            "discharged": discharged,
            "checker_cmd": res.get("cmd", ""),
            "back_end": "verus (z3)",
            "solver_ms": res.get("smt_ms"),
            "verifier_wall_s": round(res.get("wall", 0), 1),
            "functions_under_contract": under,
            "trusted_base": P.assumed + CLAIM.get("trusted", []),
            "goals": CLAIM.get("goals", []),
            "not_covered_by_the_proof": CLAIM.get("open", []),
        })
    if P.own:
        cov["ownership"] = P.own
    if P.interop:
        cov["grenad_0_4_7"] = P.interop
    ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": CLAIM["level"], "coverage": cov, "wall_s": round(time.time() - T0, 1)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k, w, s, _ in P.failures:
        log("FAILED OBLIGATION in %s (%s): %s" % (k, s, w))
    if P.state == "undecided":
        for r in P.reasons:
            log("UNDECIDED-BY-PROOF:", r)
        log("the bounded stand-in decides: %d cases" % R.cases)
    if R.problem:
        log("NOTE:", R.problem)
    if violation:
        log(violation)
        return 1
    if R.exe is None and P.state != "ok":
        log("no answer: neither the proof nor the bounded check could run")
        return 2
    log("OK property=%s proof=%s obligations=%d cases=%d wall=%.0fs" % (PROP, P.state, discharged, R.cases, time.time() - T0))
    return 0


sys.exit(main())
