"""Merging of the overlay (specifications) with the code extracted from /repo on this run, and the Verus run."""
import difflib, json, os, re, subprocess, time

IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*|\d[\w.]*|\s+|.", re.S)


class Overlay:
    def __init__(self):
        self.items = {}      # key -> dict(kind, lines, repl, reason, props, module)
        self.ghost = {}      # module -> [text]
        self.order = []

    def load(self, path):
        module, cur = None, None
        for n, raw in enumerate(open(path), 1):
            line = raw.rstrip("\n")
            if line.startswith("@@ "):
                head, _, reason = line[3:].partition(" | ")
                f = head.split()
                cmd = f[0]
                if cmd == "module":
                    module, cur = f[1], None
                elif cmd == "ghost":
                    cur = self.ghost.setdefault(module, [])
                elif cmd in ("item", "trusted", "drop"):
                    rest = head[len(cmd) + 1:].strip()
                    key, _, props = rest.partition(" : ")
                    key = key.strip()
                    if key in self.items:
                        raise SystemExit("overlay: duplicate " + key)
                    it = {"kind": cmd, "key": key, "module": module, "lines": [], "repl": None, "reason": reason.strip(),
                          "props": props.split(), "at": "%s:%d" % (path, n)}
                    self.items[key] = it
                    self.order.append(key)
                    cur = it["lines"]
                elif cmd == "as":
                    it["repl"] = cur = []
                else:
                    raise SystemExit("overlay %s:%d: unknown directive %s" % (path, n, line))
                continue
            if cur is not None:
                cur.append(line)
        return self


def norm(s):
    return " ".join(s.split())


def parse_lines(lines):
    """-> [(is_ghost, text)] without blank lines"""
    out = []
    for l in lines:
        s = l.strip()
        if not s:
            continue
        if s.startswith("@"):
            out.append((True, s[1:].strip()))
        else:
            out.append((False, norm(s)))
    return out


def toks(s):
    return [t for t in IDENT.findall(s) if not t.isspace()]


def is_ident(t):
    return re.match(r"[A-Za-z_]\w*$", t) is not None


KW = set("if while for in match return let mut else impl as where fn dyn ref move break unsafe loop pub const self Self Some None Ok Err continue true false".split())


def find_renames(base, cur):
    """identifiers that were consistently renamed between two lists of lines"""
    sm = difflib.SequenceMatcher(None, base, cur, autojunk=False)
    cand, bad = {}, set()
    btoks = set(t for l in base for t in toks(l))
    ctoks = set(t for l in cur for t in toks(l))
    for op, i1, i2, j1, j2 in sm.get_opcodes():
        if op != "replace" or i2 - i1 != j2 - j1:
            continue
        for a, b in zip(base[i1:i2], cur[j1:j2]):
            ta, tb = toks(a), toks(b)
            if len(ta) != len(tb):
                continue
            diff = [(x, y) for x, y in zip(ta, tb) if x != y]
            if all(is_ident(x) and is_ident(y) and x not in KW and y not in KW for x, y in diff):
                for x, y in diff:
                    if x in ctoks or y in btoks:
                        bad.add(x)
                    elif cand.setdefault(x, y) != y:
                        bad.add(x)
    m = {x: y for x, y in cand.items() if x not in bad}
    if len(set(m.values())) != len(m):
        return {}
    return m


def rename(s, m):
    if not m:
        return s
    return "".join(m.get(t, t) for t in IDENT.findall(s))


LOOP = re.compile(r"^(?:'\w+\s*:\s*)?(while|for|loop)\b")
FNH = re.compile(r"\bfn\s+(\w+)")


def loops_of(lines):
    """index -> (fn name, ordinal)"""
    out, fn, k = {}, None, 0
    for i, l in enumerate(lines):
        m = FNH.search(l)
        if m and not LOOP.match(l):
            fn, k = m.group(1), 0
        if LOOP.match(l):
            out[i] = (fn, k)
            k += 1
    return out


def merge_item(over, cur):
    """over: overlay lines with ghosts, cur: current code lines.
    -> (merged [(ghost, text, cur index or None)], lost [text], changed bool)"""
    ents = parse_lines(over)
    base = [t for g, t in ents if not g]
    cur = [norm(c) for c in cur]
    changed = base != cur
    ren = find_renames(base, cur) if changed else {}
    if ren:
        ents = [(g, rename(t, ren)) for g, t in ents]
        base = [norm(t) for g, t in ents if not g]
    # ghost groups: position in base (number of code lines before)
    groups, n = [], 0
    for g, t in ents:
        if g:
            if groups and groups[-1][0] == n:
                groups[-1][1].append(t)
            else:
                groups.append((n, [t]))
        else:
            n += 1
    before = {i: [] for i in range(len(cur) + 1)}
    lost = []
    if base == cur:
        for p, ts in groups:
            before[p].append((0, ts))
    else:
        sm = difflib.SequenceMatcher(None, base, cur, autojunk=False)
        match = {}
        for a, b, k in sm.get_matching_blocks():
            for d in range(k):
                match[a + d] = b + d
        # lines that only differ a little inside a replaced block keep their position
        for op, i1, i2, j1, j2 in sm.get_opcodes():
            if op == "replace":
                js = list(range(j1, j2))
                lastj = j1 - 1
                for i in range(i1, i2):
                    best = None
                    for j in js:
                        if j <= lastj:
                            continue
                        r = difflib.SequenceMatcher(None, toks(base[i]), toks(cur[j]), autojunk=False).ratio()
                        if r > 0.6 and (best is None or r > best[0]):
                            best = (r, j)
                    if best:
                        match[i] = best[1]
                        lastj = best[1]
        bl, cl = loops_of(base), loops_of(cur)
        cfn = {}
        for i, l in enumerate(cur):
            m = FNH.search(l)
            if m and not LOOP.match(l):
                cfn.setdefault(m.group(1), i)
        nb, nc = {}, {}
        for f, k in bl.values():
            nb[f] = nb.get(f, 0) + 1
        for f, k in cl.values():
            nc[f] = nc.get(f, 0) + 1
        for p, ts in groups:
            prev, nxt = p - 1, p
            if nxt < len(base) and base[nxt] == "{" and prev >= 0:
                m = FNH.search(base[prev])
                if m and not LOOP.match(base[prev]):
                    if m.group(1) in cfn and cfn[m.group(1)] + 1 < len(cur):
                        before[cfn[m.group(1)] + 1].append((0, ts))
                    else:
                        lost.append(("contract", ts))
                    continue
                if prev in bl:
                    f, k = bl[prev]
                    tgt = None
                    if nb.get(f) == nc.get(f):
                        tgt = [i for i, x in cl.items() if x == (f, k)][0]
                    elif prev in match and match[prev] in cl:
                        tgt = match[prev]
                    if tgt is None:
                        lost.append(("loop", ts))
                    else:
                        q = tgt + 1
                        while q < len(cur) and cur[q] != "{":
                            q += 1
                        before[q].append((0, ts))
                    continue
            if nxt in match:
                before[match[nxt]].append((0, ts))
            elif prev in match:
                before[match[prev] + 1].append((-1, ts))
            else:
                lost.append(("hint", ts))
    merged = []
    for i in range(len(cur) + 1):
        for _, ts in sorted(before[i], key=lambda x: x[0]):
            for t in ts:
                merged.append((True, t, None))
        if i < len(cur):
            merged.append((False, cur[i], i))
    # the text with the ghost lines removed is exactly the extracted code
    assert [t for g, t, _ in merged if not g] == cur
    return merged, lost, changed


class Merged:
    """the crate given to Verus"""

    def __init__(self):
        self.text = []        # lines
        self.where = []       # per line: (key, src line or None, ghost bool) or None
        self.changed = set()  # item keys whose code differs from the overlay base
        self.unknown = []     # items with no overlay section
        self.lost = []        # (key, kind, text)
        self.pinned = []      # trusted/dropped items whose text changed
        self.missing = []     # overlay items that are gone
        self.items = {}

    def add(self, text, where=None):
        for l in text.split("\n"):
            self.text.append(l)
            self.where.append(where)


def build(overlay, items, model_files, header, skip_hints=(), only_modules=None):
    m = Merged()
    m.add(header)
    for f in model_files:
        t = open(f).read()
        needs = re.match(r"// needs: (.*)", t)
        if needs and only_modules is not None and not set(needs.group(1).split()) <= set(only_modules):
            continue
        m.add(t, None)
    byKey, modules = {}, []
    for it in items:
        if it["module"] not in modules:
            modules.append(it["module"])
        if it["kind"] == "use":
            continue
        byKey.setdefault(it["key"], it)
    tree = [x for x in modules]
    for g in overlay.ghost:
        if g not in tree:
            tree.append(g)
    if only_modules is not None:
        tree = [t for t in tree if t in only_modules]
    m.missing = [k for k in overlay.order if k not in byKey and (only_modules is None or overlay.items[k]["module"] in only_modules)]
    seen = {}
    top = [t for t in tree if "::" not in t]

    def emit(mod):
        if mod != "lib":
            m.add("pub mod %s {" % mod.split("::")[-1])
        for l in overlay.ghost.get(mod, []):
            m.add(l, ("ghost " + mod, None, True))
        for it in items:
            if it["module"] != mod or it["kind"] in ("use",):
                continue
            key = it["key"]
            seen[key] = seen.get(key, 0) + 1
            o = overlay.items.get(key) if seen[key] == 1 else None
            m.items[key] = it
            if o is None:
                if it["kind"] == "derive":
                    m.add("// derive dropped: " + " ".join(it["lines"]))
                    continue
                m.unknown.append(key)
                for l, s in zip(it["lines"], it["src"]):
                    m.add(l, (key, s, False))
                continue
            if o["kind"] in ("trusted", "drop"):
                base = [norm(l) for l in o["lines"] if l.strip()]
                cur = [norm(l) for l in it["lines"]]
                if (o["kind"] == "trusted" or base) and base != cur:
                    m.pinned.append(key)
                for l in o["repl"] or []:
                    m.add(l, (key, it["start"], True))
                continue
            merged, lost, changed = merge_item(o["lines"], it["lines"])
            if changed:
                m.changed.add(key)
            for kind, ts in lost:
                m.lost.append((key, kind, " ".join(ts)))
            for n, (g, t, i) in enumerate(merged):
                if not g and LOOP.match(t) and t.startswith("for "):
                    # give the iterator a ghost name when the attached invariants mention it
                    q, uses = n + 1, False
                    while q < len(merged) and merged[q][0]:
                        uses = uses or "__it" in merged[q][1]
                        q += 1
                    if uses:
                        t = re.sub(r"^for (.*?) in ", r"for \1 in __it: ", t, count=1)
                if g:
                    if (key, t) in skip_hints:
                        t = "// skipped: " + t
                    m.add("    " + t, (key, None, True))
                else:
                    m.add(t, (key, it["src"][i], False))
        for sub in tree:
            if sub.startswith(mod + "::") and "::" not in sub[len(mod) + 2:]:
                emit(sub)
        if mod != "lib":
            m.add("}")

    for mod in top:
        emit(mod)
    m.add("} // verus!\nfn main() {}")
    return m


OBLIGATION = re.compile(r"not satisfied|assertion failed|underflow/overflow|division by zero|unable to prove|could not prove|type invariant|[Rr]esource limit|rlimit|not met|may be out of bounds|panic|reach")


def run_verus(merged, path, modules=(), threads=8, rlimit=None, extra=(), timeout=600):
    with open(path, "w") as f:
        f.write("\n".join(merged.text) + "\n")
    cmd = ["verus", path, "--error-format=json", "--output-json", "--time-expanded", "--multiple-errors", "8", "--num-threads", str(threads)]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    for x in modules:
        cmd += ["--verify-module", x]
    cmd += list(extra)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        return {"status": "timeout", "errors": [], "cmd": " ".join(cmd), "wall": time.time() - t0, "verified": 0, "failed": 0, "funcs": {}}
    res = {"cmd": " ".join(cmd), "wall": time.time() - t0, "errors": [], "verified": 0, "failed": 0, "funcs": {}, "raw": err, "rc": rc}
    summary = None
    try:
        i = out.index("{")
        summary = json.loads(out[i:])
    except ValueError:
        pass
    if summary:
        vr = summary.get("verification-results", {})
        res["verified"] = vr.get("verified", 0)
        res["failed"] = vr.get("errors", 0)
        res["vr"] = vr
        res["smt_ms"] = summary.get("times-ms", {}).get("smt", {}).get("total")
        for mod in summary.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) or []:
            for fn in mod.get("function-breakdown", []) or []:
                res["funcs"][fn["function"]] = (fn.get("success"), fn.get("time", 0), fn.get("rlimit", 0))
    for line in err.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting due"):
            continue
        spans = []
        for s in d.get("spans", []):
            spans.append((s["line_start"], s.get("label"), s["is_primary"], s["line_end"]))
        for c in d.get("children", []):
            for s in c.get("spans", []):
                spans.append((s["line_start"], s.get("label") or c.get("message"), False, s["line_end"]))
        res["errors"].append({"message": d["message"], "spans": spans, "rendered": d.get("rendered", ""), "code": d.get("code")})
    # an error that is not a failed obligation (a name that does not resolve, a type error, something unsupported) is not a verdict
    foreign = [e for e in res["errors"] if e["code"] or not OBLIGATION.search(e["message"])]
    if summary is None or res.get("vr", {}).get("encountered-vir-error") or foreign or (res["errors"] and not res["verified"]):
        res["status"] = "rejected"
        res["errors"] = foreign or res["errors"]
    elif res["failed"] or res["errors"]:
        res["status"] = "failed"
    else:
        res["status"] = "ok"
    return res
