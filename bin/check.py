#!/usr/bin/env python3
"""Decide one property: extract the current source, discharge its contracts with
Verus, and look for a failing input on the real crate.   usage: check.py C05"""
import collections, json, os, re, shutil, subprocess, sys, time
from literals import literals

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RSTAR_REPO", "/repo")
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
WORK = os.path.join(VERIF, ".work", PROP)
T0 = time.time()
CFG = json.load(open(os.path.join(VERIF, "vx", "props.json")))
ME = CFG["properties"][PROP]
GENUINE = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
           "decreases not satisfied", "possible arithmetic", "possible division by zero", "possible bit shift", "recommendation",
           "unreachable", "unable to prove post-condition of closure", "could not prove termination", "loop invariant not satisfied")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")
ENV.pop("RUSTFLAGS", None); ENV.pop("CARGO_TARGET_DIR", None)
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"


def say(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def run(cmd, timeout, **k):
    """-> (rc, stdout, stderr); rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **k)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, e = p.communicate()
        return None, o, e


def fail(msg):
    say("CHECK ERROR:", msg)
    sys.exit(2)


# ---------------------------------------------------------------- building
def build_extractor():
    rc, o, e = run(["cargo", "build", "--release", "--offline"], 600, cwd=os.path.join(VERIF, "vx", "extract"), env=ENV)
    if rc != 0: fail("extractor does not build\n" + e[-2000:])


def start_native():
    return subprocess.Popen(["cargo", "build", "--release", "--offline", "--features", PROP, "--target-dir", os.path.join(VERIF, "native", "target")],
                            cwd=os.path.join(VERIF, "native"), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def finish_native(p):
    try: o, _ = p.communicate(timeout=700)
    except subprocess.TimeoutExpired:
        p.kill(); fail("building the search crate timed out")
    if p.returncode != 0: fail("the search crate does not build against the current source\n" + o[-3000:])
    exe = os.path.join(WORK, "rsearch")
    shutil.copy2(os.path.join(VERIF, "native", "target", "release", "rsearch"), exe)
    return exe


# ------------------------------------------------------------------- Verus
class Proof:
    pass


def enclosing(lines, n):
    """the item id (or lemma) a line of the generated file belongs to"""
    for i in range(max(n - 1, 0), min(n + 30, len(lines))):  # a span in the signature: the marker comes right after it
        m = re.match(r"\s*// @fn (.*)$", lines[i])
        if m: return m.group(1)
        if "{" in lines[i] or "}" in lines[i] or lines[i].rstrip().endswith(";"): break
    for i in range(n - 1, -1, -1):
        m = re.match(r"\s*// @fn (.*)$", lines[i])
        if m: return m.group(1)
        m = re.match(r"\s*(?:pub(?:\([a-z]+\))? )?(?:broadcast |open |closed |uninterp )*(?:proof|axiom) fn (\w+)", lines[i])
        if m: return "lemma " + m.group(1)
    return "?"


def extract(out, aside=()):
    rep = os.path.join(WORK, "vx.json")
    more = ["--aside", "\n".join(sorted(aside))] if aside else []
    if ME.get("expand"):
        # the point types are written with macros: rustc expands them
        exp = os.path.join(WORK, "expanded.rs")
        rc, o, e = run(["cargo", "rustc", "--offline", "--lib", "--features", "mint", "--target-dir", os.path.join(WORK, "exp"), "--", "-Zunpretty=expanded"], 300,
                       cwd=os.path.join(REPO, "rstar"), env=dict(ENV, RUSTC_BOOTSTRAP="1"))
        if rc != 0: return None, "macro expansion: " + (e.strip().splitlines() or ["?"])[-1]
        open(exp, "w").write(o)
        more += ["--more", os.path.join(VERIF, "vx", ME["expand"]), "--expanded", exp]
    rc, o, e = run([os.path.join(VERIF, "vx", "extract", "target", "release", "vx-extract"), "--src", os.path.join(REPO, "rstar", "src"),
                    "--contracts", os.path.join(VERIF, "vx", "contracts"), "--prelude", os.path.join(VERIF, "vx", "prelude"), "--out", out, "--report", rep, "--names", os.path.join(VERIF, "vx", "names.json")] + more, 60)
    if rc != 0: return None, "extractor: " + (e.strip().splitlines() or ["?"])[-1]
    return json.load(open(rep)), None


def verus(path, extra, timeout):
    cmd = ["verus", "--crate-type", "lib", path, "--multiple-errors", "10", "--error-format=json", "--output-json", "--time-expanded", "--num-threads", "8"] + extra
    t = time.time()
    rc, o, e = run(cmd, timeout, cwd=WORK)
    r = {"rc": rc, "wall": time.time() - t, "errors": [], "json": None, "cmd": " ".join(cmd)}
    for l in e.splitlines():
        if not l.startswith("{"): continue
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("level") == "error" and not d["message"].startswith("aborting due to"): r["errors"].append(d)
    try: r["json"] = json.loads(o[o.index("{"):])
    except ValueError: pass
    r["raw"] = e
    return r


def breakdown(j):
    fs = []
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            fs.append({"name": f["function"].split("::", 1)[1], "mode": f.get("mode:", f.get("mode", "")), "ms": f["time-micros"] / 1000, "ok": f["success"]})
    return fs


def relevant_fn(name):
    return any(re.search(p, name) for p in ME["functions"]) and not any(re.search(p, name) for p in ME.get("skip", []))


def relevant_item(i):
    return any(re.search(p, i) for p in ME["items"]) and not any(re.search(p, i) for p in ME.get("skip", []))


def classify(err, lines):
    """one Verus diagnostic -> dict(kind, item, text, only)"""
    msg = err["message"]
    genuine = any(g in msg for g in GENUINE)
    item, only, text = "?", None, msg
    prim = [s for s in err["spans"] if s["is_primary"]] or err["spans"]
    for s in err["spans"]:
        l = lines[s["line_start"] - 1] if 0 < s["line_start"] <= len(lines) else ""
        m = re.search(r"// @only ([C0-9 ]+)", l)
        if m: only = m.group(1).split()
    if prim:
        s = prim[0]
        # a failed precondition is charged to the caller: the primary span is the call
        text = "%s: %s" % (msg, " ".join(t["text"].strip() for t in s["text"])[:300])
        item = enclosing(lines, s["line_start"])
        lab = [x["label"] for x in err["spans"] if x["label"]]
        text += " [%s]" % "; ".join(lab[:3])
        for x in err["spans"]:
            if not x["is_primary"] and x["text"]: text += " | " + x["text"][0]["text"].strip()[:200]
    said = [s for s in err["spans"] if s["label"] and "failed" in s["label"]] or prim
    clause = " ".join(t["text"][t["highlight_start"] - 1:t["highlight_end"] - 1] if len(s["text"]) == 1 else t["text"] for s in said for t in s["text"])
    return {"genuine": genuine, "item": item, "only": only, "text": text, "rendered": err.get("rendered", ""), "clause": clause}


def category(clause):
    """what a failed clause of the insertion contracts speaks about"""
    if re.search(r"fill::<", clause): return "fill"
    contents = re.search(r"elems|_count\(|to_multiset|\bsize\b", clause)
    shape = re.search(r"_wf\(|n_ok\(|s_ok\(|height|env|tight", clause)
    if contents and not shape: return "contents"
    if shape and not contents: return "shape"
    return "other"


def prove():
    p = Proof()
    p.state, p.why, p.failures, p.fns, p.cmd, p.wall, p.report, p.trusted, p.vacuity, p.aside = "undecided", [], [], [], "", 0.0, None, [], None, set()
    if not ME.get("functions"):
        p.state = "none"
        return p
    vx = os.path.join(WORK, "vx.rs")
    rep, err = extract(vx)
    if rep is None:
        p.why.append(err); return p
    p.report = rep
    text = open(vx).read()
    lines = text.splitlines()
    p.trusted = trusted(lines)
    lost = [x for x in rep["lost"] if (relevant_item(item_of_lost(x, rep)) if item_of_lost(x, rep) != "?" else relevant_file(x))]
    gone = list(lost)
    # a place for a hint that is gone does no harm when every obligation is accepted without it
    lost = [x for x in lost if not re.search(r": (anchor |no tail expression|loop \d+ not found|\d+ loops, contract covers|loops are |closure \d+ not found|\d+ closures, contract covers)", str(x)) or item_of_lost(x, rep) == "?"]
    unknown = [x for x in rep["unknown"] if relevant_file(x) and x not in CFG["unknown_ok"]]
    flags = ME.get("verus_flags", [])
    # functions whose loops (or an annotated place in them) are no longer the ones the annotations were
    # written against: an obligation that fails there is the annotations' failure, not yet the code's
    base = json.load(open(os.path.join(VERIF, "vx", "shapes.json")))
    redrawn = {i["id"] for i in rep["items"] if i.get("shape", "") != base.get(i["id"], "") or i.get("renamed")} | {item_of_lost(x, rep) for x in rep["lost"]}
    def left(most):  # the verifier's share of the time a check may take
        return max(30, min(most, (620 if TIER != "thorough" else 6000) - (time.time() - T0)))
    r = verus(vx, ["--rlimit", "40"] + flags, left(400))
    p.cmd, p.wall = r["cmd"].replace(WORK + "/", ""), r["wall"]
    # code outside the verifier's language in one function: that function is undecided, the others are not
    for _ in range(4):
        if r["rc"] is None or (r["json"] and "verification-results" in r["json"] and not r["json"]["verification-results"].get("encountered-vir-error") and breakdown(r["json"])): break
        who = {enclosing(lines, s["line_start"]) for e in r["errors"] for s in e["spans"] if s["is_primary"]} - {"?"}
        who = {w for w in who if not w.startswith("lemma ")}
        if not who - p.aside: break
        p.aside |= who
        rep2, err = extract(vx, p.aside)
        if rep2 is None: break
        lines = open(vx).read().splitlines()
        if not put_aside(lines, p.aside): break
        open(vx, "w").write("\n".join(lines) + "\n")
        r = verus(vx, ["--rlimit", "40"] + flags, left(400))
        p.wall += r["wall"]
    if r["rc"] is None:
        p.why.append("verifier timed out"); return p
    if r["json"] is None or "verification-results" not in r["json"] or r["json"]["verification-results"].get("encountered-vir-error") or not breakdown(r["json"]):
        p.why.append("the verifier does not accept the extracted source: " + "; ".join(e["message"] for e in r["errors"][:3])[:600])
        p.raw = r["raw"][-4000:]
        return p
    def mine(e): return (relevant_item(e["item"]) or e["item"].startswith("lemma ") or e["item"] == "?") and (e["only"] is None or PROP in e["only"])
    p.fns = [f for f in breakdown(r["json"]) if relevant_fn(f["name"])]
    bad = [e for e in (classify(e, lines) for e in r["errors"]) if mine(e)]
    if bad:
        # an unlucky query is not a failed obligation: again, with more resources
        r2 = verus(vx, ["--rlimit", "120", "-V", "spinoff-all"] + flags, left(300))
        if r2["json"] is not None and "verification-results" in r2["json"]:
            p.wall += r2["wall"]
            errs2 = [classify(e, lines) for e in r2["errors"]]
            keep = {e["text"] for e in errs2}
            # given up on the first time, refuted the second: what the second run says counts
            gave_up = {b["item"] for b in bad if not b["genuine"]}
            bad = [e for e in bad if e["text"] in keep] + [e for e in errs2 if e["genuine"] and e["item"] in gave_up and mine(e)]
            if not bad: p.fns = [f for f in breakdown(r2["json"]) if relevant_fn(f["name"])]
    claims = ME.get("claims")
    dep = [e for e in bad if e["genuine"] and claims and e["item"].startswith(("algorithm/", "node.rs", "rtree.rs")) and category(e["clause"]) not in claims]
    stale = [e for e in bad if e["item"] in redrawn and e not in dep]
    hard = [e for e in bad if not e["genuine"] and e not in stale]
    bad = [e for e in bad if e["genuine"] and e not in dep and e not in stale]
    p.failures = bad
    aside = sorted(w for w in p.aside if relevant_item(w))
    if dep: p.why.append("rests on obligations that fail: " + "; ".join(e["item"] + ": " + e["clause"][:120] for e in dep[:4]))
    if stale or hard or aside: lost = [x for x in gone if x not in lost] + lost
    if stale: p.why.append("the loops were rewritten, the annotations do not carry over: " + "; ".join(sorted({e["item"] for e in stale})))
    if lost: p.why.append("source shapes the extractor no longer finds: " + ", ".join(map(str, lost[:5])))
    if unknown: p.why.append("new items without a contract: " + ", ".join(unknown[:5]))
    if aside: p.why.append("outside the verifier's language: " + ", ".join(aside))
    if hard: p.why.append("the verifier gave up: " + "; ".join(e["text"][:200] for e in hard[:3]))
    if unknown: p.failures, p.state = [] , "undecided"
    elif not bad and (lost or aside or dep or stale or hard): p.state = "undecided"
    elif bad: p.state = "failed"
    elif not p.fns: p.why.append("no obligations were generated")
    else:
        c, p.vacuity = canaries(vx, flags)
        if c: p.why.append(c)
        else: p.state = "proved"
    return p


def item_of_lost(x, rep):
    ids = [i["id"] for i in rep["items"] if str(x).startswith(i["id"] + ":")]
    return max(ids, key=len) if ids else "?"


def put_aside(lines, who):
    """makes the functions external to the verifier, in place; False when one is not found"""
    ok = True
    for w in sorted(who):
        n = next((i for i, l in enumerate(lines) if re.match(r"\s*// @fn %s$" % re.escape(w), l)), None)
        while n is not None and n > 0 and not re.match(r"\s*(?:pub(?:\([a-z]+\))? )?fn \w", lines[n]): n -= 1
        if not n or "external_body" in lines[n]: ok = False; continue
        lines[n] = "#[verifier::external_body] " + lines[n].lstrip()
    return ok


def relevant_file(x):
    x = x if isinstance(x, str) else x[0]
    return any(re.search(f, x) for f in ME["files"])


def canaries(vx, flags):
    """thorough tier: assert(false) at the entry and at the normal exit of every function and
    lemma has to be refuted, or the contracts (or the assumptions) contradict each other"""
    if TIER != "thorough": return None, None
    rc, o, e = run([sys.executable, os.path.join(VERIF, "bin", "vacuity.py"), vx] + flags, 900)
    try: res = json.loads(o.strip().splitlines()[-1])
    except (ValueError, IndexError): return "the vacuity check gave no answer", None
    bad = [k for k in ("entry", "exit") if res[k]["points"] == 0 or res[k]["other"] or len(res[k]["not_refuted"]) > (res[k]["gave_up"] if k == "exit" else 0)]
    return ("vacuity check: " + json.dumps({k: res[k] for k in bad})[:500] if bad else None), res


def trusted(lines):
    out, cur = [], ""
    for i, l in enumerate(lines):
        m = re.match(r"\s*// @fn (.*)$", l)
        if m: cur = m.group(1)
        if re.search(r"external_body|\bassume\(|\badmit\(|\baxiom fn\b|assume_specification|uninterp spec fn", l) and not l.strip().startswith("//"):
            for k in range(i, min(i + 4, len(lines))):
                m = re.search(r"\b(?:fn|struct)\s+(\w+)", lines[k])
                if m:
                    kind = "axiom" if "axiom fn" in l else "uninterpreted" if "uninterp" in l else "assumed contract"
                    out.append("%s: %s" % (kind, m.group(1))); break
            else: out.append("%s in %s" % (l.strip()[:60], cur))
    return sorted(set(out))


# -------------------------------------------------------------- the search
def hints():
    old = collections.Counter({int(k): v for k, v in json.load(open(os.path.join(VERIF, "vx", "literals.json"))).items()})
    return sorted(v for v in literals(REPO) - old if 3 <= v < 1 << 40)[:12]


def search(exe, ms, seed):
    out = os.path.join(WORK, "stats.json")
    if os.path.exists(out): os.remove(out)
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    hs = ["--hints", ",".join(map(str, hints()))]
    cmd = [exe, "--prop", PROP, "--seed", str(seed), "--ms", str(ms), "--out", out, "--replay-dir", WORK] + hs
    rc, o, e = run(cmd, ms / 1000 + 90, preexec_fn=lim, cwd=WORK)
    st = json.load(open(out)) if os.path.exists(out) else {"cases": 0, "evaluations": 0, "distinct_nontrivial": 0, "samples": []}
    if rc == 0: return None, st
    m = re.search(r"^REPLAY (.*)$", o, re.M)
    if rc == 1 and m: return {"replay": m.group(1), "text": o.strip().splitlines()[-1][:600]}, st
    # aborted (stack overflow, out of memory): find the case it was running
    mark = os.path.join(WORK, "running-" + PROP)
    if rc is not None and os.path.exists(mark):
        data = open(mark, "rb").read()
        for i in range(0, len(data) - 7, 8):
            case = int.from_bytes(data[i:i + 8], "little")
            rc2, o2, e2 = run([exe, "--prop", PROP, "--seed", str(seed), "--case", str(case)] + hs, 100, preexec_fn=lim, cwd=WORK)
            if rc2 not in (0, None):
                path = os.path.join(WORK, "%s-case%d.txt" % (PROP, case))
                open(path, "w").write("prop = %s\nseed = %d\nhints = %s\ncase = %d\n---\n%s\nVIOLATED %s: the run ends with status %s\n%s\n" % (PROP, seed, hs[1], case, o2[-3000:], PROP, rc2, e2[-800:]))
                return {"replay": path, "text": "the process is aborted (status %s)" % rc2}, st
    say("search ended with status", rc, e[-300:])
    return None, st


# --------------------------------------------------------------------- main
def main():
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    nat = start_native()
    p = Proof(); p.state = "none"; p.fns = []; p.failures = []; p.why = []; p.wall = 0; p.trusted = []; p.cmd = ""; p.report = None; p.vacuity = None
    if ME.get("functions"):
        build_extractor()
        p = prove()
        say("contracts:", p.state, "%d obligations in scope," % len(p.fns), "%.1fs of Verus" % p.wall)
        for w in p.why: say("  not decided by proof:", w)
        for f in p.failures: say("  failed obligation:", f["item"], "|", f["text"][:300])
    exe = finish_native(nat)
    ms = {"proved": 6000, "none": 15000, "failed": 90000, "undecided": 120000}[p.state]
    if TIER == "thorough": ms *= 12
    ms = int(ms * ME.get("scale", 1))
    hit, st = search(exe, ms, SEED)
    say("search:", st["cases"], "cases,", "a failing input" if hit else "no failing input")
    code = 0
    if hit:
        say(hit["text"])
        if p.failures:
            with open(hit["replay"], "a") as f:
                f.write("\nfailed obligations:\n" + "\n".join(x["item"] + ": " + x["text"] for x in p.failures) + "\n")
        print("VIOLATION property=%s replay=%s" % (PROP, hit["replay"]), flush=True)
        code = 1
    elif p.state == "failed":
        path = os.path.join(WORK, "failed-obligation.txt")
        with open(path, "w") as f:
            f.write("property %s\ncommand: %s\n(the generated source is vx.rs beside this file)\n\n" % (PROP, p.cmd))
            for x in p.failures: f.write("obligation of %s\n%s\n%s\n\n" % (x["item"], x["text"], x["rendered"]))
            f.write("searched %s cases on the real crate (seed %d) without finding a failing input\n" % (st["cases"], SEED))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, path), flush=True)
        code = 1
    else:
        known()
    write_evidence(p, st, code)
    sys.exit(code)


def known():
    path = os.path.join(VERIF, "known-findings.txt")
    for l in open(path) if os.path.exists(path) else []:
        m = re.match(r"finding: property=(\S+) (.*)$", l.strip())
        if m and m.group(1) == PROP: print("KNOWN-FINDING: property=%s %s" % (PROP, m.group(2)), flush=True)


def write_evidence(p, st, code):
    done = [f for f in p.fns if f["ok"]]
    cov = {
        "evaluations": st["evaluations"], "distinct_nontrivial": st["distinct_nontrivial"],
        "rule": ME.get("rule", "random histories on the real crate against a brute-force model; non-trivial: the tree under test is not empty"),
        "samples": st["samples"] or ["(none kept)"],
    }
    if ME.get("functions"):
        cov.update({
            "obligations": len(p.fns), "discharged": len(done) if p.state in ("proved", "failed") else 0,
            "checker_cmd": p.cmd or "verus", "trusted_base": p.trusted or ["none found"],
            "proof_state": p.state, "undecided_because": p.why, "back_end": "Verus (Z3)", "solver_ms": round(sum(f["ms"] for f in p.fns)),
            "functions_under_contract": sorted(f["name"] for f in p.fns if f["mode"] == "exec"),
            "lemmas": sorted(f["name"] for f in p.fns if f["mode"] == "proof"),
            "vacuity": p.vacuity or "assert(false) is put at every entry and exit, and must be refuted, in the thorough tier only",
            "extraction_rules": (p.report or {}).get("rules", {}), "dropped_by_extraction": [d[0] + ": " + d[1] for d in (p.report or {}).get("dropped", []) if relevant_file(d)],
            "bounded_part": ME.get("bounded", ""),
        })
    else:
        cov["explanation"] = ME.get("bounded", "bounded search only")
    ev = {"property": PROP, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": ME["level"], "coverage": cov,
          "assumptions": ME.get("assumptions", []) + CFG["assumptions"], "wall_s": round(time.time() - T0, 2), "violations": 1 if code else 0}
    with open(os.path.join(VERIF, "evidence", PROP + ".json"), "w") as f: json.dump(ev, f, indent=1)


main()
