#!/usr/bin/env python3
"""Vacuity: every contracted function and lemma must FAIL once assert(false) is put
(a) at its entry, (b) at its normal exit.   usage: vacuity.py GENERATED.rs [verus flags]"""
import re, sys, json, subprocess
import os
SRC = sys.argv[1]; FLAGS = sys.argv[2:]
DIR = os.path.dirname(os.path.abspath(SRC))
L = open(SRC).read().split("\n")

SKIP = set()

def is_ext(n):
    """line n opens the body of an external_body function"""
    while n and (L[n].lstrip().startswith("//") or not re.search(r"\bfn \w", L[n])): n -= 1
    return "external_body" in L[n] or "external_body" in L[n - 1]

def inject(exit_):
    out, marks, pend, kind, i = [], {}, None, None, 0
    ends = {}
    for n, l in enumerate(L):
        m = re.match(r"\s*// @fn (.*)$", l)
        if m: pend, kind = m.group(1), "exec"
        m = re.match(r"\s*(?:pub(?:\([a-z]+\))? )?(?:broadcast )?proof fn (\w+)", l)
        if m: pend, kind = "lemma " + m.group(1), "proof"
        if l.strip().endswith(";") and not l.strip().startswith("//"): pend = None
        m = re.match(r"\s*(?:pub(?:\([a-z]+\))? )?(?:broadcast )?proof fn .*\}\s*$", l)
        if m and pend in SKIP and exit_: pend = None; out.append(l); continue
        if m and l.count("{") == l.count("}"):
            d, k = 0, len(l) - 1
            while True:
                d += (l[k] == "}") - (l[k] == "{")
                if d == 0: break
                k -= 1
            body = l[k + 1:l.rindex("}")]
            out.append(l[:k + 1] + (body if exit_ else "")); out.append("; assert(false);" if exit_ else "assert(false);"); marks[len(out)] = pend
            out.append(("" if exit_ else body) + "}"); pend = None
            continue
        if n in ends:
            who, k = ends.pop(n)
            if k == "proof": out.append("; assert(false);")
            else: out.append("}; proof { assert(false); } vx_r")
            marks[len(out)] = who
        out.append(l)
        if pend and n and "external_body" in " ".join(L[max(n - 40, 0):n]) and is_ext(n): pend = None
        if pend and re.match(r"^\s*\{$", l):
            if exit_ and pend in SKIP: pend = None; continue
            if not exit_:
                out.append("assert(false);" if kind == "proof" else "proof { assert(false); }")
                marks[len(out)] = pend
            else:
                d = 0
                for e in range(n, len(L)):
                    c = re.sub(r"//.*|\"(\\\\.|[^\"])*\"", "", L[e])
                    d += c.count("{") - c.count("}")
                    if d == 0: break
                if L[e].strip() != "}": pend = None; continue
                ends[e] = (pend, kind)
                if kind == "exec": out.append("let vx_r = {")
            pend = None
        elif "{" in l and not l.strip().startswith("//"): pend = pend if re.match(r"\s*(requires|ensures|decreases|&&&|\|\|\||match|if|,|\(|[\w!])", l) and kind else None
    return out, marks

def retry():
    """functions whose body cannot be wrapped in a block (type inference): left out"""
    for _ in range(6):
        out, marks = inject(1)
        f = DIR + "/vxc1.rs"; open(f, "w").write("\n".join(out))
        p = subprocess.run(["verus", "--crate-type", "lib", f, "--no-verify", "--error-format=json"], capture_output=True, text=True)
        new = set()
        for l in p.stderr.splitlines():
            if l.startswith("{"):
                d = json.loads(l)
                if d["level"] == "error":
                    for s in d["spans"]:
                        if s["is_primary"]: new.add(marks[min(k for k in marks if k >= s["line_start"])])
        if not new: return
        SKIP.update(new)

def go(exit_):
    if exit_: retry()
    out, marks = inject(exit_)
    f = DIR + "/vxc%d.rs" % exit_
    open(f, "w").write("\n".join(out))
    p = subprocess.run(["verus", "--crate-type", "lib", f, "--rlimit", "20", "--multiple-errors", "3", "--error-format=json", "--output-json", "--num-threads", "8"] + FLAGS, capture_output=True, text=True)
    got, oth = set(), []
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            d = json.loads(l)
            if d["level"] != "error": continue
            hit = [s["line_start"] for s in d["spans"] if s["is_primary"] and s["line_start"] in marks]
            got.update(hit)
            if not hit: oth.append((d["message"], [s["line_start"] for s in d["spans"]]))
    return marks, got, oth
if __name__ == "__main__":
    res = {}
    for e in (0, 1):
        marks, got, oth = go(e)
        res[("entry", "exit")[e]] = {"points": len(marks), "refuted": len(got), "not_refuted": [marks[k] for k in marks if k not in got],
                                     "gave_up": sum("rlimit" in o[0] for o in oth), "other": [o[0][:200] for o in oth if "aborting" not in o[0] and "rlimit" not in o[0]][:5]}
    res["exit"]["left_out"] = sorted(SKIP)
    print(json.dumps(res))
