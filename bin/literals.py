"""the integer literals of the source: new ones become hints for the search"""
import collections, glob, json, os, re, sys


def literals(repo):
    """how often each integer literal (and narrow integer type) occurs in the source"""
    n = collections.Counter()
    for p in sorted(glob.glob(os.path.join(repo, "rstar", "src", "**", "*.rs"), recursive=True)):
        t = open(p, errors="replace").read()
        t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)
        t = re.sub(r'"(?:\\.|[^"\\])*"', " ", t, flags=re.S)
        t = t.split("#[cfg(test)]\nmod ")[0]
        for a, b in re.findall(r"(?<![\w.])(\d+)\s*<<\s*(\d+)", t): n[int(a) << min(int(b), 62)] += 1
        for x in re.findall(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)", t): n[int(x.replace("_", "") or "0", 16 if x.startswith("0x") else 10)] += 1
        for ty, v in (("i8", 127), ("u8", 255), ("u16", 65535), ("i16", 32767), ("u32", 32), ("u64", 64), ("u128", 128)): n[v] += len(re.findall(r"\b%s\b" % ty, t))
    return n


if __name__ == "__main__":
    json.dump({str(k): v for k, v in sorted(literals("/repo").items())}, open(sys.argv[1], "w"))
