#!/usr/bin/env python3
"""tools/mutate.py WORKER WORKERS SEED N FILE...: makes N small changes to copies of /repo and runs the
quick checks on each until one reports it. Prints the changes that no check reports (to look for gaps;
many of them change no behaviour). Works in /tmp/mut/WORKER; run from a clone of /verif."""
import os, random, re, shutil, subprocess, sys, time
import json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
w, ws, seed, n = map(int, sys.argv[1:5])
files = sys.argv[5:]
D = f"/tmp/mut/{w}"
os.makedirs(D, exist_ok=True)
R = f"{D}/repo"
COST = dict(P06=.1, P07=9, P08=9, P10=20, P30=30, P31=10, P01=8, P09=10, P25=20, P04=15, P11=20, P13=25, P28=25, P03=15, P02=17, P05=20, P12=45, P14=30, P15=40, P29=15, P26=30, P22=130, P20=85, P23=90, P32=30, P18=55, P16=165, P19=170, P21=80, P27=140, P33=80, P24=200)
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]

def related(f):
    return [p["id"] for p in props if f in json.dumps(p)]

def muts(line):
    """All single changes of a line of code."""
    r = []
    s = line.strip()
    if not s or s.startswith(("//", "#", "*", "/*")) or "absl::StrFormat" in s or s.startswith('"'):
        return r
    def sub(pat, rep):
        for m in re.finditer(pat, line):
            if line[:m.start()].count('"') % 2 or "//" in line[:m.start()]: continue
            new = line[:m.start()] + (rep(m) if callable(rep) else rep) + line[m.end():]
            r.append(new)
    sub(r" <= ", " < "); sub(r" >= ", " > "); sub(r" < ", " <= "); sub(r" > ", " >= ")
    sub(r" == ", " != "); sub(r" != ", " == "); sub(r" && ", " || "); sub(r" \|\| ", " && ")
    sub(r" \+ ", " - "); sub(r" - ", " + "); sub(r" \| ", " & "); sub(r" & ", " | ")
    sub(r"(?<=[\s(!=])!(?=[\w*(])", "")
    sub(r"\btrue\b", "false"); sub(r"\bfalse\b", "true")
    sub(r"(?<![\w.$])(\d+)(?![\w.])", lambda m: str(int(m[1]) + 1) if m[1] == "0" or not m[1].startswith("0") else m[1])
    sub(r"(?<![\w.$])([2-9]|\d\d+)(?![\w.])", lambda m: str(int(m[1]) - 1) if not m[1].startswith("0") else m[1])
    sub(r"\b0x([0-9a-f]+)\b", lambda m: hex(int(m[1], 16) + 1)); sub(r"\b0x([0-9a-f]*[1-9a-f][0-9a-f]*)\b", lambda m: hex(int(m[1], 16) - 1))
    sub(r"\bB_on\b", "B_off"); sub(r"\bB_off\b", "B_on"); sub(r"\bB_unknown\b", "B_off"); sub(r"\bB_original\b", "B_unknown")
    sub(r"\+\+", "--")
    sub(r"MBit", "XBit"); sub(r"XBit", "MBit"); sub(r"CBit", "EBit"); sub(r"EBit", "CBit")
    sub(r"\bT_near\b", "T_long"); sub(r"\bT_word\b", "T_long"); sub(r"\bT_byte\b", "T_word"); sub(r"\bT_long\b", "T_word"); sub(r"\bT_signed_byte\b", "T_byte"); sub(r"\bT_signed_word\b", "T_word"); sub(r"\bT_unknown\b", "T_word")
    sub(r"\bcontinue;", "break;"); sub(r"\bbreak;", "continue;"); sub(r"\bNEXT_STATE", "CURRENT_STATE")
    sub(r"\.begin\(\)", ".end()"); sub(r"lower_bound", "upper_bound"); sub(r"upper_bound", "lower_bound")
    sub(r"AddWrapped", "AddUnwrapped") ; sub(r"\bfirst\b", "second"); sub(r"\bsecond\b", "first")
    if re.match(r"^\s*[\w:>.*\[\]()-]+(\(.*\)| [|&+-]?= .*);\s*$", line) and not s.startswith("return") or re.match(r"^\s*(return|break|continue)\b.*;\s*$", line) or re.match(r"^\s*NSASM_RETURN.*;\s*$", line):
        r.append(re.match(r"\s*", line)[0] + ";\n")
    if re.match(r"^\s*case .*:\s*$", line): r.append("\n")
    if m := re.match(r"^(\s*(?:\} else )?if \()(.*)(\) \{\s*)$", line): r.append(m[1] + "!(" + m[2] + ")" + m[3]); r.append(m[1] + "false && (" + m[2] + ")" + m[3]); r.append(m[1] + "true || (" + m[2] + ")" + m[3])
    return [x for x in r if x != line]

todo = []
for f in files:
    for i, l in enumerate(open(f"/repo/{f}")):
        for m in muts(l): todo.append((f, i, m))
random.Random(seed).shuffle(todo)
todo = todo[w::ws][:n]
print(f"{len(todo)} changes", flush=True)
if os.path.exists(R): shutil.rmtree(R)
subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
killed = {}
for f, i, m in todo:
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    ls = open(f"{R}/{f}").readlines()
    old = ls[i]
    ls[i] = m
    open(f"{R}/{f}", "w").writelines(ls)
    rel = sorted(related(f), key=COST.get)
    order = rel + [p for p in sorted(COST, key=COST.get) if p not in rel]
    if os.environ.get("SHORT"): order = rel
    res = "SURVIVED"
    t = time.time()
    for p in order:
        try:
            r = subprocess.run(["python3", f"{V}/run.py", p, "quick", "--jobs", "4"], env=dict(os.environ, NSASM_REPO=R), capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            res = f"hang {p}"; break
        if r.returncode == 1: res = f"killed {p}"; break
        if r.returncode: res = f"no build ({r.returncode})"; break
    print(f"{res}\t{f}:{i + 1}\t{old.strip()}\t=>\t{m.strip()}\t{time.time() - t:.0f}s", flush=True)
    if res == "SURVIVED" or res.startswith("hang"):
        open(f"/tmp/mut/survivors{w}.tsv", "a").write(f"{res}\t{f}:{i + 1}\t{old.strip()}\t=>\t{m.strip()}\n")
