#!/usr/bin/env python3
"""Small random changes to the files a property is anchored in, each run against that property's check.

usage: mutate.py CLONE OUT N SEED PROP...     (CLONE: a scratch clone of /repo, reset after every change)
Survivors are either equivalent changes or gaps to look at; the list goes to OUT."""
import json, os, random, re, subprocess, sys, hashlib
clone, out, num, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
props = {json.loads(l)["id"]: json.loads(l) for l in open("/verif/properties.jsonl")}
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=>])<(?![<=])\s", "<= "), (r"(?<![\->=])>(?![>=])\s", ">= "), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\+\+", "--"), (r"--", "++"), (r"\+=", "-="), (r"-=", "+="), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\bbegin\(\)", "end()"), (r"!(?=[\w(])", ""), (r"\.size\(\)", ".size() - 1"), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
       (r"\bbreak;", ";"), (r"\breturn (\w+);", r"return !\1;"), (r"\[i\]", "[0]"), (r"\b0\.5\b", "0.45"), (r"\bi\b", "(i+1)")]
def strip(src):
    src = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group()), src, flags=re.S)
    return re.sub(r"//[^\n]*", lambda m: " " * len(m.group()), src)
def candidates(f):
    s = open(f, encoding="latin-1", newline="").read(); t = strip(s); res = []; pos = 0
    for line in t.split("\n"):
        L = line.strip()
        skip = not L or L.startswith("#") or "std::cout" in L or "std::cerr" in L or "eo::log" in L or "template" in L or "include" in L or "className" in L or L.startswith("using") or "operator<" in L or "throw " in L or "virtual ~" in L or L.startswith("friend") or "ostream" in L
        if not skip:
            for pat, rep in OPS:
                for m in re.finditer(pat, line):
                    if pat.startswith("(?<!") and ("<" in rep or ">" in rep) and not re.search(r"\b(if|while|for|return|\?)|[=?]", line): continue
                    res.append((pos + m.start(), pos + m.end(), m.expand(rep), L))
            if re.match(r"^[\w.\->\[\]:() ]+\([^;{}]*\);$", L) and not L.startswith(("return", "throw", "delete", "typedef")) and re.match(r"^(\w+(\.|->)|\w+\()", L):
                a = pos + len(line) - len(line.lstrip()); res.append((a, a + len(L), ";", L))
            if re.match(r"^[\w.\->\[\]*() ]+ [-+*]?= [^;{}]*;$", L) and len(re.findall(r"\w+ \w+ =", L)) == 0:
                a = pos + len(line) - len(line.lstrip()); res.append((a, a + len(L), ";", L))
        pos += len(line) + 1
    return s, res
log = open(out, "a")
for p in sys.argv[5:]:
    rnd = random.Random(f"{seed}{p}")
    files = sorted(set(props[p]["anchors"]["files"]) | {m["where"] for m in props[p]["anchors"]["mechanism"]})
    ff = []
    for a in files:
        f = os.path.join(clone, a)
        if os.path.isdir(f): ff += [os.path.join(f, g) for g in os.listdir(f) if g.endswith((".h", ".cpp"))]
        elif os.path.isfile(f): ff.append(f)
    done = 0; tries = 0; seen = set()
    while done < num and tries < num * 6:
        tries += 1
        f = rnd.choice(ff); s, c = candidates(f)
        if not c: continue
        a, b, rep, line = rnd.choice(c)
        if (f, a, rep) in seen: continue
        seen.add((f, a, rep))
        new = s[:a] + rep + s[b:]
        open(f, "w", encoding="latin-1", newline="").write(new)
        r = subprocess.run(["nice", "timeout", "900", "./check", p], cwd="/verif", env=dict(os.environ, VERIF_REPO=clone, VF_CCACHE="1", VF_REPLAY=f"/tmp/mutreplay-{os.getpid()}"), capture_output=True, text=True)
        open(f, "w", encoding="latin-1", newline="").write(s)
        res = "killed" if r.returncode == 1 and "VIOLATION" in r.stdout else "survived" if r.returncode == 0 else "nobuild" if "compile failed" in r.stdout + r.stderr or "link failed" in r.stdout + r.stderr else f"rc{r.returncode}"
        if res != "nobuild": done += 1
        ln = s[:a].count("\n") + 1
        log.write(f"{res} {p} {f[len(clone)+1:]}:{ln}  `{line}`  => {s[a:b]!r} -> {rep!r}\n"); log.flush()
