#!/usr/bin/env python3
"""mutate.py AREA COUNT SEED OUT.jsonl [workers]: random one-place changes of an area's non-test source, each in a scratch
clone under /tmp/mut; those that compile and fail no test that passes without them are run against the area's checks
(VH_CAP seconds each) until one raises a violation. What no check notices is written to OUT.jsonl for a person to read."""
import glob, json, os, random, re, subprocess, sys, threading, queue
area, count, seed, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
W = int(sys.argv[5]) if len(sys.argv) > 5 else 2
CAP = os.environ.get("VH_CAP", "8")
PKG = {"parser": "oni-comb-parser-rs", "crond": "oni-comb-crond-rs", "uri": "oni-comb-uri-rs", "hocon": "oni-comb-hocon-rs", "toys": "toys"}
IDS = {"parser": ["P%02d" % i for i in range(1, 17)], "crond": ["C%02d" % i for i in range(1, 6)], "uri": ["U%02d" % i for i in range(1, 7)],
       "hocon": ["H%02d" % i for i in range(1, 13)], "toys": ["T%02d" % i for i in range(1, 6)]}[area]
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2026-03-10", CARGO_NET_OFFLINE="true", HOME="/root", RUSTFLAGS="-Awarnings")
def sh(cmd, cwd, t=600, **env):
    try:
        p = subprocess.run("ulimit -v 16000000; ulimit -c 0; " + cmd, shell=True, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, executable="/bin/bash")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
SUB = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.is_some\(\)", ".is_none()"),
       (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".len() == 1"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
       (r"\.\.=", ".."), (r"\.rev\(\)", ""), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"), (r"\bif ", "if !"), (r"!(?=[a-z(])", ""), (r"\.attempt\(\)", ""), (r"\.opt\(\)", ".attempt().opt()"),
       (r"of_many0", "of_many1"), (r"of_many1", "of_many0"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.skip\((\d)\)", ".skip(1+\\1)"), (r"\.trim\(\)", ""), (r"\.take\(", ".skip("),
       (r"\.clone\(\)", ".clone().into_iter().rev().collect()"), (r"push_str\(", "insert_str(0, "), (r"\.push\(", ".insert(0, "), (r"Some\((\w+)\) =>", "Some(\\1) if false =>"), (r"\bend\b", "start"), (r"\bstart\b", "end"),
       (r"\bl\b", "r"), (r"\br\b", "l"), (r"\bleft\b", "right"), (r"\bself\.0\b", "self.1"), (r"committed", "!committed"), (r"\.or\(", ".and("), (r"\| ", "* "), (r"\.unwrap_or\(\w+\)", ".unwrap_or_default()"), (r"saturating_sub", "wrapping_sub"),
       (r"\.filter\(", ".skip_while(|_| false).filter(|_| true).filter("), (r"\.find\(", ".rfind("), (r"\.position\(", ".rposition("), (r"starts_with", "ends_with"), (r"ends_with", "starts_with"), (r"Ordering::Less", "Ordering::Equal"),
       (r"\bLess\b", "Greater"), (r"extend\(", "append(&mut "), (r"\.get\(0\)", ".get(1)"), (r"Ok\(true\)", "Ok(false)"), (r"consumed", "0"), (r"length", "0")]
def num(m):
    n = int(m.group(0)); return str(random.choice([n + 1, max(0, n - 1)]))
def candidates():
    c = []
    for f in sorted(glob.glob(f"/repo/{area}/src/**/*.rs", recursive=True)):
        ls = open(f).read().split("\n")
        for i, l in enumerate(ls):
            if "#[cfg(test)]" in l or re.search(r"#\[cfg\(feature.*(vh|verif)", l):
                break
            t = l.strip()
            if not t or t.startswith(("//", "use ", "#", "pub use", "mod ", "pub mod", "*", "fn ", "pub fn ")):
                continue
            for a, b in SUB:
                for m in re.finditer(a, l):
                    n = l[:m.start()] + m.expand(b) + l[m.end():]
                    c.append((f, i, n))
            for m in re.finditer(r"(?<![\w.\"'])\d+(?![\w\"'])", l):
                c.append((f, i, l[:m.start()] + str(int(m.group(0)) + 1) + l[m.end():]))
                if int(m.group(0)) > 0:
                    c.append((f, i, l[:m.start()] + str(int(m.group(0)) - 1) + l[m.end():]))
            for m in re.finditer(r"'([a-zA-Z0-9:;,.+\-_/?#%*=&@!$~])'", l):
                c.append((f, i, l[:m.start()] + "'" + chr(ord(m.group(1)) + 1).replace("'", "(") + "'" + l[m.end():]))
                c.append((f, i, l[:m.start()] + "'\\u{7e9}'" + l[m.end():]))
            if t.endswith(";") and not t.startswith(("let ", "return", "type ", "pub ", "static", "const", "}", ")")):
                c.append((f, i, ""))
            if re.match(r"^\s*(\w|\()[^=]*=> .*,\s*$", l):
                c.append((f, i, ""))
            if re.match(r"^\s*\| [^|]", l) or re.match(r"^\s*\.\w+\(.*\)$", l):
                c.append((f, i, ""))
    return c
def failed(o):
    return {" ".join(l.split()[-2:]) for l in o.splitlines() if l.strip().startswith(("FAIL", "SIGABRT", "TIMEOUT", "SIGSEGV"))}
def tests(base):
    r = sh(f"cargo nextest run -p {PKG[area]} --offline --no-fail-fast --test-threads 4 2>&1", base + "/repo", 120, CARGO_TARGET_DIR=base + "/t1")
    sh(f"pkill -9 -f '^{base}/t1/'", "/tmp")  # a test that loops for ever
    return r
def worker(w, q, lock, stats):
    base = f"/tmp/mut/{area}{w}"
    sh(f"mkdir -p {base} && cd {base} && ([ -d repo ] || git clone -q /repo repo) && (cd repo && git checkout -q -- . && git pull -q) && mkdir -p verif && cp -r /verif/harness /verif/run.sh /verif/known_findings.txt verif/ && sed -i 's#\"/repo/#\"{base}/repo/#' verif/harness/*/Cargo.toml && /bin/rm -rf {base}/verif/harness/toys/gen/src", "/tmp")
    rc, o = tests(base)
    base_fail = failed(o)
    while True:
        try:
            f, i, n = q.get_nowait()
        except queue.Empty:
            return
        p = f.replace("/repo/", base + "/repo/")
        src = open(p).read()
        ls = src.split("\n")
        old = ls[i]
        if old == n:
            continue
        ls[i] = n
        open(p, "w").write("\n".join(ls))
        res, by = None, None
        rc, o = sh(f"cargo build -p {PKG[area]} --offline --tests 2>&1", base + "/repo", 300, CARGO_TARGET_DIR=base + "/t1")
        if rc != 0:
            res = "nocompile"
        else:
            rc, o = tests(base)
            if "Summary" not in o or failed(o) - base_fail:
                res = "tests"
            else:
                ids = IDS[:]
                random.Random(i).shuffle(ids)
                res = "SURVIVED"
                # a short look first, a full one at what is left
                for x, cap in [(x, CAP) for x in ids] + [(x, "60") for x in ids]:
                    rc, o = sh(f"./run.sh {x} --tier quick 2>&1", base + "/verif", 400, VERIF_REPO=base + "/repo", VH_CAP=cap, VH_THREADS=os.environ.get("VH_THREADS", "3"))
                    if "VIOLATION" in o:
                        res, by = "killed", x
                        break
                    if rc not in (0, 1) and "never observed" not in o:
                        res, by = "broke", x + " " + o[-300:]
                        break
        open(p, "w").write(src)
        with lock:
            stats[res] = stats.get(res, 0) + 1
            if res in ("SURVIVED", "broke"):
                open(out, "a").write(json.dumps({"file": f, "line": i + 1, "old": old.strip(), "new": n.strip(), "res": res, "by": by}) + "\n")
            print(stats, res, by or "", f.replace("/repo/", ""), i + 1, flush=True)
def main():
    random.seed(seed)
    c = candidates()
    random.shuffle(c)
    q = queue.Queue()
    for x in c[:count]:
        q.put(x)
    print(len(c), "candidates", flush=True)
    lock, stats = threading.Lock(), {}
    ts = [threading.Thread(target=worker, args=(w, q, lock, stats)) for w in range(W)]
    [t.start() for t in ts]
    [t.join() for t in ts]
main()
