#!/usr/bin/env python3
"""Development aid, used by no check: plants random one-line changes in a scratch copy of /repo and runs the
checks against each, to find what none of them notices.

mutate.py WORKER CORES SEED LOG [file-substring ...]   loops until killed, one line of JSON per change in LOG
"""
import json, os, random, re, shutil, subprocess, sys, time

W, CORES, SEED, LOG = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
ONLY = sys.argv[5:]
BASE = "/tmp/mut/w" + W
REPO, HAR = BASE + "/repo", BASE + "/harness"
SKIP = ("/visual", "b2_timer", "b2_settings", "lib.rs", "mod.rs", "b2_draw.rs")
SWAPS = [(r"_a\b", "_b"), (r"_b\b", "_a"), (r"\.x\b", ".y"), (r"\.y\b", ".x"), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "),
         (r" < ", " > "), (r" > ", " < "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r" == ", " != "), (r" != ", " == "), (r"\bb2_max\b", "b2_min"), (r"\bb2_min\b", "b2_max"), (r"\b0\.5\b", "1.0"), (r"\b2\.0\b", "1.0"), (r"\b1\.0\b", "0.0"), (r"\b0\.0\b", "1.0"),
         (r"\blower", "upper"), (r"\bupper", "lower"), (r"\bindex_a\b", "index_b"), (r"\bc0\b", "c"), (r"\.a0\b", ".a"), (r" \* ", " / "), (r" / ", " * "), (r"= -", "= "), (r"\bi1\b", "i2"), (r"\bi2\b", "i1"),
         (r"_inv_mass_a\b", "_inv_mass_b"), (r"inv_i_a\b", "inv_i_b"), (r"\bv1\b", "v2"), (r"\bv2\b", "v1"), (r"lower_impulse", "upper_impulse"), (r"\.insert\(", ".remove("), (r"b2_mul_t_", "b2_mul_"), (r"b2_mul_", "b2_mul_t_"), (r"\b1\b", "0"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\.abs\(\)", ""), (r"b2_abs\(", "("),
         (r"child_index_a", "child_index_b"), (r"linear", "angular"), (r"angular", "linear"), (r"\bcontinue;", ""), (r"\breturn;", ""), (r"\bbreak;", ""), (r"\bmin\(", "max("), (r"\bmax\(", "min(")]

def lines_of(path):
    out, depth = [], None
    test = False
    for i, l in enumerate(open(path).read().split("\n")):
        s = l.strip()
        if s.startswith("#[cfg(test)]"): test = True
        if test or not s or s.startswith(("//", "/*", "*", "use ", "pub use", "mod ", "pub mod", "#[", "impl", "pub struct", "b2_assert", "debug_assert")): continue
        out.append((i, l))
    return out

def mutants(path, rng):
    src = open(path).read().split("\n")
    for _ in range(200):
        i, l = rng.choice(LINES[path])
        code = l.split("//")[0]
        if rng.random() < 0.2:
            s = code.strip()
            if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "const ", "static ", "}")) and s.count("(") == s.count(")"):
                return i, l, re.match(r"\s*", l).group(0) + "{}"
            continue
        pat, rep = rng.choice(SWAPS)
        ms = list(re.finditer(pat, code))
        if not ms: continue
        m = rng.choice(ms)
        new = code[:m.start()] + m.expand(rep) + code[m.end():]
        if new != code: return i, l, new
    return None

def sh(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(["taskset", "-c", CORES] + cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, ""

os.makedirs(BASE, exist_ok=True)
for d in (REPO, HAR):
    if os.path.exists(d): subprocess.call(["rsync", "-a", "--delete", "--exclude", "target", ("/repo/" if d == REPO else "/verif/harness/"), d + "/"]) if shutil.which("rsync") else shutil.rmtree(d)
    if not os.path.exists(d): shutil.copytree("/repo" if d == REPO else "/verif/harness", d, ignore=shutil.ignore_patterns("target", ".git"))
t = open(HAR + "/Cargo.toml").read().replace('path = "/repo"', 'path = "%s"' % REPO)
open(HAR + "/Cargo.toml", "w").write(t)
shutil.copy("/verif/known_findings.txt", BASE + "/known_findings.txt")
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", RUSTUP_TOOLCHAIN="stable", VERIF_TIER="quick")
env["PATH"] = "/root/.cargo/bin:" + env["PATH"]
IDS = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
FILES = []
for r, _, fs in os.walk(REPO + "/src"):
    for x in fs:
        p = os.path.join(r, x)
        if x.endswith(".rs") and not any(k in p for k in SKIP) and (not ONLY or any(o in p for o in ONLY)): FILES.append(p)
LINES = {p: lines_of(p) for p in FILES}
FILES = [p for p in FILES if LINES[p]]
rng = random.Random(SEED)
hits = {}
while True:
    path = rng.choices(FILES, [len(LINES[p]) for p in FILES])[0]
    m = mutants(path, rng)
    if not m: continue
    i, old, new = m
    orig = open(path).read()
    src = orig.split("\n")
    src[i] = new
    open(path, "w").write("\n".join(src))
    rel = path[len(REPO) + 1:]
    rec = {"file": rel, "line": i + 1, "old": old.strip(), "new": new.strip()}
    try:
        rc, o = sh(["cargo", "build", "--release", "--offline"], 300, HAR, env)
        if rc != 0: continue
        h = hits.setdefault(rel, {})
        order = sorted(IDS, key=lambda c: -h.get(c, 0))
        t0, others = time.time(), []
        rec["caught"] = None
        slow = 0
        for c in order:
            e = dict(env, VERIF_SEED="1")
            rc, o = sh([HAR + "/target/release/b2mon", "run", c, "--root", BASE], 120, BASE, e)
            if rc == 1 and "VIOLATION property=" + c in o:
                rec["caught"] = c
                h[c] = h.get(c, 0) + 1
                break
            if rc != 0:
                others.append("%s:%d" % (c, rc))
                slow += rc == -9
                if slow >= 2: break
        rec["other"] = others
        rec["secs"] = round(time.time() - t0)
        if rec["caught"] is None:
            rc, o = sh(["cargo", "test", "--workspace", "--lib", "--tests", "--offline"], 300, REPO, env)
            rec["tests"] = rc
        with open(LOG, "a") as f: f.write(json.dumps(rec) + "\n")
    finally:
        open(path, "w").write(orig)
