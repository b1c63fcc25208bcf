#!/usr/bin/env python3
"""Self-assessment: mutates one header, keeps mutants that compile and pass the container's own tests
(under valgrind), and runs the checks restricted to that container on them.

  mutate.py HEADER COUNT SEED OUT.jsonl [--checks C01,C04,...] [--lines A-B]

Works on scratch copies under /tmp/mut-*; never touches /repo."""
import sys, os, re, random, subprocess, json, shutil, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEQ = ["vector", "devector", "compact_vector", "segmented_vector", "segmented_devector", "small_vector", "static_vector"]

def candidates(lines):
    """(line number, new text, operator)"""
    out = []
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("*") or s.startswith("/*"):
            continue
        if re.match(r"(template|static_assert|using|typedef|class|struct|public|private|friend|namespace|enum)\b", s) or "enable_if" in s or "noexcept(" in s or "std::is_" in s:
            continue
        def put(new, op):
            if new != l:
                out.append((i, new, op))
        if "SFL_ASSERT" in s:
            if s.endswith(";"):
                put(re.sub(r"SFL_ASSERT\(.*\);", "", l), "delete assertion")
            for m in re.finditer(r" (<=|>=|<|>) ", l):
                o = {"<=": "<", ">=": ">", "<": "<=", ">": ">="}[m.group(1)]
                put(l[:m.start(1)] + o + l[m.end(1):], "assert boundary")
            continue
        if s.endswith(";") and not s.startswith("return") and "(" in s and not re.match(r"(const |auto |[\w:]+(<.*>)?[&*]? +\w+ *[=(;])", s) or re.match(r"[\w.>\-\[\]()]+ [-+]?= .*;$", s) or re.match(r"(\+\+|--)[\w.>\-]+;$", s):
            put(re.match(r"\s*", l).group(0) + ";\n", "delete statement")
        code = re.sub(r'"[^"]*"', '""', l)
        if re.search(r"\b(if|while|for|return)\b|^\s*[&|]{2}|[&|]{2}\s*$", code) and "template" not in code:
            for m in re.finditer(r" (<=|>=|<|>|==|!=|&&|\|\|) ", l):
                o = m.group(1)
                alts = {"<=": ["<"], ">=": [">"], "<": ["<="], ">": [">="], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"]}[o]
                for a in alts:
                    put(l[:m.start(1)] + a + l[m.end(1):], "relation")
        m = re.match(r"(\s*(?:else )?if) \((.*)\)\s*$", l)
        if m:
            put("%s (!(%s))\n" % (m.group(1), m.group(2)), "negate if"); put("%s (true || (%s))\n" % (m.group(1), m.group(2)), "if true"); put("%s (false && (%s))\n" % (m.group(1), m.group(2)), "if false")
        for m in re.finditer(r" ([-+]) ((?:\w|\(|\)|\.|->|_)+)", l):
            put(l[:m.start()] + l[m.end():], "drop term")
            put(l[:m.start(1)] + ("-" if m.group(1) == "+" else "+") + l[m.end(1):], "sign")
        for m in re.finditer(r"std::move\(([^()]*)\)", l):
            put(l[:m.start()] + m.group(1) + l[m.end():], "no move")
        for m in re.finditer(r"std::forward<[^<>]*>\(([^()]*)\)(?!\.\.\.)", l):
            put(l[:m.start()] + m.group(1) + l[m.end():], "no forward")
        for a, b in (("first", "last"), ("begin", "end"), ("front", "back"), ("true", "false"), ("size()", "capacity()"), ("lower_bound", "upper_bound"), ("max", "min"), ("uninitialized_move", "uninitialized_copy"), ("copy", "move"), ("backward", "forward"), ("construct_at_a", "destroy_at_a")):
            for x, y in ((a, b), (b, a)):
                for m in re.finditer(r"(?<![a-zA-Z])" + re.escape(x) + r"(?![a-zA-Z])", l):
                    put(l[:m.start()] + y + l[m.end():], "%s->%s" % (x, y))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", l):
            put(l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], "constant")
    return out

def sh(cmd, t, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return -9, "timeout"

def tests_pass(d, names):
    """the repository's own tests of these containers, both configurations of the stable tests, under valgrind"""
    flags = "-Wall -Wextra -Wpedantic -Werror -Wfatal-errors -I ../include -g -O0".split()
    for n in names:
        for cc in (["clang++", "-std=c++20"], ["g++", "-std=c++11"]):
            exe = os.path.join(d, "t")
            rc, o = sh(cc + flags + [n + ".cpp", "-o", exe], 300, cwd=os.path.join(d, "test"))
            if rc:
                return "compile"
            rc, o = sh([exe], 60, cwd=os.path.join(d, "test"))
            if rc:
                return "test"
            if os.environ.get("NOVG"):
                continue
            rc, o = sh(["valgrind", "-q", "--leak-check=full", "--error-exitcode=1", exe], 400, cwd=os.path.join(d, "test"))
            if rc:
                return "valgrind"
    return None

def checks_for(n):
    if n in SEQ:
        return ["C01", "C13", "C09", "C07", "C06", "C04", "C05", "C08", "C16", "C17", "C21", "C22", "C19", "C14", "C15", "C11", "C12", "C10", "C23"]
    return ["C03" if "unordered" in n else "C02", "C13", "C09", "C07", "C06", "C04", "C05", "C08", "C16", "C17", "C21", "C22", "C20", "C19", "C14", "C15", "C11", "C12", "C23"]

def run_checks(d, name, checks, log):
    env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=os.path.join(d, "build"), VERIF_ONLY="^%s(@|_|$)" % name, VERIF_EVIDENCE=os.path.join(d, "ev"), VERIF_SEED="1", VERIF_TIER="quick", VERIF_JOBS=os.environ.get("VERIF_JOBS", "3"))
    for c in checks:
        rc, o = sh(["python3", os.path.join(VERIF, "run.py"), c], 900, env=env)
        if rc == 1:
            return c, [l for l in o.split("\n") if l.startswith("violation")][:2]
        if rc != 0:
            log.append("%s rc=%d %s" % (c, rc, o[-300:]))
    return None, log[:3]

def main():
    header, count, seed, outf = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    checks = sys.argv[sys.argv.index("--checks") + 1].split(",") if "--checks" in sys.argv else None
    lo, hi = map(int, sys.argv[sys.argv.index("--lines") + 1].split("-")) if "--lines" in sys.argv else (0, 10**9)
    names = sys.argv[sys.argv.index("--names") + 1].split(",") if "--names" in sys.argv else [header]
    rng = random.Random("%s-%d" % (header, seed))
    lines = open("%s/include/sfl/%s.hpp" % (REPO, header)).readlines()
    c = [x for x in candidates(lines) if lo <= x[0] + 1 <= hi]
    rng.shuffle(c)
    done = 0
    for i, new, op in c:
        if done >= count:
            break
        d = "/tmp/mut-%s-%d-%d" % (header, seed, os.getpid())
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        try:
            shutil.copytree(REPO + "/include", d + "/include"); shutil.copytree(REPO + "/test", d + "/test")
            m = list(lines); m[i] = new
            open("%s/include/sfl/%s.hpp" % (d, header), "w").writelines(m)
            t0 = time.time()
            r = tests_pass(d, names)
            if r:
                continue
            done += 1
            k = None
            for n in names:
                k, info = run_checks(d, n, checks or checks_for(n), [])
                if k:
                    break
            with open(outf, "a") as f:
                f.write(json.dumps({"header": header, "line": i + 1, "op": op, "old": lines[i].strip(), "new": new.strip(), "killed": k, "info": info, "s": round(time.time() - t0)}) + "\n")
        finally:
            shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    main()
