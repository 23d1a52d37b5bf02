#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py OUT.jsonl SLOTS N SEED [FILE...]
Each mutant is a one-line edit of a copy of /repo below /tmp; the checks responsible for the file are run on it
until one reports a violation."""
import json, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "src/server/auth.c": "C01 C02 C03 C07",
 "src/server/conf.c": "C14 C01 C03 C10 C18",
 "src/server/fifo.c": "C04 C05 C06 C11 C19 C09 C15",
 "src/server/hash.c": "C03 C14 C09",
 "src/server/nsca-ng.c": "C14 C15 C16 C17 C18",
 "src/server/server.c": "C07 C02 C08 C10 C18 C09 C12 C15 C17",
 "src/common/buffer.c": "C08 C04 C11 C26 C22 C10",
 "src/common/tls.c": "C08 C07 C22 C23 C03 C26 C18 C09 C04 C27 C14 C13 C12",
 "src/common/log.c": "C18 C17",
 "src/common/util.c": "C14 C18 C20 C21 C07 C15",
 "src/client/auth.c": "C24 C23 C26",
 "src/client/client.c": "C23 C20 C21 C13 C22 C18 C26",
 "src/client/conf.c": "C24 C18",
 "src/client/input.c": "C20 C21 C22 C26",
 "src/client/parse.c": "C20 C21 C22",
 "src/client/send_nsca.c": "C24 C25 C20 C13 C18 C21",
 "perl/client.c": "C30 C32 C33", "perl/Client.xs": "C30 C32 C33",
 "python/client.c": "C31 C32 C33", "python/nscang.c": "C31 C32 C33",
 "contrib/acknowledge": "C40", "contrib/downtime": "C40", "contrib/invoke_check": "C40",
 "contrib/enable_notifications": "C40", "contrib/disable_notifications": "C40",
}
SKIP = re.compile(r'^\s*(#|/?\*|//|static\s|extern\s|const\s|typedef|struct\s.*;$|(void|int|char|bool|size_t|ssize_t|unsigned|long)\b[^=]*;$)|\b(debug|info|notice|usage|print_usage)\(')

def variants(l):
    out = []
    code = l.split("/*")[0]
    s = code.strip()
    def sub(rx, fn):
        for m in re.finditer(rx, code):
            if code[:m.start()].count('"') % 2 == 0:
                r = fn(m)
                if r is not None:
                    out.append(code[:m.start()] + r + code[m.end():])
    sw = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}
    sub(r'(?<=\s)(<=|>=|==|!=|<|>)(?=\s)', lambda m: sw[m.group(1)])
    sub(r'&&|\|\|', lambda m: "||" if m.group(0) == "&&" else "&&")
    sub(r'(?<=\s)[+-](?=\s)', lambda m: "-" if m.group(0) == "+" else "+")
    sub(r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1))
    sub(r'\+= ', lambda m: "= ")
    sub(r'\btrue\b', lambda m: "false")
    sub(r'\bfalse\b', lambda m: "true")
    m = re.match(r'^(\s*(?:\} else )?if \()(.*)(\)\s*\{?\s*)$', code.rstrip("\n"))
    if m:
        out.append(m.group(1) + "!(" + m.group(2) + ")" + m.group(3) + "\n")
    if s.endswith(";") and s.count("(") == s.count(")") and not re.match(r'(return|case|default|goto|else|for|while|do\b|\})', s) \
            and not re.match(r'[A-Za-z_][\w ]*\s\**\w+(\[.*\])?\s*(=|;)', s):
        out.append(re.match(r'\s*', code).group(0) + ";\n")
    if re.match(r'(break|continue);$', s):
        out.append(re.match(r'\s*', code).group(0) + ";\n")
    return [o if o.endswith("\n") else o + "\n" for o in out if o.rstrip() != l.rstrip()]

def mutants(files, repo="/tmp/mut/base"):
    for f in files:
        lines = open(os.path.join(repo, f)).read().splitlines(True)
        incomment = False
        for i, l in enumerate(lines):
            if "/*" in l and "*/" not in l:
                incomment = True
            if incomment:
                if "*/" in l:
                    incomment = False
                continue
            if SKIP.search(l) or not l.strip() or l[0] not in "\t ":
                continue
            for v in variants(l):
                yield f, i, l, v

def attempt(slot, mu, tier, frac):
    f, i, old, new = mu
    s = "/tmp/mut/slot%d" % slot
    p = os.path.join(s, f)
    src = open(os.path.join("/tmp/mut/base", f)).read().splitlines(True)
    assert src[i] == old
    src[i] = new
    open(p, "w").write("".join(src))
    env = dict(os.environ, VERIF_REPO=s, VERIF_BUILD="/tmp/mut/build%d" % slot, VERIF_SHRINK="0",
               VERIF_OUT="/tmp/mut/out%d" % slot)
    r = "survived"
    t0 = time.time()
    for c in MAP[f].split():
        n = subprocess.check_output(["python3-vt", "-c", "from vf.run import load;print(load('%s').cases['quick'])" % c], cwd=V, text=True)
        n = max(24, int(int(n) * frac))
        try:
            o = subprocess.run(["timeout", "-k", "5", "700", "./check", c, "quick", "--n", str(n), "--shards", "5"], cwd=V, env=env,
                               capture_output=True, text=True, errors="replace")
        finally:
            pass
        if o.returncode == 1:
            m = re.search(r'VIOLATION.*\n\s*(.*)', o.stdout)
            r = "killed " + c + ": " + (m.group(1)[:150] if m else "?")
            break
        if o.returncode == 2:
            r = "uncompilable"
            break
        if o.returncode != 0:
            r = "error %s rc %d: %s" % (c, o.returncode, (o.stdout + o.stderr)[-300:])
            break
        if "unconfirmed" in o.stdout:
            r = "survived (unconfirmed %s)" % c
    shutil.copy(os.path.join("/tmp/mut/base", f), p)
    return dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), result=r, s=round(time.time() - t0))

def main():
    out, slots, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    frac = float(os.environ.get("FRAC", "0.3"))
    files = sys.argv[5:] or list(MAP)
    todo = list(mutants(files))
    random.Random(seed).shuffle(todo)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            e = json.loads(l)
            done.add((e["file"], e["line"], e["new"]))
    todo = [m for m in todo if (m[0], m[1] + 1, m[3].strip()) not in done][:n]
    print(len(todo), "mutants")
    lock = threading.Lock()
    def run(k):
        s = "/tmp/mut/slot%d" % k
        shutil.rmtree(s, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/tmp/mut/base", s])
        while True:
            with lock:
                if not todo:
                    return
                m = todo.pop(0)
            try:
                e = attempt(k, m, "quick", frac)
            except Exception as x:
                e = dict(file=m[0], line=m[1] + 1, old=m[2].strip(), new=m[3].strip(), result="EXC " + repr(x), s=0)
            with lock, open(out, "a") as o:
                o.write(json.dumps(e) + "\n")
    ts = [threading.Thread(target=run, args=(k,)) for k in range(slots)]
    [t.start() for t in ts]
    [t.join() for t in ts]

if __name__ == "__main__":
    main()
