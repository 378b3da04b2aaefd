#!/usr/local/bin/python3
"""plant.py SPEC... -- confirm planted bugs and keep them under /verif/seeded/<id>/.

SPEC is a text file:   #id: / #prop: / #pkg: (demo package dir) / #needs: / #breaks: / #race: 1 / #stub: 1
then   === edit FILE <newline> <<<< old ==== new >>>>  blocks, then   === demo  and the demo test's Go source.
A bug is kept only when: it compiles, the stable tests pass, the demo passes on the unchanged tree and fails with
the patch. Everything happens in a scratch copy of /repo.
"""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "43fbe1b"
DEMO = '''#!/bin/bash
# exit 0: the property held in this demonstration; nonzero: it did not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
cd "$repo"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$repo" "$here" > "$t/overlay.json"
%(stub)sgo test %(flags)s-overlay "$t/overlay.json" -run '^TestDemo' -count=1 -timeout 120s ./%(pkg)s
'''
STUB = '''cp "$repo/go.mod" "$t/go.mod"; cp "$repo/go.sum" "$t/go.sum"
printf '\\nreplace github.com/hyp3rd/sectools => %s/sectools\\n' "$here" >> "$t/go.mod"
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def parse(p):
    s = open(p).read()
    meta = dict(re.findall(r"^#(id|prop|pkg|needs|breaks|race|stub|vet): *(.*)$", s, re.M))
    edits = []
    for f, body in re.findall(r"^=== edit (\S+)\n(.*?)(?=^=== )", s, re.M | re.S):
        for o, n in re.findall(r"^<<<<\n(.*?)^====\n(.*?)^>>>>$", body, re.M | re.S):
            edits.append((f, o, n))
    demo = s.split("\n=== demo\n", 1)[1]
    return meta, edits, demo
def run(p):
    m, edits, demo = parse(p)
    w = "/tmp/plant/" + m["id"]
    shutil.rmtree(w, ignore_errors=True)
    d = w + "/out"; r = w + "/repo"
    os.makedirs(d)
    sh("git clone -q /repo %s" % r, "/tmp")
    open(d + "/demo_test.go", "w").write(demo)
    stub = m.get("stub") == "1"
    if stub:
        shutil.copytree(ROOT + "/stubs/sectools", d + "/sectools")
    flags = ("-race " if m.get("race") == "1" else "") + ("-modfile \"$t/go.mod\" -mod=mod " if stub else "")
    open(d + "/demo.sh", "w").write(DEMO % {"pkg": m["pkg"], "flags": flags, "stub": STUB if stub else ""})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": m["prop"], "needs": m["needs"], "what_it_breaks": m["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    def fail(msg, out=""):
        print("REJECT %s: %s\n%s" % (m["id"], msg, out[-2500:])); return False
    q = sh("bash %s/demo.sh" % d, r, timeout=300)
    if q.returncode != 0: return fail("demo fails on the unchanged tree", q.stdout)
    for f, o, n in edits:
        t = open(r + "/" + f).read()
        if t.count(o) != 1: return fail("edit matches %d times in %s" % (t.count(o), f), o)
        open(r + "/" + f, "w").write(t.replace(o, n))
    sh("/opt/veriftools/go1.26.10/bin/gofmt -l " + " ".join({f for f, _, _ in edits}), r)
    patch = sh("git diff -- " + " ".join(sorted({f for f, _, _ in edits})), r).stdout
    other = sh("git checkout -q go.mod go.sum; git status --short", r).stdout
    open(d + "/patch.diff", "w").write(patch)
    # at least one changed line of the original
    own = 0
    for f in {f for f, _, _ in edits}:
        bl = sh("git blame -s -l %s HEAD -- %s" % ("", f), r).stdout.splitlines()
        old = [i for i, l in enumerate(bl) if l.lstrip("^").startswith(BASE) or sh("git merge-base --is-ancestor %s %s && echo y" % (l.split()[0].lstrip("^"), BASE), r).stdout.strip() == "y"] if False else None
        h = sh("git diff -U0 -- %s" % f, r).stdout
        for a, c in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", h, re.M):
            a = int(a); c = int(c or 1)
            for i in range(a, a + c):
                sha = bl[i-1].split()[0].lstrip("^")
                if subprocess.run(["git", "merge-base", "--is-ancestor", sha, BASE], cwd=r).returncode == 0: own += 1
    if own == 0: return fail("changes no original line", patch)
    env = ". /opt/vp/env.sh >/dev/null; cd %s; " % r
    # compile everything, with the stub
    sh("cp go.mod %s/go.mod; cp go.sum %s/go.sum; printf '\\nreplace github.com/hyp3rd/sectools => %s/stubs/sectools\\n' >> %s/go.mod" % (w, w, ROOT, w), r)
    q = sh(env + "go build -modfile=%s/go.mod ./... && go vet -modfile=%s/go.mod %s" % (w, w, " ".join("./" + os.path.dirname(f) for f, _, _ in edits)), r, executable="/bin/bash")
    if q.returncode != 0: return fail("does not compile", q.stdout)
    q = sh(env + "go test -count=1 -modfile=%s/go.mod ./..." % w, r, executable="/bin/bash")
    if q.returncode != 0:
        bad = [l for l in q.stdout.splitlines() if l.startswith("--- FAIL") or l.startswith("FAIL")]
        return fail("existing tests fail", "\n".join(bad) + q.stdout[-1500:])
    q = sh("bash %s/demo.sh" % d, r, timeout=300)
    if q.returncode == 0: return fail("demo passes with the patch", q.stdout)
    dst = ROOT + "/seeded/" + m["id"]
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    shutil.rmtree(w, ignore_errors=True)
    print("KEPT", m["id"], m["prop"])
    return True
ok = True
for p in sys.argv[1:]:
    try:
        ok = run(p) and ok
    except Exception as e:
        print("ERROR", p, repr(e)); ok = False
sys.exit(0 if ok else 1)
