#!/usr/bin/env python3
"""Development tool: turn a planted-change description into seeded/<id>/ and confirm it.
usage: mkseed.py FILE...   (blocks separated by lines of '####')
  id: C06-a / property: C06 / needs: ... / breaks: ... / file: src/x.c
  <<<< old ==== new >>>>    (repeatable, with further 'file:' lines)
  demo:  C program (or 'demosh:' a shell script body)"""
import sys, os, re, json, subprocess, shutil, tempfile
V = "/verif/seeded"
HEAD = '#!/bin/bash\n# run with cwd /repo after the build; exit 0: behaviour as specified, nonzero: broken\nD=$(cd "$(dirname "$0")" && pwd)\nW=$(mktemp -d); trap \'find "$W" -delete\' EXIT\n'
CC = 'gcc -std=gnu99 -g -O1 %s -I include "$D/demo.c" $(find src -name "*.c") -lsecp256k1 -o "$W/demo" >"$W/log" 2>&1 || { cat "$W/log"; exit 2; }\ncd "$W" && timeout 120 ./demo\n'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def parse(b):
    d = dict(edits=[]); f = None
    m = re.search(r"^(demo|demosh):([^\n]*)\n", b, re.M)
    d["kind"] = m.group(1); d["flags"] = m.group(2).strip(); d["demo"] = b[m.end():]; b = b[:m.start()]
    for part in re.split(r"(?m)^(?=file:)", b):
        if part.startswith("file:"): f = part.splitlines()[0][5:].strip()
        for k in ("id", "property", "needs", "breaks"):
            x = re.search(r"(?m)^%s: (.*)$" % k, part)
            if x: d[k] = x.group(1)
        for x in re.finditer(r"(?ms)^<<<<\n(.*?)\n====\n(.*?)\n?>>>>$", part): d["edits"].append((f, x.group(1), x.group(2)))
    return d
def make(b, run=True):
    d = parse(b); out = os.path.join(V, d["id"])
    wt = tempfile.mkdtemp(prefix="sd"); r = wt + "/repo"
    try:
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("_build"))
        sh("git checkout -q -- .", cwd=r)
        for f, o, n in d["edits"]:
            s = open(r + "/" + f).read()
            if s.count(o) != 1: print(d["id"], "edit matches %d times in %s:\n%s" % (s.count(o), f, o)); return False
            open(r + "/" + f, "w").write(s.replace(o, n))
        diff = sh("git diff", cwd=r).stdout
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        if d["kind"] == "demo":
            open(out + "/demo.c", "w").write(d["demo"]); body = HEAD + CC % d["flags"]
        else: body = HEAD + d["demo"]
        open(out + "/demo.sh", "w").write(body); os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
        bad = sh("bash %s/demo.sh" % out, cwd=r)
        sh("git checkout -q -- .", cwd=r)
        good = sh("bash %s/demo.sh" % out, cwd=r)
        ok = good.returncode == 0 and bad.returncode not in (0, 2)
        print(d["id"], "demo unpatched rc=%d patched rc=%d %s" % (good.returncode, bad.returncode, "ok" if ok else "BAD\n" + good.stdout[-600:] + bad.stdout[-600:] + bad.stderr[-300:]))
        return ok
    finally: shutil.rmtree(wt)
if __name__ == "__main__":
    for f in sys.argv[1:]:
        for b in re.split(r"(?m)^####\n", open(f).read()):
            if b.strip(): make(b)
