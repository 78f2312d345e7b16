#!/usr/bin/env python3
"""plant.py < specs: plants bugs into a scratch copy of /repo, confirms them and
keeps them under /verif/seeded. Specs are separated by lines of ####:
  id: NAME / property: Cxx / needs: ... / breaks: ... / pkg: . (package of the demo)
  --- edit FILE / old text / ==== / new text   (repeated)
  --- test / Go test file with one test TestDemo
plant.py -check [ID...] re-confirms planted bugs that exist."""
import sys, os, subprocess, json, re, tempfile, shutil
V = "/verif/seeded"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false")
DEMO = '''#!/bin/bash
# Runs demo_test.go inside package @PKG@ of the current directory's tree.
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
cp "$here/demo_test.go" "$tmp/demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/@DIR@zz_verif_demo_test.go\\": \\"$tmp/demo_test.go\\"}}" >"$tmp/overlay.json"
timeout 280 go test @FLAGS@-vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestDemo$' ./@DIR@
'''

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=ENV, **k)

def fresh():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    sh(["cp", "-a", "/repo/.", d], "/")
    return d

def stable(d):
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    with tempfile.TemporaryDirectory() as t:
        r = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "./..."], cwd=d, capture_output=True, text=True, env=dict(ENV, TMPDIR=t))
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
    return [x for x in want if x not in ok]

def confirm(name):
    s = f"{V}/{name}"
    meta = json.load(open(s + "/meta.json"))
    bad = []
    d = fresh()
    try:
        r = sh(["bash", s + "/demo.sh"], d)
        if r.returncode: bad.append("demo fails unchanged: " + (r.stdout + r.stderr)[-600:])
        r = sh(["git", "apply", s + "/patch.diff"], d)
        if r.returncode: return ["patch does not apply: " + r.stderr]
        r = sh(["go", "build", "./..."], d)
        if r.returncode: return ["does not build: " + r.stderr[:500]]
        m = stable(d)
        if m: bad.append("breaks tests: " + " ".join(m[:3]))
        r = sh(["bash", s + "/demo.sh"], d)
        if r.returncode == 0: bad.append("demo passes with the patch")
        elif "build failed" in r.stdout + r.stderr: bad.append("demo does not build: " + (r.stdout + r.stderr)[:400])
        # original lines
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], "/repo").stdout.split()
        fixes = set(x for x in sh(["git", "log", "--format=%H", "--grep=^fix:"], "/repo").stdout.split())
        orig = False
        for f in re.findall(r"^--- a/(\S+)", open(s + "/patch.diff").read(), re.M):
            bl = sh(["git", "blame", "-l", "-s", "HEAD", "--", f], "/repo").stdout.splitlines()
            body = open(s + "/patch.diff").read()
            sec = body.split("--- a/" + f)[1].split("\ndiff --git")[0]
            ln = 0
            for l in sec.splitlines():
                h = re.match(r"@@ -(\d+)", l)
                if h: ln = int(h.group(1)); continue
                if ln == 0: continue
                if l.startswith("-"):
                    if bl[ln-1].split()[0].lstrip("^")[:39] not in [x[:39] for x in fixes]: orig = True
                    ln += 1
                elif l.startswith(" "): ln += 1
        if not orig: bad.append("changes no original line")
        caught = ""
        os.makedirs("/tmp/mev/evidence", exist_ok=True)
        shutil.copy("/verif/known_findings.txt", "/tmp/mev/")
        r = sh(["/tmp/idcheck", "-property", meta["property"], "-repo", d, "-verif", "/tmp/mev"], d)
        caught = f"rc={r.returncode} " + " ".join(l.strip() for l in r.stdout.splitlines() if l.startswith("  ["))[:230]
        print(("OK  " if not bad else "BAD ") + name, caught)
        for b in bad: print("     ", b)
    finally:
        subprocess.run(["rm", "-rf", d])
    return bad

STD = '''package identity

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/greenpau/go-identity/pkg/requests"
)

var (
	_ = json.Marshal
	_ = os.Stat
	_ = filepath.Join
	_ = strings.Split
	_ = time.Now
)

func demoReq(name, mail, pass string) *requests.Request {
	r := requests.NewRequest()
	r.User.Username, r.User.Email, r.User.Password = name, mail, pass
	return r
}

func demoDB(t *testing.T) (*Database, string) {
	fp := filepath.Join(t.TempDir(), "users.json")
	db, err := NewDatabase(fp)
	if err != nil {
		t.Fatal(err)
	}
	demoAdd(t, db, "jsmith", "jsmith@gmail.com", "jsmith-password")
	demoAdd(t, db, "bjones", "bjones@gmail.com", "bjones-password")
	return db, fp
}

func demoAdd(t *testing.T, db *Database, name, mail, pass string) {
	r := demoReq(name, mail, pass)
	r.User.FullName = "Smith, John"
	r.User.Roles = []string{"viewer", "acme/admin"}
	if err := db.AddUser(r); err != nil {
		t.Fatal(err)
	}
}

func demoUser(t *testing.T, db *Database, name string) *User {
	for _, u := range db.Users {
		if u.Username == name {
			return u
		}
	}
	t.Fatal("no user " + name)
	return nil
}

func demoKey(t *testing.T, db *Database, name, comment string) string {
	r := demoReq(name, name+"@gmail.com", "")
	r.Key.Usage, r.Key.Comment = "api", comment
	if err := db.AddAPIKey(r); err != nil {
		t.Fatal(err)
	}
	return r.Response.Payload.(string)
}

'''

def plant(spec):
    head, *parts = re.split(r"^--- ", spec, flags=re.M)
    h = dict(re.match(r"(\w+): *(.*)", l).groups() for l in head.strip().splitlines())
    s = f"{V}/{h['id']}"
    d = fresh()
    test = ""
    for p in parts:
        first, body = p.split("\n", 1)
        if first.startswith("edit "):
            f = d + "/" + first[5:].strip()
            old, new = body.split("\n====\n") if "\n====\n" in body else (body.rstrip("\n")[:-5], "")
            new = new.rstrip("\n")
            t = open(f).read()
            if t.count(old) < 1: print(h["id"], "OLD NOT FOUND", old[:80]); subprocess.run(["rm", "-rf", d]); return
            open(f, "w").write(t.replace(old, new, 1))
        else:
            test = body.strip() + "\n"
            if not test.startswith("package"): test = STD + test
    diff = sh(["git", "diff"], d).stdout
    subprocess.run(["rm", "-rf", d])
    os.makedirs(s, exist_ok=True)
    open(s + "/patch.diff", "w").write(diff)
    open(s + "/demo_test.go", "w").write(test)
    pkg = h.get("pkg", ".")
    flags = h.get("flags", "")
    open(s + "/demo.sh", "w").write(DEMO.replace("@PKG@", pkg).replace("@DIR@", "" if pkg == "." else pkg + "/").replace("@FLAGS@", flags + " " if flags else ""))
    json.dump({"property": h["property"], "needs": h["needs"], "what_it_breaks": h["breaks"]}, open(s + "/meta.json", "w"), indent=1)
    confirm(h["id"])

if len(sys.argv) > 1 and sys.argv[1] == "-check":
    for n in sys.argv[2:] or sorted(os.listdir(V)):
        confirm(n)
else:
    for spec in sys.stdin.read().split("\n####\n"):
        plant(spec)
