#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<< JSON {"edits":[[file,old,new],...],"needs":..,"breaks":..,"demo_pkg":..}: development aid.
Creates seeded/ID/patch.diff and meta.json from textual edits made in a scratch clone of /repo."""
import json, os, subprocess, sys, tempfile, shutil
def make(sid, prop, edits, needs, breaks, demo=None, demo_go=None, pkg=None, run=None, extra=None):
    d = "/verif/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mk.", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        for f, old, new in edits:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True))
    finally:
        shutil.rmtree(w)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if demo_go:
        open(d + "/demo_test.go.txt", "w").write(demo_go)
        mod, rel = pkg.split("/", 1)
        demo = """#!/bin/bash
# Runs the demonstration as an in-package test laid over the repository (nothing is written there).
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp "$D/demo_test.go.txt" "$W/demo_test.go"
echo "{\\"Replace\\":{\\"/repo/%s/zz_demo_test.go\\":\\"$W/demo_test.go\\"}}" > "$W/o.json"
cd /repo/%s && go test -vet=off -count=1 -timeout 120s -overlay "$W/o.json" -run '%s' ./%s
""" % (pkg, mod, run or "^TestDemo$", rel)
    if demo:
        open(d + "/demo.sh", "w").write(demo)
        os.chmod(d + "/demo.sh", 0o755)


def program(sid, prop, edits, needs, breaks, module, drv, cmd, script, check, libs=("vt", "lotus", "nodekit"), server=None):
    """A seed whose demonstration runs a node program (or the client library) through one scripted history and looks
    at what came back.  check: Python over E, the list of recorded events; a failed assertion is the failure."""
    make(sid, prop, edits, needs, breaks)
    d, h = "/verif/seeded/" + sid, "/verif/harness/"
    files = {"main": h + module + "/" + drv + "/main.go"}
    for k in libs:
        files[k] = h + "common/" + k + "/" + k + ".go"
    for k, f in files.items():
        shutil.copy(f, d + "/" + k + ".go.txt")
    json.dump(script, open(d + "/script.json", "w"))
    open(d + "/look.py", "w").write("import json, sys\nE = json.loads(open(sys.argv[1]).readline())['ev']\n" + check + "\n")
    smod, spkg, env = server or (module, "./cmd/%s" % module, "VERIF_%s" % module.upper().replace("-", "_"))
    build = "(cd /repo/%s && cp go.mod \"$W/s.mod\" && cp go.sum \"$W/s.sum\" && go build -modfile=\"$W/s.mod\" -ldflags='-s -w' -o \"$W/node\" %s)" % (smod, spkg) if cmd else ":"
    over = ",\n".join('"/repo/common/verifdrv/%s/%s.go":"$W/%s.go"' % (k, k, k) for k in libs)
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# Runs one scripted history against the real program and looks at what came back (look.py).
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir "$W/cwd"
for k in main %s; do cp "$D/$k.go.txt" "$W/$k.go"; done
cat > "$W/o.json" <<EOF
{"Replace":{"/repo/%s/verifdrv/drv/main.go":"$W/main.go",
%s}}
EOF
cd /repo/%s && cp go.mod "$W/go.mod" && cp go.sum "$W/go.sum" || exit 3
%s || exit 3
go build -modfile="$W/go.mod" -ldflags='-s -w' -overlay "$W/o.json" -o "$W/drv" ./verifdrv/drv || exit 3
cd "$W/cwd" && %s="$W/node" timeout 100 "$W/drv" "$D/script.json" "$W/out.ndjson" > "$W/log" 2>&1 || { tail -5 "$W/log"; exit 3; }
python3 "$D/look.py" "$W/out.ndjson"
""" % (" ".join(libs), module, over, module, build, env))
    os.chmod(d + "/demo.sh", 0o755)
