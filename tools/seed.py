#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy of /repo and runs a check against it (never touches /repo itself).

usage: seed.py ID [--nocheck] [--notest] [--tier T] [--also C01,C02]
Needs user namespaces: the scratch copy is bind mounted over /repo, scratch folders over /verif/build, evidence, replays.
"""
import json, os, shutil, subprocess, sys

V = "/verif"
INNER = r'''
set -u
S=$1; D=$2; P=$3; FLAGS=$4; TIER=$5
mount --bind $S/repo /repo; mount --bind $S/build /verif/build; mount --bind $S/evidence /verif/evidence; mount --bind $S/replays /verif/replays
cd /repo
bash /opt/vp/build.sh >$S/build0.log 2>&1 || { echo "build0 FAILED"; exit 3; }
cp -a $D $S/demo; rm -f $S/demo/*.diff $S/demo/meta.json
timeout 300 bash $S/demo/demo.sh >$S/demo0.log 2>&1; r=$?; echo "demo unchanged: $r"; [ $r = 0 ] || { tail -5 $S/demo0.log; exit 3; }
git apply $D/patch.diff || { echo "apply FAILED"; exit 3; }
bash /opt/vp/build.sh >$S/build1.log 2>&1 || { echo "build1 FAILED"; tail -20 $S/build1.log; exit 3; }
timeout 300 bash $S/demo/demo.sh >$S/demo1.log 2>&1; r=$?; echo "demo patched: $r: $(tail -1 $S/demo1.log)"; [ $r != 0 ] || exit 3
case $FLAGS in *notest*) ;; *)
flock /tmp/seed.lock bash /opt/vp/test.sh $S/t.json >$S/test.log 2>&1
python3 - $S/t.json <<'P' || exit 3
import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); p=set(json.load(open(sys.argv[1]))["passed"])
m=sorted(b-p); print("tests: %d of %d stable pass"%(len(b&p),len(b)), m[:3]); sys.exit(1 if m else 0)
P
esac
case $FLAGS in *nocheck*) exit 0;; esac
cd /verif
for c in $P; do
  VERIF_SEED=1 VERIF_TIER=$TIER timeout 900 flock -s /tmp/seed.lock python3 check.py $c $TIER >$S/check-$c.log 2>&1; r=$?
  echo "check $c: exit $r: $(grep -m1 '^VIOLATION' $S/check-$c.log) | $(grep -m1 -A1 '^FAIL target' $S/check-$c.log | tr '\n' ' ' | cut -c1-300)"
done
'''


def main():
    a = sys.argv[1:]
    sid = a[0]
    d = V + "/seeded/" + sid
    prop = json.load(open(d + "/meta.json"))["property"]
    if "--also" in a:
        prop += " " + a[a.index("--also") + 1].replace(",", " ")
    if "--only" in a:
        prop = a[a.index("--only") + 1].replace(",", " ")
    tier = a[a.index("--tier") + 1] if "--tier" in a else "quick"
    flags = ",".join(x.strip("-") for x in a if x in ("--nocheck", "--notest")) or "none"
    s = "/tmp/sc-" + sid
    shutil.rmtree(s, ignore_errors=True)
    os.makedirs(s + "/evidence")
    os.makedirs(s + "/replays")
    subprocess.check_call(["cp", "-a", "/repo", s + "/repo"])
    if "nocheck" in flags:
        os.makedirs(s + "/build")
    else:
        subprocess.check_call(["cp", "-a", V + "/build", s + "/build"])
    open(s + "/inner.sh", "w").write(INNER)
    r = subprocess.run(["unshare", "-Urm", "bash", s + "/inner.sh", s, d, prop, flags, tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("%s (%s)\n%s" % (sid, prop, r.stdout), end="", flush=True)
    for f in os.listdir(s):
        if f.startswith("check") or f.endswith(".log"):
            os.makedirs("/tmp/seedlogs/" + sid, exist_ok=True)
            shutil.copy(s + "/" + f, "/tmp/seedlogs/" + sid)
    shutil.rmtree(s, ignore_errors=True)
    return r.returncode


sys.exit(main())
