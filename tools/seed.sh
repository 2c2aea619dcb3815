#!/bin/bash
# seed.sh <dir of a planted bug>...   confirms each one in a scratch copy, then runs its property's check against it in /repo
# REPO, CHECKER (a copy of /verif that builds against REPO) and S (scratch) allow runs beside each other
V=${CHECKER:-$(cd "$(dirname "$0")/.." && pwd)}
S=${S:-/tmp/seedwork}
export REPO=${REPO:-/repo}
rm_dir() { [ ! -d "$1" ] || find "$1" -delete; }
for d in "$@"; do
  d=$(cd "$d" && pwd); id=$(basename "$d"); p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  rm_dir "$S/repo"; mkdir -p $S; cp -a $REPO $S/repo; cp -a "$d" $S/demo.$id
  (cd $S/repo && bash $S/demo.$id/demo.sh >$S/log0 2>&1); a=$?
  if ! git -C $S/repo apply "$d/patch.diff" 2>$S/logp; then echo "$id: DOES NOT APPLY $(head -2 $S/logp)"; rm_dir "$S/demo.$id"; continue; fi
  # lines taken away have to be those of the original
  own=$(python3 - "$d/patch.diff" <<'P'
import os,re,subprocess,sys
base=subprocess.run(["git","-C",os.environ["REPO"],"rev-list","--max-parents=0","HEAD"],capture_output=True,text=True).stdout.strip()[:8]
f=None;bad=0;good=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip(); b=subprocess.run(["git","-C",os.environ["REPO"],"blame","-s","--root",f],capture_output=True,text=True).stdout.splitlines()
    elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('-') and not l.startswith('---'):
        if b[n-1].lstrip('^').startswith(base[:7]): good+=1
        else: bad+=1
        n+=1
    elif l.startswith(' '): n+=1
print(f"{good}-{bad}")
P
)
  (cd $S/repo && cargo test --offline >$S/logt 2>&1); t=$?
  (cd $S/repo && bash $S/demo.$id/demo.sh >$S/log1 2>&1); b=$?
  git -C $REPO apply "$d/patch.diff"; s=$(date +%s)
  if [ -z "$NOCHECK" ]; then "$V/check.sh" $p ${TIER:-quick} >$S/logc 2>&1; c=$?; fi
  git -C $REPO checkout -- .
  echo "$id $p demo=$a/$b test=$t lines(orig-own)=$own check=$c $(( $(date +%s)-s ))s | $(tail -2 $S/log1 | tr '\n' ' '|cut -c1-150) | $(grep -m1 VIOLATION $S/logc | cut -c1-100)"
  rm_dir "$S/demo.$id"
done
rm_dir "$S/repo"
