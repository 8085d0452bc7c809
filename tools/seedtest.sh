#!/bin/bash
# seedtest.sh ID [nocheck]: confirms a planted bug of seeded/ID (demo passes before, fails after; stable tests pass) and runs the check of its property
d=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo is not clean"; exit 2; }
python3 - "$d/patch.diff" <<'P'
import subprocess,sys,re
base=subprocess.run(['git','-C','/repo','rev-parse','94e937e'],capture_output=True,text=True).stdout.strip()
cur=None; ok=True; n=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): cur=l[6:].strip()
    m=re.match(r'@@ -(\d+)',l)
    if m: ln=int(m[1]); continue
    if l.startswith('-') and not l.startswith('---'):
        b=subprocess.run(['git','-C','/repo','blame','-l','-s','-L',f'{ln},{ln}','HEAD','--',cur],capture_output=True,text=True).stdout
        c=b.split()[0].lstrip('^'); n+=1
        if subprocess.run(['git','-C','/repo','merge-base','--is-ancestor',c,base]).returncode: ok=False; print('NOT ORIGINAL:',l.strip())
        ln+=1
    elif l.startswith(' '): ln+=1
print('removed original lines:',n,'ok' if ok and n else 'CHECK')
P
bash $d/demo.sh >/tmp/w/demo0.log 2>&1; echo "demo on unchanged: $?"
git apply $d/patch.diff || exit 2
bash $d/demo.sh >/tmp/w/demo1.log 2>&1; echo "demo with the bug: $?"; tail -2 /tmp/w/demo1.log
bash /opt/vp/build.sh >/tmp/w/sb.log 2>&1 || echo BUILD FAILED; bash /opt/vp/test.sh /tmp/w/sr.json 2>&1 | tail -1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/w/sr.json'))
st=b.get('stable_pass') or b.get('passed') or b.get('stable') or []
print('stable tests lost:', [t for t in st if t not in r['passed']][:5])"
[ -z "$2" ] && { cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p | tail -12; }
git -C /repo checkout -- . ; git -C /repo status --short | head -3
