#!/usr/bin/env python3
"""plant.py SPEC.py...: writes seeded/<id>/ from bug specifications and tries each one.
A specification is a Python file that calls bug(id, property, needs, breaks, edits, demo, files={}).
edits: [(path below /repo, old text, new text)]; demo: body of demo.sh ($F is the interpreter, cwd a scratch directory)."""
import sys, os, subprocess, json, shutil
BASE = subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.strip()
HEAD = '''#!/bin/bash
# Run with cwd /repo after the build; exit 0 when the property holds.
F=$PWD/bin/funge; HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT; cd "$D" || exit 2
same(){ [ "$2" = "$3" ] || { echo "$1: got [$2], expected [$3]"; exit 1; }; }
'''
SPECS=[]
def bug(id, property, needs, breaks, edits, demo, files={}): SPECS.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,demo=demo,files=files))
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def main():
	only=None
	args=sys.argv[1:]
	if args[0]=='-o': only=args[1].split(','); args=args[2:]
	for a in args: exec(compile(open(a).read(),a,'exec'),{'bug':bug})
	baseline=set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or json.load(open('/opt/vp/BASELINE.json')).get('passed', []))
	for s in SPECS:
		if only and s['id'] not in only: continue
		d='/verif/seeded/'+s['id']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
		w='/tmp/pb/w'; sh('rm -rf /tmp/pb/w; cp -a /repo/. /tmp/pb/w')
		bad=''
		for p,o,n in s['edits']:
			t=open(w+'/'+p).read(); base=sh('git -C /repo show %s:%s'%(BASE,p)).stdout
			if t.count(o)!=1: bad='old text found %d times in %s: %s'%(t.count(o),p,o)
			open(w+'/'+p,'w').write(t.replace(o,n))
		if bad: print(s['id'],'BAD',bad); continue
		diff=sh('git -C /tmp/pb/w diff').stdout; open(d+'/patch.diff','w').write(diff)
		# removed lines (or, for pure additions, the context) belong to the original
		lines=[l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
		mine=[l for l in lines if l.strip() and l not in sh('git -C /repo show %s:%s'%(BASE,s['edits'][0][0])).stdout.splitlines() and not any(l in sh('git -C /repo show %s:%s'%(BASE,p)).stdout.splitlines() for p,_,_ in s['edits'])]
		open(d+'/demo.sh','w').write(HEAD+s['demo'].strip('\n')+'\nexit 0\n'); os.chmod(d+'/demo.sh',0o755)
		for f,c in s['files'].items(): open(d+'/'+f,'w').write(c)
		json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
		a=sh('bash %s/demo.sh'%d,cwd='/repo',timeout=300)
		sh('mkdir -p /tmp/pb; for f in make test build; do sed "s#/repo#%s#g; s#/opt/vp/make.sh#/tmp/pb/make.sh#g" /opt/vp/$f.sh > /tmp/pb/$f.sh; done'%w)
		b=sh('bash /tmp/pb/build.sh 2>&1')
		if b.returncode: print(s['id'],'DOES NOT BUILD',b.stdout[-800:]); continue
		c=sh('bash %s/demo.sh'%d,cwd=w,timeout=300)
		# tests: the project's own scripts in the copy
		t=sh('bash /tmp/pb/test.sh /tmp/pb/out.json',timeout=900)
		try: r=json.load(open('/tmp/pb/out.json')); lost=sorted(baseline-set(r['passed']))
		except Exception as e: lost=['?'+str(e)]
		print(s['id'],s['property'],'clean demo',a.returncode,a.stdout.strip()[-300:],'| patched demo',c.returncode,c.stdout.strip()[-200:],'| lost tests',lost[:4],'| lines of mine',mine[:2],flush=True)
	sh('rm -rf /tmp/pb/w')
main()
