#!/usr/bin/env python3
"""plant.py SPEC... : verify spec in a scratch copy and write /verif/seeded/<id>"""
import json, os, shutil, subprocess, sys, runpy, re
BASE='6c3c805'
env=dict(os.environ, TZ='UTC', LC_ALL='C.UTF-8', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
env.pop('PYTHONPATH',None)
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def one(path):
    ns=runpy.run_path(path)
    id_=os.path.basename(path)[:-3]
    w='/tmp/plantw/'+id_
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    repo=w+'/repo'
    sh('git','-C','/repo','worktree','prune')
    r=sh('cp','-a','/repo',repo); assert r.returncode==0
    demo=w+'/demo'; os.makedirs(demo)
    open(demo+'/demo.sh','w').write('#!/bin/bash\n# run with cwd in the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(demo+'/demo.py','w').write('"""Exits 0 if %s"""\n'%ns['HOLDS'].rstrip('.')+ns['DEMO'].lstrip('\n'))
    r=sh('bash',demo+'/demo.sh',cwd=repo,env=env,timeout=120)
    if r.returncode: return id_,'DEMO FAILS CLEAN\n'+r.stderr[-1500:]+r.stdout[-500:]
    for f,old,new in ns['EDITS']:
        p=repo+'/jsons/'+f; s=open(p).read()
        if s.count(old)!=1: return id_,'EDIT %s count %d: %s'%(f,s.count(old),old[:80])
        # blame
        a=s[:s.index(old)].count('\n')+1; b=a+old.rstrip('\n').count('\n')
        open(p,'w').write(s.replace(old,new))
    d=sh('git','-C',repo,'diff').stdout
    # lines removed must be original
    orig=False
    for f in {e[0] for e in ns['EDITS']}:
        dd=sh('git','-C',repo,'diff','-U0','--','jsons/'+f).stdout
        bl=sh('git','-C',repo,'blame','-s','HEAD','--','jsons/'+f).stdout.split('\n')
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',dd,re.M):
            a=int(m[1]); n=int(m[2] or 1)
            for i in range(a,a+n):
                if bl[i-1].startswith('^') : orig=True
    if not orig: return id_,'ONLY NON-ORIGINAL LINES'
    r=sh('/opt/venv/bin/python','-m','compileall','-q','-f','jsons',cwd=repo,env={**env,'PYTHONPYCACHEPREFIX':w+'/pyc'})
    if r.returncode: return id_,'BUILD'
    r=sh('bash',demo+'/demo.sh',cwd=repo,env=env,timeout=300)
    if r.returncode==0: return id_,'DEMO PASSES WITH PATCH'
    why=r.stderr.strip().split('\n')[-1]
    t=sh('/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','-p','pytest_timeout','--timeout=300','--doctest-glob=README.md','--ignore=tests/test_performance.py','tests','README.md','-x' if 0 else '-q',cwd=repo,env=env)
    fails=re.findall(r'^(?:FAILED|ERROR) (\S+)',t.stdout,re.M)
    fails=[f for f in fails if 'README' not in f]
    if fails or ' passed' not in t.stdout and not re.search(r'\d+ passed|\.\.',t.stdout): return id_,'TESTS FAIL %s'%fails+t.stdout[-300:]
    out='/verif/seeded/'+id_
    shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    open(out+'/patch.diff','w').write(d)
    for n in ('demo.sh','demo.py'): shutil.copy(demo+'/'+n,out)
    json.dump({'property':ns['PROPERTY'],'needs':ns['NEEDS'],'what_it_breaks':ns['BREAKS']},open(out+'/meta.json','w'),indent=1)
    open(out+'/meta.json','a').write('\n')
    shutil.rmtree(demo); 
    return id_,'OK '+why[:150]
if __name__=='__main__':
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        def safe(p):
            try: return one(p)
            except Exception as e: return p, 'EXC %s'%str(e)[:200]
        for id_,msg in ex.map(safe, sys.argv[1:]): print(id_,msg,flush=True)
