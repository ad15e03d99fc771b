#!/usr/bin/env python3
"""Runs the check of each planted change's property (or CHECKS=C01,C02 / ALL=1) on a patched copy of /repo."""
import sys, os, subprocess, shutil, json, tempfile, threading, concurrent.futures as cf
V=os.environ.get('VV','/verif')
sel=sys.argv[1:]
ids=[i for i in sorted(os.listdir(V+'/seeded')) if not sel or i in sel or any(i.startswith(s) for s in sel)]
claimed=[c['property_id'] if 'property_id' in c else c.get('property') for c in json.load(open(V+'/MANIFEST.json'))['checks']]
def one(i):
    d=tempfile.mkdtemp(prefix='seed.',dir='/tmp')
    try:
        for f in ('src','Cargo.toml','Cargo.lock'):
            s='/repo/'+f
            shutil.copytree(s,d+'/'+f) if os.path.isdir(s) else shutil.copy(s,d)
        r=subprocess.run(['git','apply','--unsafe-paths','--directory='+d,V+'/seeded/%s/patch.diff'%i],cwd='/',capture_output=True,text=True)
        if r.returncode: return i,'  APPLY FAILED '+r.stderr[:200]+'\n'
        p=json.load(open(V+'/seeded/%s/meta.json'%i))['property']
        cs=claimed if os.environ.get('ALL') else os.environ.get('CHECKS',p).split(',')
        out=''
        cache='/tmp/seedcache_%d'%(threading.get_ident()%100003)
        if not os.path.exists(cache) and os.path.exists(V+'/.cache'): shutil.copytree(V+'/.cache',cache)
        for c in cs:
            r=subprocess.run(['python3','check.py',c,'quick'],cwd=V,env=dict(os.environ,REPO_DIR=d,VERIF_CACHE=cache,VERIF_EVID=d+'/ev'),capture_output=True,text=True)
            ls=[l.strip() for l in (r.stdout+r.stderr).splitlines() if l.strip()]
            v=[l for l in ls if 'VIOLATED' in l or 'undecided:' in l]
            if r.returncode or not os.environ.get('ALL'):
                out+='  %s rc=%d %s\n'%(c,r.returncode,' | '.join(v)[:300] or (ls[-1][:300] if ls else ''))
        return i,out
    finally: shutil.rmtree(d,ignore_errors=True)
with cf.ThreadPoolExecutor(int(os.environ.get('J','4'))) as ex:
    for i,o in ex.map(one,ids): print(i+'\n'+o,end='',flush=True)
for c in os.listdir('/tmp'):
    if c.startswith('seedcache_'): shutil.rmtree('/tmp/'+c,ignore_errors=True)
