# run checks against planted bugs: run.py [-a] ids...   (-a: every check, reduced runs)
import sys, subprocess, json, os, time
alls='-a' in sys.argv; ids=[a for a in sys.argv[1:] if a!='-a']
S='/verif/seeded'
ids = ids or sorted(os.listdir(S))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for id in ids:
    meta=json.load(open(f'{S}/{id}/meta.json'))
    a=sh(f'git -C /repo apply {S}/{id}/patch.diff')
    if a.returncode: print(id,'APPLY',a.stderr); continue
    try:
        props=[f'C{i:02}' for i in range(1,17)] + ['C21', 'C22', 'C23'] if alls else [meta['property']]
        env=dict(os.environ)
        if alls: env['VERIF_RUNS']='50000'
        hit=[]
        t=time.time()
        for p in props:
            r=sh(f'python3 check.py {p}', cwd='/verif', env=env)
            if r.returncode==1:
                lines=r.stdout.splitlines(); hit.append(p); print('   ',p,'|',' / '.join(l[:200] for l in lines if l.startswith('run ') or ': ' in l)[-420:], flush=True)
            elif r.returncode!=0: print('   ',p,'ERROR',r.returncode,r.stdout[-500:],r.stderr[-800:])
        print(id, meta['property'], 'caught' if meta['property'] in hit else 'MISSED', hit, f'{time.time()-t:.0f}s', flush=True)
    finally:
        sh('git -C /repo checkout -- .')
