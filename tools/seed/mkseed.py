"""mkseed.py: writes a seeded bug's folder from its patch, cases and features.
The expected results are computed with the unchanged tree in /repo, which must be clean."""
import subprocess,os,json,re,sys
T='/verif/tools/seed/'
def mkseed(id,prop,diff,needs,breaks,cases,features='default-features = true',main=None,run=None,profile=''):
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/main.rs','w').write(main or open(T+'main.rs').read())
    dem=open(T+'demo.sh').read().replace('@FEATURES@',features).replace('@PROFILE@',profile)
    exe='"$t/target/%s/demo"'%('release' if 'release' in profile else 'debug')
    if cases is not None:
        rows=['\t'.join(c+('',)) for c in cases]
        open(d+'/cases.txt','w').write('\n'.join(rows)+'\n')
        open('/tmp/plants/demo.sh','w').write(dem.replace('$(cd "$(dirname "$0")" && pwd)',d).replace('@RUN@',f'timeout 120 {exe} {d}/cases.txt print'))
        p=subprocess.run(['bash','/tmp/plants/demo.sh'],cwd='/repo',capture_output=True,text=True)
        assert p.returncode==0,(id,p.stdout,p.stderr)
        open(d+'/cases.txt','w').write(p.stdout)
        print(id,[l.split('\t')[-1] for l in p.stdout.splitlines()])
    open(d+'/demo.sh','w').write(dem.replace('@RUN@',run.replace('@EXE@',exe) if run else f'timeout 120 {exe} "$here/cases.txt"'))
    os.chmod(d+'/demo.sh',0o755)
def verify(id):
    d=f'/verif/seeded/{id}'
    a=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
    b=subprocess.run(['git','-C','/repo','apply',d+'/patch.diff'],capture_output=True,text=True)
    assert b.returncode==0,b.stderr
    try: c=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
    finally: subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    ok=a.returncode==0 and c.returncode in(1,2)
    print('OK ' if ok else 'BAD',id,a.returncode,a.stdout[-300:],'->',c.returncode,c.stdout[:300])
    return ok
