#!/usr/bin/env python3
# usage: ref.py FILE.. : each a bundle of behaviour-preserving edits; runs every check on a scratch copy
import sys,subprocess,shutil,os,tempfile,concurrent.futures as cf
ids=os.environ.get('IDS','').split() or ['C%02d'%i for i in range(1,32)]
AN=os.environ.get('AN','/verif/bin/an')
for fn in sys.argv[1:]:
    d=tempfile.mkdtemp(prefix='ref',dir='/tmp')
    subprocess.run(['cp','-a','/repo',d+'/repo'],check=True)
    try:
        for sec in open(fn).read().split('%%FILE ')[1:]:
            f,body=sec.split('\n',1)
            p=f'{d}/repo/{f.strip()}'
            s=open(p).read() if os.path.exists(p) else ''
            for blk in body.split('\n@@@\n'):
                if '\n===\n' not in blk:
                    s=blk; continue
                o,n=blk.split('\n===\n'); o=o.strip('\n'); n=n.strip('\n')
                assert s.count(o)==1,('count',s.count(o),o)
                s=s.replace(o,n)
            open(p,'w').write(s)
        b=subprocess.run(['go','build','./...'],cwd=d+'/repo',capture_output=True,text=True)
        if b.returncode: print(fn,'BUILD',b.stderr); continue
        t=subprocess.run(['timeout','90','go','test','-timeout','60s','./...'],cwd=d+'/repo',capture_output=True,text=True)
        fails=[l for l in t.stdout.split('\n') if l.startswith('--- FAIL')]
        print('==',os.path.basename(fn),'tests',fails[:5],flush=True)
        def run(i):
            v=f'{d}/v{i}'; os.makedirs(v); shutil.copy('/verif/known-findings.txt',v)
            r=subprocess.run(['timeout','800',AN,'-id',i,'-repo',d+'/repo','-verif',v],capture_output=True,text=True)
            return i,r.returncode,(r.stdout+r.stderr)
        with cf.ThreadPoolExecutor(6) as ex:
            for i,rc,out in ex.map(run,ids):
                ls=[l for l in out.split('\n') if l and not l.startswith('     ')]
                und=[l for l in ls if 'UNDECIDED' in l]
                if rc!=0 or und:
                    print('  ',i,'rc',rc,'und',len(und))
                    for l in ls[:14]:
                        if 'KNOWN-FINDING' not in l: print('      ',l[:300])
                    sys.stdout.flush()
    finally:
        shutil.rmtree(d)
