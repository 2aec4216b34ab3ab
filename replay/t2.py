import sys, random, time
from base import *; from oracle import *; from scen import *
import oracle
o=build(); b=publish_bin(o)
orig=Mirror.run
def run(s,*a,**k):
    r=orig(s,*a,**k)
    n=None
    try: n=published(s,r.after)
    except Fail: pass
    print('RUN',k,'rc',r.rc,r.err[:200],'pub',n and (n.session[:8],n.serial,[d[0] for d in n.deltas]))
    st=r.after['state'].get('rrdp-state.json')
    if st:
        j=json.loads(st[1]); print('   state',j['snapshot']['serial'],[d['serial'] for d in j['deltas']],[(d['path'].split('/',5)[-1],d['since']-time.time()-s.clock) for d in j['deprecated_files']])
    if '-v' in sys.argv:
        for e in r.ev: print('     ',e[0],e[1],e[2].replace(s.root,''),e[3].replace(s.root,''))
    return r
Mirror.run=run
try: history(b, random.Random(int(sys.argv[1])))
except Fail as x: print(x)
