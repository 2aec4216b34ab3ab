import sys, random, time, traceback
from multiprocessing import Pool
from base import *; from oracle import *; from scen import *
def one(sd):
    try: history(b, random.Random(sd)); return None
    except Fail as x: return (sd, str(x), x.trace)
    except Exception as x: return (sd, traceback.format_exc(), [])
if __name__=='__main__':
    o=build(); b=publish_bin(o)
    with Pool(8) as p:
        for r in p.imap_unordered(one, range(int(sys.argv[1]), int(sys.argv[2]))):
            if r: print(r[0], r[1]); [print('   ',t) for t in r[2]]
    for nm,f in (('scripts',scripts),('lock',lock),('intr',lambda b,r:print(interruptions(b,r))),('faults',lambda b,r:print(interruptions(b,r,faults=True))),('moves',lambda b,r:print(interruptions(b,r,moves=True)))):
        t=time.time()
        try: f(b, random.Random(3))
        except Fail as x: print(nm, x, getattr(x,'trace',''))
        except Exception: traceback.print_exc()
        print(nm, time.time()-t)
