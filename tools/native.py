"""Development aid: builds every contract natively and searches each for a second; anything 'confirmed' on the unchanged tree is a wrong contract.
usage: native.py [Cxx ...]"""
import sys, os, re, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import run
from concurrent.futures import ThreadPoolExecutor
import glob
d = tempfile.mkdtemp()
jobs = []
for p in sorted(glob.glob(run.VERIF + '/contracts/*.cpp')):
    u = run.Unit(p)
    if len(sys.argv) > 1 and not set(sys.argv[1:]) & set(u.props): continue
    es = re.findall(r'^void (ct_\w+)|VP_CONTRACT\((\w+)\)', open(p).read())
    bc = run.compile_unit(u, [], d, u.name)
    for e in run.entries_of(bc):
        o = u.opts(e)
        if o.get('noreplay'): continue
        jobs.append((u, e))
def one(j):
    r = run.replay_native(j[0], [], j[1], [], d, search=1)
    for f in glob.glob(d + '/replay_%s_*' % j[1]): os.remove(f)
    return j, r
with ThreadPoolExecutor(8) as ex:
    for (u, e), (st, txt) in ex.map(one, jobs):
        if st != 'none' or 'SEARCH-NONE' not in txt: print(u.name, e, st, txt[-300:])
shutil.rmtree(d)
print(len(jobs), 'contracts')
