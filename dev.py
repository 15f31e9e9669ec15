"""dev: python3-vt dev.py <contracts module> [filter]"""
import sys, importlib, time
sys.path.insert(0,'/verif')
from pyvc.repo import Repo
from pyvc.spec import Registry
from pyvc import verify as V, solve
import contracts
reg = contracts.load()
repo = Repo(sys.argv[3] if len(sys.argv)>3 else '/repo')
flt = sys.argv[1] if len(sys.argv)>1 else ''
scale=float(sys.argv[2]) if len(sys.argv)>2 else 0.5
units=[]
t0=time.time()
for n,lm in reg.lemmas.items():
    if flt in 'lemma '+n: units.append(V.verify_lemma(repo,reg,lm))
for n,lm in reg.clients.items():
    if flt in 'law '+n: units.append(V.verify_client(repo,reg,lm))
for q,cs in reg.contracts.items():
    for c in cs:
        if flt in c.name and not c.trusted: units.append(V.verify(repo,reg,c))
print('gen %.1fs'%(time.time()-t0))
for u in units:
    if u.error: print('ERROR',u.name,u.error)
    for n in u.notes: print('  note',u.name,n)
res=solve.discharge(units,verbose=True,scale=scale)
from collections import Counter
print(Counter(s for s,_,_ in res.values()), 'time %.1f'%(time.time()-t0))
for u in units:
    st=[res[(u.name,o.name)] for o in u.obs]
    print(u.name, len(st), 'OK' if not u.error and all(s[0] in('proved','ok') for s in st) else 'FAIL', '%.1f'%sum(s[2] for s in st), 'inl:' + ','.join(x.split('.')[-1] for x in u.inlined) if u.inlined else '')
