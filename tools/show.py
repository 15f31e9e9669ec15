"""python3-vt tools/show.py <contract name> <obligation>: prints hypotheses, goal, facts"""
import sys
sys.path.insert(0,'/verif')
from pyvc.repo import Repo
from pyvc import verify as V, solve
import contracts, z3
z3.set_option(max_width=200, max_depth=100, max_lines=4000)
reg=contracts.load(); repo=Repo('/repo')
for q,cs in reg.contracts.items():
    for c in cs:
        if c.name==sys.argv[1]:
            u=V.verify(repo,reg,c)
            for o in u.obs:
                if len(sys.argv)<3: print(o.name)
                elif o.name==sys.argv[2]:
                    for f in solve.relevant(u.facts,o.hyps+[o.goal]): print('FACT',f)
                    for h in o.hyps: print('HYP',h)
                    print('GOAL',o.goal)
            print(u.error,u.notes)
for n,l in reg.lemmas.items():
    if n==sys.argv[1]:
        u=V.verify_lemma(repo,reg,l)
        for o in u.obs:
            if len(sys.argv)<3: print(o.name)
            elif o.name==sys.argv[2]:
                for f in solve.relevant(u.facts,o.hyps+[o.goal]): print('FACT',f)
                for h in o.hyps: print('HYP',h)
                print('GOAL',o.goal)
        print(u.error)
