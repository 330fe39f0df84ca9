import sys, theory as T, builtins_, contracts, prove
items=[x for x in prove.lemma_items() if len(sys.argv)<2 or any(a in x[0] for a in sys.argv[1:])]
r=prove.run_all(items)
print(len(items), sum(1 for v in r.values() if v[0]=='unsat'), 'max', max(v[2] for v in r.values()))
for k,v in r.items():
    if v[0]!='unsat': print(k,v)
