import json,glob,sys
cid=sys.argv[1]; pn=[int(x) for x in sys.argv[2:]]
def short(o):
    if o.startswith('{'):
        try:
            j=json.loads(o); return j.get('op','?')+' '+str(j.get('v',j.get('datatype','')))[:100]
        except Exception: pass
    return o[:70]
def show(g):
    for i,n in enumerate(g['nodes'],1): print('  ',i,short(n['op']),[(l['n'],l['p']) for l in n['ins']],'ord',n['ord'],'nout',n['nout'])
    print('   outs',[(l['n'],l['p']) for l in g['outs']],'nin',g['nin'],'lin',g['lin'],g.get('ok'),g.get('why'))
for f in glob.glob('/verif/build/out/C04/MatchTrace.*.json'):
    for c in json.load(open(f))['cases']:
        if c['id']==cid:
            print('target');show(c['target'])
            for i,p in enumerate(c['pats'],1):
                if not pn or i in pn: print('pattern',i);show(p)
            for r in c['runs']: print(r['name'],r['pats'],[f for f in r['found'] if not pn or f['pat'] in pn])
            print(c.get('bad'))
