"""pretty-print the program of a violation"""
import json,sys
v=json.load(open('/verif/build/out/%s/violation_%s.json'%(sys.argv[1],sys.argv[2]))); p=v['info']
print(v['v'],'side',v['side'],'x',v['x'])
def pr(b,ind=1):
    for s in b:
        if isinstance(s,dict):
            for t,x in s.items():
                if t=='Op': print('  '*ind, x['o'],'=',x['op'],x['i'],x['p'] or '',x['s'])
                else:
                    print('  '*ind,t,{a:c for a,c in x.items() if a not in('t','e','body')})
                    for a in ('t','e','body'):
                        if a in x: print('  '*ind,a+':'); pr(x[a],ind+1)
for f in p['funcs']: print(f['name'],f['ins'],f['outs'],[(k,str(t)) for k,t in enumerate(f['vars'])]); pr(f['body'])
if len(sys.argv)>3:
    d=v['detail']
    if isinstance(d,dict):
        for k in d:
            for x in d[k]: print(k,x[:int(sys.argv[3])])
    else: print(d)
