import glob,json,sys,collections
d=collections.Counter(); ex={}
top=int(sys.argv[2]) if len(sys.argv)>2 else 8
w=int(sys.argv[3]) if len(sys.argv)>3 else 160
for f in glob.glob('/verif/build/out/%s/*.log'%sys.argv[1]):
    for l in open(f,errors='replace'):
        if l.startswith('"VERDICT '):
            v=json.loads(json.loads(l)[8:])
            if v['v']!='ok':
                k=(v['v'],v.get('side'),json.dumps(v['detail'])[:45] if v['v'] in('bad','unsup','limit') else v['id'].split('-')[0]); d[k]+=1; ex.setdefault(k,[]).append((v['id'],v.get('x'),json.dumps(v['detail'])[:w]))
for k,n in d.most_common(top): print(n,k,*ex[k][:2])
