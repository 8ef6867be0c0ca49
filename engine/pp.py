import json,sys
F=json.load(open(sys.argv[1]))
T=F['types']
def ty(i):
    return T[i].get('s','?') if isinstance(i,int) else str(i)
pat=sys.argv[2]
for b in F['bodies']:
    if b['path']==pat or (len(sys.argv)>3 and pat in b['path']):
        print('BODY',{k:v for k,v in b.items() if k not in('blocks','locals')})
        for i,l in enumerate(b['locals']): print('  _%d: %s %s'%(i,ty(l[0]),l[1]))
        for i,bl in enumerate(b['blocks']):
            if bl['c']: continue
            print(' bb%d'%i)
            for s in bl['s']: print('    ',json.dumps(s))
            print('    T',json.dumps(bl['t']))
