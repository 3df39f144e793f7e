import json,sys,glob,collections
c=collections.Counter();ex={}
for f in sorted(glob.glob('/verif/replays/%s-*.json'%sys.argv[1])):
    v=json.load(open(f)); k=(v['family'],v['tag']); c[k]+=1; ex.setdefault(k,(v.get('index'),v.get('input','')[:200],v['msg'][:250]))
for k in c: print(k,c[k],*ex[k],sep='\n   ')
