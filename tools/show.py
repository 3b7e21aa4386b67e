import json,sys
d=json.load(open(sys.argv[1]))
print({k:v for k,v in d.items() if k not in('findings','samples')})
n=int(sys.argv[2]) if len(sys.argv)>2 else 25
for f in d['findings'][:n]: print('-',f['unit'],f['key'],f['msg'][:500])
