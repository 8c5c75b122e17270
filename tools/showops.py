import json,sys
d=json.load(open(sys.argv[1]))
def find(x):
    if isinstance(x,dict):
        if 'ops' in x: return x
        for v in x.values():
            r=find(v)
            if r: return r
    if isinstance(x,list):
        for v in x:
            r=find(v)
            if r: return r
c=find(d)
for i,o in enumerate(c['ops']): print(i+1,repr(o))
