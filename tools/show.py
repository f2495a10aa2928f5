import json,sys
def cut(x):
    if isinstance(x,str) and len(x)>400: return x[:200]+'...[%d]'%len(x)
    if isinstance(x,dict): return {k:cut(v) for k,v in x.items()}
    if isinstance(x,list): return [cut(v) for v in x]
    return x
n=int(sys.argv[2]) if len(sys.argv)>2 else 3
for v in json.load(open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/replays/%s.json'%sys.argv[1]))[:n]: print(json.dumps(cut(v)))
