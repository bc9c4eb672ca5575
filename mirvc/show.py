#!/usr/bin/env python3
"""Pretty printer for the MIR dump (debugging aid):  show.py <dump.json> <function path suffix>"""
import json, sys
def pl(p):
    s=f"_{p[0]}"
    for e in p[1]:
        if e[0]=='deref': s=f"(*{s})"
        elif e[0]=='field': s+=f".{e[1]}"
        elif e[0]=='downcast': s+=f" as v{e[1]}"
        else: s+=f".{e}"
    return s
def op(o):
    if o[0] in('copy','move'): return o[0][0]+' '+pl(o[1])
    c=o[1]
    return 'const '+json.dumps(c)[:200] if c.get('k')!='fn' else 'fn '+c['path']+(' => '+c['res'] if c.get('res') else '')+(f" ctor={c['ctor']}" if c.get('ctor') else '')
def rv(r):
    def g(x):
        if isinstance(x,list) and x and x[0] in('copy','move','const') and len(x)==2: return op(x)
        if isinstance(x,list) and len(x)==2 and isinstance(x[0],int) and isinstance(x[1],list): return pl(x)
        if isinstance(x,list): return '['+', '.join(g(y) for y in x)+']'
        return str(x)
    return g(r)
if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    for k,v in d['fns'].items():
        if not k.endswith(sys.argv[2]): continue
        print('FN',k,'args',v['body']['args'])
        for n in v['body']['names']: print('   name',n[0],pl(n[1]) if isinstance(n[1],list) else n[1])
        for i,b in enumerate(v['body']['blocks']):
            if b['cleanup']: continue
            print(f' bb{i}: @{b["at"]}')
            for s in b['s']:
                if s[0]=='assign': print('   ',pl(s[1]),'=',rv(s[2]))
                else: print('   ',s)
            t=b['t']
            if t[0]=='call': print('    CALL',op(t[1]),[op(a) for a in t[2]],'->',pl(t[3]),'bb',t[4])
            else: print('   ',rv(t))
