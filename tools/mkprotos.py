"""Generate lib/protos.json: name -> [ret, [[type,name],...]] from the public headers (run once, committed)."""
import re,glob,json,sys
out={}
for f in sorted(glob.glob('/repo/include/cconfigspace/*.h')):
    t=open(f).read()
    t=re.sub(r'/\*.*?\*/','',t,flags=re.S); t=re.sub(r'//.*','',t)
    t=re.sub(r'^#.*?(?<!\\)$','',t,flags=re.M)
    for m in re.finditer(r'extern\s+([A-Za-z_][\w\s\*]*?)\s*\b(ccs_\w+)\s*\(([^;{]*?)\)\s*;',t,flags=re.S):
        ret,name,args=m.group(1).strip(),m.group(2),' '.join(m.group(3).split())
        al=[]
        if args and args!='void':
            for a in args.split(','):
                a=a.strip()
                if a=='...': al.append(['...','']); continue
                mm=re.match(r'^(.*?)(\w+)$',a)
                ty=mm.group(1).strip().replace(' *','*').replace('* ','*')
                al.append([ty,mm.group(2)])
        out[name]=[ret,al]
json.dump(out,open('/verif/lib/protos.json','w'),indent=0,sort_keys=True)
print(len(out)); 
print(sorted({a[0] for v in out.values() for a in v[1]}))
