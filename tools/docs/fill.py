import json,os,re,subprocess,sys
V='/verif'; s=open(V+'/tools/docs/DESIGN.in.md').read()
fx=[]
for l in open(V+'/known_findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: fx.append('* %s `%s`: %s'%(m[1],m[2],m[3]))
rows=[]
for d in sorted(os.listdir(V+'/seeded')):
    j=json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append((j['property'],d,j['needs']))
rows.sort()
m=open(V+'/tools/plant/mutants_list.py').read()+open(V+'/tools/plant/mutants_more.py').read()
n=subprocess.run(['git','-C','/repo','log','--format=%s','97ac987..HEAD'],capture_output=True,text=True).stdout.count('fix:')
s=s.replace('24 repairs',f'{n} repairs').replace('@FIXES@','\n'.join(fx)).replace('@NSEED@',str(len(rows))).replace('@SEEDTABLE@','\n'.join('| %s | %s | %s |'%r for r in rows))
s=s.replace('@NBREAK@',str(len(re.findall(r'^brk\(',m,re.M)))).replace('@NKEEP@',str(len(re.findall(r'^keep\(',m,re.M))))
s=s.replace('the commit store in PersistentStorage is volatile','PersistentStorage keeps its own order with a compiler fence')
open(sys.argv[1],'w').write(s)
