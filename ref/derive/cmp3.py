exec(open('/tmp/cmp.py').read().split("for p in sys.argv")[0])
H=lambda s:[int(x,16) for x in s.split()]
# names
n={}
for l in open('/tmp/godata/names.txt'):
    c,v=l.rstrip('\n').split(';',1); n[int(c,16)]=v
r=load(R+'name.txt')
d=[(hex(i),n.get(i,''),r[i]) for i in range(0x110000) if not 0xD800<=i<0xE000 and ('' if n.get(i,'').startswith('<') else n.get(i,''))!=r[i]]
print('names',len(d),d[:10])
print(set(v for v in n.values() if v.startswith('<')))
# norm
nm={}
for l in open('/tmp/godata/norm.txt'):
    c,ccc,nd,nk,ncc,nkc=l.rstrip('\n').split(';'); nm[int(c,16)]=(int(ccc),nd,nk)
ccc=load(R+'ccc.txt');nfd=load(R+'nfd.txt');nfkd=load(R+'nfkd.txt')
bad=[]
for i in range(0x110000):
    if 0xD800<=i<0xE000: continue
    g=nm.get(i,(0,'',''))
    s='%04X'%i
    x=(0 if ccc[i]=='0' else int(ccc[i]), nfd[i] or s, nfkd[i] or s)
    y=(g[0],g[1] or s,g[2] or s)
    if x!=y: bad.append((s,x,y))
print('norm',len(bad),bad[:20])
# composition
rc=set()
for l in open('/tmp/godata/recomp.txt'):
    a,b,c=[int(x,16) for x in l.strip().split(';')]; rc.add((a&0xffff,b&0xffff,c))
rs=set()
for l in open(R+'comp.txt'):
    a,b,c=[int(x,16) for x in l.strip().split(';')]; rs.add((a&0xffff,b&0xffff,c))
print('comp',len(rc),len(rs),rc^rs)
# python unicodedata check of single-step dm
import unicodedata as U
dm=load(R+'dm.txt');dmk=load(R+'dmk.txt');dt=load(R+'dt.txt')
bad=[]
for i in range(0x110000):
    if 0xD800<=i<0xE000 or not A10[i] : continue
    x=U.decomposition(chr(i))
    if x.startswith('<'): y=x.split('> ')[1]; k=dmk[i]
    else: y=x;k=dm[i]
    if 0xAC00<=i<=0xD7A3: continue
    if y!=k: bad.append((hex(i),x,k))
    if not x and (dm[i] or dmk[i]): bad.append((hex(i),x,dm[i],dmk[i]))
print('dm',len(bad),bad[:20])
# idna
cat={0x80:'Disallowed',0x08:'Valid',0x10:'?'}
g={}
for l in open('/tmp/godata/idna.txt'):
    c,k,m,*_=l.rstrip('\n').split(';'); g[int(c,16)]=(int(k),''.join(chr(x) for x in H(m)))
K={1:'Mapped',2:'DisallowedStd3Mapped',3:'Deviation',64:'Disallowed',128:'DisallowedStd3Valid',192:'Ignored',8:'Valid',24:'Valid',40:'Valid'}
rs=load(R+'idna.txt')
import ast
bad=[]
def un(s): 
    s=re.sub(r'\\u\{([0-9a-f]+)\}',lambda m:chr(int(m[1],16)),s)
    return s.replace('\\"','"').replace("\\'","'").replace('\\\\','\\').replace('\\t','\t').replace('\\n','\n').replace('\\r','\r').replace('\\0','\0')
for i in g:
    v=rs[i]; k=v.split('(')[0]; m=un(v[len(k)+2:-2]) if '(' in v else ''
    if K[g[i][0]]!=k or g[i][1]!=m: bad.append((hex(i),K[g[i][0]],g[i][1],v))
print('idna',len(bad),bad[:40])
# algorithmic names
bad=[(hex(i),r[i]) for i in range(0x110000) if n.get(i,'').startswith('<') and A10[i] and U.name(chr(i),'')!=r[i]]
print('algnames',len(bad),bad[:10])
# aliases
T={'correction':'NameCorrections','control':'ControlCodeNames','alternate':'AlternateNames','figment':'Figments','abbreviation':'NameAbbreviations'}
al=load(R+'alias.txt')
pa={}
for l in open(P+'alias.txt'):
    c,v=l.rstrip('\n').split(';',1); pa[int(c,16)]=v.split('|')
for i in range(0x110000):
    if 0xD800<=i<0xE000: continue
    d={}
    for x in pa.get(i,[]):
        nme,t=x.rsplit(': ',1); d.setdefault(T[t],[]).append(nme)
    p=al[i].split('|'); q={}
    for x in p[1:]:
        k,v=x.split('=',1); q[k]=v.split(',')
    if d!=q and A10[i]: print('alias',hex(i),d,al[i])
# case vs go
cs={}
for l in open('/tmp/godata/case.txt'):
    c,a,b,lo,up,ti,fo=l.rstrip('\n').split(';'); cs[int(c,16)]=(a,b,lo,up,ti,fo)
ca=load(R+'Cased.txt');ci=load(R+'CI.txt')
bad=[]
for i in range(0x110000):
    if 0xD800<=i<0xE000: continue
    a,b=cs.get(i,('0','0'))[:2]
    if (a=='1')!=(ca[i]=='Y') or (b=='1')!=(ci[i]=='Y'): bad.append((hex(i),a,b,ca[i],ci[i]))
print('cased/ci',len(bad),bad[:20])
# changes when: NFD(x) mapped
mp={i:[''.join(chr(x) for x in H(s)) for s in v[2:]] for i,v in cs.items()}
def m(s,k): return ''.join(mp[ord(c)][k] if ord(c) in mp else c for c in s)
for k,p in ((0,'CWL'),(1,'CWU'),(2,'CWT'),(3,'CWCF')):
    t=load(R+p+'.txt'); bad=[]
    for i in range(0x110000):
        if 0xD800<=i<0xE000: continue
        s=''.join(chr(x) for x in H(nm[i][1])) if i in nm else chr(i)
        if k==2: q=m(s[0],2)+m(s[1:],0)
        else: q=m(s,k)
        if (q!=s)!=(t[i]=='Y'): bad.append((hex(i),s,q,t[i]))
    print(p,len(bad),bad[:8])
