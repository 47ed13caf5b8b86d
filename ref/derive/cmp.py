import sys
def load(p):
    a=[None]*0x110000
    for l in open(p):
        if l[0]=='#': continue
        s,e,v=l.rstrip('\n').split(';',2)
        s,e=int(s,16),int(e,16)
        for i in range(s,e+1): a[i]=v
    return a
P='/tmp/perldata/';R='/tmp/rsdata/'
age=load(P+'age.txt')
def a10(i): 
    return age[i]!='Unassigned' and float(age[i])<=10.0
import re
norm=lambda v:re.sub('[^a-z0-9]','',str(v).lower())
A10=[a10(i) for i in range(0x110000)]
# assigned check with Go
asg=set(int(l,16) for l in open('/tmp/godata/assigned.txt'))
gc=load(P+'gc.txt')
print('assigned diff', [hex(i) for i in range(0x110000) if not 0xD800<=i<0xE000 and gc[i] not in('Cn',) and A10[i]!=(i in asg)][:10], [hex(i) for i in asg if not A10[i]][:5])
for p in sys.argv[1:] or 'gc age blk bc Bidi_M Bidi_C GCB WB SB Alpha WSpace Lower Upper Cased CI CWL CWU CWT CWCF CWCM IDS IDC XIDS XIDC Pat_Syn Pat_WS NChar Emoji EPres EMod EBase EComp dt ccc'.split():
    a=load(P+p+'.txt'); b=load(R+p+'.txt')
    d=[];du=[]
    for i in range(0x110000):
        if 0xD800<=i<0xE000: continue
        if norm(a[i])!=norm(b[i]):
            (d if A10[i] else du).append((i,a[i],b[i]))
    from itertools import groupby
    def rr(d):
        out=[];
        for i,x,y in d:
            if out and out[-1][1]==i-1 and out[-1][2:]==[x,y]: out[-1][1]=i
            else: out.append([i,i,x,y])
        return ['%04X-%04X perl=%s rs=%s'%tuple(o) for o in out]
    r=rr(d);u=rr(du)
    print('==',p,len(d),len(du)); print('\n'.join(r[:40])); 
    if len(u)<40: print('  unassigned10:','; '.join(u))
    else: print('  unassigned10 ranges:',len(u), '; '.join(u[:6]))
