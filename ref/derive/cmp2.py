exec(open('/tmp/cmp.py').read().split("for p in sys.argv")[0])
from itertools import groupby
def rr(d):
    out=[]
    for i,x,y in d:
        if out and out[-1][1]==i-1 and out[-1][2:]==[x,y]: out[-1][1]=i
        else: out.append([i,i,x,y])
    return ['%04X-%04X ref=%s rs=%s'%tuple(o) for o in out]
G={'Other':'XX','Control':'CN','Extend':'EX','Prepend':'PP','SpacingMark':'SM','Regional_Indicator':'RI','ExtPict_XX':'XX','ExtPict_LV':'XX'}
W={'Other':'XX','Perl_Tailored_HSpace':'XX','WSegSpace':'XX','Newline':'NL','Double_Quote':'DQ','Single_Quote':'SQ','MidNum':'MN','Numeric':'NU','MidNumLet':'MB','MidLetter':'ML','ALetter':'LE','ExtendNumLet':'EX','ExtPict_XX':'XX','ExtPict_LE':'LE','Format':'FO','Extend':'Extend','Katakana':'KA','Hebrew_Letter':'HL','Regional_Indicator':'RI'}
S={'Other':'XX','STerm':'ST','Close':'CL','SContinue':'SC','ATerm':'AT','Numeric':'NU','Upper':'UP','Lower':'LO','Sep':'SE','Format':'FO','OLetter':'LE','Sp':'SP','Extend':'EX'}
for p,M in(('GCB',G),('WB',W),('SB',S)):
    a=load(P+p+'.txt'); b=load(R+p+'.txt')
    d=[(i,M.get(a[i],a[i]),b[i]) for i in range(0x110000) if not 0xD800<=i<0xE000 and M.get(a[i],a[i])!=b[i] and A10[i]]
    u=[(i,M.get(a[i],a[i]),b[i]) for i in range(0x110000) if not 0xD800<=i<0xE000 and M.get(a[i],a[i])!=b[i] and not A10[i]]
    print('==',p,len(d),len(u)); print('\n'.join(rr(d)[:90])); print('  UN',len(rr(u)),rr(u)[:8])
# go bidi
cl='L R EN ES ET AN CS B S WS ON BN NSM AL Control numClass LRO RLO LRE RLE PDF LRI RLI FSI PDI'.split()
g={}
for l in open('/tmp/godata/bidi.txt'):
    c,k,*_=l.split(';'); g[int(c,16)]=cl[int(k)] if int(k)<50 else '?'
b=load(R+'bc.txt')
print('== go bc'); print('\n'.join(rr([(i,g[i],b[i]) for i in sorted(g) if g[i]!=b[i]])))
