# Builds /verif/ref/*.txt from the adjudicated dumps (see DESIGN.md, "Reference data").
exec(open('/verif/ref/derive/cmp.py').read().split("for p in sys.argv")[0])
O='/verif/ref/'
def rle(a,default,out):
    with open(O+out,'w') as f:
        i=0
        while i<0x110000:
            if 0xD800<=i<0xE000: i=0xE000; continue
            j=i
            while j+1<0x110000 and not 0xD800<=j+1<0xE000 and a[j+1]==a[i]: j+=1
            if a[i]!=default: f.write('%X;%X;%s\n'%(i,j,a[i]))
            i=j+1
for p,d in dict(gc='Cn',age='Unassigned',blk='No_Block',GCB='XX',WB='XX',SB='XX',ccc='0',dt='None',alias='None',dm='',dmk='').items():
    rle(load(R+p+'.txt'),d,p+'.txt')
for p in 'Bidi_M Bidi_C Alpha WSpace Lower Upper Cased CI CWL CWU CWT CWCF CWCM IDS IDC XIDS XIDC Pat_Syn Pat_WS NChar Emoji EPres EMod EBase EComp'.split():
    rle(load(R+p+'.txt'),'N',p+'.txt')
cl='L R EN ES ET AN CS B S WS ON BN NSM AL Control numClass LRO RLO LRE RLE PDF LRI RLI FSI PDI'.split()
g=[None]*0x110000
for l in open('/tmp/godata/bidi.txt'):
    c,k,*_=l.split(';'); g[int(c,16)]=cl[int(k)]
rle(g,'L','bc.txt')
g=[None]*0x110000
K={1:'M',2:'d3m',3:'dev',64:'X',128:'d3v',192:'ign',8:'V',24:'V',40:'V'}
for l in open('/tmp/godata/idna.txt'):
    c,k,m,*_=l.rstrip('\n').split(';'); g[int(c,16)]=K[int(k)]+':'+m
rle(g,'X:','idna.txt')
br=[l for l in open('/tmp/godata/bidi.txt') if not l.rstrip().endswith(';;')]
open(O+'brackets.txt','w').writelines(br)
with open(O+'names.txt','w') as f:
    for l in open('/tmp/godata/names.txt'):
        c,v=l.rstrip('\n').split(';',1)
        i=int(c,16)
        if v.startswith('<') or v.startswith('CJK COMPATIBILITY IDEOGRAPH-') or v.startswith('NUSHU CHARACTER-'): continue
        f.write('%X;%s\n'%(i,v))
open(O+'comp.txt','w').writelines(sorted(open(R+'comp.txt')))
