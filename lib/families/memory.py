"""Enumerated memory programs: statement sequences over possibly overlapping arrays, array loops, globals, local arrays."""
import itertools
import re
from harness import Unit, I, A, alias
from .control import Packer

# --- all statement sequences over arrays that may overlap -------------------------------------------------------------
SEQ = ["a[i]=x;", "x=x*3+a[j];", "b[0]=x;", "x=x+b[1];", "@g[i]=x+1;", "x=x-@g[0];", "a[1]=a[0]+1;", "@s=x;", "x=x+@s*5;", "if(x>i)a[0]=x;",
       "@h(a);", "l[i]=x;", "x=x+l[0]*7;", "k=0;while(k<3){a[k]=a[k]+x;k=k+1;}", "b[i]=a[j];", "x=@t(b,i);", "@g[0]=a[0];a[0]=@g[1];"]
GLOB = "int @g[4]={5,-6,7,8};int @s=3;void @h(int p[]){p[0]=p[0]+@s;@s=@s+1;}int @t(int p[],int i){return p[i]+p[0];}"


def seqs(n=3, stride=1, pre="mseq"):
    p = Packer(pre, k=12, glob=GLOB.replace("@", "ms@_"))
    m = 0
    for t in itertools.product(range(len(SEQ)), repeat=n):
        m += 1
        if stride > 1 and (m + m // len(SEQ)) % stride:
            continue
        pr = "ms%d_" % p.n
        body = "".join(SEQ[q] for q in t).replace("@", pr)
        f = "%sq%d" % (pre, m)
        yield from p.add("int %s(int a[],int b[],int i,int j){int x=i*4+j;int k=0;int l[4]={1,2,3,4};%sreturn x*10+l[1]+%ss+k;}" % (f, body, pr), f,
                         A([3, -4, 5, 6]), alias_arg(), I(0, 1, 2), I(0, 2))
    yield from p.flush()


def seqs_sep(n=3, stride=1):
    """the same sequences with two separate arrays"""
    p = Packer("msep", k=12, glob=GLOB.replace("@", "mt@_"))
    m = 0
    for t in itertools.product(range(len(SEQ)), repeat=n):
        m += 1
        if stride > 1 and (m + m // len(SEQ)) % stride:
            continue
        pr = "mt%d_" % p.n
        body = "".join(SEQ[q] for q in t).replace("@", pr)
        f = "mt%d" % m
        yield from p.add("int %s(int a[],int b[],int i,int j){int x=i*4+j;int k=0;int l[4]={1,2,3,4};%sreturn x*10+l[1]+%ss+k;}" % (f, body, pr), f,
                         A([3, -4, 5, 6]), A([10, 20, -30, 40]), I(0, 1, 2), I(0, 2))
    yield from p.flush()


def alias_arg():
    return alias(0, 0)


# --- array loops ------------------------------------------------------------------------------------------------------
IDX = ["i", "i+1", "i-1", "n-i", "i*2", "0", "i%2", "i/2", "x"]
OPS = ["%s=%s;", "%s=%s+i;", "%s=%s*x;", "%s=%s-a[i];"]
ARR16 = [3, -1, 4, 1, -5, 9, 2, -6, 5, 3, 5, 8, 9, -7, 9, 3, 2]
BRR16 = [7, 2, -8, 1, 8, -2, 8, 4, 5, -9, 0, 4, 5, 2, -3, 5, 1]


def array_loops(quick=True):
    """a[f(i)] = op(b[g(i)]) for every index pair, separate and identical arrays, rising and falling loops"""
    p = Packer("aloop", limit=5000)
    k = 0
    forms = [("a", "b"), ("a", "a")]
    dirs = ["int i=1;while(i<n){%si=i+1;}", "int i=n-1;while(i>=1){%si=i-1;}", "int i=1;while(i<n){%si=i+2;}"]
    for li, ri, (la, ra), o, d in itertools.product(IDX, IDX, forms, range(len(OPS)), range(len(dirs))):
        k += 1
        if quick and (k * 7 + k // 5) % 3:
            continue
        st = OPS[o] % ("%s[%s]" % (la, li), "%s[%s]" % (ra, ri))
        yield from p.add("int al%d(int a[],int b[],int n,int x){%sreturn a[0]+a[n]*3;}" % (k, dirs[d] % st), "al%d" % k,
                         A(ARR16), A(BRR16), I(1, 2, 3, 5, 8), I(0, 2))
    yield from p.flush()


RED = ["s=s+a[i];", "s=s+a[i]*b[i];", "if(a[i]>s)s=a[i];", "s=s+a[i]*a[n-1-i];", "s=s*2+a[i];", "if(a[i]==x)s=s+1;", "s=s+a[b0];", "a[i]=s;s=s+b[i];", "s=s-b[i];b[i]=s;",
       "if(a[i]<a[i+1]){int t=a[i];a[i]=a[i+1];a[i+1]=t;}", "a[i]=0;", "a[i]=1;s=s+a[0];", "a[i]=i;", "a[i]=x;b[i]=x;", "a[i]=b[i];", "a[i+1]=a[i]+a[i+1];", "b[0]=b[0]+a[i];", "b[i%4]=b[i%4]+1;",
       "s=s+a[i];if(s>20)break;", "if(a[i]<0){i=i+1;continue;}s=s+a[i];", "a[i]=a[i]+1;a[i]=a[i]*2;", "s=a[i];", "b[x]=a[i];", "s=s+b[x];b[i]=s;", "a[i]=a[i]+a[i+2];", "a[x]=a[x]+a[i];"]


def reductions():
    p = Packer("ared", limit=20000)
    k = 0
    heads = ["int i=0;while(i<n){%si=i+1;}", "int i=0;while(i<8){%si=i+1;}", "int i=n-1;while(i>=0){%si=i-1;}", "int i=0;while(i<n){int j=0;while(j<2){%sj=j+1;}i=i+1;}",
             "int i=0;while(i<n){%s%si=i+1;}", "int j=0;while(j<x){int i=0;while(i<n){%si=i+1;}j=j+1;}"]
    for h, r in itertools.product(heads, RED):
        if "i=i+1;continue" in r and ("i-1" in h or "j<2" in h):
            continue
        k += 1
        body = h % ((r,) * h.count("%s"))
        yield from p.add("int ar%d(int a[],int b[],int n,int x){int s=0;int b0=x+1;%sreturn s*3+a[1]+b[2];}" % (k, body), "ar%d" % k, A(ARR16), A(BRR16), I(0, 1, 2, 3, 4, 5, 7, 9, 13), I(0, 1, 4))
    for r1, r2 in itertools.product(RED, RED):
        if "continue" in r1 or "continue" in r2 or r1 == r2:
            continue
        k += 1
        yield from p.add("int ar%d(int a[],int b[],int n,int x){int s=0;int b0=x+1;int i=0;while(i<n){%si=i+1;}i=0;while(i<n){%si=i+1;}return s*3+a[1]+b[2];}" % (k, r1, r2), "ar%d" % k,
                         A(ARR16), A(BRR16), I(0, 1, 3, 6), I(1, 4))
    yield from p.flush()


# --- multi-dimensional arrays ------------------------------------------------------------------------------------------
MIDX = ["[i][j]", "[j][i]", "[i][0]", "[0][j]", "[i][i]", "[i+1][j]", "[i][j+1]", "[x][j]", "[i][x]"]


def matrices(quick=True):
    p = Packer("mat", limit=30000, glob="int mg@[6][6];int mh@[6][6];")
    loops = ["int i=0;while(i<n){int j=0;while(j<n){%sj=j+1;}i=i+1;}", "int j=0;while(j<n){int i=0;while(i<n){%si=i+1;}j=j+1;}", "int i=0;while(i<n){int j=0;while(j<=i){%sj=j+1;}i=i+1;}",
             "int i=0;while(i<4){int j=0;while(j<4){%sj=j+1;}i=i+1;}"]
    k = 0
    for l, a, b, form in itertools.product(range(len(loops)), MIDX, MIDX, range(4)):
        k += 1
        if quick and (k * 5 + k // 3) % 4:
            continue
        g, h = "mg%d" % p.n, "mh%d" % p.n
        st = ["@%s=@%s+1;" % (a, b), "@%s=#%s+i;" % (a, b), "#%s=@%s*2+j;s=s+#%s;" % (a, b, a), "s=s*3+@%s-#%s;" % (a, b)][form].replace("@", "p").replace("#", h)
        yield from p.add("int mt%d(int p[][6],int n,int x){int s=0;%sreturn s+p[1][2]+%s[2][1]*3;}" % (k, loops[l] % st, h), "mt%d" % k,
                         A([(v * 7) % 13 - 6 for v in range(36)]), I(0, 1, 2, 3, 5), I(0, 2))
        if k % 5 == 0:
            st = ["@%s=@%s+1;" % (a, b), "@%s=#%s+i;" % (a, b), "#%s=@%s*2+j;s=s+#%s;" % (a, b, a), "s=s*3+@%s-#%s;" % (a, b)][form].replace("@", g).replace("#", h)
            yield from p.add("int mu%d(int n,int x){int s=0;%s[1][1]=7;%s[0][2]=5;%sreturn s+%s[1][2]+%s[2][1]*3;}" % (k, g, h, loops[l] % st, g, h), "mu%d" % k, I(0, 1, 2, 3, 5), I(0, 2))
    yield from p.flush()


def matmul(quick=True):
    """every order of the three loops, separate or shared matrices, three zeroing styles, variable or constant bounds"""
    p = Packer("mm", k=3, limit=60000, glob="int ma@[8][8];int mb@[8][8];int mc@[8][8];")
    k = 0
    for o, bound, share, z in itertools.product(itertools.permutations("ijk"), ("n", "4"), range(3), range(3)):
        k += 1
        if quick and (k + k // 9) % 3:
            continue
        a, b, c = "ma%d" % p.n, "mb%d" % p.n, "mc%d" % p.n
        if share == 1:
            b = a
        if share == 2:
            c = a
        inner = "%s[i][j]=%s[i][j]+%s[i][k]*%s[k][j];" % (c, c, a, b)
        if z == 1:
            inner = "if(%s[i][k]!=0)" % a + "{" + inner + "}"
        if z == 2:
            inner = "t=t+%s[i][k]*%s[k][j];" % (a, b)
        s = inner
        for d, v in enumerate(reversed(o)):
            pre = post = ""
            if z == 2 and d == 0:
                pre, post = "t=0;", "%s[i%%8][j%%8]=t;" % c
            s = "%s%s=0;while(%s<%s){%s%s=%s+1;}%s" % (pre, v, v, bound, s, v, v, post)
        yield from p.add("int mm%d(int n,int x){int i=0;int j=0;int k=0;int t=0;while(i<8){j=0;while(j<8){%s[i][j]=i*x+j;%s[i][j]=i-j*x;j=j+1;}i=i+1;}%s"
                         "i=0;t=0;while(i<8){j=0;while(j<8){t=t*3%%1000007+%s[i][j]%%1000;j=j+1;}i=i+1;}return t;}" % (k, a, b, s, c), "mm%d" % k, I(0, 1, 2, 3, 5, 7), I(1, 3))
    yield from p.flush()


# --- globals, local arrays, tables -------------------------------------------------------------------------------------
def tables():
    """constant tables of every short shape, read by a variable index"""
    fns, src, un = [], [], 0
    shapes = [[v] * 8 for v in (0, 1, -1, 7)] + [[a + b * i for i in range(n)] for a in (0, 1, -3, 100) for b in (1, 2, -1, 3, 4, 7) for n in (4, 8, 9)]
    shapes += [[1 << i for i in range(n)] for n in (4, 8, 16, 31)] + [[(1 << i) - 1 for i in range(n)] for n in (4, 8, 16)] + [[i * i for i in range(8)], [i % 2 for i in range(8)], [i % 3 for i in range(9)], [i // 2 for i in range(8)]]
    shapes += [[0, 1, 2, 3, 4, 5, 6, 8], [1, 1, 1, 1, 1, 1, 1, 2], [2, 1, 1, 1, 1, 1, 1, 1], [0, 2, 4, 6, 8, 10, 12, 13], [1, 2, 4, 8, 16, 32, 64, 127], [1, 3, 9, 27, 81, 243, 729, 2187], [3, 6, 12, 24, 48, 96], [5, 4, 3, 2, 1, 0], [1, 0, 1, 0, 1, 0], [0, -1, -2, -3]]
    k = 0
    for s in shapes:
        for const in ("const int", "int"):
            k += 1
            n = len(s)
            t = "tb%d" % k
            src.append("%s %s[%d]={%s};int tf%d(int i){return %s[i];}int tg%d(int n){int r=0;int i=0;while(i<n){r=r*3+%s[i];i=i+1;}return r;}" % (const, t, n, ",".join(map(str, s)), k, t, k, t))
            fns += [("tf%d" % k, [I(*range(n))]), ("tg%d" % k, [I(0, 1, n - 1, n)])]
            if len(src) == 8:
                yield Unit("tab/%d" % un, "\n".join(src), fns, weight=8)
                fns, src, un = [], [], un + 1
    if src:
        yield Unit("tab/%d" % un, "\n".join(src), fns, weight=8)


GOPS = ["@=@+x;", "@=x;", "s=s+@;", "@=@*2;", "if(x>1)@=5;", "s=s*2+f@();", "while(s<20){s=s+@+7;@=@+1;}", "@=s;", "w@(x);", "@=@;"]


def globals_(n=3):
    """every sequence of operations on one scalar global in one function, with callees reading and writing it"""
    p = Packer("glob", k=12, glob="")
    k = 0
    for t in itertools.product(GOPS, repeat=n):
        k += 1
        g = "gv%d" % k
        body = "".join(t).replace("@", g)
        ro = "w" if k % 2 else "noinline"
        yield from p.add("int %s=%s;int f%s(){return %s*3;}void w%s(int y){%s=y+%s;}int gf%d(int x){int s=1;%sreturn s*7+%s;}" % (g, "4" if k % 3 else "0", g, g, g, g, g, k, body, g), "gf%d" % k, I(-1, 0, 1, 2, 9))
    yield from p.flush()


LOPS = ["l[0]=x;", "l[i]=x+1;", "x=x+l[1];", "x=x*2+l[i];", "l[2]=l[0];", "l[i]=l[i+1];", "{int m[3]={x,1};x=x+m[i]+m[2];}", "if(x>i)l[1]=9;", "x=x+u(l,i);", "l[3]=l[i]+l[3];"]
LINIT = ["int l[4]={};", "int l[4]={1,2};", "int l[4]={x,i,3,x+i};", "int l[2][2]={{1},{2,3}};"]


def locals_(n=3):
    p = Packer("locarr", k=12, glob="int u@(int p[],int i){return p[i]-p[0]*2;}")
    k = 0
    for li, t in itertools.product(LINIT[:3], itertools.product(LOPS, repeat=n)):
        k += 1
        if (k + k // 10) % 3:
            continue
        body = (li + "".join(t)).replace("u(l", "u%d(l" % p.n)
        yield from p.add("int lo%d(int x,int i){%sreturn x*7+l[0]+l[1]*3+l[2]*5+l[3]*11;}" % (k, body), "lo%d" % k, I(-3, 0, 2, 5), I(0, 1, 2))
    for k2, (a, b, c) in enumerate(itertools.product(["l[0][0]=x;", "l[i][0]=x;", "l[0][i]=x;", "l[i][i]=5;"], ["x=x+l[1][0];", "x=x+l[i][1];", "x=l[1][i]*2;", "l[1][1]=l[i][0];"], repeat=1) if False else itertools.product(["l[0][0]=x;", "l[i][0]=x;", "l[0][i]=x;", "l[i][i]=5;"], ["x=x+l[1][0];", "x=x+l[i][1];", "x=l[1][i]*2;", "l[1][1]=l[i][0];"], ["", "l[i][1-i]=x;", "x=x-l[0][i];"])):
        yield from p.add("int lp%d(int x,int i){%s%s%s%sreturn x*7+l[0][0]+l[0][1]*3+l[1][0]*5+l[1][1]*11;}" % (k2, LINIT[3], a, b, c), "lp%d" % k2, I(-3, 0, 2), I(0, 1))
    yield from p.flush()


def nest_stores(stride=1):
    """stores of a loop nest whose index mixes both loop variables: elements written several times, in a prescribed order"""
    nests = ["int i=0;while(i<n){int j=0;while(j<m){B j=j+1;}i=i+1;}", "int i=n-1;while(i>=0){int j=0;while(j<m){B j=j+1;}i=i-1;}", "int i=0;while(i<n){int j=m;while(j>0){B j=j-1;}i=i+1;}", "int i=0;while(i<n){int j=0;while(j<m){B j=j+2;}i=i+1;}", "int j=0;while(j<m){int i=0;while(i<n){B i=i+1;}j=j+1;}"]
    idx = ["[j*2+i]", "[i*2+j]", "[j*7+i]", "[i*7+j]", "[i+j]", "[j*3]", "[(i*j)%5]", "[j*5-i+6]", "[2*i-j+9]", "[j]", "[i]", "[j*4+i*4]"]
    bod = ["vXX=j;", "vXX=i;", "vXX=wYY;", "vXX=1;vYY=2;", "vXX=j*3;", "vXX=i*10+j;", "vXX=vXX*3+i;", "vXX=vYY+1;", "vXX=j;vYY=i;", "wXX=vYY+j;", "wXX=i;vYY=j;", "aXX=bYY+i;", "aXX=i;bYY=j;", "p[j]ZZ=i*7+j;", "p[i+j]ZZ=i*7-j;", "p[j][i]=p[i][j]+1;", "p[j+1][i]=i-j;p[j][i+1]=i*j;"]
    pk = Packer("ns", k=10, glob="int v@[50]={1,2,3,0,5};int w@[50];int p@[12][6]={{1,2},{3}};", limit=40000)
    bod += ["p[j]ZZ=j*i;"]
    k = 0
    for n, b in itertools.product(nests, bod):
        simple = "YY" not in b
        for x in (idx if "XX" in b or "ZZ" in b else idx[:1]):
            for y in (idx if not simple else idx[:1]):
                if "ZZ" in b and x not in ("[i]", "[j]", "[(i*j)%5]"):
                    continue
                for bi, bound in enumerate(("n", "5", "m")):
                    k += 1
                    if (k % stride) if not simple else (b not in bod[:2] + bod[4:5] + bod[-1:] and bi != k // 3 % 3 or (k * 7 // 3) % max(1, stride // 7)):
                        continue
                    body = b.replace("XX", x).replace("YY", y).replace("ZZ", x)
                    for g in "vwp":
                        body = body.replace(g + "[", g + "@[")
                    yield from pk.add(("void ns%d(int a[],int b[],int n,int m){%s}" % (k, n.replace("<m", "<" + bound).replace("j=m", "j=" + bound).replace("B", body))).replace("@", str(pk.n)), "ns%d" % k, A([1, 2, 3] + [0] * 47), alias(0, 0) if k % 2 else A([4, 5] + [7] * 48), I(0, 1, 3, 5), I(1, 2, 5))
    yield from pk.flush()


def mod_index():
    """an element selected by a remainder: the remainder of a negative multiple is zero, so the index says nothing about the sign of the dividend"""
    p = Packer("modidx", 20, glob="int mi_a@[12]={5,6,7,8,9,10,11,12,13,14,15,16};int mi_b@[3][4]={1,2,3,4,5,6,7,8,9,10,11,12};")
    k = 0
    X = I(-2147483647 - 1, -2147483640, -40, -36, -21, -20, -12, -8, -6, -5, -4, -3, -1, 0, 1, 3, 4, 5, 7, 8, 9, 35, 2147483647)
    idx = ["x%3", "x%4", "x%7", "x%10", "x%n", "x%12/2", "x*2%6", "x%5*2", "(x+1)%8", "x%8%3", "x%4+x%3", "x%3*4"]
    use = ["", "if(x<0)r=r+100;", "r=r+x/2;", "r=r+x%4;", "if(x>=0)r=-r;", "r=r*1000+x/n;", "x=x/8;r=r+x;", "if(x>-1){r=r+3;}else{r=r*7;}", "r=r+x%n*3;"]
    for i, u in itertools.product(idx, use):
        for form in (0, 1, 2):
            acc = ["int r=mi_a@[%s];" % i, "int r=mi_b@[%s][x%%4];" % i, "int r=1;if(n>0){mi_a@[%s]=x;r=mi_a@[(%s)/2];}" % (i, i)][form]
            if form == 1 and k % 3:
                k += 1
                continue
            fn = "mi_%d" % k
            f = "int %s(int x,int n){%s%sreturn r;}" % (fn, acc, u)
            if form != 2 and "n" in i:
                f = "int %s(int x,int n){if(n<=0)return -1;%s%sreturn r;}" % (fn, acc, u)
            yield from p.add(f.replace("@", str(p.n)), fn, X, I(-3, 1, 3, 4, 6, 8))
            k += 1
    yield from p.flush()


RL = ["a[i]", "b[1]", "@g[i]", "@s", "@q(a,i)", "@z(i)", "l[i]", "a[i+1]-b[i]"]
WL = ["a[k]=x+1;", "b[i]=x-k;", "@g[k]=x+5;", "@s=@s+k+1;", "@h(a);", "l[k]=x;", "@w(k);", "b[k+1]=b[k]+1;"]
STL = ["while(k<n){RWk=k+1;}", "while(k<n){WRk=k+1;}", "while(k<n){R if(k==i){W}k=k+1;}", "while(1){R k=k+1;if(k>n)break;W}", "while(k<n){int m=0;while(m<2){R W m=m+1;}k=k+1;}",
       "if(n>1){W}R", "if(n>1){R W}else{k=1;}R", "while(k<n){R k=k+1;}W R", "while(k<n){k=k+1;R if(x%2==0)continue;W}", "while(k<n){if(k%2==0){R}else{W}k=k+1;}"]


def reloads(stride=1):
    """a value read before, inside and after a piece of control flow which stores to a place that may or may not be the same: every
    pair of a read and a store in every structure"""
    p = Packer("rel", k=12, limit=4000, glob="int @g[4]={5,-6,7,8};int @s=3;void @h(int p[]){p[1]=p[0]+@s;}int @q(int p[],int i){return p[i]*2+p[0];}int @z(int i){return @g[i]*2+@s;}void @w(int i){@g[i]=@s+i;@s=i;}".replace("@", "rl@_"))
    m = 0
    for (si, st), (ri, r), (wi, w), pre in itertools.product(enumerate(STL), enumerate(RL), enumerate(WL), (1, 0)):
        m += 1
        if stride > 1 and (m + m // 16 + m // 128) % stride:
            continue
        if ri == 5 and wi not in (2, 3, 6) or ri == 6 and wi != 5 or ri not in (6,) and wi == 5:
            continue
        pr = "rl%d_" % p.n
        read = "x=x*3+" + r + ";"
        body = ((read if pre else "") + re.sub("[RW]", lambda t: read if t.group(0) == "R" else w, st) + read).replace("@", pr)
        f = "rel%d" % m
        yield from p.add("int %s(int a[],int b[],int i,int n){int x=i+1;int k=0;%s%sreturn x*5+a[1]-b[2]+%ss*7+%sg[2];}" % (
            f, "int l[4]={1,2,3,4};" if "l[" in body else "", body, pr, pr), f, A([3, -4, 5, 6, 2]), alias_arg(), I(0, 1, 2), I(0, 1, 3))
    yield from p.flush()
