"""Enumerated whole programs for the mode in which only main is visible (--hide-symbol): every other function and every
global variable belongs to the compiler, which may localise, specialise, fold or delete them."""
import itertools
import re
from harness import Unit

INS = [[0, 0, 0], [1, 4, 2], [3, -2, 5], [5, 3, -1]]


def prog(id, src, inp=INS, limit=20000):
    return Unit(id, src, [("main", [], inp)], ("LIMIT %d" % limit, "DEPTH 200"))


KINDS = [("S", "int G=3;", "G"), ("Z", "int G;", "G"), ("A", "int G[5]={7,8};", "G[(@+5)%5]"), ("M", "int G[2][3]={{1},{2,3}};", "G[(@+6)%2][(@+6)%3]"), ("F", "float G=1.5;", "G"), ("B", "int G[9];", "G[(@+9)%9]")]
MAINP = ["PUT(R(x));", "R(y)=x;", "R(x)=R(y)+x;", "i=0;while(i<n){R(i)=R(i)+i;i=i+1;}", "i=0;while(i<n){h(i);i=i+1;}", "x=x+h(y);", "if(x>2)R(y)=5;else y=y+1;", "x=R(y)+R(x);", "i=0;while(i<n){PUT(R(i));R(i)=R(i)+1;i=i+1;}", "i=0;while(i<n){x=x+R(i);h(x);i=i+2;}", "if(y>2){h(3);}"]
HELP = ["return p+1;", "return R(p)*2+p;", "R(p)=p;return 1;", "R(p)=R(p)+p;return R(p);", "if(p<=0)return R(p);R(p)=R(p)+1;return h(p-1);", "if(p%2)R(p)=p;return 0;", "putint(p);return 2;", "int j=0;int s=0;while(j<4){s=s+R(j);j=j+1;}return s;", "R(p)=1;R(p+1)=2;return R(p);"]


def _callee(t, name):
    return re.sub(r"\bh\(", name + "(", t)


def _subst(t, ref):
    prev = None
    while prev != t:
        prev = t
        t = re.sub(r"R\(([^()]*)\)", lambda m: ref.replace("@", m.group(1)), t)
    return t


def globals_(n=2, stride=1, off=0):
    """one global of every kind x every helper x every sequence of n main statements; the global is private to the program"""
    k = 0
    for kn, decl, ref in KINDS:
        put = "putfloat(" if kn == "F" else "putint("
        for hi, h in enumerate(HELP):
            for seq in itertools.product(range(len(MAINP)), repeat=n):
                k += 1
                if (k + off) % stride:
                    continue
                name = "_cmmc_noinline_h" if (k // 3) % 2 else "h"
                src = "%s int h(int p){%s} int main(){int n=getint();int x=getint();int y=getint();int i=0;%s putint(x);putch(32);%sreturn y;}" % (
                    decl, h, "".join(MAINP[s] for s in seq), "PUT(R(1));" if (k // 7) % 2 else "")
                yield prog("wg%s%d_%s" % (kn, hi, "".join("%x" % s for s in seq)), _callee(_subst(src, ref).replace("PUT(", put), name))


def args(stride=1):
    """how the arguments of a private function are used and passed: constants at every call site, dead parameters, unused results"""
    bodies = ["return a;", "return a*10+b;", "if(b>0)putint(a);return 7;", "g=g+a;return b;", "putint(b);return a;", "int s=0;while(b>0){s=s+a;b=b-1;}return s;", "if(b<=0)return a;return h(REC)+1;", "if(b<=0){putint(a);return 3;}putint(b);return h(REC);", "if(b<=0)return 0;g=g+a;h(REC);return a;", "a=a+1;return a*b;"]
    recs = ["a,b-1", "b,b-1", "3,b-1", "a+b,b-2"]
    acts = ["3", "x", "0", "y"]
    calls = ["x=x+h(P);", "h(P);", "if(y>1)x=h(P);", "i=0;while(i<n){x=x+h(P);i=i+1;}"]
    k = 0
    for b in bodies:
        for rec in (recs if "REC" in b else [""]):
            for c1, c2 in itertools.product(calls, repeat=2):
                for a1, b1, a2, b2 in itertools.product(acts, repeat=4):
                    k += 1
                    if k % stride:
                        continue
                    nm = "_cmmc_noinline_h" if (k // stride) % 3 else "h"
                    yield prog("wa%d" % k, _callee("int g=1;int h(int a,int b){%s}int main(){int n=getint();int x=getint();int y=getint();int i=0;%s%sputint(g);return x;}" % (
                        b.replace("REC", rec), c1.replace("P", a1 + "," + b1), c2.replace("P", a2 + "," + b2)), nm))


def refs(stride=1):
    """references to scalars: array parameters only read, written, passed on, aliased by another argument or by a global"""
    bodies = ["return a[0];", "b[0]=n+5;return a[0];", "g[0]=n+7;return a[0];", "int t=a[0];b[0]=n;return t+a[0];", "if(n<=0)return a[0];b[0]=b[0]+1;return h(REC);", "if(n<=0)return a[0];putint(a[0]);return h(REC)+1;", "if(n>0)return a[0];return b[0];", "a[0]=n;return b[0];", "w(b);return a[0];", "putint(a[0]);w(g);putint(a[0]);return 1;", "int s=0;while(n>0){s=s+a[0];b[0]=s;n=n-1;}return s;", "b[1]=3;return a[0]*b[0];"]
    recs = ["a,b,n-1", "b,a,n-1", "a,a,n-1", "b,b,n-2"]
    places = ["l", "g", "m[1]", "q"]
    decls = "int g[3]={4,5,6};int m[2][3]={{1,2},{3}};"
    k = 0
    for b in bodies:
        for rec in (recs if "REC" in b else [""]):
            for p1, p2 in itertools.product(places, repeat=2):
                for loop in (0, 1):
                    k += 1
                    if k % stride:
                        continue
                    for nm in ("h", "_cmmc_noinline_h"):
                        body = "x=x+h(%s,%s,y);" % (p1, p2)
                        if loop:
                            body = "i=0;while(i<n){x=x*3+h(%s,%s,i);i=i+1;}" % (p1, p2)
                        yield prog("wr%d%s" % (k, "n" if len(nm) > 1 else "i"), _callee("%svoid w(int z[]){z[0]=z[0]+1;}int h(int a[],int b[],int n){%s}int main(){int n=getint();int x=getint();int y=getint();int i=0;int l[3]={x,1};int q[2]={9,8};%sputint(x);putint(l[0]);putint(q[0]);return g[0]+m[1][0];}" % (
                            decls, b.replace("REC", rec), body), nm))


def twoglobals(stride=1):
    """two globals and two functions: where one is only stored, only read, read before it is written, or written between calls"""
    st = ["a=x;", "b=a+1;", "a=b*2;", "x=x+a;", "x=x+b;", "f();", "k(x);", "if(x>3)a=1;", "c[x%3+2]=a;", "x=c[2]+b;"]
    fs = ["a=a+1;", "b=a;", "putint(b);", "c[1]=c[1]+b;", ""]
    ks = ["b=p;", "a=p+b;", "putint(a+p);", "c[p%3+2]=p;", "if(p>2)f();"]
    n = 0
    for i1, i2 in itertools.product(fs, ks):
        for seq in itertools.product(st, repeat=3):
            n += 1
            if n % stride:
                continue
            fin = ["putint(x);", "putint(a+x);", "putint(b+x);", "putint(c[2]);"][n // stride % 4]
            no = (n // stride // 4) % 3
            f, k = ("f", "k") if no == 0 else ("_cmmc_noinline_f", "k") if no == 1 else ("_cmmc_noinline_f", "_cmmc_noinline_k")
            yield prog("w2_%d" % n, ("int a=2;int b;int c[5]={0,1,2};void f(){%s}void k(int p){%s}int main(){int x=getint();int t=getint();while(t>0){%st=t-1;}%s return 0;}" % (i1, i2, "".join(seq), fin)).replace("f()", f + "()").replace("k(", k + "("), [[0, 1], [1, 3], [4, 2], [7, 0]])


def loops(stride=1):
    """loop nests in main over private arrays: values read back after every kind of traversal"""
    nests = ["i=0;while(i<n){j=0;while(j<m){B j=j+1;}i=i+1;}", "j=0;while(j<m){i=0;while(i<n){B i=i+1;}j=j+1;}", "i=n-1;while(i>=0){j=0;while(j<m){B j=j+1;}i=i-1;}", "i=0;while(i<n){j=m;while(j>0){B j=j-1;}i=i+1;}", "i=0;while(i<n){j=i;while(j<m){B j=j+2;}i=i+1;}", "i=0;while(i<n){j=0;while(j<m){B j=j+1;}s=s*2+i;i=i+1;}"]
    idx = ["i*4+j", "j*4+i", "j*2+i", "i*2+j*3", "i+j", "j*6", "i", "(i*j)%5", "j*5-i+8", "2*i-j+9"]
    bod = ["v[X]=i*10+j;", "v[X]=v[X]+i;", "v[X]=v[Y]+1;", "s=s+v[X]*v[Y];", "v[X]=j;v[Y]=i;", "if(v[X]<5)v[X]=s+j;s=s+1;", "w[X]=v[Y]+j;", "s=s+v[X];v[Y]=s;"]
    k = 0
    for n, b in itertools.product(nests, bod):
        for x in idx:
            for y in (idx if "Y" in b else idx[:1]):
                k += 1
                if k % stride:
                    continue
                yield prog("wl%d" % k, "int v[40]={1,2,3,0,5};int w[40];int main(){int n=getint();int m=getint();int i;int j;int s=0;%s i=0;while(i<40){s=(s*3+v[i]+w[i])%100003;i=i+1;}putint(s);return 0;}".replace("%s",n.replace("B", b.replace("X", x).replace("Y", y))), [[0, 1], [1, 1], [3, 2], [2, 5], [5, 4]])


def braces(stride=1):
    """every brace structure as the initialiser of a private global that main (and sometimes a helper) reads and writes"""
    from . import inits
    k = 0
    for dims, lim in inits.DIMS:
        d = "".join("[%d]" % x for x in dims)
        n = inits._size(dims)
        if n > 16:
            continue
        for s in inits.shapes(dims, lim):
            k += 1
            if (k * 2654435761 >> 7) % stride:
                continue
            form = k % 4
            ty = "float" if k % 5 == 0 else "int"
            put = "putfloat" if ty == "float" else "putint"
            ini = inits.render(s, iter([str(7 * (i + 1) % 23 + 1) for i in range(40)]))
            idx, rem = "", n
            for x in dims:
                rem //= x
                idx += "[(i/%d)%%%d]" % (rem, x) if rem > 1 else "[i%%%d]" % x
            at = lambda e: idx.replace("i", "(%s)" % e)  # noqa: E731
            lit = "".join("[%d]" % (x - 1) for x in dims)
            show = "i=0;while(i<%d){%s(g%s);putch(32);i=i+1;}" % (n, put, idx)
            if form == 0:
                b = show + "g%s=x;%s(g%s);" % (at("x+8"), put, lit)
            elif form == 1:
                b = "g%s=g%s+y;" % (at("n"), lit) + show
            elif form == 2:
                b = "int t=0;while(t<2){%s g%s=t;t=t+1;}" % (show, lit)
            else:
                b = "if(x>1)g%s=5;%s(g%s);%s" % (lit, put, at("y+6"), show)
            yield prog("wb%d" % k, "%s g%s=%s;int main(){int n=getint();int x=getint();int y=getint();int i;%s return 0;}" % (ty, d, ini, b))


def matrices(stride=1):
    """private square and rectangular matrices walked along rows and columns in every loop order (which invites a change of layout),
    together with every other way of touching them"""
    decls = ["int A[8][8];int B[8][8];", "int A[8][8];int B[8][8]={{1,2},{3}};", "int A[8][6];int B[6][8];", "float A[8][8];int B[8][8];", "int A[8][8];int B[64];"]
    fills = ["i=0;while(i<LI){j=0;while(j<LJ){A[i][j]=i*10+j-x;j=j+1;}i=i+1;}", "j=0;while(j<LJ){i=0;while(i<LI){A[i][j]=i*10+j-x;i=i+1;}j=j+1;}"]
    walks = [
        "j=0;while(j<LJ){i=0;while(i<LI){s=s+A[i][j]*(i+2*j);i=i+1;}j=j+1;}",
        "k=0;while(k<3){j=0;while(j<LJ){i=0;while(i<LI){A[i][j]=A[i][j]+k*i-j;i=i+1;}j=j+1;}k=k+1;}",
        "j=0;while(j<LJ){i=0;while(i+1<LI){A[i+1][j]=A[i][j]*3%101+j;i=i+1;}j=j+1;}",
        "j=0;while(j<LJ-1){i=0;while(i<LI){A[i][j+1]=A[i][j]+i;i=i+1;}j=j+1;}",
        "i=0;while(i<6){j=0;while(j<6){k=0;while(k<6){A[i][j]=A[i][j]+W(i,k)*W(k,j)%7;k=k+1;}j=j+1;}i=i+1;}",
        "k=0;while(k<6){j=0;while(j<6){i=0;while(i<6){s=(s+A[i][j]*W(j,k))%1009;i=i+1;}j=j+1;}k=k+1;}",
        "j=0;while(j<LJ/2){i=0;while(i<LI/2){s=s+A[i*2][j*2+1];A[i*2+1][j]=s%50;i=i+1;}j=j+1;}",
        "j=0;while(j<LJ){i=0;while(i<LI){W(i%6,j%6)=A[i][j]%9;i=i+1;}j=j+1;}",
    ]
    uses = [
        "", "s=s+row(A[x%6]);", "s=s+all(A);", "PA(6,A[2]);", "A[x%6][n%6]=5;s=s+A[n%6][x%6];", "int t[8][8];t[1][2]=3;s=s+t[1][2];", "A[0][0]=A[0][0]+1;A[5][1]=A[1][5]-A[0][0];",
        "x=n;while(x>0){A[x%5][0]=x;A[0][x%5]=A[x%5][0]+1;x=x-1;}",
    ]
    k = 0
    for d, f, (w1, w2), u in itertools.product(decls, fills, itertools.permutations(walks, 2), uses):
        k += 1
        if k % stride:
            continue
        li, lj = (8, 6) if "A[8][6]" in d else (8, 8)
        flt = "float A" in d
        if flt and ("%101" in w1 + w2 or "W(i,k)" in w1 + w2 or "%50" in w1 + w2 or "%9;" in w1 + w2 or "%1009" in w1 + w2):
            continue
        ty = "float" if flt else "int"
        wref = "B[(%s)*8+(%s)]" if "B[64]" in d else "B[%s][%s]"
        body = f + w1 + u + w2
        body = re.sub(r"W\(([^(),]+),([^(),]+)\)", lambda m: wref % (m.group(1), m.group(2)), body)
        cols = lj
        src = "%sint row(%s a[]){return a[1]*2+a[3];}int all(%s a[][%d]){int r=0;int q=0;while(q<5){r=r+a[q][q+1]*q;q=q+1;}return r;}" % (d, ty, ty, cols)
        b = wref % ("2", "3")
        src += "int main(){int n=getint();int x=getint();int i=0;int j=0;int k=0;%s s=0;%s" % (ty, body.replace("PA(", "putfarray(" if flt else "putarray("))
        src += "%s(s);putch(10);i=0;while(i<%d){j=0;while(j<%d){%s(A[i][j]);putch(32);j=j+n+1;}i=i+1;}putint(%s);return 0;}" % ("putfloat" if flt else "putint", li, lj, "putfloat" if flt else "putint", b)
        src = src.replace("LI", str(li)).replace("LJ", str(lj))
        yield prog("mat/%d" % k, src, [[0, 0], [1, 4], [3, 2], [2, 11]], 60000)
