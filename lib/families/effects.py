"""Enumerated programs whose observation is an I/O history: order, number and values of reads, writes and calls."""
import itertools
from harness import Unit, I, F, A, FA
from .control import Packer

GL = "int eg@=3;int ea@[4]={1,2,3,4};float ef@=1.5;int _cmmc_noinline_t@(int x){putint(x);return x%2;}int u@(int x){putint(x);putch(32);return x%2;}int _cmmc_noinline_s@(int x){eg@=eg@*2+x;return eg@;}void _cmmc_noinline_w@(int p[],int i){p[i%4]=p[i%4]+1;putint(p[i%4]);}int _cmmc_noinline_p@(int x){return x*x-1;}float fw@(float x){putfloat(x);return x+1;}"

STM = ["putint(x);", "putch(y%50+48);", "putint(eg@);", "eg@=eg@+x;", "x=getint();", "if(getint())putint(1);else y=y+1;", "putarray(3,ea@);", "ea@[x%4]=y;", "_cmmc_noinline_t@(x);", "u@(y);", "x=_cmmc_noinline_s@(y);", "_cmmc_noinline_w@(ea@,y);", "y=getarray(ea@);", "putfloat(ef@);", "ef@=ef@+x;", "x=x-y;", "if(x>y)return x;", "_cmmc_noinline_p@(x);", "ef@=fw@(ef@);", "y=getch();", "while(x<3){x=x+1;putint(x);}", "ef@=getfloat();"]
INS = [[1, 2, 3, 4, 5, 6, 7, 8, 9], [0, 0, 2, 1, 0, 3, 3, 0, 1], [3, 1, 0, 2, 2, 1, 1, 1, 1]]


def stmts(n, stride=1, pre="st"):
    p = Packer(pre + str(n), k=12, glob=GL, limit=4000)
    k = 0
    for t in itertools.product(STM, repeat=n):
        k += 1
        if k % stride:
            continue
        yield from p.add("int %s%d_%d(int x,int y){%sreturn x*10+y+eg@;}".replace("%s", pre, 1).replace("%d", str(n), 1).replace("%d", str(k), 1).replace("%s", "".join(t)).replace("@", str(p.n)), "%s%d_%d" % (pre, n, k), I(0, 5), I(1, 2), inp=INS)
    yield from p.flush()


def _trees(n):
    """boolean trees with n leaves (leaf = #)"""
    if n == 1:
        yield "#"
        yield "!#"
        return
    for a in range(1, n):
        for l in _trees(a):
            for r in _trees(n - a):
                for o in ("&&", "||"):
                    yield "(%s%s%s)" % (l, o, r)


def shortcircuit(quick=True):
    p = Packer("sc", k=16, glob=GL, limit=4000)
    k = 0
    use = ["if(@)putint(100);else putint(200);", "while(@){putint(100);x=x+1;if(x>2)return 5;}", "if(!@)putint(100);return 7;", "int r=0;if(@){r=3;}putint(r);"]
    for n in (2, 3, 4):
        for i, t in enumerate(_trees(n)):
            if n == 4 and (quick and i % 5 or not quick and i % 2):
                continue
            for j in range(2 if n < 4 else 1):
                k += 1
                # leaves: effectful calls, comparisons, reads, memory changed by earlier leaves
                kinds = [["_cmmc_noinline_t@(x+%d)", "u@(y+%d)", "_cmmc_noinline_s@(x+%d)%%3==1", "getint()==%d", "x>%d", "eg@>%d"][(k * 7 + q * 5 + (k // 9)) % 6] for q in range(n)]
                e = t
                for q in range(n):
                    e = e.replace("#", ("(%s)" % kinds[q]) % q, 1)
                yield from p.add(("int sc%d(int x,int y){%sreturn eg@*10+x;}" % (k, use[(k // 2) % 4].replace("@", "#E#"))).replace("#E#", e).replace("@", str(p.n)), "sc%d" % k, I(0, 1), I(0, 1), inp=[[0, 1, 2, 3, 1, 1, 1, 1, 0, 0, 1, 0, 0, 0, 0, 0], [1, 0, 0, 2, 1, 0, 1, 0, 1, 1, 0, 1, 0, 0, 0, 0]])
    yield from p.flush()


def loops(quick=True):
    """effects inside loops: number and order of calls for every trip count"""
    p = Packer("el", k=10, glob=GL, limit=20000)
    k = 0
    heads = ["int i=0;while(i<n){B i=i+1;}", "int i=n;while(i>0){B i=i-1;}", "int i=0;while(i<n){int j=0;while(j<i){B j=j+1;}i=i+1;}", "int i=0;while(1){if(i>=n)break;B i=i+1;}", "int i=0;while(getint()>0){B i=i+1;}", "int i=0;while(u@(i)==0&&i<n){B i=i+2;}", "int i=0;while(i<n&&_cmmc_noinline_t@(i+x)<2){B i=i+1;}", "int i=0;while(i<10){B if(i==n)return i;i=i+1;}"]
    bodies = ["putint(i);", "putint(x);", "putint(eg@);eg@=eg@+1;", "if(i%2)putint(i);", "if(i%3==1){i=i+1;continue;}putint(i);", "x=x+_cmmc_noinline_s@(i)%7;", "_cmmc_noinline_w@(ea@,i);", "putint(ea@[i%4]);ea@[(i+1)%4]=i;", "u@(x);x=x+1;", "_cmmc_noinline_p@(i);", "int t=getint();putint(t+x);", "x=getint();", "ef@=ef@*0.5+i;putfloat(ef@);", "if(x==i)break;putch(65+i%26);", "putarray(i%4,ea@);", "int l[3]={i,x,n};putarray(3,l);", "_cmmc_noinline_t@(i);_cmmc_noinline_t@(x);", "x=x+eg@;eg@=i;", "ea@[i%4]=getint();", "if(_cmmc_noinline_t@(x))x=x+1;else x=x+3;", "putint(i/3);putint(i*x);", "if(i==2)putch(10);"]
    for h, b in itertools.product(heads, bodies):
        k += 1
        yield from p.add("int el%d(int n,int x){%sputint(x);return i+eg@;}".replace("%d", str(k)).replace("%s", h.replace("B", b)).replace("@", str(p.n)), "el%d" % k, I(-1, 0, 1, 2, 3, 4, 5, 8, 9), I(0, 2, 7), inp=[[2, 1, 3, 0, 1, 4, 2, 2, 5] + [0] * 60])
    yield from p.flush()


def calls():
    """calls whose result is unused, whose callee is pure / writes / reads / prints, in every position; values cached across them"""
    p = Packer("ec", k=12, glob=GL, limit=6000)
    k = 0
    callee = ["return a+b;", "eg@=a;return b;", "putint(a);return b;", "return eg@+a;", "ea@[b%4]=a;return 0;", "return ea@[a%4]*b;", "if(a>b)putint(a);return a;", "int i=0;while(i<a){eg@=eg@+b;i=i+1;}return eg@;", "return getint()+a;", "if(a<=0)return b;eg@=eg@+1;return #(a-1,b+1);", "if(a>3){putch(33);return 1;}return b/(a+9);", "int l[4]={a,b};l[b%4]=7;return l[0]+l[1];", "ef@=a;return ef@*b;"]
    caller = ["#(x,y);return eg@;", "int p=eg@;#(x,y);return p*10+eg@;", "int p=ea@[1];int q=#(x,y);return p+q+ea@[1]*100;", "int p=#(x,y);int q=#(x,y);return p*3+q;", "if(#(x,y)>2)#(y,x);return eg@+ea@[0];", "ea@[0]=x;#(1,y);ea@[0]=y;return ea@[0]+ea@[1];", "eg@=x;#(y,1);eg@=eg@+1;#(x,y);eg@=eg@*2;return eg@;", "int r=0;int i=0;while(i<3){r=r*2+#(x,y);i=i+1;}return r;", "int r=0;int i=0;while(i<3){eg@=eg@+1;r=r+#(i,y);i=i+1;}return r;", "int r=x*y;if(x>0)r=#(x,y);else r=#(y,x);return r+eg@;", "#(x,y);#(x,y);return ea@[2];", "putint(#(x,y));putint(eg@);return ea@[y%4];", "int l[2]={x,y};l[0]=#(l[0],l[1]);return l[0]*2+l[1];", "return #(#(x,y),#(y,x));" if False else "int t=#(x,y);return #(t,y)+eg@;"]
    for c, d, no in itertools.product(callee, caller, (0, 1)):
        k += 1
        f = ("_cmmc_noinline_ce%d" if no else "ce%d") % k
        yield from p.add(("int %s(int a,int b){%s}int ec%d(int x,int y){%s}" % (f, c, k, d)).replace("#", f).replace("@", str(p.n)), "ec%d" % k, I(0, 1, 3, 5), I(1, 2, 6), inp=[[4, 1, 0, 2, 7, 5, 3, 1, 9, 9, 9, 9]])
    yield from p.flush()


def mains():
    """whole programs: globals initialised, I/O through main, the exit code"""
    p = Packer("main", k=1)
    k = 0
    for g, b in itertools.product(["int g;", "int g=7;", "const int g=5;", "int g[5]={1,2};", "float g=2.5;", "int g[2][3]={{1},{4,5}};"], ["putint(G);return G;", "int n=getint();while(n>0){putint(n+G);putch(32);n=n-1;}return 0;", "int a[10];int n=getarray(a);putarray(n,a);return n+G;", "float x=getfloat();putfloat(x+G);return x;", "starttime();int i=0;int s=0;while(i<10){s=s+i*G;i=i+1;}stoptime();putint(s);return s%256;", "if(getint()>G)return 1;putint(2);return G;"]):
        k += 1
        v = "g[1]" if "[5]" in g else "g[1][0]" if "[2]" in g else "g"
        yield from p.add("%sint main(){%s}" % (g, b.replace("G", v)), "main", inp=[[0, 1, 2, 3], [3, 9, 8, 7], [5, 1, 2, 3, 4, 5]] if "getfloat" not in b else [[1065353216], [0x40200000]])
    yield from p.flush()
