"""Random programs, by seed. Each is run against the reference interpreter like the programs of the corpus; the ones a
check also verifies are reported, but only executions of a random program can raise an alarm."""
import random
from ps import *
from corpus import le, c64, I, V, ALLI, u8, u16, u32, u64, F32, F64

INT = ["u8", "u8", "u8", "u16", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "i128"]
CMP = ["<", ">", "<=", ">=", "==", "!="]
# how often each feature appears, per property
BASE = dict(cond=.2, arr=.3, co=.15, lim=.08, calc=.12, blen=.06, tag=.25, tf=.06, ref=.2, pad=.06, str=.05, var=.07, en=.12, bf=.1, le=.35, wide=.3, deep=2, nf=6, args=.35, const=.2, cexp=.25, late=.35, elv=.5, imp=.15, tup=.1, defs=.35, divd=.15)
FOCUS = {
 "P01": dict(le=.5, wide=.8, arr=.15), "P02": dict(en=.6, cexp=.5), "P03": dict(bf=.6, cexp=.5), "P04": dict(co=.4, ref=.35, nf=8), "P05": dict(cond=.55, co=.3),
 "P06": dict(arr=.75), "P07": dict(lim=.45, co=.1, arr=.35), "P08": dict(calc=.4, blen=.35, lim=.2), "P09": dict(tag=1.0), "P10": dict(var=.6), "P11": dict(str=.6),
 "P12": dict(tf=.5), "P13": dict(args=1.0, ref=.5), "P14": dict(pad=.5), "P15": dict(divd=.4, calc=.6, cond=.3, deep=4, const=.5, cexp=.6), "P16": dict(imp=1.0, const=.6, en=.55, bf=.4, ref=.4, tf=.2, str=.1, var=.1), "P17": dict(arr=.6, lim=.3, divd=.6, args=.5, tf=.1, pad=.15, wide=.5), "P21": dict(),
}

LATE = I(0, "u8")      # stands for a calculation over fields that follow
NAMES = ["a", "b", "n", "m", "k", "x", "len", "size", "data", "value", "index", "kind", "reader", "writer", "buf", "raw", "scratch", "r", "r_0", "r_1", "r_2", "r_3", "t_count", "cond", "out", "i", "e", "s", "arg_n", "arg_k", "mem", "limit", "position"]

class Opt:
    """the type of a conditional field, in the scope of an expression"""
    def __init__(s, t): s.t = t

class G:
    def __init__(s, r, k):
        s.r, s.k, s.n = r, k, 0; s.decls = []; s.ens = []; s.bfs = []; s.cns = []; s.tys = []; s.conds = 0; s.loc = set()
        # a transform of the driver refills one byte at a time (finding F1), so longer terminators and transforms are not mixed
        s.tfok = r.random() < (.25 if k['tf'] < .1 else .9)
        if not s.tfok: k['tf'] = 0
    def p(s, f): return s.r.random() < s.k[f]
    def ch(s, *a): return s.r.choice(a)
    def name(s, b="q"):
        """a fresh name; fields and arguments often get one that another type or the emitted code uses too"""
        if b in "qgp" and s.r.random() < .5:
            n = s.r.choice(NAMES)
            if n not in s.loc: s.loc.add(n); return n
        s.n += 1; return f"{b}{s.n}"
    # -------- scalars
    def sc(s):
        t = s.r.choice(INT if s.p("wide") else ["u8", "u8", "u16", "u32", "i16"])
        return Sc(t, t not in ("u8", "i8") and s.p("le"))
    def const(s, t):
        lo, hi = rng(t); r = s.r.random()
        v = s.r.choice([0, 1, 1, 2, 3, 4, 5, 7]) if r < .6 else s.r.choice([127, 128, 255, 256, 65535, 65536, hi, hi - 1, hi >> 1]) if r < .8 else s.r.getrandbits(s.r.randrange(1, BITS[t] + 1))
        v = min(v, hi); v = max(v, 0)
        return I(v, t, hexa=s.r.random() < .3)
    # -------- expressions; sc: [(name, type)] with type Sc | Bo | En | Bf | Arr
    def vars(s, sc, t): return [V(n, ty) for n, ty in sc if isinstance(ty, Sc) and ty.t == t]
    def ints(s, sc): return [(n, ty) for n, ty in sc if isinstance(ty, Sc)]
    def intx(s, sc, t, d):
        """an integer expression of type t"""
        r = s.r.random(); vs = s.vars(sc, t)
        if d <= 0 or r < .22:
            if vs and s.r.random() < .75: return s.r.choice(vs)
            o = s.ints(sc)
            if o and s.r.random() < .8:
                n, ty = s.r.choice(o); return Ca(V(n, ty), t)
            cs = [c for c in s.cns if c.t.t == t]
            if cs and s.r.random() < .7: c = s.r.choice(cs); return Cr(c.name, c.e.ev({}), t, c.e)
            return s.const(t)
        if r < .34:
            e = s.intx(sc, t, d - 1); k = s.const(t)
            if s.r.random() < .5:
                if s.r.random() < s.k["divd"]:
                    q = s.intx(sc, t, d - 1)
                    return Bi(s.ch("/", "%"), e, Bi("|", q, I(1, t)) if s.r.random() < .4 else q)
                return Bi(s.ch("/", "%"), e, I(max(k.v, 1), t))
            return Bi(s.ch("<<", ">>"), e, I(s.r.randrange(0, BITS[t]), t))
        if r < .70: return Bi(s.ch("+", "-", "*", "|", "&", "^", "+", "-"), s.intx(sc, t, d - 1), s.intx(sc, t, d - 1))
        if r < .78: return Te(s.boolx(sc, d - 1), s.intx(sc, t, d - 1), s.intx(sc, t, d - 1))
        if r < .85: return Un("~", s.intx(sc, t, d - 1)) if t[0] == "u" or s.r.random() < .5 else Un("-", s.intx(sc, t, d - 1))
        o = s.ints(sc); ar = [(n, ty) for n, ty in sc if isinstance(ty, Arr)]; en = [(n, ty) for n, ty in sc if isinstance(ty, (En, Bf))]
        if r < .88 and ar: n, ty = s.r.choice(ar); e = Call("len", V(n, ty)); return e if t == "u64" else Ca(e, t)
        en = [(n, ty) for n, ty in en if ty.rep.t == t or s.r.random() < 0]
        if r < .89 and ar:
            n, ty = s.r.choice(ar)
            if isinstance(ty.el, Sc):
                if s.r.random() < .5: e = Call("sum", V(n, ty)); return e if t == "u64" else Ca(e, t)
                if ty.el.t == t and isinstance(ty.n, I) and ty.n.v > 0: return Ix(V(n, ty), Bi("%", s.intx(sc, "u64", d - 1), I(ty.n.v, "u64")) if s.r.random() < .6 else I(s.r.randrange(ty.n.v), "u64"), t)
        o8 = [x for x in o if x[1].t in ("u8", "u16", "u32", "u64")]
        if r < .90 and o8: n, ty = s.r.choice(o8); e = Call("bits", V(n, ty)); return e if t == "u8" else Ca(e, t)
        ov = [(n, ty) for n, ty in sc if isinstance(ty, Opt) and isinstance(ty.t, Sc) and ty.t.t == t]
        if ov and s.r.random() < s.k["elv"]: n, ty = s.r.choice(ov); return El(V(n, ty), s.intx(sc, t, d - 1))
        if r < .91 and en: n, ty = s.r.choice(en); return Ca(V(n, ty), t)
        if o: n, ty = s.r.choice(o); return Ca(s.intx(sc, ty.t, d - 1), t) if ty.t != t else s.intx(sc, t, d - 1)
        return s.const(t)
    def boolx(s, sc, d):
        r = s.r.random(); bs = [V(n, "bool") for n, ty in sc if isinstance(ty, Bo)]; o = s.ints(sc)
        if bs and r < .25: return s.r.choice(bs)
        bf = [(n, ty) for n, ty in sc if isinstance(ty, Bf)]; en = [(n, ty) for n, ty in sc if isinstance(ty, En)]
        if bf and r < .4: n, ty = s.r.choice(bf); return Mem(V(n, ty), ty, s.r.choice(ty.items)[0])
        if en and r < .5: n, ty = s.r.choice(en); return Bi(s.ch("==", "!="), V(n, ty), Ea(ty, s.r.choice(ty.items)[0]))
        if d > 0 and r < .7: return s.ch(lambda: Bi("&&", s.boolx(sc, d - 1), s.boolx(sc, d - 1)), lambda: Bi("||", s.boolx(sc, d - 1), s.boolx(sc, d - 1)), lambda: Un("!", s.boolx(sc, d - 1)), lambda: Bi(s.ch("==", "!="), s.boolx(sc, d - 1), s.boolx(sc, d - 1)))()
        if not o: return B(s.r.random() < .5)
        n, ty = s.r.choice(o)
        if d > 0 and s.r.random() < .5: return Bi(s.r.choice(CMP), s.intx(sc, ty.t, d - 1), s.intx(sc, ty.t, d - 1))
        return Bi(s.r.choice(CMP), V(n, ty), s.const(ty.t))
    def lenx(s, sc):
        """a length that is usually small"""
        o = [(n, ty) for n, ty in s.ints(sc) if ty.t[0] == "u"]
        if not o or s.r.random() < .25: return I(s.r.randrange(0, 5), "u64", suf=s.r.random() < .5)
        n, ty = s.r.choice(o); e = V(n, ty) if ty.t == "u64" else c64(V(n, ty)); r = s.r.random()
        if r < .6: return e
        if r < .7: return Bi("+", e, I(s.r.randrange(1, 4), "u64"))
        if r < .8: return Bi("&", e, I(s.ch(1, 3, 7), "u64"))
        if r < .9: return Bi("*", e, I(2, "u64"))
        return Bi("%", e, I(s.ch(3, 5), "u64"))
    # -------- declarations
    def item(s, v, t):
        """a value of an enum or bitfield item: written out, or as a constant expression"""
        if s.r.random() > s.k["cexp"]: return v
        for i in range(20):
            e = s.cexpr(t, 2); r = s.r.random()
            if r < .25: e = Bi(s.ch("<<", ">>"), e, I(s.r.randrange(0, BITS[t]), t))
            elif r < .4: e = Te(s.cbool(t), e, s.cexpr(t, 1))
            elif r < .5: u = s.ch("u8", "i16", "u32", "i64", "u64"); e = Ca(s.cexpr(u, 1), t)
            elif r < .6: e = Un("~", e)
            elif r < .65 and t[0] == "i": e = Un("-", e)
            try: x = e.ev({})
            except (Unspec, IxErr): continue
            if not s.exact(e): continue
            d = v - x; f = None
            if d == 0: f = e
            elif rng(t)[0] <= d <= rng(t)[1] and d > 0: f = Bi("+", e, I(d, t))
            elif d < 0 and -d <= rng(t)[1]: f = Bi("-", e, I(-d, t))
            if f is not None and s.exact(f): return f
        return v
    def cbool(s, t):
        r = s.r.random()
        if r < .5: return Bi(s.r.choice(CMP), s.cexpr(t, 1), s.cexpr(t, 1))
        if r < .7: return Bi(s.ch("&&", "||"), s.cbool(t), s.cbool(t))
        return Un("!", s.cbool(t)) if r < .85 else B(r < .93)
    def enum(s):
        t = s.r.choice(["u8", "u8", "u16", "i16", "u32", "u64", "i8"]); lo, hi = rng(t); v = s.ch(0, 1, 3, hi - 20); items = []; used = set(); n = v
        for i in range(s.r.randrange(1, 7)):
            if i == 0 or s.r.random() < .4 or n > hi or n in used:
                while True:
                    v = s.r.choice([0, 1, 2, 7, 100, hi, hi >> 1, s.r.randrange(0, hi)])
                    if v not in used: break
                items.append((s.name("k"), s.item(v, t))); n = v
            else: items.append((s.name("k"), None))
            used.add(n); n += 1
        d = En(s.name("E"), Sc(t, t not in ("u8", "i8") and s.p("le")), items, s.name("k") if s.r.random() < .35 else None)
        s.ens.append(d); return d
    def bitf(s):
        t = s.r.choice(["u8", "u8", "u16", "u32", "u64", "u128"]); b = BITS[t]; items = []; at = 0
        for i in range(s.r.randrange(1, 7)):
            if at >= b: break
            r = s.r.random()
            if i and r < .5: items.append((s.name("b"), None)); 
            elif r < .75: at = s.r.randrange(at, b); items.append((s.name("b"), s.item(1 << at, t)))
            else: m = s.r.getrandbits(b) or 1; items.append((s.name("b"), s.item(m, t))); at = m.bit_length() - 1
            at += 1
        d = Bf(s.name("B"), Sc(t, t != "u8" and s.p("le")), items); s.bfs.append(d); return d
    def cn(s):
        t = s.r.choice(["u8", "u16", "u32", "u64", "i32"])
        while True:
            e = s.cexpr(t, 2)
            try: v = e.ev({})
            except (Unspec, IxErr): continue
            if s.exact(e): break
        d = Cn(s.name("K").upper(), Sc(t), e); s.cns.append(d); return d
    def cexpr(s, t, d):
        if d <= 0 or s.r.random() < .3:
            cs = [c for c in s.cns if c.t.t == t]
            if cs and s.r.random() < .5: c = s.r.choice(cs); return Cr(c.name, c.e.ev({}), t, c.e)
            return I(s.r.choice([0, 1, 2, 3, 5, 8, 20]), t)
        return Bi(s.ch("+", "-", "*", "|", "&", "^", "/", "%"), s.cexpr(t, d - 1), s.cexpr(t, d - 1))
    def exact(s, e):
        """no overflow or division by zero anywhere in a constant expression"""
        for k in e.kids():
            if not s.exact(k): return False
        try:
            if isinstance(e, Bi) and e.op in ("+", "-", "*"):
                a, b = e.a.ev({}), e.b.ev({}); x = {"+": a + b, "-": a - b, "*": a * b}[e.op]
                return x == wrapi(e.ty, x)
            e.ev({})
        except (Unspec, IxErr): return False
        return not (isinstance(e, Un) and e.op == "-" and e.e.ev({}) == rng(e.ty)[0])
    # -------- field types
    def elem(s, sc, nest=True):
        r = s.r.random()
        if r < .35: return s.sc()
        if r < .42: return Bo()
        if r < .48: return s.ch(F32, F64)
        if r < .56 and s.ens: return Ref(s.r.choice(s.ens).name)
        if r < .63 and s.bfs: return Ref(s.r.choice(s.bfs).name)
        if r < .75:
            x = s.ref(sc)
            if x is not None: return x
        if r < .80 and s.r.random() < .6: return Fo(s.ch("v8", "v16", "v32", "v64", "v128"))
        if r < .84 and nest: return Arr(s.elem(sc, False), s.lenx(sc))
        if r < .88: return Fo("utf8") if s.r.random() < .5 else Fo(s.ch("utf8", "utf16"), [s.lenx(sc)])
        return u8
    def arg(s, sc, t):
        if isinstance(t, Bo): return s.boolx(sc, 1)
        if isinstance(t, Ref):
            vs = [V(n, ty) for n, ty in sc if isinstance(ty, (En, Bf)) and ty.name == t.name]
            if vs: return s.r.choice(vs)
            e = [x for x in s.ens if x.name == t.name]
            return Ea(e[0], s.r.choice(e[0].items)[0]) if e else None
        vs = s.vars(sc, t.t)
        return s.r.choice(vs) if vs and s.r.random() < .7 else s.intx(sc, t.t, 1)
    def ref(s, sc):
        c = [d for d in s.tys if isinstance(d.ty, Co)]; s.r.shuffle(c)
        for d in c:
            a = [s.arg(sc, t) for _, t, _ in d.args]
            while a and d.args[len(a) - 1][2] is not None and s.r.random() < .5: a.pop()
            if all(x is not None for x in a): return Ref(d.name, a)
        return None
    def ftype(s, sc, noarr=False):
        if s.p("en") and s.ens: return Ref(s.r.choice(s.ens).name)
        if s.p("bf") and s.bfs: return Ref(s.r.choice(s.bfs).name)
        if s.p("var"): return Fo(s.ch("v8", "v16", "v32", "v64", "v128"))
        if s.p("str"): return Fo("utf8") if s.r.random() < .4 else Fo(s.ch("utf8", "utf16"), [s.lenx(sc)])
        if s.p("ref"):
            x = s.ref(sc)
            if x is not None: return x
        if s.p("arr") and not noarr:
            r = s.r.random()
            if r < .65: return Arr(s.elem(sc), s.lenx(sc))
            if r < .8: return Arr(s.elem(sc, False), term=s.ch(b"\0", b"\n", b"a", b"\xff") if s.tfok else s.ch(b"\0", b"\n", b"ab", b"\xff\xfe", b"end"))
            return Arr(s.elem(sc))
        r = s.r.random()
        return Bo() if r < .12 else s.ch(F32, F64) if r < .16 else s.sc()
    def readonly(s, t):
        """needs no BufRead when decoded"""
        if isinstance(t, Co): return all(f.ty is None or s.readonly(f.ty) and not f.tf for f in t.fields)
        if isinstance(t, Ref): return False
        if isinstance(t, Arr): return t.term is None and (t.n is None or s.readonly(t.el)) if isinstance(t.el, (Sc, Bo, Fl)) or t.n is not None else t.term is None
        if isinstance(t, Fo): return not (t.name == "utf8" and not t.args)
        return True
    def tfs(s, sc, t):
        o = []
        for i in range(s.ch(1, 1, 2, 3)):
            n = s.ch("xfa", "xfb", "xfk", "xfm"); sc8 = [x for x in sc]
            a = {"xfk": lambda: [s.intx(sc, "u8", 1)], "xfm": lambda: [s.intx(sc, "u32", 1), s.intx(sc, "u8", 1)]}.get(n, lambda: [])()
            o.append(Tf(n, a, None))
        if s.readonly(t) and s.r.random() < .4: s.r.choice(o).cond = s.boolx(sc, 1)
        return o
    def fields(s, sc, nf, d, incond=False, opt=None, tagv=False):
        fs = []; pend = []
        for i in range(nf):
            f = s.field(sc, d, incond, fs, pend, last=i == nf - 1)
            if f is not None: fs += f
        for lim in pend: fs.append(lim)
        for f in fs:
            if f.calc is not None and f.calc is LATE:
                cs = {g.name for g in fs if g.calc is not None}
                f.calc = s.intx([x for x in sc if x[0] not in cs and x[0] != f.name and not isinstance(x[1], Opt)], f.ty.t, 2)
        if all(f.ty is None for f in fs): fs.append(Fd(s.name(), u8))
        return fs
    def field(s, sc, d, incond, fs, pend, last):
        if s.p("pad"):
            e = s.lenx([x for x in sc if isinstance(x[1], Sc) and x[1].t == "u8"])
            if s.r.random() < .5: e = Call("pad", s.lenx([x for x in sc if isinstance(x[1], Sc) and x[1].t == "u8"]) if s.p("divd") else I(s.ch(2, 3, 4, 5, 6, 8), "u64"), e)
            return [Pad(e)]
        fs2 = []
        if s.p("calc") and not incond and s.r.random() < .6:
            t = s.sc(); n = s.name(); r = s.r.random(); c = None
            if s.p("blen") and d > 0: return s.blen(sc, d, pend)
            if r < .25:
                u = Sc(s.ch("u8", "u16", "u32", "u64"), s.r.random() < .3); u.le = u.le and u.t != "u8"; l = V(n, u); v = s.name(); l = l if u.t == "u64" else c64(l)
                el = s.elem(list(sc)); e = Call("len", Va(v, Arr(el)))
                sc.append((n, u)); f = Fd(v, Arr(el, l)); (pend if s.r.random() < .5 else fs2).append(f)
                return [Fd(n, u, calc=e if u.t == "u64" else Ca(e, u.t))] + fs2
            if r < .25 + s.k["late"] * .4 and not last: sc.append((n, t)); return [Fd(n, t, calc=LATE)]
            if r > .85: sc.append((n, Bo())); return [Fd(n, Bo(), calc=s.boolx(sc[:-1], s.k["deep"]))]
            e = s.intx(sc, t.t, s.k["deep"]); sc.append((n, t)); return [Fd(n, t, calc=e)]
        if s.p("blen") and d > 0 and not incond: return s.blen(sc, d, pend)
        cond = s.boolx(sc, 2) if s.p("cond") and not incond and s.conds < 6 and sc else None
        if cond is not None: s.conds += 1
        inner = list(sc) if cond is not None else sc
        csc = list(sc)
        if d > 0 and (s.p("co") or s.p("lim")):
            n = s.lenx(sc) if s.p("lim") or s.r.random() < .1 else None
            tf = s.p("tf")
            c = Co(s.fields(csc, s.r.randrange(1, 4), d - 1, incond or cond is not None), n=n)
            return [Fd(s.name("g"), c, cond=cond, tf=s.tfs(sc, c) if tf and self_ok(c) else [])]
        t = s.ftype(inner); n = s.name()
        if cond is None or True:
            if isinstance(t, Ref) and any(x.name == t.name for x in s.ens + s.bfs): dt = [x for x in s.ens + s.bfs if x.name == t.name][0]
            else: dt = t
            if cond is None and isinstance(dt, (Sc, Bo, En, Bf)) : sc.append((n, dt))
            elif cond is None and isinstance(dt, Arr) : sc.append((n, dt))
            elif cond is not None and isinstance(dt, Sc) and not incond: sc.append((n, Opt(dt)))
        return [Fd(n, t, cond=cond, tf=s.tfs(sc[:-1] if sc and sc[-1][0] == n else sc, t) if s.p("tf") else [])]
    def blen(s, sc, d, pend):
        n, g = s.name(), s.name("g"); t = Sc(s.ch("u8", "u16", "u32", "u64"))
        b = Call("blen", Va(g, None)); k = s.r.choice([0, 0, 0, 1, 3])
        e = Bi("+", b, I(k, "u64")) if k else b
        l = V(n, t); l = l if t.t == "u64" else c64(l)
        if k: l = Bi("-", l, I(k, "u64"))
        sc2 = [x for x in sc]
        old = s.k; s.k = dict(s.k, blen=0, lim=.0)
        c = Co(s.fields(sc2, s.r.randrange(1, 4), 0), n=l); s.k = old
        f = Fd(n, t, calc=e if t.t == "u64" else Ca(e, t.t)); tg = Fd(g, c)
        if s.r.random() < .6: pend.append(tg); return [f]
        return [f, tg]
    def args(s):
        if not s.p("args"): return []
        o = []
        for i in range(s.ch(1, 2, 2, 3)):
            r = s.r.random()
            t = Bo() if r < .2 else Ref(s.r.choice(s.ens).name) if r < .3 and s.ens else Ref(s.r.choice(s.bfs).name) if r < .35 and s.bfs else Sc(s.ch("u8", "u8", "u16", "u32", "u64", "i16"))
            o.append((s.name("p"), t, None))
        if s.r.random() < s.k["defs"]:      # optional ones come last
            m = {x.name: x for x in s.ens + s.bfs}
            for i in range(s.r.randrange(len(o)), len(o)):
                sc = [(n, m[t.name] if isinstance(t, Ref) else t) for n, t, _ in o[:i]]; n, t, _ = o[i]
                e = s.arg(sc, t)
                if e is None: n, t = n, u8; e = s.intx(sc, "u8", 1)
                o[i] = (n, t, e)
        return o
    def scope(s, args):
        m = {x.name: x for x in s.ens + s.bfs}
        return [(n, m[t.name] if isinstance(t, Ref) else t) for n, t, _ in args]
    def ty(s, nf, d):
        s.loc = set(); a = s.args(); sc = s.scope(a)
        t = Ty(s.name("T"), None, args=a)
        if s.p("tag") and s.r.random() < .5:
            if not a: t.args = a = [(s.name("p"), u8, None)]; sc = s.scope(a)
            vs = []
            for i in range(s.r.randrange(2, 5)):
                s.loc = {n for n, _ in sc}; c = s.boolx(sc, 1); s2 = list(sc)
                if s.r.random() < .5: x = Co(s.fields(s2, s.r.randrange(1, 4), 0))
                else: x = s.ftype(s2)
                vs.append(Fd(s.name("A"), x, cond=c, tf=s.tfs(sc, x) if s.p("tf") and s.r.random() < .4 else []))
            if s.r.random() < .4: vs[-1].cond = None
            t.ty = Co(vs, tagged=True, n=s.lenx(sc) if s.p("lim") else None)
        elif s.r.random() < .12:
            s.loc = {n for n, _ in sc}; t.ty = s.ftype(list(sc))
            if a and s.r.random() < .5: t.cond = s.boolx(sc, 1)
        else:
            n = s.lenx(sc) if s.p("lim") and s.r.random() < .5 else None
            t.ty = Co(s.fields(sc, s.r.randrange(1, nf), d), n=n)
        if s.p("tf") and s.r.random() < .25: t.tf = s.tfs(s.scope(a), t.ty)
        return t

def self_ok(c): return True

def prog(name, seed, pid):
    k = dict(BASE); k.update(FOCUS.get(pid, {}))
    r = random.Random(seed)
    g = G(r, k); ds = []
    if r.random() < .5 or k["en"] > .5: ds.append(g.enum())
    if k["en"] > .5: ds.append(g.enum())
    if r.random() < .4 or k["bf"] > .5: ds.append(g.bitf())
    if k["bf"] > .5: ds.append(g.bitf())
    if r.random() < k["const"]: ds.append(g.cn())
    if r.random() < k["const"]: ds.append(g.cn())
    for i in range(r.randrange(0, 3) + (k["tag"] > .9 or k["args"] > .9)):
        g.conds = 0; t = g.ty(5, 1); g.tys.append(t); ds.append(t)
    g.conds = 0; a = []
    g.loc = set()
    if r.random() < .2: a = g.args()
    top = Ty("S", Co(g.fields(g.scope(a), r.randrange(2, k["nf"] + 2), 2)), args=a); ds.append(top)
    cs = [d for d in ds if isinstance(d, Cn)]; rest = [d for d in ds if not isinstance(d, Cn)]; r.shuffle(rest)
    p = Prog(name, *cs, *rest, asy=pid == "P21")
    if r.random() < .5: p.spell = f"{seed}/spelling"
    if r.random() < k["imp"]: p.split(r)
    return p
