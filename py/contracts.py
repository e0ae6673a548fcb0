"""Contracts (Verus specification functions, pre/postconditions, loop invariants) for the code generated from a program.
Everything here is computed from the program description in ps.py; nothing is read off the generated code except the
names of its registers (which loop uses which variable)."""
from ps import *

VT = {"f32": "F32v", "f64": "F64v"}
FT = {"v8": "i8", "v16": "i16", "v32": "i32", "v64": "i64", "v128": "i128", "utf8": "VsStr", "utf16": "VsStr"}
class NoContract(Exception): pass

def fname(f, nargs): return f + ("n" if nargs else "") if f[0] == "u" else f

def recursive(P):
    """types that contain themselves"""
    def refs(t):
        if isinstance(t, Ref): return {t.name}
        if isinstance(t, Arr): return refs(t.el)
        if isinstance(t, Co): return set().union(*[refs(f.ty) for f in t.fields if f.pad is None])
        return set()
    g = {d.name: refs(d.ty) if isinstance(d, Ty) else set() for d in P.all() if not isinstance(d, Cn)}
    for _ in g:
        for n in g: g[n] = g[n].union(*[g[m] for m in g[n]])
    return {n for n in g if n in g[n]}
class Gen:
    def __init__(s, prog, total=False):
        s.P = prog; s.k = 0; s.out = []; s.total = total; s.terminating = []
        s.rec = recursive(prog) if total else set()
        s.dl = {}       # (type, "decode"/"encode") -> list of loop descriptions, in order of appearance
        s.cur = s.cenv = None
        s.pend = set()  # types with a field written before fields its value depends on
        s.specs()
        s.apuse = {}    # type -> lemmas its encoder needs

    def refill(s):
        from driver import terms
        n = max([len(t) for t in terms(s.P)] + [0])
        return f"vs_refill() >= {n}, " if n > 1 else ""
    def fresh(s, b): s.k += 1; return f"{b}_{s.k}"
    # ---- types
    def vt(s, t):
        if isinstance(t, Sc): return t.t
        if isinstance(t, Fl): return VT[t.t]
        if isinstance(t, Bo): return "bool"
        if isinstance(t, Ref): return t.name
        if isinstance(t, Fo): return FT[t.name]
        if isinstance(t, Arr): return f"VsV<{s.vt(t.el)}>"
        raise NoContract(str(t))
    def ety(s, ty):
        """Verus type of an expression type"""
        if isinstance(ty, str): return ty
        if isinstance(ty, (En, Bf)): return ty.name
        if isinstance(ty, Bo): return "bool"
        return s.vt(ty)
    def args(s, d): return "".join(f", a_{n}: {s.aty(t, df)}" for n, t, df in d.args) if isinstance(d, Ty) else ""
    def aty(s, t, df): return f"Option<{s.vt(t)}>" if df is not None else s.vt(t)
    pm = {}         # (type, function) -> names of the parameters in the code
    def pnames(s, d, fn):
        ns = [n for n, _, _ in d.args] if isinstance(d, Ty) else []
        return dict(zip(ns, s.pm.get((d.name, fn), ns)))
    def bind(s, d):
        env = {}
        for n, t, df in d.args:
            env[n] = f"a_{n}" if df is None else f"(match a_{n} {{ Some(x) => x, None => {df.vs(env)} }})"
        return env
    def callargs(s, name, args, env):
        d = s.P.root[name]
        if not isinstance(d, Ty): return ""
        o = ""
        for i, (n, t, df) in enumerate(d.args):
            if df is None: o += f", {args[i].vs(env)}"
            elif i < len(args): o += f", Some({args[i].vs(env)})"
            else: o += f", None::<{s.vt(t)}>"
        return o
    # ---- environment handed to the list functions: free variables of the element type
    def envs(s, es, env):
        fv = {}
        def walk(e):
            if isinstance(e, Va): fv[e.n] = e
            for c in e.kids(): walk(c)
        for e in es: walk(e)
        names = sorted(fv)
        decl = "".join(f", e_{n}: {s.ety(fv[n].ty)}" for n in names)
        val = "".join(f", {env[n]}" for n in names)
        return names, decl, val, {n: f"e_{n}" for n in names}
    def elexprs(s, t):
        if isinstance(t, (Ref, Fo)): return t.args
        if isinstance(t, Arr): return s.elexprs(t.el) + ([t.n] if t.n is not None else [])
        return []
    # ---- decoding
    def dec(s, t, d, p, env):
        if isinstance(t, (Sc, Fl)): return f"dec_{'le' if getattr(t, 'le', False) else 'be'}::<{s.vt(t)}>({d}, {p})"
        if isinstance(t, Bo): return f"dec_bool({d}, {p})"
        if isinstance(t, Ref): return f"dec_{t.name}({d}, {p}{s.callargs(t.name, t.args, env)})"
        if isinstance(t, Fo): return f"fd_{fname(t.name, len(t.args))}({''.join(a.vs(env) + ', ' for a in t.args)}{d}, {p})"
        if isinstance(t, Arr): return s.dec_arr(t, d, p, env)
        raise NoContract(str(t))
    def isprim(s, el):
        return isinstance(el, (Sc, Fl, Bo)) or (isinstance(el, Ref) and isinstance(s.P.root[el.name], (En, Bf)))
    def dec_arr(s, t, d, p, env):
        el = t.el; T = s.vt(el)
        if s.isprim(el) and t.term is None:
            rep = s.P.root[el.name].rep if isinstance(el, Ref) else el
            ch = "map_bool" if isinstance(rep, Bo) else f"chunks_{'le' if getattr(rep, 'le', False) else 'be'}::<{s.vt(rep)}>"
            w = width(rep)
            if isinstance(el, Ref):
                fin = lambda raw, q: f"match mapr_{el.name}({ch}({raw})) {{ None => None, Some(xs) => Some((VsV::<{T}> {{ s: Ghost(xs) }}, {q})) }}"
            else:
                fin = lambda raw, q: f"Some((VsV::<{T}> {{ s: Ghost({ch}({raw})) }}, {q}))"
            if t.n is not None:
                n = t.n.vs(env)
                return f"(match raw_n({d}, {p}, (({n}) as int) * {w}) {{ None => None, Some((raw, q)) => {fin('raw', 'q')} }})"
            rest = f"raw_rest({d}, {p})"
            body = fin(rest, f"{d}.len() as int")
            if w > 1: return f"(if {rest}.len() as int % {w} == 0 {{ {body} }} else {{ None }})"
            return f"({body})"
        names, decl, val, e2 = s.envs(s.elexprs(el), env)
        k = s.fresh("l")
        at = len(s.dl.get((s.cur, "decode"), []))
        step = s.dec(el, "d", "p", e2)
        O = f"Option<(Seq<{T}>, int)>"
        nm = ", ".join("e_" + n for n in names); nm = ", " + nm if nm else ""
        L = {"names": names, "spec": k, "T": T, "zw": s.zw(el)}
        if isinstance(el, Fo) and el.name == "utf8" and not el.args and t.n is None: L["zw"] = False      # takes at least one byte where there is one
        if t.n is not None:
            s.out.append(f"pub open spec fn dl_{k}(d: Seq<u8>, p: int, n: int, acc: Seq<{T}>{decl}) -> {O} decreases n {{ if n <= 0 {{ Some((acc, p)) }} else {{ match {step} {{ None => None, Some((v, q)) => dl_{k}(d, q, n - 1, acc.push(v){nm}) }} }} }}")
            L["kind"] = "n"; call = f"dl_{k}({d}, {p}, ({t.n.vs(env)}) as int, Seq::<{T}>::empty(){val})"
        elif t.term is not None:
            tm = "seq![" + ", ".join(f"{b}u8" for b in t.term) + "]"; n = len(t.term)
            s.out.append(f"pub open spec fn dt_{k}(d: Seq<u8>, p: int, acc: Seq<{T}>{decl}) -> {O} decreases d.len() - p {{ if p >= d.len() {{ Some((acc, p)) }} else if d.len() - p < {n} {{ None }} else if d.subrange(p, p + {n}) == {tm} {{ Some((acc, p + {n})) }} else {{ match {step} {{ None => None, Some((v, q)) => if p < q <= d.len() {{ dt_{k}(d, q, acc.push(v){nm}) }} else {{ None }} }} }} }}")
            L["kind"] = "t"; call = f"dt_{k}({d}, {p}, Seq::<{T}>::empty(){val})"
        else:
            s.out.append(f"pub open spec fn dr_{k}(d: Seq<u8>, p: int, acc: Seq<{T}>{decl}) -> {O} decreases d.len() - p {{ if p >= d.len() {{ Some((acc, p)) }} else {{ match {step} {{ None => None, Some((v, q)) => if p < q <= d.len() {{ dr_{k}(d, q, acc.push(v){nm}) }} else {{ None }} }} }} }}")
            L["kind"] = "r"
            call = f"(match dr_{k}(raw_rest({d}, {p}), 0, Seq::<{T}>::empty(){val}) {{ None => None, Some((xs, q)) => Some((xs, {d}.len() as int)) }})"
        if t.n is None and s.zw(el) and not (isinstance(el, Fo) and el.name == "utf8" and not el.args):
            # an element that takes no bytes is decoded again for ever: nothing is claimed then, the loop does not end
            nt = "" if t.term is None else f" && d.len() - p >= {len(t.term)} && d.subrange(p, p + {len(t.term)}) != {tm}"
            s.out.append(f"pub open spec fn st_{k}(d: Seq<u8>, p: int{decl}) -> bool {{ p < d.len(){nt} && match {step} {{ None => false, Some((v, q)) => q <= p }} }}")
            L["stuck"] = True
        s.loop("decode", L, at)
        return f"(match {call} {{ None => None, Some((xs, q)) => Some((VsV::<{T}> {{ s: Ghost(xs) }}, q)) }})"
    def zw(s, t, seen=()):
        """may a value of this type occupy no bytes at all?"""
        if isinstance(t, (Sc, Fl, Bo)): return False
        if isinstance(t, Fo): return t.name[0] != "v"
        if isinstance(t, Arr): return t.term is None or True
        if isinstance(t, Ref):
            d = s.P.root[t.name]
            if isinstance(d, (En, Bf)): return False
            if t.name in seen or d.tf or d.cond: return True
            return s.zw(d.ty, seen + (t.name,))
        if isinstance(t, Co):
            if t.tagged: return any(s.zw(f.ty, seen) or bool(f.tf) for f in t.fields)
            return all(f.pad is not None or f.cond is not None or bool(f.tf) or s.zw(f.ty, seen) for f in t.fields)
    def loop(s, fn, L, at): s.dl.setdefault((s.cur, fn), []).insert(at, L)

    def lv(s, f):
        """pattern binding the leaves of a field"""
        ns = [f"f_{n}" for n, _ in flat(f)]
        return ns[0] if len(ns) == 1 else "(" + ", ".join(ns) + ")"
    def dfields(s, co, d, p, env, k):
        """env is updated; k(position) gives the final text"""
        def seq(i, p):
            if i == len(co.fields): return k(p)
            f = co.fields[i]; q = s.fresh("q")
            if f.pad is not None:
                n = f.pad.vs(env)
                return f"match raw_n({d}, {p}, ({n}) as int) {{ None => None, Some((_, {q})) => {seq(i + 1, q)} }}"
            e = s.dfield(f, d, p, env)
            for n, g in flat(f): env[n] = f"f_{n}"
            return f"match {e} {{ None => None, Some(({s.lv(f)}, {q})) => {seq(i + 1, q)} }}"
        return seq(0, p)
    def dfield(s, f, d, p, env, cond=True):
        sub = isinstance(f.ty, Co)
        def base(d, p):
            if not sub: return s.dec(f.ty, d, p, env)
            def inner(d2): return s.dfields(f.ty, d2, p, dict(env), lambda q: f"Some(({s.lv(f)}, {q}))")
            if f.ty.n is None: return "(" + inner(d) + ")"
            v = s.fresh("d")
            return f"({{ let {v} = lim({d}, {p}, ({f.ty.n.vs(env)}) as int); {inner(v)} }})"
        e = s.dtf(f.tf, d, p, env, base)
        if f.cond is not None and cond:
            ls = leaves(f.ty) if sub else [(f.name, f, False)]
            some = [f"Some(f_{n})" for n, _, _ in ls]; none = [f"None::<{s.vt(g.ty)}>" for _, g, _ in ls]
            tup = lambda x: x[0] if len(x) == 1 else "(" + ", ".join(x) + ")"
            return f"(if {f.cond.vs(env)} {{ match {e} {{ None => None, Some(({s.lv(f)}, q)) => Some(({tup(some)}, q)) }} }} else {{ Some(({tup(none)}, {p})) }})"
        return e
    def dtf(s, tf, d, p, env, base):
        if not tf: return base(d, p)
        t = tf[-1]; v = s.fresh("d"); n0 = len(s.dl.get((s.cur, "decode"), []))
        a = "".join(x.vs(env) + ", " for x in t.args)
        on = f"({{ let {v} = xd_{t.name}({a}{d}, {p}); match {s.dtf(tf[:-1], v, '0', env, base)} {{ None => None, Some((v, q)) => Some((v, xp_{t.name}({a}{d}, {p}, q))) }} }})"
        if t.cond is None: return on
        cp = list(s.dl.get((s.cur, "decode"), []))
        off = s.dtf(tf[:-1], d, p, env, base)
        if len(s.dl.get((s.cur, "decode"), [])) != len(cp):    # a list: described once, as the code reads it once
            del s.dl[(s.cur, "decode")][n0:]; w = s.fresh("p"); c = t.cond.vs(env)
            return f"({{ let {v} = if {c} {{ xd_{t.name}({a}{d}, {p}) }} else {{ {d} }}; let {w} = if {c} {{ 0int }} else {{ {p} }}; match {s.dtf(tf[:-1], v, w, env, base)} {{ None => None, Some((v, q)) => Some((v, if {c} {{ xp_{t.name}({a}{d}, {p}, q) }} else {{ q }})) }} }})"
        return f"(if {t.cond.vs(env)} {{ {on} }} else {{ {off} }})"

    # ---- encoding
    def enc(s, t, v, o, env):
        if isinstance(t, (Sc, Fl)): return f"Some({o} + ({v}).s_to_{'le' if getattr(t, 'le', False) else 'be'}())"
        if isinstance(t, Bo): return f"Some(enc_bool({v}, {o}))"
        if isinstance(t, Ref): return f"enc_{t.name}({v}, {o}{s.callargs(t.name, t.args, env)})"
        if isinstance(t, Fo): return f"(match fe_{fname(t.name, len(t.args))}({''.join(a.vs(env) + ', ' for a in t.args)}{v}) {{ None => None, Some(b) => Some({o} + b) }})"
        if isinstance(t, Arr):
            if isinstance(t.el, Sc) and t.el.t == "u8" and t.term is None:
                if t.n is None: return f"Some({o} + ({v}).s@)"
                return f"(if ({t.n.vs(env)}) as int == ({v}).s@.len() {{ Some({o} + ({v}).s@) }} else {{ None }})"
            names, decl, val, e2 = s.envs(s.elexprs(t.el), env)
            k = s.fresh("l"); T = s.vt(t.el)
            nm = ", ".join("e_" + n for n in names); nm = ", " + nm if nm else ""
            at = len(s.dl.get((s.cur, "encode"), []))
            ce = s.cenv; ev = {n: (ce or env)[n] for n in names}    # the values as the function sees them, also inside an outer list
            s.cenv = {**(ce or env), **ev}; step = s.enc(t.el, "xs[i]", "o", e2); s.cenv = ce
            s.out.append(f"pub open spec fn el_{k}(xs: Seq<{T}>, i: int, n: int, o: Seq<u8>{decl}) -> Option<Seq<u8>> decreases n - i {{ if i >= n {{ Some(o) }} else {{ match {step} {{ None => None, Some(o2) => el_{k}(xs, i + 1, n, o2{nm}) }} }} }}")
            s.loop("encode", {"kind": "e", "names": names, "spec": k, "T": T, "env": ev}, at)
            call = f"el_{k}(({v}).s@, 0, ({v}).s@.len() as int, {o}{val})"
            if t.n is not None: return f"(if ({t.n.vs(env)}) as int == ({v}).s@.len() {{ {call} }} else {{ None }})"
            if t.term is not None: return f"(match {call} {{ None => None, Some(b) => Some(b + seq![{', '.join(f'{b}u8' for b in t.term)}]) }})"
            return call
        raise NoContract(str(t))
    def etf(s, tf, o, env, base):
        """base(o) -> Option<Seq>"""
        if not tf: return base(o)
        t = tf[-1]; n0 = len(s.dl.get((s.cur, "encode"), []))
        a = "".join(x.vs(env) + ", " for x in t.args)
        on = f"(match {s.etf(tf[:-1], 'Seq::<u8>::empty()', env, base)} {{ None => None, Some(b) => Some({o} + xe_{t.name}({a}b)) }})"
        if t.cond is None: return on
        n = len(s.dl.get((s.cur, "encode"), []))
        off = s.etf(tf[:-1], o, env, base)
        if len(s.dl.get((s.cur, "encode"), [])) != n:
            del s.dl[(s.cur, "encode")][n0:]; w = s.fresh("o"); c = t.cond.vs(env)
            return f"({{ let {w} = if {c} {{ Seq::<u8>::empty() }} else {{ {o} }}; match {s.etf(tf[:-1], w, env, base)} {{ None => None, Some(b) => Some(if {c} {{ {o} + xe_{t.name}({a}b) }} else {{ b }}) }} }})"
        return f"(if {t.cond.vs(env)} {{ {on} }} else {{ {off} }})"
    def erefs(s, co, v, env, opt=False):
        """names visible while encoding: stored values, and calculations"""
        for n, f, op in leaves(co, opt):
            if f.calc is None: env[n] = v(n)
        for n, f, op in leaves(co, opt):
            if f.calc is not None and not blens(f.calc): env[n] = f.calc.vs(env)
    def efields(s, co, env, o, k):
        """k(o) is the final text"""
        tg = {}; lt = {}     # blen targets: content computed where it is first needed, and its loops
        def seq(i, o):
            if i == len(co.fields): return k(o)
            f = co.fields[i]
            if f.pad is not None: return f"({{ let {(q := s.fresh('o'))} = {o} + zeros(({f.pad.vs(env)}) as int); {seq(i + 1, q)} }})"
            pre = post = ""
            if f.calc is not None and blens(f.calc):
                for b in blens(f.calc):
                    if b not in tg:
                        g = [x for x in co.fields if x.name == b][0]; c = s.fresh("b")
                        if g.cond is not None: raise NoContract("blen of a conditional field")
                        ls = s.dl.setdefault((s.cur, "encode"), []); at = len(ls)
                        pre += f"match {s.efield(g, 'Seq::<u8>::empty()', env)} {{ None => None, Some({c}) => "; post += " }"
                        lt[b] = ls[at:]; del ls[at:]    # the code runs these loops where the field is
                        tg[b] = c; s.pend.add(s.cur)
                    env["blen " + b] = tg[b]
                cv = s.fresh("c"); pre += f"{{ let {cv} = {f.calc.vs(env)}; "; post = " }" + post; env[f.name] = cv
            q = s.fresh("o")
            if f.name in lt: s.dl[(s.cur, "encode")] += lt.pop(f.name)
            e = f"Some({o} + {tg[f.name]})" if f.name in tg else s.efield(f, o, env)
            return f"({pre}match {e} {{ None => None, Some({q}) => {seq(i + 1, q)} }}{post})"
        return seq(0, o)
    def efield(s, f, o, env, cond=True):
        sub = isinstance(f.ty, Co)
        env = dict(env); opt = f.cond is not None and cond
        if sub:
            chk = "true"
            if opt:
                for n, g, op in leaves(f.ty):
                    if op: raise NoContract("nested conditional field")
                    if g.calc is None:
                        chk += f" && ({env[n]}) is Some"; env[n] = f"({env[n]})->0"
                for n, g, op in leaves(f.ty):
                    if g.calc is not None and not blens(g.calc): env[n] = g.calc.vs(env)
            def base(o):
                if f.ty.n is None: return s.efields(f.ty, env, o, lambda q: f"Some({q})")
                return f"(match {s.efields(f.ty, env, 'Seq::<u8>::empty()', lambda q: f'Some({q})')} {{ None => None, Some(b) => Some({o} + b) }})"
            e = s.etf(f.tf, o, env, base)
            if opt: return f"(if {f.cond.vs(env)} {{ if {chk} {{ {e} }} else {{ None }} }} else {{ Some({o}) }})"
            return e
        v = env[f.name]
        if opt:
            if f.calc is None: env[f.name] = f"({v})->0"
            e = s.etf(f.tf, o, env, lambda o: s.enc(f.ty, env[f.name], o, env))
            if f.calc is None: e = f"if ({v}) is Some {{ {e} }} else {{ None }}"
            return f"(if {f.cond.vs(env)} {{ {e} }} else {{ Some({o}) }})"
        return s.etf(f.tf, o, env, lambda o: s.enc(f.ty, v, o, env))

    # ---- declarations
    def specs(s):
        for d in s.P.all():
            s.cur = d.name
            if isinstance(d, En): s.sp_en(d)
            elif isinstance(d, Bf): s.sp_bf(d)
            elif isinstance(d, Ty): s.sp_ty(d)
    def sp_codec(s, d):
        e = "le" if d.rep.le else "be"; n = d.name; r = d.rep.t
        s.out.append(f"pub open spec fn dec_{n}(d: Seq<u8>, p: int) -> Option<({n}, int)> {{ match dec_{e}::<{r}>(d, p) {{ None => None, Some((x, q)) => match fr_{n}(x) {{ None => None, Some(v) => Some((v, q)) }} }} }}")
        s.out.append(f"pub open spec fn enc_{n}(v: {n}, o: Seq<u8>) -> Option<Seq<u8>> {{ Some(o + tr_{n}(v).s_to_{e}()) }}")
    def sp_en(s, d):
        n = d.name; r = d.rep.t; vs = d.vals()
        L = lambda x: f"{x}{r}" if x >= 0 else f"({x}{r})"
        chain = "".join(f"if x == {L(v)} {{ Some({n}::{k}) }} else " for k, v in vs) + "{ " + (f"Some({n}::{d.default}(x))" if d.default else "None") + " }"
        s.out.append(f"pub open spec fn fr_{n}(x: {r}) -> Option<{n}> {{ {chain} }}")
        s.out.append(f"pub open spec fn tr_{n}(v: {n}) -> {r} {{ match v {{ " + ", ".join(f"{n}::{k} => {L(v)}" for k, v in vs) + (f", {n}::{d.default}(x) => x" if d.default else "") + " } }")
        s.mapr(n, r)
        s.sp_codec(d)
    def mapr(s, n, r):
        s.out.append(f"pub open spec fn mapr_{n}(xs: Seq<{r}>) -> Option<Seq<{n}>> {{ if forall|i: int| 0 <= i < xs.len() ==> fr_{n}(#[trigger] xs[i]) is Some {{ Some(Seq::new(xs.len(), |i: int| fr_{n}(xs[i])->0)) }} else {{ None }} }}")
        s.out.append(f"/// xs.map({n}::from_repr).collect::<Result<Vec<_>>>()\n#[verifier::external_body] pub fn vs_mapr_{n}(xs: VsV<{r}>) -> (x: VsR<VsV<{n}>>) ensures x matches Ok(v) ==> mapr_{n}(xs.s@) == Some(v.s@), x matches Err(e) ==> mapr_{n}(xs.s@) is None && !e.io@ {{ unimplemented!() }}")
    def sp_bf(s, d):
        n = d.name; r = d.rep.t
        s.out.append(f"pub open spec fn fr_{n}(x: {r}) -> Option<{n}> {{ if x & !{d.mask()}{r} == 0{r} {{ Some({n}(x)) }} else {{ None }} }}")
        s.out.append(f"pub open spec fn tr_{n}(v: {n}) -> {r} {{ v.0 }}")
        s.mapr(n, r)
        s.sp_codec(d)
    def sp_ty(s, d):
        n = d.name; a = s.args(d); env = s.bind(d)
        co = d.ty if isinstance(d.ty, Co) else None
        if d.cond is not None and co is not None: raise NoContract("condition on a container declaration")
        sm = (lambda x: f"Some({x})") if d.cond is not None else (lambda x: x)
        # decode
        def base(dd, p):
            e2 = dict(env)
            if co is None: return f"(match {s.dec(d.ty, dd, p, e2)} {{ None => None, Some((v, q)) => Some(({n}({sm('v')}), q)) }})"
            def fields(dd):
                if co.tagged:
                    o = ""
                    for f in co.fields:
                        e3 = dict(e2)
                        x = s.dfield(f, dd, p, e3, cond=False)
                        if isinstance(f.ty, Co):
                            con = f"{n}::{f.name} {{ {', '.join(f'{m}: f_{m}' for m, _ in flat(f))} }}"
                        else: con = f"{n}::{f.name}(f_{f.name})"
                        x = f"match {x} {{ None => None, Some(({s.lv(f)}, q)) => Some(({con}, q)) }}"
                        o += f"if {f.cond.vs(env) if f.cond is not None else 'true'} {{ {x} }} else "
                    return "(" + o + "{ None })"
                return "(" + s.dfields(co, dd, p, e2, lambda q: f"Some(({n} {{ {', '.join(f'{m}: f_{m}' for m, _, _ in leaves(co))} }}, {q}))") + ")"
            if co.n is None: return fields(dd)
            v = s.fresh("d")
            return f"({{ let {v} = lim({dd}, {p}, ({co.n.vs(env)}) as int); {fields(v)} }})"
        whole = s.dtf(d.tf, 'd', 'p', env, base)
        if d.cond is not None: whole = f"if {d.cond.vs(env)} {{ {whole} }} else {{ Some(({n}(None), p)) }}"
        s.out.append(f"pub open spec fn dec_{n}(d: Seq<u8>, p: int{a}) -> Option<({n}, int)> {{ {whole} }}")
        # encode
        def ebase(o):
            e2 = dict(env)
            if co is None: return s.enc(d.ty, "v.0" if d.cond is None else "w", o, e2)
            def fields(o):
                if co.tagged:
                    t = ""
                    for f in co.fields:
                        e3 = dict(e2)
                        if isinstance(f.ty, Co):
                            pat = f"{n}::{f.name} {{ {', '.join(f'{m}: f_{m}' for m, _ in flat(f))} }}"
                            s.erefs(f.ty, lambda m: f"f_{m}", e3)
                        else: pat = f"{n}::{f.name}(f_{f.name})"; e3[f.name] = f"f_{f.name}"
                        n0 = len(s.dl.get((s.cur, "encode"), []))
                        x = s.efield(f, o, e3, cond=False)
                        for L in s.dl.get((s.cur, "encode"), [])[n0:]: L["pat"] = pat
                        t += f"if {f.cond.vs(env) if f.cond is not None else 'true'} {{ match v {{ {pat} => {x}, _ => None }} }} else "
                    return "(" + t + f"{{ Some({o}) }})"
                s.erefs(co, lambda m: f"v.{m}", e2)
                return s.efields(co, e2, o, lambda q: f"Some({q})")
            if co.n is None: return fields(o)
            return f"(match {fields('Seq::<u8>::empty()')} {{ None => None, Some(b) => Some({o} + b) }})"
        whole = s.etf(d.tf, 'o', env, ebase)
        if d.cond is not None: whole = f"if {d.cond.vs(env)} {{ match v.0 {{ None => None, Some(w) => {whole} }} }} else {{ Some(o) }}"
        s.out.append(f"pub open spec fn enc_{n}(v: {n}, o: Seq<u8>{a}) -> Option<Seq<u8>> {{ {whole} }}")

    def appends(s):
        """lemmas: what an encoder appends does not depend on what the output already holds"""
        import re
        fs = {}
        for x in s.out:
            m = re.match(r"pub open spec fn ((?:enc|el)_\w+)\((.*?)\) -> Option<Seq<u8>>(.*)", x, re.S)
            if m: fs[m.group(1)] = (m.group(2), m.group(3))
        dep = {f: {g for g in re.findall(r"\b((?:enc|el)_\w+)\(", b) if g in fs and g != f} for f, (_, b) in fs.items()}
        done = []; todo = list(fs)
        while todo:
            r = [f for f in todo if dep[f] <= set(done)]
            if not r: break                        # recursive types: no lemma, the obligation stays as it is
            for f in r: todo.remove(f); done.append(f)
        def clo(f, seen):
            for g in dep[f]:
                if g in done and g not in seen: seen.add(g); clo(g, seen)
            return seen
        need = set()
        for n in s.pend:
            s.apuse[n] = sorted(clo("enc_" + n, set())); need |= set(s.apuse[n])
        for f in done:
            if f not in need: continue
            sig, body = fs[f]; ps = [x.split(": ")[0] for x in re.split(r", (?=\w+: )", sig)]
            call = lambda **k: f"{f}({', '.join(k.get(p, p) for p in ps)})"
            E = "Seq::<u8>::empty()"
            use = "".join(f"ap_{g}, " for g in sorted(clo(f, set()))); use = f"broadcast use {{ {use}vs_assoc, vs_unit }};"
            pf = ""
            if f[0:3] == "el_":
                step = re.match(r".*?decreases n - i \{ if i >= n \{ Some\(o\) \} else \{ match (.*) \{ None => None, Some\(o2\) => el_", body, re.S).group(1)
                pf = f"if i < n {{ match ({{ let o = {E}; {step} }}) {{ None => {{}}, Some(b) => {{ ap_{call(i='i + 1', o='o + b')}; ap_{call(i='i + 1', o='b')}; }} }} }}"
                sg = sig + ""
            s.out.append(f"pub broadcast proof fn ap_{f}({sig}) ensures #[trigger] {call()} == vs_pre(o, {call(o=E)}){' decreases n - i' if pf else ''} {{ {use} {pf} }}")

    # ---- weaving into the translated code
    def contracts(s):
        C = {}
        for d in s.P.all():
            n = d.name
            if isinstance(d, Cn): continue
            mono = ">" if not s.zw(Ref(n)) else ">="
            for sfx in ("sync", "async"):
                x = "".join(f", {n}" for n in s.pnames(d, f"decode_{sfx}").values())
                C[f"{n}:decode_{sfx}"] = f"requires old(reader).ok(), {s.refill()}ensures final(reader).d == old(reader).d, final(reader).ok(), vs_r is Ok ==> final(reader).p@ {mono} old(reader).p@, vs_r matches Ok(vs_v) ==> dec_{n}(old(reader).d@, old(reader).p@{x}) == Some((vs_v, final(reader).p@)), vs_r matches Err(vs_e) ==> vs_e.io@ || dec_{n}(old(reader).d@, old(reader).p@{x}) is None"
                C[f"{n}:encode_{sfx}"] = f"ensures vs_r is Ok ==> enc_{n}(*self, old(writer).o(){x}) == Some(final(writer).o()), vs_r matches Err(vs_e) ==> vs_e.io@ || enc_{n}(*self, old(writer).o(){x}) is None"
            if isinstance(d, (En, Bf)):
                C[f"{n}:from_repr"] = f"ensures vs_r matches Ok(vs_v) ==> fr_{n}(repr) == Some(vs_v), vs_r matches Err(vs_e) ==> !vs_e.io@ && fr_{n}(repr) is None"
                if isinstance(d, En): C[f"{n}:to_repr"] = f"ensures vs_r == tr_{n}(self)"
                C[f"{n}:vs_to_be_bytes"] = f"ensures vs_r.s@ == tr_{n}(*self).s_to_be()"
                C[f"{n}:vs_to_le_bytes"] = f"ensures vs_r.s@ == tr_{n}(*self).s_to_le()"
            if isinstance(d, Bf):
                r = d.rep.t
                for k, v in d.vals():
                    C[f"{n}:const {k.upper()}"] = f"ensures {n}::{k.upper()} == {n}({v}{r})"
                    C[f"{n}:{k}"] = f"ensures vs_r == (self.0 & {v}{r} != 0{r})"
                    C[f"{n}:set_{k}"] = f"ensures final(self).0 == old(self).0 | {v}{r}"
                C[f"{n}:const ALL"] = f"ensures {n}::ALL == {n}({d.mask()}{r})"
                C[f"{n}:const ZERO"] = f"ensures {n}::ZERO == {n}(0{r})"
                for m, op in (("or", "|"), ("and", "&"), ("xor", "^")):
                    C[f"{n}:vs_bit{m}"] = f"ensures vs_r == {n}(self.0 {op} rhs.0)"
                    C[f"{n}:vs_bit{m}_assign"] = f"ensures final(self).0 == old(self).0 {op} rhs.0"
                C[f"{n}:vs_not"] = f"ensures vs_r == {n}(!self.0)"
        return C

    def weave(s, tr, append=False):
        """the translated code with every contract and invariant in place -> (text, function names under contract, notes)"""
        import re
        if append: s.appends()
        s.pm = {(f[0], f[1]): f[2] for f in tr["fns"] if len(f) > 2}
        code = tr["verus"]; C = s.contracts(); used = []; notes = []
        def con(m):
            key = f"{m.group(1)}:{m.group(2)}"
            if key in C: used.append(key); return C[key]
            return ""
        # functions whose termination is proved: not those of recursive types, nor of lists whose elements may take no bytes
        s.terminating = []
        def att(m):
            ty, fn = m.group(3), m.group(4)
            if not s.total or not fn.startswith("decode_") or ty in s.rec or any(L["zw"] and L["kind"] != "n" for L in s.dl.get((ty, "decode"), [])): return m.group(0)
            s.terminating.append(f"{ty}:{fn}"); return m.group(1) + m.group(2)
        if s.total: code = re.sub(r"#\[verifier::exec_allows_no_decreases_clause\]\n((?:#\[[^\n]*\n)*)(pub fn [^@]*?/\*@CON:(\w+):(\w+)@\*/)", att, code)
        # facts on bits, so that another way to say the same is seen to be the same
        start = {}
        for d in s.P.all():
            if isinstance(d, Bf):
                r = d.rep.t; a = f"{d.mask()}{r}"
                start[f"{d.name}:from_repr"] = f"assert(((repr | {a}) == {a} <==> repr & !{a} == 0{r}) && ((repr & {a}) == repr <==> repr & !{a} == 0{r}) && ((repr ^ (repr & {a})) == repr & !{a})) by(bit_vector);"
                for k, v in d.vals():
                    if v & (v - 1) == 0: start[f"{d.name}:{k}"] = f"let vs_x = self.0; assert((vs_x & {v}{r}) == {v}{r} <==> vs_x & {v}{r} != 0{r}) by(bit_vector);"
        code = re.sub(r"/\*@CON:(\w+):(\w+)@\*/\s*\{", lambda m: m.group(0) + (" proof { " + start[k] + " }" if (k := f"{m.group(1)}:{m.group(2)}") in start else ""), code)
        code = re.sub(r"/\*@CON:(\w+):([\w ]+)@\*/", con, code)
        missing = [k for k in C if k not in used and not k.endswith("_async") and not k.endswith("_sync")]
        # loops
        regs = {}
        for b in tr["builds"]:
            if b["fn"].startswith("decode"):
                if b.get("fields"): regs.setdefault(b["ty"], {}).update(b["fields"])
        by = {}
        for k, l in enumerate(tr["loops"]): by.setdefault((l["ty"], l["fn"]), []).append((k, l))
        inv = {}
        for ty, fn in set(by) | {(t, f + "_sync") for t, f in s.dl}:
            key = (ty, fn.split("_")[0])
            a, b = by.get((ty, fn), []), s.dl.get(key, [])
            if len(a) != len(b): raise NoContract(f"loops of {key}: {len(a)} found, {len(b)} described")
            d = s.P.root[key[0]]; argn = {n for n, _, _ in d.args} if isinstance(d, Ty) else set()
            dfl = s.bind(d) if isinstance(d, Ty) else {}
            for (k, l), L in zip(a, b):
                st = l["stream"]; r = regs.get(key[0], {}); pn = s.pnames(d, l["fn"])
                if key[1] == "decode":
                    ev = "".join(", " + (pn[n] if n in argn else r.get(n, n)) for n in L["names"])
                    sp = L["spec"]
                    frame = f"{s.refill()}{st}.d@ == vs_d{k}, {st}.ok(), {st}.p@ >= vs_p{k}"
                    e = f"Seq::<{L['T']}>::empty()"
                    stuck = f" || st_{sp}({st}.d@, {st}.p@{ev})" if L.get("stuck") else ""
                    if "out" not in l: raise NoContract("decode loop without output")
                    if s.total and not L["zw"]: frame += f", {l['out']}.s@.len() <= {st}.p@ - vs_p{k}"
                    dcr = f" decreases vs_d{k}.len() - {st}.p@" if s.total and not L["zw"] else ""
                    if L["kind"] == "n" and l["kind"] == "for":
                        inv[k] = f"invariant dl_{sp}(vs_d{k}, vs_p{k}, {l['n']} as int, {e}{ev}) == dl_{sp}({st}.d@, {st}.p@, {l['n']} - {l['i']}, {l['out']}.s@{ev}), {frame}"
                    elif L["kind"] == "r" and l["kind"] == "while":
                        inv[k] = f"invariant dr_{sp}(vs_d{k}, vs_p{k}, {e}{ev}) == dr_{sp}({st}.d@, {st}.p@, {l['out']}.s@{ev}){stuck}, {frame}{dcr}"
                    elif L["kind"] == "t" and l["kind"] == "loop":
                        inv[k] = f"invariant_except_break dt_{sp}(vs_d{k}, vs_p{k}, {e}{ev}) == dt_{sp}({st}.d@, {st}.p@, {l['out']}.s@{ev}){stuck}, {frame} ensures dt_{sp}(vs_d{k}, vs_p{k}, {e}{ev}) == Some(({l['out']}.s@, {st}.p@)), {frame}{dcr}"
                    else: raise NoContract(f"loop kind {l['kind']} for {L['kind']}")
                else:
                    if l["kind"] != "for" or "src" not in l: raise NoContract("encode loop")
                    def fix(x):
                        x = re.sub(r"\bv\.", "self.", x)
                        for n in reversed(list(dfl)): x = x.replace(dfl[n], "a_" + n)
                        return re.sub(r"\ba_(\w+)\b", lambda m: pn.get(m.group(1), m.group(1)), x)
                    ev = "".join(", " + fix(L["env"][n]) for n in L["names"])
                    x = f"el_{L['spec']}({l['src']}.s@, 0, {l['src']}.s@.len() as int, vs_o{k}{ev}) == el_{L['spec']}({l['src']}.s@, {l['i']} as int, {l['src']}.s@.len() as int, {st}.o(){ev})"
                    if L.get("pat") and ev: x = f"(match *self {{ {L['pat']} => {x}, _ => false }})"
                    inv[k] = f"invariant {x}, {l['n']} == {l['src']}.s@.len()"
        code = re.sub(r"/\*@INV:(\d+)@\*/", lambda m: inv[int(m.group(1))], code)
        code = re.sub(r"/\*@TOP:(\w+):encode_\w+@\*/", lambda m: f"broadcast use {{ {''.join(f'ap_{g}, ' for g in s.apuse[m.group(1)])}vs_assoc, vs_unit }};" if m.group(1) in s.apuse else "", code)
        code = re.sub(r"/\*@(TOP|TPL):[^@]*@\*/", "", code)
        return "\n".join(s.out) + "\n" + code, used, missing
