"""Protospec programs as data: source text, contracts (Verus spec functions) and a reference
interpreter, all derived from the same description, never from the compiler under test."""
import threading, random, re, zlib
from dataclasses import dataclass, field as dfield

BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "u128": 128, "i128": 128, "usize": 64}

class DecErr(Exception): pass
class EncErr(Exception): pass
class IxErr(DecErr, EncErr): pass
class Unspec(Exception): pass   # reference makes no prediction

def wrapi(t, v):
    b = BITS[t]; v &= (1 << b) - 1
    return v - (1 << b) if t[0] == "i" and v >> (b - 1) else v
def rng(t): return (-(1 << (BITS[t] - 1)), (1 << (BITS[t] - 1)) - 1) if t[0] == "i" else (0, (1 << BITS[t]) - 1)

# ------------------------------------------------------------------ types
@dataclass
class Sc:
    t: str; le: bool = False
    def src(s): return s.t + ("le" if s.le else "")
@dataclass
class Fl:
    t: str                      # f32 f64
    def src(s): return s.t
@dataclass
class Bo:
    def src(s): return "bool"
@dataclass
class Ref:
    name: str; args: list = dfield(default_factory=list)
    def src(s): return s.name + ("(" + ", ".join(a.src(0) for a in s.args) + ")" if s.args else "")
@dataclass
class Fo:
    name: str; args: list = dfield(default_factory=list)     # foreign types
    def src(s): return s.name + ("(" + ", ".join(a.src(0) for a in s.args) + ")" if s.args else "")
@dataclass
class Arr:
    el: object; n: object = None; term: bytes = None
    def src(s): return f"{s.el.src()}[{'..' + lit(s.term) if s.term is not None else '..' if s.n is None else s.n.src(0)}]"
@dataclass
class Co:
    fields: list; n: object = None; tagged: bool = False
    def src(s):
        fs = ", ".join(f.src() for f in s.fields)
        return f"container {'[' + s.n.src(0) + '] ' if s.n else ''}{'+tagged_enum ' if s.tagged else ''}{{ {fs} }}"
@dataclass
class Tf:
    name: str; args: list = dfield(default_factory=list); cond: object = None
    def src(s): return f" -> {s.name}" + ("(" + ", ".join(a.src(0) for a in s.args) + ")" if s.args else "") + (f" {{ {s.cond.src(0)} }}" if s.cond else "")
@dataclass
class Fd:
    name: str; ty: object; cond: object = None; tf: list = dfield(default_factory=list); calc: object = None; flags: str = ""; pad: object = None
    def src(s):
        if s.pad is not None: return f".{s.name}: {s.pad.src(0)}" + (f" {{ {s.cond.src(0)} }}" if s.cond else "")
        return f"{s.name}: {s.ty.src()}" + (f" = {s.calc.src(0)}" if s.calc else "") + s.flags + (f" {{ {s.cond.src(0)} }}" if s.cond else "") + "".join(t.src() for t in s.tf)
def Pad(e, cond=None, name="pad"): return Fd(name, None, cond=cond, pad=e)

def lit(b):
    o = '"'
    for c in b:
        if c in (34, 92): o += "\\" + chr(c)
        elif 32 <= c < 127: o += chr(c)
        else: o += f"\\{c:02x}"
    return o + '"'

# ------------------------------------------------------------------ declarations
@dataclass
class En:
    name: str; rep: Sc; items: list; default: str = None        # items: (name, value|None)
    def vals(s):
        o = []; n = None
        for k, v in s.items:
            if isinstance(v, Ex): v = v.ev({})
            n = v if v is not None else (0 if n is None else n + 1)
            o.append((k, n))
        return o
    def src(s):
        it = [f"{k} = {v if not callable(getattr(v, 'src', None)) else v.src(0)}" if v is not None else k for k, v in s.items]
        if s.default: it.append(f"{s.default} = default")
        return f"type {s.name} = enum {s.rep.src()} {{ {', '.join(it)} }};"
@dataclass
class Bf:
    name: str; rep: Sc; items: list
    def vals(s):
        o = []; n = None
        for k, v in s.items:
            if isinstance(v, Ex): v = v.ev({})
            n = v if v is not None else (1 if n is None else n << 1)
            o.append((k, n))
        return o
    def mask(s):
        m = 0
        for _, v in s.vals(): m |= v
        return m
    def src(s): return f"type {s.name} = bitfield {s.rep.src()} {{ {', '.join(f'{k} = {v.src(0) if isinstance(v, Ex) else v}' if v is not None else k for k, v in s.items)} }};"
@dataclass
class Ty:
    name: str; ty: object; args: list = dfield(default_factory=list)   # args: (name, Sc|Bo, default Expr|None)
    tf: list = dfield(default_factory=list); cond: object = None
    def src(s):
        a = "(" + ", ".join(f"{n}: {t.src()}" + (f" ? {d.src(0)}" if d else "") for n, t, d in s.args) + ")" if s.args else ""
        return f"type {s.name}{a} = {s.ty.src()}" + (f" {{ {s.cond.src(0)} }}" if s.cond else "") + "".join(t.src() for t in s.tf) + ";"
@dataclass
class Cn:
    name: str; t: Sc; e: object
    def src(s): return f"const {s.name}: {s.t.src()} = {s.e.src(0)};"

SP = None
LOCK = threading.Lock()
TOKEN = re.compile(r'"(?:\\.|[^"\\])*"|\d+(?=[ui](?:8|16|32|64|128)(?:le)?\b)|0x[0-9a-fA-F]+?(?=[ui](?:8|16|32|64|128)(?:le)?\b)|0x[0-9a-fA-F]+|\d+|\w+|\s+|.')
GAP = [" ", "  ", "\n", "\t", "\r\n", "\n\n", " /* */ ", "/**/", "/* \"{ ; */", "/* a\n * b */", " // }; \"\n", "//\n", " /* // */ "]
def respell(t, r):
    """the same tokens: other white space, comments, numbers in hexadecimal, escapes in strings"""
    o = []; prev = ""; ks = TOKEN.findall(t); much = r.choice([.03, .15, .5])
    for i, k in enumerate(ks):
        if k.isspace():
            if r.random() < much: k = r.choice(GAP)
            if k[:1] == "/" and prev == "/": k = " " + k
        elif k[0] == '"':
            b = re.findall(r"\\[0-9a-f]{2}|\\.|.", k[1:-1]); k = '"'
            for j, c in enumerate(b):
                v = int(c[1:], 16) if len(c) == 3 else ord(c[-1]); nx = b[j + 1] if j + 1 < len(b) else ""
                q = r.random()
                if q < .15: c = f"\\{v:02X}" if r.random() < .5 else f"\\{v:02x}"
                elif q < .3 and v < 16 and not re.match("[0-9a-fA-F]", nx): c = f"\\{v:x}"
                elif q < .3 and 32 <= v < 127 and not re.match("[0-9a-fA-F]", chr(v)): c = "\\" + chr(v)
                k += c
            k += '"'
        elif k[0].isdigit():
            v = int(k, 0)
            if prev != "-" and r.random() < .25: k = f"0x{v:x}" if r.random() < .6 else f"0x{v:X}" if r.random() < .6 else f"0x{v:04x}"
            elif k[:2] == "0x" and prev != "-" and r.random() < .3: k = str(v)
        if not k.isspace(): prev = k[-1:]
        nxt = ks[i + 1] if i + 1 < len(ks) else ""
        o.append(k)
        if k in (",", ";", "{", "}", "(", ")", "[", "]") and nxt and not nxt.isspace() and r.random() < much * .5: o.append(r.choice(GAP))
    return "".join(o) + r.choice(["", "", "\n", " ", "\n// end", "// end", "/* end */", "\n\n"])

PRELUDE_FN = {"pad", "bits", "sum"}

class Prog:
    def __init__(s, name, *decls, **k):
        s.name = name; s.decls = list(decls); s.asy = k.get("asy", False); s.files = k.get("files", {}); s.pre = k.get("pre", "")
        s.root = {d.name: d for d in decls}
        s.extra = {d.name: d for d in k.get("imported", [])}
        s.root.update(s.extra)
        s.pin = k.get("pin", [])            # [(type name, args, bytes)] inputs always tried
        s.novs = k.get("novs", False)       # outside the verifier's reach: stand-in only
        s.nodec = k.get("nodec", False)
        s.foreign = k.get("foreign", False)   # prelude types inlined and verified
        s.hostile = 0       # executions: heap limit in bytes, and inputs with extreme lengths
        s.parts = None                      # names of declarations, file by file; the main file comes last
        s.text_is = None
        s.spell = None                      # a seed: the same program in an unusual spelling
    def all(s): return list(s.extra.values()) + s.decls
    def src(s):
        with LOCK:
            k = (s.spell, None if s.parts is None else s.plan)
            if s.text_is is None or s.text_is[0] != k: s.text_is = (k, s.make())
            return s.text_is[1]
    def make(s):
        global SP
        r = random.Random(s.spell)
        if s.spell is not None: SP = r
        try:
            m = s.text() if s.parts is None else s.spread()
            if s.spell is not None: s.files = {k: respell(v, r) for k, v in s.files.items()}; m = respell(m, r)
        finally: SP = None
        return m
    def split(s, r):
        """spread the declarations over several files: every file uses declarations of its own and of files before it"""
        ds = {d.name: d for d in s.decls}; ref = {n: {k for k in re.findall(r"\w+", d.src()) if k in ds and k != n} for n, d in ds.items()}
        reach = {n: set() for n in ds}
        for n in ds:
            todo = [n]
            while todo:
                for k in ref[todo.pop()] - reach[n]: reach[n].add(k); todo.append(k)
        groups = []     # declarations that refer to each other stay together; S and what has to go with it come last
        last = {n for n in ds if "S" in reach[n]} | {"S"}
        left = [n for n in ds if n not in last]; r.shuffle(left); done = set()
        while left:
            n = next(n for n in left if all(k in done or n in reach[k] for k in reach[n])); g = [n] + [k for k in left if k != n and k in reach[n] and n in reach[k]]
            groups.append(g); done |= set(g); left = [k for k in left if k not in g]
        if not groups: return
        nf = r.randrange(1, 4); cut = sorted(r.randrange(len(groups) + 1) for _ in range(nf - 1)); cut = [0] + cut + [len(groups)]
        if r.random() < .5: cut[-1] = max(cut[-2], cut[-1] - 1)     # the main file may declare more than S
        parts = [sum(groups[a:b], []) for a, b in zip(cut, cut[1:])]; parts = [x for x in parts if x]
        if parts: s.parts = parts + [[n for n in ds if not any(n in x for x in parts)]]; s.plan = r.random()
    def spread(s):
        r = random.Random(s.plan); ds = {d.name: d for d in s.decls}; s.files = {}; where = {}; ffi = {}; uses = {}
        exp = {}            # the name of a constant in its own file, where that is not its name in the program: files may use a name twice
        consts = [n for n in ds if isinstance(ds[n], Cn)]
        fields = set()      # names that are more than names of declarations
        def walk(t):
            if isinstance(t, Co):
                for f in t.fields: fields.add(f.name if f.ty is not None else ""); walk(f.ty)
        for d in s.decls:
            if isinstance(d, Ty): walk(d.ty); fields.update(a[0] for a in d.args)
            elif not isinstance(d, Cn): fields.update(k for k, _ in d.items); fields.add(getattr(d, "default", None))
        for i, part in enumerate(s.parts):
            name = f"f{i}" if i < len(s.parts) - 1 else None
            mine = [ds[n] for n in part]; used = s.ffi(mine); txt = [d.src() for d in mine]; im = {}; al = {}
            for n in sorted({k for t in txt for k in re.findall(r"\w+", t) if k in where}): im.setdefault(where[n], []).append(n)
            for u in sorted(used):
                at = [f for f, us in ffi.items() if u in us]
                if at and u[0] != "function" and r.random() < .4: im.setdefault(r.choice(at), []).append(u[1]); used = used - {u}
            if name is None:       # every file is needed by some file
                todo = list(im); seen = set()
                while todo:
                    f = todo.pop(); seen.add(f); todo += uses[f] - seen
                for f in reversed(list(s.files)):
                    if f not in seen:
                        im[f] = [r.choice([n for n in where if where[n] == f])]; todo = [f]
                        while todo:
                            g = todo.pop(); seen.add(g); todo += uses[g] - seen
            if r.random() < .3 and name is None:    # more than is needed
                f = r.choice(list(s.files)); more = [n for n in where if where[n] == f and n not in im.get(f, [])]
                if more: im.setdefault(f, []).append(r.choice(more))
            own = {k for t in txt for k in re.findall(r"\w+", t)}; taken = own | fields | {n for f in im for n in im[f]} | {n for _, n in used} | PRELUDE_FN
            if name is not None:
                for n in part:
                    k = [k for k in consts + ["Zc", "kq"] if k not in taken]
                    if isinstance(ds[n], Cn) and n not in fields and k and r.random() < .4: al[n] = exp[n] = r.choice(k); taken.add(al[n])
            back = {}
            for f in im:
                for n in im[f]:
                    e = exp.get(n, n)
                    if n not in fields and (r.random() < .3 or e in taken and e != n):
                        al[n] = r.choice([k for k in ["Z" + n, n + "_2", n.lower() + "q" if n in ds and isinstance(ds[n], Cn) else "Y" + n] if k not in taken] + [k for k in consts if k not in taken and n in consts] + ([n] if e != n else []))
                    elif e != n and n in fields: al[n] = n
                    elif e != n: al[n] = e
                    back[n] = e; taken.add(al.get(n, n))
            k = [k for k in consts if k not in taken and k not in al.values()]
            if k and r.random() < .5: k = r.choice(k); txt.append(f'const {k}: {ds[k].t.src()} = {3 if ds[k].t.src() != "bool" else "true"};')
            def ren(t): return "".join(al.get(k, k) for k in TOKEN.findall(t))
            txt = [ren(t) for t in txt]; head = [f"import_ffi {n} as {k};" for k, n in sorted(used)]
            for f in sorted(im, key=lambda f: r.random()):
                its = [back[n] + (f" as {al[n]}" if al.get(n, n) != back[n] else "") for n in im[f]]; r.shuffle(its)
                while its:
                    k = r.randrange(1, len(its) + 1); head.append(f"import {', '.join(its[:k])} from \"{r.choice(['', './'])}{f}\";"); its = its[k:]
            for h in head: txt.insert(r.choice([0, 0, r.randrange(len(txt) + 1)]), h)
            if name is None: return "\n".join(txt)
            s.files[name] = "\n".join(txt); uses[name] = set(im); ffi[name] = used
            for n in part: where[n] = name
    def ffi(s, decls):
        used = set()
        def te(t):
            if isinstance(t, Fo): used.add(("type", t.name)); [ee(a) for a in t.args]
            elif isinstance(t, Ref): [ee(a) for a in t.args]
            elif isinstance(t, Arr): te(t.el); t.n and ee(t.n)
            elif isinstance(t, Co):
                t.n and ee(t.n)
                for f in t.fields:
                    f.ty and te(f.ty); f.cond and ee(f.cond); f.calc and ee(f.calc); f.pad and ee(f.pad)
                    for x in f.tf: tfe(x)
        def tfe(x):
            used.add(("transform", x.name)); x.cond and ee(x.cond); [ee(a) for a in x.args]
        def ee(e):
            for c in e.kids(): ee(c)
            if isinstance(e, Call) and e.f in PRELUDE_FN: used.add(("function", e.f))
        for d in decls:
            if isinstance(d, Ty):
                te(d.ty); d.cond and ee(d.cond)
                for x in d.tf: tfe(x)
                for a in d.args: a[2] and ee(a[2])
        return used
    def text(s):
        imp = "".join(f"import_ffi {n} as {k};\n" for k, n in sorted(s.ffi(s.decls)))
        return s.pre + imp + "\n".join(d.src() for d in s.decls)

# ------------------------------------------------------------------ expressions
PREC = {"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, ">": 7, "<=": 7, ">=": 7, "<<": 8, ">>": 8, ">>>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}
VOP = {"|": "s_or", "^": "s_xor", "&": "s_and", "<<": "s_shl", ">>": "s_shr", ">>>": "s_shr", "+": "s_add", "-": "s_sub", "*": "s_mul", "/": "s_div", "%": "s_rem"}
class Ex:
    def kids(s): return []
    def fv(s):
        o = set()
        for k in s.kids(): o |= k.fv()
        return o
class I(Ex):
    def __init__(s, v, ty, suf=True, hexa=False): s.v, s.ty, s.suf, s.hexa = v, ty, suf, hexa
    def src(s, p): return (hex(s.v) if s.hexa else str(s.v)) + (s.ty if s.suf else "")
    def vs(s, env): return f"{s.v}{s.ty}"
    def ev(s, env): return s.v
class B(Ex):
    ty = "bool"
    def __init__(s, v): s.v = v
    def src(s, p): return "true" if s.v else "false"
    def vs(s, env): return s.src(0)
    def ev(s, env): return s.v
class Va(Ex):
    """reference to a field, an argument"""
    def __init__(s, n, ty): s.n, s.ty = n, ty
    def src(s, p): return s.n
    def vs(s, env): return env[s.n]
    def ev(s, env): return env[s.n]
    def fv(s): return {s.n}
class Cr(Ex):
    """reference to a constant"""
    def __init__(s, n, v, ty, e=None): s.n, s.v, s.ty, s.e = n, v, ty, e
    def src(s, p): return s.n
    def vs(s, env): return f"({s.e.vs(env)})" if s.e else f"{s.v}{s.ty}"
    def ev(s, env): return s.v
class Mem(Ex):
    ty = "bool"
    def __init__(s, e, bf, flag): s.e, s.bf, s.flag = e, bf, flag; s.mask = dict(bf.vals())[flag]
    def kids(s): return [s.e]
    def src(s, p): return f"{s.e.src(20)}.{s.flag}"
    def vs(s, env): return f"(({s.e.vs(env)}).0 & {s.mask}{s.bf.rep.t} != 0{s.bf.rep.t})"
    def ev(s, env): return (s.e.ev(env) & s.mask) != 0
class Ea(Ex):
    def __init__(s, en, var): s.en, s.var = en, var; s.ty = en
    def src(s, p): return f"{s.en.name}::{s.var}"
    def vs(s, env): return s.src(0)
    def ev(s, env): return (s.var, None)
class Un(Ex):
    def __init__(s, op, e): s.op, s.e = op, e; s.ty = "bool" if op == "!" else e.ty
    def kids(s): return [s.e]
    def src(s, p):
        t = s.op + s.e.src(12)
        return t if p <= 12 else f"({t})"
    def vs(s, env):
        if s.op == "-" and isinstance(s.e, I): return f"(-{s.e.v}{s.e.ty})"
        return {"!": "bool::s_not", "~": f"{s.ty}::s_not", "-": f"{s.ty}::s_neg"}[s.op] + f"({s.e.vs(env)})"
    def ev(s, env):
        v = s.e.ev(env)
        return (not v) if s.op == "!" else wrapi(s.ty, ~v if s.op == "~" else -v)
class Bi(Ex):
    def __init__(s, op, a, b): s.op, s.a, s.b = op, a, b; s.ty = "bool" if op in ("||", "&&", "==", "!=", "<", ">", "<=", ">=") else a.ty
    def kids(s): return [s.a, s.b]
    def src(s, p):
        q = PREC[s.op]
        t = f"{s.a.src(q)} {s.op} {s.b.src(q + 1)}"
        return t if p <= q else f"({t})"
    def vs(s, env):
        a, b = s.a.vs(env), s.b.vs(env)
        if s.op in VOP: return f"{s.ty}::{VOP[s.op]}({a}, {b})"
        return f"(({a}) {s.op} ({b}))"
    def ev(s, env):
        a = s.a.ev(env)
        if s.op == "||": return a or s.b.ev(env)
        if s.op == "&&": return a and s.b.ev(env)
        b = s.b.ev(env); t = s.a.ty
        if s.op in ("==", "!=", "<", ">", "<=", ">="): return {"==": a == b, "!=": a != b}.get(s.op) if s.op in ("==", "!=") else {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[s.op]
        if s.op == "|": r = a | b
        elif s.op == "^": r = a ^ b
        elif s.op == "&": r = a & b
        elif s.op in ("<<", ">>", ">>>"):
            if not 0 <= b < BITS[t]: raise Unspec()
            r = a << b if s.op == "<<" else a >> b
        elif s.op == "+": r = a + b
        elif s.op == "-": r = a - b
        elif s.op == "*": r = a * b
        else:
            if b == 0: raise IxErr()
            q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
            r = q if s.op == "/" else a - q * b
        return wrapi(t, r)
class Te(Ex):
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b; s.ty = a.ty
    def kids(s): return [s.c, s.a, s.b]
    def src(s, p):
        t = f"{s.c.src(1)} ? {s.a.src(0)} : {s.b.src(1)}"
        return t if p <= 0 else f"({t})"
    def vs(s, env): return f"(if {s.c.vs(env)} {{ {s.a.vs(env)} }} else {{ {s.b.vs(env)} }})"
    def ev(s, env): return s.a.ev(env) if s.c.ev(env) else s.b.ev(env)
class Ca(Ex):
    def __init__(s, e, ty): s.e, s.ty = e, ty
    def kids(s): return [s.e]
    def src(s, p):
        t = f"{s.e.src(11)} :> {s.ty}"
        return t if p <= 11 else f"({t})"
    def vs(s, env):
        e = s.e.vs(env)
        if isinstance(s.e.ty, En): return f"(tr_{s.e.ty.name}({e}) as {s.ty})"
        if isinstance(s.e.ty, Bf): return f"(({e}).0 as {s.ty})"
        return f"(({e}) as {s.ty})"
    def ev(s, env):
        v = s.e.ev(env)
        if isinstance(s.e.ty, En): v = en_repr(s.e.ty, v)
        return wrapi(s.ty, int(v))
class El(Ex):
    """the value of a conditional field, or another value when it is absent"""
    def __init__(s, o, e): s.o, s.e = o, e; s.ty = e.ty
    def kids(s): return [s.o, s.e]
    def src(s, p):
        t = f"{s.o.src(11)} ?: {s.e.src(12)}"
        return t if p <= 11 else f"({t})"
    def vs(s, env): return f"(match {s.o.vs(env)} {{ Some(x) => x, None => {s.e.vs(env)} }})"
    def ev(s, env):
        v = s.o.ev(env)
        try: d = s.e.ev(env)
        except IxErr:
            if v is None: raise
            raise Unspec()
        return d if v is None else v
class Ix(Ex):
    def __init__(s, a, i, ty): s.a, s.i, s.ty = a, i, ty
    def kids(s): return [s.a, s.i]
    def src(s, p): return f"{s.a.src(20)}[{s.i.src(0)}]"
    def vs(s, env): return f"({s.a.vs(env)}).s@[({s.i.vs(env)}) as int]"
    def ev(s, env):
        a, i = s.a.ev(env), s.i.ev(env)
        if i >= len(a): raise IxErr()
        return a[i]
class Call(Ex):
    def __init__(s, f, *args): s.f, s.args = f, list(args); s.ty = {"bits": "u8"}.get(f, "u64")
    def kids(s): return s.args
    def fv(s): return set() if s.f == "blen" else Ex.fv(s)
    def src(s, p): return f"{s.f}({', '.join(a.src(0) for a in s.args)})"
    def vs(s, env):
        if s.f == "blen": return f"({env['blen ' + s.args[0].n]}.len() as u64)"
        if s.f == "len":
            t = s.args[0].ty
            if isinstance(t, Arr): return f"(({s.args[0].vs(env)}).s@.len() as u64)"
            return f"{width(t)}u64"
        a = [x.vs(env) for x in s.args]
        if s.f == "bits": return f"(u64::s_ones({a[0]} as u64) as u8)"
        if s.f == "sum": return f"sum_from({a[0]}.s@, 0, 0u64)"
        if s.f == "pad": return f"(if u64::s_rem({a[1]}, {a[0]}) == 0u64 {{ 0u64 }} else {{ u64::s_sub({a[0]}, u64::s_rem({a[1]}, {a[0]})) }})"
    def ev(s, env):
        if s.f == "blen": return len(env["blen " + s.args[0].n])
        if s.f == "len":
            t = s.args[0].ty
            return len(s.args[0].ev(env)) if isinstance(t, Arr) else width(t)
        a = [x.ev(env) for x in s.args]
        if s.f == "bits": return bin(a[0] & ((1 << BITS[s.args[0].ty]) - 1)).count("1")
        if s.f == "sum": return sum(a[0]) & ((1 << 64) - 1)
        if s.f == "pad":
            if a[0] == 0: raise IxErr()
            r = a[1] % a[0]
            return 0 if r == 0 else a[0] - r

def width(t):
    if isinstance(t, str): return 1 if t == "bool" else BITS[t] // 8
    if isinstance(t, Bo): return 1
    if isinstance(t, (En, Bf)): return BITS[t.rep.t] // 8
    if isinstance(t, Fl): return 4 if t.t == "f32" else 8
    return BITS[t.t] // 8

def en_repr(en, v): return v[1] if v[1] is not None else dict(en.vals())[v[0]]
def en_of(en, x):
    for k, v in en.vals():
        if v == x: return (k, None)
    if en.default: return (en.default, x)
    raise DecErr("enum")

FTV = {"v8": "i8", "v16": "i16", "v32": "i32", "v64": "i64", "v128": "i128", "utf8": "str", "utf16": "str"}
# ------------------------------------------------------------------ transforms (reference semantics)
def rotl(b, k): k %= 8; return ((b << k) | (b >> (8 - k))) & 255
def xf_enc(n, a, b, i):
    if n == "xfa": return b ^ 0x5a
    if n == "xfb": return (b + i * 7 + 1) & 255
    if n == "xfk": return rotl(b, a[0])
    if n == "xfm": return ((b ^ ((a[0] >> (8 * (i % 4))) & 255)) + a[1]) & 255
def xf_dec(n, a, b, i):
    if n == "xfa": return b ^ 0x5a
    if n == "xfb": return (b - i * 7 - 1) & 255
    if n == "xfk": return rotl(b, 8 - a[0] % 8)
    if n == "xfm": return ((b - a[1]) & 255) ^ ((a[0] >> (8 * (i % 4))) & 255)
def xf_e(n, a, data):
    if n == "gzip": raise Unspec()
    return bytes(xf_enc(n, a, c, i) for i, c in enumerate(data))

class St:
    def __init__(s, d, p=0): s.d, s.p = d, p
    def take(s, n):
        if s.p + n > len(s.d): raise DecErr("eof")
        r = s.d[s.p:s.p + n]; s.p += n
        return r
    def rest(s): r = s.d[s.p:]; s.p = len(s.d); return r

# ------------------------------------------------------------------ reference interpreter
class Interp:
    def __init__(s, prog): s.P = prog.root; s.left = 300000
    def decode(s, name, data, args=(), p=0):
        st = St(data, p); s.left = 300000      # elements of arrays: a budget, for nested arrays of elements without bytes
        v = s.d_top(name, st, list(args))
        return v, st.p
    def bind(s, d, args):
        env = {}
        for i, (n, t, df) in enumerate(d.args):
            v = args[i] if i < len(args) else None
            if v is None and df is None: raise TypeError("an argument without a value")
            env[n] = v if v is not None else df.ev(env)
        return env
    def d_top(s, name, st, args):
        d = s.P[name]
        if isinstance(d, En): return en_of(d, s.d_int(d.rep, st))
        if isinstance(d, Bf):
            x = s.d_int(d.rep, st)
            if x & ~d.mask(): raise DecErr("bits")
            return x
        env = s.bind(d, args)
        def go(st):
            if isinstance(d.ty, Co):
                return s.lim(d.ty, st, env, lambda st2: s.d_tag(d, st2, env) if d.ty.tagged else s.d_fields(d.ty, st2, env))
            return s.d_ty(d.ty, st, env)
        if d.cond is not None:                      # the value of a conditional declaration: () or (x,)
            if not d.cond.ev(env): return ()
            return (s.tfs(d.tf, st, env, go),)
        return s.tfs(d.tf, st, env, go)
    def lim(s, co, st, env, go):
        if co.n is None: return go(st)
        n = co.n.ev(env); c = St(st.d[:st.p + n], st.p); r = go(c); st.p = c.p
        return r
    def tfs(s, tf, st, env, go):
        if not tf: return go(st)
        t = tf[-1]
        def inner(x): return s.tfs(tf[:-1], x, env, go)
        if t.cond is not None and not t.cond.ev(env): return inner(st)
        a = [x.ev(env) for x in t.args]
        if t.name == "gzip":
            try: c = St(zlib.decompressobj(31).decompress(st.d[st.p:]))
            except zlib.error: raise Unspec()
            inner_v = inner(c); st.p = len(st.d)
            return inner_v
        c = St(bytes(xf_dec(t.name, a, b, i) for i, b in enumerate(st.d[st.p:])))
        r = inner(c); st.p += c.p
        return r
    def d_fields(s, co, st, env):
        out = {}
        for f in co.fields:
            if f.pad is not None:
                # padding is skipped whether or not it carries a condition
                if f.cond is not None: raise Unspec()
                n = f.pad.ev(env)
                if n > 1 << 28: raise Unspec()
                st.take(n); continue
            names = [n for n, _ in flat(f)]
            if f.cond is not None and not f.cond.ev(env):
                for n in names: out[n] = env[n] = None
                continue
            sub = isinstance(f.ty, Co)
            def go(x):
                if sub: return s.lim(f.ty, x, env, lambda y: s.d_fields(f.ty, y, env))
                return s.d_ty(f.ty, x, env)
            v = s.tfs(f.tf, st, env, go)
            if sub: out.update(v)
            else: out[f.name] = v; env[f.name] = v
        return out
    def d_tag(s, d, st, env):
        for f in d.ty.fields:
            if f.cond is not None and not f.cond.ev(env): continue
            e2 = dict(env)
            sub = isinstance(f.ty, Co)
            def go(x):
                if sub: return s.lim(f.ty, x, e2, lambda y: s.d_fields(f.ty, y, e2))
                return s.d_ty(f.ty, x, e2)
            return (f.name, s.tfs(f.tf, st, e2, go))
        raise DecErr("no variant")
    def d_int(s, t, st):
        return int.from_bytes(st.take(BITS[t.t] // 8), "little" if t.le else "big", signed=t.t[0] == "i")
    def d_ty(s, t, st, env):
        if isinstance(t, Sc): return s.d_int(t, st)
        if isinstance(t, Fl): return int.from_bytes(st.take(width(t)), "big")
        if isinstance(t, Bo): return st.take(1)[0] != 0
        if isinstance(t, Ref): return s.d_top(t.name, st, [a.ev(env) for a in t.args])
        if isinstance(t, Fo): return s.d_fo(t, st, [a.ev(env) for a in t.args])
        if isinstance(t, Arr):
            o = []
            if t.n is not None:
                n = t.n.ev(env)
                if n > 200000: raise DecErr("eof") if n * minw(t.el, s.P) > len(st.d) - st.p else Unspec()
                for _ in range(n):
                    s.left -= 1
                    if s.left < 0: raise Unspec()
                    o.append(s.d_ty(t.el, st, env))
            elif t.term is not None:
                while st.p < len(st.d):
                    if len(st.d) - st.p < len(t.term): raise DecErr("terminator")
                    if st.d[st.p:st.p + len(t.term)] == t.term: st.p += len(t.term); break
                    q = st.p
                    o.append(s.d_ty(t.el, st, env))
                    if st.p == q: raise Unspec()
            else:
                while st.p < len(st.d):
                    q = st.p
                    o.append(s.d_ty(t.el, st, env))
                    if st.p == q: raise Unspec()
            return o
        raise Exception(t)
    def d_fo(s, t, st, a):
        if t.name[0] == "v":
            ty = FTV[t.name]; bits = BITS[ty]; v = 0
            for i in range((bits + 6) // 7):
                b = st.take(1)[0]
                v |= (b & 127) << (7 * i)
                if not b & 128: break
            return wrapi(ty, v)
        if t.name == "utf8":
            if a: raw = st.take(a[0]) if a[0] < 1 << 40 else st.take(1 << 40)
            else:
                raw = b""
                while st.p < len(st.d):
                    c = st.take(1)
                    if c == b"\0": break
                    raw += c
            try: return raw.decode("utf-8")
            except UnicodeDecodeError: raise DecErr("utf8")
        if t.name == "utf16":
            raw = st.take(2 * a[0]) if a[0] < 1 << 40 else st.take(1 << 40)
            try: return raw.decode("utf-16-be")
            except UnicodeDecodeError: raise DecErr("utf16")
    # ---- encode
    def encode(s, name, v, args=()):
        o = bytearray(); s.e_top(name, v, list(args), o); return bytes(o)
    def e_int(s, t, v, o): o += int(v).to_bytes(BITS[t.t] // 8, "little" if t.le else "big", signed=t.t[0] == "i")
    def e_top(s, name, v, args, o):
        d = s.P[name]
        if isinstance(d, En): return s.e_int(d.rep, en_repr(d, v), o)
        if isinstance(d, Bf): return s.e_int(d.rep, v, o)
        env = s.bind(d, args)
        if d.cond is not None:
            if not d.cond.ev(env): return
            if not v: raise EncErr("none")
            v = v[0]
        def go(o):
            if isinstance(d.ty, Co):
                if d.ty.tagged: return s.e_tag(d, v, env, o)
                # values of all fields are visible while encoding
                s.e_refs(d.ty, v, env)
                return s.e_fields(d.ty, v, env, o, {})
            return s.e_ty(d.ty, v, env, o)
        s.etf(d.tf, env, o, go)
    def etf(s, tf, env, o, go):
        if not tf: return go(o)
        t = tf[-1]
        if t.cond is not None and not t.cond.ev(env): return s.etf(tf[:-1], env, o, go)
        b = bytearray(); s.etf(tf[:-1], env, b, go)
        o += xf_e(t.name, [x.ev(env) for x in t.args], b)
    def e_refs(s, co, v, env):
        fl = [(n, f) for f in co.fields for n, f in flat(f)]
        for n, f in fl:
            if f.calc is None: env[n] = v[n]
        for n, f in fl:
            if f.calc is not None and not blens(f.calc): env[n] = f.calc.ev(env)
    def e_fields(s, co, v, env, o, done):
        for i, f in enumerate(co.fields):
            if f.pad is not None:
                if f.cond is not None and not f.cond.ev(env): continue
                n = f.pad.ev(env)
                if n > 100000: raise Unspec()
                o += bytes(n); continue
            if f.calc is not None and blens(f.calc):
                for tgt in blens(f.calc):
                    b = bytearray(); g = [x for x in co.fields if x.name == tgt][0]
                    s.etf(g.tf, env, b, lambda b2: s.e_fields(g.ty, v, env, b2, done))
                    env["blen " + tgt] = bytes(b) if not g.tf else None
                    if g.tf: raise Unspec()
                env[f.name] = f.calc.ev(env)
            if f.cond is not None and not f.cond.ev(env): continue
            if isinstance(f.ty, Co):
                if f.cond is not None:
                    for n, g in flat(f):
                        if g.calc is None and g.cond is None and v[n] is None: raise EncErr("none")
                s.etf(f.tf, env, o, lambda o2: s.e_fields(f.ty, v, env, o2, done))
                continue
            x = env[f.name] if f.calc is not None else v[f.name]
            if x is None: raise EncErr("none")
            s.etf(f.tf, env, o, lambda o2: s.e_ty(f.ty, x, env, o2))
    def e_tag(s, d, v, env, o):
        for f in d.ty.fields:
            if f.cond is not None and not f.cond.ev(env): continue
            if v[0] != f.name: raise EncErr("variant")
            if isinstance(f.ty, Co):
                e2 = dict(env); s.e_refs(f.ty, v[1], e2)
                return s.etf(f.tf, e2, o, lambda o2: s.e_fields(f.ty, v[1], e2, o2, {}))
            return s.etf(f.tf, env, o, lambda o2: s.e_ty(f.ty, v[1], env, o2))
        return            # no variant applies: nothing is written
    def e_ty(s, t, v, env, o):
        if isinstance(t, Sc): s.e_int(t, v, o)
        elif isinstance(t, Fl): o += v.to_bytes(width(t), "big")
        elif isinstance(t, Bo): o.append(1 if v else 0)
        elif isinstance(t, Ref): s.e_top(t.name, v, [a.ev(env) for a in t.args], o)
        elif isinstance(t, Fo):
            if t.name[0] == "v":
                x = v & ((1 << BITS[FTV[t.name]]) - 1)
                while x > 127: o.append((x & 127) | 128); x >>= 7
                o.append(x)
            elif t.name == "utf8":
                b = v.encode()
                if t.args and t.args[0].ev(env) != len(b): raise EncErr()
                if not t.args and 0 in b: raise Unspec()
                o += b + (b"" if t.args else b"\0")
            else:
                b = v.encode("utf-16-be")
                if t.args[0].ev(env) * 2 != len(b): raise EncErr()
                o += b
        elif isinstance(t, Arr):
            if t.n is not None and t.n.ev(env) != len(v): raise EncErr("length")
            for x in v: s.e_ty(t.el, x, env, o)
            if t.term is not None: o += t.term
        else: raise Exception(t)

def minw(t, P):
    if isinstance(t, (Sc, Fl)): return width(t)
    if isinstance(t, Bo): return 1
    if isinstance(t, Fo): return 1 if t.name[0] == "v" else 0
    if isinstance(t, Ref) and isinstance(P[t.name], (En, Bf)): return width(P[t.name].rep)
    return 0
def blens(e):
    o = []
    if isinstance(e, Call) and e.f == "blen": o.append(e.args[0].n)
    for k in e.kids(): o += blens(k)
    return o
def flat(f):
    """the named leaves of a field"""
    if f.pad is not None: return []
    if isinstance(f.ty, Co): return [x for g in f.ty.fields for x in flat(g)]
    return [(f.name, f)]
def leaves(co, opt=False):
    """(name, field, optional?) of the struct generated for a container"""
    o = []
    for f in co.fields:
        if f.pad is not None: continue
        if isinstance(f.ty, Co): o += leaves(f.ty, opt or f.cond is not None)
        else: o.append((f.name, f, opt or f.cond is not None))
    return o

def _paren(c):
    src = c.src
    def f(s, p):
        t = src(s, p)
        return f"({t})" if SP and SP.random() < .06 else t
    c.src = f
for _c in (Bi, Te, Ca, Un, I, Cr): _paren(_c)
