"""Reference for the grammar of specifications, written from its description and independently of py/grammar.py (tables of
operators and recursive descent over an explicit position), and texts to try: sentences drawn from the grammar, and damaged ones."""
import random
import lex

BIN = [["Or"], ["And"], ["BitOr"], ["BitXor"], ["BitAnd"], ["Eq", "Ne"], ["Lt", "LtEq", "Gt", "GtEq"], ["Shl", "Shr", "ShrSigned"], ["Plus", "Minus"], ["Mul", "Div", "Mod"]]
NAME = {"Plus": "Add", "Minus": "Sub", "LtEq": "Lte", "GtEq": "Gte"}
PRE = {"Not": "Not", "Minus": "Negate", "BitNot": "BitNot"}
SC = {f"{s}{n}{e}": (f"{s}{n}", "Little" if e else "Big") for s in "IU" for n in (8, 16, 32, 64, 128) for e in ("", "Le") if not (e and n == 8)}
class No(Exception): pass
class P:
    def __init__(s, toks): s.t = toks; s.i = 0
    def at(s): return s.t[s.i] if s.i < len(s.t) else None
    def kind(s): t = s.at(); return t[0] if isinstance(t, list) else t
    def need(s, k):
        if s.kind() != k: raise No
        s.i += 1; return s.t[s.i - 1]
    def has(s, k):
        if s.kind() == k: s.i += 1; return True
        return False
    def live(s):
        if s.i >= len(s.t): raise No
    def ident(s): return {"name": s.need("Ident")[1]}
    def scalar(s):
        x = SC.get(s.kind())
        if x: s.i += 1; return {"scalar": x[0], "endian": x[1]}
    # expressions
    def expr(s):
        c = s.binary(0)
        if not s.has("Question"): return c
        t = s.expr(); s.need("Colon"); return {"Ternary": {"condition": c, "if_true": t, "if_false": s.binary(0)}}
    def binary(s, l):
        if l == len(BIN): return s.cast()
        e = s.binary(l + 1)
        while s.kind() in BIN[l]: k = s.kind(); s.i += 1; e = {"Binary": {"op": NAME.get(k, k), "left": e, "right": s.binary(l + 1)}}
        return e
    def cast(s):
        e = s.prefix()
        while True:
            if s.has("Cast"): e = {"Cast": {"inner": e, "type_": s.type()}}
            elif s.has("Elvis"): e = {"Binary": {"op": "Elvis", "left": e, "right": s.prefix()}}
            else: return e
    def prefix(s):
        k = s.kind()
        if k in PRE: s.i += 1; return {"Unary": {"op": PRE[k], "inner": s.prefix()}}
        e = s.atom()
        while True:
            if s.has("LeftSquare"): x = s.expr(); s.need("RightSquare"); e = {"ArrayIndex": {"array": e, "index": x}}
            elif s.has("Dot"): e = {"Member": {"target": e, "member": s.ident()}}
            else: return e
    def atom(s):
        s.live(); k = s.kind(); t = s.at(); s.i += 1
        if k == "Int": x = s.scalar(); return {"Int": {"value": t[1], "type_": x and x["scalar"]}}
        if k == "String": return {"Str": {"content": t[1]}}
        if k in ("True", "False"): return {"Bool": {"value": k == "True"}}
        if k == "LeftParen": e = s.expr(); s.need("RightParen"); return e
        if k != "Ident": raise No
        n = {"name": t[1]}
        if s.has("DoubleColon"): return {"EnumAccess": {"name": n, "variant": s.ident()}}
        s.live()
        return {"Call": {"function": n, "arguments": s.args()}} if s.kind() == "LeftParen" else {"Ref": n}
    def args(s):
        o = []
        if not s.has("LeftParen"): return o
        while not s.has("RightParen"):
            o.append(s.expr())
            if not s.has("Comma"): s.need("RightParen"); break
        return o
    # types
    def type(s):
        s.live(); k = s.kind(); x = s.scalar()
        if x: y = {"Scalar": x}
        elif k == "Container": y = s.container()
        elif k == "Enum": y = s.enum()
        elif k == "Bitfield": y = s.bitfield()
        elif k in ("F32", "F64", "Bool"): s.i += 1; y = k
        elif k == "Ident": n = s.ident(); y = {"Ref": {"name": n, "arguments": s.args()}}
        else: raise No
        y = {"raw_type": y}
        while s.has("LeftSquare"):
            more = s.has("DotDot"); n = None; s.live()
            if s.kind() != "RightSquare": n = s.expr()
            elif not more: raise No
            s.need("RightSquare"); y = {"raw_type": {"Array": {"interior_type": y, "length": {"expandable": more, "inner": n}}}}
        return y
    def container(s):
        s.need("Container"); n = None; items = []
        if s.has("LeftSquare"): n = s.expr(); s.need("RightSquare")
        f = s.flags(); s.need("LeftCurly")
        while True:
            s.live()
            if s.kind() == "RightCurly": break
            if s.has("Dot"):
                if s.ident()["name"] != "pad": raise No
                s.need("Colon"); items.append({"Pad": s.expr()})
            else: x = s.ident(); s.need("Colon"); items.append({"Field": [x, s.field()]})
            if not s.has("Comma"): break
        s.need("RightCurly"); return {"Container": {"length": n, "items": items, "flags": f}}
    def flags(s):
        o = []
        while s.has("Plus"): o.append(s.ident())
        return o
    def listed(s, item):
        o = []
        while True:
            o.append(item(not o))
            if not s.has("Comma"): return o
            s.live()
            if s.kind() == "RightCurly": return o
    def enum(s):
        s.need("Enum"); r = s.scalar()
        if not r: raise No
        def item(first):
            n = s.ident()
            if first and s.kind() != "Equal": raise No
            if s.has("Equal"): return [n, "Default" if s.has("Default") else {"Expression": s.expr()}]
            return [n, "None"]
        s.need("LeftCurly"); o = s.listed(item); s.need("RightCurly"); return {"Enum": {"rep": r, "items": o}}
    def bitfield(s):
        s.need("Bitfield"); r = s.scalar()
        if not r: raise No
        def item(first):
            n = s.ident()
            if first: s.need("Equal"); return [n, s.expr()]
            return [n, s.expr() if s.has("Equal") else None]
        s.need("LeftCurly"); o = s.listed(item); s.need("RightCurly"); return {"Bitfield": {"rep": r, "items": o}}
    def cond(s):
        if not s.has("LeftCurly"): return None
        e = s.expr(); s.need("RightCurly"); return e
    def field(s):
        y = s.type(); c = s.expr() if s.has("Equal") else None; f = s.flags(); d = s.cond(); x = []
        while s.has("Arrow"): n = s.ident(); a = s.args(); x.append({"name": n, "arguments": a, "conditional": s.cond()})
        return {"type_": y, "calculated": c, "flags": f, "condition": d, "transforms": x}
    # declarations
    def decl(s):
        k = s.kind(); s.i += 1
        if k == "Type":
            n = s.ident(); a = []
            if s.has("LeftParen"):
                while not s.has("RightParen"):
                    m = s.ident(); s.need("Colon"); y = s.type(); a.append({"name": m, "type_": y, "default_value": s.expr() if s.has("Question") else None})
                    if not s.has("Comma"): s.need("RightParen"); break
            s.need("Equal"); o = {"Type": {"name": n, "arguments": a, "value": s.field()}}
        elif k == "Const": n = s.ident(); s.need("Colon"); y = s.type(); s.need("Equal"); o = {"Const": {"name": n, "type_": y, "value": s.expr()}}
        elif k == "ImportFfi":
            n = s.ident(); s.need("As"); y = s.kind()
            if y not in ("Type", "Transform", "Function"): raise No
            s.i += 1; o = {"Ffi": {"name": n, "ffi_type": y}}
        elif k == "Import":
            l = []
            while True:
                n = s.ident(); l.append({"name": n, "alias": s.ident() if s.has("As") else None})
                if not s.has("Comma"): break
                s.live()
                if s.kind() == "From": break
            s.need("From"); o = {"Import": {"items": l, "from": {"content": s.need("String")[1]}}}
        else: raise No
        s.need("Semicolon"); return o
def parse(text):
    """-> the program, or None"""
    t = lex.lex(text, True)
    if t is None: return None
    p = P([x[0] for x in t]); o = []
    try:
        while p.i < len(p.t): o.append(p.decl())
    except No: return None
    except RecursionError: return False
    return {"declarations": o}

# ---------------------------------------------------------------- texts
OPS = "|| && | ^ & == != < > <= >= << >> >>> + - * / % ?:".split()
SCT = "i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 u16le i32le u64le i128le".split()
class G:
    def __init__(s, r): s.r = r
    def id(s): return s.r.choice("a b c n len x1 _y Foo".split())
    def opt(s, p, f): return f() if s.r.random() < p else ""
    def many(s, f, lo, hi, sep=", ", trail=.3):
        l = [f(k) for k in range(s.r.randint(lo, hi))]; return sep.join(l) + (s.opt(trail, lambda: sep.strip()) if l else "")
    def args(s, d): return "(" + s.many(lambda k: s.expr(d - 1), 0, 3) + ")"
    def atom(s, d):
        k = s.r.randint(0, 8 if d > 0 else 4)
        if k == 0: return s.r.choice(["0", "7", "0xfF", "12"]) + s.opt(.3, lambda: s.r.choice(SCT))
        if k == 1: return s.id()
        if k == 2: return s.r.choice(["true", "false", '"s"', '""', '"\\41"'])
        if k == 3: return f"{s.id()}::{s.id()}"
        if k == 4: return s.id()
        if k in (5, 6): return f"({s.expr(d - 1)})"
        return s.id() + s.args(d)
    def expr(s, d):
        if d <= 0: return s.atom(0)
        k = s.r.randint(0, 13)
        if k <= 5: return f" {s.r.choice(OPS)} ".join(s.expr(d - 2) for _ in range(s.r.randint(2, 4)))
        if k <= 7: return "".join(s.r.choice("!-~") for _ in range(s.r.randint(1, 3))) + s.atom(d - 1)
        if k == 8: return f"{s.expr(d - 1)} :> {s.type(d - 2)}"
        if k == 9: return f"{s.expr(d - 1)} ? {s.expr(d - 1)} : {s.expr(d - 1)}"
        if k <= 11: return s.atom(d - 1) + "".join(f".{s.id()}" if s.r.random() < .5 else f"[{s.expr(d - 2)}]" for _ in range(s.r.randint(1, 3)))
        return s.atom(d)
    def type(s, d):
        k = s.r.randint(0, 11)
        if d <= 0 or k <= 4: y = s.r.choice(SCT + ["f32", "f64", "bool"])
        elif k <= 6: y = s.id() + s.opt(.5, lambda: s.args(d))
        elif k <= 8: y = "container " + s.opt(.3, lambda: f"[{s.expr(d - 1)}] ") + s.opt(.2, lambda: "+tagged_enum ") + "{ " + s.many(lambda k: f".pad: {s.expr(d - 1)}" if s.r.random() < .15 else f"{s.id()}: {s.field(d - 1)}", 0, 3) + " }"
        elif k == 9: y = f"enum {s.r.choice(SCT)} {{ " + s.many(lambda k: s.id() + (f" = {s.expr(d - 1)}" if k == 0 or s.r.random() < .3 else " = default" if s.r.random() < .2 else ""), 1, 3) + " }"
        elif k == 10: y = f"bitfield {s.r.choice(SCT)} {{ " + s.many(lambda k: s.id() + (f" = {s.expr(d - 1)}" if k == 0 or s.r.random() < .3 else ""), 1, 3) + " }"
        else: y = s.type(d - 1)
        for _ in range(s.r.choice([0, 0, 0, 1, 1, 2])): y += f"[{s.r.choice([s.expr(d - 1), '..', '..' + s.expr(d - 1)])}]"
        return y
    def field(s, d): return s.type(d) + s.opt(.2, lambda: f" = {s.expr(d)}") + s.opt(.2, lambda: " +" + " +".join(s.id() for _ in range(s.r.randint(1, 2)))) + s.opt(.25, lambda: f" {{ {s.expr(d)} }}") + "".join(f" -> {s.id()}" + s.opt(.6, lambda: s.args(d)) + s.opt(.3, lambda: f"{{ {s.expr(d - 1)} }}") for _ in range(s.r.choice([0, 0, 0, 1, 2])))
    def decl(s, d):
        k = s.r.randint(0, 9)
        if k <= 5: return f"type {s.id()}" + s.opt(.3, lambda: "(" + s.many(lambda k: f"{s.id()}: {s.type(0)}" + s.opt(.3, lambda: f" ? {s.expr(1)}"), 0, 3) + ")") + f" = {s.field(d)};"
        if k <= 7: return f"const {s.id()}: {s.type(0)} = {s.expr(d)};"
        if k == 8: return f"import_ffi {s.id()} as {s.r.choice(['type', 'transform', 'function'])};"
        return "import " + s.many(lambda k: s.id() + s.opt(.4, lambda: f" as {s.id()}"), 1, 3) + ' from "f";'
FIXED = ["", ";", "type a = u8", "type a = u8;;", "type a = u8[];", "type a = u8[..];", "type a = u8[..n];", "type a() = u8;", "type a(,) = u8;", "type a = b();", "type a = b(,);", "type a = b(1,);", "type a = b(1,,2);", "type a = container {};", "type a = container {,};", "type a = container { x: u8,, };", "type a = container { .pad: 1 };", "type a = container { .skip: 1 };", "type a = container { .pad 1 };",
  "type a = enum u8 {};", "type a = enum u8 { a };", "type a = enum u8 { a = default };", "type a = enum u8 { a = 1, b = default, };", "type a = enum { a = 1 };", "type a = enum f32 { a = 1 };", "type a = bitfield u8 { a };", "type a = bitfield u8 { a = 1, b = default };", "type a = bitfield u8 {};", "type a = u8 {};", "type a = u8 {x} {y};", "type a = u8 -> ;", "type a = u8 -> g() {x} -> h {y};", "type a = u8 + f + g;", "type a = u8 + f {c} + g;", "type a = u8 = 1 = 2;", "type a = u8 = 1 + f;", "type a = u8 {x} = 1;",
  "const a: u8 = 1;", "const a = 1;", "const a: u8;", "const a: u8 = a", "const a: u8 = b", "import_ffi a as const;", "import_ffi a;", "import_ffi a as type", "import a from f;", 'import from "f";', 'import a, from "f";', 'import a as from "f";', 'import a as b, c from "f"; import d from "";', "import a,", "const a: u8 = (1;", "const a: u8 = 1);", "const a: u8 = b.1;", "const a: u8 = b[];", "const a: u8 = b::;", "const a: u8 = b::c::d;", "const a: u8 = b::c(1);", "const a: u8 = f(1)(2);", "const a: u8 = 1 ? 2;", "const a: u8 = 1 ? 2 : 3 ? 4 : 5;", "const a: u8 = (1 ? 2 : 3) ? 4 : 5;", "const a: u8 = 1 ? 2 ? 3 : 4 : 5;",
  "const a: u8 = 1 - 2 - 3;", "const a: u8 = 2 * 3 / 4 % 5;", "const a: u8 = 1 << 2 >> 3;", "const a: u8 = !-~b;", "const a: u8 = -b :> u8;", "const a: u8 = b :> u8 :> u16;", "const a: u8 = b ?: c ?: d :> u8;", "const a: u8 = 1 + 2 :> u8;", "const a: u8 = 1u8le;", "const a: u8 = b u8;", "const a: u8 = 1 u16;", "const a: u8 = 1 u16le + 2;", "const a: u8 = b == c == d;", "const a: u8 = b < c > d;", "const a: u8 = a.b[1].c[2];", "const a: u8 = -a[1];", "const a: u8 = a :> b(1);", "const a: u8 = a :> u8[3];", "const a: u8 = a :> u8[1][2] + 3;"]
FIXED += [f"const a: u8 = b {x} c {y} d;" for x in OPS for y in OPS]
def damage(r, t):
    toks = t.replace("(", " ( ").replace(")", " ) ").replace(",", " , ").replace("[", " [ ").replace("]", " ] ").replace(";", " ; ").split(" ")
    for _ in range(r.randint(1, 2)):
        k = r.randrange(len(toks)); c = r.random()
        if c < .4: toks[k] = ""
        elif c < .6: toks.insert(k, r.choice(toks))
        elif c < .8: toks[k] = r.choice(lex.ATOMS[:44 + 30])
        else: toks = toks[:k + 1]
    return " ".join(toks)
def texts(seed, n):
    r = random.Random(f"parse/{seed}"); g = G(r); o = list(FIXED)
    while len(o) < n:
        t = "\n".join(g.decl(r.randint(0, 4)) for _ in range(r.choice([1, 1, 1, 2, 3])))
        if len(t) > 3000: continue
        o.append(damage(r, t) if r.random() < .35 else t)
    return o
