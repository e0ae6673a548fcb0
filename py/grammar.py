"""The grammar of the specification language, as functions from tokens to (tree, rest of the tokens), and the contracts of
the functions of protospec-build/src/parser: each returns what the grammar says, consumes what the grammar consumes, fails
where the grammar has no answer, comes to an end and does not panic. Positions and the text of errors are left out."""
import re

STD = r'''
#![allow(warnings)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub uninterp spec fn vs_never_called() -> bool;
#[verifier::external_body] pub fn vs_never() -> ! requires false { unimplemented!() }
#[verifier::external_body] pub fn vs_text() -> (r: String) { unimplemented!() }
#[verifier::external_body] pub fn vs_streq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn vs_last<T>(v: &Vec<T>) -> (r: Option<&T>) ensures match r { Some(x) => v@.len() > 0 && *x == v@.last(), None => v@.len() == 0 } { unimplemented!() }
#[verifier::external_body] pub fn vs_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }
#[verifier::external_body] pub fn vs_eq(a: &Token, b: &Token) -> (r: bool) ensures r == (a.v() == b.v()) { unimplemented!() }
#[verifier::external_body] pub fn vs_any_eq(a: &[Token], b: &Token) -> (r: bool) ensures r == among(a@, b.v()) { unimplemented!() }
#[verifier::external_body] pub fn vs_span_add(a: Span, b: Span) -> Span { unimplemented!() }
/// the tokens after the first
#[verifier::opaque] pub open spec fn tl(s: Seq<STok>) -> Seq<STok> { s.skip(1) }
pub broadcast proof fn tl_len(s: Seq<STok>) ensures s.len() > 0 ==> (#[trigger] tl(s)).len() == s.len() - 1 { reveal(tl); }
pub struct VsPErr { }
pub type ParseResult<T> = core::result::Result<T, ParseError>;
pub open spec fn among(s: Seq<Token>, t: STok) -> bool decreases s.len() { s.len() > 0 && (s.last().v() == t || among(s.drop_last(), t)) }
pub broadcast proof fn among_push(s: Seq<Token>, x: Token, t: STok) ensures #[trigger] among(s.push(x), t) == (x.v() == t || among(s, t)) { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn among_none(t: STok) ensures #[trigger] among(Seq::<Token>::empty(), t) == false { }
/// what the tokenizer makes of a text, without comments (P18)
pub uninterp spec fn lexed(s: Seq<char>) -> Option<Seq<STok>>;
pub open spec fn tvs(v: Seq<SpannedToken>) -> Seq<STok> { Seq::new(v.len(), |i: int| v[i].token.v()) }
#[verifier::external_body] pub fn tokenize(s: &str, strip_comments: bool) -> (r: ParseResult<Vec<SpannedToken>>) ensures strip_comments ==> match r { Ok(v) => lexed(s@) == Some(tvs(v@)), Err(_) => lexed(s@) is None } { unimplemented!() }
'''
TYPES = "Token Span SpannedToken ParseError TokenIter Expression BinaryExpression BinaryOp UnaryExpression UnaryOp CastExpression ArrayIndexExpression EnumAccessExpression Int Ident Str TernaryExpression Bool CallExpression MemberExpression Type RawType Container ContainerItem Enum EnumValue Bitfield EndianScalarType ScalarType Endian Array LengthConstraint TypeRef Field FieldComponents Transform Program Declaration TypeDeclaration TypeArgument ImportDeclaration ImportItem FfiDeclaration FfiType ConstDeclaration".split()
PLAIN = {"bool", "BinaryOp", "UnaryOp", "EndianScalarType", "ScalarType", "Endian", "FfiType"}
COPY = {"Span", "BinaryOp", "UnaryOp", "EndianScalarType", "ScalarType", "Endian"}

# ---------------------------------------------------------------- types, as values
def parse_ty(t):
    toks = re.findall(r"\w+|::|[<>(),]", t); i = 0
    def one():
        nonlocal i
        if toks[i] == "(":
            i += 1; a = []
            while toks[i] != ")":
                a.append(one())
                if toks[i] == ",": i += 1
            i += 1; return ("tuple", a)
        n = toks[i]; i += 1
        while i < len(toks) and toks[i] == "::": n = toks[i + 1]; i += 2
        a = []
        if i < len(toks) and toks[i] == "<":
            i += 1
            while toks[i] != ">":
                a.append(one())
                if toks[i] == ",": i += 1
            i += 1
        return (n, a)
    return one()
VIEWS = []; TOK = {}
class Mirror:
    def __init__(s): s.vecs = {}
    def name(s, t): return t[0] + "".join("_" + s.name(a) for a in t[1])
    def ty(s, t):
        n, a = t
        if n == "String": return "Seq<char>"
        if n in PLAIN or n == "u8": return n
        if n == "tuple": return "(" + ", ".join(map(s.ty, a)) + ")"
        if n == "Vec": return f"Seq<{s.ty(a[0])}>"
        if n in ("Option", "Box"): return f"{n}<{s.ty(a[0])}>"
        return "S" + n
    def view(s, t, x, w="v"):
        n, a = t
        if n == "String": return f"{x}@"
        if n in PLAIN or s.ty(t) == n: return x
        if n == "tuple": return "(" + ", ".join(s.view(b, f"{x}.{i}", w) for i, b in enumerate(a)) + ")"
        if n == "Vec":
            if a[0][0] == "u8": return f"{x}@"
            s.vecs[s.name(a[0])] = a[0]; return f"{'vs' if w == 'v' else 'wq'}_seq_{s.name(a[0])}({x})"
        if n == "Box": return f"Box::new({s.view(a[0], f'(*{x})', w)})"
        if n == "Option":
            if s.ty(a[0]) == a[0][0]: return x
            return f"(match {x} {{ Some(y) => Some({s.view(a[0], 'y', w)}), None => None }})"
        return f"{x}.{w}()"
    def same(s, t, x):
        """what the solver has to be told for view(.., "v") == view(.., "w")"""
        return f"assert({s.view(t, x)} =~= {s.view(t, x, 'w')});" if t[0] == "Vec" and t[1][0][0] != "u8" else ""
def types(ts):
    by = {}
    for t in ts: by.setdefault(t["name"], t)
    miss = [n for n in TYPES if n not in by]
    if miss: return None, "types gone: " + ", ".join(miss)
    m = Mirror(); o = []; VIEWS.clear(); con = []; unit = []
    def real(t): return re.sub(r"crate :: Error", "VsPErr", t)
    for n in TYPES:
        t = by[n]; d = "#[derive(Clone, Copy)] " if n in COPY else ""
        if t["kind"] == "struct":
            o.append(f"{d}pub struct {n} {{ " + ", ".join(f"pub {f}: {real(ty)}" for f, ty in t["fields"]) + " }")
            if n in PLAIN or n in ("Span", "SpannedToken", "TokenIter"): continue
            fs = [(f, parse_ty(ty)) for f, ty in t["fields"] if ty != "Span"]
            o.append(f"pub struct S{n} {{ " + ", ".join(f"pub {f}: {m.ty(ty)}" for f, ty in fs) + " }")
            if not any(re.search(r"\.w\(\)|q_seq_", m.view(ty, "x", "w")) for _, ty in fs):
                o.append(f"impl {n} {{ pub open spec fn w(self) -> S{n} {{ self.v() }} pub open spec fn v(self) -> S{n} {{ S{n} {{ " + ", ".join(f"{f}: {m.view(ty, 'self.' + f)}" for f, ty in fs) + " } }" + (" #[verifier::external_body] pub fn span(&self) -> &Span { unimplemented!() }" if any(ty == "Span" for _, ty in t["fields"]) else "") + " }"); continue
            VIEWS.append(n); span = " #[verifier::external_body] pub fn span(&self) -> &Span { unimplemented!() }" if any(ty == "Span" for _, ty in t["fields"]) else ""
            o.append(f"impl {n} {{ pub open spec fn w(self) -> S{n} decreases self {{ S{n} {{ " + ", ".join(f"{f}: {m.view(ty, 'self.' + f, 'w')}" for f, ty in fs) + " } } " + f"#[verifier::opaque] pub open spec fn v(self) -> S{n} {{ self.w() }}{span} }}")
            con.append((f"c_{n}", ", ".join(f"{f}: {real(ty)}" for f, ty in t["fields"]), f"(#[trigger] {n} {{ {', '.join(f for f, _ in t['fields'])} }}.v()) == (S{n} {{ {', '.join(f'{f}: {m.view(ty, f)}' for f, ty in fs)} }})", [(f, ty) for f, ty in fs]))
        else:
            if any(a and not isinstance(a[0], str) for _, a in t["variants"]): return None, f"{n}: variant with named fields"
            o.append(f"{d}pub enum {n} {{ " + ", ".join(k + (f"({', '.join(real(x) for x in a)})" if a else "") for k, a in t["variants"]) + " }")
            if n in PLAIN or n == "ParseError": continue
            if n == "Token":  # a token as a number and a text: cheaper for the solver than one of a hundred variants
                TOK.clear(); TOK.update({k: i for i, (k, _) in enumerate(t["variants"])})
                o.append("pub struct STok { pub k: int, pub n: Seq<char>, pub b: Seq<u8> } pub open spec fn tk(k: int) -> STok { STok { k, n: Seq::empty(), b: Seq::empty() } }")
                o.append("impl Token { #[verifier::opaque] pub open spec fn v(self) -> STok { match self { " + ", ".join(f"Token::{k}(x) => STok {{ k: {i}, n: {'Seq::empty()' if a[0] != 'String' else 'x@'}, b: {'x@' if a[0] != 'String' else 'Seq::empty()'} }}" if a else f"Token::{k} => tk({i})" for i, (k, a) in enumerate(t["variants"])) + " } } #[verifier::external_body] pub fn vs_clone(&self) -> (r: Token) ensures r.v() == self.v() { unimplemented!() } }"); continue
            S = "S" + n
            o.append(f"pub enum {S} {{ " + ", ".join(k + (f"({', '.join(m.ty(parse_ty(x)) for x in a)})" if a else "") for k, a in t["variants"]) + " }")
            arms = ", ".join(f"{n}::{k}(" + ", ".join(f"x{i}" for i in range(len(a))) + f") => {S}::{k}(" + ", ".join(m.view(parse_ty(x), f"x{i}", "w") for i, x in enumerate(a)) + ")" if a else f"{n}::{k} => {S}::{k}" for k, a in t["variants"])
            VIEWS.append(n); span = " #[verifier::external_body] pub fn span(&self) -> &Span { unimplemented!() }" if n == "Expression" else ""
            o.append(f"impl {n} {{ pub open spec fn w(self) -> {S} decreases self {{ match self {{ {arms} }} }} #[verifier::opaque] pub open spec fn v(self) -> {S} {{ self.w() }}{span} }}")
            for k, a in t["variants"]:
                ys = [(f"x{i}", parse_ty(x)) for i, x in enumerate(a or [])]; L, R = (f"{n}::{k}({', '.join(f for f, _ in ys)})", f"{S}::{k}({', '.join(m.view(ty, f) for f, ty in ys)})") if ys else (f"{n}::{k}", f"{S}::{k}")
                if ys: con.append((f"c_{n}_{k}", ", ".join(f"x{i}: {real(x)}" for i, x in enumerate(a)), f"(#[trigger] {L}.v()) == {R}", ys))
                else: unit.append(f"{L}.v() == {R}")
    o.append("pub trait VsClone: Sized { fn vs_clone(&self) -> Self; } impl VsClone for String { #[verifier::external_body] fn vs_clone(&self) -> String { unimplemented!() } }")
    lem = []
    for k, t in sorted(m.vecs.items()):
        r = render(t); S = m.ty(t)
        o.append(f"pub open spec fn wq_seq_{k}(v: Vec<{r}>) -> Seq<{S}> decreases v {{ Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() {{ {m.view(t, 'v[i]', 'w')} }} else {{ arbitrary() }}) }}")
        o.append(f"#[verifier::opaque] pub open spec fn vs_seq_{k}(v: Vec<{r}>) -> Seq<{S}> {{ Seq::new(v@.len(), |i: int| {m.view(t, 'v@[i]')}) }}")
        o.append(f"pub broadcast proof fn vs_push_{k}(a: Vec<{r}>, b: Vec<{r}>, x: {r}) requires a@ == #[trigger] b@.push(x) ensures #[trigger] vs_seq_{k}(a) == vs_seq_{k}(b).push({m.view(t, 'x')}) {{ reveal(vs_seq_{k}); assert(vs_seq_{k}(a) =~= vs_seq_{k}(b).push({m.view(t, 'x')})); }}")
        o.append(f"pub broadcast proof fn vs_none_{k}(a: Vec<{r}>) requires a@.len() == 0 ensures #[trigger] vs_seq_{k}(a) == Seq::<{S}>::empty() {{ reveal(vs_seq_{k}); assert(vs_seq_{k}(a) =~= Seq::<{S}>::empty()); }}")
        o.append(f"pub broadcast proof fn vs_len_{k}(a: Vec<{r}>) ensures (#[trigger] vs_seq_{k}(a)).len() == a@.len() {{ reveal(vs_seq_{k}); }}")
        lem += [f"vs_push_{k}", f"vs_none_{k}", f"vs_len_{k}"]
    rev = " ".join(f"reveal({n}::v);" for n in VIEWS) + " ".join(f"reveal(vs_seq_{k});" for k in m.vecs)
    for n, args, ens, fs in con: o.append(f"pub broadcast proof fn {n}({args}) ensures {ens} {{ {rev} {' '.join(m.same(ty, f) for f, ty in fs)} }}")
    o.append(f"pub proof fn units() ensures {', '.join(unit)} {{ {rev} }}")
    return "\n".join(o) + "\n", lem + [c[0] for c in con]
def render(t):
    n, a = t
    if n == "tuple": return "(" + ", ".join(map(render, a)) + ")"
    return n + (f"<{', '.join(map(render, a))}>" if a else "")

# ---------------------------------------------------------------- the grammar
LEVELS = [{"Or": "Or"}, {"And": "And"}, {"BitOr": "BitOr"}, {"BitXor": "BitXor"}, {"BitAnd": "BitAnd"}, {"Eq": "Eq", "Ne": "Ne"}, {"Lt": "Lt", "LtEq": "Lte", "Gt": "Gt", "GtEq": "Gte"},
          {"Shl": "Shl", "Shr": "Shr", "ShrSigned": "ShrSigned"}, {"Plus": "Add", "Minus": "Sub"}, {"Mul": "Mul", "Div": "Div", "Mod": "Mod"}]
UNARY = {"Not": "Not", "Minus": "Negate", "BitNot": "BitNot"}
SCALARS = [f"{a}{n}" for a in "IU" for n in (8, 16, 32, 64, 128)] + [f"{a}{n}Le" for a in "IU" for n in (16, 32, 64, 128)]

def seq(steps, result, cur="s", k=0, top="s"):
    """steps: "Token" | (pattern, nonterminal application with {} for the tokens, strict) ; result with {} for the rest"""
    if not steps: return result.replace("{}", cur)
    st, rest = steps[0], steps[1:]; n = f"s{k}"
    if isinstance(st, str): return f"if hd({cur}, STok::{st}) {{ let {n} = tl({cur}); {seq(rest, result, n, k + 1, top)} }} else {{ None }}"
    p, f, strict = st
    if strict is None: return f"match {f.replace('{}', cur)} {{ Some(({p}, {n})) => {seq(rest, result, n, k + 1, top)}, None => None }}"
    return f"match {f.replace('{}', cur)} {{ Some(({p}, {n})) => if {n}.len() {'<' if strict else '<='} {cur}.len() {{ {seq(rest, result, n, k + 1, top)} }} else {{ None }}, None => None }}"

P = []
# nonterminals the solver may always replace by their definition
INLINE = "p_bitval p_ident p_str p_scal p_alias p_params p_default p_optlen p_raw p_cast p_optargs".split()
def grammar():
    o = []; P.clear()
    o.append("pub open spec fn hd(s: Seq<STok>, t: STok) -> bool { s.len() > 0 && s[0] == t }")
    def fn(name, args, ret, rank, body, rec=True):
        P.append((name, args, f"Option<({ret}, Seq<STok>)>", body, f"decreases s.len(), {rank}{'int' if str(rank).isdigit() else ''}" if rec else ""))
    o.append("pub open spec fn binop(l: int, t: STok) -> Option<BinaryOp> { " + " else ".join(f"if l == {i} {{ match t {{ " + ", ".join(f"STok::{a} => Some(BinaryOp::{b})" for a, b in lv.items()) + ", _ => None } }" for i, lv in enumerate(LEVELS)) + " else { None } }")
    o.append("pub open spec fn unop(t: STok) -> Option<UnaryOp> { match t { " + ", ".join(f"STok::{a} => Some(UnaryOp::{b})" for a, b in UNARY.items()) + ", _ => None } }")
    o.append("pub open spec fn scal(t: STok) -> Option<EndianScalarType> { match t { " + ", ".join(f"STok::{a} => Some(EndianScalarType {{ scalar: ScalarType::{a.replace('Le', '')}, endian: Endian::{'Little' if a.endswith('Le') else 'Big'} }})" for a in SCALARS) + ", _ => None } }")
    fn("p_ident", "s: Seq<STok>", "SIdent", 0, "if s.len() > 0 { match s[0] { STok::Ident(n) => Some((SIdent { name: n }, tl(s))), _ => None } } else { None }", False)
    fn("p_str", "s: Seq<STok>", "SStr", 0, "if s.len() > 0 { match s[0] { STok::String(n) => Some((SStr { content: n }, tl(s))), _ => None } } else { None }", False)
    fn("p_scal", "s: Seq<STok>", "EndianScalarType", 0, "if s.len() > 0 { match scal(s[0]) { Some(x) => Some((x, tl(s))), None => None } } else { None }", False)
    # flags: + name + name ..
    fn("p_flags", "acc: Seq<SIdent>, s: Seq<STok>", "Seq<SIdent>", 0, "if hd(s, STok::Plus) { " + seq([("x", "p_ident({})", True)], "p_flags(acc.push(x), {})", "tl(s)") + " } else { Some((acc, s)) }")
    # the arguments behind a parenthesis that has been read: f(a, b) or f(a, b,)
    fn("p_args", "acc: Seq<SExpression>, s: Seq<STok>", "Seq<SExpression>", 200, "if hd(s, STok::RightParen) { Some((acc, tl(s))) } else { " + seq([("e", "p_expr({})", True)], "if hd({}, STok::Comma) { p_args(acc.push(e), tl({})) } else if hd({}, STok::RightParen) { Some((acc.push(e), tl({}))) } else { None }") + " }")
    fn("p_optargs", "s: Seq<STok>", "Seq<SExpression>", 0, "if hd(s, STok::LeftParen) { p_args(Seq::empty(), tl(s)) } else { Some((Seq::empty(), s)) }", True)
    # c ? t : f
    fn("p_expr", "s: Seq<STok>", "SExpression", 100, seq([("c", "p_lvl(0, {})", True)], "if hd({}, STok::Question) { let q = tl({}); " + seq([("t", "p_expr({})", True), "Colon", ("f", "p_lvl(0, {})", True)], "Some((SExpression::Ternary(STernaryExpression { condition: Box::new(c), if_true: Box::new(t), if_false: Box::new(f) }), {}))", "q", 5) + " } else { Some((c, {})) }"))
    # the binary operators from the loosest to the tightest; all of them group to the left
    fn("p_lvl", "l: int, s: Seq<STok>", "SExpression", "60 - l, 1int", "if !(0 <= l <= 10) { None } else if l == 10 { p_cast(s) } else { " + seq([("e", "p_lvl(l + 1, {})", True)], "p_bin(l, e, {})") + " }")
    fn("p_bin", "l: int, acc: SExpression, s: Seq<STok>", "SExpression", "60 - l, 0int", "if !(0 <= l < 10) { None } else if s.len() > 0 && binop(l, s[0]) is Some { " + seq([("r", "p_lvl(l + 1, {})", True)], "p_bin(l, SExpression::Binary(SBinaryExpression { op: binop(l, s[0])->0, left: Box::new(acc), right: Box::new(r) }), {})", "tl(s)") + " } else { Some((acc, s)) }")
    # x :> type, x ?: y
    fn("p_cast", "s: Seq<STok>", "SExpression", "49", seq([("e", "p_unary({})", True)], "p_casts(e, {})"))
    fn("p_casts", "acc: SExpression, s: Seq<STok>", "SExpression", "48", "if hd(s, STok::Cast) { " + seq([("y", "p_type({})", True)], "p_casts(SExpression::Cast(SCastExpression { inner: Box::new(acc), type_: y }), {})", "tl(s)")
       + " } else if hd(s, STok::Elvis) { " + seq([("r", "p_unary({})", True)], "p_casts(SExpression::Binary(SBinaryExpression { op: BinaryOp::Elvis, left: Box::new(acc), right: Box::new(r) }), {})", "tl(s)") + " } else { Some((acc, s)) }")
    # prefix operators: the one next to the operand applies first
    fn("p_unary", "s: Seq<STok>", "SExpression", "47", "if s.len() > 0 && unop(s[0]) is Some { " + seq([("e", "p_unary({})", None)], "Some((SExpression::Unary(SUnaryExpression { op: unop(s[0])->0, inner: Box::new(e) }), {}))", "tl(s)") + " } else { p_index(s) }")
    fn("p_index", "s: Seq<STok>", "SExpression", "46", seq([("e", "p_primary({})", True)], "p_indices(e, {})"))
    fn("p_indices", "acc: SExpression, s: Seq<STok>", "SExpression", "45", "if hd(s, STok::LeftSquare) { " + seq([("i", "p_expr({})", True), "RightSquare"], "p_indices(SExpression::ArrayIndex(SArrayIndexExpression { array: Box::new(acc), index: Box::new(i) }), {})", "tl(s)")
       + " } else if hd(s, STok::Dot) { " + seq([("m", "p_ident({})", True)], "p_indices(SExpression::Member(SMemberExpression { target: Box::new(acc), member: m }), {})", "tl(s)") + " } else { Some((acc, s)) }")
    fn("p_primary", "s: Seq<STok>", "SExpression", "44", """if s.len() == 0 { None } else { let r = tl(s); match s[0] {
  STok::Int(n) => match p_scal(r) { Some((x, r2)) => Some((SExpression::Int(SInt { value: n, type_: Some(x.scalar) }), r2)), None => Some((SExpression::Int(SInt { value: n, type_: None }), r)) },
  STok::String(c) => Some((SExpression::Str(SStr { content: c }), r)),
  STok::True => Some((SExpression::Bool(SBool { value: true }), r)), STok::False => Some((SExpression::Bool(SBool { value: false }), r)),
  STok::Ident(n) => if r.len() == 0 { None } else if hd(r, STok::DoubleColon) { """ + seq([("m", "p_ident({})", True)], "Some((SExpression::EnumAccess(SEnumAccessExpression { name: SIdent { name: n }, variant: m }), {}))", "tl(r)")
       + " } else if hd(r, STok::LeftParen) { " + seq([("a", "p_optargs({})", False)], "Some((SExpression::Call(SCallExpression { function: SIdent { name: n }, arguments: a }), {}))", "r") + " } else { Some((SExpression::Ref(SIdent { name: n }), r)) },\n  STok::LeftParen => " + seq([("e", "p_expr({})", True), "RightParen"], "Some((e, {}))", "r") + ", _ => None } }")
    # types
    fn("p_type", "s: Seq<STok>", "SType", "90", seq([("y", "p_raw({})", True)], "p_arrays(SType { raw_type: y }, {})"))
    fn("p_arrays", "acc: SType, s: Seq<STok>", "SType", "89", "if hd(s, STok::LeftSquare) { " + seq([("n", "p_len({})", False), "RightSquare"], "p_arrays(SType { raw_type: SRawType::Array(SArray { interior_type: Box::new(acc), length: n }) }, {})", "tl(s)") + " } else { Some((acc, s)) }")
    # [n], [..n], [..]
    fn("p_len", "s: Seq<STok>", "SLengthConstraint", "110", "let x = hd(s, STok::DotDot); let r = if x { tl(s) } else { s }; if r.len() == 0 { None } else if hd(r, STok::RightSquare) { if x { Some((SLengthConstraint { expandable: true, inner: None }, r)) } else { None } } else { " + seq([("e", "p_expr({})", True)], "Some((SLengthConstraint { expandable: x, inner: Some(Box::new(e)) }, {}))", "r") + " }")
    fn("p_raw", "s: Seq<STok>", "SRawType", "88", """if s.len() == 0 { None } else { match s[0] {
  STok::Container => match p_container(s) { Some((x, r)) => Some((SRawType::Container(x), r)), None => None },
  STok::Enum => match p_enum(s) { Some((x, r)) => Some((SRawType::Enum(x), r)), None => None },
  STok::Bitfield => match p_bitfield(s) { Some((x, r)) => Some((SRawType::Bitfield(x), r)), None => None },
  STok::F32 => Some((SRawType::F32, tl(s))), STok::F64 => Some((SRawType::F64, tl(s))), STok::Bool => Some((SRawType::Bool, tl(s))),
  STok::Ident(n) => match p_optargs(tl(s)) { Some((a, r)) => Some((SRawType::Ref(STypeRef { name: SIdent { name: n }, arguments: a }), r)), None => None },
  t => match scal(t) { Some(x) => Some((SRawType::Scalar(x), tl(s))), None => None } } }""")
    def optional(tok, body, none="None"): return tok, body, none
    # container [length] +flags { items }
    fn("p_container", "s: Seq<STok>", "SContainer", "87", "if hd(s, STok::Container) { let c = tl(s); match p_optlen(c) { Some((n, r)) => if r.len() <= c.len() { " + seq([("g", "p_flags(Seq::empty(), {})", False), "LeftCurly", ("items", "p_items(Seq::empty(), {})", False), "RightCurly"], "Some((SContainer { length: n, items, flags: g }, {}))", "r") + " } else { None }, None => None } } else { None }")
    fn("p_optlen", "s: Seq<STok>", "Option<Box<SExpression>>", "110", "if hd(s, STok::LeftSquare) { " + seq([("e", "p_expr({})", True), "RightSquare"], "Some((Some(Box::new(e)), {}))", "tl(s)") + " } else { Some((None, s)) }")
    fn("p_items", "acc: Seq<SContainerItem>, s: Seq<STok>", "Seq<SContainerItem>", "120", "if s.len() == 0 { None } else if hd(s, STok::RightCurly) { Some((acc, s)) } else if hd(s, STok::Dot) { " + seq([("d", "p_ident({})", True), "Colon", ("e", "p_expr({})", True)], "if d.name != \"pad\"@ { None } else if hd({}, STok::Comma) { p_items(acc.push(SContainerItem::Pad(e)), tl({})) } else { Some((acc.push(SContainerItem::Pad(e)), {})) }", "tl(s)")
       + " } else { " + seq([("n", "p_ident({})", True), "Colon", ("f", "p_field({})", True)], "if hd({}, STok::Comma) { p_items(acc.push(SContainerItem::Field(n, f)), tl({})) } else { Some((acc.push(SContainerItem::Field(n, f)), {})) }") + " }")
    # enum rep { a = 1, b, c = default }
    fn("p_enum", "s: Seq<STok>", "SEnum", "87", seq(["Enum", ("rep", "p_scal({})", True), "LeftCurly", ("items", "p_enums(Seq::empty(), {})", True), "RightCurly"], "Some((SEnum { rep, items }, {}))"))
    fn("p_enums", "acc: Seq<(SIdent, SEnumValue)>, s: Seq<STok>", "Seq<(SIdent, SEnumValue)>", "110", seq([("n", "p_ident({})", True), ("x", "p_enumval(acc.len() == 0, {})", False)], "let out = acc.push((n, x)); if hd({}, STok::Comma) { let r = tl({}); if r.len() == 0 { None } else if hd(r, STok::RightCurly) { Some((out, r)) } else { p_enums(out, r) } } else { Some((out, {})) }"))
    fn("p_enumval", "first: bool, s: Seq<STok>", "SEnumValue", "109", "if hd(s, STok::Equal) { let r = tl(s); if hd(r, STok::Default) { Some((SEnumValue::Default, tl(r))) } else { " + seq([("e", "p_expr({})", True)], "Some((SEnumValue::Expression(Box::new(e)), {}))", "r") + " } } else if first { None } else { Some((SEnumValue::None, s)) }")
    fn("p_bitfield", "s: Seq<STok>", "SBitfield", "87", seq(["Bitfield", ("rep", "p_scal({})", True), "LeftCurly", ("items", "p_bits(Seq::empty(), {})", True), "RightCurly"], "Some((SBitfield { rep, items }, {}))"))
    fn("p_bits", "acc: Seq<(SIdent, Option<Box<SExpression>>)>, s: Seq<STok>", "Seq<(SIdent, Option<Box<SExpression>>)>", "110", seq([("n", "p_ident({})", True), ("x", "p_bitval(acc.len() == 0, {})", False)], "let out = acc.push((n, x)); if hd({}, STok::Comma) { let r = tl({}); if r.len() == 0 { None } else if hd(r, STok::RightCurly) { Some((out, r)) } else { p_bits(out, r) } } else { Some((out, {})) }"))
    fn("p_bitval", "first: bool, s: Seq<STok>", "Option<Box<SExpression>>", "109", "if hd(s, STok::Equal) { " + seq([("e", "p_expr({})", True)], "Some((Some(Box::new(e)), {}))", "tl(s)") + " } else if first { None } else { Some((None, s)) }")
    # type = calculated +flags { condition } -> transform(args) { condition} ..
    fn("p_field", "s: Seq<STok>", "SField", "95", seq([("y", "p_type({})", True), ("c", "p_comps({})", False)], "Some((SField { type_: y, flags: c.flags, calculated: c.calculated, condition: c.condition, transforms: c.transforms }, {}))"))
    fn("p_comps", "s: Seq<STok>", "SFieldComponents", "85", seq([("c", "p_calc({})", False), ("g", "p_flags(Seq::empty(), {})", False), ("d", "p_cond({})", False), ("x", "p_xforms(Seq::empty(), {})", False)], "Some((SFieldComponents { flags: g, calculated: c, condition: d, transforms: x }, {}))"))
    fn("p_calc", "s: Seq<STok>", "Option<Box<SExpression>>", "80", "if hd(s, STok::Equal) { " + seq([("e", "p_expr({})", True)], "Some((Some(Box::new(e)), {}))", "tl(s)") + " } else { Some((None, s)) }")
    fn("p_cond", "s: Seq<STok>", "Option<Box<SExpression>>", "80", "if hd(s, STok::LeftCurly) { " + seq([("e", "p_expr({})", True), "RightCurly"], "Some((Some(Box::new(e)), {}))", "tl(s)") + " } else { Some((None, s)) }")
    fn("p_xforms", "acc: Seq<STransform>, s: Seq<STok>", "Seq<STransform>", "80", "if hd(s, STok::Arrow) { " + seq([("n", "p_ident({})", True), ("a", "p_optargs({})", False), ("d", "p_cond({})", False)], "p_xforms(acc.push(STransform { name: n, arguments: a, conditional: d }), {})", "tl(s)") + " } else { Some((acc, s)) }")
    # declarations
    fn("p_decl", "s: Seq<STok>", "SDeclaration", "", "if s.len() == 0 { None } else { match s[0] { " + ", ".join(f"STok::{t} => {seq([('x', p + '({})', True), 'Semicolon'], f'Some((SDeclaration::{v}(x), {{}}))')}" for t, p, v in (("Type", "p_typedecl", "Type"), ("Import", "p_import", "Import"), ("ImportFfi", "p_ffi", "Ffi"), ("Const", "p_const", "Const"))) + ", _ => None } }", False)
    fn("p_const", "s: Seq<STok>", "SConstDeclaration", "", seq(["Const", ("n", "p_ident({})", True), "Colon", ("y", "p_type({})", True), "Equal", ("e", "p_expr({})", True)], "Some((SConstDeclaration { name: n, type_: y, value: e }, {}))"), False)
    fn("p_ffi", "s: Seq<STok>", "SFfiDeclaration", "", seq(["ImportFfi", ("n", "p_ident({})", True), "As"], "if {}.len() == 0 { None } else { match {}[0] { STok::Transform => Some((SFfiDeclaration { name: n, ffi_type: FfiType::Transform }, tl({}))), STok::Type => Some((SFfiDeclaration { name: n, ffi_type: FfiType::Type }, tl({}))), STok::Function => Some((SFfiDeclaration { name: n, ffi_type: FfiType::Function }, tl({}))), _ => None } }"), False)
    fn("p_import", "s: Seq<STok>", "SImportDeclaration", "", seq(["Import", ("items", "p_imports(Seq::empty(), {})", True), "From", ("f", "p_str({})", True)], "Some((SImportDeclaration { items, from: f }, {}))"), False)
    fn("p_alias", "s: Seq<STok>", "Option<SIdent>", "", "if hd(s, STok::As) { match p_ident(tl(s)) { Some((x, r)) => Some((Some(x), r)), None => None } } else { Some((None, s)) }", False)
    fn("p_imports", "acc: Seq<SImportItem>, s: Seq<STok>", "Seq<SImportItem>", "0", seq([("n", "p_ident({})", True), ("a", "p_alias({})", False)], "let out = acc.push(SImportItem { name: n, alias: a }); if hd({}, STok::Comma) { let r = tl({}); if r.len() == 0 { None } else if hd(r, STok::From) { Some((out, r)) } else { p_imports(out, r) } } else { Some((out, {})) }"))
    fn("p_typedecl", "s: Seq<STok>", "STypeDeclaration", "", seq(["Type", ("n", "p_ident({})", True), ("a", "p_params({})", False), "Equal", ("f", "p_field({})", True)], "Some((STypeDeclaration { name: n, arguments: a, value: f }, {}))"), False)
    fn("p_params", "s: Seq<STok>", "Seq<STypeArgument>", "", "if hd(s, STok::LeftParen) { p_paramlist(Seq::empty(), tl(s)) } else { Some((Seq::empty(), s)) }", False)
    fn("p_default", "s: Seq<STok>", "Option<SExpression>", "", "if hd(s, STok::Question) { match p_expr(tl(s)) { Some((x, r)) => Some((Some(x), r)), None => None } } else { Some((None, s)) }", False)
    fn("p_paramlist", "acc: Seq<STypeArgument>, s: Seq<STok>", "Seq<STypeArgument>", "0", "if hd(s, STok::RightParen) { Some((acc, tl(s))) } else { " + seq([("n", "p_ident({})", True), "Colon", ("y", "p_type({})", True), ("d", "p_default({})", False)], "let out = acc.push(STypeArgument { name: n, type_: y, default_value: d }); if hd({}, STok::Comma) { p_paramlist(out, tl({})) } else if hd({}, STok::RightParen) { Some((out, tl({}))) } else { None }") + " }")
    P.append(("p_program", "acc: Seq<SDeclaration>, s: Seq<STok>", "Option<Seq<SDeclaration>>", "if s.len() == 0 { Some(acc) } else { match p_decl(s) { Some((d, r)) => if r.len() < s.len() { p_program(acc.push(d), r) } else { None }, None => None } }", "decreases s.len()"))
    def q(x): return re.sub(r"\bp_(\w+)\(", r"q_\1(", x)
    names = [p[0] for p in P]; rev = " ".join(f"reveal({n});" for n in names)
    o.append("}\nmod m_grammar { use super::*; verus! { broadcast use {tl_len};")
    for n, args, ret, body, dec in P: o.append(f"pub open spec fn {q(n + '(')}{args}) -> {ret} {dec} {{ {q(body)} }}")
    o.append("} }\npub use m_grammar::*;\nmod m_unfold { use super::*; verus! {")
    for n, args, ret, body, dec in P:
        o.append(f"#[verifier::opaque] pub open spec fn {n}({args}) -> {ret} {{ {q(n + '(')}{', '.join(re.findall(r'(\w+):', args))}) }}")
        o.append(f"pub {'broadcast ' if n in INLINE else ''}proof fn d{n[1:]}({args}) ensures {'#[trigger] ' if n in INLINE else ''}{n}({', '.join(re.findall(r'(\w+):', args))}) == ({{ {body} }}) {{ {rev} }}")
    o.append("} }\npub use m_unfold::*;\nverus! {")
    o.append("pub open spec fn wrap1(t: STok, r: Option<(SExpression, Seq<STok>)>) -> Option<(SExpression, Seq<STok>)> { match r { Some((e, s)) => Some((SExpression::Unary(SUnaryExpression { op: unop(t)->0, inner: Box::new(e) }), s)), None => None } }")
    o.append("pub open spec fn wrap(ops: Seq<SpannedToken>, r: Option<(SExpression, Seq<STok>)>) -> Option<(SExpression, Seq<STok>)> decreases ops.len() { if ops.len() == 0 { r } else { wrap(ops.drop_last(), wrap1(ops.last().token.v(), r)) } }")
    o.append("pub broadcast proof fn wrap_push(ops: Seq<SpannedToken>, x: SpannedToken, r: Option<(SExpression, Seq<STok>)>) ensures #[trigger] wrap(ops.push(x), r) == wrap(ops, wrap1(x.token.v(), r)) { assert(ops.push(x).drop_last() =~= ops); }")
    o.append("pub broadcast proof fn wrap_none(ops: Seq<SpannedToken>) ensures #[trigger] wrap(ops, None) is None decreases ops.len() { if ops.len() > 0 { wrap_none(ops.drop_last()); } }")
    o.append("impl TokenIter { pub open spec fn toks(&self) -> Seq<STok> { Seq::new(self.inner@.len(), |i: int| self.inner@[self.inner@.len() - 1 - i].token.v()) } }")
    o.append("pub broadcast proof fn toks_pop(a: TokenIter, b: TokenIter, n: int) requires n == b.inner@.len() - 1, n >= 0, a.inner@ == #[trigger] b.inner@.subrange(0, n) ensures #[trigger] a.toks() == tl(b.toks()) { reveal(tl); assert(a.toks() =~= b.toks().skip(1)); }")
    return "\n".join(o)

# ---------------------------------------------------------------- contracts
def result(app, view="x.v()", strict="<"):
    return f"ensures match vs_r {{ Ok(x) => {app} == Some(({view}, final(t).toks())) && final(t).toks().len() {strict} old(t).toks().len(), Err(_) => {app} is None }}"
S0 = "old(t).toks()"
NOCH = "final(self).toks() == old(self).toks()"
TI = {
 "TokenIter::new": ("ensures vs_r.toks() == tvs(tokens@)", [], "let ghost vs_t = tokens@;", "proof { assert(vs_r.toks() =~= tvs(vs_t)); }"),
 "TokenIter::peek": ("ensures match vs_r { Ok(x) => self.toks().len() > 0 && x.v() == self.toks()[0], Err(_) => self.toks().len() == 0 }", [], ""),
 "TokenIter::peek_token": ("ensures match vs_r { Ok(x) => self.toks().len() > 0 && x == (self.toks()[0] == token.v()), Err(_) => self.toks().len() == 0 }", [], ""),
 "TokenIter::peek_span": ("ensures vs_r is Ok <==> self.toks().len() > 0", [], ""),
 "TokenIter::has_next": ("ensures vs_r == (self.toks().len() > 0)", [], ""),
 "TokenIter::eat": (f"ensures match vs_r {{ Some(x) => hd(old(self).toks(), token.v()) && x.token.v() == token.v() && final(self).toks() == tl(old(self).toks()), None => !hd(old(self).toks(), token.v()) && {NOCH} }}", [], ""),
 "TokenIter::eat_any": (f"ensures match vs_r {{ Some(x) => old(self).toks().len() > 0 && x.token.v() == old(self).toks()[0] && among(token@, x.token.v()) && final(self).toks() == tl(old(self).toks()), None => (old(self).toks().len() > 0 ==> !among(token@, old(self).toks()[0])) && {NOCH} }}", [], ""),
 "TokenIter::expect": (f"ensures match vs_r {{ Ok(x) => hd(old(self).toks(), token.v()) && final(self).toks() == tl(old(self).toks()), Err(_) => !hd(old(self).toks(), token.v()) && {NOCH} }}", [], ""),
 "TokenIter::expect_oneof": (f"ensures match vs_r {{ Ok(x) => old(self).toks().len() > 0 && x.token.v() == old(self).toks()[0] && among(token@, x.token.v()) && final(self).toks() == tl(old(self).toks()), Err(_) => (old(self).toks().len() > 0 ==> !among(token@, old(self).toks()[0])) && {NOCH} }}", [], ""),
 "TokenIter::expect_ident": (f"ensures match vs_r {{ Ok(x) => p_ident(old(self).toks()) == Some((x.v(), final(self).toks())) && final(self).toks().len() < old(self).toks().len(), Err(_) => p_ident(old(self).toks()) is None && {NOCH} }}", [], ""),
 "TokenIter::expect_string": (f"ensures match vs_r {{ Ok(x) => p_str(old(self).toks()) == Some((x.v(), final(self).toks())) && final(self).toks().len() < old(self).toks().len(), Err(_) => p_str(old(self).toks()) is None && {NOCH} }}", [], ""),
 "TokenIter::expect_any": (f"ensures match vs_r {{ Ok(x) => old(self).toks().len() > 0 && x.token.v() == old(self).toks()[0] && final(self).toks() == tl(old(self).toks()), Err(_) => old(self).toks().len() == 0 && {NOCH} }}", [], ""),
}
LT = "t.toks().len() < old(t).toks().len()"
LE = LT.replace("<", "<=")
OPS = "(forall|i: int| 0 <= i < @@.len() ==> unop((#[trigger] @@[i]).token.v()) is Some)"
def inv(app, loop, kind="invariant", extra="", ens=""): return f"{kind} {loop} == {app}, {LT}{', ' + extra if extra else ''} {'ensures ' + ens if ens else ''} decreases t.toks().len()"
def brk(app, loop, ens, extra=""):
    """a loop that is left by break"""
    return f"invariant_except_break {loop} == {app}, {LT}{', ' + extra if extra else ''} ensures {ens}, {LT} decreases t.toks().len()"
def level(l):
    a = f"p_lvl({l}, {S0})"; c = f"p_bin({l}, expr.v(), t.toks())"; n = len(LEVELS[l])
    return (result(a) + f" decreases old(t).toks().len(), {60 - l}int", [brk(a, c, f"Some((expr.v(), t.toks())) == {a}")], "")
def d(rank): return f" decreases old(t).toks().len(), {rank}int"
def ITEMS(f, v, lt=None):
    lt = f"{lt or LT}, t.toks().len() <= vs_k"
    return (f"let ghost (vs_g, vs_k) = ({f}(Seq::empty(), t.toks()), t.toks().len());", f"invariant_except_break {f}({v}, t.toks()) == vs_g, {lt} ensures Some(({v}, t.toks())) == vs_g, {lt} decreases t.toks().len()")
FNS = {**TI, **{f"parse_{n}_expression": level(i) for i, n in enumerate("or and bit_or bit_xor bit_and eq rel shift add multiply".split())},
 "parse_expression": (result(f"p_expr({S0})") + d(100), [], ""),
 "parse_cast_expression": (result(f"p_lvl(10, {S0})") + d(50), [brk(f"p_lvl(10, {S0})", "p_casts(expr.v(), t.toks())", f"Some((expr.v(), t.toks())) == p_lvl(10, {S0})")], ""),
 "parse_unary_expression": (result(f"p_unary({S0})") + d(47), [f"invariant_except_break wrap(ops@, p_unary(t.toks())) == p_unary({S0}), {LE}, {OPS.replace('@@', 'ops@')} ensures wrap(ops@, p_index(t.toks())) == p_unary({S0}), {LE}, {OPS.replace('@@', 'ops@')} decreases t.toks().len()",
    f"invariant_except_break wrap(vs_l0@, Some((inner.v(), t.toks()))) == p_unary({S0}), {OPS.replace('@@', 'vs_l0@')}, {LT} ensures Some((inner.v(), t.toks())) == p_unary({S0}), {LT} decreases vs_l0@.len()"], ""),
 "parse_array_index_expression": (result(f"p_index({S0})") + d(46), [brk(f"p_index({S0})", "p_indices(expr.v(), t.toks())", f"Some((expr.v(), t.toks())) == p_index({S0}), !hd(t.toks(), STok::LeftSquare)"), inv(f"p_index({S0})", "Some((expr.v(), t.toks()))", extra="!hd(t.toks(), STok::LeftSquare)")], ""),
 "parse_primary_expression": (result(f"p_primary({S0})") + d(44), [], ""),
 "parse_arguments": (result(f"p_optargs({S0})", "vs_seq_Expression(x)", "<=") + d(200), [brk(f"p_optargs({S0})", "p_args(vs_seq_Expression(arguments), t.toks())", f"Some((vs_seq_Expression(arguments), t.toks())) == p_optargs({S0})")], ""),
 "parse_flags": (result(f"p_flags(Seq::empty(), {S0})", "vs_seq_Ident(x)", "<="), [brk(f"p_flags(Seq::empty(), {S0})", "p_flags(vs_seq_Ident(out), t.toks())", f"Some((vs_seq_Ident(out), t.toks())) == p_flags(Seq::empty(), {S0})").replace(LT, LE)], ""),
 "parse_scalar_type": (f"ensures match vs_r {{ Some(x) => p_scal({S0}) == Some((x, final(t).toks())) && final(t).toks().len() < {S0}.len(), None => p_scal({S0}) is None && final(t).toks() == {S0} }}", [], ""),
 "parse_length_constraint": (result(f"p_len({S0})", strict="<=") + d(110), [], ""),
 "parse_type": (result(f"p_type({S0})") + d(90), [brk(f"p_type({S0})", "p_arrays(out.v(), t.toks())", f"Some((out.v(), t.toks())) == p_type({S0})")], ""),
 "parse_container": (result(f"p_container({S0})") + d(87), [ITEMS("p_items", "vs_seq_ContainerItem(items)")], ""),
 "parse_enum": (result(f"p_enum({S0})") + d(87), [ITEMS("p_enums", "vs_seq_tuple_Ident_EnumValue(items)")], ""), "parse_enum_value": (result(f"p_enumval(first, {S0})", strict="<=") + d(109), [], ""),
 "parse_bitfield": (result(f"p_bitfield({S0})") + d(87), [ITEMS("p_bits", "vs_seq_tuple_Ident_Option_Box_Expression(items)")], ""),
 "parse_field": (result(f"p_field({S0})") + d(95), [], ""),
 "parse_conditional_clause": (result(f"p_cond({S0})", "match x { Some(y) => Some(Box::new(y.v())), None => None }", "<=") + d(80), [], ""),
 "parse_calculated_clause": (result(f"p_calc({S0})", "match x { Some(y) => Some(Box::new(y.v())), None => None }", "<=") + d(80), [], ""),
 "parse_field_components": (result(f"p_comps({S0})", strict="<=") + d(85), [ITEMS("p_xforms", "vs_seq_Transform(transforms)", LE),
    ("let ghost (vs_a, vs_j) = (p_args(Seq::empty(), t.toks()), t.toks().len());", f"invariant_except_break p_args(vs_seq_Expression(arguments), t.toks()) == vs_a, {LT}, t.toks().len() <= vs_j ensures Some((vs_seq_Expression(arguments), t.toks())) == vs_a, {LT}, t.toks().len() <= vs_j decreases t.toks().len()")], ""),
 "parse_declaration": (result(f"p_decl({S0})"), [], ""),
 "parse_const_declaration": (result(f"p_const({S0})"), [], ""),
 "parse_ffi_declaration": (result(f"p_ffi({S0})"), [], ""),
 "parse_import_declaration": (result(f"p_import({S0})"), [ITEMS("p_imports", "vs_seq_ImportItem(items)")], ""),
 "parse_type_declaration": (result(f"p_typedecl({S0})"), [ITEMS("p_paramlist", "vs_seq_TypeArgument(arguments)")], ""),
 "parse_program": (f"ensures match vs_r {{ Ok(x) => p_program(Seq::empty(), {S0}) == Some(x.v().declarations), Err(_) => p_program(Seq::empty(), {S0}) is None }}", [f"invariant_except_break p_program(vs_seq_Declaration(declarations), t.toks()) == p_program(Seq::empty(), {S0}) ensures p_program(Seq::empty(), {S0}) == Some(vs_seq_Declaration(declarations)) decreases t.toks().len()"], ""),
 "parse": ("ensures match vs_r { Ok(x) => lexed(script@) is Some && p_program(Seq::empty(), lexed(script@)->0) == Some(x.v().declarations), Err(_) => lexed(script@) is Some ==> p_program(Seq::empty(), lexed(script@)->0) is None }", [], ""),
}

def unfold(t):
    """the definition of each nonterminal in the text, for its arguments"""
    o = []
    for m in re.finditer(r"\bp_(\w+)\(", t):
        i = m.end(); d = 1
        while d: d += {"(": 1, ")": -1}.get(t[i], 0); i += 1
        if "p_" + m.group(1) in INLINE: continue
        x = f"d_{m.group(1)}({t[m.end():i]};"
        if x not in o: o.append(x)
    return "proof { units(); reveal(Token::v); " + " ".join(o) + " } "
def function(f, contract, loops, start, end=""):
    b = f["body"]
    if len(loops) != f["loops"]: return None
    for k, x in enumerate(loops):
        pre, inv = x if isinstance(x, tuple) else ("", x)
        b = b.replace("crate :: tokenize", "tokenize").replace(f"{{ vs_mark_{k} ! () ;", f"{inv} {{ {unfold(inv)}", 1).replace(f"vs_pre_{k} ! () ;", pre, 1)
    b = re.sub(r"vs_arr ! \(([^()]*)\)", lambda m: f"vs_arr{m.group(1).count(',') + 1}({m.group(1)})", b)
    b = b.replace("crate :: tokenize", "tokenize")
    head = re.sub(r"< '(\w+) >", r"<'\1>", f["head"]); ret = f" -> (vs_r: {f['ret']})" if f["ret"] else ""
    b = "{ " + unfold(contract) + start + b.lstrip()[1:]
    if end: k = b.rstrip().rindex("}"); m = re.match(r"(.*;)(.*)", b[:k], re.S); b = m.group(1) + " let vs_r = " + m.group(2) + "; " + end + " vs_r }"
    return ("#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n" if any(isinstance(x, tuple) for x in loops) else "") + f"pub {head}{ret}\n  {contract}\n{b}"

def tokens(s):
    """match on a token -> comparisons; STok::X -> its number"""
    while True:
        m = re.search(r"match (\w+(?:\[0\])?) \{\s*(?=STok::)", s)
        if not m: break
        i = m.end(); arms = []
        while s[i] != "}":
            k = s.index("=>", i); pat = s[i:k].strip(); d = 0; j = k + 2
            while d or s[j] not in ",}":
                d += {"(": 1, "{": 1, "[": 1, ")": -1, "}": -1, "]": -1}.get(s[j], 0); j += 1
            arms.append((pat, s[k + 2:j].strip())); i = j + (s[j] == ",")
            while s[i].isspace(): i += 1
        x = m.group(1); o = ""
        for pat, e in arms:
            p = re.fullmatch(r"STok::(\w+)(?:\((\w+)\))?", pat)
            if p: o += (f"if {x}.k == {TOK[p.group(1)]} {{ let {p.group(2)} = {x}.{'b' if p.group(1) == 'String' else 'n'}; {e} }} else " if p.group(2) else f"if {x} == tk({TOK[p.group(1)]}) {{ {e} }} else ")
            else: o += "{ " + ("" if pat == "_" else f"let {pat} = {x}; ") + e + " }"
        s = s[:m.start()] + o + s[i + 1:]
    return re.sub(r"STok::(\w+)", lambda m: f"tk({TOK[m.group(1)]})", s)
def arrays():
    """&[a, b, ..]"""
    return "".join(f"#[verifier::external_body] pub fn vs_arr{n}<'a>({', '.join(f'x{i}: Token' for i in range(n))}) -> (r: &'a [Token]) ensures r@ == Seq::<Token>::empty(){''.join(f'.push(x{i})' for i in range(n))} {{ unimplemented!() }}\n" for n in range(1, 20))
def parser(js, spoil=None):
    """js: {file: what the extraction gives}"""
    fns = {}; tys = []
    for p, j in js.items():
        if "fns" not in j: return None, f"{p}: {j.get('error')}"
        tys += j["types"]
        if "/parser/" in p:
            for f in j["fns"]:
                if f.get("trait"): continue
                if f["name"] in fns: return None, f"two functions {f['name']}"
                fns[f["name"]] = f
    miss = [n for n in FNS if n not in fns]
    if miss: return None, "functions gone: " + ", ".join(miss)
    tt, lem = types(tys)
    if tt is None: return None, lem
    o = STD + tt + tokens(grammar()) + arrays() + "}\nmod m_parser { use super::*; verus! { broadcast use {" + ", ".join(["tl_len", "among_push", "among_none", "toks_pop", "wrap_push", "wrap_none"] + ["d" + n[1:] for n in INLINE] + lem) + "};\n"
    for n, f in fns.items():
        if f["unsupported"]: return None, f"{n}: {f['unsupported']}"
        c = FNS.get(n, ("", [], ""))
        k = c[0].replace("ensures ", "ensures false, ", 1) if n == spoil else c[0]
        x = function(f, k, *c[1:])
        x = x and tokens(x)
        if x is None: return None, f"{n}: another number of loops"
        o += (f"impl {n.split('::')[0]} {{ {x} }}\n" if "::" in n else x + "\n")
    return o + "} }\nfn main(){}\n", {n: FNS[n][0] for n in fns if n in FNS}
