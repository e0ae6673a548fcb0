"""Constant expressions: the arithmetic of protospec-build/src/asg/expression/const_int.rs and the evaluation in
protospec-build/src/compiler/expr.rs, each function against the value the expression has; and a reference that computes the
values of generated programs on its own."""
import random, re

T = "I8 I16 I32 I64 I128 U8 U16 U32 U64 U128".split()
def bits(t): return int(t[1:])
def lo(t): return -(1 << bits(t) - 1) if t[0] == "I" else 0
def hi(t): return (1 << bits(t) - (t[0] == "I")) - 1

def same(f, other="None"): return "match (a, b) { " + ", ".join(f"(ConstInt::{t}(x), ConstInt::{t}(y)) => {f(t)}" for t in T) + f", _ => {other} }}"
def native(op): return "{ " + same(lambda t: f"Some(ConstInt::{t}((x {op} y) as {t.lower()}))") + " }"
def shift(op): return "{ " + same(lambda t: f"if 0 <= y && y < {bits(t)} {{ Some(ConstInt::{t}((x {op} y) as {t.lower()})) }} else {{ None }}") + " }"
def arith(e, also=""): return f"{{ let ((s, x), (t, y)) = (a.v(), b.v()); if s == t {also}{{ mk(s, {e}) }} else {{ None }} }}"
OPS = {"BitOr": ("bitor", native("|")), "BitAnd": ("bitand", native("&")), "BitXor": ("bitxor", native("^")), "Shl": ("shl", shift("<<")), "Shr": ("shr", shift(">>")),
       "Add": ("add", arith("x + y")), "Sub": ("sub", arith("x - y")), "Mul": ("mul", arith("x * y")), "Div": ("div", arith("tdiv(x, y)", "&& y != 0 ")), "Rem": ("rem", arith("trem(x, y)", "&& y != 0 && !(y == -1 && x == lo(s)) "))}

def spec():
    L = lambda f: "match t { " + ", ".join(f"ScalarType::{t} => {f(t)}" for t in T) + " }"
    o = [f"pub open spec fn lo(t: ScalarType) -> int {{ {L(lambda t: f'{t.lower()}::MIN as int')} }}\npub open spec fn hi(t: ScalarType) -> int {{ {L(lambda t: f'{t.lower()}::MAX as int')} }}",
         "/// the constant of type t with value x, if there is one\npub open spec fn mk(t: ScalarType, x: int) -> Option<ConstInt> { if lo(t) <= x <= hi(t) { Some(" + L(lambda t: f"ConstInt::{t}(x as {t.lower()})") + ") } else { None } }",
         "impl ConstInt { pub open spec fn v(self) -> (ScalarType, int) { match self { " + ", ".join(f"ConstInt::{t}(x) => (ScalarType::{t}, x as int)" for t in T) + " } } }",
         "/// division rounds towards zero, the remainder has the sign of the dividend\npub open spec fn abs(x: int) -> int { if x < 0 { -x } else { x } }\npub open spec fn tdiv(x: int, y: int) -> int { if y == 0 { 0 } else if (x < 0) == (y < 0) { abs(x) / abs(y) } else { -(abs(x) / abs(y)) } }\npub open spec fn trem(x: int, y: int) -> int { if y == 0 { 0 } else if x < 0 { -(abs(x) % abs(y)) } else { x % abs(y) } }",
         "pub open spec fn c_neg(a: ConstInt) -> Option<ConstInt> { let (t, x) = a.v(); if signed(t) { mk(t, -x) } else { None } }\npub open spec fn c_not(a: ConstInt) -> Option<ConstInt> { match a { " + ", ".join(f"ConstInt::{t}(x) => Some(ConstInt::{t}(!x))" for t in T) + " } }",
         "pub open spec fn signed(t: ScalarType) -> bool { " + L(lambda t: "true" if t[0] == "I" else "false") + " }\npub open spec fn bytes(t: ScalarType) -> int { " + L(lambda t: f"{bits(t) // 8}") + " }",
         "pub open spec fn c_cast(a: ConstInt, t: ScalarType) -> ConstInt { match a { " + ", ".join(f"ConstInt::{s}(x) => match t {{ " + ", ".join(f"ScalarType::{t} => ConstInt::{t}(x as {t.lower()})" for t in T) + " }" for s in T) + " } }",
         "pub open spec fn c_cmp(a: ConstInt, b: ConstInt) -> Option<Ordering> { let ((s, x), (t, y)) = (a.v(), b.v()); if s == t { Some(if x < y { Ordering::Less } else if x == y { Ordering::Equal } else { Ordering::Greater }) } else { None } }"]
    for tr, (f, b) in OPS.items(): o.append(f"pub open spec fn c_{f}(a: ConstInt, b: ConstInt) -> Option<ConstInt> {b}")
    return "\n".join(o)

STD = r'''
#![allow(warnings)]
use vstd::prelude::*; use vstd::std_specs::cmp::*;
use core::ops::*; use core::cmp::*; use std::sync::Arc;
verus! {
global size_of usize == 8;
#[verifier::external_body] pub fn vs_abort() -> ! { unimplemented!() }
#[verifier::external_body] pub fn vs_text() -> (r: String) { unimplemented!() }
pub open spec fn is_digit(c: char, hex: bool) -> bool { '0' <= c <= '9' || hex && ('a' <= c <= 'f' || 'A' <= c <= 'F') }
pub open spec fn digit(c: char) -> int { if '0' <= c <= '9' { c as int - 48 } else if 'a' <= c <= 'f' { c as int - 87 } else { c as int - 55 } }
pub open spec fn digits(s: Seq<char>, hex: bool) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i], hex) }
/// the number the digits stand for
pub open spec fn number(s: Seq<char>, hex: bool) -> int decreases s.len() { if s.len() == 0 { 0 } else { number(s.drop_last(), hex) * (if hex { 16int } else { 10 }) + digit(s.last()) } }
pub open spec fn is_hex(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '0' && s[1] == 'x' }
#[verifier::external_body] pub fn vs_starts_with(s: &str, p: &str) -> (r: bool) ensures p@.len() == 2 ==> r == (s@.len() >= 2 && s@[0] == p@[0] && s@[1] == p@[1]) { unimplemented!() }
#[verifier::external_body] pub fn vs_str_from(s: &str, k: usize) -> (r: &str) requires k <= s@.len(), forall|i: int| 0 <= i < k ==> #[trigger] s@[i] < 128 as char ensures r@ == s@.skip(k as int) { unimplemented!() }
pub trait VsInt: Sized { spec fn vlo() -> int; spec fn vhi() -> int; spec fn vi(self) -> int; }
pub struct VsPErr { }
/// u32::try_from of an integer
#[verifier::external_body] pub fn vs_u32<I: VsInt>(x: I) -> (r: core::result::Result<u32, VsPErr>) ensures match r { Ok(y) => y == x.vi(), Err(_) => !(0 <= x.vi() <= u32::MAX) } { unimplemented!() }
/// str::parse of an integer type
#[verifier::external_body] pub fn vs_parse<I: VsInt>(s: &str) -> (r: core::result::Result<I, VsPErr>) ensures digits(s@, false) ==> match r { Ok(x) => x.vi() == number(s@, false) && I::vlo() <= number(s@, false) <= I::vhi(), Err(_) => !(I::vlo() <= number(s@, false) <= I::vhi()) } { unimplemented!() }
pub type AsgResult<T> = core::result::Result<T, AsgError>;
'''
def std():
    o = STD
    for t in T:
        t = t.lower()
        o += f"impl VsInt for {t} {{ open spec fn vlo() -> int {{ {t}::MIN as int }} open spec fn vhi() -> int {{ {t}::MAX as int }} open spec fn vi(self) -> int {{ self as int }} }}\n"
        o += f"/// from_str_radix of {t}\n#[verifier::external_body] pub fn vs_radix_{t}(s: &str, radix: u32) -> (r: core::result::Result<{t}, VsPErr>) ensures radix == 16 && digits(s@, true) ==> match r {{ Ok(x) => x == number(s@, true), Err(_) => !({t}::MIN <= number(s@, true) <= {t}::MAX) }} {{ unimplemented!() }}\n"
        b = t[1:]
        o += f"pub assume_specification [{t}::checked_shl] (x: {t}, n: u32) -> (r: Option<{t}>) ensures r == (if n < {b} {{ Some(x << n) }} else {{ None }});\n"
        o += f"pub assume_specification [{t}::checked_shr] (x: {t}, n: u32) -> (r: Option<{t}>) ensures r == (if n < {b} {{ Some(x >> n) }} else {{ None }});\n"
        if t[0] == "i": o += f"pub assume_specification [{t}::checked_neg] (x: {t}) -> (r: Option<{t}>) ensures r == (if x != {t}::MIN {{ Some((-x) as {t}) }} else {{ None }});\n"
    return o

EVAL = r'''
pub enum SV { Int(ConstInt), Bool(bool), Str(Seq<u8>), Float(bool) }
impl ConstValue { pub open spec fn v(self) -> SV { match self { ConstValue::Int(x) => SV::Int(x), ConstValue::Bool(x) => SV::Bool(x), ConstValue::String(x) => SV::Str(x@), ConstValue::F32(_) => SV::Float(false), ConstValue::F64(_) => SV::Float(true) } } }
/// what an expression is worth: a value, none (it has to be rejected), or anything at all: it is not well-typed, or not a constant
pub enum R { Val(SV), No, Any }
pub open spec fn opt(x: Option<ConstInt>) -> R { match x { Some(x) => R::Val(SV::Int(x)), None => R::No } }
pub open spec fn c_bin(op: BinaryOp, l: R, r: R) -> R {
  match (l, r) { (R::Any, _) => R::Any, (R::No, _) => R::No, (R::Val(_), R::Any) => R::Any, (R::Val(_), R::No) => R::No,
   (R::Val(SV::Int(x)), R::Val(SV::Int(y))) => if x.v().0 != y.v().0 { R::Any } else { match op {
     BinaryOp::Lt => R::Val(SV::Bool(x.v().1 < y.v().1)), BinaryOp::Gt => R::Val(SV::Bool(x.v().1 > y.v().1)), BinaryOp::Lte => R::Val(SV::Bool(x.v().1 <= y.v().1)), BinaryOp::Gte => R::Val(SV::Bool(x.v().1 >= y.v().1)),
     BinaryOp::Eq => R::Val(SV::Bool(x.v().1 == y.v().1)), BinaryOp::Ne => R::Val(SV::Bool(x.v().1 != y.v().1)),
     BinaryOp::BitOr => opt(c_bitor(x, y)), BinaryOp::BitAnd => opt(c_bitand(x, y)), BinaryOp::BitXor => opt(c_bitxor(x, y)), BinaryOp::Shl => opt(c_shl(x, y)), BinaryOp::Shr => opt(c_shr(x, y)),
     BinaryOp::Add => opt(c_add(x, y)), BinaryOp::Sub => opt(c_sub(x, y)), BinaryOp::Mul => opt(c_mul(x, y)), BinaryOp::Div => opt(c_div(x, y)), BinaryOp::Mod => opt(c_rem(x, y)), _ => R::Any } },
   (R::Val(SV::Bool(x)), R::Val(SV::Bool(y))) => match op { BinaryOp::Or => R::Val(SV::Bool(x || y)), BinaryOp::And => R::Val(SV::Bool(x && y)), BinaryOp::Eq => R::Val(SV::Bool(x == y)), BinaryOp::Ne => R::Val(SV::Bool(x != y)), _ => R::Any },
   (R::Val(SV::Str(x)), R::Val(SV::Str(y))) => match op { BinaryOp::Eq => R::Val(SV::Bool(x == y)), BinaryOp::Ne => R::Val(SV::Bool(x != y)), _ => R::Any },
   _ => R::Any }
}
pub open spec fn c_un(op: UnaryOp, l: R) -> R { match l { R::Val(SV::Int(x)) => match op { UnaryOp::Negate => opt(c_neg(x)), UnaryOp::BitNot => opt(c_not(x)), _ => R::Any }, R::Val(SV::Bool(x)) => match op { UnaryOp::Not => R::Val(SV::Bool(!x)), _ => R::Any }, R::Val(_) => R::Any, x => x } }
pub open spec fn c_castv(l: R, t: Type) -> R { match l { R::Val(SV::Int(x)) => match t { Type::Scalar(s) => R::Val(SV::Int(c_cast(x, s.scalar))), _ => R::Any }, R::Val(_) => R::Any, x => x } }
pub open spec fn c_tern(c: R, a: R, b: R) -> R { match (c, a, b) { (R::Any, _, _) => R::Any, (R::No, _, _) => R::No, (_, R::Any, _) => R::Any, (_, R::No, _) => R::No, (_, _, R::Any) => R::Any, (_, _, R::No) => R::No, (R::Val(SV::Bool(c)), a, b) => if c { a } else { b }, _ => R::Any } }
/// a flag of a bitfield: whether one of its bits is set
pub open spec fn c_flag(l: R, r: R) -> R { match (l, r) { (R::Any, _) => R::Any, (R::No, _) => R::No, (_, R::Any) => R::Any, (_, R::No) => R::No, (R::Val(SV::Int(x)), R::Val(SV::Int(y))) => match c_bitand(x, y) { Some(z) => R::Val(SV::Bool(z.v().1 != 0)), None => R::No }, _ => R::Any } }
pub open spec fn ceval(e: Expression) -> R decreases e {
  match e { Expression::Binary(c) => c_bin(c.op, ceval(*c.left), ceval(*c.right)), Expression::Unary(c) => c_un(c.op, ceval(*c.inner)), Expression::Cast(c) => c_castv(ceval(*c.inner), c.type_), Expression::Ternary(c) => c_tern(ceval(*c.condition), ceval(*c.if_true), ceval(*c.if_false)),
    Expression::Member(c) => c_flag(ceval(*c.target), ceval((*c.member).value)), Expression::EnumAccess(c) => ceval((*c.variant).value), Expression::ConstRef(c) => ceval((*c).value), Expression::Int(c) => R::Val(SV::Int(c.value)), Expression::Str(c) => R::Val(SV::Str(c.content@)), Expression::Bool(c) => R::Val(SV::Bool(c)), _ => R::Any }
}
pub uninterp spec fn f_eq(a: ConstValue, b: ConstValue) -> bool;
pub open spec fn f_cmp(a: ConstValue, b: ConstValue) -> Option<Ordering> { match (a, b) { (ConstValue::F32(x), ConstValue::F32(y)) => x.partial_cmp_spec(&y), (ConstValue::F64(x), ConstValue::F64(y)) => x.partial_cmp_spec(&y), _ => None } }
/// comparing two floats is a function of the two
pub axiom fn f_obeys() ensures <f32 as vstd::std_specs::cmp::PartialOrdSpec>::obeys_partial_cmp_spec(), <f64 as vstd::std_specs::cmp::PartialOrdSpec>::obeys_partial_cmp_spec();
pub open spec fn v_eq(a: ConstValue, b: ConstValue) -> bool { if a.v() is Float { f_eq(a, b) } else { a.v() == b.v() } }
pub open spec fn v_cmp(a: ConstValue, b: ConstValue) -> Option<Ordering> { match (a.v(), b.v()) { (SV::Int(x), SV::Int(y)) => c_cmp(x, y), (SV::Float(_), SV::Float(_)) => f_cmp(a, b), _ => None } }
'''
SPECS = [("Eq", "eq", "a == b", "v_eq(a, b)")]

DIV = """
pub broadcast proof fn neg_div(x: int, y: int) requires y < 0 ensures #[trigger] (x / y) == -(x / (-y)) { assert(x / y == -(x / (-y))) by (nonlinear_arith) requires y < 0; }
pub broadcast proof fn neg_mod(x: int, y: int) requires y < 0 ensures #[trigger] (x % y) == x % (-y) {
  neg_div(x, y); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, y); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, -y);
  let q = x / y; assert(y * q == (-y) * (-q)) by (nonlinear_arith); }
pub broadcast proof fn div_in(x: int, y: int) requires 0 <= x, y >= 2 ensures 0 <= #[trigger] (x / y), 2 * (x / y) <= x { assert(0 <= x / y && 2 * (x / y) <= x) by (nonlinear_arith) requires 0 <= x, y >= 2; }
pub broadcast proof fn mod_in(x: int, y: int) requires 0 <= x, y > 0 ensures 0 <= #[trigger] (x % y) < y, x % y <= x { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, y); let q = x / y; assert(q >= 0) by (nonlinear_arith) requires q == x / y, x >= 0, y > 0; assert(y * q >= 0) by (nonlinear_arith) requires y > 0, q >= 0; }
"""

# ---------------------------------------------------------------- the text to verify
FILES = ["asg/expression/*.rs", "asg/const_declaration.rs", "asg/types/mod.rs", "semantics/convert/expression/int.rs", "semantics/convert/type_/*.rs", "semantics/partial_type.rs", "semantics/error.rs", "asg/types/enum_.rs", "asg/types/bitfield.rs", "ast/types/enum_.rs", "ast/types/bitfield.rs", "ast/expression/int.rs", "ast/expression/ident.rs", "compiler/expr.rs", "ast/types/scalar.rs", "ast/expression/binary.rs", "ast/expression/unary.rs", "ast/expression/string.rs", "tokenizer.rs"]
TYPES = {"semantics/partial_type.rs": ["PartialType", "PartialScalarType"], "semantics/convert/type_/mod.rs": ["TypePurpose"], "semantics/error.rs": ["AsgError"], "asg/types/enum_.rs": ["EnumType", "EnumValue"], "asg/types/bitfield.rs": ["BitfieldType"], "ast/types/enum_.rs": ["Enum", "EnumValue"], "ast/types/bitfield.rs": ["Bitfield"], "ast/expression/int.rs": ["Int"], "ast/expression/ident.rs": ["Ident"],
  "ast/types/scalar.rs": ["Endian", "ScalarType", "EndianScalarType"], "tokenizer.rs": ["Span"], "ast/expression/binary.rs": ["BinaryOp"], "ast/expression/unary.rs": ["UnaryOp"], "ast/expression/string.rs": ["Str"],
  "asg/const_declaration.rs": ["Const"], "asg/types/mod.rs": ["Type"], "compiler/expr.rs": ["ConstValue"], "asg/expression/": ["ConstInt", "Expression", "BinaryExpression", "UnaryExpression", "CastExpression", "ArrayIndexExpression", "EnumAccessExpression", "Int", "TernaryExpression", "CallExpression", "MemberExpression"]}
COPY = {"PartialScalarType", "Endian", "ScalarType", "EndianScalarType", "Span", "BinaryOp", "UnaryOp", "ConstInt"}
AST = {"Enum", "EnumValue", "Bitfield", "Int", "Ident", "Expression"}
KNOWN = {"IndexMap", "String", "Vec", "Box", "Arc", "Option", "bool", "u8", "u64", "usize", "f32", "f64", "i8", "i16", "i32", "i64", "i128", "u16", "u32", "u128", "Self"}
MAPS = r"""
#[verifier::external_body] pub struct Scope { }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct RefCell<T> { x: T }
#[verifier::external_body] pub fn vs_never() -> ! requires false { unimplemented!() }
#[verifier::external_body] pub fn vs_format(x: usize) -> (r: &'static str) ensures digits(r@, false), number(r@, false) == x { unimplemented!() }
pub struct IndexMap<K, V> { pub v: Vec<(K, V)> }
pub open spec fn key_in<V>(v: Seq<(String, V)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == k }
impl<V> IndexMap<String, V> {
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.v@.len() == 0 { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &String) -> (r: Option<&V>) ensures r is Some == key_in(self.v@, k@) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: String, x: V) -> (r: Option<V>) ensures !key_in(old(self).v@, k@) ==> final(self).v@ == old(self).v@.push((k, x)) { unimplemented!() }
}
/// what convert_expr makes of an expression where a type is expected
pub uninterp spec fn conv(e: AstExpression, t: PartialType, r: Expression) -> bool;
impl Scope { #[verifier::external_body] pub fn convert_expr(self_: &Arc<RefCell<Scope>>, e: &AstExpression, t: PartialType) -> (r: AsgResult<Expression>) ensures r matches Ok(x) ==> conv(*e, t, x) { unimplemented!() } }
pub open spec fn rep_t(t: EndianScalarType) -> PartialType { PartialType::Scalar(PartialScalarType::Some(t.scalar)) }
/// the last item before the i-th that is given explicitly, or -1
pub open spec fn enum_last(s: Seq<(AstIdent, AstEnumValue)>, i: int) -> int decreases i { if i <= 0 { -1 } else if s[i - 1].1 is Expression { i - 1 } else { enum_last(s, i - 1) } }
pub open spec fn flag_last(s: Seq<(AstIdent, Option<Box<AstExpression>>)>, i: int) -> int decreases i { if i <= 0 { -1 } else if s[i - 1].1 is Some { i - 1 } else { flag_last(s, i - 1) } }
pub open spec fn counts_from(c: Const, l: Const, op: BinaryOp, rep: EndianScalarType, k: int) -> bool { mk(rep.scalar, k) matches Some(n) && ceval(c.value) == c_bin(op, ceval(l.value), R::Val(SV::Int(n))) }
/// the i-th item of an enum: as given, or the last one given plus the distance to it
pub open spec fn enum_item(t: AstEnum, o: Seq<(String, EnumValue)>, i: int) -> bool {
  &&& o[i].0@ == t.items@[i].0.name@
  &&& match t.items@[i].1 { AstEnumValue::Default => o[i].1 is Default,
        AstEnumValue::Expression(e) => o[i].1 matches EnumValue::Value(c) && conv(*e, rep_t(t.rep), c.value) && c.type_ == Type::Scalar(t.rep),
        AstEnumValue::None => { let l = enum_last(t.items@, i); 0 <= l < i && (o[i].1 matches EnumValue::Value(c) && c.type_ == Type::Scalar(t.rep) && (o[l].1 matches EnumValue::Value(d) && counts_from(*c, *d, BinaryOp::Add, t.rep, i - l))) } }
}
/// the i-th flag of a bitfield: as given, or the last one given shifted by the distance to it
pub open spec fn flag_item(t: AstBitfield, o: Seq<(String, Arc<Const>)>, i: int) -> bool {
  &&& o[i].0@ == t.items@[i].0.name@ && o[i].1.type_ == Type::Scalar(t.rep)
  &&& match t.items@[i].1 { Some(e) => conv(*e, rep_t(t.rep), o[i].1.value), None => { let l = flag_last(t.items@, i); 0 <= l < i && counts_from(*o[i].1, *o[l].1, BinaryOp::Shl, t.rep, i - l) } }
}
pub broadcast proof fn enum_last_in(s: Seq<(AstIdent, AstEnumValue)>, i: int) ensures -1 <= #[trigger] enum_last(s, i), i >= 0 ==> enum_last(s, i) < i decreases i { if i > 0 { enum_last_in(s, i - 1) } }
pub broadcast proof fn flag_last_in(s: Seq<(AstIdent, Option<Box<AstExpression>>)>, i: int) ensures -1 <= #[trigger] flag_last(s, i), i >= 0 ==> flag_last(s, i) < i decreases i { if i > 0 { flag_last_in(s, i - 1) } }
pub broadcast proof fn enum_item_push(t: AstEnum, o: Seq<(String, EnumValue)>, x: (String, EnumValue), i: int) requires 0 <= i < o.len() ensures #[trigger] enum_item(t, o.push(x), i) == enum_item(t, o, i) { enum_last_in(t.items@, i); }
pub broadcast proof fn flag_item_push(t: AstBitfield, o: Seq<(String, Arc<Const>)>, x: (String, Arc<Const>), i: int) requires 0 <= i < o.len() ensures #[trigger] flag_item(t, o.push(x), i) == flag_item(t, o, i) { flag_last_in(t.items@, i); }
pub open spec fn distinct<V>(o: Seq<(String, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).0@ != (#[trigger] o[j]).0@ }
pub open spec fn int_type(t: PartialType, own: Option<ScalarType>) -> Option<ScalarType> { match own { Some(s) => Some(s), None => match t { PartialType::Scalar(PartialScalarType::Some(s)) => Some(s), PartialType::Scalar(PartialScalarType::Defaults(s)) => Some(s), _ => None } } }
pub open spec fn literal(v: Seq<char>, t: ScalarType) -> Option<Option<ConstInt>> { if is_hex(v) && digits(v.skip(2), true) { Some(mk(t, number(v.skip(2), true))) } else if !is_hex(v) && digits(v, false) { Some(mk(t, number(v, false))) } else { None } }
"""
FNS = {  # function of no trait, or of a trait without a specification in vstd: its contract
 "ConstInt::cast_to": "ensures vs_r == c_cast(*self, target)",
 "ConstInt::parse": "ensures is_hex(value@) && digits(value@.skip(2), true) ==> match vs_r { Ok(x) => mk(scalar_type, number(value@.skip(2), true)) == Some(x), Err(_) => mk(scalar_type, number(value@.skip(2), true)) is None }, !is_hex(value@) && digits(value@, false) ==> match vs_r { Ok(x) => mk(scalar_type, number(value@, false)) == Some(x), Err(_) => mk(scalar_type, number(value@, false)) is None }",
 "ConstValue::cast_to": "ensures match c_castv(R::Val(self.v()), *target) { R::Val(v) => vs_r matches Some(x) && x.v() == v, R::No => vs_r is None, R::Any => true }",
 "ConstValue::to_bool": "ensures vs_r == (match *self { ConstValue::Bool(b) => Some(b), _ => None })",
 "ConstValue::to_int": "ensures vs_r == (match *self { ConstValue::Int(b) => Some(b), _ => None })",
 "eval_const_expression": "ensures match ceval(*expr) { R::Val(v) => vs_r matches Some(x) && x.v() == v, R::No => vs_r is None, R::Any => true } decreases *expr",
 "Scope::convert_int_expression": "ensures match int_type(expected_type, expr.type_) { None => vs_r is Err, Some(t) => literal(expr.value@, t) matches Some(n) ==> match vs_r { Ok(x) => x.type_ == t && n == Some(x.value), Err(_) => n is None } }",
 "Scope::convert_enum_type": "requires purpose is TypeDefinition, type_.items@.len() > 0 ==> !(type_.items@[0].1 is None) ensures vs_r matches Ok(r) ==> r matches Type::Enum(e) && e.name@ == purpose->TypeDefinition_0@ && e.rep == type_.rep && e.items.v@.len() == type_.items@.len() && distinct(e.items.v@) && (forall|i: int| 0 <= i < type_.items@.len() ==> #[trigger] enum_item(*type_, e.items.v@, i)) && (forall|i: int| 0 <= i < type_.items@.len() - 1 ==> !(#[trigger] type_.items@[i].1 is Default))",
 "Scope::convert_bitfield_type": "requires purpose is TypeDefinition, type_.items@.len() > 0 ==> type_.items@[0].1 is Some ensures vs_r matches Ok(r) ==> r matches Type::Bitfield(e) && e.name@ == purpose->TypeDefinition_0@ && e.rep == type_.rep && e.items.v@.len() == type_.items@.len() && distinct(e.items.v@) && (forall|i: int| 0 <= i < type_.items@.len() ==> #[trigger] flag_item(*type_, e.items.v@, i))",
 "ScalarType::is_signed": "ensures vs_r == signed(*self)",
 "ScalarType::size": "ensures vs_r == bytes(*self)",
 "ScalarType::can_implicit_cast_to": "ensures vs_r == (signed(*self) == signed(*to) && bytes(*self) <= bytes(*to))",
}
TRAITS = {"ConstInt::partial_cmp": "c_cmp(*self, *other)", "ConstValue::partial_cmp": "v_cmp(*self, *other)", "ConstInt::neg": "c_neg(self)", "ConstInt::not": "c_not(self)", **{f"ConstInt::{f}": f"c_{f}(self, other)" for f, _ in OPS.values()}}
ALL = {**FNS, **{k: "the specification of the trait: " + v for k, v in TRAITS.items()}}
LOOPS = {  # loop: (invariant, proof at the start of its body)
 "Scope::convert_enum_type": [("invariant vs_i0 <= vs_s0@.len(), vs_s0@ == type_.items@, items.v@.len() == vs_i0, type_.items@.len() > 0 ==> !(type_.items@[0].1 is None), distinct(items.v@), forall|i: int| 0 <= i < vs_i0 ==> #[trigger] enum_item(*type_, items.v@, i), forall|i: int| 0 <= i < vs_i0 - 1 ==> !(#[trigger] type_.items@[i].1 is Default), has_default == (vs_i0 > 0 && type_.items@[vs_i0 - 1].1 is Default), -1 <= enum_last(type_.items@, vs_i0 as int) < vs_i0, match last_defined_item { Some(c) => { let l = enum_last(type_.items@, vs_i0 as int); 0 <= l && items.v@[l].1 == EnumValue::Value(c) && undefined_counter == vs_i0 - l }, None => enum_last(type_.items@, vs_i0 as int) == -1 && undefined_counter == vs_i0 && (vs_i0 > 0 ==> has_default) } decreases vs_s0@.len() - vs_i0", "proof { reveal_with_fuel(ceval, 3); } let ghost vs_old = items.v@;")],
 "Scope::convert_bitfield_type": [("invariant vs_i0 <= vs_s0@.len(), vs_s0@ == type_.items@, items.v@.len() == vs_i0, type_.items@.len() > 0 ==> type_.items@[0].1 is Some, distinct(items.v@), forall|i: int| 0 <= i < vs_i0 ==> #[trigger] flag_item(*type_, items.v@, i), -1 <= flag_last(type_.items@, vs_i0 as int) < vs_i0, match last_defined_item { Some(c) => { let l = flag_last(type_.items@, vs_i0 as int); 0 <= l && items.v@[l].1 == c && undefined_counter == vs_i0 - l }, None => vs_i0 == 0 && undefined_counter == 0 } decreases vs_s0@.len() - vs_i0", "proof { reveal_with_fuel(ceval, 3); } let ghost vs_old = items.v@;")],
}
START = {"ConstInt::parse": 'proof { reveal_strlit("0x"); }', "ConstValue::partial_cmp": "proof { f_obeys(); }"}

def types(js):
    o = ""; names = set(); used = set()
    for path, j in js.items():
        for key, ns in TYPES.items():
            if "/src/" + key in path:
                ast = key.startswith(("ast/types/enum", "ast/types/bitfield", "ast/expression/int", "ast/expression/ident"))
                nm = lambda x: re.sub(r"\w+", lambda m: "Ast" + m.group(0) if ast and m.group(0) in AST else m.group(0), re.sub(r"ast :: (\w+)", lambda m: ("Ast" if m.group(1) in AST else "") + m.group(1), re.sub(r"crate :: (\w+ :: )*", "", x)))
                for t in j.get("types", []):
                    n = nm(t["name"])
                    if t["name"] not in ns or n in names: continue
                    names.add(n); d = "#[derive(Clone, Copy)] " if t["name"] in COPY else ""
                    if t["kind"] == "struct": fs = [(f, nm(ty)) for f, ty in t["fields"]]; o += f"{d}pub struct {n} {{ " + ", ".join(f"pub {f}: {ty}" for f, ty in fs) + " }\n"; used |= set(re.findall(r"\w+", " ".join(ty for _, ty in fs)))
                    else: vs = [(v, [nm(x) for x in a] if a and not isinstance(a[0], list) else None) for v, a in t["variants"]]; o += f"{d}pub enum {n} {{ " + ", ".join(v + (f"({', '.join(a)})" if a else "") for v, a in vs) + " }\n"; used |= set(re.findall(r"\w+", " ".join(x for _, a in vs for x in a or [])))
    gone = {n for ns in TYPES.values() for n in ns} - names - {"Enum", "Bitfield", "Ident"}
    if gone: return None, "types gone: " + ", ".join(sorted(gone))
    # types of which nothing is used
    for n in sorted(used - names - KNOWN): o += f"#[verifier::external_body] pub struct {n} {{ }}\n"
    return o, ""

def consts(js, spoil=None):
    ty, why = types(js)
    if ty is None: return None, why
    fns = {f["name"]: f for p, j in js.items() for f in j.get("fns", []) if f["name"] in ALL}
    if [n for n in ALL if n not in fns]: return None, "functions gone: " + ", ".join(n for n in ALL if n not in fns)
    bad = [f"{n}: {f['unsupported']}" for n, f in fns.items() if f["unsupported"]]
    if bad: return None, "; ".join(bad)
    if any(f["loops"] != len(LOOPS.get(n, [])) for n, f in fns.items()): return None, "another number of loops"
    o = std() + ty + MAPS + spec() + EVAL
    no = lambda n: "false && " if n == spoil else ""
    # what the operators stand for (the contracts of the functions that implement them)
    for tr, (f, _) in OPS.items(): o += f"impl vstd::std_specs::ops::{tr}SpecImpl for ConstInt {{ open spec fn obeys_{f}_spec() -> bool {{ true }} open spec fn {f}_req(self, rhs: ConstInt) -> bool {{ true }} open spec fn {f}_spec(self, rhs: ConstInt) -> Option<ConstInt> {{ c_{f}(self, rhs) }} }}\n"
    for tr, f in (("Neg", "neg"), ("Not", "not")): o += f"impl vstd::std_specs::ops::{tr}SpecImpl for ConstInt {{ open spec fn obeys_{f}_spec() -> bool {{ true }} open spec fn {f}_req(self) -> bool {{ true }} open spec fn {f}_spec(self) -> Option<ConstInt> {{ c_{f}(self) }} }}\n"
    for t, c, q in (("ConstInt", "c_cmp", "self == other"), ("ConstValue", "v_cmp", "v_eq(*self, *other)")):
        o += f"impl vstd::std_specs::cmp::PartialEqSpecImpl for {t} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &{t}) -> bool {{ {q} }} }}\n"
        o += f"impl PartialEq for {t} {{ #[verifier::external_body] fn eq(&self, other: &{t}) -> bool {{ unimplemented!() }} }}\n"
        o += f"impl vstd::std_specs::cmp::PartialOrdSpecImpl for {t} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, other: &{t}) -> Option<Ordering> {{ {c}(*self, *other) }} }}\n"
    o += DIV + "}\nmod m_consts { use super::*; verus! { broadcast use {neg_div, neg_mod, div_in, mod_in, enum_last_in, flag_last_in, enum_item_push, flag_item_push};\n"
    for n, f in fns.items():
        ret = f" -> (vs_r: {f['ret']})" if f["ret"] else ""; head = f["head"]
        c = FNS.get(n, "")
        if n == spoil: c = c.replace("ensures ", "ensures false, ", 1) if c else "ensures false"
        b = re.sub(r"(?<!\w)ast :: (\w+)", lambda m: ("Ast" if m.group(1) in AST else "") + m.group(1), f["body"]); head = re.sub(r"(?<!\w)ast :: (\w+)", lambda m: ("Ast" if m.group(1) in AST else "") + m.group(1), head)
        b = re.sub(r"\bcrate :: (\w+ :: )*(?=BinaryOp)", "", b); head = re.sub(r"pub \(\w+\) ", "", head)
        for k, (inv, pr) in enumerate(LOOPS.get(n, [])): b = b.replace(f"{{ vs_mark_{k} ! () ;", f"{inv} {{ {pr}", 1)
        if n in START: b = "{ " + START[n] + b.lstrip()[1:]
        x = f"{head}{ret}\n {c}\n{b}"
        if f.get("trait"): o += f"impl {f['trait']} for {n.split('::')[0]} {{ {' '.join(f['assoc'])} {x} }}\n"
        elif "::" in n: o += f"impl {n.split('::')[0]} {{ {x} }}\n"
        else: o += x + "\n"
    return o + "} }\nfn main(){}\n", {n: ALL[n] for n in fns}

# ---------------------------------------------------------------- programs, and the values of their items
EXPECT = {}
class Bad(Exception): pass
class G:
    def __init__(s, r): s.r = r; s.consts = {}; s.enums = []; s.badlit = False
    def lit(s, t, suffix):
        r = s.r; v = r.choice([0, 1, 2, 3, 5, 7, hi(t), hi(t) - 1, r.randrange(0, min(hi(t), 300) + 1), r.randrange(0, hi(t) + 1)])
        if r.random() < .004: v = hi(t) + r.choice([1, 2, 1 << bits(t)]); s.badlit = True
        x = str(v) if r.random() < .6 else "0x" + (f"{v:x}" if r.random() < .7 else f"{v:X}")
        return x + (t.lower() if suffix or r.random() < .2 else ""), v
    def int(s, t, d, suffix=False):
        was = s.badlit
        for _ in range(4):    # mostly expressions that have a value
            s.badlit = was; x = s.int1(t, d, suffix)
            if x[1] is not None or s.r.random() < .05: break
        return x
    def int1(s, t, d, suffix):
        r = s.r; k = r.random()
        if d == 0 or k < .18:
            c = [(n, v) for n, (u, v) in s.consts.items() if u == t]
            if c and r.random() < .4: return r.choice(c)
            return s.lit(t, suffix)
        if k < .74:
            op = r.choice("+ + - - * * / / % % & | ^ << << >> >>".split()); a, x = s.int(t, d - 1, suffix)
            if op in ("<<", ">>") and r.random() < .8: y = r.randrange(0, bits(t) + 2 if r.random() < .2 else bits(t)); y = min(y, hi(t)); b = str(y) + (t.lower() if suffix else "")
            else: b, y = s.int(t, d - 1, suffix)
            return f"({a} {op} {b})", binop(op, t, x, y)
        if k < .84:
            if t[0] == "I" or r.random() < .3:
                if r.random() < .6: a, x = s.int(t, d - 1, suffix); return f"(-{a})", None if x is None or t[0] == "U" else fit(t, -x)
            a, x = s.int(t, d - 1, suffix); return f"(~{a})", None if x is None else wrap(t, ~x)
        if k < .93:
            e = [(n, u, v) for n, u, v in s.enums if v is not None]
            if e and r.random() < .3: n, u, x = r.choice(e); return f"(({n} :> {u.lower()}) :> {t.lower()})", wrap(t, x)
            u = r.choice(T); a, x = s.int(u, d - 1, True); return f"({a} :> {t.lower()})", None if x is None else wrap(t, x)
        c, b = s.bool(d - 1); a, x = s.int(t, d - 1, suffix); z, y = s.int(t, d - 1, suffix)
        return f"({c} ? {a} : {z})", None if b is None or x is None or y is None else x if b else y
    def bool(s, d):
        r = s.r; k = r.random()
        if d <= 0 or k < .15:
            c = [(n, v) for n, (u, v) in s.consts.items() if u == "bool"]
            if c and r.random() < .4: return r.choice(c)
            v = r.random() < .5; return ("true" if v else "false"), v
        if k < .7:
            t = r.choice(T); a, x = s.int(t, d - 1, True); b, y = s.int(t, d - 1, True) if r.random() < .8 else (a, x); op = r.choice("< <= > >= == !=".split())
            return f"({a} {op} {b})", None if x is None or y is None else {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        if k < .8: a, x = s.bool(d - 1); return f"(!{a})", None if x is None else not x
        a, x = s.bool(d - 1); b, y = s.bool(d - 1); op = r.choice(["&&", "||"])
        return f"({a} {op} {b})", None if x is None or y is None else (x and y if op == "&&" else x or y)
def wrap(t, x): x &= (1 << bits(t)) - 1; return x - (1 << bits(t)) if x > hi(t) else x
def fit(t, x): return x if lo(t) <= x <= hi(t) else None
def binop(op, t, x, y):
    if x is None or y is None: return None
    if op in "+-*": return fit(t, {"+": x + y, "-": x - y, "*": x * y}[op])
    if op in "/%":
        if y == 0 or (y == -1 and x == lo(t)): return None
        q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
        return q if op == "/" else x - q * y
    if op in ("<<", ">>"): return None if not 0 <= y < bits(t) else wrap(t, x << y) if op == "<<" else x >> y
    return {"&": x & y, "|": x | y, "^": x ^ y}[op]

def text(r):
    g = G(r); o = []; want = {}; no = unused = False
    for k in range(r.randrange(0, 4)):
        t = r.choice(T + ["bool"]) if r.random() < .7 else r.choice(["U8", "bool"]); n = f"K{k}"
        a, v = g.bool(3) if t == "bool" else g.int(t, r.randrange(0, 4))
        o.append(f"const {n}: {t.lower()} = {a};"); g.consts[n] = (t, v); unused = unused or v is None
    for k in range(r.randrange(1, 3)):
        t = r.choice(T) if r.random() < .7 else "U8"; flags = r.random() < .35; n = ("F" if flags else "E") + str(k); its = []; mine = []; last = cnt = None; seen = set(); allf = 0
        if flags and t[0] == "I": t = "U" + t[1:]
        for i in range(r.randrange(1, 6)):
            m = f"m{i}"
            if last is None or r.random() < .5:
                a, v = g.int(t, r.randrange(0, 4)); its.append(f"{m} = {a}"); last, cnt = (v,), 1
            else:
                its.append(m); v = None if last[0] is None else binop("<<" if flags else "+", t, last[0], cnt); cnt += 1
            if v is None: no = True
            elif not flags and v in seen: return None    # rustc refuses equal discriminants
            else: seen.add(v); want[f"{n}.{m.upper() if flags else m}"] = f"{v}{t.lower()}"; allf |= v
            if not flags and v is not None: mine.append((f"{n}::{m}", t, v))
        g.enums += mine
        if flags: want[f"{n}.ALL"] = f"{allf}{t.lower()}"; want[f"{n}.ZERO"] = "0"
        o.append(f"type {n} = {'bitfield' if flags else 'enum'} {t.lower()} {{ {', '.join(its)} }};")
    src = " ".join(o); EXPECT[src] = None if no or g.badlit else False if unused else want
    return src
def texts(seed, n):
    r = random.Random(seed * 77 + 5); o = []
    while len(o) < n:
        t = text(r)
        if t: o.append(t)
    return o
