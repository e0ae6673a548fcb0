"""Functions of /repo itself under contract. tool/src/direct.rs takes each function from the source file as it stands (its
rewrites are listed there); here are the contracts, the loop invariants and the definitions they use."""
import re

STD = r'''
#![allow(warnings)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub open spec fn is_ws(b: u8) -> bool { b == 32 || b == 9 || b == 10 || b == 12 || b == 13 }
pub open spec fn is_digit(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn is_alpha(b: u8) -> bool { 65 <= b <= 90 || 97 <= b <= 122 }
pub open spec fn is_hex(b: u8) -> bool { is_digit(b) || 65 <= b <= 70 || 97 <= b <= 102 }
pub open spec fn hexval(b: u8) -> int { if is_digit(b) { b - 48 } else if b >= 97 { b - 87 } else { b - 55 } }
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128 }
pub open spec fn achars(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
/// the bytes of a str; what from_utf8_lossy makes of bytes
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn lossy(s: Seq<u8>) -> Seq<char>;
pub broadcast axiom fn utf8_ascii(s: Seq<char>) ensures (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128 as char) ==> (#[trigger] utf8(s)).len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] utf8(s)[i] == s[i] as u8;
#[derive(Debug)] pub struct VsUtf8Err { }
#[verifier::external_body] pub fn vs_slice<T>(x: &[T], a: usize, b: usize) -> (r: &[T]) requires a <= b <= x@.len() ensures r@ == x@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body] pub fn vs_slice_from<T>(x: &[T], a: usize) -> (r: &[T]) requires a <= x@.len() ensures r@ == x@.skip(a as int) { unimplemented!() }
#[verifier::external_body] pub fn vs_slice_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn vs_as_bytes(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@), r@.len() <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
#[verifier::external_body] pub fn vs_streq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn vs_is_ascii_whitespace(b: u8) -> (r: bool) ensures r == is_ws(b) { unimplemented!() }
#[verifier::external_body] pub fn vs_is_ascii_alphabetic(b: u8) -> (r: bool) ensures r == is_alpha(b) { unimplemented!() }
#[verifier::external_body] pub fn vs_is_ascii_alphanumeric(b: u8) -> (r: bool) ensures r == (is_alpha(b) || is_digit(b)) { unimplemented!() }
#[verifier::external_body] pub fn vs_is_ascii_digit(b: u8) -> (r: bool) ensures r == is_digit(b) { unimplemented!() }
#[verifier::external_body] pub fn vs_is_ascii_hexdigit(b: u8) -> (r: bool) ensures r == is_hex(b) { unimplemented!() }
#[verifier::external_body] pub fn vs_to_vec(x: &[u8]) -> (r: Vec<u8>) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body] pub fn vs_from_utf8(x: &[u8]) -> (r: core::result::Result<&str, VsUtf8Err>) ensures ascii(x@) ==> (r matches Ok(s) && s@ == achars(x@)) { unimplemented!() }
#[verifier::external_body] pub fn vs_string_from_utf8(x: Vec<u8>) -> (r: core::result::Result<String, VsUtf8Err>) ensures ascii(x@) ==> (r matches Ok(s) && s@ == achars(x@)) { unimplemented!() }
#[verifier::external_body] pub fn vs_lossy(x: &[u8]) -> (r: String) ensures r@ == lossy(x@), ascii(x@) ==> r@ == achars(x@) { unimplemented!() }
/// u8::from_str_radix(s, 16) of one or two hexadecimal digits
#[verifier::external_body] pub fn vs_u8_radix(s: &str, radix: u32) -> (r: core::result::Result<u8, VsUtf8Err>)
  ensures radix == 16 && s@.len() == 1 && is_hex(s@[0] as u8) && s@[0] < 128 as char ==> (r matches Ok(v) && v == hexval(s@[0] as u8)),
    radix == 16 && s@.len() == 2 && is_hex(s@[0] as u8) && s@[0] < 128 as char && is_hex(s@[1] as u8) && s@[1] < 128 as char ==> (r matches Ok(v) && v == 16 * hexval(s@[0] as u8) + hexval(s@[1] as u8)) { unimplemented!() }
#[verifier::external_body] pub fn vs_unwrap_or_default(x: core::result::Result<String, VsUtf8Err>) -> (r: String) ensures x matches Ok(s) ==> r == s { unimplemented!() }
/// x.iter().position(f); the predicate of f is given besides
#[verifier::external_body] pub fn vs_position<F: Fn(&u8) -> bool>(x: &[u8], f: F, Ghost(p): Ghost<spec_fn(u8) -> bool>) -> (r: Option<usize>)
  requires forall|b: u8| #[trigger] f.requires((&b,)), forall|b: u8, o: bool| f.ensures((&b,), o) ==> o == p(b)
  ensures match r { Some(k) => k < x@.len() && p(x@[k as int]) && forall|j: int| 0 <= j < k ==> !p(#[trigger] x@[j]), None => forall|j: int| 0 <= j < x@.len() ==> !p(#[trigger] x@[j]) } { unimplemented!() }
/// x.windows(n).position(f)
#[verifier::external_body] pub fn vs_windows_position<F: Fn(&[u8]) -> bool>(x: &[u8], n: usize, f: F, Ghost(p): Ghost<spec_fn(Seq<u8>) -> bool>) -> (r: Option<usize>)
  requires n > 0, forall|b: &[u8]| b@.len() == n ==> #[trigger] f.requires((b,)), forall|b: &[u8], o: bool| b@.len() == n && f.ensures((b,), o) ==> o == p(b@)
  ensures match r { Some(k) => k + n <= x@.len() && p(x@.subrange(k as int, k + n)) && forall|j: int| #![trigger x@[j]] 0 <= j < k ==> !p(x@.subrange(j, j + n)), None => forall|j: int| #![trigger x@[j]] 0 <= j && j + n <= x@.len() ==> !p(x@.subrange(j, j + n)) } { unimplemented!() }
/// v.into_iter().filter(f).collect()
#[verifier::external_body] pub fn vs_into_filter<T, F: Fn(&T) -> bool>(v: Vec<T>, f: F, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: Vec<T>)
  requires forall|b: T| #[trigger] f.requires((&b,)), forall|b: T, o: bool| f.ensures((&b,), o) ==> o == p(b)
  ensures r@ == v@.filter(p) { unimplemented!() }
pub struct VsPErr { }
pub type Result<T> = core::result::Result<T, VsPErr>;
#[verifier::external_body] pub fn vs_protospec_err() -> (r: VsPErr) { unimplemented!() }
'''

# ---------------------------------------------------------------- the lexical grammar
KEYWORDS = "type as import import_ffi i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 i16le i32le i64le i128le u16le u32le u64le u128le transform function const container f32 f64 enum default bitfield bool from true false".split()
ONE = {",": "Comma", ";": "Semicolon", "[": "LeftSquare", "]": "RightSquare", "{": "LeftCurly", "}": "RightCurly", "(": "LeftParen", ")": "RightParen", "+": "Plus", "*": "Mul", "%": "Mod", "^": "BitXor", "~": "BitNot",
       "=": "Equal", "?": "Question", "|": "BitOr", "/": "Div", "&": "BitAnd", ".": "Dot", ":": "Colon", "<": "Lt", ">": "Gt", "-": "Minus", "!": "Not"}
MORE = {"==": "Eq", "?:": "Elvis", "||": "Or", "&&": "And", "..": "DotDot", ":>": "Cast", "::": "DoubleColon", "<=": "LtEq", "<<": "Shl", ">=": "GtEq", ">>": "Shr", ">>>": "ShrSigned", "->": "Arrow", "!=": "Ne"}
def camel(k): return "".join(w[0].upper() + w[1:] for w in k.split("_")).replace("le", "Le") if re.fullmatch(r"[iu]\d+le", k) else "".join(w[0].upper() + w[1:] for w in k.split("_"))

def lexspec():
    o = ["pub open spec fn kw(c: Seq<char>) -> STok { " + " else ".join(f'if c == "{k}"@ {{ STok::{camel(k)} }}' for k in KEYWORDS) + " else { STok::Ident(c) } }"]
    syms = sorted(list(MORE) + list(ONE), key=lambda t: -len(t))
    def cond(t): return f"s.len() >= {len(t)} && " + " && ".join(f"s[{i}] == {ord(ch)}" for i, ch in enumerate(t))
    o.append("/// symbols: the longest one that fits\npub open spec fn symbol(s: Seq<u8>) -> (int, Option<STok>) { " + " else ".join(f"if {cond(t)} {{ ({len(t)}, Some(STok::{({**MORE, **ONE})[t]})) }}" for t in syms) + " else { (0, None) } }")
    o.append(r'''
pub open spec fn ident_end(s: Seq<u8>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && (is_alpha(s[i]) || is_digit(s[i]) || s[i] == 95) { ident_end(s, i + 1) } else { i } }
pub open spec fn int_end(s: Seq<u8>, i: int, hex: bool) -> int decreases s.len() - i { if 0 <= i < s.len() && (if hex { is_hex(s[i]) } else { is_digit(s[i]) }) { int_end(s, i + 1, hex) } else { i } }
/// the content of a string literal from position i on, and where it ends
pub open spec fn string_end(s: Seq<u8>, i: int, acc: Seq<u8>) -> Option<(int, Seq<u8>)> decreases s.len() - i {
  if i < 0 || i >= s.len() { None }
  else if s[i] == 92 && i + 1 < s.len() {
    if is_hex(s[i + 1]) && i + 2 < s.len() && is_hex(s[i + 2]) { string_end(s, i + 3, acc.push((16 * hexval(s[i + 1]) + hexval(s[i + 2])) as u8)) }
    else if is_hex(s[i + 1]) { string_end(s, i + 2, acc.push(hexval(s[i + 1]) as u8)) }
    else { string_end(s, i + 2, acc.push(s[i + 1])) } }
  else if s[i] == 34 { Some((i + 1, acc)) }
  else { string_end(s, i + 1, acc.push(s[i])) }
}
pub open spec fn find_nl(s: Seq<u8>, i: int) -> Option<int> decreases s.len() - i { if i < 0 || i >= s.len() { None } else if s[i] == 10 { Some(i) } else { find_nl(s, i + 1) } }
pub open spec fn find_close(s: Seq<u8>, i: int) -> Option<int> decreases s.len() - i { if i < 0 || i + 1 >= s.len() { None } else if s[i] == 42 && s[i + 1] == 47 { Some(i) } else { find_close(s, i + 1) } }
/// one step: how many bytes are consumed, and the token they are, if they are one; 0 bytes: no token starts like this
pub open spec fn lex1(s: Seq<u8>) -> (int, Option<STok>) {
  if s.len() == 0 { (0, None) }
  else if is_ws(s[0]) { (1, None) }
  else if s[0] == 34 { match string_end(s, 1, Seq::empty()) { Some((e, c)) => (e, Some(STok::String(c))), None => (0, None) } }
  else if is_digit(s[0]) { let e = if s[0] == 48 && s.len() >= 2 && s[1] == 120 { int_end(s, 2, true) } else { int_end(s, 1, false) }; (e, Some(STok::Int(achars(s.take(e))))) }
  else if s.len() >= 2 && s[0] == 47 && s[1] == 47 { match find_nl(s.skip(2), 0) { Some(k) => (k + 3, Some(STok::CommentLine(lossy(s.skip(2).take(k))))), None => (s.len() as int, Some(STok::CommentLine(lossy(s.skip(2))))) } }
  else if s.len() >= 2 && s[0] == 47 && s[1] == 42 {
    if s.len() == 2 { (2, None) } else { match find_close(s.skip(2), 0) { Some(k) => (k + 4, Some(STok::CommentBlock(lossy(s.skip(2).take(k))))), None => (s.len() as int, Some(STok::CommentBlock(lossy(s.skip(2))))) } } }
  else if symbol(s).0 > 0 { symbol(s) }
  else if is_alpha(s[0]) || s[0] == 95 { let e = ident_end(s, 1); (e, Some(kw(lossy(s.take(e))))) }
  else { (0, None) }
}
pub open spec fn g_lines(s: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 1 } else { g_lines(s, n - 1) + if s[n - 1] == 10 { 1int } else { 0 } } }
pub open spec fn g_line_start(s: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else if s[n - 1] == 10 { n } else { g_line_start(s, n - 1) } }
pub type Pos = (int, int, int, int);
/// where the bytes [a, b) stand: line and column of their start, line and column of their end
pub open spec fn g_pos(s: Seq<u8>, a: int, b: int) -> Pos { (g_lines(s, a), a - g_line_start(s, a) + 1, g_lines(s, b), b - g_line_start(s, b) + 1) }
/// the tokens from position `at` on
pub open spec fn lex(s: Seq<u8>, at: int, acc: Seq<(STok, Pos)>) -> Option<Seq<(STok, Pos)>> decreases s.len() - at {
  if at < 0 || at >= s.len() { Some(acc) }
  else { let (n, t) = lex1(s.skip(at)); if n <= 0 || at + n > s.len() { None } else { lex(s, at + n, match t { Some(t) => acc.push((t, g_pos(s, at, at + n))), None => acc }) } }
}
pub open spec fn tv(t: SpannedToken) -> (STok, Pos) { (t.token.v(), (t.span.line_start as int, t.span.col_start as int, t.span.line_stop as int, t.span.col_stop as int)) }
pub open spec fn tvs(v: Seq<SpannedToken>) -> Seq<(STok, Pos)> { Seq::new(v.len(), |i: int| tv(v[i])) }
pub broadcast proof fn tvs_push(v: Seq<SpannedToken>, x: SpannedToken) ensures #[trigger] tvs(v.push(x)) == tvs(v).push(tv(x)) { assert(tvs(v.push(x)) =~= tvs(v).push(tv(x))); }
pub open spec fn no_comment(t: (STok, Pos)) -> bool { !(t.0 is CommentLine || t.0 is CommentBlock) }
/// without the comments
pub open spec fn strip(l: Seq<(STok, Pos)>) -> Seq<(STok, Pos)> { l.filter(|t: (STok, Pos)| no_comment(t)) }
pub broadcast proof fn tvs_filter(v: Seq<SpannedToken>, p: spec_fn(SpannedToken) -> bool) requires forall|t: SpannedToken| #[trigger] p(t) == no_comment(tv(t)) ensures #[trigger] tvs(v.filter(p)) == strip(tvs(v)) decreases v.len()
{ reveal(Seq::filter); let q = |t: (STok, Pos)| no_comment(t); if v.len() > 0 { tvs_filter(v.drop_last(), p); assert(tvs(v).drop_last() =~= tvs(v.drop_last())); assert(tvs(v).last() == tv(v.last())); assert(p(v.last()) == q(tv(v.last()))); assert(tvs(v.filter(p)) =~= tvs(v).filter(q)); } else { assert(tvs(v.filter(p)) =~= tvs(v).filter(q)); } }
pub proof fn ident_end_in(s: Seq<u8>, i: int) requires 0 <= i <= s.len() ensures i <= ident_end(s, i) <= s.len(), forall|j: int| i <= j < ident_end(s, i) ==> s[j] < 128 decreases s.len() - i { if i < s.len() { ident_end_in(s, i + 1) } }
pub proof fn int_end_in(s: Seq<u8>, i: int, h: bool) requires 0 <= i <= s.len() ensures i <= int_end(s, i, h) <= s.len(), forall|j: int| i <= j < int_end(s, i, h) ==> s[j] < 128 decreases s.len() - i { if i < s.len() { int_end_in(s, i + 1, h) } }
pub broadcast proof fn find_nl_is(s: Seq<u8>, i: int) requires 0 <= i ensures match #[trigger] find_nl(s, i) { Some(k) => i <= k < s.len() && s[k] == 10 && forall|j: int| i <= j < k ==> s[j] != 10, None => forall|j: int| i <= j < s.len() ==> s[j] != 10 } decreases s.len() - i { if i < s.len() { find_nl_is(s, i + 1) } }
pub broadcast proof fn find_close_is(s: Seq<u8>, i: int) requires 0 <= i ensures match #[trigger] find_close(s, i) { Some(k) => i <= k && k + 1 < s.len() && s[k] == 42 && s[k + 1] == 47 && forall|j: int| #![trigger s[j]] i <= j < k ==> !(s[j] == 42 && s[j + 1] == 47), None => forall|j: int| #![trigger s[j]] i <= j && j + 1 < s.len() ==> !(s[j] == 42 && s[j + 1] == 47) } decreases s.len() - i { if i < s.len() { find_close_is(s, i + 1) } }
pub broadcast proof fn lines_in(s: Seq<u8>, n: int) requires 0 <= n ensures 1 <= #[trigger] g_lines(s, n) <= n + 1 decreases n { if n > 0 { lines_in(s, n - 1) } }
pub broadcast proof fn line_start_in(s: Seq<u8>, n: int) requires 0 <= n ensures 0 <= #[trigger] g_line_start(s, n) <= n decreases n { if n > 0 { line_start_in(s, n - 1) } }
pub broadcast proof fn skip_skip(s: Seq<u8>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= s.len() ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b) { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn skip_sub(s: Seq<u8>, a: int, n: int) requires 0 <= a, 0 <= n, a + n <= s.len() ensures #[trigger] s.skip(a).subrange(0, n) == s.subrange(a, a + n) { assert(s.skip(a).subrange(0, n) =~= s.subrange(a, a + n)); }
pub broadcast proof fn skip_all(s: Seq<u8>) ensures #[trigger] s.skip(s.len() as int) == Seq::<u8>::empty() { assert(s.skip(s.len() as int) =~= Seq::<u8>::empty()); }
pub broadcast proof fn sub_none(s: Seq<u8>, a: int) requires 0 <= a <= s.len() ensures #[trigger] s.subrange(a, a) == Seq::<u8>::empty() { assert(s.subrange(a, a) =~= Seq::<u8>::empty()); }
pub broadcast proof fn lines_cat(s: Seq<u8>, a: int, b: int, k: int) requires 0 <= a, a + k == b, 0 <= k, b <= s.len() ensures #[trigger] g_lines(s.subrange(a, b), k) == g_lines(s, b) - g_lines(s, a) + 1 decreases k { if k > 0 { lines_cat(s, a, b - 1, k - 1); let (t, u) = (s.subrange(a, b), s.subrange(a, b - 1)); lines_same(t, u, k - 1); assert(t[k - 1] == s[b - 1]); } }
pub proof fn lines_same(t: Seq<u8>, u: Seq<u8>, k: int) requires 0 <= k <= t.len(), k <= u.len(), forall|i: int| 0 <= i < k ==> t[i] == u[i] ensures g_lines(t, k) == g_lines(u, k), g_line_start(t, k) == g_line_start(u, k) decreases k { if k > 0 { lines_same(t, u, k - 1); } }
pub broadcast proof fn line_start_cat(s: Seq<u8>, a: int, b: int, k: int) requires 0 <= a, a + k == b, 0 <= k, b <= s.len() ensures g_line_start(s, b) == (if #[trigger] g_line_start(s.subrange(a, b), k) == 0 { g_line_start(s, a) } else { a + g_line_start(s.subrange(a, b), k) }) decreases k { broadcast use line_start_in; if k > 0 { line_start_cat(s, a, b - 1, k - 1); let (t, u) = (s.subrange(a, b), s.subrange(a, b - 1)); lines_same(t, u, k - 1); assert(t[k - 1] == s[b - 1]); } }
pub broadcast proof fn lex_done(s: Seq<u8>, at: int, acc: Seq<(STok, Pos)>) requires at >= s.len() ensures #[trigger] lex(s, at, acc) == Some(acc) { }
pub proof fn lex_step(s: Seq<u8>, at: int, acc: Seq<(STok, Pos)>) requires 0 <= at < s.len() ensures ({ let (n, t) = lex1(s.skip(at)); let acc2 = match t { Some(t) => acc.push((t, g_pos(s, at, at + n))), None => acc }; (n <= 0 || at + n > s.len() ==> lex(s, at, acc) is None) && (0 < n && at + n <= s.len() ==> lex(s, at, acc) == lex(s, at + n, acc2) && (at + n == s.len() ==> lex(s, at, acc) == Some(acc2))) }) { }
pub open spec fn starts(s: Seq<u8>, w: Seq<u8>) -> bool { s.len() >= w.len() && forall|i: int| 0 <= i < w.len() ==> s[i] == #[trigger] w[i] }
pub proof fn starts_take(s: Seq<u8>, w: Seq<u8>) ensures starts(s, w) <==> s.len() >= w.len() && s.subrange(0, w.len() as int) == w { if s.len() >= w.len() { if starts(s, w) { assert(s.subrange(0, w.len() as int) =~= w); } else if s.subrange(0, w.len() as int) == w { assert(forall|i: int| 0 <= i < w.len() ==> s.subrange(0, w.len() as int)[i] == #[trigger] w[i]); } } }
''')
    return "\n".join(o)

LEX = {  # function: (contract, [loop invariants], proof at the start)
 "eat": ("ensures match vs_r { Some(x) => starts(input@, utf8(wanted@)) && x@ == input@.skip(utf8(wanted@).len() as int), None => !starts(input@, utf8(wanted@)) }", [], "proof { starts_take(input@, utf8(wanted@)); }"),
 "eat_identifier": ("ensures match vs_r { Some((a, b)) => input@.len() > 0 && (is_alpha(input@[0]) || input@[0] == 95) && a@ == input@.take(ident_end(input@, 1)) && b@ == input@.skip(ident_end(input@, 1)), None => input@.len() == 0 || !(is_alpha(input@[0]) || input@[0] == 95) }",
    ["invariant_except_break 1 <= i <= input@.len(), ident_end(input@, i as int) == ident_end(input@, 1) ensures 1 <= i <= input@.len(), i == ident_end(input@, 1) decreases input@.len() - i"], ""),
 "Token::gobble": ("ensures input@.len() > 0 ==> ({ let (n, t) = lex1(input@); 0 <= n <= input@.len() && vs_r.0@ == input@.skip(n) && match t { Some(t) => n > 0 && (vs_r.1 matches Some(x) && x.v() == t), None => vs_r.1 is None } })",
    ["invariant_except_break 1 <= i <= input@.len(), input@.len() > 0, input@[0] == 34, string_end(input@, i as int, out@) == string_end(input@, 1, Seq::empty()) ensures 1 <= i <= input@.len(), i < input@.len() ==> string_end(input@, 1, Seq::empty()) == Some((i + 1, out@)), i == input@.len() ==> string_end(input@, 1, Seq::empty()) is None decreases input@.len() - i",
     "invariant_except_break 1 <= i <= input@.len(), i == 1 ==> !is_hex, is_hex ==> input@.len() >= 2 && input@[0] == 48 && input@[1] == 120, i > 1 && !is_hex ==> !(input@[0] == 48 && input@[1] == 120), is_digit(input@[0]), forall|j: int| 0 <= j < i ==> input@[j] < 128, i > 1 || !(input@[0] == 48 && input@.len() >= 2 && input@[1] == 120) ==> int_end(input@, i as int, is_hex) == lex1(input@).0 ensures 1 <= i <= input@.len(), i == lex1(input@).0, forall|j: int| 0 <= j < i ==> input@[j] < 128 decreases input@.len() - i"], "LITS"),
 "advance": ("requires old(index) + consumed@.len() <= 0x7fff_ffff_ffff_ffff, old(line_no) <= old(index) + 1, ensures *final(index) == old(index) + consumed@.len(), *final(line_no) == old(line_no) + g_lines(consumed@, consumed@.len() as int) - 1, *final(line_start) == (if g_line_start(consumed@, consumed@.len() as int) == 0 { *old(line_start) as int } else { old(index) + g_line_start(consumed@, consumed@.len() as int) })",
    ["invariant vs_i0 <= vs_s0@.len(), vs_s0@ == consumed@, *index == *old(index) + vs_i0, *old(index) + consumed@.len() <= 0x7fff_ffff_ffff_ffff, *line_no <= *index + 1, *line_no == old(line_no) + g_lines(consumed@, vs_i0 as int) - 1, *line_start == (if g_line_start(consumed@, vs_i0 as int) == 0 { *old(line_start) as int } else { old(index) + g_line_start(consumed@, vs_i0 as int) }) decreases vs_s0@.len() - vs_i0"], ""),
 "tokenize": ("ensures ({ let s = utf8(input@); match vs_r { Ok(v) => lex(s, 0, Seq::empty()) matches Some(l) && tvs(v@) == (if strip_comments { strip(l) } else { l }), Err(_) => lex(s, 0, Seq::empty()) is None } })",
    [("invariant_except_break 0 <= index <= vs_all.len() <= 0x7fff_ffff_ffff_ffff, input@ == vs_all.skip(index as int), line_no == g_lines(vs_all, index as int), line_no <= index + 1, line_start == g_line_start(vs_all, index as int), line_start <= index, lex(vs_all, index as int, tvs(tokens@)) == lex(vs_all, 0, Seq::empty()) ensures lex(vs_all, 0, Seq::empty()) == Some(tvs(tokens@)) decreases input@.len()", "lex_step(vs_all, index as int, tvs(tokens@));")], "let ghost vs_all = utf8(input@); proof { assert(tvs(Seq::empty()) =~= Seq::empty()); assert(vs_all.skip(0) =~= vs_all); }"),
}

def closure(m, text):
    """vs_closure!(x, T, e) -> a closure whose contract is its own text, and that text as a predicate"""
    o = ""; at = 0
    for k in re.finditer(r"vs_closure ! \((\w+) , (& ?(?:\[)?\w+\]?) , ", text):
        d = 1; i = k.end()
        while d: d += {"(": 1, ")": -1}.get(text[i], 0); i += 1
        x, ty, e = k.group(1), k.group(2), text[k.end():i - 1]
        if "[" in ty: se = re.sub(rf"\b{x} \[", f"{x}@ [", e); pr = f"Ghost(|{x}: Seq<u8>| {re.sub(rf'{x}@', x, se)})"; rq = f"requires {x}@.len() == 2 "
        else: se = e; rq = ""; pr = f"Ghost(|{x}: {ty.lstrip('& ')}| {re.sub(rf'[*] {x}', x, e)})"
        o += text[at:k.start()] + f"|{x}: {ty}| -> (b: bool) {rq}ensures b == ({se}) {{ {e} }}, {pr}"; at = i
    return o + text[at:]

def function(f, contract, loops, start, attrs=""):
    """text of one function with its contract"""
    b = f["body"]
    if len(loops) != f["loops"]: return None
    for k, inv in enumerate(loops): b = b.replace(f"{{ vs_mark_{k} ! () ;", f"{inv} {{", 1) if isinstance(inv, str) else b.replace(f"{{ vs_mark_{k} ! () ;", f"{inv[0]} {{ proof {{ {inv[1]} }}", 1)
    b = closure(None, b)
    head = re.sub(r"< '(\w+) >", r"<'\1>", f["head"])
    ret = f" -> (vs_r: {f['ret']})" if f["ret"] else ""
    if start: b = "{ " + start + b.lstrip()[1:]
    return f"{attrs}{'pub ' if 0 else ''}{head}{ret}\n  {contract}\n{b}"

SPEC = {"String": "Seq<char>", "Vec < u8 >": "Seq<u8>"}
def types(ts):
    """the types as they are in the source, and the values they stand for"""
    o = ""
    for t in ts:
        if t["kind"] == "struct": o += f"pub struct {t['name']} {{ " + ", ".join(f"pub {n}: {ty}" for n, ty in t["fields"]) + " }\n"
        else:
            o += f"pub enum {t['name']} {{ " + ", ".join(n + (f"({', '.join(a)})" if a else "") for n, a in t["variants"]) + " }\n"
            if t["name"] == "Token":
                o += "pub enum STok { " + ", ".join(n + (f"({', '.join(SPEC[x] for x in a)})" if a else "") for n, a in t["variants"]) + " }\n"
                o += "impl Token { pub open spec fn v(self) -> STok { match self { " + ", ".join(f"Token::{n}(x) => STok::{n}(x@)" if a else f"Token::{n} => STok::{n}" for n, a in t["variants"]) + " } } }\n"
    return o

def lexer(js, spoil=None):
    """-> text, {function: contract} or None, reason; `spoil`: the function whose contract gets an impossible addition"""
    j = list(js.values())[0]
    if "fns" not in j: return None, str(j.get("error"))
    fns = {f["name"]: f for f in j["fns"] if not f.get("trait")}; tys = [t for t in j["types"] if t["name"] in ("Token", "Span", "SpannedToken")]
    if [n for n in LEX if n not in fns]: return None, "functions gone: " + ", ".join(n for n in LEX if n not in fns)
    lits = "proof { lits(); if input@.len() > 0 { ident_end_in(input@, 1); } }"
    ls = list(MORE) + ["//", "/*"]
    lit = "pub proof fn lits() ensures " + ", ".join(f'utf8("{k}"@).len() == {len(k)}' + "".join(f' && utf8("{k}"@)[{i}] == {ord(c)}' for i, c in enumerate(k)) for k in ls) + " { broadcast use utf8_ascii; " + " ".join(f'reveal_strlit("{k}");' for k in ls) + " }\n"
    o = STD + types(tys) + lexspec() + lit + "}\nmod m_lexer { use super::*; verus! { broadcast use {utf8_ascii, find_nl_is, find_close_is, tvs_push, tvs_filter, lines_in, line_start_in, skip_skip, skip_sub, skip_all, sub_none, lines_cat, line_start_cat, lex_done};\n"
    for n, f in fns.items():
        if f["unsupported"]: return None, f"{n}: {f['unsupported']}"
        c = LEX.get(n, ("", [], ""))
        k = c[0].replace("ensures ", "ensures " + ("vs_r is Err, " if n == "tokenize" else "false, "), 1) if n == spoil else c[0]
        x = function(f, k, c[1], lits if c[2] == "LITS" else c[2], "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n" if n == "tokenize" else "")
        if x is None: return None, f"{n}: another number of loops"
        o += (f"impl {n.split('::')[0]} {{ {x} }}\n" if "::" in n else x + "\n")
    return o + "} }\nfn main(){}\n", {n: LEX[n][0] for n in fns if n in LEX}

# ---------------------------------------------------------------- what the checks run
class Job:
    """files of /repo (patterns), the text to verify and its contracts, the reference and how to run the real code on its inputs"""
    def __init__(s, files, make, table, std, left_out, assume, mode, cmd, runs, ref): s.files = files; s.make = make; s.table = table; s.std = std; s.left_out = left_out; s.assume = assume; s.mode = mode; s.cmd = cmd; s.runs = runs; s.ref = ref
def jobs():
    import consts, grammar, lex, parse
    return {
 "P18": Job(["tokenizer.rs"], lexer, LEX, STD, "the text of error messages, impl Display",
  ["the contracts of the functions of std that are called (STD in py/direct.py), usize is 64 bits, a str holds fewer than 2^63 bytes",
   "from_utf8_lossy is left uninterpreted beyond ASCII: identifiers and integers are ASCII, comments are not part of the token stream given to the parser",
   "the extraction replaces constructs outside Verus' subset by calls, one by one (tool/src/direct.rs)"],
  {}, "tokens", [dict(strip=False), dict(strip=True)], lambda t, strip: lex.lex(t, strip)),
 "P19": Job(["parser/**/*.rs", "ast/**/*.rs", "tokenizer.rs"], grammar.parser, grammar.FNS, grammar.STD, "positions (Span) in the tree, the text of errors, Display and serde impls",
  ["the contracts of the functions of std that are called (STD in py/grammar.py), derived PartialEq and Clone of Token",
   "the tokens of a text are what tokenize gives: its contract is discharged under P18, here it is named (lexed)",
   "the stack is unbounded: the parser recurses as deep as the text nests",
   "the extraction replaces constructs outside Verus' subset by calls or matches, one by one (tool/src/direct.rs)"],
  {"spans": True}, "parse", [{}], lambda t: parse.parse(t)),
 "P20": Job(consts.FILES, consts.consts, consts.ALL, consts.std() + consts.EVAL + consts.MAPS, "the text of errors; arithmetic of ConstValue on floats (no caller); quoting a value as a Rust literal (executions only)",
  ["the contracts of the functions of std that are called (STD in py/consts.py): str::parse, from_str_radix, checked_shl, checked_shr, checked_neg, u32::try_from; comparing floats is a function of the two; derived PartialEq; IndexMap as a sequence of entries",
   "what convert_expr makes of an expression is not specified (names, types): the value of an item is the value of the expression it made",
   "unimplemented!() is taken as a refusal (the build script stops); the first item of an enum or bitfield is explicit (the grammar demands it)",
   "the extraction replaces constructs outside Verus' subset by calls or matches, and expands macro_rules (tool/src/direct.rs)"],
  {"consts": True}, "consts", [{}], lambda t: consts.EXPECT[t]),
}
def texts(pid, seed, n):
    import consts, lex, parse
    return {"P18": lex, "P19": parse, "P20": consts}[pid].texts(seed, n)
