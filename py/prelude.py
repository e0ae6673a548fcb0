"""Text of the Verus prelude: the contracts assumed for std / external functions used by generated code."""
INTS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize"]
BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "u128": 128, "i128": 128, "usize": 64}

HEAD = r'''
#![allow(bindings_with_variant_name, warnings)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
/// error value: `io` says the failure came from the transport, not from the data
pub struct VsErr { pub io: Ghost<bool> }
pub type VsR<T> = core::result::Result<T, VsErr>;
/// std::vec::Vec / byte arrays / slices: an owned sequence
pub struct VsV<T> { pub s: Ghost<Seq<T>> }
/// std::string::String: the UTF-8 content
#[derive(Clone, Copy)]
pub struct F32v { pub bits: u32 }
#[derive(Clone, Copy)]
pub struct F64v { pub bits: u64 }
pub struct VsStr { pub c: Ghost<Seq<char>> }

// ---- input streams: the data of the stream and the position in it
pub struct Rd { pub d: Ghost<Seq<u8>>, pub p: Ghost<int> }
impl Rd { pub open spec fn ok(&self) -> bool { 0 <= self.p@ <= self.d@.len() && self.d@.len() <= 0xffff_ffff_ffff_ffff } }

#[verifier::external_body]
pub fn vs_err() -> (r: VsErr) ensures !r.io@ { unimplemented!() }

impl<T> VsV<T> {
  #[verifier::external_body] pub fn new() -> (r: VsV<T>) ensures r.s@ == Seq::<T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: VsV<T>) requires n <= 0x10_0000 ensures r.s@ == Seq::<T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn push(&mut self, x: T) ensures final(self).s@ == old(self).s@.push(x) { unimplemented!() }
  #[verifier::external_body] pub fn vs_append(&mut self, x: VsV<T>) ensures final(self).s@ == old(self).s@ + x.s@, old(self).s@.len() == 0 ==> final(self).s@ == x.s@ { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.s@.len() { unimplemented!() }
  #[verifier::external_body] pub fn vs_index(&self, i: usize) -> (r: &T) requires i < self.s@.len() ensures *r == self.s@[i as int] { unimplemented!() }
  /// self.get(i).ok_or_else(|| an i/o error)
  #[verifier::external_body] pub fn vs_get(&self, i: usize) -> (r: VsR<&T>) ensures r matches Ok(x) ==> i < self.s@.len() && *x == self.s@[i as int], r matches Err(e) ==> e.io@ && i >= self.s@.len() { unimplemented!() }
  #[verifier::external_body] pub fn vs_set_len(&mut self, n: usize) ensures final(self).s@.len() == n { unimplemented!() }
  #[verifier::external_body] pub fn truncate(&mut self, n: usize) ensures final(self).s@ == (if n < old(self).s@.len() { old(self).s@.take(n as int) } else { old(self).s@ }) { unimplemented!() }
  #[verifier::external_body] pub fn vs_starts_with(&self, o: &VsV<T>) -> (r: bool) ensures r == (self.s@.len() >= o.s@.len() && self.s@.take(o.s@.len() as int) == o.s@) { unimplemented!() }
  #[verifier::external_body] pub fn vs_to(&self, n: usize) -> (r: VsV<T>) requires n <= self.s@.len() ensures r.s@ == self.s@.take(n as int) { unimplemented!() }
}
#[verifier::external_body]
pub fn vs_zeros(n: usize) -> (r: VsV<u8>) ensures r.s@ == zeros(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vs_arr1(b: u8) -> (r: VsV<u8>) ensures r.s@ == seq![b] { unimplemented!() }
#[verifier::external_body]
pub fn vs_cursor(v: VsV<u8>) -> (r: Rd) ensures r.d@ == v.s@, r.p@ == 0 { unimplemented!() }
pub fn vs_min(a: u64, b: u64) -> (r: u64) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn vs_assert(b: bool) requires b { }

/// how many bytes a refill of the caller's buffer leaves available at least (known finding F1: a terminator of n bytes
/// needs vs_refill() >= n, which decode then has as a precondition)
pub uninterp spec fn vs_refill() -> int;
impl Rd {
  #[verifier::external_body]
  pub fn read(&mut self, buf: &mut VsV<u8>) -> (r: VsR<usize>)
    requires old(self).ok(),
    ensures final(buf).s@.len() == old(buf).s@.len(), final(self).d == old(self).d, final(self).ok(),
      r matches Ok(n) ==> n <= old(buf).s@.len() && final(self).p@ == old(self).p@ + n && final(self).p@ <= old(self).d@.len()
         && final(buf).s@ == old(self).d@.subrange(old(self).p@, old(self).p@ + n) + old(buf).s@.subrange(n as int, old(buf).s@.len() as int)
         && (n == 0 ==> old(buf).s@.len() == 0 || old(self).p@ == old(self).d@.len()),
      r matches Err(e) ==> e.io@
  { unimplemented!() }
  #[verifier::external_body]
  pub fn read_exact(&mut self, buf: &mut VsV<u8>) -> (r: VsR<()>)
    requires old(self).ok(),
    ensures final(buf).s@.len() == old(buf).s@.len(), final(self).d == old(self).d, final(self).ok(),
      r is Ok ==> final(self).p@ == old(self).p@ + old(buf).s@.len() && old(self).p@ + old(buf).s@.len() <= old(self).d@.len()
         && final(buf).s@ == old(self).d@.subrange(old(self).p@, old(self).p@ + old(buf).s@.len()),
      r matches Err(e) ==> e.io@ || old(self).p@ + old(buf).s@.len() > old(self).d@.len()
  { unimplemented!() }
  #[verifier::external_body]
  pub fn read_exact_n(&mut self, buf: &mut VsV<u8>, n: usize) -> (r: VsR<()>)
    requires old(self).ok(), n == old(buf).s@.len(),
    ensures final(buf).s@.len() == old(buf).s@.len(), final(self).d == old(self).d, final(self).ok(),
      r is Ok ==> final(self).p@ == old(self).p@ + old(buf).s@.len() && old(self).p@ + old(buf).s@.len() <= old(self).d@.len()
         && final(buf).s@ == old(self).d@.subrange(old(self).p@, old(self).p@ + old(buf).s@.len()),
      r matches Err(e) ==> e.io@ || old(self).p@ + old(buf).s@.len() > old(self).d@.len()
  { unimplemented!() }
  #[verifier::external_body]
  pub fn read_to_end(&mut self, buf: &mut VsV<u8>) -> (r: VsR<usize>)
    requires old(self).ok(),
    ensures final(self).d == old(self).d, final(self).ok(),
      r is Ok ==> final(self).p@ == old(self).d@.len() && final(buf).s@ == old(buf).s@ + old(self).d@.subrange(old(self).p@, old(self).d@.len() as int),
      r matches Err(e) ==> e.io@
  { unimplemented!() }
  /// a buffered reader hands out some prefix of what is left, empty only at the end
  #[verifier::external_body]
  pub fn fill_buf(&mut self) -> (r: VsR<VsV<u8>>)
    requires old(self).ok(),
    ensures final(self).d == old(self).d, final(self).p == old(self).p,
      r matches Ok(b) ==> b.s@.len() <= old(self).d@.len() - old(self).p@ && b.s@ == old(self).d@.subrange(old(self).p@, old(self).p@ + b.s@.len())
          && (b.s@.len() == 0 ==> old(self).p@ == old(self).d@.len()) && (b.s@.len() >= vs_refill() || b.s@.len() == old(self).d@.len() - old(self).p@),
      r matches Err(e) ==> e.io@
  { unimplemented!() }
  #[verifier::external_body]
  pub fn consume(&mut self, n: usize)
    requires old(self).ok(), old(self).p@ + n <= old(self).d@.len(),
    ensures final(self).d == old(self).d, final(self).p@ == old(self).p@ + n
  { unimplemented!() }
  #[verifier::external_body]
  pub fn position(&self) -> (r: u64) requires self.ok() ensures r == self.p@ { unimplemented!() }
}
/// the data of a stream limited to n bytes from position p
pub open spec fn lim(d: Seq<u8>, p: int, n: int) -> Seq<u8> { if p + n < d.len() { d.take(p + n) } else { d } }
#[verifier::external_body]
pub fn vs_take<'a>(r: &'a mut Rd, n: u64) -> (t: &'a mut Rd)
   requires old(r).ok()
   ensures t.d@ == lim(old(r).d@, old(r).p@, n as int), t.p == old(r).p, t.ok(), final(r).d == old(r).d, final(r).p == final(t).p, final(t).ok() ==> final(r).ok()
{ unimplemented!() }

// ---- output streams
pub open spec fn vs_pre(o: Seq<u8>, r: Option<Seq<u8>>) -> Option<Seq<u8>> { match r { None => None, Some(b) => Some(o + b) } }
pub broadcast proof fn vs_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn vs_unit(b: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + b) == b { assert((Seq::<u8>::empty() + b) =~= b); }
// o: what was written; f: what of it was passed on (a stream may hold back what it is given until it is flushed)
pub trait Sink { spec fn o(&self) -> Seq<u8>; spec fn f(&self) -> Seq<u8>;
  fn write_all(&mut self, b: &VsV<u8>) -> (r: VsR<()>) ensures r is Ok ==> final(self).o() == old(self).o() + b.s@, r matches Err(e) ==> e.io@;
  fn write(&mut self, b: &VsV<u8>) -> (r: VsR<usize>) ensures r matches Ok(n) ==> n <= b.s@.len() && final(self).o() == old(self).o() + b.s@.subrange(0, n as int), r matches Err(e) ==> e.io@;
  fn flush(&mut self) -> (r: VsR<()>) ensures final(self).o() == old(self).o(), r is Ok ==> final(self).f() == final(self).o(), r matches Err(e) ==> e.io@;
}
pub struct Wr { pub o: Ghost<Seq<u8>>, pub f: Ghost<Seq<u8>> }
impl Sink for Wr { open spec fn o(&self) -> Seq<u8> { self.o@ } open spec fn f(&self) -> Seq<u8> { self.f@ }
  #[verifier::external_body] fn write(&mut self, b: &VsV<u8>) -> (r: VsR<usize>) { unimplemented!() }
  #[verifier::external_body] fn write_all(&mut self, b: &VsV<u8>) -> (r: VsR<()>) { unimplemented!() }
  #[verifier::external_body] fn flush(&mut self) -> (r: VsR<()>) { unimplemented!() } }
impl Sink for VsV<u8> { open spec fn o(&self) -> Seq<u8> { self.s@ } open spec fn f(&self) -> Seq<u8> { self.s@ }
  #[verifier::external_body] fn write(&mut self, b: &VsV<u8>) -> (r: VsR<usize>) { unimplemented!() }
  #[verifier::external_body] fn write_all(&mut self, b: &VsV<u8>) -> (r: VsR<()>) { unimplemented!() }
  #[verifier::external_body] fn flush(&mut self) -> (r: VsR<()>) { unimplemented!() } }
#[verifier::external_body]
pub fn vs_dynw<'a, W: Sink>(w: &'a mut W) -> (t: &'a mut Wr) ensures t.o@ == old(w).o(), final(w).o() == final(t).o@, final(w).f() == final(t).f@ { unimplemented!() }

// ---- sequences
pub broadcast proof fn vs_l1(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn vs_l2(a: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + a) == a { assert(Seq::<u8>::empty() + a =~= a); }
pub broadcast proof fn vs_l3(a: Seq<u8>) ensures #[trigger] (a + Seq::<u8>::empty()) == a { assert(a + Seq::<u8>::empty() =~= a); }
pub broadcast proof fn vs_l4(d: Seq<u8>, a: int, b: int, n: int) requires 0 <= a <= b <= d.len(), 0 <= n <= b - a ensures #[trigger] d.subrange(a, b).take(n) == d.subrange(a, a + n) { assert(d.subrange(a, b).take(n) =~= d.subrange(a, a + n)); }
pub broadcast proof fn vs_l5(d: Seq<u8>, a: int, b: int, c: int, e: int) requires 0 <= a <= b <= d.len(), 0 <= c <= e <= b - a ensures #[trigger] d.subrange(a, b).subrange(c, e) == d.subrange(a + c, a + e) { assert(d.subrange(a, b).subrange(c, e) =~= d.subrange(a + c, a + e)); }
pub broadcast group vs_seq { vs_l1, vs_l2, vs_l3, vs_l4, vs_l5 }
// ---- values
pub trait VsEq: Sized { fn vs_eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o); }
/// `x.clone()` for a bool or a reference to one
pub trait VsCloneBool { fn vs_clone_bool(&self) -> (r: bool) where Self: Sized; }
impl VsCloneBool for bool { fn vs_clone_bool(&self) -> (r: bool) ensures r == *self { *self } }
impl VsEq for bool { fn vs_eq(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VsEq for VsV<u8> { #[verifier::external_body] fn vs_eq(&self, o: &Self) -> (r: bool) ensures r == (self.s@ == o.s@) { unimplemented!() } }
pub trait VsBytes: Sized {
  spec fn sz() -> int; spec fn s_from_be(b: Seq<u8>) -> Self; spec fn s_from_le(b: Seq<u8>) -> Self; spec fn s_to_be(self) -> Seq<u8>; spec fn s_to_le(self) -> Seq<u8>;
  fn vs_size() -> (r: usize) ensures r == Self::sz();
  fn vs_from_be(b: &VsV<u8>) -> (r: Self) requires b.s@.len() == Self::sz() ensures r == Self::s_from_be(b.s@);
  fn vs_from_le(b: &VsV<u8>) -> (r: Self) requires b.s@.len() == Self::sz() ensures r == Self::s_from_le(b.s@);
  fn vs_to_be_bytes(&self) -> (r: VsV<u8>) ensures r.s@ == self.s_to_be();
  fn vs_to_le_bytes(&self) -> (r: VsV<u8>) ensures r.s@ == self.s_to_le();
}
pub open spec fn dec_be<T: VsBytes>(d: Seq<u8>, p: int) -> Option<(T, int)> { if p + T::sz() <= d.len() { Some((T::s_from_be(d.subrange(p, p + T::sz())), p + T::sz())) } else { None } }
pub open spec fn dec_le<T: VsBytes>(d: Seq<u8>, p: int) -> Option<(T, int)> { if p + T::sz() <= d.len() { Some((T::s_from_le(d.subrange(p, p + T::sz())), p + T::sz())) } else { None } }
pub open spec fn dec_bool(d: Seq<u8>, p: int) -> Option<(bool, int)> { if p + 1 <= d.len() { Some((d.subrange(p, p + 1)[0] != 0u8, p + 1)) } else { None } }
pub open spec fn enc_bool(v: bool, o: Seq<u8>) -> Seq<u8> { o + seq![if v { 1u8 } else { 0u8 }] }
pub open spec fn chunks_be<T: VsBytes>(raw: Seq<u8>) -> Seq<T> { Seq::new((raw.len() / (T::sz() as nat)) as nat, |i: int| T::s_from_be(raw.subrange(i * T::sz(), i * T::sz() + T::sz()))) }
pub open spec fn chunks_le<T: VsBytes>(raw: Seq<u8>) -> Seq<T> { Seq::new((raw.len() / (T::sz() as nat)) as nat, |i: int| T::s_from_le(raw.subrange(i * T::sz(), i * T::sz() + T::sz()))) }
pub open spec fn map_bool(raw: Seq<u8>) -> Seq<bool> { Seq::new(raw.len(), |i: int| raw[i] != 0u8) }
/// raw.chunks_exact(size).map(|x| T::from_be_bytes(x.try_into().unwrap())).collect()
#[verifier::external_body]
pub fn vs_chunks_be<T: VsBytes>(raw: &VsV<u8>, size: usize) -> (r: VsV<T>) requires size == T::sz(), T::sz() > 0 ensures r.s@ == chunks_be::<T>(raw.s@) { unimplemented!() }
#[verifier::external_body]
pub fn vs_chunks_le<T: VsBytes>(raw: &VsV<u8>, size: usize) -> (r: VsV<T>) requires size == T::sz(), T::sz() > 0 ensures r.s@ == chunks_le::<T>(raw.s@) { unimplemented!() }
/// raw.iter().map(|x| *x != 0).collect()
#[verifier::external_body]
pub fn vs_chunks_bool(raw: &VsV<u8>, size: usize) -> (r: VsV<bool>) requires size == 1 ensures r.s@ == map_bool(raw.s@) { unimplemented!() }
#[verifier::external_body]
pub fn vs_map_bool(raw: &VsV<u8>) -> (r: VsV<bool>) ensures r.s@ == map_bool(raw.s@) { unimplemented!() }
pub open spec fn raw_n(d: Seq<u8>, p: int, n: int) -> Option<(Seq<u8>, int)> { if p + n <= d.len() { Some((d.subrange(p, p + n), p + n)) } else { None } }
pub open spec fn raw_rest(d: Seq<u8>, p: int) -> Seq<u8> { d.subrange(p, d.len() as int) }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub trait VsNum: Sized {
  spec fn s_add(a: Self, b: Self) -> Self; fn vs_add(self, o: Self) -> (r: Self) ensures r == Self::s_add(self, o);
  spec fn s_sub(a: Self, b: Self) -> Self; fn vs_sub(self, o: Self) -> (r: Self) ensures r == Self::s_sub(self, o);
  spec fn s_mul(a: Self, b: Self) -> Self; fn vs_mul(self, o: Self) -> (r: Self) ensures r == Self::s_mul(self, o);
  spec fn nz(a: Self) -> bool;
  spec fn s_div(a: Self, b: Self) -> Self; fn vs_div(self, o: Self) -> (r: Self) requires Self::nz(o) ensures r == Self::s_div(self, o);
  spec fn s_rem(a: Self, b: Self) -> Self; fn vs_rem(self, o: Self) -> (r: Self) requires Self::nz(o) ensures r == Self::s_rem(self, o);
  spec fn nzw(a: Self) -> bool;
  fn vs_wrapping_div(self, o: Self) -> (r: Self) requires Self::nzw(o) ensures r == Self::s_div(self, o);
  fn vs_wrapping_rem(self, o: Self) -> (r: Self) requires Self::nzw(o) ensures r == Self::s_rem(self, o);
  spec fn shok(a: Self) -> bool;
  spec fn s_shl(a: Self, b: Self) -> Self; fn vs_shl(self, o: Self) -> (r: Self) requires Self::shok(o) ensures r == Self::s_shl(self, o);
  spec fn s_shr(a: Self, b: Self) -> Self; fn vs_shr(self, o: Self) -> (r: Self) requires Self::shok(o) ensures r == Self::s_shr(self, o);
  spec fn s_and(a: Self, b: Self) -> Self; fn vs_bitand(self, o: Self) -> (r: Self) ensures r == Self::s_and(self, o);
  spec fn s_or(a: Self, b: Self) -> Self; fn vs_bitor(self, o: Self) -> (r: Self) ensures r == Self::s_or(self, o);
  spec fn s_xor(a: Self, b: Self) -> Self; fn vs_bitxor(self, o: Self) -> (r: Self) ensures r == Self::s_xor(self, o);
  spec fn s_ones(a: Self) -> u32; fn vs_count_ones(self) -> (r: u32) ensures r == Self::s_ones(self);
  spec fn s_u64(a: Self) -> u64;
}
/// Some(x).filter(|x| *x != 0).ok_or_else(|| std::io::Error::from(..))
#[verifier::external_body]
pub fn vs_nonzero<T: VsNum>(x: T) -> (r: VsR<T>) ensures r matches Ok(v) ==> v == x && T::nzw(x), r matches Err(e) ==> e.io@ && !T::nzw(x) { unimplemented!() }
pub trait VsChk: Sized { fn vs_checked_mul(self, o: Self) -> (r: Option<Self>); }
impl VsChk for usize { #[verifier::external_body] fn vs_checked_mul(self, o: usize) -> (r: Option<usize>) ensures r == (if self as int * o as int <= usize::MAX as int { Some((self as int * o as int) as usize) } else { None }) { unimplemented!() } }
pub trait VsNot: Sized { spec fn s_not(a: Self) -> Self; fn vs_not(self) -> (r: Self) ensures r == Self::s_not(self); }
pub trait VsNeg: Sized { spec fn s_neg(a: Self) -> Self; fn vs_neg(self) -> (r: Self) ensures r == Self::s_neg(self); }
impl VsNot for bool { open spec fn s_not(a: bool) -> bool { !a } fn vs_not(self) -> (r: bool) { !self } }
pub open spec fn sum_from<T: VsNum>(xs: Seq<T>, i: int, acc: u64) -> u64 decreases xs.len() - i { if i >= xs.len() || i < 0 { acc } else { sum_from(xs, i + 1, u64::s_add(acc, T::s_u64(xs[i]))) } }
/// xs.iter().copied().map(|x| x as u64).sum::<u64>()
#[verifier::external_body]
pub fn vs_sum<T: VsNum>(xs: &VsV<T>) -> (r: u64) ensures r == sum_from(xs.s@, 0, 0u64) { unimplemented!() }
'''

# integers as bytes, in either order; division that truncates; the number of set bits
NUM = """pub open spec fn be_val(b: Seq<u8>) -> nat decreases b.len() { if b.len() == 0 { 0 } else { be_val(b.drop_last()) * 256 + b.last() as nat } }
pub open spec fn le_val(b: Seq<u8>) -> nat decreases b.len() { if b.len() == 0 { 0 } else { le_val(b.drop_first()) * 256 + b[0] as nat } }
pub open spec fn be_bytes(x: nat, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { be_bytes(x / 256, (n - 1) as nat).push((x % 256) as u8) } }
pub open spec fn le_bytes(x: nat, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { seq![(x % 256) as u8] + le_bytes(x / 256, (n - 1) as nat) } }
pub open spec fn tdiv(a: int, b: int) -> int { if b == 0 { 0 } else if a >= 0 && b > 0 { a / b } else if a >= 0 { -(a / -b) } else if b > 0 { -(-a / b) } else { -a / -b } }
pub open spec fn ones(x: nat) -> nat decreases x { if x == 0 { 0 } else { x % 2 + ones(x / 2) } }
"""

def ints(opaque):
    o = [NUM]
    for t in INTS:
        b = BITS[t]
        sg = t[0] == "i"
        OPQ = "#[verifier::opaque]" if opaque and t != "usize" else ""
        m = str(1 << b) if b < 128 else "(0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int)"
        def wrap(e):
            if sg:
                return f"({{ let w = ({e}) % {m}; if w >= {1 << (b - 1)} {{ (w - {m}) as {t} }} else {{ w as {t} }} }})"
            return f"((({e}) % {m}) as {t})"
        o.append(f"impl VsEq for {t} {{ fn vs_eq(&self, o: &Self) -> (r: bool) {{ *self == *o }} }}")
        if t != "usize":
            half = str(1 << (b - 1))
            frm = lambda e: f"{{ let w = {e} as int; if w >= {half} {{ (w - {m}) as {t} }} else {{ w as {t} }} }}" if sg else f"{{ {e} as {t} }}"
            un = f"(if (x as int) < 0 {{ x as int + {m} }} else {{ x as int }}) as nat" if sg else "x as nat"
            o.append(f"""#[verifier::opaque] pub open spec fn fb_{t}(b: Seq<u8>) -> {t} {frm('be_val(b)')} #[verifier::opaque] pub open spec fn fl_{t}(b: Seq<u8>) -> {t} {frm('le_val(b)')}
#[verifier::opaque] pub open spec fn tb_{t}(x: {t}) -> Seq<u8> {{ be_bytes({un}, {b // 8}) }} #[verifier::opaque] pub open spec fn tl_{t}(x: {t}) -> Seq<u8> {{ le_bytes({un}, {b // 8}) }}
impl VsBytes for {t} {{ open spec fn sz() -> int {{ {b//8} }} open spec fn s_from_be(b: Seq<u8>) -> {t} {{ fb_{t}(b) }} open spec fn s_from_le(b: Seq<u8>) -> {t} {{ fl_{t}(b) }} open spec fn s_to_be(self) -> Seq<u8> {{ tb_{t}(self) }} open spec fn s_to_le(self) -> Seq<u8> {{ tl_{t}(self) }}
 #[verifier::external_body] fn vs_size() -> (r: usize) {{ unimplemented!() }}
 #[verifier::external_body] fn vs_from_be(b: &VsV<u8>) -> (r: {t}) {{ unimplemented!() }} #[verifier::external_body] fn vs_from_le(b: &VsV<u8>) -> (r: {t}) {{ unimplemented!() }}
 #[verifier::external_body] fn vs_to_be_bytes(&self) -> (r: VsV<u8>) {{ unimplemented!() }} #[verifier::external_body] fn vs_to_le_bytes(&self) -> (r: VsV<u8>) {{ unimplemented!() }} }}""")
        if sg:
            o.append(f"#[verifier::opaque] pub open spec fn div_{t}(a: {t}, b: {t}) -> {t} {{ {wrap('tdiv(a as int, b as int)')} }} #[verifier::opaque] pub open spec fn rem_{t}(a: {t}, b: {t}) -> {t} {{ (a as int - tdiv(a as int, b as int) * b as int) as {t} }}")
            o.append(f"pub uninterp spec fn ones_{t}(x: {t}) -> u32;")
        else: o.append(f"#[verifier::opaque] pub open spec fn ones_{t}(x: {t}) -> u32 {{ ones(x as nat) as u32 }}")
        div = f"div_{t}(a, b)" if sg else "((a as int / b as int) as %s)" % t
        rem = f"rem_{t}(a, b)" if sg else "((a as int %% b as int) as %s)" % t
        xb = "#[verifier::external_body]"
        nz = "b != 0" if not sg else f"b > 0"
        cast = {"u64": "a", "usize": "a as u64"}.get(t, "a as u64")
        o.append(f"""impl VsNum for {t} {{
 {OPQ} open spec fn s_add(a: {t}, b: {t}) -> {t} {{ {wrap('a as int + b as int')} }} {xb} fn vs_add(self, o: {t}) -> (r: {t}) {{ unimplemented!() }}
 {OPQ} open spec fn s_sub(a: {t}, b: {t}) -> {t} {{ {wrap('a as int - b as int')} }} {xb} fn vs_sub(self, o: {t}) -> (r: {t}) {{ unimplemented!() }}
 {OPQ} open spec fn s_mul(a: {t}, b: {t}) -> {t} {{ {wrap('a as int * b as int')} }} {xb} fn vs_mul(self, o: {t}) -> (r: {t}) {{ unimplemented!() }}
 open spec fn nz(b: {t}) -> bool {{ {nz} }} open spec fn nzw(b: {t}) -> bool {{ b != 0 }}
 {xb} fn vs_wrapping_div(self, o: {t}) -> (r: {t}) {{ unimplemented!() }} {xb} fn vs_wrapping_rem(self, o: {t}) -> (r: {t}) {{ unimplemented!() }}
 {OPQ} open spec fn s_div(a: {t}, b: {t}) -> {t} {{ {div} }} {xb} fn vs_div(self, o: {t}) -> (r: {t}) {{ unimplemented!() }}
 {OPQ} open spec fn s_rem(a: {t}, b: {t}) -> {t} {{ {rem} }} {xb} fn vs_rem(self, o: {t}) -> (r: {t}) {{ unimplemented!() }}
 open spec fn shok(b: {t}) -> bool {{ 0 <= b < {min(b, 127 if t == 'i8' else b)} }}
 {OPQ} open spec fn s_shl(a: {t}, b: {t}) -> {t} {{ a << b }} {xb} fn vs_shl(self, o: {t}) -> (r: {t}) {{ unimplemented!() }}
 {OPQ} open spec fn s_shr(a: {t}, b: {t}) -> {t} {{ a >> b }} {xb} fn vs_shr(self, o: {t}) -> (r: {t}) {{ unimplemented!() }}
 open spec fn s_and(a: {t}, b: {t}) -> {t} {{ a & b }} {xb} fn vs_bitand(self, o: {t}) -> (r: {t}) {{ unimplemented!() }}
 open spec fn s_or(a: {t}, b: {t}) -> {t} {{ a | b }} {xb} fn vs_bitor(self, o: {t}) -> (r: {t}) {{ unimplemented!() }}
 open spec fn s_xor(a: {t}, b: {t}) -> {t} {{ a ^ b }} {xb} fn vs_bitxor(self, o: {t}) -> (r: {t}) {{ unimplemented!() }}
 open spec fn s_ones(a: {t}) -> u32 {{ ones_{t}(a) }} {xb} fn vs_count_ones(self) -> (r: u32) {{ unimplemented!() }}
 open spec fn s_u64(a: {t}) -> u64 {{ {cast} }}
}}
impl VsNot for {t} {{ open spec fn s_not(a: {t}) -> {t} {{ !a }} {xb} fn vs_not(self) -> (r: {t}) {{ unimplemented!() }} }}""")
        if sg:
            o.append(f"impl VsNeg for {t} {{ {OPQ} open spec fn s_neg(a: {t}) -> {t} {{ {wrap('0 - a as int')} }} {xb} fn vs_neg(self) -> (r: {t}) {{ unimplemented!() }} }}")
    for f, u in (("F32v", "u32"), ("F64v", "u64")):
        o.append(f"""impl VsBytes for {f} {{ open spec fn sz() -> int {{ {BITS[u]//8} }} open spec fn s_from_be(b: Seq<u8>) -> {f} {{ {f} {{ bits: fb_{u}(b) }} }} open spec fn s_from_le(b: Seq<u8>) -> {f} {{ {f} {{ bits: fl_{u}(b) }} }} open spec fn s_to_be(self) -> Seq<u8> {{ tb_{u}(self.bits) }} open spec fn s_to_le(self) -> Seq<u8> {{ tl_{u}(self.bits) }}
 #[verifier::external_body] fn vs_size() -> (r: usize) {{ unimplemented!() }}
 #[verifier::external_body] fn vs_from_be(b: &VsV<u8>) -> (r: {f}) {{ unimplemented!() }} #[verifier::external_body] fn vs_from_le(b: &VsV<u8>) -> (r: {f}) {{ unimplemented!() }}
 #[verifier::external_body] fn vs_to_be_bytes(&self) -> (r: VsV<u8>) {{ unimplemented!() }} #[verifier::external_body] fn vs_to_le_bytes(&self) -> (r: VsV<u8>) {{ unimplemented!() }} }}""")
    return "\n".join(o)

# transforms: name -> [argument types]
XFS = {"xfa": [], "xfb": [], "xfk": ["u8"], "xfm": ["u32", "u8"], "gzip": [], "base64": []}

def xfs():
    o = []
    for n, a in XFS.items():
        pa = "".join(f", a{i}: {t}" for i, t in enumerate(a))
        ca = "".join(f"a{i}, " for i in range(len(a)))
        pb = "".join(f"a{i}: {t}, " for i, t in enumerate(a))
        o.append(f"""pub uninterp spec fn xd_{n}({pb}d: Seq<u8>, p: int) -> Seq<u8>; pub uninterp spec fn xp_{n}({pb}d: Seq<u8>, p: int, q: int) -> int; pub uninterp spec fn xe_{n}({pb}b: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn xr_{n}<'a>(r: &'a mut Rd{pa}) -> (t: &'a mut Rd) requires old(r).ok() ensures t.d@ == xd_{n}({ca}old(r).d@, old(r).p@), t.p@ == 0, t.ok(), final(r).d == old(r).d, final(r).p@ == xp_{n}({ca}old(r).d@, old(r).p@, final(t).p@), final(t).ok() ==> final(r).ok(), final(r).p@ >= old(r).p@ {{ unimplemented!() }}
#[verifier::external_body]
pub fn xw_{n}<'a, W: Sink>(w: &'a mut W{pa}) -> (t: &'a mut Wr) ensures t.o@ == Seq::<u8>::empty(), final(w).o() == old(w).o() + xe_{n}({ca}final(t).f@) {{ unimplemented!() }}""")
    return "\n".join(o)

# foreign types: name -> (value type, [argument types])
FTS = {"v8": ("i8", []), "v16": ("i16", []), "v32": ("i32", []), "v64": ("i64", []), "v128": ("i128", []),
       "utf8": ("VsStr", []), "utf8n": ("VsStr", ["u64"]), "utf16n": ("VsStr", ["u64"])}

UNS = {"i8": "u8", "i16": "u16", "i32": "u32", "i64": "u64", "i128": "u128"}
def leb(t):
    """LEB128 of the value's bits, least significant group first; at most as many bytes as the type has groups of seven"""
    u = UNS[t]; end = (BITS[t] + 6) // 7
    return f"""pub open spec fn leb_{t}(d: Seq<u8>, p: int, i: nat) -> Option<({t}, int)> {{ match leu_{t}(d, p, 0, 0) {{ None => None, Some((x, q)) => Some((x as {t}, q)) }} }}
pub open spec fn leu_{t}(d: Seq<u8>, p: int, i: {u}, acc: {u}) -> Option<({u}, int)> decreases {end} - i {{ if p >= d.len() || i >= {end} {{ None }} else {{
  let x = acc | (((d[p] as {u}) & 127) << ((i * 7) as {u})); if d[p] & 128 != 128 || i + 1 >= {end} {{ Some((x, p + 1)) }} else {{ leu_{t}(d, p + 1, (i + 1) as {u}, x) }} }} }}
pub open spec fn bel_{t}(x: {u}) -> Seq<u8> decreases x {{ if x >= 128 {{ seq![(x % 128 + 128) as u8] + bel_{t}(x / 128) }} else {{ seq![x as u8] }} }}"""

# strings: std's own notion of UTF-8 and UTF-16, as its bytes and code units
STR = """pub uninterp spec fn is8(b: Seq<u8>) -> bool; pub uninterp spec fn is16(b: Seq<u16>) -> bool; pub uninterp spec fn sof8(b: Seq<u8>) -> VsStr; pub uninterp spec fn sof16(b: Seq<u16>) -> VsStr;
pub uninterp spec fn sb(s: VsStr) -> Seq<u8>; pub uninterp spec fn su(s: VsStr) -> Seq<u16>;
pub open spec fn nul(d: Seq<u8>, p: int) -> int decreases d.len() - p { if p >= d.len() || d[p] == 0 { p } else { nul(d, p + 1) } }
pub open spec fn s8(b: Seq<u8>, q: int) -> Option<(VsStr, int)> { if is8(b) { Some((sof8(b), q)) } else { None } }
pub open spec fn s8z(d: Seq<u8>, p: int) -> Option<(VsStr, int)> { let q = nul(d, p); s8(d.subrange(p, q), if q < d.len() { q + 1 } else { q }) }
pub open spec fn s8n(n: u64, d: Seq<u8>, p: int) -> Option<(VsStr, int)> { if p + n <= d.len() { s8(d.subrange(p, p + n), p + n) } else { None } }
pub open spec fn s16n(n: u64, d: Seq<u8>, p: int) -> Option<(VsStr, int)> { if p + 2 * n <= d.len() { let u = chunks_be::<u16>(d.subrange(p, p + 2 * n)); if is16(u) { Some((sof16(u), p + 2 * n)) } else { None } } else { None } }
pub open spec fn units_be(u: Seq<u16>, i: int) -> Seq<u8> decreases u.len() - i { if i < 0 || i >= u.len() { Seq::empty() } else { u[i].s_to_be() + units_be(u, i + 1) } }
impl VsStr {
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == sb(*self).len() { unimplemented!() }
  #[verifier::external_body] pub fn as_bytes(&self) -> (r: &VsV<u8>) ensures r.s@ == sb(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn vs_from_utf8(t: VsV<u8>) -> (r: VsR<VsStr>) ensures r matches Ok(s) ==> is8(t.s@) && s == sof8(t.s@), r matches Err(e) ==> !is8(t.s@) { unimplemented!() }
#[verifier::external_body] pub fn vs_from_utf16(t: &VsV<u16>) -> (r: VsR<VsStr>) ensures r matches Ok(s) ==> is16(t.s@) && s == sof16(t.s@), r matches Err(e) ==> !is16(t.s@) { unimplemented!() }
#[verifier::external_body] pub fn vs_utf16(s: &VsStr) -> (r: VsV<u16>) ensures r.s@ == su(*s) { unimplemented!() }
#[verifier::external_body] pub fn vs_rep(b: u8, n: usize) -> (r: VsV<u8>) ensures r.s@ == Seq::new(n as nat, |i: int| b) { unimplemented!() }
impl Rd { #[verifier::external_body] pub fn read_until(&mut self, b: u8, buf: &mut VsV<u8>) -> (r: VsR<usize>) requires old(self).ok(), b == 0
   ensures final(self).d == old(self).d, final(self).ok(), r matches Err(e) ==> e.io@,
     r is Ok ==> ({ let q = nul(old(self).d@, old(self).p@); let e = if q < old(self).d@.len() { q + 1 } else { q }; final(self).p@ == e && final(buf).s@ == old(buf).s@ + old(self).d@.subrange(old(self).p@, e) }) { unimplemented!() } }
"""

def fts():
    o = [STR, "pub trait VsGet<T> { spec fn g(&self) -> T; }"]
    for v in sorted({v for v, _ in FTS.values()}):
        o.append(f"impl VsGet<{v}> for {v} {{ open spec fn g(&self) -> {v} {{ *self }} }} impl VsGet<{v}> for &{v} {{ open spec fn g(&self) -> {v} {{ **self }} }} impl VsGet<{v}> for &&{v} {{ open spec fn g(&self) -> {v} {{ ***self }} }}")
    for n, (v, a) in FTS.items():
        pa = "".join(f", a{i}: {t}" for i, t in enumerate(a))
        ca = "".join(f"a{i}, " for i in range(len(a)))
        pb = "".join(f"a{i}: {t}, " for i, t in enumerate(a))
        dec = {"v": f"leb_{v}(d, p, 0)" if n[0] == "v" else "", "utf8": "s8z(d, p)", "utf8n": "s8n(a0, d, p)", "utf16n": "s16n(a0, d, p)"}["v" if n[0] == "v" else n]
        enc = {"v": f"Some(bel_{v}(v as {UNS.get(v)}))" if n[0] == "v" else "", "utf8": "Some(sb(v) + seq![0u8])", "utf8n": "if sb(v).len() == a0 { Some(sb(v)) } else { None }", "utf16n": "if su(v).len() == a0 { Some(units_be(su(v), 0)) } else { None }"}["v" if n[0] == "v" else n]
        if n[0] == "v": o.append(leb(v))
        o.append(f"""#[verifier::opaque] pub open spec fn fd_{n}({pb}d: Seq<u8>, p: int) -> Option<({v}, int)> {{ {dec} }} #[verifier::opaque] pub open spec fn fe_{n}({pb}v: {v}) -> Option<Seq<u8>> {{ {enc} }}
#[verifier::external_body]
pub fn vs_fd_{n}(r: &mut Rd{pa}) -> (x: VsR<{v}>) requires old(r).ok() ensures final(r).d == old(r).d, final(r).ok(), x is Ok ==> final(r).p@ {'>' if n[0] == 'v' else '>='} old(r).p@, {'x is Ok && old(r).p@ < old(r).d@.len() ==> final(r).p@ > old(r).p@,' if n == 'utf8' else ''} x matches Ok(v) ==> fd_{n}({ca}old(r).d@, old(r).p@) == Some((v, final(r).p@)), x matches Err(e) ==> e.io@ || fd_{n}({ca}old(r).d@, old(r).p@) is None {{ unimplemented!() }}
#[verifier::external_body]
pub fn vs_fe_{n}<W: Sink, X: VsGet<{v}>>(w: &mut W, v: &X{pa}) -> (x: VsR<()>) ensures x is Ok ==> (fe_{n}({ca}v.g()) matches Some(b) && final(w).o() == old(w).o() + b), x matches Err(e) ==> e.io@ || fe_{n}({ca}v.g()) is None {{ unimplemented!() }}""")
    return "\n".join(o)

def text(opaque=True):
    lits = "".join(f"#[verifier::external_body] pub fn vs_lit{n}({', '.join(f'b{i}: u8' for i in range(n))}) -> (r: VsV<u8>) ensures r.s@ == seq![{', '.join(f'b{i}' for i in range(n))}] {{ unimplemented!() }}\n" for n in range(1, 9))
    return HEAD + lits + ints(opaque) + "\n" + xfs() + "\n" + fts() + "\n}\n"

if __name__ == "__main__":
    print(text() + "fn main() {}")
