"""Runs the code the compiler emits (as emitted, compiled by rustc) on concrete inputs and compares it with the
reference interpreter of ps.py. Used to replay failed obligations, and as the bounded stand-in."""
import os, random, resource, shutil, subprocess, sys, time
from ps import *

RUSTC = "1.90.0"
XF = r'''
pub mod xf {
  use std::io::{BufRead, Read, Write, Result};
  fn rotl(b: u8, k: u32) -> u8 { b.rotate_left(k % 8) }
  fn e(n: u8, m: u32, k: u8, b: u8, i: u64) -> u8 { match n { 0 => b ^ 0x5a, 1 => b.wrapping_add((i.wrapping_mul(7).wrapping_add(1)) as u8), 2 => rotl(b, k as u32), _ => (b ^ (m >> (8 * (i % 4))) as u8).wrapping_add(k) } }
  fn d(n: u8, m: u32, k: u8, b: u8, i: u64) -> u8 { match n { 0 => b ^ 0x5a, 1 => b.wrapping_sub((i.wrapping_mul(7).wrapping_add(1)) as u8), 2 => b.rotate_right((k % 8) as u32), _ => b.wrapping_sub(k) ^ (m >> (8 * (i % 4))) as u8 } }
  pub struct Rd<R> { r: R, n: u8, m: u32, k: u8, i: u64, one: [u8; 1], have: bool }
  // the encoder of xfb holds everything back until it is flushed
  pub struct Wr<W> { w: W, n: u8, m: u32, k: u8, i: u64, b: Vec<u8> }
  impl<R: Read> Read for Rd<R> { fn read(&mut self, b: &mut [u8]) -> Result<usize> {
      if b.is_empty() { return Ok(0) }
      if self.have { b[0] = self.one[0]; self.have = false; return Ok(1) }
      let l = self.r.read(b)?; for x in &mut b[..l] { *x = d(self.n, self.m, self.k, *x, self.i); self.i += 1; } Ok(l) } }
  impl<R: Read> BufRead for Rd<R> {
      fn fill_buf(&mut self) -> Result<&[u8]> { if !self.have { let mut b = [0u8]; if self.r.read(&mut b)? == 0 { return Ok(&[]) } self.one[0] = d(self.n, self.m, self.k, b[0], self.i); self.i += 1; self.have = true; } Ok(&self.one[..]) }
      fn consume(&mut self, a: usize) { if a > 0 { self.have = false; } } }
  impl<W: Write> Write for Wr<W> { fn write(&mut self, b: &[u8]) -> Result<usize> { for x in b { let y = e(self.n, self.m, self.k, *x, self.i); self.i += 1; if self.n == 1 { self.b.push(y) } else { self.w.write_all(&[y])? } } Ok(b.len()) } fn flush(&mut self) -> Result<()> { self.w.write_all(&self.b)?; self.b.clear(); self.w.flush() } }
  // hand over and accept at most three bytes at a time
  pub struct Sr<'a>(pub std::io::Cursor<&'a [u8]>);
  impl Read for Sr<'_> { fn read(&mut self, b: &mut [u8]) -> Result<usize> { let n = b.len().min(3); self.0.read(&mut b[..n]) } }
  impl BufRead for Sr<'_> { fn fill_buf(&mut self) -> Result<&[u8]> { self.0.fill_buf() } fn consume(&mut self, a: usize) { self.0.consume(a) } }
  pub struct Sw(pub Vec<u8>);
  impl Write for Sw { fn write(&mut self, b: &[u8]) -> Result<usize> { let n = b.len().min(3); self.0.extend_from_slice(&b[..n]); Ok(n) } fn flush(&mut self) -> Result<()> { Ok(()) } }
  fn r<R: Read>(r: R, n: u8, m: u32, k: u8) -> Rd<R> { Rd { r, n, m, k, i: 0, one: [0], have: false } }
  fn w<W: Write>(w: W, n: u8, m: u32, k: u8) -> Wr<W> { Wr { w, n, m, k, i: 0, b: vec![] } }
  pub fn xfa_rd<R: Read>(x: R) -> Rd<R> { r(x, 0, 0, 0) } pub fn xfa_wr<W: Write>(x: W) -> Wr<W> { w(x, 0, 0, 0) }
  pub fn xfb_rd<R: Read>(x: R) -> Rd<R> { r(x, 1, 0, 0) } pub fn xfb_wr<W: Write>(x: W) -> Wr<W> { w(x, 1, 0, 0) }
  pub fn xfk_rd<R: Read>(x: R, k: u8) -> Rd<R> { r(x, 2, 0, k) } pub fn xfk_wr<W: Write>(x: W, k: u8) -> Wr<W> { w(x, 2, 0, k) }
  pub fn xfm_rd<R: Read>(x: R, m: u32, k: u8) -> Rd<R> { r(x, 3, m, k) } pub fn xfm_wr<W: Write>(x: W, m: u32, k: u8) -> Wr<W> { w(x, 3, m, k) }
//@ASYNC@
}
'''
AXF = r'''
  use std::{pin::Pin, task::{Context, Poll, ready}};
  use tokio::io::{AsyncRead, AsyncBufRead, AsyncWrite, ReadBuf};
  pub struct ARd<R> { r: R, n: u8, m: u32, k: u8, i: u64, one: [u8; 1], have: bool }
  pub struct AWr<W> { w: W, n: u8, m: u32, k: u8, i: u64, b: Vec<u8> }
  impl<R: AsyncRead + Unpin> AsyncRead for ARd<R> { fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<Result<()>> {
      if b.remaining() == 0 { return Poll::Ready(Ok(())) }
      if self.have { self.have = false; let o = self.one; b.put_slice(&o); return Poll::Ready(Ok(())) }
      let at = b.filled().len(); let me = &mut *self;
      ready!(Pin::new(&mut me.r).poll_read(cx, b))?;
      for x in &mut b.filled_mut()[at..] { *x = d(me.n, me.m, me.k, *x, me.i); me.i += 1; }
      Poll::Ready(Ok(())) } }
  impl<R: AsyncRead + Unpin> AsyncBufRead for ARd<R> {
      fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<&[u8]>> { let me = self.get_mut(); if !me.have { let mut t = [0u8]; let mut b = ReadBuf::new(&mut t); ready!(Pin::new(&mut me.r).poll_read(cx, &mut b))?; if b.filled().is_empty() { return Poll::Ready(Ok(&[])) } let v = b.filled()[0]; me.one[0] = d(me.n, me.m, me.k, v, me.i); me.i += 1; me.have = true; } Poll::Ready(Ok(&me.one[..])) }
      fn consume(mut self: Pin<&mut Self>, a: usize) { if a > 0 { self.have = false; } } }
  impl<W: AsyncWrite + Unpin> AsyncWrite for AWr<W> {
      fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> { let me = self.get_mut(); if b.is_empty() { return Poll::Ready(Ok(0)) } if me.n == 1 { me.b.push(e(me.n, me.m, me.k, b[0], me.i)); me.i += 1; return Poll::Ready(Ok(1)) } let l = ready!(Pin::new(&mut me.w).poll_write(cx, &[e(me.n, me.m, me.k, b[0], me.i)]))?; me.i += l as u64; Poll::Ready(Ok(l)) }
      fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> { let me = self.get_mut(); while !me.b.is_empty() { let l = ready!(Pin::new(&mut me.w).poll_write(cx, &me.b[..]))?; me.b.drain(..l); } Pin::new(&mut me.w).poll_flush(cx) }
      fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> { Pin::new(&mut self.get_mut().w).poll_shutdown(cx) } }
  fn ar<R>(r: R, n: u8, m: u32, k: u8) -> ARd<R> { ARd { r, n, m, k, i: 0, one: [0], have: false } }
  fn aw<W>(w: W, n: u8, m: u32, k: u8) -> AWr<W> { AWr { w, n, m, k, i: 0, b: vec![] } }
  pub fn xfa_ard<R>(x: R) -> ARd<R> { ar(x, 0, 0, 0) } pub fn xfa_awr<W>(x: W) -> AWr<W> { aw(x, 0, 0, 0) }
  pub fn xfb_ard<R>(x: R) -> ARd<R> { ar(x, 1, 0, 0) } pub fn xfb_awr<W>(x: W) -> AWr<W> { aw(x, 1, 0, 0) }
  pub fn xfk_ard<R>(x: R, k: u8) -> ARd<R> { ar(x, 2, 0, k) } pub fn xfk_awr<W>(x: W, k: u8) -> AWr<W> { aw(x, 2, 0, k) }
  pub fn xfm_ard<R>(x: R, m: u32, k: u8) -> ARd<R> { ar(x, 3, m, k) } pub fn xfm_awr<W>(x: W, m: u32, k: u8) -> AWr<W> { aw(x, 3, m, k) }
  impl AsyncRead for Sr<'_> { fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<Result<()>> { let n = b.remaining().min(3); let mut t = [0u8; 3]; let l = std::io::Read::read(&mut self.0, &mut t[..n])?; b.put_slice(&t[..l]); Poll::Ready(Ok(())) } }
  impl AsyncBufRead for Sr<'_> { fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<&[u8]>> { Poll::Ready(std::io::BufRead::fill_buf(&mut self.get_mut().0)) } fn consume(mut self: Pin<&mut Self>, a: usize) { std::io::BufRead::consume(&mut self.0, a) } }
  impl AsyncWrite for Sw { fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> { let n = b.len().min(3); self.0.extend_from_slice(&b[..n]); Poll::Ready(Ok(n)) } fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> { Poll::Ready(Ok(())) } fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> { Poll::Ready(Ok(())) } }
  pub fn block<F: std::future::Future>(f: F) -> F::Output { let mut f = std::pin::pin!(f); let mut cx = Context::from_waker(std::task::Waker::noop()); loop { if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x } } }
'''
# a heap that refuses to hold more than so many bytes
HEAP = r'''
struct Heap; static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Heap {
  unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { if LIVE.fetch_add(l.size(), std::sync::atomic::Ordering::Relaxed).saturating_add(l.size()) > LIMIT { LIVE.fetch_sub(l.size(), std::sync::atomic::Ordering::Relaxed); return std::ptr::null_mut() } unsafe { std::alloc::System.alloc(l) } }
  unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(l.size(), std::sync::atomic::Ordering::Relaxed); unsafe { std::alloc::System.dealloc(p, l) } }
}
#[global_allocator] static HEAP: Heap = Heap;
'''
HEAD = r'''#![allow(warnings)]
use std::io::{BufRead, Read, Write};
pub struct Tk<'a> { it: std::str::SplitWhitespace<'a> }
impl<'a> Tk<'a> { fn n(&mut self) -> &'a str { self.it.next().expect("token") } }
pub trait V: Sized { fn sh(&self, o: &mut String); fn bd(t: &mut Tk) -> Self; }
macro_rules! int { ($($t:ty)*) => { $(impl V for $t { fn sh(&self, o: &mut String) { o.push_str(&format!("{} ", self)) } fn bd(t: &mut Tk) -> Self { t.n().parse().unwrap() } })* } }
int!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128);
impl V for bool { fn sh(&self, o: &mut String) { o.push_str(if *self { "1 " } else { "0 " }) } fn bd(t: &mut Tk) -> Self { t.n() == "1" } }
impl V for f32 { fn sh(&self, o: &mut String) { self.to_bits().sh(o) } fn bd(t: &mut Tk) -> Self { f32::from_bits(u32::bd(t)) } }
impl V for f64 { fn sh(&self, o: &mut String) { self.to_bits().sh(o) } fn bd(t: &mut Tk) -> Self { f64::from_bits(u64::bd(t)) } }
pub fn hex(b: &[u8]) -> String { let mut s = String::from("x"); for x in b { s.push_str(&format!("{:02x}", x)) } s }
pub fn unhex(s: &str) -> Vec<u8> { (0..(s.len() - 1) / 2).map(|i| u8::from_str_radix(&s[1 + 2 * i..3 + 2 * i], 16).unwrap()).collect() }
impl V for String { fn sh(&self, o: &mut String) { o.push_str(&hex(self.as_bytes())); o.push(' ') } fn bd(t: &mut Tk) -> Self { String::from_utf8(unhex(t.n())).unwrap() } }
impl<T: V> V for Vec<T> { fn sh(&self, o: &mut String) { o.push_str(&format!("[{} ", self.len())); for x in self { x.sh(o) } } fn bd(t: &mut Tk) -> Self { let n: usize = t.n()[1..].parse().unwrap(); (0..n).map(|_| T::bd(t)).collect() } }
impl<T: V> V for Option<T> { fn sh(&self, o: &mut String) { match self { None => o.push_str("N "), Some(x) => { o.push_str("S "); x.sh(o) } } } fn bd(t: &mut Tk) -> Self { match t.n() { "N" => None, _ => Some(T::bd(t)) } } }
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let inp = std::io::stdin(); let out = std::io::stdout();
  for l in inp.lock().lines() {
    let l = l.unwrap();
    let r = std::panic::catch_unwind(|| { let mut t = Tk { it: l.split_whitespace() }; run(&mut t) });
    let s = match r { Ok(s) => s, Err(p) => format!("P {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default().replace('\n', " ")) };
    let mut o = out.lock(); writeln!(o, "{}", s.trim_end()).unwrap(); o.flush().unwrap();
  }
}
'''

KW = {"type", "match", "move", "ref", "loop", "in", "fn", "use", "mod", "impl", "where", "let", "mut", "pub", "static", "struct", "trait", "unsafe", "while", "for", "if", "else", "break", "continue", "return", "dyn", "async", "await", "box", "do", "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield", "abstract", "become", "as", "const", "enum", "extern"}
def idn(n): return "r#" + n if n in KW else n

def rty(t):
    if isinstance(t, (Sc, Fl)): return t.t
    if isinstance(t, Bo): return "bool"
    if isinstance(t, Ref): return "S::" + t.name
    if isinstance(t, Fo): return {"str": "String"}.get(FTV[t.name], FTV[t.name])
    if isinstance(t, Arr): return f"Vec<{rty(t.el)}>"
    raise Exception(t)

def impls(P):
    o = []
    for d in P.all():
        n = d.name
        if isinstance(d, Cn): continue
        if isinstance(d, En):
            sh = "".join(f'S::{n}::{k} => o_.push_str("{k} "), ' for k, _ in d.vals()) + (f'S::{n}::{d.default}(x) => {{ o_.push_str("{d.default} "); x.sh(o_) }}' if d.default else "")
            bd = "".join(f'"{k}" => S::{n}::{k}, ' for k, _ in d.vals()) + (f'"{d.default}" => S::{n}::{d.default}(V::bd(t_)), ' if d.default else "") + "_ => panic!()"
            o.append(f"impl V for S::{n} {{ fn sh(&self, o_: &mut String) {{ match self {{ {sh} }} }} fn bd(t_: &mut Tk) -> Self {{ match t_.n() {{ {bd} }} }} }}")
        elif isinstance(d, Bf) or not isinstance(d.ty, Co):
            o.append(f"impl V for S::{n} {{ fn sh(&self, o_: &mut String) {{ self.0.sh(o_) }} fn bd(t_: &mut Tk) -> Self {{ S::{n}(V::bd(t_)) }} }}")
        elif d.ty.tagged:
            sh = bd = ""
            for f in d.ty.fields:
                if isinstance(f.ty, Co):
                    ls = [idn(x) for x, _ in flat(f)]
                    sh += f'S::{n}::{idn(f.name)} {{ {", ".join(ls)} }} => {{ o_.push_str("{f.name} "); {"".join(x + ".sh(o_); " for x in ls)} }} '
                    bd += f'"{f.name}" => {{ {"".join(f"let {x} = V::bd(t_); " for x in ls)} S::{n}::{idn(f.name)} {{ {", ".join(ls)} }} }} '
                else:
                    sh += f'S::{n}::{idn(f.name)}(x) => {{ o_.push_str("{f.name} "); x.sh(o_) }} '
                    bd += f'"{f.name}" => S::{n}::{idn(f.name)}(V::bd(t_)), '
            o.append(f"impl V for S::{n} {{ fn sh(&self, o_: &mut String) {{ match self {{ {sh} }} }} fn bd(t_: &mut Tk) -> Self {{ match t_.n() {{ {bd} _ => panic!() }} }} }}")
        else:
            ls = [idn(x) for x, _, _ in leaves(d.ty)]
            o.append(f"impl V for S::{n} {{ fn sh(&self, o_: &mut String) {{ {''.join(f'self.{x}.sh(o_); ' for x in ls)} }} fn bd(t_: &mut Tk) -> Self {{ {''.join(f'let {x} = V::bd(t_); ' for x in ls)} S::{n} {{ {', '.join(ls)} }} }} }}")
    return "\n".join(o)

def runner(P):
    o = []
    for d in P.all():
        n = d.name
        if isinstance(d, Cn): continue
        a = d.args if isinstance(d, Ty) else []
        la = "".join(f"let a{i}: {'Option<%s>' % rty(t) if df else rty(t)} = V::bd(t); " for i, (_, t, df) in enumerate(a))
        ca = "".join(f", a{i}" for i in range(len(a)))
        dec = lambda rd: f"S::{n}::decode_sync({rd}{ca})"
        ok = 'Ok(v) => { let mut o = format!("O {} ", %s); V::sh(&v, &mut o); o } Err(_) => "E".to_string()'
        o.append(f'''("D", "{n}") => {{ {la} let d = unhex(t.n()); let mut c = crate::xf::Sr(std::io::Cursor::new(&d[..])); match {dec("&mut c")} {{ {ok % "c.0.position()"} }} }}
("B", "{n}") => {{ {la} let d = unhex(t.n()); let c = std::io::Cursor::new(&d[..]); let mut c = std::io::BufReader::with_capacity(16, c); match {dec("&mut c")} {{ {ok % "c.stream_position_()"} }} }}
("X", "{n}") => {{ {la} let v = <S::{n} as V>::bd(t); let mut o = crate::xf::Sw(Vec::new()); match v.encode_sync(&mut o{ca}) {{ Ok(()) => format!("O {{}}", hex(&o.0)), Err(_) => "E".to_string() }} }}''')
        if isinstance(d, Bf):
            fl = "".join(f"V::sh(&v.{idn(k)}(), &mut o); {{ let mut u = v; u.set_{k}(); V::sh(&u.0, &mut o); }} " for k, _ in d.items)
            o.append(f'''("G", "{n}") => {{ let v = <S::{n} as V>::bd(t); let w = <S::{n} as V>::bd(t); let mut o = "O ".to_string(); {fl} {{ let (mut a, mut b, mut c) = (v, v, v); a |= w; b &= w; c ^= w; for x in [v | w, v & w, v ^ w, !v, a, b, c, S::{n}::ALL, S::{n}::ZERO, S::{n}::default()] {{ V::sh(&x.0, &mut o); }} }} V::sh(&(v == w), &mut o); o }}''')
        if P.asy:
            o.append(f'''("AD", "{n}") => {{ {la} let d = unhex(t.n()); let mut c = crate::xf::Sr(std::io::Cursor::new(&d[..])); match crate::xf::block(S::{n}::decode_async(&mut c{ca})) {{ {ok % "c.0.position()"} }} }}
("AB", "{n}") => {{ {la} let d = unhex(t.n()); let c = std::io::Cursor::new(&d[..]); let mut c = tokio::io::BufReader::with_capacity(16, c); match crate::xf::block(S::{n}::decode_async(&mut c{ca})) {{ {ok % "c.get_ref().position() - c.buffer().len() as u64"} }} }}
("AX", "{n}") => {{ {la} let v = <S::{n} as V>::bd(t); let mut o = crate::xf::Sw(Vec::new()); match crate::xf::block(v.encode_async(&mut o{ca})) {{ Ok(()) => format!("O {{}}", hex(&o.0)), Err(_) => "E".to_string() }} }}''')
    return "\n".join(o).replace("c.stream_position_()", "c.get_ref().position() - c.buffer().len() as u64")

def source(progs, codes):
    asy = any(p.asy for p in progs)
    o = [HEAD] + [HEAP.replace("LIMIT", str(max(p.hostile for p in progs)))] * any(p.hostile for p in progs) + [XF.replace("//@ASYNC@", AXF if asy else "")]
    arms = ""
    for p in progs:
        o.append(f"mod g_{p.name} {{ {codes[p.name]} }}\nmod r_{p.name} {{ use super::V; use super::Tk; use super::{{hex, unhex}}; use super::g_{p.name} as S; use std::io::*;\n{impls(p)}\npub fn run(k: &str, ty: &str, t: &mut Tk) -> std::string::String {{ match (k, ty) {{ {runner(p)}\n _ => panic!(\"command\") }} }} }}")
        arms += f'"{p.name}" => r_{p.name}::run(k, ty, t), '
    o.append(f"fn run(t: &mut Tk) -> String {{ let k = t.n(); let p = t.n(); let ty = t.n(); match p {{ {arms} _ => panic!(\"program\") }} }}")
    return "\n".join(o)

# ------------------------------------------------------------------ values as text
def show(P, t, v):
    if isinstance(t, (Sc, Fl)): return [str(v)]
    if isinstance(t, Bo): return ["1" if v else "0"]
    if isinstance(t, Fo): return ["x" + v.encode().hex()] if FTV[t.name] == "str" else [str(v)]
    if isinstance(t, Arr): return [f"[{len(v)}"] + [y for x in v for y in show(P, t.el, x)]
    return show_top(P, t.name, v)
def opt(P, f, op, v): return (["N"] if v is None else ["S"] + show(P, f.ty, v)) if op else show(P, f.ty, v)
def show_top(P, name, v):
    d = P[name]
    if isinstance(d, En): return [v[0]] + ([] if v[1] is None else [str(v[1])])
    if isinstance(d, Bf): return [str(v)]
    if not isinstance(d.ty, Co): return (['S'] + show(P, d.ty, v[0]) if v else ['N']) if d.cond is not None else show(P, d.ty, v)
    if d.ty.tagged:
        f = [f for f in d.ty.fields if f.name == v[0]][0]
        if isinstance(f.ty, Co): return [v[0]] + [y for n, g, op in leaves(f.ty) for y in opt(P, g, op, v[1][n])]
        return [v[0]] + show(P, f.ty, v[1])
    return [y for n, f, op in leaves(d.ty) for y in opt(P, f, op, v[n])]
def show_args(P, d, args):
    o = []
    for i, (n, t, df) in enumerate(d.args if isinstance(d, Ty) else []):
        a = args[i]
        if df is not None: o += ["N"] if a is None else ["S"] + show(P, t, a)
        else: o += show(P, t, a)
    return o

# ------------------------------------------------------------------ random values
class Retry(Exception): pass
class GenV(Interp):
    """random values whose lengths and conditions are consistent"""
    def __init__(s, prog, rnd):
        super().__init__(prog); s.r = rnd; s.opt = False; s.holes = 0; s.dict = sorted(consts(prog))
    def num(s, t):
        lo, hi = rng(t); r = s.r
        k = r.random()
        if k < .45: v = r.choice([0, 1, 2, 3, 4, 5])
        elif k < .65 and s.dict: v = r.choice(s.dict) + r.choice([0, 0, 0, 1, -1])
        elif k < .69: v = (1 << r.choice([8, 16, 31, 32, 48, 63])) + r.randrange(0, 9)
        elif k < .8: v = r.choice([lo, hi, hi - 1, lo + 1, hi >> 1, 127, 128, 255, 256, 0x4000, 0x3fff])
        else: v = r.getrandbits(r.randrange(1, BITS[t] + 1))
        return wrapi(t, v)
    def d_int(s, t, st): return s.num(t.t)
    def tfs(s, tf, st, env, go): return go(st)
    def lim(s, co, st, env, go):
        return go(st)
    def d_tag(s, d, st, env):
        for f in d.ty.fields:
            if f.cond is not None and not f.cond.ev(env): continue
            e2 = dict(env); return (f.name, s.d_fields(f.ty, st, e2) if isinstance(f.ty, Co) else s.d_ty(f.ty, st, e2))
        f = s.r.choice(d.ty.fields); e2 = dict(env)
        return (f.name, s.d_fields(f.ty, st, e2) if isinstance(f.ty, Co) else s.d_ty(f.ty, st, e2))
    def d_fields(s, co, st, env):
        out = {}
        for f in co.fields:
            if f.pad is not None: continue
            if f.cond is not None and not f.cond.ev(env) and s.r.random() > .06:
                for n, _ in flat(f): out[n] = env[n] = None
                continue
            # sometimes a value the condition excludes, or none where it requires one
            was = s.opt; s.opt = was or f.cond is not None
            if isinstance(f.ty, Co): out.update(s.d_fields(f.ty, st, env))
            elif s.opt and s.r.random() < .02: s.holes += 1; out[f.name] = env[f.name] = None
            else: out[f.name] = env[f.name] = s.d_ty(f.ty, st, env)
            s.opt = was
        return out
    def d_top(s, name, st, args):
        d = s.P[name]
        if isinstance(d, En):
            if s.r.random() < .85 or not d.default: return (s.r.choice(d.vals())[0], None)
            try: return en_of(d, s.num(d.rep.t))
            except DecErr: return (d.vals()[0][0], None)
        if isinstance(d, Bf): return s.num(d.rep.t) & d.mask() if s.r.random() < .9 else wrapi(d.rep.t, s.num(d.rep.t))
        env = s.bind(d, args); was = s.opt; s.opt = False
        try:
            if isinstance(d.ty, Co): return s.d_tag(d, st, env) if d.ty.tagged else s.d_fields(d.ty, st, env)
            if d.cond is not None and s.r.random() > .06 and not d.cond.ev(env) or d.cond is not None and s.r.random() < .02: return ()
            return s.d_ty(d.ty, st, env) if d.cond is None else (s.d_ty(d.ty, st, env),)
        finally: s.opt = was
    def d_ty(s, t, st, env):
        if isinstance(t, Fl): return s.r.choice([0, 1 << (8 * width(t) - 1), s.r.getrandbits(8 * width(t)), 0x3f800000])
        if isinstance(t, Bo): return s.r.random() < .6
        if isinstance(t, Fo):
            a = [x.ev(env) for x in t.args]
            if t.name[0] == "v": return s.num(FTV[t.name])
            al = "abz \u00e9\u20ac" if not a and t.name == "utf8" else "ab"
            n = a[0] if a else s.r.choice([0, 1, 2, 5])
            if n > 40: raise Retry()
            if a and s.r.random() < .1: n += 1
            return "".join(s.r.choice(al) for _ in range(n))
        if isinstance(t, Arr):
            if t.n is not None:
                n = t.n.ev(env)
                if n > 40: raise Retry()
                if s.r.random() < .04: n += s.r.choice([1, 2])
            else: n = s.r.choice([0, 1, 2, 3])
            return [s.d_ty(t.el, st, env) for _ in range(n)]
        return super().d_ty(t, st, env)
    def fill(s, d, v):
        """values for calculated fields are ignored by encode"""
        return v

def consts(prog):
    o = set()
    def ex(e):
        if isinstance(e, (I, Cr)): o.add(e.v)
        for c in e.kids(): ex(c)
    def te(t):
        if isinstance(t, Arr): te(t.el); t.n is not None and ex(t.n)
        if isinstance(t, (Ref, Fo)): [ex(a) for a in t.args]
        if isinstance(t, Co):
            t.n is not None and ex(t.n)
            for f in t.fields:
                for e in (f.cond, f.calc, f.pad): e is not None and ex(e)
                f.ty is not None and te(f.ty)
                for x in f.tf: [ex(a) for a in x.args]; x.cond is not None and ex(x.cond)
    for d in prog.all():
        if isinstance(d, (En, Bf)): o.update(v for _, v in d.vals())
        elif isinstance(d, Ty):
            te(d.ty); d.cond is not None and ex(d.cond)
            for x in d.tf: [ex(a) for a in x.args]; x.cond is not None and ex(x.cond)
    return o

def terms(prog):
    o = []
    def te(t):
        if isinstance(t, Arr):
            te(t.el)
            if t.term is not None: o.append(t.term)
        if isinstance(t, Co): [te(f.ty) for f in t.fields if f.ty is not None]
    for d in prog.all():
        if isinstance(d, Ty): te(d.ty)
    return o

def arrt(name): return name

def cases(prog, seed, n):
    """[(command line, expected line | None when the reference makes no prediction, description)]"""
    r = random.Random(f"{seed}/{prog.name}"); it = Interp(prog); g = GenV(prog, r); out = []
    tm = terms(prog); ks = sorted(consts(prog))
    asy = ["", "A"] if prog.asy else [""]
    tops = [d for d in prog.all() if not isinstance(d, Cn)]
    def args(d):
        a = []
        for nm, t, df in (d.args if isinstance(d, Ty) else []):
            if df is not None and r.random() < .4: a.append(None)
            else: a.append(r.random() < .5 if isinstance(t, Bo) else g.num(t.t) if isinstance(t, Sc) else g.d_top(t.name, None, []) if isinstance(t, Ref) else r.getrandbits(32))
        return a
    def dec(d, a, data, kind="D"):
        try:
            v, p = it.decode(d.name, data, a); e = " ".join(["O", str(p)] + show_top(prog.root, d.name, v))
        except DecErr: e = "E"
        except (Unspec, RecursionError): return
        for k in asy: out.append((" ".join([k + kind, prog.name, d.name] + show_args(prog.root, d, a) + ["x" + data.hex()]), e, None))
    def enc(d, a, v):
        try: b = it.encode(d.name, v, a)
        except EncErr: b = None
        except (Unspec, OverflowError): return None
        except TypeError:
            if g.holes: return None      # an expression over a value that is missing
            raise
        e = "E" if b is None else "O x" + b.hex()
        for k in asy: out.append((" ".join([k + "X", prog.name, d.name] + show_args(prog.root, d, a) + show_top(prog.root, d.name, v)), e, None))
        return b
    for nm, a, data in prog.pin:
        if isinstance(data, (bytes, bytearray)): dec(prog.root[nm], a, bytes(data))
        else: enc(prog.root[nm], a, data)
    # bytes that look like the program's data
    def rb(m):
        o = b""
        while len(o) < m:
            k = r.random()
            if k < .4: o += bytes([r.choice([0, 0, 1, 1, 2, 3, 4])])
            elif k < .6 and ks: x = r.choice(ks); o += (x & 255).to_bytes(1, "big") if r.random() < .7 else (x & 0xffff).to_bytes(2, r.choice(["big", "little"]))
            elif k < .7 and tm: o += r.choice(tm)
            else: o += bytes([r.randrange(256)])
        return o
    for d in tops:
        if isinstance(d, Bf):
            M = (1 << BITS[d.rep.t]) - 1
            for i in range(12):
                v, w = (g.d_top(d.name, None, []) & (M if i % 2 else d.mask()) for _ in "vw"); e = ["O"]
                if i % 3 == 0: w = v
                wr = lambda x: wrapi(d.rep.t, x)
                v, w = wr(v), wr(w)
                for _, m in d.vals(): e += ["1" if v & m else "0", str(wr(v | m))]
                e += [str(x) for x in (wr(y) for y in (v | w, v & w, v ^ w, ~v, v | w, v & w, v ^ w, d.mask(), 0, 0))] + ["1" if v == w else "0"]
                out.append((f"G {prog.name} {d.name} {v} {w}", " ".join(e), None))
        big = isinstance(d, Ty) and isinstance(d.ty, Co)
        k = n if big else max(8, n // 4)
        for i in range(k):
            a = args(d); b = None
            g.holes = 0
            try: v = g.d_top(d.name, None, a); b = enc(d, a, v)
            except (Retry, Unspec, DecErr, ValueError, RecursionError): pass
            except TypeError:
                if not g.holes: raise
            if b is not None and len(b) < 4096:
                kind = "B" if i % 5 == 4 and not any(len(x) > 1 for x in tm) else "D"
                dec(d, a, b, kind)
                if i % 3 == 0: dec(d, a, b + rb(r.randrange(1, 4)))
                if i % 3 == 1 and b: dec(d, a, b[:r.randrange(len(b))])
                if i % 3 == 2 and b:
                    c = bytearray(b); c[r.randrange(len(c))] = r.choice([0, 1, 2, 255, 128, r.randrange(256)]); dec(d, a, bytes(c))
            if prog.hostile:
                for j in range(4):
                    c = bytearray(b or rb(r.randrange(1, 24))); w = r.choice([1, 1, 2, 4, 8]); at = r.randrange(max(1, len(c)))
                    if len(c) < 4096: c[at:at + w] = r.choice([b"\xff" * w, b"\x7f" + b"\xff" * (w - 1), b"\x80" + bytes(w - 1), bytes(w), b"\xff" * (w - 1) + b"\x7f", bytes(w - 1) + b"\x01", b"\x01" + bytes(w - 1), bytes(w // 2) + b"\x10" + bytes(w // 2)]); dec(d, a, bytes(c))
            if i % 2: dec(d, a, rb(r.choice([0, 1, 2, 3, 5, 8, 12, 20, 40])))
    return out

# ------------------------------------------------------------------ building and running
def lims(): resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
def build(progs, codes, d):
    """-> (path of the program | None, rustc messages)"""
    os.makedirs(d + "/src", exist_ok=True)
    open(d + "/src/main.rs", "w").write(source(progs, codes))
    fl = ["--edition", "2021", "-C", "overflow-checks=off", "-C", "debug-assertions=off", "-C", "opt-level=0", "-C", "debuginfo=0", "--cap-lints", "allow"]
    deps = ("flate2" in "".join(codes[p.name] for p in progs)) or any(p.asy for p in progs)
    if not deps:
        r = subprocess.run(["rustc", "+" + RUSTC] + fl + ["-o", d + "/drv", d + "/src/main.rs"], capture_output=True, text=True)
        return (d + "/drv" if r.returncode == 0 else None), r.stderr
    open(d + "/Cargo.toml", "w").write('[package]\nname = "drv"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nflate2 = "1"\ntokio = { version = "1", features = ["io-util"] }\n[workspace]\n[profile.dev]\noverflow-checks = false\ndebug-assertions = false\ndebug = 0\n')
    env = dict(os.environ, RUSTFLAGS="--cap-lints allow", CARGO_INCREMENTAL="0")
    r = subprocess.run(["cargo", "+" + RUSTC, "build", "--offline", "-q", "--target-dir", os.path.join(os.path.dirname(d), "dep_target_" + os.path.basename(d))], cwd=d, capture_output=True, text=True, env=env)
    exe = os.path.join(os.path.dirname(d), "dep_target_" + os.path.basename(d), "debug", "drv")
    return (exe if r.returncode == 0 else None), r.stderr

def run(exe, lines, timeout=6.0):
    """one answer per line; H for a line that does not come back"""
    out = []; i = 0
    while i < len(lines):
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=lims)
        try:
            o, _ = p.communicate("\n".join(lines[i:]) + "\n", timeout=timeout + (len(lines) - i) * 0.002)
            got = o.splitlines(); out += got; i += len(got)
            if i < len(lines): out.append("C crashed"); i += 1
        except subprocess.TimeoutExpired as e:
            p.kill(); o, _ = p.communicate()
            o = (o or "") if isinstance(o, str) else (o or b"").decode()
            got = o.splitlines(); out += got; i += len(got)
            if i < len(lines): out.append("H no answer"); i += 1
            if out.count("H no answer") > 3: out += ["-"] * (len(lines) - i); break
    return out
