"""Lemmas over the definitions that the contracts use: scalars keep their value through their bytes, in either order."""
from prelude import *
def scalars():
    o = ["""pub proof fn be_len(x: nat, n: nat) ensures be_bytes(x, n).len() == n, le_bytes(x, n).len() == n decreases n { if n > 0 { be_len(x / 256, (n - 1) as nat); } }
pub open spec fn p256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * p256((n - 1) as nat) } }
pub proof fn be_round(x: nat, n: nat) requires x < p256(n) ensures be_val(be_bytes(x, n)) == x decreases n {
  if n > 0 { let y = be_bytes(x / 256, (n - 1) as nat); assert(x / 256 < p256((n - 1) as nat)) by(nonlinear_arith) requires x < 256 * p256((n - 1) as nat); be_round(x / 256, (n - 1) as nat); assert(y.push((x % 256) as u8).drop_last() =~= y); } }
pub proof fn le_round(x: nat, n: nat) requires x < p256(n) ensures le_val(le_bytes(x, n)) == x decreases n {
  if n > 0 { let y = le_bytes(x / 256, (n - 1) as nat); assert(x / 256 < p256((n - 1) as nat)) by(nonlinear_arith) requires x < 256 * p256((n - 1) as nat); le_round(x / 256, (n - 1) as nat); assert((seq![(x % 256) as u8] + y).drop_first() =~= y); } }
pub proof fn be_back(b: Seq<u8>) ensures be_bytes(be_val(b), b.len()) == b, be_val(b) < p256(b.len()) decreases b.len() {
  if b.len() > 0 { be_back(b.drop_last()); assert(be_bytes(be_val(b), b.len()) =~= b); } else { assert(be_bytes(be_val(b), b.len()) =~= b); } }
pub proof fn le_back(b: Seq<u8>) ensures le_bytes(le_val(b), b.len()) == b, le_val(b) < p256(b.len()) decreases b.len() {
  if b.len() > 0 { le_back(b.drop_first()); assert(le_bytes(le_val(b), b.len()) =~= b); } else { assert(le_bytes(le_val(b), b.len()) =~= b); } }
/// the two orders are each other's reverse
pub proof fn rev(x: nat, n: nat) ensures le_bytes(x, n) =~= be_bytes(x, n).reverse() decreases n { be_len(x, n); if n > 0 { rev(x / 256, (n - 1) as nat); be_len(x / 256, (n - 1) as nat); } }
"""]
    for t in INTS:
        if t == "usize": continue
        n = BITS[t] // 8; z = 1 << BITS[t]; z = str(z) if BITS[t] < 128 else "0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000"
        un = f"(if (x as int) < 0 {{ x as int + {z} }} else {{ x as int }}) as nat" if t[0] == "i" else "x as nat"
        fuel = f"reveal_with_fuel(p256, {n + 1}); assert(p256({n}) == {z}) by(compute);"
        o.append(f"""pub proof fn trip_{t}(x: {t}) ensures fb_{t}(tb_{t}(x)) == x, fl_{t}(tl_{t}(x)) == x, tb_{t}(x).len() == <{t} as VsBytes>::sz(), tl_{t}(x).len() == <{t} as VsBytes>::sz() {{
 reveal(fb_{t}); reveal(fl_{t}); reveal(tb_{t}); reveal(tl_{t}); let u = {un}; assert(p256({n}) == {z}) by(compute); be_len(u, {n}); be_round(u, {n}); le_round(u, {n}); }}
pub proof fn back_{t}(b: Seq<u8>) requires b.len() == <{t} as VsBytes>::sz() ensures tb_{t}(fb_{t}(b)) == b, tl_{t}(fl_{t}(b)) == b {{
 reveal(fb_{t}); reveal(fl_{t}); reveal(tb_{t}); reveal(tl_{t}); assert(p256({n}) == {z}) by(compute); be_back(b); le_back(b); }}
""")
    return "".join(o)

def leb128():
    """what an encoder of a variable length integer writes decodes to the same value and is consumed entirely"""
    o = []
    for t, u in UNS.items():
        n = BITS[t]; end = (n + 6) // 7
        o.append(f"""pub proof fn low_{t}(x: {u}) ensures ((((x % 128 + 128) as u8) as {u}) & 127) == x % 128, ((x % 128 + 128) as u8) & 128 == 128, x < 128 ==> ((x as u8) as {u}) & 127 == x && (x as u8) & 128 != 128 {{
  assert(((add(x % 128, 128) as u8) as {u}) & 127 == x % 128 && (add(x % 128, 128) as u8) & 128 == 128) by(bit_vector); assert(x < 128 ==> ((x as u8) as {u}) & 127 == x && (x as u8) & 128 != 128) by(bit_vector); }}
pub proof fn bel_len_{t}(x: {u}) ensures bel_{t}(x).len() >= 1 decreases x {{ if x >= 128 {{ bel_len_{t}(x / 128); }} }}
pub proof fn round_{t}(d: Seq<u8>, p: int, i: {u}, acc: {u}, x: {u})
  requires i < {end}, (x << ((i * 7) as {u})) >> ((i * 7) as {u}) == x, 0 <= p, p + bel_{t}(x).len() <= d.len(), d.subrange(p, p + bel_{t}(x).len()) == bel_{t}(x)
  ensures leu_{t}(d, p, i, acc) == Some((acc | (x << ((i * 7) as {u})), p + bel_{t}(x).len())) decreases x
{{
  low_{t}(x); bel_len_{t}(x); let b = bel_{t}(x); assert(d[p] == d.subrange(p, p + b.len())[0]);
  if x >= 128 {{
    let s = (i * 7) as {u}; bel_len_{t}(x / 128);
    assert(s + 7 < {n}) by(bit_vector) requires x >= 128, s == i * 7, i < {end}, (x << s) >> s == x;
    assert((((x / 128) << add(s, 7)) >> add(s, 7)) == x / 128 && (acc | ((x % 128) << s)) | ((x / 128) << add(s, 7)) == acc | (x << s)) by(bit_vector) requires (x << s) >> s == x, s < {n - 7};
    let tail = bel_{t}(x / 128); assert(b =~= seq![(x % 128 + 128) as u8] + tail); assert(d.subrange(p + 1, p + 1 + tail.len()) =~= tail) by {{ assert forall|k: int| 0 <= k < tail.len() implies d[p + 1 + k] == tail[k] by {{ assert(d.subrange(p, p + b.len())[1 + k] == b[1 + k]); }} }}
    round_{t}(d, p + 1, (i + 1) as {u}, acc | ((x % 128) << s), x / 128);
  }}
}}
/// decoding what was encoded, whatever follows it
pub proof fn leb_trip_{t}(v: {t}, rest: Seq<u8>) ensures fe_{NAME[t]}(v) matches Some(b) && fd_{NAME[t]}(b + rest, 0) == Some((v, b.len() as int)) && 1 <= b.len() {{
  reveal(fe_{NAME[t]}); reveal(fd_{NAME[t]}); let x = v as {u}; let b = bel_{t}(x); bel_len_{t}(x); assert((b + rest).subrange(0, b.len() as int) =~= b);
  assert((x << 0{u}) >> 0{u} == x && 0{u} | (x << 0{u}) == x) by(bit_vector); assert((v as {u}) as {t} == v) by(bit_vector); round_{t}(b + rest, 0, 0, 0, x); }}
""")
    return "".join(o)
NAME = {"i8": "v8", "i16": "v16", "i32": "v32", "i64": "v64", "i128": "v128"}
