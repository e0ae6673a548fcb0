"""The templates of the prelude's foreign types (the code the compiler inlines for v8..v128, utf8 and utf16), each as a
function of its own, against the contract that the callers' verification assumes for it."""
import re
from prelude import *

def contract(n, enc):
    """requires/ensures of the template function; the same text as for vs_fd_n / vs_fe_n in the prelude"""
    v, a = FTS[n]; ca = "".join(f"arg_{i}, " for i in range(len(a)))
    if enc: return f"ensures vs_r is Ok ==> (fe_{n}({ca}v) matches Some(b) && final(writer).o() == old(writer).o() + b), vs_r matches Err(e) ==> e.io@ || fe_{n}({ca}v) is None"
    x = "vs_r is Ok && old(reader).p@ < old(reader).d@.len() ==> final(reader).p@ > old(reader).p@, " if n == "utf8" else ""
    return f"requires old(reader).ok() ensures final(reader).d == old(reader).d, final(reader).ok(), vs_r is Ok ==> final(reader).p@ {'>' if n[0] == 'v' else '>='} old(reader).p@, {x}vs_r matches Ok(v) ==> fd_{n}({ca}old(reader).d@, old(reader).p@) == Some((v, final(reader).p@)), vs_r matches Err(e) ==> e.io@ || fd_{n}({ca}old(reader).d@, old(reader).p@) is None"

def program(t):
    """the Verus text for one template, or None"""
    n, enc, code, loops = t["name"], t["enc"], t["verus"], t["loops"]
    v, a = FTS[n]; fn = re.search(r"pub fn (t_\w+)", code).group(1)
    top = f"reveal({'fe' if enc else 'fd'}_{n});"; inv = []; pre = ""
    if n[0] == "v":
        u = UNS[v]; end = (BITS[v] + 6) // 7; w = BITS[v]
        if enc:
            pre = f"""pub broadcast proof fn tl_a(x: {u}) ensures #[trigger] (x & !0b1111111{u}) != 0 <==> x >= 128 {{ assert((x & !0b1111111{u}) != 0 <==> x >= 128) by(bit_vector); }}
pub broadcast proof fn tl_b(x: {u}) ensures #[trigger] (x >> 7{u}) == x / 128 {{ assert((x >> 7{u}) == x / 128) by(bit_vector); }}
pub broadcast proof fn tl_c(x: {u}) ensures #[trigger] (((x as u8) & 127) | 128) == (x % 128 + 128) as u8 {{ assert((((x as u8) & 127) | 128) == add((x % 128) as u8, 128)) by(bit_vector); }}
"""
            top += " broadcast use { tl_a, tl_b, tl_c };"
            inv = [f"invariant old(writer).o() + bel_{v}(v as {u}) == writer.o() + bel_{v}(value) decreases value"]
        else:
            pre = f"""pub broadcast proof fn tl_a(a: {v}, b: {u}) ensures (#[trigger] (a | (b as {v}))) as {u} == (a as {u}) | b {{ assert((a | (b as {v})) as {u} == (a as {u}) | b) by(bit_vector); }}
pub broadcast proof fn tl_b(x: {v}) ensures (#[trigger] (x as {u})) as {v} == x {{ assert((x as {u}) as {v} == x) by(bit_vector); }}
pub broadcast proof fn tl_c(x: u8) ensures #[trigger] (x & 128) == 0 || x & 128 == 128 {{ assert((x & 128) == 0 || x & 128 == 128) by(bit_vector); }}
"""
            top += " broadcast use { tl_a, tl_b, tl_c }; assert(0xffu8 & 128 == 128) by(bit_vector);"
            pos = f"leu_{v}(vs_d0, vs_p0, 0, 0)"
            inv = [f"""invariant_except_break i < {end}, {pos} == (if buf.s@[0] & 128 == 128 {{ leu_{v}(vs_d0, reader.p@, i as {u}, output as {u}) }} else {{ Some((output as {u}, reader.p@)) }})
 invariant reader.d@ == vs_d0, reader.ok(), buf.s@.len() == 1, i <= {end}, i == 0 ==> reader.p@ == vs_p0 && buf.s@[0] & 128 == 128, i > 0 ==> reader.p@ > vs_p0
 ensures i > 0, {pos} == Some((output as {u}, reader.p@)) decreases {end} - i"""]
            if loops and loops[0]["kind"] == "loop":
                inv = [f"""invariant_except_break i < {end}, {pos} == leu_{v}(vs_d0, reader.p@, i as {u}, output as {u})
 invariant reader.d@ == vs_d0, reader.ok(), buf.s@.len() == 1, i <= {end}, i == 0 ==> reader.p@ == vs_p0, i > 0 ==> reader.p@ > vs_p0
 ensures i > 0, {pos} == Some((output as {u}, reader.p@)) decreases {end} - i"""]
    elif n == "utf8" and not enc:
        pre = """pub broadcast proof fn tl_n(d: Seq<u8>, p: int) requires 0 <= p <= d.len() ensures p <= #[trigger] nul(d, p) <= d.len(), nul(d, p) < d.len() ==> d[nul(d, p)] == 0, forall|j: int| p <= j < nul(d, p) ==> d[j] != 0 decreases d.len() - p { if p < d.len() && d[p] != 0 { tl_n(d, p + 1); } }
pub broadcast proof fn tl_t(d: Seq<u8>, p: int, q: int) requires 0 <= p <= q < d.len() ensures #[trigger] d.subrange(p, q + 1).take(q - p) == d.subrange(p, q) { assert(d.subrange(p, q + 1).take(q - p) =~= d.subrange(p, q)); }
"""
        top += " broadcast use { tl_n, tl_t };"
    elif n == "utf16n" and enc:
        inv = ["invariant vs_u0.s@ == su(v), vs_n0 == su(v).len(), su(v).len() == arg_0, vs_o0 + units_be(su(v), 0) == writer.o() + units_be(su(v), vs_i0 as int)"]
    if len(loops) != len(inv): return None
    code = code.replace("#[verifier::exec_allows_no_decreases_clause]\n", "")
    for i, x in enumerate(inv): code = code.replace(f"/*@INV:{i}@*/", x)
    code = code.replace(f"/*@CON:{n}:{fn}@*/", contract(n, enc)).replace(f"/*@TOP:{n}:{fn}@*/", top)
    return text(False) + f"mod m_t {{ use super::*; verus! {{ broadcast use vs_seq;\n{pre}{code}\n}} }}\nfn main(){{}}\n"
