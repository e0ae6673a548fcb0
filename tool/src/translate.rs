//! Mechanical translation of the Rust emitted by the compiler into Verus text.
//! Every construct is either on the list below or an error ("outside the subset").
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use protospec_build as pb;
use pb::ImportResolver;
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use syn::{BinOp, Expr, Item, Lit, Pat, Stmt, Type, UnOp};

type R<T> = Result<T, String>;
fn ts<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn bad<T, X: ToTokens>(what: &str, t: &X) -> R<T> {
    let mut s = ts(t);
    if s.len() > 200 { s.truncate(200) }
    Err(format!("{}: {}", what, s))
}
const PRIMS: &[&str] = &["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "f32", "f64"];
fn vty(p: &str) -> &str { match p { "f32" => "F32v", "f64" => "F64v", "String" => "VsStr", x => x } }

struct Tpl { name: &'static str, nargs: usize, enc: bool, stmts: Vec<Vec<TokenTree>> }

pub struct Tr {
    cty: String,                      // type whose impl is being translated
    cfn: String,
    dec: bool,
    loops: Vec<Value>,
    builds: Vec<Value>,
    mref: HashSet<String>,            // locals already holding a `&mut` stream
    discr: HashMap<String, Vec<(String, String)>>,
    tpls: Vec<Tpl>,
    methods: HashSet<String>,
    native: bool,                     // operators of Verus itself: used for the templates of foreign types
    params: Vec<String>,              // parameters of the function being translated, without self and the stream
}

fn flat(t: TokenStream) -> Vec<TokenTree> { t.into_iter().collect() }

/// does `t` match the pattern `p`; identifiers starting with `__` bind one token tree
fn tmatch(p: &[TokenTree], t: &[TokenTree], b: &mut HashMap<String, String>) -> bool {
    if p.len() != t.len() { return false }
    for (x, y) in p.iter().zip(t) {
        match (x, y) {
            (TokenTree::Ident(i), y) if i.to_string().starts_with("__") => {
                let v = y.to_string();
                match b.get(&i.to_string()) { Some(o) if *o != v => return false, _ => () }
                b.insert(i.to_string(), v);
            }
            (TokenTree::Group(a), TokenTree::Group(c)) => {
                if a.delimiter() != c.delimiter() { return false }
                if !tmatch(&flat(a.stream()), &flat(c.stream()), b) { return false }
            }
            (a, c) => if a.to_string() != c.to_string() { return false },
        }
    }
    true
}

fn templates(asy: bool) -> Vec<Tpl> {
    let r = pb::PreludeImportResolver(crate::gen::Res { files: HashMap::new() });
    let mut o = vec![];
    for (f, name, nargs) in [("v8", "v8", 0), ("v16", "v16", 0), ("v32", "v32", 0), ("v64", "v64", 0), ("v128", "v128", 0), ("utf8", "utf8", 0), ("utf8", "utf8n", 1), ("utf16", "utf16n", 1)] {
        let x = match r.resolve_ffi_type(f) { Ok(Some(x)) => x, _ => continue };
        for enc in [false, true] {
            let a: Vec<TokenStream> = (0..nargs).map(|i| { let i = quote::format_ident!("__A{}", i); quote!(#i) }).collect();
            let t = if enc { x.encoding_gen(quote!(__S), quote!(__O), a, asy) } else { x.decoding_gen(quote!(__S), quote!(__O), a, asy) };
            let blk: syn::Block = match syn::parse2(quote!({ #t })) { Ok(b) => b, Err(_) => continue };
            o.push(Tpl { name, nargs, enc, stmts: blk.stmts.iter().map(|s| flat(s.to_token_stream())).collect() });
        }
    }
    o
}

fn strip(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(p) => strip(&p.expr), x => x }
}
fn pathstr(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = strip(e) { Some(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")) } else { None }
}
/// `x[..]` gives (x, None); `x[..n]` gives (x, Some(n))
fn sliced(e: &Expr) -> Option<(&Expr, Option<&Expr>)> {
    if let Expr::Index(i) = strip(e) {
        if let Expr::Range(r) = strip(&i.index) {
            if r.start.is_none() && matches!(r.limits, syn::RangeLimits::HalfOpen(_)) { return Some((&i.expr, r.end.as_deref())) }
        }
    }
    None
}
fn lit_vec(e: &Expr) -> Option<Expr> {
    // vec![0u8; n]
    if let Expr::Macro(m) = strip(e) {
        if m.mac.path.is_ident("vec") {
            let t = flat(m.mac.tokens.clone());
            if t.len() > 2 && t[0].to_string() == "0u8" && t[1].to_string() == ";" {
                return syn::parse2(t[2..].iter().cloned().collect()).ok();
            }
        }
    }
    if let Expr::Repeat(r) = strip(e) {
        if ts(&r.expr) == "0u8" { return Some((*r.len).clone()) }
    }
    None
}
fn arr_one(e: &Expr) -> Option<&Expr> {
    if let Expr::Array(a) = strip(e) { if a.elems.len() == 1 { return a.elems.first() } }
    None
}
/// `e.try_into()` followed by `?` or `.unwrap()`
fn try_into_of(e: &Expr) -> Option<&Expr> {
    let m = match strip(e) {
        Expr::Try(t) => strip(&t.expr),
        Expr::MethodCall(m) if m.method == "unwrap" && m.args.is_empty() => strip(&m.receiver),
        _ => return None,
    };
    if let Expr::MethodCall(m) = m { if m.method == "try_into" && m.args.is_empty() { return Some(strip(&m.receiver)) } }
    None
}

impl Tr {
    fn ty(&self, t: &Type) -> R<String> {
        match t {
            Type::Path(p) => {
                let s = p.path.segments.last().unwrap();
                let n = s.ident.to_string();
                match &s.arguments {
                    syn::PathArguments::None => Ok(vty(&n).to_string()),
                    syn::PathArguments::AngleBracketed(a) if a.args.len() == 1 => {
                        let inner = match a.args.first().unwrap() { syn::GenericArgument::Type(t) => self.ty(t)?, x => return bad("type argument", x) };
                        match &*n { "Vec" => Ok(format!("VsV<{}>", inner)), "Option" => Ok(format!("Option<{}>", inner)), "Result" => Ok(format!("VsR<{}>", inner)), _ => bad("generic type", t) }
                    }
                    _ => bad("type", t),
                }
            }
            Type::Array(a) if ts(&a.elem) == "u8" => Ok("VsV<u8>".into()),
            Type::Tuple(t) if t.elems.is_empty() => Ok("()".into()),
            _ => bad("type", t),
        }
    }

    fn is_err(&self, e: &Expr) -> bool {
        // (encode_error|decode_error)(..).into()
        if let Expr::MethodCall(m) = strip(e) {
            if m.method == "into" && m.args.is_empty() {
                if let Expr::Call(c) = strip(&m.receiver) {
                    if pathstr(&c.func).as_deref() == Some("std::io::Error::from") && c.args.len() == 1 { return pathstr(&c.args[0]).as_deref() == Some("std::io::ErrorKind::UnexpectedEof") }
                    return matches!(pathstr(&c.func).as_deref(), Some("encode_error") | Some("decode_error"));
                }
            }
        }
        false
    }

    /// encode_error(..), decode_error(..), with or without .into()
    fn is_error_value(&self, e: &Expr) -> bool {
        if self.is_err(e) { return true }
        match strip(e) { Expr::Call(c) => matches!(pathstr(&c.func).as_deref(), Some("encode_error") | Some("decode_error")), _ => false }
    }

    /// a stream argument: keep as an expression of type `&mut stream`
    fn stream(&mut self, e: &Expr) -> R<String> {
        match strip(e) {
            Expr::Path(_) => Ok(pathstr(e).unwrap()),
            Expr::MethodCall(m) if m.method == "take" && m.args.len() == 1 => {
                let s = self.stream(&m.receiver)?;
                let n = self.ex(&m.args[0])?;
                Ok(format!("vs_take({}, {})", s, n))
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Some(n) = pathstr(&r.expr) { if self.mref.contains(&n) { return Ok(format!("(&mut *{})", n)) } }
                Ok(format!("(&mut {})", self.ex(&r.expr)?))
            }
            x => bad("stream", x),
        }
    }

    fn xform(&mut self, c: &syn::ExprCall) -> R<Option<String>> {
        let f = match pathstr(&c.func) { Some(f) => f, None => return Ok(None) };
        let a: Vec<&Expr> = c.args.iter().collect();
        let dir = |dec: bool| if dec { "xr" } else { "xw" };
        let (n, dec, extra): (String, bool, Vec<&Expr>) = match &*f {
            "flate2::read::GzDecoder::new" if a.len() == 1 => ("gzip".into(), true, vec![]),
            "flate2::write::GzEncoder::new" if a.len() == 2 && ts(a[1]).replace(' ', "") == "flate2::Compression::default()" => ("gzip".into(), false, vec![]),
            "async_compression::tokio::bufread::GzipDecoder::new" if a.len() == 1 => ("gzip".into(), true, vec![]),
            "async_compression::tokio::write::GzipEncoder::new" if a.len() == 1 => ("gzip".into(), false, vec![]),
            "base64::read::DecoderReader::new" if a.len() == 2 && ts(a[1]).replace(' ', "") == "base64::STANDARD" => ("base64".into(), true, vec![]),
            "base64::write::EncoderWriter::new" if a.len() == 2 && ts(a[1]).replace(' ', "") == "base64::STANDARD" => ("base64".into(), false, vec![]),
            x if x.starts_with("crate::xf::") => {
                let (n, d) = match x["crate::xf::".len()..].rsplit_once('_') { Some(y) => y, None => return Ok(None) };
                let dec = match d { "rd" | "ard" => true, "wr" | "awr" => false, _ => return Ok(None) };
                if a.is_empty() { return Ok(None) }
                (n.to_string(), dec, a[1..].to_vec())
            }
            _ => return Ok(None),
        };
        if dec != self.dec { return bad("transform direction", c) }
        let s = self.stream(a[0])?;
        let mut o = format!("{}_{}({}", dir(dec), n, s);
        for e in extra { o += &format!(", {}", self.ex(e)?) }
        Ok(Some(o + ")"))
    }

    /// an expression producing a new `&mut` stream
    fn new_stream(&mut self, e: &Expr) -> R<Option<String>> {
        match strip(e) {
            Expr::Call(c) => self.xform(c),
            Expr::Block(b) if b.block.stmts.len() == 1 => {
                if let Stmt::Expr(e, None) = &b.block.stmts[0] { self.new_stream(e) } else { Ok(None) }
            }
            Expr::MethodCall(m) if m.method == "take" && m.args.len() == 1 => {
                let s = self.stream(&m.receiver)?;
                let n = self.ex(&m.args[0])?;
                Ok(Some(format!("vs_take({}, {})", s, n)))
            }
            _ => Ok(None),
        }
    }

    /// one branch of a conditional stream: statements, `[x =] NEW;`, tail
    fn cond_stream(&mut self, e: &Expr, slot: &str) -> R<Option<String>> {
        let i = match strip(e) { Expr::If(i) => i, _ => return Ok(None) };
        let els = match &i.else_branch { Some((_, e)) => e, None => return Ok(None) };
        let elsb = match strip(els) { Expr::Block(b) => &b.block, _ => return Ok(None) };
        // else: input as &mut dyn ..
        let input = match elsb.stmts.as_slice() {
            [Stmt::Expr(Expr::Cast(c), None)] if isdyn(&c.ty) => self.stream(&c.expr)?,
            _ => return Ok(None),
        };
        let st = &i.then_branch.stmts;
        if st.len() < 2 { return Ok(None) }
        let n = st.len();
        let mut pre = String::new();
        for s in &st[..n - 2] { pre += &self.stmt(s)?; }
        let (lhs, rhs) = match &st[n - 2] { Stmt::Expr(Expr::Assign(a), Some(_)) => (pathstr(&a.left), strip(&a.right)), _ => return Ok(None) };
        if lhs.as_deref() != Some(slot) { return Ok(None) }
        let tail = match &st[n - 1] { Stmt::Expr(e, None) => ts(e), _ => return Ok(None) };
        let new = if self.dec {
            if tail != format!("& mut {}", slot) { return Ok(None) }
            self.new_stream(rhs)?
        } else {
            if tail != format!("{} . as_mut () . unwrap ()", slot) { return Ok(None) }
            match rhs {
                Expr::Call(c) if pathstr(&c.func).as_deref() == Some("Some") && c.args.len() == 1 => self.new_stream(&c.args[0])?,
                _ => return Ok(None),
            }
        };
        let new = match new { Some(x) => x, None => return Ok(None) };
        let other = if self.dec { format!("&mut *{}", input) } else { format!("vs_dynw({})", input) };
        Ok(Some(format!("if {} {{ {} {} }} else {{ {} }}", self.ex(&i.cond)?, pre, new, other)))
    }

    fn ex(&mut self, e: &Expr) -> R<String> {
        match e {
            Expr::Paren(p) => Ok(format!("({})", self.ex(&p.expr)?)),
            Expr::Group(p) => Ok(format!("({})", self.ex(&p.expr)?)),
            Expr::Path(p) => {
                if p.qself.is_some() { return bad("path", e) }
                for s in &p.path.segments { if !matches!(s.arguments, syn::PathArguments::None) { return bad("path", e) } }
                Ok(pathstr(e).unwrap())
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) => if ["f32", "f64"].contains(&i.suffix()) { bad("literal", e) } else { Ok(i.to_string()) },
                Lit::Bool(b) => Ok(b.value.to_string()),
                Lit::ByteStr(b) => { if b.value().len() > 8 { return bad("literal", e) } Ok(format!("vs_lit{}({})", b.value().len(), b.value().iter().map(|x| format!("{}u8", x)).collect::<Vec<_>>().join(", "))) },
                _ => bad("literal", e),
            },
            Expr::Unary(u) => {
                match u.op {
                    UnOp::Not(_) if self.native => Ok(format!("(!({}))", self.ex(&u.expr)?)),
                    UnOp::Not(_) => Ok(format!("({}).vs_not()", self.ex(&u.expr)?)),
                    UnOp::Neg(_) => { if let Expr::Lit(_) = &*u.expr { Ok(format!("(-{})", self.ex(&u.expr)?)) } else { Ok(format!("({}).vs_neg()", self.ex(&u.expr)?)) } }
                    UnOp::Deref(_) => Ok(format!("(*{})", self.ex(&u.expr)?)),
                    _ => bad("unary", e),
                }
            }
            Expr::Binary(b) => {
                // &buf[..n] == t
                if let (BinOp::Eq(_), Expr::Reference(r)) = (&b.op, strip(&b.left)) {
                    if let Some((x, Some(n))) = sliced(&r.expr) {
                        return Ok(format!("(({}).vs_to({})).vs_eq(&({}))", self.ex(x)?, self.ex(n)?, self.ex(&b.right)?));
                    }
                }
                let l = self.ex(&b.left)?;
                let r = self.ex(&b.right)?;
                if self.native {
                    let o = ts(&b.op);
                    if ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"].contains(&&*o) { return Ok(format!("(({}) {} ({}))", l, o, r)) }
                    if ["==", "!="].contains(&&*o) && !l.contains("vs_lit") { return Ok(format!("(({}) {} ({}))", l, o, r)) }
                    if o.len() >= 2 && o.ends_with('=') && !["==", "!=", "<=", ">="].contains(&&*o) { return Ok(format!("{} = (({}) {} ({}))", l, l, &o[..o.len() - 1], r)) }
                }
                let m = match b.op {
                    BinOp::Eq(_) => return Ok(format!("({}).vs_eq(&({}))", l, r)),
                    BinOp::Ne(_) => return Ok(format!("(!(({}).vs_eq(&({}))))", l, r)),
                    BinOp::Lt(_) => return Ok(format!("(({}) < ({}))", l, r)),
                    BinOp::Le(_) => return Ok(format!("(({}) <= ({}))", l, r)),
                    BinOp::Gt(_) => return Ok(format!("(({}) > ({}))", l, r)),
                    BinOp::Ge(_) => return Ok(format!("(({}) >= ({}))", l, r)),
                    BinOp::And(_) => return Ok(format!("(({}) && ({}))", l, r)),
                    BinOp::Or(_) => return Ok(format!("(({}) || ({}))", l, r)),
                    BinOp::Add(_) => "vs_add", BinOp::Sub(_) => "vs_sub", BinOp::Mul(_) => "vs_mul", BinOp::Div(_) => "vs_div", BinOp::Rem(_) => "vs_rem",
                    BinOp::BitAnd(_) => "vs_bitand", BinOp::BitOr(_) => "vs_bitor", BinOp::BitXor(_) => "vs_bitxor", BinOp::Shl(_) => "vs_shl", BinOp::Shr(_) => "vs_shr",
                    _ => return bad("operator", e),
                };
                Ok(format!("({}).{}({})", l, m, r))
            }
            Expr::Cast(c) => {
                let t = ts(&c.ty);
                if !(PRIMS.contains(&&*t) || t == "usize") || t.starts_with('f') { return bad("cast", e) }
                if pathstr(&c.expr).as_deref() == Some("self") {
                    let d = self.discr.get(&self.cty).cloned().ok_or("cast of self")?;
                    let arms = d.iter().map(|(v, x)| format!("{}::{} => {},", self.cty, v, x)).collect::<String>();
                    return Ok(format!("((match self {{ {} }}) as {})", arms, t));
                }
                Ok(format!("(({}) as {})", self.ex(&c.expr)?, t))
            }
            Expr::Call(c) => self.call(c, e),
            Expr::MethodCall(m) => self.method(m, e),
            Expr::Try(t) => {
                // x.ok_or_else(|| e)?, x.ok_or(e)?
                if let Expr::MethodCall(m) = strip(&t.expr) {
                    if (m.method == "ok_or_else" || m.method == "ok_or") && m.args.len() == 1 {
                        let v = match strip(&m.args[0]) { Expr::Closure(c) if c.inputs.is_empty() => strip(&c.body), v => v };
                        if self.is_error_value(v) { return Ok(format!("(match {} {{ Some(vs_x) => vs_x, None => {{ return Err(vs_err()); }} }})", self.ex(&m.receiver)?)) }
                    }
                }
                Ok(format!("{}?", self.ex(&t.expr)?))
            }
            Expr::Await(a) => self.ex(&a.base),
            Expr::Index(i) => {
                if sliced(e).is_some() { return bad("slice", e) }
                Ok(format!("(*({}).vs_index({}))", self.ex(&i.expr)?, self.ex(&i.index)?))
            }
            Expr::Reference(r) => {
                let m = if r.mutability.is_some() { "mut " } else { "" };
                if let Some((x, n)) = sliced(&r.expr) {
                    if n.is_some() { return bad("slice", e) }
                    let base = match lit_vec(x) { Some(n) => format!("vs_zeros({})", self.ex(&n)?), None => self.ex(x)? };
                    return Ok(format!("&{}{}", m, base));
                }
                if let Some(x) = arr_one(&r.expr) { return Ok(format!("&vs_arr1({})", self.ex(x)?)) }
                if r.mutability.is_none() {
                    if let Expr::Index(i) = strip(&r.expr) {
                        return Ok(format!("({}).vs_index({})", self.ex(&i.expr)?, self.ex(&i.index)?));
                    }
                }
                Ok(format!("&{}{}", m, self.ex(&r.expr)?))
            }
            Expr::Field(f) => Ok(format!("{}.{}", self.ex(&f.base)?, ts(&f.member))),
            Expr::Struct(s) => {
                if s.rest.is_some() || s.dot2_token.is_some() { return bad("struct", e) }
                let p = s.path.segments.iter().map(|x| x.ident.to_string()).collect::<Vec<_>>();
                let mut fs = serde_json::Map::new();
                let mut o = vec![];
                for f in &s.fields {
                    let v = self.ex(&f.expr)?;
                    fs.insert(ts(&f.member), json!(v));
                    o.push(format!("{}: {}", ts(&f.member), v));
                }
                self.builds.push(json!({"ty": p[0], "variant": p.get(1), "fields": fs, "fn": self.cfn}));
                Ok(format!("{} {{ {} }}", p.join("::"), o.join(", ")))
            }
            Expr::Tuple(t) => Ok(format!("({})", t.elems.iter().map(|x| self.ex(x)).collect::<R<Vec<_>>>()?.join(", "))),
            Expr::If(i) => {
                let c = match &*i.cond {
                    Expr::Let(l) => format!("let {} = {}", self.pat(&l.pat)?, self.ex(&l.expr)?),
                    x => self.ex(x)?,
                };
                let mut o = format!("if {} {}", c, self.block(&i.then_branch)?);
                if let Some((_, e)) = &i.else_branch { o += &format!(" else {}", self.ex(e)?) }
                Ok(o)
            }
            Expr::Block(b) if b.label.is_none() => self.block(&b.block),
            Expr::Unsafe(u) => {
                // unsafe { raw.set_len(n) }
                if let [Stmt::Expr(Expr::MethodCall(m), _)] = u.block.stmts.as_slice() {
                    if m.method == "set_len" && m.args.len() == 1 { return Ok(format!("{}.vs_set_len({})", self.ex(&m.receiver)?, self.ex(&m.args[0])?)) }
                }
                bad("unsafe", e)
            }
            Expr::Macro(m) => {
                if let Some(n) = lit_vec(e) { return Ok(format!("vs_zeros({})", self.ex(&n)?)) }
                if m.mac.path.is_ident("vec") && m.mac.tokens.is_empty() { return Ok("VsV::new()".into()) }
                if m.mac.path.is_ident("assert_eq") {
                    let a: syn::punctuated::Punctuated<Expr, syn::Token![,]> = m.mac.parse_body_with(syn::punctuated::Punctuated::parse_terminated).map_err(|e| e.to_string())?;
                    if a.len() == 2 { return Ok(format!("vs_assert(({}).vs_eq(&({})))", self.ex(&a[0])?, self.ex(&a[1])?)) }
                }
                bad("macro", e)
            }
            Expr::Repeat(r) if self.native && lit_vec(e).is_none() => Ok(format!("vs_rep({}, {})", self.ex(&r.expr)?, self.ex(&r.len)?)),
            Expr::Repeat(_) => match lit_vec(e) { Some(n) => Ok(format!("vs_zeros({})", self.ex(&n)?)), None => bad("array", e) },
            Expr::Return(r) => match &r.expr { Some(x) => Ok(format!("return {}", self.ex(x)?)), None => Ok("return".into()) },
            Expr::Break(b) if b.label.is_none() && b.expr.is_none() => Ok("break".into()),
            Expr::Continue(b) if b.label.is_none() => Ok("continue".into()),
            Expr::Match(m) => {
                let mut o = format!("match {} {{ ", self.ex(&m.expr)?);
                for a in &m.arms {
                    if a.guard.is_some() { return bad("guard", e) }
                    o += &format!("{} => {}, ", self.pat(&a.pat)?, self.ex(&a.body)?);
                }
                Ok(o + "}")
            }
            Expr::Loop(l) => match as_while(l) { Some(w) => self.ex(&w), None => self.loop_(l) },
            Expr::While(w) => {
                if w.label.is_some() { return bad("label", e) }
                let c = self.ex(&w.cond)?;
                let k = self.new_loop("while", json!({"n": c}), &w.body, Some(&w.cond))?;
                let b = self.block(&w.body)?;
                Ok(format!("{{ {} while {} /*@INV:{}@*/ {} }}", self.snap(k), c, k, b))
            }
            Expr::ForLoop(f) => self.for_(f),
            Expr::Assign(a) => Ok(format!("{} = {}", self.ex(&a.left)?, self.ex(&a.right)?)),
            _ => bad("expression", e),
        }
    }

    fn snap(&self, k: usize) -> String {
        let v = &self.loops[k];
        let s = v["stream"].as_str().unwrap();
        if self.dec { format!("let ghost vs_d{0} = {1}.d@; let ghost vs_p{0} = {1}.p@;", k, s) } else { format!("let ghost vs_o{0} = {1}.o();", k, s) }
    }

    /// registers a loop; finds the stream its body works on
    fn new_loop(&mut self, kind: &str, mut v: Value, body: &syn::Block, cond: Option<&Expr>) -> R<usize> {
        let mut bound = HashSet::new();
        let mut used = vec![];
        scan(&flat(quote!(#cond #body)), &mut bound, &mut used);
        let mut s: Vec<String> = vec![];
        for u in used { if !bound.contains(&u) && !s.contains(&u) { s.push(u) } }
        let stream = match s.len() { 0 => if self.dec { "reader".to_string() } else { "writer".to_string() }, 1 => s[0].clone(), _ => return Err(format!("loop over several streams: {:?}", s)) };
        v["kind"] = json!(kind);
        v["stream"] = json!(stream);
        v["fn"] = json!(self.cfn);
        v["ty"] = json!(self.cty);
        let k = self.loops.len();
        // output vector of a decode loop: last `x.push(..)` of the body at top level
        let mut inner = body;
        while let [Stmt::Expr(Expr::Block(b), _)] = &inner.stmts[..] { inner = &b.block }
        for st in &inner.stmts {
            if let Stmt::Expr(Expr::MethodCall(m), _) = st { if m.method == "push" { v["out"] = json!(ts(&m.receiver)); } }
            if let Stmt::Local(l) = st {
                if let Some(i) = &l.init {
                    let mut x = strip(&i.expr);
                    if let Expr::Reference(r) = x { x = strip(&r.expr) }
                    if let Expr::Index(ix) = x { if v.get("src").is_none() { v["src"] = json!(ts(&ix.expr)); } }
                }
            }
        }
        self.loops.push(v);
        Ok(k)
    }

    fn loop_(&mut self, l: &syn::ExprLoop) -> R<String> {
        if let Some(lb) = &l.label {
            let n = lb.name.to_string();
            return Ok(format!("{{ {} }}", self.labelled(&l.body.stmts, &n)?));
        }
        let k = self.new_loop("loop", json!({}), &l.body, None)?;
        let b = self.block(&l.body)?;
        Ok(format!("{{ {} loop /*@INV:{}@*/ {} }}", self.snap(k), k, b))
    }

    /// `'bb: loop { ..; if c { ..; break 'bb; } ..; break 'bb; }` runs once: nest the rest into the else branches
    fn labelled(&mut self, s: &[Stmt], lb: &str) -> R<String> {
        let brk = format!("break {}", lb);
        let is_brk = |x: &Stmt| matches!(x, Stmt::Expr(e, _) if ts(e) == brk);
        let mut o = String::new();
        let mut from = 0usize; // start of the run of plain statements not yet emitted
        for (i, st) in s.iter().enumerate() {
            if is_brk(st) { return Ok(o + &self.stmts(&s[from..i])?) }
            if let Stmt::Expr(Expr::If(c), _) = st {
                if c.then_branch.stmts.iter().any(|x| is_brk(x)) {
                    let els: &[Stmt] = match &c.else_branch { None => &[], Some((_, e)) => match strip(e) { Expr::Block(b) => &b.block.stmts, _ => return bad("labelled loop", st) } };
                    o += &self.stmts(&s[from..i])?;
                    from = i + 1;
                    let cond = self.ex(&c.cond)?;
                    let a = self.labelled(&c.then_branch.stmts, lb)?;
                    let mut rest: Vec<Stmt> = els.to_vec();
                    rest.extend_from_slice(&s[i + 1..]);
                    let b = self.labelled(&rest, lb)?;
                    return Ok(o + &format!("if {} {{ {} }} else {{ {} }}", cond, a, b));
                }
            }
            if ts(st).contains(&brk) { return bad("labelled loop", st) }
        }
        Err("labelled loop without a final break".into())
    }

    fn for_(&mut self, f: &syn::ExprForLoop) -> R<String> {
        if f.label.is_some() { return bad("label", f) }
        match strip(&f.expr) {
            Expr::Range(r) if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) => {
                let (a, b) = match (&r.start, &r.end) { (Some(a), Some(b)) => (self.ex(a)?, self.ex(b)?), _ => return bad("range", f) };
                if a != "0" { return bad("range", f) }
                let k0 = self.loops.len();
                let i = match &*f.pat { Pat::Ident(i) => i.ident.to_string(), Pat::Wild(_) => format!("vs_i{}", k0), x => return bad("pattern", x) };
                let info = match r.end.as_deref().map(strip) { Some(Expr::MethodCall(m)) if m.method == "len" && m.args.is_empty() => { let src = self.ex(&m.receiver)?; json!({"n": format!("({}).s@.len()", src), "i": i, "src": src}) } _ => json!({"n": b, "i": i}) };
                let k = self.new_loop("for", info, &f.body, None)?;
                let body = self.block(&f.body)?;
                Ok(format!("{{ {} for {} in 0..{} /*@INV:{}@*/ {} }}", self.snap(k), i, b, k, body))
            }
            // for x in raw.chunks_exact(size) { items.push(F(x)); }
            Expr::MethodCall(m) if m.method == "chunks_exact" && m.args.len() == 1 => {
                let x = match &*f.pat { Pat::Ident(i) => i.ident.to_string(), x => return bad("pattern", x) };
                if let [Stmt::Expr(Expr::MethodCall(p), _)] = &f.body.stmts[..] {
                    if p.method == "push" && p.args.len() == 1 {
                        if let Some(items) = self.chunk_items(m, &x, &p.args[0], None)? { return Ok(format!("{{ {}.vs_append({}); }}", self.ex(&p.receiver)?, items)) }
                    }
                }
                bad("for", f)
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                let inner = strip(&r.expr);
                let src = match inner { Expr::Index(x) if ts(&x.index) == ".." => (*x.expr).clone(), x => x.clone() };
                if !matches!(strip(&src), Expr::Path(_) | Expr::Field(_)) { return bad("for", f) }
                let mut g = f.clone();
                g.expr = Box::new(syn::parse_quote!((#src).iter()));
                self.for_(&g)
            }
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                let src = self.ex(&m.receiver)?;
                let x = match &*f.pat { Pat::Ident(i) => i.ident.to_string(), x => return bad("pattern", x) };
                let k0 = self.loops.len();
                let i = format!("vs_i{}", k0);
                let k = self.new_loop("for", json!({"n": format!("vs_n{}", k0), "i": i, "src": src}), &f.body, None)?;
                self.loops[k]["src"] = json!(src);
                let body = self.block(&f.body)?;
                Ok(format!("{{ {} let vs_n{k} = {src}.len(); for {i} in 0..vs_n{k} /*@INV:{k}@*/ {{ let {x} = {src}.vs_index({i}); {body} }} }}", self.snap(k), k = k, src = src, i = i, x = x, body = body))
            }
            Expr::MethodCall(m) if self.native && m.method == "encode_utf16" && m.args.is_empty() => {
                let src = self.ex(&m.receiver)?;
                let x = match &*f.pat { Pat::Ident(i) => i.ident.to_string(), x => return bad("pattern", x) };
                let k0 = self.loops.len();
                let i = format!("vs_i{}", k0);
                let k = self.new_loop("for", json!({"n": format!("vs_n{}", k0), "i": i, "src": src}), &f.body, None)?;
                let body = self.block(&f.body)?;
                Ok(format!("{{ {} let vs_u{k} = vs_utf16(&{src}); let vs_n{k} = vs_u{k}.len(); for {i} in 0..vs_n{k} /*@INV:{k}@*/ {{ let {x} = *vs_u{k}.vs_index({i}); {body} }} }}", self.snap(k), k = k, src = src, i = i, x = x, body = body))
            }
            _ => bad("for", f),
        }
    }

    fn pat(&self, p: &Pat) -> R<String> {
        match p {
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => Ok(i.ident.to_string()),
            Pat::Wild(_) => Ok("_".into()),
            Pat::Lit(l) => match &l.lit { Lit::Int(i) => Ok(i.to_string()), Lit::Bool(b) => Ok(b.value.to_string()), _ => bad("pattern", p) },
            Pat::Path(x) => Ok(x.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")),
            Pat::TupleStruct(t) => Ok(format!("{}({})", t.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"), t.elems.iter().map(|x| self.pat(x)).collect::<R<Vec<_>>>()?.join(", "))),
            Pat::Struct(s) if s.rest.is_none() => Ok(format!("{} {{ {} }}", s.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"),
                s.fields.iter().map(|f| Ok(format!("{}: {}", ts(&f.member), self.pat(&f.pat)?))).collect::<R<Vec<_>>>()?.join(", "))),
            Pat::Tuple(t) => Ok(format!("({})", t.elems.iter().map(|x| self.pat(x)).collect::<R<Vec<_>>>()?.join(", "))),
            Pat::Paren(x) => Ok(format!("({})", self.pat(&x.pat)?)),
            Pat::Type(t) => self.pat(&t.pat),
            _ => {
                let s = ts(p); // negative literals
                if s.starts_with("- ") && s[2..].chars().next().map_or(false, |c| c.is_ascii_digit()) { return Ok(s.replace("- ", "-")) }
                bad("pattern", p)
            }
        }
    }

    fn call(&mut self, c: &syn::ExprCall, e: &Expr) -> R<String> {
        if self.xform(c)?.is_some() { return bad("transform outside a stream binding", e) }
        let f = match pathstr(&c.func) { Some(f) => f, None => return bad("call", e) };
        let seg: Vec<&str> = f.split("::").collect();
        let a: Vec<&Expr> = c.args.iter().collect();
        match (&*f, a.len()) {
            ("Ok", 1) | ("Some", 1) => return Ok(format!("{}({})", f, if ts(a[0]) == "()" { "()".into() } else { self.ex(a[0])? })),
            ("Err", 1) => {
                if self.is_err(a[0]) { return Ok("Err(vs_err())".into()) }
                let mut x = strip(a[0]);
                if let Expr::MethodCall(m) = x { if m.method == "into" && m.args.is_empty() { x = strip(&m.receiver) } }
                if let Expr::Path(_) = x { if let Some(n) = pathstr(x) { if n.chars().all(|c| c.is_ascii_lowercase() || c == '_') { return Ok(format!("Err({})", n)) } } }
                return bad("error value", e)
            }
            ("drop", 1) => return Ok("()".into()),
            ("Vec::new", 0) => return Ok("VsV::new()".into()),
            ("Vec::with_capacity", 1) => return Ok(format!("VsV::with_capacity({})", self.ex(a[0])?)),
            ("std::cmp::min", 2) => return Ok(format!("vs_min({}, {})", self.ex(a[0])?, self.ex(a[1])?)),
            ("String::from_utf8", 1) if self.native => return Ok(format!("vs_from_utf8({})", self.ex(a[0])?)),
            ("String::from_utf16", 1) if self.native => return Ok(format!("vs_from_utf16({})", self.ex(a[0])?)),
            ("Cursor::new", 1) => return Ok(format!("vs_cursor({})", self.ex(a[0])?)),
            ("mem::size_of", 0) => {
                if let Expr::Path(p) = strip(&c.func) {
                    if let syn::PathArguments::AngleBracketed(g) = &p.path.segments.last().unwrap().arguments {
                        let t = ts(&g.args);
                        if PRIMS.contains(&&*t) { return Ok(format!("{}::vs_size()", vty(&t))) }
                        if t == "bool" { return Ok("1usize".into()) }
                    }
                }
                return bad("size_of", e);
            }
            _ => (),
        }
        if let [p, m] = seg[..] {
            if PRIMS.contains(&p) && (m == "from_be_bytes" || m == "from_le_bytes") && a.len() == 1 {
                let x = try_into_of(a[0]).unwrap_or_else(|| strip(a[0]));
                let x = match x { Expr::Reference(_) => self.ex(x)?, _ => format!("&{}", self.ex(x)?) };
                return Ok(format!("{}::vs_{}({})", vty(p), &m[..7], x));
            }
            if PRIMS.contains(&p) && m == "from" && a.len() == 1 && !p.starts_with('f') { return Ok(format!("(({}) as {})", self.ex(a[0])?, p)) }
            if (m == "decode_sync" || m == "decode_async") && !a.is_empty() {
                let s = self.stream(a[0])?;
                let mut o = format!("{}::{}({}", p, m, s);
                for x in &a[1..] { o += &format!(", {}", self.ex(x)?) }
                return Ok(o + ")");
            }
        }
        // constructors and functions of generated types
        if seg.len() <= 2 && seg[0].chars().next().map_or(false, |c| c.is_alphabetic()) && (seg.len() == 1 || seg[1] == "from_repr" || self.discr.contains_key(seg[0]) || true) {
            if seg.len() == 1 && !seg[0].chars().next().unwrap().is_uppercase() { return bad("call", e) }
            let v: Vec<String> = a.iter().map(|x| self.ex(x)).collect::<R<_>>()?;
            self.builds.push(json!({"ty": seg[0], "variant": seg.get(1), "args": v, "fn": self.cfn}));
            return Ok(format!("{}({})", f, v.join(", ")));
        }
        bad("call", e)
    }

    /// recv.chunks_exact(size).map(|x| F).collect::<T>()
    fn chunks(&mut self, m: &syn::ExprMethodCall) -> R<Option<String>> {
        if m.method != "collect" { return Ok(None) }
        let mp = match strip(&m.receiver) { Expr::MethodCall(x) if x.method == "map" && x.args.len() == 1 => x, _ => return Ok(None) };
        let cl = match strip(&mp.args[0]) { Expr::Closure(c) if c.inputs.len() == 1 => c, _ => return Ok(None) };
        let x = match &cl.inputs[0] { Pat::Ident(i) => i.ident.to_string(), _ => return Ok(None) };
        let tf = m.turbofish.as_ref().map(|t| ts(&t.args).replace(' ', "")).unwrap_or_default();
        let src = match strip(&mp.receiver) { Expr::MethodCall(c) => c, _ => return Ok(None) };
        if src.method == "iter" && src.args.is_empty() {
            if ts(&cl.body) == format!("* {} != 0", x) && tf == "Vec<bool>" { return Ok(Some(format!("vs_map_bool(&{})", self.ex(&src.receiver)?))) }
            return Ok(None);
        }
        if src.method != "chunks_exact" || src.args.len() != 1 { return Ok(None) }
        self.chunk_items(src, &x, &cl.body, Some(&tf))
    }

    /// the items F(x) of recv.chunks_exact(size), collected as `tf` (None: pushed one by one, errors passed on)
    fn chunk_items(&mut self, src: &syn::ExprMethodCall, x: &str, body: &Expr, tf: Option<&str>) -> R<Option<String>> {
        let prim = |b: &Expr| -> Option<(String, String)> {
            if let Expr::Call(c) = strip(b) {
                let f = pathstr(&c.func)?;
                let (p, k) = f.split_once("::")?;
                if !PRIMS.contains(&p) || c.args.len() != 1 { return None }
                match try_into_of(&c.args[0]) {
                    Some(i) => if ts(i) != x { return None },
                    None => {
                        // [x[0], x[1], ..]: all bytes of the chunk, in order
                        let n = match p { "u16" | "i16" => 2, "u32" | "i32" => 4, "u64" | "i64" => 8, _ => return None };
                        let want: Vec<String> = (0..n).map(|i| format!("{} [{}]", x, i)).collect();
                        if ts(strip(&c.args[0])) != format!("[{}]", want.join(" , ")) { return None }
                    }
                }
                if k == "from_be_bytes" { return Some((p.into(), "be".into())) }
                if k == "from_le_bytes" { return Some((p.into(), "le".into())) }
            }
            None
        };
        let recv = self.ex(&src.receiver)?;
        let size = self.ex(&src.args[0])?;
        if ts(body) == format!("{} [0] != 0", x) && tf.map_or(true, |t| t == "Vec<bool>") { return Ok(Some(format!("vs_chunks_bool(&{}, {})", recv, size))) }
        if let Some((p, k)) = prim(body) {
            if tf.map_or(false, |t| t != format!("Vec<{}>", p)) { return Ok(None) }
            return Ok(Some(format!("vs_chunks_{}::<{}>(&{}, {})", k, vty(&p), recv, size)));
        }
        let (inner, tries) = match strip(body) { Expr::Try(t) => (strip(&t.expr), true), b => (b, false) };
        if tries != tf.is_none() { return Ok(None) }
        if let Expr::Call(c) = inner {
            if let Some(f) = pathstr(&c.func) {
                if let Some((n, "from_repr")) = f.split_once("::") {
                    if c.args.len() == 1 && tf.map_or(true, |t| t == format!("Result<Vec<{}>>", n)) {
                        if let Some((p, k)) = prim(&c.args[0]) {
                            return Ok(Some(format!("vs_mapr_{}(vs_chunks_{}::<{}>(&{}, {})){}", n, k, vty(&p), recv, size, if tries { "?" } else { "" })));
                        }
                    }
                }
            }
        }
        Ok(None)
    }

    fn method(&mut self, m: &syn::ExprMethodCall, e: &Expr) -> R<String> {
        if let Some(s) = self.chunks(m)? { return Ok(s) }
        let n = m.method.to_string();
        let a: Vec<&Expr> = m.args.iter().collect();
        if n == "sum" && a.is_empty() {
            // x.iter().copied().map(|x| x as u64).sum::<u64>()
            if m.turbofish.as_ref().map(|t| ts(&t.args)).as_deref() == Some("u64") {
                if let Expr::MethodCall(mp) = strip(&m.receiver) {
                    if mp.method == "map" && ts(&mp.args) == "| x | x as u64" {
                        if let Expr::MethodCall(cp) = strip(&mp.receiver) { if cp.method == "copied" { if let Expr::MethodCall(it) = strip(&cp.receiver) { if it.method == "iter" {
                            return Ok(format!("vs_sum(&{})", self.ex(&it.receiver)?));
                        } } } }
                    }
                }
            }
            return bad("sum", e);
        }
        if m.turbofish.is_some() { return bad("turbofish", e) }
        match (&*n, a.len()) {
            ("read", 1) => {
                let s = self.stream(&m.receiver)?;
                if let Expr::Reference(r) = strip(a[0]) { if r.mutability.is_some() { if let Some((x, None)) = sliced(&r.expr) { return Ok(format!("{}.read(&mut {})", s, self.ex(x)?)) } } }
                bad("read", e)
            }
            ("read_exact", 1) => {
                let s = self.stream(&m.receiver)?;
                if let Expr::Reference(r) = strip(a[0]) {
                    if let (Some((x, k)), true) = (sliced(&r.expr), r.mutability.is_some()) {
                        let x = self.ex(x)?;
                        return Ok(match k { None => format!("{}.read_exact(&mut {})", s, x), Some(k) => format!("{}.read_exact_n(&mut {}, {})", s, x, self.ex(k)?) });
                    }
                }
                bad("read_exact", e)
            }
            ("ok_or_else", 1) => {
                // a.get(i).ok_or_else(|| io error)
                if let (Expr::MethodCall(g), Expr::Closure(c)) = (strip(&m.receiver), strip(a[0])) {
                    if g.method == "get" && g.args.len() == 1 && c.inputs.is_empty() && ts(&c.body).starts_with("std :: io :: Error :: from (") {
                        return Ok(format!("({}).vs_get({})", self.ex(&g.receiver)?, self.ex(&g.args[0])?));
                    }
                }
                // Some(x).filter(|x| *x != 0).ok_or_else(|| io error)
                if let (Expr::MethodCall(g), Expr::Closure(c)) = (strip(&m.receiver), strip(a[0])) {
                    if g.method == "filter" && g.args.len() == 1 && c.inputs.is_empty() && ts(&c.body).starts_with("std :: io :: Error :: from (") && ts(&g.args[0]) == "| x | * x != 0" {
                        if let Expr::Call(s) = strip(&g.receiver) {
                            if ts(&s.func) == "Some" && s.args.len() == 1 { return Ok(format!("vs_nonzero({})", self.ex(&s.args[0])?)) }
                        }
                    }
                }
                bad("ok_or_else", e)
            }
            ("wrapping_div", 1) | ("wrapping_rem", 1) => Ok(format!("({}).vs_{}({})", self.ex(&m.receiver)?, n, self.ex(a[0])?)),
            ("unwrap_or", 1) => Ok(format!("({}).unwrap_or({})", self.ex(&m.receiver)?, self.ex(a[0])?)),
            ("clone", 0) if self.native => Ok(format!("({})", self.ex(&m.receiver)?)),
            ("clone", 0) => Ok(format!("({}).vs_clone_bool()", self.ex(&m.receiver)?)),
            ("read_until", 2) => Ok(format!("{}.read_until({}, {})", self.stream(&m.receiver)?, self.ex(a[0])?, self.ex(a[1])?)),
            ("as_bytes", 0) if self.native => Ok(format!("({}).as_bytes()", self.ex(&m.receiver)?)),
            ("count", 0) if self.native => match strip(&m.receiver) {
                Expr::MethodCall(u) if u.method == "encode_utf16" && u.args.is_empty() => Ok(format!("vs_utf16(&{}).len()", self.ex(&u.receiver)?)),
                _ => bad("count", e),
            },
            ("read_to_end", 1) | ("consume", 1) => Ok(format!("{}.{}({})", self.stream(&m.receiver)?, n, self.ex(a[0])?)),
            ("fill_buf", 0) | ("flush", 0) | ("position", 0) => Ok(format!("{}.{}()", self.stream(&m.receiver)?, n)),
            ("write", 1) => Ok(format!("{}.write({})", self.stream(&m.receiver)?, self.ex(a[0])?)),
            ("write_all", 1) => Ok(format!("{}.write_all({})", self.stream(&m.receiver)?, self.ex(a[0])?)),
            ("encode_sync", k) | ("encode_async", k) if k >= 1 => {
                let r = self.ex(&m.receiver)?;
                let s = self.stream(a[0])?;
                let mut o = format!("{}.{}({}", r, n, s);
                for x in &a[1..] { o += &format!(", {}", self.ex(x)?) }
                Ok(o + ")")
            }
            ("len", 0) | ("unwrap_or", 1) | ("truncate", 1) => Ok(format!("({}).{}({})", self.ex(&m.receiver)?, n, a.iter().map(|x| self.ex(x)).collect::<R<Vec<_>>>()?.join(", "))),
            ("is_empty", 0) => Ok(format!("(({}).len() == 0)", self.ex(&m.receiver)?)),
            ("starts_with", 1) => Ok(format!("({}).vs_starts_with(&({}))", self.ex(&m.receiver)?, self.ex(a[0])?)),
            ("checked_mul", 1) => Ok(format!("({}).vs_checked_mul({})", self.ex(&m.receiver)?, self.ex(a[0])?)),
            ("push", 1) => Ok(format!("{}.push({})", self.ex(&m.receiver)?, self.ex(a[0])?)),
            ("to_be_bytes", 0) | ("to_le_bytes", 0) => Ok(format!("({}).vs_{}()", self.ex(&m.receiver)?, n)),
            ("count_ones", 0) => Ok(format!("({}).vs_count_ones()", self.ex(&m.receiver)?)),
            (_, 0) if self.methods.contains(&n) => Ok(format!("({}).{}()", self.ex(&m.receiver)?, n)),
            _ => bad("method", e),
        }
    }

    fn stmt(&mut self, s: &Stmt) -> R<String> {
        match s {
            Stmt::Local(l) => {
                let (p, ann) = match &l.pat { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), p => (p.clone(), None) };
                let (mutk, name) = match &p { Pat::Ident(i) => (i.mutability.is_some(), Some(i.ident.to_string())), _ => (false, None) };
                let init = match &l.init { None => return Ok(String::new()), Some(i) => { if i.diverge.is_some() { return bad("let else", l) } &i.expr } };
                if let Some(nm) = &name {
                    if ts(&**init) == "None" && mutk { return Ok(String::new()) } // slot of a conditional stream
                    // rebinding `let x = &mut x` of a stream
                    if let Expr::Reference(r) = strip(init) {
                        if r.mutability.is_some() && pathstr(&r.expr).as_ref() == Some(nm) && self.mref.contains(nm) { return Ok(String::new()) }
                    }
                    if let Some(s) = self.new_stream(init)? {
                        self.mref.insert(nm.clone());
                        return Ok(format!("let {} = {};\n", nm, s));
                    }
                    if let Some(t) = &ann {
                        if isdyn(t) {
                            // the slot is the identifier assigned in the first branch
                            let slot = match strip(init) { Expr::If(i) => i.then_branch.stmts.iter().rev().find_map(|s| match s { Stmt::Expr(Expr::Assign(a), _) => pathstr(&a.left), _ => None }), _ => None };
                            if let Some(slot) = slot {
                                if let Some(x) = self.cond_stream(init, &slot)? {
                                    self.mref.insert(nm.clone());
                                return Ok(format!("let {}: &mut {} = {};\n", nm, if self.dec { "Rd" } else { "Wr" }, x));
                                }
                            }
                            return bad("conditional stream", l);
                        }
                    }
                    self.mref.remove(nm);
                }
                let t = match &ann { None => String::new(), Some(t) => format!(": {}", self.ty(t)?) };
                let e = self.ex(init)?;
                Ok(format!("let {}{}{} = {};\n", if mutk { "mut " } else { "" }, self.pat(&p)?, t, e))
            }
            Stmt::Item(Item::Use(_)) => Ok(String::new()),
            Stmt::Item(i) => bad("item", i),
            Stmt::Expr(e, semi) => {
                let x = self.ex(e)?;
                Ok(if semi.is_some() { format!("{};\n", x) } else { format!("{}\n", x) })
            }
            Stmt::Macro(m) => {
                let e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
                Ok(format!("{};\n", self.ex(&e)?))
            }
        }
    }

    fn stmts(&mut self, v: &[Stmt]) -> R<String> {
        let mut o = String::new();
        let mut i = 0;
        'outer: while i < v.len() {
            for t in 0..self.tpls.len() {
                let k = self.tpls[t].stmts.len();
                if self.tpls[t].enc == self.dec || i + k > v.len() { continue }
                let mut b = HashMap::new();
                if (0..k).all(|j| tmatch(&self.tpls[t].stmts[j], &flat(v[i + j].to_token_stream()), &mut b)) {
                    let (tname, tenc, tn) = (self.tpls[t].name, self.tpls[t].enc, self.tpls[t].nargs);
                    let s = b.get("__S").cloned().unwrap_or_default();
                    let s = match syn::parse_str::<Expr>(&s) { Ok(Expr::Paren(e)) => self.stream(&e.expr)?, Ok(e) => self.stream(&e)?, Err(_) => s };
                    let out = b.get("__O").cloned().unwrap_or_default();
                    let mut args = String::new();
                    for j in 0..tn {
                        let x = b.get(&format!("__A{}", j)).cloned().unwrap_or_default();
                        let e: Expr = syn::parse_str(&x).map_err(|_| format!("template argument: {}", x))?;
                        args += &format!(", {}", self.ex(&e)?);
                    }
                    o += &if tenc { format!("/*@TPL:{n}@*/ vs_fe_{n}({}, &{}{})?;\n", s, out, args, n = tname) } else { format!("/*@TPL:{n}@*/ let {} = vs_fd_{n}({}{})?;\n", out, s, args, n = tname) };
                    i += k;
                    continue 'outer;
                }
            }
            if let (Some(n), true) = (v.get(i + 1), true) {
                if let Some((keep, f)) = count_loop(&v[i], n, &v[i + 2..]) {
                    if keep { o += &self.stmt(&v[i])?; }
                    o += &self.stmt(&f)?;
                    i += 2;
                    continue 'outer;
                }
            }
            o += &self.stmt(&v[i])?;
            i += 1;
        }
        Ok(o)
    }

    fn block(&mut self, b: &syn::Block) -> R<String> { Ok(format!("{{ {} }}", self.stmts(&b.stmts)?)) }

    fn func(&mut self, f: &syn::ImplItemFn, rename: Option<&str>) -> R<String> {
        let n = f.sig.ident.to_string();
        self.cfn = n.clone();
        self.dec = n.starts_with("decode");
        self.mref.clear();
        let mut ps = vec![];
        let mut gen = "";
        self.params.clear();
        for a in &f.sig.inputs {
            match a {
                syn::FnArg::Receiver(r) => ps.push(ts(r)),
                syn::FnArg::Typed(t) => {
                    let p = self.pat(&t.pat)?;
                    match &*t.ty {
                        Type::Reference(r) if r.mutability.is_some() => {
                            if p == "reader" { ps.push("reader: &mut Rd".into()) } else if p == "writer" { gen = "<W: Sink>"; ps.push("writer: &mut W".into()) } else { return bad("parameter", t) }
                        }
                        t => { ps.push(format!("{}: {}", p, self.ty(t)?)); self.params.push(p) }
                    }
                }
            }
        }
        let ret = match &f.sig.output { syn::ReturnType::Default => String::new(), syn::ReturnType::Type(_, t) => format!(" -> (vs_r: {})", self.ty(t)?) };
        let name = rename.map(|s| s.to_string()).unwrap_or_else(|| if n == "to_be_bytes" || n == "to_le_bytes" { format!("vs_{}", n) } else { n.clone() });
        let body = self.stmts(&f.block.stmts)?;
        Ok(format!("#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\npub fn {}{}({}){}\n/*@CON:{}:{}@*/\n{{\n/*@TOP:{}:{}@*/\n{}}}\n", name, gen, ps.join(", "), ret, self.cty, name, self.cty, name, body))
    }
}

/// is identifier `x` used in `t` (outside of paths of other names)?
fn mentions<T: ToTokens>(t: &T, x: &str) -> bool {
    fn go(t: TokenStream, x: &str) -> bool { t.into_iter().any(|t| match t { TokenTree::Ident(i) => i == x, TokenTree::Group(g) => go(g.stream(), x), _ => false }) }
    go(t.to_token_stream(), x)
}

/// `loop { if C { break; } .. }` without further breaks is `while !C { .. }`
fn as_while(l: &syn::ExprLoop) -> Option<Expr> {
    if l.label.is_some() { return None }
    let i = match l.body.stmts.first()? { Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() => i, _ => return None };
    match &i.then_branch.stmts[..] { [Stmt::Expr(Expr::Break(b), _)] if b.label.is_none() && b.expr.is_none() => (), _ => return None }
    let rest = syn::Block { brace_token: l.body.brace_token, stmts: l.body.stmts[1..].to_vec() };
    if mentions(&rest, "break") || mentions(&rest, "continue") || matches!(&*i.cond, Expr::Let(_)) { return None }
    let c = &i.cond;
    let c: Expr = match strip(c) {
        Expr::Binary(b) => {
            let (l, r) = (&b.left, &b.right);
            match b.op { syn::BinOp::Ge(_) => syn::parse_quote!(#l < #r), syn::BinOp::Lt(_) => syn::parse_quote!(#l >= #r), syn::BinOp::Gt(_) => syn::parse_quote!(#l <= #r), syn::BinOp::Le(_) => syn::parse_quote!(#l > #r), syn::BinOp::Eq(_) => syn::parse_quote!(#l != #r), _ => syn::parse_quote!(!(#c)) }
        }
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => (*u.expr).clone(),
        _ => syn::parse_quote!(!(#c)),
    };
    Some(syn::parse_quote!(while #c #rest))
}

/// `let mut i = 0; while i < N { B; i += 1; }`, `let mut i = N; while i > 0 { B; i -= 1; }` and `let mut v = Vec::new(); while v.len() < N { B; v.push(x); }`
/// are `for i in 0..N { B }` when neither B nor what follows touches i (v) otherwise; true: the first statement stays
fn count_loop(a: &Stmt, b: &Stmt, after: &[Stmt]) -> Option<(bool, Stmt)> {
    let l = match a { Stmt::Local(l) => l, _ => return None };
    let mut pat = &l.pat;
    if let Pat::Type(t) = pat { pat = &t.pat }
    let x = match pat { Pat::Ident(i) if i.mutability.is_some() && i.by_ref.is_none() => &i.ident, _ => return None };
    let xs = x.to_string();
    let init = strip(&l.init.as_ref()?.expr);
    let w = match b { Stmt::Expr(Expr::While(w), _) if w.label.is_none() => w, _ => return None };
    let c = match strip(&w.cond) { Expr::Binary(c) => c, _ => return None };
    let (last, body) = w.body.stmts.split_last()?;
    let blk = syn::Block { brace_token: w.body.brace_token, stmts: body.to_vec() };
    if mentions(&blk, "break") || mentions(&blk, "continue") { return None }
    let zero = |e: &Expr| ts(strip(e)).trim_end_matches(|c: char| c.is_alphanumeric()).is_empty() && matches!(strip(e), Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) if i.base10_digits() == "0");
    let step = |plus: bool| match last { Stmt::Expr(Expr::Binary(s), Some(_)) => ts(strip(&s.left)) == xs && matches!(strip(&s.right), Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) if i.base10_digits() == "1") && if plus { matches!(s.op, syn::BinOp::AddAssign(_)) } else { matches!(s.op, syn::BinOp::SubAssign(_)) }, _ => false };
    // the bound does not change in the body: nothing in the body assigns to, pushes to or mutably borrows one of its names
    let fixed = |n: &Expr| { let t = format!(" {} ", ts(&blk)); let mut ids = HashSet::new(); fn go(t: TokenStream, o: &mut HashSet<String>) { for t in t { match t { TokenTree::Ident(i) => { o.insert(i.to_string()); } TokenTree::Group(g) => go(g.stream(), o), _ => () } } } go(n.to_token_stream(), &mut ids); ids.iter().all(|i| ![format!(" {} = ", i), format!(" {} . push", i), format!("& mut {} ", i), format!(" {} += ", i), format!(" {} -= ", i), format!(" mut {} ", i), format!(" let {} ", i)].iter().any(|p| t.contains(p.as_str()))) };
    if after.iter().any(|s| mentions(s, &xs)) && !matches!(init, Expr::Call(_)) { return None }
    let dummy = |n: &Expr| -> Stmt { syn::parse_quote!(for _ in 0..#n #blk) };
    match c.op {
        syn::BinOp::Lt(_) if ts(strip(&c.left)) == xs && zero(init) && step(true) => {
            let n = &c.right;
            let t = ts(&blk);
            if !fixed(n) || mentions(n, &xs) || t.contains(&format!("{} =", xs)) && !t.contains(&format!("{} ==", xs)) || t.contains(&format!("{} += ", xs)) || t.contains(&format!("{} -= ", xs)) || t.contains(&format!("& mut {} ", xs)) || t.contains(&format!("let {} ", xs)) || t.contains(&format!("mut {} ", xs)) { return None }
            Some((false, syn::parse_quote!(for #x in 0..#n #blk)))
        }
        syn::BinOp::Gt(_) | syn::BinOp::Ne(_) if ts(strip(&c.left)) == xs && zero(&c.right) && step(false) && !mentions(&blk, &xs) && !zero(init) => Some((false, dummy(init))),
        syn::BinOp::Lt(_) if ts(strip(&c.left)) == format!("{} . len ()", xs) && ["Vec :: new ()", "vec ! []"].contains(&&*ts(init)) && !mentions(&blk, &xs) => {
            match last { Stmt::Expr(Expr::MethodCall(m), Some(_)) if m.method == "push" && ts(&m.receiver) == xs && m.args.len() == 1 && !mentions(&m.args[0], &xs) => (), _ => return None }
            let n = match strip(&c.right) { Expr::Cast(k) if ts(&k.ty) == "usize" => strip(&k.expr), n => n };
            if !fixed(n) || mentions(n, &xs) { return None }
            let body = &w.body;
            Some((true, syn::parse_quote!(for _ in 0..#n #body)))
        }
        _ => None,
    }
}

fn scan(t: &[TokenTree], bound: &mut HashSet<String>, used: &mut Vec<String>) {
    const M: &[&str] = &["read_exact", "read_to_end", "fill_buf", "consume", "position", "read_until", "take", "write_all", "write", "read", "flush"];
    let id = |x: &TokenTree| match x { TokenTree::Ident(i) => Some(i.to_string()), TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
        let f = flat(g.stream()); if f.len() == 3 && f[0].to_string() == "&" && f[1].to_string() == "mut" { Some(f[2].to_string()) } else if f.len() == 4 && f[0].to_string() == "&" && f[1].to_string() == "mut" && f[2].to_string() == "*" { Some(f[3].to_string()) } else { None } }, _ => None };
    for (i, x) in t.iter().enumerate() {
        if let TokenTree::Ident(m) = x {
            let m = m.to_string();
            if M.contains(&&*m) && i >= 2 && t[i - 1].to_string() == "." {
                if let Some(r) = id(&t[i - 2]) { used.push(r) }
            }
            let path_xf = i >= 2 && t[i - 1].to_string() == ":" && (m.ends_with("_rd") || m.ends_with("_wr") || m.ends_with("_ard") || m.ends_with("_awr") || (m == "new" && i >= 3 && ["GzDecoder", "GzEncoder", "GzipDecoder", "GzipEncoder", "DecoderReader", "EncoderWriter"].contains(&&*t[i - 3].to_string())));
            if ["decode_sync", "decode_async", "encode_sync", "encode_async"].contains(&&*m) || path_xf {
                if let Some(TokenTree::Group(g)) = t.get(i + 1) { let f = flat(g.stream()); if let Some(a) = f.first() { if let Some(r) = id(a) { used.push(r) } } }
            }
            if m == "let" {
                for y in &t[i + 1..] { if let TokenTree::Ident(n) = y { if n == "mut" { continue } bound.insert(n.to_string()); } break }
            }
        }
        if let TokenTree::Group(g) = x { scan(&flat(g.stream()), bound, used) }
    }
}

fn copyish(attrs: &[syn::Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("derive") && ts(a).contains("Copy")) }

pub fn translate(code: &str, asy: bool) -> R<Value> {
    let re = fix_index(code);
    let file: syn::File = syn::parse_str(&re).map_err(|e| format!("parse of generated code: {}", e))?;
    let items = file.items.iter().find_map(|i| match i { Item::Mod(m) if m.ident == "_ps" => m.content.as_ref().map(|c| &c.1), _ => None }).ok_or("module _ps not found")?;
    let mut tr = Tr { cty: String::new(), cfn: String::new(), dec: false, loops: vec![], builds: vec![], mref: HashSet::new(), discr: HashMap::new(), tpls: { let mut t = templates(false); if asy { t.extend(templates(true)) } t }, methods: HashSet::new(), params: vec![], native: false };
    let support = ["DecodeError", "EncodeError"];
    let mut out = String::new();
    let mut types = vec![];
    let mut fns = vec![];
    // method names of the generated types
    for i in items {
        if let Item::Impl(im) = i { for x in &im.items { if let syn::ImplItem::Fn(f) = x { let n = f.sig.ident.to_string(); if !n.starts_with("encode") && !n.starts_with("decode") { tr.methods.insert(n); } } } }
        if let Item::Enum(e) = i {
            if e.variants.iter().all(|v| v.discriminant.is_some()) {
                tr.discr.insert(e.ident.to_string(), e.variants.iter().map(|v| (v.ident.to_string(), ts(&v.discriminant.as_ref().unwrap().1).replace("- ", "-"))).collect());
            }
        }
    }
    for i in items {
        match i {
            Item::Use(_) => (),
            Item::Type(t) if t.ident == "Result" => (),
            Item::Type(t) => out += &format!("pub type {} = {};\n", t.ident, ts(&t.ty)),
            Item::Fn(f) if f.sig.ident == "encode_error" || f.sig.ident == "decode_error" => (),
            Item::Struct(s) if support.contains(&&*s.ident.to_string()) => (),
            Item::Struct(s) => {
                let n = s.ident.to_string();
                if copyish(&s.attrs) { out += "#[derive(Clone, Copy)]\n" }
                let mut fl = vec![];
                match &s.fields {
                    syn::Fields::Named(f) => {
                        let mut v = vec![];
                        for x in &f.named { let t = tr.ty(&x.ty)?; v.push(format!("pub {}: {}", x.ident.as_ref().unwrap(), t)); fl.push(json!([x.ident.as_ref().unwrap().to_string(), t])) }
                        out += &format!("pub struct {} {{ {} }}\n", n, v.join(", "));
                    }
                    syn::Fields::Unnamed(f) => {
                        let v: Vec<String> = f.unnamed.iter().map(|x| Ok(format!("pub {}", tr.ty(&x.ty)?))).collect::<R<_>>()?;
                        out += &format!("pub struct {}({});\n", n, v.join(", "));
                        for x in &f.unnamed { fl.push(json!(["0", tr.ty(&x.ty)?])) }
                    }
                    syn::Fields::Unit => return bad("unit struct", s),
                }
                types.push(json!({"name": n, "kind": "struct", "fields": fl, "copy": copyish(&s.attrs)}));
                out += &format!("impl VsEq for {} {{ #[verifier::external_body] fn vs_eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\n", n);
            }
            Item::Enum(e) => {
                let n = e.ident.to_string();
                if copyish(&e.attrs) { out += "#[derive(Clone, Copy)]\n" }
                let mut v = vec![];
                let mut vs = vec![];
                for x in &e.variants {
                    match &x.fields {
                        syn::Fields::Unit => { v.push(x.ident.to_string()); vs.push(json!([x.ident.to_string(), null])) }
                        syn::Fields::Unnamed(f) => { let t: Vec<String> = f.unnamed.iter().map(|y| tr.ty(&y.ty)).collect::<R<_>>()?; v.push(format!("{}({})", x.ident, t.join(", "))); vs.push(json!([x.ident.to_string(), t])) }
                        syn::Fields::Named(f) => { let t: Vec<String> = f.named.iter().map(|y| Ok(format!("{}: {}", y.ident.as_ref().unwrap(), tr.ty(&y.ty)?))).collect::<R<_>>()?; v.push(format!("{} {{ {} }}", x.ident, t.join(", "))); vs.push(json!([x.ident.to_string(), t])) }
                    }
                }
                out += &format!("pub enum {} {{ {} }}\n", n, v.join(", "));
                out += &format!("impl VsEq for {} {{ #[verifier::external_body] fn vs_eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\n", n);
                types.push(json!({"name": n, "kind": "enum", "variants": vs, "discr": tr.discr.get(&n), "copy": copyish(&e.attrs)}));
            }
            Item::Impl(im) => {
                let n = ts(&im.self_ty);
                tr.cty = n.clone();
                match &im.trait_ {
                    None => {
                        out += &format!("impl {} {{\n", n);
                        for x in &im.items {
                            match x {
                                syn::ImplItem::Const(c) => out += &format!("pub exec const {}: Self /*@CON:{}:const {}@*/ {{ {} }}\n", c.ident, n, c.ident, tr.ex(&c.expr)?),
                                syn::ImplItem::Fn(f) => { out += &tr.func(f, None)?; fns.push(json!([n, f.sig.ident.to_string(), tr.params])) }
                                x => return bad("impl item", x),
                            }
                        }
                        out += "}\n";
                    }
                    Some((_, p, _)) => {
                        let t = p.segments.last().unwrap().ident.to_string();
                        if support.contains(&&*n) || t == "Default" { continue }
                        let m = match &*t { "BitOr" => "vs_bitor", "BitAnd" => "vs_bitand", "BitXor" => "vs_bitxor", "Not" => "vs_not", "BitOrAssign" => "vs_bitor_assign", "BitAndAssign" => "vs_bitand_assign", "BitXorAssign" => "vs_bitxor_assign", _ => return bad("trait impl", p) };
                        out += &format!("impl {} {{\n", n);
                        for x in &im.items {
                            match x {
                                syn::ImplItem::Type(_) => (),
                                syn::ImplItem::Fn(f) => { out += &tr.func(f, Some(m))?; fns.push(json!([n, m])) }
                                x => return bad("impl item", x),
                            }
                        }
                        out += "}\n";
                    }
                }
            }
            x => return bad("item", x),
        }
    }
    Ok(json!({"verus": out, "loops": tr.loops, "builds": tr.builds, "types": types, "fns": fns}))
}

/// the code of every template of a foreign type as a function of its own, in the translation
pub fn run_templates() -> Value {
    std::panic::set_hook(Box::new(|_| {}));
    let r = pb::PreludeImportResolver(crate::gen::Res { files: HashMap::new() });
    let mut out = vec![];
    for (f, name, nargs, ty) in [("v8", "v8", 0, "i8"), ("v16", "v16", 0, "i16"), ("v32", "v32", 0, "i32"), ("v64", "v64", 0, "i64"), ("v128", "v128", 0, "i128"), ("utf8", "utf8", 0, "String"), ("utf8", "utf8n", 1, "String"), ("utf16", "utf16n", 1, "String")] {
        for asy in [false, true] { for enc in [false, true] {
            let go = || -> R<Value> {
                let x = match r.resolve_ffi_type(f) { Ok(Some(x)) => x, _ => return Err("no such type".into()) };
                let a: Vec<TokenStream> = (0..nargs).map(|i: usize| { let i = quote::format_ident!("arg_{}", i); quote!(#i) }).collect();
                let ps = a.iter().map(|a| quote!(, #a: u64)).collect::<TokenStream>();
                let t: TokenStream = syn::parse_str(ty).unwrap();
                let body = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if enc { x.encoding_gen(quote!(writer), quote!(v), a.clone(), asy) } else { x.decoding_gen(quote!(reader), quote!(out), a.clone(), asy) })).map_err(|_| "panic".to_string())?;
                let code = if enc { quote!(pub fn encode_sync(writer: &mut R, v: #t #ps) -> Result<()> { #body Ok(()) }) } else { quote!(pub fn decode_sync(reader: &mut R #ps) -> Result<#t> { #body Ok(out) }) };
                let f: syn::ImplItemFn = syn::parse2(code.clone()).map_err(|e| e.to_string())?;
                let mut tr = Tr { cty: name.to_string(), cfn: String::new(), dec: false, loops: vec![], builds: vec![], mref: HashSet::new(), discr: HashMap::new(), tpls: vec![], methods: HashSet::new(), params: vec![], native: true };
                tr.mref.insert("reader".into());
                let o = tr.func(&f, Some(&format!("t_{}_{}{}", name, if enc { "enc" } else { "dec" }, if asy { "_async" } else { "" })))?;
                Ok(json!({"verus": o, "loops": tr.loops, "rust": code.to_string()}))
            };
            let mut v = match go() { Ok(v) => v, Err(e) => json!({"unsupported": e}) };
            v["name"] = json!(name); v["enc"] = json!(enc); v["async"] = json!(asy);
            out.push(v);
        } }
    }
    json!({ "results": out })
}

/// `r . 0usize` (a suffixed tuple index) is not accepted by syn
pub fn fix_index(code: &str) -> String {
    let mut o = String::new();
    let mut rest = code;
    while let Some(i) = rest.find(". 0usize") {
        o += &rest[..i];
        o += ". 0";
        rest = &rest[i + ". 0usize".len()..];
    }
    o + rest
}

pub fn run(v: &Value) -> Value {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = vec![];
    for p in v["programs"].as_array().unwrap() {
        let (src, files, a, w) = crate::gen::opts(p);
        out.push(match crate::gen::compile_one(&src, files, a, w) {
            Err((k, e)) => json!({"name": p["name"], "ok": false, "stage": k, "error": e}),
            Ok(t) => {
                let code = t.to_string();
                match translate(&code, a) {
                    Ok(x) => json!({"name": p["name"], "ok": true, "code": code, "tr": x}),
                    Err(e) => json!({"name": p["name"], "ok": true, "code": code, "unsupported": e}),
                }
            }
        });
    }
    json!({ "results": out })
}
/// `&mut dyn T`, `&mut (dyn T + ...)`
fn isdyn<T: quote::ToTokens>(t: &T) -> bool { let s = ts(t); s.starts_with("& mut dyn") || s.starts_with("& mut (dyn") }
