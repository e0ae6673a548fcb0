//! Extraction of functions of /repo itself for verification. Each function is taken from the source file as it stands;
//! the rewrites below replace constructs outside Verus' reach by calls of functions with a contract (py/direct.py), one
//! construct by one call. Everything else is copied.
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, ImplItem, Item, Lit, Pat, Stmt};

fn ts<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(p) => strip(&p.expr), x => x } }

struct Rw { loops: usize, err: Option<String>, spans: bool, consts: bool, temps: usize, macros: std::rc::Rc<Macros> }
/// macro_rules with one arm of the form ($a: expr, $b: ident, ..) => { .. }
type Macros = std::collections::HashMap<String, (Vec<(String, String)>, proc_macro2::TokenStream)>;

fn macro_rule(m: &syn::ItemMacro) -> Option<(String, (Vec<(String, String)>, proc_macro2::TokenStream))> {
    use proc_macro2::TokenTree as T;
    let name = m.ident.as_ref()?.to_string(); let t: Vec<T> = m.mac.tokens.clone().into_iter().collect();
    let (p, b) = match &t[..] { [T::Group(p), T::Punct(_), T::Punct(_), T::Group(b)] | [T::Group(p), T::Punct(_), T::Punct(_), T::Group(b), T::Punct(_)] => (p, b), _ => return None };
    let p: Vec<T> = p.stream().into_iter().collect(); let mut ps = vec![];
    for c in p.split(|x| matches!(x, T::Punct(c) if c.as_char() == ',')) {
        match c { [T::Punct(d), T::Ident(n), T::Punct(_), T::Ident(k)] if d.as_char() == '$' => ps.push((n.to_string(), k.to_string())), [] => (), _ => return None }
    }
    Some((name, (ps, b.stream())))
}
fn subst(t: proc_macro2::TokenStream, m: &std::collections::HashMap<String, proc_macro2::TokenStream>) -> proc_macro2::TokenStream {
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = t.into_iter().collect(); let mut o = proc_macro2::TokenStream::new(); let mut i = 0;
    while i < v.len() {
        match (&v[i], v.get(i + 1)) {
            (T::Punct(d), Some(T::Ident(n))) if d.as_char() == '$' && m.contains_key(&n.to_string()) => { o.extend(m[&n.to_string()].clone()); i += 2; continue }
            (T::Group(g), _) => o.extend(std::iter::once(T::Group(proc_macro2::Group::new(g.delimiter(), subst(g.stream(), m))))),
            (x, _) => o.extend(std::iter::once(x.clone())),
        }
        i += 1
    }
    o
}
fn expand(m: &syn::Macro, ms: &Macros) -> Option<Expr> {
    use proc_macro2::TokenTree as T;
    let (ps, body) = ms.get(&ts(&m.path))?;
    let t: Vec<T> = m.tokens.clone().into_iter().collect();
    let mut a: Vec<Vec<T>> = t.split(|x| matches!(x, T::Punct(c) if c.as_char() == ',')).map(|x| x.to_vec()).collect();
    if a.last().map_or(false, |x| x.is_empty()) { a.pop(); }
    if a.len() != ps.len() { return None }
    let mut h = std::collections::HashMap::new();
    for ((n, k), x) in ps.iter().zip(a) {
        let x: proc_macro2::TokenStream = x.into_iter().collect();
        h.insert(n.clone(), if k == "expr" && syn::parse2::<syn::Ident>(x.clone()).is_err() { quote!((#x)) } else { x });
    }
    syn::parse2(subst(body.clone(), &h)).ok()
}

impl Rw {
    fn bad<T: ToTokens>(&mut self, what: &str, t: &T) { if self.err.is_none() { self.err = Some(format!("{}: {}", what, ts(t).chars().take(160).collect::<String>())) } }
    fn closure(&mut self, e: &Expr, ty: syn::Type) -> Option<Expr> {
        let c = match e { Expr::Closure(c) if c.inputs.len() == 1 => c, x => { self.bad("closure", x); return None } };
        let p = match &c.inputs[0] { Pat::Ident(i) => i.ident.clone(), x => { self.bad("closure argument", x); return None } };
        let mut b = (*c.body).clone(); self.visit_expr_mut(&mut b);
        // the text of the closure's contract is the expression itself
        Some(parse_quote!(vs_closure!(#p, #ty, #b)))
    }
    fn slice(e: &Expr) -> Option<Expr> {
        // &x[a..b] and its forms
        if let Expr::Reference(r) = e {
            if let Expr::Index(i) = strip(&r.expr) {
                if let Expr::Range(g) = strip(&i.index) {
                    if !matches!(g.limits, syn::RangeLimits::HalfOpen(_)) { return None }
                    let x = &i.expr;
                    return Some(match (&g.start, &g.end) {
                        (Some(a), Some(b)) => parse_quote!(vs_slice(#x, #a, #b)),
                        (Some(a), None) => parse_quote!(vs_slice_from(#x, #a)),
                        (None, Some(b)) => parse_quote!(vs_slice(#x, 0, #b)),
                        (None, None) => parse_quote!(#x),
                    });
                }
            }
        }
        None
    }
}

struct HasTry(bool);
impl<'a> syn::visit::Visit<'a> for HasTry { fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true } }
/// one closure argument |x| e (or || e)
fn lambda(e: &Expr) -> Option<(Option<Pat>, Expr)> {
    match e { Expr::Closure(c) if c.inputs.len() <= 1 => Some((c.inputs.first().cloned(), (*c.body).clone())), _ => None }
}

impl Rw {
    /// arithmetic on constants: macro_rules are expanded, combinators become matches, what an error says is left out
    fn consts(&mut self, e: &mut Expr) {
        let n: Option<Expr> = match e {
            Expr::Macro(m) if ts(&m.mac.path) == "unimplemented" => Some(parse_quote!(vs_abort())),
            Expr::Macro(m) if ts(&m.mac.path) == "unreachable" || ts(&m.mac.path) == "panic" => Some(parse_quote!(vs_never())),
            Expr::Macro(m) if ts(&m.mac.path) == "format" => Some(if m.mac.tokens.to_string().starts_with("\"{}\" ,") { let a: proc_macro2::TokenStream = m.mac.tokens.clone().into_iter().skip(2).collect(); parse_quote!(vs_format(#a)) } else { parse_quote!(vs_text()) }),
            Expr::Macro(m) => expand(&m.mac, &self.macros.clone()).map(|mut x| { self.consts(&mut x); x }),
            Expr::MethodCall(m) => {
                let (r, a) = (&m.receiver, m.args.first());
                match (&*m.method.to_string(), m.args.len()) {
                    ("map", 1) => match a.unwrap() { Expr::Path(p) => Some(parse_quote!(match #r { Some(vs_x) => Some(#p(vs_x)), None => None })), a => lambda(a).and_then(|(p, b)| p.map(|p| parse_quote!(match #r { Some(#p) => Some(#b), None => None }))) },
                    ("and_then", 1) => lambda(a.unwrap()).and_then(|(p, b)| p.map(|p| parse_quote!(match #r { Some(#p) => #b, None => None }))),
                    ("map_err", 1) => lambda(a.unwrap()).and_then(|(p, b)| p.map(|p| parse_quote!(match #r { Ok(vs_x) => Ok(vs_x), Err(#p) => Err(#b) }))),
                    ("ok", 0) => Some(parse_quote!(match #r { Ok(vs_x) => Some(vs_x), Err(_) => None })),
                    ("ok_or_else", 1) => lambda(a.unwrap()).map(|(_, b)| parse_quote!(match #r { Some(vs_x) => Ok(vs_x), None => Err(#b) })),
                    ("ok_or", 1) => Some(parse_quote!(match #r { Some(vs_x) => Ok(vs_x), None => Err(#a) })),
                    ("parse", 0) => Some(parse_quote!(vs_parse(#r))),
                    ("starts_with", 1) => Some(parse_quote!(vs_starts_with(#r, #a))),
                    ("to_string", 0) => Some(parse_quote!(vs_text())),
                    _ => None,
                }
            }
            Expr::Reference(r) => match strip(&r.expr) { Expr::Index(i) => match strip(&i.index) { Expr::Range(g) if g.end.is_none() && g.start.is_some() => { let (x, a) = (&i.expr, &g.start); Some(parse_quote!(vs_str_from(#x, #a))) } _ => None }, _ => None },
            Expr::Call(c) => {
                let f = ts(&c.func).replace(' ', "");
                if f == "u32::try_from" { let a = &c.args; *e = parse_quote!(vs_u32(#a)); return }
                match f.strip_suffix("::from_str_radix") { Some(t) => { let g = format_ident!("vs_radix_{}", t); let a = &c.args; Some(parse_quote!(#g(#a))) } None => None }
            }
            _ => None,
        };
        if let Some(x) = n { *e = x }
    }
    /// the parser: loops over patterns become loops with a match, the combinators of Option become matches, positions are added by a function
    fn parser(&mut self, e: &mut Expr) {
        let n: Option<Expr> = match e {
            Expr::While(w) => {
                let b = &w.body.stmts; let l = &w.label;
                if let Expr::Let(x) = &*w.cond { let (p, x) = (&x.pat, &x.expr); Some(parse_quote!(#l loop { match #x { #p => { #(#b)* } _ => { break; } } })) }
                else { let c = &w.cond; Some(parse_quote!(#l loop { if !(#c) { break; } #(#b)* })) }
            }
            Expr::ForLoop(f) => match method(&f.expr, "rev", 0).and_then(|r| method(&r.receiver, "into_iter", 0)) {
                Some(m) => { let (x, p, b, l) = (&m.receiver, &f.pat, &f.body.stmts, &f.label); let k = self.temps; self.temps += 1; let v = format_ident!("vs_l{}", k); Some(parse_quote!({ let mut #v = #x; #l loop { match #v.pop() { Some(#p) => { #(#b)* } None => { break; } } } })) }
                None => None,
            },
            Expr::MethodCall(m) => {
                let (r, a) = (&m.receiver, m.args.first());
                match (&*m.method.to_string(), m.args.len()) {
                    ("map", 1) => lambda(a.unwrap()).and_then(|(p, b)| p.map(|p| parse_quote!(match #r { Some(#p) => Some(#b), None => None }))),
                    ("ok_or", 1) => Some(parse_quote!(match #r { Some(vs_x) => Ok(vs_x), None => Err(#a) })),
                    ("ok_or_else", 1) => lambda(a.unwrap()).map(|(_, b)| parse_quote!(match #r { Some(vs_x) => Ok(vs_x), None => Err(#b) })),
                    ("unwrap_or", 1) => Some(parse_quote!({ let vs_d = #a; match #r { Some(vs_x) => vs_x, None => vs_d } })),
                    ("or_else", 1) => lambda(a.unwrap()).map(|(_, b)| parse_quote!(match #r { Some(vs_x) => Some(vs_x), None => #b })),
                    ("ok", 0) => Some(parse_quote!(match #r { Ok(vs_x) => Some(vs_x), Err(_) => None })),
                    ("any", 1) => match (method(r, "iter", 0), lambda(a.unwrap())) {
                        (Some(i), Some((Some(Pat::Ident(p)), b))) => match strip(&b) {
                            Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_)) && ts(&b.left) == p.ident.to_string() => { let (x, y) = (&i.receiver, &b.right); Some(parse_quote!(vs_any_eq(#x, #y))) }
                            _ => None,
                        },
                        _ => None,
                    },
                    ("last", 0) => Some(parse_quote!(vs_last(&#r))),
                    ("reverse", 0) => Some(parse_quote!(vs_reverse(&mut #r))),
                    ("clone", 0) => Some(parse_quote!(#r.vs_clone())),
                    _ => None,
                }
            }
            Expr::Call(c) => {
                let f = ts(&c.func).replace(' ', "");
                // what an error says is left out
                if f.ends_with("ParseError::Unexpected") && c.args.len() == 2 && ts(&c.args[1]) != "vs_text ()" { let (g, a) = (&c.func, &c.args[0]); Some(parse_quote!(#g(#a, vs_text()))) } else { None }
            }
            Expr::Macro(m) if ts(&m.mac.path) == "unimplemented" || ts(&m.mac.path) == "unreachable" => Some(parse_quote!(vs_never())),
            Expr::Reference(r) if r.mutability.is_none() => match &*r.expr {
                Expr::Array(a) if !a.elems.is_empty() => { let x = a.elems.iter(); Some(parse_quote!(vs_arr!(#(#x),*))) }
                _ => None,
            },
            _ => None,
        };
        if let Some(x) = n { *e = x; return }
    }
}

fn is_call(e: &Expr, f: &str) -> Option<Vec<Expr>> {
    if let Expr::Call(c) = strip(e) { if ts(&c.func).replace(' ', "") == f { return Some(c.args.iter().cloned().collect()) } }
    None
}
fn method<'a>(e: &'a Expr, m: &str, n: usize) -> Option<&'a syn::ExprMethodCall> {
    if let Expr::MethodCall(c) = strip(e) { if c.method == m && c.args.len() == n { return Some(c) } }
    None
}

impl VisitMut for Rw {
    fn visit_lit_mut(&mut self, l: &mut Lit) { if let Lit::Byte(b) = l { *l = Lit::Int(syn::LitInt::new(&format!("{}u8", b.value()), b.span())) } }
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) { visit_mut::visit_expr_closure_mut(self, c) }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut o = vec![];
        for s in b.stmts.drain(..) { o.push(s) }
        b.stmts = o;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.spans { self.parser(e) }
        if self.consts { self.consts(e) }
        // before the parts: shapes recognised as a whole
        if let Some(m) = method(e, "to_string", 0) {
            if let Some(a) = is_call(&m.receiver, "String::from_utf8_lossy") { let a = &a[0]; *e = parse_quote!(vs_lossy(#a)) }
        } else if let Some(m) = method(e, "position", 1) {
            if let Some(r) = method(&m.receiver, "iter", 0) {
                if let Some(c) = self.closure(&m.args[0], parse_quote!(&u8)) { let x = &r.receiver; *e = parse_quote!(vs_position(#x, #c)) }
            } else if let Some(r) = method(&m.receiver, "windows", 1) {
                if let Some(c) = self.closure(&m.args[0], parse_quote!(&[u8])) { let (x, n) = (&r.receiver, &r.args[0]); *e = parse_quote!(vs_windows_position(#x, #n, #c)) }
            } else { self.bad("position", e) }
        } else if let Some(m) = method(e, "collect", 0) {
            match method(&m.receiver, "filter", 1).and_then(|f| method(&f.receiver, "into_iter", 0).map(|i| (i.receiver.clone(), f.args[0].clone()))) {
                Some((x, c)) => if let Some(c) = self.closure(&c, parse_quote!(&SpannedToken)) { *e = parse_quote!(vs_into_filter(#x, #c)) },
                None => self.bad("collect", e),
            }
        }
        if let Expr::Match(m) = e {
            if let (Expr::Reference(r), true) = (strip(&m.expr), m.arms.iter().any(|a| matches!(&a.pat, Pat::Lit(_)))) {
                if let Expr::Unary(syn::ExprUnary { op: syn::UnOp::Deref(_), expr: x, .. }) = strip(&r.expr) {
                    // match &*string { "a" => .., _ => .. }: a chain of comparisons
                    let mut o: Option<Expr> = None;
                    for a in m.arms.iter().rev() {
                        let b = &a.body;
                        if a.guard.is_some() { self.bad("guard", &m.expr); return }
                        let c: Vec<Expr> = match &a.pat {
                            Pat::Wild(_) => { o = Some(parse_quote!({ #b })); continue }
                            Pat::Lit(l) => vec![parse_quote!(vs_streq(&#x, #l))],
                            Pat::Or(p) => p.cases.iter().map(|l| parse_quote!(vs_streq(&#x, #l))).collect(),
                            p => { self.bad("pattern", p); return }
                        };
                        let els = match o { Some(x) => x, None => { self.bad("no default", &m.expr); return } };
                        o = Some(parse_quote!(if #(#c)||* { #b } else #els));
                    }
                    *e = o.unwrap();
                }
            } else if let Expr::Index(_) = strip(&m.expr) {
                let x = m.expr.clone(); *m.expr = parse_quote!(vs_m);
                let m2 = m.clone(); *e = parse_quote!({ let vs_m = #x; #m2 });
            }
        }
        if let Expr::ForLoop(f) = e {
            let (p, b) = (f.pat.clone(), f.body.stmts.clone());
            let x: Expr = match method(&f.expr, "iter", 0) { Some(m) => { let r = &m.receiver; match strip(r) { Expr::Index(_) | Expr::Field(_) => parse_quote!(&#r), _ => (*m.receiver).clone() } } None => (*f.expr).clone() };
            let k = self.loops; let (s, i) = (format_ident!("vs_s{}", k), format_ident!("vs_i{}", k));
            *e = parse_quote!({ let #s = #x; let mut #i: usize = 0; while #i < #s.len() { let #p = &#s[#i]; #i = #i + 1; #(#b)* } });
        }
        let mine = match e { Expr::While(_) | Expr::Loop(_) => Some(self.loops), _ => None };
        match e {
            Expr::While(w) => { let k = self.loops; self.loops += 1; let m = format_ident!("vs_mark_{}", k); w.body.stmts.insert(0, parse_quote!(#m!();)) }
            Expr::Loop(w) => { let k = self.loops; self.loops += 1; let m = format_ident!("vs_mark_{}", k); w.body.stmts.insert(0, parse_quote!(#m!();)) }
            _ => (),
        }
        if let Some(x) = Rw::slice(e) { *e = x }
        visit_mut::visit_expr_mut(self, e);
        let n: Option<Expr> = match e {
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_)) && (is_call(&b.left, "vs_slice").is_some() || is_call(&b.right, "vs_slice").is_some()) => { let (l, r) = (&b.left, &b.right); Some(parse_quote!(vs_slice_eq(#l, #r))) }
            Expr::Binary(b) if self.spans && matches!(b.op, syn::BinOp::Add(_)) => { let (l, r) = (&b.left, &b.right); Some(parse_quote!(vs_span_add(#l, #r))) }
            Expr::Binary(b) if self.spans && matches!(b.op, syn::BinOp::Eq(_)) && ts(&b.right).starts_with("Token ::") => { let (l, r) = (&b.left, &b.right); Some(parse_quote!(vs_eq(&#l, &#r))) }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_)) && matches!(strip(&b.left), Expr::Reference(_)) => { let (l, r) = (&b.left, &b.right); Some(parse_quote!(vs_eq(#l, #r))) }
            Expr::MethodCall(m) => {
                let r0 = match strip(&m.receiver) { Expr::Index(_) => { let x = &m.receiver; Rw::slice(&parse_quote!(&#x)).unwrap_or_else(|| (**x).clone()) } _ => (*m.receiver).clone() }; let r = &r0; let a: Vec<&Expr> = m.args.iter().collect();
                match (&*m.method.to_string(), a.len()) {
                    (n @ ("is_ascii_whitespace" | "is_ascii_alphabetic" | "is_ascii_alphanumeric" | "is_ascii_digit" | "is_ascii_hexdigit" | "as_bytes" | "to_vec" | "unwrap_or_default"), 0) => { let f = format_ident!("vs_{}", n); Some(parse_quote!(#f(#r))) }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                let f = match &*ts(&c.func).replace(' ', "") { "u8::from_str_radix" => "vs_u8_radix", "std::str::from_utf8" => "vs_from_utf8", "String::from_utf8" => "vs_string_from_utf8", _ => "" };
                if f.is_empty() { None } else { let f = format_ident!("{}", f); let a = &c.args; Some(parse_quote!(#f(#a))) }
            }
            Expr::Macro(m) => match &*ts(&m.mac.path) {
                "vec" if m.mac.tokens.is_empty() => Some(parse_quote!(Vec::new())),
                "protospec_err" => Some(parse_quote!(vs_protospec_err())),
                "matches" => None,
                x if x.starts_with("vs_mark_") || x == "vs_closure" || x == "vs_arr" || x.starts_with("vs_pre_") => None,
                _ => { let x = e.clone(); self.bad("macro", &x); None }
            },
            _ => None,
        };
        if let Some(n) = n { *e = n }
        if let (true, Some(k)) = (self.spans, mine) { let m = format_ident!("vs_pre_{}", k); let x = e.clone(); *e = parse_quote!({ #m!(); #x }) }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let (true, Stmt::Macro(m)) = (self.consts, &*s) { let mut e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() }); self.consts(&mut e); if !matches!(e, Expr::Macro(_)) { *s = Stmt::Expr(e, m.semi_token) } }
        if let Stmt::Macro(m) = s { let p = ts(&m.mac.path); if !p.starts_with("vs_mark_") && !p.starts_with("vs_pre_") { let x = m.clone(); self.bad("macro", &x) } }
        visit_mut::visit_stmt_mut(self, s);
    }
}

fn func(name: String, sig: &syn::Signature, block: &syn::Block, spans: bool, consts: bool, macros: &std::rc::Rc<Macros>) -> Value {
    let mut b = block.clone(); let mut s = sig.clone(); let mut rw = Rw { loops: 0, err: None, spans, consts, temps: 0, macros: macros.clone() };
    rw.visit_block_mut(&mut b);
    let ret = match &s.output { syn::ReturnType::Type(_, t) => Some(ts(t)), _ => None };
    s.output = syn::ReturnType::Default;
    json!({"name": name, "head": ts(&s), "ret": ret, "body": ts(&b), "loops": rw.loops, "unsupported": rw.err})
}

pub fn run(v: &Value) -> Value {
    let mut out = serde_json::Map::new(); let spans = v["spans"].as_bool().unwrap_or(false); let consts = v["consts"].as_bool().unwrap_or(false);
    for f in v["files"].as_array().unwrap() {
        let path = f.as_str().unwrap();
        let text = match std::fs::read_to_string(path) { Ok(x) => x, Err(e) => { out.insert(path.into(), json!({"error": e.to_string()})); continue } };
        let file = match syn::parse_file(&text) { Ok(x) => x, Err(e) => { out.insert(path.into(), json!({"error": e.to_string()})); continue } };
        let (mut fns, mut types) = (vec![], vec![]);
        let macros = std::rc::Rc::new(file.items.iter().filter_map(|i| match i { Item::Macro(m) => macro_rule(m), _ => None }).collect::<Macros>());
        for it in &file.items {
            match it {
                Item::Fn(x) => fns.push(func(x.sig.ident.to_string(), &x.sig, &x.block, spans, consts, &macros)),
                Item::Impl(x) => {
                    let ty = ts(&x.self_ty); let tr = x.trait_.as_ref().map(|t| ts(&t.1));
                    for i in &x.items { if let ImplItem::Fn(m) = i { let mut j = func(format!("{}::{}", ty, m.sig.ident), &m.sig, &m.block, spans, consts, &macros); j["trait"] = json!(tr); j["assoc"] = json!(x.items.iter().filter_map(|i| match i { ImplItem::Type(t) => Some(ts(t)), _ => None }).collect::<Vec<_>>()); fns.push(j) } }
                }
                Item::Enum(x) => {
                    let vs: Vec<Value> = x.variants.iter().map(|v| json!([v.ident.to_string(), match &v.fields { syn::Fields::Unit => json!(null), syn::Fields::Unnamed(f) => json!(f.unnamed.iter().map(|f| ts(&f.ty)).collect::<Vec<_>>()), syn::Fields::Named(f) => json!(f.named.iter().map(|f| json!([ts(&f.ident), ts(&f.ty)])).collect::<Vec<_>>()) }])).collect();
                    types.push(json!({"kind": "enum", "name": x.ident.to_string(), "variants": vs}))
                }
                Item::Struct(x) => types.push(json!({"kind": "struct", "name": x.ident.to_string(), "fields": x.fields.iter().map(|f| json!([ts(&f.ident), ts(&f.ty)])).collect::<Vec<_>>()})),
                _ => (),
            }
        }
        out.insert(path.into(), json!({"fns": fns, "types": types}));
    }
    Value::Object(out)
}

fn tok(t: &protospec_build::Token) -> Value {
    use protospec_build::Token::*;
    match t { Ident(s) => json!(["Ident", s]), Int(s) => json!(["Int", s]), CommentLine(s) => json!(["CommentLine", s]), CommentBlock(s) => json!(["CommentBlock", s]), String(b) => json!(["String", b]), x => json!(format!("{:?}", x)) }
}

/// what the tokenizer of /repo answers: [[token, line_start, col_start, line_stop, col_stop], ..] or null for an error
pub fn tokens(v: &Value) -> Value {
    std::panic::set_hook(Box::new(|_| ()));
    let o: Vec<Value> = v["texts"].as_array().unwrap().iter().map(|t| {
        let t = t.as_str().unwrap().to_string(); let strip = v["strip"].as_bool().unwrap_or(false);
        match std::panic::catch_unwind(move || protospec_build::tokenize(&t, strip)) {
            Ok(Ok(x)) => json!(x.iter().map(|t| json!([tok(&t.token), t.span.line_start, t.span.col_start, t.span.line_stop, t.span.col_stop])).collect::<Vec<_>>()),
            Ok(Err(e)) => json!({"error": e.to_string()}),
            Err(_) => json!({"panic": true}),
        }
    }).collect();
    json!(o)
}

fn no_span(v: Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.into_iter().filter(|(k, _)| k != "span").map(|(k, v)| (k, no_span(v))).collect()),
        Value::Array(a) => Value::Array(a.into_iter().map(no_span).collect()),
        v => v,
    }
}
/// what parse makes of texts
pub fn parse(v: &Value) -> Value {
    std::panic::set_hook(Box::new(|_| ()));
    let o: Vec<Value> = v["texts"].as_array().unwrap().iter().map(|t| {
        let t = t.as_str().unwrap().to_string();
        match std::panic::catch_unwind(move || protospec_build::parse(&t)) {
            Ok(Ok(x)) => no_span(serde_json::to_value(&x).unwrap()),
            Ok(Err(e)) => json!({"error": e.to_string()}),
            Err(_) => json!({"panic": true}),
        }
    }).collect();
    json!(o)
}

/// the values of the items of enums and bitfields in the code emitted for texts
pub fn consts(v: &Value) -> Value {
    std::panic::set_hook(Box::new(|_| ()));
    let o: Vec<Value> = v["texts"].as_array().unwrap().iter().map(|t| {
        match crate::gen::compile_one(t.as_str().unwrap(), Default::default(), false, false) {
            Err((stage, e)) => json!({"error": e, "stage": stage}),
            Ok(code) => {
                let f: syn::File = match syn::parse2(code) { Ok(f) => f, Err(e) => return json!({"unreadable": e.to_string()}) };
                let mut o = serde_json::Map::new();
                fn walk(items: &[Item], o: &mut serde_json::Map<String, Value>) {
                    for i in items {
                        match i {
                            Item::Mod(m) => if let Some((_, x)) = &m.content { walk(x, o) },
                            Item::Enum(e) => for v in &e.variants { if let Some((_, d)) = &v.discriminant { o.insert(format!("{}.{}", e.ident, v.ident), json!(ts(d).replace(' ', ""))); } },
                            Item::Impl(m) if m.trait_.is_none() => for c in &m.items { if let ImplItem::Const(c) = c { if let Expr::Call(k) = &c.expr { if let Some(a) = k.args.first() { o.insert(format!("{}.{}", ts(&m.self_ty), c.ident), json!(ts(a).replace(' ', ""))); } } } },
                            _ => (),
                        }
                    }
                }
                walk(&f.items, &mut o);
                Value::Object(o)
            }
        }
    }).collect();
    json!(o)
}
