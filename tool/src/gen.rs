//! Runs the real compiler of /repo on every program of the input.
use protospec_build as pb;
use pb::asg::{self, Type};
use pb::{CompileOptions, FFIArgument, ForeignFunctionObj, ForeignTransform, ForeignTransformObj, ForeignTypeObj, ImportResolver, PreludeImportResolver, ScalarType};
use proc_macro2::TokenStream;
use quote::quote;
use serde_json::{json, Value};
use std::collections::HashMap;

/// A user-side foreign transform with one optional byte argument. The code it emits names types of
/// a support module the generated module is compiled against.
struct Xf { name: &'static str, args: Vec<(&'static str, ScalarType, bool)> }
impl ForeignTransform for Xf {
    fn decoding_gen(&self, input: TokenStream, args: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let f = quote::format_ident!("{}_{}", self.name, if is_async { "ard" } else { "rd" });
        quote! { crate::xf::#f(#input #(, #args)*) }
    }
    fn encoding_gen(&self, input: TokenStream, args: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let f = quote::format_ident!("{}_{}", self.name, if is_async { "awr" } else { "wr" });
        quote! { crate::xf::#f(#input #(, #args)*) }
    }
    fn arguments(&self) -> Vec<FFIArgument> {
        self.args.iter().map(|(n, t, o)| FFIArgument { name: n.to_string(), type_: Some(Type::Scalar((*t).into())), optional: *o }).collect()
    }
}

pub struct Res { pub files: HashMap<String, String> }
impl ImportResolver for Res {
    fn normalize_import(&self, import: &str) -> pb::Result<String> { Ok(import.trim_start_matches("./").to_string()) }
    fn resolve_import(&self, import: &str) -> pb::Result<Option<String>> { Ok(self.files.get(import).cloned()) }
    fn resolve_ffi_transform(&self, name: &str) -> pb::Result<Option<ForeignTransformObj>> {
        Ok(match name {
            "xfa" => Some(Box::new(Xf { name: "xfa", args: vec![] })),
            "xfb" => Some(Box::new(Xf { name: "xfb", args: vec![] })),
            "xfk" => Some(Box::new(Xf { name: "xfk", args: vec![("k", ScalarType::U8, false)] })),
            "xfm" => Some(Box::new(Xf { name: "xfm", args: vec![("m", ScalarType::U32, false), ("k", ScalarType::U8, false)] })),
            _ => None,
        })
    }
    fn resolve_ffi_type(&self, _name: &str) -> pb::Result<Option<ForeignTypeObj>> { Ok(None) }
    fn resolve_ffi_function(&self, _name: &str) -> pb::Result<Option<ForeignFunctionObj>> { Ok(None) }
    fn prelude_ffi_functions(&self) -> pb::Result<HashMap<String, ForeignFunctionObj>> { Ok(HashMap::new()) }
}

pub fn compile_one(src: &str, files: HashMap<String, String>, asy: bool, anyhow: bool) -> std::result::Result<TokenStream, (String, String)> {
    let src = src.to_string();
    let r = std::panic::catch_unwind(move || {
        let res = PreludeImportResolver(Res { files });
        let ast = pb::parse(&src).map_err(|e| ("parse".to_string(), e.to_string()))?;
        let asg = asg::Program::from_ast(&ast, &res).map_err(|e| ("semantic".to_string(), e.to_string()))?;
        let p = asg;
        let s = |x: &str| x.to_string();
        let opts = CompileOptions {
            enum_derives: vec![s("PartialEq"), s("Debug"), s("Clone"), s("Default")],
            struct_derives: vec![s("PartialEq"), s("Debug"), s("Clone"), s("Default")],
            include_async: asy, use_anyhow: anyhow, debug_mode: false,
        };
        Ok(pb::compile_program(&p, &opts))
    });
    match r {
        Ok(x) => x,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            Err(("panic".into(), m))
        }
    }
}

pub fn opts(p: &Value) -> (String, HashMap<String, String>, bool, bool) {
    let files = p["files"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect()).unwrap_or_default();
    (p["src"].as_str().unwrap().to_string(), files, p["async"].as_bool().unwrap_or(false), p["anyhow"].as_bool().unwrap_or(false))
}

pub fn run(v: &Value) -> Value {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = vec![];
    for p in v["programs"].as_array().unwrap() {
        let (src, files, a, w) = opts(p);
        let r = match compile_one(&src, files, a, w) {
            Ok(t) => json!({"name": p["name"], "ok": true, "code": t.to_string()}),
            Err((k, e)) => json!({"name": p["name"], "ok": false, "stage": k, "error": e}),
        };
        out.push(r);
    }
    json!({ "results": out })
}
