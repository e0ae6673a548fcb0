use serde_json::{json, Value};
use std::io::Read;
mod direct;
mod gen;
mod translate;

fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let v: Value = serde_json::from_str(&s).expect("json input");
    let out = match &*cmd {
        "gen" => gen::run(&v),
        "direct" => direct::run(&v),
        "tokens" => direct::tokens(&v),
        "parse" => direct::parse(&v),
        "consts" => direct::consts(&v),
        "templates" => translate::run_templates(),
        "translate" => translate::run(&v),
        _ => { eprintln!("usage: psv gen < in.json"); std::process::exit(2) }
    };
    println!("{}", json!(out));
}
