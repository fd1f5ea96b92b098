//! What the derive macro does with a grammar project: it gives code ("built") or panics ("refused").
//! Row: {id, dir, attrs: [..], write: [[file, text or null]..]}; dir stands for CARGO_MANIFEST_DIR; what `write` lists
//! is written or removed before.
use proc_macro2::TokenStream;
use quote::quote;
use serde_json::{json, Value};
use std::hash::{DefaultHasher, Hasher};
use std::io::{BufRead, Write};
use std::panic::catch_unwind;

fn tokens(row: &Value) -> TokenStream {
    let attrs = row["attrs"].as_array().unwrap().iter().map(|f| {
        let f: TokenStream = f.as_str().unwrap().parse().unwrap();
        quote! { #[#f] }
    });
    quote! { #(#attrs)* pub struct P; }
}

/// The documentation of everything that enumerates rules: (module, variant or "", text).
fn docs(items: &[syn::Item], path: &mut Vec<String>, out: &mut Vec<Value>) {
    use syn::ext::IdentExt;
    let text = |attrs: &[syn::Attribute]| {
        let lines: Vec<Vec<u32>> = attrs.iter().filter_map(|a| match &a.meta {
            syn::Meta::NameValue(m) if m.path.is_ident("doc") => match &m.value {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value().chars().map(|c| c as u32).collect()),
                _ => None,
            },
            _ => None,
        }).collect();
        (!lines.is_empty()).then(|| lines.join(&10))
    };
    for item in items {
        match item {
            syn::Item::Mod(m) => if let Some((_, items)) = &m.content {
                path.push(m.ident.unraw().to_string());
                docs(items, path, out);
                path.pop();
            },
            syn::Item::Enum(e) if e.ident == "Rule" => {
                if let Some(t) = text(&e.attrs) { out.push(json!([path, "", t])) }
                for v in &e.variants {
                    if let Some(t) = text(&v.attrs) { out.push(json!([path, v.ident.unraw().to_string(), t])) }
                }
            }
            _ => (),
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let child = std::thread::Builder::new().stack_size(1 << 29).spawn(|| {
        let mut out = std::io::stdout();
        for line in std::io::stdin().lock().lines() {
            let row: Value = serde_json::from_str(&line.unwrap()).unwrap();
            std::env::set_var("CARGO_MANIFEST_DIR", row["dir"].as_str().unwrap());
            for file in row["write"].as_array().into_iter().flatten() {
                let path = std::path::Path::new(file[0].as_str().unwrap());
                match file[1].as_str() {
                    Some(text) => {
                        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
                        std::fs::write(path, text).unwrap();
                    }
                    None => drop(std::fs::remove_file(path)),
                }
            }
            let res = catch_unwind(|| {
                let code = pest3_generator::typed::derive_typed_parser(tokens(&row), true, true);
                let mut hash = DefaultHasher::new();
                hash.write(code.to_string().as_bytes());
                let mut said = vec![];
                if row["docs"] == json!(true) {
                    docs(&syn::parse2::<syn::File>(code).expect("the generated code is not Rust").items, &mut vec![], &mut said);
                }
                (said, format!("{:016x}", hash.finish()))
            });
            let ans = match res {
                Ok((said, digest)) => json!({"id": row["id"], "res": "built", "why": "", "docs": said, "digest": digest}),
                Err(e) => {
                    let why = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                    json!({"id": row["id"], "res": "refused", "why": why.unwrap_or_default()})
                }
            };
            writeln!(out, "{ans}").unwrap();
            out.flush().unwrap();
        }
    });
    child.unwrap().join().unwrap();
}
