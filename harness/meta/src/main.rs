//! Reads grammar texts with the real grammar parser and prints what was read.
//! row in:  {"id":n,"text":"..."}
//! row out: {"id":n,"res":"ok"|"err"|"panic", "rules":[...],"doc":[...],"imports":[...],"at":[start,end]}
use pest3_meta::parser::{parse, Import, ParseExpr, ParseNode, PathArgs, Trivia};
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn codes(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn triv(t: &Trivia) -> Value {
    json!(match t {
        Trivia::None => 0,
        Trivia::Optional => 1,
        Trivia::Mandatory => 2,
    })
}
fn opt<T: Copy + Into<i128>>(x: Option<T>) -> Value {
    // numbers as decimal digits, so that TLC's 32-bit integers are no limit
    match x {
        None => json!([]),
        Some(x) => codes(&x.into().to_string()),
    }
}
fn node(n: &ParseNode) -> Value {
    expr(&n.expr)
}
fn expr(e: &ParseExpr) -> Value {
    match e {
        ParseExpr::Str(s) => json!(["str", codes(s)]),
        ParseExpr::Insens(s) => json!(["insens", codes(s)]),
        ParseExpr::Range(a, b) => json!(["range", *a as u32, *b as u32]),
        ParseExpr::Path(p, args) => {
            let p: Vec<Value> = p.iter().map(|s| codes(s)).collect();
            match args {
                None => json!(["path", p]),
                Some(PathArgs::Call(a)) => json!(["call", p, a.iter().map(node).collect::<Vec<_>>()]),
                Some(PathArgs::Slice(r)) => {
                    json!(["slice", p, opt(r.start.map(|x| x as i128)), opt(r.end.map(|x| x as i128))])
                }
            }
        }
        ParseExpr::PosPred(x) => json!(["pos", node(x)]),
        ParseExpr::NegPred(x) => json!(["neg", node(x)]),
        ParseExpr::Seq(a, b, t) => json!(["seq", node(a), node(b), triv(t)]),
        ParseExpr::Choice(a, b) => json!(["choice", node(a), node(b)]),
        ParseExpr::Opt(x) => json!(["opt", node(x)]),
        ParseExpr::Rep(x) => json!(["star", node(x)]),
        ParseExpr::RepOnce(x) => json!(["plus", node(x)]),
        ParseExpr::RepRange(x, r) => {
            json!(["rep", node(x), opt(r.start.map(|x| x as i128)), opt(r.end.map(|x| x as i128))])
        }
        ParseExpr::Separated(x, t) => json!(["sep", node(x), triv(t)]),
    }
}

fn one(row: &Value) -> Value {
    let text = row["text"].as_str().unwrap().to_string();
    let id = row["id"].clone();
    let root = std::path::PathBuf::from(row["root"].as_str().unwrap_or("/nonexistent/grammar.pest"));
    let r = std::panic::catch_unwind(|| match parse(&text, &root) {
        Err(e) => {
            let at = match e.location {
                pest_loc::Pos(p) => json!([p, p]),
                pest_loc::Span((a, b)) => json!([a, b]),
            };
            json!({"id": id, "res": "err", "at": at})
        }
        Ok(m) => {
            let rules: Vec<Value> = m
                .rules
                .iter()
                .map(|r| {
                    json!([
                        codes(&r.name),
                        r.args.iter().map(|a| codes(a)).collect::<Vec<_>>(),
                        r.silent as u32,
                        r.doc.iter().map(|a| codes(a)).collect::<Vec<_>>(),
                        node(&r.node)
                    ])
                })
                .collect();
            let imports: Vec<Value> = m
                .imports
                .iter()
                .map(|i| match i {
                    Import::Builtin(a, p) => {
                        json!([codes(a), p.iter().map(|s| codes(s)).collect::<Vec<_>>()])
                    }
                    Import::File(a, _) => json!([codes(a), []]),
                })
                .collect();
            let doc: Vec<Value> = m.doc.grammar_doc.iter().map(|a| codes(a)).collect();
            let mut res = json!({"id": id, "res": "ok", "rules": rules, "doc": doc, "imports": imports});
            if row["put"] == json!(true) {
                // every name a rule could be given something for, and what the rule says then
                let new = &m.rules.last().unwrap().node.expr;
                let first = m.rules[0].name.clone();
                let puts = m.rules.iter().map(|r| {
                    let names = r.args.iter().chain(Some(&first)).chain(Some(&r.name));
                    let put = |name: &String| {
                        let mut e = r.node.expr.clone();
                        let some = e.replace(name, new);
                        json!([codes(name), some, expr(&e)])
                    };
                    names.map(put).collect::<Vec<_>>()
                });
                res["puts"] = json!(puts.collect::<Vec<_>>());
            }
            res
        }
    });
    r.unwrap_or_else(|p| {
        let msg = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        json!({"id": row["id"], "res": "panic", "msg": msg})
    })
}
use pest_meta_loc as pest_loc;
mod pest_meta_loc {
    pub use pest::error::InputLocation::{Pos, Span};
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let row: Value = serde_json::from_str(&line).unwrap();
        let v = one(&row);
        writeln!(out, "{v}").unwrap();
        out.flush().unwrap();
    }
}
