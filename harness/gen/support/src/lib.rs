//! Observes parsers generated from grammars: runs every entry point of a rule and dumps outcome,
//! stack, report, pairs, and the typed tree together with what the accessors of every rule return.
//! Positions are reported in characters; a position off a boundary is a negative number.

use pest3_core::error::{ErrorVariant, InputLocation, LineColLocation};
use pest3_core::token::Pair;
use pest3_core::typed::template::*;
pub use pest3_core::typed::wrapper::Rule as RuleWrapper;
use pest3_core::typed::wrapper::{Bound, String as StrWrapper};
pub use pest3_core::typed::PairContainer;
use pest3_core::typed::{RuleType, Tracker, TypedNode, TypedParser};
use pest3_core::{Position, Span, Stack};
pub use serde_json::{json, Value};
use std::cell::RefCell;
use std::fmt::Debug;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static CHARS: RefCell<Vec<i64>> = const { RefCell::new(vec![]) };
    /// which iterations of each repetition are equal, and whether every view showed the same parts
    static EQUAL: RefCell<Vec<Value>> = const { RefCell::new(vec![]) };
    static VIEWS: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}
pub fn view(same: bool) {
    VIEWS.with(|v| v.set(v.get() && same));
}
pub fn ci(b: usize) -> i64 {
    CHARS.with(|c| c.borrow().get(b).copied().unwrap_or(-1_000_000))
}
fn cps(s: &str) -> Vec<i64> {
    s.chars().map(|c| c as i64).collect()
}
fn sp(s: &Span<'_>) -> Value {
    json!([ci(s.start()), ci(s.end())])
}

/// The typed tree of a node. `full`: with what the accessors return.
pub trait Dump: Clone + PartialEq {
    fn dump(&self, full: bool) -> Value;
    /// what an accessor pointing at this node shows
    fn brief(&self) -> Value {
        self.dump(false)
    }
}
impl<T: StrWrapper + Clone + PartialEq> Dump for Str<T> {
    fn dump(&self, _: bool) -> Value {
        json!(["str", cps(T::CONTENT)])
    }
}
impl<'i, T: StrWrapper + Clone + PartialEq> Dump for Insens<'i, T> {
    fn dump(&self, _: bool) -> Value {
        json!(["ins", cps(self.content)])
    }
}
impl<const A: char, const B: char> Dump for CharRange<A, B> {
    fn dump(&self, _: bool) -> Value {
        json!(["c", [self.content as u32]])
    }
}
impl Dump for any {
    fn dump(&self, _: bool) -> Value {
        json!(["c", [self.content as u32]])
    }
}
impl Dump for newline {
    fn dump(&self, _: bool) -> Value {
        json!(["nl", [match self.content {
            NewLineType::CRLF => 1,
            NewLineType::LF => 2,
            NewLineType::CR => 3,
        }]])
    }
}
macro_rules! unit {
    ($($t:ty => $n:literal),*) => {$(impl Dump for $t { fn dump(&self, _: bool) -> Value { json!([$n, []]) } })*};
}
unit!(soi => "soi", eoi => "eoi", drop => "drop");
impl<const A: isize> Dump for PeekSlice1<A> {
    fn dump(&self, _: bool) -> Value {
        json!(["sl1", [A]])
    }
}
impl<const A: isize, const B: isize> Dump for PeekSlice2<A, B> {
    fn dump(&self, _: bool) -> Value {
        json!(["sl2", [A, B]])
    }
}
macro_rules! text {
    ($($t:ident => $n:literal),*) => {$(impl<'i> Dump for $t<'i> { fn dump(&self, _: bool) -> Value { json!([$n, cps(self.span.as_str())]) } })*};
}
text!(peek => "peek", peek_all => "peekall", pop => "pop", pop_all => "popall");
impl<T: Dump> Dump for push<T> {
    fn dump(&self, full: bool) -> Value {
        view(std::ptr::eq(&**self, &self.content) && Self::from(self.content.clone()) == *self);
        json!(["push", [], self.content.dump(full)])
    }
}
impl<T: Dump> Dump for Positive<T> {
    fn dump(&self, full: bool) -> Value {
        view(std::ptr::eq(&**self, &self.content) && Self::from(self.content.clone()) == *self);
        json!(["pos", [], self.content.dump(full)])
    }
}
impl<T: Clone + PartialEq> Dump for Negative<T> {
    fn dump(&self, _: bool) -> Value {
        json!(["neg", []])
    }
}
impl<T: Dump> Dump for Option<T> {
    fn dump(&self, full: bool) -> Value {
        let mut v = vec![json!("opt"), json!([])];
        v.extend(self.iter().map(|x| x.dump(full)));
        Value::Array(v)
    }
}
impl<T: Dump> Dump for Box<T> {
    fn dump(&self, full: bool) -> Value {
        (**self).dump(full)
    }
    fn brief(&self) -> Value {
        (**self).brief()
    }
}
impl<T: Dump, TR: Clone + PartialEq, const A: usize, const B: usize> Dump for RepMinMax<T, TR, A, B> {
    fn dump(&self, full: bool) -> Value {
        let c = &self.content;
        if full {
            let n = c.len().min(6);
            let eq: Vec<usize> = (0..n).flat_map(|i| (i + 1..n).map(move |j| usize::from(c[i] == c[j] && !(c[i] != c[j])))).collect();
            EQUAL.with(|e| e.borrow_mut().push(json!(eq)));
            view(self.iter().map(|x| x as *const T).eq(c.iter().map(|x| x as *const T)));
            view(self.clone().into_iter().collect::<Vec<T>>() == *c && self.clone().content.len() == c.len());
            view(<Self as Bound>::MIN == A && <Self as Bound>::MAX == B && A <= c.len() && c.len() <= B);
        }
        let mut v = vec![json!("rep"), json!([])];
        v.extend(self.content.iter().map(|x| x.dump(full)));
        Value::Array(v)
    }
}
/// Where something is, whatever its type: views of the wrong part may be of another type.
pub fn at<T>(x: &T) -> *const () {
    x as *const T as *const ()
}
#[macro_export]
macro_rules! dump_seq {
    ($T:path, $($f:ident $t:ident $r:ident),*) => {
        impl<$($t: $crate::Dump, $r: Clone + PartialEq),*> $crate::Dump for $T {
            #[allow(non_snake_case)]
            fn dump(&self, full: bool) -> $crate::Value {
                if full {
                    let ($($t,)*) = self.as_tuple();
                    $($crate::view($crate::at($t) == $crate::at(&self.$f));)*
                    let ($($t,)*) = self.clone().into_tuple();
                    $($crate::view($t.dump(false) == self.$f.dump(false));)*
                }
                $crate::Value::Array(vec![$crate::json!("seq"), $crate::json!([]), $(self.$f.dump(full)),*])
            }
        }
    };
}
#[macro_export]
macro_rules! dump_cho {
    ($T:ty, $($i:literal $v:ident $t:ident $g:ident),*) => {
        impl<$($t: $crate::Dump),*> $crate::Dump for $T {
            fn dump(&self, full: bool) -> $crate::Value {
                $($crate::view(match (self, self.$g()) { (Self::$v(x), Some(y)) => $crate::at(x) == $crate::at(y), (Self::$v(_), None) | (_, Some(_)) => false, (_, None) => true });)*
                match self { $(Self::$v(x) => $crate::json!(["cho", [$i], x.dump(full)]),)* }
            }
        }
    };
}
include!("shapes.rs");
macro_rules! uni {
    ($($n:ident)*) => {$(impl Dump for pest3_core::typed::unicode::$n {
        fn dump(&self, _: bool) -> Value { json!(["c", [self.content as u32]]) }
    })*};
}
include!("unicode.rs");

/// A matched rule: its full name, span, content and what its accessors return.
pub fn rule(name: &str, span: &Span<'_>, content: &dyn Fn(bool) -> Value, full: bool, accs: &dyn Fn() -> Vec<(&'static str, Value)>) -> Value {
    if full {
        let accs: Vec<Value> = accs().into_iter().map(|(n, v)| json!([n, v])).collect();
        json!(["rule", [name, ci(span.start()), ci(span.end())], content(true), accs])
    } else {
        json!(["rule", [name, ci(span.start()), ci(span.end())], content(false)])
    }
}
pub fn rule_brief(name: &str, span: &Span<'_>) -> Value {
    json!(["R", [name, ci(span.start()), ci(span.end())]])
}

/// What an accessor returns.
pub trait Acc {
    fn acc(&self) -> Value;
}
impl<T: Dump> Acc for &T {
    fn acc(&self) -> Value {
        json!(["N", (**self).brief()])
    }
}
impl<A: Acc> Acc for Option<A> {
    fn acc(&self) -> Value {
        let mut v = vec![json!("O")];
        v.extend(self.iter().map(|x| x.acc()));
        Value::Array(v)
    }
}
impl<A: Acc> Acc for Vec<A> {
    fn acc(&self) -> Value {
        let mut v = vec![json!("V")];
        v.extend(self.iter().map(|x| x.acc()));
        Value::Array(v)
    }
}
macro_rules! tup {
    ($($t:ident)*) => {
        #[allow(non_snake_case)]
        impl<$($t: Acc),*> Acc for ($($t,)*) {
            fn acc(&self) -> Value { let ($($t,)*) = self; Value::Array(vec![json!("T"), $($t.acc()),*]) }
        }
    };
}
tup!(A B);
tup!(A B C);
tup!(A B C D);
tup!(A B C D E);
tup!(A B C D E F);
tup!(A B C D E F G);
tup!(A B C D E F G H);
tup!(A B C D E F G H I);
tup!(A B C D E F G H I J);
tup!(A B C D E F G H I J K);
tup!(A B C D E F G H I J K L);
tup!(A B C D E F G H I J K L M);
tup!(A B C D E F G H I J K L M N);
tup!(A B C D E F G H I J K L M N O);
tup!(A B C D E F G H I J K L M N O P);
tup!(A B C D E F G H I J K L M N O P Q);
tup!(A B C D E F G H I J K L M N O P Q R);
tup!(A B C D E F G H I J K L M N O P Q R S);
tup!(A B C D E F G H I J K L M N O P Q R S T);
tup!(A B C D E F G H I J K L M N O P Q R S T U);
tup!(A B C D E F G H I J K L M N O P Q R S T U V);
tup!(A B C D E F G H I J K L M N O P Q R S T U V W);
tup!(A B C D E F G H I J K L M N O P Q R S T U V W X);
tup!(A B C D E F G H I J K L M N O P Q R S T U V W X Y);
tup!(A B C D E F G H I J K L M N O P Q R S T U V W X Y Z);

pub fn name<R: Debug>(r: &R) -> String {
    format!("{r:?}").replace("r#", "")
}
fn pair_json<R: Debug>(p: &Pair<R>) -> Value {
    json!([name(&p.rule), ci(p.start), ci(p.end), p.children.iter().map(pair_json).collect::<Vec<_>>()])
}
/// Words, numbers and square brackets of a text, in order.
fn tokens(s: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut word = String::new();
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
            continue;
        }
        if !word.is_empty() {
            out.push(std::mem::take(&mut word));
        }
        if c == '[' || c == ']' {
            out.push(c.to_string());
        }
    }
    if !word.is_empty() {
        out.push(word);
    }
    out
}
fn flat<R: Debug>(p: &Pair<R>, out: &mut Vec<String>) {
    out.extend(tokens(&format!("{:?}", p.rule)));
    out.push(p.start.to_string());
    out.push(p.end.to_string());
    out.push("[".into());
    for c in &p.children {
        flat(c, out);
    }
    out.push("]".into());
}
/// Displaying and converting a pair tree keep every rule, span and child.
pub fn faithful<R: RuleType>(p: &Pair<R>) -> bool {
    let mut want = vec![];
    flat(p, &mut want);
    let names = p.convert(&|r| format!("{r:?}"));
    let mut conv = vec![];
    fn flat_str(p: &Pair<String>, out: &mut Vec<String>) {
        out.extend(tokens(&p.rule));
        out.push(p.start.to_string());
        out.push(p.end.to_string());
        out.push("[".into());
        for c in &p.children {
            flat_str(c, out);
        }
        out.push("]".into());
    }
    flat_str(&names, &mut conv);
    tokens(&p.to_string()) == want && conv == want && p.convert(&|r| r) == *p
}
fn special(s: &str) -> Value {
    let nums: Vec<i64> = s
        .split(|c: char| !(c.is_ascii_digit() || c == '-'))
        .filter(|s| !s.is_empty())
        .filter_map(|s| s.parse().ok())
        .collect();
    if s.contains("slice") {
        let mut v = vec![json!("slice")];
        v.extend(nums.into_iter().map(|n| json!(n)));
        Value::Array(v)
    } else if s.contains("pop or drop") {
        json!(["empty"])
    } else {
        json!(["other"])
    }
}
fn report<'i, R: RuleType>(tracker: Tracker<'i, R>) -> Value {
    let (pos, att) = tracker.finish();
    let att: Vec<Value> = att
        .into_iter()
        .map(|(u, (p, n, s))| {
            let s: Vec<Value> = s.iter().map(|s| special(&s.to_string())).collect();
            let ids = |v: Vec<R>| v.iter().map(name).collect::<Vec<_>>();
            json!([u.map(|r| name(&r)).unwrap_or_default(), ids(p), ids(n), s])
        })
        .collect();
    json!({"pos": ci(pos.pos()), "att": att})
}
fn stack_json(stack: &Stack<Span<'_>>) -> Value {
    Value::Array(stack[0..stack.len()].iter().map(sp).collect())
}
fn err_json<R: RuleType>(e: &pest3_core::error::Error<R>) -> Value {
    let message = match &e.variant {
        ErrorVariant::CustomError { message } => message.clone(),
        ErrorVariant::ParsingError { .. } => "PARSING".to_owned(),
    };
    let lc = match e.line_col {
        LineColLocation::Pos((l, c)) => json!([l, c]),
        LineColLocation::Span(..) => json!([0, 0]),
    };
    let at = match e.location {
        InputLocation::Pos(p) => ci(p),
        InputLocation::Span(_) => -1,
    };
    json!({"msg": message, "lc": lc, "at": at})
}
fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        }
    })
}
fn usizes(v: &Value) -> Vec<usize> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default()
}
/// The input of a row (leaked: rule types are instantiated for one lifetime).
pub fn input(row: &Value) -> &'static str {
    let s: String = row["inp"].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
    Box::leak(s.into_boxed_str())
}
pub trait Rows<'i, R: RuleType>: TypedNode<'i, R> + Dump {}
impl<'i, R: RuleType, T: TypedNode<'i, R> + Dump> Rows<'i, R> for T {}
/// The type of an accessor that is not there.
pub struct Absent;
/// The pairs of a matched rule, and whether they are displayed and converted faithfully.
pub type Pairs<T> = fn(&T) -> (Vec<Value>, bool);
pub fn pairs<R: RuleType, T: PairContainer<R>>(v: &T) -> (Vec<Value>, bool) {
    let mut pairs = vec![];
    let mut same = true;
    v.for_self_or_for_each_child_pair(&mut |p| {
        same &= faithful(&p);
        pairs.push(pair_json(&p));
    });
    (pairs, same)
}

fn tree<'i, R: RuleType, T: Rows<'i, R>>(v: &T) -> Value {
    v.dump(true)
}
pub fn observe<R: RuleType, T: Rows<'static, R> + std::fmt::Debug, P: TypedParser<R>>(row: &Value, pairs: Option<Pairs<T>>) -> Value {
    let input = input(row);
    let mut bytes: Vec<usize> = input.char_indices().map(|(i, _)| i).collect();
    bytes.push(input.len());
    let mut chars: Vec<i64> = (0..=input.len()).map(|b| -(b as i64) - 1).collect();
    for (i, b) in bytes.iter().enumerate() {
        chars[*b] = i as i64;
    }
    CHARS.with(|c| *c.borrow_mut() = chars);
    let start = row["start"].as_u64().unwrap() as usize;
    let stk0: Vec<(usize, usize)> = row["stk0"].as_array().unwrap().iter().map(|p| { let p = usizes(p); (p[0], p[1]) }).collect();
    let at = Position::new(input, bytes[start]).unwrap();
    let mk = || {
        let mut stack = Stack::new();
        for (a, b) in &stk0 {
            stack.push(Span::new(input, bytes[*a], bytes[*b]).unwrap());
        }
        stack
    };
    // a snapshot taken before the parse must still be the newest one after it
    let bal = |mut stack: Stack<Span<'static>>| {
        stack.restore();
        stack_json(&stack) == stack_json(&mk())
    };
    let mut obs = serde_json::Map::new();
    let mut panics: Vec<Value> = vec![];
    let mut put = |name: &str, r: Result<Value, String>| match r {
        Ok(v) => {
            obs.insert(name.to_owned(), v);
        }
        Err(e) => {
            panics.push(json!(format!("{name}: {e}")));
        }
    };
    put("p", guard(|| {
        let mut stack = mk();
        stack.snapshot();
        let mut tracker = Tracker::new(at);
        let r = T::try_parse_with_partial(at, &mut stack, &mut tracker);
        let stk = stack_json(&stack);
        let rep = report(tracker);
        match r {
            Some((pos, v)) => {
                EQUAL.with(|e| e.borrow_mut().clear());
                VIEWS.with(|v| v.set(true));
                let mut o = json!({"ok": true, "end": ci(pos.pos()), "stk": stk, "bal": bal(stack), "rep": rep, "tree": tree::<R, T>(&v)});
                o["eqs"] = Value::Array(EQUAL.with(|e| e.take()));
                let copy = v.clone();
                view(format!("{v:?}") == format!("{copy:?}"));
                let again = T::try_parse_with_partial(at, &mut mk(), &mut Tracker::new(at)).map(|r| r.1);
                view(copy == v && v == copy && tree::<R, T>(&copy) == o["tree"]);
                view(again.map(|w| w == v && v == w) == Some(true));
                o["views"] = json!(VIEWS.with(|v| v.get()));
                if let Some(f) = pairs {
                    let (pairs, same) = f(&v);
                    o["pairs"] = json!(pairs);
                    o["disp"] = json!(same);
                }
                o
            }
            None => json!({"ok": false, "end": -1, "stk": stk, "bal": bal(stack), "rep": rep, "tree": [], "pairs": [], "disp": true}),
        }
    }));
    put("c", guard(|| {
        let mut stack = mk();
        stack.snapshot();
        let mut tracker = Tracker::new(at);
        let r = T::check_with_partial(at, &mut stack, &mut tracker);
        let stk = stack_json(&stack);
        let rep = report(tracker);
        json!({"ok": r.is_some(), "end": r.map(|p| ci(p.pos())).unwrap_or(-1), "stk": stk, "bal": bal(stack), "rep": rep})
    }));
    put("fp", guard(|| {
        let mut stack = mk();
        let mut tracker = Tracker::new(at);
        let r = T::try_parse_with(at, &mut stack, &mut tracker);
        let stk = stack_json(&stack);
        json!({"ok": r.is_some(), "stk": stk, "rep": report(tracker), "tree": r.map(|v| tree::<R, T>(&v)).unwrap_or(json!([]))})
    }));
    put("fc", guard(|| {
        let mut stack = mk();
        let mut tracker = Tracker::new(at);
        let r = T::check_with(at, &mut stack, &mut tracker);
        let stk = stack_json(&stack);
        json!({"ok": r, "stk": stk, "rep": report(tracker)})
    }));
    // the same two calls made through the parser type
    let through = guard(|| {
        let mut stack = mk();
        stack.snapshot();
        let mut tracker = Tracker::new(at);
        let r = P::try_parse_with_partial::<T>(at, &mut stack, &mut tracker);
        let stk = stack_json(&stack);
        let rep = report(tracker);
        let x = json!([r.is_some(), r.as_ref().map(|r| ci(r.0.pos())).unwrap_or(-1), stk, bal(stack), rep, r.map(|r| tree::<R, T>(&r.1)).unwrap_or(json!([]))]);
        let mut stack = mk();
        let mut tracker = Tracker::new(at);
        let r = P::try_parse_with::<T>(at, &mut stack, &mut tracker);
        let stk = stack_json(&stack);
        [x, json!([r.is_some(), stk, report(tracker), r.map(|v| tree::<R, T>(&v)).unwrap_or(json!([]))])]
    });
    let through = through.map(|[x, y]| {
        let of = |o: &serde_json::Map<String, Value>, n: &str, ks: &[&str]| o.get(n).map(|o| ks.iter().map(|k| o[*k].clone()).collect::<Value>());
        json!([of(&obs, "p", &["ok", "end", "stk", "bal", "rep", "tree"]) == Some(x), of(&obs, "fp", &["ok", "stk", "rep", "tree"]) == Some(y)])
    });
    if let Ok(t) = through { obs.insert("through".to_owned(), t); }
    let mut put = |name: &str, r: Result<Value, String>| match r {
        Ok(v) => {
            obs.insert(name.to_owned(), v);
        }
        Err(e) => {
            panics.push(json!(format!("{name}: {e}")));
        }
    };
    let entry = start == 0 && stk0.is_empty();
    if entry {
        let none = || json!({"msg": "", "lc": [0, 0], "at": -1});
        put("epp", guard(|| match T::try_parse_partial(input) {
            Ok((p, v)) => json!({"ok": true, "end": ci(p.pos()), "tree": tree::<R, T>(&v), "err": none()}),
            Err(e) => json!({"ok": false, "end": -1, "tree": [], "err": err_json(&e)}),
        }));
        put("epf", guard(|| match T::try_parse(input) {
            Ok(v) => json!({"ok": true, "end": -1, "tree": tree::<R, T>(&v), "err": none()}),
            Err(e) => json!({"ok": false, "end": -1, "tree": [], "err": err_json(&e)}),
        }));
        put("ecp", guard(|| match T::check_partial(input) {
            Ok(p) => json!({"ok": true, "end": ci(p.pos()), "err": none()}),
            Err(e) => json!({"ok": false, "end": -1, "err": err_json(&e)}),
        }));
        put("ecf", guard(|| match T::check(input) {
            Ok(()) => json!({"ok": true, "end": -1, "err": none()}),
            Err(e) => json!({"ok": false, "end": -1, "err": err_json(&e)}),
        }));
        put("tpf", guard(|| match P::try_parse::<T>(input) {
            Ok(v) => json!({"ok": true, "tree": tree::<R, T>(&v), "err": none()}),
            Err(e) => json!({"ok": false, "tree": [], "err": err_json(&e)}),
        }));
        put("tpp", guard(|| match P::try_parse_partial::<T>(input) {
            Ok((p, v)) => json!({"ok": true, "end": ci(p.pos()), "tree": tree::<R, T>(&v), "err": none()}),
            Err(e) => json!({"ok": false, "end": -1, "tree": [], "err": err_json(&e)}),
        }));
    }
    obs.insert("entry".to_owned(), json!(entry));
    obs.insert("hasnf".to_owned(), json!(false));
    obs.insert("panics".to_owned(), Value::Array(panics));
    Value::Object(obs)
}

/// Reads rows from standard input and writes them back with observations.
pub fn serve(run: fn(&Value) -> Value) {
    let child = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        std::panic::set_hook(Box::new(|_| {}));
        let stdin = std::io::stdin();
        let mut out = std::io::BufWriter::new(std::io::stdout());
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let row: Value = serde_json::from_str(&line).unwrap();
            let obs = run(&row);
            serde_json::to_writer(&mut out, &json!({"id": row["id"], "obs": obs})).unwrap();
            out.write_all(b"\n").unwrap();
            out.flush().unwrap();
        }
    });
    child.unwrap().join().unwrap();
}
