//! Positions, spans and their rendering, observed through the public API of pest3_core.
//! One JSON line per input text; offsets are bytes.
use pest3_core::formatter::FormatOption;
use pest3_core::span::merge_spans;
use pest3_core::{Position, Span};
use serde_json::{json, Value};
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
/// Where `part` lies in `whole`, by address; [-1,-1] if it is not a part of it.
fn place(whole: &str, part: &str) -> [i64; 2] {
    let (w, p) = (whole.as_ptr() as i64, part.as_ptr() as i64);
    if p < w || p + part.len() as i64 > w + whole.len() as i64 {
        return [-1, -1];
    }
    [p - w, p - w + part.len() as i64]
}
fn codes(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}
const OPEN: [char; 3] = ['\u{E001}', '\u{E002}', '\u{E003}'];
const CLOSE: char = '\u{E000}';
/// Splits marked output into pieces [kind, codes]; kind 0 = written directly, 1 = span, 2 = marker, 3 = number.
fn pieces(s: &str) -> Vec<Value> {
    let mut out: Vec<(usize, Vec<u32>)> = vec![];
    let mut kind = 0;
    let mut fresh = true;
    for c in s.chars() {
        if let Some(k) = OPEN.iter().position(|o| *o == c) {
            kind = k + 1;
            fresh = false;
            out.push((kind, vec![]));
        } else if c == CLOSE {
            kind = 0;
            fresh = true;
        } else {
            if kind == 0 && fresh {
                out.push((0, vec![]));
                fresh = false;
            }
            out.last_mut().unwrap().1.push(c as u32);
        }
    }
    out.into_iter().map(|(k, t)| json!([k, t])).collect()
}
fn marked() -> FormatOption<
    impl FnMut(&str, &mut String) -> std::fmt::Result,
    impl FnMut(&str, &mut String) -> std::fmt::Result,
    impl FnMut(&str, &mut String) -> std::fmt::Result,
> {
    FormatOption::new::<String>(
        |s, f: &mut String| write!(f, "{}{s}{CLOSE}", OPEN[0]),
        |s, f: &mut String| write!(f, "{}{s}{CLOSE}", OPEN[1]),
        |s, f: &mut String| write!(f, "{}{s}{CLOSE}", OPEN[2]),
    )
}
fn bound(kind: i64, v: i64) -> Bound<usize> {
    let v = if v < 0 { usize::MAX } else { v as usize };
    match kind {
        0 => Bound::Included(v),
        1 => Bound::Excluded(v),
        _ => Bound::Unbounded,
    }
}
fn span2(s: Option<Span<'_>>) -> Value {
    s.map(|s| json!([s.start(), s.end()])).unwrap_or(json!([]))
}
fn hash(x: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}

fn run(case: &Value) -> Value {
    let owned: String = case["inp"].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
    // the input is a strict part of a longer text that starts at the same place, and there is a text of its length elsewhere, and a copy of it
    let longer = format!("{owned}é");
    let input: &str = &longer[..owned.len()];
    let elsewhere = "~".repeat(owned.len());
    let copy = input.to_string();
    let disp = case["disp"].as_bool().unwrap();
    let n = input.len();
    let mut pos = vec![];
    let at: Option<Vec<i64>> = case.get("at").map(ints);
    for b in 0..=n + 2 {
        if at.as_ref().is_some_and(|l| !l.contains(&(b as i64))) { pos.push(json!({"b": b, "ok": "unasked"})); continue }
        let p = guard(|| Position::new(input, b));
        let Some(p) = p else { pos.push(json!({"b": b, "ok": "panic"})); continue };
        let Some(p) = p else { pos.push(json!({"b": b, "ok": "no"})); continue };
        let o = guard(|| {
            let (l, c) = p.line_col();
            let mut v = json!({"b": b, "ok": "yes", "pos": p.pos(), "lc": [l, c], "line": place(input, p.line_of())});
            if disp {
                let mut s = String::new();
                p.display(&mut s, marked()).unwrap();
                v["disp"] = json!(pieces(&s));
                v["plain"] = json!(codes(&p.to_string()));
            }
            v["ord"] = json!((0..=n).filter_map(|q| Position::new(input, q)).map(|q| match p.cmp(&q) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 }).collect::<Vec<i32>>());
            v["partial"] = json!((0..=n).filter_map(|q| Position::new(input, q)).map(|q| match p.partial_cmp(&q) { Some(std::cmp::Ordering::Less) => -1, Some(std::cmp::Ordering::Equal) => 0, Some(_) => 1, None => 2 }).collect::<Vec<i32>>());
            v["hash"] = json!((0..=n).filter_map(|q| Position::new(input, q)).all(|q| p != q || hash(&p) == hash(&q)));
            v["mix"] = json!([longer.as_str(), elsewhere.as_str(), copy.as_str()].iter().filter(|_| n > 0).filter_map(|o| Position::new(o, b)).map(|o| json!([
                p == o, o == p, guard(|| p.cmp(&o)).is_some(), guard(|| o.cmp(&p)).is_some(), guard(|| p.span(&o)).is_some(), guard(|| o.span(&p)).is_some()])).collect::<Vec<_>>());
            let two: pest2::Position<'_> = p.into();
            v["two"] = json!([two.pos(), place(input, two.span(&pest2::Position::new(input, n).unwrap()).as_str())]);
            v["eq"] = json!((0..=n).filter_map(|q| Position::new(input, q)).map(|q| p == q).collect::<Vec<bool>>());
            v
        });
        pos.push(o.unwrap_or(json!({"b": b, "ok": "panic"})));
    }
    let mut spans = vec![];
    let want: Vec<(usize, usize)> = match case.get("pairs").and_then(|p| p.as_array()) {
        Some(l) => l.iter().map(|p| { let p = ints(p); (p[0] as usize, p[1] as usize) }).collect(),
        None => (0..=n + 1).flat_map(|a| (0..=n + 1).map(move |b| (a, b))).collect(),
    };
    for &(a, b) in &want {
        let s = guard(|| Span::new(input, a, b));
        let Some(s) = s else { spans.push(json!({"a": a, "b": b, "ok": "panic"})); continue };
        let Some(s) = s else { spans.push(json!({"a": a, "b": b, "ok": "no"})); continue };
        let o = guard(|| {
            let (p, q) = s.split();
            let joined = p.span(&q);
            let mut v = json!({"a": a, "b": b, "ok": "yes", "text": place(input, s.as_str()), "ends": [s.start(), s.end()],
                "posns": [s.start_pos().pos(), s.end_pos().pos()], "split": [p.pos(), q.pos()], "whole": place(input, s.get_input()),
                "joined": [joined.start(), joined.end()], "same": joined == s,
                "lines": s.lines_span().take(n + 3).map(|l| json!([l.start(), l.end()])).collect::<Vec<_>>(),
                "linet": s.lines().take(n + 3).map(|l| json!(place(input, l))).collect::<Vec<_>>()});
            if disp {
                let mut t = String::new();
                s.display(&mut t, marked()).unwrap();
                v["disp"] = json!(pieces(&t));
                v["plain"] = json!(codes(&s.to_string()));
            }
            v
        });
        spans.push(o.unwrap_or(json!({"a": a, "b": b, "ok": "panic"})));
    }
    let mut gets = vec![];
    for g in case["gets"].as_array().unwrap() {
        let g = ints(g); // a b kind lo kind hi
        let r = guard(|| Span::new(input, g[0] as usize, g[1] as usize).and_then(|s| s.get((bound(g[2], g[3]), bound(g[4], g[5])))));
        gets.push(json!({"g": g, "r": r.map(span2).unwrap_or(json!([-9, -9]))}));
    }
    let mut merges = vec![];
    for g in case["merges"].as_array().unwrap() {
        let g = ints(g);
        let same = guard(|| {
            let x = Span::new(input, g[0] as usize, g[1] as usize)?;
            let y = Span::new(input, g[2] as usize, g[3] as usize)?;
            let z = Span::new(&longer, g[2] as usize, g[3] as usize)?;
            let w = Span::new(&elsewhere, g[2] as usize, g[3] as usize)?;
            let v = Span::new(&copy, g[2] as usize, g[3] as usize)?;
            Some(json!([x == y, x != y || hash(&x) == hash(&y), x.clone() == x && hash(&x.clone()) == hash(&x), x == z || z == x, n > 0 && (x == w || w == x || x == v || v == x)]))
        });
        let r = guard(|| {
            let x = Span::new(input, g[0] as usize, g[1] as usize)?;
            let y = Span::new(input, g[2] as usize, g[3] as usize)?;
            merge_spans(&x, &y)
        });
        merges.push(json!({"g": g, "same": same.flatten().unwrap_or(json!([])), "r": r.map(span2).unwrap_or(json!([-9, -9]))}));
    }
    json!({"pos": pos, "spans": spans, "gets": gets, "merges": merges})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let mut case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        case["obs"] = run(&case);
        serde_json::to_writer(&mut out, &case).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
