//! Interprets grammars given as data with the real combinators of `pest3_core`.
//!
//! Every expression node of a case is evaluated by instantiating the real node type
//! (`Sequence3`, `Choice2`, `RepMinMax`, `Positive`, ...) over `Child<K>`, a node whose
//! evaluation looks up the K-th child of the node being evaluated. Input: one case per
//! line (JSON); output: one observation per line. Positions are reported in characters;
//! a position off a character boundary is reported as a negative number.

use pest3_core::choice::*;
use pest3_core::error::{ErrorVariant, InputLocation, LineColLocation};
use pest3_core::sequence::*;
use pest3_core::token::Pair;
use pest3_core::typed::template::*;
use pest3_core::typed::wrapper::String as StrWrapper;
use pest3_core::typed::{
    full_rule_struct, NeverFailedTypedNode, PairContainer, PairTree, RuleType,
    Tracker, TypedNode, TypedParser,
};
use pest3_core::{Position, Span, Stack};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::marker::PhantomData;
use std::rc::Rc;

const STRS: [&str; 25] = [
    "", "a", "b", "c", "ab", "ba", "aa", "abc", "é", "aé", "\n", "\r\n", " ", "A", "aB", "É", "日", "b日", "x", "😀",
    "abcabcabcabcabcab", "abcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabc", "@[`{", "é日😀é日😀é日😀é日😀é日😀é日😀", "abcdefghijklmnopqrstuvwxyz0123456789",
];

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
struct S<const I: usize>;
impl<const I: usize> StrWrapper for S<I> {
    const CONTENT: &'static str = STRS[I];
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
enum Rule {
    EOI,
    R1,
    R2,
    R3,
    R4,
    R5,
    R6,
    R7,
    R8,
    R9,
    R10,
    R11,
    R12,
    R13,
    R14,
    R15,
    R16,
    R17,
    R18,
    R19,
    R20,
    R21,
    R22,
    R23,
    R24,
    R25,
    R26,
    R27,
    R28,
    R29,
    R30,
    R31,
    R32,
    R33,
    R34,
    R35,
    R36,
    R37,
    R38,
    R39,
    R40,
}
impl RuleType for Rule {
    const EOI: Self = Rule::EOI;
}

#[derive(Clone, Debug, Default)]
struct Node {
    op: String,
    k: Vec<usize>,
    t: Vec<usize>,
    s: usize,
    lo: i64,
    hi: i64,
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Tree {
    n: usize,
    a: i64,
    b: i64,
    x: Vec<i64>,
    ks: Vec<Rc<Tree>>,
}
impl Tree {
    fn json(&self) -> Value {
        json!([self.n, self.a, self.b, self.x, self.ks.iter().map(|k| k.json()).collect::<Vec<_>>()])
    }
}

thread_local! {
    static NODES: RefCell<Rc<Vec<Node>>> = RefCell::new(Rc::new(vec![]));
    static CUR: Cell<usize> = const { Cell::new(0) };
    static ROOT: Cell<usize> = const { Cell::new(0) };
    static FUEL: Cell<u64> = const { Cell::new(0) };
    static CHARS: RefCell<Vec<i64>> = const { RefCell::new(vec![]) };
}
fn ci(b: usize) -> i64 {
    CHARS.with(|c| c.borrow().get(b).copied().unwrap_or(-1_000_000))
}
fn cps(s: &str) -> Vec<i64> {
    s.chars().map(|c| c as i64).collect()
}

/// The K-th child of the node being evaluated (16.. : trivia children;
/// 99: what nothing may ask for, the trivia ahead of a first element).
#[derive(Clone, Debug, Default, PartialEq)]
struct Child<const K: usize> {
    tree: Rc<Tree>,
    pairs: Rc<Vec<Pair<Rule>>>,
    below: Rc<Vec<Pair<Rule>>>,
}
/// Like the node it stands for: as itself if that is a rule, and what is below it.
impl<const K: usize> PairContainer<Rule> for Child<K> {
    fn for_self_or_for_each_child_pair(&self, f: &mut impl FnMut(Pair<Rule>)) {
        self.pairs.iter().cloned().for_each(f)
    }
    fn for_each_child_pair(&self, f: &mut impl FnMut(Pair<Rule>)) {
        self.below.iter().cloned().for_each(f)
    }
}
fn lookup(k: usize) -> usize {
    let cur = CUR.get();
    NODES.with(|n| {
        let n = n.borrow();
        if k >= 16 {
            n[cur].t[k - 16]
        } else {
            n[cur].k[k]
        }
    })
}
impl<'i, const K: usize> TypedNode<'i, Rule> for Child<K> {
    fn try_parse_with_partial(
        input: Position<'i>,
        stack: &mut Stack<Span<'i>>,
        tracker: &mut Tracker<'i, Rule>,
    ) -> Option<(Position<'i>, Self)> {
        if K == 99 {
            return None;
        }
        let n = lookup(K);
        if n == 0 {
            return Some((input, Self::default()));
        }
        let (pos, out) = eval(n, true, input, stack, tracker)?;
        let (tree, pairs, below) = out.unwrap();
        Some((pos, Self { tree, pairs, below }))
    }
    fn check_with_partial(
        input: Position<'i>,
        stack: &mut Stack<Span<'i>>,
        tracker: &mut Tracker<'i, Rule>,
    ) -> Option<Position<'i>> {
        if K == 99 {
            return None;
        }
        let n = lookup(K);
        if n == 0 {
            return Some(input);
        }
        let (pos, _) = eval(n, false, input, stack, tracker)?;
        Some(pos)
    }
}

/// The start expression.
#[derive(Clone, Debug, PartialEq)]
struct Root {
    tree: Rc<Tree>,
    pairs: Rc<Vec<Pair<Rule>>>,
}
impl<'i> TypedNode<'i, Rule> for Root {
    fn try_parse_with_partial(
        input: Position<'i>,
        stack: &mut Stack<Span<'i>>,
        tracker: &mut Tracker<'i, Rule>,
    ) -> Option<(Position<'i>, Self)> {
        let (pos, out) = eval(ROOT.get(), true, input, stack, tracker)?;
        let (tree, pairs, _) = out.unwrap();
        Some((pos, Self { tree, pairs }))
    }
    fn check_with_partial(
        input: Position<'i>,
        stack: &mut Stack<Span<'i>>,
        tracker: &mut Tracker<'i, Rule>,
    ) -> Option<Position<'i>> {
        Some(eval(ROOT.get(), false, input, stack, tracker)?.0)
    }
}
struct TheParser;
impl TypedParser<Rule> for TheParser {}

type Out = Option<(Rc<Tree>, Rc<Vec<Pair<Rule>>>, Rc<Vec<Pair<Rule>>>)>;
struct Cx<'s, 'i, 't> {
    n: usize,
    parse: bool,
    input: Position<'i>,
    stack: &'s mut Stack<Span<'i>>,
    tracker: &'t mut Tracker<'i, Rule>,
}
type Cap = (Vec<i64>, Vec<Rc<Tree>>);
thread_local! { static FAITHFUL: Cell<bool> = const { Cell::new(true) }; }
fn expect(b: bool) {
    if !b {
        FAITHFUL.set(false);
    }
}
/// The three ways of asking a node for its pairs agree.
fn same_pairs<T: PairContainer<Rule>>(v: &T, pairs: &[Pair<Rule>], is_rule: bool) -> Vec<Pair<Rule>> {
    let mut below = vec![];
    v.for_each_child_pair(&mut |p| below.push(p));
    expect(v.vec_children_pairs() == below);
    if is_rule {
        expect(pairs.len() == 1 && pairs[0].children == below);
    } else {
        expect(*pairs == below);
    }
    below
}
/// Words, numbers and square brackets of a text, in order.
fn tokens(s: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut word = String::new();
    for c in s.chars() {
        if c.is_alphanumeric() {
            word.push(c);
            continue;
        }
        if !word.is_empty() {
            out.push(std::mem::take(&mut word));
        }
        if c == '[' || c == ']' {
            out.push(c.to_string());
        }
    }
    if !word.is_empty() {
        out.push(word);
    }
    out
}
/// Displaying and converting a pair tree keep every rule, span and child.
fn faithful(p: &Pair<Rule>) -> bool {
    fn flat(p: &Pair<Rule>, out: &mut Vec<String>) {
        out.push(format!("{:?}", p.rule));
        out.push(p.start.to_string());
        out.push(p.end.to_string());
        out.push("[".into());
        p.children.iter().for_each(|c| flat(c, out));
        out.push("]".into());
    }
    fn same(p: &Pair<Rule>, q: &Pair<std::string::String>) -> bool {
        format!("{:?}", p.rule) == q.rule
            && (p.start, p.end, p.children.len()) == (q.start, q.end, q.children.len())
            && p.children.iter().zip(&q.children).all(|(a, b)| same(a, b))
    }
    let mut want = vec![];
    flat(p, &mut want);
    tokens(&p.to_string()) == want && same(p, &p.convert(&|r| format!("{r:?}"))) && p.convert(&|r| r) == *p
}
fn ev<'i, T: TypedNode<'i, Rule> + PairContainer<Rule> + Clone + PartialEq>(
    cx: Cx<'_, 'i, '_>,
    f: impl Fn(&T) -> Cap,
) -> Option<(Position<'i>, Out)> {
    let start = cx.input;
    if cx.parse {
        let (pos, v) = T::try_parse_with_partial(cx.input, cx.stack, cx.tracker)?;
        let (mut x, ks) = f(&v);
        if v.clone() != v || f(&v.clone()) != (x.clone(), ks.clone()) {
            x.push(-78);
        }
        let mut pairs = vec![];
        v.for_self_or_for_each_child_pair(&mut |p| pairs.push(p));
        let below = same_pairs(&v, &pairs, NODES.with(|n| n.borrow()[cx.n].op == "rule"));
        let tree = Tree { n: cx.n, a: ci(start.pos()), b: ci(pos.pos()), x, ks };
        Some((pos, Some((Rc::new(tree), Rc::new(pairs), Rc::new(below)))))
    } else {
        let pos = T::check_with_partial(cx.input, cx.stack, cx.tracker)?;
        Some((pos, None))
    }
}

macro_rules! rules {
    ($($i:literal $name:ident),*) => {
        $(
            #[derive(Clone, Debug, PartialEq)]
            struct $name<'i> { content: Child<0>, span: Span<'i> }
            full_rule_struct!($name, (), Rule, Rule::$name, Child<0>, Child<0>,);
            impl<'i> PairContainer<Rule> for $name<'i> {
                fn for_each_child_pair(&self, f: &mut impl FnMut(Pair<Rule>)) {
                    self.content.for_self_or_for_each_child_pair(f)
                }
                fn for_self_or_for_each_child_pair(&self, f: &mut impl FnMut(Pair<Rule>)) {
                    f(self.as_pair_tree())
                }
            }
            impl<'i> PairTree<Rule> for $name<'i> {
                fn get_rule() -> Rule { Rule::$name }
                fn get_span(&self) -> (usize, usize) { (self.span.start(), self.span.end()) }
            }
        )*
        fn eval_rule<'i>(r: i64, cx: Cx<'_, 'i, '_>) -> Option<(Position<'i>, Out)> {
            match r {
                $($i => ev::<$name<'i>>(cx, |v| (vec![ci(v.span.start()), ci(v.span.end())], vec![v.content.tree.clone()])),)*
                _ => unreachable!(),
            }
        }
    };
}
rules!(1 R1, 2 R2, 3 R3, 4 R4, 5 R5, 6 R6, 7 R7, 8 R8, 9 R9,
    10 R10, 11 R11, 12 R12, 13 R13, 14 R14, 15 R15, 16 R16, 17 R17, 18 R18, 19 R19, 20 R20, 21 R21, 22 R22, 23 R23, 24 R24, 25 R25, 26 R26, 27 R27, 28 R28, 29 R29, 30 R30, 31 R31, 32 R32, 33 R33, 34 R34, 35 R35, 36 R36, 37 R37, 38 R38, 39 R39, 40 R40);

macro_rules! str_table {
    ($f:ident, $($i:literal)*) => {
        fn $f<'i>(i: usize, insens: bool, cx: Cx<'_, 'i, '_>) -> Option<(Position<'i>, Out)> {
            match i {
                $($i => if insens { ev::<Insens<'i, S<$i>>>(cx, |v| (cps(v.content), vec![])) }
                        else { ev::<Str<S<$i>>>(cx, |_| (vec![], vec![])) },)*
                _ => unreachable!(),
            }
        }
    };
}
str_table!(eval_str, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24);

macro_rules! seqs {
    ($($n:literal $T:ident [$($i:literal $j:literal $f:ident),*]),* $(,)?) => {
        fn eval_seq<'i>(n: usize, cx: Cx<'_, 'i, '_>) -> Option<(Position<'i>, Out)> {
            match n {
                $($n => ev::<$T<$(Child<$i>, Child<$j>),*>>(cx, |v| {
                    let by_field = vec![$(v.$f.tree.clone()),*];
                    let by_ref = { let ($($f,)*) = v.as_tuple(); vec![$($f.tree.clone()),*] };
                    let by_val = { let ($($f,)*) = v.clone().into_tuple(); vec![$($f.tree.clone()),*] };
                    let same = by_field == by_ref && by_field == by_val;
                    (if same { vec![] } else { vec![-77] }, by_field)
                }),)*
                _ => unreachable!(),
            }
        }
    };
}
seqs! {
    2 Sequence2 [0 99 field_0, 1 17 field_1],
    3 Sequence3 [0 99 field_0, 1 17 field_1, 2 18 field_2],
    4 Sequence4 [0 99 field_0, 1 17 field_1, 2 18 field_2, 3 19 field_3],
    5 Sequence5 [0 99 field_0, 1 17 field_1, 2 18 field_2, 3 19 field_3, 4 20 field_4],
    6 Sequence6 [0 99 field_0, 1 17 field_1, 2 18 field_2, 3 19 field_3, 4 20 field_4, 5 21 field_5],
    7 Sequence7 [0 99 field_0, 1 17 field_1, 2 18 field_2, 3 19 field_3, 4 20 field_4, 5 21 field_5, 6 22 field_6],
    8 Sequence8 [0 99 field_0, 1 17 field_1, 2 18 field_2, 3 19 field_3, 4 20 field_4, 5 21 field_5, 6 22 field_6, 7 23 field_7],
    9 Sequence9 [0 99 field_0, 1 17 field_1, 2 18 field_2, 3 19 field_3, 4 20 field_4, 5 21 field_5, 6 22 field_6, 7 23 field_7, 8 24 field_8],
    10 Sequence10 [0 99 field_0, 1 17 field_1, 2 18 field_2, 3 19 field_3, 4 20 field_4, 5 21 field_5, 6 22 field_6, 7 23 field_7, 8 24 field_8, 9 25 field_9],
    11 Sequence11 [0 99 field_0, 1 17 field_1, 2 18 field_2, 3 19 field_3, 4 20 field_4, 5 21 field_5, 6 22 field_6, 7 23 field_7, 8 24 field_8, 9 25 field_9, 10 26 field_10],
    12 Sequence12 [0 99 field_0, 1 17 field_1, 2 18 field_2, 3 19 field_3, 4 20 field_4, 5 21 field_5, 6 22 field_6, 7 23 field_7, 8 24 field_8, 9 25 field_9, 10 26 field_10, 11 27 field_11],
    13 Sequence13 [0 99 field_0, 1 17 field_1, 2 18 field_2, 3 19 field_3, 4 20 field_4, 5 21 field_5, 6 22 field_6, 7 23 field_7, 8 24 field_8, 9 25 field_9, 10 26 field_10, 11 27 field_11, 12 28 field_12],
    14 Sequence14 [0 99 field_0, 1 17 field_1, 2 18 field_2, 3 19 field_3, 4 20 field_4, 5 21 field_5, 6 22 field_6, 7 23 field_7, 8 24 field_8, 9 25 field_9, 10 26 field_10, 11 27 field_11, 12 28 field_12, 13 29 field_13],
    15 Sequence15 [0 99 field_0, 1 17 field_1, 2 18 field_2, 3 19 field_3, 4 20 field_4, 5 21 field_5, 6 22 field_6, 7 23 field_7, 8 24 field_8, 9 25 field_9, 10 26 field_10, 11 27 field_11, 12 28 field_12, 13 29 field_13, 14 30 field_14],
    16 Sequence16 [0 99 field_0, 1 17 field_1, 2 18 field_2, 3 19 field_3, 4 20 field_4, 5 21 field_5, 6 22 field_6, 7 23 field_7, 8 24 field_8, 9 25 field_9, 10 26 field_10, 11 27 field_11, 12 28 field_12, 13 29 field_13, 14 30 field_14, 15 31 field_15],
}

macro_rules! choices {
    ($($n:literal $T:ident [$($i:literal $v:ident $g:ident),*]),* $(,)?) => {
        fn eval_choice<'i>(n: usize, cx: Cx<'_, 'i, '_>) -> Option<(Position<'i>, Out)> {
            match n {
                $($n => ev::<$T<$(Child<$i>),*>>(cx, |v| {
                    let (idx, tree) = match v { $($T::$v(c) => ($i as i64, c.tree.clone()),)* };
                    // the getters must agree with the variant
                    let got: Vec<Option<Rc<Tree>>> = vec![$(v.$g().map(|c| c.tree.clone())),*];
                    let same = got.iter().enumerate().all(|(i, g)| match g {
                        Some(t) => i as i64 == idx && *t == tree,
                        None => i as i64 != idx,
                    });
                    (if same { vec![idx] } else { vec![idx, -77] }, vec![tree])
                }),)*
                _ => unreachable!(),
            }
        }
    };
}
choices! {
    2 Choice2 [0 Choice0 choice_0, 1 Choice1 choice_1],
    3 Choice3 [0 Choice0 choice_0, 1 Choice1 choice_1, 2 Choice2 choice_2],
    4 Choice4 [0 Choice0 choice_0, 1 Choice1 choice_1, 2 Choice2 choice_2, 3 Choice3 choice_3],
    5 Choice5 [0 Choice0 choice_0, 1 Choice1 choice_1, 2 Choice2 choice_2, 3 Choice3 choice_3, 4 Choice4 choice_4],
    6 Choice6 [0 Choice0 choice_0, 1 Choice1 choice_1, 2 Choice2 choice_2, 3 Choice3 choice_3, 4 Choice4 choice_4, 5 Choice5 choice_5],
    7 Choice7 [0 Choice0 choice_0, 1 Choice1 choice_1, 2 Choice2 choice_2, 3 Choice3 choice_3, 4 Choice4 choice_4, 5 Choice5 choice_5, 6 Choice6 choice_6],
    8 Choice8 [0 Choice0 choice_0, 1 Choice1 choice_1, 2 Choice2 choice_2, 3 Choice3 choice_3, 4 Choice4 choice_4, 5 Choice5 choice_5, 6 Choice6 choice_6, 7 Choice7 choice_7],
    9 Choice9 [0 Choice0 choice_0, 1 Choice1 choice_1, 2 Choice2 choice_2, 3 Choice3 choice_3, 4 Choice4 choice_4, 5 Choice5 choice_5, 6 Choice6 choice_6, 7 Choice7 choice_7, 8 Choice8 choice_8],
    10 Choice10 [0 Choice0 choice_0, 1 Choice1 choice_1, 2 Choice2 choice_2, 3 Choice3 choice_3, 4 Choice4 choice_4, 5 Choice5 choice_5, 6 Choice6 choice_6, 7 Choice7 choice_7, 8 Choice8 choice_8, 9 Choice9 choice_9],
    11 Choice11 [0 Choice0 choice_0, 1 Choice1 choice_1, 2 Choice2 choice_2, 3 Choice3 choice_3, 4 Choice4 choice_4, 5 Choice5 choice_5, 6 Choice6 choice_6, 7 Choice7 choice_7, 8 Choice8 choice_8, 9 Choice9 choice_9, 10 Choice10 choice_10],
    12 Choice12 [0 Choice0 choice_0, 1 Choice1 choice_1, 2 Choice2 choice_2, 3 Choice3 choice_3, 4 Choice4 choice_4, 5 Choice5 choice_5, 6 Choice6 choice_6, 7 Choice7 choice_7, 8 Choice8 choice_8, 9 Choice9 choice_9, 10 Choice10 choice_10, 11 Choice11 choice_11],
    13 Choice13 [0 Choice0 choice_0, 1 Choice1 choice_1, 2 Choice2 choice_2, 3 Choice3 choice_3, 4 Choice4 choice_4, 5 Choice5 choice_5, 6 Choice6 choice_6, 7 Choice7 choice_7, 8 Choice8 choice_8, 9 Choice9 choice_9, 10 Choice10 choice_10, 11 Choice11 choice_11, 12 Choice12 choice_12],
    14 Choice14 [0 Choice0 choice_0, 1 Choice1 choice_1, 2 Choice2 choice_2, 3 Choice3 choice_3, 4 Choice4 choice_4, 5 Choice5 choice_5, 6 Choice6 choice_6, 7 Choice7 choice_7, 8 Choice8 choice_8, 9 Choice9 choice_9, 10 Choice10 choice_10, 11 Choice11 choice_11, 12 Choice12 choice_12, 13 Choice13 choice_13],
    15 Choice15 [0 Choice0 choice_0, 1 Choice1 choice_1, 2 Choice2 choice_2, 3 Choice3 choice_3, 4 Choice4 choice_4, 5 Choice5 choice_5, 6 Choice6 choice_6, 7 Choice7 choice_7, 8 Choice8 choice_8, 9 Choice9 choice_9, 10 Choice10 choice_10, 11 Choice11 choice_11, 12 Choice12 choice_12, 13 Choice13 choice_13, 14 Choice14 choice_14],
    16 Choice16 [0 Choice0 choice_0, 1 Choice1 choice_1, 2 Choice2 choice_2, 3 Choice3 choice_3, 4 Choice4 choice_4, 5 Choice5 choice_5, 6 Choice6 choice_6, 7 Choice7 choice_7, 8 Choice8 choice_8, 9 Choice9 choice_9, 10 Choice10 choice_10, 11 Choice11 choice_11, 12 Choice12 choice_12, 13 Choice13 choice_13, 14 Choice14 choice_14, 15 Choice15 choice_15],
}

type C0 = Child<0>;
type T0 = Child<16>;
const INF: i64 = -1;
fn rep_trees<const LO: usize, const HI: usize>(v: &RepMinMax<C0, T0, LO, HI>) -> Cap {
    let a: Vec<_> = v.content.iter().map(|c| c.tree.clone()).collect();
    let b: Vec<_> = v.iter().map(|c| c.tree.clone()).collect();
    let c: Vec<_> = v.clone().into_iter().map(|c| c.tree.clone()).collect();
    (if a == b && a == c { vec![] } else { vec![-77] }, a)
}
macro_rules! reps {
    ($($lo:literal $hi:expr => $ty:ty),* $(,)?) => {
        fn eval_rep<'i>(lo: i64, hi: i64, cx: Cx<'_, 'i, '_>) -> Option<(Position<'i>, Out)> {
            $(if lo == $lo && hi == $hi { return ev::<$ty>(cx, |v| rep_trees(v)); })*
            panic!("harness: no repetition type for {lo}..{hi}")
        }
    };
}
reps! {
    0 INF => Rep<C0, T0>, 1 INF => RepOnce<C0, T0>, 2 INF => RepMin<C0, T0, 2>, 3 INF => RepMin<C0, T0, 3>,
    0 0 => RepMax<C0, T0, 0>, 0 1 => RepMax<C0, T0, 1>, 0 2 => RepMax<C0, T0, 2>, 0 3 => RepMax<C0, T0, 3>,
    1 1 => RepMinMax<C0, T0, 1, 1>, 1 2 => RepMinMax<C0, T0, 1, 2>, 1 3 => RepMinMax<C0, T0, 1, 3>,
    2 2 => RepMinMax<C0, T0, 2, 2>, 2 3 => RepMinMax<C0, T0, 2, 3>, 2 4 => RepMinMax<C0, T0, 2, 4>,
    3 3 => RepMinMax<C0, T0, 3, 3>, 3 4 => RepMinMax<C0, T0, 3, 4>,
    17 17 => RepMinMax<C0, T0, 17, 17>,
    16 18 => RepMinMax<C0, T0, 16, 18>,
    18 INF => RepMin<C0, T0, 18>,
    0 16 => RepMax<C0, T0, 16>,
    17 INF => RepMin<C0, T0, 17>,
    1 17 => RepMinMax<C0, T0, 1, 17>,
    8 8 => RepMinMax<C0, T0, 8, 8>,
    16 16 => RepMinMax<C0, T0, 16, 16>,
    33 33 => RepMinMax<C0, T0, 33, 33>,
    32 34 => RepMinMax<C0, T0, 32, 34>,
    34 INF => RepMin<C0, T0, 34>,
    0 32 => RepMax<C0, T0, 32>,
    33 INF => RepMin<C0, T0, 33>,
    1 33 => RepMinMax<C0, T0, 1, 33>,
    32 32 => RepMinMax<C0, T0, 32, 32>,
    66 66 => RepMinMax<C0, T0, 66, 66>,
    65 67 => RepMinMax<C0, T0, 65, 67>,
    67 INF => RepMin<C0, T0, 67>,
    0 65 => RepMax<C0, T0, 65>,
    66 INF => RepMin<C0, T0, 66>,
    1 66 => RepMinMax<C0, T0, 1, 66>,
    65 65 => RepMinMax<C0, T0, 65, 65>,
    130 130 => RepMinMax<C0, T0, 130, 130>,
    129 131 => RepMinMax<C0, T0, 129, 131>,
    131 INF => RepMin<C0, T0, 131>,
    0 129 => RepMax<C0, T0, 129>,
    130 INF => RepMin<C0, T0, 130>,
    1 130 => RepMinMax<C0, T0, 1, 130>,
    129 129 => RepMinMax<C0, T0, 129, 129>,
    7 7 => RepMinMax<C0, T0, 7, 7>,
}

macro_rules! slices {
    ($($a:literal)*) => {
        fn eval_sl1<'i>(a: i64, cx: Cx<'_, 'i, '_>) -> Option<(Position<'i>, Out)> {
            match a {
                $($a => ev::<PeekSlice1<$a>>(cx, |_| (vec![], vec![])),)*
                15 => ev::<PeekSlice1<15>>(cx, |_| (vec![], vec![])),
                17 => ev::<PeekSlice1<17>>(cx, |_| (vec![], vec![])),
                18 => ev::<PeekSlice1<18>>(cx, |_| (vec![], vec![])),
                -17 => ev::<PeekSlice1<-17>>(cx, |_| (vec![], vec![])),
                -18 => ev::<PeekSlice1<-18>>(cx, |_| (vec![], vec![])),
                31 => ev::<PeekSlice1<31>>(cx, |_| (vec![], vec![])),
                33 => ev::<PeekSlice1<33>>(cx, |_| (vec![], vec![])),
                34 => ev::<PeekSlice1<34>>(cx, |_| (vec![], vec![])),
                -33 => ev::<PeekSlice1<-33>>(cx, |_| (vec![], vec![])),
                -34 => ev::<PeekSlice1<-34>>(cx, |_| (vec![], vec![])),
                64 => ev::<PeekSlice1<64>>(cx, |_| (vec![], vec![])),
                66 => ev::<PeekSlice1<66>>(cx, |_| (vec![], vec![])),
                67 => ev::<PeekSlice1<67>>(cx, |_| (vec![], vec![])),
                -66 => ev::<PeekSlice1<-66>>(cx, |_| (vec![], vec![])),
                -67 => ev::<PeekSlice1<-67>>(cx, |_| (vec![], vec![])),
                128 => ev::<PeekSlice1<128>>(cx, |_| (vec![], vec![])),
                130 => ev::<PeekSlice1<130>>(cx, |_| (vec![], vec![])),
                131 => ev::<PeekSlice1<131>>(cx, |_| (vec![], vec![])),
                -130 => ev::<PeekSlice1<-130>>(cx, |_| (vec![], vec![])),
                -131 => ev::<PeekSlice1<-131>>(cx, |_| (vec![], vec![])),
                _ => unreachable!(),
            }
        }
        fn eval_sl2<'i>(a: i64, b: i64, cx: Cx<'_, 'i, '_>) -> Option<(Position<'i>, Out)> {
            if a == 3 && b == 14 { return ev::<PeekSlice2<3, 14>>(cx, |_| (vec![], vec![])); }
            if a == 16 && b == 2 { return ev::<PeekSlice2<16, 2>>(cx, |_| (vec![], vec![])); }
            if a == 3 && b == 30 { return ev::<PeekSlice2<3, 30>>(cx, |_| (vec![], vec![])); }
            if a == 32 && b == 2 { return ev::<PeekSlice2<32, 2>>(cx, |_| (vec![], vec![])); }
            if a == 3 && b == 63 { return ev::<PeekSlice2<3, 63>>(cx, |_| (vec![], vec![])); }
            if a == 65 && b == 2 { return ev::<PeekSlice2<65, 2>>(cx, |_| (vec![], vec![])); }
            if a == 3 && b == 127 { return ev::<PeekSlice2<3, 127>>(cx, |_| (vec![], vec![])); }
            if a == 129 && b == 2 { return ev::<PeekSlice2<129, 2>>(cx, |_| (vec![], vec![])); }
            match a { $($a => eval_sl2b::<$a>(b, cx),)* _ => unreachable!() }
        }
    };
}
macro_rules! slices_b {
    ($($b:literal)*) => {
        fn eval_sl2b<'i, const A: isize>(b: i64, cx: Cx<'_, 'i, '_>) -> Option<(Position<'i>, Out)> {
            match b { $($b => ev::<PeekSlice2<A, $b>>(cx, |_| (vec![], vec![])),)* _ => unreachable!() }
        }
    };
}
slices!(-4 -3 -2 -1 0 1 2 3 4);
slices_b!(-4 -3 -2 -1 0 1 2 3 4);

macro_rules! ranges {
    ($($i:literal $a:literal $b:literal)*) => {
        const RANGES: &[(char, char)] = &[$(($a, $b)),*];
        fn eval_rng<'i>(lo: i64, hi: i64, cx: Cx<'_, 'i, '_>) -> Option<(Position<'i>, Out)> {
            $(if lo == $a as i64 && hi == $b as i64 {
                return ev::<CharRange<$a, $b>>(cx, |v| (vec![v.content as i64], vec![]));
            })*
            panic!("harness: no range type for {lo}..{hi}")
        }
    };
}
ranges!(0 'a' 'b' 1 'a' 'z' 2 'b' 'a' 3 'é' 'é' 4 '\0' '\u{10ffff}' 5 'b' '日' 6 'A' 'C' 7 'a' 'c' 8 'a' 'é');

fn one(c: char) -> Cap {
    (vec![c as i64], vec![])
}
fn text(s: Span<'_>) -> Cap {
    (cps(s.as_str()), vec![])
}

fn eval<'i>(
    n: usize,
    parse: bool,
    input: Position<'i>,
    stack: &mut Stack<Span<'i>>,
    tracker: &mut Tracker<'i, Rule>,
) -> Option<(Position<'i>, Out)> {
    let fuel = FUEL.get();
    if fuel == 0 {
        panic!("FUEL");
    }
    FUEL.set(fuel - 1);
    let nodes = NODES.with(|n| n.borrow().clone());
    let node = &nodes[n];
    let saved = CUR.replace(n);
    let cx = Cx { n, parse, input, stack, tracker };
    let res = match node.op.as_str() {
        "str" => eval_str(node.s, false, cx),
        "ins" => eval_str(node.s, true, cx),
        "chr" => match node.s {
            1 => ev::<Char<'a'>>(cx, |_| (vec![], vec![])),
            2 => ev::<Char<'b'>>(cx, |_| (vec![], vec![])),
            8 => ev::<Char<'é'>>(cx, |_| (vec![], vec![])),
            19 => ev::<Char<'😀'>>(cx, |_| (vec![], vec![])),
            _ => unreachable!(),
        },
        "rng" => eval_rng(node.lo, node.hi, cx),
        "any" => ev::<any>(cx, |v| one(v.content)),
        "soi" => ev::<soi>(cx, |_| (vec![], vec![])),
        "eoi" => ev::<eoi>(cx, |_| (vec![], vec![])),
        "nl" => ev::<newline>(cx, |v| {
            let x = match v.content {
                NewLineType::CRLF => 1,
                NewLineType::LF => 2,
                NewLineType::CR => 3,
            };
            (vec![x], vec![])
        }),
        "empty" => ev::<Empty>(cx, |_| (vec![], vec![])),
        "never" => ev::<NONE>(cx, |_| (vec![], vec![])),
        "skip" => match node.lo {
            0 => ev::<SkipChar<'i, 0>>(cx, |v| text(v.span)),
            1 => ev::<SkipChar<'i, 1>>(cx, |v| text(v.span)),
            2 => ev::<SkipChar<'i, 2>>(cx, |v| text(v.span)),
            3 => ev::<SkipChar<'i, 3>>(cx, |v| text(v.span)),
            _ => unreachable!(),
        },
        "digit" => ev::<ascii_digit>(cx, |v| one(v.content)),
        "nzdigit" => ev::<ascii_nonzero_digit>(cx, |v| one(v.content)),
        "bin" => ev::<ascii_bin_digit>(cx, |v| one(v.content)),
        "oct" => ev::<ascii_oct_digit>(cx, |v| one(v.content)),
        "hex" => ev::<ascii_hex_digit>(cx, |v| {
            one(v.choice_0().map(|c| c.content).or(v.choice_1().map(|c| c.content)).or(v.choice_2().map(|c| c.content)).unwrap())
        }),
        "lower" => ev::<ascii_alpha_lower>(cx, |v| one(v.content)),
        "upper" => ev::<ascii_alpha_upper>(cx, |v| one(v.content)),
        "alpha" => ev::<ascii_alpha>(cx, |v| {
            one(v.choice_0().map(|c| c.content).or(v.choice_1().map(|c| c.content)).unwrap())
        }),
        "alnum" => ev::<ascii_alphanumeric>(cx, |v| {
            let a = v.choice_0().map(|v| v.choice_0().map(|c| c.content).or(v.choice_1().map(|c| c.content)).unwrap());
            one(a.or(v.choice_1().map(|c| c.content)).unwrap())
        }),
        "ascii" => ev::<ascii>(cx, |v| one(v.content)),
        "peek" => ev::<peek<'i>>(cx, |v| text(v.span)),
        "pop" => ev::<pop<'i>>(cx, |v| text(v.span)),
        "drop" => ev::<drop>(cx, |_| (vec![], vec![])),
        "peekall" => ev::<peek_all<'i>>(cx, |v| text(v.span)),
        "popall" => ev::<pop_all<'i>>(cx, |v| text(v.span)),
        "sl1" => eval_sl1(node.lo, cx),
        "sl2" => eval_sl2(node.lo, node.hi, cx),
        "push" => ev::<push<C0>>(cx, |v| (if v.content == **v { vec![] } else { vec![-77] }, vec![v.content.tree.clone()])),
        "pos" => ev::<Positive<C0>>(cx, |v| (if v.content == **v { vec![] } else { vec![-77] }, vec![v.content.tree.clone()])),
        "neg" => ev::<Negative<C0>>(cx, |_| (vec![], vec![])),
        "opt" => ev::<Option<C0>>(cx, |v| (vec![], v.iter().map(|c| c.tree.clone()).collect())),
        "seq" => eval_seq(node.k.len(), cx),
        "cho" => eval_choice(node.k.len(), cx),
        "rep" => eval_rep(node.lo, node.hi, cx),
        "rule" => eval_rule(node.lo, cx),
        op => panic!("harness: unknown op {op}"),
    };
    CUR.set(saved);
    res
}

fn pair_json(p: &Pair<Rule>) -> Value {
    json!([p.rule as usize, ci(p.start), ci(p.end), p.children.iter().map(pair_json).collect::<Vec<_>>()])
}
fn report<'i>(tracker: Tracker<'i, Rule>) -> Value {
    let (pos, att) = tracker.finish();
    let att: Vec<Value> = att
        .into_iter()
        .map(|(u, (p, n, s))| {
            let s: Vec<Value> = s
                .iter()
                .map(|s| {
                    // the variants are public, their payload is what the report is about
                    use pest3_special::*;
                    special(s)
                })
                .collect();
            let ids = |v: Vec<Rule>| v.into_iter().map(|r| r as usize).collect::<Vec<_>>();
            json!([u.map(|r| r as i64).unwrap_or(-1), ids(p), ids(n), s])
        })
        .collect();
    json!({"pos": ci(pos.pos()), "att": att})
}
/// `SpecialError` is not re-exported; its rendering is the observable.
mod pest3_special {
    use serde_json::{json, Value};
    pub fn special<T: ToString>(s: &T) -> Value {
        let s = s.to_string();
        let nums: Vec<i64> = s
            .split(|c: char| !(c.is_ascii_digit() || c == '-'))
            .filter(|s| !s.is_empty())
            .filter_map(|s| s.parse().ok())
            .collect();
        if s.contains("slice") {
            let mut v = vec![json!("slice")];
            v.extend(nums.into_iter().map(|n| json!(n)));
            Value::Array(v)
        } else if s.contains("pop or drop") {
            json!(["empty"])
        } else if s.contains("epeated too many") {
            json!(["repeat"])
        } else {
            json!(["other"])
        }
    }
}
fn stack_json(stack: &Stack<Span<'_>>) -> Value {
    let v: Vec<Value> = stack[0..stack.len()].iter().map(|s| json!([ci(s.start()), ci(s.end())])).collect();
    Value::Array(v)
}
fn err_json(e: &pest3_core::error::Error<Rule>) -> Value {
    let message = match &e.variant {
        ErrorVariant::CustomError { message } => message.clone(),
        ErrorVariant::ParsingError { .. } => "PARSING".to_owned(),
    };
    let lc = match e.line_col {
        LineColLocation::Pos((l, c)) => json!([l, c]),
        LineColLocation::Span(..) => json!([0, 0]),
    };
    let at = match e.location {
        InputLocation::Pos(p) => ci(p),
        InputLocation::Span(_) => -1,
    };
    json!({"msg": message, "lc": lc, "at": at})
}

fn mk_stack<'i>(input: &'i str, bytes: &[usize], stk0: &[(usize, usize)], snaps: &[usize]) -> Stack<Span<'i>> {
    let mut stack = Stack::new();
    for i in 0..=stk0.len() {
        for s in snaps {
            if *s == i {
                stack.snapshot();
            }
        }
        if i < stk0.len() {
            stack.push(Span::new(input, bytes[stk0[i].0], bytes[stk0[i].1]).unwrap());
        }
    }
    stack
}
/// Undo the snapshots the harness took: each must give back the state it was taken in.
fn balanced(stack: &mut Stack<Span<'_>>, input: &str, bytes: &[usize], stk0: &[(usize, usize)], snaps: &[usize]) -> bool {
    for s in snaps.iter().rev() {
        stack.restore();
        let want = stack_json(&mk_stack(input, bytes, &stk0[..*s], &[]));
        if stack_json(stack) != want {
            return false;
        }
    }
    true
}

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    FUEL.set(FUEL0.get());
    CUR.set(0);
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        }
    })
}
thread_local! { static FUEL0: Cell<u64> = const { Cell::new(200_000) }; }

fn usizes(v: &Value) -> Vec<usize> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default()
}

/// A rule as somebody tracks it by hand.
struct Tracked<const I: usize>;
impl<const I: usize> pest3_core::typed::wrapper::Rule for Tracked<I> {
    type Rule = Rule;
    const RULE: Rule = TRACKED[I];
}
const TRACKED: [Rule; 6] = [Rule::EOI, Rule::R1, Rule::R2, Rule::R3, Rule::R4, Rule::R5];

/// Drives a tracker by the events of a script; whether every method gave back what it was given.
struct Script<'i, 'a> {
    at: &'a dyn Fn(i64) -> Position<'i>,
    events: &'a [Value],
    next: usize,
    given: bool,
}
impl<'i> Script<'i, '_> {
    /// Until what was opened is closed; how it was.
    fn run(&mut self, tracker: &mut Tracker<'i, Rule>) -> bool {
        while self.next < self.events.len() {
            let e = &self.events[self.next];
            self.next += 1;
            let n = |i: usize| e[i].as_i64();
            match e[0].as_str().unwrap() {
                "leave" => return e[1].as_bool().unwrap(),
                "unpol" => return true,
                "pol" => {
                    let mark = self.next;
                    let got = if e[1].as_bool().unwrap() {
                        tracker.positive_during(|t| { self.run(t); mark })
                    } else {
                        tracker.negative_during(|t| { self.run(t); mark })
                    };
                    self.given &= got == mark;
                }
                "enter" => {
                    let (rule, pos, end) = (n(1).unwrap() as usize, (self.at)(n(2).unwrap()), if self.next % 2 == 0 { (self.at)(n(2).unwrap()) } else { (self.at)(0) });
                    let mut ok = false;
                    let got = match e[3].as_str().unwrap() {
                        "option" => tracker
                            .record_option_during(pos, |t| { ok = self.run(t); ok.then_some((end, 7)) }, TRACKED[rule])
                            .map(|(p, v)| (p, v == 7)),
                        "empty" => tracker
                            .record_empty_during::<()>(pos, |t| { ok = self.run(t); ok.then_some(end) }, TRACKED[rule])
                            .map(|p| (p, true)),
                        _ => match rule {
                            1 => self.result::<1>(tracker, pos, end, &mut ok),
                            2 => self.result::<2>(tracker, pos, end, &mut ok),
                            3 => self.result::<3>(tracker, pos, end, &mut ok),
                            4 => self.result::<4>(tracker, pos, end, &mut ok),
                            _ => self.result::<5>(tracker, pos, end, &mut ok),
                        },
                    };
                    self.given &= got == ok.then_some((end, true));
                }
                "slice" => tracker.out_of_bound((self.at)(n(1).unwrap()), n(2).unwrap() as isize, n(3).map(|x| x as isize)),
                "empty" => tracker.empty_stack((self.at)(n(1).unwrap())),
                _ => tracker.repeat_too_many_times((self.at)(n(1).unwrap())),
            }
        }
        true
    }
    fn result<const I: usize>(&mut self, tracker: &mut Tracker<'i, Rule>, pos: Position<'i>, end: Position<'i>, ok: &mut bool) -> Option<(Position<'i>, bool)> {
        match tracker.record_result_during::<Tracked<I>, u8>(pos, |t| {
            *ok = self.run(t);
            if *ok { Ok((end, Tracked)) } else { Err(9) }
        }) {
            Ok((p, _)) => Some((p, true)),
            Err(9) => None,
            Err(_) => Some((pos, false)),
        }
    }
}
fn run_script(case: &Value) -> Value {
    let chs = case["chs"].as_array().unwrap();
    let input: String = chs.iter().map(|c| c.as_str().unwrap()).collect();
    let mut bytes: Vec<usize> = input.char_indices().map(|(i, _)| i).collect();
    bytes.push(input.len());
    let mut chars: Vec<i64> = (0..=input.len()).map(|b| -(b as i64) - 1).collect();
    for (i, b) in bytes.iter().enumerate() {
        chars[*b] = i as i64;
    }
    CHARS.with(|c| *c.borrow_mut() = chars);
    let at = |p: i64| Position::new(&input, bytes[p as usize]).unwrap();
    let go = || {
        let mut tracker = Tracker::new(at(case["start"].as_i64().unwrap()));
        let mut script = Script { at: &at, events: case["script"].as_array().unwrap(), next: 0, given: true };
        script.run(&mut tracker);
        (script.given && script.next == script.events.len(), tracker)
    };
    let res = guard(|| {
        let (given, tracker) = go();
        let rep = report(tracker);
        let err = err_json(&go().1.collect());
        json!({"given": given, "rep": rep, "err": err, "panics": []})
    });
    res.unwrap_or_else(|e| json!({"panics": [e]}))
}

fn run_case(case: &Value) -> Value {
    let input: String = case["inp"].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
    let mut bytes: Vec<usize> = input.char_indices().map(|(i, _)| i).collect();
    bytes.push(input.len());
    let mut chars: Vec<i64> = (0..=input.len()).map(|b| -(b as i64) - 1).collect();
    for (i, b) in bytes.iter().enumerate() {
        chars[*b] = i as i64;
    }
    CHARS.with(|c| *c.borrow_mut() = chars);
    let mut nodes = vec![Node::default()];
    for n in case["nodes"].as_array().unwrap() {
        let s: String = n["s"].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
        nodes.push(Node {
            op: n["c"].as_str().unwrap_or(n["op"].as_str().unwrap()).to_owned(),
            k: usizes(&n["k"]),
            t: usizes(&n["t"]),
            s: STRS.iter().position(|x| *x == s).expect("string not in table"),
            lo: n["lo"].as_i64().unwrap(),
            hi: n["hi"].as_i64().unwrap(),
        });
    }
    let root = case["root"].as_u64().unwrap() as usize;
    let (root_op, root_lo, root_hi) = (nodes[root].op.clone(), nodes[root].lo, nodes[root].hi);
    NODES.with(|x| *x.borrow_mut() = Rc::new(nodes));
    ROOT.set(root);
    let start = case["start"].as_u64().unwrap() as usize;
    let stk0: Vec<(usize, usize)> = case["stk0"].as_array().unwrap().iter().map(|p| { let p = usizes(p); (p[0], p[1]) }).collect();
    let snaps = usizes(&case["snaps"]);
    let input = input.as_str();
    let at = Position::new(input, bytes[start]).unwrap();

    let mut obs = serde_json::Map::new();
    let mut panics: Vec<Value> = vec![];
    let mut put = |name: &str, r: Result<Value, String>| match r {
        Ok(v) => {
            obs.insert(name.to_owned(), v);
        }
        Err(e) => {
            panics.push(json!(format!("{name}: {e}")));
        }
    };

    FAITHFUL.set(true);
    put("p", guard(|| {
        let mut stack = mk_stack(input, &bytes, &stk0, &snaps);
        let mut tracker = Tracker::new(at);
        let r = Root::try_parse_with_partial(at, &mut stack, &mut tracker);
        let stk = stack_json(&stack);
        let bal = balanced(&mut stack, input, &bytes, &stk0, &snaps);
        let rep = report(tracker);
        match r {
            Some((pos, v)) => json!({"ok": true, "end": ci(pos.pos()), "stk": stk, "bal": bal, "rep": rep,
                "disp": FAITHFUL.get() && v.pairs.iter().all(faithful),
                "tree": v.tree.json(), "pairs": v.pairs.iter().map(pair_json).collect::<Vec<_>>()}),
            None => json!({"ok": false, "end": -1, "stk": stk, "bal": bal, "rep": rep, "tree": [], "pairs": []}),
        }
    }));
    put("c", guard(|| {
        let mut stack = mk_stack(input, &bytes, &stk0, &snaps);
        let mut tracker = Tracker::new(at);
        let r = Root::check_with_partial(at, &mut stack, &mut tracker);
        let stk = stack_json(&stack);
        let bal = balanced(&mut stack, input, &bytes, &stk0, &snaps);
        let rep = report(tracker);
        json!({"ok": r.is_some(), "end": r.map(|p| ci(p.pos())).unwrap_or(-1), "stk": stk, "bal": bal, "rep": rep})
    }));
    put("fp", guard(|| {
        let mut stack = mk_stack(input, &bytes, &stk0, &snaps);
        let mut tracker = Tracker::new(at);
        let r = Root::try_parse_with(at, &mut stack, &mut tracker);
        let stk = stack_json(&stack);
        json!({"ok": r.is_some(), "stk": stk, "rep": report(tracker), "tree": r.map(|v| v.tree.json()).unwrap_or(json!([]))})
    }));
    put("fc", guard(|| {
        let mut stack = mk_stack(input, &bytes, &stk0, &snaps);
        let mut tracker = Tracker::new(at);
        let r = Root::check_with(at, &mut stack, &mut tracker);
        let stk = stack_json(&stack);
        json!({"ok": r, "stk": stk, "rep": report(tracker)})
    }));
    let entry = start == 0 && stk0.is_empty();
    if entry {
        let none = || json!({"msg": "", "lc": [0, 0], "at": -1});
        put("epp", guard(|| match Root::try_parse_partial(input) {
            Ok((p, v)) => json!({"ok": true, "end": ci(p.pos()), "tree": v.tree.json(), "err": none()}),
            Err(e) => json!({"ok": false, "end": -1, "tree": [], "err": err_json(&e)}),
        }));
        put("epf", guard(|| match Root::try_parse(input) {
            Ok(v) => json!({"ok": true, "end": -1, "tree": v.tree.json(), "err": none()}),
            Err(e) => json!({"ok": false, "end": -1, "tree": [], "err": err_json(&e)}),
        }));
        put("ecp", guard(|| match Root::check_partial(input) {
            Ok(p) => json!({"ok": true, "end": ci(p.pos()), "err": none()}),
            Err(e) => json!({"ok": false, "end": -1, "err": err_json(&e)}),
        }));
        put("ecf", guard(|| match Root::check(input) {
            Ok(()) => json!({"ok": true, "end": -1, "err": none()}),
            Err(e) => json!({"ok": false, "end": -1, "err": err_json(&e)}),
        }));
        // the same through the parser trait
        put("tpf", guard(|| match TheParser::try_parse::<Root>(input) {
            Ok(v) => json!({"ok": true, "tree": v.tree.json(), "err": none()}),
            Err(e) => json!({"ok": false, "tree": [], "err": err_json(&e)}),
        }));
        put("tpp", guard(|| match TheParser::try_parse_partial::<Root>(input) {
            Ok((p, v)) => json!({"ok": true, "end": ci(p.pos()), "tree": v.tree.json(), "err": none()}),
            Err(e) => json!({"ok": false, "end": -1, "tree": [], "err": err_json(&e)}),
        }));
    }
    let nf = root_op == "rep" && root_lo == 0;
    if nf {
        put("nf", guard(|| {
            let mut stack = mk_stack(input, &bytes, &stk0, &snaps);
            CUR.set(root);
            let (pos, ks): (Position<'_>, Vec<Rc<Tree>>) = match root_hi {
                INF => { let (p, v) = (&Never::<Rep<C0, T0>>(PhantomData)).from_place(at, &mut stack); (p, rep_trees(&v).1) }
                2 => { let (p, v) = (&Never::<RepMax<C0, T0, 2>>(PhantomData)).from_place(at, &mut stack); (p, rep_trees(&v).1) }
                1 => { let (p, v) = (&Never::<RepMax<C0, T0, 1>>(PhantomData)).from_place(at, &mut stack); (p, rep_trees(&v).1) }
                0 => { let (p, v) = (&Never::<RepMax<C0, T0, 0>>(PhantomData)).from_place(at, &mut stack); (p, rep_trees(&v).1) }
                // from a text alone: the same as from its start with an empty stack
                3 if entry => { let (p, v) = (&Never::<RepMax<C0, T0, 3>>(PhantomData)).from_text(input);
                    let _ = (&Never::<RepMax<C0, T0, 3>>(PhantomData)).from_place(at, &mut stack); (p, rep_trees(&v).1) }
                _ => { let (p, v) = (&Never::<RepMax<C0, T0, 3>>(PhantomData)).from_place(at, &mut stack); (p, rep_trees(&v).1) }
            };
            json!({"end": ci(pos.pos()), "stk": stack_json(&stack), "ks": ks.iter().map(|t| t.json()).collect::<Vec<_>>()})
        }));
    }
    obs.insert("entry".to_owned(), json!(entry));
    obs.insert("hasnf".to_owned(), json!(nf));
    obs.insert("panics".to_owned(), Value::Array(panics));
    Value::Object(obs)
}

/// Asks a repetition without a lower bound as a node that never fails, which it is to be.
struct Never<T>(PhantomData<T>);
trait IsNever<'i, T> {
    fn from_place(&self, at: Position<'i>, stack: &mut Stack<Span<'i>>) -> (Position<'i>, T);
    fn from_text(&self, text: &'i str) -> (Position<'i>, T);
}
impl<'i, T: NeverFailedTypedNode<'i, Rule>> IsNever<'i, T> for Never<T> {
    fn from_place(&self, at: Position<'i>, stack: &mut Stack<Span<'i>>) -> (Position<'i>, T) { T::parse_with_partial(at, stack) }
    fn from_text(&self, text: &'i str) -> (Position<'i>, T) { T::parse_partial(text) }
}
trait IsNot<'i, T> {
    fn from_place(&self, _: Position<'i>, _: &mut Stack<Span<'i>>) -> (Position<'i>, T) { panic!("not a node that never fails") }
    fn from_text(&self, _: &'i str) -> (Position<'i>, T) { panic!("not a node that never fails") }
}
impl<'i, T> IsNot<'i, T> for &Never<T> {}

fn main() {
    let child = std::thread::Builder::new().stack_size(1 << 30).spawn(|| {
        std::panic::set_hook(Box::new(|_| {}));
        let _ = RANGES;
        if let Ok(f) = std::env::var("FUEL") {
            FUEL0.set(f.parse().unwrap());
        }
        let stdin = std::io::stdin();
        let mut out = std::io::BufWriter::new(std::io::stdout());
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let mut case: Value = serde_json::from_str(&line).unwrap();
            let obs = if case.get("script").is_some() { run_script(&case) } else { run_case(&case) };
            case["obs"] = obs;
            serde_json::to_writer(&mut out, &case).unwrap();
            out.write_all(b"\n").unwrap();
            out.flush().unwrap();
        }
    });
    child.unwrap().join().unwrap();
}
