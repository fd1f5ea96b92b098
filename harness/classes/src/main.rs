//! Which scalar values each built-in character class of pest3_core accepts, and what it consumes.
//! One JSON line per class: intervals of accepted scalar values when parsing and when checking,
//! and the scalar values on which the captured character or the end position is not that character's.
use pest3_core::choice::*;
use pest3_core::typed::template::*;
use pest3_core::typed::wrapper::String as StrWrapper;
use pest3_core::typed::{RuleType, Tracker, TypedNode};
use pest3_core::{Position, Span, Stack};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
enum Rule {
    EOI,
}
impl RuleType for Rule {
    const EOI: Self = Rule::EOI;
}
const TEXTS: [&str; 14] = ["k", "K", "s", "a", "z", "A", "Z", "@", "[", "`", "{", "é", "É", "ß"];
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
struct S<const I: usize>;
impl<const I: usize> StrWrapper for S<I> {
    const CONTENT: &'static str = TEXTS[I];
}

fn push(v: &mut Vec<[u32; 2]>, c: u32) {
    match v.last_mut() {
        // surrogates are no scalar values: an interval may step over them
        Some(l) if l[1] + 1 == c || (l[1] == 0xD7FF && c == 0xE000) => l[1] = c,
        _ => v.push([c, c]),
    }
}
/// `captured`: the character the node says it matched, if it says so.
fn class<T: for<'i> TypedNode<'i, Rule>>(name: &str, captured: impl Fn(&T) -> Option<u32>) -> Value {
    let (mut acc, mut chk, mut wrong) = (vec![], vec![], vec![]);
    let mut panicked = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| {
        for c in (0..0x110000).filter_map(char::from_u32) {
            let mut buf = [0u8; 12];
            let n = 1 + c.encode_utf8(&mut buf[1..]).len();
            buf[0] = b'!';
            buf[n] = b'Z';
            let text = std::str::from_utf8(&buf[..n + 1]).unwrap();
            let at = Position::new(text, 1).unwrap();
            let mut stack: Stack<Span<'_>> = Stack::new();
            let mut tracker = Tracker::new(at);
            if let Some((p, t)) = T::try_parse_with_partial(at, &mut stack, &mut tracker) {
                push(&mut acc, c as u32);
                if p.pos() != n || captured(&t).is_some_and(|x| x != c as u32) {
                    wrong.push(c as u32);
                }
            }
            if let Some(p) = T::check_with_partial(at, &mut stack, &mut tracker) {
                push(&mut chk, c as u32);
                if p.pos() != n {
                    wrong.push(c as u32);
                }
            }
            // at the end of the input nothing is accepted
            if c as u32 % 4099 == 0 {
                let end = Position::new(text, n + 1).unwrap();
                if T::try_parse_with_partial(end, &mut stack, &mut tracker).is_some()
                    || T::check_with_partial(end, &mut stack, &mut tracker).is_some()
                {
                    wrong.push(0x110000);
                }
            }
        }
    }));
    if r.is_err() {
        panicked.push(1);
    }
    wrong.truncate(20);
    json!({"name": name, "acc": acc, "chk": chk, "wrong": wrong, "panicked": panicked})
}
type Job = (&'static str, Box<dyn Fn() -> Value + Send + Sync>);
macro_rules! unicode_class {
    ($out:ident, $n:ident) => {
        $out.push((stringify!($n), Box::new(|| class::<pest3_core::typed::unicode::$n>(stringify!($n), |t| Some(t.content as u32)))));
    };
}
macro_rules! plain {
    ($out:ident, $n:expr, $t:ty, $cap:expr) => {
        $out.push(($n, Box::new(|| class::<$t>($n, $cap))));
    };
}
fn range_cap<const A: char, const B: char>(t: &CharRange<A, B>) -> Option<u32> {
    Some(t.content as u32)
}
/// `Insens` borrows from the input, so it is observed through this node.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
struct Ins<const I: usize>(u32);
impl<'i, const I: usize> TypedNode<'i, Rule> for Ins<I> {
    fn try_parse_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rule>) -> Option<(Position<'i>, Self)> {
        let (p, t) = <Insens<'i, S<I>> as TypedNode<'i, Rule>>::try_parse_with_partial(input, stack, tracker)?;
        Some((p, Self(if t.content.chars().count() == 1 { t.content.chars().next().unwrap() as u32 } else { 0x110000 })))
    }
    fn check_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rule>) -> Option<Position<'i>> {
        <Insens<'i, S<I>> as TypedNode<'i, Rule>>::check_with_partial(input, stack, tracker)
    }
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
struct Skip1(u32);
impl<'i> TypedNode<'i, Rule> for Skip1 {
    fn try_parse_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rule>) -> Option<(Position<'i>, Self)> {
        let (p, t) = <SkipChar<'i, 1> as TypedNode<'i, Rule>>::try_parse_with_partial(input, stack, tracker)?;
        Some((p, Self(t.span.as_str().chars().next().unwrap() as u32)))
    }
    fn check_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rule>) -> Option<Position<'i>> {
        <SkipChar<'i, 1> as TypedNode<'i, Rule>>::check_with_partial(input, stack, tracker)
    }
}

fn jobs() -> Vec<Job> {
    let mut out: Vec<Job> = vec![];
    plain!(out, "any", any, |t: &any| Some(t.content as u32));
    plain!(out, "skip 1", Skip1, |t: &Skip1| Some(t.0));
    plain!(out, "newline", newline, |t: &newline| Some(match t.content { NewLineType::CR => 13, NewLineType::LF => 10, _ => 0 }));
    plain!(out, "ascii_digit", ascii_digit, |t: &ascii_digit| range_cap(t));
    plain!(out, "ascii_nonzero_digit", ascii_nonzero_digit, |t: &ascii_nonzero_digit| range_cap(t));
    plain!(out, "ascii_bin_digit", ascii_bin_digit, |t: &ascii_bin_digit| range_cap(t));
    plain!(out, "ascii_oct_digit", ascii_oct_digit, |t: &ascii_oct_digit| range_cap(t));
    plain!(out, "ascii_hex_digit", ascii_hex_digit, |t: &ascii_hex_digit| match t { Choice3::Choice0(x) => range_cap(x), Choice3::Choice1(x) => range_cap(x), Choice3::Choice2(x) => range_cap(x) });
    plain!(out, "ascii_alpha_lower", ascii_alpha_lower, |t: &ascii_alpha_lower| range_cap(t));
    plain!(out, "ascii_alpha_upper", ascii_alpha_upper, |t: &ascii_alpha_upper| range_cap(t));
    plain!(out, "ascii_alpha", ascii_alpha, |t: &ascii_alpha| match t { Choice2::Choice0(x) => range_cap(x), Choice2::Choice1(x) => range_cap(x) });
    plain!(out, "ascii_alphanumeric", ascii_alphanumeric, |t: &ascii_alphanumeric| match t { Choice2::Choice0(Choice2::Choice0(x)) => range_cap(x), Choice2::Choice0(Choice2::Choice1(x)) => range_cap(x), Choice2::Choice1(x) => range_cap(x) });
    plain!(out, "ascii", ascii, |t: &ascii| range_cap(t));
    plain!(out, "range a b", CharRange<'a', 'b'>, range_cap);
    plain!(out, "range b a", CharRange<'b', 'a'>, range_cap);
    plain!(out, "range 7f 80", CharRange<'\u{7f}', '\u{80}'>, range_cap);
    plain!(out, "range 7ff 800", CharRange<'\u{7ff}', '\u{800}'>, range_cap);
    plain!(out, "range d7ff e000", CharRange<'\u{d7ff}', '\u{e000}'>, range_cap);
    plain!(out, "range ffff 10000", CharRange<'\u{ffff}', '\u{10000}'>, range_cap);
    plain!(out, "range 0 10ffff", CharRange<'\0', '\u{10ffff}'>, range_cap);
    plain!(out, "range 10ffff 10ffff", CharRange<'\u{10ffff}', '\u{10ffff}'>, range_cap);
    plain!(out, "range 0 0", CharRange<'\0', '\0'>, range_cap);
    plain!(out, "range 3b1 3c9", CharRange<'α', 'ω'>, range_cap);
    plain!(out, "char x", Char<'x'>, |_| None);
    plain!(out, "char e9", Char<'é'>, |_| None);
    plain!(out, "char 10ffff", Char<'\u{10ffff}'>, |_| None);
    plain!(out, "str 0", Str<S<0>>, |_| None);
    plain!(out, "insens 0", Ins<0>, |t: &Ins<0>| Some(t.0));
    plain!(out, "str 1", Str<S<1>>, |_| None);
    plain!(out, "insens 1", Ins<1>, |t: &Ins<1>| Some(t.0));
    plain!(out, "str 2", Str<S<2>>, |_| None);
    plain!(out, "insens 2", Ins<2>, |t: &Ins<2>| Some(t.0));
    plain!(out, "str 3", Str<S<3>>, |_| None);
    plain!(out, "insens 3", Ins<3>, |t: &Ins<3>| Some(t.0));
    plain!(out, "str 4", Str<S<4>>, |_| None);
    plain!(out, "insens 4", Ins<4>, |t: &Ins<4>| Some(t.0));
    plain!(out, "str 5", Str<S<5>>, |_| None);
    plain!(out, "insens 5", Ins<5>, |t: &Ins<5>| Some(t.0));
    plain!(out, "str 6", Str<S<6>>, |_| None);
    plain!(out, "insens 6", Ins<6>, |t: &Ins<6>| Some(t.0));
    plain!(out, "str 7", Str<S<7>>, |_| None);
    plain!(out, "insens 7", Ins<7>, |t: &Ins<7>| Some(t.0));
    plain!(out, "str 8", Str<S<8>>, |_| None);
    plain!(out, "insens 8", Ins<8>, |t: &Ins<8>| Some(t.0));
    plain!(out, "str 9", Str<S<9>>, |_| None);
    plain!(out, "insens 9", Ins<9>, |t: &Ins<9>| Some(t.0));
    plain!(out, "str 10", Str<S<10>>, |_| None);
    plain!(out, "insens 10", Ins<10>, |t: &Ins<10>| Some(t.0));
    plain!(out, "str 11", Str<S<11>>, |_| None);
    plain!(out, "insens 11", Ins<11>, |t: &Ins<11>| Some(t.0));
    plain!(out, "str 12", Str<S<12>>, |_| None);
    plain!(out, "insens 12", Ins<12>, |t: &Ins<12>| Some(t.0));
    plain!(out, "str 13", Str<S<13>>, |_| None);
    plain!(out, "insens 13", Ins<13>, |t: &Ins<13>| Some(t.0));
    unicode_class!(out, ALPHABETIC);
    unicode_class!(out, BIDI_CONTROL);
    unicode_class!(out, CASE_IGNORABLE);
    unicode_class!(out, CASED);
    unicode_class!(out, CHANGES_WHEN_CASEFOLDED);
    unicode_class!(out, CHANGES_WHEN_CASEMAPPED);
    unicode_class!(out, CHANGES_WHEN_LOWERCASED);
    unicode_class!(out, CHANGES_WHEN_TITLECASED);
    unicode_class!(out, CHANGES_WHEN_UPPERCASED);
    unicode_class!(out, DASH);
    unicode_class!(out, DEFAULT_IGNORABLE_CODE_POINT);
    unicode_class!(out, DEPRECATED);
    unicode_class!(out, DIACRITIC);
    unicode_class!(out, EMOJI);
    unicode_class!(out, EMOJI_COMPONENT);
    unicode_class!(out, EMOJI_MODIFIER);
    unicode_class!(out, EMOJI_MODIFIER_BASE);
    unicode_class!(out, EMOJI_PRESENTATION);
    unicode_class!(out, EXTENDED_PICTOGRAPHIC);
    unicode_class!(out, EXTENDER);
    unicode_class!(out, GRAPHEME_BASE);
    unicode_class!(out, GRAPHEME_EXTEND);
    unicode_class!(out, GRAPHEME_LINK);
    unicode_class!(out, HEX_DIGIT);
    unicode_class!(out, HYPHEN);
    unicode_class!(out, IDS_BINARY_OPERATOR);
    unicode_class!(out, IDS_TRINARY_OPERATOR);
    unicode_class!(out, ID_CONTINUE);
    unicode_class!(out, ID_START);
    unicode_class!(out, IDEOGRAPHIC);
    unicode_class!(out, JOIN_CONTROL);
    unicode_class!(out, LOGICAL_ORDER_EXCEPTION);
    unicode_class!(out, LOWERCASE);
    unicode_class!(out, MATH);
    unicode_class!(out, NONCHARACTER_CODE_POINT);
    unicode_class!(out, OTHER_ALPHABETIC);
    unicode_class!(out, OTHER_DEFAULT_IGNORABLE_CODE_POINT);
    unicode_class!(out, OTHER_GRAPHEME_EXTEND);
    unicode_class!(out, OTHER_ID_CONTINUE);
    unicode_class!(out, OTHER_ID_START);
    unicode_class!(out, OTHER_LOWERCASE);
    unicode_class!(out, OTHER_MATH);
    unicode_class!(out, OTHER_UPPERCASE);
    unicode_class!(out, PATTERN_SYNTAX);
    unicode_class!(out, PATTERN_WHITE_SPACE);
    unicode_class!(out, PREPENDED_CONCATENATION_MARK);
    unicode_class!(out, QUOTATION_MARK);
    unicode_class!(out, RADICAL);
    unicode_class!(out, REGIONAL_INDICATOR);
    unicode_class!(out, SENTENCE_TERMINAL);
    unicode_class!(out, SOFT_DOTTED);
    unicode_class!(out, TERMINAL_PUNCTUATION);
    unicode_class!(out, UNIFIED_IDEOGRAPH);
    unicode_class!(out, UPPERCASE);
    unicode_class!(out, VARIATION_SELECTOR);
    unicode_class!(out, WHITE_SPACE);
    unicode_class!(out, XID_CONTINUE);
    unicode_class!(out, XID_START);
    unicode_class!(out, CASED_LETTER);
    unicode_class!(out, CLOSE_PUNCTUATION);
    unicode_class!(out, CONNECTOR_PUNCTUATION);
    unicode_class!(out, CONTROL);
    unicode_class!(out, CURRENCY_SYMBOL);
    unicode_class!(out, DASH_PUNCTUATION);
    unicode_class!(out, DECIMAL_NUMBER);
    unicode_class!(out, ENCLOSING_MARK);
    unicode_class!(out, FINAL_PUNCTUATION);
    unicode_class!(out, FORMAT);
    unicode_class!(out, INITIAL_PUNCTUATION);
    unicode_class!(out, LETTER);
    unicode_class!(out, LETTER_NUMBER);
    unicode_class!(out, LINE_SEPARATOR);
    unicode_class!(out, LOWERCASE_LETTER);
    unicode_class!(out, MARK);
    unicode_class!(out, MATH_SYMBOL);
    unicode_class!(out, MODIFIER_LETTER);
    unicode_class!(out, MODIFIER_SYMBOL);
    unicode_class!(out, NONSPACING_MARK);
    unicode_class!(out, NUMBER);
    unicode_class!(out, OPEN_PUNCTUATION);
    unicode_class!(out, OTHER);
    unicode_class!(out, OTHER_LETTER);
    unicode_class!(out, OTHER_NUMBER);
    unicode_class!(out, OTHER_PUNCTUATION);
    unicode_class!(out, OTHER_SYMBOL);
    unicode_class!(out, PARAGRAPH_SEPARATOR);
    unicode_class!(out, PRIVATE_USE);
    unicode_class!(out, PUNCTUATION);
    unicode_class!(out, SEPARATOR);
    unicode_class!(out, SPACE_SEPARATOR);
    unicode_class!(out, SPACING_MARK);
    unicode_class!(out, SURROGATE);
    unicode_class!(out, SYMBOL);
    unicode_class!(out, TITLECASE_LETTER);
    unicode_class!(out, UNASSIGNED);
    unicode_class!(out, UPPERCASE_LETTER);
    unicode_class!(out, ADLAM);
    unicode_class!(out, AHOM);
    unicode_class!(out, ANATOLIAN_HIEROGLYPHS);
    unicode_class!(out, ARABIC);
    unicode_class!(out, ARMENIAN);
    unicode_class!(out, AVESTAN);
    unicode_class!(out, BALINESE);
    unicode_class!(out, BAMUM);
    unicode_class!(out, BASSA_VAH);
    unicode_class!(out, BATAK);
    unicode_class!(out, BENGALI);
    unicode_class!(out, BHAIKSUKI);
    unicode_class!(out, BOPOMOFO);
    unicode_class!(out, BRAHMI);
    unicode_class!(out, BRAILLE);
    unicode_class!(out, BUGINESE);
    unicode_class!(out, BUHID);
    unicode_class!(out, CANADIAN_ABORIGINAL);
    unicode_class!(out, CARIAN);
    unicode_class!(out, CAUCASIAN_ALBANIAN);
    unicode_class!(out, CHAKMA);
    unicode_class!(out, CHAM);
    unicode_class!(out, CHEROKEE);
    unicode_class!(out, CHORASMIAN);
    unicode_class!(out, COMMON);
    unicode_class!(out, COPTIC);
    unicode_class!(out, CUNEIFORM);
    unicode_class!(out, CYPRIOT);
    unicode_class!(out, CYPRO_MINOAN);
    unicode_class!(out, CYRILLIC);
    unicode_class!(out, DESERET);
    unicode_class!(out, DEVANAGARI);
    unicode_class!(out, DIVES_AKURU);
    unicode_class!(out, DOGRA);
    unicode_class!(out, DUPLOYAN);
    unicode_class!(out, EGYPTIAN_HIEROGLYPHS);
    unicode_class!(out, ELBASAN);
    unicode_class!(out, ELYMAIC);
    unicode_class!(out, ETHIOPIC);
    unicode_class!(out, GEORGIAN);
    unicode_class!(out, GLAGOLITIC);
    unicode_class!(out, GOTHIC);
    unicode_class!(out, GRANTHA);
    unicode_class!(out, GREEK);
    unicode_class!(out, GUJARATI);
    unicode_class!(out, GUNJALA_GONDI);
    unicode_class!(out, GURMUKHI);
    unicode_class!(out, HAN);
    unicode_class!(out, HANGUL);
    unicode_class!(out, HANIFI_ROHINGYA);
    unicode_class!(out, HANUNOO);
    unicode_class!(out, HATRAN);
    unicode_class!(out, HEBREW);
    unicode_class!(out, HIRAGANA);
    unicode_class!(out, IMPERIAL_ARAMAIC);
    unicode_class!(out, INHERITED);
    unicode_class!(out, INSCRIPTIONAL_PAHLAVI);
    unicode_class!(out, INSCRIPTIONAL_PARTHIAN);
    unicode_class!(out, JAVANESE);
    unicode_class!(out, KAITHI);
    unicode_class!(out, KANNADA);
    unicode_class!(out, KATAKANA);
    unicode_class!(out, KAWI);
    unicode_class!(out, KAYAH_LI);
    unicode_class!(out, KHAROSHTHI);
    unicode_class!(out, KHITAN_SMALL_SCRIPT);
    unicode_class!(out, KHMER);
    unicode_class!(out, KHOJKI);
    unicode_class!(out, KHUDAWADI);
    unicode_class!(out, LAO);
    unicode_class!(out, LATIN);
    unicode_class!(out, LEPCHA);
    unicode_class!(out, LIMBU);
    unicode_class!(out, LINEAR_A);
    unicode_class!(out, LINEAR_B);
    unicode_class!(out, LISU);
    unicode_class!(out, LYCIAN);
    unicode_class!(out, LYDIAN);
    unicode_class!(out, MAHAJANI);
    unicode_class!(out, MAKASAR);
    unicode_class!(out, MALAYALAM);
    unicode_class!(out, MANDAIC);
    unicode_class!(out, MANICHAEAN);
    unicode_class!(out, MARCHEN);
    unicode_class!(out, MASARAM_GONDI);
    unicode_class!(out, MEDEFAIDRIN);
    unicode_class!(out, MEETEI_MAYEK);
    unicode_class!(out, MENDE_KIKAKUI);
    unicode_class!(out, MEROITIC_CURSIVE);
    unicode_class!(out, MEROITIC_HIEROGLYPHS);
    unicode_class!(out, MIAO);
    unicode_class!(out, MODI);
    unicode_class!(out, MONGOLIAN);
    unicode_class!(out, MRO);
    unicode_class!(out, MULTANI);
    unicode_class!(out, MYANMAR);
    unicode_class!(out, NABATAEAN);
    unicode_class!(out, NAG_MUNDARI);
    unicode_class!(out, NANDINAGARI);
    unicode_class!(out, NEW_TAI_LUE);
    unicode_class!(out, NEWA);
    unicode_class!(out, NKO);
    unicode_class!(out, NUSHU);
    unicode_class!(out, NYIAKENG_PUACHUE_HMONG);
    unicode_class!(out, OGHAM);
    unicode_class!(out, OL_CHIKI);
    unicode_class!(out, OLD_HUNGARIAN);
    unicode_class!(out, OLD_ITALIC);
    unicode_class!(out, OLD_NORTH_ARABIAN);
    unicode_class!(out, OLD_PERMIC);
    unicode_class!(out, OLD_PERSIAN);
    unicode_class!(out, OLD_SOGDIAN);
    unicode_class!(out, OLD_SOUTH_ARABIAN);
    unicode_class!(out, OLD_TURKIC);
    unicode_class!(out, OLD_UYGHUR);
    unicode_class!(out, ORIYA);
    unicode_class!(out, OSAGE);
    unicode_class!(out, OSMANYA);
    unicode_class!(out, PAHAWH_HMONG);
    unicode_class!(out, PALMYRENE);
    unicode_class!(out, PAU_CIN_HAU);
    unicode_class!(out, PHAGS_PA);
    unicode_class!(out, PHOENICIAN);
    unicode_class!(out, PSALTER_PAHLAVI);
    unicode_class!(out, REJANG);
    unicode_class!(out, RUNIC);
    unicode_class!(out, SAMARITAN);
    unicode_class!(out, SAURASHTRA);
    unicode_class!(out, SHARADA);
    unicode_class!(out, SHAVIAN);
    unicode_class!(out, SIDDHAM);
    unicode_class!(out, SIGNWRITING);
    unicode_class!(out, SINHALA);
    unicode_class!(out, SOGDIAN);
    unicode_class!(out, SORA_SOMPENG);
    unicode_class!(out, SOYOMBO);
    unicode_class!(out, SUNDANESE);
    unicode_class!(out, SYLOTI_NAGRI);
    unicode_class!(out, SYRIAC);
    unicode_class!(out, TAGALOG);
    unicode_class!(out, TAGBANWA);
    unicode_class!(out, TAI_LE);
    unicode_class!(out, TAI_THAM);
    unicode_class!(out, TAI_VIET);
    unicode_class!(out, TAKRI);
    unicode_class!(out, TAMIL);
    unicode_class!(out, TANGSA);
    unicode_class!(out, TANGUT);
    unicode_class!(out, TELUGU);
    unicode_class!(out, THAANA);
    unicode_class!(out, THAI);
    unicode_class!(out, TIBETAN);
    unicode_class!(out, TIFINAGH);
    unicode_class!(out, TIRHUTA);
    unicode_class!(out, TOTO);
    unicode_class!(out, UGARITIC);
    unicode_class!(out, VAI);
    unicode_class!(out, VITHKUQI);
    unicode_class!(out, WANCHO);
    unicode_class!(out, WARANG_CITI);
    unicode_class!(out, YEZIDI);
    unicode_class!(out, YI);
    unicode_class!(out, ZANABAZAR_SQUARE);
    out
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let jobs = jobs();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let done = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some((_, f)) = jobs.get(i) else { return };
                let v = f();
                done.lock().unwrap().push((i, v));
            });
        }
    });
    let mut done = done.into_inner().unwrap();
    done.sort_by_key(|d| d.0);
    for (_, v) in done {
        println!("{v}");
    }
}
