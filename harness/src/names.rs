//! C10 (property value names, parsing, display, the property macro) and C26 (bidi levels).
use crate::ctx::{cps, fnv, par, Ctx};
use crate::rng::Rng;
use std::collections::HashMap;
use std::fmt::{Debug, Display};
use std::str::FromStr;
use unic_char_property::{BinaryCharProperty, EnumeratedCharProperty, PartialCharProperty, TotalCharProperty};

mod user {
    use unic_char_property::{char_property, PartialCharProperty, TotalCharProperty};
    use unic_char_range::chars;
    char_property! {
        /// Names with digits, underscores and mixed case; one value's name is a prefix of another's.
        pub enum Shape {
            abbr => "shp";
            long => "Shape_Of_Thing";
            human => "Shape of the thing";

            Round { abbr => R, long => Round, human => "round", }
            /// documented
            RoundedSquare { abbr => RS, long => Rounded_Square_2, human => "a rounded square (2)", }
            #[allow(dead_code)]
            Square { abbr => S, long => sQuare, human => "", }
            Other { abbr => XX, long => XXX, human => "Sonstiges — Übrige", }
        }
        /// abbr
        pub mod shape_abbr for abbr;
        /// long
        pub mod shape_long for long;
    }
    impl PartialCharProperty for Shape {
        fn of(c: char) -> Option<Self> {
            match c {
                'o' => Some(Shape::Round),
                'x' => Some(Shape::Other),
                _ => None,
            }
        }
    }
    char_property! {
        pub enum One { abbr => "one"; long => "One"; human => "One";
            Only { abbr => O, long => Only_One, human => "The only one", }
        }
        pub mod one_abbr for abbr;
        pub mod one_long for long;
    }
    impl Default for One {
        fn default() -> One {
            One::Only
        }
    }
    impl TotalCharProperty for One {
        fn of(_: char) -> One {
            One::Only
        }
    }
    char_property! {
        /// Values whose names differ only in case: the exact spelling must win.
        pub enum CaseOnly { abbr => "co"; long => "Case_Only"; human => "Case only";
            Lower { abbr => a, long => aa, human => "lower", }
            Upper { abbr => A, long => AA, human => "upper", }
            Mixed { abbr => aA, long => mixed, human => "mixed", }
        }
        pub mod co_abbr for abbr;
        pub mod co_long for long;
    }
    impl PartialCharProperty for CaseOnly {
        fn of(_: char) -> Option<Self> {
            None
        }
    }
    char_property! {
        pub struct HexOrGap(bool) { abbr => "hog"; long => "Hex_Or_Gap"; human => "hexadecimal or gap";
            data_table_path => "../tables/user_range.rsv";
        }
        /// is
        pub fn is_hex_or_gap(char) -> bool;
    }
    char_property! {
        pub struct Few(bool) { abbr => "few"; long => "Few"; human => "few";
            data_table_path => "../tables/user_direct.rsv";
        }
        pub fn is_few(char) -> bool;
    }
}

fn recase(s: &str, g: &mut Rng) -> String {
    s.chars().map(|c| if g.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
const FLAGS: usize = 9;
fn fmt_with<T: Display + ?Sized>(v: &T, k: usize) -> String {
    match k {
        0 => format!("{}", v),
        1 => format!("{:30}", v),
        2 => format!("{:>30}", v),
        3 => format!("{:*^25}", v),
        4 => format!("{:.3}", v),
        5 => format!("{:<10.2}", v),
        6 => format!("{:->40.1}", v),
        7 => format!("{:.0}", v),
        _ => format!("{:1$.2$}", v, 12, 5),
    }
}
/// Strings that are not a name of any value, derived from a name.
fn near_misses(n: &str, g: &mut Rng) -> Vec<String> {
    let mut v = vec![format!("{} ", n), format!(" {}", n), format!("{}x", n), n.replace('_', "-"), n.replace('_', " "), n.replace('_', ""), format!("{}\0", n), format!("Is{}", n), format!("{}{}", n, n), format!("\u{feff}{}", n)];
    for (a, b) in [('k', "\u{212A}"), ('K', "\u{212A}"), ('s', "\u{17F}"), ('S', "\u{17F}"), ('i', "\u{131}"), ('I', "\u{130}"), ('a', "\u{FF41}")] {
        if n.contains(a) {
            v.push(n.replacen(a, b, 1));
        }
    }
    for _ in 0..4 {
        let mut t: Vec<char> = n.chars().collect();
        let i = g.below(t.len());
        match g.below(3) {
            0 => {
                t.remove(i);
            }
            1 => t[i] = *g.pick(&['_', 'q', 'Z', '0', '@']),
            _ => t.insert(i, *g.pick(&['_', 'e', 'Y'])),
        }
        v.push(t.iter().collect());
    }
    v
}

/// The contract of an enumerated property against the list of (abbreviated, long) names.
fn enumerated<P>(ctx: &Ctx, label: &str, want: &[(&str, &str)], names: (&str, &str), case_insensitive: bool)
where
    P: EnumeratedCharProperty + Display + FromStr<Err = ()> + Debug + Copy + Eq + Sync + 'static,
{
    let mut g = Rng::new(ctx.seed, 10, fnv(label.as_bytes()));
    ctx.call("all_values", label, || {
        let all = P::all_values();
        ctx.obs("property values", all.len() as u64);
        let mut ev = 0u64;
        let mut got: Vec<(String, String)> = all.iter().map(|v| (v.abbr_name().to_string(), v.long_name().to_string())).collect();
        let mut exp: Vec<(String, String)> = want.iter().map(|x| (x.0.into(), x.1.into())).collect();
        got.sort();
        exp.sort();
        for x in exp.iter().filter(|x| !got.contains(x)) {
            ctx.fail(format!("{}:missing:{:?}", label, x), format!("{}: no value is named {:?}; values: {:?}", label, x, got));
        }
        for x in got.iter().filter(|x| !exp.contains(x)) {
            ctx.fail(format!("{}:extra:{:?}", label, x), format!("{}: a value is named {:?}, which the standard does not define", label, x));
        }
        ctx.check(got.len() == exp.len(), || format!("{}:count", label), || format!("{}: {} values, expected {}", label, got.len(), exp.len()));
        for (i, a) in all.iter().enumerate() {
            for b in &all[i + 1..] {
                ev += 1;
                ctx.check(a != b, || format!("{}:twice:{:?}", label, a), || format!("{}: value {:?} is listed twice", label, a));
            }
        }
        ctx.check((P::prop_abbr_name(), P::prop_long_name()) == names, || format!("{}:property name", label), || format!("{}: property names {:?}, {:?}; expected {:?}", label, P::prop_abbr_name(), P::prop_long_name(), names));
        // names of values, by exact spelling
        let mut exact: HashMap<&str, P> = HashMap::new();
        for v in all {
            for n in [v.abbr_name(), v.long_name()] {
                if let Some(o) = exact.insert(n, *v) {
                    ctx.check(o == *v, || format!("{}:name:{}", label, n), || format!("{}: {:?} names both {:?} and {:?}", label, n, o, v));
                }
            }
        }
        let of = |s: &str| -> Option<P> {
            exact.get(s).copied().or_else(|| {
                let m: Vec<P> = exact.iter().filter(|(n, _)| n.eq_ignore_ascii_case(s)).map(|(_, v)| *v).collect();
                m.first().copied()
            })
        };
        for v in all {
            for n in [v.abbr_name(), v.long_name()] {
                let mut forms = vec![n.to_string()];
                if case_insensitive {
                    forms.push(n.to_ascii_lowercase());
                    forms.push(n.to_ascii_uppercase());
                    for _ in 0..12 {
                        forms.push(recase(n, &mut g));
                    }
                }
                for f in forms {
                    ev += 1;
                    ctx.distinct(fnv(format!("{} {}", label, f).as_bytes()));
                    let r = f.parse::<P>();
                    ctx.check(r == Ok(*v), || format!("{}:parse:{}", label, f), || format!("{}: {:?} parses to {:?}, expected {:?}", label, f, r, v));
                }
                if case_insensitive {
                    for m in near_misses(n, &mut g) {
                        ev += 1;
                        let r = m.parse::<P>();
                        let w = of(&m).ok_or(());
                        ctx.check(r == w, || format!("{}:parse:{}", label, cps(&m)), || format!("{}: {:?} parses to {:?}, expected {:?}", label, m, r, w));
                        if w.is_err() {
                            ctx.distinct(fnv(format!("{} {}", label, m).as_bytes()));
                            ctx.obs("rejected near misses", 1);
                        }
                    }
                }
            }
            for k in 0..FLAGS {
                ev += 1;
                let (a, b) = (fmt_with(v, k), fmt_with(v.human_name(), k));
                ctx.check(a == b, || format!("{}:display:{:?}:{}", label, v, k), || format!("{}: {:?} displays as {:?}, its human-readable name as {:?} (format {})", label, v, a, b, k));
            }
        }
        ctx.eval(ev);
        ctx.sample(|| format!("{}: {:?}", label, got.iter().take(3).collect::<Vec<_>>()));
    });
    // exhaustive short strings
    if !case_insensitive {
        return;
    }
    let all = P::all_values();
    par(128, |a| {
        let a = a as u8 as char;
        ctx.call("parsing short strings", label, || {
            let find = |s: &str| all.iter().find(|v| v.abbr_name().eq_ignore_ascii_case(s) || v.long_name().eq_ignore_ascii_case(s)).copied();
            let mut ev = 0;
            let mut one = |s: &str| {
                ev += 1;
                let (r, w) = (s.parse::<P>(), find(s).ok_or(()));
                if r != w {
                    ctx.fail(format!("{}:parse:{}", label, cps(s)), format!("{}: {:?} parses to {:?}, expected {:?}", label, s, r, w));
                }
            };
            if a == '\0' {
                one("");
            }
            one(&a.to_string());
            for b in 0..128u8 {
                one(&format!("{}{}", a, b as char));
                if (b as char).is_ascii_alphanumeric() || b == b'_' {
                    for c in (b'A'..=b'z').chain(b'0'..=b'9') {
                        one(&format!("{}{}{}", a, b as char, c as char));
                    }
                }
            }
            ctx.eval(ev);
            ctx.obs("short strings parsed", ev);
        });
    });
}

fn binary<P>(ctx: &Ctx, label: &str, names: Option<(&str, &str)>, of: impl Fn(char) -> P, yes: char, no: char)
where
    P: BinaryCharProperty + Display + FromStr<Err = ()> + Debug + Copy + Eq + Default + Into<bool>,
{
    let mut g = Rng::new(ctx.seed, 11, fnv(label.as_bytes()));
    ctx.call("binary property", label, || {
        let mut ev = 0u64;
        if let Some(n) = names {
            ctx.check((P::prop_abbr_name(), P::prop_long_name()) == n, || format!("{}:property name", label), || format!("{}: property names {:?}, {:?}; expected {:?}", label, P::prop_abbr_name(), P::prop_long_name(), n));
        }
        ctx.check(!P::prop_human_name().is_empty(), || format!("{}:human", label), || format!("{}: empty human-readable name", label));
        let (t, f) = (of(yes), of(no));
        ctx.check(t.as_bool() && !f.as_bool() && t != f && P::default() == f, || format!("{}:values", label), || format!("{}: of({:?}) = {:?}, of({:?}) = {:?}, default {:?}", label, yes, t, no, f, P::default()));
        for (v, names, b) in [(t, ["y", "yes", "t", "true"], true), (f, ["n", "no", "f", "false"], false)] {
            ctx.check(Into::<bool>::into(v) == b && v.as_bool() == b, || format!("{}:bool:{}", label, b), || format!("{}: {:?} converts to {}", label, v, v.as_bool()));
            let w = if b { ("Y", "Yes") } else { ("N", "No") };
            ctx.check((v.abbr_name(), v.long_name()) == w, || format!("{}:names:{}", label, b), || format!("{}: {:?} is named {:?}, {:?}", label, v, v.abbr_name(), v.long_name()));
            for n in names {
                let mut forms = vec![n.to_string(), n.to_ascii_uppercase()];
                for _ in 0..6 {
                    forms.push(recase(n, &mut g));
                }
                for s in forms {
                    ev += 1;
                    ctx.distinct(fnv(format!("{} {}", label, s).as_bytes()));
                    let r = s.parse::<P>();
                    ctx.check(r == Ok(v), || format!("{}:parse:{}", label, s), || format!("{}: {:?} parses to {:?}, expected {:?}", label, s, r, v));
                }
                for m in near_misses(n, &mut g) {
                    let l = m.to_ascii_lowercase();
                    if ["y", "yes", "t", "true", "n", "no", "f", "false"].contains(&&l[..]) {
                        continue;
                    }
                    ev += 1;
                    let r = m.parse::<P>();
                    ctx.check(r.is_err(), || format!("{}:parse:{}", label, cps(&m)), || format!("{}: {:?} parses to {:?}", label, m, r));
                    ctx.obs("rejected near misses", 1);
                }
            }
            for k in 0..FLAGS {
                ev += 1;
                let (a, h) = (fmt_with(&v, k), fmt_with(v.human_name(), k));
                ctx.check(a == h && v.human_name() == w.1, || format!("{}:display:{:?}:{}", label, v, k), || format!("{}: {:?} displays as {:?}, expected {:?} (format {})", label, v, a, h, k));
            }
        }
        for s in ["", "0", "1", "ye", "noo", "tru", "on", "off", "Ⅴ"] {
            ev += 1;
            ctx.check(s.parse::<P>().is_err(), || format!("{}:parse:{}", label, s), || format!("{}: {:?} parses", label, s));
        }
        ctx.eval(ev);
        ctx.obs("binary properties", 1);
    });
}

pub fn c10(ctx: &Ctx) {
    ctx.rule("every value of the 6 enumerated and 27 binary properties and of 5 properties defined here with the macro: listing, names against PropertyValueAliases, parsing of every name in many case patterns, of derived near misses and of all short ASCII strings, display under 9 format specifications, alias modules; non-trivial: distinct (property, string) pairs that are names or near misses");
    ctx.assume("reference: /verif/ref/pva.txt (PropertyValueAliases restricted to Unicode 10.0.0)");
    let mut m: HashMap<&str, Vec<(&str, &str)>> = HashMap::new();
    for l in include_str!("../../ref/pva.txt").lines() {
        let v: Vec<&str> = l.split(';').collect();
        m.entry(v[0]).or_default().push((v[1], v[2]));
    }
    enumerated::<unic_ucd_category::GeneralCategory>(ctx, "General_Category", &m["gc"], ("gc", "General_Category"), true);
    enumerated::<unic_ucd_bidi::BidiClass>(ctx, "Bidi_Class", &m["bc"], ("bc", "Bidi_Class"), true);
    enumerated::<unic_ucd_normal::DecompositionType>(ctx, "Decomposition_Type", &m["dt"], ("dt", "Decomposition_Type"), true);
    enumerated::<unic_ucd_segment::GraphemeClusterBreak>(ctx, "Grapheme_Cluster_Break", &m["gcb"], ("GCB", "Grapheme_Cluster_Break"), true);
    enumerated::<unic_ucd_segment::WordBreak>(ctx, "Word_Break", &m["wb"], ("WB", "Word_Break"), true);
    enumerated::<unic_ucd_segment::SentenceBreak>(ctx, "Sentence_Break", &m["sb"], ("SB", "Sentence_Break"), true);
    enumerated::<user::Shape>(ctx, "user Shape", &[("R", "Round"), ("RS", "Rounded_Square_2"), ("S", "sQuare"), ("XX", "XXX")], ("shp", "Shape_Of_Thing"), true);
    enumerated::<user::One>(ctx, "user One", &[("O", "Only_One")], ("one", "One"), true);
    enumerated::<user::CaseOnly>(ctx, "user CaseOnly", &[("a", "aa"), ("A", "AA"), ("aA", "mixed")], ("co", "Case_Only"), false);
    // alias modules
    use unic_ucd_bidi::bidi_class as bc;
    let ok = (user::shape_abbr::R, user::shape_abbr::RS, user::shape_abbr::S, user::shape_abbr::XX) == (user::Shape::Round, user::Shape::RoundedSquare, user::Shape::Square, user::Shape::Other)
        && (user::shape_long::Round, user::shape_long::Rounded_Square_2, user::shape_long::sQuare, user::shape_long::XXX) == (user::Shape::Round, user::Shape::RoundedSquare, user::Shape::Square, user::Shape::Other)
        && user::one_abbr::O == user::one_long::Only_One
        && user::co_abbr::a == user::CaseOnly::Lower
        && user::co_abbr::A == user::CaseOnly::Upper
        && user::co_long::mixed == user::CaseOnly::Mixed
        && user::Shape::all_values() == [user::Shape::Round, user::Shape::RoundedSquare, user::Shape::Square, user::Shape::Other];
    ctx.check(ok, || "user alias modules".into(), || "the alias modules of a user-defined property do not denote its values".into());
    macro_rules! aliases {
        ($ctx:ident; $($abbr:ident $long:ident)*) => {
            $( $ctx.eval(1); $ctx.check(bc::abbr_names::$abbr == bc::long_names::$long && bc::abbr_names::$abbr.abbr_name() == stringify!($abbr) && bc::long_names::$long.long_name() == stringify!($long),
                || format!("alias {}", stringify!($abbr)), || format!("bidi_class aliases {} / {} disagree with the value names", stringify!($abbr), stringify!($long))); )*
        };
    }
    aliases!(ctx; AL Arabic_Letter AN Arabic_Number B Paragraph_Separator BN Boundary_Neutral CS Common_Separator EN European_Number ES European_Separator ET European_Terminator FSI First_Strong_Isolate L Left_To_Right LRE Left_To_Right_Embedding LRI Left_To_Right_Isolate LRO Left_To_Right_Override NSM Nonspacing_Mark ON Other_Neutral PDF Pop_Directional_Format PDI Pop_Directional_Isolate R Right_To_Left RLE Right_To_Left_Embedding RLI Right_To_Left_Isolate RLO Right_To_Left_Override S Segment_Separator WS White_Space);
    // binary
    use unic_emoji_char as e;
    use unic_ucd_bidi as b;
    use unic_ucd_case as c;
    use unic_ucd_common as u;
    use unic_ucd_ident as i;
    macro_rules! bin {
        ($($t:path, $names:expr, $y:expr, $n:expr;)*) => { $( binary::<$t>(ctx, stringify!($t), $names, <$t>::of, $y, $n); )* };
    }
    bin! {
        e::Emoji, Some(("Emoji", "Emoji")), '\u{1F600}', 'a';
        e::EmojiPresentation, Some(("Emoji_Presentation", "Emoji_Presentation")), '\u{1F600}', 'a';
        e::EmojiModifier, Some(("Emoji_Modifier", "Emoji_Modifier")), '\u{1F3FB}', 'a';
        e::EmojiModifierBase, Some(("Emoji_Modifier_Base", "Emoji_Modifier_Base")), '\u{261D}', 'a';
        e::EmojiComponent, Some(("Emoji_Component", "Emoji_Component")), '#', 'a';
        i::XidStart, Some(("XIDS", "XID_Start")), 'a', '0';
        i::XidContinue, Some(("XIDC", "XID_Continue")), '0', '-';
        i::IdStart, Some(("IDS", "ID_Start")), 'a', '0';
        i::IdContinue, Some(("IDC", "ID_Continue")), '0', '-';
        i::PatternSyntax, Some(("Pat_Syn", "Pattern_Syntax")), '-', 'a';
        i::PatternWhitespace, Some(("Pat_WS", "Pattern_White_Space")), ' ', 'a';
        u::Alphabetic, Some(("Alpha", "Alphabetic")), 'a', '0';
        u::WhiteSpace, Some(("WSpace", "White_Space")), ' ', 'a';
        u::alphanumeric::Alphanumeric, None, '0', '-';
        u::control::Control, None, '\u{7f}', 'a';
        u::numeric::Numeric, None, '0', 'a';
        c::Lowercase, Some(("Lower", "Lowercase")), 'a', 'A';
        c::Uppercase, Some(("Upper", "Uppercase")), 'A', 'a';
        c::Cased, Some(("Cased", "Cased")), 'A', '0';
        c::CaseIgnorable, Some(("CI", "Case_Ignorable")), '\u{300}', 'a';
        c::ChangesWhenLowercased, Some(("CWL", "Changes_When_Lowercased")), 'A', 'a';
        c::ChangesWhenUppercased, Some(("CWU", "Changes_When_Uppercased")), 'a', 'A';
        c::ChangesWhenTitlecased, Some(("CWT", "Changes_When_Titlecased")), 'a', 'A';
        c::ChangesWhenCasefolded, Some(("CWCF", "Changes_When_Casefolded")), 'A', 'a';
        c::ChangesWhenCasemapped, Some(("CWCM", "Changes_When_Casemapped")), 'A', '0';
        b::BidiMirrored, Some(("Bidi_M", "Bidi_Mirrored")), '(', 'a';
        b::BidiControl, Some(("Bidi_C", "Bidi_Control")), '\u{200E}', 'a';
        user::HexOrGap, Some(("hog", "Hex_Or_Gap")), '\u{d7ff}', 'g';
        user::Few, Some(("few", "Few")), 'C', 'B';
    }
    // user-defined binary properties answer as their tables say, by every path
    crate::data::sweep(ctx, "user-defined binary property", |c, s| {
        let h = c.is_ascii_digit() || ('a'..='f').contains(&c) || c == '\u{d7ff}' || c == '\u{e000}' || c >= '\u{10fffe}';
        let f = matches!(c, '\0' | 'A' | 'C' | '\u{10000}');
        s.eq("user range", c, (user::is_hex_or_gap(c), user::HexOrGap::of(c).as_bool(), <user::HexOrGap as TotalCharProperty>::of(c).as_bool(), <user::HexOrGap as PartialCharProperty>::of(c).map(|x| x.as_bool())), (h, h, h, Some(h)));
        s.eq("user direct", c, (user::is_few(c), user::Few::of(c).as_bool(), <user::Few as TotalCharProperty>::of(c).as_bool()), (f, f, f));
    });
    // names of the remaining properties
    ctx.eval(2);
    ctx.check(crate::data::prop_names::<unic_ucd_age::Age>() == ("age", "Age", "Age"), || "age names".into(), || "names of Age".into());
    let ccc = crate::data::prop_names::<unic_ucd_normal::CanonicalCombiningClass>();
    ctx.check((ccc.0, ccc.1) == ("ccc", "Canonical_Combining_Class"), || "ccc names".into(), || format!("names of Canonical_Combining_Class: {:?}", ccc));
    let _ = (<user::One as TotalCharProperty>::of('a'), <user::Shape as PartialCharProperty>::of('a'), <user::CaseOnly as PartialCharProperty>::of('a'));
}

pub fn c26(ctx: &Ctx) {
    use unic_bidi::level::{has_rtl, Error, Level, LTR_LEVEL, MAX_EXPLICIT_DEPTH, MAX_IMPLICIT_DEPTH, RTL_LEVEL};
    use unic_ucd_bidi::BidiClass;
    ctx.rule("every number 0..=255 through every constructor, every (level, amount) pair through every mutator, every level through every computed query, comparison, conversion and serialized form, every pair of levels for ordering, random operation sequences; non-trivial: distinct (operation, level, amount) triples and distinct sequences");
    ctx.exhaustive();
    ctx.assume("reference: the arithmetic of UAX #9 BD2, X2, X3, X10, I1, I2 with max_depth 125");
    let err = Err(Error::OutOfRangeNumber);
    let mut ev = 0u64;
    let mut ck = |ok: bool, what: &str, a: u32, b: u32, detail: String| {
        ev += 1;
        ctx.distinct(fnv(format!("{} {} {}", what, a, b).as_bytes()));
        ctx.obs(what, 1);
        if !ok {
            ctx.fail(format!("{}:{}:{}", what, a, b), format!("{} on {} with {}: {}", what, a, b, detail));
        }
    };
    let n = |r: Result<Level, Error>| r.map(|l| l.number());
    ctx.call("levels", "levels", || {
        ck((MAX_EXPLICIT_DEPTH, MAX_IMPLICIT_DEPTH, Level::max_explicit_depth(), Level::max_implicit_depth()) == (125, 126, 125, 126), "constants", 0, 0, "maximum depths".into());
        ck((Level::ltr().number(), Level::rtl().number(), LTR_LEVEL.number(), RTL_LEVEL.number()) == (0, 1, 0, 1), "constants", 1, 0, "base levels".into());
        for v in 0..=255u8 {
            let u = v as u32;
            ck(n(Level::new(v)) == if v <= 126 { Ok(v) } else { Err(Error::OutOfRangeNumber) }, "new", u, 0, format!("{:?}", Level::new(v)));
            ck(n(Level::new_explicit(v)) == if v <= 125 { Ok(v) } else { Err(Error::OutOfRangeNumber) }, "new_explicit", u, 0, format!("{:?}", Level::new_explicit(v)));
            let from = ctx.guard("From<u8>", || Level::from(v).number());
            let ok = match from {
                crate::ctx::Outcome::Ok(x) => v <= 126 && x == v,
                crate::ctx::Outcome::Panic(_) => v > 126,
            };
            ck(ok, "From<u8>", u, 0, "gave a wrong level, or accepted or refused wrongly".into());
            // serialized number
            use serde_test::Token;
            let de = ctx.guard("deserialize", || {
                if v <= 126 {
                    serde_test::assert_tokens(&Level::new(v).unwrap(), &[Token::NewtypeStruct { name: "Level" }, Token::U8(v)]);
                } else {
                    // must be an error; any message will do
                    let r = std::panic::catch_unwind(|| serde_test::assert_de_tokens(&Level::ltr(), &[Token::NewtypeStruct { name: "Level" }, Token::U8(v)]));
                    let m = r.err().map(|e| e.downcast_ref::<String>().cloned().unwrap_or_default()).unwrap_or_default();
                    // a deserialized value would be reported as differing from 0
                    assert!(!m.contains("Level("), "deserialized {}: {}", v, m);
                }
            });
            ck(matches!(de, crate::ctx::Outcome::Ok(_)), "serialized form", u, 0, "does not round-trip, or an out-of-range number was accepted".into());
        }
        for l in 0..=126u8 {
            let u = l as u32;
            let lv = Level::new(l).unwrap();
            ck(lv.is_rtl() == (l % 2 == 1) && lv.is_ltr() == (l % 2 == 0), "direction", u, 0, "is_rtl / is_ltr".into());
            ck(lv.bidi_class() == if l % 2 == 1 { BidiClass::RightToLeft } else { BidiClass::LeftToRight }, "bidi_class", u, 0, format!("{:?}", lv.bidi_class()));
            let next = |odd: bool| ((l + 1)..=255).find(|x| (x % 2 == 1) == odd).filter(|x| *x <= 125).ok_or(Error::OutOfRangeNumber);
            ck(n(lv.new_explicit_next_ltr()) == next(false), "new_explicit_next_ltr", u, 0, format!("{:?}", lv.new_explicit_next_ltr()));
            ck(n(lv.new_explicit_next_rtl()) == next(true), "new_explicit_next_rtl", u, 0, format!("{:?}", lv.new_explicit_next_rtl()));
            let ge = (l..=255).find(|x| x % 2 == 1).filter(|x| *x <= 126).ok_or(Error::OutOfRangeNumber);
            ck(n(lv.new_lowest_ge_rtl()) == ge, "new_lowest_ge_rtl", u, 0, format!("{:?}", lv.new_lowest_ge_rtl()));
            let s = l.to_string();
            ck(lv.to_string() == s && lv == &s[..] && lv == s && lv == "x", "text", u, 0, format!("{} / text comparison", lv));
            ck(lv != &(l as u32 + 1).to_string()[..] && lv != "" && lv != format!("0{}", s) && lv != " x" && lv != format!("{} ", s), "text inequality", u, 0, "equal to a different text".into());
            let num: u8 = lv.into();
            ck(num == l, "Into<u8>", u, 0, format!("{}", num));
            for m in 0..=126u8 {
                let o = Level::new(m).unwrap();
                ck((lv == o) == (l == m) && lv.cmp(&o) == l.cmp(&m) && lv.partial_cmp(&o) == l.partial_cmp(&m), "comparison", u, m as u32, "disagrees with the numbers".into());
            }
            for a in 0..=255u8 {
                let sum = l as u32 + a as u32;
                for (k, max) in [("raise", 126u32), ("raise_explicit", 125)] {
                    let mut x = lv;
                    let r = if k == "raise" { x.raise(a) } else { x.raise_explicit(a) };
                    let ok = if sum <= max { r == Ok(()) && x.number() as u32 == sum } else { r == err && x == lv };
                    ck(ok, k, u, a as u32, format!("result {:?}, level now {}", r, x.number()));
                }
                let mut x = lv;
                let r = x.lower(a);
                let ok = if a <= l { r == Ok(()) && x.number() == l - a } else { r == err && x == lv };
                ck(ok, "lower", u, a as u32, format!("result {:?}, level now {}", r, x.number()));
            }
        }
        // slices
        let mut g = Rng::new(ctx.seed, 26, 0);
        for i in 0..ctx.n(4000, 100_000) {
            let n = if i % 100 == 0 { crate::seg::edge(&mut g, 70_000) } else { 0 };
            let v: Vec<u8> = (0..g.below(9)).map(|_| if g.chance(1, 3) { g.below(127) as u8 } else { 2 * g.below(64) as u8 }).collect();
            let v: Vec<u8> = std::iter::repeat(2 * g.below(63) as u8).take(n).chain(v).collect();
            let lv = Level::vec(&v);
            let ok = lv.iter().map(|l| l.number()).eq(v.iter().copied());
            let rtl = v.iter().any(|x| x % 2 == 1);
            ck(ok && has_rtl(&lv) == rtl, "has_rtl", i as u32, 0, format!("{:?}: has_rtl {}", v, has_rtl(&lv)));
        }
        // operation sequences: the invariant holds after every step, whatever happened before
        for i in 0..ctx.n(4000, 200_000) {
            let mut m = g.below(127) as i32;
            let mut l = Level::new(m as u8).unwrap();
            let mut trace = format!("{}", m);
            for _ in 0..g.range(3, 40) {
                let a = if g.chance(1, 2) { g.below(4) as u8 } else { g.below(256) as u8 };
                let (want, ok) = match g.below(5) {
                    0 => (m + a as i32, { trace += &format!(" raise {}", a); l.raise(a).is_ok() }),
                    1 => {
                        let w = m + a as i32;
                        trace += &format!(" raise_explicit {}", a);
                        (if w > 125 { 999 } else { w }, l.raise_explicit(a).is_ok())
                    }
                    2 => (m - a as i32, { trace += &format!(" lower {}", a); l.lower(a).is_ok() }),
                    3 => {
                        trace += " next_ltr";
                        let w = (m + 2) & !1;
                        (if w > 125 { 999 } else { w }, l.new_explicit_next_ltr().map(|x| l = x).is_ok())
                    }
                    _ => {
                        trace += " next_rtl";
                        let w = (m + 1) | 1;
                        (if w > 125 { 999 } else { w }, l.new_explicit_next_rtl().map(|x| l = x).is_ok())
                    }
                };
                let fits = (0..=126).contains(&want);
                if fits {
                    m = want;
                }
                if ok != fits || l.number() as i32 != m {
                    ck(false, "sequence", i as u32, 0, format!("{}: level {} (ok={}), expected {} (ok={})", trace, l.number(), ok, m, fits));
                    break;
                }
            }
            ck(true, "sequence", i as u32, 0, String::new());
            if i < 3 {
                ctx.sample(|| format!("{} -> {}", trace, l.number()));
            }
        }
    });
    ctx.eval(ev);
}
