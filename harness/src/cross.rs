//! C35: components judged against each other. No reference data here: every fact compared is one the
//! library itself publishes, so a fault in one component shows as a contradiction with another.
use crate::ctx::{cps, fnv, par, Ctx, Obs};
use crate::rng::Rng;
use crate::seg::{grapheme_bounds_by, word_bounds_by};
use crate::vals;
use std::sync::Mutex;
use unic_bidi::BidiInfo;
use unic_char_basics as basics;
use unic_char_property::*;
use unic_emoji_char as emoji;
use unic_idna as idna;
use unic_idna_mapping::Mapping;
use unic_normal::StrNormalForm;
use unic_segment::{Graphemes, WordBounds};
use unic_ucd_age::Age;
use unic_ucd_bidi::{is_bidi_control, BidiClass};
use unic_ucd_block::Block;
use unic_ucd_case::*;
use unic_ucd_category::GeneralCategory as GC;
use unic_ucd_common::*;
use unic_ucd_hangul as hangul;
use unic_ucd_ident::*;
use unic_ucd_name::Name;
use unic_ucd_normal as un;
use unic_ucd_segment::{GraphemeClusterBreak as GCB, SentenceBreak as SB, WordBreak as WB};

fn versions(ctx: &Ctx) {
    let v: Vec<(&str, unic_ucd_version::UnicodeVersion)> = vec![
        ("unic", unic::UNICODE_VERSION),
        ("unic::ucd", unic::ucd::UNICODE_VERSION),
        ("ucd::version", unic_ucd_version::UNICODE_VERSION),
        ("ucd::age", unic_ucd_age::UNICODE_VERSION),
        ("ucd::bidi", unic_ucd_bidi::UNICODE_VERSION),
        ("ucd::block", unic_ucd_block::UNICODE_VERSION),
        ("ucd::case", unic_ucd_case::UNICODE_VERSION),
        ("ucd::category", unic_ucd_category::UNICODE_VERSION),
        ("ucd::common", unic_ucd_common::UNICODE_VERSION),
        ("ucd::hangul", unic_ucd_hangul::UNICODE_VERSION),
        ("ucd::ident", unic_ucd_ident::UNICODE_VERSION),
        ("ucd::name", unic_ucd_name::UNICODE_VERSION),
        ("ucd::name_aliases", unic_ucd_name_aliases::UNICODE_VERSION),
        ("ucd::normal", unic_ucd_normal::UNICODE_VERSION),
        ("ucd::segment", unic_ucd_segment::UNICODE_VERSION),
        ("idna", unic_idna::UNICODE_VERSION),
        ("idna::mapping", unic_idna_mapping::UNICODE_VERSION),
        ("bidi", unic_bidi::UNICODE_VERSION),
        ("normal", unic_normal::UNICODE_VERSION),
        ("segment", unic_segment::UNICODE_VERSION),
    ];
    for (n, x) in &v {
        ctx.eval(1);
        ctx.distinct_n(1);
        ctx.check((x.major, x.minor, x.micro) == (10, 0, 0), || format!("version:{}", n), || format!("{} reports Unicode {}.{}.{}", n, x.major, x.minor, x.micro));
    }
    ctx.obs("components asked for their Unicode version", v.len() as u64);
    for (n, x) in [("emoji", unic::emoji::EMOJI_VERSION), ("emoji::char", emoji::EMOJI_VERSION)] {
        ctx.eval(1);
        ctx.check((x.major, x.minor, x.micro) == (5, 0, 0), || format!("version:{}", n), || format!("{} reports Emoji {}.{}.{}", n, x.major, x.minor, x.micro));
    }
    // no character is newer than the version the library claims, and some are that new
    let newest = chars().filter_map(Age::of).map(|a| (a.actual().major, a.actual().minor)).max();
    ctx.check(newest == Some((10, 0)), || "version:newest age".into(), || format!("the newest Age is {:?}", newest));
}
fn chars() -> impl Iterator<Item = char> {
    (0..0x110000).filter_map(char::from_u32)
}

/// Everything asked about one character, once.
struct P {
    c: char,
    u: u32,
    gc: GC,
    cat: &'static str,
    age: Option<Age>,
    block: bool,
    name: Option<String>,
    gcb: &'static str,
    wb: &'static str,
    sb: &'static str,
    bc: &'static str,
    ccc: u8,
    map: Mapping,
    canon: Vec<char>,
    compat: Vec<char>,
    alpha: bool,
    num: bool,
    alnum: bool,
    white: bool,
    control: bool,
    nonchar: bool,
    pua: bool,
}
impl P {
    fn of(c: char) -> P {
        let (mut canon, mut compat) = (vec![], vec![]);
        un::decompose_canonical(c, |x| canon.push(x));
        un::decompose_compatible(c, |x| compat.push(x));
        let gc = GC::of(c);
        P {
            c,
            u: c as u32,
            gc,
            cat: vals::gc(gc),
            age: Age::of(c),
            block: Block::of(c).is_some(),
            name: Name::of(c).map(|n| n.to_string()),
            gcb: vals::gcb(GCB::of(c)),
            wb: vals::wb(WB::of(c)),
            sb: vals::sb(SB::of(c)),
            bc: vals::bc(BidiClass::of(c)),
            ccc: un::CanonicalCombiningClass::of(c).number(),
            map: Mapping::of(c),
            canon,
            compat,
            alpha: is_alphabetic(c),
            num: is_numeric(c),
            alnum: is_alphanumeric(c),
            white: is_white_space(c),
            control: is_control(c),
            nonchar: basics::is_noncharacter(c),
            pua: basics::is_private_use(c),
        }
    }
    fn g(&self, s: &str) -> bool {
        self.cat.starts_with(s)
    }
}
fn named(p: &P, start: &str) -> bool {
    p.name.as_ref().map_or(false, |n| n.starts_with(start))
}
fn nfc(s: &str) -> String {
    s.nfc().collect()
}
fn nfkc(s: &str) -> String {
    s.nfkc().collect()
}

/// (name, does it apply, does it hold)
type Law = (&'static str, fn(&P) -> bool, fn(&P) -> bool);
const LAWS: &[Law] = &[
    // definitions that tie components together
    ("alphanumeric is alphabetic or numeric", |_| true, |p| p.alnum == (p.alpha || p.num)),
    ("numeric is the Number categories", |_| true, |p| p.num == (p.cat == "Nd" || p.cat == "Nl" || p.cat == "No")),
    ("control is category Cc", |_| true, |p| p.control == (p.cat == "Cc")),
    ("private use is category Co", |_| true, |p| p.pua == (p.cat == "Co")),
    ("noncharacters are unassigned", |p| p.nonchar, |p| p.cat == "Cn" && p.name.is_none() && p.age.is_some()),
    ("assigned characters have an age", |p| p.cat != "Cn", |p| p.age.is_some()),
    ("unassigned characters have no age, noncharacters aside", |p| p.cat == "Cn" && !p.nonchar, |p| p.age.is_none()),
    ("assigned characters are in a block", |p| p.cat != "Cn", |p| p.block),
    ("names are for graphic and format characters", |_| true, |p| p.name.is_some() == !matches!(p.cat, "Cn" | "Cc" | "Co" | "Cs")),
    ("names are made of capital letters, digits, spaces and hyphens", |p| p.name.is_some(), |p| p.name.as_ref().unwrap().bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b' ' || b == b'-')),
    ("category groups", |_| true, |p| {
        let g = p.gc;
        g.is_letter() == p.g("L") && g.is_mark() == p.g("M") && g.is_number() == p.g("N") && g.is_punctuation() == p.g("P") && g.is_symbol() == p.g("S") && g.is_separator() == p.g("Z") && g.is_other() == p.g("C") && g.is_cased_letter() == matches!(p.cat, "Lu" | "Ll" | "Lt")
    }),
    ("combining marks are the Mark categories", |_| true, |p| un::is_combining_mark(p.c) == p.g("M")),
    // common
    ("letters and letter numbers are alphabetic", |p| p.g("L") || p.cat == "Nl", |p| p.alpha),
    ("alphabetic characters are letters, letter numbers, marks or circled letters", |p| p.alpha, |p| p.g("L") || p.cat == "Nl" || p.g("M") || p.cat == "So"),
    ("separators are white space", |p| p.g("Z"), |p| p.white),
    ("white space is separators and controls", |p| p.white, |p| p.g("Z") || p.cat == "Cc"),
    // case
    ("lowercase letters are lowercase", |p| p.cat == "Ll", |p| is_lowercase(p.c)),
    ("uppercase letters are uppercase", |p| p.cat == "Lu", |p| is_uppercase(p.c)),
    ("lowercase and uppercase exclude each other", |_| true, |p| !(is_lowercase(p.c) && is_uppercase(p.c))),
    ("cased is lowercase, uppercase or titlecase", |_| true, |p| is_cased(p.c) == (is_lowercase(p.c) || is_uppercase(p.c) || p.cat == "Lt")),
    ("changing when casemapped", |_| true, |p| changes_when_casemapped(p.c) == (changes_when_lowercased(p.c) || changes_when_uppercased(p.c) || changes_when_titlecased(p.c))),
    ("nonspacing marks, format characters and modifiers are ignored in casing", |p| matches!(p.cat, "Mn" | "Me" | "Cf" | "Lm" | "Sk"), |p| is_case_ignorable(p.c)),
    ("changing characters are assigned", |p| changes_when_casemapped(p.c) || changes_when_casefolded(p.c), |p| p.cat != "Cn"),
    ("changing when lowercased implies changing when casefolded or being lowercase already", |p| changes_when_lowercased(p.c), |p| changes_when_casefolded(p.c) || (0x13A0..=0x13F5).contains(&p.u) || is_lowercase(p.c)),
    // identifiers
    ("identifier starts continue identifiers", |p| is_id_start(p.c), |p| is_id_continue(p.c)),
    ("xid starts are identifier starts", |p| is_xid_start(p.c), |p| is_id_start(p.c) && is_xid_continue(p.c)),
    ("xid continuations are identifier continuations", |p| is_xid_continue(p.c), |p| is_id_continue(p.c)),
    ("pattern characters are not identifier characters", |p| is_pattern_syntax(p.c) || is_pattern_whitespace(p.c), |p| !is_id_continue(p.c)),
    ("pattern syntax is not pattern white space", |p| is_pattern_syntax(p.c), |p| !is_pattern_whitespace(p.c)),
    ("letters start identifiers unless they are pattern syntax", |p| (p.g("L") || p.cat == "Nl") && !is_pattern_syntax(p.c), |p| is_id_start(p.c)),
    ("marks, digits and connectors continue identifiers", |p| matches!(p.cat, "Mn" | "Mc" | "Nd" | "Pc") && !is_pattern_syntax(p.c), |p| is_id_continue(p.c)),
    ("identifier characters are assigned", |p| is_id_continue(p.c), |p| p.cat != "Cn"),
    // emoji
    ("emoji presentation, modifiers and bases are emoji", |p| emoji::is_emoji_presentation(p.c) || emoji::is_emoji_modifier(p.c) || emoji::is_emoji_modifier_base(p.c), |p| emoji::is_emoji(p.c) && p.cat != "Cn"),
    ("emoji modifiers are components, and no bases", |p| emoji::is_emoji_modifier(p.c), |p| emoji::is_emoji_component(p.c) && !emoji::is_emoji_modifier_base(p.c)),
    ("emoji modifiers and the segmentation class of modifiers", |_| true, |p| emoji::is_emoji_modifier(p.c) == (p.gcb == "EM") && emoji::is_emoji_modifier(p.c) == (p.wb == "EM")),
    ("segmentation bases take emoji modifiers", |p| matches!(p.gcb, "EB" | "EBG"), |p| emoji::is_emoji_modifier_base(p.c)),
    ("emoji modifier bases are segmentation bases", |p| emoji::is_emoji_modifier_base(p.c), |p| matches!(p.gcb, "EB" | "EBG")),
    ("regional indicators are emoji components", |p| p.gcb == "RI", |p| emoji::is_emoji_component(p.c) && emoji::is_emoji(p.c)),
    // segmentation
    ("segmentation classes shared by graphemes and words", |_| true, |p| ["CR", "LF", "RI", "ZWJ", "EB", "EM", "GAZ", "EBG"].iter().all(|k| (p.gcb == *k) == (p.wb == *k))),
    ("line ends in words and sentences", |_| true, |p| (p.wb == "CR") == (p.sb == "CR") && (p.wb == "LF") == (p.sb == "LF")),
    ("grapheme extenders extend words", |p| p.gcb == "EX", |p| p.wb == "Extend" && p.sb == "Extend"),
    ("word extenders extend or follow graphemes, sentences treat them alike", |p| p.wb == "Extend", |p| matches!(p.gcb, "EX" | "SM" | "XX") && p.sb == "Extend" && p.g("M") || matches!(p.gcb, "EX") && p.sb == "Extend"),
    ("nonspacing and enclosing marks extend graphemes", |p| matches!(p.cat, "Mn" | "Me"), |p| p.gcb == "EX"),
    ("spacing marks", |p| p.gcb == "SM", |p| p.cat == "Mc" || p.cat == "Lo"),
    ("controls and line separators are grapheme controls", |p| matches!(p.cat, "Cc" | "Zl" | "Zp"), |p| matches!(p.gcb, "CN" | "CR" | "LF")),
    ("grapheme controls", |p| p.gcb == "CN", |p| matches!(p.cat, "Cc" | "Zl" | "Zp" | "Cf" | "Cn" | "Cs")),
    ("Hangul classes and Hangul syllables", |_| true, |p| matches!(p.gcb, "LV" | "LVT") == hangul::is_syllable(p.c)),
    ("Hangul syllables with and without trailing consonant", |p| matches!(p.gcb, "LV" | "LVT"), |p| p.canon.len() == if p.gcb == "LV" { 2 } else { 3 }),
    ("Hangul syllables decompose into jamo classes", |p| hangul::is_syllable(p.c), |p| p.canon.iter().zip(["L", "V", "T"]).all(|(x, k)| vals::gcb(GCB::of(*x)) == k)),
    ("decimal digits are numeric in words and sentences", |p| p.cat == "Nd" && !(0xFF10..=0xFF19).contains(&p.u), |p| p.wb == "NU" && p.sb == "NU"),
    ("words and sentences agree on numerics", |p| p.wb == "NU", |p| p.sb == "NU"),
    ("letters of words are alphabetic, modifiers or punctuation-like letters", |p| p.wb == "LE" || p.wb == "HL", |p| p.alpha || matches!(p.cat, "Lm" | "Sk" | "Po" | "Lo")),
    ("Hebrew letters", |p| p.wb == "HL", |p| p.cat == "Lo" && p.bc == "R" && p.sb == "LE"),
    ("lower and upper of sentences are cased characters", |p| matches!(p.sb, "LO" | "UP"), |p| if p.sb == "LO" { is_lowercase(p.c) } else { is_uppercase(p.c) || p.cat == "Lt" }),
    ("lowercase characters in sentences", |p| is_lowercase(p.c) && p.gcb != "EX", |p| p.sb == "LO"),
    ("format characters of words and sentences", |p| p.wb == "FO", |p| p.cat == "Cf" && p.sb == "FO"),
    ("white space of sentences", |p| p.sb == "SP", |p| p.white),
    // bidi
    ("bidi controls are format characters", |p| is_bidi_control(p.c), |p| p.cat == "Cf"),
    ("explicit bidi classes are bidi controls", |p| matches!(p.bc, "LRE" | "RLE" | "LRO" | "RLO" | "PDF" | "LRI" | "RLI" | "FSI" | "PDI"), |p| is_bidi_control(p.c)),
    ("bidi controls are explicit or marks", |p| is_bidi_control(p.c), |p| matches!(p.bc, "LRE" | "RLE" | "LRO" | "RLO" | "PDF" | "LRI" | "RLI" | "FSI" | "PDI" | "L" | "R" | "AL")),
    ("bidi nonspacing marks are marks or invisible", |p| p.bc == "NSM", |p| matches!(p.cat, "Mn" | "Me" | "Mc" | "Cf")),
    ("bidi numbers are digits or signs of digits", |p| p.bc == "EN" || p.bc == "AN", |p| p.num || p.cat == "Cf" || p.cat == "Po"),
    ("paragraph separators", |p| p.bc == "B", |p| matches!(p.cat, "Cc" | "Zp")),
    ("mirrored characters are neutral punctuation and symbols", |p| unic_ucd_bidi::is_bidi_mirrored(p.c), |p| (p.g("P") || p.g("S")) && p.bc != "R" && p.bc != "AL"),
    // normalization
    ("reordered characters are marks", |p| p.ccc != 0, |p| p.g("M")),
    ("canonical decomposition of a single character is a fixed point", |_| true, |p| {
        let s: String = p.canon.iter().collect();
        s.nfd().collect::<String>() == s && p.c.to_string().nfd().collect::<String>() == s
    }),
    ("compatibility decomposition of a single character is a fixed point", |_| true, |p| {
        let s: String = p.compat.iter().collect();
        s.nfkd().collect::<String>() == s && p.c.to_string().nfkd().collect::<String>() == s
    }),
    ("decompositions are listed in canonical order", |_| true, |p| {
        let k: Vec<u8> = p.compat.iter().map(|c| un::CanonicalCombiningClass::of(*c).number()).collect();
        k.windows(2).all(|w| w[1] == 0 || w[0] <= w[1])
    }),
    ("decomposition types and decompositions", |_| true, |p| {
        let t = un::DecompositionType::of(p.c);
        let canonical = t == Some(un::DecompositionType::Canonical);
        match t {
            None => p.compat.len() == 1 && p.compat[0] == p.c,
            Some(_) => (p.compat.len() != 1 || p.compat[0] != p.c) && canonical == (p.canon.len() != 1 || p.canon[0] != p.c),
        }
    }),
    ("decompositions consist of assigned characters", |p| p.cat != "Cn" && p.cat != "Co", |p| p.compat.iter().all(|x| Age::of(*x).is_some() && GC::of(*x) != GC::Unassigned)),
    ("unassigned and private characters do not decompose", |p| matches!(p.cat, "Cn" | "Co"), |p| p.compat == [p.c] && p.ccc == 0),
    ("composition returns what canonical decomposition took apart", |p| nfc(&p.c.to_string()) == p.c.to_string() && p.canon.len() > 1, |p| p.canon.iter().collect::<String>().nfc().eq(std::iter::once(p.c))),
    ("Hangul arithmetic and normalization", |p| hangul::is_syllable(p.c), |p| {
        let mut v = vec![];
        hangul::decompose_syllable(p.c, &mut |x| v.push(x));
        v == p.canon && v[1..].iter().fold(Some(v[0]), |a, b| hangul::compose_syllable(a?, *b)) == Some(p.c)
    }),
    ("canonical equivalents share white space and alphabetic", |p| p.canon.len() == 1, |p| is_white_space(p.canon[0]) == p.white || p.u == 0x1680, ),
    // names
    ("small letters", |p| named(p, "LATIN SMALL LETTER ") || named(p, "GREEK SMALL LETTER ") || named(p, "CYRILLIC SMALL LETTER ") || named(p, "ARMENIAN SMALL LETTER ") || named(p, "DESERET SMALL LETTER "), |p| is_lowercase(p.c) && is_cased(p.c)),
    ("capital letters", |p| named(p, "LATIN CAPITAL LETTER ") || named(p, "GREEK CAPITAL LETTER ") || named(p, "CYRILLIC CAPITAL LETTER ") || named(p, "ARMENIAN CAPITAL LETTER ") || named(p, "DESERET CAPITAL LETTER "), |p| is_uppercase(p.c) && changes_when_lowercased(p.c) || p.cat == "Lt"),
    ("digits zero to nine", |p| p.cat == "Nd" && !p.name.as_ref().map_or(false, |n| n.contains("MATHEMATICAL")), |p| {
        // ten in a row, named in order
        let n = p.name.as_ref().unwrap();
        let k = ["ZERO", "ONE", "TWO", "THREE", "FOUR", "FIVE", "SIX", "SEVEN", "EIGHT", "NINE"].iter().position(|w| n.ends_with(&format!("DIGIT {}", w)) || n.ends_with(&format!("DIGIT-{}", w)) || n.ends_with(w));
        k.map_or(false, |k| GC::of(char::from_u32(p.u - k as u32).unwrap()) == GC::DecimalNumber && GC::of(char::from_u32(p.u - k as u32 + 9).unwrap()) == GC::DecimalNumber)
    }),
    ("combining characters", |p| named(p, "COMBINING "), |p| p.g("M") && p.wb == "Extend"),
    ("regional indicators", |_| true, |p| named(p, "REGIONAL INDICATOR SYMBOL LETTER ") == (p.gcb == "RI")),
    ("emoji modifiers", |_| true, |p| named(p, "EMOJI MODIFIER ") == emoji::is_emoji_modifier(p.c)),
    ("Hangul syllables", |_| true, |p| named(p, "HANGUL SYLLABLE ") == hangul::is_syllable(p.c)),
    ("ideographs are named by code point", |p| named(p, "CJK UNIFIED IDEOGRAPH-") || named(p, "CJK COMPATIBILITY IDEOGRAPH-"), |p| p.name.as_ref().unwrap().rsplit('-').next() == Some(&format!("{:04X}", p.u)[..]) && p.cat == "Lo"),
    ("compatibility ideographs decompose to unified ones", |p| named(p, "CJK COMPATIBILITY IDEOGRAPH-") && p.canon != [p.c], |p| p.canon.len() == 1 && Name::of(p.canon[0]).map_or(false, |n| n.to_string().starts_with("CJK UNIFIED IDEOGRAPH-")) && (matches!(p.map, Mapping::Mapped(_)) || p.map == Mapping::Disallowed)),
    ("fullwidth forms are wide forms of what they are named after", |p| named(p, "FULLWIDTH ") && (0xFF01..=0xFF5E).contains(&p.u), |p| Some(Name::of(p.compat[0]).unwrap().to_string()) == p.name.as_ref().map(|n| n["FULLWIDTH ".len()..].to_string()) && un::DecompositionType::of(p.c) == Some(un::DecompositionType::Wide)),
    ("Arabic letters", |p| named(p, "ARABIC LETTER ") && p.cat == "Lo", |p| p.bc == "AL" && p.alpha),
    ("Hebrew letters by name", |p| named(p, "HEBREW LETTER ") && p.u != 0xFB29, |p| p.bc == "R" && p.wb == "HL"),
    ("variation selectors", |p| named(p, "VARIATION SELECTOR-"), |p| p.gcb == "EX" && p.map == Mapping::Ignored && p.ccc == 0),
    ("letters with a mark take their base apart first", |p| p.canon.len() > 1 && p.name.as_ref().map_or(false, |n| n.contains(" LETTER ") && n.contains(" WITH ") && (n.starts_with("LATIN") )), |p| {
        let n = p.name.as_ref().unwrap();
        let b = Name::of(p.canon[0]).map(|x| x.to_string()).unwrap_or_default();
        n.starts_with(&b[..b.find(" WITH").unwrap_or(b.len())]) || b.contains("DOTLESS") || b.contains(" LETTER ")
    }),
    ("blocks hold their characters", |p| p.block, |p| Block::of(p.c).map_or(false, |b| b.range.contains(p.c))),
    // idna
    ("unassigned, private and noncharacters are disallowed", |p| matches!(p.cat, "Cn" | "Co"), |p| p.map == Mapping::Disallowed),
    ("controls beyond ASCII are disallowed", |p| p.cat == "Cc" && p.u >= 0x80, |p| p.map == Mapping::Disallowed),
    ("valid characters are assigned and normalized", |p| p.map == Mapping::Valid, |p| p.cat != "Cn" && nfkc(&p.c.to_string()) == p.c.to_string()),
    ("valid characters do not change when casefolded", |p| p.map == Mapping::Valid, |p| !changes_when_casefolded(p.c) || (0x13A0..=0x13F5).contains(&p.u) || (0x13F8..=0x13FD).contains(&p.u)),
    ("mappings are normalized and stable", |p| matches!(p.map, Mapping::Mapped(_)), |p| match p.map {
        Mapping::Mapped(s) => {
            nfc(s) == s && s.chars().all(|x| matches!(Mapping::of(x), Mapping::Valid)) && s != p.c.to_string()
        }
        _ => true,
    }),
    ("mappings under the ASCII rules are normalized and stable", |p| matches!(p.map, Mapping::DisallowedStd3Mapped(_)), |p| match p.map {
        Mapping::DisallowedStd3Mapped(s) => nfc(s) == s && s.chars().all(|x| matches!(Mapping::of(x), Mapping::Valid | Mapping::DisallowedStd3Valid)),
        _ => true,
    }),
    ("mapping folds compatibility and case", |p| matches!(p.map, Mapping::Mapped(_)) && !changes_when_casefolded(p.c) && p.compat.iter().all(|x| !changes_when_casefolded(*x) && matches!(Mapping::of(*x), Mapping::Valid)), |p| match p.map {
        Mapping::Mapped(s) => s == nfkc(&p.c.to_string()) || p.compat == [p.c],
        _ => true,
    }),
    ("the four deviations", |_| true, |p| matches!(p.map, Mapping::Deviation(_)) == matches!(p.u, 0xDF | 0x3C2 | 0x200C | 0x200D)),
    ("ignored characters are invisible", |p| p.map == Mapping::Ignored, |p| matches!(p.cat, "Cf" | "Mn" | "Cn" | "Lo")),
];

/// Normalization rebuilt from the published decompositions, classes and compositions.
fn form_by_parts(s: &str, compat: bool, comp: bool) -> String {
    let mut d: Vec<(u8, char)> = vec![];
    for c in s.chars() {
        let mut put = |x: char| d.push((un::CanonicalCombiningClass::of(x).number(), x));
        if compat {
            un::decompose_compatible(c, &mut put)
        } else {
            un::decompose_canonical(c, &mut put)
        }
    }
    let mut i = 0;
    while i < d.len() {
        if d[i].0 == 0 {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < d.len() && d[j].0 != 0 {
            j += 1;
        }
        d[i..j].sort_by_key(|x| x.0);
        i = j;
    }
    if comp {
        let mut o: Vec<(u8, char)> = vec![];
        let mut st: Option<usize> = None;
        for (k, c) in d {
            if let Some(p) = st {
                let blocked = o.len() - 1 > p && o[o.len() - 1].0 >= k;
                if !blocked {
                    if let Some(x) = un::compose(o[p].1, c) {
                        o[p].1 = x;
                        continue;
                    }
                }
            }
            o.push((k, c));
            if k == 0 {
                st = Some(o.len() - 1);
            }
        }
        d = o;
    }
    d.into_iter().map(|x| x.1).collect()
}

fn string(ctx: &Ctx, s: &str, o: &mut Obs) {
    ctx.eval(1);
    ctx.distinct(fnv(s.as_bytes()));
    let bad = |what: &str, a: &dyn std::fmt::Debug, b: &dyn std::fmt::Debug| ctx.fail(format!("{}:{}", what, cps(s)), format!("{} for {:?}\n  implied by the parts: {:?}\n  the component: {:?}\n  input: {}", what, s, a, b, cps(s)));
    ctx.call("cross-component comparison", s, || {
        // segmentation and the published classes
        for ext in [true, false] {
            let want: Vec<&str> = grapheme_bounds_by(s, ext, |c| vals::gcb(GCB::of(c))).windows(2).map(|w| &s[w[0]..w[1]]).collect();
            let got: Vec<&str> = if ext { Graphemes::new(s).collect() } else { Graphemes::new_legacy(s).collect() };
            if want != got {
                bad("graphemes and their classes", &want, &got);
            }
        }
        let want: Vec<&str> = word_bounds_by(s, |c| vals::wb(WB::of(c))).windows(2).map(|w| &s[w[0]..w[1]]).collect();
        let got: Vec<&str> = WordBounds::new(s).collect();
        if want != got {
            bad("word boundaries and their classes", &want, &got);
        }
        // normalization and the published decompositions, classes and compositions
        for (what, compat, comp, got) in [
            ("NFD and its parts", false, false, s.nfd().collect::<String>()),
            ("NFC and its parts", false, true, s.nfc().collect()),
            ("NFKD and its parts", true, false, s.nfkd().collect()),
            ("NFKC and its parts", true, true, s.nfkc().collect()),
        ] {
            let want = form_by_parts(s, compat, comp);
            if want != got {
                bad(what, &cps(&want), &cps(&got));
            }
        }
        // bidi and the published classes
        let b = BidiInfo::new(s, None);
        for (i, c) in s.char_indices() {
            // a first-strong isolate is recorded as the direction it resolved to
            let own = BidiClass::of(c);
            if b.original_classes[i..i + c.len_utf8()].iter().any(|k| *k != own && !(own == BidiClass::FirstStrongIsolate && matches!(*k, BidiClass::LeftToRightIsolate | BidiClass::RightToLeftIsolate))) {
                bad("original classes and Bidi_Class", &BidiClass::of(c), &b.original_classes[i]);
            }
        }
        // domains without encoded labels: mapping, then normalization
        if !s.to_ascii_lowercase().contains("xn") {
            let mut m = String::new();
            let mut ok = true;
            for c in s.chars() {
                match Mapping::of(c) {
                    Mapping::Valid | Mapping::DisallowedStd3Valid => m.push(c),
                    Mapping::Mapped(t) | Mapping::DisallowedStd3Mapped(t) => m.push_str(t),
                    Mapping::Deviation(_) => m.push(c),
                    Mapping::Ignored => {}
                    Mapping::Disallowed => ok = false,
                }
            }
            let f = idna::Flags { use_std3_ascii_rules: false, transitional_processing: false, verify_dns_length: false };
            let m = nfc(&m);
            if ok && !m.contains("xn--") {
                let (got, _) = idna::to_unicode(s, f);
                if got != m {
                    bad("domain processing, the mapping and NFC", &m, &got);
                }
                o.add("domains processed like their parts", 1);
            }
        }
    });
    o.add("texts compared with their parts", 1);
}

/// The umbrella crate against the individual crates, through their answers.
fn umbrella(ctx: &Ctx, c: char) {
    use unic::ucd as u;
    let s = c.to_string();
    let a = (
        format!("{:?}", u::Age::of(c)),
        format!("{:?}", u::age::Age::of(c)),
        format!("{:?} {:?} {:?}", u::GeneralCategory::of(c), u::category::GeneralCategory::of(c), u::BidiClass::of(c)),
        format!("{:?}", u::Block::of(c).map(|b| (b.name, b.range))),
        u::Name::of(c).map(|n| n.to_string()),
        [u::is_alphabetic(c), u::is_white_space(c), u::common::is_alphanumeric(c), u::common::is_numeric(c), u::common::is_control(c), u::is_bidi_mirrored(c), u::bidi::is_bidi_control(c)],
        [u::is_cased(c), u::is_case_ignorable(c), u::is_lowercase(c), u::is_uppercase(c), u::changes_when_casefolded(c), u::changes_when_casemapped(c), u::changes_when_lowercased(c), u::changes_when_titlecased(c), u::changes_when_uppercased(c)],
        [unic::char::basics::is_noncharacter(c), unic::char::basics::is_private_use(c), unic::emoji::char::is_emoji(c), unic::emoji::char::is_emoji_component(c), unic::emoji::char::is_emoji_modifier(c), unic::emoji::char::is_emoji_modifier_base(c), unic::emoji::char::is_emoji_presentation(c)],
        format!("{:?} {:?} {:?} {:?}", u::GraphemeClusterBreak::of(c), u::WordBreak::of(c), u::SentenceBreak::of(c), u::CanonicalCombiningClass::of(c)),
        [u::ident::is_xid_start(c), u::ident::is_xid_continue(c)],
        (unic::normal::StrNormalForm::nfkc(&s[..]).collect::<String>(), u::hangul::is_syllable(c)),
    );
    use unic_ucd_bidi as ub;
    let b = (
        format!("{:?}", Age::of(c)),
        format!("{:?}", Age::of(c)),
        format!("{:?} {:?} {:?}", GC::of(c), GC::of(c), BidiClass::of(c)),
        format!("{:?}", Block::of(c).map(|b| (b.name, b.range))),
        Name::of(c).map(|n| n.to_string()),
        [is_alphabetic(c), is_white_space(c), is_alphanumeric(c), is_numeric(c), is_control(c), ub::is_bidi_mirrored(c), ub::is_bidi_control(c)],
        [is_cased(c), is_case_ignorable(c), is_lowercase(c), is_uppercase(c), changes_when_casefolded(c), changes_when_casemapped(c), changes_when_lowercased(c), changes_when_titlecased(c), changes_when_uppercased(c)],
        [basics::is_noncharacter(c), basics::is_private_use(c), emoji::is_emoji(c), emoji::is_emoji_component(c), emoji::is_emoji_modifier(c), emoji::is_emoji_modifier_base(c), emoji::is_emoji_presentation(c)],
        format!("{:?} {:?} {:?} {:?}", GCB::of(c), WB::of(c), SB::of(c), un::CanonicalCombiningClass::of(c)),
        [is_xid_start(c), is_xid_continue(c)],
        (s.nfkc().collect::<String>(), hangul::is_syllable(c)),
    );
    ctx.check(a == b, || format!("umbrella:U+{:04X}", c as u32), || format!("U+{:04X}: the umbrella crate answers\n  {:?}\n  and the individual crates\n  {:?}", c as u32, a, b));
}

pub fn c35(ctx: &Ctx) {
    ctx.rule("a law relating published facts of two or more components, evaluated for one character; or a text whose segmentation, normalization, bidi classes and domain processing are rebuilt from published property values and compared; or the same question put to the umbrella crate and the individual crate; non-trivial: law instances whose condition applies, distinct texts");
    ctx.assume("the laws are consequences of the definitions in the Unicode standard (UAX #14, #29, #31, #44, UTS #46, #51); where data deviate historically the law names the exception");
    versions(ctx);
    let total = Mutex::new(Obs::default());
    let merge = |o: Obs| {
        let mut t = total.lock().unwrap();
        for (k, v) in o.0 {
            t.add(&k, v);
        }
    };
    par(0x1100, |b| {
        let mut o = Obs::default();
        let mut applied = vec![0u64; LAWS.len()];
        for c in (0..0x100u32).filter_map(|i| char::from_u32(b as u32 * 0x100 + i)) {
            let s = c.to_string();
            let Some(p) = ctx.call("properties", &s, || P::of(c)) else { continue };
            for (i, (name, when, holds)) in LAWS.iter().enumerate() {
                ctx.call(name, &s, || {
                    if when(&p) {
                        applied[i] += 1;
                        if !holds(&p) {
                            ctx.fail(format!("law:{}:U+{:04X}", name, p.u), format!("\"{}\" fails for U+{:04X} {:?}: category {}, age {:?}, GCB {} WB {} SB {} bidi {} ccc {}, alphabetic {} numeric {} white space {}, idna {:?}, decomposition {:?} / {:?}", name, p.u, p.name, p.cat, p.age, p.gcb, p.wb, p.sb, p.bc, p.ccc, p.alpha, p.num, p.white, p.map, p.canon, p.compat));
                        }
                    }
                });
            }
            ctx.call("umbrella", &s, || umbrella(ctx, c));
            string(ctx, &s, &mut o);
        }
        let n: u64 = applied.iter().sum();
        ctx.eval(n);
        ctx.distinct_n(n);
        for (i, (name, _, _)) in LAWS.iter().enumerate() {
            if applied[i] > 0 {
                o.add(&format!("law: {}", name), applied[i]);
            }
        }
        merge(o);
    });
    par(64, |i| {
        let mut o = Obs::default();
        let mut g = Rng::new(ctx.seed, 0x350, i);
        for k in 0..ctx.n(3000, 150_000) {
            let s: String = match k % 6 {
                0 => crate::bidi::text(&mut g, 30),
                1 => crate::normal::random_text(&mut g, 30).into_iter().collect(),
                2 => crate::seg::text(crate::seg::Kind::Word, &mut g, 30),
                3 => crate::seg::text(crate::seg::Kind::Grapheme, &mut g, 30),
                4 => crate::idna::gen_domain(&mut g),
                _ => crate::total::hostile(&mut g, 40),
            };
            string(ctx, &s, &mut o);
            // umbrella algorithms on the same text
            ctx.call("umbrella algorithms", &s, || {
                let a = (
                    unic::segment::Graphemes::new(&s).collect::<Vec<_>>(),
                    unic::segment::WordBounds::new(&s).collect::<Vec<_>>(),
                    format!("{:?}", unic::bidi::BidiInfo::new(&s, None).levels),
                    unic::normal::StrNormalForm::nfc(&s[..]).collect::<String>(),
                    unic::idna::to_unicode(&s, unic::idna::Flags { use_std3_ascii_rules: true, transitional_processing: false, verify_dns_length: true }).0,
                );
                let b = (
                    Graphemes::new(&s).collect::<Vec<_>>(),
                    WordBounds::new(&s).collect::<Vec<_>>(),
                    format!("{:?}", BidiInfo::new(&s, None).levels),
                    s.nfc().collect::<String>(),
                    idna::to_unicode(&s, idna::Flags { use_std3_ascii_rules: true, transitional_processing: false, verify_dns_length: true }).0,
                );
                if a != b {
                    ctx.fail(format!("umbrella:{}", cps(&s)), format!("the umbrella crate and the individual crates differ on {:?}", s));
                }
            });
        }
        merge(o);
    });
    ctx.obs_all(&total.into_inner().unwrap());
    ctx.obs("laws", LAWS.len() as u64);
    ctx.sample(|| "law: mappings are normalized and stable, U+FDFA".into());
}
/// Lists the laws that fail, with examples (for writing laws).
pub fn list() {
    for (name, when, holds) in LAWS {
        let mut v = vec![];
        for c in chars() {
            let p = P::of(c);
            if when(&p) && !holds(&p) {
                v.push(format!("{:04X}", p.u));
            }
        }
        if !v.is_empty() {
            println!("{}: {} {}", name, v.len(), v[..v.len().min(24)].join(" "));
        }
    }
}
