//! `mon dump DIR`: prints what the code under test answers for every scalar value (used to derive
//! and re-adjudicate /verif/ref; no check reads its output).
use std::fmt::Write as _;
use unic_char_property::EnumeratedCharProperty;

pub fn chars() -> impl Iterator<Item = char> {
    (0..=0x10FFFFu32).filter_map(char::from_u32)
}
pub fn rle(f: impl Fn(char) -> String) -> String {
    let mut out = String::new();
    let mut cur: Option<(u32, u32, String)> = None;
    for c in chars() {
        let v = f(c);
        match &mut cur {
            Some((_, e, w)) if *w == v && (*e + 1 == c as u32) => *e += 1,
            _ => {
                if let Some((s, e, w)) = cur.take() {
                    writeln!(out, "{:04X};{:04X};{}", s, e, w).unwrap();
                }
                cur = Some((c as u32, c as u32, v));
            }
        }
    }
    if let Some((s, e, w)) = cur {
        writeln!(out, "{:04X};{:04X};{}", s, e, w).unwrap();
    }
    out
}
fn hex(v: &[char]) -> String {
    v.iter().map(|c| format!("{:04X}", *c as u32)).collect::<Vec<_>>().join(" ")
}
pub fn main(dir: &str) {
    std::fs::create_dir_all(dir).unwrap();
    let w = |n: &str, s: String| std::fs::write(format!("{}/{}.txt", dir, n), s).unwrap();
    let b = |x: bool| if x { "Y".to_string() } else { "N".to_string() };
    w("gc", rle(|c| unic_ucd_category::GeneralCategory::of(c).abbr_name().into()));
    w("age", rle(|c| unic_ucd_age::Age::of(c).map_or("Unassigned".into(), |a| a.actual().to_string())));
    w("blk", rle(|c| unic_ucd_block::Block::of(c).map_or("No_Block".into(), |a| a.name.into())));
    w("bc", rle(|c| unic_ucd_bidi::BidiClass::of(c).abbr_name().into()));
    w("Bidi_M", rle(|c| b(unic_ucd_bidi::is_bidi_mirrored(c))));
    w("Bidi_C", rle(|c| b(unic_ucd_bidi::is_bidi_control(c))));
    w("GCB", rle(|c| unic_ucd_segment::GraphemeClusterBreak::of(c).abbr_name().into()));
    w("WB", rle(|c| unic_ucd_segment::WordBreak::of(c).abbr_name().into()));
    w("SB", rle(|c| unic_ucd_segment::SentenceBreak::of(c).abbr_name().into()));
    w("Alpha", rle(|c| b(unic_ucd_common::is_alphabetic(c))));
    w("WSpace", rle(|c| b(unic_ucd_common::is_white_space(c))));
    w("alnum", rle(|c| b(unic_ucd_common::is_alphanumeric(c))));
    w("control", rle(|c| b(unic_ucd_common::is_control(c))));
    w("numeric", rle(|c| b(unic_ucd_common::is_numeric(c))));
    w("Lower", rle(|c| b(unic_ucd_case::is_lowercase(c))));
    w("Upper", rle(|c| b(unic_ucd_case::is_uppercase(c))));
    w("Cased", rle(|c| b(unic_ucd_case::is_cased(c))));
    w("CI", rle(|c| b(unic_ucd_case::is_case_ignorable(c))));
    w("CWL", rle(|c| b(unic_ucd_case::changes_when_lowercased(c))));
    w("CWU", rle(|c| b(unic_ucd_case::changes_when_uppercased(c))));
    w("CWT", rle(|c| b(unic_ucd_case::changes_when_titlecased(c))));
    w("CWCF", rle(|c| b(unic_ucd_case::changes_when_casefolded(c))));
    w("CWCM", rle(|c| b(unic_ucd_case::changes_when_casemapped(c))));
    w("IDS", rle(|c| b(unic_ucd_ident::is_id_start(c))));
    w("IDC", rle(|c| b(unic_ucd_ident::is_id_continue(c))));
    w("XIDS", rle(|c| b(unic_ucd_ident::is_xid_start(c))));
    w("XIDC", rle(|c| b(unic_ucd_ident::is_xid_continue(c))));
    w("Pat_Syn", rle(|c| b(unic_ucd_ident::is_pattern_syntax(c))));
    w("Pat_WS", rle(|c| b(unic_ucd_ident::is_pattern_whitespace(c))));
    w("NChar", rle(|c| b(unic_char_basics::is_noncharacter(c))));
    w("PU", rle(|c| b(unic_char_basics::is_private_use(c))));
    w("Emoji", rle(|c| b(unic_emoji_char::is_emoji(c))));
    w("EPres", rle(|c| b(unic_emoji_char::is_emoji_presentation(c))));
    w("EMod", rle(|c| b(unic_emoji_char::is_emoji_modifier(c))));
    w("EBase", rle(|c| b(unic_emoji_char::is_emoji_modifier_base(c))));
    w("EComp", rle(|c| b(unic_emoji_char::is_emoji_component(c))));
    w("dt", rle(|c| unic_ucd_normal::DecompositionType::of(c).map_or("None".into(), |d| d.long_name().into())));
    w("ccc", rle(|c| unic_ucd_normal::CanonicalCombiningClass::of(c).number().to_string()));
    w("mark", rle(|c| b(unic_ucd_normal::is_combining_mark(c))));
    w("syll", rle(|c| b(unic_ucd_hangul::is_syllable(c))));
    w("name", rle(|c| unic_ucd_name::Name::of(c).map_or(String::new(), |n| n.to_string())));
    w("dm", rle(|c| unic_ucd_normal::canonical_decomposition(c).map_or("".into(), hex)));
    w("dmk", rle(|c| unic_ucd_normal::compatibility_decomposition(c).map_or("".into(), hex)));
    w("nfd", rle(|c| { let mut v = vec![]; unic_ucd_normal::decompose_canonical(c, |x| v.push(x)); if v == [c] { String::new() } else { hex(&v) } }));
    w("nfkd", rle(|c| { let mut v = vec![]; unic_ucd_normal::decompose_compatible(c, |x| v.push(x)); if v == [c] { String::new() } else { hex(&v) } }));
    w("idna", rle(|c| format!("{:?}", unic_idna_mapping::Mapping::of(c))));
    w("alias", rle(|c| {
        use unic_ucd_name_aliases::*;
        let t = NameAliasType::of(c);
        let mut s = format!("{:?}", t);
        for k in [NameAliasType::NameCorrections, NameAliasType::ControlCodeNames, NameAliasType::AlternateNames, NameAliasType::Figments, NameAliasType::NameAbbreviations] {
            if let Some(v) = name_aliases_of(c, k) { write!(s, "|{:?}={}", k, v.join(",")).unwrap(); }
        }
        s
    }));
    // primary composites: all pairs reachable from canonical_composition
    let mut s = String::new();
    for a in chars() {
        if let Some(t) = unic_ucd_normal::canonical_composition(a) {
            for (r, c) in t.iter() {
                for x in r { writeln!(s, "{:04X};{:04X};{:04X}", a as u32, x as u32, c as u32).unwrap(); }
            }
        }
    }
    w("comp", s);
}
