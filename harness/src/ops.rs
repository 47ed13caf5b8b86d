//! Catalogue of the operations of the public API on strings and characters. Every operation folds its
//! complete answer into a digest (so that executions can be compared) and checks the size bounds the
//! standard gives for its output. Self-contained: also compiled into the Miri workload.
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use unic_bidi::{BidiInfo, Level};
use unic_char_property::*;
use unic_normal::StrNormalForm;
use unic_segment::*;

pub type Res = Result<u64, String>;
pub struct Op {
    pub name: &'static str,
    pub f: fn(&str) -> Res,
}

/// The same on machines of any word size and byte order.
pub struct H(DefaultHasher);
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.0.finish()
    }
    fn write(&mut self, b: &[u8]) {
        self.0.write(b)
    }
    fn write_u16(&mut self, v: u16) {
        self.0.write(&v.to_le_bytes())
    }
    fn write_u32(&mut self, v: u32) {
        self.0.write(&v.to_le_bytes())
    }
    fn write_u64(&mut self, v: u64) {
        self.0.write(&v.to_le_bytes())
    }
    fn write_u128(&mut self, v: u128) {
        self.0.write(&v.to_le_bytes())
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_i16(&mut self, v: i16) {
        self.write_u16(v as u16)
    }
    fn write_i32(&mut self, v: i32) {
        self.write_u32(v as u32)
    }
    fn write_i64(&mut self, v: i64) {
        self.write_u64(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as i64 as u64)
    }
}
pub struct D(H);
impl D {
    pub fn new() -> D {
        D(H(DefaultHasher::new()))
    }
    pub fn add<T: Hash + ?Sized>(&mut self, v: &T) {
        v.hash(&mut self.0)
    }
    /// Values without Hash: their Debug text.
    pub fn dbg<T: std::fmt::Debug>(&mut self, v: &T) {
        struct W<'a>(&'a mut H);
        impl std::fmt::Write for W<'_> {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                s.hash(self.0);
                Ok(())
            }
        }
        use std::fmt::Write;
        write!(W(&mut self.0), "{:?}", v).unwrap();
    }
    pub fn end(&self) -> u64 {
        self.0.finish()
    }
}

/// A character is valid (checked on the raw number, which the compiler cannot assume anything about).
pub fn valid(c: char) -> bool {
    let u = std::hint::black_box(c) as u32;
    let u = std::hint::black_box(u);
    u < 0xD800 || (0xE000..0x110000).contains(&u)
}
fn vstr(s: &str) -> Result<(), String> {
    if std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_err() {
        return Err(format!("INVALID UTF-8 in a str: {:x?}", &s.as_bytes()[..s.len().min(40)]));
    }
    Ok(())
}

fn chars_of(it: impl Iterator<Item = char>, n: usize, factor: usize) -> Res {
    let mut d = D::new();
    let mut k = 0usize;
    for c in it {
        if !valid(c) {
            return Err(format!("INVALID char {:x}", c as u32));
        }
        d.add(&(c as u32));
        k += 1;
        if k > n * factor {
            return Err(format!("more than {} x {} characters produced", factor, n));
        }
    }
    if n > 0 && k == 0 {
        return Err("nothing produced for a non-empty text".into());
    }
    d.add(&k);
    Ok(d.end())
}
fn nfd(s: &str) -> Res {
    chars_of(s.nfd(), s.chars().count(), 4)
}
fn nfkd(s: &str) -> Res {
    chars_of(s.nfkd(), s.chars().count(), 18)
}
fn nfc(s: &str) -> Res {
    chars_of(s.nfc(), s.chars().count(), 4)
}
fn nfkc(s: &str) -> Res {
    chars_of(s.nfkc(), s.chars().count(), 18)
}
fn nf_display(s: &str) -> Res {
    let (a, b) = (s.nfd().to_string(), s.nfkc().to_string());
    vstr(&a)?;
    vstr(&b)?;
    let mut d = D::new();
    d.add(&a);
    d.add(&b);
    Ok(d.end())
}

fn segments<'a>(it: impl Iterator<Item = (usize, &'a str)>, s: &str, back: bool) -> Res {
    let mut d = D::new();
    let max = s.chars().count();
    let mut k = 0;
    let mut edge = if back { s.len() } else { 0 };
    for (i, g) in it {
        k += 1;
        if k > max {
            return Err("more segments than characters".into());
        }
        let (a, b) = if back { (i + g.len(), i) } else { (i, i + g.len()) };
        if a != edge || g.is_empty() || s.get(i..i + g.len()) != Some(g) {
            return Err(format!("segment {}..{} does not follow {} or is empty", i, i + g.len(), edge));
        }
        edge = b;
        d.add(&i);
    }
    if edge != if back { 0 } else { s.len() } {
        return Err(format!("segments stop at {}", edge));
    }
    Ok(d.end())
}
fn gr(s: &str) -> Res {
    segments(GraphemeIndices::new(s), s, false)
}
fn gr_back(s: &str) -> Res {
    segments(GraphemeIndices::new(s).rev(), s, true)
}
fn gr_legacy(s: &str) -> Res {
    segments(GraphemeIndices::new_legacy(s), s, false)
}
fn gr_legacy_back(s: &str) -> Res {
    segments(GraphemeIndices::new_legacy(s).rev(), s, true)
}
fn wb(s: &str) -> Res {
    segments(WordBoundIndices::new(s), s, false)
}
fn wb_back(s: &str) -> Res {
    segments(WordBoundIndices::new(s).rev(), s, true)
}
fn plain<'a>(it: impl Iterator<Item = &'a str>, max: usize, d: &mut D) -> Result<(), String> {
    let mut k = 0;
    for w in it {
        vstr(w)?;
        d.add(w);
        k += 1;
        if k > max {
            return Err("more segments than characters".into());
        }
    }
    Ok(())
}
fn words(s: &str) -> Res {
    let max = s.chars().count();
    let mut d = D::new();
    plain(Words::new(s, |w| w.chars().any(unic_ucd_common::alphanumeric::is_alphanumeric)), max, &mut d)?;
    plain(Words::new(s, |_| true).rev(), max, &mut d)?;
    plain(WordBounds::new(s), max, &mut d)?;
    plain(WordBounds::new(s).rev(), max, &mut d)?;
    plain(Graphemes::new(s), max, &mut d)?;
    plain(Graphemes::new(s).rev(), max, &mut d)?;
    plain(Graphemes::new_legacy(s), max, &mut d)?;
    // from both ends
    let (mut a, mut b, mut n) = (GraphemeIndices::new(s), WordBoundIndices::new(s), 0);
    loop {
        d.add(&a.size_hint());
        d.add(&b.size_hint());
        let x = (a.next(), a.next_back(), b.next_back(), b.next());
        d.add(&(a.as_str().len(), b.as_str().len()));
        d.add(&x);
        n += 1;
        if n > max + 1 {
            return Err("more segments than characters".into());
        }
        if x == (None, None, None, None) {
            break;
        }
    }
    Ok(d.end())
}
fn cursor(s: &str) -> Res {
    let max = s.chars().count();
    let mut d = D::new();
    let mut c = GraphemeCursor::new(0, s.len());
    let mut k = 0;
    while let Ok(Some(b)) = c.next_boundary(s, 0) {
        d.add(&b);
        k += 1;
        if k > max {
            return Err("more boundaries than characters".into());
        }
    }
    let mut c = GraphemeCursor::new_legacy(s.len(), s.len());
    k = 0;
    while let Ok(Some(b)) = c.prev_boundary(s, 0) {
        d.add(&b);
        k += 1;
        if k > max {
            return Err("more boundaries than characters".into());
        }
    }
    // one undivided walk and one in chunks of a few characters
    let mut edges: Vec<usize> = s.char_indices().map(|x| x.0).step_by(7).collect();
    edges.push(s.len());
    edges.dedup();
    let mut c = GraphemeCursor::new(0, s.len());
    let mut i = 0;
    let mut steps = 0;
    while i + 1 < edges.len() {
        steps += 1;
        if steps > 20 * max + 50 {
            return Err("chunked walk does not finish".into());
        }
        match c.next_boundary(&s[edges[i]..edges[i + 1]], edges[i]) {
            Ok(Some(b)) => {
                d.add(&b);
                // the next question is asked with the chunk that holds the cursor
                while i + 1 < edges.len() && b >= edges[i + 1] {
                    i += 1;
                }
            }
            Ok(None) => break,
            Err(GraphemeIncomplete::NextChunk) => {
                i += 1;
                if i + 1 >= edges.len() {
                    return Err("next chunk wanted at the end".into());
                }
            }
            Err(GraphemeIncomplete::PreContext(n)) => {
                let j = edges.iter().rposition(|e| *e < n).unwrap_or(0);
                c.provide_context(&s[edges[j]..n], edges[j]);
            }
            Err(e) => {
                d.dbg(&e);
                break;
            }
        }
    }
    Ok(d.end())
}

fn bidi(s: &str) -> Res {
    bidi_with(s, None)
}
fn bidi_rtl(s: &str) -> Res {
    bidi_with(s, Some(Level::rtl()))
}
fn bidi_with(s: &str, l: Option<Level>) -> Res {
    let b = BidiInfo::new(s, l);
    bidi_read(&b, s)
}
fn add_levels(d: &mut D, l: &[Level]) {
    let v: Vec<u8> = l.iter().map(|l| l.number()).collect();
    d.add(&v);
}
pub fn bidi_read(b: &BidiInfo, s: &str) -> Res {
    let mut d = D::new();
    if b.levels.len() != s.len() || b.original_classes.len() != s.len() || b.paragraphs.len() > s.chars().count() {
        return Err("wrong number of levels, classes or paragraphs".into());
    }
    add_levels(&mut d, &b.levels);
    d.add(&b.original_classes);
    d.add(&b.has_rtl());
    d.dbg(&b.to_string());
    let mut at = 0;
    // the answers about one line are as long as the whole text: a few paragraphs of many
    let step = (b.paragraphs.len() / 6).max(1);
    for (k, p) in b.paragraphs.iter().enumerate() {
        if p.range.start != at || p.range.end <= at {
            return Err("paragraphs do not partition the text".into());
        }
        at = p.range.end;
        d.add(&(p.range.start, p.range.end, p.level.number()));
        if k % step != 0 && k + 1 != b.paragraphs.len() {
            continue;
        }
        let txt = &s[p.range.clone()];
        let mid = p.range.start + txt.char_indices().nth(txt.chars().count() / 2).map_or(0, |x| x.0);
        for line in [p.range.clone(), p.range.start..mid, mid..p.range.end] {
            let n = s[line.clone()].chars().count();
            let (lv, runs) = b.visual_runs(p, line.clone());
            add_levels(&mut d, &lv);
            if lv.len() != s.len() || runs.len() > n || runs.iter().map(|r| r.len()).sum::<usize>() != line.len() {
                return Err("visual runs do not cover the line".into());
            }
            d.add(&runs);
            let o = b.reorder_line(p, line.clone());
            vstr(&o)?;
            if o.len() != line.len() || o.chars().count() != n {
                return Err("reordered line has another length".into());
            }
            d.add(&*o);
            let (x, y) = (b.reordered_levels(p, line.clone()), b.reordered_levels_per_char(p, line.clone()));
            if x.len() != s.len() || y.len() != s.chars().count() {
                return Err("wrong number of reordered levels".into());
            }
            add_levels(&mut d, &x);
            add_levels(&mut d, &y);
        }
    }
    if at != s.len() {
        return Err("paragraphs do not cover the text".into());
    }
    Ok(d.end())
}

fn idna(s: &str) -> Res {
    let mut d = D::new();
    let n = s.chars().count();
    for bits in 0..8 {
        let f = || unic_idna::Flags { use_std3_ascii_rules: bits & 1 != 0, transitional_processing: bits & 2 != 0, verify_dns_length: bits & 4 != 0 };
        let (u, e) = unic_idna::to_unicode(s, f());
        vstr(&u)?;
        if u.chars().count() > 18 * n {
            return Err("to_unicode: more than 18 characters for one".into());
        }
        d.add(&u);
        d.dbg(&e);
        if let Err(e) = e {
            d.dbg(&e);
        }
        match unic_idna::to_ascii(s, f()) {
            Ok(a) => {
                vstr(&a)?;
                if a.len() > 18 * 12 * n {
                    return Err("to_ascii: result too long".into());
                }
                d.add(&a);
            }
            Err(e) => d.dbg(&e),
        }
    }
    Ok(d.end())
}
fn puny_enc(s: &str) -> Res {
    let mut d = D::new();
    let n = s.chars().count();
    match unic_idna_punycode::encode_str(s) {
        Some(e) => {
            vstr(&e)?;
            if e.len() > 8 * n + 1 {
                return Err("more than 8 digits for a character".into());
            }
            d.add(&e);
            let v: Vec<char> = s.chars().collect();
            d.add(&unic_idna_punycode::encode(&v));
            d.add(&unic_idna_punycode::decode_to_string(&e));
        }
        None => d.add(&false),
    }
    Ok(d.end())
}
fn puny_dec(s: &str) -> Res {
    let mut d = D::new();
    match unic_idna_punycode::decode(s) {
        Some(v) => {
            if v.iter().any(|c| !valid(*c)) {
                return Err("INVALID char decoded".into());
            }
            if v.len() > s.len() {
                return Err("more characters than digits".into());
            }
            d.add(&v);
            let t = unic_idna_punycode::decode_to_string(s);
            if let Some(t) = &t {
                vstr(t)?;
            }
            d.add(&t);
        }
        None => d.add(&unic_idna_punycode::decode_to_string(s)),
    }
    Ok(d.end())
}
fn props(s: &str) -> Res {
    use unic_ucd_bidi::StrBidiClass;
    let mut d = D::new();
    d.add(&(s.has_bidi_explicit(), s.has_ltr(), s.has_rtl()));
    for c in s.chars() {
        d.add(&of_char(c)?);
    }
    Ok(d.end())
}
/// Looking property values up by arbitrary text.
fn parse(s: &str) -> Res {
    let mut d = D::new();
    d.dbg(&s.parse::<unic_ucd_category::GeneralCategory>());
    d.dbg(&s.parse::<unic_ucd_bidi::BidiClass>());
    d.dbg(&s.parse::<unic_ucd_segment::GraphemeClusterBreak>());
    d.dbg(&s.parse::<unic_ucd_segment::WordBreak>());
    d.dbg(&s.parse::<unic_ucd_segment::SentenceBreak>());
    d.dbg(&s.parse::<unic_ucd_normal::DecompositionType>());
    Ok(d.end())
}

pub const OPS: &[Op] = &[
    Op { name: "nfd", f: nfd },
    Op { name: "nfkd", f: nfkd },
    Op { name: "nfc", f: nfc },
    Op { name: "nfkc", f: nfkc },
    Op { name: "normalization display", f: nf_display },
    Op { name: "graphemes", f: gr },
    Op { name: "graphemes, reversed", f: gr_back },
    Op { name: "legacy graphemes", f: gr_legacy },
    Op { name: "legacy graphemes, reversed", f: gr_legacy_back },
    Op { name: "word bounds", f: wb },
    Op { name: "word bounds, reversed", f: wb_back },
    Op { name: "words and segments", f: words },
    Op { name: "grapheme cursor", f: cursor },
    Op { name: "bidi", f: bidi },
    Op { name: "bidi, right-to-left", f: bidi_rtl },
    Op { name: "idna", f: idna },
    Op { name: "punycode encode", f: puny_enc },
    Op { name: "punycode decode", f: puny_dec },
    Op { name: "character properties", f: props },
    Op { name: "property value parsing", f: parse },
];

/// Everything the library says about one character.
pub fn of_char(c: char) -> Res {
    let mut d = D::new();
    d.dbg(&unic_ucd_age::Age::of(c));
    d.dbg(&unic_ucd_age::CharAge::age(c));
    if let Some(b) = unic_ucd_block::Block::of(c) {
        d.add(&(b.name, b.range.low, b.range.high, b.range.len()));
    }
    d.add(&unic_ucd_category::GeneralCategory::of(c));
    d.add(&unic_ucd_category::GeneralCategory::of(c).human_name());
    d.add(&unic_ucd_bidi::BidiClass::of(c));
    d.dbg(&unic_ucd_bidi::BidiClass::of(c).category());
    d.add(&(unic_ucd_bidi::is_bidi_mirrored(c), unic_ucd_bidi::is_bidi_control(c)));
    {
        use unic_ucd_case::*;
        d.add(&[is_cased(c), is_case_ignorable(c), is_lowercase(c), is_uppercase(c), changes_when_casefolded(c), changes_when_casemapped(c), changes_when_lowercased(c), changes_when_titlecased(c), changes_when_uppercased(c)]);
    }
    {
        use unic_ucd_common::*;
        d.add(&[is_alphabetic(c), is_white_space(c), alphanumeric::is_alphanumeric(c), control::is_control(c), numeric::is_numeric(c)]);
    }
    {
        use unic_ucd_ident::*;
        d.add(&[is_id_start(c), is_id_continue(c), is_xid_start(c), is_xid_continue(c), is_pattern_syntax(c), is_pattern_whitespace(c)]);
    }
    {
        use unic_emoji_char::*;
        d.add(&[is_emoji(c), is_emoji_component(c), is_emoji_modifier(c), is_emoji_modifier_base(c), is_emoji_presentation(c)]);
    }
    if let Some(n) = unic_ucd_name::Name::of(c) {
        let t = n.to_string();
        if t.len() != n.len() || t.len() > 100 {
            return Err(format!("name {:?} does not have the length {} it claims", t, n.len()));
        }
        d.add(&t);
        d.dbg(&n.cmp(&unic_ucd_name::Name::of('A').unwrap()));
    }
    d.dbg(&unic_ucd_name_aliases::NameAliasType::of(c));
    {
        use unic_ucd_name_aliases::NameAliasType::*;
        for t in [NameCorrections, ControlCodeNames, AlternateNames, Figments, NameAbbreviations] {
            d.add(&unic_ucd_name_aliases::name_aliases_of(c, t));
        }
    }
    {
        use unic_ucd_normal::*;
        let ccc = CanonicalCombiningClass::of(c);
        d.add(&(ccc.number(), ccc.is_reordered(), is_combining_mark(c)));
        d.dbg(&DecompositionType::of(c));
        let mut v = vec![];
        decompose_canonical(c, |x| v.push(x));
        let k = v.len();
        decompose_compatible(c, |x| v.push(x));
        if v.iter().any(|x| !valid(*x)) {
            return Err("INVALID char in a decomposition".into());
        }
        if k > 4 || v.len() - k > 18 || k == 0 || v.len() == k {
            return Err(format!("{} and {} characters of decomposition", k, v.len() - k));
        }
        d.add(&v);
        for x in ['A', '\u{301}', '\u{1161}', '\u{11A8}', '\u{11A7}', c] {
            let r = [compose(c, x), compose(x, c)];
            if r.iter().flatten().any(|x| !valid(*x)) {
                return Err("INVALID char composed".into());
            }
            d.add(&r);
        }
    }
    {
        use unic_ucd_hangul::*;
        let mut v = vec![];
        decompose_syllable(c, &mut |x| v.push(x));
        if v.iter().any(|x| !valid(*x)) {
            return Err("INVALID char in a syllable decomposition".into());
        }
        d.add(&v);
        d.add(&is_syllable(c));
        for x in ['\u{1100}', '\u{1161}', '\u{1175}', '\u{11A7}', '\u{11A8}', '\u{11C2}', '\u{11C3}'] {
            let r = [compose_syllable(c, x), compose_syllable(x, c)];
            if r.iter().flatten().any(|x| !valid(*x)) {
                return Err("INVALID char composed from syllables".into());
            }
            d.add(&r);
        }
    }
    d.add(&unic_ucd_segment::GraphemeClusterBreak::of(c));
    d.add(&unic_ucd_segment::WordBreak::of(c));
    d.add(&unic_ucd_segment::SentenceBreak::of(c));
    d.dbg(&unic_idna_mapping::Mapping::of(c));
    {
        use unic_char_basics::*;
        d.add(&(noncharacter::is_noncharacter(c), private_use::is_private_use(c)));
        let t = notation::unicode_notation(c).to_string();
        if t.len() > 8 {
            return Err("notation longer than U+10FFFF".into());
        }
        d.add(&t);
    }
    Ok(d.end())
}
