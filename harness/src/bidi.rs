//! C23-C25: bidi analysis and reordering against a model of UAX #9 (revision 37, Unicode 10.0.0)
//! written from the rules: one pass per rule over the characters of a paragraph, removed characters
//! really removed. N0 is left out (documented as not implemented).
use crate::ctx::{fnv, par, Ctx, Obs};
use crate::refdata as r;
use crate::rng::Rng;
use std::sync::OnceLock;
use unic_bidi::{BidiInfo, Level, ParagraphInfo};

pub const NAMES: [&str; 23] = [
    "L", "R", "AL", "EN", "ES", "ET", "AN", "CS", "NSM", "BN", "B", "S", "WS", "ON", "LRE", "LRO", "RLE", "RLO", "PDF", "LRI", "RLI",
    "FSI", "PDI",
];
pub mod k {
    pub const L: u8 = 0;
    pub const R: u8 = 1;
    pub const AL: u8 = 2;
    pub const EN: u8 = 3;
    pub const ES: u8 = 4;
    pub const ET: u8 = 5;
    pub const AN: u8 = 6;
    pub const CS: u8 = 7;
    pub const NSM: u8 = 8;
    pub const BN: u8 = 9;
    pub const B: u8 = 10;
    pub const S: u8 = 11;
    pub const WS: u8 = 12;
    pub const ON: u8 = 13;
    pub const LRE: u8 = 14;
    pub const LRO: u8 = 15;
    pub const RLE: u8 = 16;
    pub const RLO: u8 = 17;
    pub const PDF: u8 = 18;
    pub const LRI: u8 = 19;
    pub const RLI: u8 = 20;
    pub const FSI: u8 = 21;
    pub const PDI: u8 = 22;
}
use k::*;
pub struct Cls {
    of: Vec<u8>,
    pub members: Vec<Vec<char>>,
    /// a short and a long representative of every class
    pub reps: Vec<[char; 2]>,
}
pub fn cls() -> &'static Cls {
    static T: OnceLock<Cls> = OnceLock::new();
    T.get_or_init(|| {
        let t = r::bc();
        let ids: Vec<u8> = t.vals.iter().map(|v| NAMES.iter().position(|n| n == v).unwrap() as u8).collect();
        let mut of = vec![0; 0x110000];
        let mut members = vec![vec![]; 23];
        for i in 0..0x110000u32 {
            of[i as usize] = ids[t.idx[i as usize] as usize];
            if let Some(c) = char::from_u32(i) {
                // noncharacters: see the known finding of C02
                if !r::nchar().is(c) {
                    members[of[i as usize] as usize].push(c);
                }
            }
        }
        let reps = members
            .iter()
            .map(|m: &Vec<char>| {
                let a = *m.iter().find(|c| c.is_ascii_graphic()).unwrap_or(&m[0]);
                let max = m.iter().map(|c| c.len_utf8()).max().unwrap();
                [a, *m.iter().find(|c| c.len_utf8() == max).unwrap()]
            })
            .collect();
        Cls { of, members, reps }
    })
}
pub fn show(s: &str) -> String {
    s.chars().take(60).map(|c| NAMES[cls().of[c as usize] as usize]).collect::<Vec<_>>().join(" ")
}
fn is_init(c: u8) -> bool {
    matches!(c, LRI | RLI | FSI)
}
fn removed(c: u8) -> bool {
    matches!(c, LRE | LRO | RLE | RLO | PDF | BN)
}
/// BD9: matching PDI of every isolate initiator, and the converse.
fn matching(c: &[u8]) -> (Vec<Option<usize>>, Vec<Option<usize>>) {
    let mut pdi = vec![None; c.len()];
    let mut init = vec![None; c.len()];
    let mut open = vec![];
    for i in 0..c.len() {
        if is_init(c[i]) {
            open.push(i);
        } else if c[i] == PDI {
            if let Some(j) = open.pop() {
                pdi[j] = Some(i);
                init[i] = Some(j);
            }
        }
    }
    if c.len() <= 64 {
        // the definition, word for word
        for i in (0..c.len()).filter(|i| is_init(c[*i])) {
            let mut depth = 1;
            let m = (i + 1..c.len()).find(|j| {
                if is_init(c[*j]) {
                    depth += 1;
                } else if c[*j] == PDI {
                    depth -= 1;
                }
                depth == 0
            });
            assert_eq!(pdi[i], m);
        }
    }
    (pdi, init)
}
/// P2: first strong class in c[a..b], skipping isolates.
fn first_strong(c: &[u8], pdi: &[Option<usize>], a: usize, b: usize) -> Option<u8> {
    let mut i = a;
    while i < b {
        if matches!(c[i], L | R | AL) {
            return Some(c[i]);
        }
        if is_init(c[i]) {
            match pdi[i] {
                Some(j) => i = j,
                None => return None,
            }
        }
        i += 1;
    }
    None
}
pub struct Para {
    /// character range
    pub a: usize,
    pub b: usize,
    pub level: u8,
    /// classes with FSI resolved (FSI is kept where no strong character decides)
    pub cls: Vec<u8>,
    /// None = removed by X9
    pub levels: Vec<Option<u8>>,
}
pub fn analyse(all: &[u8], default: Option<u8>) -> Vec<Para> {
    let mut v = vec![];
    let mut a = 0;
    while a < all.len() {
        let b = all[a..].iter().position(|c| *c == B).map(|p| a + p + 1).unwrap_or(all.len());
        let c = &all[a..b];
        let (pdi, init) = matching(c);
        let level = default.unwrap_or(match first_strong(c, &pdi, 0, c.len()) {
            Some(R) | Some(AL) => 1,
            _ => 0,
        });
        let mut cl = c.to_vec();
        for i in 0..c.len() {
            if c[i] == FSI {
                let end = pdi[i].unwrap_or(c.len());
                cl[i] = match first_strong(c, &pdi, i + 1, end) {
                    Some(L) => LRI,
                    Some(_) => RLI,
                    None => FSI,
                };
            }
        }
        let levels = resolve(&cl, level, &pdi, &init);
        v.push(Para { a, b, level, cls: cl, levels });
        a = b;
    }
    v
}
const MAX_DEPTH: u8 = 125;
fn resolve(c: &[u8], para: u8, pdi: &[Option<usize>], init: &[Option<usize>]) -> Vec<Option<u8>> {
    let n = c.len();
    // X1-X8
    #[derive(Clone, Copy)]
    struct St {
        level: u8,
        over: Option<u8>,
        iso: bool,
    }
    let mut st = vec![St { level: para, over: None, iso: false }];
    let (mut ov_iso, mut ov_emb, mut valid) = (0usize, 0usize, 0usize);
    let mut lev = vec![para; n];
    let mut ty = c.to_vec();
    for i in 0..n {
        let top = *st.last().unwrap();
        let odd = top.level + 1 + top.level % 2; // next odd
        let even = top.level + 2 - top.level % 2;
        match c[i] {
            RLE | LRE | RLO | LRO => {
                let nl = if matches!(c[i], RLE | RLO) { odd } else { even };
                if nl <= MAX_DEPTH && ov_iso == 0 && ov_emb == 0 {
                    let over = match c[i] {
                        RLO => Some(R),
                        LRO => Some(L),
                        _ => None,
                    };
                    st.push(St { level: nl, over, iso: false });
                } else if ov_iso == 0 {
                    ov_emb += 1;
                }
            }
            RLI | LRI | FSI => {
                lev[i] = top.level;
                if let Some(o) = top.over {
                    ty[i] = o;
                }
                let nl = if c[i] == RLI { odd } else { even };
                if nl <= MAX_DEPTH && ov_iso == 0 && ov_emb == 0 {
                    valid += 1;
                    st.push(St { level: nl, over: None, iso: true });
                } else {
                    ov_iso += 1;
                }
            }
            PDI => {
                if ov_iso > 0 {
                    ov_iso -= 1;
                } else if valid > 0 {
                    ov_emb = 0;
                    while !st.last().unwrap().iso {
                        st.pop();
                    }
                    st.pop();
                    valid -= 1;
                }
                let top = *st.last().unwrap();
                lev[i] = top.level;
                if let Some(o) = top.over {
                    ty[i] = o;
                }
            }
            PDF => {
                if ov_iso > 0 {
                } else if ov_emb > 0 {
                    ov_emb -= 1;
                } else if !top.iso && st.len() >= 2 {
                    st.pop();
                }
            }
            BN => {}
            B => lev[i] = para,
            _ => {
                lev[i] = top.level;
                if let Some(o) = top.over {
                    ty[i] = o;
                }
            }
        }
    }
    // X9
    let kept: Vec<usize> = (0..n).filter(|i| !removed(c[*i])).collect();
    // X10: level runs over the kept characters, as ranges of indices into `kept`
    let mut runs: Vec<(usize, usize)> = vec![];
    let mut q = 0;
    while q < kept.len() {
        let mut e = q + 1;
        while e < kept.len() && lev[kept[e]] == lev[kept[q]] {
            e += 1;
        }
        runs.push((q, e));
        q = e;
    }
    let mut out = lev.clone();
    // run of every character, and place of every character among the kept ones
    let mut run_of = vec![usize::MAX; n];
    let mut place = vec![usize::MAX; n];
    for (q, (a, b)) in runs.iter().enumerate() {
        for x in *a..*b {
            run_of[kept[x]] = q;
            place[kept[x]] = x;
        }
    }
    for (a, b) in &runs {
        let first = kept[*a];
        if c[first] == PDI && init[first].is_some() {
            continue; // continues another sequence
        }
        let mut seq: Vec<usize> = kept[*a..*b].to_vec();
        loop {
            let last = *seq.last().unwrap();
            match if is_init(c[last]) { pdi[last] } else { None } {
                Some(p) => {
                    let (x, y) = runs[run_of[p]];
                    seq.extend(&kept[x..y]);
                }
                None => break,
            }
        }
        let level = lev[first];
        let before = if *a == 0 { para } else { lev[kept[*a - 1]] };
        let last = *seq.last().unwrap();
        let after = if is_init(c[last]) {
            para
        } else {
            kept.get(place[last] + 1).map(|x| lev[*x]).unwrap_or(para)
        };
        let dir = |l: u8| if l % 2 == 1 { R } else { L };
        let (sos, eos) = (dir(level.max(before)), dir(level.max(after)));
        let mut t: Vec<u8> = seq.iter().map(|i| ty[*i]).collect();
        weak(&mut t, sos);
        neutral(&mut t, sos, eos, dir(level));
        // I1, I2
        for (x, i) in t.iter().zip(&seq) {
            out[*i] = match (level % 2, *x) {
                (0, R) => level + 1,
                (0, AN) | (0, EN) => level + 2,
                (1, L) | (1, EN) | (1, AN) => level + 1,
                _ => level,
            };
        }
    }
    (0..n).map(|i| if removed(c[i]) { None } else { Some(out[i]) }).collect()
}
fn weak(t: &mut [u8], sos: u8) {
    let n = t.len();
    // W1
    for i in 0..n {
        if t[i] == NSM {
            t[i] = if i == 0 {
                sos
            } else if is_init(t[i - 1]) || t[i - 1] == PDI {
                ON
            } else {
                t[i - 1]
            };
        }
    }
    // W2
    let mut s = sos;
    for x in t.iter_mut() {
        match *x {
            R | L | AL => s = *x,
            EN if s == AL => *x = AN,
            _ => {}
        }
    }
    // W3
    for x in t.iter_mut() {
        if *x == AL {
            *x = R;
        }
    }
    // W4
    for i in 1..n.max(1) {
        if i + 1 < n {
            match (t[i - 1], t[i], t[i + 1]) {
                (EN, ES, EN) | (EN, CS, EN) => t[i] = EN,
                (AN, CS, AN) => t[i] = AN,
                _ => {}
            }
        }
    }
    // W5
    let mut i = 0;
    while i < n {
        if t[i] != ET {
            i += 1;
            continue;
        }
        let mut e = i;
        while e < n && t[e] == ET {
            e += 1;
        }
        if (i > 0 && t[i - 1] == EN) || (e < n && t[e] == EN) {
            t[i..e].fill(EN);
        }
        i = e;
    }
    // W6
    for x in t.iter_mut() {
        if matches!(*x, ES | ET | CS) {
            *x = ON;
        }
    }
    // W7
    let mut s = sos;
    for x in t.iter_mut() {
        match *x {
            R | L => s = *x,
            EN if s == L => *x = L,
            _ => {}
        }
    }
}
fn neutral(t: &mut [u8], sos: u8, eos: u8, e: u8) {
    let ni = |x: u8| matches!(x, B | S | WS | ON | FSI | LRI | RLI | PDI);
    let st = |x: u8| if matches!(x, AN | EN) { R } else { x };
    let n = t.len();
    let mut i = 0;
    while i < n {
        if !ni(t[i]) {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < n && ni(t[j]) {
            j += 1;
        }
        let a = if i == 0 { sos } else { st(t[i - 1]) };
        let b = if j == n { eos } else { st(t[j]) };
        t[i..j].fill(if a == b { a } else { e }); // N1, N2
        i = j;
    }
}

fn def_name(d: Option<u8>) -> &'static str {
    match d {
        None => "auto",
        Some(0) => "ltr",
        Some(1) => "rtl",
        _ => "other",
    }
}
fn lvl(d: Option<u8>) -> Option<Level> {
    d.map(|x| Level::new(x).unwrap())
}
fn classes_of(s: &str) -> Vec<u8> {
    s.chars().map(|c| cls().of[c as usize]).collect()
}
fn brief(ls: &[Option<u8>]) -> String {
    ls.iter().take(80).map(|x| x.map(|v| v.to_string()).unwrap_or("x".into())).collect::<Vec<_>>().join(" ")
}

/// C23
fn check_paras(ctx: &Ctx, s: &str, d: Option<u8>, o: &mut Obs) {
    let Some(bi) = ctx.call("BidiInfo::new", s, || BidiInfo::new(s, lvl(d))) else { return };
    ctx.eval(1);
    let cl = classes_of(s);
    let exp = analyse(&cl, d);
    let starts: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    let e: Vec<(usize, usize, u8)> = exp.iter().map(|p| (starts[p.a], starts[p.b], p.level)).collect();
    let g: Vec<(usize, usize, u8)> = bi.paragraphs.iter().map(|p| (p.range.start, p.range.end, p.level.number())).collect();
    ctx.check(
        e == g,
        || format!("paragraphs:{}:{}", def_name(d), show(s)),
        || format!("paragraphs of {:?} (default {}): rules give {:?} (start, end, level), got {:?}", s, def_name(d), e, g),
    );
    ctx.check(bi.text.as_ptr() == s.as_ptr() && bi.text.len() == s.len(), || "text".into(), || "BidiInfo.text is not the text".into());
    if bi.original_classes.len() != s.len() || bi.levels.len() != s.len() {
        ctx.fail(
            format!("class vector length:{}", show(s)),
            format!("{:?}: {} classes and {} levels for {} bytes", s, bi.original_classes.len(), bi.levels.len(), s.len()),
        );
        return;
    }
    for p in &exp {
        for (i, c) in p.cls.iter().enumerate() {
            for b in starts[p.a + i]..starts[p.a + i + 1] {
                let got = crate::vals::bc(bi.original_classes[b]);
                let ok = got == NAMES[*c as usize] || *c == FSI && got == "LRI";
                if !ok {
                    ctx.fail(
                        format!("class:{}:{}:{}", def_name(d), i, show(s)),
                        format!("{:?}: class recorded for byte {} is {}, expected {}", s, b, got, NAMES[*c as usize]),
                    );
                    return;
                }
            }
        }
        o.add("paragraphs", 1);
        o.add(if p.level == 0 { "left-to-right paragraphs" } else { "right-to-left paragraphs" }, 1);
    }
}
/// C24
fn check_levels(ctx: &Ctx, s: &str, d: Option<u8>, o: &mut Obs) {
    let Some(bi) = ctx.call("BidiInfo::new", s, || BidiInfo::new(s, lvl(d))) else { return };
    ctx.eval(1);
    let cl = classes_of(s);
    let exp = analyse(&cl, d);
    let starts: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    if bi.levels.len() != s.len() {
        ctx.fail(format!("levels length:{}", show(s)), format!("{:?}: {} levels for {} bytes", s, bi.levels.len(), s.len()));
        return;
    }
    let mut any_rtl = false;
    for p in &exp {
        for (i, e) in p.levels.iter().enumerate() {
            let bytes = &bi.levels[starts[p.a + i]..starts[p.a + i + 1]];
            let g = bytes[0].number();
            let bad = bytes.iter().any(|x| x.number() != g) || g > 126 || e.is_some_and(|e| e != g);
            any_rtl |= bytes.iter().any(|x| x.number() % 2 == 1);
            if bad {
                let got: Vec<Option<u8>> = starts.windows(2).map(|w| Some(bi.levels[w[0]].number())).collect();
                ctx.fail(
                    format!("levels:{}:{}", def_name(d), show(s)),
                    format!(
                        "levels of {:?} (default {})\n  classes  {}\n  rules    {} (x = removed by X9)\n  got      {}\n  bytes of character {}: {:?}",
                        s,
                        def_name(d),
                        show(s),
                        brief(&exp.iter().flat_map(|p| p.levels.clone()).collect::<Vec<_>>()),
                        brief(&got),
                        p.a + i,
                        bytes.iter().map(|x| x.number()).collect::<Vec<_>>()
                    ),
                );
                return;
            }
            if let Some(e) = e {
                o.add(if *e > 2 { "levels above 2" } else { ["level 0", "level 1", "level 2"][*e as usize] }, 1);
            } else {
                o.add("characters removed by X9", 1);
            }
        }
    }
    ctx.check(
        bi.has_rtl() == any_rtl,
        || format!("has_rtl:{}:{}", def_name(d), show(s)),
        || format!("{:?}: has_rtl() = {} but right-to-left levels exist: {}", s, bi.has_rtl(), any_rtl),
    );
    let max = bi.levels.iter().map(|x| x.number()).max().unwrap_or(0);
    let disp = format!("{}", bi);
    let e = format!("{} paragraphs with a maximum bidirectional level of {}", exp.len(), max);
    ctx.check(disp == e, || format!("display:{}", show(s)), || format!("{:?}: displayed as {:?}, expected {:?}", s, disp, e));
}
/// L2 over the levels of the characters of a line: visual order of their indices.
fn l2(lv: &[u8]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..lv.len()).collect();
    let Some(max) = lv.iter().max() else { return v };
    let Some(min_odd) = lv.iter().filter(|x| **x % 2 == 1).min() else { return v };
    for l in (*min_odd..=*max).rev() {
        let mut i = 0;
        while i < v.len() {
            if lv[v[i]] < l {
                i += 1;
                continue;
            }
            let mut j = i;
            while j < v.len() && lv[v[j]] >= l {
                j += 1;
            }
            v[i..j].reverse();
            i = j;
        }
    }
    v
}
/// C25
fn check_line(ctx: &Ctx, s: &str, d: Option<u8>, bi: &BidiInfo, p: &ParagraphInfo, a: usize, b: usize, o: &mut Obs) {
    ctx.eval(1);
    let sig = |w: &str| format!("{}:{}:{}:{}..{}", w, def_name(d), show(s), a, b);
    let head = || format!("text {:?} (default {}), paragraph {:?}, line {}..{}\n  classes {}", s, def_name(d), p.range, a, b, show(s));
    let Some((levels, runs)) = ctx.call("visual_runs", s, || bi.visual_runs(p, a..b)) else { return };
    let Some(text) = ctx.call("reorder_line", s, || bi.reorder_line(p, a..b).into_owned()) else { return };
    let Some(rl) = ctx.call("reordered_levels", s, || bi.reordered_levels(p, a..b)) else { return };
    let Some(rc) = ctx.call("reordered_levels_per_char", s, || bi.reordered_levels_per_char(p, a..b)) else { return };
    if levels.len() != s.len() || rl != levels {
        ctx.fail(sig("level vectors"), format!("{}\n  visual_runs and reordered_levels disagree", head()));
        return;
    }
    let per: Vec<Level> = s.char_indices().map(|(i, _)| levels[i]).collect();
    if per != rc {
        ctx.fail(sig("levels per char"), format!("{}\n  reordered_levels_per_char is not reordered_levels by character", head()));
        return;
    }
    // L1
    let ch: Vec<(usize, char)> = s[a..b].char_indices().map(|(i, c)| (a + i, c)).collect();
    let cl: Vec<u8> = ch.iter().map(|x| cls().of[x.1 as usize]).collect();
    let mut exp: Vec<Option<u8>> = ch.iter().zip(&cl).map(|(x, c)| if removed(*c) { None } else { Some(bi.levels[x.0].number()) }).collect();
    let mut trailing = true;
    let mut resets = 0;
    for i in (0..cl.len()).rev() {
        match cl[i] {
            B | S => {
                trailing = true;
                exp[i] = Some(p.level.number());
                resets += 1;
            }
            WS | LRI | RLI | FSI | PDI if trailing => {
                exp[i] = Some(p.level.number());
                resets += 1;
            }
            c if removed(c) => {}
            _ => trailing = false,
        }
    }
    for (i, e) in exp.iter().enumerate() {
        let bytes = &levels[ch[i].0..ch[i].0 + ch[i].1.len_utf8()];
        if bytes.iter().any(|x| *x != bytes[0]) || e.is_some_and(|e| e != bytes[0].number()) {
            let got: Vec<Option<u8>> = ch.iter().map(|x| Some(levels[x.0].number())).collect();
            ctx.fail(
                sig("L1"),
                format!(
                    "{}\n  levels after L1: rules give {} (x = removed), got {}; bytes of character {}: {:?}",
                    head(),
                    brief(&exp),
                    brief(&got),
                    i,
                    bytes.iter().map(|x| x.number()).collect::<Vec<_>>()
                ),
            );
            return;
        }
    }
    if (0..s.len()).any(|i| !(a..b).contains(&i) && levels[i] != bi.levels[i]) {
        ctx.fail(sig("outside"), format!("{}\n  levels outside the line were changed", head()));
        return;
    }
    // runs tile the line, uniform level, maximal order per L2
    let mut srt = runs.clone();
    srt.retain(|r| !r.is_empty());
    srt.sort_by_key(|r| r.start);
    let mut at = a;
    for r in &srt {
        if r.start != at || !s.is_char_boundary(r.end) || levels[r.clone()].iter().any(|x| *x != levels[r.start]) {
            ctx.fail(sig("tiling"), format!("{}\n  runs {:?} do not tile the line in level runs", head(), runs));
            return;
        }
        at = r.end;
    }
    if at != b {
        ctx.fail(sig("tiling"), format!("{}\n  runs {:?} do not cover the line", head(), runs));
        return;
    }
    let lv: Vec<u8> = ch.iter().map(|x| levels[x.0].number()).collect();
    let order: Vec<usize> = l2(&lv).into_iter().map(|i| ch[i].0).collect();
    let mut got = vec![];
    for r in &runs {
        let mut v: Vec<usize> = s[r.clone()].char_indices().map(|(i, _)| r.start + i).collect();
        if !r.is_empty() && levels[r.start].number() % 2 == 1 {
            v.reverse();
        }
        got.extend(v);
    }
    if got != order {
        ctx.fail(
            sig("L2"),
            format!("{}\n  levels {:?}\n  visual order by L2 {:?}\n  runs {:?} give       {:?}", head(), lv, order, runs, got),
        );
        return;
    }
    let exp_text: String = order.iter().map(|i| s[*i..].chars().next().unwrap()).collect();
    if text != exp_text {
        ctx.fail(sig("reorder_line"), format!("{}\n  expected {:?}\n  got      {:?}", head(), exp_text, text));
        return;
    }
    o.add("lines", 1);
    o.add("visual runs", srt.len() as u64);
    if text != s[a..b] {
        o.add("lines whose order changed", 1);
    }
    o.add("L1 resets", resets);
}
fn lines(ctx: &Ctx, s: &str, d: Option<u8>, g: &mut Rng, o: &mut Obs) {
    let Some(bi) = ctx.call("BidiInfo::new", s, || BidiInfo::new(s, lvl(d))) else { return };
    for p in &bi.paragraphs {
        check_line(ctx, s, d, &bi, p, p.range.start, p.range.end, o);
        let pos: Vec<usize> = s[p.range.clone()].char_indices().map(|x| p.range.start + x.0).chain([p.range.end]).collect();
        if pos.len() <= 7 {
            for i in 0..pos.len() {
                for j in i..pos.len() {
                    check_line(ctx, s, d, &bi, p, pos[i], pos[j], o);
                }
            }
        } else {
            // wrap the paragraph at random places
            let mut a = 0;
            while a + 1 < pos.len() {
                let e = (a + g.range(1, 12)).min(pos.len() - 1);
                check_line(ctx, s, d, &bi, p, pos[a], pos[e], o);
                a = e;
            }
        }
    }
}

/// Random text: few classes, real-word-like fragments, deep nesting.
pub fn text(g: &mut Rng, max: usize) -> String {
    let c = cls();
    let len = match g.below(20) {
        0 => g.range(0, 3),
        1 => g.range(max, 3 * max),
        _ => g.range(2, max),
    };
    let style = g.below(7);
    let some: Vec<u8> = (0..g.range(2, 6)).map(|_| g.below(23) as u8).collect();
    let mut v: Vec<u8> = vec![];
    if style == 6 {
        // nesting around the depth limit
        let n = g.range(55, 135);
        let kinds: Vec<u8> = (0..g.range(1, 3)).map(|_| *g.pick(&[RLE, LRE, RLO, LRO, RLI, LRI, FSI])).collect();
        for _ in 0..n {
            v.push(*g.pick(&kinds));
            if g.chance(1, 10) {
                v.push(*g.pick(&[L, R, EN, AN, AL, ON]));
            }
        }
        for _ in 0..g.range(1, 12) {
            v.push(g.below(23) as u8);
        }
        for _ in 0..g.range(0, n) {
            v.push(*g.pick(&[PDF, PDI, PDI, PDF, L, R, EN]));
        }
    }
    while v.len() < len {
        match style {
            0 => v.push(g.below(23) as u8),
            1 => v.push(*g.pick(&some)),
            2 => {
                // weak types in all combinations
                v.push(*g.pick(&[EN, EN, AN, ES, CS, ET, NSM, BN, AL, R, L, PDF, PDI, RLI]));
            }
            3 => {
                let f: &[u8] = match g.below(8) {
                    0 => &[L, L, WS],
                    1 => &[R, NSM, R, WS],
                    2 => &[AL, BN, AL, CS, WS],
                    3 => &[ET, EN, CS, EN, ET],
                    4 => &[AN, CS, AN],
                    5 => &[FSI, AL, L, PDI],
                    6 => &[RLE, L, PDF, ON],
                    _ => &[WS, S, WS],
                };
                v.extend(f);
            }
            4 => v.push(*g.pick(&[RLI, LRI, FSI, PDI, PDF, RLO, LRE, L, R, AL, EN, WS, BN, B])),
            _ => {
                let q = *g.pick(&some);
                for _ in 0..g.range(1, 4) {
                    v.push(q);
                }
            }
        }
    }
    let asc = g.chance(1, 3);
    v.into_iter()
        .map(|q| {
            let m = &c.members[q as usize];
            if asc {
                c.reps[q as usize][0]
            } else if g.chance(1, 4) {
                c.reps[q as usize][1]
            } else if g.chance(1, 2) {
                m[g.below(m.len().min(300))]
            } else {
                *g.pick(m)
            }
        })
        .collect()
}
const DEF: [Option<u8>; 3] = [None, Some(0), Some(1)];
fn enumerate(ctx: &Ctx, max: usize, f: impl Fn(&str, Option<u8>, &mut Rng, &mut Obs) + Sync) {
    for len in 0..=max {
        let head = len.min(2);
        par(23u64.pow(head as u32), |j| {
            if ctx.too_many() {
                return;
            }
            let mut o = Obs::default();
            let mut g = Rng::new(ctx.seed, 0x2400 + len as u64, j);
            let mut dgt = vec![0usize; len];
            let mut x = j as usize;
            for q in dgt.iter_mut().take(head) {
                *q = x % 23;
                x /= 23;
            }
            let mut s = String::new();
            let mut cnt = 0;
            loop {
                s.clear();
                for q in &dgt {
                    s.push(cls().reps[*q][g.below(2)]);
                }
                for d in DEF {
                    f(&s, d, &mut g, &mut o);
                }
                cnt += 1;
                let mut p = head;
                while p < len {
                    dgt[p] += 1;
                    if dgt[p] < 23 {
                        break;
                    }
                    dgt[p] = 0;
                    p += 1;
                }
                if p >= len {
                    break;
                }
            }
            o.add(&format!("all class sequences of length {}, three default directions", len), cnt);
            ctx.distinct_n(cnt);
            ctx.obs_all(&o);
        });
        if ctx.too_many() {
            return;
        }
    }
}
fn random(ctx: &Ctx, stream: u64, n: u64, max: usize, f: impl Fn(&str, Option<u8>, &mut Rng, &mut Obs) + Sync) {
    const BL: u64 = 64;
    par(n.div_ceil(BL), |blk| {
        if ctx.too_many() {
            return;
        }
        let mut o = Obs::default();
        for i in blk * BL..((blk + 1) * BL).min(n) {
            let mut g = Rng::new(ctx.seed, stream, i);
            let s = text(&mut g, max);
            if s.chars().count() > 5 {
                ctx.distinct(fnv(s.as_bytes()));
            }
            let d = if g.chance(1, 12) { Some(g.range(2, 126) as u8) } else { *g.pick(&DEF) };
            o.add("random texts", 1);
            f(&s, d.filter(|x| *x < 2), &mut g, &mut o);
        }
        ctx.obs_all(&o);
    });
}
/// Random pieces around long stretches of a repeated class pattern, and nesting far beyond the depth limit
/// with about as many closing characters.
pub fn long_text(g: &mut Rng, max: usize) -> String {
    let c = cls();
    let mut s = String::new();
    for _ in 0..g.range(1, 3) {
        if g.chance(2, 3) {
            s.push_str(&text(g, 20));
        }
        let pick = |g: &mut Rng, q: u8| if g.chance(1, 2) { c.reps[q as usize][g.below(2)] } else { *g.pick(&c.members[q as usize]) };
        if g.chance(1, 2) {
            let pat: Vec<u8> = (0..g.range(1, 3)).map(|_| g.below(23) as u8).collect();
            let slow = pat.iter().any(|q| *q == FSI);
            let cs: Vec<char> = pat.iter().map(|q| pick(g, *q)).collect();
            let n = crate::seg::edge(g, if slow { 3000 } else { max });
            s.extend(cs.iter().cycle().take(n));
        } else {
            let open = *g.pick(&[RLE, LRE, RLO, LRO, RLI, LRI, RLI, LRI, FSI]);
            let n = crate::seg::edge(g, if open == FSI { 3000 } else { max }) + if g.chance(1, 3) { 125 } else { 0 };
            let pre = text(g, 6);
            if g.chance(1, 2) {
                s.push_str(&pre);
            }
            let oc = pick(g, open);
            s.extend(std::iter::repeat(oc).take(n));
            if g.chance(2, 3) {
                s.push_str(&text(g, 8).replace(|x| c.of[x as usize] == B, "a"));
            }
            let close = if is_init(open) { PDI } else { PDF };
            let m = match g.below(5) {
                0 => n,
                1 => n + g.below(4),
                2 => n.saturating_sub(g.below(140)),
                3 => g.below(n + 1),
                _ => n.saturating_sub(g.below(5)),
            };
            let cc = pick(g, close);
            s.extend(std::iter::repeat(cc).take(m));
            let q = *g.pick(&[R, L, EN, AL]);
            s.push(pick(g, q));
            if g.chance(1, 2) {
                s.extend(std::iter::repeat(cc).take(g.below(4)));
                let q = *g.pick(&[R, L, EN, AL]);
                s.push(pick(g, q));
            }
        }
    }
    s.push_str(&text(g, 20));
    s
}
fn long_texts(ctx: &Ctx, stream: u64, n: u64, max: usize, f: impl Fn(&str, Option<u8>, &mut Rng, &mut Obs) + Sync) {
    par(n, |i| {
        if ctx.too_many() {
            return;
        }
        let mut o = Obs::default();
        let mut g = Rng::new(ctx.seed, stream, i);
        let s = long_text(&mut g, max);
        ctx.distinct(fnv(s.as_bytes()));
        o.add("long texts", 1);
        o.add("bytes of long texts", s.len() as u64);
        let d = *g.pick(&DEF);
        f(&s, d, &mut g, &mut o);
        ctx.obs_all(&o);
    });
}
pub fn c23(ctx: &Ctx) {
    ctx.rule("paragraph ranges, levels and per-byte classes of BidiInfo compared with P1-P3 and X5c; distinct = class sequences enumerated plus random texts of more than 5 characters and texts with stretches (and nesting) around the limits of 8- and 16-bit counters");
    enumerate(ctx, ctx.n(4, 5) as usize, |s, d, _, o| check_paras(ctx, s, d, o));
    random(ctx, 0x230, ctx.n(100_000, 4_000_000), 40, |s, d, _, o| check_paras(ctx, s, d, o));
    long_texts(ctx, 0x231, ctx.n(600, 16_000), 70_000, |s, d, _, o| check_paras(ctx, s, d, o));
    // every character: its class is recorded
    par(0x1100, |b| {
        let s: String = (b as u32 * 256..b as u32 * 256 + 256).filter_map(char::from_u32).filter(|c| !r::nchar().is(*c)).collect();
        let mut o = Obs::default();
        check_paras(ctx, &s, None, &mut o);
        o.add("characters in texts of consecutive code points", s.chars().count() as u64);
        ctx.obs_all(&o);
    });
    ctx.assume("the Bidi_Class of every character is that of /verif/ref/bc.txt; noncharacters are left out (known finding of C02)");
}
pub fn c24(ctx: &Ctx) {
    ctx.rule("levels of BidiInfo compared, for characters not removed by X9, with a rule-by-rule model; distinct = class sequences enumerated plus random texts of more than 5 characters and texts with stretches (and nesting) around the limits of 8- and 16-bit counters");
    enumerate(ctx, ctx.n(4, 5) as usize, |s, d, _, o| check_levels(ctx, s, d, o));
    random(ctx, 0x240, ctx.n(150_000, 6_000_000), 40, |s, d, _, o| check_levels(ctx, s, d, o));
    long_texts(ctx, 0x241, ctx.n(800, 20_000), 70_000, |s, d, _, o| check_levels(ctx, s, d, o));
    ctx.assume("the Bidi_Class of every character is that of /verif/ref/bc.txt; noncharacters are left out (known finding of C02)");
    ctx.assume("N0 (bracket pairs) is documented as not implemented and left out of the model");
}
pub fn c25(ctx: &Ctx) {
    ctx.rule("visual_runs, reordered_levels(_per_char) and reorder_line of lines compared with L1 and L2 applied to the analysed levels; distinct = class sequences enumerated plus random texts of more than 5 characters and texts with stretches (and nesting) around the limits of 8- and 16-bit counters");
    enumerate(ctx, ctx.n(3, 4) as usize, |s, d, g, o| lines(ctx, s, d, g, o));
    random(ctx, 0x250, ctx.n(120_000, 4_000_000), 40, |s, d, g, o| lines(ctx, s, d, g, o));
    // whole paragraphs and a few lines of long texts
    long_texts(ctx, 0x251, ctx.n(250, 6_000), 70_000, |s, d, g, o| {
        let Some(bi) = ctx.call("BidiInfo::new", s, || BidiInfo::new(s, lvl(d))) else { return };
        for p in bi.paragraphs.iter().rev().take(4) {
            check_line(ctx, s, d, &bi, p, p.range.start, p.range.end, o);
            let pos: Vec<usize> = s[p.range.clone()].char_indices().map(|x| p.range.start + x.0).chain([p.range.end]).collect();
            for _ in 0..3 {
                let i = if g.chance(1, 2) { g.below(pos.len()) } else { (pos.len() - 1).saturating_sub(g.below(60)) };
                let j = (i + g.below(80)).min(pos.len() - 1);
                check_line(ctx, s, d, &bi, p, pos[i], pos[j], o);
            }
        }
    });
}
/// Used once to compare this model with an independent implementation: "classes;default;levels" lines.
pub fn dump_model(n: u64) {
    for i in 0..n {
        let mut g = Rng::new(77, 0x24ff, i);
        let s = text(&mut g, 20);
        let mut c = classes_of(&s);
        if let Some(p) = c.iter().position(|x| *x == B) {
            c.truncate(p + 1);
        }
        if c.is_empty() {
            continue;
        }
        let d = *g.pick(&DEF);
        let p = &analyse(&c, d)[0];
        println!(
            "{};{};{};{}",
            c.iter().map(|x| NAMES[*x as usize]).collect::<Vec<_>>().join(" "),
            def_name(d),
            p.level,
            p.levels.iter().map(|x| x.map(|v| v.to_string()).unwrap_or("x".into())).collect::<Vec<_>>().join(" ")
        );
    }
}
