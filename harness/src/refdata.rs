//! The frozen Unicode 10.0.0 reference data of /verif/ref (see DESIGN.md for where it comes from).
use std::collections::HashMap;
use std::sync::OnceLock;

pub struct Table {
    pub vals: Vec<&'static str>,
    pub idx: Vec<u16>,
}
impl Table {
    pub fn parse(src: &'static str, default: &'static str) -> Table {
        let mut vals = vec![default];
        let mut map: HashMap<&'static str, u16> = HashMap::new();
        map.insert(default, 0);
        let mut idx = vec![0u16; 0x110000];
        for l in src.lines() {
            let mut it = l.splitn(3, ';');
            let s = usize::from_str_radix(it.next().unwrap(), 16).unwrap();
            let e = usize::from_str_radix(it.next().unwrap(), 16).unwrap();
            let v = it.next().unwrap();
            let k = *map.entry(v).or_insert_with(|| {
                vals.push(v);
                (vals.len() - 1) as u16
            });
            for x in &mut idx[s..=e] {
                *x = k;
            }
        }
        Table { vals, idx }
    }
    pub fn get(&self, c: char) -> &'static str {
        self.vals[self.idx[c as usize] as usize]
    }
    pub fn cp(&self, c: u32) -> &'static str {
        self.vals[self.idx[c as usize] as usize]
    }
    pub fn is(&self, c: char) -> bool {
        self.get(c) == "Y"
    }
    /// Scalar values per value.
    pub fn members(&self) -> HashMap<&'static str, Vec<char>> {
        let mut m: HashMap<&'static str, Vec<char>> = HashMap::new();
        for i in 0..0x110000u32 {
            if let Some(c) = char::from_u32(i) {
                m.entry(self.cp(i)).or_default().push(c);
            }
        }
        m
    }
}
macro_rules! tables {
    ($($f:ident $file:literal $d:literal;)*) => {
        $(pub fn $f() -> &'static Table {
            static T: OnceLock<Table> = OnceLock::new();
            T.get_or_init(|| Table::parse(include_str!(concat!("../../ref/", $file, ".txt")), $d))
        })*
    };
}
tables! {
    gc "gc" "Cn"; age "age" "Unassigned"; blk "blk" "No_Block"; gcb "GCB" "XX"; wb "WB" "XX"; sb "SB" "XX";
    ccc_t "ccc" "0"; dt "dt" "None"; alias "alias" "None"; dm_t "dm" ""; dmk_t "dmk" ""; bc "bc" "L"; idna "idna" "X:";
    bidi_m "Bidi_M" "N"; bidi_c "Bidi_C" "N"; alpha "Alpha" "N"; wspace "WSpace" "N"; lower "Lower" "N"; upper "Upper" "N";
    cased "Cased" "N"; ci "CI" "N"; cwl "CWL" "N"; cwu "CWU" "N"; cwt "CWT" "N"; cwcf "CWCF" "N"; cwcm "CWCM" "N";
    ids "IDS" "N"; idc "IDC" "N"; xids "XIDS" "N"; xidc "XIDC" "N"; pat_syn "Pat_Syn" "N"; pat_ws "Pat_WS" "N"; nchar "NChar" "N";
    emoji "Emoji" "N"; epres "EPres" "N"; emod "EMod" "N"; ebase "EBase" "N"; ecomp "EComp" "N";
}
pub fn hexs(s: &str) -> Vec<char> {
    s.split(' ').filter(|x| !x.is_empty()).map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect()
}
pub fn ccc_all() -> &'static Vec<u8> {
    static T: OnceLock<Vec<u8>> = OnceLock::new();
    T.get_or_init(|| {
        let t = ccc_t();
        let v: Vec<u8> = t.vals.iter().map(|x| x.parse().unwrap()).collect();
        t.idx.iter().map(|i| v[*i as usize]).collect()
    })
}
pub fn ccc(c: char) -> u8 {
    ccc_all()[c as usize]
}
fn parse_map(t: &'static Table) -> HashMap<char, Vec<char>> {
    let mut m = HashMap::new();
    for i in 0..0x110000u32 {
        let v = t.cp(i);
        if !v.is_empty() {
            m.insert(char::from_u32(i).unwrap(), hexs(v));
        }
    }
    m
}
/// Canonical decomposition mappings (one step), without Hangul.
pub fn dm() -> &'static HashMap<char, Vec<char>> {
    static T: OnceLock<HashMap<char, Vec<char>>> = OnceLock::new();
    T.get_or_init(|| parse_map(dm_t()))
}
/// Compatibility decomposition mappings (one step).
pub fn dmk() -> &'static HashMap<char, Vec<char>> {
    static T: OnceLock<HashMap<char, Vec<char>>> = OnceLock::new();
    T.get_or_init(|| parse_map(dmk_t()))
}
/// Primary composites, without Hangul.
pub fn comp() -> &'static HashMap<(char, char), char> {
    static T: OnceLock<HashMap<(char, char), char>> = OnceLock::new();
    T.get_or_init(|| {
        include_str!("../../ref/comp.txt")
            .lines()
            .map(|l| {
                let v = hexs(&l.replace(';', " "));
                ((v[0], v[1]), v[2])
            })
            .collect()
    })
}
/// Explicit names (rule NR3); ideographs and Hangul follow rules NR1/NR2.
pub fn names() -> &'static HashMap<char, &'static str> {
    static T: OnceLock<HashMap<char, &'static str>> = OnceLock::new();
    T.get_or_init(|| {
        include_str!("../../ref/names.txt")
            .lines()
            .map(|l| {
                let (a, b) = l.split_once(';').unwrap();
                (char::from_u32(u32::from_str_radix(a, 16).unwrap()).unwrap(), b)
            })
            .collect()
    })
}
#[derive(Clone, Debug, PartialEq)]
pub enum Idna {
    Valid,
    Ignored,
    Mapped(String),
    Deviation(String),
    Disallowed,
    Std3Valid,
    Std3Mapped(String),
}
pub fn idna_of(c: char) -> &'static Idna {
    static T: OnceLock<Vec<Idna>> = OnceLock::new();
    let t = idna();
    let v = T.get_or_init(|| {
        t.vals
            .iter()
            .map(|x| {
                let (k, m) = x.split_once(':').unwrap();
                let m: String = hexs(m).into_iter().collect();
                match k {
                    "V" => Idna::Valid,
                    "ign" => Idna::Ignored,
                    "M" => Idna::Mapped(m),
                    "dev" => Idna::Deviation(m),
                    "X" => Idna::Disallowed,
                    "d3v" => Idna::Std3Valid,
                    "d3m" => Idna::Std3Mapped(m),
                    _ => unreachable!(),
                }
            })
            .collect()
    });
    &v[t.idx[c as usize] as usize]
}
pub fn chars() -> impl Iterator<Item = char> {
    (0..=0x10FFFFu32).filter_map(char::from_u32)
}
