//! Prints the ranges of characters for which `is_combining_mark` holds when unic-ucd-normal is built
//! without its `unic-ucd-category` feature.
fn main() {
    let mut start: Option<u32> = None;
    for u in 0..=0x110000u32 {
        let m = char::from_u32(u).map_or(false, unic_ucd_normal::is_combining_mark);
        match (m, start) {
            (true, None) => start = Some(u),
            (false, Some(s)) => {
                println!("{:X} {:X}", s, u - 1);
                start = None;
            }
            _ => {}
        }
    }
    println!("end");
}
