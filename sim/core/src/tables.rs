//! The texts of the stand-in code tables, read independently of the library.

use std::collections::HashMap;
use std::sync::OnceLock;

const FILES: [(&str, &str); 13] = [
    ("0.0", include_str!("../../../standin/def/GRIB2/GRIB2_CodeFlag_0_0_CodeTable_en.csv")),
    ("1.1", include_str!("../../../standin/def/GRIB2/GRIB2_CodeFlag_1_1_CodeTable_en.csv")),
    ("1.2", include_str!("../../../standin/def/GRIB2/GRIB2_CodeFlag_1_2_CodeTable_en.csv")),
    ("1.3", include_str!("../../../standin/def/GRIB2/GRIB2_CodeFlag_1_3_CodeTable_en.csv")),
    ("1.4", include_str!("../../../standin/def/GRIB2/GRIB2_CodeFlag_1_4_CodeTable_en.csv")),
    ("3.1", include_str!("../../../standin/def/GRIB2/GRIB2_CodeFlag_3_1_CodeTable_en.csv")),
    ("4.0", include_str!("../../../standin/def/GRIB2/GRIB2_CodeFlag_4_0_CodeTable_en.csv")),
    ("4.1", include_str!("../../../standin/def/GRIB2/GRIB2_CodeFlag_4_1_CodeTable_en.csv")),
    ("4.2", include_str!("../../../standin/def/GRIB2/GRIB2_CodeFlag_4_2_CodeTable_en.csv")),
    ("4.3", include_str!("../../../standin/def/GRIB2/GRIB2_CodeFlag_4_3_CodeTable_en.csv")),
    ("4.4", include_str!("../../../standin/def/GRIB2/GRIB2_CodeFlag_4_4_CodeTable_en.csv")),
    ("4.5", include_str!("../../../standin/def/GRIB2/GRIB2_CodeFlag_4_5_CodeTable_en.csv")),
    ("5.0", include_str!("../../../standin/def/GRIB2/GRIB2_CodeFlag_5_0_CodeTable_en.csv")),
];

fn fields(line: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut quoted = false;
    for c in line.chars() {
        match c {
            '"' => quoted = !quoted,
            ',' if !quoted => v.push(String::new()),
            c => v.last_mut().unwrap().push(c),
        }
    }
    v
}

/// all numbers in a text
fn numbers(s: &str) -> Vec<u16> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect()
}

/// Unassigned codes have no text. (table, discipline and category where the table depends on them, code) -> text
fn all() -> &'static HashMap<(&'static str, Vec<u16>, u16), String> {
    static ALL: OnceLock<HashMap<(&'static str, Vec<u16>, u16), String>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut m = HashMap::new();
        for (name, text) in FILES {
            for l in text.lines().skip(1) {
                let f = fields(l);
                let Ok(code) = f[2].parse::<u16>() else { continue };
                // "Product discipline 4 - Discipline 4, parameter category 10: category 10"
                let of: Vec<u16> = f[1].split(',').filter_map(|p| numbers(p).first().copied()).collect();
                if !matches!(&f[4][..], "Missing" | "Reserved") {
                    m.insert((name, of, code), f[4].clone());
                }
            }
        }
        m
    })
}

pub fn text(table: &'static str, of: &[u8], code: u16) -> String {
    all().get(&(table, of.iter().map(|x| u16::from(*x)).collect(), code)).cloned().unwrap_or_else(|| format!("code '{code}' is not implemented"))
}
