//! C13: packed and textual colours.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use vatsim_parser::adaptation::colours::Colour;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Case { Nums { base: i32, count: u32 }, Colours { r: u8, a: u8 }, Text(String), Rgb(u8, u8, u8, u8) }
fn num(n: i32) -> Result<(), String> {
    let want = if (0..1 << 24).contains(&n) { Some(Colour { r: (n & 255) as u8, g: (n >> 8 & 255) as u8, b: (n >> 16) as u8, a: 255 }) } else { None };
    let got = Colour::from_euroscope(n).ok();
    if got != want { return Err(format!("{n} decodes to {got:?}, expected {want:?}")); }
    if let Some(c) = got { if c.to_euroscope() != n { return Err(format!("{n} encodes back to {}", c.to_euroscope())); } }
    Ok(())
}
fn rgb(r: u8, g: u8, b: u8, a: u8) -> Result<(), String> {
    let c = Colour { r, g, b, a };
    let n = c.to_euroscope();
    if n != r as i32 | (g as i32) << 8 | (b as i32) << 16 { return Err(format!("{c:?} encodes to {n}")); }
    if Colour::from_rgb(r, g, b) != (Colour { r, g, b, a: 255 }) { return Err(format!("from_rgb {r} {g} {b} is {:?}", Colour::from_rgb(r, g, b))); }
    Ok(())
}
fn hex(n: u8) -> [char; 2] { let d = |x: u8| (if x < 10 { b'0' + x } else { b'a' + x - 10 }) as char; [d(n >> 4), d(n & 15)] }
fn shape(s: &str) -> Option<Colour> {
    let v: Vec<char> = s.chars().collect();
    if v.len() != 7 || v[0] != '#' { return None; }
    let d = |c: char| match c { '0'..='9' => Some(c as u8 - b'0'), 'a'..='f' => Some(c as u8 - b'a' + 10), 'A'..='F' => Some(c as u8 - b'A' + 10), _ => None };
    let mut x = [0u8; 6];
    for i in 0..6 { x[i] = d(v[i + 1])?; }
    Some(Colour { r: x[0] * 16 + x[1], g: x[2] * 16 + x[3], b: x[4] * 16 + x[5], a: 255 })
}
fn text(s: &str) -> Result<(), String> {
    let got = serde_json::from_value::<Colour>(serde_json::Value::String(s.into())).ok();
    let want = shape(s);
    if got != want { return Err(format!("text {s:?} reads as {got:?}, expected {want:?}")); }
    let js = serde_json::to_string(s).unwrap();
    let got = serde_json::from_str::<Colour>(&js).ok();
    if got != want { return Err(format!("text {s:?} in JSON reads as {got:?}, expected {want:?}")); }
    Ok(())
}
fn both(r: u8, g: u8, b: u8, a: u8) -> Result<(), String> {
    rgb(r, g, b, a)?;
    let c = Colour { r, g, b, a };
    let t = serde_json::to_value(c).map_err(|e| e.to_string())?;
    let (x, y, z) = (hex(r), hex(g), hex(b));
    let want: String = ['#', x[0], x[1], y[0], y[1], z[0], z[1]].iter().collect();
    if t.as_str().map(str::to_lowercase) != Some(want.clone()) { return Err(format!("{c:?} is written {t}, expected {want}")); }
    let back = serde_json::from_value::<Colour>(t.clone()).ok();
    if back != Some(Colour { a: 255, ..c }) { return Err(format!("{t} reads back as {back:?}")); }
    text(&want)?;
    text(&want.to_uppercase())
}
pub struct C13;
const BLOCK: u32 = 1 << 16;
impl Prop for C13 {
    const ID: &'static str = "C13";
    const RULE: &'static str = "packed integers in blocks of 65536 (the valid range and its neighbours first, then outward over all 2^32), every red value with all greens and blues, and texts one edit away from a colour";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        // interleave: texts, the valid range, colours, the rest of i32
        if i < 260 { return Some(Case::Nums { base: (i as i32 - 2) << 16, count: BLOCK }); }
        let i = i - 260;
        if i < 256 { return Some(Case::Colours { r: i as u8, a: (i * 37 % 256) as u8 }); }
        let i = i - 256;
        if i < 4 { return Some(Case::Nums { base: [i32::MIN, i32::MAX - BLOCK as i32 + 1, i32::MIN + (1 << 24), -(1 << 24)][i as usize], count: BLOCK }); }
        None
    }
    fn gen(r: &mut Rng, _s: usize) -> Case {
        match r.below(8) {
            0 => Case::Nums { base: (r.next() as i32) & !0xFFFF, count: 4096 },
            1 => Case::Rgb(r.next() as u8, r.next() as u8, r.next() as u8, r.next() as u8),
            k => {
                let mut s: Vec<char> = std::iter::once('#').chain((0..6).map(|_| *r.pick(&['0', '9', 'a', 'f', 'A', 'F', '5', 'c', '1', 'E']))).collect();
                let odd = ['#', 'g', 'G', '/', ':', '@', '`', ' ', '+', '-', '\n', '\t', '\u{660}', '\u{ff11}', 'é', '\0', '0', 'x'];
                if k > 2 { for _ in 0..1 + r.below(2) {
                    let p = r.below(s.len() + 1);
                    match r.below(3) { 0 => s.insert(p, *r.pick(&odd)), 1 if p < s.len() => { s.remove(p); } _ if p < s.len() => s[p] = *r.pick(&odd), _ => s.push(*r.pick(&odd)) }
                } }
                Case::Text(s.into_iter().collect())
            }
        }
    }
    fn check(c: &Case) -> Res {
        match c {
            Case::Nums { base, count } => { for k in 0..*count { num(base.wrapping_add(k as i32))?; } }
            Case::Colours { r, a } => {
                for g in 0..=255 { for b in 0..=255 { rgb(*r, g, b, *a)?; } }
                for x in 0..=255u8 { both(*r, x, x.wrapping_mul(7) ^ *r, *a)?; both(x, *r, 255 - x, *a)?; }
            }
            Case::Text(s) => { text(s)?; }
            Case::Rgb(r, g, b, a) => both(*r, *g, *b, *a)?,
        }
        Ok(Out::Ok)
    }
    fn shrink(c: &Case) -> Vec<Case> {
        match c {
            Case::Nums { base, count } if *count > 1 => vec![Case::Nums { base: *base, count: count / 2 }, Case::Nums { base: base.wrapping_add((count / 2) as i32), count: count - count / 2 }],
            Case::Text(s) => drop_one(&s.chars().collect::<Vec<_>>()).into_iter().map(|v| Case::Text(v.into_iter().collect())).collect(),
            _ => vec![],
        }
    }
}
