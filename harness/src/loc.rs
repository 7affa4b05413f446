//! C22: locations
use crate::{diff, Case, Env, Rng};
use reqtrace::models::*;
use std::cmp::Ordering;
use std::path::PathBuf;

fn num(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => usize::MAX,
        1 => usize::MAX - 1,
        2 => 1 << 40,
        3 => 0,
        _ => r.below(4),
    }
}
fn lif(r: &mut Rng) -> LocationInFile {
    match r.below(5) {
        0 | 1 => LocationInFile::Line(num(r)),
        2 | 3 => LocationInFile::LineAndColumn(num(r), num(r)),
        _ => LocationInFile::String((*r.pick(&["a", "b", "", "1", "10", "9"])).to_string()),
    }
}
fn loc(r: &mut Rng) -> Location {
    Location { file: PathBuf::from(*r.pick(&["a", "b", "a b", "ä.md", "a/b", "", "/", ".", "a:1", "a\tb", "../a/./b", "a.b.c"])), location_in_file: if r.chance(1, 5) { None } else { Some(lif(r)) } }
}
fn expect(a: &LocationInFile, b: &LocationInFile) -> Option<Ordering> {
    let k = |x: &LocationInFile| match x {
        LocationInFile::Line(l) => Some((*l, 0)),
        LocationInFile::LineAndColumn(l, c) => Some((*l, *c)),
        LocationInFile::String(_) => None,
    };
    match (a, b, k(a), k(b)) {
        (LocationInFile::String(x), LocationInFile::String(y), _, _) => Some(x.cmp(y)),
        (_, _, Some(x), Some(y)) => Some(x.cmp(&y)),
        _ => None,
    }
}
pub fn order(r: &mut Rng, _: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let (a, b) = (loc(r), loc(r));
    c.input = format!("{a:?} <=> {b:?}");
    c.nontrivial = a.file == b.file;
    if let (Some(x), Some(y)) = (&a.location_in_file, &b.location_in_file) {
        diff("order", &expect(x, y), &x.partial_cmp(y))?;
        diff("opposite order", &expect(x, y).map(Ordering::reverse), &y.partial_cmp(x))?;
    }
    let e = match a.file.cmp(&b.file) {
        Ordering::Equal => match (&a.location_in_file, &b.location_in_file) {
            (None, None) => Some(Ordering::Equal),
            (None, Some(_)) => Some(Ordering::Less),
            (Some(_), None) => Some(Ordering::Greater),
            (Some(x), Some(y)) => expect(x, y),
        },
        o => Some(o),
    };
    diff("order of locations", &e, &a.partial_cmp(&b))?;
    diff("opposite order of locations", &e.map(Ordering::reverse), &b.partial_cmp(&a))
}
pub fn print(r: &mut Rng, _: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let a = loc(r);
    c.input = format!("{a:?}");
    c.nontrivial = a.location_in_file.is_some();
    let mut e = a.file.to_str().unwrap().to_string();
    match &a.location_in_file {
        None => {}
        Some(LocationInFile::Line(l)) => e += &[":", &l.to_string()].concat(),
        Some(LocationInFile::LineAndColumn(l, k)) => e += &[":", &l.to_string(), ":", &k.to_string()].concat(),
        Some(LocationInFile::String(s)) => e += &[":", s].concat(),
    }
    diff("printed", &e, &a.to_string())?;
    let f = a.file.clone();
    let (l, k) = (num(r), num(r));
    diff("constructor", &Location { file: f.clone(), location_in_file: Some(LocationInFile::Line(l)) }, &Location::new_with_line_no(f.clone(), l))?;
    diff("constructor", &Location { file: f.clone(), location_in_file: Some(LocationInFile::LineAndColumn(l, k)) }, &Location::new_with_line_and_column(f.clone(), l, k))?;
    diff("constructor", &Location { file: f.clone(), location_in_file: None }, &Location::new_with_no_pos(f.clone()))?;
    diff("constructor", &Location { file: f.clone(), location_in_file: Some(LocationInFile::String("x".into())) }, &Location::new_with_str(f, "x".into()))
}
