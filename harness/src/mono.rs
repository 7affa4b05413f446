//! C15: mono requirements
use crate::md::{ident_prefix, Failing};
use crate::{diff, Case, Env, Rng};
use reqtrace::models::*;
use std::path::Path;

fn doc(r: &mut Rng, size: usize, bytes: bool) -> (Vec<u8>, Option<usize>) {
    let mut out = Vec::new();
    let mut starts = vec![0];
    let crlf = r.chance(1, 6);
    let far = if r.chance(1, 60) { *r.pick(&[300, 1100]) } else { 0 };
    let many = if r.chance(1, 60) { 150 } else { 0 };
    for k in 0..far + many + r.below(1 + size * 3) {
        if k < far {
            out.push(b'\n');
            starts.push(out.len());
            continue;
        }
        if k < far + many {
            out.extend(format!("=> M_{k}\n").as_bytes());
            starts.push(out.len());
            continue;
        }
        let s = match r.below(10) {
            0..=4 => format!(
                "{}=>{}{}{}{}",
                r.pick(&["", "text ", "text => ", "* ", "> ", "    ", "<!-- ", "// ", "`", "\t", "- [ ] "]),
                r.pick(&["", " ", "  ", "\t"]),
                r.pick(&["REQ_1", "REQ_2", "Äb9", "ab", "REQ_10", "req_1", "R1", "REQ_1_", "_r__", "A_VERY_LONG_IDENTIFIER_OF_A_REQUIREMENT_WHICH_IS_LONGER_THAN_ANY_OTHER_1"]),
                r.pick(&["", ": Title", ":T", ": a => b", ": a => B_1"]),
                r.pick(&["", "", " ", "  "])
            ),
            5 => (*r.pick(&["=> A", "=> 1AB", "=> REQ_1 more", "= > REQ_1", "=> REQ-1", "-> REQ_1", "=>", "=> REQ_1 => REQ_2", "=> REQ_1 : T", "=>REQ_1:T.", "==> REQ_1", "=>> REQ_1", "<=> REQ_1: =>", "=> REQ_1: T => REQ_2: U"])).to_string(),
            6 | 7 => (*r.pick(&["Title", "some text", "# Heading", "x", "  lead", "trail ", "\"q\" ", "=== ", "```", "---", "<!--", "-->", "\\", "#", "# ", "\u{c}", "\u{feff}Title", "TODO: x", "## => x"])).to_string(),
            _ => String::new(),
        };
        if bytes && r.chance(1, 40) {
            out.push(0xff);
        }
        out.extend(s.as_bytes());
        out.extend(if crlf { &b"\r\n"[..] } else { &b"\n"[..] });
        starts.push(out.len());
    }
    if r.chance(1, 3) && out.last() == Some(&b'\n') {
        out.pop();
        if out.last() == Some(&b'\r') {
            out.pop();
        }
    }
    let fail = if r.chance(1, 10) { Some(*r.pick(&starts)) } else { None };
    let fail = fail.filter(|f| *f == 0 || (*f <= out.len() && out[*f - 1] == b'\n'));
    (out, fail)
}
/// the id (and title) behind an arrow that reaches to the end of the line: leftmost arrow that fits
fn arrow(l: &str) -> Option<(String, Option<String>)> {
    for (i, _) in l.match_indices("=>") {
        let Some((id, rest)) = ident_prefix(l[i + 2..].trim_start()) else { continue };
        if rest.trim().is_empty() {
            return Some((id.into(), None));
        }
        if let Some(t) = rest.strip_prefix(':') {
            if !t.trim().is_empty() {
                return Some((id.into(), Some(t.trim().into())));
            }
        }
    }
    None
}
pub fn mono(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let (mut d, mut fail) = doc(r, size, true);
    if crate::md::sprinkle(r, &mut d) > 0 {
        fail = None;
    }
    let path = Path::new(*r.pick(&["dir/REQ_9.md", "REQ_9", "a/b.c/README.txt", "x/.hidden", "x/a.b.c", "x/ REQ 9 .md", "Äb.md", "x/REQ_1_.md", "_r_", "x/req-1.MD", "/REQ_1.md.bak", "x/\"q\".md"]));
    c.input = format!("{}: {}{}", path.display(), String::from_utf8_lossy(&d), fail.map(|f| format!("<read error at byte {f}>")).unwrap_or_default());
    let body = &d[..fail.unwrap_or(d.len())];
    let (mut title, mut deps, mut io) = (None, Vec::new(), fail.is_some());
    for (n, l) in body.split_inclusive(|b| *b == b'\n').enumerate() {
        let Ok(l) = std::str::from_utf8(l) else {
            io = true;
            break;
        };
        let l = l.strip_suffix('\n').unwrap_or(l);
        let l = l.strip_suffix('\r').unwrap_or(l);
        if n == 0 {
            title = Some(l.to_string());
        } else if let Some((id, t)) = arrow(l) {
            deps.push((id, t, format!("{:?}", Location::new_with_line_no(path.to_path_buf(), n + 1))));
        }
    }
    c.nontrivial = !deps.is_empty();
    let (reqs, errs) = reqtrace::parsers::monoreq::parse(Failing { data: &d, pos: 0, fail_at: fail, step: *r.pick(&[1, 5, 8192]) }, path);
    diff("number of requirements", &1, &reqs.len())?;
    let q = &reqs[0];
    diff("id", &path.file_stem().unwrap().to_str().unwrap().to_string(), &q.id.to_string())?;
    diff("title", &title, &q.title)?;
    let act: Vec<_> = q.depends.iter().map(|x| (x.id.to_string(), x.title.clone(), format!("{:?}", x.location))).collect();
    diff("depends", &deps, &act)?;
    diff("location", &Location::new_with_no_pos(path.to_path_buf()), &q.location)?;
    diff("covers, tags, attributes", &(0, 0, 0), &(q.covers.len(), q.tags.len(), q.attributes.len()))?;
    diff("number of errors", &usize::from(io), &errs.len())?;
    match errs.first() {
        None => Ok(()),
        Some(Error::Io(p, _)) if p == path => Ok(()),
        Some(e) => Err(format!("not a read error of {}: {e:?}", path.display())),
    }
}
pub fn no_panic(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let (mut d, fail) = doc(r, size, true);
    crate::md::sprinkle(r, &mut d);
    let fail = fail.filter(|f| *f <= d.len());
    if !d.is_empty() {
        for _ in 0..r.below(3) {
            let i = r.below(d.len());
            d[i] = r.next() as u8;
        }
    }
    let path = *r.pick(&["dir/REQ_9.md", "/", "..", "", "a\n.md"]);
    c.input = format!("{path:?} {d:?} {fail:?}");
    c.nontrivial = !d.is_empty();
    let _ = reqtrace::parsers::monoreq::parse(Failing { data: &d, pos: 0, fail_at: fail, step: 5 }, Path::new(path));
    Ok(())
}
