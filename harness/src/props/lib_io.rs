//! C06 and C12: patches as documents, content as files.

use std::ffi::OsStr;
use std::path::Path;

use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
use pw_diff_lib::byte_diff::{ByteChangeClump, ByteChangeDiff};
use pw_diff_lib::diff::Diff;
use pw_diff_lib::sequence::{Seq, WriteDataInto};
use pw_diff_lib::text_diff::{TextChangeClump, TextChangeDiff};
use serde_json::Value;

use super::lib_core::ctx_of;
use crate::fx::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::run::{clip, guard, Ctx, Fault, Outcome, Verdict};
use crate::util::*;

// ---------------------------------------------------------------- C06

pub const KIND_NAMES: [&str; 6] = ["text change", "text addition", "text removal", "byte change", "byte addition", "byte removal"];

pub fn kind_of(d: &Diff) -> usize {
    match d {
        Diff::TextChange(_) => 0,
        Diff::TextAdd(_) => 1,
        Diff::TextRemove(_) => 2,
        Diff::ByteChange(_) => 3,
        Diff::ByteAdd(_) => 4,
        Diff::ByteRemove(_) => 5,
    }
}

pub fn write_doc(d: &Diff) -> Result<Vec<u8>, Fault> {
    let mut out = vec![];
    guard("to_writer", || d.to_writer(&mut out).map_err(|e| Fault::Bad(format!("to_writer failed writing to memory: {e}"))))??;
    Ok(out)
}

pub fn read_doc(doc: &[u8]) -> Result<Result<Diff, serde_json::Error>, Fault> {
    guard("from_reader", || Diff::from_reader(&mut &doc[..]))
}

/// Not as paths, which compare equal when they are only equivalent.
pub fn paths_of(d: &Diff) -> Vec<&OsStr> {
    let paths = match d {
        Diff::TextChange(d) => vec![d.before_path(), d.after_path()],
        Diff::ByteChange(d) => vec![d.before_path(), d.after_path()],
        Diff::TextAdd(p) | Diff::TextRemove(p) => vec![p.path()],
        Diff::ByteAdd(p) | Diff::ByteRemove(p) => vec![p.path()],
    };
    paths.into_iter().map(Path::as_os_str).collect()
}

fn clump_text(c: &TextChangeClump) -> (Hunk, usize) {
    (Hunk::of(c), 0)
}

pub fn clump_bytes(c: &ByteChangeClump) -> (usize, Vec<u8>, usize, Vec<u8>) {
    let (b, a) = (c.before(false), c.after(false));
    (b.start, b.items.to_vec(), a.start, a.items.to_vec())
}

/// The two patches have the same contents and do the same to every target.
fn same_patch(x: &Diff, y: &Diff, targets: &[Vec<u8>], o: &mut Outcome) -> Result<(), Fault> {
    if kind_of(x) != kind_of(y) {
        return Err(format!("a {} is read back as a {}", KIND_NAMES[kind_of(x)], KIND_NAMES[kind_of(y)]).into());
    }
    if paths_of(x) != paths_of(y) {
        return Err(format!("paths {:?} are read back as {:?}", paths_of(x), paths_of(y)).into());
    }
    match (x, y) {
        (Diff::TextChange(x), Diff::TextChange(y)) => {
            let (a, b): (Vec<_>, Vec<_>) = (x.clumps().map(clump_text).collect(), y.clumps().map(clump_text).collect());
            if a != b {
                return Err(format!("hunks {} are read back as {}", clip(&format!("{a:?}"), 4000), clip(&format!("{b:?}"), 4000)).into());
            }
            for t in targets {
                if let Ok(t) = std::str::from_utf8(t) {
                    let t = split_lines(t);
                    for reverse in [false, true] {
                        let p = guard("applying", || apply_text(x, &t, reverse))??;
                        let q = guard("applying the patch read back", || apply_text(y, &t, reverse))??;
                        if p != q {
                            return Err(format!("the patch read back has another effect (reverse={reverse}) on {t:?}").into());
                        }
                        o.count("targets patched with both", 1);
                    }
                }
            }
        }
        (Diff::ByteChange(x), Diff::ByteChange(y)) => {
            let (a, b): (Vec<_>, Vec<_>) = (x.clumps().map(clump_bytes).collect(), y.clumps().map(clump_bytes).collect());
            if a != b {
                return Err(format!("hunks {} are read back as {}", clip(&format!("{a:?}"), 4000), clip(&format!("{b:?}"), 4000)).into());
            }
            for t in targets {
                for reverse in [false, true] {
                    let p = guard("applying", || apply_bytes(x, t, reverse))??;
                    let q = guard("applying the patch read back", || apply_bytes(y, t, reverse))??;
                    if p != q {
                        return Err(format!("the patch read back has another effect (reverse={reverse}) on {t:?}").into());
                    }
                    o.count("targets patched with both", 1);
                }
            }
        }
        _ => {
            let (a, b) = (whole(x)?, whole(y)?);
            if a != b {
                return Err(format!("contents differ ({})", diff_pos(&a, &b)).into());
            }
        }
    }
    Ok(())
}

/// The content of an addition or removal.
pub fn whole(d: &Diff) -> Result<Vec<u8>, Fault> {
    let mut out = vec![];
    let r = match d {
        Diff::TextAdd(p) | Diff::TextRemove(p) => guard("write_into", || p.write_into(&mut out))?,
        Diff::ByteAdd(p) | Diff::ByteRemove(p) => guard("write_into", || p.write_into(&mut out))?,
        _ => return Err(Fault::Harness("not an addition or removal".into())),
    };
    r.map_err(|e| Fault::Bad(format!("write_into failed writing to memory: {e}")))?;
    Ok(out)
}

pub const NAMES: &[&str] = &[
    "a", "file.txt", "with space", "quo\"te", "back\\slash", "new\nline", "tab\t", "é", "日本", "\u{10FFFF}", "\u{1}ctl", "-dash", "..x", "a.b.c",
    "\u{2028}", "{}", "null", "e\u{301}", "\u{7f}", "'", "%s", "~", "\u{feff}bom", " lead", "trail ", "*",
];

/// Text with any character at all.
pub fn wild_text(rng: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let c = match rng.below(8) {
            0 => '\n',
            1 => char::from_u32(rng.below(0x20) as u32).unwrap(),
            2 => char::from_u32(rng.range(0x20, 0x7f) as u32).unwrap(),
            3 => *rng.pick(&['"', '\\', '/', '\u{7f}', '\u{80}', '\u{9f}', '\u{ad}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{10000}', '\u{10ffff}', '\0', '\r', '\t', '\u{b}', '\u{c}', '\u{85}']),
            4 => char::from_u32(rng.below(0xd800) as u32).unwrap(),
            5 => char::from_u32(rng.range(0xe000, 0x10ffff) as u32).unwrap(),
            _ => *rng.pick(&['a', 'b', ' ', '\n']),
        };
        s.push(c);
    }
    s
}

pub fn some_text(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => {
            let n = rng.below(200);
            wild_text(rng, n)
        }
        1 => {
            let mut u = 0;
            let n = rng.below(30);
            join(&normalise(gen_lines(rng, n, Alphabet::Nasty, &mut u)))
        }
        2 => String::new(),
        _ => {
            let p = text_pair(rng);
            join(&p.before)
        }
    }
}

/// Two versions: text pairs, byte pairs, wild ones.
/// Text of up to `max` bytes in many lines or few, with a spot that is not UTF-8 or looks like it, anywhere in it.
pub fn late_spot(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = log_range(rng, 30, max);
    let width = log_range(rng, 1, 2000);
    let mut v = Vec::with_capacity(n + 8);
    let mut k = 0;
    while v.len() < n {
        k += 1;
        let fill = *rng.pick(&["x", "y ", "é", "\u{0}"]);
        v.extend_from_slice(format!("line {k} {}\n", fill.repeat(rng.below(width))).as_bytes());
    }
    let spot: &[u8] = *rng.pick(&[&b"\xff"[..], b"\xc3", b"\xe6\x97", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf4\x90\x80\x80", b"\x80", b"\xf0\x9f\x98", b"\0", "\u{10ffff}".as_bytes()]);
    let at = match rng.below(4) {
        0 => v.len(),
        1 => v.len() - 1,
        2 => rng.below(v.len()),
        _ => v.len() - rng.below(v.len().min(40)),
    };
    v.splice(at..at, spot.iter().copied());
    v
}

pub fn some_pair(rng: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    if rng.chance(1, 25) {
        let a = late_spot(rng, 3_000);
        let b = match rng.below(3) {
            0 => edit_bytes(rng, &a, 2, 0),
            1 => {
                let t = String::from_utf8_lossy(&a).into_owned();
                let mut u = 0;
                join(&normalise(edit(rng, &split_lines(&t), 2, Alphabet::Unique, &mut u))).into_bytes()
            }
            _ => late_spot(rng, 1000),
        };
        return if rng.chance(1, 2) { (a, b) } else { (b, a) };
    }
    match rng.below(6) {
        0 | 1 => {
            let p = text_pair(rng);
            (join(&p.before).into_bytes(), join(&p.after).into_bytes())
        }
        2 => {
            let a = some_text(rng);
            let lines = split_lines(&a);
            let mut u = 0;
            let b = normalise(edit(rng, &lines, 2, Alphabet::Nasty, &mut u));
            (a.into_bytes(), join(&b).into_bytes())
        }
        3 => (some_text(rng).into_bytes(), some_text(rng).into_bytes()),
        _ => {
            let (mut a, b) = byte_pair(rng);
            if std::str::from_utf8(&a).is_ok() && std::str::from_utf8(&b).is_ok() {
                a.push(0xff);
            }
            (a, b)
        }
    }
}

/// A patch of the given kind made from files on disk; also what the two files held (None: no such file).
pub struct Made {
    pub diff: Diff,
    pub before: Option<Vec<u8>>,
    pub after: Option<Vec<u8>>,
    pub ctx: u8,
    pub paths: (std::path::PathBuf, std::path::PathBuf),
    pub dir: Scratch,
}

fn make(rng: &mut Rng, missing: usize) -> Result<Made, Fault> {
    let dir = Scratch::new()?;
    let (mut a, mut b) = some_pair(rng);
    if missing != 0 && rng.chance(1, 3) {
        let t = some_text(rng).into_bytes();
        a = t.clone();
        b = t;
    }
    let na = format!("b/{}", rng.pick(NAMES));
    let nb = format!("a/{}", rng.pick(NAMES));
    let (pa, pb) = (dir.path(&na), dir.path(&nb));
    if missing != 1 {
        dir.put(&na, &a)?;
    }
    if missing != 2 {
        dir.put(&nb, &b)?;
    }
    let ctx = any_context(rng);
    let diff = guard("Diff::new", || Diff::new(&pa, &pb, ctx))?.map_err(|e| Fault::Bad(format!("Diff::new failed on readable files: {e}\nbefore={a:?}\nafter={b:?}")))?;
    Ok(Made { diff, before: (missing != 1).then_some(a), after: (missing != 2).then_some(b), ctx, paths: (pa, pb), dir })
}

fn c06_roundtrip(rng: &mut Rng) -> Verdict {
    let missing = *rng.pick(&[0, 0, 0, 1, 2]);
    let m = make(rng, missing)?;
    let head = format!("paths={:?} context={}\nbefore={}\nafter={}", m.paths, m.ctx, clip(&format!("{:?}", m.before), 4000), clip(&format!("{:?}", m.after), 4000));
    let mut o = Outcome::new(head.as_bytes(), m.before != m.after);
    let f = |x: Fault| ctx_of(x, &head);
    let doc = write_doc(&m.diff).map_err(f)?;
    // the document itself says what the files are, read by someone else
    let v: Value = serde_json::from_slice(&doc).map_err(|e| f(format!("the document is not JSON: {e}").into()))?;
    drop(v);
    let back = read_doc(&doc).map_err(f)?.map_err(|e| f(format!("a patch just written is not read back: {e}").into()))?;
    let mut targets = vec![];
    for t in [&m.before, &m.after].into_iter().flatten() {
        targets.push(t.clone());
        targets.push(edit_bytes(rng, t, 1, 0));
        if let Ok(s) = std::str::from_utf8(t) {
            let mut u = 0;
            targets.push(join(&normalise(edit(rng, &split_lines(s), 2, Alphabet::Small, &mut u))).into_bytes());
        }
    }
    targets.push(vec![]);
    same_patch(&m.diff, &back, &targets, &mut o).map_err(f)?;
    // what was read back does what the patch was made for
    match &back {
        Diff::TextChange(d) => {
            let (a, b) = (m.before.as_ref().unwrap(), m.after.as_ref().unwrap());
            for (reverse, x, y) in [(false, a, b), (true, b, a)] {
                let x = split_lines(std::str::from_utf8(x).map_err(|_| f("a text change for a file that is not text".into()))?);
                let (out, _) = guard("applying the patch read back", || apply_text(d, &x, reverse)).map_err(f)??;
                if out != *y {
                    return Err(f(format!("the patch read back does not give the other version (reverse={reverse}, {})", diff_pos(&out, y)).into()));
                }
            }
        }
        Diff::ByteChange(d) => {
            let (a, b) = (m.before.as_ref().unwrap(), m.after.as_ref().unwrap());
            for (reverse, x, y) in [(false, a, b), (true, b, a)] {
                let (out, _) = guard("applying the patch read back", || apply_bytes(d, x, reverse)).map_err(f)??;
                if out != *y {
                    return Err(f(format!("the patch read back does not give the other version (reverse={reverse}, {})", diff_pos(&out, y)).into()));
                }
            }
        }
        d => {
            let w = whole(d).map_err(f)?;
            let want = m.before.as_ref().or(m.after.as_ref()).unwrap();
            if w != *want {
                return Err(f(format!("the patch read back does not hold the file ({})", diff_pos(&w, want)).into()));
            }
        }
    }
    for (i, p) in paths_of(&back).iter().enumerate() {
        let want = if i == 0 { &m.paths.0 } else { &m.paths.1 };
        if p != want {
            return Err(f(format!("path {want:?} is read back as {p:?}").into()));
        }
    }
    let again = write_doc(&back).map_err(f)?;
    if again != doc {
        return Err(f(format!("written again it differs ({})", diff_pos(&again, &doc)).into()));
    }
    // the same through a reader that splits and interrupts
    let mut r = HostileReader::new(&doc, Chunks::any(rng), true, rng);
    let piecemeal = guard("from_reader", || Diff::from_reader(&mut r)).map_err(f)?.map_err(|e| f(format!("not read back in pieces: {e}").into()))?;
    if write_doc(&piecemeal)? != doc {
        return Err(f("read in pieces it differs".into()));
    }
    // the plain change documents
    match &m.diff {
        Diff::TextChange(d) => {
            let mut one = vec![];
            d.to_writer(&mut one).map_err(|e| f(format!("to_writer: {e}").into()))?;
            let b = TextChangeDiff::from_reader(&mut &one[..]).map_err(|e| f(format!("TextChangeDiff not read back: {e}").into()))?;
            let mut two = vec![];
            b.to_writer(&mut two).map_err(|e| f(format!("to_writer: {e}").into()))?;
            same_patch(&m.diff, &Diff::TextChange(b), &targets, &mut o).map_err(f)?;
            if one != two {
                return Err(f("TextChangeDiff written again differs".into()));
            }
        }
        Diff::ByteChange(d) => {
            let mut one = vec![];
            d.to_writer(&mut one).map_err(|e| f(format!("to_writer: {e}").into()))?;
            let b = ByteChangeDiff::from_reader(&mut &one[..]).map_err(|e| f(format!("ByteChangeDiff not read back: {e}").into()))?;
            let mut two = vec![];
            b.to_writer(&mut two).map_err(|e| f(format!("to_writer: {e}").into()))?;
            same_patch(&m.diff, &Diff::ByteChange(b), &targets, &mut o).map_err(f)?;
            if one != two {
                return Err(f("ByteChangeDiff written again differs".into()));
            }
        }
        _ => (),
    }
    o.count(["text changes", "text additions", "text removals", "byte changes", "byte additions", "byte removals"][kind_of(&m.diff)], 1);
    o.count("document bytes", doc.len() as u64);
    o.sample = Some(clip(&head, 400));
    let _ = &m.dir;
    Ok(o)
}

/// A document with hand-made contents comes back as it was, value for value.
fn c06_document(rng: &mut Rng) -> Verdict {
    let v = hand_made(rng);
    let text = v.to_string().into_bytes();
    let head = clip(&v.to_string(), 4000);
    let f = |x: Fault| ctx_of(x, &head);
    let d = read_doc(&text).map_err(f)?.map_err(|e| f(format!("a complete patch document is rejected: {e}").into()))?;
    let doc = write_doc(&d).map_err(f)?;
    let back: Value = serde_json::from_slice(&doc).map_err(|e| f(format!("what is written is not JSON: {e}").into()))?;
    if back != v {
        return Err(f(format!("read and written again it says {}", clip(&back.to_string(), 4000)).into()));
    }
    let mut o = Outcome::new(&text, true);
    o.count("hand-made documents", 1);
    o.sample = Some(clip(&head, 300));
    Ok(o)
}

pub fn hand_made(rng: &mut Rng) -> Value {
    use serde_json::json;
    let n = rng.below(12);
    let p1 = wild_text(rng, n);
    let n = rng.below(12);
    let p2 = wild_text(rng, n);
    let text_items = |rng: &mut Rng| -> Vec<String> {
        let n = rng.below(5);
        (0..n)
            .map(|_| {
                let n = rng.below(10);
                wild_text(rng, n)
            })
            .collect()
    };
    let byte_items = |rng: &mut Rng| -> Vec<u8> {
        let n = rng.below(12);
        (0..n).map(|_| rng.below(256) as u8).collect()
    };
    let start = |rng: &mut Rng| *rng.pick(&[0usize, 1, 7, 255, 256, 65535, 65536, u32::MAX as usize, 1 << 40, 1 << 60]);
    let some_context = |rng: &mut Rng, most: usize| {
        let a = rng.below(most + 1);
        [a, rng.below(most + 1 - a)]
    };
    match rng.below(6) {
        0 | 1 => {
            let clumps: Vec<Value> = (0..rng.below(4))
                .map(|_| {
                    let (x, y) = (text_items(rng), text_items(rng));
                    let c = some_context(rng, x.len().min(y.len()));
                    json!({"context_lengths": c, "before": {"start": start(rng), "items": x}, "after": {"start": start(rng), "items": y}})
                })
                .collect();
            json!({"TextChange": {"before_path": p1, "after_path": p2, "clumps": clumps}})
        }
        2 | 3 => {
            let clumps: Vec<Value> = (0..rng.below(4))
                .map(|_| {
                    let (x, y) = (byte_items(rng), byte_items(rng));
                    let c = some_context(rng, x.len().min(y.len()));
                    json!({"context_lengths": c, "before": {"start": start(rng), "items": x}, "after": {"start": start(rng), "items": y}})
                })
                .collect();
            json!({"ByteChange": {"before_path": p1, "after_path": p2, "compressed": rng.chance(1, 2), "clumps": clumps}})
        }
        4 => json!({(*rng.pick(&["TextAdd", "TextRemove"])): {"path": p1, "lines": text_items(rng)}}),
        _ => json!({(*rng.pick(&["ByteAdd", "ByteRemove"])): {"path": p1, "compressed": rng.chance(1, 2), "bytes": byte_items(rng)}}),
    }
}

/// Every place in a document, as a JSON pointer.
fn places(v: &Value, at: String, out: &mut Vec<String>) {
    out.push(at.clone());
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                places(x, format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                places(x, format!("{at}/{i}"), out);
            }
        }
        _ => (),
    }
}

/// One change after which the document is no patch any more.
pub fn spoil(rng: &mut Rng, v: &mut Value) -> String {
    use serde_json::json;
    let mut all = vec![];
    places(v, String::new(), &mut all);
    loop {
        let at = rng.pick(&all).clone();
        // more context than there are lines
        let too_much = at.split_once("/context_lengths/").and_then(|(clump, _)| {
            let n = |side| v.pointer(&format!("{clump}/{side}/items"))?.as_array().map(|a| a.len());
            Some(n("before")?.min(n("after")?) + 1)
        });
        let x = v.pointer_mut(&at).unwrap();
        match x {
            Value::Object(m) => match rng.below(3) {
                0 => {
                    let k: Vec<String> = m.keys().cloned().collect();
                    let k = rng.pick(&k).clone();
                    m.remove(&k);
                    return format!("{at}: without {k}");
                }
                1 => {
                    let k: Vec<String> = m.keys().cloned().collect();
                    let k = rng.pick(&k).clone();
                    let x = m.remove(&k).unwrap();
                    m.insert(format!("{k}x"), x);
                    return format!("{at}: {k} misspelt");
                }
                _ => {
                    *x = rng.pick(&[json!(null), json!(1), json!("x"), json!(true), json!([])]).clone();
                    return format!("{at}: replaced by {x}");
                }
            },
            Value::Array(a) => {
                if at.ends_with("context_lengths") && rng.chance(2, 3) {
                    if rng.chance(1, 2) {
                        a.pop();
                    } else {
                        a.push(json!(0));
                    }
                    return format!("{at}: {} context lengths", a.len());
                }
                *x = rng.pick(&[json!(null), json!(1), json!("x"), json!({}), json!(false)]).clone();
                return format!("{at}: replaced by {x}");
            }
            Value::Number(_) => {
                let mut alts = vec![json!(null), json!("1"), json!([]), json!({}), json!(true), json!(-1), json!(1.5), json!(1e30)];
                if at.ends_with("start") {
                    alts.extend([json!(u64::MAX), json!(1u64 << 63), json!(u64::MAX / 2)]);
                } else {
                    alts.push(json!(256));
                    alts.push(json!(100000));
                }
                if let Some(n) = too_much.filter(|n| *n < 256) {
                    alts.extend([json!(n), json!(n), json!(255)]);
                }
                *x = rng.pick(&alts).clone();
                return format!("{at}: replaced by {x}");
            }
            Value::String(_) => {
                *x = rng.pick(&[json!(null), json!(1), json!([]), json!({}), json!(false), json!(["x"])]).clone();
                return format!("{at}: replaced by {x}");
            }
            Value::Bool(_) => {
                *x = rng.pick(&[json!(null), json!(1), json!([]), json!({}), json!("true")]).clone();
                return format!("{at}: replaced by {x}");
            }
            Value::Null => continue,
        }
    }
}

fn rejected(doc: &[u8], what: &str, o: &mut Outcome) -> Result<(), Fault> {
    if let Ok(d) = read_doc(doc)? {
        return Err(format!("{what}: read as a complete patch {:?}\ndocument={}", clip(&format!("{d:?}"), 2000), clip(&String::from_utf8_lossy(doc), 4000)).into());
    }
    o.count("incomplete or wrong documents rejected", 1);
    Ok(())
}

fn c06_malformed(rng: &mut Rng, i: usize) -> Verdict {
    let v = hand_made(rng);
    let pretty = rng.chance(1, 2);
    let doc = if pretty { serde_json::to_vec_pretty(&v) } else { serde_json::to_vec(&v) }.unwrap();
    let mut o = Outcome::new(&doc, true);
    match i % 4 {
        0 => {
            // every proper prefix
            for n in 0..doc.len() {
                rejected(&doc[..n], &format!("cut short at byte {n} of {}", doc.len()), &mut o)?;
            }
        }
        1 => {
            for _ in 0..20 {
                let mut w = v.clone();
                let what = spoil(rng, &mut w);
                rejected(w.to_string().as_bytes(), &what, &mut o)?;
            }
        }
        2 => {
            for tail in ["x", "}", "]", "{}", "0", "\"", ",", "null", "\u{0}", "\u{a0}", "\u{feff}"] {
                let mut d = doc.clone();
                d.extend(tail.bytes());
                rejected(&d, &format!("followed by {tail:?}"), &mut o)?;
            }
            let mut d = doc.clone();
            d.extend_from_slice(&doc);
            rejected(&d, "two documents", &mut o)?;
            for head in ["x", "}", "[", "0", "\"", ","] {
                let mut d = head.as_bytes().to_vec();
                d.extend(&doc);
                rejected(&d, &format!("preceded by {head:?}"), &mut o)?;
            }
            for d in ["", " ", "\n", "null", "0", "{}", "[]", "\"TextChange\"", "{\"TextChange\":{}}", "{\"TextAdd\":[]}", "{\"Nothing\":{\"path\":\"a\",\"lines\":[]}}", "\u{feff}", "--- a\n+++ b\n@@ -1 +1 @@\n-a\n+b\n"] {
                rejected(d.as_bytes(), d, &mut o)?;
            }
        }
        _ => {
            // bytes that are not UTF-8, inside and outside of strings; structure broken by one byte
            for _ in 0..20 {
                let mut d = doc.clone();
                let at = rng.below(d.len());
                d[at] = *rng.pick(&[0x80u8, 0xbf, 0xc0, 0xff, 0xfe, 0xf8]);
                if std::str::from_utf8(&d).is_err() {
                    rejected(&d, &format!("invalid UTF-8 at byte {at}"), &mut o)?;
                }
            }
            let mut quoted = false;
            let mut esc = false;
            let brackets: Vec<usize> = doc
                .iter()
                .enumerate()
                .filter(|(_, b)| {
                    if esc {
                        esc = false;
                        return false;
                    }
                    match **b {
                        b'\\' if quoted => {
                            esc = true;
                            false
                        }
                        b'"' => {
                            quoted = !quoted;
                            false
                        }
                        b'{' | b'}' | b'[' | b']' | b':' => !quoted,
                        _ => false,
                    }
                })
                .map(|(i, _)| i)
                .collect();
            for at in brackets {
                let mut d = doc.clone();
                d.remove(at);
                rejected(&d, &format!("without the {:?} at byte {at}", doc[at] as char), &mut o)?;
            }
        }
    }
    o.sample = Some(clip(&String::from_utf8_lossy(&doc), 300));
    Ok(o)
}

/// Patches whose documents are many megabytes long.
fn c06_large(rng: &mut Rng, i: usize) -> Verdict {
    let kind = i % 6;
    let text = kind < 3;
    // the first of each kind are as large as they get
    let max = if text { 20_000_000 } else { 2_000_000 };
    let n = if i < 6 { max } else { log_range(rng, 100_000, max) };
    let mut big: Vec<u8> = Vec::with_capacity(n + 64);
    let width = *rng.pick(&[1usize, 10, 70, 1000, 100_000]);
    let salt = rng.next() | 1;
    let mut k = 0u64;
    while big.len() < n {
        k += 1;
        if text {
            big.extend_from_slice(format!("{:x}", k.wrapping_mul(salt)).as_bytes());
            if big.len() / width != (big.len() - 1) / width {
                big.extend_from_slice("\u{e9}\n".as_bytes());
            }
        } else {
            big.extend_from_slice(&k.wrapping_mul(salt).to_le_bytes());
        }
    }
    if !text {
        big.push(0xff);
    }
    let small: Vec<u8> = if text { b"small\n".to_vec() } else { b"\xff small".to_vec() };
    let (before, after) = match kind % 3 {
        0 if rng.chance(1, 2) => (Some(small), Some(big)),
        0 => (Some(big), Some(small)),
        1 => (None, Some(big)),
        _ => (Some(big), None),
    };
    let head = format!("kind={} bytes={n} width={width} salt={salt:#x}", KIND_NAMES[kind]);
    let f = |x: Fault| ctx_of(x, &head);
    let dir = Scratch::new()?;
    for (name, x) in [("before", &before), ("after", &after)] {
        if let Some(x) = x {
            dir.put(name, x)?;
        }
    }
    let diff = guard("Diff::new", || Diff::new(&dir.path("before"), &dir.path("after"), 2)).map_err(f)?.map_err(|e| f(format!("Diff::new failed on readable files: {e}").into()))?;
    if kind_of(&diff) != kind {
        return Err(f(format!("made a {}", KIND_NAMES[kind_of(&diff)]).into()));
    }
    let mut o = Outcome::new(head.as_bytes(), true);
    let doc = write_doc(&diff).map_err(f)?;
    let back = read_doc(&doc).map_err(f)?.map_err(|e| f(format!("a patch of {} bytes just written is not read back: {e}", doc.len()).into()))?;
    let targets: Vec<Vec<u8>> = before.iter().cloned().collect();
    same_patch(&diff, &back, if i < 6 { &[] } else { &targets }, &mut o).map_err(f)?;
    if let (Some(b), Some(a)) = (&before, &after) {
        let out = match &back {
            Diff::TextChange(d) => guard("applying the patch read back", || apply_text(d, &split_lines(std::str::from_utf8(b).unwrap()), false)).map_err(f)??.0,
            Diff::ByteChange(d) => guard("applying the patch read back", || apply_bytes(d, b, false)).map_err(f)??.0,
            _ => return Err(f("not a change".into())),
        };
        if out != *a {
            return Err(f(format!("the patch read back does not give the other version ({})", diff_pos(&out, a)).into()));
        }
    } else if whole(&back).map_err(f)? != *before.as_ref().or(after.as_ref()).unwrap() {
        return Err(f("the patch read back does not hold the file".into()));
    }
    if write_doc(&back).map_err(f)? != doc {
        return Err(f("written again it differs".into()));
    }
    o.count("large documents", 1);
    o.count("bytes of large documents", doc.len() as u64);
    Ok(o)
}

pub fn c06(c: &mut Ctx) {
    c.rule = "patches of all six kinds made from files on disk (any characters, any bytes, odd paths), written, read back (also in pieces), compared in paths, contents and effect on several targets, and written again; hand-made documents; documents cut short, spoilt or followed by more, which must be rejected; non-trivial: not an empty change; distinct by inputs".into();
    let c = &*c;
    c.stage("roundtrip", c.tier(60_000, 1_000_000), c.tier(16, 400), |rng, _| c06_roundtrip(rng));
    c.stage("large", c.tier(12, 60), c.tier(200, 600), c06_large);
    c.stage("document", c.tier(200_000, 2_000_000), c.tier(8, 200), |rng, _| c06_document(rng));
    c.stage("malformed", c.tier(30_000, 600_000), c.tier(16, 400), |rng, i| c06_malformed(rng, i));
}

// ---------------------------------------------------------------- C12

fn sized_text(rng: &mut Rng) -> String {
    match rng.below(5) {
        0 => {
            // lines and characters across the usual buffer sizes
            let n = *rng.pick(&[4094usize, 4095, 4096, 8189, 8190, 8191, 8192, 8193, 16384, 20000]);
            let mut s: String = "x".repeat(n);
            s.push_str(*rng.pick(&["\n", "é", "日\n", "\u{10ffff}", "\r\n", ""]));
            s.push_str(&some_text(rng));
            s
        }
        1 => {
            let n = rng.range(3000, 9000);
            wild_text(rng, n)
        }
        _ => some_text(rng),
    }
}

fn c12_read(rng: &mut Rng) -> Verdict {
    let text = sized_text(rng);
    let data = text.as_bytes();
    let chunks = Chunks::any(rng);
    let interrupts = rng.chance(1, 2);
    let head = || format!("chunks={chunks:?} interrupts={interrupts}\ndata={}", clip(&format!("{text:?}"), 6000));
    let f = |x: Fault| ctx_of(x, &head());
    let mut o = Outcome::new(data, !data.is_empty());
    let want = split_lines(&text);
    let mut r = HostileReader::new(data, chunks, interrupts, rng);
    let got = guard("Seq::<String>::read", || Seq::<String>::read(&mut r)).map_err(f)?.map_err(|e| f(format!("reading text failed: {e}").into()))?;
    o.count("read calls served", r.calls as u64);
    o.count("interruptions served", r.interrupted as u64);
    if got.0.to_vec() != want {
        return Err(f(format!("text is not read as it is: {}", clip(&format!("{:?}", got.0), 3000)).into()));
    }
    let viastr = guard("Seq::from", || Seq::<String>::from(text.as_str())).map_err(f)?;
    if viastr.0.to_vec() != want {
        return Err(f(format!("text is not split as it should be: {}", clip(&format!("{:?}", viastr.0), 3000)).into()));
    }
    // a read error anywhere
    let at = if rng.chance(1, 3) { data.len() } else { rng.below(data.len() + 1) };
    let kind = *rng.pick(KINDS);
    let mut r = HostileReader::new(data, chunks, interrupts, rng);
    r.fail_at = Some((at, kind));
    if guard("Seq::<String>::read", || Seq::<String>::read(&mut r)).map_err(f)?.is_ok() {
        return Err(f(format!("a {kind:?} error after {at} bytes is not reported reading text").into()));
    }
    let mut r = HostileReader::new(data, chunks, interrupts, rng);
    r.fail_at = Some((at, kind));
    if guard("Seq::<u8>::read", || Seq::<u8>::read(&mut r)).map_err(f)?.is_ok() {
        return Err(f(format!("a {kind:?} error after {at} bytes is not reported reading bytes").into()));
    }
    o.count("read errors injected", 2);
    // invalid UTF-8 anywhere
    let mut bad = data.to_vec();
    let bit: &[u8] = match rng.below(4) {
        0 => &[0xff],
        1 => &[0xc3],
        2 => &[0xed, 0xa0, 0x80],
        _ => &[0x80],
    };
    let at = if rng.chance(1, 3) { bad.len() } else { rng.below(bad.len() + 1) };
    bad.splice(at..at, bit.iter().cloned());
    if std::str::from_utf8(&bad).is_err() {
        let mut r = HostileReader::new(&bad, chunks, interrupts, rng);
        if guard("Seq::<String>::read", || Seq::<String>::read(&mut r)).map_err(f)?.is_ok() {
            return Err(f(format!("{bit:?} at byte {at} is read as text").into()));
        }
        o.count("invalid UTF-8 texts", 1);
    }
    let mut r = HostileReader::new(&bad, chunks, interrupts, rng);
    let got = guard("Seq::<u8>::read", || Seq::<u8>::read(&mut r)).map_err(f)?.map_err(|e| f(format!("reading bytes failed: {e}").into()))?;
    if got.0.to_vec() != bad {
        return Err(f(format!("bytes are not read as they are ({})", diff_pos(&got.0, &bad)).into()));
    }
    // a document, failing anywhere
    o.sample = Some(clip(&head(), 300));
    Ok(o)
}

fn c12_doc_read(rng: &mut Rng) -> Verdict {
    let v = hand_made(rng);
    let doc = serde_json::to_vec_pretty(&v).unwrap();
    let at = if rng.chance(1, 4) { doc.len() } else { rng.below(doc.len() + 1) };
    let kind = *rng.pick(KINDS);
    let chunks = Chunks::any(rng);
    let mut r = HostileReader::new(&doc, chunks, true, rng);
    r.fail_at = Some((at, kind));
    let mut o = Outcome::new(&doc, true);
    if guard("from_reader", || Diff::from_reader(&mut r))?.is_ok() {
        return Err(format!("a {kind:?} error after {at} of {} bytes of a patch is not reported\n{v}", doc.len()).into());
    }
    o.count("read errors injected", 1);
    Ok(o)
}

/// Files on disk, through Diff::new and back out.
fn c12_files(rng: &mut Rng) -> Verdict {
    let dir = Scratch::new()?;
    let text = rng.chance(1, 2);
    let data = if text {
        sized_text(rng).into_bytes()
    } else {
        let n = *rng.pick(&[0usize, 1, 100, 8191, 8192, 8193, 30000]);
        let mut d = gen_bytes(rng, n, 0);
        if rng.chance(1, 2) {
            d.push(0xff);
        }
        d
    };
    let p = dir.put("x", &data)?;
    let mut o = Outcome::new(&data, !data.is_empty());
    let none = dir.path("none");
    let d = guard("Diff::new", || Diff::new(&p, &none, 2))?.map_err(|e| Fault::Bad(format!("Diff::new: {e}")))?;
    let is_text = std::str::from_utf8(&data).is_ok();
    let w = whole(&d)?;
    if w != data {
        return Err(format!("a {} of a file does not hold it ({})\ndata={}", KIND_NAMES[kind_of(&d)], diff_pos(&w, &data), clip(&format!("{data:?}"), 4000)).into());
    }
    if kind_of(&d) != if is_text { 2 } else { 5 } {
        return Err(format!("a file is taken as a {}\ndata={}", KIND_NAMES[kind_of(&d)], clip(&format!("{data:?}"), 4000)).into());
    }
    o.count(if is_text { "text files" } else { "byte files" }, 1);
    Ok(o)
}

/// Texts and byte strings far beyond any buffer: long lines, many lines, megabytes.
fn c12_big(rng: &mut Rng, i: usize) -> Verdict {
    const SIZES: [usize; 9] = [65_535, 65_536, 65_537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 24) - 1, (1 << 24) + 1, 20_000_000];
    let size = if i % 3 == 0 { SIZES[(i / 3) % SIZES.len()] } else { log_range(rng, 30_000, 3_000_000) };
    let mut text = String::with_capacity(size + 100);
    let one_line = rng.chance(1, 2);
    if rng.chance(1, 2) {
        text.push_str("first\n");
    }
    let unit = *rng.pick(&["x", "é", "日本", "a b", "0123456789"]);
    while text.len() + unit.len() <= size {
        text.push_str(unit);
        if !one_line && text.len() % 97 < 3 {
            text.push('\n');
        }
    }
    text.push_str(*rng.pick(&["", "\n", "\nlast", "\n\n", "é\n"]));
    let data = text.as_bytes();
    let mut o = Outcome::new(format!("{i} {} {one_line} {unit} {:?}", data.len(), data[data.len() - 8..].to_vec()).as_bytes(), true);
    let want = split_lines(&text);
    let head = || format!("{} bytes of text, {} lines, longest {}", data.len(), want.len(), want.iter().map(|l| l.len()).max().unwrap_or(0));
    let f = |x: Fault| ctx_of(x, &head());
    let chunks = if rng.chance(1, 2) { Chunks::All } else { Chunks::Fixed(100_000) };
    let mut r = HostileReader::new(data, chunks, true, rng);
    let got = guard("Seq::<String>::read", || Seq::<String>::read(&mut r)).map_err(f)?.map_err(|e| f(format!("reading text failed: {e}").into()))?;
    if got.0[..] != want[..] {
        return Err(f(format!("text is not read as it is: {} lines", got.len()).into()));
    }
    let mut r = HostileReader::new(data, chunks, true, rng);
    let got = guard("Seq::<u8>::read", || Seq::<u8>::read(&mut r)).map_err(f)?.map_err(|e| f(format!("reading bytes failed: {e}").into()))?;
    if got.0[..] != *data {
        return Err(f(format!("bytes are not read as they are: {} bytes ({})", got.len(), diff_pos(&got.0, data)).into()));
    }
    // as files, text and not, through a patch and back out
    let dir = Scratch::new()?;
    let mut bytes = data.to_vec();
    if rng.chance(1, 2) {
        bytes.push(0xff);
    }
    let p = dir.put("x", &bytes)?;
    let none = dir.path("none");
    let (d, add) = if rng.chance(1, 2) { (Diff::new(&p, &none, 2), false) } else { (Diff::new(&none, &p, 2), true) };
    let d = d.map_err(|e| f(Fault::Bad(format!("Diff::new: {e}"))))?;
    let kind = (if bytes.len() == data.len() { 1 } else { 4 }) + !add as usize;
    if kind_of(&d) != kind {
        return Err(f(format!("taken as a {}", KIND_NAMES[kind_of(&d)]).into()));
    }
    let w = whole(&d)?;
    if w != bytes {
        return Err(f(format!("a {} does not hold the file: {} bytes ({})", KIND_NAMES[kind], w.len(), diff_pos(&w, &bytes)).into()));
    }
    o.count("texts of more than a megabyte", (data.len() > 1 << 20) as u64);
    o.count("lines of more than a megabyte", want.iter().filter(|l| l.len() > 1 << 20).count() as u64);
    o.count("bytes read", 3 * data.len() as u64);
    Ok(o)
}

/// Tens of megabytes and millions of lines, in and out.
fn c12_huge(rng: &mut Rng, i: usize) -> Verdict {
    let n = (1usize << 26) + rng.below(1000);
    let mut data: Vec<u8> = Vec::with_capacity(n + 64);
    match i % 3 {
        // lines of hardly anything
        0 => {
            while data.len() < n / 6 {
                data.extend_from_slice(*rng.pick(&[&b"\n"[..], b"a\n", b"\n\n", b"bc\n"]));
            }
        }
        1 => {
            let mut k = 0usize;
            while data.len() < n {
                k += 1;
                data.extend_from_slice(format!("line {k} ").as_bytes());
                data.resize(data.len() + 60 + k % 977, b'.');
                data.push(b'\n');
            }
        }
        _ => {
            let mut k = rng.next() | 1;
            while data.len() < n {
                k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                data.extend_from_slice(&k.to_be_bytes());
            }
        }
    }
    let head = format!("{} bytes, kind {}", data.len(), i % 3);
    let f = |x: Fault| ctx_of(x, &head);
    let mut o = Outcome::new(head.as_bytes(), true);
    let chunks = || if i % 2 == 0 { Chunks::All } else { Chunks::Fixed(300_000) };
    let mut r = HostileReader::new(&data, chunks(), true, rng);
    let bytes = guard("Seq::<u8>::read", || Seq::<u8>::read(&mut r)).map_err(f)?.map_err(|e| f(format!("reading bytes failed: {e}").into()))?;
    if bytes.0[..] != data[..] {
        return Err(f(format!("bytes are not read as they are: {} bytes ({})", bytes.len(), diff_pos(&bytes.0, &data)).into()));
    }
    let mut w = HostileWriter::new(Chunks::Fixed(1 << 20), true, rng);
    guard("write_into", || bytes.write_into(&mut w, bytes.range_from(0))).map_err(f)?.map_err(|e| f(format!("writing bytes failed: {e}").into()))?;
    if w.got != data {
        return Err(f(format!("bytes are not written as they are ({})", diff_pos(&w.got, &data)).into()));
    }
    let mut w = HostileWriter::new(Chunks::Fixed(1 << 20), true, rng);
    guard("write_into_all_from", || bytes.write_into_all_from(&mut w, 5)).map_err(f)?.map_err(|e| f(format!("writing bytes failed: {e}").into()))?;
    if w.got != data[5..] {
        return Err(f(format!("bytes are not written as they are ({})", diff_pos(&w.got, &data[5..])).into()));
    }
    drop((w, bytes));
    o.count("bytes read", data.len() as u64);
    if i % 3 < 2 {
        let mut r = HostileReader::new(&data, chunks(), true, rng);
        let lines = guard("Seq::<String>::read", || Seq::<String>::read(&mut r)).map_err(f)?.map_err(|e| f(format!("reading text failed: {e}").into()))?;
        let mut pos = 0;
        for l in lines.iter() {
            let end = data[pos..].iter().position(|b| *b == b'\n').map_or(data.len(), |k| pos + k + 1);
            if l.as_bytes() != &data[pos..end] {
                return Err(f(format!("text is not read as it is: at byte {pos}").into()));
            }
            pos = end;
        }
        if pos != data.len() {
            return Err(f(format!("{pos} bytes of text are read").into()));
        }
        let mut w = HostileWriter::new(Chunks::Fixed(1 << 20), true, rng);
        guard("write_into", || lines.write_into(&mut w, lines.range_from(0))).map_err(f)?.map_err(|e| f(format!("writing text failed: {e}").into()))?;
        if w.got != data {
            return Err(f(format!("text is not written as it is ({})", diff_pos(&w.got, &data)).into()));
        }
        o.count("bytes read", data.len() as u64);
        o.count("lines read", lines.len() as u64);
    }
    o.count("contents of tens of megabytes", 1);
    Ok(o)
}

/// All ways to write something: full output first, then with a failure at some byte.
fn check_writer(rng: &mut Rng, what: &str, exhaustive: bool, o: &mut Outcome, write: &mut dyn FnMut(&mut HostileWriter) -> Result<(), String>) -> Result<(), Fault> {
    let mut full = HostileWriter::new(Chunks::All, false, rng);
    guard(what, || write(&mut full))?.map_err(|e| Fault::Bad(format!("{what}: failed writing to memory: {e}")))?;
    let full = full.got;
    for _ in 0..2 {
        let mut w = HostileWriter::new(Chunks::any(rng), true, rng);
        let chunks = w.chunks;
        guard(what, || write(&mut w))?.map_err(|e| Fault::Bad(format!("{what}: failed on a writer that takes {chunks:?} at a time and is interrupted: {e}")))?;
        if w.got != full {
            return Err(format!("{what}: output in pieces ({chunks:?}) differs ({})", diff_pos(&w.got, &full)).into());
        }
        o.count("write calls served", w.calls as u64);
        o.count("interruptions served", w.interrupted as u64);
    }
    if full.is_empty() {
        return Ok(());
    }
    let points: Vec<usize> = if exhaustive && full.len() <= 400 { (0..full.len()).collect() } else { (0..12).map(|k| if k == 0 { full.len() - 1 } else { rng.below(full.len()) }).collect() };
    for at in points {
        let mut w = HostileWriter::new(Chunks::any(rng), rng.chance(1, 2), rng);
        w.once = rng.chance(1, 2);
        let kind = if rng.chance(1, 5) { None } else { Some(*rng.pick(KINDS)) };
        w.fail_at = Some((at, kind));
        let r = guard(what, || write(&mut w))?;
        if r.is_ok() {
            return Err(format!("{what}: an error ({kind:?}, once={}) after {at} of {} bytes is not reported", w.once, full.len()).into());
        }
        if w.got.len() > full.len() || w.got[..] != full[..w.got.len()] {
            return Err(format!("{what}: after an error at byte {at} (once={}) what was written is no prefix of the output ({})\ngot={}", w.once, diff_pos(&w.got, &full), show_bytes(&w.got)).into());
        }
        o.count("write errors injected", 1);
    }
    Ok(())
}

fn c12_write(rng: &mut Rng, i: usize) -> Verdict {
    let exhaustive = i % 4 == 0;
    let (a, b) = some_pair(rng);
    let ctx = any_context(rng);
    let head = || show_pair(&a, &b, ctx);
    let f = |x: Fault| ctx_of(x, &head());
    let mut o = Outcome::new(head().as_bytes(), a != b);
    if let (Ok(x), Ok(y)) = (std::str::from_utf8(&a), std::str::from_utf8(&b)) {
        let (x, y) = (split_lines(x), split_lines(y));
        let patch = guard("making the patch", || text_patch(&x, &y, ctx)).map_err(f)?;
        let mut u = 7_000_000;
        let targets = [x.clone(), y.clone(), normalise(edit(rng, &x, 3, Alphabet::Unique, &mut u))];
        let reverse = rng.chance(1, 2);
        let t = seq(rng.pick(&targets));
        check_writer(rng, &format!("applying a text patch (reverse={reverse}) to {:?}", clip(&join(&t.0), 3000)), exhaustive, &mut o, &mut |w| patch.apply_into(&t, w, reverse).map(|_| ()).map_err(|e| e.to_string())).map_err(f)?;
    }
    // (byte patches of long repetitive texts take long to make)
    if a.len() + b.len() < 1500 {
        let patch = guard("making the patch", || byte_patch(&a, &b, ctx)).map_err(f)?;
        let targets = [a.clone(), b.clone(), edit_bytes(rng, &a, 2, 0)];
        let reverse = rng.chance(1, 2);
        let t = bseq(rng.pick(&targets));
        check_writer(rng, &format!("applying a byte patch (reverse={reverse}) to {:?}", clip(&format!("{:?}", t.0), 3000)), exhaustive, &mut o, &mut |w| patch.apply_into(&t, w, reverse).map(|_| ()).map_err(|e| e.to_string())).map_err(f)?;
    }
    o.sample = Some(clip(&head(), 300));
    Ok(o)
}

fn show_pair(a: &[u8], b: &[u8], ctx: u8) -> String {
    super::lib_core::show_pair_bytes(a, b, ctx)
}

fn c12_write_docs(rng: &mut Rng, i: usize) -> Verdict {
    let exhaustive = i % 3 == 0;
    let v = hand_made(rng);
    let head = clip(&v.to_string(), 3000);
    let f = |x: Fault| ctx_of(x, &head);
    let mut o = Outcome::new(head.as_bytes(), true);
    let d = read_doc(v.to_string().as_bytes())?.map_err(|e| f(format!("a complete patch document is rejected: {e}").into()))?;
    check_writer(rng, "writing a patch", exhaustive, &mut o, &mut |w| d.to_writer(w).map_err(|e| e.to_string())).map_err(f)?;
    match &d {
        Diff::TextChange(d) => check_writer(rng, "writing a text change", false, &mut o, &mut |w| d.to_writer(w).map_err(|e| e.to_string())).map_err(f)?,
        Diff::ByteChange(d) => check_writer(rng, "writing a byte change", false, &mut o, &mut |w| d.to_writer(w).map_err(|e| e.to_string())).map_err(f)?,
        Diff::TextAdd(p) | Diff::TextRemove(p) => check_writer(rng, "writing a text file", exhaustive, &mut o, &mut |w| p.write_into(w).map_err(|e| e.to_string())).map_err(f)?,
        Diff::ByteAdd(p) | Diff::ByteRemove(p) => check_writer(rng, "writing a byte file", exhaustive, &mut o, &mut |w| p.write_into(w).map_err(|e| e.to_string())).map_err(f)?,
    }
    Ok(o)
}

pub fn c12(c: &mut Ctx) {
    c.rule = "texts and byte strings through readers and writers that split, interrupt and fail (an error of several kinds at any byte, every byte for short outputs, once or for good): reading text, bytes and patches, applying patches, writing patches and added files; non-trivial: not empty; distinct by content".into();
    let c = &*c;
    c.stage("read", c.tier(60_000, 500_000), c.tier(14, 300), |rng, _| c12_read(rng));
    c.stage("read-document", c.tier(60_000, 500_000), c.tier(5, 100), |rng, _| c12_doc_read(rng));
    c.stage("files", c.tier(20_000, 50_000), c.tier(8, 100), |rng, _| c12_files(rng));
    c.stage("big", c.tier(90, 600), c.tier(25, 200), c12_big);
    c.stage_t("huge", c.tier(3, 12), c.tier(60, 200), 3, c12_huge);
    c.stage("apply", c.tier(12_000, 400_000), c.tier(14, 400), |rng, i| c12_write(rng, i));
    c.stage("documents", c.tier(40_000, 300_000), c.tier(8, 200), |rng, i| c12_write_docs(rng, i));
}
