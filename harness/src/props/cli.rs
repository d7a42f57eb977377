//! C13 to C16: the commands, run for real under the monitor.

use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
use pw_diff_lib::diff::Diff;

use super::lib_core::ctx_of;
use super::lib_io::*;
use crate::fx::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::run::{clip, guard, Ctx, Fault, Outcome, Verdict};
use crate::tool::*;
use crate::util::*;

pub fn hio(what: &str) -> impl Fn(std::io::Error) -> Fault + '_ {
    move |e| Fault::Harness(format!("{what}: {e}"))
}

pub fn is_text(b: &[u8]) -> bool {
    std::str::from_utf8(b).is_ok()
}

/// The patch takes each version to the other: its hunks, taken literally, say so.
fn literal_effect(d: &Diff, before: &[u8], after: &[u8]) -> Result<(), Fault> {
    // (start, items, start, items) in bytes
    type H = (usize, Vec<u8>, usize, Vec<u8>);
    let mut hs: Vec<H> = vec![];
    match d {
        Diff::TextChange(d) => {
            let (bl, al) = (std::str::from_utf8(before), std::str::from_utf8(after));
            let (Ok(bl), Ok(al)) = (bl, al) else { return Err("a text change for a file that is not text".into()) };
            let (bl, al) = (split_lines(bl), split_lines(al));
            let off = |ls: &[String], n: usize| -> Option<usize> { ls.get(..n).map(|x| x.iter().map(|l| l.len()).sum()) };
            for c in d.clumps() {
                let h = Hunk::of(c);
                let (Some(x), Some(y)) = (off(&bl, h.before_start), off(&al, h.after_start)) else {
                    return Err(format!("hunk {h:?} starts beyond the end").into());
                };
                hs.push((x, join(&h.before).into_bytes(), y, join(&h.after).into_bytes()));
            }
        }
        Diff::ByteChange(d) => hs.extend(d.clumps().map(clump_bytes)),
        _ => return Err(format!("not a change but a {}", KIND_NAMES[kind_of(d)]).into()),
    }
    let go = |from: &[u8], to: &[u8], hs: &[H]| -> Result<(), Fault> {
        let (mut out, mut at) = (vec![], 0);
        for (s, old, t, new) in hs {
            if *s < at || from.get(*s..s + old.len()) != Some(&old[..]) {
                return Err(format!("the hunk at byte {s} does not show what the file holds there: {}", show_bytes(old)).into());
            }
            out.extend_from_slice(&from[at..*s]);
            if out.len() != *t {
                return Err(format!("the hunk at byte {s} says byte {t} of the other file, but it is at {}", out.len()).into());
            }
            out.extend_from_slice(new);
            at = s + old.len();
        }
        out.extend_from_slice(&from[at..]);
        if out != to {
            return Err(format!("following the hunks does not give the other file ({})", diff_pos(&out, to)).into());
        }
        Ok(())
    };
    go(before, after, &hs)?;
    let flipped: Vec<H> = hs.into_iter().map(|(a, b, c, d)| (c, d, a, b)).collect();
    go(after, before, &flipped)
}

/// The document is the right patch for these two files.
pub fn check_doc(doc: &[u8], before: Option<&[u8]>, after: Option<&[u8]>, first: &Path) -> Result<Diff, Fault> {
    let d = read_doc(doc)?.map_err(|e| Fault::Bad(format!("standard output is not one complete patch document: {e}\nstdout={}", clip(&String::from_utf8_lossy(doc), 3000))))?;
    let want = match (before, after) {
        (Some(a), Some(b)) => if is_text(a) && is_text(b) { 0 } else { 3 },
        (None, Some(b)) => if is_text(b) { 1 } else { 4 },
        (Some(a), None) => if is_text(a) { 2 } else { 5 },
        (None, None) => return Err("a patch although neither file exists".into()),
    };
    if kind_of(&d) != want {
        return Err(format!("a {} where a {} is due", KIND_NAMES[kind_of(&d)], KIND_NAMES[want]).into());
    }
    if paths_of(&d)[0] != first.as_os_str() {
        return Err(format!("the path to patch is {:?}, not {first:?}", paths_of(&d)[0]).into());
    }
    match (before, after) {
        (Some(a), Some(b)) => literal_effect(&d, a, b)?,
        (a, b) => {
            let (w, want) = (whole(&d)?, a.or(b).unwrap());
            if w != want {
                return Err(format!("it does not hold the whole file ({})", diff_pos(&w, want)).into());
            }
        }
    }
    Ok(d)
}

/// The most and least context the hunks of a text change may show, and whether the document asks for it.
fn check_context(d: &Diff, ctx: usize) -> Result<(), Fault> {
    let lens: Vec<(usize, usize)> = match d {
        Diff::TextChange(d) => d.clumps().map(|c| Hunk::of(c).ctx).collect(),
        _ => return Ok(()),
    };
    for (a, b) in lens {
        if a > ctx || b > ctx {
            return Err(format!("hunks have up to {} items of context, {ctx} were asked for", a.max(b)).into());
        }
    }
    Ok(())
}

/// A path to give to the command and the same path as seen from here.
pub fn some_path(rng: &mut Rng, base: &Path, cwd: &Path, top: &str) -> (OsString, PathBuf) {
    let mut rel = PathBuf::from(top);
    for _ in 0..rng.below(3) {
        rel.push(*rng.pick(&["d", "sub dir", "é", "x.y"]));
    }
    let mut name: OsString = rng.pick(NAMES).into();
    if rng.chance(1, 12) {
        // up to the longest there may be
        let room = 255 - name.len();
        let len = if rng.chance(1, 2) { room - rng.below(12) } else { 200 };
        name.push("x".repeat(len.min(room)));
    }
    let mut real = base.join(&rel).join(&name);
    if rng.chance(1, 6) {
        // through a symbolic link to a directory elsewhere, perhaps up again from there
        let back = rng.chance(2, 3);
        let to = if back { "elsewhere/deep" } else { "elsewhere" };
        let link = base.join(top).join("via");
        let made = std::fs::create_dir_all(base.join(top).join("elsewhere/deep")).and_then(|_| std::os::unix::fs::symlink(to, &link));
        if made.is_ok() {
            rel = Path::new(top).join("via");
            if back {
                rel.push("..");
            }
            real = base.join(top).join("elsewhere").join(&name);
        }
    }
    rel.push(name);
    if rng.chance(1, 4) {
        // longer ways to the same place
        let mut v = vec![];
        for (i, c) in rel.components().enumerate() {
            if i > 0 {
                v.extend_from_slice(*rng.pick(&[&b"/"[..], b"/", b"//", b"/./", b"/.//./"]));
            }
            v.extend_from_slice(c.as_os_str().as_bytes());
        }
        rel = PathBuf::from(OsString::from_vec(v));
    }
    let given = if rng.chance(1, 3) {
        base.join(&rel).into_os_string()
    } else if cwd == base {
        match rng.below(4) {
            0 => Path::new(".").join(&rel).into_os_string(),
            1 => Path::new(top).join("..").join(&rel).into_os_string(),
            _ => rel.into_os_string(),
        }
    } else if let Ok(c) = cwd.strip_prefix(base) {
        let mut up = PathBuf::new();
        for _ in c.components() {
            up.push("..");
        }
        up.join(&rel).into_os_string()
    } else {
        real.clone().into_os_string()
    };
    (given, real)
}

pub fn put(p: &Path, b: &[u8]) -> Result<(), Fault> {
    if let Some(d) = p.parent() {
        std::fs::create_dir_all(d).map_err(hio("mkdir"))?;
    }
    std::fs::write(p, b).map_err(hio("writing a file"))?;
    // now and then a remarkable modification time
    use std::time::{Duration, SystemTime};
    let h = crate::rng::hash_bytes(b) ^ crate::rng::hash_bytes(p.file_name().unwrap_or_default().as_bytes());
    let time = match h % 16 {
        0 => SystemTime::UNIX_EPOCH,
        1 => SystemTime::UNIX_EPOCH - Duration::from_secs(86_400 * 365),
        2 => SystemTime::now() + Duration::from_secs(86_400 * 365 * 20),
        3 => SystemTime::UNIX_EPOCH + Duration::from_secs(1 << 31),
        4 => SystemTime::now() + Duration::from_secs(5),
        5 => SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000),
        _ => return Ok(()),
    };
    let _ = std::fs::File::options().write(true).open(p).and_then(|f| f.set_modified(time));
    Ok(())
}

pub fn mkdir(p: &Path) -> Result<(), Fault> {
    std::fs::create_dir_all(p).map_err(hio("mkdir"))
}

pub struct Stand {
    pub _dir: Scratch,
    pub tree: PathBuf,
    pub aux: PathBuf,
}

pub fn stand() -> Result<Stand, Fault> {
    let dir = Scratch::new()?;
    let (tree, aux) = (dir.path("t"), dir.path("aux"));
    mkdir(&tree)?;
    mkdir(&aux)?;
    Ok(Stand { _dir: dir, tree, aux })
}

pub fn context_args(rng: &mut Rng, ctx: Option<u8>) -> Vec<OsString> {
    let Some(c) = ctx else { return vec![] };
    match rng.below(4) {
        0 => vec!["-c".into(), c.to_string().into()],
        1 => vec![format!("-c{c}").into()],
        2 => vec!["--context".into(), c.to_string().into()],
        _ => vec![format!("--context={c}").into()],
    }
}

pub fn verbose_args(rng: &mut Rng) -> Vec<OsString> {
    match rng.below(6) {
        0 => vec!["-v".into()],
        1 => vec!["-vv".into()],
        2 => vec!["--verbose".into(), "-vvv".into()],
        _ => vec![],
    }
}

/// Options in any order around the operands.
pub fn with_operands(rng: &mut Rng, opts: Vec<OsString>, operands: &[&OsStr]) -> Vec<OsString> {
    let mut v = vec![];
    let dashed = operands.iter().any(|o| o.as_bytes().starts_with(b"-"));
    if !dashed && rng.chance(1, 3) {
        v.extend(operands.iter().map(|o| o.to_os_string()));
        v.extend(opts);
    } else {
        v.extend(opts);
        if dashed || rng.chance(1, 4) {
            v.push("--".into());
        }
        v.extend(operands.iter().map(|o| o.to_os_string()));
    }
    v
}

// ---------------------------------------------------------------- C13

/// Where programs like to keep things: directories that are looked at afterwards.
fn places(rng: &mut Rng, c: &mut Cmd, s: &Stand) -> Result<(), Fault> {
    let home = s.tree.join("home of the user");
    mkdir(&home)?;
    for name in ["TMPDIR", "HOME", "XDG_CACHE_HOME", "XDG_RUNTIME_DIR"] {
        if rng.chance(2, 3) {
            c.env.push((name, home.clone().into()));
        }
    }
    Ok(())
}

/// Run in a working directory that has been removed.
fn in_gone(c: &mut Cmd, s: &Stand) {
    c.wrap = ["/bin/bash", "-c", r#"mkdir -p "$G" && cd "$G" && rmdir "$G" && exec "$0" "$@""#].iter().map(|x| x.into()).collect();
    c.env.push(("G", s.aux.join("gone").into()));
}

fn c13_files(rng: &mut Rng, i: usize) -> Verdict {
    let s = stand()?;
    let cwd = match rng.below(4) {
        0 => s.tree.join("work/er"),
        1 => PathBuf::from("/"),
        _ => s.tree.clone(),
    };
    if cwd != Path::new("/") {
        mkdir(&cwd)?;
    }
    let missing = *rng.pick(&[0, 0, 0, 0, 1, 2, 3]);
    let (mut a, mut b) = some_pair(rng);
    if i % 40 == 7 {
        // larger than any buffer
        a = (0..9000).flat_map(|k| format!("line {k} {}\n", k * k % 97).into_bytes()).collect();
        b = a.clone();
        b.splice(50_000..50_010, *b"\nelsewhere");
        if i % 80 == 7 {
            a = gen_bytes(rng, 9000, 2);
            a.push(0xff);
            b = edit_bytes(rng, &a, 3, 2);
        }
    }
    if i % 25 == 11 {
        // one long file, a short one
        a = late_spot(rng, 300_000);
        b = if rng.chance(1, 2) { late_spot(rng, 200) } else { a[..rng.below(a.len().min(500))].to_vec() };
        // (byte by byte, with the same byte everywhere, it would take minutes)
        let mut n = [0usize; 256];
        a.iter().for_each(|x| n[*x as usize] += 1);
        while b.iter().map(|x| n[*x as usize]).sum::<usize>() > 300_000 {
            b.truncate(b.len() / 2);
        }
        if rng.chance(1, 2) {
            std::mem::swap(&mut a, &mut b);
        }
    }
    if rng.chance(1, 12) && i % 25 != 11 {
        b = a.clone();
    }
    let (mut ga, mut pa) = some_path(rng, &s.tree, &cwd, "old");
    let (mut gb, mut pb) = some_path(rng, &s.tree, &cwd, "new");
    if rng.chance(1, 12) && cwd == s.tree {
        // the name that often stands for standard input
        let (g, p) = if rng.chance(1, 2) { (&mut ga, &mut pa) } else { (&mut gb, &mut pb) };
        *g = "-".into();
        *p = cwd.join("-");
    }
    // names that a document cannot hold
    let mut odd = false;
    for (g, p) in [(&mut ga, &mut pa), (&mut gb, &mut pb)] {
        if rng.chance(1, 20) && p.file_name().is_some_and(|n| n.len() < 250) {
            odd = true;
            for x in [&mut *g, p.as_mut_os_string()] {
                x.push(OsStr::from_bytes(b"\xff\xe9"));
            }
        }
    }
    if missing & 1 == 0 {
        put(&pa, &a)?;
    } else {
        mkdir(&s.tree.join("old"))?;
    }
    if missing & 2 == 0 {
        put(&pb, &b)?;
    } else {
        mkdir(&s.tree.join("new"))?;
    }
    let ctx = if rng.chance(1, 3) { None } else { Some(any_context(rng)) };
    let mut opts = context_args(rng, ctx);
    opts.extend(verbose_args(rng));
    let mut c = Cmd::new("pw_diff", &cwd, &s.aux);
    c.dress(rng);
    c.args = with_operands(rng, opts, &[&ga, &gb]);
    if rng.chance(1, 5) {
        c.env.push(("RAYON_NUM_THREADS", rng.range(1, 9).to_string().into()));
    }
    places(rng, &mut c, &s)?;
    let gone = Path::new(&ga).is_absolute() && Path::new(&gb).is_absolute() && rng.chance(1, 3);
    if gone {
        in_gone(&mut c, &s);
    }
    let head = format!("{}\nbefore={}\nafter={}", c.show(), if missing & 1 == 0 { show_bytes(&a) } else { "(no file)".into() }, if missing & 2 == 0 { show_bytes(&b) } else { "(no file)".into() });
    let f = |x: Fault| ctx_of(x, &head);
    let t0 = snapshot(&s.tree)?;
    let r = c.run().map_err(f)?;
    if let Some(x) = changed(&t0, &snapshot(&s.tree)?, &[]) {
        return Err(f(x.into()));
    }
    let mut o = Outcome::new(head.as_bytes(), missing != 0 || a != b);
    o.count("in a working directory that was removed", gone as u64);
    if missing == 3 {
        if !r.failed() {
            return Err(f(format!("neither file exists: {}", r.how()).into()));
        }
        if !r.out.is_empty() {
            return Err(f(format!("neither file exists, yet it wrote {}", show_bytes(&r.out)).into()));
        }
        o.count("refused: neither file", 1);
        return Ok(o);
    }
    if odd && r.failed() {
        o.count("refused: a name that is not UTF-8", 1);
        return Ok(o);
    }
    if !r.ok() {
        return Err(f(format!("it failed on readable files: {}", r.how()).into()));
    }
    let before = (missing & 1 == 0).then_some(&a[..]);
    let after = (missing & 2 == 0).then_some(&b[..]);
    let d = check_doc(&r.out, before, after, Path::new(&ga)).map_err(f)?;
    let n = ctx.unwrap_or(2);
    check_context(&d, n as usize).map_err(f)?;
    if missing == 0 {
        if paths_of(&d)[1] != gb {
            return Err(f(format!("the other path is {:?}", paths_of(&d)[1]).into()));
        }
        // as much context as asked for: what the library makes of the same files
        let want = guard("Diff::new", || Diff::new(&pa, &pb, n)).map_err(f)?.map_err(|e| f(format!("Diff::new failed: {e}").into()))?;
        let same = match (&d, &want) {
            (Diff::TextChange(x), Diff::TextChange(y)) => x.clumps().map(Hunk::of).eq(y.clumps().map(Hunk::of)),
            (Diff::ByteChange(x), Diff::ByteChange(y)) => x.clumps().map(clump_bytes).eq(y.clumps().map(clump_bytes)),
            _ => false,
        };
        if !same {
            return Err(f(format!("not the hunks that the library makes with {n} items of context").into()));
        }
    }
    o.count(["text changes", "text additions", "text removals", "byte changes", "byte additions", "byte removals"][kind_of(&d)], 1);
    o.count("document bytes checked", r.out.len() as u64);
    o.sample = Some(clip(&head, 300));
    Ok(o)
}

/// Inputs that cannot be read, or arguments that make no sense.
fn c13_refuse(rng: &mut Rng, i: usize, nobody: bool) -> Verdict {
    let s = stand()?;
    let d = &s.tree;
    put(&d.join("text"), b"a\nb\nc\n")?;
    put(&d.join("bytes"), b"a\xff\n")?;
    mkdir(&d.join("dir"))?;
    put(&d.join("secret"), b"s\n")?;
    put(&d.join("locked/file"), b"s\n")?;
    symlink("loop", d.join("loop")).map_err(hio("symlink"))?;
    symlink("dir", d.join("todir")).map_err(hio("symlink"))?;
    for (p, m) in [("secret", 0o000), ("locked", 0o000)] {
        std::fs::set_permissions(d.join(p), std::fs::Permissions::from_mode(m)).map_err(hio("chmod"))?;
    }
    let long = "n".repeat(300);
    let good = ["text", "bytes", "no-such-file"];
    let mut bad: Vec<&str> = vec!["dir", "todir", "loop", &long];
    let mut c = Cmd::new("pw_diff", d, &s.aux);
    c.dress(rng);
    if nobody && rng.chance(1, 2) {
        c.uid = Some(65534);
        bad = vec!["secret", "locked/file", "dir"];
    }
    let usage = !nobody && i % 5 == 4;
    let what = if usage {
        let u: &[&[&str]] = &[&[], &["text"], &["text", "bytes", "text"], &["-c", "256", "text", "bytes"], &["-c", "-1", "text", "bytes"], &["-c", "x", "text", "bytes"], &["--frobnicate", "text", "bytes"], &["text", "bytes", "-c"], &["-c", "", "text", "bytes"]];
        c.args = rng.pick(u).iter().map(|x| x.into()).collect();
        "arguments make no sense"
    } else {
        let x = *rng.pick(&bad);
        let y = if rng.chance(1, 3) { *rng.pick(&bad) } else { *rng.pick(&good) };
        let mut ops = [OsStr::new(x), OsStr::new(y)];
        if rng.chance(1, 2) {
            ops.swap(0, 1);
        }
        let opts = verbose_args(rng);
        c.args = with_operands(rng, opts, &ops);
        "an input cannot be read"
    };
    let head = c.show();
    let f = |x: Fault| ctx_of(x, &head);
    // snapshot needs the locked directory open
    std::fs::set_permissions(d, std::fs::Permissions::from_mode(0o755)).map_err(hio("chmod"))?;
    let t0 = snapshot(d)?;
    let r = c.run().map_err(f)?;
    if let Some(x) = changed(&t0, &snapshot(d)?, &[]) {
        return Err(f(x.into()));
    }
    if !r.failed() {
        return Err(f(format!("{what}, but {}\nstdout={}", r.how(), show_bytes(&r.out)).into()));
    }
    let mut o = Outcome::new(format!("{:?}", c.args).as_bytes(), true);
    o.count(if usage { "refused: usage" } else if c.uid.is_some() { "refused: unreadable for this user" } else { "refused: unreadable" }, 1);
    o.sample = Some(clip(&head, 200));
    Ok(o)
}

/// Standard output that does not take the whole document.
fn c13_output(rng: &mut Rng, i: usize) -> Verdict {
    let s = stand()?;
    let (mut a, mut b) = some_pair(rng);
    let cut = i % 5 == 4;
    if cut {
        // a document that no pipe holds
        let n = rng.range(20_000, 60_000);
        a = (0..n).flat_map(|k| format!("line {k}\n").into_bytes()).collect();
        b = (0..n / 2).flat_map(|k| format!("other {k}\n").into_bytes()).collect();
        if rng.chance(1, 3) {
            a.push(0xff);
            a.drain(..a.len() - 15_000);
        }
    }
    put(&s.tree.join("x"), &a)?;
    if i % 4 != 0 && !(cut && !is_text(&a)) {
        put(&s.tree.join("y"), &b)?;
    }
    let mut c = Cmd::new("pw_diff", &s.tree, &s.aux).arg("x").arg("y");
    c.out = if cut { Out::Cut(rng.below(20_000)) } else { [Out::Full, Out::Closed, Out::ReadOnly][i % 3] };
    let head = c.show();
    let f = |x: Fault| ctx_of(x, &head);
    let t0 = snapshot(&s.tree)?;
    let r = c.run().map_err(f)?;
    if let Some(x) = changed(&t0, &snapshot(&s.tree)?, &[]) {
        return Err(f(x.into()));
    }
    if r.ok() {
        return Err(f(format!("the document could not all be written, but {}", r.how()).into()));
    }
    let mut o = Outcome::new(&[&a[..], b"|", &b[..]].concat(), true);
    o.count(match c.out { Out::Full => "failed: full device", Out::Cut(_) => "failed: reader went away half-way", Out::ReadOnly => "failed: output not open for writing", _ => "failed: closed pipe" }, 1);
    Ok(o)
}

/// Files that can be read only once, from the start: pipes.
fn c13_pipes(rng: &mut Rng, i: usize) -> Verdict {
    let s = stand()?;
    let (mut a, mut b) = some_pair(rng);
    if i % 8 == 5 {
        // more than a pipe holds
        a = (0..9000).flat_map(|k| format!("line {k}\n").into_bytes()).collect();
        b = a.clone();
        b.splice(50_000..50_010, *b"\nelsewhere");
        if i % 16 == 5 {
            // (few bytes in common, so soon compared)
            a = (0..70_000usize).map(|k| (k * k % 97) as u8).collect();
            b = vec![0xff; 70_000];
            b[rng.below(70_000)] = 5;
        }
    }
    put(&s.aux.join("a"), &a)?;
    put(&s.aux.join("b"), &b)?;
    put(&s.tree.join("a"), &a)?;
    put(&s.tree.join("b"), &b)?;
    let none = "no such file";
    let (script, first, second): (&str, Option<&str>, Option<&str>) = match i % 7 {
        0 => (r#"exec "$0" "$@" <(cat "$A") b"#, None, Some("b")),
        1 => (r#"exec "$0" "$@" a <(cat "$B")"#, Some("a"), None),
        2 => (r#"exec "$0" "$@" <(cat "$A") <(cat "$B")"#, None, None),
        3 => (r#"cat "$A" | "$0" "$@" /dev/stdin b"#, Some("/dev/stdin"), Some("b")),
        4 => (r#"cat "$B" | "$0" "$@" ./a /dev/stdin"#, Some("./a"), Some("/dev/stdin")),
        5 => (r#"cat "$B" | "$0" "$@" "no such file" /dev/stdin"#, Some(none), Some("/dev/stdin")),
        _ => (r#"cat "$A" | "$0" "$@" /dev/stdin "no such file""#, Some("/dev/stdin"), Some(none)),
    };
    let mut c = Cmd::new("pw_diff", &s.tree, &s.aux);
    c.wrap = ["/usr/bin/timeout", "100", "/bin/bash", "-c", script].iter().map(|x| x.into()).collect();
    c.env.push(("A", s.aux.join("a").into()));
    c.env.push(("B", s.aux.join("b").into()));
    let ctx = any_context(rng);
    c.args = context_args(rng, Some(ctx));
    let head = format!("{} {script}\nbefore={}\nafter={}", c.show(), show_bytes(&a), show_bytes(&b));
    let f = |x: Fault| ctx_of(x, &head);
    let t0 = snapshot(&s.tree)?;
    let r = c.run().map_err(f)?;
    if let Some(x) = changed(&t0, &snapshot(&s.tree)?, &[]) {
        return Err(f(x.into()));
    }
    if r.code == Some(124) {
        return Err(f("it is waiting for input that it had already been given".into()));
    }
    let before = (first != Some(none)).then_some(&a[..]);
    let after = (second != Some(none)).then_some(&b[..]);
    let mut o = Outcome::new(head.as_bytes(), a != b);
    if r.failed() {
        // it may not want to read pipes at all, but must not say so only when it is too late
        if !r.out.is_empty() || r.err.is_empty() {
            return Err(f(format!("it failed but wrote {} and says {:?}", show_bytes(&r.out), r.err).into()));
        }
        return Err(f(format!("it failed on readable files: {}", r.how()).into()));
    }
    let d = read_doc(&r.out)?.map_err(|e| f(format!("standard output is not one complete patch document: {e}").into()))?;
    let path = paths_of(&d)[0];
    if !first.map_or(Path::new(&path).starts_with("/dev/fd"), |x| x == path) {
        return Err(f(format!("the path to patch is {path:?}").into()));
    }
    check_doc(&r.out, before, after, Path::new(&path)).map_err(f)?;
    check_context(&d, ctx as usize).map_err(f)?;
    o.count("files read from pipes", 1);
    o.count(["text changes", "text additions", "text removals", "byte changes", "byte additions", "byte removals"][kind_of(&d)], 1);
    o.sample = Some(clip(&head, 300));
    Ok(o)
}

/// Files of many megabytes.
/// Names and sizes of everything there.
fn listing(d: &Path) -> Result<Vec<(PathBuf, u64)>, Fault> {
    let mut v = vec![];
    for e in std::fs::read_dir(d).map_err(hio("read_dir"))?.flatten() {
        let m = e.path().symlink_metadata().map_err(hio("stat"))?;
        v.push((e.path(), if m.is_dir() { 0 } else { m.len() }));
        if m.is_dir() {
            v.extend(listing(&e.path())?);
        }
    }
    v.sort();
    Ok(v)
}

fn c13_big(rng: &mut Rng, i: usize) -> Verdict {
    let s = stand()?;
    let n = [9usize << 20, 17 << 20, 33 << 20][i / 6 % 3] + rng.below(100_000);
    // few long lines: how the lines are compared is not the point here
    let long = rng.range(50_000, 300_000);
    let mut a: Vec<u8> = vec![];
    let mut k = 0usize;
    while a.len() < n {
        k += 1;
        a.extend_from_slice(format!("{k} ").as_bytes());
        a.resize(a.len() + long, b'a' + (k % 26) as u8);
        if k % 7 == 0 {
            a.extend_from_slice("\u{e9}\u{65e5}\u{1f600}".as_bytes());
        }
        a.push(b'\n');
    }
    let mut b = a.clone();
    let at = rng.below(b.len());
    let at = (at..b.len()).find(|k| b[*k].is_ascii()).unwrap_or(0);
    b.splice(at..at, *b"changed\n");
    let kind = i % 6;
    let (mut before, mut after) = match kind {
        0 | 1 | 2 | 5 => (Some(a), Some(b)),
        3 => (None, Some(b)),
        _ => (Some(a), None),
    };
    if kind == 2 {
        std::mem::swap(&mut before, &mut after);
    }
    if kind == 5 {
        // the end of one of them is no text; so few bytes differ, and so few are alike, that they are soon compared
        let mut x: Vec<u8> = (0..250_000usize).flat_map(|k| [(k % 100) as u8, (k / 100 % 100) as u8, (k / 10_000) as u8]).collect();
        x.truncate(60_000);
        before = Some(x);
        let mut y = vec![0xfe; 300_000];
        y.push(0xff);
        after = Some(y);
    }
    for (name, v) in [("x", &before), ("y", &after)] {
        if let Some(v) = v {
            put(&s.tree.join(name), v)?;
        }
    }
    let mut c = Cmd::new("pw_diff", &s.tree, &s.aux).arg("x").arg("y");
    places(rng, &mut c, &s)?;
    let t0: Vec<_> = listing(&s.tree)?;
    let head = format!("{} sizes {:?} {:?}", c.show(), before.as_ref().map(|x| x.len()), after.as_ref().map(|x| x.len()));
    let f = |x: Fault| ctx_of(x, &head);
    let r = c.run().map_err(f)?;
    if !r.ok() {
        return Err(f(format!("it failed on readable files: {}", r.how()).into()));
    }
    let t1 = listing(&s.tree)?;
    if t1 != t0 {
        return Err(f(format!("it touched files: {t0:?}, now {t1:?}").into()));
    }
    let d = check_doc(&r.out, before.as_deref(), after.as_deref(), Path::new("x")).map_err(f)?;
    check_context(&d, 2).map_err(f)?;
    let mut o = Outcome::new(head.as_bytes(), true);
    o.count("files of many megabytes", 1);
    o.sample = Some(head.clone());
    Ok(o)
}

/// Which events to put faults at: all of them, but of a long run of the same call on the same file only some.
pub fn chosen(rng: &mut Rng, log: &[Event]) -> Vec<Event> {
    let mut out = vec![];
    let mut i = 0;
    while i < log.len() {
        let mut j = i;
        while j < log.len() && log[j].op == log[i].op && log[j].path == log[i].path {
            j += 1;
        }
        if j - i <= 6 {
            out.extend_from_slice(&log[i..j]);
        } else {
            let mut ks = vec![i, i + 1, j - 2, j - 1];
            ks.push(rng.range(i + 2, j - 3));
            ks.push(rng.range(i + 2, j - 3));
            ks.sort();
            ks.dedup();
            out.extend(ks.into_iter().map(|k| log[k].clone()));
        }
        i = j;
    }
    out
}

const EIO: i32 = 5;
const EINTR: i32 = 4;
const EACCES: i32 = 13;
const ENOSPC: i32 = 28;
const EMFILE: i32 = 24;
const EROFS: i32 = 30;
const EPERM: i32 = 1;
const EXDEV: i32 = 18;
const EDQUOT: i32 = 122;

pub fn errors_for(op: &str) -> &'static [i32] {
    match op {
        "open-r" => &[EACCES, EMFILE, EIO],
        "open-w" | "open-x" | "open-t" => &[EACCES, ENOSPC, EROFS],
        "read" => &[EIO, EACCES],
        "write" => &[ENOSPC, EIO, EDQUOT],
        "rename" => &[EXDEV, EACCES, ENOSPC, EIO],
        "unlink" => &[EACCES, EIO, EROFS],
        "stat" => &[EACCES, EIO],
        "chmod" | "chown" => &[EPERM, EIO],
        _ => &[EIO],
    }
}

/// Every event of a run of pw_diff fails in turn, or transfers less than asked for.
fn c13_faults(rng: &mut Rng, i: usize) -> Verdict {
    let s = stand()?;
    let d = &s.tree;
    let text = i % 2 == 0;
    let which = i / 2 % 3;
    let (a, b) = loop {
        let (a, b) = some_pair(rng);
        if (is_text(&a) && is_text(&b)) == text && a.len() < 3000 && b.len() < 3000 {
            break (a, b);
        }
    };
    if which != 1 {
        put(&d.join("x"), &a)?;
    }
    if which != 2 {
        put(&d.join("y"), &b)?;
    }
    let before = (which != 1).then_some(&a[..]);
    let after = (which != 2).then_some(&b[..]);
    let mut c = Cmd::new("pw_diff", d, &s.aux).arg("x").arg("y");
    c.roots = vec![d.clone()];
    c.log = true;
    c.log_stdout = true;
    let head = format!("{}\nbefore={}\nafter={}", c.show(), before.map_or("(no file)".into(), show_bytes), after.map_or("(no file)".into(), show_bytes));
    let f = |x: Fault| ctx_of(x, &head);
    let t0 = snapshot(d)?;
    let base = c.run().map_err(f)?;
    if !base.ok() {
        return Err(f(format!("it failed without any fault: {}", base.how()).into()));
    }
    check_doc(&base.out, before, after, Path::new("x")).map_err(f)?;
    let mut o = Outcome::new(head.as_bytes(), true);
    if let Some(e) = base.log.iter().find(|e| !matches!(e.op.as_str(), "open-r" | "read" | "stat" | "close" | "write") || (e.op == "write" && e.path != "<stdout>")) {
        return Err(f(format!("it did {} on {}", e.op, e.path).into()));
    }
    if !base.log.iter().any(|e| e.op == "write") || !base.log.iter().any(|e| e.op == "read") {
        return Err(Fault::Harness(format!("the monitor saw nothing: {:?}", base.log)));
    }
    o.count("system calls monitored", base.log.len() as u64);
    c.log = false;
    for e in chosen(rng, &base.log) {
        let mut acts: Vec<(String, bool)> = errors_for(&e.op).iter().map(|x| (format!("{}e{x}", e.n), false)).collect();
        if e.op == "write" {
            acts.push((format!("{}+e{ENOSPC}", e.n), false));
            acts.push((format!("{}s1", e.n), true));
            acts.push((format!("{}+s3", e.n), true));
            acts.push((format!("{}e{EINTR}", e.n), true));
            if e.size > 1 {
                acts.push((format!("{}s{},{}e{ENOSPC}", e.n, e.size / 2, e.n + 1), false));
            }
        }
        if e.op == "read" {
            acts.push((format!("{}s1", e.n), true));
            acts.push((format!("{}+s5", e.n), true));
            acts.push((format!("{}e{EINTR}", e.n), true));
        }
        for (act, harmless) in acts {
            c.faults = act.clone();
            let g = |x: Fault| f(ctx_of(x, &format!("fault {act} (event {} {})", e.op, e.path)));
            let r = c.run().map_err(g)?;
            if let Some(x) = changed(&t0, &snapshot(d)?, &[]) {
                return Err(g(x.into()));
            }
            if r.signal.is_some() {
                return Err(g(format!("it crashed: {}", r.how()).into()));
            }
            if r.ok() {
                if r.out != base.out {
                    check_doc(&r.out, before, after, Path::new("x")).map_err(g)?;
                }
                o.count(if harmless { "short or interrupted calls survived" } else { "failing calls survived" }, 1);
            } else {
                if harmless {
                    return Err(g(format!("a short or interrupted call made it fail: {}", r.how()).into()));
                }
                o.count("failing calls reported", 1);
            }
        }
    }
    o.sample = Some(clip(&head, 300));
    Ok(o)
}

pub fn c13(c: &mut Ctx) {
    c.rule = "a distinct case is one pair of files with its paths, options and fault site; non-trivial: the files differ or the run must fail".into();
    if let Err(Fault::Harness(e) | Fault::Bad(e)) = need_tools() {
        return c.harness_error(&e);
    }
    let nobody = can_drop_privileges();
    c.note("can run as an unprivileged user", nobody as u64);
    c.stage("files", c.tier(2500, 40_000), c.tier(25, 900), c13_files);
    c.stage("refuse", c.tier(300, 3000), c.tier(10, 200), |r, i| c13_refuse(r, i, false));
    if nobody {
        c.stage("refuse-user", c.tier(150, 1500), c.tier(10, 200), |r, i| c13_refuse(r, i, true));
    }
    c.stage("output", c.tier(200, 2000), c.tier(10, 200), c13_output);
    c.stage("pipes", c.tier(210, 4000), c.tier(10, 300), c13_pipes);
    c.stage("big", c.tier(18, 90), c.tier(40, 300), c13_big);
    c.stage("faults", c.tier(42, 900), c.tier(30, 1200), c13_faults);
}

// ---------------------------------------------------------------- C14

const MODES: &[u32] = &[0o644, 0o600, 0o755, 0o444, 0o666, 0o640, 0o400, 0o700, 0o664, 0o777, 0o404, 0o1644, 0o1755, 0o1700, 0o511, 0o4755, 0o2750, 0o6711, 0o7777];

/// Some mode. The system may drop the set-id bits of a file that is written to, unless the writer is privileged.
fn a_mode(rng: &mut Rng) -> u32 {
    use std::sync::OnceLock;
    static KEPT: OnceLock<bool> = OnceLock::new();
    let kept = *KEPT.get_or_init(|| {
        let probe = || -> Option<bool> {
            let d = Scratch::new().ok()?;
            let p = d.path("probe");
            let mut f = std::fs::File::create(&p).ok()?;
            f.set_permissions(std::fs::Permissions::from_mode(0o6755)).ok()?;
            std::io::Write::write_all(&mut f, b"x").ok()?;
            drop(f);
            Some(p.metadata().ok()?.permissions().mode() & 0o7777 == 0o6755)
        };
        probe().unwrap_or(false)
    });
    let m = *rng.pick(MODES);
    if kept {
        m
    } else {
        m & 0o1777
    }
}

/// Files, a patch from one to the other (of any kind) made by the real command or the library.
pub fn make_patch(rng: &mut Rng, given: &OsStr, real: &Path, old: Option<&[u8]>, new: Option<&[u8]>, s: &Stand, cwd: &Path) -> Result<Vec<u8>, Fault> {
    // the other version is elsewhere, or beside the file; it may be there still when the patch is used
    let name = "other version";
    let mut other = s.aux.join(name);
    let mut other_given = other.clone().into_os_string();
    let near = rng.chance(1, 3);
    if near {
        other = real.with_file_name(name);
        other_given = Path::new(given).with_file_name(name).into_os_string();
    }
    let _ = std::fs::remove_file(&other);
    if let Some(n) = new {
        put(&other, n)?;
    }
    if let Some(b) = old {
        put(real, b)?;
    } else {
        let _ = std::fs::remove_file(real);
    }
    let ctx = any_context(rng);
    let mut c = Cmd::new("pw_diff", cwd, &s.aux);
    c.args = with_operands(rng, context_args(&mut Rng::new(ctx as u64), Some(ctx)), &[given, &other_given]);
    let r = c.run()?;
    if near {
        match rng.below(3) {
            0 => {
                let _ = std::fs::remove_file(&other);
            }
            1 => put(&other, old.unwrap_or(b"of no concern\n"))?,
            _ => (),
        }
    }
    if !r.ok() {
        return Err(Fault::Bad(format!("no patch could be made: {} {}", c.show(), r.how())));
    }
    check_doc(&r.out, old, new, Path::new(given)).map_err(|x| ctx_of(x, &c.show()))?;
    Ok(r.out)
}

pub fn set_mode(p: &Path, m: u32) -> Result<(), Fault> {
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).map_err(hio("chmod"))
}

/// One run of pw_patch: the target goes from one version to another, nothing else changes.
#[allow(clippy::too_many_arguments)]
fn patch_step(c: &Cmd, watch: &[&Path], target: &Path, from: Option<&[u8]>, to: Option<&[u8]>, what: &str, o: &mut Outcome) -> Result<(), Fault> {
    let before: Vec<Tree> = watch.iter().map(|w| snapshot(w)).collect::<Result<_, _>>()?;
    let mode = std::fs::symlink_metadata(target).ok().map(|m| m.permissions().mode() & 0o7777);
    let owner = std::fs::symlink_metadata(target).ok().map(|m| (m.uid(), m.gid()));
    let head = format!("{what}: {}\ntarget held {}\nit should hold {}", c.show(), from.map_or("(no file)".into(), show_bytes), to.map_or("(no file)".into(), show_bytes));
    let f = |x: Fault| ctx_of(x, &head);
    let r = c.run().map_err(f)?;
    for (w, t0) in watch.iter().zip(&before) {
        if let Some(x) = changed(t0, &snapshot(w)?, &[target]) {
            return Err(f(format!("{x}\n{}", r.how()).into()));
        }
    }
    if !r.ok() {
        return Err(f(format!("it failed: {}", r.how()).into()));
    }
    match (std::fs::read(target), to) {
        (Ok(got), Some(want)) => {
            if got != want {
                return Err(f(format!("wrong contents ({}): {}", diff_pos(&got, want), show_bytes(&got)).into()));
            }
            let m = std::fs::symlink_metadata(target).map_err(hio("stat"))?;
            if !m.file_type().is_file() {
                return Err(f("the target is no file any more".into()));
            }
            if from.is_some() && Some(m.permissions().mode() & 0o7777) != mode {
                return Err(f(format!("its mode was {:o} and is {:o}", mode.unwrap_or(0), m.permissions().mode() & 0o7777).into()));
            }
            if let (Some(_), Some(mode), Some((_, gid))) = (from, mode, owner) {
                // nobody may read what they could not before, wherever it is for the time being
                for e in r.log.iter().filter(|e| e.op == "mode") {
                    let (m, g) = (e.size as u32, e.errno as u32);
                    if m & 0o004 & !mode != 0 || m & 0o040 != 0 && !(mode & 0o040 != 0 && g == gid || mode & 0o004 != 0) {
                        return Err(f(format!("contents of a file of mode {mode:o}, group {gid}, are for a while in {:?} with mode {m:o}, group {g} (event {})", e.path, e.n).into()));
                    }
                    o.count("observations of who may read the contents", 1);
                }
            }
            if from.is_some() && Some((m.uid(), m.gid())) != owner {
                return Err(f(format!("its owner and group were {owner:?} and are {:?}", (m.uid(), m.gid())).into()));
            }
        }
        (Err(e), Some(_)) => return Err(f(format!("the target cannot be read: {e}").into())),
        (Ok(_), None) => return Err(f("the target still exists".into())),
        (Err(_), None) => {
            if std::fs::symlink_metadata(target).is_ok() {
                return Err(f("the target still exists".into()));
            }
        }
    }
    o.count("runs of pw_patch checked", 1);
    Ok(())
}

fn c14_case(rng: &mut Rng, i: usize, shm: Option<&Path>) -> Verdict {
    let s = stand()?;
    // where the file is, where the command runs
    let far = match shm {
        Some(root) if rng.chance(1, 3) => Some(Scratch::under(root)?),
        _ => None,
    };
    let swap = rng.chance(1, 2);
    let (base, cwd) = match (&far, rng.below(4)) {
        (Some(x), _) if swap => (x.0.clone(), s.tree.clone()),
        (Some(x), _) => (s.tree.clone(), x.0.clone()),
        (None, 0) => (s.tree.clone(), s.tree.join("work/er")),
        (None, 1) => (s.tree.clone(), PathBuf::from("/")),
        _ => (s.tree.clone(), s.tree.clone()),
    };
    if cwd != Path::new("/") {
        mkdir(&cwd)?;
    }
    let (mut given, mut real) = some_path(rng, &base, &cwd, "dir");
    if rng.chance(1, 25) && cwd == base {
        given = "-".into();
        real = cwd.join("-");
    }
    mkdir(real.parent().unwrap())?;
    // neighbours that must not be touched
    for n in ["neighbour", ".hidden", "dir.orig", "x.rej"] {
        put(&real.parent().unwrap().join(n), n.as_bytes())?;
    }
    put(&s.tree.join("top"), b"top")?;
    // versions
    let (mut a, mut b) = some_pair(rng);
    if i % 50 == 9 {
        a = (0..6000).flat_map(|k| format!("line {k} {}\n", k * k % 97).into_bytes()).collect();
        b = a.clone();
        b.splice(30_000..30_010, *b"\nelsewhere");
        if i % 100 == 9 {
            a = gen_bytes(rng, 9000, 2);
            a.push(0xff);
            b = edit_bytes(rng, &a, 3, 2);
        }
    }
    if rng.chance(1, 15) {
        b = a.clone();
    }
    let kind = rng.below(5);
    let (old, new) = match kind {
        0 => (None, Some(&b[..])),
        1 => (Some(&a[..]), None),
        _ => (Some(&a[..]), Some(&b[..])),
    };
    let doc = make_patch(rng, &given, &real, old, new, &s, &cwd)?;
    let patch = match rng.below(3) {
        0 => real.parent().unwrap().join("a patch"),
        1 => s.tree.join(OsStr::from_bytes(b"p\xff")),
        _ => s.tree.join("p.json"),
    };
    put(&patch, &doc)?;
    set_mode(&patch, 0o600)?;
    let tmp = s.tree.join("tmpdir");
    mkdir(&tmp)?;
    let mut o = Outcome::new(&[given.as_bytes(), b"|", &doc[..]].concat(), a != b || kind < 2);
    if old.is_some() && rng.chance(1, 4) && can_give_away() {
        let (u, g) = *rng.pick(&[(1234, 5678), (65534, 65534), (0, 1), (1, 0), (3_000_000_000, 70_000)]);
        if std::os::unix::fs::chown(&real, Some(u), Some(g)).is_ok() {
            o.count("files of other owners", 1);
        }
    }
    if old.is_some() && rng.chance(2, 3) {
        set_mode(&real, a_mode(rng))?;
    }
    // other names for it: one of this version, one of whatever is there
    if old.is_some() && rng.chance(1, 4) {
        let _ = std::fs::hard_link(&real, real.with_file_name("second name"));
        o.count("targets with a second name", 1);
    }
    if rng.chance(1, 4) {
        let _ = std::os::unix::fs::symlink(real.file_name().unwrap(), real.with_file_name("symbolic"));
    }
    let mut states = vec![(old, new, false)];
    if rng.chance(2, 3) {
        // and back, and forth again
        states.push((new, old, true));
        if rng.chance(1, 3) {
            states.push((old, new, false));
        }
    }
    for (k, (from, to, reverse)) in states.into_iter().enumerate() {
        let mut c = Cmd::new("pw_patch", &cwd, &s.aux);
        c.dress(rng);
        let mut opts = verbose_args(rng);
        if reverse {
            opts.push((*rng.pick(&["-r", "--reverse"])).into());
        }
        if rng.chance(1, 2) {
            (c.log, c.modes) = (true, true);
            c.roots = vec![s.tree.clone()];
            c.roots.extend(far.iter().map(|x| x.0.clone()));
        }
        let p = if rng.chance(1, 2) && patch.starts_with(&cwd) && cwd != Path::new("/") { patch.strip_prefix(&cwd).unwrap().to_path_buf() } else { patch.clone() };
        // the patch from a pipe
        if !c.modes && rng.chance(1, 5) {
            let (script, operand) = *rng.pick(&[(r#"cat "$P" | "$0" "$@""#, "/dev/stdin"), (r#""$0" "$@" < "$P""#, "/dev/stdin"), (r#"exec 7< <(cat "$P"); "$0" "$@""#, "/dev/fd/7")]);
            c.wrap = ["/bin/bash", "-c", script].iter().map(|x| x.into()).collect();
            c.env.push(("P", patch.clone().into()));
            c.args = with_operands(rng, opts, &[OsStr::new(operand)]);
            o.count("patches read from pipes", 1);
        } else if !c.modes && Path::new(&given).is_absolute() && rng.chance(1, 3) {
            c.args = with_operands(rng, opts, &[patch.as_os_str()]);
            in_gone(&mut c, &s);
            o.count("in a working directory that was removed", 1);
        } else {
            c.args = with_operands(rng, opts, &[p.as_os_str()]);
        }
        c.umask = match rng.below(4) {
            0 => Some(0o077),
            1 => Some(0),
            2 => Some(0o777),
            _ => None,
        };
        match rng.below(4) {
            0 => c.env.push(("TMPDIR", tmp.clone().into())),
            1 => c.env.push(("TMPDIR", "/nonexistent/dir".into())),
            _ => (),
        }
        let mut watch = vec![s.tree.as_path()];
        if let Some(x) = &far {
            watch.push(&x.0);
        }
        patch_step(&c, &watch, &real, from, to, &format!("step {k}"), &mut o)?;
        if from.is_some() && to.is_some() && rng.chance(1, 3) {
            set_mode(&real, a_mode(rng))?;
        }
    }
    let d = read_doc(&doc)?.map_err(|e| Fault::Harness(format!("{e}")))?;
    o.count(["text changes", "text additions", "text removals", "byte changes", "byte additions", "byte removals"][kind_of(&d)], 1);
    o.count("on another file system", far.is_some() as u64);
    o.count("away from the working directory", (cwd != base) as u64);
    o.sample = Some(clip(&format!("{given:?} cwd={cwd:?} {}", String::from_utf8_lossy(&doc)), 300));
    Ok(o)
}

/// The files of an ordinary user, patched by that user.
fn c14_user(rng: &mut Rng, _i: usize) -> Verdict {
    let s = stand()?;
    const USER: u32 = 65534;
    let cwd = s.tree.join("home");
    mkdir(&cwd)?;
    let own = |p: &Path| std::os::unix::fs::chown(p, Some(USER), Some(USER)).map_err(hio("chown"));
    own(&cwd)?;
    let target = cwd.join("f");
    let (a, b) = some_pair(rng);
    let doc = make_patch(rng, OsStr::new("f"), &target, Some(&a), Some(&b), &s, &cwd)?;
    let patch = s.tree.join("p");
    put(&patch, &doc)?;
    put(&cwd.join("of somebody else"), b"x")?;
    own(&target)?;
    let mut o = Outcome::new(&doc, a != b);
    let mut states = vec![(&a, &b, false)];
    if rng.chance(1, 2) {
        states.push((&b, &a, true));
    }
    for (k, (from, to, reverse)) in states.into_iter().enumerate() {
        let m = a_mode(rng);
        set_mode(&target, m)?;
        let mut c = Cmd::new("pw_patch", &cwd, &s.aux);
        c.dress(rng);
        c.uid = Some(USER);
        c.args = vec![patch.clone().into()];
        if reverse {
            c.args.push("-r".into());
        }
        c.umask = *rng.pick(&[None, Some(0o077), Some(0o022), Some(0), Some(0o177)]);
        patch_step(&c, &[&s.tree], &target, Some(from), Some(to), &format!("step {k} by a user, file mode {m:o}"), &mut o)?;
        o.count("with set-id bits, by their owner", (m & 0o6000 != 0) as u64);
    }
    o.sample = Some(clip(&String::from_utf8_lossy(&doc), 200));
    Ok(o)
}

/// Files can be given to other users here.
fn can_give_away() -> bool {
    use std::sync::OnceLock;
    static YES: OnceLock<bool> = OnceLock::new();
    *YES.get_or_init(|| {
        let probe = || -> Option<bool> {
            let d = Scratch::new().ok()?;
            let p = d.path("probe");
            std::fs::write(&p, b"").ok()?;
            std::os::unix::fs::chown(&p, Some(3_000_000_000), Some(70_000)).ok()?;
            let m = p.metadata().ok()?;
            Some((m.uid(), m.gid()) == (3_000_000_000, 70_000))
        };
        probe().unwrap_or(false)
    })
}

/// A file's history as patches: forward through all versions and all the way back.
fn c14_history(rng: &mut Rng, _i: usize) -> Verdict {
    let s = stand()?;
    let target = s.tree.join("f");
    let mut versions: Vec<Option<Vec<u8>>> = vec![None];
    let n = rng.range(3, 6);
    let text = rng.chance(1, 2);
    let mut cur = some_pair(rng).0;
    let mut u = 0;
    for _ in 0..n {
        if rng.chance(1, 8) && versions.last().unwrap().is_some() {
            versions.push(None);
            continue;
        }
        versions.push(Some(cur.clone()));
        cur = match (text, std::str::from_utf8(&cur)) {
            (true, Ok(t)) => join(&normalise(edit(rng, &split_lines(t), 3, Alphabet::Small, &mut u))).into_bytes(),
            _ => edit_bytes(rng, &cur, 3, 0),
        };
    }
    let mut patches = vec![];
    for (k, w) in versions.windows(2).enumerate() {
        let doc = make_patch(rng, OsStr::new("f"), &target, w[0].as_deref(), w[1].as_deref(), &s, &s.tree)?;
        let p = s.tree.join(format!("p{k}"));
        put(&p, &doc)?;
        patches.push(p);
    }
    let _ = std::fs::remove_file(&target);
    let mut o = Outcome::new(format!("{versions:?}").as_bytes(), true);
    let run = |k: usize, reverse: bool, o: &mut Outcome| {
        let mut c = Cmd::new("pw_patch", &s.tree, &s.aux);
        c.args = vec![patches[k].clone().into()];
        if reverse {
            c.args.push("-r".into());
        }
        let (x, y) = if reverse { (k + 1, k) } else { (k, k + 1) };
        patch_step(&c, &[&s.tree], &target, versions[x].as_deref(), versions[y].as_deref(), &format!("history {} to {}", x, y), o)
    };
    for k in 0..patches.len() {
        run(k, false, &mut o)?;
        if rng.chance(1, 4) {
            run(k, true, &mut o)?;
            run(k, false, &mut o)?;
        }
    }
    for k in (0..patches.len()).rev() {
        run(k, true, &mut o)?;
    }
    o.count("versions in histories", versions.len() as u64);
    o.sample = Some(clip(&format!("{versions:?}"), 300));
    Ok(o)
}

/// Files of many megabytes and hundreds of thousands of lines, added, removed and changed, both ways.
fn c14_big(rng: &mut Rng, i: usize) -> Verdict {
    let s = stand()?;
    let target = s.tree.join("f");
    let text = i % 4 != 3;
    let n = if text { *rng.pick(&[9usize << 20, 13 << 20, 17 << 20]) } else { 2_200_000 } + rng.below(1000);
    let mut big: Vec<u8> = Vec::with_capacity(n + 64);
    let mut k = 0usize;
    while big.len() < n {
        k += 1;
        if text {
            big.extend_from_slice(format!("line {k} \u{e9}\n").as_bytes());
        } else {
            big.extend_from_slice(&(k as u32).to_le_bytes());
        }
    }
    if !text {
        big.push(0xff);
    }
    let (before, after) = match i % 4 {
        // a change near the end, so that all before it is copied
        0 => {
            let mut b = big.clone();
            let at = b.len() - rng.range(1, 40) * 4;
            let at = (at..b.len()).find(|k| b[*k] == b'\n').unwrap_or(b.len() - 1) + 1;
            b.splice(at..at, *b"changed\n");
            (Some(big), Some(b))
        }
        // all of it new, or gone
        1 => (Some(b"small\n".to_vec()), Some(big)),
        _ if rng.chance(1, 2) => (None, Some(big)),
        _ => (Some(big), None),
    };
    let doc = make_patch(rng, OsStr::new("f"), &target, before.as_deref(), after.as_deref(), &s, &s.tree)?;
    let patch = s.aux.join("p");
    put(&patch, &doc)?;
    let mut o = Outcome::new(format!("{i} {n} {}", doc.len()).as_bytes(), true);
    let _ = std::fs::remove_file(&target);
    if let Some(b) = &before {
        put(&target, b)?;
    }
    for reverse in [false, true] {
        let mut c = Cmd::new("pw_patch", &s.tree, &s.aux);
        c.args = vec![patch.clone().into()];
        if reverse {
            c.args.push("-r".into());
        }
        let (x, y) = if reverse { (&after, &before) } else { (&before, &after) };
        patch_step(&c, &[&s.tree], &target, x.as_deref(), y.as_deref(), &format!("a file of {n} bytes, case {i}"), &mut o)?;
    }
    o.count("files of many megabytes", 1);
    Ok(o)
}

fn second_fs() -> Option<PathBuf> {
    let p = PathBuf::from(std::env::var("VH_SCRATCH2").unwrap_or_else(|_| "/dev/shm/vh-scratch".into()));
    std::fs::create_dir_all(&p).ok()?;
    let root = crate::run::scratch_root();
    std::fs::create_dir_all(&root).ok()?;
    let (a, b) = (std::fs::metadata(&p).ok()?.dev(), std::fs::metadata(&root).ok()?.dev());
    (a != b).then_some(p)
}

pub fn c14(c: &mut Ctx) {
    c.rule = "a distinct case is one patch document with the path it is for; non-trivial: it changes something".into();
    if let Err(Fault::Harness(e) | Fault::Bad(e)) = need_tools() {
        return c.harness_error(&e);
    }
    let shm = second_fs();
    c.note("second file system available", shm.is_some() as u64);
    c.stage("change", c.tier(1800, 40_000), c.tier(30, 1200), |r, i| c14_case(r, i, shm.as_deref()));
    c.stage("history", c.tier(150, 3000), c.tier(15, 600), c14_history);
    c.stage("big", c.tier(8, 40), c.tier(90, 400), c14_big);
    if can_drop_privileges() && can_give_away() {
        c.stage("user", c.tier(250, 5000), c.tier(10, 300), c14_user);
    }
}

// ---------------------------------------------------------------- C15

/// (kind of patch, direction): what the run has to do to the target.
fn c15_faults(rng: &mut Rng, i: usize) -> Verdict {
    let s = stand()?;
    let d = &s.tree;
    let shape = i % 6; // 0,1 change fwd/rev; 2,3 add fwd/rev; 4,5 remove fwd/rev
    let text = i / 6 % 2 == 0;
    let reverse = shape % 2 == 1;
    let big = i % 24 >= 18;
    let (a, b) = loop {
        let (mut a, mut b) = some_pair(rng);
        if big {
            // larger than any buffer
            if text {
                a = (0..1500).flat_map(|k| format!("line {k} {}\n", k * k % 97).into_bytes()).collect();
                b = a.clone();
                b.splice(10_000..10_010, *b"\nelsewhere");
            } else {
                a = gen_bytes(rng, 9000, 2);
                a.push(0xff);
                b = edit_bytes(rng, &a, 3, 2);
                b.push(0xff);
            }
        }
        let small = a.len() < 1500 && b.len() < 1500;
        let kind_ok = match shape {
            0 | 1 => (is_text(&a) && is_text(&b)) == text,
            2 | 3 => is_text(&b) == text,
            _ => is_text(&a) == text,
        };
        if kind_ok && (small || big) && a != b {
            break (a, b);
        }
    };
    let (v1, v2) = match shape {
        0 | 1 => (Some(&a[..]), Some(&b[..])),
        2 | 3 => (None, Some(&b[..])),
        _ => (Some(&a[..]), None),
    };
    let given = if rng.chance(1, 2) { OsString::from("dir/target") } else { d.join("dir/target").into_os_string() };
    let target = d.join("dir/target");
    mkdir(&d.join("dir"))?;
    put(&d.join("dir/neighbour"), b"n")?;
    let doc = make_patch(rng, &given, &target, v1, v2, &s, d)?;
    put(&s.aux.join("patch"), &doc)?;
    // the file has another name, or is reached through a symbolic link
    let (second, real) = (d.join("dir/second name"), d.join("dir/real"));
    let other_names = if shape < 2 { *rng.pick(&[0, 0, 1, 2]) } else { 0 };
    let (old, new) = if reverse { (v2, v1) } else { (v1, v2) };
    let mode = a_mode(rng) | 0o400;
    let tmp = d.join("tmpdir");
    mkdir(&tmp)?;
    let reset = || -> Result<Tree, Fault> {
        for dir in [&tmp, &d.join("dir")] {
            for e in std::fs::read_dir(dir).map_err(hio("read_dir"))?.flatten() {
                if e.file_name() != "neighbour" {
                    std::fs::remove_file(e.path()).map_err(hio("clearing"))?;
                }
            }
        }
        if let Some(o) = old {
            let at = if other_names == 2 { &real } else { &target };
            put(at, o)?;
            set_mode(at, mode)?;
            match other_names {
                1 => std::fs::hard_link(&target, &second).map_err(hio("link"))?,
                2 => std::os::unix::fs::symlink("real", &target).map_err(hio("symlink"))?,
                _ => (),
            }
        }
        snapshot(d)
    };
    let mut c = Cmd::new("pw_patch", d, &s.aux);
    c.args = vec![s.aux.join("patch").into()];
    if reverse {
        c.args.insert(rng.below(2), "-r".into());
    }
    c.env.push(("TMPDIR", tmp.clone().into()));
    c.roots = vec![s._dir.0.clone()];
    c.log = true;
    let head = format!("{}\nold={}\nnew={}\npatch={}", c.show(), old.map_or("(no file)".into(), show_bytes), new.map_or("(no file)".into(), show_bytes), clip(&String::from_utf8_lossy(&doc), 2500));
    let f = |x: Fault| ctx_of(x, &head);
    reset()?;
    let base = c.run().map_err(f)?;
    if !base.ok() || std::fs::read(&target).ok().as_deref() != new {
        return Err(f(format!("without any fault: {}, target={:?}", base.how(), std::fs::read(&target).map(|x| show_bytes(&x))).into()));
    }
    let events = chosen(rng, &base.log);
    if !base.log.iter().any(|e| matches!(e.op.as_str(), "rename" | "unlink" | "write" | "open-x" | "link")) {
        return Err(Fault::Harness(format!("the monitor saw no change being made: {:?}", base.log)));
    }
    let mut o = Outcome::new(head.as_bytes(), true);
    o.count("system calls monitored", base.log.len() as u64);
    for e in &base.log {
        o.count(match e.op.as_str() {
            "write" => "event: write",
            "rename" => "event: rename",
            "unlink" => "event: unlink",
            "chmod" => "event: chmod",
            "open-x" | "open-t" | "open-w" => "event: open for writing",
            "read" => "event: read",
            "open-r" => "event: open for reading",
            "close" => "event: close",
            "stat" => "event: stat",
            _ => "event: other",
        }, 1);
    }
    c.log = false;
    for e in &events {
        // (faults, killed, harmless, deleting may fail)
        let mut acts: Vec<(String, bool, bool, bool)> = vec![];
        for x in errors_for(&e.op) {
            acts.push((format!("{}e{x}", e.n), false, false, e.op == "unlink"));
        }
        acts.push((format!("{}k", e.n), true, false, false));
        acts.push((format!("{}K", e.n), true, false, false));
        if e.op == "write" {
            acts.push((format!("{}+e{ENOSPC}", e.n), false, false, false));
            acts.push((format!("{}h{}", e.n, e.size / 2), true, false, false));
            if e.size > 1 {
                acts.push((format!("{}s{},{}e{ENOSPC}", e.n, e.size - 1, e.n + 1), false, false, false));
            }
            acts.push((format!("{}s1", e.n), false, true, false));
            acts.push((format!("{}+s2", e.n), false, true, false));
            acts.push((format!("{}e{EINTR}", e.n), false, true, false));
        }
        if e.op == "read" {
            acts.push((format!("{}s1", e.n), false, true, false));
            acts.push((format!("{}+s3", e.n), false, true, false));
            acts.push((format!("{}e{EINTR}", e.n), false, true, false));
        }
        // after this one failed, whatever is done next fails or is the last thing done
        if e.op != "read" && rng.chance(1, 2) {
            let x = *rng.pick(errors_for(&e.op));
            let k = e.n + rng.range(1, 3);
            acts.push((format!("{}e{x},{k}e{EIO}", e.n), false, false, true));
            acts.push((format!("{}e{x},{k}k", e.n), true, false, true));
            acts.push((format!("{}e{x},{k}K", e.n), true, false, true));
        }
        for (act, kill, harmless, undeletable) in acts {
            let t0 = reset()?;
            c.faults = act.clone();
            let g = |x: Fault| f(ctx_of(x, &format!("fault {act} at event {} {}", e.op, e.path)));
            let r = c.run().map_err(g)?;
            let t1 = snapshot(d)?;
            // the target
            let now = t1.get(&target);
            let is_old = now == t0.get(&target);
            let held = now.and_then(|n| if n.kind == 'l' { t1.get(&real) } else { Some(n) }).filter(|n| n.kind == 'f').map(|n| &n.data[..]);
            let is_new = match (held, new) {
                (Some(h), Some(n)) => h == n && (old.is_none() || now.unwrap().kind == 'l' || now.unwrap().mode == mode),
                (None, None) => now.is_none(),
                _ => false,
            };
            let contents_new = held == new && now.is_some() == new.is_some();
            let killed = r.signal == Some(9) && kill;
            if r.signal.is_some() && !killed {
                return Err(g(format!("it crashed: {}", r.how()).into()));
            }
            let change = old.is_some() && new.is_some();
            if change && !(held == old || contents_new) {
                return Err(g(format!("the target holds neither version but {}; {}", held.map_or("(no file)".into(), show_bytes), r.how()).into()));
            }
            if !change && new.is_none() && !is_old && now.is_some() {
                return Err(g(format!("the file to remove was touched but is still there; {}", r.how()).into()));
            }
            if old.is_none() && new.is_some() && !r.ok() && !killed && !undeletable && now.is_some() {
                return Err(g(format!("it failed and left the added file behind with {}; {}", held.map_or("(no file)".into(), show_bytes), r.how()).into()));
            }
            if r.ok() && !is_new {
                return Err(g(format!("it claims success but the target holds {} (mode {:?}); {}", held.map_or("(no file)".into(), show_bytes), now.map(|n| format!("{:o}", n.mode)), r.how()).into()));
            }
            if harmless && !r.ok() {
                return Err(g(format!("a short or interrupted call made it fail: {}", r.how()).into()));
            }
            // everything else
            if other_names == 2 && t1.get(&real).is_none_or(|n| Some(&n.data[..]) != old && Some(&n.data[..]) != new) {
                return Err(g(format!("what the link names holds neither version but {}; {}", t1.get(&real).map_or("(no file)".into(), |n| show_bytes(&n.data)), r.how()).into()));
            }
            let others = changed(&t0, &t1, &[&target, if other_names == 2 { &real } else { &target }]);
            if let Some(x) = others {
                let only_new = t0.iter().all(|(p, n)| *p == target || (other_names == 2 && *p == real) || t1.get(p) == Some(n));
                if !only_new || (!killed && !undeletable) {
                    return Err(g(format!("{x}; {}", r.how()).into()));
                }
                o.count("temporary files left by a kill or an undeletable one", 1);
            }
            o.count(
                if killed { if is_old { "killed: old content" } else if is_new { "killed: new content" } else { "killed: added file incomplete" } }
                else if r.ok() { if harmless { "short or interrupted calls survived" } else { "failing calls survived, change made" } }
                else if is_old { "failures reported, old content" } else { "failures reported, otherwise" },
                1,
            );
            o.count("faults injected", 1);
        }
    }
    o.count("targets with a second name", (other_names == 1) as u64);
    o.count("targets reached through a symbolic link", (other_names == 2) as u64);
    o.count(["text change", "text change reversed", "text addition", "text addition reversed", "text removal", "text removal reversed", "byte change", "byte change reversed", "byte addition", "byte addition reversed", "byte removal", "byte removal reversed"][shape + if text { 0 } else { 6 }], 1);
    o.sample = Some(clip(&head, 300));
    Ok(o)
}

pub fn c15(c: &mut Ctx) {
    c.rule = "a distinct case is one patch and target, with every file system call of its run made to fail, be cut short or be the last; non-trivial: all".into();
    if let Err(Fault::Harness(e) | Fault::Bad(e)) = need_tools() {
        return c.harness_error(&e);
    }
    c.stage("faults", c.tier(96, 2400), c.tier(90, 2400), c15_faults);
}

// ---------------------------------------------------------------- C16

pub fn library_result(d: &Diff, target: &[u8], reverse: bool) -> Result<Option<(Vec<u8>, Tally)>, Fault> {
    Ok(match d {
        Diff::TextChange(d) => match std::str::from_utf8(target) {
            Ok(t) => Some(guard("applying", || apply_text(d, &split_lines(t), reverse))??),
            Err(_) => None,
        },
        Diff::ByteChange(d) => Some(guard("applying", || apply_bytes(d, target, reverse))??),
        _ => None,
    })
}

/// Hunks that may or may not find their place.
fn c16_hunks(rng: &mut Rng, i: usize) -> Verdict {
    let s = stand()?;
    let target = s.tree.join("d/f");
    let (a, b) = loop {
        let p = some_pair(rng);
        if p.0 != p.1 {
            break p;
        }
    };
    let doc = make_patch(rng, OsStr::new("d/f"), &target, Some(&a), Some(&b), &s, &s.tree)?;
    let diff = read_doc(&doc)?.map_err(|e| Fault::Harness(e.to_string()))?;
    let reverse = rng.chance(1, 2);
    let mut must_fail = false;
    let text = kind_of(&diff) == 0;
    let mut u = 0;
    let t: Vec<u8> = match i % 6 {
        0 => {
            // nothing of either version is in it
            let n = rng.range(1, 6);
            let mut t: Vec<u8> = vec![];
            for k in 0..n {
                t.extend_from_slice(format!("~~ unrelated {k} {} ~~\n", rng.below(1000)).as_bytes());
            }
            let (from, to) = if reverse { (&b, &a) } else { (&a, &b) };
            // a hunk with something to take away and something to put in has no place here
            must_fail = match &diff {
                Diff::TextChange(_) => {
                    let lines = split_lines(std::str::from_utf8(&t).unwrap());
                    !from.is_empty() && !to.is_empty() && hunks_of(&diff, reverse).iter().any(|(x, y)| {
                        !x.is_empty() && !y.is_empty() && x.iter().chain(y).all(|l| !lines.contains(l))
                    })
                }
                _ => false,
            };
            t
        }
        1 => if reverse { a.clone() } else { b.clone() }, // already applied
        2 => if reverse { b.clone() } else { a.clone() },
        3 => {
            let from = if reverse { &b } else { &a };
            match std::str::from_utf8(from) {
                Ok(x) if text => join(&normalise(edit(rng, &split_lines(x), 3, Alphabet::Small, &mut u))).into_bytes(),
                _ => edit_bytes(rng, from, 3, 0),
            }
        }
        4 => edit_bytes(rng, if reverse { &b } else { &a }, 2, 1),
        _ => some_pair(rng).0,
    };
    put(&target, &t)?;
    let mode = a_mode(rng);
    set_mode(&target, mode)?;
    put(&s.tree.join("d/neighbour"), b"n")?;
    put(&s.tree.join("p"), &doc)?;
    let mut c = Cmd::new("pw_patch", &s.tree, &s.aux);
    c.dress(rng);
    let mut opts = verbose_args(rng);
    if reverse {
        opts.push("-r".into());
    }
    c.args = with_operands(rng, opts, &[OsStr::new("p")]);
    let head = format!("{}\npatch={}\ntarget={}", c.show(), clip(&String::from_utf8_lossy(&doc), 3000), show_bytes(&t));
    let f = |x: Fault| ctx_of(x, &head);
    let want = library_result(&diff, &t, reverse).map_err(f)?;
    let t0 = snapshot(&s.tree)?;
    let r = c.run().map_err(f)?;
    let t1 = snapshot(&s.tree)?;
    let mut o = Outcome::new(&[&doc[..], b"|", &t, &[reverse as u8]].concat(), true);
    if r.signal.is_some() {
        return Err(f(format!("it crashed: {}", r.how()).into()));
    }
    if must_fail && r.ok() {
        return Err(f("no hunk can have a place in this target, yet it reports success".into()));
    }
    o.count("targets without a place for some hunk", must_fail as u64);
    match want {
        None => {
            if !r.failed() {
                return Err(f(format!("a text patch for a target that is not text: {}", r.how()).into()));
            }
            if let Some(x) = changed(&t0, &t1, &[]) {
                return Err(f(format!("a text patch for a target that is not text: {x}").into()));
            }
            o.count("refused: not text", 1);
        }
        Some((out, tally)) => {
            if let Some(x) = changed(&t0, &t1, &[&target]) {
                return Err(f(format!("{x}; {}", r.how()).into()));
            }
            if (tally.failed > 0) == r.ok() {
                return Err(f(format!("{} of {} hunks failed, but {}", tally.failed, tally.total(), r.how()).into()));
            }
            let got = t1.get(&target).filter(|n| n.kind == 'f').map(|n| &n.data[..]);
            if got != Some(&out[..]) {
                return Err(f(format!("the target holds {}, not {}; {}", got.map_or("(no file)".into(), show_bytes), show_bytes(&out), r.how()).into()));
            }
            if t1[&target].mode != mode {
                return Err(f(format!("its mode was {mode:o} and is {:o}", t1[&target].mode).into()));
            }
            o.count(if tally.failed > 0 { "hunks failed, reported" } else if tally.already + tally.already_fuzzy > 0 { "already applied, success" } else { "applied, success" }, 1);
            o.count("hunks", tally.total() as u64);
        }
    }
    o.sample = Some(clip(&head, 300));
    Ok(o)
}

/// Several changes far apart, and a target in which the places of some of them are destroyed: those fail, the
/// others are made, or are there already. What the target must hold is known from how the case is made.
pub fn c16_partial(rng: &mut Rng, i: usize) -> Verdict {
    let s = stand()?;
    let target = s.tree.join("d/f");
    let text = i % 2 == 0;
    // numbers at which something small overflows
    let round = i % 40 < 2 && text;
    let k = if round { *rng.pick(&[128, 255, 256, 257, 512]) } else if rng.chance(1, 12) { rng.range(100, if text { 600 } else { 120 }) } else { rng.range(2, 9) };
    // hunks are only looked for up to the next one's place, so the places must not drift far
    let free = text && k < 10;
    // lines that occur once; bytes that no other class of piece has
    let mut u = 0usize;
    let mut piece = |class: usize, n: usize| -> Vec<u8> {
        let mut v = vec![];
        for _ in 0..n {
            u += 1;
            if text {
                v.extend_from_slice(format!("unique {u}\n").as_bytes());
            } else {
                v.push((class * 64 + u % 64) as u8);
            }
        }
        v
    };
    let items = |v: &[u8]| if text { v.iter().filter(|b| **b == b'\n').count() } else { v.len() };
    let reverse = rng.chance(1, 2);
    let (mut a, mut b, mut t, mut want) = (vec![], vec![], vec![], vec![]);
    let mut failing = 0;
    let mut already = 0;
    let state: Vec<u8> = match rng.below(6) {
        _ if round && i % 80 < 2 => vec![1; k],
        // as many failing, one or some others
        _ if round => (0..k + rng.range(1, 3)).map(|j| (j > 0 && j <= k) as u8).collect(),
        0 => (0..k).map(|j| (j == k - 1) as u8).collect(),
        1 => (0..k).map(|j| (j == 0) as u8).collect(),
        2 => (0..k).map(|j| (j != k / 2) as u8).collect(),
        3 => (0..k).map(|_| rng.below(3) as u8).collect(),
        4 => (0..k).map(|j| if j == k - 1 { 1 } else { 2 }).collect(),
        _ => vec![1; k],
    };
    let k = state.len();
    for st in &state {
        let gap = piece(3, rng.range(30, 50));
        let old = piece(0, rng.range(1, 4));
        // (changes to bytes have fixed places)
        let new = piece(1, if free { rng.range(1, 4) } else { items(&old) });
        let (from, to) = if reverse { (&new, &old) } else { (&old, &new) };
        for v in [&mut a, &mut b, &mut t, &mut want] {
            v.extend_from_slice(&gap);
        }
        a.extend_from_slice(&old);
        b.extend_from_slice(&new);
        match st {
            0 => {
                t.extend_from_slice(from);
                want.extend_from_slice(to);
            }
            1 => {
                let other = piece(2, if free { rng.range(1, 4) } else { items(&old) });
                t.extend_from_slice(&other);
                want.extend_from_slice(&other);
                failing += 1;
            }
            _ => {
                t.extend_from_slice(to);
                want.extend_from_slice(to);
                already += 1;
            }
        }
    }
    let gap = piece(3, 40);
    for v in [&mut a, &mut b, &mut t, &mut want] {
        v.extend_from_slice(&gap);
    }
    let ctx = *rng.pick(&[0u8, 1, 2, 3, 5]);
    put(&s.aux.join("new"), &b)?;
    put(&target, &a)?;
    let doc = {
        let mut c = Cmd::new("pw_diff", &s.tree, &s.aux);
        c.args = vec![format!("-c{ctx}").into(), "d/f".into(), s.aux.join("new").into()];
        let r = c.run()?;
        if !r.ok() {
            return Err(Fault::Bad(format!("no patch could be made: {} {}", c.show(), r.how())));
        }
        r.out
    };
    let diff = read_doc(&doc)?.map_err(|e| Fault::Bad(format!("pw_diff wrote no patch: {e}")))?;
    let hunks = match &diff {
        Diff::TextChange(d) => d.clumps().count(),
        Diff::ByteChange(d) => d.clumps().count(),
        _ => 0,
    };
    put(&target, &t)?;
    put(&s.tree.join("p"), &doc)?;
    let mut c = Cmd::new("pw_patch", &s.tree, &s.aux);
    c.dress(rng);
    let mut opts = verbose_args(rng);
    if reverse {
        opts.push("-r".into());
    }
    c.args = with_operands(rng, opts, &[OsStr::new("p")]);
    let head = format!("{k} changes, their places {} (0 intact, 1 destroyed, 2 changed already), context {ctx}, {hunks} hunks: {}\npatch={}\ntarget={}", clip(&format!("{state:?}"), 400), c.show(), clip(&String::from_utf8_lossy(&doc), 3000), show_bytes(&t));
    let f = |x: Fault| ctx_of(x, &head);
    if kind_of(&diff) != if text { 0 } else { 3 } {
        return Err(f("not the kind of patch due".into()));
    }
    if hunks != k {
        return Err(f(format!("{k} changes far apart make {hunks} hunks").into()));
    }
    let t0 = snapshot(&s.tree)?;
    let r = c.run().map_err(f)?;
    let t1 = snapshot(&s.tree)?;
    if r.signal.is_some() {
        return Err(f(format!("it crashed: {}", r.how()).into()));
    }
    if (failing > 0) == r.ok() {
        return Err(f(format!("{failing} of {k} changes have no place, but {}", r.how()).into()));
    }
    if let Some(x) = changed(&t0, &t1, &[&target]) {
        return Err(f(format!("{x}; {}", r.how()).into()));
    }
    let mut got = t1.get(&target).filter(|n| n.kind == 'f').map(|n| n.data.clone());
    if let (true, Some(g)) = (text && failing > 0, &mut got) {
        // without the blocks that tell what could not be done
        let (mut inside, mut rest) = (false, vec![]);
        for l in g.split_inclusive(|b| *b == b'\n') {
            inside |= l.starts_with(b"<<<<<<<");
            if !inside {
                rest.extend_from_slice(l);
            }
            inside &= !l.starts_with(b">>>>>>>");
        }
        *g = rest;
    }
    let got = got.as_deref();
    if got != Some(&want[..]) {
        return Err(f(format!("the target holds {}, not {}; {}", got.map_or("(no file)".into(), show_bytes), show_bytes(&want), r.how()).into()));
    }
    let mut o = Outcome::new(&[&doc[..], b"|", &t].concat(), true);
    o.count("changes made among failing ones", if failing > 0 { (k - failing - already) as u64 } else { 0 });
    o.count("changes without a place, reported", failing as u64);
    o.sample = Some(clip(&head, 300));
    Ok(o)
}

/// (before, after) of each hunk of a text change.
fn hunks_of(d: &Diff, reverse: bool) -> Vec<(Lines, Lines)> {
    match d {
        Diff::TextChange(d) => d
            .clumps()
            .map(|c| {
                let h = Hunk::of(c);
                let h = if reverse { h.flipped() } else { h };
                (h.before, h.after)
            })
            .collect(),
        _ => vec![],
    }
}

extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
}

fn fifo(p: &Path) -> std::io::Result<()> {
    let c = std::ffi::CString::new(p.as_os_str().as_bytes())?;
    if unsafe { mkfifo(c.as_ptr(), 0o644) } == 0 { Ok(()) } else { Err(std::io::Error::last_os_error()) }
}

fn c16_refuse(rng: &mut Rng, i: usize, nobody: bool) -> Verdict {
    let s = stand()?;
    let d = &s.tree;
    let dir = d.join("dir");
    mkdir(&dir)?;
    put(&dir.join("neighbour"), b"n")?;
    let target = dir.join("f");
    let (mut a, mut b) = some_pair(rng);
    if a == b {
        b.push(b'x');
    }
    if rng.chance(1, 10) {
        a = vec![];
    }
    let shape = rng.below(3);
    let (v1, v2) = match shape {
        0 => (Some(&a[..]), Some(&b[..])),
        1 => (None, Some(&b[..])),
        _ => (Some(&a[..]), None),
    };
    let reverse = rng.chance(1, 2);
    let (old, new) = if reverse { (v2, v1) } else { (v1, v2) };
    let mut doc = make_patch(rng, OsStr::new("dir/f"), &target, v1, v2, &s, d)?;
    let _ = std::fs::remove_file(&target);
    if let Some(x) = old {
        put(&target, x)?;
    }
    let given_patch = *rng.pick(&["p", "pd/p", "./pd/p", "dir/p", "/pd/p"]);
    let mut patch = d.join(given_patch.trim_start_matches('/'));
    // files that the patch might have been meant for, but does not name
    for decoy in ["pd/dir/f", "pd/f", "f", "dir/dir/f", "dir/f.orig", "dir/F", "aux/f"] {
        if rng.chance(1, 2) {
            put(&d.join(decoy), old.or(new).unwrap_or(b""))?;
        }
    }
    mkdir(&d.join("pd"))?;
    let mut c = Cmd::new("pw_patch", d, &s.aux);
    c.dress(rng);
    let mut opts = verbose_args(rng);
    if reverse {
        opts.push("-r".into());
    }
    let mut write_patch = true;
    let clear = |p: &Path| -> Result<(), Fault> {
        if p.symlink_metadata().is_ok() {
            std::fs::remove_file(p).map_err(hio("clearing"))?;
        }
        Ok(())
    };
    let mut operands: Vec<OsString> = vec![if given_patch.starts_with('/') { patch.clone().into() } else { given_patch.into() }];
    let situation: String;
    if nobody {
        c.uid = Some(65534);
        match rng.below(4) {
            0 => {
                put(&patch, &doc)?;
                set_mode(&patch, 0o000)?;
                write_patch = false;
                situation = "the patch cannot be read".into();
            }
            1 if old.is_some() && new.is_some() => {
                set_mode(&target, 0o000)?;
                situation = "the target cannot be read".into();
            }
            2 => {
                set_mode(&dir, 0o000)?;
                situation = "the target's directory cannot be searched".into();
            }
            _ => {
                set_mode(&dir, 0o555)?;
                situation = "the target's directory cannot be written".into();
            }
        }
    } else {
        match i % 15 {
            14 if shape == 0 => {
                // neither a file nor a directory
                clear(&target)?;
                let made = match rng.below(4) {
                    0 => symlink("/dev/null", &target),
                    1 => std::os::unix::net::UnixListener::bind_addr(&std::os::unix::net::SocketAddr::from_pathname(&target).map_err(hio("socket"))?).map(|_| ()),
                    2 => fifo(&target).and_then(|_| symlink("dir/f", d.join("pipe link"))),
                    _ => fifo(&target),
                };
                made.map_err(hio("making a special file"))?;
                c.wrap = vec!["/usr/bin/timeout".into(), "100".into()];
                situation = "the target is no file at all".into();
            }
            0 => {
                write_patch = false;
                match rng.below(4) {
                    0 => mkdir(&patch)?,
                    1 => symlink("nowhere", &patch).map_err(hio("symlink"))?,
                    2 => symlink("p", &patch).map_err(hio("symlink"))?,
                    _ => (),
                }
                situation = "there is no patch".into();
            }
            1 | 2 | 3 => {
                let cut = rng.below(doc.len());
                let n = *rng.pick(&[cut, doc.len() - 1, 0, 1, doc.len() / 2]);
                doc.truncate(n);
                situation = format!("the patch is cut off after {n} bytes");
            }
            4 | 5 => {
                let mut v: serde_json::Value = serde_json::from_slice(&doc).map_err(|e| Fault::Harness(e.to_string()))?;
                situation = format!("the patch is spoiled: {}", spoil(rng, &mut v));
                doc = v.to_string().into_bytes();
            }
            6 => {
                let extra: &[u8] = *rng.pick(&[&b"x"[..], b"{}", b"\0", b"null", b"]", b","]);
                doc.extend_from_slice(extra);
                situation = format!("after the patch there is {:?}", show_bytes(extra));
            }
            7 => {
                doc = match rng.below(6) {
                    0 => b"not a patch\n".to_vec(),
                    1 => b"--- dir/f\n+++ dir/f\n@@ -1 +1 @@\n-a\n+b\n".to_vec(),
                    2 => b"[]".to_vec(),
                    3 => b"{\"NoSuchKind\":{\"path\":\"dir/f\"}}".to_vec(),
                    4 => gen_bytes(rng, 40, 0),
                    _ => b"\"TextChange\"".to_vec(),
                };
                if read_doc(&doc)?.is_ok() {
                    return Err(Fault::Harness("a patch after all".into()));
                }
                situation = "it is something else than a patch".into();
            }
            8 | 9 => {
                // the target is missing, or in the way
                if old.is_some() {
                    clear(&target)?;
                    match rng.below(3) {
                        0 => symlink("nowhere", &target).map_err(hio("symlink"))?,
                        _ => (),
                    }
                    if target.symlink_metadata().is_ok() && new.is_none() {
                        // removing a dangling link is removing what is there
                        clear(&target)?;
                    }
                    situation = "there is no target".into();
                } else {
                    match rng.below(5) {
                        0 => mkdir(&target)?,
                        1 => symlink("nowhere", &target).map_err(hio("symlink"))?,
                        2 => put(&target, b"")?,
                        3 => put(&target, new.unwrap_or(b""))?,
                        _ => put(&target, b"something of value\n")?,
                    }
                    situation = "something is in the way".into();
                }
            }
            10 => {
                clear(&target)?;
                mkdir(&target)?;
                if rng.chance(1, 2) {
                    put(&target.join("inside"), b"x")?;
                }
                situation = "the target is a directory".into();
            }
            11 => {
                if patch.starts_with(&dir) {
                    operands = vec!["p".into()];
                    patch = d.join("p");
                }
                std::fs::remove_dir_all(&dir).map_err(hio("rmdir"))?;
                if rng.chance(1, 2) {
                    put(&dir, b"a file")?;
                }
                situation = "the target's directory is missing or none".into();
            }
            12 if shape == 0 && is_text(&a) && is_text(&b) => {
                let mut t = old.unwrap().to_vec();
                t.insert(rng.below(t.len() + 1), *rng.pick(&[0xffu8, 0xc0, 0xf8]));
                if is_text(&t) {
                    return Err(Fault::Harness("text after all".into()));
                }
                put(&target, &t)?;
                situation = "the target is not text".into();
            }
            _ => {
                let u: &[&[&str]] = &[&[], &["p", "p"], &["--no-such-option", "p"], &["-x", "p"], &["-r"], &["p", "--reverse=maybe"]];
                patch = d.join("p");
                operands = rng.pick(u).iter().map(|x| x.into()).collect();
                opts.clear();
                situation = "arguments make no sense".into();
            }
        }
    }
    if write_patch {
        put(&patch, &doc)?;
    }
    c.args = if situation.starts_with("arguments") { operands } else {
        let ops: Vec<&OsStr> = operands.iter().map(|x| x.as_os_str()).collect();
        with_operands(rng, opts, &ops)
    };
    let head = format!("{situation}: {}\n{} patch\nold={}\npatch={}", c.show(), ["change", "addition", "removal"][shape], old.map_or("(no file)".into(), show_bytes), clip(&String::from_utf8_lossy(&doc), 3000));
    let f = |x: Fault| ctx_of(x, &head);
    let t0 = snapshot(d)?;
    let r = c.run().map_err(f)?;
    if let Some(x) = changed(&t0, &snapshot(d)?, &[]) {
        return Err(f(format!("{x}; {}", r.how()).into()));
    }
    if !r.failed() {
        return Err(f(r.how().into()));
    }
    if r.code == Some(124) {
        return Err(f("it does not end: it waits for input".into()));
    }
    let mut o = Outcome::new(&[situation.as_bytes(), &[shape as u8, reverse as u8], &doc[..]].concat(), true);
    let key: &'static str = match situation.split([' ', ':']).take(5).collect::<Vec<_>>().join(" ").as_str() {
        x if x.starts_with("the patch is cut") => "refused: truncated patch",
        x if x.starts_with("the patch is spoiled") => "refused: spoiled patch",
        x if x.starts_with("after the patch") => "refused: trailing garbage",
        x if x.starts_with("it is something") => "refused: no patch",
        x if x.starts_with("there is no patch") => "refused: patch missing",
        x if x.starts_with("there is no target") => "refused: target missing",
        x if x.starts_with("something is in") => "refused: file in the way",
        x if x.starts_with("the target is no file") => "refused: target is a pipe, socket or device",
        x if x.starts_with("the target is a") => "refused: target is a directory",
        x if x.starts_with("the target's directory") => "refused: directory missing or closed",
        x if x.starts_with("the target is not") => "refused: target not text",
        x if x.starts_with("arguments") => "refused: usage",
        _ => "refused: other",
    };
    o.count(key, 1);
    o.sample = Some(clip(&head, 300));
    Ok(o)
}

/// As many failing hunks as a small number cannot hold: this is a failure too.
fn c16_many(rng: &mut Rng, i: usize) -> Verdict {
    let s = stand()?;
    let n = [65_536usize, 65_535, 65_792, 131_072][i / 2 % 4];
    let text = i % 2 == 0;
    let target = s.tree.join("d/f");
    mkdir(&s.tree.join("d"))?;
    let hs: Vec<Hunk> = (0..n)
        .map(|k| Hunk { ctx: (0, 0), before_start: 2 * k + 1, before: vec![format!("old {k}\n")], after_start: 2 * k + 1, after: vec![format!("new {k}\n")] })
        .collect();
    let old: Vec<u8> = match (text, rng.below(2)) {
        (_, 0) => vec![],
        (true, _) => b"small\n".to_vec(),
        _ => vec![0xff],
    };
    let reverse = rng.chance(1, 2);
    let mut want = vec![];
    let doc = if text {
        let clumps: Vec<_> = hs
            .iter()
            .map(|h| serde_json::json!({"context_lengths": [0, 0], "before": {"start": h.before_start, "items": h.before}, "after": {"start": h.after_start, "items": h.after}}))
            .collect();
        for h in &hs {
            let (x, y) = if reverse { (&h.after, &h.before) } else { (&h.before, &h.after) };
            want.extend_from_slice(format!("<<<<<<<\n{}=======\n{}>>>>>>>\n", x[0], y[0]).as_bytes());
        }
        serde_json::json!({"TextChange": diff_json("d/f", "g", clumps.into())})
    } else {
        let clumps: Vec<_> = (0..n).map(|k| serde_json::json!({"context_lengths": [0, 0], "before": {"start": 2 * k + 1, "items": [k % 251]}, "after": {"start": 2 * k + 1, "items": [252]}})).collect();
        serde_json::json!({"ByteChange": {"before_path": "d/f", "after_path": "g", "compressed": false, "clumps": clumps}})
    };
    want.extend_from_slice(&old);
    put(&target, &old)?;
    put(&s.tree.join("p"), doc.to_string().as_bytes())?;
    let mut c = Cmd::new("pw_patch", &s.tree, &s.aux).arg("p");
    c.dress(rng);
    if reverse {
        c = c.arg("-r");
    }
    let head = format!("{n} failing {} hunks on {}: {}", if text { "text" } else { "byte" }, show_bytes(&old), c.show());
    let f = |x: Fault| ctx_of(x, &head);
    let t0 = snapshot(&s.tree)?;
    let r = c.run().map_err(f)?;
    if !r.failed() {
        return Err(f(r.how().into()));
    }
    if let Some(x) = changed(&t0, &snapshot(&s.tree)?, &[&target]) {
        return Err(f(format!("{x}; {}", r.how()).into()));
    }
    let got = std::fs::read(&target).map_err(hio("reading the target"))?;
    if got != want {
        return Err(f(format!("the target holds something else than it should ({})", diff_pos(&got, &want)).into()));
    }
    let mut o = Outcome::new(head.as_bytes(), true);
    o.count("runs with more than 65534 failing hunks", 1);
    Ok(o)
}

pub fn c16(c: &mut Ctx) {
    c.rule = "a distinct case is one patch document with its target's state and direction; non-trivial: all".into();
    if let Err(Fault::Harness(e) | Fault::Bad(e)) = need_tools() {
        return c.harness_error(&e);
    }
    let nobody = can_drop_privileges();
    c.note("can run as an unprivileged user", nobody as u64);
    c.stage("refuse", c.tier(1400, 30_000), c.tier(20, 900), |r, i| c16_refuse(r, i, false));
    if nobody {
        c.stage("refuse-user", c.tier(200, 3000), c.tier(10, 300), |r, i| c16_refuse(r, i, true));
    }
    c.stage("hunks", c.tier(1400, 30_000), c.tier(20, 900), c16_hunks);
    c.stage("partial", c.tier(600, 10_000), c.tier(20, 900), c16_partial);
    c.stage("many", c.tier(8, 40), c.tier(20, 100), c16_many);
}
