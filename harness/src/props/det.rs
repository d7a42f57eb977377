//! C21: same result whatever the threads, the schedule, the process and what was done before.

use std::path::{Path, PathBuf};
use std::sync::Barrier;

use pw_cub_diff_lib::unified_diff::{before_path_and_time_stamp, UnifiedClumpIter, UnifiedDiffClump};
use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
use pw_diff_lib::changes::{Changes, ChangesGenerator};
use pw_diff_lib::range::Range;
use pw_diff_lib::sequence::StringItemIndices;
use pw_diff_lib::diff::Diff;
use pw_diff_lib::sequence::Seq;
use pw_diff_lib::text_diff::TextChangeClump;

use super::lib_core::ctx_of;
use super::lib_io::{some_pair, write_doc};
use crate::fx::*;
use crate::gen::*;
use crate::rng::{hash_bytes, Rng};
use crate::run::{clip, guard, Ctx, Fault, Outcome, Verdict};
use crate::tool::*;
use crate::util::*;

/// One piece of work: make a patch, apply it to some targets.
struct Job {
    before: PathBuf,
    after: PathBuf,
    ctx: u8,
    targets: Vec<Vec<u8>>,
}

/// The same change as a unified diff, and what is read back from it.
fn unified(j: &Job, out: &mut Vec<u8>) {
    let read = |p: &Path| Seq::<String>::from(std::fs::read_to_string(p).unwrap_or_default());
    let c = Changes::<String>::new(read(&j.before), read(&j.after));
    let mut text = String::new();
    for t in (UnifiedClumpIter { before: &c.before, after: &c.after, iter: c.change_clumps(j.ctx) }) {
        text.push_str(&format!("{}\n{}", t.header, t.lines.concat()));
        if !text.ends_with('\n') {
            text.push('\n');
        }
    }
    out.extend_from_slice(text.as_bytes());
    let lines = Seq::<String>::from(text);
    let mut at = 0;
    while at < lines.len() {
        match UnifiedDiffClump::get_from_at(&lines, at) {
            Ok(Some(c)) => {
                out.extend_from_slice(format!("{} {:?} {:?} {:?} {}\n", c.starts_and_lengths, c.context_lengths, c.before_lines, c.after_lines, c.lines_consumed).as_bytes());
                at += c.lines_consumed.max(1);
            }
            Ok(None) => at += 1,
            Err(e) => {
                out.extend_from_slice(format!("{e:?}\n").as_bytes());
                break;
            }
        }
    }
}

/// Everything the work produces, or how it failed.
fn work(j: &Job) -> Vec<u8> {
    let r = std::panic::catch_unwind(|| {
        let mut out = vec![];
        let d = match Diff::new(&j.before, &j.after, j.ctx) {
            Ok(d) => d,
            Err(e) => return format!("error {:?}", e.kind()).into_bytes(),
        };
        if let Err(e) = d.to_writer(&mut out) {
            out.extend_from_slice(format!("error {e}").as_bytes());
        }
        let r = match &d {
            Diff::TextAdd(p) | Diff::TextRemove(p) => p.write_into(&mut out),
            Diff::ByteAdd(p) | Diff::ByteRemove(p) => p.write_into(&mut out),
            _ => Ok(()),
        };
        out.extend_from_slice(format!("\n{r:?}\n").as_bytes());
        if let Diff::TextChange(_) = &d {
            unified(j, &mut out);
        }
        for t in &j.targets {
            for reverse in [false, true] {
                let r = match &d {
                    Diff::TextChange(d) => std::str::from_utf8(t).ok().map(|t| apply_text(d, &split_lines(t), reverse)),
                    Diff::ByteChange(d) => Some(apply_bytes(d, t, reverse)),
                    _ => None,
                };
                out.extend_from_slice(format!("\n{reverse} {:?}", r.map(|r| r.map(|(b, t)| (hash_bytes(&b), b.len(), t)))).as_bytes());
            }
        }
        out
    });
    r.unwrap_or_else(|_| b"panic".to_vec())
}

/// Small alphabets give thousands of common runs: enough for the sorting to be split between threads.
fn job(rng: &mut Rng, dir: &Path, k: usize) -> Result<Job, Fault> {
    let (before, after) = (dir.join(format!("b{k}")), dir.join(format!("a{k}")));
    let h = |e: std::io::Error| Fault::Harness(format!("{e}"));
    let (a, b) = match k % 4 {
        0 => {
            let mut u = 0;
            let n = rng.range(120, 260);
            let syms = rng.range(3, 6) as u8;
            let ls = |rng: &mut Rng, n: usize| -> Lines { (0..n).map(|_| format!("{}\n", rng.below(syms as usize))).collect() };
            let a = ls(rng, n);
            let b = if rng.chance(1, 2) { ls(rng, n) } else { edit(rng, &a, 12, Alphabet::Small, &mut u) };
            (join(&a).into_bytes(), join(&b).into_bytes())
        }
        1 => {
            let n = rng.range(300, 700);
            let mut a = gen_bytes(rng, n, 1);
            a.push(0xff);
            let b = edit_bytes(rng, &a, 8, 1);
            (a, b)
        }
        2 if rng.chance(1, 2) => {
            let odd: &[&[u8]] = &[b"", b"x", b"one line\n", b"two\nlines", b"\n", b"bytes \xff\xfe", b"late\n\xc3", "\u{feff}bom\n".as_bytes()];
            (rng.pick(odd).to_vec(), rng.pick(odd).to_vec())
        }
        _ => some_pair(rng),
    };
    // additions and removals, too
    let missing = if k % 4 < 2 { 9 } else { rng.below(4) };
    if missing != 0 {
        std::fs::write(&before, &a).map_err(h)?;
    }
    if missing != 1 {
        std::fs::write(&after, &b).map_err(h)?;
    }
    let mut targets = vec![a.clone(), b];
    targets.push(match std::str::from_utf8(&a) {
        Ok(t) => {
            let mut u = 0;
            join(&normalise(edit(rng, &split_lines(t), 3, Alphabet::Small, &mut u))).into_bytes()
        }
        Err(_) => edit_bytes(rng, &a, 2, 0),
    });
    Ok(Job { before, after, ctx: any_context(rng), targets })
}

fn jobs(rng: &mut Rng, dir: &Path, n: usize) -> Result<Vec<Job>, Fault> {
    (0..n).map(|k| job(rng, dir, k)).collect()
}

fn differs(what: &str, k: usize, got: &[u8], want: &[u8]) -> Fault {
    Fault::Bad(format!("job {k}: {what} gives another result than alone on one thread ({})\none={}\nother={}", diff_pos(got, want), show_bytes(want), show_bytes(got)))
}

fn pool(n: usize) -> Result<rayon::ThreadPool, Fault> {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().map_err(|e| Fault::Harness(e.to_string()))
}

/// What a process that does nothing else makes of each job, if asked; else a single-threaded pool's answer.
fn references(js: &[Job], dir: &Path, fresh: bool) -> Result<Vec<Vec<u8>>, Fault> {
    if !fresh {
        let p = pool(1)?;
        return Ok(js.iter().map(|j| p.install(|| work(j))).collect());
    }
    let me = Path::new("/proc/self/exe");
    js.iter()
        .enumerate()
        .map(|(k, j)| {
            let mut args = vec![j.before.clone(), j.after.clone(), PathBuf::from(j.ctx.to_string())];
            for (n, t) in j.targets.iter().enumerate() {
                let p = dir.join(format!("aux-t{k}-{n}"));
                std::fs::write(&p, t).map_err(|e| Fault::Harness(e.to_string()))?;
                args.push(p);
            }
            let out = std::process::Command::new(&me)
                .arg("--job")
                .args(&args)
                .env("RAYON_NUM_THREADS", "1")
                .output()
                .map_err(|e| Fault::Harness(e.to_string()))?;
            if !out.status.success() {
                return Err(Fault::Harness(format!("child: {:?}", out.status)));
            }
            Ok(out.stdout)
        })
        .collect()
}

/// The child of `references`.
pub fn child(args: &[String]) {
    use std::io::Write;
    let targets = args[3..].iter().map(|p| std::fs::read(p).unwrap()).collect();
    let j = Job { before: args[0].clone().into(), after: args[1].clone().into(), ctx: args[2].parse().unwrap(), targets };
    std::io::stdout().write_all(&work(&j)).unwrap();
}

/// Several sizes of worker pool, several times.
fn c21_pools(rng: &mut Rng, _i: usize, pools: &[rayon::ThreadPool]) -> Verdict {
    let dir = Scratch::new()?;
    let js = jobs(rng, &dir.0, 4)?;
    let t0 = snapshot(&dir.0)?;
    let refs = references(&js, &dir.0, false)?;
    let mut o = Outcome::new(&refs.concat(), true);
    for (k, j) in js.iter().enumerate() {
        if refs[k] == b"panic" {
            return Err(format!("job {k} panics").into());
        }
        for p in pools {
            for _ in 0..2 {
                let got = p.install(|| work(j));
                if got != refs[k] {
                    return Err(differs(&format!("a pool of {} threads", p.current_num_threads()), k, &got, &refs[k]));
                }
                o.count("runs in worker pools compared", 1);
            }
        }
        let got = work(j);
        if got != refs[k] {
            return Err(differs("the global pool", k, &got, &refs[k]));
        }
    }
    if let Some(x) = changed(&t0, &snapshot(&dir.0)?, &[]) {
        return Err(format!("making patches altered the files: {x}").into());
    }
    o.count("bytes of patches and results", refs.iter().map(|r| r.len() as u64).sum());
    Ok(o)
}

/// Many threads at once, each doing all the jobs in its own order, some inside shared worker pools.
fn c21_concurrent(rng: &mut Rng, i: usize, pools: &[rayon::ThreadPool]) -> Verdict {
    let dir = Scratch::new()?;
    let js = jobs(rng, &dir.0, 9)?;
    let fresh = i % 4 == 0;
    let refs = references(&js, &dir.0, fresh)?;
    let t0 = snapshot(&dir.0)?;
    let nthreads = *rng.pick(&[2usize, 4, 8, 16]);
    let barrier = Barrier::new(nthreads);
    let seeds: Vec<u64> = (0..nthreads).map(|_| rng.next()).collect();
    let bad = std::sync::Mutex::new(None::<Fault>);
    let n = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|sc| {
        for seed in &seeds {
            let (js, refs, barrier, bad, n) = (&js, &refs, &barrier, &bad, &n);
            sc.spawn(move || {
                let mut rng = Rng::new(*seed);
                let mut order: Vec<usize> = (0..js.len()).collect();
                for x in (1..order.len()).rev() {
                    order.swap(x, rng.below(x + 1));
                }
                barrier.wait();
                for k in order {
                    if rng.chance(1, 4) {
                        std::thread::sleep(std::time::Duration::from_micros(rng.below(300) as u64));
                    } else if rng.chance(1, 3) {
                        std::thread::yield_now();
                    }
                    let got = if rng.chance(1, 2) {
                        pools[rng.below(pools.len())].install(|| work(&js[k]))
                    } else {
                        work(&js[k])
                    };
                    n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if got != refs[k] {
                        *bad.lock().unwrap() = Some(differs(if fresh { "among others in one process, compared with a process of its own," } else { "while others are at work" }, k, &got, &refs[k]));
                        return;
                    }
                }
            });
        }
    });
    if let Some(x) = bad.into_inner().unwrap() {
        return Err(x);
    }
    if let Some(x) = changed(&t0, &snapshot(&dir.0)?, &[]) {
        return Err(format!("making patches altered the files: {x}").into());
    }
    let mut o = Outcome::new(&refs.concat(), true);
    o.count("concurrent runs compared", n.into_inner());
    o.count("threads started", nthreads as u64);
    o.count("compared with a process of its own", if fresh { refs.len() as u64 } else { 0 });
    Ok(o)
}

/// Without very long lines: byte by byte these take too long.
fn short_pair(rng: &mut Rng, alpha: Alphabet, n: usize) -> Pair {
    loop {
        let p = text_pair_of(rng, alpha, n);
        if join(&p.before).len().max(join(&p.after).len()) < 4000 {
            return p;
        }
        no_adornment();
    }
}

/// One small operation over and over again on several threads, each with arguments of its own.
fn c21_tight(rng: &mut Rng, i: usize) -> Verdict {
    let nthreads = *rng.pick(&[2usize, 4, 8]);
    let what = i % 9;
    let rounds = [40_000, 20_000, 6_000, 10_000, 6_000, 3_000, 3_000, 4_000, 6_000][what];
    type Op = Box<dyn Fn() -> u64 + Send + Sync>;
    let hash = |x: &dyn std::fmt::Debug| hash_bytes(format!("{x:?}").as_bytes());
    let mut ops: Vec<Op> = vec![];
    let mut key = vec![what as u8];
    for t in 0..nthreads {
        let n = rng.range(1, 30);
        let alpha = *rng.pick(&[Alphabet::Small, Alphabet::Unique, Alphabet::Mixed]);
        let p = short_pair(rng, alpha, n);
        let ctx = (rng.below(5) + t) as u8;
        let reverse = rng.chance(1, 2);
        key.extend(p.key(ctx));
        let (a, b) = (join(&p.before).into_bytes(), join(&p.after).into_bytes());
        let target = if rng.chance(1, 2) { p.before.clone() } else { p.after.clone() };
        let (sa, sb) = (seq(&p.before), seq(&p.after));
        let op: Op = match what {
            0 => {
                let c = Changes::<String>::new(sa, sb);
                Box::new(move || c.change_clumps(ctx).fold(7u64, |h, x| {
                    let ((r, s), (k, l)) = (x.ranges(), x.context_lengths());
                    [r.0, r.1, s.0, s.1, k as usize, l as usize].iter().fold(h, |h, v| h.wrapping_mul(1_000_003) ^ *v as u64)
                }))
            }
            1 => {
                let (la, lb) = (sa.len(), sb.len());
                let (x, y) = (rng.below(la + 1), rng.below(lb + 1));
                Box::new(move || {
                    let g = ChangesGenerator::<String, StringItemIndices>::new(&sa, &sb);
                    g.longest_common_subsequence(Range(x, la), Range(y, lb)).map_or(1, |c| ((c.0 as u64) << 40) ^ ((c.1 as u64) << 20) ^ c.2 as u64)
                })
            }
            2 => {
                let patch = text_patch(&p.before, &p.after, ctx);
                Box::new(move || hash(&apply_text(&patch, &target, reverse)))
            }
            3 => {
                let patch = text_patch(&p.before, &p.after, ctx);
                let t = seq(&target);
                Box::new(move || patch.is_already_applied(&t, reverse) as u64)
            }
            4 => Box::new(move || {
                let c = Changes::<String>::new(seq(&p.before), seq(&p.after));
                hash_bytes(format!("{:?}", c.changes).as_bytes())
            }),
            5 => {
                let c = Changes::<String>::new(sa, sb);
                Box::new(move || UnifiedClumpIter { before: &c.before, after: &c.after, iter: c.change_clumps(ctx) }.fold(3u64, |h, t| h.wrapping_mul(31) ^ hash_bytes(t.header.as_bytes()) ^ hash_bytes(t.lines.concat().as_bytes())))
            }
            6 => {
                let c = Changes::<String>::new(sa, sb);
                let mut text: Lines = vec![];
                for t in (UnifiedClumpIter { before: &c.before, after: &c.after, iter: c.change_clumps(ctx) }) {
                    text.push(format!("{}\n", t.header));
                    text.extend(split_lines(&t.lines.concat()));
                }
                let text = seq(&normalise(text));
                let stamp = format!("--- f{t}\t2024-01-0{t} 00:00:00 +000{t}\n");
                Box::new(move || {
                    let h = match UnifiedDiffClump::get_from_at(&text, 0) {
                        Ok(Some(c)) => hash(&(&c.starts_and_lengths, c.context_lengths, &c.before_lines, &c.after_lines, c.lines_consumed)),
                        Ok(None) => 1,
                        Err(e) => hash(&e),
                    };
                    h ^ hash(&before_path_and_time_stamp(&stamp))
                })
            }
            7 => Box::new(move || {
                let patch = byte_patch(&a, &b, ctx);
                hash(&apply_bytes(&patch, if reverse { &b } else { &a }, reverse))
            }),
            _ => {
                let patch = text_patch(&p.before, &p.after, ctx);
                Box::new(move || {
                    let doc = serde_json::to_vec(&patch.0).unwrap_or_default();
                    let back: Vec<TextChangeClump> = serde_json::from_slice(&doc).unwrap_or_default();
                    hash(&back.iter().map(Hunk::of).collect::<Vec<_>>())
                })
            }
        };
        ops.push(op);
    }
    let want: Vec<u64> = ops.iter().map(|op| guard("alone", op)).collect::<Result<_, _>>()?;
    let barrier = Barrier::new(nthreads);
    let bad = std::sync::Mutex::new(None::<String>);
    let n = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|sc| {
        for (t, op) in ops.iter().enumerate() {
            let (want, barrier, bad, n) = (&want, &barrier, &bad, &n);
            sc.spawn(move || {
                barrier.wait();
                let t0 = std::time::Instant::now();
                for k in 0..rounds {
                    let got = guard("among others", op);
                    match got {
                        Ok(x) if x == want[t] => (),
                        Ok(x) => {
                            *bad.lock().unwrap() = Some(format!("thread {t}, round {k}: another result ({x:x}) than alone ({:x})", want[t]));
                            return;
                        }
                        Err(_) => {
                            *bad.lock().unwrap() = Some(format!("thread {t}, round {k}: it crashed"));
                            return;
                        }
                    }
                    n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if k % 16 == 0 && t0.elapsed().as_millis() > 300 {
                        return;
                    }
                    if k % 64 == 0 && bad.lock().unwrap().is_some() {
                        return;
                    }
                }
            });
        }
    });
    if let Some(x) = bad.into_inner().unwrap() {
        return Err(format!("operation {what} on {nthreads} threads at once: {x}").into());
    }
    let mut o = Outcome::new(&key, true);
    o.count("small operations repeated on several threads at once", n.into_inner());
    Ok(o)
}

/// A writer that fails, or crashes, after so many bytes.
struct Failing {
    left: usize,
    panics: bool,
}

impl std::io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            if self.panics {
                panic!("a writer that crashes");
            }
            return Err(std::io::Error::other("a writer that fails"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A reader that fails, or crashes, after some bytes.
struct FailingRead<'a> {
    data: &'a [u8],
    panics: bool,
}

impl std::io::Read for FailingRead<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.data.is_empty() {
            if self.panics {
                panic!("a reader that crashes");
            }
            return Err(std::io::Error::other("a reader that fails"));
        }
        let n = b.len().min(self.data.len()).min(50);
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

/// What fails, or is given up half-way, leaves nothing behind for what comes after it, on the same thread or another.
fn c21_after_failures(rng: &mut Rng, _i: usize) -> Verdict {
    let dir = Scratch::new()?;
    let h = |e: std::io::Error| Fault::Harness(format!("setting up: {e}"));
    let mut files = vec![];
    let mut key = vec![];
    for k in 0..4 {
        let n = rng.range(1, 25);
        let p = short_pair(rng, Alphabet::Small, n);
        let (mut a, mut b) = (join(&p.before).into_bytes(), join(&p.after).into_bytes());
        if k % 2 == 1 {
            a.push(0xfe);
            b.push(0xff);
        }
        let (x, y) = (dir.path(&format!("x{k}")), dir.path(&format!("y{k}")));
        std::fs::write(&x, &a).map_err(h)?;
        std::fs::write(&y, &b).map_err(h)?;
        key.extend_from_slice(&a);
        key.extend_from_slice(&b);
        files.push((x, y, a, b));
    }
    let none = dir.path("none");
    let ctx = rng.below(4) as u8;
    type Op<'a> = Box<dyn Fn(&mut dyn std::io::Write) -> Result<(), String> + Send + Sync + 'a>;
    let mut ops: Vec<Op> = vec![];
    let e = |e: &dyn std::fmt::Debug| format!("{e:?}");
    struct Through<'a>(&'a mut dyn std::io::Write);
    impl std::io::Write for Through<'_> {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.0.write(b)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            self.0.flush()
        }
    }
    for (x, y, a, b) in &files {
        let pairs = [(x.clone(), y.clone()), (none.clone(), y.clone()), (x.clone(), none.clone())];
        for (x, y) in pairs {
            let reverse = rng.chance(1, 2);
            ops.push(Box::new(move |w| {
                let d = Diff::new(&x, &y, ctx).map_err(|x| e(&x))?;
                let mut w = Through(w);
                let t = if reverse { b } else { a };
                let stats = match &d {
                    Diff::TextChange(d) => Some(ApplyClumpsFuzzy::apply_into(d, &Seq::<String>::read(&t[..]).map_err(|x| e(&x))?, &mut w, reverse).map_err(|x| e(&x))?),
                    Diff::ByteChange(d) => Some(ApplyClumpsClean::apply_into(d, &Seq::<u8>::from(&t[..]), &mut w, reverse).map_err(|x| e(&x))?),
                    Diff::TextAdd(p) | Diff::TextRemove(p) => {
                        p.write_into(&mut w).map_err(|x| e(&x))?;
                        None
                    }
                    Diff::ByteAdd(p) | Diff::ByteRemove(p) => {
                        p.write_into(&mut w).map_err(|x| e(&x))?;
                        None
                    }
                };
                use std::io::Write;
                write!(w, "{:?}", stats).map_err(|x| e(&x))?;
                d.to_writer(&mut w).map_err(|x| e(&x))
            }));
        }
    }
    let alone = |op: &Op| -> Result<Vec<u8>, Fault> {
        let mut out = vec![];
        guard("with a good writer", || op(&mut out))?.map_err(|x| Fault::Bad(format!("with a good writer: {x}")))?;
        Ok(out)
    };
    let want: Vec<Vec<u8>> = ops.iter().map(alone).collect::<Result<_, _>>()?;
    let mut o = Outcome::new(&key, true);
    for _ in 0..30 {
        let k = rng.below(ops.len());
        // something fails
        match rng.below(5) {
            0 => {
                let doc = &want[k];
                let at = rng.below(doc.len() + 1);
                let panics = rng.chance(1, 3);
                let _ = guard("a reader that fails", || Diff::from_reader(&mut FailingRead { data: &doc[..at], panics }).is_ok());
                let _ = guard("a reader that fails", || Seq::<String>::read(FailingRead { data: &doc[..at], panics }).is_ok());
                let _ = guard("a reader that fails", || Seq::<u8>::read(FailingRead { data: &doc[..at], panics }).is_ok());
                let _ = guard("files that are missing", || Diff::new(Path::new("/nonexistent/a"), Path::new("/nonexistent/b"), ctx).is_ok());
            }
            1 => {
                // given up half-way
                let (a, b) = (&files[k % 4].2, &files[k % 4].3);
                let c = Changes::<u8>::new(Seq::<u8>::from(&a[..]), Seq::<u8>::from(&b[..]));
                let _ = c.change_clumps(ctx).next();
            }
            _ => {
                let left = if rng.chance(1, 4) { 0 } else { rng.below(want[k].len()) };
                let panics = rng.chance(1, 3);
                let r = guard("a writer that fails", || ops[k](&mut Failing { left, panics }));
                if matches!(r, Ok(Ok(()))) {
                    return Err(format!("a writer fails after {left} of {} bytes, and nothing is said", want[k].len()).into());
                }
            }
        }
        // and then something else is done
        for _ in 0..2 {
            let j = if rng.chance(1, 3) { k } else { rng.below(ops.len()) };
            let got = if rng.chance(1, 4) { std::thread::scope(|s| s.spawn(|| alone(&ops[j])).join()).map_err(|_| Fault::Harness("joining".into()))?? } else { alone(&ops[j])? };
            if got != want[j] {
                return Err(format!("after a failure elsewhere another result: {}\nbefore: {}", show_bytes(&got), show_bytes(&want[j])).into());
            }
            o.count("runs after a failure compared", 1);
        }
    }
    Ok(o)
}

/// Sequences of several thousand items with enough common runs to sort on many threads.
fn c21_large(rng: &mut Rng, _i: usize, pools: &[rayon::ThreadPool]) -> Verdict {
    let n = rng.range(300, 500);
    let k = rng.range(4, 9);
    let mk = |rng: &mut Rng| -> Lines { (0..n).map(|_| format!("{}\n", rng.below(k))).collect() };
    let (a, b) = (mk(rng), mk(rng));
    let head = format!("{n} lines of {k} kinds");
    let f = |x: Fault| ctx_of(x, &head);
    let run = || guard("diff", || Changes::<String>::new(seq(&a), seq(&b)).change_clumps(3).map(|c| Hunk::of(&TextChangeClump::from(c))).collect::<Vec<_>>());
    let want = pools[0].install(run).map_err(f)?;
    let mut o = Outcome::new(join(&a).as_bytes(), true);
    for p in pools {
        let got = p.install(run).map_err(f)?;
        if got != want {
            return Err(f(format!("a pool of {} threads gives other hunks than a pool of {}", p.current_num_threads(), pools[0].current_num_threads()).into()));
        }
        o.count("large runs in worker pools compared", 1);
    }
    o.count("hunks compared", want.len() as u64 * pools.len() as u64);
    Ok(o)
}

/// The commands, as processes with different surroundings.
fn c21_processes(rng: &mut Rng, i: usize) -> Verdict {
    let dir = Scratch::new()?;
    let (tree, aux) = (dir.path("t"), dir.path("aux"));
    for d in [&tree, &aux] {
        std::fs::create_dir_all(d).map_err(|e| Fault::Harness(e.to_string()))?;
    }
    let j = job(rng, &tree, if i % 2 == 0 { i % 4 } else { 2 })?;
    let mut outs: Vec<(String, Vec<u8>, Option<i32>)> = vec![];
    let threads = ["1", "2", "3", "8", "32", ""];
    let t0 = snapshot(&tree)?;
    for (k, n) in threads.iter().enumerate() {
        let mut c = Cmd::new("pw_diff", if k % 2 == 0 { &tree } else { Path::new("/") }, &aux).arg("-c").arg(j.ctx.to_string()).arg(&j.before).arg(&j.after);
        if !n.is_empty() {
            c.env.push(("RAYON_NUM_THREADS", n.into()));
        }
        c.env.push(("HOME", format!("/nonexistent/{k}").into()));
        c.env.push(("LC_ALL", (*rng.pick(&["C", "de_DE.UTF-8", "C.UTF-8"])).into()));
        c.env.push(("TZ", (*rng.pick(&["UTC", "Asia/Tokyo"])).into()));
        let r = c.run()?;
        outs.push((c.show(), r.out, r.code));
        if let Some(x) = changed(&t0, &snapshot(&tree)?, &[]) {
            return Err(format!("making a patch altered the files: {x}").into());
        }
    }
    let mut o = Outcome::new(&outs[0].1, true);
    for (show, out, code) in &outs[1..] {
        if *out != outs[0].1 || *code != outs[0].2 {
            return Err(format!("two runs differ ({}): {show} and {}\none={}\nother={}", diff_pos(out, &outs[0].1), outs[0].0, show_bytes(&outs[0].1), show_bytes(out)).into());
        }
        o.count("pw_diff runs compared", 1);
    }
    // the same patch applied by several processes at once, each to its own copy
    if outs[0].2 == Some(0) {
        let doc = String::from_utf8_lossy(&outs[0].1).into_owned();
        let from = j.before.to_string_lossy().into_owned();
        let n = 4;
        let mut copies = vec![];
        for k in 0..n {
            let (d, x) = (tree.join(format!("copy{k}")), aux.join(format!("{k}")));
            for p in [&d, &x] {
                std::fs::create_dir_all(p).map_err(|e| Fault::Harness(e.to_string()))?;
            }
            let name = j.before.file_name().unwrap().to_string_lossy().into_owned();
            let e = |e: std::io::Error| Fault::Harness(e.to_string());
            if j.before.exists() {
                std::fs::write(d.join(&name), &j.targets[2]).map_err(e)?;
            }
            std::fs::write(x.join("p"), doc.replace(&from, &name)).map_err(e)?;
            copies.push((d, x, name));
        }
        let results: Vec<Result<(Option<i32>, Option<Vec<u8>>), Fault>> = std::thread::scope(|sc| {
            let hs: Vec<_> = copies
                .iter()
                .map(|(d, x, name)| {
                    sc.spawn(move || {
                        let r = Cmd::new("pw_patch", d, x).arg(x.join("p")).run()?;
                        Ok((r.code, std::fs::read(d.join(name)).ok()))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let results: Vec<_> = results.into_iter().collect::<Result<_, _>>()?;
        for r in &results[1..] {
            if *r != results[0] {
                return Err(format!("the same patch applied to the same file gives {:?} and {:?}\npatch={}", results[0], r, clip(&doc, 3000)).into());
            }
            o.count("pw_patch runs compared", 1);
        }
    }
    Ok(o)
}

/// The same patch document made again and again within one thread, and read back by others.
fn c21_again(rng: &mut Rng, i: usize) -> Verdict {
    let dir = Scratch::new()?;
    let js = jobs(rng, &dir.0, 6)?;
    let firsts = references(&js, &dir.0, i % 10 == 0)?;
    let mut o = Outcome::new(&firsts.concat(), true);
    for _ in 0..20 {
        let k = rng.below(js.len());
        let got = work(&js[k]);
        if got != firsts[k] {
            return Err(differs("done again after others", k, &got, &firsts[k]));
        }
        o.count("repetitions compared", 1);
    }
    let d = Diff::new(&js[2].before, &js[2].after, js[2].ctx).map_err(|e| Fault::Bad(format!("{e}")))?;
    let docs: Vec<Vec<u8>> = std::thread::scope(|sc| {
        let d = &d;
        let hs: Vec<_> = (0..4).map(|_| sc.spawn(move || write_doc(d).unwrap_or_default())).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if docs.iter().any(|x| *x != docs[0] || x.is_empty()) {
        return Err("one patch written by several threads at once gives different documents".into());
    }
    Ok(o)
}

/// Other contents of the same length, valid UTF-8 where it was.
fn another(v: &[u8], k: u8) -> Vec<u8> {
    let turn = |b: u8, from: u8, n: u8| from + (b - from + k) % n;
    v.iter()
        .map(|b| match b {
            b'0'..=b'9' => turn(*b, b'0', 10),
            b'a'..=b'z' => turn(*b, b'a', 26),
            b'A'..=b'Z' => turn(*b, b'A', 26),
            _ => *b,
        })
        .collect()
}

/// The same two paths again and again with other contents of the same length (and, at times, the same time stamp),
/// in one process; compared with processes of their own.
fn c21_rewritten(rng: &mut Rng, _i: usize) -> Verdict {
    let dir = Scratch::new()?;
    let h = |e: std::io::Error| Fault::Harness(e.to_string());
    let kind = rng.below(4);
    let j = job(rng, &dir.0, kind)?;
    let texts = [&j.before, &j.after].map(|p| std::fs::read(p).ok());
    let stamp = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
    let same_stamp = rng.chance(2, 3);
    let by_rename = rng.chance(1, 2);
    let show = |k: u8, only: usize| -> Result<(), Fault> {
        for (n, (p, t)) in [&j.before, &j.after].into_iter().zip(&texts).enumerate() {
            let Some(t) = t else { continue };
            let t = if only == 2 || only == n { another(t, k) } else { t.clone() };
            let to = if by_rename { p.with_extension("next") } else { p.clone() };
            std::fs::write(&to, t).map_err(h)?;
            if same_stamp {
                std::fs::File::options().write(true).open(&to).and_then(|f| f.set_modified(stamp)).map_err(h)?;
            }
            if by_rename {
                std::fs::rename(&to, p).map_err(h)?;
            }
        }
        Ok(())
    };
    let mut o = Outcome::new(format!("{texts:?}").as_bytes(), true);
    let versions: Vec<(u8, usize)> = (0..4).map(|k| (k, rng.below(3))).collect();
    let mut refs = vec![];
    for (k, only) in &versions {
        show(*k, *only)?;
        refs.extend(references(std::slice::from_ref(&j), &dir.0, true)?);
    }
    for _ in 0..8 {
        let n = rng.below(versions.len());
        show(versions[n].0, versions[n].1)?;
        let got = work(&j);
        if got != refs[n] {
            return Err(differs(&format!("rewriting the files (time stamps kept: {same_stamp}, renamed: {by_rename}) and diffing them again"), n, &got, &refs[n]));
        }
        o.count("runs on rewritten files compared", 1);
    }
    Ok(o)
}

pub fn c21(c: &mut Ctx) {
    c.rule = "a distinct case is one set of file pairs with all results on them; non-trivial: all".into();
    if let Err(Fault::Harness(e) | Fault::Bad(e)) = need_tools() {
        return c.harness_error(&e);
    }
    let pools: Vec<rayon::ThreadPool> = match [1, 2, 3, 5, 8, 16].iter().map(|n| pool(*n)).collect() {
        Ok(p) => p,
        Err(Fault::Harness(e) | Fault::Bad(e)) => return c.harness_error(&e),
    };
    race_detector(c);
    interpreter(c);
    c.stage_t("concurrent", c.tier(40, 1200), c.tier(30, 900), 2, |r, i| c21_concurrent(r, i, &pools));
    c.stage_t("pools", c.tier(60, 2000), c.tier(30, 900), 4, |r, i| c21_pools(r, i, &pools));
    c.stage("after-failures", c.tier(150, 6000), c.tier(8, 300), c21_after_failures);
    c.stage_t("tight", c.tier(45, 1800), c.tier(15, 600), 1, c21_tight);
    c.stage("rewritten", c.tier(60, 2000), c.tier(20, 600), c21_rewritten);
    c.stage("again", c.tier(100, 3000), c.tier(20, 600), c21_again);
    c.stage_t("large", c.tier(12, 300), c.tier(30, 900), 2, |r, i| c21_large(r, i, &pools));
    c.stage("processes", c.tier(60, 1500), c.tier(20, 600), c21_processes);
}

/// Its own frames: a report about them concerns the code under test, not the libraries it uses.
fn own(line: &str) -> bool {
    line.contains("/repo/pw_") || line.contains("pw_diff_lib/src") || line.contains(" pw_diff_lib::") || line.contains("<pw_diff_lib::")
}

/// The concurrent part again, in a build in which every access to memory is watched.
fn race_detector(c: &Ctx) {
    let Some(bin) = std::env::var_os("VH_TSAN").filter(|b| Path::new(b).is_file()) else {
        c.note("race detector unavailable", 1);
        return;
    };
    c.stage_t("race-detector", 1, 600, 1, |_, _| {
        let dir = Scratch::new()?;
        let out = std::process::Command::new(&bin)
            .arg("C21-race")
            .env("VH_VERIF", &dir.0)
            .env("VH_SCRATCH", dir.path("scratch"))
            .env("TSAN_OPTIONS", format!("exitcode=0 halt_on_error=0 log_path={}", dir.path("tsan").display()))
            .output()
            .map_err(|e| Fault::Harness(e.to_string()))?;
        let mut reports = String::new();
        for e in std::fs::read_dir(&dir.0).map_err(|e| Fault::Harness(e.to_string()))?.flatten() {
            if e.file_name().to_string_lossy().starts_with("tsan") {
                reports.push_str(&String::from_utf8_lossy(&std::fs::read(e.path()).unwrap_or_default()));
            }
        }
        let mut o = Outcome::new(b"tsan", true);
        let mut elsewhere = 0;
        for r in reports.split("WARNING: ThreadSanitizer").skip(1) {
            // the innermost frames of the two accesses
            let near = r.lines().any(|l| {
                let l = l.trim_start();
                (l.starts_with("#0 ") || l.starts_with("#1 ") || l.starts_with("#2 ")) && own(l)
            });
            if near {
                return Err(format!("the race detector reports{}", clip(r, 5000)).into());
            }
            elsewhere += 1;
        }
        o.count("race reports outside the code under test", elsewhere);
        let text = String::from_utf8_lossy(&out.stdout);
        if out.status.code() == Some(1) {
            return Err(format!("in the build with the race detector: {}", clip(&text, 4000)).into());
        }
        let ev: serde_json::Value = std::fs::read(dir.path("evidence/C21-race.json"))
            .ok()
            .and_then(|b| serde_json::from_slice(&b).ok())
            .unwrap_or_default();
        let n = |k: &str| ev["coverage"]["observed"][k].as_u64().unwrap_or(0);
        o.count("race detector: concurrent runs watched", n("concurrent runs compared"));
        o.count("race detector: large pool runs watched", n("large runs in worker pools compared"));
        o.count("race detector: gave no answer", !out.status.success() as u64);
        Ok(o)
    });
}

/// A tiny concurrent run in an interpreter that detects undefined behaviour and data races, under many schedules.
fn interpreter(c: &Ctx) {
    let Some(dir) = std::env::var_os("VH_MIRI") else { return };
    let seeds = c.tier(8, 96);
    c.stage_t("interpreter", 1, 900, 1, |_, _| {
        let out = std::process::Command::new("timeout")
            .args([if c.thorough { "1500" } else { "150" }, "cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--no-default-features", "--features", "det", "--", "--tiny"])
            .current_dir(&dir)
            .env("CARGO_TARGET_DIR", c.verif.join(".build/miri"))
            .env("VERIF_SEED", c.seed.to_string())
            .env(
                "MIRIFLAGS",
                format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows -Zmiri-permissive-provenance -Zmiri-many-seeds=0..{seeds}"),
            )
            .output()
            .map_err(|e| Fault::Harness(e.to_string()))?;
        let text = format!("{}{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
        let mut o = Outcome::new(b"miri", true);
        if let Some(k) = text.find("another result in a") {
            return Err(format!("under the interpreter: {}", clip(&text[k..], 2000)).into());
        }
        for r in text.split("error: Undefined Behavior").skip(1) {
            if r.lines().take(3).any(|l| l.trim_start().starts_with("-->") && own(l)) {
                return Err(format!("the interpreter reports undefined behaviour{}", clip(r, 4000)).into());
            }
        }
        let held = text.matches("C21-tiny: held").count() as u64;
        o.count("interpreted schedules without undefined behaviour", held);
        o.count("interpreter gave no answer", (held == 0) as u64);
        if held == 0 {
            eprintln!("the interpreter gave no answer: {}", clip(&text, 1500));
        }
        Ok(o)
    });
}

/// The concurrent part alone, for a build with a race detector.
pub fn c21_race(c: &mut Ctx) {
    let pools: Vec<rayon::ThreadPool> = match [2, 4, 8].iter().map(|n| pool(*n)).collect() {
        Ok(p) => p,
        Err(Fault::Harness(e) | Fault::Bad(e)) => return c.harness_error(&e),
    };
    c.stage_t("race-concurrent", c.tier(8, 200), c.tier(30, 600), 2, |r, _| c21_concurrent(r, 1, &pools));
    c.stage_t("race-large", c.tier(2, 40), c.tier(30, 600), 2, |r, i| c21_large(r, i, &pools));
}

/// Small enough for an interpreter that looks for undefined behaviour and explores schedules.
pub fn c21_tiny() {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut rng = Rng::new(seed);
    let mk = |rng: &mut Rng| -> Lines { (0..6).map(|_| format!("{}\n", rng.below(2))).collect() };
    let pairs: Vec<(Lines, Lines)> = (0..2).map(|_| (mk(&mut rng), mk(&mut rng))).collect();
    let run = |k: usize| -> (Vec<Hunk>, Vec<u8>) {
        let (a, b) = &pairs[k];
        let p = text_patch(a, b, 1);
        let out = apply_text(&p, a, false).unwrap().0;
        (hunks(&p, false), out)
    };
    let want = [run(0), run(1)];
    let p = pool(2).ok().expect("pool");
    std::thread::scope(|sc| {
        for t in 0..2 {
            let (want, run, p) = (&want, &run, &p);
            sc.spawn(move || {
                for k in [t, 1 - t] {
                    assert!(run(k) == want[k], "another result in a thread");
                    assert!(p.install(|| run(k)) == want[k], "another result in a worker pool");
                }
            });
        }
    });
    println!("C21-tiny: held");
}
