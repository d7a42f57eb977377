//! C01, C02: making patches and applying them.

use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
use pw_diff_lib::sequence::Seq;

use crate::gen::*;
use crate::rng::Rng;
use crate::run::{clip, guard, Ctx, Fault, Outcome, Verdict};
use crate::util::*;

// ---------------------------------------------------------------- C01

fn roundtrip_text(p: &Pair, ctx: u8) -> Verdict {
    let mut o = Outcome::new(&p.key(ctx), p.before != p.after);
    let head = || format!("context={ctx}\n{}", clip(&p.show(), 8000));
    let patch = guard("making the patch", || text_patch(&p.before, &p.after, ctx))
        .map_err(|f| ctx_of(f, &head()))?;
    for (reverse, from, to) in [(false, &p.before, &p.after), (true, &p.after, &p.before)] {
        let (out, tally) = guard("applying", || apply_text(&patch, from, reverse)).map_err(|f| ctx_of(f, &head()))??;
        same_text(&format!("reverse={reverse}"), &out, to).map_err(|e| format!("{e}\n{}", head()))?;
        let want = Tally { clean: patch.0.len(), ..Default::default() };
        if tally != want {
            return Err(format!("reverse={reverse}: statistics {tally:?}, expected {want:?}\n{}", head()).into());
        }
    }
    o.count("hunks applied cleanly (both directions)", 2 * patch.0.len() as u64);
    o.count("pairs with several hunks", (patch.0.len() > 1) as u64);
    o.count("pairs without a final newline", (p.before.last().is_some_and(|l| !l.ends_with('\n')) || p.after.last().is_some_and(|l| !l.ends_with('\n'))) as u64);
    o.count("pairs with an empty side", (p.before.is_empty() || p.after.is_empty()) as u64);
    o.count("lines", (p.before.len() + p.after.len()) as u64);
    o.sample = Some(clip(&format!("context={ctx} {}", p.show()), 600));
    Ok(o)
}

pub fn ctx_of(f: Fault, head: &str) -> Fault {
    match f {
        Fault::Bad(m) => Fault::Bad(format!("{m}\n{head}")),
        Fault::Harness(m) => Fault::Harness(format!("{m}\n{}", clip(head, 2000))),
    }
}

pub fn c01(c: &mut Ctx) {
    c.rule = "pairs of text files (exhaustive small words, edited versions of generated files, large files) x contexts, applied forward and in reverse; non-trivial: the files differ; distinct by content and context".into();
    let c = &*c;
    let (k, max) = if c.thorough { (3, 5) } else { (2, 5) };
    let words = all_words(k, max);
    let ctxs = [0u8, 1, 2, 3];
    let n = words.len() * words.len() * ctxs.len();
    c.stage("words", n, c.tier(25, 200), |_, i| {
        let (w, x) = (i / ctxs.len(), ctxs[i % ctxs.len()]);
        let p = Pair { before: word_lines(&words[w / words.len()]), after: word_lines(&words[w % words.len()]), alpha: Alphabet::Tiny };
        let mut v = roundtrip_text(&p, x)?;
        v.sample = None;
        Ok(v)
    });
    c.stage("random", c.tier(150_000, 3_000_000), c.tier(14, 500), |rng, _| {
        let p = text_pair(rng);
        let ctx = any_context(rng);
        roundtrip_text(&p, ctx)
    });
    // every context on a few files
    c.stage("contexts", c.tier(3, 60) * 256, c.tier(8, 60), |rng, i| {
        let mut r = Rng::new(c.seed ^ (i / 256) as u64 ^ 0x55);
        let n = r.range(40, 700);
        let p = text_pair_of(&mut r, *rng.pick(&[Alphabet::Unique, Alphabet::Mixed]), n);
        let mut v = roundtrip_text(&p, (i % 256) as u8)?;
        v.sample = None;
        Ok(v)
    });
    c.stage("large", c.tier(200, 800), c.tier(25, 300), |rng, i| {
        let mut v = roundtrip_text(&large_pair(rng, i), *rng.pick(&[0u8, 2, 3, 200, 255]))?;
        v.sample = None;
        Ok(v)
    });
    c.stage_t("huge", c.tier(2, 12), c.tier(60, 300), 4, |rng, _| {
        let mut v = roundtrip_text(&huge_pair(rng), *rng.pick(&[0u8, 2, 255]))?;
        v.sample = None;
        v.count("pairs of more than 2^20 lines", 1);
        Ok(v)
    });
    // through files, as the commands do it
    c.stage("files", c.tier(3000, 60_000), c.tier(12, 120), |rng, i| {
        let p = if i % 200 == 199 { large_pair(rng, i / 200) } else { text_pair(rng) };
        let ctx = any_context(rng);
        c01_files(&p, ctx, i)
    });
}

/// The pair written to files, the patch made from the files, the files read back as targets.
fn c01_files(p: &Pair, ctx: u8, i: usize) -> Verdict {
    let head = || format!("context={ctx}\n{}", clip(&p.show(), 8000));
    let dir = crate::run::scratch_root().join(format!("c01-{i}"));
    let io = |e: std::io::Error| Fault::Harness(format!("scratch: {e}"));
    std::fs::create_dir_all(&dir).map_err(io)?;
    let (b, a) = (dir.join("b"), dir.join("a"));
    std::fs::write(&b, join(&p.before)).map_err(io)?;
    std::fs::write(&a, join(&p.after)).map_err(io)?;
    let mut o = Outcome::new(&p.key(ctx), p.before != p.after);
    let patch = guard("making the patch", || pw_diff_lib::text_diff::TextChangeDiff::new(&b, &a, ctx))
        .map_err(|f| ctx_of(f, &head()))?
        .map_err(|e| format!("making the patch from files: {e}\n{}", head()))?;
    if patch.before_path() != b || patch.after_path() != a {
        return Err(format!("the patch names {:?} and {:?}", patch.before_path(), patch.after_path()).into());
    }
    let n = patch.clumps().count();
    for (reverse, from, to) in [(false, &b, &p.after), (true, &a, &p.before)] {
        let mut out = vec![];
        let stats = guard("applying", || -> std::io::Result<_> {
            let target = Seq::<String>::read(std::fs::File::open(from)?)?;
            patch.apply_into(&target, &mut out, reverse)
        })
        .map_err(|f| ctx_of(f, &head()))?
        .map_err(|e| format!("applying: {e}\n{}", head()))?;
        same_text(&format!("files, reverse={reverse}"), &out, to).map_err(|e| format!("{e}\n{}", head()))?;
        let (tally, want) = (Tally::from(stats), Tally { clean: n, ..Default::default() });
        if tally != want {
            return Err(format!("files, reverse={reverse}: statistics {tally:?}, expected {want:?}\n{}", head()).into());
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    o.count("pairs made and applied through files", 1);
    o.count("pairs beginning with a special character", join(&p.before).starts_with(['\u{feff}', '\u{0}', '\u{1a}', '\u{c}', '\u{200b}']) as u64);
    Ok(o)
}

/// Files beyond 2^16 lines, hunks beyond 255 lines, hundreds of hunks.
pub fn large_pair(rng: &mut Rng, i: usize) -> Pair {
    let mut uniq = 0;
    match i % 11 {
        // thousands of lines, all different but for a few that stand alone
        10 => {
            let (n, m) = (rng.range(2_000, 9_000), rng.range(2_000, 9_000));
            let mut before: Lines = (0..n).map(|k| format!("b {k}\n")).collect();
            let mut after: Lines = (0..m).map(|k| format!("a {k}\n")).collect();
            let k = rng.range(1, 6);
            let place = |rng: &mut Rng, n: usize| -> Vec<usize> {
                let mut v: Vec<usize> = (0..k).map(|_| if rng.chance(1, 4) { *rng.pick(&[0, n - 1]) } else { rng.below(n) }).collect();
                v.sort();
                v.dedup();
                v
            };
            for (c, at) in place(rng, n).into_iter().enumerate() {
                before[at] = format!("common {c}\n");
            }
            for (c, at) in place(rng, m).into_iter().enumerate() {
                after[at] = format!("common {c}\n");
            }
            Pair { before, after, alpha: Alphabet::Unique }
        }
        0 => {
            let n = rng.range(66_000, 70_000);
            let before = gen_lines(rng, n, Alphabet::Unique, &mut uniq);
            let mut after = before.clone();
            for at in [65_990usize, 65_538, 65_530, 40_000, 32_770, 300, 254, 3] {
                after[at] = format!("changed {at}\n");
            }
            after.insert(65_600, "inserted\n".into());
            after.remove(100);
            if rng.chance(1, 2) {
                // displaced: the two sides' positions differ
                let m = rng.range(1, 40_000);
                let new: Lines = (0..m).map(|k| format!("more {k}\n")).collect();
                let at = rng.below(20_000);
                after.splice(at..at, new);
            }
            Pair { before, after, alpha: Alphabet::Unique }
        }
        // one line very frequent in one file or both
        4 => {
            let n = log_range(rng, 260, 20_000);
            let m = rng.range(2, (4_000_000 / n).clamp(2, 900));
            let common = *rng.pick(&["\n", "}\n", "x\n"]);
            let mut make = |rng: &mut Rng, n: usize| -> Lines {
                (0..n)
                    .map(|_| {
                        if rng.chance(1, 40) {
                            uniq += 1;
                            format!("u{}\n", uniq % 37)
                        } else {
                            common.to_string()
                        }
                    })
                    .collect()
            };
            let (before, after) = (make(rng, n), make(rng, m));
            if rng.chance(1, 2) {
                Pair { before, after, alpha: Alphabet::Mixed }
            } else {
                Pair { before: after, after: before, alpha: Alphabet::Mixed }
            }
        }
        // a third of the lines blank
        5 => {
            let n = rng.range(800, 2500);
            let before = gen_lines(rng, n, Alphabet::Mixed, &mut uniq);
            let k = rng.range(1, 12);
            let after = edit(rng, &before, k, Alphabet::Mixed, &mut uniq);
            Pair { before, after, alpha: Alphabet::Mixed }
        }
        // hunks beyond 2^16 lines
        6 => {
            let n = rng.range(65_530, 67_000);
            let before = gen_lines(rng, n, Alphabet::Unique, &mut uniq);
            let keep = rng.below(6);
            let mut after: Lines = before[..keep].to_vec();
            if rng.chance(1, 2) {
                after.extend_from_slice(&before[n - rng.range(1, 5)..]);
            }
            if rng.chance(1, 2) {
                Pair { before, after, alpha: Alphabet::Unique }
            } else {
                Pair { before: after, after: before, alpha: Alphabet::Unique }
            }
        }
        // thousands of lines in runs of equal ones, edits lengthen or shorten runs
        8 | 9 => {
            let n = rng.range(4_100, 5_200);
            let mut before: Lines = vec![];
            let mut k = 0;
            while before.len() < n {
                k += 1;
                let len = if rng.chance(1, 40) { rng.range(1, 6) } else { 1 };
                for _ in 0..len {
                    before.push(format!("run {k}\n"));
                }
            }
            let mut after = before.clone();
            for _ in 0..rng.range(1, 3) {
                // a line with an equal neighbour, if there is one
                let from = rng.below(after.len() - 1);
                let at = (from..after.len() - 1).find(|j| after[*j] == after[j + 1]).unwrap_or(from);
                if rng.chance(1, 2) {
                    after.remove(at);
                } else {
                    let line = after[at].clone();
                    for _ in 0..rng.range(1, 4) {
                        after.insert(at, line.clone());
                    }
                }
            }
            if rng.chance(1, 2) {
                Pair { before, after, alpha: Alphabet::Mixed }
            } else {
                Pair { before: after, after: before, alpha: Alphabet::Mixed }
            }
        }
        // lengths around powers of two, very long lines
        7 => {
            let n = (1usize << rng.range(7, 13)) + rng.below(5) - 2;
            let mut before = gen_lines(rng, n, Alphabet::Unique, &mut uniq);
            let at = rng.below(n);
            let len = *rng.pick(&[255usize, 256, 65_535, 65_536, 65_537, 300_000]);
            before[at] = format!("{}\n", "y".repeat(len));
            let mut after = before.clone();
            after.remove(n / 2);
            after.push("new\n".into());
            after[0] = format!("{}z\n", "y".repeat(len));
            Pair { before, after, alpha: Alphabet::Unique }
        }
        1 => {
            let n = rng.range(500, 900);
            let before = gen_lines(rng, n, Alphabet::Unique, &mut uniq);
            let mut after = before.clone();
            let s = rng.range(5, 100);
            let len = rng.range(256, 380);
            let m = rng.range(0, 700);
            let new = gen_lines(rng, m, Alphabet::Unique, &mut uniq);
            after.splice(s..s + len, new);
            Pair { before, after, alpha: Alphabet::Unique }
        }
        2 => {
            let n = 3000;
            let before = gen_lines(rng, n, Alphabet::Unique, &mut uniq);
            let after = before
                .iter()
                .enumerate()
                .flat_map(|(k, l)| if k % 9 == 4 { vec![format!("new {k}\n")] } else if k % 17 == 3 { vec![] } else { vec![l.clone()] })
                .collect();
            Pair { before, after, alpha: Alphabet::Unique }
        }
        _ => {
            let n = rng.range(400, 800);
            let alpha = *rng.pick(&[Alphabet::Mixed, Alphabet::Nasty, Alphabet::Small]);
            let before = gen_lines(rng, n, alpha, &mut uniq);
            let k = rng.range(10, 40);
            let after = edit(rng, &before, k, alpha, &mut uniq);
            Pair { before: normalise(before), after: normalise(after), alpha }
        }
    }
}

/// Files of more than 2^20 lines.
pub fn huge_pair(rng: &mut Rng) -> Pair {
    let n = (1 << 20) + rng.range(100, 3_000);
    let salt = rng.next() | 1;
    let before: Lines = (0..n as u64).map(|k| format!("{:x}\n", k.wrapping_mul(salt))).collect();
    let mut after = before.clone();
    for at in [n - 2, 1 << 20, 1_000_001, 999_999, 524_290, rng.below(n), 4] {
        after[at] = format!("changed {at}\n");
    }
    let m = rng.below(4);
    after.splice(20..20, (0..m).map(|k| format!("more {k}\n")));
    if rng.chance(1, 2) {
        Pair { before, after, alpha: Alphabet::Unique }
    } else {
        Pair { before: after, after: before, alpha: Alphabet::Unique }
    }
}

/// More than 2^24 bytes on one side, a few on the other.
pub fn huge_bytes(rng: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let n = (1 << 24) + rng.range(100, 3_000);
    let mut k = rng.next();
    let a: Vec<u8> = (0..n)
        .map(|_| {
            k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (k >> 56) as u8
        })
        .collect();
    let mut b: Vec<u8> = vec![];
    for at in [n - 7, 1 << 23, 1000] {
        b.extend_from_slice(&a[at..at + 6]);
    }
    b.reverse();
    b[..6].reverse();
    b[6..12].reverse();
    b[12..].reverse();
    b.push(a[n - 1]);
    if rng.chance(1, 2) { (a, b) } else { (b, a) }
}

// ---------------------------------------------------------------- C02

pub fn byte_key(a: &[u8], b: &[u8], ctx: u8) -> Vec<u8> {
    let mut k = vec![ctx];
    k.extend((a.len() as u32).to_le_bytes());
    k.extend(a);
    k.extend(b);
    k
}

pub fn show_pair_bytes(a: &[u8], b: &[u8], ctx: u8) -> String {
    clip(&format!("context={ctx}\nbefore={a:?}\nafter={b:?}"), 8000)
}

fn roundtrip_bytes(a: &[u8], b: &[u8], ctx: u8) -> Verdict {
    let mut o = Outcome::new(&byte_key(a, b, ctx), a != b);
    let head = || show_pair_bytes(a, b, ctx);
    let patch = guard("making the patch", || byte_patch(a, b, ctx)).map_err(|f| ctx_of(f, &head()))?;
    for (reverse, from, to) in [(false, a, b), (true, b, a)] {
        let (out, tally) = guard("applying", || apply_bytes(&patch, from, reverse)).map_err(|f| ctx_of(f, &head()))??;
        if tally.clean != patch.0.len() || tally.total() != tally.clean {
            return Err(format!("reverse={reverse}: {} hunks, statistics {tally:?}\n{}", patch.0.len(), head()).into());
        }
        if out != to {
            return Err(format!("reverse={reverse}: wrong output ({})\ngot={}\n{}", diff_pos(&out, to), clip(&format!("{out:?}"), 4000), head()).into());
        }
    }
    o.count("hunks applied (both directions)", 2 * patch.0.len() as u64);
    o.count("pairs with several hunks", (patch.0.len() > 1) as u64);
    o.count("pairs with an empty side", (a.is_empty() || b.is_empty()) as u64);
    o.count("pairs not valid UTF-8", (std::str::from_utf8(a).is_err() || std::str::from_utf8(b).is_err()) as u64);
    o.sample = Some(clip(&head(), 500));
    Ok(o)
}

pub fn c02(c: &mut Ctx) {
    c.rule = "pairs of byte strings (exhaustive small words, generated and edited) x contexts, applied forward and in reverse; non-trivial: they differ; distinct by content and context".into();
    let c = &*c;
    let (k, max) = if c.thorough { (3, 5) } else { (2, 5) };
    let words = all_words(k, max);
    let ctxs = [0u8, 1, 2, 3];
    c.stage("words", words.len() * words.len() * ctxs.len(), c.tier(25, 200), |_, i| {
        let w = i / ctxs.len();
        let mut v = roundtrip_bytes(&words[w / words.len()], &words[w % words.len()], ctxs[i % ctxs.len()])?;
        v.sample = None;
        Ok(v)
    });
    // every byte value inserted, deleted and replaced, at start, middle and end
    c.stage("values", 256 * 9, c.tier(10, 60), |rng, i| {
        let x = (i / 9) as u8;
        let base = [x.wrapping_add(1), x.wrapping_add(2), x.wrapping_sub(1)];
        let mut other = base.to_vec();
        let at = [0, 1, 3][i % 3];
        match (i / 3) % 3 {
            0 => other.insert(at, x),
            1 => other[at.min(2)] = x,
            _ => {
                other.remove(at.min(2));
            }
        }
        roundtrip_bytes(&base, &other, rng.below(4) as u8)
    });
    c.stage("random", c.tier(150_000, 3_000_000), c.tier(14, 500), |rng, _| {
        let (a, b) = byte_pair(rng);
        let ctx = any_context(rng);
        roundtrip_bytes(&a, &b, ctx)
    });
    c.stage("contexts", c.tier(2, 40) * 256, c.tier(8, 60), |_, i| {
        let mut r = Rng::new(c.seed ^ (i / 256) as u64 ^ 0x77);
        let n = r.range(100, 1500);
        let a = gen_bytes(&mut r, n, 2);
        let b = edit_bytes(&mut r, &a, 4, 2);
        let mut v = roundtrip_bytes(&a, &b, (i % 256) as u8)?;
        v.sample = None;
        Ok(v)
    });
    c.stage("large", c.tier(200, 3000), c.tier(25, 300), |rng, i| {
        let (a, b) = large_bytes(rng, i);
        let mut v = roundtrip_bytes(&a, &b, *rng.pick(&[0u8, 2, 127, 128, 255]))?;
        v.sample = None;
        Ok(v)
    });
    c.stage_t("huge", c.tier(2, 12), c.tier(60, 300), 4, |rng, _| {
        let (a, b) = huge_bytes(rng);
        let mut v = roundtrip_bytes(&a, &b, *rng.pick(&[0u8, 2, 255]))?;
        v.sample = None;
        v.count("pairs of more than 2^24 bytes", 1);
        Ok(v)
    });
    c.stage("files", c.tier(3000, 60_000), c.tier(10, 120), |rng, i| {
        let (a, b) = if i % 200 == 199 { large_bytes(rng, i / 200) } else { byte_pair(rng) };
        let ctx = any_context(rng);
        c02_files(&a, &b, ctx, i)
    });
}

fn c02_files(a: &[u8], b: &[u8], ctx: u8, i: usize) -> Verdict {
    let head = || show_pair_bytes(a, b, ctx);
    let dir = crate::run::scratch_root().join(format!("c02-{i}"));
    let io = |e: std::io::Error| Fault::Harness(format!("scratch: {e}"));
    std::fs::create_dir_all(&dir).map_err(io)?;
    let (pa, pb) = (dir.join("b"), dir.join("a"));
    std::fs::write(&pa, a).map_err(io)?;
    std::fs::write(&pb, b).map_err(io)?;
    let patch = guard("making the patch", || pw_diff_lib::byte_diff::ByteChangeDiff::new(&pa, &pb, ctx))
        .map_err(|f| ctx_of(f, &head()))?
        .map_err(|e| format!("making the patch from files: {e}\n{}", head()))?;
    if patch.before_path() != pa || patch.after_path() != pb {
        return Err(format!("the patch names {:?} and {:?}", patch.before_path(), patch.after_path()).into());
    }
    let n = patch.clumps().count();
    for (reverse, from, to) in [(false, &pa, b), (true, &pb, a)] {
        let mut out = vec![];
        let target = guard("reading", || Seq::<u8>::read(std::fs::File::open(from).unwrap()))?.map_err(|e| format!("reading: {e}"))?;
        let stats = guard("applying", || patch.apply_into(&target, &mut out, reverse))
            .map_err(|f| ctx_of(f, &head()))?
            .map_err(|e| format!("applying: {e}\n{}", head()))?;
        if out != to {
            return Err(format!("files, reverse={reverse}: wrong output ({})\n{}", diff_pos(&out, to), head()).into());
        }
        let (tally, want) = (Tally::from(stats), Tally { clean: n, ..Default::default() });
        if tally != want {
            return Err(format!("files, reverse={reverse}: statistics {tally:?}, expected {want:?}\n{}", head()).into());
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut o = Outcome::new(&byte_key(a, b, ctx), a != b);
    o.count("pairs made and applied through files", 1);
    Ok(o)
}

// ---------------------------------------------------------------- C03
