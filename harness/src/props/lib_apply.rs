//! C07-C11: applying patches.

use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::{ApplyClumpFuzzy, ApplyClumpsFuzzy, WillApply};
use pw_diff_lib::sequence::{ConsumableSeq, ConsumableSeqIfce};

use crate::gen::*;
use crate::model::{self, Explained, Fit};
use crate::props::lib_core::{ctx_of, show_pair_bytes};
use crate::rng::Rng;
use crate::run::{clip, guard, Ctx, Fault, Outcome, Verdict};
use crate::util::*;

fn show(p: &Pair, ctx: u8, target: &[String], reverse: bool) -> String {
    format!("context={ctx} reverse={reverse}\n{}\ntarget={:?}", p.show(), clip(&join(target), 6000))
}

fn key(p: &Pair, ctx: u8, target: &[String], reverse: bool) -> Vec<u8> {
    let mut k = p.key(ctx);
    k.push(reverse as u8);
    k.extend(join(target).bytes());
    k
}

/// Files a patch might meet: its original, its result, edited versions, mixtures, unrelated and short ones.
pub fn any_target(rng: &mut Rng, p: &Pair, patch: &TextPatch) -> Lines {
    let mut uniq = 1_000_000;
    let base = if rng.chance(1, 2) { p.before.clone() } else { p.after.clone() };
    let mut t = match rng.below(12) {
        0 => base,
        1 => {
            let m = any_size(rng).min(60);
            gen_lines(rng, m, p.alpha, &mut uniq)
        }
        2 => vec![],
        3 => {
            let n = rng.below(base.len() + 1);
            base[..n].to_vec()
        }
        4 => {
            let n = rng.below(base.len() + 1);
            base[n..].to_vec()
        }
        5 | 6 => {
            // some hunks applied, others not
            let mut out = vec![];
            let mut i = 0;
            for c in &patch.0 {
                let h = Hunk::of(c);
                if h.before_start < i {
                    break;
                }
                out.extend_from_slice(&p.before[i..h.before_start]);
                out.extend(if rng.chance(1, 2) { h.after.clone() } else { h.before.clone() });
                i = h.before_start + h.before.len();
            }
            out.extend_from_slice(&p.before[i..]);
            if rng.chance(1, 2) {
                edit(rng, &out, 1, p.alpha, &mut uniq)
            } else {
                out
            }
        }
        7 => {
            // doubled
            let mut v = base.clone();
            v.extend(base);
            v
        }
        8 => {
            let mut v = base;
            v.reverse();
            v
        }
        9 => {
            // shifted
            let k = rng.range(1, 9);
            let mut v = gen_lines(rng, k, p.alpha, &mut uniq);
            v.extend(base);
            v
        }
        _ => {
            let k = rng.range(1, 6);
            edit(rng, &base, k, p.alpha, &mut uniq)
        }
    };
    t = normalise(t);
    if rng.chance(1, 8) {
        chop_eol(&mut t);
    }
    t
}

fn small_pair(rng: &mut Rng) -> Pair {
    let alpha = any_alphabet(rng);
    let n = match rng.below(6) {
        0 => rng.below(5),
        1..=4 => rng.range(4, 40),
        _ => rng.range(30, 120),
    };
    text_pair_of(rng, alpha, n)
}

fn apply_context(rng: &mut Rng) -> u8 {
    match rng.below(10) {
        0 => 0,
        1 => 1,
        2..=4 => 2,
        5 | 6 => 3,
        7 => 4,
        8 => rng.range(5, 9) as u8,
        _ => any_context(rng),
    }
}

/// The application must do what the reference model does.
fn against_model(p: &Pair, ctx: u8, patch: &TextPatch, target: &[String], reverse: bool, o: &mut Outcome) -> Result<model::Run, Fault> {
    let head = || show(p, ctx, target, reverse);
    let hs = guard("hunks", || hunks(patch, reverse))?;
    let want = guard("model", || model::apply(&hs, target))?;
    let (out, tally) = guard("applying", || apply_text(patch, target, reverse)).map_err(|f| ctx_of(f, &head()))??;
    if out != want.out || tally != want.tally {
        return Err(format!(
            "outcome differs from the reference ({})\ngot={} {tally:?}\nwant={} {:?} {:?}\nhunks={hs:?}\n{}",
            diff_pos(&out, &want.out), show_bytes(&out), show_bytes(&want.out), want.tally, want.events, head()
        )
        .into());
    }
    for e in &want.events {
        match e {
            model::Event::Applied { displaced: 0, fit: Fit::Clean } => o.count("hunks applied in place", 1),
            model::Event::Applied { displaced, fit } => {
                o.count("hunks applied forward of their place", (*displaced > 0) as u64);
                o.count("hunks applied before their place", (*displaced < 0) as u64);
                o.count("hunks applied with reduced context", (*fit != Fit::Clean) as u64);
            }
            model::Event::Already { displaced, .. } => {
                o.count("hunks already applied", 1);
                o.count("hunks already applied elsewhere", (*displaced != 0) as u64);
            }
            model::Event::Failed => o.count("hunks failed", 1),
        }
    }
    Ok(want)
}

// ---------------------------------------------------------------- scale

/// Many hunks, thousands of lines, large displacements: a pair, and a version of its old file with edits of its own.
fn scale_case(rng: &mut Rng, i: usize) -> (Pair, u8, Lines) {
    let huge = i % 12 == 5;
    let alpha = if huge { Alphabet::Unique } else { *rng.pick(&[Alphabet::Unique, Alphabet::Unique, Alphabet::Mixed]) };
    let mut uniq = 0;
    let n = if huge { rng.range(66_000, 68_000) } else { log_range(rng, 200, if alpha == Alphabet::Mixed { 2000 } else { 6000 }) };
    let before = gen_lines(rng, n, alpha, &mut uniq);
    let k = log_range(rng, 1, if huge { 20 } else { 400 }).min(n / 4);
    let mut after = vec![];
    let every = (n / k).max(1);
    for (j, l) in before.iter().enumerate() {
        if j % every == every / 2 {
            match rng.below(4) {
                0 => {}
                1 => {
                    after.push(l.clone());
                    after.push(format!("added {j}\n"));
                }
                2 if i % 3 == 0 => after.extend((0..rng.range(1, 400)).map(|x| format!("block {j} {x}\n"))),
                _ => after.push(format!("new {j}\n")),
            }
        } else {
            after.push(l.clone());
        }
    }
    let mut ctx = *rng.pick(&[0u8, 1, 2, 3, 3, 5, 30, 127, 128, 200, 255]);
    // a hunk that fails is looked for everywhere, with every reduction of its context
    if k.min(n / (2 * ctx as usize + 1)) * n * (ctx as usize).max(1) > 8_000_000 {
        ctx = 2;
    }
    let mut t: Lines = if rng.chance(1, 4) { after.clone() } else { before.clone() };
    // some of the new file's changes already there, lines damaged here and there
    if rng.chance(1, 2) {
        for _ in 0..log_range(rng, 1, 120) {
            let at = rng.below(t.len());
            match rng.below(3) {
                0 => t[at] = format!("damaged {at}\n"),
                1 => {
                    t.remove(at);
                }
                _ => t.insert(at, format!("extra {at}\n")),
            }
        }
    }
    // a large displacement, at the start or further on
    if rng.chance(2, 3) {
        let at = if rng.chance(2, 3) { 0 } else { rng.below(t.len() + 1) };
        if rng.chance(2, 3) {
            let m = log_range(rng, 1, if k < 4 && ctx < 9 { 70_000 } else { 3000 });
            t.splice(at..at, (0..m).map(|x| format!("unrelated {x}\n")));
        } else {
            let m = log_range(rng, 1, 3000).min(t.len() - at);
            t.drain(at..at + m);
        }
    }
    (Pair { before, after, alpha }, ctx, t)
}

fn scale_text(rng: &mut Rng, i: usize) -> Verdict {
    let (p, ctx, t) = scale_case(rng, i);
    let patch = guard("making the patch", || text_patch(&p.before, &p.after, ctx))?;
    let mut reverse = rng.chance(1, 3);
    let hs = guard("hunks", || hunks(&patch, reverse))?;
    let mut o = Outcome::new(&key(&p, ctx, &t, reverse), !hs.is_empty());
    against_model(&p, ctx, &patch, &t, reverse, &mut o)?;
    let head = || show(&p, ctx, &t, reverse);
    let want = guard("model", || model::already_applied(&hs, &t))?;
    let got = guard("is_already_applied", || patch.is_already_applied(&seq(&t), reverse)).map_err(|f| ctx_of(f, &head()))?;
    if got != want {
        return Err(format!("is_already_applied says {got}, the reference {want}\n{}", head()).into());
    }
    // its own results, and with unrelated lines before them
    for _ in 0..2 {
        let result = if reverse { &p.before } else { &p.after };
        let hs = guard("hunks", || hunks(&patch, reverse))?;
        let m = if rng.chance(1, 2) { 0 } else { rng.range(1, 2000) };
        let mut r: Lines = (0..m).map(|x| format!("unrelated {x}\n")).collect();
        r.extend(result.iter().cloned());
        let want = guard("model", || model::already_applied(&hs, &r))?;
        let got = guard("is_already_applied", || patch.is_already_applied(&seq(&r), reverse))?;
        if got != want || (m == 0 && !got) {
            return Err(format!("is_already_applied says {got}, the reference {want}, to its own result with {m} lines before it\n{}", show(&p, ctx, &r, reverse)).into());
        }
        against_model(&p, ctx, &patch, &r, reverse, &mut o)?;
        o.count("own results recognised", (m == 0) as u64);
        reverse = !reverse;
    }
    o.count("patches of more than 255 hunks", (hs.len() > 255) as u64);
    o.count("targets of more than 65535 lines", (t.len() > 65_535) as u64);
    Ok(o)
}

/// Long byte strings, hundreds of hunks, positions beyond 2^16.
fn scale_bytes(rng: &mut Rng, i: usize) -> Verdict {
    let (a, b) = if i % 2 == 0 {
        large_bytes(rng, i / 2)
    } else {
        // many hunks made by hand over a long string of distinct places
        let n = rng.range(1000, 100_000);
        (gen_bytes(rng, n, 2), vec![])
    };
    let hs: Vec<(usize, Vec<u8>, usize, Vec<u8>)>;
    if i % 2 == 0 {
        let patch = guard("making the patch", || byte_patch(&a, &b, *rng.pick(&[0u8, 1, 3, 128, 255])))?;
        hs = byte_hunks(&patch, false);
    } else {
        let k = log_range(rng, 1, 800).min(a.len() / 4);
        let step = a.len() / k;
        let mut v = vec![];
        let mut shift = 0i64;
        for j in 0..k {
            let s = j * step + rng.below(step / 2);
            let len = rng.range(1, step / 2);
            let m = rng.below(len.min(300) + 2);
            let new = gen_bytes(rng, m, 2);
            v.push((s, a[s..s + len].to_vec(), (s as i64 + shift) as usize, new));
            shift += m as i64 - len as i64;
        }
        hs = v;
    }
    let reverse = rng.chance(1, 2);
    let mut result = vec![];
    let mut used = 0;
    for h in &hs {
        result.extend_from_slice(&a[used..h.0]);
        result.extend_from_slice(&h.3);
        used = h.0 + h.1.len();
    }
    result.extend_from_slice(&a[used..]);
    let diff = byte_diff_of(&hs).map_err(|e| Fault::Bad(format!("a well-formed patch is not read: {e}")))?;
    let eff: Vec<_> = if reverse { hs.iter().cloned().map(|h| (h.2, h.3, h.0, h.1)).collect() } else { hs.clone() };
    let mut target = if rng.chance(1, 2) == reverse { result } else { a };
    if rng.chance(1, 2) && !target.is_empty() {
        for _ in 0..log_range(rng, 1, 60) {
            let at = rng.below(target.len());
            target[at] ^= 1 << rng.below(8);
        }
        if rng.chance(1, 3) {
            target.truncate(target.len() - rng.below(target.len() / 2 + 1));
        }
    }
    let here = |at: usize, x: &[u8]| at + x.len() <= target.len() && target[at..at + x.len()] == *x;
    let want = eff.iter().all(|h| here(h.2, &h.3));
    let got = guard("already_applied", || diff.already_applied(&bseq(&target), reverse))?;
    if got != want {
        return Err(format!("reverse={reverse}: already_applied says {got}, expected {want} ({} hunks, {} bytes)", hs.len(), target.len()).into());
    }
    let mut v = c11_judge(&diff, &eff, &target, reverse, &|| format!("{} hunks, {} bytes, case {i}, reverse={reverse}", hs.len(), target.len()))?;
    v.count("patches of more than 255 hunks", (hs.len() > 255) as u64);
    v.count("targets of more than 65535 bytes", (target.len() > 65_535) as u64);
    v.sample = None;
    Ok(v)
}

// ---------------------------------------------------------------- C07

fn c07_own(p: &Pair, ctx: u8) -> Verdict {
    let mut o = Outcome::new(&p.key(ctx), p.before != p.after);
    let patch = guard("making the patch", || text_patch(&p.before, &p.after, ctx))?;
    for (reverse, result) in [(false, &p.after), (true, &p.before)] {
        let head = || show(p, ctx, result, reverse);
        let got = guard("is_already_applied", || patch.is_already_applied(&seq(result), reverse)).map_err(|f| ctx_of(f, &head()))?;
        if !got {
            return Err(format!("a patch is not recognised as already applied to its own result\n{}", head()).into());
        }
        for c in &patch.0 {
            let got = guard("clump is_already_applied", || ApplyClumpFuzzy::is_already_applied(c, &seq(result), 0, reverse)).map_err(|f| ctx_of(f, &head()))?;
            if got != Some(WillApply::Cleanly) {
                return Err(format!("a hunk is not cleanly recognised as already applied to its own result: {got:?}\n{}", head()).into());
            }
        }
        let hs = guard("hunks", || hunks(&patch, reverse))?;
        if hs.iter().all(|h| !model::occurs(&h.before, h.ctx, result)) {
            let (out, tally) = guard("applying again", || apply_text(&patch, result, reverse)).map_err(|f| ctx_of(f, &head()))??;
            same_text("applying again", &out, result).map_err(|e| format!("{e}\n{}", head()))?;
            let want = Tally { already: hs.len(), ..Default::default() };
            if tally != want {
                return Err(format!("applying again: statistics {tally:?}, expected {want:?}\n{}", head()).into());
            }
            o.count("second applications recognised hunk by hunk", 1);
            o.count("hunks recognised", hs.len() as u64);
        }
        o.count("own results recognised", 1);
    }
    o.sample = Some(clip(&format!("context={ctx} {}", p.show()), 500));
    Ok(o)
}

fn c07_other(rng: &mut Rng) -> Verdict {
    let p = small_pair(rng);
    let ctx = apply_context(rng);
    let patch = guard("making the patch", || text_patch(&p.before, &p.after, ctx))?;
    let target = any_target(rng, &p, &patch);
    let reverse = rng.chance(1, 2);
    let head = || show(&p, ctx, &target, reverse);
    let hs = guard("hunks", || hunks(&patch, reverse))?;
    let got = guard("is_already_applied", || patch.is_already_applied(&seq(&target), reverse)).map_err(|f| ctx_of(f, &head()))?;
    if got {
        if let Some(h) = hs.iter().find(|h| !model::occurs(&h.after, h.ctx, &target)) {
            return Err(format!("recognised as already applied, but the target does not hold what hunk {h:?} leaves\n{}", head()).into());
        }
    }
    let want = guard("model", || model::already_applied(&hs, &target))?;
    if got != want {
        return Err(format!("is_already_applied says {got}, the reference {want}\nhunks={hs:?}\n{}", head()).into());
    }
    let mut o = Outcome::new(&key(&p, ctx, &target, reverse), !hs.is_empty());
    o.count("other files recognised", got as u64);
    o.count("other files not recognised", !got as u64);
    o.sample = Some(clip(&format!("{} -> {got}", head()), 500));
    Ok(o)
}

/// Apply, apply again, reverse, reverse again.
fn c07_history(rng: &mut Rng) -> Verdict {
    let n = rng.range(3, 60);
    let mut p = text_pair_of(rng, Alphabet::Unique, n);
    // every hunk removes something not found in the other file: no hunk can be found again
    p.before = p.before.iter().enumerate().map(|(i, l)| if p.after.contains(l) { l.clone() } else { format!("old {i} {l}") }).collect();
    p.before = normalise(p.before);
    let ctx = rng.range(1, 5) as u8;
    let patch = guard("making the patch", || text_patch(&p.before, &p.after, ctx))?;
    let mut o = Outcome::new(&p.key(ctx), !patch.0.is_empty());
    let fwd = guard("hunks", || hunks(&patch, false))?;
    let rev = guard("hunks", || hunks(&patch, true))?;
    let mut cur = p.before.clone();
    let mut is_after = false;
    for step in 0..6 {
        let reverse = rng.chance(1, 2);
        let head = || format!("step {step}\n{}", show(&p, ctx, &cur, reverse));
        let (hs, goal) = if reverse { (&rev, &p.before) } else { (&fwd, &p.after) };
        let there = is_after != reverse;
        if there && hs.iter().any(|h| model::occurs(&h.before, h.ctx, &cur)) {
            continue;
        }
        let (out, tally) = guard("applying", || apply_text(&patch, &cur, reverse)).map_err(|f| ctx_of(f, &head()))??;
        same_text("history", &out, goal).map_err(|e| format!("{e}\n{}", head()))?;
        let want = if there { Tally { already: hs.len(), ..Default::default() } } else { Tally { clean: hs.len(), ..Default::default() } };
        if tally != want {
            return Err(format!("statistics {tally:?}, expected {want:?}\n{}", head()).into());
        }
        o.count("applications in histories", 1);
        o.count("applications to a file already there", there as u64);
        cur = goal.clone();
        is_after = !reverse;
    }
    Ok(o)
}

fn byte_model(hs: &[(usize, Vec<u8>, usize, Vec<u8>)], target: &[u8]) -> (Vec<u8>, usize, usize, usize) {
    let has = |at: usize, b: &[u8]| at.checked_add(b.len()).is_some_and(|e| e <= target.len()) && target[at..at + b.len()] == *b;
    let (mut out, mut used) = (vec![], 0usize);
    let (mut clean, mut already, mut failed) = (0, 0, 0);
    for (bs, b, as_, a) in hs {
        if *bs >= used && has(*bs, b) {
            out.extend_from_slice(&target[used..*bs]);
            out.extend_from_slice(a);
            used = bs + b.len();
            clean += 1;
        } else if *as_ >= used && has(*as_, a) {
            out.extend_from_slice(&target[used..as_ + a.len()]);
            used = as_ + a.len();
            already += 1;
        } else {
            failed += 1;
        }
    }
    out.extend_from_slice(&target[used..]);
    (out, clean, already, failed)
}

fn byte_hunks(p: &BytePatch, reverse: bool) -> Vec<(usize, Vec<u8>, usize, Vec<u8>)> {
    p.0.iter()
        .map(|c| {
            let (b, a) = (c.before(reverse), c.after(reverse));
            (b.start, b.items.to_vec(), a.start, a.items.to_vec())
        })
        .collect()
}

fn c07_bytes(rng: &mut Rng) -> Verdict {
    let (a, b) = byte_pair(rng);
    let ctx = any_context(rng);
    let head = || show_pair_bytes(&a, &b, ctx);
    let patch = guard("making the patch", || byte_patch(&a, &b, ctx)).map_err(|f| ctx_of(f, &head()))?;
    let mut o = Outcome::new(head().as_bytes(), a != b);
    let here = |t: &[u8], at: usize, x: &[u8]| at + x.len() <= t.len() && t[at..at + x.len()] == *x;
    for reverse in [false, true] {
        let result = if reverse { &a } else { &b };
        if !guard("already_applied", || patch.already_applied(&bseq(result), reverse)).map_err(|f| ctx_of(f, &head()))? {
            return Err(format!("reverse={reverse}: a byte patch is not recognised as already applied to its own result\n{}", head()).into());
        }
        let hs = byte_hunks(&patch, reverse);
        if hs.iter().all(|h| !here(result, h.0, &h.1)) {
            let (out, tally) = guard("applying again", || apply_bytes(&patch, result, reverse)).map_err(|f| ctx_of(f, &head()))??;
            if tally != (Tally { already: hs.len(), ..Default::default() }) {
                return Err(format!("reverse={reverse}: applying again, statistics {tally:?}\n{}", head()).into());
            }
            if out != *result {
                return Err(format!("reverse={reverse}: applying again changes the result ({})\n{}", diff_pos(&out, result), head()).into());
            }
            o.count("second byte applications that changed nothing", 1);
        }
        let k = rng.range(1, 3);
        let t = match rng.below(3) {
            0 => edit_bytes(rng, result, k, 0),
            1 => if reverse { b.clone() } else { a.clone() },
            _ => {
                let n = rng.below(result.len() + 1);
                result[..n].to_vec()
            }
        };
        let want = hs.iter().all(|h| here(&t, h.2, &h.3));
        let got = guard("already_applied", || patch.already_applied(&bseq(&t), reverse)).map_err(|f| ctx_of(f, &head()))?;
        if got != want {
            return Err(format!("reverse={reverse}: already_applied says {got}, expected {want}\ntarget={t:?}\n{}", head()).into());
        }
        o.count("other byte targets recognised", got as u64);
        o.count("other byte targets not recognised", !got as u64);
    }
    Ok(o)
}

pub fn c07(c: &mut Ctx) {
    c.rule = "patches x {own result, own original, other files}, and apply/reverse histories; non-trivial: the patch has a hunk; distinct by patch and target".into();
    let c = &*c;
    let words = all_words(2, if c.thorough { 6 } else { 4 });
    let ctxs = [0u8, 1, 2, 3];
    c.stage("words", words.len() * words.len() * ctxs.len(), c.tier(15, 150), |_, i| {
        let w = i / ctxs.len();
        let p = Pair { before: word_lines(&words[w / words.len()]), after: word_lines(&words[w % words.len()]), alpha: Alphabet::Tiny };
        let mut v = c07_own(&p, ctxs[i % ctxs.len()])?;
        v.sample = None;
        Ok(v)
    });
    c.stage("own", c.tier(240000, 2000000), c.tier(20, 250), |rng, _| {
        let p = text_pair(rng);
        let ctx = any_context(rng);
        c07_own(&p, ctx)
    });
    c.stage("other", c.tier(400000, 3000000), c.tier(22, 300), |rng, _| c07_other(rng));
    c.stage("histories", c.tier(120000, 1000000), c.tier(18, 150), |rng, _| c07_history(rng));
    c.stage("bytes", c.tier(80000, 1500000), c.tier(18, 200), |rng, _| c07_bytes(rng));
    c.stage("scale", c.tier(750, 3000), c.tier(25, 200), scale_text);
    c.stage("scale-bytes", c.tier(1500, 6000), c.tier(20, 100), scale_bytes);
}

// ---------------------------------------------------------------- C08

/// Builds a displaced target for a patch over distinct lines, and what applying must give.
/// Returns None when the patch does not suit.
fn displaced(rng: &mut Rng, hs: &[Hunk], before: &[String], most: usize, only_first: bool) -> Option<(Lines, Lines, Tally)> {
    if hs.iter().any(|h| h.before.is_empty()) {
        return None;
    }
    let mut uniq = 0;
    let mut fresh = |n: usize| -> Lines {
        (0..n)
            .map(|_| {
                uniq += 1;
                format!("unrelated {uniq}\n")
            })
            .collect()
    };
    let (mut target, mut want): (Lines, Lines) = (vec![], vec![]);
    let mut tally = Tally::default();
    let mut i = 0;
    let mut any = false;
    for (n, h) in hs.iter().enumerate() {
        let gap_before: Lines = before[i..h.before_start].to_vec();
        let gap_after = hs.get(n + 1).map(|x| x.before_start - (h.before_start + h.before.len()));
        let mut gap = gap_before.clone();
        let mut d = 0i64;
        if n == 0 || !only_first {
            match rng.below(3) {
                0 => {
                    let k = rng.range(1, most).min(gap_after.unwrap_or(usize::MAX));
                    let at = rng.below(gap.len() + 1);
                    gap.splice(at..at, fresh(k));
                    d = k as i64;
                }
                1 => {
                    let k = rng.range(1, most).min(gap.len());
                    let at = rng.below(gap.len() - k + 1);
                    gap.drain(at..at + k);
                    d = -(k as i64);
                }
                _ => {}
            }
        }
        target.extend(gap.iter().cloned());
        want.extend(gap);
        target.extend(h.before.iter().cloned());
        want.extend(h.after.iter().cloned());
        i = h.before_start + h.before.len();
        if d == 0 {
            tally.clean += 1
        } else {
            tally.fuzzy += 1;
            any = true;
        }
    }
    let mut rest = before[i..].to_vec();
    if rng.chance(1, 3) {
        // the end of the file is different too
        let k = rng.below(rest.len() + 1);
        rest.truncate(k);
        if rng.chance(1, 2) && (rest.is_empty() || rest.last().unwrap().ends_with('\n')) && target.last().is_none_or(|l| l.ends_with('\n')) && want.last().is_none_or(|l| l.ends_with('\n')) {
            let k = rng.below(most);
            rest.extend(fresh(k));
        }
    }
    target.extend(rest.iter().cloned());
    want.extend(rest);
    if !any {
        return None;
    }
    // lines without a newline may only be at the end of the target
    if target.iter().rev().skip(1).any(|l| !l.ends_with('\n')) {
        return None;
    }
    Some((target, want, tally))
}

fn c08_unique(rng: &mut Rng, single: bool, big: bool) -> Verdict {
    let n = if big { rng.range(300, 900) } else { rng.range(2, 60) };
    let ctx = if rng.chance(1, 5) { 0 } else { rng.range(1, 6) as u8 };
    let mut uniq = 0;
    let before = gen_lines(rng, n, Alphabet::Unique, &mut uniq);
    let mut after = before.clone();
    let edits = if single { 1 } else { rng.range(2, 5) };
    for _ in 0..edits {
        let at = rng.below(after.len() + 1);
        let k = rng.range(0, 3).min(after.len() - at);
        let m = if k == 0 { rng.range(1, 3) } else { rng.below(4) };
        let new = gen_lines(rng, m, Alphabet::Unique, &mut uniq);
        after.splice(at..at + k, new);
    }
    let mut p = Pair { before, after, alpha: Alphabet::Unique };
    if rng.chance(1, 8) {
        chop_eol(&mut p.after);
    }
    let patch = guard("making the patch", || text_patch(&p.before, &p.after, ctx))?;
    let reverse = rng.chance(1, 2);
    let hs = guard("hunks", || hunks(&patch, reverse))?;
    let from = if reverse { &p.after } else { &p.before };
    if single && hs.len() > 1 {
        return Ok(Outcome::default());
    }
    let most = if big { rng.range(100, 400) } else { 30 };
    let made = displaced(rng, &hs, from, most, false);
    let Some((target, want, tally)) = made else {
        return Ok(Outcome::default());
    };
    let head = || show(&p, ctx, &target, reverse);
    let (out, got) = guard("applying", || apply_text(&patch, &target, reverse)).map_err(|f| ctx_of(f, &head()))??;
    same_text("displaced target", &out, &want).map_err(|e| format!("{e}\nstatistics {got:?}\n{}", head()))?;
    if got != tally {
        return Err(format!("statistics {got:?}, expected {tally:?}\n{}", head()).into());
    }
    let mut o = Outcome::new(&key(&p, ctx, &target, reverse), true);
    o.count("displaced patches applied", 1);
    o.count("hunks displaced", tally.fuzzy as u64);
    o.count("hunks that followed", tally.clean as u64);
    o.sample = Some(clip(&head(), 500));
    Ok(o)
}

fn c08_model(rng: &mut Rng) -> Verdict {
    let alpha = *rng.pick(&[Alphabet::Tiny, Alphabet::Small, Alphabet::Small, Alphabet::Mixed, Alphabet::Unique]);
    let n = rng.range(2, 40);
    let p = text_pair_of(rng, alpha, n);
    let ctx = apply_context(rng);
    let patch = guard("making the patch", || text_patch(&p.before, &p.after, ctx))?;
    let reverse = rng.chance(1, 2);
    let from = if reverse { &p.after } else { &p.before };
    let mut uniq = 500_000;
    let mut t = from.clone();
    for _ in 0..rng.range(1, 3) {
        let at = if rng.chance(1, 2) { 0 } else { rng.below(t.len() + 1) };
        match rng.below(4) {
            0 => {
                let k = rng.range(1, 12).min(t.len() - at);
                t.drain(at..at + k);
            }
            1 if !t.is_empty() => {
                // a copy of some region elsewhere: several candidates
                let s = rng.below(t.len());
                let e = (s + rng.range(1, 12)).min(t.len());
                let block = t[s..e].to_vec();
                t.splice(at..at, block);
            }
            _ => {
                let k = rng.range(1, 12);
                let a = if rng.chance(1, 2) { alpha } else { Alphabet::Unique };
                let new = gen_lines(rng, k, a, &mut uniq);
                t.splice(at..at, new);
            }
        }
    }
    let t = normalise(t);
    let mut o = Outcome::new(&key(&p, ctx, &t, reverse), false);
    let run = against_model(&p, ctx, &patch, &t, reverse, &mut o)?;
    o.nontrivial = run.events.iter().any(|e| matches!(e, model::Event::Applied { displaced, .. } | model::Event::Already { displaced, .. } if *displaced != 0));
    o.sample = Some(clip(&format!("{} -> {:?}", show(&p, ctx, &t, reverse), run.events), 600));
    Ok(o)
}

/// The search itself, from any state of the target.
fn c08_search(rng: &mut Rng) -> Verdict {
    let alpha = *rng.pick(&[Alphabet::Tiny, Alphabet::Small, Alphabet::Mixed, Alphabet::Unique]);
    let n = rng.range(2, 30);
    let p = text_pair_of(rng, alpha, n);
    let ctx = apply_context(rng);
    let patch = guard("making the patch", || text_patch(&p.before, &p.after, ctx))?;
    if patch.0.is_empty() {
        return Ok(Outcome::default());
    }
    let reverse = rng.chance(1, 2);
    let hs = guard("hunks", || hunks(&patch, reverse))?;
    let target = any_target(rng, &p, &patch);
    let s = seq(&target);
    let i = rng.below(hs.len());
    let mut o = Outcome::new(&key(&p, ctx, &target, reverse), false);
    for _ in 0..3 {
        let used = if rng.chance(1, 2) { 0 } else { rng.below(target.len() + 1) };
        let offset = rng.below(21) as i64 - 10;
        let head = || format!("hunk {i} offset={offset} used={used}\n{}", show(&p, ctx, &target, reverse));
        let mut pd = ConsumableSeq::<String>::new(&s);
        pd.advance_consumed_by(used);
        let got = guard("will_apply_nearby", || patch.0[i].will_apply_nearby(&pd, patch.0.get(i + 1), offset as isize, reverse)).map_err(|f| ctx_of(f, &head()))?;
        let want = model::nearby(&hs[i], hs.get(i + 1), &target, used, offset).map(|(d, f)| (d as isize, conv(f)));
        if got != want {
            return Err(format!("search finds {got:?}, expected {want:?}\nhunks={hs:?}\n{}", head()).into());
        }
        let got = guard("will_apply", || patch.0[i].will_apply(&s, offset as isize, reverse)).map_err(|f| ctx_of(f, &head()))?;
        let w = model::fits(&hs[i], &target, hs[i].before_start as i64 + offset).map(conv);
        if got != w {
            return Err(format!("will_apply says {got:?}, expected {w:?}\nhunks={hs:?}\n{}", head()).into());
        }
        o.nontrivial |= want.is_some();
        o.count("searches that found a place", want.is_some() as u64);
        o.count("searches that found none", want.is_none() as u64);
    }
    Ok(o)
}

fn conv(f: Fit) -> WillApply {
    match f {
        Fit::Clean => WillApply::Cleanly,
        Fit::Reduced(a, b) => WillApply::WithReductions((a as u8, b as u8)),
    }
}

pub fn c08(c: &mut Ctx) {
    c.rule = "patches x displaced targets: distinct lines with the exact expected result, repetitive lines against the reference model, and the search alone; non-trivial: a hunk is found away from its place; distinct by patch and target".into();
    let c = &*c;
    c.stage("single", c.tier(240000, 2000000), c.tier(20, 150), |rng, _| c08_unique(rng, true, false));
    c.stage("several", c.tier(240000, 2000000), c.tier(20, 150), |rng, _| c08_unique(rng, false, false));
    c.stage("far", c.tier(12000, 100000), c.tier(20, 150), |rng, i| c08_unique(rng, i % 2 == 0, true));
    c.stage("very-far", c.tier(4, 20), c.tier(15, 60), |rng, i| {
        let mut uniq = 0;
        let before = gen_lines(rng, 40, Alphabet::Unique, &mut uniq);
        let mut after = before.clone();
        after[20] = "changed\n".into();
        let patch = guard("making the patch", || text_patch(&before, &after, 3))?;
        let k = rng.range(65_400, 66_600);
        let pre: Lines = (0..k).map(|x| format!("unrelated {x}\n")).collect();
        let mk = |v: &Lines| -> Lines { pre.iter().chain(v).cloned().collect() };
        let reverse = i % 2 == 1;
        let (from, to) = if reverse { (&after, &before) } else { (&before, &after) };
        let (out, tally) = guard("applying", || apply_text(&patch, &mk(from), reverse))??;
        same_text("displaced by more than 65000 lines", &out, &mk(to)).map_err(|e| clip(&e, 500))?;
        if tally != (Tally { fuzzy: 1, ..Default::default() }) {
            return Err(format!("displaced by {k} lines: statistics {tally:?}").into());
        }
        let mut o = Outcome::new(&k.to_le_bytes(), true);
        o.count("hunks displaced", 1);
        Ok(o)
    });
    c.stage("model", c.tier(480000, 4000000), c.tier(22, 300), |rng, _| c08_model(rng));
    c.stage("search", c.tier(320000, 2500000), c.tier(20, 250), |rng, _| c08_search(rng));
    c.stage("scale", c.tier(1000, 4000), c.tier(28, 250), scale_text);
}

// ---------------------------------------------------------------- C09

fn c09_damage(rng: &mut Rng, big: bool) -> Verdict {
    let n = rng.range(1, if big { 900 } else { 40 });
    let ctx = if big { *rng.pick(&[100u8, 127, 128, 129, 200, 255]) } else { rng.range(2, 9) as u8 };
    let mut uniq = 0;
    let before = gen_lines(rng, n, Alphabet::Unique, &mut uniq);
    let edits = rng.range(1, 3);
    let mut after = before.clone();
    for _ in 0..edits {
        let at = rng.below(after.len() + 1);
        let k = rng.range(0, 3).min(after.len() - at);
        let m = if k == 0 { rng.range(1, 3) } else { rng.below(4) };
        let new = gen_lines(rng, m, Alphabet::Unique, &mut uniq);
        after.splice(at..at + k, new);
    }
    let mut p = Pair { before, after, alpha: Alphabet::Unique };
    if rng.chance(1, 8) {
        chop_eol(&mut p.before);
        chop_eol(&mut p.after);
    }
    let patch = guard("making the patch", || text_patch(&p.before, &p.after, ctx))?;
    let reverse = rng.chance(1, 2);
    let hs = guard("hunks", || hunks(&patch, reverse))?;
    let (from, to) = if reverse { (&p.after, &p.before) } else { (&p.before, &p.after) };
    let mut target = from.clone();
    let mut want = to.clone();
    let mut tally = Tally::default();
    let mut expect = vec![];
    for h in &hs {
        let (s, e) = h.ctx;
        let top = s.max(e);
        let mut r = 0;
        if top >= 2 && rng.chance(4, 5) {
            // damage the line at depth a from the outside (1 = outermost) on either side, and maybe others further out
            let a = if s > 0 && rng.chance(2, 3) { rng.range(1, s) } else { 0 };
            let b = if e > 0 && (a == 0 || rng.chance(1, 2)) { rng.range(1, e) } else { 0 };
            let need = a.max(b);
            if need >= 1 && need < top {
                r = need;
                for d in 1..=a {
                    if d == a || rng.chance(1, 2) {
                        let l = format!("damaged {} {d}\n", h.before_start);
                        target[h.before_start + d - 1] = l.clone();
                        want[h.after_start + d - 1] = l;
                    }
                }
                for d in 1..=b {
                    if d == b || rng.chance(1, 2) {
                        let (i, j) = (h.before_start + h.before.len() - d, h.after_start + h.after.len() - d);
                        let eol = if target[i].ends_with('\n') { "\n" } else { "" };
                        let l = format!("damaged {} -{d}{eol}", h.before_start);
                        target[i] = l.clone();
                        want[j] = l;
                    }
                }
            }
        }
        if r == 0 {
            tally.clean += 1;
            expect.push(WillApply::Cleanly);
        } else {
            tally.fuzzy += 1;
            expect.push(WillApply::WithReductions((r.min(s) as u8, r.min(e) as u8)));
        }
    }
    let head = || show(&p, ctx, &target, reverse);
    for (i, (c, w)) in patch.0.iter().zip(&expect).enumerate() {
        let got = guard("will_apply", || c.will_apply(&seq(&target), 0, reverse)).map_err(|f| ctx_of(f, &head()))?;
        if got != Some(*w) {
            return Err(format!("hunk {i}: will_apply says {got:?}, expected {w:?}\n{}", head()).into());
        }
    }
    // possibly displaced as a whole, within the reach of the search
    let reach = hs.windows(2).map(|w| w[1].before_start - w[0].before_start - w[0].before.len()).min().unwrap_or(30);
    // (an empty hunk fits anywhere, so it is not displaced)
    if reach > 0 && rng.chance(1, 3) && !hs.is_empty() && hs.iter().all(|h| !h.before.is_empty()) {
        let k = rng.range(1, reach.min(30));
        let pre: Lines = (0..k).map(|x| format!("unrelated {x}\n")).collect();
        target.splice(0..0, pre.clone());
        want.splice(0..0, pre);
        if expect[0] == WillApply::Cleanly {
            tally.clean -= 1;
            tally.fuzzy += 1;
        }
    }
    let head = || show(&p, ctx, &target, reverse);
    let (out, got) = guard("applying", || apply_text(&patch, &target, reverse)).map_err(|f| ctx_of(f, &head()))??;
    same_text("damaged context", &out, &want).map_err(|e| format!("{e}\nstatistics {got:?} reductions {expect:?}\n{}", head()))?;
    if got != tally {
        return Err(format!("statistics {got:?}, expected {tally:?}\n{}", head()).into());
    }
    let red = expect.iter().filter(|e| **e != WillApply::Cleanly).count() as u64;
    let mut o = Outcome::new(&key(&p, ctx, &target, reverse), red > 0);
    o.count("hunks applied with reduced context", red);
    o.count("hunks applied in full", expect.len() as u64 - red);
    o.count("reductions uneven because of a file edge", expect.iter().filter(|e| matches!(e, WillApply::WithReductions((a, b)) if a != b)).count() as u64);
    o.sample = Some(clip(&format!("{} reductions={expect:?}", head()), 600));
    Ok(o)
}

/// Repetitive lines, damaged anywhere in hunks' context: against the model.
fn c09_model(rng: &mut Rng) -> Verdict {
    let alpha = *rng.pick(&[Alphabet::Tiny, Alphabet::Small, Alphabet::Mixed, Alphabet::Unique]);
    let n = rng.range(3, 40);
    let p = text_pair_of(rng, alpha, n);
    let ctx = rng.range(2, 6) as u8;
    let patch = guard("making the patch", || text_patch(&p.before, &p.after, ctx))?;
    let reverse = rng.chance(1, 2);
    let hs = guard("hunks", || hunks(&patch, reverse))?;
    let mut target = if reverse { p.after.clone() } else { p.before.clone() };
    for h in &hs {
        for _ in 0..rng.below(3) {
            let (s, e) = h.ctx;
            if s + e == 0 {
                continue;
            }
            let d = rng.below(s + e);
            let i = if d < s { h.before_start + d } else { h.before_start + h.before.len() - 1 - (d - s) };
            let mut u = 700_000;
            target[i] = if rng.chance(1, 2) { "damaged\n".into() } else { a_line(rng, alpha, &mut u) };
        }
    }
    let target = normalise(target);
    let mut o = Outcome::new(&key(&p, ctx, &target, reverse), false);
    let run = against_model(&p, ctx, &patch, &target, reverse, &mut o)?;
    o.nontrivial = run.events.iter().any(|e| matches!(e, model::Event::Applied { fit: Fit::Reduced(..), .. }));
    Ok(o)
}

pub fn c09(c: &mut Ctx) {
    c.rule = "patches (context 2..255) x targets with damaged outer context, with the exact expected result (distinct lines) or against the reference model (repetitive lines); non-trivial: a hunk applied with reduced context; distinct by patch and target".into();
    let c = &*c;
    c.stage("damage", c.tier(480000, 4000000), c.tier(25, 400), |rng, _| c09_damage(rng, false));
    c.stage("big-context", c.tier(8000, 60000), c.tier(22, 150), |rng, _| c09_damage(rng, true));
    c.stage("model", c.tier(320000, 3000000), c.tier(22, 300), |rng, _| c09_model(rng));
    c.stage("scale", c.tier(750, 3000), c.tier(25, 200), scale_text);
}

// ---------------------------------------------------------------- C10

fn judge_application(hs: &[Hunk], target: &[String], out: &[u8], tally: Tally, head: &dyn Fn() -> String, o: &mut Outcome) -> Result<(), Fault> {
    if tally.total() != hs.len() {
        return Err(format!("{} hunks but statistics {tally:?}\n{}", hs.len(), head()).into());
    }
    match guard("explaining", || model::explain(hs, target, out, tally, 400_000))? {
        Explained::Yes => o.count("outputs explained", 1),
        Explained::GaveUp => o.count("explanation search gave up (inconclusive)", 1),
        Explained::No => {
            return Err(format!("no way of treating the hunks explains this output with {tally:?}\ngot={}\nhunks={hs:?}\n{}", show_bytes(out), head()).into());
        }
    }
    o.count("hunks applied clean", tally.clean as u64);
    o.count("hunks applied fuzzy", tally.fuzzy as u64);
    o.count("hunks already applied", tally.already as u64);
    o.count("hunks already applied fuzzy", tally.already_fuzzy as u64);
    o.count("hunks failed", tally.failed as u64);
    Ok(())
}

fn c10_made(rng: &mut Rng) -> Verdict {
    let p = small_pair(rng);
    let ctx = apply_context(rng);
    let patch = guard("making the patch", || text_patch(&p.before, &p.after, ctx))?;
    let target = any_target(rng, &p, &patch);
    let reverse = rng.chance(1, 2);
    let head = || show(&p, ctx, &target, reverse);
    let hs = guard("hunks", || hunks(&patch, reverse))?;
    let (out, tally) = guard("applying", || apply_text(&patch, &target, reverse)).map_err(|f| ctx_of(f, &head()))??;
    let mut o = Outcome::new(&key(&p, ctx, &target, reverse), !hs.is_empty());
    judge_application(&hs, &target, &out, tally, &head, &mut o)?;
    against_model(&p, ctx, &patch, &target, reverse, &mut o)?;
    o.sample = Some(clip(&format!("{} -> {tally:?}", head()), 600));
    Ok(o)
}

/// Far outside of any file, but small enough to be counted with.
fn wild_start(rng: &mut Rng) -> usize {
    let top = *rng.pick(&[200u64, 70_000, 1 << 31, 1 << 32, 1 << 40, 1 << 60]);
    (top - rng.below(100) as u64) as usize
}

/// Hand-made patches: hunks of one diff dropped, repeated, moved, re-ordered.
fn c10_hostile(rng: &mut Rng) -> Verdict {
    let p = small_pair(rng);
    let ctx = apply_context(rng);
    let patch = guard("making the patch", || text_patch(&p.before, &p.after, ctx))?;
    let mut hs = guard("hunks", || hunks(&patch, false))?;
    if hs.is_empty() {
        return Ok(Outcome::default());
    }
    for _ in 0..rng.range(1, 3) {
        let i = rng.below(hs.len());
        match rng.below(6) {
            0 => {
                let h = hs[i].clone();
                hs.insert(i, h);
            }
            1 if hs.len() > 1 => {
                hs.remove(i);
            }
            5 => {
                hs[i].before_start = wild_start(rng);
                if rng.chance(1, 2) {
                    hs[i].after_start = wild_start(rng);
                }
            }
            2 => {
                let j = rng.below(hs.len());
                hs.swap(i, j);
            }
            3 => hs[i].before_start = rng.below(60),
            _ => {
                hs[i].before_start += rng.below(9);
                hs[i].after_start += rng.below(9);
            }
        }
    }
    let target = any_target(rng, &p, &patch);
    let reverse = rng.chance(1, 2);
    let head = || format!("hand-made hunks={hs:?} reverse={reverse} target={:?}", clip(&join(&target), 4000));
    let diff = text_diff_of(&hs).map_err(|e| Fault::Bad(format!("a well-formed patch is not read: {e}\n{}", head())))?;
    let (out, tally) = guard("applying", || apply_text(&diff, &target, reverse)).map_err(|f| ctx_of(f, &head()))??;
    let eff: Vec<Hunk> = if reverse { hs.iter().map(|h| h.flipped()).collect() } else { hs.clone() };
    let mut o = Outcome::new(head().as_bytes(), true);
    judge_application(&eff, &target, &out, tally, &head, &mut o)?;
    if hs.iter().any(|h| h.before_start > 1 << 20) {
        o.count("patches with hunks far outside of the file", 1);
    }
    guard("is_already_applied", || diff.is_already_applied(&seq(&target), reverse)).map_err(|f| ctx_of(f, &head()))?;
    Ok(o)
}

/// More than 2^16 hunks, each for one of distinct lines.
fn c10_many(rng: &mut Rng, i: usize) -> Verdict {
    let n = rng.range(65_530, 68_000).max(if i % 2 == 0 { 65_536 } else { 0 });
    let n = if i % 6 == 0 { 65_536 } else { n };
    let hs: Vec<Hunk> = (0..n)
        .map(|k| Hunk { ctx: (0, 0), before_start: 2 * k + 1, before: vec![format!("old {k}\n")], after_start: 2 * k + 1, after: vec![format!("new {k}\n")] })
        .collect();
    let file = |w: &str| -> Lines { (0..2 * n).map(|k| if k % 2 == 0 { format!("kept {k}\n") } else { format!("{w} {}\n", k / 2) }).collect() };
    let reverse = rng.chance(1, 2);
    let (from, to) = if reverse { ("new", "old") } else { ("old", "new") };
    let (mut target, mut want) = (file(from), file(to));
    let mut tally = Tally { clean: n, ..Default::default() };
    let what = ["in place", "already there", "in vain", "displaced"][i % 4];
    match i % 4 {
        1 => {
            target = want.clone();
            tally = Tally { already: n, ..Default::default() };
        }
        2 => {
            target = if rng.chance(1, 2) { vec![] } else { vec!["something else\n".into()] };
            want = vec![];
            for k in 0..n {
                want.extend(["<<<<<<<\n".to_string(), format!("{from} {k}\n"), "=======\n".to_string(), format!("{to} {k}\n"), ">>>>>>>\n".to_string()]);
            }
            want.extend(target.iter().cloned());
            tally = Tally { failed: n, ..Default::default() };
        }
        3 => {
            // only the last hunk is displaced, so that one search is all there is
            let m = rng.range(1, 2000);
            let extra = |v: &mut Lines| drop(v.splice(2 * n - 1..2 * n - 1, (0..m).map(|k| format!("unrelated {k}\n"))));
            extra(&mut target);
            extra(&mut want);
            tally = Tally { fuzzy: 1, clean: n - 1, ..Default::default() };
        }
        _ => (),
    }
    let diff = text_diff_of(&hs).map_err(|e| Fault::Bad(format!("a well-formed patch is not read: {e}")))?;
    let head = format!("{n} hunks {what}, reverse={reverse}, {} lines", target.len());
    let (out, got) = guard("applying", || apply_text(&diff, &target, reverse)).map_err(|f| ctx_of(f, &head))??;
    if got != tally {
        return Err(format!("{head}: counted {got:?}, expected {tally:?}").into());
    }
    if out != join(&want).as_bytes() {
        return Err(format!("{head}: wrong output ({})", diff_pos(&out, join(&want).as_bytes())).into());
    }
    let mut o = Outcome::new(head.as_bytes(), true);
    o.count("patches of more than 65535 hunks", 1);
    Ok(o)
}

pub fn c10(c: &mut Ctx) {
    c.rule = "patches (made by the library; made and then tampered with) x arbitrary targets x directions; the output must be explained by some treatment of each hunk, with the reported counts; non-trivial: the patch has a hunk; distinct by patch, target and direction".into();
    let c = &*c;
    // one patch of every small pair, every small target
    let words = all_words(2, c.tier(3, 4));
    let nw = words.len();
    c.stage("words", nw * nw * nw * 6, c.tier(20, 300), |_, i| {
        let (t, rest) = (i % nw, i / nw);
        let (b, rest) = (rest % nw, rest / nw);
        let (a, k) = (rest % nw, rest / nw);
        let p = Pair { before: word_lines(&words[b]), after: word_lines(&words[a]), alpha: Alphabet::Tiny };
        let (ctx, reverse) = ([0u8, 1, 2][k % 3], k >= 3);
        let target = word_lines(&words[t]);
        let patch = guard("making the patch", || text_patch(&p.before, &p.after, ctx))?;
        let hs = guard("hunks", || hunks(&patch, reverse))?;
        let head = || show(&p, ctx, &target, reverse);
        let (out, tally) = guard("applying", || apply_text(&patch, &target, reverse)).map_err(|f| ctx_of(f, &head()))??;
        let mut o = Outcome::new(&key(&p, ctx, &target, reverse), !hs.is_empty());
        judge_application(&hs, &target, &out, tally, &head, &mut o)?;
        Ok(o)
    });
    c.stage("made", c.tier(400000, 3000000), c.tier(25, 400), |rng, _| c10_made(rng));
    c.stage("hostile", c.tier(240000, 2000000), c.tier(22, 300), |rng, _| c10_hostile(rng));
    c.stage("scale", c.tier(1000, 4000), c.tier(28, 250), scale_text);
    c.stage("many", c.tier(16, 160), c.tier(20, 200), c10_many);
}

// ---------------------------------------------------------------- C11

/// More than 2^16 byte hunks: in place, already there, partly so, and in vain.
fn c11_many(rng: &mut Rng, i: usize) -> Verdict {
    let n = if i % 2 == 0 { 65_536 } else { rng.range(65_530, 67_000) };
    let hs: Vec<(usize, Vec<u8>, usize, Vec<u8>)> = (0..n).map(|k| (2 * k, vec![(k % 251) as u8], 2 * k, vec![(k % 249) as u8 ^ 0x80])).collect();
    let reverse = rng.chance(1, 2);
    let eff: Vec<_> = if reverse { hs.iter().cloned().map(|h| (h.2, h.3, h.0, h.1)).collect() } else { hs.clone() };
    let target: Vec<u8> = match i % 4 {
        0 => eff.iter().flat_map(|h| [h.1[0], b' ']).collect(),
        1 => eff.iter().flat_map(|h| [h.3[0], b' ']).collect(),
        2 => vec![b' '; rng.below(3)],
        _ => eff.iter().flat_map(|h| [*rng.pick(&[h.1[0], h.3[0], h.1[0] ^ 1]), b' ']).collect(),
    };
    let diff = byte_diff_of(&hs).map_err(|e| Fault::Bad(format!("a well-formed patch is not read: {e}")))?;
    let mut v = c11_judge(&diff, &eff, &target, reverse, &|| format!("{n} hunks, {} bytes, case {i}, reverse={reverse}", target.len()))?;
    v.count("patches of more than 65535 hunks", 1);
    Ok(v)
}

fn c11_case(rng: &mut Rng) -> Verdict {
    let (a, b) = byte_pair(rng);
    let ctx = if rng.chance(2, 3) { rng.below(4) as u8 } else { any_context(rng) };
    let patch = guard("making the patch", || byte_patch(&a, &b, ctx))?;
    let base = if rng.chance(1, 2) { &a } else { &b };
    let target = match rng.below(8) {
        0 => base.clone(),
        1 => vec![],
        2 => {
            let n = rng.below(base.len() + 1);
            base[..n].to_vec()
        }
        3 => {
            let n = rng.below(base.len() + 1);
            base[n..].to_vec()
        }
        4 => {
            let n = rng.below(100);
            gen_bytes(rng, n, 0)
        }
        5 | 6 => {
            // some hunks applied, others not
            let mut out = vec![];
            let mut i = 0;
            for (bs, bb, _, ab) in byte_hunks(&patch, false) {
                out.extend_from_slice(&a[i..bs]);
                i = bs + bb.len();
                out.extend(if rng.chance(1, 2) { ab } else { bb });
            }
            out.extend_from_slice(&a[i..]);
            out
        }
        _ => {
            let k = rng.range(1, 4);
            edit_bytes(rng, base, k, 0)
        }
    };
    let reverse = rng.chance(1, 2);
    c11_judge(&patch, &byte_hunks(&patch, reverse), &target, reverse, &|| format!("reverse={reverse} target={target:?}\n{}", show_pair_bytes(&a, &b, ctx)))
}

fn c11_judge(patch: &impl for<'a> ApplyClumpsClean<'a, pw_diff_lib::byte_diff::ByteChangeClump>, hs: &[(usize, Vec<u8>, usize, Vec<u8>)], target: &[u8], reverse: bool, head: &dyn Fn() -> String) -> Verdict {
    let (out, tally) = guard("applying", || apply_bytes(patch, target, reverse)).map_err(|f| ctx_of(f, &head()))??;
    let (want, clean, already, failed) = byte_model(hs, target);
    if out != want {
        return Err(format!("output differs from the reference ({})\ngot={}\nwant={}\nhunks={}\n{}", diff_pos(&out, &want), clip(&format!("{out:?}"), 3000), clip(&format!("{want:?}"), 3000), clip(&format!("{hs:?}"), 4000), head()).into());
    }
    if tally != (Tally { clean, already, failed, ..Default::default() }) {
        return Err(format!("statistics {tally:?}, expected {clean} applied, {already} already applied, {failed} failed\n{}", head()).into());
    }
    let mut o = Outcome::new(head().as_bytes(), !hs.is_empty());
    o.count("byte hunks applied", clean as u64);
    o.count("byte hunks already applied", already as u64);
    o.count("byte hunks failed", failed as u64);
    o.sample = Some(clip(&head(), 500));
    Ok(o)
}

fn c11_hostile(rng: &mut Rng) -> Verdict {
    let (a, b) = byte_pair(rng);
    let ctx = rng.below(4) as u8;
    let patch = guard("making the patch", || byte_patch(&a, &b, ctx))?;
    let mut hs = byte_hunks(&patch, false);
    if hs.is_empty() {
        return Ok(Outcome::default());
    }
    for _ in 0..rng.range(1, 3) {
        let i = rng.below(hs.len());
        match rng.below(4) {
            0 => {
                let h = hs[i].clone();
                hs.insert(i, h);
            }
            1 => {
                let j = rng.below(hs.len());
                hs.swap(i, j);
            }
            2 => hs[i].0 = if rng.chance(1, 4) { wild_start(rng) } else { rng.below(80) },
            _ => hs[i].2 = if rng.chance(1, 4) { wild_start(rng) } else { hs[i].2 + rng.below(5) },
        }
    }
    let target = if rng.chance(1, 2) { a.clone() } else { edit_bytes(rng, &b, 2, 0) };
    let reverse = rng.chance(1, 2);
    let diff = byte_diff_of(&hs).map_err(|e| Fault::Bad(format!("a well-formed patch is not read: {e}")))?;
    let eff: Vec<_> = if reverse { hs.iter().cloned().map(|h| (h.2, h.3, h.0, h.1)).collect() } else { hs.clone() };
    c11_judge(&diff, &eff, &target, reverse, &|| format!("hand-made hunks={hs:?} reverse={reverse} target={target:?}"))
}

pub fn c11(c: &mut Ctx) {
    c.rule = "byte patches (made by the library; made and then tampered with) x arbitrary targets x directions against a positional reference; non-trivial: the patch has a hunk; distinct by patch, target and direction".into();
    let c = &*c;
    let words = all_words(2, c.tier(3, 4));
    let nw = words.len();
    c.stage("words", nw * nw * nw * 6, c.tier(20, 300), |_, i| {
        let (t, rest) = (i % nw, i / nw);
        let (b, rest) = (rest % nw, rest / nw);
        let (a, k) = (rest % nw, rest / nw);
        let (ctx, reverse) = ([0u8, 1, 2][k % 3], k >= 3);
        let patch = guard("making the patch", || byte_patch(&words[b], &words[a], ctx))?;
        let mut v = c11_judge(&patch, &byte_hunks(&patch, reverse), &words[t], reverse, &|| format!("reverse={reverse} target={:?} {}", words[t], show_pair_bytes(&words[b], &words[a], ctx)))?;
        v.sample = None;
        Ok(v)
    });
    c.stage("made", c.tier(480000, 4000000), c.tier(22, 400), |rng, _| c11_case(rng));
    c.stage("hostile", c.tier(240000, 2000000), c.tier(20, 300), |rng, _| c11_hostile(rng));
    c.stage("scale", c.tier(4000, 20000), c.tier(30, 250), scale_bytes);
    c.stage("many", c.tier(16, 160), c.tier(15, 150), c11_many);
}
