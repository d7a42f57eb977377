//! C03 the change list, C04 the longest common run, C05 grouping into hunks.

use pw_diff_lib::apply_text::TextClumpBasics;
use pw_diff_lib::changes::{Change, ChangeBasics, Changes, ChangesGenerator};
use pw_diff_lib::common_subsequence::CommonSubsequence;
use pw_diff_lib::range::{Len, Range};
use pw_diff_lib::sequence::{ByteItemIndices, Seq, StringItemIndices};
use pw_diff_lib::text_diff::TextChangeClump;

use super::lib_core::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::run::{clip, guard, Ctx, Fault, Outcome, Verdict};
use crate::util::*;

fn check_changes<T: PartialEq + Clone + std::fmt::Debug>(a: &[T], b: &[T], changes: &[Change]) -> Result<(u64, u64), String> {
    let (mut i, mut j) = (0usize, 0usize);
    let mut last_kept = None;
    let (mut kept, mut edits) = (0u64, 0u64);
    for (n, ch) in changes.iter().enumerate() {
        let (br, ar, is_kept) = match ch {
            Change::NoChange(cs) => ((cs.before_start(), cs.before_end()), (cs.after_start(), cs.after_end()), true),
            Change::Delete(r, at) => {
                if r.len() == 0 {
                    return Err(format!("change {n}: empty deletion {ch:?}"));
                }
                ((r.start(), r.end()), (*at, *at), false)
            }
            Change::Insert(at, r) => {
                if r.len() == 0 {
                    return Err(format!("change {n}: empty insertion {ch:?}"));
                }
                ((*at, *at), (r.start(), r.end()), false)
            }
            Change::Replace(r, s) => {
                if r.len() == 0 || s.len() == 0 {
                    return Err(format!("change {n}: replacement with an empty side {ch:?}"));
                }
                ((r.start(), r.end()), (s.start(), s.end()), false)
            }
        };
        if br.0 != i || ar.0 != j {
            return Err(format!("change {n} {ch:?} starts at ({},{}), expected ({i},{j})", br.0, ar.0));
        }
        if br.1 < br.0 || ar.1 < ar.0 || br.1 > a.len() || ar.1 > b.len() {
            return Err(format!("change {n} {ch:?} is out of bounds"));
        }
        if is_kept {
            if br.1 - br.0 != ar.1 - ar.0 || br.1 == br.0 {
                return Err(format!("change {n} {ch:?}: bad length"));
            }
            if a[br.0..br.1] != b[ar.0..ar.1] {
                return Err(format!("change {n} {ch:?} is called unchanged but the items differ"));
            }
            if last_kept == Some(true) {
                return Err(format!("change {n}: two unchanged blocks in a row"));
            }
            kept += 1;
        } else {
            if last_kept == Some(false) {
                return Err(format!("change {n}: two changed blocks in a row"));
            }
            for x in &a[br.0..br.1] {
                if b[ar.0..ar.1].contains(x) {
                    return Err(format!("change {n} {ch:?}: item {x:?} is on both sides of the changed block"));
                }
            }
            edits += 1;
        }
        // the same positions through the accessors, both ways round
        for reverse in [false, true] {
            let (w, v) = if reverse { (ar, br) } else { (br, ar) };
            let got = (ch.before_start(reverse), ch.before_end(reverse), ch.after_start(reverse), ch.after_end(reverse));
            if got != (w.0, w.1, v.0, v.1) {
                return Err(format!("change {n} {ch:?} reverse={reverse}: accessors say {got:?}"));
            }
            if ch.before_length(reverse) != w.1 - w.0 || ch.after_length(reverse) != v.1 - v.0 {
                return Err(format!("change {n} {ch:?} reverse={reverse}: wrong length"));
            }
            if ch.before_range(None, reverse) != Range(w.0, w.1) || ch.after_range(None, reverse) != Range(v.0, v.1) {
                return Err(format!("change {n} {ch:?} reverse={reverse}: wrong range"));
            }
        }
        last_kept = Some(is_kept);
        i = br.1;
        j = ar.1;
    }
    if i != a.len() || j != b.len() {
        return Err(format!("changes end at ({i},{j}) of ({},{})", a.len(), b.len()));
    }
    Ok((kept, edits))
}

fn c03_text(p: &Pair) -> Verdict {
    let mut o = Outcome::new(&p.key(0), p.before != p.after);
    let ch = guard("Changes::new", || Changes::<String>::new(seq(&p.before), seq(&p.after))).map_err(|f| ctx_of(f, &p.show()))?;
    if *ch.before.0 != p.before[..] || *ch.after.0 != p.after[..] {
        return Err(format!("the change list does not hold its inputs\n{}", p.show()).into());
    }
    let (k, e) = guard("reading the changes", || check_changes(&p.before, &p.after, &ch.changes))?.map_err(|e| format!("{e}\nchanges={:?}\n{}", ch.changes, p.show()))?;
    let gen = guard("generate", || ChangesGenerator::<String, StringItemIndices>::new(&ch.before, &ch.after).generate())?;
    if gen != ch.changes {
        return Err(format!("generator and change list disagree\n{}", p.show()).into());
    }
    o.count("unchanged blocks", k);
    o.count("changed blocks", e);
    o.sample = Some(clip(&format!("{} changes={:?}", p.show(), ch.changes), 600));
    Ok(o)
}

fn c03_bytes(a: &[u8], b: &[u8]) -> Verdict {
    let mut o = Outcome::new(&byte_key(a, b, 0), a != b);
    let head = || show_pair_bytes(a, b, 0);
    let ch = guard("Changes::new", || Changes::<u8>::new(bseq(a), bseq(b))).map_err(|f| ctx_of(f, &head()))?;
    let (k, e) = guard("reading the changes", || check_changes(a, b, &ch.changes))?.map_err(|e| format!("{e}\nchanges={:?}\n{}", ch.changes, head()))?;
    o.count("unchanged blocks", k);
    o.count("changed blocks", e);
    o.sample = Some(clip(&format!("{} changes={:?}", head(), ch.changes), 500));
    Ok(o)
}

/// Two big files with no line in common, of lines as alike as they can be: only equal lines are kept.
/// (Lines told apart by a 32-bit digest, by their letters or by their beginnings are not told apart here.)
fn c03_distinct(rng: &mut Rng, i: usize) -> Verdict {
    let n = rng.range(100_000, 300_000);
    let kind = i % 4;
    let salt = rng.next() as u32;
    let long = "x".repeat(rng.range(60, 80));
    let line = |k: usize| -> String {
        // (odd multipliers: a permutation of the 32-bit numbers)
        let v = (k as u32).wrapping_mul(2_654_435_761) ^ salt;
        match kind {
            0 => format!("{v:08x}\n"),
            1 => format!("{long}{v:010}\n"),
            2 => format!("{v:010}{long}\n"),
            // the same letters as often in every line
            _ => {
                let bits = format!("{v:032b}");
                bits.chars().map(|c| if c == '1' { "ab" } else { "ba" }).collect::<String>() + "\n"
            }
        }
    };
    let before: Lines = (0..n).map(line).collect();
    let after: Lines = (n..2 * n).map(line).collect();
    let head = format!("{n} lines of kind {kind} (salt {salt:#x}) against {n} others");
    let mut o = Outcome::new(head.as_bytes(), true);
    let ch = guard("Changes::new", || Changes::<String>::new(seq(&before), seq(&after))).map_err(|f| ctx_of(f, &head))?;
    if ch.changes != [Change::Replace(Range(0, n), Range(0, n))] {
        let kept: Vec<String> = ch.changes.iter().filter_map(|c| match c {
            Change::NoChange(cs) => Some(format!("{:?} kept as {:?}", before[cs.before_start()], after[cs.after_start()])),
            _ => None,
        }).take(3).collect();
        return Err(format!("{head}: {} changes: {kept:?}", ch.changes.len()).into());
    }
    o.count("pairs of different lines told apart (thousands of millions)", (n as u64 * n as u64) / 1_000_000_000);
    Ok(o)
}

pub fn c03(c: &mut Ctx) {
    c.rule = "change lists of pairs of line and byte sequences; non-trivial: the sequences differ; distinct by content".into();
    let c = &*c;
    let words = if c.thorough { all_words(3, 6) } else { all_words(3, 4) };
    c.stage("words", words.len() * words.len(), c.tier(25, 250), |_, i| {
        let mut v = c03_bytes(&words[i / words.len()], &words[i % words.len()])?;
        v.sample = None;
        Ok(v)
    });
    c.stage("random-text", c.tier(150_000, 3_000_000), c.tier(12, 400), |rng, _| c03_text(&text_pair(rng)));
    c.stage("random-bytes", c.tier(40_000, 2_000_000), c.tier(10, 300), |rng, _| {
        let (a, b) = byte_pair(rng);
        c03_bytes(&a, &b)
    });
    c.stage("large", c.tier(200, 800), c.tier(25, 300), |rng, i| {
        let mut v = c03_text(&large_pair(rng, i))?;
        v.sample = None;
        Ok(v)
    });
    c.stage("large-bytes", c.tier(200, 800), c.tier(25, 300), |rng, i| {
        let (a, b) = large_bytes(rng, i);
        let mut v = c03_bytes(&a, &b)?;
        v.sample = None;
        Ok(v)
    });
    c.stage_t("huge", c.tier(2, 12), c.tier(60, 300), 4, |rng, i| {
        let mut v = if i % 2 == 0 {
            c03_text(&huge_pair(rng))?
        } else {
            let (a, b) = huge_bytes(rng);
            c03_bytes(&a, &b)?
        };
        v.sample = None;
        v.count("pairs of more than 2^20 items", 1);
        Ok(v)
    });
    c.stage("distinct", c.tier(16, 400), c.tier(20, 200), c03_distinct);
}

// ---------------------------------------------------------------- C04

/// Length of the longest common run, by dynamic programming over all pairs of positions.
fn longest_run<T: PartialEq>(a: &[T], b: &[T]) -> usize {
    let mut prev = vec![0usize; b.len() + 1];
    let mut best = 0;
    for x in a {
        let mut cur = vec![0usize; b.len() + 1];
        for (j, y) in b.iter().enumerate() {
            if x == y {
                cur[j + 1] = prev[j] + 1;
                best = best.max(cur[j + 1]);
            }
        }
        prev = cur;
    }
    best
}

fn check_lcs<T: PartialEq>(a: &[T], b: &[T], ra: Range, rb: Range, got: Option<CommonSubsequence>) -> Result<usize, String> {
    judge_run(a, b, ra, rb, got, longest_run(&a[ra.0..ra.1], &b[rb.0..rb.1]))
}

fn judge_run<T: PartialEq>(a: &[T], b: &[T], ra: Range, rb: Range, got: Option<CommonSubsequence>, best: usize) -> Result<usize, String> {
    match got {
        None if best == 0 => Ok(0),
        None => Err(format!("no common run reported, but there is one of length {best}")),
        Some(cs) => {
            let (i, j, n) = (cs.before_start(), cs.after_start(), cs.len());
            if n == 0 {
                return Err("a common run of length 0 reported".into());
            }
            if i < ra.0 || cs.before_end() > ra.1 || j < rb.0 || cs.after_end() > rb.1 || cs.before_end() != i + n || cs.after_end() != j + n {
                return Err(format!("{cs:?} lies outside the ranges"));
            }
            if a[i..i + n] != b[j..j + n] {
                return Err(format!("{cs:?} is not a common run: its items differ"));
            }
            if n < best {
                return Err(format!("{cs:?} is not the longest common run: there is one of length {best}"));
            }
            if cs.before_range() != Range(i, i + n) || cs.after_range() != Range(j, j + n) {
                return Err(format!("{cs:?}: ranges disagree with positions"));
            }
            Ok(n)
        }
    }
}

fn sub_range(rng: &mut Rng, n: usize) -> Range {
    match rng.below(6) {
        0 => Range(0, n),
        1 => {
            let s = rng.below(n + 1);
            Range(s, n)
        }
        2 => {
            let e = rng.below(n + 1);
            Range(0, e)
        }
        _ => {
            let s = rng.below(n + 1);
            Range(s, rng.range(s, n))
        }
    }
}

pub fn c04(c: &mut Ctx) {
    c.rule = "queries (sequence pair, two sub-ranges) to the longest-common-run search, answered by dynamic programming as well; non-trivial: there is a common item; distinct by content and ranges".into();
    let c = &*c;
    let words = if c.thorough { all_words(3, 4) } else { all_words(2, 4) };
    c.stage("words", words.len() * words.len(), c.tier(20, 200), |_, i| {
        let (a, b) = (&words[i / words.len()], &words[i % words.len()]);
        let (sa, sb) = (bseq(a), bseq(b));
        let g = ChangesGenerator::<u8, ByteItemIndices>::new(&sa, &sb);
        let mut o = Outcome::new(&byte_key(a, b, 0), a.iter().any(|x| b.contains(x)));
        let mut q = 0;
        for s in 0..=a.len() {
            for e in s..=a.len() {
                for t in 0..=b.len() {
                    for f in t..=b.len() {
                        let (ra, rb) = (Range(s, e), Range(t, f));
                        let head = || format!("before={a:?} {ra:?} after={b:?} {rb:?}");
                        let got = guard("query", || g.longest_common_subsequence(ra, rb)).map_err(|x| ctx_of(x, &head()))?;
                        check_lcs(a, b, ra, rb, got).map_err(|m| format!("{m}\n{}", head()))?;
                        q += 1;
                    }
                }
            }
        }
        o.count("queries", q);
        Ok(o)
    });
    c.stage("random-bytes", c.tier(100_000, 1_500_000), c.tier(15, 300), |rng, _| {
        let (a, b) = byte_pair(rng);
        let (sa, sb) = (bseq(&a), bseq(&b));
        let g = guard("index", || ChangesGenerator::<u8, ByteItemIndices>::new(&sa, &sb))?;
        let mut o = Outcome::new(&byte_key(&a, &b, 0), a.iter().any(|x| b.contains(x)));
        for _ in 0..3 {
            let (ra, rb) = (sub_range(rng, a.len()), sub_range(rng, b.len()));
            let head = || format!("{ra:?} {rb:?} {}", show_pair_bytes(&a, &b, 0));
            let got = guard("query", || g.longest_common_subsequence(ra, rb)).map_err(|x| ctx_of(x, &head()))?;
            let n = check_lcs(&a, &b, ra, rb, got).map_err(|m| format!("{m}\n{}", head()))?;
            o.count("queries", 1);
            o.count("queries with a run of 2 or more", (n > 1) as u64);
            o.sample = Some(clip(&format!("{} -> {got:?}", head()), 500));
        }
        Ok(o)
    });
    c.stage("random-text", c.tier(400_000, 2_500_000), c.tier(15, 300), |rng, _| {
        let p = text_pair(rng);
        let (sa, sb) = (seq(&p.before), seq(&p.after));
        let g = guard("index", || ChangesGenerator::<String, StringItemIndices>::new(&sa, &sb))?;
        let mut o = Outcome::new(&p.key(0), p.before.iter().any(|x| p.after.contains(x)));
        for _ in 0..3 {
            let (ra, rb) = (sub_range(rng, p.before.len()), sub_range(rng, p.after.len()));
            let head = || format!("{ra:?} {rb:?} {}", p.show());
            let got = guard("query", || g.longest_common_subsequence(ra, rb)).map_err(|x| ctx_of(x, &head()))?;
            let n = check_lcs(&p.before, &p.after, ra, rb, got).map_err(|m| format!("{m}\n{}", head()))?;
            o.count("queries", 1);
            o.count("queries with a run of 2 or more", (n > 1) as u64);
        }
        Ok(o)
    });
    c04_big(c);
    // long sequences: positions and runs beyond 2^8 and 2^16
    c.stage("long", c.tier(120, 1000), c.tier(15, 120), |rng, i| {
        let mut uniq = 0;
        let n = if i % 6 == 0 { 66_500 } else { rng.range(300, 3000) };
        let before = gen_lines(rng, n, Alphabet::Unique, &mut uniq);
        let s = rng.below(n - 280);
        let run = rng.range(250, (n - s).min(1500).max(251));
        let mut after = gen_lines(rng, 300, Alphabet::Unique, &mut uniq);
        let at = rng.below(after.len());
        after.splice(at..at, before[s..(s + run).min(n)].iter().cloned());
        let (sa, sb) = (seq(&before), seq(&after));
        let g = guard("index", || ChangesGenerator::<String, StringItemIndices>::new(&sa, &sb))?;
        let ra = Range(0, n);
        let rb = Range(0, after.len());
        let want = CommonSubsequence(s, at, run.min(n - s));
        let got = guard("query", || g.longest_common_subsequence(ra, rb))?;
        if got != Some(want) {
            return Err(format!("planted common run {want:?} in {n} and {} unique lines, got {got:?}", after.len()).into());
        }
        // and a sub-range cutting it
        let cut = s + run / 2;
        let got = guard("query", || g.longest_common_subsequence(Range(cut, n), rb))?;
        let want = CommonSubsequence(cut, at + run / 2, (s + run).min(n) - cut);
        if got != Some(want) {
            return Err(format!("planted common run cut to {want:?} in {n} and {} unique lines, got {got:?}", after.len()).into());
        }
        let mut o = Outcome::new(format!("{n} {s} {run} {at}").as_bytes(), true);
        o.count("queries", 2);
        o.count("queries with a run of 2 or more", 2);
        Ok(o)
    });
    // runs of any length up to tens of thousands: distinct lines, so the longest is found in one pass
    c.stage("runs", c.tier(600, 6000), c.tier(20, 200), |rng, _| {
        let mut uniq = 0;
        let n = log_range(rng, 200, 60_000);
        let before = gen_lines(rng, n, Alphabet::Unique, &mut uniq);
        let mut after: Lines = vec![];
        let mut blocks: Vec<(usize, usize)> = vec![];
        let mut at = 0;
        while at < n {
            let len = log_range(rng, 1, n).min(n - at);
            blocks.push((at, at + len));
            at += len;
        }
        if rng.chance(1, 2) {
            for k in (1..blocks.len()).rev() {
                blocks.swap(k, rng.below(k + 1));
            }
        }
        for (s, e) in blocks {
            after.extend_from_slice(&before[s..e]);
            if rng.chance(2, 3) {
                uniq += 1;
                after.push(format!("new {uniq}\n"));
            }
        }
        let place: std::collections::HashMap<&str, usize> = before.iter().enumerate().map(|(i, l)| (l.as_str(), i)).collect();
        let (sa, sb) = (seq(&before), seq(&after));
        let g = guard("index", || ChangesGenerator::<String, StringItemIndices>::new(&sa, &sb))?;
        let mut o = Outcome::new(format!("{n} {} {:?}", after.len(), &after[..after.len().min(50)]).as_bytes(), true);
        for _ in 0..4 {
            let (ra, rb) = (sub_range(rng, n), sub_range(rng, after.len()));
            let (mut best, mut run, mut last) = (0usize, 0usize, usize::MAX - 1);
            for l in &after[rb.0..rb.1] {
                match place.get(l.as_str()).filter(|i| (ra.0..ra.1).contains(i)) {
                    Some(i) => {
                        run = if *i == last + 1 { run + 1 } else { 1 };
                        last = *i;
                        best = best.max(run);
                    }
                    None => {
                        run = 0;
                        last = usize::MAX - 1;
                    }
                }
            }
            let got = guard("query", || g.longest_common_subsequence(ra, rb))?;
            judge_run(&before, &after, ra, rb, got, best).map_err(|m| format!("{m}\n{n} and {} distinct lines, {ra:?} {rb:?}", after.len()))?;
            o.count("queries", 1);
            o.count("queries with a run of 2 or more", (best > 1) as u64);
            o.count("queries with a run of more than 4096", (best > 4096) as u64);
        }
        Ok(o)
    });
}

fn c04_big(c: &Ctx) {
    // frequent items and positions beyond 2^16, answered by dynamic programming
    c.stage("frequent", c.tier(240, 1200), c.tier(25, 300), |rng, i| {
        let p = large_pair(rng, [4, 5, 4, 8][i % 4]);
        let (sa, sb) = (seq(&p.before), seq(&p.after));
        let g = guard("index", || ChangesGenerator::<String, StringItemIndices>::new(&sa, &sb))?;
        let mut o = Outcome::new(&p.key(0), true);
        for _ in 0..2 {
            let (mut ra, mut rb) = (sub_range(rng, p.before.len()), sub_range(rng, p.after.len()));
            // bound the work of the oracle
            while (ra.1 - ra.0) * (rb.1 - rb.0) > 12_000_000 {
                if ra.1 - ra.0 > rb.1 - rb.0 {
                    ra.1 = ra.0 + (ra.1 - ra.0) / 2;
                } else {
                    rb.1 = rb.0 + (rb.1 - rb.0) / 2;
                }
            }
            let head = || format!("{ra:?} {rb:?} {}", p.show());
            let got = guard("query", || g.longest_common_subsequence(ra, rb)).map_err(|x| ctx_of(x, &head()))?;
            let n = check_lcs(&p.before, &p.after, ra, rb, got).map_err(|m| format!("{m}\n{}", head()))?;
            o.count("queries", 1);
            o.count("queries with a run of 2 or more", (n > 1) as u64);
            o.count("queries on frequent items", 1);
        }
        Ok(o)
    });
    c.stage("long-bytes", c.tier(240, 1200), c.tier(25, 300), |rng, i| {
        let (a, b) = large_bytes(rng, i);
        let (sa, sb) = (bseq(&a), bseq(&b));
        let g = guard("index", || ChangesGenerator::<u8, ByteItemIndices>::new(&sa, &sb))?;
        let mut o = Outcome::new(&byte_key(&a, &b, 0), true);
        for k in 0..2 {
            let tail = |n: usize, rng: &mut Rng| Range(n - rng.range(0, n.min(3000)), n);
            let (ra, rb) = if k == 0 { (tail(a.len(), rng), tail(b.len(), rng)) } else { (sub_range(rng, a.len()), sub_range(rng, b.len())) };
            if (ra.1 - ra.0) * (rb.1 - rb.0) > 60_000_000 {
                continue;
            }
            let head = || format!("{ra:?} {rb:?} {}", show_pair_bytes(&a, &b, 0));
            let got = guard("query", || g.longest_common_subsequence(ra, rb)).map_err(|x| ctx_of(x, &head()))?;
            let n = check_lcs(&a, &b, ra, rb, got).map_err(|m| format!("{m}\n{}", head()))?;
            o.count("queries", 1);
            o.count("queries with a run of 2 or more", (n > 1) as u64);
            o.count("queries beyond position 65535", (ra.1 > 65_535 || rb.1 > 65_535) as u64);
        }
        Ok(o)
    });
}

// ---------------------------------------------------------------- C05

struct Expect {
    changes: Vec<Change>,
    starts: (usize, usize),
    ends: (usize, usize),
    ctx: (usize, usize),
}

/// Independent grouping of a change list.
fn expected_hunks(changes: &[Change], c: usize) -> Vec<Expect> {
    // indexes of the edits, grouped: two edits share a hunk when fewer than 2c unchanged items separate them
    let mut groups: Vec<Vec<usize>> = vec![];
    for (i, ch) in changes.iter().enumerate() {
        if matches!(ch, Change::NoChange(_)) {
            continue;
        }
        let joined = match groups.last() {
            Some(g) => {
                let gap: usize = changes[g[g.len() - 1] + 1..i]
                    .iter()
                    .map(|x| if let Change::NoChange(cs) = x { cs.2 } else { 0 })
                    .sum();
                gap < 2 * c
            }
            None => false,
        };
        if joined {
            groups.last_mut().unwrap().push(i);
        } else {
            groups.push(vec![i]);
        }
    }
    let bounds = |ch: &Change| match ch {
        Change::NoChange(cs) => ((cs.0, cs.1), (cs.0 + cs.2, cs.1 + cs.2)),
        Change::Delete(r, at) => ((r.0, *at), (r.1, *at)),
        Change::Insert(at, r) => ((*at, r.0), (*at, r.1)),
        Change::Replace(r, s) => ((r.0, s.0), (r.1, s.1)),
    };
    groups
        .iter()
        .map(|g| {
            let (first, last) = (g[0], g[g.len() - 1]);
            let lead = match first.checked_sub(1).map(|i| &changes[i]) {
                Some(Change::NoChange(cs)) => cs.2.min(c),
                _ => 0,
            };
            let trail = match changes.get(last + 1) {
                Some(Change::NoChange(cs)) => cs.2.min(c),
                _ => 0,
            };
            let s = bounds(&changes[first]).0;
            let e = bounds(&changes[last]).1;
            let mut list = vec![];
            if lead > 0 {
                list.push(Change::NoChange(CommonSubsequence(s.0 - lead, s.1 - lead, lead)));
            }
            list.extend_from_slice(&changes[first..=last]);
            if trail > 0 {
                list.push(Change::NoChange(CommonSubsequence(e.0, e.1, trail)));
            }
            Expect {
                changes: list,
                starts: (s.0 - lead, s.1 - lead),
                ends: (e.0 + trail, e.1 + trail),
                ctx: (lead, trail),
            }
        })
        .collect()
}

fn c05_text(p: &Pair, ctx: u8) -> Verdict {
    let head = || format!("context={ctx}\n{}", p.show());
    let ch = guard("Changes::new", || Changes::<String>::new(seq(&p.before), seq(&p.after))).map_err(|f| ctx_of(f, &head()))?;
    // the grouping is judged against the list as computed: only well-formed lists can be judged
    if check_changes_positions(p.before.len(), p.after.len(), &ch.changes).is_err() {
        return Err(format!("the change list itself is inconsistent\n{}", head()).into());
    }
    let want = expected_hunks(&ch.changes, ctx as usize);
    let (got, clumps) = guard("change_clumps", || {
        let got: Vec<_> = ch.change_clumps(ctx).collect();
        let clumps: Vec<_> = ch.change_clumps(ctx).map(TextChangeClump::from).collect();
        (got, clumps)
    })
    .map_err(|f| ctx_of(f, &head()))?;
    let mut o = Outcome::new(&p.key(ctx), !want.is_empty());
    if got.len() != want.len() {
        return Err(format!("{} hunks, expected {}: {got:?}\nchanges={:?}\n{}", got.len(), want.len(), ch.changes, head()).into());
    }
    for (n, ((g, w), t)) in got.iter().zip(&want).zip(&clumps).enumerate() {
        let bad = |m: String| Fault::Bad(format!("hunk {n}: {m}\nhunk={:?}\nchanges={:?}\n{}", g.changes, ch.changes, head()));
        let list: Vec<Change> = g.changes.iter().copied().filter(|x| !matches!(x, Change::NoChange(cs) if cs.2 == 0)).collect();
        if list != w.changes {
            return Err(bad(format!("wrong contents, expected {:?}", w.changes)));
        }
        let r = guard("extents", || (g.starts(), g.ends(), g.ranges(), g.context_lengths(), g.before_start(false), g.before_end(false), g.before_start(true), g.before_end(true), g.after_start(false), g.after_end(false)))?;
        if r.0 != w.starts || r.1 != w.ends {
            return Err(bad(format!("starts {:?} ends {:?}, expected {:?} {:?}", r.0, r.1, w.starts, w.ends)));
        }
        if r.2 != (Range(w.starts.0, w.ends.0), Range(w.starts.1, w.ends.1)) {
            return Err(bad(format!("ranges {:?}", r.2)));
        }
        if (r.3 .0 as usize, r.3 .1 as usize) != w.ctx {
            return Err(bad(format!("context lengths {:?}, expected {:?}", r.3, w.ctx)));
        }
        if (r.4, r.5) != (w.starts.0, w.ends.0) || (r.6, r.7) != (w.starts.1, w.ends.1) || (r.8, r.9) != (w.starts.1, w.ends.1) {
            return Err(bad(format!("extent accessors give before {:?} reversed {:?} after {:?}", (r.4, r.5), (r.6, r.7), (r.8, r.9))));
        }
        // the patch hunk made from it
        let h = guard("hunk accessors", || Hunk::of(t))?;
        if h.ctx != w.ctx || h.before_start != w.starts.0 || h.after_start != w.starts.1 {
            return Err(bad(format!("patch hunk {h:?} has the wrong place or context, expected starts {:?} context {:?}", w.starts, w.ctx)));
        }
        if h.before[..] != p.before[w.starts.0..w.ends.0] || h.after[..] != p.after[w.starts.1..w.ends.1] {
            return Err(bad(format!("patch hunk {h:?} has the wrong lines")));
        }
        let (bs, be, as_, ae) = (w.starts.0, w.ends.0, w.starts.1, w.ends.1);
        let acc = guard("patch hunk extents", || {
            let mut v = vec![];
            for rev in [false, true] {
                v.push((t.before_start(rev), t.before_end(rev), t.before_length(rev), t.after_start(rev), t.after_end(rev), t.after_length(rev)));
            }
            v
        })?;
        if acc != vec![(bs, be, be - bs, as_, ae, ae - as_), (as_, ae, ae - as_, bs, be, be - bs)] {
            return Err(bad(format!("patch hunk extents {acc:?}")));
        }
        // ranges and lines with reduced context
        let top = w.ctx.0.min(w.ctx.1) as u8;
        for r in [0u8, 1, top] {
            if r > top {
                continue;
            }
            for rev in [false, true] {
                let (len, s) = if rev { (ae - as_, as_) } else { (be - bs, bs) };
                let lines: &[String] = if rev { &p.after[as_..ae] } else { &p.before[bs..be] };
                let got = guard("reduced ranges", || {
                    let mr = t.my_before_range(Some((r, r)), rev);
                    let br = t.before_range(Some((r, r)), rev);
                    let ls: Vec<String> = t.before_lines(Some(mr), rev).cloned().collect();
                    (mr, br, ls)
                })?;
                let r = r as usize;
                if got.0 != Range(r, len - r) || got.1 != Range(s + r, s + len - r) || got.2[..] != lines[r..len - r] {
                    return Err(bad(format!("reduced by {r}, reverse={rev}: {got:?}")));
                }
            }
        }
    }
    o.count("hunks", want.len() as u64);
    o.count("hunks holding several edits", want.iter().filter(|w| w.changes.iter().filter(|x| !matches!(x, Change::NoChange(_))).count() > 1).count() as u64);
    o.count("hunks with context cut by a file edge", want.iter().filter(|w| w.ctx.0 < ctx as usize || w.ctx.1 < ctx as usize).count() as u64);
    let exact = ch.changes.iter().skip(1).rev().skip(1).filter(|x| matches!(x, Change::NoChange(cs) if cs.2 == 2 * ctx as usize || cs.2 + 1 == 2 * ctx as usize)).count();
    o.count("gaps of exactly 2c or 2c-1", exact as u64);
    o.sample = Some(clip(&format!("{} hunks={:?}", head(), want.iter().map(|w| (w.starts, w.ends, w.ctx)).collect::<Vec<_>>()), 600));
    Ok(o)
}

fn check_changes_positions(n: usize, m: usize, changes: &[Change]) -> Result<(), ()> {
    let (mut i, mut j) = (0, 0);
    for ch in changes {
        let (s, e) = match ch {
            Change::NoChange(cs) => ((cs.0, cs.1), (cs.0 + cs.2, cs.1 + cs.2)),
            Change::Delete(r, at) => ((r.0, *at), (r.1, *at)),
            Change::Insert(at, r) => ((*at, r.0), (*at, r.1)),
            Change::Replace(r, s) => ((r.0, s.0), (r.1, s.1)),
        };
        if s != (i, j) || e.0 < i || e.1 < j {
            return Err(());
        }
        (i, j) = e;
    }
    if (i, j) == (n, m) {
        Ok(())
    } else {
        Err(())
    }
}

fn c05_bytes(a: &[u8], b: &[u8], ctx: u8) -> Verdict {
    let head = || show_pair_bytes(a, b, ctx);
    let ch = guard("Changes::new", || Changes::<u8>::new(bseq(a), bseq(b))).map_err(|f| ctx_of(f, &head()))?;
    if check_changes_positions(a.len(), b.len(), &ch.changes).is_err() {
        return Err(format!("the change list itself is inconsistent\n{}", head()).into());
    }
    let want = expected_hunks(&ch.changes, ctx as usize);
    let clumps = guard("change_clumps", || byte_patch(a, b, ctx)).map_err(|f| ctx_of(f, &head()))?;
    if clumps.0.len() != want.len() {
        return Err(format!("{} byte hunks, expected {}\n{}", clumps.0.len(), want.len(), head()).into());
    }
    let mut o = Outcome::new(&byte_key(a, b, ctx), !want.is_empty());
    for (n, (w, t)) in want.iter().zip(&clumps.0).enumerate() {
        let (x, y) = (t.before(false), t.after(false));
        if x.start != w.starts.0 || y.start != w.starts.1 || x.items[..] != a[w.starts.0..w.ends.0] || y.items[..] != b[w.starts.1..w.ends.1] || t.before(true) != y || t.after(true) != x {
            return Err(format!("byte hunk {n}: {t:?}, expected {:?}..{:?}\n{}", w.starts, w.ends, head()).into());
        }
        let v = serde_json::to_value(t).map_err(|e| Fault::Harness(e.to_string()))?;
        if v["context_lengths"] != serde_json::json!([w.ctx.0, w.ctx.1]) {
            return Err(format!("byte hunk {n}: context lengths {}, expected {:?}\n{}", v["context_lengths"], w.ctx, head()).into());
        }
    }
    o.count("byte hunks", want.len() as u64);
    Ok(o)
}

pub fn c05(c: &mut Ctx) {
    c.rule = "hunks of pairs x contexts against an independent grouping of the same change list; non-trivial: at least one hunk; distinct by content and context".into();
    let c = &*c;
    let words = if c.thorough { all_words(3, 5) } else { all_words(2, 5) };
    let ctxs = [0u8, 1, 2, 3];
    c.stage("words", words.len() * words.len() * ctxs.len(), c.tier(20, 200), |_, i| {
        let w = i / ctxs.len();
        let p = Pair { before: word_lines(&words[w / words.len()]), after: word_lines(&words[w % words.len()]), alpha: Alphabet::Tiny };
        let mut v = c05_text(&p, ctxs[i % ctxs.len()])?;
        v.sample = None;
        Ok(v)
    });
    // edits separated by gaps around 2c, at distances around c from the edges
    c.stage("gaps", c.tier(30_000, 1_000_000), c.tier(10, 200), |rng, _| {
        let ctx = match rng.below(8) {
            0 => 0,
            1 => *rng.pick(&[64u8, 127, 128, 255]),
            _ => rng.range(1, 8) as u8,
        };
        let mut uniq = 0;
        let mut before: Lines = vec![];
        let mut after: Lines = vec![];
        // now and then a hunk of very many changes, or very many hunks
        let edits = if rng.chance(1, 200) { rng.range(30, 700) } else { rng.range(1, 5) };
        let dense = edits > 5 && rng.chance(2, 3);
        let ctx = if edits > 5 { ctx.min(12) } else { ctx };
        let cc = ctx as usize;
        for e in 0..=edits {
            let around = if e == 0 || e == edits { cc } else { 2 * cc };
            let mut gap = (around + rng.below(5)).saturating_sub(2);
            if dense && e > 0 && e < edits && cc > 0 {
                gap = gap.min(2 * cc - 1).max(1);
            }
            for _ in 0..gap {
                uniq += 1;
                before.push(format!("k{uniq}\n"));
                after.push(format!("k{uniq}\n"));
            }
            if e < edits {
                let kind = rng.below(3);
                for _ in 0..if kind == 1 { 0 } else { rng.range(1, 3) } {
                    uniq += 1;
                    before.push(format!("d{uniq}\n"));
                }
                for _ in 0..if kind == 0 { 0 } else { rng.range(1, 3) } {
                    uniq += 1;
                    after.push(format!("i{uniq}\n"));
                }
            }
        }
        c05_text(&Pair { before, after, alpha: Alphabet::Unique }, ctx)
    });
    c.stage("random-text", c.tier(400_000, 2_500_000), c.tier(15, 300), |rng, _| {
        let p = text_pair(rng);
        let ctx = any_context(rng);
        c05_text(&p, ctx)
    });
    c.stage("random-bytes", c.tier(30_000, 1_000_000), c.tier(8, 200), |rng, _| {
        let (a, b) = byte_pair(rng);
        let ctx = any_context(rng);
        c05_bytes(&a, &b, ctx)
    });
    c.stage("large-bytes", c.tier(200, 600), c.tier(20, 200), |rng, i| {
        let (a, b) = large_bytes(rng, i);
        c05_bytes(&a, &b, *rng.pick(&[0u8, 3, 128, 255]))
    });
    c.stage("large", c.tier(200, 400), c.tier(20, 200), |rng, i| {
        let mut v = c05_text(&large_pair(rng, i), *rng.pick(&[0u8, 3, 255]))?;
        v.sample = None;
        Ok(v)
    });
    c.stage_t("huge", c.tier(2, 12), c.tier(60, 300), 4, |rng, i| {
        let mut v = if i % 2 == 0 {
            c05_text(&huge_pair(rng), *rng.pick(&[0u8, 3, 255]))?
        } else {
            let (a, b) = huge_bytes(rng);
            c05_bytes(&a, &b, *rng.pick(&[0u8, 3, 255]))?
        };
        v.sample = None;
        v.count("pairs of more than 2^20 items", 1);
        Ok(v)
    });
    let _: Option<Seq<u8>> = None;
}
