//! C24 and C25: accounts of changes and hunks agree; the log tells what became of each hunk.

use std::cell::RefCell;

use pw_cub_diff_lib::unified_diff::{UnifiedClumpIter, UnifiedDiffClump};
use pw_diff_lib::apply_bytes::{ApplyClumpClean, ApplyClumpsClean};
use pw_diff_lib::apply_text::{ApplyClumpFuzzy, ApplyClumpsFuzzy, TextClumpBasics};
use pw_diff_lib::byte_diff::ByteChangeClump;
use pw_diff_lib::changes::{Change, ChangeBasics, Changes};
use pw_diff_lib::common_subsequence::CommonSubsequence;
use pw_diff_lib::range::{Len, Range};
use pw_diff_lib::sequence::*;
use pw_diff_lib::snippet::{Snippet, SnippetWrite};
use pw_diff_lib::text_diff::TextChangeClump;

use super::lib_apply::any_target;
use super::lib_core::{ctx_of, show_pair_bytes};
use super::unified::{any_hunk, any_style, written};
use crate::gen::*;
use crate::rng::Rng;
use crate::run::{clip, guard, Ctx, Fault, Outcome, Verdict};
use crate::util::*;

type R = Result<(), Fault>;

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: {}, expected {}", clip(&format!("{got:?}"), 1500), clip(&format!("{want:?}"), 1500)).into())
    }
}

/// Where something is in each of two files.
#[derive(Debug, Clone, Copy, PartialEq)]
struct Sides {
    before: (usize, usize),
    after: (usize, usize),
}

impl Sides {
    fn of(c: &Change) -> Self {
        match *c {
            Change::NoChange(CommonSubsequence(i, j, n)) => Sides { before: (i, i + n), after: (j, j + n) },
            Change::Delete(Range(s, e), at) => Sides { before: (s, e), after: (at, at) },
            Change::Insert(at, Range(s, e)) => Sides { before: (at, at), after: (s, e) },
            Change::Replace(Range(s, e), Range(t, f)) => Sides { before: (s, e), after: (t, f) },
        }
    }
    fn get(&self, reverse: bool) -> (usize, usize) {
        if reverse {
            self.after
        } else {
            self.before
        }
    }
}

/// Reductions that leave something, or nothing, but not less.
fn any_reductions(rng: &mut Rng, len: usize) -> (u8, u8) {
    let a = rng.below(len.min(255) + 1);
    let b = rng.below((len - a).min(255) + 1);
    if rng.chance(1, 2) {
        (a as u8, b as u8)
    } else {
        (b as u8, a as u8)
    }
}

fn check_basics(c: &impl ChangeBasics, s: Sides, rng: &mut Rng) -> R {
    for reverse in [false, true] {
        let (b, a) = (s.get(reverse), s.get(!reverse));
        let w = |x: &str| format!("{x}(reverse={reverse})");
        same(&w("before_start"), c.before_start(reverse), b.0)?;
        same(&w("before_end"), c.before_end(reverse), b.1)?;
        same(&w("before_length"), c.before_length(reverse), b.1 - b.0)?;
        same(&w("after_start"), c.after_start(reverse), a.0)?;
        same(&w("after_end"), c.after_end(reverse), a.1)?;
        same(&w("after_length"), c.after_length(reverse), a.1 - a.0)?;
        same(&w("before_range"), c.before_range(None, reverse), Range(b.0, b.1))?;
        same(&w("after_range"), c.after_range(None, reverse), Range(a.0, a.1))?;
        same(&w("my_before_range"), c.my_before_range(None, reverse), Range(0, b.1 - b.0))?;
        same(&w("my_after_range"), c.my_after_range(None, reverse), Range(0, a.1 - a.0))?;
        let r = any_reductions(rng, b.1 - b.0);
        let (x, y) = (r.0 as usize, r.1 as usize);
        same(&w(&format!("before_range {r:?}")), c.before_range(Some(r), reverse), Range(b.0 + x, b.1 - y))?;
        same(&w(&format!("my_before_range {r:?}")), c.my_before_range(Some(r), reverse), Range(x, b.1 - b.0 - y))?;
        let r = any_reductions(rng, a.1 - a.0);
        let (x, y) = (r.0 as usize, r.1 as usize);
        same(&w(&format!("after_range {r:?}")), c.after_range(Some(r), reverse), Range(a.0 + x, a.1 - y))?;
        same(&w(&format!("my_after_range {r:?}")), c.my_after_range(Some(r), reverse), Range(x, a.1 - a.0 - y))?;
    }
    Ok(())
}

fn check_snippet<T: PartialEq + Clone + std::fmt::Debug>(s: &Snippet<T>, file: &[T], at: (usize, usize), rng: &mut Rng, bytes: fn(&[T]) -> Vec<u8>) -> R
where
    Snippet<T>: SnippetWrite,
{
    let want = &file[at.0..at.1];
    same("snippet start", s.start, at.0)?;
    same("snippet items", &s.items[..], want)?;
    same("snippet length", (s.len(), s.is_empty()), (want.len(), want.is_empty()))?;
    same("snippet range", s.range(None), Range(0, want.len()))?;
    same("snippet adj_length", s.adj_length(None), want.len())?;
    let d = if rng.chance(1, 3) { -(rng.below(at.0 + 1) as isize) } else { rng.below(1000) as isize };
    let moved = (at.0 as isize + d) as usize;
    same("snippet adj_start", s.adj_start(d, None), moved)?;
    same("all items of a snippet", s.items(None).cloned().collect::<Vec<_>>(), want.to_vec())?;
    let put = |r: Option<(u8, u8)>| -> Result<Vec<u8>, Fault> {
        let mut out = vec![];
        s.write_into(&mut out, r).map_err(|e| Fault::Bad(format!("writing a snippet: {e}")))?;
        Ok(out)
    };
    same("written snippet", put(None)?, bytes(want))?;
    let r = any_reductions(rng, want.len());
    let (x, y) = (r.0 as usize, want.len() - r.1 as usize);
    same(&format!("snippet range {r:?}"), s.range(Some(r)), Range(x, y))?;
    same(&format!("snippet adj_length {r:?}"), s.adj_length(Some(r)), y - x)?;
    same(&format!("snippet adj_start {r:?}"), s.adj_start(d, Some(r)), moved + x)?;
    same(&format!("items of a snippet {r:?}"), s.items(Some(Range(x, y))).cloned().collect::<Vec<_>>(), want[x..y].to_vec())?;
    same(&format!("written snippet {r:?}"), put(Some(r))?, bytes(&want[x..y]))
}

fn text_bytes(l: &[String]) -> Vec<u8> {
    join(l).into_bytes()
}
fn raw(b: &[u8]) -> Vec<u8> {
    b.to_vec()
}

/// The positions and the lines a text hunk gives, by its own methods.
fn check_text_hunk<C: ApplyClumpFuzzy>(c: &C, s: Sides, before: &[String], after: &[String], rng: &mut Rng, o: &mut Outcome) -> R {
    check_basics(c, s, rng)?;
    for reverse in [false, true] {
        let (at, at2) = (s.get(reverse), s.get(!reverse));
        let (mine, other) = if reverse { (after, before) } else { (before, after) };
        let w = |x: &str| format!("{x}(reverse={reverse})");
        same(&w("before_lines"), c.before_lines(None, reverse).cloned().collect::<Vec<_>>(), mine.to_vec())?;
        same(&w("after_lines"), c.after_lines(None, reverse).cloned().collect::<Vec<_>>(), other.to_vec())?;
        let put = |r: Option<(u8, u8)>, other: bool| -> Result<Vec<u8>, Fault> {
            let mut out = vec![];
            if other { c.after_write_into(&mut out, r, reverse) } else { c.before_write_into(&mut out, r, reverse) }.map_err(|e| Fault::Bad(format!("writing a hunk: {e}")))?;
            Ok(out)
        };
        let d = if rng.chance(1, 3) { -(rng.below(40) as isize) } else { rng.below(1000) as isize };
        for red in [None, Some((mine, 0)), Some((other, 1))] {
            let (r, x, y, x2, y2);
            match red {
                None => {
                    r = None;
                    (x, y, x2, y2) = (0, mine.len(), 0, other.len());
                }
                Some(_) => {
                    let least = mine.len().min(other.len());
                    let k = any_reductions(rng, least);
                    r = Some(k);
                    (x, y) = (k.0 as usize, mine.len() - k.1 as usize);
                    (x2, y2) = (k.0 as usize, other.len() - k.1 as usize);
                }
            }
            let w = |n: &str| format!("{n}(offset {d}, reductions {r:?}, reverse={reverse})");
            same(&w("before_adjusted_start"), c.before_adjusted_start(d, r, reverse), at.0 as isize + d + x as isize)?;
            same(&w("after_adjusted_start"), c.after_adjusted_start(d, r, reverse), at2.0 as isize + d + x2 as isize)?;
            same(&w("before_adjusted_length"), c.before_adjusted_length(r, reverse), y - x)?;
            same(&w("after_adjusted_length"), c.after_adjusted_length(r, reverse), y2 - x2)?;
            same(&w("before_write_into"), put(r, false)?, text_bytes(&mine[x..y]))?;
            same(&w("after_write_into"), put(r, true)?, text_bytes(&other[x2..y2]))?;
            same(&w("before_lines of a range"), c.before_lines(Some(Range(x, y)), reverse).cloned().collect::<Vec<_>>(), mine[x..y].to_vec())?;
            same(&w("after_lines of a range"), c.after_lines(Some(Range(x2, y2)), reverse).cloned().collect::<Vec<_>>(), other[x2..y2].to_vec())?;
            // does it occur at some place of some file?
            let part = &mine[x..y];
            let mut file: Lines = match rng.below(3) {
                0 => part.to_vec(),
                1 => mine.to_vec(),
                _ => [mine, other].concat(),
            };
            if rng.chance(1, 3) && !file.is_empty() {
                let i = rng.below(file.len());
                file.remove(i);
            }
            let t = seq(&file);
            for p in 0..file.len() + 3 {
                let is = p + part.len() <= file.len() && file[p..p + part.len()] == *part;
                same(&w(&format!("before_is_subsequence_in_at {p} of {file:?}")), c.before_is_subsequence_in_at(&t, p, r, reverse), is)?;
                o.count("places asked about", 1);
            }
        }
    }
    Ok(())
}

fn c24_text(rng: &mut Rng) -> Verdict {
    let p = text_pair(rng);
    let ctx = any_context(rng);
    let head = || format!("context={ctx}\n{}", clip(&p.show(), 6000));
    let mut o = Outcome::new(&p.key(ctx), p.before != p.after);
    let f = |x: Fault| ctx_of(x, &head());
    let changes = guard("comparing", || Changes::<String>::new(seq(&p.before), seq(&p.after))).map_err(f)?;
    for c in &changes.changes {
        guard("views of a change", || check_basics(c, Sides::of(c), rng)).and_then(|x| x).map_err(|x| f(ctx_of(x, &format!("{c:?}"))))?;
        o.count("changes", 1);
    }
    for c in changes.change_clumps(ctx) {
        let (first, last) = (Sides::of(&c.changes[0]), Sides::of(&c.changes[c.changes.len() - 1]));
        let s = Sides { before: (first.before.0, last.before.1), after: (first.after.0, last.after.1) };
        let shown = format!("hunk of {:?}", c.changes);
        let mut look = || -> R {
            same("starts", c.starts(), (s.before.0, s.after.0))?;
            same("ends", c.ends(), (s.before.1, s.after.1))?;
            same("ranges", c.ranges(), (Range(s.before.0, s.before.1), Range(s.after.0, s.after.1)))?;
            same("number of changes", c.len(), c.changes.len())?;
            check_basics(&c, s, rng)
        };
        guard("views of a group of changes", &mut look).and_then(|x| x).map_err(|x| f(ctx_of(x, &shown)))?;
        let lens = c.context_lengths();
        let h = TextChangeClump::from(c);
        let mut look = || -> R {
            same("context lengths", h.context_lengths(), lens)?;
            for reverse in [false, true] {
                let (mine, other) = if reverse { (&p.after, &p.before) } else { (&p.before, &p.after) };
                check_snippet(h.before(reverse), mine, s.get(reverse), rng, text_bytes)?;
                check_snippet(h.after(reverse), other, s.get(!reverse), rng, text_bytes)?;
            }
            check_text_hunk(&h, s, &p.before[s.before.0..s.before.1], &p.after[s.after.0..s.after.1], rng, &mut o)
        };
        guard("views of a hunk", &mut look).and_then(|x| x).map_err(|x| f(ctx_of(x, &shown)))?;
        o.count("text hunks", 1);
    }
    o.sample = Some(clip(&head(), 400));
    Ok(o)
}

fn c24_bytes(rng: &mut Rng) -> Verdict {
    let (a, b) = byte_pair(rng);
    let ctx = any_context(rng);
    let head = || show_pair_bytes(&a, &b, ctx);
    let mut o = Outcome::new(&[&[ctx][..], &a, &[0, 1, 2], &b].concat(), a != b);
    let f = |x: Fault| ctx_of(x, &head());
    let changes = guard("comparing", || Changes::<u8>::new(bseq(&a), bseq(&b))).map_err(f)?;
    for c in &changes.changes {
        guard("views of a change", || check_basics(c, Sides::of(c), rng)).and_then(|x| x).map_err(|x| f(ctx_of(x, &format!("{c:?}"))))?;
        o.count("changes", 1);
    }
    for c in changes.change_clumps(ctx) {
        let (first, last) = (Sides::of(&c.changes[0]), Sides::of(&c.changes[c.changes.len() - 1]));
        let s = Sides { before: (first.before.0, last.before.1), after: (first.after.0, last.after.1) };
        let shown = format!("hunk of {:?}", c.changes);
        guard("views of a group of changes", || check_basics(&c, s, rng)).and_then(|x| x).map_err(|x| f(ctx_of(x, &shown)))?;
        let h = ByteChangeClump::from(c);
        let mut look = || -> R {
            for reverse in [false, true] {
                let (mine, other) = if reverse { (&b, &a) } else { (&a, &b) };
                check_snippet(h.before(reverse), mine, s.get(reverse), rng, raw)?;
                check_snippet(h.after(reverse), other, s.get(!reverse), rng, raw)?;
                same("before_start", h.before_start(reverse), s.get(reverse).0)?;
                for t in [mine.clone(), other.clone(), edit_bytes(rng, mine, 2, 0), edit_bytes(rng, other, 1, 0)] {
                    let is = |at: (usize, usize), x: &[u8]| t.get(at.0..at.1) == Some(&x[at.0..at.1]);
                    let data = bseq(&t);
                    same("will_apply", h.will_apply(&data, reverse), is(s.get(reverse), mine))?;
                    same("is_already_applied", h.is_already_applied(&data, reverse), is(s.get(!reverse), other))?;
                    o.count("places asked about", 2);
                }
            }
            Ok(())
        };
        guard("views of a hunk", &mut look).and_then(|x| x).map_err(|x| f(ctx_of(x, &shown)))?;
        o.count("byte hunks", 1);
    }
    o.sample = Some(clip(&head(), 400));
    Ok(o)
}

/// Hunks read from a unified diff.
struct Read(UnifiedDiffClump);
impl ChangeBasics for Read {
    fn before_start(&self, reverse: bool) -> usize {
        self.0.before_start(reverse)
    }
    fn before_end(&self, reverse: bool) -> usize {
        self.0.before_end(reverse)
    }
    fn before_length(&self, reverse: bool) -> usize {
        self.0.before_length(reverse)
    }
}
impl TextClumpBasics for Read {
    fn context_lengths(&self) -> (u8, u8) {
        TextClumpBasics::context_lengths(&self.0)
    }
    fn before_lines(&self, range: Option<Range>, reverse: bool) -> impl Iterator<Item = &String> {
        TextClumpBasics::before_lines(&self.0, range, reverse)
    }
}
impl ApplyClumpFuzzy for Read {}

fn c24_unified(rng: &mut Rng, i: usize) -> Verdict {
    let mut o = Outcome::default();
    o.nontrivial = true;
    let look_at = |c: UnifiedDiffClump, s: Sides, before: &[String], after: &[String], head: &str, rng: &mut Rng, o: &mut Outcome| -> R {
        let c = Read(c);
        let mut look = || -> R {
            check_basics(&c.0, s, rng)?;
            check_text_hunk(&c, s, before, after, rng, o)
        };
        guard("views of a hunk", &mut look).and_then(|x| x).map_err(|x| ctx_of(x, head))?;
        o.count("unified hunks", 1);
        Ok(())
    };
    if i % 2 == 0 {
        // as this library writes them
        let p = text_pair(rng);
        let ctx = any_context(rng);
        let head = format!("context={ctx}\n{}", clip(&p.show(), 6000));
        o.hash = crate::rng::hash_bytes(&p.key(ctx));
        let changes = guard("comparing", || Changes::<String>::new(seq(&p.before), seq(&p.after)))?;
        let hs: Vec<Sides> = changes
            .change_clumps(ctx)
            .map(|c| {
                let (f, l) = (Sides::of(&c.changes[0]), Sides::of(&c.changes[c.changes.len() - 1]));
                Sides { before: (f.before.0, l.before.1), after: (f.after.0, l.after.1) }
            })
            .collect();
        let it = UnifiedClumpIter { before: &changes.before, after: &changes.after, iter: changes.change_clumps(ctx) };
        for (k, t) in it.enumerate() {
            let text = split_lines(&format!("{}\n{}", t.header, join(&t.lines)));
            let Ok(Some(c)) = guard("get_from_at", || UnifiedDiffClump::get_from_at(&seq(&text), 0)).map_err(|x| ctx_of(x, &head))? else {
                return Err(format!("a formatted hunk is not read back: {text:?}\n{head}").into());
            };
            let s = hs[k];
            look_at(c, s, &p.before[s.before.0..s.before.1], &p.after[s.after.0..s.after.1], &format!("{}\n{head}", clip(&text.concat(), 2000)), rng, &mut o)?;
        }
        o.sample = Some(clip(&head, 300));
    } else {
        // as others do
        let h = any_hunk(rng);
        let text = written(&h, any_style(rng));
        let head = text.concat();
        o.hash = crate::rng::hash_bytes(head.as_bytes());
        if h.starts_at_zero() {
            return Ok(o);
        }
        let Ok(Some(c)) = guard("get_from_at", || UnifiedDiffClump::get_from_at(&seq(&text), 0)).map_err(|x| ctx_of(x, &head))? else {
            return Err(format!("a well-formed hunk is not read: {head}").into());
        };
        let (before, after) = (h.old(), h.new());
        let (b, a) = h.indices();
        if b > 1 << 40 || a > 1 << 40 {
            return Ok(o);
        }
        look_at(c, Sides { before: (b, b + before.len()), after: (a, a + after.len()) }, &before, &after, &head, rng, &mut o)?;
    }
    Ok(o)
}

/// Sequences: parts, snippets, places, indices, and consuming them.
fn sequence<T: PartialEq + Clone + std::fmt::Debug>(items: &[T], rng: &mut Rng, bytes: fn(&[T]) -> Vec<u8>, o: &mut Outcome) -> R
where
    Seq<T>: WriteDataInto,
    Snippet<T>: SnippetWrite,
{
    let s = Seq(items.to_vec().into_boxed_slice());
    let n = items.len();
    same("length", s.len(), n)?;
    let x = rng.below(n + 1);
    let y = rng.range(x, n);
    same("range_from", s.range_from(x), Range(x, n))?;
    same("length of a range", (Range(x, y).len(), Range(x, y).is_empty(), Range(x, y).start(), Range(x, y).end()), (y - x, x == y, x, y))?;
    same("validity of a range", (Range(x, y).is_valid(), Range(y, x).is_valid(), Range(x, y).is_valid_for_max_end(n), Range(x, n + 1).is_valid_for_max_end(n)), (true, x == y, true, false))?;
    same("length of a range the wrong way round", Range(y + 1, x).len(), 0)?;
    same(&format!("subsequence {x}..{y}"), s.subsequence(Range(x, y)).cloned().collect::<Vec<_>>(), items[x..y].to_vec())?;
    same(&format!("subsequence {x}..{y} from behind"), s.subsequence(Range(x, y)).rev().cloned().collect::<Vec<_>>(), items[x..y].iter().rev().cloned().collect())?;
    let snip = s.extract_snippet(Range(x, y));
    check_snippet(&snip, items, (x, y), rng, bytes)?;
    let put = |f: &dyn Fn(&mut Vec<u8>) -> std::io::Result<()>| -> Result<Vec<u8>, Fault> {
        let mut out = vec![];
        f(&mut out).map_err(|e| Fault::Bad(format!("writing: {e}")))?;
        Ok(out)
    };
    same(&format!("write_into {x}..{y}"), put(&|w| s.write_into(w, Range(x, y)))?, bytes(&items[x..y]))?;
    same(&format!("write_into_all_from {x}"), put(&|w| s.write_into_all_from(w, x))?, bytes(&items[x..]))?;
    // comparisons
    for _ in 0..6 {
        // the same piece often, an equal one elsewhere sometimes
        let (p, q) = match rng.below(3) {
            0 => (x, y),
            1 => {
                let p = rng.below(n - (y - x) + 1);
                (p, p + (y - x))
            }
            _ => {
                let p = rng.below(n + 1);
                (p, rng.range(p, n))
            }
        };
        let other = s.extract_snippet(Range(p, q));
        same(&format!("snippets {x}..{y} and {p}..{q} are equal"), snip == other, p == x && items[p..q] == items[x..y])?;
        let mut changed = items.to_vec();
        let expect = match rng.below(4) {
            0 => true,
            1 if n > 0 => {
                changed.pop();
                false
            }
            2 if n > 0 => {
                changed.remove(rng.below(n));
                false
            }
            _ if n > 0 => {
                let (i, j) = (rng.below(n), rng.below(n));
                changed[i] = items[j].clone();
                changed[i] == items[i]
            }
            _ => true,
        };
        let other = Seq(changed.clone().into_boxed_slice());
        same(&format!("{items:?} and {changed:?} are equal sequences"), (s == other, other == s), (expect, expect))?;
        o.count("comparisons", 2);
    }
    // places
    let part = &items[x..y];
    for at in (0..n + 3).chain([usize::MAX, usize::MAX - 1, usize::MAX - n, usize::MAX / 2, isize::MAX as usize]) {
        let is = at <= n && n - at >= part.len() && items[at..at + part.len()] == *part;
        same(&format!("has_subsequence_at {at} of {part:?}"), s.has_subsequence_at(part, at), is)?;
        same(&format!("has_subsequence_at {at} of {part:?}, consumable"), ConsumableSeq::new(&s).has_subsequence_at(part, at), is)?;
        o.count("places asked about", 2);
    }
    // consuming
    let mut c = ConsumableSeq::new(&s);
    let mut at = 0;
    let mut log = vec![];
    for _ in 0..rng.range(1, 12) {
        let mut out = vec![];
        match rng.below(4) {
            0 | 1 => {
                let to = if rng.chance(1, 4) { rng.below(at + 1) } else { rng.range(at, n) };
                log.push(format!("write up to {to}"));
                c.write_into_upto(&mut out, to).map_err(|e| Fault::Bad(format!("writing: {e}")))?;
                same(&format!("{log:?}"), out, bytes(&items[at.min(to)..to][if to > at { 0 } else { to - at.min(to) }..]))?;
                at = at.max(to);
            }
            2 => {
                let k = rng.below((n - at).min(5) + 1);
                log.push(format!("skip {k}"));
                c.advance_consumed_by(k);
                at += k;
            }
            _ if rng.chance(1, 4) => {
                log.push("write the rest".into());
                c.write_remainder(&mut out).map_err(|e| Fault::Bad(format!("writing: {e}")))?;
                same(&format!("{log:?}"), out, bytes(&items[at..]))?;
                at = n;
            }
            _ => {
                // a copy goes its own way
                let mut d = c.clone();
                let mut rest = vec![];
                d.write_remainder(&mut rest).map_err(|e| Fault::Bad(format!("writing: {e}")))?;
                same(&format!("{log:?}, copy, write the rest"), rest, bytes(&items[at..]))?;
                same("consumed by the copy", d.consumed(), n)?;
            }
        }
        same(&format!("consumed after {log:?}"), c.consumed(), at)?;
        same("data", &c.data().0[..], items)?;
        same("range_from", c.range_from(x), Range(x, n))?;
        o.count("requests to a consumable sequence", 1);
    }
    Ok(())
}

fn c24_sequences(rng: &mut Rng, i: usize) -> Verdict {
    let mut o = Outcome::default();
    o.nontrivial = true;
    let look = |rng: &mut Rng, o: &mut Outcome| -> Result<String, Fault> {
        if i % 2 == 0 {
            let alpha = any_alphabet(rng);
            let n = rng.below(30);
            let mut u = 0;
            let mut lines = normalise(gen_lines(rng, n, alpha, &mut u));
            if rng.chance(1, 4) {
                chop_eol(&mut lines);
            }
            let f = |x| ctx_of(x, &format!("{lines:?}"));
            o.hash = crate::rng::hash_bytes(join(&lines).as_bytes()) ^ rng.next();
            sequence(&lines, rng, text_bytes, o).map_err(f)?;
            same("Seq from text", &Seq::<String>::from(join(&lines)).0[..], &lines[..]).map_err(f)?;
            same("Seq from text", &Seq::<String>::from(join(&lines).as_str()).0[..], &lines[..]).map_err(f)?;
            let ix = StringItemIndices::generate_from(&seq(&lines));
            for l in lines.iter().cloned().chain(["".into(), "not there".into(), "\n".into()]) {
                let want: Vec<usize> = (0..lines.len()).filter(|i| lines[*i] == l).collect();
                same(&format!("indices of {l:?}"), ix.indices(&l).cloned(), Some(want).filter(|w| !w.is_empty())).map_err(f)?;
                o.count("items looked up", 1);
            }
            Ok(format!("{lines:?}"))
        } else {
            let n = rng.below(60);
            let kind = rng.below(4);
            let b = gen_bytes(rng, n, kind);
            let f = |x| ctx_of(x, &format!("{b:?}"));
            o.hash = crate::rng::hash_bytes(&b) ^ rng.next();
            sequence(&b, rng, raw, o).map_err(f)?;
            same("Seq from bytes", &Seq::<u8>::from(b.clone()).0[..], &b[..]).map_err(f)?;
            same("Seq from bytes", &Seq::<u8>::from(&b[..]).0[..], &b[..]).map_err(f)?;
            let ix = ByteItemIndices::generate_from(&bseq(&b));
            for x in 0..=255u8 {
                let want: Vec<usize> = (0..b.len()).filter(|i| b[*i] == x).collect();
                same(&format!("indices of {x}"), ix.indices(&x).cloned(), Some(want).filter(|w| !w.is_empty())).map_err(f)?;
                o.count("items looked up", 1);
            }
            Ok(format!("{b:?}"))
        }
    };
    let s = guard("using a sequence", || look(rng, &mut o)).and_then(|x| x)?;
    o.sample = Some(clip(&s, 200));
    Ok(o)
}

/// Runs of equal items: ends, and trimming, splitting and extending them.
fn c24_runs(rng: &mut Rng, i: usize) -> Verdict {
    let mut o = Outcome::new(&i.to_le_bytes(), true);
    let (n, k) = if i < 4096 { (i / 64, (i % 64) as u8) } else { (log_range(rng, 1, 1 << 40), *rng.pick(&[0u8, 1, 2, 127, 128, 254, 255])) };
    let (b, a) = (rng.below(1000), log_range(rng, 1, 1 << 40));
    let c = CommonSubsequence(b, a, n);
    let look = || -> R {
        same("ranges", (c.before_range(), c.after_range()), (Range(b, b + n), Range(a, a + n)))?;
        same("starts and ends", (c.before_start(), c.before_end(), c.after_start(), c.after_end()), (b, b + n, a, a + n))?;
        same("length", (c.len(), c.is_empty()), (n, n == 0))?;
        let m = n.min(k as usize);
        same(&format!("{c:?} trimmed to its last {k}"), c.starts_trimmed(k), CommonSubsequence(b + n - m, a + n - m, m))?;
        same(&format!("{c:?} trimmed to its first {k}"), c.ends_trimmed(k), CommonSubsequence(b, a, m))?;
        // two contexts that meet need not be split
        let parts = c.split(k);
        if let Some((x, y)) = parts {
            same("split", (x, y), (CommonSubsequence(b, a, k as usize), CommonSubsequence(b + n - k as usize, a + n - k as usize, k as usize)))?;
        }
        if parts.is_some() != (n >= 2 * k as usize) {
            return Err(format!("{c:?} split for {k}: {parts:?}").into());
        }
        let d = b.min(a).min(k as usize);
        let mut e = c;
        e.incr_size_moving_starts(d);
        same("extended to the front", e, CommonSubsequence(b - d, a - d, n + d))?;
        let mut e = c;
        e.incr_size_moving_ends(d);
        same("extended to the back", e, CommonSubsequence(b, a, n + d))
    };
    guard("using a run", look).and_then(|x| x)?;
    // comparisons: item by item, the earlier ones first
    let mut v = |w: usize| if rng.chance(1, 2) { w } else { rng.below(4) + w.saturating_sub(2) };
    let d = CommonSubsequence(v(b), v(a), v(n));
    let (r, q) = (Range(b, a), Range(d.0, d.1));
    let look = || -> R {
        let (ck, dk) = ((c.0, c.1, c.2), (d.0, d.1, d.2));
        same(&format!("{c:?} against {d:?}"), (c == d, c.cmp(&d), c.partial_cmp(&d)), (ck == dk, ck.cmp(&dk), Some(ck.cmp(&dk))))?;
        same(&format!("{r:?} against {q:?}"), (r == q, r.partial_cmp(&q)), ((r.0, r.1) == (q.0, q.1), (r.0, r.1).partial_cmp(&(q.0, q.1))))?;
        let kinds = |s: CommonSubsequence, r: Range| [Change::NoChange(s), Change::Delete(r, s.2), Change::Insert(s.2, r), Change::Replace(r, s.before_range())];
        for (i, x) in kinds(c, r).into_iter().enumerate() {
            for (j, y) in kinds(d, q).into_iter().enumerate() {
                let want = i == j
                    && match i {
                        0 => c == d,
                        3 => r == q && c.before_range() == d.before_range(),
                        _ => r == q && c.2 == d.2,
                    };
                same(&format!("{x:?} and {y:?} are equal"), x == y, want)?;
            }
        }
        Ok(())
    };
    guard("comparing runs", look).and_then(|x| x)?;
    o.count("comparisons", 18);
    o.count("runs", 1);
    Ok(o)
}

pub fn c24(c: &mut Ctx) {
    c.rule = "every change, group of changes and hunk (text, bytes, unified) of generated pairs and contexts, in both directions, with permissible reductions, asked in every way and compared with the files; sequences and runs under random and exhaustive requests; non-trivial: the files differ".into();
    let c = &*c;
    c.stage("text", c.tier(24_000, 400_000), c.tier(20, 300), |r, _| c24_text(r));
    c.stage("bytes", c.tier(30_000, 400_000), c.tier(15, 200), |r, _| c24_bytes(r));
    c.stage("unified", c.tier(24_000, 400_000), c.tier(15, 200), c24_unified);
    c.stage("sequences", c.tier(60_000, 1_000_000), c.tier(12, 200), c24_sequences);
    c.stage("runs", c.tier(20_000, 200_000), c.tier(5, 30), c24_runs);
}

// ---------------------------------------------------------------- C25

thread_local! {
    static HEARD: RefCell<Vec<(log::Level, String)>> = const { RefCell::new(vec![]) };
}

struct Ear;
impl log::Log for Ear {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        HEARD.with(|h| h.borrow_mut().push((r.level(), r.args().to_string())));
    }
    fn flush(&self) {}
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Fate {
    Applied,
    Already,
    Failed,
}

/// What a message says of a hunk.
#[derive(Debug, Clone)]
struct Said {
    level: log::Level,
    number: usize,
    fate: Fate,
    red: Option<(usize, usize)>,
    offset: Option<i64>,
}

/// The messages that speak of a hunk.
fn heard() -> Result<(Vec<Said>, String), Fault> {
    let all = HEARD.with(|h| std::mem::take(&mut *h.borrow_mut()));
    let text = all.iter().map(|(l, t)| format!("{l}: {t}")).collect::<Vec<_>>().join("\n");
    let mut said = vec![];
    for (level, m) in all {
        if level > log::Level::Info {
            continue;
        }
        let Some((_, rest)) = m.split_once('#') else { continue };
        let digits: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
        let Ok(number) = digits.parse() else { continue };
        let fate = if m.contains("NOT") {
            Fate::Failed
        } else if m.contains("already") {
            Fate::Already
        } else if m.contains("appl") {
            Fate::Applied
        } else {
            return Err(Fault::Harness(format!("what does this say: {m:?}")));
        };
        let nums = |s: &str| -> Vec<i64> { s.split(|c: char| !c.is_ascii_digit() && c != '-').filter_map(|x| x.parse().ok()).collect() };
        let offset = m.split_once("offset").and_then(|(_, r)| nums(r).first().copied());
        let red = m.split_once('(').map(|(_, r)| nums(r)).filter(|v| v.len() >= 2).map(|v| (v[0] as usize, v[1] as usize));
        said.push(Said { level, number, fate, red, offset });
    }
    Ok((said, text))
}

fn level_fits(s: &Said) -> bool {
    match s.fate {
        Fate::Failed => s.level == log::Level::Error,
        Fate::Applied if s.red.is_none() && s.offset.is_none() => s.level == log::Level::Info,
        _ if s.red.is_some() || s.offset.is_some() => s.level == log::Level::Warn,
        _ => s.level > log::Level::Error,
    }
}

/// Do with the target what the messages say was done.
fn replay(hs: &[Hunk], target: &[String], said: &[Said]) -> Result<(Vec<u8>, Tally), String> {
    let mut t = Tally::default();
    let mut out: Lines = vec![];
    let (mut used, mut offset) = (0usize, 0i64);
    if said.len() != hs.len() {
        return Err(format!("{} messages for {} hunks", said.len(), hs.len()));
    }
    for (i, (h, s)) in hs.iter().zip(said).enumerate() {
        let n = i + 1;
        if s.number != n {
            return Err(format!("message {n} is of hunk {}", s.number));
        }
        if !level_fits(s) {
            return Err(format!("hunk {n}: its message is of level {}", s.level));
        }
        offset += s.offset.unwrap_or(0);
        let r = s.red.unwrap_or((0, 0));
        let (start, lines) = if s.fate == Fate::Already { (h.after_start, &h.after) } else { (h.before_start, &h.before) };
        if s.fate != Fate::Failed {
            if r.0 + r.1 > lines.len() || r.0 > h.ctx.0 || r.1 > h.ctx.1 {
                return Err(format!("hunk {n}: it cannot be reduced by {r:?}"));
            }
            let part = &lines[r.0..lines.len() - r.1];
            let at = start as i64 + offset + r.0 as i64;
            if at < used as i64 || at as usize + part.len() > target.len() || target[at as usize..at as usize + part.len()] != *part {
                return Err(format!("hunk {n}: it is not at line {at}, where its message has it"));
            }
            let (at, exact) = (at as usize, s.red.is_none() && s.offset.is_none());
            if s.fate == Fate::Applied {
                out.extend(target[used..at].iter().cloned());
                out.extend(h.after[r.0..h.after.len() - r.1].iter().cloned());
                *(if exact { &mut t.clean } else { &mut t.fuzzy }) += 1;
            } else {
                out.extend(target[used..at + part.len()].iter().cloned());
                *(if exact { &mut t.already } else { &mut t.already_fuzzy }) += 1;
            }
            used = at + part.len();
        } else {
            out.push("<<<<<<<\n".into());
            out.extend(h.before.iter().cloned());
            out.push("=======\n".into());
            out.extend(h.after.iter().cloned());
            out.push(">>>>>>>\n".into());
            t.failed += 1;
        }
    }
    out.extend(target[used..].iter().cloned());
    Ok((text_bytes(&out), t))
}

fn c25_text(rng: &mut Rng, i: usize) -> Verdict {
    let p = text_pair(rng);
    let ctx = any_context(rng);
    c25_pair(rng, i, p, ctx)
}

/// Patches of hundreds of hunks.
fn c25_many(rng: &mut Rng, i: usize) -> Verdict {
    let hunks = if rng.chance(1, 3) { rng.range(60, 900) } else { rng.range(1_000, 1_400) };
    let mut before: Lines = vec![];
    let mut after: Lines = vec![];
    for k in 0..hunks {
        for j in 0..rng.range(1, 4) {
            before.push(format!("line {k}.{j}\n"));
            after.push(format!("line {k}.{j}\n"));
        }
        match rng.below(3) {
            0 => before.push(format!("old {k}\n")),
            1 => after.push(format!("new {k}\n")),
            _ => {
                before.push(format!("old {k}\n"));
                after.push(format!("new {k}\n"));
            }
        }
    }
    let p = Pair { before, after, alpha: Alphabet::Unique };
    c25_pair(rng, i, p, (i % 2) as u8)
}

fn c25_pair(rng: &mut Rng, i: usize, p: Pair, ctx: u8) -> Verdict {
    let patch = guard("making the patch", || text_patch(&p.before, &p.after, ctx))?;
    let reverse = rng.chance(1, 2);
    let mut target = any_target(rng, &p, &patch);
    if rng.chance(1, 3) && !target.is_empty() {
        // displaced
        let at = rng.below(target.len());
        for _ in 0..rng.range(1, 20) {
            target.insert(at, format!("extra {}\n", rng.below(5)));
        }
    }
    let target = normalise(target);
    let hs = hunks(&patch, reverse);
    let head = || format!("context={ctx} reverse={reverse}\n{}\ntarget={:?}", clip(&p.show(), 5000), clip(&join(&target), 4000));
    let f = |x: Fault| ctx_of(x, &head());
    let mut o = Outcome::new(head().as_bytes(), !hs.is_empty());
    HEARD.with(|h| h.borrow_mut().clear());
    let (out, tally) = guard("applying", || apply_text(&patch, &target, reverse)).map_err(f)?.map_err(Fault::Bad)?;
    let (said, text) = heard()?;
    let g = |e: String| -> Fault { f(format!("{e}\nlog:\n{}\nstatistics {tally:?}", clip(&text, 3000)).into()) };
    let (want, t) = replay(&hs, &target, &said).map_err(g)?;
    if t != tally {
        return Err(g(format!("the log adds up to {t:?}")));
    }
    if want != out {
        return Err(g(format!("doing what the log says gives another output ({})\ngot={}\nlog={}", diff_pos(&out, &want), show_bytes(&out), show_bytes(&want))));
    }
    for s in &said {
        o.count(
            match (s.fate, s.offset.is_some(), s.red.is_some()) {
                (Fate::Applied, false, false) => "hunks said to apply cleanly",
                (Fate::Applied, true, false) => "hunks said to apply displaced",
                (Fate::Applied, false, true) => "hunks said to apply reduced",
                (Fate::Applied, true, true) => "hunks said to apply displaced and reduced",
                (Fate::Already, false, false) => "hunks said to be there already",
                (Fate::Already, true, false) => "hunks said to be there already, displaced",
                (Fate::Already, false, true) => "hunks said to be there already, reduced",
                (Fate::Already, true, true) => "hunks said to be there already, displaced and reduced",
                (Fate::Failed, ..) => "hunks said to fail",
            },
            1,
        );
    }
    // asking whether it is applied
    let t = seq(&target);
    let yes = guard("is_already_applied", || patch.is_already_applied(&t, reverse)).map_err(f)?;
    let (said, text) = heard()?;
    let g = |e: String| -> Fault { f(format!("asked whether it is applied: {e}\nanswer {yes}, log:\n{}", clip(&text, 3000)).into()) };
    let mut offset = 0i64;
    for (i, s) in said.iter().enumerate() {
        if s.number != i + 1 || i >= hs.len() {
            return Err(g(format!("message {} is of hunk {}", i + 1, s.number)));
        }
        if !level_fits(s) || s.fate == Fate::Applied {
            return Err(g(format!("hunk {}: its message is of level {} and says {:?}", i + 1, s.level, s.fate)));
        }
        if (s.fate == Fate::Failed) != (!yes && i + 1 == said.len()) {
            return Err(g(format!("hunk {}: the message disagrees with the answer", i + 1)));
        }
        if s.fate == Fate::Already {
            offset += s.offset.unwrap_or(0);
            let r = s.red.unwrap_or((0, 0));
            let h = &hs[i];
            let part = &h.after[r.0..h.after.len() - r.1];
            let at = h.after_start as i64 + offset + r.0 as i64;
            if at < 0 || target.get(at as usize..at as usize + part.len()) != Some(part) {
                return Err(g(format!("hunk {}: its result is not at line {at}", i + 1)));
            }
        }
    }
    if yes && said.len() != hs.len() {
        return Err(g(format!("{} messages for {} hunks", said.len(), hs.len())));
    }
    o.count(if yes { "patches said to be applied" } else { "patches said not to be applied" }, 1);
    if i % 8 == 0 {
        o.sample = Some(clip(&head(), 400));
    }
    Ok(o)
}

fn c25_bytes(rng: &mut Rng, _i: usize) -> Verdict {
    let (a, b) = if rng.chance(1, 4_000) {
        // more than a thousand hunks
        let (mut a, mut b) = (vec![], vec![]);
        for k in 0..rng.range(1_000, 1_200) {
            let common = [1 + (k % 120) as u8, 121 + (k / 120) as u8];
            a.extend(common);
            b.extend(common);
            if rng.chance(1, 2) { a.push(0) } else { b.push(255) }
        }
        (a, b)
    } else {
        byte_pair(rng)
    };
    let ctx = rng.below(5) as u8;
    let patch = guard("making the patch", || byte_patch(&a, &b, ctx))?;
    let reverse = rng.chance(1, 2);
    let target = match rng.below(4) {
        0 => a.clone(),
        1 => b.clone(),
        2 => edit_bytes(rng, &a, 1, 0),
        _ => edit_bytes(rng, &b, 1, 0),
    };
    let head = || format!("reverse={reverse} target={} {}", show_bytes(&target), show_pair_bytes(&a, &b, ctx));
    let f = |x: Fault| ctx_of(x, &head());
    let hs: Vec<(usize, Vec<u8>, usize, Vec<u8>)> = patch
        .0
        .iter()
        .map(|c| (c.before(reverse).start, c.before(reverse).items.to_vec(), c.after(reverse).start, c.after(reverse).items.to_vec()))
        .collect();
    let mut o = Outcome::new(head().as_bytes(), !hs.is_empty());
    HEARD.with(|h| h.borrow_mut().clear());
    let (out, tally) = guard("applying", || apply_bytes(&patch, &target, reverse)).map_err(f)?.map_err(Fault::Bad)?;
    let (said, text) = heard()?;
    let g = |e: String| -> Fault { f(format!("{e}\nlog:\n{}\nstatistics {tally:?}", clip(&text, 3000)).into()) };
    if said.len() != hs.len() {
        return Err(g(format!("{} messages for {} hunks", said.len(), hs.len())));
    }
    let (mut want, mut used, mut t) = (vec![], 0usize, Tally::default());
    for (i, (h, s)) in hs.iter().zip(&said).enumerate() {
        if s.number != i + 1 {
            return Err(g(format!("message {} is of hunk {}", i + 1, s.number)));
        }
        if !level_fits(s) || s.red.is_some() || s.offset.is_some() {
            return Err(g(format!("hunk {}: {s:?}", i + 1)));
        }
        let (at, part) = match s.fate {
            Fate::Applied => (h.0, &h.1),
            Fate::Already => (h.2, &h.3),
            Fate::Failed => {
                t.failed += 1;
                continue;
            }
        };
        if at < used || target.get(at..at + part.len()) != Some(&part[..]) {
            return Err(g(format!("hunk {}: it is not at byte {at}, where its message has it", i + 1)));
        }
        if s.fate == Fate::Applied {
            want.extend(&target[used..at]);
            want.extend(&h.3);
            t.clean += 1;
        } else {
            want.extend(&target[used..at + part.len()]);
            t.already += 1;
        }
        used = at + part.len();
    }
    want.extend(&target[used..]);
    if t != tally || want != out {
        return Err(g(format!("doing what the log says gives {t:?} and {}; the output is {}", show_bytes(&want), show_bytes(&out))));
    }
    for s in &said {
        o.count(
            match s.fate {
                Fate::Applied => "byte hunks said to apply",
                Fate::Already => "byte hunks said to be there already",
                Fate::Failed => "byte hunks said to fail",
            },
            1,
        );
    }
    let data = bseq(&target);
    let yes = guard("already_applied", || patch.already_applied(&data, reverse)).map_err(f)?;
    let (said, text) = heard()?;
    let g = |e: String| -> Fault { f(format!("asked whether it is applied: {e}\nanswer {yes}, log:\n{}", clip(&text, 3000)).into()) };
    for (i, s) in said.iter().enumerate() {
        let here = hs.get(i).is_some_and(|h| target.get(h.2..h.2 + h.3.len()) == Some(&h.3[..]));
        let want = if here { Fate::Already } else { Fate::Failed };
        if s.number != i + 1 || s.fate != want || !level_fits(s) || (s.fate == Fate::Failed) != (!yes && i + 1 == said.len()) {
            return Err(g(format!("hunk {}: {s:?}", i + 1)));
        }
    }
    if yes && said.len() != hs.len() {
        return Err(g(format!("{} messages for {} hunks", said.len(), hs.len())));
    }
    o.count(if yes { "byte patches said to be applied" } else { "byte patches said not to be applied" }, 1);
    o.sample = Some(clip(&head(), 300));
    Ok(o)
}

/// Does listening make a difference?
fn c25_silence(rng: &mut Rng, i: usize) -> Verdict {
    let p = text_pair(rng);
    let ctx = any_context(rng);
    let patch = guard("making the patch", || text_patch(&p.before, &p.after, ctx))?;
    let target = any_target(rng, &p, &patch);
    let (a, b) = byte_pair(rng);
    let bp = guard("making the patch", || byte_patch(&a, &b, ctx))?;
    let mut first = None;
    for level in [log::LevelFilter::Trace, log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Warn] {
        log::set_max_level(level);
        let x = guard("applying", || (apply_text(&patch, &target, i % 2 == 0), patch.is_already_applied(&seq(&target), i % 2 == 0), apply_bytes(&bp, if i % 3 == 0 { &b } else { &a }, i % 2 == 1)));
        log::set_max_level(log::LevelFilter::Trace);
        HEARD.with(|h| h.borrow_mut().clear());
        let x = x?;
        match &first {
            None => first = Some(x),
            Some(f) if *f == x => (),
            Some(f) => return Err(format!("with messages of level {level}: {x:?}, with all of them: {f:?}\n{}", p.show()).into()),
        }
    }
    let mut o = Outcome::new(&p.key(ctx), true);
    o.count("results compared at four log levels", 3);
    Ok(o)
}

pub fn c25(c: &mut Ctx) {
    c.rule = "patches applied to generated targets with a listening logger; what the messages say is done again by the checker and has to give the same output and counts; non-trivial: the patch has a hunk".into();
    if log::set_logger(&Ear).is_err() {
        return c.harness_error("there is a logger already");
    }
    log::set_max_level(log::LevelFilter::Trace);
    let c = &*c;
    c.stage("text", c.tier(120_000, 2_000_000), c.tier(30, 400), c25_text);
    c.stage("many hunks", c.tier(40, 1_000), c.tier(8, 120), c25_many);
    c.stage("bytes", c.tier(120_000, 1_500_000), c.tier(15, 200), c25_bytes);
    // the level is one for all threads
    c.stage_t("silence", c.tier(2_000, 40_000), c.tier(10, 100), 1, c25_silence);
}
