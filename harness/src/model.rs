//! Reference model of where and how the hunks of a text patch take effect, and an explanation search
//! that works from an application's output alone. Neither shares code with the library.

use std::collections::HashSet;

use crate::gen::{join, Lines};
use crate::util::{Hunk, Tally};

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fit {
    Clean,
    Reduced(usize, usize),
}

fn at(target: &[String], pos: i64, lines: &[String]) -> bool {
    pos >= 0 && (pos as usize).checked_add(lines.len()).is_some_and(|e| e <= target.len()) && target[pos as usize..pos as usize + lines.len()] == *lines
}

/// The reductions a hunk may be applied with, in order of preference.
pub fn reductions(ctx: (usize, usize)) -> Vec<(usize, usize)> {
    (1..ctx.0.max(ctx.1)).map(|r| (r.min(ctx.0), r.min(ctx.1))).collect()
}

pub fn cut(lines: &[String], r: (usize, usize)) -> &[String] {
    &lines[r.0..lines.len() - r.1]
}

/// Does this hunk fit with its first line expected at `pos`?
pub fn fits(h: &Hunk, target: &[String], pos: i64) -> Option<Fit> {
    if at(target, pos, &h.before) {
        return Some(Fit::Clean);
    }
    for r in reductions(h.ctx) {
        if at(target, pos + r.0 as i64, cut(&h.before, r)) {
            return Some(Fit::Reduced(r.0, r.1));
        }
    }
    None
}

fn red(f: Fit) -> (usize, usize) {
    match f {
        Fit::Clean => (0, 0),
        Fit::Reduced(a, b) => (a, b),
    }
}

fn fits_free(h: &Hunk, target: &[String], pos: i64, used: usize) -> Option<Fit> {
    fits(h, target, pos).filter(|f| pos + red(*f).0 as i64 >= used as i64)
}

/// Nearest displacement (relative to `offset`) at which the hunk fits.
pub fn nearby(h: &Hunk, next: Option<&Hunk>, target: &[String], used: usize, offset: i64) -> Option<(i64, Fit)> {
    let core = h.before.len() as i64 - h.ctx.0 as i64 - h.ctx.1 as i64;
    let limit = match next {
        Some(n) => n.before_start as i64 + offset + h.ctx.0 as i64 - core,
        None => target.len() as i64 - core,
    };
    let home = h.before_start as i64 + offset;
    // outside of this there are no lines
    let (low, high) = (-(h.ctx.0.max(h.ctx.1) as i64), target.len() as i64);
    let limit = limit.min(high);
    let reach = (home - used as i64).max(limit - home).max(0);
    for d in (home - high).max(low - home).max(1)..=reach {
        if home - d >= used as i64 {
            if let Some(f) = fits_free(h, target, home - d, used) {
                return Some((-d, f));
            }
        }
        if home + d <= limit {
            if let Some(f) = fits_free(h, target, home + d, used) {
                return Some((d, f));
            }
        }
    }
    None
}

#[derive(Debug, Clone, PartialEq)]
pub enum Event {
    Applied { displaced: i64, fit: Fit },
    Already { displaced: i64, fit: Fit },
    Failed,
}

pub struct Run {
    pub out: Vec<u8>,
    pub tally: Tally,
    pub events: Vec<Event>,
}

/// What applying the hunks to the target should do.
pub fn apply(hs: &[Hunk], target: &[String]) -> Run {
    let mut out: Lines = vec![];
    let mut used = 0usize;
    let mut offset = 0i64;
    let mut t = Tally::default();
    let mut events = vec![];
    for (i, h) in hs.iter().enumerate() {
        let next = hs.get(i + 1);
        let place = fits_free(h, target, h.before_start as i64 + offset, used)
            .map(|f| (0, f))
            .or_else(|| nearby(h, next, target, used, offset));
        if let Some((d, f)) = place {
            offset += d;
            let r = red(f);
            let start = (h.before_start as i64 + offset) as usize;
            let s = (h.before_start as i64 + offset + r.0 as i64) as usize;
            let _ = start;
            out.extend(target[used..s].iter().cloned());
            out.extend(cut(&h.after, r).iter().cloned());
            used = s + h.before.len() - r.0 - r.1;
            if d == 0 && f == Fit::Clean {
                t.clean += 1
            } else {
                t.fuzzy += 1
            }
            events.push(Event::Applied { displaced: d, fit: f });
            continue;
        }
        let g = h.flipped();
        let gn = next.map(|n| n.flipped());
        let place = fits_free(&g, target, g.before_start as i64 + offset, used)
            .map(|f| (0, f))
            .or_else(|| nearby(&g, gn.as_ref(), target, used, offset));
        if let Some((d, f)) = place {
            offset += d;
            let r = red(f);
            let e = (g.before_start as i64 + offset) as usize + g.before.len() - r.1;
            out.extend(target[used..e].iter().cloned());
            used = e;
            if d == 0 && f == Fit::Clean {
                t.already += 1
            } else {
                t.already_fuzzy += 1
            }
            events.push(Event::Already { displaced: d, fit: f });
            continue;
        }
        t.failed += 1;
        out.push("<<<<<<<\n".into());
        out.extend(h.before.iter().cloned());
        out.push("=======\n".into());
        out.extend(h.after.iter().cloned());
        out.push(">>>>>>>\n".into());
        events.push(Event::Failed);
    }
    out.extend(target[used..].iter().cloned());
    Run {
        out: join(&out).into_bytes(),
        tally: t,
        events,
    }
}

/// Is every hunk's result (displaced or reduced) found, following the displacement of the hunks before it?
pub fn already_applied(hs: &[Hunk], target: &[String]) -> bool {
    let mut offset = 0i64;
    for (i, h) in hs.iter().enumerate() {
        let g = h.flipped();
        let gn = hs.get(i + 1).map(|n| n.flipped());
        if fits(&g, target, g.before_start as i64 + offset).is_some() {
            continue;
        }
        match nearby(&g, gn.as_ref(), target, 0, offset) {
            Some((d, _)) => offset += d,
            None => return false,
        }
    }
    true
}

/// Does the target hold these lines anywhere, with an allowed reduction of context?
pub fn occurs(lines: &[String], ctx: (usize, usize), target: &[String]) -> bool {
    let mut rs = vec![(0, 0)];
    rs.extend(reductions(ctx));
    rs.iter().any(|r| {
        let c = cut(lines, *r);
        (0..=target.len()).any(|p| at(target, p as i64, c))
    })
}

pub fn conflict_block(h: &Hunk) -> Vec<u8> {
    let mut b = b"<<<<<<<\n".to_vec();
    b.extend(join(&h.before).bytes());
    b.extend(b"=======\n");
    b.extend(join(&h.after).bytes());
    b.extend(b">>>>>>>\n");
    b
}

pub enum Explained {
    Yes,
    No,
    GaveUp,
}

/// Is there any way to treat each hunk - applied somewhere (possibly with reduced context), already applied
/// somewhere, or failed - non-overlapping and in order, which yields this output and these counts?
pub fn explain(hs: &[Hunk], target: &[String], out: &[u8], tally: Tally, budget: usize) -> Explained {
    if tally.total() != hs.len() {
        return Explained::No;
    }
    let mut offs = vec![0usize];
    let mut all: Vec<u8> = vec![];
    for l in target {
        all.extend(l.as_bytes());
        offs.push(all.len());
    }
    let afters: Vec<Vec<((usize, usize), Vec<u8>)>> = hs
        .iter()
        .map(|h| {
            let mut rs = vec![(0, 0)];
            rs.extend(reductions(h.ctx));
            rs.into_iter().map(|r| (r, join(cut(&h.after, r)).into_bytes())).collect()
        })
        .collect();
    let blocks: Vec<Vec<u8>> = hs.iter().map(conflict_block).collect();
    let mut seen: HashSet<(usize, usize, usize, Tally)> = HashSet::new();
    let mut stack = vec![(0usize, 0usize, 0usize, Tally::default())];
    let mut steps = 0usize;
    while let Some(st) = stack.pop() {
        if !seen.insert(st) {
            continue;
        }
        steps += 1;
        if steps > budget {
            return Explained::GaveUp;
        }
        let (i, c, o, t) = st;
        if i == hs.len() {
            if t == tally && out[o..] == all[offs[c]..] {
                return Explained::Yes;
            }
            continue;
        }
        let h = &hs[i];
        if t.failed < tally.failed && out[o..].starts_with(&blocks[i]) {
            let mut t2 = t;
            t2.failed += 1;
            stack.push((i + 1, c, o + blocks[i].len(), t2));
        }
        for p in c..=target.len() {
            let gap = &all[offs[c]..offs[p]];
            if !out[o..].starts_with(gap) {
                break;
            }
            let o2 = o + gap.len();
            for (r, after) in &afters[i] {
                let b = cut(&h.before, *r);
                if at(target, p as i64, b) && out[o2..].starts_with(after) {
                    let full = *r == (0, 0);
                    if full && t.clean < tally.clean && p as i64 >= 0 {
                        let mut t2 = t;
                        t2.clean += 1;
                        stack.push((i + 1, p + b.len(), o2 + after.len(), t2));
                    }
                    if t.fuzzy < tally.fuzzy {
                        let mut t2 = t;
                        t2.fuzzy += 1;
                        stack.push((i + 1, p + b.len(), o2 + after.len(), t2));
                    }
                }
                let a = cut(&h.after, *r);
                if at(target, p as i64, a) && out[o2..].starts_with(after) {
                    let full = *r == (0, 0);
                    if full && t.already < tally.already {
                        let mut t2 = t;
                        t2.already += 1;
                        stack.push((i + 1, p + a.len(), o2 + after.len(), t2));
                    }
                    if t.already_fuzzy < tally.already_fuzzy {
                        let mut t2 = t;
                        t2.already_fuzzy += 1;
                        stack.push((i + 1, p + a.len(), o2 + after.len(), t2));
                    }
                }
            }
        }
    }
    Explained::No
}
