//! Glue to the code under test.


use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::{ApplyClumpsFuzzy, Statistics, TextClumpBasics};
use pw_diff_lib::byte_diff::{ByteChangeClump, ByteChangeDiff};
use pw_diff_lib::changes::Changes;
use pw_diff_lib::sequence::Seq;
use pw_diff_lib::text_diff::{TextChangeClump, TextChangeDiff};

use crate::gen::{join, Lines};

pub fn seq(lines: &[String]) -> Seq<String> {
    Seq(lines.to_vec().into_boxed_slice())
}

pub fn bseq(bytes: &[u8]) -> Seq<u8> {
    Seq(bytes.to_vec().into_boxed_slice())
}

/// A patch made in memory, the way the library makes one from files.
pub struct TextPatch(pub Vec<TextChangeClump>);

impl ApplyClumpsFuzzy<TextChangeClump> for TextPatch {
    fn clumps<'s>(&'s self) -> impl Iterator<Item = &'s TextChangeClump>
    where
        TextChangeClump: 's,
    {
        self.0.iter()
    }
}

pub fn text_patch(before: &[String], after: &[String], ctx: u8) -> TextPatch {
    let changes = Changes::<String>::new(seq(before), seq(after));
    TextPatch(changes.change_clumps(ctx).map(TextChangeClump::from).collect())
}

pub struct BytePatch(pub Vec<ByteChangeClump>);

impl ApplyClumpsClean<'_, ByteChangeClump> for BytePatch {
    fn clumps<'b>(&'b self) -> impl Iterator<Item = &'b ByteChangeClump>
    where
        ByteChangeClump: 'b,
    {
        self.0.iter()
    }
}

pub fn byte_patch(before: &[u8], after: &[u8], ctx: u8) -> BytePatch {
    let changes = Changes::<u8>::new(bseq(before), bseq(after));
    BytePatch(changes.change_clumps(ctx).map(ByteChangeClump::from).collect())
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Hash, PartialOrd, Ord)]
pub struct Tally {
    pub clean: usize,
    pub fuzzy: usize,
    pub already: usize,
    pub already_fuzzy: usize,
    pub failed: usize,
}

impl Tally {
    pub fn total(&self) -> usize {
        self.clean + self.fuzzy + self.already + self.already_fuzzy + self.failed
    }
}

impl From<Statistics> for Tally {
    fn from(s: Statistics) -> Self {
        Tally {
            clean: s.clean,
            fuzzy: s.fuzzy,
            already: s.already_applied,
            already_fuzzy: s.already_applied_fuzzy,
            failed: s.failed,
        }
    }
}

pub fn apply_text<P: ApplyClumpsFuzzy<TextChangeClump>>(p: &P, target: &[String], reverse: bool) -> Result<(Vec<u8>, Tally), String> {
    let mut out: Vec<u8> = vec![];
    let stats = p
        .apply_into(&seq(target), &mut out, reverse)
        .map_err(|e| format!("apply_into returned an error writing to memory: {e}"))?;
    Ok((out, stats.into()))
}

pub fn apply_bytes(p: &impl for<'a> ApplyClumpsClean<'a, ByteChangeClump>, target: &[u8], reverse: bool) -> Result<(Vec<u8>, Tally), String> {
    let mut out: Vec<u8> = vec![];
    let t = bseq(target);
    let stats = p
        .apply_into(&t, &mut out, reverse)
        .map_err(|e| format!("apply_into returned an error writing to memory: {e}"))?;
    Ok((out, stats.into()))
}

/// What a hunk says, read through its public accessors.
#[derive(Debug, Clone, PartialEq)]
pub struct Hunk {
    pub ctx: (usize, usize),
    pub before_start: usize,
    pub before: Lines,
    pub after_start: usize,
    pub after: Lines,
}

impl Hunk {
    pub fn of(c: &TextChangeClump) -> Self {
        let (a, b) = c.context_lengths();
        Hunk {
            ctx: (a as usize, b as usize),
            before_start: c.before(false).start,
            before: c.before(false).items.to_vec(),
            after_start: c.after(false).start,
            after: c.after(false).items.to_vec(),
        }
    }
    pub fn flipped(&self) -> Self {
        Hunk {
            ctx: self.ctx,
            before_start: self.after_start,
            before: self.after.clone(),
            after_start: self.before_start,
            after: self.before.clone(),
        }
    }
}

pub fn hunks(p: &TextPatch, reverse: bool) -> Vec<Hunk> {
    p.0.iter()
        .map(|c| {
            let h = Hunk::of(c);
            if reverse {
                h.flipped()
            } else {
                h
            }
        })
        .collect()
}

pub fn diff_json(before_path: &str, after_path: &str, clumps: serde_json::Value) -> serde_json::Value {
    serde_json::json!({"before_path": before_path, "after_path": after_path, "clumps": clumps})
}

/// A text patch with hand-made hunks.
pub fn text_diff_of(hs: &[Hunk]) -> Result<TextChangeDiff, String> {
    let clumps: Vec<_> = hs
        .iter()
        .map(|h| {
            serde_json::json!({
                "context_lengths": [h.ctx.0, h.ctx.1],
                "before": {"start": h.before_start, "items": h.before},
                "after": {"start": h.after_start, "items": h.after},
            })
        })
        .collect();
    let v = diff_json("b", "a", serde_json::Value::Array(clumps));
    TextChangeDiff::from_reader(&mut v.to_string().as_bytes()).map_err(|e| e.to_string())
}

pub fn byte_diff_of(hs: &[(usize, Vec<u8>, usize, Vec<u8>)]) -> Result<ByteChangeDiff, String> {
    let clumps: Vec<_> = hs
        .iter()
        .map(|h| {
            serde_json::json!({
                "context_lengths": [0, 0],
                "before": {"start": h.0, "items": h.1},
                "after": {"start": h.2, "items": h.3},
            })
        })
        .collect();
    let v = serde_json::json!({"before_path": "b", "after_path": "a", "compressed": false, "clumps": clumps});
    ByteChangeDiff::from_reader(&mut v.to_string().as_bytes()).map_err(|e| e.to_string())
}

pub fn diff_pos(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("lengths {} and {}, first difference at byte {k}", a.len(), b.len())
}

pub fn show_bytes(b: &[u8]) -> String {
    crate::run::clip(&format!("{:?}", String::from_utf8_lossy(b)), 4000)
}

pub fn same_text(what: &str, got: &[u8], want: &[String]) -> Result<(), String> {
    let w = join(want).into_bytes();
    if got == w.as_slice() {
        Ok(())
    } else {
        Err(format!("{what}: wrong output ({})\ngot={}\nwant={}", diff_pos(got, &w), show_bytes(got), show_bytes(&w)))
    }
}
