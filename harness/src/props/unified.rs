//! C17-C20: unified diffs.

use std::process::{Command, Stdio};

use pw_cub_diff_lib::text_diff::{DiffParseError, StartAndLength};
use pw_cub_diff_lib::unified_diff::*;
use pw_diff_lib::apply_text::{ApplyClumpFuzzy, ApplyClumpsFuzzy, TextClumpBasics};
use pw_diff_lib::changes::{Change, ChangeBasics, Changes};
use pw_diff_lib::range::{Len, Range};
use pw_diff_lib::sequence::Seq;

use super::lib_core::ctx_of;
use crate::fx::Scratch;
use crate::gen::*;
use crate::rng::Rng;
use crate::run::{clip, guard, Ctx, Fault, Outcome, Verdict};
use crate::util::*;

/// A line of a hunk: its marker and its text, with a final newline or without.
#[derive(Debug, Clone, PartialEq)]
pub struct Op(char, String);

/// What a hunk says, as the reference reads or writes it.
#[derive(Debug, Clone, PartialEq)]
pub struct UHunk {
    before: (usize, usize),
    after: (usize, usize),
    ops: Vec<Op>,
}

impl UHunk {
    fn side(&self, other: char) -> Lines {
        self.ops.iter().filter(|o| o.0 != other).map(|o| o.1.clone()).collect()
    }
    pub fn starts_at_zero(&self) -> bool {
        [self.before, self.after].iter().any(|s| s.0 == 0 && s.1 > 0)
    }
    /// Where its sides start in the files, from 0.
    pub fn indices(&self) -> (usize, usize) {
        (index(self.before), index(self.after))
    }
    pub fn old(&self) -> Lines {
        self.side('+')
    }
    pub fn new(&self) -> Lines {
        self.side('-')
    }
    fn context(&self) -> (usize, usize) {
        let lead = self.ops.iter().take_while(|o| o.0 == ' ').count();
        let trail = if lead == self.ops.len() { 0 } else { self.ops.iter().rev().take_while(|o| o.0 == ' ').count() };
        (lead, trail)
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Style {
    explicit_one: bool,
    section: usize,
    marker: usize,
}

const MARKERS: &[&str] = &["\\ No newline at end of file\n", "\\ No newline at end of file\n", "\\ Kein Zeilenumbruch am Dateiende.\n", "\\\n", "\\ \n"];
const SECTIONS: &[&str] = &["", "", " fn main() {", " @@ -1 +1 @@", " \u{e9}t\u{e9}"];

pub fn any_style(rng: &mut Rng) -> Style {
    Style { explicit_one: rng.chance(1, 3), section: rng.below(SECTIONS.len()), marker: rng.below(MARKERS.len()) }
}

fn header(h: &UHunk, s: Style) -> String {
    let side = |(start, len): (usize, usize)| if len == 1 && !s.explicit_one { format!("{start}") } else { format!("{start},{len}") };
    format!("@@ -{} +{} @@{}\n", side(h.before), side(h.after), SECTIONS[s.section])
}

/// The hunk as lines of a diff.
pub fn written(h: &UHunk, s: Style) -> Lines {
    let mut out = vec![header(h, s)];
    for Op(m, t) in &h.ops {
        if t.ends_with('\n') {
            out.push(format!("{m}{t}"));
        } else {
            out.push(format!("{m}{t}\n"));
            out.push(MARKERS[s.marker].to_string());
        }
    }
    out
}

fn number(s: &str) -> Option<(usize, &str)> {
    let n = s.bytes().take_while(|b| b.is_ascii_digit()).count();
    Some((s[..n].parse().ok()?, &s[n..]))
}

/// A header exactly as standard tools write it.
fn strict_header(line: &str) -> Option<((usize, usize), (usize, usize))> {
    fn side(s: &str) -> Option<((usize, usize), &str)> {
        let (start, s) = number(s)?;
        match s.strip_prefix(',') {
            Some(s) => {
                let (len, s) = number(s)?;
                Some(((start, len), s))
            }
            None => Some(((start, 1), s)),
        }
    }
    let (b, s) = side(line.strip_prefix("@@ -")?)?;
    let (a, s) = side(s.strip_prefix(" +")?)?;
    let s = s.strip_prefix(" @@")?;
    (s.is_empty() || s.starts_with('\n') || s.starts_with(' ')).then_some((b, a))
}

/// The ordinary reading of a hunk at `at`: the hunk, and where the next line is.
fn read_hunk(lines: &[String], at: usize) -> Result<(UHunk, usize), String> {
    let (before, after) = strict_header(&lines[at]).ok_or_else(|| format!("{:?} is no standard hunk header", lines[at]))?;
    let (mut b, mut a) = (0, 0);
    let mut ops: Vec<Op> = vec![];
    let mut i = at + 1;
    let mut marked = true;
    loop {
        let marker = lines.get(i).is_some_and(|l| l.starts_with('\\'));
        if b == before.1 && a == after.1 && !(marker && !marked) {
            break;
        }
        let Some(line) = lines.get(i) else {
            return Err("the hunk is cut short".into());
        };
        if marker {
            if marked {
                return Err(format!("line {i}: a marker after no line"));
            }
            let last = ops.last_mut().unwrap();
            if last.1.ends_with('\n') {
                last.1.pop();
            }
            marked = true;
        } else {
            let m = line.chars().next().unwrap_or('\n');
            if !" +-".contains(m) {
                return Err(format!("line {i} cannot belong to a hunk: {line:?}"));
            }
            b += (m != '+') as usize;
            a += (m != '-') as usize;
            if b > before.1 || a > after.1 {
                return Err(format!("line {i}: more lines than the header says"));
            }
            ops.push(Op(m, line[1..].to_string()));
            marked = false;
        }
        i += 1;
    }
    Ok((UHunk { before, after, ops }, i))
}

/// Index of the first line, from a standard start and length.
pub fn index(side: (usize, usize)) -> usize {
    if side.1 == 0 {
        side.0
    } else {
        side.0.saturating_sub(1)
    }
}

/// The parsed hunk, as this library applies hunks.
struct Parsed(UnifiedDiffClump);
impl ChangeBasics for Parsed {
    fn before_start(&self, reverse: bool) -> usize {
        self.0.before_start(reverse)
    }
    fn before_end(&self, reverse: bool) -> usize {
        self.0.before_end(reverse)
    }
    fn before_length(&self, reverse: bool) -> usize {
        self.0.before_length(reverse)
    }
}
impl TextClumpBasics for Parsed {
    fn context_lengths(&self) -> (u8, u8) {
        TextClumpBasics::context_lengths(&self.0)
    }
    fn before_lines(&self, range: Option<Range>, reverse: bool) -> impl Iterator<Item = &String> {
        TextClumpBasics::before_lines(&self.0, range, reverse)
    }
}
impl ApplyClumpFuzzy for Parsed {}
struct ParsedPatch(Vec<Parsed>);
impl ApplyClumpsFuzzy<Parsed> for ParsedPatch {
    fn clumps<'s>(&'s self) -> impl Iterator<Item = &'s Parsed>
    where
        Parsed: 's,
    {
        self.0.iter()
    }
}

fn matches(c: &UnifiedDiffClump, h: &UHunk, consumed: Option<usize>, o: &mut Outcome) -> Result<(), Fault> {
    let sl = &c.starts_and_lengths;
    let got = ((sl.before.start, sl.before.length), (sl.after.start, sl.after.length));
    if got != (h.before, h.after) {
        return Err(format!("positions {got:?}, the header says {:?}", (h.before, h.after)).into());
    }
    let (old, new) = (h.old(), h.new());
    if c.before_lines.to_vec() != old {
        return Err(format!("old lines {}, the hunk shows {}", clip(&format!("{:?}", c.before_lines), 2000), clip(&format!("{old:?}"), 2000)).into());
    }
    if c.after_lines.to_vec() != new {
        return Err(format!("new lines {}, the hunk shows {}", clip(&format!("{:?}", c.after_lines), 2000), clip(&format!("{new:?}"), 2000)).into());
    }
    let (l, t) = h.context();
    let want = (l.min(255) as u8, t.min(255) as u8);
    if c.context_lengths != want || TextClumpBasics::context_lengths(c) != want {
        return Err(format!("context lengths {:?}, the hunk has {want:?}", c.context_lengths).into());
    }
    if let Some(n) = consumed {
        if c.lines_consumed != n {
            return Err(format!("{} lines consumed, the hunk has {n}", c.lines_consumed).into());
        }
    }
    // the same through the traits hunks are applied with
    for reverse in [false, true] {
        let (pos, lines, other) = if reverse { (h.after, &new, &old) } else { (h.before, &old, &new) };
        let start = guard("before_start", || c.before_start(reverse))?;
        let end = guard("before_end", || c.before_end(reverse))?;
        let len = guard("before_length", || c.before_length(reverse))?;
        if (start, len, end) != (index(pos), pos.1, index(pos) + pos.1) {
            return Err(format!("reverse={reverse}: index {start}, length {len}, end {end} for position {pos:?}").into());
        }
        let got: Vec<&String> = guard("before_lines", || c.before_lines(None, reverse).collect())?;
        if got != lines.iter().collect::<Vec<_>>() {
            return Err(format!("reverse={reverse}: before_lines gives {got:?}").into());
        }
        let got: Vec<&String> = guard("after_lines", || c.after_lines(None, reverse).collect())?;
        if got != other.iter().collect::<Vec<_>>() {
            return Err(format!("reverse={reverse}: after_lines gives {got:?}").into());
        }
        if lines.len() >= 2 {
            let got: Vec<&String> = guard("before_lines", || c.before_lines(Some(Range(1, lines.len() - 1)), reverse).collect())?;
            if got != lines[1..lines.len() - 1].iter().collect::<Vec<_>>() {
                return Err(format!("reverse={reverse}: before_lines of a range gives {got:?}").into());
            }
        }
    }
    o.count("hunks parsed as they are", 1);
    Ok(())
}

/// Text of a line of a hunk.
fn any_line_text(rng: &mut Rng) -> String {
    let mut u = rng.below(1000);
    let a = if rng.chance(1, 3) { Alphabet::Nasty } else { any_alphabet(rng) };
    let l = a_line(rng, a, &mut u);
    if rng.chance(1, 12) {
        l.replace('\n', " \t \n")
    } else {
        l
    }
}

pub fn any_hunk(rng: &mut Rng) -> UHunk {
    let mut ops = vec![];
    let long = rng.chance(1, 40);
    let n = |rng: &mut Rng, top: usize| if long { rng.below(300) } else { rng.below(top) };
    let lead = n(rng, 5);
    for _ in 0..lead {
        ops.push(Op(' ', any_line_text(rng)));
    }
    let blocks = rng.range(1, 3);
    for i in 0..blocks {
        let (d, a) = match rng.below(3) {
            0 => (1 + n(rng, 4), 0),
            1 => (0, 1 + n(rng, 4)),
            _ => (1 + n(rng, 4), 1 + n(rng, 4)),
        };
        let mut block: Vec<Op> = (0..d).map(|_| Op('-', any_line_text(rng))).chain((0..a).map(|_| Op('+', "".into()))).collect();
        for o in block.iter_mut().filter(|o| o.0 == '+') {
            o.1 = any_line_text(rng);
        }
        match rng.below(5) {
            0 => block.reverse(),
            1 => {
                for i in (1..block.len()).rev() {
                    let j = rng.below(i + 1);
                    block.swap(i, j);
                }
            }
            _ => (),
        }
        ops.extend(block);
        if i + 1 < blocks {
            for _ in 0..1 + n(rng, 4) {
                ops.push(Op(' ', any_line_text(rng)));
            }
        }
    }
    for _ in 0..n(rng, 5) {
        ops.push(Op(' ', any_line_text(rng)));
    }
    // at the end of a file that has no final newline
    if rng.chance(1, 3) {
        let chop = |ops: &mut Vec<Op>, other: char| {
            if let Some(o) = ops.iter_mut().rev().find(|o| o.0 != other) {
                if o.0 == ' ' {
                    return;
                }
                if o.1.len() > 1 && o.1.ends_with('\n') {
                    o.1.pop();
                }
            }
        };
        if ops.last().is_some_and(|o| o.0 == ' ') {
            let o = ops.last_mut().unwrap();
            if o.1.len() > 1 {
                o.1.pop();
            }
        } else {
            let which = rng.below(3);
            if which != 1 {
                chop(&mut ops, '+');
            }
            if which != 0 {
                chop(&mut ops, '-');
            }
        }
    }
    let mut h = UHunk { before: (0, 0), after: (0, 0), ops };
    let start = |rng: &mut Rng, len: usize| {
        let s = match rng.below(5) {
            0 => 0,
            1 => rng.below(20),
            2 => rng.below(70000),
            3 => *rng.pick(&[254usize, 255, 256, 65535, 65536, u32::MAX as usize, u32::MAX as usize + 1, 1 << 40]),
            _ => rng.below(400),
        };
        if len == 0 {
            s
        } else {
            s + 1
        }
    };
    let (b, a) = (h.old().len(), h.new().len());
    h.before = (start(rng, b), b);
    h.after = (start(rng, a), a);
    h
}

/// A hunk with as many lines as no narrow number counts.
fn huge_hunk(rng: &mut Rng) -> UHunk {
    let n = |rng: &mut Rng| match rng.below(4) {
        0 => 0,
        1 => rng.below(5),
        2 => *rng.pick(&[65_533usize, 65_534, 65_535, 65_536, 65_537, 65_538]),
        _ => rng.range(30_000, 90_000),
    };
    let mut ops = vec![];
    let say = |ops: &mut Vec<Op>, m: char, n: usize| {
        for k in 0..n {
            ops.push(Op(m, format!("{m}{k}\n")));
        }
    };
    say(&mut ops, ' ', *rng.pick(&[0usize, 0, 3, 300]));
    let (d, a) = (n(rng), n(rng));
    say(&mut ops, '-', d);
    say(&mut ops, '+', a);
    if rng.chance(1, 3) {
        let m = n(rng);
        say(&mut ops, ' ', m);
        say(&mut ops, '-', 1);
    }
    if d + a == 0 {
        say(&mut ops, '+', 70_000);
    }
    say(&mut ops, ' ', *rng.pick(&[0usize, 0, 3, 300]));
    if rng.chance(1, 2) {
        ops.last_mut().unwrap().1.pop();
    }
    let mut h = UHunk { before: (0, 0), after: (0, 0), ops };
    let (b, a) = (h.old().len(), h.new().len());
    h.before = (rng.below(1000) + 1, b);
    h.after = (rng.below(100_000) + 1, a);
    h
}

fn c17_huge(rng: &mut Rng) -> Verdict {
    let hs = [huge_hunk(rng), any_hunk(rng), huge_hunk(rng)];
    c17_check(rng, &hs)
}

fn c17_many(rng: &mut Rng) -> Verdict {
    let n = rng.range(300, 2000);
    let hs: Vec<UHunk> = (0..n).map(|_| any_hunk(rng)).collect();
    c17_check(rng, &hs)
}

fn c17_hunks(rng: &mut Rng) -> Verdict {
    let k = rng.range(1, 3);
    let hs: Vec<UHunk> = (0..k).map(|_| any_hunk(rng)).collect();
    c17_check(rng, &hs)
}

fn c17_check(rng: &mut Rng, hs: &[UHunk]) -> Verdict {
    let k = hs.len();
    let mut lines: Lines = vec![];
    let mut want = vec![];
    for _ in 0..rng.below(4) {
        lines.push(rng.pick(&["diff -u a b\n", "--- a\n", "+++ b\n", "\n", "@@\n", "index 123..456\n", "-x\n"]).to_string());
    }
    for (i, h) in hs.iter().enumerate() {
        let s = any_style(rng);
        let w = written(h, s);
        want.push((lines.len(), h, w.len()));
        lines.extend(w);
        if i + 1 == k && rng.chance(1, 4) {
            // what follows is no part of it
            lines.push(rng.pick(&["-- \n", " more\n", "+more\n", "-more\n", "\n", "diff\n"]).to_string());
        }
    }
    let text = join(&lines);
    let mut o = Outcome::new(text.as_bytes(), true);
    let all = seq(&lines);
    let mut at = want[0].0;
    for (i, (start, h, n)) in want.iter().enumerate() {
        if at != *start {
            return Err(Fault::Harness("positions".into()));
        }
        let f = |x: Fault| ctx_of(x, &format!("hunk {} of {k}, at line {at}\n{}", i + 1, clip(&text, 6000)));
        match guard("get_from_at", || UnifiedDiffClump::get_from_at(&all, at)).map_err(f)? {
            Ok(Some(c)) => matches(&c, h, Some(*n), &mut o).map_err(f)?,
            Ok(None) => return Err(f("no hunk is found at a hunk header".into())),
            Err(e) => return Err(f(format!("a well-formed hunk is rejected: {e:?}").into())),
        }
        o.count("hunks with a 'no newline' marker", h.ops.iter().any(|o| !o.1.ends_with('\n')) as u64);
        o.count("hunks with a 'no newline' marker before the last line", h.ops.iter().rev().skip(1).any(|o| !o.1.ends_with('\n')) as u64);
        o.count("hunks with more than 255 context lines", (h.context().0.max(h.context().1) > 255) as u64);
        at += n;
    }
    o.sample = Some(clip(&text, 400));
    Ok(o)
}

/// A whole diff as this reference writes it: context `ctx`, from the library-independent alignment of the two files.
fn reference_diff(before: &[String], after: &[String], ctx: usize) -> Vec<UHunk> {
    // alignment by longest common subsequence of the middle (files are small)
    let (n, m) = (before.len(), after.len());
    let mut t = vec![vec![0u32; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if before[i] == after[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let mut ops: Vec<(char, usize, usize)> = vec![];
    while i < n || j < m {
        if i < n && j < m && before[i] == after[j] {
            ops.push((' ', i, j));
            i += 1;
            j += 1;
        } else if i < n && (j == m || t[i + 1][j] >= t[i][j + 1]) {
            ops.push(('-', i, j));
            i += 1;
        } else {
            ops.push(('+', i, j));
            j += 1;
        }
    }
    let changed: Vec<usize> = ops.iter().enumerate().filter(|(_, o)| o.0 != ' ').map(|(k, _)| k).collect();
    let mut out = vec![];
    let mut k = 0;
    while k < changed.len() {
        let first = changed[k];
        let mut last = first;
        while k + 1 < changed.len() && changed[k + 1] - last <= 2 * ctx + 1 {
            k += 1;
            last = changed[k];
        }
        k += 1;
        let s = first.saturating_sub(ctx);
        let e = (last + ctx + 1).min(ops.len());
        let part = &ops[s..e];
        let h = UHunk {
            before: (0, 0),
            after: (0, 0),
            ops: part.iter().map(|(c, i, j)| Op(*c, if *c == '+' { after[*j].clone() } else { before[*i].clone() })).collect(),
        };
        let (b, a) = (h.old().len(), h.new().len());
        let (bi, ai) = (part[0].1, part[0].2);
        out.push(UHunk { before: (if b == 0 { bi } else { bi + 1 }, b), after: (if a == 0 { ai } else { ai + 1 }, a), ..h });
    }
    out
}

fn parse_all(all: &Seq<String>, from: usize, to: usize, head: &dyn Fn() -> String) -> Result<Vec<UnifiedDiffClump>, Fault> {
    let mut at = from;
    let mut out = vec![];
    while at < to {
        let f = |x: Fault| ctx_of(x, &format!("at line {at}\n{}", head()));
        match guard("get_from_at", || UnifiedDiffClump::get_from_at(all, at)).map_err(f)? {
            Ok(Some(c)) => {
                if c.lines_consumed == 0 {
                    return Err(f("no lines consumed".into()));
                }
                at += c.lines_consumed;
                out.push(c);
            }
            Ok(None) => return Err(f(format!("no hunk is found where the next one starts: {:?}", all.0[at]).into())),
            Err(e) => return Err(f(format!("a well-formed hunk is rejected: {e:?}").into())),
        }
    }
    if at != to {
        return Err(Fault::Bad(format!("{at} lines consumed, the diff has {to}\n{}", head())));
    }
    Ok(out)
}

fn apply_parsed(hunks: Vec<UnifiedDiffClump>, before: &Lines, after: &Lines, head: &dyn Fn() -> String, o: &mut Outcome) -> Result<(), Fault> {
    let n = hunks.len();
    let patch = ParsedPatch(hunks.into_iter().map(Parsed).collect());
    for (reverse, from, to) in [(false, before, after), (true, after, before)] {
        let mut out = vec![];
        let stats: Tally = guard("applying", || patch.apply_into(&seq(from), &mut out, reverse)).map_err(|f| ctx_of(f, &head()))?.map_err(|e| Fault::Bad(format!("applying failed: {e}")))?.into();
        same_text(&format!("applying the parsed diff (reverse={reverse})"), &out, to).map_err(|e| Fault::Bad(format!("{e}\n{stats:?}\n{}", head())))?;
        if stats != (Tally { clean: n, ..Default::default() }) {
            return Err(format!("applying the parsed diff (reverse={reverse}): {stats:?}\n{}", head()).into());
        }
    }
    o.count("parsed diffs applied both ways", 1);
    Ok(())
}

fn c17_diffs(rng: &mut Rng) -> Verdict {
    let p = loop {
        let n = rng.below(60);
        let a = any_alphabet(rng);
        let p = text_pair_of(rng, a, n);
        if p.before != p.after && p.before.len() < 150 && p.after.len() < 150 {
            break p;
        }
    };
    let ctx = *rng.pick(&[0usize, 1, 2, 3, 3, 5, 20]);
    let hs = reference_diff(&p.before, &p.after, ctx);
    let s = any_style(rng);
    let lines: Lines = hs.iter().flat_map(|h| written(h, s)).collect();
    let text = join(&lines);
    let head = || format!("{}\ndiff=\n{}", clip(&p.show(), 3000), clip(&text, 5000));
    let mut o = Outcome::new(text.as_bytes(), true);
    let parsed = parse_all(&seq(&lines), 0, lines.len(), &head)?;
    if parsed.len() != hs.len() {
        return Err(format!("{} hunks are read as {}\n{}", hs.len(), parsed.len(), head()).into());
    }
    for (c, h) in parsed.iter().zip(&hs) {
        matches(c, h, None, &mut o).map_err(|f| ctx_of(f, &head()))?;
    }
    apply_parsed(parsed, &p.before, &p.after, &head, &mut o)?;
    o.sample = Some(clip(&text, 300));
    Ok(o)
}

/// Diffs by the system's own diff.
fn c17_gnu(rng: &mut Rng, headers: bool) -> Verdict {
    let n = rng.below(60);
    let a = any_alphabet(rng);
    let p = text_pair_of(rng, a, n);
    if p.before == p.after || join(&p.before).contains('\0') || join(&p.after).contains('\0') {
        return Ok(Outcome::default());
    }
    let dir = Scratch::new()?;
    let b = dir.put("before", join(&p.before).as_bytes())?;
    let aft = dir.put("after", join(&p.after).as_bytes())?;
    let mut cmd = Command::new("diff");
    cmd.arg("-a").arg(format!("-U{}", rng.pick(&[0usize, 1, 2, 3, 7, 300])));
    if rng.chance(1, 3) {
        cmd.arg("-p");
    }
    let out = cmd.arg(&b).arg(&aft).stdin(Stdio::null()).output().map_err(|e| Fault::Harness(format!("diff: {e}")))?;
    if out.status.code() != Some(1) {
        return Err(Fault::Harness(format!("diff: {:?}", out.status)));
    }
    // diff cuts the text it repeats after @@ anywhere, even within a character
    let Ok(text) = String::from_utf8(out.stdout) else {
        return Ok(Outcome::default());
    };
    let lines = split_lines(&text);
    let head = || format!("{}\ndiff=\n{}", clip(&p.show(), 3000), clip(&text, 5000));
    let mut o = Outcome::new(text.as_bytes(), true);
    if headers {
    for (line, path, got) in [(&lines[0], &b, guard("before_path_and_time_stamp", || before_path_and_time_stamp(&lines[0]))?), (&lines[1], &aft, guard("after_path_and_time_stamp", || after_path_and_time_stamp(&lines[1]))?)] {
        let Some(got) = got else {
            return Err(format!("{line:?} is not read as a file header").into());
        };
        let ts = line.trim_end_matches('\n').rsplit('\t').next().unwrap_or("");
        if got.file_path != path.to_string_lossy() || got.time_stamp.as_deref() != Some(ts) {
            return Err(format!("{line:?} is read as {got:?}").into());
        }
        o.count("file headers by diff read", 1);
    }
        return Ok(o);
    }
    let parsed = parse_all(&seq(&lines), 2, lines.len(), &head)?;
    let mut at = 2;
    for c in &parsed {
        let (h, next) = read_hunk(&lines, at).map_err(|e| Fault::Harness(format!("reference reader: {e}\n{}", head())))?;
        matches(c, &h, Some(next - at), &mut o).map_err(|f| ctx_of(f, &head()))?;
        at = next;
    }
    apply_parsed(parsed, &p.before, &p.after, &head, &mut o)?;
    o.count("diffs by the system's diff", 1);
    Ok(o)
}

pub fn c17(c: &mut Ctx) {
    c.rule = "well-formed hunks made line by line (every order of markers, odd line texts, standard header variants, 'no newline' markers anywhere they may be, large numbers, hundreds of context lines), whole diffs by an independent writer and by the system's diff: parsed, compared in every field, consecutive hunks, applied both ways; non-trivial: all; distinct by text".into();
    let c = &*c;
    c.stage("hunks", c.tier(400_000, 3_000_000), c.tier(16, 300), |rng, _| c17_hunks(rng));
    c.stage("huge", c.tier(24, 300), c.tier(20, 200), |rng, _| c17_huge(rng));
    c.stage("many", c.tier(24, 300), c.tier(20, 200), |rng, _| c17_many(rng));
    c.stage("diffs", c.tier(120_000, 600_000), c.tier(16, 300), |rng, _| c17_diffs(rng));
    if Command::new("diff").arg("--version").stdout(Stdio::null()).stderr(Stdio::null()).status().is_ok() {
        c.stage("system-diff", c.tier(6_000, 100_000), c.tier(14, 300), |rng, _| c17_gnu(rng, false));
    }
}

// ---------------------------------------------------------------- C18

/// Whatever is returned for this text at this line, it is consistent, and right where there is no doubt.
fn c18_judge(lines: &[String], all: &Seq<String>, at: usize, o: &mut Outcome) -> Result<(), Fault> {
    let head = || format!("at line {at} of\n{}", clip(&join(lines), 5000));
    let f = |x: Fault| ctx_of(x, &head());
    let got = guard("get_from_at", || UnifiedDiffClump::get_from_at(all, at)).map_err(f)?;
    let line = &lines[at];
    match &got {
        Ok(Some(c)) => {
            let sl = &c.starts_and_lengths;
            if c.before_lines.len() != sl.before.length || c.after_lines.len() != sl.after.length {
                return Err(f(format!("a hunk with {} old and {} new lines is returned, its header says {} and {}", c.before_lines.len(), c.after_lines.len(), sl.before.length, sl.after.length).into()));
            }
            if c.lines_consumed == 0 || at + c.lines_consumed > lines.len() {
                return Err(f(format!("{} lines consumed", c.lines_consumed).into()));
            }
        }
        Ok(None) => o.count("lines that give no hunk", 1),
        Err(DiffParseError::ParseNumberError(_, n)) => {
            if *n != at {
                return Err(f(format!("a number on line {at} is said to be on line {n}").into()));
            }
            o.count("numbers reported, with their line", 1);
        }
        Err(_) => o.count("errors reported", 1),
    }
    // `@@@ -`, `@ -`, and anything else not starting `@@ ` is no hunk header
    let headerlike = line.starts_with("@@") && line[2..].starts_with(|c: char| c.is_whitespace());
    if !headerlike {
        if !matches!(got, Ok(None)) {
            return Err(f(format!("{line:?} is no hunk header, but gives {}", if got.is_ok() { "a hunk" } else { "an error" }).into()));
        }
        return Ok(());
    }
    if strict_header(line).is_none() {
        return Ok(());
    }
    match (read_hunk(lines, at), &got) {
        (Ok((h, next)), Ok(Some(c))) => {
            // an empty hunk, or a line without newline before another of its side, has no ordinary reading
            let clean = |l: &[String]| l.iter().rev().skip(1).all(|x| x.ends_with('\n'));
            if !h.ops.is_empty() && clean(&h.old()) && clean(&h.new()) && h.before.0 > 0 | usize::from(h.before.1 == 0) && h.after.0 > 0 | usize::from(h.after.1 == 0) && h.before.0 < usize::MAX / 2 && h.after.0 < usize::MAX / 2 {
                matches(c, &h, Some(next - at), o).map_err(f)?;
            }
        }
        (Ok((h, _)), other) => {
            if !h.ops.is_empty() {
                return Err(f(format!("a well-formed hunk gives {:?}", other.as_ref().map(|_| "no hunk").map_err(|e| format!("{e:?}"))).into()));
            }
        }
        (Err(e), Ok(x)) => {
            // (a missing last newline marker is not an error of the hunk: read_hunk only fails for the hunk itself)
            return Err(f(format!("{e}, but {} is returned", if x.is_some() { "a hunk" } else { "no hunk instead of an error" }).into()));
        }
        (Err(e), Err(got)) => {
            // the line at fault
            let i: Option<usize> = e.strip_prefix("line ").and_then(|r| r.split(|c: char| !c.is_ascii_digit()).next()).and_then(|n| n.parse().ok());
            let right = match (got, i) {
                (DiffParseError::UnexpectedEndOfInput, None) => true,
                (_, None) => false,
                (got, Some(i)) if e.contains("more lines") => match got {
                    // it may read on, in the hope of reaching the other side's length
                    DiffParseError::SyntaxError(n) | DiffParseError::UnexpectedEndClump(n) => (i..lines.len()).contains(n),
                    DiffParseError::UnexpectedEndOfInput => true,
                    _ => false,
                },
                (DiffParseError::UnexpectedEndClump(n), Some(i)) => *n == i,
                _ => false,
            };
            if !right {
                return Err(f(format!("{e}, but the error is {got:?}").into()));
            }
            o.count("malformed hunks rejected, with the line at fault", 1);
        }
    }
    Ok(())
}

fn c18_case(rng: &mut Rng) -> Verdict {
    let s = any_style(rng);
    let mut h = any_hunk(rng);
    if rng.chance(1, 3) {
        // the lengths announced are not those shown
        let side = if rng.chance(1, 2) { &mut h.before } else { &mut h.after };
        side.1 = match rng.below(5) {
            0 => 0,
            1 => side.1 + 1,
            2 => side.1.saturating_sub(1),
            3 => *rng.pick(&[usize::MAX, usize::MAX / 2, 1 << 32, 1000]),
            _ => side.1 + rng.below(5),
        };
    }
    let mut lines = written(&h, s);
    if rng.chance(1, 2) {
        let g = any_hunk(rng);
        lines.extend(written(&g, any_style(rng)));
    }
    for _ in 0..rng.range(0, 2) {
        let at = if rng.chance(1, 2) { rng.below(lines.len()) } else { rng.below(lines.len().min(4)) };
        match rng.below(10) {
            0 => {
                lines.truncate(at + 1);
            }
            1 => {
                lines.remove(at);
            }
            2 => {
                let l = lines[at].clone();
                lines.insert(at, l);
            }
            3 | 4 => {
                let l = rng.pick(&["\n", "", "x\n", "@@ -1 +1 @@\n", "--- a\n", "+++ b\n", "diff\n", "\t\n", "\\\n", "\\ No newline at end of file\n", "é\n", "\u{2028}", "_", "~\n", "\0\n", "=\n", "\r\n", "*\n", "!\n"]).to_string();
                lines.insert(at + 1, l);
            }
            5 => {
                // another marker
                let l = &lines[at];
                if !l.is_empty() && l.is_char_boundary(1) {
                    lines[at] = format!("{}{}", rng.pick(&["+", "-", " ", "\\", "x", ""]), &l[1..]);
                }
            }
            6 => {
                // cut within a line
                let l = &lines[at];
                let mut n = rng.below(l.len() + 1);
                while !l.is_char_boundary(n) {
                    n -= 1;
                }
                lines[at].truncate(n);
            }
            7 => {
                // numbers
                let big = ["18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "", "0", "00", "1.5", "0x1", "٣", "4294967296"];
                let (a, b, c, d) = (*rng.pick(&big), *rng.pick(&big), *rng.pick(&big), *rng.pick(&big));
                lines[0] = match rng.below(4) {
                    0 => format!("@@ -{a} +{b} @@\n"),
                    1 => format!("@@ -{a},{b} +{c},{d} @@\n"),
                    2 => format!("@@ -1,{b} +1 @@\n"),
                    _ => format!("@@ -1,2 +{c},1 @@\n"),
                };
            }
            8 => {
                let n = rng.below(lines.len());
                lines.swap(at, n);
            }
            _ => {
                let h = ["@@\n", "@@ @@\n", "@@ -1 @@\n", "@@ +1 @@\n", "@@ +1 -1 @@\n", "@@ -1 +1\n", "@@ -1 +1 @\n", "@@@ -1 -1 +1 @@@\n", "@@-1 +1@@\n", " @@ -1 +1 @@\n", "@@ -1,+1 @@\n", "@@ -a +b @@\n", "@@ -1 +1 @@", "@@ -1,1,1 +1 @@\n", "@@ 1 1 @@\n"];
                lines[0] = rng.pick(&h).to_string();
            }
        }
        if lines.is_empty() {
            break;
        }
    }
    let text = join(&lines);
    let mut o = Outcome::new(text.as_bytes(), true);
    let all = seq(&lines);
    for at in 0..lines.len() {
        c18_judge(&lines, &all, at, &mut o)?;
        o.count("positions parsed", 1);
    }
    // numbers that do not fit
    if rng.chance(1, 4) {
        let huge = *rng.pick(&["18446744073709551616", "99999999999999999999999999"]);
        let hdr = match rng.below(4) {
            0 => format!("@@ -{huge} +1 @@\n"),
            1 => format!("@@ -1,{huge} +1 @@\n"),
            2 => format!("@@ -1 +{huge} @@\n"),
            _ => format!("@@ -1 +1,{huge} @@\n"),
        };
        let l = vec![hdr.clone(), "-a\n".to_string(), "+b\n".to_string()];
        if guard("get_from_at", || UnifiedDiffClump::get_from_at(&seq(&l), 0))?.is_ok() {
            return Err(format!("{hdr:?}: a number out of range is not reported").into());
        }
        if guard("starts_and_lengths", || starts_and_lengths(&hdr, 0))?.is_ok() {
            return Err(format!("{hdr:?}: a number out of range is not reported").into());
        }
        o.count("numbers out of range", 1);
    }
    o.sample = Some(clip(&text, 300));
    Ok(o)
}

/// Huge hunks, whole or spoilt.
fn c18_huge(rng: &mut Rng, i: usize) -> Verdict {
    let mut h = huge_hunk(rng);
    match i % 4 {
        0 => (),
        1 => h.before.1 += *rng.pick(&[1usize, 256, 65_536, 1 << 32]),
        2 => h.after.1 += *rng.pick(&[1usize, 256, 65_536, 1 << 32]),
        _ => {
            let side = if rng.chance(1, 2) { &mut h.before } else { &mut h.after };
            side.1 = side.1.saturating_sub(*rng.pick(&[1usize, 256, 65_536]));
        }
    }
    let mut lines = written(&h, any_style(rng));
    match rng.below(5) {
        0 => {
            let n = *rng.pick(&[1usize, 2, 255, 256]);
            lines.truncate(lines.len().saturating_sub(n).max(1));
        }
        1 => {
            let at = rng.range(1, lines.len() - 1);
            lines[at] = rng.pick(&["x\n", "@@ -1 +1 @@\n", "\n", "", "_\n"]).to_string();
        }
        _ => (),
    }
    let mut o = Outcome::new(join(&lines).as_bytes(), true);
    c18_judge(&lines, &seq(&lines), 0, &mut o)?;
    Ok(o)
}

/// Every short text over the lines that matter.
fn c18_words(i: usize, len: usize) -> Verdict {
    const WORDS: [&str; 8] = ["@@ -1 +1 @@\n", "@@ -1,2 +1 @@\n", "@@ -0,0 +1,2 @@\n", "-a\n", "+b\n", " c\n", "\\ No newline at end of file\n", "x\n"];
    let mut k = i;
    let lines: Lines = (0..len)
        .map(|_| {
            let w = WORDS[k % 8];
            k /= 8;
            w.to_string()
        })
        .collect();
    let mut o = Outcome::new(join(&lines).as_bytes(), true);
    let all = seq(&lines);
    for at in 0..lines.len() {
        c18_judge(&lines, &all, at, &mut o)?;
    }
    Ok(o)
}

fn c18_garbage(rng: &mut Rng) -> Verdict {
    let n = rng.below(40);
    let text = super::lib_io::wild_text(rng, n);
    let mut lines = split_lines(&text);
    for l in lines.iter_mut() {
        if rng.chance(1, 2) {
            *l = format!("{}{l}", rng.pick(&["@@ -1,3 +1,3 @@", "@@ -1 +1 @@ ", "@@ -", "-", "+", " ", "\\", "@@", "--- ", "+++ "]));
        }
    }
    let mut o = Outcome::new(join(&lines).as_bytes(), !lines.is_empty());
    let all = seq(&lines);
    for at in 0..lines.len() {
        c18_judge(&lines, &all, at, &mut o)?;
        guard("headers", || (before_path_and_time_stamp(&lines[at]), after_path_and_time_stamp(&lines[at])))?;
    }
    Ok(o)
}

pub fn c18(c: &mut Ctx) {
    c.rule = "hunks spoilt in headers, counts, markers, lines and order, every text of up to 5 (thorough: 6) lines over 8 lines that matter, and garbage; parsed from every line position and judged by an independent reader; non-trivial: not empty; distinct by text".into();
    let c = &*c;
    for len in 1..=c.tier(5, 6) {
        c.stage(&format!("words-{len}"), 8usize.pow(len as u32), c.tier(12, 60), |_, i| c18_words(i, len));
        if !c.failed() {
            c.exhaustive(&format!("all texts of {len} lines over 8 lines, every position"));
        }
    }
    c.stage("spoilt", c.tier(300_000, 3_000_000), c.tier(20, 300), |rng, _| c18_case(rng));
    c.stage("huge", c.tier(48, 600), c.tier(20, 200), c18_huge);
    c.stage("garbage", c.tier(120_000, 1_000_000), c.tier(12, 200), |rng, _| c18_garbage(rng));
}

// ---------------------------------------------------------------- C19

fn c19_judge(before: &Lines, after: &Lines, ctx: u8, o: &mut Outcome) -> Result<String, Fault> {
    let (b, a) = (seq(before), seq(after));
    let head = || format!("context={ctx}\nbefore={:?}\nafter={:?}", clip(&join(before), 4000), clip(&join(after), 4000));
    let f = |x: Fault| ctx_of(x, &head());
    let changes = guard("Changes::new", || Changes::<String>::new(seq(before), seq(after))).map_err(f)?;
    let clumps: Vec<_> = guard("change_clumps", || changes.change_clumps(ctx).collect()).map_err(f)?;
    let texts: Vec<UnifiedClumpText> = guard("UnifiedClumpIter", || UnifiedClumpIter { before: &b, after: &a, iter: changes.change_clumps(ctx) }.collect()).map_err(f)?;
    if texts.len() != clumps.len() {
        return Err(f(format!("{} hunks are formatted as {}", clumps.len(), texts.len()).into()));
    }
    let mut whole = String::new();
    let mut result: Lines = vec![];
    let mut used = 0;
    let mut reread = vec![];
    for (i, (t, c)) in texts.iter().zip(&clumps).enumerate() {
        let text = format!("{}\n{}", t.header, t.lines.concat());
        let f = |x: Fault| ctx_of(x, &format!("hunk {}:\n{}\n{}", i + 1, clip(&text, 4000), head()));
        let lines = split_lines(&text);
        let (h, next) = read_hunk(&lines, 0).map_err(|e| f(e.into()))?;
        if next != lines.len() {
            return Err(f(format!("{} lines of {} belong to the hunk", next, lines.len()).into()));
        }
        let (s, e) = (c.starts(), c.ends());
        let std = |s: usize, e: usize| (if e == s { s } else { s + 1 }, e - s);
        let want = (std(s.0, e.0), std(s.1, e.1));
        if (h.before, h.after) != want {
            return Err(f(format!("header positions {:?}, standard ones {want:?}", (h.before, h.after)).into()));
        }
        // exactly its lines: unchanged ones, and in each changed block the removed and the added ones
        let mut k = 0;
        for ch in c.iter() {
            let (del, ins, same) = match ch {
                Change::NoChange(cs) => (vec![], vec![], before[cs.before_range().0..cs.before_range().1].to_vec()),
                Change::Delete(r, _) => (before[r.0..r.1].to_vec(), vec![], vec![]),
                Change::Insert(_, r) => (vec![], after[r.0..r.1].to_vec(), vec![]),
                Change::Replace(r, q) => (before[r.0..r.1].to_vec(), after[q.0..q.1].to_vec(), vec![]),
            };
            let n = del.len() + ins.len() + same.len();
            if k + n > h.ops.len() {
                return Err(f(format!("{} lines shown, its changes have more", h.ops.len()).into()));
            }
            let part = &h.ops[k..k + n];
            let of = |m: char| part.iter().filter(|o| o.0 == m).map(|o| o.1.clone()).collect::<Lines>();
            if of('-') != del || of('+') != ins || of(' ') != same {
                return Err(f(format!("{ch:?} is shown as {}", clip(&format!("{part:?}"), 2000)).into()));
            }
            k += n;
        }
        if k != h.ops.len() {
            return Err(f(format!("{} lines shown, its changes have {k}", h.ops.len()).into()));
        }
        // ordinary reading
        let at = index(h.before);
        let old = h.old();
        if at < used || at + old.len() > before.len() || before[at..at + old.len()] != old[..] {
            return Err(f(format!("the first file does not hold the old lines at line {}", h.before.0).into()));
        }
        result.extend_from_slice(&before[used..at]);
        if result.len() != index(h.after) {
            return Err(f(format!("the new lines end up at index {}, the header says {:?}", result.len(), h.after).into()));
        }
        result.extend(h.new());
        used = at + old.len();
        // read back
        match guard("get_from_at", || UnifiedDiffClump::get_from_at(&seq(&lines), 0)).map_err(f)? {
            Ok(Some(p)) => {
                matches(&p, &h, Some(lines.len()), o).map_err(f)?;
                let (x, y) = c.context_lengths();
                if p.context_lengths != (x, y) {
                    return Err(f(format!("read back with context {:?}, the hunk has {:?}", p.context_lengths, (x, y)).into()));
                }
                reread.push(p);
            }
            other => return Err(f(format!("read back as {:?}", other.map(|_| "no hunk")).into())),
        }
        o.count("hunks formatted and read back", 1);
        o.count("'no newline' markers", h.ops.iter().filter(|o| !o.1.ends_with('\n')).count() as u64);
        o.count("'no newline' markers within a hunk", h.ops.iter().rev().skip(1).filter(|o| !o.1.ends_with('\n')).count() as u64);
        whole.push_str(&text);
    }
    result.extend_from_slice(&before[used..]);
    if result != *after {
        return Err(f(format!("the ordinary reading of the diff gives another file ({})", diff_pos(join(&result).as_bytes(), join(after).as_bytes())).into()));
    }
    // all of it, hunk after hunk, and applied
    if !texts.is_empty() {
        let lines = split_lines(&whole);
        let show = || format!("{}\ndiff=\n{}", head(), clip(&whole, 4000));
        let parsed = parse_all(&seq(&lines), 0, lines.len(), &show)?;
        if parsed.len() != texts.len() {
            return Err(f(format!("{} hunks are read back as {}", texts.len(), parsed.len()).into()));
        }
        apply_parsed(parsed, before, after, &show, o)?;
        drop(reread);
    }
    Ok(whole)
}

fn c19_case(rng: &mut Rng) -> Verdict {
    let p = text_pair(rng);
    let ctx = any_context(rng);
    let mut o = Outcome::new(&p.key(ctx), p.before != p.after);
    let text = c19_judge(&p.before, &p.after, ctx, &mut o)?;
    o.sample = Some(clip(&text, 300));
    Ok(o)
}

/// GNU patch as the ordinary reader.
fn c19_patch(rng: &mut Rng) -> Verdict {
    let n = rng.below(60);
    let al = any_alphabet(rng);
    let p = text_pair_of(rng, al, n);
    let ctx = *rng.pick(&[0u8, 1, 2, 3, 10]);
    let mut o = Outcome::new(&p.key(ctx), p.before != p.after);
    let text = c19_judge(&p.before, &p.after, ctx, &mut o)?;
    if text.is_empty() {
        return Ok(Outcome::default());
    }
    let dir = Scratch::new()?;
    let b = dir.put("file", join(&p.before).as_bytes())?;
    let d = dir.put("diff", format!("--- file\n+++ file\n{text}").as_bytes())?;
    let res = dir.path("out");
    let run = Command::new("patch")
        .args(["--binary", "-s", "-u", "-N", "-f", "-F0", "-r", "-", "-o"])
        .arg(&res)
        .arg(&b)
        .arg(&d)
        .current_dir(&dir.0)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| Fault::Harness(format!("patch: {e}")))?;
    let got = std::fs::read(&res).unwrap_or_default();
    if !run.status.success() || got != join(&p.after).into_bytes() {
        return Err(format!(
            "the system's patch reads the diff otherwise ({:?} {})\ncontext={ctx}\n{}\ndiff=\n{}",
            run.status,
            String::from_utf8_lossy(&run.stdout),
            clip(&p.show(), 4000),
            clip(&text, 4000)
        )
        .into());
    }
    o.count("diffs applied by the system's patch", 1);
    Ok(o)
}

pub fn c19(c: &mut Ctx) {
    c.rule = "pairs of text files (exhaustive small words with and without final newlines, edited files) x contexts: every hunk formatted, read by an independent strict reader, its numbers and lines compared with the files, the whole applied by that reader, read back by the library and applied; non-trivial: the files differ; distinct by content and context".into();
    let c = &*c;
    let words = all_words(2, c.tier(4, 5));
    let n = words.len();
    c.stage("words", n * n * 4 * 3, c.tier(20, 300), |_, i| {
        let (ctx, i) = (i % 3, i / 3);
        let (eol, i) = (i % 4, i / 4);
        let (mut b, mut a) = (word_lines(&words[i / n]), word_lines(&words[i % n]));
        if eol & 1 != 0 {
            chop_eol(&mut b);
        }
        if eol & 2 != 0 {
            chop_eol(&mut a);
        }
        let mut o = Outcome::new(format!("{ctx} {b:?} {a:?}").as_bytes(), b != a);
        c19_judge(&b, &a, ctx as u8, &mut o)?;
        Ok(o)
    });
    c.stage("random", c.tier(200_000, 4_000_000), c.tier(16, 400), |rng, _| c19_case(rng));
    c.stage("large", c.tier(4, 40), c.tier(15, 150), |rng, i| {
        let p = super::lib_core::large_pair(rng, i);
        let ctx = *rng.pick(&[0u8, 2, 3, 200, 255]);
        let mut o = Outcome::new(&p.key(ctx), p.before != p.after);
        c19_judge(&p.before, &p.after, ctx, &mut o)?;
        Ok(o)
    });
    c.stage("huge", c.tier(16, 160), c.tier(20, 150), |rng, i| {
        // one hunk of more lines than a narrow number counts
        let n = |rng: &mut Rng| *rng.pick(&[0usize, 3, 65_534, 65_535, 65_536, 65_537, 80_000]);
        let side = |m: &str, n: usize| -> Lines { (0..n).map(|k| format!("{m}{k}\n")).collect() };
        let (lead, trail) = (side("lead", *rng.pick(&[0usize, 300])), side("trail", *rng.pick(&[0usize, 300])));
        let (d, k) = if i % 3 == 0 { (70_000, 0) } else { (n(rng), n(rng)) };
        let mut b = [&lead[..], &side("old", d), &trail].concat();
        let mut a = [&lead[..], &side("new", k), &trail].concat();
        if rng.chance(1, 3) {
            chop_eol(&mut b);
        }
        if rng.chance(1, 3) {
            chop_eol(&mut a);
        }
        let ctx = *rng.pick(&[0u8, 3, 255]);
        let mut o = Outcome::new(format!("{ctx} {i} {d} {k} {}", b.len()).as_bytes(), b != a);
        c19_judge(&b, &a, ctx, &mut o)?;
        Ok(o)
    });
    if Command::new("patch").arg("--version").stdout(Stdio::null()).stderr(Stdio::null()).status().is_ok() {
        c.stage("system-patch", c.tier(6_000, 60_000), c.tier(12, 300), |rng, _| c19_patch(rng));
    }
}

// ---------------------------------------------------------------- C20

fn digits(rng: &mut Rng, n: usize) -> String {
    (0..n).map(|_| char::from(b'0' + rng.below(10) as u8)).collect()
}

fn a_timestamp(rng: &mut Rng) -> String {
    if rng.chance(1, 12) {
        // those that tools write for files that do not exist, and extreme ones
        return rng
            .pick(&[
                "1970-01-01 00:00:00.000000000 +0000",
                "1970-01-01 00:00:00 +0000",
                "1970-01-01 01:00:00.000000000 +0100",
                "1969-12-31 19:00:00.000000000 -0500",
                "Thu Jan 01 00:00:00 1970 +0000",
                "0000-00-00 00:00:00 +0000",
                "0001-01-01 00:00:00.000000000 +0000",
                "9999-12-31 23:59:59.999999999 +1400",
                "2038-01-19 03:14:08.000000000 -0000",
                "2016-12-31 23:59:60.000000000 +0000",
                "2024-02-29 12:00:00.000000001 -1200",
                "Fri Feb 30 24:60:61 2024 +9999",
            ])
            .to_string();
    }
    let zone = format!("{}{}", rng.pick(&["+", "-"]), digits(rng, 4));
    if rng.chance(2, 3) {
        let frac = if rng.chance(1, 2) { format!(".{}", digits(rng, 9)) } else { String::new() };
        format!("{}-{}-{} {}:{}:{}{frac} {zone}", digits(rng, 4), digits(rng, 2), digits(rng, 2), digits(rng, 2), digits(rng, 2), digits(rng, 2))
    } else {
        format!(
            "{} {} {} {}:{}:{} {} {zone}",
            rng.pick(&["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]),
            rng.pick(&["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]),
            digits(rng, 2),
            digits(rng, 2),
            digits(rng, 2),
            digits(rng, 2),
            digits(rng, 4)
        )
    }
}

fn a_path(rng: &mut Rng, quoted: bool) -> String {
    if rng.chance(1, 15) {
        return rng.pick(&["/dev/null", "/dev/stdin", "nul", "-", "--", "a", "b", "a/", "/", "a/x", "b/x", ".", "..", "../../x", "~", "x.orig", "(none)", "1970-01-01", "+0000", "@@", "/dev/null.c"]).to_string();
    }
    let mut s = String::new();
    let parts = if rng.chance(1, 50) { rng.range(100, 3000) } else { rng.range(1, 12) };
    for _ in 0..parts {
        s.push_str(*rng.pick(&["a", "b", "/", ".", "..", "-", "+", "é", "日", "0", "2024-01-01", "@@", "\\", "'", "#", "---", "+++", "~", ":", ",", "\u{10ffff}"]));
        if quoted && rng.chance(1, 3) {
            s.push_str(*rng.pick(&[" ", "\t", "  "]));
        }
    }
    s
}

fn c20_case(rng: &mut Rng) -> Verdict {
    let quoted = rng.chance(1, 3);
    let path = a_path(rng, quoted);
    let shown = if quoted { format!("\"{path}\"") } else { path.clone() };
    let ts = if rng.chance(2, 3) { Some(a_timestamp(rng)) } else { None };
    let tail = match &ts {
        Some(t) => format!("{}{t}", rng.pick(&["\t", " ", "  ", "\t\t"])),
        None => rng.pick(&["", "", "\t", " ", "\tunknown", "\t(revision 3)", "\t2024-01-01", "\t12:30:00", "\tMon Jan 1", "\r"]).to_string(),
    };
    let mark = if rng.chance(1, 2) { "---" } else { "+++" };
    let line = format!("{mark} {shown}{tail}\n");
    let mut o = Outcome::new(line.as_bytes(), true);
    let (b, a) = guard("headers", || (before_path_and_time_stamp(&line), after_path_and_time_stamp(&line))).map_err(|f| ctx_of(f, &line))?;
    let (hit, miss) = if mark == "---" { (b, a) } else { (a, b) };
    if let Some(m) = miss {
        return Err(format!("{line:?} is read as the other kind of header: {m:?}").into());
    }
    let Some(h) = hit else {
        return Err(format!("{line:?} is not read as a header").into());
    };
    if h.file_path != path || h.time_stamp != ts {
        return Err(format!("{line:?} is read as {h:?}, expected path {path:?} and timestamp {ts:?}").into());
    }
    o.count("headers read", 1);
    o.count("timestamps read", ts.is_some() as u64);
    // not headers
    let w = mark.chars().next().unwrap();
    let no = match rng.below(9) {
        0 => format!("{mark}{shown}{tail}\n"),
        1 => format!(" {line}"),
        2 => format!("{}{w}{w} {shown}{tail}\n", if w == '-' { '+' } else { '-' }),
        3 => format!("{w}{line}"),
        4 => format!("{w}{w} {shown}{tail}\n"),
        5 => format!("{mark} \n"),
        6 => format!("{mark}\n"),
        7 => format!("@@ {shown} @@\n"),
        _ => format!("x{line}"),
    };
    let (b, a) = guard("headers", || (before_path_and_time_stamp(&no), after_path_and_time_stamp(&no))).map_err(|f| ctx_of(f, &no))?;
    if b.is_some() || a.is_some() {
        return Err(format!("{no:?} is no header, but read as {b:?} {a:?}").into());
    }
    o.count("other lines", 1);
    o.sample = Some(line);
    Ok(o)
}

fn c20_position(rng: &mut Rng) -> Verdict {
    let n = |rng: &mut Rng| *rng.pick(&[0usize, 1, 1, 1, 2, 3, 9, 10, 11, 99, 100, 255, 256, 65535, 65536, 1 << 32, usize::MAX - 1, usize::MAX]);
    let p = StartsAndLengths {
        before: StartAndLength { start: if rng.chance(1, 2) { n(rng) } else { rng.next() as usize }, length: n(rng) },
        after: StartAndLength { start: n(rng), length: if rng.chance(1, 2) { n(rng) } else { rng.next() as usize } },
    };
    let text = guard("formatting", || format!("{p}"))?;
    let mut o = Outcome::new(text.as_bytes(), true);
    for tail in ["", "\n", " fn x() {\n", " @@ -1 +1 @@\n"] {
        let line = format!("{text}{tail}");
        let back = guard("starts_and_lengths", || starts_and_lengths(&line, 3))?.map_err(|e| Fault::Bad(format!("{line:?} is rejected: {e:?}")))?;
        if back.as_ref() != Some(&p) {
            return Err(format!("{line:?} is read as {back:?}, it was formatted from {p:?}").into());
        }
        if strict_header(&line) != Some(((p.before.start, p.before.length), (p.after.start, p.after.length))) {
            return Err(format!("{line:?} is not the standard form of {p:?}").into());
        }
    }
    o.count("positions formatted and parsed", 1);
    let line = rng.pick(&["@@\n", "@@ -1 @@\n", "-@@ -1 +1 @@\n", "@@@ -1 +1 @@\n", "@ -1 +1 @\n", "--- a\n", "\n", "", "@@ -1 +1\n", "@@ +1 -1 @@\n", "@@ -x +1 @@\n"]).to_string();
    if !matches!(guard("starts_and_lengths", || starts_and_lengths(&line, 0))?, Ok(None)) {
        return Err(format!("{line:?} is no hunk header").into());
    }
    Ok(o)
}

pub fn c20(c: &mut Ctx) {
    c.rule = "file headers of both kinds with plain and quoted paths, both timestamp formats, other text or none; lines that are nearly headers; positions formatted and parsed; non-trivial: all; distinct by line".into();
    let c = &*c;
    c.stage("headers", c.tier(200_000, 5_000_000), c.tier(14, 200), |rng, _| c20_case(rng));
    c.stage("positions", c.tier(100_000, 2_000_000), c.tier(8, 100), |rng, _| c20_position(rng));
    if Command::new("diff").arg("--version").stdout(Stdio::null()).stderr(Stdio::null()).status().is_ok() {
        c.stage("system-diff", c.tier(2_000, 20_000), c.tier(10, 100), |rng, _| c17_gnu(rng, true));
    }
    let _ = |r: Range| r.len();
}
