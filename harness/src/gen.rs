//! Workload generators: files as lists of lines, byte strings, edits, contexts.

use crate::rng::Rng;

pub type Lines = Vec<String>;

/// Independent line splitter: after each '\n' only.
pub fn split_lines(text: &str) -> Lines {
    let mut out = vec![];
    let mut cur = String::new();
    for c in text.chars() {
        cur.push(c);
        if c == '\n' {
            out.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

pub fn join(lines: &[String]) -> String {
    lines.concat()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Alphabet {
    Tiny,
    Small,
    Unique,
    Mixed,
    Nasty,
}

pub const NASTY: &[&str] = &[
    "\n", "\r\n", "\r\r\n", " \n", "\t\n", "a\n", "a\r\n", "a \n", " a\n", "A\n", "aa\n", "a\u{0}\n", "\u{0}\n",
    "<<<<<<<\n", "=======\n", ">>>>>>>\n", "-a\n", "+a\n", " a\n", "\\\n", "\\ No newline at end of file\n", "@@ -1 +1 @@\n",
    "--- a\n", "+++ b\n", "-- a\n", "++ b\n", "-- \n", "++ \n", "@ -1 +1 @@\n", " -1 +1 @@\n", "é\n", "e\u{301}\n", "\u{2028}\n", "\u{85}x\n", "\u{feff}\n", "日本語\n", "\u{10FFFF}\n", "x\u{b}y\u{c}\n",
    "\"quoted\"\n", "{\"k\":1}\n", "a\rb\n", "\u{1b}[0m\n", "0\n", "00\n", "-\n", "+\n", "\u{7f}\n", "a\u{a0}\n", "a\u{3000}\n",
    "\u{feff}a\n", "\u{fffd}\n", "a\u{200b}\n", "\t \r\n", "#!/bin/sh\n", "\u{fffe}\n", "%\n", "\\n\n", "\u{80}\n", "ß\n", "SS\n", "İ\n",
];

thread_local! {
    /// What the lines of the pair at hand begin or end with: they differ late or early only.
    static ADORN: std::cell::RefCell<(String, bool)> = const { std::cell::RefCell::new((String::new(), false)) };
}

pub fn no_adornment() {
    ADORN.with(|a| a.borrow_mut().0.clear());
}

/// How long adorned texts may get: where they may end up compared byte by byte, that takes too long.
pub static ADORNED_MAX: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(2_000);

fn adorn(rng: &mut Rng, n: usize) {
    no_adornment();
    if n < 2000 && rng.chance(1, 250) {
        let len: usize = if n < 12 && rng.chance(1, 12) {
            *rng.pick(&[16_384, 65_535, 65_536])
        } else if n < 60 && rng.chance(1, 2) {
            *rng.pick(&[2047, 2048, 4095, 4096, 4097, 5000, 8192])
        } else {
            *rng.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024])
        };
        if (n + 1) * len > ADORNED_MAX.load(std::sync::atomic::Ordering::Relaxed) {
            return;
        }
        let first = rng.chance(2, 3);
        let unit = *rng.pick(&["x", " ", "0123456789", "\t", "\u{e9}"]);
        ADORN.with(|a| *a.borrow_mut() = (unit.repeat(len.div_ceil(unit.len())), first));
    }
}

pub fn a_line(rng: &mut Rng, alpha: Alphabet, uniq: &mut usize) -> String {
    let line = plain_line(rng, alpha, uniq);
    ADORN.with(|a| {
        let a = a.borrow();
        if a.0.is_empty() {
            line
        } else if a.1 {
            format!("{}{line}", a.0)
        } else {
            format!("{}{}\n", line.trim_end_matches('\n'), a.0)
        }
    })
}

fn plain_line(rng: &mut Rng, alpha: Alphabet, uniq: &mut usize) -> String {
    match alpha {
        Alphabet::Tiny => ["a\n", "b\n"][rng.below(2)].to_string(),
        Alphabet::Small => ["a\n", "b\n", "c\n", "d\n", "e\n"][rng.below(5)].to_string(),
        Alphabet::Unique => {
            *uniq += 1;
            format!("line {}\n", *uniq)
        }
        Alphabet::Mixed => {
            if rng.chance(1, 3) {
                ["\n", "}\n", "{\n", "    return;\n"][rng.below(4)].to_string()
            } else {
                *uniq += 1;
                format!("text {}\n", *uniq)
            }
        }
        Alphabet::Nasty => NASTY[rng.below(NASTY.len())].to_string(),
    }
}

pub fn any_alphabet(rng: &mut Rng) -> Alphabet {
    *rng.pick(&[Alphabet::Tiny, Alphabet::Small, Alphabet::Small, Alphabet::Unique, Alphabet::Unique, Alphabet::Mixed, Alphabet::Nasty])
}

/// Every line but the last ends in a newline; empty lines without newline are dropped.
pub fn normalise(lines: Lines) -> Lines {
    let n = lines.len();
    let mut out = Vec::with_capacity(n);
    for (i, mut l) in lines.into_iter().enumerate() {
        if i + 1 < n && !l.ends_with('\n') {
            l.push('\n');
        }
        if !l.is_empty() {
            out.push(l);
        }
    }
    out
}

pub fn chop_eol(lines: &mut Lines) {
    if let Some(l) = lines.last_mut() {
        if l.ends_with('\n') {
            l.pop();
        }
        if l.is_empty() {
            lines.pop();
        }
    }
    // the line before still ends in a newline
}

pub fn gen_lines(rng: &mut Rng, n: usize, alpha: Alphabet, uniq: &mut usize) -> Lines {
    (0..n).map(|_| a_line(rng, alpha, uniq)).collect()
}

/// `k` random edits of a list of lines.
pub fn edit(rng: &mut Rng, lines: &[String], k: usize, alpha: Alphabet, uniq: &mut usize) -> Lines {
    let mut v: Lines = lines.to_vec();
    for _ in 0..k {
        let n = v.len();
        let len = 1 + if rng.chance(1, 4) { rng.below(8) } else { rng.below(2) };
        match rng.below(9) {
            0 | 1 => {
                let at = match rng.below(6) {
                    0 => 0,
                    1 => n,
                    _ => rng.below(n + 1),
                };
                let new: Lines = gen_lines(rng, len, alpha, uniq);
                v.splice(at..at, new);
            }
            2 | 3 if n > 0 => {
                let at = match rng.below(6) {
                    0 => 0,
                    1 => n - 1,
                    _ => rng.below(n),
                };
                let end = (at + len).min(n);
                v.drain(at..end);
            }
            4 | 5 if n > 0 => {
                let at = match rng.below(6) {
                    0 => 0,
                    1 => n - 1,
                    _ => rng.below(n),
                };
                let end = (at + len).min(n);
                let new_len = 1 + rng.below(len + 1);
                let new: Lines = gen_lines(rng, new_len, alpha, uniq);
                v.splice(at..end, new);
            }
            6 if n > 1 => {
                let (i, j) = (rng.below(n), rng.below(n));
                v.swap(i, j);
            }
            7 if n > 0 => {
                // duplicate a block somewhere
                let at = rng.below(n);
                let end = (at + len).min(n);
                let block: Lines = v[at..end].to_vec();
                let to = rng.below(n + 1);
                v.splice(to..to, block);
            }
            8 if n > 1 => {
                // move a block
                let at = rng.below(n);
                let end = (at + len).min(n);
                let block: Lines = v.drain(at..end).collect();
                let to = rng.below(v.len() + 1);
                v.splice(to..to, block);
            }
            _ => {}
        }
    }
    v
}

pub fn any_size(rng: &mut Rng) -> usize {
    match rng.below(20) {
        0 => 0,
        1..=5 => rng.below(7),
        6..=13 => rng.below(25),
        14..=18 => rng.below(90),
        _ => rng.range(90, 330),
    }
}

pub struct Pair {
    pub before: Lines,
    pub after: Lines,
    pub alpha: Alphabet,
}

impl Pair {
    pub fn key(&self, ctx: u8) -> Vec<u8> {
        let mut k = vec![ctx];
        for l in &self.before {
            k.extend_from_slice(l.as_bytes());
            k.push(0xff);
        }
        k.push(0xfe);
        for l in &self.after {
            k.extend_from_slice(l.as_bytes());
            k.push(0xff);
        }
        k
    }
    pub fn show(&self) -> String {
        format!("before={:?}\nafter={:?}", crate::run::clip(&join(&self.before), 6000), crate::run::clip(&join(&self.after), 6000))
    }
}

/// A pair of text files: mostly edited versions of each other, sometimes unrelated.
pub fn text_pair(rng: &mut Rng) -> Pair {
    let alpha = any_alphabet(rng);
    let n = any_size(rng);
    text_pair_of(rng, alpha, n)
}

pub fn text_pair_of(rng: &mut Rng, alpha: Alphabet, n: usize) -> Pair {
    let mut uniq = 0;
    adorn(rng, n);
    let mut before = gen_lines(rng, n, alpha, &mut uniq);
    let k = match rng.below(10) {
        0 => 0,
        1..=5 => rng.range(1, 3),
        6..=8 => rng.range(2, 8),
        _ => rng.range(5, 25),
    };
    let mut after = if rng.chance(1, 12) {
        let m = any_size(rng);
        gen_lines(rng, m, alpha, &mut uniq)
    } else {
        edit(rng, &before, k, alpha, &mut uniq)
    };
    if rng.chance(1, 10) && !before.is_empty() {
        // a very long line
        let i = rng.below(before.len());
        let len = *rng.pick(&[8191usize, 8192, 8193, 20000]);
        before[i] = format!("{}\n", "x".repeat(len));
        if rng.chance(1, 2) && i < after.len() {
            after[i] = before[i].clone();
        }
    }
    before = normalise(before);
    after = normalise(after);
    if rng.chance(1, 20) {
        // a byte order mark or other special beginning
        let mark = *rng.pick(&["\u{feff}", "\u{feff}", "\u{0}", "\u{1a}", "\u{c}", "\u{200b}"]);
        for side in [&mut before, &mut after] {
            if let Some(l) = side.first_mut() {
                if !rng.chance(1, 4) {
                    l.insert_str(0, mark);
                }
            }
        }
    }
    if rng.chance(1, 6) {
        chop_eol(&mut before);
    }
    if rng.chance(1, 6) {
        chop_eol(&mut after);
    }
    if rng.chance(1, 2) {
        std::mem::swap(&mut before, &mut after);
    }
    Pair { before, after, alpha }
}

pub fn any_context(rng: &mut Rng) -> u8 {
    match rng.below(12) {
        0 | 1 => 0,
        2 => 1,
        3..=5 => 2,
        6 | 7 => 3,
        8 => rng.range(4, 12) as u8,
        9 => *rng.pick(&[16u8, 63, 64, 127, 128, 129, 200, 254, 255]),
        _ => rng.range(0, 255) as u8,
    }
}

/// All sequences over 0..k of length 0..=max.
pub fn all_words(k: u8, max: usize) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max {
        let mut nextv = vec![];
        for w in &last {
            for c in 0..k {
                let mut v = w.clone();
                v.push(c);
                nextv.push(v);
            }
        }
        all.extend(nextv.iter().cloned());
        last = nextv;
    }
    all
}

pub fn word_lines(w: &[u8]) -> Lines {
    w.iter().map(|c| format!("{}\n", (b'a' + c) as char)).collect()
}

pub fn gen_bytes(rng: &mut Rng, n: usize, kind: usize) -> Vec<u8> {
    match kind {
        0 => (0..n).map(|_| rng.below(2) as u8).collect(),
        1 => (0..n).map(|_| (rng.below(4) as u8).wrapping_add(0xfe)).collect(),
        2 => (0..n).map(|_| rng.next() as u8).collect(),
        3 => (0..n).map(|i| if i % 7 == 0 { rng.next() as u8 } else { 0 }).collect(),
        _ => (0..n).map(|i| i as u8).collect(),
    }
}

pub fn edit_bytes(rng: &mut Rng, b: &[u8], k: usize, kind: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..k {
        let n = v.len();
        let most = if rng.chance(1, 4) { 20 } else { 3 };
        let len = 1 + rng.below(most);
        let at = match rng.below(6) {
            0 => 0,
            1 => n,
            _ => rng.below(n + 1),
        };
        let end = (at + len).min(n);
        match rng.below(5) {
            0 | 1 => {
                let new = gen_bytes(rng, len, kind);
                v.splice(at..at, new);
            }
            2 => {
                let s = end.saturating_sub(len);
                v.drain(s..end);
            }
            3 => {
                let m = rng.range(1, len + 1);
                let new = gen_bytes(rng, m, kind);
                v.splice(at..end, new);
            }
            _ => {
                let block = v[at..end].to_vec();
                let to = rng.below(v.len() + 1);
                v.splice(to..to, block);
            }
        }
    }
    v
}

pub fn byte_pair(rng: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let kind = rng.below(5);
    let n = match rng.below(10) {
        0 => rng.below(2),
        1..=4 => rng.below(12),
        5..=8 => rng.below(80),
        _ => rng.range(80, 700),
    };
    let a = gen_bytes(rng, n, kind);
    let b = if rng.chance(1, 12) {
        let m = rng.below(60);
        gen_bytes(rng, m, kind)
    } else {
        let k = rng.below(6);
        edit_bytes(rng, &a, k, kind)
    };
    if rng.chance(1, 2) {
        (a, b)
    } else {
        (b, a)
    }
}

/// Log-uniform: every order of magnitude between `lo` and `hi` is as likely.
pub fn log_range(rng: &mut Rng, lo: usize, hi: usize) -> usize {
    let (a, b) = ((lo as f64).ln(), (hi as f64 + 1.0).ln());
    let u = (rng.next() >> 11) as f64 / (1u64 << 53) as f64;
    ((a + (b - a) * u).exp() as usize).clamp(lo, hi)
}

/// Long byte strings of which at least one side is short enough to compare quickly.
pub fn large_bytes(rng: &mut Rng, i: usize) -> (Vec<u8>, Vec<u8>) {
    let mut a: Vec<u8>;
    let mut b: Vec<u8>;
    match i % 7 {
        // no byte in common but for a few
        6 => {
            let (n, m) = (rng.range(1_000, 9_000), rng.range(1_000, 9_000));
            a = (0..n).map(|_| rng.next() as u8 & 0x7f).collect();
            b = (0..m).map(|_| rng.next() as u8 | 0x80).collect();
            for _ in 0..rng.range(1, 4) {
                let x = rng.next() as u8;
                let (p, q) = (rng.below(n), rng.below(m));
                a[p] = x;
                b[q] = x;
            }
        }
        // a long middle removed: hunks beyond 2^16
        0 | 1 => {
            let n = rng.range(66_000, 140_000);
            a = gen_bytes(rng, n, 2);
            let head = rng.range(0, 900);
            let tail = rng.range(65_700, n);
            let end = (tail + rng.range(300, 3000)).min(n);
            a.truncate(end);
            let mut v = a[..head].to_vec();
            v.extend_from_slice(&a[tail.min(end)..]);
            let k = rng.below(4);
            b = edit_bytes(rng, &v, k, 2);
        }
        // one byte value very frequent
        2 => {
            let n = if rng.chance(1, 3) { rng.range(66_000, 90_000) } else { log_range(rng, 300, 70_000) };
            let x = rng.next() as u8;
            a = vec![x; n];
            if rng.chance(1, 2) {
                let len = rng.range(1, 60);
                let mut tail = gen_bytes(rng, len, 2);
                tail.insert(rng.below(len), x);
                a.extend(tail);
            }
            let n = a.len();
            for _ in 0..rng.below(6) {
                let at = rng.below(n);
                a[at] = rng.next() as u8;
            }
            let m = rng.range(1, 60);
            let mut v = a[n - m.min(n)..].to_vec();
            let k = rng.below(4);
            v = edit_bytes(rng, &v, k, 2);
            b = v;
        }
        // a hunk longer than 2^16
        3 => {
            let n = rng.range(65_530, 67_000);
            a = gen_bytes(rng, n, 2);
            let m = rng.below(40);
            b = gen_bytes(rng, m, 2);
        }
        // lengths around powers of two
        4 => {
            let n = (1usize << rng.range(7, 16)) + rng.below(5) - 2;
            a = gen_bytes(rng, n, 2);
            let keep = n.min(rng.range(1, 1500));
            let mut v = a[n - keep..].to_vec();
            v.insert(keep / 2, 7);
            v.push(9);
            b = v;
        }
        // a local edit in a string of moderate length
        _ => {
            let n = log_range(rng, 500, 9_000);
            a = gen_bytes(rng, n, 2);
            let k = rng.range(1, 30);
            b = edit_bytes(rng, &a, k, 2);
        }
    }
    if rng.chance(1, 2) {
        (a, b)
    } else {
        (b, a)
    }
}
