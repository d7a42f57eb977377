//! C22 and C23: commands that run at the same time, and what commands say.

use std::collections::BTreeSet;
use std::ffi::{OsStr, OsString};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

use super::cli::*;
use super::lib_core::ctx_of;
use super::lib_io::*;
use crate::fx::Scratch;
use crate::gen::*;
use crate::rng::{hash_bytes, Rng};
use crate::run::{clip, Ctx, Fault, Outcome, Verdict};
use crate::tool::*;
use crate::util::*;

/// One run of pw_patch to be: it takes `target` from one state to the other.
struct Job {
    patch: PathBuf,
    reverse: bool,
    target: PathBuf,
    old: Option<Vec<u8>>,
    new: Option<Vec<u8>>,
}

impl Job {
    /// A patch of any kind for a file in `dir` of the stand, and the file as it is before.
    fn any(rng: &mut Rng, s: &Stand, name: &str, shape: usize) -> Result<Job, Fault> {
        let (a, b) = loop {
            let (a, b) = some_pair(rng);
            if a.len() < 600 && b.len() < 600 && a != b {
                break (a, b);
            }
        };
        let (v1, v2) = match shape {
            0 => (None, Some(b)),
            1 => (Some(a), None),
            _ => (Some(a), Some(b)),
        };
        Job::of(rng, s, name, v1, v2)
    }
    fn of(rng: &mut Rng, s: &Stand, name: &str, v1: Option<Vec<u8>>, v2: Option<Vec<u8>>) -> Result<Job, Fault> {
        let given = Path::new("dir").join(name);
        let target = s.tree.join(&given);
        let doc = make_patch(rng, given.as_os_str(), &target, v1.as_deref(), v2.as_deref(), s, &s.tree)?;
        let patch = s.aux.join(format!("patch-{:x}", hash_bytes(&[name.as_bytes(), &doc].concat())));
        put(&patch, &doc)?;
        let reverse = rng.chance(1, 2);
        let (old, new) = if reverse { (v2, v1) } else { (v1, v2) };
        let j = Job { patch, reverse, target, old, new };
        j.reset()?;
        Ok(j)
    }
    fn reset(&self) -> Result<(), Fault> {
        set(&self.target, self.old.as_deref())
    }
    fn args(&self) -> Vec<OsString> {
        let mut v = vec![self.patch.clone().into_os_string()];
        if self.reverse {
            v.insert(0, "-r".into());
        }
        v
    }
    fn cmd(&self, cwd: &Path, aux: &Path) -> Cmd {
        let mut c = Cmd::new("pw_patch", cwd, aux);
        c.args = self.args();
        c
    }
    fn show(&self) -> String {
        format!("{:?} from {} to {}", self.target.file_name().unwrap_or_default(), show_opt(self.old.as_deref()), show_opt(self.new.as_deref()))
    }
}

fn show_opt(x: Option<&[u8]>) -> String {
    x.map_or("(no file)".into(), show_bytes)
}

fn set(p: &Path, x: Option<&[u8]>) -> Result<(), Fault> {
    match x {
        Some(b) => put(p, b),
        None => match std::fs::remove_file(p) {
            Err(e) if e.kind() != std::io::ErrorKind::NotFound => Err(Fault::Harness(format!("clearing {p:?}: {e}"))),
            _ => Ok(()),
        },
    }
}

fn held(p: &Path) -> Option<Vec<u8>> {
    std::fs::read(p).ok()
}

/// A shell word.
fn quoted(x: &OsStr) -> String {
    format!("'{}'", x.to_string_lossy().replace('\'', "'\\''"))
}

/// A command for the monitor to run in the middle of another one; it leaves its output, messages and status in `aux`.
fn as_hook(wrap: &[OsString], tool: &str, args: &[OsString], cwd: &Path, aux: &Path) -> OsString {
    let mut words: Vec<String> = wrap.iter().map(|w| quoted(w)).collect();
    words.push(quoted(bin(tool).as_os_str()));
    words.extend(args.iter().map(|a| quoted(a)));
    let a = quoted(aux.as_os_str());
    format!("cd {} && {} >{a}/out 2>{a}/err </dev/null; echo $? >{a}/rc", quoted(cwd.as_os_str()), words.join(" ")).into()
}

struct HookDone {
    rc: i32,
    out: Vec<u8>,
    err: String,
}

fn hook_done(aux: &Path) -> Option<HookDone> {
    let rc = std::fs::read_to_string(aux.join("rc")).ok()?.trim().parse().ok()?;
    let _ = std::fs::remove_file(aux.join("rc"));
    Some(HookDone {
        rc,
        out: std::fs::read(aux.join("out")).unwrap_or_default(),
        err: clip(&String::from_utf8_lossy(&std::fs::read(aux.join("err")).unwrap_or_default()), 800),
    })
}

/// Names that somebody could take for a file of their own.
const LIKE: &[&str] = &[
    "B", "targe", "target~", ".target", "target.tmp", "target.orig", "target.rej", "ok", "target.bak", "#target#", ".target.swp", "target.new",
    "tmp", ".tmp", "target.temp", "target2", "target.lock", ".pw_patch", "pw_patch.tmp", "temp", "target.patched", ".target.tmp", "target.old",
];

/// At each step of one command another one runs from start to end.
fn c22_within(rng: &mut Rng, i: usize, ns: bool) -> Verdict {
    let s = stand()?;
    let d = &s.tree;
    let dir = d.join("dir");
    let aux2 = s.aux.join("second");
    mkdir(&dir)?;
    mkdir(&aux2)?;
    put(&dir.join("neighbour"), b"n")?;
    let wrap: Vec<OsString> = if ns { ["unshare", "-Urpf", "--kill-child", "--"].iter().map(|x| x.into()).collect() } else { vec![] };
    let what = i % 8;
    let shape = if matches!(what, 5 | 6) { 2 } else { rng.below(5) };
    let mut a = Job::any(rng, &s, "target", shape)?;
    let mut merged = None;
    // what the second command is
    let mut second: Option<Job> = None;
    let (tool, args): (&str, Vec<OsString>);
    let other = s.aux.join("static");
    let mut second_ok = true;
    let mut want_b: Option<Vec<u8>> = None;
    match what {
        0..=3 => {
            let name = *rng.pick(LIKE);
            let shape = rng.below(5);
            let b = Job::any(rng, &s, name, shape)?;
            want_b = b.new.clone();
            (tool, args) = ("pw_patch", b.args());
            second = Some(b);
        }
        4 => {
            // one that is bound to fail
            let name = *rng.pick(LIKE);
            let mut b = Job::any(rng, &s, name, 2)?;
            b.old = None;
            b.new = None;
            b.reset()?;
            second_ok = false;
            (tool, args) = ("pw_patch", b.args());
            second = Some(b);
        }
        5 => {
            put(&other, &some_pair(rng).0)?;
            (tool, args) = ("pw_diff", vec!["dir/target".into(), other.clone().into()]);
        }
        6 => {
            // two changes to one file, at different places
            let lines: Vec<String> = (0..40).map(|k| format!("line {k} of this case\n")).collect();
            let edit = |ks: &[usize]| -> Vec<u8> { lines.iter().enumerate().map(|(k, l)| if ks.contains(&k) { format!("changed {l}") } else { l.clone() }).collect::<String>().into_bytes() };
            let (k1, k2) = if rng.chance(1, 2) { (10, 30) } else { (28, 9) };
            let b = Job::of(rng, &s, "target", Some(edit(&[])), Some(edit(&[k2])))?;
            let rb = b.reverse;
            let base: Vec<usize> = if rb { vec![k2] } else { vec![] };
            let then: Vec<usize> = if rb { vec![] } else { vec![k2] };
            let with = |ks: &[usize], k: usize| -> Vec<usize> { ks.iter().copied().chain([k]).collect() };
            // the first one, from the same state
            a = Job::of(rng, &s, "target", Some(edit(&base)), Some(edit(&with(&base, k1))))?;
            if a.reverse {
                // it takes its change away again: both states have it before
                a.old = Some(edit(&with(&base, k1)));
                a.new = Some(edit(&base));
                merged = Some((edit(&then), edit(&with(&then, k1))));
            } else {
                merged = Some((edit(&with(&then, k1)), edit(&then)));
            }
            (tool, args) = ("pw_patch", b.args());
            second = Some(b);
        }
        _ => {
            // the same file added or removed twice
            let remove = rng.chance(1, 2);
            let mk = |rng: &mut Rng| -> Result<Job, Fault> {
                let shape = rng.below(2);
                let mut j = Job::any(rng, &s, "target", shape)?;
                let want_removal = |j: &Job| j.new.is_none();
                if want_removal(&j) != remove {
                    j.reverse = !j.reverse;
                    std::mem::swap(&mut j.old, &mut j.new);
                }
                Ok(j)
            };
            a = mk(rng)?;
            let mut b = mk(rng)?;
            if remove {
                b.old = a.old.clone();
            }
            (tool, args) = ("pw_patch", b.args());
            second = Some(b);
        }
    }
    let same = what >= 5;
    let reset = || -> Result<(), Fault> {
        for e in std::fs::read_dir(&dir).map_err(hio("read_dir"))?.flatten() {
            if e.file_name() != "neighbour" {
                std::fs::remove_file(e.path()).map_err(hio("clearing"))?;
            }
        }
        if let Some(b) = &second {
            if !same {
                b.reset()?;
            }
        }
        a.reset()
    };
    let mut c = a.cmd(d, &s.aux);
    c.wrap = wrap.clone();
    c.roots = vec![s._dir.0.clone()];
    c.log = true;
    let head = format!("{}\n{}\nat a step of it: {tool} {args:?}{}", c.show(), a.show(), second.as_ref().map_or(String::new(), |b| format!(": {}", b.show())));
    let f = |x: Fault| ctx_of(x, &head);
    reset()?;
    let base = c.run().map_err(f)?;
    if !base.ok() || held(&a.target) != a.new {
        return Err(f(format!("alone: {}, target={}", base.how(), show_opt(held(&a.target).as_deref())).into()));
    }
    if base.log.len() < 3 {
        return Err(Fault::Harness(format!("the monitor saw nothing: {:?}", base.log)));
    }
    let mut o = Outcome::new(head.as_bytes(), true);
    let mut seen: BTreeSet<(Vec<u8>, bool, bool)> = BTreeSet::new();
    c.hook = as_hook(&wrap, tool, &args, d, &aux2);
    let last = base.log.last().map_or(0, |e| e.n);
    let mut acts: Vec<(String, String)> = chosen(rng, &base.log).iter().map(|e| (format!("{}x", e.n), format!("before event {} {}", e.op, e.path))).collect();
    acts.push((format!("{last}X"), "after the last event".into()));
    c.log = false;
    for (act, at) in acts {
        reset()?;
        let t0 = snapshot(d)?;
        c.faults = act.clone();
        let g = |x: Fault| f(ctx_of(x, &format!("{at} ({act})")));
        let r = c.run().map_err(g)?;
        let Some(h) = hook_done(&aux2) else {
            return Err(Fault::Harness(format!("the second command was not run at {act}: {head}\n{}", r.how())));
        };
        let how = format!("first: {}; second: exit={} stderr={:?}", r.how(), h.rc, h.err);
        let now = held(&a.target);
        let mut except = vec![a.target.as_path()];
        if let Some(b) = &second {
            except.push(&b.target);
        }
        if let Some(x) = changed(&t0, &snapshot(d)?, &except) {
            return Err(g(format!("{x}; {how}").into()));
        }
        if !same {
            let b = second.as_ref().unwrap();
            if !r.ok() || now != a.new {
                return Err(g(format!("the first one's target holds {}; {how}", show_opt(now.as_deref())).into()));
            }
            if (h.rc == 0) != second_ok || held(&b.target) != want_b {
                return Err(g(format!("the second one's target holds {}; {how}", show_opt(held(&b.target).as_deref())).into()));
            }
            o.count("steps with a command on another file in the middle", 1);
            continue;
        }
        match what {
            5 => {
                if !r.ok() || now != a.new {
                    return Err(g(format!("the target holds {}; {how}", show_opt(now.as_deref())).into()));
                }
                if h.rc != 0 {
                    return Err(g(format!("the file could not be compared; {how}").into()));
                }
                let o2 = held(&other);
                let as_old = check_doc(&h.out, a.old.as_deref(), o2.as_deref(), Path::new("dir/target"));
                let as_new = check_doc(&h.out, a.new.as_deref(), o2.as_deref(), Path::new("dir/target"));
                if as_old.is_err() && as_new.is_err() {
                    return Err(g(format!("the comparison fits neither version of the file: {}; {how}", show_bytes(&h.out)).into()));
                }
                o.count(if as_old.is_ok() { "comparisons that saw the old version" } else { "comparisons that saw the new version" }, 1);
            }
            6 => {
                let (both, only_b) = merged.clone().unwrap();
                if !r.ok() || h.rc != 0 {
                    return Err(g(format!("the target holds {}; {how}", show_opt(now.as_deref())).into()));
                }
                let x = now.clone().unwrap_or_default();
                let k = if x == both {
                    "changes to one file: both made"
                } else if Some(&x) == a.new.as_ref() {
                    "changes to one file: the later writer's made"
                } else if x == only_b {
                    "changes to one file: the other's made"
                } else {
                    return Err(g(format!("the target holds no version that either makes: {}; {how}", show_opt(now.as_deref())).into()));
                };
                o.count(k, 1);
                seen.insert((x, r.ok(), h.rc == 0));
            }
            _ => {
                let b = second.as_ref().unwrap();
                let adds = a.new.is_some();
                if r.ok() == (h.rc == 0) {
                    return Err(g(format!("{} of two {} of one file succeeded; the target holds {}; {how}", if r.ok() { "both" } else { "none" }, if adds { "additions" } else { "removals" }, show_opt(now.as_deref())).into()));
                }
                let want = if r.ok() { &a.new } else { &b.new };
                if now != *want {
                    return Err(g(format!("the target holds {}, the one that succeeded makes it {}; {how}", show_opt(now.as_deref()), show_opt(want.as_deref())).into()));
                }
                o.count(if r.ok() { "the first of two succeeded" } else { "the second of two succeeded" }, 1);
            }
        }
        o.count("steps with a command on the same file in the middle", 1);
    }
    o.count("in process id spaces of their own (equal ids)", ns as u64);
    o.sample = Some(clip(&head, 300));
    Ok(o)
}

/// A command was killed and left its temporary file; the next one has the same process id.
fn c22_leftover(rng: &mut Rng, _i: usize) -> Verdict {
    let s = stand()?;
    let d = &s.tree;
    mkdir(&d.join("dir"))?;
    let a = Job::any(rng, &s, "target", 2)?;
    let mut c = a.cmd(d, &s.aux);
    c.wrap = ["unshare", "-Urpf", "--kill-child", "--"].iter().map(|x| x.into()).collect();
    c.roots = vec![s._dir.0.clone()];
    c.log = true;
    let head = format!("{}\n{}", c.show(), a.show());
    let f = |x: Fault| ctx_of(x, &head);
    let base = c.run().map_err(f)?;
    if !base.ok() || held(&a.target) != a.new {
        return Err(f(format!("alone: {}", base.how()).into()));
    }
    let mut o = Outcome::new(head.as_bytes(), true);
    let Some(ren) = base.log.iter().find(|e| e.op == "rename") else { return Ok(o) };
    for _ in 0..rng.range(1, 4) {
        a.reset()?;
        c.faults = format!("{}k", ren.n - rng.below(3).min(ren.n - 1));
        c.run().map_err(f)?;
    }
    if held(&a.target) != a.old {
        return Err(f("a killed command changed the target".into()));
    }
    c.faults.clear();
    let t0 = snapshot(d)?;
    let r = c.run().map_err(f)?;
    let t1 = snapshot(d)?;
    if !r.ok() || held(&a.target) != a.new {
        return Err(f(format!("after commands of the same process id were killed: {}, target={}", r.how(), show_opt(held(&a.target).as_deref())).into()));
    }
    if let Some(x) = changed(&t0, &t1, &[&a.target]) {
        return Err(f(format!("{x}; {}", r.how()).into()));
    }
    o.count("temporary files of killed commands in the way", (t0.len() - 2) as u64);
    Ok(o)
}

/// Many at once.
fn c22_parallel(rng: &mut Rng, _i: usize) -> Verdict {
    let s = stand()?;
    let d = &s.tree;
    let dir = d.join("dir");
    mkdir(&dir)?;
    put(&dir.join("neighbour"), b"n")?;
    let mut jobs: Vec<(Job, &'static str)> = vec![];
    let mut names: Vec<&str> = LIKE.to_vec();
    for _ in 0..rng.range(2, 6) {
        let n = names.swap_remove(rng.below(names.len()));
        let shape = rng.below(5);
        jobs.push((Job::any(rng, &s, n, shape)?, "alone"));
    }
    // one file, several places
    let lines: Vec<String> = (0..80).map(|k| format!("line {k} of this case\n")).collect();
    let m = rng.range(2, 5);
    let edit = |set: usize| -> Vec<u8> { lines.iter().enumerate().map(|(k, l)| if k % 16 == 8 && set >> (k / 16) & 1 == 1 { format!("changed {l}") } else { l.clone() }).collect::<String>().into_bytes() };
    for k in 0..m {
        let mut j = Job::of(rng, &s, "shared", Some(edit(0)), Some(edit(1 << k)))?;
        if j.reverse {
            j.reverse = false;
            std::mem::swap(&mut j.old, &mut j.new);
        }
        jobs.push((j, "shared"));
    }
    let versions: Vec<Vec<u8>> = (0..1usize << m).map(edit).collect();
    // one patch several times
    let k = rng.range(2, 4);
    let (before, after) = (edit(0), edit(5));
    for _ in 0..k {
        let mut j = Job::of(rng, &s, "twice", Some(before.clone()), Some(after.clone()))?;
        if j.reverse {
            j.reverse = false;
            std::mem::swap(&mut j.old, &mut j.new);
        }
        jobs.push((j, "twice"));
    }
    // one file added, one removed, several times
    for remove in [false, true] {
        let mut old = None;
        for _ in 0..rng.range(2, 4) {
            let mut j = Job::any(rng, &s, if remove { "removed" } else { "added" }, 0)?;
            if j.new.is_none() != remove {
                j.reverse = !j.reverse;
                std::mem::swap(&mut j.old, &mut j.new);
            }
            if remove {
                let o = old.get_or_insert_with(|| j.old.clone());
                j.old = o.clone();
            }
            jobs.push((j, if remove { "removed" } else { "added" }));
        }
    }
    for e in std::fs::read_dir(&dir).map_err(hio("read_dir"))?.flatten() {
        if e.file_name() != "neighbour" {
            std::fs::remove_file(e.path()).map_err(hio("clearing"))?;
        }
    }
    for (j, kind) in &jobs {
        if *kind != "shared" {
            j.reset()?;
        }
    }
    put(&dir.join("shared"), &versions[0])?;
    // the order they are started in
    for k in (1..jobs.len()).rev() {
        jobs.swap(k, rng.below(k + 1));
    }
    let log = s.aux.join("all events");
    let mut cmds = vec![];
    for (k, (j, _)) in jobs.iter().enumerate() {
        let aux = s.aux.join(format!("job {k}"));
        mkdir(&aux)?;
        let mut c = j.cmd(d, &aux);
        c.roots = vec![s._dir.0.clone()];
        c.shared_log = Some((log.clone(), format!("J{k}")));
        let mut slow = vec![];
        for op in ["open-r", "open-x", "open-t", "write", "chmod", "chown", "rename", "unlink", "close", "stat"] {
            if rng.chance(1, 2) {
                slow.push(format!("{op}:{}", rng.below(4000)));
            }
        }
        c.slow = slow.join(",");
        cmds.push(c);
    }
    let head = jobs.iter().zip(&cmds).enumerate().map(|(k, ((j, kind), c))| format!("J{k} ({kind}, delays {}): {}", c.slow, j.show())).collect::<Vec<_>>().join("\n");
    let f = |x: Fault| ctx_of(x, &head);
    let t0 = snapshot(d)?;
    let stop = AtomicBool::new(false);
    let strange: Mutex<Option<String>> = Mutex::new(None);
    let reads: Mutex<(u64, BTreeSet<u64>)> = Mutex::new((0, BTreeSet::new()));
    let results: Vec<Result<Done, Fault>> = std::thread::scope(|sc| {
        let runs: Vec<_> = cmds.iter().map(|c| sc.spawn(move || c.run())).collect();
        let watcher = sc.spawn(|| {
            while !stop.load(Ordering::Relaxed) {
                for (name, ok) in [("shared", &versions[..]), ("twice", &[before.clone(), after.clone()][..])] {
                    let x = held(&dir.join(name));
                    let mut r = reads.lock().unwrap();
                    r.0 += 1;
                    match &x {
                        Some(b) if ok.contains(b) => {
                            r.1.insert(hash_bytes(b));
                        }
                        _ => *strange.lock().unwrap() = Some(format!("a reader of {name:?} saw {}", show_opt(x.as_deref()))),
                    }
                }
            }
        });
        let r = runs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fault::Harness("a thread of the harness died".into())))).collect();
        stop.store(true, Ordering::Relaxed);
        let _ = watcher.join();
        r
    });
    let mut done = vec![];
    for r in results {
        done.push(r.map_err(f)?);
    }
    let how = || done.iter().enumerate().map(|(k, r)| format!("J{k} {}", r.how())).collect::<Vec<_>>().join("; ");
    if let Some(x) = strange.lock().unwrap().take() {
        return Err(f(format!("{x}\n{}", how()).into()));
    }
    let targets: Vec<&Path> = jobs.iter().map(|(j, _)| j.target.as_path()).collect();
    if let Some(x) = changed(&t0, &snapshot(d)?, &targets) {
        return Err(f(format!("{x}\n{}", how()).into()));
    }
    let mut o = Outcome::new(head.as_bytes(), true);
    for (kind, name) in [("shared", "shared"), ("twice", "twice"), ("added", "added"), ("removed", "removed")] {
        let mine: Vec<usize> = (0..jobs.len()).filter(|k| jobs[*k].1 == kind).collect();
        let ok: Vec<usize> = mine.iter().copied().filter(|k| done[*k].ok()).collect();
        let x = held(&dir.join(name));
        let bad = match kind {
            "shared" => ok.len() != mine.len() || !versions[1..].iter().any(|v| Some(v) == x.as_ref()),
            "twice" => ok.len() != mine.len() || x.as_ref() != Some(&after),
            _ => ok.len() != 1 || x != jobs[ok[0]].0.new,
        };
        if bad {
            return Err(f(format!("{kind}: {} of {} succeeded, the file holds {}\n{}", ok.len(), mine.len(), show_opt(x.as_deref()), how()).into()));
        }
        if kind == "shared" {
            let n = versions.iter().position(|v| Some(v) == x.as_ref()).unwrap_or(0).count_ones() as u64;
            o.count("changes to one file that were made", n);
            o.count("changes to one file that another writer undid", mine.len() as u64 - n);
        }
    }
    for (k, (j, kind)) in jobs.iter().enumerate() {
        if *kind == "alone" && (!done[k].ok() || held(&j.target) != j.new) {
            return Err(f(format!("J{k}: the target holds {}\n{}", show_opt(held(&j.target).as_deref()), how()).into()));
        }
    }
    // what the monitor saw
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let mut switches = 0u64;
    let mut order = String::new();
    let mut prev = "";
    for l in text.lines() {
        let mut w = l.split(' ');
        let (Some(tag), _, Some(op)) = (w.next(), w.next(), w.next()) else { continue };
        if op == "read" {
            continue;
        }
        if tag != prev {
            switches += 1;
            prev = tag;
        }
        order.push_str(tag);
        order.push_str(op);
    }
    if switches < 2 {
        return Err(Fault::Harness(format!("the monitor saw nothing: {}", clip(&text, 500))));
    }
    o = Outcome { hash: hash_bytes(order.as_bytes()), ..o };
    o.count("commands run at the same time", jobs.len() as u64);
    o.count("events seen", text.lines().count() as u64);
    o.count("switches from one command to another between events", switches);
    let r = reads.lock().unwrap();
    o.count("reads of files being changed", r.0);
    o.count("versions such reads saw", r.1.len() as u64);
    o.sample = Some(clip(&head, 300));
    Ok(o)
}

fn can_have_pid_space() -> bool {
    std::process::Command::new("unshare")
        .args(["-Urpf", "--kill-child", "--", "/bin/sh", "-c", "test $$ = 1"])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .is_ok_and(|s| s.success())
}

pub fn c22(c: &mut Ctx) {
    c.rule = "a distinct case is one pair of commands, the second run at each step of the first, or one order of the events of many commands at once; non-trivial: all".into();
    if let Err(Fault::Harness(e) | Fault::Bad(e)) = need_tools() {
        return c.harness_error(&e);
    }
    let ns = can_have_pid_space();
    c.note("can have process id spaces", ns as u64);
    c.stage("within", c.tier(240, 6000), c.tier(40, 900), |r, i| c22_within(r, i, false));
    if ns {
        c.stage("within-same-id", c.tier(48, 1200), c.tier(25, 600), |r, i| c22_within(r, i, true));
        c.stage("leftover", c.tier(60, 1200), c.tier(15, 300), c22_leftover);
    }
    c.stage_t("parallel", c.tier(150, 6000), c.tier(40, 1200), 4, c22_parallel);
}

// ---------------------------------------------------------------- C23

/// A situation for a command: files in a directory, operands, whether it must succeed.
struct Situation {
    tool: &'static str,
    operands: Vec<OsString>,
    reverse: bool,
    ctx: Option<u8>,
    /// None: it may do either
    success: Option<bool>,
    failed_hunks: Option<usize>,
    what: String,
}

fn copy_tree(from: &Path, to: &Path) -> Result<(), Fault> {
    let ok = std::process::Command::new("cp").arg("-a").arg(from).arg(to).status().map_err(hio("cp"))?.success();
    if ok { Ok(()) } else { Err(Fault::Harness(format!("cp -a {from:?} {to:?}"))) }
}

fn c23_situation(rng: &mut Rng, s: &Stand, i: usize) -> Result<Situation, Fault> {
    let d = &s.tree;
    let (mut a, mut b) = some_pair(rng);
    while a.len() > 1500 || b.len() > 1500 || a == b {
        (a, b) = some_pair(rng);
    }
    let mut z = Situation { tool: "pw_patch", operands: vec!["p".into()], reverse: false, ctx: None, success: Some(true), failed_hunks: None, what: String::new() };
    if i % 3 == 0 {
        z.tool = "pw_diff";
        z.operands = vec!["x".into(), "y".into()];
        z.ctx = if rng.chance(1, 2) { Some(any_context(rng)) } else { None };
        match i / 3 % 8 {
            0 | 1 | 2 => {
                put(&d.join("x"), &a)?;
                put(&d.join("y"), &b)?;
                z.what = "two files".into();
            }
            3 => {
                put(&d.join(if rng.chance(1, 2) { "x" } else { "y" }), &a)?;
                z.what = "one file".into();
            }
            4 => {
                z.success = Some(false);
                z.what = "no file".into();
            }
            5 => {
                mkdir(&d.join("x"))?;
                put(&d.join("y"), &b)?;
                z.success = Some(false);
                z.what = "a directory".into();
            }
            6 => {
                put(&d.join("x"), &a)?;
                std::os::unix::fs::symlink("y", d.join("y")).map_err(hio("symlink"))?;
                z.success = Some(false);
                z.what = "a link to itself".into();
            }
            _ => {
                put(&d.join("x"), &a)?;
                put(&d.join("y"), &a)?;
                z.what = "two equal files".into();
            }
        }
        return Ok(z);
    }
    let shape = rng.below(4);
    let (v1, v2) = match shape {
        0 => (None, Some(&b[..])),
        1 => (Some(&a[..]), None),
        _ => (Some(&a[..]), Some(&b[..])),
    };
    let target = d.join("f");
    let mut doc = make_patch(rng, OsStr::new("f"), &target, v1, v2, s, d)?;
    z.reverse = rng.chance(1, 2);
    let (old, new) = if z.reverse { (v2, v1) } else { (v1, v2) };
    set(&target, old)?;
    z.what = "a patch for the file there".into();
    match i / 3 % 8 {
        0 | 1 | 2 => (),
        3 | 4 => {
            // a target that is none of the versions
            if shape >= 2 {
                let t = match std::str::from_utf8(old.unwrap()) {
                    Ok(x) if rng.chance(2, 3) => {
                        let mut u = 0;
                        join(&normalise(crate::gen::edit(rng, &split_lines(x), 4, Alphabet::Small, &mut u))).into_bytes()
                    }
                    _ => some_pair(rng).0,
                };
                set(&target, Some(&t))?;
                let diff = read_doc(&doc)?.map_err(|e| Fault::Harness(e.to_string()))?;
                match library_result(&diff, &t, z.reverse)? {
                    Some((_, tally)) => {
                        z.success = Some(tally.failed == 0);
                        z.failed_hunks = Some(tally.failed).filter(|n| *n > 0);
                    }
                    None => z.success = Some(false),
                }
                z.what = "a patch for another version of the file".into();
            }
        }
        5 => {
            // nothing there, or something in the way
            z.success = Some(false);
            if old.is_some() {
                set(&target, None)?;
                z.what = "a patch for a file that is not there".into();
            } else {
                set(&target, Some(b"in the way"))?;
                z.what = "a file in the way".into();
            }
            let _ = new;
        }
        6 => {
            z.success = Some(false);
            doc.truncate(rng.below(doc.len()));
            z.what = "a patch cut short".into();
        }
        _ => {
            z.success = Some(false);
            z.operands = vec!["no such patch".into()];
            z.what = "no patch".into();
        }
    }
    put(&d.join("p"), &doc)?;
    Ok(z)
}

fn relative(t: &Tree, root: &Path) -> Vec<(PathBuf, char, u32, Vec<u8>)> {
    t.iter().map(|(p, n)| (p.strip_prefix(root).unwrap_or(p).to_path_buf(), n.kind, n.mode, n.data.clone())).collect()
}

fn c23_case(rng: &mut Rng, i: usize) -> Verdict {
    let s = stand()?;
    let z = c23_situation(rng, &s, i)?;
    let mut o = Outcome::default();
    let mut first: Option<(Done, Vec<(PathBuf, char, u32, Vec<u8>)>, String)> = None;
    let mut asked: Vec<&'static str> = vec![];
    for k in 0..7 {
        let d = s._dir.path(&format!("run{k}"));
        copy_tree(&s.tree, &d)?;
        let mut c = Cmd::new(z.tool, &d, &s.aux);
        let mut opts: Vec<OsString> = vec![];
        let mut quiet = true;
        if k > 0 && k != 3 {
            let v: &[&str] = rng.pick(&[&["-v"][..], &["-vv"], &["-vvv"], &["-vvvv"], &["-vvvvvvvv"], &["--verbose"], &["--verbose", "--verbose"], &["-v", "-v", "-v"], &["--verbose", "-vv"]]);
            quiet = false;
            opts.extend(v.iter().map(|x| x.into()));
            if rng.chance(1, 12) {
                let n = *rng.pick(&[127, 128, 199, 200, 250, 254, 255, 256, 257, 300, 511, 512, 700]);
                opts.push(format!("-{}", "v".repeat(n)).into());
            }
        }
        if z.reverse {
            let at = rng.below(opts.len() + 1);
            if k > 0 && rng.chance(1, 4) && opts.last().is_some_and(|x| x == "-v") {
                let n = opts.len();
                opts[n - 1] = if rng.chance(1, 2) { "-rv".into() } else { "-vr".into() };
            } else {
                opts.insert(at, if rng.chance(1, 2) { "-r".into() } else { "--reverse".into() });
            }
        }
        if let Some(n) = z.ctx {
            // the default may be left out or given
            let a = context_args(rng, Some(n));
            if rng.chance(1, 2) {
                opts.splice(0..0, a);
            } else {
                opts.extend(a);
            }
        } else if z.tool == "pw_diff" && k > 3 {
            opts.extend(context_args(rng, Some(2)));
        }
        let ops: Vec<&OsStr> = z.operands.iter().map(|x| x.as_os_str()).collect();
        c.args = with_operands(rng, opts, &ops);
        if k == 1 {
            c.env_log = Some(s.aux.join("env-asked"));
        }
        if k > 1 {
            // whatever it asks for, set to something
            for name in &asked {
                if rng.chance(2, 3) {
                    c.env.push((name, rng.pick(&["", "0", "1", "3", "200", "yes", "no", "x", "/", "/nonexistent", "-1", "always", "never"]).into()));
                }
            }
            for (name, values) in [
                ("RUST_LOG", &["trace", "off", "pw_patch=debug"][..]),
                ("LC_ALL", &["C", "de_DE.UTF-8", "tr_TR.UTF-8"]),
                ("TERM", &["dumb", "xterm", ""]),
                ("NO_COLOR", &["1"]),
                ("CLICOLOR_FORCE", &["1"]),
                ("RUST_BACKTRACE", &["1", "full"]),
                ("RAYON_NUM_THREADS", &["1", "3"]),
                ("TMPDIR", &["/nonexistent", "/"]),
                ("HOME", &["/nonexistent"]),
                ("POSIXLY_CORRECT", &["1"]),
                ("COLUMNS", &["1"]),
            ] {
                if rng.chance(1, 3) {
                    c.env.push((name, rng.pick(values).into()));
                }
            }
        }
        if k > 1 {
            c.dress(rng);
        }
        c.err = match k {
            4 => Out::Full,
            5 => Out::Closed,
            6 => Out::Terminal,
            _ => Out::Keep,
        };
        let head = format!("{}: {}", z.what, c.show());
        let f = |x: Fault| ctx_of(x, &format!("{head}\nfiles: {}", files_in(&s.tree)));
        let r = c.run().map_err(f)?;
        if k == 1 {
            let names = std::fs::read_to_string(s.aux.join("env-asked")).unwrap_or_default();
            let names: BTreeSet<&str> = names.lines().filter(|n| !n.is_empty() && !n.starts_with("LD_") && !n.contains('=')).collect();
            o.count("environment variables asked for, all tried", names.len() as u64);
            asked = names.into_iter().map(env_name).collect();
        }
        if r.signal.is_some() {
            return Err(f(format!("it crashed: {}", r.how()).into()));
        }
        if z.success.is_some_and(|x| x != r.ok()) {
            return Err(f(format!("{}; {}", if r.ok() { "it claims success" } else { "it failed" }, r.how()).into()));
        }
        if z.tool == "pw_patch" && !r.out.is_empty() {
            return Err(f(format!("it wrote to standard output: {}", show_bytes(&r.out)).into()));
        }
        if !r.ok() && !r.out.is_empty() {
            return Err(f(format!("it failed, yet wrote a document: {}; {}", show_bytes(&r.out), r.how()).into()));
        }
        if matches!(c.err, Out::Keep | Out::Terminal) {
            if !r.ok() && r.err.trim().is_empty() {
                return Err(f("it failed without a message".into()));
            }
            if r.err.contains("panicked at") {
                return Err(f(format!("it failed by crashing: {}", r.how()).into()));
            }
            if r.ok() && quiet && !r.err.is_empty() {
                return Err(f(format!("it succeeded, with a message: {}", r.how()).into()));
            }
            if let (Some(n), false) = (z.failed_hunks, r.ok()) {
                let nums: Vec<&str> = r.err.split(|c: char| !c.is_ascii_digit()).collect();
                if !nums.contains(&n.to_string().as_str()) {
                    return Err(f(format!("{n} hunks failed, which it does not say: {}", r.how()).into()));
                }
                o.count("messages that say how many hunks failed", 1);
            }
            o.count("runs with a terminal", (c.err == Out::Terminal || c.out == Out::Terminal) as u64);
            o.count(if r.ok() { "successful runs" } else { "failing runs with a message" }, 1);
        } else {
            o.count("runs whose messages could not be written", 1);
        }
        let t = relative(&snapshot(&d)?, &d);
        match &first {
            None => {
                if z.tool == "pw_diff" && r.ok() {
                    let (x, y) = (held(&s.tree.join("x")), held(&s.tree.join("y")));
                    check_doc(&r.out, x.as_deref(), y.as_deref(), Path::new("x")).map_err(f)?;
                }
                first = Some((r, t, head));
            }
            Some((r0, t0, head0)) => {
                let what = if r.code != r0.code {
                    format!("exit status {:?} instead of {:?}", r.code, r0.code)
                } else if r.out != r0.out {
                    format!("standard output differs: {} instead of {}", show_bytes(&r.out), show_bytes(&r0.out))
                } else if t != *t0 {
                    let x = t.iter().find(|e| !t0.contains(e)).or_else(|| t0.iter().find(|e| !t.contains(e)));
                    format!("files differ, such as {:?}", x.map(|(p, k, m, b)| (p, k, format!("{m:o}"), show_bytes(b))))
                } else {
                    String::new()
                };
                if !what.is_empty() {
                    return Err(f(format!("{what}\ncompared with: {head0}\n{}", r.how()).into()));
                }
                o.count("runs compared with a plain one", 1);
            }
        }
        std::fs::remove_dir_all(&d).map_err(hio("clearing"))?;
    }
    let (r0, _, head0) = first.unwrap();
    o.hash = hash_bytes(format!("{head0}{}", files_in(&s.tree)).as_bytes());
    o.nontrivial = true;
    o.count(if z.tool == "pw_diff" { "situations for pw_diff" } else { "situations for pw_patch" }, 1);
    o.sample = Some(clip(&format!("{head0} -> {}", r0.how()), 300));
    Ok(o)
}

fn env_name(n: &str) -> &'static str {
    static NAMES: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
    let mut names = NAMES.lock().unwrap();
    if let Some(x) = names.get(n) {
        return x;
    }
    let x: &'static str = Box::leak(n.to_string().into_boxed_str());
    names.insert(x);
    x
}

fn files_in(d: &Path) -> String {
    match snapshot(d) {
        Ok(t) => t.iter().map(|(p, n)| format!("{:?}={}", p.file_name().unwrap_or_default(), show_bytes(&n.data))).collect::<Vec<_>>().join(" "),
        Err(_) => String::new(),
    }
}

/// Every file system call of a run fails in turn: a failure is explained and the same whatever is said about it.
fn c23_faults(rng: &mut Rng, i: usize) -> Verdict {
    let s = stand()?;
    let z = c23_situation(rng, &s, if i % 3 == 0 { i / 9 * 24 + i % 9 } else { i })?;
    let d = s._dir.path("run");
    let mut o = Outcome::default();
    let once = |faults: &str, verbose: Option<&str>| -> Result<(Done, Tree, String), Fault> {
        copy_tree(&s.tree, &d)?;
        let mut c = Cmd::new(z.tool, &d, &s.aux);
        let mut opts: Vec<OsString> = verbose.map(|v| v.into()).into_iter().collect();
        if z.reverse {
            opts.push("-r".into());
        }
        c.args = opts.into_iter().chain(z.operands.iter().cloned()).collect();
        c.roots = vec![d.clone()];
        c.log = faults.is_empty();
        c.faults = faults.into();
        let head = format!("{}: {}", z.what, c.show());
        let r = c.run().map_err(|x| ctx_of(x, &format!("fault {faults}\n{head}")))?;
        let t = snapshot(&d)?;
        std::fs::remove_dir_all(&d).map_err(hio("clearing"))?;
        Ok((r, t, head))
    };
    let (base, _, head) = once("", None)?;
    for e in chosen(rng, &base.log) {
        let x = *rng.pick(errors_for(&e.op));
        let faults = format!("{}e{x}", e.n);
        let what = format!("fault {faults} at event {} {}\n{head}", e.op, e.path);
        let f = |m: String| -> Fault { format!("{m}\n{what}").into() };
        let (r, t, _) = once(&faults, None)?;
        if r.signal.is_some() || r.err.contains("panicked at") {
            return Err(f(format!("it crashed: {}", r.how())));
        }
        if r.failed() && r.err.trim().is_empty() {
            return Err(f("it fails and does not say why".into()));
        }
        if !r.out.is_empty() && (r.failed() || z.tool == "pw_patch") {
            return Err(f(format!("standard output: {}; {}", show_bytes(&r.out), r.how())));
        }
        let v = *rng.pick(&["-v", "-vv", "-vvv", "-vvvv", "-vvvvvv"]);
        let (r2, t2, _) = once(&faults, Some(v))?;
        if (r2.code, r2.signal, &r2.out) != (r.code, r.signal, &r.out) {
            return Err(f(format!("without {v}: {}\nwith {v}: {}", r.how(), r2.how())));
        }
        if r2.err.lines().count() < r.err.lines().count() {
            return Err(f(format!("with {v} it says less: {}\nwithout: {}", r2.how(), r.how())));
        }
        // (the name of a temporary file that cannot be removed differs)
        if e.op != "unlink" && relative(&t, &d) != relative(&t2, &d) {
            return Err(f(format!("the files left differ with {v}")));
        }
        o.count(if r.failed() { "failing calls: explained" } else { "failing calls: survived" }, 1);
    }
    o.hash = hash_bytes(format!("{head}{}", files_in(&s.tree)).as_bytes());
    o.nontrivial = true;
    o.sample = Some(clip(&head, 300));
    Ok(o)
}

/// Arguments that make no sense, and questions.
/// Patches that are complete documents, but whose numbers have nothing to do with each other or with any file.
fn c23_strange(rng: &mut Rng, _i: usize) -> Verdict {
    use serde_json::json;
    let s = stand()?;
    let d = &s.tree;
    let text = rng.chance(1, 2);
    let wild = rng.chance(1, 2);
    let n = rng.range(1, 4);
    let target = if text { (0..rng.below(8)).map(|_| *rng.pick(&["a\n", "b\n", "c\n"])).collect::<String>().into_bytes() } else { gen_bytes(rng, 8, 1) };
    put(&d.join("f"), &target)?;
    let clumps: Vec<serde_json::Value> = (0..n)
        .map(|_| {
            let side = |rng: &mut Rng| {
                let start = if wild && rng.chance(1, 2) { *rng.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 62, 1 << 61, 1 << 60, 1 << 32]) } else { rng.below(12) as u64 };
                let k = rng.below(6);
                let items: Vec<serde_json::Value> = (0..k).map(|_| if text { json!(*rng.pick(&["a\n", "b\n", "c\n", "", "a", "a\nb\n"])) } else { json!(rng.below(3) as u8 + b'a') }).collect();
                json!({"start": start, "items": items})
            };
            let (x, y) = (side(rng), side(rng));
            let ctx = if wild { [rng.below(256), rng.below(4)] } else { [rng.below(4), rng.below(4)] };
            json!({"context_lengths": ctx, "before": x, "after": y})
        })
        .collect();
    let doc = if text { json!({"TextChange": {"before_path": "f", "after_path": "g", "clumps": clumps}}) } else { json!({"ByteChange": {"before_path": "f", "after_path": "g", "compressed": false, "clumps": clumps}}) }.to_string();
    put(&d.join("p"), doc.as_bytes())?;
    let mut c = Cmd::new("pw_patch", d, &s.aux).arg("p");
    if rng.chance(1, 2) {
        c = c.arg("-r");
    }
    let head = format!("{}\npatch={doc}\nfile={}", c.show(), show_bytes(&target));
    let f = |x: Fault| ctx_of(x, &head);
    let t0 = snapshot(d)?;
    let r = c.run().map_err(f)?;
    if r.signal.is_some() || r.err.contains("panicked at") {
        return Err(f(format!("it failed by crashing: {}", r.how()).into()));
    }
    if !r.out.is_empty() || r.failed() == r.err.trim().is_empty() {
        return Err(f(format!("it wrote {} and says {:?}: {}", show_bytes(&r.out), r.err, r.how()).into()));
    }
    if let Some(x) = changed(&t0, &snapshot(d)?, &[&d.join("f")]) {
        return Err(f(x.into()));
    }
    let mut o = Outcome::new(doc.as_bytes(), true);
    o.count(if r.ok() { "strange patches applied" } else if r.err.contains("reading patch") { "strange patches refused" } else { "strange patches that do not apply" }, 1);
    o.sample = Some(clip(&head, 300));
    Ok(o)
}

fn c23_usage(rng: &mut Rng, i: usize) -> Verdict {
    let s = stand()?;
    let d = &s.tree;
    let tool = if i % 2 == 0 { "pw_diff" } else { "pw_patch" };
    for (n, line) in [("a", "x"), ("b", "y")] {
        let patch = format!(r#"{{"TextChange":{{"before_path":"{n}t","after_path":"new","clumps":[{{"context_lengths":[0,0],"before":{{"start":0,"items":["{line}\\n"]}},"after":{{"start":0,"items":["z\\n"]}}}}]}}}}"#);
        put(&d.join(n), patch.as_bytes())?;
        put(&d.join(format!("{n}t")), format!("{line}\n").as_bytes())?;
    }
    let bad: &[&[&str]] = if i % 2 == 0 {
        &[&[], &["a"], &["a", "b", "c"], &["-c", "a", "b"], &["-c", "-1", "a", "b"], &["-c", "256", "a", "b"], &["-c", "", "a", "b"], &["--context=two", "a", "b"], &["--nonsense", "a", "b"], &["-r", "a", "b"], &["-c1", "-c2", "a", "b"], &["-c", "1e2", "a", "b"], &["-v"], &["--verbose=3", "a", "b"], &["-c0x10", "a", "b"]]
    } else {
        &[&[], &["a", "b"], &["-r"], &["-r", "-r", "a"], &["--nonsense", "a"], &["-c", "1", "a"], &["--reverse=no", "a"], &["-x", "a"], &["--verbose=1", "a"], &["-", "-"], &["a", "a"], &["-v", "b", "a"], &["a", "nothing"], &["--", "a", "-r"]]
    };
    let help: &[&[&str]] = &[&["--help"], &["-h"], &["-v", "-h"], &["--help", "a"], &["a", "--help"]];
    let asked = rng.chance(1, 4);
    let args = if asked { *rng.pick(help) } else { bad[i / 2 % bad.len()] };
    let mut c = Cmd::new(tool, d, &s.aux);
    c.args = args.iter().map(|x| x.into()).collect();
    let head = c.show();
    let f = |x: Fault| ctx_of(x, &head);
    let t0 = snapshot(d)?;
    let r = c.run().map_err(f)?;
    if let Some(x) = changed(&t0, &snapshot(d)?, &[]) {
        return Err(f(x.into()));
    }
    if asked {
        if !r.ok() || r.out.is_empty() || !r.err.is_empty() {
            return Err(f(format!("asked for help: {} stdout={}", r.how(), show_bytes(&r.out)).into()));
        }
    } else if !r.failed() || !r.out.is_empty() || r.err.trim().is_empty() || r.err.contains("panicked at") {
        return Err(f(format!("senseless arguments: {} stdout={}", r.how(), show_bytes(&r.out)).into()));
    }
    let mut o = Outcome::new(format!("{tool}{args:?}").as_bytes(), true);
    o.count(if asked { "questions answered" } else { "senseless arguments refused" }, 1);
    Ok(o)
}

pub fn c23(c: &mut Ctx) {
    c.rule = "a distinct case is one situation (files, operands) run seven times with different options for messages, orders of arguments, environments and places for messages; non-trivial: all".into();
    if let Err(Fault::Harness(e) | Fault::Bad(e)) = need_tools() {
        return c.harness_error(&e);
    }
    let _ = Scratch::new();
    c.stage("said", c.tier(900, 20_000), c.tier(40, 900), c23_case);
    c.stage("faults", c.tier(60, 1500), c.tier(20, 400), c23_faults);
    c.stage("strange", c.tier(500, 20_000), c.tier(10, 300), c23_strange);
    c.stage("usage", c.tier(200, 1000), c.tier(15, 60), c23_usage);
}
