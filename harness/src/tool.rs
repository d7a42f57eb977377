//! Running the command line tools under the monitor (shim) and looking at what they did to the file system.

use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::fs::File;
use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::run::{clip, Fault};

extern "C" {
    fn umask(mode: u32) -> u32;
    fn grantpt(fd: i32) -> i32;
    fn unlockpt(fd: i32) -> i32;
    fn ptsname_r(fd: i32, buf: *mut std::ffi::c_char, len: usize) -> i32;
    fn tcgetattr(fd: i32, t: *mut u8) -> i32;
    fn tcsetattr(fd: i32, how: i32, t: *const u8) -> i32;
    fn cfmakeraw(t: *mut u8);
}

/// A terminal: the end we hold and the command's end. `raw`: it changes nothing that is written to it.
fn terminal(raw: bool) -> std::io::Result<(File, File)> {
    use std::os::fd::AsRawFd;
    use std::os::unix::fs::OpenOptionsExt;
    const O_NOCTTY: i32 = 0o400;
    let ok = |r: i32| if r == 0 { Ok(()) } else { Err(std::io::Error::last_os_error()) };
    let ours = File::options().read(true).write(true).custom_flags(O_NOCTTY).open("/dev/ptmx")?;
    let mut name = [0 as std::ffi::c_char; 200];
    unsafe {
        ok(grantpt(ours.as_raw_fd()))?;
        ok(unlockpt(ours.as_raw_fd()))?;
        ok(ptsname_r(ours.as_raw_fd(), name.as_mut_ptr(), name.len()))?;
    }
    let name = unsafe { std::ffi::CStr::from_ptr(name.as_ptr()) };
    let theirs = File::options().read(true).write(true).custom_flags(O_NOCTTY).open(OsStr::from_bytes(name.to_bytes()))?;
    if raw {
        let mut t = [0u64; 64];
        unsafe {
            ok(tcgetattr(theirs.as_raw_fd(), t.as_mut_ptr().cast()))?;
            cfmakeraw(t.as_mut_ptr().cast());
            ok(tcsetattr(theirs.as_raw_fd(), 0, t.as_ptr().cast()))?;
        }
    }
    Ok((ours, theirs))
}

/// Collect what is written to a terminal until its other end is closed.
fn collect(mut ours: File) -> std::thread::JoinHandle<Vec<u8>> {
    std::thread::spawn(move || {
        let mut out = vec![];
        let mut b = [0u8; 8192];
        while let Ok(n @ 1..) = ours.read(&mut b) {
            out.extend_from_slice(&b[..n]);
        }
        out
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum In {
    Null,
    /// a file full of consent
    Answers,
    /// a terminal at which someone has typed consent and end of file
    Terminal,
    /// not open
    Closed,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Out {
    /// a file, read back afterwards
    Keep,
    /// the device that is always full
    Full,
    /// a file that is not open for writing
    ReadOnly,
    /// a pipe nobody reads
    Closed,
    /// a pipe whose reader goes away after so many bytes
    Cut(usize),
    /// a terminal, what is shown on it is collected
    Terminal,
}

pub struct Cmd {
    pub tool: &'static str,
    pub args: Vec<OsString>,
    pub cwd: PathBuf,
    pub aux: PathBuf,
    pub out: Out,
    pub faults: String,
    pub log: bool,
    pub log_stdout: bool,
    /// log who may read the open files (with `log`)
    pub modes: bool,
    pub roots: Vec<PathBuf>,
    pub umask: Option<u32>,
    pub uid: Option<u32>,
    pub env: Vec<(&'static str, OsString)>,
    /// where messages go
    pub err: Out,
    /// what to run the command with (a wrapper and its arguments)
    pub wrap: Vec<OsString>,
    /// a shell command for the monitor's actions x and X
    pub hook: OsString,
    /// delays by kind of call, for the monitor
    pub slow: String,
    /// a log shared with other commands, and this command's mark in it
    pub shared_log: Option<(PathBuf, String)>,
    /// where to note the names of the environment variables asked for
    pub env_log: Option<PathBuf>,
    pub input: In,
}

#[derive(Debug)]
pub struct Done {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
    pub log: Vec<Event>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Event {
    pub n: usize,
    pub op: String,
    pub path: String,
    pub size: i64,
    pub ret: i64,
    pub errno: i32,
}

pub fn bin(tool: &str) -> PathBuf {
    Path::new(&std::env::var("VH_BIN").unwrap_or_else(|_| "/verif/.build/repo/debug".into())).join(tool)
}

pub fn shim() -> PathBuf {
    PathBuf::from(std::env::var("VH_SHIM").unwrap_or_else(|_| "/verif/.build/shim.so".into()))
}

pub fn need_tools() -> Result<(), Fault> {
    for p in [bin("pw_diff"), bin("pw_patch"), shim()] {
        if !p.is_file() {
            return Err(Fault::Harness(format!("{p:?} has not been built")));
        }
    }
    Ok(())
}

/// `aux` is a directory for the command's output and the monitor's log; nothing there is judged.
impl Cmd {
    pub fn new(tool: &'static str, cwd: &Path, aux: &Path) -> Self {
        Cmd {
            tool,
            args: vec![],
            cwd: cwd.into(),
            aux: aux.into(),
            out: Out::Keep,
            faults: String::new(),
            log: false,
            log_stdout: false,
            modes: false,
            roots: vec![],
            umask: None,
            uid: None,
            env: vec![],
            err: Out::Keep,
            wrap: vec![],
            hook: OsString::new(),
            slow: String::new(),
            shared_log: None,
            env_log: None,
            input: In::Null,
        }
    }
    pub fn arg(mut self, a: impl AsRef<OsStr>) -> Self {
        self.args.push(a.as_ref().to_os_string());
        self
    }
    /// Terminals, or answers to questions nobody should ask
    pub fn dress(&mut self, rng: &mut crate::rng::Rng) {
        self.input = *rng.pick(&[In::Null, In::Null, In::Answers, In::Answers, In::Terminal, In::Closed]);
        if self.out == Out::Keep && rng.chance(1, 5) {
            self.out = Out::Terminal;
        }
        if self.err == Out::Keep && rng.chance(1, 5) {
            self.err = Out::Terminal;
        }
    }
    pub fn show(&self) -> String {
        format!(
            "{} {:?} cwd={:?} umask={:?} uid={:?} stdin={:?} stdout={:?} stderr={:?} env={:?}{}",
            self.tool,
            self.args,
            self.cwd,
            self.umask.map(|u| format!("{u:o}")),
            self.uid,
            self.input,
            self.out,
            self.err,
            self.env,
            if self.faults.is_empty() { String::new() } else { format!(" faults={}", self.faults) }
        )
    }
    pub fn run(&self) -> Result<Done, Fault> {
        let h = |e: std::io::Error| Fault::Harness(format!("running {}: {e}", self.show()));
        let (outp, errp, logp) = (self.aux.join("stdout"), self.aux.join("stderr"), self.aux.join("events"));
        let _ = std::fs::remove_file(&logp);
        let mut c = match self.wrap.split_first() {
            None => Command::new(bin(self.tool)),
            Some((w, rest)) => {
                let mut c = Command::new(w);
                c.args(rest).arg(bin(self.tool));
                c
            }
        };
        c.args(&self.args).current_dir(&self.cwd).env_clear().env("PATH", "/usr/bin:/bin").stdin(Stdio::null());
        for (k, v) in &self.env {
            c.env(k, v);
        }
        match self.out {
            Out::Keep => {
                c.stdout(File::create(&outp).map_err(h)?);
            }
            Out::Full => {
                c.stdout(File::options().write(true).open("/dev/full").map_err(h)?);
            }
            Out::Cut(_) | Out::Terminal => (),
            Out::ReadOnly => {
                c.stdout(File::open("/dev/null").map_err(h)?);
            }
            Out::Closed => {
                let (r, w) = std::io::pipe().map_err(h)?;
                drop(r);
                c.stdout(w);
            }
        }
        let mut reader = None;
        if let Out::Cut(n) = self.out {
            let (mut r, w) = std::io::pipe().map_err(h)?;
            c.stdout(w);
            reader = Some(std::thread::spawn(move || {
                let mut b = vec![0; n];
                let _ = r.read_exact(&mut b);
            }));
        }
        let mut keyboard = None;
        match self.input {
            In::Null => (),
            In::Closed if !self.wrap.is_empty() => (),
            In::Answers => {
                let p = self.aux.join("answers");
                std::fs::write(&p, "y\nyes\n1\n".repeat(300)).map_err(h)?;
                c.stdin(File::open(&p).map_err(h)?);
            }
            In::Terminal => {
                let (mut ours, theirs) = terminal(false).map_err(h)?;
                ours.write_all(b"y\ny\n\x04\x04\x04").map_err(h)?;
                keyboard = Some(ours);
                c.stdin(theirs);
            }
            In::Closed => unsafe {
                c.pre_exec(|| {
                    extern "C" {
                        fn close(fd: i32) -> i32;
                    }
                    close(0);
                    Ok(())
                });
            },
        }
        let (mut out_shown, mut err_shown) = (None, None);
        if self.out == Out::Terminal {
            let (ours, theirs) = terminal(true).map_err(h)?;
            c.stdout(theirs);
            out_shown = Some(collect(ours));
        }
        let errf = File::create(&errp).map_err(h)?;
        match self.err {
            Out::Full => {
                c.stderr(File::options().write(true).open("/dev/full").map_err(h)?);
            }
            Out::Closed => {
                let (r, w) = std::io::pipe().map_err(h)?;
                drop(r);
                c.stderr(w);
            }
            Out::Terminal => {
                let (ours, theirs) = terminal(true).map_err(h)?;
                c.stderr(theirs);
                err_shown = Some(collect(ours));
            }
            _ => {
                c.stderr(errf);
            }
        }
        if self.log || !self.faults.is_empty() || !self.slow.is_empty() || self.shared_log.is_some() || self.env_log.is_some() {
            c.env("LD_PRELOAD", shim()).env("VSHIM_FAULTS", &self.faults);
            if self.log {
                c.env("VSHIM_LOG", &logp);
            }
            if let Some(p) = &self.env_log {
                c.env("VSHIM_ENVLOG", p);
            }
            if let Some((p, tag)) = &self.shared_log {
                c.env("VSHIM_LOG", p).env("VSHIM_TAG", format!("{tag} "));
            }
            if !self.slow.is_empty() {
                c.env("VSHIM_SLOW", &self.slow);
            }
            if !self.hook.is_empty() {
                c.env("VSHIM_HOOK", &self.hook);
            }
            if self.modes {
                c.env("VSHIM_MODES", "1");
            }
            if self.log_stdout {
                c.env("VSHIM_STDOUT", "1");
            }
            let roots: Vec<&[u8]> = self.roots.iter().map(|p| p.as_os_str().as_bytes()).collect();
            c.env("VSHIM_ROOTS", OsStr::from_bytes(&roots.join(&b':')));
        }
        if let Some(u) = self.uid {
            c.uid(u).gid(u);
        }
        if let Some(u) = self.umask {
            unsafe {
                c.pre_exec(move || {
                    umask(u);
                    Ok(())
                });
            }
        }
        let mut child = c.spawn().map_err(h)?;
        drop(c);
        let t0 = Instant::now();
        let mut nap = 100;
        let status = loop {
            if let Some(s) = child.try_wait().map_err(h)? {
                break s;
            }
            if t0.elapsed() > Duration::from_secs(60) {
                let cpu = cpu_s(child.id());
                if cpu > 30.0 {
                    let _ = child.kill();
                    let _ = child.wait();
                    return Err(Fault::Bad(format!("the command does not terminate ({cpu:.0} s of CPU): {}", self.show())));
                }
                if t0.elapsed() > Duration::from_secs(400) {
                    let _ = child.kill();
                    let _ = child.wait();
                    return Err(Fault::Harness(format!("the command is still there after 400 s, with {cpu:.0} s of CPU: {}", self.show())));
                }
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 3 / 2).min(20_000);
        };
        if let Some(r) = reader {
            let _ = r.join();
        }
        let mut out = vec![];
        if self.out == Out::Keep {
            out = std::fs::read(&outp).map_err(h)?;
        }
        if let Some(r) = out_shown {
            out = r.join().unwrap_or_default();
        }
        drop(keyboard);
        let mut err = String::new();
        let mut bytes = vec![];
        if let Some(r) = err_shown {
            bytes = r.join().unwrap_or_default();
        }
        File::open(&errp).and_then(|mut f| f.read_to_end(&mut bytes)).map_err(h)?;
        err.push_str(&String::from_utf8_lossy(&bytes));
        let log = if self.log { parse_log(&std::fs::read(&logp).unwrap_or_default()) } else { vec![] };
        Ok(Done { code: status.code(), signal: status.signal(), out, err: clip(&err, 1500), log })
    }
}

fn cpu_s(pid: u32) -> f64 {
    let stat = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let Some((_, rest)) = stat.rsplit_once(") ") else { return 0.0 };
    let f: Vec<&str> = rest.split(' ').collect();
    let n = |i: usize| f.get(i).and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0);
    (n(11) + n(12)) / 100.0
}

fn parse_log(b: &[u8]) -> Vec<Event> {
    String::from_utf8_lossy(b)
        .lines()
        .filter_map(|l| {
            let f: Vec<&str> = l.split(' ').collect();
            Some(Event {
                n: f.first()?.parse().ok()?,
                op: f.get(1)?.to_string(),
                path: f.get(2)?.to_string(),
                size: f.get(3)?.parse().ok()?,
                ret: f.get(4)?.parse().ok()?,
                errno: f.get(5)?.parse().ok()?,
            })
        })
        .collect()
}

impl Done {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// It ended by itself, with failure.
    pub fn failed(&self) -> bool {
        self.code.is_some_and(|c| c != 0)
    }
    pub fn how(&self) -> String {
        format!("exit={:?} signal={:?} stderr={:?}", self.code, self.signal, self.err)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Node {
    pub kind: char,
    pub mode: u32,
    pub data: Vec<u8>,
    pub ino: u64,
    pub mtime: (i64, i64),
}

pub type Tree = BTreeMap<PathBuf, Node>;

/// Everything under a directory. (A directory's own times are no part of it.)
pub fn snapshot(root: &Path) -> Result<Tree, Fault> {
    fn walk(d: &Path, t: &mut Tree) -> std::io::Result<()> {
        for e in std::fs::read_dir(d)? {
            let p = e?.path();
            let m = std::fs::symlink_metadata(&p)?;
            let ft = m.file_type();
            let (kind, data) = if ft.is_dir() {
                ('d', vec![])
            } else if ft.is_symlink() {
                ('l', std::fs::read_link(&p)?.as_os_str().as_bytes().to_vec())
            } else if ft.is_file() {
                ('f', std::fs::read(&p)?)
            } else {
                ('?', vec![])
            };
            let dir = ft.is_dir();
            t.insert(
                p.clone(),
                Node {
                    kind,
                    mode: m.permissions().mode() & 0o7777,
                    data,
                    ino: m.ino(),
                    mtime: if dir { (0, 0) } else { (m.mtime(), m.mtime_nsec()) },
                },
            );
            if dir {
                walk(&p, t)?;
            }
        }
        Ok(())
    }
    let mut t = Tree::new();
    walk(root, &mut t).map_err(|e| Fault::Harness(format!("snapshot of {root:?}: {e}")))?;
    Ok(t)
}

/// What differs, other than at `except`.
pub fn changed(before: &Tree, after: &Tree, except: &[&Path]) -> Option<String> {
    for (p, n) in before {
        if except.contains(&p.as_path()) {
            continue;
        }
        match after.get(p) {
            None => return Some(format!("{p:?} is gone")),
            Some(m) if m != n => {
                let what = if m.data != n.data {
                    format!("its contents changed from {} to {}", crate::util::show_bytes(&n.data), crate::util::show_bytes(&m.data))
                } else if m.mode != n.mode {
                    format!("its mode changed from {:o} to {:o}", n.mode, m.mode)
                } else {
                    "it was rewritten or replaced".to_string()
                };
                return Some(format!("{p:?} was touched: {what}"));
            }
            _ => (),
        }
    }
    for (p, n) in after {
        if !before.contains_key(p) && !except.contains(&p.as_path()) {
            return Some(format!("{p:?} is new ({} bytes)", n.data.len()));
        }
    }
    None
}

/// An unprivileged user can be had here.
pub fn can_drop_privileges() -> bool {
    Command::new("/bin/true").uid(65534).gid(65534).status().is_ok_and(|s| s.success())
}
