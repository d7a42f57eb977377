//! Hostile readers and writers, and scratch directories.

use std::io::{self, ErrorKind, Read, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

use crate::rng::Rng;
use crate::run::{scratch_root, Fault};

static NEXT: AtomicUsize = AtomicUsize::new(0);

/// A directory of this case's own, removed when dropped.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Result<Self, Fault> {
        Self::under(&scratch_root())
    }
    pub fn under(root: &Path) -> Result<Self, Fault> {
        let d = root.join(format!("{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).map_err(|e| Fault::Harness(format!("scratch {d:?}: {e}")))?;
        Ok(Scratch(d))
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
    pub fn put(&self, name: &str, bytes: &[u8]) -> Result<PathBuf, Fault> {
        let p = self.path(name);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).map_err(|e| Fault::Harness(format!("{d:?}: {e}")))?;
        }
        std::fs::write(&p, bytes).map_err(|e| Fault::Harness(format!("writing {p:?}: {e}")))?;
        Ok(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        if std::fs::remove_dir_all(&self.0).is_err() {
            // directories made unwritable by a case
            use std::os::unix::fs::PermissionsExt;
            fn open_up(d: &Path) {
                let _ = std::fs::set_permissions(d, std::fs::Permissions::from_mode(0o700));
                if let Ok(es) = std::fs::read_dir(d) {
                    for e in es.flatten() {
                        if e.file_type().is_ok_and(|t| t.is_dir()) {
                            open_up(&e.path());
                        }
                    }
                }
            }
            open_up(&self.0);
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Chunks {
    All,
    One,
    Fixed(usize),
    Random(usize),
}

impl Chunks {
    pub fn any(rng: &mut Rng) -> Self {
        match rng.below(5) {
            0 => Chunks::All,
            1 => Chunks::One,
            2 => Chunks::Fixed(rng.range(2, 9)),
            3 => Chunks::Fixed(*rng.pick(&[4095, 4096, 8191, 8192, 8193])),
            _ => Chunks::Random(*rng.pick(&[3, 17, 300, 9000])),
        }
    }
    fn size(&self, rng: &mut Rng) -> usize {
        match *self {
            Chunks::All => usize::MAX,
            Chunks::One => 1,
            Chunks::Fixed(n) => n,
            Chunks::Random(n) => rng.range(1, n),
        }
    }
}

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::StorageFull,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidInput,
];

/// Hands out its data in pieces, now and then interrupted; after `fail_at` bytes it fails (once or for good).
pub struct HostileReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub chunks: Chunks,
    pub interrupts: bool,
    pub fail_at: Option<(usize, ErrorKind)>,
    pub rng: Rng,
    pub calls: usize,
    pub interrupted: usize,
}

impl<'a> HostileReader<'a> {
    pub fn new(data: &'a [u8], chunks: Chunks, interrupts: bool, rng: &mut Rng) -> Self {
        HostileReader { data, pos: 0, chunks, interrupts, fail_at: None, rng: Rng::new(rng.next()), calls: 0, interrupted: 0 }
    }
}

impl Read for HostileReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupts && self.rng.chance(1, 3) {
            self.interrupted += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = self.chunks.size(&mut self.rng).min(buf.len()).min(self.data.len() - self.pos);
        if let Some((at, kind)) = self.fail_at {
            if self.pos >= at {
                return Err(kind.into());
            }
            n = n.min(at - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Takes data in pieces, now and then interrupted; it takes `fail_at` bytes in all and then fails.
/// `zero`: instead of failing it takes nothing (a full disk, as `write` may report it).
pub struct HostileWriter {
    pub got: Vec<u8>,
    pub chunks: Chunks,
    pub interrupts: bool,
    pub fail_at: Option<(usize, Option<ErrorKind>)>,
    /// fail only once: a caller that carries on leaves a hole, which shows in `got`
    pub once: bool,
    pub failed: usize,
    pub rng: Rng,
    pub calls: usize,
    pub interrupted: usize,
}

impl HostileWriter {
    pub fn new(chunks: Chunks, interrupts: bool, rng: &mut Rng) -> Self {
        HostileWriter { got: vec![], chunks, interrupts, fail_at: None, once: false, failed: 0, rng: Rng::new(rng.next()), calls: 0, interrupted: 0 }
    }
}

impl Write for HostileWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.rng.chance(1, 3) {
            self.interrupted += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = self.chunks.size(&mut self.rng).min(b.len());
        if let Some((at, kind)) = self.fail_at {
            if !(self.once && self.failed > 0) {
                if self.got.len() >= at {
                    self.failed += 1;
                    return match kind {
                        Some(k) => Err(k.into()),
                        None => Ok(0),
                    };
                }
                n = n.min(at - self.got.len());
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
