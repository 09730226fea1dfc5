//! Directories the checks create and remove.
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

/// A name for the file system.  U+FFFD stands for a byte that is no text (which is what such a byte is shown as).
pub fn os(name: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut bytes = Vec::with_capacity(name.len());
    for part in name.split_inclusive('\u{fffd}') {
        bytes.extend(part.trim_end_matches('\u{fffd}').bytes());
        if part.ends_with('\u{fffd}') {
            bytes.push(0xff);
        }
    }
    std::ffi::OsString::from_vec(bytes)
}
static NEXT: AtomicU64 = AtomicU64::new(0);
pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new() -> Self {
        let base = if Path::new("/dev/shm").is_dir() && std::env::var("VERIF_SCRATCH_TMP").is_err() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let name = format!("vharness-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed));
        let d = base.join(&name);
        let d = if std::fs::create_dir(&d).is_ok() { d } else { let d = std::env::temp_dir().join(&name); std::fs::create_dir(&d).expect("scratch directory"); d };
        Scratch(d)
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.0.join(os(name))
    }
    pub fn dir(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
