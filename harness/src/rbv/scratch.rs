//! Helpers for checks that let the program touch files. Everything happens below the worker's scratch directory.
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

static N: AtomicU64 = AtomicU64::new(0);

pub fn work() -> PathBuf {
    PathBuf::from(std::env::var("RBV_WORK").expect("RBV_WORK"))
}

/// A name no other case uses.
pub fn unique() -> String {
    format!("c{}x{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst))
}

/// Removes a directory tree when dropped, also one with directories without permissions.
pub struct Gone(pub PathBuf);
impl Drop for Gone {
    fn drop(&mut self) {
        if std::fs::remove_dir_all(&self.0).is_err() {
            fix(&self.0);
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

fn fix(p: &std::path::Path) {
    use std::os::unix::fs::PermissionsExt;
    let md = match std::fs::symlink_metadata(p) {
        Ok(m) => m,
        Err(_) => return,
    };
    if md.is_dir() {
        let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755));
        for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
            fix(&e.path());
        }
    }
}

/// Limits the size of files this process can write, as a full disk would; restores the limit when dropped.
pub struct DiskLimit;
impl DiskLimit {
    pub fn set(bytes: u64) -> DiskLimit {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let mut rl: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut rl);
            rl.rlim_cur = bytes;
            assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &rl), 0);
        }
        DiskLimit
    }
}
impl Drop for DiskLimit {
    fn drop(&mut self) {
        unsafe {
            let mut rl: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut rl);
            rl.rlim_cur = rl.rlim_max;
            libc::setrlimit(libc::RLIMIT_FSIZE, &rl);
        }
    }
}
