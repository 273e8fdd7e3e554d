//! Runs the built ti-tools binary on files in scratch directories, as an unprivileged user.

use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub const CPU_LIMIT: u64 = 30;
const WALL_LIMIT: u64 = 200;

#[derive(Clone)]
pub struct Env {
    pub bin: PathBuf,
    pub scratch: PathBuf,
    pub drop_uid: bool,
    pub shim: Option<PathBuf>,
    /// program that calls the library
    pub driver: Option<PathBuf>,
}

pub static RUNS: AtomicU64 = AtomicU64::new(0);
static COUNTER: AtomicU64 = AtomicU64::new(0);
static RUNNING: Mutex<BTreeMap<u32, Instant>> = Mutex::new(BTreeMap::new());
static TIMED_OUT: AtomicU64 = AtomicU64::new(0);

pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for (pid, start) in RUNNING.lock().unwrap().iter() {
            if start.elapsed().as_secs() > WALL_LIMIT {
                TIMED_OUT.fetch_add(1, Ordering::SeqCst);
                unsafe { libc::kill(*pid as i32, libc::SIGKILL) };
            }
        }
    });
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
}

impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// Ended by a panic or a signal.
    pub fn crashed(&self) -> bool {
        self.code.is_none() || self.code == Some(101)
    }
    /// Refused with an error status, not crashed.
    pub fn refused(&self) -> bool {
        !self.crashed() && !self.ok()
    }
    pub fn spun(&self) -> bool {
        self.signal == Some(libc::SIGXCPU)
    }
    pub fn brief(&self) -> String {
        let cut = |s: &str| s.chars().take(400).collect::<String>();
        format!("exit {:?} signal {:?} stdout {:?} stderr {:?}", self.code, self.signal, cut(&self.out), cut(&self.err))
    }
}

/// Limits and extra environment of one run.
#[derive(Default, Clone)]
pub struct Opt<'a> {
    pub stdin: &'a [u8],
    pub fsize: Option<u64>,
    /// do not die of SIGXFSZ, let the write fail
    pub ignore_xfsz: bool,
    pub env: Vec<(String, String)>,
    /// working directory below the case's directory
    pub cwd: &'a str,
    /// 0: as inherited
    pub umask: u32,
    /// what the program is called, if not by its path
    pub arg0: Option<&'a str>,
    /// standard input is a file and not a pipe
    pub stdin_file: bool,
    /// standard streams that are not open: bit 1 output, bit 2 errors
    pub closed: u8,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Node {
    File(Vec<u8>),
    Dir,
    Link(PathBuf),
    Other,
}

pub struct Dir<'e> {
    pub env: &'e Env,
    pub path: PathBuf,
}

impl Env {
    /// A new empty directory, removed when the case is done.
    pub fn dir(&self) -> Dir<'_> {
        let n = COUNTER.fetch_add(1, Ordering::SeqCst);
        let path = self.scratch.join(format!("c{n}"));
        std::fs::create_dir(&path).unwrap_or_else(|e| panic!("HARNESS: {path:?}: {e}"));
        let d = Dir { env: self, path };
        d.own(&d.path);
        d
    }
}

impl Drop for Dir<'_> {
    fn drop(&mut self) {
        assert!(self.path.is_absolute() && self.path.starts_with(&self.env.scratch));
        let _ = std::fs::remove_dir_all(&self.path);
    }
}

impl Dir<'_> {
    fn own(&self, p: &Path) {
        if self.env.drop_uid {
            let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
            unsafe { libc::lchown(c.as_ptr(), 65534, 65534) };
        }
    }
    pub fn at(&self, name: impl AsRef<Path>) -> PathBuf {
        self.path.join(name)
    }
    pub fn write(&self, name: impl AsRef<Path>, bytes: impl AsRef<[u8]>) {
        let p = self.at(name);
        std::fs::write(&p, bytes).unwrap_or_else(|e| panic!("HARNESS: {p:?}: {e}"));
        self.own(&p);
    }
    pub fn mkdir(&self, name: &str) {
        let p = self.at(name);
        std::fs::create_dir(&p).unwrap_or_else(|e| panic!("HARNESS: {p:?}: {e}"));
        self.own(&p);
    }
    pub fn symlink(&self, target: &str, name: &str) {
        let p = self.at(name);
        std::os::unix::fs::symlink(target, &p).unwrap_or_else(|e| panic!("HARNESS: {p:?}: {e}"));
        self.own(&p);
    }
    pub fn chmod(&self, name: &str, mode: u32) {
        use std::os::unix::fs::PermissionsExt;
        let p = self.at(name);
        assert!(p.starts_with(&self.env.scratch));
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode)).unwrap_or_else(|e| panic!("HARNESS: {p:?}: {e}"));
    }
    /// The permissions of a file, 0 if there is none.
    pub fn perm(&self, name: &str) -> u32 {
        use std::os::unix::fs::PermissionsExt;
        self.at(name).metadata().map_or(0, |m| m.permissions().mode() & 0o7777)
    }
    pub fn read(&self, name: &str) -> Option<Vec<u8>> {
        std::fs::read(self.at(name)).ok()
    }
    pub fn read_text(&self, name: &str) -> Option<String> {
        self.read(name).map(|b| String::from_utf8_lossy(&b).into_owned())
    }
    pub fn exists(&self, name: &str) -> bool {
        self.at(name).symlink_metadata().is_ok()
    }
    pub fn remove(&self, name: &str) {
        let p = self.at(name);
        assert!(p.starts_with(&self.env.scratch));
        let _ = std::fs::remove_file(p);
    }
    /// Every file below the directory, by relative path.
    pub fn snapshot(&self) -> BTreeMap<String, Node> {
        fn walk(root: &Path, p: &Path, out: &mut BTreeMap<String, Node>) {
            let mut entries: Vec<_> = match std::fs::read_dir(p) {
                Ok(d) => d.flatten().map(|e| e.path()).collect(),
                Err(_) => return,
            };
            entries.sort();
            for e in entries {
                let rel = e.strip_prefix(root).unwrap().to_string_lossy().into_owned();
                let node = match e.symlink_metadata() {
                    Ok(m) if m.file_type().is_symlink() => Node::Link(std::fs::read_link(&e).unwrap_or_default()),
                    Ok(m) if m.is_dir() => Node::Dir,
                    Ok(m) if m.is_file() => Node::File(std::fs::read(&e).unwrap_or_default()),
                    _ => Node::Other,
                };
                let is_dir = node == Node::Dir;
                out.insert(rel, node);
                if is_dir {
                    walk(root, &e, out);
                }
            }
        }
        let mut out = BTreeMap::new();
        walk(&self.path, &self.path, &mut out);
        out
    }
    pub fn run(&self, args: &[&str]) -> Run {
        self.run_opt(args, &Opt::default())
    }
    pub fn run_in(&self, args: &[&str], stdin: &str) -> Run {
        self.run_opt(args, &Opt { stdin: stdin.as_bytes(), ..Opt::default() })
    }
    pub fn run_opt<A: AsRef<std::ffi::OsStr> + std::fmt::Debug>(&self, args: &[A], opt: &Opt) -> Run {
        self.start(args, opt).finish()
    }
    /// As `run_opt`, also gives the paths the program used: W changed, L looked at, M looked at and missing.
    /// Its home and temporary directory are the case's.
    pub fn run_traced<A: AsRef<std::ffi::OsStr> + std::fmt::Debug>(&self, args: &[A], opt: &Opt) -> (Run, Vec<(char, PathBuf)>) {
        let Some(shim) = &self.env.shim else { panic!("HARNESS: no shim") };
        let logs = self.env.dir();
        let mut opt = opt.clone();
        let own = |k: &str, v: &Path| (k.to_string(), v.to_string_lossy().into_owned());
        if !opt.env.iter().any(|(k, _)| k == "LD_PRELOAD") {
            opt.env.push(own("LD_PRELOAD", shim));
        }
        opt.env.push(own("SHIM_PATHS", &logs.at("paths")));
        for k in ["HOME", "TMPDIR", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_CACHE_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR"] {
            if !opt.env.iter().any(|(n, _)| n == k) {
                opt.env.push(own(k, &self.path));
            }
        }
        let r = self.run_opt(args, &opt);
        let log = logs.read("paths").unwrap_or_default();
        let used = log.split(|b| *b == 0).filter(|b| b.len() > 1).map(|b| (b[0] as char, PathBuf::from(std::ffi::OsStr::from_bytes(&b[1..])))).collect();
        (r, used)
    }
    /// A path outside of the case's directory that was changed and is there.
    pub fn strayed(&self, used: &[(char, PathBuf)]) -> Option<PathBuf> {
        used.iter()
            .filter(|(k, _)| *k == 'W')
            .map(|(_, p)| tidy(p))
            .find(|p| !p.starts_with(&self.path) && !p.starts_with("/dev") && !p.starts_with("/proc") && p.symlink_metadata().is_ok())
    }
    /// Starts the program; it may stop itself (see the shim) and be continued.
    pub fn start<A: AsRef<std::ffi::OsStr> + std::fmt::Debug>(&self, args: &[A], opt: &Opt) -> Started {
        RUNS.fetch_add(1, Ordering::Relaxed);
        let mut c = Command::new(&self.env.bin);
        if let Some(name) = opt.arg0 {
            c.arg0(name);
        }
        let mut from_file = None;
        if opt.stdin_file && !opt.stdin.is_empty() {
            let n = COUNTER.fetch_add(1, Ordering::SeqCst);
            let path = self.env.scratch.join(format!("stdin{n}"));
            std::fs::write(&path, opt.stdin).unwrap_or_else(|e| panic!("HARNESS: {path:?}: {e}"));
            from_file = Some(std::fs::File::open(&path).unwrap_or_else(|e| panic!("HARNESS: {path:?}: {e}")));
            let _ = std::fs::remove_file(&path);
        }
        c.args(args)
            .current_dir(self.path.join(opt.cwd))
            .env_clear()
            .stdin(match from_file {
                Some(f) => f.into(),
                None if opt.stdin.is_empty() => Stdio::null(),
                None => Stdio::piped(),
            })
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        for (k, v) in &opt.env {
            c.env(k, v);
        }
        if self.env.drop_uid {
            c.uid(65534).gid(65534);
        }
        let fsize = opt.fsize.unwrap_or(256 << 20);
        let ignore = opt.ignore_xfsz;
        let umask = opt.umask;
        let closed = opt.closed;
        unsafe {
            c.pre_exec(move || {
                let lim = |r, v| {
                    let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                    libc::setrlimit(r, &l);
                };
                let l = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
                lim(libc::RLIMIT_FSIZE, fsize);
                lim(libc::RLIMIT_CORE, 0);
                lim(libc::RLIMIT_AS, 4 << 30);
                if umask != 0 {
                    libc::umask(umask);
                }
                for fd in 1..3 {
                    if closed >> fd & 1 == 1 {
                        libc::close(fd);
                    }
                }
                if ignore {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                }
                Ok(())
            });
        }
        let mut child = c.spawn().unwrap_or_else(|e| panic!("HARNESS: cannot start {:?}: {e}", self.env.bin));
        let pid = child.id();
        RUNNING.lock().unwrap().insert(pid, Instant::now());
        if let Some(mut s) = child.stdin.take() {
            let _ = s.write_all(opt.stdin);
        }
        Started { child, pid, what: format!("{args:?}"), before: TIMED_OUT.load(Ordering::SeqCst) }
    }
}

pub struct Started {
    child: std::process::Child,
    pid: u32,
    what: String,
    before: u64,
}
impl Started {
    /// Waits until the process has stopped itself (true) or ended (false).
    pub fn stopped(&self) -> bool {
        loop {
            let mut info: libc::siginfo_t = unsafe { std::mem::zeroed() };
            let r = unsafe { libc::waitid(libc::P_PID, self.pid, &mut info, libc::WSTOPPED | libc::WEXITED | libc::WNOWAIT) };
            if r == 0 {
                return info.si_code == libc::CLD_STOPPED;
            }
            if std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
                panic!("HARNESS: waitid: {}", std::io::Error::last_os_error());
            }
        }
    }
    pub fn go_on(&self) {
        unsafe { libc::kill(self.pid as i32, libc::SIGCONT) };
    }
    pub fn finish(self) -> Run {
        let Started { child, pid, what, before } = self;
        let out = child.wait_with_output().unwrap_or_else(|e| panic!("HARNESS: wait: {e}"));
        RUNNING.lock().unwrap().remove(&pid);
        if TIMED_OUT.load(Ordering::SeqCst) != before && out.status.signal() == Some(libc::SIGKILL) {
            panic!("HARNESS: {what} did not end within {WALL_LIMIT} s");
        }
        Run {
            code: out.status.code(),
            signal: out.status.signal(),
            out: String::from_utf8_lossy(&out.stdout).into_owned(),
            err: String::from_utf8_lossy(&out.stderr).into_owned(),
        }
    }
}

/// Without `.`, `..` and doubled separators.
pub fn tidy(p: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in p.components() {
        match c {
            std::path::Component::ParentDir => {
                out.pop();
            }
            std::path::Component::CurDir => {}
            c => out.push(c),
        }
    }
    out
}

/// Removes terminal styling.
pub fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}
