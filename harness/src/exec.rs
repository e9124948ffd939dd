//! Runs the nd binaries (one per CPU target and block size), isolated in a scratch directory.

use std::ffi::OsString;
use std::fs::{self, File};
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize, PartialOrd, Ord)]
pub enum Var {
    NaiveSmall,
    Avx2Small,
    NaiveReal,
    Avx2Real,
}

pub const VARS: [Var; 4] = [Var::NaiveSmall, Var::Avx2Small, Var::NaiveReal, Var::Avx2Real];

impl Var {
    pub fn name(self) -> &'static str {
        match self {
            Var::NaiveSmall => "x86-64-small",
            Var::Avx2Small => "x86-64-v3-small",
            Var::NaiveReal => "x86-64-real",
            Var::Avx2Real => "x86-64-v3-real",
        }
    }
    pub fn block(self) -> usize {
        match self {
            Var::NaiveSmall | Var::Avx2Small => 145,
            _ => 2 << 20,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub enum In {
    #[default]
    Null,
    /// a regular file in the scratch directory
    File(String),
    /// bytes written through a pipe by a helper thread
    Pipe(Vec<u8>),
    /// the same bytes again and again
    Endless(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Req {
    pub var: Var,
    pub args: Vec<OsString>,
    pub stdin: In,
    pub env: Vec<(String, String)>,
    /// settings for the LD_PRELOAD shim (None: not loaded)
    pub shim: Option<String>,
    pub stdout_path: Option<String>,
    /// standard output is a pipe, closed after this many bytes
    pub take: Option<usize>,
    /// RLIMIT_AS in bytes
    pub mem: u64,
    pub fsize: u64,
    /// files cannot grow beyond this many bytes: a write reaching there is a short one, the next one fails
    pub full_at: Option<u64>,
    /// which standard streams are a terminal (bits 0, 1, 2); what it shows is standard output, or error if only that is
    /// one; what is for a pipe as standard input is typed (no more than TYPED bytes)
    pub tty: u8,
}

impl Req {
    pub fn new(var: Var, args: Vec<String>) -> Self {
        Req {
            var,
            args: args.into_iter().map(OsString::from).collect(),
            stdin: In::Null,
            env: Vec::new(),
            shim: None,
            stdout_path: None,
            take: None,
            mem: 4 << 30,
            fsize: 256 << 20,
            full_at: None,
            tty: 0,
        }
    }
}

/// a terminal in raw mode: the master and the slave
fn terminal() -> std::io::Result<(File, File)> {
    use std::os::fd::{AsRawFd, FromRawFd};
    unsafe {
        let fd = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let m = File::from_raw_fd(fd);
        if libc::grantpt(m.as_raw_fd()) != 0 || libc::unlockpt(m.as_raw_fd()) != 0 {
            return Err(std::io::Error::last_os_error());
        }
        let mut name = [0 as libc::c_char; 64];
        if libc::ptsname_r(m.as_raw_fd(), name.as_mut_ptr(), name.len()) != 0 {
            return Err(std::io::Error::last_os_error());
        }
        let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if s < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let s = File::from_raw_fd(s);
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(s.as_raw_fd(), &mut t);
        libc::cfmakeraw(&mut t);
        libc::tcsetattr(s.as_raw_fd(), libc::TCSANOW, &t);
        Ok((m, s))
    }
}

pub const TYPED: usize = 3000;

/// types something, after which the input ends
fn type_in(m: &File, s: &File, b: &[u8]) -> std::io::Result<()> {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    let fd = s.as_raw_fd();
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(fd, &mut t);
        t.c_cc[libc::VMIN] = 0;
        t.c_cc[libc::VTIME] = 0;
        libc::tcsetattr(fd, libc::TCSANOW, &t);
    }
    let mut w: &File = m;
    w.write_all(b)?;
    for _ in 0..5000 {
        let mut n: libc::c_int = 0;
        unsafe { libc::ioctl(fd, libc::FIONREAD, &mut n) };
        if n as usize == b.len() {
            return Ok(());
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    Err(std::io::Error::other("not all arrives"))
}

#[derive(Clone, Debug)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    /// stopped by the CPU-time or wall-clock limit
    pub hung: bool,
    pub maxrss_kb: i64,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn panicked(&self) -> bool {
        let s = &self.stderr;
        self.code == Some(101)
            || self.signal.is_some()
            || s.windows(11).any(|w| w == b"panicked at")
            || s.windows(21).any(|w| w == b"memory allocation of ")
    }
    pub fn describe(&self) -> String {
        let e = String::from_utf8_lossy(&self.stderr);
        let e: String = e.chars().take(300).collect();
        format!("exit={:?} signal={:?} hung={} stderr={:?}", self.code, self.signal, self.hung, e)
    }
}

pub struct Exec {
    pub bins: PathBuf,
    pub shim: PathBuf,
    pub dir: PathBuf,
    pub execs: u64,
    pub have_avx2: bool,
    pub infra: Option<String>,
}

static SCRATCH: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();

/// the scratch directory of this process, created on first use, removed by `cleanup`
pub fn scratch() -> &'static Path {
    SCRATCH.get_or_init(|| {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let d = PathBuf::from(format!("{base}/ndv-{}", std::process::id()));
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).expect("cannot create the scratch directory");
        d
    })
}

pub fn cleanup() {
    if let Some(d) = SCRATCH.get() {
        let _ = fs::remove_dir_all(d);
    }
}

impl Exec {
    pub fn new(bins: &Path, shard: usize) -> Self {
        let dir = scratch().join(format!("w{shard}"));
        fs::create_dir_all(dir.join("d")).expect("cannot create the worker directory");
        fs::create_dir_all(dir.join("tmp")).expect("cannot create the worker directory");
        Exec {
            bins: bins.to_path_buf(),
            shim: bins.join("shim.so"),
            dir,
            execs: 0,
            have_avx2: bins.join(Var::Avx2Small.name()).exists(),
            infra: None,
        }
    }

    /// directory the program runs in
    pub fn cwd(&self) -> PathBuf {
        self.dir.join("d")
    }

    /// the variants that exist on this machine
    pub fn resolve(&self, v: Var) -> Var {
        match (v, self.have_avx2) {
            (Var::Avx2Small, false) => Var::NaiveSmall,
            (Var::Avx2Real, false) => Var::NaiveReal,
            (v, _) => v,
        }
    }

    pub fn reset(&mut self) {
        let d = self.cwd();
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).expect("cannot create the case directory");
    }

    pub fn put(&self, name: &str, data: &[u8]) {
        fs::write(self.cwd().join(name), data).expect("cannot write a case file");
    }

    pub fn get(&self, name: &str) -> Option<Vec<u8>> {
        fs::read(self.cwd().join(name)).ok()
    }

    pub fn ls(&self) -> Vec<String> {
        let mut v: Vec<String> = fs::read_dir(self.cwd())
            .map(|r| r.filter_map(|x| x.ok()).map(|x| x.file_name().to_string_lossy().into_owned()).collect())
            .unwrap_or_default();
        v.sort();
        v
    }

    pub fn run(&mut self, req: &Req) -> Out {
        let mut out = self.run_once(req, 6, 30);
        // nobody but the harness or the guard of the sandbox (short of memory) kills nd
        for i in 1..4 {
            if out.hung || out.signal != Some(libc::SIGKILL) {
                break;
            }
            std::thread::sleep(std::time::Duration::from_secs(i));
            out = self.run_once(req, 6, 30);
        }
        if out.hung {
            // confirm with much larger limits before calling it a hang
            out = self.run_once(req, 60, 180);
        }
        out
    }

    fn run_once(&mut self, req: &Req, cpu_s: u64, wall_s: u64) -> Out {
        self.execs += 1;
        let bin = self.bins.join(self.resolve(req.var).name());
        let so = self.dir.join("stdout");
        let se = self.dir.join("stderr");
        let mut c = Command::new(&bin);
        c.args(&req.args).current_dir(self.cwd()).env_clear().process_group(0);
        c.env("PATH", "/usr/local/bin:/usr/bin:/bin").env("LC_ALL", "C").env("TMPDIR", self.dir.join("tmp"));
        for (k, v) in &req.env {
            c.env(k, v);
        }
        if let Some(s) = &req.shim {
            c.env("LD_PRELOAD", &self.shim).env("NDV_SHIM", s);
        }
        let mut feeder = None;
        match &req.stdin {
            In::Null => {
                c.stdin(Stdio::null());
            }
            In::File(f) => {
                c.stdin(File::open(self.cwd().join(f)).expect("stdin file"));
            }
            In::Pipe(_) | In::Endless(_) => {
                c.stdin(Stdio::piped());
            }
        }
        match &req.stdout_path {
            None if req.take.is_some() => c.stdout(Stdio::piped()),
            Some(p) => c.stdout(fs::OpenOptions::new().write(true).open(p).expect("stdout path")),
            None => c.stdout(File::create(&so).expect("stdout file")),
        };
        let mut messages = None;
        match req.full_at {
            None => {
                c.stderr(File::create(&se).expect("stderr file"));
            }
            Some(v) => {
                // messages are not to be lost: they go to a pipe
                let mut fds = [0i32; 2];
                assert_eq!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
                use std::os::fd::FromRawFd;
                let (r, w) = unsafe { (File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1])) };
                c.stderr(w);
                messages = Some(r);
                unsafe {
                    c.pre_exec(move || {
                        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                        let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                        Ok(())
                    });
                }
            }
        }
        let mut screen = None;
        if req.tty != 0 {
            match terminal() {
                Ok((m, s)) => {
                    let d = |c: &mut Command, bit: u8| {
                        let f = s.try_clone().expect("terminal");
                        match bit {
                            0 => c.stdin(f),
                            1 => c.stdout(f),
                            _ => c.stderr(f),
                        };
                    };
                    (0..3).filter(|b| req.tty >> b & 1 == 1).for_each(|b| d(&mut c, b));
                    if let (In::Pipe(b), 1) = (&req.stdin, req.tty & 1) {
                        if let Err(e) = type_in(&m, &s, b) {
                            self.infra = Some(format!("cannot type {} bytes: {e}", b.len()));
                        }
                    }
                    screen = Some(m);
                }
                Err(e) => self.infra = Some(format!("no terminal: {e}")),
            }
        }
        let mut child = match c.spawn() {
            Ok(x) => x,
            Err(e) => {
                self.infra = Some(format!("cannot start {}: {e}", bin.display()));
                return Out { code: None, signal: None, stdout: vec![], stderr: vec![], hung: false, maxrss_kb: 0 };
            }
        };
        drop(c);
        let messages = messages.map(|mut r| {
            std::thread::spawn(move || {
                let mut v = Vec::new();
                let _ = r.read_to_end(&mut v);
                v
            })
        });
        // until the last one who has the terminal closes it
        let screen = screen.map(|mut m| {
            std::thread::spawn(move || {
                let mut v = Vec::new();
                let mut b = [0; 65536];
                while let Ok(n) = m.read(&mut b) {
                    if n == 0 {
                        break;
                    }
                    v.extend_from_slice(&b[..n]);
                }
                v
            })
        });
        let pid = child.id() as i32;
        let lim = |r: libc::__rlimit_resource_t, v: u64| unsafe {
            let l = libc::rlimit { rlim_cur: v, rlim_max: v };
            libc::prlimit(pid, r, &l, std::ptr::null_mut());
        };
        unsafe {
            // SIGXCPU first
            let l = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 5 };
            libc::prlimit(pid, libc::RLIMIT_CPU, &l, std::ptr::null_mut());
        }
        lim(libc::RLIMIT_AS, req.mem);
        if req.full_at.is_none() {
            lim(libc::RLIMIT_FSIZE, req.fsize);
        }
        lim(libc::RLIMIT_CORE, 0);
        lim(libc::RLIMIT_NOFILE, 1024);
        if let (In::Pipe(b), 0) = (&req.stdin, req.tty & 1) {
            let mut w = child.stdin.take().unwrap();
            if b.len() <= 60000 {
                use std::io::Write;
                let _ = w.write_all(b);
                drop(w);
            } else {
                let b = b.clone();
                feeder = Some(std::thread::spawn(move || {
                    use std::io::Write;
                    let _ = w.write_all(&b);
                }));
            }
        }
        if let In::Endless(b) = &req.stdin {
            let mut w = child.stdin.take().unwrap();
            let b: Vec<u8> = b.iter().copied().cycle().take(65536 / b.len().max(1) * b.len() + b.len()).collect();
            feeder = Some(std::thread::spawn(move || {
                use std::io::Write;
                while w.write_all(&b).is_ok() {}
            }));
        }
        let taker = req.take.map(|k| {
            let r = child.stdout.take().unwrap();
            std::thread::spawn(move || {
                let mut v = Vec::new();
                let _ = r.take(k as u64).read_to_end(&mut v);
                v
            })
        });
        let mut hung = false;
        unsafe {
            let fd = libc::syscall(libc::SYS_pidfd_open, pid, 0) as i32;
            if fd >= 0 {
                let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
                let deadline = std::time::Instant::now() + std::time::Duration::from_secs(wall_s);
                loop {
                    let left = deadline.saturating_duration_since(std::time::Instant::now());
                    let r = libc::poll(&mut p, 1, left.as_millis() as i32);
                    if r == 0 {
                        hung = true;
                        libc::kill(-pid, libc::SIGKILL);
                        libc::kill(pid, libc::SIGKILL);
                        break;
                    }
                    if r > 0 {
                        break;
                    }
                }
                libc::close(fd);
            }
        }
        let mut status = 0i32;
        let mut ru: libc::rusage = unsafe { std::mem::zeroed() };
        loop {
            let r = unsafe { libc::wait4(pid, &mut status, 0, &mut ru) };
            if r == pid {
                break;
            }
            if r < 0 && std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
                break;
            }
        }
        std::mem::forget(child); // already reaped
        unsafe { libc::kill(-pid, libc::SIGKILL) };
        if let Some(t) = feeder {
            let _ = t.join();
        }
        let st = std::process::ExitStatus::from_raw(status);
        if st.signal() == Some(libc::SIGXCPU) || (st.signal() == Some(libc::SIGKILL) && cpu_s as i64 <= ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + 3) {
            hung = true;
        }
        let rd = |p: &Path| -> Vec<u8> {
            let mut v = Vec::new();
            if let Ok(mut f) = File::open(p) {
                let _ = f.read_to_end(&mut v);
            }
            v
        };
        let mut shown = screen.map_or(vec![], |t| t.join().unwrap_or_default());
        Out {
            code: st.code(),
            signal: st.signal(),
            stdout: if req.tty & 2 != 0 { std::mem::take(&mut shown) } else if let Some(t) = taker { t.join().unwrap_or_default() } else if req.stdout_path.is_some() { vec![] } else { rd(&so) },
            stderr: if let Some(t) = messages { t.join().unwrap_or_default() } else if req.tty & 4 != 0 { shown } else { rd(&se) },
            hung,
            maxrss_kb: ru.ru_maxrss,
        }
    }
}
