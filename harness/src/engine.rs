//! Exhaustive exploration engine.
//!
//! A check is a list of finite, index-addressable *spaces*. Every index of
//! every space is executed, by worker processes which take blocks of indices.
//! A worker publishes the index it is working on in shared memory, so that a
//! crash, an abort, a stack overflow or a hang of the code under test can be
//! attributed to exactly one case. Anything found is re-run in a fresh process
//! before it is reported.

use std::cell::RefCell;
use std::ffi::CString;
use std::fs;
use std::io::Read;
use std::os::unix::io::FromRawFd;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub enum Verdict {
    /// The property held; `true` if the case was non-trivial.
    Pass(bool),
    Fail(String),
}

pub fn pass(nontrivial: bool) -> Verdict {
    Verdict::Pass(nontrivial)
}

pub type RunFn = Box<dyn Fn(u64, &mut Ctx) -> Verdict>;

pub struct Space {
    pub name: String,
    pub rule: String,
    pub total: u64,
    pub run: RunFn,
    /// seconds a single case may take
    pub limit: f64,
}

impl Space {
    pub fn new<F>(name: &str, rule: &str, total: u64, run: F) -> Space
    where
        F: Fn(u64, &mut Ctx) -> Verdict + 'static,
    {
        Space {
            name: name.to_owned(),
            rule: rule.to_owned(),
            total,
            run: Box::new(run),
            limit: 10.0,
        }
    }
    pub fn limit(mut self, s: f64) -> Space {
        self.limit = s;
        self
    }
}

pub struct Ctx {
    pub dir: PathBuf,
    pub cli_bin: PathBuf,
    pub verbose: bool,
    pub log: Vec<String>,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub written: Vec<PathBuf>,
    /// When set, every program assembled is also expanded, and the expansion assembled.
    pub expanding: Option<Expanding>,
}

#[derive(Default)]
pub struct Expanding {
    pub compared: u64,
    pub problem: Option<String>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Asm {
    Ok(Vec<u8>),
    Err(String),
    Panic(String),
}

impl Asm {
    pub fn show(&self) -> String {
        match self {
            Asm::Ok(b) => format!("success, {} bytes: {}", b.len(), hex(b)),
            Asm::Err(e) => format!("rejected: {}", trunc(e, 400)),
            Asm::Panic(e) => format!("PANIC: {}", e),
        }
    }
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_owned()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("...");
        t
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i >= 96 {
            s.push_str(" ...");
            break;
        }
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn diff(a: &[u8], b: &[u8]) -> String {
    let mut i = 0;
    while i < a.len() && i < b.len() && a[i] == b[i] {
        i += 1;
    }
    format!(
        "lengths {} and {}, first difference at {:#x}: {:?} vs {:?}",
        a.len(),
        b.len(),
        i,
        a.get(i).map(|x| format!("{:02x}", x)),
        b.get(i).map(|x| format!("{:02x}", x))
    )
}

#[derive(Debug, Clone)]
pub struct CliOut {
    /// exit status; 128+n for a signal
    pub code: i32,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}

impl CliOut {
    pub fn out_s(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
    pub fn err_s(&self) -> String {
        String::from_utf8_lossy(&self.err).into_owned()
    }
    /// Ended in a way a user would call a crash.
    pub fn crashed(&self) -> bool {
        self.code >= 101
    }
}

static mut CAPTURE: i32 = -1;

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        PANIC_MSG.with(|m| *m.borrow_mut() = msg);
    }));
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|m| m.borrow().clone())
}

impl Ctx {
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            let s = f();
            self.log.push(s);
        }
    }

    /// Writes a file below the scratch directory (relative name), creating directories.
    pub fn put(&mut self, name: &str, contents: &[u8]) -> PathBuf {
        let p = self.dir.join(name);
        if fs::write(&p, contents).is_err() {
            if let Some(d) = p.parent() {
                let _ = fs::create_dir_all(d);
            }
            fs::write(&p, contents).expect("scratch file");
        }
        if self.verbose {
            let body = match std::str::from_utf8(contents) {
                Ok(t) => trunc(t, 3000),
                Err(_) => format!("(binary, {} bytes) {}", contents.len(), hex(contents)),
            };
            self.log.push(format!("--- file {}\n{}", name, body));
        }
        p
    }

    pub fn clean(&mut self) {
        let _ = fs::remove_dir_all(&self.dir);
        let _ = fs::create_dir_all(&self.dir);
    }

    /// Assembles a file through the library entry point.
    pub fn assemble_path(&mut self, path: &Path) -> Asm {
        let a = self.assemble_only(path);
        if self.expanding.is_some() {
            if let Asm::Ok(b) = &a {
                let r = self.check_expansion(path, b);
                let e = self.expanding.as_mut().unwrap();
                e.compared += 1;
                if let (Err(m), None) = (r, &e.problem) {
                    e.problem = Some(m);
                }
            }
        }
        a
    }

    fn check_expansion(&mut self, path: &Path, want: &[u8]) -> Result<(), String> {
        let text = self.in_process(&["expand", path.to_str().unwrap()])?;
        self.note(|| format!("--- expansion:\n{}", trunc(&String::from_utf8_lossy(&text), 3000)));
        if let Ok(t) = std::str::from_utf8(&text) {
            for l in t.split('\n') {
                let l = l.trim_start().to_lowercase();
                let w: String = l.chars().take_while(|c| !c.is_whitespace() && *c != '"').collect();
                if w == ".include" || w == "%macro" || w == "%end" {
                    return Err(format!("the expansion contains {:?}", l));
                }
            }
        } else {
            return Err("the expansion is not UTF-8".into());
        }
        let p = self.dir.join("expansion.s");
        fs::write(&p, &text).expect("scratch file");
        match self.assemble_only(&p) {
            Asm::Ok(b) if b == want => Ok(()),
            Asm::Ok(b) => Err(format!("the expansion assembles to other bytes: {}", diff(want, &b))),
            a => Err(format!("the expansion does not assemble: {}", a.show())),
        }
    }

    /// Runs a command that is expected to succeed in this process, capturing its standard
    /// output. (If it ends the process, that is attributed to the case.)
    pub fn in_process(&mut self, args: &[&str]) -> Result<Vec<u8>, String> {
        let argv: Vec<String> = std::iter::once("waterbear").chain(args.iter().cloned()).map(|s| s.to_owned()).collect();
        use std::io::Write;
        unsafe {
            if CAPTURE == -1 {
                CAPTURE = memfd();
            }
            libc::ftruncate(CAPTURE, 0);
            libc::lseek(CAPTURE, 0, libc::SEEK_SET);
            let saved = libc::dup(1);
            libc::dup2(CAPTURE, 1);
            let r = std::panic::catch_unwind(move || waterbear::run_command(&argv));
            let _ = std::io::stdout().flush();
            libc::dup2(saved, 1);
            libc::close(saved);
            if r.is_err() {
                return Err(format!("PANIC: {}", last_panic()));
            }
            let n = libc::lseek(CAPTURE, 0, libc::SEEK_END);
            libc::lseek(CAPTURE, 0, libc::SEEK_SET);
            let mut v = vec![0u8; n as usize];
            let mut k = 0;
            while k < v.len() {
                let m = libc::read(CAPTURE, v[k..].as_mut_ptr() as *mut libc::c_void, v.len() - k);
                if m <= 0 {
                    break;
                }
                k += m as usize;
            }
            Ok(v)
        }
    }

    fn assemble_only(&mut self, path: &Path) -> Asm {
        let p = path.to_str().unwrap().to_owned();
        let r = std::panic::catch_unwind(move || {
            let mut files = waterbear::files::SourceFiles::new();
            waterbear::assemble_file(&mut files, &p).map_err(|e| format!("{:?}", e))
        });
        let a = match r {
            Ok(Ok(b)) => Asm::Ok(b),
            Ok(Err(e)) => Asm::Err(e),
            Err(_) => Asm::Panic(last_panic()),
        };
        if self.verbose {
            let s = a.show();
            self.log.push(format!("--- assemble {}: {}", path.display(), s));
        }
        a
    }

    pub fn assemble(&mut self, text: &str) -> Asm {
        let p = self.put("t.s", text.as_bytes());
        self.assemble_path(&p)
    }

    /// Runs the command-line entry point in a forked child.
    pub fn cli(&mut self, args: &[&str]) -> CliOut {
        let r = self.cli_dir(args, None);
        r
    }

    pub fn cli_dir(&mut self, args: &[&str], cwd: Option<&Path>) -> CliOut {
        let argv: Vec<String> = std::iter::once("waterbear".to_owned())
            .chain(args.iter().map(|s| s.to_string()))
            .collect();
        let cwd = cwd.map(|p| p.to_owned());
        let out = run_forked(move || {
            if let Some(d) = &cwd {
                let _ = std::env::set_current_dir(d);
                std::env::set_var("PWD", d);
            }
            waterbear::run_command(&argv);
        });
        if self.verbose {
            self.log.push(format!(
                "--- waterbear {} -> exit {}\nstdout: {}\nstderr: {}",
                args.join(" "),
                out.code,
                trunc(&out.out_s(), 3000),
                trunc(&out.err_s(), 3000)
            ));
        }
        out
    }
}

/// Runs the real binary.
pub fn run_binary(bin: &Path, args: &[std::ffi::OsString], cwd: &Path, env: &[(&str, std::ffi::OsString)]) -> CliOut {
    use std::os::unix::process::ExitStatusExt;
    let mut c = std::process::Command::new(bin);
    c.args(args).current_dir(cwd).env("PWD", cwd).stdin(std::process::Stdio::null());
    for (k, v) in env {
        c.env(k, v);
    }
    let o = c.output().expect("the binary cannot be run");
    let code = o.status.code().unwrap_or_else(|| 128 + o.status.signal().unwrap_or(0));
    CliOut { code, out: o.stdout, err: o.stderr }
}

fn memfd() -> i32 {
    unsafe {
        let n = CString::new("o").unwrap();
        libc::memfd_create(n.as_ptr(), 0)
    }
}

fn read_fd(fd: i32) -> Vec<u8> {
    unsafe {
        libc::lseek(fd, 0, libc::SEEK_SET);
    }
    let mut f = unsafe { fs::File::from_raw_fd(fd) };
    let mut v = vec![];
    let _ = f.read_to_end(&mut v);
    v
}

pub fn decode_status(st: i32) -> i32 {
    if libc::WIFEXITED(st) {
        libc::WEXITSTATUS(st)
    } else {
        128 + libc::WTERMSIG(st)
    }
}

/// Runs `f` in a forked child with captured standard streams.
pub fn run_forked<F: FnOnce()>(f: F) -> CliOut {
    let o = memfd();
    let e = memfd();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let n = CString::new("/dev/null").unwrap();
            let z = libc::open(n.as_ptr(), libc::O_RDONLY);
            libc::dup2(z, 0);
            libc::dup2(o, 1);
            libc::dup2(e, 2);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        use std::io::Write;
        let _ = std::io::stdout().flush();
        let code = match r {
            Ok(_) => 0,
            Err(_) => {
                eprintln!("PANIC {}", last_panic());
                101
            }
        };
        unsafe { libc::_exit(code) }
    }
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            break;
        }
    }
    CliOut {
        code: decode_status(st),
        out: read_fd(o),
        err: read_fd(e),
    }
}

const MAXW: usize = 16;
const MAXS: usize = 256;
const MAXF: usize = 64;

#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    nfail: AtomicU64,
    fail: [[AtomicU64; 3]; MAXF],
    cur: [AtomicU64; MAXW],   // current global index + 1, 0 when idle
    end: [AtomicU64; MAXW],   // end of the block being worked on
    start: [AtomicU64; MAXW], // ms since epoch when the current case began
    evals: [AtomicU64; MAXS],
    nontriv: [AtomicU64; MAXS],
    states: AtomicU64,
    transitions: AtomicU64,
    validated: AtomicU64,
}

fn now_ms() -> u64 {
    let d = std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap();
    d.as_millis() as u64
}

fn mono_ms() -> u64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    (ts.tv_sec as u64) * 1000 + (ts.tv_nsec as u64) / 1_000_000
}

pub struct Failure {
    pub space: usize,
    pub idx: u64,
    pub kind: &'static str,
    pub message: String,
}

pub struct Report {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub per_space: Vec<(String, u64, u64, u64)>,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub failures: Vec<Failure>,
    pub unconfirmed: u64,
    pub complete: bool,
    pub samples: Vec<String>,
    pub wall: f64,
}

fn limits() {
    unsafe {
        let r = libc::rlimit {
            rlim_cur: 6 << 30,
            rlim_max: 6 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn quiet_streams() {
    unsafe {
        let n = CString::new("/dev/null").unwrap();
        let z = libc::open(n.as_ptr(), libc::O_RDWR);
        libc::dup2(z, 0);
        libc::dup2(z, 1);
        libc::dup2(z, 2);
    }
}

struct Engine<'a> {
    spaces: &'a [Space],
    base: Vec<u64>, // first global index of each space
    total: u64,
    sh: &'static Shared,
    scratch: PathBuf,
    cli_bin: PathBuf,
}

fn guarded(sp: &Space, i: u64, ctx: &mut Ctx) -> Verdict {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sp.run)(i, ctx))) {
        Ok(v) => v,
        Err(_) => Verdict::Fail(format!("panic while checking: {}", last_panic())),
    }
}

impl<'a> Engine<'a> {
    fn locate(&self, g: u64) -> (usize, u64) {
        let mut s = 0;
        while s + 1 < self.base.len() && self.base[s + 1] <= g {
            s += 1;
        }
        (s, g - self.base[s])
    }

    fn block_size(&self, s: usize) -> u64 {
        (self.spaces[s].total / 400).max(1).min(512)
    }

    fn ctx(&self, tag: &str) -> Ctx {
        let dir = self.scratch.join(tag);
        let _ = fs::create_dir_all(&dir);
        Ctx {
            dir,
            cli_bin: self.cli_bin.clone(),
            verbose: false,
            log: vec![],
            states: 0,
            transitions: 0,
            validated: 0,
            written: vec![],
            expanding: None,
        }
    }

    fn worker(&self, w: usize, resume: Option<(u64, u64)>) -> ! {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        }
        limits();
        quiet_streams();
        install_panic_hook();
        let mut ctx = self.ctx(&format!("w{}", w));
        std::env::set_current_dir(&ctx.dir).ok();
        std::env::set_var("PWD", &ctx.dir);
        let sh = self.sh;
        let mut pending = resume;
        loop {
            if sh.stop.load(SeqCst) != 0 {
                break;
            }
            let (from, to) = match pending.take() {
                Some(x) => x,
                None => {
                    // claim a block
                    let mut got = None;
                    let mut n = sh.next.load(SeqCst);
                    while n < self.total {
                        let (s, i) = self.locate(n);
                        let left = self.spaces[s].total - i;
                        let b = self.block_size(s).min(left);
                        match sh.next.compare_exchange(n, n + b, SeqCst, SeqCst) {
                            Ok(_) => {
                                got = Some((n, n + b));
                                break;
                            }
                            Err(m) => n = m,
                        }
                    }
                    match got {
                        Some(x) => x,
                        None => break,
                    }
                }
            };
            sh.end[w].store(to, SeqCst);
            for g in from..to {
                if sh.stop.load(SeqCst) != 0 {
                    break;
                }
                let (s, i) = self.locate(g);
                sh.start[w].store(mono_ms(), SeqCst);
                sh.cur[w].store(g + 1, SeqCst);
                let v = guarded(&self.spaces[s], i, &mut ctx);
                sh.evals[s].fetch_add(1, SeqCst);
                match v {
                    Verdict::Pass(nt) => {
                        if nt {
                            sh.nontriv[s].fetch_add(1, SeqCst);
                        }
                    }
                    Verdict::Fail(why) => {
                        let all = std::env::var_os("WBMC_DUMP");
                        if let Some(f) = &all {
                            use std::io::Write;
                            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(f) {
                                let _ = f.write_all(format!("{} {}: {}\n", self.spaces[s].name, i, why).as_bytes());
                            }
                        }
                        let k = sh.nfail.fetch_add(1, SeqCst) as usize;
                        if k < MAXF {
                            sh.fail[k][0].store(s as u64, SeqCst);
                            sh.fail[k][1].store(i, SeqCst);
                            sh.fail[k][2].store(1, SeqCst);
                        }
                        if k + 1 >= 12 && all.is_none() {
                            sh.stop.store(1, SeqCst);
                        }
                    }
                }
            }
            sh.cur[w].store(0, SeqCst);
            sh.states.fetch_add(ctx.states, SeqCst);
            sh.transitions.fetch_add(ctx.transitions, SeqCst);
            sh.validated.fetch_add(ctx.validated, SeqCst);
            ctx.states = 0;
            ctx.transitions = 0;
            ctx.validated = 0;
        }
        unsafe { libc::_exit(0) }
    }

    fn spawn(&self, w: usize, resume: Option<(u64, u64)>) -> i32 {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            self.worker(w, resume);
        }
        assert!(pid > 0, "fork failed");
        pid
    }

    /// Runs cases `from..=i` of a space in a fresh process. Returns the verdict on `i`.
    fn isolated(&self, s: usize, from: u64, i: u64, limit: f64) -> (Option<String>, &'static str, String) {
        let tag = format!("iso{}", std::process::id());
        let file = self.scratch.join("iso.txt");
        let _ = fs::remove_file(&file);
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            limits();
            quiet_streams();
            install_panic_hook();
            let mut ctx = self.ctx(&tag);
            std::env::set_current_dir(&ctx.dir).ok();
            std::env::set_var("PWD", &ctx.dir);
            for j in from..i {
                let _ = guarded(&self.spaces[s], j, &mut ctx);
            }
            ctx.verbose = true;
            let _ = fs::write(&file, b"R");
            let v = guarded(&self.spaces[s], i, &mut ctx);
            let text = match v {
                Verdict::Pass(_) => format!("P{}", ctx.log.join("\n")),
                Verdict::Fail(m) => format!("F{}\n{}", m, ctx.log.join("\n")),
            };
            let _ = fs::write(&file, text);
            unsafe { libc::_exit(0) }
        }
        let t0 = Instant::now();
        let mut st = 0;
        loop {
            let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
            if r == pid {
                break;
            }
            if t0.elapsed().as_secs_f64() > limit {
                unsafe {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                }
                return (
                    Some(format!("no answer within {} s", limit)),
                    "hang",
                    String::new(),
                );
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        let text = fs::read(&file).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        let code = decode_status(st);
        if code != 0 {
            return (
                Some(format!("the process died ({})", describe_code(code))),
                "crash",
                String::new(),
            );
        }
        if let Some(rest) = text.strip_prefix('F') {
            let mut it = rest.splitn(2, '\n');
            let m = it.next().unwrap_or("").to_owned();
            (Some(m), "mismatch", rest.to_owned())
        } else {
            (None, "pass", text.chars().skip(1).collect())
        }
    }
}

pub fn describe_code(code: i32) -> String {
    match code {
        134 => "SIGABRT: abort, stack overflow or out of memory".to_owned(),
        139 => "SIGSEGV".to_owned(),
        101 => "panic".to_owned(),
        c if c >= 128 => format!("signal {}", c - 128),
        c => format!("exit status {}", c),
    }
}

pub fn explore(spaces: &[Space], scratch: &Path, cli_bin: &Path, budget_s: f64) -> Report {
    let t0 = Instant::now();
    assert!(spaces.len() <= MAXS);
    let sh: &'static Shared = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    };
    let mut base = vec![];
    let mut total = 0;
    for s in spaces {
        base.push(total);
        total += s.total;
    }
    let en = Engine {
        spaces,
        base,
        total,
        sh,
        scratch: scratch.to_owned(),
        cli_bin: cli_bin.to_owned(),
    };
    let nw = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .min(MAXW);
    let mut pids: Vec<i32> = (0..nw).map(|w| en.spawn(w, None)).collect();
    let mut raw: Vec<(usize, u64, &'static str)> = vec![];
    let mut complete = true;
    loop {
        let mut alive = false;
        for w in 0..nw {
            if pids[w] == 0 {
                continue;
            }
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[w], &mut st, libc::WNOHANG) };
            let mut dead: Option<&'static str> = None;
            if r == pids[w] {
                if decode_status(st) == 0 {
                    pids[w] = 0;
                    continue;
                }
                dead = Some("crash");
            } else {
                let c = sh.cur[w].load(SeqCst);
                if c > 0 {
                    let (s, _) = en.locate(c - 1);
                    let begun = sh.start[w].load(SeqCst);
                    let lim = (spaces[s].limit * 1000.0) as u64;
                    if mono_ms() > begun + lim && sh.cur[w].load(SeqCst) == c {
                        unsafe {
                            libc::kill(pids[w], libc::SIGKILL);
                            libc::waitpid(pids[w], &mut st, 0);
                        }
                        dead = Some("hang");
                    }
                }
            }
            if let Some(kind) = dead {
                let c = sh.cur[w].load(SeqCst);
                if c > 0 {
                    let (s, i) = en.locate(c - 1);
                    raw.push((s, i, kind));
                    sh.evals[s].fetch_add(1, SeqCst);
                    if raw.len() >= 4 {
                        sh.stop.store(1, SeqCst);
                    }
                    let end = sh.end[w].load(SeqCst);
                    pids[w] = en.spawn(w, if c < end { Some((c, end)) } else { None });
                } else {
                    pids[w] = en.spawn(w, None);
                }
            }
            alive = true;
        }
        if !alive {
            break;
        }
        if t0.elapsed().as_secs_f64() > budget_s && sh.stop.load(SeqCst) == 0 {
            complete = false;
            sh.stop.store(1, SeqCst);
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    if sh.next.load(SeqCst) < total {
        complete = false;
    }
    let n = (sh.nfail.load(SeqCst) as usize).min(MAXF);
    for k in 0..n {
        if sh.fail[k][2].load(SeqCst) != 0 {
            raw.push((
                sh.fail[k][0].load(SeqCst) as usize,
                sh.fail[k][1].load(SeqCst),
                "mismatch",
            ));
        }
    }
    raw.sort_by_key(|r| (r.0, r.1));
    // confirm
    let mut failures = vec![];
    let mut unconfirmed = 0;
    let mut hangs = 0;
    for (s, i, kind) in raw {
        if failures.len() >= 10 {
            break;
        }
        let mut lim = 30.0f64.max(spaces[s].limit * 2.0);
        if kind == "hang" {
            hangs += 1;
            if hangs > 3 {
                continue;
            }
        }
        let (mut m, mut k, mut detail) = en.isolated(s, i, i, lim);
        if m.is_none() {
            // only in the context of the cases before it?
            let b = en.block_size(s);
            let from = i - (i % b);
            if from < i {
                lim += 60.0;
                let r = en.isolated(s, from, i, lim);
                m = r.0;
                k = r.1;
                detail = format!(
                    "(only after running cases {}..{} in the same process)\n{}",
                    from, i, r.2
                );
            }
        }
        match m {
            Some(m) => failures.push(Failure {
                space: s,
                idx: i,
                kind: k,
                message: if detail.is_empty() { m } else { detail },
            }),
            None => unconfirmed += 1,
        }
    }
    // samples: the middle and a late case of up to six spaces
    let mut samples = vec![];
    let step = (spaces.len() + 5) / 6;
    for (s, sp) in spaces.iter().enumerate() {
        if sp.total == 0 || s % step.max(1) != 0 {
            continue;
        }
        let i = sp.total / 2;
        let (m, _, detail) = en.isolated(s, i, i, 60.0);
        samples.push(format!(
            "space {} case {}: {}{}",
            sp.name,
            i,
            m.map(|m| format!("[{}] ", m)).unwrap_or_default(),
            trunc(&detail, 900)
        ));
    }
    let per_space = spaces
        .iter()
        .enumerate()
        .map(|(s, sp)| {
            (
                sp.name.clone(),
                sp.total,
                sh.evals[s].load(SeqCst),
                sh.nontriv[s].load(SeqCst),
            )
        })
        .collect::<Vec<_>>();
    let evaluations = per_space.iter().map(|p| p.2).sum();
    let nontrivial = per_space.iter().map(|p| p.3).sum();
    let _ = now_ms();
    Report {
        evaluations,
        nontrivial,
        per_space,
        states: sh.states.load(SeqCst),
        transitions: sh.transitions.load(SeqCst),
        validated: sh.validated.load(SeqCst),
        failures,
        unconfirmed,
        complete,
        samples,
        wall: t0.elapsed().as_secs_f64(),
    }
}

pub fn replay(spaces: &[Space], scratch: &Path, cli_bin: &Path, name: &str, idx: u64) -> (bool, String) {
    let s = spaces.iter().position(|s| s.name == name).expect("no such space");
    let sh: &'static Shared = Box::leak(Box::new(unsafe { std::mem::zeroed() }));
    let en = Engine {
        spaces,
        base: vec![0; spaces.len()],
        total: 0,
        sh,
        scratch: scratch.to_owned(),
        cli_bin: cli_bin.to_owned(),
    };
    let (m, k, d) = en.isolated(s, idx, idx, 120.0);
    (
        m.is_none(),
        format!("{}: {}\n{}", k, m.unwrap_or_default(), d),
    )
}

/// Mixed-radix decoding of a case index.
pub struct Mix(pub u64);
impl Mix {
    pub fn take(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }
}
