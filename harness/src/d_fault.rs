//! D03: what a command says about its success is true whatever its system calls do.
//!
//! The command-line entry point runs in a forked child in which this executable's own `open`,
//! `read`, `write` and `lseek` take the place of the C library's. They count the calls on files
//! below the scratch directory and on standard output, write each to a log shared with the
//! parent, and inject the faults of a plan: errors, interruptions, short transfers, a write of
//! nothing, or the end of the process.

use crate::engine::*;
use crate::imgw::*;
use crate::{Check, Tier};
use std::path::{Path, PathBuf};
use std::sync::Arc;

const MAXLOG: usize = 1 << 14;

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
pub enum Op {
    None,
    Open,
    Read,
    Write,
    Seek,
}

/// What is done to a call.
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
pub enum Fault {
    No,
    /// EACCES, EIO, ENOSPC
    Error1,
    /// EMFILE, EISDIR, EIO
    Error2,
    /// ENOENT, ENOMEM, EPIPE
    Error3,
    /// EAGAIN where the call transfers data
    Again,
    Interrupt,
    /// one byte is transferred
    Short,
    /// half of the bytes are transferred
    Half,
    /// nothing is written
    Zero,
    /// the process is killed before the call
    Kill,
    /// the process is killed after half of the bytes are written
    KillHalf,
}

use Fault::*;

/// The faults that can happen to an operation.
fn faults(op: Op) -> &'static [Fault] {
    match op {
        Op::None => &[],
        Op::Open => &[Error1, Error2, Error3, Interrupt, Kill],
        Op::Read => &[Error1, Error2, Error3, Again, Interrupt, Short, Half, Kill],
        Op::Write => &[Error1, Error2, Error3, Again, Interrupt, Short, Half, Zero, Kill, KillHalf],
        Op::Seek => &[Error1, Kill],
    }
}

#[derive(Clone, Copy)]
#[repr(C)]
struct Entry {
    op: Op,
    fault: Fault,
    /// the log entry of the call that opened the file + 1; 0: standard output
    file: u32,
    /// open: whether for writing
    writes: bool,
    ok: bool,
    path: [u8; 100],
}

#[repr(C)]
struct State {
    active: bool,
    n: usize,
    plan: [(usize, Fault); 4],
    /// from this call on, every call that transfers data or opens files fails
    all_from: usize,
    /// every transfer is of at most so many bytes
    chunk: usize,
    /// every second call is interrupted
    interrupting: bool,
    interrupted: bool,
    root: [u8; 200],
    fds: [u32; 256],
    log: [Entry; MAXLOG],
}

static mut ST: *mut State = std::ptr::null_mut();
/// The process that runs commands with this state.
static mut OWNER: i32 = 0;

fn state() -> *mut State {
    unsafe {
        if ST.is_null() || OWNER != libc::getpid() {
            OWNER = libc::getpid();
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<State>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            ST = p as *mut State;
        }
        ST
    }
}

fn active() -> bool {
    unsafe { !ST.is_null() && (*ST).active }
}

unsafe fn fail(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}

unsafe fn sys(r: libc::c_long) -> isize {
    // syscall() sets errno itself
    r as isize
}

fn errno(op: Op, f: Fault) -> i32 {
    match (op, f) {
        (_, Interrupt) => libc::EINTR,
        (_, Again) => libc::EAGAIN,
        (Op::Open, Error1) => libc::EACCES,
        (Op::Open, Error2) => libc::EMFILE,
        (Op::Open, _) => libc::ENOENT,
        (Op::Write, Error1) => libc::ENOSPC,
        (Op::Write, Error2) => libc::EIO,
        (Op::Write, _) => libc::EPIPE,
        (_, Error2) => libc::EISDIR,
        (_, Error3) => libc::ENOMEM,
        _ => libc::EIO,
    }
}

/// Counts a call; returns the fault to inject and the index of its log entry.
unsafe fn count(op: Op, file: u32, path: Option<*const libc::c_char>, writes: bool) -> (Fault, usize) {
    let s = &mut *ST;
    let k = s.n;
    s.n += 1;
    let mut f = No;
    for (at, what) in s.plan {
        if at == k && faults(op).contains(&what) {
            f = what;
        }
    }
    if k >= s.all_from && op != Op::Seek {
        f = Error1;
    }
    if s.interrupting && f == No && (op == Op::Read || op == Op::Write || op == Op::Open) {
        s.interrupted = !s.interrupted;
        if s.interrupted {
            f = Interrupt;
        }
    }
    if k < MAXLOG {
        let e = &mut s.log[k];
        e.op = op;
        e.fault = f;
        e.file = file;
        e.writes = writes;
        e.ok = false;
        e.path[0] = 0;
        if let Some(p) = path {
            let mut j = 0;
            while j < e.path.len() - 1 && *p.add(j) != 0 {
                e.path[j] = *p.add(j) as u8;
                j += 1;
            }
            e.path[j] = 0;
        }
    }
    if f == Kill {
        libc::kill(libc::getpid(), libc::SIGKILL);
        loop {
            libc::pause();
        }
    }
    (f, k)
}

unsafe fn file_of(fd: libc::c_int) -> Option<u32> {
    let s = &*ST;
    if fd == 1 {
        return Some(0);
    }
    if fd > 2 && fd < 256 && s.fds[fd as usize] != 0 {
        return Some(s.fds[fd as usize]);
    }
    None
}

unsafe fn do_open(dir: libc::c_int, path: *const libc::c_char, flags: libc::c_int, mode: libc::c_uint) -> libc::c_int {
    let plain = |p: *const libc::c_char| sys(libc::syscall(libc::SYS_openat, dir, p, flags, mode)) as libc::c_int;
    if !active() || path.is_null() {
        return plain(path);
    }
    let s = &mut *ST;
    let mut inside = *path as u8 != b'/';
    if !inside {
        let mut j = 0;
        while s.root[j] != 0 && *path.add(j) as u8 == s.root[j] {
            j += 1;
        }
        inside = s.root[j] == 0;
    }
    if !inside {
        return plain(path);
    }
    let (f, k) = count(Op::Open, 0, Some(path), flags & libc::O_ACCMODE != libc::O_RDONLY);
    if f != No {
        return fail(errno(Op::Open, f)) as libc::c_int;
    }
    let fd = plain(path);
    if fd >= 0 {
        if k < MAXLOG {
            s.log[k].ok = true;
        }
        if fd < 256 {
            s.fds[fd as usize] = k as u32 + 1;
        }
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::c_uint) -> libc::c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: libc::c_int, path: *const libc::c_char, flags: libc::c_int, mode: libc::c_uint) -> libc::c_int {
    do_open(dir, path, flags, mode)
}

/// Some(n): transfer n bytes; None: errno is set (or nothing is to be transferred).
unsafe fn transfer(op: Op, fd: libc::c_int, n: usize) -> Result<(usize, usize, Fault), isize> {
    if !active() {
        return Ok((n, MAXLOG, No));
    }
    let file = match file_of(fd) {
        Some(f) => f,
        None => return Ok((n, MAXLOG, No)),
    };
    let (f, k) = count(op, file, None, op == Op::Write);
    let n = if (*ST).chunk > 0 { n.min((*ST).chunk) } else { n };
    match f {
        No => Ok((n, k, f)),
        Short => Ok((n.min(1), k, f)),
        Half | KillHalf => Ok(((n + 1) / 2, k, f)),
        Zero => Err(0),
        f => Err(fail(errno(op, f))),
    }
}

unsafe fn done(k: usize, f: Fault, r: isize) -> isize {
    if k < MAXLOG && active() {
        (*ST).log[k].ok = r >= 0;
        if f == KillHalf {
            libc::kill(libc::getpid(), libc::SIGKILL);
            loop {
                libc::pause();
            }
        }
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: usize) -> isize {
    match transfer(Op::Read, fd, n) {
        Ok((n, k, f)) => done(k, f, sys(libc::syscall(libc::SYS_read, fd, buf, n))),
        Err(r) => r,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: libc::c_int, v: *const libc::iovec, cnt: libc::c_int) -> isize {
    if active() && file_of(fd).is_some() {
        // transfers may be short anyway
        for j in 0..cnt as usize {
            let x = &*v.add(j);
            if x.iov_len > 0 {
                return read(fd, x.iov_base, x.iov_len);
            }
        }
    }
    sys(libc::syscall(libc::SYS_readv, fd, v, cnt))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: libc::c_int, buf: *mut libc::c_void, n: usize, off: i64) -> isize {
    match transfer(Op::Read, fd, n) {
        Ok((n, k, f)) => done(k, f, sys(libc::syscall(libc::SYS_pread64, fd, buf, n, off))),
        Err(r) => r,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: usize) -> isize {
    match transfer(Op::Write, fd, n) {
        Ok((n, k, f)) => done(k, f, sys(libc::syscall(libc::SYS_write, fd, buf, n))),
        Err(r) => r,
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: libc::c_int, v: *const libc::iovec, cnt: libc::c_int) -> isize {
    if active() && file_of(fd).is_some() {
        for j in 0..cnt as usize {
            let x = &*v.add(j);
            if x.iov_len > 0 {
                return write(fd, x.iov_base, x.iov_len);
            }
        }
        return 0;
    }
    sys(libc::syscall(libc::SYS_writev, fd, v, cnt))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: libc::c_int, buf: *const libc::c_void, n: usize, off: i64) -> isize {
    match transfer(Op::Write, fd, n) {
        Ok((n, k, f)) => done(k, f, sys(libc::syscall(libc::SYS_pwrite64, fd, buf, n, off))),
        Err(r) => r,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: libc::c_int, off: i64, whence: libc::c_int) -> i64 {
    if active() {
        if let Some(file) = file_of(fd) {
            let (f, _) = count(Op::Seek, file, None, false);
            if f != No {
                return fail(errno(Op::Seek, f)) as i64;
            }
        }
    }
    sys(libc::syscall(libc::SYS_lseek, fd, off, whence)) as i64
}

/// How the system misbehaves during a run.
#[derive(Clone, Default, Debug)]
struct Plan {
    faults: Vec<(usize, Fault)>,
    all_from: Option<usize>,
    chunk: usize,
    interrupting: bool,
}

impl Default for Fault {
    fn default() -> Fault {
        No
    }
}

#[derive(Clone, Debug)]
struct Call {
    op: Op,
    fault: Fault,
    /// name of the file; "" for standard output
    path: String,
    writes: bool,
    ok: bool,
}

fn run(dir: &Path, argv: &[String], plan: &Plan) -> (CliOut, Vec<Call>) {
    let st = state();
    unsafe {
        (*st).active = false;
        (*st).n = 0;
        (*st).plan = [(usize::MAX, No); 4];
        for (k, f) in plan.faults.iter().enumerate() {
            (*st).plan[k] = *f;
        }
        (*st).all_from = plan.all_from.unwrap_or(usize::MAX);
        (*st).chunk = plan.chunk;
        (*st).interrupting = plan.interrupting;
        (*st).interrupted = false;
        (*st).fds = [0; 256];
        (*st).root = [0; 200];
        for (k, b) in dir.to_str().unwrap().bytes().enumerate() {
            (*st).root[k] = b;
        }
    }
    let d = dir.to_owned();
    let args: Vec<String> = argv.to_vec();
    let r = run_forked(move || unsafe {
        libc::alarm(20);
        std::env::set_current_dir(&d).expect("scratch directory");
        std::env::set_var("PWD", &d);
        std::env::set_var("TZ", "UTC0");
        crate::c_vmi::FAKE = Some(1_000_000_000);
        (*ST).active = true;
        waterbear::run_command(&args);
        use std::io::Write;
        // what the runtime does at the end of a program
        let _ = std::io::stdout().flush();
    });
    let mut calls = vec![];
    unsafe {
        (*st).active = false;
        let name = |e: &Entry| {
            let n = e.path.iter().position(|b| *b == 0).unwrap_or(0);
            String::from_utf8_lossy(&e.path[..n]).into_owned()
        };
        for k in 0..(*st).n.min(MAXLOG) {
            let e = &(*st).log[k];
            let path = match (e.op, e.file) {
                (Op::Open, _) => name(e),
                (_, 0) => String::new(),
                (_, f) if (f as usize) <= MAXLOG => name(&(*st).log[f as usize - 1]),
                _ => String::new(),
            };
            let writes = e.writes;
            calls.push(Call { op: e.op, fault: e.fault, path, writes, ok: e.ok });
        }
    }
    (r, calls)
}

struct Scenario {
    name: &'static str,
    files: Vec<(&'static str, Vec<u8>)>,
    args: Vec<&'static str>,
    /// the output file; None: standard output
    output: Option<&'static str>,
    /// what the output must be, where that is known without the program
    known: Option<Vec<u8>>,
}

fn text(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}

fn scenarios() -> Vec<Scenario> {
    let mut v = vec![];
    let ramp = |n: usize| -> Vec<u8> { (0..n).map(|i| (i * 7 + i / 256) as u8).collect() };
    let icon = png(&Pic::new(32, 32, (0..1024).map(|i| [(i % 4 * 85) as u8, 0, 255, 255]).collect()), PngKind::Pal);
    let eye = png(&Pic::new(72, 56, (0..72 * 56).map(|i| [(i % 3 * 85) as u8, 9, 9, 255]).collect()), PngKind::Pal);
    let small = Pic::new(9, 4, (0..36).map(|i| [(i * 7) as u8, 0, 0, (i * 50) as u8]).collect());
    let mut anim = Pic::new(8, 8, (0..64).map(|i| [(i % 2 * 255) as u8, 0, 0, 255]).collect());
    let f0 = anim.frames[0].clone();
    anim.frames.push(f0.iter().rev().cloned().collect());
    let rev = anim.frames[1].clone();
    anim.frames.push(rev);
    v.push(Scenario { name: "assemble", files: vec![("in.s", text(" .byte 1, 2, 3\n"))], args: vec!["assemble", "in.s", "-o", "out"], output: Some("out"), known: Some(vec![1, 2, 3]) });
    v.push(Scenario { name: "assemble nothing", files: vec![("in.s", vec![])], args: vec!["assemble", "in.s", "-o", "out"], output: Some("out"), known: Some(vec![]) });
    v.push(Scenario {
        name: "assemble with includes",
        files: vec![
            ("in.s", text(" .byte 1\n.include \"a.s\"\n .include asm \"sub/b.s\"\n.include cpp \"c.h\"\n .include bytes \"d.bin\"\n .byte HH\n")),
            ("a.s", text(" .byte 2\n")),
            ("sub/b.s", text(" .byte 3\n.include bytes \"e.bin\"\n")),
            ("sub/e.bin", ramp(40)),
            ("c.h", text("#define HH 77\n")),
            ("d.bin", vec![5, 6]),
        ],
        args: vec!["assemble", "in.s", "-o", "dir/out"],
        output: Some("dir/out"),
        known: Some([vec![1, 2, 3], ramp(40), vec![5, 6, 77]].concat()),
    });
    v.push(Scenario {
        name: "assemble with images",
        files: vec![("in.s", text(".include icon \"i.png\" speed=9, eyecatch=\"e.png\"\n.include sprite \"s.png\" type=\"masked\"\n.include sprite \"t.gif\"\n")), ("i.png", icon.clone()), ("e.png", eye.clone()), ("s.png", png(&small, PngKind::Rgba8)), ("t.gif", gif(&anim))],
        args: vec!["assemble", "in.s", "-o", "out"],
        output: Some("out"),
        known: None,
    });
    v.push(Scenario {
        name: "assemble a big program",
        files: vec![("in.s", text(".include bytes \"big.bin\"\n .byte 1\n")), ("big.bin", ramp(200_001))],
        args: vec!["assemble", "in.s", "-o", "out"],
        output: Some("out"),
        known: Some([ramp(200_001), vec![1]].concat()),
    });
    v.push(Scenario {
        name: "expand",
        files: vec![("in.s", text("%macro m %a\n add #%a\n nop\n%end\n m 3\n.include \"x.s\"\n.include bytes \"d.bin\"\n")), ("x.s", text(" m 4\nl: br l\n")), ("d.bin", ramp(9))],
        args: vec!["expand", "in.s"],
        output: None,
        known: None,
    });
    v.push(Scenario { name: "expand much", files: vec![("in.s", text(&" .byte 1, 2, 3 ; comment\n".repeat(40)))], args: vec!["expand", "in.s"], output: None, known: None });
    let code = [0x21u8, 0x01, 0x30, 0x00, 0x81, 0x05, 0x02, 0x10, 0x01, 0xfc, 0xa0];
    v.push(Scenario { name: "disassemble", files: vec![("in.bin", code.to_vec())], args: vec!["disassemble", "in.bin", "-o", "out"], output: Some("out"), known: None });
    v.push(Scenario { name: "disassemble with everything", files: vec![("in.bin", code.to_vec())], args: vec!["disassemble", "-p", "-a", "-t", "bios", "in.bin", "-o", "out"], output: Some("out"), known: None });
    v.push(Scenario { name: "icon", files: vec![("i.png", icon.clone()), ("e.png", eye.clone())], args: vec!["icon", "i.png", "-s", "7", "-e", "e.png"], output: None, known: None });
    v.push(Scenario { name: "icon from gif", files: vec![("i.gif", gif(&Pic::solid(32, 32, [1, 2, 3, 255])))], args: vec!["icon", "i.gif"], output: None, known: None });
    v.push(Scenario { name: "icon from bmp", files: vec![("i.bmp", bmp(&Pic::solid(32, 32, [1, 2, 3, 255])))], args: vec!["icon", "i.bmp"], output: None, known: None });
    for (name, f) in [("image json", "json"), ("image pretty", "json-pretty"), ("image asm", "1bit-asm"), ("image masked", "1bit-asm-masked")] {
        v.push(Scenario { name, files: vec![("s.png", png(&small, PngKind::Rgba8))], args: vec!["image", "s.png", "-f", f, "-o", "out"], output: Some("out"), known: None });
    }
    v.push(Scenario { name: "image to stdout", files: vec![("s.gif", gif(&anim))], args: vec!["image", "s.gif"], output: None, known: None });
    v.push(Scenario { name: "image apng", files: vec![("s.png", png(&anim, PngKind::Rgba8))], args: vec!["image", "s.png", "-f", "json", "-o", "out"], output: Some("out"), known: None });
    v.push(Scenario { name: "vmi", files: vec![("f.vms", ramp(0x300))], args: vec!["vmi", "f.vms"], output: Some("f.vmi"), known: None });
    v.push(Scenario { name: "vmi of a game", files: vec![("f.vms", ramp(0x300))], args: vec!["vmi", "-g", "-c", "me", "f.vms", "-o", "out"], output: Some("out"), known: None });
    v.push(Scenario { name: "version", files: vec![], args: vec!["version"], output: None, known: None });
    v
}

/// What the output was before.
fn old(kind: usize) -> Option<Vec<u8>> {
    match kind {
        0 => Some(b"what the output was before ".repeat(20000)),
        1 => None,
        _ => Some(b"x".to_vec()),
    }
}

struct Prepared {
    scenarios: Vec<Scenario>,
    /// the calls of each scenario when nothing fails
    calls: Vec<Vec<Call>>,
    /// what it writes when nothing fails
    result: Vec<Vec<u8>>,
    problem: Vec<Option<String>>,
}

fn set_up(dir: &Path, s: &Scenario, before: &Option<Vec<u8>>) {
    for (n, b) in &s.files {
        let p = dir.join(n);
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        std::fs::write(p, b).expect("scratch file");
    }
    if let Some(o) = s.output {
        let p = dir.join(o);
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        match before {
            Some(b) => std::fs::write(p, b).expect("scratch file"),
            None => {
                let _ = std::fs::remove_file(p);
            }
        }
    }
}

fn argv(s: &Scenario) -> Vec<String> {
    std::iter::once("waterbear").chain(s.args.iter().cloned()).map(|a| a.to_owned()).collect()
}

fn output(dir: &Path, s: &Scenario, r: &CliOut) -> Option<Vec<u8>> {
    match s.output {
        Some(o) => std::fs::read(dir.join(o)).ok(),
        None => Some(r.out.clone()),
    }
}

fn prepare() -> Prepared {
    let root = std::env::var_os("WBMC_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
    let dir = root.join(format!("recon{}", std::process::id()));
    let mut p = Prepared { scenarios: scenarios(), calls: vec![], result: vec![], problem: vec![] };
    for s in &p.scenarios {
        let _ = std::fs::create_dir_all(&dir);
        set_up(&dir, s, &None);
        let (r, calls) = run(&dir, &argv(s), &Plan::default());
        let out = output(&dir, s, &r);
        let mut problem = None;
        if r.code != 0 {
            problem = Some(format!("{}: status {}: {}", s.name, r.code, trunc(&r.err_s(), 300)));
        } else if out.is_none() {
            problem = Some(format!("{}: no output", s.name));
        }
        if std::env::var_os("WBMC_DUMP").is_some() {
            eprintln!("{}: {} calls, {} bytes", s.name, calls.len(), out.as_ref().map(|o| o.len()).unwrap_or(0));
        }
        p.result.push(out.unwrap_or_default());
        p.calls.push(calls);
        p.problem.push(problem);
        let _ = std::fs::remove_dir_all(&dir);
    }
    p
}

fn injected(calls: &[Call]) -> String {
    calls.iter().enumerate().filter(|(_, c)| c.fault != No).take(6).map(|(k, c)| format!("call {} ({:?} {}): {:?}", k, c.op, if c.path.is_empty() { "standard output" } else { &c.path }, c.fault)).collect::<Vec<_>>().join(", ")
}

/// Runs a scenario under a plan and judges how it ends.
fn judged(ctx: &mut Ctx, p: &Prepared, n: usize, before: usize, plan: &Plan) -> Verdict {
    let s = &p.scenarios[n];
    if let Some(m) = &p.problem[n] {
        return Verdict::Fail(format!("without any fault, {}", m));
    }
    let before = old(before);
    let dir = ctx.dir.clone();
    set_up(&dir, s, &before);
    let (r, calls) = run(&dir, &argv(s), plan);
    ctx.transitions += calls.len() as u64;
    let got = output(&dir, s, &r);
    let hits: Vec<&Call> = calls.iter().filter(|c| c.fault != No).collect();
    ctx.note(|| {
        let mut t = format!("--- waterbear {} -> status {}\nstdout: {}\nstderr: {}\n", s.args.join(" "), r.code, trunc(&r.out_s(), 300), trunc(&r.err_s(), 600));
        for (k, c) in calls.iter().enumerate().take(200) {
            t.push_str(&format!("call {}: {:?} {:?} ok={} fault={:?}\n", k, c.op, c.path, c.ok, c.fault));
        }
        t
    });
    let killed = hits.iter().any(|c| c.fault == Kill || c.fault == KillHalf);
    let fail = |m: String| Verdict::Fail(format!("{}, {}: {}", s.name, injected(&calls), m));
    // inputs are never changed
    for (f, b) in &s.files {
        if std::fs::read(dir.join(f)).ok().as_ref() != Some(b) {
            return fail(format!("the input {} was changed", f));
        }
    }
    let is_output = |c: &&&Call| c.path.is_empty() || (s.output.is_some() && dir.join(&c.path) == dir.join(s.output.unwrap())) || c.writes;
    // (how much of the output was written when it failed is not judged)
    let reached_output = calls.iter().any(|c| c.op == Op::Open && c.writes && c.ok);
    let outputs_failed = hits.iter().filter(is_output).any(|c| c.op == Op::Write);
    let untouched = s.output.is_none() || got == before;
    if killed {
        if s.output.is_some() && !reached_output && !untouched {
            return fail("the output was changed before it was opened".into());
        }
        // a kill while reading: the output still is what it was
        if s.output.is_some() && !untouched && hits.iter().any(|c| (c.fault == Kill) && !c.writes && c.op != Op::Write) {
            return fail("killed while reading its input, but the output was changed".into());
        }
        return pass(true);
    }
    if r.crashed() {
        return fail(format!("status {}: {}", r.code, trunc(r.err_s().trim(), 400)));
    }
    if r.code == 0 {
        if got.as_ref() != Some(&p.result[n]) {
            return fail(format!("success, but the output is not complete: {}", match &got { Some(g) => diff(&p.result[n], g), None => "there is none".into() }));
        }
        for h in &hits {
            let err = matches!(h.fault, Error1 | Error2 | Error3 | Again);
            // (positions are asked for where nobody needs the answer)
            if !err || h.op == Op::Seek {
                continue;
            }
            if h.op == Op::Open && !h.writes {
                // a file that is not there, or one that is opened again
                let real = std::fs::canonicalize(dir.join(&h.path)).ok();
                if real.is_none() || calls.iter().any(|c| c.op == Op::Open && c.ok && std::fs::canonicalize(dir.join(&c.path)).ok() == real) {
                    continue;
                }
            }
            return fail("success in spite of an error".into());
        }
    } else {
        if r.err.is_empty() {
            return fail(format!("status {} without any message", r.code));
        }
        // (the image decoders take an interruption for an error)
        if !hits.iter().any(|c| !matches!(c.fault, Short | Half)) {
            return fail(format!("status {}, although nothing failed for good: {}", r.code, trunc(r.err_s().trim(), 300)));
        }
        if !outputs_failed && !untouched {
            return fail("the command failed before it could write, but the output was changed".into());
        }
    }
    pass(!hits.is_empty())
}

/// A command that has to fail must leave the output as it was.
fn left_alone(ctx: &mut Ctx, args: &[&str], before: &Option<Vec<u8>>) -> Verdict {
    let out = ctx.dir.join("out");
    match before {
        Some(b) => std::fs::write(&out, b).expect("scratch file"),
        None => {
            let _ = std::fs::remove_file(&out);
        }
    }
    let dir = ctx.dir.clone();
    let r = ctx.cli_dir(args, Some(&dir));
    if r.code == 0 || r.crashed() {
        return Verdict::Fail(format!("waterbear {}: status {}: {}", args.join(" "), r.code, trunc(&r.err_s(), 300)));
    }
    if std::fs::read(&out).ok() != *before {
        return Verdict::Fail(format!("waterbear {} fails, but the output was changed", args.join(" ")));
    }
    pass(true)
}

fn odd(ctx: &mut Ctx, p: &Prepared, n: usize, kind: usize) -> Verdict {
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    let s = &p.scenarios[n];
    if let Some(m) = &p.problem[n] {
        return Verdict::Fail(format!("without any fault, {}", m));
    }
    let dir = ctx.dir.join("odd");
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::create_dir_all(&dir);
    set_up(&dir, s, &None);
    let mut args: Vec<String> = s.args.iter().map(|a| a.to_string()).collect();
    let mut stdout = Stdio::null();
    let mut fails = true;
    let mut target = None;
    match s.output {
        Some(o) => {
            let to = |name: &str, args: &mut Vec<String>| match args.iter().position(|a| a == o) {
                Some(k) => args[k] = name.to_owned(),
                None => {
                    args.push("-o".into());
                    args.push(name.to_owned());
                }
            };
            match kind {
                0 => {
                    // nothing to write always fits
                    fails = !p.result[n].is_empty();
                    to("/dev/full", &mut args)
                }
                1 => {
                    std::fs::create_dir_all(dir.join("a directory")).expect("scratch");
                    to("a directory", &mut args)
                }
                2 => to("absent/out", &mut args),
                3 => to("", &mut args),
                4 => {
                    std::fs::write(dir.join("real"), b"what was there before, quite long").expect("scratch");
                    std::os::unix::fs::symlink("real", dir.join("link")).expect("scratch");
                    to("link", &mut args);
                    fails = false;
                    target = Some("link");
                }
                5 => {
                    to("caf\u{e9} \u{1f43b}.vms", &mut args);
                    fails = false;
                    target = Some("caf\u{e9} \u{1f43b}.vms");
                }
                6 => {
                    std::fs::write(dir.join("real"), vec![b'z'; 400_000]).expect("scratch");
                    std::fs::hard_link(dir.join("real"), dir.join("also")).expect("scratch");
                    to("also", &mut args);
                    fails = false;
                    target = Some("also");
                }
                7 => {
                    to("/dev/null", &mut args);
                    fails = false;
                }
                _ => to("in.s/out", &mut args),
            }
            if kind == 8 {
                std::fs::write(dir.join("in.s"), s.files.iter().find(|f| f.0 == "in.s").map(|f| f.1.clone()).unwrap_or_default()).expect("scratch");
            }
        }
        None => match kind {
            0 => stdout = Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full")),
            1 => {
                let mut fd = [0; 2];
                unsafe {
                    libc::pipe2(fd.as_mut_ptr(), libc::O_CLOEXEC);
                    libc::close(fd[0]);
                    use std::os::unix::io::FromRawFd;
                    stdout = Stdio::from(std::fs::File::from_raw_fd(fd[1]));
                }
            }
            2 => {
                fails = false;
                stdout = Stdio::from(std::fs::File::create(dir.join("stdout")).expect("scratch"));
                target = Some("stdout");
            }
            _ => return pass(false),
        },
    }
    let o = Command::new(&ctx.cli_bin).args(&args).current_dir(&dir).env("PWD", &dir).env("TZ", "UTC0").stdin(Stdio::null()).stdout(stdout).stderr(Stdio::piped()).output().expect("the program cannot be run");
    let code = o.status.code().unwrap_or_else(|| 128 + o.status.signal().unwrap_or(0));
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    ctx.note(|| format!("--- waterbear {:?} -> status {}\n{}", args, code, err));
    let what = format!("waterbear {:?}{}", args, if s.output.is_none() { format!(" with standard output of kind {}", kind) } else { String::new() });
    let _cleanup = Remove(dir.clone());
    if code >= 101 {
        return Verdict::Fail(format!("{}: status {}: {}", what, code, trunc(err.trim(), 300)));
    }
    if fails != (code != 0) {
        return Verdict::Fail(format!("{}: status {}: {}", what, code, trunc(err.trim(), 300)));
    }
    if code != 0 && err.trim().is_empty() {
        return Verdict::Fail(format!("{}: status {} without any message", what, code));
    }
    if let Some(t) = target {
        let mut got = std::fs::read(dir.join(t)).unwrap_or_default();
        let mut want = p.result[n].clone();
        if s.args[0] == "vmi" {
            // the time
            for v in [&mut got, &mut want] {
                for k in 0x44..0x4c.min(v.len()) {
                    v[k] = 0;
                }
            }
        }
        if s.args[0] == "icon" || s.args[0] == "version" {
            // the first line repeats the command line
            let cut = |v: &[u8]| -> Vec<u8> { v.splitn(3, |b| *b == b'\n').last().unwrap_or(&[]).to_vec() };
            got = cut(&got);
            want = cut(&want);
        }
        if got != want {
            return Verdict::Fail(format!("{}: success, but {}", what, diff(&want, &got)));
        }
    }
    pass(true)
}

struct Remove(PathBuf);

impl Drop for Remove {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn d03(t: Tier) -> Check {
    let p = Arc::new(prepare());
    let ns = p.scenarios.len();
    let mut spaces = vec![];
    {
        let p = p.clone();
        spaces.push(Space::new("no faults", "every scenario, with and without an existing output, longer or shorter than the result: the complete output, which is known for some of them", (ns * 3) as u64, move |n, ctx| {
            let mut m = Mix(n);
            let before = m.take(3);
            let k = m.0 as usize;
            if let Some(w) = &p.scenarios[k].known {
                if p.problem[k].is_none() && *w != p.result[k] {
                    return Verdict::Fail(format!("{}: {}", p.scenarios[k].name, diff(w, &p.result[k])));
                }
            }
            match judged(ctx, &p, k, before, &Plan::default()) {
                Verdict::Pass(_) => pass(true),
                v => v,
            }
        }));
    }
    // single faults
    let mut single: Vec<(usize, usize, Fault)> = vec![];
    for n in 0..ns {
        for (k, c) in p.calls[n].iter().enumerate() {
            for f in faults(c.op) {
                single.push((n, k, *f));
            }
        }
    }
    {
        let p = p.clone();
        let single = single.clone();
        spaces.push(Space::new(
            "single faults",
            &format!("{} commands, every fault at every system call, with the output existing or not", ns),
            (single.len() * 2) as u64,
            move |i, ctx| {
                let (n, k, f) = single[(i / 2) as usize];
                judged(ctx, &p, n, (i % 2) as usize, &Plan { faults: vec![(k, f)], ..Default::default() })
            },
        ));
    }
    // lasting faults
    let mut lasting: Vec<(usize, usize)> = vec![];
    for n in 0..ns {
        for k in 0..p.calls[n].len() {
            lasting.push((n, k));
        }
    }
    {
        let p = p.clone();
        spaces.push(Space::new("lasting faults", "from every system call on, everything fails", lasting.len() as u64, move |i, ctx| {
            let (n, k) = lasting[i as usize];
            judged(ctx, &p, n, 0, &Plan { all_from: Some(k), ..Default::default() })
        }));
    }
    // slow devices
    const CHUNKS: &[usize] = &[0, 1, 2, 3, 5, 7, 16, 100, 1000, 4095, 8191];
    {
        let p = p.clone();
        spaces.push(Space::new(
            "short transfers",
            "every transfer of at most n bytes for eleven n, with and without an interruption before every call, and every single fault within the first calls of such runs",
            (ns * CHUNKS.len() * 2 * 6) as u64,
            move |i, ctx| {
                let mut m = Mix(i);
                let chunk = CHUNKS[m.take(CHUNKS.len())];
                let interrupting = m.take(2) == 1;
                let kind = m.take(6);
                let n = m.0 as usize;
                // a program of many bytes, one by one, is a matter of patience
                if p.result[n].len() > 100_000 && chunk > 0 && chunk < 16 {
                    return pass(false);
                }
                let late = p.calls[n].len();
                let faults = match kind {
                    0 => vec![],
                    1 => vec![(late / 2, Error1)],
                    2 => vec![(late, Error1)],
                    3 => vec![(late, Error2), (late + 2, Interrupt)],
                    4 => vec![(2 * late, Error1)],
                    _ => vec![(2 * late, Error3)],
                };
                judged(ctx, &p, n, 0, &Plan { faults, chunk, interrupting, ..Default::default() })
            },
        ));
    }
    // pairs
    let most = t.q(40, 400);
    let mut pairs: Vec<(usize, usize, Fault, usize, Fault)> = vec![];
    for n in 0..ns {
        let calls = &p.calls[n];
        if calls.len() > most {
            continue;
        }
        for (k, c) in calls.iter().enumerate() {
            for f in faults(c.op) {
                // after an error the command ends: only what can be survived is followed by another
                if !matches!(f, Interrupt | Short | Half | Zero) && calls.len() > 30 {
                    continue;
                }
                for l in k + 1..calls.len() + 2 {
                    for g in [Error1, Error2, Error3, Again, Interrupt, Short, Half, Zero, Kill, KillHalf] {
                        pairs.push((n, k, *f, l, g));
                    }
                }
            }
        }
    }
    {
        let p = p.clone();
        spaces.push(Space::new(
            "pairs of faults",
            &format!("every pair of faults in commands of up to {} system calls (in commands of more than 30, the first one that does not end the command)", most),
            pairs.len() as u64,
            move |i, ctx| {
                let (n, k, f, l, g) = pairs[i as usize];
                judged(ctx, &p, n, 0, &Plan { faults: vec![(k, f), (l, g)], ..Default::default() })
            },
        ));
    }
    // what is rejected leaves no trace
    let bad = crate::d_diag::rejected();
    let nb = bad.len();
    {
        spaces.push(Space::new(
            "rejected programs",
            &format!("{} programs with one error each, in the program or an included file, with and without an existing output", nb),
            (nb * 2 * 3) as u64,
            move |i, ctx| {
                let mut m = Mix(i);
                let inc = m.take(2) == 1;
                let before = old(m.take(3));
                let text = &bad[m.0 as usize];
                if inc {
                    ctx.put("in.s", b" nop\n.include \"bad.s\"\n nop\n");
                    ctx.put("bad.s", text.as_bytes());
                } else {
                    ctx.put("in.s", text.as_bytes());
                }
                left_alone(ctx, &["assemble", "in.s", "-o", "out"], &before)
            },
        ));
    }
    {
        let icon = png(&Pic::solid(32, 31, [1, 2, 3, 255]), PngKind::Pal);
        let colours = png(&Pic::new(32, 32, (0..1024).map(|i| [((i % 17) as u8).min(15) * 17, 0, if i % 17 == 16 { 255 } else { 0 }, 255]).collect()), PngKind::Rgba8);
        let ok = png(&Pic::solid(32, 32, [1, 2, 3, 255]), PngKind::Pal);
        const COMMANDS: &[&[&str]] = &[
            &["disassemble", "absent.bin", "-o", "out"],
            &["disassemble", "-t", "nothing", "ok.png", "-o", "out"],
            &["disassemble", "dir", "-o", "out"],
            &["assemble", "absent.s", "-o", "out"],
            &["assemble", "dir", "-o", "out"],
            &["assemble", "ok.png", "-o", "out"],
            &["assemble", "icon.s", "-o", "out"],
            &["assemble", "colours.s", "-o", "out"],
            &["assemble", "eye.s", "-o", "out"],
            &["assemble", "wide.s", "-o", "out"],
            &["assemble", "speed.s", "-o", "out"],
            &["image", "absent.png", "-o", "out"],
            &["image", "junk.png", "-o", "out"],
            &["image", "dir", "-o", "out"],
            &["image", "short.png", "-f", "json", "-o", "out"],
            &["vmi", "absent.vms", "-o", "out"],
            &["vmi", "short.vms", "-o", "out"],
            &["vmi", "-g", "game.vms", "-o", "out"],
            &["vmi", "dir", "-o", "out"],
        ];
        spaces.push(Space::new(
            "rejected inputs",
            "inputs every command rejects: missing, directories, damaged, too short, of the wrong size",
            (COMMANDS.len() * 3) as u64,
            move |i, ctx| {
                let mut m = Mix(i);
                let before = old(m.take(3));
                ctx.put("dir/x", b"");
                ctx.put("ok.png", &ok);
                ctx.put("wrong.png", &icon);
                ctx.put("colours.png", &colours);
                ctx.put("junk.png", b"\x89PNG\r\n\x1a\njunk");
                ctx.put("short.png", &ok[..ok.len() - 20]);
                ctx.put("icon.s", b".include icon \"wrong.png\"\n");
                ctx.put("colours.s", b".include icon \"colours.png\"\n");
                ctx.put("eye.s", b".include icon \"ok.png\" eyecatch=\"ok.png\"\n");
                ctx.put("wide.s", b".include sprite \"wide.png\"\n");
                ctx.put("wide.png", &png(&Pic::solid(300, 1, [0, 0, 0, 255]), PngKind::Pal));
                ctx.put("speed.s", b".include icon \"ok.png\" speed=65536\n");
                ctx.put("short.vms", &[7; 0x2f]);
                ctx.put("game.vms", &[7; 0x22f]);
                left_alone(ctx, COMMANDS[m.0 as usize], &before)
            },
        ));
    }
    // outputs that are not ordinary files, with the real program
    {
        let p = p.clone();
        spaces.push(Space::new("odd outputs", "the real program with outputs that are full, directories, in missing directories, links, or have unusual names; standard output that is full or a pipe nobody reads", (ns * 9) as u64, move |i, ctx| {
            let mut m = Mix(i);
            let kind = m.take(9);
            let n = m.0 as usize;
            odd(ctx, &p, n, kind)
        }));
    }
    Check { level: "fault_enumeration", spaces, assumptions: vec![
        "Faults are injected at the open, read, write and lseek calls of the process, on files in the scratch directory and on standard output; errors of close and stat are not injected, and neither are errors on standard error.".into(),
    ] }
}
