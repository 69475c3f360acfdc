//! D04: results depend on nothing but the inputs.

use crate::engine::*;
use crate::imgw::*;
use crate::{Check, Tier};
use std::cell::RefCell;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// A command on a set of files.
pub struct Job {
    name: &'static str,
    files: Vec<(&'static str, Vec<u8>)>,
    /// `IN` is the input file, the first of `files`; `OUT` the output
    args: &'static [&'static str],
}

#[derive(Clone, PartialEq, Debug)]
struct Outcome {
    code: i32,
    output: Option<Vec<u8>>,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
}

impl Outcome {
    fn differs(&self, o: &Outcome) -> Option<String> {
        if self.code != o.code {
            return Some(format!("status {} and {}: {}{}", self.code, o.code, trunc(&String::from_utf8_lossy(&self.stderr), 200), trunc(&String::from_utf8_lossy(&o.stderr), 200)));
        }
        if self.output != o.output {
            return Some(match (&self.output, &o.output) {
                (Some(a), Some(b)) => format!("the output differs: {}", diff(a, b)),
                _ => "the output exists once, and once not".into(),
            });
        }
        if self.stdout != o.stdout {
            return Some(format!("standard output differs: {}", diff(&self.stdout, &o.stdout)));
        }
        if self.stderr != o.stderr {
            return Some(format!("the messages differ: {} and {}", trunc(&String::from_utf8_lossy(&self.stderr), 300), trunc(&String::from_utf8_lossy(&o.stderr), 300)));
        }
        None
    }
}

/// Replaces the unique parts of labels (32 hexadecimal digits after `_`) by numbers in the order
/// of their first appearance.
fn canonical(b: &[u8], known: &mut Vec<Vec<u8>>) -> Vec<u8> {
    let mut out = vec![];
    let mut k = 0;
    while k < b.len() {
        let hex = |c: &u8| c.is_ascii_hexdigit();
        if b[k] == b'_' && k + 33 <= b.len() && b[k + 1..k + 33].iter().all(hex) && !b.get(k + 33).map_or(false, |c| c.is_ascii_alphanumeric()) {
            let u = b[k + 1..k + 33].to_ascii_lowercase();
            let n = match known.iter().position(|x| *x == u) {
                Some(n) => n,
                None => {
                    known.push(u);
                    known.len() - 1
                }
            };
            out.extend_from_slice(format!("_<{}>", n).as_bytes());
            k += 33;
        } else {
            out.push(b[k]);
            k += 1;
        }
    }
    out
}

fn replace(b: &[u8], from: &[u8], to: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut k = 0;
    while k < b.len() {
        if !from.is_empty() && b[k..].starts_with(from) {
            out.extend_from_slice(to);
            k += from.len();
        } else {
            out.push(b[k]);
            k += 1;
        }
    }
    out
}

/// An icon, an eyecatch and a sprite.
fn pictures() -> (Pic, Pic, Pic) {
    let icon = Pic::new(32, 32, (0..1024).map(|i| [(i % 16 * 17) as u8, (i % 5 * 51) as u8 & 0xf0, 0, 255]).map(|c| [c[0], 0, c[0] / 2, 255]).collect());
    let eye = Pic::new(72, 56, (0..72 * 56).map(|i| [(i % 60) as u8 * 4, (i % 4 * 85) as u8, 0, 255]).map(|c| [c[0], 16, c[0], 255]).collect());
    let sprite = Pic::new(16, 5, (0..80).map(|i| [(i * 3) as u8, (i * 5) as u8, 0, (i * 11) as u8]).collect());
    (icon, eye, sprite)
}

fn jobs() -> Vec<Job> {
    let mut v = vec![];
    let t = |s: &str| s.as_bytes().to_vec();
    const ASM: &[&str] = &["assemble", "IN", "-o", "OUT"];
    const EXP: &[&str] = &["expand", "IN"];
    let mut many = String::new();
    for k in 0..30 {
        many.push_str(&format!("name{} = {} * {}\nlabel{}: add #name{}\n.local: br .local\n", k, k, k % 7, k, k % 3));
    }
    for k in 0..30 {
        many.push_str(&format!(" .word label{}, name{}\n", k, 29 - k));
    }
    let mut macros = String::new();
    for k in 0..12 {
        macros.push_str(&format!("%macro mac{} %a, %b, %c\nl%: dbnz 5, l%\n add #%a\n mov #%b, %c\nk%: br k%\n%end\n", k));
    }
    for k in 0..12 {
        macros.push_str(&format!(" mac{} {}, {}, {}\n", (k * 5) % 12, k, k + 1, k + 2));
    }
    let nested = "%macro in %x\nl%: be #%x, l%\n%end\n%macro out %x, %y\n in %x\nl%: in %y\n br l%\n%end\n out 1, 2\n out 3, 4\nl: br l\n";
    v.push(Job { name: "names", files: vec![("in.s", t(&many))], args: ASM });
    v.push(Job { name: "macros", files: vec![("in.s", t(&macros))], args: ASM });
    v.push(Job { name: "expanded names", files: vec![("in.s", t(&many))], args: EXP });
    v.push(Job { name: "expanded macros", files: vec![("in.s", t(&macros))], args: EXP });
    v.push(Job { name: "expanded nested macros", files: vec![("in.s", t(nested))], args: EXP });
    v.push(Job { name: "tiny", files: vec![("in.s", t("start: br start\nx = 3\n .byte x\n"))], args: ASM });
    v.push(Job {
        name: "includes",
        files: vec![
            ("in.s", t(".include \"a.s\"\n.include asm \"sub/b.s\"\n.include cpp \"h.h\"\n.include bytes \"sub/d.bin\"\n .byte one, two, THREE, FOUR\n")),
            ("a.s", t("one = 1\n%macro fromA\n add #one\n%end\n fromA\n")),
            ("sub/b.s", t("two = 2\n.include \"../a2.s\"\n.include bytes \"d.bin\"\n fromA\n")),
            ("a2.s", t("start: nop\n")),
            ("sub/d.bin", vec![9, 8, 7]),
            ("h.h", t("#define THREE 3\n#define FOUR (THREE + 1) // four\n#define FIVE 5\n")),
        ],
        args: ASM,
    });
    let (icon, eye, sprite) = pictures();
    v.push(Job {
        name: "images",
        files: vec![
            ("in.s", t(".include icon \"i.png\" speed=4, eyecatch=\"e.png\"\n.include sprite \"s.png\" type=\"masked\"\n")),
            ("i.png", png(&icon, PngKind::Rgba8)),
            ("e.png", png(&eye, PngKind::Rgba8)),
            ("s.png", png(&sprite, PngKind::Rgba8)),
        ],
        args: ASM,
    });
    v.push(Job { name: "two undefined names", files: vec![("in.s", t(&format!("{} add #nope\n .byte nada\n br nil\nq = zip\n", many)))], args: ASM });
    v.push(Job { name: "two duplicate names", files: vec![("in.s", t("a: nop\nb: nop\nc: nop\nb: nop\na: nop\nc = 1\n"))], args: ASM });
    v.push(Job { name: "error in a macro", files: vec![("in.s", t("%macro out %x\n in %x\n in 2\n%end\n%macro in %x\nl%: add #%x\n br %x\n%end\nq: out 300\n out 9000\n"))], args: ASM });
    v.push(Job { name: "unknown names in macros", files: vec![("in.s", t("%macro m %x, %y\nl%: add #%x + nope\n be #%y, none\n%end\n m 1, 2\n m l%, 3\n"))], args: ASM });
    v.push(Job { name: "error in an included file", files: vec![("in.s", t(".include \"x.s\"\n")), ("x.s", t(" nop\n\n frob 2 ; wrong\n"))], args: ASM });
    v.push(Job { name: "missing file", files: vec![("in.s", t(".include \"absent.s\"\n"))], args: ASM });
    v.push(Job { name: "expansion of an error", files: vec![("in.s", t("%macro m\n m2\n%end\n m\n"))], args: EXP });
    // code with many jumps to the same places
    let mut code = vec![];
    for k in 0..40u8 {
        code.extend_from_slice(&[0x31, k, 0x10, 0x01, 0xfa - k / 2, 0x28 + k % 8, 4 * (k % 16), 0x21, 0, k]);
    }
    v.push(Job { name: "disassembly", files: vec![("in.bin", code.clone())], args: &["disassemble", "IN", "-o", "OUT"] });
    v.push(Job { name: "disassembly with everything", files: vec![("in.bin", code.clone())], args: &["disassemble", "-a", "-p", "-t", "bios", "IN", "-o", "OUT"] });
    v.push(Job { name: "disassembly of a game", files: vec![("in.bin", code.iter().rev().cloned().collect())], args: &["disassemble", "-a", "-t", "game", "IN", "-o", "OUT"] });
    v.push(Job { name: "icon", files: vec![("in.png", png(&icon, PngKind::Rgba8))], args: &["icon", "IN"] });
    v.push(Job { name: "image", files: vec![("in.png", png(&sprite, PngKind::Rgba8))], args: &["image", "IN", "-f", "json", "-o", "OUT"] });
    v.push(Job { name: "masked image", files: vec![("in.gif", gif(&sprite))], args: &["image", "IN", "-f", "1bit-asm-masked"] });
    v.push(Job { name: "vmi", files: vec![("in.vms", (0..0x300).map(|i| (i * 3) as u8).collect())], args: &["vmi", "-g", "-c", "mine", "IN", "-o", "OUT"] });
    v
}

/// More commands, for the spaces that run each on its own.
fn more_jobs() -> Vec<Job> {
    let mut v = vec![];
    const ASM: &[&str] = &["assemble", "IN", "-o", "OUT"];
    const EXP: &[&str] = &["expand", "IN"];
    let icon = |k: usize| Pic::new(32, 32, (0..1024).map(|i| [(i % k * 17) as u8, 0, (i * 3 % k * 17) as u8 & 0x11, 255]).map(|c| [c[0], 0, c[0], 255]).collect());
    let eye = |k: usize| Pic::new(72, 56, (0..4032).map(|i| [(i % k % 16 * 17) as u8, (i % k / 16 % 16 * 17) as u8, (i % k / 256 * 17) as u8, 255]).collect());
    for (name, ik, ek) in [("icon 1/2", 1, 2), ("icon 3/16", 3, 16), ("icon 16/17", 16, 17), ("icon 9/100", 9, 100), ("icon 2/256", 2, 256), ("icon 5/300", 5, 300)] {
        for (k, args) in [ASM, EXP].into_iter().enumerate() {
            v.push(Job {
                name: [name, "expanded icon"][k],
                files: vec![
                    ("in.s", b" .include icon \"i.png\" eyecatch=\"e.png\"\n".to_vec()),
                    ("i.png", png(&icon(ik), PngKind::Rgba8)),
                    ("e.png", png(&eye(ek), PngKind::Rgba8)),
                ],
                args,
            });
        }
    }
    let mut anim = Pic::solid(32, 32, [0, 0, 0, 255]);
    for k in 1..9u8 {
        anim.frames.push(vec![[k * 17, 0, 0, 255]; 1024]);
    }
    v.push(Job { name: "animated icon", files: vec![("in.gif", gif(&anim))], args: &["icon", "IN", "-s", "3"] });
    v.push(Job { name: "animated image", files: vec![("in.gif", gif(&anim))], args: &["image", "IN", "-f", "json-pretty"] });
    v.push(Job { name: "icon with too many colours", files: vec![("in.png", png(&Pic::new(32, 32, (0..1024).map(|i| [(i % 15 * 17) as u8, (i / 32 * 8) as u8, 0, 255]).collect()), PngKind::Rgba8))], args: &["icon", "IN"] });
    v.push(Job { name: "not an image", files: vec![("in.png", b"nothing".to_vec())], args: &["image", "IN"] });
    v.push(Job { name: "short file", files: vec![("in.vms", vec![1; 20])], args: &["vmi", "IN"] });
    for k in 0..3usize {
        // calls that lead back to themselves, in several ways
        let mut s = String::new();
        for m in 0..6 {
            s.push_str(&format!("%macro r{} %a\n nop\n r{} %a\n r{} 3\n%end\n", m, (m + 1) % 6, (m + 2 + k) % 6));
        }
        v.push(Job { name: "recursive macros", files: vec![("in.s", format!("{} r{} 1\n r{} 2\n", s, k, k + 2).into_bytes())], args: ASM });
        let mut d = String::new();
        for m in 0..8 {
            d.push_str(&format!("v{} = v{} + v{}\n", m, (m + 1) % 8, (m + 3 + k) % 8));
        }
        v.push(Job { name: "variables before their definition", files: vec![("in.s", d.clone().into_bytes())], args: ASM });
        v.push(Job { name: "header that defines in circles", files: vec![("in.s", b".include cpp \"h.h\"\n .word v0\n".to_vec()), ("h.h", d.replace("v0 =", "#define v0").lines().map(|l| if l.contains('=') { format!("#define {}\n", l.replace(" =", "")) } else { format!("{}\n", l) }).collect::<String>().into_bytes())], args: ASM });
        v.push(Job { name: "many duplicates", files: vec![("in.s", (0..9).map(|m| format!("d{}: nop\n", m * (k + 2) % 5)).collect::<String>().into_bytes())], args: ASM });
        v.push(Job { name: "macros with arguments of the same name", files: vec![("in.s", format!("%macro p %a, %b, %c, %d, %a, %b, %c\n nop\n%end\n%macro p %z\n nop\n%end\n%macro p %y\n nop\n%end\n p {}\n", k).into_bytes())], args: ASM });
    }
    v
}

fn wrong_jobs() -> Vec<Job> {
    crate::d_diag::rejected().into_iter().map(|p| Job { name: Box::leak(format!("{:?}", p).into_boxed_str()), files: vec![("in.s", p.into_bytes())], args: &["assemble", "IN", "-o", "OUT"] }).collect()
}

fn install(dir: &Path, j: &Job) {
    for (n, b) in &j.files {
        let p = dir.join(n);
        if std::fs::write(&p, b).is_err() {
            let _ = std::fs::create_dir_all(p.parent().unwrap());
            std::fs::write(&p, b).expect("scratch file");
        }
    }
}

fn argv(j: &Job, input: &str, output: &str) -> Vec<String> {
    j.args
        .iter()
        .map(|a| match *a {
            "IN" => input.to_owned(),
            "OUT" => output.to_owned(),
            a => a.to_owned(),
        })
        .collect()
}

/// Makes an outcome comparable: names of files and unique parts of labels are replaced.
fn outcome(r: CliOut, j: &Job, dir: &Path, input: &str, output: &str, out: &Path) -> Outcome {
    let mut known = vec![];
    let mut clean = |b: &[u8]| -> Vec<u8> {
        let mut b = canonical(b, &mut known);
        b = replace(&b, output.as_bytes(), b"<OUT>");
        b = replace(&b, input.as_bytes(), b"<IN>");
        b = replace(&b, dir.join(j.files[0].0).to_str().unwrap().as_bytes(), b"<IN>");
        b = replace(&b, dir.to_str().unwrap().as_bytes(), b"<DIR>");
        b
    };
    let mut o = std::fs::read(out).ok();
    if j.name == "vmi" {
        if let Some(o) = &mut o {
            // the time
            for k in 0x44..0x4c.min(o.len()) {
                o[k] = 0;
            }
        }
    }
    let mut stdout = clean(&r.out);
    if j.args[0] == "icon" {
        // the second line repeats the command line
        let lines: Vec<&[u8]> = stdout.split(|b| *b == b'\n').collect();
        stdout = lines.iter().enumerate().filter(|(k, _)| *k != 1).map(|(_, l)| l.to_vec()).collect::<Vec<_>>().join(&b'\n');
    }
    let stderr = clean(&r.err);
    Outcome { code: r.code, output: o, stdout, stderr }
}

/// How the real program, run in the directory of the files, ends.
fn reference(ctx: &Ctx, jobs: &[Job], n: usize) -> Outcome {
    thread_local! { static KNOWN: RefCell<HashMap<usize, Outcome>> = RefCell::new(HashMap::new()); }
    if let Some(o) = KNOWN.with(|k| k.borrow().get(&n).cloned()) {
        return o;
    }
    let dir = ctx.dir.join("ref");
    let o = fresh(ctx, &jobs[n], &dir);
    KNOWN.with(|k| k.borrow_mut().insert(n, o.clone()));
    o
}

fn fresh(ctx: &Ctx, j: &Job, dir: &Path) -> Outcome {
    let _ = std::fs::remove_dir_all(dir);
    let _ = std::fs::create_dir_all(dir);
    install(dir, j);
    let args: Vec<std::ffi::OsString> = argv(j, j.files[0].0, "out.file").into_iter().map(|a| a.into()).collect();
    let r = run_binary(&ctx.cli_bin, &args, dir, &[("TZ", "UTC0".into())]);
    let o = outcome(r, j, dir, j.files[0].0, "out.file", &dir.join("out.file"));
    let _ = std::fs::remove_dir_all(dir);
    o
}

/// A terminal that passes on what it gets: (ours, the program's).
fn terminal() -> Option<(std::fs::File, std::fs::File)> {
    use std::os::unix::io::FromRawFd;
    unsafe {
        let (mut a, mut b) = (-1, -1);
        let mut raw: libc::termios = std::mem::zeroed();
        libc::cfmakeraw(&mut raw);
        raw.c_cflag |= libc::CREAD;
        if libc::openpty(&mut a, &mut b, std::ptr::null_mut(), &raw, std::ptr::null()) != 0 {
            return None;
        }
        libc::fcntl(a, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(b, libc::F_SETFD, libc::FD_CLOEXEC);
        Some((std::fs::File::from_raw_fd(a), std::fs::File::from_raw_fd(b)))
    }
}

/// Without sequences that change colours.
fn colourless(b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut k = 0;
    while k < b.len() {
        if b[k..].starts_with(b"\x1b[") {
            let mut e = k + 2;
            while e < b.len() && (b[e].is_ascii_digit() || b[e] == b';') {
                e += 1;
            }
            if e < b.len() && b[e] == b'm' {
                k = e + 1;
                continue;
            }
        }
        out.push(b[k]);
        k += 1;
    }
    out
}

/// Does the text end in a colour other than the terminal's own?
fn left_coloured(b: &[u8]) -> bool {
    let t = String::from_utf8_lossy(b);
    match t.rfind("\x1b[") {
        Some(k) => !(t[k..].starts_with("\x1b[0m") || t[k..].starts_with("\x1b[m")),
        None => false,
    }
}

/// Runs the program with standard output (1), standard error (2) or both (3) on terminals.
fn on_terminal(bin: &Path, args: &[String], dir: &Path, env: &[(&str, &str)], which: usize) -> Option<(CliOut, bool)> {
    use std::io::Read;
    use std::os::unix::process::ExitStatusExt;
    let mut c = std::process::Command::new(bin);
    c.args(args).current_dir(dir).env("PWD", dir).env("TZ", "UTC0").env_remove("TERM").stdin(std::process::Stdio::null());
    for (k, v) in env {
        c.env(k, v);
    }
    let mut readers = vec![];
    for k in [1, 2] {
        let (mut ours, theirs): (Box<dyn Read + Send>, std::process::Stdio) = if which & k != 0 {
            let (a, b) = terminal()?;
            (Box::new(a), b.into())
        } else {
            let mut p = [0; 2];
            use std::os::unix::io::FromRawFd;
            unsafe {
                if libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
                    return None;
                }
                (Box::new(std::fs::File::from_raw_fd(p[0])), std::fs::File::from_raw_fd(p[1]).into())
            }
        };
        if k == 1 {
            c.stdout(theirs);
        } else {
            c.stderr(theirs);
        }
        readers.push(std::thread::spawn(move || {
            let mut v = vec![];
            let mut buf = [0; 4096];
            // a terminal nobody holds any more gives an error
            while let Ok(n) = ours.read(&mut buf) {
                if n == 0 {
                    break;
                }
                v.extend_from_slice(&buf[..n]);
            }
            v
        }));
    }
    let mut child = c.spawn().expect("the program cannot be run");
    // our copies of the program's ends
    drop(c);
    let status = child.wait().expect("the program cannot be waited for");
    let err = readers.pop().unwrap().join().ok()?;
    let out = readers.pop().unwrap().join().ok()?;
    let left = left_coloured(&out) || left_coloured(&err);
    let strip = |v: Vec<u8>, k: usize| if which & k != 0 { colourless(&v) } else { v };
    Some((CliOut { code: status.code().unwrap_or_else(|| 128 + status.signal().unwrap_or(0)), out: strip(out, 1), err: strip(err, 2) }, left))
}

/// Runs an earlier command inside this (forked) process.
fn in_child(j: &Job, dir: &Path) {
    let input = dir.join(j.files[0].0);
    let out = dir.join("out.file");
    let a = argv(j, input.to_str().unwrap(), out.to_str().unwrap());
    let argv: Vec<String> = std::iter::once("waterbear".to_owned()).chain(a).collect();
    if j.args[0] == "assemble" {
        // the library: errors come back
        let mut files = waterbear::files::SourceFiles::new();
        let _ = waterbear::assemble_file(&mut files, input.to_str().unwrap()).map_err(|e| format!("{:?}", e));
    } else {
        waterbear::run_command(&argv);
    }
}

/// Commands that end the process when they fail cannot be followed by others.
fn may_precede(j: &Job) -> bool {
    j.name != "expansion of an error"
}

fn relative(from: &Path, to: &Path) -> PathBuf {
    let a: Vec<_> = from.components().collect();
    let b: Vec<_> = to.components().collect();
    let mut k = 0;
    while k < a.len() && k < b.len() && a[k] == b[k] {
        k += 1;
    }
    let mut p = PathBuf::new();
    for _ in k..a.len() {
        p.push("..");
    }
    for c in &b[k..] {
        p.push(c);
    }
    p
}

/// A directory with files of the same names, but other contents.
fn decoy(root: &Path, j: &Job) -> PathBuf {
    let d = root.join("decoy");
    std::fs::create_dir_all(d.join("sub")).expect("scratch");
    for (f, b) in &j.files {
        if std::fs::create_dir_all(d.join(f).parent().unwrap()).is_ok() {
            std::fs::write(d.join(f), if f.ends_with(".s") { b" .byte 99\nwrong: nop\n".to_vec() } else { b.iter().map(|x| x ^ 1).collect() }).expect("scratch");
        }
    }
    d
}

fn placed(ctx: &mut Ctx, jobs: &[Job], n: usize, place: usize, spelling: usize, cwd: usize, pwd: usize) -> Verdict {
    let j = &jobs[n];
    let root = ctx.dir.join("places");
    let _ = std::fs::remove_dir_all(&root);
    let home = root.join(["a", "b/c/d/e", "with space \u{e9}\u{1f43b}", "a.s", "real", "UPPER.dir/sub"][place]);
    std::fs::create_dir_all(&home).expect("scratch");
    install(&home, j);
    let home = if place == 4 {
        std::os::unix::fs::symlink(&home, root.join("alias")).expect("scratch");
        root.join("alias")
    } else {
        home
    };
    let dir = match cwd {
        0 => home.clone(),
        1 => root.clone(),
        2 => PathBuf::from("/"),
        3 => {
            decoy(&root, j)
        }
        4 => {
            let d = home.join("below");
            std::fs::create_dir_all(&d).expect("scratch");
            d
        }
        _ => {
            let d = root.join("x/y/z");
            std::fs::create_dir_all(&d).expect("scratch");
            d
        }
    };
    let abs = home.join(j.files[0].0);
    // `..` after a symbolic link leads elsewhere
    let rel = if cwd == 4 && place == 4 { Path::new("..").join(j.files[0].0) } else { relative(&dir, &abs) };
    let input = match spelling {
        0 => abs.to_str().unwrap().to_owned(),
        1 => rel.to_str().unwrap().to_owned(),
        2 => format!("./{}", rel.to_str().unwrap()),
        3 => format!("{}/.//{}", home.to_str().unwrap(), j.files[0].0),
        4 => {
            std::fs::create_dir_all(home.join("side")).expect("scratch");
            format!("{}/side/../{}", home.to_str().unwrap(), j.files[0].0)
        }
        _ => format!("//{}", &abs.to_str().unwrap()[1..]),
    };
    let out = root.join("result");
    let output = out.to_str().unwrap().to_owned();
    let mut c = std::process::Command::new(&ctx.cli_bin);
    c.args(argv(j, &input, &output)).current_dir(&dir).env("TZ", "UTC0").stdin(std::process::Stdio::null());
    let wrong = if pwd >= 2 { decoy(&root, j) } else { root.clone() };
    match pwd {
        0 => c.env_remove("PWD"),
        1 => c.env("PWD", &dir),
        2 => c.env("PWD", &wrong),
        3 => c.env("PWD", "/"),
        4 => c.env("PWD", ""),
        5 => c.env("PWD", "."),
        6 => c.env("PWD", "no/such"),
        7 => c.env("PWD", root.join("none")),
        8 => {
            use std::os::unix::ffi::OsStrExt;
            c.env("PWD", std::ffi::OsStr::from_bytes(b"/\xff"))
        }
        _ => {
            std::os::unix::fs::symlink(&dir, root.join("other name")).expect("scratch");
            c.env("PWD", root.join("other name"))
        }
    };
    let o = c.output().expect("the program cannot be run");
    use std::os::unix::process::ExitStatusExt;
    let code = o.status.code().unwrap_or_else(|| 128 + o.status.signal().unwrap_or(0));
    ctx.note(|| format!("--- cd {:?}; waterbear {:?} -> status {}\n{}", dir, argv(j, &input, &output), code, String::from_utf8_lossy(&o.stderr)));
    let mut got = outcome(CliOut { code, out: o.stdout, err: o.stderr }, j, &home, &input, &output, &out);
    let mut want = reference(ctx, &jobs, n);
    let _ = std::fs::remove_dir_all(&root);
    // messages name files by paths; that they name the right ones is D02
    got.stderr = vec![];
    want.stderr = vec![];
    match want.differs(&got) {
        Some(m) => Verdict::Fail(format!("{} from {:?} (PWD {}) as {:?}: {}", j.name, dir, pwd, input, m)),
        None => pass(true),
    }
}

pub fn d04(t: Tier) -> Check {
    let mut all = jobs();
    // the first `nj` are combined with each other; `nm` run under many conditions
    let nj = all.len();
    all.extend(more_jobs());
    let nm = all.len();
    all.extend(wrong_jobs());
    let nw = all.len();
    let jobs = Arc::new(all);
    let mut spaces = vec![];
    {
        let jobs = jobs.clone();
        let reps = t.q(48, 400);
        spaces.push(Space::new("repetitions", &format!("every command {} times, each in a process of its own: the same status, output and messages", reps), (nw * reps) as u64, move |i, ctx| {
            let n = i as usize % nw;
            let want = reference(ctx, &jobs, n);
            let dir = ctx.dir.join("rep");
            let got = fresh(ctx, &jobs[n], &dir);
            match want.differs(&got) {
                Some(m) => Verdict::Fail(format!("{}: {}", jobs[n].name, m)),
                None => pass(true),
            }
        }));
    }
    {
        let jobs = jobs.clone();
        let seeds = t.q(300, 4000);
        let few = t.q(60, 1000);
        spaces.push(Space::new("hash seeds", &format!("every command in a process of another age: {} states of the seed of the standard library's hash tables ({} for the programs with one error)", seeds, few), (nm * seeds + (nw - nm) * few) as u64, move |i, ctx| {
            let i = i as usize;
            let (n, k) = if i < nm * seeds { (i % nm, i / nm) } else { (nm + (i - nm * seeds) % (nw - nm), (i - nm * seeds) / (nw - nm)) };
            let want = reference(ctx, &jobs, n);
            let got = after(ctx, &jobs, &[], n, k);
            match want.differs(&got) {
                Some(m) => Verdict::Fail(format!("{} with seed {}: {}", jobs[n].name, k, m)),
                None => pass(true),
            }
        }));
    }
    {
        // histories
        let jobs = jobs.clone();
        let depth = t.q(2u32, 3);
        let n = nj as u64;
        let total: u64 = (1..=depth + 1).map(|d| n.pow(d)).sum();
        spaces.push(Space::new("histories", &format!("every sequence of up to {} earlier commands in the same process: the last one ends as in a process of its own", depth), total, move |i, ctx| {
            let mut i = i;
            let mut d = 1;
            while i >= n.pow(d) {
                i -= n.pow(d);
                d += 1;
            }
            let mut m = Mix(i);
            let seq: Vec<usize> = (0..d).map(|_| m.take(nj)).collect();
            let last = seq[seq.len() - 1];
            let before = &seq[..seq.len() - 1];
            if before.iter().any(|b| !may_precede(&jobs[*b])) {
                return pass(false);
            }
            let want = reference(ctx, &jobs, last);
            let got = after(ctx, &jobs, before, last, 0);
            ctx.states += 1;
            ctx.transitions += seq.len() as u64;
            ctx.validated += 1;
            match want.differs(&got) {
                Some(m) => Verdict::Fail(format!("{} after {:?}: {}", jobs[last].name, before.iter().map(|b| jobs[*b].name).collect::<Vec<_>>(), m)),
                None => pass(true),
            }
        }));
    }
    {
        // files that change between commands
        let changes = Arc::new(changes());
        let nc = changes.len();
        let depth = t.q(3u32, 4);
        let total: u64 = (1..=depth).map(|d| 4u64.pow(d)).sum();
        spaces.push(Space::new(
            "changed files",
            &format!("{} commands of which one file (the source, an included source, binary, header, icon, eyecatch or sprite, an image, a game) has four versions (one of the same length and age, one of another length, one absent): every sequence of up to {} versions in one process, as library calls or commands; the last result is that of a process of its own", nc, depth),
            nc as u64 * total * 2,
            move |i, ctx| {
                let mut m = Mix(i);
                let c = &changes[m.take(nc)];
                let cn = i as usize % nc;
                let commands = m.take(2) == 1;
                let mut j = m.0;
                let mut d = 1;
                while j >= 4u64.pow(d) {
                    j -= 4u64.pow(d);
                    d += 1;
                }
                let mut m = Mix(j);
                let seq: Vec<usize> = (0..d).map(|_| m.take(4)).collect();
                changed(ctx, &changes, cn, c, &seq, commands)
            },
        ));
    }
    {
        // places and spellings
        let jobs = jobs.clone();
        spaces.push(Space::new(
            "places",
            "every command with its files in 6 places, named in 6 ways, from 6 working directories (one with other files of the same names), with PWD set or not",
            (nj * 6 * 6 * 6 * 2) as u64,
            move |i, ctx| {
                let mut m = Mix(i);
                let n = m.take(nj);
                let place = m.take(6);
                let spelling = m.take(6);
                let cwd = m.take(6);
                placed(ctx, &jobs, n, place, spelling, cwd, m.take(2))
            },
        ));
    }
    {
        let jobs = jobs.clone();
        spaces.push(Space::new(
            "stale PWD",
            "every command with its files in 2 places, named in 3 ways, from 3 working directories, with PWD one of eight that name another directory (one with other files of the same names), no directory, or the working directory in another way",
            (nj * 2 * 3 * 3 * 8) as u64,
            move |i, ctx| {
                let mut m = Mix(i);
                let n = m.take(nj);
                let place = [0, 4][m.take(2)];
                let spelling = m.take(3);
                let cwd = [0, 1, 4][m.take(3)];
                placed(ctx, &jobs, n, place, spelling, cwd, 2 + m.take(8))
            },
        ));
    }
    {
        // surroundings
        let jobs = jobs.clone();
        const VARS: &[&[(&str, &str)]] = &[
            &[("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8")],
            &[("LANG", "C"), ("LC_ALL", "C")],
            &[("TERM", "xterm-256color"), ("CLICOLOR_FORCE", "1"), ("COLORTERM", "truecolor")],
            &[("TERM", "dumb"), ("NO_COLOR", "1")],
            &[("COLUMNS", "10"), ("LINES", "2")],
            &[("HOME", "/nonexistent"), ("USER", "nobody"), ("TMPDIR", "/nonexistent")],
            &[("RUST_BACKTRACE", "full"), ("RUST_LOG", "trace"), ("RUST_MIN_STACK", "100000000")],
            &[("PATH", "")],
            &[("MALLOC_PERTURB_", "165"), ("MALLOC_ARENA_MAX", "1")],
        ];
        spaces.push(Space::new("surroundings", "every command with nine settings of environment variables, with an empty environment, and with three kinds of standard input", (nj * (VARS.len() + 1) * 3) as u64, move |i, ctx| {
            let mut m = Mix(i);
            let n = m.take(nj);
            let var = m.take(VARS.len() + 1);
            let stdin = m.take(3);
            let j = &jobs[n];
            let dir = ctx.dir.join("env");
            let _ = std::fs::remove_dir_all(&dir);
            let _ = std::fs::create_dir_all(&dir);
            install(&dir, j);
            let want = reference(ctx, &jobs, n);
            let mut c = std::process::Command::new(&ctx.cli_bin);
            c.args(argv(j, j.files[0].0, "out.file")).current_dir(&dir);
            if var == VARS.len() {
                c.env_clear();
            } else {
                c.env("PWD", &dir);
                for (k, v) in VARS[var] {
                    c.env(k, v);
                }
            }
            c.env("TZ", "UTC0");
            c.stdin(match stdin {
                0 => std::process::Stdio::null(),
                1 => std::process::Stdio::piped(),
                _ => std::process::Stdio::from(std::fs::File::open(dir.join(j.files[0].0)).expect("scratch")),
            });
            c.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
            let o = c.spawn().expect("the program cannot be run").wait_with_output().expect("the program cannot be run");
            use std::os::unix::process::ExitStatusExt;
            let code = o.status.code().unwrap_or_else(|| 128 + o.status.signal().unwrap_or(0));
            let got = outcome(CliOut { code, out: o.stdout, err: o.stderr }, j, &dir, j.files[0].0, "out.file", &dir.join("out.file"));
            let _ = std::fs::remove_dir_all(&dir);
            match want.differs(&got) {
                Some(m) => Verdict::Fail(format!("{} with {:?}: {}", j.name, VARS.get(var), m)),
                None => pass(true),
            }
        }));
    }
    {
        // terminals
        let jobs = jobs.clone();
        const TERMS: &[&[(&str, &str)]] = &[&[("TERM", "xterm-256color")], &[("TERM", "dumb")], &[], &[("TERM", "xterm"), ("NO_COLOR", "1")], &[("TERM", "linux"), ("COLUMNS", "20"), ("LINES", "3")]];
        let total = jobs.len();
        spaces.push(Space::new("terminals", "every command with its standard output, its messages, or both on a terminal, of five kinds: but for colours, the same, and the colours are reset at the end", (total * TERMS.len() * 3) as u64, move |i, ctx| {
            let mut m = Mix(i);
            let which = m.take(3) + 1;
            let term = TERMS[m.take(TERMS.len())];
            let n = m.0 as usize;
            let j = &jobs[n];
            let want = reference(ctx, &jobs, n);
            let dir = ctx.dir.join("tty");
            let _ = std::fs::remove_dir_all(&dir);
            let _ = std::fs::create_dir_all(&dir);
            install(&dir, j);
            let r = on_terminal(&ctx.cli_bin, &argv(j, j.files[0].0, "out.file"), &dir, term, which);
            let v = match r {
                // no terminals here
                None => pass(false),
                Some((_, true)) => Verdict::Fail(format!("{} leaves the terminal ({}) in a colour, with {:?}", j.name, which, term)),
                Some((r, false)) => {
                    let got = outcome(r, j, &dir, j.files[0].0, "out.file", &dir.join("out.file"));
                    match want.differs(&got) {
                        Some(m) => Verdict::Fail(format!("{} on a terminal ({}) with {:?}: {}", j.name, which, term, m)),
                        None => pass(true),
                    }
                }
            };
            let _ = std::fs::remove_dir_all(&dir);
            v
        }));
    }
    {
        // library and command line
        let jobs = jobs.clone();
        let asm: Vec<usize> = (0..nj).filter(|n| jobs[*n].args[0] == "assemble").collect();
        let na = asm.len();
        spaces.push(Space::new("library", "every program assembled through the library, up to three times with the same or with other programs' source files loaded", (na * (na + 1) * 2) as u64, move |i, ctx| {
            let mut m = Mix(i);
            let n = asm[m.take(na)];
            let other = m.take(na + 1);
            let again = m.take(2) == 1;
            let want = reference(ctx, &jobs, n);
            let dir = ctx.dir.join("lib");
            let _ = std::fs::remove_dir_all(&dir);
            install_in(&dir.join("one"), &jobs[n]);
            let path = dir.join("one").join(jobs[n].files[0].0);
            let mut files = waterbear::files::SourceFiles::new();
            if other < na {
                let o = &jobs[asm[other]];
                install_in(&dir.join("two"), o);
                let p = dir.join("two").join(o.files[0].0);
                let _ = waterbear::assemble_file(&mut files, p.to_str().unwrap());
            }
            if again {
                let _ = waterbear::assemble_file(&mut files, path.to_str().unwrap());
            }
            let r = waterbear::assemble_file(&mut files, path.to_str().unwrap());
            let _ = std::fs::remove_dir_all(&dir);
            match (r, &want.output) {
                (Ok(b), Some(w)) if b == *w => pass(true),
                (Err(_), None) => pass(true),
                (Ok(b), Some(w)) => Verdict::Fail(format!("{}: the library and the program differ: {}", jobs[n].name, diff(w, &b))),
                (Ok(_), None) => Verdict::Fail(format!("{}: the library assembles what the program rejects", jobs[n].name)),
                (Err(_), Some(_)) => Verdict::Fail(format!("{}: the library rejects what the program assembles", jobs[n].name)),
            }
        }));
    }
    Check {
        level: "model_checking",
        spaces,
        assumptions: vec![
            "The states of the histories are the sequences of commands a process has run; the specification says that they are all equivalent, and every one is validated against the implementation.".into(),
            "The time in VMI files is set by the clock and not compared here (C03 checks it).".into(),
        ],
    }
}

/// A command of which one file changes; `None`: the file is absent.
struct Change {
    job: Job,
    file: usize,
    versions: [Option<Vec<u8>>; 4],
}

fn changes() -> Vec<Change> {
    let jobs = jobs();
    let find = |name: &str| jobs.iter().find(|j| j.name == name).map(|j| Job { name: j.name, files: j.files.clone(), args: j.args }).expect("job");
    let mut v = vec![];
    let mut add = |name: &str, file: usize, other: Vec<u8>, longer: Vec<u8>| {
        let job = find(name);
        let versions = [Some(job.files[file].1.clone()), Some(other), Some(longer), None];
        v.push(Change { job, file, versions });
    };
    let swap = |name: &str, file: usize, from: &str, to: &str| -> Vec<u8> {
        let j = find(name);
        let b = &j.files[file].1;
        let r = replace(b, from.as_bytes(), to.as_bytes());
        assert!(r != *b && r.len() == b.len());
        r
    };
    let with = |b: &[u8], tail: &str| -> Vec<u8> { [b, tail.as_bytes()].concat() };
    for (name, file, from, to, tail) in [
        ("tiny", 0, "3", "4", " nop\n"),
        ("includes", 0, "one, two", "two, one", " .byte five\n"),
        ("includes", 1, "one = 1", "one = 7", " fromA\n"),
        ("includes", 2, "two = 2", "two = 9", " fromA\n nop\n"),
        ("includes", 3, "nop", "ret", " nop\n"),
        ("includes", 5, "THREE 3", "THREE 6", "#define SIX 6\n"),
        ("error in a macro", 0, "out 300", "out 900", "; more\n"),
        ("error in an included file", 1, "frob", "frab", "; more\n"),
        ("expanded nested macros", 0, "out 3", "out 5", " out 9, 9\n"),
    ] {
        let other = swap(name, file, from, to);
        let longer = with(&other, tail);
        add(name, file, other, longer);
    }
    add("includes", 4, vec![9, 6, 7], vec![1, 2, 3, 4]);
    let flip = |p: &Pic| -> Pic { Pic::new(p.w, p.h, p.frames[0].iter().rev().cloned().collect()) };
    let plain = |w: usize, h: usize, c: u8| Pic::solid(w, h, [c, c, c, 255]);
    let (icon, eye, sprite) = pictures();
    add("images", 1, png(&flip(&icon), PngKind::Rgba8), png(&plain(32, 32, 17), PngKind::Rgb8));
    add("images", 2, png(&flip(&eye), PngKind::Rgba8), png(&plain(72, 56, 34), PngKind::Rgb8));
    add("images", 3, png(&flip(&sprite), PngKind::Rgba8), png(&plain(24, 2, 0), PngKind::Rgb8));
    add("icon", 0, png(&flip(&icon), PngKind::Rgba8), png(&plain(32, 32, 17), PngKind::Rgb8));
    add("image", 0, png(&flip(&sprite), PngKind::Rgba8), png(&plain(24, 2, 0), PngKind::Rgb8));
    add("masked image", 0, gif(&flip(&sprite)), gif(&plain(24, 2, 0)));
    let code = find("disassembly").files[0].1.clone();
    let other: Vec<u8> = code.iter().map(|b| b ^ 4).collect();
    add("disassembly", 0, other.clone(), with(&code, "abc"));
    add("disassembly with everything", 0, other, with(&code, "abc"));
    let game = find("vmi").files[0].1.clone();
    add("vmi", 0, game.iter().map(|b| b ^ 1).collect(), with(&game, "abc"));
    v
}

fn set_version(dir: &Path, c: &Change, k: usize) {
    let p = dir.join(c.job.files[c.file].0);
    match &c.versions[k] {
        Some(b) => {
            std::fs::write(&p, b).expect("scratch file");
            let f = std::fs::File::options().write(true).open(&p).expect("scratch file");
            let _ = f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_600_000_000));
        }
        None => {
            let _ = std::fs::remove_file(&p);
        }
    }
}

/// Runs a command on a sequence of versions of its file in one process.
fn changed(ctx: &mut Ctx, changes: &Arc<Vec<Change>>, cn: usize, c: &Change, seq: &[usize], commands: bool) -> Verdict {
    thread_local! { static KNOWN: RefCell<HashMap<(usize, usize), Outcome>> = RefCell::new(HashMap::new()); }
    let last = *seq.last().unwrap();
    let dir = ctx.dir.join(format!("changed{}", cn));
    let (input, out) = (c.job.files[0].0, dir.join("out.file"));
    let mut alone = |k: usize| -> Outcome {
        if let Some(o) = KNOWN.with(|m| m.borrow().get(&(cn, k)).cloned()) {
            return o;
        }
        let _ = std::fs::remove_dir_all(&dir);
        install_in(&dir, &c.job);
        set_version(&dir, c, k);
        let args: Vec<std::ffi::OsString> = argv(&c.job, input, "out.file").into_iter().map(|a| a.into()).collect();
        let r = run_binary(&ctx.cli_bin, &args, &dir, &[("TZ", "UTC0".into())]);
        let o = outcome(r, &c.job, &dir, input, "out.file", &out);
        KNOWN.with(|m| m.borrow_mut().insert((cn, k), o.clone()));
        o
    };
    let want = alone(last);
    // a command that fails ends the process
    let library = c.job.args[0] == "assemble" && !commands;
    if !library && seq[..seq.len() - 1].iter().any(|k| alone(*k).code != 0) {
        return pass(false);
    }
    install_in(&dir, &c.job);
    let _ = std::fs::remove_file(&out);
    let (ch, s2, d2) = (changes.clone(), seq.to_vec(), dir.clone());
    let r = run_forked(move || {
        let c = &ch[cn];
        std::env::set_var("TZ", "UTC0");
        std::env::set_current_dir(&d2).expect("scratch");
        std::env::set_var("PWD", &d2);
        let a: Vec<String> = std::iter::once("waterbear".to_owned()).chain(argv(&c.job, c.job.files[0].0, "out.file")).collect();
        let mut kept = waterbear::files::SourceFiles::new();
        unsafe {
            let n = std::ffi::CString::new("/dev/null").unwrap();
            let (o, e) = (libc::dup(1), libc::dup(2));
            let null = libc::open(n.as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 1);
            libc::dup2(null, 2);
            for k in &s2[..s2.len() - 1] {
                set_version(&d2, c, *k);
                if library {
                    let mut files = waterbear::files::SourceFiles::new();
                    let _ = waterbear::assemble_file(&mut files, c.job.files[0].0).map_err(|e| format!("{:?}", e));
                    let _ = waterbear::assemble_file(&mut kept, c.job.files[0].0).map_err(|e| format!("{:?}", e));
                } else {
                    waterbear::run_command(&a);
                }
            }
            use std::io::Write;
            let _ = std::io::stdout().flush();
            libc::dup2(o, 1);
            libc::dup2(e, 2);
        }
        let _ = std::fs::remove_file(d2.join("out.file"));
        set_version(&d2, c, *s2.last().unwrap());
        waterbear::run_command(&a);
    });
    let got = outcome(r, &c.job, &dir, input, "out.file", &out);
    ctx.states += 1;
    ctx.transitions += seq.len() as u64;
    ctx.validated += 1;
    match want.differs(&got) {
        Some(m) => Verdict::Fail(format!("{} after versions {:?} of {}: {}", c.job.name, seq, c.job.files[c.file].0, m)),
        None => pass(true),
    }
}

fn install_in(dir: &Path, j: &Job) {
    let _ = std::fs::create_dir_all(dir);
    install(dir, j);
}

/// Runs a command after others in one process.
fn after(ctx: &mut Ctx, jobs: &Arc<Vec<Job>>, before: &[usize], last: usize, seeds: usize) -> Outcome {
    let root = ctx.dir.join("hist");
    thread_local! { static DONE: RefCell<PathBuf> = RefCell::new(PathBuf::new()); }
    if DONE.with(|d| *d.borrow() != root) {
        for (k, j) in jobs.iter().enumerate() {
            install_in(&root.join(format!("{}", k)), j);
        }
        DONE.with(|d| *d.borrow_mut() = root.clone());
    }
    for k in before.iter().chain([&last]) {
        let _ = std::fs::remove_file(root.join(format!("{}/out.file", k)));
    }
    let dir = root.join(format!("{}", last));
    let (j2, b2, r2) = (jobs.clone(), before.to_vec(), root.clone());
    let r = run_forked(move || {
        std::env::set_var("TZ", "UTC0");
        for _ in 0..seeds {
            let _: HashMap<u8, u8> = HashMap::new();
        }
        unsafe {
            // what the earlier commands print is not of interest
            let n = std::ffi::CString::new("/dev/null").unwrap();
            let (o, e) = (libc::dup(1), libc::dup(2));
            let null = libc::open(n.as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 1);
            libc::dup2(null, 2);
            for k in &b2 {
                in_child(&j2[*k], &r2.join(format!("{}", k)));
            }
            use std::io::Write;
            let _ = std::io::stdout().flush();
            libc::dup2(o, 1);
            libc::dup2(e, 2);
        }
        let d = r2.join(format!("{}", last));
        std::env::set_current_dir(&d).expect("scratch");
        std::env::set_var("PWD", &d);
        let a = argv(&j2[last], j2[last].files[0].0, "out.file");
        let a: Vec<String> = std::iter::once("waterbear".to_owned()).chain(a).collect();
        waterbear::run_command(&a);
    });
    ctx.note(|| format!("--- status {}\n{}\n{}", r.code, trunc(&r.out_s(), 500), trunc(&r.err_s(), 500)));
    outcome(r, &jobs[last], &dir, jobs[last].files[0].0, "out.file", &dir.join("out.file"))
}
