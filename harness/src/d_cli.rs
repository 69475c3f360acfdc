//! D06: a command line does what its words mean, however it is spelt. Options in every order,
//! before or behind the input, short, long, attached or combined, must have the same effect
//! (files, standard output, status) as the plain spelling, and every option must have one.
//! Command lines that mean nothing are rejected without an effect.

use crate::engine::*;
use crate::imgw::*;
use crate::{Check, Tier};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// Run the real binary (thorough) and not a forked copy of this process.
static REAL: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Copy)]
struct Opt {
    short: &'static str,
    long: &'static str,
    /// None for a flag
    value: Option<&'static str>,
    required: bool,
}

struct Cmd {
    name: &'static str,
    input: &'static str,
    opts: &'static [Opt],
}

const fn val(short: &'static str, long: &'static str, v: &'static str) -> Opt {
    Opt { short, long, value: Some(v), required: false }
}
const fn need(short: &'static str, long: &'static str, v: &'static str) -> Opt {
    Opt { short, long, value: Some(v), required: true }
}
const fn flag(short: &'static str, long: &'static str) -> Opt {
    Opt { short, long, value: None, required: false }
}

const CMDS: &[Cmd] = &[
    Cmd { name: "assemble", input: "in.s", opts: &[need("o", "output", "made")] },
    Cmd { name: "expand", input: "in.s", opts: &[] },
    Cmd {
        name: "disassemble",
        input: "in.bin",
        opts: &[need("o", "output", "made"), flag("p", "positions"), flag("a", "arrived_from"), val("t", "type", "bios")],
    },
    Cmd { name: "icon", input: "in.png", opts: &[val("s", "speed", "300"), val("e", "eyecatch", "eye.png")] },
    Cmd { name: "image", input: "in.png", opts: &[val("o", "output", "made"), val("f", "format", "json")] },
    Cmd { name: "vmi", input: "in.vms", opts: &[val("o", "output", "made"), val("c", "copyright", "(C) me"), flag("g", "game")] },
    Cmd { name: "version", input: "", opts: &[] },
];

/// Spellings of an option with a value, and of a flag.
fn spell(o: &Opt, v: Option<&str>, how: usize) -> Vec<String> {
    match v {
        Some(v) => match how {
            0 => vec![format!("-{}", o.short), v.into()],
            1 => vec![format!("-{}{}", o.short, v)],
            2 => vec![format!("-{}={}", o.short, v)],
            3 => vec![format!("--{}", o.long), v.into()],
            _ => vec![format!("--{}={}", o.long, v)],
        },
        None => vec![if how == 0 { format!("-{}", o.short) } else { format!("--{}", o.long) }],
    }
}
fn spellings(o: &Opt) -> usize {
    if o.value.is_some() {
        5
    } else {
        2
    }
}

/// The order number `k` of `n` things.
fn order(n: usize, mut k: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        let m = left.len();
        out.push(left.remove(k % m));
        k /= m;
    }
    out
}

#[derive(PartialEq, Clone)]
struct Effect {
    code: i32,
    out: Vec<u8>,
    files: BTreeMap<String, Vec<u8>>,
}

impl Effect {
    fn show(&self) -> String {
        let f: Vec<_> = self.files.iter().map(|(n, c)| format!("{:?} with {} bytes", n, c.len())).collect();
        format!("status {}, {} bytes of standard output, files written: [{}]", self.code, self.out.len(), f.join(", "))
    }
    fn nothing(&self) -> bool {
        self.out.is_empty() && self.files.is_empty()
    }
}

fn sources() -> Vec<(String, Vec<u8>)> {
    let mut vms: Vec<u8> = (0..0x280usize).map(|i| (i * 7 + i / 256) as u8).collect();
    for i in [0x10, 0x210] {
        vms[i..i + 4].copy_from_slice(b"text");
    }
    let mut code = vec![0u8; 0x200];
    // the same code at 0 and at two entries of the firmware only
    for (i, at) in [0, 0x100, 0x1f0].into_iter().enumerate() {
        code[at..at + 5].copy_from_slice(&[0x23, 0x02, i as u8, 0x01, 0xFB]);
    }
    let two = |w, h, c: [Px; 2]| Pic { w, h, frames: vec![vec![c[0]; w * h], vec![c[1]; w * h]] };
    vec![
        ("in.s".into(), b" mm 5\n%macro mm %a\n mov #%a, $12\n%end\nx: br x\n".to_vec()),
        ("in.bin".into(), code),
        ("in.png".into(), png(&two(32, 32, [[9, 9, 9, 255], [200, 9, 255, 255]]), PngKind::Rgba8)),
        ("eye.png".into(), png(&Pic::solid(72, 56, [99, 0, 9, 255]), PngKind::Rgba8)),
        ("in.vms".into(), vms),
    ]
}

/// Calls the C interface in a child process.
fn by_c(d: &std::path::Path, args: Vec<Vec<u8>>) -> CliOut {
    let d = d.to_owned();
    run_forked(move || {
        let _ = std::env::set_current_dir(&d);
        std::env::set_var("PWD", &d);
        let c: Vec<std::ffi::CString> = std::iter::once(b"waterbear".to_vec()).chain(args).map(|a| std::ffi::CString::new(a).unwrap()).collect();
        // what lies behind the arguments is not one of them
        let mut p: Vec<_> = c.iter().map(|a| a.as_ptr()).collect();
        let n = p.len();
        p.push(b"--frob\0".as_ptr() as *const _);
        wbcapi::waterbear_invoke_command_line(n, p.as_ptr());
    })
}

/// Runs a command line in a directory with the inputs (and one of them under another name too).
fn run(ctx: &mut Ctx, args: &[String], extra: Option<(&str, &str)>) -> Effect {
    run_via(ctx, args, extra, false)
}

/// `c`: through the C interface.
fn run_via(ctx: &mut Ctx, args: &[String], extra: Option<(&str, &str)>, c: bool) -> Effect {
    let d = ctx.dir.join("w");
    let src = sources();
    let _ = std::fs::create_dir_all(d.join("sub"));
    for l in std::fs::read_dir(&d).unwrap() {
        let l = l.unwrap();
        if l.file_name() != "sub" {
            let _ = std::fs::remove_file(l.path());
        }
    }
    for (n, c) in &src {
        std::fs::write(d.join(n), c).expect("scratch");
    }
    if let Some((n, of)) = extra {
        let c = &src.iter().find(|s| s.0 == of).unwrap().1;
        std::fs::write(d.join(n), c).expect("scratch");
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let r = if c {
        by_c(&d, args.iter().map(|s| s.clone().into_bytes()).collect())
    } else if REAL.load(Relaxed) {
        let o: Vec<std::ffi::OsString> = args.iter().map(|s| s.into()).collect();
        run_binary(&ctx.cli_bin, &o, &d, &[])
    } else {
        ctx.cli_dir(&a, Some(&d))
    };
    let mut files = BTreeMap::new();
    for l in std::fs::read_dir(&d).unwrap() {
        let l = l.unwrap();
        let n = l.file_name().into_string().unwrap();
        if n == "sub" {
            continue;
        }
        let now = std::fs::read(l.path()).unwrap();
        let before = match extra {
            Some((e, of)) if e.trim_start_matches("./") == n => src.iter().find(|s| s.0 == of).map(|s| s.1.clone()),
            _ => src.iter().find(|s| s.0 == n).map(|s| s.1.clone()),
        };
        if before.as_ref() != Some(&now) {
            files.insert(n, now);
        }
    }
    for l in std::fs::read_dir(d.join("sub")).unwrap() {
        let l = l.unwrap();
        files.insert(format!("sub/{}", l.file_name().into_string().unwrap()), std::fs::read(l.path()).unwrap());
        let _ = std::fs::remove_file(l.path());
    }
    let mut out = r.out.clone();
    match a.first() {
        // the output of icon quotes the command line
        Some(&"icon") if r.code == 0 => {
            ctx.put("icon.s", &out);
            if let Asm::Ok(b) = ctx.assemble_path(&ctx.dir.join("icon.s")) {
                out = b;
            }
        }
        // the time of day
        Some(&"vmi") => {
            for c in files.values_mut() {
                if c.len() == 108 {
                    c[0x44..0x4c].fill(0);
                }
            }
        }
        _ => (),
    }
    Effect { code: r.code, out, files }
}

/// The plain spelling.
fn plain(cmd: &Cmd, input: &str, opts: &[(&Opt, Option<&str>)]) -> Vec<String> {
    let mut v = vec![cmd.name.to_owned()];
    if !input.is_empty() {
        v.push(input.into());
    }
    for (o, x) in opts {
        v.extend(spell(o, *x, 0));
    }
    v
}

fn same(ctx: &mut Ctx, args: &[String], want: &Effect) -> Verdict {
    let got = run(ctx, args, None);
    if got == *want {
        pass(true)
    } else {
        Verdict::Fail(format!("waterbear {:?}: {}, instead of {}", args, got.show(), want.show()))
    }
}

fn works(ctx: &mut Ctx, args: &[String], extra: Option<(&str, &str)>) -> Result<Effect, Verdict> {
    let e = run(ctx, args, extra);
    if e.code != 0 || e.nothing() {
        return Err(Verdict::Fail(format!("waterbear {:?}: {}, instead of success", args, e.show())));
    }
    Ok(e)
}

fn fails(ctx: &mut Ctx, args: &[String]) -> Verdict {
    let e = run(ctx, args, None);
    if e.code == 0 || !e.nothing() {
        return Verdict::Fail(format!("waterbear {:?}: {}, instead of a failure without an effect", args, e.show()));
    }
    pass(true)
}

fn fact(n: usize) -> usize {
    (1..=n).product()
}

fn s(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

/// The sets of options a command can have.
fn sets() -> Vec<(usize, Vec<usize>)> {
    let mut v = vec![];
    for (c, cmd) in CMDS.iter().enumerate() {
        for bits in 0..1usize << cmd.opts.len() {
            let set: Vec<usize> = (0..cmd.opts.len()).filter(|k| bits >> k & 1 == 1).collect();
            if cmd.opts.iter().enumerate().all(|(k, o)| !o.required || set.contains(&k)) {
                v.push((c, set));
            }
        }
    }
    v
}

/// Values of options, and names of inputs and outputs.
const VALUES: &[&str] = &["v", "a b", "a=b", "a,b", "\u{e9}\u{4e16}", "-v", "--v", "=v", "--", "-", "--output=x", "v=", "sub/v", "./v", "in", "version", " v", "v ", "v\t", "\"v\"", "'v'", "~", "$HOME", "*", "v\\w", "e\u{301}", "%41", "V", "v;w", "#v", "@v", "v:", "{v}"];

const INS: &[&str] = &["file", "symlink", "pipe", "standard input", "long path"];
const OUTS: &[&str] = &[
    "new", "longer", "shorter", "empty", "symlink", "dangling symlink", "the input", "symlink to the input", "/dev/stdout", "/dev/null", "roundabout", "absolute", "symlinked directory", "pipe",
];
/// (command, arguments behind the input, extension of the input)
const STREAMS: &[(&str, &[&str], &str)] = &[
    ("assemble", &["-o"], "s"),
    ("expand", &[], "s"),
    ("disassemble", &["-o"], "bin"),
    ("disassemble", &["-pa", "-o"], "bin"),
    ("icon", &[], "png"),
    ("image", &[], "png"),
    ("image", &["-o"], "png"),
    ("image", &["-f", "json", "-o"], "png"),
    ("vmi", &["-o"], "vms"),
    ("vmi", &["-g", "-o"], "vms"),
];

/// Where the input comes from and the output goes to makes no difference.
fn stream(ctx: &mut Ctx, job: usize, inp: usize, outp: usize) -> Verdict {
    use std::process::{Command, Stdio};
    let (cmd, rest, ext) = STREAMS[job];
    let writes = rest.last() == Some(&"-o");
    if !writes && outp > 0 || inp != 0 && (outp == 6 || outp == 7) || inp == 3 && ext == "png" {
        return pass(false);
    }
    let d = ctx.dir.join("st");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(d.join("sub")).expect("scratch");
    let data = sources().into_iter().find(|s| s.0 == format!("in.{}", ext)).unwrap().1;
    let input = format!("in.{}", ext);
    std::fs::write(d.join(&input), &data).expect("scratch");
    // the reference
    let os = |v: &[String]| -> Vec<std::ffi::OsString> { v.iter().map(|s| s.into()).collect() };
    let mut args = s(&[cmd, &input]);
    args.extend(s(rest));
    if writes {
        args.push("ref".into());
    }
    let r = run_binary(&ctx.cli_bin, &os(&args), &d, &[]);
    let mut want = if writes { std::fs::read(d.join("ref")).unwrap_or_default() } else { r.out.clone() };
    if r.code != 0 || want.is_empty() {
        return Verdict::Fail(format!("waterbear {:?}: status {} {}", args, r.code, r.err_s()));
    }
    // the input
    let mut helpers: Vec<std::process::Child> = vec![];
    let mut sh = |script: String| helpers.push(Command::new("sh").arg("-c").arg(script).current_dir(&d).stdin(Stdio::null()).stdout(Stdio::null()).spawn().expect("sh"));
    let fifo = |n: &str| {
        let c = std::ffi::CString::new(d.join(n).to_str().unwrap()).unwrap();
        unsafe { libc::mkfifo(c.as_ptr(), 0o600) };
    };
    let from = match inp {
        0 => input.clone(),
        1 => {
            std::os::unix::fs::symlink(&input, d.join(format!("link.{}", ext))).expect("scratch");
            format!("link.{}", ext)
        }
        2 => {
            let n = format!("pipe.{}", ext);
            fifo(&n);
            sh(format!("exec cat {} > {}", input, n));
            n
        }
        3 => "/dev/stdin".to_owned(),
        _ => format!("{}{}", "sub/.././".repeat(100), input),
    };
    // the output
    let put = |n: &str, c: &[u8]| std::fs::write(d.join(n), c).expect("scratch");
    let link = |to: &str, n: &str| std::os::unix::fs::symlink(to, d.join(n)).expect("scratch");
    let long = vec![b'#'; want.len() + 5000];
    let mut lands = "made".to_owned();
    let to = match outp {
        0 => "made".to_owned(),
        1 => {
            put("made", &long);
            "made".into()
        }
        2 => {
            put("made", b"#");
            "made".into()
        }
        3 => {
            put("made", b"");
            "made".into()
        }
        4 => {
            put("made", &long);
            link("made", "alias");
            "alias".into()
        }
        5 => {
            link("made", "alias");
            "alias".into()
        }
        6 => {
            lands = input.clone();
            input.clone()
        }
        7 => {
            lands = input.clone();
            link(&input, "alias");
            "alias".into()
        }
        8 => "/dev/stdout".into(),
        9 => "/dev/null".into(),
        10 => "sub/../././made".into(),
        11 => d.join("made").to_str().unwrap().to_owned(),
        12 => {
            link("sub", "there");
            lands = "sub/made".into();
            "there/made".into()
        }
        _ => {
            fifo("opipe");
            sh("exec cat opipe > made".into());
            "opipe".into()
        }
    };
    let mut args = s(&[cmd, &from]);
    args.extend(s(rest));
    if writes {
        args.push(to);
    }
    let stdin = if inp == 3 {
        // a pipe
        let mut c = Command::new("cat").arg(d.join(&input)).stdin(Stdio::null()).stdout(Stdio::piped()).spawn().expect("cat");
        let o = c.stdout.take().unwrap();
        helpers.push(c);
        Stdio::from(o)
    } else {
        Stdio::null()
    };
    let r = Command::new(&ctx.cli_bin).args(&args).current_dir(&d).env("PWD", &d).stdin(stdin).output().expect("the binary");
    if outp == 13 {
        // ends when the binary has closed the pipe
        let reader = (inp == 2) as usize;
        let _ = helpers[reader].wait();
    }
    for h in &mut helpers {
        let _ = h.kill();
        let _ = h.wait();
    }
    let mut got = if !writes || outp == 8 { r.stdout.clone() } else { std::fs::read(d.join(&lands)).unwrap_or_default() };
    let said = String::from_utf8_lossy(&r.stderr).into_owned();
    if outp == 9 {
        got = want.clone();
    }
    let bad = |m: String| Verdict::Fail(format!("waterbear {:?}, input: {}, output: {}: {}: {}", args, INS[inp], OUTS[outp], m, trunc(&said, 300)));
    if r.status.code() != Some(0) {
        return bad(format!("{}", r.status));
    }
    if writes && outp != 8 && !r.stdout.is_empty() {
        return bad("something on standard output".into());
    }
    if cmd == "vmi" {
        for c in [&mut got, &mut want] {
            if c.len() == 108 {
                c[0x44..0x4c].fill(0);
                if inp > 0 {
                    c[0..4].fill(0);
                    c[0x50..0x64].fill(0);
                }
            }
        }
    }
    if cmd == "icon" {
        for c in [&mut got, &mut want] {
            ctx.put("icon.s", c);
            if let Asm::Ok(b) = ctx.assemble_path(&ctx.dir.join("icon.s")) {
                *c = b;
            }
        }
    }
    if got != want {
        return bad(format!("another result: {}", diff(&want, &got)));
    }
    // nothing else is touched
    let mut names: Vec<String> = vec![];
    for (p, d) in [("", d.clone()), ("sub/", d.join("sub"))] {
        for l in std::fs::read_dir(d).unwrap() {
            let n = format!("{}{}", p, l.unwrap().file_name().into_string().unwrap());
            if ![input.as_str(), "ref", "sub", "alias", "there", "opipe", &lands, &format!("link.{}", ext), &format!("pipe.{}", ext)].contains(&n.as_str()) {
                names.push(n);
            }
        }
    }
    if !names.is_empty() {
        return bad(format!("other files were written: {:?}", names));
    }
    if lands != input && std::fs::read(d.join(&input)).ok() != Some(data) {
        return bad("the input was changed".into());
    }
    pass(true)
}

pub fn d06(t: Tier) -> Check {
    let mut spaces = vec![];
    REAL.store(t.q(false, true), Relaxed);
    let all = sets();
    let mut offs = vec![];
    let mut tot = 0u64;
    for (c, set) in &all {
        offs.push(tot);
        let items = set.len() + !CMDS[*c].input.is_empty() as usize;
        tot += (fact(items) * set.iter().map(|k| spellings(&CMDS[*c].opts[*k])).product::<usize>()) as u64;
    }
    let sets1 = all.clone();
    let known = std::cell::RefCell::new(BTreeMap::<usize, Effect>::new());
    spaces.push(Space::new(
        "spellings",
        "every command with every set of its options, in every order with the input, in every spelling (-o x, -ox, -o=x, --output x, --output=x; -p, --positions): the same files, standard output and status as the plain spelling",
        tot,
        move |i, ctx| {
            let b = offs.iter().rposition(|o| *o <= i).unwrap();
            let (c, set) = &sets1[b];
            let cmd = &CMDS[*c];
            let mut m = Mix(i - offs[b]);
            let opts: Vec<(&Opt, Option<&str>)> = set.iter().map(|k| (&cmd.opts[*k], cmd.opts[*k].value)).collect();
            let before = known.borrow().get(&b).cloned();
            let want = match before {
                Some(e) => e,
                None => match works(ctx, &plain(cmd, cmd.input, &opts), None) {
                    Ok(e) => e,
                    Err(v) => return v,
                },
            };
            known.borrow_mut().insert(b, want.clone());
            let mut items: Vec<Vec<String>> = opts.iter().map(|(o, v)| spell(o, *v, m.take(spellings(o)))).collect();
            if !cmd.input.is_empty() {
                items.push(vec![cmd.input.into()]);
            }
            let mut args = vec![cmd.name.to_owned()];
            for k in order(items.len(), m.0 as usize) {
                args.extend(items[k].iter().cloned());
            }
            same(ctx, &args, &want)
        },
    ));
    // flags in one word
    let clusters: Vec<(&str, &str, &[&str], &[&str])> = vec![
        ("disassemble", "in.bin", &["p", "a"], &["o:made", "t:bios"]),
        ("vmi", "in.vms", &["g"], &["o:made", "c:(C) me"]),
    ];
    let mut words: Vec<(Vec<String>, Vec<String>)> = vec![];
    for (cmd, input, flags, vals) in &clusters {
        for nf in 1..=flags.len() {
            for k in 0..fact(flags.len()) {
                let fl: Vec<&str> = order(flags.len(), k).into_iter().take(nf).map(|j| flags[j]).collect();
                for lead in [None, Some(0), Some(1)] {
                    // the value that ends the word
                    for how in 0..3 {
                        for before in [false, true] {
                            let mut p = s(&[cmd, input]);
                            let mut a = vec![];
                            let mut word = format!("-{}", fl.concat());
                            for f in &fl {
                                p.push(format!("-{}", f));
                            }
                            let mut tail = vec![];
                            for (j, v) in vals.iter().enumerate() {
                                let (o, x) = v.split_once(':').unwrap();
                                p.extend([format!("-{}", o), x.to_owned()]);
                                if lead == Some(j) {
                                    match how {
                                        0 => {
                                            word.push_str(o);
                                            tail.push(x.to_owned());
                                        }
                                        1 => word.push_str(&format!("{}{}", o, x)),
                                        _ => word.push_str(&format!("{}={}", o, x)),
                                    }
                                } else {
                                    a.extend([format!("-{}", o), x.to_owned()]);
                                }
                            }
                            let mut args = vec![cmd.to_string()];
                            if before {
                                args.push(input.to_string());
                            }
                            args.extend(a);
                            args.push(word);
                            args.extend(tail);
                            if !before {
                                args.push(input.to_string());
                            }
                            words.push((p, args));
                        }
                    }
                }
            }
        }
    }
    spaces.push(Space::new(
        "combined",
        "the flags of disassemble and vmi in one word in every order, with or without an option with a value at its end (-pa, -apo x, -got...), before and behind the input",
        words.len() as u64,
        move |i, ctx| {
            let (p, a) = &words[i as usize];
            match works(ctx, p, None) {
                Ok(e) => same(ctx, a, &e),
                Err(v) => v,
            }
        },
    ));
    // effects
    let sets2 = all.clone();
    spaces.push(Space::new(
        "effects",
        "every command with every set of its options against the same without one of them: the effect is another one, and of the right kind",
        (all.len() * 4) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let drop = m.take(4);
            let (c, set) = &sets2[m.take(sets2.len())];
            let cmd = &CMDS[*c];
            let opts: Vec<(&Opt, Option<&str>)> = set.iter().map(|k| (&cmd.opts[*k], cmd.opts[*k].value)).collect();
            let with = match works(ctx, &plain(cmd, cmd.input, &opts), None) {
                Ok(e) => e,
                Err(v) => return v,
            };
            // what is written where
            let to = if opts.iter().any(|(o, _)| o.short == "o") {
                Some("made")
            } else if cmd.name == "vmi" {
                Some("in.vmi")
            } else {
                None
            };
            let files: Vec<&str> = with.files.keys().map(|k| k.as_str()).collect();
            if files != to.into_iter().collect::<Vec<_>>() || with.out.is_empty() != to.is_some() {
                return Verdict::Fail(format!("waterbear {:?}: {}", plain(cmd, cmd.input, &opts), with.show()));
            }
            if drop >= opts.len() || opts[drop].0.required {
                return pass(false);
            }
            let mut less = opts.clone();
            let gone = less.remove(drop).0;
            let without = match works(ctx, &plain(cmd, cmd.input, &less), None) {
                Ok(e) => e,
                Err(v) => return v,
            };
            if with == without {
                return Verdict::Fail(format!("{}: --{} has no effect", cmd.name, gone.long));
            }
            if gone.short == "o" {
                // only where it goes
                let a = with.files.values().next().unwrap();
                let b = without.files.values().next().unwrap_or(&without.out);
                // (a line ends on standard output)
                if a.strip_suffix(b"\n").unwrap_or(a) != b.strip_suffix(b"\n").unwrap_or(b) {
                    return Verdict::Fail(format!("{}: --output changes what is written", cmd.name));
                }
            }
            pass(true)
        },
    ));
    // values
    let nv = VALUES.len();
    let takers: Vec<(usize, usize)> = CMDS
        .iter()
        .enumerate()
        .flat_map(|(c, cmd)| cmd.opts.iter().enumerate().filter(|(_, o)| o.short == "o" || o.short == "c" || o.short == "e").map(move |(k, _)| (c, k)))
        .collect();
    let nt = takers.len();
    spaces.push(Space::new(
        "values",
        "outputs, eyecatches and copyright texts with blanks, dashes, equals signs, commas, other letters or the words of the command line, in every spelling that can hold them, before and behind the input: the value is taken as it is",
        (nt * nv * 5 * 2) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let v = VALUES[m.take(nv)];
            let how = m.take(5);
            let before = m.take(2) == 0;
            let (c, k) = takers[m.take(nt)];
            let cmd = &CMDS[c];
            let o = &cmd.opts[k];
            // a word that starts with a dash is an option; equals signs after -o or --output are the spelling's
            if (how == 0 || how == 3) && v.starts_with('-') && v != "-" || how != 0 && how != 3 && v.starts_with('=') {
                return pass(false);
            }
            if o.short == "e" && (v == "-" && (how == 0 || how == 3) || v == "in" || !v.is_ascii() || v.contains('/')) {
                // needs an image's extension
                return pass(false);
            }
            let name = if o.short == "e" { format!("{}.png", v) } else { v.to_owned() };
            let mut args = vec![cmd.name.to_owned()];
            let mut tail = spell(o, Some(&name), how);
            for q in cmd.opts.iter().filter(|q| q.required && q.short != o.short) {
                tail.extend(spell(q, q.value, 0));
            }
            if !before {
                args.push(cmd.input.into());
            }
            args.extend(tail);
            if before {
                args.push(cmd.input.into());
            }
            let extra = if o.short == "e" { Some((name.as_str(), "eye.png")) } else { None };
            let got = match works(ctx, &args, extra) {
                Ok(e) => e,
                Err(v) => return v,
            };
            let mut opts: Vec<(&Opt, Option<&str>)> = cmd.opts.iter().filter(|q| q.required).map(|q| (q, q.value)).collect();
            let bad = |what: &str| Verdict::Fail(format!("waterbear {:?}: {}: {}", args, what, got.show()));
            match o.short {
                "o" => {
                    if !o.required {
                        opts.push((o, o.value));
                    }
                    let want = run(ctx, &plain(cmd, cmd.input, &opts), None);
                    let file = name.trim_start_matches("./");
                    if got.files.len() != 1 || got.files.get(file) != want.files.get("made") {
                        return bad("not the same as in any other output");
                    }
                }
                "c" => {
                    let b = match got.files.get("in.vmi") {
                        Some(b) if b.len() == 108 => b,
                        _ => return bad("no VMI file"),
                    };
                    let mut w = name.as_bytes().to_vec();
                    w.resize(32, 0);
                    if b[0x24..0x44] != w[..] {
                        return bad("not the copyright text");
                    }
                }
                _ => {
                    opts.push((o, Some("eye.png")));
                    if got != run(ctx, &plain(cmd, cmd.input, &opts), None) {
                        return bad("not the same as with an eyecatch of another name");
                    }
                }
            }
            pass(true)
        },
    ));
    // names of inputs
    const INPUTS: &[&str] = &["v", "a b", "a=b", "a,b", "\u{e9}\u{4e16}", "-v", "--v", "=v", "-o", "--output", "-", "help", "version", "assemble", "./v", "--help", "-V", " v", "v ", "v\t", "\"v\"", "'v'", "~", "$HOME", "*", "v\\w", "e\u{301}", "%41", "V", "v;w", "#v", "@v", "v:", "{v}"];
    let ni = INPUTS.len();
    spaces.push(Space::new(
        "inputs",
        "inputs named like options and commands or with blanks, equals signs, commas and other letters, before and behind the options; those that start with a dash behind --",
        ((CMDS.len() - 1) * ni * 3) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let how = m.take(3);
            let n = INPUTS[m.take(ni)];
            let cmd = &CMDS[m.0 as usize];
            if how < 2 && n.starts_with('-') {
                return pass(false);
            }
            let ext = &cmd.input[2..];
            let name = if n.ends_with(char::is_whitespace) { format!("v{}{}", ext, &n[1..]) } else { format!("{}{}", n, ext) };
            if ext == ".png" && !name.ends_with(ext) || cmd.name == "vmi" && !name.ends_with(ext) {
                return pass(false);
            }
            let opts: Vec<(&Opt, Option<&str>)> = cmd.opts.iter().map(|o| (o, o.value)).collect();
            let want = match works(ctx, &plain(cmd, cmd.input, &opts), None) {
                Ok(e) => e,
                Err(v) => return v,
            };
            let mut flat = vec![];
            for (o, v) in &opts {
                flat.extend(spell(o, *v, 0));
            }
            let mut args = vec![cmd.name.to_owned()];
            match how {
                0 => {
                    args.push(name.clone());
                    args.extend(flat);
                }
                1 => {
                    args.extend(flat);
                    args.push(name.clone());
                }
                _ => {
                    args.extend(flat);
                    args.push("--".into());
                    args.push(name.clone());
                }
            }
            let mut got = run(ctx, &args, Some((&name, cmd.input)));
            if cmd.name == "vmi" {
                // the file's own name is in it
                let blank = |e: &mut Effect| {
                    for c in e.files.values_mut() {
                        c[0..4].fill(0);
                        c[0x50..0x64].fill(0);
                    }
                };
                let mut want = want.clone();
                blank(&mut got);
                blank(&mut want);
                if got == want {
                    return pass(true);
                }
            }
            if got == want {
                pass(true)
            } else {
                Verdict::Fail(format!("waterbear {:?}: {}, instead of {}", args, got.show(), want.show()))
            }
        },
    ));
    let (nj, ni2, no) = (STREAMS.len(), INS.len(), OUTS.len());
    spaces.push(Space::new(
        "streams",
        "every command with its input a file, a symbolic link, a pipe, standard input or a path of 900 letters, and its output new, longer, shorter or empty before, a symbolic link (dangling too), the input itself, a device, a pipe, named in a roundabout way or absolutely: the same result at that place, and no other file is touched",
        (nj * ni2 * no) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let job = m.take(nj);
            let a = m.take(ni2);
            stream(ctx, job, a, m.0 as usize)
        },
    ));
    // the C interface
    let sets3 = all.clone();
    let bytes: &'static [&'static [u8]] = &[b"\xff", b"a\x80", b"\xc3", b"-o\xff", b"\xed\xa0\x80", b"--\xfe=x"];
    spaces.push(Space::new(
        "C interface",
        "every command with every set of its options through libwaterbear's C function, with 33 input names and an empty argument in any place: the same effect as the command line; an argument that is not text in any place is rejected, and the calling process does not abort",
        (all.len() * (1 + VALUES.len() + (bytes.len() + 2) * 10)) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let (c, set) = &sets3[m.take(sets3.len())];
            let cmd = &CMDS[*c];
            let opts: Vec<(&Opt, Option<&str>)> = set.iter().map(|k| (&cmd.opts[*k], cmd.opts[*k].value)).collect();
            let k = m.0 as usize;
            if k <= VALUES.len() {
                let name = if k == 0 || cmd.input.is_empty() { cmd.input.to_owned() } else { format!("{}{}", VALUES[k - 1], &cmd.input[2..]) };
                if name.contains("sub/") {
                    return pass(false);
                }
                let extra = if k == 0 || cmd.input.is_empty() { None } else { Some((name.as_str(), cmd.input)) };
                let args = plain(cmd, &name, &opts);
                let want = run(ctx, &args, extra);
                let got = run_via(ctx, &args, extra, true);
                return if got == want { pass(true) } else { Verdict::Fail(format!("the C interface with {:?}: {}, instead of {}", args, got.show(), want.show())) };
            }
            let k = k - VALUES.len() - 1;
            if k < 20 {
                // an empty argument, in addition or instead
                let (at, instead) = (k / 2, k % 2 == 1);
                let mut args = plain(cmd, cmd.input, &opts);
                if at > args.len() || instead && at == args.len() {
                    return pass(false);
                }
                args.insert(at, String::new());
                if instead {
                    args.remove(at + 1);
                }
                let want = run(ctx, &args, None);
                let got = run_via(ctx, &args, None, true);
                return if got == want { pass(true) } else { Verdict::Fail(format!("the C interface with {:?}: {}, instead of {}", args, got.show(), want.show())) };
            }
            let k = k - 20;
            let mut args: Vec<Vec<u8>> = plain(cmd, cmd.input, &opts).into_iter().map(|a| a.into_bytes()).collect();
            let at = k / bytes.len();
            if at > args.len() {
                return pass(false);
            }
            args.insert(at, bytes[k % bytes.len()].to_vec());
            let d = ctx.dir.join("c");
            let _ = std::fs::remove_dir_all(&d);
            std::fs::create_dir_all(&d).expect("scratch");
            for (n, c) in sources() {
                std::fs::write(d.join(n), c).expect("scratch");
            }
            let r = by_c(&d, args.clone());
            if r.crashed() || r.code == 0 || r.err.is_empty() || std::fs::read_dir(&d).unwrap().count() != sources().len() {
                let a: Vec<_> = args.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect();
                return Verdict::Fail(format!("the C interface with {:?}: {} {}", a, describe_code(r.code), trunc(&r.err_s(), 200)));
            }
            pass(true)
        },
    ));
    // speeds
    const SPEEDS: &[(&str, Option<u16>)] = &[
        ("0", Some(0)),
        ("1", Some(1)),
        ("007", Some(7)),
        ("10", Some(10)),
        ("255", Some(255)),
        ("256", Some(256)),
        ("65535", Some(65535)),
        ("65536", None),
        ("65546", None),
        ("131072", None),
        ("4294967306", None),
        ("18446744073709551626", None),
        ("99999999999999999999999999999999999999999", None),
        ("-1", None),
        ("-0", None),
        ("1.0", None),
        ("1.5", None),
        ("1e3", None),
        ("0x10", None),
        ("$10", None),
        ("10h", None),
        ("%1", None),
        ("ten", None),
        ("1 0", None),
        ("1,0", None),
        ("1_0", None),
        ("\u{661}", None),
        ("\u{ff11}", None),
    ];
    spaces.push(Space::new("speeds", "28 texts as the speed of an icon in 3 spellings, with and without an eyecatch: numbers from 0 to 65535 are stored, all others are rejected", (SPEEDS.len() * 3 * 2) as u64, |i, ctx| {
        let mut m = Mix(i);
        let how = [1, 2, 4][m.take(3)];
        let eye = m.take(2) == 1;
        let (text, want) = SPEEDS[m.0 as usize];
        let o = &CMDS[3].opts[0];
        let mut args = s(&["icon", "in.png"]);
        args.extend(spell(o, Some(text), how));
        if eye {
            args.extend(s(&["-e", "eye.png"]));
        }
        match want {
            None => fails(ctx, &args),
            Some(v) => match works(ctx, &args, None) {
                Ok(e) if e.out.len() > 4 && e.out[2..4] == v.to_le_bytes() => pass(true),
                Ok(e) => Verdict::Fail(format!("waterbear {:?}: another speed is stored: {}", args, hex(&e.out[..e.out.len().min(16)]))),
                Err(v) => v,
            },
        }
    }));
    // types and formats
    let kinds: Vec<(&'static str, &'static str, &'static str, bool)> = vec![
        ("disassemble", "t", "type", true),
    ];
    const TYPES: &[&str] = &["game", "file", "raw", "bios", "Game", "GAME", "BIOS", "gam", "games", " bios", "bios ", "biosgame", "game,bios", "-", "0", "f", "r", "b", "firmware", "vms", "raw\n"];
    spaces.push(Space::new("types", "21 words as the type of a disassembly in every spelling: the four documented ones work, and raw is the default; all others are rejected", (TYPES.len() * 5) as u64, move |i, ctx| {
        let mut m = Mix(i);
        let how = m.take(5);
        let ty = TYPES[m.0 as usize];
        let (cmd, short, long, _) = kinds[0];
        let o = Opt { short, long, value: Some(""), required: false };
        let mut args = s(&[cmd, "in.bin", "-o", "made"]);
        let bare = args.clone();
        args.extend(spell(&o, Some(ty), how));
        if !["game", "file", "raw", "bios"].contains(&ty) {
            return fails(ctx, &args);
        }
        let got = match works(ctx, &args, None) {
            Ok(e) => e,
            Err(v) => return v,
        };
        let def = run(ctx, &bare, None);
        if (got == def) != (ty != "bios") {
            return Verdict::Fail(format!("waterbear {:?}: {}; by default {}", args, got.show(), def.show()));
        }
        pass(true)
    }));
    // command lines that mean nothing
    let mut wrong: Vec<Vec<String>> = vec![vec![]];
    for cmd in CMDS {
        let good: Vec<(&Opt, Option<&str>)> = cmd.opts.iter().map(|o| (o, o.value)).collect();
        let full = plain(cmd, cmd.input, &good);
        let base = |skip: &str| {
            let v: Vec<(&Opt, Option<&str>)> = good.iter().filter(|g| g.0.short != skip).cloned().collect();
            plain(cmd, cmd.input, &v)
        };
        // without an input or a required option
        if !cmd.input.is_empty() {
            wrong.push(plain(cmd, "", &good));
            wrong.push(plain(cmd, "", &good.iter().filter(|g| g.0.required).cloned().collect::<Vec<_>>()));
            wrong.push(vec![cmd.name.into()]);
        }
        for o in cmd.opts {
            if o.required {
                wrong.push(base(o.short));
                wrong.push(plain(cmd, cmd.input, &[]));
            }
            let w = base(o.short);
            if o.value.is_some() {
                // the value is missing
                for x in [format!("-{}", o.short), format!("--{}", o.long)] {
                    let mut v = w.clone();
                    v.push(x.clone());
                    wrong.push(v);
                    let mut v = vec![cmd.name.to_owned(), x];
                    v.extend(w[1..].iter().filter(|a| *a != cmd.input).cloned());
                    wrong.push(v);
                }
            }
            // misspelt
            for x in [format!("--{}", o.short), format!("-{}", o.long), format!("--{}x", o.long), format!("--{}", &o.long[..o.long.len() - 1]), format!("-{}", o.short.to_uppercase()), format!("--{}", o.long.to_uppercase())] {
                if x == "-V" || x == "-pa" {
                    continue;
                }
                // (-output x would be -o utput and another input)
                let mut v = base(o.short);
                v.push(x);
                if let Some(y) = o.value {
                    v.push(y.to_owned());
                }
                if !(o.value.is_none() && v.last().unwrap()[1..].starts_with(o.short)) {
                    wrong.push(v);
                }
            }
        }
        // something else in any place
        for x in ["-x", "-xp", "--frob", "--frob=1", "-z1", "more", "--no-output", "-1", "---"] {
            for at in 0..=full.len() {
                // not as the value of an option
                if at > 0 && full[at - 1].starts_with('-') && cmd.opts.iter().any(|o| o.value.is_some() && full[at - 1] == format!("-{}", o.short)) {
                    continue;
                }
                let mut v = full.clone();
                v.insert(at, x.to_owned());
                wrong.push(v);
            }
        }
        // the command
        for x in [cmd.name.to_uppercase(), format!("{}s", cmd.name), cmd.name[1..].to_owned(), cmd.name[..2].to_owned(), format!("-{}", cmd.name), format!("--{}", cmd.name), String::new(), format!(" {}", cmd.name)] {
            if x == "--version" {
                continue;
            }
            let mut v = full.clone();
            v[0] = x;
            wrong.push(v);
        }
        // options first, or no command
        if full.len() > 2 {
            let mut v = full[2..].to_vec();
            v.extend(full[..2].iter().cloned());
            wrong.push(v);
        }
        if full.len() > 1 {
            wrong.push(full[1..].to_vec());
        }
        // options of other commands
        for other in CMDS {
            for o in other.opts {
                if cmd.opts.iter().any(|p| p.short == o.short) {
                    continue;
                }
                for how in 0..spellings(o) {
                    let mut v = full.clone();
                    v.extend(spell(o, o.value, how));
                    wrong.push(v);
                }
            }
        }
    }
    wrong.sort();
    wrong.dedup();
    spaces.push(Space::new(
        "wrong",
        "every command without its input or a required option, with a value missing, with options and commands misspelt, unknown or of another command, words inserted at every place: rejected, and nothing is written",
        wrong.len() as u64,
        move |i, ctx| fails(ctx, &wrong[i as usize]),
    ));
    // help and version
    let mut info: Vec<Vec<String>> = vec![s(&["help"]), s(&["-h"]), s(&["--help"]), s(&["-V"]), s(&["--version"]), s(&["version"])];
    for cmd in CMDS {
        for x in ["-h", "--help", "-V", "--version"] {
            info.push(s(&[cmd.name, x]));
            let good: Vec<(&Opt, Option<&str>)> = cmd.opts.iter().map(|o| (o, o.value)).collect();
            let full = plain(cmd, cmd.input, &good);
            let mut v = full.clone();
            v.insert(1, x.to_owned());
            info.push(v);
        }
        info.push(s(&["help", cmd.name]));
    }
    spaces.push(Space::new(
        "help",
        "help and version of the program and of every command, alone and before complete options: status 0, something on standard output, and nothing is done; what is printed for a command names each of its options",
        info.len() as u64,
        move |i, ctx| {
            let a = &info[i as usize];
            let e = run(ctx, a, None);
            if e.code != 0 || e.out.is_empty() || !e.files.is_empty() {
                return Verdict::Fail(format!("waterbear {:?}: {}", a, e.show()));
            }
            let text = String::from_utf8_lossy(&e.out).into_owned();
            if a.iter().any(|x| x == "help" || x == "-h" || x == "--help") {
                match CMDS.iter().find(|c| a.iter().any(|x| x == c.name)) {
                    Some(c) => {
                        for o in c.opts {
                            for w in [format!("-{}", o.short), format!("--{}", o.long)] {
                                if !text.split(|c: char| c.is_whitespace() || c == ',' || c == '=' || c == '<' || c == '[').any(|x| x == w) {
                                    return Verdict::Fail(format!("waterbear {:?} does not name {}", a, w));
                                }
                            }
                        }
                    }
                    None => {
                        for c in CMDS {
                            if !text.split_whitespace().any(|x| x == c.name) {
                                return Verdict::Fail(format!("waterbear {:?} does not name {}", a, c.name));
                            }
                        }
                    }
                }
            }
            pass(true)
        },
    ));
    Check {
        level: "exploration",
        spaces,
        assumptions: vec![
            "What the plain spelling (command, input, -x value) writes is judged by the other checks; here it is the reference for all other spellings.".into(),
            "Repeated options are not judged.".into(),
        ],
    }
}
