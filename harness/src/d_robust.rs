//! D01: every input ends in success or a clean error.
//!
//! Every case runs a command of the real command-line entry point in a forked child. The verdict
//! is about how it ends: status 0 with the output in place, or a small non-zero status with a
//! message and no output; never a panic, a signal, or more time than the case's limit.

use crate::engine::*;
use crate::imgw::*;
use crate::{Check, Tier};
use std::cell::RefCell;
use std::rc::Rc;

/// Judges one finished run. `output`: the file the command would write.
pub fn clean_end(r: &CliOut, output: Option<&std::path::Path>) -> Result<bool, String> {
    let err = r.err_s();
    if r.crashed() || err.contains("PANIC") || err.contains("panicked at") {
        return Err(format!("ended with status {}: {}", r.code, trunc(err.trim(), 700)));
    }
    if r.code != 0 && err.trim().is_empty() {
        return Err(format!("status {} without any message", r.code));
    }
    if let Some(p) = output {
        let there = p.exists();
        let _ = std::fs::remove_file(p);
        if r.code == 0 && !there {
            return Err("success, but no output was written".into());
        }
        if r.code != 0 && there {
            return Err(format!("status {}, but an output file was written", r.code));
        }
    }
    Ok(r.code == 0)
}

/// Runs a command that writes to `o.out` (or standard output) on the given input file.
pub fn run_clean(ctx: &mut Ctx, args: &[&str], output: bool) -> Result<bool, String> {
    let out = ctx.dir.join("o.out");
    let o = out.to_str().unwrap().to_owned();
    let mut a: Vec<&str> = args.to_vec();
    if output {
        a.push("-o");
        a.push(&o);
    }
    let r = ctx.cli(&a);
    clean_end(&r, if output { Some(&out) } else { None }).map_err(|m| format!("waterbear {}: {}", a.join(" "), m))
}

fn assemble_and_expand(ctx: &mut Ctx, src: &[u8], expand: bool) -> Verdict {
    let p = ctx.put("t.s", src);
    let p = p.to_str().unwrap().to_owned();
    let a = match run_clean(ctx, &["assemble", &p], true) {
        Ok(a) => a,
        Err(m) => return Verdict::Fail(m),
    };
    if expand {
        match run_clean(ctx, &["expand", &p], false) {
            // whatever assembles can be expanded
            Ok(e) if a && !e => return Verdict::Fail("assembles, but cannot be expanded".into()),
            Ok(_) => {}
            Err(m) => return Verdict::Fail(m),
        }
    }
    pass(a)
}

/// The support files that programs of this module include.
fn support(ctx: &mut Ctx) {
    thread_local! { static DONE: RefCell<std::path::PathBuf> = RefCell::new(Default::default()); }
    if DONE.with(|d| *d.borrow() == ctx.dir) {
        return;
    }
    ctx.put("inc.s", b"inc_label: add #1\n");
    ctx.put("bad.s", b"  add #1\n  frob #2 ; no such instruction\n");
    ctx.put("self.s", b".include \"self.s\"\n");
    ctx.put("a.s", b"nop\n.include \"b.s\"\n");
    ctx.put("b.s", b"nop\n.include \"a.s\"\n");
    ctx.put("root.s", b"nop\n.include \"t.s\"\n");
    ctx.put("empty.s", b"");
    ctx.put("macro.s", b"%macro mm %a\n  add %a\n%end\n");
    ctx.put("open.s", b"%macro open %a\n  add %a\n");
    ctx.put("d.bin", &[1, 2, 3, 0xff]);
    ctx.put("empty.bin", b"");
    ctx.put("h.h", b"#define HH 3 /* x */\n// y\n#define GG (HH + 1)\n");
    ctx.put("bad.h", b"#define\n");
    ctx.put("junk.png", b"\x89PNG\r\n\x1a\njunk");
    ctx.put("bin.s", &[0xff, 0xfe, 0x00]);
    let pic = Pic::new(32, 32, (0..1024).map(|i| [(i % 4 * 85) as u8, 0, 255, 255]).collect());
    ctx.put("ic.png", &png(&pic, PngKind::Pal));
    let pic = Pic::solid(72, 56, [10, 20, 30, 255]);
    ctx.put("eye.png", &png(&pic, PngKind::Pal));
    let pic = Pic::new(5, 3, (0..15).map(|i| [(i * 17) as u8; 4]).collect());
    ctx.put("sp.png", &png(&pic, PngKind::Rgba8));
    let pic = Pic::solid(300, 1, [0, 0, 0, 255]);
    ctx.put("wide.png", &png(&pic, PngKind::Pal));
    let d = ctx.dir.clone();
    DONE.with(|x| *x.borrow_mut() = d);
}

const TOKENS: &[&str] = &[
    " ", "\n", "a", "a:", ".b:", ".b", ".byte ", ".word", ".org ", ".cnop", ".text ", ".string", ".include", "bytes", "icon", "sprite", "asm", "cpp", "%macro", "%end", "m", "%a",
    "%l:", "%", "\"inc.s\"", "\"", "\\", "1", "$", "0x", "0b", "%1", "'", "#", "@R0", "@", "+", "-", "*", "/", "(", ")", ",", "=", ";", "add ", "bp ", "mov ", "é", "\u{301}", "\0",
    "4294967296", "<", ">", "&", "\r\n", "\t", "\u{feff}", "\u{2028}", "_", ".", ":", "header", "speed",
];

/// Programs that use everything there is.
pub const CORPUS: &[&str] = &[
    " .org 0\nstart:\n  mov #%1010_0101, $1ff\n  add @R3\n  bne #255, .x\n.x: jmp start\n",
    "x = 1 + 2 * (3 - -4) / 5\n .byte x, <x, >x, \"str\\n\\\"q\", 'x'\n",
    ".word $ffff, 0b1010, 0o17, 1'000, %101\n.byte 1, 2,\n",
    ".text 10 \"abc\"\n.string 10 \"d\\\\e;*\"\n.text 4 $41, 'B', 67\n",
    ".cnop 0, 16\n.cnop $10, 4\n .org $200\n nop\n",
    "*comment\n; another \"one\n\tnop ; c\n  NOP\r\n\n",
    "%macro copy %from, %to\n  mov %from, acc\n%loop:\n  bnz %loop\n  st %to\n%end\n copy #1, $10\n copy @R1, $11\n",
    "%macro m\n nop\n%end\n%macro m %a\n m\n add #%a\n%end\n m 3\n m\n",
    ".include \"inc.s\"\n.include asm \"macro.s\"\n mm #3\n",
    ".include bytes \"d.bin\"\n.include cpp \"h.h\"\n .byte HH, GG\n",
    ".include icon \"ic.png\" speed=10, eyecatch=\"eye.png\"\n",
    ".include sprite \"sp.png\" type=\"masked\" header=\"no\"\n.include sprite \"sp.png\"\n",
    "ocr = $0e\n set1 ocr, 5\n clr1 OCR, 0\n not1 ext, 0\n jmpf $1234\n callr far\nfar: ret\n",
    "be #1, l\nbe $10, l\nbe @R0, #4, l\nl: bpc psw, 7, l\ndbnz @R2, l\nbr l\nbrf l\n",
    "push acc\npop b\nld @R0\nst $100\nldc\nxch @R3\nror\nrolc\ndiv\nmul\nreti\n",
    "lbl.name = 4\n_x9: .byte lbl.name + _x9\né = 1\n.byte é\n",
    ".include sprite \"wide.png\"\n",
    " add #256\n",
    " bp acc, 8, 0\n .org 70000\n",
    " .byte undefined + 1\n",
    "a:\na:\n",
    " .include \"bad.s\"\n",
    "%macro r\n r\n%end\n r\n",
    ".include \"a.s\"\n",
];

/// Lines, right and wrong, for sequences of statements.
const LINES: &[&str] = &[
    " nop",
    "a: add #1",
    "a = 1",
    "b = a",
    ".l: br .l",
    " br a",
    " br nowhere",
    " jmp $1000",
    " .org $fff0",
    " .org $10000",
    " .cnop 0, 0",
    " .cnop 7, 300",
    " .text 3 \"abcd\"",
    " .text 5 \"a\"",
    " .string 0 \"\"",
    " .byte 256",
    " .byte 1/0",
    " .byte 2147483647+1",
    " .byte -(-2147483647-1)",
    " .word",
    " .include \"inc.s\"",
    " .include \"bad.s\"",
    " .include \"t.s\"",
    " .include \"root.s\"",
    " .include \"none.s\"",
    " .include \"empty.s\"",
    " .include \"open.s\"",
    " .include \"bin.s\"",
    " .include \".\"",
    " .include \"\"",
    " .include bytes \"empty.bin\"",
    " .include bytes \"none\"",
    " .include bytes \"\\0\"",
    " .include cpp \"bad.h\"",
    " .include icon \"sp.png\"",
    " .include icon \"ic.png\" speed=a",
    " .include icon \"ic.png\" eyecatch=\"ic.png\"",
    " .include sprite \"junk.png\"",
    " .include sprite \"wide.png\"",
    " .include sprite \"sp.png\" type=\"no\"",
    "%macro m",
    "%macro m %a",
    "%macro add %a",
    "%end",
    " m",
    " m #1",
    " m m",
    "%l:",
    " add %a",
    "%q: add %q",
    " add #1, #2, #3",
    " add ##1",
    " add #(#1)",
    " add @R4",
    " @R0",
    "\"",
    "*/",
    "é\u{301}: .byte \"é\u{301}",
    " frob",
    "\u{0}",
];

fn joined(toks: &[&str], mut i: u64, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(toks[(i % toks.len() as u64) as usize]);
        i /= toks.len() as u64;
    }
    s
}

/// Index of a sequence of 0..=n elements over k symbols.
fn seqs(k: u64, n: u32) -> u64 {
    (0..=n).map(|d| k.pow(d)).sum()
}

fn seq_of(k: u64, mut i: u64) -> (usize, u64) {
    let mut n = 0;
    while i >= k.pow(n) {
        i -= k.pow(n);
        n += 1;
    }
    (n as usize, i)
}

const BYTES: &[u8] = &[
    0, 9, 10, 13, 32, b'"', b'#', b'$', b'%', b'&', b'\'', b'(', b')', b'*', b'+', b',', b'-', b'.', b'/', b'0', b'9', b':', b';', b'<', b'=', b'>', b'@', b'A', b'F', b'R', b'\\', b'_', b'a', b'b', b'x', b'~', 0x7f, 0x80, 0xc3, 0xa9, 0xe2, 0xff,
];

/// Things that grow.
fn growing() -> Vec<(&'static str, Rc<dyn Fn(usize) -> String>)> {
    fn r(s: &str, n: usize) -> String {
        s.repeat(n)
    }
    let f: Vec<(&'static str, Rc<dyn Fn(usize) -> String>)> = vec![
        ("open parentheses", Rc::new(|n| format!(" .byte {}1{}\n", r("(", n), r(")", n)))),
        ("unclosed parentheses", Rc::new(|n| format!(" .byte {}1\n", r("(", n)))),
        ("prefix minus", Rc::new(|n| format!(" .byte {}1\n", r("-", n)))),
        ("prefix bytes", Rc::new(|n| format!(" .byte {}1\n", r("<", n)))),
        ("sum", Rc::new(|n| format!(" .byte 1{}\n", r("+1-1", n)))),
        ("mixed operators", Rc::new(|n| format!(" .byte 1{}\n", r("&1+1*1", n)))),
        ("dangling operators", Rc::new(|n| format!(" .byte 1{}\n", r("*", n)))),
        ("blank lines", Rc::new(|n| r("\n", n))),
        ("carriage returns", Rc::new(|n| r("\r\n", n))),
        ("spaces", Rc::new(|n| r(" ", n))),
        ("comment", Rc::new(|n| format!(";{}\n nop\n", r("c", n)))),
        ("comments", Rc::new(|n| r("; c\n", n))),
        ("star comments", Rc::new(|n| r("* c\n", n))),
        ("name", Rc::new(|n| format!("{}: .word {}\n", r("a", n), r("A", n)))),
        ("string", Rc::new(|n| format!(" .byte \"{}\"\n", r("s", n % 60000)))),
        ("escapes", Rc::new(|n| format!(" .byte \"{}\"\n", r("\\n", n % 60000)))),
        ("unclosed string", Rc::new(|n| format!(" .byte \"{}\n", r("s\n", n)))),
        ("combining characters", Rc::new(|n| format!(" .byte \"{}\"\n nop e{}\n", r("e\u{301}", n % 10000), r("\u{301}", n)))),
        ("digits", Rc::new(|n| format!(" .byte {}1\n", r("0", n)))),
        ("hexadecimal digits", Rc::new(|n| format!(" .byte $1{}\n", r("0", n)))),
        ("separators", Rc::new(|n| format!(" .byte 1{}1\n", r("'", n)))),
        ("values", Rc::new(|n| format!(" .byte 1{}\n", r(", 1", n % 60000)))),
        ("words", Rc::new(|n| format!(" .word 1{}\n", r(", a", n % 30000) + "\na:"))),
        ("commas", Rc::new(|n| format!(" .byte {}\n", r(",", n)))),
        ("instructions", Rc::new(|n| r(" nop\n", n % 65000))),
        ("labels", Rc::new(|n| (0..n).map(|i| format!("l{}:\n", i)).collect())),
        ("local labels", Rc::new(|n| (0..n).map(|i| format!("g{}:\n.l: nop\n br .l\n", i)).take(20000).collect())),
        ("variables", Rc::new(|n| format!("v0 = 1\n{}", (1..n.min(20000)).map(|i| format!("v{} = v{}\n", i, i - 1)).collect::<String>()))),
        ("aliases", Rc::new(|n| (0..n).map(|i| format!("v{} = {}\n", i, i)).collect())),
        ("colons", Rc::new(|n| format!("a{}\n", r(":", n)))),
        ("operands", Rc::new(|n| format!(" add #1{}\n", r(", #1", n)))),
        ("hashes", Rc::new(|n| format!(" add {}1\n", r("#", n)))),
        ("indirections", Rc::new(|n| format!(" add {}\n", r("@R0", n)))),
        ("percents", Rc::new(|n| format!(" add {}1\n", r("%", n)))),
        ("macro arguments", Rc::new(|n| format!("%macro m {}\n nop\n%end\n", (0..n.min(20000)).map(|i| format!("%a{}", i)).collect::<Vec<_>>().join(", ")))),
        ("macros", Rc::new(|n| (0..n.min(20000)).map(|i| format!("%macro m{}\n nop\n%end\n m{}\n", i, i)).collect())),
        ("macro body", Rc::new(|n| format!("%macro m\n{}%end\n m\n", r(" nop\n", n % 65000)))),
        ("macro calls", Rc::new(|n| format!("%macro m\n%l: nop\n br %l\n%end\n{}", r(" m\n", n % 20000)))),
        ("macro openings", Rc::new(|n| r("%macro m\n", n))),
        ("macro ends", Rc::new(|n| r("%end\n", n))),
        ("chain of macros", Rc::new(|n| format!("{} m0\n", (0..n.min(5000)).map(|i| format!("%macro m{}\n m{}\n%end\n", i, i + 1)).collect::<String>()))),
        ("chain of called macros", Rc::new(|n| format!("{}%macro m{}\n nop\n%end\n m0\n", (0..n.min(5000)).map(|i| format!("%macro m{}\n m{}\n%end\n", i, i + 1)).collect::<String>(), n.min(5000)))),
        ("growing macro argument", Rc::new(|n| format!("{}%macro m{} %a\n .byte %a\n%end\n m0 1\n", (0..n.min(300)).map(|i| format!("%macro m{} %a\n m{} %a+%a\n%end\n", i, i + 1)).take(12).collect::<String>(), n.min(12)))),
        ("includes", Rc::new(|n| r(".include \"inc0.s\"\n", n.min(3000)))),
        ("empty includes", Rc::new(|n| r(".include \"empty.s\"\n", n.min(20000)))),
        ("padding", Rc::new(|n| r(" .cnop 1, 2\n", n % 30000))),
        ("positions", Rc::new(|n| (0..n.min(20000)).map(|i| format!(" .org {}\n .byte 1\n", i % 65536)).collect())),
        ("texts", Rc::new(|n| r(" .text 2 \"a\"\n", n % 30000))),
        ("text size", Rc::new(|n| format!(" .text {} \"a\"\n", n))),
        ("null bytes", Rc::new(|n| r("\0", n))),
        ("unclosed comment", Rc::new(|n| format!("nop ;{}", r("\u{e9}", n)))),
    ];
    f
}

const SIZES: &[usize] = &[0, 1, 2, 15, 16, 63, 64, 65, 100, 255, 256, 257, 1000, 4095, 4096, 10_000, 30_000, 65_535, 65_536, 65_537, 100_000];

/// Makes the checksums of the chunks of a PNG right again, as far as they can be found.
fn repair_crcs(b: &mut [u8]) {
    let mut at = 8;
    while at + 12 <= b.len() {
        let n = u32::from_be_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) as usize;
        if n > b.len() || at + 12 + n > b.len() {
            return;
        }
        let c = crc32(&b[at + 4..at + 8 + n]);
        b[at + 8 + n..at + 12 + n].copy_from_slice(&c.to_be_bytes());
        at += 12 + n;
    }
}

fn damaged_space(name: &str, rule: &str, file: &'static str, good: Vec<Vec<u8>>, cmds: &'static [&'static [&'static str]], crcs: bool, t: Tier) -> Space {
    // for every image: every truncation, every byte set to each value of a list, for each command
    let vals: Vec<fn(u8) -> u8> = t.q(
        vec![|_| 0u8, |_| 0xff, |b| b ^ 1, |b| b ^ 0x80],
        vec![|_| 0u8, |_| 0xff, |b| b ^ 1, |b| b ^ 2, |b| b ^ 4, |b| b ^ 8, |b| b ^ 16, |b| b ^ 32, |b| b ^ 64, |b| b ^ 0x80, |b| b.wrapping_add(1), |_| 0x7f, |_| 0x2c, |_| 0x3b],
    );
    let per: Vec<u64> = good.iter().map(|g| g.len() as u64 * (1 + 1 + vals.len() as u64)).collect();
    let total: u64 = per.iter().sum();
    Space::new(name, rule, total * cmds.len() as u64, move |i, ctx| {
        let mut m = Mix(i);
        let cmd = cmds[m.take(cmds.len())];
        let mut r = m.0;
        let mut k = 0;
        while r >= per[k] {
            r -= per[k];
            k += 1;
        }
        let g = &good[k];
        let mut m = Mix(r);
        let pos = m.take(g.len());
        let how = m.0 as usize;
        let mut b = g.clone();
        if how == 0 {
            b.truncate(pos);
        } else if how == 1 {
            b.remove(pos);
        } else {
            b[pos] = vals[how - 2](b[pos]);
            if b[pos] == g[pos] {
                return pass(false);
            }
        }
        if crcs {
            repair_crcs(&mut b);
        }
        judge_image_cmd(ctx, file, &b, cmd)
    })
    .limit(20.0)
}

/// Whether a PNG or GIF announces an area whose conversion is legitimate but takes gigabytes, or
/// a GIF frame whose (never used) buffer cannot be reserved in the memory a run has here.
fn legitimately_huge(b: &[u8]) -> bool {
    let huge = |w: u64, h: u64| w * h > 1 << 22 && w.saturating_mul(h) <= 1 << 27;
    if b.starts_with(b"\x89PNG") && b.len() > 24 {
        return huge(u32::from_be_bytes([b[16], b[17], b[18], b[19]]) as u64, u32::from_be_bytes([b[20], b[21], b[22], b[23]]) as u64);
    }
    if b.starts_with(b"GIF8") && b.len() > 10 {
        let u = |k: usize| if k + 1 < b.len() { b[k] as u64 | (b[k + 1] as u64) << 8 } else { 0 };
        if huge(u(6), u(8)) {
            return true;
        }
        return (0..b.len()).any(|k| b[k] == 0x2c && u(k + 5) * u(k + 7) > 1 << 27);
    }
    false
}

fn judge_image_cmd(ctx: &mut Ctx, file: &str, bytes: &[u8], cmd: &[&str]) -> Verdict {
    if legitimately_huge(bytes) {
        return pass(false);
    }
    let p = ctx.put(file, bytes).to_str().unwrap().to_owned();
    let src;
    let mut args: Vec<&str> = vec![];
    let mut output = false;
    match cmd[0] {
        "include" => {
            let text = format!(".include {} \"{}\" {}\n", cmd[1], file, cmd[2]);
            src = ctx.put("t.s", text.as_bytes()).to_str().unwrap().to_owned();
            args.push("assemble");
            args.push(&src);
            output = true;
        }
        "image" => {
            args.extend_from_slice(&["image", &p, "-f", cmd[1]]);
            output = true;
        }
        _ => {
            args.extend_from_slice(&["icon", &p]);
        }
    }
    match run_clean(ctx, &args, output) {
        Ok(a) => pass(a),
        Err(m) => Verdict::Fail(m),
    }
}

const IMAGE_CMDS: &[&[&str]] = &[&["icon"], &["image", "json"], &["image", "1bit-asm-masked"], &["include", "sprite", "type=\"masked\""], &["include", "icon", ""]];
const FEW_CMDS: &[&[&str]] = &[&["icon"], &["image", "1bit-asm"]];

pub fn d01(t: Tier) -> Check {
    let quick = t == Tier::Quick;
    let mut spaces = vec![];
    spaces.push(Space::new(
        "two-bytes",
        "every source file of 0, 1 and 2 bytes",
        1 + 256 + 65536,
        |i, ctx| {
            let b: Vec<u8> = if i == 0 {
                vec![]
            } else if i <= 256 {
                vec![(i - 1) as u8]
            } else {
                let j = i - 257;
                vec![j as u8, (j >> 8) as u8]
            };
            assemble_and_expand(ctx, &b, false)
        },
    ));
    let bytes: Vec<u8> = if t == Tier::Quick { BYTES.iter().cloned().filter(|b| !b"&/9AFRb~<()".contains(b)).collect() } else { BYTES.to_vec() };
    let nb = bytes.len() as u64;
    let (bytes1, bytes2) = (bytes.clone(), bytes);
    let depth = t.q(3, 4);
    spaces.push(Space::new(
        "bytes",
        &format!("every source file of {} bytes over an alphabet of {} bytes", depth, nb),
        nb.pow(depth),
        move |i, ctx| {
            let mut m = Mix(i);
            let b: Vec<u8> = (0..depth).map(|_| bytes1[m.take(bytes1.len())]).collect();
            assemble_and_expand(ctx, &b, false)
        },
    ));
    let nt = TOKENS.len() as u64;
    let few: Vec<&'static str> = if t == Tier::Quick { TOKENS.iter().cloned().filter(|x| ![".word", "asm", "0b", "\t", "header", "speed", "_", ".", "icon", "sprite", "$", ">", "&", "-", "/", ".string", "m", "mov ", "\u{feff}", "\u{2028}", "\r\n", "a", ".b", "0x", "add ", "@"].contains(x)).collect() } else { TOKENS.to_vec() };
    let nf = few.len() as u64;
    spaces.push(Space::new("tokens-2", "every sequence of up to two tokens, also expanded", seqs(nt, 2), move |i, ctx| {
        support(ctx);
        let (n, j) = seq_of(nt, i);
        assemble_and_expand(ctx, joined(TOKENS, j, n).as_bytes(), true)
    }));
    let d = t.q(3, 4);
    spaces.push(Space::new("tokens", &format!("every sequence of {} tokens out of {}", d, nf), nf.pow(d), move |i, ctx| {
        support(ctx);
        assemble_and_expand(ctx, joined(&few, i, d as usize).as_bytes(), false)
    }));
    let nl = LINES.len() as u64;
    let d = t.q(2, 3);
    spaces.push(Space::new("lines", &format!("every sequence of up to {} lines, right and wrong, also expanded", d), seqs(nl, d), move |i, ctx| {
        support(ctx);
        let (n, mut j) = seq_of(nl, i);
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(LINES[(j % nl) as usize]);
            s.push('\n');
            j /= nl;
        }
        assemble_and_expand(ctx, s.as_bytes(), true)
    }));
    let trunc: u64 = CORPUS.iter().map(|c| c.len() as u64 + 1).sum();
    spaces.push(Space::new("truncated", "every program of a corpus cut off after every byte", trunc, |mut i, ctx| {
        support(ctx);
        let mut k = 0;
        while i > CORPUS[k].len() as u64 {
            i -= CORPUS[k].len() as u64 + 1;
            k += 1;
        }
        assemble_and_expand(ctx, &CORPUS[k].as_bytes()[..i as usize], true)
    }));
    let len: u64 = CORPUS.iter().map(|c| c.len() as u64).sum();
    let per = 1 + 2 * nb;
    spaces.push(Space::new(
        "mutated",
        "every program of a corpus with every byte deleted, replaced by, or preceded by each byte of the alphabet",
        len * per,
        move |i, ctx| {
            support(ctx);
            let mut m = Mix(i);
            let how = m.take(per as usize);
            let mut p = m.0;
            let mut k = 0;
            while p >= CORPUS[k].len() as u64 {
                p -= CORPUS[k].len() as u64;
                k += 1;
            }
            let mut b = CORPUS[k].as_bytes().to_vec();
            let p = p as usize;
            if how == 0 {
                b.remove(p);
            } else if how <= nb as usize {
                b[p] = bytes2[how - 1];
            } else {
                b.insert(p, bytes2[how - 1 - nb as usize]);
            }
            assemble_and_expand(ctx, &b, how == 0)
        },
    ));
    let g = growing();
    let ng = g.len();
    spaces.push(
        Space::new(
            "growing",
            &format!("{} constructs repeated or nested {:?} times", ng, SIZES),
            (ng * SIZES.len()) as u64,
            move |i, ctx| {
                support(ctx);
                ctx.put("inc0.s", b" nop\n");
                let mut m = Mix(i);
                let n = SIZES[m.take(SIZES.len())];
                let (name, f) = &g[m.0 as usize];
                ctx.note(|| format!("{} x {}", name, n));
                assemble_and_expand(ctx, f(n).as_bytes(), true)
            },
        )
        .limit(60.0),
    );
    spaces.push(
        Space::new("include-chains", "chains of 0..600 files each including the next, ended by a file, a cycle or a missing file", 3 * 601, |i, ctx| {
            let mut m = Mix(i);
            let end = m.take(3);
            let n = m.0;
            for k in 0..n {
                ctx.put(&format!("c{}.s", k), format!(" nop\n.include \"c{}.s\"\n", k + 1).as_bytes());
            }
            let last = ctx.dir.join(format!("c{}.s", n));
            match end {
                0 => std::fs::write(&last, " nop\n").unwrap(),
                1 => std::fs::write(&last, ".include \"c0.s\"\n").unwrap(),
                _ => {
                    let _ = std::fs::remove_file(&last);
                }
            }
            let v = assemble_and_expand(ctx, b".include \"c0.s\"\n", true);
            for k in 0..=n {
                let _ = std::fs::remove_file(ctx.dir.join(format!("c{}.s", k)));
            }
            match v {
                Verdict::Pass(a) if a && end != 0 => Verdict::Fail("a cycle or a missing file was accepted".into()),
                v => v,
            }
        })
        .limit(60.0),
    );
    // headers
    const HT: &[&str] = &["#", "define", "#define", " ", "\n", "A", "B", "1", "(", ")", "/*", "*/", "//", "/", "*", "\\", "\"", "é", "\r\n", "\t", "+", "'", "\0"];
    let nh = HT.len() as u64;
    let d = t.q(3, 4);
    spaces.push(Space::new("headers", &format!("every C header of up to {} tokens", d), seqs(nh, d), move |i, ctx| {
        let (n, j) = seq_of(nh, i);
        ctx.put("hh.h", joined(HT, j, n).as_bytes());
        assemble_and_expand(ctx, b".include cpp \"hh.h\"\n nop\n", false)
    }));
    // files of all kinds as the input of every command
    const KINDS: &[&str] = &["missing", "directory", "empty", "text", "binary", "png", "below-file", "long-name", "empty-name", "nul-device"];
    const CMDS: &[&[&str]] = &[
        &["assemble"], &["expand"], &["disassemble"], &["disassemble", "-p", "-a", "-t", "bios"], &["disassemble", "-t", "frob"], &["icon"], &["icon", "-s", "9", "-e"], &["image"],
        &["image", "-f", "json"], &["image", "-f", "frob"], &["vmi"], &["vmi", "-g"],
    ];
    const NAMES: &[&str] = &["f", "f.s", "f.png", "f.gif", "f.bmp", "f.jpg", "f.vms", "f.webp", "f.ico", "f.tiff", "f.tga", "f.pnm", "f.hdr", "f.exr", "f.dds", "f.avif", "f.qoi", "f.farbfeld"];
    spaces.push(Space::new(
        "kinds-of-files",
        "every command on a missing file, a directory, an empty file, text, binary, an image, under each of 18 extensions",
        (KINDS.len() * CMDS.len() * NAMES.len()) as u64,
        |i, ctx| {
            let mut m = Mix(i);
            let kind = KINDS[m.take(KINDS.len())];
            let cmd = CMDS[m.take(CMDS.len())];
            let name = NAMES[m.0 as usize];
            let sub = ctx.dir.join("kinds");
            let _ = std::fs::remove_dir_all(&sub);
            std::fs::create_dir_all(&sub).unwrap();
            let p = sub.join(name);
            let mut path = p.to_str().unwrap().to_owned();
            match kind {
                "missing" => {}
                "directory" => std::fs::create_dir(&p).unwrap(),
                "empty" => std::fs::write(&p, "").unwrap(),
                "text" => std::fs::write(&p, "  nop ; hello\n").unwrap(),
                "binary" => std::fs::write(&p, [0xffu8, 0, 0x80, 0x21, 0x10]).unwrap(),
                "png" => {
                    let pic = Pic::solid(32, 32, [255, 0, 0, 255]);
                    std::fs::write(&p, png(&pic, PngKind::Pal)).unwrap()
                }
                "below-file" => {
                    std::fs::write(&p, "x").unwrap();
                    path.push_str("/f.png");
                }
                "long-name" => path.push_str(&"x".repeat(300)),
                "empty-name" => path = String::new(),
                _ => path = "/dev/null".into(),
            }
            let mut args = vec![cmd[0], path.as_str()];
            args.extend_from_slice(&cmd[1..]);
            if cmd.last() == Some(&"-e") {
                args.push(path.as_str());
            }
            let output = cmd[0] != "expand" && cmd[0] != "icon";
            match run_clean(ctx, &args, output) {
                Ok(a) => pass(a),
                Err(m) => Verdict::Fail(m),
            }
        },
    ));
    // command lines
    const WORDS: &[&str] = &[
        "assemble", "expand", "disassemble", "icon", "image", "vmi", "version", "help", "in.s", "-o", "out.bin", "-p", "-a", "-t", "game", "-s", "70000", "-e", "-f", "json", "-c", "-g", "--help", "--", "", "-",
        "--output=", "-x", "é",
    ];
    let nw = WORDS.len() as u64;
    let d = t.q(3, 4);
    spaces.push(Space::new("command-lines", &format!("every command line of up to {} words", d), seqs(nw, d), move |i, ctx| {
        let (n, mut j) = seq_of(nw, i);
        let mut args = vec![];
        for _ in 0..n {
            args.push(WORDS[(j % nw) as usize]);
            j /= nw;
        }
        ctx.put("cl/in.s", b" nop\n");
        let d = ctx.dir.join("cl");
        let r = ctx.cli_dir(&args, Some(&d));
        for l in std::fs::read_dir(&d).unwrap() {
            let l = l.unwrap();
            if l.file_name() != "in.s" {
                let _ = std::fs::remove_file(l.path());
            }
        }
        // help is printed with status 0
        match clean_end(&r, None) {
            Ok(a) => pass(a),
            Err(m) => Verdict::Fail(format!("waterbear {:?}: {}", args, m)),
        }
    }));
    const RAW: &[&[u8]] = &[b"", b"f", b"\xff", b"f\x80", b"\xc3\xa9", b"\xc3", b"-\xff", b"--\xff", b"-o", b"-o\xff", b"f\n", b"\xed\xa0\x80", b"assemble", b"vmi", b"-c\xff", b"image", b"version"];
    let nr = RAW.len() as u64;
    spaces.push(Space::new("raw-arguments", "command lines of up to three arguments that need not be text, given to the real binary", seqs(nr, 3), move |i, ctx| {
        use std::os::unix::ffi::OsStrExt;
        let (n, mut j) = seq_of(nr, i);
        let mut args = vec![];
        for _ in 0..n {
            args.push(std::ffi::OsStr::from_bytes(RAW[(j % nr) as usize]).to_owned());
            j /= nr;
        }
        let d = ctx.dir.join("raw");
        std::fs::create_dir_all(&d).unwrap();
        let r = run_binary(&ctx.cli_bin, &args, &d, &[]);
        ctx.note(|| format!("--- {:?} -> {} {}", args, r.code, r.err_s()));
        for l in std::fs::read_dir(&d).unwrap() {
            let _ = std::fs::remove_file(l.unwrap().path());
        }
        match clean_end(&r, None) {
            Ok(a) => pass(a),
            Err(m) => Verdict::Fail(format!("waterbear {:?}: {}", args, m)),
        }
    }));
    // names of files
    const NAMED: &[(&str, &str, &[&str])] = &[
        ("assemble", ".s", &["-o", "OUT"]),
        ("expand", ".s", &[]),
        ("disassemble", ".vms", &["-o", "OUT"]),
        ("disassemble", "", &["-p", "-o", "OUT"]),
        ("icon", ".png", &[]),
        ("image", ".png", &["-o", "OUT"]),
        ("image", ".gif", &["-f", "json"]),
        ("vmi", ".vms", &[]),
        ("vmi", ".vms", &["-o", "OUT"]),
        ("vmi", "", &["-g", "-c", "IN"]),
    ];
    let nc = NAMED.len();
    spaces.push(Space::new(
        "file-names",
        "every command on a file whose name has 0..20 letters, one of ten odd parts (multi-byte, combining, joined and right-to-left characters, blanks, quotes, line breaks, dots, percent signs, braces), and 0..6 more letters; the output has the same name with another ending; the file exists or not",
        (nc * 21 * 10 * 7 * 2) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let (cmd, ext, more) = NAMED[m.take(nc)];
            let odd = ["é", "€", "\u{1F600}", "e\u{301}\u{301}", "\u{1F468}\u{200D}\u{1F469}", "\u{202e}x", " \"'", "\n\r", "..%s%end", "{}{0}"][m.take(10)];
            let stem = format!("{}{}{}", &"abcdefghijklmnopqrst"[..m.take(21)], odd, &"uvwxyz"[..m.take(7)]);
            let exists = m.take(2) == 1;
            let d = ctx.dir.join("fn");
            let _ = std::fs::create_dir_all(&d);
            let name = format!("{}{}", stem, ext);
            if exists {
                let data: Vec<u8> = match ext {
                    ".s" => b" .byte 1, 2\n".to_vec(),
                    ".png" if cmd == "icon" => png(&Pic::solid(32, 32, [1, 2, 3, 255]), PngKind::Rgba8),
                    ".png" => png(&Pic::solid(4, 3, [1, 2, 3, 255]), PngKind::Rgba8),
                    ".gif" => gif(&Pic::solid(4, 3, [1, 2, 3, 255])),
                    _ => vec![0xA0; 0x300],
                };
                ctx.put(&format!("fn/{}", name), &data);
            }
            let out = format!("{}.out", stem);
            let mut args = vec![cmd, &name];
            args.extend(more.iter().map(|a| match *a {
                "OUT" => out.as_str(),
                "IN" => name.as_str(),
                a => a,
            }));
            let r = ctx.cli_dir(&args, Some(&d));
            for l in std::fs::read_dir(&d).unwrap() {
                let _ = std::fs::remove_file(l.unwrap().path());
            }
            match clean_end(&r, None) {
                Ok(a) if a == exists => pass(a),
                Ok(_) => Verdict::Fail(format!("waterbear {:?}: exit status {} {}", args, r.code, r.err_s())),
                Err(m) => Verdict::Fail(format!("waterbear {:?}: {}", args, m)),
            }
        },
    ));
    // names of the working directory
    const BAD: &[&[u8]] = &[
        b" nop\n",
        b" nop ; \xff\n",
        b" frob\n",
        b" add x\n",
        b"a:\na:\n",
        b" add #70000\n",
        b" .include \"missing.s\"\n",
        b" .include \"t.s\"\n",
        b" .include \"bad.s\"\n",
        b" .include bytes \"missing.bin\"\n",
        b" .include cpp \"bad.s\"\n",
        b" .include icon \"pic.png\"\n",
        b" .include icon \"t.s\"\n",
        b" .include sprite \"wide.png\" header=\"yes\"\n",
        b" .include sprite \"missing.png\"\n",
        b"%macro m\n frob\n%end\n m\n",
        b" .byte \"abc\n",
        b" br $300\n",
        b" .include bytes \"sub\"\n",
        b" .include \"sub\"\n",
        b" .byte\n",
    ];
    const AT: &[(&str, &[&str])] = &[
        ("assemble", &["t.s", "-o", "out"]),
        ("expand", &["t.s"]),
        ("assemble", &["bad.s", "-o", "out"]),
        ("disassemble", &["t.s", "-o", "out"]),
        ("disassemble", &["missing", "-o", "out"]),
        ("icon", &["pic.png"]),
        ("icon", &["missing.png", "-e", "pic.png"]),
        ("image", &["pic.png", "-o", "out"]),
        ("image", &["t.s", "-o", "sub"]),
        ("vmi", &["t.s"]),
        ("vmi", &["missing", "-g", "-o", "out"]),
        ("assemble", &["t.s", "-o", "sub/none/out"]),
        ("assemble", &["sub/../t.s", "-o", "sub"]),
    ];
    let odd = crate::a_include::ODD_DIRS;
    spaces.push(Space::new(
        "directories",
        "21 programs (one good one, and each way to be rejected) x 13 commands in working directories with 17 odd names (not UTF-8, multi-byte, blanks, quotes, line breaks, dashes, dots, long), by the real binary; the exit status is that of a directory with a plain name",
        (BAD.len() * AT.len() * odd.len()) as u64,
        move |i, ctx| {
            use std::os::unix::ffi::OsStrExt;
            ctx.clean();
            let mut m = Mix(i);
            let text = BAD[m.take(BAD.len())];
            let (cmd, more) = AT[m.take(AT.len())];
            let name = std::ffi::OsStr::from_bytes(odd[m.take(odd.len())]);
            let mut codes = vec![];
            for dir in [name, std::ffi::OsStr::new("plain")] {
                let cwd = ctx.dir.join(dir);
                let put = |n: &str, data: &[u8]| std::fs::write(cwd.join(n), data).unwrap();
                std::fs::create_dir_all(cwd.join("sub")).unwrap();
                put("t.s", text);
                put("bad.s", b" nop ; \xff\n");
                put("pic.png", &png(&Pic::solid(4, 3, [1, 2, 3, 255]), PngKind::Rgba8));
                put("wide.png", &png(&Pic::solid(256, 1, [1, 2, 3, 255]), PngKind::Rgba8));
                let mut args = vec![cmd];
                args.extend_from_slice(more);
                let args: Vec<std::ffi::OsString> = args.iter().map(|a| (*a).into()).collect();
                let r = run_binary(&ctx.cli_bin, &args, &cwd, &[]);
                let _ = std::fs::remove_dir_all(&cwd);
                if let Err(m) = clean_end(&r, None) {
                    return Verdict::Fail(format!("waterbear {:?} in a directory named {:?}, program {:?}: {}", args, dir, String::from_utf8_lossy(text), m));
                }
                codes.push((r.code, r.err_s()));
            }
            if codes[0].0 != codes[1].0 {
                return Verdict::Fail(format!("waterbear {} {:?} in a directory named {:?}, program {:?}: exit status {}, not {}: {}", cmd, more, name, String::from_utf8_lossy(text), codes[0].0, codes[1].0, codes[0].1));
            }
            pass(codes[0].0 != 0)
        },
    ));
    // images
    let small = Pic::new(4, 3, (0..12).map(|i| [(i * 20) as u8, (i * 7) as u8, 200, 255 - (i * 10) as u8]).collect());
    let two = Pic::solid(4, 3, [1, 2, 3, 255]);
    let mut anim = small.clone();
    anim.frames.push(two.frames[0].clone());
    let icon = Pic::new(32, 32, (0..1024).map(|i| [(i % 3 * 100) as u8, 9, 9, 255]).collect());
    spaces.push(damaged_space(
        "damaged-png",
        "small still and animated PNG files of each kind, cut off at, without, and with each other value in, every byte, in every command that reads images",
        "x.png",
        vec![png(&small, PngKind::Rgba8), png(&small, PngKind::Pal), png(&small, PngKind::Rgb8), png(&two, PngKind::Gray8), png(&anim, PngKind::Rgba8), png(&icon, PngKind::Pal)],
        FEW_CMDS,
        false,
        t,
    ));
    spaces.push(damaged_space(
        "damaged-png-chunks",
        "the same with the checksum of every chunk made right again",
        "x.png",
        vec![png(&small, PngKind::Rgba8), png(&small, PngKind::Pal), png(&small, PngKind::Gray8), png(&anim, PngKind::Pal), png(&anim, PngKind::Rgba8)],
        IMAGE_CMDS,
        true,
        t,
    ));
    spaces.push(damaged_space("damaged-gif", "still and animated GIF files likewise", "x.gif", vec![gif(&two), gif(&anim)], IMAGE_CMDS, false, t));
    spaces.push(damaged_space("damaged-bmp", "a BMP file likewise", "x.bmp", vec![bmp(&small)], FEW_CMDS, false, t));
    spaces.push(damaged_space(
        "misnamed",
        "PNG, GIF and BMP files under the names of other formats, damaged likewise",
        "x.png",
        vec![gif(&two), bmp(&two)],
        FEW_CMDS,
        false,
        t,
    ));
    // PNG with consistent checksums but unusual fields
    let dims: &[u32] = &[0, 1, 2, 31, 32, 33, 72, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff];
    spaces.push(
        Space::new(
            "png-header",
            "PNG files with well-formed chunks whose header announces each of 14 widths and heights, each bit depth and colour type",
            (14 * 14 * 6 * 7 * 2) as u64,
            move |i, ctx| {
                let mut m = Mix(i);
                let cmd = FEW_CMDS[m.take(2)];
                let w = dims[m.take(14)];
                let h = dims[m.take(14)];
                let depth = [1u8, 2, 4, 8, 16, 3][m.take(6)];
                let ct = [0u8, 2, 3, 4, 6, 1, 255][m.take(7)];
                let mut b = b"\x89PNG\r\n\x1a\n".to_vec();
                let mut hd = w.to_be_bytes().to_vec();
                hd.extend_from_slice(&h.to_be_bytes());
                hd.extend_from_slice(&[depth, ct, 0, 0, 0]);
                chunk(&mut b, b"IHDR", &hd);
                if ct == 3 {
                    chunk(&mut b, b"PLTE", &[1, 2, 3]);
                }
                chunk(&mut b, b"IDAT", &zlib(&[0; 40]));
                chunk(&mut b, b"IEND", &[]);
                judge_image_cmd(ctx, "x.png", &b, cmd)
            },
        )
        .limit(60.0),
    );
    spaces.push(
        Space::new(
            "gif-header",
            "GIF files whose screen and frame announce each of 6 sizes",
            (6u64.pow(4)) * 2,
            move |i, ctx| {
                let mut m = Mix(i);
                let cmd = FEW_CMDS[m.take(2)];
                let dims = [0u16, 1, 4, 32, 255, 65535];
                let mut b = gif(&Pic::solid(4, 3, [1, 2, 3, 255]));
                let put = |b: &mut Vec<u8>, at: usize, v: u16| b[at..at + 2].copy_from_slice(&v.to_le_bytes());
                put(&mut b, 6, dims[m.take(6)]);
                put(&mut b, 8, dims[m.take(6)]);
                let at = b.iter().position(|x| *x == 0x2c).unwrap_or(0);
                put(&mut b, at + 5, dims[m.take(6)]);
                put(&mut b, at + 7, dims[m.take(6)]);
                judge_image_cmd(ctx, "x.gif", &b, cmd)
            },
        )
        .limit(60.0),
    );
    // binaries
    const SHAPES: &[&str] = &["zeroes", "ones", "counting", "branches", "calls", "jumps", "not1-jumps", "conditional", "text", "decrement"];
    let lens: Vec<u64> = (0..=64).chain([255, 256, 257, 511, 512, 513, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 65538, 131072, 200000]).collect();
    let nlens = lens.len() as u64;
    spaces.push(
        Space::new(
            "binaries",
            "images of ten repeating contents and 81 lengths, disassembled with each type and option",
            SHAPES.len() as u64 * nlens * 4 * 4,
            move |i, ctx| {
                let mut m = Mix(i);
                let opts = m.take(4);
                let ty = ["raw", "game", "bios", "file"][m.take(4)];
                let shape = SHAPES[m.take(SHAPES.len())];
                let n = lens[m.0 as usize] as usize;
                if quick && n > 5000 && (opts != 3 || ty != "bios") {
                    return pass(false);
                }
                let b: Vec<u8> = (0..n)
                    .map(|k| match shape {
                        "zeroes" => 0,
                        "ones" => 0xff,
                        "counting" => k as u8,
                        "branches" => [0x80, 2, 1, 2, 1, 0][k % 6],
                        "calls" => [0x08 | 0x17, k as u8, 0][k % 3],
                        "jumps" => [0x21, (k >> 8) as u8, (k & 0xff) as u8][k % 3],
                        "not1-jumps" => [0xb8, 0x0d, 0x21, k as u8, (k >> 3) as u8][k % 5],
                        "conditional" => [0x68, 0x00, k as u8][k % 3],
                        "text" => b"Hello, world\n\"\\\t"[k % 16],
                        _ => 255 - (k % 256) as u8,
                    })
                    .collect();
                let p = ctx.put("i.bin", &b).to_str().unwrap().to_owned();
                let mut a = vec!["disassemble", &p, "-t", ty];
                if opts & 1 != 0 {
                    a.push("-p");
                }
                if opts & 2 != 0 {
                    a.push("-a");
                }
                match run_clean(ctx, &a, true) {
                    Ok(a) => pass(a),
                    Err(m) => Verdict::Fail(m),
                }
            },
        )
        .limit(60.0),
    );
    Check {
        level: "exploration",
        spaces,
        assumptions: vec![
            "A run has 6 GB of address space; a case takes at most 10 s (60 s for the largest programs).".into(),
            "Programs whose own expansion or output is astronomically large are not part of the space.".into(),
        ],
    }
}
