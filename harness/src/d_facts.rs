//! D05: what the commands say is true. The facts a message states (the forms an instruction has,
//! the value that does not fit and the number of bits there are, addresses, names, numbers of
//! arguments, sizes, files, the system's reason, the number of bytes written) are computed from
//! the input and have to be in the message. How it is worded is not judged.

use crate::engine::*;
use crate::imgw::*;
use crate::isa::*;
use crate::{Check, Tier};

/// The message itself: without the line that names the command's input, and without the places
/// and the text quoted from the sources.
fn said(err: &str) -> Vec<String> {
    let lines: Vec<&str> = err.split('\n').collect();
    let mut out = vec![];
    // the first line names the input
    let mut k = 1;
    while k < lines.len() {
        let l = lines[k].strip_prefix("  | ").unwrap_or(lines[k]);
        if crate::d_diag::place(l).is_some() {
            // the place and the line quoted
            k += 2;
            continue;
        }
        out.push(lines[k].to_owned());
        k += 1;
    }
    out
}

fn words(lines: &[String]) -> Vec<String> {
    lines
        .iter()
        .flat_map(|l| l.split(|c: char| c.is_whitespace() || c == '='))
        .map(|w| w.trim_matches(|c: char| ".,:;()\"'`=[]✘".contains(c)).to_lowercase())
        .filter(|w| !w.is_empty())
        .collect()
}

fn number(w: &str) -> Option<i64> {
    match w.strip_prefix("0x") {
        Some(h) => i64::from_str_radix(h, 16).ok(),
        None => w.parse().ok(),
    }
}

/// A numeral and what it reads as.
fn numbers(ws: &[String]) -> Vec<i64> {
    ws.iter().filter_map(|w| number(w)).collect()
}

/// Runs the command on files already in place; the message of its failure.
fn failure(ctx: &mut Ctx, args: &[&str]) -> Result<String, Verdict> {
    let dir = ctx.dir.clone();
    let r = ctx.cli_dir(args, Some(&dir));
    if r.crashed() || r.code == 0 {
        return Err(Verdict::Fail(format!("{:?}: status {}, not a message: {}", args, describe_code(r.code), r.err_s())));
    }
    Ok(r.err_s())
}

fn rejects(ctx: &mut Ctx, text: &str) -> Result<String, Verdict> {
    ctx.put("p.s", text.as_bytes());
    failure(ctx, &["assemble", "p.s", "-o", "out.bin"])
}

macro_rules! ask {
    ($e:expr) => {
        match $e {
            Ok(x) => x,
            Err(v) => return v,
        }
    };
}

/// Are exactly these numbers in the message (in any order, each at least once)?
fn states(err: &str, want: &[i64]) -> Result<Vec<String>, Verdict> {
    let ws = words(&said(err));
    let mut got = numbers(&ws);
    got.sort();
    got.dedup();
    let mut w = want.to_vec();
    w.sort();
    w.dedup();
    if got != w {
        return Err(Verdict::Fail(format!("the message states the numbers {:?}, but they are {:?}: {}", got, w, err)));
    }
    Ok(ws)
}

fn has_words(err: &str, facts: &[String]) -> Verdict {
    let ws = words(&said(err));
    for f in facts {
        let f = f.trim_matches(|c: char| ".,:;()\"'`=[]".contains(c)).to_lowercase();
        if !ws.contains(&f) {
            return Verdict::Fail(format!("the message does not say {:?}: {}", f, err));
        }
    }
    pass(true)
}

// ---------------------------------------------------------------------------------------------

fn kind_name(k: u8) -> &'static str {
    match k {
        b'I' => "#i8",
        b'D' => "d9",
        b'B' => "b3",
        b'N' => "@r",
        b'A' => "a12",
        b'L' => "a16",
        b'S' => "r8",
        b'W' => "r16",
        _ => unreachable!(),
    }
}

fn kind_norm(w: &str) -> Option<String> {
    let w = w.to_lowercase();
    Some(match w.as_str() {
        "@r" | "@ri" => "@r".to_owned(),
        "#i8" | "d9" | "b3" | "a12" | "a16" | "r8" | "r16" => w,
        _ => return None,
    })
}

/// The forms listed for a mnemonic: lines that start with it and go on with operand kinds.
fn forms_listed(err: &str, mn: &str) -> Vec<String> {
    let mut v = vec![];
    for l in said(err) {
        let mut it = l.split_whitespace();
        if it.next().map(|w| w.to_lowercase() == mn) != Some(true) {
            continue;
        }
        let rest: Vec<&str> = l.trim().splitn(2, char::is_whitespace).nth(1).unwrap_or("").split(',').map(str::trim).collect();
        let kinds: Vec<Option<String>> = rest.iter().map(|w| kind_norm(w)).collect();
        if kinds.iter().all(|k| k.is_some()) {
            v.push(kinds.into_iter().flatten().collect::<Vec<_>>().join(" "));
        }
    }
    v.sort();
    v
}

/// Operands: how they are written, and whether they are immediate, indirect or an expression.
const OPERANDS: &[(&str, u8)] = &[("#7", b'I'), ("7", b'E'), ("@R2", b'N'), ("lab", b'E'), ("#lab-lab", b'I'), ("(1+2)", b'E'), ("@r0", b'N'), ("-1", b'E')];

fn fits(ops: &str, kinds: &[u8]) -> bool {
    ops.len() == kinds.len()
        && ops.bytes().zip(kinds).all(|(o, k)| match o {
            b'I' => *k == b'I',
            b'N' => *k == b'N',
            _ => *k == b'E',
        })
}

/// The mnemonics, once each.
fn mnemonics() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![];
    for f in FORMS {
        if !v.contains(&f.mn) {
            v.push(f.mn);
        }
    }
    v
}

fn forms(ctx: &mut Ctx, mn: &str, args: &[usize], mode: usize) -> Verdict {
    let kinds: Vec<u8> = args.iter().map(|a| OPERANDS[*a].1).collect();
    if FORMS.iter().any(|f| f.mn == mn && fits(f.ops, &kinds)) {
        return pass(false);
    }
    let ops = args.iter().map(|a| OPERANDS[*a].0).collect::<Vec<_>>();
    let text = match mode {
        0 => format!("lab: nop\n {} {}\n", mn, ops.join(", ")),
        1 => format!("lab: nop\nx: {} {} ; c\n nop\n", mn.to_uppercase(), ops.join(",")),
        2 => format!("lab: nop\n%macro m\n {} {}\n%end\n m\n", mn, ops.join(", ")),
        _ => {
            let ps: Vec<String> = (0..ops.len()).map(|k| format!("%p{}", k)).collect();
            format!("lab: nop\n%macro m {}\n {} {}\n%end\n m {}\n", ps.join(", "), mn, ps.join(", "), ops.join(", "))
        }
    };
    let err = ask!(rejects(ctx, &text));
    let mut want: Vec<String> = FORMS.iter().filter(|f| f.mn == mn).map(|f| f.ops.bytes().map(kind_name).collect::<Vec<_>>().join(" ")).collect();
    want.sort();
    let ws = words(&said(&err));
    if !ws.contains(&mn.to_owned()) {
        return Verdict::Fail(format!("the message does not name {}: {}", mn, err));
    }
    let got = forms_listed(&err, mn);
    if want == [""] {
        // no operands at all
        if !got.is_empty() || !(ws.contains(&"0".to_owned()) || ws.contains(&"no".to_owned())) {
            return Verdict::Fail(format!("{} has no operands: {}", mn, err));
        }
        return pass(true);
    }
    if got != want {
        return Verdict::Fail(format!("the forms of {} are {:?}, the message lists {:?}: {}", mn, want, got, err));
    }
    pass(true)
}

// ---------------------------------------------------------------------------------------------

/// Writes a number in one of several ways: (definitions before, the expression, definitions behind).
fn spell(v: i64, how: usize) -> (String, String, String) {
    let none = String::new;
    match how {
        0 => (none(), format!("{}", v), none()),
        1 => (none(), if v < 0 { format!("-${:x}", -v) } else { format!("${:x}", v) }, none()),
        2 => (none(), format!("(({})-1)+1", v), none()),
        3 => (format!("value = {}\n", v), "value".to_owned(), none()),
        4 => (none(), "Value".to_owned(), format!("half = {}\nvalue = half+{}\n", v / 2, v - v / 2)),
        _ => (none(), if v < 0 { format!("-%{:b}", -v) } else { format!("%{:b}", v) }, none()),
    }
}
const SPELLINGS: usize = 6;

/// Values around the ends of the ranges of numbers.
fn edges() -> Vec<i64> {
    let mut v = vec![];
    for b in [3, 7, 8, 9, 12, 15, 16, 17, 24, 31] {
        for d in [-2, -1, 0, 1] {
            let p = 1i64 << b;
            v.push(p + d);
            v.push(-p + d);
        }
    }
    v.extend([-1, -2, -3, 10, 300, 1000, -1000, 70000, 123456789, -123456789]);
    v.retain(|x| *x <= i64::from(i32::MAX) && *x > i64::from(i32::MIN) + 1);
    v.sort();
    v.dedup();
    v
}

/// A legal operand of a kind.
fn legal(k: u8) -> &'static str {
    match k {
        b'I' => "#11",
        b'D' => "13",
        b'B' => "5",
        b'N' => "@R1",
        b'A' => "$1020",
        b'L' => "$2345",
        _ => "after",
    }
}

/// One operand of a form does not fit.
fn range(ctx: &mut Ctx, f: &Form, at: usize, v: i64, how: usize, mode: usize) -> Verdict {
    let k = f.ops.as_bytes()[at];
    let pos: i64 = if mode == 0 { 0x1000 } else { 0x1ffa };
    let next = pos + size(f) as i64;
    let (pre, expr, post) = spell(v, how);
    let want: (Vec<i64>, Option<&str>);
    let unsigned = |bits: i64| (vec![v, bits], Some("unsigned"));
    let address = (vec![v], None);
    match k {
        b'I' if !(0..256).contains(&v) => want = unsigned(8),
        b'D' if !(0..512).contains(&v) => want = unsigned(9),
        b'B' if !(0..8).contains(&v) => want = unsigned(3),
        b'A' | b'L' if !(0..65536).contains(&v) => want = unsigned(16),
        b'W' if !(0..65536).contains(&v) => want = address,
        b'S' if !(0..65536).contains(&v) => want = address,
        b'S' => {
            let mut d = v - next;
            // addresses wrap around
            if d > 32767 {
                d -= 65536;
            }
            if d < -32768 {
                d += 65536;
            }
            if (-128..128).contains(&d) {
                return pass(false);
            }
            want = (vec![d, 8], Some("signed"));
        }
        _ => return pass(false),
    }
    let ops: Vec<String> = f
        .ops
        .bytes()
        .enumerate()
        .map(|(n, o)| if n == at { format!("{}{}", if o == b'I' { "#" } else { "" }, expr) } else { legal(o).to_owned() })
        .collect();
    let text = match mode {
        0 => format!("{} .org ${:x}\n {} {}\nafter: nop\n{}", pre, pos, f.mn, ops.join(", "), post),
        _ => {
            let ps: Vec<String> = (0..ops.len()).map(|k| format!("%p{}", k)).collect();
            format!("{}%macro m {}\n {} {}\n%end\n .org ${:x}\n m {}\nafter: nop\n{}", pre, ps.join(", "), f.mn, ps.join(", "), pos, ops.join(", "), post)
        }
    };
    let err = ask!(rejects(ctx, &text));
    if want.1.is_none() && v < 0 {
        // a negative address is shown in hexadecimal, as 32 bits
        let all = numbers(&words(&said(&err)));
        if !all.contains(&v) && !all.contains(&(v & 0xffff_ffff)) {
            return Verdict::Fail(format!("the message does not say which address, {}: {}", v, err));
        }
        return pass(true);
    }
    let ws = ask!(states(&err, &want.0));
    if let Some(s) = want.1 {
        let other = if s == "signed" { "unsigned" } else { "signed" };
        if ws.contains(&other.to_owned()) || !ws.contains(&s.to_owned()) {
            return Verdict::Fail(format!("the number is {}: {}", s, err));
        }
    }
    pass(true)
}

/// A jump or call out of its page.
fn page(ctx: &mut Ctx, mn: &str, from: i64, to: i64, how: usize) -> Verdict {
    let (p, q) = ((from + 2) >> 12, to >> 12);
    if p == q || from + 2 > 0xffff {
        return pass(false);
    }
    let text = match how {
        0 => format!(" .org {}\n {} {}\n", from, mn, to),
        1 => format!("target = ${:x}\n .org {}\n {} target\n", to, from, mn),
        _ => format!(" .org {}\ntarget: nop\n .org {}\n {} target\n", to, from, mn),
    };
    let err = ask!(rejects(ctx, &text));
    let lines = said(&err);
    let all = numbers(&words(&lines));
    if !all.contains(&to) || !(all.contains(&from) || all.contains(&(from + 2))) {
        return Verdict::Fail(format!("the message does not say that {:#x} cannot reach {:#x}: {}", from, to, err));
    }
    // the pages in binary, beside "target" and "position"
    let bits = |what: &str| lines.iter().rev().find(|l| l.to_lowercase().contains(what)).and_then(|l| l.split_whitespace().last().map(str::to_owned));
    if bits("target") != Some(format!("{:04b}", q)) || bits("position") != Some(format!("{:04b}", p)) {
        return Verdict::Fail(format!("the pages are {:04b} and {:04b}: {}", q, p, err));
    }
    pass(true)
}

fn data(ctx: &mut Ctx, word: bool, v: i64, how: usize, at: usize, count: usize) -> Verdict {
    let range = if word { -32768..65536 } else { -128..256 };
    if range.contains(&v) {
        return pass(false);
    }
    let (pre, expr, post) = spell(v, how);
    let items: Vec<String> = (0..count).map(|k| if k == at { expr.clone() } else { format!("{}", [5, 255, -128, 77][k % 4]) }).collect();
    let err = ask!(rejects(ctx, &format!("{} {} {}\n nop\n{}", pre, if word { ".word" } else { ".byte" }, items.join(", "), post)));
    ask!(states(&err, &[v]));
    has_words(&err, &[if word { "word" } else { "byte" }.to_owned()])
}

/// Divisions by zero: the message states the dividend (and the divisor).
fn division(ctx: &mut Ctx, v: i64, how: usize, zero: usize, place: usize) -> Verdict {
    let (pre, expr, post) = spell(v, how);
    let dividend = if how == 2 || how == 4 { format!("({})", expr) } else { expr };
    let divisor = ["0", "zero", "(5-5)", "<256", ">255", "(zero&3)", "-0"][zero];
    let q = format!("{}/{}", dividend, divisor);
    let text = match place {
        0 => format!("{} .byte {}\n", pre, q),
        1 => format!("{} .word 1, 2+({})*3\n", pre, q),
        2 => format!("{} add #{}\n", pre, q),
        3 => format!("%macro m %x\n add %x\n%end\n{} m #{}\n", pre, q),
        // not among the names: these have to be defined first
        _ => format!("{} jmpf {}\n", pre, q),
    };
    let err = ask!(rejects(ctx, &format!("zero = 0\n{} nop\n{}", text, post)));
    let ws: Vec<String> = words(&said(&err)).iter().flat_map(|w| w.split('/').map(|p| p.to_owned()).collect::<Vec<_>>()).collect();
    let got = numbers(&ws);
    if got != [v, 0] {
        return Verdict::Fail(format!("{} is {}/0, the message states {:?}: {}", q, v, got, err));
    }
    pass(true)
}

/// An included file that is found in the working directory only: a warning names where it was
/// looked for and what was taken instead; and there is no warning otherwise.
fn fallback(ctx: &mut Ctx, kind: usize, below: bool, file: &str, dir: usize, places: usize) -> Verdict {
    ctx.clean();
    let ext = ["s", "bin", "h", "png", "png"][kind];
    let name = format!("{}{}.{}", ["", "d/", "d/e/"][dir], file, ext);
    let data: Vec<u8> = match kind {
        0 => b" .byte 66\n".to_vec(),
        1 => vec![66],
        2 => b"#define VAL 66\n".to_vec(),
        3 => png(&Pic::solid(32, 32, [66, 0, 0, 255]), PngKind::Rgba8),
        _ => png(&Pic::solid(8, 1, [66, 0, 0, 255]), PngKind::Rgba8),
    };
    let line = format!(" .include {} \"{}\"\n", ["asm", "bytes", "cpp", "icon", "sprite"][kind], name);
    let at = if below { "s/u/" } else { "s/" };
    ctx.put(&format!("{}t.s", at), line.as_bytes());
    if below {
        ctx.put("s/t.s", b" .include \"u/t.s\"\n");
    }
    if places & 1 != 0 {
        ctx.put(&format!("{}{}", at, name), &data);
    }
    if places & 2 != 0 {
        ctx.put(&name, &data);
    }
    let root = ctx.dir.clone();
    let r = ctx.cli_dir(&["assemble", "s/t.s", "-o", "out.bin"], Some(&root));
    let err = r.err_s();
    if r.crashed() || (r.code == 0) != (places != 0) {
        return Verdict::Fail(format!("{:?}: exit status {} {}", line, r.code, err));
    }
    let want: Vec<String> = if places == 2 { vec![root.join(at).join(&name).display().to_string(), name.clone()] } else { vec![] };
    // everything the warnings quote
    let mut got: Vec<String> = vec![];
    for l in err.lines().filter(|l| l.contains("WARNING")) {
        let mut q: Vec<String> = l.split('"').skip(1).step_by(2).map(|q| q.to_owned()).collect();
        if !got.is_empty() && got == q {
            continue;
        }
        got.append(&mut q);
    }
    if got != want {
        return Verdict::Fail(format!("{:?}: the warnings name {:?}, not {:?}: {}", line, got, want, err));
    }
    pass(places == 2)
}

const TEXTS: &[(&str, i64)] = &[("\"a\"", 1), ("\"abc\"", 3), ("\"\\n\\\"\\\\\"", 3), ("\"\u{e9}\u{6f22}\"", 5), ("\"0123456789abcdef\"", 16), ("\"\\0\\0\"", 2), ("\"a;b\"", 3), ("\"12345678901234\"", 14)];

fn length(ctx: &mut Ctx, dir: &str, n: i64, t: usize, how: usize) -> Verdict {
    let (text, len) = TEXTS[t];
    if len <= n {
        return pass(false);
    }
    let size = match how {
        0 => format!("{}", n),
        _ => format!("${:x}", n),
    };
    let err = ask!(rejects(ctx, &format!(" nop\n {} {} {}\n nop\n", dir, size, text)));
    let ws = ask!(states(&err, &[n, len]));
    // which is which: the length of the text comes first
    if numbers(&ws) != [len, n] {
        return Verdict::Fail(format!("{} bytes do not fit into {}: {}", len, n, err));
    }
    pass(true)
}

fn location(ctx: &mut Ctx, v: i64, how: usize) -> Verdict {
    let n = match how {
        0 => format!("{}", v),
        1 => format!("${:x}", v),
        _ => format!("%{:b}", v),
    };
    let err = ask!(rejects(ctx, &format!(" nop\n .org {}\n nop\n", n)));
    ask!(states(&err, &[v]));
    pass(true)
}

// ---------------------------------------------------------------------------------------------

const NAMES: &[&str] = &["a", "Foo", "foo_bar", "x.y", "_under", "veryLongNameOfSomethingElse12345", "R", "i8", "nope$3", "n_o", "zed9", "UPPER"];

fn named(ctx: &mut Ctx, kind: usize, name: &str, mode: usize) -> Verdict {
    let n = name;
    let l = name.to_lowercase();
    let up = name.to_uppercase();
    let (text, facts): (String, Vec<String>) = match kind {
        // unknown names
        0 => (format!(" add #{}\n", n), vec![l]),
        1 => (format!(" .byte 1, {}+1\n", n), vec![l]),
        2 => (format!(" .word known*2, {}\nknown: nop\n", n), vec![l]),
        3 => (format!("value = {}+1\n .byte value\n", n), vec![l]),
        4 => (format!(" be #1, .{}\n", n), vec![l]),
        5 => (format!("one:\n.{}: nop\ntwo: br .{}\n", n, n), vec![l]),
        6 => (format!("%macro m\n ld {}\n%end\n m\n", n), vec![l]),
        7 => (format!("%macro m %x\n ld %x\n%end\n m {}\n", n), vec![l]),
        // names twice
        8 => (format!("{}: nop\n{}: nop\n", n, n), vec![l]),
        9 => (format!("{} = 1\n{} = 2\n", n, up), vec![l]),
        10 => (format!("other: nop\n{}: nop\n{} = 1\n", n, up), vec![l]),
        11 => (format!("one:\n.{}: nop\n.{}: nop\n", n, n), vec![l]),
        // macros
        12 => (format!(" {} 1, 2\n", n), vec![]),
        13 => (format!("%macro {}\n {}\n%end\n {}\n", n, n, n), vec![l]),
        14 => (format!("%macro {}\n other\n%end\n%macro other\n {}\n%end\n {}\n", n, n, n), vec![l]),
        15 => (format!("%macro m\n {}\n%end\n m\n", n), vec![]),
        16 => (format!("%macro {} %x\n nop\n%end\n%macro {} %y\n nop\n%end\n", n, up), vec![l, "1".into()]),
        17 => (format!("%macro {}\n nop\n%end\n%macro {} %x\n nop\n%end\n%macro {}\n nop\n%end\n", n, n, n), vec![l, "0".into()]),
        18 => (format!("%macro {} %x, %y, %z\n nop\n%end\n%macro {} %a,%b,%c\n nop\n%end\n", n, n), vec![l, "3".into()]),
        // sprites
        19 => (format!(" .include sprite \"s.png\" type=\"{}\"\n", n), vec![l]),
        20 => (format!(" .include sprite \"s.png\" header=\"{}\"\n", n), vec![l]),
        _ => unreachable!(),
    };
    if matches!(kind, 19 | 20) {
        ctx.put("s.png", &png(&Pic::solid(8, 8, [0, 0, 0, 255]), PngKind::Rgba8));
    }
    let err = match mode {
        0 => ask!(rejects(ctx, &format!(" nop\n{}", text))),
        1 => {
            ctx.put("inc.s", text.as_bytes());
            ask!(rejects(ctx, " nop\n .include \"inc.s\"\n nop\n"))
        }
        _ => {
            // the words and case of what stands around do not matter
            ask!(rejects(ctx, &format!("; {}\nbefore = 3\nthing:\n .byte \"{}\"\n{}\nbehind: nop\n", "other name", "zzz", text)))
        }
    };
    has_words(&err, &facts)
}
const NAMED: u64 = 21;

/// Every mnemonic as the name of a macro.
fn mnemonic_macro(ctx: &mut Ctx, mn: &str, up: bool, params: usize) -> Verdict {
    let ps: Vec<String> = (0..params).map(|k| format!("%p{}", k)).collect();
    let name = if up { mn.to_uppercase() } else { mn.to_owned() };
    let err = ask!(rejects(ctx, &format!(" nop\n%macro {} {}\n nop\n%end\n", name, ps.join(", "))));
    has_words(&err, &[name])
}

// ---------------------------------------------------------------------------------------------

const FILES: &[&str] = &["other.x", "with space.bin", "sub/deep.dat", "UPPER.S", "\u{e9}\u{6f22}.x", "a.b.c", "-dash", "long_name_of_a_file_that_is_not_there.extension"];

/// What is wrong with the file.
const WRONG: usize = 4;

fn reason(text: &str, code: i32, phrase: &str) -> bool {
    let t = text.to_lowercase();
    t.contains(&format!("os error {}", code)) || t.contains(phrase)
}

/// Messages name the file that is to blame, and say what the system says.
fn blamed(ctx: &mut Ctx, kind: usize, file: &str, wrong: usize) -> Verdict {
    // pictures have to be known by their extension
    let owned = if matches!(kind, 4..=10) { format!("{}.png", file) } else { file.to_owned() };
    let file = owned.as_str();
    let base = file.rsplit('/').next().unwrap();
    std::fs::create_dir_all(ctx.dir.join("sub")).ok();
    let good = Pic::solid(32, 32, [0, 0, 0, 255]);
    match wrong {
        0 => {}
        1 => {
            std::fs::create_dir_all(ctx.dir.join(file)).expect("scratch directory");
        }
        2 => {
            // not UTF-8, and no image
            ctx.put(file, b" nop\n ; \xff\xfe\n");
        }
        _ => {
            // in no directory
            ctx.put(base, b"file");
        }
    }
    let deep = format!("{}/x.png", base);
    let file = if wrong == 3 { deep.as_str() } else { file };
    ctx.put("good.png", &png(&good, PngKind::Rgba8));
    let dashed = format!("./{}", file);
    let err = match kind {
        0 => ask!(failure(ctx, &["assemble", &dashed, "-o", "out.bin"])),
        1 => ask!(rejects(ctx, &format!(" nop\n .include \"{}\"\n", file))),
        2 if wrong == 2 => return pass(false),
        2 => ask!(rejects(ctx, &format!(" nop\n .include bytes \"{}\"\n", file))),
        3 => ask!(rejects(ctx, &format!(" nop\n .include cpp \"{}\"\n", file))),
        4 => ask!(rejects(ctx, &format!(" nop\n .include icon \"{}\"\n", file))),
        5 => ask!(rejects(ctx, &format!(" nop\n .include icon \"good.png\" eyecatch=\"{}\"\n", file))),
        6 => ask!(rejects(ctx, &format!(" nop\n .include sprite \"{}\"\n", file))),
        7 => ask!(failure(ctx, &["image", &dashed])),
        8 => ask!(failure(ctx, &["image", "-f", "vmu_sprite", &dashed])),
        9 => ask!(failure(ctx, &["icon", &dashed])),
        10 => ask!(failure(ctx, &["icon", "good.png", "-e", &dashed])),
        11 => ask!(failure(ctx, &["expand", &dashed])),
        12 if wrong == 0 || wrong == 2 => return pass(false),
        12 => {
            ctx.put("p.s", b" nop\n");
            let r = ask!(failure(ctx, &["assemble", "p.s", "-o", &dashed]));
            r
        }
        13 => {
            // the included file includes it
            ctx.put("inc.s", format!(" nop\n .include \"{}\"\n", file).as_bytes());
            ask!(rejects(ctx, " nop\n .include \"inc.s\"\n"))
        }
        _ => unreachable!(),
    };
    let name = file.rsplit('/').next().unwrap();
    // the message of an image command has one line only
    let text = if err.starts_with("Error") || !err.contains('✘') { err.clone() } else { said(&err).join("\n") };
    if !text.contains(name) {
        return Verdict::Fail(format!("the message does not name {}: {}", name, err));
    }
    for other in ["good.png", "inc.s", "p.s"] {
        if text.contains(other) {
            return Verdict::Fail(format!("the message names {}, but {} is to blame: {}", other, name, err));
        }
    }
    let system = match wrong {
        0 => reason(&text, 2, "no such file"),
        1 => reason(&text, 21, "is a directory"),
        3 => reason(&text, 20, "not a directory"),
        _ => !reason(&text, 2, "no such file"),
    };
    if !system {
        return Verdict::Fail(format!("the message does not give the reason: {}", err));
    }
    pass(true)
}
const BLAMED: u64 = 14;

/// Pictures of the wrong size or with too many colours.
fn picture(ctx: &mut Ctx, kind: usize, w: usize, h: usize, n: usize) -> Verdict {
    // n different colours that stay different with four bits
    let px: Vec<Px> = (0..w * h)
        .map(|k| {
            let c = (k % n) as u8;
            [(c & 15) * 17, (c >> 4) * 17, 0, 255]
        })
        .collect();
    let have = n.min(w * h);
    ctx.put("pic.png", &png(&Pic::new(w, h, px), PngKind::Rgba8));
    ctx.put("good.png", &png(&Pic::solid(32, 32, [0, 0, 0, 255]), PngKind::Rgba8));
    let eye = kind == 1 || kind == 3;
    let (rw, rh) = if eye { (72, 56) } else { (32, 32) };
    let size = (w, h) != (rw, rh);
    let colours = have > 16 && !eye;
    if !size && !colours {
        return pass(false);
    }
    let err = match kind {
        0 => ask!(failure(ctx, &["icon", "pic.png"])),
        1 => ask!(failure(ctx, &["icon", "good.png", "-e", "pic.png"])),
        2 => ask!(rejects(ctx, " nop\n .include icon \"pic.png\"\n")),
        _ => ask!(rejects(ctx, " nop\n .include icon \"good.png\" eyecatch=\"pic.png\"\n")),
    };
    let lines: Vec<String> = if kind < 2 { err.split('\n').map(str::to_owned).collect() } else { said(&err) };
    let text = lines.join("\n");
    if !text.contains("pic.png") || text.contains("good.png") {
        return Verdict::Fail(format!("pic.png is to blame: {}", err));
    }
    let dir = ctx.dir.display().to_string();
    let rest = text.replace(&dir, "").replace("pic.png", "");
    // all numerals
    let mut all: Vec<i64> = vec![];
    for w in rest.split(|c: char| !c.is_ascii_digit()) {
        if let Ok(v) = w.parse() {
            all.push(v);
        }
    }
    let by_size = size && all == [rw as i64, rh as i64];
    let mut sorted = all.clone();
    sorted.sort();
    let by_colours = colours && sorted == [16, have as i64];
    if !by_size && !by_colours {
        return Verdict::Fail(format!("{}x{} with {} colours: {}", w, h, have, err));
    }
    pass(true)
}

fn sprite(ctx: &mut Ctx, w: usize, h: usize, typ: &str) -> Verdict {
    if w < 256 && h < 256 {
        return pass(false);
    }
    ctx.put("pic.png", &png(&Pic::solid(w, h, [0, 0, 0, 255]), PngKind::Rgba8));
    let err = ask!(rejects(ctx, &format!(" nop\n .include sprite \"pic.png\" {}\n", typ)));
    let ws = words(&said(&err));
    let all = numbers(&ws);
    let too = |n: usize, what: &str| n > 255 && all.contains(&(n as i64)) && ws.contains(&what.to_owned());
    if !too(w, "width") && !too(h, "height") || !all.contains(&255) {
        return Verdict::Fail(format!("{}x{}, and 255 is the maximum: {}", w, h, err));
    }
    pass(true)
}

/// The number and the name in the report of success.
fn report(ctx: &mut Ctx, text: &str, name: &str) -> Verdict {
    ctx.put("p.s", text.as_bytes());
    let dir = ctx.dir.clone();
    let r = ctx.cli_dir(&["assemble", "p.s", "-o", name], Some(&dir));
    if r.code != 0 {
        return if r.crashed() { Verdict::Fail(describe_code(r.code)) } else { pass(false) };
    }
    let len = match std::fs::read(dir.join(name)) {
        Ok(b) => b.len() as i64,
        Err(e) => return Verdict::Fail(format!("{} is not written: {}", name, e)),
    };
    let e = r.err_s();
    let rest = e.replacen(name, "", 1);
    if rest == e {
        return Verdict::Fail(format!("the report does not name {}: {}", name, e));
    }
    let ws: Vec<String> = rest.split_whitespace().map(|w| w.trim_matches(|c: char| ".,:;[]()".contains(c)).to_owned()).collect();
    if numbers(&ws) != [len] {
        return Verdict::Fail(format!("{} bytes are written: {}", len, e));
    }
    pass(true)
}

// ---------------------------------------------------------------------------------------------

fn tuples(base: u64, n: u64) -> u64 {
    crate::a_layout::seq_total(base, n as u32)
}

pub fn d05(t: Tier) -> Check {
    let mut spaces = vec![];
    let mns = mnemonics();
    {
        let mns = mns.clone();
        let ops = t.q(5, OPERANDS.len());
        let depth = 3;
        let all: Vec<Vec<usize>> = (0..tuples(ops as u64, depth)).map(|i| crate::a_layout::seq_get(ops as u64, i)).collect();
        let mut cases: Vec<Vec<usize>> = all;
        // four operands
        cases.push(vec![0, 1, 2, 3]);
        cases.push(vec![2, 0, 3, 1]);
        cases.push(vec![1, 1, 1, 1]);
        let (nm, nc) = (mns.len() as u64, cases.len() as u64);
        spaces.push(Space::new(
            "forms",
            &format!("every mnemonic with up to 3 operands of {} ways of writing one, and with 4, where that is no form of it, as a statement, in capitals behind a label, in a macro, and as a macro's arguments: the message names the instruction and lists exactly its forms", ops),
            nm * nc * 4,
            move |i, ctx| {
                let mut m = Mix(i);
                let mode = m.take(4);
                let mn = mns[m.take(nm as usize)];
                let args = &cases[m.0 as usize];
                if mode == 3 && args.is_empty() {
                    return pass(false);
                }
                forms(ctx, mn, args, mode)
            },
        ));
    }
    {
        let vs = edges();
        let mut at: Vec<(usize, usize)> = vec![];
        for (n, f) in FORMS.iter().enumerate() {
            for k in 0..f.ops.len() {
                if f.ops.as_bytes()[k] != b'N' {
                    at.push((n, k));
                }
            }
        }
        let (na, nv) = (at.len(), vs.len());
        let spellings = t.q(3, SPELLINGS);
        spaces.push(Space::new(
            "operands",
            &format!("every operand of every instruction, {} values at the ends of ranges, {} ways of writing them, in an instruction and as an argument of a macro, where the value does not fit: the message states the value (or the distance, or the address) and the number of bits, and whether they have a sign", nv, spellings),
            (na * nv * spellings * 2) as u64,
            move |i, ctx| {
                let mut m = Mix(i);
                let mode = m.take(2);
                let how = [0, 3, 2, 1, 4, 5][m.take(spellings)];
                let (n, k) = at[m.take(na)];
                let v = vs[m.0 as usize];
                range(ctx, &FORMS[n], k, v, how, mode)
            },
        ));
    }
    {
        // distances
        let near: Vec<i64> = (-300..300).chain([1000, -1000, 4000, 30000, -30000, 32766, 32767, 32768]).collect();
        let at: Vec<usize> = (0..FORMS.len()).filter(|n| FORMS[*n].ops.contains('S')).collect();
        let (na, nn) = (at.len(), near.len());
        spaces.push(Space::new(
            "distances",
            &format!("every instruction with an eight-bit distance, {} distances: the message states the distance", nn),
            (na * nn * 2) as u64,
            move |i, ctx| {
                let mut m = Mix(i);
                let mode = m.take(2);
                let f = &FORMS[at[m.take(na)]];
                let pos: i64 = if mode == 0 { 0x1000 } else { 0x1ffa };
                let v = (pos + size(f) as i64 + near[m.0 as usize]) & 0xffff;
                range(ctx, f, f.ops.len() - 1, v, 0, mode)
            },
        ));
    }
    {
        const OFF: &[i64] = &[0, 1, 0x7ff, 0x800, 0xffd, 0xffe, 0xfff];
        let to: Vec<i64> = t.q(vec![0, 0xfff], OFF.to_vec());
        let nt = to.len();
        spaces.push(Space::new("pages", "jmp and call from every page to every other, at the ends of the pages, to a number, a constant or a label: the message states the target, the position, and the four bits of both", (2 * 16 * 16 * OFF.len() * nt * 3) as u64, move |i, ctx| {
            let mut m = Mix(i);
            let mn = ["jmp", "call"][m.take(2)];
            let how = m.take(3);
            let (p, q) = (m.take(16) as i64, m.take(16) as i64);
            let a = OFF[m.take(OFF.len())];
            let b = to[m.0 as usize];
            page(ctx, mn, p << 12 | a, q << 12 | b, how)
        }));
    }
    {
        let vs = edges();
        let nv = vs.len();
        spaces.push(Space::new("data", ".byte and .word with values at the ends of ranges, written in six ways, in every place of lists of up to 4", (nv * SPELLINGS * 2 * 10) as u64, move |i, ctx| {
            let mut m = Mix(i);
            let word = m.take(2) == 1;
            let how = m.take(SPELLINGS);
            let (at, count) = [(0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3), (0, 4), (1, 4), (2, 4), (3, 4)][m.take(10)];
            data(ctx, word, vs[m.0 as usize], how, at, count)
        }));
    }
    {
        let mut vs = edges();
        vs.extend([0, 1, -1, i64::from(i32::MAX)]);
        vs.retain(|v| *v > i64::from(i32::MIN) && *v <= i64::from(i32::MAX));
        let nv = vs.len();
        spaces.push(Space::new("divisions", &format!("{} dividends in six spellings divided by seven zeros, in data, operands, macro arguments and jumps: the message states the dividend", nv), (nv * SPELLINGS * 7 * 5) as u64, move |i, ctx| {
            let mut m = Mix(i);
            let place = m.take(5);
            let zero = m.take(7);
            let how = m.take(SPELLINGS);
            division(ctx, vs[m.0 as usize], how, zero, place)
        }));
    }
    spaces.push(Space::new("fallbacks", "five kinds of include, in the main file or in a file below it, 6 names in 3 directories, which exist beside the including file, in the working directory, in both or not at all: warned exactly if only in the working directory, naming both paths", 5 * 2 * 6 * 3 * 4, move |i, ctx| {
        let mut m = Mix(i);
        let kind = m.take(5);
        let below = m.take(2) == 1;
        let file = ["f", "a b", "\u{e9}", "long.name.with.dots", "-x", "WARNING"][m.take(6)];
        let dir = m.take(3);
        fallback(ctx, kind, below, file, dir, m.0 as usize)
    }));
    spaces.push(Space::new("lengths", ".text and .string with sizes 0 to 15 and texts that are longer, sizes in decimal or hexadecimal: the message states both numbers", (2 * 2 * 16 * TEXTS.len()) as u64, move |i, ctx| {
        let mut m = Mix(i);
        let dir = [".text", ".string"][m.take(2)];
        let how = m.take(2);
        let n = m.take(16) as i64;
        length(ctx, dir, n, m.0 as usize, how)
    }));
    spaces.push(Space::new("locations", ".org beyond 64K", 3 * 40, move |i, ctx| {
        let mut m = Mix(i);
        let how = m.take(3);
        let k = m.0 as i64;
        let v = if k < 8 { 65536 + k } else { (1i64 << (16 + (k - 8) / 2 % 15)) + (k % 2) * 77 + (k / 30) };
        location(ctx, v.min(i64::from(i32::MAX)), how)
    }));
    spaces.push(Space::new("names", &format!("{} kinds of errors about a name, {} names, in the program, in an included file, among other text: the message says the name (and the number of parameters)", NAMED, NAMES.len()), NAMED * NAMES.len() as u64 * 3, move |i, ctx| {
        let mut m = Mix(i);
        let mode = m.take(3);
        let name = NAMES[m.take(NAMES.len())];
        named(ctx, m.0 as usize, name, mode)
    }));
    {
        let n = mns.len();
        spaces.push(Space::new("macros named as instructions", "every mnemonic as the name of a macro with 0 to 3 parameters", (n * 2 * 4) as u64, move |i, ctx| {
            let mut m = Mix(i);
            let up = m.take(2) == 1;
            let params = m.take(4);
            mnemonic_macro(ctx, mns[m.0 as usize], up, params)
        }));
    }
    spaces.push(Space::new("files", &format!("{} ways to name a file in a command or in a program, {} names, where the file is missing, is a directory, has the wrong contents, or stands below a file: the message names that file and no other, and gives the system's reason", BLAMED, FILES.len()), BLAMED * FILES.len() as u64 * WRONG as u64, move |i, ctx| {
        ctx.clean();
        let mut m = Mix(i);
        let wrong = m.take(WRONG);
        let file = FILES[m.take(FILES.len())];
        let v = blamed(ctx, m.0 as usize, file, wrong);
        ctx.clean();
        v
    }));
    {
        const W: &[usize] = &[1, 2, 31, 32, 33, 56, 64, 71, 72, 73];
        const H: &[usize] = &[1, 31, 32, 33, 55, 56, 57, 72];
        const N: &[usize] = &[1, 2, 15, 16, 17, 18, 20, 64, 255, 256];
        spaces.push(Space::new("pictures", "icons and eyecatches of 10 widths, 8 heights and 10 numbers of colours, by the command and by .include: the message names the file and states the size it should have, or both numbers of colours", (4 * W.len() * H.len() * N.len()) as u64, move |i, ctx| {
            let mut m = Mix(i);
            let kind = m.take(4);
            let (w, h) = (W[m.take(W.len())], H[m.take(H.len())]);
            picture(ctx, kind, w, h, N[m.0 as usize])
        }));
    }
    {
        const S: &[usize] = &[1, 8, 254, 255, 256, 257, 300, 511, 512, 1000];
        const TYPES: &[&str] = &["", "type=\"simple\"", "type=\"masked\"", "header=\"yes\""];
        spaces.push(Space::new("sprites", "sprites of 10 widths and heights: the message states the width or height that is too large, and 255", (S.len() * S.len() * TYPES.len()) as u64, move |i, ctx| {
            let mut m = Mix(i);
            let typ = TYPES[m.take(TYPES.len())];
            let w = S[m.take(S.len())];
            sprite(ctx, w, S[m.0 as usize], typ)
        }));
    }
    {
        const ITEMS: &[&str] = &[" nop\n", " .byte 1,2,3\n", " mov #1, 2\n", " .text 7 \"a\"\n", " .word 1,2\n", " .org $20\n", " .cnop 0, 16\n", "; c\n", "x = 1\n", " .include bytes \"p.s\"\n"];
        const OUT: &[&str] = &["out.bin", "a b.vms", "\u{e9}.x", "sub/o"];
        let depth = t.q(3, 4);
        spaces.push(Space::new("reports", &format!("every sequence of up to {} of {} statements, written to 4 files: the report of success names the file and states its size", depth, ITEMS.len()), tuples(ITEMS.len() as u64, depth) * OUT.len() as u64, move |i, ctx| {
            let mut m = Mix(i);
            let o = OUT[m.take(OUT.len())];
            std::fs::create_dir_all(ctx.dir.join("sub")).ok();
            let text: String = crate::a_layout::seq_get(ITEMS.len() as u64, m.0).iter().map(|k| ITEMS[*k]).collect();
            report(ctx, &text, o)
        }));
    }
    Check {
        level: "exploration",
        spaces,
        assumptions: vec![
            "Facts are looked for in the words of the message outside of the places it lists and the lines it quotes; wording, order and layout are not judged.".into(),
            "disassemble and vmi are not judged: their messages give the system's reason only, or none.".into(),
        ],
    }
}
