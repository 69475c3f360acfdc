//! D02: diagnostics point at the text that caused them.
//!
//! Programs are written with marks: `①` stands before the offending text, `②`, `③`... before the
//! other places the message must list, in that order. The marks are removed before the program is
//! assembled, and say which file, line and column (in user-perceived characters) the message has
//! to name and which line it has to quote.

use crate::engine::*;
use crate::{Check, Tier};
use std::path::Path;

/// Stands behind the offending text where its extent is beyond doubt.
const END: char = '⓪';
const MARKS: &[char] = &['①', '②', '③', '④', '⑤', '⑥', '⑦', '⑧', '⑨', '⑩'];

#[derive(Debug, Clone, PartialEq)]
pub struct Place {
    file: String,
    line: usize,
    col: usize,
    /// where it ends, if marked or listed
    end: Option<usize>,
    text: String,
    /// the line under the quoted one, if listed
    under: String,
}

impl Place {
    /// Do the marks under the quoted line stand under the place?
    fn marked(&self) -> bool {
        let at = match self.under.strip_prefix("  ").and_then(|u| u.find('^').map(|k| (u, k))) {
            Some(x) => x,
            None => return false,
        };
        let (before, rest) = at.0.split_at(at.1);
        let n = rest.len() - rest.trim_start_matches('^').len();
        let full = graphemes(&self.text);
        let right = match self.end {
            Some(e) if e > self.col && e <= full => n == e - self.col,
            Some(_) => n >= 1,
            None => n == 1,
        };
        graphemes(before) == self.col && before.chars().all(char::is_whitespace) && right
    }
}

/// The number of user-perceived characters, for the characters used in this module.
fn graphemes(s: &str) -> usize {
    let mut n = 0;
    let mut joined = false;
    // nothing joins a control character
    let mut control = true;
    for c in s.chars() {
        let u = c as u32;
        let extends = (0x300..0x370).contains(&u) || u == 0xfe0f || u == 0x200d || (0x1f3fb..=0x1f3ff).contains(&u) || u == 0x93f;
        if control || !(extends || joined) {
            n += 1;
        }
        control = c.is_control() || u == 0x200b || u == 0x2028 || u == 0x2029 || u == 0xfeff;
        joined = u == 0x200d;
    }
    n
}

/// Removes the marks; returns the text and the marked places.
fn unmark(file: &str, marked: &str, out: &mut Vec<(usize, Place)>) -> String {
    let mut plain = String::new();
    let mut found: Vec<(usize, usize, Option<usize>)> = vec![];
    for c in marked.chars() {
        match MARKS.iter().position(|m| *m == c) {
            Some(k) => found.push((k, plain.len(), None)),
            None if c == END => found.last_mut().expect("an end has a start").2 = Some(plain.len()),
            None => plain.push(c),
        }
    }
    for (k, at, until) in found {
        let start = plain[..at].rfind('\n').map(|p| p + 1).unwrap_or(0);
        let end = plain[at..].find('\n').map(|p| p + at).unwrap_or(plain.len());
        let text = plain[start..end].strip_suffix('\r').unwrap_or(&plain[start..end]);
        out.push((
            k,
            Place { file: file.to_owned(), line: plain[..at].matches('\n').count() + 1, col: graphemes(&plain[start..at]), end: until.map(|u| graphemes(&plain[start..u])), text: text.to_owned(), under: String::new() },
        ));
    }
    plain
}

/// The places a message lists: `path:line:col[-end]` followed by the quoted line.
fn listed(err: &str) -> Vec<Place> {
    let lines: Vec<&str> = err.split('\n').collect();
    let mut out = vec![];
    let mut k = 0;
    while k + 1 < lines.len() {
        let (indent, l) = match lines[k].strip_prefix("  | ") {
            Some(r) => ("  | ", r),
            None => ("", lines[k]),
        };
        if let Some(mut p) = place(l) {
            let q = lines[k + 1];
            let q = q.strip_prefix(indent).unwrap_or(q);
            p.text = q.strip_prefix("  ").unwrap_or("(not indented)").to_owned();
            if let Some(u) = lines.get(k + 2) {
                p.under = u.strip_prefix(indent).unwrap_or(u).to_owned();
            }
            out.push(p);
            k += 1;
        }
        k += 1;
    }
    out
}

pub fn place(l: &str) -> Option<Place> {
    let mut it = l.rsplitn(3, ':');
    let col = it.next()?;
    let line = it.next()?;
    let file = it.next()?;
    if file.is_empty() || file.starts_with(' ') {
        return None;
    }
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    let mut c = col.splitn(2, '-');
    let col = c.next()?;
    let end = match c.next() {
        Some(e) if !digits(e) => return None,
        Some(e) => e.parse().ok(),
        None => None,
    };
    if !digits(line) || !digits(col) {
        return None;
    }
    Some(Place { file: file.to_owned(), line: line.parse().ok()?, col: col.parse().ok()?, end, text: String::new(), under: String::new() })
}

fn same_file(dir: &Path, a: &str, b: &str) -> bool {
    let f = |x: &str| std::fs::canonicalize(dir.join(x)).ok();
    f(a).is_some() && f(a) == f(b)
}

/// Assembles the marked files (the first is the program) and compares the places.
fn diagnose(ctx: &mut Ctx, files: &[(String, String)], allowed: &[Vec<usize>]) -> Verdict {
    let mut places = vec![];
    for (name, marked) in files {
        let plain = unmark(name, marked, &mut places);
        ctx.put(name, plain.as_bytes());
    }
    let dir = ctx.dir.clone();
    let r = ctx.cli_dir(&["assemble", &files[0].0, "-o", "d02.out"], Some(&dir));
    if r.code == 0 {
        return Verdict::Fail("the program with an error assembles".into());
    }
    if r.crashed() {
        return Verdict::Fail(format!("status {}: {}", r.code, r.err_s()));
    }
    let got = listed(&r.err_s());
    let mut why = String::new();
    for want in allowed {
        let want: Vec<&Place> = want.iter().map(|k| &places.iter().find(|p| p.0 == *k).expect("mark").1).collect();
        let ok = want.len() == got.len()
            && want.iter().zip(&got).all(|(w, g)| same_file(&dir, &w.file, &g.file) && w.line == g.line && w.col == g.col && w.text == g.text && (w.end.is_none() || w.end == g.end || w.end == Some(w.col) && g.end.is_none()) && g.marked());
        if ok {
            return pass(true);
        }
        why = format!("the message lists {:?}, but the places are {:?}", got, want);
    }
    Verdict::Fail(why)
}

struct Snip {
    /// lines put before the statement
    pre: &'static str,
    /// the statement
    stmt: &'static str,
    /// instruction: may stand in a macro
    instr: bool,
    /// must start in the first column or after white space only
    top: bool,
    /// number of marks
    marks: usize,
}

const fn s(stmt: &'static str) -> Snip {
    Snip { pre: "", stmt, instr: false, top: false, marks: 1 }
}
const fn i(stmt: &'static str) -> Snip {
    Snip { pre: "", stmt, instr: true, top: false, marks: 1 }
}
const fn top(pre: &'static str, stmt: &'static str, marks: usize) -> Snip {
    Snip { pre, stmt, instr: false, top: true, marks }
}

const SNIPS: &[Snip] = &[
    i("add #①256⓪"),
    i("add #①-1"),
    i("add ①512⓪"),
    i("bp $10, ①8⓪, 0"),
    i("set1 ①nope⓪, 3"),
    i("set1 3, ①nope⓪"),
    i("be #1, ①nope⓪+1"),
    i("br ①$9000⓪"),
    i("add #①1/0⓪"),
    i("add #3+(①4/(1-1))"),
    i("add #①2147483647+1⓪"),
    i("mov #①300⓪, $10"),
    i("mov #3, ①1000⓪"),
    i("①add #1, #2"),
    i("①nop 1"),
    i("①add"),
    i("①frob 1, 2"),
    i("jmp ①-1"),
    i("jmpf ①65536⓪"),
    i("add ①^"),
    i("add #1 ①2"),
    i("add #1, ①,"),
    i("add #(1 ①]"),
    i("be #1, (2 + 3 ①`"),
    i("ld ①@R4"),
    i("add #①"),
    i("add <①"),
    i("add 3 *①"),
    i("mov #1,①"),
    i("add #(1①"),
    i("bp 3, -(2)+①"),
    s(".byte 1, 2, ①300⓪, 4"),
    s(".byte ①-129"),
    s(".byte \"ab\", ①nope⓪, 4"),
    s(".byte ①1+255⓪"),
    s(".word 1, ①65536⓪"),
    s(".word ①-32769"),
    s(".word 2*(①nope⓪)"),
    s(".byte 1, ①99999999999"),
    s(".byte 1 ①2"),
    s(".word 1 ①\"x\""),
    s("①.byte"),
    s("①.word"),
    s("①.frob 1"),
    s("①.text 2 \"abc\""),
    s("①.string 2 \"abc\""),
    s("①.org 65536"),
    s(".org ①x"),
    s(".cnop 1, ①x"),
    s(".include ①foo \"x\""),
    s(".include sprite \"x.png\" type=①\"q\""),
    s(".include sprite \"x.png\" header=①\"q\""),
    s("①^ 3"),
    s("①l%: nop"),
    s("add #①%a⓪"),
    s("①add %a"),
    s("nop①`"),
    s("nop ①\u{e9}"),
    s("nop ①\\"),
    s(".byte 1, ①\"abc"),
    s(".byte 1 +①⓪"),
    s(".byte \"x\",①"),
    s(".word (1①"),
    s(".org①"),
    s(".text①"),
    s(".text 5①"),
    s(".string 5①"),
    s(".cnop①"),
    s(".cnop 1①"),
    s(".cnop 1,①"),
    s(".include①"),
    s(".include asm①"),
    s(".include bytes①"),
    s(".include cpp①"),
    s(".include icon①"),
    s(".include sprite①"),
    s(".include icon \"x\" speed①"),
    s(".include icon \"x\" speed=①"),
    s(".include sprite \"x\" type=①"),
    top("②dup: nop\n", "①DUP:⓪ nop", 2),
    top("②.dup: nop\n", "①.dup: nop", 2),
    top("②dup = 1\n", "①dup = 2⓪", 2),
    top("②dup: nop\n", "①dup = 2⓪", 2),
    top("", "v = ①nope⓪", 1),
    top("", "v = 3 + ①nope⓪ * 2", 1),
    top("", "v = ①1/0⓪", 1),
    top("", "v = ①w⓪\nw = 1", 1),
    top("", "v = 1 ①2", 1),
    top("", "①1 = 2", 1),
    top("", "①= 2", 1),
    top("", "①%end⓪", 1),
    top("%macro ②mm\n nop\n%end\n", "%macro ①mm⓪\n nop\n%end", 2),
    top("%macro ②mm %q\n nop\n%end\n", "%macro ①MM⓪ %r\n nop\n%end", 2),
    top("", "%macro ①add\n nop\n%end", 1),
    top("", "%macro q %a, ①%a\n nop\n%end", 1),
    top("", "%macro q %a ①%b\n nop\n%end", 1),
    top("", "%macro q\n ①.byte 1\n%end\n q", 1),
    top("", "v =①", 1),
    top("", "v = 1 +①", 1),
    top("", "v equ①", 1),
    top("", "%macro①\n nop\n%end", 1),
    top("", "%macro q %a,①\n nop\n%end", 1),
    top("", "%macro ①q⓪\n nop", 1),
    top("%macro two %a, %b\n nop\n%end\n", " ①two 1", 1),
];

/// Programs with one error each.
pub fn rejected() -> Vec<String> {
    SNIPS.iter().map(|s| unmark("", &format!(" .byte 1, 2\n{}{}{}\n nop\n", s.pre, if s.top { "" } else { " " }, s.stmt), &mut vec![])).collect()
}

/// Text before the statement: (text, how it works with CRLF is the same).
const PRELUDES: &[&str] = &[
    "",
    "\n",
    "\n\n\n",
    " nop\n",
    "; comment\n",
    "; \u{e9} \u{6f22}\u{5b57} e\u{301} \u{1f468}\u{200d}\u{1f469}\n",
    "* star comment \" %macro\n",
    " nop ; \"not a string\n",
    " .byte \"\u{e9}\u{6f22}\u{1f468}\u{200d}\u{1f469}\"\n",
    " .byte \"one\ntwo\nthree\", 4\n",
    " .byte \"\\n\\\"\\\\\"\n",
    "\tnop\t\n \t \n",
    ".include \"three.s\"\n",
    ".include \"lastline.s\"\n nop\n",
    ".include cpp \"h.h\"\n",
    "%macro other %a\nx%: br x%\n nop ; \u{e9}\n%end\n other 3\n",
    "lab1:\n\nlab2: nop\n",
    "\u{a0}\u{2003}nop\n",
    " nop\r\r\n",
    "; c\u{2028}d\u{b}e\u{c}f\u{85}g\n",
];

const PREFIXES: &[&str] = &["", " ", "\t", "lbl: ", "lbl:\t\t", "_x.y$9:", "\u{a0} ", "lbl:\u{2003}"];
const SUFFIXES: &[&str] = &["\n", "", " ; c \u{e9}\n nop\n", "\t \n"];

fn support(ctx: &mut Ctx, crlf: bool) {
    let e = |s: &str| if crlf { s.replace('\n', "\r\n") } else { s.to_owned() };
    ctx.put("three.s", e(" nop\n; c\n nop\n").as_bytes());
    ctx.put("lastline.s", e(" nop\n nop").as_bytes());
    ctx.put("h.h", e("#define HH 1 /* a\nb */\n// c\n").as_bytes());
}

fn convert(text: String, crlf: bool) -> String {
    if crlf {
        text.replace("\r\n", "\n").replace('\n', "\r\n")
    } else {
        text
    }
}

fn all_marks(n: usize) -> Vec<Vec<usize>> {
    vec![(0..n).collect()]
}

/// Puts the offending text into the program itself or into included files.
fn located(where_: usize, text: String) -> Vec<(String, String)> {
    let mut f: Vec<(String, String)> = vec![];
    match where_ {
        0 => f.push(("t.s".into(), text)),
        1 => {
            f.push(("t.s".into(), "\n nop\n.include \"x1.s\"\n nop\n".into()));
            f.push(("x1.s".into(), text));
        }
        2 => {
            f.push(("t.s".into(), ".include asm \"sub/x2.s\"\n".into()));
            f.push(("sub/x2.s".into(), "; \u{e9}\n.include \"deep/x3.s\"".into()));
            f.push(("sub/deep/x3.s".into(), text));
        }
        _ => {
            // the file before has an equal number of lines
            f.push(("t.s".into(), " nop\n.include \"x4.s\"\n.include \"x4.s\"\n.include \"x5.s\"\n".into()));
            f.push(("x4.s".into(), " nop\n".into()));
            f.push(("x5.s".into(), text));
        }
    }
    f
}

/// The included header and helpers are looked up where the including file is.
fn support_everywhere(ctx: &mut Ctx, where_: usize, crlf: bool) {
    support(ctx, crlf);
    if where_ == 2 {
        for n in ["three.s", "lastline.s", "h.h"] {
            let b = std::fs::read(ctx.dir.join(n)).unwrap();
            ctx.put(&format!("sub/deep/{}", n), &b);
        }
    }
}

pub fn d02(t: Tier) -> Check {
    let mut spaces = vec![];
    let prel: Vec<&'static str> = PRELUDES.to_vec();
    let (np, nx, ns) = (prel.len(), t.q(6, PREFIXES.len()), t.q(3, SUFFIXES.len()));
    let total = SNIPS.len() * np * nx * ns * 2 * 4;
    spaces.push(Space::new(
        "places",
        &format!("every kind of error after each of 20 preludes, {} beginnings of the line and before each of {} rests, with both line ends, in the program and in three arrangements of included files", nx, ns),
        total as u64,
        move |n, ctx| {
            let mut m = Mix(n);
            let sn = &SNIPS[m.take(SNIPS.len())];
            let prelude = prel[m.take(np)];
            let prefix = PREFIXES[m.take(nx)];
            let suffix = SUFFIXES[m.take(ns)];
            let crlf = m.take(2) == 1;
            let where_ = m.0 as usize;
            if sn.top && prefix.contains(':') {
                return pass(false);
            }
            // no directive may follow a label on its line
            if sn.stmt.starts_with('.') && prefix.contains(':') {
                return pass(false);
            }
            if sn.stmt.contains("①.dup") && prefix.trim() != "" {
                return pass(false);
            }
            // `*` in the first column begins a comment; `l%:` needs no white space
            let prefix = if prefix.is_empty() && !sn.top { " " } else { prefix };
            support_everywhere(ctx, where_, crlf);
            let mut lead = prefix.to_owned();
            if sn.stmt.starts_with(' ') {
                lead = lead.trim_end().to_owned();
            }
            let text = convert(format!("{}{}{}{}{}", prelude, sn.pre, lead, sn.stmt, suffix), crlf);
            diagnose(ctx, &located(where_, text), &all_marks(sn.marks))
        },
    ));
    // the same line
    const UNITS: &[&str] = &["a", "\u{e9}", "e\u{301}", "\u{1f468}\u{200d}\u{1f469}\u{200d}\u{1f467}", "\u{6f22}", "\t", "\\n", "\\\"", ";", "*", "%", "'", "\u{915}\u{93f}", "\u{1f44d}\u{1f3fd}", "\u{2764}\u{fe0f}", "\u{301}\u{302}", "\u{200b}"];
    let nu = UNITS.len() as u64;
    let depth = t.q(3u32, 4);
    let cnt: u64 = (0..=depth).map(|d| nu.pow(d)).sum();
    spaces.push(Space::new(
        "characters",
        &format!("every string of up to {} user-perceived characters out of {} before the offending value on the same line", depth, nu),
        cnt * 2,
        move |n, ctx| {
            let mut m = Mix(n);
            let form = m.take(2);
            let mut n = m.0;
            let mut d = 0;
            while n >= nu.pow(d) {
                n -= nu.pow(d);
                d += 1;
            }
            let mut u = String::new();
            for _ in 0..d {
                u.push_str(UNITS[(n % nu) as usize]);
                n /= nu;
            }
            let text = if form == 0 { format!(" .byte \"{}\", ①nope\n", u) } else { format!("; {}\n .byte \"x{}x\", \"{}y\" , 1 + ①nope ; {}\n", u, u, u, u) };
            // an escape begun by a backslash-n is harmless; a combining mark joins what precedes it
            diagnose(ctx, &[("t.s".into(), text)], &all_marks(1))
        },
    ));
    // histories of lines
    let np = PRELUDES.len() as u64;
    let depth = t.q(2u32, 3);
    spaces.push(Space::new(
        "histories",
        &format!("every sequence of {} preludes before one of three errors, with both line ends", depth + 1),
        np.pow(depth + 1) * 3 * 2,
        move |n, ctx| {
            let mut m = Mix(n);
            let crlf = m.take(2) == 1;
            let e = [" .byte 1, ①300\n", " add #①nope", "\tnop ①`\n"][m.take(3)];
            let mut text = String::new();
            let mut labels = 0;
            for k in 0..=depth {
                let p = PRELUDES[m.take(np as usize)];
                if p.contains("%macro other") || p.contains("lab1") || p.contains("h.h") {
                    labels += 1;
                    let _ = k;
                    // names of their own
                    text.push_str(&p.replace("other", &format!("other{}", labels)).replace("lab", &format!("lab{}x", labels)).replace("h.h", &format!("h{}.h", labels)));
                } else {
                    text.push_str(p);
                }
            }
            support(ctx, crlf);
            for l in 1..=labels {
                let b = std::fs::read_to_string(ctx.dir.join("h.h")).unwrap();
                ctx.put(&format!("h{}.h", l), b.replace("HH", &format!("HH{}", l)).as_bytes());
            }
            text.push_str(e);
            diagnose(ctx, &[("t.s".into(), convert(text, crlf))], &all_marks(1))
        },
    ));
    // macros
    let bodies: Vec<&'static Snip> = SNIPS.iter().filter(|x| x.instr).collect();
    let nb = bodies.len();
    spaces.push(Space::new(
        "macro-bodies",
        "every erroneous instruction in a macro body at each of 4 places, called through 1..6 macros, defined before or after the call or in an included file, with and without arguments, in the program or an included file, with both line ends",
        (nb * 4 * 6 * 3 * 3 * 2 * 2) as u64,
        move |n, ctx| {
            let mut m = Mix(n);
            let sn = bodies[m.take(nb)];
            let at = m.take(4);
            let depth = m.take(6) + 1;
            let def = m.take(3);
            let args = m.take(3);
            let crlf = m.take(2) == 1;
            let inc = m.take(2) == 1;
            // an error of the syntax is found before anything is expanded
            let syntax = sn.stmt.ends_with('①') || ["①^", "1 ①2", "①,", "①]", "①`", "①@R4"].iter().any(|x| sn.stmt.contains(x));
            let mut defs = String::new();
            for d in 0..depth {
                let params = ["", " %p", " %p, %r"][args];
                let pass_on = ["", " %p", " 1 + %p, %r"][args];
                defs.push_str(&format!("%macro mac{}{}\n", d, params));
                if d + 1 < depth {
                    defs.push_str(&format!(" nop ; \u{e9}\nl%:\t{}mac{}{}\n", mark(depth - 1 - d), d + 1, pass_on));
                } else {
                    defs.push_str(&match at {
                        0 => format!(" {}\n", sn.stmt),
                        1 => format!("\n ; \u{e9}\n nop\n\t {}\n nop\n", sn.stmt),
                        2 => format!("l%: nop\nk%: {} ; c\n br l%\n", sn.stmt),
                        _ => format!("inmac: {}\n", sn.stmt),
                    });
                }
                defs.push_str("%end\n");
            }
            let call = format!(" nop\nhere: {}mac0{}\n nop\n", mark(depth), ["", " 1", " 2, #3"][args]);
            let mut files = vec![];
            let program = match def {
                0 => format!("{}{}", defs, call),
                1 => format!("\n{}{}", call, defs),
                _ => {
                    files.push((if inc { "sub/m.s".to_owned() } else { "m.s".to_owned() }, convert(defs.clone(), crlf)));
                    format!("; x\n.include \"m.s\"\n{}", call)
                }
            };
            if inc {
                files.insert(0, ("sub/p.s".into(), convert(program, crlf)));
                files.insert(0, ("t.s".into(), "\n\n.include \"sub/p.s\"\n".into()));
            } else {
                files.insert(0, ("t.s".into(), convert(program, crlf)));
            }
            let all: Vec<usize> = (0..=depth).collect();
            if syntax {
                return diagnose(ctx, &files, &[vec![0]]);
            }
            diagnose(ctx, &files, &[all])
        },
    ));
    // arguments
    // (use in the macro, argument given, whether the whole argument is at fault)
    const ARGS: &[(&str, &str)] = &[
        ("add %a", "#①256"),
        ("add #%a", "①256"),
        ("add %a", "①512"),
        ("add %a", "①nope"),
        ("add #%a", "①nope"),
        ("add #%a", "1 + ①nope"),
        ("add #%a", "1 + ①2/0"),
        ("add #1+%a", "2*(①2/0)"),
        ("br %a", "①nope"),
        ("br %a", "①$8000"),
        ("be #%a, $10", "①300"),
        ("be #3, %a", "①nope"),
        ("set1 %a, 3", "①512"),
        ("set1 3, %a", "①8"),
        ("mov #3, %a", "①1000"),
    ];
    spaces.push(Space::new(
        "macro-arguments",
        "an argument at fault, written in the program or in the body of a macro, passed through 1..5 macros",
        (ARGS.len() * 5 * 5 * 2) as u64,
        move |n, ctx| {
            let mut m = Mix(n);
            let (used, arg) = ARGS[m.take(ARGS.len())];
            let depth = m.take(5) + 1;
            // the macro in whose call the argument is written; 0 is the program
            let origin = m.take(5);
            let crlf = m.take(2) == 1;
            if origin >= depth {
                return pass(false);
            }
            let mut defs = String::new();
            for d in 0..depth {
                let param = if d < origin { "" } else { " %a" };
                defs.push_str(&format!("\n%macro mac{}{}\n nop\n", d, param));
                if d + 1 == depth {
                    defs.push_str(&format!(" {}\n", used));
                } else {
                    let pass_on = if d + 1 < origin {
                        String::new()
                    } else if d + 1 == origin {
                        format!(" {}", arg)
                    } else {
                        " %a".to_owned()
                    };
                    defs.push_str(&format!("  {}mac{}{}\n", mark(depth - 1 - d), d + 1, pass_on));
                }
                defs.push_str("%end\n");
            }
            // with the argument in the program, macro 0 takes it
            let text = if origin == 0 {
                format!("{} nop\n {}mac0 {}\n", defs, mark(depth), arg)
            } else {
                let d = defs.replacen("%macro mac0 %a", "%macro mac0", 1);
                format!("{} nop\n {}mac0\n", d, mark(depth))
            };
            let text = if origin == 0 { text } else { fix_params(&text, origin) };
            // the calls around the argument, or all calls down to its use
            let around: Vec<usize> = std::iter::once(0).chain((1..=depth).filter(|k| *k > depth - origin)).collect();
            let all: Vec<usize> = (0..=depth).collect();
            diagnose(ctx, &[("t.s".into(), convert(text, crlf))], &[around, all])
        },
    ));
    // other misuse inside macros
    const MISUSE: &[(&str, &str)] = &[
        ("add #①%nope", ""),
        ("add ①%nope", ""),
        ("add 1 + ①%nope", ""),
        ("br ①%nope", ""),
        ("add #①%a", " #1"),
        ("add #①%a", " @R1"),
        ("add 1+①%a", " @R2"),
        ("add 1+①%a", " #2"),
        ("①mac0 %a", " 1"),
        ("①nosuch %a", " 1"),
        ("①add %a, %a", " 1"),
        ("①ld %a", " #1"),
    ];
    spaces.push(Space::new(
        "macro-misuse",
        "wrong use of arguments in a macro called through 1..6 macros",
        (MISUSE.len() * 6 * 2) as u64,
        move |n, ctx| {
            let mut m = Mix(n);
            let (stmt, arg) = MISUSE[m.take(MISUSE.len())];
            let depth = m.take(6) + 1;
            let crlf = m.take(2) == 1;
            let mut defs = String::new();
            let arg = if arg.is_empty() { " 5" } else { arg };
            for d in 0..depth {
                defs.push_str(&format!("; \u{e9}\n%macro mac{} %a\n", d));
                if d + 1 == depth {
                    defs.push_str(&format!(" nop\n x%: \t{}\n nop\n", stmt).replace(" x%:", "x%:"));
                } else {
                    defs.push_str(&format!(" {}mac{} %a\n", mark(depth - 1 - d), d + 1));
                }
                defs.push_str("%end\n");
            }
            let text = format!("{}\n\n\t {}mac0{}\n", defs, mark(depth), arg);
            diagnose(ctx, &[("t.s".into(), convert(text, crlf))], &[(0..=depth).collect()])
        },
    ));
    // labels defined by macros
    spaces.push(Space::new(
        "macro-labels",
        "labels defined twice by macros: by two calls, by a call and the program, in either order, through 1..4 macros, and twice in a body",
        4 * 4 * 2,
        move |n, ctx| {
            let mut m = Mix(n);
            let depth = m.take(4) + 1;
            let kind = m.take(4);
            let crlf = m.take(2) == 1;
            // places of the first expansion are marks depth+2.., of the second ①..
            let mut defs = String::new();
            for d in 0..depth {
                defs.push_str(&format!("%macro mac{}\n", d));
                if d + 1 == depth {
                    if kind == 3 {
                        defs.push_str("k%: nop\n\n①k%: nop\n");
                    } else {
                        defs.push_str(" nop\n①twice: nop\n");
                    }
                } else {
                    defs.push_str(&format!(" nop\n {}mac{}\n", mark(depth - 1 - d), d + 1));
                }
                defs.push_str("%end\n");
            }
            let chain: Vec<usize> = (0..depth).collect();
            let with = |last: usize| -> Vec<usize> { chain.iter().cloned().chain([last]).collect() };
            let (text, want) = match kind {
                0 => {
                    let mut w = with(depth + 1);
                    w.extend(with(depth));
                    (format!("{}  {}mac0\n\n {}mac0\n", defs, mark(depth), mark(depth + 1)), w)
                }
                1 => {
                    let mut w = with(depth);
                    w.push(depth + 1);
                    (format!("{}\n{}twice:\n\n {}mac0\n", defs, mark(depth + 1), mark(depth)), w)
                }
                2 => {
                    let mut w = vec![depth + 1];
                    w.extend(with(depth));
                    (format!("{} {}mac0\n\n{}TWICE: nop\n", defs, mark(depth), mark(depth + 1)), w)
                }
                _ => (format!("{} {}mac0\n", defs, mark(depth)), with(depth)),
            };
            let short = vec![0];
            let mut allowed = vec![want];
            if kind == 3 {
                // found while reading the definition
                allowed.push(short);
            }
            diagnose(ctx, &[("t.s".into(), convert(text, crlf))], &allowed)
        },
    ));
    // several included files
    const NAMES: &[[&str; 4]] = &[
        ["a.i", "b.i", "c.i", "d.i"],
        ["p/a.i", "q/a.i", "p/q/a.i", "a.i"],
        ["a.i", "A.i", "p/a.I", "P/a.i"],
        ["a b.i", "ab.i", "\u{e9}.i", "e\u{301}.i"],
        ["a.s", "a", "a.s.s", "..a.s"],
    ];
    const CONTENTS: &[&str] = &[" .byte 1, ~.loc", " nop\n\n; \u{e9}\n\tadd #~.loc ; x\n nop\n", "m% equ 1", "x\u{e9}"];
    let deep_files = t.q(4usize, 4);
    spaces.push(Space::new(
        "files",
        "two to four included files with the same contents (equal, or with the fault in one only), of different names, the same name in different directories, or names differing in case or accents: the fault (a local label missing in the scope a file is included in; the same definition twice; a character out of place) in each of them; headers likewise; included by the program or one by the other",
        (NAMES.len() * 3 * 4 * 4 * 6 * 2 * 2) as u64,
        move |n, ctx| {
            let mut m = Mix(n);
            let names = NAMES[m.take(NAMES.len())];
            let count = m.take(3) + 2;
            let bad = m.take(4);
            let other = m.take(4);
            let kind = m.take(6);
            let chain = m.take(2) == 1;
            let crlf = m.take(2) == 1;
            let two = kind == 2 || kind == 4;
            if bad >= count || other >= count || two && other >= bad || !two && other != 0 || count > deep_files {
                return pass(false);
            }
            if chain && (kind == 4 || names[0].contains('/') || names[2].contains('/')) {
                return pass(false);
            }
            ctx.clean();
            let mut main = " nop\n".to_owned();
            let mut files = vec![];
            for k in 0..count {
                let at = if k == bad { "①" } else { "" };
                let (body, before) = match kind {
                    0 | 1 => (CONTENTS[kind].replace('~', at), if k == bad { format!("s{}:\n", k) } else { format!("s{}:\n.loc: nop\n", k) }),
                    2 => (if k == bad { "①Dup equ 1\n nop" } else if k == other { "②dup equ 1\n nop" } else { " nop\n nop" }.to_owned(), String::new()),
                    3 => (if k == bad { " nop\n①!op\n" } else { " nop\n nop\n" }.to_owned(), String::new()),
                    4 => (if k == bad { "\n#define ①Dup 1" } else if k == other { "\n#define ②Dup 1" } else { "" }.to_owned(), String::new()),
                    _ => (if k == bad { " jmp ①nope" } else { " jmp here" }.to_owned(), if k == 0 { "here: nop\n".to_owned() } else { String::new() }),
                };
                let word = if kind == 4 { "cpp " } else { "" };
                let inc = format!(".include {}\"{}\"\n", word, names[k]);
                if chain && k > 0 {
                    // included by the file before, which goes on with its contents
                    let f: &mut (String, String) = files.last_mut().unwrap();
                    f.1 = format!("{}{}{}", before, inc, f.1);
                } else {
                    main.push_str(&before);
                    main.push_str(&inc);
                }
                files.push((names[k].to_owned(), body));
            }
            if chain && kind < 2 {
                // scopes of their own come before each include only; the last scope holds for all
                return pass(false);
            }
            let files: Vec<(String, String)> = std::iter::once(("t.s".to_owned(), main)).chain(files).map(|(n, c)| (n, convert(c, crlf))).collect();
            let want = if two && chain { vec![vec![1, 0], vec![0, 1]] } else if two { vec![vec![0, 1]] } else { vec![vec![0]] };
            diagnose(ctx, &files, &want)
        },
    ));
    // far away
    let far = crate::a_many::counts(t.q(130, 300), 20000);
    spaces.push(Space::new(
        "distance",
        "an error after every number up to 130 (thorough 300) and around powers of two up to 16384 of lines (blank, comments, statements, lines of a string, lines of an included file) and of characters of the same line (blanks, a string of one- or multi-byte characters, values); a macro at fault called after that many lines",
        far.len() as u64 * 9 * 2,
        move |n, ctx| {
            let mut m = Mix(n);
            let kind = m.take(9);
            let crlf = m.take(2) == 1;
            let c = far[m.0 as usize];
            let mut files = vec![];
            let text = match kind {
                0 => format!("{} .byte ①nope\n", "\n".repeat(c)),
                1 => format!("{} .byte ①nope\n", "; \u{e9}\n".repeat(c)),
                2 => format!("{} .byte ①nope", " nop\n".repeat(c)),
                3 => format!(" .byte \"x{}\", ①nope\n", "y\n".repeat(c)),
                4 => {
                    files.push(("n.s".to_owned(), " nop\n".repeat(c)));
                    " nop\n.include \"n.s\"\n .byte ①nope\n".to_owned()
                }
                5 => format!("{} .byte ①nope\n", " ".repeat(c)),
                6 => format!(" .byte \"{}\", ①nope\n", "a\u{e9}e\u{301}".repeat(c.min(5000))),
                7 => format!(" .byte {}①nope\n", "1,".repeat(c)),
                _ => format!("%macro m\n nop\n add ①nope\n%end\n{} ②m\n", "\n".repeat(c)),
            };
            let mut all = vec![("t.s".to_owned(), convert(text, crlf))];
            all.extend(files);
            diagnose(ctx, &all, &all_marks(if kind == 8 { 2 } else { 1 }))
        },
    ));
    // C headers
    const HPRE: &[&str] = &["", "#define OK 1\n", "// c \u{e9}\n", "/* a\n \u{e9}\n */\n", "/* a */ ", "\n\n", "#define OK2 /* x\n y */\n", "#define OK3 (1 + // c\n 2)\n"];
    const HERR: &[&str] = &["#define A ①nope\n", "#define A 1 + ①2/0\n", "#define A 1 /* \u{e9} */ + ①nope // c\n", "#define B ①`\n", "/* e\u{301} */ #define A ①nope", "①junk 3\n", "#define A 1\n\n#define B A + ①nope\n"];
    spaces.push(Space::new(
        "headers",
        "errors in C headers after every sequence of two beginnings, with both line ends, included by the program or by an included file",
        (HPRE.len() * HPRE.len() * HERR.len() * 2 * 2) as u64,
        move |n, ctx| {
            let mut m = Mix(n);
            let a = HPRE[m.take(HPRE.len())];
            let b = HPRE[m.take(HPRE.len())];
            let e = HERR[m.take(HERR.len())];
            let crlf = m.take(2) == 1;
            if a.contains("OK2") || b.contains("OK2") || a.contains("OK3") || b.contains("OK3") || (a == b && a.contains("OK")) {
                // not definitions of their own line, or defined twice
                return pass(false);
            }
            let inline = (format!("{}{}", a, b)).ends_with("*/ ");
            if inline && e.starts_with("/*") {
                return pass(false);
            }
            let h = convert(format!("{}{}{}", a, b, e), crlf);
            let use_ = " .byte A\n";
            let files = if m.take(2) == 0 {
                vec![("t.s".to_owned(), format!("; x\n\n.include cpp \"x.h\"\n{}", use_)), ("x.h".to_owned(), h)]
            } else {
                vec![("t.s".to_owned(), ".include \"sub/q.s\"\n".to_owned()), ("sub/q.s".to_owned(), format!("\n.include cpp \"x.h\"\n{}", use_)), ("sub/x.h".to_owned(), h)]
            };
            diagnose(ctx, &files, &all_marks(1))
        },
    ));
    // expressions
    const HOLES: &[&str] = &[
        "~", "~+1", "1+~", "~-1", "5-~", "~*2", "2*~", "~/3", "7/~", "~&3", "3&~", "~|1", "1|~", "~^1", "1^~", "-~", "<~", ">~", "(~)", "2*(~)",
    ];
    // the piece that cannot be evaluated
    const FAULTS: &[&str] = &["①nope", "①.nope", "(①1/0)", "(①2147483647+1)", "(①-2147483647-2)", "(①65536*65536)", "(①-(-2147483647-1))", "(①6/(3-3))", "①zz%"];
    const OPERANDS: &[(&str, &str)] = &[("add #", ""), ("add ", ""), ("mov #", ", $10"), ("mov #1, ", ""), ("bp $10, ", ", 0"), ("be #1, ", ""), ("jmpf ", "")];
    let (nh, no) = (HOLES.len(), t.q(2, OPERANDS.len()));
    let deep = t.q(2, 6);
    spaces.push(Space::new(
        "expressions",
        &format!("an operand of {} instructions which cannot be evaluated because of an undefined name, a division by zero or an overflow in each operator, anywhere in two nested expressions out of 20 each, in the program or in a macro body reached through up to {} calls, with the definitions in the program or in an included file", no, deep),
        (nh * nh * FAULTS.len() * no * (deep + 1) * 2) as u64,
        move |n, ctx| {
            let mut m = Mix(n);
            let (fault, outer, inner) = (FAULTS[m.take(FAULTS.len())], HOLES[m.take(nh)], HOLES[m.take(nh)]);
            let (before, after) = OPERANDS[m.take(no)];
            let depth = m.take(deep + 1);
            let inc = m.take(2) == 1;
            if depth == 0 && (inc || fault == "①zz%") || outer == "~" && inner != "~" {
                return pass(false);
            }
            let inner = inner.replace('~', fault);
            let e = if outer == "~" { inner } else { outer.replace('~', &format!("({})", inner)) };
            nested(ctx, &format!("{}{}{}", before, e, after), depth, "", inc)
        },
    ));
    // values out of range
    const RANGE: &[&str] = &[
        "~+1", "~-1", "~*4", "~/2", "~&4095", "~|1", "~^1", "-~", "<~", ">~", "1+~", "1000-~", "4*~", "100000/~", "4095&~", "1|~", "1^~", "~", "~+~-~", "-~*3", "<~+>~",
    ];
    const VALUES: &[&str] = &["2600", "$a28", "big", "label", "%a", "(1+%a)", "(%a)", "-(-2600)"];
    spaces.push(Space::new(
        "range",
        "each operator on a number, a variable, a label, or a macro argument with a result out of range for the operand, in the program or in a macro body reached through up to 5 calls; the argument is a number, a name or an expression",
        (RANGE.len() * VALUES.len() * 2 * 6 * 3 * 2) as u64,
        |n, ctx| {
            let mut m = Mix(n);
            let (e, v) = (RANGE[m.take(RANGE.len())], VALUES[m.take(VALUES.len())]);
            let (before, after) = [("bp $10, ", ", 0"), ("set1 5, ", "")][m.take(2)];
            let depth = m.take(6);
            let arg = ["2600", "big", "2000 + 3 * 200"][m.take(3)];
            let inc = m.take(2) == 1;
            let with_arg = v.contains("%a");
            if depth == 0 && (inc || with_arg) || !with_arg && arg != "2600" {
                return pass(false);
            }
            if e.starts_with('~') && (v.starts_with('(') || v == "%a" && e == "~") {
                // an expression in parentheses may be listed without the first one; an
                // argument which alone is at fault may be listed where it was given
                return pass(false);
            }
            let e = e.replace('~', v);
            nested(ctx, &format!("{}①{}{}", before, e, after), depth, if with_arg { arg } else { "" }, inc)
        },
    ));
    // unexpected characters everywhere in a line
    const LINE: &[&str] = &["lbl:", " ", "add", " ", "#", "(", "1", "+", "$2", ")"];
    const BAD: &[&str] = &["`", "\\", "!", "?", "[", "]", "{", "}", "~", "\u{e9}", "\u{6f22}", "\u{1f468}\u{200d}\u{1f469}", "\u{0}", "\u{7f}", "\u{feff}", "\u{200b}", "@", "@R9", "'", "\"", "|\u{e9}"];
    spaces.push(Space::new(
        "characters-out-of-place",
        "each of 21 characters that begin no token, at every place in a line, after each prelude",
        (LINE.len() * BAD.len() * PRELUDES.len()) as u64,
        move |n, ctx| {
            let mut m = Mix(n);
            let k = m.take(LINE.len());
            let bad = BAD[m.take(BAD.len())];
            let prelude = PRELUDES[m.0 as usize];
            let mut text = prelude.to_owned();
            for (j, p) in LINE.iter().enumerate() {
                text.push_str(p);
                if j == k {
                    if bad.starts_with('|') {
                        text.push_str("|①\u{e9}");
                    } else {
                        text.push('①');
                        text.push_str(bad);
                    }
                }
            }
            text.push('\n');
            support(ctx, false);
            // a digit separator needs a digit on both sides, a quote a quote
            diagnose(ctx, &[("t.s".into(), text)], &all_marks(1))
        },
    ));
    Check {
        level: "exploration",
        spaces,
        assumptions: vec![
            "User-perceived characters are counted by the module's own rules for the characters it uses.".into(),
            "The end of the marked range and the wording of messages are not judged.".into(),
        ],
    }
}

/// A statement at fault in a macro which is reached through `depth` calls.
fn nested(ctx: &mut Ctx, stmt: &str, depth: usize, arg: &str, inc: bool) -> Verdict {
    let (param, pass_on) = if arg.is_empty() { ("", "") } else { (" %a", " %a") };
    let mut defs = "big = 2600\n".to_owned();
    let mut text = String::new();
    if depth == 0 {
        text.push_str(&format!(" {}\n", stmt));
    } else {
        for d in 0..depth {
            defs.push_str(&format!("%macro mac{}{}\n", d, param));
            if d + 1 == depth {
                defs.push_str(&format!("k%: nop\n {}\n", stmt));
            } else {
                defs.push_str(&format!(" {}mac{}{}\n", mark(depth - 1 - d), d + 1, pass_on));
            }
            defs.push_str("%end\n");
        }
        let arg = if arg.is_empty() { String::new() } else { format!(" {}", arg) };
        text.push_str(&format!(" {}mac0{}\n", mark(depth), arg));
    }
    let tail = ".org 2600\nlabel: nop\n";
    let want = vec![(0..=depth).collect()];
    if inc {
        let files = [("t.s".to_owned(), format!(".include \"sub/defs.s\"\n.include \"calls.s\"\n{}", tail)), ("sub/defs.s".to_owned(), defs), ("calls.s".to_owned(), text)];
        diagnose(ctx, &files, &want)
    } else {
        diagnose(ctx, &[("t.s".to_owned(), format!("{}{}{}", defs, text, tail))], &want)
    }
}

fn mark(k: usize) -> char {
    MARKS[k]
}

/// Macros above the one in whose body the argument is written take no argument.
fn fix_params(text: &str, origin: usize) -> String {
    let mut t = text.to_owned();
    for d in 0..origin {
        t = t.replace(&format!("%macro mac{} %a", d), &format!("%macro mac{}", d));
    }
    t
}
