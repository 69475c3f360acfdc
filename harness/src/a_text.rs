//! A08 (C headers), A09 (lexical layout), A10 (strings).
use crate::a_lang::{equ, seq0_get, seq0_total, var, word1};
use crate::a_layout::{seq_get, seq_total};
use crate::engine::*;
use crate::model::*;
use crate::{Check, Tier};

fn verdict(want: &Result<Vec<u8>, String>, got: &Asm, text: &str) -> Verdict {
    match compare(want, got) {
        Ok(()) => pass(want.is_ok()),
        Err(m) => Verdict::Fail(format!("{} for {:?}", m, trunc(text, 3000))),
    }
}

// ---------------------------------------------------------------- A08

/// Assembles `main` next to the header `h.h`.
fn with_header(ctx: &mut Ctx, header: &str, main: &str, want: Result<Vec<u8>, String>) -> Verdict {
    ctx.put("h.h", header.as_bytes());
    let got = ctx.assemble(main);
    if want.is_ok() {
        ctx.validated += 1;
    }
    ctx.transitions += header.lines().count() as u64;
    verdict(&want, &got, &format!("{}\n--- header:\n{}", main, header))
}

#[derive(Clone)]
struct Item {
    text: &'static str,
    defs: Vec<L>,
}

fn items() -> Vec<Item> {
    let i = |text: &'static str, defs: Vec<L>| Item { text, defs };
    let bad = || vec![L::Bad("bad header line".into())];
    vec![
        i("#define A 1\n", vec![equ("a", n(1))]),
        i("#define B (A + 0x10) * 2 // two\n", vec![equ("b", bin('*', par(bin('+', id("a"), n(16))), n(2)))]),
        i("  #\tdefine c 7/* seven */\r\n", vec![equ("c", n(7))]),
        i("\n", vec![]),
        i("// #define A 5\n", vec![]),
        i("/* #define C 9 */\n", vec![]),
        i("/* one\n#define A 77\n two */\n", vec![]),
        i("#define D -1 & 255 /* long\n comment; */\n", vec![equ("d", bin('&', n(-1), n(255)))]),
        i("\r\n \t\r\n", vec![]),
        i(" .byte 7 // data\n", vec![L::Byte(vec![Bv::E(n(7))])]),
        i("lab: nop\n", vec![label("lab"), ins("nop", vec![])]),
        i("e equ c + 1\n", vec![equ("e", bin('+', id("c"), n(1)))]),
        i("/**/#/**/define/**/F/**/b/**/+/**/1/**/\n", vec![equ("f", bin('+', id("b"), n(1)))]),
        i("/***/ /*/ */ // /*\n", vec![]),
        i("#define\n", bad()),
        i("#define A\n", bad()),
        i("#define 5 5\n", bad()),
        i("#define G 1 2\n", bad()),
        i("#include <x>\n", bad()),
        i("; comment\n", bad()),
        i("foo 5\n", bad()),
        i("#undef A\n", bad()),
    ]
}

pub fn a08(t: Tier) -> Check {
    let mut spaces = vec![];
    let its = items();
    let k = its.len() as u64;
    let d = t.q(4u32, 5);
    let tails = ["", "/* never closed\n#define A 4", "// no line end", "/*", "#define Z 3", "/* * / #define"];
    let it2 = its.clone();
    spaces.push(Space::new(
        "headers",
        "every header of 0..4 (thorough 5) items over 22 kinds (definitions with comments of both kinds in every gap, commented-out definitions, comments spanning lines, blank lines, LF/CRLF, assembler lines, malformed lines) with 6 endings (unterminated comments, no final line end); all constants used before and after the include",
        seq0_total(k, d),
        move |i, ctx| {
            let s = seq0_get(k, i);
            let tail = tails[(i % 7) as usize % 6];
            let mut header = String::new();
            let mut inner = vec![];
            for x in &s {
                header.push_str(it2[*x].text);
                inner.extend(it2[*x].defs.iter().cloned());
            }
            header.push_str(tail);
            if tail.starts_with("#define") {
                inner.push(equ("z", n(3)));
            }
            let mut names: Vec<String> = inner
                .iter()
                .filter_map(|l| match l {
                    L::Alias(s, _) => Some(s.clone()),
                    _ => None,
                })
                .collect();
            names.sort();
            names.dedup();
            let mut p = vec![L::Byte(vec![Bv::E(n(0xaa))])];
            if !names.is_empty() {
                p.push(L::Word(names.iter().map(|s| id(s)).collect()));
            }
            let before = print(&p);
            let mut after = vec![];
            if !names.is_empty() {
                after.push(L::Word(names.iter().rev().map(|s| id(&s.to_uppercase())).collect()));
            }
            after.push(L::Byte(vec![Bv::E(n(0xbb))]));
            let main = format!("{} .include cpp \"h.h\"\n{}", before, print(&after));
            p.extend(inner);
            p.extend(after);
            ctx.states += 1;
            with_header(ctx, &header, &main, assemble(&p))
        },
    ));
    // gaps
    let gaps: &'static [&'static str] = &["", " ", "\t", "/**/", " /* c */ ", "/*//*/", "/*;*/\t", "/*é\u{301}€*/", "/*\"'\\#*/", "/* * / **/"];
    let ends: &'static [&'static str] = &["\n", "\r\n", "// c\n", "//\r\n", "/*x*/\n", "/* x\n y */\n", " // /*\n", "\n\n\n", "///* \u{1F600}\n"];
    let ng = gaps.len();
    let nn = ends.len();
    spaces.push(Space::new(
        "gaps",
        "#define with every combination of 10 fillers (nothing, blanks, comments with quotes, slashes, stars, multi-byte text) in its six gaps (quick: fillers of the last two gaps tied to each other) and 9 line ends, followed by a second definition using it",
        (ng.pow(t.q(4, 6)) * nn) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let mut g: Vec<&str> = (0..t.q(4, 6)).map(|_| gaps[m.take(ng)]).collect();
            let end = ends[m.take(nn)];
            while g.len() < 6 {
                let x = g[(g.len() + 1) % 4];
                g.push(x);
            }
            let need = |s: &str| if s.is_empty() { " ".to_owned() } else { s.to_owned() };
            let header = format!(
                "{}#{}define{}AA{}5{}*{}3{}#define BB AA+1",
                g[0],
                g[1],
                need(g[2]),
                need(g[3]),
                g[4],
                g[5],
                end
            );
            // `5` and the operator need no blank
            let p = vec![
                equ("aa", bin('*', n(5), n(3))),
                equ("bb", bin('+', id("aa"), n(1))),
                L::Word(vec![id("aa"), id("bb")]),
            ];
            with_header(ctx, &header, " .include cpp \"h.h\"\n .word aa, bb\n", assemble(&p))
        },
    ));
    // comment texts
    let units: &'static [&'static str] = &["*", "/", "\n", "\"", "'", "\\", "é", "\u{301}", "\r\n", "#define A 9", ";", " ", "//", "/*", "\u{1F468}\u{200D}\u{1F469}"];
    let nu = units.len() as u64;
    let d = t.q(3u32, 4);
    spaces.push(Space::new(
        "comment-text",
        "every text of 0..3 (thorough 4) units over 15 (stars, slashes, quotes, backslash, line breaks, multi-byte and combining characters, definitions) inside a block comment (on lines of its own, in front of a definition, behind one) or a line comment, and inside an unterminated one after the definitions",
        seq0_total(nu, d) * 6,
        move |i, ctx| {
            let kind = i % 6;
            let text: String = seq0_get(nu, i / 6).into_iter().map(|k| units[k]).collect();
            let header = match kind {
                0 | 3 | 4 | 5 => {
                    if text.contains("*/") || (text.ends_with('*') && false) {
                        return pass(false);
                    }
                    if kind == 4 {
                        format!("#define A 1\n/*{}*/#define B 2\n", text)
                    } else if kind == 5 {
                        format!("/*{}*/\t/**/#define A 1/*{}*/\n#define B 2", text, text)
                    } else if kind == 0 {
                        format!("#define A 1\n/*{}*/\n#define B 2\n", text)
                    } else {
                        // directly after a definition and unterminated
                        format!("#define A 1\n#define B 2/*{}", text)
                    }
                }
                1 => {
                    if text.contains('\n') {
                        return pass(false);
                    }
                    format!("#define A 1//{}\n#define B 2\n", text)
                }
                _ => {
                    if text.contains('\n') {
                        return pass(false);
                    }
                    format!("#define A 1\n#define B 2 //{}", text)
                }
            };
            let p = vec![L::Byte(vec![Bv::E(n(1)), Bv::E(n(2))])];
            with_header(ctx, &header, " .include cpp \"h.h\"\n .byte a, b\n", assemble(&p))
        },
    ));
    // expressions through a header equal aliases
    let vals = [0i64, 1, 7, 300, 65535, 0x7fffffff, -5];
    let ops = ['*', '/', '+', '-', '&', '|', '^'];
    spaces.push(Space::new(
        "expressions",
        "a op b op c for every pair of operators and 7 values each, numbers in C spelling (decimal, 0x), names of other constants defined before or after",
        7 * 7 * 7 * 7 * 7 * 3,
        move |i, ctx| {
            let mut m = Mix(i);
            let v: Vec<i64> = (0..3).map(|_| vals[m.take(7)]).collect();
            let o = [ops[m.take(7)], ops[m.take(7)]];
            let sp = m.take(3);
            let sh = |v: i64, k: usize| -> E {
                if sp == 1 && v >= 0 {
                    E::S(v, format!("0x{:X}", v))
                } else if sp == 2 && k == 1 {
                    id("other")
                } else {
                    n(v)
                }
            };
            let e = bin(o[1], bin(o[0], sh(v[0], 0), sh(v[1], 1)), sh(v[2], 2));
            let obs = L::Word(vec![bin('&', id("r"), n(65535)), bin('&', bin('/', id("r"), n(65536)), n(65535))]);
            let p = vec![equ("other", n(v[1])), equ("r", e.clone()), obs.clone()];
            let header = format!("#define OTHER {}\n#define R {}\n", n(v[1]).show(), e.show());
            let main = format!(" .include cpp \"h.h\"\n{}\n", show(&obs));
            with_header(ctx, &header, &main, assemble(&p))
        },
    ));
    spaces.push(crate::a_many::headers(t));
    Check {
        level: "model_checking",
        spaces,
        assumptions: vec!["comments that span lines stand between definitions or at the end of a definition".into()],
    }
}

// ---------------------------------------------------------------- A09

/// The base program: `|` separates tokens, one entry per line.
const BASE: &[&str] = &[
    "start|:",
    "loop|:|mov|#|$1'2|,|$1ab",
    "ld|@R1",
    ".here",
    "bn|$101|,|6|,|.here",
    "val|equ|5|*|3|+|$1'0",
    "Val2|=|val|-|1|*|-|2",
    ".byte|1|,|\"a;b*c\"|,|>|val|,|<|val2|&|$f",
    ".word|start|,|( |val|+|1|)|*|val2",
    "%macro|mac|%arg|,|%other",
    "add|#|%arg",
    "l%|:",
    "bnz|l%",
    "ld|%other",
    "%end",
    "mac|5|,|@r2",
    ".text|5|\"x%\"",
    ".cnop|1|,|4",
    "be|@R0|,|#|%1'01|,|loop",
    ".org|$40",
    "jmpf|start|+|2",
    ".string|3|\"z\"",
];

fn base_model() -> Vec<L> {
    let e = O::Ex;
    vec![
        label("start"),
        L::LabelI("loop".into(), Box::new(ins("mov", vec![O::Imm(n(0x12)), e(n(0x1ab))]))),
        ins("ld", vec![O::Ind(1)]),
        L::Dot(".here".into()),
        ins("bn", vec![e(n(0x101)), e(n(6)), e(id(".here"))]),
        equ("val", bin('+', bin('*', n(5), n(3)), n(0x10))),
        var("val2", bin('-', id("val"), bin('*', n(1), n(-2)))),
        L::Byte(vec![
            Bv::E(n(1)),
            bstr("a;b*c"),
            Bv::E(un('>', id("val"))),
            Bv::E(bin('&', un('<', id("val2")), n(15))),
        ]),
        L::Word(vec![id("start"), bin('*', par(bin('+', id("val"), n(1))), id("val2"))]),
        L::Macro(
            "mac".into(),
            vec!["arg".into(), "other".into()],
            vec![
                ins("add", vec![O::Imm(E::Arg("arg".into()))]),
                label("l%"),
                ins("bnz", vec![e(E::Hyg("l".into()))]),
                ins("ld", vec![e(E::Arg("other".into()))]),
            ],
        ),
        ins("mac", vec![e(n(5)), O::Ind(2)]),
        L::Text(5, b"x%".to_vec(), "x%".into()),
        L::Cnop(n(1), n(4)),
        ins("be", vec![O::Ind(0), O::Imm(n(5)), e(id("loop"))]),
        L::Org(0x40),
        ins("jmpf", vec![e(bin('+', id("start"), n(2)))]),
        L::Str(3, b"z".to_vec(), "z".into()),
    ]
}

fn toks(line: &str) -> Vec<String> {
    line.split('|').map(|s| s.trim().to_owned()).collect()
}

/// A blank is needed where two tokens would run together.
fn needed(a: &str, b: &str) -> bool {
    let w = |c: char| c.is_ascii_alphanumeric() || "_.$%'@".contains(c);
    a.chars().last().map_or(false, w) && b.chars().next().map_or(false, w)
}

/// Joins tokens, with `gap(k)` in front of token k (and after the last).
fn join(t: &[String], gap: &dyn Fn(usize) -> String) -> String {
    let mut s = gap(0);
    for (k, x) in t.iter().enumerate() {
        if k > 0 {
            let g = gap(k);
            if g.is_empty() && needed(&t[k - 1], x) {
                s.push(' ');
            } else {
                s.push_str(&g);
            }
        }
        s.push_str(x);
    }
    s.push_str(&gap(t.len()));
    s
}

fn plain(t: &[String]) -> String {
    join(t, &|k| if k == 0 { String::new() } else if k == t.len() { String::new() } else { " ".into() })
}

fn a09_check(ctx: &mut Ctx, text: &str, want: &[u8]) -> Verdict {
    match ctx.assemble(text) {
        Asm::Ok(b) if b == want => pass(true),
        g => Verdict::Fail(format!("expected {} [{}], got {} for {:?}", want.len(), hex(want), g.show(), text)),
    }
}

fn case_of(s: &str, k: usize) -> String {
    if s.starts_with('"') {
        return s.to_owned();
    }
    match k {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        _ => s
            .chars()
            .enumerate()
            .map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
    }
}

pub fn a09(t: Tier) -> Check {
    let mut spaces = vec![];
    let base: Vec<Vec<String>> = BASE.iter().map(|l| toks(l)).collect();
    let nl = base.len();
    let want = assemble(&base_model()).expect("base program");
    let lines: Vec<String> = base.iter().map(|l| plain(l)).collect();

    let fill: &'static [&'static str] = &["", " ", "\t", "  ", "\t \t ", "          \t"];
    let nf = fill.len();
    // every gap of every line: all pairs of gaps
    {
        let mut slots: Vec<(usize, usize)> = vec![];
        for (i, l) in base.iter().enumerate() {
            for k in 0..=l.len() {
                slots.push((i, k));
            }
        }
        let ns = slots.len();
        let mut pairs: Vec<(usize, usize)> = vec![];
        for a in 0..ns {
            for b in a..ns {
                if t == Tier::Thorough || slots[a].0 == slots[b].0 {
                    pairs.push((a, b));
                }
            }
        }
        let (base, want, lines) = (base.clone(), want.clone(), lines.clone());
        let np = pairs.len();
        spaces.push(Space::new(
            "gaps",
            "a 22-line program using every construct: every pair of gaps of a line (thorough: of the program), each with 6 fillers (none where legal, blanks, tabs), the other gaps single blanks or none",
            (np * nf * nf * 2) as u64,
            move |i, ctx| {
                let mut m = Mix(i);
                let (a, b) = pairs[m.take(np)];
                let (fa, fb) = (m.take(nf), m.take(nf));
                let tight = m.take(2) == 1;
                let (sa, sb) = (slots[a], slots[b]);
                let mut text = String::new();
                for (j, l) in base.iter().enumerate() {
                    if j == sa.0 || j == sb.0 {
                        text.push_str(&join(l, &|k| {
                            if (j, k) == sb {
                                fill[fb].to_owned()
                            } else if (j, k) == sa {
                                fill[fa].to_owned()
                            } else if tight || k == 0 || k == l.len() {
                                String::new()
                            } else {
                                " ".to_owned()
                            }
                        }));
                    } else {
                        text.push_str(&lines[j]);
                    }
                    text.push('\n');
                }
                a09_check(ctx, &text, &want)
            },
        ));
    }
    // other white space
    {
        let (base, want, lines) = (base.clone(), want.clone(), lines.clone());
        let other: &'static [&'static str] = &[
            "\u{0b}", "\u{0c}", "\u{85}", "\u{a0}", "\u{1680}", "\u{2000}", "\u{2001}", "\u{2002}", "\u{2003}", "\u{2004}", "\u{2005}", "\u{2006}", "\u{2007}", "\u{2008}",
            "\u{2009}", "\u{200a}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}",
        ];
        let slots: Vec<(usize, usize)> = base.iter().enumerate().flat_map(|(j, l)| (0..=l.len()).map(move |k| (j, k))).collect();
        let ns = slots.len();
        spaces.push(Space::new(
            "white-space",
            "each of the 21 other characters which Unicode calls white space (form feed, no-break and wide blanks, separators), alone, before and after a blank, in every gap of every line of the program",
            (other.len() * 3 * ns) as u64,
            move |i, ctx| {
                let mut m = Mix(i);
                let c = other[m.take(other.len())];
                let g = [c.to_owned(), format!(" {}", c), format!("{}\t", c)][m.take(3)].clone();
                let at = slots[m.take(ns)];
                let mut text = String::new();
                for (j, l) in base.iter().enumerate() {
                    if j == at.0 {
                        text.push_str(&join(l, &|k| if k == at.1 { g.clone() } else if k == 0 || k == l.len() { String::new() } else { " ".into() }));
                    } else {
                        text.push_str(&lines[j]);
                    }
                    text.push('\n');
                }
                a09_check(ctx, &text, &want)
            },
        ));
    }
    {
        let (base, want) = (base.clone(), want.clone());
        spaces.push(Space::new(
            "uniform",
            "all gaps of the program filled alike (36 combinations of inner, leading and trailing fillers) x 9 letter cases (lower, upper, mixed for odd and even tokens) x line ends LF, CRLF, alternating x final line end or none",
            (nf * nf * nf * 9 * 3 * 2) as u64,
            move |i, ctx| {
                let mut m = Mix(i);
                let (a, b, c) = (m.take(nf), m.take(nf), m.take(nf));
                let (c1, c2) = (m.take(3), m.take(3));
                let le = m.take(3);
                let fin = m.take(2);
                let mut text = String::new();
                for (j, l) in base.iter().enumerate() {
                    let l: Vec<String> = l.iter().enumerate().map(|(k, s)| case_of(s, if k % 2 == 0 { c1 } else { c2 })).collect();
                    text.push_str(&join(&l, &|k| {
                        (if k == 0 {
                            fill[b]
                        } else if k == l.len() {
                            fill[c]
                        } else {
                            fill[a]
                        })
                        .to_owned()
                    }));
                    if j + 1 < base.len() || fin == 1 {
                        text.push_str(if le == 0 || (le == 2 && j % 2 == 0) { "\n" } else { "\r\n" });
                    }
                }
                a09_check(ctx, &text, &want)
            },
        ));
    }
    {
        let (base, want, lines) = (base.clone(), want.clone(), lines.clone());
        let counts: Vec<u64> = base.iter().map(|l| 3u64.pow(l.iter().filter(|s| s.chars().any(|c| c.is_ascii_alphabetic())).count() as u32)).collect();
        let total: u64 = counts.iter().sum();
        spaces.push(Space::new(
            "case",
            "for every line of the program, every combination of lower, upper and mixed letter case of its words, registers and numbers",
            total,
            move |i, ctx| {
                let mut i = i;
                let mut j = 0;
                while i >= counts[j] {
                    i -= counts[j];
                    j += 1;
                }
                let mut m = Mix(i);
                let l: Vec<String> = base[j]
                    .iter()
                    .map(|s| if s.chars().any(|c| c.is_ascii_alphabetic()) { case_of(s, m.take(3)) } else { s.clone() })
                    .collect();
                let mut text = String::new();
                for (k, x) in lines.iter().enumerate() {
                    text.push_str(&if k == j { plain(&l) } else { x.clone() });
                    text.push('\n');
                }
                a09_check(ctx, &text, &want)
            },
        ));
    }
    // comments
    let units: &'static [&'static str] = &["\"", "'", ";", "*", "%end", "é", "\u{301}", "\\", "\r", "#", "\t", "/*", ":", " .byte 1", "\u{2028}"];
    let nu = units.len() as u64;
    {
        let (want, lines) = (want.clone(), lines.clone());
        let d = t.q(2u32, 3);
        let per = seq0_total(nu, d);
        spaces.push(Space::new(
            "comments",
            "every comment text of 0..2 (thorough 3) units over 15 (quotes, semicolon, star, backslash, carriage return, multi-byte, combining, line separator, code) as ; comment after each line, as ; line and as * line in front of each line and at the end, LF and CRLF",
            per * 4 * (nl as u64 + 1) * 2,
            move |i, ctx| {
                let mut m = Mix(i);
                let kind = m.take(4);
                let at = m.take(nl + 1);
                let crlf = m.take(2) == 1;
                let c: String = seq0_get(nu, m.0).into_iter().map(|k| units[k]).collect();
                if c.ends_with('\r') {
                    return pass(false);
                }
                let le = if crlf { "\r\n" } else { "\n" };
                let mut text = String::new();
                let put = |text: &mut String| match kind {
                    1 => {
                        text.push_str(&format!(";{}{}", c, le));
                    }
                    2 => {
                        text.push_str(&format!("*{}{}", c, le));
                    }
                    3 => {
                        text.push_str(&format!("{}  ;{}{}*{}{}", le, c, le, c, le));
                    }
                    _ => {}
                };
                for (k, x) in lines.iter().enumerate() {
                    if k == at {
                        put(&mut text);
                    }
                    text.push_str(x);
                    if kind == 0 && k == at {
                        text.push_str(&format!(";{}", c));
                    }
                    text.push_str(le);
                }
                if at == nl {
                    match kind {
                        1 => text.push_str(&format!(";{}", c)),
                        2 => text.push_str(&format!("*{}", c)),
                        3 => text.push_str(&format!("  ;{}", c)),
                        _ => text.push_str(&format!("{}{};{}", le, le, c)),
                    }
                }
                a09_check(ctx, &text, &want)
            },
        ));
    }
    {
        let (want, lines) = (want.clone(), lines.clone());
        let blank: &'static [&'static str] = &["", "  ", "\t", ";", "*", "; nop", "* nop", "\t;x", "\n\n", "*;\n;*"];
        spaces.push(Space::new(
            "line-ends",
            "every assignment of LF/CRLF to the first 11 lines and to the last 11, and every choice of 10 kinds of blank or comment lines at every pair of the 23 line boundaries",
            2 * 2048 + 100 * 23 * 23,
            move |i, ctx| {
                let mut text = String::new();
                if i < 4096 {
                    let mask = i % 2048;
                    let off = (i / 2048) as usize * 11;
                    for (k, x) in lines.iter().enumerate() {
                        text.push_str(x);
                        let crlf = k >= off && k < off + 11 && mask >> (k - off) & 1 == 1;
                        text.push_str(if crlf { "\r\n" } else { "\n" });
                    }
                } else {
                    let mut m = Mix(i - 4096);
                    let (x, y) = (blank[m.take(10)], blank[m.take(10)]);
                    let (a, b) = (m.take(23), m.take(23));
                    for k in 0..=lines.len() {
                        if k == a {
                            text.push_str(x);
                            text.push('\n');
                        }
                        if k == b {
                            text.push_str(y);
                            text.push('\n');
                        }
                        if k < lines.len() {
                            text.push_str(&lines[k]);
                            text.push('\n');
                        }
                    }
                }
                a09_check(ctx, &text, &want)
            },
        ));
    }
    // numbers
    fn spellings(v: u64) -> Vec<String> {
        let mut s = vec![
            format!("{}", v),
            format!("00{}", v),
            format!("${:x}", v),
            format!("${:X}", v),
            format!("$0{:x}", v),
            format!("0x{:x}", v),
            format!("0X{:X}", v),
            format!("0x00{:X}", v),
            format!("0X{:x}", v),
            format!("%{:b}", v),
            format!("%00{:b}", v),
            format!("0b{:b}", v),
            format!("0B{:b}", v),
            format!("0o{:o}", v),
            format!("0O{:o}", v),
            format!("0o0{:o}", v),
        ];
        let seps: Vec<String> = s
            .iter()
            .map(|x| {
                let p = if x.starts_with('$') || x.starts_with('%') {
                    1
                } else if x.len() > 1 && x.as_bytes()[1].is_ascii_alphabetic() && x.starts_with('0') {
                    2
                } else {
                    0
                };
                let mut o = x[..p].to_owned();
                for (k, c) in x[p..].chars().enumerate() {
                    if k > 0 {
                        o.push('\'');
                    }
                    o.push(c);
                }
                o
            })
            .collect();
        s.extend(seps);
        s
    }
    spaces.push(Space::new(
        "radix-16bit",
        "every value 0..65535 in 32 spellings (decimal, $ 0x 0X hexadecimal in both cases, % 0b 0B binary, 0o 0O octal, leading zeros, ' between all digits)",
        65536 / 64,
        move |i, ctx| {
            let mut text = String::new();
            let mut want = vec![];
            for v in i * 64..i * 64 + 64 {
                let s = spellings(v);
                text.push_str(&format!(" .word {}\n", s.join(", ")));
                for _ in 0..s.len() {
                    want.push(v as u8);
                    want.push((v >> 8) as u8);
                }
            }
            a09_check(ctx, &text, &want)
        },
    ));
    spaces.push(Space::new(
        "radix-32bit",
        "every power of two up to 2^30 and its neighbours, 2^31-1 and byte patterns, in the same spellings, all 32 bits observed, negated, and in operands and .org",
        31 * 3 + 5,
        move |i, ctx| {
            let v: u64 = if i < 93 {
                (1u64 << (i / 3)) + (i % 3) - 1
            } else {
                [0x7fffffff, 0x12345678, 0x55555555, 0x2aaaaaaa, 0x00ff00ff][i as usize - 93]
            };
            let mut text = String::new();
            let mut want = vec![];
            for s in spellings(v) {
                text.push_str(&format!(" .word ({} / 65536) & 65535, {} & 65535, ((-{}) / 65536) & 65535\n", s, s, s));
                let neg = ((-(v as i64)) / 65536) & 65535;
                for w in [v as i64 / 65536, v as i64 & 65535, neg] {
                    want.push(w as u8);
                    want.push((w >> 8) as u8);
                }
            }
            a09_check(ctx, &text, &want)
        },
    ));
    spaces.push(Space::new(
        "separators",
        "' between digits in every subset of places of 7-digit numbers of every radix (accepted, ignored), and at the start, at the end or doubled (rejected)",
        6 * 128 * 3,
        move |i, ctx| {
            let mut m = Mix(i);
            let (prefix, digits, radix) = [
                ("", "1234567", 10),
                ("$", "12aBcD3", 16),
                ("0x", "7fFf012", 16),
                ("%", "1011001", 2),
                ("0b", "1101110", 2),
                ("0o", "7654321", 8),
            ][m.take(6)];
            let mask = m.take(128);
            let kind = m.take(3);
            let mut s = prefix.to_owned();
            for (k, c) in digits.chars().enumerate() {
                if k > 0 && mask >> (k - 1) & 1 == 1 {
                    s.push('\'');
                    if kind == 1 && mask & 63 != 0 && (mask & 63).trailing_zeros() as usize == k - 1 {
                        s.push('\'');
                    }
                }
                s.push(c);
            }
            // mask bit 6: a separator at the end (kind 2: right after the prefix)
            let mut ok = kind != 1 || mask & 63 == 0;
            if mask & 64 != 0 {
                if kind == 2 {
                    s.insert(prefix.len(), '\'');
                } else {
                    s.push('\'');
                }
                ok = false;
            }
            let v = i64::from_str_radix(digits, radix).unwrap();
            let text = format!(" .word {} & 65535, {} / 65536\n", s, s);
            let want = if ok {
                Ok(vec![v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8])
            } else {
                Err("misplaced separator".to_owned())
            };
            let got = ctx.assemble(&text);
            verdict(&want, &got, &text)
        },
    ));
    let bad: &'static [&'static str] = &[
        "$", "0x", "0b", "0o", "$g", "0xg", "%2", "0b2", "0o8", "12a", "0y1", "%", "1 2", "$1 $2", "1_0", "1.5", "0x1.0", "1e5", "'1", "$$1", "%%1",
        "0b12", "0o78", "12h", "&hff", "#5", "!1", "1!", "~1", "1 % 1", "@5", "[1]", "{1}", "1;2:", "'a'", "\u{0661}", "１", "1\u{301}", "0x1'", "\\1", "?", "`1",
    ];
    spaces.push(Space::new(
        "malformed-numbers",
        "42 malformed numbers and stray characters in data, operands and definitions: always rejected (a ; starts a comment)",
        bad.len() as u64 * 3,
        move |i, ctx| {
            let b = bad[i as usize / 3];
            let text = match i % 3 {
                0 => format!(" .byte 1, {}\n nop\n", b),
                1 => format!(" ld {}\n nop\n", b),
                _ => format!("k equ {}\n nop\n", b),
            };
            let ok = b == "1;2:";
            match ctx.assemble(&text) {
                Asm::Err(_) if !ok => pass(true),
                Asm::Ok(_) if ok => pass(true),
                g => Verdict::Fail(format!("got {} for {:?}", g.show(), text)),
            }
        },
    ));
    // stars
    let lead: &'static [&'static str] = &["", " ", "\t", "x: ", "y:", " nop\n", " nop ;\n", ";\n", "* c\n", "\r\n"];
    let rest: &'static [&'static str] = &["*", "* nop", "*nop\n nop", "** x", "*\"", "* 5", "*;", "*é"];
    spaces.push(Space::new(
        "stars",
        "a * after each of 10 beginnings: in the first column a comment (whatever follows), anywhere else multiplication (here: malformed)",
        80,
        move |i, ctx| {
            let a = lead[i as usize % 10];
            let b = rest[i as usize / 10];
            let text = format!("{}{}\n .byte 2*3, 4 *5\n", a, b);
            let first = a.is_empty() || a.ends_with('\n');
            let want = if first {
                let mut w = vec![];
                for l in text.lines() {
                    if l.trim_end() == " nop" || l.starts_with(" nop") {
                        w.push(0);
                    }
                }
                w.extend([6, 20]);
                Ok(w)
            } else {
                Err("stray *".to_owned())
            };
            let got = ctx.assemble(&text);
            verdict(&want, &got, &text)
        },
    ));
    spaces.push(crate::a_many::runs(t, lines.clone(), want.clone()));
    Check {
        level: "exploration",
        spaces,
        assumptions: vec!["blanks are spaces and tabs; two words or numbers next to each other keep at least one blank".into()],
    }
}

// ---------------------------------------------------------------- A10

/// (spelling, bytes)
fn string_units() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for s in ["a", " ", ";", "*", "%", "'", "#", "é", "€", "\u{1D11E}", "\u{301}", "\n", "\r\n", "\t", ",", "//"] {
        v.push((s.to_owned(), s.as_bytes().to_vec()));
    }
    for (s, b) in [("\\n", 10u8), ("\\r", 13), ("\\t", 9), ("\\b", 8), ("\\0", 0), ("\\\\", b'\\'), ("\\\"", b'"'), ("\\a", b'a'), ("\\;", b';'), ("\\\n", 10), ("\\N", b'N')] {
        v.push((s.to_owned(), vec![b]));
    }
    v.push(("\\é".to_owned(), "é".as_bytes().to_vec()));
    v.push(("\\\u{1D11E}".to_owned(), "\u{1D11E}".as_bytes().to_vec()));
    v
}

pub fn a10(t: Tier) -> Check {
    let mut spaces = vec![];
    let units = string_units();
    let nu = units.len() as u64;
    let d = t.q(3u32, 4);
    let u2 = units.clone();
    spaces.push(Space::new(
        "strings",
        "every string of 0..3 (thorough 4) units over 29 (plain, ; * % ' # // comma, multi-byte, combining, line breaks LF and CRLF, all escapes, escaped ordinary and multi-byte characters) in .byte (between other values), .text and .string, followed by a value on the next line",
        seq0_total(nu, d) * 3,
        move |i, ctx| {
            let dir = i % 3;
            let mut s = String::new();
            let mut b: Vec<u8> = vec![];
            for k in seq0_get(nu, i / 3) {
                s.push_str(&u2[k].0);
                b.extend(&u2[k].1);
            }
            let mut want = vec![];
            let text = match dir {
                0 => {
                    want.push(1);
                    want.extend(&b);
                    want.extend(&b);
                    want.push(2);
                    format!(" .byte 1, \"{}\",\"{}\", 2 ; \"\n .byte 3\n", s, s)
                }
                d => {
                    let size = b.len() + (i as usize / 3) % 3;
                    want.extend(&b);
                    want.resize(size, if d == 1 { b' ' } else { 0 });
                    format!(" {} {} \"{}\" ; x\n .byte 3\n", [".text", ".string"][d as usize - 1], size, s)
                }
            };
            want.push(3);
            let got = ctx.assemble(&text);
            verdict(&Ok(want), &got, &text)
        },
    ));
    // every character
    let planes = t.q(1u64, 17);
    spaces.push(Space::new(
        "characters",
        "every Unicode scalar value of the basic plane (thorough: of all planes), raw and escaped with a backslash, 32 per program, in .byte, .text and .string",
        planes * 65536 / 32 * 2,
        move |i, ctx| {
            let esc = i % 2 == 1;
            let mut text = String::new();
            let mut want = vec![];
            for (k, c) in (i / 2 * 32..i / 2 * 32 + 32).enumerate() {
                let c = match char::from_u32(c as u32) {
                    Some(c) => c,
                    None => continue,
                };
                if !esc && (c == '"' || c == '\\') {
                    continue;
                }
                let mut b = c.to_string().into_bytes();
                if esc {
                    match c {
                        'n' => b = vec![10],
                        'r' => b = vec![13],
                        't' => b = vec![9],
                        'b' => b = vec![8],
                        '0' => b = vec![0],
                        _ => {}
                    }
                }
                let s = format!("{}{}", if esc { "\\" } else { "" }, c);
                match k % 3 {
                    0 => {
                        text.push_str(&format!(" .byte \"{}\"\n", s));
                        want.extend(&b);
                    }
                    1 => {
                        text.push_str(&format!(" .text 6 \"{}\"\n", s));
                        b.resize(6, b' ');
                        want.extend(&b);
                    }
                    _ => {
                        text.push_str(&format!(" .string 6 \"a{}z\"\n", s));
                        b.insert(0, b'a');
                        b.push(b'z');
                        b.resize(6, 0);
                        want.extend(&b);
                    }
                }
            }
            let got = ctx.assemble(&text);
            verdict(&Ok(want), &got, &text)
        },
    ));
    let m = t.q(48usize, 130);
    spaces.push(Space::new(
        "padding",
        "contents of every length 0..48 (thorough 130), of one- or two-byte characters or escapes, with every size 0..48 (130): padded, exact, or rejected when too long",
        (m * m * 2 * 3) as u64,
        move |i, ctx| {
            let mut x = Mix(i);
            let len = x.take(m);
            let size = x.take(m);
            let txt = x.take(2) == 0;
            let unit = [("k", vec![b'k']), ("ü", "ü".as_bytes().to_vec()), ("\\0", vec![0])][x.take(3)].clone();
            let mut s = String::new();
            let mut b = vec![];
            for _ in 0..len {
                s.push_str(unit.0);
                b.extend(&unit.1);
            }
            let text = format!(" .byte 1\n {} {} \"{}\"\n .byte 2\n", if txt { ".text" } else { ".string" }, size, s);
            let want = if b.len() > size {
                Err("too long".to_owned())
            } else {
                let mut w = vec![1];
                b.resize(size, if txt { b' ' } else { 0 });
                w.extend(&b);
                w.push(2);
                Ok(w)
            };
            let got = ctx.assemble(&text);
            verdict(&want, &got, &text)
        },
    ));
    // line structure around strings
    let breaks: &'static [&'static str] = &["x", "x\ny", "x\r\ny", "\n", "x\n\n\ny", "x\n* y", "x\n; y", "x\n .byte 9\n", "\n*", "\\\n", "x\ny\\\n"];
    spaces.push(Space::new(
        "multi-line",
        "three statements, each with one of 11 strings containing line breaks (also followed by * and ;), in .byte, .text, .string or .byte with values after it, labels in between: the lines after a string that spans lines are separate statements",
        11 * 11 * 11 * 4 * 2,
        move |i, ctx| {
            let mut m = Mix(i);
            let s = [breaks[m.take(11)], breaks[m.take(11)], breaks[m.take(11)]];
            let k = m.take(4);
            let lab = m.take(2) == 1;
            let mut text = String::new();
            let mut want: Vec<u8> = vec![];
            for (j, x) in s.iter().enumerate() {
                if lab {
                    text.push_str(&format!("lab{}:\n", j));
                }
                let mut b = x.replace("\\\n", "\n").into_bytes();
                match (k + j) % 4 {
                    0 => text.push_str(&format!(" .byte \"{}\"\n", x)),
                    1 => {
                        text.push_str(&format!(" .text 20 \"{}\"\n", x));
                        b.resize(20, b' ');
                    }
                    2 => {
                        text.push_str(&format!(" .string 20 \"{}\"\n", x));
                        b.resize(20, 0);
                    }
                    _ => {
                        text.push_str(&format!(" .byte 5, \"{}\", 6\n", x));
                        b.insert(0, 5);
                        b.push(6);
                    }
                }
                want.extend(b);
            }
            text.push_str(" .byte 7\n");
            want.push(7);
            let got = ctx.assemble(&text);
            verdict(&Ok(want), &got, &text)
        },
    ));
    let bad: &'static [&'static str] = &[
        " .byte \"", " .byte \"a", " .byte \"a\\\"", " .byte a\"", " .text \"a\"", " .text 5", " .text 5, \"a\"", " .string 5 a", " .text x \"a\"",
        " .text 5 \"a\" \"b\"", " .byte \"a\" \"b\"", " .byte \"a\" 5", " .byte 'a'", " .word \"a\"", " ld \"a\"", " .byte \"a\",", " .byte ,\"a\"", " .byte \"a\\",
        " .text 5 \"a\", 5", " .org \"a\"", "k equ \"a\"", " .byte \"a\" + 1", " .byte -\"a\"", " .text -1 \"a\"", " .text 1+1 \"a\"", " .string",
    ];
    spaces.push(Space::new(
        "malformed",
        "26 malformed uses of strings, with and without lines around them: rejected",
        bad.len() as u64 * 2,
        move |i, ctx| {
            let b = bad[i as usize / 2];
            let text = if i % 2 == 0 { format!("{}\n", b) } else { format!("x: nop\n .byte \"ok\"\n{}\n nop\n", b) };
            match ctx.assemble(&text) {
                Asm::Err(_) => pass(true),
                g => Verdict::Fail(format!("expected rejection, got {} for {:?}", g.show(), text)),
            }
        },
    ));
    let _ = (word1 as fn(&str) -> L, seq_get as fn(u64, u64) -> Vec<usize>, seq_total as fn(u64, u32) -> u64);
    spaces.push(crate::a_many::strings(t));
    Check {
        level: "exploration",
        spaces,
        assumptions: vec!["source files are UTF-8".into()],
    }
}
