//! Spaces about quantity: one construct repeated n times, for every small n and for counts around
//! powers of two (limits in the code show at some count, and nowhere else).
use crate::a_lang::{equ, var};
use crate::a_layout::judge;
use crate::engine::*;
use crate::model::*;
use crate::Tier;

/// Every count up to `all`, then those around powers of two and of ten up to `max`.
pub fn counts(all: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all).collect();
    let mut p = 2usize;
    while p <= max {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.extend([99, 100, 101, 500, 999, 1000, 1001, 5000, 9999, 10000, 10001, 20000, 50000]);
    v.retain(|n| *n <= max);
    v.sort();
    v.dedup();
    v
}

/// A03: data directives with many values.
pub fn values(t: Tier) -> Space {
    let ns = counts(t.q(300, 600), 20000);
    Space::new(
        "many-values",
        "one .byte or .word with every number of values up to 300 (thorough 600) and around powers of two up to 16384: numbers, expressions, strings of one or more bytes, mixed; a label after it",
        ns.len() as u64 * 6,
        move |i, ctx| {
            let mut m = Mix(i);
            let k = m.take(6);
            let c = ns[m.0 as usize];
            if c == 0 {
                return pass(false);
            }
            let v = |j: usize| n((j * 7 + j / 256) as i64 & 255);
            let p = vec![
                L::Word(vec![id("after")]),
                match k {
                    0 => L::Byte((0..c).map(|j| Bv::E(v(j))).collect()),
                    1 => L::Byte((0..c).map(|j| bstr(["a", "é", "", "xyz"][j % 4])).collect()),
                    2 => L::Byte((0..c).map(|j| if j % 3 == 1 { bstr("q;\u{301}") } else { Bv::E(bin('+', n(1), n(j as i64 % 200))) }).collect()),
                    3 => L::Word((0..c).map(|j| n(j as i64)).collect()),
                    4 => L::Word((0..c).map(|j| if j % 2 == 0 { id("after") } else { bin('-', id("after"), n(1)) }).collect()),
                    _ => L::Byte((0..c).map(|j| Bv::E(un(if j % 2 == 0 { '<' } else { '>' }, id("after")))).collect()),
                },
                label("after"),
                ins("nop", vec![]),
            ];
            ctx.states += 1;
            judge(ctx, &p)
        },
    )
}

/// A04: many names.
pub fn names(t: Tier) -> Space {
    let ns = counts(t.q(130, 300), 4100);
    Space::new(
        "many-names",
        "every number of names up to 130 (thorough 300) and around powers of two up to 4096, all used afterwards and before: labels at one or at different places, local labels of one scope, scopes with a local label of the same name, aliases, variables, definitions each of the next or of the previous one (chains up to 300), long names differing in one character",
        ns.len() as u64 * 9,
        move |i, ctx| {
            let mut m = Mix(i);
            let k = m.take(9);
            let c = ns[m.0 as usize];
            let chain = k == 5 || k == 6;
            if c == 0 || chain && c > 300 || k == 7 && c > 600 {
                return pass(false);
            }
            let mut p = vec![];
            let mut uses = vec![];
            let mut local = vec![];
            match k {
                0 | 1 => {
                    for j in 0..c {
                        let s = format!("l{}", j);
                        p.push(label(&s));
                        if k == 1 {
                            p.push(ins("nop", vec![]));
                        }
                        uses.push(id(&s));
                    }
                }
                2 => {
                    p.push(label("scope"));
                    for j in 0..c {
                        let s = format!(".l{}", j);
                        p.push(L::Dot(s.clone()));
                        p.push(ins("nop", vec![]));
                        local.push(id(&s));
                    }
                    p.push(L::Word(local.clone()));
                }
                3 => {
                    for j in 0..c {
                        p.push(label(&format!("s{}", j)));
                        p.push(L::Word(vec![id(".x")]));
                        p.push(L::Dot(".x".into()));
                    }
                }
                4 => {
                    for j in 0..c {
                        let s = format!("a{}", j);
                        p.push(if j % 2 == 0 { equ(&s, n(j as i64 + 5)) } else { var(&s, n(j as i64 * 3)) });
                        uses.push(id(&s));
                    }
                }
                5 | 6 => {
                    for j in 0..c {
                        let s = format!("a{}", j);
                        let first = if k == 5 { j == 0 } else { j + 1 == c };
                        let from = if k == 5 { j.wrapping_sub(1) } else { j + 1 };
                        let e = if first { n(9) } else { bin('+', id(&format!("a{}", from)), n(2)) };
                        p.push(if j % 2 == 0 { equ(&s, e) } else { var(&s, e) });
                        uses.push(id(&s));
                    }
                }
                7 => {
                    // names which differ in their last character or in one in the middle
                    for j in 0..c.min(26) {
                        for at in 0..2 {
                            let x = (b'a' + j as u8) as char;
                            let s = if at == 0 { format!("{}{}", "n".repeat(c), x) } else { format!("{}{}{}", "q".repeat(c), x, "r".repeat(c)) };
                            p.push(label(&s));
                            p.push(ins("nop", vec![]));
                            uses.push(id(&s));
                        }
                    }
                }
                _ => {
                    for j in 0..c {
                        let s = format!("l{}", j);
                        p.push(L::LabelI(s.clone(), Box::new(ins("jmpf", vec![O::Ex(id(&format!("l{}", (j * 7 + 3) % c)))]))));
                        uses.push(id(&s));
                    }
                }
            }
            let mut all = vec![];
            if !uses.is_empty() {
                all.push(L::Word(uses.clone()));
            }
            all.push(L::Org(0x6000));
            all.extend(p);
            uses.reverse();
            if !uses.is_empty() {
                all.push(L::Word(uses));
            }
            ctx.states += 1;
            judge(ctx, &all)
        },
    )
}

/// A06: many parameters, macros, calls, statements.
pub fn macros(t: Tier) -> Space {
    let ns = counts(t.q(130, 200), 1030);
    Space::new(
        "many",
        "every number up to 130 (thorough 200) and around powers of two up to 1024 of: parameters (each used once or twice), macros called one after the other, statements of a body, hygienic labels of a body, calls of a macro with a hygienic label, calls in a body",
        ns.len() as u64 * 7,
        move |i, ctx| {
            let mut m = Mix(i);
            let k = m.take(7);
            let c = ns[m.0 as usize];
            if k <= 1 && c > 400 {
                return pass(false);
            }
            let arg = |s: &str| E::Arg(s.to_owned());
            let mut p = vec![];
            match k {
                0 | 1 => {
                    let ps: Vec<String> = (0..c).map(|j| format!("p{}", j)).collect();
                    let mut body = vec![ins("nop", vec![])];
                    for (j, s) in ps.iter().enumerate() {
                        body.push(ins("add", vec![O::Imm(arg(s))]));
                        if k == 1 {
                            body.push(ins("mov", vec![O::Imm(arg(&ps[c - 1 - j])), O::Ex(bin('+', arg(s), n(1)))]));
                        }
                    }
                    p.push(L::Macro("m".into(), ps, body));
                    p.push(ins("m", (0..c).map(|j| O::Ex(n(j as i64 * 3 % 250))).collect()));
                    p.push(ins("nop", vec![]));
                }
                2 => {
                    for j in 0..c {
                        p.push(L::Macro(format!("m{}", j), vec!["a".into()], vec![ins("add", vec![O::Imm(bin('+', arg("a"), n(j as i64 % 100)))])]));
                    }
                    for j in (0..c).rev() {
                        p.push(ins(&format!("m{}", j), vec![O::Ex(n(j as i64 / 100))]));
                    }
                }
                3 => {
                    let body = (0..c).map(|j| if j % 3 == 0 { ins("nop", vec![]) } else { ins("add", vec![O::Imm(bin('+', arg("a"), n(j as i64 % 50)))]) }).collect();
                    p.push(L::Macro("m".into(), vec!["a".into()], body));
                    for j in 0..3 {
                        p.push(ins("m", vec![O::Ex(n(j))]));
                    }
                }
                4 => {
                    let mut body = vec![];
                    for j in 0..c {
                        body.push(label(&format!("l{}%", j)));
                        body.push(ins("jmpf", vec![O::Ex(E::Hyg(format!("l{}", (j * 5 + 2) % c)))]));
                    }
                    p.push(L::Macro("m".into(), vec![], body));
                    for _ in 0..2 {
                        p.push(ins("m", vec![]));
                    }
                }
                5 => {
                    p.push(L::Macro("m".into(), vec!["a".into()], vec![label("l%"), ins("add", vec![O::Imm(arg("a"))]), ins("br", vec![O::Ex(E::Hyg("l".into()))])]));
                    for j in 0..c {
                        p.push(ins("m", vec![O::Ex(n(j as i64 % 251))]));
                    }
                }
                _ => {
                    p.push(L::Macro("q".into(), vec!["x".into()], vec![ins("add", vec![O::Imm(arg("x"))]), label("l%"), ins("bz", vec![O::Ex(E::Hyg("l".into()))])]));
                    p.push(L::Macro("m".into(), vec!["a".into()], (0..c).map(|j| ins("q", vec![O::Ex(bin('+', arg("a"), n(j as i64 % 100)))])).collect()));
                    p.push(ins("m", vec![O::Ex(n(7))]));
                    p.push(ins("m", vec![O::Ex(n(70))]));
                }
            }
            ctx.states += 1;
            judge(ctx, &p)
        },
    )
}

/// A07: many files and includes.
pub fn files(t: Tier) -> Space {
    let ns = counts(t.q(130, 200), 520);
    Space::new(
        "many-files",
        "every number up to 130 (thorough 200) and around powers of two up to 512 of includes one after the other: different source files, one file again and again, binary files, files with a binary file each, headers; and files that many directories deep (up to 100)",
        ns.len() as u64 * 6,
        move |i, ctx| {
            let mut m = Mix(i);
            let k = m.take(6);
            let c = ns[m.0 as usize];
            if k == 5 && c > 100 {
                return pass(false);
            }
            ctx.clean();
            let mut text = " .byte 1\n".to_owned();
            let mut want = vec![1u8];
            let val = |j: usize| (j * 11 + j / 256) as u8;
            for j in 0..c {
                match k {
                    0 => {
                        ctx.put(&format!("f{}.s", j), format!(" .byte {}\n", val(j)).as_bytes());
                        text.push_str(&format!(" .include \"f{}.s\"\n", j));
                        want.push(val(j));
                    }
                    1 => {
                        if j == 0 {
                            ctx.put("f.s", b" .byte 7");
                        }
                        text.push_str(" .include \"f.s\"\n");
                        want.push(7);
                    }
                    2 => {
                        ctx.put(&format!("f{}.bin", j), &[val(j), j as u8]);
                        text.push_str(&format!(" .include bytes \"f{}.bin\"\n", j));
                        want.extend([val(j), j as u8]);
                    }
                    3 => {
                        ctx.put(&format!("f{}.s", j), format!(" .include bytes \"f{}.bin\"\n .byte 9\n", j / 2).as_bytes());
                        ctx.put(&format!("f{}.bin", j / 2), &[val(j / 2)]);
                        text.push_str(&format!(" .include \"f{}.s\"\n", j));
                        want.extend([val(j / 2), 9]);
                    }
                    4 => {
                        ctx.put(&format!("f{}.h", j), format!("#define V{} {}\n", j, val(j)).as_bytes());
                        text.push_str(&format!(" .include cpp \"f{}.h\"\n .byte v{}\n", j, c - 1 - j));
                        want.push(val(c - 1 - j));
                    }
                    _ => {}
                }
            }
            if k == 5 {
                let d = "d/".repeat(c);
                ctx.put(&format!("{}f.s", d), b" .include \"g.s\"\n .byte 5\n");
                ctx.put(&format!("{}g.s", d), format!(" .byte 6\n .include \"{}h.s\"\n", "../".repeat(c)).as_bytes());
                ctx.put("h.s", b" .byte 8\n");
                text.push_str(&format!(" .include \"{}f.s\"\n", d));
                want.extend([6, 8, 5]);
            }
            text.push_str(" .byte 2\n");
            want.push(2);
            ctx.states += 1;
            ctx.transitions += c as u64;
            ctx.validated += 1;
            let got = ctx.assemble(&text);
            ctx.clean();
            match compare(&Ok(want), &got) {
                Ok(()) => pass(true),
                Err(e) => Verdict::Fail(format!("{} for {} includes of kind {}: {:?}", e, c, k, trunc(&text, 600))),
            }
        },
    )
}

/// A07: files whose names are nearly the same.
pub fn similar(t: Tier) -> Space {
    const NAMES: &[&str] = &["ab.i", "Ab.i", "aB.i", "ab.I", "ab .i", " ab.i", "ab.i ", "ab..i", "ab.", "ab", ".ab", "\u{e9}.i", "e\u{301}.i", "a-b.i", "a_b.i", "ab.i~", "ab.ii", "b.i", "d.d/ab.i", "D.d/ab.i"];
    let k = (NAMES.len() * 3) as u64;
    let d = t.q(3u32, 4);
    let total: u64 = (0..=d).map(|x| k.pow(x)).sum();
    Space::new(
        "similar-names",
        &format!("twenty files whose names differ in the case of a letter, a blank, a dot, the composition of an accent or one character: every sequence of up to {} includes of them (source, bytes or header)", d),
        total,
        move |i, ctx| {
            let mut j = i;
            let mut len = 0u32;
            while j >= k.pow(len) {
                j -= k.pow(len);
                len += 1;
            }
            let mut m = Mix(j);
            let mut text = String::new();
            let mut want = vec![];
            let mut headers = vec![];
            let mut put = vec![];
            for _ in 0..len {
                let f = m.take(NAMES.len());
                let kind = m.take(3);
                // a file is included in one way only
                if put.iter().any(|(g, h)| *g == f && *h != kind) {
                    return pass(false);
                }
                if kind == 2 && headers.contains(&f) {
                    return pass(false);
                }
                put.push((f, kind));
                text.push_str(&format!(" .include {} \"{}\"\n", ["", "bytes", "cpp"][kind], NAMES[f]));
                if kind == 2 {
                    headers.push(f);
                    text.push_str(&format!(" .byte v{}\n", f));
                }
                want.push(f as u8 + 65);
            }
            ctx.clean();
            // all twenty are there, a file not included would be a mistake to read
            for (f, name) in NAMES.iter().enumerate() {
                let kind = put.iter().find(|(g, _)| *g == f).map(|x| x.1).unwrap_or(f % 3);
                let c = match kind {
                    0 => format!(" .byte {}\n", f + 65),
                    1 => ((f as u8 + 65) as char).to_string(),
                    _ => format!("#define V{} {}\n", f, f + 65),
                };
                ctx.put(name, c.as_bytes());
            }
            ctx.states += 1;
            ctx.transitions += len as u64;
            ctx.validated += 1;
            let got = ctx.assemble(&text);
            match compare(&Ok(want), &got) {
                Ok(()) => pass(true),
                Err(e) => Verdict::Fail(format!("{} for {:?}", e, text)),
            }
        },
    )
}

/// A08: many definitions and long comments.
pub fn headers(t: Tier) -> Space {
    let ns = counts(t.q(300, 400), 5001);
    Space::new(
        "many",
        "every number up to 300 (thorough 400) and around powers of two up to 4096 of: definitions, definitions each using the one before (up to 300), blank lines, // comments, one-line and multi-line comments in a row between two definitions, characters, stars or lines of one comment, comments within a definition (up to 100), blanks in it",
        ns.len() as u64 * 10,
        move |i, ctx| {
            let mut m = Mix(i);
            let k = m.take(10);
            let c = ns[m.0 as usize];
            if k == 1 && c > 300 || k == 8 && c > 100 {
                return pass(false);
            }
            let mut h = String::new();
            let mut text = " .include cpp \"h.h\"\n".to_owned();
            let mut want = vec![];
            match k {
                0 | 1 => {
                    for j in 0..c {
                        if k == 0 || j == 0 {
                            h.push_str(&format!("#define A{} {}\n", j, j + 3));
                        } else {
                            h.push_str(&format!("#define A{} A{} + 1\n", j, j - 1));
                        }
                        text.push_str(&format!(" .word a{}\n", j));
                        want.extend([(j + 3) as u8, ((j + 3) >> 8) as u8]);
                    }
                }
                _ => {
                    let fill = match k {
                        2 => "\n".repeat(c),
                        3 => "// c; #define B 9\n".repeat(c),
                        4 => "/* #define B 9 */\n".repeat(c),
                        5 => "/* x\n#define B 9\n*/\n".repeat(c),
                        6 => format!("/*{}*/\n//{}\n", "*".repeat(c), "é/".repeat(c)),
                        7 => format!("/*{}*/\n", " x\n".repeat(c)),
                        _ => String::new(),
                    };
                    let gap = match k {
                        8 => "/* c */".repeat(c),
                        9 => " \t".repeat(c),
                        _ => String::new(),
                    };
                    h = format!("#define A 1\n{}#define {}B {}2{}\n{}#define C 3", fill, gap, gap, gap, fill);
                    text.push_str(" .byte a, b, c\n");
                    want.extend([1, 2, 3]);
                }
            }
            ctx.put("h.h", h.as_bytes());
            ctx.states += 1;
            ctx.transitions += c as u64;
            let got = ctx.assemble(&text);
            match compare(&Ok(want), &got) {
                Ok(()) => pass(true),
                Err(e) => Verdict::Fail(format!("{} for {} of kind {}: {:?}", e, c, k, trunc(&h, 600))),
            }
        },
    )
}

/// A09: many blank lines, comments, blanks.
pub fn runs(t: Tier, lines: Vec<String>, want: Vec<u8>) -> Space {
    let ns = counts(t.q(130, 300), 20000);
    const KINDS: &[&str] = &["", "  ", "\t", ";", "*", "; nop", "* nop", "\t;x", "\r", "\t\r"];
    let places = [0usize, 5, 11, lines.len()];
    let kinds = KINDS.len() * 3 + 5;
    Space::new(
        "runs",
        "every number up to 130 (thorough 300) and around powers of two up to 16384 of consecutive lines, each blank or a comment (10 kinds, alone or taking turns with two others), before, in (a macro too) and after the program; comments of that many characters; that many blanks in every gap of a line",
        (ns.len() * places.len() * kinds) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let at = places[m.take(places.len())];
            let kind = m.take(kinds);
            let c = ns[m.0 as usize];
            let mut text = String::new();
            let mut insert = String::new();
            let mut gap = None;
            if kind < KINDS.len() * 3 {
                let a = KINDS[kind % KINDS.len()];
                let b = match kind / KINDS.len() {
                    0 => a,
                    1 => "",
                    _ => "; a b",
                };
                for j in 0..c {
                    insert.push_str(if j % 2 == 0 { a } else { b });
                    insert.push('\n');
                }
            } else {
                match kind - KINDS.len() * 3 {
                    0 => insert = format!(";{}\n", "x".repeat(c)),
                    1 => insert = format!("*{}\n", "é*".repeat(c)),
                    2 => insert = format!("{}\n", " ".repeat(c)),
                    3 => insert = format!("{};\n", "\t".repeat(c)),
                    _ => gap = Some(" ".repeat(c + 1)),
                }
            }
            for (k, x) in lines.iter().enumerate() {
                if k == at {
                    text.push_str(&insert);
                }
                match &gap {
                    // not in strings
                    Some(g) if k == at && !x.contains('"') => text.push_str(&format!("{}{}{}", x.replace(' ', g), g, "; c")),
                    _ => text.push_str(x),
                }
                text.push('\n');
            }
            if at == lines.len() {
                text.push_str(&insert);
            }
            match ctx.assemble(&text) {
                Asm::Ok(b) if b == want => pass(true),
                g => Verdict::Fail(format!("expected {} [{}], got {} for {} times kind {} at line {}", want.len(), hex(&want), g.show(), c, kind, at)),
            }
        },
    )
}

/// A10: long strings.
pub fn strings(t: Tier) -> Space {
    let ns = counts(t.q(300, 1100), 20001);
    const UNITS: &[(&str, &[u8])] = &[("a", b"a"), ("é", "é".as_bytes()), ("\\n", b"\n"), ("\n", b"\n"), ("\\\"", b"\""), ("*\n", b"*\n"), ("\u{1D11E}", "\u{1D11E}".as_bytes())];
    Space::new(
        "long",
        "strings of every number of characters up to 300 (thorough 1100) and around powers of two up to 16384, of 7 kinds (escapes, line ends, multi-byte), in .byte, .text and .string (exactly fitting and with 1 to 300 bytes of padding), a label after it",
        (ns.len() * UNITS.len() * 5) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let unit = UNITS[m.take(UNITS.len())];
            let kind = m.take(5);
            let c = ns[m.0 as usize];
            let s = unit.0.repeat(c);
            let mut b = unit.1.repeat(c);
            if b.len() > 65000 {
                return pass(false);
            }
            let pad = if kind > 2 { c % 300 + 1 } else { 0 };
            let stmt = match kind {
                0 => format!(".byte \"{}\"", s),
                1 | 3 => format!(".text {} \"{}\"", b.len() + pad, s),
                _ => format!(".string {} \"{}\"", b.len() + pad, s),
            };
            b.resize(b.len() + pad, if kind == 3 { b' ' } else { 0 });
            let after = b.len() + 2;
            let mut want = vec![after as u8, (after >> 8) as u8];
            want.extend(b);
            want.push(1);
            let text = format!(" .word after\n {}\nafter: .byte 1\n", stmt).replace("after: .", "after:\n .");
            let got = ctx.assemble(&text);
            match compare(&Ok(want), &got) {
                Ok(()) => pass(true),
                Err(e) => Verdict::Fail(format!("{} for {} times {:?} in {:?}", e, c, unit.0, trunc(&stmt, 40))),
            }
        },
    )
}
