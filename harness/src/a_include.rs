//! A07 (includes).
use crate::a_lang::{dot, equ, seq0_get, seq0_total};
use crate::engine::*;
use crate::imgw::*;
use crate::model::*;
use crate::{Check, Tier};

#[derive(Clone)]
enum It {
    L(L),
    /// include of file number n
    Inc(usize),
    /// include of the binary file
    Bin,
    Open,
    End,
}

const NAMES: [&str; 4] = ["t.s", "a.s", "sub/b.s", "sub/c.s"];
const BIN: [u8; 5] = [0, 0x80, 0x22, 0x0a, 0xff];

/// Path of file `to` as written in file `from`.
fn rel(from: usize, to: usize, style: usize) -> String {
    let in_sub = from >= 2;
    let p = match (in_sub, to >= 2) {
        (false, _) => NAMES[to].to_owned(),
        (true, true) => NAMES[to][4..].to_owned(),
        (true, false) => format!("../{}", NAMES[to]),
    };
    match style % 3 {
        0 => p,
        1 => format!("./{}", p),
        _ => format!("{}sub/../{}", if in_sub { "../" } else { "" }, if in_sub && to >= 2 { NAMES[to].to_owned() } else if in_sub { NAMES[to].to_owned() } else { p }),
    }
}

fn show_it(from: usize, it: &It, style: usize) -> String {
    match it {
        It::L(l) => show(l),
        It::Inc(n) => match style % 4 {
            0 => format!(" .include \"{}\"", rel(from, *n, style)),
            1 => format!(".INCLUDE\t\"{}\" ; again", rel(from, *n, style)),
            2 => format!(" .include asm \"{}\"  ", rel(from, *n, style)),
            _ => format!("    .include    \"{}\"", rel(from, *n, style)),
        },
        It::Bin => {
            let p = if from >= 2 { "../d.bin" } else { "d.bin" };
            format!(" .include bytes \"{}\"", p)
        }
        It::Open => "%macro mm %x".into(),
        It::End => "%end".into(),
    }
}

/// File contents: `ending` 0 LF, 1 no final line end, 2 CRLF, 3 final comment, 4 final blanks,
/// 5 blank lines at the end.
fn contents(from: usize, items: &[It], ending: usize, style: usize) -> String {
    let nl = if ending == 2 { "\r\n" } else { "\n" };
    let mut s = String::new();
    for (i, it) in items.iter().enumerate() {
        s.push_str(&show_it(from, it, style + i));
        if i + 1 < items.len() || ending == 0 || ending == 2 || ending == 5 {
            s.push_str(nl);
        }
    }
    match ending {
        3 => s.push_str(" ; last"),
        4 => s.push_str("  \t"),
        5 => s.push_str("\n \n"),
        _ => {}
    }
    s
}

fn flatten(files: &[Vec<It>], at: usize, stack: &mut Vec<usize>, out: &mut Vec<It>) -> Result<(), String> {
    if stack.contains(&at) {
        return Err("include cycle".into());
    }
    stack.push(at);
    for it in &files[at] {
        match it {
            It::Inc(n) => flatten(files, *n, stack, out)?,
            it => out.push(it.clone()),
        }
    }
    stack.pop();
    Ok(())
}

fn bin_line() -> L {
    L::Byte(BIN.iter().map(|b| Bv::E(n(*b as i64))).collect())
}

/// Puts macro fragments together.
fn fold(items: &[It]) -> Vec<L> {
    let mut out = vec![];
    let mut body: Option<Vec<L>> = None;
    for it in items {
        let l = match it {
            It::L(l) => l.clone(),
            It::Bin => bin_line(),
            It::Inc(_) => unreachable!(),
            It::Open => {
                if body.is_some() {
                    L::Bad("nested %macro".into())
                } else {
                    body = Some(vec![]);
                    continue;
                }
            }
            It::End => match body.take() {
                Some(b) => L::Macro("mm".into(), vec!["x".into()], b),
                None => L::Bad("stray %end".into()),
            },
        };
        if let L::Bad(_) = l {
            return vec![l];
        }
        match &mut body {
            Some(b) => b.push(l),
            None => out.push(l),
        }
    }
    if body.is_some() {
        return vec![L::Bad("no %end".into())];
    }
    out
}

fn judge_tree(ctx: &mut Ctx, files: &[Vec<It>], endings: &[usize], style: usize) -> Verdict {
    let mut pasted = vec![];
    let want = match flatten(files, 0, &mut vec![], &mut pasted) {
        Err(e) => Err(e),
        Ok(()) => assemble(&fold(&pasted)),
    };
    let mut texts = vec![];
    for (i, f) in files.iter().enumerate() {
        let t = contents(i, f, endings[i], style);
        ctx.put(NAMES[i], t.as_bytes());
        texts.push(format!("{}: {:?}", NAMES[i], t));
    }
    ctx.put("d.bin", &BIN);
    let p = ctx.dir.join("t.s");
    let got = ctx.assemble_path(&p);
    ctx.states += 1;
    ctx.transitions += pasted.len() as u64;
    if want.is_ok() {
        ctx.validated += 1;
    }
    match compare(&want, &got) {
        Ok(()) => pass(want.is_ok() && files[0].iter().any(|i| matches!(i, It::Inc(_)))),
        Err(m) => Verdict::Fail(format!("{} for {}", m, texts.join("  "))),
    }
}

fn line(k: usize, mark: i64) -> It {
    It::L(match k {
        0 => L::Byte(vec![Bv::E(n(mark))]),
        1 => L::LabelI(".l".into(), Box::new(ins("br", vec![O::Ex(id(".l"))]))),
        2 => label("g"),
        3 => L::Byte(vec![Bv::Str(b"a\n;b".to_vec(), "a\n;b".into())]),
        4 => ins("mm", vec![O::Ex(n(mark))]),
        5 => ins("mov", vec![O::Imm(id("k")), O::Ex(n(mark))]),
        6 => equ("k", n(mark)),
        7 => L::Word(vec![id("g")]),
        8 => return It::Open,
        9 => return It::End,
        10 => ins("mov", vec![O::Imm(E::Arg("x".into())), O::Ex(n(mark))]),
        11 => L::Nothing("* full line comment".into()),
        12 => dot(".m"),
        _ => ins("br", vec![O::Ex(id(".m"))]),
    })
}

pub fn a07(t: Tier) -> Check {
    let mut spaces = vec![];
    // main: items over lines + include a + include b + binary; a: lines + include b; b: lines
    let main_menu: &'static [usize] = &[0, 1, 2, 3, 4, 7, 100, 101, 102, 8, 9];
    let a_menu: &'static [usize] = &[0, 1, 2, 3, 5, 8, 9, 10, 101, 102];
    let b_menu: &'static [usize] = &[0, 3, 6, 7, 8, 9, 11, 13];
    let mk = |menu: &'static [usize], seq: &[usize], base: i64| -> Vec<It> {
        seq.iter()
            .enumerate()
            .map(|(i, x)| match menu[*x] {
                100 => It::Inc(1),
                101 => It::Inc(2),
                102 => It::Bin,
                k => line(k, base + i as i64),
            })
            .collect()
    };
    let (dm, da, db) = t.q((3u32, 2u32, 1u32), (3, 2, 2));
    let (tm, ta, tb) = (
        seq0_total(main_menu.len() as u64, dm),
        seq0_total(a_menu.len() as u64, da),
        seq0_total(b_menu.len() as u64, db),
    );
    spaces.push(Space::new(
        "trees",
        "every tree main -> a -> b (main: up to 3 items, a: 2, b: 1, thorough 2) over data, labels, local labels, strings with line breaks, macro definition fragments, macro calls, aliases, includes and binary includes, with 6 kinds of file endings assigned by rotation, against the pasted program",
        tm * ta * tb,
        move |i, ctx| {
            let (x, y, z) = (i % tm, i / tm % ta, i / tm / ta);
            let files = vec![
                mk(main_menu, &seq0_get(main_menu.len() as u64, x), 1),
                mk(a_menu, &seq0_get(a_menu.len() as u64, y), 0x11),
                mk(b_menu, &seq0_get(b_menu.len() as u64, z), 0x21),
            ];
            // only what can be reached matters
            let inc_a = files[0].iter().any(|i| matches!(i, It::Inc(1)));
            let inc_b = files[0].iter().any(|i| matches!(i, It::Inc(2))) || inc_a && files[1].iter().any(|i| matches!(i, It::Inc(2)));
            if (!inc_a && y != 0) || (!inc_b && z != 0) {
                return pass(false);
            }
            let e = [(x % 6) as usize, ((x + y) % 6) as usize, ((x / 7 + y + z) % 6) as usize];
            judge_tree(ctx, &files, &e, (x + y + z) as usize)
        },
    ));
    // endings
    let fixed: &'static [&'static [usize]] = &[&[0], &[3], &[0, 3], &[3, 0], &[], &[11], &[101, 0], &[0, 101], &[3, 101], &[101], &[102], &[1, 102]];
    let bs: &'static [&'static [usize]] = &[&[], &[0], &[3], &[0, 3], &[12, 13]];
    spaces.push(Space::new(
        "endings",
        "12 contents of a file and 5 of a file included by it x every combination of 6 endings for three files x 12 ways to write the include x 3 continuations in the main file",
        (12 * 5 * 216 * 12 * 3) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let a = fixed[m.take(12)];
            let b = bs[m.take(5)];
            let e = [m.take(6), m.take(6), m.take(6)];
            let style = m.take(12);
            let main = match m.take(3) {
                0 => vec![It::Inc(1), line(0, 1)],
                1 => vec![line(0, 1), It::Inc(1), It::Inc(1), line(0, 2)],
                _ => vec![line(3, 1), It::Inc(1), It::Inc(2), It::Inc(1)],
            };
            let get = |v: &[usize], base: i64| -> Vec<It> {
                v.iter()
                    .enumerate()
                    .map(|(i, x)| match x {
                        101 => It::Inc(2),
                        102 => It::Bin,
                        k => line(*k, base + i as i64),
                    })
                    .collect()
            };
            judge_tree(ctx, &[main, get(a, 0x11), get(b, 0x21)], &e, style)
        },
    ));
    // graphs
    let k = t.q(4u64, 4);
    let per = seq0_total(k, 2);
    let gn = t.q(3u32, 4);
    spaces.push(Space::new(
        "graphs",
        "every include graph over 3 (thorough 4) files, each including up to two of the files (itself too) between two marker bytes: cycles are rejected, everything else equals pasting",
        per.pow(gn),
        move |i, ctx| {
            let mut files = vec![];
            let mut j = i;
            for f in 0..4usize {
                let seq = if (f as u32) < gn {
                    let s = seq0_get(k, j % per);
                    j /= per;
                    s
                } else {
                    vec![]
                };
                let mut v = vec![line(0, 0x10 * f as i64 + 1)];
                for s in seq {
                    v.push(It::Inc(s));
                }
                v.push(line(0, 0x10 * f as i64 + 2));
                files.push(v);
            }
            judge_tree(ctx, &files, &[0, 1, 1, 0], (i % 12) as usize)
        },
    ));
    // chains
    spaces.push(Space::new(
        "chains",
        "chains of 1 to 60 nested includes, with and without final line ends, closed to a cycle or not",
        60 * 2 * 2,
        |i, ctx| {
            let mut m = Mix(i);
            let d = m.take(60) + 1;
            let nl = if m.take(2) == 0 { "\n" } else { "" };
            let cycle = m.take(2) == 1;
            let mut want = vec![];
            for f in 0..=d {
                let name = if f == 0 { "t.s".to_owned() } else { format!("c{}.s", f) };
                let inc = if f < d {
                    format!(" .include \"c{}.s\"", f + 1)
                } else if cycle {
                    " .include \"t.s\"".to_owned()
                } else {
                    " nop".to_owned()
                };
                ctx.put(&name, format!(" .byte {}\n{}\n .byte {}{}", f, inc, 255 - f, nl).as_bytes());
                want.push(f as u8);
            }
            want.push(0);
            for f in (0..=d).rev() {
                want.push(255 - f as u8);
            }
            ctx.states += 1;
            ctx.validated += 1;
            ctx.transitions += d as u64;
            let p = ctx.dir.join("t.s");
            let got = ctx.assemble_path(&p);
            let want = if cycle { Err("cycle".into()) } else { Ok(want) };
            match compare(&want, &got) {
                Ok(()) => pass(true),
                Err(m) => Verdict::Fail(format!("{} for a chain of {} includes", m, d)),
            }
        },
    ));
    // binaries
    let lens: &'static [usize] = &[0, 1, 2, 3, 255, 256, 257, 4096, 40000];
    spaces.push(Space::new(
        "binaries",
        "binary includes: all 256 one-byte files, all two-byte files over 24 bytes, and nine lengths up to 40000 with every byte value, between a label before and a label after, once or twice",
        (256 + 24 * 24 + lens.len() as u64) * 2,
        move |i, ctx| {
            let twice = i % 2 == 1;
            let j = (i / 2) as usize;
            let special = [0u8, 1, 9, 10, 13, 26, 32, 34, 39, 42, 47, 59, 92, 127, 128, 129, 0xbf, 0xc0, 0xc3, 0xe2, 0xef, 0xf0, 0xfe, 255];
            let data: Vec<u8> = if j < 256 {
                vec![j as u8]
            } else if j < 256 + 576 {
                vec![special[(j - 256) / 24], special[(j - 256) % 24]]
            } else {
                (0..lens[j - 832]).map(|x| (x * 7 + x / 256) as u8).collect()
            };
            ctx.put("d.bin", &data);
            let inc = if twice { " .include bytes \"d.bin\"\n.include BYTES \"d.bin\"\n" } else { " .include bytes \"d.bin\"" };
            let got = ctx.assemble(&format!(" .word after, before\nbefore: nop\n{}\nafter:\n .byte 'x'", inc).replace("'x'", "$77"));
            let mut want = vec![0u8; 5];
            for _ in 0..1 + twice as usize {
                want.extend(&data);
            }
            let after = want.len();
            want[0] = after as u8;
            want[1] = (after >> 8) as u8;
            want[2] = 4;
            want.push(0x77);
            let want = if after > 0xffff { Err("too large".into()) } else { Ok(want) };
            ctx.states += 1;
            ctx.transitions += 1;
            ctx.validated += 1;
            match compare(&want, &got) {
                Ok(()) => pass(true),
                Err(m) => Verdict::Fail(format!("{} for a binary of {} bytes", m, data.len())),
            }
        },
    ));
    // files of the same name
    let sl = t.q(2u32, 3);
    let letters = (DIRS.len() * 4) as u64;
    let st: u64 = (0..=sl).map(|d| letters.pow(d)).sum();
    spaces.push(Space::new(
        "same-names",
        &format!("six directories (three at one depth, two at another) which hold files of the same four names with other contents: every sequence of up to {} includes (source, source that includes its neighbour, bytes, header; from any of the directories) x 5 spellings of the path x main program in 2 of the directories or below them", sl),
        st * 5 * 3,
        move |i, ctx| {
            let mut m = Mix(i);
            let style = m.take(5);
            let at = m.take(3);
            let mut j = m.0;
            let mut len = 0u32;
            while j >= letters.pow(len) {
                j -= letters.pow(len);
                len += 1;
            }
            let seq: Vec<(usize, usize)> = (0..len)
                .map(|_| {
                    let x = (j % letters) as usize;
                    j /= letters;
                    (x % DIRS.len(), x / DIRS.len())
                })
                .collect();
            same_names(ctx, &seq, style, at)
        },
    ));
    spaces.push(Space::new(
        "same-name-chains",
        "x.s in every ordering of three to six directories, each including the x.s of the next (the last one the first, another, or none), with bytes of its own before and after",
        720 * 4 * 3 * 5,
        |i, ctx| {
            let mut m = Mix(i);
            let mut rest: Vec<usize> = (0..6).collect();
            let mut order = vec![];
            for k in (1..=6).rev() {
                let x = m.take(k);
                order.push(rest.remove(x));
            }
            let n = m.take(4) + 3;
            let back = m.take(3);
            let style = m.take(5);
            order.truncate(n);
            ctx.clean();
            let mut want = vec![];
            for (k, d) in order.iter().enumerate() {
                let next = if k + 1 < n {
                    Some(order[k + 1])
                } else {
                    match back {
                        0 => None,
                        1 => Some(order[0]),
                        _ => Some(order[n / 2]),
                    }
                };
                let inc = next.map(|t| format!(" .include \"{}\"\n", walk(&ctx.dir, DIRS[*d], DIRS[t], "x.s", style))).unwrap_or_default();
                ctx.put(&format!("{}x.s", DIRS[*d]), format!(" .byte {}\n{} .byte {}\n", d + 1, inc, 255 - d).as_bytes());
                want.push(*d as u8 + 1);
            }
            for d in order.iter().rev() {
                want.push(255 - *d as u8);
            }
            for d in DIRS {
                let _ = std::fs::create_dir_all(ctx.dir.join(d));
            }
            ctx.states += 1;
            ctx.transitions += n as u64;
            ctx.validated += 1;
            let p = ctx.dir.join(format!("{}x.s", DIRS[order[0]]));
            let got = ctx.assemble_path(&p);
            let want = if back == 0 { Ok(want) } else { Err("cycle".into()) };
            match compare(&want, &got) {
                Ok(()) => pass(true),
                Err(m) => Verdict::Fail(format!("{} for a chain through x.s in {:?}, back to {}", m, order.iter().map(|d| DIRS[*d]).collect::<Vec<_>>(), back)),
            }
        },
    ));
    // paths
    spaces.push(Space::new(
        "paths",
        "6 kinds of include x 3 depths of the including file x 8 sets of places where the file exists (next to the including file, in the working directory, next to the main file) x 4 spellings x main file given relative or absolute x 2 working directories; every copy has other contents",
        6 * 3 * 8 * 4 * 2 * 2,
        paths,
    ));
    // unreadable
    spaces.push(Space::new(
        "unreadable",
        "each kind of include x 2 depths x (missing, directory, not text, empty): rejected with a clean error exactly if the contents cannot be used",
        5 * 2 * 4,
        |i, ctx| {
            ctx.clean();
            let mut m = Mix(i);
            let kind = m.take(5);
            let deep = m.take(2) == 1;
            let what = m.take(4);
            let (word, ext) = [("", "s"), ("bytes", "bin"), ("cpp", "h"), ("icon", "png"), ("sprite", "png")][kind];
            let name = format!("x.{}", ext);
            match what {
                0 => {}
                1 => {
                    let _ = std::fs::create_dir_all(ctx.dir.join(&name));
                }
                2 => {
                    ctx.put(&name, &[0xff, 0xfe, 0x0a]);
                }
                _ => {
                    ctx.put(&name, &[]);
                }
            }
            let text = format!(" .byte 1\n .include {} \"{}\"\n .byte 2\n", word, name);
            let p = if deep {
                ctx.put("y.s", text.as_bytes());
                ctx.put("t.s", b" .include \"y.s\"\n")
            } else {
                ctx.put("t.s", text.as_bytes())
            };
            let got = ctx.assemble_path(&p);
            let want = match (what, kind) {
                (2, 1) => Ok(vec![1, 0xff, 0xfe, 0x0a, 2]),
                (3, 0..=2) => Ok(vec![1, 2]),
                _ => Err("unusable".into()),
            };
            ctx.clean();
            ctx.states += 1;
            ctx.transitions += 1;
            ctx.validated += 1;
            match compare(&want, &got) {
                Ok(()) => pass(true),
                Err(e) => Verdict::Fail(format!("{} for {:?} ({})", e, text, ["missing", "directory", "not text", "empty"][what])),
            }
        },
    ));
    spaces.push(Space::new(
        "links",
        "files and directories reached through symbolic links: which of main file, included file, its directory and the neighbour it includes is a link (to a file of the same or another name elsewhere, through one or two links, relative or absolute) x 3 kinds of include in it x 4 sets of places which hold that neighbour x main file given relative or absolute",
        3 * 3 * 3 * 3 * 4 * 2 * 2 * 2 * 2,
        links,
    ));
    let d = t.q(4, 5);
    spaces.push(Space::new(
        "repeats",
        &format!("every sequence of up to {} includes of {} files, in the main program or in a file it includes: C headers with definitions, with assembler lines, with both, with a label, with comments only, empty, and such headers through another file; sources, binaries and sprites; some in two spellings: each inclusion counts, a second definition is rejected", d, REPEATS.len()),
        seq0_total(REPEATS.len() as u64, d as u32) * 2,
        |i, ctx| repeats(ctx, &seq0_get(REPEATS.len() as u64, i / 2), i % 2 == 1),
    ));
    spaces.push(Space::new(
        "directories",
        "every kind of include x main file in the working directory, below it, or beside it x included from it or from a file below it x 3 spellings x file there or only in the working directory x working directories with 17 odd names (not UTF-8, multi-byte, blanks, quotes, line breaks, dashes, dots, long), at the top or one level up: the same result as in a directory with a plain name",
        6 * 3 * 2 * 3 * 2 * ODD_DIRS.len() as u64 * 2,
        directories,
    ));
    spaces.push(crate::a_many::files(t));
    spaces.push(crate::a_many::similar(t));
    Check {
        level: "model_checking",
        spaces,
        assumptions: vec![
            "contents of files come from fixed menus of lines; graphs have at most four files".into(),
            "runs as a user who may read every file, so permission errors do not occur".into(),
        ],
    }
}

/// How a file is included, the bytes it emits, the names it defines.
const REPEATS: &[(&str, &[u8], &[(&str, u8)])] = &[
    ("cpp \"h1.h\"", &[], &[("a1", 65)]),
    ("cpp \"h2.h\"", &[], &[("b1", 66)]),
    ("cpp \"h3.h\"", &[7], &[]),
    ("cpp \"h4.h\"", &[], &[]),
    ("cpp \"h5.h\"", &[], &[]),
    ("cpp \"h6.h\"", &[8], &[("c1", 67), ("d1", 68)]),
    ("cpp \"./h3.h\"", &[7], &[]),
    ("asm \"x.s\"", &[9], &[]),
    ("asm \"w1.s\"", &[], &[("a1", 65)]),
    ("asm \"w3.s\"", &[7, 9], &[]),
    ("bytes \"r.bin\"", &[10, 0], &[]),
    ("asm \"h3.h\"", &[7], &[]),
    ("sprite \"p.png\" header=\"no\"", &[42], &[]),
    ("cpp \"h7.h\"", &[], &[("l1", 255)]),
    ("asm \"s/../x.s\"", &[9], &[]),
    ("bytes \"x.s\"", b" .byte 9\n", &[]),
];

fn repeats(ctx: &mut Ctx, seq: &[usize], inner: bool) -> Verdict {
    ctx.clean();
    ctx.put("s/unused", b"");
    ctx.put("h1.h", b"#define A1 65\n");
    ctx.put("h2.h", b"/* b */ #define /* ** */ B1 0x42 // b\n");
    ctx.put("h3.h", b" .byte 7\n");
    ctx.put("h4.h", b"// nothing\n/* at\nall */\n");
    ctx.put("h5.h", b"");
    ctx.put("h6.h", b"#define C1 67\n .byte 8\n#define D1 (C1+1)\n");
    ctx.put("h7.h", b"l1:\n");
    ctx.put("x.s", b" .byte 9\n");
    ctx.put("w1.s", b" .include cpp \"h1.h\"\n");
    ctx.put("w3.s", b" .include cpp \"h3.h\"\n .include \"x.s\"\n");
    ctx.put("r.bin", &[10, 0]);
    ctx.put("p.png", &png(&Pic::new(8, 1, (0..8).map(|b| if 42u8 >> (7 - b) & 1 == 1 { [0, 0, 0, 255] } else { [255; 4] }).collect()), PngKind::Rgba8));
    let mut want = vec![];
    let mut names: Vec<(&str, u8)> = vec![];
    let mut twice = false;
    let mut text = String::new();
    for k in seq {
        let (line, bytes, defs) = REPEATS[*k];
        text.push_str(&format!(" .include {}\n", line));
        for (n, v) in defs {
            twice |= names.iter().any(|(m, _)| m == n);
            names.push((n, if *n == "l1" { want.len() as u8 } else { *v }));
        }
        want.extend_from_slice(bytes);
    }
    text.push_str(" .byte 1");
    want.push(1);
    for (n, v) in &names {
        text.push_str(&format!(", {}", n));
        want.push(*v);
    }
    text.push('\n');
    let p = if inner {
        ctx.put("y.s", text.as_bytes());
        ctx.put("t.s", b" .include \"y.s\"\n")
    } else {
        ctx.put("t.s", text.as_bytes())
    };
    let want = if twice { Err("a name is defined twice".to_owned()) } else { Ok(want) };
    let got = ctx.assemble_path(&p);
    ctx.states += seq.len() as u64;
    ctx.transitions += seq.len() as u64;
    ctx.validated += 1;
    match compare(&want, &got) {
        Ok(()) => pass(!seq.is_empty()),
        Err(e) => Verdict::Fail(format!("{} for {:?}", e, text)),
    }
}

pub const ODD_DIRS: &[&[u8]] = &[
    b"\xff", b"a\xffb", b"\xc3", b"\xed\xa0\x80", b"\xe2\x82", "\u{e9}".as_bytes(), "\u{1F600}".as_bytes(), "\u{fffd}".as_bytes(), b"a b", b"a\"b'", b"a\nb", b"-o", b"..x", b"a;b", b"%m%", b"{}{0}",
    b"llllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllll",
];

/// The same tree of files in a working directory with an odd name and in
/// one with a plain name.
fn directories(i: u64, ctx: &mut Ctx) -> Verdict {
    use std::os::unix::ffi::OsStrExt;
    ctx.clean();
    let mut m = Mix(i);
    let kind = m.take(6);
    let place = m.take(3);
    let below = m.take(2) == 1;
    let spelling = m.take(3);
    let fallback = m.take(2) == 1;
    let odd = std::ffi::OsStr::from_bytes(ODD_DIRS[m.take(ODD_DIRS.len())]);
    let up = m.take(2) == 1;
    let ext = ["s", "bin", "h", "png", "png", "png"][kind];
    let name = format!("{}f.{}", ["", "d/", "../"][spelling], ext);
    let data = match kind {
        0 => b" .byte 66\n".to_vec(),
        1 => vec![66],
        2 => b"#define VAL 66\n".to_vec(),
        3 => png(&Pic::solid(32, 32, [66, 0, 0, 255]), PngKind::Rgba8),
        4 => png(&Pic::solid(72, 56, [66, 0, 0, 255]), PngKind::Rgba8),
        _ => png(&Pic::new(8, 1, (0..8).map(|b| if 66u8 >> b & 1 == 1 { [0, 0, 0, 255] } else { [255; 4] }).collect()), PngKind::Rgba8),
    };
    let line = match kind {
        0 => format!(" .include \"{}\"\n", name),
        1 => format!(" .include bytes \"{}\"\n", name),
        2 => format!(" .include cpp \"{}\"\n .byte val\n", name),
        3 => format!(" .include icon \"{}\"\n", name),
        4 => format!(" .include icon \"icon.png\" speed=3, eyecatch=\"{}\"\n", name),
        _ => format!(" .include sprite \"{}\" header=\"no\"\n", name),
    };
    let main = ["t.s", "s/t.s", "../o/t.s"][place];
    let mut results = vec![];
    for dir in [odd, std::ffi::OsStr::new("plain")] {
        let top = ctx.dir.join(dir);
        let cwd = if up { top.join("w") } else { top.clone() };
        let put = |p: std::path::PathBuf, data: &[u8]| -> std::io::Result<()> {
            if let Some(d) = p.parent() {
                std::fs::create_dir_all(d)?;
            }
            std::fs::write(p, data)
        };
        let maindir = cwd.join(["", "s", "../o"][place]);
        let incdir = if below { maindir.join("sub") } else { maindir.clone() };
        let made = std::fs::create_dir_all(cwd.join("d"))
            .and_then(|_| std::fs::create_dir_all(incdir.join("d")))
            .and_then(|_| put(if fallback { cwd.join(&name) } else { incdir.join(&name) }, &data))
            .and_then(|_| put(incdir.join("icon.png"), &png(&Pic::solid(32, 32, [0, 34, 0, 255]), PngKind::Rgba8)))
            .and_then(|_| if below { put(incdir.join("u.s"), line.as_bytes()).and_then(|_| put(maindir.join("t.s"), b" .include \"sub/u.s\"\n")) } else { put(maindir.join("t.s"), line.as_bytes()) });
        if let Err(e) = made {
            return Verdict::Fail(format!("the harness cannot make its files in {:?}: {}", dir, e));
        }
        let r = ctx.cli_dir(&["assemble", main, "-o", "out.bin"], Some(&cwd));
        results.push((r.code, std::fs::read(cwd.join("out.bin")).ok(), r.err_s()));
        let _ = std::fs::remove_dir_all(&top);
        let _ = std::fs::remove_dir_all(ctx.dir.join("o"));
        let _ = std::fs::remove_file(ctx.dir.join(format!("f.{}", ext)));
    }
    let (a, b) = (&results[0], &results[1]);
    if a.0 == 0 && a.1.is_none() || b.0 != 0 {
        return Verdict::Fail(format!("{:?} in {:?}: exit status {} (plain name: {}) {} {}", line, odd, a.0, b.0, a.2, b.2));
    }
    if (a.0, &a.1) != (b.0, &b.1) {
        return Verdict::Fail(format!("{:?} (main file {}) gives another result in a directory named {:?}: exit status {}, not {}: {}", line, main, odd, a.0, b.0, a.2));
    }
    pass(true)
}

/// Directories with files of the same names.
const DIRS: [&str; 6] = ["", "p/", "q/", "r/", "p/q/", "q/p/"];

/// The path of a file in directory `to` as written in directory `from`.
fn walk(root: &std::path::Path, from: &str, to: &str, name: &str, style: usize) -> String {
    let up = "../".repeat(from.matches('/').count());
    match style {
        // as short as it gets
        0 if from == to => name.to_owned(),
        0 if to.starts_with(from) => format!("{}{}", &to[from.len()..], name),
        0 => format!("{}{}{}", up, to, name),
        1 => format!("{}{}{}", up, to, name),
        2 => format!("./{}./{}/{}", up, to, name),
        3 => format!("{}q/p/../../{}{}", up, to, name),
        _ => root.join(to).join(name).display().to_string(),
    }
}

fn same_names(ctx: &mut Ctx, seq: &[(usize, usize)], style: usize, at: usize) -> Verdict {
    ctx.clean();
    for (d, dir) in DIRS.iter().enumerate() {
        let m = d * 4;
        ctx.put(&format!("{}x.s", dir), format!(" .byte {}\n", m + 1).as_bytes());
        ctx.put(&format!("{}y.s", dir), format!(" .include \"x.s\"\n .include bytes \"x.bin\"\n .byte {}\n", m + 2).as_bytes());
        ctx.put(&format!("{}x.bin", dir), &[m as u8 + 3]);
        ctx.put(&format!("{}x.h", dir), format!("#define V{} {}\n", d, m + 4).as_bytes());
    }
    let main = ["", "q/", "q/p/"][at];
    let mut want = vec![];
    let mut text = String::new();
    let mut headers = vec![];
    for (d, kind) in seq {
        let m = *d as u8 * 4;
        let (word, name) = [("", "x.s"), ("", "y.s"), ("bytes", "x.bin"), ("cpp", "x.h")][*kind];
        text.push_str(&format!(" .include {} \"{}\"\n", word, walk(&ctx.dir, main, DIRS[*d], name, style)));
        match kind {
            0 => want.push(m + 1),
            1 => want.extend([m + 1, m + 3, m + 2]),
            2 => want.push(m + 3),
            _ => {
                if headers.contains(d) {
                    // defines its name twice
                    return pass(false);
                }
                headers.push(*d);
                text.push_str(&format!(" .byte V{}\n", d));
                want.push(m + 4);
            }
        }
    }
    ctx.put(&format!("{}t.s", main), text.as_bytes());
    let p = ctx.dir.join(format!("{}t.s", main));
    ctx.states += 1;
    ctx.transitions += seq.len() as u64;
    ctx.validated += 1;
    let got = ctx.assemble_path(&p);
    match compare(&Ok(want), &got) {
        Ok(()) => pass(true),
        Err(m) => Verdict::Fail(format!("{} for {}t.s: {:?}", m, main, text)),
    }
}

fn links(i: u64, ctx: &mut Ctx) -> Verdict {
    use std::os::unix::fs::symlink;
    ctx.clean();
    let mut m = Mix(i);
    // 0 plain, 1 a link, 2 a link to a link
    let (main_link, inc_link, dir_link, kind) = (m.take(3), m.take(3), m.take(3), m.take(3));
    let places = m.take(4);
    let absolute = m.take(2) == 1;
    let other_name = m.take(2) == 1;
    let abs_main = m.take(2) == 1;
    let beside_cwd = m.take(2) == 1;
    let root = ctx.dir.clone();
    let link = |to: &str, from: &str| {
        let p = root.join(from);
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        let up = "../".repeat(from.matches('/').count());
        let t = if absolute { root.join(to) } else { std::path::PathBuf::from(format!("{}{}", up, to)) };
        let _ = symlink(t, p);
    };
    // main program: r/t.s, which includes b/l.s, which includes its neighbour n.x
    let real_main = if main_link == 0 { "r/t.s" } else if other_name { "o/u.s" } else { "o/t.s" };
    let real_dir = if dir_link == 0 { "r/b" } else { "z/a" };
    let real_inc = format!("{}/{}", if inc_link == 0 { real_dir } else { "y/c" }, if other_name && inc_link > 0 { "k.s" } else { "l.s" });
    let (word, ext) = [("", "s"), ("bytes", "bin"), ("cpp", "h")][kind];
    let n = format!("n.{}", ext);
    let data = |mark: u8| match kind {
        0 => format!(" .byte {}\n", mark).into_bytes(),
        1 => vec![mark],
        _ => format!("#define K {}\n", mark).into_bytes(),
    };
    ctx.put(real_main, b" .byte 1\n .include \"b/l.s\"\n .byte 2\n");
    ctx.put(&real_inc, format!(" .include {} \"{}\"\n{}", word, n, if kind == 2 { " .byte k\n" } else { "" }).as_bytes());
    let _ = std::fs::create_dir_all(root.join(real_dir));
    let _ = std::fs::create_dir_all(root.join("r"));
    // links to where things really are
    for (how, to, from, via) in [(main_link, real_main, "r/t.s", "v/1"), (dir_link, real_dir, "r/b", "v/2")] {
        match how {
            0 => {}
            1 => link(to, from),
            _ => {
                link(to, via);
                link(via, from);
            }
        }
    }
    let named_inc = format!("{}/l.s", real_dir);
    match inc_link {
        0 => {}
        1 => link(&real_inc, &named_inc),
        _ => {
            link(&real_inc, "v/3");
            link("v/3", &named_inc);
        }
    }
    // the neighbour: where the file is named, and where it really is
    let mut want = None;
    if beside_cwd {
        ctx.put(&n, &data(9));
        want = Some(9);
    }
    if places & 2 != 0 {
        for d in ["y/c", "o", "o/b"] {
            ctx.put(&format!("{}/{}", d, n), &data(8));
        }
    }
    if places & 1 != 0 {
        ctx.put(&format!("{}/{}", real_dir, n), &data(7));
        want = Some(7);
    } else if std::path::Path::new(&root.join("r/b").join(&n)).exists() {
        want = Some(8);
    }
    let want = match want {
        Some(k) => Ok(vec![1, k, 2]),
        None => Err("missing".to_owned()),
    };
    let arg = if abs_main { root.join("r/t.s").display().to_string() } else { "r/t.s".into() };
    let out = root.join("out.bin");
    let r = ctx.cli_dir(&["assemble", &arg, "-o", out.to_str().unwrap()], Some(&root));
    let got = match std::fs::read(&out) {
        Ok(b) if r.code == 0 => Asm::Ok(b),
        _ if r.crashed() => Asm::Panic(r.err_s()),
        Ok(_) => Asm::Panic("failed, but wrote output".into()),
        Err(_) => Asm::Err(r.err_s()),
    };
    ctx.clean();
    ctx.states += 1;
    ctx.transitions += 2;
    ctx.validated += 1;
    match compare(&want, &got) {
        Ok(()) => pass(want.is_ok()),
        Err(e) => Verdict::Fail(format!(
            "{}; links: main {}, directory {}, file {}; include {} with the neighbour {}{}{}",
            e,
            main_link,
            dir_link,
            inc_link,
            n,
            if places & 1 != 0 { "where the file is named" } else { "" },
            if places & 2 != 0 { " where it really is" } else { "" },
            if beside_cwd { " in the working directory" } else { "" }
        )),
    }
}

fn paths(i: u64, ctx: &mut Ctx) -> Verdict {
    ctx.clean();
    let mut m = Mix(i);
    let kind = m.take(6);
    let depth = m.take(3);
    let places = m.take(8);
    let spelling = m.take(4);
    let absolute_main = m.take(2) == 1;
    let other_cwd = m.take(2) == 1;
    let root = ctx.dir.clone();
    let maindir = root.join("m/n");
    let cwd = if other_cwd { root.join("w/v") } else { maindir.clone() };
    let incdir = match depth {
        0 => maindir.clone(),
        1 => maindir.join("sub"),
        _ => maindir.join("sub/deep"),
    };
    for d in [&maindir, &cwd, &incdir] {
        let _ = std::fs::create_dir_all(d.join("d"));
    }
    let ext = ["s", "bin", "h", "png", "png", "png"][kind];
    let written = match spelling {
        0 => format!("f.{}", ext),
        1 => format!("d/f.{}", ext),
        2 => format!("../f.{}", ext),
        _ => root.join(format!("abs.{}", ext)).display().to_string(),
    };
    let made = |mark: u8| -> Vec<u8> {
        match kind {
            0 => format!(" .byte {}", mark).into_bytes(),
            1 => vec![mark],
            2 => format!("#define VAL {}\n", mark).into_bytes(),
            3 => png(&Pic::solid(32, 32, [mark, 0, 0, 255]), PngKind::Rgba8),
            4 => png(&Pic::solid(72, 56, [mark, 0, 0, 255]), PngKind::Rgba8),
            _ => png(&Pic::new(8, 1, (0..8).map(|b| if mark >> b & 1 == 1 { [0, 0, 0, 255] } else { [255; 4] }).collect()), PngKind::Rgba8),
        }
    };
    let put = |p: std::path::PathBuf, data: Vec<u8>| {
        if let Some(d) = p.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        let _ = std::fs::write(p, data);
    };
    // a decoy first, so that the real candidates win if they are the same file
    let marks = [17u8, 34, 68, 136];
    if places & 4 != 0 {
        put(maindir.join(&written), made(marks[2]));
    }
    if places & 2 != 0 {
        put(cwd.join(&written), made(marks[1]));
    }
    if places & 1 != 0 {
        put(incdir.join(&written), made(marks[0]));
    }
    if spelling == 3 {
        put(std::path::PathBuf::from(&written), made(marks[3]));
    }
    let first = incdir.join(&written);
    let second = cwd.join(&written);
    let find = |p: &std::path::Path| -> Option<u8> {
        let b = std::fs::read(p).ok()?;
        marks.iter().copied().find(|m| made(*m) == b)
    };
    let want = find(&first).or_else(|| find(&second));
    let icon = Pic::solid(32, 32, [0, 34, 0, 255]);
    put(incdir.join("icon.png"), png(&icon, PngKind::Rgba8));
    let line = match kind {
        0 => format!(" .include \"{}\"", written),
        1 => format!(" .include bytes \"{}\"", written),
        2 => format!(" .include cpp \"{}\"\n .byte val", written),
        3 => format!(" .include icon \"{}\"", written),
        4 => format!(" .include icon \"icon.png\" speed=3, eyecatch=\"{}\"", written),
        _ => format!(" .include sprite \"{}\" header=\"no\"", written),
    };
    put(incdir.join("last.s"), format!("{}\n", line).into_bytes());
    if depth == 2 {
        put(maindir.join("sub/x.s"), b" .include \"deep/last.s\"\n".to_vec());
    }
    let main = match depth {
        0 => "last.s".to_owned(),
        1 => {
            put(maindir.join("t.s"), b" .include \"sub/last.s\"\n".to_vec());
            "t.s".into()
        }
        _ => {
            put(maindir.join("t.s"), b" .include \"sub/x.s\"\n".to_vec());
            "t.s".into()
        }
    };
    let arg = if absolute_main {
        maindir.join(&main).display().to_string()
    } else if other_cwd {
        format!("../../m/n/{}", main)
    } else {
        main
    };
    let outp = root.join("out.bin");
    let r = ctx.cli_dir(&["assemble", &arg, "-o", outp.to_str().unwrap()], Some(&cwd));
    let data = std::fs::read(&outp).ok();
    let tail = format!(
        "; working directory {}, main file {}, included by {}: {}; copies next to the includer/in the working directory/next to main: {}/{}/{}",
        cwd.strip_prefix(&root).unwrap().display(), arg, incdir.strip_prefix(&root).unwrap().display(), line.trim(), places & 1, places >> 1 & 1, places >> 2 & 1
    );
    let res = match (want, r.code, data) {
        (None, 0, _) => Err("the file does not exist in any documented place, but assembly succeeds".to_owned()),
        (None, c, _) if c >= 101 => Err(format!("crash {}", r.err_s())),
        (None, _, Some(_)) => Err("failed, but wrote output".to_owned()),
        (None, _, None) => Ok(false),
        (Some(m), 0, Some(d)) => match kind {
            0..=2 => {
                if d == [m] {
                    Ok(true)
                } else {
                    Err(format!("expected the file marked {} but got {}", m, hex(&d)))
                }
            }
            3 => check_icon(&d, &Pic::solid(32, 32, [m, 0, 0, 255]), 10, None).map(|_| true),
            4 => check_icon(&d, &icon, 3, Some(&Pic::solid(72, 56, [m, 0, 0, 255]))).map(|_| true),
            _ => {
                let e = (0..8).fold(0u8, |a, b| a << 1 | (m >> b & 1));
                if d == [e] {
                    Ok(true)
                } else {
                    Err(format!("expected {:02x} but got {}", e, hex(&d)))
                }
            }
        },
        (Some(m), c, _) => Err(format!("expected the file marked {}, but exit status {}: {}", m, c, trunc(&r.err_s(), 300))),
    };
    ctx.states += 1;
    ctx.transitions += 1 + depth as u64;
    ctx.validated += 1;
    match res {
        Ok(nt) => pass(nt),
        Err(e) => Verdict::Fail(format!("{}{}", e, tail)),
    }
}
