//! A03: layout.
use crate::engine::*;
use crate::model::*;
use crate::{Check, Tier};

pub fn judge(ctx: &mut Ctx, prog: &[L]) -> Verdict {
    let want = assemble_full(prog);
    let text = print(prog);
    let got = ctx.assemble(&text);
    let ok = want.is_ok();
    match &want {
        Ok(a) => ctx.transitions += a.lines as u64,
        Err(_) => ctx.transitions += prog.len() as u64,
    }
    let want = want.map(|a| a.bytes);
    match compare(&want, &got) {
        Ok(()) => {
            if ok {
                ctx.validated += 1;
            }
            pass(ok)
        }
        Err(m) => Verdict::Fail(format!("{} for {:?}", m, trunc(&text, 2000))),
    }
}

/// Number of sequences of length 1..=d over k letters.
pub fn seq_total(k: u64, d: u32) -> u64 {
    (1..=d).map(|n| k.pow(n)).sum()
}

/// The i-th sequence, shorter first.
pub fn seq_get(k: u64, mut i: u64) -> Vec<usize> {
    let mut len = 1u32;
    while i >= k.pow(len) {
        i -= k.pow(len);
        len += 1;
    }
    let mut v = vec![];
    for _ in 0..len {
        v.push((i % k) as usize);
        i /= k;
    }
    v
}

const NL: usize = 29;

/// Instantiates an alphabet letter; `labels` counts labels defined so far.
fn letter(l: usize, labels: &mut usize, locals: &mut usize) -> Vec<L> {
    let mut lab = || {
        let s = format!("lab{}", labels);
        *labels += 1;
        s
    };
    match l {
        0 => vec![ins("nop", vec![])],
        1 => vec![ins("mov", vec![O::Imm(n(0x12)), O::Ex(n(0x1ab))])],
        2 => vec![label(&lab())],
        3 => {
            let s = lab();
            vec![L::LabelI(s, Box::new(ins("inc", vec![O::Ex(n(0x102))])))]
        }
        4 => vec![ins("jmpf", vec![O::Ex(id("lab0"))])],
        5 => vec![ins("br", vec![O::Ex(id("lab0"))])],
        6 => vec![ins("callr", vec![O::Ex(id("lab1"))])],
        7 => vec![L::Byte(vec![Bv::E(n(1)), bstr("ab"), Bv::E(n(255))])],
        8 => vec![L::Word(vec![id("lab0"), n(0x1234)])],
        9 => vec![L::Org(5)],
        10 => vec![L::Org(0)],
        11 => vec![L::Org(11)],
        12 => vec![L::Cnop(n(0), n(4))],
        13 => vec![L::Cnop(n(3), n(8))],
        14 => vec![L::Text(3, b"T".to_vec(), "T".into())],
        15 => vec![L::Str(4, b"S".to_vec(), "S".into())],
        16 => {
            let s = format!(".loc{}", locals);
            *locals += 1;
            vec![L::Dot(s.clone()), ins("bz", vec![O::Ex(id(&s))])]
        }
        17 => vec![ins("call", vec![O::Ex(bin('+', id("lab0"), n(2)))])],
        18 => vec![L::Byte(vec![Bv::E(un('<', id("lab0"))), Bv::E(un('>', id("lab0")))])],
        19 => {
            let s = format!("al{}", labels);
            *labels += 1;
            vec![L::Alias(s.clone(), bin('+', id("lab0"), n(1))), L::Word(vec![id(&s)])]
        }
        20 => vec![L::Org(0xfffc)],
        21 => vec![L::Cnop(n(0), n(1))],
        22 => vec![L::Byte(vec![bstr("")])],
        23 => vec![L::Str(0, vec![], "".into())],
        24 => vec![L::Nothing("; nothing here".into())],
        25 => vec![L::Byte(vec![bstr("é€"), Bv::E(n(2))])],
        26 => vec![L::Text(6, "é".as_bytes().to_vec(), "é".into())],
        27 => vec![L::Str(7, "\u{1D11E}".as_bytes().to_vec(), "\u{1D11E}".into())],
        _ => vec![ins("dbnz", vec![O::Ind(1), O::Ex(id("lab1"))])],
    }
}

fn build(seq: &[usize], alphabet: &[usize], start: Option<i64>) -> Vec<L> {
    let mut labels = 0;
    let mut locals = 0;
    let mut p = vec![];
    if let Some(o) = start {
        p.push(L::Org(o));
    }
    for l in seq {
        p.extend(letter(alphabet[*l], &mut labels, &mut locals));
    }
    // observe every label
    let names: Vec<E> = p
        .iter()
        .filter_map(|l| match l {
            L::Label(s) | L::LabelI(s, _) => Some(id(s)),
            _ => None,
        })
        .collect();
    if !names.is_empty() {
        p.push(L::Org(0x40));
        p.push(L::Word(names));
    }
    p
}

pub fn a03(t: Tier) -> Check {
    let mut spaces = vec![];
    let full: Vec<usize> = (0..NL).collect();
    let d = t.q(4u32, 5);
    let k = NL as u64;
    let f2 = full.clone();
    spaces.push(Space::new(
        "histories",
        "every sequence of 1..4 (thorough 1..5) statements over 29 statement kinds (instructions of each size, labels, references both ways, data, strings of one- and multi-byte characters, .org up/down/top, .cnop, .text, .string, local labels, aliases, empty statements), then a table of all labels; non-trivial: a program that assembles",
        seq_total(k, d),
        move |i, ctx| {
            let s = seq_get(k, i);
            ctx.states += 1;
            judge(ctx, &build(&s, &f2, None))
        },
    ));
    let small = [0usize, 2, 4, 7, 9, 10, 13, 14];
    let d2 = t.q(6u32, 7);
    spaces.push(Space::new(
        "deep-histories",
        "every sequence of up to 6 (thorough 7) statements over 8 kinds: nop, label, far jump to the first label, bytes, .org up, .org 0, .cnop, .text",
        seq_total(8, d2),
        move |i, ctx| {
            let s = seq_get(8, i);
            ctx.states += 1;
            judge(ctx, &build(&s, &small, None))
        },
    ));
    let starts: &'static [i64] = &[
        1, 0xfd, 0xfe, 0xff, 0x100, 0x1ff, 0xffe, 0xfff, 0x1000, 0x3fff, 0x7ffd, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xbfff, 0xefff,
        0xf000, 0xff00, 0xfff0, 0xfff8,
    ];
    let f3 = full.clone();
    let ds = t.q(2u32, 3);
    spaces.push(Space::new(
        "positions",
        "every sequence of up to 2 (thorough 3) statements at 21 places of the 64K address space",
        seq_total(k, ds) * starts.len() as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let st = starts[m.take(starts.len())];
            ctx.states += 1;
            judge(ctx, &build(&seq_get(k, m.0), &f3, Some(st)))
        },
    ));
    // .cnop arithmetic
    let pmax = t.q(70i64, 300);
    spaces.push(Space::new(
        "cnop",
        ".cnop a, m for all a 0..20 and m 1..40 (and powers of two to $4000) from every position of a range: the label after it and the byte written there",
        21 * 48,
        move |i, ctx| {
            let mut m = Mix(i);
            let a = m.take(21) as i64;
            let k = m.take(48);
            let mm = if k < 40 { k as i64 + 1 } else { 1i64 << (k - 40 + 7) };
            let mut p = vec![];
            let mut names = vec![];
            for q in 0..pmax {
                let s = format!("c{}", q);
                p.push(L::Org(q));
                p.push(L::Cnop(n(a), n(mm)));
                p.push(label(&s));
                names.push(id(&s));
            }
            p.push(ins("nop", vec![]));
            p.push(L::Byte(vec![Bv::E(n(0x77))]));
            p.push(L::Org(0));
            p.push(L::Word(names));
            judge(ctx, &p)
        },
    ));
    spaces.push(crate::a_many::values(t));
    // sizes
    let sizes: Vec<usize> = {
        let mut v: Vec<usize> = (0..130).collect();
        v.extend([255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097]);
        if t == Tier::Thorough {
            v.extend(130..600);
            v.extend([16384, 32768, 65534, 65535]);
        }
        v
    };
    let ns = sizes.len() as u64;
    spaces.push(Space::new(
        "sizes",
        "programs of every length 0..130 (and larger ones up to 4097, thorough 65535) of one repeated statement, a label first, in the middle and last",
        ns * 5,
        move |i, ctx| {
            let mut m = Mix(i);
            let sz = sizes[m.take(ns as usize)];
            let kind = m.take(5);
            let unit: L = match kind {
                0 => ins("nop", vec![]),
                1 => L::Byte(vec![Bv::E(n(0x5a))]),
                2 => ins("jmpf", vec![O::Ex(id("mid"))]),
                3 => L::Word(vec![id("last")]),
                _ => L::Str(2, b"xy".to_vec(), "xy".into()),
            };
            let w = match kind {
                0 | 1 => 1,
                2 => 3,
                _ => 2,
            };
            if sz * w > 65000 && w > 1 {
                return pass(false);
            }
            let mut p = vec![label("first")];
            for j in 0..sz {
                if j == sz / 2 {
                    p.push(label("mid"));
                }
                p.push(unit.clone());
            }
            if sz == 0 {
                p.push(label("mid"));
            }
            p.push(label("last"));
            if sz < 65000 {
                p.push(L::Word(vec![id("first"), id("mid"), id("last")]));
            }
            judge(ctx, &p)
        },
    ).limit(60.0));
    Check {
        level: "model_checking",
        spaces,
        assumptions: vec!["programs are generated as structures and printed; the reference assembler never parses".into()],
    }
}
