//! A04 (names), A05 (expressions), A06 (macros).
use crate::a_layout::{judge, seq_get, seq_total};
use crate::engine::*;
use crate::isa::{self, FORMS};
use crate::model::*;
use crate::{Check, Tier};

/// Sequences of length 0..=d over k letters.
pub fn seq0_total(k: u64, d: u32) -> u64 {
    1 + seq_total(k, d)
}
pub fn seq0_get(k: u64, i: u64) -> Vec<usize> {
    if i == 0 {
        vec![]
    } else {
        seq_get(k, i - 1)
    }
}

pub fn dot(s: &str) -> L {
    L::Dot(s.to_owned())
}
pub fn word1(s: &str) -> L {
    L::Word(vec![id(s)])
}
pub fn equ(s: &str, e: E) -> L {
    L::Alias(s.to_owned(), e)
}
pub fn var(s: &str, e: E) -> L {
    L::Var(s.to_owned(), e)
}

fn a04_letter(l: usize) -> L {
    match l {
        0 => label("a"),
        1 => label("A"),
        2 => label("b"),
        3 => label(".x"),
        4 => dot(".X"),
        5 => label(".y"),
        6 => word1("a"),
        7 => word1("B"),
        8 => word1(".x"),
        9 => word1(".Y"),
        10 => equ("v", n(5)),
        11 => var("V", bin('+', id("a"), n(1))),
        12 => equ("w", id("v")),
        13 => L::Word(vec![id("v"), id("W")]),
        14 => ins("br", vec![O::Ex(id(".x"))]),
        _ => equ("a", n(3)),
    }
}

fn name_pool() -> Vec<String> {
    let first = "abcefnoqrxyzABCEFNOXZ_";
    let later = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ$0123456789_.";
    let mut v: Vec<String> = vec![];
    for c in first.chars() {
        v.push(c.to_string());
        for d in later.chars() {
            v.push(format!("{}{}", c, d));
        }
    }
    for s in [
        "label_0130", "a.b.c", "a..b", "x$", "x$$y", "equx", "byte", "word", "org", "macro", "end", "include", "r0", "R1x", "_", "__",
        "a_1", "A_1x", "zz9", "ZZ9z", "acc1", "nopnop", "x0F", "b01", "o7", "d1", "h1", "asm", "icon", "sprite", "cpp", "type", "speed",
    ] {
        v.push(s.to_owned());
    }
    let mut out: Vec<String> = v
        .into_iter()
        .filter(|s| {
            let l = s.to_lowercase();
            !FORMS.iter().any(|f| f.mn == l) && l != "equ"
        })
        .collect();
    out.sort();
    out.dedup();
    out
}

pub fn a04(t: Tier) -> Check {
    let mut spaces = vec![];
    let d = t.q(5u32, 6);
    spaces.push(Space::new(
        "scopes",
        "every sequence of 1..5 (thorough 1..6) statements over 16: labels a, A, b, local labels .x (both spellings), .y, uses of each in data and branches, aliases/variables v, V (from a label), w (from v), a (clashing); non-trivial: a program that assembles",
        seq_total(16, d),
        move |i, ctx| {
            let p: Vec<L> = seq_get(16, i).into_iter().map(a04_letter).collect();
            ctx.states += 1;
            judge(ctx, &p)
        },
    ));
    let third = t.q(5u64, 85);
    spaces.push(Space::new(
        "local-scopes",
        "three consecutive scopes, each with up to 3 (quick: third up to 1) of {define .x, use .x, define .y, use .y} in every order, every use checked by value",
        85 * 85 * third,
        move |i, ctx| {
            let mut m = Mix(i);
            let s = [m.take(85), m.take(85), m.take(third as usize)];
            let mut p = vec![];
            for (k, x) in s.iter().enumerate() {
                if k > 0 {
                    p.push(label(&format!("g{}", k)));
                }
                for l in seq0_get(4, *x as u64) {
                    p.push(match l {
                        0 => dot(".x"),
                        1 => word1(".x"),
                        2 => label(".Y"),
                        _ => ins("bz", vec![O::Ex(id(".y"))]),
                    });
                }
                p.push(ins("nop", vec![]));
            }
            ctx.states += 1;
            judge(ctx, &p)
        },
    ));
    let nv = t.q(4usize, 5);
    let rhs = nv + 3;
    spaces.push(Space::new(
        "definitions",
        "4 (thorough 5) aliases/variables in order, each defined from a constant, an earlier label, a later label or any of the variables (earlier, later or itself), each written with equ or =, all used afterwards and before",
        (rhs as u64).pow(nv as u32) * (1 << nv),
        move |i, ctx| {
            let mut m = Mix(i);
            let mut p = vec![label("early"), L::Byte(vec![Bv::E(un('<', id("v0")))]), ins("nop", vec![])];
            for k in 0..nv {
                let r = m.take(rhs);
                let e = match r {
                    0 => n(7),
                    1 => id("early"),
                    2 => id("late"),
                    r => bin('+', id(&format!("V{}", r - 3)), n(1)),
                };
                let name = format!("v{}", k);
                p.push(if m.take(2) == 0 { equ(&name, e) } else { var(&name, e) });
            }
            p.push(L::Word((0..nv).map(|k| id(&format!("v{}", k))).collect()));
            p.push(label("late"));
            p.push(ins("nop", vec![]));
            ctx.states += 1;
            judge(ctx, &p)
        },
    ));
    let pool = name_pool();
    let np = pool.len();
    let partners: Vec<String> = ["a", "A", "aA", "b0", "x.", "_", "zz9", "F_", "e$"].iter().map(|s| s.to_string()).collect();
    let nq = partners.len();
    let pl = pool.clone();
    spaces.push(Space::new(
        "spelling",
        "every name of one or two characters over the identifier alphabet (and longer ones): defined as label, alias, variable or local label, used with its letter case swapped, next to each of 9 other names (equal ignoring case means rejection)",
        (np * nq * 4) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let a = &pl[m.take(np)];
            let b = &partners[m.take(nq)];
            let kind = m.take(4);
            let swap = |s: &str| -> String {
                s.chars()
                    .map(|c| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() })
                    .collect()
            };
            let mut p = vec![];
            if kind == 3 {
                let a = format!(".{}", a);
                let b = format!(".{}", b);
                p.push(label(&a));
                p.push(ins("nop", vec![]));
                p.push(label(&b));
                p.push(L::Word(vec![id(&swap(&a)), id(&swap(&b))]));
                // `.byte` and friends cannot be labels on their own line but `name:` can
            } else {
                p.push(label(b));
                p.push(ins("nop", vec![]));
                p.push(match kind {
                    0 => label(a),
                    1 => equ(a, n(0x1234)),
                    _ => var(a, bin('+', n(0x77), n(1))),
                });
                p.push(L::Word(vec![id(&swap(a)), id(&swap(b))]));
            }
            ctx.states += 1;
            judge(ctx, &p)
        },
    ));
    // undefined names everywhere an expression can stand
    spaces.push(Space::new(
        "undefined",
        "every operand of every instruction form, every data directive and definition with an undefined name, a name defined only in another scope, and a defined one",
        (FORMS.len() * 3 * 4 + 4 * 6) as u64,
        move |i, ctx| {
            let i = i as usize;
            let names = ["here", "nowhere", ".far", ".near"];
            let nm = names[i % 4];
            let j = i / 4;
            let mut p = vec![label("g0"), dot(".far"), ins("nop", vec![]), label("here"), dot(".near")];
            if j < FORMS.len() * 3 {
                let f = &FORMS[j / 3];
                let which = j % 3;
                if which >= f.ops.len() {
                    return pass(false);
                }
                let ops: Vec<O> = f
                    .ops
                    .bytes()
                    .enumerate()
                    .map(|(k, c)| match c {
                        b'I' => O::Imm(if k == which { id(nm) } else { n(1) }),
                        b'N' => O::Ind(1),
                        _ => O::Ex(if k == which { id(nm) } else { n(1) }),
                    })
                    .collect();
                p.push(ins(f.mn, ops));
            } else {
                let k = j - FORMS.len() * 3;
                match k {
                    0 => p.push(L::Byte(vec![Bv::E(n(1)), Bv::E(id(nm))])),
                    1 => p.push(L::Word(vec![n(1), id(nm)])),
                    2 => p.push(equ("al", id(nm))),
                    3 => p.push(var("al", bin('-', n(1), id(nm)))),
                    4 => {
                        p.push(equ("al", bin('*', id(nm), n(2))));
                        p.push(word1("al"))
                    }
                    _ => p.push(L::Word(vec![un('>', par(bin('&', id(nm), n(1))))])),
                }
            }
            judge(ctx, &p)
        },
    ));
    spaces.push(crate::a_many::names(t));
    Check {
        level: "model_checking",
        spaces,
        assumptions: vec!["identifiers are [A-Za-z_][A-Za-z0-9_$.]*; names equal to mnemonics are not used as labels".into()],
    }
}

// ---------------------------------------------------------------- A05

/// Reference parser for a token sequence: `v` operand, parentheses, operators.
fn parse_toks(t: &[&str]) -> Option<E> {
    fn binding(op: &str) -> u8 {
        match op {
            "&" | "|" | "^" => 1,
            "+" | "-" => 2,
            "*" | "/" => 3,
            _ => 0,
        }
    }
    fn prefix(t: &[&str], p: &mut usize) -> Option<E> {
        let x = *t.get(*p)?;
        *p += 1;
        match x {
            "(" => {
                let e = level(t, p, 1)?;
                if t.get(*p) != Some(&")") {
                    return None;
                }
                *p += 1;
                Some(par(e))
            }
            "-" | ">" | "<" => Some(un(x.chars().next().unwrap(), prefix(t, p)?)),
            ")" | "*" | "/" | "+" | "&" | "|" | "^" => None,
            v => Some(match v.parse::<i64>() {
                Ok(k) => n(k),
                Err(_) => id(v),
            }),
        }
    }
    fn level(t: &[&str], p: &mut usize, min: u8) -> Option<E> {
        if min == 4 {
            return prefix(t, p);
        }
        let mut a = level(t, p, min + 1)?;
        while let Some(op) = t.get(*p) {
            if binding(op) != min {
                break;
            }
            *p += 1;
            let b = level(t, p, min + 1)?;
            a = bin(op.chars().next().unwrap(), a, b);
        }
        Some(a)
    }
    let mut p = 0;
    let e = level(t, &mut p, 1)?;
    if p == t.len() {
        Some(e)
    } else {
        None
    }
}

fn a05_toks(ctx: &mut Ctx, toks: &[&str], tight: bool) -> Verdict {
    let mut text = String::new();
    for (i, t) in toks.iter().enumerate() {
        let alnum = |s: &str| s.chars().all(|c| c.is_ascii_alphanumeric());
        if i > 0 && (!tight || (alnum(t) && alnum(toks[i - 1]))) {
            text.push(' ');
        }
        text.push_str(t);
    }
    let src = format!("x equ 300\n .word 9, {}\n", text);
    let want = match parse_toks(toks) {
        None => Err("malformed expression".to_owned()),
        Some(e) => assemble(&[equ("x", n(300)), L::Word(vec![n(9), e])]),
    };
    let got = ctx.assemble(&src);
    match compare(&want, &got) {
        Ok(()) => pass(want.is_ok()),
        Err(m) => Verdict::Fail(format!("{} for `{}`", m, text)),
    }
}

const OPS: [char; 7] = ['*', '/', '+', '-', '&', '|', '^'];

fn wide() -> Vec<i64> {
    vec![
        0, 1, 2, 3, 7, 10, 127, 128, 255, 256, 4095, 32767, 32768, 46340, 46341, 65535, 65536, 0x55aa55, 0x12345678, 0x3fffffff,
        0x40000000, 0x7ffffffe, 0x7fffffff, -1, -2, -3, -128, -255, -256, -32768, -65536, -0x12345678, -0x7fffffff,
    ]
}

/// Emits all 32 bits of a value through four bytes, and rejects what the model rejects.
fn observe(e: E) -> L {
    let lo = bin('&', par(e.clone()), n(65535));
    let hi = bin('&', bin('/', par(e), n(65536)), n(65535));
    L::Word(vec![lo, hi])
}

pub fn a05(t: Tier) -> Check {
    let mut spaces = vec![];
    let toks: [&str; 8] = ["7", "x", "(", ")", "-", "*", "&", "<"];
    let d = t.q(6u32, 7);
    spaces.push(Space::new(
        "token-strings",
        "every sequence of 1..6 (thorough 7) tokens over {7, x, (, ), -, *, &, <}: well-formed ones have the value of an independent parser, others are rejected",
        seq_total(8, d),
        move |i, ctx| {
            let v: Vec<&str> = seq_get(8, i).into_iter().map(|k| toks[k]).collect();
            a05_toks(ctx, &v, i % 2 == 0)
        },
    ));
    let all: [&str; 14] = ["3", "x", "8", "(", ")", "-", ">", "<", "*", "/", "+", "&", "|", "^"];
    let d = t.q(4u32, 5);
    spaces.push(Space::new(
        "token-strings-all",
        "every sequence of 1..4 (thorough 5) tokens over all 14 kinds (three operands, parentheses, the nine operators)",
        seq_total(14, d),
        move |i, ctx| {
            let v: Vec<&str> = seq_get(14, i).into_iter().map(|k| all[k]).collect();
            a05_toks(ctx, &v, i % 2 == 1)
        },
    ));
    let vals = wide();
    let nv = vals.len();
    let w = vals.clone();
    spaces.push(Space::new(
        "values",
        "every binary operation on every pair of 33 edge values (up to the 32-bit limits), bare and under each prefix operator, all 32 bits of the result observed; overflow and division by zero rejected",
        (nv * nv * 7 * 4) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let a = n(w[m.take(nv)]);
            let b = n(w[m.take(nv)]);
            let e = bin(OPS[m.take(7)], a, b);
            let e = match m.take(4) {
                0 => e,
                1 => un('-', par(e)),
                2 => un('>', par(e)),
                _ => un('<', par(e)),
            };
            judge(ctx, &[observe(e)])
        },
    ));
    let v3: Vec<i64> = t.q(vec![0, 1, 5, 300, -7], vec![0, 1, 3, 5, 10, 255, 300, 4097, -1, -7, -300]);
    let n3 = v3.len();
    spaces.push(Space::new(
        "triples",
        "a op b op c op d without parentheses for every triple of operators and every choice of 5 (thorough 11) values, plus every parenthesisation of three operators",
        (n3.pow(4) * 343 * 5) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let v: Vec<E> = (0..4).map(|_| n(v3[m.take(n3)])).collect();
            let o: Vec<char> = (0..3).map(|_| OPS[m.take(7)]).collect();
            let shape = m.take(5);
            let (a, b, c, d) = (v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone());
            // shape 0 is parsed from the flat token string
            let e = match shape {
                0 => {
                    let t: Vec<String> = (0..4)
                        .flat_map(|k| {
                            let mut r = vec![];
                            if k > 0 {
                                r.push(o[k - 1].to_string());
                            }
                            let s = v[k].show();
                            if let Some(x) = s.strip_prefix('-') {
                                r.push("-".into());
                                r.push(x.to_owned());
                            } else {
                                r.push(s);
                            }
                            r
                        })
                        .collect();
                    let t: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
                    parse_toks(&t).unwrap()
                }
                1 => bin(o[0], a, par(bin(o[1], b, par(bin(o[2], c, d))))),
                2 => bin(o[1], par(bin(o[0], a, b)), par(bin(o[2], c, d))),
                3 => bin(o[0], a, par(bin(o[2], par(bin(o[1], b, c)), d))),
                _ => bin(o[2], par(bin(o[0], a, par(bin(o[1], b, c)))), d),
            };
            judge(ctx, &[observe(e)])
        },
    ));
    // places
    let mut exprs: Vec<E> = vec![];
    let pv = [0i64, 1, 2, 9, 300, 70000, -3];
    for a in pv {
        for b in pv {
            for o in OPS {
                exprs.push(bin(o, n(a), n(b)));
            }
        }
    }
    for o in OPS {
        for o2 in OPS {
            exprs.push(bin(o2, bin(o, id("here"), n(3)), id("late")));
            exprs.push(bin(o, un('-', id("late")), par(bin(o2, n(4), id("here")))));
        }
    }
    for o in ['-', '>', '<'] {
        exprs.push(un(o, id("late")));
        exprs.push(un(o, par(bin('*', id("late"), n(20)))));
        exprs.push(par(un(o, un('-', id("late")))));
    }
    exprs.push(bin('/', id("late"), bin('-', id("here"), id("here"))));
    exprs.push(bin('/', n(4), par(bin('-', n(2), n(2)))));
    exprs.push(bin('/', bin('/', n(4), n(0)), n(0)));
    let ne = exprs.len();
    spaces.push(Space::new(
        "places",
        "450 expressions (all operators on 7 values, labels, nested, division by zero) in 16 places: data, words, every operand kind, aliases, variables, macro arguments (alone, immediate, inside an expression), .cnop; the same value or rejection everywhere",
        (ne * 16) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let e = exprs[m.take(ne)].clone();
            let place = m.take(16);
            let mut p = vec![L::Org(0x40), label("here"), ins("nop", vec![])];
            let mac = |name: &str, body: L| L::Macro(name.to_owned(), vec!["a".into()], vec![body]);
            let arg = || E::Arg("a".into());
            match place {
                0 => p.push(L::Byte(vec![Bv::E(n(1)), Bv::E(e)])),
                1 => p.push(L::Word(vec![e, n(2)])),
                2 => p.push(ins("mov", vec![O::Imm(e), O::Ex(n(3))])),
                3 => p.push(ins("ld", vec![O::Ex(e)])),
                4 => p.push(ins("jmpf", vec![O::Ex(e)])),
                5 => p.push(ins("bp", vec![O::Ex(n(1)), O::Ex(e), O::Ex(id("here"))])),
                6 => p.push(ins("br", vec![O::Ex(e)])),
                7 => p.push(ins("brf", vec![O::Ex(e)])),
                8 => p.push(ins("call", vec![O::Ex(e)])),
                9 => {
                    p.push(equ("k", e));
                    p.push(word1("k"));
                }
                10 => {
                    p.push(var("k", e));
                    p.push(word1("k"));
                }
                11 => {
                    p.push(mac("mm", ins("callf", vec![O::Ex(arg())])));
                    p.push(ins("mm", vec![O::Ex(e)]));
                }
                12 => {
                    p.push(mac("mm", ins("add", vec![O::Ex(arg())])));
                    p.push(ins("mm", vec![O::Imm(e)]));
                }
                13 => {
                    p.push(mac("mm", ins("add", vec![O::Imm(bin('-', n(90), arg()))])));
                    p.push(ins("mm", vec![O::Ex(e)]));
                }
                14 => {
                    p.push(mac("mm", ins("jmpf", vec![O::Ex(bin('*', arg(), n(3)))])));
                    p.push(ins("mm", vec![O::Ex(e)]));
                }
                _ => p.push(ins("be", vec![O::Imm(e), O::Ex(id("here"))])),
            }
            p.push(label("late"));
            judge(ctx, &p)
        },
    ));
    // depth
    let dmax = t.q(60u64, 90);
    spaces.push(Space::new(
        "depth",
        "chains of 1..60 (thorough 90) operators (each operator, left to right), that many nested parentheses and that many prefix operators",
        dmax * 12,
        move |i, ctx| {
            let mut m = Mix(i);
            let k = m.take(dmax as usize) + 1;
            let kind = m.take(12);
            let e = match kind {
                0..=6 => {
                    let mut e = n(if kind == 1 { 0x7fffffff } else { 1000 });
                    for j in 0..k {
                        e = bin(OPS[kind], e, n(if kind == 0 { 1 } else { (j % 3 + 2) as i64 }));
                    }
                    e
                }
                7 => {
                    let mut e = n(5);
                    for j in 0..k {
                        e = bin(['-', '+'][j % 2], n(j as i64), par(e));
                    }
                    e
                }
                8 => (0..k).fold(n(77), |e, _| un('-', e)),
                9 => (0..k).fold(n(0x1234), |e, j| if j % 2 == 0 { un('<', e) } else { un('-', e) }),
                10 => (0..k).fold(n(77), |e, _| par(e)),
                _ => {
                    // precedence staircase
                    let mut e = n(2);
                    for j in 0..k {
                        e = bin(OPS[(j * 5 + 2) % 7], e, n((j % 4 + 1) as i64));
                    }
                    e
                }
            };
            judge(ctx, &[observe(e)])
        },
    ));
    Check {
        level: "exploration",
        spaces,
        assumptions: vec!["values are 32-bit signed; expressions of more than 400 tokens are outside (they are rejected cleanly, see D01)".into()],
    }
}

// ---------------------------------------------------------------- A06

fn arg(s: &str) -> E {
    E::Arg(s.to_owned())
}
fn hyg(s: &str) -> E {
    E::Hyg(s.to_owned())
}

fn kp(l: usize) -> L {
    match l {
        0 => ins("nop", vec![]),
        1 => ins("ld", vec![O::Ex(arg("x"))]),
        2 => ins("mov", vec![O::Imm(arg("X")), O::Ex(n(0x10))]),
        3 => ins("mov", vec![O::Ex(arg("x")), O::Ex(n(0x10))]),
        4 => ins("jmpf", vec![O::Ex(bin('*', arg("x"), n(2)))]),
        5 => label("l%"),
        6 => ins("br", vec![O::Ex(hyg("L"))]),
        7 => dot(".l%"),
        8 => ins("bz", vec![O::Ex(hyg(".l"))]),
        9 => ins("br", vec![O::Ex(id("done"))]),
        10 => label("r"),
        _ => ins("q", vec![O::Ex(arg("x")), O::Ex(arg("x"))]),
    }
}
fn kq(l: usize) -> L {
    match l {
        0 => ins("p", vec![O::Ex(arg("y"))]),
        1 => ins("P", vec![O::Imm(arg("x"))]),
        2 => ins("p", vec![O::Ex(bin('*', arg("x"), n(2)))]),
        3 => label("l%"),
        4 => ins("p", vec![O::Ex(hyg("l"))]),
        5 => ins("bnz", vec![O::Ex(hyg("l"))]),
        6 => ins("add", vec![O::Ex(arg("x"))]),
        7 => ins("be", vec![O::Ex(arg("y")), O::Ex(id("done"))]),
        _ => ins("p", vec![O::Ind(1)]),
    }
}
fn km(l: usize) -> L {
    match l {
        0 => ins("p", vec![O::Ex(n(5))]),
        1 => ins("p", vec![O::Imm(n(5))]),
        2 => ins("p", vec![O::Ind(2)]),
        3 => ins("p", vec![O::Ex(id("done"))]),
        4 => ins("q", vec![O::Ex(bin('+', n(1), n(2))), O::Imm(n(7))]),
        5 => ins("Q", vec![O::Ex(id("done")), O::Ex(n(3))]),
        6 => label("l"),
        7 => ins("p", vec![O::Ex(id("l"))]),
        8 => dot(".k"),
        9 => ins("p", vec![O::Ex(id(".k"))]),
        10 => L::LabelI("lab".into(), Box::new(ins("p", vec![O::Ex(n(1))]))),
        11 => ins("br", vec![O::Ex(hyg("l"))]),
        _ => ins("p", vec![]),
    }
}

fn a06_prog(p: &[usize], q: &[usize], m: &[usize]) -> Vec<L> {
    let mut v = vec![L::Macro("p".into(), vec!["x".into()], p.iter().map(|l| kp(*l)).collect())];
    v.extend(m.iter().map(|l| km(*l)));
    // a macro may be used before its definition
    v.push(L::Macro("q".into(), vec!["x".into(), "y".into()], q.iter().map(|l| kq(*l)).collect()));
    v.push(label("done"));
    v.push(ins("nop", vec![]));
    v
}

/// Like `judge`, with the program distributed over files.
fn judge_split(ctx: &mut Ctx, prog: &[L], mode: usize) -> Verdict {
    let want = assemble_full(prog);
    ctx.transitions += prog.len() as u64;
    let ok = want.is_ok();
    let want = want.map(|a| a.bytes);
    let mut main = String::new();
    let mut defs = String::new();
    let mut told = String::new();
    let mut seen: Vec<String> = vec![];
    for (k, l) in prog.iter().enumerate() {
        let text = format!("{}\n", show(l));
        let is_macro = matches!(l, L::Macro(..));
        let own = match mode {
            0 => {
                let n = seen.iter().position(|t| *t == text).unwrap_or_else(|| {
                    seen.push(text.clone());
                    seen.len() - 1
                });
                Some(format!("f{}.s", n))
            }
            1 => Some(format!("g{}.s", k)),
            2 => Some(format!("d{}/l.s", k)),
            3 => None,
            _ if k % 2 == 1 => Some(format!("h{}.s", k)),
            _ => None,
        };
        match own {
            Some(name) => {
                ctx.put(&name, text.as_bytes());
                told.push_str(&format!("{}: {:?} ", name, text));
                main.push_str(&format!(" .include \"{}\"\n", name));
            }
            None if mode == 3 && is_macro => defs.push_str(&text),
            None => main.push_str(&text),
        }
    }
    if mode == 3 {
        ctx.put("defs.s", defs.as_bytes());
        ctx.put("sub/main.s", main.as_bytes());
        told = format!("defs.s: {:?} sub/main.s: {:?} ", defs, main);
        main = " .include \"sub/main.s\"\n .include \"defs.s\"\n".into();
    }
    match compare(&want, &ctx.assemble(&main)) {
        Ok(()) => {
            if ok {
                ctx.validated += 1;
            }
            pass(ok)
        }
        Err(m) => Verdict::Fail(format!("{} for {:?} {}", m, main, trunc(&told, 2000))),
    }
}

pub fn a06(t: Tier) -> Check {
    let mut spaces = vec![];
    let mut prog = |name: &str, a: u32, b: u32, c: u32| {
        let (na, nb, nc) = (seq0_total(12, a), seq0_total(9, b), seq0_total(13, c));
        spaces.push(Space::new(
            name,
            &format!("macro p(x) with every body of up to {} statements (12 kinds: instructions using the argument as operand, immediate, in an expression; hygienic labels and uses, plain labels, a call of q), macro q(x,y) with every body of up to {} (9 kinds: calls of p with arguments of every kind, hygienic labels), and every main program of up to {} statements (13 kinds)", a, b, c),
            na * nb * nc,
            move |i, ctx| {
                let p = seq0_get(12, i % na);
                let q = seq0_get(9, i / na % nb);
                let m = seq0_get(13, i / na / nb);
                ctx.states += 1;
                judge(ctx, &a06_prog(&p, &q, &m))
            },
        ));
    };
    if t == Tier::Quick {
        prog("programs-p", 2, 1, 2);
        prog("programs-q", 1, 2, 2);
    } else {
        prog("programs-p", 3, 1, 2);
        prog("programs-q", 2, 2, 2);
        prog("programs-m", 1, 1, 3);
    }
    // every instruction form through arguments
    let nf = FORMS.len() as u64;
    let shapes = 18usize;
    let per: Vec<u64> = FORMS.iter().map(|f| (shapes as u64).pow(f.ops.len() as u32)).collect();
    let starts: Vec<u64> = per.iter().scan(0, |a, n| { *a += n; Some(*a - n) }).collect();
    let total: u64 = per.iter().sum();
    spaces.push(Space::new(
        "operands",
        &format!("all {} instruction forms, each operand in {} ways: a macro argument of every kind (immediate, number, indirection, label) written as %a, #%a or %a + 1, or written out in the macro body (immediate, immediate expression of an argument, number, indirection, label, hygienic label); directly, in a macro called by another that passes its arguments on, and with the operands written in the call of a second macro", nf, shapes),
        total * 3,
        move |i, ctx| {
            let mode = i % 3;
            let i = i / 3;
            let k = starts.partition_point(|s| *s <= i) - 1;
            let f = &FORMS[k];
            let mut m = Mix(i - starts[k]);
            let k = f.ops.len();
            let mut args = vec![];
            let mut ops = vec![];
            let params: Vec<String> = (0..k).map(|j| format!("a{}", j)).collect();
            let mut hygienic = false;
            for j in 0..k {
                let w = m.take(shapes);
                let a = arg(&params[j]);
                let (x, y, r) = (n(3 + j as i64), n(4 + j as i64), O::Ind(j as u8 + 1));
                let (given, op) = if w < 12 {
                    let given = match w / 3 {
                        0 => O::Imm(x),
                        1 => O::Ex(y),
                        2 => r,
                        _ => O::Ex(id("here")),
                    };
                    let op = match w % 3 {
                        0 => O::Ex(a),
                        1 => O::Imm(a),
                        _ => O::Ex(bin('+', a, n(1))),
                    };
                    (given, op)
                } else {
                    let op = match w {
                        12 => O::Imm(x),
                        13 => O::Imm(bin('*', a, n(2))),
                        14 => O::Ex(y),
                        15 => r,
                        16 => O::Ex(id("here")),
                        _ => {
                            hygienic = true;
                            O::Ex(hyg("l"))
                        }
                    };
                    (O::Ex(n(7 + j as i64)), op)
                };
                args.push(given);
                ops.push(op);
            }
            let pass_on: Vec<O> = params.iter().map(|s| O::Ex(arg(s))).collect();
            let def = |name: &str, body: Vec<L>| L::Macro(name.into(), params.clone(), body);
            let with_label = |l: L| if hygienic { vec![label("l%"), l] } else { vec![l] };
            let mut p = match mode {
                0 => vec![def("outer", with_label(ins(f.mn, ops)))],
                1 => vec![def("inner", with_label(ins(f.mn, ops))), def("outer", vec![ins("inner", pass_on)])],
                _ => vec![def("inner", vec![ins(f.mn, pass_on)]), def("outer", with_label(ins("inner", ops)))],
            };
            p.push(label("here"));
            p.push(ins("outer", args));
            judge(ctx, &p)
        },
    ));
    // arguments are units
    spaces.push(Space::new(
        "units",
        "body expressions of every shape (%a op k, k op %a, %a op %b, prefix, parenthesised, through a second macro) with every operator and 12 argument expressions of lower and higher precedence",
        8 * 7 * 12 * 12,
        move |i, ctx| {
            let mut m = Mix(i);
            let shape = m.take(8);
            let op = OPS[m.take(7)];
            let pool = |k: usize| match k {
                0 => n(5),
                1 => n(-2),
                2 => bin('+', n(1), n(2)),
                3 => bin('-', n(9), n(4)),
                4 => bin('*', n(2), n(3)),
                5 => bin('&', n(14), n(7)),
                6 => bin('|', n(8), n(3)),
                7 => un('<', n(0x1234)),
                8 => bin('+', id("here"), n(1)),
                9 => par(bin('-', n(1), n(3))),
                10 => bin('/', n(100), n(7)),
                _ => bin('^', n(6), bin('+', n(1), n(1))),
            };
            let (a, b) = (arg("a"), arg("b"));
            let e = match shape {
                0 => bin(op, a, n(3)),
                1 => bin(op, n(30), a),
                2 => bin(op, a, b),
                3 => un('-', bin(op, a, b)),
                4 => un('>', par(bin(op, a, bin('*', b, n(99))))),
                5 => bin(op, bin('*', a, n(2)), bin('-', b, n(1))),
                6 => bin(op, un('-', a), un('<', b)),
                _ => bin(op, a, b),
            };
            let mut p = vec![];
            let body = vec![ins("callf", vec![O::Ex(bin('&', par(e), n(65535)))])];
            p.push(L::Macro("in".into(), vec!["a".into(), "b".into()], body));
            let x = O::Ex(pool(m.take(12)));
            let y = O::Ex(pool(m.take(12)));
            if shape == 7 {
                // the outer macro swaps its arguments and puts them into expressions
                p.push(L::Macro(
                    "out".into(),
                    vec!["b".into(), "a".into()],
                    vec![ins("in", vec![O::Ex(bin('-', arg("b"), n(1))), O::Ex(arg("a"))])],
                ));
                p.push(label("here"));
                p.push(ins("out", vec![x, y]));
            } else {
                p.push(label("here"));
                p.push(ins("in", vec![x, y]));
            }
            judge(ctx, &p)
        },
    ));
    // selection by arity
    spaces.push(Space::new(
        "overloads",
        "every subset of macros m with 0..3 parameters (one of them possibly defined twice), defined before, after or on both sides of the calls, called with every pair of argument counts 0..3, in any letter case",
        16 * 5 * 3 * 16,
        move |i, ctx| {
            let mut m = Mix(i);
            let subset = m.take(16);
            let dup = m.take(5);
            let place = m.take(3);
            let calls = [m.take(4), m.take(4)];
            let def = |k: usize, tag: i64| {
                L::Macro(
                    if k % 2 == 0 { "mac".into() } else { "MAC".into() },
                    (0..k).map(|j| format!("p{}", j)).collect(),
                    (0..k)
                        .map(|j| ins("push", vec![O::Ex(arg(&format!("P{}", j)))]))
                        .chain(vec![ins("add", vec![O::Imm(n(tag))])])
                        .collect(),
                )
            };
            let mut defs: Vec<L> = (0..4).filter(|k| subset >> k & 1 == 1).map(|k| def(k, k as i64)).collect();
            if dup < 4 && subset >> dup & 1 == 1 {
                defs.push(def(dup, 99));
            }
            let callv: Vec<L> = calls
                .iter()
                .map(|c| ins("Mac", (0..*c).map(|j| O::Ex(n(j as i64 + 1))).collect()))
                .collect();
            let mut p = vec![];
            let h = match place {
                0 => defs.len(),
                1 => 0,
                _ => defs.len() / 2,
            };
            p.extend(defs[..h].iter().cloned());
            p.extend(callv);
            p.extend(defs[h..].iter().cloned());
            judge(ctx, &p)
        },
    ));
    // nesting and repetition
    let dm = t.q(30usize, 39);
    spaces.push(Space::new(
        "nesting",
        "chains of 1..30 macros calling each other (with a hygienic label per level, passed down as an argument, or a shared plain name), and 1..120 calls of one macro",
        (dm * 4 + 240) as u64,
        move |i, ctx| {
            let i = i as usize;
            let mut p = vec![];
            if i < dm * 4 {
                let d = i / 4 + 1;
                let kind = i % 4;
                for k in 0..d {
                    let mut body = vec![];
                    if kind != 3 {
                        body.push(label("l%"));
                    }
                    body.push(ins("jmpf", vec![O::Ex(arg("a"))]));
                    if k + 1 < d {
                        let e = match kind {
                            0 => hyg("l"),
                            1 => arg("a"),
                            2 => bin('+', arg("a"), n(1)),
                            _ => bin('-', par(arg("a")), id("here")),
                        };
                        body.push(ins(&format!("m{}", k + 1), vec![O::Ex(e)]));
                    }
                    if kind == 0 {
                        body.push(ins("br", vec![O::Ex(hyg("l"))]));
                    }
                    p.push(L::Macro(format!("m{}", k), vec!["a".into()], body));
                }
                p.push(L::Org(0));
                p.push(label("here"));
                p.push(ins("m0", vec![O::Ex(id("here"))]));
            } else {
                let c = (i - dm * 4) / 2 + 1;
                let local = i % 2 == 0;
                let nm = if local { ".s" } else { "s" };
                p.push(L::Macro(
                    "m".into(),
                    vec!["a".into()],
                    vec![
                        ins("bz", vec![O::Ex(hyg(nm))]),
                        ins("mov", vec![O::Imm(arg("a")), O::Ex(n(1))]),
                        label(&format!("{}%", nm)),
                    ],
                ));
                p.push(label("top"));
                for k in 0..c {
                    p.push(ins("m", vec![O::Ex(n(k as i64 % 256))]));
                    if k % 7 == 3 {
                        p.push(L::Dot(format!(".s{}", k)));
                        p.push(ins("bz", vec![O::Ex(id(&format!(".s{}", k)))]));
                    }
                }
            }
            ctx.states += 1;
            judge(ctx, &p)
        },
    ));
    // recursion: every call graph over three macros
    spaces.push(Space::new(
        "call-graphs",
        "three macros whose bodies call every subset of {a, b, c} (512 call graphs), each started from each macro: rejected exactly if a cycle is reachable",
        512 * 3 * 2,
        move |i, ctx| {
            let mut m = Mix(i);
            let g = m.take(512);
            let start = m.take(3);
            let hygienic = m.take(2) == 1;
            let names = ["ma", "mb", "mc"];
            let mut p = vec![];
            for k in 0..3 {
                let mut body = vec![ins("add", vec![O::Imm(n(k as i64))])];
                if hygienic {
                    body.push(label("l%"));
                }
                for j in 0..3 {
                    if g >> (k * 3 + j) & 1 == 1 {
                        body.push(ins(names[j], if hygienic { vec![O::Ex(hyg("l"))] } else { vec![O::Ex(arg("x"))] }));
                    }
                }
                body.push(ins("brf", vec![O::Ex(arg("x"))]));
                p.push(L::Macro(names[k].into(), vec!["x".into()], body));
            }
            p.push(label("here"));
            p.push(ins(names[start], vec![O::Ex(id("here"))]));
            ctx.states += 1;
            judge(ctx, &p)
        },
    ));
    // programs in several files
    let ps: Vec<Vec<usize>> = (0..seq0_total(12, 2)).map(|i| seq0_get(12, i)).filter(|v| v.contains(&5) || v.contains(&7)).collect();
    let qs: Vec<Vec<usize>> = t.q(vec![vec![], vec![0], vec![3], vec![4]], (0..seq0_total(9, 1)).map(|i| seq0_get(9, i)).collect());
    let ml = t.q(2u32, 3);
    let (np, nq, nm) = (ps.len() as u64, qs.len() as u64, 13u64.pow(ml));
    spaces.push(Space::new(
        "files",
        &format!("programs whose macro p has one of the {} bodies of up to two statements with hygienic labels, macro q one of {} bodies, and every main program of {} statements, distributed over files in 5 ways: every statement in a file of its own (equal statements in the same file, in files of other names, or in files of equal names in other directories), the definitions in an included file, every other statement in a file", np, nq, ml),
        np * nq * nm * 5,
        move |i, ctx| {
            let mut m = Mix(i);
            let mode = m.take(5);
            let p = &ps[m.take(np as usize)];
            let q = &qs[m.take(nq as usize)];
            let mut body = vec![];
            for _ in 0..ml {
                body.push(m.take(13));
            }
            ctx.states += 1;
            judge_split(ctx, &a06_prog(p, q, &body), mode)
        },
    ));
    // misuse
    let bad: Vec<String> = {
        let mut v: Vec<String> = [
            "%macro\n%end\n", "%macro 5\n%end\n", "%macro m 5\n%end\n", "%macro m %a %b\n%end\n", "%macro m %a,\n%end\n", "%macro m ,\n%end\n",
            "%macro m %a, %a\n%end\n", "%macro m %a, %A\n%end\n", "%macro m #%a\n%end\n", "%macro m @R0\n%end\n", "%macro m a\n%end\n",
            "%macro m\n nop\n", "%macro m %a\n", "%macro m\n%end 5\n", "%macro m\n%end\n%end\n", "%end\n", "%macro m\n%macro k\n%end\n%end\n",
            "%macro m\n .byte 1\n%end\n", "%macro m\n .org 5\n%end\n", "%macro m\n .include \"x\"\n%end\n", "%macro m\n x equ 5\n%end\n",
            "%macro m\n x = 5\n%end\n", "%macro m\n add %b\n%end\n m\n", "%macro m %a\n add %b\n%end\n m 1\n", "%macro m %a\n add #%b\n%end\n m 1\n",
            "%macro m %a\n add %a + %b\n%end\n m 1\n", "%macro m\n br l%\n%end\n m\n", "%macro m\nl%:\nl%:\n%end\n m\n", "%macro m %a\n add #%a\n%end\n m #1\n",
            "%macro m %a\n add #%a\n%end\n m @R1\n", "%macro m %a\n add %a + 1\n%end\n m @R1\n", "%macro m %a\n add %a + 1\n%end\n m #1\n",
            "%macro m %a\n add -%a\n%end\n m #1\n", " m\n", " m 5\n", "%macro m %a\n%end\n m\n", "%macro m\n%end\n m 5\n",
            "%macro m %a\n%end\n m 1, 2\n", " add %a\n", " .byte %a\n", " .word l%\n", " br l%\n", "l%:\n", ".l%\n", "%macro nop\n%end\n", "%macro ADD %a, %b, %c\n%end\n",
            "%macro m\n foo 5\n%end\n m\n", "%macro m\n add\n%end\n m\n", "%macro m %a\n mov %a, 5\n%end\n m 5\n", "%macro m\n nop nop\n%end\n m\n",
            "%macro m\nl%: .byte 1\n%end\n", "%macro m %a %b\n nop\n%end\n", "%macro m\n%end\n%macro m\n%end\n", "%macro m %a\n%end\n%macro M %b\n%end\n",
            "x equ %a\n", "x = l%\n", " .cnop %a, 1\n", "%macro m %a\n foo %a\n%end\n m 1\n",
        ]
        .iter()
        .map(|s| s.to_string())
        .collect();
        let mut mns: Vec<&str> = FORMS.iter().map(|f| f.mn).collect();
        mns.sort();
        mns.dedup();
        for m in mns {
            v.push(format!("%macro {}\n%end\n", m));
            v.push(format!("%macro {} %a\n%end\n", m.to_uppercase()));
            v.push(format!("%macro {} %a, %b, %c, %d\n%end\n", m));
        }
        v
    };
    let nb = bad.len();
    spaces.push(Space::new(
        "misuse",
        "a list of malformed or misused macro definitions and calls (and every mnemonic as a macro name), each alone, after and before unrelated macros and code: always rejected",
        (nb * 4) as u64,
        move |i, ctx| {
            let b = &bad[i as usize / 4];
            let text = match i % 4 {
                0 => b.clone(),
                1 => format!("start: nop\n%macro good %z\n add %z\n%end\n good 4\n{}", b),
                2 if b.contains("%end") || !b.contains("%macro") => format!("{}%macro good %z\n add %z\n%end\n good 4\n", b),
                3 => format!(";;;\n\n{}\n", b),
                _ => return pass(false),
            };
            match ctx.assemble(&text) {
                Asm::Err(_) => pass(true),
                g => Verdict::Fail(format!("expected rejection, got {} for {:?}", g.show(), text)),
            }
        },
    ));
    let _ = isa::FORMS;
    spaces.push(crate::a_many::macros(t));
    Check {
        level: "model_checking",
        spaces,
        assumptions: vec!["macro bodies hold labels, instructions and macro calls; nesting beyond 64 levels is rejected cleanly (D01)".into()],
    }
}
