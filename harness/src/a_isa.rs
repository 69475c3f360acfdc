//! A01 (encodings) and A02 (range checks).
use crate::engine::*;
use crate::isa::{self, Form, FORMS};
use crate::model::*;
use crate::{Check, Tier};

fn op_text(kind: u8, v: i64) -> O {
    match kind {
        b'I' => O::Imm(n(v)),
        b'N' => O::Ind(v as u8),
        _ => O::Ex(n(v)),
    }
}

fn widths(kind: u8) -> u64 {
    match kind {
        b'I' | b'S' => 256,
        b'D' => 512,
        b'B' => 8,
        b'N' => 4,
        b'A' => 4096,
        _ => 65536,
    }
}

fn edge_fields(kind: u8) -> Vec<u32> {
    match kind {
        b'I' => vec![0, 1, 0x55, 0x7f, 0x80, 0xaa, 0xff],
        b'S' => vec![0, 1, 0x55, 0x7f, 0x80, 0xaa, 0xff],
        b'D' => vec![0, 1, 0x55, 0xff, 0x100, 0x1aa, 0x1ff],
        b'B' => (0..8).collect(),
        b'N' => (0..4).collect(),
        b'A' => vec![0, 1, 0x55, 0xff, 0x100, 0x2aa, 0x555, 0x7ff, 0x800, 0xaaa, 0xfff],
        _ => vec![0, 1, 0x5a, 0xff, 0x100, 0x1234, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xa55a, 0xfffe, 0xffff],
    }
}

/// Every combination in which at most one operand ranges over all values (others: edge values),
/// or, with `full`, the complete product.
struct Fields {
    dims: Vec<Vec<Vec<u32>>>, // alternatives of per-operand lists
}

impl Fields {
    fn new(form: &Form, full: bool) -> Fields {
        let kinds: Vec<u8> = form.ops.bytes().collect();
        let all = |k: u8| (0..widths(k) as u32).collect::<Vec<_>>();
        let prod: u64 = kinds.iter().map(|k| widths(*k)).product();
        if full || prod <= 140_000 {
            return Fields {
                dims: vec![kinds.iter().map(|k| all(*k)).collect()],
            };
        }
        let mut dims = vec![];
        for i in 0..kinds.len() {
            dims.push(
                kinds
                    .iter()
                    .enumerate()
                    .map(|(j, k)| if i == j { all(*k) } else { edge_fields(*k) })
                    .collect(),
            );
        }
        Fields { dims }
    }
    fn total(&self) -> u64 {
        self.dims.iter().map(|d| Self::size(d)).sum()
    }
    fn size(d: &[Vec<u32>]) -> u64 {
        d.iter().map(|l| l.len() as u64).product()
    }
    fn get(&self, mut i: u64) -> Vec<u32> {
        for d in &self.dims {
            let s = Self::size(d);
            if i < s {
                let mut m = Mix(i);
                return d.iter().map(|l| l[m.take(l.len())]).collect();
            }
            i -= s;
        }
        unreachable!()
    }
}

/// Runs a batch of (form, raw fields) laid out from `org` and compares the bytes.
fn batch(ctx: &mut Ctx, org: i64, items: &[(usize, Vec<u32>)]) -> Verdict {
    let mut text = format!(" .org {}\n", org);
    let mut want = vec![0u8; org as usize];
    let mut starts = vec![];
    for (fi, fields) in items {
        let form = &FORMS[*fi];
        let pos = want.len() as i64;
        let next = pos + isa::size(form) as i64;
        let ops = form
            .ops
            .bytes()
            .zip(fields)
            .map(|(k, f)| op_text(k, isa::value(k, *f, next)))
            .collect();
        text.push_str(&show(&L::I(form.mn.to_owned(), ops)));
        text.push('\n');
        starts.push(want.len());
        want.extend(isa::encode_raw(form, fields));
    }
    match ctx.assemble(&text) {
        Asm::Ok(got) => {
            if got == want {
                return pass(true);
            }
            let mut k = 0;
            while k < got.len() && k < want.len() && got[k] == want[k] {
                k += 1;
            }
            let j = starts.iter().rposition(|s| *s <= k).unwrap_or(0);
            let line = text.lines().nth(j + 1).unwrap_or("");
            let e = starts.get(j + 1).copied().unwrap_or(want.len());
            Verdict::Fail(format!(
                "`{}` at {:#06x}: expected {}, got {}",
                line,
                starts[j],
                hex(&want[starts[j]..e]),
                hex(got.get(starts[j]..e.min(got.len())).unwrap_or(&[]))
            ))
        }
        other => {
            // find the line that is to blame
            for (j, _) in items.iter().enumerate() {
                let line = text.lines().nth(j + 1).unwrap().to_owned();
                let t = format!(" .org {}\n{}\n", starts[j], line);
                if !matches!(ctx.assemble(&t), Asm::Ok(_)) {
                    return Verdict::Fail(format!("`{}` at {:#06x}: {}", line, starts[j], other.show()));
                }
            }
            Verdict::Fail(format!("batch of valid instructions: {}", other.show()))
        }
    }
}

const BATCH: u64 = 128;

/// Spelling variants of a value; extra lines (definitions) may be needed.
pub const SPELLINGS: usize = 14;
pub fn spell(v: i64, how: usize, name: &str, defs: &mut Vec<L>, after: &mut Vec<L>) -> Option<E> {
    Some(match how {
        0 => n(v),
        1 => E::S(v, format!("${:x}", v)),
        2 => E::S(v, format!("0x{:X}", v)),
        3 => E::S(v, format!("%{:b}", v)),
        4 => E::S(v, format!("0b{:b}", v)),
        5 => E::S(v, format!("0o{:o}", v)),
        6 => {
            defs.push(L::Alias(name.to_owned(), n(v)));
            id(&name.to_uppercase())
        }
        7 => {
            after.push(L::Alias(name.to_owned(), bin('+', n(v), n(0))));
            id(name)
        }
        8 => {
            defs.push(L::Var(name.to_owned(), E::S(v, format!("${:X}", v))));
            id(name)
        }
        9 => {
            // a label with that very value
            after.push(L::Org(v));
            after.push(label(name));
            id(name)
        }
        10 => bin('-', bin('*', n(v), n(2)), n(v)),
        11 => par(bin('+', n(v - 3), n(3))),
        12 => bin('|', bin('*', un('>', n(v)), n(256)), un('<', n(v))),
        13 => {
            defs.push(L::Org(v));
            defs.push(label(&name.to_uppercase()));
            id(name)
        }
        _ => return None,
    })
}

fn recase(s: &str, how: usize) -> String {
    match how {
        0 => s.to_owned(),
        1 => s.to_uppercase(),
        _ => s
            .chars()
            .enumerate()
            .map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c })
            .collect(),
    }
}

pub fn a01(t: Tier) -> Check {
    let mut spaces = vec![];
    // 1. operand values, at one position
    for (fi, form) in FORMS.iter().enumerate() {
        let fields = Fields::new(form, t == Tier::Thorough);
        let total = fields.total();
        let name = format!("values-{}-{}", form.mn, form.ops);
        let blocks = (total + BATCH - 1) / BATCH;
        spaces.push(Space::new(
            &name,
            "all values of every operand of this form (complete product, or one operand complete and the others at edge values), 128 instructions per program from $4000 on",
            blocks,
            move |i, ctx| {
                let mut items = vec![];
                for j in i * BATCH..((i + 1) * BATCH).min(total) {
                    items.push((fi, fields.get(j)));
                }
                batch(ctx, 0x4000, &items)
            },
        ));
    }
    // 2. positions
    let ctl: Vec<usize> = (0..FORMS.len())
        .filter(|i| FORMS[*i].ops.bytes().any(|k| b"ASW".contains(&k)))
        .collect();
    let step: u64 = t.q(16, 1);
    let per = 64u64;
    // start addresses: all multiples of `step`, each followed by a run of instructions
    let runs = 65536 / (per * step) * step;
    let nctl = ctl.len() as u64;
    spaces.push(Space::new(
        "positions",
        "every form with a relative or same-page operand at addresses throughout the 64K space (thorough: at every address), with displacements -128, -1, 0, 1, 127 (relative) or page start and end",
        runs * nctl,
        move |i, ctx| {
            let fi = ctl[(i % nctl) as usize];
            let form = &FORMS[fi];
            let sz = isa::size(form) as i64;
            let r = (i / nctl) as i64;
            // run r covers addresses a, a+sz, a+2sz...; runs interleave so that all addresses occur
            let span = per as i64 * step as i64;
            let a = (r / step as i64) * span + (r % step as i64) * per as i64;
            let mut items = vec![];
            let mut p = a;
            let mut j = 0;
            while p + sz <= 65536 && p < a + per as i64 * 3 {
                let next = p + sz;
                let fields = form
                    .ops
                    .bytes()
                    .map(|k| match k {
                        b'S' => {
                            let d = [-128i64, -1, 0, 1, 127][j % 5];
                            // keep clear of the ends, wrap-around is A02's business
                            let d = if next + d < 0 || next + d > 65535 { if next > 40000 { -5 } else { 5 } } else { d };
                            (d & 0xFF) as u32
                        }
                        b'W' => {
                            let target = [0i64, 1, 0x7fff, 0x8000, 0xffff][j % 5];
                            let d = target - (next - 1);
                            let d = if d < -32768 || d > 32767 { 3 } else { d };
                            (d & 0xFFFF) as u32
                        }
                        b'A' => [0u32, 0xfff, 0x800, 0x7ff, 0x123][j % 5],
                        b'D' => [0x1ffu32, 0, 0x100][j % 3],
                        b'I' => [0xffu32, 0, 0x81][j % 3],
                        b'B' => (j % 8) as u32,
                        _ => (j % 4) as u32,
                    })
                    .collect();
                items.push((fi, fields));
                p += sz;
                j += 1;
            }
            if items.is_empty() {
                return pass(false);
            }
            batch(ctx, a, &items)
        },
    ));
    // 3. spellings
    let ncase = 3u64;
    let nf = FORMS.len() as u64;
    let nval = t.q(3, 6) as u64;
    spaces.push(Space::new(
        "spellings",
        "every form x every spelling of its operands (6 radix forms, alias before/after, variable, label before/after, 4 expression shapes; register digits) x mnemonic and register letter case x edge values; operand spellings vary independently for two-operand forms",
        nf * ncase * nval * (SPELLINGS * SPELLINGS) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let sp = [m.take(SPELLINGS), m.take(SPELLINGS)];
            let case = m.take(ncase as usize);
            let val = m.take(nval as usize);
            let form = &FORMS[m.take(nf as usize)];
            let n_expr = form.ops.bytes().filter(|k| *k != b'N').count();
            // symmetric cases are not repeated
            if (n_expr < 2 && sp[1] != 0) || (n_expr < 1 && sp[0] != 0) {
                return pass(false);
            }
            let pos = 0x300i64;
            let next = pos + isa::size(form) as i64;
            let mut defs = vec![];
            let mut after = vec![];
            let mut ops = vec![];
            let mut vals = vec![];
            let mut e = 0;
            for k in form.ops.bytes() {
                let fs = edge_fields(k);
                let f = fs[(val * 2 + e) % fs.len()];
                let mut v = isa::value(k, f, next);
                if k == b'S' && (v - next > 127 || v - next < -128) {
                    v = next;
                }
                if (k == b'W' || k == b'L') && v > 0xFF00 {
                    v = 0xFF00; // labels are placed there by .org
                }
                vals.push(v);
                if k == b'N' {
                    ops.push(O::Ind(v as u8));
                } else {
                    let how = sp[e.min(1)];
                    let x = spell(v, how, &format!("nm_{}", e), &mut defs, &mut after).unwrap();
                    ops.push(if k == b'I' { O::Imm(x) } else { O::Ex(x) });
                    e += 1;
                }
            }
            let mut prog = defs;
            prog.push(L::Org(pos));
            let mn = recase(form.mn, case);
            prog.push(L::I(mn, ops));
            prog.extend(after);
            let want = assemble(&prog);
            let mut text = print(&prog);
            if case == 1 {
                for r in 0..4 {
                    text = text.replace(&format!("@R{}", r), &format!("@r{}", r));
                }
            }
            let bytes = match &want {
                Ok(b) => b.clone(),
                Err(e) => return Verdict::Fail(format!("harness: model rejects {} ({})", text, e)),
            };
            let enc = isa::encode(form, &vals, pos).unwrap();
            if bytes[pos as usize..pos as usize + enc.len()] != enc[..] {
                return Verdict::Fail("harness: model disagrees with itself".into());
            }
            match compare(&want, &ctx.assemble(&text)) {
                Ok(()) => pass(true),
                Err(m) => Verdict::Fail(format!("{} for {:?}", m, text)),
            }
        },
    ));
    Check {
        level: "exploration",
        spaces,
        assumptions: vec!["the instruction reference (docs/instructions.md) is the specification of the encodings".into()],
    }
}

fn interesting() -> Vec<i64> {
    let mut v: Vec<i64> = vec![];
    for b in [0i64, 7, 8, 16, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 131071, 131072, 1 << 24, 1 << 30] {
        for d in -1..=1 {
            v.push(b + d);
            v.push(-b + d);
        }
    }
    v.extend([2147483646, 2147483647, -2147483647, -2147483648]);
    // values that become small when truncated
    for b in [256i64, 512, 65536, 1 << 17, 1 << 24, 1 << 31] {
        for s in [5i64, 0x45] {
            v.push(b + s);
            v.push(-b + s);
        }
    }
    v.retain(|x| *x >= -2147483648 && *x <= 2147483647);
    v.sort();
    v.dedup();
    v
}

/// A literal for any 32-bit value (the smallest one needs arithmetic).
fn lit(v: i64) -> E {
    if v == -2147483648 {
        bin('-', n(-2147483647), n(1))
    } else {
        n(v)
    }
}

fn check_prog(ctx: &mut Ctx, prog: &[L]) -> Verdict {
    let want = assemble(prog);
    let text = print(prog);
    match compare(&want, &ctx.assemble(&text)) {
        Ok(()) => pass(true),
        Err(m) => Verdict::Fail(format!("{} for {:?}", m, trunc(&text, 1500))),
    }
}

pub fn a02(t: Tier) -> Check {
    let mut spaces = vec![];
    let edge: &'static [i64] = Box::leak(interesting().into_boxed_slice());
    let ne = edge.len();
    // operand slots with an expression
    let slots: &'static [(usize, usize)] = Box::leak(
        FORMS
            .iter()
            .enumerate()
            .flat_map(|(fi, f)| {
                f.ops
                    .bytes()
                    .enumerate()
                    .filter(|(_, k)| *k != b'N')
                    .map(move |(j, _)| (fi, j))
                    .collect::<Vec<_>>()
            })
            .collect::<Vec<_>>()
            .into_boxed_slice(),
    );
    let ns = slots.len();
    fn valid(k: u8, next: i64) -> i64 {
        match k {
            b'I' => 0x9c,
            b'D' => 0x1c3,
            b'B' => 5,
            b'N' => 2,
            b'A' => (next & 0xF000) | 0x5a5,
            b'S' => (next + 9) & 0xFFFF,
            _ => 0x3c5a,
        }
    }
    fn one(ctx: &mut Ctx, fi: usize, pos: i64, slot: usize, e: E, pre: Vec<L>) -> Verdict {
        let form = &FORMS[fi];
        let next = pos + isa::size(form) as i64;
        let ops = form
            .ops
            .bytes()
            .enumerate()
            .map(|(j, k)| {
                let e = if j == slot { e.clone() } else { n(valid(k, next)) };
                match k {
                    b'I' => O::Imm(e),
                    b'N' => O::Ind(2),
                    _ => O::Ex(e),
                }
            })
            .collect();
        let mut prog = pre;
        prog.push(L::Org(pos));
        prog.push(L::I(form.mn.to_owned(), ops));
        check_prog(ctx, &prog)
    }
    let positions: &'static [i64] = &[0, 0x0ffd, 0x0ffe, 0x2000, 0x7ff0, 0xfff0];
    spaces.push(Space::new(
        "operand-edges",
        "every operand of every form x all 32-bit edge values (around every power of two that matters, truncation aliases, extremes) x 6 addresses x literal, alias and expression spelling",
        (ns * ne * positions.len() * 3) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let v = edge[m.take(ne)];
            let pos = positions[m.take(positions.len())];
            let how = m.take(3);
            let (fi, slot) = slots[m.take(ns)];
            match how {
                0 => one(ctx, fi, pos, slot, lit(v), vec![]),
                1 => one(ctx, fi, pos, slot, id("val"), vec![L::Alias("val".into(), lit(v))]),
                _ => one(ctx, fi, pos, slot, bin('+', bin('/', lit(v), n(2)), bin('-', lit(v), bin('/', lit(v), n(2)))), vec![]),
            }
        },
    ));
    let lo = t.q(-700i64, -66000);
    let hi = t.q(1300i64, 66000);
    let range = (hi - lo + 1) as u64;
    let small: Vec<(usize, usize)> = slots
        .iter()
        .copied()
        .filter(|(f, s)| b"IDB".contains(&FORMS[*f].ops.as_bytes()[*s]))
        .collect();
    let nsm = small.len() as u64;
    spaces.push(Space::new(
        "operand-ranges",
        "every immediate, direct and bit operand of every form x every value of a whole range around the accepted one (quick -700..1300, thorough -66000..66000)",
        range * nsm,
        move |i, ctx| {
            let (fi, slot) = small[(i % nsm) as usize];
            one(ctx, fi, 0x40, slot, n(lo + (i / nsm) as i64), vec![])
        },
    ));
    // relative operands: windows of targets around the instruction, at edges of the address space too
    let rel: Vec<(usize, usize)> = slots
        .iter()
        .copied()
        .filter(|(f, s)| b"S".contains(&FORMS[*f].ops.as_bytes()[*s]))
        .collect();
    let nrel = rel.len() as u64;
    let rpos: &'static [i64] = &[0, 1, 0x7c, 0x80, 0xff, 0x1000, 0x7ff0, 0x8000, 0xff70, 0xff7c, 0xfffc, 0xfffd];
    spaces.push(Space::new(
        "rel8",
        "every form with an 8-bit relative operand x 12 addresses (both ends of the address space) x every target offset -300..300, without and with reduction modulo 64K",
        nrel * 601 * rpos.len() as u64 * 2,
        move |i, ctx| {
            let mut m = Mix(i);
            let off = m.take(601) as i64 - 300;
            let wrap = m.take(2);
            let pos = rpos[m.take(rpos.len())];
            let (fi, slot) = rel[m.take(nrel as usize)];
            let next = pos + isa::size(&FORMS[fi]) as i64;
            let mut target = next + off;
            if wrap == 1 {
                if (0..65536).contains(&target) {
                    return pass(false);
                }
                target &= 0xFFFF;
            }
            one(ctx, fi, pos, slot, n(target), vec![])
        },
    ));
    let w16: Vec<(usize, usize)> = slots
        .iter()
        .copied()
        .filter(|(f, s)| b"W".contains(&FORMS[*f].ops.as_bytes()[*s]))
        .collect();
    let nw = w16.len() as u64;
    let wpos: &'static [i64] = &[0, 1, 0x7ffd, 0x7ffe, 0x8000, 0x9000, 0xfffd];
    let wstep = t.q(61u64, 1);
    spaces.push(Space::new(
        "rel16",
        "brf and callr at 7 addresses x targets throughout -64..65600 (thorough: every one)",
        nw * wpos.len() as u64 * (65664 / wstep + 1),
        move |i, ctx| {
            let mut m = Mix(i);
            let (fi, slot) = w16[m.take(nw as usize)];
            let pos = wpos[m.take(wpos.len())];
            let v = m.0 as i64 * wstep as i64 - 64;
            one(ctx, fi, pos, slot, n(v), vec![])
        },
    ));
    let a12: Vec<(usize, usize)> = slots
        .iter()
        .copied()
        .filter(|(f, s)| b"A".contains(&FORMS[*f].ops.as_bytes()[*s]))
        .collect();
    let na = a12.len() as u64;
    spaces.push(Space::new(
        "abs12",
        "jmp and call in each of the 16 pages at 7 addresses around the page end x targets at 6 places of each page -1..16",
        na * 16 * 7 * 18 * 6,
        move |i, ctx| {
            let mut m = Mix(i);
            let (fi, slot) = a12[m.take(na as usize)];
            let page = m.take(16) as i64;
            let off = [0i64, 1, 0x800, 0xffc, 0xffd, 0xffe, 0xfff][m.take(7)];
            let tp = m.take(18) as i64 - 1;
            let to = [0i64, 1, 0x7ff, 0x800, 0xffe, 0xfff][m.take(6)];
            let pos = page * 0x1000 + off;
            if pos + 2 > 65536 {
                return pass(false);
            }
            one(ctx, fi, pos, slot, n(tp * 0x1000 + to), vec![])
        },
    ));
    // data
    let (dlo, dhi) = t.q((-1000i64, 1000i64), (-70000, 70000));
    spaces.push(Space::new(
        "data-bytes",
        ".byte with every value of a range around the accepted one, and all edge values, as literal, alias and last of several items",
        (dhi - dlo + 1 + ne as i64) as u64 * 3,
        move |i, ctx| {
            let mut m = Mix(i);
            let how = m.take(3);
            let k = m.0 as i64;
            let v = if k < ne as i64 { edge[k as usize] } else { dlo + (k - ne as i64) };
            match how {
                0 => check_prog(ctx, &[L::Byte(vec![Bv::E(lit(v))])]),
                1 => check_prog(ctx, &[L::Byte(vec![Bv::E(id("q"))]), L::Alias("q".into(), lit(v))]),
                _ => check_prog(ctx, &[L::Byte(vec![Bv::E(n(1)), bstr("ab"), Bv::E(par(lit(v)))])]),
            }
        },
    ));
    let wl = t.q(401u64, 140001);
    spaces.push(Space::new(
        "data-words",
        ".word with every value of ranges around -32768, 0 and 65535 (thorough: every value -70000..70000), and all edge values",
        (wl * t.q(3, 1) + ne as u64) * 2,
        move |i, ctx| {
            let mut m = Mix(i);
            let how = m.take(2);
            let k = m.0;
            let v = if k < ne as u64 {
                edge[k as usize]
            } else {
                let k = k - ne as u64;
                if wl > 1000 {
                    k as i64 - 70000
                } else {
                    [-32768i64, 0, 65535][(k / wl) as usize] + (k % wl) as i64 - 200
                }
            };
            match how {
                0 => check_prog(ctx, &[L::Word(vec![lit(v)])]),
                _ => check_prog(ctx, &[L::Word(vec![n(1), id("q")]), L::Alias("q".into(), lit(v))]),
            }
        },
    ));
    spaces.push(Space::new(
        "text-sizes",
        ".text and .string with every size 0..48 x every contents length 0..48",
        2 * 49 * 49,
        |i, ctx| {
            let mut m = Mix(i);
            let k = m.take(2);
            let size = m.take(49) as i64;
            let len = m.take(49);
            let s: String = (0..len).map(|j| (b'a' + (j % 26) as u8) as char).collect();
            let l = if k == 0 {
                L::Text(size, s.clone().into_bytes(), s)
            } else {
                L::Str(size, s.clone().into_bytes(), s)
            };
            check_prog(ctx, &[L::Byte(vec![Bv::E(n(9))]), l, L::Byte(vec![Bv::E(n(8))])])
        },
    ));
    spaces.push(Space::new(
        "org",
        ".org with all edge values (and every value 65000..66000), followed by nothing, a byte, a label, or nothing at the end",
        (ne as u64 + 1001) * 4,
        move |i, ctx| {
            let mut m = Mix(i);
            let how = m.take(4);
            let k = m.0 as usize;
            let v = if k < ne { edge[k] } else { 65000 + (k - ne) as i64 };
            let mut p = vec![];
            // negative numbers are no literals
            if v < 0 {
                p.push(L::Bad(format!(" .org {}", v)));
            } else {
                p.push(L::Org(v));
            }
            match how {
                0 => {}
                1 => p.push(L::Byte(vec![Bv::E(n(1))])),
                2 => {
                    p.push(label("x"));
                    p.push(L::Org(3));
                    p.push(L::Word(vec![id("x")]));
                }
                _ => {
                    p.push(L::Org(2));
                    p.push(L::Byte(vec![Bv::E(n(1))]));
                }
            }
            check_prog(ctx, &p)
        },
    ));
    // literals and arithmetic outside 32 bits
    let big: &'static [&'static str] = &[
        "2147483648", "4294967295", "4294967296", "4294967301", "18446744073709551621", "99999999999999999999999999",
        "$80000000", "$FFFFFFFF", "$100000005", "0x80000000", "0xFFFFFFFFFFFFFFFFF", "%10000000000000000000000000000000",
        "0b111111111111111111111111111111111", "0o20000000000", "0o777777777777777777777777", "2'147'483'648", "$8000'0000",
    ];
    let ctxs: &'static [&'static str] = &[
        " .byte @", " .word @", " .org @", " .text @ \"a\"", " .string @ \"\"", " .cnop @, 1", " .cnop 0, @", " ld @", " mov #@, $10",
        "a equ @\n nop", "a = @\n nop", " jmpf @", " br @", " .byte <@", " .byte 1, @", "%macro m %x\n .k: ld %x\n%end\n m @",
    ];
    spaces.push(Space::new(
        "big-literals",
        "17 literals beyond the 32-bit signed range x 16 places a number can stand: all rejected",
        (big.len() * ctxs.len()) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let b = big[m.take(big.len())];
            let c = ctxs[m.take(ctxs.len())];
            let text = format!("{}\n", c.replace('@', b));
            match ctx.assemble(&text) {
                Asm::Err(_) => pass(true),
                g => Verdict::Fail(format!("{:?}: expected rejection, got {}", text, g.show())),
            }
        },
    ));
    let mut speeds: Vec<i64> = edge.iter().cloned().filter(|v| *v >= 0).collect();
    speeds.extend(0..=300);
    speeds.extend(65300..=65900);
    speeds.extend((1..=40).map(|k| k * 65536 + 10));
    let speeds: &'static [i64] = Box::leak(speeds.into_boxed_slice());
    spaces.push(Space::new(
        "icon-speeds",
        "icon speeds: all edge values, 0..300, 65300..65900 and values that would wrap to 10, alone and with an eyecatch before or after: stored exactly or rejected beyond 16 bits",
        (speeds.len() * 3) as u64,
        move |i, ctx| {
            use crate::imgw::*;
            let mut m = Mix(i);
            let v = speeds[m.take(speeds.len())];
            let o = m.take(3);
            ctx.put("i.png", &png(&Pic::solid(32, 32, [0, 0, 0, 255]), PngKind::Rgba8));
            ctx.put("e.png", &png(&Pic::solid(72, 56, [0, 0, 0, 255]), PngKind::Gray8));
            let p = match o {
                0 => format!("speed={}", v),
                1 => format!("speed={}, eyecatch=\"e.png\"", v),
                _ => format!("eyecatch=\"e.png\", speed={}", v),
            };
            let text = format!(" .include icon \"i.png\" {}\n", p);
            match ctx.assemble(&text) {
                Asm::Ok(b) if v <= 65535 && b.len() > 4 && b[2] as i64 + 256 * b[3] as i64 == v => pass(true),
                Asm::Err(_) if v > 65535 => pass(true),
                g => Verdict::Fail(format!("speed {}: {}", v, trunc(&g.show(), 200))),
            }
        },
    ));
    let ops = ['+', '-', '*', '/', '&', '|', '^'];
    spaces.push(Space::new(
        "arithmetic-range",
        "every operator on all pairs of 32-bit edge values, the result observed in full through .word of its bytes: exact, or rejected when it leaves 32 bits or divides by zero",
        (ne * ne * ops.len()) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let a = edge[m.take(ne)];
            let b = edge[m.take(ne)];
            let op = ops[m.take(ops.len())];
            let mk = |s: &str| s.to_owned();
            let p = vec![
                L::Alias(mk("a"), lit(a)),
                L::Alias(mk("b"), lit(b)),
                L::Var(mk("r"), bin(op, id("a"), id("b"))),
                L::Word(vec![
                    bin('&', id("r"), n(65535)),
                    bin('/', bin('&', id("r"), n(0x7fff0000)), n(65536)),
                    bin('&', bin('/', id("r"), n(65536)), n(65535)),
                ]),
            ];
            check_prog(ctx, &p)
        },
    ));
    Check {
        level: "exploration",
        spaces,
        assumptions: vec![],
    }
}
