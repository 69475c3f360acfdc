//! B01, B02, B03: the disassembler.
//!
//! The listing is parsed by an independent reader of the documented syntax and judged
//! against an independent decoder (isa.rs) and the control-flow semantics of the manual.

use crate::engine::*;
use crate::isa;
use crate::{Check, Tier};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Debug, Clone, PartialEq)]
pub enum Item {
    Org(i64),
    Label(String),
    Bytes(Vec<u8>),
    /// mnemonic, operands, "Arrived from", "Overlaps with"
    Ins(String, Vec<String>, Option<Vec<usize>>, Option<Vec<usize>>),
    Equ(String, i64),
    Cnop(i64, i64),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Line {
    /// None: no prefix column; Some(None): blank prefix
    pub prefix: Option<i64>,
    pub item: Item,
    pub no: usize,
}

fn num(s: &str) -> Option<i64> {
    let s = s.trim();
    if let Some(h) = s.strip_prefix('$') {
        if h.is_empty() {
            return None;
        }
        i64::from_str_radix(h, 16).ok()
    } else if !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) {
        s.parse().ok()
    } else {
        None
    }
}

/// Reads a listing.
pub fn parse(text: &str, prefixed: bool) -> Result<Vec<Line>, String> {
    let mut out = vec![];
    let mut over = None;
    for (no, raw) in text.split('\n').enumerate() {
        let mut line = raw;
        let mut prefix = None;
        if prefixed {
            let b = line.as_bytes();
            if b.len() >= 5 {
                // a prefix is blank or at least four hex digits, followed by `|`
                if let Some(bar) = line.find('|') {
                    let p = &line[..bar];
                    if p.chars().all(|c| c == ' ') {
                        line = &line[bar + 1..];
                    } else if p.len() >= 4 && p.chars().all(|c| c.is_ascii_hexdigit()) {
                        prefix = i64::from_str_radix(p, 16).ok();
                        line = &line[bar + 1..];
                    }
                }
            }
        }
        let (code, comment) = match line.find(';') {
            Some(k) => (&line[..k], Some(line[k..].trim_start_matches(';').trim())),
            None => (line, None),
        };
        let code = code.trim();
        let bad = || format!("line {} of the listing is not understood: {:?}", no + 1, raw);
        let places = |l: &str| -> Result<Vec<usize>, String> {
            l.split(',').map(|x| usize::from_str_radix(x.trim(), 16).map_err(|_| bad())).collect()
        };
        if let Some(l) = comment.and_then(|c| c.strip_prefix("Overlaps with:")) {
            over = Some(places(l)?);
        }
        if code.is_empty() {
            continue;
        }
        let item = if let Some(l) = code.strip_suffix(':') {
            Item::Label(l.trim().to_owned())
        } else {
            let (head, rest) = match code.find(|c: char| c.is_whitespace()) {
                Some(k) => (&code[..k], code[k..].trim()),
                None => (code, ""),
            };
            let args: Vec<&str> = if rest.is_empty() { vec![] } else { rest.split(',').map(|s| s.trim()).collect() };
            if head.eq_ignore_ascii_case(".org") {
                Item::Org(num(rest).ok_or_else(bad)?)
            } else if head.eq_ignore_ascii_case(".cnop") {
                if args.len() != 2 {
                    return Err(bad());
                }
                Item::Cnop(num(args[0]).ok_or_else(bad)?, num(args[1]).ok_or_else(bad)?)
            } else if head.eq_ignore_ascii_case(".byte") {
                let mut v = vec![];
                for a in args {
                    let n = num(a).ok_or_else(bad)?;
                    if !(0..=255).contains(&n) {
                        return Err(bad());
                    }
                    v.push(n as u8);
                }
                Item::Bytes(v)
            } else if rest.len() > 3 && rest[..3].eq_ignore_ascii_case("equ") {
                Item::Equ(head.to_owned(), num(&rest[3..]).ok_or_else(bad)?)
            } else {
                let mut arr = None;
                if let Some(c) = comment {
                    if let Some(l) = c.strip_prefix("Arrived from:") {
                        arr = Some(places(l)?);
                    }
                }
                Item::Ins(head.to_lowercase(), args.iter().map(|s| s.to_string()).collect(), arr, over.take())
            }
        };
        out.push(Line {
            prefix,
            item,
            no: no + 1,
        });
    }
    Ok(out)
}

pub struct Ins {
    pub at: usize,
    pub form: usize,
    pub vals: Vec<i64>,
    pub arrived: Option<Vec<usize>>,
    pub over: Option<Vec<usize>>,
    /// operands as written
    pub ops: Vec<String>,
    pub no: usize,
}

pub struct Listing {
    pub ins: BTreeMap<usize, Ins>,
    pub data: BTreeMap<usize, u8>,
    pub labels: HashMap<String, i64>,
    pub equs: Vec<(usize, String, i64)>,
    pub label_at: BTreeSet<i64>,
}

/// Gives every line its address and every operand its value.
pub fn resolve(lines: &[Line], prefixed: bool) -> Result<Listing, String> {
    let mut names: HashMap<String, i64> = HashMap::new();
    let mut labels: HashMap<String, i64> = HashMap::new();
    let mut addr = vec![];
    let mut cur: i64 = 0;
    for l in lines {
        if let Item::Org(n) = l.item {
            cur = n;
        }
        addr.push(cur);
        if prefixed {
            match l.prefix {
                Some(p) if p != cur => {
                    return Err(format!("line {}: position prefix {:04X} on a line at {:04X}", l.no, p, cur))
                }
                None if matches!(l.item, Item::Ins(..) | Item::Bytes(..)) => {
                    return Err(format!("line {}: no position prefix on a line at {:04X}", l.no, cur))
                }
                _ => (),
            }
        }
        match &l.item {
            Item::Label(n) => {
                if names.insert(n.clone(), cur).is_some() {
                    return Err(format!("line {}: {} defined twice", l.no, n));
                }
                labels.insert(n.clone(), cur);
            }
            Item::Equ(n, v) => {
                if names.insert(n.clone(), *v).is_some() {
                    return Err(format!("line {}: {} defined twice", l.no, n));
                }
            }
            Item::Bytes(v) => cur += v.len() as i64,
            Item::Ins(mn, ops, ..) => {
                let f = form(mn, ops).ok_or_else(|| format!("line {}: no such instruction: {} {:?}", l.no, mn, ops))?;
                cur += isa::size(&isa::FORMS[f]) as i64;
            }
            _ => (),
        }
    }
    let mut out = Listing {
        ins: BTreeMap::new(),
        data: BTreeMap::new(),
        label_at: labels.values().cloned().collect(),
        labels,
        equs: vec![],
    };
    for (l, a) in lines.iter().zip(addr) {
        match &l.item {
            Item::Bytes(v) => {
                for (k, b) in v.iter().enumerate() {
                    let p = a as usize + k;
                    if out.data.insert(p, *b).is_some() {
                        return Err(format!("line {}: data at {:04X} listed twice", l.no, p));
                    }
                }
            }
            Item::Equ(n, v) => out.equs.push((l.no, n.to_lowercase(), *v)),
            Item::Ins(mn, ops, arr, over) => {
                let f = form(mn, ops).unwrap();
                let mut vals = vec![];
                for o in ops {
                    let t = o.trim_start_matches('#');
                    let v = if let Some(r) = o.strip_prefix('@') {
                        r[1..].parse().ok()
                    } else {
                        num(t).or_else(|| names.get(t).cloned())
                    };
                    match v {
                        Some(v) => vals.push(v),
                        None => return Err(format!("line {}: undefined operand {:?}", l.no, o)),
                    }
                }
                let p = a as usize;
                let i = Ins {
                    at: p,
                    form: f,
                    vals,
                    arrived: arr.clone(),
                    over: over.clone(),
                    ops: ops.clone(),
                    no: l.no,
                };
                if out.ins.insert(p, i).is_some() {
                    return Err(format!("line {}: a second instruction at {:04X}", l.no, p));
                }
            }
            _ => (),
        }
    }
    Ok(out)
}

/// The instruction form meant by a mnemonic and operand texts.
pub fn form(mn: &str, ops: &[String]) -> Option<usize> {
    isa::FORMS.iter().position(|f| {
        f.mn == mn
            && f.ops.len() == ops.len()
            && f.ops.bytes().zip(ops).all(|(k, o)| {
                let b = o.as_bytes();
                match k {
                    b'I' => b.first() == Some(&b'#'),
                    b'N' => b.len() == 3 && b[0] == b'@' && (b[1] | 32) == b'r' && (b'0'..=b'3').contains(&b[2]),
                    _ => b.first().map(|c| *c != b'#' && *c != b'@').unwrap_or(false),
                }
            })
    })
}

pub const ENTRIES: &[usize] = &[0, 0x3, 0xb, 0x13, 0x1b, 0x23, 0x2b, 0x33, 0x3b, 0x43, 0x4b, 0x130];
pub const BIOS: &[usize] = &[0x100, 0x108, 0x110, 0x120, 0x140, 0x1f0];

pub fn entries(ty: &str) -> Vec<usize> {
    let mut v = ENTRIES.to_vec();
    if ty == "bios" {
        v.extend_from_slice(BIOS);
    }
    v
}

struct Edges {
    next: bool,
    target: Option<usize>,
    far: bool,
}

fn edges(d: &isa::Decoded, at: usize) -> Edges {
    let f = &isa::FORMS[d.form];
    let next = (at + d.size) as i64;
    let mut target = None;
    for (k, v) in f.ops.bytes().zip(&d.fields) {
        if matches!(k, b'A' | b'L' | b'S' | b'W') {
            target = Some(isa::value(k, *v, next) as usize);
        }
    }
    let stops = matches!(f.mn, "jmp" | "jmpf" | "br" | "brf" | "ret" | "reti");
    Edges {
        next: !stops,
        target,
        far: f.mn == "jmpf",
    }
}

fn not1_ext(img: &[u8], at: usize) -> bool {
    match isa::decode(&img[at..]) {
        Some(d) => isa::FORMS[d.form].mn == "not1" && d.fields == [0x10D, 0],
        None => false,
    }
}

/// Is the whole image decodable, treating every far jump as followed and, in a second
/// pass, none of the doubtful ones? Returns (certainly cut off, possibly cut off).
pub fn cut_off(img: &[u8], ty: &str) -> (bool, bool) {
    let walk = |skip_far: bool| {
        let mut seen = vec![false; img.len() + 1];
        let mut todo: Vec<(usize, Option<usize>)> = entries(ty).into_iter().map(|e| (e, None)).collect();
        let mut cut = false;
        while let Some((p, from)) = todo.pop() {
            if p >= img.len() {
                continue;
            }
            let d = match isa::decode(&img[p..]) {
                Some(d) => d,
                None => {
                    cut = true;
                    continue;
                }
            };
            let e = edges(&d, p);
            let _ = from;
            if seen[p] {
                continue;
            }
            seen[p] = true;
            if e.next {
                todo.push((p + d.size, Some(p)));
            }
            if let Some(t) = e.target {
                if !(e.far && skip_far && p >= 2 && not1_ext(img, p - 2)) {
                    todo.push((t, Some(p)));
                }
            }
        }
        cut
    };
    let all = walk(false);
    if !all {
        return (false, false);
    }
    (walk(true), true)
}

/// B01: every listed instruction denotes the bytes at its address.
pub fn judge_meaning(img: &[u8], l: &Listing) -> Result<(), String> {
    for i in l.ins.values() {
        let f = &isa::FORMS[i.form];
        let n = isa::size(f);
        if i.at + n > img.len() {
            return Err(format!("line {}: {} at {:04X} reaches past the end of the image ({} bytes)", i.no, f.mn, i.at, img.len()));
        }
        let want = &img[i.at..i.at + n];
        match isa::encode(f, &i.vals, i.at as i64) {
            Some(b) if b == want => (),
            got => {
                return Err(format!(
                    "line {}: `{} {:x?}` at {:04X} stands for {} but the image has {}",
                    i.no,
                    f.mn,
                    i.vals,
                    i.at,
                    got.map(|b| hex(&b)).unwrap_or("nothing encodable".into()),
                    hex(want)
                ))
            }
        }
    }
    // named registers and bits are written as such
    for i in l.ins.values() {
        let f = &isa::FORMS[i.form];
        let psw = f.ops.starts_with("DB") && i.vals[0] == 0x101;
        for ((k, v), o) in f.ops.bytes().zip(&i.vals).zip(&i.ops) {
            let lo = match k {
                b'D' => 0x100,
                b'B' if psw => 0,
                _ => continue,
            };
            let mut names = isa::NAMES.iter().filter(|n| n.1 == *v && (n.1 >= 0x100) == (lo == 0x100)).peekable();
            if names.peek().is_some() && !names.any(|n| n.0.eq_ignore_ascii_case(o)) {
                return Err(format!("line {}: ${:X} is written as {}", i.no, v, o));
            }
        }
    }
    for (no, name, v) in &l.equs {
        let hex = |p: &str| name.strip_prefix(p).and_then(|h| i64::from_str_radix(h, 16).ok());
        let known = isa::NAMES.iter().find(|n| n.0 == name).map(|n| n.1);
        match known.or_else(|| hex("sfr_")).or_else(|| hex("xram_")) {
            Some(k) if k != *v => return Err(format!("line {}: {} is defined as ${:X}, but is ${:X}", no, name, v, k)),
            _ => (),
        }
    }
    Ok(())
}

/// B02: the listed instructions are the reachable ones, and so on. Returns the number of
/// edges of the control-flow graph that were checked.
pub fn judge_reach(img: &[u8], ty: &str, l: &Listing, arrived: bool) -> Result<u64, String> {
    let s: BTreeSet<usize> = l.ins.keys().cloned().collect();
    let len = img.len();
    let ent = entries(ty);
    let mut dec: BTreeMap<usize, isa::Decoded> = BTreeMap::new();
    for p in &s {
        if *p >= len {
            return Err(format!("an instruction is listed at {:04X}, outside the image of {} bytes", p, len));
        }
        match isa::decode(&img[*p..]) {
            Some(d) => {
                if d.form != l.ins[p].form {
                    return Err(format!("{} listed at {:04X}", isa::FORMS[l.ins[p].form].mn, p));
                }
                dec.insert(*p, d);
            }
            None => return Err(format!("an instruction cut off by the end of the image is listed at {:04X}", p)),
        }
    }
    for e in &ent {
        if *e < len && !s.contains(e) {
            return Err(format!("entry point {:04X} is not listed as an instruction", e));
        }
    }
    // predecessors by certain edges
    let mut preds: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    let mut far = vec![];
    let mut n = 0;
    for (p, d) in &dec {
        let e = edges(d, *p);
        if e.next {
            preds.entry(p + d.size).or_default().insert(*p);
            n += 1;
        }
        if let Some(t) = e.target {
            if e.far && *p >= 2 && s.contains(&(p - 2)) && not1_ext(img, p - 2) {
                far.push((*p, t));
            } else {
                preds.entry(t).or_default().insert(*p);
                n += 1;
            }
        }
    }
    // far jumps after `not1 ext, 0`: not followed when that is the only way to reach them
    let mut doubtful: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for (p, t) in &far {
        let mut ways: BTreeSet<usize> = preds.get(p).cloned().unwrap_or_default();
        ways.extend(far.iter().filter(|f| f.1 == *p).map(|f| f.0));
        ways.remove(&(p - 2));
        if ent.contains(p) || !ways.is_empty() {
            doubtful.entry(*t).or_default().insert(*p);
        }
    }
    for (t, from) in &preds {
        if *t < len && !s.contains(t) {
            return Err(format!("{:04X} is reached from {:04x?} but not listed as an instruction", t, from));
        }
    }
    // everything listed is reachable
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    let mut todo: Vec<usize> = ent.iter().cloned().filter(|e| *e < len).collect();
    while let Some(p) = todo.pop() {
        if !s.contains(&p) || !seen.insert(p) {
            continue;
        }
        let d = &dec[&p];
        let e = edges(d, p);
        if e.next {
            todo.push(p + d.size);
        }
        if let Some(t) = e.target {
            let is_far = far.iter().any(|f| f.0 == p);
            if !is_far || doubtful.get(&t).map(|d| d.contains(&p)).unwrap_or(false) {
                todo.push(t);
            }
        }
    }
    if let Some(p) = s.difference(&seen).next() {
        return Err(format!("{} listed at {:04X}, which is not reachable", isa::FORMS[l.ins[p].form].mn, p));
    }
    // data
    let mut code = vec![false; len];
    for (p, d) in &dec {
        for k in 0..d.size {
            code[p + k] = true;
        }
    }
    for (p, b) in img.iter().enumerate() {
        if !code[p] && *b != 0 && l.data.get(&p) != Some(b) {
            return Err(format!("byte {:02x} at {:04X} is listed as {:x?}", b, p, l.data.get(&p)));
        }
    }
    for (p, b) in &l.data {
        if *p >= len || img[*p] != *b {
            return Err(format!("data byte {:02x} listed at {:04X} is not in the image", b, p));
        }
        if code[*p] {
            return Err(format!("data byte {:02x} listed at {:04X}, inside a listed instruction", b, p));
        }
    }
    // labels
    for (t, from) in &preds {
        if s.contains(t) && !l.label_at.contains(&(*t as i64)) {
            // fall-through alone is not a reference
            let named = from.iter().any(|p| edges(&dec[p], *p).target == Some(*t));
            if named {
                return Err(format!("{:04X} is referenced from {:04x?} but carries no label", t, from));
            }
        }
    }
    if let Some(x) = l.label_at.iter().find(|x| !s.contains(&(**x as usize))) {
        return Err(format!("a label at {:04X}, where no instruction is listed", x));
    }
    // no other labels
    for x in &l.label_at {
        let p = *x as usize;
        let from = |m: &BTreeMap<usize, BTreeSet<usize>>| m.get(&p).map_or(false, |f| f.iter().any(|q| edges(&dec[q], *q).target == Some(p)));
        if !from(&preds) && !from(&doubtful) {
            return Err(format!("a label at {:04X}, which nothing refers to", p));
        }
    }
    // targets that are listed are written as their labels, those outside the image are not
    for (p, d) in &dec {
        if let Some(t) = edges(d, *p).target {
            let i = &l.ins[p];
            let label = i.ops.last().and_then(|o| l.labels.get(o)).is_some();
            let left = far.contains(&(*p, t));
            let open = doubtful.get(&t).map_or(false, |f| f.contains(p));
            if left && !open && label {
                return Err(format!("line {}: {:04X} leaves the image, but names the label {}", i.no, p, i.ops.last().unwrap()));
            }
            if !left && s.contains(&t) && !label {
                return Err(format!("line {}: {:04X} goes to {:04X} without naming its label", i.no, p, t));
            }
        }
    }
    // arrived from
    for (p, i) in &l.ins {
        let got: BTreeSet<usize> = i.arrived.iter().flatten().cloned().collect();
        if !arrived {
            if i.arrived.is_some() {
                return Err(format!("line {}: arrived-from list without the option", i.no));
            }
            continue;
        }
        let want = preds.get(p).cloned().unwrap_or_default();
        let opt = doubtful.get(p).cloned().unwrap_or_default();
        let ok = want.is_subset(&got) && got.iter().all(|g| want.contains(g) || opt.contains(g));
        if !ok {
            return Err(format!("line {}: {:04X} is arrived at from {:04x?}, listed: {:04x?}", i.no, p, want, got));
        }
        let v = i.arrived.clone().unwrap_or_default();
        if v.len() != got.len() {
            return Err(format!("line {}: arrived-from list {:04x?} has duplicates", i.no, v));
        }
    }
    // instructions that share bytes name each other
    for (p, i) in &l.ins {
        let end = p + dec[p].size;
        let want: Vec<usize> = dec
            .range(p.saturating_sub(2)..end)
            .filter(|(q, d)| *q != p && **q + d.size > *p)
            .map(|(q, _)| *q)
            .collect();
        let mut got = i.over.clone().unwrap_or_default();
        got.sort();
        if got != want {
            return Err(format!("line {}: {:04X} overlaps with {:04x?}, listed: {:04x?}", i.no, p, want, got));
        }
    }
    Ok(n)
}

pub enum Dis {
    Text(String),
    Rejected(String),
}

/// Runs the disassembler on an image. `doubt`: it may be rejected, so use a child process.
pub fn disasm(ctx: &mut Ctx, img: &[u8], ty: &str, flags: &str, doubt: bool) -> Result<Dis, String> {
    let i = ctx.put("i.bin", img);
    let o = ctx.dir.join("o.s");
    let _ = std::fs::remove_file(&o);
    let is = i.to_str().unwrap().to_owned();
    let os = o.to_str().unwrap().to_owned();
    let mut args = vec!["disassemble", is.as_str(), "-o", os.as_str()];
    if !ty.is_empty() {
        args.push("-t");
        args.push(ty);
    }
    for c in flags.chars() {
        args.push(if c == 'p' { "-p" } else { "-a" });
    }
    if doubt {
        let r = ctx.cli(&args);
        if r.crashed() {
            return Err(format!("the disassembler crashed ({}): {}", describe_code(r.code), trunc(&r.err_s(), 300)));
        }
        if r.code != 0 {
            return Ok(Dis::Rejected(r.err_s()));
        }
    } else {
        let argv: Vec<String> = std::iter::once("waterbear").chain(args.iter().cloned()).map(|s| s.to_owned()).collect();
        if std::panic::catch_unwind(move || waterbear::run_command(&argv)).is_err() {
            return Err(format!("PANIC: {}", last_panic()));
        }
    }
    let t = std::fs::read(&o).map_err(|e| format!("no listing was written: {}", e))?;
    let t = String::from_utf8(t).map_err(|_| "the listing is not UTF-8".to_owned())?;
    ctx.note(|| format!("--- listing (-t {} {}):\n{}", ty, flags, trunc(&t, 3000)));
    Ok(Dis::Text(t))
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Meaning,
    Reach,
    Round,
}

pub fn judge(ctx: &mut Ctx, img: &[u8], ty: &str, flags: &str, what: What) -> Verdict {
    let (_, maybe) = cut_off(img, ty);
    let text = match disasm(ctx, img, ty, flags, maybe) {
        Err(e) => return Verdict::Fail(e),
        Ok(Dis::Rejected(e)) => {
            if !maybe {
                return Verdict::Fail(format!("a decodable image was rejected: {}", e));
            }
            return pass(false);
        }
        Ok(Dis::Text(t)) => t,
    };
    let p = flags.contains('p');
    if what == What::Round {
        return match ctx.assemble_path(&ctx.dir.join("o.s")) {
            Asm::Ok(b) if b == img => pass(true),
            Asm::Ok(b) => Verdict::Fail(format!("reassembled image differs: {}", diff(img, &b))),
            a => Verdict::Fail(format!("the listing does not assemble: {}", a.show())),
        };
    }
    let l = match parse(&text, p).and_then(|l| resolve(&l, p)) {
        Ok(l) => l,
        Err(e) => return Verdict::Fail(e),
    };
    if what == What::Meaning {
        return match judge_meaning(img, &l) {
            Ok(()) => pass(!l.ins.is_empty()),
            Err(e) => Verdict::Fail(e),
        };
    }
    match judge_reach(img, ty, &l, flags.contains('a')) {
        Ok(n) => {
            ctx.states += l.ins.len() as u64;
            ctx.transitions += n;
            ctx.validated += 1;
            pass(!l.ins.is_empty())
        }
        Err(e) => Verdict::Fail(e),
    }
}

// ---------------------------------------------------------------------------------------
// images

fn enc(mn: &str, vals: &[i64], at: i64) -> Option<Vec<u8>> {
    let f = isa::FORMS.iter().find(|f| f.mn == mn && f.ops.len() == vals.len() && !(f.ops.starts_with('I') && mn != "mov") && !f.ops.contains('N')).unwrap();
    isa::encode(f, vals, at)
}

/// Straight-line slots `bz +n ; instruction`.
fn slots(op: u8, part: usize, parts: usize) -> Vec<u8> {
    let f = &isa::FORMS[isa::form_of(op)];
    let n = isa::size(f);
    let total: usize = 1 << (8 * (n - 1));
    let per = (total + parts - 1) / parts;
    let mut v = vec![];
    for k in part * per..((part + 1) * per).min(total) {
        v.push(0x80);
        v.push(n as u8);
        v.push(op);
        if n > 1 {
            v.push((k & 0xFF) as u8);
        }
        if n > 2 {
            v.push((k >> 8) as u8);
        }
    }
    v.extend_from_slice(&[0xA0, 0xA0, 0xA0]);
    v
}

fn slot_space(t: Tier) -> Space {
    let mut cases: Vec<(u8, usize, usize)> = vec![];
    for op in 0..=255u8 {
        let n = isa::size(&isa::FORMS[isa::form_of(op)]);
        let parts = if n == 3 { 6 } else { 1 };
        for k in 0..parts {
            cases.push((op, k, parts));
        }
    }
    let _ = t;
    Space::new(
        "slots",
        "every opcode with every combination of operand bytes (11 million instructions), packed into straight-line images of up to 64 KB; case = opcode (1 and 2 byte instructions) or a sixth of an opcode's operand values",
        cases.len() as u64,
        move |i, ctx| {
            let (op, k, n) = cases[i as usize];
            judge(ctx, &slots(op, k, n), "raw", "", What::Meaning)
        },
    )
    .limit(60.0)
}

/// A 64 KB image whose entry points return, with an instruction at `at`.
fn placed(at: usize, len: usize, ins: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; len];
    for e in ENTRIES {
        if *e < len {
            v[*e] = 0xA0;
        }
    }
    if at != 0 {
        v[0] = 0x21;
        v[1] = (at >> 8) as u8;
        v[2] = (at & 0xFF) as u8;
    }
    for (k, b) in ins.iter().enumerate() {
        if at + k < len {
            v[at + k] = *b;
        }
    }
    if at + ins.len() < len {
        v[at + ins.len()] = 0xA0;
    }
    // stop wherever it goes, so that the listing stays short
    if let Some(d) = isa::decode(ins) {
        if let Some(t) = edges(&d, at).target {
            if t < len && !(t >= at && t < at + ins.len()) && t > 2 {
                v[t] = 0xA0;
            }
        }
    }
    v
}

const POS: &[usize] = &[0, 0x10, 0x12d, 0x131, 0xffd, 0xffe, 0xfff, 0x1000];

fn placed_space(t: Tier, what: What) -> Space {
    let by: &'static [u8] = t.q(&[0x00, 0x7f, 0x80, 0xfd, 0xff], &[0x00, 0x01, 0x02, 0x10, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0xef, 0xfd, 0xfe, 0xff]);
    let n = by.len();
    let np = POS.len();
    let short = match what {
        What::Meaning => "operands are position dependent: ",
        What::Reach => "edges around page boundaries: ",
        What::Round => "relative and absolute targets around page boundaries: ",
    };
    Space::new(
        "placed",
        &format!("{}every opcode, {} values of each operand byte, at each of {} addresses (start, page boundary) of a 4100 byte image, reached by jmpf", short, n, np),
        (256 * n * n * np) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let at = POS[m.take(np)];
            let b1 = by[m.take(n)];
            let b2 = by[m.take(n)];
            let op = m.take(256) as u8;
            let sz = isa::size(&isa::FORMS[isa::form_of(op)]);
            if (sz < 3 && b2 != by[0]) || (sz < 2 && b1 != by[0]) {
                return pass(false);
            }
            let ins = &[op, b1, b2][..sz];
            let img = placed(at, 0x1004, ins);
            judge(ctx, &img, "raw", if what == What::Reach { "pa" } else { "" }, what)
        },
    )
}

/// Slots at the very end of a 64 KB image.
fn high_space(what: What) -> Space {
    const BY: &[u8] = &[0x00, 0x01, 0x02, 0x10, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0xef, 0xfd, 0xfe, 0xff];
    Space::new(
        "high",
        "every opcode with 13 values of each operand byte, packed into the last bytes of a 65536 byte image (relative operands wrap there), at two alignments",
        512,
        move |i, ctx| {
            let op = (i / 2) as u8;
            let n = isa::size(&isa::FORMS[isa::form_of(op)]);
            let mut v = vec![];
            for b2 in BY {
                for b1 in BY {
                    if (n < 3 && *b2 != 0) || (n < 2 && *b1 != 0) {
                        continue;
                    }
                    v.extend_from_slice(&[0x80, n as u8]);
                    v.extend_from_slice(&[op, *b1, *b2][..n]);
                }
            }
            v.extend_from_slice(&[0xA0, 0xA0, 0xA0]);
            if i % 2 == 1 {
                v.push(0xA0);
            }
            let at = 0x10000 - v.len();
            let mut img = placed(0, at, &[]);
            img[0] = 0x21;
            img[1] = (at >> 8) as u8;
            img[2] = at as u8;
            img.extend_from_slice(&v);
            // operands reach everywhere: keep what lies before from being a slide of nops
            for k in (0x200..at).step_by(0x40) {
                img[k] = 0xA0;
            }
            judge(ctx, &img, "raw", if what == What::Reach { "pa" } else { "" }, what)
        },
    )
    .limit(60.0)
}

fn short_spaces(t: Tier, what: What) -> Vec<Space> {
    let fl = if what == What::Reach { "pa" } else { "" };
    let b3: &'static [u8] = &[0x00, 0x01, 0x02, 0x41, 0x7f, 0x80, 0xa0, 0xb8, 0x0d, 0x20, 0x21, 0x28, 0xfd, 0xfe, 0xff, 0x10];
    let mut v = vec![
        Space::new("len1", "every image of one byte", 256, move |i, ctx| judge(ctx, &[i as u8], "raw", fl, what)),
        Space::new("len2", "every image of two bytes", 65536, move |i, ctx| {
            judge(ctx, &[(i >> 8) as u8, i as u8], "raw", fl, what)
        }),
    ];
    if t == Tier::Thorough {
        v.push(Space::new(
            "len3",
            "every image of three bytes whose second byte is one of 64 and third one of 16",
            256 * 64 * 16,
            move |i, ctx| {
                let mut m = Mix(i);
                let a = m.take(256) as u8;
                let b = (m.take(64) * 4) as u8 + if a & 1 == 1 { 3 } else { 0 };
                let c = b3[m.take(16)];
                judge(ctx, &[a, b, c], "raw", fl, what)
            },
        ));
    }
    v
}

#[derive(Clone, Copy, Debug)]
enum K {
    Raw(&'static [u8]),
    Jump(&'static str, &'static [i64]),
}
#[derive(Clone, Copy, Debug)]
enum Tg {
    Slot(usize),
    Mid(usize),
    End,
    Beyond,
    Low,
}

fn menu(n: usize, rich: bool) -> Vec<(K, Option<Tg>)> {
    let mut v: Vec<(K, Option<Tg>)> = vec![
        (K::Raw(&[0x00]), None),
        (K::Raw(&[0xB8, 0x0D]), None), // not1 ext, 0
        (K::Raw(&[0xA0]), None),
        (K::Raw(&[0x23, 0x0D, 0xB8]), None), // mov, whose tail is another instruction
        (K::Raw(&[0x20]), None),             // callf, swallowing what follows
    ];
    if rich {
        v.push((K::Raw(&[0xB9, 0x0D]), None)); // not1 ext, 1
        v.push((K::Raw(&[0xB8, 0x0C]), None)); // not1 $10c, 0
        v.push((K::Raw(&[0xF8, 0x0D]), None)); // set1 ext, 0
        v.push((K::Raw(&[0xB0]), None)); // reti
        v.push((K::Raw(&[0x00, 0x41, 0x00]), None));
    }
    let mut js: Vec<K> = vec![
        K::Jump("br", &[]),
        K::Jump("bz", &[]),
        K::Jump("jmpf", &[]),
        K::Jump("call", &[]),
    ];
    if rich {
        js.push(K::Jump("jmp", &[]));
        js.push(K::Jump("callf", &[]));
        js.push(K::Jump("brf", &[]));
        js.push(K::Jump("callr", &[]));
        js.push(K::Jump("bnz", &[]));
        js.push(K::Jump("bp", &[0x101, 3]));
        js.push(K::Jump("dbnz", &[0x1a0]));
        js.push(K::Jump("bne", &[0x44]));
    }
    for j in js {
        for k in 0..n {
            v.push((j, Some(Tg::Slot(k))));
        }
        for k in 0..n {
            v.push((j, Some(Tg::Mid(k))));
        }
        v.push((j, Some(Tg::End)));
        v.push((j, Some(Tg::Beyond)));
        if rich {
            v.push((j, Some(Tg::Low)));
        }
    }
    v
}

/// An image made of a sequence of slots placed at `base`; None if a target is out of range.
fn sequence(items: &[(K, Option<Tg>)], base: usize, tail: &[u8]) -> Option<Vec<u8>> {
    let size = |k: &K| match k {
        K::Raw(b) => b.len(),
        K::Jump(mn, vals) => enc_size(mn, vals.len() + 1),
    };
    let mut starts = vec![];
    let mut p = base;
    for (k, _) in items {
        starts.push(p);
        p += size(k);
    }
    let len = p + tail.len();
    if len > 0x10000 {
        return None;
    }
    let mut img = vec![0u8; base];
    for e in ENTRIES {
        if *e < base {
            img[*e] = 0xA0;
        }
    }
    if base > 0 && base != 0x130 {
        img[0] = 0x21;
        img[1] = (base >> 8) as u8;
        img[2] = base as u8;
    }
    for ((k, t), s) in items.iter().zip(&starts) {
        match k {
            K::Raw(b) => img.extend_from_slice(b),
            K::Jump(mn, vals) => {
                let t = match t.unwrap() {
                    Tg::Slot(k) => starts[k],
                    Tg::Mid(k) => starts[k] + 1,
                    Tg::End => len,
                    Tg::Beyond => len + 3,
                    Tg::Low => 3,
                } & 0xFFFF;
                let mut a = vals.to_vec();
                a.push(t as i64);
                img.extend_from_slice(&enc(mn, &a, *s as i64)?);
            }
        }
    }
    img.extend_from_slice(tail);
    Some(img)
}

fn enc_size(mn: &str, n: usize) -> usize {
    isa::size(isa::FORMS.iter().find(|f| f.mn == mn && f.ops.len() == n && !(f.ops.starts_with('I') && mn != "mov") && !f.ops.contains('N')).unwrap())
}

fn seq_space(name: &str, n: usize, rich: bool, bases: &'static [usize], tails: &'static [&'static [u8]], ty: &'static [&'static str], what: What) -> Space {
    let m = menu(n, rich);
    let k = m.len();
    let mut total = (bases.len() * tails.len() * ty.len()) as u64;
    for _ in 0..n {
        total *= k as u64;
    }
    Space::new(
        name,
        &format!(
            "every sequence of {} slots from a menu of {} (plain instructions, `not1 ext,0`, overlapping bytes, and {} kinds of transfer to every slot, into the middle of every slot, to the end and past it), at {} addresses, with {} tails, as file type {}",
            n, k, if rich { 12 } else { 4 }, bases.len(), tails.len(), ty.join("/")
        ),
        total,
        move |i, ctx| {
            let mut x = Mix(i);
            let ty = ty[x.take(ty.len())];
            let tail = tails[x.take(tails.len())];
            let base = bases[x.take(bases.len())];
            let items: Vec<_> = (0..n).map(|_| m[x.take(k)]).collect();
            let img = match sequence(&items, base, tail) {
                Some(i) => i,
                None => return pass(false),
            };
            judge(ctx, &img, ty, if what == What::Reach { "pa" } else { "" }, what)
        },
    )
}

const TYPES: &[&str] = &["raw", "game", "file", "bios"];

/// Which entry points each file type has.
fn types_space(what: What) -> Space {
    // one byte of the first 0x200 bytes is a `br` to itself; everything else is `ret`
    Space::new(
        "types",
        "for every file type and every address below 0x210: an image of unreachable data in which that address holds a nop; only the entry points of the type may be listed",
        (TYPES.len() * 0x210 * 2) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let ty = TYPES[m.take(TYPES.len())];
            let at = m.take(0x210);
            let fill = [0xA0u8, 0xB0][m.take(2)];
            let mut img = vec![fill; 0x210];
            img[at] = 0x00;
            judge(ctx, &img, ty, if what == What::Reach { "pa" } else { "" }, what)
        },
    )
}

/// Every instruction that can transfer control, with every displacement.
fn transfers_space(t: Tier, what: What) -> Space {
    let others: &'static [u8] = t.q(&[0xfe], &[0x00, 0x01, 0x0d, 0x7f, 0x80, 0xfd, 0xfe, 0xff]);
    let n = others.len();
    Space::new(
        "transfers",
        &format!("every opcode at address $200 of an image of $310 bytes, a `ret` behind it and where it goes, with every value of either operand byte and {} values of the other one: targets before, behind, inside and at the instruction itself", n),
        (256 * 256 * n * 2) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let op = m.take(256) as u8;
            let x = m.take(256) as u8;
            let y = others[m.take(n)];
            let first = m.take(2) == 0;
            let d = isa::size(&isa::FORMS[isa::form_of(op)]);
            if (d < 3 && (!first || y != others[0])) || (d < 2 && x != 0) || (d == 3 && first && t == Tier::Quick && what == What::Round) {
                return pass(false);
            }
            let ins = if first { [op, x, y] } else { [op, y, x] };
            let img = placed(0x200, 0x310, &ins[..d]);
            judge(ctx, &img, "raw", if what == What::Reach { "pa" } else { "" }, what)
        },
    )
}

/// All four combinations of the output options list the same program.
fn options_space(t: Tier) -> Space {
    let n = t.q(1, 2);
    let m = menu(n, true);
    let k = m.len();
    let mut total = 4;
    for _ in 0..n {
        total *= k as u64;
    }
    Space::new(
        "options",
        "every sequence of slots (full menu) with each file type, listed with all four combinations of -p and -a: same program, prefixes and lists only where asked for",
        total,
        move |i, ctx| {
            let mut x = Mix(i);
            let ty = TYPES[x.take(4)];
            let items: Vec<_> = (0..n).map(|_| m[x.take(k)]).collect();
            let img = match sequence(&items, 0x130, &[0x41, 0, 0x42]) {
                Some(i) => i,
                None => return pass(false),
            };
            let mut first: Option<Vec<Item>> = None;
            let maybe = cut_off(&img, ty).1;
            for fl in ["", "p", "a", "pa"] {
                let t = match disasm(ctx, &img, ty, fl, maybe) {
                    Err(e) => return Verdict::Fail(e),
                    Ok(Dis::Rejected(_)) => return pass(false),
                    Ok(Dis::Text(t)) => t,
                };
                let p = fl.contains('p');
                let lines = match parse(&t, p) {
                    Ok(l) => l,
                    Err(e) => return Verdict::Fail(e),
                };
                let r = resolve(&lines, p).and_then(|l| judge_reach(&img, ty, &l, fl.contains('a')));
                if let Err(e) = r {
                    return Verdict::Fail(format!("with options {:?}: {}", fl, e));
                }
                let items: Vec<Item> = lines
                    .into_iter()
                    .map(|l| match l.item {
                        Item::Ins(a, b, ..) => Item::Ins(a, b, None, None),
                        x => x,
                    })
                    .collect();
                match &first {
                    None => first = Some(items),
                    Some(f) if *f != items => return Verdict::Fail(format!("options {:?} change the program listed", fl)),
                    _ => (),
                }
            }
            pass(true)
        },
    )
}

/// Unreachable data in runs, for every way to cut it.
fn data_space(t: Tier, what: What) -> Space {
    let runs: &'static [usize] = t.q(&[1, 15, 16, 17], &[1, 2, 15, 16, 17, 31, 33]);
    let vals: &'static [u8] = t.q(&[0x00, 0x41, 0xff], &[0x00, 0x41, 0x3b, 0xff]);
    let n = runs.len() * vals.len();
    let d = 3usize;
    let starts: &'static [usize] = &[0x5, 0x14, 0x131];
    Space::new(
        "data",
        "every sequence of three runs of unreachable bytes (run lengths around the 16 bytes of a line, values including zero), starting behind each of three places, with 0 or 1 trailing zero run",
        (n * n * n * starts.len() * 2) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let st = starts[m.take(starts.len())];
            let trail = m.take(2);
            let mut img = vec![0u8; st];
            for e in ENTRIES {
                if *e < st {
                    img[*e] = 0xA0;
                }
            }
            for _ in 0..d {
                let r = runs[m.take(runs.len())];
                let v = vals[m.take(vals.len())];
                for k in 0..r {
                    // distinct values, so that a shift by one is visible
                    img.push(if v == 0 { 0 } else { v.wrapping_sub(k as u8).max(1) });
                }
            }
            if trail == 1 {
                img.extend_from_slice(&[0; 40]);
            }
            for e in ENTRIES {
                if *e < img.len() {
                    img[*e] = 0xA0;
                }
            }
            judge(ctx, &img, "raw", if what == What::Reach { "pa" } else { "" }, what)
        },
    )
}

fn bytes_space(what: What) -> Space {
    Space::new(
        "byte-values",
        "every byte value as unreachable data, alone, doubled, and after every class of character (the listing shows text in a comment)",
        256 * 8,
        move |i, ctx| {
            let mut m = Mix(i);
            let b = m.take(256) as u8;
            let pre: &[u8] = [&b""[..], b"A", b";", b"\\", b"\"", b"\n", b" ", b"."][m.take(8)];
            let mut img = vec![0xA0];
            img.push(0);
            img.push(0);
            img.push(0xA0);
            img.extend_from_slice(pre);
            img.push(b);
            img.push(b);
            if img.len() > 0xb {
                img[0xb] = 0xA0;
            }
            judge(ctx, &img, "raw", if what == What::Reach { "pa" } else { "" }, what)
        },
    )
}

fn length_space(t: Tier, what: What) -> Space {
    let mut lens: Vec<usize> = (1..=t.q(700, 2100)).collect();
    for l in [4095, 4096, 4097, 32767, 32768, 32769, 65023, 65024, 65534, 65535, 65536] {
        lens.push(l);
    }
    let n = lens.len();
    Space::new(
        "lengths",
        "every image length up to 700 (thorough 2100) and lengths around powers of two up to 65536, filled with `ret`, with zeros after the entry points, or with data",
        (n * 3) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let len = lens[m.take(n)];
            let fill = m.take(3);
            let mut img = vec![[0xA0u8, 0x00, 0x41][fill]; len];
            for e in ENTRIES {
                if *e < len {
                    img[*e] = 0xA0;
                }
            }
            judge(ctx, &img, "raw", if what == What::Reach { "pa" } else { "" }, what)
        },
    )
}

/// Every opcode with every value of its first operand byte, in sequence with its neighbours.
fn pair_space(what: What) -> Space {
    Space::new(
        "opcode-pairs",
        "every pair of opcodes in sequence (operand bytes fixed), reached by fall-through, at 0x130",
        65536,
        move |i, ctx| {
            let a = (i >> 8) as u8;
            let b = i as u8;
            let mut img = vec![0u8; 0x130];
            for e in ENTRIES {
                if *e < 0x130 {
                    img[*e] = 0xA0;
                }
            }
            for op in [a, b] {
                let n = isa::size(&isa::FORMS[isa::form_of(op)]);
                img.extend_from_slice(&[op, 0x01, 0x02][..n]);
            }
            img.extend_from_slice(&[0xA0, 0xA0, 0xA0, 0xA0, 0xA0, 0xA0]);
            judge(ctx, &img, "raw", if what == What::Reach { "pa" } else { "" }, what)
        },
    )
}

fn truncated_space() -> Space {
    Space::new(
        "cut-off",
        "every opcode with every possible number of its operand bytes missing at the end of the image, reached as an entry point, by fall-through, by a jump and by a relative branch, at three addresses",
        256 * 3 * 4 * 3,
        |i, ctx| {
            let mut m = Mix(i);
            let op = m.take(256) as u8;
            let have = m.take(3);
            let how = m.take(4);
            let at = [0x130usize, 0x200, 0xfff][m.take(3)];
            let n = isa::size(&isa::FORMS[isa::form_of(op)]);
            if have >= n {
                return pass(false);
            }
            let mut img = placed(0, at, &[0xA0]);
            match how {
                0 => {
                    if at != 0x130 {
                        return pass(false);
                    }
                }
                1 => {
                    img[at - 1] = 0x00;
                    img[at - 2] = 0x00;
                    img[0] = 0x21;
                    img[1] = ((at - 2) >> 8) as u8;
                    img[2] = (at - 2) as u8;
                }
                2 => {
                    img[0] = 0x21;
                    img[1] = (at >> 8) as u8;
                    img[2] = at as u8;
                }
                _ => {
                    img[at - 3] = 0x80;
                    img[at - 2] = 1;
                    img[at - 1] = 0xA0;
                    img[0] = 0x21;
                    img[1] = ((at - 3) >> 8) as u8;
                    img[2] = (at - 3) as u8;
                }
            }
            img.push(op);
            for k in 0..have {
                img.push([0x01, 0x02][k]);
            }
            let maybe = cut_off(&img, "raw").1;
            match disasm(ctx, &img, "raw", "p", true) {
                Err(e) => Verdict::Fail(e),
                Ok(Dis::Rejected(e)) => {
                    if !maybe {
                        Verdict::Fail(format!("a decodable image was rejected: {}", e))
                    } else if e.trim().is_empty() {
                        Verdict::Fail("rejected without a message".into())
                    } else {
                        pass(true)
                    }
                }
                Ok(Dis::Text(t)) => match parse(&t, true).and_then(|l| resolve(&l, true)).and_then(|l| judge_meaning(&img, &l)) {
                    Ok(()) => pass(true),
                    Err(e) => Verdict::Fail(e),
                },
            }
        },
    )
}

/// The names the listing defines for registers and PSW bits.
fn names_space() -> Space {
    Space::new(
        "names",
        "every direct address and every bit as operand of every instruction taking them (set1, clr1, not1, bp, bpc, bn: 512 x 8): the name printed is the one the listing defines for that value",
        6 * 8,
        |i, ctx| {
            let mut m = Mix(i);
            let mn = ["set1", "clr1", "not1", "bp", "bpc", "bn"][m.take(6)];
            let bit = m.take(8) as i64;
            let mut img: Vec<u8> = vec![];
            for d in 0..512i64 {
                let next = img.len() as i64 + 3;
                let mut vals = vec![d, bit];
                if mn.starts_with('b') {
                    vals.push(next);
                }
                img.extend_from_slice(&enc(mn, &vals, img.len() as i64).unwrap());
            }
            img.extend_from_slice(&[0xA0, 0xA0, 0xA0]);
            judge(ctx, &img, "raw", "", What::Meaning)
        },
    )
}

const NO: &[&[u8]] = &[&[]];
const TAILS: &[&[u8]] = &[&[], &[0xA0, 0x00, 0x41, 0x00]];

pub fn b01(t: Tier) -> Check {
    let mut spaces = vec![slot_space(t), placed_space(t, What::Meaning), high_space(What::Meaning), truncated_space(), names_space()];
    spaces.extend(short_spaces(t, What::Meaning).into_iter().take(t.q(1, 3)));
    if t == Tier::Thorough {
        spaces.push(pair_space(What::Meaning));
        spaces.push(seq_space("seq3", 3, false, &[0x130], NO, &["raw"], What::Meaning));
    }
    Check {
        level: "exploration",
        spaces,
        assumptions: vec![
            "The listing's meaning is taken from the documented instruction syntax and the names the listing itself defines (EQU lines and labels), using an independent instruction table.".into(),
        ],
    }
}

pub fn b02(t: Tier) -> Check {
    let w = What::Reach;
    let mut spaces = vec![
        seq_space("seq2", 2, true, &[0, 0x130, 0xfff], TAILS, &["raw"], w),
        seq_space("seq3", 3, false, &[0x130], NO, &["raw"], w),
        types_space(w),
        transfers_space(t, w),
        options_space(t),
        data_space(t, w),
        bytes_space(w),
        seq_space("seq1-high", 1, true, &[0xfff8, 0xfffd], NO, &["raw"], w),
    ];
    spaces.extend(short_spaces(t, w).into_iter().take(t.q(1, 3)));
    if t == Tier::Thorough {
        spaces.push(placed_space(Tier::Quick, w));
        spaces.push(high_space(w));
        spaces.push(seq_space("seq2-types", 2, true, &[0x100, 0xfff], TAILS, TYPES, w));
        spaces.push(seq_space("seq3-rich", 3, true, &[0x130], NO, &["raw"], w));
        spaces.push(seq_space("seq4", 4, false, &[0x130], NO, &["raw"], w));
        spaces.push(seq_space("seq3-at0", 3, false, &[0, 0xfff], TAILS, &["raw"], w));
        spaces.push(pair_space(w));
    }
    Check {
        level: "model_checking",
        spaces,
        assumptions: vec![
            "A far jump behind `not1 ext, 0` that can also be reached in another way may or may not be followed.".into(),
            "States are listed instructions, transitions control-flow edges; each image's graph is checked against the real listing.".into(),
        ],
    }
}

pub fn b03(t: Tier) -> Check {
    let w = What::Round;
    let mut spaces = vec![
        seq_space("seq2", 2, false, &[0, 0x130, 0xfff], TAILS, &["raw"], w),
        data_space(t, w),
        bytes_space(w),
        length_space(t, w),
        types_space(w),
        transfers_space(t, w),
        seq_space("seq1-high", 1, true, &[0xfff8, 0xfffd], NO, &["raw"], w),
    ];
    spaces.extend(short_spaces(t, w).into_iter().take(t.q(1, 3)));
    if t == Tier::Thorough {
        spaces.push(placed_space(Tier::Quick, w));
        spaces.push(seq_space("seq2-rich", 2, true, &[0, 0x130, 0xfff], TAILS, TYPES, w));
        spaces.push(high_space(w));
        spaces.push(seq_space("seq3", 3, false, &[0x130], NO, &["raw"], w));
        spaces.push(pair_space(w));
    } else {
        spaces.push(seq_space("seq1-rich", 1, true, &[0, 0x130, 0xfff], TAILS, TYPES, w));
    }
    Check {
        level: "exploration",
        spaces,
        assumptions: vec!["The oracle is the image itself: the listing is assembled by the real assembler.".into()],
    }
}
