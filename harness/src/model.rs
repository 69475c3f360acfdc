//! Reference assembler: programs as structures, printed to source text for the code under
//! test and evaluated here by walking them once (two passes) with an output cursor.

use crate::isa;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    N(i64),
    /// a number with a given spelling
    S(i64, String),
    Id(String),
    P(Box<E>),
    U(char, Box<E>),
    B(char, Box<E>, Box<E>),
    /// `%name`: macro argument inside a macro body
    Arg(String),
    /// `name%`: hygienic label
    Hyg(String),
}

pub fn n(v: i64) -> E {
    E::N(v)
}
pub fn id(s: &str) -> E {
    E::Id(s.to_owned())
}
pub fn bin(op: char, a: E, b: E) -> E {
    E::B(op, Box::new(a), Box::new(b))
}
pub fn un(op: char, a: E) -> E {
    E::U(op, Box::new(a))
}
pub fn par(a: E) -> E {
    E::P(Box::new(a))
}

fn prec(op: char) -> u8 {
    match op {
        '&' | '|' | '^' => 1,
        '+' | '-' => 2,
        _ => 3,
    }
}

impl E {
    /// Prints exactly this structure: parentheses are added only where needed.
    pub fn show(&self) -> String {
        self.pr(0)
    }
    fn pr(&self, ctx: u8) -> String {
        match self {
            E::N(v) => {
                if *v < 0 {
                    // a negative constant is a prefix minus
                    format!("-{}", -v)
                } else {
                    format!("{}", v)
                }
            }
            E::S(_, s) => s.clone(),
            E::Id(s) => s.clone(),
            E::Arg(s) => format!("%{}", s),
            E::Hyg(s) => format!("{}%", s),
            E::P(e) => format!("({})", e.pr(0)),
            E::U(op, e) => format!("{}{}", op, e.pr(9)),
            E::B(op, a, b) => {
                let p = prec(*op);
                let s = format!("{} {} {}", a.pr(p), op, b.pr(p + 1));
                if p < ctx {
                    format!("({})", s)
                } else {
                    s
                }
            }
        }
    }

    pub fn eval(&self, env: &dyn Fn(&str) -> Option<i64>) -> Result<i64, String> {
        let chk = |v: i64| {
            if v >= -(1 << 31) && v < (1 << 31) {
                Ok(v)
            } else {
                Err("overflow".to_owned())
            }
        };
        match self {
            E::N(v) | E::S(v, _) => chk(*v),
            E::Id(s) => env(&s.to_lowercase()).ok_or_else(|| format!("undefined {}", s)),
            E::P(e) => e.eval(env),
            E::U('-', e) => chk(-e.eval(env)?),
            E::U('>', e) => Ok((e.eval(env)? >> 8) & 0xFF),
            E::U('<', e) => Ok(e.eval(env)? & 0xFF),
            E::B(op, a, b) => {
                let a = a.eval(env)?;
                let b = b.eval(env)?;
                match op {
                    '*' => chk(a * b),
                    '/' => {
                        if b == 0 {
                            Err("division by zero".to_owned())
                        } else {
                            chk(a / b)
                        }
                    }
                    '+' => chk(a + b),
                    '-' => chk(a - b),
                    '&' => Ok(a & b),
                    '|' => Ok(a | b),
                    '^' => Ok(a ^ b),
                    _ => unreachable!(),
                }
            }
            E::U(..) => unreachable!(),
            E::Arg(_) | E::Hyg(_) => Err("macro name outside of macro".to_owned()),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum O {
    /// `#expr`
    Imm(E),
    Ex(E),
    /// `@Rn`
    Ind(u8),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bv {
    E(E),
    /// string contents (bytes to emit) and its spelling between the quotes
    Str(Vec<u8>, String),
}

pub fn bstr(s: &str) -> Bv {
    Bv::Str(s.as_bytes().to_vec(), s.to_owned())
}

#[derive(Clone, Debug, PartialEq)]
pub enum L {
    /// `name:`
    Label(String),
    /// `name: instr`
    LabelI(String, Box<L>),
    /// `.name` alone on its line
    Dot(String),
    I(String, Vec<O>),
    Byte(Vec<Bv>),
    Word(Vec<E>),
    Org(i64),
    Cnop(E, E),
    Text(i64, Vec<u8>, String),
    Str(i64, Vec<u8>, String),
    Alias(String, E),
    Var(String, E),
    /// any other text which produces nothing (comment, blank line)
    Nothing(String),
    Macro(String, Vec<String>, Vec<L>),
    /// text that must be rejected
    Bad(String),
}

pub fn ins(mn: &str, ops: Vec<O>) -> L {
    L::I(mn.to_owned(), ops)
}
pub fn label(s: &str) -> L {
    L::Label(s.to_owned())
}

pub fn show_op(o: &O) -> String {
    match o {
        O::Imm(e) => format!("#{}", e.show()),
        O::Ex(e) => e.show(),
        O::Ind(r) => format!("@R{}", r),
    }
}

pub fn show(l: &L) -> String {
    match l {
        L::Label(s) => format!("{}:", s),
        L::LabelI(s, i) => format!("{}: {}", s, show(i).trim_start()),
        L::Dot(s) => s.clone(),
        L::I(m, ops) => format!(
            " {} {}",
            m,
            ops.iter().map(show_op).collect::<Vec<_>>().join(", ")
        ),
        L::Byte(v) => format!(
            " .byte {}",
            v.iter()
                .map(|b| match b {
                    Bv::E(e) => e.show(),
                    Bv::Str(_, s) => format!("\"{}\"", s),
                })
                .collect::<Vec<_>>()
                .join(", ")
        ),
        L::Word(v) => format!(
            " .word {}",
            v.iter().map(|e| e.show()).collect::<Vec<_>>().join(", ")
        ),
        L::Org(v) => format!(" .org {}", v),
        L::Cnop(a, m) => format!(" .cnop {}, {}", a.show(), m.show()),
        L::Text(k, _, s) => format!(" .text {} \"{}\"", k, s),
        L::Str(k, _, s) => format!(" .string {} \"{}\"", k, s),
        L::Alias(s, e) => format!("{} equ {}", s, e.show()),
        L::Var(s, e) => format!("{} = {}", s, e.show()),
        L::Nothing(s) | L::Bad(s) => s.clone(),
        L::Macro(name, args, body) => {
            let mut t = format!(
                "%macro {} {}\n",
                name,
                args.iter()
                    .map(|a| format!("%{}", a))
                    .collect::<Vec<_>>()
                    .join(", ")
            );
            for b in body {
                t.push_str(&show(b));
                t.push('\n');
            }
            t.push_str("%end");
            t
        }
    }
}

pub fn print(p: &[L]) -> String {
    let mut s = String::new();
    for l in p {
        s.push_str(&show(l));
        s.push('\n');
    }
    s
}

// ---------------------------------------------------------------- macro expansion

type Macros<'a> = HashMap<(String, usize), (&'a Vec<String>, &'a Vec<L>)>;

fn is_mnemonic(s: &str) -> bool {
    isa::FORMS.iter().any(|f| f.mn == s)
}

fn sub_e(e: &E, args: &HashMap<String, O>, hyg: &dyn Fn(&str) -> Option<String>) -> Result<E, String> {
    Ok(match e {
        E::Arg(a) => match args.get(&a.to_lowercase()) {
            Some(O::Ex(x)) => E::P(Box::new(x.clone())),
            Some(_) => return Err(format!("%{} is not an expression", a)),
            None => return Err(format!("no macro argument {}", a)),
        },
        E::Hyg(h) => match hyg(&h.to_lowercase()) {
            Some(s) => E::Id(s),
            None => return Err(format!("no macro label {}", h)),
        },
        E::P(x) => E::P(Box::new(sub_e(x, args, hyg)?)),
        E::U(op, x) => E::U(*op, Box::new(sub_e(x, args, hyg)?)),
        E::B(op, x, y) => E::B(
            *op,
            Box::new(sub_e(x, args, hyg)?),
            Box::new(sub_e(y, args, hyg)?),
        ),
        other => other.clone(),
    })
}

struct Expander<'a> {
    macros: Macros<'a>,
    calls: usize,
}

impl<'a> Expander<'a> {
    fn call(&mut self, name: &str, ops: &[O], depth: usize, out: &mut Vec<L>) -> Result<(), String> {
        if depth > 40 {
            return Err("recursive macro".to_owned());
        }
        let key = (name.to_lowercase(), ops.len());
        let (params, body) = match self.macros.get(&key) {
            Some((p, b)) => (*p, *b),
            None => return Err(format!("no macro {} with {} arguments", name, ops.len())),
        };
        self.calls += 1;
        let callno = self.calls;
        let args: HashMap<String, O> = params
            .iter()
            .map(|s| s.to_lowercase())
            .zip(ops.iter().cloned())
            .collect();
        let mut labels: HashMap<String, String> = HashMap::new();
        for l in body {
            let h = match l {
                L::Label(s) | L::Dot(s) | L::LabelI(s, _) if s.ends_with('%') => s,
                _ => continue,
            };
            let h = h.trim_end_matches('%').to_lowercase();
            // a name no program can contain
            if labels.insert(h.clone(), format!("{}\u{1}{}", h, callno)).is_some() {
                return Err("duplicate macro label".to_owned());
            }
        }
        let hyg = |s: &str| labels.get(s).cloned();
        for l in body {
            self.stmt(l, &args, &hyg, depth, out)?;
        }
        Ok(())
    }

    fn stmt(
        &mut self,
        l: &L,
        args: &HashMap<String, O>,
        hyg: &dyn Fn(&str) -> Option<String>,
        depth: usize,
        out: &mut Vec<L>,
    ) -> Result<(), String> {
        match l {
            L::Label(s) | L::Dot(s) => {
                let name = if s.ends_with('%') {
                    hyg(&s.trim_end_matches('%').to_lowercase()).unwrap()
                } else {
                    s.clone()
                };
                out.push(L::Label(name));
            }
            L::LabelI(s, i) => {
                self.stmt(&L::Label(s.clone()), args, hyg, depth, out)?;
                self.stmt(i, args, hyg, depth, out)?;
            }
            L::I(m, ops) => {
                let mut nops = vec![];
                for o in ops {
                    nops.push(match o {
                        O::Ex(E::Arg(a)) => match args.get(&a.to_lowercase()) {
                            Some(x) => x.clone(),
                            None => return Err(format!("no macro argument {}", a)),
                        },
                        O::Ex(e) => O::Ex(sub_e(e, args, hyg)?),
                        O::Imm(e) => O::Imm(sub_e(e, args, hyg)?),
                        O::Ind(r) => O::Ind(*r),
                    });
                }
                if self.macros.contains_key(&(m.to_lowercase(), ops.len())) {
                    self.call(m, &nops, depth + 1, out)?;
                } else {
                    out.push(L::I(m.clone(), nops));
                }
            }
            L::Nothing(_) => {}
            _ => return Err("not allowed in a macro".to_owned()),
        }
        Ok(())
    }
}

pub fn expand(p: &[L]) -> Result<Vec<L>, String> {
    let mut macros: Macros = HashMap::new();
    for l in p {
        if let L::Macro(name, params, body) = l {
            let name = name.to_lowercase();
            if is_mnemonic(&name) {
                return Err("macro named like an instruction".to_owned());
            }
            let mut seen = std::collections::HashSet::new();
            for a in params {
                if !seen.insert(a.to_lowercase()) {
                    return Err("duplicate macro parameter".to_owned());
                }
            }
            for b in body {
                match b {
                    L::Label(_) | L::Dot(_) | L::I(..) | L::LabelI(..) | L::Nothing(_) => {}
                    _ => return Err("statement not allowed in a macro".to_owned()),
                }
            }
            if macros.insert((name, params.len()), (params, body)).is_some() {
                return Err("duplicate macro".to_owned());
            }
        }
    }
    let mut ex = Expander { macros, calls: 0 };
    let mut out = vec![];
    for l in p {
        match l {
            L::Macro(..) => {}
            L::I(m, ops) if !is_mnemonic(&m.to_lowercase()) => ex.call(m, ops, 0, &mut out)?,
            L::LabelI(s, i) => {
                out.push(L::Label(s.clone()));
                match &**i {
                    L::I(m, ops) if !is_mnemonic(&m.to_lowercase()) => {
                        ex.call(m, ops, 0, &mut out)?
                    }
                    i => out.push(i.clone()),
                }
            }
            other => out.push(other.clone()),
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- assembly

fn find_form(m: &str, ops: &[O]) -> Option<&'static isa::Form> {
    let m = m.to_lowercase();
    isa::FORMS.iter().find(|f| {
        f.mn == m
            && f.ops.len() == ops.len()
            && f.ops.bytes().zip(ops).all(|(k, o)| match o {
                O::Imm(_) => k == b'I',
                O::Ind(_) => k == b'N',
                O::Ex(_) => k != b'I' && k != b'N',
            })
    })
}

fn cnop(pos: i64, a: &E, m: &E) -> Result<i64, String> {
    let none = |_: &str| None;
    let a = a.eval(&none)?;
    let m = m.eval(&none)?;
    let base = if m == 0 {
        0
    } else if m < 0 || a < 0 {
        return Err("negative .cnop".to_owned());
    } else {
        (pos + m - 1) / m * m
    };
    Ok(base + a)
}

fn length(l: &L, pos: i64) -> Result<i64, String> {
    Ok(match l {
        L::I(m, ops) => match find_form(m, ops) {
            Some(f) => pos + isa::size(f) as i64,
            None => return Err(format!("no such instruction form: {}", show(l))),
        },
        L::LabelI(_, i) => length(i, pos)?,
        L::Byte(v) => {
            pos + v
                .iter()
                .map(|b| match b {
                    Bv::E(_) => 1,
                    Bv::Str(s, _) => s.len() as i64,
                })
                .sum::<i64>()
        }
        L::Word(v) => pos + 2 * v.len() as i64,
        L::Org(v) => {
            if *v > 0xFFFF {
                return Err(".org out of range".to_owned());
            }
            *v
        }
        L::Cnop(a, m) => cnop(pos, a, m)?,
        L::Text(k, s, _) | L::Str(k, s, _) => {
            if s.len() as i64 > *k {
                return Err("text too long".to_owned());
            }
            pos + k
        }
        _ => pos,
    })
}

pub struct Assembled {
    pub bytes: Vec<u8>,
    pub globals: HashMap<String, i64>,
    pub lines: usize,
}

pub fn assemble(p: &[L]) -> Result<Vec<u8>, String> {
    assemble_full(p).map(|a| a.bytes)
}

pub fn assemble_full(p: &[L]) -> Result<Assembled, String> {
    for l in p {
        if let L::Bad(s) = l {
            return Err(format!("malformed line: {}", s));
        }
    }
    let p = expand(p)?;
    let mut flat: Vec<L> = vec![];
    for l in p {
        match l {
            L::LabelI(s, i) => {
                flat.push(L::Label(s));
                flat.push(*i);
            }
            L::Dot(s) => flat.push(L::Label(s)),
            l => flat.push(l),
        }
    }
    // pass 1: positions and labels. Scopes are numbered; scope 0 is before any label.
    let mut globals: HashMap<String, i64> = HashMap::new();
    let mut locals: Vec<HashMap<String, i64>> = vec![HashMap::new()];
    let mut pos = 0i64;
    let mut max = 0i64;
    for l in &flat {
        match l {
            L::Label(s) => {
                let s = s.to_lowercase();
                let m = if s.starts_with('.') {
                    locals.last_mut().unwrap()
                } else {
                    locals.push(HashMap::new());
                    &mut globals
                };
                if m.insert(s.clone(), pos).is_some() {
                    return Err(format!("{} defined twice", s));
                }
            }
            _ => pos = length(l, pos)?,
        }
        max = max.max(pos);
        if max > 1 << 24 {
            return Err("too large".to_owned());
        }
    }
    // pass 2: aliases and variables, in order
    for l in &flat {
        if let L::Alias(s, e) | L::Var(s, e) = l {
            let v = e.eval(&|x| if x.starts_with('.') { None } else { globals.get(x).copied() })?;
            let s = s.to_lowercase();
            if globals.insert(s.clone(), v).is_some() {
                return Err(format!("{} defined twice", s));
            }
        }
    }
    // pass 3: bytes
    let mut out = vec![0u8; max as usize];
    let mut scope = 0;
    let mut pos = 0i64;
    for l in &flat {
        let env = |x: &str| {
            if x.starts_with('.') {
                locals[scope].get(x).copied()
            } else {
                globals.get(x).copied()
            }
        };
        let mut bytes: Vec<u8> = vec![];
        match l {
            L::Label(s) => {
                if !s.starts_with('.') {
                    scope += 1;
                }
            }
            L::I(m, ops) => {
                let form = find_form(m, ops).unwrap();
                let mut vals = vec![];
                for o in ops {
                    vals.push(match o {
                        O::Imm(e) | O::Ex(e) => e.eval(&env)?,
                        O::Ind(r) => *r as i64,
                    });
                }
                bytes = isa::encode(form, &vals, pos)
                    .ok_or_else(|| format!("operand out of range: {}", show(l)))?;
            }
            L::Byte(v) => {
                for b in v {
                    match b {
                        Bv::E(e) => {
                            let v = e.eval(&env)?;
                            if v < -128 || v > 255 {
                                return Err("byte out of range".to_owned());
                            }
                            bytes.push(v as u8);
                        }
                        Bv::Str(s, _) => bytes.extend_from_slice(s),
                    }
                }
            }
            L::Word(v) => {
                for e in v {
                    let v = e.eval(&env)?;
                    if v < -32768 || v > 65535 {
                        return Err("word out of range".to_owned());
                    }
                    bytes.push(v as u8);
                    bytes.push((v >> 8) as u8);
                }
            }
            L::Text(k, s, _) => {
                bytes.extend_from_slice(s);
                bytes.resize(*k as usize, b' ');
            }
            L::Str(k, s, _) => {
                bytes.extend_from_slice(s);
                bytes.resize(*k as usize, 0);
            }
            _ => {}
        }
        out[pos as usize..pos as usize + bytes.len()].copy_from_slice(&bytes);
        pos = length(l, pos)?;
    }
    Ok(Assembled {
        bytes: out,
        globals,
        lines: flat.len(),
    })
}

/// Compares the code under test with the model on one program.
pub fn compare(expected: &Result<Vec<u8>, String>, got: &crate::engine::Asm) -> Result<(), String> {
    use crate::engine::{diff, hex, Asm};
    match (expected, got) {
        (Ok(a), Asm::Ok(b)) if a == b => Ok(()),
        (Err(_), Asm::Err(_)) => Ok(()),
        (Ok(a), Asm::Ok(b)) => Err(format!(
            "wrong bytes: expected {} got {} ({})",
            hex(a),
            hex(b),
            diff(a, b)
        )),
        (Ok(a), g) => Err(format!("expected {} bytes [{}], got {}", a.len(), hex(a), g.show())),
        (Err(e), g) => Err(format!("expected rejection ({}), got {}", e, g.show())),
    }
}
