//! The instruction set, transcribed from the reference manual (docs/instructions.md):
//! mnemonic, operand kinds, bit pattern. Written independently of the code under test.
//!
//! Operand kinds: I `#i8`, D `d9`, B `b3`, N `@Ri`, A `a12`, L `a16`, S `r8`, W `r16`.
//! In patterns a letter is a bit of that operand, most significant bit first;
//! for W, `w` is the low byte and `v` the high byte.

pub struct Form {
    pub mn: &'static str,
    pub ops: &'static str,
    pub pat: &'static str,
}

pub const FORMS: &[Form] = &[
    f("add", "I", "10000001 iiiiiiii"),
    f("add", "D", "1000001d dddddddd"),
    f("add", "N", "100001nn"),
    f("addc", "I", "10010001 iiiiiiii"),
    f("addc", "D", "1001001d dddddddd"),
    f("addc", "N", "100101nn"),
    f("sub", "I", "10100001 iiiiiiii"),
    f("sub", "D", "1010001d dddddddd"),
    f("sub", "N", "101001nn"),
    f("subc", "I", "10110001 iiiiiiii"),
    f("subc", "D", "1011001d dddddddd"),
    f("subc", "N", "101101nn"),
    f("inc", "D", "0110001d dddddddd"),
    f("inc", "N", "011001nn"),
    f("dec", "D", "0111001d dddddddd"),
    f("dec", "N", "011101nn"),
    f("mul", "", "00110000"),
    f("div", "", "01000000"),
    f("and", "I", "11100001 iiiiiiii"),
    f("and", "D", "1110001d dddddddd"),
    f("and", "N", "111001nn"),
    f("or", "I", "11010001 iiiiiiii"),
    f("or", "D", "1101001d dddddddd"),
    f("or", "N", "110101nn"),
    f("xor", "I", "11110001 iiiiiiii"),
    f("xor", "D", "1111001d dddddddd"),
    f("xor", "N", "111101nn"),
    f("rol", "", "11100000"),
    f("rolc", "", "11110000"),
    f("ror", "", "11000000"),
    f("rorc", "", "11010000"),
    f("clr1", "DB", "110d1bbb dddddddd"),
    f("set1", "DB", "111d1bbb dddddddd"),
    f("not1", "DB", "101d1bbb dddddddd"),
    f("ld", "D", "0000001d dddddddd"),
    f("ld", "N", "000001nn"),
    f("st", "D", "0001001d dddddddd"),
    f("st", "N", "000101nn"),
    f("mov", "ID", "0010001d dddddddd iiiiiiii"),
    f("mov", "IN", "001001nn iiiiiiii"),
    f("ldc", "", "11000001"),
    f("push", "D", "0110000d dddddddd"),
    f("pop", "D", "0111000d dddddddd"),
    f("xch", "D", "1100001d dddddddd"),
    f("xch", "N", "110001nn"),
    f("ldf", "", "01010000"),
    f("stf", "", "01010001"),
    f("jmp", "A", "001a1aaa aaaaaaaa"),
    f("jmpf", "L", "00100001 llllllll llllllll"),
    f("br", "S", "00000001 ssssssss"),
    f("brf", "W", "00010001 wwwwwwww vvvvvvvv"),
    f("bz", "S", "10000000 ssssssss"),
    f("bnz", "S", "10010000 ssssssss"),
    f("bp", "DBS", "011d1bbb dddddddd ssssssss"),
    f("bpc", "DBS", "010d1bbb dddddddd ssssssss"),
    f("bn", "DBS", "100d1bbb dddddddd ssssssss"),
    f("dbnz", "DS", "0101001d dddddddd ssssssss"),
    f("dbnz", "NS", "010101nn ssssssss"),
    f("be", "IS", "00110001 iiiiiiii ssssssss"),
    f("be", "DS", "0011001d dddddddd ssssssss"),
    f("be", "NIS", "001101nn iiiiiiii ssssssss"),
    f("bne", "IS", "01000001 iiiiiiii ssssssss"),
    f("bne", "DS", "0100001d dddddddd ssssssss"),
    f("bne", "NIS", "010001nn iiiiiiii ssssssss"),
    f("call", "A", "000a1aaa aaaaaaaa"),
    f("callf", "L", "00100000 llllllll llllllll"),
    f("callr", "W", "00010000 wwwwwwww vvvvvvvv"),
    f("ret", "", "10100000"),
    f("reti", "", "10110000"),
    f("nop", "", "00000000"),
];

const fn f(mn: &'static str, ops: &'static str, pat: &'static str) -> Form {
    Form { mn, ops, pat }
}

fn letter(kind: u8) -> u8 {
    match kind {
        b'I' => b'i',
        b'D' => b'd',
        b'B' => b'b',
        b'N' => b'n',
        b'A' => b'a',
        b'L' => b'l',
        b'S' => b's',
        b'W' => b'w',
        _ => unreachable!(),
    }
}

pub fn size(form: &Form) -> usize {
    form.pat.split(' ').count()
}

/// Encodes a form from raw field values (already reduced to their field width).
pub fn encode_raw(form: &Form, fields: &[u32]) -> Vec<u8> {
    let count = |c: u8| form.pat.bytes().filter(|x| *x == c).count() as u32;
    let mut left: Vec<(u8, u32, u32)> = vec![]; // letter, bits left, value
    for (k, v) in form.ops.bytes().zip(fields) {
        if k == b'W' {
            left.push((b'w', 8, v & 0xFF));
            left.push((b'v', 8, (v >> 8) & 0xFF));
        } else {
            let l = letter(k);
            left.push((l, count(l), *v));
        }
    }
    let mut out = vec![];
    for byte in form.pat.split(' ') {
        let mut b = 0u8;
        for c in byte.bytes() {
            let bit = match c {
                b'0' => 0,
                b'1' => 1,
                l => {
                    let e = left.iter_mut().find(|e| e.0 == l).unwrap();
                    e.1 -= 1;
                    (e.2 >> e.1) & 1
                }
            };
            b = (b << 1) | bit as u8;
        }
        out.push(b);
    }
    out
}

/// Field value of an operand *value* (an address for relative operands), or None if it is
/// not representable. `next` is the address of the following instruction.
pub fn field(kind: u8, v: i64, next: i64) -> Option<u32> {
    let r = |lo: i64, hi: i64| if v >= lo && v <= hi { Some(v as u32) } else { None };
    match kind {
        b'I' => r(0, 255),
        b'D' => r(0, 511),
        b'B' => r(0, 7),
        b'N' => r(0, 3),
        b'L' => r(0, 65535),
        b'A' => {
            let v = r(0, 65535)? as i64;
            if v & 0xF000 == next & 0xF000 {
                Some((v & 0xFFF) as u32)
            } else {
                None
            }
        }
        b'S' => {
            let v = r(0, 65535)? as i64;
            let d = sext16((v - next) as u32 & 0xFFFF);
            if (-128..=127).contains(&d) {
                Some((d as u32) & 0xFF)
            } else {
                None
            }
        }
        b'W' => {
            let v = r(0, 65535)? as i64;
            Some((v - (next - 1)) as u32 & 0xFFFF)
        }
        _ => unreachable!(),
    }
}

pub fn sext16(v: u32) -> i64 {
    (v as u16) as i16 as i64
}

/// Encodes operand values of an instruction placed at `pos`.
pub fn encode(form: &Form, vals: &[i64], pos: i64) -> Option<Vec<u8>> {
    let next = pos + size(form) as i64;
    let mut fs = vec![];
    for (k, v) in form.ops.bytes().zip(vals) {
        fs.push(field(k, *v, next)?);
    }
    Some(encode_raw(form, &fs))
}

pub struct Decoded {
    pub form: usize,
    pub size: usize,
    /// raw field values in operand order
    pub fields: Vec<u32>,
}

thread_local! {
    static BY_OPCODE: Vec<usize> = {
        let mut t = vec![usize::MAX; 256];
        for (i, f) in FORMS.iter().enumerate() {
            let first = f.pat.split(' ').next().unwrap().as_bytes().to_vec();
            for b in 0..256usize {
                let ok = first.iter().enumerate().all(|(k, c)| {
                    let bit = (b >> (7 - k)) & 1;
                    match c { b'0' => bit == 0, b'1' => bit == 1, _ => true }
                });
                if ok {
                    assert!(t[b] == usize::MAX, "ambiguous opcode {:02x}", b);
                    t[b] = i;
                }
            }
        }
        for b in 0..256 { assert!(t[b] != usize::MAX, "undefined opcode {:02x}", b); }
        t
    };
}

pub fn form_of(opcode: u8) -> usize {
    BY_OPCODE.with(|t| t[opcode as usize])
}

/// Decodes the instruction at the start of `bytes`; None if it is cut off.
pub fn decode(bytes: &[u8]) -> Option<Decoded> {
    let fi = form_of(*bytes.first()?);
    let form = &FORMS[fi];
    let n = size(form);
    if bytes.len() < n {
        return None;
    }
    let mut acc = [0u32; 256];
    for (k, byte) in form.pat.split(' ').enumerate() {
        for (j, c) in byte.bytes().enumerate() {
            if c != b'0' && c != b'1' {
                let bit = ((bytes[k] >> (7 - j)) & 1) as u32;
                acc[c as usize] = (acc[c as usize] << 1) | bit;
            }
        }
    }
    let fields = form
        .ops
        .bytes()
        .map(|k| match k {
            b'W' => acc[b'w' as usize] | (acc[b'v' as usize] << 8),
            k => acc[letter(k) as usize],
        })
        .collect();
    Some(Decoded {
        form: fi,
        size: n,
        fields,
    })
}

/// The operand *value* (absolute address for control transfers) of a decoded field.
pub fn value(kind: u8, field: u32, next: i64) -> i64 {
    match kind {
        b'A' => (next & 0xF000) | field as i64,
        b'S' => (next + (field as u8 as i8) as i64) & 0xFFFF,
        b'W' => (next - 1 + field as i64) & 0xFFFF,
        _ => field as i64,
    }
}

/// The special function registers and the bits of PSW, as named in the hardware manual.
pub const NAMES: &[(&str, i64)] = &[
    ("acc", 0x100),
    ("psw", 0x101),
    ("b", 0x102),
    ("c", 0x103),
    ("trl", 0x104),
    ("trh", 0x105),
    ("sp", 0x106),
    ("pcon", 0x107),
    ("ie", 0x108),
    ("ip", 0x109),
    ("ext", 0x10D),
    ("ocr", 0x10E),
    ("t0con", 0x110),
    ("t0prr", 0x111),
    ("t0l", 0x112),
    ("t0lr", 0x113),
    ("t0h", 0x114),
    ("t0hr", 0x115),
    ("t1cnt", 0x118),
    ("t1lc", 0x11A),
    ("t1l", 0x11B),
    ("t1lr", 0x11B),
    ("t1hc", 0x11C),
    ("t1h", 0x11D),
    ("t1hr", 0x11D),
    ("mcr", 0x120),
    ("stad", 0x122),
    ("cnr", 0x123),
    ("tdr", 0x124),
    ("xbnk", 0x125),
    ("vccr", 0x127),
    ("scon0", 0x130),
    ("sbuf0", 0x131),
    ("sbr", 0x132),
    ("scon1", 0x134),
    ("sbuf1", 0x135),
    ("p1", 0x144),
    ("p1ddr", 0x145),
    ("p1fcr", 0x146),
    ("p3", 0x14C),
    ("p3ddr", 0x14D),
    ("p3int", 0x14E),
    ("fpr", 0x154),
    ("p7", 0x15C),
    ("i01cr", 0x15D),
    ("i23cr", 0x15E),
    ("isl", 0x15F),
    ("mplsw", 0x160),
    ("mplsta", 0x161),
    ("mplrst", 0x162),
    ("vsel", 0x163),
    ("vrmad1", 0x164),
    ("vrmad2", 0x165),
    ("vtrbf", 0x166),
    ("vlreg", 0x167),
    ("btcr", 0x17F),
    ("xram", 0x180),
    ("cy", 7),
    ("ac", 6),
    ("irbk1", 4),
    ("irbk0", 3),
    ("ov", 2),
    ("rambk0", 1),
    ("p", 0),
];
