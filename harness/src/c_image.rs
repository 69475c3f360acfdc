//! C01 (icons and eyecatches) and C02 (sprites, image conversion).

use crate::engine::*;
use crate::imgw::*;
use crate::{Check, Tier};

/// A picture written to a file of some format.
pub struct File {
    pub name: &'static str,
    pub bytes: Vec<u8>,
}

fn rgb_only(p: &Pic) -> bool {
    p.frames.iter().all(|f| f.iter().all(|c| c[3] == 255))
}
fn gray_only(p: &Pic) -> bool {
    p.frames.iter().all(|f| f.iter().all(|c| c[0] == c[1] && c[1] == c[2]))
}
fn hard_alpha(p: &Pic) -> bool {
    p.frames.iter().all(|f| f.iter().all(|c| c[3] == 255 || *c == [0, 0, 0, 0]))
}

pub const FORMATS: usize = 9;

/// The picture in one of the formats, or None if that format cannot hold it exactly.
pub fn file(p: &Pic, format: usize, stem: usize) -> Option<File> {
    let n = |a, b| if stem == 0 { a } else { b };
    let f = |name, bytes| Some(File { name, bytes });
    let still = p.frames.len() == 1;
    match format {
        0 => f(n("i.png", "e.png"), png(p, PngKind::Rgba8)),
        1 if rgb_only(p) && still => f(n("i.png", "e.png"), png(p, PngKind::Rgb8)),
        2 if palette_of(&p.frames).len() <= 256 && still => f(n("i.png", "e.png"), png(p, PngKind::Pal)),
        3 if gray_only(p) && still => f(n("i.png", "e.png"), png(p, PngKind::GrayA8)),
        4 if gray_only(p) && rgb_only(p) && still => f(n("i.png", "e.png"), png(p, PngKind::Gray8)),
        5 if still => f(n("i.png", "e.png"), png(p, PngKind::Rgba16)),
        6 if hard_alpha(p) && palette_of(&p.frames).len() <= 256 => f(n("i.gif", "e.gif"), gif(p)),
        7 if rgb_only(p) && still => f(n("i.bmp", "e.bmp"), bmp(p)),
        8 => f(n("i.png", "e.png"), png_with(p, PngKind::Rgba8, true)),
        _ => None,
    }
}

/// File names of which only the ending says what the file is.
const NAMES: [[&str; 12]; 3] = [
    ["p.png", "p.PNG", "p.Png", "P.pNG", "p.gif.png", "p.bmp.PNG", ".p.png", "p..png", "p q.png", "p;q.png", "\u{e9}\u{4e16}.png", "gif.png"],
    ["p.gif", "p.GIF", "p.Gif", "P.gIF", "p.png.gif", "p.bmp.GIF", ".p.gif", "p..gif", "p q.gif", "p;q.gif", "\u{e9}\u{4e16}.gif", "png.gif"],
    ["p.bmp", "p.BMP", "p.Bmp", "P.bMP", "p.png.bmp", "p.gif.BMP", ".p.bmp", "p..bmp", "p q.bmp", "p;q.bmp", "\u{e9}\u{4e16}.bmp", "png.bmp"],
];
/// The file formats that go with the rows of NAMES.
const NAMED: [usize; 3] = [8, 6, 7];

/// Includes the icon (and eyecatch) in a program and compares with the source pixels.
fn icon_case(ctx: &mut Ctx, icon: &Pic, ifmt: usize, speed: Option<u16>, eye: Option<(&Pic, usize)>, order: usize, cmd: bool) -> Verdict {
    icon_named(ctx, icon, ifmt, speed, eye, order, cmd, [None, None])
}

/// As `icon_case`; `names` are those of the files if not the usual ones.
fn icon_named(ctx: &mut Ctx, icon: &Pic, ifmt: usize, speed: Option<u16>, eye: Option<(&Pic, usize)>, order: usize, cmd: bool, names: [Option<&'static str>; 2]) -> Verdict {
    let mut fi = match file(icon, ifmt, 0) {
        Some(f) => f,
        None => return pass(false),
    };
    fi.name = names[0].unwrap_or(fi.name);
    ctx.put(fi.name, &fi.bytes);
    let mut fe = None;
    if let Some((e, f)) = eye {
        let mut x = match file(e, f, 1) {
            Some(f) => f,
            None => return pass(false),
        };
        x.name = names[1].unwrap_or(x.name);
        ctx.put(x.name, &x.bytes);
        fe = Some(x);
    }
    let mut props = vec![];
    if let Some(s) = speed {
        props.push(format!("speed={}", s));
    }
    if let Some(x) = &fe {
        props.push(format!("eyecatch=\"{}\"", x.name));
    }
    if order == 1 {
        props.reverse();
    }
    // a label behind it cannot be had if the icon is larger than the address space
    let huge = icon.frames.len() > 100;
    let word = if huge { "0" } else { "after" };
    let text = format!(" .byte $A5\n .include icon \"{}\" {}\nafter:\n .word {}\n .byte $5A\n", fi.name, props.join(", "), word);
    let got = ctx.assemble(&text);
    let bad = icon_error(icon, eye.map(|e| e.0));
    match &got {
        Asm::Ok(b) => {
            if bad {
                return Verdict::Fail("an icon that cannot be encoded was accepted".into());
            }
            let n = b.len();
            if n < 4 || b[0] != 0xA5 || b[n - 1] != 0x5A || b[n - 3] as usize | (b[n - 2] as usize) << 8 != (if huge { 0 } else { n - 3 }) {
                return Verdict::Fail(format!("the statements around the icon are wrong: {}", hex(&b[n.saturating_sub(4)..])));
            }
            if let Err(e) = check_icon(&b[1..n - 3], icon, speed.unwrap_or(10), eye.map(|e| e.0)) {
                return Verdict::Fail(e);
            }
        }
        Asm::Err(e) => {
            if !bad {
                return Verdict::Fail(format!("rejected: {}", e));
            }
        }
        Asm::Panic(e) => return Verdict::Fail(format!("PANIC: {}", e)),
    }
    if !cmd {
        return pass(!bad);
    }
    // the icon command
    let ip = ctx.dir.join(fi.name).to_str().unwrap().to_owned();
    let mut args = vec!["icon".to_owned(), ip];
    if let Some(s) = speed {
        args.push("-s".into());
        args.push(s.to_string());
    }
    if let Some(x) = &fe {
        args.push("-e".into());
        args.push(ctx.dir.join(x.name).to_str().unwrap().to_owned());
    }
    let av: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    if bad {
        let r = ctx.cli(&av);
        if r.code == 0 || r.crashed() || r.err.is_empty() {
            return Verdict::Fail(format!("the icon command should reject this: exit {} {}", r.code, trunc(&r.err_s(), 300)));
        }
        return pass(true);
    }
    let out = match ctx.in_process(&av) {
        Ok(o) => o,
        Err(e) => return Verdict::Fail(format!("icon command: {}", e)),
    };
    ctx.put("cmd.s", &out);
    match ctx.assemble_path(&ctx.dir.join("cmd.s")) {
        Asm::Ok(b) => match check_icon(&b, icon, speed.unwrap_or(10), eye.map(|e| e.0)) {
            Ok(()) => pass(true),
            Err(e) => Verdict::Fail(format!("icon command: {}", e)),
        },
        a => Verdict::Fail(format!("the output of the icon command: {}", a.show())),
    }
}

/// `k` colours which stay distinct after rounding.
fn colour(k: usize) -> Px {
    // spread the index over the channels; opaque for the first 4096
    let k = k as u32;
    let a = 15 - (k >> 12) as u8;
    let r = (k & 15) as u8;
    let g = (k >> 4 & 15) as u8;
    let b = (k >> 8 & 15) as u8;
    [r * 17, g * 17, b * 17, a * 17]
}

/// Another raw colour which rounds to the same 4-bit colour.
fn near(c: Px, d: i16) -> Px {
    let mut o = c;
    for x in o.iter_mut().take(3) {
        let v = *x as i16;
        *x = if v == 0 { d.abs() as u8 } else if v == 255 { 255 - d.abs() as u8 } else { (v + d) as u8 };
    }
    o
}

/// Pictures with exactly `k` colours in different arrangements.
fn arranged(w: usize, h: usize, k: usize, how: usize, jitter: bool) -> Vec<Px> {
    let n = w * h;
    let j = |i: usize, c: Px| if jitter { near(c, (i % 17) as i16 - 8) } else { c };
    (0..n)
        .map(|i| {
            let c = match how {
                0 => i % k,                                   // all over
                1 => i.min(k - 1),                            // first pixels
                2 => (i + k).saturating_sub(n).min(k - 1),    // last pixels
                3 => (k - 1).saturating_sub(i / w % k),       // rows, descending
                _ => (i / w * 7 + i % w * 13) % k,
            };
            j(i, colour(c))
        })
        .collect()
}

pub fn c01(t: Tier) -> Check {
    let mut spaces = vec![];
    spaces.push(Space::new(
        "levels",
        "every value 0..255 of each of the four channels, the others at 0, 255 or 128, as one pixel of an icon and of an eyecatch of each kind",
        256 * 4 * 3,
        |i, ctx| {
            let mut m = Mix(i);
            let v = m.take(256) as u8;
            let c = m.take(4);
            let o = [0u8, 255, 128][m.take(3)];
            let mut p = [o; 4];
            p[c] = v;
            let mut icon = Pic::solid(32, 32, [0, 0, 0, 255]);
            icon.frames[0][(v as usize * 4) % 1024] = p;
            let k = [1usize, 17, 257][(v % 3) as usize];
            let mut eye = Pic::new(72, 56, arranged(72, 56, k, 0, false));
            eye.frames[0][4031 - v as usize] = p;
            icon_case(ctx, &icon, 0, None, Some((&eye, 0)), 0, true)
        },
    ));
    spaces.push(Space::new(
        "colours",
        "icons with every number of colours 1..20 in 5 arrangements, exact or with many raw shades of each colour, in each of 9 file formats",
        20 * 5 * 2 * FORMATS as u64,
        |i, ctx| {
            let mut m = Mix(i);
            let f = m.take(FORMATS);
            let jit = m.take(2) == 1;
            let how = m.take(5);
            let k = m.take(20) + 1;
            let icon = Pic::new(32, 32, arranged(32, 32, k, how, jit));
            icon_case(ctx, &icon, f, Some(3), None, 0, true)
        },
    ));
    let pos_kinds = t.q(1usize, 3);
    spaces.push(Space::new(
        "icon-pixels",
        "every pixel of the icon in turn the only one of its colour, as a still and as the second of three frames",
        1024 * 2,
        |i, ctx| {
            let mut m = Mix(i);
            let at = m.take(1024);
            let anim = m.take(2) == 1;
            let mut icon = Pic::solid(32, 32, colour(1));
            let mut f = icon.frames[0].clone();
            f[at] = colour(2);
            if anim {
                let base = icon.frames[0].clone();
                icon.frames = vec![base.clone(), f, base];
            } else {
                icon.frames[0] = f;
            }
            icon_case(ctx, &icon, 0, None, None, 0, false)
        },
    ));
    spaces.push(Space::new(
        "eyecatch-pixels",
        "every pixel of the eyecatch in turn the only one of its colour (quick: 16 colours; thorough: all three kinds)",
        4032 * pos_kinds as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let k = [2usize, 20, 300][m.take(pos_kinds)];
            let at = m.take(4032);
            let icon = Pic::solid(32, 32, colour(1));
            let mut eye = Pic::new(72, 56, arranged(72, 56, k, 0, false));
            eye.frames[0][at] = colour(1000);
            icon_case(ctx, &icon, 0, Some(1), Some((&eye, 0)), 0, false)
        },
    ));
    let ks: &'static [usize] = t.q(
        &[1, 2, 15, 16, 17, 18, 255, 256, 257, 258, 1000, 4032],
        &[1, 2, 3, 8, 14, 15, 16, 17, 18, 31, 32, 33, 64, 127, 128, 129, 200, 253, 254, 255, 256, 257, 258, 259, 300, 512, 1000, 2048, 4031, 4032],
    );
    spaces.push(Space::new(
        "eyecatch-colours",
        "eyecatches with numbers of colours around 16, 256 and the maximum, in 5 arrangements, exact or with many raw shades, in each file format",
        (ks.len() * 5 * 2 * FORMATS) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let f = m.take(FORMATS);
            let jit = m.take(2) == 1;
            let how = m.take(5);
            let k = ks[m.take(ks.len())];
            let eye = Pic::new(72, 56, arranged(72, 56, k, how, jit));
            let icon = Pic::solid(32, 32, colour(5));
            icon_case(ctx, &icon, 0, None, Some((&eye, f)), 0, true)
        },
    ));
    let nf = t.q(12usize, 40);
    spaces.push(Space::new(
        "frames",
        "animated icons of 1..12 (thorough 40) distinct frames as APNG and GIF, colours shared or spread over the frames (up to and beyond 16), with and without an animated eyecatch",
        (nf * 2 * 3 * 3) as u64,
        |i, ctx| {
            let mut m = Mix(i);
            let f = [8, 6][m.take(2)];
            let spread = m.take(3);
            let eye = m.take(3);
            let n = m.0 as usize + 1;
            let frames: Vec<Vec<Px>> = (0..n)
                .map(|q| {
                    (0..1024)
                        .map(|x| match spread {
                            0 => colour((x * (q + 1)) % 2),
                            1 => colour(if x == q { q } else { 0 }), // one new colour per frame
                            _ => colour(if x / 32 == q { 2 } else { 7 }),
                        })
                        .collect()
                })
                .collect();
            let icon = Pic { w: 32, h: 32, frames };
            let e = Pic {
                w: 72,
                h: 56,
                frames: (0..eye).map(|q| arranged(72, 56, if q == 0 { 5 } else { 200 }, q, false)).collect(),
            };
            icon_case(ctx, &icon, f, Some(n as u16), if eye > 0 { Some((&e, f)) } else { None }, 1, true)
        },
    ));
    let many: &'static [usize] = t.q(&[127, 128, 254, 255, 256, 257, 300, 513], &[127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 1024, 1025, 2049, 4097]);
    spaces.push(Space::new(
        "many-frames",
        "icons with up to 513 (thorough 4097) frames around every power of two",
        many.len() as u64 * 2,
        move |i, ctx| {
            let mut m = Mix(i);
            let f = [8, 6][m.take(2)];
            let n = many[m.take(many.len())];
            let frames = (0..n).map(|q| (0..1024).map(|x| colour(if q >> (x % 16) & 1 == 1 { 3 } else { 9 })).collect()).collect();
            icon_case(ctx, &Pic { w: 32, h: 32, frames }, f, Some(n as u16), None, 0, true)
        },
    ).limit(60.0));
    spaces.push(Space::new(
        "speeds",
        "speed absent, 0..260 and around every power of two up to 65535, without and with an eyecatch, properties in both orders",
        300 * 3,
        |i, ctx| {
            let mut m = Mix(i);
            let k = m.take(300);
            let o = m.take(3);
            let s = match k {
                0 => None,
                1..=261 => Some(k as u16 - 1),
                _ => {
                    let b = k - 262;
                    let v = (1i64 << (8 + b / 4).min(16)) + (b % 4) as i64 - 2;
                    if v > 65535 {
                        Some(65535)
                    } else {
                        Some(v as u16)
                    }
                }
            };
            let icon = Pic::solid(32, 32, colour(9));
            let e = Pic::solid(72, 56, colour(1));
            icon_case(ctx, &icon, 0, s, if o > 0 { Some((&e, 0)) } else { None }, o / 2, true)
        },
    ));
    let ws: &'static [usize] = &[1, 16, 30, 31, 32, 33, 34, 64, 72];
    spaces.push(Space::new(
        "icon-sizes",
        "icons of every combination of 9 widths and 9 heights, as PNG, GIF and animated: rejected unless 32x32",
        (ws.len() * ws.len() * 3) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let f = [0, 6, 8][m.take(3)];
            let w = ws[m.take(ws.len())];
            let h = ws[m.take(ws.len())];
            let mut icon = Pic::solid(w, h, colour(3));
            if f == 8 {
                let x = icon.frames[0].clone();
                icon.frames.push(x);
            }
            icon_case(ctx, &icon, f, None, None, 0, true)
        },
    ));
    let ew: &'static [usize] = &[1, 32, 55, 56, 57, 71, 72, 73, 144];
    spaces.push(Space::new(
        "eyecatch-sizes",
        "eyecatches of every combination of 9 widths and 9 heights with 1, 17 and 300 colours: rejected unless 72x56",
        (ew.len() * ew.len() * 3) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let k = [1usize, 17, 300][m.take(3)];
            let w = ew[m.take(ew.len())];
            let h = ew[m.take(ew.len())];
            let eye = Pic::new(w, h, arranged(w, h, k, 0, false));
            let icon = Pic::solid(32, 32, colour(3));
            icon_case(ctx, &icon, 0, None, Some((&eye, 0)), 0, true)
        },
    ));
    spaces.push(Space::new(
        "names",
        "icons of one to three frames (PNG, GIF, BMP) with eyecatches (likewise), each with 12 file names: the ending in small and capital letters, behind other dots, blanks, semicolons and letters beyond ASCII",
        36 * 37 * 3,
        |i, ctx| {
            let mut m = Mix(i);
            let n = m.take(3) + 1;
            let (a, b) = (m.take(3), m.take(12));
            let e = m.take(37);
            let frames = (0..n).map(|q| (0..1024).map(|x| colour((x * (q + 1)) % 3)).collect()).collect();
            let icon = Pic { w: 32, h: 32, frames };
            let eye = Pic::new(72, 56, arranged(72, 56, 20, 0, false));
            if e == 36 {
                return icon_named(ctx, &icon, NAMED[a], None, None, 0, true, [Some(NAMES[a][b]), None]);
            }
            let (c, d) = (e / 12, e % 12);
            if (a, b) == (c, d) {
                return pass(false);
            }
            icon_named(ctx, &icon, NAMED[a], None, Some((&eye, NAMED[c])), 0, b < 2 || d < 2, [Some(NAMES[a][b]), Some(NAMES[c][d])])
        },
    ));
    Check {
        level: "exploration",
        spaces,
        assumptions: vec![
            "Images are written by the harness's own PNG, APNG, GIF and BMP writers; the oracle decodes the emitted data as the VMU would and compares with the source pixels.".into(),
        ],
    }
}

// ------------------------------------------------------------------------------- sprites

fn sprite_program(name: &str, masked: Option<bool>, header: Option<bool>, order: usize) -> String {
    let mut props = vec![];
    if let Some(m) = masked {
        props.push(format!("type=\"{}\"", if m { "masked" } else { "simple" }));
    }
    if let Some(h) = header {
        props.push(format!("header=\"{}\"", if h { "yes" } else { "no" }));
    }
    if order == 1 {
        props.reverse();
    }
    format!(" .byte $A5\n .include sprite \"{}\" {}\nafter:\n .word after\n .byte $5A\n", name, props.join(", "))
}

fn sprite_case(ctx: &mut Ctx, p: &Pic, fmt: usize, masked: Option<bool>, header: Option<bool>, order: usize) -> Verdict {
    sprite_named(ctx, p, fmt, masked, header, order, None)
}

fn sprite_named(ctx: &mut Ctx, p: &Pic, fmt: usize, masked: Option<bool>, header: Option<bool>, order: usize, name: Option<&'static str>) -> Verdict {
    let mut f = match file(p, fmt, 0) {
        Some(f) => f,
        None => return pass(false),
    };
    f.name = name.unwrap_or(f.name);
    ctx.put(f.name, &f.bytes);
    let h = header.unwrap_or(true);
    let bad = h && (p.w > 255 || p.h > 255);
    match ctx.assemble(&sprite_program(f.name, masked, header, order)) {
        Asm::Ok(b) => {
            if bad {
                return Verdict::Fail(format!("a {}x{} sprite with header was accepted", p.w, p.h));
            }
            let mut want = vec![0xA5];
            want.extend(sprite_bytes(p, masked.unwrap_or(false), h));
            let n = want.len();
            want.extend([n as u8, (n >> 8) as u8, 0x5A]);
            if b == want {
                pass(true)
            } else {
                Verdict::Fail(format!("sprite data differ: {}", diff(&want, &b)))
            }
        }
        Asm::Err(_) if bad => pass(true),
        a => Verdict::Fail(a.show()),
    }
}

/// Runs the image command and returns what it produced.
fn image_cmd(ctx: &mut Ctx, name: &str, format: &str, to_file: bool) -> Result<Vec<u8>, String> {
    let i = ctx.dir.join(name).to_str().unwrap().to_owned();
    let o = ctx.dir.join("out").to_str().unwrap().to_owned();
    let mut args = vec!["image", i.as_str()];
    if !format.is_empty() {
        args.push("-f");
        args.push(format);
    }
    if to_file {
        let _ = std::fs::remove_file(&o);
        args.push("-o");
        args.push(&o);
    }
    let out = ctx.in_process(&args)?;
    if to_file {
        if !out.is_empty() {
            return Err("output on stdout although a file was asked for".into());
        }
        std::fs::read(&o).map_err(|e| format!("no output: {}", e))
    } else {
        Ok(out)
    }
}

fn image_case(ctx: &mut Ctx, p: &Pic, fmt: usize, how: usize, to_file: bool) -> Verdict {
    let f = match file(p, fmt, 0) {
        Some(f) => f,
        None => return pass(false),
    };
    image_of(ctx, p, &f, None, how, to_file)
}

/// The image command on a file that shows `p`, frame `i` for `delays[i]` (seconds).
fn image_of(ctx: &mut Ctx, p: &Pic, f: &File, delays: Option<&[(u16, u16)]>, how: usize, to_file: bool) -> Verdict {
    ctx.put(f.name, &f.bytes);
    let format = ["1bit-asm", "1bit-asm-masked", "json", "json-pretty", ""][how];
    let out = match image_cmd(ctx, f.name, format, to_file) {
        Ok(o) => o,
        Err(e) => return Verdict::Fail(e),
    };
    ctx.note(|| format!("--- output:\n{}", trunc(&String::from_utf8_lossy(&out), 2000)));
    if how == 2 || how == 3 {
        let want: Vec<Vec<Vec<Px>>> = p.frames.iter().map(|f| f.chunks(p.w).map(|r| r.to_vec()).collect()).collect();
        return match read_json(&out) {
            Ok((g, d)) if g == want => match delays {
                Some(w) => {
                    for (i, ((n, s), (a, b))) in w.iter().zip(&d).enumerate() {
                        // a ratio in milliseconds
                        if *b == 0.0 || a * *s as f64 != b * *n as f64 * 1000.0 {
                            return Verdict::Fail(format!("frame {} is shown for {}/{} ms instead of {}/{} s", i, a, b, n, s));
                        }
                    }
                    if d.len() == w.len() {
                        pass(true)
                    } else {
                        Verdict::Fail(format!("{} delays instead of {}", d.len(), w.len()))
                    }
                }
                None => pass(true),
            },
            Ok((g, _)) => {
                for (a, x) in want.iter().enumerate() {
                    for (b, y) in x.iter().enumerate() {
                        for (c, z) in y.iter().enumerate() {
                            let q = g.get(a).and_then(|f| f.get(b)).and_then(|r| r.get(c));
                            if q != Some(z) {
                                return Verdict::Fail(format!("frame {} pixel {},{} is {:?} instead of {:?}", a, c, b, q, z));
                            }
                        }
                    }
                }
                Verdict::Fail("the JSON has more frames, rows or pixels than the image".into())
            }
            Err(e) => Verdict::Fail(e),
        };
    }
    let want = sprite_bytes(p, how == 1, true);
    ctx.put("img.s", &out);
    match ctx.assemble_path(&ctx.dir.join("img.s")) {
        Asm::Ok(b) if b == want => pass(true),
        Asm::Ok(b) => Verdict::Fail(format!("image data differ: {}", diff(&want, &b))),
        a => Verdict::Fail(a.show()),
    }
}

// a small JSON reader
#[derive(Debug)]
enum J {
    N(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
    Other,
}

fn jval(b: &[u8], p: &mut usize) -> Option<J> {
    let ws = |p: &mut usize| {
        while *p < b.len() && (b[*p] as char).is_ascii_whitespace() {
            *p += 1
        }
    };
    ws(p);
    let r = match *b.get(*p)? {
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(p);
                if *b.get(*p)? == b']' {
                    *p += 1;
                    break;
                }
                v.push(jval(b, p)?);
                ws(p);
                match *b.get(*p)? {
                    b',' => *p += 1,
                    b']' => (),
                    _ => return None,
                }
            }
            J::A(v)
        }
        b'{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(p);
                if *b.get(*p)? == b'}' {
                    *p += 1;
                    break;
                }
                let k = match jval(b, p)? {
                    J::S(s) => s,
                    _ => return None,
                };
                ws(p);
                if *b.get(*p)? != b':' {
                    return None;
                }
                *p += 1;
                v.push((k, jval(b, p)?));
                ws(p);
                match *b.get(*p)? {
                    b',' => *p += 1,
                    b'}' => (),
                    _ => return None,
                }
            }
            J::O(v)
        }
        b'"' => {
            let s = *p + 1;
            *p = s;
            while *b.get(*p)? != b'"' {
                *p += 1;
            }
            *p += 1;
            J::S(String::from_utf8_lossy(&b[s..*p - 1]).into_owned())
        }
        c if c == b'-' || c.is_ascii_digit() => {
            let s = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p] == b'.' || b[*p].is_ascii_alphanumeric() || b[*p] == b'+') {
                *p += 1;
            }
            J::N(std::str::from_utf8(&b[s..*p]).ok()?.parse().ok()?)
        }
        _ => {
            while *p < b.len() && b[*p].is_ascii_alphabetic() {
                *p += 1;
            }
            J::Other
        }
    };
    Some(r)
}

/// The pixels, and the delays as numerator and denominator.
fn read_json(b: &[u8]) -> Result<(Vec<Vec<Vec<Px>>>, Vec<(f64, f64)>), String> {
    let bad = || "the output is not the JSON of an image".to_owned();
    let mut p = 0;
    let j = jval(b, &mut p).ok_or_else(bad)?;
    if b[p..].iter().any(|c| !(*c as char).is_ascii_whitespace()) {
        return Err("text after the JSON value".into());
    }
    fn get<'a>(j: &'a J, k: &str) -> Option<&'a J> {
        match j {
            J::O(v) => v.iter().find(|e| e.0 == k).map(|e| &e.1),
            _ => None,
        }
    }
    let frames = match get(&j, "frames") {
        Some(J::A(v)) => v,
        _ => return Err(bad()),
    };
    let mut out = vec![];
    let mut delays = vec![];
    for f in frames {
        if let Some(J::A(d)) = get(f, "delay") {
            if let [J::N(a), J::N(b)] = d[..] {
                delays.push((a, b));
            }
        }
        let rows = match get(f, "rows") {
            Some(J::A(v)) => v,
            _ => return Err(bad()),
        };
        let mut o = vec![];
        for r in rows {
            let px = match r {
                J::A(v) => v,
                _ => return Err(bad()),
            };
            let mut line = vec![];
            for q in px {
                let c = |k: &str| match get(q, k) {
                    Some(J::N(n)) if *n >= 0.0 && *n <= 255.0 && n.fract() == 0.0 => Ok(*n as u8),
                    _ => Err(bad()),
                };
                line.push([c("red")?, c("green")?, c("blue")?, c("alpha")?]);
            }
            o.push(line);
        }
        out.push(o);
    }
    Ok((out, delays))
}

const DARK: Px = [10, 20, 30, 255];
const LIGHT: Px = [220, 230, 240, 255];
const CLEAR: Px = [0, 0, 0, 0];
const GLASS: Px = [200, 210, 255, 127];

pub fn c02(t: Tier) -> Check {
    let mut spaces = vec![];
    // widths x single pixel
    let mut cells: Vec<(usize, usize, usize)> = vec![];
    for w in 1..=t.q(17usize, 41) {
        for h in 1..=3usize {
            for at in 0..w * h {
                cells.push((w, h, at));
            }
        }
    }
    for (w, h) in [(255usize, 1usize), (1, 255), (64, 2)] {
        for at in 0..w * h {
            cells.push((w, h, at));
        }
    }
    let nc = cells.len();
    spaces.push(Space::new(
        "single-pixels",
        "every width 1..17 (thorough 41) and height 1..3 (and 255x1, 1x255, 64x2): each pixel in turn the only dark, light, transparent or opaque one, simple and masked, with and without header",
        (nc * 4 * 4) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let k = m.take(4);
            let o = m.take(4);
            let (w, h, at) = cells[m.take(nc)];
            let (bg, fg) = [(LIGHT, DARK), (DARK, LIGHT), (LIGHT, CLEAR), (CLEAR, DARK)][k];
            let mut p = Pic::solid(w, h, bg);
            p.frames[0][at] = fg;
            sprite_case(ctx, &p, 0, Some(o & 1 == 1), Some(o & 2 == 2), 0)
        },
    ));
    let shapes: &'static [(usize, usize)] = t.q(
        &[(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 1), (8, 1), (1, 4), (2, 3), (3, 2)],
        &[(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 1), (8, 1), (9, 1), (1, 4), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3)],
    );
    let mut tot = 0u64;
    let mut offs = vec![];
    for (w, h) in shapes {
        offs.push(tot);
        tot += 4u64.pow((w * h) as u32) * 2;
    }
    spaces.push(Space::new(
        "patterns",
        "every assignment of 4 colours (dark, light, transparent, translucent light) to the pixels of every small shape, simple or masked",
        tot,
        move |i, ctx| {
            let s = offs.iter().rposition(|o| *o <= i).unwrap();
            let (w, h) = shapes[s];
            let mut m = Mix(i - offs[s]);
            let masked = m.take(2) == 1;
            let px = (0..w * h).map(|_| [DARK, LIGHT, CLEAR, GLASS][m.take(4)]).collect();
            sprite_case(ctx, &Pic::new(w, h, px), 0, Some(masked), None, 0)
        },
    ));
    spaces.push(Space::new(
        "luminance",
        "every red value with every green value and the blue values on both sides of the threshold (one exact tie excluded), and the corners: 128 K colours",
        256 * 2,
        |i, ctx| {
            let mut m = Mix(i);
            let r = m.take(256) as i32;
            let part = m.take(2);
            let mut px = vec![];
            for g in part as i32 * 128..part as i32 * 128 + 128 {
                let b = (12750 - 30 * r - 59 * g).div_euclid(11);
                for d in [0, 1] {
                    let b = (b + d).clamp(0, 255);
                    let mut c = [r as u8, g as u8, b as u8, 255];
                    if 30 * r + 59 * g + 11 * b == 12750 {
                        c[2] = if b > 0 { c[2] - 1 } else { 1 };
                    }
                    px.push(c);
                }
            }
            sprite_case(ctx, &Pic::new(128, 2, px), 0, None, None, 0)
        },
    ));
    spaces.push(Space::new(
        "alpha",
        "every alpha value 0..255 with 4 colours, masked and simple",
        256 * 4 * 2,
        |i, ctx| {
            let mut m = Mix(i);
            let a = m.take(256) as u8;
            let mut c = [DARK, LIGHT, [127, 127, 127, 0], [128, 128, 128, 0]][m.take(4)];
            c[3] = a;
            let p = Pic::new(3, 1, vec![LIGHT, c, DARK]);
            sprite_case(ctx, &p, 0, Some(m.take(2) == 1), Some(false), 0)
        },
    ));
    spaces.push(Space::new(
        "options",
        "every combination of type and header given or not, in both orders, in every file format, still or animated (2 and 3 frames)",
        (3 * 3 * 2 * FORMATS * 3) as u64,
        |i, ctx| {
            let mut m = Mix(i);
            let ty = [None, Some(false), Some(true)][m.take(3)];
            let hd = [None, Some(false), Some(true)][m.take(3)];
            let order = m.take(2);
            let f = m.take(FORMATS);
            let n = m.take(3) + 1;
            let frames = (0..n).map(|q| (0..33).map(|x| if (x * 5 + q) % 7 < 3 { [9, 9, 9, 255] } else { [240, 240, 240, 255] }).collect()).collect();
            let p = Pic { w: 11, h: 3, frames };
            sprite_case(ctx, &p, f, ty, hd, order)
        },
    ));
    spaces.push(Space::new(
        "sizes",
        "widths and heights 253..258 and 1 with and without header: too large ones are rejected only with a header",
        7 * 7 * 3 * 2,
        |i, ctx| {
            let mut m = Mix(i);
            let s = [1, 253, 254, 255, 256, 257, 258];
            let w = s[m.take(7)];
            let h = s[m.take(7)];
            let hd = [None, Some(false), Some(true)][m.take(3)];
            let p = Pic::new(w, h, (0..w * h).map(|x| if x % 5 == 0 { DARK } else { LIGHT }).collect());
            sprite_case(ctx, &p, 0, Some(m.take(2) == 1), hd, 0)
        },
    ));
    spaces.push(Space::new(
        "image-command",
        "the image command in each of its formats (and the default) to a file or to standard output, for shapes 1..17 x 1..2, 4 fillings, every file format, still or animated",
        (5 * 2 * 17 * 2 * 4 * FORMATS * 2) as u64,
        |i, ctx| {
            let mut m = Mix(i);
            let how = m.take(5);
            let to_file = m.take(2) == 1;
            let w = m.take(17) + 1;
            let h = m.take(2) + 1;
            let fill = m.take(4);
            let f = m.take(FORMATS);
            let n = m.take(2) + 1;
            let frames = (0..n)
                .map(|q| {
                    (0..w * h)
                        .map(|x| match fill {
                            0 => [DARK, LIGHT][(x * 3 + q) % 2],
                            1 => [CLEAR, LIGHT, DARK][(x + q) % 3],
                            2 => [(x * 29 + q) as u8, (x * 29 + q) as u8, (x * 29 + q) as u8, 255],
                            _ => [(x * 7) as u8, (x * 31 + 5) as u8, (200 - x) as u8, (x * 13 + q) as u8],
                        })
                        .collect()
                })
                .collect();
            image_case(ctx, &Pic { w, h, frames }, f, how, to_file)
        },
    ));
    spaces.push(Space::new(
        "names",
        "images of one to three frames (PNG, GIF, BMP) with the same 12 file names as icons, included as a sprite and converted by the image command in each of its formats",
        36 * 3 * 6,
        |i, ctx| {
            let mut m = Mix(i);
            let n = m.take(3) + 1;
            let (a, b) = (m.take(3), m.take(12));
            let how = m.take(6);
            let frames = (0..n).map(|q| (0..33).map(|x| if (x * 5 + q) % 7 < 3 { DARK } else { LIGHT }).collect()).collect();
            let p = Pic { w: 11, h: 3, frames };
            if how == 5 {
                return sprite_named(ctx, &p, NAMED[a], None, None, 0, Some(NAMES[a][b]));
            }
            match file(&p, NAMED[a], 0) {
                Some(mut f) => {
                    f.name = NAMES[a][b];
                    image_of(ctx, &p, &f, None, how, b % 2 == 0)
                }
                None => pass(false),
            }
        },
    ));
    // delays
    let nums: &'static [u16] = &[0, 1, 2, 3, 7, 10, 99, 100, 255, 256, 999, 1000, 1001, 4095, 32768, 65534, 65535];
    let dens: &'static [u16] = &[1, 2, 3, 7, 10, 24, 30, 60, 99, 100, 101, 256, 1000, 1001, 30000, 65535];
    spaces.push(Space::new(
        "delays",
        "animations of one to three frames with 17 numerators and 16 denominators of the delay (PNG) or 17 numbers of hundredths of a second (GIF): every frame's delay in both JSON formats",
        (nums.len() * (dens.len() + 1) * 3 * 2) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let how = m.take(2) + 2;
            let n = m.take(3) + 1;
            let num = nums[m.take(nums.len())];
            let d = m.take(dens.len() + 1);
            let gif = d == dens.len();
            let parts: Vec<Part> = (0..n)
                .map(|k| {
                    let mut p = Part::full(2, 1, vec![[k as u8, 0, 0, 255], [0, 0, 9, 255]]);
                    let j = (num as usize + k * 7) % 65536;
                    p.delay = (j as u16, if gif { 100 } else { dens[(d + k) % dens.len()] });
                    p
                })
                .collect();
            let pic = composed(2, 1, &parts, gif);
            let delays: Vec<_> = parts.iter().map(|p| p.delay).collect();
            let f = if gif { File { name: "i.gif", bytes: gif_parts(2, 1, &parts, false) } } else { File { name: "i.png", bytes: apng_parts(2, 1, &parts) } };
            image_of(ctx, &pic, &f, Some(&delays), how, true)
        },
    ));
    // parts of the canvas
    spaces.push(Space::new(
        "parts",
        "animations of three frames on a canvas of 3 x 2 of which the second and third cover any part of it, with every way to dispose of a frame and to blend it (PNG), plain or interlaced (GIF)",
        18 * 18 * 3 * 3 * 3 * 4,
        |i, ctx| {
            let mut m = Mix(i);
            let kind = m.take(4);
            let mut parts = vec![Part::full(3, 2, vec![DARK, LIGHT, DARK, LIGHT, DARK, CLEAR])];
            parts[0].dispose = m.take(3) as u8;
            for k in 0..2u8 {
                let mut r = m.take(18);
                let mut rect = (0, 0, 3, 2);
                for x in 0..3usize {
                    for y in 0..2usize {
                        for w in 1..=3 - x {
                            for h in 1..=2 - y {
                                if r == 0 {
                                    rect = (x, y, w, h);
                                }
                                r = r.wrapping_sub(1);
                            }
                        }
                    }
                }
                let (x, y, w, h) = rect;
                parts.push(Part {
                    x,
                    y,
                    w,
                    h,
                    px: (0..w * h).map(|j| [CLEAR, [50 + k, 5, 5, 255], LIGHT][(j + k as usize) % 3]).collect(),
                    delay: (1, 10),
                    dispose: m.take(3) as u8,
                    blend: kind as u8 & 1,
                });
            }
            let gif = kind >= 2;
            // the image library clears the whole canvas instead of the frame's part of it,
            // and does not restore the cleared canvas
            if !gif && (parts[..2].iter().any(|p| p.dispose == 1 && p.w * p.h < 6) || (parts[0].dispose == 1 && parts[1].dispose == 2)) {
                return pass(false);
            }
            let pic = composed(3, 2, &parts, gif);
            let f = if gif { File { name: "i.gif", bytes: gif_parts(3, 2, &parts, kind == 3) } } else { File { name: "i.png", bytes: apng_parts(3, 2, &parts) } };
            image_of(ctx, &pic, &f, None, 2, true)
        },
    ));
    spaces.push(Space::new(
        "image-colours",
        "every value of every channel in both JSON formats and both source formats",
        256 * 4,
        |i, ctx| {
            let mut m = Mix(i);
            let how = m.take(4);
            let v = m.take(256) as u8;
            let mut px = vec![];
            for c in 0..4 {
                for o in [0u8, 255, 99] {
                    let mut p = [o; 4];
                    p[c] = v;
                    let s = 30 * p[0] as u32 + 59 * p[1] as u32 + 11 * p[2] as u32;
                    if s == 12750 {
                        p[1] += 1;
                    }
                    px.push(p);
                }
            }
            image_case(ctx, &Pic::new(6, 2, px), 0, how, true)
        },
    ));
    Check {
        level: "exploration",
        spaces,
        assumptions: vec![
            "The exact tie of the luminance (30 R + 59 G + 11 B = 12750) is left to floating point and not judged.".into(),
        ],
    }
}
