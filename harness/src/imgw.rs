//! Minimal image writers (PNG, APNG, GIF, BMP) used to build inputs.

pub type Px = [u8; 4];

/// An image of one size with one or more frames, row by row.
#[derive(Clone)]
pub struct Pic {
    pub w: usize,
    pub h: usize,
    pub frames: Vec<Vec<Px>>,
}

impl Pic {
    pub fn new(w: usize, h: usize, px: Vec<Px>) -> Pic {
        assert_eq!(px.len(), w * h);
        Pic { w, h, frames: vec![px] }
    }
    pub fn solid(w: usize, h: usize, c: Px) -> Pic {
        Pic::new(w, h, vec![c; w * h])
    }
}

pub fn crc32(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 };
        }
    }
    !c
}

fn adler(data: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in data {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    (b << 16) | a
}

pub fn zlib(data: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 0x01];
    if data.is_empty() {
        o.extend([1, 0, 0, 0xff, 0xff]);
    }
    let n = (data.len() + 65534) / 65535;
    for (i, c) in data.chunks(65535).enumerate() {
        o.push((i + 1 == n) as u8);
        o.extend((c.len() as u16).to_le_bytes());
        o.extend((!(c.len() as u16)).to_le_bytes());
        o.extend(c);
    }
    o.extend(adler(data).to_be_bytes());
    o
}

pub fn chunk(o: &mut Vec<u8>, kind: &[u8; 4], data: &[u8]) {
    o.extend((data.len() as u32).to_be_bytes());
    let mut c = kind.to_vec();
    c.extend(data);
    o.extend(&c);
    o.extend(crc32(&c).to_be_bytes());
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PngKind {
    Rgba8,
    Rgb8,
    GrayA8,
    Gray8,
    /// palette with tRNS, the smallest bit depth that fits
    Pal,
    Rgba16,
}

/// The raw (filter 0) scanlines, the palette and the transparency of the frame.
fn scanlines(w: usize, h: usize, px: &[Px], k: PngKind, pal: &[Px], bits: usize) -> Vec<u8> {
    let mut raw = vec![];
    for y in 0..h {
        raw.push(0);
        let mut acc = 0u32;
        let mut nb = 0;
        for x in 0..w {
            let p = px[y * w + x];
            match k {
                PngKind::Rgba8 => raw.extend(p),
                PngKind::Rgb8 => raw.extend(&p[..3]),
                PngKind::GrayA8 => raw.extend([p[0], p[3]]),
                PngKind::Gray8 => raw.push(p[0]),
                PngKind::Rgba16 => {
                    for c in p {
                        raw.extend([c, c]);
                    }
                }
                PngKind::Pal => {
                    let i = pal.iter().position(|q| *q == p).unwrap();
                    acc = (acc << bits) | i as u32;
                    nb += bits;
                    if nb == 8 {
                        raw.push(acc as u8);
                        acc = 0;
                        nb = 0;
                    }
                }
            }
        }
        if nb > 0 {
            raw.push((acc << (8 - nb)) as u8);
        }
    }
    raw
}

pub fn palette_of(frames: &[Vec<Px>]) -> Vec<Px> {
    let mut pal: Vec<Px> = vec![];
    for f in frames {
        for p in f {
            if !pal.contains(p) {
                pal.push(*p);
            }
        }
    }
    pal
}

/// A still PNG for one frame, an APNG for more.
pub fn png(p: &Pic, k: PngKind) -> Vec<u8> {
    png_with(p, k, false)
}

pub fn png_with(p: &Pic, k: PngKind, force_anim: bool) -> Vec<u8> {
    let mut pal = vec![];
    let mut bits = 8;
    if k == PngKind::Pal {
        pal = palette_of(&p.frames);
        bits = match pal.len() {
            0..=2 => 1,
            3..=4 => 2,
            5..=16 => 4,
            _ => 8,
        };
    }
    let (depth, ct) = match k {
        PngKind::Rgba8 => (8, 6),
        PngKind::Rgb8 => (8, 2),
        PngKind::GrayA8 => (8, 4),
        PngKind::Gray8 => (8, 0),
        PngKind::Pal => (bits as u8, 3),
        PngKind::Rgba16 => (16, 6),
    };
    let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut ihdr = vec![];
    ihdr.extend((p.w as u32).to_be_bytes());
    ihdr.extend((p.h as u32).to_be_bytes());
    ihdr.extend([depth, ct, 0, 0, 0]);
    chunk(&mut o, b"IHDR", &ihdr);
    let anim = p.frames.len() > 1 || force_anim;
    if anim {
        let mut a = (p.frames.len() as u32).to_be_bytes().to_vec();
        a.extend(0u32.to_be_bytes());
        chunk(&mut o, b"acTL", &a);
    }
    if k == PngKind::Pal {
        let rgb: Vec<u8> = pal.iter().flat_map(|c| c[..3].to_vec()).collect();
        chunk(&mut o, b"PLTE", &rgb);
        if pal.iter().any(|c| c[3] != 255) {
            let t: Vec<u8> = pal.iter().map(|c| c[3]).collect();
            chunk(&mut o, b"tRNS", &t);
        }
    }
    let mut seq = 0u32;
    for (i, f) in p.frames.iter().enumerate() {
        if anim {
            let mut c = seq.to_be_bytes().to_vec();
            seq += 1;
            c.extend((p.w as u32).to_be_bytes());
            c.extend((p.h as u32).to_be_bytes());
            c.extend([0; 8]);
            c.extend([0, 1, 0, 10]); // delay 1/10 s
            c.extend([0, 0]); // dispose none, blend source
            chunk(&mut o, b"fcTL", &c);
        }
        let z = zlib(&scanlines(p.w, p.h, f, k, &pal, bits));
        if i == 0 {
            chunk(&mut o, b"IDAT", &z);
        } else {
            let mut d = seq.to_be_bytes().to_vec();
            seq += 1;
            d.extend(z);
            chunk(&mut o, b"fdAT", &d);
        }
    }
    chunk(&mut o, b"IEND", &[]);
    o
}

/// GIF with a global palette; fully transparent pixels use one transparent index. Every
/// frame covers the whole canvas, and is cleared before the next one.
pub fn gif(p: &Pic) -> Vec<u8> {
    let mut pal: Vec<Px> = vec![];
    let norm = |c: &Px| if c[3] == 0 { [0, 0, 0, 0] } else { *c };
    for f in &p.frames {
        for c in f {
            let c = norm(c);
            if !pal.contains(&c) {
                pal.push(c);
            }
        }
    }
    assert!(pal.len() <= 256);
    let mut bits = 1;
    while (1 << bits) < pal.len() {
        bits += 1;
    }
    let mut o = b"GIF89a".to_vec();
    o.extend((p.w as u16).to_le_bytes());
    o.extend((p.h as u16).to_le_bytes());
    o.extend([0x80 | ((bits - 1) as u8) << 4 | (bits - 1) as u8, 0, 0]);
    for i in 0..1 << bits {
        let c = pal.get(i).cloned().unwrap_or([0; 4]);
        o.extend(&c[..3]);
    }
    let trans = pal.iter().position(|c| c[3] == 0);
    for f in &p.frames {
        o.extend([0x21, 0xf9, 4, 2 << 2 | trans.is_some() as u8, 10, 0, trans.unwrap_or(0) as u8, 0]);
        o.push(0x2c);
        o.extend([0, 0, 0, 0]);
        o.extend((p.w as u16).to_le_bytes());
        o.extend((p.h as u16).to_le_bytes());
        o.push(0);
        let mcs = if bits < 2 { 2 } else { bits };
        o.push(mcs as u8);
        // LZW without compression: a clear code before the code size would grow
        let clear = 1u32 << mcs;
        let mut out = vec![];
        let mut acc = 0u32;
        let mut nb = 0;
        let mut put = |code: u32, out: &mut Vec<u8>| {
            acc |= code << nb;
            nb += mcs + 1;
            while nb >= 8 {
                out.push(acc as u8);
                acc >>= 8;
                nb -= 8;
            }
        };
        for (i, c) in f.iter().enumerate() {
            if i % ((1 << mcs) - 2) == 0 {
                put(clear, &mut out);
            }
            put(pal.iter().position(|q| *q == norm(c)).unwrap() as u32, &mut out);
        }
        put(clear + 1, &mut out);
        for _ in 0..8 / mcs + 1 {
            put(0, &mut out);
        }
        for c in out.chunks(255) {
            o.push(c.len() as u8);
            o.extend(c);
        }
        o.push(0);
    }
    o.push(0x3b);
    o
}

/// A frame of an animation that covers part of the canvas.
#[derive(Clone, Debug)]
pub struct Part {
    pub x: usize,
    pub y: usize,
    pub w: usize,
    pub h: usize,
    pub px: Vec<Px>,
    /// numerator and denominator of the delay in seconds; GIF: hundredths
    pub delay: (u16, u16),
    /// 0 keep, 1 clear, 2 restore
    pub dispose: u8,
    /// 0 replace, 1 draw over (always so in a GIF)
    pub blend: u8,
}

impl Part {
    pub fn full(w: usize, h: usize, px: Vec<Px>) -> Part {
        Part { x: 0, y: 0, w, h, px, delay: (1, 10), dispose: 0, blend: 0 }
    }
}

/// What is seen after each frame. Pixels are opaque or fully transparent.
pub fn composed(w: usize, h: usize, parts: &[Part], gif: bool) -> Pic {
    let mut canvas = vec![[0u8; 4]; w * h];
    let mut frames = vec![];
    for p in parts {
        let before = canvas.clone();
        for (i, c) in p.px.iter().enumerate() {
            let at = (p.y + i / p.w) * w + p.x + i % p.w;
            if c[3] != 0 || (p.blend == 0 && !gif) {
                canvas[at] = *c;
            }
        }
        frames.push(canvas.clone());
        for i in 0..p.w * p.h {
            let at = (p.y + i / p.w) * w + p.x + i % p.w;
            match p.dispose {
                1 => canvas[at] = [0; 4],
                2 => canvas[at] = before[at],
                _ => (),
            }
        }
    }
    Pic { w, h, frames }
}

/// An APNG (RGBA); the first frame must cover the canvas.
pub fn apng_parts(w: usize, h: usize, parts: &[Part]) -> Vec<u8> {
    let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut ihdr = vec![];
    ihdr.extend((w as u32).to_be_bytes());
    ihdr.extend((h as u32).to_be_bytes());
    ihdr.extend([8, 6, 0, 0, 0]);
    chunk(&mut o, b"IHDR", &ihdr);
    let mut a = (parts.len() as u32).to_be_bytes().to_vec();
    a.extend(0u32.to_be_bytes());
    chunk(&mut o, b"acTL", &a);
    let mut seq = 0u32;
    for (i, p) in parts.iter().enumerate() {
        let mut c = seq.to_be_bytes().to_vec();
        seq += 1;
        for v in [p.w, p.h, p.x, p.y] {
            c.extend((v as u32).to_be_bytes());
        }
        c.extend(p.delay.0.to_be_bytes());
        c.extend(p.delay.1.to_be_bytes());
        c.extend([p.dispose, p.blend]);
        chunk(&mut o, b"fcTL", &c);
        let z = zlib(&scanlines(p.w, p.h, &p.px, PngKind::Rgba8, &[], 8));
        if i == 0 {
            chunk(&mut o, b"IDAT", &z);
        } else {
            let mut d = seq.to_be_bytes().to_vec();
            seq += 1;
            d.extend(z);
            chunk(&mut o, b"fdAT", &d);
        }
    }
    chunk(&mut o, b"IEND", &[]);
    o
}

/// A GIF made of parts; `interlaced` stores the rows in the interlaced order.
pub fn gif_parts(w: usize, h: usize, parts: &[Part], interlaced: bool) -> Vec<u8> {
    let mut pal: Vec<Px> = vec![];
    let norm = |c: &Px| if c[3] == 0 { [0, 0, 0, 0] } else { *c };
    for p in parts {
        for c in &p.px {
            let c = norm(c);
            if !pal.contains(&c) {
                pal.push(c);
            }
        }
    }
    assert!(pal.len() <= 256);
    let mut bits = 1;
    while (1 << bits) < pal.len() {
        bits += 1;
    }
    let mut o = b"GIF89a".to_vec();
    o.extend((w as u16).to_le_bytes());
    o.extend((h as u16).to_le_bytes());
    o.extend([0x80 | ((bits - 1) as u8) << 4 | (bits - 1) as u8, 0, 0]);
    for i in 0..1 << bits {
        let c = pal.get(i).cloned().unwrap_or([0; 4]);
        o.extend(&c[..3]);
    }
    let trans = pal.iter().position(|c| c[3] == 0);
    for p in parts {
        let d = [1u8, 2, 3][p.dispose as usize];
        o.extend([0x21, 0xf9, 4, d << 2 | trans.is_some() as u8]);
        o.extend(p.delay.0.to_le_bytes());
        o.extend([trans.unwrap_or(0) as u8, 0]);
        o.push(0x2c);
        for v in [p.x, p.y, p.w, p.h] {
            o.extend((v as u16).to_le_bytes());
        }
        o.push(if interlaced { 0x40 } else { 0 });
        let rows: Vec<usize> = if interlaced {
            let mut r: Vec<usize> = (0..p.h).step_by(8).collect();
            r.extend((4..p.h).step_by(8));
            r.extend((2..p.h).step_by(4));
            r.extend((1..p.h).step_by(2));
            r
        } else {
            (0..p.h).collect()
        };
        let px: Vec<Px> = rows.iter().flat_map(|r| p.px[r * p.w..(r + 1) * p.w].to_vec()).collect();
        lzw(&mut o, &px.iter().map(|c| pal.iter().position(|q| *q == norm(c)).unwrap() as u8).collect::<Vec<_>>(), bits.max(2));
    }
    o.push(0x3b);
    o
}

/// LZW without compression: a clear code before the code size would grow.
fn lzw(o: &mut Vec<u8>, data: &[u8], mcs: usize) {
    o.push(mcs as u8);
    let clear = 1u32 << mcs;
    let mut out = vec![];
    let mut acc = 0u32;
    let mut nb = 0;
    let mut put = |code: u32, out: &mut Vec<u8>| {
        acc |= code << nb;
        nb += mcs + 1;
        while nb >= 8 {
            out.push(acc as u8);
            acc >>= 8;
            nb -= 8;
        }
    };
    for (i, c) in data.iter().enumerate() {
        if i % ((1 << mcs) - 2) == 0 {
            put(clear, &mut out);
        }
        put(*c as u32, &mut out);
    }
    put(clear + 1, &mut out);
    for _ in 0..8 / mcs + 1 {
        put(0, &mut out);
    }
    for c in out.chunks(255) {
        o.push(c.len() as u8);
        o.extend(c);
    }
    o.push(0);
}

/// 24 bit BMP (alpha ignored).
pub fn bmp(p: &Pic) -> Vec<u8> {
    let stride = (p.w * 3 + 3) / 4 * 4;
    let size = 54 + stride * p.h;
    let mut o = b"BM".to_vec();
    o.extend((size as u32).to_le_bytes());
    o.extend([0; 4]);
    o.extend(54u32.to_le_bytes());
    o.extend(40u32.to_le_bytes());
    o.extend((p.w as u32).to_le_bytes());
    o.extend((p.h as u32).to_le_bytes());
    o.extend(1u16.to_le_bytes());
    o.extend(24u16.to_le_bytes());
    o.extend([0; 24]);
    for y in (0..p.h).rev() {
        let mut row = vec![];
        for x in 0..p.w {
            let c = p.frames[0][y * p.w + x];
            row.extend([c[2], c[1], c[0]]);
        }
        row.resize(stride, 0);
        o.extend(row);
    }
    o
}

// ---------------------------------------------------------------- expected data

pub fn r4(c: u8) -> u16 {
    // nearest of the 16 levels: level l stands for 17 * l, and ties do not occur
    ((c as u16) + 8) / 17
}

pub fn c4(p: &Px) -> u16 {
    r4(p[3]) << 12 | r4(p[0]) << 8 | r4(p[1]) << 4 | r4(p[2])
}

fn colours(frames: &[Vec<Px>]) -> Vec<u16> {
    let mut seen = vec![false; 65536];
    let mut v = vec![];
    for f in frames {
        for p in f {
            let c = c4(p);
            if !seen[c as usize] {
                seen[c as usize] = true;
                v.push(c);
            }
        }
    }
    v
}

/// Checks icon data against the source images; `None` if the images must be rejected.
pub fn icon_error(icon: &Pic, eye: Option<&Pic>) -> bool {
    if icon.w != 32 || icon.h != 32 || colours(&icon.frames).len() > 16 {
        return true;
    }
    match eye {
        Some(e) => e.w != 72 || e.h != 56,
        None => false,
    }
}

/// Decodes `data` as the VMU would and compares it with the source pixels.
pub fn check_icon(data: &[u8], icon: &Pic, speed: u16, eye: Option<&Pic>) -> Result<(), String> {
    let w = |i: usize| data[i] as u16 | (data[i + 1] as u16) << 8;
    let nf = icon.frames.len();
    let head = 2 * 2 + 2 + 2 + 4 + 20;
    let icon_len = 32 + nf * 512;
    let eye_cols = eye.map(|e| colours(&e.frames[..1]));
    let (kind, eye_len) = match &eye_cols {
        None => (0, 0),
        Some(c) if c.len() <= 16 => (3, 32 + 72 * 56 / 2),
        Some(c) if c.len() <= 256 => (2, 512 + 72 * 56),
        Some(_) => (1, 72 * 56 * 2),
    };
    if data.len() != head + icon_len + eye_len {
        return Err(format!("{} bytes instead of {}", data.len(), head + icon_len + eye_len));
    }
    if w(0) as usize != nf || w(2) != speed {
        return Err(format!("frames {} speed {} instead of {} {}", w(0), w(2), nf, speed));
    }
    if w(4) != kind {
        return Err(format!("eyecatch kind {} instead of {}", w(4), kind));
    }
    if data[6..head].iter().any(|b| *b != 0) {
        return Err("checksum, size or reserved bytes are not zero".into());
    }
    let pal = |at: usize, i: u8| w(at + 2 * i as usize);
    for (fi, f) in icon.frames.iter().enumerate() {
        for i in 0..1024 {
            let b = data[head + 32 + fi * 512 + i / 2];
            let ix = if i % 2 == 0 { b >> 4 } else { b & 15 };
            if pal(head, ix) != c4(&f[i]) {
                return Err(format!(
                    "frame {} pixel {},{} decodes to {:04x} instead of {:04x} ({:?})",
                    fi, i % 32, i / 32, pal(head, ix), c4(&f[i]), f[i]
                ));
            }
        }
    }
    if let Some(e) = eye {
        let at = head + icon_len;
        for i in 0..72 * 56 {
            let got = match kind {
                3 => {
                    let b = data[at + 32 + i / 2];
                    pal(at, if i % 2 == 0 { b >> 4 } else { b & 15 })
                }
                2 => pal(at, data[at + 512 + i]),
                _ => w(at + 2 * i),
            };
            if got != c4(&e.frames[0][i]) {
                return Err(format!(
                    "eyecatch pixel {},{} decodes to {:04x} instead of {:04x} ({:?})",
                    i % 72, i / 72, got, c4(&e.frames[0][i]), e.frames[0][i]
                ));
            }
        }
    }
    Ok(())
}

/// Luminance as documented: 0.3 R + 0.59 G + 0.11 B, rounded, compared exactly in integers.
pub fn dark(p: &Px) -> bool {
    let s = 30 * p[0] as u32 + 59 * p[1] as u32 + 11 * p[2] as u32;
    // round(s / 100) <= 127
    s < 12750
}

pub fn sprite_bytes(p: &Pic, masked: bool, header: bool) -> Vec<u8> {
    let mut o = vec![];
    for f in &p.frames {
        if header {
            o.push(p.w as u8);
            o.push(p.h as u8);
        }
        let mut rows = |bit: &dyn Fn(&Px) -> bool, pad: u8| {
            for y in 0..p.h {
                for bx in 0..(p.w + 7) / 8 {
                    let mut b = 0;
                    for k in 0..8 {
                        let x = bx * 8 + k;
                        let v = if x < p.w { bit(&f[y * p.w + x]) as u8 } else { pad };
                        b = b << 1 | v;
                    }
                    o.push(b);
                }
            }
        };
        if masked {
            rows(&|p| p[3] <= 127, 1);
        }
        rows(&|p| dark(p), 0);
    }
    o
}
