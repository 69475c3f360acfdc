//! C03: VMI files, with the clock and the time zone under the harness's control.

use crate::engine::*;
use crate::{Check, Tier};

pub static mut FAKE: Option<i64> = None;

/// Takes the place of the C library's function for everything in this executable.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clock == libc::CLOCK_REALTIME {
        if let Some(t) = FAKE {
            (*ts).tv_sec = t;
            (*ts).tv_nsec = 999_999_999;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clock, ts) as libc::c_int
}

/// (year, month, day, weekday with Sunday = 0) of a day number, 1970-01-01 = 0.
pub fn civil(day: i64) -> (i64, i64, i64, i64) {
    let mut y = 1970;
    let mut d = day;
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    while d < 0 {
        y -= 1;
        d += if leap(y) { 366 } else { 365 };
    }
    while d >= if leap(y) { 366 } else { 365 } {
        d -= if leap(y) { 366 } else { 365 };
        y += 1;
    }
    let len = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while d >= len[m] {
        d -= len[m];
        m += 1;
    }
    (y, m as i64 + 1, d + 1, (day + 4).rem_euclid(7))
}

pub fn day_of(y: i64, m: i64, d: i64) -> i64 {
    let mut k = (y - 1970) * 365 - 20;
    loop {
        let c = civil(k);
        if (c.0, c.1, c.2) == (y, m, d) {
            return k;
        }
        k += 1;
    }
}

pub struct Case<'a> {
    pub vms: &'a [u8],
    pub dir: &'a str,
    pub name: &'a str,
    pub copyright: Option<&'a str>,
    pub game: bool,
    pub output: Option<&'a str>,
    pub utc: i64,
    pub tz: &'a str,
    /// local time as seconds since 1970-01-01 00:00 local
    pub local: i64,
}

impl<'a> Case<'a> {
    fn base(vms: &'a [u8]) -> Case<'a> {
        Case { vms, dir: "", name: "file.vms", copyright: None, game: false, output: None, utc: 1_000_000_000, tz: "UTC0", local: 1_000_000_000 }
    }
    fn expected(&self) -> Option<Vec<u8>> {
        let off = if self.game { 0x200 } else { 0 };
        if self.vms.len() < off + 0x30 {
            return None;
        }
        let mut v = vec![0u8; 108];
        v[4..0x24].copy_from_slice(&self.vms[off + 0x10..off + 0x30]);
        let c = self.copyright.unwrap_or("").as_bytes();
        for i in 0..c.len().min(32) {
            v[0x24 + i] = c[i];
        }
        let (y, m, d, w) = civil(self.local.div_euclid(86400));
        let s = self.local.rem_euclid(86400);
        v[0x44] = y as u8;
        v[0x45] = (y >> 8) as u8;
        v[0x46] = m as u8;
        v[0x47] = d as u8;
        v[0x48] = (s / 3600) as u8;
        v[0x49] = (s / 60 % 60) as u8;
        v[0x4A] = (s % 60) as u8;
        v[0x4B] = w as u8;
        v[0x4E] = 1;
        let base = self.name.strip_suffix(".vms").unwrap_or(self.name).as_bytes();
        for i in 0..base.len().min(8) {
            v[0x50 + i] = base[i];
        }
        let file = self.name.as_bytes();
        for i in 0..file.len().min(12) {
            v[0x58 + i] = file[i];
        }
        if self.game {
            v[0x64] = 2;
        }
        v[0x68..0x6C].copy_from_slice(&(self.vms.len() as u32).to_le_bytes());
        for (i, k) in b"SEGA".iter().enumerate() {
            v[i] = v[0x50 + i] & k;
        }
        Some(v)
    }
}

fn vmi_case(ctx: &mut Ctx, c: &Case) -> Verdict {
    let inp = format!("{}{}", c.dir, c.name);
    let ip = ctx.put(&inp, c.vms);
    let out = match c.output {
        Some(o) => ctx.dir.join(o),
        None => {
            let s = ip.to_str().unwrap();
            std::path::PathBuf::from(format!("{}.vmi", s.strip_suffix(".vms").unwrap_or(s)))
        }
    };
    let old = b"previous contents of the output, longer than any VMI file would be........................................................................";
    std::fs::write(&out, old).expect("scratch");
    let mut argv = vec!["waterbear".to_owned(), "vmi".into(), ip.to_str().unwrap().to_owned()];
    if let Some(t) = c.copyright {
        // clap drops further `=` after `--copyright=`; a text starting with `-` needs that form
        if t.starts_with('-') {
            argv.push(format!("--copyright={}", t));
        } else {
            argv.push("--copyright".into());
            argv.push(t.to_owned());
        }
    }
    if c.game {
        argv.push("--game".into());
    }
    if c.output.is_some() {
        argv.push("-o".into());
        argv.push(out.to_str().unwrap().to_owned());
    }
    let (utc, tz) = (c.utc, c.tz.to_owned());
    ctx.note(|| format!("--- waterbear {:?} at UTC {} with TZ={}", &argv[1..], utc, tz));
    let r = run_forked(move || {
        std::env::set_var("TZ", &tz);
        unsafe { FAKE = Some(utc) };
        waterbear::run_command(&argv);
    });
    let got = std::fs::read(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&ip);
    match c.expected() {
        None => {
            if r.code == 0 || r.crashed() {
                Verdict::Fail(format!("a VMS file of {} bytes: exit {}", c.vms.len(), r.code))
            } else if got != old {
                Verdict::Fail("rejected, but the output file was changed".into())
            } else {
                pass(true)
            }
        }
        Some(w) => {
            if r.code != 0 {
                Verdict::Fail(format!("exit {}: {}", r.code, r.err_s()))
            } else if got != w {
                Verdict::Fail(format!("the VMI file differs: {} (want {})", diff(&w, &got), hex(&w)))
            } else {
                pass(true)
            }
        }
    }
}

fn sample(len: usize) -> Vec<u8> {
    (0..len).map(|i| (i * 7 + i / 256 * 13 + 1) as u8).collect()
}

pub fn c03(t: Tier) -> Check {
    let mut spaces = vec![];
    let first = day_of(1998, 1, 1);
    let days = t.q(day_of(2040, 1, 1), day_of(2110, 1, 1)) - first;
    spaces.push(Space::new(
        "days",
        "every day from 1998 to 2039 (thorough 2109) at one time of day: year, month, day and weekday",
        days as u64,
        move |i, ctx| {
            let v = sample(0x30);
            let mut c = Case::base(&v);
            c.utc = (first + i as i64) * 86400 + 43200;
            c.local = c.utc;
            vmi_case(ctx, &c)
        },
    ));
    let step = t.q(61, 1);
    spaces.push(Space::new(
        "times",
        "times of day: every 61st second (so every hour, minute and second value; thorough: every second)",
        (86400 + step - 1) as u64 / step as u64,
        move |i, ctx| {
            let v = sample(0x30);
            let mut c = Case::base(&v);
            c.utc = day_of(2024, 2, 29) * 86400 + i as i64 * step;
            c.local = c.utc;
            vmi_case(ctx, &c)
        },
    ));
    spaces.push(Space::new(
        "zones",
        "27 offsets from UTC x 24 instants around the ends of days, months, years and of February (leap and not): local time",
        27 * 24,
        |i, ctx| {
            let mut m = Mix(i);
            let q = m.take(27) as i64;
            let off = if q < 25 { (q - 12) * 3600 } else { [19800, -12600][q as usize - 25] };
            let inst = m.take(24) as i64;
            let (y, mo, d) = [(2000, 1, 1), (2001, 3, 1), (2004, 2, 29), (2004, 3, 1), (2023, 12, 31), (2038, 1, 19)][(inst / 4) as usize];
            let utc = day_of(y, mo, d) * 86400 + [-1, 0, 11 * 3600, 12 * 3600 + 1][(inst % 4) as usize];
            let v = sample(0x30);
            // POSIX: the sign is that of UTC minus local time
            let s = -off;
            let tz = format!("XXX{}{}:{:02}", if s < 0 { "-" } else { "+" }, s.abs() / 3600, s.abs() / 60 % 60);
            let mut c = Case::base(&v);
            c.tz = &tz;
            c.utc = utc;
            c.local = utc + off;
            vmi_case(ctx, &c)
        },
    ));
    spaces.push(Space::new(
        "summer-time",
        "a zone with summer time, hours around both changes in 2015..2035",
        21 * 2 * 8,
        |i, ctx| {
            let mut m = Mix(i);
            let y = 2015 + m.take(21) as i64;
            let spring = m.take(2) == 0;
            let k = m.take(8) as i64 - 4;
            // second Sunday of March / first Sunday of November, 02:00 local
            let first = day_of(y, if spring { 3 } else { 11 }, 1);
            let w = civil(first).3;
            let sun = first + (7 - w) % 7 + if spring { 7 } else { 0 };
            let change = sun * 86400 + 2 * 3600 + if spring { 5 } else { 4 } * 3600;
            let utc = change + k * 1800 + if k < 0 { 1799 } else { 0 };
            let off = if (utc < change) == spring { -5 } else { -4 };
            let v = sample(0x30);
            let mut c = Case::base(&v);
            c.tz = "EST5EDT,M3.2.0,M11.1.0";
            c.utc = utc;
            c.local = utc + off * 3600;
            vmi_case(ctx, &c)
        },
    ));
    let mut lens: Vec<usize> = (0..=0x250).collect();
    lens.extend([0x3ff, 0x400, 0x401, 0x8000, 0xffff, 0x10000, 0x10001, 0x19000, 0x20000, 0x100_0000, 0x100_0001]);
    let nl = lens.len();
    spaces.push(Space::new(
        "lengths",
        "VMS files of every length 0..592 and larger ones up to 16 MB, as data file and as game: size field, description, rejection when too short",
        (nl * 2) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let v = sample(lens[m.take(nl)]);
            let mut c = Case::base(&v);
            c.game = m.take(2) == 1;
            vmi_case(ctx, &c)
        },
    ));
    spaces.push(Space::new(
        "description",
        "each byte of the two possible description fields and around them in turn the only non-zero one, with every one of 8 values",
        2 * 64 * 8,
        |i, ctx| {
            let mut m = Mix(i);
            let game = m.take(2) == 1;
            let at = m.take(64) + if game { 0x200 } else { 0 };
            let mut v = vec![0u8; 0x260];
            v[at] = 1 << m.take(8);
            let mut c = Case::base(&v);
            c.game = game;
            vmi_case(ctx, &c)
        },
    ));
    let names: &'static [&'static str] = &[
        "a", "a.vms", "ab.vms", "abc.vms", "abcd.vms", "abcdefg.vms", "abcdefgh.vms", "abcdefghi.vms", "abcdefghijklmnop.vms", "abcdefgh", "abcdefghi",
        "abcdefghijk", "abcdefghijkl", "abcdefghijklm", ".vms", "a.vms.vms", "a.vmsx", "a.VMS", "avms", "SEGA.vms", "sega.vms", "~~~~.vms", "@@@@.vms",
        "a b.vms", "é.vms", "ééééé.vms", "€€€€.vms", "abcdefg€.vms", "x.vms.bak", "vms", "0123456789.vmi",
    ];
    let dirs: &'static [&'static str] = &["", "d/", "d.vms/", "d/e.x/"];
    let nn = names.len();
    spaces.push(Space::new(
        "names",
        "31 file names (all lengths around 8 and 12, with and without .vms, multi-byte) x 4 directories x data/game x with and without -o: resource name, file name, checksum, default output name",
        (nn * 4 * 2 * 2) as u64,
        move |i, ctx| {
            let mut m = Mix(i);
            let v = sample(0x240);
            let mut c = Case::base(&v);
            c.name = names[m.take(nn)];
            c.dir = dirs[m.take(4)];
            c.game = m.take(2) == 1;
            c.output = if m.take(2) == 1 { Some("result.bin") } else { None };
            vmi_case(ctx, &c)
        },
    ));
    spaces.push(Space::new(
        "wide-names",
        "names of 0..14 letters, then a character of two, three or four bytes (or two of them), then 0..6 letters, with and without .vms, x data/game x with and without -o: every byte of such a character at the limits of the fields",
        15 * 5 * 7 * 2 * 2 * 2,
        move |i, ctx| {
            let mut m = Mix(i);
            let ch = ["é", "€", "\u{1F600}", "éé", "\u{1F600}€"][m.take(5)];
            let name = format!("{}{}{}{}", &"abcdefghijklmn"[..m.take(15)], ch, &"opqrst"[..m.take(7)], [".vms", ""][m.take(2)]);
            let v = sample(0x240);
            let mut c = Case::base(&v);
            c.name = &name;
            c.game = m.take(2) == 1;
            c.output = if m.take(2) == 1 { Some("result.bin") } else { None };
            vmi_case(ctx, &c)
        },
    ));
    spaces.push(Space::new(
        "checksum",
        "names whose first four characters run over all printable ASCII characters: the checksum is the name masked with SEGA",
        4 * 94,
        |i, ctx| {
            let mut m = Mix(i);
            let at = m.take(4);
            let ch = (33 + m.take(94)) as u8;
            if ch == b'/' {
                return pass(false);
            }
            let mut n = b"zzzz.vms".to_vec();
            n[at] = ch;
            let n = String::from_utf8(n).unwrap();
            let v = sample(0x240);
            let mut c = Case::base(&v);
            c.name = &n;
            vmi_case(ctx, &c)
        },
    ));
    spaces.push(Space::new(
        "copyright",
        "copyright texts of every length 0..40 of one-, two- and three-byte characters, absent, and each printable character",
        41 * 3 + 1 + 95,
        |i, ctx| {
            let v = sample(0x240);
            let mut c = Case::base(&v);
            let text;
            if i < 123 {
                text = ["c", "©", "€"][(i % 3) as usize].repeat((i / 3) as usize);
                c.copyright = Some(&text);
            } else if i > 123 {
                text = format!("{}x", (32 + (i - 124)) as u8 as char);
                c.copyright = Some(&text);
            }
            vmi_case(ctx, &c)
        },
    ));
    Check {
        level: "exploration",
        spaces,
        assumptions: vec!["The clock (clock_gettime) and TZ are supplied by the harness; the oracle has its own calendar.".into()],
    }
}
