mod engine;
mod isa;
mod model;
mod a_isa;
mod a_layout;
mod a_lang;
mod a_many;
mod a_text;
mod a_include;
mod imgw;
mod c_vmi;
mod c_image;
mod a_expand;
mod b_disasm;
mod d_robust;
mod d_diag;
mod d_fault;
mod d_determ;
mod d_facts;
mod d_cli;

use engine::*;
use std::fs;
use std::path::{Path, PathBuf};

pub struct Check {
    pub level: &'static str,
    pub spaces: Vec<Space>,
    pub assumptions: Vec<String>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn q<T>(self, quick: T, thorough: T) -> T {
        if self == Tier::Quick {
            quick
        } else {
            thorough
        }
    }
}

fn check(id: &str, t: Tier) -> Option<Check> {
    Some(match id {
        "A01" => a_isa::a01(t),
        "A02" => a_isa::a02(t),
        "A03" => a_layout::a03(t),
        "A04" => a_lang::a04(t),
        "A05" => a_lang::a05(t),
        "A06" => a_lang::a06(t),
        "A07" => a_include::a07(t),
        "A08" => a_text::a08(t),
        "A09" => a_text::a09(t),
        "A10" => a_text::a10(t),
        "A11" => a_expand::a11(t),
        "B01" => b_disasm::b01(t),
        "B02" => b_disasm::b02(t),
        "B03" => b_disasm::b03(t),
        "C01" => c_image::c01(t),
        "C02" => c_image::c02(t),
        "C03" => c_vmi::c03(t),
        "D01" => d_robust::d01(t),
        "D02" => d_diag::d02(t),
        "D03" => d_fault::d03(t),
        "D04" => d_determ::d04(t),
        "D05" => d_facts::d05(t),
        "D06" => d_cli::d06(t),
        _ => return None,
    })
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(path: &Path, id: &str, tier: &str, seed: &str, c: &Check, r: &Report, new: usize) {
    let mut cov: Vec<String> = vec![];
    let rule = c
        .spaces
        .iter()
        .map(|s| format!("[{}] {}", s.name, s.rule))
        .collect::<Vec<_>>()
        .join(" ");
    if c.level == "model_checking" {
        cov.push(format!("\"states\": {}", r.states));
        cov.push(format!("\"transitions\": {}", r.transitions));
        cov.push(format!("\"traces_validated_against_impl\": {}", r.validated));
    }
    cov.push(format!("\"evaluations\": {}", r.evaluations));
    cov.push(format!("\"distinct_nontrivial\": {}", r.nontrivial));
    cov.push(format!("\"rule\": {}", jstr(&rule)));
    cov.push(format!("\"exhaustive\": {}", r.complete));
    let sp = r
        .per_space
        .iter()
        .map(|(n, t, e, nt)| {
            format!(
                "{{\"space\": {}, \"size\": {}, \"executed\": {}, \"nontrivial\": {}}}",
                jstr(n),
                t,
                e,
                nt
            )
        })
        .collect::<Vec<_>>()
        .join(", ");
    cov.push(format!("\"spaces\": [{}]", sp));
    cov.push(format!(
        "\"samples\": [{}]",
        r.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
    ));
    cov.push(format!("\"unconfirmed\": {}", r.unconfirmed));
    let text = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        jstr(id),
        jstr(tier),
        seed.parse::<i64>().unwrap_or(1),
        jstr(c.level),
        cov.join(", "),
        c.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        r.wall,
        new
    );
    if let Some(d) = path.parent() {
        let _ = fs::create_dir_all(d);
    }
    fs::write(path, text).expect("evidence");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: wbmc ID quick|thorough [replay SPACE INDEX]");
        std::process::exit(2);
    }
    let id = args[1].as_str();
    let tier = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let verif = PathBuf::from(std::env::var("WBMC_VERIF").unwrap_or("/verif".into()));
    let seed = std::env::var("VERIF_SEED").unwrap_or("1".into());
    let cli_bin = std::env::current_exe().unwrap().parent().unwrap().join("wbcli");
    let root = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    let scratch = match std::env::var("WBMC_SCRATCH") {
        Ok(s) => PathBuf::from(s),
        Err(_) => root.join(format!("wbmc.{}", std::process::id())),
    };
    fs::create_dir_all(&scratch).expect("scratch");
    let c = match check(id, tier) {
        Some(c) => c,
        None => {
            eprintln!("no check for {}", id);
            std::process::exit(2);
        }
    };
    let mut c = c;
    if let Ok(only) = std::env::var("WBMC_ONLY") {
        // development aid: explore only the spaces whose name contains the text
        c.spaces.retain(|s| s.name.contains(&only));
    }
    if args.len() >= 6 && args[3] == "replay" {
        let (ok, text) = replay(&c.spaces, &scratch, &cli_bin, &args[4], args[5].parse().unwrap());
        println!("{}", text);
        let _ = fs::remove_dir_all(&scratch);
        std::process::exit(if ok { 0 } else { 1 });
    }
    let budget = std::env::var("WBMC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 500.0 } else { 7200.0 });
    let r = explore(&c.spaces, &scratch, &cli_bin, budget);
    let known = fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    let mut new = 0;
    let replays = verif.join("replay");
    let mut lines = vec![];
    for f in &r.failures {
        let sp = &c.spaces[f.space];
        let key = format!("finding: property={} space={} case={} ", id, sp.name, f.idx);
        if let Some(l) = known.lines().find(|l| l.starts_with(&key)) {
            lines.push(format!("KNOWN-FINDING: property={} {}", id, &l[key.len()..]));
            continue;
        }
        new += 1;
        if new > 3 {
            continue;
        }
        let _ = fs::create_dir_all(&replays);
        let file = replays.join(format!("{}-{}-{}.txt", id, sp.name.replace(|c: char| !c.is_alphanumeric(), "-"), f.idx));
        let text = format!(
            "property {}\nspace {} ({})\ncase {}\nkind {}\n\n{}\n\nrun again: {}/check.sh {} {} replay '{}' {}\n",
            id, sp.name, sp.rule, f.idx, f.kind, f.message, verif.display(), id, args[2], sp.name, f.idx
        );
        let _ = fs::write(&file, text);
        let first = f.message.lines().next().unwrap_or("").to_owned();
        lines.push(format!("VIOLATION property={} replay={}", id, file.display()));
        lines.push(format!("  [{} case {}] {}: {}", sp.name, f.idx, f.kind, trunc(&first, 600)));
    }
    for l in &lines {
        println!("{}", l);
    }
    let ev = match std::env::var("WBMC_EVIDENCE") {
        Ok(s) => PathBuf::from(s),
        Err(_) => verif.join("evidence").join(format!("{}.json", id)),
    };
    evidence(&ev, id, &args[2], &seed, &c, &r, new);
    println!(
        "{} {}: {} cases ({} non-trivial) in {} spaces, {:.1} s, exhaustive: {}, violations: {}, unconfirmed: {}",
        id, args[2], r.evaluations, r.nontrivial, c.spaces.len(), r.wall, r.complete, new, r.unconfirmed
    );
    let _ = fs::remove_dir_all(&scratch);
    std::process::exit(if new > 0 { 1 } else { 0 });
}
