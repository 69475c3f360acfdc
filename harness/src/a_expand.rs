//! A11: the expansion is an equivalent program. Every program of the spaces of the other
//! language properties is assembled, expanded, and its expansion assembled.

use crate::engine::*;
use crate::{Check, Tier};

fn wrap(from: &str, sp: Space, cap: Option<u64>) -> Space {
    let run = sp.run;
    let total = cap.map(|c| c.min(sp.total)).unwrap_or(sp.total);
    Space::new(
        &format!("{}-{}", from, sp.name),
        &format!("the programs of space {} of {}{}: {}", sp.name, from, if total < sp.total { " up to a smaller depth" } else { "" }, sp.rule),
        total,
        move |i, ctx| {
            ctx.expanding = Some(Expanding::default());
            let _ = run(i, ctx);
            let e = ctx.expanding.take().unwrap();
            match e.problem {
                Some(m) => Verdict::Fail(m),
                None => pass(e.compared > 0),
            }
        },
    )
    .limit(sp.limit.max(20.0))
}

pub fn a11(t: Tier) -> Check {
    let q = Tier::Quick;
    let quick = t == Tier::Quick;
    // spaces left to the thorough tier, and those enumerated to a smaller depth
    let skip = ["A02-rel8", "A02-operand-edges", "A05-triples", "A05-token-strings", "A07-trees", "A08-headers", "A08-gaps", "A03-deep-histories", "A06-programs-q", "A07-endings", "C01-icon-pixels", "C01-eyecatch-pixels", "C02-patterns", "C02-single-pixels", "C01-levels", "C01-colours", "C02-image-command"];
    let cap = [
        ("A03-histories", crate::a_layout::seq_total(26, 3)),
        ("A04-scopes", crate::a_layout::seq_total(16, 4)),
    ];
    let mut spaces = vec![];
    for (id, c) in [
        ("A01", crate::a_isa::a01(q)),
        ("A02", crate::a_isa::a02(q)),
        ("A03", crate::a_layout::a03(t)),
        ("A04", crate::a_lang::a04(q)),
        ("A05", crate::a_lang::a05(q)),
        ("A06", crate::a_lang::a06(t)),
        ("A07", crate::a_include::a07(q)),
        ("A08", crate::a_text::a08(q)),
        ("A09", crate::a_text::a09(t)),
        ("A10", crate::a_text::a10(t)),
        ("C01", crate::c_image::c01(q)),
        ("C02", crate::c_image::c02(q)),
    ] {
        for sp in c.spaces {
            let name = format!("{}-{}", id, sp.name);
            if quick && skip.contains(&name.as_str()) {
                continue;
            }
            let c = cap.iter().find(|c| c.0 == name && quick).map(|c| c.1);
            if let Some(c) = c {
                assert!(c < sp.total);
            }
            spaces.push(wrap(id, sp, c));
        }
    }
    Check {
        level: "exploration",
        spaces,
        assumptions: vec!["The oracle is the assembler's own result for the original program.".into()],
    }
}
