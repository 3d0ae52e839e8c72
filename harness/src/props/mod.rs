pub mod geo;
pub mod hist;
pub mod mats;
pub mod need;
pub mod quats;
pub mod vecs;
use crate::mon::Mon;
use crate::rng::Rng;

pub const RULE: &str = "a case counts when the monitor compared at least one answer of the real code with the oracle on it; cases are told apart by a 64-bit hash of their exact input numbers (at most 6 million per thread are kept)";
pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Rng, &mut Mon),
}
pub fn all() -> Vec<Prop> {
    vec![
        Prop { id: "C01", quick: 24_000_000, thorough: 300_000_000, run: vecs::c01 },
        Prop { id: "C02", quick: 24_000_000, thorough: 300_000_000, run: vecs::c02 },
        Prop { id: "C03", quick: 5_000_000, thorough: 60_000_000, run: mats::c03 },
        Prop { id: "C04", quick: 6_000_000, thorough: 80_000_000, run: mats::c04 },
        Prop { id: "C05", quick: 5_000_000, thorough: 60_000_000, run: mats::c05 },
        Prop { id: "C06", quick: 24_000_000, thorough: 300_000_000, run: mats::c06 },
        Prop { id: "C07", quick: 16_000_000, thorough: 200_000_000, run: quats::c07 },
        Prop { id: "C08", quick: 16_000_000, thorough: 200_000_000, run: quats::c08 },
        Prop { id: "C09", quick: 24_000_000, thorough: 300_000_000, run: quats::c09 },
        Prop { id: "C10", quick: 24_000_000, thorough: 300_000_000, run: quats::c10 },
        Prop { id: "C11", quick: 24_000_000, thorough: 300_000_000, run: quats::c11 },
        Prop { id: "C12", quick: 24_000_000, thorough: 300_000_000, run: quats::c12 },
        Prop { id: "C13", quick: 16_000_000, thorough: 200_000_000, run: quats::c13 },
        Prop { id: "C14", quick: 16_000_000, thorough: 200_000_000, run: geo::c14 },
        Prop { id: "C15", quick: 24_000_000, thorough: 300_000_000, run: geo::c15 },
        Prop { id: "C16", quick: 24_000_000, thorough: 300_000_000, run: geo::c16 },
        Prop { id: "C17", quick: 24_000_000, thorough: 300_000_000, run: geo::c17 },
        Prop { id: "C18", quick: 24_000_000, thorough: 300_000_000, run: geo::c18 },
        Prop { id: "C19", quick: 24_000_000, thorough: 300_000_000, run: geo::c19 },
        Prop { id: "C20", quick: 24_000_000, thorough: 300_000_000, run: geo::c20 },
        Prop { id: "C21", quick: 24_000_000, thorough: 300_000_000, run: geo::c21 },
        Prop { id: "C22", quick: 24_000_000, thorough: 300_000_000, run: geo::c22 },
        Prop { id: "C23", quick: 24_000_000, thorough: 300_000_000, run: geo::c23 },
        Prop { id: "C24", quick: 16_000_000, thorough: 200_000_000, run: geo::c24 },
        Prop { id: "C25", quick: 16_000_000, thorough: 200_000_000, run: geo::c25 },
        Prop { id: "C26", quick: 24_000_000, thorough: 300_000_000, run: geo::c26 },
        Prop { id: "C27", quick: 24_000_000, thorough: 300_000_000, run: geo::c27 },
        Prop { id: "C28", quick: 24_000_000, thorough: 300_000_000, run: geo::c28 },
        Prop { id: "C29", quick: 120_000, thorough: 1_000_000, run: hist::c29 },
        Prop { id: "C30", quick: 16_000_000, thorough: 200_000_000, run: geo::c30 },
        Prop { id: "C31", quick: 16_000_000, thorough: 200_000_000, run: geo::c31 },
        Prop { id: "C32", quick: 16_000_000, thorough: 200_000_000, run: hist::c32 },
    ]
}
