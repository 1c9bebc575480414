use crate::engine::{IndexFn, Kind, RandomFn, Target};

pub mod accept;
pub mod deep;
pub mod document;
pub mod faults;
pub mod features;
pub mod giant;
pub mod history;
pub mod lexing;
pub mod memory;
pub mod numbers;
pub mod objects;
pub mod printing;
pub mod scaling;
pub mod sizes;
pub mod strings;

pub struct Property {
    pub id: &'static str,
    /// factor on the case counts of the quick tier
    pub scale: f64,
    pub targets: Vec<Target>,
}

/// A random target with its case counts for the two tiers.
pub fn rnd(name: &'static str, f: RandomFn, quick: u64, thorough: u64, rule: &'static str) -> Target {
    Target { name, kind: Kind::Random(f), quick, thorough, rule }
}
/// A complete enumeration.
pub fn all(name: &'static str, f: IndexFn, quick: u64, thorough: u64, rule: &'static str) -> Target {
    Target { name, kind: Kind::Exhaustive(f), quick, thorough, rule }
}

pub fn properties() -> Vec<Property> {
    let mut all = vec![
        Property { id: "C01", scale: 2.0, targets: accept::c01() },
        Property { id: "C02", scale: 3.0, targets: accept::c02() },
        Property { id: "C03", scale: 1.3, targets: accept::c03() },
        Property { id: "C04", scale: 3.0, targets: accept::c04() },
        Property { id: "C05", scale: 6.0, targets: strings::c05() },
        Property { id: "C06", scale: 8.0, targets: strings::c06() },
        Property { id: "C07", scale: 10.0, targets: strings::c07() },
        Property { id: "C08", scale: 2.5, targets: printing::c08() },
        Property { id: "C09", scale: 2.5, targets: printing::c09() },
        Property { id: "C10", scale: 5.0, targets: document::c10() },
        Property { id: "C11", scale: 5.0, targets: document::c11() },
        Property { id: "C12", scale: 5.0, targets: faults::c12() },
        Property { id: "C13", scale: 7.0, targets: faults::c13() },
        Property { id: "C14", scale: 5.0, targets: lexing::c14() },
        Property { id: "C15", scale: 10.0, targets: numbers::c15() },
        Property { id: "C16", scale: 3.0, targets: objects::c16() },
        Property { id: "C17", scale: 2.0, targets: faults::c17() },
        Property { id: "C18", scale: 1.5, targets: printing::c18() },
        Property { id: "C19", scale: 8.0, targets: memory::c19() },
        Property { id: "C20", scale: 1.0, targets: features::c20() },
        Property { id: "C21", scale: 25.0, targets: strings::c21() },
        Property { id: "C22", scale: 6.0, targets: objects::c22() },
        Property { id: "C23", scale: 5.0, targets: scaling::c23() },
        Property { id: "C24", scale: 4.0, targets: history::c24() },
        Property { id: "C25", scale: 3.0, targets: history::c25() },
    ];
    for p in &mut all {
        p.targets.extend(sizes::of(p.id));
        p.targets.extend(deep::of(p.id));
        p.targets.extend(giant::of(p.id));
    }
    all
}
