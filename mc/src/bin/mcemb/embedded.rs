//! Embedded values: the same names for different kinds, in different modules, built on one another.
use cubing::kpuzzle::{kpattern_from_json_file, kpuzzle_from_json_file, ktransformation_from_json_file};

kpuzzle_from_json_file!(pub(crate), e, "./v0.kpuzzle.json");
kpattern_from_json_file!(pub(crate), e, "./v0.kpattern.json", e_kpuzzle());
ktransformation_from_json_file!(pub(crate), e, "./v0.ktransformation.json", e_kpuzzle());
// Another pattern and transformation on the same puzzle, through a puzzle copy.
kpattern_from_json_file!(pub, other, "./v0b.kpattern.json", &e_kpuzzle().clone());
ktransformation_from_json_file!(pub, other, "./v1.ktransformation.json", inner::e_kpuzzle());

pub mod inner {
    use super::*;
    kpuzzle_from_json_file!(pub, e, "./v1.kpuzzle.json");
    kpattern_from_json_file!(pub, e, "./v1.kpattern.json", e_kpuzzle());
    // The same files on another puzzle.
    kpattern_from_json_file!(pub, other, "./v0.kpattern.json", e_kpuzzle());
    ktransformation_from_json_file!(pub, other, "./v0.ktransformation.json", e_kpuzzle());
    kpuzzle_from_json_file!(, hidden, "./v2.kpuzzle.json");
    pub fn hidden() -> &'static cubing::kpuzzle::KPuzzle {
        hidden_kpuzzle()
    }
}
pub mod bad {
    use super::*;
    kpuzzle_from_json_file!(pub, e, "./bad.json");
    // Valid JSON that does not fit its puzzle.
    kpattern_from_json_file!(pub, other, "./v0.kpattern.json", crate::embedded::inner::hidden());
}
