//! The cases of `harness-units` that are left to the thorough tier: every prefixed unit.
#![allow(uncommon_codepoints)]
#[path = "../../harness-units/src/main.rs"]
mod units;
fn main() {
    units::main()
}
