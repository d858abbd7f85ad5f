fn main() { hth::run::main_for::<u64, u128, hth::inst::TH>("u64u128") }
