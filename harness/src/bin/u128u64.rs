fn main() { hth::run::main_for::<u128, u64, hth::inst::TH>("u128u64") }
