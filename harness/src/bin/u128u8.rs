fn main() { hth::run::main_for::<u128, u8, hth::inst::TH>("u128u8") }
