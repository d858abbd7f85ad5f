fn main() { hth::run::main_for::<u64, u32, hth::inst::TH>("u64u32") }
