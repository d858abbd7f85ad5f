fn main() { hth::run::main_for::<u32, u16, hth::inst::TH>("u32u16") }
