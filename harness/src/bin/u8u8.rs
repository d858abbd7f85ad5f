fn main() { hth::run::main_for::<u8, u8, hth::inst::TH>("u8u8") }
