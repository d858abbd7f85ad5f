fn main() { hth::run::main_for::<u8, u16, hth::inst::TH>("u8u16") }
