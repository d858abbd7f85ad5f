fn main() { hth::run::main_for::<u16, u8, hth::inst::TH>("u16u8") }
