fn main() { hth::run::main_for::<u16, u16, hth::inst::Fnv>("fnv16") }
