fn main() { hth::run::main_for::<usize, usize, hth::inst::TH>("szsz") }
