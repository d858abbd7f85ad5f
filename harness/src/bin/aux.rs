fn main() { hth::aux::main() }
