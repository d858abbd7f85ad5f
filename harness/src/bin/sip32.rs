fn main() { hth::run::main_for::<u32, u16, std::collections::hash_map::DefaultHasher>("sip32") }
