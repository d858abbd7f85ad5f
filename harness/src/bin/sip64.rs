fn main() { hth::run::main_for::<u64, u64, std::collections::hash_map::DefaultHasher>("sip64") }
