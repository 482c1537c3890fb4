fn main() {
    if !mc::checks::c_global::child() {
        mc::engine::main(&mc::checks::all())
    }
}
