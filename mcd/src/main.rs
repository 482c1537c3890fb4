fn main() {
    if !mc::checks::c_global::child() && !mcd::both::child() {
        mc::engine::main(&mcd::checks::all())
    }
}
