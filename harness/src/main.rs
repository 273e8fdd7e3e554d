fn main() {
    harness::main_with(harness::all())
}
