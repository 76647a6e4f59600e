fn main() {
    bb::main_with(bb::CHECKS)
}
