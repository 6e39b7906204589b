fn main() {
    vharness::cli::main()
}
