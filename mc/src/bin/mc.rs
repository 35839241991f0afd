fn main() {
    mc::cli::main()
}
