fn main() { pmon::cli::main(vec![], vec![]) }
