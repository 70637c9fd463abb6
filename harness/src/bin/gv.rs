fn main() {
    gv::runner::main();
}
