#[global_allocator]
static ALLOC: gv::memprobe::Guard = gv::memprobe::Guard;

fn main() {
    gv::memprobe::install();
    gv::runner::main();
}
