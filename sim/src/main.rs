mod cli;
mod fs;
mod harness;
mod interpose;
mod ort_stub;
mod rt;
mod driver;
mod lib_ac;
mod scn;

#[global_allocator]
static A: interpose::SimAlloc = interpose::SimAlloc;

fn main() {
    driver::main();
}
