#[global_allocator]
static A: rt::guard::Counting = rt::guard::Counting;
fn main() {
    let mut all: Vec<Box<dyn rt::Ops>> = vec![];
    //PARTS
    rt::run::main(all)
}
