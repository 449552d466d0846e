#[path = "../props/c25.rs"]
mod p;

#[global_allocator]
static A: engine::alloc::Counting = engine::alloc::Counting;

fn main() {
    engine::main(&p::PROP)
}
