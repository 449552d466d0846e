#[path = "../props/c03.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
