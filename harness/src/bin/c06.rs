#[path = "../props/c06.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
