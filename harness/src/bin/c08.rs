#[path = "../props/c08.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
