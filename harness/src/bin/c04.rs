#[path = "../props/c04.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
