#[path = "../props/c05.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
