#[path = "../props/c26.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
