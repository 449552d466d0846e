#[path = "../props/c09.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
