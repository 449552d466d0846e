#[path = "../props/c14.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
