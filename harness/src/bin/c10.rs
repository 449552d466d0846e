#[path = "../props/c10.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
