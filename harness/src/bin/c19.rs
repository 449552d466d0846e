#[path = "../props/c19.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
