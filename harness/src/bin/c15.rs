#[path = "../props/c15.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
