#[path = "../props/c18.rs"]
mod p;

fn main() {
    engine::main(&p::PROP)
}
