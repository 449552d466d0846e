#[path = "../props/c27.rs"]
mod p;

fn main() {
    engine::schedules_matter();
    engine::main(&p::PROP)
}
