mod admin;
mod coll;
mod demo;
mod emit;
mod esc;
mod farm;
mod mig;
mod rt;
mod laws;
fn main() {
    pbt::main(laws::PROPS)
}
