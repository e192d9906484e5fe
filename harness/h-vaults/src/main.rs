mod laws;
mod rewards;
mod mig;
mod model;
mod money;
mod rt;
mod run;
mod world;

fn main() {
    pbt::main(laws::PROPS)
}
