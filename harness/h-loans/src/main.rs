mod admin;
mod farming;
mod interest;
mod laws;
mod rt;
mod run;
mod safety;
mod world;

fn main() {
    pbt::main(laws::PROPS)
}
