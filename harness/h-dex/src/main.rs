mod laws;
mod boot;
mod curve;
mod fees;
mod admin;
mod router;
mod stable;
mod pairs;
mod rt;

fn main() {
    pbt::main(laws::PROPS)
}
