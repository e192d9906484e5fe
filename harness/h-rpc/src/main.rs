//! C63: the servers of a node, which hand questions to the runtime and its answers back
mod laws;
mod stand_in;
include!(concat!(env!("OUT_DIR"), "/rpc.rs"));

fn main() {
    pbt::main(laws::PROPS)
}
