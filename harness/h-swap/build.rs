//! the contract's crate keeps its module private: it is compiled as a module of this one instead
fn main() {
    let src = "/repo/contracts/btc_swap/lib.rs";
    println!("cargo:rerun-if-changed={src}");
    let text = std::fs::read_to_string(src).expect("contract source");
    let body: String = text
        .lines()
        .map(|l| if l.trim_start().starts_with("#![") || l.trim_start().starts_with("//!") { "" } else { l })
        .map(|l| l.to_owned() + "\n")
        .collect();
    let body = body.replace("crate::CustomEnvironment", "crate::contract::CustomEnvironment");
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("btc_swap.rs");
    std::fs::write(out, body).unwrap();
}
