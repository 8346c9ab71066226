#[allow(dead_code)]
mod lsmc;
fn main() {
    lsmc::main()
}
