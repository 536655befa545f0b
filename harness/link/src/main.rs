mod bus;
mod link;

fn main() {
    vcommon::main_with(&[("C26", link::c26)])
}
