mod webusb;
#[path = "../../wire/src/util.rs"]
#[allow(dead_code)]
mod util;

fn main() {
    vcommon::main_with(&[("C22", webusb::c22)])
}
