mod connect;
mod serial;
mod usb;
mod util;

fn main() {
    vcommon::main_with(&[("C16", serial::c16), ("C21", usb::c21), ("C23", connect::c23)])
}
