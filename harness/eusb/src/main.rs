mod sim;
mod tx;
mod rx;
mod logs;
mod plug;

fn main() {
    vcommon::main_with(&[("C17", tx::c17), ("C18", rx::c18), ("C19", logs::c19), ("C27", plug::c27)])
}
