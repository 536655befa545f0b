mod gen;
mod run;

fn main() {
    vcommon::main_with(&[("C14", run::c14)])
}
