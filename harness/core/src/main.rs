mod acc;
mod chan;
mod client;
mod close;
mod dispatch;
mod e2e;
mod exec;
mod hdr;
mod mock;
mod schema;
mod sender;
mod subs;
mod types;

fn main() {
    vcommon::main_with(&[
        ("C01", hdr::c01),
        ("C02", hdr::c02),
        ("C03", hdr::c03),
        ("C04", client::c04),
        ("C05", client::c05),
        ("C06", client::c06),
        ("C07", subs::c07),
        ("C08", subs::c08),
        ("C09", close::c09),
        ("C10", dispatch::c10),
        ("C11", dispatch::c11),
        ("C12", schema::c12),
        ("C13", types::c13),
        ("C15", acc::c15),
        ("C20", e2e::c20),
        ("C24", chan::c24),
        ("C25", sender::c25),
    ])
}
