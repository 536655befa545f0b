use std::{cell::RefCell, future::Future, rc::Rc, time::Duration};

use postcard_rpc::{
    header::{VarHeader, VarKey, VarSeq, VarSeqKind},
    host_client::{HostClient, HostErr, RpcFrame},
    Key,
};
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub enum WErr {
    Bad(u32),
}
pub type Client = HostClient<WErr>;
pub const ERR_PATH: &str = "wire/err";

pub fn topic_key() -> Key {
    Key::for_path::<Vec<u8>>("wire/topic")
}
pub fn out_key() -> Key {
    Key::for_path::<Vec<u8>>("wire/out")
}
pub fn req_key() -> Key {
    Key::for_path::<u32>("wire/ep")
}
pub fn resp_key() -> Key {
    Key::for_path::<u64>("wire/ep")
}
pub fn err_key() -> Key {
    Key::for_path::<WErr>(ERR_PATH)
}
pub fn skind(w: usize) -> VarSeqKind {
    match w {
        1 => VarSeqKind::Seq1,
        2 => VarSeqKind::Seq2,
        _ => VarSeqKind::Seq4,
    }
}
pub fn with_rt<T>(rng: u64, f: impl Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&rng.to_le_bytes()))
        .build()
        .unwrap_or_else(|e| vcommon::harness_error(format!("runtime: {e}")));
    let local = tokio::task::LocalSet::new();
    let r = local.block_on(&rt, f);
    drop(local);
    rt.shutdown_background();
    r
}
/// With the clock paused, a sleep ends only once every task is idle.
pub async fn settle() {
    tokio::time::sleep(Duration::from_millis(1)).await;
}
pub fn varseq(w: usize, s: u32) -> VarSeq {
    match w {
        1 => VarSeq::Seq1(s as u8),
        2 => VarSeq::Seq2(s as u16),
        _ => VarSeq::Seq4(s),
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Res {
    /// body of the response
    Ok(Vec<u8>),
    Wire,
    Bad,
    Closed,
}
pub type Slot = Rc<RefCell<Option<Res>>>;

/// Start a raw request with the given number
pub fn request(cl: &Client, w: usize, seq: u32) -> Slot {
    let slot: Slot = Default::default();
    let (s2, cl) = (slot.clone(), cl.clone());
    tokio::task::spawn_local(async move {
        let f = RpcFrame { header: VarHeader { key: VarKey::Key8(req_key()), seq_no: varseq(w, seq) }, body: vec![9] };
        let r = cl.send_resp_raw(f, resp_key()).await;
        *s2.borrow_mut() = Some(match r {
            Ok(f) => Res::Ok(f.body),
            Err(HostErr::Wire(_)) => Res::Wire,
            Err(HostErr::Closed) => Res::Closed,
            Err(_) => Res::Bad,
        });
    });
    slot
}

pub fn out_frame(w: usize, seq: u32, body: Vec<u8>) -> RpcFrame {
    RpcFrame { header: VarHeader { key: VarKey::Key8(out_key()), seq_no: varseq(w, seq) }, body }
}

/// Body bytes from a compact recipe: lengths matter, and runs without zeros
pub fn body(n: usize, kind: u8) -> Vec<u8> {
    (0..n)
        .map(|i| match kind % 4 {
            0 => (i % 255 + 1) as u8,
            1 => 0,
            2 => (i % 256) as u8,
            _ => if (i / 3) % 7 == 0 { 0 } else { (i * 31 % 255 + 1) as u8 },
        })
        .collect()
}

pub fn key_bytes(k: &VarKey) -> Vec<u8> {
    match k {
        VarKey::Key1(k) => VarHeader { key: VarKey::Key1(*k), seq_no: VarSeq::Seq1(0) }.write_to_vec()[1..2].to_vec(),
        VarKey::Key2(k) => VarHeader { key: VarKey::Key2(*k), seq_no: VarSeq::Seq1(0) }.write_to_vec()[1..3].to_vec(),
        VarKey::Key4(k) => VarHeader { key: VarKey::Key4(*k), seq_no: VarSeq::Seq1(0) }.write_to_vec()[1..5].to_vec(),
        VarKey::Key8(k) => k.to_bytes().to_vec(),
    }
}
pub fn seq_num(s: &VarSeq) -> (usize, u32) {
    match s {
        VarSeq::Seq1(v) => (1, *v as u32),
        VarSeq::Seq2(v) => (2, *v as u32),
        VarSeq::Seq4(v) => (4, *v),
    }
}
/// key, (width, number), body: comparable form of a received frame
pub type Dec = (Vec<u8>, (usize, u32), Vec<u8>);
pub fn undo(f: &RpcFrame) -> Dec {
    (key_bytes(&f.header.key), seq_num(&f.header.seq_no), f.body.clone())
}
