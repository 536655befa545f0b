//! C20 client and server end to end, over the crate's own channel transports.

use std::{
    collections::HashMap,
    sync::{Arc, Mutex},
    time::Duration,
};

use postcard_rpc::{
    define_dispatch, endpoints,
    header::{VarHeader, VarKey, VarSeq},
    host_client::{test_channels as client_ch, HostClient, HostErr, RpcFrame},
    server::{
        impls::test_channels::{
            dispatch_impl::{new_server, new_server_stoppable, spawn_fn, Settings, WireSpawnImpl, WireTxImpl},
            ChannelWireRx, ChannelWireSpawn, ChannelWireTx,
        },
        Dispatch, Sender, SpawnContext,
    },
    standard_icd::{
        GetAllSchemaDataTopic, GetAllSchemasEndpoint, LoggingTopic, PingEndpoint, WireError, ERROR_KEY,
    },
    topics, Endpoint, Key, Topic, TopicDirection,
};
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};
use tokio::sync::mpsc;
use vcommon::{ensure, proptest, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::hdr::{fold, klen, skind, slen};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub struct Rq {
    x: u32,
    name: String,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub struct Rs {
    x: u32,
    kind: u8,
    len: u16,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub struct Ask {
    id: u32,
    msgs: u8,
    logs: u8,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub struct Note {
    who: u16,
    n: u32,
    pad: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]
pub struct Tick {
    id: u32,
    n: u32,
}

pub mod api {
    use super::*;
    endpoints! {
        list = EPS;
        | EndpointTy | RequestTy | ResponseTy | Path         |
        | ---------- | --------- | ---------- | ----         |
        | BlockEp    | Rq        | Rs         | "e2/block"   |
        | AsyncEp    | Rq        | Rs         | "e2/async"   |
        | SpawnEp    | Rq        | Rs         | "e2/spawn"   |
        | AskEp      | Ask       | u32        | "e2/ask"     |
        | UnitEp     | ()        | ()         | "e2/unit2"   |
    }
    topics! {
        list = TIN;
        direction = TopicDirection::ToServer;
        | TopicTy  | MessageTy | Path       |
        | -------  | --------- | ----       |
        | BlockTp  | Note      | "e2/t/blk" |
        | AsyncTp  | Note      | "e2/t/asy" |
        | SpawnTp  | Note      | "e2/t/spw" |
    }
    topics! {
        list = TOUT;
        direction = TopicDirection::ToClient;
        | TopicTy  | MessageTy | Path       |
        | -------  | --------- | ----       |
        | TickTp   | Tick      | "e2/o/tc2" |
        | EchoTp   | Note      | "e2/o/ec3" |
    }
    // not part of the interface
    endpoints! {
        list = NOPE;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path         |
        | ---------- | --------- | ---------- | ----         |
        | NopeEp     | u32       | u32        | "e2/nope/4"  |
    }
}
use api::*;

fn assert_api() {
    let inc = [
        BlockEp::REQ_KEY, AsyncEp::REQ_KEY, SpawnEp::REQ_KEY, AskEp::REQ_KEY, UnitEp::REQ_KEY, BlockTp::TOPIC_KEY,
        AsyncTp::TOPIC_KEY, SpawnTp::TOPIC_KEY, PingEndpoint::REQ_KEY, GetAllSchemasEndpoint::REQ_KEY, NopeEp::REQ_KEY,
    ];
    let out = [
        BlockEp::RESP_KEY, AsyncEp::RESP_KEY, SpawnEp::RESP_KEY, AskEp::RESP_KEY, UnitEp::RESP_KEY, TickTp::TOPIC_KEY,
        EchoTp::TOPIC_KEY, PingEndpoint::RESP_KEY, GetAllSchemasEndpoint::RESP_KEY, NopeEp::RESP_KEY, ERROR_KEY,
        GetAllSchemaDataTopic::TOPIC_KEY, LoggingTopic::TOPIC_KEY,
    ];
    for l in [1usize, 2, 4, 8] {
        for (what, ks) in [("incoming", &inc[..]), ("outgoing", &out[..])] {
            let mut v: Vec<_> = ks.iter().map(|k: &Key| fold(&k.to_bytes(), l)).collect();
            v.sort();
            v.dedup();
            if v.len() != ks.len() {
                vcommon::harness_error(format!("end-to-end interface: {what} keys collide at {l} byte(s): {:?}", ks.iter().map(|k| fold(&k.to_bytes(), l)).collect::<Vec<_>>()));
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Entry {
    Call(u8, u32),
    Note(u8, Note, u8),
}
type Log = Arc<Mutex<Vec<Entry>>>;

pub struct Ctx {
    log: Log,
    spawned: u32,
}
pub struct SCtx {
    log: Log,
}
impl SpawnContext for Ctx {
    type SpawnCtxt = SCtx;
    fn spawn_ctxt(&mut self) -> SCtx {
        self.spawned += 1;
        SCtx { log: self.log.clone() }
    }
}

async fn dawdle(x: u32) {
    for _ in 0..x % 4 {
        tokio::task::yield_now().await;
    }
    if x % 5 == 0 {
        tokio::time::sleep(Duration::from_micros((x % 7) as u64 * 300)).await;
    }
}

fn e_block(c: &mut Ctx, _h: VarHeader, r: Rq) -> Rs {
    c.log.lock().unwrap().push(Entry::Call(0, r.x));
    answer(0, &r)
}
async fn e_async(c: &mut Ctx, _h: VarHeader, r: Rq) -> Rs {
    dawdle(r.x).await;
    c.log.lock().unwrap().push(Entry::Call(1, r.x));
    answer(1, &r)
}
async fn e_spawn(c: SCtx, h: VarHeader, r: Rq, tx: Sender<WireTxImpl>) {
    dawdle(r.x).await;
    c.log.lock().unwrap().push(Entry::Call(2, r.x));
    let _ = tx.reply::<SpawnEp>(h.seq_no, &answer(2, &r)).await;
}
async fn e_ask(_c: SCtx, h: VarHeader, r: Ask, tx: Sender<WireTxImpl>) {
    for n in 0..r.msgs.max(r.logs) as u32 {
        if n < r.msgs as u32 {
            let seq = match n % 3 {
                0 => VarSeq::Seq1(n as u8),
                1 => VarSeq::Seq2(n as u16),
                _ => VarSeq::Seq4(n),
            };
            let _ = tx.publish::<TickTp>(seq, &Tick { id: r.id, n }).await;
        }
        if n < r.logs as u32 {
            let _ = tx.log_str(&format!("{}/{}", r.id, n)).await;
        }
        if r.id % 3 == 0 {
            dawdle(n).await;
        }
    }
    let _ = tx.reply::<AskEp>(h.seq_no, &r.id).await;
}
fn e_unit(_c: &mut Ctx, _h: VarHeader, _r: ()) {}
fn t_block(c: &mut Ctx, h: VarHeader, m: Note, _t: &Sender<WireTxImpl>) {
    c.log.lock().unwrap().push(Entry::Note(0, m, seqw(&h)));
}
async fn t_async(c: &mut Ctx, h: VarHeader, m: Note, t: &Sender<WireTxImpl>) {
    dawdle(m.n).await;
    c.log.lock().unwrap().push(Entry::Note(1, m.clone(), seqw(&h)));
    let _ = t.publish::<EchoTp>(h.seq_no, &m).await;
}
async fn t_spawn(c: SCtx, h: VarHeader, m: Note, _t: Sender<WireTxImpl>) {
    dawdle(m.n).await;
    c.log.lock().unwrap().push(Entry::Note(2, m, seqw(&h)));
}
fn seqw(h: &VarHeader) -> u8 {
    match h.seq_no {
        VarSeq::Seq1(_) => 1,
        VarSeq::Seq2(_) => 2,
        VarSeq::Seq4(_) => 4,
    }
}
fn answer(kind: u8, r: &Rq) -> Rs {
    let x = match kind {
        0 => r.x.wrapping_mul(3).wrapping_add(1),
        1 => r.x ^ 0x5555_5555,
        _ => !r.x,
    };
    Rs { x, kind, len: (r.name.len() ^ (r.name.len() >> 16)) as u16 }
}

define_dispatch! {
    app: App;
    spawn_fn: spawn_fn;
    tx_impl: WireTxImpl;
    spawn_impl: WireSpawnImpl;
    context: Ctx;

    endpoints: {
        list: EPS;
        | EndpointTy | kind     | handler |
        | ---------- | ----     | ------- |
        | BlockEp    | blocking | e_block |
        | AsyncEp    | async    | e_async |
        | SpawnEp    | spawn    | e_spawn |
        | AskEp      | spawn    | e_ask   |
        | UnitEp     | blocking | e_unit  |
    };
    topics_in: {
        list: TIN;
        | TopicTy    | kind     | handler |
        | -------    | ----     | ------- |
        | BlockTp    | blocking | t_block |
        | AsyncTp    | async    | t_async |
        | SpawnTp    | spawn    | t_spawn |
    };
    topics_out: {
        list: TOUT;
    };
}

// ------------------------------------------------------------------ cases

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Req(u8, u32, u16),
    Ping(u32),
    Unit,
    Unknown(u32),
    BadBody(u8),
    Pub(u8, u32, u8),
    Ask(u8, u8),
    Schema,
    Yield(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    n: usize,
    slen: usize,
    /// channel capacities client->server and server->client
    caps: (u8, u8),
    stoppable: bool,
    scripts: Vec<Vec<Op>>,
    /// subscribers: topic (0 tick, 1 echo, 2 log), broadcast?
    subs: Vec<(u8, bool)>,
    rng: u64,
    workers: u8,
    reps: u16,
    own: Vec<u8>,
    /// requests made one after the other before everything else
    #[serde(default)]
    warm: u32,
    /// added to the length of every request and published message
    #[serde(default)]
    big: u32,
}

type Client = HostClient<WireError>;

async fn run_op(c: &Client, who: u16, i: u32, op: &Op, big: u32) -> Result<(), String> {
    let name = |n: u16| "n".repeat(n as usize + big as usize);
    match op {
        Op::Req(k, x, n) => {
            let r = Rq { x: *x, name: name(*n) };
            let (k, got) = match k % 3 {
                0 => (0, c.send_resp::<BlockEp>(&r).await),
                1 => (1, c.send_resp::<AsyncEp>(&r).await),
                _ => (2, c.send_resp::<SpawnEp>(&r).await),
            };
            let want = answer(k, &r);
            ensure!(matches!(&got, Ok(g) if *g == want), "request {who}/{i} kind {k}: {got:?} instead of {want:?}");
        }
        Op::Ping(x) => {
            let got = c.send_resp::<PingEndpoint>(x).await;
            ensure!(matches!(&got, Ok(g) if g == x), "ping {who}/{i} of {x}: {got:?}");
        }
        Op::Unit => {
            let got = c.send_resp::<UnitEp>(&()).await;
            ensure!(got.is_ok(), "unit request {who}/{i}: {got:?}");
        }
        Op::Unknown(x) => {
            let got = c.send_resp::<NopeEp>(x).await;
            ensure!(
                matches!(got, Err(HostErr::Wire(WireError::UnknownKey))),
                "request {who}/{i} for an unknown endpoint: {got:?}"
            );
        }
        Op::BadBody(k) => {
            let (rq, rs) = match k % 3 {
                0 => (BlockEp::REQ_KEY, BlockEp::RESP_KEY),
                1 => (AsyncEp::REQ_KEY, AsyncEp::RESP_KEY),
                _ => (SpawnEp::REQ_KEY, SpawnEp::RESP_KEY),
            };
            // a number the automatic ones (0..) do not reach in one case
            let seq = 240u32 + who as u32 % 16;
            let f = RpcFrame { header: VarHeader { key: VarKey::Key8(rq), seq_no: VarSeq::Seq4(seq) }, body: vec![0x80] };
            let got = c.send_resp_raw(f, rs).await;
            ensure!(
                matches!(got, Err(HostErr::Wire(WireError::DeserFailed))),
                "undecodable request {who}/{i}: {:?}",
                got.map(|f| f.to_bytes())
            );
        }
        Op::Pub(t, n, pad) => {
            let m = Note { who, n: (i << 16) | (n & 0xffff), pad: vec![*pad; *pad as usize + big as usize] };
            let s = VarSeq::Seq2(i as u16);
            let r = match t % 3 {
                0 => c.publish::<BlockTp>(s, &m).await,
                1 => c.publish::<AsyncTp>(s, &m).await,
                _ => c.publish::<SpawnTp>(s, &m).await,
            };
            ensure!(r.is_ok(), "publish {who}/{i} failed");
        }
        Op::Ask(m, l) => {
            let id = ((who as u32) << 16) | i;
            let got = c.send_resp::<AskEp>(&Ask { id, msgs: *m, logs: *l }).await;
            ensure!(matches!(&got, Ok(g) if *g == id), "request {who}/{i}: {got:?} instead of {id}");
        }
        Op::Schema => {
            let got = c.get_schema_report().await;
            match got {
                Err(e) => return Err(format!("schema discovery {who}/{i}: {e:?}")),
                Ok(r) => ensure!(
                    r.endpoints.len() == 7 && r.topics_in.len() == 3,
                    "schema discovery: {} endpoints, {} incoming topics",
                    r.endpoints.len(),
                    r.topics_in.len()
                ),
            }
        }
        Op::Yield(n) => dawdle(*n as u32).await,
    }
    Ok(())
}

enum Got {
    Tick(Tick),
    Echo(Note),
    Log(String),
}

async fn scenario<D>(c: Arc<Case>, mk: impl FnOnce(Ctx) -> D, par: bool) -> Result<Vec<&'static str>, String>
where
    D: Dispatch<Tx = WireTxImpl> + 'static,
{
    let (ctx_tx, ctx_rx) = mpsc::channel(c.caps.0.max(1) as usize);
    let (s_tx, s_rx) = mpsc::channel(c.caps.1.max(1) as usize);
    let log: Log = Default::default();
    let app = mk(Ctx { log: log.clone(), spawned: 0 });
    let kk = app.min_key_len();
    let settings = Settings { tx: ChannelWireTx::new(s_tx), rx: ChannelWireRx::new(ctx_rx), buf: 4096 + c.big as usize, kkind: kk };
    let (mut server, stop) = if c.stoppable {
        let (s, st) = new_server_stoppable(app, settings);
        (s, Some(st))
    } else {
        (new_server(app, settings), None)
    };
    let sender = server.sender();
    let (done_tx, done_rx) = tokio::sync::oneshot::channel();
    let run = async move {
        let e = server.run().await;
        let _ = done_tx.send(match e {
            postcard_rpc::server::ServerError::TxFatal(_) => "tx",
            postcard_rpc::server::ServerError::RxFatal(_) => "rx",
        });
    };
    let server_task = tokio::task::spawn_local(run);
    let client: Client = client_ch::new_from_channels(ctx_tx, s_rx, skind(c.slen));

    // subscribers
    let depth = 2000;
    let mut readers = vec![];
    let mut excl = [false; 3];
    for (t, bc) in &c.subs {
        let t = *t % 3;
        let bc = *bc || std::mem::replace(&mut excl[t as usize], true);
        macro_rules! reader {
            ($tp:ty, $v:expr) => {{
                let cl = client.clone();
                if bc {
                    let mut s = cl.subscribe_multi::<$tp>(depth).await.map_err(|_| "subscribe failed")?;
                    tokio::task::spawn(async move {
                        let mut out = vec![];
                        let mut lag = 0u64;
                        loop {
                            match s.recv().await {
                                Ok(m) => out.push($v(m)),
                                Err(postcard_rpc::host_client::MultiSubRxError::Lagged(n)) => lag += n,
                                Err(_) => return (out, lag),
                            }
                        }
                    })
                } else {
                    let mut s = cl.subscribe_exclusive::<$tp>(depth).await.map_err(|_| "subscribe failed")?;
                    tokio::task::spawn(async move {
                        let mut out = vec![];
                        while let Some(m) = s.recv().await {
                            out.push($v(m));
                        }
                        (out, 0)
                    })
                }
            }};
        }
        let h = match t {
            0 => reader!(TickTp, Got::Tick),
            1 => reader!(EchoTp, Got::Echo),
            _ => reader!(LoggingTopic, Got::Log),
        };
        readers.push((t, bc, h));
    }

    // earlier requests
    for i in 0..c.warm {
        match i % 3 {
            0 => run_op(&client, 1000, i, &Op::Ping(i), 0).await?,
            1 => run_op(&client, 1000, i, &Op::Unknown(i), 0).await?,
            _ => run_op(&client, 1000, i, &Op::Unit, 0).await?,
        }
    }

    // scripts
    let start = Arc::new(tokio::sync::Barrier::new(c.scripts.len()));
    let mut tasks = vec![];
    for who in 0..c.scripts.len() {
        let (c, cl, start) = (c.clone(), client.clone(), start.clone());
        tasks.push(tokio::task::spawn(async move {
            start.wait().await;
            let mut i = 0;
            for _ in 0..c.reps.max(1) {
                for op in &c.scripts[who] {
                    run_op(&cl, who as u16, i, op, c.big).await?;
                    i += 1;
                }
            }
            Ok::<(), String>(())
        }));
    }
    // the server's own messages, outside of any handler
    let own = 0xffff_0000u32;
    let (mut own_ticks, mut own_logs) = (0, 0);
    for p in &c.own {
        dawdle(*p as u32).await;
        let r = match p % 3 {
            0 => {
                own_ticks += 1;
                sender.publish::<TickTp>(VarSeq::Seq4(own_ticks), &Tick { id: own, n: own_ticks - 1 }).await
            }
            1 => {
                own_logs += 1;
                sender.log_fmt(format_args!("{}/{}", own, own_logs - 1)).await
            }
            _ => {
                own_logs += 1;
                sender.log_str(&format!("{}/{}", own, own_logs - 1)).await
            }
        };
        ensure!(r.is_ok(), "the server could not publish");
    }
    drop(sender);
    for t in tasks {
        match t.await {
            Ok(r) => r?,
            Err(e) => match e.try_into_panic() {
                Ok(p) => std::panic::resume_unwind(p),
                Err(_) => return Err("script cancelled".into()),
            },
        }
    }
    // everything published before is dispatched once this returns
    run_op(&client, 999, 0, &Op::Ping(1), 0).await?;

    // expectations
    let mut want: HashMap<(u8, u16), Vec<Note>> = HashMap::new();
    let mut ticks: HashMap<u32, u32> = HashMap::new();
    let mut logs: HashMap<u32, u32> = HashMap::new();
    let mut calls: HashMap<(u8, u32), usize> = HashMap::new();
    ticks.insert(own, own_ticks);
    logs.insert(own, own_logs);
    let (mut n_notes, mut n_spawn_calls) = (0, 0);
    for (who, s) in c.scripts.iter().enumerate() {
        let mut i = 0u32;
        for _ in 0..c.reps.max(1) {
            for op in s {
                match op {
                    Op::Pub(t, n, pad) => {
                        n_notes += 1;
                        want.entry((t % 3, who as u16)).or_default().push(Note {
                            who: who as u16,
                            n: (i << 16) | (n & 0xffff),
                            pad: vec![*pad; *pad as usize + c.big as usize],
                        });
                    }
                    Op::Ask(m, l) => {
                        let id = ((who as u32) << 16) | i;
                        ticks.insert(id, *m as u32);
                        logs.insert(id, *l as u32);
                    }
                    Op::Req(k, x, _) => {
                        *calls.entry((k % 3, *x)).or_default() += 1;
                        n_spawn_calls += 1;
                    }
                    _ => {}
                }
                i += 1;
            }
        }
    }
    // spawned topic handlers finish on their own time
    for _ in 0..20_000 {
        if log.lock().unwrap().len() >= n_notes + n_spawn_calls {
            break;
        }
        tokio::time::sleep(Duration::from_micros(if par { 200 } else { 1000 })).await;
    }
    let entries = log.lock().unwrap().clone();
    let mut got: HashMap<(u8, u16), Vec<Note>> = HashMap::new();
    let mut got_calls: HashMap<(u8, u32), usize> = HashMap::new();
    for e in entries {
        match e {
            Entry::Call(k, x) => *got_calls.entry((k, x)).or_default() += 1,
            Entry::Note(t, n, w) => {
                ensure!(w == 2, "a message published with a 2-byte sequence number was handled with {w} bytes");
                got.entry((t, n.who)).or_default().push(n)
            }
        }
    }
    ensure!(got_calls == calls, "handler invocations {got_calls:?}, requests {calls:?}");
    for (k, w) in want.iter_mut() {
        let g = got.entry(*k).or_default();
        if k.0 == 2 {
            g.sort_by_key(|n| n.n);
            w.sort_by_key(|n| n.n);
        }
        ensure!(
            g == w,
            "topic kind {} of client {}: {} messages handled, {} published{}",
            k.0,
            k.1,
            g.len(),
            w.len(),
            if g.len() == w.len() { ", but not the same in the same order" } else { "" }
        );
    }
    let have: usize = got.values().map(|v| v.len()).sum();
    ensure!(have == n_notes, "{have} messages handled, {n_notes} published");

    // subscribers drain, then end
    client.close();
    let mut all: HashMap<u8, Vec<Vec<String>>> = HashMap::new();
    for (t, bc, h) in readers {
        let (msgs, lag) = h.await.map_err(|e| format!("subscriber died: {e}"))?;
        ensure!(lag == 0, "a subscriber with room for {depth} messages lagged by {lag}");
        let mut per: HashMap<u64, Vec<u64>> = HashMap::new();
        let mut flat = vec![];
        for m in &msgs {
            match m {
                Got::Tick(t) => {
                    per.entry(t.id as u64).or_default().push(t.n as u64);
                    flat.push(format!("{}/{}", t.id, t.n));
                }
                Got::Log(s) => {
                    let (a, b) = s.split_once('/').ok_or_else(|| format!("log message {s:?}"))?;
                    per.entry(a.parse().map_err(|_| "bad log")?).or_default().push(b.parse().map_err(|_| "bad log")?);
                    flat.push(s.clone());
                }
                Got::Echo(n) => {
                    per.entry(n.who as u64).or_default().push(n.n as u64);
                    flat.push(format!("{}/{}/{}", n.who, n.n, n.pad.len()));
                }
            }
        }
        let expect: HashMap<u64, Vec<u64>> = match t {
            0 => ticks.iter().filter(|(_, n)| **n > 0).map(|(k, n)| (*k as u64, (0..*n as u64).collect())).collect(),
            2 => logs.iter().filter(|(_, n)| **n > 0).map(|(k, n)| (*k as u64, (0..*n as u64).collect())).collect(),
            _ => want.iter().filter(|(k, _)| k.0 == 1).map(|(k, v)| (k.1 as u64, v.iter().map(|n| n.n as u64).collect())).collect(),
        };
        for (k, w) in &expect {
            let g = per.get(k).cloned().unwrap_or_default();
            ensure!(&g == w, "{} subscriber of topic {t}: from source {k} received {g:?}, sent were {w:?}", if bc { "broadcast" } else { "exclusive" });
        }
        ensure!(per.len() == expect.len(), "subscriber of topic {t} received messages nobody sent");
        all.entry(t).or_default().push(flat);
    }
    for (t, v) in &all {
        for f in v {
            ensure!(f == &v[0], "two subscribers of topic {t} saw different orders");
        }
    }
    // server ends once the client is gone (or when stopped)
    if let Some(s) = &stop {
        s.stop();
    }
    drop(client);
    let d = tokio::time::timeout(Duration::from_secs(20), done_rx).await;
    match d {
        Ok(Ok(d)) => {
            ensure!(d == "rx", "the server stopped with a {d} error when the client went away");
        }
        Ok(Err(_)) => {
            let e = server_task.await;
            return Err(format!("server task died: {e:?}"));
        }
        Err(_) => return Err("the server keeps running although the client is gone".into()),
    }
    let mut labels = vec![];
    if !ticks.is_empty() {
        labels.push("server topics");
    }
    if n_notes > 0 {
        labels.push("client topics");
    }
    Ok(labels)
}

fn in_rt(c: &Case, par: bool) -> Result<Vec<&'static str>, String> {
    let rt = if par {
        tokio::runtime::Builder::new_multi_thread().worker_threads(c.workers.max(2) as usize).enable_time().build()
    } else {
        tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .rng_seed(tokio::runtime::RngSeed::from_bytes(&c.rng.to_le_bytes()))
            .build()
    }
    .unwrap_or_else(|e| vcommon::harness_error(format!("runtime: {e}")));
    let cc = Arc::new(c.clone());
    let sp = || ChannelWireSpawn;
    let local = tokio::task::LocalSet::new();
    let res = local.block_on(&rt, async {
        let limit = Duration::from_secs(if par { 45 } else { 3600 });
        let fut = async {
            match c.n {
                1 => scenario(cc.clone(), |x| impls::App::<1>::new(x, sp()), par).await,
                2 => scenario(cc.clone(), |x| impls::App::<2>::new(x, sp()), par).await,
                4 => scenario(cc.clone(), |x| impls::App::<4>::new(x, sp()), par).await,
                _ => scenario(cc.clone(), |x| impls::App::<8>::new(x, sp()), par).await,
            }
        };
        match tokio::time::timeout(limit, fut).await {
            Ok(r) => r,
            Err(_) => Err("requests or messages are stuck".into()),
        }
    });
    drop(local);
    rt.shutdown_background();
    res
}

fn run(c: &Case, par: bool) -> CaseResult {
    let labels = in_rt(c, par)?;
    let mut o = Outcome::new(c.scripts.iter().filter(|s| s.len() > 1).count() > 1)
        .label(c.scripts.iter().flatten().any(|o| matches!(o, Op::Unknown(_) | Op::BadBody(_))), "wire errors")
        .label(c.caps.0 < 3 || c.caps.1 < 3, "back pressure")
        .label(!c.subs.is_empty(), "subscribers");
    for l in labels {
        o = o.label(true, l);
    }
    Ok(o)
}

fn op(par: bool) -> BoxedStrategy<Op> {
    let x = prop_oneof![0u32..30, any::<u32>()];
    let base = prop_oneof![
        6 => (0u8..3, x.clone(), prop_oneof![0u16..10, 0u16..900]).prop_map(|(a, b, c)| Op::Req(a, b, c)),
        1 => x.clone().prop_map(Op::Ping),
        1 => Just(Op::Unit),
        1 => x.clone().prop_map(Op::Unknown),
        1 => (0u8..3).prop_map(Op::BadBody),
        4 => (0u8..3, x, any::<u8>()).prop_map(|(a, b, c)| Op::Pub(a, b, c)),
        2 => (0u8..12, 0u8..8).prop_map(|(a, b)| Op::Ask(a, b)),
        1 => (0u8..8).prop_map(Op::Yield),
    ];
    let _ = par;
    base.boxed()
}

pub fn c20(r: &mut Run) {
    assert_api();
    let case = |par: bool| {
        (
            (klen(), slen(), (1u8..12, 1u8..12), any::<bool>()),
            proptest::collection::vec(proptest::collection::vec(op(par), 1..if par { 6 } else { 12 }), if par { 3..7usize } else { 1..6usize }),
            proptest::collection::vec((0u8..3, any::<bool>()), 0..5),
            any::<u64>(),
            2u8..8,
            if par { 1u16..6 } else { 1u16..2 },
            any::<bool>(),
            proptest::collection::vec(any::<u8>(), 0..10),
        )
            .prop_map(move |((n, slen, caps, stoppable), mut scripts, subs, rng, workers, reps, schema, own)| {
                // discovery must not overlap with another one
                if schema && !par {
                    scripts[0].push(Op::Schema);
                }
                Case { n, slen, caps, stoppable, scripts, subs, rng, workers, reps, own, warm: 0, big: 0 }
            })
    };
    r.assume("at most 200 requests per case, so that automatic 1-byte sequence numbers do not wrap onto a request in flight (long: at most 200 in flight)");
    r.check("tasks", "two or more clients with two or more operations each", 250_000, 3_000_000, || case(false), |c| run(c, false));
    let long = |warm: std::ops::Range<u32>| {
        (case(false), warm).prop_map(|(mut c, warm)| {
            // with their own numbers these could meet an automatic one
            for s in &mut c.scripts {
                s.retain(|o| !matches!(o, Op::BadBody(_)));
            }
            c.warm = warm;
            c
        })
    };
    r.check("long", "two or more clients with two or more operations each, after 200..600 requests", 12_000, 200_000, || long(200..600), |c| run(c, false));
    r.check("very-long", "two or more clients with two or more operations each, after about 65536 requests", 48, 800, || long(65_300..65_600), |c| run(c, false));
    r.check("big", "two or more clients with two or more operations each, with messages of about 64 KiB and more", 2_000, 40_000,
        || (case(false), prop_oneof![4 => 64_600u32..65_600, 1 => 4_000u32..300_000]).prop_map(|(mut c, big)| { c.big = big; c }), |c| run(c, false));
    r.check("threads", "two or more clients with two or more operations each", 8_000, 200_000, || case(true), |c| run(c, true));
}
