//! Generated interface declarations and their program text.

use std::{collections::HashMap, fmt::Write, sync::OnceLock};

use postcard_rpc::{standard_icd, Key};
use serde::{Deserialize, Serialize};
use vcommon::frames::fold;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
}

pub const PRIMS: &[&str] =
    &["u8", "u32", "bool", "i8", "u16", "i16", "i32", "u64", "i64", "u128", "i128", "f32", "f64", "char"];

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Ty {
    Prim(u8),
    Unit,
    Named(usize),
    Opt(Box<Ty>),
    Arr(Box<Ty>, u8),
    Tup(Vec<Ty>),
    Res(Box<Ty>, Box<Ty>),
    /// only inside types with lifetimes: `&'x str`
    Str(u8),
    /// `&'x [u8]`
    Bytes(u8),
    /// only as an outgoing topic
    BareStr,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Var {
    Unit,
    New(Ty),
    Tuple(Vec<Ty>),
    Struct(Vec<Ty>),
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Def {
    Unit,
    New(Ty),
    Tuple(Vec<Ty>),
    Struct(Vec<Ty>),
    Enum(Vec<Var>),
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct TypeDef {
    pub def: Def,
    pub lts: u8,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Cfg {
    None,
    On,
    Off,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Handler {
    None,
    Blocking,
    Async,
    Spawn,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Ep {
    pub req: Ty,
    pub resp: Ty,
    pub path: String,
    pub cfg: Cfg,
    pub handler: Handler,
    pub sample: u64,
    /// a switched-off row with the same marker name in front of this one
    pub ghost: bool,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Tp {
    pub msg: Ty,
    pub path: String,
    pub cfg: Cfg,
    pub handler: Handler,
    pub sample: u64,
    pub ghost: bool,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Single {
    Ep(Ty, Ty, Option<String>),
    Tp(Ty, Option<String>),
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Neg {
    UnlistedEp,
    UnlistedTp,
    UnlistedResp,
    DupIn,
    DupInTopic,
    DupOut,
    DupOutEp,
    ErrOut,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Module {
    pub types: Vec<TypeDef>,
    pub eps: Vec<Ep>,
    pub tin: Vec<Tp>,
    pub tout: Vec<Tp>,
    pub omit: [Option<bool>; 3],
    pub cfgcol: [bool; 3],
    pub singles: Vec<Single>,
    pub dispatch: bool,
    pub neg: Option<Neg>,
}

// ------------------------------------------------------------------ generation

fn gen_ty(r: &mut Rng, defs: &[TypeDef], depth: u8) -> Ty {
    let plain: Vec<usize> = (0..defs.len()).filter(|i| defs[*i].lts == 0).collect();
    match r.below(12) {
        0..=3 => Ty::Prim(r.below(PRIMS.len()) as u8),
        4..=6 if !plain.is_empty() => Ty::Named(plain[r.below(plain.len())]),
        7 if depth > 0 => Ty::Opt(Box::new(gen_ty(r, defs, depth - 1))),
        8 if depth > 0 => Ty::Arr(Box::new(gen_ty(r, defs, depth - 1)), r.below(4) as u8),
        9 if depth > 0 => Ty::Tup((0..1 + r.below(3)).map(|_| gen_ty(r, defs, depth - 1)).collect()),
        10 if depth > 0 => Ty::Res(Box::new(gen_ty(r, defs, depth - 1)), Box::new(gen_ty(r, defs, depth - 1))),
        11 => Ty::Unit,
        _ => Ty::Prim(r.below(3) as u8),
    }
}
fn gen_tys(r: &mut Rng, defs: &[TypeDef], lts: u8, min: usize) -> Vec<Ty> {
    let n = min + r.below(4);
    (0..n)
        .map(|_| {
            if lts > 0 && r.chance(50) {
                let l = r.below(lts as usize) as u8;
                if r.chance(60) { Ty::Str(l) } else { Ty::Bytes(l) }
            } else {
                gen_ty(r, defs, 1)
            }
        })
        .collect()
}
fn gen_def(r: &mut Rng, defs: &[TypeDef]) -> TypeDef {
    let lts = if r.chance(25) { 1 + r.below(2) as u8 } else { 0 };
    if lts > 0 {
        // every lifetime must be used
        let mut f: Vec<Ty> = (0..lts).map(|l| if r.chance(60) { Ty::Str(l) } else { Ty::Bytes(l) }).collect();
        f.extend(gen_tys(r, defs, lts, 0));
        let def = match r.below(3) {
            0 => Def::Tuple(f),
            1 => Def::Struct(f),
            _ => Def::Enum(vec![Var::Unit, Var::Tuple(f.clone()), Var::Struct(f)]),
        };
        return TypeDef { def, lts };
    }
    let def = match r.below(6) {
        0 => Def::Unit,
        1 => Def::New(gen_ty(r, defs, 1)),
        2 => Def::Tuple(gen_tys(r, defs, 0, 2)),
        3 => Def::Struct(gen_tys(r, defs, 0, 0)),
        _ => Def::Enum(
            (0..1 + r.below(4))
                .map(|_| match r.below(4) {
                    0 => Var::Unit,
                    1 => Var::New(gen_ty(r, defs, 1)),
                    2 => Var::Tuple(gen_tys(r, defs, 0, 2)),
                    _ => Var::Struct(gen_tys(r, defs, 0, 1)),
                })
                .collect(),
        ),
    };
    TypeDef { def, lts }
}

fn row_ty(r: &mut Rng, defs: &[TypeDef]) -> Ty {
    let lt: Vec<usize> = (0..defs.len()).filter(|i| defs[*i].lts > 0).collect();
    if !lt.is_empty() && r.chance(30) {
        return Ty::Named(lt[r.below(lt.len())]);
    }
    if !defs.is_empty() && r.chance(40) {
        return Ty::Named(r.below(defs.len()));
    }
    gen_ty(r, defs, 2)
}
fn gen_path(r: &mut Rng, n: &mut u32) -> String {
    *n += 1;
    let words = ["set", "get", "led", "temp/é", "a\\b", "quo\"te", "sp ace", "üñí", "{}", "x/y/z", "", "|", "postcard-rpc/ping", "error"];
    let w = words[r.below(words.len())];
    match r.below(4) {
        0 => format!("{w}{n}"),
        1 => format!("m{n}/{w}"),
        2 => format!("{n}"),
        _ => format!("{w}/{n}/{}", "long".repeat(if r.chance(10) { 30 + r.below(90) } else { r.below(8) })),
    }
}
fn cfg(r: &mut Rng, col: bool) -> Cfg {
    if !col {
        return Cfg::None;
    }
    match r.below(5) {
        0 => Cfg::Off,
        1 => Cfg::None,
        _ => Cfg::On,
    }
}

pub fn is_lt(defs: &[TypeDef], t: &Ty) -> bool {
    matches!(t, Ty::Named(i) if defs[*i].lts > 0)
}

pub fn gen_module(r: &mut Rng) -> Module {
    let mut types = vec![];
    for _ in 0..r.below(7) {
        let d = gen_def(r, &types);
        types.push(d);
    }
    let mut n = 0;
    let cfgcol = [r.chance(35), r.chance(35), r.chance(35)];
    let mut omit = [None; 3];
    for o in omit.iter_mut() {
        *o = match r.below(6) {
            0 => Some(true),
            1 => Some(false),
            _ => None,
        };
    }
    let many = r.chance(25);
    // now and then an interface with long lists
    let huge = r.chance(3);
    let cnt = |r: &mut Rng| if huge { r.below(70) } else if many { 4 + r.below(9) } else { r.below(5) };
    let handler = |r: &mut Rng| match r.below(7) {
        0 => Handler::None,
        1 | 2 => Handler::Blocking,
        3 | 4 => Handler::Async,
        _ => Handler::Spawn,
    };
    let ne = cnt(r);
    let eps = (0..ne)
        .map(|_| {
            let mut e = Ep {
                req: row_ty(r, &types),
                resp: row_ty(r, &types),
                path: gen_path(r, &mut n),
                cfg: cfg(r, cfgcol[0]),
                handler: handler(r),
                sample: r.next(),
                ghost: false,
            };
            e.ghost = cfgcol[0] && e.cfg == Cfg::On && r.chance(30);
            if is_lt(&types, &e.req) && e.handler == Handler::Spawn {
                e.handler = Handler::Async;
            }
            e
        })
        .collect();
    let mut tps = |r: &mut Rng, col: bool, out: bool| -> Vec<Tp> {
        let k = cnt(r);
        (0..k)
            .map(|_| {
                let mut t = Tp {
                    msg: if out && r.chance(8) { Ty::BareStr } else { row_ty(r, &types) },
                    path: gen_path(r, &mut n),
                    cfg: cfg(r, col),
                    handler: if out { Handler::None } else { handler(r) },
                    sample: r.next(),
                    ghost: false,
                };
                t.ghost = col && t.cfg == Cfg::On && r.chance(30);
                if is_lt(&types, &t.msg) && t.handler == Handler::Spawn {
                    t.handler = Handler::Blocking;
                }
                t
            })
            .collect()
    };
    let tin = tps(r, cfgcol[1], false);
    let tout = tps(r, cfgcol[2], true);
    let singles = (0..r.below(3))
        .map(|_| {
            let p = if r.chance(50) { Some(gen_path(r, &mut n)) } else { None };
            if r.chance(50) {
                Single::Ep(gen_ty(r, &types, 2), gen_ty(r, &types, 2), p)
            } else {
                Single::Tp(gen_ty(r, &types, 2), p)
            }
        })
        .collect();
    let mut m = Module { types, eps, tin, tout, omit, cfgcol, singles, dispatch: r.chance(85), neg: None };
    if r.chance(60) {
        collide(r, &mut m);
    }
    // an incoming topic may share path and type with an outgoing one: directions are separate
    if r.chance(30) {
        if let (Some(i), Some(o)) = (m.tin.first().cloned(), m.tout.first_mut()) {
            o.msg = i.msg;
            o.path = i.path;
        }
    }
    m
}

// ------------------------------------------------------------------ crafted key collisions

fn k(p: usize, path: &str) -> [u8; 8] {
    match p {
        0 => Key::for_path::<u8>(path).to_bytes(),
        _ => Key::for_path::<u32>(path).to_bytes(),
    }
}
/// (prim, level) -> a pair of paths whose keys agree at `level` bytes and differ at the next
fn pair(r: &mut Rng, p: usize, level: usize) -> (String, String) {
    static FOUR: OnceLock<Vec<Vec<(String, String)>>> = OnceLock::new();
    if level == 4 {
        let all = FOUR.get_or_init(|| {
            (0..2)
                .map(|p| {
                    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
                    let mut out = vec![];
                    let mut i = 0u64;
                    while out.len() < 6 {
                        let path = format!("c{i}");
                        i += 1;
                        if let Some(o) = seen.insert(fold(&k(p, &path), 4), path.clone()) {
                            out.push((o, path));
                        }
                    }
                    out
                })
                .collect()
        });
        return all[p][r.below(all[p].len())].clone();
    }
    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
    loop {
        let path = format!("k{:x}", r.next() & 0xffffff);
        let key = k(p, &path);
        let f = fold(&key, level);
        if let Some(o) = seen.get(&f) {
            if fold(&k(p, o), level * 2) != fold(&key, level * 2) {
                return (o.clone(), path);
            }
        }
        seen.insert(f, path);
    }
}
/// a path whose key agrees with `target` at `level` bytes
fn match_path(r: &mut Rng, p: usize, target: &[u8; 8], level: usize) -> String {
    loop {
        let path = format!("t{:x}", r.next() & 0xffffff_ffff);
        let key = k(p, &path);
        if fold(&key, level) == fold(target, level) && fold(&key, level * 2) != fold(target, level * 2) {
            return path;
        }
    }
}
enum Slot<'a> {
    Req(&'a mut Ep),
    Resp(&'a mut Ep),
    T(&'a mut Tp),
}
impl Slot<'_> {
    fn set(self, p: usize, path: String) {
        match self {
            Slot::Req(e) => {
                e.req = Ty::Prim(p as u8);
                e.path = path;
                fix(e)
            }
            Slot::Resp(e) => {
                e.resp = Ty::Prim(p as u8);
                e.path = path;
                fix(e)
            }
            Slot::T(t) => {
                t.msg = Ty::Prim(p as u8);
                t.path = path;
                if t.cfg == Cfg::Off {
                    t.cfg = Cfg::On;
                }
            }
        }
        fn fix(e: &mut Ep) {
            if e.cfg == Cfg::Off {
                e.cfg = Cfg::On;
            }
        }
    }
}
fn collide(r: &mut Rng, m: &mut Module) {
    let out = r.chance(50);
    let p = r.below(2);
    let mut slots: Vec<Slot> = vec![];
    for e in m.eps.iter_mut() {
        slots.push(if out { Slot::Resp(e) } else { Slot::Req(e) });
    }
    for t in if out { m.tout.iter_mut() } else { m.tin.iter_mut() } {
        slots.push(Slot::T(t));
    }
    if slots.is_empty() {
        return;
    }
    let mut take = |r: &mut Rng| {
        let i = r.below(slots.len());
        slots.swap_remove(i)
    };
    let a = take(r);
    if r.chance(45) || slots.is_empty() {
        // against a standard entry or the error key
        let level = 1 + r.below(2);
        let targets: Vec<[u8; 8]> = if out {
            vec![
                standard_icd::ERROR_KEY.to_bytes(),
                standard_icd::ERROR_KEY.to_bytes(),
                Key::for_path::<str>("postcard-rpc/logging").to_bytes(),
                Key::for_path::<u32>("postcard-rpc/ping").to_bytes(),
            ]
        } else {
            vec![
                Key::for_path::<u32>("postcard-rpc/ping").to_bytes(),
                Key::for_path::<()>("postcard-rpc/schemas/get").to_bytes(),
            ]
        };
        let t = targets[r.below(targets.len())];
        a.set(p, match_path(r, p, &t, level));
    } else {
        let mut take = |r: &mut Rng| {
            let i = r.below(slots.len());
            slots.swap_remove(i)
        };
        let b = take(r);
        let level = [1, 2, 4][r.below(3)];
        let (x, y) = pair(r, p, level);
        a.set(p, x);
        b.set(p, y);
    }
}

/// A declaration that has to be rejected
pub fn negate(i: usize, m: &Module) -> Option<Module> {
    let mut m = m.clone();
    if !m.dispatch {
        return None;
    }
    m.neg = Some(match i % 8 {
        7 => Neg::UnlistedResp,
        0 => Neg::UnlistedEp,
        1 => Neg::UnlistedTp,
        2 => Neg::DupIn,
        3 => Neg::DupInTopic,
        4 => Neg::DupOut,
        5 => Neg::DupOutEp,
        _ => Neg::ErrOut,
    });
    Some(m)
}

// ------------------------------------------------------------------ program text

const LTN: &[&str] = &["'a", "'b", "'c", "'d"];

fn ty_text(t: &Ty) -> String {
    match t {
        Ty::Prim(p) => PRIMS[*p as usize].to_string(),
        Ty::Unit => "()".into(),
        Ty::Named(i) => format!("T{i}"),
        Ty::Opt(t) => format!("Option<{}>", ty_text(t)),
        Ty::Arr(t, n) => format!("[{}; {n}]", ty_text(t)),
        Ty::Tup(v) => format!("({},)", v.iter().map(ty_text).collect::<Vec<_>>().join(", ")),
        Ty::Res(a, b) => format!("Result<{}, {}>", ty_text(a), ty_text(b)),
        Ty::Str(l) => format!("&{} str", LTN[*l as usize]),
        Ty::Bytes(l) => format!("&{} [u8]", LTN[*l as usize]),
        Ty::BareStr => "str".into(),
    }
}
/// type with `'static` lifetimes
fn ty_static(defs: &[TypeDef], t: &Ty) -> String {
    match t {
        Ty::Named(i) if defs[*i].lts > 0 => {
            format!("T{i}<{}>", vec!["'static"; defs[*i].lts as usize].join(", "))
        }
        t => ty_text(t),
    }
}
fn ty_elided(defs: &[TypeDef], t: &Ty) -> String {
    match t {
        Ty::Named(i) if defs[*i].lts > 0 => format!("T{i}<{}>", vec!["'_"; defs[*i].lts as usize].join(", ")),
        t => ty_text(t),
    }
}
fn lit(s: &str) -> String {
    format!("{s:?}")
}

struct Vals<'a>(Rng, &'a [TypeDef]);
impl Vals<'_> {
    fn many(&mut self, v: &[Ty]) -> Vec<String> {
        v.iter().map(|t| self.val(t)).collect()
    }
    fn val(&mut self, t: &Ty) -> String {
        let x = if self.0.chance(30) { 0 } else { self.0.next() };
        match t {
            Ty::Prim(p) => match PRIMS[*p as usize] {
                "bool" => format!("{}", x & 1 == 1),
                "u8" => format!("{}u8", x as u8),
                "u16" => format!("{}u16", x as u16),
                "u32" => format!("{}u32", x as u32),
                "u64" => format!("{}u64", x),
                "u128" => format!("{}u128", (x as u128) << 60),
                "i8" => format!("({}i8)", (x as i8).max(-127)),
                "i16" => format!("({}i16)", (x as i16).max(-32767)),
                "i32" => format!("({}i32)", (x as i32).max(-2147483647)),
                "i64" => format!("({}i64)", (x as i64).max(-9223372036854775807)),
                "i128" => format!("({}i128)", (x as i64 as i128) << 50),
                "f32" => format!("{}.25f32", x as u8),
                "f64" => format!("{}.5f64", x as u16),
                "char" => format!("{:?}", ['a', 'é', '本', '🦀'][x as usize & 3]),
                o => panic!("{o}"),
            },
            Ty::Unit => "()".into(),
            Ty::Named(i) => {
                let d = self.1[*i].clone();
                let fields = |s: &mut Self, v: &[Ty]| {
                    let x = s.many(v);
                    let f: Vec<_> = x.iter().enumerate().map(|(i, x)| format!("f{i}: {x}")).collect();
                    format!("{{ {} }}", f.join(", "))
                };
                match &d.def {
                    Def::Unit => format!("T{i}"),
                    Def::New(t) => format!("T{i}({})", self.val(t)),
                    Def::Tuple(v) => format!("T{i}({})", self.many(v).join(", ")),
                    Def::Struct(v) => format!("T{i} {}", fields(self, v)),
                    Def::Enum(vs) => {
                        let n = self.0.below(vs.len());
                        match &vs[n] {
                            Var::Unit => format!("T{i}::V{n}"),
                            Var::New(t) => format!("T{i}::V{n}({})", self.val(t)),
                            Var::Tuple(v) => format!("T{i}::V{n}({})", self.many(v).join(", ")),
                            Var::Struct(v) => format!("T{i}::V{n} {}", fields(self, v)),
                        }
                    }
                }
            }
            Ty::Opt(t) => {
                if x & 1 == 0 {
                    "None".into()
                } else {
                    format!("Some({})", self.val(t))
                }
            }
            Ty::Arr(t, n) => {
                let v: Vec<_> = (0..*n).map(|_| self.val(t)).collect();
                format!("[{}]", v.join(", "))
            }
            Ty::Tup(v) => format!("({},)", self.many(v).join(", ")),
            Ty::Res(a, b) => {
                if x & 1 == 0 {
                    format!("Ok({})", self.val(a))
                } else {
                    format!("Err({})", self.val(b))
                }
            }
            Ty::Str(_) | Ty::BareStr => lit(["", "hello", "é本🦀", "a\nb"][x as usize & 3]),
            Ty::Bytes(_) => ["b\"\"", "b\"xyz\"", "b\"\\x00\\xff\""][x as usize % 3].into(),
        }
    }
}

fn used(m: &Module) -> Vec<bool> {
    let mut u = vec![false; m.types.len()];
    fn mark(t: &Ty, m: &Module, u: &mut Vec<bool>) {
        match t {
            Ty::Named(i) => {
                if !u[*i] {
                    u[*i] = true;
                    match &m.types[*i].def {
                        Def::Unit => {}
                        Def::New(t) => mark(t, m, u),
                        Def::Tuple(v) | Def::Struct(v) => v.iter().for_each(|t| mark(t, m, u)),
                        Def::Enum(vs) => vs.iter().for_each(|v| match v {
                            Var::Unit => {}
                            Var::New(t) => mark(t, m, u),
                            Var::Tuple(v) | Var::Struct(v) => v.iter().for_each(|t| mark(t, m, u)),
                        }),
                    }
                }
            }
            Ty::Opt(t) | Ty::Arr(t, _) => mark(t, m, u),
            Ty::Tup(v) => v.iter().for_each(|t| mark(t, m, u)),
            Ty::Res(a, b) => {
                mark(a, m, u);
                mark(b, m, u)
            }
            _ => {}
        }
    }
    for e in &m.eps {
        mark(&e.req, m, &mut u);
        mark(&e.resp, m, &mut u);
    }
    for t in m.tin.iter().chain(&m.tout) {
        mark(&t.msg, m, &mut u);
    }
    for s in &m.singles {
        match s {
            Single::Ep(a, b, _) => {
                mark(a, m, &mut u);
                mark(b, m, &mut u)
            }
            Single::Tp(a, _) => mark(a, m, &mut u),
        }
    }
    u
}

pub fn text(m: &Module, name: &str) -> String {
    let mut o = String::new();
    let w = &mut o;
    let d = &m.types;
    macro_rules! p { ($($a:tt)*) => { writeln!(w, $($a)*).unwrap() }; }
    p!("pub mod {name} {{");
    p!("#![allow(dead_code, unused, non_camel_case_types)]");
    p!("use icdsup::*;");
    p!("use postcard_rpc::{{endpoint, endpoints, topic, topics, define_dispatch, TopicDirection, Endpoint, Topic}};");
    p!("use postcard_rpc::header::VarHeader; use postcard_rpc::server::Sender; use postcard_rpc::standard_icd::WireError;");
    p!("use postcard_schema::Schema; use serde::{{Serialize, Deserialize}};");
    let u = used(m);
    for (i, t) in d.iter().enumerate() {
        if !u[i] {
            continue;
        }
        let lt = if t.lts > 0 { format!("<{}>", LTN[..t.lts as usize].join(", ")) } else { String::new() };
        let b = |t: &Ty| -> String {
            match t {
                Ty::Str(_) | Ty::Bytes(_) => format!("#[serde(borrow)] {}", ""),
                _ => String::new(),
            }
        };
        let tup = |v: &[Ty], vis: &str| v.iter().map(|t| format!("{}{vis}{}", b(t), ty_text(t))).collect::<Vec<_>>().join(", ");
        let fld = |v: &[Ty], vis: &str| {
            v.iter().enumerate().map(|(i, t)| format!("{}{vis}f{i}: {}", b(t), ty_text(t))).collect::<Vec<_>>().join(", ")
        };
        p!("#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Schema)]");
        match &t.def {
            Def::Unit => p!("pub struct T{i};"),
            Def::New(t) => p!("pub struct T{i}(pub {});", ty_text(t)),
            Def::Tuple(v) => p!("pub struct T{i}{lt}({});", tup(v, "pub ")),
            Def::Struct(v) => p!("pub struct T{i}{lt} {{ {} }}", fld(v, "pub ")),
            Def::Enum(vs) => {
                p!("pub enum T{i}{lt} {{");
                for (n, v) in vs.iter().enumerate() {
                    match v {
                        Var::Unit => p!("V{n},"),
                        Var::New(t) => p!("V{n}({}),", ty_text(t)),
                        Var::Tuple(v) => p!("V{n}({}),", tup(v, "")),
                        Var::Struct(v) => p!("V{n} {{ {} }},", fld(v, "")),
                    }
                }
                p!("}}");
            }
        }
    }
    // cell text of a type; generic types go through an alias (a cell is one token tree)
    let mut aliases = vec![];
    let mut cell = |t: &Ty, first_lt: usize| -> String {
        match t {
            Ty::Opt(_) | Ty::Res(..) => {
                let n = aliases.len();
                aliases.push(ty_text(t));
                format!("A{n}")
            }
            Ty::Named(i) if d[*i].lts > 0 => {
                format!("T{i}<{}>", LTN[first_lt..first_lt + d[*i].lts as usize].join(", "))
            }
            t => ty_text(t),
        }
    };
    let lts_of = |t: &Ty| if let Ty::Named(i) = t { d[*i].lts as usize } else { 0 };
    let cfg_cell = |col: bool, c: Cfg| match (col, c) {
        (false, _) => "",
        (true, Cfg::On) => "cfg(all()) |",
        (true, Cfg::Off) => "cfg(any()) |",
        (true, Cfg::None) => "|",
    };
    let omit = |o: Option<bool>| match o {
        None => String::new(),
        Some(b) => format!("omit_std = {b};"),
    };
    let mut rows = String::new();
    for (i, e) in m.eps.iter().enumerate() {
        if e.ghost {
            writeln!(rows, "| E{i} | u64 | bool | \"ghost{i}\" | cfg(any()) |").unwrap();
        }
        let (rq, rs) = (cell(&e.req, 0), cell(&e.resp, lts_of(&e.req)));
        writeln!(rows, "| E{i} | {rq} | {rs} | {} | {}", lit(&e.path), cfg_cell(m.cfgcol[0], e.cfg)).unwrap();
    }
    match m.neg {
        Some(Neg::DupIn) => {
            // two endpoints that only differ in their response
            let c = if m.cfgcol[0] { "cfg(all()) |" } else { "" };
            writeln!(rows, "| N1 | u32 | u8 | \"dup\" | {c}\n| N2 | u32 | u16 | \"dup\" | {c}").unwrap();
        }
        Some(Neg::UnlistedResp) => {
            let c = if m.cfgcol[0] { "cfg(all()) |" } else { "" };
            writeln!(rows, "| N2 | u32 | u16 | \"unlisted\" | {c}").unwrap();
        }
        Some(Neg::DupInTopic) | Some(Neg::DupOutEp) => {
            let c = if m.cfgcol[0] { "cfg(all()) |" } else { "" };
            writeln!(rows, "| N1 | u32 | u32 | \"dup\" | {c}").unwrap();
        }
        _ => {}
    }
    let head = |c: bool| if c { (" Cfg |", " --- |") } else { ("", "") };
    let mut body = String::new();
    let (h1, h2) = head(m.cfgcol[0]);
    writeln!(
        body,
        "endpoints! {{ list = EPS; {}\n| EndpointTy | RequestTy | ResponseTy | Path |{h1}\n| --- | --- | --- | --- |{h2}\n{rows}}}",
        omit(m.omit[0])
    )
    .unwrap();
    for (n, dir, v, list, idx) in
        [("I", "ToServer", &m.tin, "TIN", 1usize), ("O", "ToClient", &m.tout, "TOUT", 2usize)]
    {
        let mut rows = String::new();
        for (i, t) in v.iter().enumerate() {
            if t.ghost {
                writeln!(rows, "| {n}{i} | u64 | \"ghost{n}{i}\" | cfg(any()) |").unwrap();
            }
            writeln!(rows, "| {n}{i} | {} | {} | {}", cell(&t.msg, 0), lit(&t.path), cfg_cell(m.cfgcol[idx], t.cfg)).unwrap();
        }
        let c = if m.cfgcol[idx] { "cfg(all()) |" } else { "" };
        match (m.neg, idx) {
            (Some(Neg::DupInTopic), 1) => writeln!(rows, "| N2 | u32 | \"dup\" | {c}").unwrap(),
            (Some(Neg::DupOutEp), 2) => writeln!(rows, "| N2 | u32 | \"dup\" | {c}").unwrap(),
            (Some(Neg::DupOut), 2) => {
                writeln!(rows, "| N1 | u16 | \"dup\" | {c}\n| N2 | u16 | \"dup\" | {c}").unwrap()
            }
            (Some(Neg::ErrOut), 2) => writeln!(rows, "| N1 | WireError | \"error\" | {c}").unwrap(),
            _ => {}
        }
        let (h1, h2) = head(m.cfgcol[idx]);
        writeln!(
            body,
            "topics! {{ list = {list}; direction = TopicDirection::{dir}; {}\n| TopicTy | MessageTy | Path |{h1}\n| --- | --- | --- |{h2}\n{rows}}}",
            omit(m.omit[idx])
        )
        .unwrap();
    }
    match m.neg {
        Some(Neg::UnlistedEp | Neg::UnlistedResp) => writeln!(
            body,
            "endpoints! {{ list = OTHER; omit_std = true;\n| EndpointTy | RequestTy | ResponseTy | Path |\n| --- | --- | --- | --- |\n| N1 | u32 | u32 | \"unlisted\" |\n}}\nfn hn(c: &mut Ctx, h: VarHeader, r: u32) -> u32 {{ r }}"
        )
        .unwrap(),
        Some(Neg::UnlistedTp) => writeln!(
            body,
            "topics! {{ list = OTHER; direction = TopicDirection::ToServer; omit_std = true;\n| TopicTy | MessageTy | Path |\n| --- | --- | --- |\n| N1 | u32 | \"unlisted\" |\n}}\nfn hn(c: &mut Ctx, h: VarHeader, r: u32, t: &Sender<NTx>) {{ }}"
        )
        .unwrap(),
        _ => {}
    }
    for (i, s) in m.singles.iter().enumerate() {
        match s {
            Single::Ep(a, b, None) => writeln!(body, "endpoint!(SE{i}, {}, {});", ty_text(a), ty_text(b)).unwrap(),
            Single::Ep(a, b, Some(p)) => {
                let tail = if i % 2 == 0 { "," } else { "" };
                writeln!(body, "endpoint!(SE{i}, {}, {}, {}{tail});", ty_text(a), ty_text(b), lit(p)).unwrap()
            }
            Single::Tp(a, None) => writeln!(body, "topic!(ST{i}, {});", ty_text(a)).unwrap(),
            Single::Tp(a, Some(p)) => {
                let tail = if i % 2 == 0 { "," } else { "" };
                writeln!(body, "topic!(ST{i}, {}, {}{tail});", ty_text(a), lit(p)).unwrap()
            }
        }
    }
    for (i, a) in aliases.iter().enumerate() {
        p!("pub type A{i} = {a};");
    }
    w.push_str(&body);

    // what was declared
    let on = |c: Cfg| c != Cfg::Off;
    let marker_static = |name: String, n: usize| {
        if n == 0 {
            name
        } else {
            format!("{name}<{}>", vec!["'static"; n].join(", "))
        }
    };
    let ep_marker = |i: usize| marker_static(format!("E{i}"), lts_of(&m.eps[i].req) + lts_of(&m.eps[i].resp));
    let mut vals: Vec<(String, String)> = vec![];
    if m.dispatch {
        // handlers
        for (i, e) in m.eps.iter().enumerate().filter(|(_, e)| on(e.cfg)) {
            let mut v = Vals(Rng(e.sample), d);
            let rq = v.val(&e.req);
            let rs = v.val(&e.resp);
            let (rqt, rst) = (ty_elided(d, &e.req), ty_static(d, &e.resp));
            p!("fn rq{i}() -> {} {{ {rq} }}\nfn rs{i}() -> {rst} {{ {rs} }}", ty_static(d, &e.req));
            vals.push((rq, rs));
            match e.handler {
                Handler::None => {}
                Handler::Blocking => {
                    p!("fn he{i}(c: &mut Ctx, h: VarHeader, r: {rqt}) -> {rst} {{ c.hit(\"he{i}\", &h, &r); rs{i}() }}")
                }
                Handler::Async => {
                    p!("async fn he{i}(c: &mut Ctx, h: VarHeader, r: {rqt}) -> {rst} {{ c.hit(\"he{i}\", &h, &r); rs{i}() }}")
                }
                Handler::Spawn => p!(
                    "async fn he{i}(c: Ctx, h: VarHeader, r: {rqt}, t: Sender<NTx>) {{ c.hit(\"he{i}\", &h, &r); let _ = t.reply::<{}>(h.seq_no, &rs{i}()).await; }}",
                    ep_marker(i)
                ),
            }
        }
        for (i, t) in m.tin.iter().enumerate().filter(|(_, e)| on(e.cfg)) {
            let mt = ty_elided(d, &t.msg);
            p!("fn ms{i}() -> {} {{ {} }}", ty_static(d, &t.msg), Vals(Rng(t.sample), d).val(&t.msg));
            match t.handler {
                Handler::None => {}
                Handler::Blocking => p!("fn ht{i}(c: &mut Ctx, h: VarHeader, m: {mt}, t: &Sender<NTx>) {{ c.hit(\"ht{i}\", &h, &m); }}"),
                Handler::Async => p!("async fn ht{i}(c: &mut Ctx, h: VarHeader, m: {mt}, t: &Sender<NTx>) {{ c.hit(\"ht{i}\", &h, &m); }}"),
                Handler::Spawn => p!("async fn ht{i}(c: Ctx, h: VarHeader, m: {mt}, t: Sender<NTx>) {{ c.hit(\"ht{i}\", &h, &m); }}"),
            }
        }
        let kind = |h: Handler| match h {
            Handler::Blocking => "blocking",
            Handler::Async => "async",
            _ => "spawn",
        };
        p!("define_dispatch! {{ app: App; spawn_fn: spawn_fn; tx_impl: NTx; spawn_impl: NSpawn; context: Ctx;");
        p!("endpoints: {{ list: EPS;\n| EndpointTy | kind | handler |\n| --- | --- | --- |");
        for (i, e) in m.eps.iter().enumerate().filter(|(_, e)| on(e.cfg) && e.handler != Handler::None) {
            p!("| E{i} | {} | he{i} |", kind(e.handler));
        }
        if matches!(m.neg, Some(Neg::UnlistedEp | Neg::UnlistedResp)) {
            p!("| N1 | blocking | hn |");
        }
        p!("}};\ntopics_in: {{ list: TIN;\n| TopicTy | kind | handler |\n| --- | --- | --- |");
        for (i, e) in m.tin.iter().enumerate().filter(|(_, e)| on(e.cfg) && e.handler != Handler::None) {
            p!("| I{i} | {} | ht{i} |", kind(e.handler));
        }
        if m.neg == Some(Neg::UnlistedTp) {
            p!("| N1 | blocking | hn |");
        }
        p!("}};\ntopics_out: {{ list: TOUT; }}; }}");
    }

    p!("pub fn check(r: &mut Rep) {{");
    p!("let mut eps = List {{ entries: vec![], omit: {} }};", m.omit[0] == Some(true));
    p!("let mut tin = List {{ entries: vec![], omit: {} }};", m.omit[1] == Some(true));
    p!("let mut tout = List {{ entries: vec![], omit: {} }};", m.omit[2] == Some(true));
    for (i, e) in m.eps.iter().enumerate().filter(|(_, e)| on(e.cfg)) {
        p!(
            "eps.entries.push(r.ep::<{}, {}, {}>(\"E{i}\", {}));",
            ep_marker(i),
            ty_static(d, &e.req),
            ty_static(d, &e.resp),
            lit(&e.path)
        );
    }
    for (n, v, l) in [("I", &m.tin, "tin"), ("O", &m.tout, "tout")] {
        for (i, t) in v.iter().enumerate().filter(|(_, e)| on(e.cfg)) {
            p!(
                "{l}.entries.push(r.tp::<{}, {}>(\"{n}{i}\", {}));",
                marker_static(format!("{n}{i}"), lts_of(&t.msg)),
                ty_static(d, &t.msg),
                lit(&t.path)
            );
        }
    }
    p!("r.eps(\"EPS\", &EPS, &eps); r.tps(\"TIN\", &TIN, &tin, TopicDirection::ToServer); r.tps(\"TOUT\", &TOUT, &tout, TopicDirection::ToClient);");
    for (i, s) in m.singles.iter().enumerate() {
        match s {
            Single::Ep(a, b, path) => {
                p!("r.ep::<SE{i}, {}, {}>(\"SE{i}\", {});", ty_text(a), ty_text(b), lit(path.as_deref().unwrap_or(&format!("SE{i}"))))
            }
            Single::Tp(a, path) => {
                p!("r.tp::<ST{i}, {}>(\"ST{i}\", {});", ty_text(a), lit(path.as_deref().unwrap_or(&format!("ST{i}"))))
            }
        }
    }
    if m.dispatch {
        p!("let (tx, ctx, spawn) = (NTx::default(), Ctx::default(), NSpawn::default());");
        p!("let d = App::new(ctx.clone(), spawn.clone()); let map = d.device_map;");
        p!("let min = r.device(&d, map, &eps, &tin, &tout);");
        // a dispatcher always answers the standard endpoints; routing is promised for lists with them
        if m.omit[0] != Some(true) {
            p!("let mut rt = Router {{ d, tx, ctx, spawn, min, seq: 77 }};");
            let mut n = 0;
            for (i, e) in m.eps.iter().enumerate().filter(|(_, e)| on(e.cfg)) {
                let x = match e.handler {
                    Handler::None => "Expect::Error(WireError::UnknownKey)".to_string(),
                    _ => format!("Expect::Handler {{ who: \"he{i}\", msg: dbg(&rq{i}()), reply: Some((t.resp, ser(&rs{i}()))) }}"),
                };
                p!("let t = eps.entries[{n}].clone(); rt.route(r, \"endpoint E{i}\", &t.req, &ser(&rq{i}()), &|| {x});");
                n += 1;
            }
            n = 0;
            for (i, e) in m.tin.iter().enumerate().filter(|(_, e)| on(e.cfg)) {
                let x = match e.handler {
                    Handler::None => "Expect::Error(WireError::UnknownKey)".to_string(),
                    _ => format!("Expect::Handler {{ who: \"ht{i}\", msg: dbg(&ms{i}()), reply: None }}"),
                };
                p!("let t = tin.entries[{n}].clone(); rt.route(r, \"topic I{i}\", &t.key, &ser(&ms{i}()), &|| {x});");
                n += 1;
            }
            p!("let t = Rep::full_eps(&eps)[0].clone(); rt.route(r, \"ping\", &t.req, &ser(&0xABCDEu32), &|| Expect::Reply(t.resp, ser(&0xABCDEu32)));");
            p!("rt.schemas(r, map);");
        }
    }
    p!("}}\n}}");
    o
}
