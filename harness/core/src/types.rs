//! Generated type schemas; C13 type collection.

use std::collections::HashSet;

use postcard_rpc::uniques::{combine_with_copy, cruncher, merge_nty_lists, total_len, type_chewer_nty, unique_types_nty_upper};
use postcard_schema::{
    schema::{DataModelType, DataModelVariant, NamedType, NamedValue, NamedVariant},
    Schema,
};
use serde::{Deserialize, Serialize};
use vcommon::{ensure, proptest, proptest::prelude::*, CaseResult, Outcome, Run};

// ------------------------------------------------------------------ generated types

/// A field: which earlier node, a name, and whether to use a fresh copy of the node
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Fld {
    pub of: u8,
    pub name: u8,
    pub fresh: bool,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Var {
    Unit,
    New(Fld),
    Tuple(Vec<Fld>),
    Struct(Vec<Fld>),
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Node {
    Prim(u8),
    UnitStruct(u8),
    Opt(Fld),
    New(u8, Fld),
    Seq(Fld),
    Tuple(Vec<Fld>),
    TupleStruct(u8, Vec<Fld>),
    Map(Fld, Fld),
    Struct(u8, Vec<Fld>),
    Enum(u8, Vec<(u8, Var)>),
    /// an earlier node with a small difference
    Mutant(u8, u8),
}

/// Owns generated schema values that are handed out as `'static`; nothing may outlive it.
#[derive(Default)]
pub struct Arena {
    keep: Vec<Box<dyn std::any::Any>>,
}
impl Arena {
    pub fn put<T: 'static>(&mut self, t: T) -> &'static T {
        let b = Box::new(t);
        let p: *const T = &*b;
        self.keep.push(b);
        unsafe { &*p }
    }
    pub fn put_all<T: 'static>(&mut self, t: Vec<T>) -> &'static [T] {
        let b: Box<Vec<T>> = Box::new(t);
        let p: *const [T] = b.as_slice();
        self.keep.push(b);
        unsafe { &*p }
    }
    pub fn str(&mut self, s: String) -> &'static str {
        let b: Box<String> = Box::new(s);
        let p: *const str = b.as_str();
        self.keep.push(b);
        unsafe { &*p }
    }
}

pub const PRIMS: &[&NamedType] = &[
    <bool as Schema>::SCHEMA,
    <u8 as Schema>::SCHEMA,
    <i8 as Schema>::SCHEMA,
    <u16 as Schema>::SCHEMA,
    <i16 as Schema>::SCHEMA,
    <u32 as Schema>::SCHEMA,
    <i32 as Schema>::SCHEMA,
    <u64 as Schema>::SCHEMA,
    <i64 as Schema>::SCHEMA,
    <u128 as Schema>::SCHEMA,
    <i128 as Schema>::SCHEMA,
    <f32 as Schema>::SCHEMA,
    <f64 as Schema>::SCHEMA,
    <char as Schema>::SCHEMA,
    <str as Schema>::SCHEMA,
    <() as Schema>::SCHEMA,
];
const NAMES: &[&str] = &["A", "B", "Alpha", "Bravo", "a", "b"];
fn nm(n: u8) -> &'static str {
    NAMES[n as usize % NAMES.len()]
}

pub fn is_prim(t: &NamedType) -> bool {
    use DataModelType::*;
    matches!(
        t.ty,
        Bool | I8 | U8 | I16 | I32 | I64 | I128 | U16 | U32 | U64 | U128 | Usize | Isize | F32 | F64 | Char | String | ByteArray
            | Unit | Schema
    )
}

pub fn children(t: &NamedType) -> Vec<&'static NamedType> {
    use DataModelType::*;
    match t.ty {
        Option(n) | NewtypeStruct(n) | Seq(n) => vec![n],
        Tuple(ns) | TupleStruct(ns) => ns.to_vec(),
        Map { key, val } => vec![key, val],
        Struct(vs) => vs.iter().map(|v| v.ty).collect(),
        Enum(vs) => vs
            .iter()
            .flat_map(|v| match v.ty {
                DataModelVariant::UnitVariant => vec![],
                DataModelVariant::NewtypeVariant(n) => vec![*n],
                DataModelVariant::TupleVariant(ns) => ns.to_vec(),
                DataModelVariant::StructVariant(ns) => ns.iter().map(|v| v.ty).collect(),
            })
            .collect(),
        _ => vec![],
    }
}

/// Reference collector: everything reachable that is not a bare primitive
pub fn reachable(t: &'static NamedType, out: &mut HashSet<NamedType>) {
    if !is_prim(t) {
        out.insert(*t);
    }
    for c in children(t) {
        reachable(c, out);
    }
}

fn size(t: &NamedType) -> usize {
    1 + children(t).iter().map(|c| size(c)).sum::<usize>()
}
fn depth(t: &NamedType) -> usize {
    1 + children(t).iter().map(|c| depth(c)).max().unwrap_or(0)
}

/// Build all nodes. A node whose expansion exceeds `limit` degrades to a primitive.
pub fn build(nodes: &[Node], a: &mut Arena, limit: usize) -> Vec<&'static NamedType> {
    let mut out: Vec<&'static NamedType> = vec![];
    for n in nodes {
        let t = build_one(n, &out, a);
        let t = if size(&t) > limit { *PRIMS[size(&t) % PRIMS.len()] } else { t };
        let t = a.put(t);
        out.push(t);
    }
    out
}

fn child(f: &Fld, done: &[&'static NamedType], a: &mut Arena) -> &'static NamedType {
    // 0..16 are primitives, then the nodes, most recent first
    let n = f.of as usize;
    if n < PRIMS.len() || done.is_empty() {
        return PRIMS[n % PRIMS.len()];
    }
    let t = done[done.len() - 1 - (n - PRIMS.len()) % done.len()];
    if f.fresh {
        let ty = a.put(*t.ty);
        a.put(NamedType { name: t.name, ty })
    } else {
        t
    }
}
fn kids(fs: &[Fld], done: &[&'static NamedType], a: &mut Arena) -> &'static [&'static NamedType] {
    let v: Vec<_> = fs.iter().map(|f| child(f, done, a)).collect();
    a.put_all(v)
}
fn vals(fs: &[Fld], done: &[&'static NamedType], a: &mut Arena) -> &'static [&'static NamedValue] {
    let v: Vec<&'static NamedValue> = fs
        .iter()
        .map(|f| {
            let ty = child(f, done, a);
            a.put(NamedValue { name: nm(f.name), ty })
        })
        .collect();
    a.put_all(v)
}

fn build_one(n: &Node, done: &[&'static NamedType], a: &mut Arena) -> NamedType {
    use DataModelType as D;
    let (name, ty) = match n {
        Node::Prim(p) => return *PRIMS[*p as usize % PRIMS.len()],
        Node::UnitStruct(n) => (nm(*n), D::UnitStruct),
        Node::Opt(f) => ("Option<T>", D::Option(child(f, done, a))),
        Node::New(n, f) => (nm(*n), D::NewtypeStruct(child(f, done, a))),
        Node::Seq(f) => ("[T]", D::Seq(child(f, done, a))),
        Node::Tuple(fs) => ("(A, B)", D::Tuple(kids(fs, done, a))),
        Node::TupleStruct(n, fs) => (nm(*n), D::TupleStruct(kids(fs, done, a))),
        Node::Map(k, v) => ("HashMap<K, V>", D::Map { key: child(k, done, a), val: child(v, done, a) }),
        Node::Struct(n, fs) => (nm(*n), D::Struct(vals(fs, done, a))),
        Node::Enum(n, vs) => {
            let v: Vec<&'static NamedVariant> = vs
                .iter()
                .map(|(n, v)| {
                    let ty = match v {
                        Var::Unit => DataModelVariant::UnitVariant,
                        Var::New(f) => DataModelVariant::NewtypeVariant(child(f, done, a)),
                        Var::Tuple(fs) => DataModelVariant::TupleVariant(kids(fs, done, a)),
                        Var::Struct(fs) => DataModelVariant::StructVariant(vals(fs, done, a)),
                    };
                    let ty = a.put(ty);
                    a.put(NamedVariant { name: nm(*n), ty })
                })
                .collect();
            (nm(*n), D::Enum(a.put_all(v)))
        }
        Node::Mutant(of, how) => {
            let Some(t) = done.len().checked_sub(1).map(|l| done[l - *of as usize % done.len()]) else {
                return *PRIMS[*of as usize % PRIMS.len()];
            };
            return mutate(t, *how, a);
        }
    };
    NamedType { name, ty: a.put(ty) }
}

/// A structurally close but (usually) different type
fn mutate(t: &'static NamedType, how: u8, a: &mut Arena) -> NamedType {
    use DataModelType as D;
    let i = (how / 8) as usize;
    let other = |n: &NamedType| -> &'static NamedType {
        if n == PRIMS[1] { PRIMS[5] } else { PRIMS[1] }
    };
    fn rename(n: &str) -> &'static str {
        let p = NAMES.iter().position(|x| *x == n).unwrap_or(0);
        NAMES[(p + 1) % NAMES.len()]
    }
    let swap_ty = |ns: &[&'static NamedType], a: &mut Arena| -> &'static [&'static NamedType] {
        let mut v = ns.to_vec();
        if v.is_empty() {
            v.push(PRIMS[1]);
        } else {
            match how % 4 {
                0 => {
                    v.pop();
                }
                1 => v.push(PRIMS[i % PRIMS.len()]),
                2 => {
                    let k = i % v.len();
                    v[k] = other(v[k])
                }
                _ => v.reverse(),
            }
        }
        a.put_all(v)
    };
    let swap_val = |ns: &[&'static NamedValue], a: &mut Arena| -> &'static [&'static NamedValue] {
        let mut v = ns.to_vec();
        if v.is_empty() {
            v.push(a.put(NamedValue { name: "a", ty: PRIMS[1] }));
        } else {
            let k = i % v.len();
            match how % 5 {
                0 => {
                    v.pop();
                }
                1 => v[k] = a.put(NamedValue { name: rename(v[k].name), ty: v[k].ty }),
                2 => v[k] = a.put(NamedValue { name: v[k].name, ty: other(v[k].ty) }),
                3 => v.push(a.put(NamedValue { name: "zz", ty: PRIMS[1] })),
                _ => v.reverse(),
            }
        }
        a.put_all(v)
    };
    if how % 8 == 7 {
        return NamedType { name: rename(t.name), ty: t.ty };
    }
    let ty = match t.ty {
        D::Option(n) => if how % 2 == 0 { D::Seq(n) } else { D::Option(other(n)) },
        D::Seq(n) => if how % 2 == 0 { D::Option(n) } else { D::Seq(other(n)) },
        D::NewtypeStruct(n) => {
            if how % 2 == 0 {
                let v = vec![*n];
                D::TupleStruct(a.put_all(v))
            } else {
                D::NewtypeStruct(other(n))
            }
        }
        D::Tuple(ns) => if how % 8 == 6 { D::TupleStruct(ns) } else { D::Tuple(swap_ty(ns, a)) },
        D::TupleStruct(ns) => if how % 8 == 6 { D::Tuple(ns) } else { D::TupleStruct(swap_ty(ns, a)) },
        D::Map { key, val } => match how % 3 {
            0 => D::Map { key: val, val: key },
            1 => D::Map { key, val: other(val) },
            _ => D::Map { key: other(key), val },
        },
        D::Struct(vs) => D::Struct(swap_val(vs, a)),
        D::Enum(vs) if !vs.is_empty() => {
            let mut v = vs.to_vec();
            let k = i % v.len();
            match how % 5 {
                0 => {
                    v.pop();
                }
                1 => v[k] = a.put(NamedVariant { name: rename(v[k].name), ty: v[k].ty }),
                2 => v.reverse(),
                _ => {
                    let ty = match v[k].ty {
                        DataModelVariant::UnitVariant => DataModelVariant::NewtypeVariant(PRIMS[1]),
                        DataModelVariant::NewtypeVariant(n) => {
                            if how % 2 == 0 {
                                DataModelVariant::NewtypeVariant(other(n))
                            } else {
                                let one = vec![*n];
                                DataModelVariant::TupleVariant(a.put_all(one))
                            }
                        }
                        DataModelVariant::TupleVariant(ns) => DataModelVariant::TupleVariant(swap_ty(ns, a)),
                        DataModelVariant::StructVariant(ns) => DataModelVariant::StructVariant(swap_val(ns, a)),
                    };
                    let ty = a.put(ty);
                    v[k] = a.put(NamedVariant { name: v[k].name, ty })
                }
            }
            D::Enum(a.put_all(v))
        }
        D::UnitStruct => D::Unit,
        D::Unit => D::UnitStruct,
        d => *d,
    };
    NamedType { name: t.name, ty: a.put(ty) }
}

pub fn fld() -> impl Strategy<Value = Fld> {
    (prop_oneof![2 => 0u8..16, 4 => 16u8..22, 1 => 16u8..40], 0u8..6, any::<bool>()).prop_map(|(of, name, fresh)| Fld { of, name, fresh })
}
fn flds(lo: usize, hi: usize) -> impl Strategy<Value = Vec<Fld>> {
    proptest::collection::vec(fld(), lo..=hi)
}
pub fn node() -> impl Strategy<Value = Node> {
    let var = prop_oneof![
        1 => Just(Var::Unit),
        2 => fld().prop_map(Var::New),
        2 => flds(0, 3).prop_map(Var::Tuple),
        2 => flds(0, 3).prop_map(Var::Struct),
    ];
    prop_oneof![
        1 => (0u8..16).prop_map(Node::Prim),
        1 => (0u8..6).prop_map(Node::UnitStruct),
        2 => fld().prop_map(Node::Opt),
        2 => (0u8..6, fld()).prop_map(|(a, b)| Node::New(a, b)),
        2 => fld().prop_map(Node::Seq),
        2 => flds(0, 3).prop_map(Node::Tuple),
        2 => (0u8..6, flds(0, 3)).prop_map(|(a, b)| Node::TupleStruct(a, b)),
        2 => (fld(), fld()).prop_map(|(a, b)| Node::Map(a, b)),
        3 => (0u8..6, flds(0, 4)).prop_map(|(a, b)| Node::Struct(a, b)),
        4 => (0u8..6, proptest::collection::vec((0u8..6, var), 0..=4)).prop_map(|(a, b)| Node::Enum(a, b)),
        3 => (0u8..4, any::<u8>()).prop_map(|(a, b)| Node::Mutant(a, b)),
    ]
}

// ------------------------------------------------------------------ C13

/// Call with the exact array size, as the macros do
macro_rules! sizes {
    ($n:expr, $f:ident, $a:expr, $conv:expr) => {
        sizes!(@ $n, $f, $a, $conv,
            0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32
            33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48)
    };
    (@ $n:expr, $f:ident, $a:expr, $conv:expr, $($k:literal)*) => {
        match $n {
            $( $k => $conv($f::<$k>($a)), )*
            n if n <= 400 => $conv($f::<400>($a)),
            n => vcommon::harness_error(format!("size {n} out of the harness range")),
        }
    };
}
const LIMIT: usize = 48;

type List = (Vec<Option<&'static NamedType>>, usize);
fn lst<const N: usize>(x: ([Option<&'static NamedType>; N], usize)) -> List {
    (x.0.to_vec(), x.1)
}
fn arr<const N: usize>(x: [&'static NamedType; N]) -> Vec<&'static NamedType> {
    x.to_vec()
}

fn collect(t: &'static NamedType) -> Result<Vec<&'static NamedType>, String> {
    let upper = unique_types_nty_upper(t);
    let (big, used) = sizes!(upper, type_chewer_nty, t, lst);
    ensure!(used <= big.len(), "used length {used} exceeds the bound {upper}");
    Ok(sizes!(used, cruncher, &big, arr))
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct TypeCase {
    nodes: Vec<Node>,
    roots: Vec<u8>,
    raw: Vec<Vec<u8>>,
}

fn same_set(got: &[&'static NamedType], want: &HashSet<NamedType>, what: &str) -> Result<(), String> {
    let show = |t: &NamedType| format!("{}", postcard_schema::schema::owned::OwnedNamedType::from(t));
    for (i, g) in got.iter().enumerate() {
        ensure!(want.contains(*g), "{what}: lists {} ({}), which is not a non-primitive part of the input", g.name, show(g));
        ensure!(!got[..i].contains(g), "{what}: lists {} ({}) twice", g.name, show(g));
    }
    for w in want {
        ensure!(got.iter().any(|g| *g == w), "{what}: {} ({}) is missing from the list of {}", w.name, show(w), got.len());
    }
    Ok(())
}

fn run_types(c: &TypeCase) -> CaseResult {
    let mut a = Arena::default();
    let tys = build(&c.nodes, &mut a, LIMIT);
    let mut lists: Vec<&'static [&'static NamedType]> = vec![];
    let mut want_all = HashSet::new();
    let (mut max_depth, mut dup, mut newv, mut total) = (0, false, false, 0);
    for r in &c.roots {
        let t = tys[tys.len() - 1 - *r as usize % tys.len()];
        let got = collect(t)?;
        let mut want = HashSet::new();
        reachable(t, &mut want);
        same_set(&got, &want, &format!("types of {}", t.name))?;
        max_depth = max_depth.max(depth(t));
        dup |= unique_types_nty_upper(t) > want.len();
        total += want.len();
        newv |= want.iter().any(|t| {
            matches!(t.ty, DataModelType::Enum(vs) if vs.iter().any(|v| matches!(v.ty, DataModelVariant::NewtypeVariant(n) if children(n).iter().any(|c| !is_prim(c)))))
        });
        if total_len(&lists) + got.len() <= LIMIT {
            want_all.extend(want);
            lists.push(a.put_all(got));
        }
    }
    for l in &c.raw {
        let l: Vec<&'static NamedType> =
            l.iter().map(|i| tys[*i as usize % tys.len()]).filter(|t| !is_prim(t)).collect();
        if total_len(&lists) + l.len() <= LIMIT {
            want_all.extend(l.iter().map(|t| **t));
            lists.push(a.put_all(l));
        }
    }
    let expect_total: usize = lists.iter().map(|l| l.len()).sum();
    let m = total_len(&lists);
    ensure!(m == expect_total, "total length {m} of lists with {expect_total} entries");
    let (big, used) = sizes!(m, merge_nty_lists, &lists, lst);
    let merged = sizes!(used, cruncher, &big, arr);
    same_set(&merged, &want_all, "merged list")?;
    // plain concatenation keeps everything, in order
    fn concat<const N: usize>(l: &[&[&'static NamedType]]) -> [&'static NamedType; N] {
        combine_with_copy::<_, N>(l, PRIMS[0])
    }
    let cat = sizes!(m, concat, &lists, arr);
    let want: Vec<_> = lists.iter().flat_map(|l| l.iter().copied()).collect();
    ensure!(cat == want, "concatenation of the lists differs");
    Ok(Outcome::new(total > 2 && max_depth > 2)
        .label(dup, "repeated types")
        .label(newv, "newtype variant with nested types")
        .label(max_depth > 4, "depth > 4")
        .label(merged.len() < m, "merge removes duplicates"))
}

pub fn c13(r: &mut Run) {
    r.check(
        "types",
        "at least three non-primitive types, nested at least three deep",
        1_500_000,
        20_000_000,
        || (
            proptest::collection::vec(node(), 1..10),
            proptest::collection::vec(0u8..4, 1..4),
            proptest::collection::vec(proptest::collection::vec(any::<u8>(), 0..5), 0..3),
        )
            .prop_map(|(nodes, roots, raw)| TypeCase { nodes, roots, raw }),
        run_types,
    );
}
