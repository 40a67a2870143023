//! Reference models and thin wrappers around the public API of the code under test.
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{BaseParams, CommonParams, DatabaseMatrix, FilterParams, IndexDatabase, IndexParams, KVDatabase, KVParams, KeyValue};
use serde::{de::DeserializeOwned, Serialize};
use simrt::entropy::{Entropy, Mode, I};
use simrt::*;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Index, Kv }
#[derive(Clone, Debug)]
pub enum KeySpec { Text(String), Raw([u64; 4]) }
#[derive(Clone, Debug)]
pub struct Case { pub kind: Kind, pub m: usize, pub bits: usize, pub p: usize, pub dim: usize, pub recs: Vec<Vec<u8>>, pub keys: Vec<KeySpec>, /** the noise stays below half a plaintext step, so that records must decode */ pub exact: bool }

pub fn width(bits: usize, p: usize) -> usize { (bits + p - 1) / p }
pub fn bit(b: &[u8], i: usize) -> u32 { (b[i / 8] >> (i % 8)) as u32 & 1 }
/// The number row of a record: consecutive groups of p bits, least significant first.
pub fn pack(rec: &[u8], bits: usize, p: usize) -> Vec<u32> {
    (0..width(bits, p)).map(|i| (i * p..((i + 1) * p).min(bits)).enumerate().fold(0, |a, (k, j)| a | bit(rec, j) << k)).collect()
}
pub fn mask_bits(rec: &mut Vec<u8>, bits: usize) { if bits % 8 != 0 { let l = rec.len() - 1; rec[l] &= (1u8 << (bits % 8)) - 1; } }
pub fn b64(b: &[u8]) -> String { base64::encode(b) }
impl Case {
    pub fn row(&self, i: usize) -> Vec<u32> { pack(&self.recs[i], self.bits, self.p) }
    pub fn width(&self) -> usize { width(self.bits, self.p) }
    pub fn delta(&self) -> u32 { 1u32 << (32 - self.p) }
    pub fn describe(&self) -> String { format!("{:?} m={} elem_bits={} p={} dim={}", self.kind, self.m, self.bits, self.p, self.dim) }
    pub fn b64s(&self) -> Vec<String> { self.recs.iter().map(|r| b64(r)).collect() }
    pub fn texts(&self) -> bool { self.keys.iter().all(|k| matches!(k, KeySpec::Text(_))) }
}
pub fn key_of(k: &KeySpec) -> [u64; 4] {
    match k { KeySpec::Raw(r) => *r, KeySpec::Text(t) => sha256_into_u64_sized(t.as_bytes()).expect("sha256") }
}

pub enum Db { I(Shard), K(KVShard) }
#[derive(Clone)]
pub enum Pub { I(IndexParams), K(KVParams) }
#[derive(Clone)]
pub enum Qp { I(QueryParams<IndexDatabase, EmptyAuxParams>), K(QueryParams<KVDatabase, FilterParams>) }
#[derive(Clone, Debug)]
pub enum Target { Row(usize), Key([u64; 4]) }
pub type Res<T> = Result<T, String>;
fn es<T>(r: Result<T, Box<dyn std::error::Error>>) -> Res<T> { r.map_err(|e| e.to_string()) }

/// An operation on the code under test: Ok(Ok) done, Ok(Err) refused with an error, Err panicked.
pub type Op<T> = Result<Res<T>, String>;
pub fn flat<T>(o: Op<T>) -> Res<T> { match o { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) } }

impl Db {
    pub fn respond(&self, q: &Query) -> Res<Vec<u8>> { match self { Db::I(s) => es(s.respond(q)), Db::K(s) => es(s.respond(q)) } }
    pub fn params(&self) -> Pub { match self { Db::I(s) => Pub::I(s.get_base_params().clone()), Db::K(s) => Pub::K(s.get_base_params().clone()) } }
    pub fn ser(&self, json: bool) -> Vec<u8> { match self { Db::I(s) => ser(s, json), Db::K(s) => ser(s, json) } }
    pub fn de(kind: Kind, b: &[u8], json: bool) -> Res<Db> { Ok(match kind { Kind::Index => Db::I(de(b, json)?), Kind::Kv => Db::K(de(b, json)?) }) }
    pub fn height(&self) -> usize { match self { Db::I(s) => s.get_db().get_matrix_height(), Db::K(s) => s.get_db().get_matrix_height() } }
    pub fn row_width(&self) -> usize { match self { Db::I(s) => s.get_db().get_row_width_self(), Db::K(s) => s.get_db().get_row_width_self() } }
    /// The plaintext columns (index: from the reference packing; key-value: as published by the database).
    pub fn columns(&self, case: &Case) -> Vec<Vec<u32>> {
        match self {
            Db::I(_) => { let rows: Vec<Vec<u32>> = (0..case.m).map(|i| case.row(i)).collect(); (0..case.width()).map(|j| rows.iter().map(|r| r[j]).collect()).collect() }
            Db::K(s) => s.get_db().entries.clone(),
        }
    }
    pub fn write(&self, db: &str, params: &str) -> Res<()> { match self { Db::I(s) => es(s.write_to_file(db, params)), Db::K(s) => es(s.write_to_file(db, params)) } }
}
impl Pub {
    pub fn common(&self) -> CommonParams { match self { Pub::I(p) => CommonParams::from(p), Pub::K(p) => CommonParams::from(p) } }
    pub fn query_params(&self, cp: &CommonParams) -> Res<Qp> {
        match self { Pub::I(p) => es(generate_index_query_params(cp, p)).map(Qp::I), Pub::K(p) => es(generate_kv_query_params(cp, p)).map(Qp::K) }
    }
    pub fn ser(&self, json: bool) -> Vec<u8> { match self { Pub::I(s) => ser(s, json), Pub::K(s) => ser(s, json) } }
    pub fn de(kind: Kind, b: &[u8], json: bool) -> Res<Pub> { Ok(match kind { Kind::Index => Pub::I(de(b, json)?), Kind::Kv => Pub::K(de(b, json)?) }) }
    pub fn dim(&self) -> usize { match self { Pub::I(p) => p.get_dim(), Pub::K(p) => p.get_dim() } }
    pub fn records(&self) -> usize { match self { Pub::I(p) => p.get_total_records(), Pub::K(p) => p.get_total_records() } }
    pub fn positions(&self, t: &Target) -> Vec<usize> {
        match (self, t) { (Pub::K(p), Target::Key(k)) => p.get_filter_params().get_hash_evals(k), (_, Target::Row(r)) => vec![*r], _ => vec![] }
    }
}
impl Qp {
    pub fn query(&mut self, t: &Target) -> Res<Query> {
        match (self, t) { (Qp::I(q), Target::Row(r)) => es(q.generate_query(*r)), (Qp::K(q), Target::Key(k)) => es(q.generate_query(k)), _ => unreachable!() }
    }
    pub fn row(&self, r: &Response, t: &Target) -> Res<Vec<u32>> { match (self, t) { (Qp::I(q), _) => Ok(q.parse_resp_as_row(r)), (Qp::K(q), Target::Key(k)) => es(q.parse_resp_as_row(r, k)), _ => unreachable!() } }
    pub fn bytes(&self, r: &Response, t: &Target) -> Res<Vec<u8>> { match (self, t) { (Qp::I(q), _) => Ok(q.parse_resp_as_bytes(r)), (Qp::K(q), Target::Key(k)) => es(q.parse_resp_as_bytes(r, k)), _ => unreachable!() } }
    pub fn base64(&self, r: &Response, t: &Target) -> Res<String> { match (self, t) { (Qp::I(q), _) => Ok(q.parse_resp_as_base64(r)), (Qp::K(q), Target::Key(k)) => es(q.parse_resp_as_base64(r, k)), _ => unreachable!() } }
    pub fn used(&self) -> bool { match self { Qp::I(q) => q.used, Qp::K(q) => q.used } }
    pub fn ser(&self, json: bool) -> Vec<u8> { match self { Qp::I(s) => ser(s, json), Qp::K(s) => ser(s, json) } }
    pub fn de(kind: Kind, b: &[u8], json: bool) -> Res<Qp> { Ok(match kind { Kind::Index => Qp::I(de(b, json)?), Kind::Kv => Qp::K(de(b, json)?) }) }
}
pub fn ser<T: Serialize>(t: &T, json: bool) -> Vec<u8> { if json { serde_json::to_vec(t).expect("json") } else { bincode::serialize(t).expect("bincode") } }
pub fn de<T: DeserializeOwned>(b: &[u8], json: bool) -> Res<T> { if json { serde_json::from_slice(b).map_err(|e| e.to_string()) } else { bincode::deserialize(b).map_err(|e| e.to_string()) } }
/// The format of a message on the wire: JSON has no zero bytes, the length prefix of bincode does.
pub fn is_json(b: &[u8]) -> bool { b.first() == Some(&b'[') && !b[..b.len().min(8)].contains(&0) }
pub fn target(case: &Case, i: usize) -> Target { match case.kind { Kind::Index => Target::Row(i), Kind::Kv => Target::Key(key_of(&case.keys[i])) } }
pub fn query_from_words(w: &[u32]) -> Query { de(&ser(&w.to_vec(), false), false).expect("query from words") }
pub fn query_words(q: &Query) -> Vec<u32> { de(&ser(q, false), false).expect("query words") }
pub fn response_words(b: &[u8]) -> Res<Vec<u32>> { de(b, false) }
pub fn response_from_words(w: &[u32]) -> Response { de(&ser(&w.to_vec(), false), false).expect("response from words") }

// ------------------------------------------------------------------ generating cases
pub fn gen_record(bits: usize, style: u32, i: usize, rng: &mut Rng) -> Vec<u8> {
    let n = (bits + 7) / 8;
    let mut v = vec![0u8; n];
    match style {
        0 => rng.fill(&mut v),
        1 => {}
        2 => v.fill(0xff),
        3 => v.fill([0x00, 0xff, 0x80, 0x01, 0x7f, 0xaa, 0x55][i % 7]),
        4 => { let k = rng.below(n as u64) as usize; v[k] = 1 << rng.below(8); }
        _ => if i % 3 == 0 { rng.fill(&mut v) } else if i % 3 == 1 { v.fill(0xff) },
    }
    mask_bits(&mut v, bits);
    v
}
#[derive(Clone, Copy)]
pub struct Limits { pub max_m: usize, pub max_words: usize, pub max_dim: usize }
impl Default for Limits { fn default() -> Self { Limits { max_m: 160, max_words: 24, max_dim: 96 } } }

const SIZES: [usize; 16] = [3, 1, 2, 4, 5, 7, 8, 16, 17, 31, 33, 64, 90, 100, 150, 200];
/// Elements of 1 bit up to max_words plaintext words; multiples of p, of 8, of both and of neither.
fn gen_size(max: usize) -> usize { match choose(20) { k if k < 16 => SIZES[k as usize].min(max), _ => 1 + choose(max as u32) as usize } }
fn gen_bits(p: usize, max_words: usize) -> usize {
    let w = 1 + choose(max_words.min(24) as u32) as usize;
    let b = match choose(5) { 4 => 1 + choose((w * p) as u32) as usize, 0 => w * p, 1 => (w * p / 8).max(1) * 8, 2 => { let x = w * p; x - choose(p as u32) as usize } _ => [8usize, 16, 64, 256][choose(4) as usize] };
    b.clamp(1, max_words * p)
}
pub fn gen_dim(max: usize) -> usize { let d = [4usize, 1, 2, 3, 8, 16, 32, 64, 128, 512, 0, 0][choose(12) as usize]; if d == 0 { 1 + choose(max.min(600) as u32) as usize } else { d.min(max) } }
pub fn gen_index(l: Limits) -> Case {
    if chance(1, 16) { let p = 16 + choose(15) as usize; return quiet_case(Kind::Index, 1 + choose(12.min(l.max_m) as u32) as usize, p, gen_bits(p, l.max_words), gen_dim(l.max_dim), 9); }
    let p = [8usize, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15][choose(15) as usize];
    let cap = if p <= 11 { 512 } else { 1usize << (31 - 2 * p).max(1) };
    let m = gen_size(cap.min(l.max_m));
    let bits = gen_bits(p, l.max_words);
    let style = choose(6);
    let mut rng = fresh_rng();
    let recs = (0..m).map(|i| gen_record(bits, style, i, &mut rng)).collect();
    Case { kind: Kind::Index, m, bits, p, dim: gen_dim(l.max_dim), recs, keys: vec![], exact: true }
}
/// Pairwise distinct keys: hashed texts, or raw ones including permutations of one another.
pub fn gen_keys(n: usize, rng: &mut Rng) -> Vec<KeySpec> {
    match choose(8) {
        0 => (0..n).map(|i| KeySpec::Text(format!("key{i}"))).collect(),
        6 | 7 => text_keys(n, rng),
        1 => (0..n).map(|i| KeySpec::Text(if i == 0 { String::new() } else { format!("{}\u{e9}{}", "x".repeat((rng.below(80)) as usize), i) })).collect(),
        2 => (0..n).map(|i| KeySpec::Raw([rng.next(), rng.next(), rng.next(), i as u64])).collect(),
        3 => { // groups of permutations of the same four words
            let mut v = vec![];
            while v.len() < n {
                let w = [rng.next(), rng.next(), rng.next(), rng.next()];
                for p in PERMS { if v.len() < n { v.push(KeySpec::Raw([w[p[0]], w[p[1]], w[p[2]], w[p[3]]])); } }
            }
            v
        }
        4 => { // small counters in one position, the rest constant
            let pos = rng.below(4) as usize; let c = rng.next() >> rng.below(64);
            (0..n).map(|i| { let mut k = [c; 4]; k[pos] = i as u64; KeySpec::Raw(k) }).collect()
        }
        _ => { // counters spread over the words so that simple combinations collide
            (0..n).map(|i| { let (a, b) = (i as u64 % 8, i as u64 / 8); KeySpec::Raw([a, b, u64::MAX - a, u64::MAX - b]) }).collect()
        }
    }
}
/// Families of texts that differ only in something a careless reader would normalise away: case, surrounding or inner
/// blanks, control characters, leading zeros, the form of an accented letter, or the very end of a long key.
fn text_keys(n: usize, rng: &mut Rng) -> Vec<KeySpec> {
    let mut v: Vec<String> = vec![];
    let mut i = 0u64;
    let skip = chance(1, 2);
    while v.len() < n {
        let b = format!("{:x}", i + 10);
        let long = format!("{}{b}", "k".repeat([31usize, 32, 63, 64, 127, 135, 136, 255, 256, 1000, 5000][if n > 200 { rng.below(6) } else { rng.below(11) } as usize]));
        let fam = [
            b.clone(), b.to_uppercase(), format!(" {b}"), format!("{b} "), format!("\t{b}"), format!("{b}\n"), format!("{b}\r\n"), format!("\u{a0}{b}"),
            format!("{b}\0"), format!("\0{b}"), format!("0{b}"), format!("00{b}"), format!("{b}.0"), format!("+{b}"), format!("\"{b}\""), format!("\\{b}"), format!("{b}/"),
            format!("\u{feff}{b}"), format!("{b}\u{e9}"), format!("{b}e\u{301}"), format!("{b}\u{1f511}"), format!("{b}\u{200b}"), long.clone(), format!("{long}x"), format!("{long} "), format!("x{long}"),
        ];
        if i == 0 { for e in ["", " ", "\n", "\0", "0", "00", "null", "-0"] { if !skip || rng.below(2) == 0 { v.push(e.to_string()); } } }
        for f in fam { if !skip || rng.below(3) != 0 { v.push(f); } }
        i += 1;
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|k| seen.insert(k.clone()));
    let mut k = 0u64;
    while v.len() < n { let t = format!("extra {k}"); if seen.insert(t.clone()) { v.push(t); } k += 1; }
    if skip { for j in (1..v.len()).rev() { v.swap(j, rng.below(j as u64 + 1) as usize); } }
    v.truncate(n);
    v.into_iter().map(KeySpec::Text).collect()
}
const PERMS: [[usize; 4]; 24] = {
    let mut r = [[0; 4]; 24];
    let (mut n, mut a) = (0, 0);
    while a < 4 { let mut b = 0; while b < 4 { let mut c = 0; while c < 4 { if a != b && b != c && a != c { r[n] = [a, b, c, 6 - a - b - c]; n += 1; } c += 1; } b += 1; } a += 1; }
    r
};
pub fn gen_kv(l: Limits) -> Case {
    let p = [10usize, 8, 9, 11, 12, 13][choose(6) as usize];
    let cap = match p { 13 => 2, 12 => 17, 11 => 80, _ => 400 };
    let m = gen_size(cap.min(l.max_m));
    let bits = gen_bits(p, l.max_words);
    let style = choose(6);
    let mut rng = fresh_rng();
    let recs = (0..m).map(|i| gen_record(bits, style, i, &mut rng)).collect();
    let keys = gen_keys(m, &mut rng);
    Case { kind: Kind::Kv, m, bits, p, dim: gen_dim(l.max_dim), recs, keys, exact: true }
}
/// Unusual shapes: very many records, very wide ones, large dimensions, wide plaintexts with little noise.
pub fn gen_extreme(kind: Kind) -> Case {
    let shape = choose(if kind == Kind::Index { 5 } else { 3 });
    let style = choose(6);
    let (m, p, bits, dim, style) = match shape {
        0 => { // wide
            let p = if kind == Kind::Index { [8usize, 7, 9, 10, 3][choose(5) as usize] } else { [10usize, 8, 9][choose(3) as usize] };
            if choose(6) == 5 { // records of 8 KiB to 64 KiB
                let bits = [65_530usize, 65_537, 66_000 + choose(2000) as usize, 131_080, 65_537 * p][choose(5) as usize];
                probe("extreme_record_size");
                (1 + choose(if bits > 200_000 { 2 } else { 5 }) as usize, p, bits - choose(8) as usize, 1 + choose(4) as usize, style)
            } else {
            let w = [100usize, 255, 256, 257, 820][choose(5) as usize];
            (1 + choose(8) as usize, p, w * p - choose(p as u32) as usize, gen_dim(16), style)
            }
        }
        1 => { // large dimension
            let p = 8 + choose(3) as usize;
            (2 + choose(30) as usize, p, 1 + choose(40) as usize, [1024usize, 1100, 1774, 2048, 4100, 8200][choose(6) as usize], style)
        }
        2 => { // many records
            let p = if kind == Kind::Index { 1 + choose(7) as usize } else { 8 };
            let m = if kind == Kind::Index { [255usize, 256, 257, 1023, 4095, 4096, 4097, 16_384, 65_535, 65_536, 65_537, 70_000, 131_100][choose(13) as usize] } else { [255usize, 256, 257, 1000, 4095, 4097, 8200][choose(7) as usize] };
            let w = if m > 20_000 { 1 } else { 1 + choose(3) as usize };
            (m, p, w * p - choose(p as u32) as usize, 1 + choose(4) as usize, style)
        }
        _ => { let p = 16 + choose(15) as usize; (1 + choose(12) as usize, p, (1 + choose(6) as usize) * p - choose(p as u32) as usize, gen_dim(128), 9) }
    };
    probe(["extreme_wide", "extreme_dimension", "extreme_many_records", "extreme_plaintext", "extreme_plaintext"][shape as usize]);
    let c = quiet_case(kind, m, p, bits, dim, style);
    label(c.describe());
    trace(|| format!("case {}", c.describe()));
    c
}
/// With style 9 every column sums up to just below what the plaintext width leaves for noise.
fn quiet_case(kind: Kind, m: usize, p: usize, bits: usize, dim: usize, style: u32) -> Case {
    let mut rng = fresh_rng();
    let mut recs: Vec<Vec<u8>> = (0..m).map(|i| gen_record(bits, if style == 9 { 1 } else { style }, i, &mut rng)).collect();
    if style == 9 { // every column sums up to just below the limit
        let mut left = vec![(1u64 << (31 - p)) - 1; width(bits, p)];
        for r in &mut recs {
            let words: Vec<u64> = left.iter_mut().enumerate().map(|(j, l)| {
                let cap = (1u64 << (bits - j * p).min(p)) - 1;
                let v = match rng.below(3) { 0 => 0, 1 => (*l).min(cap), _ => rng.below((*l).min(cap) + 1) };
                *l -= v;
                v
            }).collect();
            for b in 0..bits { if words[b / p] >> (b % p) & 1 == 1 { r[b / 8] |= 1 << (b % 8); } }
        }
    }
    let keys = if kind == Kind::Kv { gen_keys(m, &mut rng) } else { vec![] };
    Case { kind, m, bits, p, dim, recs, keys, exact: true }
}
/// Any shape for properties that do not depend on the noise: plaintexts of up to 31 bits with whatever contents.
pub fn gen_any(kind: Kind, l: Limits) -> Case {
    if !chance(1, 10) { return gen_case(kind, l); }
    let p = match (kind, choose(3)) { (Kind::Index, 0) => 16 + choose(16) as usize, (_, 1) => [31usize, 30, 16, 17, 24, 15][choose(6) as usize], _ => 14 + choose(18) as usize };
    let (m, bits, style) = (gen_size(l.max_m), gen_bits(p, l.max_words), choose(6));
    let mut c = quiet_case(kind, m, p, bits, gen_dim(l.max_dim), style);
    c.exact = false;
    probe("shape_beyond_noise_limit");
    label(c.describe());
    trace(|| format!("case {}", c.describe()));
    c
}
pub fn gen_case(kind: Kind, l: Limits) -> Case { let c = match kind { Kind::Index => gen_index(l), Kind::Kv => gen_kv(l) }; label(c.describe()); trace(|| format!("case {}", c.describe())); c }
pub fn gen_kind() -> Kind { if choose(2) == 0 { Kind::Index } else { Kind::Kv } }

// ------------------------------------------------------------------ building and entropy
pub fn construct(case: &Case, via: u32) -> Res<Db> {
    let (m, bits, p, dim) = (case.m, case.bits, case.p, case.dim);
    match case.kind {
        Kind::Index => es(Shard::from_base64_strings(&case.b64s(), dim, m, bits, p)).map(Db::I),
        Kind::Kv => if via == 0 && case.texts() {
            let keys: Vec<String> = case.keys.iter().map(|k| match k { KeySpec::Text(t) => t.clone(), _ => unreachable!() }).collect();
            es(KVShard::from_base64_strings(&keys, &case.b64s(), dim, m, bits, p)).map(Db::K)
        } else {
            let kvs: Vec<KeyValue> = (0..m).map(|i| KeyValue { key: key_of(&case.keys[i]), value: case.row(i) }).collect();
            es(KVShard::new(&kvs, dim, m, bits, p)).map(Db::K)
        },
    }
}
pub struct Slot<T>(Arc<Mutex<Option<T>>>);
impl<T> Clone for Slot<T> { fn clone(&self) -> Self { Slot(self.0.clone()) } }
impl<T> Slot<T> {
    pub fn new() -> Self { Slot(Arc::new(Mutex::new(None))) }
    pub fn put(&self, t: T) { *self.0.lock().unwrap() = Some(t); }
    pub fn take(&self) -> Option<T> { self.0.lock().unwrap().take() }
}
/// Runs f in a task of its own on a node and waits for it.
pub fn on_node<T: Send + 'static>(node: Node, name: &str, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let s: Slot<T> = Slot::new();
    let s2 = s.clone();
    let t = spawn(node, name, move || { let v = f(); s2.put(v); });
    join(t);
    s.take()
}
/// Builds the database on a node with working entropy; ends the run if that fails (unless `prop` covers it).
pub fn build_on(node: Node, case: &Case, prop: &'static str) -> Arc<Db> {
    let c = case.clone();
    let via = choose(2);
    let r = on_node(node, "builder", move || sut("build", prop, || construct(&c, via)));
    match r {
        Some(Ok(Ok(db))) => {
            noise_guard(&db, case);
            Arc::new(db)
        }
        Some(x) => { let e = flat(x).err().unwrap(); fail_op(if prop.is_empty() { "-" } else { prop }, "build-failed", format!("building {} failed: {e}", case.describe())) }
        None => abort_run("builder crashed"),
    }
}
/// Every key is served: the published entries at its positions and its mask give its value.
/// `bits`: records may have padding bits set beyond this many, which do not count
pub fn kv_wrong(s: &KVShard, p: usize, bits: Option<usize>, pairs: impl Iterator<Item = ([u64; 4], Vec<u32>)>) -> Option<String> {
    let fp = s.get_base_params().get_filter_params();
    let e = &s.get_db().entries;
    for (i, (key, want)) in pairs.enumerate() {
        let pos = fp.get_hash_evals(&key);
        if e.len() != want.len() { return Some(format!("{} columns instead of {}", e.len(), want.len())); }
        for (j, w) in want.iter().enumerate() {
            if let Some(x) = pos.iter().find(|x| **x >= e[j].len()) { return Some(format!("key {i} {key:?} has position {x} of {}", e[j].len())); }
            let sum = pos.iter().fold(0u32, |a, &x| a.wrapping_add(e[j][x]));
            let got = (fp.unmask_value(sum, &key, j as u64) as u64 % (1u64 << p)) as u32;
            let m = match bits { Some(b) => (1u64 << (b - j * p).min(p)) as u32 - 1, None => u32::MAX };
            if (got ^ *w) & m != 0 { return Some(format!("key {i} {key:?} has value {got} instead of {w} in column {j}")); }
        }
    }
    None
}
pub fn col_sums(db: &Db, case: &Case) -> Vec<u64> { db.columns(case).iter().map(|c| c.iter().map(|&x| x as u64).sum()).collect() }
/// All properties about decoding assume that the worst-case noise stays below half a plaintext step.
pub fn noise_guard(db: &Db, case: &Case) {
    if case.exact && col_sums(db, case).iter().any(|&s| s >= 1u64 << (31 - case.p)) { abort_run("noise budget"); }
}
pub fn gen_mode() -> Mode {
    match choose(10) {
        0..=3 => Mode::Uniform,
        4 => Mode::Word(0),
        5 => Mode::Word(I + 7),
        6 => Mode::Word(2 * I + 7),
        7 => Mode::Boundary,
        8 => Mode::Rejecting,
        _ => Mode::Period(1 + choose(7) as u8),
    }
}
pub fn node(name: &str, mode: Mode) -> Node { let s = fresh_seed(); let k = world().nodes.len() as u64; add_node(name, Entropy::new(simrt::choice::mix(s, k), mode)) }
pub fn server_node() -> Node {
    let n = node("server", Mode::Uniform);
    if chance(1, 4) { world().nodes[n].entropy.flaky = 40; }
    n
}
pub fn client_node(i: usize) -> Node {
    let m = gen_mode();
    let n = node(&format!("client{i}"), m);
    if chance(1, 4) { world().nodes[n].entropy.flaky = [4, 40][choose(2) as usize]; }
    n
}
pub fn gen_net() {
    let w = [0u32, 10, 40, 90];
    let (a, b, c) = (w[choose(4) as usize], w[choose(4) as usize], w[choose(4) as usize]);
    let q = 20_000 * choose(30) as u64;
    if chance(1, 6) { let (t, j) = (choose(300_000) as u64, [-3_600_000_000i64, 86_400_000_000, -1, 1_000_000][choose(4) as usize]); at(t, move || clock_jump(j)); }
    let n = &mut world().net;
    n.drop = a; n.dup = b; n.delay = c; n.quiet_at = q;
}
pub fn gen_preempt() { let v = choose(4) != 0; world().preempt = v; if chance(1, 5) { world().clock_jumpy = [16, 128][choose(2) as usize]; } }

/// Compares all three output forms with the stored record.
pub fn check_decode(prop: &str, props: &'static str, case: &Case, i: usize, qp: &Qp, resp: &[u8], what: &str) {
    if !case.exact { return; }
    let t = target(case, i);
    let r: Response = match de(resp, false) { Ok(r) => r, Err(e) => { fail(prop, format!("{what}/undecodable"), format!("response bytes do not deserialize: {e}")); return } };
    let (row, bytes, text) = (case.row(i), &case.recs[i], b64(&case.recs[i]));
    checked();
    let got = sut("decode_row", props, || qp.row(&r, &t));
    if flat(got.clone()).as_ref() != Ok(&row) { fail(prop, format!("{what}/row"), format!("{} target {i}: row {:?}, stored {:?}", case.describe(), short(&flat(got)), short(&row))); }
    let got = sut("decode_bytes", props, || qp.bytes(&r, &t));
    if flat(got.clone()).as_ref() != Ok(bytes) { fail(prop, format!("{what}/bytes"), format!("{} target {i}: bytes {:?}, stored {:?}", case.describe(), short(&flat(got)), short(bytes))); }
    let got = sut("decode_base64", props, || qp.base64(&r, &t));
    if flat(got.clone()).as_ref() != Ok(&text) { fail(prop, format!("{what}/base64"), format!("{} target {i}: {:?}, stored {:?}", case.describe(), short(&flat(got)), short(&text))); }
}
pub fn short<T: std::fmt::Debug>(t: &T) -> String { let s = format!("{t:?}"); if s.len() > 160 { format!("{}...", s.chars().take(160).collect::<String>()) } else { s } }
/// The reference server: matrix-vector product modulo 2^32.
pub fn reference_response(cols: &[Vec<u32>], q: &[u32]) -> Vec<u32> {
    cols.iter().map(|c| c.iter().zip(q).fold(0u32, |a, (x, y)| a.wrapping_add(x.wrapping_mul(*y)))).collect()
}

// ------------------------------------------------------------------ looking into query parameters
/// The values that query parameters add to A*s (mod 2^32), decoded with a public matrix and public parameters made
/// for the purpose: every row and column shows up to 15 secrets in base 4, and the noise of the row as lowest digit.
pub struct Diag { pub dim: usize, pub m: usize, pub p: usize, pub cp: CommonParams, pub pb: Pub }
#[derive(Clone, Debug, PartialEq)]
pub struct Trits { pub s: Vec<i8>, pub e: Vec<i8> }
fn weights(dim: usize, block: usize, base: u32) -> Vec<u32> {
    let mut v = vec![0u32; dim];
    for k in 0..15 { let i = block * 15 + k; if i < dim { v[i] = 1u32 << (2 * (k as u32 + base)); } }
    v
}
/// Balanced base-4 digits, each -1, 0 or 1.
fn digits(mut v: u32, n: usize) -> Option<Vec<i8>> {
    let mut d = vec![];
    for _ in 0..n {
        let x = match v & 3 { 0 => 0i8, 1 => 1, 3 => -1, _ => return None };
        v = ((v.wrapping_sub(x as i32 as u32)) as i32 >> 2) as u32;
        d.push(x);
    }
    if v == 0 { Some(d) } else { None }
}
impl Diag {
    pub fn rows_needed(dim: usize) -> usize { (dim + 14) / 15 }
    pub fn new(kind: Kind, dim: usize, m: usize) -> Diag { let p = [8usize, 8, 8, 1, 2, 4, 7, 9, 10, 11, 12, 13, 16, 20, 24, 31][choose(16) as usize]; Self::with_bits(kind, dim, m, p) }
    pub fn with_bits(kind: Kind, dim: usize, m: usize, p: usize) -> Diag {
        let blocks = Self::rows_needed(dim);
        assert!(m >= blocks);
        let rows: Vec<Vec<u32>> = (0..m).map(|i| weights(dim, i % blocks, 1)).collect();
        let cp: CommonParams = de(&ser(&rows, false), false).expect("common params from words");
        let rhs: Vec<Vec<u32>> = (0..blocks).map(|j| weights(dim, j, 0)).collect();
        let mut j = serde_json::json!({"dim": dim, "m": m, "public_seed": vec![7u8; 32], "rhs": rhs, "elem_size": blocks * p, "plaintext_bits": p});
        let pb = match kind {
            Kind::Index => Pub::de(kind, &serde_json::to_vec(&j).unwrap(), true),
            Kind::Kv => {
                // three segments of one slot each if there are only few rows
                let seg = if m >= 12 { 4u32 } else { 1 };
                j["filter_params"] = serde_json::json!({"seed": vec![9u8; 32], "segment_length": seg, "segment_length_mask": seg - 1, "segment_count_length": seg});
                Pub::de(kind, &serde_json::to_vec(&j).unwrap(), true)
            }
        }.expect("diagnostic parameters");
        Diag { dim, m, p, cp, pb }
    }
    /// Err if some value is not ternary or the two halves contradict each other.
    pub fn read(&self, qp: &Qp) -> Result<Trits, String> {
        let (t, n) = match qp { Qp::I(_) => (Target::Row(0), 1), Qp::K(_) => (Target::Key([1, 2, 3, 4]), 3) };
        let mut lhs = query_words(&qp.clone().query(&t).map_err(|e| format!("unused parameters yield no query: {e}"))?);
        let pos = self.pb.positions(&t);
        assert_eq!(pos.len(), n);
        for r in pos { lhs[r] = lhs[r].wrapping_sub(1 << (32 - self.p)); }
        let v: serde_json::Value = serde_json::from_slice(&qp.ser(true)).unwrap_or_default();
        let rhs: Option<Vec<u32>> = v["rhs"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as u32).collect());
        self.read_words(&lhs, rhs.as_deref())
    }
    pub fn read_words(&self, lhs: &[u32], rhs: Option<&[u32]>) -> Result<Trits, String> {
        let blocks = Self::rows_needed(self.dim);
        if lhs.len() != self.m { return Err(format!("{} masked words for {} rows", lhs.len(), self.m)); }
        let count = |b: usize| (self.dim - b * 15).min(15);
        let mut s = vec![0i8; self.dim];
        let mut e = vec![];
        for (i, &w) in lhs.iter().enumerate() {
            let b = i % blocks;
            let d = digits(w, count(b) + 1).ok_or_else(|| format!("row {i}: mask {w:#x} is not the matrix row times ternary secrets plus ternary noise"))?;
            e.push(d[0]);
            if i < blocks { s[b * 15..b * 15 + count(b)].copy_from_slice(&d[1..]); }
            else if s[b * 15..b * 15 + count(b)] != d[1..] { return Err(format!("row {i}: masked with another secret than row {b}")); }
        }
        if let Some(rhs) = rhs {
            if rhs.len() != blocks { return Err(format!("{} right-hand words for {blocks} columns", rhs.len())); }
            for b in 0..blocks {
                let d = digits(rhs[b], count(b)).ok_or_else(|| format!("column {b}: {:#x} is not made from ternary secrets", rhs[b]))?;
                if s[b * 15..b * 15 + count(b)] != d[..] { return Err(format!("column {b}: made from another secret than the query")); }
            }
        }
        Ok(Trits { s, e })
    }
}
