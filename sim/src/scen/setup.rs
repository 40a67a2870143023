//! C20: the public randomness of databases: seeds of their own, and matrices that use all of them.
use super::disturb::disturb;
use crate::common::*;
use keyword_pir_lwe::db::BaseParams;
use serde::{Deserialize, Serialize};
use simrt::entropy::{Entropy, Mode};
use simrt::*;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Serialize, Deserialize)]
struct Seed { who: String, bytes: Vec<u8> }
fn seeds_of(db: &Db, who: &str) -> Vec<Seed> {
    let mut v = vec![Seed { who: format!("public seed of {who}"), bytes: match db.params() { Pub::I(p) => p.get_public_seed().to_vec(), Pub::K(p) => p.get_public_seed().to_vec() } }];
    if let Db::K(s) = db {
        let f: serde_json::Value = serde_json::to_value(s.get_base_params().get_filter_params()).unwrap_or_default();
        if let Some(b) = f["seed"].as_array() { v.push(Seed { who: format!("filter seed of {who}"), bytes: b.iter().filter_map(|x| x.as_u64()).map(|x| x as u8).collect() }); }
    }
    v
}
/// One database; Err is a violation.
fn set_up(case: &Case, via: u32, who: &str, out: &mut Vec<Seed>) -> Result<(), (String, String)> {
    disturb(100);
    let r = sut("build", "C20", || construct(case, via));
    let drawn = last_entropy().bytes.len();
    checked();
    match r {
        Ok(Ok(db)) => {
            let s = seeds_of(&db, who);
            let need = 32 * s.len();
            if drawn < need { return Err(("too-little-entropy".into(), format!("{who} ({}): {drawn} bytes drawn from the operating system, {need} needed for its seeds", case.describe()))); }
            out.extend(s);
            Ok(())
        }
        x => abort_run(&format!("build: {:?}", flat(x).err())),
    }
}
/// How unlikely `ones` of n fair bits are, as the exponent of the Chernoff bound.
fn unlikely(ones: u64, n: u64) -> f64 {
    let (n, x) = (n as f64, ones as f64 / n as f64);
    let part = |x: f64| if x > 0.0 { x * (x / 0.5).ln() } else { 0.0 };
    n * (part(x) + part(1.0 - x))
}
fn judge(seeds: &[Seed]) -> Option<(&'static str, String)> {
    let mut seen: HashMap<u64, (usize, usize)> = HashMap::new();
    for (i, s) in seeds.iter().enumerate() {
        if s.bytes.len() != 32 { return Some(("short-seed", format!("{}: {} bytes", s.who, s.bytes.len()))); }
        for o in 0..=24 {
            let w = u64::from_le_bytes(s.bytes[o..o + 8].try_into().unwrap());
            if let Some(&(j, p)) = seen.get(&w) { return Some(("shared-seed", format!("8 bytes of the {} at {o} are those of the {} at {p}", s.who, seeds[j].who))); }
            seen.insert(w, (i, o));
        }
        for t in &seeds[..i] {
            let d: u32 = s.bytes.iter().zip(&t.bytes).map(|(a, b)| (a ^ b).count_ones()).sum();
            if unlikely(d as u64, 256) > 38.0 { return Some(("related-seeds", format!("{} and {} differ in {d} of 256 bits", s.who, t.who))); }
        }
    }
    if seeds.len() >= 120 {
        for b in 0..256 {
            let ones = seeds.iter().filter(|s| s.bytes[b / 8] >> (b % 8) & 1 == 1).count() as u64;
            if unlikely(ones, seeds.len() as u64) > 38.0 { return Some(("biased-seed", format!("bit {b} is set in {ones} of {} seeds", seeds.len()))); }
        }
        // every byte value as often as any other
        let mut count = [0u64; 256];
        for s in seeds { for b in &s.bytes { count[*b as usize] += 1; } }
        let n = 32.0 * seeds.len() as f64;
        for (v, c) in count.iter().enumerate() {
            let (x, e) = (*c as f64 / n, 1.0 / 256.0);
            let part = |x: f64, e: f64| if x > 0.0 { x * (x / e).ln() } else { 0.0 };
            if n * (part(x, e) + part(1.0 - x, 1.0 - e)) > 42.0 { return Some(("biased-seed", format!("the byte {v} stands {c} times in {} seeds", seeds.len()))); }
        }
    }
    None
}
#[derive(Serialize, Deserialize)]
struct Req { entropy: u64, count: u32 }
pub fn c20() {
    gen_preempt();
    match choose(5) { 0 | 1 => own_seeds(), 2 | 3 => structure(), _ => all_bits() }
}
/// Databases set up by threads, nodes, restarted nodes and processes.
fn own_seeds() {
    let many = chance(1, 10);
    let lim = if many { Limits { max_m: 3, max_words: 1, max_dim: 2 } } else { Limits { max_m: 16, max_words: 3, max_dim: 8 } };
    let cases: Arc<Vec<Case>> = Arc::new((0..1 + choose(3)).map(|_| gen_any(gen_kind(), lim)).collect());
    let per = if many { 60 } else { 1 + choose(5) };
    label(format!("seeds of {per} databases per builder"));
    let serve = { let cases = cases.clone(); move |req: Vec<u8>| -> Vec<u8> {
        let r: Req = de(&req, false).unwrap();
        world().nodes[cur_task().node].entropy = Entropy::uniform(r.entropy);
        let mut out = vec![];
        let mut bad = None;
        for k in 0..r.count { if let Err(e) = set_up(&cases[k as usize % cases.len()], k % 2, &format!("database {k}"), &mut out) { bad = Some(e); break; } }
        ser(&(out, bad), false)
    } };
    let serve = Arc::new(std::sync::Mutex::new(serve));
    let start = || { let s = serve.clone(); Remote::start(move |b| (s.lock().unwrap())(b)) };
    let mut remotes: Vec<(Remote, &str)> = (0..choose(3)).map(|_| (start(), "process")).collect();
    let nodes = 1 + choose(3) as usize;
    let mut seeds: Vec<Seed> = vec![];
    let mut nds = vec![];
    for i in 0..nodes {
        let nd = node(&format!("server{i}"), Mode::Uniform);
        if choose(3) == 0 { world().nodes[nd].entropy.flaky = [4, 40, 160][choose(3) as usize]; }
        nds.push(nd);
    }
    for life in 0..1 + choose(2) {
        let mut jobs: Vec<(usize, Slot<(Vec<Seed>, Option<(String, String)>)>)> = vec![];
        for (i, nd) in nds.iter().enumerate() {
            for t in 0..1 + choose(2) {
                let (s, cases): (Slot<_>, _) = (Slot::new(), cases.clone());
                let s2 = s.clone();
                let start = choose(4) as usize;
                let id = spawn(*nd, format!("builder{i}.{t}"), move || {
                    let mut out = vec![];
                    let mut bad = None;
                    for k in 0..per { if let Err(e) = set_up(&cases[(start + k as usize) % cases.len()], k % 2, &format!("database {k} of thread {t} of server {i}, life {life}"), &mut out) { bad = Some(e); break; } }
                    s2.put((out, bad));
                });
                jobs.push((id, s));
            }
        }
        join_all(&jobs.iter().map(|j| j.0).collect::<Vec<_>>());
        for (_, s) in &jobs {
            let Some((v, bad)) = s.take() else { continue };
            if let Some((c, m)) = bad { return fail("C20", c, m); }
            seeds.extend(v);
        }
        for nd in &nds { if choose(2) == 1 { crash(*nd); restart(*nd); probe("server_restarted"); } }
    }
    for _ in 0..choose(2) { remotes.push((start(), "process forked later")); }
    let base = fresh_seed();
    for (i, (r, what)) in remotes.iter_mut().enumerate() {
        let Some(b) = r.call(&ser(&Req { entropy: simrt::choice::mix(base, 77 + i as u64), count: per }, false)) else { abort_run("other process died") };
        let (v, bad): (Vec<Seed>, Option<(String, String)>) = de(&b, false).unwrap();
        if let Some((c, m)) = bad { return fail("C20", c, m); }
        seeds.extend(v.into_iter().map(|s| Seed { who: format!("{} of {what} {i}", s.who), ..s }));
    }
    checked();
    stat("seeds_compared", seeds.len() as u64);
    if let Some((c, m)) = judge(&seeds) { fail("C20", c, m); }
}
fn parameters(kind: Kind, dim: usize, m: usize, seed: &[u8; 32]) -> Pub {
    let mut j = serde_json::json!({"dim": dim, "m": m, "public_seed": seed.to_vec(), "rhs": [], "elem_size": 8, "plaintext_bits": 8});
    if kind == Kind::Kv { j["filter_params"] = serde_json::json!({"seed": vec![9u8; 32], "segment_length": 4, "segment_length_mask": 3, "segment_count_length": 4}); }
    Pub::de(kind, &serde_json::to_vec(&j).unwrap(), true).expect("parameters")
}
fn matrix(kind: Kind, dim: usize, m: usize, seed: &[u8; 32]) -> Vec<Vec<u32>> {
    let pb = parameters(kind, dim, m, seed);
    match sut("common_params", "C20", || pb.common()) { Ok(c) => de(&ser(&c, false), false).expect("matrix"), Err(p) => fail_op("C20", "abort", format!("deriving a {m} x {dim} matrix panicked: {p}")) }
}
fn any_seed(rng: &mut Rng) -> [u8; 32] {
    let mut s = [0u8; 32];
    match choose(8) { 0 => {} 1 => s = [255; 32], 2 => s[rng.below(32) as usize] = 1 << rng.below(8), 3 => s[24..].copy_from_slice(&rng.next().to_le_bytes()), 4 => s[..8].copy_from_slice(&rng.next().to_le_bytes()), _ => rng.fill(&mut s) }
    s
}
/// Stretches of three words that occur twice (also as differences, and up to the sign), in rows or in columns.
fn repeats(name: &str, words: &[u32], pool: &mut Vec<(u128, u32)>, tag: u32) -> Option<String> {
    let _ = name;
    let pack = |a: u32, b: u32, c: u32, k: u128| (k << 96) | (a as u128) << 64 | (b as u128) << 32 | c as u128;
    for w in words.windows(3) {
        let n: Vec<u32> = w.iter().map(|x| x.wrapping_neg()).collect();
        let c = if n.as_slice() < w { &n[..] } else { w };
        pool.push((pack(c[0], c[1], c[2], 0), tag));
        let n: Vec<u32> = w.iter().map(|x| !x).collect();
        let c = if n.as_slice() < w { &n[..] } else { w };
        pool.push((pack(c[0], c[1], c[2], 1), tag));
    }
    for w in words.windows(4) {
        pool.push((pack(w[1].wrapping_sub(w[0]), w[2].wrapping_sub(w[1]), w[3].wrapping_sub(w[2]), 2), tag));
        pool.push((pack(w[1] ^ w[0], w[2] ^ w[1], w[3] ^ w[2], 3), tag));
    }
    None
}
fn twice(pool: &mut Vec<(u128, u32)>) -> Option<(u32, u32, u32)> {
    pool.sort_unstable();
    pool.windows(2).find(|w| w[0].0 == w[1].0).map(|w| ((w[0].0 >> 96) as u32, w[0].1, w[1].1))
}
const HOW: [&str; 4] = ["the same words (or their negation)", "the same words (or their complement)", "the same differences", "the same xor differences"];
/// The words of a matrix, whatever its shape, look independent and uniform.
fn structure() {
    let kind = gen_kind();
    let mut rng = fresh_rng();
    let dim = [1usize, 2, 3, 5, 16, 64, 100, 256, 257, 512, 1024, 1100, 2048, 4100, 8200, 20_000][choose(16) as usize];
    let top = if crate::runner::thorough() { 1_500_000 } else if dim <= 2 { 270_000 } else { 60_000 };
    let m = [1usize, 3, 16, 33, 64, 129, 260, 300, 520, 1030, 2100, 4200, 17_000, 66_000, 132_000][choose(15) as usize].min((top / dim).max(4));
    label(format!("{kind:?} matrix of {m} rows, dim {dim}"));
    let seed = any_seed(&mut rng);
    let nd = node("client", Mode::Uniform);
    on_node(nd, "client", move || {
        let a = matrix(kind, dim, m, &seed);
        checked();
        if a.len() != m || a.iter().any(|r| r.len() != dim) { return fail("C20", "matrix-shape", format!("{} rows instead of {m} of dim {dim}", a.len())); }
        let info = format!("{kind:?}, {m} rows, dim {dim}, seed {seed:02x?}");
        let flat: Vec<u32> = a.iter().flatten().cloned().collect();
        let mut pool = vec![];
        repeats("rows", &flat, &mut pool, 0);
        if dim > 1 { let cols: Vec<u32> = (0..dim).flat_map(|k| a.iter().map(move |r| r[k])).collect(); if m > 1 { repeats("columns", &cols, &mut pool, 1); } }
        if let Some((k, x, y)) = twice(&mut pool) { return fail("C20", "matrix-repeats", format!("{info}: {} occur twice ({} and {})", HOW[k as usize], ["in a row", "in a column"][x as usize], ["in a row", "in a column"][y as usize])); }
        stat("matrix_words", flat.len() as u64);
        let n = flat.len() as u64;
        if n >= 120 {
            for b in 0..32 { let ones = flat.iter().filter(|x| **x >> b & 1 == 1).count() as u64; if unlikely(ones, n) > 38.0 { return fail("C20", "matrix-biased", format!("{info}: bit {b} is set in {ones} of {n} words")); } }
            let mut s = flat.clone();
            s.sort_unstable();
            let equal = s.windows(2).filter(|w| w[0] == w[1]).count() as f64;
            let mean = (n as f64) * (n as f64) / 2.0 / 4294967296.0;
            if equal > mean + 10.0 * mean.sqrt() + 12.0 { return fail("C20", "matrix-biased", format!("{info}: {equal} words of {n} repeat others, about {mean:.1} expected")); }
        }
        for (what, step, len) in [("column", dim, m), ("row", 1, dim)] {
            if len < 120 { continue; }
            let count = if what == "column" { dim } else { m };
            for k in 0..count.min(40) {
                let start = if what == "column" { k } else { (k * (m / count.min(40)).max(1)) * dim };
                for b in 0..32 {
                    let ones = (0..len).filter(|i| flat[start + i * step] >> b & 1 == 1).count() as u64;
                    if unlikely(ones, len as u64) > 38.0 { return fail("C20", "matrix-biased", format!("{info}: bit {b} is set in {ones} of {len} words of {what} {k}")); }
                }
            }
        }
    });
}
/// Every bit of the seed, and nothing but the seed, decides about the whole matrix.
fn all_bits() {
    let kind = gen_kind();
    let mut rng = fresh_rng();
    let (dim, m) = [(8usize, 4usize), (1, 24), (40, 1), (3, 16), (64, 8), (16, 40)][choose(6) as usize];
    let count = if choose(4) == 3 { 257 } else { 40 };
    label(format!("{kind:?}: {count} seeds, {m} rows, dim {dim}"));
    let base = any_seed(&mut rng);
    let mut seeds = vec![base];
    if count == 257 { for b in 0..256 { let mut s = base; s[b / 8] ^= 1 << (b % 8); seeds.push(s); } } else {
        while seeds.len() < count {
            let mut s = if choose(2) == 0 { base } else { seeds[choose(seeds.len() as u32) as usize] };
            match choose(6) {
                0 => { let k = choose(32) as usize; s[k] ^= 1 << choose(8); }
                1 => { let (i, j) = (choose(32) as usize, choose(32) as usize); s.swap(i, j); }
                2 => { let (i, j, x) = (choose(32) as usize, choose(32) as usize, 1 + choose(255) as u8); s[i] ^= x; s[j] ^= x; }
                3 => s.rotate_left(1 + choose(31) as usize),
                4 => { let k = 8 * choose(4) as usize; rng.fill(&mut s[k..k + 8]); }
                _ => { let (i, j) = (choose(32) as usize, choose(32) as usize); s[i] = s[i].wrapping_add(1); s[j] = s[j].wrapping_sub(1); }
            }
            if !seeds.contains(&s) { seeds.push(s); }
        }
    }
    let nodes: Vec<Node> = (0..2).map(|i| node(&format!("client{i}"), Mode::Uniform)).collect();
    let seeds = Arc::new(seeds);
    let mut results: Vec<Option<Vec<Vec<u32>>>> = vec![None; seeds.len()];
    for (t, nd) in nodes.iter().enumerate() {
        let s = seeds.clone();
        let Some(v) = on_node(*nd, "client", move || (0..s.len()).filter(|i| i % 2 == t).map(|i| (i, matrix(kind, dim, m, &s[i]))).collect::<Vec<_>>()) else { return };
        for (i, a) in v { results[i] = Some(a); }
    }
    let mut pool = vec![];
    checked();
    stat("seeds_expanded", seeds.len() as u64);
    for (i, r) in results.iter().enumerate() { repeats("", &r.as_ref().unwrap().concat(), &mut pool, i as u32); }
    if let Some((k, x, y)) = twice(&mut pool) { return fail("C20", "seeds-share-matrix", format!("{kind:?}, {m} rows, dim {dim}: {} occur in the matrices of seed {:02x?} and seed {:02x?}", HOW[k as usize], seeds[x as usize], seeds[y as usize])); }
    // word by word against the first one
    let first = results[0].as_ref().unwrap().concat();
    for (i, r) in results.iter().enumerate().skip(1) {
        let r = r.as_ref().unwrap().concat();
        let same = first.iter().zip(&r).filter(|(a, b)| a == b).count();
        if same >= 3 { return fail("C20", "seeds-share-matrix", format!("{kind:?}, {m} rows, dim {dim}: {same} of {} words are the same for seed {:02x?} and seed {:02x?}", first.len(), base, seeds[i])); }
    }
}
