//! C12-C15: building and asking filters.
#![allow(deprecated)]
use super::disturb::disturb;
use crate::common::*;
use keyword_pir_lwe::api::KVShard;
use serde::{de::DeserializeOwned, Serialize};
use simrt::choice::Rng;
use simrt::entropy::{Entropy, Mode};
use simrt::remote::Remote;
use simrt::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::Hasher;
use std::sync::Arc;
use xorf::*;

// ------------------------------------------------------------------ C12
fn seed_of(style: u32, rng: &mut Rng, k: u64) -> [u8; 32] {
    let mut s = [0u8; 32];
    match style {
        0 => rng.fill(&mut s),
        1 => s[..8].copy_from_slice(&k.to_le_bytes()),
        2 => s[24..].copy_from_slice(&k.to_le_bytes()),
        _ => { s.fill(0xff); s[8..16].copy_from_slice(&k.to_le_bytes()); }
    }
    s
}
pub fn c12() {
    gen_preempt();
    let small = choose(4) != 3;
    let mut case = gen_any(Kind::Kv, if small { Limits { max_m: [8, 4, 2, 17, 33][choose(5) as usize], max_words: 6, max_dim: 8 } } else if chance(1, 40) { Limits { max_m: 400, max_words: 16, max_dim: 8 } } else { Limits { max_m: 100, max_words: 12, max_dim: 8 } });
    if small && case.m == 1 && choose(2) == 1 { case = gen_any(Kind::Kv, Limits { max_m: 3, max_words: 3, max_dim: 4 }); }
    label(case.describe());
    trace(|| case.describe());
    let keys: Vec<[u64; 4]> = case.keys.iter().map(key_of).collect();
    let col: Vec<u32> = (0..case.m).map(|i| case.row(i)[0]).collect();
    // seeds with which these keys cannot be placed
    let want = match choose(6) { 0 => 1, 1 => 2 + choose(3) as usize, 2 => 8, 3 => 20, 4 => 60, _ => if chance(1, 8) { 400 } else { 30 } };
    let (style, mut rng) = (choose(4), fresh_rng());
    let search = node("search", Mode::Uniform);
    let (k2, p) = (keys.clone(), case.p);
    let bad = on_node(search, "search", move || {
        world().preempt = false;
        let mut bad = vec![];
        let mut tries = 0u64;
        let budget = 40 + 12_000 / (k2.len() as u64 + 4);
        while bad.len() < want && tries < budget {
            let s = seed_of(style, &mut rng, tries);
            tries += 1;
            if !matches!(sut("from_slice", "C12", || BinaryFuseP32::from_slice(s, &k2, &col, 0, 1 << p).is_ok()), Ok(true)) { bad.push(s); }
        }
        stat("seeds_searched", tries);
        bad
    }).unwrap_or_default();
    gen_preempt();
    stat("failing_seeds_scripted", bad.len() as u64);
    if !bad.is_empty() { fault("unlucky_entropy"); }
    if bad.len() >= 20 { probe("twenty_failing_seeds_or_more"); }
    let case = Arc::new(case);
    let builders = 1 + (choose(4) == 3) as usize;
    let ids: Vec<usize> = (0..builders).map(|b| {
        let nd = node(&format!("server{b}"), Mode::Uniform);
        let e = &mut world().nodes[nd].entropy;
        // other callers on the node may draw first: the seeds then arrive later or shifted
        if chance(1, 6) { let k = choose(33); let mut r = fresh_rng(); for _ in 0..k { e.script.push_back(r.byte()); } }
        for s in &bad { e.script.extend(s.iter()); }
        if chance(1, 4) { e.flaky = 20; }
        let (case, nbad) = (case.clone(), bad.len());
        let via = choose(2);
        spawn(nd, format!("builder{b}"), move || {
            let script = std::mem::take(&mut world().nodes[nd].entropy.script);
            disturb(8);
            world().nodes[nd].entropy.script = script;
            let r = sut("build", "C12", || construct(&case, via));
            checked();
            let info = format!("{} ({nbad} seeds in a row do not work for these keys)", case.describe());
            let db = match r {
                Ok(Ok(Db::K(s))) => s,
                x => return fail("C12", "build-failed", format!("{info}: {}", short(&flat(x).map(|_| ())))),
            };
            let pairs = case.keys.iter().enumerate().map(|(i, k)| (key_of(k), case.row(i)));
            match sut("look_up", "C12", || kv_wrong(&db, case.p, None, pairs)) {
                Ok(None) => probe("every_key_served"),
                Ok(Some(w)) => return fail("C12", "key-not-served", format!("{info}: {w}")),
                Err(p) => return fail("C12", "key-not-served", format!("{info}: looking up panicked: {p}")),
            }
            let db = Db::K(db);
            if col_sums(&db, &case).iter().any(|&s| s >= 1u64 << (31 - case.p)) { return; }
            let pb = db.params();
            let done = sut("retrieve", "C12", || -> Res<(usize, Qp, Vec<u8>)> {
                let cp = pb.common();
                let i = choose(case.m as u32) as usize;
                let mut qp = pb.query_params(&cp)?;
                let q = qp.query(&target(&case, i))?;
                Ok((i, qp, db.respond(&q)?))
            });
            match done { Ok(Ok((i, qp, r))) => check_decode("C12", "C12", &case, i, &qp, &r, "key-not-served"), x => fail("C12", "key-not-served", format!("{info}: {}", short(&flat(x).map(|_| ())))) }
        })
    }).collect();
    join_all(&ids);
}

// ------------------------------------------------------------------ C13
const MODULI: [u64; 24] = [1024, 256, 257, 258, 255 + 2, 300, 511, 512, 513, 1000, 1023, 1025, 4096, 65535, 65536, 65537, 1_000_003, 1 << 24, (1 << 30) - 1, 1 << 30, (1 << 31) - 1, 1 << 31, 3_000_000, 0x5555_5555];
/// Keys that land in few slots under the given seed and segments.
fn crowd(rng: &mut Rng, seed: [u8; 32], n: usize, crowd: usize, seg: (u32, u32, u32), which: usize) -> Vec<[u64; 4]> {
    let mut v: Vec<[u64; 4]> = vec![];
    let mut at = None;
    let mut tries = 0;
    while v.len() < crowd && tries < 60_000 {
        tries += 1;
        let k = [rng.next(), rng.next(), rng.next(), rng.next()];
        let pos = BinaryFuseP32::hash_eval(&k, seed, seg.0, seg.1, seg.2);
        let x = pos[which % pos.len()];
        if *at.get_or_insert(x) == x { v.push(k); }
    }
    while v.len() < n { v.push([rng.next(), rng.next(), rng.next(), rng.next()]); }
    v
}
/// Two values of the first word after which the all-zero seed gives the same hash, whatever the other words are.
const COLLIDING: [u64; 2] = [0x2587_1c34_794f_8562, 0x2faa_11bb_5913_fff6];
fn keys256(n: usize, style: u32, rng: &mut Rng, seed: [u8; 32]) -> Vec<[u64; 4]> {
    let mut v: Vec<[u64; 4]> = match style {
        0 => (0..n).map(|_| [rng.next(), rng.next(), rng.next(), rng.next()]).collect(),
        1 | 2 => gen_keys(n, rng).iter().map(key_of).collect(),
        3 => (0..n).map(|_| [rng.next(); 4]).collect(),
        4 | 5 => {
            let n = n.max(70);
            let data = vec![0u32; n];
            let probe_keys: Vec<[u64; 4]> = (0..n).map(|_| [rng.next(), rng.next(), rng.next(), rng.next()]).collect();
            let Some(f) = (0..20u8).find_map(|s| sut("from_slice", "", || BinaryFuseP32::from_slice([s; 32], &probe_keys, &data, 0, 1024)).ok()?.ok()) else { return probe_keys };
            let c = [2, 3, 5, 20, 62, 63, 64, 65, 66, 70, n][choose(11) as usize].min(n);
            probe("crowded_slot");
            crowd(rng, seed, n, c, (f.segment_length, f.segment_length_mask, f.segment_count_length), choose(3) as usize)
        }
        _ => {
            let mut v: Vec<[u64; 4]> = vec![[0; 4], [u64::MAX; 4], [0, 0, 0, 1], [1, 0, 0, 0]];
            let (a, b, c) = (rng.next(), rng.next(), rng.next());
            if choose(4) != 3 { v.push([COLLIDING[0], a, b, c]); v.push([COLLIDING[1], a, b, c]); }
            v.truncate(n.max(6));
            while v.len() < n { v.push([rng.next(), rng.next(), rng.next(), rng.next()]); }
            v
        }
    };
    let mut seen = HashSet::new();
    v.retain(|k| seen.insert(*k));
    v
}
#[derive(Clone)]
struct ModP { seed: [u8; 32], keys: Arc<Vec<[u64; 4]>>, p: u64 }
fn check_modp(f: &BinaryFuseP32, b: &ModP, data: &[u32], lab: u64, what: &str) -> bool {
    let info = || format!("{what} of {} keys, modulus {}, label {lab:#x}, seed {:02x?}...", b.keys.len(), b.p, &b.seed[..4]);
    let r = sut("lookup", "C13", || -> Option<(&'static str, String)> {
        let e = f.get_fingerprints_mod();
        if e.len() != Filter::<u64>::len(f) || e.len() != f.fingerprints.len() { return Some(("published-entries", format!("{} published entries of {}", e.len(), Filter::<u64>::len(f)))); }
        if let Some(x) = e.iter().find(|x| **x as u64 >= b.p) { return Some(("published-entries", format!("published entry {x}"))); }
        for (k, v) in b.keys.iter().zip(data) {
            let want = (*v as u64 % b.p) as u32;
            let got = f.retrieve(k, lab);
            if got != want { return Some(("lookup", format!("key {k:?} gives {got} instead of {want}"))); }
            let pos = BinaryFuseP32::hash_eval(k, b.seed, f.segment_length, f.segment_length_mask, f.segment_count_length);
            if pos.len() != 3 { return Some(("positions", format!("key {k:?} has positions {pos:?}"))); }
            if pos.iter().any(|x| *x >= e.len()) || pos[0] == pos[1] || pos[1] == pos[2] || pos[0] == pos[2] { return Some(("positions", format!("key {k:?} has positions {pos:?} of {}", e.len()))); }
            let sum = pos.iter().map(|x| e[*x] as u128).sum::<u128>() + BinaryFuseP32::get_key_fingerprint(k, b.seed, lab) as u128;
            let got = (sum % b.p as u128) as u32;
            if got != want { return Some(("published-sum", format!("key {k:?}: the published entries and the mask give {got} instead of {want}"))); }
        }
        None
    });
    checked();
    match r {
        Ok(None) => true,
        Ok(Some((c, m))) => { fail("C13", c, format!("{}: {m}", info())); false }
        Err(p) => { fail("C13", "abort", format!("{}: looking up panicked: {p}", info())); false }
    }
}
fn build_modp(b: &ModP, data: &[u32], lab: u64, via: u32) -> Result<Option<BinaryFuseP32>, String> {
    sut("build", "C13", || if via == 0 { BinaryFuseP32::from_slice(b.seed, &b.keys, data, lab, b.p).ok() } else { BinaryFuseP32::from_vec(b.seed, b.keys.to_vec(), data, lab, b.p).ok() })
}
pub fn c13() {
    gen_preempt();
    let p = if choose(4) == 3 { let r = fresh_seed(); 256 + (r * 3) % ((1 << 31) - 255) } else { MODULI[choose(24) as usize] };
    let vast = chance(1, 1500);
    let big = vast || chance(1, 150);
    let n = if vast { probe("vast_filter"); [66_000usize, 70_000, 131_500, if crate::runner::thorough() { 1_000_000 } else { 140_000 }][choose(4) as usize] } else if big { [2000usize, 5000, 20_000][choose(3) as usize] } else { [3usize, 0, 1, 2, 4, 5, 8, 10, 16, 30, 50, 64, 65, 100, 150, 250][choose(16) as usize] };
    let mut rng = fresh_rng();
    let style = choose(7);
    let zero = style == 6 || choose(8) == 7;
    let seed = if zero && choose(3) != 2 { [0u8; 32] } else { match choose(6) { 5 => [0xff; 32], 4 => { let s = choose(4); seed_of(s, &mut rng, 1) } _ => seed_of(0, &mut rng, 0) } };
    let b = ModP { seed, keys: Arc::new(keys256(n, style, &mut rng, seed)), p };
    let n = b.keys.len();
    label(format!("{n} keys of style {style}, modulus {p}, seed {:02x?}...", &seed[..4]));
    trace(|| format!("{n} keys of style {style}, modulus {p}"));
    let builders = if vast { 1 } else { 1 + choose(3) as usize };
    let same_values = choose(4) == 3;
    let ids: Vec<usize> = (0..builders).map(|t| {
        let m = gen_mode();
        let nd = node(&format!("builder{t}"), m);
        if chance(1, 4) { world().nodes[nd].entropy.flaky = 40; }
        let mut b = b.clone();
        let mut rng = fresh_rng();
        spawn(nd, format!("builder{t}"), move || {
            let mut segs: BTreeMap<[u8; 32], (u32, u32, u32)> = BTreeMap::new();
            let rounds = if vast { 1 } else if n > 1000 { 2 } else { 1 + choose(4) };
            for round in 0..rounds {
                let data: Vec<u32> = (0..n).map(|i| match choose_style(&mut rng) { 0 => rng.next() as u32, 1 => rng.below(b.p) as u32, 2 => (b.p - 1) as u32, 3 => 0, 4 => u32::MAX, _ => i as u32 }).collect();
                let data = if same_values { vec![7; n] } else { data };
                let lab = match choose(6) { 0 => round as u64, 1 => 0, 2 => u64::MAX, 3 => 1 << 63, 4 => rng.next(), _ => 1 };
                disturb(12);
                let mut got = None;
                for attempt in 0..12u64 {
                    let r = build_modp(&b, &data, lab, choose(2));
                    checked();
                    match r {
                        Err(e) => return fail("C13", "abort", format!("building from {n} keys of style {style} with modulus {} and seed {:02x?}... panicked: {e}", b.p, &b.seed[..4])),
                        Ok(Some(f)) => { got = Some(f); break; }
                        Ok(None) => { probe("seed_does_not_work"); b.seed = seed_of(0, &mut rng, attempt); }
                    }
                }
                let Some(f) = got else { probe("no_seed_worked"); continue };
                probe("built");
                let s = (f.segment_length, f.segment_length_mask, f.segment_count_length);
                if *segs.entry(b.seed).or_insert(s) != s { return fail("C13", "positions-differ", format!("{n} keys, modulus {}: filters from the same keys and seed have segments {:?} and {s:?}", b.p, segs[&b.seed])); }
                if !check_modp(&f, &b, &data, lab, "a filter") { return; }
                if n < 300 || choose(2) == 1 {
                    let json = choose(2) == 1;
                    let c: Res<BinaryFuseP32> = sut("copy", "C13", || de(&ser(&f, json), json)).unwrap_or_else(Err);
                    match c { Ok(c) => if !check_modp(&c, &b, &data, lab, "a restored filter") { return; }, Err(e) => return fail("C13", "copy", format!("restoring the filter failed: {e}")) }
                    if !check_modp(&f.clone(), &b, &data, lab, "a cloned filter") { return; }
                }
            }
        })
    }).collect();
    join_all(&ids);
}
fn choose_style(r: &mut Rng) -> u64 { let x = r.below(12); if x > 5 { 0 } else { x } }

// ------------------------------------------------------------------ membership filters
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fam { X8, X16, X32, B8, B16, B32, F8, F16, F32, S8, S16, S32, I8, I16, I32 }
use Fam::*;
const FAMS: [Fam; 15] = [X8, B8, F8, X16, B16, F16, X32, B32, F32, S8, S16, S32, I8, I16, I32];
impl Fam {
    fn bits(self) -> u32 { match self { X8 | B8 | F8 | S8 | I8 => 8, X16 | B16 | F16 | S16 | I16 => 16, _ => 32 } }
    fn fallible(self) -> bool { matches!(self, B8 | B16 | B32 | F8 | F16 | F32) }
    fn fuse(self) -> bool { matches!(self, F8 | F16 | F32) }
}
/// A hasher that passes 64-bit keys through.
#[derive(Default)]
struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut a = [0u8; 8]; a[..c.len()].copy_from_slice(c); self.0 ^= u64::from_le_bytes(a); } }
}
trait Mf: Send + Sync { fn has(&self, k: u64) -> bool; fn size(&self) -> usize; fn bytes(&self, json: bool) -> Vec<u8>; }
struct Plain<F>(F);
impl<F: Filter<u64> + Serialize + Send + Sync> Mf for Plain<F> {
    fn has(&self, k: u64) -> bool { self.0.contains(&k) }
    fn size(&self) -> usize { self.0.len() }
    fn bytes(&self, json: bool) -> Vec<u8> { ser(&self.0, json) }
}
fn text(k: u64) -> String { match k % 3 { 0 => format!("{k}"), 1 => format!("{k:x}"), _ => format!("k\u{e9}y {k:b}") } }
struct Text<F: Filter<u64>>(HashProxy<String, DefaultHasher, F>);
impl<F: Filter<u64> + Serialize + Send + Sync> Mf for Text<F> {
    fn has(&self, k: u64) -> bool { self.0.contains(&text(k)) }
    fn size(&self) -> usize { self.0.len() }
    fn bytes(&self, json: bool) -> Vec<u8> { ser(&self.0, json) }
}
struct Word<F: Filter<u64>>(HashProxy<u64, Ident, F>);
impl<F: Filter<u64> + Serialize + Send + Sync> Mf for Word<F> {
    fn has(&self, k: u64) -> bool { self.0.contains(&k) }
    fn size(&self) -> usize { self.0.len() }
    fn bytes(&self, json: bool) -> Vec<u8> { ser(&self.0, json) }
}
type Built = Res<Box<dyn Mf>>;
fn from<F>(k: &[u64], via: u32) -> Built where for<'a> F: From<&'a [u64]> + From<&'a Vec<u64>> + From<Vec<u64>> + Filter<u64> + Serialize + Send + Sync + 'static {
    Ok(Box::new(Plain(match via { 0 => F::from(k), 1 => F::from(&k.to_vec()), _ => F::from(k.to_vec()) })))
}
fn try_from<F>(k: &[u64], via: u32) -> Built where for<'a> F: TryFrom<&'a [u64], Error = &'static str> + TryFrom<&'a Vec<u64>, Error = &'static str> + TryFrom<Vec<u64>, Error = &'static str> + Filter<u64> + Serialize + Send + Sync + 'static {
    let f = match via { 0 => F::try_from(k), 1 => F::try_from(&k.to_vec()), _ => F::try_from(k.to_vec()) };
    f.map(|f| Box::new(Plain(f)) as Box<dyn Mf>).map_err(|e| e.to_string())
}
fn texts<F: From<Vec<u64>> + Filter<u64> + Serialize + Send + Sync + 'static>(k: &[u64], via: u32) -> Built {
    let t: Vec<String> = k.iter().map(|k| text(*k)).collect();
    Ok(Box::new(Text::<F>(if via == 0 { HashProxy::from(&t[..]) } else { HashProxy::from(&t) })))
}
fn words<F: From<Vec<u64>> + Filter<u64> + Serialize + Send + Sync + 'static>(k: &[u64], via: u32) -> Built {
    Ok(Box::new(Word::<F>(if via == 0 { HashProxy::from(k) } else { HashProxy::from(&k.to_vec()) })))
}
/// A filter of any family from any keys, built, asked and dropped.
pub fn other_filter() {
    let mut rng = fresh_rng();
    if choose(5) == 0 {
        let n = [5usize, 0, 1, 2, 3, 9, 40][choose(7) as usize];
        let keys: Vec<[u64; 4]> = (0..n).map(|i| [rng.next(), i as u64, rng.next(), rng.next()]).collect();
        let mut data: Vec<u32> = (0..n).map(|_| rng.next() as u32).collect();
        let bad = choose(3);
        let keys = if bad == 1 && n > 0 { let mut k = keys; let x = k[0]; k.push(x); data.push(1); k } else { keys };
        let seed = seed_of(choose(4), &mut rng, 3);
        let _ = sut("build", "", || BinaryFuseP32::from_vec(seed, keys.clone(), &data, 3, 1024).map(|f| keys.first().map(|k| f.retrieve(k, 3))).is_ok());
        return;
    }
    let fam = FAMS[choose(15) as usize];
    let n = if fam.fuse() { [95usize, 10, 92][choose(3) as usize] } else { [10usize, 0, 1, 2, 33, 120][choose(6) as usize] };
    let keys = keys64(n, if fam.fuse() { 10 } else { choose(6) }, &mut rng);
    let (via, json) = (choose(3), choose(2) == 1);
    let _ = sut("build", "", || build(fam, &keys, via).and_then(|f| restore(fam, &f.bytes(json), json)).map(|f| f.has(7)).is_ok());
}
fn build(f: Fam, k: &[u64], via: u32) -> Built {
    match f {
        X8 => from::<Xor8>(k, via), X16 => from::<Xor16>(k, via), X32 => from::<Xor32>(k, via),
        B8 => try_from::<BinaryFuse8>(k, via), B16 => try_from::<BinaryFuse16>(k, via), B32 => try_from::<BinaryFuse32>(k, via),
        F8 => try_from::<Fuse8>(k, via), F16 => try_from::<Fuse16>(k, via), F32 => try_from::<Fuse32>(k, via),
        S8 => texts::<Xor8>(k, via), S16 => texts::<Xor16>(k, via), S32 => texts::<Xor32>(k, via),
        I8 => words::<Xor8>(k, via), I16 => words::<Xor16>(k, via), I32 => words::<Xor32>(k, via),
    }
}
fn plain<F: DeserializeOwned + Filter<u64> + Serialize + Send + Sync + 'static>(b: &[u8], json: bool) -> Built { Ok(Box::new(Plain(de::<F>(b, json)?))) }
fn restore(f: Fam, b: &[u8], json: bool) -> Built {
    fn t<F: DeserializeOwned + Filter<u64> + Serialize + Send + Sync + 'static>(b: &[u8], json: bool) -> Built { Ok(Box::new(Text::<F>(de(b, json)?))) }
    fn w<F: DeserializeOwned + Filter<u64> + Serialize + Send + Sync + 'static>(b: &[u8], json: bool) -> Built { Ok(Box::new(Word::<F>(de(b, json)?))) }
    match f {
        X8 => plain::<Xor8>(b, json), X16 => plain::<Xor16>(b, json), X32 => plain::<Xor32>(b, json),
        B8 => plain::<BinaryFuse8>(b, json), B16 => plain::<BinaryFuse16>(b, json), B32 => plain::<BinaryFuse32>(b, json),
        F8 => plain::<Fuse8>(b, json), F16 => plain::<Fuse16>(b, json), F32 => plain::<Fuse32>(b, json),
        S8 => t::<Xor8>(b, json), S16 => t::<Xor16>(b, json), S32 => t::<Xor32>(b, json),
        I8 => w::<Xor8>(b, json), I16 => w::<Xor16>(b, json), I32 => w::<Xor32>(b, json),
    }
}
fn unshift(mut x: u64, s: u32) -> u64 { let y = x; for _ in 0..3 { x = y ^ (x >> s); } x }
fn inverse(a: u64) -> u64 { let mut x = a; for _ in 0..6 { x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x))); } x }
/// The key that hashes to h under a seed (murmur's finaliser is a bijection).
fn key_with_hash(h: u64, seed: u64) -> u64 {
    let mut k = unshift(h, 33);
    k = k.wrapping_mul(inverse(0xc4ce_b9fe_1a85_ec53));
    k = unshift(k, 33);
    k = k.wrapping_mul(inverse(0xff51_afd7_ed55_8ccd));
    unshift(k, 33).wrapping_sub(seed)
}
fn first_seed() -> u64 {
    let r = sut("first_seed", "", || Xor8::from(&[1u64][..]));
    r.ok().and_then(|f| serde_json::to_value(f).ok()).and_then(|v| v["seed"].as_u64()).unwrap_or(0)
}
/// n distinct keys; also some that are no members.
fn keys64(n: usize, style: u32, rng: &mut Rng) -> Vec<u64> {
    let mut v: Vec<u64> = match style {
        0 => (0..n).map(|_| rng.next()).collect(),
        1 => (0..n as u64).collect(),
        2 => (0..n as u64).map(|i| i << 32).collect(),
        3 => (0..n as u64).map(|i| u64::MAX - i).collect(),
        4 => { let s = rng.below(40); let o = rng.next(); (0..n as u64).map(|i| (i << s).wrapping_add(o)).collect() }
        5 => (0..n as u64).map(|i| i.wrapping_mul(0x9e37_79b9_7f4a_7c15)).collect(),
        6 | 7 => { // groups that share all three slots (or most of them) under the first seed
            let s = first_seed();
            let mask: u64 = if style == 6 { 0x000f_ffff_0000_0000 << 4 } else { 0xff80_0ff0_0000_0000 };
            let mut v = vec![];
            let group = [2u64, 3, 10, 62, 63, 64, 65, 66, 100, 127, 128, 200, n as u64][choose(13) as usize].max(2);
            while v.len() < n {
                let base = rng.next() & !mask;
                for i in 0..group { // spread the counter over the free bits
                    let (mut m, mut h, mut c) = (mask, base, i);
                    while c != 0 && m != 0 { let low = m & m.wrapping_neg(); if c & 1 == 1 { h |= low; } c >>= 1; m ^= low; }
                    if v.len() < n { v.push(key_with_hash(h, s)); }
                }
                let others = n / 2;
                if v.len() < others { for _ in 0..group { v.push(rng.next()); } }
            }
            v.truncate(n);
            v
        }
        8 => { // extreme hashes under the first seed
            let s = first_seed();
            let mut v: Vec<u64> = [0u64, u64::MAX, 1, 1 << 63, 0xffff_ffff, 0xffff_ffff_0000_0000, 0x8000_0000].iter().map(|h| key_with_hash(*h, s)).chain([0, u64::MAX, 1]).take(n).collect();
            if choose(2) == 1 { let mut r = 0; while v.len() < n { v.push(key_with_hash(r, s)); r += 1; } }
            while v.len() < n { v.push(rng.next()); }
            v
        }
        10 => { // spread so that even small fuse filters can be built: no two keys share their first slot under the first seed
            let (s, l) = (first_seed(), ((n as f64 / 0.879) as u64 / 102).max(1));
            let skip = rng.below(2) * (100 * l).saturating_sub(n as u64);
            // a few hashes at the ends of the range, or with a fingerprint of nothing or all ones
            let extreme: Vec<u64> = if choose(3) == 0 { (0..1 + choose(3)).map(|_| { let x = rng.next() as u32 as u64; [0, u64::MAX, 1, 1 << 63, x << 32 | x, x << 32 | !x & 0xffff_ffff, 0xffff_ffff, 0xffff_ffff_0000_0000][choose(8) as usize] }).collect() } else { vec![] };
            (0..n as u64).map(|i| {
                if let Some(h) = extreme.get(i as usize) { return key_with_hash(*h, s); }
                let c = (i + skip) % (100 * l);
                let (seg, off) = (c / l, c % l);
                let low = (((2 * seg + 1) << 32) / 200) & 0xffff_f800 | ((2 * off + 1) << 11) / (2 * l);
                key_with_hash(rng.next() << 32 | low, s)
            }).collect()
        }
        _ => { let o = rng.next() >> 20; (0..n as u64).map(|i| o + i * i).collect() }
    };
    let mut seen = HashSet::new();
    v.retain(|k| seen.insert(*k));
    v
}
/// The number and the style of the keys.
fn gen_size(f: Fam, large: bool) -> (usize, u32) {
    let style = choose(10);
    if f.fuse() {
        if large { return ([150_000usize, 170_000, 200_000][choose(3) as usize], [0, 1, 4, 5][choose(4) as usize]); }
        match choose(10) {
            0 => ([0usize, 1, 50, 89, 90, 115, 117, 120, 180][choose(9) as usize], style),
            1 => (if chance(1, 8) { 1000 } else { 100 + choose(100) as usize }, style),
            2 => (180 + choose(2000) as usize, 10),
            3..=5 => (180 + choose(400) as usize, 10),
            _ => (90 + choose(11) as usize, 10),
        }
    } else if large { ([5_000usize, 20_000, 100_000][choose(3) as usize], style) } else {
        (match choose(20) { k @ 0..=15 => [10usize, 0, 1, 2, 3, 4, 5, 7, 12, 33, 64, 100, 150, 255, 256, 257][k as usize], 16 => 1000, _ => choose(400) as usize }, style)
    }
}
fn bits_of(f: &dyn Mf, q: &[u64]) -> Vec<u8> { q.iter().map(|k| f.has(*k) as u8).collect() }
fn pack_request(f: Fam, json: bool, filter: &[u8], questions: &[u64]) -> Vec<u8> {
    let mut v = vec![FAMS.iter().position(|x| *x == f).unwrap() as u8, json as u8];
    v.extend((filter.len() as u64).to_le_bytes());
    v.extend(filter);
    for q in questions { v.extend(q.to_le_bytes()); }
    v
}
fn answer_request(b: Vec<u8>) -> Vec<u8> {
    let n = u64::from_le_bytes(b[2..10].try_into().unwrap()) as usize;
    let q: Vec<u64> = b[10 + n..].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    match sut("replica", "C14", || restore(FAMS[b[0] as usize], &b[10..10 + n], b[1] == 1).map(|f| bits_of(&*f, &q))) { Ok(Ok(v)) => { let mut r = vec![1]; r.extend(v); r } x => { let mut r = vec![0]; r.extend(flat(x).map(|_| String::new()).unwrap_or_else(|e| e).into_bytes()); r } }
}
const CHUNK: u32 = 11;
const ACK: u32 = 12;
pub fn c14() {
    gen_preempt();
    let mut remote = if chance(1, 6) { Some(Remote::start(answer_request)) } else { None };
    let fam = FAMS[choose(15) as usize];
    let large = chance(1, if fam.fuse() { 100 } else { 200 });
    let (n, style) = gen_size(fam, large);
    let mut rng = fresh_rng();
    let keys = Arc::new(keys64(n, style, &mut rng));
    let n = keys.len();
    label(format!("{fam:?}, {n} keys of style {style}"));
    trace(|| format!("{fam:?} {n} {style}"));
    gen_net();
    let builders = if n > 3000 { 1 } else { 1 + choose(3) as usize };
    let mode = gen_mode();
    let out: Slot<Vec<u8>> = Slot::new();
    let json = choose(2) == 1;
    let ids: Vec<usize> = (0..builders).map(|t| {
        let nd = node(&format!("builder{t}"), if t == 0 { mode.clone() } else { gen_mode() });
        if chance(1, 4) { world().nodes[nd].entropy.flaky = 40; }
        let (keys, out) = (keys.clone(), out.clone());
        let rounds = if n > 500 { 1 } else { 1 + choose(3) };
        let mut rng = fresh_rng();
        spawn(nd, format!("builder{t}"), move || for _ in 0..rounds {
            let via = choose(3);
            disturb(12);
            let r = sut("build", "C14", || build(fam, &keys, via));
            checked();
            let info = || format!("{fam:?} from {n} keys of style {style}");
            let f = match r {
                Err(p) => return fail("C14", "abort", format!("{}: building panicked: {p}", info())),
                Ok(Err(e)) => { if !fam.fallible() { return fail("C14", "abort", format!("{}: {e}", info())); } probe("refused"); continue }
                Ok(Ok(f)) => f,
            };
            disturb(12);
            probe("built");
            if fam.fuse() { probe("fuse_filter_built"); }
            let lost = sut("contains", "C14", || keys.iter().position(|k| !f.has(*k)));
            checked();
            match lost { Ok(None) => {} Ok(Some(i)) => return fail("C14", "false-negative", format!("{}: key {i} ({:#x}) is not contained", info(), keys[i])), Err(p) => return fail("C14", "abort", format!("{}: asking panicked: {p}", info())) }
            let q: Vec<u64> = keys.iter().take(200).cloned().chain((0..300).map(|i| if i % 2 == 0 { rng.next() } else { keys.get(i as usize % n.max(1)).map_or(i, |k| k ^ 1 << (i % 64)) })).collect();
            let json = choose(2) == 1;
            let r = sut("copy", "C14", || restore(fam, &f.bytes(json), json).map(|c| (keys.iter().position(|k| !c.has(*k)), bits_of(&*c, &q), bits_of(&*f, &q), c.size() == f.size(), c.bytes(false) == f.bytes(false))));
            checked();
            match r {
                Ok(Ok((None, a, b, true, true))) if a == b => {}
                Ok(Ok((Some(i), ..))) => return fail("C14", "replica", format!("{}: a restored copy does not contain key {i} ({:#x})", info(), keys[i])),
                Ok(Ok((_, a, b, ..))) => { let k = a.iter().zip(&b).position(|(x, y)| x != y).map(|i| q[i]); return fail("C14", "replica", format!("{}: a restored copy differs ({k:x?})", info())) }
                x => return fail("C14", "replica", format!("{}: {}", info(), short(&flat(x).map(|_| ())))),
            }
            out.put(f.bytes(json));
            let mut o = ser(&json, false); o.extend(f.bytes(json)); out.put(o);
        })
    }).collect();
    join_all(&ids);
    let Some(packed) = out.take() else { return };
    let (json2, bytes) = (packed[0] == 1, packed[1..].to_vec());
    let _ = json;
    let questions: Vec<u64> = keys.iter().take(3000).cloned().chain((0..300).map(|_| rng.next())).collect();
    let want = match flat(sut("copy", "C14", || restore(fam, &bytes, json2).map(|f| bits_of(&*f, &questions)))) { Ok(w) => w, Err(e) => return fail("C14", "replica", e) };
    if let Some(r) = &mut remote {
        let ans = r.call(&pack_request(fam, json2, &bytes, &questions));
        checked();
        probe("replica_in_another_process");
        match ans {
            Some(a) if a[0] == 1 && a[1..] == want[..] => {}
            Some(a) if a[0] == 1 => { let k = a[1..].iter().zip(&want).position(|(x, y)| x != y).map(|i| questions[i]); return fail("C14", "replica", format!("{fam:?} from {n} keys of style {style}: a replica in another process differs ({k:x?})")) }
            Some(a) => return fail("C14", "replica", format!("{fam:?} from {n} keys: a replica in another process failed: {}", String::from_utf8_lossy(&a[1..]))),
            None => return fail("C14", "replica", format!("{fam:?} from {n} keys: the replica process ended")),
        }
    }
    if choose(2) == 0 || bytes.len() > 100_000 { return; }
    // in pieces over the network
    let (a, b) = (node("origin", Mode::Uniform), node("replica", Mode::Uniform));
    let (ma, mb) = (add_mbox(a), add_mbox(b));
    let size = (bytes.len() / (1 + choose(8) as usize)).max(1);
    let pieces: Vec<Vec<u8>> = bytes.chunks(size).map(|c| c.to_vec()).collect();
    let count = pieces.len();
    let tx = spawn(a, "origin", move || {
        let mut acked = vec![false; count];
        for attempt in 0.. {
            if attempt > 400 { return harness_error("delivery does not end"); }
            for (i, p) in pieces.iter().enumerate() { if !acked[i] { send(mb, Msg { from: ma, id: i as u64, kind: CHUNK, data: p.clone() }); } }
            let end = now() + 40_000;
            while now() < end && acked.iter().any(|x| !x) { if let Some(m) = recv(ma, Some(end - now())) { if m.kind == ACK { acked[m.id as usize] = true; } } else { break; } }
            if acked.iter().all(|x| *x) { break; }
        }
    });
    let rx = spawn(b, "replica", move || {
        let mut have: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
        while have.len() < count { let Some(m) = recv(mb, Some(1_000_000_000)) else { return }; send(m.from, Msg { from: mb, id: m.id, kind: ACK, data: vec![] }); have.insert(m.id, m.data); }
        let all: Vec<u8> = have.into_values().flatten().collect();
        let r = sut("replica", "C14", || restore(fam, &all, json2).map(|f| bits_of(&*f, &questions)));
        checked();
        probe("replica_over_the_network");
        match r { Ok(Ok(v)) if v == want => {} x => fail("C14", "replica", format!("{fam:?} from {n} keys: a replica made from delivered pieces differs: {}", short(&flat(x).map(|_| ())))) }
        // acknowledge what is still repeated
        while let Some(m) = recv(mb, Some(500_000)) { send(m.from, Msg { from: mb, id: m.id, kind: ACK, data: vec![] }); }
    });
    join_all(&[tx, rx]);
}

// ------------------------------------------------------------------ C15
fn stranger(style: u32, i: u64, rng: &mut Rng) -> u64 {
    match style {
        0 => rng.next(),
        1 => (1 << 40) + i,
        2 => (i << 32) | 1,
        3 => i + (1 << 33),
        4 => u64::MAX / 3 - i,
        5 => i.wrapping_mul(0xd134_2543_de82_ef95) | 1,
        _ => i << 20 | 3,
    }
}
fn limit(bits: u32, probes: u64) -> u64 {
    // the documented rate plus at least seven standard deviations of the true one
    let mean = match bits { 8 => probes as f64 / 256.0, 16 => probes as f64 / 65536.0, _ => 0.0 };
    match bits { 8 => (mean + 7.0 * mean.sqrt()) as u64 + 12, 16 => (mean + 8.0 * mean.sqrt()) as u64 + 12, _ => 2 }
}
pub fn c15() {
    let fam = FAMS[choose(15) as usize];
    let fill = fam.fallible() && choose(3) != 0;
    let large = chance(1, if crate::runner::thorough() { 15 } else { 30 });
    let (n, style) = if !fam.fallible() && chance(1, 8) { (60 + choose(50) as usize, 0) } else if fill && chance(1, 8) { (1800 + choose(8000) as usize, if fam.fuse() { 10 } else { choose(6) }) } else if fill && !fam.fuse() && chance(1, 12) { (60 + choose(50) as usize, 0) } else if fill && !fam.fuse() && choose(4) != 3 { (choose(70) as usize, choose(6)) } else { gen_size(fam, large) };
    let style = if (6..10).contains(&style) { style - 6 } else { style };
    let mut rng = fresh_rng();
    let keys = Arc::new(keys64(n, style, &mut rng));
    let n = keys.len();
    label(format!("{fam:?}, {n} keys of style {style}"));
    trace(|| format!("{fam:?} {n} {style}"));
    let nd = node("builder", Mode::Uniform);
    if chance(1, 4) { world().nodes[nd].entropy.flaky = 100; }
    if !fill && n <= 110 && chance(1, 3) {
        let (k2, seen) = (keys.clone(), label_of(fam, n, style));
        on_node(nd, "builder", move || {
            let Ok(f) = flat(sut("build", "", || build(fam, &k2, 0))) else { probe("refused"); return };
            let Ok(v) = serde_json::from_slice::<serde_json::Value>(&f.bytes(true)) else { return };
            let tab = table(&v);
            if tab.is_empty() { probe("unknown_serialized_form"); return; }
            let free = free_slots(fam, &v, &tab, &k2);
            whole_fingerprints(fam, &v, &tab, &k2, &free, style, &seen);
        });
        if !world().rep.viols.is_empty() { return; }
    }
    if !fill || n > 50_000 {
        let probes = if chance(1, 8) { 1_000_000u64 } else { 150_000 };
        let (qs, k2) = (choose(7), keys.clone());
        let hits = on_node(nd, "builder", move || {
            let f = match flat(sut("build", "", || build(fam, &k2, 0))) { Ok(f) => f, Err(_) => { probe("refused"); return None } };
            let mut asked = 0u64;
            let mut yes = vec![];
            let r = sut("contains", "", || for i in 0..probes {
                let q = stranger(qs, i, &mut rng);
                if f.has(q) { yes.push(q); }
                asked += 1;
            });
            let members: HashSet<u64> = k2.iter().cloned().collect();
            let mut seen = HashSet::new();
            let hits = yes.iter().filter(|q| !members.contains(q) && seen.insert(**q)).count() as u64;
            r.ok().map(|_| (hits, asked))
        }).flatten();
        let Some((hits, asked)) = hits else { return };
        checked();
        stat(&format!("strangers_asked_{}", fam.bits()), asked);
        stat(&format!("strangers_contained_{}", fam.bits()), hits);
        if hits > limit(fam.bits(), asked) { fail("C15", "false-positives", format!("{fam:?} from {n} keys of style {style}: {hits} of {asked} strangers (style {qs}) are contained")); }
        return;
    }
    // what fills the slots that no key needs
    let builds = 24usize;
    let k2 = keys.clone();
    let same_thread = choose(3);
    let one = move |k: &[u64]| -> Option<serde_json::Value> { let f = flat(sut("build", "", || build(fam, k, 0))).ok()?; serde_json::from_slice(&f.bytes(true)).ok() };
    let mut all: Vec<serde_json::Value> = vec![];
    if same_thread == 0 {
        let got = on_node(nd, "builder", move || (0..builds).map(|_| { disturb(100); one(&k2) }).collect::<Option<Vec<_>>>()).flatten();
        let Some(v) = got else { probe("refused"); return };
        all = v;
    } else {
        for b in 0..builds {
            let nd = if same_thread == 1 { nd } else { node(&format!("builder{b}"), Mode::Uniform) };
            let k2 = k2.clone();
            let Some(v) = on_node(nd, "builder", move || one(&k2)).flatten() else { probe("refused"); return };
            all.push(v);
        }
    }
    let tab: Vec<Vec<u64>> = all.iter().map(table).collect();
    let len = tab[0].len();
    if len == 0 || tab.iter().any(|t| t.len() != len) { abort_run("unknown serialized form"); }
    let info = format!("{fam:?} from {n} keys of style {style}, {builds} builds ({})", ["one thread", "one node", "several nodes"][same_thread as usize]);
    if n <= 110 {
        let free = free_slots(fam, &all[0], &tab[0], &keys);
        if !whole_fingerprints(fam, &all[0], &tab[0], &keys, &free, style, &info) { return; }
        checked();
        stat("free_slots", free.len() as u64);
        probe("free_slots_examined");
        if let Some(j) = free.iter().find(|j| tab.iter().all(|t| t[**j] == tab[0][**j])) { return fail("C15", "slot-not-random", format!("{info}: slot {j} of {len}, which no key needs, is always {:#x}", tab[0][*j])); }
        if free.len() >= 6 {
            let rows: Vec<Vec<u64>> = tab.iter().map(|t| free.iter().map(|j| t[*j]).collect()).collect();
            if let Some(r) = rows.iter().find(|r| r.iter().all(|x| *x == r[0])) { return fail("C15", "slot-not-random", format!("{info}: all {} free slots are {:#x}", free.len(), r[0])); }
            let set: HashSet<&Vec<u64>> = rows.iter().collect();
            if set.len() != rows.len() { return fail("C15", "same-fill", format!("{info}: two builds fill the {} free slots alike", free.len())); }
            // no build follows from another one, and no slot from another one
            if let Some((a, b, how)) = related(&rows, fam.bits()) { return fail("C15", "same-fill", format!("{info}: the {} free slots of build {a} and of build {b} {how}", free.len())); }
            let cols: Vec<Vec<u64>> = (0..free.len()).map(|k| rows.iter().map(|r| r[k]).collect()).collect();
            if let Some((a, b, how)) = related(&cols, fam.bits()) { return fail("C15", "slot-not-random", format!("{info}: slots {} and {} of {len}, which no key needs, {how} in all builds", free[a], free[b])); }
            probe("free_slots_compared");
        }
        let samples = (free.len() * builds) as f64;
        if samples >= 250.0 {
            for b in 0..fam.bits() {
                let ones = tab.iter().flat_map(|t| free.iter().map(move |j| t[*j] >> b & 1)).sum::<u64>() as f64;
                if (ones / samples - 0.5).abs() > 4.2 / samples.sqrt() + 0.02 { return fail("C15", "slot-not-random", format!("{info}: bit {b} of the free slots is set in {ones} of {samples} cases")); }
            }
        }
    } else {
        checked();
        let fixed = (0..len).filter(|j| tab.iter().all(|t| t[*j] == tab[0][*j])).count();
        stat("slots_compared", len as u64);
        stat("slots_fixed", fixed as u64);
        probe("slots_compared_between_builds");
        // slots that are alike in all builds (those that keys need can be, but seldom)
        let mut cols: Vec<Vec<u64>> = (0..len).map(|j| tab.iter().map(|t| t[j]).collect()).collect();
        cols.sort();
        let alike = cols.windows(2).filter(|w| w[0] == w[1] && w[0].iter().any(|x| *x != w[0][0])).count();
        stat("slots_alike", alike as u64);
        if len >= 2000 { stat("slots_compared_large", len as u64); stat("slots_alike_large", alike as u64); }
        if len >= 2000 && alike * 100 > len { return fail("C15", "slot-not-random", format!("{info}: {alike} of {len} slots are like others in all builds")); }
        for b in 1..builds {
            let same = (0..len).filter(|j| tab[b - 1][*j] == tab[b][*j]).count();
            if len >= 2000 && (same - fixed) * 20 > len { return fail("C15", "same-fill", format!("{info}: {same} of {len} slots are the same in two builds")); }
        }
        if fixed * 50 > len { return fail("C15", "slot-not-random", format!("{info}: {fixed} of {len} slots are always the same")); }
    }
}
fn label_of(fam: Fam, n: usize, style: u32) -> String { format!("{fam:?} from {n} keys of style {style}") }
fn prints(v: &mut serde_json::Value) -> &mut serde_json::Value { if v.get("fingerprints").is_none() && v.get("filter").is_some() { &mut v["filter"]["fingerprints"] } else { &mut v["fingerprints"] } }
fn table(v: &serde_json::Value) -> Vec<u64> { prints(&mut v.clone()).as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default() }
/// The filter with some bits of a slot flipped.
fn damaged(fam: Fam, v: &serde_json::Value, tab: &[u64], j: usize, flip: u64) -> Box<dyn Mf> {
    let mut v = v.clone();
    prints(&mut v)[j] = serde_json::json!(tab[j] ^ flip);
    match sut("copy", "", || restore(fam, &serde_json::to_vec(&v).unwrap(), true)) { Ok(Ok(f)) => f, _ => abort_run("copy") }
}
/// A slot is needed if damaging it makes a key disappear.
fn free_slots(fam: Fam, v: &serde_json::Value, tab: &[u64], keys: &[u64]) -> Vec<usize> {
    (0..tab.len()).filter(|&j| { let f = damaged(fam, v, tab, j, 0x55); sut("contains", "", || keys.iter().all(|k| f.has(*k))) == Ok(true) }).collect()
}
/// What a filter compares of a key is as wide as its kind promises: every bit of a slot that a key needs matters,
/// and the fingerprints of random keys differ in all of their bits.
fn whole_fingerprints(fam: Fam, v: &serde_json::Value, tab: &[u64], keys: &[u64], free: &[usize], style: u32, info: &str) -> bool {
    let bits = fam.bits();
    let needed: Vec<usize> = (0..tab.len()).filter(|j| !free.contains(j)).collect();
    if needed.is_empty() || keys.is_empty() { return true; }
    checked();
    for k in 0..needed.len().min(6) {
        let j = needed[(k * 7919 + choose(needed.len() as u32) as usize) % needed.len()];
        for b in 0..bits {
            let f = damaged(fam, v, tab, j, 1 << b);
            if sut("contains", "", || keys.iter().all(|k| f.has(*k))) == Ok(true) { fail("C15", "unused-bits", format!("{info}: bit {b} of slot {j}, which a key needs, is not compared: strangers are contained more often than one in 2^{bits}")); return false; }
        }
    }
    if style != 0 || keys.len() < 60 { return true; }
    let mut print = vec![0u64; keys.len()];
    for j in needed { let f = damaged(fam, v, tab, j, 1); let _ = sut("contains", "", || for (k, x) in keys.iter().enumerate() { if !f.has(*x) { print[k] ^= tab[j]; } }); }
    checked();
    probe("fingerprints_recovered");
    for b in 0..bits {
        let ones = print.iter().filter(|p| **p >> b & 1 == 1).count();
        if ones == 0 || ones == keys.len() { fail("C15", "weak-fingerprint", format!("{info}: bit {b} of the fingerprints of all keys is the same")); return false; }
    }
    if bits >= 32 {
        let set: HashSet<&u64> = print.iter().collect();
        if set.len() + 2 <= keys.len() { fail("C15", "weak-fingerprint", format!("{info}: only {} different fingerprints", set.len())); return false; }
    }
    true
}
/// Two sequences of independent random words that are alike beyond chance: mostly equal, or equal up to a constant.
fn related(rows: &[Vec<u64>], bits: u32) -> Option<(usize, usize, &'static str)> {
    let n = rows[0].len();
    let mask = if bits >= 32 { u32::MAX as u64 } else { (1 << bits) - 1 };
    // enough words that chance does not explain it (below 2^-60 for a pair)
    if n * bits as usize <= 72 { return None; }
    for a in 0..rows.len() {
        for b in a + 1..rows.len() {
            let (x, y) = (&rows[a], &rows[b]);
            let same = x.iter().zip(y).filter(|(p, q)| p == q).count();
            if same >= 16 && same * 4 > n { return Some((a, b, "are mostly equal")); }
            if x.iter().zip(y).all(|(p, q)| p ^ q == x[0] ^ y[0]) { return Some((a, b, "differ by a constant")); }
            if x.iter().zip(y).all(|(p, q)| p.wrapping_sub(*q) & mask == x[0].wrapping_sub(y[0]) & mask) { return Some((a, b, "differ by a constant")); }
        }
    }
    None
}
#[allow(unused)]
fn unused(_: &KVShard, _: &Entropy) {}
