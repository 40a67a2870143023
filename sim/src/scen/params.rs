//! C03-C06: query parameters, their use, their randomness and entropy failures.
use super::disturb::disturb;
use crate::common::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{BaseParams, CommonParams};
use keyword_pir_lwe::errors::ErrorQueryParamsReused;
use serde::{Deserialize, Serialize};
use simrt::entropy::{EFault, Mode};
use simrt::*;
use std::collections::HashMap;
use std::sync::Arc;

/// A matrix whose derivation does not matter to the property (cheap, and with values that make sums wrap).
pub fn any_common(dim: usize, m: usize, p: usize) -> CommonParams {
    let mut rng = fresh_rng();
    let style = choose(5);
    let step = 1u32.checked_shl(32 - p as u32).unwrap_or(0); // what a query adds at its target
    let rows: Vec<Vec<u32>> = (0..m).map(|_| (0..dim).map(|_| match style { 0 | 1 => rng.next() as u32, 2 => u32::MAX, 3 => [0, 1, 1 << 31, u32::MAX][rng.below(4) as usize], _ => [0, step, step.wrapping_neg(), step.wrapping_mul(rng.below(16) as u32)][rng.below(4) as usize] }).collect()).collect();
    de(&ser(&rows, false), false).expect("common params from words")
}
fn any_key(rng: &mut Rng) -> [u64; 4] { match choose(4) { 0 => [rng.next(), rng.next(), rng.next(), rng.next()], 1 => [0; 4], 2 => [u64::MAX; 4], _ => [rng.below(4), rng.below(4), rng.below(4), rng.below(4)] } }

// ------------------------------------------------------------------ C03
#[derive(PartialEq, Clone, Copy, Debug)]
enum Use { Fresh, Used, Unknown }
struct Obj { qp: Qp, used: Use, family: usize, asked: Option<Target> }
enum Ask { Query(usize), Reused, Other(String), Panic(String) }
fn ask(qp: &mut Qp, t: &Target) -> Ask {
    let r = sut("generate_query", "C03", || {
        let r = match (&mut *qp, t) { (Qp::I(q), Target::Row(r)) => q.generate_query(*r), (Qp::K(q), Target::Key(k)) => q.generate_query(k), _ => unreachable!() };
        r.map_err(|e| (e.downcast_ref::<ErrorQueryParamsReused>().is_some(), e.to_string()))
    });
    match r { Ok(Ok(q)) => Ask::Query(q.as_slice().len()), Ok(Err((true, _))) => Ask::Reused, Ok(Err((false, m))) => Ask::Other(m), Err(p) => Ask::Panic(p) }
}
pub fn c03() {
    gen_preempt();
    let kind = gen_kind();
    let case = Arc::new(if chance(1, 100) { gen_extreme(kind) } else { gen_any(kind, Limits { max_m: 40, max_words: 6, max_dim: 16 }) });
    let sn = server_node();
    let db = build_on(sn, &case, "");
    let nclients = 1 + choose(3) as usize;
    let mut ids = vec![];
    for i in 0..nclients {
        let (case, db) = (case.clone(), db.clone());
        let nd = client_node(i);
        ids.push(spawn(nd, format!("client{i}"), move || reuse_client(nd, &case, &db)));
    }
    join_all(&ids);
}
fn reuse_client(nd: Node, case: &Arc<Case>, db: &Arc<Db>) {
    let mut rng = fresh_rng();
    let params = db.params();
    let cp = Arc::new(match sut("common_params", "", || params.common()) { Ok(c) => c, Err(p) => abort_run(&p) });
    let mut pool: Vec<Obj> = vec![];
    let mut families = 0;
    let steps = 10 + choose(60);
    let resp = (0..case.width()).map(|_| rng.next() as u32).collect::<Vec<_>>();
    let resp = response_from_words(&resp);
    let store = std::collections::BTreeMap::<usize, Vec<u8>>::new();
    let mut store = store;
    for step in 0..steps {
        if pool.is_empty() || (pool.len() < 12 && choose(6) == 5) {
            let (p2, c2) = (params.clone(), cp.clone());
            let r = sut("query_params", "", move || p2.query_params(&c2));
            let Ok(qp) = flat(r) else { abort_run("query params") };
            pool.push(Obj { qp, used: Use::Fresh, family: families, asked: None });
            families += 1;
            continue;
        }
        disturb(120);
        let k = if choose(3) != 2 { pool.len() - 1 } else { choose(pool.len() as u32) as usize };
        match choose(9) {
            // ask for a record: in range, out of range, a stored or unknown key, the one asked before
            0..=4 => {
                let t = match (case.kind, choose(6)) {
                    (_, 0) if pool[k].asked.is_some() => pool[k].asked.clone().unwrap(),
                    (Kind::Index, 1) => Target::Row([case.m, usize::MAX, case.m + 1][choose(3) as usize]),
                    (Kind::Index, 2) => Target::Row([0, case.m - 1][choose(2) as usize]),
                    (Kind::Kv, 1) => Target::Key(any_key(&mut rng)),
                    _ => target(case, choose(case.m as u32) as usize),
                };
                trace(|| format!("object {k} of family {} ({:?}) asks {t:?}", pool[k].family, pool[k].used));
                let o = &mut pool[k];
                // sometimes in another thread
                let r = if choose(4) == 3 {
                    let mut qp = o.qp.clone();
                    let t2 = t.clone();
                    let mv = choose(2) == 1; // the object itself moves, or a clone is asked
                    let was = o.used;
                    if mv {
                        let q = std::mem::replace(&mut o.qp, qp);
                        qp = q;
                    }
                    let Some((r, q)) = on_node(nd, "other-thread", move || { let r = ask(&mut qp, &t2); (r, qp) }) else { abort_run("thread") };
                    if mv { o.qp = q; Some(r) } else {
                        // the clone was asked, the original stays as it was; the clone's history starts from `was`
                        if was == Use::Used { judge(&r, case, &t, "clone"); }
                        None
                    }
                } else { Some(ask(&mut o.qp, &t)) };
                if let Some(r) = r {
                    match o.used {
                        Use::Used => judge(&r, case, &t, "used parameters"),
                        _ => match r {
                            Ask::Query(_) => { o.used = Use::Used; o.asked = Some(t); checked(); probe("yielded"); }
                            _ => { o.used = Use::Unknown; probe("first_attempt_failed"); }
                        },
                    }
                }
            }
            5 => { let o = &pool[k]; let (qp, u, f, a) = (sut("clone", "C03", || o.qp.clone()), o.used, o.family, o.asked.clone()); if let Ok(qp) = qp { if pool.len() < 16 { pool.push(Obj { qp, used: u, family: f, asked: a }); probe("cloned"); } } }
            6 => {
                let json = choose(2) == 1;
                let o = &pool[k];
                let b = sut("serialize", "C03", || o.qp.ser(json));
                let r = b.clone().and_then(|b| sut("deserialize", "C03", || Qp::de(case.kind, &b, json)));
                match r {
                    Ok(Ok(qp)) => { let (u, f, a) = (o.used, o.family, o.asked.clone()); if pool.len() < 16 { pool.push(Obj { qp, used: u, family: f, asked: a }); } else { pool[k].qp = qp; } probe("restored_from_bytes"); if u == Use::Used { probe("restored_after_use"); } }
                    x => abort_run(&format!("parameters do not survive serialization: {:?}", x.err())),
                }
                if let Ok(b) = b { store.insert(k, b); }
            }
            7 => {
                let o = &pool[k];
                let t = o.asked.clone().unwrap_or_else(|| target(case, 0));
                let form = choose(3);
                // also responses that lost or gained words, and responses of zeros
                let misfit = match choose(6) { 0 => Some(response_words_misfit(case.width(), &mut rng)), _ => None };
                let resp = misfit.as_ref().unwrap_or(&resp);
                let r = sut("decode", "", || match form { 0 => o.qp.row(resp, &t).map(|_| ()), 1 => o.qp.bytes(resp, &t).map(|_| ()), _ => o.qp.base64(resp, &t).map(|_| ()) });
                probe(if !matches!(r, Ok(Ok(()))) { "failing_decode" } else { "decoded" });
            }
            _ => { if pool.len() > 3 && choose(2) == 1 { pool.swap_remove(k); } else if choose(2) == 1 { sleep(choose(2000) as u64); } else { yield_now(); } }
        }
        if step % 16 == 7 && chance(1, 20) { clock_jump([-10_000_000, 86_400_000_000][choose(2) as usize]); }
    }
    // no number of attempts wears the refusal off
    if chance(1, 12) {
        let Some(o) = pool.iter_mut().find(|o| o.used == Use::Used) else { return };
        let n = [300usize, 700, 5000, 66_000][choose(4) as usize];
        let preempt = std::mem::replace(&mut world().preempt, false);
        let t = target(case, choose(case.m as u32) as usize);
        for k in 0..n {
            if k % 997 == 996 { if let Ok(Ok(q)) = sut("restore", "C03", || Qp::de(case.kind, &o.qp.ser(k % 2 == 0), k % 2 == 0)) { o.qp = q; } }
            let r = ask(&mut o.qp, &t);
            judge(&r, case, &t, "used parameters, again and again");
            if !world().rep.viols.is_empty() { return; }
        }
        world().preempt = preempt;
        probe("asked_again_and_again");
        stat("repeated_asks", n as u64);
    }
}
fn response_words_misfit(width: usize, rng: &mut Rng) -> Response {
    let n = match choose(5) { 0 => 0, 1 => width - 1, 2 => width + 1, 3 => choose(width as u32) as usize, _ => width };
    response_from_words(&(0..n).map(|_| if n == width { 0 } else { rng.next() as u32 }).collect::<Vec<_>>())
}
fn judge(r: &Ask, case: &Case, t: &Target, what: &str) {
    checked();
    probe("reuse_attempt_after_yield");
    match r {
        Ask::Reused => {}
        Ask::Query(_) => fail("C03", "second-query", format!("{}: {what}, which yielded a query before, yielded another one for {t:?}", case.describe())),
        Ask::Other(m) => fail("C03", "wrong-refusal", format!("{}: {what} refused {t:?} with another error: {m}", case.describe())),
        Ask::Panic(m) => fail("C03", "abort-on-reuse", format!("{}: {what} asked for {t:?} panicked: {m}", case.describe())),
    }
}

// ------------------------------------------------------------------ C04
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step { made: Result<(), String>, query: Result<Vec<u32>, String>, drawn: (u64, u64), resp: Result<usize, String>, refused: Option<String> }
#[derive(Serialize, Deserialize, Clone, Debug)]
enum T { Row(usize), Key([u64; 4]) }
fn tt(t: &T) -> Target { match t { T::Row(r) => Target::Row(*r), T::Key(k) => Target::Key(*k) } }
fn history(pb: &Pub, cp: &CommonParams, db: &Db, ts: &[(T, bool)]) -> Vec<Step> {
    ts.iter().map(|(t, again)| {
        let t = tt(t);
        let qp = flat(sut("query_params", "C04", || pb.query_params(cp)));
        let e1 = last_entropy();
        let mut st = Step { made: qp.as_ref().map(|_| ()).map_err(|e| e.clone()), query: Err("no parameters".into()), drawn: (e1.bytes.len() as u64, 0), resp: Err("no query".into()), refused: None };
        if let Ok(mut qp) = qp {
            let q = flat(sut("generate_query", "C04", || qp.query(&t)));
            st.drawn.1 = last_entropy().bytes.len() as u64;
            if *again { st.refused = flat(sut("generate_query", "C04", || qp.query(&t))).err(); }
            if let Ok(q) = &q { st.resp = flat(sut("respond", "", || db.respond(q))).map(|r| r.len()); }
            st.query = q.map(|q| query_words(&q));
        }
        st
    }).collect()
}
pub fn c04() {
    let kind = gen_kind();
    let big = chance(1, 20);
    let case = Arc::new(if chance(1, 60) { gen_extreme(kind) } else { gen_any(kind, if big { Limits { max_m: 300, max_words: 6, max_dim: 64 } } else { Limits { max_m: 64, max_words: 6, max_dim: 32 } }) });
    let sn = server_node();
    let db = build_on(sn, &case, "");
    let (cn, json) = (client_node(0), choose(3));
    world().nodes[cn].entropy.flaky = 0;
    if choose(3) == 0 { for _ in 0..4 { let k = choose(200) as u64; let f = if choose(2) == 0 { EFault::Eintr } else { EFault::Short(1 + choose(4) as usize) }; world().nodes[cn].entropy.plan.push((k, f)); } }
    let real = choose(2) == 0;
    let pb = if json == 2 { db.params() } else { Pub::de(case.kind, &db.params().ser(json == 1), json == 1).unwrap_or_else(|e| abort_run(&e)) };
    let height = db.height();
    let len = 1 + choose(6) as usize;
    let mut rng = fresh_rng();
    let mut pick_t = |prev: Option<&T>| -> T {
        if let (Some(p), 0) = (prev, choose(4)) { return p.clone(); }
        match case.kind {
            Kind::Index => T::Row(match choose(6) { 0 => 0, 1 => case.m - 1, 2 => case.m / 2, _ => choose(case.m as u32) as usize }),
            Kind::Kv => T::Key(if choose(3) == 0 { any_key(&mut rng) } else { key_of(&case.keys[choose(case.m as u32) as usize]) }),
        }
    };
    let (mut a, mut b): (Vec<(T, bool)>, Vec<(T, bool)>) = (vec![], vec![]);
    for i in 0..len {
        let again = choose(4) == 3;
        let (pa, pb2) = (pick_t(i.checked_sub(1).map(|i| &a[i].0)), pick_t(i.checked_sub(1).map(|i| &b[i].0)));
        a.push((pa, again)); b.push((pb2, again));
    }
    let custom = if real { None } else { Some(any_common(pb.dim(), height, case.p)) };
    let (db2, pb2, ts) = (db.clone(), pb.clone(), (a.clone(), b.clone()));
    let r = on_node(cn, "twins", move || {
        let cp = match custom { Some(c) => c, None => match sut("common_params", "", || pb2.common()) { Ok(c) => c, Err(_) => return None } };
        disturb(10);
        let mut out = vec![];
        // both twins start from the same state of process, entropy source and clock
        let mut twins: Vec<Remote> = (0..2).map(|_| {
            let (db, pb, cp) = (db2.clone(), pb2.clone(), de::<CommonParams>(&ser(&cp, false), false).unwrap());
            Remote::start(move |m| { let ts: Vec<(T, bool)> = de(&m, false).unwrap(); ser(&history(&pb, &cp, &db, &ts), false) })
        }).collect();
        for (tw, ts) in twins.iter_mut().zip([&ts.0, &ts.1]) { out.push(tw.call(&ser(ts, false)).map(|b| de::<Vec<Step>>(&b, false).unwrap())); }
        Some(out)
    });
    let Some(Some(out)) = r else { abort_run("twins") };
    let (Some(ra), Some(rb)) = (&out[0], &out[1]) else {
        if out[0].is_some() != out[1].is_some() { fail("C04", "one-twin-died", format!("{}: targets {a:?} and {b:?}: one history ends the process, the other does not", case.describe())); }
        abort_run("both twins died")
    };
    let mut constant: Option<u32> = None;
    let mut size: Option<usize> = None;
    for i in 0..len {
        let (x, y, ta, tb) = (&ra[i], &rb[i], tt(&a[i].0), tt(&b[i].0));
        let what = format!("{} step {i} of {len}: targets {ta:?} and {tb:?}", case.describe());
        checked();
        if x.made.is_ok() != y.made.is_ok() { fail("C04", "params-fail-for-one", format!("{what}: making parameters: {:?} / {:?}", x.made, y.made)); return; }
        if x.drawn != y.drawn { fail("C04", "randomness-depends-on-target", format!("{what}: bytes drawn {:?} / {:?}", x.drawn, y.drawn)); return; }
        if x.query.is_ok() != y.query.is_ok() { fail("C04", "fails-for-one", format!("{what}: {} / {}", short(&x.query), short(&y.query))); return; }
        if x.refused.is_some() != y.refused.is_some() { fail("C04", "refusal-depends-on-target", format!("{what}: second attempt {:?} / {:?}", x.refused, y.refused)); return; }
        let (Ok(qa), Ok(qb)) = (&x.query, &y.query) else { probe("both_failed"); continue };
        if qa.len() != qb.len() { fail("C04", "query-size", format!("{what}: query lengths {} / {}", qa.len(), qb.len())); return; }
        let mut net: HashMap<usize, i64> = HashMap::new();
        for p in pb.positions(&ta) { *net.entry(p).or_default() += 1; }
        for p in pb.positions(&tb) { *net.entry(p).or_default() -= 1; }
        for j in 0..qa.len() {
            let d = qa[j].wrapping_sub(qb[j]);
            match net.get(&j).copied().unwrap_or(0) {
                0 => if d != 0 { fail("C04", "differs-elsewhere", format!("{what}: queries differ by {d:#x} at position {j}, which belongs to neither or both (positions {:?} / {:?})", pb.positions(&ta), pb.positions(&tb))); return },
                n => {
                    if n == 1 || n == -1 {
                        let c = if n == 1 { d } else { d.wrapping_neg() };
                        match constant { None => constant = Some(c), Some(k) if k == c => {} Some(k) => { fail("C04", "not-one-constant", format!("{what}: position {j} differs by {c:#x}, another one by {k:#x}")); return } }
                        if c == 0 { fail("C04", "no-indicator", format!("{what}: nothing added at position {j}")); return; }
                        let w = if n == 1 { (qb[j], qa[j]) } else { (qa[j], qb[j]) };
                        if w.1 < w.0 { probe("indicator_wrapped"); }
                    } else if let Some(c) = constant { if d != c.wrapping_mul(n as u32) { fail("C04", "not-one-constant", format!("{what}: position {j} differs by {d:#x}, {n} times {c:#x} expected")); return; } }
                }
            }
        }
        for (s, t) in [(x, &ta), (y, &tb)] {
            if let Ok(n) = s.resp { match size { None => size = Some(n), Some(k) if k == n => {} Some(k) => { fail("C04", "response-size", format!("{what}: response for {t:?} has {n} bytes, others {k}")); return } } }
        }
        if x.resp.is_ok() != y.resp.is_ok() { fail("C04", "response-for-one", format!("{what}: responses {:?} / {:?}", x.resp, y.resp)); return; }
    }
}

// ------------------------------------------------------------------ C05
const WIN: usize = 42;
#[derive(Clone)]
struct Sample { who: String, t: Trits }
/// No two sets share a stretch of their secret or noise (up to sign), and no set repeats itself.
fn shared_stretch(samples: &[Sample]) -> Option<String> {
    let mut seen: HashMap<u64, (usize, usize, bool)> = HashMap::new();
    for (si, s) in samples.iter().enumerate() {
        for (vec, is_s) in [(&s.t.s, true), (&s.t.e, false)] {
            if vec.len() < WIN { continue; }
            for o in 0..=vec.len() - WIN {
                let w = &vec[o..o + WIN];
                let sign = match w.iter().find(|x| **x != 0) { Some(x) => *x, None => return Some(format!("{} has {WIN} zeros in a row at {o}", s.who)) };
                let mut h = 0xcbf29ce484222325u64;
                for x in w { h = (h ^ ((x * sign + 1) as u64 + 1)).wrapping_mul(0x100000001b3); h ^= h >> 29; }
                if let Some(&(pi, po, ps)) = seen.get(&h) {
                    let p = &samples[pi];
                    let pv = if ps { &p.t.s } else { &p.t.e };
                    let pw = &pv[po..po + WIN];
                    if pw == w || pw.iter().zip(w).all(|(a, b)| *a == -*b) {
                        let name = |b| if b { "secret" } else { "noise" };
                        return Some(format!("{} of {} at {o} equals {} of {} at {po} over {WIN} entries", name(is_s), s.who, name(ps), p.who));
                    }
                } else { seen.insert(h, (si, o, is_s)); }
            }
        }
    }
    None
}
/// So far from a probability of one third that chance does it less often than exp(-33), by the Chernoff bound.
fn off(count: u64, n: u64) -> bool { n >= 250 && excess(count, n) > 33.0 }
fn excess(count: u64, n: u64) -> f64 {
    let (n, x) = (n as f64, count as f64 / n as f64);
    let part = |x: f64, p: f64| if x > 0.0 { x * (x / p).ln() } else { 0.0 };
    n * (part(x, 1.0 / 3.0) + part(1.0 - x, 2.0 / 3.0))
}
fn biased(v: impl Iterator<Item = i8>) -> Option<String> {
    let mut c = [0u64; 3];
    for x in v { c[(x + 1) as usize] += 1; }
    let n = c.iter().sum();
    if c.iter().any(|&x| off(x, n)) { Some(format!("counts of -1, 0, 1: {c:?}")) } else { None }
}
#[derive(Serialize, Deserialize)]
struct RemoteReq { entropy: u64, sets: u32 }
fn draw(diag: &Diag, who: &str, out: &mut Vec<Sample>) -> bool {
    let r = flat(sut("query_params", "C05", || diag.pb.query_params(&diag.cp)));
    let ent = last_entropy();
    let qp = match r { Ok(q) => q, Err(e) => abort_run(&format!("query params: {e}")) };
    checked();
    let t = match diag.read(&qp) { Ok(t) => t, Err(e) => { fail("C05", "not-ternary", format!("{who}, dim {} rows {}: {e}", diag.dim, diag.m)); return false } };
    let need = ((diag.dim + diag.m) as f64 * 3f64.log2() / 8.0).ceil() as usize;
    let got = ent.bytes.len();
    if got < need.min(1 << 20) { fail("C05", "too-little-entropy", format!("{who}: {got} bytes drawn from the operating system for {} ternary values (at least {need} needed)", diag.dim + diag.m)); return false; }
    out.push(Sample { who: who.into(), t });
    true
}
pub fn c05() {
    gen_preempt();
    let kind = gen_kind();
    match choose(15) { 14 => c05_accounts(kind), 0..=2 => c05_many_small(kind), 3..=6 => c05_parties(kind), 7..=9 => c05_replay(kind), 10 | 11 => c05_long(kind), _ => c05_wide(kind) }
}
/// Many sets of a shape with many positions: no two positions of a set, however far apart, determine each other.
fn c05_wide(kind: Kind) {
    let big = crate::runner::thorough();
    let dim = [64usize, 100, 200, 257, 300, 512, 600, 1024, 1100, 2048][choose(if big { 10 } else { 9 }) as usize];
    let m = [80usize, 128, 200, 260, 300, 520, 700, 1100][choose(if big { 8 } else { 7 }) as usize].max(Diag::rows_needed(dim));
    let sets = if dim * m <= if big { 400_000 } else { 70_000 } { 260 } else { 44 };
    label(format!("{kind:?} wide dim={dim} rows={m} sets={sets}"));
    let nd = node("client", Mode::Uniform);
    on_node(nd, "client", move || {
        let diag = Diag::new(kind, dim, m);
        let mut v = vec![];
        for k in 0..sets { if !draw(&diag, &format!("set {k}"), &mut v) { return; } }
        checked();
        let k = dim + m;
        let name = |i: usize| if i < dim { format!("secret entry {i}") } else { format!("noise entry {}", i - dim) };
        let words = (sets + 63) / 64;
        // per position: in which sets it is 1, in which -1
        let mut one = vec![0u64; k * words];
        let mut neg = vec![0u64; k * words];
        let mut seen: HashMap<Vec<i8>, usize> = HashMap::new();
        for i in 0..k {
            let column: Vec<i8> = v.iter().map(|s| if i < dim { s.t.s[i] } else { s.t.e[i - dim] }).collect();
            for (j, x) in column.iter().enumerate() { let b = 1u64 << (j % 64); match x { 1 => one[i * words + j / 64] |= b, -1 => neg[i * words + j / 64] |= b, _ => {} } }
            // up to renaming the three values
            let mut names = [-1i8; 3];
            let mut next = 0;
            let canon: Vec<i8> = column.iter().map(|x| { let y = (*x + 1) as usize; if names[y] < 0 { names[y] = next; next += 1; } names[y] }).collect();
            if let Some(o) = seen.insert(canon, i) { return fail("C05", "dependent-positions", format!("{} determines {} in all of {sets} sets (dim {dim}, rows {m})", name(o), name(i))); }
        }
        if sets < 250 { return; }
        let n = sets as u64;
        let both = |a: &[u64], b: &[u64]| a.iter().zip(b).map(|(x, y)| (x & y).count_ones() as u64).sum::<u64>();
        let at = |v: &[u64], i: usize| -> Vec<u64> { v[i * words..(i + 1) * words].to_vec() };
        let count = |a: &[u64]| a.iter().map(|x| x.count_ones() as u64).sum::<u64>();
        let zero_both = |o: (u64, u64, u64, u64), pp: u64, nn: u64, pn: u64| n + pp + nn + pn - o.0 - o.1 - o.2 - o.3;
        for i in 0..k {
            let (oi, ni) = (at(&one, i), at(&neg, i));
            let (ci, di) = (count(&oi), count(&ni));
            for j in 0..i {
                let (oj, nj) = (&one[j * words..(j + 1) * words], &neg[j * words..(j + 1) * words]);
                let (pp, nn, pn, np) = (both(&oi, oj), both(&ni, nj), both(&oi, nj), both(&ni, oj));
                let zz = zero_both((ci, di, count(oj), count(nj)), pp, nn, pn + np);
                let (eq, op) = (zz + pp + nn, zz + pn + np);
                if excess(eq, n) > 45.0 || excess(op, n) > 45.0 { return fail("C05", "dependent-positions", format!("{} and {} over {sets} sets (dim {dim}, rows {m}): equal in {eq}, opposite in {op}", name(i), name(j))); }
            }
        }
    });
}
fn c05_many_small(kind: Kind) {
    let dim = [4usize, 1, 2, 3, 8, 12, 16, 30][choose(8) as usize];
    let m = ([3usize, 12, 16, 20, 40][choose(5) as usize]).max(Diag::rows_needed(dim)).max(if kind == Kind::Kv { 12 } else { 1 });
    let sets = 300 + 100 * choose(3) as usize;
    label(format!("{kind:?} {sets} sets of dim={dim} rows={m}"));
    let nd = node("client", Mode::Uniform);
    if choose(3) == 0 { world().nodes[nd].entropy.flaky = 20; }
    let diag = Diag::new(kind, dim, m);
    let threads = 1 + choose(3) as usize;
    let slots: Vec<Slot<Vec<Sample>>> = (0..threads).map(|_| Slot::new()).collect();
    let diag = Arc::new(diag);
    let ids: Vec<usize> = slots.iter().enumerate().map(|(i, s)| { let (s, diag) = (s.clone(), diag.clone()); spawn(nd, format!("client{i}"), move || { let mut v = vec![]; for k in 0..sets / threads { if !draw(&diag, &format!("set {k} of thread {i}"), &mut v) { break; } } s.put(v); }) }).collect();
    join_all(&ids);
    let samples: Vec<Sample> = slots.iter().flat_map(|s| s.take().unwrap_or_default()).collect();
    let n = samples.len() as u64;
    let all: Vec<Vec<i8>> = samples.iter().map(|s| s.t.s.iter().chain(&s.t.e).cloned().collect()).collect();
    checked();
    if let Some(b) = biased(all.iter().flatten().cloned()) { return fail("C05", "biased", format!("over {n} sets: {b}")); }
    let k = dim + m;
    let name = |i: usize| if i < dim { format!("secret entry {i}") } else { format!("noise entry {}", i - dim) };
    for i in 0..k {
        if let Some(b) = biased(all.iter().map(|v| v[i])) { return fail("C05", "biased-position", format!("{} over {n} sets (dim {dim}, rows {m}): {b}", name(i))); }
        for j in 0..i {
            let (mut eq, mut op) = (0, 0);
            for v in &all { eq += (v[i] == v[j]) as u64; op += (v[i] == -v[j]) as u64; }
            if off(eq, n) || off(op, n) { return fail("C05", "dependent-positions", format!("{} and {} over {n} sets (dim {dim}, rows {m}): equal in {eq}, opposite in {op}", name(i), name(j))); }
        }
        // the same entry in consecutive sets
        let (mut eq, mut op) = (0, 0);
        for w in all.windows(2) { eq += (w[0][i] == w[1][i]) as u64; op += (w[0][i] == -w[1][i]) as u64; }
        if off(eq, n - 1) || off(op, n - 1) { return fail("C05", "dependent-sets", format!("{} of consecutive sets: equal in {eq}, opposite in {op} of {n}", name(i))); }
    }
    let joined: Vec<Sample> = samples.iter().map(|s| Sample { who: s.who.clone(), t: Trits { s: s.t.s.iter().chain(&s.t.e).cloned().collect(), e: vec![] } }).collect();
    if let Some(e) = shared_stretch(&joined) { fail("C05", "shared-randomness", e); }
}
fn c05_parties(kind: Kind) {
    let dim = [48usize, 64, 50, 100, 128, 256, 512, 1024, 4200, 8300][if chance(1, 6) { 6 + choose(4) } else { choose(7) } as usize];
    let m = ([48usize, 49, 64, 100, 128, 200, 256, 300][choose(8) as usize]).max(Diag::rows_needed(dim));
    label(format!("{kind:?} parties dim={dim} rows={m}"));
    let per = 1 + choose(4);
    // processes that start with pristine statics, fresh entropy each; also restarted ones
    let d = Diag::new(kind, dim, m);
    let serve = move |req: Vec<u8>| -> Vec<u8> {
        let r: RemoteReq = de(&req, false).unwrap();
        let me = task_node();
        world().nodes[me].entropy = simrt::entropy::Entropy::uniform(r.entropy);
        let mut out = vec![];
        for k in 0..r.sets { if !draw(&d, &format!("set {k}"), &mut out) { break; } }
        ser(&(out.iter().map(|s| (s.t.s.clone(), s.t.e.clone())).collect::<Vec<_>>(), world().rep.viols.first().map(|v| (v.class.clone(), v.msg.clone()))), false)
    };
    let serve = std::sync::Arc::new(std::sync::Mutex::new(serve));
    let procs = choose(4);
    let mut remotes: Vec<Remote> = (0..procs).map(|_| { let s = serve.clone(); Remote::start(move |b| (s.lock().unwrap())(b)) }).collect();
    let nclients = 1 + choose(3) as usize;
    let mut samples = vec![];
    let slots: Vec<Slot<Vec<Sample>>> = (0..nclients).map(|_| Slot::new()).collect();
    let mut ids = vec![];
    // several threads per client node, which share the node's entropy source; nodes have their own
    for (i, s) in slots.iter().enumerate() {
        let nd = node(&format!("client{i}"), Mode::Uniform);
        if choose(3) == 0 { world().nodes[nd].entropy.flaky = 20; }
        let s = s.clone();
        let diag = Diag::new(kind, dim, m);
        ids.push(spawn(nd, format!("client{i}"), move || { let mut v = vec![]; for k in 0..per { disturb(30); if !draw(&diag, &format!("set {k} of thread {i}"), &mut v) { break; } if choose(2) == 1 { yield_now(); } } s.put(v); }));
    }
    join_all(&ids);
    for s in &slots { samples.extend(s.take().unwrap_or_default()); }
    // processes forked after the library was used
    let late = choose(3);
    for _ in 0..late { let s = serve.clone(); remotes.push(Remote::start(move |b| (s.lock().unwrap())(b))); }
    let base = fresh_seed();
    for (i, r) in remotes.iter_mut().enumerate() {
        let Some(b) = r.call(&ser(&RemoteReq { entropy: simrt::choice::mix(base, 1000 + i as u64), sets: per }, false)) else { abort_run("other process died") };
        let (v, viol): (Vec<(Vec<i8>, Vec<i8>)>, Option<(String, String)>) = de(&b, false).unwrap();
        if let Some((c, m)) = viol { fail("C05", c, format!("process {i}: {m}")); return; }
        for (k, (s, e)) in v.into_iter().enumerate() { samples.push(Sample { who: format!("set {k} of process {i}{}", if i as u32 >= procs { " (forked later)" } else { "" }), t: Trits { s, e } }); }
    }
    checked();
    if let Some(e) = shared_stretch(&samples) { return fail("C05", "shared-randomness", e); }
    if let Some(b) = biased(samples.iter().flat_map(|s| s.t.s.iter().chain(&s.t.e).cloned())) { fail("C05", "biased", b); }
}
pub fn task_node() -> Node { cur_task().node }
/// Equal entropy gives equal parameters and queries, whatever happened before and however the reads are split;
/// and the query of a real database is its public matrix times the secret, plus the noise, plus the indicator.
fn c05_replay(kind: Kind) {
    let case = gen_case(kind, Limits { max_m: 64, max_words: 4, max_dim: 64 });
    let sn = server_node();
    let db = build_on(sn, &case, "");
    let pb = db.params();
    let dim = pb.dim();
    let height = db.height();
    if height < Diag::rows_needed(dim) { return c05_accounts(kind); }
    let mode = gen_mode();
    let nd = node("client", mode);
    let saved = world().nodes[nd].entropy.clone();
    let case = Arc::new(case);
    let c2 = case.clone();
    let r = on_node(nd, "first", move || {
        let cp = match sut("common_params", "", || pb.common()) { Ok(c) => c, Err(p) => abort_run(&p) };
        let i = choose(c2.m as u32) as usize;
        let t = target(&c2, i);
        let mut qs = vec![];
        let rounds = 3;
        for k in 0..rounds {
            // noise histories in between: other sets, other targets, other work
            disturb(8);
            for _ in 0..choose(3) { let _ = flat(sut("query_params", "C05", || pb.query_params(&cp))).map(|mut q| { let _ = sut("generate_query", "", || q.query(&t)); }); }
            world().nodes[nd].entropy = saved.clone();
            if k > 0 { world().nodes[nd].entropy.flaky = [0, 30, 120][choose(3) as usize]; }
            let mut qp = match flat(sut("query_params", "C05", || pb.query_params(&cp))) { Ok(q) => q, Err(e) => abort_run(&e) };
            let b = qp.ser(false);
            let q = match flat(sut("generate_query", "C05", || qp.query(&t))) { Ok(q) => q, Err(e) => abort_run(&e) };
            qs.push((b, query_words(&q)));
        }
        world().nodes[nd].entropy = saved.clone();
        let diag = Diag::with_bits(c2.kind, dim, height, c2.p);
        let mut v = vec![];
        if !draw(&diag, "diagnostic set", &mut v) { return; }
        checked();
        for k in 1..qs.len() {
            if qs[k] != qs[0] { fail("C05", "equal-entropy-differs", format!("{}: the same entropy gives different parameters or queries", c2.describe())); return; }
        }
        let tr = &v[0].t;
        let pos = pb.positions(&t);
        let mut sums = vec![];
        for (r, row) in cp.as_matrix().iter().enumerate() {
            let x = row.iter().zip(&tr.s).fold(0u32, |a, (m, s)| a.wrapping_add(m.wrapping_mul(*s as i32 as u32))).wrapping_add(tr.e[r] as i32 as u32)
                .wrapping_add(c2.delta().wrapping_mul(pos.iter().filter(|p| **p == r).count() as u32));
            sums.push(x);
        }
        if qs[0].1 != sums { fail("C05", "mask-is-not-A*s+e", format!("{} target {i}: query is not the public matrix times the secret plus noise plus indicator; differs first at {:?}", c2.describe(), (0..sums.len()).find(|&j| sums[j] != qs[0].1[j]))); }
    });
    let _ = r;
}
/// Lopsided sets, nearly all secret or nearly all noise: neither part may cost less entropy than it holds.
fn c05_accounts(kind: Kind) {
    let (dim, rows) = match choose(6) { 0 => (2048, 1), 1 => (700, 2), 2 => (300, 1), 3 => (1, 5000), 4 => (2, 900), _ => (1 + choose(1200) as usize, 1 + choose(8) as usize) };
    let p = 8 + choose(3) as usize;
    let case = lopsided(kind, dim, p);
    let sn = server_node();
    let db = build_on(sn, &case, "");
    let pb = db.params();
    let m = gen_mode();
    let nd = node("client", m);
    label(format!("{kind:?} accounts dim={dim} rows={rows}"));
    let threads = 1 + choose(2) as usize;
    let ids: Vec<usize> = (0..threads).map(|t| {
        let pb = pb.clone();
        spawn(nd, format!("client{t}"), move || {
            let cp = any_common(dim, rows, p);
            for k in 0..2 + choose(4) {
                disturb(12);
                let mut qp = match flat(sut("query_params", "C05", || pb.query_params(&cp))) { Ok(q) => q, Err(e) => abort_run(&format!("query params: {e}")) };
                let got = last_entropy().bytes.len();
                let need = ((dim + rows) as f64 * 3f64.log2() / 8.0).ceil() as usize;
                checked();
                probe("accounts");
                if got < need { return fail("C05", "too-little-entropy", format!("set {k} of dim {dim} and {rows} rows: {got} bytes drawn from the operating system for {} ternary values (at least {need} needed)", dim + rows)); }
                let _ = sut("generate_query", "", || qp.query(&match kind { Kind::Index => Target::Row(0), Kind::Kv => Target::Key([1; 4]) }));
            }
        })
    }).collect();
    join_all(&ids);
}
/// A database of a single record and a large dimension.
fn lopsided(kind: Kind, dim: usize, p: usize) -> Arc<Case> {
    let mut c = gen_case(kind, Limits { max_m: 1, max_words: 1, max_dim: 4 });
    c.p = p; c.bits = 8; c.recs = vec![vec![7]]; c.dim = dim; c.exact = false;
    Arc::new(c)
}
/// Millions of values: a bias of a quarter of a percent shows.
fn c05_census(kind: Kind) {
    let sets = if crate::runner::thorough() { 60 } else { 26 };
    label(format!("{kind:?} census"));
    let nd = node("client", Mode::Uniform);
    on_node(nd, "client", move || {
        world().preempt = false;
        let diag = Diag::new(kind, 2, 140_000);
        let (mut c, mut pairs, mut seen) = ([0u64; 3], [0u64; 9], 0u64);
        for k in 0..sets {
            let mut v = vec![];
            if !draw(&diag, &format!("set {k}"), &mut v) { return; }
            let x: Vec<usize> = v[0].t.s.iter().chain(&v[0].t.e).map(|x| (*x + 1) as usize).collect();
            for y in &x { c[*y] += 1; }
            for w in x.windows(2) { pairs[w[0] * 3 + w[1]] += 1; }
            seen += x.len() as u64;
        }
        checked();
        probe("census");
        stat("census_values", seen);
        if c.iter().any(|&x| excess(x, seen) > 33.0) { return fail("C05", "biased", format!("counts of -1, 0, 1 in {seen} values: {c:?}")); }
        let n: u64 = pairs.iter().sum();
        let same = pairs[0] + pairs[4] + pairs[8];
        let opposite = pairs[2] + pairs[4] + pairs[6];
        for (what, k) in [("equal", same), ("opposite", opposite)] { if excess(k, n) > 40.0 { return fail("C05", "dependent-positions", format!("neighbouring entries are {what} in {k} of {n}")); } }
    });
}
fn c05_long(kind: Kind) {
    if chance(1, 30) { return c05_census(kind); }
    let (dim, m, sets) = match choose(if crate::runner::thorough() { 12 } else { 9 }) {
        0 => (16, 70_000, 1), 1 => (4, 20_000, 3), 2 => (1024, 100, 4), 3 => (2048, 200, 2), 4 => (1, 4200, 6), 5 => (8, 9000, 4), 6 => (300, 1500, 4), 7 => (2, 140_000, 1), 8 => (15, 260, 60), _ => (1, 300_000, 5),
    };
    label(format!("{kind:?} long dim={dim} rows={m} sets={sets}"));
    let nd = node("client", Mode::Uniform);
    on_node(nd, "client", move || {
        let diag = Diag::new(kind, dim, m);
        let mut v = vec![];
        for k in 0..sets { if !draw(&diag, &format!("set {k}"), &mut v) { return; } }
        checked();
        if let Some(b) = biased(v.iter().flat_map(|s| s.t.s.iter().cloned())) { return fail("C05", "biased", format!("secrets of dim {dim}: {b}")); }
        if let Some(b) = biased(v.iter().flat_map(|s| s.t.e.iter().cloned())) { return fail("C05", "biased", format!("noise of {m} rows: {b}")); }
        // equality at a distance, inside a set
        for s in &v {
            for x in [&s.t.s, &s.t.e] {
                if x.len() < 1000 { continue; }
                for lag in (1..=64usize).chain([96, 128, 255, 256, 257, 512, 1000, 1023, 1024, 2048, 4096, 8192, 16384, 32768, 65535, 65536]) {
                    if lag + 250 > x.len() { break; }
                    let n = (x.len() - lag) as u64;
                    let eq = (0..x.len() - lag).filter(|&i| x[i] == x[i + lag]).count() as u64;
                    let op = (0..x.len() - lag).filter(|&i| x[i] == -x[i + lag]).count() as u64;
                    if off(eq, n) || off(op, n) { return fail("C05", "dependent-positions", format!("{}: entries at distance {lag}: equal in {eq}, opposite in {op} of {n}", s.who)); }
                }
                // every residue and every block on its own
                for md in [2usize, 3, 4, 8, 16, 64] { for r in 0..md { if let Some(b) = biased(x.iter().skip(r).step_by(md).cloned()) { return fail("C05", "biased-position", format!("{}: entries {r} modulo {md}: {b}", s.who)); } } }
                for (k, c) in x.chunks(512).enumerate() { if let Some(b) = biased(c.iter().cloned()) { return fail("C05", "biased-position", format!("{}: entries from {}: {b}", s.who, k * 512)); } }
            }
        }
        if let Some(e) = shared_stretch(&v) { fail("C05", "shared-randomness", e); }
    });
}

// ------------------------------------------------------------------ C06
/// What an operation that draws entropy handed to its caller, as far as randomness is concerned.
enum Made { Params(Trits), Db { seeds: Vec<[u8; 32]>, db: Box<Db> } }
#[derive(Clone)]
enum What { Params(Arc<Diag>), Real(Pub), Build(Arc<Case>) }
fn make(w: &What) -> Result<Made, String> {
    match w {
        What::Params(d) => {
            let qp = flat(sut("query_params", "C06", || d.pb.query_params(&d.cp)))?;
            match d.read(&qp) { Ok(t) => Ok(Made::Params(t)), Err(e) => { fail("C06", "not-ternary", e.clone()); Err(e) } }
        }
        What::Real(pb) => {
            let cp = flat(sut("common_params", "", || Ok(pb.common())))?;
            let _ = flat(sut("query_params", "C06", || pb.query_params(&cp)))?;
            Ok(Made::Params(Trits { s: vec![], e: vec![] }))
        }
        What::Build(c) => {
            let db = flat(sut("build", "C06", || construct(c, 1)))?;
            let mut seeds = vec![];
            match db.params() { Pub::I(p) => seeds.push(p.get_public_seed()), Pub::K(p) => { seeds.push(p.get_public_seed()); seeds.push(p.get_filter_params().seed); } }
            Ok(Made::Db { seeds, db: Box::new(db) })
        }
    }
}
fn need(w: &What) -> usize {
    match w { What::Params(d) => ((d.dim + d.m) as f64 * 3f64.log2() / 8.0) as usize, What::Real(p) => ((p.dim() + p.records()) as f64 * 3f64.log2() / 8.0) as usize, What::Build(c) => if c.kind == Kind::Kv { 64 } else { 32 } }
}
/// Randomness shared by two operations that drew from different entropy.
fn common_randomness(a: &Made, b: &Made) -> Option<String> {
    match (a, b) {
        (Made::Params(x), Made::Params(y)) => shared_stretch(&[Sample { who: "one".into(), t: x.clone() }, Sample { who: "the other".into(), t: y.clone() }]),
        (Made::Db { seeds: x, .. }, Made::Db { seeds: y, .. }) => {
            for (i, p) in x.iter().enumerate() { for (j, q) in y.iter().enumerate() {
                for a in 0..=24 { for b in 0..=24 { if p[a..a + 8] == q[b..b + 8] { return Some(format!("seed {i} and seed {j}: bytes {a}.. and {b}.. are both {:02x?}", &p[a..a + 8])); } } }
            } }
            None
        }
        _ => None,
    }
}
fn weak(m: &Made) -> Option<String> {
    match m {
        Made::Params(t) => {
            for v in [&t.s, &t.e] {
                let mut run = 1;
                for i in 1..v.len() { run = if v[i] == v[i - 1] { run + 1 } else { 1 }; if run >= 36 { return Some(format!("36 equal entries in a row at {i}")); } }
            }
            if t.s.len() + t.e.len() >= 250 { return biased(t.s.iter().chain(&t.e).cloned()); }
            None
        }
        Made::Db { seeds, .. } => {
            for (i, s) in seeds.iter().enumerate() {
                if s.windows(7).any(|w| w.iter().all(|x| *x == w[0])) { return Some(format!("seed {i} has 7 equal bytes in a row: {s:02x?}")); }
                for a in 0..24 { for b in a + 1..=24 { if s[a..a + 8] == s[b..b + 8] { return Some(format!("seed {i} repeats 8 bytes: {s:02x?}")); } } }
            }
            if seeds.len() == 2 { return common_randomness(&Made::Db { seeds: vec![seeds[0]], db: Box::new(dummy()) }, &Made::Db { seeds: vec![seeds[1]], db: Box::new(dummy()) }); }
            None
        }
    }
}
fn dummy() -> Db { Db::de(Kind::Index, br#"{"db":{"entries":[],"m":0,"elem_size":1,"plaintext_bits":1},"base_params":{"dim":0,"m":0,"public_seed":[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0],"rhs":[],"elem_size":1,"plaintext_bits":1}}"#, true).expect("dummy") }
pub fn c06() {
    gen_preempt();
    let kind = gen_kind();
    let what = match choose(5) {
        0 | 1 => { let case = if chance(1, 60) { gen_extreme(kind) } else { gen_any(kind, Limits { max_m: 40, max_words: 6, max_dim: 16 }) }; What::Build(Arc::new(case)) }
        2 => { let case = if choose(4) == 3 { let d = [2048usize, 700, 300, 64][choose(4) as usize]; lopsided(kind, d, 10) } else { Arc::new(gen_any(kind, Limits { max_m: 40, max_words: 4, max_dim: 64 })) }; let sn = server_node(); let db = build_on(sn, &case, ""); What::Real(db.params()) }
        _ => { let dim = [64usize, 1, 8, 48, 100, 512][choose(6) as usize]; let m = [48usize, 64, 100, 300, 1000][choose(5) as usize].max(Diag::rows_needed(dim)); label(format!("{kind:?} parameters dim={dim} rows={m}")); What::Params(Arc::new(Diag::new(kind, dim, m))) }
    };
    if chance(1, 4) { return c06_shared_outage(what); }
    let nd = node("victim", Mode::Uniform);
    let w2 = what.clone();
    on_node(nd, "victim", move || {
        // how many calls an undisturbed operation makes
        let before = world().nodes[nd].entropy.calls;
        let first = make(&w2);
        let calls = world().nodes[nd].entropy.calls - before;
        let first = match first { Ok(m) => m, Err(e) => { fail("C06", "fails-without-fault", format!("undisturbed operation fails: {e}")); return } };
        if let Some(e) = weak(&first) { return fail("C06", "weak-without-fault", e); }
        let mut made = vec![first];
        for _ in 0..1 + choose(4) {
            disturb(16);
            let hard = choose(2) == 1;
            world().nodes[nd].entropy.calls = 0;
            world().nodes[nd].entropy.plan.clear();
            let n = calls.max(1) as u32;
            let at = match choose(4) { 0 => 0, 1 => n - 1, _ => choose(n) } as u64;
            if hard {
                let e = [libc::EIO, libc::EFAULT, libc::EINVAL, libc::ENOMEM, libc::EAGAIN, libc::EBADF, libc::EPERM, libc::ENOSYS][choose(8) as usize];
                if choose(3) == 0 { let k = at; world().nodes[nd].entropy.plan = (k..k + 4000).map(|i| (i, EFault::Fail(e))).collect(); }
                else { world().nodes[nd].entropy.plan.push((at, EFault::Fail(e))); }
                if choose(3) == 0 && at > 0 { world().nodes[nd].entropy.plan.push((at - 1, if choose(2) == 0 { EFault::Eintr } else { EFault::Short(0) })); }
            } else if choose(3) == 0 { world().nodes[nd].entropy.flaky = 200; }
            else { for k in 0..1 + choose(4) as u64 { world().nodes[nd].entropy.plan.push((at + k, if choose(2) == 0 { EFault::Eintr } else { EFault::Short(choose(5) as usize) })); } }
            let r = make(&w2);
            let ent = last_entropy();
            let e = &mut world().nodes[nd].entropy;
            e.plan.clear(); e.flaky = 0;
            checked();
            match (&r, ent.fails > 0) {
                (Ok(m), true) => {
                    let _ = m;
                    return fail("C06", "completed-despite-failure", format!("the entropy source failed (call {at} of about {calls}), yet the operation completed"));
                }
                (Err(e), false) => return fail("C06", "gave-up", format!("only interrupted or short reads ({} interrupted, {} short), yet the operation failed: {e}", ent.eintr, ent.short)),
                (Err(_), true) => probe("failed_closed"),
                (Ok(_), false) => if ent.eintr + ent.short > 0 { probe("completed_after_interruptions"); },
            }
            if let Ok(m) = r {
                if ent.bytes.len() < need(&w2) { return fail("C06", "too-little-entropy", format!("{} bytes delivered, at least {} needed ({} interrupted, {} short reads)", ent.bytes.len(), need(&w2), ent.eintr, ent.short)); }
                if let Some(e) = weak(&m) { return fail("C06", "not-fresh", format!("after {} interrupted and {} short reads: {e}", ent.eintr, ent.short)); }
                made.push(m);
            }
        }
        // the source works again
        match make(&w2) { Ok(m) => { if let Some(e) = weak(&m) { return fail("C06", "not-fresh", format!("after recovery: {e}")); } if last_entropy().bytes.len() < need(&w2) { return fail("C06", "too-little-entropy", format!("after recovery: {} bytes delivered", last_entropy().bytes.len())); } made.push(m) } Err(e) => return fail("C06", "no-recovery", format!("the source works again, but the operation fails: {e}")) }
        checked();
        for i in 0..made.len() { for j in 0..i { if let Some(e) = common_randomness(&made[i], &made[j]) { return fail("C06", "substitute-randomness", format!("operations {j} and {i} of this process: {e}")); } } }
        // a database that was built is a working one
        if let (What::Build(c), Some(Made::Db { db, .. })) = (&w2, made.last()) {
            let pb = db.params();
            noise_guard(db, c);
            let Ok(cp) = sut("common_params", "", || pb.common()) else { abort_run("common") };
            let i = choose(c.m as u32) as usize;
            if let Ok(mut qp) = flat(sut("query_params", "C06", || pb.query_params(&cp))) {
                if let Ok(q) = flat(sut("generate_query", "C06", || qp.query(&target(c, i)))) { if let Ok(resp) = flat(sut("respond", "C06", || db.respond(&q))) { check_decode("C06", "C06", c, i, &qp, &resp, "unusable-after-faults"); } }
            }
        }
    });
}
/// Several threads of one machine work while its entropy source fails for a while.
fn c06_shared_outage(what: What) {
    let nd = node("machine", Mode::Uniform);
    world().nodes[nd].entropy.flaky = [0, 30][choose(2) as usize];
    let threads = 2 + choose(3) as usize;
    let e = [libc::EIO, libc::ENOMEM, libc::EAGAIN][choose(3) as usize];
    let (from, len) = (choose(400) as u64, 1 + choose(3000) as u64);
    at(from, move || { fault("entropy_outage"); world().nodes[nd].entropy.dead = Some(e); });
    at(from + len, move || { world().nodes[nd].entropy.dead = None; });
    let slots: Vec<Slot<Vec<Made>>> = (0..threads).map(|_| Slot::new()).collect();
    let ids: Vec<usize> = slots.iter().enumerate().map(|(i, s)| {
        let (s, w) = (s.clone(), what.clone());
        spawn(nd, format!("thread{i}"), move || {
            let mut v = vec![];
            for _ in 0..3 {
                let r = make(&w);
                let ent = last_entropy();
                checked();
                match r {
                    Ok(m) => {
                        if ent.fails > 0 { fail("C06", "completed-despite-failure", "the entropy source failed during the operation, yet it completed"); break; }
                        if ent.bytes.len() < need(&w) { fail("C06", "too-little-entropy", format!("{} bytes delivered, at least {} needed", ent.bytes.len(), need(&w))); break; }
                        if let Some(e) = weak(&m) { fail("C06", "not-fresh", e); break; }
                        v.push(m);
                    }
                    Err(e) => if ent.fails == 0 { fail("C06", "gave-up", format!("no entropy error in this operation, yet it failed: {e}")); break; } else { probe("failed_closed"); },
                }
                sleep(1 + choose(1500) as u64);
            }
            // only once the outage has begun and ended
            while now() < from + len || world().nodes[nd].entropy.dead.is_some() { sleep(500); }
            match make(&w) { Ok(m) => v.push(m), Err(e) => fail("C06", "no-recovery", format!("the source works again, but the operation fails: {e}")) }
            s.put(v);
        })
    }).collect();
    join_all(&ids);
    let all: Vec<Made> = slots.iter().flat_map(|s| s.take().unwrap_or_default()).collect();
    checked();
    for i in 0..all.len() { for j in 0..i { if let Some(e) = common_randomness(&all[i], &all[j]) { return fail("C06", "substitute-randomness", format!("two operations of one machine: {e}")); } } }
}
