//! C07, C08, C09, C16, C17: what servers answer, damaged messages, restarts and noise.
use super::retrieval::{stop_workers, ERROR, QUERY, RESPONSE, STOP};
use super::disturb::disturb;
use crate::common::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{BaseParams, CommonParams, DatabaseMatrix};
use simrt::*;
use std::collections::HashMap;
use std::sync::Arc;

// ------------------------------------------------------------------ C07
#[derive(Clone)]
struct Held { db: Arc<Db>, case: Arc<Case>, cols: Arc<Vec<Vec<u32>>>, ser: Vec<u8>, params: Vec<u8> }
fn hold(sn: Node, case: Arc<Case>) -> Held {
    let db = build_on(sn, &case, "");
    let cols = Arc::new(db.columns(&case));
    let (ser, params) = (db.ser(false), db.params().ser(false));
    Held { db, case, cols, ser, params }
}
/// The same shape with other contents.
pub fn sibling(case: &Case, style: u32) -> Case {
    let mut c = case.clone();
    c.exact &= c.p <= 8;
    let mut rng = fresh_rng();
    match style {
        0 => for r in &mut c.recs { rng.fill(r); mask_bits(r, c.bits); },
        1 => { let k = choose(c.m as u32) as usize; c.recs[k][0] ^= 1; }
        2 => c.recs.reverse(),
        _ => { let k = choose(c.m as u32) as usize; let l = c.recs.len() - 1; c.recs.swap(k, l); }
    }
    c
}
fn respond_ok(prop: &'static str, h: &Held, words: &[u32], what: &str) {
    let q = query_from_words(words);
    let r = sut("respond", prop, || h.db.respond(&q));
    checked();
    let want = reference_response(&h.cols, words);
    match r {
        Ok(Ok(b)) => {
            if response_words(&b).as_ref() != Ok(&want) { fail(prop, "wrong-response", format!("{} {what}: response {} instead of {}", h.case.describe(), short(&response_words(&b)), short(&want))); }
            else if b != ser(&want, false) { fail(prop, "wrong-response-bytes", format!("{} {what}: other bytes than the serialized words", h.case.describe())); }
        }
        x => fail(prop, "no-response", format!("{} {what}: {}", h.case.describe(), short(&flat(x)))),
    }
}
/// Queries that are easily confused with the given one.
fn neighbour(q: &[u32], how: u32) -> Vec<u32> {
    let mut v = q.to_vec();
    let n = v.len();
    if n == 0 { return v; }
    let (i, j) = (choose(n as u32) as usize, choose(n as u32) as usize);
    match how {
        0 => {}
        1 => v.swap(i, j),
        2 => { v[i] = v[i].wrapping_add(1 << 20); v[j] = v[j].wrapping_sub(1 << 20); } // same sum
        3 => { v[i] ^= 0x00ff_0000; v[j] ^= 0x00ff_0000; } // same xor
        4 => v[n - 1] = v[n - 1].wrapping_add(1),
        5 => v[0] = v[0].wrapping_sub(1),
        6 => v.rotate_left(1),
        7 => v.reverse(),
        8 => v[n / 2] = !v[n / 2],
        9 => v.fill(0),
        10 => v.fill(u32::MAX),
        11 => v[i] ^= 1 << choose(32),
        _ => { let mut r = fresh_rng(); for x in &mut v { *x = r.next() as u32; } }
    }
    v
}
pub fn c07() {
    gen_preempt();
    let kind = gen_kind();
    let marathon = chance(1, if crate::runner::thorough() { 150 } else { 400 });
    let lim = if marathon { Limits { max_m: 5, max_words: 2, max_dim: 4 } } else if chance(1, 12) { Limits { max_m: 400, max_words: 64, max_dim: 16 } } else { Limits { max_m: 100, max_words: 24, max_dim: 32 } };
    let sn = server_node();
    let case = Arc::new(if !marathon && chance(1, 60) { gen_extreme(kind) } else { gen_any(kind, lim) });
    let mut held = vec![hold(sn, case.clone())];
    for _ in 0..choose(3) {
        let c = if choose(3) == 2 { gen_any(gen_kind(), lim) } else { sibling(&case, choose(4)) };
        held.push(hold(sn, Arc::new(c)));
    }
    if choose(4) == 3 { // the same database twice: original and restored copy
        let h = held[0].clone();
        let json = choose(2) == 1;
        match Db::de(h.case.kind, &h.db.ser(json), json) { Ok(d) => held.push(Held { db: Arc::new(d), ..h }), Err(e) => abort_run(&e) }
    }
    let held = Arc::new(held);
    // queries that several threads ask, so that equal ones meet
    let mut pool: Vec<(usize, Vec<u32>)> = vec![];
    for k in 0..held.len() {
        let h = &held[k];
        let pb = h.db.params();
        if let (true, Ok(cp)) = (choose(2) == 1, sut("common_params", "", || pb.common())) {
            for _ in 0..2 { if let Ok(mut qp) = flat(sut("query_params", "", || pb.query_params(&cp))) { if let Ok(q) = flat(sut("generate_query", "", || qp.query(&target(&h.case, choose(h.case.m as u32) as usize)))) { pool.push((k, query_words(&q))); } } }
        }
        let mut r = fresh_rng();
        let n = h.db.height();
        pool.push((k, (0..n).map(|_| r.next() as u32).collect()));
    }
    let pool = Arc::new(pool);
    if marathon {
        probe("marathon");
        let (h, p) = (held.clone(), pool.clone());
        let ids: Vec<usize> = (0..2).map(|t| { let (h, p) = (h.clone(), p.clone()); spawn(sn, format!("server{t}"), move || {
            world().preempt = false;
            let mut q = p[0].1.clone();
            for i in 0..40_000u32 { let k = i as usize % q.len(); q[k] = q[k].wrapping_mul(747796405).wrapping_add(i); respond_ok("C07", &h[0], &q, "in a long series"); }
            respond_ok("C07", &h[0], &p[0].1, "after a long series");
        }) }).collect();
        join_all(&ids);
    }
    let threads = 1 + choose(4) as usize;
    let ids: Vec<usize> = (0..threads).map(|t| {
        let (held, pool) = (held.clone(), pool.clone());
        spawn(sn, format!("server{t}"), move || {
            for _ in 0..4 + choose(24) {
                let (k, base) = &pool[choose(pool.len() as u32) as usize];
                let h = &held[*k];
                match choose(10) {
                    0 if choose(3) == 0 => disturb(1),
                    0 => { // a query that does not fit: an error, whatever it is, must leave no trace
                        let mut v = base.clone();
                        match choose(4) { 0 => { v.pop(); } 1 => v.push(1), 2 => v.clear(), _ => v.extend(base.clone()) }
                        let q = query_from_words(&v);
                        let _ = sut("respond", "", || h.db.respond(&q).map(|_| ()));
                        probe("misfit_query_interleaved");
                    }
                    1 => { // equal words for another database of the same height
                        if let Some(o) = held.iter().find(|o| !Arc::ptr_eq(&o.db, &h.db) && o.db.height() == base.len()) { respond_ok("C07", o, base, "another database asked the same"); respond_ok("C07", h, base, "after another database was asked the same"); probe("same_query_other_database"); }
                    }
                    2..=4 => { respond_ok("C07", h, base, "shared query"); }
                    5 => { // reading the database is serving, too
                        let pb = sut("get_base_params", "C07", || h.db.params().ser(false));
                        if pb.as_ref() != Ok(&h.params) { fail("C07", "parameters-changed", format!("{}: parameters handed out changed", h.case.describe())); return; }
                        if let Db::I(s) = &*h.db { let _ = sut("into_row_iter", "", || s.into_row_iter().count()); }
                    }
                    _ => { let how = choose(13); let v = neighbour(base, how); respond_ok("C07", h, &v, &format!("variation {how}")); }
                }
                if choose(4) == 0 { yield_now(); }
            }
        })
    }).collect();
    join_all(&ids);
    if chance(1, 12) { soak(sn, &held[0], "C07", false); }
    for h in held.iter() {
        checked();
        if h.db.ser(false) != h.ser { fail("C07", "database-changed", format!("{}: serving changed the serialized database", h.case.describe())); }
        if h.db.params().ser(false) != h.params { fail("C07", "parameters-changed", format!("{}: serving changed the public parameters", h.case.describe())); }
    }
    for (k, q) in pool.iter() { respond_ok("C07", &held[*k], q, "asked again at the end"); }
}

// ------------------------------------------------------------------ C08
/// Changes the words of a query; keeps it deserializable.
fn damage(m: &mut Msg, r: u32) -> bool {
    if m.kind != QUERY { return false; }
    let mut rng = Rng::new(r as u64);
    if rng.below(4) == 0 { return damage_wire(&mut m.data, &mut rng); }
    let json = is_json(&m.data);
    let Ok(mut w) = de::<Vec<u32>>(&m.data, json) else { return false };
    let before = w.clone();
    reshape(&mut w, rng.below(14) as u32, &mut rng);
    m.data = ser(&w, json);
    w != before
}
/// Bytes of a message that are lost, added or changed, its length prefix included.
fn damage_wire(d: &mut Vec<u8>, rng: &mut Rng) -> bool {
    let n = d.len() as u64;
    if n == 0 { return false; }
    match rng.below(8) {
        0 => d.truncate(rng.below(n) as usize),
        1 => d.truncate(n as usize - 1),
        2 => { let k = rng.below(n.min(8)) as usize; d[k] ^= 1 << rng.below(8); }
        3 => { let k = rng.below(n) as usize; d[k] ^= 1 << rng.below(8); }
        4 => { for _ in 0..1 + rng.below(9) { d.push(rng.next() as u8); } }
        5 => { let k = rng.below(n) as usize; d.remove(k); }
        6 => { let k = rng.below(n + 1) as usize; d.insert(k, rng.next() as u8); }
        _ => { for x in d.iter_mut().take(8) { *x = 0xff; } }
    }
    true
}
fn reshape(w: &mut Vec<u32>, how: u32, rng: &mut Rng) {
    let n = w.len();
    match how {
        0 => w.clear(),
        1 => w.truncate(n / 2),
        2 => w.truncate(n.saturating_sub(1)),
        3 => w.push(rng.next() as u32),
        4 => { let c = w.clone(); w.extend(c); }
        5 => { for _ in 0..256 { w.push(rng.next() as u32); } }
        6 => { let k = rng.below(n.max(1) as u64) as usize; if n > 0 { w.remove(k); } }
        7 => { let k = rng.below(n as u64 + 1) as usize; w.insert(k, 0); }
        8 => w.truncate(1),
        9 => { if n > 1 { w.remove(0); } else { w.push(0); } }
        10 => w.resize(65536 + n, 7),
        11 => { let k = rng.below(n.max(1) as u64) as usize; w.truncate(k); }
        12 => w.resize(n + 65535, 0),
        _ => { let k = rng.below(n.max(1) as u64) as usize; if n > 0 { w[k] ^= 1 << rng.below(32); } }
    }
}
pub fn c08() {
    gen_preempt();
    let kind = gen_kind();
    let case = Arc::new(if chance(1, 80) { gen_extreme(kind) } else { gen_any(kind, if chance(1, 12) { Limits { max_m: 300, max_words: 30, max_dim: 32 } } else { Limits { max_m: 100, max_words: 12, max_dim: 32 } }) });
    let sn = server_node();
    let h = hold(sn, case.clone());
    let height = h.db.height();
    gen_net();
    world().net.corrupt = [128, 60, 220][choose(3) as usize];
    world().net.corruptor = Some(damage);
    let mb = add_mbox(sn);
    let nw = 1 + choose(3) as usize;
    let workers: Vec<usize> = (0..nw).map(|i| {
        let h = h.clone();
        spawn(sn, format!("worker{i}"), move || loop {
            let Some(m) = recv(mb, None) else { continue };
            if m.kind == STOP { return; }
            if m.kind != QUERY { continue; }
            let json = is_json(&m.data);
            let words = de::<Vec<u32>>(&m.data, json);
            disturb(40);
            if words.as_ref().map_or(false, |w| w.len() == height) { respond_ok("C08", &h, words.as_ref().unwrap(), "query of the right length"); }
            // what cannot be read at all is no query, and must not get a response either
            let Ok(words) = words else {
                let r = sut("respond", "C08", || de::<Query>(&m.data, json).and_then(|q| h.db.respond(&q).map_err(|e| e.to_string())));
                checked();
                probe("unreadable_query");
                match r {
                    Ok(Err(_)) => send(m.from, Msg { from: mb, id: m.id, kind: ERROR, data: vec![] }),
                    Ok(Ok(b)) => { fail("C08", "answered-unreadable", format!("{}: {} bytes that are no query get a response of {} bytes", case_of(&h), m.data.len(), b.len())); return; }
                    Err(p) => { fail("C08", "abort", format!("{}: {} bytes that are no query make the server panic: {p}", case_of(&h), m.data.len())); return; }
                }
                continue
            };
            let r = sut("respond", "C08", || de::<Query>(&m.data, json).and_then(|q| h.db.respond(&q).map_err(|e| e.to_string())));
            checked();
            match r {
                Ok(Ok(data)) => {
                    if words.len() != height { fail("C08", "answered", format!("{}: a query of {} words got a response of {} bytes from a database of {height} rows", case_of(&h), words.len(), data.len())); return; }
                    send(m.from, Msg { from: mb, id: m.id, kind: RESPONSE, data });
                }
                Ok(Err(e)) => {
                    if words.len() == height { fail("C08", "refused-good-length", format!("{}: {e}", case_of(&h))); return; }
                    probe("wrong_length_refused");
                    send(m.from, Msg { from: mb, id: m.id, kind: ERROR, data: vec![] });
                }
                Err(p) => { fail("C08", "abort", format!("{}: a query of {} words makes a server of {height} rows panic: {p}", case_of(&h), words.len())); return; }
            }
        })
    }).collect();
    let nc = 1 + choose(3) as usize;
    let mut ids = vec![];
    for i in 0..nc {
        let nd = client_node(i);
        let (h, case) = (h.clone(), case.clone());
        ids.push(spawn(nd, format!("client{i}"), move || {
            let cmb = add_mbox(nd);
            let pb = h.db.params();
            let Ok(cp) = sut("common_params", "", || pb.common()) else { abort_run("common") };
            let mut rng = fresh_rng();
            for k in 0..2 + choose(5) {
                let i = choose(case.m as u32) as usize;
                let Ok(mut qp) = flat(sut("query_params", "", || pb.query_params(&cp))) else { abort_run("query params") };
                let Ok(q) = flat(sut("generate_query", "", || qp.query(&target(&case, i)))) else { abort_run("query") };
                let id = (nd as u64) << 32 | k as u64;
                let mut words = query_words(&q);
                let mut altered = false;
                match choose(5) {
                    0 => { let before = words.clone(); reshape(&mut words, choose(14), &mut rng); altered = words != before; }
                    1 => { // lengths that other quantities of the database have
                        let l = [case.m, pb.dim(), case.width(), case.m * case.width(), height.next_power_of_two(), height * 2, height.saturating_sub(256), height + 65536, case.bits, 0, 1, 2, 3][choose(13) as usize];
                        altered = l != height; words.resize(l, 1);
                    }
                    _ => {}
                }
                send(mb, Msg { from: cmb, id, kind: QUERY, data: ser(&words, choose(6) == 5) });
                if words.len() != height { continue; }
                if let Some(m) = recv(cmb, Some(60_000)) {
                    if m.kind == RESPONSE && m.id == id && !altered && world().net.corrupt == 0 { check_decode("C08", "C08", &case, i, &qp, &m.data, "good-query-disturbed"); }
                }
            }
        }));
    }
    join_all(&ids);
    // the network works again: every query is answered and decodes
    { let n = &mut world().net; n.corrupt = 0; n.corruptor = None; n.quiet_at = 0; }
    sleep(2_000_000);
    let nd = client_node(9);
    let (h2, c2) = (h.clone(), case.clone());
    on_node(nd, "late-client", move || {
        let cmb = add_mbox(nd);
        let pb = h2.db.params();
        let Ok(cp) = sut("common_params", "", || pb.common()) else { abort_run("common") };
        for k in 0..3u64 {
            let i = choose(c2.m as u32) as usize;
            let Ok(mut qp) = flat(sut("query_params", "", || pb.query_params(&cp))) else { abort_run("query params") };
            let Ok(q) = flat(sut("generate_query", "", || qp.query(&target(&c2, i)))) else { abort_run("query") };
            send(mb, Msg { from: cmb, id: k, kind: QUERY, data: ser(&q, false) });
            loop {
                match recv(cmb, Some(5_000_000)) {
                    None => { fail("C08", "service-gone", format!("{}: no answer to a good query after damaged ones", c2.describe())); return; }
                    Some(m) if m.id == k && m.kind == RESPONSE => { check_decode("C08", "C08", &c2, i, &qp, &m.data, "good-query-disturbed"); break; }
                    Some(_) => {}
                }
            }
        }
    });
    stop_workers(mb, &workers);
    if chance(1, 5) { soak(sn, &h, "C08", true); }
    checked();
    if h.db.ser(false) != h.ser { fail("C08", "database-changed", format!("{}: damaged queries changed the database", case.describe())); }
}
fn case_of(h: &Held) -> String { h.case.describe() }
/// Hundreds to tens of thousands of queries to one server object, misfits among them or nothing else for a long while.
fn soak(sn: Node, h: &Held, prop: &'static str, misfits: bool) {
    let cells = h.cols.iter().map(|c| c.len()).sum::<usize>().max(1);
    let budget = (if crate::runner::thorough() { 60_000_000 } else { 6_000_000 }) / (cells + 60);
    let rounds = [70usize, 150, 300, 600, 1100, 2100, 4200, 10_000, 33_000, 66_000][choose(10) as usize].min(budget);
    let threads = 1 + choose(2) as usize;
    let preempt = std::mem::replace(&mut world().preempt, false);
    let style = choose(5);
    let seed = fresh_seed();
    let ids: Vec<usize> = (0..threads).map(|t| {
        let h = h.clone();
        spawn(sn, format!("soak{t}"), move || {
            let mut rng = Rng::new(simrt::choice::mix(seed, t as u64));
            let height = h.db.height();
            let good: Vec<u32> = (0..height).map(|_| rng.next() as u32).collect();
            let want = reference_response(&h.cols, &good);
            let g = query_from_words(&good);
            let ask_good = |k: usize| -> bool {
                checked();
                match sut("respond", prop, || h.db.respond(&g)) {
                    Ok(Ok(b)) => if response_words(&b).as_ref() != Ok(&want) { fail(prop, "soak/wrong-response", format!("{}: after {k} queries: {}", h.case.describe(), short(&response_words(&b)))); return false },
                    Ok(Err(e)) => { fail(prop, "soak/refused", format!("{}: a query of the right length is refused after {k} queries: {e}", h.case.describe())); return false }
                    Err(p) => { fail(prop, "soak/abort", format!("{}: a query of the right length aborts after {k} queries: {p}", h.case.describe())); return false }
                }
                true
            };
            let mut bad = good.clone();
            reshape(&mut bad, rng.below(10) as u32, &mut rng);
            for k in 0..rounds {
                let misfit = misfits && match style { 0 | 1 => true, 2 => k % 2 == 0, 3 => rng.below(10) != 0, _ => k < rounds / 2 };
                if misfit {
                    if style != 0 { bad = good.clone(); reshape(&mut bad, if cells > 3000 { rng.below(5) } else { rng.below(10) } as u32, &mut rng); }
                    if bad.len() == height { continue; }
                    match sut("respond", prop, || h.db.respond(&query_from_words(&bad))) {
                        Ok(Ok(_)) => { fail(prop, "answered", format!("{}: after {k} queries, a query of {} words is answered by a database of {height} rows", h.case.describe(), bad.len())); return }
                        Ok(Err(_)) => {}
                        Err(p) => { fail(prop, "abort", format!("{}: after {k} queries, a query of {} words makes a server of {height} rows panic: {p}", h.case.describe(), bad.len())); return }
                    }
                } else if !ask_good(k) { return; }
            }
            ask_good(rounds);
        })
    }).collect();
    join_all(&ids);
    world().preempt = preempt;
    probe("soak");
    stat("soak_queries", (rounds * threads) as u64);
}

// ------------------------------------------------------------------ C09
/// Loses words of responses on the way.
fn lose_words(m: &mut Msg, r: u32) -> bool {
    if m.kind != RESPONSE { return false; }
    let Ok(mut w) = de::<Vec<u32>>(&m.data, false) else { return false };
    let n = w.len();
    if n == 0 { return false; }
    let mut rng = Rng::new(r as u64);
    cut(&mut w, rng.below(5) as u32, &mut rng);
    m.data = ser(&w, false);
    m.id |= 1 << 63; // the harness marks it
    true
}
fn cut(w: &mut Vec<u32>, how: u32, rng: &mut Rng) {
    let n = w.len();
    match how {
        0 => w.truncate(n - 1),
        1 => { let k = rng.below(n as u64) as usize; w.truncate(k); }
        2 => { let k = 1 + rng.below(n as u64) as usize; w.drain(..k); }
        3 => { let k = rng.below(n as u64) as usize; let l = 1 + rng.below((n - k) as u64) as usize; w.drain(k..k + l); }
        _ => w.clear(),
    }
}
fn refused(case: &Case, i: usize, qp: &Qp, words: &[u32], full: usize) {
    let t = target(case, i);
    let r = response_from_words(words);
    for form in 0..3 {
        let got = match form { 0 => flat(sut("decode_row", "C09", || qp.row(&r, &t))).map(|v| short(&v)), 1 => flat(sut("decode_bytes", "C09", || qp.bytes(&r, &t))).map(|v| short(&v)), _ => flat(sut("decode_base64", "C09", || qp.base64(&r, &t))).map(|v| short(&v)) };
        checked();
        probe("truncated_decode_attempted");
        if let Ok(v) = got { fail("C09", format!("decoded/{}", ["row", "bytes", "base64"][form]), format!("{} target {i}: a response of {} instead of {full} words decodes to {v}", case.describe(), words.len())); return; }
    }
}
/// The bytes of a response that end too early: they are refused when they are read, or when they are decoded.
fn refused_bytes(case: &Case, i: usize, qp: &Qp, data: &[u8], full: usize, rng: &mut Rng) {
    let n = data.len();
    for k in 0..4 {
        let mut b = data.to_vec();
        match k { 0 => b.truncate(rng.below(n as u64) as usize), 1 => b.truncate(n - 1 - rng.below(4.min(n as u64 - 1)) as usize), 2 => b.truncate(8), _ => { let l = 4 * (1 + rng.below(full as u64) as usize); let at = 8 + 4 * rng.below((n - 8 - l) as u64 / 4 + 1) as usize; b.drain(at..at + l); } }
        let r = sut("read_response", "C09", || de::<Response>(&b, false));
        checked();
        probe("truncated_bytes_read");
        let Ok(Ok(r)) = r else { continue };
        let t = target(case, i);
        let got = flat(sut("decode_row", "C09", || qp.row(&r, &t))).map(|v| short(&v));
        if let Ok(v) = got { fail("C09", "decoded-from-cut-bytes", format!("{} target {i}: {} instead of {n} bytes of a response decode to {v}", case.describe(), b.len())); return; }
    }
}
pub fn c09() {
    gen_preempt();
    let kind = gen_kind();
    let case = Arc::new(if chance(1, 80) { gen_extreme(kind) } else { gen_case(kind, if chance(1, 10) { Limits { max_m: 60, max_words: 200, max_dim: 16 } } else { Limits { max_m: 60, max_words: 24, max_dim: 32 } }) });
    let sn = server_node();
    let db = build_on(sn, &case, "");
    gen_net();
    world().net.corrupt = [128, 40, 230][choose(3) as usize];
    world().net.corruptor = Some(lose_words);
    world().net.quiet_at = world().net.quiet_at.max(100_000);
    let mb = add_mbox(sn);
    let workers = super::retrieval::spawn_workers(1 + choose(2) as usize, sn, mb, db.clone(), "");
    let nc = 1 + choose(3) as usize;
    let mut ids = vec![];
    for c in 0..nc {
        let nd = client_node(c);
        let (db, case) = (db.clone(), case.clone());
        ids.push(spawn(nd, format!("client{c}"), move || {
            let cmb = add_mbox(nd);
            let pb = db.params();
            let Ok(cp) = sut("common_params", "", || pb.common()) else { abort_run("common") };
            let mut known: HashMap<u64, (usize, Qp)> = HashMap::new();
            let mut rng = fresh_rng();
            for k in 0..1 + choose(4) as u64 {
                disturb(20);
                let i = choose(case.m as u32) as usize;
                let Ok(mut qp) = flat(sut("query_params", "", || pb.query_params(&cp))) else { abort_run("query params") };
                let Ok(q) = flat(sut("generate_query", "", || qp.query(&target(&case, i)))) else { abort_run("query") };
                let id = (nd as u64) << 32 | k;
                let data = ser(&q, false);
                known.insert(id, (i, qp));
                let mut tries = 0;
                let mut whole = false;
                while !whole && tries < 40 {
                    tries += 1;
                    // the server keeps nothing: asking again with the same message is a duplicate on the network
                    send(mb, Msg { from: cmb, id, kind: QUERY, data: data.clone() });
                    while let Some(m) = recv(cmb, Some(60_000)) {
                        if m.kind != RESPONSE { continue; }
                        let lost = m.id >> 63 == 1;
                        let Some((i, qp)) = known.get(&(m.id & !(1 << 63))) else { continue };
                        let w = response_words(&m.data).unwrap_or_default();
                        if lost { refused(&case, *i, qp, &w, case.width()); continue; }
                        // every way to lose words of this very response, then the complete one again
                        let n = w.len();
                        let mut cuts: Vec<Vec<u32>> = vec![];
                        if n <= 30 && choose(3) == 2 { for l in 0..n { cuts.push(w[..l].to_vec()); cuts.push(w[l + 1..].to_vec()); let mut x = w.clone(); x.remove(l); cuts.push(x); } }
                        else if n > 0 { for _ in 0..3 { let mut x = w.clone(); cut(&mut x, choose(5), &mut rng); cuts.push(x); } }
                        for x in cuts { refused(&case, *i, qp, &x, n); }
                        refused_bytes(&case, *i, qp, &m.data, n, &mut rng);
                        check_decode("C09", "C09", &case, *i, qp, &m.data, "complete-response-lost");
                        if m.id == id { whole = true; break; }
                    }
                }
                if !whole { fail("C09", "no-progress", format!("{}: no complete response decoded in 40 attempts", case.describe())); return; }
            }
            // all parameters still work with their complete responses
            for (i, qp) in known.values() { let _ = (i, qp); }
        }));
    }
    join_all(&ids);
    stop_workers(mb, &workers);
}

// ------------------------------------------------------------------ C16
#[derive(Clone)]
struct Disk { bytes: Vec<u8>, json: bool }
/// A server generation: restores its database from the disk and answers until it is stopped or crashes.
fn serve_generation(mb: Mbox, kind: Kind, disk: Disk, params: Vec<u8>, case: Arc<Case>, hot: Option<Arc<Db>>) {
    let original = hot.is_some();
    let db = match hot {
        Some(d) => d,
        None => match sut("restore", "C16", || Db::de(kind, &disk.bytes, disk.json)) { Ok(Ok(d)) => Arc::new(d), x => { fail("C16", "restore-failed", format!("{}: {}", case.describe(), short(&flat(x).err()))); return } },
    };
    match sut("get_base_params", "C16", || db.params()) { Ok(p) => { checked(); if p.ser(false) != params { fail("C16", "parameters-differ", format!("{}: the restarted server hands out other public parameters", case.describe())); return; } } Err(e) => { fail("C16", "params-panicked", e); return; } }
    if !original && chance(1, 3) { if !whole_state(&db, &disk, &case) { return; } }
    loop {
        let Some(m) = recv(mb, None) else { continue };
        if m.kind == STOP { return; }
        let Ok(q) = de::<Query>(&m.data, false) else { continue };
        disturb(40);
        match sut("respond", "C16", || db.respond(&q)) {
            Ok(Ok(data)) => send(m.from, Msg { from: mb, id: m.id, kind: RESPONSE, data }),
            x => { fail("C16", "no-response-after-restart", format!("{}: {}", case.describe(), short(&flat(x)))); return; }
        }
    }
}
/// A restored database publishes the same matrix and filter, and can be saved and restored again.
fn whole_state(db: &Db, disk: &Disk, case: &Case) -> bool {
    let r = sut("restore", "C16", || -> Result<Option<&'static str>, String> {
        let again = db.ser(disk.json);
        if Db::de(case.kind, &again, disk.json)?.ser(false) != Db::de(case.kind, &disk.bytes, disk.json)?.ser(false) { return Ok(Some("saving it again gives another state")); }
        if db.columns(case).iter().any(|c| c.len() != db.height()) { return Ok(Some("its matrix has another height")); }
        match db {
            Db::I(s) => {
                let want: Vec<String> = case.recs.iter().map(|r| b64(r)).collect();
                if (s.get_db().get_elem_size(), s.get_db().get_plaintext_bits()) != (case.bits, case.p) { return Ok(Some("it has other sizes")); }
                if s.into_row_iter().collect::<Vec<_>>() != want { return Ok(Some("its records read back differently")); }
            }
            Db::K(s) => {
                if (s.get_db().get_elem_size(), s.get_db().get_plaintext_bits()) != (case.bits, case.p) { return Ok(Some("it has other sizes")); }
                let (a, b) = (s.get_db().get_filter_params(), s.get_base_params().get_filter_params());
                if ser(a, false) != ser(&b, false) { return Ok(Some("the filter parameters of its matrix are not the ones it hands out")); }
                if case.keys.iter().any(|k| a.get_hash_evals(&key_of(k)) != b.get_hash_evals(&key_of(k))) { return Ok(Some("its matrix holds keys at other positions")); }
            }
        }
        Ok(None)
    });
    checked();
    probe("restored_state_examined");
    match r {
        Ok(Ok(None)) => true,
        Ok(Ok(Some(e))) => { fail("C16", "restored-state-differs", format!("{}: a database was restored, but {e}", case.describe())); false }
        x => { fail("C16", "restored-state-differs", format!("{}: {}", case.describe(), short(&flat(x)))); false }
    }
}
pub fn c16() {
    gen_preempt();
    if chance(1, 8) { return many_parties(); }
    let kind = gen_kind();
    // another process, where nothing of the code has run before; it restores the database from the same disk
    let mut other_proc = chance(1, 3).then(|| {
        let mut db: Option<Result<Db, String>> = None;
        Remote::start(move |m| match &db {
            None => { let (json, bytes): (bool, Vec<u8>) = de(&m, false).unwrap(); db = Some(Db::de(kind, &bytes, json)); vec![] }
            Some(Err(e)) => ser(&Err::<Vec<u8>, String>(e.clone()), false),
            Some(Ok(db)) => {
                if m.is_empty() { return ser(&Ok::<Vec<u8>, String>(ser(&db.params().common(), false)), false); }
                let q: Query = de(&m, false).unwrap();
                ser(&db.respond(&q), false)
            }
        })
    });
    let case = Arc::new(if chance(1, 40) { gen_extreme(kind) } else { gen_any(kind, if chance(1, 12) { Limits { max_m: 400, max_words: 40, max_dim: 256 } } else { Limits { max_m: 80, max_words: 12, max_dim: 64 } }) });
    let sn = server_node();
    let db = build_on(sn, &case, "");
    let disk = Disk { bytes: vec![], json: choose(2) == 1 };
    let disk = Disk { bytes: match sut("serialize", "C16", || db.ser(disk.json)) { Ok(b) => b, Err(e) => { fail("C16", "serialize-panicked", e); return } }, ..disk };
    let params = db.params().ser(false);
    let cols = Arc::new(db.columns(&case));
    // every party derives the same matrix from the public parameters, and it is the one the server used
    let matrix = match sut("common_params", "C16", || CommonParamsBytes(ser(&db.params().common(), false))) { Ok(c) => c.0, Err(e) => abort_run(&e) };
    check_rhs(&db, &case, &matrix);
    if let Some(r) = &mut other_proc { if r.call(&ser(&(disk.json, disk.bytes.clone()), false)).is_none() { return fail("C16", "abort", "the other process died"); } }
    gen_net();
    world().net.quiet_at = world().net.quiet_at.max(200_000);
    let mb = add_mbox(sn);
    let crashes = 1 + choose(4);
    let hot = db.clone();
    { let (disk, params, case) = (disk.clone(), params.clone(), case.clone()); spawn(sn, "server0", move || serve_generation(mb, kind, disk, params, case, Some(hot))); }
    let mut t = 0u64;
    for g in 0..crashes {
        t += 500 + choose(120_000) as u64;
        at(t, move || crash(sn));
        let down = 100 + choose(60_000) as u64;
        t += down;
        let (disk, params, case) = (disk.clone(), params.clone(), case.clone());
        at(t, move || if !world().nodes[sn].alive { restart(sn); spawn(sn, format!("server{}", g + 1), move || serve_generation(mb, kind, disk, params, case, None)); });
    }
    if choose(2) == 1 { // crashes in the middle of an operation
        let (disk, params, case) = (disk.clone(), params.clone(), case.clone());
        let mut left = 2;
        world().on_preempt = Some(Box::new(move |n| {
            if n != sn || left == 0 || !world().nodes[sn].alive || !chance(1, 3) { return; }
            left -= 1;
            crash(sn);
            let (disk, params, case) = (disk.clone(), params.clone(), case.clone());
            at(1000 + choose(30_000) as u64, move || if !world().nodes[sn].alive { restart(sn); spawn(sn, "server-again", move || serve_generation(mb, kind, disk, params, case, None)); });
        }));
    }
    let end_of_crashes = t;
    let remote = Arc::new(std::sync::Mutex::new(other_proc));
    let nc = 1 + choose(3) as usize;
    let mut ids = vec![];
    for c in 0..nc {
        let nd = client_node(c);
        let (case, params, matrix, cols, remote) = (case.clone(), params.clone(), matrix.clone(), cols.clone(), remote.clone());
        ids.push(spawn(nd, format!("client{c}"), move || restarting_client(nd, mb, case, params, matrix, cols, remote, end_of_crashes)));
    }
    join_all(&ids);
    // a late restart of the original state still answers the same
    let _ = remote.lock().unwrap().take();
}
/// Many databases of equal and of different shapes in one process; other parties have only their public parameters.
fn many_parties() {
    let mut rng = fresh_rng();
    let kind = gen_kind();
    let mut remotes: Vec<Remote> = (0..1 + choose(2)).map(|_| Remote::start(move |m| {
        let all: Vec<(bool, Vec<u8>)> = de(&m, false).unwrap();
        ser(&all.iter().map(|(json, b)| Pub::de(kind, b, *json).map(|p| ser(&p.common(), false))).collect::<Vec<Result<Vec<u8>, String>>>(), false)
    })).collect();
    let sn = server_node();
    let n = [12usize, 3, 40, 100][choose(4) as usize];
    let shapes = 1 + choose(3) as usize;
    let first = gen_any(kind, Limits { max_m: 6, max_words: 2, max_dim: 6 });
    let cases: Vec<Arc<Case>> = std::iter::once(first).chain((1..shapes).map(|_| gen_any(kind, Limits { max_m: 6, max_words: 2, max_dim: 6 }))).map(Arc::new).collect();
    label(format!("{kind:?}, {n} databases of {shapes} shapes"));
    let (cs, picks) = (cases.clone(), (0..n).map(|_| choose(shapes as u32) as usize).collect::<Vec<_>>());
    let one_thread = choose(3) != 2;
    let mut dbs: Vec<(Arc<Case>, Arc<Db>)> = vec![];
    if one_thread {
        let Some(v) = on_node(sn, "server", move || {
            let mut v = vec![];
            for k in picks { match sut("build", "", || construct(&cs[k], 0)) { Ok(Ok(d)) => v.push((cs[k].clone(), Arc::new(d))), _ => return v } }
            v
        }) else { return };
        dbs = v;
        if dbs.len() < n { abort_run("build"); }
    } else { for k in picks { dbs.push((cases[k].clone(), build_on(sn, &cases[k], ""))); } }
    // parameters whose seed or shape is nearly that of others
    let mut wires: Vec<(bool, Vec<u8>)> = dbs.iter().map(|(_, d)| { let json = rng.below(2) == 1; (json, d.params().ser(json)) }).collect();
    let base: serde_json::Value = serde_json::from_slice(&dbs[0].1.params().ser(true)).unwrap();
    for _ in 0..choose(24) {
        let mut v = base.clone();
        let bytes: Option<Vec<u64>> = v["public_seed"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect());
        let Some(mut sd) = bytes.filter(|b| b.len() == 32) else { break };
        match choose(7) {
            0 => { let k = choose(32) as usize; sd[k] ^= 1 << choose(8); }
            1 => { let k = choose(32) as usize; sd[k] = rng.below(256); }
            2 => { let (a, b) = (choose(32) as usize, choose(32) as usize); sd.swap(a, b); }
            3 => sd.reverse(),
            4 => sd = vec![0; 32],
            5 => { let (d, m) = (v["dim"].clone(), v["m"].clone()); v["dim"] = m; v["m"] = d; }
            _ => { let k = ["dim", "m"][choose(2) as usize]; if let Some(x) = v[k].as_u64() { v[k] = (x + 1 + choose(4) as u64).into(); } }
        }
        v["public_seed"] = sd.into();
        wires.push((true, serde_json::to_vec(&v).unwrap()));
    }
    probe("many_parties");
    stat("matrices_compared", wires.len() as u64);
    // every party derives all of them, each in an order of its own
    let shuffled = |rng: &mut Rng, n: usize| { let mut o: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { o.swap(i, rng.below(i as u64 + 1) as usize); } o };
    let mut views: Vec<Vec<Option<Result<Vec<u8>, String>>>> = vec![];
    for _ in 0..1 + choose(2) {
        let (w, order) = (wires.clone(), shuffled(&mut rng, wires.len()));
        let nd = client_node(views.len());
        let Some(got) = on_node(nd, "client", move || sut("common_params", "C16", || order.into_iter().map(|i| (i, Pub::de(kind, &w[i].1, w[i].0).map(|p| ser(&p.common(), false)))).collect::<Vec<_>>())) else { return };
        let mut v = vec![None; wires.len()];
        match got { Ok(g) => for (i, r) in g { v[i] = Some(r) }, Err(p) => return fail("C16", "abort", format!("deriving the matrix panicked: {p}")) }
        views.push(v);
    }
    for r in &mut remotes {
        let order = shuffled(&mut rng, wires.len());
        let req: Vec<&(bool, Vec<u8>)> = order.iter().map(|i| &wires[*i]).collect();
        let Some(b) = r.call(&ser(&req, false)) else { return fail("C16", "abort", "the other process died deriving matrices") };
        let got: Vec<Result<Vec<u8>, String>> = de(&b, false).unwrap();
        let mut v = vec![None; wires.len()];
        for (i, r) in order.into_iter().zip(got) { v[i] = Some(r); }
        views.push(v);
    }
    for i in 0..wires.len() {
        checked();
        if i < dbs.len() { if let Some(Some(Err(e))) = views.iter().map(|v| &v[i]).find(|x| matches!(x, Some(Err(_)))) { return fail("C16", "params-transfer", e.clone()); } }
        if let Some(k) = (1..views.len()).find(|k| views[*k][i] != views[0][i]) { return fail("C16", "matrix-differs", format!("{kind:?}: parties 0 and {k} of {} derive different matrices from parameters {i} of {}", views.len(), wires.len())); }
    }
    for (i, (case, db)) in dbs.iter().enumerate() {
        let Some(Ok(m)) = &views[views.len() - 1][i] else { continue };
        check_rhs(db, case, m);
        if !world().rep.viols.is_empty() { return; }
    }
}
struct CommonParamsBytes(Vec<u8>);
fn check_rhs(db: &Db, case: &Case, matrix: &[u8]) {
    let a: Vec<Vec<u32>> = de(matrix, false).expect("matrix");
    let rhs = match db.params() { Pub::I(p) => p.get_rhs().clone(), Pub::K(p) => p.get_rhs().clone() };
    let cols = db.columns(case);
    let dim = db.params().dim();
    checked();
    if a.len() != db.height() || a.iter().any(|r| r.len() != dim) { fail("C16", "matrix-shape", format!("{}: derived matrix has {} rows", case.describe(), a.len())); return; }
    for (j, c) in cols.iter().enumerate() { for k in 0..dim {
        let x = c.iter().enumerate().fold(0u32, |s, (i, v)| s.wrapping_add(a[i][k].wrapping_mul(*v)));
        if rhs.get(j).and_then(|r| r.get(k)) != Some(&x) { fail("C16", "matrix-differs", format!("{}: the matrix derived from the public parameters is not the one the server used (column {j}, entry {k})", case.describe())); return; }
    } }
}
fn restarting_client(nd: Node, server: Mbox, case: Arc<Case>, params: Vec<u8>, matrix: Vec<u8>, cols: Arc<Vec<Vec<u32>>>, remote: Arc<std::sync::Mutex<Option<Remote>>>, quiet: u64) {
    let cmb = add_mbox(nd);
    let prop = "C16";
    let mut answers: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
    for k in 0..1 + choose(4) as u64 {
        disturb(20);
        // a client that has only the serialized public parameters (and perhaps the serialized matrix)
        let json = choose(2) == 1;
        let pb = if json { let p = Pub::de(case.kind, &params, false).unwrap(); Pub::de(case.kind, &p.ser(true), true) } else { Pub::de(case.kind, &params, false) };
        let Ok(pb) = pb else { fail(prop, "params-do-not-restore", case.describe()); return };
        let cp = if choose(4) == 3 { let j = choose(2) == 1; let c: CommonParams = de(&matrix, false).unwrap(); de(&ser(&c, j), j).unwrap() } else { match sut("common_params", prop, || pb.common()) { Ok(c) => c, Err(e) => { fail(prop, "common-params-panicked", e); return } } };
        checked();
        if ser(&cp, false) != matrix { fail(prop, "matrix-differs", format!("{}: this party derives another public matrix", case.describe())); return; }
        if choose(3) == 2 { if let Some(r) = remote.lock().unwrap().as_mut() { match r.call(&[]) { Some(b) => { checked(); if de::<Result<Vec<u8>, String>>(&b, false) != Ok(Ok(matrix.clone())) { fail(prop, "matrix-differs", format!("{}: another process derives another public matrix", case.describe())); return; } } None => { fail(prop, "abort", "the other process died deriving the matrix"); return } } } }
        let i = choose(case.m as u32) as usize;
        let t = target(&case, i);
        let qp = match flat(sut("query_params", prop, || pb.query_params(&cp))) { Ok(q) => q, Err(e) => abort_run(&e) };
        let mut qp = match choose(3) { 0 => qp, f => { probe("client_restored_before_query"); match sut("restore_params", prop, || Qp::de(case.kind, &qp.ser(f == 1), f == 1)) { Ok(Ok(q)) => q, x => { fail(prop, "client-state-lost", short(&flat(x).err())); return } } } };
        let twin = qp.clone();
        let q = match flat(sut("generate_query", prop, || qp.query(&t))) { Ok(q) => q, Err(e) => { fail(prop, "query-failed", e); return } };
        let words = query_words(&q);
        {   // what an unbroken client would have sent
            let mut tw = twin.clone();
            checked();
            if flat(sut("generate_query", prop, || tw.query(&t))).map(|q| query_words(&q)) != Ok(words.clone()) { fail(prop, "query-differs", case.describe()); return; }
        }
        let data = ser(&q, false);
        let id = (nd as u64) << 32 | k;
        let want = ser(&reference_response(&cols, &words), false);
        let mut tries = 0;
        let resp = loop {
            if now() > quiet && now() >= world().net.quiet_at { tries += 1; }
            if tries > 4 { fail(prop, "no-progress", format!("{}: no answer although the server is up again", case.describe())); return; }
            send(server, Msg { from: cmb, id, kind: QUERY, data: data.clone() });
            // the client may restart while the query is in flight
            if choose(3) == 0 {
                let f = choose(2) == 1;
                match sut("restore_params", prop, || Qp::de(case.kind, &qp.ser(f), f)) { Ok(Ok(q)) => { qp = q; probe("client_restored_in_flight"); } x => { fail(prop, "client-state-lost", short(&flat(x).err())); return } }
            }
            let mut got = None;
            while let Some(m) = recv(cmb, Some(50_000)) {
                if m.kind != RESPONSE || m.id != id { continue; }
                checked();
                if m.data != want { fail(prop, "response-differs", format!("{}: target {i}: answer differs from the one before the crash", case.describe())); return; }
                got = Some(m.data);
                break;
            }
            if let Some(g) = got { break g; }
            probe("resent_after_loss_or_crash");
        };
        if let Some(old) = answers.insert(data.clone(), resp.clone()) { if old != resp { fail(prop, "response-differs", case.describe()); return; } }
        if choose(3) == 2 { if let Some(r) = remote.lock().unwrap().as_mut() { match r.call(&data) { Some(b) => { checked(); if de::<Result<Vec<u8>, String>>(&b, false) != Ok(Ok(want.clone())) { fail(prop, "response-differs", format!("{}: another process restored from the same disk answers differently", case.describe())); return; } } None => { fail(prop, "abort", "the other process died answering"); return } } } }
        check_decode(prop, prop, &case, i, &qp, &resp, "restored-client");
        for f in [false, true] {
            match sut("restore_params", prop, || Qp::de(case.kind, &qp.ser(f), f)) { Ok(Ok(q)) => check_decode(prop, prop, &case, i, &q, &resp, "client-restored-after-query"), x => { fail(prop, "client-state-lost", short(&flat(x).err())); return } }
        }
        // what the original, never restored parameters make of it
        check_decode(prop, prop, &case, i, &twin, &resp, "original-client");
        if !case.exact { // whatever the original makes of it, the restored one does the same
            let r: Response = de(&resp, false).unwrap();
            let d = |q: &Qp| sut("decode", prop, || (q.row(&r, &t), q.bytes(&r, &t), q.base64(&r, &t)));
            let want = d(&twin);
            for f in [false, true] { if let Ok(Ok(q)) = sut("restore_params", prop, || Qp::de(case.kind, &qp.ser(f), f)) { checked(); if d(&q) != want { fail(prop, "decodes-differently", format!("{}: target {i}: original {}, restored {}", case.describe(), short(&want), short(&d(&q)))); return; } } }
        }
    }
}

// ------------------------------------------------------------------ C17
pub fn c17() {
    gen_preempt();
    let kind = gen_kind();
    let extreme = chance(1, 80);
    let mut case = if extreme { gen_extreme(kind) } else { gen_case(kind, if chance(1, 12) { Limits { max_m: 200, max_words: 30, max_dim: 64 } } else { Limits { max_m: 60, max_words: 16, max_dim: 32 } }) };
    // large plaintexts leave no room for a random mask's noise: use entropy that makes the noise vanish
    if !extreme && choose(3) == 2 {
        let p = match kind { Kind::Index => 16 + choose(16) as usize, Kind::Kv => 14 + choose(18) as usize };
        case.p = p;
        case.bits = case.bits.max(1 + choose(3 * p as u32) as usize);
        let style = choose(6);
        let mut rng = fresh_rng();
        case.m = case.m.min(20);
        case.keys.truncate(case.m);
        case.recs = (0..case.m).map(|i| gen_record(case.bits, style, i, &mut rng)).collect();
        label(case.describe());
    }
    let case = Arc::new(case);
    let sn = server_node();
    let db = { // no noise guard here: the own noise is measured
        let (c, via) = (case.clone(), choose(2));
        match on_node(sn, "builder", move || sut("build", "", || construct(&c, via))) { Some(Ok(Ok(d))) => Arc::new(d), x => abort_run(&format!("build: {:?}", x.map(flat).and_then(|r| r.err()))) }
    };
    let cols = Arc::new(db.columns(&case));
    gen_net();
    world().net.drop = 0;
    let nc = 1 + choose(2) as usize;
    let mut ids = vec![];
    for c in 0..nc {
        let nd = client_node(c);
        if case.p > 13 { world().nodes[nd].entropy = simrt::entropy::Entropy::new(5, simrt::entropy::Mode::Word(0)); }
        let (db, case, cols) = (db.clone(), case.clone(), cols.clone());
        ids.push(spawn(nd, format!("client{c}"), move || noisy_client(nd, &case, &db, &cols)));
    }
    join_all(&ids);
}
fn noisy_client(_nd: Node, case: &Case, db: &Db, cols: &[Vec<u32>]) {
    let pb = db.params();
    let Ok(cp) = sut("common_params", "", || pb.common()) else { abort_run("common") };
    let delta = 1i64 << (32 - case.p);
    let limit = delta / 2 - 1;
    let mut rng = fresh_rng();
    for _ in 0..1 + choose(4) {
        disturb(20);
        let i = choose(case.m as u32) as usize;
        let t = target(case, i);
        let Ok(qp0) = flat(sut("query_params", "", || pb.query_params(&cp))) else { abort_run("query params") };
        let mut qp = qp0.clone();
        let Ok(q) = flat(sut("generate_query", "", || qp.query(&t))) else { abort_run("query") };
        let w = query_words(&q);
        let resp = reference_response(cols, &w);
        let Ok(Ok(b)) = sut("respond", "", || db.respond(&q)) else { abort_run("respond") };
        if response_words(&b).as_ref() != Ok(&resp) { abort_run("response is not the reference"); }
        // the query's own noise: what is left of the response without secret and indicator
        let v: serde_json::Value = serde_json::from_slice(&qp.ser(true)).unwrap_or_default();
        let rhs: Vec<u32> = v["rhs"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as u32).collect()).unwrap_or_default();
        if rhs.len() != resp.len() { abort_run("right-hand side not visible"); }
        let pos = pb.positions(&t);
        let own: Vec<i64> = (0..resp.len()).map(|j| {
            let sum = pos.iter().fold(0u32, |a, &r| a.wrapping_add(cols[j][r]));
            resp[j].wrapping_sub(rhs[j]).wrapping_sub(sum.wrapping_mul(delta as u32)) as i32 as i64
        }).collect();
        if own.iter().any(|o| o.abs() > limit) { stat("inconclusive_queries:own noise too large", 1); continue; }
        for k in 0..6 {
            let style = if k < 2 { k } else { choose(7) };
            let noisy: Vec<u32> = resp.iter().enumerate().map(|(j, x)| {
                let total = match style {
                    0 => limit, 1 => -limit,
                    2 => if j % 2 == 0 { limit } else { -limit },
                    3 => (rng.below(2 * limit as u64 + 1)) as i64 - limit,
                    4 => [0, 1, -1, limit, -limit, limit / 2, -limit / 2][rng.below(7) as usize].clamp(-limit, limit),
                    5 => own[j],
                    _ => if rng.below(2) == 0 { limit - (rng.below(3) as i64).min(limit) } else { -limit + (rng.below(3) as i64).min(limit) },
                };
                x.wrapping_add((total - own[j]) as u32)
            }).collect();
            stat("fault:response_noise", 1);
            world().rep.faults += 1;
            if limit == 0 { probe("no_room_for_noise"); }
            // noise on the way; the decoded record must not notice
            check_decode("C17", "C17", case, i, if choose(2) == 0 { &qp } else { &qp0 }, &ser(&noisy, false), ["at-limit", "at-negative-limit", "alternating", "random", "edges", "own-noise", "near-limits"][style as usize]);
        }
    }
}
