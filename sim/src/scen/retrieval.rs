//! C01, C02: clients retrieve records over a faulty network.
use super::disturb::disturb;
use crate::common::*;
use keyword_pir_lwe::api::Query;
use simrt::*;
use std::sync::Arc;

pub const QUERY: u32 = 1;
pub const RESPONSE: u32 = 2;
pub const ERROR: u32 = 3;
pub const STOP: u32 = 4;

pub fn c01() { cluster(Kind::Index, "C01") }
pub fn c02() { cluster(Kind::Kv, "C02") }

/// Server workers sharing one database and one mailbox.
pub fn spawn_workers(n: usize, nd: Node, mb: Mbox, db: Arc<Db>, prop: &'static str) -> Vec<usize> {
    (0..n).map(|i| {
        let db = db.clone();
        spawn(nd, format!("worker{i}"), move || worker(mb, db, prop))
    }).collect()
}
fn worker(mb: Mbox, db: Arc<Db>, prop: &'static str) {
    loop {
        let Some(m) = recv(mb, None) else { continue };
        match m.kind {
            STOP => return,
            QUERY => {
                disturb(60);
                let json = is_json(&m.data);
                let q: Query = match de(&m.data, json) { Ok(q) => q, Err(_) => { send(m.from, Msg { from: mb, id: m.id, kind: ERROR, data: vec![] }); continue } };
                match sut("respond", prop, || db.respond(&q)) {
                    Ok(Ok(data)) => send(m.from, Msg { from: mb, id: m.id, kind: RESPONSE, data }),
                    Ok(Err(e)) => { fail(prop, "respond-refused", format!("well-formed query refused: {e}")); send(m.from, Msg { from: mb, id: m.id, kind: ERROR, data: vec![] }) }
                    Err(p) => { fail(prop, "respond-panicked", format!("well-formed query: {p}")); send(m.from, Msg { from: mb, id: m.id, kind: ERROR, data: vec![] }) }
                }
            }
            _ => {}
        }
    }
}
pub fn stop_workers(mb: Mbox, ids: &[usize]) { for _ in ids { post(mb, Msg { kind: STOP, ..Default::default() }); } join_all(ids); }

fn cluster(kind: Kind, prop: &'static str) {
    gen_preempt();
    let soak = chance(1, 12);
    let lim = if soak { Limits { max_m: 24, max_words: 4, max_dim: 16 } } else if chance(1, 10) { Limits { max_m: 512, max_words: 48, max_dim: 512 } } else { Limits::default() };
    let extreme = !soak && chance(1, 20);
    let sn = server_node();
    let mut groups = vec![];
    for g in 0..if extreme || soak || !chance(1, 6) { 1 } else { 2 + choose(2) } {
        let case = Arc::new(if extreme { gen_extreme(kind) } else { gen_case(if g > 0 && choose(4) == 3 { gen_kind() } else { kind }, lim) });
        let db = build_on(sn, &case, prop);
        groups.push((case, db));
    }
    if groups.len() > 1 { probe("several_databases_in_one_process"); }
    gen_net();
    if soak { world().net.quiet_at *= 10; probe("soak_run"); }
    let mut workers = vec![];
    let mut clients = vec![];
    let alone = groups.len() == 1;
    for (case, db) in &groups {
        let mb = add_mbox(sn);
        let nw = 1 + choose(if alone { 3 } else { 2 }) as usize;
        workers.push((mb, spawn_workers(nw, sn, mb, db.clone(), prop)));
        let nc = 1 + choose(if alone { 4 } else { 2 }) as usize;
        if chance(1, 4) && world().net.quiet_at > 50_000 {
            let (a, b) = (sn + 1 + choose(nc as u32) as usize, sn);
            let from = choose(200_000) as u64;
            at(from, move || { fault("partition"); let n = &mut world().net; n.blocked.insert((a, b)); n.blocked.insert((b, a)); });
            at(from + 150_000, move || { world().net.blocked.clear(); });
        }
        for i in 0..nc {
            let nd = client_node(i);
            let (case, db) = (case.clone(), db.clone());
            let count = if soak { 60 } else { 1 + choose(4) as usize };
            clients.push(spawn(nd, format!("client{i}"), move || client(nd, mb, &case, &db, count, soak, prop)));
        }
    }
    join_all(&clients);
    for (mb, w) in &workers { stop_workers(*mb, w); }
    for (case, db) in &groups {
    // reading the records directly on the server
    if let Db::I(s) = &**db {
        let r = sut("into_row_iter", prop, || s.into_row_iter().collect::<Vec<String>>());
        checked();
        let want: Vec<String> = case.b64s();
        match r { Ok(v) if v == want => {} other => fail(prop, "direct-read", format!("{}: into_row_iter gives {}, stored {}", case.describe(), short(&other), short(&want))) }
        let i = choose(case.m as u32) as usize;
        let r = sut("get_db_entry", prop, || { use keyword_pir_lwe::db::DatabaseMatrix; s.get_db().get_db_entry(i) });
        checked();
        if r.as_ref() != Ok(&want[i]) { fail(prop, "direct-read", format!("{}: get_db_entry({i}) gives {}, stored {}", case.describe(), short(&r), want[i])); }
    }
    row_form(db, case, prop);
    }
}
/// The matrix turned into rows and back.
fn row_form(db: &Db, case: &Case, prop: &'static str) {
    use keyword_pir_lwe::db::DatabaseMatrix;
    if case.m > 5000 || !chance(1, 3) { return; }
    let cols = db.columns(case);
    let height = db.height();
    let i = choose(height as u32) as usize;
    let r = sut("switch_fmt", prop, || match db {
        Db::I(s) => { let mut d = s.get_db().clone(); let first = d.get_row(0); d.switch_fmt(); let row = d.get_row(i); d.switch_fmt(); (first, row, ser(&d, false) == ser(s.get_db(), false)) }
        Db::K(s) => { let mut d = s.get_db().clone(); let first = d.get_row(0); d.switch_fmt(); let row = d.get_row(i); d.switch_fmt(); (first, row, ser(&d, false) == ser(s.get_db(), false)) }
    });
    checked();
    probe("row_form");
    let want = (cols[0].clone(), cols.iter().map(|c| c[i]).collect::<Vec<u32>>(), true);
    if r.as_ref() != Ok(&want) { fail(prop, "row-form", format!("{}: column 0, row {i} and the matrix after turning it twice: {} instead of {}", case.describe(), short(&r), short(&want))); }
}
fn client(nd: Node, server: Mbox, case: &Case, db: &Db, count: usize, soak: bool, prop: &'static str) {
    let mb = add_mbox(nd);
    let (by_wire, wire_json) = (choose(3), choose(2) == 1);
    let params = if by_wire == 2 { Pub::de(case.kind, &db.params().ser(wire_json), wire_json).unwrap_or_else(|e| fail_op(prop, "params-transfer", e)) } else { db.params() };
    let cp = match sut("common_params", prop, || params.common()) { Ok(c) => Arc::new(c), Err(p) => fail_op(prop, "common-params-panicked", p) };
    // every query ever sent, with the parameters it was made from
    let mut sent: Vec<(u64, usize, Qp)> = vec![];
    for k in 0..count {
        disturb(if soak { 200 } else { 24 });
        let i = if case.m > 1 && choose(4) == 3 { case.m - 1 } else { choose(case.m as u32) as usize };
        let mut quiet_attempts = 0;
        let mut done = false;
        let mut attempt = 0;
        while !done {
            let quiet = now() >= world().net.quiet_at;
            if quiet { quiet_attempts += 1; if quiet_attempts > 3 { fail(prop, "no-progress", format!("{}: no record within 3 attempts after faults stopped", case.describe())); return; } }
            let qp = flat(sut("query_params", prop, || params.query_params(&cp)));
            let mut qp = match qp { Ok(q) => q, Err(e) => fail_op(prop, "query-params-failed", format!("{}: {e}", case.describe())) };
            let t = target(case, i);
            let q = match flat(sut("generate_query", prop, || qp.query(&t))) { Ok(q) => q, Err(e) => fail_op(prop, "query-failed", format!("{} target {i}: {e}", case.describe())) };
            let id = (nd as u64) << 32 | (k as u64) << 16 | attempt;
            attempt += 1;
            let json = choose(4) == 3;
            send(server, Msg { from: mb, id, kind: QUERY, data: ser(&q, json) });
            sent.push((id, i, qp));
            let deadline = now() + if quiet { 30_000_000 } else { 60_000 };
            while now() < deadline {
                let Some(m) = recv(mb, Some(deadline - now())) else { break };
                if m.kind != RESPONSE { continue; }
                let Some(s) = sent.iter().find(|s| s.0 == m.id) else { harness_error("unknown response id") };
                if m.id != id { probe("late_or_duplicate_response_decoded"); }
                check_decode(prop, prop, case, s.1, &s.2, &m.data, "wrong-record");
                if s.0 >> 16 == id >> 16 { done = true; if m.id == id && choose(4) != 3 { break; } }
            }
            if !done { probe("client_retry"); }
        }
    }
}
