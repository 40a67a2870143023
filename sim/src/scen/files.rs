//! C10, C11: writing and loading files while the file system misbehaves.
use super::disturb::disturb;
use crate::common::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{BaseParams, DatabaseMatrix, IndexDatabase, IndexParams, KVParams};
use serde_json::json;
use simrt::fs::FFault;
use simrt::*;
use std::sync::Arc;

/// A database whose files are larger than a mebibyte.
fn voluminous(kind: Kind, params: bool) -> Case {
    let p = if kind == Kind::Kv { 9 } else { 8 };
    let (m, words, dim) = if params { (3, 130, 1024) } else { (if kind == Kind::Kv { 300 } else { 900 }, 1500 + choose(200) as usize, 1) };
    let bits = words * p - choose(8) as usize;
    let mut rng = fresh_rng();
    let recs = (0..m).map(|i| gen_record(bits, 0, i, &mut rng)).collect();
    let keys = if kind == Kind::Kv { gen_keys(m, &mut rng) } else { vec![] };
    probe("voluminous");
    let c = Case { kind, m, bits, p, dim, recs, keys, exact: true };
    label(c.describe());
    c
}
fn hard_errno() -> i32 { [libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE, libc::ENOMEM, libc::EROFS, libc::EDQUOT, libc::ENFILE, libc::EFBIG][choose(9) as usize] }
fn plan_faults(hard_too: bool, span: u64) {
    let fs = &mut world().fs;
    fs.calls = 0; fs.plan.clear(); fs.flaky = 0;
    let n = choose(4);
    for _ in 0..n {
        let at = match choose(4) { 0 => choose(4) as u64, 1 => choose(24) as u64, _ => choose(span.max(1) as u32) as u64 };
        let f = if hard_too && choose(2) == 1 { FFault::Fail(hard_errno()) } else if choose(2) == 0 { FFault::Eintr } else { FFault::Short };
        world().fs.plan.push((at, f));
    }
    if choose(4) == 3 { world().fs.flaky = [8, 60, 160][choose(3) as usize]; }
}

// ------------------------------------------------------------------ C10
struct Job { db: Arc<Db>, case: Arc<Case>, db_path: String, params_path: String, entries: Vec<Vec<u32>>, params: Vec<u8> }
/// None if the files hold exactly the database and its parameters.
fn wrong_files(j: &Job) -> Option<String> {
    let Some(d) = world().fs.get(&j.db_path).cloned() else { return Some("the database file does not exist".into()) };
    match serde_json::from_slice::<Vec<Vec<u32>>>(&d) {
        Ok(e) if e == j.entries => {}
        Ok(_) => return Some("the database file holds another matrix".into()),
        Err(e) => return Some(format!("the database file ({} bytes) is no complete matrix: {e}", d.len())),
    }
    let Some(p) = world().fs.get(&j.params_path).cloned() else { return Some("the parameter file does not exist".into()) };
    let got = match j.case.kind { Kind::Index => serde_json::from_slice::<IndexParams>(&p).map(|p| ser(&p, false)), Kind::Kv => serde_json::from_slice::<KVParams>(&p).map(|p| ser(&p, false)) };
    match got { Ok(b) if b == j.params => None, Ok(_) => Some("the parameter file holds other parameters".into()), Err(e) => Some(format!("the parameter file ({} bytes) cannot be loaded: {e}", p.len())) }
}
pub fn c10() {
    gen_preempt();
    let sn = server_node();
    world().nodes[sn].entropy.flaky = 0;
    world().fs.dirs.insert("/simfs/d".into());
    let kind = gen_kind();
    let big = chance(1, 40);
    let lim = if big { Limits { max_m: 400, max_words: 30, max_dim: 128 } } else { Limits { max_m: 40, max_words: 8, max_dim: 24 } };
    let huge = chance(1, 200);
    let case = Arc::new(if huge { voluminous(kind, false) } else if chance(1, 100) { gen_extreme(kind) } else { gen_any(kind, lim) });
    let mut jobs = vec![];
    let n = if huge { 1 } else { 1 + choose(3) as usize };
    for k in 0..n {
        let case = if k == 0 || choose(2) == 0 { case.clone() } else { Arc::new(gen_any(gen_kind(), lim)) };
        let db = build_on(sn, &case, "");
        let entries = db.columns(&case);
        let params = db.params().ser(false);
        jobs.push(Job { db, case, db_path: format!("/simfs/d/db{k}.json"), params_path: format!("/simfs/d/params{k}.json"), entries, params });
    }
    // files that have nothing to do with it
    let others: Vec<(String, Vec<u8>)> = ["/simfs/d/other", "/simfs/d/db.json", "/simfs/d/params.json", "/simfs/d/db0.json.bak", "/simfs/d/db0.json.tmp.keep"].iter().map(|p| (p.to_string(), format!("precious {p}").into_bytes())).collect();
    for (p, d) in &others { world().fs.put(p, d); }
    let clash = chance(1, 10);
    if clash { // a path that cannot be opened for writing
        match choose(3) { 0 => jobs[0].db_path = "/simfs/missing/db.json".into(), 1 => jobs[0].params_path = "/simfs/d".into(), _ => jobs[0].params_path = "/simfs/missing/p.json".into() }
    }
    let jobs = Arc::new(jobs);
    let rounds = if huge { 1 + choose(2) } else { 1 + choose(4) };
    let ids: Vec<usize> = (0..n).map(|k| {
        let jobs = jobs.clone();
        spawn(sn, format!("writer{k}"), move || {
            let j = &jobs[k];
            let mut span = 400u64;
            for round in 0..rounds {
                // what was there before: nothing, an older shorter or longer version, garbage
                match choose(7) {
                    0 => {}
                    5 => { // of the same length, but of other contents
                        let now = serde_json::to_vec(&j.entries).unwrap();
                        for (path, text) in [(&j.db_path, Some(now)), (&j.params_path, world().fs.get(&j.params_path).cloned())] {
                            let Some(mut text) = text.filter(|t| !t.is_empty()) else { continue };
                            if choose(4) == 3 { text.fill(0); } else {
                                let start = choose(text.len() as u32) as usize;
                                let n = text.len();
                                if let Some(k) = (0..n).map(|i| (start + i) % n).find(|&i| text[i].is_ascii_digit()) { text[k] = if text[k] == b'9' { b'8' } else { text[k] + 1 }; }
                            }
                            world().fs.put(path, &text);
                        }
                        probe("replaces_file_of_same_length");
                    }
                    6 => { // the matrix and the parameters of another database
                        let c = super::server::sibling(&j.case, choose(4));
                        if let Ok(Ok(d)) = sut("build", "", || construct(&c, 1)) { world().fs.plan.clear(); world().fs.flaky = 0; let _ = sut("write_to_file", "", || d.write(&j.db_path, &j.params_path)); probe("replaces_other_database"); }
                    }
                    1 => { world().fs.put(&j.db_path, &vec![b'['; 200_000]); world().fs.put(&j.params_path, &vec![b'1'; 300_000]); probe("replaces_longer_file"); }
                    2 => { world().fs.put(&j.db_path, b"[[1]]"); world().fs.put(&j.params_path, b""); }
                    3 => { if let Some(d) = world().fs.get(&j.db_path).cloned() { let mut d2 = d.clone(); d2.extend(d); world().fs.put(&j.db_path, &d2); } }
                    _ => { world().fs.names.remove(&j.db_path); world().fs.names.remove(&j.params_path); }
                }
                if j.db_path.contains("missing") { world().fs.names.remove(&j.db_path); }
                if j.params_path.contains("missing") || j.params_path == "/simfs/d" { world().fs.names.remove(&j.params_path); }
                disturb(20);
                let faults = round < rounds - 1 || choose(3) == 0;
                world().fs.capacity = None;
                if k == 0 {
                    if faults { plan_faults(true, span); } else { world().fs.plan.clear(); world().fs.flaky = 0; }
                    if faults && choose(4) == 3 {
                        let used = world().fs.used();
                        let total: u64 = serde_json::to_vec(&j.entries).unwrap().len() as u64;
                        world().fs.capacity = Some(used + match choose(4) { 0 => 0, 1 => total.saturating_sub(1), 2 => total + choose(400) as u64, _ => choose(total as u32 + 200) as u64 });
                        probe("disk_almost_full");
                    }
                }
                let before = world().fs.calls;
                let r = sut("write_to_file", "C10", || j.db.write(&j.db_path, &j.params_path));
                span = (world().fs.calls.saturating_sub(before)).max(span / 2);
                let hard = cur_task().fs_hard;
                if k == 0 { world().fs.plan.clear(); world().fs.flaky = 0; world().fs.capacity = None; }
                checked();
                let unwritable = j.db_path.contains("missing") || j.params_path.contains("missing") || j.params_path == "/simfs/d";
                match r {
                    Err(p) => return fail("C10", "abort", format!("{}: writing to {} panicked: {p}", j.case.describe(), j.db_path)),
                    Ok(Ok(())) => {
                        // an implementation may work around a failed call; what counts is that the files are complete
                        if let Some(w) = wrong_files(j).filter(|_| hard > 0 || unwritable) { return fail("C10", "error-not-reported", format!("{}: {hard} calls failed (files {} and {}), but writing reported success; {w}", j.case.describe(), j.db_path, j.params_path)); }
                        if let Some(w) = wrong_files(j) { return fail("C10", "incomplete-success", format!("{}: writing reported success ({} benign disturbances), but {w}", j.case.describe(), cur_task().fs_faults)); }
                        probe("written");
                        if choose(3) == 2 {
                            let r = sut("load", "C10", || load_params(j.case.kind, &j.params_path));
                            checked();
                            match r { Ok(Ok(b)) if b == j.params => {} _ if cur_task().fs_hard > 0 => {} x => return fail("C10", "cannot-load", format!("{}: {}", j.case.describe(), short(&flat(x).map(|b| b.len())))) }
                        }
                    }
                    Ok(Err(e)) => {
                        if hard == 0 && !unwritable { return fail("C10", "error-without-cause", format!("{}: nothing failed ({} benign disturbances), but writing reports: {e}", j.case.describe(), cur_task().fs_faults)); }
                        probe("error_reported");
                    }
                }
            }
        })
    }).collect();
    join_all(&ids);
    checked();
    for (p, d) in &others { if world().fs.get(p) != Some(d) { fail("C10", "other-file-changed", format!("{p} changed")); } }
    for j in jobs.iter() {
        if j.db.ser(false) != { let d = match &*j.db { Db::I(s) => ser(s, false), Db::K(s) => ser(s, false) }; d } { harness_error("serialization is not deterministic"); }
        if j.db.params().ser(false) != j.params { fail("C10", "database-changed", "writing changed the parameters"); }
    }
}
fn load_params(kind: Kind, path: &str) -> Res<Vec<u8>> {
    match kind {
        Kind::Index => IndexParams::load(path).map(|p| ser(&p, false)).map_err(|e| e.to_string()),
        Kind::Kv => { let b = std::fs::read(path).map_err(|e| e.to_string())?; serde_json::from_slice::<KVParams>(&b).map(|p| ser(&p, false)).map_err(|e| e.to_string()) }
    }
}

// ------------------------------------------------------------------ C11
#[derive(Clone, Copy, Debug, PartialEq)]
enum Loader { Shard, KvShard, Database, Params }
/// What a file with these contents stands for (None: nothing, an error is due).
fn meaning(l: Loader, case: &Case, content: &[u8]) -> Option<Meaning> {
    let text = std::str::from_utf8(content).ok()?;
    match l {
        Loader::Shard | Loader::Database => { let v: Vec<String> = serde_json::from_str(text).ok()?; let recs = records(case, &v)?; Some(Meaning::Records(vec![], recs)) }
        Loader::KvShard => {
            let v: Vec<serde_json::Value> = serde_json::from_str(text).ok()?;
            let mut k = vec![]; let mut s = vec![];
            for x in &v { k.push(x.get("key")?.as_str()?.to_string()); s.push(x.get("value")?.as_str()?.to_string()); }
            let recs = records(case, &s)?;
            // the same key twice has no meaning
            if k.iter().collect::<std::collections::HashSet<_>>().len() < k.len() { return None; }
            Some(Meaning::Records(k, recs))
        }
        Loader::Params => {
            let v: serde_json::Value = serde_json::from_str(text).ok()?;
            let n = |k: &str| v.get(k)?.as_u64();
            let word = |x: &serde_json::Value| x.as_u64().filter(|x| *x <= u32::MAX as u64).map(|x| x as u32);
            let seed: Vec<u8> = v.get("public_seed")?.as_array()?.iter().map(|x| x.as_u64().filter(|x| *x < 256).map(|x| x as u8)).collect::<Option<_>>()?;
            let rhs = v.get("rhs")?.as_array()?.iter().map(|r| r.as_array()?.iter().map(word).collect::<Option<Vec<u32>>>()).collect::<Option<Vec<_>>>()?;
            Some(Meaning::Params(Stored { dim: n("dim")?, m: n("m")?, elem: n("elem_size")?, p: n("plaintext_bits")?, seed: seed.try_into().ok()?, rhs }))
        }
    }
}
#[derive(PartialEq, Debug)]
struct Stored { dim: u64, m: u64, elem: u64, p: u64, seed: [u8; 32], rhs: Vec<Vec<u32>> }
enum Meaning { Records(Vec<String>, Vec<Vec<u8>>), Params(Stored) }
fn records(case: &Case, v: &[String]) -> Option<Vec<Vec<u8>>> {
    if v.is_empty() || case.kind == Kind::Index && v.len() < case.m { return None; }
    let mut out = vec![];
    for s in v.iter().take(if case.kind == Kind::Kv { v.len() } else { case.m }) { let b = base64::decode(s).ok()?; if b.len() * 8 < case.bits { return None; } out.push(b); }
    Some(out)
}
enum Loaded { Db(Db), Rows(Vec<String>), Params(Stored) }
fn load(l: Loader, case: &Case, path: &str) -> Op<Loaded> {
    let es = |e: Box<dyn std::error::Error>| e.to_string();
    match l {
        Loader::Shard => sut("from_json_file", "C11", || Shard::from_json_file(path, case.dim, case.m, case.bits, case.p).map(Db::I).map(Loaded::Db).map_err(es)),
        Loader::KvShard => sut("from_json_file", "C11", || KVShard::from_json_file(path, case.dim, case.m, case.bits, case.p).map(Db::K).map(Loaded::Db).map_err(es)),
        Loader::Database => sut("from_file", "C11", || IndexDatabase::from_file(path, case.m, case.bits, case.p).map(|d| Loaded::Rows((0..case.m).map(|i| d.get_db_entry(i)).collect())).map_err(es)),
        Loader::Params => sut("load", "C11", || IndexParams::load(path).map(|p| Loaded::Params(Stored { dim: p.get_dim() as u64, m: p.get_total_records() as u64, elem: p.get_elem_size() as u64, p: p.get_plaintext_bits() as u64, seed: p.get_public_seed(), rhs: p.get_rhs().clone() })).map_err(es)),
    }
}
fn record_text(case: &Case, rec: &[u8]) -> String { let mut r = rec[..(case.bits + 7) / 8].to_vec(); mask_bits(&mut r, case.bits); b64(&r) }
fn wrong_content(l: Loader, case: &Case, m: &Meaning, got: &Loaded) -> Option<String> {
    match (m, got) {
        (Meaning::Params(w), Loaded::Params(g)) => (w != g).then(|| "other parameters".into()),
        (Meaning::Records(_, recs), Loaded::Rows(rows)) => { let w: Vec<String> = recs.iter().map(|r| record_text(case, r)).collect(); (&w != rows).then(|| format!("records {} instead of {}", short(rows), short(&w))) }
        (Meaning::Records(_, recs), Loaded::Db(Db::I(s))) => {
            let w: Vec<String> = recs.iter().map(|r| record_text(case, r)).collect();
            let rows: Vec<String> = s.into_row_iter().collect();
            (w != rows).then(|| format!("records {} instead of {}", short(&rows), short(&w)))
        }
        (Meaning::Records(keys, recs), Loaded::Db(Db::K(s))) => {
            if l != Loader::KvShard { return Some("?".into()); }
            let pairs = keys.iter().zip(recs).map(|(k, r)| (sha256_into_u64_sized(k.as_bytes()).unwrap_or_default(), pack(r, case.bits, case.p)));
            if let Some(w) = kv_wrong(s, case.p, Some(case.bits), pairs) { return Some(w); }
            None
        }
        _ => Some("something else".into()),
    }
}
fn damage_bytes(d: &mut Vec<u8>, how: u32) -> String {
    let n = d.len();
    let at = |k: u32| -> usize { match k { 0 => n.saturating_sub(1), 1 => n / 2, _ => choose(n.max(1) as u32) as usize } };
    match how {
        0 => { let k = at(choose(4)); d.truncate(k); format!("cut to {k} of {n} bytes") }
        1 => { let k = at(choose(4)); for x in &mut d[k..] { *x = 0; } format!("zero-filled from byte {k} of {n}") }
        2 => { let k = n / 512 * 512; for x in &mut d[k.min(n)..] { *x = 0; } format!("last block of {n} bytes zero-filled") }
        3 => { let g = [&b"]"[..], b"\0", b"\0\0\0\0\0\0\0\0", b"garbage", b"[]", b"{}", b"\xff\xfe", b",", b"\"\"", b" x"][choose(10) as usize]; d.extend_from_slice(g); format!("{g:?} after the end") }
        4 => { if n > 0 { let k = at(choose(4)); d[k] = [0xffu8, 0xc0, 0x80, 0xfe][choose(4) as usize]; format!("invalid UTF-8 at {k}") } else { String::new() } }
        5 => { d.clear(); "empty".into() }
        6 => { if n > 0 { let (a, l) = (at(3), 1 + choose(16) as usize); let e = (a + l).min(n); for x in &mut d[a..e] { *x = 0; } format!("hole of zeros at {a}..{e}") } else { String::new() } }
        7 => { if n > 0 { let k = at(3); d[k] ^= 1 << choose(8); format!("bit flipped at {k}") } else { String::new() } }
        8 => { let c = d.clone(); d.extend(c); "written twice".into() }
        9 => { if n > 2 { let a = at(3); let l = 1 + choose(n as u32 / 2) as usize; let e = (a + l).min(n); d.drain(a..e); format!("bytes {a}..{e} missing") } else { String::new() } }
        10 => { d.splice(0..0, b"\xef\xbb\xbf".iter().cloned()); "byte order mark".into() }
        _ => { let k = at(3); d.truncate(k); d.resize(n, b' '); format!("blank from byte {k}") }
    }
}
/// One value of the file is replaced by something that stands for nothing (or now and then for something).
fn alter_value(l: Loader, d: &mut Vec<u8>) -> String {
    let mut v: serde_json::Value = serde_json::from_slice(d).expect("own file");
    let odd = |k: u32| [json!(null), json!(-1), json!(1.5), json!("1"), json!([]), json!({}), json!(true), json!(u64::MAX), json!(1u64 << 32), json!(256)][k as usize].clone();
    let what;
    match l {
        Loader::Params => {
            let f = ["rhs", "public_seed", "dim", "m", "elem_size", "plaintext_bits"][choose(6) as usize];
            match choose(4) {
                0 => { v.as_object_mut().unwrap().remove(f); what = format!("without {f}"); }
                1 => { let o = odd(choose(10)); what = format!("with {f} = {o}"); v[f] = o; }
                2 => { // one number inside
                    let o = odd(choose(10));
                    let x = if choose(2) == 0 { let k = choose(32) as usize; &mut v["public_seed"][k] } else { let r = v["rhs"].as_array_mut().unwrap(); let k = choose(r.len() as u32) as usize; let r = r[k].as_array_mut().unwrap(); let k = choose(r.len() as u32) as usize; &mut r[k] };
                    what = format!("with {o} instead of {x}");
                    *x = o;
                }
                _ => { let a = v["public_seed"].as_array_mut().unwrap(); if choose(2) == 0 { a.pop(); } else { a.push(json!(0)); } what = format!("with a seed of {} bytes", a.len()); }
            }
        }
        _ => {
            let a = v.as_array_mut().unwrap();
            let k = choose(a.len() as u32) as usize;
            match choose(8) {
                0 => { let o = odd(choose(10)); what = format!("with {o} for record {k}"); if l == Loader::KvShard { a[k]["value"] = o } else { a[k] = o } }
                1 if l == Loader::KvShard => { let f = ["key", "value"][choose(2) as usize]; if choose(2) == 0 { a[k].as_object_mut().unwrap().remove(f); what = format!("record {k} without {f}"); } else { let o = odd(choose(10)); what = format!("record {k} with {f} = {o}"); a[k][f] = o; } }
                c => {
                    let x = if l == Loader::KvShard { &mut a[k]["value"] } else { &mut a[k] };
                    let mut t = x.as_str().unwrap().to_string();
                    let at = match choose(3) { 0 => 0, 1 => t.len(), _ => choose(t.len() as u32 + 1) as usize };
                    match c {
                        1 => { t.insert(at, '\n') } 2 => t.insert(at, ' '), 3 => t.insert(at, ['-', '_', '=', '\0', '\r', '\t', '%', '\u{e9}'][choose(8) as usize]),
                        4 => { while t.ends_with('=') { t.pop(); } }
                        5 => t.push('='), 6 => { t = t.replace('+', "-").replace('/', "_"); }
                        _ => { t.pop(); }
                    }
                    what = format!("record {k} is {t:?}");
                    *x = json!(t);
                }
            }
        }
    }
    *d = serde_json::to_vec(&v).unwrap();
    what
}
pub fn c11() {
    gen_preempt();
    let l = [Loader::Shard, Loader::KvShard, Loader::Database, Loader::Params][choose(4) as usize];
    let kind = if l == Loader::KvShard { Kind::Kv } else { Kind::Index };
    let huge = chance(1, 200);
    let mut case = if huge { voluminous(kind, l == Loader::Params) } else if chance(1, 100) { gen_extreme(kind) } else { gen_any(kind, if chance(1, 12) { Limits { max_m: 400, max_words: 40, max_dim: 16 } } else { Limits { max_m: 30, max_words: 8, max_dim: 8 } }) };
    let mut rng = fresh_rng();
    if kind == Kind::Kv && !case.texts() { let esc = choose(2) == 1; case.keys = (0..case.m).map(|i| KeySpec::Text(if esc { format!("k\"\\\u{1F600}\n{i}") } else { format!("key-{i}-{}", rng.next()) })).collect(); }
    label(format!("{l:?} {}", case.describe()));
    trace(|| format!("{l:?}"));
    world().fs.dirs.insert("/simfs/d".into());
    let path = "/simfs/d/file.json";
    let pretty = choose(3) == 2;
    let value = match l {
        Loader::Shard | Loader::Database => json!(case.b64s()),
        Loader::KvShard => json!(case.keys.iter().zip(&case.recs).map(|(k, r)| { let KeySpec::Text(t) = k else { unreachable!() }; json!({"key": t, "value": b64(r)}) }).collect::<Vec<_>>()),
        Loader::Params => { let sn = server_node(); let c = Arc::new(case.clone()); let db = build_on(sn, &c, ""); let Db::I(s) = &*db else { unreachable!() }; json!(s.get_base_params()) }
    };
    let good = if pretty { serde_json::to_vec_pretty(&value).unwrap() } else { serde_json::to_vec(&value).unwrap() };
    // the same records again, fewer of them: an older version of the file
    let case = Arc::new(case);
    let nd = server_node();
    world().nodes[nd].entropy.flaky = 0;
    let rounds = if huge { 2 } else { 2 + choose(5) };
    on_node(nd, "loader", move || {
        for round in 0..rounds {
            let mut content = good.clone();
            let mut what = String::new();
            let last = round == rounds - 1;
            if !last {
                match choose(6) {
                    0 => {}
                    4 => { what = alter_value(l, &mut content); probe("altered_value"); }
                    5 if l == Loader::KvShard && case.m > 1 => {
                        // a key comes twice, with equal or different values, in rows apart or next to each other
                        let mut v: Vec<serde_json::Value> = serde_json::from_slice(&good).expect("own file");
                        let (a, b) = (choose(case.m as u32) as usize, choose(case.m as u32) as usize);
                        let b = if a == b { (a + 1) % case.m } else { b };
                        v[b]["key"] = v[a]["key"].clone();
                        if choose(2) == 1 { v[b]["value"] = v[a]["value"].clone(); }
                        content = serde_json::to_vec(&v).expect("own file");
                        what = format!("key {a} again at {b}");
                        probe("repeated_key");
                    }
                    1 | 2 | 5 => { let h = choose(12); what = damage_bytes(&mut content, h); }
                    _ => { let (a, b) = (choose(12), choose(12)); what = damage_bytes(&mut content, a); what += " and "; what += &damage_bytes(&mut content, b); }
                }
            }
            if !what.is_empty() { fault("damaged_file"); trace(|| format!("file {what}")); }
            let mut p = path.to_string();
            world().fs.put(path, &content);
            let mut absent = false;
            if !last && choose(12) == 11 {
                absent = true;
                match choose(3) { 0 => p = "/simfs/d/none.json".into(), 1 => p = "/simfs/d".into(), _ => p = "/simfs/none/file.json".into() }
                fault("missing_file");
            }
            disturb(24);
            if !last { plan_faults(true, 6); } else { world().fs.plan.clear(); world().fs.flaky = 0; }
            let r = load(l, &case, &p);
            let (hard, soft) = (cur_task().fs_hard, cur_task().fs_faults);
            world().fs.plan.clear(); world().fs.flaky = 0;
            checked();
            let m = if absent { None } else { meaning(l, &case, &content) };
            let info = format!("{l:?} {} ({} bytes{}{}; {hard} failed calls, {soft} disturbances)", case.describe(), content.len(), if what.is_empty() { "" } else { "; " }, what);
            match (r, m) {
                (Err(p), _) => return fail("C11", "abort", format!("{info}: loading panicked: {p}")),
                (Ok(Ok(_)), _) if hard > 0 => return fail("C11", "error-swallowed", format!("{info}: loading succeeded although reading failed")),
                (Ok(Ok(_)), None) => return fail("C11", if absent { "loaded-nothing" } else { "loaded-damaged" }, format!("{info}: loading succeeded although the contents are invalid")),
                (Ok(Ok(g)), Some(m)) => { if let Some(w) = wrong_content(l, &case, &m, &g) { return fail("C11", "other-content", format!("{info}: loaded {w}")); } probe("loaded"); }
                (Ok(Err(e)), Some(_)) if hard == 0 && what.is_empty() => return fail("C11", "refused-good-file", format!("{info}: {e}")),
                (Ok(Err(_)), Some(_)) => probe("refused_although_meaningful"),
                (Ok(Err(_)), None) => probe("refused_damaged_file"),
            }
            if world().fs.get(path) != Some(&content) { return fail("C11", "file-changed", format!("{info}: loading changed the file")); }
        }
    });
}
