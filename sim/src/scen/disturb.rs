//! Other work in the same thread: operations of the library, succeeding or refused, that must not matter to what
//! comes before and after them.
use crate::common::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{BaseParams, IndexDatabase, IndexParams, KeyValue};
use simrt::*;

/// Does one to three unrelated operations, one time in `every`.
pub fn disturb(every: u32) {
    if !chance(1, every) { return; }
    for _ in 0..1 + choose(3) { one(choose(11)); }
    probe("other_work_in_between");
}
/// Building a key-value database needs seeds that differ.
fn any_kind() -> Kind { if matches!(world().nodes[cur_task().node].entropy.mode, simrt::entropy::Mode::Uniform) { gen_kind() } else { Kind::Index } }
fn small(kind: Kind) -> Case { match kind { Kind::Index => gen_index(Limits { max_m: 8, max_words: 4, max_dim: 8 }), Kind::Kv => gen_kv(Limits { max_m: 8, max_words: 4, max_dim: 8 }) } }
fn one(what: u32) {
    match what {
        0 => { let c = small(any_kind()); let _ = sut("build", "", || construct(&c, 0).is_ok()); }
        1 => { // refused: a key twice, missing or too short or undecodable records
            let c = small(any_kind());
            let how = choose(4);
            let r = sut("build", "", || match c.kind {
                Kind::Kv => {
                    let mut kvs: Vec<KeyValue> = (0..c.m).map(|i| KeyValue { key: key_of(&c.keys[i]), value: c.row(i) }).collect();
                    match how { 0 | 1 => { let k = kvs[0].clone(); kvs.push(k); } 2 => { kvs.pop(); } _ => { kvs[0].value.clear(); } }
                    KVShard::new(&kvs, c.dim, c.m, c.bits, c.p).is_ok()
                }
                Kind::Index => {
                    let mut s = c.b64s();
                    match how { 0 => { s.pop(); } 1 => s[c.m - 1] = "!".into(), 2 => s[c.m / 2] = String::new(), _ => s[0] += "*" }
                    Shard::from_base64_strings(&s, c.dim, c.m, c.bits, c.p).is_ok()
                }
            });
            if r == Ok(false) { probe("refused_work_in_between"); }
        }
        2 | 3 => super::filters::other_filter(),
        4 => { // files that are not there or not what they should be
            let c = small(Kind::Index);
            let r = sut("load", "", || (Shard::from_json_file("/simfs/none/at-all.json", c.dim, c.m, c.bits, c.p).is_ok(), IndexParams::load("/simfs/none/at-all").is_ok(), IndexDatabase::from_file("/simfs/", c.m, c.bits, c.p).is_ok(), KVShard::from_json_file("/simfs/none/at-all.json", c.dim, c.m, c.bits, c.p).is_ok()));
            if r == Ok((false, false, false, false)) { probe("refused_work_in_between"); }
        }
        5..=7 => { // a retrieval of its own, with misuse: positions and queries that do not exist, responses that are cut
            let c = small(any_kind());
            let misuse = choose(4);
            let rng = fresh_seed();
            let i = choose(c.m as u32) as usize;
            let _ = sut("build", "", || -> Res<()> {
                let db = construct(&c, 1)?;
                let pb = db.params();
                let cp = pb.common();
                let mut qp = pb.query_params(&cp)?;
                let t = target(&c, i);
                let q = if misuse == 1 { qp.query(&match c.kind { Kind::Index => Target::Row(c.m + 7), Kind::Kv => Target::Key([rng; 4]) })? } else { qp.query(&t)? };
                let _ = qp.query(&t);
                let mut w = query_words(&q);
                if misuse == 2 { w.pop(); }
                let r = db.respond(&query_from_words(&w))?;
                let mut w = response_words(&r)?;
                if misuse == 3 { w.pop(); }
                let r = response_from_words(&w);
                qp.row(&r, &t)?; qp.bytes(&r, &t)?; qp.base64(&r, &t)?;
                Ok(())
            });
        }
        8 => { // randomness that fails for a moment
            let c = small(any_kind());
            let _ = sut_atomic("build", "", || {
                let Ok(db) = construct(&c, 1) else { return };
                let pb = db.params();
                let cp = pb.common();
                cur_task().ent_dead = Some(libc::EIO);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = pb.query_params(&cp); }));
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = construct(&c, 1); }));
            });
            cur_task().ent_dead = None;
            probe("failing_entropy_in_between");
        }
        9 => { // parameters in transit
            let c = small(any_kind());
            let _ = sut("build", "", || -> Res<()> { let db = construct(&c, 1)?; for json in [false, true] { Pub::de(c.kind, &db.params().ser(json), json)?.common(); Db::de(c.kind, &db.ser(json), json)?; } Ok(()) });
        }
        _ => { let n = 1 + choose(40) as usize; let mut r = fresh_rng(); let mut v = vec![0u8; n]; r.fill(&mut v); let _ = sut("sha256", "", || sha256_into_u64_sized(&v).is_ok()); }
    }
}
