use crate::runner::Spec;
mod disturb;
mod files;
mod filters;
mod params;
mod retrieval;
mod server;
mod setup;

const PIR_REAL: &[&str] = &["keyword-pir-lwe (api, db, utils)", "xorf (BinaryFuseP32)", "rand/getrandom", "serde/bincode/serde_json", "std threads, locks and panics"];
const STUBS: &[&str] = &["thread scheduler", "clock and timers", "network (library has none: the harness carries its serialized messages)", "OS entropy source (getrandom system call, /dev/urandom)", "file system below /simfs"];

macro_rules! spec { ($id:expr, $root:expr, $q:expr, $t:expr, $rule:expr) => { Spec { id: $id, root: $root, runs: ($q, $t), rule: $rule, real: PIR_REAL, stub: STUBS } } }
pub fn specs() -> Vec<Spec> {
    vec![
        spec!("C01", retrieval::c01, 40000, 800000, "one run = one random index database, 1-4 clients, 1-3 server workers, random message faults, preemptions and entropy; non-trivial: at least one oracle comparison and at least one fault or more than two task switches; distinct by hash of the event trace"),
        spec!("C02", retrieval::c02, 40000, 800000, "as C01 with a key-value database"),
        spec!("C03", params::c03, 40000, 800000, "one run = 1-3 clients each performing 10-70 random operations on a pool of parameter sets (query, clone, serialize, decode, move to another thread); non-trivial: at least one oracle comparison and at least one fault or more than two task switches; distinct by hash of the event trace"),
        spec!("C04", params::c04, 40000, 800000, "one run = two histories of 1-6 queries with different targets, executed by two forked processes with equal entropy and equal faults; non-trivial and distinct as for C03"),
        spec!("C05", params::c05, 8000, 160000, "one run = many parameter sets of several threads and processes, or one set replayed with equal entropy; non-trivial and distinct as for C03"),
        spec!("C06", params::c06, 40000, 800000, "one run = building databases or parameters while entropy calls are interrupted, shortened or fail at chosen calls; non-trivial and distinct as for C03"),
        spec!("C07", server::c07, 40000, 800000, "one run = 1-4 databases of one process served by 1-4 threads, 4-28 requests each, mixed with near-equal queries and misfits; non-trivial and distinct as for C03"),
        spec!("C08", server::c08, 20000, 400000, "one run = 1-3 clients sending good and damaged queries over a damaging network to 1-3 server threads; non-trivial and distinct as for C03"),
        spec!("C09", server::c09, 30000, 600000, "one run = 1-3 clients whose responses lose words on the way, plus every cut of small responses; non-trivial and distinct as for C03"),
        spec!("C10", files::c10, 30000, 600000, "one run = 1-3 concurrent writers, 1-4 rounds each, with planned and random file-system faults; non-trivial and distinct as for C03"),
        spec!("C11", files::c11, 60000, 1200000, "one run = one loader reading 2-6 versions of a file, damaged or not, with planned and random read faults; non-trivial and distinct as for C03"),
        spec!("C12", filters::c12, 30000, 600000, "one run = 1-2 servers building a small key-value database while the entropy source returns 0-400 seeds that do not work for its keys; non-trivial and distinct as for C03"),
        spec!("C13", filters::c13, 50000, 1000000, "one run = 1-3 threads building 1-4 mod-p filters each from random or crafted keys; non-trivial and distinct as for C03"),
        spec!("C14", filters::c14, 30000, 600000, "one run = 1-3 threads building filters of one family from random or crafted keys, with replicas; non-trivial and distinct as for C03"),
        spec!("C15", filters::c15, 8000, 160000, "one run = one filter asked about 150 000 or more strangers, or 24 builds from the same keys; non-trivial and distinct as for C03"),
        spec!("C16", server::c16, 30000, 600000, "one run = a server that crashes 1-4 times at random moments (also inside operations) and restarts from its serialized database, and 1-3 clients that restart from serialized parameters; non-trivial and distinct as for C03"),
        spec!("C17", server::c17, 60000, 1200000, "one run = 1-2 clients whose responses are perturbed up to the noise limit; non-trivial and distinct as for C03"),
        spec!("C20", setup::c20, 12000, 320000, "one run = 1-60 databases set up by each of several threads, restarted servers and processes, or one public matrix, or 40-257 matrices of close seeds; non-trivial and distinct as for C03"),
    ]
}
