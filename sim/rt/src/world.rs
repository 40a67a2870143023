//! The world of one run: tasks, scheduler, clock, network, crashes, verdict.
use crate::choice::{Choices, Rng};
use crate::entropy::Entropy;
use crate::fs::Fs;
use crate::{raw, shm};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering};

pub const SLICE: u64 = 3_000_000;
pub const DEFAULT_BUDGET: u64 = 1_500_000_000;

thread_local! {
    /// Inside a simulated section: system calls and preemption points belong to the simulator.
    static SUT: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static TASK: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC: Cell<Option<String>> = const { Cell::new(None) };
}
pub fn in_sut() -> bool { SUT.try_with(|s| s.get()).unwrap_or(false) }
pub(crate) fn set_sut(v: bool) { let _ = SUT.try_with(|s| s.set(v)); }
pub fn task_id() -> usize { TASK.with(|t| t.get()) }

pub type Mbox = usize;
pub type Node = usize;
#[derive(Clone, Debug, Default)]
pub struct Msg { pub from: Mbox, pub id: u64, pub kind: u32, pub data: Vec<u8> }

#[derive(Clone, Copy, Debug, PartialEq)]
enum State { Ready, Blocked, Done }
pub struct Task {
    pub name: String,
    pub node: Node,
    state: State,
    go: AtomicU32,
    mbox: Option<Mbox>,
    joining: Option<usize>,
    pub zombie: bool,
    pub mid_op: bool,
    op: &'static str,
    props: &'static str,
    budget: u64,
    slice: u64,
    preempt_in: Option<u64>,
    preempts_left: u32,
    futex_waits: u32,
    pub steps: u64,
    /// What the entropy source did during the current or last operation.
    pub ent: OpEntropy,
    /// The entropy source fails for this task, whatever it does for others.
    pub ent_dead: Option<i32>,
    pub fs_faults: u64,
    pub fs_hard: u64,
}
#[derive(Clone, Debug, Default)]
pub struct OpEntropy { pub bytes: Vec<u8>, pub calls: u64, pub eintr: u64, pub short: u64, pub fails: u64 }

pub struct NodeState { pub name: String, pub alive: bool, pub entropy: Entropy }
#[derive(Clone, Debug, Default)]
pub struct Net {
    /// Rates in 1/256 per message while faults are on.
    pub drop: u32, pub dup: u32, pub delay: u32, pub corrupt: u32,
    /// Faults stop at this time.
    pub quiet_at: u64,
    pub blocked: BTreeSet<(Node, Node)>,
    /// Called on messages chosen for corruption; returns whether anything changed.
    pub corruptor: Option<fn(&mut Msg, u32) -> bool>,
}
struct MailboxState { node: Node, q: VecDeque<Msg> }
enum Ev { Deliver(Mbox, Msg), Wake(usize, u64), Call(Box<dyn FnOnce()>) }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol { pub prop: String, pub class: String, pub msg: String }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub outcome: String,
    pub viols: Vec<Viol>,
    pub stats: BTreeMap<String, u64>,
    pub trace_hash: u64,
    pub faults: u64,
    pub switches: u64,
    pub checks: u64,
    pub sim_us: u64,
    pub steps: u64,
    pub label: String,
    pub trace: Vec<String>,
}
pub struct World {
    pub prop: String,
    pub ch: Choices,
    pub now: u64,
    pub tasks: Vec<Box<Task>>,
    cur: usize,
    main_go: AtomicU32,
    events: BTreeMap<(u64, u64), Ev>,
    seq: u64,
    wake_token: Vec<u64>,
    boxes: Vec<MailboxState>,
    pub nodes: Vec<NodeState>,
    pub net: Net,
    pub fs: Fs,
    pub preempt: bool,
    pub want_trace: bool,
    pub rep: Report,
    /// Where std's hash-map seeds come from (a stream that depends on the choices made before its first use).
    pub insecure: Option<Rng>,
    /// This is a forked process with one task (see Remote).
    pub solo: bool,
    /// Offset of the calendar clock in microseconds.
    pub wall_offset: i64,
    /// How often (of 256) the clocks jump at the moment the code under test reads them.
    pub clock_jumpy: u32,
    /// Microseconds that passed unnoticed (a stalled machine), on the steady clock.
    pub stalled: u64,
    /// Called when a task is preempted inside an operation, with its node; may crash nodes.
    pub on_preempt: Option<Box<dyn FnMut(Node)>>,
}
static mut W: *mut World = core::ptr::null_mut();
pub fn world() -> &'static mut World { unsafe { &mut *W } }
pub fn hash_seed_byte() -> u8 { let w = world(); let d = w.ch.digest; w.insecure.get_or_insert_with(|| Rng::new(d ^ 77)).byte() }
pub fn has_world() -> bool { unsafe { !W.is_null() } }

// ------------------------------------------------------------------ choices, trace, verdict
pub fn choose(n: u32) -> u32 { world().ch.choose(n) }
/// True with probability num/den; the benign value (and the one of exhausted choice lists) is false.
pub fn chance(num: u32, den: u32) -> bool { num > 0 && choose(den) >= den - num.min(den) }
pub fn pick<T: Clone>(v: &[T]) -> T { v[choose(v.len() as u32) as usize].clone() }
pub fn range(lo: u64, hi: u64) -> u64 { lo + choose((hi - lo + 1) as u32) as u64 }
pub fn fresh_seed() -> u64 { choose(1 << 30) as u64 }
pub fn fresh_rng() -> Rng { Rng::new(fresh_seed()) }

pub fn stat(k: &str, n: u64) { if let Some(v) = world().rep.stats.get_mut(k) { *v += n } else { world().rep.stats.insert(k.to_string(), n); } }
pub fn fault(k: &str) { stat(&format!("fault:{k}"), 1); world().rep.faults += 1; trace(|| format!("fault {k}")); }
pub fn probe(k: &str) { stat(&format!("probe:{k}"), 1); }
/// Counts one evaluated oracle comparison.
pub fn checked() { world().rep.checks += 1; }
pub fn label(s: String) { world().rep.label = s; }
pub fn trace<F: FnOnce() -> String>(f: F) {
    let w = world();
    let s = f();
    let mut h = w.rep.trace_hash ^ 0xcbf29ce484222325;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    w.rep.trace_hash = h;
    if w.want_trace && w.rep.trace.len() < 3000 {
        let who = w.tasks.get(w.cur).map_or("-".to_string(), |t| t.name.clone());
        w.rep.trace.push(format!("{:>9}us {:<10} {}", w.now, who, s));
    }
}
pub fn now() -> u64 { world().now }

fn finish(outcome: &str) -> ! {
    let w = world();
    if w.solo { raw::exit_now(3); }
    w.rep.outcome = outcome.to_string();
    w.rep.sim_us = w.now;
    w.rep.steps = w.tasks.iter().map(|t| t.steps).sum();
    let s = encode(&w.rep);
    let m = shm::get();
    let n = s.len().min(shm::REPORT_CAP);
    m.report[..n].copy_from_slice(&s[..n]);
    m.report_len = n as u64;
    m.done = 1;
    raw::exit_now(0)
}
fn encode(r: &Report) -> Vec<u8> { unsafe { ENCODE.expect("encoder")(r) } }
pub static mut ENCODE: Option<fn(&Report) -> Vec<u8>> = None;
/// The run ends without an answer (for instance because an operation failed that another property covers).
pub fn abort_run(why: &str) -> ! { set_sut(false); stat(&format!("inconclusive:{why}"), 1); finish("inconclusive") }
/// Records a violation; ends the run if it is one of the property under check.
pub fn fail(prop: &str, class: impl Into<String>, msg: impl Into<String>) {
    let (class, msg) = (class.into(), msg.into());
    trace(|| format!("VIOLATION {prop} {class}: {msg}"));
    let w = world();
    let hit = prop == w.prop;
    w.rep.viols.push(Viol { prop: prop.into(), class, msg });
    if hit { finish("violation") }
}
/// An operation did not complete although it had to.
pub fn fail_op(props: &str, class: impl Into<String>, msg: impl Into<String>) -> ! {
    let (class, msg) = (class.into(), msg.into());
    for p in props.split(',') { fail(p, class.clone(), msg.clone()); }
    abort_run(&class)
}

// ------------------------------------------------------------------ running code under test
/// Runs code under test as one operation: its system calls, its randomness and its preemption belong to the
/// simulator. `props` names the properties that are broken if it never completes. Err is a panic.
pub fn sut<T>(op: &'static str, props: &'static str, f: impl FnOnce() -> T) -> Result<T, String> {
    op_begin(op, props, DEFAULT_BUDGET);
    let r = catch_unwind(AssertUnwindSafe(f));
    op_end(r.is_ok());
    r.map_err(|_| PANIC.with(|p| p.take()).unwrap_or_else(|| "panic".into()))
}
/// Like `sut`, but not preempted: for quick glue around code under test.
pub fn sut_atomic<T>(op: &'static str, props: &'static str, f: impl FnOnce() -> T) -> Result<T, String> {
    let keep = world().preempt;
    world().preempt = false;
    let r = sut(op, props, f);
    world().preempt = keep;
    r
}
fn op_begin(op: &'static str, props: &'static str, budget: u64) {
    dead_check();
    let w = world();
    let m = shm::get();
    let s = op.as_bytes(); let p = props.as_bytes();
    m.op = [0; 128];
    m.op[..s.len()].copy_from_slice(s); m.op[s.len()] = b'|';
    m.op[s.len() + 1..s.len() + 1 + p.len()].copy_from_slice(p);
    let multi = w.preempt && w.tasks.iter().filter(|t| t.state != State::Done).count() > 1;
    trace(|| format!("op {op}"));
    let t = &mut w.tasks[w.cur];
    t.op = op; t.props = props; t.budget = budget; t.mid_op = true; t.futex_waits = 0;
    t.ent = OpEntropy::default(); t.fs_faults = 0; t.fs_hard = 0;
    t.preempts_left = 0;
    if multi { let n = [0, 0, 1, 2, 6][choose(5) as usize]; world().tasks[w.cur].preempts_left = n; }
    draw_preempt();
    arm();
    set_sut(true);
}
fn op_end(ok: bool) {
    set_sut(false);
    let t = cur();
    t.steps += t.slice - COUNT.with(|c| c.get()).min(t.slice);
    t.mid_op = false;
    shm::get().op[0] = 0;
    if t.zombie { park_forever(); }
    let op = t.op;
    trace(|| format!("end {op} {}", if ok { "" } else { "panicked" }));
}
fn cur() -> &'static mut Task { let w = world(); &mut w.tasks[task_id()] }
pub fn last_entropy() -> OpEntropy { cur().ent.clone() }
pub fn last_fs_faults() -> u64 { cur().fs_faults }
pub fn last_fs_hard() -> u64 { cur().fs_hard }
pub fn cur_task() -> &'static mut Task { cur() }
fn draw_preempt() {
    if cur().preempts_left == 0 { cur().preempt_in = None; return; }
    cur().preempts_left -= 1;
    let bits = choose(21);
    let v = 1 + choose(1 << bits) as u64 + ((1u64 << bits) - 1);
    cur().preempt_in = Some(v);
}
fn arm() {
    let t = cur();
    t.slice = SLICE.min(t.budget).min(t.preempt_in.unwrap_or(u64::MAX)).max(1);
    COUNT.with(|c| c.set(t.slice));
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let on = SUT.try_with(|s| s.get()).unwrap_or(false);
    if !on { return; }
    unsafe {
        let g = *guard as usize;
        if g != 0 { shm::get().cov[g % shm::COV_CAP] = 1; *guard = 0; }
    }
    COUNT.with(|c| { let n = c.get() - 1; c.set(n); if n == 0 { tick() } });
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        static mut N: u32 = 0;
        let mut p = start;
        if p == stop || *p != 0 { return; }
        while p < stop { N += 1; *p = N; p = p.add(1); }
        NGUARDS = N;
    }
}
pub static mut NGUARDS: u32 = 0;
#[inline(never)]
fn tick() {
    set_sut(false);
    let t = cur();
    t.steps += t.slice;
    t.budget = t.budget.saturating_sub(t.slice);
    let before = t.slice;
    if t.budget == 0 {
        let (op, props) = (t.op, t.props);
        if t.zombie { park_forever(); }
        fail_op(props, format!("hang/{op}"), format!("{op} did not finish within {DEFAULT_BUDGET} control-flow edges"));
    }
    let due = match &mut t.preempt_in { Some(p) => { *p -= before.min(*p); *p == 0 } None => false };
    if due {
        stat("preemptions", 1);
        world().rep.faults += 0;
        trace(|| format!("preempted in {} at step {}", cur().op, cur().steps));
        if !cur().zombie {
            if let Some(mut f) = world().on_preempt.take() { f(cur().node); world().on_preempt = Some(f); }
        }
        if !cur().zombie { switch(); }
        draw_preempt();
    } else if !cur().zombie { switch(); }
    arm();
    set_sut(true);
}
/// A scheduling point at a system call.
pub(crate) fn syscall_point() {
    let w = world();
    if w.preempt && !cur().zombie && w.tasks.iter().filter(|t| t.state == State::Ready).count() > 1 && chance(1, 8) { switch(); }
}
/// The code under test waits on a lock that another task or thread holds.
pub(crate) fn futex_wait_sim(addr: *const u32, val: u32) -> i64 {
    let a = unsafe { &*(addr as *const AtomicU32) };
    if a.load(Ordering::SeqCst) != val { return -(libc::EAGAIN as i64); }
    let t = cur();
    t.futex_waits += 1;
    if t.futex_waits > 6000 {
        let (op, props) = (t.op, t.props);
        fail_op(props, format!("deadlock/{op}"), format!("{op} waits forever"));
    }
    let others = world().tasks.iter().enumerate().any(|(i, t)| i != task_id() && t.state == State::Ready);
    stat("lock_waits", 1);
    if others { switch(); } else if !world().events.is_empty() && cur().futex_waits % 4 == 3 { sleep_raw(1000); }
    else if cur().futex_waits > 50 { raw::futex_wait(a, val, Some(1000)); }
    else { raw::futex_wait(a, val, Some(20)); }
    0
}

// ------------------------------------------------------------------ tasks and scheduling
fn wait_go(a: &AtomicU32) {
    loop {
        if a.compare_exchange(1, 0, Ordering::SeqCst, Ordering::SeqCst).is_ok() { return; }
        raw::futex_wait(a, 0, None);
    }
}
fn give(a: &AtomicU32) { a.store(1, Ordering::SeqCst); raw::futex_wake(a); }
fn park_forever() -> ! {
    let w = world();
    let id = task_id();
    w.tasks[id].state = State::Done;
    wake_joiners(id);
    give(&w.main_go);
    let never = AtomicU32::new(0);
    loop { raw::futex_wait(&never, 0, None); }
}
fn switch() {
    let w = world();
    if w.solo { w.now += 5; return; }
    let id = task_id();
    let only = w.tasks[id].state == State::Ready
        && w.tasks.iter().filter(|t| t.state == State::Ready).count() == 1
        && w.events.keys().next().map_or(true, |k| k.0 > w.now + 5);
    if only { w.now += 5; return; }
    let go = &w.tasks[id].go as *const AtomicU32;
    give(&w.main_go);
    wait_go(unsafe { &*go });
}
fn dead_check() { if cur().zombie { park_forever(); } }
fn push_event(at: u64, ev: Ev) { let w = world(); w.seq += 1; let k = (at, w.seq); w.events.insert(k, ev); }

pub fn add_node(name: &str, entropy: Entropy) -> Node {
    let w = world();
    w.nodes.push(NodeState { name: name.into(), alive: true, entropy });
    w.nodes.len() - 1
}
pub fn add_mbox(node: Node) -> Mbox { let w = world(); w.boxes.push(MailboxState { node, q: VecDeque::new() }); w.boxes.len() - 1 }
pub fn spawn(node: Node, name: impl Into<String>, f: impl FnOnce() + Send + 'static) -> usize {
    let w = world();
    let id = w.tasks.len();
    let mut task = Box::new(Task {
        name: name.into(), node, state: State::Ready, go: AtomicU32::new(0), mbox: None, joining: None,
        zombie: false, mid_op: false, op: "", props: "", budget: 0, slice: 0, preempt_in: None, preempts_left: 0, futex_waits: 0, steps: 0,
        ent: OpEntropy::default(), ent_dead: None, fs_faults: 0, fs_hard: 0,
    });
    let go = &mut task.go as *mut AtomicU32 as usize;
    w.tasks.push(task);
    w.wake_token.push(0);
    std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        TASK.with(|t| t.set(id));
        wait_go(unsafe { &*(go as *const AtomicU32) });
        if world().tasks[id].zombie { park_forever(); }
        let r = catch_unwind(AssertUnwindSafe(f));
        if r.is_err() {
            let m = PANIC.with(|p| p.take()).unwrap_or_default();
            harness_error(&format!("scenario panicked: {m}"));
        }
        park_forever();
    }).expect("spawn");
    id
}
pub fn harness_error(m: &str) -> ! {
    set_sut(false);
    let w = world();
    w.rep.stats.insert(format!("harness_error:{m}"), 1);
    finish("harness_error")
}
fn wake_joiners(id: usize) {
    for t in world().tasks.iter_mut() { if t.joining == Some(id) { t.joining = None; if t.state == State::Blocked { t.state = State::Ready; } } }
}
pub fn join(id: usize) {
    dead_check();
    let w = world();
    if w.tasks[id].state == State::Done { return; }
    let me = task_id();
    w.tasks[me].joining = Some(id);
    w.tasks[me].state = State::Blocked;
    switch();
    dead_check();
}
pub fn join_all(ids: &[usize]) { for &i in ids { join(i); } }
pub fn yield_now() { dead_check(); switch(); dead_check(); }
fn sleep_raw(us: u64) {
    let w = world();
    if w.solo { w.now += us; return; }
    let me = task_id();
    w.wake_token[me] += 1;
    push_event(w.now + us, Ev::Wake(me, w.wake_token[me]));
    w.tasks[me].state = State::Blocked;
    switch();
}
pub fn sleep(us: u64) { dead_check(); sleep_raw(us); dead_check(); }
pub fn recv(mb: Mbox, timeout: Option<u64>) -> Option<Msg> {
    dead_check();
    let me = task_id();
    let deadline = timeout.map(|t| world().now + t);
    loop {
        let w = world();
        if let Some(m) = w.boxes[mb].q.pop_front() { return Some(m); }
        if let Some(d) = deadline { if w.now >= d { return None; } }
        w.tasks[me].mbox = Some(mb);
        w.tasks[me].state = State::Blocked;
        if let Some(d) = deadline { w.wake_token[me] += 1; push_event(d, Ev::Wake(me, w.wake_token[me])); }
        switch();
        world().tasks[me].mbox = None;
        dead_check();
    }
}
pub fn pending(mb: Mbox) -> usize { world().boxes[mb].q.len() }
pub fn at(us: u64, f: impl FnOnce() + 'static) { let t = world().now + us; push_event(t, Ev::Call(Box::new(f))); }
/// The network decides what becomes of the message.
pub fn send(to: Mbox, m: Msg) {
    dead_check();
    let w = world();
    let (a, b) = (w.tasks[task_id()].node, w.boxes[to].node);
    let noisy = w.now < w.net.quiet_at;
    if noisy {
        if w.net.blocked.contains(&(a, b)) { fault("partition_drop"); return; }
        if chance(w.net.drop, 256) { fault("msg_drop"); return; }
    }
    let mut m = m;
    if noisy && chance(w.net.corrupt, 256) {
        if let Some(f) = w.net.corruptor { let r = choose(1 << 30); if f(&mut m, r) { fault("msg_damaged"); } }
    }
    let lat = |noisy: bool| -> u64 {
        if noisy && chance(world().net.delay, 256) { fault("msg_delay"); 1000 * [5u64, 40, 200, 900][choose(4) as usize] + choose(997) as u64 }
        else { 200 + if noisy { choose(800) as u64 } else { 0 } }
    };
    if noisy && chance(w.net.dup, 256) { fault("msg_dup"); let l = lat(noisy); push_event(w.now + l, Ev::Deliver(to, m.clone())); }
    let l = lat(noisy);
    push_event(w.now + l, Ev::Deliver(to, m));
}
/// Puts a message into a mailbox directly (local queue, no network).
pub fn post(to: Mbox, m: Msg) { deliver(to, m); }
fn deliver(to: Mbox, m: Msg) {
    let w = world();
    let node = w.boxes[to].node;
    if !w.nodes[node].alive { fault("msg_to_dead_node"); return; }
    w.boxes[to].q.push_back(m);
    for t in w.tasks.iter_mut() { if t.mbox == Some(to) && t.state == State::Blocked { t.state = State::Ready; } }
}
/// The calendar clock of all nodes jumps, possibly backwards.
pub(crate) fn clock_read(calendar: bool) {
    probe("clock_read");
    let k = world().clock_jumpy;
    if !chance(k, 256) { return; }
    if calendar { clock_jump([-1, -1_000, 1_000_000, -3_600_000_000, 86_400_000_000, -1_000_000_000_000_000][choose(6) as usize]); }
    else { fault("stall"); world().stalled += [1_000, 1_000_000, 120_000_000, 90_000_000_000][choose(4) as usize]; }
}
pub fn clock_jump(us: i64) { fault("clock_jump"); world().wall_offset += us; }
/// Crashes a node: its tasks never run again outside the operation they are in, and that operation has no
/// further effect; its mailboxes are emptied.
pub fn crash(node: Node) {
    let w = world();
    fault("node_crash");
    w.nodes[node].alive = false;
    for b in w.boxes.iter_mut() { if b.node == node { b.q.clear(); } }
    let mut mid = 0;
    for i in 0..w.tasks.len() {
        let t = &mut w.tasks[i];
        if t.node != node || t.state == State::Done { continue; }
        t.zombie = true;
        if t.mid_op { mid += 1; t.state = State::Ready; } else if i != task_id_opt() { t.state = State::Done; }
    }
    if mid > 0 { stat("probe:crash_inside_operation", mid); }
    for i in 0..w.tasks.len() { if w.tasks[i].state == State::Done { wake_joiners(i); } }
}
fn task_id_opt() -> usize { TASK.with(|t| t.get()) }
pub fn restart(node: Node) { world().nodes[node].alive = true; fault("node_restart"); }

pub struct Config { pub prop: String, pub prefix: Vec<u32>, pub seed: Option<u64>, pub want_trace: bool }
/// Runs one world in this (forked) process and exits it.
pub fn run(cfg: Config, root: fn()) -> ! {
    let w = Box::new(World {
        prop: cfg.prop, ch: Choices { prefix: cfg.prefix, pos: 0, rng: cfg.seed.map(Rng::new), digest: 0 },
        now: 0, tasks: vec![], cur: usize::MAX, main_go: AtomicU32::new(0), events: BTreeMap::new(), seq: 0, wake_token: vec![],
        boxes: vec![], nodes: vec![], net: Net::default(), fs: Fs::default(), preempt: false, want_trace: cfg.want_trace,
        rep: Report::default(), insecure: None, solo: false, wall_offset: 0, clock_jumpy: 0, stalled: 0, on_preempt: None,
    });
    unsafe { W = Box::into_raw(w); }
    add_node("root", Entropy::uniform(1));
    std::panic::set_hook(Box::new(|i| {
        let was = in_sut();
        set_sut(false);
        let m = format!("{} at {}", payload(i.payload()), i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line())));
        PANIC.with(|p| p.set(Some(m)));
        set_sut(was);
    }));
    let root_id = spawn(0, "root", root);
    let w = world();
    loop {
        while let Some((&k, _)) = w.events.iter().next() {
            if k.0 > w.now { break; }
            match w.events.remove(&k).unwrap() {
                Ev::Deliver(b, m) => { trace(|| format!("deliver kind={} id={} len={} to box {b}", m.kind, m.id, m.data.len())); deliver(b, m) }
                Ev::Wake(t, tok) => if w.wake_token[t] == tok && w.tasks[t].state == State::Blocked && w.tasks[t].joining.is_none() { w.tasks[t].state = State::Ready; },
                Ev::Call(f) => f(),
            }
        }
        if w.tasks[root_id].state == State::Done { finish("ok"); }
        let zombie = w.tasks.iter().position(|t| t.zombie && t.state == State::Ready);
        let next = if let Some(z) = zombie { Some(z) } else {
            let mut ready: Vec<usize> = (0..w.tasks.len()).filter(|&i| w.tasks[i].state == State::Ready).collect();
            if let Some(p) = ready.iter().position(|&i| i == w.cur) { ready.swap(0, p); }
            if ready.is_empty() { None } else { Some(ready[choose(ready.len() as u32) as usize]) }
        };
        let Some(t) = next else {
            if let Some((&k, _)) = w.events.iter().next() { w.now = k.0; continue; }
            let names: Vec<String> = w.tasks.iter().filter(|t| t.state == State::Blocked).map(|t| t.name.clone()).collect();
            harness_error(&format!("nothing can run; blocked: {names:?}"));
        };
        if t != w.cur {
            w.rep.switches += 1;
            let mut h = w.rep.trace_hash;
            h = (h ^ (t as u64 + 1)).wrapping_mul(0x100000001b3);
            w.rep.trace_hash = h;
        }
        w.cur = t;
        w.now += 5;
        if w.now > 3_600_000_000 { abort_run("simulated hour exceeded"); }
        let main_go = &w.main_go as *const AtomicU32;
        give(&w.tasks[t].go);
        wait_go(unsafe { &*main_go });
    }
}
fn payload(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "panic".into() }
}
