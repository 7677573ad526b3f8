//! C13: run control.
use crate::isa::*;
use crate::pbt::*;
use crate::progs::{gen_prog, POpts};
use crate::rig::*;
use lc3_ensemble::sim::debug::{Breakpoint, Comparator};
use lc3_ensemble::sim::device::{ExternalDevice, Interrupt};
use lc3_ensemble::sim::{SimErr, Simulator};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;

use super::prog::{install, std_handlers};

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C13",
            rule: "a case is a program and a sequence of run-style calls, or one execution split into segments; non-trivial = at least one call executed two or more steps (calls), or the execution was split at least twice (splits)",
            assumptions: &[
                "a run-style call sets the MCR when it starts, as Simulator::run documents by stopping when it is cleared",
                "instructions are counted by instructions_run (interrupt and exception entries do not count towards a step limit)",
                "when several stop conditions hold at one boundary, hit_breakpoint/hit_halt are judged only where the documentation settles them",
            ],
            suites: vec![suite("calls", 40_000, 1_500_000, c13_calls), suite("splits", 25_000, 800_000, c13_splits), suite("thread", 60, 2_000, c13_thread), suite("long", 150, 5_000, c13_long)],
        },
    ]
}

// ------------------------------------------------------------------ C13

/// Scripted interrupts by poll number, which also counts the steps a machine makes.
#[derive(Clone, Debug, Default)]
struct Script {
    /// poll number -> (vector, priority)
    ints: BTreeMap<u64, (u8, u8)>,
    /// polls at which the device clears the MCR
    clear: Vec<u64>,
    /// from this poll on, the MCR is cleared at every poll
    off: u64,
    /// from this poll on, every poll raises an external interrupt (so that nothing runs forever)
    stop: u64,
}
struct Scripted {
    s: Script,
    n: Arc<AtomicU64>,
    mcr: Arc<AtomicBool>,
}
#[derive(Debug)]
struct Stop;
impl std::fmt::Display for Stop {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("stopped by the harness")
    }
}
impl std::error::Error for Stop {}
impl ExternalDevice for Scripted {
    fn io_read(&mut self, _: u16, _: bool) -> Option<u16> {
        None
    }
    fn io_write(&mut self, _: u16, _: u16) -> bool {
        false
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        let n = self.n.fetch_add(1, Ordering::Relaxed);
        if n >= self.s.stop {
            return Some(Interrupt::external(Stop));
        }
        if n >= self.s.off || self.s.clear.contains(&n) {
            self.mcr.store(false, Ordering::Relaxed);
        }
        self.s.ints.get(&n).map(|&(v, p)| Interrupt::vectored(v, p))
    }
}
struct Rn {
    rg: Rig,
    polls: Arc<AtomicU64>,
}
impl Rn {
    fn new(st: &Setup, debug: bool, s: &Script) -> Rn {
        let mut rg = Rig::new(st, debug);
        let polls: Arc<AtomicU64> = Default::default();
        let mcr = rg.sim.mcr().clone();
        if rg.sim.device_handler.add_device(Scripted { s: s.clone(), n: polls.clone(), mcr }, &[]).is_err() {
            panic!("add_device");
        }
        Rn { rg, polls }
    }
    fn n(&self) -> u64 {
        self.polls.load(Ordering::Relaxed)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub(super) enum Bp {
    Pc(u16),
    Reg(u8, Cmp),
    Mem(u16, Cmp),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub(super) enum Cmp {
    Never,
    Lt(u16),
    Eq(u16),
    Le(u16),
    Gt(u16),
    Ne(u16),
    Ge(u16),
    Always,
}
impl Cmp {
    fn real(self) -> Comparator {
        match self {
            Cmp::Never => Comparator::Never,
            Cmp::Lt(v) => Comparator::Lt(v),
            Cmp::Eq(v) => Comparator::Eq(v),
            Cmp::Le(v) => Comparator::Le(v),
            Cmp::Gt(v) => Comparator::Gt(v),
            Cmp::Ne(v) => Comparator::Ne(v),
            Cmp::Ge(v) => Comparator::Ge(v),
            Cmp::Always => Comparator::Always,
        }
    }
    fn holds(self, x: u16) -> bool {
        match self {
            Cmp::Never => false,
            Cmp::Lt(v) => x < v,
            Cmp::Eq(v) => x == v,
            Cmp::Le(v) => x <= v,
            Cmp::Gt(v) => x > v,
            Cmp::Ne(v) => x != v,
            Cmp::Ge(v) => x >= v,
            Cmp::Always => true,
        }
    }
}
impl Bp {
    pub fn real(self) -> Breakpoint {
        match self {
            Bp::Pc(a) => Breakpoint::PC(a),
            Bp::Reg(r, c) => Breakpoint::Reg { reg: reg(r), value: c.real() },
            Bp::Mem(a, c) => Breakpoint::Mem { addr: a, value: c.real() },
        }
    }
    fn matches(self, s: &Simulator) -> bool {
        match self {
            Bp::Pc(a) => s.pc == a,
            Bp::Reg(r, c) => c.holds(s.reg_file[reg(r)].get()),
            Bp::Mem(a, c) => c.holds(s.mem[a].get()),
        }
    }
}
fn gen_cmp(src: &mut Src) -> Cmp {
    let v = src.word();
    match src.weighted(&[1, 2, 4, 2, 2, 1, 2, 1]) {
        0 => Cmp::Never,
        1 => Cmp::Lt(if src.bool() { v % 16 } else { v }),
        2 => Cmp::Eq(v),
        3 => Cmp::Le(if src.bool() { v % 16 } else { v }),
        4 => Cmp::Gt(v | 0xF000),
        5 => Cmp::Ne(v),
        6 => Cmp::Ge(v | 0xF000),
        _ => Cmp::Always,
    }
}
pub(super) fn gen_bp(src: &mut Src, base: u16, len: u16) -> Bp {
    match src.weighted(&[6, 2, 2]) {
        0 => Bp::Pc(if src.chance(5, 6) { base.wrapping_add(src.below(len.max(1) as u64) as u16) } else { src.word() }),
        1 => Bp::Reg(src.below(8) as u8, gen_cmp(src)),
        _ => Bp::Mem(if src.bool() { base.wrapping_add(src.below(len.max(1) as u64) as u16) } else { 0xFAF0 + src.below(0x20) as u16 }, gen_cmp(src)),
    }
}
/// Deterministic tripwires: stop at call `k`, stop at a PC, clear the MCR at call k.
#[derive(Clone, Copy, Debug)]
struct Trip {
    stop_at: u64,
    stop_pc: Option<u16>,
    clear_at: Option<u64>,
}
impl Trip {
    /// (continue, the MCR was cleared)
    fn call(self, k: u64, s: &Simulator) -> (bool, bool) {
        let c = self.clear_at == Some(k);
        if c {
            s.mcr().store(false, Ordering::Relaxed);
        }
        (k < self.stop_at && self.stop_pc != Some(s.pc), c)
    }
}
#[derive(Clone, Copy, Debug)]
enum Call {
    StepIn,
    Run,
    Limit(u64),
    While(Trip),
    Over,
    Out,
}
fn kind(e: &SimErr) -> String {
    match e {
        SimErr::Interrupt(_) => "Interrupt".into(),
        e => format!("{e:?}"),
    }
}
fn invoke(s: &mut Simulator, c: Call) -> Result<Result<(), SimErr>, Fail> {
    match c {
        Call::StepIn => nopanic("step_in", || s.step_in()),
        Call::Run => nopanic("run", || s.run()),
        Call::Limit(n) => nopanic("run_with_limit", || s.run_with_limit(n)),
        Call::While(t) => {
            let mut k = 0;
            nopanic("run_while", || s.run_while(|s| {
                k += 1;
                t.call(k - 1, s).0
            }))
        }
        Call::Over => nopanic("step_over", || s.step_over()),
        Call::Out => nopanic("step_out", || s.step_out()),
    }
}
fn same(a: &mut Rn, b: &mut Rn, at: &str) -> Res {
    let (x, y) = (&mut a.rg.sim, &mut b.rg.sim);
    ensure!(x.instructions_run == y.instructions_run, "c13-count", "instruction count {at}: {}, by single steps {}", x.instructions_run, y.instructions_run);
    ensure!(x.pc == y.pc, "c13-state", "PC {at}: {:04x}, by single steps {:04x}", x.pc, y.pc);
    for i in 0..8u8 {
        ensure!(x.reg_file[reg(i)] == y.reg_file[reg(i)], "c13-state", "R{i} {at}: {:?}, by single steps {:?}", x.reg_file[reg(i)], y.reg_file[reg(i)]);
    }
    ensure!(x.psr().get() == y.psr().get(), "c13-state", "PSR {at}: {:04x}, by single steps {:04x}", x.psr().get(), y.psr().get());
    ensure!(x.frame_stack.len() == y.frame_stack.len(), "c13-state", "frame depth {at}: {}, by single steps {}", x.frame_stack.len(), y.frame_stack.len());
    ensure!(x.prefetch_pc() == y.prefetch_pc(), "c13-state", "prefetch PC {at}: {:04x}, by single steps {:04x}", x.prefetch_pc(), y.prefetch_pc());
    let (p, q) = (get_ssp(x), get_ssp(y));
    ensure!(p == q, "c13-state", "saved SP {at}: {p:04x}, by single steps {q:04x}");
    let (k, l) = (a.rg.kbuf.read().unwrap(), b.rg.kbuf.read().unwrap());
    ensure!(*k == *l, "c13-state", "keyboard queue {at}: {k:?}, by single steps {l:?}");
    let (k, l) = (a.rg.dbuf.read().unwrap(), b.rg.dbuf.read().unwrap());
    ensure!(*k == *l, "c13-state", "display {at}: {k:?}, by single steps {l:?}");
    Ok(())
}
fn same_mem(a: &Simulator, b: &Simulator, at: &str) -> Res {
    for x in 0..=0xFFFFu16 {
        ensure!(a.mem[x] == b.mem[x], "c13-state", "mem[{x:04x}] {at}: {:?}, by single steps {:?}", a.mem[x], b.mem[x]);
    }
    Ok(())
}
/// Makes the call on `a`, then repeats its steps one by one on `b`, judging every boundary. Returns the number of steps.
fn call_and_check(a: &mut Rn, b: &mut Rn, c: Call, bps: &[Bp], ctx: &mut Ctx) -> Result<(u64, bool), Fail> {
    let n0 = a.n();
    let i0 = b.rg.sim.instructions_run;
    let d0 = b.rg.sim.frame_stack.len();
    let at = format!("after {c:?} from {:04x}", b.rg.sim.pc);
    let got = invoke(&mut a.rg.sim, c)?;
    let na = a.n() - n0;
    if let Call::StepIn = c {
        ensure!(na == 1, "c13-steps", "step_in made {na} steps");
    }
    if matches!(c, Call::Out) && d0 == 0 {
        ensure!(na == 0, "c13-boundary", "step_out at depth 0 made {na} steps");
        ensure!(got.is_ok(), "c13-error", "step_out at depth 0: {got:?}");
        same(a, b, &at)?;
        return Ok((0, false));
    }
    let run = !matches!(c, Call::StepIn);
    let mcr = b.rg.sim.mcr().clone();
    if run {
        mcr.store(true, Ordering::Relaxed);
    }
    let mut last: Result<(), SimErr> = Ok(());
    let mut halted = false;
    let (mut bp_hit, mut off, mut off_now, mut was_off) = (false, false, false, false);
    for k in 0..=na {
        let sim = &mut b.rg.sim;
        if run {
            // conditions at boundary k
            off = !mcr.load(Ordering::Relaxed);
            bp_hit = k > 0 && bps.iter().any(|x| x.matches(sim));
            let depth = sim.frame_stack.len();
            let (go, cleared) = match c {
                Call::While(t) => t.call(k, sim),
                Call::Limit(n) => (sim.instructions_run - i0 < n, false),
                Call::Over => (k == 0 || depth > d0, false),
                Call::Out => (k == 0 || depth >= d0, false),
                _ => (true, false),
            };
            off_now = cleared;
            let stopped = !go;
            let over = halted || last.is_err();
            if k < na {
                ensure!(!stopped, "c13-boundary", "{at}: its condition held after {k} steps, but {na} were made");
                ensure!(!bp_hit, "c13-boundary", "{at}: a breakpoint matched after {k} steps (pc {:04x}), but {na} were made; breakpoints {bps:?}", sim.pc);
                ensure!(!over, "c13-boundary", "{at}: halted or failed at step {k}, but {na} were made");
                // (the one more instruction may set the MCR again)
                ensure!(!(was_off && off), "c13-mcr", "{at}: the MCR was clear after {} steps, but {na} were made", k - 1);
                was_off = off || cleared;
            } else {
                ensure!(stopped || bp_hit || over || off || cleared, "c13-boundary", "{at}: stopped after {na} steps (pc {:04x}) although no condition holds: got {got:?}, depth {depth} (from {d0}), {} instructions", sim.pc, sim.instructions_run - i0);
            }
        }
        if k == na {
            break;
        }
        let (pc, cnt, depth, w) = (sim.pc, sim.instructions_run, sim.frame_stack.len(), sim.mem[sim.pc].get());
        let real = sim.flags.use_real_traps;
        last = nopanic("step_in", || sim.step_in())?;
        let sim = &b.rg.sim;
        // the limit and the counts compared are judged in instructions, so the counter must count them
        let d = sim.instructions_run.wrapping_sub(cnt);
        ensure!(d <= 1, "c13-count", "{at}: one single step at {pc:04x} counted {d} instructions");
        if last.is_ok() && w != 0xF025 && sim.pc == pc.wrapping_add(1) && sim.frame_stack.len() == depth {
            ensure!(d == 1, "c13-count", "{at}: the instruction {w:04x} at {pc:04x} was executed and not counted");
        }
        halted = !real && last.is_ok() && w == 0xF025 && sim.pc == pc && sim.instructions_run == cnt && sim.frame_stack.len() == depth;
    }
    match (&got, &last) {
        (Ok(()), Ok(())) => {}
        (Err(x), Err(y)) if kind(x) == kind(y) => {}
        _ => return fail("c13-error", format!("{at}: returned {got:?}, the last single step {last:?}")),
    }
    same(a, b, &at)?;
    if run {
        let (h, p) = (a.rg.sim.hit_halt(), a.rg.sim.hit_breakpoint());
        let w = format!("{at}: hit_halt() = {h}, hit_breakpoint() = {p}");
        if last.is_err() {
            ensure!(!h && !p, "c13-pause", "{w} after an error");
            ctx.class("stopped by an error");
        } else if halted {
            ensure!(h, "c13-pause", "{w} after HALT");
            ctx.class("stopped by HALT");
        } else if bp_hit {
            ensure!(p || (off && h), "c13-pause", "{w} at a breakpoint");
            ctx.class("stopped by a breakpoint");
        } else if off {
            ensure!(h && !p, "c13-pause", "{w} after the MCR was cleared");
            ctx.class("stopped by the MCR");
        } else if !off_now {
            ensure!(!h && !p, "c13-pause", "{w}, stopped by its own condition");
            ctx.class(match c {
                Call::Limit(_) => "stopped by the limit",
                Call::While(_) => "stopped by the tripwire",
                Call::Over => "stopped by step_over's depth",
                _ => "stopped by step_out's depth",
            });
        }
    } else {
        ctx.class("step_in");
    }
    // (the MCR between calls is not part of what is compared)
    let m = a.rg.sim.mcr().load(Ordering::Relaxed);
    b.rg.sim.mcr().store(m, Ordering::Relaxed);
    Ok((na, last.is_err() || halted))
}
fn gen_call(src: &mut Src, base: u16, len: u16) -> Call {
    match src.weighted(&[5, 3, 6, 4, 6, 4]) {
        0 => Call::StepIn,
        1 => Call::Run,
        2 => Call::Limit(match src.weighted(&[3, 3, 6, 1]) {
            0 => src.below(3),
            1 => src.below(200),
            3 => *src.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, u32::MAX as u64]),
            _ => src.below(30),
        }),
        3 => Call::While(Trip {
            stop_at: src.below(60),
            stop_pc: src.chance(1, 3).then(|| base.wrapping_add(src.below(len.max(1) as u64) as u16)),
            clear_at: src.chance(1, 4).then(|| src.below(12)),
        }),
        4 => Call::Over,
        _ => Call::Out,
    }
}
fn gen_script(src: &mut Src, vects: u64, span: u64) -> Script {
    let mut s = Script { off: 3000, stop: 12_000, ..Default::default() };
    for _ in 0..src.below(6) {
        let (at, v, p) = (src.below(span), 0x80 + src.below(vects) as u8, src.below(8) as u8);
        s.ints.insert(at, (v, p));
    }
    if src.chance(1, 4) {
        s.clear.push(src.below(span));
    }
    s
}
/// Long runs: limits, subroutines and loops of tens of thousands of instructions.
fn c13_long(src: &mut Src, ctx: &mut Ctx) -> Res {
    const N: [u64; 12] = [255, 256, 257, 1000, 4096, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 100_000];
    let mut st = Setup::basic(src.bool());
    st.pc = 0x3000;
    let w = src.below(20_000) as u16;
    st.r[1] = if src.chance(1, 4) { w } else { 1 + w % 700 };
    st.r[2] = 1 + src.below(0xFFFF) as u16;
    let rec = src.bool();
    let code: [Ins; 11] = [
        // R1 times a subroutine, which counts a register (or itself recursively) down
        Ins::AddI(3, 4, 0),
        Ins::Jsr(6),
        Ins::AddI(5, 5, 1),
        Ins::AddI(1, 1, -1),
        Ins::Br(1, -5),
        Ins::AddI(2, 2, -1),
        Ins::Br(5, -2),
        Ins::Trap(0x25),
        // the subroutine
        Ins::AddI(3, 3, -1),
        if rec { Ins::Br(2, 2) } else { Ins::Br(1, -2) },
        if rec { Ins::Jsr(-3) } else { Ins::Jmp(7) },
    ];
    for (i, x) in code.iter().enumerate() {
        st.pokes.push((0x3000 + i as u16, x.enc()));
    }
    // (a recursive subroutine's inner returns all go to x300B: one outer return per visit of it is enough)
    st.pokes.push((0x300B, Ins::Jmp(7).enc()));
    if rec {
        // a return to x300B would loop for ever: count returns in R3, leave by the last
        st.pokes.push((0x300B, Ins::AddI(3, 3, 1).enc()));
        st.pokes.push((0x300C, Ins::Br(2, -11).enc()));
        st.pokes.push((0x300D, Ins::Jmp(7).enc()));
    }
    st.r[4] = *src.pick(&[3u16, 10, 200, 255, 256, 300, 1000, 20_000]);
    if st.r[4] as u64 * st.r[1] as u64 > 300_000 {
        st.r[1] = (300_000 / st.r[4] as u64) as u16;
    }
    let script = Script { off: u64::MAX, stop: 1_500_000, ..Default::default() };
    let debug = src.bool();
    let mut a = Rn::new(&st, debug, &script);
    let mut b = Rn::new(&st, debug, &script);
    let mut bps: Vec<Bp> = vec![];
    if src.chance(1, 4) {
        let x = Bp::Pc(0x3000 + src.below(14) as u16);
        a.rg.sim.breakpoints.insert(x.real());
        bps.push(x);
    }
    let mut hist: Vec<String> = vec![];
    let mut spent = 0;
    for _ in 0..src.range(1, 6) {
        let c = match src.weighted(&[2, 1, 5, 3, 4, 3]) {
            0 => Call::StepIn,
            1 => Call::Run,
            2 => Call::Limit(*src.pick(&N) + src.below(3)),
            3 => Call::While(Trip { stop_at: *src.pick(&N), stop_pc: None, clear_at: None }),
            4 => Call::Over,
            _ => Call::Out,
        };
        hist.push(format!("{c:?}"));
        ctx.describe(|| format!("debug={debug} recursive={rec} {bps:?} calls=[{}] {}", hist.join(", "), st.show()));
        let (k, end) = call_and_check(&mut a, &mut b, c, &bps, ctx)?;
        ctx.evals += k;
        ctx.nontrivial_if(k > 255);
        ctx.class_if(k > 65_536, "more than 65536 steps in one call");
        spent += k;
        if end || spent > 700_000 {
            break;
        }
    }
    ctx.key(&format!("{st:?}{hist:?}{bps:?}"));
    same_mem(&a.rg.sim, &b.rg.sim, "at the end")
}
fn c13_calls(src: &mut Src, ctx: &mut Ctx) -> Res {
    let debug = src.bool();
    let (mut st, base, len) = if src.bool() {
        let input = src.bool();
        let faults = src.chance(1, 3);
        let p = gen_prog(src, POpts { input, output: true, faults, size: 8 });
        let real = src.bool();
        (p.setup(real), p.base, p.words.len() as u16)
    } else {
        let mut s = gen_setup(src, true);
        s.ndev = 0;
        s.sigs.clear();
        let (b, n) = (s.pc, s.pokes.len() as u16);
        (s, b, n)
    };
    let hs = std_handlers(src, 2);
    if src.bool() {
        install(&mut st, &hs);
    }
    let script = gen_script(src, 3, 200);
    let mut a = Rn::new(&st, debug, &script);
    let mut b = Rn::new(&st, debug, &script);
    let mut bps: Vec<Bp> = vec![];
    let mut hist: Vec<String> = vec![];
    let n = src.range(1, 14);
    let mut ends = 0;
    ctx.key(&format!("{st:?}{script:?}{}", src.tape.len()));
    // sometimes very many breakpoints, most of which never match
    if src.chance(1, 12) {
        let k = src.range(8, 300);
        ctx.class("many breakpoints");
        hist.push(format!("add {k} breakpoints outside the program"));
        for _ in 0..k {
            let x = match src.below(3) {
                0 => Bp::Pc(0x9000 + src.below(0x1000) as u16),
                1 => Bp::Reg(src.below(8) as u8, Cmp::Eq(src.u16())),
                _ => Bp::Mem(0x9000 + src.below(0x1000) as u16, Cmp::Eq(src.u16())),
            };
            a.rg.sim.breakpoints.insert(x.real());
            bps.push(x);
        }
        for _ in 0..3 {
            let x = gen_bp(src, base, len);
            hist.push(format!("add {x:?}"));
            a.rg.sim.breakpoints.insert(x.real());
            bps.push(x);
        }
    }
    let room = bps.len() + 5;
    for _ in 0..n {
        match src.weighted(&[10, 2, 1, 1]) {
            0 => {
                let c = gen_call(src, base, len);
                hist.push(format!("{c:?}"));
                ctx.describe(|| format!("debug={debug} script={script:?} calls=[{}] {}", hist.join(", "), st.show()));
                let (k, end) = call_and_check(&mut a, &mut b, c, &bps, ctx)?;
                ctx.evals += k;
                ctx.nontrivial_if(k >= 2 && !matches!(c, Call::StepIn));
                ends += end as u32;
                if ends > 2 {
                    break;
                }
            }
            1 => {
                if bps.len() < room {
                    let x = gen_bp(src, base, len);
                    hist.push(format!("add {x:?}"));
                    a.rg.sim.breakpoints.insert(x.real());
                    bps.push(x);
                }
            }
            2 => {
                if !bps.is_empty() {
                    let i = src.usize(bps.len());
                    let x = bps.remove(i);
                    hist.push(format!("remove {x:?}"));
                    // the same breakpoint may have been added twice: the machine keeps a set
                    if !bps.iter().any(|y| y.real() == x.real()) {
                        a.rg.sim.breakpoints.remove(&x.real());
                    }
                }
            }
            _ => {
                let c = src.below(256) as u8;
                hist.push(format!("key {c}"));
                a.rg.kbuf.write().unwrap().push_back(c);
                b.rg.kbuf.write().unwrap().push_back(c);
            }
        }
    }
    same_mem(&a.rg.sim, &b.rg.sim, "at the end")
}
/// One terminating program, run unbroken and in segments.
fn c13_splits(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (real, input, debug) = (src.bool(), src.bool(), src.bool());
    let faults = src.chance(1, 4);
    let p = gen_prog(src, POpts { input, output: true, faults, size: 7 });
    let mut st = p.setup(real);
    let hs = std_handlers(src, 2);
    install(&mut st, &hs);
    let mut script = Script { off: u64::MAX, stop: 8000, ..Default::default() };
    for _ in 0..src.below(5) {
        let (at, d, pr) = (src.below(150), src.below(2) as u8, src.below(8) as u8);
        script.ints.insert(at, (0x80 + d, pr));
    }
    ctx.key(&format!("{p:?}{script:?}{}", src.tape.len()));
    let mut u = Rn::new(&st, debug, &script);
    let whole = invoke(&mut u.rg.sim, Call::Run)?;
    if u.n() >= 8000 {
        ctx.class("program too long (skipped)");
        return Ok(());
    }
    let mut s = Rn::new(&st, debug, &script);
    let mut hist: Vec<String> = vec![];
    let mut segs = 0u64;
    let len = p.words.len() as u16;
    let last = loop {
        // a segment
        let before = s.n();
        let c = if segs >= 60 { Call::Run } else { match src.weighted(&[4, 1, 6, 4, 5, 4]) {
            0 => Call::StepIn,
            1 => Call::Run,
            2 => Call::Limit(1 + src.below(40)),
            3 => Call::While(Trip { stop_at: 1 + src.below(40), stop_pc: None, clear_at: None }),
            4 => Call::Over,
            _ => Call::Out,
        } };
        s.rg.sim.breakpoints.clear();
        if segs < 60 && src.chance(1, 2) {
            // (a breakpoint on the very instruction that clears the MCR would be a second reason to stop: user code only)
            let b = if real || src.bool() { Bp::Pc(p.base + src.below(len as u64) as u16) } else { gen_bp(src, p.base, len) };
            s.rg.sim.breakpoints.insert(b.real());
            hist.push(format!("{b:?}"));
        }
        hist.push(format!("{c:?}"));
        ctx.describe(|| format!("debug={debug} real={real} script={script:?} segments=[{}] {}", hist.join(", "), p.show()));
        segs += 1;
        if let Call::StepIn = c {
            s.rg.sim.mcr().store(true, Ordering::Relaxed);
        }
        let pc = s.rg.sim.pc;
        let cnt = s.rg.sim.instructions_run;
        let r = invoke(&mut s.rg.sim, c)?;
        let stepped = matches!(c, Call::StepIn);
        if r.is_err() {
            break r;
        }
        if !stepped && s.n() > before && s.rg.sim.hit_halt() {
            break r;
        }
        if stepped && (!s.rg.sim.mcr().load(Ordering::Relaxed) || !real && s.rg.sim.pc == pc && s.rg.sim.instructions_run == cnt && s.rg.sim.mem[pc].get() == 0xF025) {
            break r;
        }
        ensure!(s.n() <= u.n() + 4, "c13-split", "the split execution made {} steps, the unbroken one ended after {}", s.n(), u.n());
    };
    ctx.evals += u.n() + s.n();
    ctx.nontrivial_if(segs >= 3);
    ctx.class_n(segs, "segments");
    ctx.class_if(whole.is_err(), "ends in an error");
    ctx.class_if(real, "real traps");
    match (&whole, &last) {
        (Ok(()), Ok(())) => {}
        (Err(x), Err(y)) if kind(x) == kind(y) => {}
        _ => return fail("c13-split", format!("split: {last:?}, unbroken: {whole:?}")),
    }
    ensure!(s.n() == u.n(), "c13-split", "the split execution made {} steps, the unbroken one {}", s.n(), u.n());
    same(&mut s, &mut u, "after the split execution").map_err(|f| Fail { msg: f.msg.replace("by single steps", "unbroken"), ..f })?;
    same_mem(&s.rg.sim, &u.rg.sim, "after the split execution")
}
/// Another thread clears the MCR while the program loops.
fn c13_thread(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut st = Setup::basic(src.bool());
    let calls = src.bool();
    let code: Vec<Ins> = if calls {
        vec![Ins::AddI(0, 0, 1), Ins::Jsr(1), Ins::Br(7, -3), Ins::AddI(1, 1, 1), Ins::Jmp(7)]
    } else {
        vec![Ins::AddI(0, 0, 1), Ins::Str(0, 2, 0), Ins::Br(7, -3)]
    };
    st.r[2] = 0x4000;
    st.pokes = code.iter().enumerate().map(|(i, x)| (0x3000 + i as u16, x.enc())).collect();
    let how = src.below(3);
    let spin = src.below(3000);
    // gives up (with an error) after 20 million steps
    let script = Script { off: u64::MAX, stop: 20_000_000, ..Default::default() };
    let mut a = Rn::new(&st, false, &script);
    ctx.describe(|| format!("an endless loop (calls={calls}) under call {how}; a second thread clears the MCR after {spin} spins"));
    ctx.key(&(calls, how, spin));
    ctx.nontrivial();
    let mcr = a.rg.sim.mcr().clone();
    let polls = a.polls.clone();
    let done = Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    let t = std::thread::spawn(move || {
        // the run has started once polls are seen
        while polls.load(Ordering::Relaxed) == 0 && !d2.load(Ordering::Relaxed) {
            std::hint::spin_loop();
        }
        for _ in 0..spin {
            std::hint::spin_loop();
        }
        mcr.store(false, Ordering::Relaxed);
    });
    let c = match how {
        0 => Call::Run,
        1 => Call::Limit(u64::MAX),
        _ => Call::While(Trip { stop_at: u64::MAX, stop_pc: None, clear_at: None }),
    };
    let r = invoke(&mut a.rg.sim, c);
    done.store(true, Ordering::Relaxed);
    let _ = t.join();
    let r = r?;
    ensure!(r.is_ok(), "c13-mcr", "clearing the MCR from another thread did not stop the run: {r:?} after {} steps", a.n());
    ensure!(a.rg.sim.hit_halt(), "c13-mcr", "hit_halt() is false after the MCR was cleared");
    let n = a.n();
    let mut b = Rn::new(&st, false, &script);
    for _ in 0..n {
        let _ = b.rg.sim.step_in();
    }
    ctx.evals += n;
    same(&mut a, &mut b, "after the MCR was cleared by another thread")
}
