//! C10, C11, C12: interrupts, OS traps, real vs virtual traps, over generated user programs.
use crate::isa::*;
use crate::pbt::*;
use crate::progs::*;
use crate::refsim::*;
use crate::rig::*;
use lc3_ensemble::ast::Reg;
use lc3_ensemble::sim::device::{ExternalDevice, Interrupt, TimerDevice};
use lc3_ensemble::sim::{SimErr, Simulator};
use std::sync::atomic::Ordering;
use std::sync::{Arc, LazyLock, Mutex};

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C10",
            rule: "a case is a program plus an interrupt schedule, run interrupted and uninterrupted; non-trivial = at least one interrupt was taken before the program ended",
            assumptions: &[
                "handlers live in supervisor memory, save and restore the registers they use on the supervisor stack and end with RTI",
                "device vectors are x03-xFF (x00-x02 are the exception vectors)",
                "programs do not read the keyboard while keyboard interrupts are enabled",
            ],
            suites: vec![exhaustive("placement", PLACE_N, c10_place), suite("random", 40_000, 1_200_000, c10_random), suite("devices", 15_000, 400_000, c10_devices)],
        },
        Property {
            id: "C11",
            rule: "a case invokes one or more OS traps from user code on a random machine; non-trivial = at least one trap returned (or HALT stopped the machine) with a non-empty effect",
            assumptions: &["user stack and code are in user memory; supervisor stack is in free supervisor memory below x3000", "PUTS strings hold one byte per word"],
            suites: vec![exhaustive("bytes", 256 * 4, c11_bytes), suite("traps", 25_000, 700_000, c11_traps), suite("long", 1_500, 40_000, c11_long), suite("halt", 6_000, 100_000, c11_halt)],
        },
        Property {
            id: "C12",
            rule: "a case is one generated user program run to its end under virtual and under real traps; non-trivial = the program made at least one trap, call or fault before ending",
            assumptions: &["programs do not inspect supervisor memory or the words below their stack pointer", "OS messages are learnt from a one-instruction faulting program per exception and must be distinct and name their exception"],
            suites: vec![suite("halting", 20_000, 600_000, c12_halting), suite("faulting", 20_000, 600_000, c12_faulting), suite("long", 400, 10_000, c12_long)],
        },
    ]
}

pub fn regs(sim: &Simulator) -> [u16; 8] {
    std::array::from_fn(|i| sim.reg_file[reg(i as u8)].get())
}
/// First address in user memory at which the two machines differ.
pub fn user_diff(a: &Simulator, b: &Simulator) -> Option<u16> {
    (USER..IO).find(|&x| a.mem[x].get() != b.mem[x].get())
}

// ------------------------------------------------------------------ C10

#[derive(Clone, Debug)]
pub struct Handler {
    vect: u8,
    base: u16,
    code: Vec<u16>,
}
/// A handler that clobbers registers it saved, optionally calls a helper, and returns with RTI.
fn gen_handler(src: &mut Src, vect: u8, base: u16, keyboard: bool) -> Handler {
    let mut code: Vec<Ins> = vec![];
    let nsave = src.below(6);
    let mut saved: Vec<u8> = vec![];
    if keyboard {
        saved.push(0);
        saved.push(1);
    }
    for _ in 0..nsave {
        let r = *src.pick(&[0u8, 1, 2, 3, 4, 5, 7]);
        if !saved.contains(&r) {
            saved.push(r);
        }
    }
    let call = src.chance(1, 3);
    if call && !saved.contains(&7) {
        saved.push(7);
    }
    for &r in &saved {
        code.push(Ins::AddI(6, 6, -1));
        code.push(Ins::Str(r, 6, 0));
    }
    let scr: Vec<u8> = saved.iter().copied().filter(|&r| r != 7 || !call).collect();
    if !scr.is_empty() {
        for _ in 0..src.below(6) {
            let (a, b) = (*src.pick(&scr), *src.pick(&scr));
            let ins = match src.below(5) {
                0 => Ins::AddI(a, b, src.range(-16, 15) as i16),
                1 => Ins::AndI(a, b, src.range(-16, 15) as i16),
                2 => Ins::Not(a, b),
                3 => Ins::Lea(a, src.range(-5, 5) as i16),
                _ => Ins::AddR(a, b, a),
            };
            code.push(ins);
        }
    }
    if call {
        // JSR over a RET
        code.push(Ins::Br(7, 1));
        code.push(Ins::Jmp(7));
        code.push(Ins::Jsr(-2));
    }
    let mut kdr = None;
    if keyboard {
        // R0 <- KBDR; buffer[count++] <- R0
        kdr = Some(code.len());
        code.push(Ins::Ldi(0, 0));
        code.push(Ins::Ld(1, 0));
        code.push(Ins::Str(0, 1, 0));
        code.push(Ins::AddI(1, 1, 1));
        code.push(Ins::St(1, 0));
    }
    for &r in saved.iter().rev() {
        code.push(Ins::Ldr(r, 6, 0));
        code.push(Ins::AddI(6, 6, 1));
    }
    code.push(Ins::Rti);
    let mut w: Vec<u16> = vec![];
    let n = code.len();
    for (i, ins) in code.into_iter().enumerate() {
        let ins = match kdr {
            Some(k) if i == k => Ins::Ldi(0, (n - i - 1) as i16),
            Some(k) if i == k + 1 => Ins::Ld(1, (n + 1 - i - 1) as i16),
            Some(k) if i == k + 4 => Ins::St(1, (n + 1 - i - 1) as i16),
            _ => ins,
        };
        w.push(ins.enc());
    }
    if keyboard {
        w.push(KBDR);
        w.push(KEYLOG);
    }
    Handler { vect, base, code: w }
}
const KEYLOG: u16 = 0x2000;
const HBASE: u16 = 0x1000;

pub fn install(st: &mut Setup, hs: &[Handler]) {
    for h in hs {
        st.pokes.push((0x100 + h.vect as u16, h.base));
        st.pokes.extend(h.code.iter().enumerate().map(|(i, &w)| (h.base + i as u16, w)));
    }
}
type Fired = Arc<Mutex<Option<(u8, u8)>>>;
/// A timer that stops after a number of polls (a timer faster than its handler would starve the program forever)
/// and reports what it raised.
struct LimitedTimer {
    t: TimerDevice,
    polls: u32,
    fired: Fired,
}
impl ExternalDevice for LimitedTimer {
    fn io_read(&mut self, a: u16, e: bool) -> Option<u16> {
        self.t.io_read(a, e)
    }
    fn io_write(&mut self, a: u16, d: u16) -> bool {
        self.t.io_write(a, d)
    }
    fn io_reset(&mut self) {
        self.t.io_reset()
    }
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        if self.polls == 0 {
            return None;
        }
        self.polls -= 1;
        let i = self.t.poll_interrupt();
        *self.fired.lock().unwrap() = i.as_ref().map(|_| (self.t.vect, self.t.priority));
        i
    }
}
struct Ran {
    steps: u64,
    taken: u64,
    nested: u64,
    ended: bool,
    in_trap: u64,
}
fn at_end(sim: &Simulator, real: bool, before_count: u64, before_pc: u16) -> bool {
    if real { !sim.mcr().load(Ordering::Relaxed) } else { sim.instructions_run == before_count && sim.pc == before_pc }
}
/// Runs to the program's end. `reqs(step)` gives the requests pending at that boundary and is told whether one was taken.
/// Every boundary's outcome is judged.
fn drive(rg: &mut Rig, real: bool, hs: &[Handler], judge: bool, max: u64, fired: &Fired, mut reqs: impl FnMut(u64, Option<u8>) -> Vec<Option<(u8, u8)>>) -> Result<Ran, Fail> {
    let mut ran = Ran { steps: 0, taken: 0, nested: 0, ended: false, in_trap: 0 };
    rg.sim.mcr().store(true, Ordering::Relaxed);
    let mut last_taken = None;
    while ran.steps < max {
        let pend = reqs(ran.steps, last_taken);
        last_taken = None;
        *rg.pend.lock().unwrap() = pend.clone();
        let sim = &mut rg.sim;
        let (pc, psr, r, cnt) = (sim.pc, sim.psr().get(), regs(sim), sim.instructions_run);
        let was_rti = sim.mem[pc].get() == 0x8000;
        let ssp = if judge { get_ssp(sim) } else { 0 };
        let mut all: Vec<(u8, u8)> = pend.iter().flatten().copied().collect();
        if rg.rf.kb_ie && !rg.kbuf.read().unwrap().is_empty() {
            all.push((KB_VECT, KB_PRIO));
        }
        *fired.lock().unwrap() = None;
        let res = nopanic("step_in", || sim.step_in())?;
        all.extend(*fired.lock().unwrap());
        ran.steps += 1;
        if let Err(e) = res {
            return fail("c10-error", format!("step at {pc:04x} (requests {all:?}) failed: {e:?}"));
        }
        let top = all.iter().map(|x| x.1).max();
        let prio = (psr >> 8 & 7) as u8;
        let handler_of = |p: u16| hs.iter().find(|h| h.base == p).map(|h| h.vect);
        if let Some(t) = top.filter(|&t| t > prio) {
            // must be taken, by one of the highest-priority requesters
            if judge {
                let winners: Vec<u8> = all.iter().filter(|x| x.1 == t).map(|x| x.0).collect();
                let v = handler_of(sim.pc);
                ensure!(v.is_some_and(|v| winners.contains(&v)), "c10-gate", "at {pc:04x} with priority {prio} and requests {all:x?}: pc is {:04x}, expected the handler of one of {winners:x?}", sim.pc);
                let p2 = sim.psr().get();
                ensure!(p2 & 0x8000 == 0 && (p2 >> 8 & 7) as u8 == t, "c10-entry", "PSR on entry {p2:04x}, request priority {t}, old PSR {psr:04x}");
                let r2 = regs(sim);
                let ssp2 = get_ssp(sim);
                let (base, s2) = if psr & 0x8000 != 0 { (ssp, r[6]) } else { (r[6], ssp) };
                ensure!(r2[6] == base.wrapping_sub(2), "c10-entry", "supervisor SP on entry {:04x}, expected {:04x}", r2[6], base.wrapping_sub(2));
                ensure!(ssp2 == s2, "c10-entry", "saved SP on entry {ssp2:04x}, expected {s2:04x}");
                ensure!(sim.mem[r2[6]].get() == pc && sim.mem[r2[6].wrapping_add(1)].get() == psr, "c10-entry", "saved PC/PSR {:04x}/{:04x}, expected {pc:04x}/{psr:04x}", sim.mem[r2[6]].get(), sim.mem[r2[6].wrapping_add(1)].get());
                for i in [0, 1, 2, 3, 4, 5, 7] {
                    ensure!(r2[i] == r[i], "c10-entry", "R{i} changed by the interrupt entry at {pc:04x}");
                }
            }
            ran.taken += 1;
            ran.nested += (prio > 0) as u64;
            ran.in_trap += (prio == 0 && psr & 0x8000 == 0) as u64;
            last_taken = handler_of(rg.sim.pc);
        } else {
            if judge {
                // (an RTI may return to the first instruction of an interrupted handler)
                ensure!(handler_of(sim.pc).is_none() || was_rti, "c10-gate", "at {pc:04x} with priority {prio} and requests {all:x?} an interrupt was taken (pc {:04x})", sim.pc);
            }
            let sim = &rg.sim;
            if judge && !real && sim.instructions_run == cnt && sim.pc == pc {
                // only a virtual HALT leaves everything as it was
                ensure!(sim.mem[pc].get() == Ins::Trap(0x25).enc(), "c10-gate", "the step at {pc:04x} ({:04x}) with priority {prio} and requests {all:x?} did nothing", sim.mem[pc].get());
            } else if judge {
                ensure!(sim.instructions_run != cnt || sim.pc != pc, "c10-gate", "the step at {pc:04x} with priority {prio} and requests {all:x?} did nothing");
            }
            if at_end(sim, real, cnt, pc) {
                ran.ended = true;
                break;
            }
        }
    }
    Ok(ran)
}
fn compare_runs(a: &Rig, b: &Rig, what: &str) -> Res {
    let (ra, rb) = (regs(&a.sim), regs(&b.sim));
    ensure!(ra == rb, "c10-regs", "registers at the end {what}: {ra:x?}, uninterrupted {rb:x?}");
    ensure!(a.sim.psr().cc() == b.sim.psr().cc(), "c10-cc", "condition codes at the end {what}: {:?}, uninterrupted {:?}", a.sim.psr(), b.sim.psr());
    ensure!(a.sim.psr().get() == b.sim.psr().get(), "c10-psr", "PSR at the end {what}: {:?}, uninterrupted {:?}", a.sim.psr(), b.sim.psr());
    ensure!(a.sim.pc == b.sim.pc, "c10-pc", "PC at the end {what}: {:04x}, uninterrupted {:04x}", a.sim.pc, b.sim.pc);
    let (da, db) = (a.dbuf.read().unwrap().clone(), b.dbuf.read().unwrap().clone());
    ensure!(da == db, "c10-output", "output {what}: {da:?}, uninterrupted {db:?}");
    if let Some(x) = user_diff(&a.sim, &b.sim) {
        return fail("c10-memory", format!("user memory {x:04x} at the end {what}: {:04x}, uninterrupted {:04x}", a.sim.mem[x].get(), b.sim.mem[x].get()));
    }
    Ok(())
}
pub fn std_handlers(src: &mut Src, n: usize) -> Vec<Handler> {
    (0..n).map(|k| gen_handler(src, 0x80 + k as u8, HBASE + 0x40 * k as u16, false)).collect()
}
/// Handlers for n different device vectors.
fn vect_handlers(src: &mut Src, n: usize) -> Vec<Handler> {
    let mut used: Vec<u8> = vec![];
    while used.len() < n {
        let v = match src.below(4) {
            0 | 1 => src.range(0x80, 0x88) as u8,
            2 => *src.pick(&[0x03u8, 0x04, 0x7F, 0xFF, 0xFE, 0xC1, 0xC0]),
            _ => src.range(0x03, 0xFF) as u8,
        };
        // (a replay whose draws repeat falls back to the next free vector)
        let v = (0..=255u8).map(|d| v.wrapping_add(d)).find(|v| *v > 2 && !used.contains(v)).unwrap();
        used.push(v);
    }
    used.iter().enumerate().map(|(k, &v)| gen_handler(src, v, HBASE + 0x40 * k as u16, false)).collect()
}

// Exhaustive placement: every pair of boundaries i <= j in the first PLACE_B boundaries of PLACE_P short programs.
const PLACE_P: u64 = 6;
const PLACE_B: u64 = 48;
const PLACE_K: u64 = 4;
const PLACE_N: u64 = PLACE_P * PLACE_K * PLACE_B * PLACE_B;
fn place_prog(k: u64) -> (Prog, bool) {
    // deterministic short programs (found by seed), covering loops, calls, stack use and OS traps
    let mut s = Src::random(mix(&[0xC10, k]));
    loop {
        let p = gen_prog(&mut s, POpts { input: k % 3 == 1, output: true, faults: false, size: 4 });
        let good = match k % 3 {
            0 => p.n_calls > 0 && p.n_traps > 0,
            1 => p.n_traps > 0,
            _ => p.n_loops > 0 && p.n_calls > 0,
        };
        if good && p.words.len() < 110 {
            return (p, k % 2 == 1);
        }
    }
}
fn c10_place(src: &mut Src, ctx: &mut Ctx) -> Res {
    let c = src.below(PLACE_N);
    let (i, j) = (c % PLACE_B, c / PLACE_B % PLACE_B);
    let k = c / (PLACE_B * PLACE_B) % PLACE_K;
    let pk = c / (PLACE_B * PLACE_B * PLACE_K);
    if j < i {
        return Ok(());
    }
    let (p, real) = place_prog(pk);
    let mut hsrc = Src::random(mix(&[pk, k, 77]));
    let hs = vect_handlers(&mut hsrc, 2);
    // priorities: equal, rising, falling, masked by level 0
    let (p0, p1) = [(4, 4), (2, 6), (6, 2), (7, 0)][k as usize];
    let held = (i + j) % 2 == 0;
    let mut st = p.setup(real);
    st.ndev = 2;
    install(&mut st, &hs);
    ctx.describe(|| format!("program {pk} real={real}, requests at boundaries {i} (prio {p0}) and {j} (prio {p1}) held={held}: {}", p.show()));
    ctx.key(&c);
    let mut a = Rig::new(&st, false);
    let mut wait = [i, j];
    let prios = [p0, p1];
    let ra = drive(&mut a, real, &hs, true, 20_000, &Default::default(), |n, taken| {
        if let Some(v) = taken {
            wait[hs.iter().position(|h| h.vect == v).unwrap()] = u64::MAX;
        }
        (0..2).map(|d| (wait[d] != u64::MAX && (n == wait[d] || (held && n >= wait[d]))).then(|| (hs[d].vect, prios[d]))).collect()
    })?;
    let mut b = Rig::new(&st, false);
    let rb = drive(&mut b, real, &hs, false, 20_000, &Default::default(), |_, _| vec![None, None])?;
    ensure!(rb.ended, "c10-harness", "the uninterrupted program does not end");
    ensure!(ra.ended, "c10-end", "the interrupted program does not end");
    ctx.evals += ra.steps;
    ctx.nontrivial_if(ra.taken > 0);
    ctx.class_n(ra.taken, "interrupts taken");
    ctx.class_if(ra.nested > 0, "nested");
    ctx.class_if(ra.in_trap > 0, "taken inside an OS routine");
    ctx.class_if(ra.taken == 2, "both taken");
    compare_runs(&a, &b, "interrupted")
}
fn c10_random(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (input, real) = (src.bool(), src.bool());
    let p = gen_prog(src, POpts { input, output: true, faults: false, size: 8 });
    let n = src.range(1, 5) as usize;
    let hs = vect_handlers(src, n);
    let mut st = p.setup(real);
    st.ndev = n;
    st.fill = gen_fill(src, 15);
    ctx.class_if(st.fill > 0, "many devices");
    install(&mut st, &hs);
    // the level the program runs at
    let level = if src.chance(1, 4) { src.below(8) as u16 } else { 0 };
    st.psr |= level << 8;
    ctx.class_if(level > 0, "program at a priority above 0");
    // density of requests
    let den = *src.pick(&[2u64, 5, 20, 60]);
    let nreq = src.range(1, 14) as usize;
    let mut sched: Vec<(u64, usize, u8, bool)> = (0..nreq).map(|_| (src.below(den * nreq as u64 + 2), src.usize(n), src.below(8) as u8, src.bool())).collect();
    ctx.describe(|| format!("real={real} level={level} requests (boundary, device, priority, held)={sched:?} handlers={hs:x?} {}", p.show()));
    ctx.key(&format!("{p:?}{sched:?}"));
    let mut b = Rig::new(&st, false);
    let rb = drive(&mut b, real, &hs, false, 20_000, &Default::default(), |_, _| vec![None; n])?;
    if !rb.ended {
        ctx.class("program ran out of input");
        return Ok(());
    }
    let mut a = Rig::new(&st, false);
    let ra = drive(&mut a, real, &hs, true, 60_000, &Default::default(), |s, taken| {
        if let Some(v) = taken {
            // the oldest request of that device is served
            if let Some(k) = sched.iter().position(|x| hs[x.1].vect == v && x.0 <= s) {
                sched.remove(k);
            }
        }
        // pulses that were not taken are gone
        let mut out = vec![None; n];
        for x in &sched {
            if x.0 == s || (x.3 && x.0 < s) {
                let cur: &mut Option<(u8, u8)> = &mut out[x.1];
                if cur.is_none() {
                    *cur = Some((hs[x.1].vect, x.2));
                }
            }
        }
        out
    })?;
    ensure!(ra.ended, "c10-end", "the interrupted program does not end (uninterrupted: {} steps)", rb.steps);
    ctx.evals += ra.steps;
    ctx.nontrivial_if(ra.taken > 0);
    ctx.class_n(ra.taken, "interrupts taken");
    ctx.class_if(ra.nested > 0, "nested");
    ctx.class_if(ra.in_trap > 0, "taken inside an OS routine");
    ctx.class_if(ra.taken >= 5, "5+ interrupts");
    ctx.class_if(real, "real traps");
    compare_runs(&a, &b, "interrupted")
}
/// Keyboard interrupts (handler collects the keys) and a real timer device.
fn c10_devices(src: &mut Src, ctx: &mut Ctx) -> Res {
    let real = src.bool();
    let p = gen_prog(src, POpts { input: false, output: true, faults: false, size: 8 });
    let kb = src.bool();
    let timer = !kb || src.bool();
    let hs = vec![gen_handler(src, 0x80, HBASE, true), gen_handler(src, 0x81, HBASE + 0x40, false)];
    let tprio = src.range(1, 7) as u8;
    let (lo, span, seed) = (src.range(1, 40) as u32, src.below(30) as u32, src.below(1 << 20));
    let polls = 50 + src.below(3000) as u32;
    let mut st = p.setup(real);
    install(&mut st, &hs);
    st.fill = gen_fill(src, 15);
    ctx.class_if(st.fill > 0, "many devices");
    st.kb = Some(vec![]);
    let keys: Vec<(u64, u8)> = if kb { (0..src.range(1, 8)).map(|_| (src.below(120), src.below(256) as u8)).collect() } else { vec![] };
    let mut st_on = st.clone();
    st_on.kb_ie = kb;
    ctx.describe(|| format!("real={real} keys={keys:?} timer={timer} range={lo}..={} prio={tprio} seed={seed} polls={polls} handlers={hs:x?} {}", lo + span, p.show()));
    ctx.key(&format!("{p:?}{keys:?}{lo}{span}{seed}"));
    let mut b = Rig::new(&st, false);
    let rb = drive(&mut b, real, &hs, false, 20_000, &Default::default(), |_, _| vec![])?;
    if !rb.ended {
        ctx.class("program too long (skipped)");
        return Ok(());
    }
    let mut a = Rig::new(&st_on, false);
    let fired: Fired = Default::default();
    if timer {
        let mut t = TimerDevice::new(Some(seed), lo..=lo + span, 0x81, tprio);
        t.enabled = true;
        let lt = LimitedTimer { t, polls, fired: fired.clone() };
        let _ = a.sim.device_handler.add_device(lt, &[]);
    }
    let kbuf = a.kbuf.clone();
    let mut sent = vec![];
    let mut left = keys.clone();
    let ra = drive(&mut a, real, &hs, true, 100_000, &fired, |s, _| {
        left.retain(|&(at, b)| {
            if at <= s {
                kbuf.write().unwrap().push_back(b);
                sent.push(b);
            }
            at > s
        });
        vec![]
    })?;
    ensure!(ra.ended, "c10-end", "the interrupted program does not end (uninterrupted: {} steps)", rb.steps);
    let taken = a.sim.instructions_run != b.sim.instructions_run;
    ctx.evals += ra.steps;
    ctx.nontrivial_if(taken);
    ctx.class_if(taken && timer, "timer interrupted");
    // keys collected by the handler, in order, are exactly the ones that left the queue
    let n = a.sim.mem[hs[0].base + hs[0].code.len() as u16 - 1].get().wrapping_sub(KEYLOG);
    if kb {
        let rest: Vec<u8> = a.kbuf.read().unwrap().iter().copied().collect();
        let got: Vec<u8> = (0..n).map(|i| a.sim.mem[KEYLOG + i].get() as u8).chain(rest).collect();
        ctx.class_if(n > 0, "keyboard interrupted");
        ensure!(got == sent, "c10-keys", "keys seen by the handler plus those left: {got:?}, typed {sent:?}");
    }
    compare_runs(&a, &b, "interrupted")
}

// ------------------------------------------------------------------ C11

/// What IN prints before it waits for a key, learnt by running it with no key available.
static PROMPT: LazyLock<Vec<u8>> = LazyLock::new(|| {
    let mut st = Setup::basic(false);
    st.pokes.push((0x3000, Ins::Trap(0x23).enc()));
    let mut rg = Rig::new(&st, false);
    for _ in 0..5000 {
        let _ = rg.sim.step_in();
    }
    let v = rg.dbuf.read().unwrap().clone();
    v
});

struct Call {
    vect: u8,
    out: Vec<u8>,
    takes: usize,
    r0: Option<u16>,
}
fn poke_string(src: &mut Src, st: &mut Setup, packed: bool) -> (u16, Vec<u8>) {
    let n = match src.weighted(&[1, 2, 4, 1]) {
        0 => 0,
        1 => 1,
        2 => src.range(2, 12),
        _ => src.range(12, 40),
    } as usize;
    poke_string_of(src, st, packed, n)
}
const LONG: [usize; 16] = [41, 64, 127, 128, 254, 255, 256, 257, 300, 511, 513, 1000, 1025, 4097, 10_000, 32_769];
fn poke_string_of(src: &mut Src, st: &mut Setup, packed: bool, n: usize) -> (u16, Vec<u8>) {
    let bytes: Vec<u8> = (0..n).map(|_| match src.below(4) {
        0 => *src.pick(&[1u8, 0x7F, 0x80, 0xFF, 10, 0x20]),
        _ => 1 + src.below(255) as u8,
    }).collect();
    let words = if packed { n / 2 + 1 } else { n + 1 } as u16;
    let at = match src.weighted(&[4, 1, 1]) {
        0 => (0x4000 + src.below(0xA000) as u16).min(IO - words),
        1 => IO - words,
        _ => 0x3100,
    };
    if packed {
        for i in 0..words as usize {
            let lo = bytes.get(2 * i).copied().unwrap_or(0);
            // behind a zero low byte the high byte is never printed
            let hi = if 2 * i >= n { src.below(256) as u8 } else { bytes.get(2 * i + 1).copied().unwrap_or(0) };
            st.pokes.push((at + i as u16, lo as u16 | (hi as u16) << 8));
        }
    } else {
        // a character is a word's low byte; the word may hold anything above it
        let wide = src.chance(1, 4);
        for (i, &b) in bytes.iter().enumerate() {
            let hi = if wide { src.word() & 0xFF00 } else { 0 };
            st.pokes.push((at + i as u16, hi | b as u16));
        }
        st.pokes.push((at + n as u16, 0));
    }
    (at, bytes)
}
/// A display that is busy for `wait` status reads after each character, and loses what is written while it is busy.
struct SlowDisplay {
    out: DBuf,
    wait: u32,
    busy: u32,
}
impl ExternalDevice for SlowDisplay {
    fn io_read(&mut self, addr: u16, effectful: bool) -> Option<u16> {
        (addr == DSR).then(|| {
            let ready = self.busy == 0;
            if effectful {
                self.busy = self.busy.saturating_sub(1);
            }
            (ready as u16) << 15
        })
    }
    fn io_write(&mut self, addr: u16, data: u16) -> bool {
        if addr != DDR || self.busy > 0 {
            return false;
        }
        self.out.write().unwrap().push(data as u8);
        self.busy = self.wait;
        true
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        None
    }
}
/// A keyboard that shows a key only after `wait` status reads, and gives a stale byte before that.
struct SlowKeyboard {
    keys: KBuf,
    wait: u32,
    busy: u32,
    /// bits of KBSR other than the ready bit
    noise: u16,
}
impl ExternalDevice for SlowKeyboard {
    fn io_read(&mut self, addr: u16, effectful: bool) -> Option<u16> {
        let any = !self.keys.read().unwrap().is_empty();
        match addr {
            KBSR => {
                let ready = any && self.busy == 0;
                if effectful && any {
                    self.busy = self.busy.saturating_sub(1);
                }
                Some((ready as u16) << 15 | self.noise)
            }
            KBDR if any && self.busy == 0 => {
                let mut k = self.keys.write().unwrap();
                if effectful {
                    self.busy = self.wait;
                    k.pop_front().map(u16::from)
                } else {
                    k.front().map(|x| *x as u16)
                }
            }
            KBDR => Some(0xA5),
            _ => None,
        }
    }
    fn io_write(&mut self, _: u16, _: u16) -> bool {
        false
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        None
    }
}
/// How the devices behave in a C11 case: status reads until each is ready again, other KBSR bits.
#[derive(Clone, Copy, Debug, Default)]
struct Slow {
    ds: Option<u32>,
    kb: Option<(u32, u16)>,
}
/// Steps until the trap at `pc` has returned to pc+1 in user mode at the same frame depth.
fn run_trap(rg: &mut Rig, pc: u16, late: &mut Vec<(u64, u8)>, max: u64) -> Result<Option<u64>, Fail> {
    let depth = rg.sim.frame_stack.len();
    for n in 0..max {
        late.retain(|&(at, b)| {
            if at <= n {
                rg.kbuf.write().unwrap().push_back(b);
            }
            at > n
        });
        let sim = &mut rg.sim;
        let r = nopanic("step_in", || sim.step_in())?;
        if let Err(e) = r {
            return fail("c11-error", format!("the trap at {pc:04x} failed: {e:?} at {:04x}", rg.sim.prefetch_pc()));
        }
        if rg.sim.frame_stack.len() <= depth && rg.sim.pc == pc.wrapping_add(1) && !rg.sim.psr().privileged() {
            return Ok(Some(n + 1));
        }
        if rg.sim.frame_stack.len() <= depth {
            return fail("c11-return", format!("the trap at {pc:04x} returned to {:04x} (psr {:?})", rg.sim.pc, rg.sim.psr()));
        }
    }
    Ok(None)
}
fn c11_case(ctx: &mut Ctx, st: &Setup, calls: &[(u16, Option<u16>, Call)], mut late: Vec<(u64, u8)>, slow: Slow) -> Res {
    let mut rg = Rig::new(st, false);
    if let Some(w) = slow.ds {
        rg.sim.device_handler.set_display(SlowDisplay { out: rg.dbuf.clone(), wait: w, busy: w });
    }
    if let Some((w, noise)) = slow.kb {
        rg.sim.device_handler.set_keyboard(SlowKeyboard { keys: rg.kbuf.clone(), wait: w, busy: w, noise });
    }
    let mut keys: Vec<u8> = st.kb.clone().unwrap();
    keys.extend(late.iter().map(|x| x.1));
    for (pc, r0, c) in calls {
        if let Some(v) = r0 {
            rg.sim.reg_file[Reg::R0].set(*v);
        }
        rg.sim.pc = *pc;
        let (before, psr) = (regs(&rg.sim), rg.sim.psr().get());
        let ssp = get_ssp(&mut rg.sim);
        let shown = rg.dbuf.read().unwrap().len();
        let umem: Vec<u16> = (USER..IO).map(|a| rg.sim.mem[a].get()).collect();
        let steps = run_trap(&mut rg, *pc, &mut late, 40_000 + 400 * c.out.len() as u64)?;
        let Some(steps) = steps else {
            return fail("c11-hang", format!("trap x{:02x} at {pc:04x} does not return", c.vect));
        };
        ctx.evals += steps;
        let out = rg.dbuf.read().unwrap()[shown.min(rg.dbuf.read().unwrap().len())..].to_vec();
        ensure!(out == c.out, "c11-output", "trap x{:02x} printed {out:?}, expected {:?}", c.vect, c.out);
        let taken: Vec<u8> = keys.drain(..c.takes).collect();
        let left: Vec<u8> = rg.kbuf.read().unwrap().iter().copied().chain(late.iter().map(|x| x.1)).collect();
        ensure!(left == keys, "c11-input", "trap x{:02x} left {left:?} in the keyboard, expected {keys:?} (taking {taken:?})", c.vect);
        let mut exp = before;
        if let Some(v) = c.r0 {
            exp[0] = v;
        }
        let after = regs(&rg.sim);
        ensure!(after == exp, "c11-regs", "registers after trap x{:02x}: {after:x?}, expected {exp:x?}", c.vect);
        ensure!(rg.sim.psr().get() == psr, "c11-psr", "PSR after trap x{:02x}: {:04x}, expected {psr:04x}", c.vect, rg.sim.psr().get());
        let ssp2 = get_ssp(&mut rg.sim);
        ensure!(ssp2 == ssp, "c11-ssp", "saved SP after trap x{:02x}: {ssp2:04x}, expected {ssp:04x}", c.vect);
        for a in USER..IO {
            let (x, y) = (rg.sim.mem[a].get(), umem[(a - USER) as usize]);
            ensure!(x == y, "c11-memory", "user memory {a:04x} after trap x{:02x}: {x:04x}, was {y:04x}", c.vect);
        }
    }
    Ok(())
}
/// Every byte through GETC, OUT, IN, and as a one-character PUTS/PUTSP string.
fn c11_bytes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let c = src.below(1024);
    let b = (c & 255) as u8;
    let how = c >> 8;
    let mut st = Setup::basic(c & 1 == 1);
    let mut s = Src::random(mix(&[0xC11, c]));
    st.r = std::array::from_fn(|_| s.word());
    st.psr = 0x8000 | *s.pick(&[1u16, 2, 4]);
    let rnd = s.u16();
    let (vect, out, takes, ret, r0) = match how {
        0 => (0x20, vec![], 1, Some(b as u16), None),
        1 => (0x21, vec![b], 0, None, Some((rnd & 0xFF00) | b as u16)),
        2 => (0x23, [PROMPT.as_slice(), &[b]].concat(), 1, Some(b as u16), None),
        _ => {
            st.pokes.push((0x4000, b as u16));
            st.pokes.push((0x4001, 0));
            (if c & 2 == 0 { 0x22 } else { 0x24 }, if b == 0 { vec![] } else { vec![b] }, 0, None, Some(0x4000))
        }
    };
    st.kb = Some(if takes > 0 { vec![b, b ^ 0x55] } else { vec![b] });
    st.pokes.push((0x3000, Ins::Trap(vect).enc()));
    ctx.describe(|| format!("byte {b:#04x} through trap x{vect:02x}, {}", st.show()));
    ctx.key(&c);
    ctx.nontrivial();
    c11_case(ctx, &st, &[(0x3000, r0, Call { vect, out, takes, r0: ret })], vec![], Slow::default())
}
fn c11_traps(src: &mut Src, ctx: &mut Ctx) -> Res {
    ensure!(!PROMPT.is_empty(), "c11-prompt", "IN prints no prompt");
    let mut st = Setup::basic(src.bool());
    st.pat = src.usize(6);
    st.psr = 0x8000 | (if src.chance(1, 4) { src.below(8) as u16 } else { 0 }) << 8 | *src.pick(&[1u16, 2, 4]);
    st.saved_sp = *src.pick(&[0x3000u16, 0x2FF0, 0x2800]);
    for i in 0..8 {
        st.r[i] = src.word();
    }
    let mut slow = Slow::default();
    match src.below(5) {
        0 => {
            // keyboard interrupts enabled but held off by the program's priority
            st.kb_ie = true;
            st.psr = (st.psr & !0x700) | (4 + src.below(4) as u16) << 8;
            ctx.class("keyboard interrupts enabled, held off");
        }
        1 => {
            if src.chance(2, 3) {
                slow.ds = Some(src.below(6) as u32);
                ctx.class("slow display");
            }
            if src.chance(2, 3) {
                slow.kb = Some((src.below(6) as u32, if src.bool() { src.word() & 0x7FFF } else { 0 }));
                ctx.class("slow keyboard");
            }
        }
        _ => {}
    }
    let nk = src.usize(6);
    let mut keys: Vec<u8> = (0..nk).map(|_| src.below(256) as u8).collect();
    let mut calls: Vec<(u16, Option<u16>, Call)> = vec![];
    let mut late: Vec<(u64, u8)> = vec![];
    let mut want: std::collections::VecDeque<u8> = keys.iter().copied().collect();
    for k in 0..src.range(1, 4) {
        let pc = match src.weighted(&[4, 1, 1]) {
            0 => 0x3000 + 8 * k as u16,
            1 => IO - 2 - k as u16,
            _ => 0xF000 + src.below(0x100) as u16,
        };
        let kind = src.weighted(&[3, 3, 3, 3, 3]);
        let mut r0 = None;
        let call = match kind {
            0 | 3 => {
                if want.is_empty() {
                    let b = src.below(256) as u8;
                    late.push((src.below(400), b));
                    want.push_back(b);
                    ctx.class("key arrives while waiting");
                }
                let b = want.pop_front().unwrap();
                if kind == 0 {
                    ctx.class("GETC");
                    Call { vect: 0x20, out: vec![], takes: 1, r0: Some(b as u16) }
                } else {
                    ctx.class("IN");
                    Call { vect: 0x23, out: [PROMPT.as_slice(), &[b]].concat(), takes: 1, r0: Some(b as u16) }
                }
            }
            1 => {
                let v = src.word();
                r0 = Some(v);
                ctx.class("OUT");
                Call { vect: 0x21, out: vec![v as u8], takes: 0, r0: None }
            }
            2 => {
                let (at, b) = poke_string(src, &mut st, false);
                r0 = Some(at);
                ctx.class(if b.is_empty() { "PUTS empty" } else { "PUTS" });
                Call { vect: 0x22, out: b, takes: 0, r0: None }
            }
            _ => {
                let (at, b) = poke_string(src, &mut st, true);
                r0 = Some(at);
                ctx.class(if b.is_empty() { "PUTSP empty" } else if b.len() % 2 == 1 { "PUTSP odd" } else { "PUTSP even" });
                Call { vect: 0x24, out: b, takes: 0, r0: None }
            }
        };
        calls.push((pc, r0, call));
    }
    // late keys are delivered in order of their index
    late.sort_by_key(|x| x.0);
    let order: Vec<u8> = late.iter().map(|x| x.1).collect();
    // recompute which key each reading trap gets, now that the arrival order is final
    keys.extend(order);
    let mut it = keys.iter().copied();
    for (_, _, c) in &mut calls {
        if c.takes == 1 {
            let b = it.next().unwrap();
            c.r0 = Some(b as u16);
            if let Some(l) = c.out.last_mut() {
                *l = b;
            }
        }
    }
    st.kb = Some(keys[..nk].to_vec());
    // code goes last, over string data, unless that would destroy a string or another trap
    let code: Vec<(u16, u16)> = calls.iter().map(|(pc, _, c)| (*pc, Ins::Trap(c.vect).enc())).collect();
    let clash = code.iter().enumerate().any(|(i, x)| st.pokes.iter().any(|y| y.0 == x.0) || code[..i].iter().any(|y| y.0 == x.0)) || dup_strings(&st);
    if clash {
        ctx.class("overlapping layout (skipped)");
        return Ok(());
    }
    st.pokes.extend(code);
    ctx.describe(|| format!("traps {:x?} late keys {late:?} {slow:?} {}", calls.iter().map(|c| (c.0, c.1, c.2.vect)).collect::<Vec<_>>(), st.show()));
    ctx.key(&format!("{st:?}{slow:?}"));
    ctx.nontrivial();
    // each late key is timed from the start of the trap that is running
    c11_case(ctx, &st, &calls, late, slow)
}
/// Long strings, long keyboard queues, a display that already shows much.
fn c11_long(src: &mut Src, ctx: &mut Ctx) -> Res {
    let real = src.bool();
    let mut st = Setup::basic(real);
    st.psr = 0x8000 | *src.pick(&[1u16, 2, 4]);
    st.saved_sp = *src.pick(&[0x3000u16, 0x2FF0]);
    for i in 0..8 {
        st.r[i] = src.word();
    }
    let mut slow = Slow::default();
    if src.chance(1, 5) {
        slow.ds = Some(src.below(4) as u32);
    }
    if src.chance(1, 5) {
        slow.kb = Some((src.below(4) as u32, 0));
    }
    let nk = *src.pick(&LONG[..14]) + src.usize(40);
    let mut ks = Src::random(mix(&[src.below(1 << 32)]));
    let keys: Vec<u8> = (0..nk).map(|_| ks.below(256) as u8).collect();
    let mut calls: Vec<(u16, Option<u16>, Call)> = vec![];
    let mut taken = 0;
    // what one string is printed by several traps adds up on the display
    let mut strings: Vec<(u16, Vec<u8>, bool)> = vec![];
    for k in 0..src.range(1, 8) {
        let pc = 0x3000 + k as u16;
        match src.below(4) {
            0 if taken < nk => {
                let b = keys[taken];
                taken += 1;
                if src.bool() {
                    calls.push((pc, None, Call { vect: 0x20, out: vec![], takes: 1, r0: Some(b as u16) }));
                } else {
                    calls.push((pc, None, Call { vect: 0x23, out: [PROMPT.as_slice(), &[b]].concat(), takes: 1, r0: Some(b as u16) }));
                }
            }
            1 if !strings.is_empty() => {
                let (at, b, packed) = src.pick(&strings).clone();
                calls.push((pc, Some(at), Call { vect: if packed { 0x24 } else { 0x22 }, out: b, takes: 0, r0: None }));
            }
            _ => {
                let packed = src.bool();
                let top = if src.chance(1, 12) { LONG.len() } else { 13 };
                let n = *src.pick(&LONG[..top]) + src.usize(8);
                let (at, b) = poke_string_of(src, &mut st, packed, n);
                strings.push((at, b.clone(), packed));
                calls.push((pc, Some(at), Call { vect: if packed { 0x24 } else { 0x22 }, out: b, takes: 0, r0: None }));
            }
        }
    }
    if dup_strings(&st) {
        ctx.class("overlapping layout (skipped)");
        return Ok(());
    }
    let total: usize = calls.iter().map(|c| c.2.out.len()).sum();
    ctx.class_if(total > 1024, "more than 1024 characters printed");
    ctx.class_if(nk > 256 && taken > 0, "key read from a queue of more than 256");
    st.kb = Some(keys);
    st.pokes.extend(calls.iter().map(|(pc, _, c)| (*pc, Ins::Trap(c.vect).enc())));
    ctx.describe(|| format!("{nk} keys, {slow:?}, real traps {real}, traps {:x?}", calls.iter().map(|c| (c.0, c.1, c.2.vect, c.2.out.len())).collect::<Vec<_>>()));
    ctx.key(&format!("{nk}{slow:?}{:?}", calls.iter().map(|c| (c.1, c.2.vect, c.2.out.len())).collect::<Vec<_>>()));
    ctx.nontrivial_if(total > 255 || nk > 255);
    c11_case(ctx, &st, &calls, vec![], slow)
}
fn dup_strings(st: &Setup) -> bool {
    let mut v: Vec<u16> = st.pokes.iter().map(|x| x.0).collect();
    v.sort();
    v.windows(2).any(|w| w[0] == w[1])
}
fn c11_halt(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut st = Setup::basic(src.bool());
    st.pat = src.usize(6);
    st.psr = 0x8000 | *src.pick(&[1u16, 2, 4]);
    for i in 0..8 {
        st.r[i] = src.word();
    }
    st.pc = 0x3000 + src.below(0xCD00) as u16;
    let lead = src.below(4) as u16;
    for k in 0..lead {
        st.pokes.push((st.pc + k, Ins::AddI(src.below(6) as u8, src.below(6) as u8, src.range(-16, 15) as i16).enc()));
    }
    st.pokes.push((st.pc + lead, Ins::Trap(0x25).enc()));
    st.kb = Some(vec![1, 2]);
    ctx.describe(|| st.show());
    ctx.key(&format!("{st:?}"));
    ctx.nontrivial();
    let mut rg = Rig::new(&st, false);
    let umem: Vec<u16> = (USER..IO).map(|a| rg.sim.mem[a].get()).collect();
    let sim = &mut rg.sim;
    let mut n = 0u64;
    let r = nopanic("run", || sim.run_while(|_| {
        n += 1;
        n < 20_000
    }))?;
    ctx.evals += n;
    ensure!(r.is_ok(), "c11-halt", "run of a halting program: {r:?}");
    ensure!(n < 20_000, "c11-halt", "HALT does not stop the machine");
    ensure!(rg.sim.hit_halt() && !rg.sim.hit_breakpoint(), "c11-halt", "hit_halt() is {} after HALT", rg.sim.hit_halt());
    ensure!(rg.dbuf.read().unwrap().is_empty() || st.real_traps, "c11-halt", "virtual HALT printed {:?}", rg.dbuf.read().unwrap());
    ensure!(rg.kbuf.read().unwrap().len() == 2, "c11-halt", "HALT consumed input");
    for a in USER..IO {
        let (x, y) = (rg.sim.mem[a].get(), umem[(a - USER) as usize]);
        ensure!(x == y, "c11-memory", "user memory {a:04x} after HALT: {x:04x}, was {y:04x}");
    }
    Ok(())
}

// ------------------------------------------------------------------ C12
fn run_to_end(rg: &mut Rig, max: u64) -> Result<(Result<(), SimErr>, u64), Fail> {
    let sim = &mut rg.sim;
    let mut n = 0u64;
    let r = nopanic("run", || sim.run_while(|_| {
        n += 1;
        n <= max
    }))?;
    Ok((r, n))
}
static MESSAGES: LazyLock<Vec<(E, Vec<u8>)>> = LazyLock::new(|| {
    [(E::Privilege, 0x8000u16), (E::Illegal, 0xD000), (E::Access, 0xA000)]
        .into_iter()
        .map(|(e, w)| {
            let mut st = Setup::basic(true);
            // A000 is LDI R0, #0: a load through the following word (x0000)
            st.pokes.push((0x3000, w));
            let mut rg = Rig::new(&st, false);
            let _ = run_to_end(&mut rg, 20_000);
            let d = rg.dbuf.read().unwrap().clone();
            (e, d)
        })
        .collect()
});
fn check_messages() -> Res {
    for (i, (e, m)) in MESSAGES.iter().enumerate() {
        let t = String::from_utf8_lossy(m).to_lowercase();
        let kw = match e {
            E::Privilege => "privilege",
            E::Illegal | E::Format => "illegal",
            E::Access => "access",
        };
        ensure!(t.contains(kw), "c12-message", "the OS message for {e:?} is {t:?}");
        for (f, n) in &MESSAGES[..i] {
            ensure!(m != n, "c12-message", "{e:?} and {f:?} print the same message {t:?}");
        }
    }
    Ok(())
}
fn c12_pair(src: &mut Src, ctx: &mut Ctx, faults: bool) -> Res {
    check_messages()?;
    let input = src.chance(1, 2);
    let p = gen_prog(src, POpts { input, output: true, faults, size: 9 });
    ctx.describe(|| p.show());
    ctx.key(&format!("{p:?}"));
    let max = 40_000;
    let mut v = Rig::new(&p.setup(false), false);
    let mut r = Rig::new(&p.setup(true), false);
    let (rv, nv) = run_to_end(&mut v, max)?;
    if nv > max {
        ctx.class("program ran out of input");
        return Ok(());
    }
    let (rr, nr) = run_to_end(&mut r, max + 20_000)?;
    ctx.evals += nv + nr;
    ctx.nontrivial_if(p.n_traps + p.n_calls > 0 || rv.is_err());
    ensure!(nr <= max + 20_000, "c12-hang", "under real traps the program does not stop (virtual: {rv:?} after {nv} steps)");
    ensure!(rr.is_ok(), "c12-error", "under real traps the run fails with {rr:?} at {:04x}; virtual: {rv:?}", r.sim.prefetch_pc());
    ensure!(r.sim.hit_halt(), "c12-halt", "under real traps the machine did not halt; virtual: {rv:?}");
    let (dv, dr) = (v.dbuf.read().unwrap().clone(), r.dbuf.read().unwrap().clone());
    let (kv, kr) = (v.kbuf.read().unwrap().clone(), r.kbuf.read().unwrap().clone());
    ensure!(kv == kr, "c12-input", "keys left: real {kr:?}, virtual {kv:?}");
    match rv {
        Ok(()) => {
            ensure!(v.sim.hit_halt(), "c12-halt", "virtual run ended without HALT");
            ctx.class("halts");
            ensure!(dr == dv, "c12-output", "output: real {dr:?}, virtual {dv:?}");
            let (a, b) = (regs(&r.sim), regs(&v.sim));
            ensure!(a[..6] == b[..6], "c12-regs", "R0-R5: real {:x?}, virtual {:x?}", &a[..6], &b[..6]);
            if let Some(x) = user_diff(&r.sim, &v.sim) {
                return fail("c12-memory", format!("user memory {x:04x}: real {:04x}, virtual {:04x}", r.sim.mem[x].get(), v.sim.mem[x].get()));
            }
        }
        Err(e) => {
            let Some(e) = err_of(&e) else { return fail("c12-error", format!("virtual run failed with {e:?}")) };
            ctx.class(match e {
                E::Illegal => "illegal opcode",
                E::Format => "illegal format",
                E::Privilege => "privilege violation",
                E::Access => "access violation",
            });
            let key = if e == E::Format { E::Illegal } else { e };
            let m = &MESSAGES.iter().find(|x| x.0 == key).unwrap().1;
            let exp = [dv.as_slice(), m].concat();
            ensure!(dr == exp, "c12-message", "after {e:?} the display shows {:?}, expected {:?}", String::from_utf8_lossy(&dr), String::from_utf8_lossy(&exp));
            if let Some(x) = user_diff(&r.sim, &v.sim) {
                return fail("c12-memory", format!("user memory {x:04x} after {e:?}: real {:04x}, virtual {:04x}", r.sim.mem[x].get(), v.sim.mem[x].get()));
            }
        }
    }
    Ok(())
}
fn c12_halting(src: &mut Src, ctx: &mut Ctx) -> Res {
    c12_pair(src, ctx, false)
}
/// Long inputs and outputs: echo loops, read-then-print, IN, long strings.
fn c12_long(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = *src.pick(&[0u64, 1, 2, 4, 5]);
    let n = *src.pick(&LONG[..14]) + src.usize(20);
    let mut ks = Src::random(mix(&[src.below(1 << 32)]));
    let bytes: Vec<u8> = (0..n).map(|_| 1 + ks.below(255) as u8).collect();
    ctx.describe(|| format!("program {kind} with {n} bytes {:?}...", &bytes[..8]));
    ctx.key(&(kind, n, ks.below(1 << 32)));
    ctx.nontrivial();
    let setup = |real: bool| {
        let mut s = super::io::io_prog(kind, n, real, &bytes);
        s.kb = Some(if kind < 4 { bytes.clone() } else { vec![] });
        s
    };
    let mut v = Rig::new(&setup(false), false);
    let mut r = Rig::new(&setup(true), false);
    let max = 2_000_000;
    let (rv, nv) = run_to_end(&mut v, max)?;
    let (rr, nr) = run_to_end(&mut r, max)?;
    ctx.evals += nv + nr;
    ensure!(rv.is_ok() && v.sim.hit_halt(), "c12-long", "virtual run: {rv:?} after {nv} steps");
    ensure!(rr.is_ok() && r.sim.hit_halt(), "c12-long", "real run: {rr:?} after {nr} steps");
    let (dv, dr) = (v.dbuf.read().unwrap().clone(), r.dbuf.read().unwrap().clone());
    let want: Vec<u8> = match kind {
        2 => bytes.iter().flat_map(|b| PROMPT.iter().copied().chain([*b])).collect(),
        4 => [bytes.as_slice(), &bytes].concat(),
        5 => [bytes.as_slice(), &[0]].concat(),
        _ => bytes.clone(),
    };
    // (program 5 prints the low byte of the string's address last)
    ensure!(dv == want, "c12-output", "{} characters of output under virtual traps, expected {}", dv.len(), want.len());
    ensure!(dr == dv, "c12-output", "{} characters of output under real traps, {} under virtual ones", dr.len(), dv.len());
    let (a, b) = (regs(&r.sim), regs(&v.sim));
    ensure!(a[..6] == b[..6], "c12-regs", "R0-R5: real {:x?}, virtual {:x?}", &a[..6], &b[..6]);
    ensure!(v.kbuf.read().unwrap().is_empty() && r.kbuf.read().unwrap().is_empty(), "c12-input", "keys left");
    if let Some(x) = user_diff(&r.sim, &v.sim) {
        return fail("c12-memory", format!("user memory {x:04x}: real {:04x}, virtual {:04x}", r.sim.mem[x].get(), v.sim.mem[x].get()));
    }
    Ok(())
}
fn c12_faulting(src: &mut Src, ctx: &mut Ctx) -> Res {
    c12_pair(src, ctx, true)
}
