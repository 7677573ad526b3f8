//! C09, C14, C15, C16: protection, strict mode, word initialization tracking, panic freedom.
use crate::isa::*;
use crate::pbt::*;
use crate::refsim::*;
use crate::rig::*;
use lc3_ensemble::sim::mem::Word;
use lc3_ensemble::sim::{InternalRegister, SimErr, Simulator};
use std::sync::atomic::Ordering;
use std::sync::LazyLock;

use super::prog::regs;

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C09",
            rule: "a case is a user-mode machine with recording devices on every I/O port; non-trivial = at least one executed step attempts an access or RTI that user mode forbids",
            assumptions: &[
                "under real traps the saved supervisor stack pointer points into ordinary memory that does not overlap the vector table",
                "an effect-free peek (no effectful device read, no change) is not an access",
            ],
            suites: vec![exhaustive("aim", 256 * 8, c09_aim), exhaustive("boundary", BOUND_N, c09_boundary), suite("random", 60_000, 2_000_000, c09_random)],
        },
        Property {
            id: "C14",
            rule: "a case is one partially initialized machine stepped with and without strict mode; non-trivial = at least one step was accepted by strict mode while uninitialized state was present (pairs), or at least 5 steps ran (fully initialized machines)",
            assumptions: &["initialization states are those the public API can build (fully initialized, fully uninitialized, and what word operations make of them)"],
            suites: vec![
                suite("pairs", 40_000, 1_200_000, c14_pairs),
                suite("programs", 8_000, 250_000, c14_programs),
                suite("objects", 10_000, 300_000, c14_objects),
                suite("initialized", 25_000, 800_000, c14_init),
                exhaustive("jumps", 65536 / 64, c14_jumps),
            ],
        },
        Property {
            id: "C15",
            rule: "a case is one operand pair (or expression) under many fillings of its uninitialized bits; non-trivial = some operand bit is uninitialized, or both operands are fully initialized (value check)",
            assumptions: &["partially initialized words are built as !(u & c) & (v | c) from a fully uninitialized u and initialized constants: any word obtainable through the public API is built from such words by the operations under test"],
            suites: vec![exhaustive("small", 2 * 81 * 81, c15_small), exhaustive("values", 65536 / 32, c15_values), suite("pairs", 500_000, 10_000_000, c15_pairs), suite("chains", 200_000, 5_000_000, c15_chains)],
        },
        Property {
            id: "C16",
            rule: "a case is one machine with arbitrary memory, registers, flags and devices, driven by a sequence of step and run calls; non-trivial = at least one instruction or interrupt was executed or a fault reported",
            assumptions: &["timer ranges are non-empty (the timer's constructor is not part of machine execution)", "the harness builds the crate with overflow checks and debug assertions on"],
            suites: vec![exhaustive("pc", 65536 / 64, c16_pc), suite("random", 120_000, 3_000_000, c16_random)],
        },
    ]
}

// ------------------------------------------------------------------ C09

fn user_addr(a: u16) -> bool {
    (USER..IO).contains(&a)
}
/// What the instruction at `pc` attempts in user mode that it must not, if anything: (error, accessed address, kind).
fn attempt(sim: &Simulator, pc: u16, r: &[u16; 8]) -> Option<(E, u16, &'static str)> {
    if !user_addr(pc) {
        return Some((E::Access, pc, "fetch"));
    }
    let m = |a: u16| sim.mem[a].get();
    let n = pc.wrapping_add(1);
    let at = |o: i16| n.wrapping_add(o as u16);
    let base = |b: u8, o: i16| r[b as usize].wrapping_add(o as u16);
    let first = |xs: &[(u16, &'static str)]| xs.iter().find(|x| !user_addr(x.0)).map(|x| (E::Access, x.0, x.1));
    match Ins::dec(m(pc)).ok()? {
        Ins::Rti => Some((E::Privilege, pc, "RTI")),
        Ins::Ld(_, o) => first(&[(at(o), "LD")]),
        Ins::St(_, o) => first(&[(at(o), "ST")]),
        Ins::Ldr(_, b, o) => first(&[(base(b, o), "LDR")]),
        Ins::Str(_, b, o) => first(&[(base(b, o), "STR")]),
        // (the second address is meaningful only when the first is readable)
        Ins::Ldi(_, o) => first(&[(at(o), "LDI pointer"), (if user_addr(at(o)) { m(at(o)) } else { USER }, "LDI")]),
        Ins::Sti(_, o) => first(&[(at(o), "STI pointer"), (if user_addr(at(o)) { m(at(o)) } else { USER }, "STI")]),
        _ => None,
    }
}
/// Where the current instruction stores, if it does.
fn store_target(sim: &Simulator) -> Option<u16> {
    let n = sim.pc.wrapping_add(1);
    match Ins::dec(sim.mem[sim.pc].get()).ok()? {
        Ins::St(_, o) => Some(n.wrapping_add(o as u16)),
        Ins::Sti(_, o) => Some(sim.mem[n.wrapping_add(o as u16)].get()),
        Ins::Str(_, b, o) => Some(sim.reg_file[reg(b)].get().wrapping_add(o as u16)),
        _ => None,
    }
}
struct Watch {
    log: Log,
    real: bool,
    /// whole-memory comparison around every violation
    full: bool,
}
enum Step {
    Plain,
    Violated(E, &'static str),
}
/// Steps a user-mode machine (no interrupt pending) and judges the step.
fn user_step(sim: &mut Simulator, w: &Watch) -> Result<Step, Fail> {
    let (pc, psr, r, mcr) = (sim.pc, sim.psr().get(), regs(sim), sim.mcr().load(Ordering::Relaxed));
    let att = attempt(sim, pc, &r);
    let word = sim.mem[pc].get();
    w.log.lock().unwrap().clear();
    let Some((e, a, kind)) = att else {
        let res = nopanic("step_in", || sim.step_in())?;
        let _ = res;
        // Traps and exceptions are entries into supervisor mode, made by the machine itself.
        let entry = match Ins::dec(word) {
            Ok(Ins::Trap(_)) => true,
            Ok(_) => false,
            Err(_) => w.real,
        };
        if !entry {
            for (a, s) in sim.observer.take_mem_accesses() {
                ensure!(user_addr(a) || !s.accessed(), "c09-access", "user step at {pc:04x} ({word:04x}) accessed {a:04x} ({s:?})");
            }
            let touched = touched(&w.log);
            ensure!(touched.is_empty(), "c09-device", "user step at {pc:04x} ({word:04x}) reached devices: {touched:x?}");
        }
        return Ok(Step::Plain);
    };
    let ssp = get_ssp(sim);
    let slots = [ssp.wrapping_sub(1), ssp.wrapping_sub(2)];
    let weird = w.real && slots.iter().any(|&s| s >= IO || (0x100..=0x102).contains(&s));
    let vector = sim.mem[if e == E::Privilege { 0x100 } else { 0x102 }].get();
    let target = sim.mem[a].get();
    let snap: Option<Vec<u16>> = w.full.then(|| (0..=0xFFFFu16).map(|x| sim.mem[x].get()).collect());
    let res = nopanic("step_in", || sim.step_in())?;
    let what = format!("{kind} at {pc:04x} ({word:04x}) aimed at {a:04x}");
    if weird {
        return Ok(Step::Plain);
    }
    let r2 = regs(sim);
    if w.real {
        ensure!(res.is_ok(), "c09-report", "{what} under real traps failed with {res:?} instead of entering the OS handler");
        ensure!(sim.psr().privileged() && sim.pc == vector, "c09-report", "{what} under real traps: pc {:04x} psr {:04x}, expected the {e:?} handler at {vector:04x}", sim.pc, sim.psr().get());
        for i in [0usize, 1, 2, 3, 4, 5, 7] {
            ensure!(r2[i] == r[i], "c09-state", "{what} changed R{i} from {:04x} to {:04x}", r[i], r2[i]);
        }
        ensure!(r2[6] == slots[1], "c09-state", "{what}: R6 in the handler is {:04x}, expected {:04x}", r2[6], slots[1]);
    } else {
        let ok = matches!((&res, e), (Err(SimErr::AccessViolation), E::Access) | (Err(SimErr::PrivilegeViolation), E::Privilege));
        ensure!(ok, "c09-report", "{what}: expected {e:?} violation, got {res:?}");
        ensure!(r2 == r, "c09-state", "{what} changed registers from {r:x?} to {r2:x?}");
        ensure!(sim.psr().get() == psr, "c09-state", "{what} changed the PSR from {psr:04x} to {:04x}", sim.psr().get());
        let s2 = get_ssp(sim);
        ensure!(s2 == ssp, "c09-state", "{what} changed the saved SP from {ssp:04x} to {s2:04x}");
    }
    ensure!(sim.mcr().load(Ordering::Relaxed) == mcr, "c09-state", "{what} changed the MCR");
    let touched = touched(&w.log);
    ensure!(touched.is_empty(), "c09-device", "{what} reached devices: {touched:x?}");
    let stack = |x: u16| w.real && slots.contains(&x);
    ensure!(stack(a) || sim.mem[a].get() == target, "c09-memory", "{what} changed it from {target:04x} to {:04x}", sim.mem[a].get());
    if let Some(s) = snap {
        for x in 0..=0xFFFFu16 {
            ensure!(stack(x) || sim.mem[x].get() == s[x as usize], "c09-memory", "{what} changed {x:04x} from {:04x} to {:04x}", s[x as usize], sim.mem[x].get());
        }
    }
    Ok(Step::Violated(e, kind))
}
fn touched(log: &Log) -> Vec<(u32, Io)> {
    log.lock().unwrap().iter().copied().filter(|x| !matches!(x.1, Io::Read(_, false))).collect()
}
struct Aim {
    sim: Simulator,
    watch: Watch,
    base: Vec<u16>,
    ssp: u16,
    psr: u16,
}
impl Aim {
    fn new(seed: u64, real: bool, strict: bool, debug: bool, full: bool) -> Aim {
        let mut st = Setup::basic(real);
        st.pat = (seed % 20) as usize;
        st.saved_sp = 0x2F00;
        st.kb = None;
        st.disp = false;
        // handlers for the exceptions at arbitrary distinct places
        st.pokes = vec![(0x100, 0x0480), (0x101, 0x0490), (0x102, 0x04A0)];
        let mut rg = Rig::new(&st, debug);
        rg.sim.flags.strict = strict;
        let log = record_all(&mut rg.sim);
        let _ = rg.sim.mmap_internal(0xFE20, InternalRegister::PC);
        let _ = rg.sim.mmap_internal(0xFE22, InternalRegister::SavedSP);
        let base = (0..=0xFFFFu16).map(|a| rg.sim.mem[a].get()).collect();
        let psr = 0x8000 | (seed as u16 & 7) << 8 | 2;
        Aim { sim: rg.sim, watch: Watch { log, real, full }, base, ssp: 0x2F00, psr }
    }
    /// Puts registers, PC, mode and the given words in place; everything else is as at the start.
    fn arm(&mut self, pc: u16, r: [u16; 8], pokes: &[(u16, u16)]) {
        let sim = &mut self.sim;
        if sim.psr().get() != self.psr {
            set_psr(sim, self.psr);
            set_ireg(sim, InternalRegister::SavedSP, self.ssp);
        }
        for a in [PSR_PORT, 0xFE77, self.ssp - 1, self.ssp - 2] {
            sim.mem[a] = Word::new_init(self.base[a as usize]);
        }
        for i in 0..8u8 {
            sim.reg_file[reg(i)] = Word::new_init(r[i as usize]);
        }
        sim.pc = pc;
        for &(a, v) in pokes {
            sim.mem[a] = Word::new_init(v);
        }
    }
    fn disarm(&mut self, pokes: &[(u16, u16)], wrote: &[u16]) {
        for a in pokes.iter().map(|x| x.0).chain(wrote.iter().copied().filter(|&a| user_addr(a))) {
            self.sim.mem[a] = Word::new_init(self.base[a as usize]);
        }
    }
    fn check_base(&mut self) -> Res {
        self.arm(0x3000, [0; 8], &[]);
        for a in 0..=0xFFFFu16 {
            let v = self.sim.mem[a].get();
            ensure!(v == self.base[a as usize], "c09-memory", "at the end {a:04x} is {v:04x}, was {:04x}", self.base[a as usize]);
        }
        let s = get_ssp(&mut self.sim);
        ensure!(s == self.ssp, "c09-state", "at the end the saved SP is {s:04x}");
        Ok(())
    }
    /// One aimed access: arms, steps (twice for control transfers), judges, restores. Returns whether it violated.
    fn shoot(&mut self, mode: u64, a: u16, src: &mut Src) -> Result<Option<(E, &'static str)>, Fail> {
        let mut r: [u16; 8] = std::array::from_fn(|_| src.u16());
        let (d, b) = (src.below(8) as u8, src.below(8) as u8);
        let mut pc = 0x4000 + src.below(0x8000) as u16;
        // a place from which `a` is within a PC-relative offset of n bits
        let near = |src: &mut Src, n: u32| -> Option<(u16, i16)> {
            let h = 1i32 << (n - 1);
            let o = match src.below(4) {
                0 => -h,
                1 => h - 1,
                _ => src.range(-h as i64, h as i64 - 1) as i32,
            };
            let mut pc = a as i32 - o - 1;
            let mut o = o;
            if !(USER as i32..IO as i32).contains(&pc) {
                pc = pc.clamp(USER as i32, IO as i32 - 1);
                o = a as i32 - pc - 1;
            }
            (-h..h).contains(&o).then_some((pc as u16, o as i16))
        };
        let mut pokes = vec![];
        let mut steps = 1;
        match mode {
            0 => {
                pc = a;
                if user_addr(a) {
                    pokes.push((a, Ins::AddI(d, b, 1).enc()));
                }
            }
            1 | 2 => {
                r[b as usize] = a;
                steps = 2;
                pokes.push((pc, if mode == 1 { Ins::Jmp(b).enc() } else { Ins::Jsrr(b).enc() }));
                if user_addr(a) && a != pc {
                    pokes.push((a, 0));
                }
            }
            3 | 4 => {
                let o = src.range(-32, 31) as i16;
                r[b as usize] = a.wrapping_sub(o as u16);
                pokes.push((pc, if mode == 3 { Ins::Ldr(d, b, o).enc() } else { Ins::Str(d, b, o).enc() }));
            }
            5 | 6 => {
                let o = src.range(1, 255) as i16;
                pokes.push((pc.wrapping_add(1).wrapping_add(o as u16), a));
                pokes.push((pc, if mode == 5 { Ins::Ldi(d, o).enc() } else { Ins::Sti(d, o).enc() }));
            }
            7..=10 => {
                let Some((p, o)) = near(src, 9) else { return Ok(None) };
                pc = p;
                pokes.push((pc, match mode {
                    7 => Ins::Ld(d, o).enc(),
                    8 => Ins::St(d, o).enc(),
                    9 => Ins::Ldi(d, o).enc(),
                    _ => Ins::Sti(d, o).enc(),
                }));
                if mode >= 9 && user_addr(a) && a != pc {
                    // a pointer elsewhere in user memory
                    pokes.push((a, 0x5000 ^ (a & 0xFFF)));
                }
            }
            11 | 12 => {
                let Some((p, o)) = near(src, if mode == 11 { 9 } else { 11 }) else { return Ok(None) };
                pc = p;
                steps = 2;
                pokes.push((pc, if mode == 11 { Ins::Br(7, o).enc() } else { Ins::Jsr(o).enc() }));
                if user_addr(a) && a != pc {
                    pokes.push((a, 0));
                }
            }
            13 => {
                // fall-through
                pc = a.wrapping_sub(1);
                if !user_addr(pc) {
                    return Ok(None);
                }
                steps = 2;
                pokes.push((pc, Ins::AddI(d, b, 1).enc()));
                if user_addr(a) {
                    pokes.push((a, 0));
                }
            }
            _ => {
                pc = a;
                if !user_addr(a) {
                    return Ok(None);
                }
                pokes.push((a, 0x8000));
            }
        }
        self.arm(pc, r, &pokes);
        let mut out = None;
        let mut wrote = vec![];
        for k in 0..steps {
            if self.sim.psr().privileged() {
                break;
            }
            wrote.extend(store_target(&self.sim));
            if let Step::Violated(e, kind) = user_step(&mut self.sim, &self.watch).map_err(|f| Fail { msg: format!("[mode {mode}, step {k}] {}", f.msg), ..f })? {
                out = Some((e, kind));
            }
        }
        // words the step may legitimately have written
        wrote.extend(pokes.iter().map(|x| x.0));
        self.disarm(&pokes, &wrote);
        Ok(out)
    }
}
const MODES: u64 = 15;
/// Every address of a page, with every addressing mode.
fn c09_aim(src: &mut Src, ctx: &mut Ctx) -> Res {
    let c = src.below(256 * 8);
    let (page, conf) = (c / 8, c % 8);
    let (real, strict, debug) = (conf & 1 == 1, conf & 2 == 2, conf & 4 == 4);
    let mut rnd = Src::random(mix(&[0xC09, c]));
    ctx.key(&c);
    ctx.describe(|| format!("every addressing mode at every address of page {page:02x}xx, real={real} strict={strict} debug_frames={debug}"));
    let mut aim = Aim::new(c, real, strict, debug, false);
    for lo in 0..256u16 {
        let a = (page as u16) << 8 | lo;
        for mode in 0..MODES {
            let v = aim.shoot(mode, a, &mut rnd)?;
            ctx.evals += 1;
            if let Some((_, kind)) = v {
                ctx.nontrivial();
                ctx.class(kind);
            }
        }
    }
    aim.check_base()
}
const BOUND: [u16; 28] = [
    0, 1, 2, 0x0025, 0x0100, 0x0102, 0x0180, 0x0200, 0x2EFF, 0x2FFE, 0x2FFF, 0x3000, 0x3001, 0x8000, 0xFDFE, 0xFDFF, 0xFE00, 0xFE02, 0xFE04, 0xFE06, 0xFE07, 0xFE20, 0xFE22, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x7FFF,
];
const BOUND_N: u64 = 28 * MODES * 8;
/// Boundary addresses, with whole-memory comparison around every step.
fn c09_boundary(src: &mut Src, ctx: &mut Ctx) -> Res {
    let c = src.below(BOUND_N);
    let conf = c % 8;
    let mode = c / 8 % MODES;
    let a = BOUND[(c / 8 / MODES) as usize];
    let (real, strict, debug) = (conf & 1 == 1, conf & 2 == 2, conf & 4 == 4);
    let mut rnd = Src::random(mix(&[0xB09, c]));
    ctx.key(&c);
    ctx.describe(|| format!("addressing mode {mode} at {a:04x}, real={real} strict={strict} debug_frames={debug}"));
    let mut aim = Aim::new(c, real, strict, debug, true);
    for _ in 0..6 {
        ctx.evals += 1;
        if let Some((_, kind)) = aim.shoot(mode, a, &mut rnd)? {
            ctx.nontrivial();
            ctx.class(kind);
        }
    }
    aim.check_base()
}
/// Random adversarial programs with interrupts in between.
fn c09_random(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut st = gen_setup(src, false);
    st.ignore_priv = false;
    st.psr |= 0x8000;
    st.kb = None;
    st.disp = false;
    st.ndev = src.usize(2);
    if src.chance(3, 4) {
        st.saved_sp = 0x3000 - src.below(0x40) as u16;
    }
    if !user_addr(st.pc) && src.chance(3, 4) {
        st.pc = 0x3000;
    }
    let (strict, debug) = (src.bool(), src.bool());
    // (a strict machine may stop over uninitialized words for reasons of its own)
    if strict {
        st.uninit = 0;
    }
    ctx.describe(|| format!("strict={strict} debug={debug} {}", st.show()));
    ctx.key(&format!("{st:?}"));
    let mut rg = Rig::new(&st, debug);
    rg.sim.flags.strict = strict;
    let log = record_all(&mut rg.sim);
    let watch = Watch { log, real: st.real_traps, full: src.chance(1, 4) };
    let n = src.range(1, 60);
    for _ in 0..n {
        let pend = gen_pend(src, st.ndev);
        let top = pend.iter().flatten().map(|x| x.1).max();
        let taken = top.is_some_and(|t| t > rg.sim.psr().priority());
        *rg.pend.lock().unwrap() = pend;
        ctx.evals += 1;
        if taken || rg.sim.psr().privileged() {
            let sim = &mut rg.sim;
            if nopanic("step_in", || sim.step_in())?.is_err() {
                break;
            }
            continue;
        }
        if let Step::Violated(_, kind) = user_step(&mut rg.sim, &watch)? {
            ctx.nontrivial();
            ctx.class(kind);
            // somewhere else in user memory
            if !st.real_traps {
                rg.sim.pc = st.pc.wrapping_add(src.below(16) as u16);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C14

/// A word with value `v` whose bits in `m` are initialized (m = all: a plain initialized word).
pub fn masked(v: u16, m: u16) -> Word {
    if m == 0xFFFF {
        return Word::new_init(v);
    }
    let c = !m;
    if c == 0xFFFF {
        return Word::new_uninit(&mut { v });
    }
    !(Word::new_uninit(&mut { !v }) & Word::new_init(c)) & Word::new_init(v | c)
}
fn is_strict(e: &SimErr) -> bool {
    matches!(
        e,
        SimErr::StrictRegSetUninit
            | SimErr::StrictMemSetUninit
            | SimErr::StrictIOSetUninit
            | SimErr::StrictJmpAddrUninit
            | SimErr::StrictSRAddrUninit
            | SimErr::StrictMemAddrUninit
            | SimErr::StrictPCCurrUninit
            | SimErr::StrictPCNextUninit
            | SimErr::StrictPSRSetUninit
    )
}
fn kind_of(e: &SimErr) -> String {
    match e {
        SimErr::Interrupt(_) => "Interrupt".into(),
        e => format!("{e:?}"),
    }
}
/// Architectural state of both machines, apart from memory.
fn same_arch(a: &mut Simulator, b: &mut Simulator, at: &str) -> Res {
    for i in 0..8u8 {
        let (x, y) = (a.reg_file[reg(i)], b.reg_file[reg(i)]);
        ensure!(x == y, "c14-regs", "R{i} {at}: strict {x:?}, otherwise {y:?}");
    }
    ensure!(a.pc == b.pc, "c14-pc", "PC {at}: strict {:04x}, otherwise {:04x}", a.pc, b.pc);
    ensure!(a.psr().get() == b.psr().get(), "c14-psr", "PSR {at}: strict {:04x}, otherwise {:04x}", a.psr().get(), b.psr().get());
    let (x, y) = (a.mcr().load(Ordering::Relaxed), b.mcr().load(Ordering::Relaxed));
    ensure!(x == y, "c14-mcr", "MCR {at}: strict {x}, otherwise {y}");
    ensure!(a.instructions_run == b.instructions_run, "c14-count", "instruction count {at}: strict {}, otherwise {}", a.instructions_run, b.instructions_run);
    ensure!(a.prefetch_pc() == b.prefetch_pc(), "c14-prefetch", "prefetch PC {at}: strict {:04x}, otherwise {:04x}", a.prefetch_pc(), b.prefetch_pc());
    ensure!(a.frame_stack.len() == b.frame_stack.len(), "c14-frames", "frame depth {at}: strict {}, otherwise {}", a.frame_stack.len(), b.frame_stack.len());
    if let (Some(f), Some(g)) = (a.frame_stack.frames(), b.frame_stack.frames()) {
        let ok = f.len() == g.len() && f.iter().zip(g).rev().take(2).all(|(x, y)| x.caller_addr == y.caller_addr && x.callee_addr == y.callee_addr && x.arguments == y.arguments && x.frame_type == y.frame_type && x.frame_ptr == y.frame_ptr);
        ensure!(ok, "c14-frames", "frames {at}: strict {f:?}, otherwise {g:?}");
    }
    Ok(())
}
fn same_memory(a: &Simulator, b: &Simulator, at: &str) -> Res {
    for x in 0..=0xFFFFu16 {
        ensure!(a.mem[x] == b.mem[x], "c14-memory", "mem[{x:04x}] {at}: strict {:?}, otherwise {:?}", a.mem[x], b.mem[x]);
    }
    Ok(())
}
/// Steps both machines; `strict_now` decides whether the first is strict for this step. Returns whether to go on.
fn pair_step(a: &mut Rig, b: &mut Rig, logs: &(Log, Log), strict_now: bool) -> Result<bool, Fail> {
    let pc = a.sim.pc;
    let ins = a.sim.mem[pc];
    a.sim.flags.strict = strict_now;
    logs.0.lock().unwrap().clear();
    logs.1.lock().unwrap().clear();
    let (sa, sb) = (&mut a.sim, &mut b.sim);
    let ra = nopanic("strict step", || sa.step_in())?;
    let rb = nopanic("step", || sb.step_in())?;
    let at = format!("after the step at {pc:04x} ({ins:x?})");
    match (&ra, &rb) {
        (Err(e), _) if is_strict(e) => {
            ensure!(strict_now, "c14-spurious", "{at}: {e:?} without strict mode");
            return Ok(false);
        }
        (_, Err(e)) if is_strict(e) => return fail("c14-spurious", format!("{at}: {e:?} without strict mode")),
        (Ok(()), Ok(())) => {}
        (Err(x), Err(y)) if kind_of(x) == kind_of(y) => {}
        (Err(x), Ok(())) => return fail("c14-error", format!("{at}: fails only under strict mode, with {x:?}")),
        _ => return fail("c14-error", format!("{at}: strict {ra:?}, otherwise {rb:?}")),
    }
    let touched_mem: Vec<u16> = sa.observer.take_mem_accesses().chain(sb.observer.take_mem_accesses()).map(|x| x.0).collect();
    for x in touched_mem {
        ensure!(sa.mem[x] == sb.mem[x], "c14-memory", "mem[{x:04x}] {at}: strict {:?}, otherwise {:?}", sa.mem[x], sb.mem[x]);
    }
    same_arch(sa, sb, &at)?;
    let (la, lb) = (touched(&logs.0), touched(&logs.1));
    ensure!(la == lb, "c14-device", "device accesses {at}: strict {la:x?}, otherwise {lb:x?}");
    {
        let (x, y) = (a.kbuf.read().unwrap(), b.kbuf.read().unwrap());
        ensure!(*x == *y, "c14-device", "keyboard queue {at}: strict {x:?}, otherwise {y:?}");
        let (x, y) = (a.dbuf.read().unwrap(), b.dbuf.read().unwrap());
        ensure!(*x == *y, "c14-device", "display {at}: strict {x:?}, otherwise {y:?}");
    }
    Ok(ra.is_ok())
}
const REC_PORTS: [u16; 6] = [0xFE30, 0xFE31, 0xFE3F, 0xFEFE, 0xFFF8, 0xFF00];
/// A recording device on a few ports of a rig that keeps its keyboard and display.
fn add_recorder(rg: &mut Rig) -> Log {
    let log: Log = Default::default();
    let ports: Vec<u16> = REC_PORTS.to_vec();
    let _ = rg.sim.device_handler.add_device(Recorder { tag: 9, log: log.clone(), answers: true }, &ports);
    log
}
static HOLES: LazyLock<Vec<Vec<u64>>> = LazyLock::new(|| (0..16u64).map(|i| (0..65536).map(|x| mix(&[0x401E, i, x])).collect()).collect());
/// Takes initialization away from a machine. `den` = one in den words (0: none); blocks: whole 16-word blocks.
fn deinit(rg: &mut Rig, seed: u64, den: u64, regs_den: u64, keep: &dyn Fn(u16) -> bool) -> bool {
    let mut any = false;
    let table = &HOLES[(seed % HOLES.len() as u64) as usize];
    for x in 0..=0xFFFFu16 {
        if den == 0 {
            break;
        }
        // (den is a power of two)
        let h = table[x as usize];
        let hb = table[(x >> 4) as usize] >> 20;
        if (h & (den - 1) == 0 || hb & (den * 2 - 1) == 0) && !keep(x) {
            let v = rg.sim.mem[x].get();
            let m = if h >> 32 & 3 == 0 { (h >> 40) as u16 } else { 0 };
            rg.sim.mem[x] = masked(v, m);
            any = true;
        }
    }
    for i in 0..8u8 {
        let h = mix(&[seed, 0x4E6, i as u64]);
        if regs_den > 0 && h % regs_den == 0 {
            let v = rg.sim.reg_file[reg(i)].get();
            let m = if h >> 32 & 1 == 0 { (h >> 40) as u16 } else { 0 };
            rg.sim.reg_file[reg(i)] = masked(v, m);
            any = true;
        }
    }
    any
}
fn c14_pairs(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut st = gen_setup(src, false);
    st.uninit = 0;
    let debug = src.bool();
    let (seed, den, rden) = (src.below(1 << 32), *src.pick(&[0u64, 64, 16, 8, 4]), *src.pick(&[0u64, 8, 4, 2]));
    let toggle = src.chance(1, 4);
    let keep_code = src.chance(3, 4);
    ctx.describe(|| format!("debug={debug} deinit seed={seed} den={den} regs={rden} toggle={toggle} keep_code={keep_code} {}", st.show()));
    ctx.key(&format!("{st:?}{seed}{den}{rden}"));
    let mut a = Rig::new(&st, debug);
    let mut b = Rig::new(&st, debug);
    let code: std::collections::HashSet<u16> = st.pokes.iter().map(|x| x.0).collect();
    let keep = |x: u16| keep_code && (code.contains(&x) || x >> 5 == st.pc >> 5);
    let any = deinit(&mut a, seed, den, rden, &keep);
    deinit(&mut b, seed, den, rden, &keep);
    let logs = (add_recorder(&mut a), add_recorder(&mut b));
    let n = src.range(1, 50);
    let mut ok = 0;
    for k in 0..n {
        let pend = gen_pend(src, st.ndev);
        *a.pend.lock().unwrap() = pend.clone();
        *b.pend.lock().unwrap() = pend;
        if src.chance(1, 16) {
            let c = src.below(256) as u8;
            a.kbuf.write().unwrap().push_back(c);
            b.kbuf.write().unwrap().push_back(c);
        }
        let strict_now = !toggle || mix(&[seed, 0x706, k as u64]) % 3 != 0;
        ctx.evals += 1;
        if !pair_step(&mut a, &mut b, &logs, strict_now)? {
            ctx.class(if ok == 0 { "first step rejected" } else { "ended by an error" });
            break;
        }
        ok += 1;
    }
    ctx.nontrivial_if(ok > 0 && any);
    ctx.class_n(ok, "accepted steps");
    if ok == n as u64 {
        ctx.class("ran to the end");
        same_memory(&a.sim, &b.sim, "at the end")?;
    }
    Ok(())
}
/// Realistic programs: OS as loaded, everything the program does not define uninitialized.
fn c14_programs(src: &mut Src, ctx: &mut Ctx) -> Res {
    use crate::progs::*;
    let (input, real, debug) = (src.bool(), src.bool(), src.bool());
    let faults = src.chance(1, 3);
    let p = gen_prog(src, POpts { input, output: true, faults, size: 7 });
    let st = p.setup(real);
    let seed = src.below(1 << 32);
    let rden = *src.pick(&[0u64, 8, 2, 1]);
    let hole = if src.bool() { Some(p.base + src.below(p.words.len() as u64) as u16) } else { None };
    ctx.describe(|| format!("debug={debug} seed={seed} regs={rden} hole={hole:x?} real={real} {}", p.show()));
    ctx.key(&format!("{p:?}{seed}{rden}{hole:?}"));
    let mut a = Rig::new(&st, debug);
    let mut b = Rig::new(&st, debug);
    let fresh = Simulator::new(flags(real, false, false, false));
    let init = |x: u16| (x < USER || x >= IO) && fresh.mem[x].is_init() || (p.base..p.base + p.words.len() as u16).contains(&x) && Some(x) != hole;
    for rg in [&mut a, &mut b] {
        for x in 0..=0xFFFFu16 {
            if !init(x) {
                rg.sim.mem[x].clear_init();
            }
        }
        deinit(rg, seed, 0, rden, &|_| true);
        if rden == 1 {
            // the stack pointer itself must be usable
            rg.sim.reg_file[reg(6)].set(st.r[6]);
        }
    }
    let logs = (add_recorder(&mut a), add_recorder(&mut b));
    let mut ok = 0u64;
    for _ in 0..6000 {
        let cnt = a.sim.instructions_run;
        let pc = a.sim.pc;
        ctx.evals += 1;
        if !pair_step(&mut a, &mut b, &logs, true)? {
            ctx.class("ended by an error");
            break;
        }
        ok += 1;
        if a.sim.instructions_run == cnt && a.sim.pc == pc || real && !a.sim.mcr().load(Ordering::Relaxed) && a.sim.psr().privileged() && ok > 20 && a.sim.instructions_run % 64 == 0 {
            ctx.class("ended");
            break;
        }
    }
    ctx.nontrivial_if(ok > 0);
    ctx.class_n(ok, "accepted steps");
    Ok(())
}
/// Machines that loaded an object file with .blkw regions (whose accesses strict mode treats specially).
fn c14_objects(src: &mut Src, ctx: &mut Ctx) -> Res {
    let real = src.bool();
    let debug = src.bool();
    let value = src.u16();
    let mut text = String::new();
    let nb = src.range(1, 3);
    let mut at = 0x3000u32 + src.below(0x40) as u32;
    let mut starts = vec![];
    let mut here = 0u32;
    for k in 0..nb {
        if k > 0 {
            at = here + src.below(3) as u32 + if src.chance(1, 8) { 0x8000 } else { 0 };
        }
        if at > 0xFC00 {
            break;
        }
        starts.push(at as u16);
        text += &format!(".orig x{at:04X}\n");
        here = at;
        let n = src.range(2, 24) as u16;
        let code = gen_code(src, at as u16, n, 4, false);
        for (_, w) in code {
            if src.chance(1, 6) {
                let m = src.range(1, 4);
                text += &format!(".blkw {m}\n");
                here += m as u32;
            }
            text += &format!(".fill x{w:04X}\n");
            here += 1;
        }
        if src.bool() {
            let m = src.range(1, 12);
            text += &format!(".blkw {m}\n");
            here += m as u32;
        }
        text += ".end\n";
    }
    let st = {
        let mut s = Setup::basic(real);
        s.pc = *src.pick(&starts);
        for i in 0..8 {
            s.r[i] = if src.bool() { starts[0].wrapping_add(src.below(64) as u16) } else { word_of(src) };
        }
        if src.chance(1, 4) {
            s.psr = 2;
        }
        s.kb = Some(vec![7, 8]);
        s
    };
    let seed = src.below(1 << 32);
    let rden = *src.pick(&[0u64, 8, 4, 2]);
    ctx.describe(|| format!("real={real} debug={debug} known value {value:04x} regs={rden} seed={seed} pc={:04x} r={:x?} psr={:04x}\n{text}", st.pc, st.r, st.psr));
    ctx.key(&format!("{text}{seed}{rden}"));
    let ast = lc3_ensemble::parse::parse_ast(&text).map_err(|e| Fail { sig: "c14-harness".into(), msg: format!("{e:?}") })?;
    let Ok(obj) = lc3_ensemble::asm::assemble(ast) else { return Ok(()) };
    let mk = || -> Result<Rig, Fail> {
        let mut rg = Rig::new(&st, debug);
        for x in 0..=0xFFFFu16 {
            let keep = !(USER..IO).contains(&x);
            if !keep {
                rg.sim.mem[x] = Word::new_uninit(&mut { value });
            }
        }
        if let Err(e) = rg.sim.load_obj_file(&obj) {
            return fail("c14-harness", format!("{e:?}"));
        }
        deinit(&mut rg, seed, 0, rden, &|_| true);
        Ok(rg)
    };
    let (mut a, mut b) = (mk()?, mk()?);
    let logs = (add_recorder(&mut a), add_recorder(&mut b));
    let n = src.range(1, 60);
    let mut ok = 0;
    for _ in 0..n {
        ctx.evals += 1;
        if !pair_step(&mut a, &mut b, &logs, true)? {
            ctx.class("ended by an error");
            break;
        }
        ok += 1;
    }
    ctx.nontrivial_if(ok > 0);
    ctx.class_n(ok, "accepted steps");
    if ok == n as u64 {
        same_memory(&a.sim, &b.sim, "at the end")?;
    }
    Ok(())
}
/// Fully initialized machines never report a strict error.
fn c14_init(src: &mut Src, ctx: &mut Ctx) -> Res {
    let calls = src.bool();
    let mut st = gen_setup(src, calls);
    st.uninit = 0;
    let debug = src.bool();
    ctx.describe(|| format!("fully initialized, debug={debug} {}", st.show()));
    ctx.key(&format!("{st:?}"));
    let mut a = Rig::new(&st, debug);
    let log = add_recorder(&mut a);
    a.sim.flags.strict = true;
    let n = src.range(5, 120);
    let mut ran = 0;
    for _ in 0..n {
        let pend = gen_pend(src, st.ndev);
        *a.pend.lock().unwrap() = pend;
        log.lock().unwrap().clear();
        let pc = a.sim.pc;
        let w = a.sim.mem[pc].get();
        let sim = &mut a.sim;
        ctx.evals += 1;
        match nopanic("step", || sim.step_in())? {
            Ok(()) => ran += 1,
            Err(e) => {
                ensure!(!is_strict(&e), "c14-initialized", "step at {pc:04x} ({w:04x}) of a fully initialized machine reports {e:?}");
                break;
            }
        }
    }
    ctx.nontrivial_if(ran >= 5);
    Ok(())
}
/// Jumps to every address (OS memory, I/O page, user memory) from an otherwise initialized machine, user and supervisor mode.
fn c14_jumps(src: &mut Src, ctx: &mut Ctx) -> Res {
    let c = src.below(65536 / 64);
    let mut rnd = Src::random(mix(&[0xC14, c]));
    let real = c & 1 == 1;
    let mut st = Setup::basic(real);
    st.kb = Some(vec![]);
    st.r[6] = 0x2000;
    let mut a = Rig::new(&st, false);
    let mut b = Rig::new(&st, false);
    let logs = (record_all(&mut a.sim), record_all(&mut b.sim));
    for rg in [&mut a, &mut b] {
        for x in 0..=0xFFFFu16 {
            if mix(&[0x14, c, x as u64]) % 4 == 0 && x != 0x3000 && x != 0x3001 {
                rg.sim.mem[x].clear_init();
            }
        }
    }
    ctx.describe(|| format!("jumps to {:04x}..{:04x}", c * 64, c * 64 + 63));
    ctx.key(&c);
    ctx.nontrivial();
    for t in 0..64u16 {
        let tgt = (c * 64) as u16 + t;
        for psr in [0x8002u16, 0x0002] {
            let kind = rnd.below(7);
            let o = rnd.range(-16, 15) as i16;
            let word = match kind {
                0 => Ins::Jmp(3).enc(),
                1 => Ins::Jmp(7).enc(),
                2 => Ins::Jsrr(3).enc(),
                3 => Ins::Ldr(2, 3, 0).enc(),
                4 => Ins::Str(2, 3, o).enc(),
                5 => Ins::Ldr(2, 6, 0).enc(),
                _ => Ins::Rti.enc(),
            };
            for rg in [&mut a, &mut b] {
                let sim = &mut rg.sim;
                set_psr(sim, psr);
                set_ireg(sim, InternalRegister::SavedSP, 0x2F00);
                sim.mem[0x3000] = Word::new_init(word);
                for i in 0..8u8 {
                    sim.reg_file[reg(i)] = Word::new_init(0x1800 + i as u16);
                }
                for i in [3u8, 7] {
                    sim.reg_file[reg(i)] = Word::new_init(tgt);
                }
                if kind == 5 {
                    sim.reg_file[reg(6)] = Word::new_init(tgt);
                }
                if kind == 6 {
                    sim.mem[0x1806] = Word::new_init(tgt);
                    sim.mem[0x1807] = Word::new_init(0x8001);
                }
                sim.pc = 0x3000;
            }
            ctx.evals += 1;
            if !pair_step(&mut a, &mut b, &logs, true)? {
                ctx.class("rejected or failed");
                // bring memory back in line (the rejected store was made by the other machine)
                for x in [tgt.wrapping_add(o as u16), tgt, 0x2EFE, 0x2EFF] {
                    b.sim.mem[x] = a.sim.mem[x];
                }
                b.sim.instructions_run = a.sim.instructions_run;
                let m = a.sim.mcr().load(Ordering::Relaxed);
                b.sim.mcr().store(m, Ordering::Relaxed);
                a.sim.frame_stack = Default::default();
                b.sim.frame_stack = Default::default();
                continue;
            }
            ctx.class("accepted");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C15

const OPS: [&str; 12] = ["+", "-", "&", "!", "+=", "-=", "&=", "+=u16", "-=u16", "+=i16", "-=i16", "!!"];
/// Applies operation k. For the u16/i16 forms the right operand is the initialized constant `k16`.
fn apply(k: usize, a: Word, b: Word, k16: u16) -> Word {
    let mut x = a;
    match k {
        0 => a + b,
        1 => a - b,
        2 => a & b,
        3 => !a,
        4 => {
            x += b;
            x
        }
        5 => {
            x -= b;
            x
        }
        6 => {
            x &= b;
            x
        }
        7 => {
            x += k16;
            x
        }
        8 => {
            x -= k16;
            x
        }
        9 => {
            x += k16 as i16;
            x
        }
        10 => {
            x -= k16 as i16;
            x
        }
        _ => !!a,
    }
}
fn exact(k: usize, a: u16, b: u16, k16: u16) -> u16 {
    match k {
        0 | 4 => a.wrapping_add(b),
        1 | 5 => a.wrapping_sub(b),
        2 | 6 => a & b,
        3 => !a,
        7 | 9 => a.wrapping_add(k16),
        8 | 10 => a.wrapping_sub(k16),
        _ => a,
    }
}
/// Which bits of a word are reported initialized: bit i of `w` is, iff `w` masked to bit i is fully initialized.
fn reported(w: Word) -> u16 {
    if w.is_init() {
        return 0xFFFF;
    }
    (0..16).filter(|i| (w & Word::new_init(1 << i)).is_init()).fold(0, |m, i| m | 1 << i)
}
/// Checks one operation over fillings of the uninitialized bits of both operands.
fn sound(k: usize, a: (u16, u16), b: (u16, u16), k16: u16, fills: &[(u16, u16)]) -> Result<u16, Fail> {
    let fill = |x: (u16, u16), f: u16| masked(x.0 & x.1 | f & !x.1, x.1);
    let (mut claim, mut vary, mut first) = (0u16, 0u16, None);
    for &(f, g) in fills {
        let r = apply(k, fill(a, f), fill(b, g), k16);
        claim |= reported(r);
        let v = *first.get_or_insert(r.get());
        vary |= v ^ r.get();
    }
    if claim & vary != 0 {
        let bit = (claim & vary).trailing_zeros();
        return fail("c15-unsound", format!("{}: bit {bit} is reported initialized but depends on uninitialized bits; left value {:04x} mask {:04x}, right value {:04x} mask {:04x}, constant {k16:04x}", OPS[k], a.0, a.1, b.0, b.1));
    }
    Ok(claim)
}
fn value_ok(k: usize, a: u16, b: u16) -> Res {
    let r = apply(k, Word::new_init(a), Word::new_init(b), b);
    let e = exact(k, a, b, b);
    ensure!(r.is_init(), "c15-init", "{a:04x} {} {b:04x} of initialized words is not initialized: {r:?}", OPS[k]);
    ensure!(r.get() == e, "c15-value", "{a:04x} {} {b:04x} is {:04x}, expected {e:04x}", OPS[k], r.get());
    Ok(())
}
/// All three-state (0, 1, uninitialized) 4-bit operand pairs, at the low end and at the top of the word; all fillings.
fn c15_small(src: &mut Src, ctx: &mut Ctx) -> Res {
    let c = src.below(2 * 81 * 81);
    let shift = if c % 2 == 0 { 0 } else { 12 };
    let (ta, tb) = (c / 2 % 81, c / 2 / 81);
    let tri = |mut t: u64| {
        let (mut v, mut m) = (0u16, 0u16);
        for i in 0..4 {
            match t % 3 {
                0 => m |= 1 << i,
                1 => {
                    m |= 1 << i;
                    v |= 1 << i
                }
                _ => {}
            }
            t /= 3;
        }
        (v << shift, m << shift)
    };
    let (a, b) = (tri(ta), tri(tb));
    ctx.key(&c);
    ctx.describe(|| format!("left {a:x?} right {b:x?} at bit {shift}"));
    // the other bits: initialized zeros, ones, or a mixture
    for other in [0u16, 0xFFFF, 0xA5A5] {
        let rest = !(0xFu16 << shift);
        let (x, y) = ((a.0 | other & rest, a.1 | rest), (b.0 | other.rotate_left(3) & rest, b.1 | rest));
        let (fa, fb) = (!x.1, !y.1);
        ctx.nontrivial_if(fa != 0 || fb != 0);
        let subs = |m: u16| -> Vec<u16> { (0..16u16).map(|f| (f << shift) & m).collect::<std::collections::BTreeSet<_>>().into_iter().collect() };
        let fills: Vec<(u16, u16)> = subs(fa).iter().flat_map(|&f| subs(fb).into_iter().map(move |g| (f, g))).collect();
        for k in 0..OPS.len() {
            let claim = sound(k, x, y, y.0, &fills)?;
            ctx.evals += fills.len() as u64;
            ctx.class_if(claim != 0 && claim != 0xFFFF, "partially initialized result");
        }
    }
    Ok(())
}
fn c15_values(src: &mut Src, ctx: &mut Ctx) -> Res {
    let c = src.below(65536 / 32);
    let mut rnd = Src::random(mix(&[0xC15, c]));
    ctx.key(&c);
    ctx.describe(|| format!("initialized operands, left {:04x}..{:04x}", c * 32, c * 32 + 31));
    ctx.nontrivial();
    for t in 0..32u16 {
        let a = (c * 32) as u16 + t;
        let mut bs: Vec<u16> = vec![0, 1, 0xFFFF, 0x8000, 0x7FFF, a, !a, a.wrapping_neg(), a.wrapping_add(1)];
        bs.extend((0..32).map(|_| rnd.u16()));
        for b in bs {
            for k in 0..OPS.len() {
                value_ok(k, a, b)?;
                value_ok(k, b, a)?;
                ctx.evals += 2;
            }
        }
    }
    Ok(())
}
fn gen_mask(src: &mut Src) -> u16 {
    match src.weighted(&[2, 2, 4, 3, 2, 2]) {
        0 => 0xFFFF,
        1 => 0,
        2 => src.u16(),
        3 => !(1 << src.below(16)),
        4 => 1 << src.below(16),
        _ => {
            let n = src.below(17) as u32;
            let m = ((1u32 << n) - 1) as u16;
            if src.bool() { m } else { !m }
        }
    }
}
fn gen_fills(src: &mut Src, n: usize) -> Vec<u16> {
    let s = src.below(1 << 32);
    let mut v = vec![0, 0xFFFF];
    for i in 0..n as u64 {
        let h = mix(&[s, i]);
        v.push(match h >> 40 & 3 {
            0 => 1 << (h & 15),
            1 => !(1 << (h & 15)),
            _ => h as u16,
        });
    }
    v
}
fn c15_pairs(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.usize(OPS.len());
    let a = (src.word(), gen_mask(src));
    let b = (src.word(), gen_mask(src));
    let k16 = src.word();
    let n = 24;
    let (fa, fb) = (gen_fills(src, n), gen_fills(src, n));
    let mut fills: Vec<(u16, u16)> = fa.iter().copied().zip(fb.iter().copied()).collect();
    // each operand varied alone
    fills.extend(fa.iter().map(|&f| (f, fb[3])));
    fills.extend(fb.iter().map(|&g| (fa[3], g)));
    ctx.describe(|| format!("{} left {a:x?} right {b:x?} constant {k16:04x}", OPS[k]));
    ctx.key(&(k, a, b, k16));
    ctx.class(OPS[k]);
    if a.1 == 0xFFFF && b.1 == 0xFFFF {
        ctx.nontrivial();
        ctx.evals += 1;
        let r = apply(k, Word::new_init(a.0), Word::new_init(b.0), k16);
        let e = exact(k, a.0, b.0, k16);
        ensure!(r.is_init(), "c15-init", "{:04x} {} {:04x} (constant {k16:04x}) of initialized words is not initialized: {r:?}", a.0, OPS[k], b.0);
        ensure!(r.get() == e, "c15-value", "{:04x} {} {:04x} (constant {k16:04x}) is {:04x}, expected {e:04x}", a.0, OPS[k], b.0, r.get());
        return Ok(());
    }
    ctx.nontrivial();
    let claim = sound(k, a, b, k16, &fills)?;
    ctx.evals += fills.len() as u64;
    ctx.class_if(claim != 0 && claim != 0xFFFF, "partially initialized result");
    ctx.class_if(claim == 0xFFFF, "result claimed fully initialized");
    Ok(())
}
/// Expressions over several words: whatever is reported initialized at the end may not depend on any filling.
fn c15_chains(src: &mut Src, ctx: &mut Ctx) -> Res {
    let leaves: Vec<(u16, u16)> = (0..4).map(|_| (src.word(), gen_mask(src))).collect();
    let n = src.range(1, 10);
    // (operation, left, right, destination, constant)
    let code: Vec<(usize, usize, usize, usize, u16)> = (0..n).map(|_| (src.usize(OPS.len()), src.usize(4), src.usize(4), src.usize(4), src.word())).collect();
    let sets: Vec<Vec<u16>> = (0..4).map(|_| gen_fills(src, 30)).collect();
    ctx.describe(|| format!("words {leaves:x?} code {:x?}", code.iter().map(|c| (OPS[c.0], c.1, c.2, c.3, c.4)).collect::<Vec<_>>()));
    ctx.key(&format!("{leaves:?}{code:?}"));
    ctx.nontrivial_if(leaves.iter().any(|l| l.1 != 0xFFFF));
    let run = |f: &dyn Fn(usize) -> u16| -> Vec<Word> {
        let mut w: Vec<Word> = leaves.iter().enumerate().map(|(i, l)| masked(l.0 & l.1 | f(i) & !l.1, l.1)).collect();
        for &(k, a, b, d, c) in &code {
            w[d] = apply(k, w[a], w[b], c);
        }
        w
    };
    let mut claim = [0u16; 4];
    let mut vary = [0u16; 4];
    let mut first: Option<Vec<Word>> = None;
    for t in 0..32 {
        let ws = run(&|i| sets[i][(t * (2 * i + 1)) % 32]);
        let f = first.get_or_insert_with(|| ws.clone());
        for i in 0..4 {
            claim[i] |= reported(ws[i]);
            vary[i] |= ws[i].get() ^ f[i].get();
        }
        ctx.evals += 1;
    }
    for i in 0..4 {
        ensure!(claim[i] & vary[i] == 0, "c15-unsound", "word {i}: bits {:04x} are reported initialized but depend on uninitialized bits", claim[i] & vary[i]);
        ctx.class_if(claim[i] != 0 && claim[i] != 0xFFFF, "partially initialized result");
    }
    Ok(())
}

// ------------------------------------------------------------------ C16

use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, ExternalDevice, Interrupt, InterruptFromFn, TimerDevice};
use lc3_ensemble::sim::frame::ParameterList;
use lc3_ensemble::sim::mem::MachineInitStrategy;
use lc3_ensemble::sim::SimFlags;
use std::sync::Arc;

/// Clears the MCR after a number of polls, so that unbounded calls (step_over, step_out, run) come back.
struct Fuse(u32, Arc<std::sync::atomic::AtomicBool>);
impl ExternalDevice for Fuse {
    fn io_read(&mut self, _: u16, _: bool) -> Option<u16> {
        None
    }
    fn io_write(&mut self, _: u16, _: u16) -> bool {
        false
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        if self.0 == 0 {
            self.1.store(false, Ordering::Relaxed);
        } else {
            self.0 -= 1;
        }
        None
    }
}
fn all_queries(sim: &mut Simulator) -> Res {
    nopanic("prefetch_pc", || sim.prefetch_pc())?;
    nopanic("queries", || {
        let _ = (sim.hit_halt(), sim.hit_breakpoint(), sim.frame_stack.len(), sim.psr().get(), sim.default_mem_ctx());
        format!("{:?}", sim.frame_stack.frames().map(|f| f.last().map(|x| format!("{x:?}"))))
    })?;
    Ok(())
}
const C16_IREGS: [u16; 10] = [0xFE00, 0xFE02, 0xFE04, 0xFE06, 0xFE07, 0xFE10, 0xFFFB, 0xFFFD, 0xFFFF, 0xFEFF];
fn c16_pc(src: &mut Src, ctx: &mut Ctx) -> Res {
    let c = src.below(65536 / 64);
    let mut rnd = Src::random(mix(&[0xC16, c]));
    ctx.key(&c);
    ctx.nontrivial();
    ctx.describe(|| format!("every instruction shape at every PC in {:04x}..{:04x}", c * 64, c * 64 + 63));
    let mut sims: Vec<Simulator> = (0..4)
        .map(|k| {
            let mut sim = Simulator::new(SimFlags {
                strict: k & 1 == 1,
                use_real_traps: k & 2 == 2,
                machine_init: MachineInitStrategy::Seeded { seed: c },
                debug_frames: (c + k) % 2 == 0,
                ignore_privilege: (c / 2 + k) % 3 == 0,
            });
            let kb = BufferedKeyboard::default();
            sim.device_handler.set_keyboard(kb);
            sim.device_handler.set_display(BufferedDisplay::default());
            sim
        })
        .collect();
    for t in 0..64u16 {
        let pc = (c * 64) as u16 + t;
        for shape in 0..24u64 {
            let h = mix(&[c, t as u64, shape]);
            let word = match shape {
                0..=18 => class_ins((h & !0) / 19 * 19 + shape).enc(),
                19 => 0xD000 | (h as u16 & 0xFFF),
                20 => 0xFFFF,
                21 => 0,
                _ => h as u16,
            };
            let sim = &mut sims[(h >> 20 & 3) as usize];
            set_psr(sim, rnd.u16());
            sim.pc = pc;
            sim.mem[pc] = if rnd.chance(1, 8) { Word::new_uninit(&mut { word }) } else { Word::new_init(word) };
            for i in 0..8u8 {
                let v = if rnd.chance(1, 3) { pc.wrapping_add(rnd.range(-2, 2) as u16) } else { rnd.word() };
                sim.reg_file[reg(i)] = if rnd.chance(1, 8) { Word::new_uninit(&mut { v }) } else { Word::new_init(v) };
            }
            let n = 1 + (h >> 30 & 1);
            for _ in 0..n {
                let r = nopanic("step_in", || sim.step_in()).map_err(|f| Fail { msg: format!("{word:04x} at {pc:04x}: {}", f.msg), ..f })?;
                let _ = r;
                ctx.evals += 1;
                all_queries(sim).map_err(|f| Fail { msg: format!("after {word:04x} at {pc:04x}: {}", f.msg), ..f })?;
            }
        }
    }
    Ok(())
}
#[derive(Debug)]
struct Ext;
impl std::fmt::Display for Ext {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("external")
    }
}
impl std::error::Error for Ext {}
fn c16_random(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mi = match src.below(3) {
        0 => MachineInitStrategy::Known { value: src.word() },
        _ => MachineInitStrategy::Seeded { seed: src.below(1 << 20) },
    };
    let fl = SimFlags { strict: src.bool(), use_real_traps: src.bool(), machine_init: mi, debug_frames: src.bool(), ignore_privilege: src.bool() };
    let calls = src.bool();
    let st = gen_setup(src, calls);
    let mut sim = nopanic("new", || Simulator::new(fl))?;
    let mode = src.below(3);
    let seed = src.below(1 << 32);
    let mut log = vec![];
    // memory: fresh (uninitialized outside the OS), fully patterned, or patterned with holes
    if mode > 0 {
        let m = st.memory();
        for a in 0..=0xFFFFu16 {
            let v = m[a as usize];
            sim.mem[a] = if mode == 2 && mix(&[seed, a as u64]) % 16 == 0 { masked(v, (mix(&[seed, a as u64]) >> 8) as u16) } else { Word::new_init(v) };
        }
    } else {
        for (a, v) in &st.pokes {
            sim.mem[*a] = Word::new_init(*v);
        }
    }
    let kb = BufferedKeyboard::default();
    let kbuf = kb.get_buffer().clone();
    if let Some(k) = &st.kb {
        kbuf.write().unwrap().extend(k.iter().copied());
        let mut kb = kb;
        if st.kb_ie {
            kb.io_write(KBSR, 1 << 14);
        }
        sim.device_handler.set_keyboard(kb);
    }
    if st.disp {
        sim.device_handler.set_display(BufferedDisplay::default());
    }
    if src.chance(1, 4) {
        for _ in 0..src.range(1, 2) {
            let b = gen_raw_blocks(src);
            if let Some(o) = nopanic("deserialize", || raw_obj(&b))? {
                let _ = nopanic("load_obj_file", || sim.load_obj_file(&o))?;
                log.push((100, b[0].0, b[0].1.len() as u16));
                ctx.class("object file of raw blocks loaded");
                ctx.class_if(b.iter().any(|(a, w)| *a as usize + w.len() >= 0x10000), "block reaching or passing xFFFF");
            }
        }
        if src.bool() {
            for (a, v) in &st.pokes {
                sim.mem[*a] = Word::new_init(*v);
            }
        }
    }
    let timer = src.chance(1, 2).then(|| {
        let lo = src.below(6) as u32;
        let r = match src.below(4) {
            0 => (lo, lo),
            1 => (0, u32::MAX),
            2 => (u32::MAX, u32::MAX),
            _ => (lo, lo + src.below(20) as u32),
        };
        (r, src.u16() as u8, src.below(256) as u8)
    });
    if let Some(((lo, hi), vect, prio)) = timer {
        let mut t = nopanic("TimerDevice::new", || TimerDevice::new(Some(seed), lo..=hi, vect, prio))?;
        t.enabled = true;
        let _ = sim.device_handler.add_device(t, &[]);
    }
    if src.chance(1, 6) {
        let d = 3 + src.below(40);
        let mut k = 0;
        let dev = InterruptFromFn::new(move || {
            k += 1;
            (k % d == 0).then(|| Interrupt::external(Ext))
        });
        let _ = sim.device_handler.add_device(dev, &[]);
    }
    add_inert(&mut sim, st.fill);
    let pend = add_scripted(&mut sim, st.ndev);
    set_psr(&mut sim, if src.chance(1, 4) { src.u16() } else { st.psr });
    set_ireg(&mut sim, InternalRegister::SavedSP, st.saved_sp);
    let mut iregs = vec![];
    for _ in 0..src.below(4) {
        let p = *src.pick(&C16_IREGS);
        let r = *src.pick(&[IReg::Pc, IReg::Psr, IReg::Mcr, IReg::SavedSp]);
        let _ = sim.mmap_internal(p, to_ireg(r));
        iregs.push((p, r));
    }
    for i in 0..8u8 {
        if src.chance(3, 4) {
            let m = if src.chance(1, 8) { src.u16() } else { 0xFFFF };
            sim.reg_file[reg(i)] = masked(st.r[i as usize], m);
        }
    }
    sim.pc = if src.chance(1, 3) { (src.below(256) as u16) << 8 | *src.pick(&[0u16, 0xFF, 0xFE, 1]) } else { st.pc };
    for (a, sig) in &st.sigs {
        let pl = match sig {
            Sig::Stack(n) => {
                let names: Vec<String> = (0..*n).map(|i| format!("a{i}")).collect();
                ParameterList::with_calling_convention(&names.iter().map(String::as_str).collect::<Vec<_>>())
            }
            Sig::Regs(v) => ParameterList::with_pass_by_register(&v.iter().map(|&i| ("x", reg(i))).collect::<Vec<_>>(), Some(reg(3))),
        };
        sim.frame_stack.set_subroutine_def(*a, pl);
    }
    let sim = &mut sim;
    let mcr = sim.mcr().clone();
    let _ = sim.device_handler.add_device(Fuse(2000, mcr.clone()), &[]);
    if src.chance(1, 4) {
        use lc3_ensemble::sim::debug::{Breakpoint, Comparator};
        sim.breakpoints.insert(Breakpoint::Mem { addr: src.u16(), value: Comparator::Eq(0) });
        sim.breakpoints.insert(Breakpoint::Reg { reg: reg(src.below(8) as u8), value: Comparator::Gt(src.u16()) });
    }
    let flags_now = format!("{:?}", sim.flags);
    let pc0 = sim.pc;
    ctx.key(&(format!("{st:?}{timer:?}{iregs:?}"), seed, mode, pc0));
    let n = src.range(1, 40);
    for _ in 0..n {
        let op = src.weighted(&[24, 4, 2, 2, 1, 1, 1, 1, 2]);
        if st.ndev > 0 {
            *pend.lock().unwrap() = gen_pend(src, st.ndev);
        }
        let count = sim.instructions_run;
        let arg = src.u16();
        log.push((op, arg, sim.pc));
        ctx.describe(|| format!("flags {flags_now} memory mode {mode} seed {seed} timer {timer:?} iregs {iregs:x?} start pc {pc0:04x} calls {log:x?} {}", st.show()));
        let r = match op {
            0 => nopanic("step_in", || sim.step_in())?,
            1 => nopanic("run_with_limit", || sim.run_with_limit(arg as u64 % 200))?,
            2 => nopanic("step_over", || sim.step_over())?,
            3 => nopanic("step_out", || sim.step_out())?,
            4 => nopanic("run", || sim.run())?,
            5 => {
                kbuf.write().unwrap().push_back(arg as u8);
                Ok(())
            }
            6 => {
                sim.flags.strict ^= arg & 1 != 0;
                sim.flags.use_real_traps ^= arg & 2 != 0;
                sim.flags.ignore_privilege ^= arg & 4 != 0;
                Ok(())
            }
            7 => {
                sim.pc = arg;
                Ok(())
            }
            _ => {
                let mut k = 0;
                nopanic("run_while", || sim.run_while(|_| {
                    k += 1;
                    k < 30
                }))?
            }
        };
        ctx.evals += 1;
        ctx.nontrivial_if(sim.instructions_run != count || r.is_err());
        if let Err(e) = &r {
            ctx.class("error reported");
            ctx.class_if(is_strict(e), "strict error reported");
        }
        all_queries(sim)?;
    }
    Ok(())
}
