//! A simulator and a reference machine set up identically and stepped together.
use crate::isa::*;
use crate::pbt::*;
use crate::refsim::*;
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, ExternalDevice, Interrupt, InterruptFromFn};
use lc3_ensemble::sim::frame::{FrameType, ParameterList};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, MemAccessCtx, SimErr, SimFlags, Simulator};
use std::collections::VecDeque;
use std::sync::{Arc, LazyLock, Mutex, RwLock};

pub type KBuf = Arc<RwLock<VecDeque<u8>>>;
pub type DBuf = Arc<RwLock<Vec<u8>>>;
pub type Pend = Arc<Mutex<Vec<Option<(u8, u8)>>>>;

pub fn flags(real: bool, ignore: bool, strict: bool, debug_frames: bool) -> SimFlags {
    SimFlags { strict, use_real_traps: real, machine_init: MachineInitStrategy::Known { value: 0 }, debug_frames, ignore_privilege: ignore }
}

/// The first x3000 words of a fresh machine: the OS image.
pub static OS: LazyLock<Vec<u16>> = LazyLock::new(|| {
    let sim = Simulator::new(flags(false, false, false, false));
    (0..0x3000u16).map(|a| sim.mem[a].get()).collect()
});

fn h(seed: u64, a: u64) -> u64 {
    mix(&[seed, a])
}
/// One word of pattern `mode`.
pub fn pattern_word(mode: u64, seed: u64, a: u16) -> u16 {
    let v = h(seed ^ mode << 40, a as u64);
    match mode {
        0 => 0,
        1 => v as u16,
        2 => class_ins(v).enc(),
        3 => match v % 4 {
            0 | 1 => class_ins(v >> 8).enc(),
            2 => interesting((v >> 8) as usize, (v >> 32) as u16),
            _ => (v >> 8) as u16,
        },
        _ => match v % 16 {
            0 => interesting((v >> 8) as usize, (v >> 32) as u16),
            1 => (v >> 8) as u16,
            2 => 0xF000 | (0x20 + (v >> 8) % 7) as u16,
            3 => 0x8000,
            _ => class_ins(v >> 8).enc(),
        },
    }
}
/// A valid instruction, uniform over opcodes first.
pub fn class_ins(v: u64) -> Ins {
    let (a, b, c) = ((v >> 4 & 7) as u8, (v >> 7 & 7) as u8, (v >> 10 & 7) as u8);
    let o = |n: u32| {
        let full = sext((v >> 16) as u16, n);
        if v >> 40 & 3 == 0 { full } else { full.clamp(-16, 15) }
    };
    match v % 19 {
        0 => Ins::Br(a, o(9)),
        1 => Ins::AddR(a, b, c),
        2 => Ins::AddI(a, b, sext((v >> 16) as u16, 5)),
        3 => Ins::Ld(a, o(9)),
        4 => Ins::St(a, o(9)),
        5 => Ins::Jsr(o(11)),
        6 => Ins::Jsrr(a),
        7 => Ins::AndR(a, b, c),
        8 => Ins::AndI(a, b, sext((v >> 16) as u16, 5)),
        9 => Ins::Ldr(a, b, o(6)),
        10 => Ins::Str(a, b, o(6)),
        11 => Ins::Rti,
        12 => Ins::Not(a, b),
        13 => Ins::Ldi(a, o(9)),
        14 => Ins::Sti(a, o(9)),
        15 => Ins::Jmp(a),
        16 => Ins::Lea(a, o(9)),
        17 => Ins::Trap((v >> 16) as u8),
        _ => Ins::Trap(0x20 + (v >> 16) as u8 % 6),
    }
}
pub const PORTS: [u16; 8] = [KBSR, KBDR, DSR, DDR, PSR_PORT, MCR_PORT, 0xFE10, 0xFFFF];
pub fn interesting(i: usize, r: u16) -> u16 {
    const XS: [u16; 24] = [
        KBSR, KBDR, DSR, DDR, PSR_PORT, MCR_PORT, 0xFE10, 0xFFFF, 0x0000, 0x2FFF, 0x3000, 0xFDFF, 0xFE00, 0x0025, 0x0100, 0x0101, 0x0102, 0x0180, 0x3001, 0xFDFE, 0x8000, 0x4000, 0x4000, 0x3100,
    ];
    match i % 32 {
        k if k < 24 => XS[k],
        24..=27 => 0x3000 + r % 0xCE00,
        28 => r % 0x3000,
        29 => 0xFE00 + r % 0x200,
        _ => r,
    }
}
pub fn word_of(src: &mut Src) -> u16 {
    match src.weighted(&[3, 3]) {
        0 => {
            let (i, r) = (src.usize(32), src.u16());
            interesting(i, r)
        }
        _ => src.word(),
    }
}
const NPAT: usize = 20;
static PATS: LazyLock<Vec<Vec<u16>>> = LazyLock::new(|| {
    (0..NPAT as u64).map(|i| (0..=0xFFFFu16).map(|a| pattern_word(if i == 0 { 0 } else { 1 + i % 4 }, i, a)).collect()).collect()
});

/// Complete description of an initial machine.
#[derive(Clone, Debug)]
pub struct Setup {
    pub pat: usize,
    pub os: bool,
    /// (start, mode, seed, length)
    pub windows: Vec<(u16, u64, u64, u16)>,
    pub pokes: Vec<(u16, u16)>,
    pub r: [u16; 8],
    pub pc: u16,
    pub psr: u16,
    pub saved_sp: u16,
    pub real_traps: bool,
    pub ignore_priv: bool,
    pub kb: Option<Vec<u8>>,
    pub kb_ie: bool,
    pub disp: bool,
    /// number of scripted interrupt devices
    pub ndev: usize,
    /// inert devices attached before the scripted ones
    pub fill: usize,
    pub iregs: Vec<(u16, IReg)>,
    pub sigs: Vec<(u16, Sig)>,
    /// which memory words and registers are flagged uninitialized (0 = none, 1 = all, else a quarter chosen by hash)
    pub uninit: u64,
}
impl Setup {
    /// Whether word `a` (or register `0x10000 + i`) starts out flagged uninitialized. Its data is the same either way.
    pub fn is_uninit(&self, a: u32) -> bool {
        match self.uninit {
            0 => false,
            1 => true,
            s => h(s, a as u64) % 4 == 0,
        }
    }
    pub fn word(&self, a: u32, v: u16) -> Word {
        if self.is_uninit(a) {
            Word::new_uninit(&mut { v })
        } else {
            Word::new_init(v)
        }
    }
    pub fn memory(&self) -> Vec<u16> {
        let mut m = PATS[self.pat % NPAT].clone();
        if self.os {
            m[..0x3000].copy_from_slice(&OS);
        }
        for &(s, mode, seed, len) in &self.windows {
            for i in 0..len {
                let a = s.wrapping_add(i);
                m[a as usize] = pattern_word(mode, seed, i);
            }
        }
        for &(a, v) in &self.pokes {
            m[a as usize] = v;
        }
        m
    }
    /// Plain user program machine: OS loaded, virtual or real traps, code at x3000.
    pub fn basic(real: bool) -> Setup {
        Setup {
            pat: 0,
            os: true,
            windows: vec![],
            pokes: vec![],
            r: [0; 8],
            pc: 0x3000,
            psr: 0x8002,
            saved_sp: 0x3000,
            real_traps: real,
            ignore_priv: false,
            kb: Some(vec![]),
            kb_ie: false,
            disp: true,
            ndev: 0,
            fill: 0,
            iregs: vec![],
            sigs: vec![],
            uninit: 0,
        }
    }
    pub fn show(&self) -> String {
        let rs: Vec<String> = self.r.iter().map(|v| format!("{v:04x}")).collect();
        let pk: Vec<String> = self.pokes.iter().map(|&(a, v)| match Ins::dec(v) {
            Ok(i) => format!("{a:04x}:{v:04x}({i:?})"),
            _ => format!("{a:04x}:{v:04x}"),
        }).collect();
        format!(
            "pc={:04x} psr={:04x} ssp={:04x} r=[{}] real={} ignore_priv={} pat={} os={} windows={:x?} kb={:?} ie={} disp={} ndev={}+{} iregs={:x?} sigs={:x?} uninit={:x} pokes=[{}]",
            self.pc, self.psr, self.saved_sp, rs.join(" "), self.real_traps, self.ignore_priv, self.pat, self.os, self.windows, self.kb, self.kb_ie, self.disp, self.ndev, self.fill, self.iregs, self.sigs, self.uninit, pk.join(" ")
        )
    }
}

pub struct Rig {
    pub sim: Simulator,
    pub rf: RefSim,
    pub kbuf: KBuf,
    pub dbuf: DBuf,
    pub pend: Pend,
    pub ssp_port: u16,
    pub ndev: usize,
    /// some words started out flagged uninitialized
    pub uninit: bool,
    /// addresses the observer was asked about since it was last drained
    pub seen: std::collections::BTreeSet<u16>,
}
pub fn to_ireg(i: IReg) -> InternalRegister {
    match i {
        IReg::Pc => InternalRegister::PC,
        IReg::Psr => InternalRegister::PSR,
        IReg::Mcr => InternalRegister::MCR,
        IReg::SavedSp => InternalRegister::SavedSP,
    }
}
pub fn set_psr(sim: &mut Simulator, v: u16) {
    sim.write_mem(PSR_PORT, Word::new_init(v), MemAccessCtx::omnipotent()).expect("PSR write");
}
/// Writes an internal register through a temporary mapping.
pub fn set_ireg(sim: &mut Simulator, r: InternalRegister, v: u16) {
    let port = 0xFE77;
    sim.mmap_internal(port, r).expect("temporary mapping");
    sim.write_mem(port, Word::new_init(v), MemAccessCtx::omnipotent()).expect("register write");
    sim.munmap_internal(port);
}
pub fn get_ssp(sim: &mut Simulator) -> u16 {
    let port = 0xFE77;
    let old = sim.mem[port];
    sim.mmap_internal(port, InternalRegister::SavedSP).expect("temporary mapping");
    let v = sim.read_mem(port, MemAccessCtx { track_access: false, ..MemAccessCtx::omnipotent() }).expect("register read").get();
    sim.munmap_internal(port);
    sim.mem[port] = old;
    v
}
pub fn err_of(e: &SimErr) -> Option<E> {
    Some(match e {
        SimErr::IllegalOpcode => E::Illegal,
        SimErr::InvalidInstrFormat => E::Format,
        SimErr::PrivilegeViolation => E::Privilege,
        SimErr::AccessViolation => E::Access,
        _ => return None,
    })
}
/// Devices that answer nothing and request nothing.
pub fn add_inert(sim: &mut Simulator, n: usize) {
    for _ in 0..n {
        sim.device_handler.add_device(InterruptFromFn::new(|| None), &[]).expect("add inert device");
    }
}
/// How many inert devices come first (mostly none).
pub fn gen_fill(src: &mut Src, den: u64) -> usize {
    if src.chance(1, den) {
        *src.pick(&[5usize, 6, 7, 13, 14, 30, 62, 126, 253, 254, 300, 1000])
    } else {
        0
    }
}
pub fn add_scripted(sim: &mut Simulator, n: usize) -> Pend {
    let pend: Pend = Arc::new(Mutex::new(vec![None; n]));
    for k in 0..n {
        let p = pend.clone();
        let dev = InterruptFromFn::new(move || p.lock().unwrap()[k].map(|(v, q)| Interrupt::vectored(v, q)));
        sim.device_handler.add_device(dev, &[]).expect("add scripted device");
    }
    pend
}
/// What a recording device saw.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Io {
    /// port, with effects
    Read(u16, bool),
    Write(u16, u16),
    Reset,
}
pub type Log = Arc<Mutex<Vec<(u32, Io)>>>;
/// A device that records every call under its tag. It answers reads with a value derived from (tag, port, number of calls),
/// unless the answers are switched off for it.
pub struct Recorder {
    pub tag: u32,
    pub log: Log,
    pub answers: bool,
}
pub fn recorder_value(tag: u32, port: u16) -> u16 {
    mix(&[0xDE7, tag as u64, port as u64]) as u16
}
impl ExternalDevice for Recorder {
    fn io_read(&mut self, a: u16, e: bool) -> Option<u16> {
        self.log.lock().unwrap().push((self.tag, Io::Read(a, e)));
        self.answers.then(|| recorder_value(self.tag, a))
    }
    fn io_write(&mut self, a: u16, d: u16) -> bool {
        self.log.lock().unwrap().push((self.tag, Io::Write(a, d)));
        self.answers
    }
    fn io_reset(&mut self) {
        self.log.lock().unwrap().push((self.tag, Io::Reset));
    }
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        None
    }
}
/// Puts recording devices on every I/O port (tags 1 keyboard, 2 display, 3 the rest).
pub fn record_all(sim: &mut Simulator) -> Log {
    let log: Log = Default::default();
    let mk = |tag| Recorder { tag, log: log.clone(), answers: true };
    sim.device_handler.set_keyboard(mk(1));
    sim.device_handler.set_display(mk(2));
    let rest: Vec<u16> = (IO..=0xFFFF).filter(|p| ![KBSR, KBDR, DSR, DDR].contains(p)).collect();
    if sim.device_handler.add_device(mk(3), &rest).is_err() {
        panic!("add_device refused free ports");
    }
    log
}
impl Rig {
    pub fn new(s: &Setup, debug_frames: bool) -> Rig {
        let mut sim = Simulator::new(flags(s.real_traps, s.ignore_priv, false, debug_frames));
        let mem = s.memory();
        let kbuf: KBuf = Default::default();
        let dbuf: DBuf = Default::default();
        let mut rf = RefSim::new(mem);
        if let Some(k) = &s.kb {
            kbuf.write().unwrap().extend(k.iter().copied());
            let mut kb = BufferedKeyboard::new(kbuf.clone());
            // (a keyboard starts with its interrupts off)
            if s.kb_ie {
                kb.io_write(KBSR, 1 << 14);
            }
            sim.device_handler.set_keyboard(kb);
            rf.kb = Some(k.iter().copied().collect());
            rf.kb_ie = s.kb_ie;
        }
        if s.disp {
            sim.device_handler.set_display(BufferedDisplay::new(dbuf.clone()));
            rf.disp = Some(vec![]);
        }
        add_inert(&mut sim, s.fill);
        let pend = add_scripted(&mut sim, s.ndev);
        set_psr(&mut sim, s.psr);
        set_ireg(&mut sim, InternalRegister::SavedSP, s.saved_sp);
        for (p, i) in &s.iregs {
            if sim.mmap_internal(*p, to_ireg(*i)).is_ok() {
                rf.iregs.insert(*p, *i);
            }
        }
        for a in 0..=0xFFFFu16 {
            sim.mem[a] = s.word(a as u32, rf.mem[a as usize]);
        }
        for i in 0..8u8 {
            sim.reg_file[reg(i)] = s.word(0x10000 + i as u32, s.r[i as usize]);
        }
        sim.pc = s.pc;
        rf.r = s.r;
        rf.pc = s.pc;
        rf.psr = canon_psr(s.psr);
        rf.saved_sp = s.saved_sp;
        rf.real_traps = s.real_traps;
        rf.ignore_priv = s.ignore_priv;
        for (a, sig) in &s.sigs {
            let pl = match sig {
                Sig::Stack(n) => {
                    let names: Vec<String> = (0..*n).map(|i| format!("a{i}")).collect();
                    ParameterList::with_calling_convention(&names.iter().map(String::as_str).collect::<Vec<_>>())
                }
                Sig::Regs(v) => ParameterList::with_pass_by_register(&v.iter().map(|&i| ("x", reg(i))).collect::<Vec<_>>(), None),
            };
            sim.frame_stack.set_subroutine_def(*a, pl);
            rf.sigs.insert(*a, sig.clone());
        }
        let ssp_port = s.iregs.iter().find(|x| x.1 == IReg::SavedSp).map_or(0, |x| x.0);
        Rig { sim, rf, kbuf, dbuf, pend, ssp_port, ndev: s.ndev, uninit: s.uninit != 0, seen: Default::default() }
    }
    pub fn host_key(&mut self, b: u8) {
        self.kbuf.write().unwrap().push_back(b);
        if let Some(k) = &mut self.rf.kb {
            k.push_back(b);
        }
    }
    /// Steps the reference first. Returns None when the step has no ISA meaning (simulator not stepped).
    pub fn step(&mut self, pend: &[Option<(u8, u8)>]) -> Result<Option<(Out, Result<(), SimErr>)>, Fail> {
        let reqs: Vec<(u8, u8)> = pend.iter().flatten().copied().collect();
        let out = self.rf.step(&reqs);
        if self.rf.weird {
            return Ok(None);
        }
        *self.pend.lock().unwrap() = pend.to_vec();
        let sim = &mut self.sim;
        let got = nopanic("step_in", || sim.step_in())?;
        Ok(Some((out, got)))
    }
    /// Error reported vs the model, including the faulting address.
    pub fn check_outcome(&self, out: Out, got: &Result<(), SimErr>, start_pc: u16, sig: &str) -> Res {
        match (out, got) {
            (Out::Ok | Out::Halt, Ok(())) => {}
            (Out::Err(e), Err(g)) => {
                ensure!(err_of(g) == Some(e), sig, "step at {start_pc:04x} ({:?}) must report {e:?}, reported {g:?}", self.rf.ev);
                ensure_eq!(self.sim.prefetch_pc(), start_pc, sig, "faulting address reported for {e:?} ({:?})", self.rf.ev);
            }
            _ => return fail(sig, format!("step at {start_pc:04x} ({:?}): model outcome {out:?}, simulator returned {got:?}", self.rf.ev)),
        }
        Ok(())
    }
    /// Architectural state after a step.
    pub fn check_arch(&mut self, start_pc: u16, faulted: bool, sig: &str) -> Res {
        let ev = self.rf.ev;
        let at = format!("after step at {start_pc:04x} ({ev:x?})");
        for i in 0..8u8 {
            ensure_eq!(self.sim.reg_file[reg(i)].get(), self.rf.r[i as usize], sig, "R{i} {at}");
        }
        if !faulted {
            ensure_eq!(self.sim.pc, self.rf.pc, sig, "PC {at}");
        }
        let p = self.sim.psr().get();
        if self.rf.odd_psr && p == canon_psr(self.rf.psr) {
            self.rf.psr = p;
        }
        ensure!(p == self.rf.psr, sig, "PSR {at}: {p:04x} expected {:04x}", self.rf.psr);
        let q = self.sim.psr();
        ensure!(
            q.privileged() == (p >> 15 == 0) && q.priority() as u16 == p >> 8 & 7 && q.cc() as u16 == p & 7 && (q.is_n(), q.is_z(), q.is_p()) == (p & 4 != 0, p & 2 != 0, p & 1 != 0),
            sig,
            "the PSR {at} is {p:04x}, its fields are {:?}",
            (q.privileged(), q.priority(), q.cc(), q.is_n(), q.is_z(), q.is_p())
        );
        ensure_eq!(self.sim.mcr().load(std::sync::atomic::Ordering::Relaxed), self.rf.mcr, sig, "MCR {at}");
        if self.ssp_port != 0 {
            let v = self.sim.read_mem(self.ssp_port, MemAccessCtx { track_access: false, ..MemAccessCtx::omnipotent() }).unwrap().get();
            self.rf.mem[self.ssp_port as usize] = self.rf.saved_sp;
            ensure!(v == self.rf.saved_sp, sig, "saved SP {at}: {v:04x} expected {:04x}", self.rf.saved_sp);
        }
        for &(a, k) in &self.rf.acc {
            let v = self.sim.mem[a].get();
            ensure!(v == self.rf.mem[a as usize], sig, "mem[{a:04x}] {at} (model access {k}): {v:04x} expected {:04x}", self.rf.mem[a as usize]);
        }
        if let Some(k) = &self.rf.kb {
            let b = self.kbuf.read().unwrap();
            ensure!(*b == *k, sig, "keyboard queue {at}: {:?} expected {:?}", *b, k);
        }
        if let Some(d) = &self.rf.disp {
            let b = self.dbuf.read().unwrap();
            ensure!(*b == *d, sig, "display {at}: {:?} expected {:?}", *b, d);
        }
        Ok(())
    }
    pub fn check_memory(&self, sig: &str) -> Res {
        if self.rf.weird {
            return Ok(());
        }
        for a in 0..=0xFFFFu16 {
            let v = self.sim.mem[a].get();
            if v != self.rf.mem[a as usize] {
                return fail(sig, format!("mem[{a:04x}] at the end: {v:04x} expected {:04x} (never written by the model)", self.rf.mem[a as usize]));
            }
        }
        Ok(())
    }
    pub fn check_depth(&self, start_pc: u16, sig: &str) -> Res {
        ensure_eq!(self.sim.frame_stack.len(), self.rf.depth, sig, "frame depth after step at {start_pc:04x} ({:?})", self.rf.ev);
        ensure_eq!(self.sim.frame_stack.is_empty(), self.rf.depth == 0, sig, "is_empty after step at {start_pc:04x}");
        Ok(())
    }
    pub fn check_frames(&self, start_pc: u16, sig: &str) -> Res {
        let Some(fs) = self.sim.frame_stack.frames() else { return fail(sig, "debug frames are on but frames() is None") };
        let got: Vec<RFrame> = fs.iter().map(|f| RFrame {
            caller: f.caller_addr,
            callee: f.callee_addr,
            kind: match f.frame_type {
                FrameType::Subroutine => Kind::Sub,
                FrameType::Trap => Kind::Trap,
                FrameType::Interrupt => Kind::Int,
            },
            args: f.arguments.iter().map(|w| w.get()).collect(),
        }).collect();
        ensure!(got == self.rf.frames, sig, "frames after step at {start_pc:04x} ({:?}): {got:x?} expected {:x?}", self.rf.ev, self.rf.frames);
        Ok(())
    }
}

// ------------------------------------------------------------------ generators

pub const NEAR: u16 = 0x40;
/// A straight-line-ish piece of code at `pc` that uses a pointer pool right behind it.
pub fn gen_code(src: &mut Src, pc: u16, n: u16, pool: u16, call_heavy: bool) -> Vec<(u16, u16)> {
    let mut v = vec![];
    for i in 0..n {
        let here = pc.wrapping_add(i);
        // distance from the incremented PC to a pool slot
        let slot = |src: &mut Src| (n - i - 1 + src.below(pool as u64) as u16) as i16;
        let r = |src: &mut Src| src.below(8) as u8;
        let w: &[u32] = if call_heavy { &[3, 3, 3, 2, 1, 2, 2, 1, 1, 2, 2, 1, 8, 5, 10, 10, 12, 5, 3, 1] } else { &[5, 6, 5, 5, 4, 5, 5, 5, 5, 6, 6, 3, 4, 4, 4, 7, 7, 4, 4, 2] };
        let ins = match src.weighted(w) {
            0 => Ins::Br(src.below(8) as u8, src.range(-6, 8) as i16),
            1 => Ins::AddI(r(src), r(src), src.range(-16, 15) as i16),
            2 => Ins::AddR(r(src), r(src), r(src)),
            3 => Ins::AndI(r(src), r(src), src.range(-16, 15) as i16),
            4 => Ins::AndR(r(src), r(src), r(src)),
            5 => Ins::Not(r(src), r(src)),
            6 => Ins::Ld(r(src), slot(src)),
            7 => Ins::Ldi(r(src), slot(src)),
            8 => Ins::Sti(r(src), slot(src)),
            9 => Ins::Ldr(r(src), r(src), src.range(-32, 31) as i16),
            10 => Ins::Str(r(src), r(src), src.range(-32, 31) as i16),
            11 => Ins::St(r(src), slot(src)),
            12 => Ins::Jsr(src.range(-6, 8) as i16),
            13 => Ins::Jsrr(r(src)),
            14 => Ins::Jmp(r(src)),
            15 => Ins::Jmp(7),
            16 => Ins::Trap(if src.chance(3, 4) { 0x20 + src.below(7) as u8 } else { src.below(256) as u8 }),
            17 => Ins::Lea(r(src), src.range(-6, n as i64) as i16),
            18 => Ins::Rti,
            _ => {
                v.push((here, src.u16()));
                continue;
            }
        };
        v.push((here, ins.enc()));
    }
    for k in 0..pool {
        v.push((pc.wrapping_add(n).wrapping_add(k), word_of(src)));
    }
    v
}
/// A random machine. `profile`: 0 = anything, 1 = call heavy (frames).
pub fn gen_setup(src: &mut Src, calls: bool) -> Setup {
    let mut s = Setup::basic(src.bool());
    s.os = src.chance(2, 3);
    s.pat = src.usize(NPAT);
    s.ignore_priv = src.chance(1, 5);
    s.pc = match src.weighted(&[6, 3, 2, 2]) {
        0 => 0x3000 + src.below(0xCD00) as u16,
        1 => 0x3000,
        2 => *src.pick(&[0u16, 0x2FFE, 0x2FFF, 0x3000, 0xFDFE, 0xFDFF, 0xFE00, 0xFFFE, 0xFFFF, 0x0200]),
        _ => src.u16(),
    };
    let user = src.chance(3, 5);
    let prio = if src.bool() { 0 } else { src.below(8) as u16 };
    s.psr = (user as u16) << 15 | prio << 8 | *src.pick(&[2u16, 1, 4]);
    for i in 0..8 {
        s.r[i] = word_of(src);
    }
    if src.chance(3, 4) {
        let sp = match src.weighted(&[4, 1, 1]) {
            0 => 0x3000 - src.below(0x40) as u16,
            1 => *src.pick(&[0u16, 1, 2, 0xFFFF, 0xFE00, 0xFE02, 0xFE10, 0xFFFD, 0x3001]),
            _ => src.u16(),
        };
        if user { s.saved_sp = sp } else { s.r[6] = sp }
    } else {
        s.saved_sp = word_of(src);
    }
    if src.chance(2, 3) && user {
        s.r[6] = 0xF000 + src.below(0x20) as u16;
    }
    if src.chance(4, 5) {
        let n = src.range(1, 14) as u16;
        let pool = src.range(1, 8) as u16;
        s.pokes = gen_code(src, s.pc, n, pool, calls);
        // registers pointing into the code
        for _ in 0..src.below(4) {
            let i = src.usize(8);
            s.r[i] = s.pc.wrapping_add(src.below((n + pool) as u64) as u16);
        }
    }
    if src.chance(1, 3) {
        let nw = src.range(1, 2);
        for _ in 0..nw {
            let st = if src.bool() { s.pc } else { word_of(src) };
            let w = (st, src.below(5), src.below(1 << 32), src.range(1, 48) as u16);
            s.windows.push(w);
        }
    }
    // an RTI frame on the supervisor stack
    if src.chance(1, 3) {
        let sp = if user { s.saved_sp } else { s.r[6] };
        let tgt = if src.bool() { s.pc.wrapping_add(src.below(8) as u16) } else { word_of(src) };
        let pv = if src.chance(1, 8) { src.u16() } else { canon_psr(src.u16()) };
        s.pokes.push((sp, tgt));
        s.pokes.push((sp.wrapping_add(1), pv));
    }
    // vector table entries that lead somewhere useful
    if src.chance(1, 2) {
        for _ in 0..src.range(1, 4) {
            let v = match src.weighted(&[2, 2, 2]) {
                0 => 0x180 + src.below(6) as u16,
                1 => 0x100 + src.below(3) as u16,
                _ => src.below(0x200) as u16,
            };
            let t = s.pc.wrapping_add(src.below(12) as u16);
            s.pokes.push((v, t));
        }
    }
    s.kb = if src.chance(5, 6) {
        let n = src.below(4);
        Some((0..n).map(|_| src.below(256) as u8).collect())
    } else {
        None
    };
    s.kb_ie = src.chance(1, 3);
    s.disp = src.chance(5, 6);
    s.ndev = src.usize(4);
    s.fill = gen_fill(src, 50);
    s.iregs.push((*src.pick(&[0xFE10u16, 0xFFF0, 0xFFFF, 0xFE08]), IReg::SavedSp));
    if src.chance(1, 3) {
        s.iregs.push((*src.pick(&[0xFE12u16, 0xFFFA, 0xFE06, 0xFE00]), *src.pick(&[IReg::Pc, IReg::Psr, IReg::Mcr])));
    }
    if src.chance(1, 3) {
        s.uninit = 1 + src.below(8);
    }
    if calls {
        for _ in 0..src.below(6) {
            let a = match src.weighted(&[6, 1, 1]) {
                0 => s.pc.wrapping_add(src.range(-6, 14) as u16),
                1 => 0x180 + src.below(6) as u16,
                _ => word_of(src),
            };
            // (mostly a few parameters, sometimes more than a byte counts)
            let most = *src.pick(&[4u64, 4, 4, 4, 4, 4, 12, 300]);
            let sig = if src.bool() { Sig::Stack(src.below(most) as u16) } else {
                let n = src.below(most);
                Sig::Regs((0..n).map(|_| src.below(8) as u8).collect())
            };
            s.sigs.push((a, sig));
        }
    }
    s
}
/// Requests pending at one boundary.
pub fn gen_pend(src: &mut Src, ndev: usize) -> Vec<Option<(u8, u8)>> {
    (0..ndev)
        .map(|_| {
            if src.chance(1, 6) {
                // vectors 0..=2 of the interrupt table are the exception vectors
                let v = if src.chance(2, 3) { 0x80 + src.below(6) as u8 } else { src.range(3, 255) as u8 };
                Some((v, src.below(8) as u8))
            } else {
                None
            }
        })
        .collect()
}

// ------------------------------------------------------------------ object files of arbitrary blocks
pub type Blocks = Vec<(u16, Vec<Option<u16>>)>;
/// An object file with exactly these blocks, built through the binary format's documented layout.
pub fn raw_obj(blocks: &Blocks) -> Option<lc3_ensemble::asm::ObjectFile> {
    use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat};
    let mut v = b"obj\x21\x10\x00\x01".to_vec();
    for (a, ws) in blocks {
        v.push(0);
        v.extend(a.to_le_bytes());
        v.extend((ws.len() as u16).to_le_bytes());
        for w in ws {
            match w {
                Some(x) => {
                    v.push(0xFF);
                    v.extend(x.to_le_bytes());
                }
                None => v.extend([0, 0, 0]),
            }
        }
    }
    BinaryFormat::deserialize(&v)
}
/// Up to four disjoint blocks anywhere in the address space, I/O page and the xFFFF/x0000 seam included.
pub fn gen_raw_blocks(src: &mut Src) -> Blocks {
    let mut out: Blocks = vec![];
    let mut used = vec![false; 0x10000];
    for _ in 0..src.range(1, 4) {
        let len = match src.weighted(&[4, 3, 2, 1]) {
            0 => src.range(1, 12) as usize,
            1 => src.range(1, 0x200) as usize,
            2 => src.range(0x200, 0x9000) as usize,
            _ => src.range(0x8000, 0xFFFF) as usize,
        };
        let at = match src.weighted(&[3, 2, 3]) {
            0 => (0x10000 - len) as u16,
            1 => 0u16.wrapping_sub(src.below(len as u64 + 1) as u16),
            _ => src.word(),
        };
        let mode = src.below(5);
        let seed = src.below(1 << 16);
        if (0..len).any(|i| used[at.wrapping_add(i as u16) as usize]) || out.iter().any(|b| b.0 == at) {
            continue;
        }
        let ws = (0..len as u64)
            .map(|i| {
                let x = mix(&[seed, i]);
                let none = match mode {
                    0 => false,
                    1 => true,
                    2 => x & 1 == 1,
                    3 => mix(&[seed, i / 16]) & 1 == 1,
                    _ => i > seed % len as u64,
                };
                (!none).then_some((x >> 16) as u16)
            })
            .collect();
        for i in 0..len {
            used[at.wrapping_add(i as u16) as usize] = true;
        }
        out.push((at, ws));
    }
    src.shuffle(&mut out);
    if out.is_empty() {
        out.push((0xFFFF, vec![Some(0x1234)]));
    }
    out
}
