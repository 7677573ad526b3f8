//! Reference LC-3 machine: an independent, value-only model of one simulator step.
//!
//! The model is written from the LC-3 ISA (3rd edition: LEA leaves the condition codes alone, TRAP pushes PSR and PC,
//! JSRR R7 jumps to the old R7) and the crate's documented conventions. It knows nothing about initialization masks,
//! so it describes non-strict machines only.
use crate::isa::*;
use std::collections::{BTreeMap, VecDeque};

pub const KBSR: u16 = 0xFE00;
pub const KBDR: u16 = 0xFE02;
pub const DSR: u16 = 0xFE04;
pub const DDR: u16 = 0xFE06;
pub const PSR_PORT: u16 = 0xFFFC;
pub const MCR_PORT: u16 = 0xFFFE;
pub const KB_VECT: u8 = 0x80;
pub const KB_PRIO: u8 = 4;
pub const IO: u16 = 0xFE00;
pub const USER: u16 = 0x3000;

pub const READ: u8 = 1;
pub const WRITTEN: u8 = 2;
pub const MODIFIED: u8 = 4;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IReg {
    Pc,
    Psr,
    Mcr,
    SavedSp,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Sub,
    Trap,
    Int,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RFrame {
    pub caller: u16,
    pub callee: u16,
    pub kind: Kind,
    pub args: Vec<u16>,
}
/// signature of a subroutine
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Sig {
    /// n arguments on the stack, at R6, R6+1, ...
    Stack(u16),
    Regs(Vec<u8>),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum E {
    Illegal,
    Format,
    Privilege,
    Access,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out {
    Ok,
    Halt,
    Err(E),
}
/// What happened in the step.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    Int { vect: u8, prio: u8 },
    Ins(Ins),
    /// faulted (real traps: vectored; virtual: reported)
    Fault(E),
    Halt,
}
#[derive(Clone)]
pub struct RefSim {
    pub mem: Vec<u16>,
    pub r: [u16; 8],
    pub pc: u16,
    pub psr: u16,
    pub saved_sp: u16,
    pub mcr: bool,
    pub iregs: BTreeMap<u16, IReg>,
    pub real_traps: bool,
    pub ignore_priv: bool,
    pub prefetch: bool,
    pub kb: Option<VecDeque<u8>>,
    pub kb_ie: bool,
    pub disp: Option<Vec<u8>>,
    pub depth: u64,
    pub frames: Vec<RFrame>,
    pub sigs: BTreeMap<u16, Sig>,
    pub count: u64,
    /// accesses of the last step, I/O page included
    pub acc: Vec<(u16, u8)>,
    pub ev: Ev,
    /// set when the step's RTI popped a PSR with bits outside the architecture's fields
    pub odd_psr: bool,
    /// set when the step did something the ISA gives no meaning to (see the places that set it)
    pub weird: bool,
}
pub fn cc_of(v: u16) -> u16 {
    if v == 0 {
        2
    } else if v & 0x8000 != 0 {
        4
    } else {
        1
    }
}
/// PSR with only architectural fields and exactly one condition code.
pub fn canon_psr(v: u16) -> u16 {
    let cc = v & 7;
    (v & 0x8700) | if cc == 1 || cc == 2 || cc == 4 { cc } else { 2 }
}
impl RefSim {
    pub fn new(mem: Vec<u16>) -> RefSim {
        assert_eq!(mem.len(), 65536);
        RefSim {
            mem,
            r: [0; 8],
            pc: 0x3000,
            psr: 0x8002,
            saved_sp: 0x3000,
            mcr: false,
            iregs: [(PSR_PORT, IReg::Psr), (MCR_PORT, IReg::Mcr)].into_iter().collect(),
            real_traps: false,
            ignore_priv: false,
            prefetch: false,
            kb: None,
            kb_ie: false,
            disp: None,
            depth: 0,
            frames: vec![],
            sigs: BTreeMap::new(),
            count: 0,
            acc: vec![],
            ev: Ev::Halt,
            odd_psr: false,
            weird: false,
        }
    }
    pub fn user(&self) -> bool {
        self.psr & 0x8000 != 0
    }
    pub fn prio(&self) -> u8 {
        (self.psr >> 8 & 7) as u8
    }
    pub fn prefetch_pc(&self) -> u16 {
        if self.prefetch { self.pc } else { self.pc.wrapping_sub(1) }
    }
    pub fn allowed(&self, a: u16) -> bool {
        !self.user() || self.ignore_priv || (a >= USER && a < IO)
    }
    fn note(&mut self, a: u16, k: u8) {
        match self.acc.iter_mut().find(|x| x.0 == a) {
            Some(x) => x.1 |= k,
            None => self.acc.push((a, k)),
        }
    }
    fn ireg_read(&self, i: IReg) -> u16 {
        match i {
            IReg::Pc => self.pc,
            IReg::Psr => self.psr,
            IReg::Mcr => (self.mcr as u16) << 15,
            IReg::SavedSp => self.saved_sp,
        }
    }
    fn ireg_write(&mut self, i: IReg, v: u16) {
        match i {
            IReg::Pc => self.pc = v,
            IReg::Psr => self.psr = canon_psr(v),
            IReg::Mcr => self.mcr = v & 0x8000 != 0,
            IReg::SavedSp => self.saved_sp = v,
        }
    }
    fn load_raw(&mut self, a: u16) -> u16 {
        if a >= IO {
            let v = if let Some(&i) = self.iregs.get(&a) {
                Some(self.ireg_read(i))
            } else {
                match a {
                    KBSR => self.kb.as_ref().map(|q| ((!q.is_empty()) as u16) << 15 | (self.kb_ie as u16) << 14),
                    KBDR => self.kb.as_mut().and_then(|q| q.pop_front()).map(|b| b as u16),
                    DSR => self.disp.as_ref().map(|_| 0x8000),
                    _ => None,
                }
            };
            if let Some(v) = v {
                self.mem[a as usize] = v;
            }
        }
        self.note(a, READ);
        self.mem[a as usize]
    }
    fn store_raw(&mut self, a: u16, v: u16) {
        let mut done = true;
        if a >= IO {
            if let Some(&i) = self.iregs.get(&a) {
                self.ireg_write(i, v);
            } else {
                done = match a {
                    KBSR if self.kb.is_some() => {
                        self.kb_ie = v & 0x4000 != 0;
                        true
                    }
                    DDR => match &mut self.disp {
                        Some(d) => {
                            d.push(v as u8);
                            true
                        }
                        None => false,
                    },
                    _ => false,
                };
            }
        }
        if done {
            self.note(a, WRITTEN | if self.mem[a as usize] != v { MODIFIED } else { 0 });
            self.mem[a as usize] = v;
        }
    }
    fn load(&mut self, a: u16) -> Result<u16, E> {
        if self.allowed(a) { Ok(self.load_raw(a)) } else { Err(E::Access) }
    }
    fn store(&mut self, a: u16, v: u16) -> Result<(), E> {
        if self.allowed(a) {
            self.store_raw(a, v);
            Ok(())
        } else {
            Err(E::Access)
        }
    }
    fn swap_sp(&mut self) {
        std::mem::swap(&mut self.saved_sp, &mut self.r[6]);
    }
    fn push_frame(&mut self, caller: u16, callee: u16, kind: Kind) {
        self.depth += 1;
        let sig = match kind {
            Kind::Sub | Kind::Int => self.sigs.get(&callee).cloned(),
            Kind::Trap => match callee {
                0x21 | 0x22 | 0x24 => Some(Sig::Regs(vec![0])),
                _ => None,
            },
        };
        let args = match sig {
            None => vec![],
            Some(Sig::Regs(v)) => v.iter().map(|&i| self.r[i as usize]).collect(),
            Some(Sig::Stack(n)) => (0..n).map(|i| self.mem[self.r[6].wrapping_add(i) as usize]).collect(),
        };
        self.frames.push(RFrame { caller, callee, kind, args });
    }
    fn pop_frame(&mut self) {
        self.depth = self.depth.saturating_sub(1);
        self.frames.pop();
    }
    /// Trap, exception or interrupt entry through the table entry at `vect`.
    fn enter(&mut self, vect: u16, prio: Option<u8>) {
        let (psr, pc) = (self.psr, self.pc);
        if self.user() {
            self.swap_sp();
        }
        self.psr &= 0x7FFF;
        let sp = self.r[6];
        // A supervisor stack laid over memory-mapped processor registers: the push rewrites the state being pushed.
        if self.iregs.contains_key(&sp.wrapping_sub(1)) || self.iregs.contains_key(&sp.wrapping_sub(2)) {
            self.weird = true;
        }
        self.r[6] = sp.wrapping_sub(2);
        self.store_raw(sp.wrapping_sub(1), psr);
        self.store_raw(sp.wrapping_sub(2), pc);
        self.psr = (self.psr & !7) | 2;
        if let Some(p) = prio {
            self.psr = (self.psr & !0x0700) | (p as u16) << 8;
        }
        let target = self.load_raw(vect);
        self.push_frame(self.prefetch_pc(), vect, if prio.is_some() { Kind::Int } else { Kind::Trap });
        self.pc = target;
    }
    fn fault(&mut self, e: E) -> Out {
        self.ev = Ev::Fault(e);
        if !self.real_traps {
            return Out::Err(e);
        }
        let v = match e {
            E::Privilege => 0x100,
            E::Illegal | E::Format => 0x101,
            E::Access => 0x102,
        };
        self.enter(v, None);
        Out::Ok
    }
    /// The request that would be taken next, given the requests pending in each device slot (later slots win ties).
    pub fn arbitrate(&self, pend: &[(u8, u8)]) -> Option<(u8, u8)> {
        let kb = (self.kb_ie && self.kb.as_ref().is_some_and(|q| !q.is_empty())).then_some((KB_VECT, KB_PRIO));
        let mut best: Option<(u8, u8)> = None;
        for c in kb.into_iter().chain(pend.iter().copied()) {
            if best.is_none_or(|b| c.1 >= b.1) {
                best = Some(c);
            }
        }
        best
    }
    /// One step. `pend`: vectored requests raised by the other devices at this boundary, in device order.
    pub fn step(&mut self, pend: &[(u8, u8)]) -> Out {
        self.acc.clear();
        self.prefetch = true;
        self.odd_psr = false;
        self.weird = false;
        if let Some((vect, prio)) = self.arbitrate(pend) {
            if prio > self.prio() {
                self.ev = Ev::Int { vect, prio };
                self.enter(0x100 + vect as u16, Some(prio));
                return Out::Ok;
            }
        }
        let w = match self.load(self.pc) {
            Ok(w) => w,
            Err(e) => return self.fault(e),
        };
        let ins = match Ins::dec(w) {
            Ok(i) => i,
            Err(DecErr::Illegal) => return self.fault(E::Illegal),
            Err(DecErr::Format) => return self.fault(E::Format),
        };
        self.pc = self.pc.wrapping_add(1);
        self.prefetch = false;
        self.ev = Ev::Ins(ins);
        match self.exec(ins) {
            Ok(o) => o,
            Err(e) => self.fault(e),
        }
    }
    fn setr(&mut self, d: u8, v: u16) {
        self.r[d as usize] = v;
        self.psr = (self.psr & !7) | cc_of(v);
    }
    fn exec(&mut self, ins: Ins) -> Result<Out, E> {
        let g = |s: &Self, i: u8| s.r[i as usize];
        let rel = self.pc;
        let at = |o: i16| rel.wrapping_add(o as u16);
        match ins {
            Ins::Br(cc, o) => {
                if cc as u16 & self.psr & 7 != 0 {
                    self.pc = at(o);
                }
            }
            Ins::AddR(d, a, b) => self.setr(d, g(self, a).wrapping_add(g(self, b))),
            Ins::AddI(d, a, i) => self.setr(d, g(self, a).wrapping_add(i as u16)),
            Ins::AndR(d, a, b) => self.setr(d, g(self, a) & g(self, b)),
            Ins::AndI(d, a, i) => self.setr(d, g(self, a) & i as u16),
            Ins::Not(d, a) => self.setr(d, !g(self, a)),
            Ins::Ld(d, o) => {
                let v = self.load(at(o))?;
                self.setr(d, v);
            }
            Ins::Ldi(d, o) => {
                let p = self.load(at(o))?;
                let v = self.load(p)?;
                self.setr(d, v);
            }
            Ins::Ldr(d, b, o) => {
                let v = self.load(g(self, b).wrapping_add(o as u16))?;
                self.setr(d, v);
            }
            Ins::St(s, o) => self.store(at(o), g(self, s))?,
            Ins::Sti(s, o) => {
                let p = self.load(at(o))?;
                self.store(p, g(self, s))?;
            }
            Ins::Str(s, b, o) => self.store(g(self, b).wrapping_add(o as u16), g(self, s))?,
            Ins::Lea(d, o) => self.r[d as usize] = at(o),
            Ins::Jsr(o) => self.call(at(o)),
            Ins::Jsrr(b) => self.call(g(self, b)),
            Ins::Jmp(b) => {
                self.pc = g(self, b);
                if b == 7 {
                    self.pop_frame();
                }
            }
            Ins::Rti => {
                if self.user() && !self.ignore_priv {
                    return Err(E::Privilege);
                }
                // RTI in user mode with privilege checks off: the ISA does not say which stack is switched to.
                self.weird |= self.user();
                let sp = self.r[6];
                let pc = self.load(sp)?;
                let psr = self.load(sp.wrapping_add(1))?;
                self.r[6] = sp.wrapping_add(2);
                self.pc = pc;
                self.psr = psr;
                self.odd_psr = canon_psr(psr) != psr;
                if self.user() {
                    self.swap_sp();
                }
                self.pop_frame();
            }
            Ins::Trap(v) => {
                if v == 0x25 && !self.real_traps {
                    self.pc = self.pc.wrapping_sub(1);
                    self.prefetch = true;
                    self.ev = Ev::Halt;
                    return Ok(Out::Halt);
                }
                self.enter(v as u16, None);
            }
        }
        self.count += 1;
        Ok(Out::Ok)
    }
    fn call(&mut self, target: u16) {
        self.r[7] = self.pc;
        self.push_frame(self.prefetch_pc(), target, Kind::Sub);
        self.pc = target;
    }
}
