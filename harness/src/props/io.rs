//! C32, C33, C34: I/O dispatch, contention on the keyboard and display buffers, timers.
use crate::isa::*;
use crate::pbt::*;
use crate::refsim::*;
use crate::rig::*;
use lc3_ensemble::sim::device::{DeviceHandler, ExternalDevice, TimerDevice};
use lc3_ensemble::sim::mem::Word;
use lc3_ensemble::sim::{MMapInternalErr, MemAccessCtx, Simulator};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Mutex, RwLock};
use std::time::Duration;

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C32",
            rule: "a case is one sequence of device and mapping operations with reads and writes checked against a port table; non-trivial = the sequence changed the owner of a port at least once",
            assumptions: &[
                "devices are recording devices that answer every access, or refuse every access",
                "a failed add past 65535 devices is accepted, as the documentation of add_device says",
            ],
            suites: vec![exhaustive("short", ALPHA.pow(SHORT), c32_short), suite("random", 200_000, 5_000_000, c32_random), suite("many", 4, 40, c32_many)],
        },
        Property {
            id: "C33",
            rule: "a case is one I/O program, its input, and a pattern of lock holding by a second thread; non-trivial = a lock was held during at least one instruction that accesses a device",
            assumptions: &[
                "the other thread releases the lock in the end: when the step is done, or after 0.4 ms without progress (a step may wait for the lock)",
                "the expected output of OS traps with a prompt is that of an uncontended run",
            ],
            suites: vec![exhaustive("windows", WIN_N, c33_windows), exhaustive("bits", BITS_N, c33_bits), suite("random", 4_000, 100_000, c33_random)],
        },
        Property {
            id: "C34",
            rule: "a case is one timer (or two equal ones) polled over a history of enables, resets and range changes, or one timer inside a simulator; non-trivial = at least two interrupts were raised with the range unchanged between them",
            assumptions: &["an interval is judged when no range change, reset or disable falls between its two interrupts", "a range of exactly 0 is not judged"],
            suites: vec![suite("direct", 60_000, 2_000_000, c34_direct), suite("ranges", 20_000, 600_000, c34_ranges), suite("sim", 20_000, 200_000, c34_sim)],
        },
    ]
}

// ------------------------------------------------------------------ C32

struct Table {
    sim: Simulator,
    log: Log,
    iregs: BTreeMap<u16, IReg>,
    /// port -> device id (devices 1 and 2 own their ports forever)
    owner: BTreeMap<u16, u16>,
    /// device id -> (tag, answers), for devices that are attached
    devs: BTreeMap<u16, (u32, bool)>,
    ids: BTreeSet<u16>,
    tags: u32,
    ops: Vec<String>,
    changes: u32,
}
fn reg_value(sim: &Simulator, r: IReg, ssp: u16) -> u16 {
    match r {
        IReg::Pc => sim.pc,
        IReg::Psr => sim.psr().get(),
        IReg::Mcr => (sim.mcr().load(Ordering::Relaxed) as u16) << 15,
        IReg::SavedSp => ssp,
    }
}
impl Table {
    fn new(mut sim: Simulator) -> Table {
        sim.device_handler = DeviceHandler::new();
        for p in IO..=0xFFFF {
            sim.munmap_internal(p);
        }
        for (p, r) in [(PSR_PORT, IReg::Psr), (MCR_PORT, IReg::Mcr)] {
            sim.mmap_internal(p, to_ireg(r)).expect("mapping");
        }
        Self::fresh(sim)
    }
    fn fresh(sim: Simulator) -> Table {
        Table {
            sim,
            log: Default::default(),
            iregs: BTreeMap::from([(PSR_PORT, IReg::Psr), (MCR_PORT, IReg::Mcr)]),
            owner: BTreeMap::from([(KBSR, 1), (KBDR, 1), (DSR, 2), (DDR, 2)]),
            devs: BTreeMap::new(),
            ids: BTreeSet::from([0, 1, 2]),
            tags: 0,
            ops: vec![],
            changes: 0,
        }
    }
    fn device(&mut self, answers: bool) -> Recorder {
        self.tags += 1;
        Recorder { tag: self.tags, log: self.log.clone(), answers }
    }
    fn add(&mut self, ports: &[u16], answers: bool) -> Res {
        let d = self.device(answers);
        let tag = self.tags;
        self.ops.push(format!("add #{tag} {ports:x?}{}", if answers { "" } else { " (refusing)" }));
        let want = ports.iter().all(|p| *p >= IO && !self.owner.contains_key(p));
        let sim = &mut self.sim;
        let h = &mut sim.device_handler;
        // the crate lets a device be shared behind a lock: such a device must behave the same
        let got: Result<u16, u32> = match tag % 6 {
            3 => {
                let d = Arc::new(RwLock::new(d));
                nopanic("add_device", || h.add_device(d, ports).map_err(|d| d.read().unwrap().tag))?
            }
            4 => {
                let d = Arc::new(Mutex::new(d));
                nopanic("add_device", || h.add_device(d, ports).map_err(|d| d.lock().unwrap().tag))?
            }
            _ => nopanic("add_device", || h.add_device(d, ports).map_err(|d| d.tag))?,
        };
        match got {
            Ok(id) => {
                ensure!(want, "c32-add", "add_device accepted {ports:x?} although not every port is a free I/O address (owned: {:x?}); {}", self.owner, self.show());
                ensure!(self.ids.insert(id), "c32-id", "add_device returned id {id}, which was used before; {}", self.show());
                for p in ports {
                    self.owner.insert(*p, id);
                }
                self.devs.insert(id, (tag, answers));
                self.changes += !ports.is_empty() as u32;
            }
            Err(back) => {
                ensure!(!want, "c32-add", "add_device refused {ports:x?} although all are free I/O addresses; {}", self.show());
                ensure!(back == tag, "c32-add", "add_device gave back another device; {}", self.show());
            }
        }
        Ok(())
    }
    fn remove(&mut self, id: u16) -> Res {
        self.ops.push(format!("remove_device {id}"));
        let sim = &mut self.sim;
        nopanic("remove_device", || sim.device_handler.remove_device(id))?;
        if self.devs.remove(&id).is_some() {
            self.changes += 1;
        }
        if id > 2 {
            self.owner.retain(|_, o| *o != id);
        }
        Ok(())
    }
    fn set(&mut self, id: u16, answers: bool) {
        let d = self.device(answers);
        let tag = self.tags;
        self.ops.push(format!("set_{} #{tag}", if id == 1 { "keyboard" } else { "display" }));
        let h = &mut self.sim.device_handler;
        match (id, tag % 3) {
            (1, 0) => h.set_keyboard(Arc::new(RwLock::new(d))),
            (1, _) => h.set_keyboard(d),
            (_, 0) => h.set_display(Arc::new(Mutex::new(d))),
            _ => h.set_display(d),
        }
        self.devs.insert(id, (tag, answers));
        self.changes += 1;
    }
    fn mmap(&mut self, p: u16, r: IReg) -> Res {
        self.ops.push(format!("mmap {p:04x} {r:?}"));
        match self.sim.mmap_internal(p, to_ireg(r)) {
            Ok(()) => {
                ensure!(p >= IO, "c32-mmap", "mmap_internal accepted {p:04x}");
                ensure!(!self.iregs.contains_key(&p), "c32-mmap", "mmap_internal mapped {p:04x}, which is already mapped; {}", self.show());
                self.iregs.insert(p, r);
                self.changes += 1;
            }
            Err(MMapInternalErr::NotInIORange) => ensure!(p < IO, "c32-mmap", "mmap_internal: {p:04x} is not an I/O address?"),
            // (whether a port of a device may be mapped is not the property's business: then nothing changes)
            Err(MMapInternalErr::AddrAlreadyMapped) => ensure!(self.iregs.contains_key(&p) || self.owner.contains_key(&p), "c32-mmap", "mmap_internal refused {p:04x}, which is free; {}", self.show()),
        }
        Ok(())
    }
    fn munmap(&mut self, p: u16) -> Res {
        self.ops.push(format!("munmap {p:04x}"));
        let got = self.sim.munmap_internal(p);
        let want = self.iregs.remove(&p).is_some();
        ensure!(got == want, "c32-mmap", "munmap_internal({p:04x}) = {got}; {}", self.show());
        self.changes += want as u32;
        Ok(())
    }
    fn show(&self) -> String {
        format!("after [{}]", self.ops.join("; "))
    }
    fn target(&self, p: u16) -> Result<IReg, Option<(u32, bool)>> {
        match self.iregs.get(&p) {
            Some(r) => Ok(*r),
            None => Err(self.owner.get(&p).and_then(|o| self.devs.get(o)).copied()),
        }
    }
    /// What the read did: value and device log.
    fn judge_read(&self, p: u16, eff: bool, v: u16, before: Word, ssp: u16, extra: &str) -> Res {
        let seen: Vec<_> = self.log.lock().unwrap().drain(..).collect();
        match self.target(p) {
            Ok(r) => {
                let want = reg_value(&self.sim, r, ssp);
                ensure!(v == want, "c32-read", "read of {p:04x}{extra}: {v:04x}, it is mapped to {r:?} = {want:04x}; {}", self.show());
                ensure!(seen.is_empty(), "c32-read", "read of {p:04x}{extra}, mapped to {r:?}, reached a device: {seen:x?}; {}", self.show());
            }
            Err(Some((t, ans))) => {
                ensure!(seen == [(t, Io::Read(p, eff))], "c32-read", "read of {p:04x}{extra}, owned by #{t}, was seen as {seen:x?}; {}", self.show());
                let want = if ans { recorder_value(t, p) } else { before.get() };
                ensure!(v == want, "c32-read", "read of {p:04x}{extra}, owned by #{t}: {v:04x}, expected {want:04x}; {}", self.show());
            }
            Err(None) => {
                ensure!(seen.is_empty(), "c32-read", "read of unowned {p:04x}{extra} reached {seen:x?}; {}", self.show());
                ensure!(v == before.get(), "c32-read", "read of unowned {p:04x}{extra}: {v:04x}, memory has {:04x}; {}", before.get(), self.show());
            }
        }
        Ok(())
    }
    fn judge_write(&self, p: u16, v: u16, before: Word, old: [u16; 4], new: [u16; 4], extra: &str) -> Res {
        let seen: Vec<_> = self.log.lock().unwrap().drain(..).collect();
        let mut want = old;
        match self.target(p) {
            Ok(r) => {
                match r {
                    IReg::Pc => want[0] = v,
                    IReg::Psr => want[1] = new[1], // judged below
                    IReg::Mcr => want[2] = v & 0x8000,
                    IReg::SavedSp => want[3] = v,
                }
                if r == IReg::Psr && is_canon(v) {
                    want[1] = v;
                }
                ensure!(seen.is_empty(), "c32-write", "write of {v:04x} to {p:04x}{extra}, mapped to {r:?}, reached a device: {seen:x?}; {}", self.show());
            }
            Err(Some((t, _))) => ensure!(seen == [(t, Io::Write(p, v))], "c32-write", "write of {v:04x} to {p:04x}{extra}, owned by #{t}, was seen as {seen:x?}; {}", self.show()),
            Err(None) => {
                ensure!(seen.is_empty(), "c32-write", "write to unowned {p:04x}{extra} reached {seen:x?}; {}", self.show());
                ensure!(self.sim.mem[p] == before, "c32-unowned", "write of {v:04x} to unowned {p:04x}{extra} changed memory from {before:?} to {:?}; {}", self.sim.mem[p], self.show());
            }
        }
        ensure!(new == want, "c32-write", "write of {v:04x} to {p:04x}{extra}: [PC, PSR, MCR, saved SP] = {new:x?}, expected {want:x?}; {}", self.show());
        Ok(())
    }
    fn regs(&mut self) -> [u16; 4] {
        let s = get_ssp_at(&mut self.sim, &self.iregs);
        [self.sim.pc, self.sim.psr().get(), (self.sim.mcr().load(Ordering::Relaxed) as u16) << 15, s]
    }
    fn read(&mut self, p: u16, eff: bool) -> Res {
        let ssp = self.regs()[3];
        let before = self.sim.mem[p];
        let c = MemAccessCtx { io_effects: eff, track_access: false, ..MemAccessCtx::omnipotent() };
        let sim = &mut self.sim;
        let v = match nopanic("read_mem", || sim.read_mem(p, c))? {
            Ok(v) => v.get(),
            Err(e) => return fail("c32-read", format!("read_mem({p:04x}): {e:?}")),
        };
        self.judge_read(p, eff, v, before, ssp, "")
    }
    fn write(&mut self, p: u16, v: u16) -> Res {
        let old = self.regs();
        let before = self.sim.mem[p];
        let c = MemAccessCtx { io_effects: true, track_access: false, ..MemAccessCtx::omnipotent() };
        let sim = &mut self.sim;
        if let Err(e) = nopanic("write_mem", || sim.write_mem(p, Word::new_init(v), c))? {
            return fail("c32-write", format!("write_mem({p:04x}): {e:?}"));
        }
        let new = self.regs();
        self.judge_write(p, v, before, old, new, "")
    }
    /// The same through an instruction.
    fn exec(&mut self, p: u16, v: u16, kind: u64) -> Res {
        self.sim.flags.ignore_privilege = true;
        self.sim.pc = 0x3000;
        set_user(&mut self.sim, &self.iregs);
        self.sim.mem[0x3010] = Word::new_init(p);
        self.sim.reg_file[reg(1)] = Word::new_init(p);
        self.sim.reg_file[reg(2)] = Word::new_init(v);
        let (ins, store) = match kind {
            0 => (Ins::Ldr(0, 1, 0), false),
            1 => (Ins::Ldi(0, 15), false),
            2 => (Ins::Str(2, 1, 0), true),
            _ => (Ins::Sti(2, 15), true),
        };
        self.sim.mem[0x3000] = Word::new_init(ins.enc());
        let old = self.regs();
        let before = self.sim.mem[p];
        self.log.lock().unwrap().clear();
        let sim = &mut self.sim;
        let r = nopanic("step_in", || sim.step_in())?;
        let extra = format!(" by {ins:?}");
        ensure!(r.is_ok(), "c32-exec", "{extra} of {p:04x}: {r:?}; {}", self.show());
        if store {
            let new = self.regs();
            let mut old = old;
            old[0] = 0x3001;
            self.judge_write(p, v, before, old, new, &extra)
        } else {
            // registers are read before the step changes the condition codes
            let got = self.sim.reg_file[reg(0)].get();
            match self.target(p) {
                Ok(IReg::Pc) => {
                    self.log.lock().unwrap().clear();
                    ensure!(got == 0x3001 || got == 0x3000, "c32-read", "{extra} of the PC: {got:04x}");
                    Ok(())
                }
                Ok(IReg::Psr) => {
                    self.log.lock().unwrap().clear();
                    ensure!(got == old[1], "c32-read", "{extra} of the PSR: {got:04x}, it was {:04x}; {}", old[1], self.show());
                    Ok(())
                }
                _ => self.judge_read(p, true, got, before, old[3], &extra),
            }
        }
    }
    /// Reads every port in `ports`, and writes to those that are not registers or are plain.
    fn scan(&mut self, ports: &[u16], salt: u16) -> Res {
        for &p in ports {
            self.read(p, p & 1 == 0)?;
            let v = match self.iregs.get(&p) {
                Some(IReg::Psr) => 0x8002,
                _ => salt ^ p,
            };
            self.write(p, v)?;
        }
        Ok(())
    }
}
fn is_canon(v: u16) -> bool {
    canon_psr(v) == v && [1, 2, 4].contains(&(v & 7))
}
fn free_port(iregs: &BTreeMap<u16, IReg>) -> u16 {
    (0xFE40..0xFFFF).find(|p| !iregs.contains_key(p)).unwrap()
}
fn get_ssp_at(sim: &mut Simulator, iregs: &BTreeMap<u16, IReg>) -> u16 {
    let port = free_port(iregs);
    let old = sim.mem[port];
    sim.mmap_internal(port, to_ireg(IReg::SavedSp)).expect("temporary mapping");
    let v = sim.read_mem(port, MemAccessCtx { track_access: false, ..MemAccessCtx::omnipotent() }).expect("register read").get();
    sim.munmap_internal(port);
    sim.mem[port] = old;
    v
}
fn set_user(sim: &mut Simulator, iregs: &BTreeMap<u16, IReg>) {
    let port = free_port(iregs);
    let old = sim.mem[port];
    sim.mmap_internal(port, to_ireg(IReg::Psr)).expect("temporary mapping");
    sim.write_mem(port, Word::new_init(0x8002), MemAccessCtx { track_access: false, ..MemAccessCtx::omnipotent() }).expect("PSR write");
    sim.munmap_internal(port);
    sim.mem[port] = old;
}
const ALPHA: u64 = 16;
const SHORT: u32 = 5;
thread_local!(static SIM: RefCell<Option<Simulator>> = const { RefCell::new(None) });
/// Every sequence of SHORT operations over a small alphabet, then reads and writes of every port involved.
fn c32_short(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut c = src.below(ALPHA.pow(SHORT));
    let key = c;
    let sim = SIM.with_borrow_mut(Option::take).unwrap_or_else(|| Simulator::new(flags(false, false, false, false)));
    let mut t = Table::new(sim);
    for _ in 0..SHORT {
        let op = c % ALPHA;
        c /= ALPHA;
        match op {
            0 => t.add(&[0xFE10], true)?,
            1 => t.add(&[0xFE11, 0xFE10], true)?,
            2 => t.add(&[0xFE11], false)?,
            3 => t.add(&[KBDR], true)?,
            4 => t.add(&[0xFE12, 0xFDFF], true)?,
            5 => t.remove(3)?,
            6 => t.remove(4)?,
            7 => t.remove(1)?,
            8 => t.remove(2)?,
            9 => t.set(1, true),
            10 => t.set(2, true),
            11 => t.mmap(0xFE10, IReg::Pc)?,
            12 => t.mmap(KBSR, IReg::SavedSp)?,
            13 => t.munmap(0xFE10)?,
            14 => t.munmap(PSR_PORT)?,
            _ => t.remove(0)?,
        }
    }
    ctx.describe(|| t.show());
    ctx.key(&key);
    ctx.nontrivial_if(t.changes > 0);
    t.scan(&[KBSR, KBDR, DSR, DDR, 0xFE10, 0xFE11, 0xFE12, PSR_PORT, MCR_PORT, 0xFFFF], 0x1357)?;
    t.exec(0xFE10, 0x4321, 0)?;
    t.exec(KBDR, 0x4321, 2)?;
    SIM.with_borrow_mut(|s| *s = Some(t.sim));
    Ok(())
}
fn c32_random(src: &mut Src, ctx: &mut Ctx) -> Res {
    let f = flags(src.bool(), src.bool(), false, src.bool());
    let mut t = Table::fresh(Simulator::new(f));
    let spots: Vec<u16> = match src.below(3) {
        0 => vec![0xFE10, 0xFE11, 0xFE12],
        1 => vec![KBSR, KBDR, DSR, DDR, 0xFE08, PSR_PORT, MCR_PORT, 0xFFFF, 0xFE01],
        _ => (0..6).map(|_| 0xFE00 + src.below(512) as u16).collect(),
    };
    let port = |src: &mut Src| match src.weighted(&[12, 2, 1]) {
        0 => *src.pick(&spots),
        1 => 0xFE00 + src.below(512) as u16,
        _ => *src.pick(&[0xFDFFu16, 0x3000, 0, 0x2FFF, 0xFE00]),
    };
    let n = src.range(2, 40);
    for _ in 0..n {
        match src.weighted(&[8, 5, 2, 2, 3, 3, 6, 6, 5]) {
            0 => {
                let k = src.weighted(&[1, 5, 4, 2, 1]);
                let mut ps: Vec<u16> = (0..k).map(|_| port(src)).collect();
                if src.chance(1, 10) {
                    let a = 0xFE00 + src.below(480) as u16;
                    ps = (a..a + 1 + src.below(32) as u16).collect();
                }
                let ans = src.chance(3, 4);
                t.add(&ps, ans)?
            }
            1 => {
                let id = match src.weighted(&[8, 2, 1]) {
                    0 => {
                        let v: Vec<u16> = t.ids.iter().copied().collect();
                        *src.pick(&v)
                    }
                    1 => src.below(12) as u16,
                    _ => src.u16(),
                };
                t.remove(id)?
            }
            2 => {
                let a = src.chance(3, 4);
                t.set(1, a)
            }
            3 => {
                let a = src.chance(3, 4);
                t.set(2, a)
            }
            4 => {
                let (p, r) = (port(src), *src.pick(&[IReg::Pc, IReg::Psr, IReg::Mcr, IReg::SavedSp]));
                t.mmap(p, r)?
            }
            5 => {
                let p = port(src);
                t.munmap(p)?
            }
            6 => {
                let (p, e) = (port(src), src.bool());
                if p >= IO {
                    t.read(p, e)?
                }
            }
            7 => {
                let (p, v) = (port(src), src.u16());
                if p >= IO {
                    t.write(p, v)?
                }
            }
            _ => {
                let (p, v, k) = (port(src), src.u16(), src.below(4));
                if p >= IO {
                    t.exec(p, v, k)?
                }
            }
        }
        let o = &t;
        ctx.describe(|| o.show());
    }
    ctx.nontrivial_if(t.changes > 0);
    ctx.class_n(t.changes as u64, "owner changes");
    ctx.class_if(t.iregs.keys().any(|p| t.owner.contains_key(p)), "a register mapped over a device port");
    let all: Vec<u16> = if src.chance(1, 4) { (IO..=0xFFFF).collect() } else { spots };
    t.scan(&all, 0x2468)
}
/// Far more devices than ids.
fn c32_many(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut t = Table::fresh(Simulator::new(flags(false, false, false, false)));
    let keep = 1 + src.below(5) as u16;
    ctx.describe(|| format!("70000 additions, the last {keep} devices stay attached"));
    ctx.nontrivial();
    let mut live: std::collections::VecDeque<(u16, u16)> = Default::default();
    let mut full = 0;
    for k in 0..70_000u32 {
        let p = 0xFE40 + (k % 64) as u16;
        let d = t.device(true);
        match t.sim.device_handler.add_device(d, &[p]) {
            Ok(id) => {
                ensure!(full == 0, "c32-id", "addition {k} got id {id} after one had failed for lack of ids");
                ensure!(t.ids.insert(id), "c32-id", "addition {k} got id {id} a second time");
                live.push_back((id, p));
                t.devs.insert(id, (t.tags, true));
                t.owner.insert(p, id);
            }
            Err(_) => {
                ensure!(t.ids.len() >= 65_000, "c32-add", "addition {k} to a free port refused, {} ids were used", t.ids.len());
                full += 1;
            }
        }
        if live.len() as u16 > keep {
            let (id, p) = live.pop_front().unwrap();
            t.sim.device_handler.remove_device(id);
            t.devs.remove(&id);
            t.owner.remove(&p);
        }
        if k % 997 == 0 || k > 65_520 && k < 65_545 {
            t.read(p, true)?;
            t.write(p, k as u16)?;
        }
    }
    ctx.evals += 70_000;
    let ports: Vec<u16> = (0xFE40..0xFE80).collect();
    t.scan(&ports, 7)
}

// ------------------------------------------------------------------ C33

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Mode {
    Free,
    Read,
    Write,
}
#[derive(Clone, Debug)]
struct Hold {
    /// the holder died with the locks (in the moment before it holds them again)
    poison: bool,
    kb: Mode,
    ds: Mode,
    /// keys that arrive while the lock is held (only with Write)
    push: Vec<u8>,
}
enum Cmd {
    Hold(Hold),
    Release,
}
struct Holder {
    tx: Option<Sender<Cmd>>,
    ack: Receiver<()>,
    h: Option<std::thread::JoinHandle<()>>,
    prog: Arc<AtomicU64>,
}
fn rlock<T>(l: &std::sync::RwLock<T>) -> std::sync::RwLockReadGuard<'_, T> {
    l.read().unwrap_or_else(std::sync::PoisonError::into_inner)
}
fn wlock<T>(l: &std::sync::RwLock<T>) -> std::sync::RwLockWriteGuard<'_, T> {
    l.write().unwrap_or_else(std::sync::PoisonError::into_inner)
}
/// What a thread that dies while it holds the lock leaves behind.
fn poison<T>(l: &std::sync::RwLock<T>) {
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _g = wlock(l);
        std::panic::resume_unwind(Box::new(()));
    }));
}
impl Holder {
    fn new(kbuf: KBuf, dbuf: DBuf) -> Holder {
        let (tx, rx) = channel::<Cmd>();
        let (atx, ack) = channel();
        let prog: Arc<AtomicU64> = Default::default();
        let p2 = prog.clone();
        let h = std::thread::spawn(move || {
            'outer: while let Ok(c) = rx.recv() {
                if let Cmd::Hold(h) = c {
                    let (mut gk, mut rk, mut gd, mut rd) = (None, None, None, None);
                    if h.poison {
                        poison(&kbuf);
                        poison(&dbuf);
                    }
                    match h.kb {
                        Mode::Free => {}
                        Mode::Read => rk = Some(rlock(&kbuf)),
                        Mode::Write => {
                            let mut g = wlock(&kbuf);
                            g.extend(&h.push);
                            gk = Some(g);
                        }
                    }
                    match h.ds {
                        Mode::Free => {}
                        Mode::Read => rd = Some(rlock(&dbuf)),
                        Mode::Write => gd = Some(wlock(&dbuf)),
                    }
                    if atx.send(()).is_err() {
                        break;
                    }
                    let mut seen = p2.load(Ordering::Relaxed);
                    loop {
                        match rx.recv_timeout(Duration::from_micros(400)) {
                            Ok(_) => break,
                            Err(RecvTimeoutError::Disconnected) => break 'outer,
                            Err(RecvTimeoutError::Timeout) => {
                                let now = p2.load(Ordering::Relaxed);
                                if now == seen {
                                    // the step may be waiting
                                    (gk, rk, gd, rd) = (None, None, None, None);
                                }
                                seen = now;
                            }
                        }
                    }
                    drop((gk, rk, gd, rd));
                    if atx.send(()).is_err() {
                        break;
                    }
                }
            }
        });
        Holder { tx: Some(tx), ack, h: Some(h), prog }
    }
    fn hold(&self, h: Hold) {
        self.tx.as_ref().unwrap().send(Cmd::Hold(h)).expect("helper");
        self.ack.recv().expect("helper");
    }
    fn release(&self) {
        self.tx.as_ref().unwrap().send(Cmd::Release).expect("helper");
        self.ack.recv().expect("helper");
    }
}
impl Drop for Holder {
    fn drop(&mut self) {
        self.tx = None;
        if let Some(h) = self.h.take() {
            let _ = h.join();
        }
    }
}
const NKIND: u64 = 6;
/// I/O programs: what they do with `n` input bytes.
pub(crate) fn io_prog(kind: u64, n: usize, real: bool, bytes: &[u8]) -> Setup {
    let mut s = Setup::basic(real);
    s.r[3] = 0x4000;
    s.r[4] = n as u16;
    s.r[5] = 0x4000;
    s.r[6] = 0xF000;
    let code: Vec<Ins> = match kind {
        // echo
        0 => vec![Ins::Trap(0x20), Ins::Str(0, 3, 0), Ins::AddI(3, 3, 1), Ins::Trap(0x21), Ins::AddI(4, 4, -1), Ins::Br(1, -6), Ins::Trap(0x25)],
        // read all, then PUTS
        1 => vec![Ins::Trap(0x20), Ins::Str(0, 3, 0), Ins::AddI(3, 3, 1), Ins::AddI(4, 4, -1), Ins::Br(1, -5), Ins::AndI(1, 1, 0), Ins::Str(1, 3, 0), Ins::AddI(0, 5, 0), Ins::Trap(0x22), Ins::Trap(0x25)],
        // IN
        2 => vec![Ins::Trap(0x23), Ins::Str(0, 3, 0), Ins::AddI(3, 3, 1), Ins::AddI(4, 4, -1), Ins::Br(1, -5), Ins::Trap(0x25)],
        // polls the registers itself
        3 => {
            s.ignore_priv = true;
            let d = |at: i16, k: i16| 0x20 + k - at - 1;
            for (k, p) in [KBSR, KBDR, DSR, DDR].into_iter().enumerate() {
                s.pokes.push((0x3020 + k as u16, p));
            }
            vec![
                Ins::Ldi(1, d(0, 0)), Ins::Br(3, -2), Ins::Ldi(0, d(2, 1)), Ins::Str(0, 3, 0), Ins::AddI(3, 3, 1),
                Ins::Ldi(1, d(5, 2)), Ins::Br(3, -2), Ins::Sti(0, d(7, 3)), Ins::AddI(4, 4, -1), Ins::Br(1, -10), Ins::Trap(0x25),
            ]
        }
        // prints two strings, no input
        4 => {
            for (i, &b) in bytes.iter().enumerate() {
                s.pokes.push((0x5000 + i as u16, b.max(1) as u16));
            }
            s.pokes.push((0x5000 + bytes.len() as u16, 0));
            s.r[5] = 0x5000;
            vec![Ins::AddI(0, 5, 0), Ins::Trap(0x22), Ins::AddI(0, 5, 0), Ins::Trap(0x22), Ins::Trap(0x25)]
        }
        // PUTSP
        _ => {
            for (i, c) in bytes.chunks(2).enumerate() {
                s.pokes.push((0x5000 + i as u16, c[0].max(1) as u16 | (c.get(1).map_or(0, |x| (*x).max(1)) as u16) << 8));
            }
            s.pokes.push((0x5000 + bytes.len().div_ceil(2) as u16, 0));
            s.r[5] = 0x5000;
            vec![Ins::AddI(0, 5, 0), Ins::Trap(0x24), Ins::Trap(0x21), Ins::Trap(0x25)]
        }
    };
    s.pokes.extend(code.iter().enumerate().map(|(i, x)| (0x3000 + i as u16, x.enc())));
    s
}
fn takes_input(kind: u64) -> bool {
    kind < 4
}
/// Is the next instruction one that accesses an I/O address?
fn device_step(sim: &Simulator) -> bool {
    let pc = sim.pc;
    let m = |a: u16| sim.mem[a].get();
    let rel = |o: i16| pc.wrapping_add(1).wrapping_add(o as u16);
    match Ins::dec(m(pc)) {
        Ok(Ins::Ldi(_, o) | Ins::Sti(_, o)) => m(rel(o)) >= IO,
        Ok(Ins::Ldr(_, b, o) | Ins::Str(_, b, o)) => sim.reg_file[reg(b)].get().wrapping_add(o as u16) >= IO,
        Ok(Ins::Ld(_, o) | Ins::St(_, o)) => rel(o) >= IO,
        _ => false,
    }
}
struct Run {
    rg: Rig,
    hold: Option<Holder>,
}
/// Runs the program; `plan(step, device step number if it is one)` says what to hold from this step on for how many steps.
fn contend(kind: u64, bytes: &[u8], real: bool, prefill: usize, feed: &mut Vec<u8>, plan: &mut dyn FnMut(u64, Option<u64>) -> Option<(Hold, u64)>, ctx: &mut Ctx, desc: &str) -> Res {
    let mut st = io_prog(kind, bytes.len(), real, bytes);
    if bytes.iter().map(|b| *b as u64).sum::<u64>() % 4 == 0 {
        // keyboard interrupts on, but held off by the program's priority
        st.kb_ie = true;
        st.psr = (st.psr & !0x0700) | 0x0400;
        ctx.class("keyboard interrupts enabled, held off");
    }
    let peeks = bytes.len() % 2 == 1;
    let input: &[u8] = if takes_input(kind) { bytes } else { &[] };
    // without contention
    st.kb = Some(input.to_vec());
    let mut free = Rig::new(&st, false);
    let done = |s: &Simulator, pc: u16, cnt: u64| if real { !s.mcr().load(Ordering::Relaxed) } else { s.pc == pc && s.instructions_run == cnt && s.mem[pc].get() == 0xF025 };
    free.sim.mcr().store(true, Ordering::Relaxed);
    let mut steps = 0u64;
    loop {
        let (pc, cnt) = (free.sim.pc, free.sim.instructions_run);
        let sim = &mut free.sim;
        if let Err(e) = nopanic("step_in", || sim.step_in())? {
            return fail("c33-error", format!("uncontended run of {desc}: {e:?}"));
        }
        steps += 1;
        if done(&free.sim, pc, cnt) {
            break;
        }
        ensure!(steps < 3_000_000, "c33-stuck", "uncontended run of {desc} does not end (pc {pc:04x})");
    }
    let want_out = free.dbuf.read().unwrap().clone();
    if kind == 0 || kind == 1 || kind == 3 {
        ensure!(want_out.starts_with(input), "c33-output", "uncontended output of {desc}: {want_out:?}, the input is {input:?}");
    }
    let said: Vec<u8> = match kind {
        4 => bytes.iter().chain(bytes).map(|b| (*b).max(1)).collect(),
        5 => bytes.iter().map(|b| (*b).max(1)).chain([0]).collect(),
        _ => vec![],
    };
    ensure!(want_out.starts_with(&said), "c33-output", "uncontended output of {desc}: {want_out:?}, the program prints {said:?}");
    // with contention
    let pre = prefill.min(input.len());
    st.kb = Some(input[..pre].to_vec());
    *feed = input[pre..].to_vec();
    let rg = Rig::new(&st, false);
    rg.sim.mcr().store(true, Ordering::Relaxed);
    let h = Holder::new(rg.kbuf.clone(), rg.dbuf.clone());
    let mut r = Run { rg, hold: Some(h) };
    let (mut k, mut dev, mut left, mut held_dev) = (0u64, 0u64, 0u64, 0u64);
    // keys that are fed one by one arrive every 97 steps or faster; at most a few thousand steps are spent holding
    let limit = steps * 4 + 10_000 + 400 * feed.len() as u64;
    let out = loop {
        let sim = &mut r.rg.sim;
        let h = r.hold.as_ref().unwrap();
        let (pc, cnt) = (sim.pc, sim.instructions_run);
        let d = device_step(sim);
        if left == 0 {
            if let Some((mut what, len)) = plan(k, d.then_some(dev)) {
                if what.kb == Mode::Write && !feed.is_empty() {
                    what.push = feed.drain(..1).collect();
                }
                h.hold(what);
                left = len.max(1);
            } else if !feed.is_empty() && k % 97 == 96 {
                let b = feed.remove(0);
                wlock(&r.rg.kbuf).push_back(b);
            }
        }
        held_dev += (left > 0 && d) as u64;
        if peeks && k % 13 == 5 {
            // a debugger looks at the I/O registers: without effects
            for a in [KBSR, KBDR, DSR] {
                let _ = sim.read_mem(a, lc3_ensemble::sim::MemAccessCtx::omnipotent());
            }
        }
        let res = nopanic("step_in", || sim.step_in());
        h.prog.fetch_add(1, Ordering::Relaxed);
        if left > 0 {
            left -= 1;
            if left == 0 {
                h.release();
            }
        }
        match res? {
            Ok(()) => {}
            Err(e) => break fail("c33-error", format!("{desc}: {e:?} at {pc:04x}")),
        }
        k += 1;
        dev += d as u64;
        if done(sim, pc, cnt) {
            break Ok(());
        }
        if k > limit {
            break fail("c33-stuck", format!("{desc}: not finished after {k} steps (pc {pc:04x}), the uncontended run takes {steps}: output so far {:?}, keys left {:?}", r.rg.dbuf.try_read().map(|x| x.clone()), r.rg.kbuf.try_read().map(|x| x.clone())));
        }
    };
    if left > 0 {
        r.hold.as_ref().unwrap().release();
    }
    r.hold = None;
    out?;
    ctx.evals += 1;
    ctx.nontrivial_if(held_dev > 0);
    ctx.class_n(held_dev, "device accesses with a lock held");
    let got: Vec<u8> = rlock(&r.rg.dbuf).clone();
    ensure!(got == want_out, "c33-output", "{desc}: output {got:?}, every byte exactly once would be {want_out:?}");
    if takes_input(kind) {
        for (i, &b) in bytes.iter().enumerate() {
            let v = r.rg.sim.mem[0x4000 + i as u16].get();
            ensure!(v == b as u16, "c33-input", "{desc}: byte {i} received is {v:04x}, sent {b:02x}");
        }
        ensure!(rlock(&r.rg.kbuf).is_empty(), "c33-input", "{desc}: keys left: {:?}", rlock(&r.rg.kbuf));
    }
    Ok(())
}
const HOLDS: [(Mode, Mode); 6] = [(Mode::Write, Mode::Free), (Mode::Free, Mode::Write), (Mode::Write, Mode::Write), (Mode::Read, Mode::Free), (Mode::Free, Mode::Read), (Mode::Read, Mode::Read)];
fn hold_of(i: usize) -> Hold {
    Hold { kb: HOLDS[i].0, ds: HOLDS[i].1, push: vec![], poison: false }
}
const WIN_STEPS: u64 = 120;
const WIN_LENS: [u64; 3] = [1, 2, 6];
const WIN_N: u64 = NKIND * WIN_STEPS * 3;
/// One window of contention at every place of a short program (with both locks, or a single one).
fn c33_windows(src: &mut Src, ctx: &mut Ctx) -> Res {
    let c = src.below(WIN_N);
    let (kind, at, len) = (c % NKIND, c / NKIND % WIN_STEPS, WIN_LENS[(c / NKIND / WIN_STEPS) as usize]);
    let hi = (mix(&[c]) % 6) as usize;
    let hi = if hi == 3 || hi == 0 { 2 } else { hi };
    let bytes = [0x41 + (at % 26) as u8, 0x62];
    let real = at % 2 == 1;
    let desc = format!("program {kind} (real traps {real}) with {bytes:?}, {:?} held for {len} steps from step {at}", HOLDS[hi]);
    ctx.describe(|| desc.clone());
    ctx.key(&c);
    let mut feed = vec![];
    contend(kind, &bytes, real, 2, &mut feed, &mut |k, _| (k == at).then(|| (hold_of(hi), len)), ctx, &desc)
}
const BITS: u32 = 13;
const BITS_N: u64 = (1 << BITS) * 3;
/// Every pattern over the first BITS device accesses.
fn c33_bits(src: &mut Src, ctx: &mut Ctx) -> Res {
    let c = src.below(BITS_N);
    let (pat, which) = (c % (1 << BITS), c >> BITS);
    let kind = [0u64, 3, 1][which as usize];
    let hi = if pat.count_ones() % 3 == 0 { 5 } else { 2 };
    let bytes = [0x30 + (pat % 10) as u8];
    let desc = format!("program {kind} with {bytes:?}, {:?} held at the device accesses {pat:013b} (bit 0 first)", HOLDS[hi]);
    ctx.describe(|| desc.clone());
    ctx.key(&c);
    let mut feed = vec![];
    contend(kind, &bytes, which == 1, 1, &mut feed, &mut |_, d| d.filter(|d| *d < BITS as u64 && pat >> d & 1 == 1).map(|_| (hold_of(hi), 1)), ctx, &desc)
}
fn c33_random(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.below(NKIND);
    let long = src.chance(1, 4);
    let n = if src.chance(1, 50) { *src.pick(&[255usize, 256, 257, 300, 513, 1025]) } else { 1 + src.usize(if long { 60 } else { 10 }) };
    ctx.class_if(n > 255, "more than 255 bytes");
    let zero = kind == 1;
    let bytes: Vec<u8> = (0..n).map(|_| (src.below(256) as u8).max(zero as u8)).collect();
    let real = src.bool();
    let prefill = if src.bool() { n } else { src.usize(n + 1) };
    let only_dev = src.chance(2, 3);
    let dens = 1 + src.below(5);
    let bursts = src.chance(1, 3);
    let dies = src.chance(1, 6);
    ctx.class_if(dies, "a holder panics");
    let desc = format!("program {kind} (real traps {real}) with {bytes:?}, {prefill} keys queued at first, random holds (device accesses only: {only_dev}, density 1/{dens}, bursts {bursts}, a holder panics: {dies})");
    ctx.describe(|| desc.clone());
    let mut feed = vec![];
    let mut budget = 400u32;
    let mut s2 = Src::random(mix(&[src.below(1 << 32)]));
    contend(kind, &bytes, real, prefill, &mut feed, &mut |_, d| {
        if budget == 0 || only_dev && d.is_none() || !s2.chance(1, if only_dev { dens } else { dens * 6 }) {
            return None;
        }
        budget -= 1;
        let h = Hold { poison: dies && s2.chance(1, 4), ..hold_of(s2.usize(6)) };
        Some((h, if bursts { 1 + s2.below(12) } else { 1 }))
    }, ctx, &desc)
}

// ------------------------------------------------------------------ C34

/// Judges one timer: told every poll and every change.
struct Judge {
    lo: u64,
    hi: u64,
    /// polls since the last interrupt, if the interval is still to be judged
    gap: Option<u64>,
    /// polls since enabled/reset, if the first interrupt after it is still to come and its range is known
    first: Option<u64>,
    /// the range was changed since the countdown was sampled
    stale: bool,
    on: bool,
    pairs: u64,
    fired: u64,
}
impl Judge {
    fn new(lo: u64, hi: u64) -> Judge {
        Judge { lo, hi, gap: None, first: Some(0), stale: false, on: false, pairs: 0, fired: 0 }
    }
    fn enable(&mut self, on: bool) {
        if on && !self.on {
            self.first = (!self.stale).then_some(0);
        }
        if on != self.on {
            self.gap = None;
        }
        self.on = on;
    }
    fn reset(&mut self) {
        self.stale = false;
        self.gap = None;
        self.first = Some(0);
    }
    fn range(&mut self, lo: u64, hi: u64) {
        self.lo = lo;
        self.hi = hi;
        self.stale = true;
        self.gap = None;
        self.first = None;
    }
    fn poll(&mut self, fired: bool, at: &str) -> Res {
        if !self.on {
            ensure!(!fired, "c34-disabled", "{at}: a disabled timer raised an interrupt");
            return Ok(());
        }
        if let Some(f) = &mut self.first {
            *f += 1;
            ensure!(fired || *f <= self.hi, "c34-first", "{at}: no interrupt in the first {} polls, the range is {}..={}", *f, self.lo, self.hi);
            if fired {
                self.first = None;
            }
        }
        if fired {
            self.fired += 1;
            if let Some(g) = self.gap {
                ensure!(g >= self.lo && g <= self.hi, "c34-gap", "{at}: {g} polls between two interrupts, the range is {}..={}", self.lo, self.hi);
                self.pairs += 1;
            }
            // after an interrupt, the next interval is sampled from the present range (unless that changes)
            self.stale = false;
            self.gap = Some(0);
        } else if let Some(g) = &mut self.gap {
            *g += 1;
            ensure!(*g <= self.hi, "c34-gap", "{at}: {g} polls without an interrupt, the range is {}..={}", self.lo, self.hi);
        }
        Ok(())
    }
}
fn gen_range(src: &mut Src) -> (u32, u32) {
    match src.weighted(&[3, 3, 3, 1, 1]) {
        0 => {
            let n = 1 + src.below(12) as u32;
            (n, n)
        }
        1 => {
            let lo = src.below(6) as u32;
            (lo, (lo + src.below(8) as u32).max(1))
        }
        2 => {
            let lo = 1 + src.below(40) as u32;
            (lo, lo + src.below(40) as u32)
        }
        3 => (0, 1),
        _ => {
            let lo = 100 + src.below(400) as u32;
            (lo, lo + src.below(50) as u32)
        }
    }
}
/// The same range in any of the forms RangeBounds offers.
fn apply_range(t: &mut TimerDevice, lo: u32, hi: u32, form: u64) {
    use std::ops::Bound;
    match form {
        0 => t.set_range(lo..=hi),
        1 => t.set_range(lo..hi + 1),
        2 if lo == hi => t.set_exact(lo),
        3 if lo == 0 => t.set_range(..=hi),
        4 if lo == 0 => t.set_range(..hi + 1),
        5 if lo > 0 => t.set_range((Bound::Excluded(lo - 1), Bound::Included(hi))),
        _ => t.set_range((Bound::Included(lo), Bound::Excluded(hi + 1))),
    };
}
fn new_timer(seed: Option<u64>, lo: u32, hi: u32, form: u64, vect: u8, prio: u8) -> TimerDevice {
    use std::ops::Bound;
    match form {
        0 => TimerDevice::new(seed, lo..=hi, vect, prio),
        1 => TimerDevice::new(seed, lo..hi + 1, vect, prio),
        2 if lo == 0 => TimerDevice::new(seed, ..=hi, vect, prio),
        3 if lo == 0 => TimerDevice::new(seed, ..hi + 1, vect, prio),
        4 if lo > 0 => TimerDevice::new(seed, (Bound::Excluded(lo - 1), Bound::Excluded(hi + 1)), vect, prio),
        _ => TimerDevice::new(seed, lo..=hi, vect, prio),
    }
}
fn c34_direct(src: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = match src.below(4) {
        0 => None,
        1 => Some(src.below(4)),
        _ => Some(src.below(u64::MAX)),
    };
    let (lo, hi) = gen_range(src);
    let form = src.below(6);
    let prio = src.below(10) as u8;
    let mut t = new_timer(seed, lo, hi, form, 0x90, prio);
    // a twin with the same seed (for exact ranges, the seed does not matter)
    let mut u = seed.map(|_| new_timer(seed, lo, hi, form, 0x90, prio));
    let mut j = Judge::new(lo as u64, hi as u64);
    let mut ops = vec![format!("new({seed:?}, {lo}..={hi} form {form}, prio {prio})")];
    let n = src.range(2, 16);
    let mut exact0 = false;
    let mut polls = 0;
    for _ in 0..n {
        match src.weighted(&[8, 4, 1, 2, 1, 1]) {
            0 => {
                let (_, h) = (j.lo, j.hi);
                let m = 1 + src.below(8);
                let k = src.below((h + 2) * m + 1).min(3000);
                ops.push(format!("poll {k}"));
                for i in 0..k {
                    let r = t.poll_interrupt();
                    if let Some(x) = &r {
                        ensure!(x.priority() == Some(prio.min(7)), "c34-priority", "priority of the interrupt: {:?}, configured {prio}", x.priority());
                    }
                    let f = r.is_some();
                    polls += 1;
                    j.poll(f, &format!("[{}], poll {i}", ops.join("; ")))?;
                    if let Some(u) = &mut u {
                        let g = u.poll_interrupt().is_some();
                        ensure!(f == g, "c34-seed", "[{}], poll {i}: the timer and its twin with the same seed differ ({f}, {g})", ops.join("; "));
                    }
                }
            }
            1 => {
                let on = src.chance(3, 4);
                ops.push(format!("enabled={on}"));
                t.enabled = on;
                if let Some(u) = &mut u {
                    u.enabled = on;
                }
                j.enable(on);
            }
            2 => {
                ops.push("reset_remaining".into());
                t.reset_remaining();
                if let Some(u) = &mut u {
                    u.reset_remaining();
                }
                j.reset();
            }
            3 => {
                ops.push("io_reset".into());
                t.io_reset();
                if let Some(u) = &mut u {
                    u.io_reset();
                }
                j.reset();
            }
            4 => {
                let (lo, hi) = gen_range(src);
                let form = src.below(7);
                ops.push(format!("range {lo}..={hi} form {form}"));
                apply_range(&mut t, lo, hi, form);
                if let Some(u) = &mut u {
                    apply_range(u, lo, hi, form);
                }
                j.range(lo as u64, hi as u64);
                exact0 |= hi == 0;
            }
            _ => {
                // polled through a device handler from here on would lose the handle: only reads here
                ensure!(t.io_read(0xFE10, true).is_none() && !t.io_write(0xFE10, 1), "c34-port", "the timer answers I/O");
            }
        }
        let o = &ops;
        ctx.describe(|| o.join("; "));
    }
    ctx.evals += polls;
    ctx.nontrivial_if(j.pairs > 0 && !exact0);
    ctx.class_n(j.pairs, "intervals judged");
    ctx.class_if(lo == hi, "exact");
    ctx.class_if(lo == 0, "range with 0");
    ctx.class_if(seed.is_none(), "unseeded");
    Ok(())
}
/// One range, long polling.
fn c34_ranges(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (lo, hi) = if src.chance(1, 300) {
        let lo = 60_000 + src.below(80_000) as u32;
        (lo, lo + src.below(1000) as u32)
    } else if src.chance(1, 10) {
        let lo = src.below(3000) as u32;
        (lo, lo + src.below(1000) as u32)
    } else {
        gen_range(src)
    };
    let seed = src.below(u64::MAX);
    let form = src.below(6);
    let mut t = new_timer(Some(seed), lo, hi.max(1), form, 1, 1);
    let mut u = new_timer(Some(seed), lo, hi.max(1), form, 1, 1);
    (t.enabled, u.enabled) = (true, true);
    let mut j = Judge::new(lo as u64, hi.max(1) as u64);
    j.enable(true);
    ctx.describe(|| format!("{lo}..={hi} form {form} seed {seed}"));
    let n = (hi as u64 + 2) * 6 + 100;
    for i in 0..n {
        let (f, g) = (t.poll_interrupt().is_some(), u.poll_interrupt().is_some());
        j.poll(f, &format!("{lo}..={hi} form {form} seed {seed}, poll {i}"))?;
        ensure!(f == g, "c34-seed", "{lo}..={hi} seed {seed}: twins differ at poll {i}");
    }
    // repeatedly: at least one interrupt per hi + 1 polls
    ensure!(j.fired >= (n - 1) / (hi.max(1) as u64 + 1), "c34-gap", "{} interrupts in {n} polls, the range is {lo}..={hi}", j.fired);
    ctx.evals += n;
    ctx.nontrivial_if(j.pairs > 0);
    ctx.class_n(j.pairs, "intervals judged");
    Ok(())
}
/// Inside a simulator: intervals between entries into the handler.
enum Shared {
    Mx(Arc<Mutex<TimerDevice>>),
    Rw(Arc<RwLock<TimerDevice>>),
}
impl Shared {
    fn with(&self, f: impl FnOnce(&mut TimerDevice)) {
        match self {
            Shared::Mx(t) => f(&mut t.lock().unwrap()),
            Shared::Rw(t) => f(&mut t.write().unwrap()),
        }
    }
}
fn c34_sim(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut lo, mut hi) = gen_range(src);
    // the handler is one RTI, so entries at least two steps apart are all taken
    lo = lo.max(1);
    hi = hi.max(lo);
    let vect = 0x81 + src.below(64) as u8;
    let prio = 1 + src.below(7) as u8;
    let seed = src.below(u64::MAX);
    let mut st = Setup::basic(src.bool());
    st.pokes = vec![(0x3000, Ins::AddI(0, 0, 1).enc()), (0x3001, Ins::Str(0, 2, 0).enc()), (0x3002, Ins::Br(7, -3).enc()), (0x2F00, Ins::Rti.enc()), (0x100 + vect as u16, 0x2F00)];
    st.r[2] = 0x4000;
    st.fill = gen_fill(src, 15);
    ctx.class_if(st.fill > 0, "many devices");
    let debug = src.bool();
    let mut rg = Rig::new(&st, debug);
    let mut t = TimerDevice::new(Some(seed), lo..=hi, vect, prio);
    let handle = if src.bool() {
        let (h, r) = if src.bool() {
            let t = Arc::new(Mutex::new(t));
            let r = rg.sim.device_handler.add_device(t.clone(), &[]).is_ok();
            (Shared::Mx(t), r)
        } else {
            let t = Arc::new(RwLock::new(t));
            let r = rg.sim.device_handler.add_device(t.clone(), &[]).is_ok();
            (Shared::Rw(t), r)
        };
        if !r {
            panic!("add_device");
        }
        Some(h)
    } else {
        t.enabled = true;
        let ports: &[u16] = if src.bool() { &[0xFE20] } else { &[] };
        if rg.sim.device_handler.add_device(t, ports).is_err() {
            panic!("add_device");
        }
        None
    };
    let mut j = Judge::new(lo as u64, hi as u64);
    j.enable(handle.is_none());
    let mut ops = vec![format!("timer {lo}..={hi} seed {seed} vector {vect:02x} priority {prio} in a simulator (debug {debug})")];
    let mut total = 0u64;
    for _ in 0..src.range(1, 6) {
        match src.weighted(&[6, 3, 2, 2]) {
            0 => {
                let m = 1 + src.below(6);
                let k = src.below((j.hi + 2) * m + 1).min(3000);
                ops.push(format!("{k} steps"));
                for i in 0..k {
                    let sim = &mut rg.sim;
                    let inh = sim.pc == 0x2F00;
                    let r = nopanic("step_in", || sim.step_in())?;
                    let at = format!("[{}], step {i}", ops.join("; "));
                    ensure!(r.is_ok(), "c34-sim", "{at}: {r:?}");
                    total += 1;
                    // (in the handler an interrupt of the same priority is not taken: only with exactly 1 poll between)
                    let entered = sim.pc == 0x2F00;
                    ensure!(!(inh && entered), "c34-gap", "{at}: entered the handler from the handler");
                    if entered {
                        ensure!((sim.psr().get() >> 8 & 7) == prio as u16, "c34-priority", "{at}: priority level in the handler is {}", sim.psr().get() >> 8 & 7);
                    }
                    j.poll(entered, &at)?;
                }
            }
            1 => {
                if let Some(h) = &handle {
                    let on = src.chance(3, 4);
                    ops.push(format!("enabled={on}"));
                    h.with(|t| t.enabled = on);
                    j.enable(on);
                }
            }
            2 => {
                if let Some(h) = &handle {
                    let (a, b) = gen_range(src);
                    (lo, hi) = (a.max(1), b.max(a.max(1)));
                    ops.push(format!("range {lo}..={hi}"));
                    h.with(|t| {
                        t.set_range(lo..=hi);
                    });
                    j.range(lo as u64, hi as u64);
                }
            }
            _ => {
                ops.push("reset".into());
                rg.sim.reset();
                for &(a, v) in &st.pokes {
                    rg.sim.mem[a] = Word::new_init(v);
                }
                rg.sim.reg_file[reg(2)] = Word::new_init(0x4000);
                rg.sim.reg_file[reg(0)] = Word::new_init(0);
                rg.sim.pc = 0x3000;
                j.reset();
            }
        }
        let o = &ops;
        ctx.describe(|| o.join("; "));
    }
    ctx.evals += total;
    ctx.nontrivial_if(j.pairs > 0);
    ctx.class_n(j.pairs, "intervals judged");
    ctx.class_if(handle.is_none(), "attached directly");
    Ok(())
}
