//! C29, C30, C31: loading, reset, reproducibility.
use super::asm::image_of;
use super::obj::{build, gen_linked, gen_obj};
use super::prog::{install, std_handlers};
use super::runs::{gen_bp, Bp};
use crate::amodel::{GenCfg, Nuc, St};
use crate::isa::*;
use crate::pbt::*;
use crate::progs::{gen_prog, POpts};
use crate::refsim::*;
use crate::rig::*;
use lc3_ensemble::asm::ObjectFile;
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, ExternalDevice, Interrupt, TimerDevice};
use lc3_ensemble::sim::frame::ParameterList;
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{MemAccessCtx, SimErr, SimFlags, Simulator};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering;
use std::sync::{Arc, LazyLock, Mutex};

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C29",
            rule: "a case loads one or more object files into one machine and compares all 65536 words; non-trivial = at least one non-empty block was loaded",
            assumptions: &["object files come from the assembler and linker", "the value a reserved word keeps is not judged, only that it is uninitialized"],
            suites: vec![suite("load", 25_000, 800_000, c29_load), suite("edges", 10_000, 300_000, c29_edges), suite("fresh", 600, 20_000, c29_fresh), suite("raw", 5_000, 200_000, c29_raw)],
        },
        Property {
            id: "C30",
            rule: "a case is a random history followed by reset; non-trivial = the history executed at least one instruction or changed configuration",
            assumptions: &["comparison machines use a known or seeded initialization strategy"],
            suites: vec![suite("history", 60_000, 2_000_000, c30)],
        },
        Property {
            id: "C31",
            rule: "a case is one seeded or known configuration and program run on two independently built machines; non-trivial = at least 20 steps ran",
            assumptions: &["both machines get the same host actions at the same steps"],
            suites: vec![suite("pairs", 15_000, 400_000, c31_pairs), suite("random", 20_000, 600_000, c31_random), suite("known", 3_000, 60_000, c31_known)],
        },
    ]
}

fn seed_of(src: &mut Src) -> u64 {
    match src.below(4) {
        0 => src.below(8),
        1 => *src.pick(&[0, 1, u16::MAX as u64, 1 << 16, i32::MAX as u64, 1 << 31, u32::MAX as u64, 1 << 32, (1 << 32) + 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX]),
        _ => src.below(u64::MAX),
    }
}
fn gen_init(src: &mut Src, det: bool) -> MachineInitStrategy {
    match src.below(if det { 2 } else { 3 }) {
        0 => MachineInitStrategy::Known { value: src.word() },
        1 => MachineInitStrategy::Seeded { seed: seed_of(src) },
        _ => MachineInitStrategy::Unseeded,
    }
}
fn gen_flags(src: &mut Src, det: bool) -> SimFlags {
    SimFlags { strict: src.chance(1, 4), use_real_traps: src.bool(), machine_init: gen_init(src, det), debug_frames: src.bool(), ignore_privilege: src.chance(1, 3) }
}

// ------------------------------------------------------------------ C29

static OS_IMAGE: LazyLock<BTreeMap<u16, Option<u16>>> = LazyLock::new(|| image_of(lc3_ensemble::sim::_os_obj_file()).unwrap_or_else(|f| panic!("{}", f.msg)));

struct Snap {
    mem: Vec<Word>,
    r: [Word; 8],
    pc: u16,
}
fn snap(s: &Simulator) -> Snap {
    Snap { mem: (0..=0xFFFFu16).map(|a| s.mem[a]).collect(), r: std::array::from_fn(|i| s.reg_file[reg(i as u8)]), pc: s.pc }
}
/// Loads and compares everything. Returns None if the file has unresolved externals.
fn load_and_check(sim: &mut Simulator, o: &ObjectFile, ctx: &mut Ctx) -> Result<bool, Fail> {
    let img = image_of(o)?;
    load_and_check_image(sim, o, &img, ctx)
}
fn load_and_check_image(sim: &mut Simulator, o: &ObjectFile, img: &BTreeMap<u16, Option<u16>>, ctx: &mut Ctx) -> Result<bool, Fail> {
    let before = snap(sim);
    match nopanic("load_obj_file", || sim.load_obj_file(o))? {
        Ok(()) => {}
        Err(SimErr::UnresolvedExternal(x)) => {
            ensure!(o.symbol_table().is_none_or(|t| t.label_iter().any(|(_, _, e)| e)), "c29-load", "load reports unresolved external {x}, but the file has none");
            ctx.class("unresolved external (not loaded)");
            return Ok(false);
        }
        Err(e) => return fail("c29-load", format!("load failed: {e:?}")),
    }
    for a in 0..=0xFFFFu16 {
        let (w, b) = (sim.mem[a], before.mem[a as usize]);
        match img.get(&a) {
            Some(Some(v)) => ensure!(w == Word::new_init(*v), "c29-word", "mem[{a:04x}] after loading: {w:?}, the file has {v:04x}"),
            Some(None) => ensure!(!w.is_init(), "c29-reserved", "reserved word {a:04x} is initialized after loading"),
            None => ensure!(w == b, "c29-other", "mem[{a:04x}] is not in the file, but changed from {b:?} to {w:?}"),
        }
    }
    for i in 0..8u8 {
        ensure!(sim.reg_file[reg(i)] == before.r[i as usize], "c29-regs", "R{i} changed from {:?} to {:?} by loading", before.r[i as usize], sim.reg_file[reg(i)]);
    }
    ensure!(sim.pc == before.pc, "c29-regs", "PC changed from {:04x} to {:04x} by loading", before.pc, sim.pc);
    ctx.nontrivial_if(!img.is_empty());
    ctx.class_if(img.contains_key(&0), "block at x0000");
    ctx.class_if(img.contains_key(&0xFDFF), "block ending at xFE00");
    ctx.class_if(img.keys().any(|&a| a < 0x3000), "block in system space");
    let res = img.values().filter(|v| v.is_none()).count();
    ctx.class_if(res > 0, "has reserved words");
    ctx.class_if(img.iter().any(|(a, v)| v.is_none() && before.mem[*a as usize].is_init()), "a reserved word was initialized before");
    Ok(true)
}
/// Something happens to the machine between loads.
fn disturb(sim: &mut Simulator, src: &mut Src, o: Option<&ObjectFile>) -> Result<(), Fail> {
    for _ in 0..src.below(4) {
        match src.below(5) {
            0 => {
                let (a, n, v) = (src.word(), src.below(60) as u16, src.u16());
                for i in 0..n {
                    sim.mem[a.wrapping_add(i)] = Word::new_init(v ^ i);
                }
            }
            1 => {
                for i in 0..8u8 {
                    let v = src.word();
                    sim.reg_file[reg(i)] = Word::new_init(v);
                }
            }
            2 => {
                if let Some((a, _)) = o.and_then(|o| o.addr_iter().nth(src.usize(6))) {
                    sim.pc = a;
                }
            }
            3 => sim.pc = src.word(),
            _ => {
                let n = src.below(300);
                let _ = nopanic("run_with_limit", || sim.run_with_limit(n))?;
            }
        }
    }
    Ok(())
}
fn c29_load(src: &mut Src, ctx: &mut Ctx) -> Res {
    let fl = gen_flags(src, false);
    let mut sim = Simulator::new(fl);
    let mut texts = vec![];
    let mut last: Option<ObjectFile> = None;
    let n = src.range(1, 4);
    let mut loaded = 0;
    for _ in 0..n {
        let mut linked = false;
        let f = match src.weighted(&[2, 1, 6]) {
            0 => {
                linked = true;
                gen_linked(src)?
            }
            1 => Some(gen_obj(src)?.0),
            _ => {
                let cfg = GenCfg { max_items: 12, big: false, externals: false, ..Default::default() };
                let p = crate::amodel::gen_prog(src, &cfg);
                let debug = src.bool();
                Some(build(&p, src, debug)?)
            }
        };
        disturb(&mut sim, src, last.as_ref())?;
        let o = match f {
            Some(f) => {
                texts.push(f.text);
                f.obj
            }
            // the same file again
            None => match &last {
                Some(o) => o.clone(),
                None => continue,
            },
        };
        ctx.describe(|| format!("{fl:?}, files in order:\n{}", texts.join("\n--- then\n")));
        let ok = load_and_check(&mut sim, &o, ctx)?;
        loaded += ok as u64;
        ctx.class_if(ok && linked, "linked file loaded");
        if ok && src.chance(1, 5) {
            disturb(&mut sim, src, Some(&o))?;
            loaded += load_and_check(&mut sim, &o, ctx)? as u64;
            ctx.class("the same file twice");
        }
        last = Some(o);
    }
    ctx.evals += loaded;
    ctx.class(match fl.machine_init {
        MachineInitStrategy::Known { .. } => "known",
        MachineInitStrategy::Seeded { .. } => "seeded",
        MachineInitStrategy::Unseeded => "unseeded",
    });
    Ok(())
}
/// Blocks at the edges of the address space, adjacent blocks, and long reservations.
fn c29_edges(src: &mut Src, ctx: &mut Ctx) -> Res {
    let fl = gen_flags(src, false);
    let body = |src: &mut Src, max: u32| -> (Vec<St>, u32) {
        let (mut v, mut n) = (vec![], 0u32);
        for _ in 0..src.range(1, 7) {
            let (st, k) = match src.below(3) {
                0 => (Nuc::Fill(crate::amodel::Lo::Num(src.word() as i64)), 1),
                1 => {
                    let k = match src.below(3) {
                        0 => 1,
                        1 => 1 + src.below(12),
                        _ => {
                            let bits = src.range(4, 14);
                            1 + src.below(1 << bits)
                        }
                    };
                    (Nuc::Blkw(k as u16), k as u32)
                }
                _ => {
                    let s: String = (0..src.below(5)).map(|i| (b'a' + i as u8) as char).collect();
                    let k = s.len() as u32 + 1;
                    (Nuc::Stringz(s), k)
                }
            };
            if n + k > max {
                break;
            }
            n += k;
            v.push(St::new(st));
        }
        if v.is_empty() {
            v.push(St::new(Nuc::Fill(crate::amodel::Lo::Num(7))));
            n = 1;
        }
        (v, n)
    };
    let mut blocks: Vec<(u16, Vec<St>)> = vec![];
    let mut lo = 0u32; // next free address from below
    let mut hi = 0xFE00u32; // everything from here on is used
    for _ in 0..src.range(1, 4) {
        let (b, n) = body(src, (hi - lo).min(0x5000));
        if src.bool() {
            // from below: at x0000, adjacent to the block before it, or at some distance
            let at = lo + if src.bool() { 0 } else { (src.below(3000) as u32).min(hi - lo - n) };
            blocks.push((at as u16, b));
            lo = at + n;
        } else {
            let at = hi - n - if src.bool() { 0 } else { (src.below(3000) as u32).min(hi - lo - n) };
            blocks.push((at as u16, b));
            hi = at;
        }
        if hi - lo < 0x6000 {
            break;
        }
    }
    src.shuffle(&mut blocks);
    let mut p = vec![];
    for (at, b) in blocks {
        p.push(St::new(Nuc::Orig(at)));
        p.extend(b);
        p.push(St::new(Nuc::End));
    }
    let debug = src.bool();
    let f = build(&p, src, debug)?;
    ctx.describe(|| format!("{fl:?}\n{}", f.text));
    let mut sim = Simulator::new(fl);
    for _ in 0..src.range(1, 2) {
        disturb(&mut sim, src, Some(&f.obj))?;
        ensure!(load_and_check(&mut sim, &f.obj, ctx)?, "c29-load", "a file without externals is not loaded");
    }
    Ok(())
}
/// Files with arbitrary blocks (over half the address space, in the I/O page, across the xFFFF/x0000 seam).
fn c29_raw(src: &mut Src, ctx: &mut Ctx) -> Res {
    let fl = gen_flags(src, false);
    let mut sim = Simulator::new(fl);
    for _ in 0..src.range(1, 2) {
        let b = gen_raw_blocks(src);
        ctx.describe(|| format!("{fl:?} blocks {:x?}", b.iter().map(|(a, w)| (*a, w.len(), w.iter().take(24).collect::<Vec<_>>())).collect::<Vec<_>>()));
        ctx.key(&b);
        let Some(o) = nopanic("deserialize", || raw_obj(&b))? else {
            ctx.class("refused by the reader");
            continue;
        };
        let img: BTreeMap<u16, Option<u16>> = b.iter().flat_map(|(a, w)| w.iter().enumerate().map(|(i, v)| (a.wrapping_add(i as u16), *v))).collect();
        disturb(&mut sim, src, None)?;
        if src.bool() {
            // the words to come are initialized with something else
            let x = src.u16();
            for &a in img.keys() {
                sim.mem[a] = Word::new_init(a ^ x);
            }
        }
        ensure!(load_and_check_image(&mut sim, &o, &img, ctx)?, "c29-load", "a file without externals is not loaded");
        ctx.evals += 1;
        ctx.class_if(b.iter().any(|(a, w)| *a as usize + w.len() > 0x10000), "block across the seam");
        ctx.class_if(b.iter().any(|(a, w)| *a as usize + w.len() == 0x10000), "block ending at xFFFF");
        ctx.class_if(b.iter().any(|(_, w)| w.len() > 0x8000), "block of more than half the memory");
    }
    Ok(())
}
fn c29_fresh(src: &mut Src, ctx: &mut Ctx) -> Res {
    let fl = gen_flags(src, false);
    ctx.describe(|| format!("{fl:?}"));
    ctx.key(&format!("{fl:?}"));
    ctx.nontrivial();
    let sim = nopanic("Simulator::new", || Simulator::new(fl))?;
    check_fresh(&sim, fl)?;
    ensure!(sim.pc == 0x3000, "c29-fresh", "PC of a new machine: {:04x}", sim.pc);
    Ok(())
}
fn check_fresh(sim: &Simulator, fl: SimFlags) -> Res {
    for (&a, v) in OS_IMAGE.iter() {
        match v {
            Some(v) => ensure!(sim.mem[a] == Word::new_init(*v), "c29-os", "OS word {a:04x} of a new machine is {:?}, the image has {v:04x}", sim.mem[a]),
            None => ensure!(!sim.mem[a].is_init(), "c29-os", "reserved OS word {a:04x} of a new machine is initialized"),
        }
    }
    for a in IO..=0xFFFF {
        if !OS_IMAGE.contains_key(&a) {
            ensure!(sim.mem[a].get() == 0, "c29-io", "I/O word {a:04x} of a new machine is {:04x}", sim.mem[a].get());
        }
    }
    if let MachineInitStrategy::Known { value } = fl.machine_init {
        for a in 0..IO {
            if !OS_IMAGE.contains_key(&a) {
                ensure!(sim.mem[a].get() == value, "c31-known", "mem[{a:04x}] of a machine initialized to {value:04x} is {:04x}", sim.mem[a].get());
            }
        }
        for i in 0..8u8 {
            ensure!(sim.reg_file[reg(i)].get() == value, "c31-known", "R{i} of a machine initialized to {value:04x} is {:04x}", sim.reg_file[reg(i)].get());
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C30

#[derive(Debug)]
struct Dev {
    tag: u32,
    id: u16,
    ports: Vec<u16>,
}
/// A recording device that also counts polls.
struct Polled {
    r: Recorder,
    polls: Arc<Mutex<BTreeMap<u32, u64>>>,
}
impl ExternalDevice for Polled {
    fn io_read(&mut self, a: u16, e: bool) -> Option<u16> {
        self.r.io_read(a, e)
    }
    fn io_write(&mut self, a: u16, d: u16) -> bool {
        self.r.io_write(a, d)
    }
    fn io_reset(&mut self) {
        self.r.io_reset()
    }
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        *self.polls.lock().unwrap().entry(self.r.tag).or_insert(0) += 1;
        None
    }
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Fixed {
    None,
    Buffered,
    Rec(u32),
}
struct Hist {
    sim: Simulator,
    log: Log,
    polls: Arc<Mutex<BTreeMap<u32, u64>>>,
    kbuf: KBuf,
    dbuf: DBuf,
    kb: Fixed,
    ds: Fixed,
    devs: Vec<Dev>,
    iregs: BTreeMap<u16, IReg>,
    bps: Vec<Bp>,
    flags: SimFlags,
    tags: u32,
    ops: Vec<String>,
    configured: bool,
}
const IREGS: [IReg; 4] = [IReg::Pc, IReg::Psr, IReg::Mcr, IReg::SavedSp];
impl Hist {
    fn polled(&mut self) -> Polled {
        self.tags += 1;
        Polled { r: Recorder { tag: self.tags, log: self.log.clone(), answers: true }, polls: self.polls.clone() }
    }
    fn op(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        match src.weighted(&[3, 3, 2, 6, 3, 3, 3, 2, 2, 2, 2, 2, 1, 2, 1]) {
            0 => {
                let f = gen_obj(src)?.0;
                self.ops.push("load".into());
                if let Some((a, _)) = f.obj.addr_iter().next() {
                    self.sim.pc = a;
                }
                let sim = &mut self.sim;
                let _ = nopanic("load_obj_file", || sim.load_obj_file(&f.obj))?;
            }
            1 => {
                // code that runs
                let p = gen_prog(src, POpts { input: false, output: true, faults: true, size: 6 });
                self.ops.push("program".into());
                for (i, &w) in p.words.iter().enumerate() {
                    self.sim.mem[p.base + i as u16] = Word::new_init(w);
                }
                self.sim.pc = p.base;
            }
            2 => {
                let (a, v) = (word_of(src), src.word());
                self.sim.mem[a] = Word::new_init(v);
                let k = src.below(8) as u8;
                self.sim.reg_file[reg(k)] = Word::new_init(v);
                if src.chance(1, 4) {
                    self.sim.pc = word_of(src);
                }
                self.ops.push(format!("poke {a:04x} R{k} pc={:04x}", self.sim.pc));
            }
            3 => {
                let k = src.below(5);
                let n = src.below(400);
                self.ops.push(format!("run kind {k} limit {n}"));
                let sim = &mut self.sim;
                let c0 = sim.instructions_run;
                let r = match k {
                    0 => nopanic("step_in", || sim.step_in())?,
                    1 => {
                        let mut left = n;
                        nopanic("run_while", || sim.run_while(|_| {
                            left = left.saturating_sub(1);
                            left > 0
                        }))?
                    }
                    _ => nopanic("run_with_limit", || sim.run_with_limit(n))?,
                };
                ctx.nontrivial_if(self.sim.instructions_run != c0);
                ctx.class_if(r.is_err(), "an error in the history");
                ctx.class_if(self.sim.hit_halt(), "halted in the history");
                ctx.class_if(self.sim.hit_breakpoint(), "breakpoint in the history");
                ctx.class_if(self.sim.frame_stack.len() > 0, "inside a call");
                ctx.class_if(!self.sim.psr().privileged(), "in user mode");
            }
            4 => {
                let v = canon_psr(src.u16());
                self.ops.push(format!("psr {v:04x}"));
                // (only through a mapped PSR)
                if let Some((&p, _)) = self.iregs.iter().find(|x| *x.1 == IReg::Psr) {
                    let _ = self.sim.write_mem(p, Word::new_init(v), MemAccessCtx::omnipotent());
                }
                if let Some((&p, _)) = self.iregs.iter().find(|x| *x.1 == IReg::SavedSp) {
                    let _ = self.sim.write_mem(p, Word::new_init(v ^ 0x1234), MemAccessCtx::omnipotent());
                }
            }
            5 => {
                let f = gen_flags(src, true);
                self.ops.push(format!("{f:?}"));
                self.sim.flags = f;
                self.flags = f;
                self.configured = true;
            }
            6 => {
                let b = gen_bp(src, 0x3000, 40);
                self.ops.push(format!("+{b:?}"));
                self.sim.breakpoints.insert(b.real());
                if !self.bps.contains(&b) {
                    self.bps.push(b);
                }
                self.configured = true;
            }
            7 => {
                if let Some(b) = self.bps.pop() {
                    self.ops.push(format!("-{b:?}"));
                    self.sim.breakpoints.remove(&b.real());
                }
            }
            8 => {
                let ports: Vec<u16> = (0..src.below(4)).map(|_| 0xFE00 + src.below(0x20) as u16).collect();
                let d = self.polled();
                let tag = self.tags;
                self.ops.push(format!("add #{tag} {ports:x?}"));
                if let Ok(id) = self.sim.device_handler.add_device(d, &ports) {
                    self.devs.push(Dev { tag, id, ports });
                    self.configured = true;
                }
            }
            9 => {
                if !self.devs.is_empty() {
                    let i = src.usize(self.devs.len());
                    let d = self.devs.remove(i);
                    self.ops.push(format!("remove #{}", d.tag));
                    self.sim.device_handler.remove_device(d.id);
                }
            }
            10 => {
                if src.bool() {
                    self.sim.device_handler.set_keyboard(BufferedKeyboard::new(self.kbuf.clone()));
                    self.kb = Fixed::Buffered;
                    self.ops.push("set_keyboard".into());
                } else {
                    let d = self.polled();
                    self.sim.device_handler.set_keyboard(d);
                    self.kb = Fixed::Rec(self.tags);
                    self.ops.push(format!("set_keyboard #{}", self.tags));
                }
            }
            11 => {
                if src.bool() {
                    self.sim.device_handler.set_display(BufferedDisplay::new(self.dbuf.clone()));
                    self.ds = Fixed::Buffered;
                    self.ops.push("set_display".into());
                } else {
                    let d = self.polled();
                    self.sim.device_handler.set_display(d);
                    self.ds = Fixed::Rec(self.tags);
                    self.ops.push(format!("set_display #{}", self.tags));
                }
            }
            12 => {
                let i = src.range(0, 3) as u16;
                self.ops.push(format!("remove_device {i}"));
                match i {
                    1 => self.kb = Fixed::None,
                    2 => self.ds = Fixed::None,
                    3 => self.devs.retain(|d| d.id != 3),
                    _ => {}
                }
                self.sim.device_handler.remove_device(i);
            }
            13 => {
                let p = *src.pick(&[0xFE00u16, 0xFE06, 0xFE10, 0xFE11, 0xFFF0, 0xFFFC, 0xFFFE, 0xFFFF]);
                if src.bool() {
                    let r = *src.pick(&IREGS);
                    self.ops.push(format!("mmap {p:04x} {r:?}"));
                    if self.sim.mmap_internal(p, to_ireg(r)).is_ok() {
                        self.iregs.insert(p, r);
                        self.configured = true;
                    }
                } else {
                    self.ops.push(format!("munmap {p:04x}"));
                    self.sim.munmap_internal(p);
                    self.iregs.remove(&p);
                }
            }
            _ => {
                let (a, n) = (0x3000 + src.below(60) as u16, src.usize(3));
                self.ops.push(format!("subroutine {a:04x}"));
                self.sim.frame_stack.set_subroutine_def(a, ParameterList::with_calling_convention(&["a", "b"][..n]));
            }
        }
        Ok(())
    }
}
fn c30(src: &mut Src, ctx: &mut Ctx) -> Res {
    let fl = gen_flags(src, true);
    let sim = Simulator::new(fl);
    let mut h = Hist {
        sim,
        log: Default::default(),
        polls: Default::default(),
        kbuf: Default::default(),
        dbuf: Default::default(),
        kb: Fixed::None,
        ds: Fixed::None,
        devs: vec![],
        iregs: BTreeMap::from([(PSR_PORT, IReg::Psr), (MCR_PORT, IReg::Mcr)]),
        bps: vec![],
        flags: fl,
        tags: 10,
        ops: vec![],
        configured: false,
    };
    let mcr = h.sim.mcr().clone();
    // handles held elsewhere (threads, front ends)
    let others: Vec<_> = (0..src.below(4)).map(|_| h.sim.mcr().clone()).collect();
    let rounds = if src.chance(1, 4) { 2 } else { 1 };
    for _ in 0..rounds {
        for _ in 0..src.range(1, 14) {
            h.op(src, ctx)?;
            let (o, f) = (&h.ops, h.flags);
            ctx.describe(|| format!("history from {fl:?}: {}; then reset (flags {f:?})", o.join("; ")));
        }
        h.ops.push("reset".into());
        let sim = &mut h.sim;
        nopanic("reset", || sim.reset())?;
        after_reset(&mut h, &mcr, src)?;
    }
    ctx.nontrivial_if(h.configured);
    ctx.class_if(h.configured, "configuration changed");
    ctx.class_if(!h.devs.is_empty(), "devices attached at reset");
    ctx.class_if(!h.bps.is_empty(), "breakpoints at reset");
    ctx.class_if(h.flags != fl, "flags differ from construction");
    ctx.class_if(h.iregs.len() != 2, "register mappings changed");
    ctx.class_if(rounds > 1, "two resets");
    ensure!(others.iter().all(|o| Arc::ptr_eq(o, h.sim.mcr())), "c30-mcr", "an MCR handle taken before the history is not the machine's any more");
    drop(others);
    lockstep(&mut h, src, ctx)
}
fn after_reset(h: &mut Hist, mcr: &Arc<std::sync::atomic::AtomicBool>, src: &mut Src) -> Res {
    let sim = &mut h.sim;
    ensure!(sim.flags == h.flags, "c30-flags", "flags after reset: {:?}, were {:?}", sim.flags, h.flags);
    let mut f = Simulator::new(h.flags);
    for a in 0..=0xFFFFu16 {
        ensure!(sim.mem[a] == f.mem[a], "c30-mem", "mem[{a:04x}] after reset: {:?}, new machine: {:?}", sim.mem[a], f.mem[a]);
    }
    for i in 0..8u8 {
        ensure!(sim.reg_file[reg(i)] == f.reg_file[reg(i)], "c30-regs", "R{i} after reset: {:?}, new machine: {:?}", sim.reg_file[reg(i)], f.reg_file[reg(i)]);
    }
    ensure!(sim.pc == f.pc, "c30-regs", "PC after reset: {:04x}", sim.pc);
    ensure!(sim.psr().get() == f.psr().get(), "c30-regs", "PSR after reset: {:04x}, new machine: {:04x}", sim.psr().get(), f.psr().get());
    ensure!(sim.frame_stack.len() == f.frame_stack.len(), "c30-frames", "frame depth after reset: {}", sim.frame_stack.len());
    ensure!(sim.frame_stack.frames().map(<[_]>::len) == f.frame_stack.frames().map(<[_]>::len), "c30-frames", "frames after reset: {:?}, new machine: {:?}", sim.frame_stack.frames(), f.frame_stack.frames());
    ensure!(sim.instructions_run == f.instructions_run, "c30-count", "instruction count after reset: {}", sim.instructions_run);
    ensure!(sim.hit_halt() == f.hit_halt() && sim.hit_breakpoint() == f.hit_breakpoint(), "c30-pause", "after reset hit_halt() = {}, hit_breakpoint() = {}", sim.hit_halt(), sim.hit_breakpoint());
    let (p, q) = (get_ssp(sim), get_ssp(&mut f));
    ensure!(p == q, "c30-regs", "saved SP after reset: {p:04x}, new machine: {q:04x}");
    ensure!(Arc::ptr_eq(sim.mcr(), mcr), "c30-mcr", "the MCR handle changed");
    ensure!(sim.breakpoints.len() == h.bps.len() && h.bps.iter().all(|b| sim.breakpoints.contains(&b.real())), "c30-breakpoints", "breakpoints after reset: {:?}, were {:?}", sim.breakpoints, h.bps);
    // attached devices
    let rec = |f: Fixed| if let Fixed::Rec(t) = f { Some(t) } else { None };
    let mut live: BTreeSet<u32> = h.devs.iter().map(|d| d.tag).collect();
    live.extend(rec(h.kb));
    live.extend(rec(h.ds));
    h.log.lock().unwrap().clear();
    let owner = |p: u16| -> Option<Fixed> {
        match p {
            KBSR | KBDR => Some(h.kb),
            DSR | DDR => Some(h.ds),
            _ => h.devs.iter().find(|d| d.ports.contains(&p)).map(|d| Fixed::Rec(d.tag)),
        }
    };
    h.kbuf.write().unwrap().clear();
    h.dbuf.write().unwrap().clear();
    h.kbuf.write().unwrap().extend([7, 9]);
    let omni = MemAccessCtx { track_access: false, io_effects: true, ..MemAccessCtx::omnipotent() };
    let ports: Vec<u16> = (0xFE00..0xFE20u16).chain([0xFFF0, 0xFFFC, 0xFFFE, 0xFFFF]).collect();
    for &p in &ports {
        let keep = sim.mem[p];
        let v = sim.read_mem(p, omni).map_err(|e| Fail { sig: "c30-io".into(), msg: format!("read of {p:04x} after reset: {e:?}") })?.get();
        sim.mem[p] = keep;
        let seen: Vec<_> = h.log.lock().unwrap().drain(..).collect();
        if let Some(r) = h.iregs.get(&p) {
            let want = match r {
                IReg::Pc => sim.pc,
                IReg::Psr => sim.psr().get(),
                IReg::Mcr => (sim.mcr().load(Ordering::Relaxed) as u16) << 15,
                IReg::SavedSp => q,
            };
            ensure!(seen.is_empty() && v == want, "c30-io", "read of {p:04x} after reset: {v:04x} {seen:x?}, it is mapped to {r:?} ({want:04x})");
        } else {
            match owner(p) {
                Some(Fixed::Rec(t)) => ensure!(seen == [(t, Io::Read(p, true))] && v == recorder_value(t, p), "c30-io", "read of {p:04x} after reset: {v:04x} {seen:x?}, device #{t} is attached there"),
                Some(Fixed::Buffered) if p == KBSR => ensure!(v & 0x8000 != 0, "c30-io", "KBSR after reset: {v:04x} although a key waits"),
                Some(Fixed::Buffered) if p == KBDR => ensure!(v == 7, "c30-io", "KBDR after reset: {v:04x}, the key is 7"),
                Some(Fixed::Buffered) if p == DSR => ensure!(v & 0x8000 != 0, "c30-io", "DSR after reset: {v:04x}"),
                _ => ensure!(seen.is_empty() && v == keep.get(), "c30-io", "read of {p:04x} after reset: {v:04x} {seen:x?}, nothing is attached there"),
            }
        }
    }
    if h.ds == Fixed::Buffered && !h.iregs.contains_key(&DDR) {
        let keep = sim.mem[DDR];
        let _ = sim.write_mem(DDR, Word::new_init(0x41), omni);
        sim.mem[DDR] = keep;
        ensure!(*h.dbuf.read().unwrap() == [0x41], "c30-io", "the display does not show output after reset: {:?}", h.dbuf.read().unwrap());
    }
    // all attached devices are still polled
    h.polls.lock().unwrap().clear();
    let at = sim.pc;
    let keep = sim.mem[at];
    if src.bool() {
        sim.mem[at] = Word::new_init(Ins::Br(0, 0).enc());
        let fl = sim.flags;
        sim.flags.ignore_privilege = true;
        let r = nopanic("step_in", || sim.step_in())?;
        ensure!(r.is_ok(), "c30-step", "one step after reset: {r:?}");
        let got: BTreeSet<u32> = h.polls.lock().unwrap().iter().filter(|x| *x.1 > 0).map(|x| *x.0).collect();
        ensure!(got == live, "c30-io", "devices polled after reset: {got:?}, attached: {live:?}");
        sim.flags = fl;
        sim.mem[at] = keep;
        nopanic("reset", || sim.reset())?;
    }
    Ok(())
}
/// The reset machine and a new one run the same program identically.
fn lockstep(h: &mut Hist, src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut f = Simulator::new(h.flags);
    for i in 0..4u16 {
        h.sim.device_handler.remove_device(i);
    }
    for d in &h.devs {
        h.sim.device_handler.remove_device(d.id);
    }
    let ips: Vec<u16> = h.iregs.keys().copied().collect();
    for p in ips {
        h.sim.munmap_internal(p);
        f.munmap_internal(p);
    }
    f.munmap_internal(PSR_PORT);
    f.munmap_internal(MCR_PORT);
    h.sim.breakpoints.clear();
    let p = gen_prog(src, POpts { input: false, output: false, faults: true, size: 6 });
    let n = src.below(120);
    for (i, &w) in p.words.iter().enumerate() {
        for s in [&mut h.sim, &mut f] {
            s.mem[p.base + i as u16] = Word::new_init(w);
            s.pc = p.base;
        }
    }
    if let Some(o) = h.ops.last_mut() {
        *o = format!("reset; then {n} steps of {}", p.show());
    }
    let (o, fl) = (&h.ops, h.flags);
    ctx.describe(|| format!("history: {} (flags {fl:?})", o.join("; ")));
    for k in 0..n {
        let (a, b) = (&mut h.sim, &mut f);
        let x = nopanic("step_in", || a.step_in())?;
        let y = nopanic("step_in", || b.step_in())?;
        let what = format!("step {k} after reset");
        ensure!(format!("{x:?}") == format!("{y:?}"), "c30-lockstep", "{what}: {x:?}, new machine {y:?}");
        step_same(a, b, "c30-lockstep", &what)?;
        if x.is_err() {
            break;
        }
    }
    Ok(())
}
/// Everything a step may show, except memory the step did not touch.
fn step_same(a: &mut Simulator, b: &mut Simulator, sig: &'static str, what: &str) -> Res {
    for i in 0..8u8 {
        ensure!(a.reg_file[reg(i)] == b.reg_file[reg(i)], sig, "{what}: R{i} is {:?} and {:?}", a.reg_file[reg(i)], b.reg_file[reg(i)]);
    }
    ensure!(a.pc == b.pc, sig, "{what}: PC is {:04x} and {:04x}", a.pc, b.pc);
    ensure!(a.psr().get() == b.psr().get(), sig, "{what}: PSR is {:04x} and {:04x}", a.psr().get(), b.psr().get());
    ensure!(a.instructions_run == b.instructions_run, sig, "{what}: instruction count is {} and {}", a.instructions_run, b.instructions_run);
    ensure!(a.frame_stack.len() == b.frame_stack.len(), sig, "{what}: frame depth is {} and {}", a.frame_stack.len(), b.frame_stack.len());
    let mut x: Vec<u16> = a.observer.take_mem_accesses().map(|t| t.0).collect();
    x.extend(b.observer.take_mem_accesses().map(|t| t.0));
    for p in x {
        ensure!(a.mem[p] == b.mem[p], sig, "{what}: mem[{p:04x}] is {:?} and {:?}", a.mem[p], b.mem[p]);
    }
    Ok(())
}

// ------------------------------------------------------------------ C31

/// A timer that is both in the machine and in the hands of the host.
#[derive(Clone)]
struct Shared(Arc<Mutex<TimerDevice>>, Arc<Mutex<Vec<bool>>>);
impl ExternalDevice for Shared {
    fn io_read(&mut self, a: u16, e: bool) -> Option<u16> {
        self.0.lock().unwrap().io_read(a, e)
    }
    fn io_write(&mut self, a: u16, d: u16) -> bool {
        self.0.lock().unwrap().io_write(a, d)
    }
    fn io_reset(&mut self) {
        self.0.lock().unwrap().io_reset()
    }
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        let r = self.0.lock().unwrap().poll_interrupt();
        self.1.lock().unwrap().push(r.is_some());
        r
    }
}
#[derive(Debug, Clone)]
struct TimerCfg {
    seed: u64,
    lo: u32,
    hi: u32,
    vect: u8,
    prio: u8,
    plain: bool,
}
#[derive(Debug, Clone)]
enum Act {
    Key(u8),
    Toggle(usize, bool),
    Range(usize, u32, u32),
    Resample(usize),
    Flags(bool, bool),
    Reset,
}
#[derive(Clone, Debug)]
struct Cfg {
    flags: SimFlags,
    keys: Vec<u8>,
    timers: Vec<TimerCfg>,
    pokes: Vec<(u16, u16)>,
    regs: Vec<(u8, u16)>,
    pc: u16,
    /// in supervisor mode at first
    sup: bool,
    prio: u16,
    acts: BTreeMap<u64, Act>,
}
struct M {
    sim: Simulator,
    kbuf: KBuf,
    dbuf: DBuf,
    timers: Vec<Shared>,
}
impl M {
    fn new(c: &Cfg) -> M {
        let mut sim = Simulator::new(c.flags);
        let (kbuf, dbuf): (KBuf, DBuf) = Default::default();
        kbuf.write().unwrap().extend(&c.keys);
        sim.device_handler.set_keyboard(BufferedKeyboard::new(kbuf.clone()));
        sim.device_handler.set_display(BufferedDisplay::new(dbuf.clone()));
        let mut timers = vec![];
        for t in &c.timers {
            let mut d = if t.plain { TimerDevice::new(Some(t.seed), t.lo..t.hi + 1, t.vect, t.prio) } else { TimerDevice::new(Some(t.seed), t.lo..=t.hi, t.vect, t.prio) };
            d.enabled = true;
            let s = Shared(Arc::new(Mutex::new(d)), Default::default());
            timers.push(s.clone());
            if sim.device_handler.add_device(s, &[]).is_err() {
                panic!("add_device");
            }
        }
        let mut m = M { sim, kbuf, dbuf, timers };
        m.place(c);
        m
    }
    fn place(&mut self, c: &Cfg) {
        for &(a, v) in &c.pokes {
            self.sim.mem[a] = Word::new_init(v);
        }
        for &(r, v) in &c.regs {
            self.sim.reg_file[reg(r)] = Word::new_init(v);
        }
        self.sim.pc = c.pc;
        set_psr(&mut self.sim, (!c.sup as u16) << 15 | c.prio << 8 | 2);
    }
    fn act(&mut self, a: &Act, c: &Cfg) {
        match a {
            Act::Key(k) => self.kbuf.write().unwrap().push_back(*k),
            Act::Toggle(i, on) => self.timers[*i].0.lock().unwrap().enabled = *on,
            Act::Range(i, lo, hi) => {
                self.timers[*i].0.lock().unwrap().set_range(*lo..=*hi);
            }
            Act::Resample(i) => self.timers[*i].0.lock().unwrap().reset_remaining(),
            Act::Flags(s, r) => {
                self.sim.flags.strict = *s;
                self.sim.flags.use_real_traps = *r;
            }
            Act::Reset => {
                self.sim.reset();
                self.place(c);
            }
        }
    }
}
fn full_same(a: &Simulator, b: &Simulator, what: &str) -> Res {
    for x in 0..=0xFFFFu16 {
        ensure!(a.mem[x] == b.mem[x], "c31-mem", "{what}: mem[{x:04x}] is {:?} in one machine and {:?} in the other", a.mem[x], b.mem[x]);
    }
    for i in 0..8u8 {
        ensure!(a.reg_file[reg(i)] == b.reg_file[reg(i)], "c31-regs", "{what}: R{i} is {:?} in one machine and {:?} in the other", a.reg_file[reg(i)], b.reg_file[reg(i)]);
    }
    Ok(())
}
fn run_pair(c: &Cfg, steps: u64, src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut a = M::new(c);
    // something else uses the process's randomness in between
    if src.bool() {
        let _ = Simulator::new(SimFlags { machine_init: MachineInitStrategy::Unseeded, ..c.flags });
    }
    let mut b = M::new(c);
    full_same(&a.sim, &b.sim, "at the start")?;
    let mut ints = 0;
    let mut n = 0;
    let mut errs = 0;
    for k in 0..steps {
        if let Some(x) = c.acts.get(&k) {
            nopanic("host action", || a.act(x, c))?;
            nopanic("host action", || b.act(x, c))?;
            if matches!(x, Act::Reset) {
                full_same(&a.sim, &b.sim, "after reset")?;
            }
        }
        let what = format!("step {k} (pc {:04x})", a.sim.pc);
        let (pc, cnt) = (a.sim.pc, a.sim.instructions_run);
        let x = nopanic("step_in", || a.sim.step_in())?;
        let y = nopanic("step_in", || b.sim.step_in())?;
        n += 1;
        ensure!(format!("{x:?}") == format!("{y:?}"), "c31-step", "{what}: {x:?} in one machine, {y:?} in the other");
        step_same(&mut a.sim, &mut b.sim, "c31-step", &what)?;
        for (t, u) in a.timers.iter().zip(&b.timers) {
            let (p, q) = (std::mem::take(&mut *t.1.lock().unwrap()), std::mem::take(&mut *u.1.lock().unwrap()));
            ensure!(p == q, "c31-timer", "{what}: the timers of the two machines fire {p:?} and {q:?}");
            ints += p.iter().filter(|x| **x).count() as u64;
            let (p, q) = (t.0.lock().unwrap().get_remaining(), u.0.lock().unwrap().get_remaining());
            ensure!(p == q, "c31-timer", "{what}: the timers of the two machines have {p} and {q} polls left");
        }
        ensure!(*a.dbuf.read().unwrap() == *b.dbuf.read().unwrap(), "c31-output", "{what}: output differs");
        ensure!(*a.kbuf.read().unwrap() == *b.kbuf.read().unwrap(), "c31-output", "{what}: keyboard queues differ");
        if x.is_err() {
            errs += 1;
            if errs > 3 {
                break;
            }
        }
        if !c.flags.use_real_traps && a.sim.pc == pc && a.sim.instructions_run == cnt && c.acts.range(k..).next().is_none() {
            ctx.class("halted");
            break;
        }
    }
    full_same(&a.sim, &b.sim, "at the end")?;
    let (p, q) = (get_ssp(&mut a.sim), get_ssp(&mut b.sim));
    ensure!(p == q, "c31-regs", "saved SP at the end: {p:04x} and {q:04x}");
    ctx.evals += n;
    ctx.nontrivial_if(n >= 20);
    ctx.class_if(ints > 0, "timer interrupts raised");
    ctx.class_if(!a.dbuf.read().unwrap().is_empty(), "has output");
    ctx.class_if(errs > 0, "an error");
    ctx.class_if(c.acts.values().any(|x| matches!(x, Act::Reset)), "a reset in the middle");
    Ok(())
}
fn gen_timers(src: &mut Src, n: u64) -> Vec<TimerCfg> {
    (0..n)
        .map(|k| {
            let lo = 20 + src.below(60) as u32;
            TimerCfg { seed: seed_of(src), lo, hi: lo + src.below(60) as u32, vect: 0x80 + k as u8, prio: src.below(9) as u8, plain: src.bool() }
        })
        .collect()
}
fn gen_acts(src: &mut Src, steps: u64, nt: usize) -> BTreeMap<u64, Act> {
    let mut m = BTreeMap::new();
    for _ in 0..src.below(8) {
        let at = src.below(steps);
        let a = match src.weighted(&[4, if nt > 0 { 2 } else { 0 }, if nt > 0 { 2 } else { 0 }, if nt > 0 { 1 } else { 0 }, 1, 1]) {
            0 => Act::Key(src.below(256) as u8),
            1 => Act::Toggle(src.usize(nt), src.bool()),
            2 => {
                let lo = src.below(40) as u32;
                Act::Range(src.usize(nt), lo, lo + src.below(30) as u32)
            }
            3 => Act::Resample(src.usize(nt)),
            4 => Act::Flags(src.chance(1, 4), src.bool()),
            _ => Act::Reset,
        };
        m.insert(at, a);
    }
    m
}
fn c31_pairs(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut flags = gen_flags(src, true);
    flags.strict = src.chance(1, 8);
    let input = src.bool();
    let p = gen_prog(src, POpts { input, output: true, faults: false, size: 10 });
    let mut st = p.setup(flags.use_real_traps);
    let hs = std_handlers(src, 3);
    install(&mut st, &hs);
    let nt = src.below(3);
    let timers = gen_timers(src, nt);
    let steps = 300 + src.below(900);
    let acts = gen_acts(src, steps, timers.len());
    let c = Cfg { flags, keys: p.keys.clone(), timers, pokes: st.pokes.clone(), regs: vec![(6, 0xFB00)], pc: p.base, sup: false, prio: 0, acts };
    ctx.describe(|| format!("{:?} timers={:?} acts={:?} {}", c.flags, c.timers, c.acts, p.show()));
    run_pair(&c, steps, src, ctx)
}
/// Code running over the machine's own (seeded) memory.
fn c31_random(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut flags = gen_flags(src, true);
    if src.chance(3, 4) {
        flags.machine_init = MachineInitStrategy::Seeded { seed: seed_of(src) };
    }
    let pc = 0x3000 + src.below(0xCC00) as u16;
    let pokes = if src.bool() {
        let (n, k) = (src.range(1, 20) as u16, src.range(1, 6) as u16);
        gen_code(src, pc, n, k, false)
    } else {
        vec![]
    };
    let nt = src.below(3);
    let mut timers = gen_timers(src, nt);
    for t in &mut timers {
        t.lo %= 20;
        t.hi = t.lo + t.hi % 20;
    }
    let steps = 20 + src.below(200);
    let acts = gen_acts(src, steps, timers.len());
    let c = Cfg { flags, keys: vec![65, 66], timers, pokes, regs: vec![], pc, sup: src.chance(1, 3), prio: src.below(8) as u16, acts };
    ctx.describe(|| format!("{c:x?}"));
    ctx.key(&format!("{c:?}"));
    run_pair(&c, steps, src, ctx)
}
fn c31_known(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut fl = gen_flags(src, true);
    let value = src.word();
    fl.machine_init = MachineInitStrategy::Known { value };
    ctx.describe(|| format!("{fl:?}"));
    ctx.key(&value);
    ctx.nontrivial();
    let sim = Simulator::new(fl);
    check_fresh(&sim, fl)
}
