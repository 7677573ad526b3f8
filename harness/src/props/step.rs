//! C08, C27, C28: lockstep comparison of the simulator with the reference machine.
use crate::isa::*;
use crate::pbt::*;
use crate::refsim::*;
use crate::rig::*;
use lc3_ensemble::sim::mem::Word;
use lc3_ensemble::sim::MemAccessCtx;

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C08",
            rule: "a case is one random machine stepped against the reference model; non-trivial = at least one executed step changed memory, control flow, privilege or device state, or faulted (not only ALU/NOP steps)",
            assumptions: &[
                "memory and registers start initialized, strict mode off",
                "interrupt vectors raised by devices are 0x03-0xFF (0x00-0x02 are the exception vectors)",
                "RTI in user mode with privilege checks off, and a supervisor stack laid over memory-mapped processor registers, have no ISA meaning: the case ends there",
                "a PSR popped by RTI with non-architectural bits may be kept raw or canonicalised",
                "after an error under virtual traps the architectural state and faulting address are compared, not the raw PC; the host then re-aims PC",
            ],
            suites: vec![exhaustive("words", 65536, c08_words), suite("runs", 120_000, 4_000_000, c08_runs), suite("entry", 60_000, 1_500_000, c08_entry)],
        },
        Property {
            id: "C27",
            rule: "a case is a call-heavy random machine stepped against the reference frame list; non-trivial = at least two frames were pushed and at least one popped",
            assumptions: &["exceptions entered under real traps count as traps entered", "the frame list is compared without frame_ptr", "same domain as C08"],
            suites: vec![suite("frames", 100_000, 3_000_000, c27), suite("runs", 30_000, 800_000, c27_runs), suite("deep", 150, 5_000, c27_deep)],
        },
        Property {
            id: "C28",
            rule: "a case is a random non-strict machine; after each step (or run) the observer is compared with the model's access set for every non-I/O address; non-trivial = at least one data access besides fetches",
            assumptions: &["non-strict mode, initialized memory", "I/O addresses are not compared", "same domain as C08"],
            suites: vec![suite("steps", 90_000, 3_000_000, c28_steps), suite("runs", 40_000, 1_000_000, c28_runs), suite("host", 40_000, 800_000, c28_host), suite("sweep", 300, 10_000, c28_sweep)],
        },
    ]
}

fn note_event(ctx: &mut Ctx, rg: &Rig, before_user: bool) -> bool {
    let rf = &rg.rf;
    match rf.ev {
        Ev::Int { prio, .. } => {
            ctx.class(if before_user { "interrupt from user" } else { "interrupt from supervisor" });
            ctx.class_if(prio == 7, "interrupt prio 7");
            true
        }
        Ev::Fault(e) => {
            ctx.class(match (e, rf.real_traps) {
                (E::Access, true) => "access fault vectored",
                (E::Access, false) => "access fault reported",
                (E::Privilege, true) => "privilege fault vectored",
                (E::Privilege, false) => "privilege fault reported",
                (E::Illegal, true) => "illegal vectored",
                (E::Illegal, false) => "illegal reported",
                (E::Format, true) => "format vectored",
                (E::Format, false) => "format reported",
            });
            true
        }
        Ev::Halt => {
            ctx.class("virtual halt");
            true
        }
        Ev::Ins(i) => {
            ctx.class(match i {
                Ins::Br(..) => "op BR",
                Ins::AddR(..) | Ins::AddI(..) => "op ADD",
                Ins::Ld(..) => "op LD",
                Ins::St(..) => "op ST",
                Ins::Jsr(..) => "op JSR",
                Ins::Jsrr(7) => "op JSRR R7",
                Ins::Jsrr(..) => "op JSRR",
                Ins::AndR(..) | Ins::AndI(..) => "op AND",
                Ins::Ldr(..) => "op LDR",
                Ins::Str(..) => "op STR",
                Ins::Rti => if rf.user() { "op RTI to user" } else { "op RTI to supervisor" },
                Ins::Not(..) => "op NOT",
                Ins::Ldi(..) => "op LDI",
                Ins::Sti(..) => "op STI",
                Ins::Jmp(7) => "op RET",
                Ins::Jmp(..) => "op JMP",
                Ins::Lea(..) => "op LEA",
                Ins::Trap(..) => if before_user { "op TRAP from user" } else { "op TRAP from supervisor" },
            });
            ctx.class_if(rf.acc.iter().any(|x| x.0 >= IO && x.1 & READ != 0), "I/O read");
            ctx.class_if(rf.acc.iter().any(|x| x.0 >= IO && x.1 & WRITTEN != 0), "I/O write");
            !matches!(i, Ins::AddR(..) | Ins::AddI(..) | Ins::AndR(..) | Ins::AndI(..) | Ins::Not(..) | Ins::Lea(..)) && !(matches!(i, Ins::Br(..)) && rf.pc == rf.prefetch_pc().wrapping_add(1))
        }
    }
}

/// Steps `rg` against the model, checking architecture each time. Returns number of steps made.
fn lockstep(src: &mut Src, ctx: &mut Ctx, rg: &mut Rig, steps: u64, sig: &str) -> Result<u64, Fail> {
    let mut done = 0;
    for _ in 0..steps {
        if rg.rf.kb.is_some() && src.chance(1, 12) {
            let b = src.below(256) as u8;
            rg.host_key(b);
        }
        let pend = gen_pend(src, rg.ndev);
        let (start, user) = (rg.rf.pc, rg.rf.user());
        let Some((out, got)) = rg.step(&pend)? else {
            ctx.class("left the domain");
            break;
        };
        done += 1;
        ctx.evals += 1;
        rg.check_outcome(out, &got, start, sig)?;
        rg.check_arch(start, matches!(out, Out::Err(_)), sig)?;
        let nt = note_event(ctx, rg, user);
        ctx.nontrivial_if(nt);
        if matches!(out, Out::Err(_)) {
            // host re-aims the machine
            let pc = if src.bool() { start.wrapping_add(1) } else { 0x3000 + src.below(0xCD00) as u16 };
            rg.sim.pc = pc;
            rg.rf.pc = pc;
        } else if out == Out::Halt {
            ensure_eq!(rg.sim.prefetch_pc(), start, sig, "address of the HALT");
            if src.bool() {
                break;
            }
            let pc = start.wrapping_add(1);
            rg.sim.pc = pc;
            rg.rf.pc = pc;
        }
    }
    Ok(done)
}

fn c08_words(src: &mut Src, ctx: &mut Ctx) -> Res {
    let w = src.below(65536) as u16;
    for k in 0..3u64 {
        let mut s = Src::random(mix(&[0xC08, w as u64, k]));
        let mut st = gen_setup(&mut s, false);
        st.ndev = 0;
        st.kb_ie = false;
        let pc = st.pc;
        if pc < IO {
            st.pokes.push((pc, w));
        }
        // registers: small chance that everything is the same, so that aliasing operands differ elsewhere
        ctx.describe(|| format!("word {w:04x} as instruction: {}", st.show()));
        ctx.key(&w);
        let mut rg = Rig::new(&st, false);
        lockstep(&mut s, ctx, &mut rg, 1, "c08-step")?;
        rg.check_memory("c08-memory")?;
    }
    Ok(())
}
fn c08_runs(src: &mut Src, ctx: &mut Ctx) -> Res {
    let st = gen_setup(src, false);
    ctx.describe(|| st.show());
    ctx.key(&format!("{st:?}"));
    let mut rg = Rig::new(&st, false);
    let n = match src.weighted(&[5, 3, 1]) {
        0 => src.range(1, 12),
        1 => src.range(8, 60),
        _ => src.range(50, 400),
    } as u64;
    let d = lockstep(src, ctx, &mut rg, n, "c08-step")?;
    ctx.class_if(d >= 20, "20+ steps");
    rg.check_memory("c08-memory")
}
/// Dense in interrupts, traps, RTI and faults, with known handlers.
fn c08_entry(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut st = Setup::basic(src.bool());
    st.os = src.bool();
    let user = src.bool();
    st.psr = (user as u16) << 15 | (src.below(8) as u16) << 8 | *src.pick(&[1u16, 2, 4]);
    st.ndev = 3;
    st.iregs.push((0xFE10, IReg::SavedSp));
    for i in 0..8 {
        st.r[i] = src.word();
    }
    let sp = 0x2F00 + src.below(0x80) as u16;
    if user {
        st.saved_sp = sp;
        st.r[6] = 0xF000 + src.below(64) as u16;
    } else {
        st.r[6] = sp;
        st.saved_sp = 0xF000 + src.below(64) as u16;
    }
    st.pokes = gen_entry_code(src, st.pc, 16);
    // handlers: short bodies ending in RTI, in supervisor space
    for (k, v) in [0x100u16, 0x101, 0x102, 0x180, 0x181, 0x182, 0x183, 0x184, 0x185, 0x26, 0x27, 0x20, 0x25].into_iter().enumerate() {
        let base = 0x2000 + 16 * k as u16;
        let len = src.below(6) as u16;
        let body = gen_entry_code(src, base, len);
        st.pokes.extend(body);
        st.pokes.push((base + len, Ins::Rti.enc()));
        if !(st.os && (v == 0x20 || v == 0x25)) {
            st.pokes.push((v, base));
        }
    }
    st.kb = Some((0..src.below(4)).map(|_| src.below(256) as u8).collect());
    st.kb_ie = src.bool();
    ctx.describe(|| st.show());
    ctx.key(&format!("{st:?}"));
    let mut rg = Rig::new(&st, false);
    let n = src.range(4, 60) as u64;
    lockstep(src, ctx, &mut rg, n, "c08-step")?;
    rg.check_memory("c08-memory")
}
fn gen_entry_code(src: &mut Src, base: u16, n: u16) -> Vec<(u16, u16)> {
    (0..n)
        .map(|i| {
            let r = src.below(6) as u8;
            let w = match src.weighted(&[5, 2, 2, 2, 3, 1, 1, 2, 1]) {
                0 => Ins::AddI(r, src.below(6) as u8, src.range(-16, 15) as i16).enc(),
                1 => Ins::Br(src.below(8) as u8, src.range(0, 2) as i16).enc(),
                2 => Ins::Trap(*src.pick(&[0x26, 0x27, 0x20, 0x21, 0x25])).enc(),
                3 => Ins::Rti.enc(),
                4 => *src.pick(&[0xD000, 0xF100, 0x9000, 0x4001, 0x1018]),
                5 => Ins::Ldr(r, src.below(8) as u8, 0).enc(),
                6 => Ins::Str(r, src.below(8) as u8, -1).enc(),
                7 => Ins::AddI(6, 6, src.range(-2, 2) as i16).enc(),
                _ => Ins::Jsr(src.range(0, 2) as i16).enc(),
            };
            (base + i, w)
        })
        .collect()
}

// ------------------------------------------------------------------ C27
fn c27_machine(src: &mut Src) -> Setup {
    let mut st = gen_setup(src, true);
    // more well-formed control flow than plain random machines
    if src.chance(2, 3) {
        st.pc = 0x3000 + src.below(0x100) as u16;
        let n = src.range(6, 24) as u16;
        st.pokes = gen_code(src, st.pc, n, 3, true);
        for i in 0..8 {
            if i != 6 && src.chance(2, 3) {
                st.r[i] = st.pc.wrapping_add(src.below(n as u64) as u16);
            }
        }
        if !st.os {
            for v in [0x20u16, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x100, 0x101, 0x102, 0x180, 0x181, 0x182, 0x183, 0x184, 0x185] {
                let t = if src.bool() { st.pc.wrapping_add(src.below(n as u64) as u16) } else { 0x2000 };
                st.pokes.push((v, t));
            }
            st.pokes.push((0x2000, Ins::Rti.enc()));
        }
        if st.psr & 0x8000 != 0 {
            st.saved_sp = 0x2FF0;
            st.r[6] = 0xF000;
        } else {
            st.r[6] = 0x2FF0;
        }
    }
    st
}
fn frame_events(ctx: &mut Ctx, rg: &Rig, before: u64) -> (u64, u64) {
    let now = rg.rf.depth;
    let ret = matches!(rg.rf.ev, Ev::Ins(Ins::Jmp(7) | Ins::Rti));
    ctx.class_if(ret && before == 0, "return at depth 0");
    ctx.class_if(now > before && rg.rf.frames.last().is_some_and(|f| !f.args.is_empty()), "frame with arguments");
    if now > before {
        ctx.class(match rg.rf.frames.last().unwrap().kind {
            Kind::Sub => "subroutine frame",
            Kind::Trap => if rg.rf.frames.last().unwrap().callee >= 0x100 { "exception frame" } else { "trap frame" },
            Kind::Int => "interrupt frame",
        });
    }
    ((now > before) as u64, (now < before) as u64)
}
fn c27(src: &mut Src, ctx: &mut Ctx) -> Res {
    let st = c27_machine(src);
    let debug = src.chance(4, 5);
    ctx.describe(|| format!("debug_frames={debug} {}", st.show()));
    ctx.key(&format!("{st:?}"));
    let mut rg = Rig::new(&st, debug);
    registered(&rg, &st)?;
    let n = src.range(1, 60);
    let (mut pushed, mut popped) = (0, 0);
    for _ in 0..n {
        let pend = gen_pend(src, rg.ndev);
        let (start, d) = (rg.rf.pc, rg.rf.depth);
        let Some((out, got)) = rg.step(&pend)? else { break };
        ctx.evals += 1;
        rg.check_outcome(out, &got, start, "c27-step")?;
        rg.check_depth(start, "c27-depth")?;
        if debug {
            rg.check_frames(start, "c27-frames")?;
        } else {
            ensure!(rg.sim.frame_stack.frames().is_none(), "c27-frames", "frames() is Some with debug frames off");
        }
        let (a, b) = frame_events(ctx, &rg, d);
        pushed += a;
        popped += b;
        match out {
            Out::Err(_) => {
                let pc = st.pc.wrapping_add(src.below(12) as u16);
                rg.sim.pc = pc;
                rg.rf.pc = pc;
            }
            Out::Halt => {
                rg.sim.pc = start.wrapping_add(1);
                rg.rf.pc = start.wrapping_add(1);
            }
            Out::Ok => {}
        }
    }
    ctx.class_if(rg.rf.depth >= 4, "final depth 4+");
    ctx.nontrivial_if(pushed >= 2 && popped >= 1);
    Ok(())
}
/// The signatures reported for callees are the ones registered (last one for each address).
fn registered(rg: &Rig, st: &Setup) -> Res {
    use lc3_ensemble::sim::frame::ParameterList;
    let show = |p: Option<&ParameterList>| -> Option<Sig> {
        Some(match p? {
            ParameterList::CallingConvention { params } => Sig::Stack(params.len() as u16),
            ParameterList::PassByRegister { params, .. } => Sig::Regs(params.iter().map(|x| x.1.reg_no()).collect()),
        })
    };
    let want: std::collections::BTreeMap<u16, &Sig> = st.sigs.iter().map(|(a, s)| (*a, s)).collect();
    for a in st.sigs.iter().map(|x| x.0).chain([0, 0x20, 0x3000, 0xFFFF]) {
        let g = show(rg.sim.frame_stack.get_subroutine_def(a));
        ensure!(g.as_ref() == want.get(&a).copied(), "c27-signature", "signature for {a:04x} is {g:?}, registered: {:?}", want.get(&a));
    }
    for (v, regs) in [(0x20, vec![]), (0x21, vec![0]), (0x22, vec![0]), (0x23, vec![]), (0x24, vec![0]), (0x25, vec![])] {
        let g = show(rg.sim.frame_stack.get_trap_def(v));
        ensure!(g == Some(Sig::Regs(regs.clone())), "c27-signature", "built-in signature of trap {v:02x} is {g:?}, its arguments are in registers {regs:?}");
    }
    Ok(())
}
/// Frame bookkeeping after whole runs rather than single steps.
fn c27_runs(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut st = c27_machine(src);
    st.ndev = 0;
    ctx.describe(|| st.show());
    ctx.key(&format!("{st:?}"));
    let mut rg = Rig::new(&st, true);
    let (mut pushed, mut popped) = (0, 0);
    for _ in 0..src.range(1, 5) {
        let limit = src.range(1, 30) as u64;
        let mut made = 0;
        let sim = &mut rg.sim;
        let mut left = limit;
        let got = nopanic("run_while", || sim.run_while(|_| {
            left = left.wrapping_sub(1);
            left != u64::MAX
        }))?;
        // the run stops after `limit` steps, at a halt, an error, or when the program clears MCR
        rg.rf.mcr = true;
        let mut last = Out::Ok;
        let mut start = rg.rf.pc;
        while made < limit && rg.rf.mcr {
            start = rg.rf.pc;
            let d = rg.rf.depth;
            last = rg.rf.step(&[]);
            if rg.rf.weird {
                return Ok(());
            }
            made += 1;
            let (a, b) = frame_events(ctx, &rg, d);
            pushed += a;
            popped += b;
            if last != Out::Ok {
                break;
            }
        }
        rg.rf.mcr = false;
        ctx.evals += made;
        ensure_eq!(got.is_err(), matches!(last, Out::Err(_)), "c27-run", "run result {got:?}, model {last:?}");
        rg.check_depth(start, "c27-depth")?;
        rg.check_frames(start, "c27-frames")?;
        if last != Out::Ok {
            break;
        }
    }
    ctx.nontrivial_if(pushed >= 2 && popped >= 1);
    Ok(())
}

/// Recursion far deeper than random programs reach, followed by any number of returns.
fn c27_deep(src: &mut Src, ctx: &mut Ctx) -> Res {
    use lc3_ensemble::sim::frame::{FrameType, ParameterList};
    let debug = src.chance(3, 4);
    let jsrr = src.bool();
    let mut st = Setup::basic(src.bool());
    st.pokes = vec![
        (0x3000, Ins::AddI(1, 1, -1).enc()),
        (0x3001, Ins::Br(2, 1).enc()),
        (0x3002, if jsrr { Ins::Jsrr(2).enc() } else { Ins::Jsr(-3).enc() }),
        (0x3003, Ins::AddI(3, 3, -1).enc()),
        (0x3004, Ins::Br(2, 1).enc()),
        (0x3005, Ins::Jmp(7).enc()),
        (0x3006, 0x0000),
    ];
    st.pc = 0x3000;
    let mut rg = Rig::new(&st, debug);
    let sim = &mut rg.sim;
    let by_reg = src.chance(3, 4);
    if by_reg {
        sim.frame_stack.set_subroutine_def(0x3000, ParameterList::with_pass_by_register(&[("n", reg(1))], None));
    }
    let mut want: Vec<u16> = vec![];
    let mut hist = vec![];
    let sizes = [1u64, 10, 100, 127, 128, 255, 256, 257, 300, 512, 1000, 1024, 4096, 32767, 32768, 40_000, 65_534];
    for _ in 0..1 + src.below(4) {
        let (c, r) = (*src.pick(&sizes), match src.below(3) {
            0 => 0,
            1 => want.len() as u64 + src.below(300),
            _ => *src.pick(&sizes),
        });
        let r = r.min(65_534);
        hist.push(format!("{c} calls, {r} returns"));
        let h = &hist;
        ctx.describe(|| format!("debug={debug} jsrr={jsrr} signature={by_reg}: {}", h.join("; ")));
        sim.pc = 0x3000;
        for (i, v) in [(1u8, c as u16 + 1), (2, 0x3000), (3, r as u16 + 1)] {
            sim.reg_file[reg(i)].set(v);
        }
        let at = hist.join("; ");
        for half in 0..2 {
            let end = if half == 0 { 0x3003 } else { 0x3006 };
            let got = nopanic("run_while", || sim.run_while(|s| s.pc != end))?;
            ensure!(got.is_ok() && sim.pc == end, "c27-deep", "[{at}]: {got:?} at {:04x}", sim.pc);
            if half == 0 {
                want.extend((1..=c).rev().map(|x| x as u16));
            } else {
                want.truncate(want.len().saturating_sub(r as usize));
            }
            let n = want.len() as u64;
            ensure_eq!(sim.frame_stack.len(), n, "c27-depth", "frame depth after [{at}] (half {half})");
            ensure_eq!(sim.frame_stack.is_empty(), n == 0, "c27-depth", "is_empty after [{at}] (half {half})");
            let Some(fs) = sim.frame_stack.frames() else {
                ensure!(!debug, "c27-frames", "no frames with debug frames on");
                continue;
            };
            ensure!(debug && fs.len() as u64 == n, "c27-frames", "{} frames listed after [{at}] (half {half}), depth {n}, debug {debug}", fs.len());
            for (k, (f, w)) in fs.iter().zip(&want).enumerate() {
                let a: Vec<u16> = f.arguments.iter().map(|a| a.get()).collect();
                let ok = f.caller_addr == 0x3002 && f.callee_addr == 0x3000 && f.frame_type == FrameType::Subroutine && if by_reg { a == [*w] } else { a.is_empty() };
                ensure!(ok, "c27-frames", "frame {k} after [{at}] (half {half}) is {f:?}, its argument is {w}");
            }
        }
        ctx.evals += c + r;
    }
    ctx.key(&format!("{debug}{jsrr}{by_reg}{hist:?}"));
    ctx.nontrivial_if(want.len() > 255);
    ctx.class_if(want.len() > 65_535, "depth beyond 65535");
    Ok(())
}

// ------------------------------------------------------------------ C28
/// An initialized word written over an uninitialized one with the same data may or may not count as a change.
fn modified_ok(rg: &Rig, modified: bool, k: u8) -> bool {
    modified == (k & MODIFIED != 0) || rg.uninit && k & (WRITTEN | MODIFIED) == WRITTEN
}
fn compare_observer(rg: &mut Rig, model: &std::collections::BTreeMap<u16, u8>, start: u16, drain: bool) -> Res {
    // single-address queries first, then the drained list
    for (&a, &k) in model.iter().filter(|x| *x.0 < IO) {
        let g = rg.sim.observer.get_mem_accesses(a);
        ensure!(
            g.read() == (k & READ != 0) && g.written() == (k & WRITTEN != 0) && modified_ok(rg, g.modified(), k) && g.accessed(),
            "c28-missing",
            "observer for {a:04x} after {start:04x} ({:?}): {g:?}, expected read={} written={} modified={}",
            rg.rf.ev,
            k & READ != 0,
            k & WRITTEN != 0,
            k & MODIFIED != 0
        );
    }
    // what an earlier step touched and this one did not must be gone, drained or not
    for &a in rg.seen.iter().filter(|a| !model.contains_key(a)) {
        let g = rg.sim.observer.get_mem_accesses(a);
        ensure!(!g.accessed(), "c28-stale", "observer still reports {g:?} for {a:04x} after {start:04x} ({:?}), which only earlier steps touched", rg.rf.ev);
    }
    if !drain {
        rg.seen.extend(model.keys().filter(|a| **a < IO));
        return Ok(());
    }
    rg.seen.clear();
    let got: Vec<(u16, _)> = rg.sim.observer.take_mem_accesses().collect();
    for (a, g) in got {
        if a >= IO {
            continue;
        }
        ensure!(!g.accessed() || model.contains_key(&a), "c28-extra", "observer reports {g:?} for {a:04x} after {start:04x} ({:?}); the model touched {model:x?}", rg.rf.ev);
        ensure!(!g.modified() || g.written(), "c28-modified", "{a:04x} modified but not written");
    }
    Ok(())
}
fn merge(m: &mut std::collections::BTreeMap<u16, u8>, acc: &[(u16, u8)]) {
    for &(a, k) in acc {
        *m.entry(a).or_insert(0) |= k;
    }
}
fn c28_steps(src: &mut Src, ctx: &mut Ctx) -> Res {
    let calls = src.chance(1, 3);
    let st = gen_setup(src, calls);
    ctx.describe(|| st.show());
    ctx.key(&format!("{st:?}"));
    let debug = src.chance(1, 3);
    let mut rg = Rig::new(&st, debug);
    ctx.class_if(debug, "debug frames on");
    ctx.class_if(rg.uninit, "uninitialized state");
    for _ in 0..src.range(1, 40) {
        let pend = gen_pend(src, rg.ndev);
        let start = rg.rf.pc;
        let Some((out, got)) = rg.step(&pend)? else { break };
        ctx.evals += 1;
        rg.check_outcome(out, &got, start, "c28-step")?;
        let mut m = Default::default();
        merge(&mut m, &rg.rf.acc);
        let data = m.iter().any(|(&a, &k)| a < IO && (a != start || k != READ));
        ctx.nontrivial_if(data);
        ctx.class_if(m.values().any(|k| k & WRITTEN != 0 && k & MODIFIED == 0), "write of an unchanged value");
        ctx.class_if(matches!(rg.rf.ev, Ev::Int { .. }), "interrupt entry");
        ctx.class_if(matches!(rg.rf.ev, Ev::Fault(_)) && rg.rf.real_traps, "exception entry");
        ctx.class_if(matches!(rg.rf.ev, Ev::Ins(Ins::Rti)), "RTI");
        ctx.class_if(matches!(rg.rf.ev, Ev::Ins(Ins::Ldi(..) | Ins::Sti(..))), "indirect");
        compare_observer(&mut rg, &m, start, src.bool())?;
        if matches!(out, Out::Err(_)) {
            let pc = start.wrapping_add(1);
            rg.sim.pc = pc;
            rg.rf.pc = pc;
        } else if out == Out::Halt {
            break;
        }
    }
    Ok(())
}
fn c28_runs(src: &mut Src, ctx: &mut Ctx) -> Res {
    let calls = src.chance(1, 3);
    let mut st = gen_setup(src, calls);
    st.ndev = 0;
    ctx.describe(|| st.show());
    ctx.key(&format!("{st:?}"));
    let debug = src.chance(1, 3);
    let mut rg = Rig::new(&st, debug);
    for _ in 0..src.range(1, 4) {
        let limit = src.range(1, 60) as u64;
        let how = src.below(2);
        let sim = &mut rg.sim;
        let mut left = limit;
        let tw = |_: &mut lc3_ensemble::sim::Simulator| {
            left = left.wrapping_sub(1);
            left != u64::MAX
        };
        let by_step = how == 1 && limit == 1;
        let got = if by_step { nopanic("step_in", || sim.step_in())? } else { nopanic("run_while", || sim.run_while(tw))? };
        let mut m = Default::default();
        let mut last = Out::Ok;
        let mut made = 0;
        let mut start = rg.rf.pc;
        if !by_step {
            rg.rf.mcr = true;
        }
        while made < limit && (rg.rf.mcr || by_step) {
            start = rg.rf.pc;
            last = rg.rf.step(&[]);
            if rg.rf.weird {
                return Ok(());
            }
            merge(&mut m, &rg.rf.acc);
            made += 1;
            if last != Out::Ok {
                break;
            }
        }
        if !by_step {
            rg.rf.mcr = false;
        }
        ctx.evals += made;
        ctx.class_if(made > 10, "run of 10+ steps");
        ctx.nontrivial_if(m.values().any(|k| k & WRITTEN != 0) && made > 1);
        ensure_eq!(got.is_err(), matches!(last, Out::Err(_)), "c28-run", "run result {got:?}, model {last:?}");
        compare_observer(&mut rg, &m, start, src.bool())?;
        if last != Out::Ok {
            break;
        }
    }
    Ok(())
}
/// Host accesses: untracked contexts leave the observer alone; a step clears what came before.
/// A loop over many addresses: reads, writes, both, or through a pointer.
fn c28_sweep(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut st = Setup::basic(false);
    let n = *src.pick(&[100u16, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1025, 4097, 10_000, 20_000]) + src.below(20) as u16;
    let stride = *src.pick(&[1i16, 1, 2, 3, -1, -2, 7]);
    let dist = n as u32 * stride.unsigned_abs() as u32;
    if dist >= 0xA000 {
        return Ok(());
    }
    let span = dist as u16;
    st.r[1] = if stride > 0 { 0x4000 + src.below((0xFD00 - 0x4000 - span) as u64) as u16 } else { 0xFDF0 - src.below((0xFDF0 - 0x4100 - span) as u64) as u16 };
    st.r[2] = n;
    st.r[4] = st.r[1].wrapping_sub(0x20);
    let mut body: Vec<Ins> = vec![];
    for _ in 0..1 + src.below(3) {
        body.push(match src.below(6) {
            0 => Ins::Ldr(0, 1, 0),
            1 => Ins::Str(0, 1, 0),
            2 => Ins::Str(2, 1, src.below(16) as i16 - 8),
            3 => Ins::Ldr(3, 1, src.below(16) as i16 - 8),
            // the same value again
            4 => Ins::Str(5, 1, 0),
            _ => Ins::AddI(5, 5, 1),
        });
    }
    body.push(Ins::AddI(1, 1, stride));
    body.push(Ins::AddI(2, 2, -1));
    let k = body.len() as i16;
    body.push(Ins::Br(1, -k - 1));
    body.push(Ins::Trap(0x25));
    for (i, x) in body.iter().enumerate() {
        st.pokes.push((0x3000 + i as u16, x.enc()));
    }
    st.pc = 0x3000;
    ctx.describe(|| format!("{n} rounds of {body:?} from {:04x}", st.r[1]));
    ctx.key(&format!("{n}{body:?}{:x}", st.r[1]));
    let mut rg = Rig::new(&st, src.chance(1, 3));
    let total = (body.len() as u64 - 1) * n as u64 + 1;
    let mut made = 0;
    while made < total {
        let limit = if src.chance(1, 3) { 1 + src.below(total) } else { total };
        let limit = limit.min(total - made);
        let mut left = limit;
        let sim = &mut rg.sim;
        let got = nopanic("run_while", || sim.run_while(|_| {
            left = left.wrapping_sub(1);
            left != u64::MAX
        }))?;
        let mut m = Default::default();
        let mut start = rg.rf.pc;
        let mut last = Out::Ok;
        for _ in 0..limit {
            start = rg.rf.pc;
            last = rg.rf.step(&[]);
            merge(&mut m, &rg.rf.acc);
        }
        ensure!(got.is_ok(), "c28-run", "run result {got:?}, model {last:?}");
        made += limit;
        ctx.evals += limit;
        ctx.nontrivial_if(m.len() > 128);
        ctx.class_if(m.len() > 1024, "more than 1024 addresses accessed");
        compare_observer(&mut rg, &m, start, src.bool())?;
    }
    Ok(())
}
fn c28_host(src: &mut Src, ctx: &mut Ctx) -> Res {
    let st = gen_setup(src, false);
    ctx.describe(|| st.show());
    ctx.key(&format!("{st:?}"));
    let debug = src.chance(1, 3);
    let mut rg = Rig::new(&st, debug);
    rg.sim.observer.clear();
    let mut m: std::collections::BTreeMap<u16, u8> = Default::default();
    for _ in 0..src.range(2, 20) {
        let a = word_of(src) % IO;
        match src.weighted(&[3, 3, 2, 2, 3]) {
            0 => {
                let c = if src.bool() { MemAccessCtx::omnipotent() } else { MemAccessCtx { track_access: false, io_effects: src.bool(), privileged: true, strict: false } };
                let v = rg.sim.read_mem(a, c);
                ensure!(matches!(v, Ok(w) if w.get() == rg.rf.mem[a as usize]), "c28-host", "host read of {a:04x}: {v:?}");
                ctx.class("untracked read");
            }
            1 => {
                let v = src.u16();
                let c = if src.bool() { MemAccessCtx::omnipotent() } else { MemAccessCtx { track_access: false, io_effects: src.bool(), privileged: true, strict: false } };
                let r = rg.sim.write_mem(a, Word::new_init(v), c);
                ensure!(r.is_ok(), "c28-host", "host write of {a:04x}: {r:?}");
                rg.rf.mem[a as usize] = v;
                ctx.class("untracked write");
            }
            2 => {
                let c = MemAccessCtx { track_access: true, ..MemAccessCtx::omnipotent() };
                let _ = rg.sim.read_mem(a, c);
                *m.entry(a).or_insert(0) |= READ;
                ctx.class("tracked read");
            }
            3 => {
                let v = if src.bool() { rg.rf.mem[a as usize] } else { src.u16() };
                let c = MemAccessCtx { track_access: true, ..MemAccessCtx::omnipotent() };
                let _ = rg.sim.write_mem(a, Word::new_init(v), c);
                *m.entry(a).or_insert(0) |= WRITTEN | if v != rg.rf.mem[a as usize] { MODIFIED } else { 0 };
                rg.rf.mem[a as usize] = v;
                ctx.class("tracked write");
            }
            _ => {
                let pend = vec![None; rg.ndev];
                let start = rg.rf.pc;
                let Some((out, got)) = rg.step(&pend)? else { break };
                rg.check_outcome(out, &got, start, "c28-step")?;
                m.clear();
                merge(&mut m, &rg.rf.acc);
                ctx.class("step between host accesses");
                ctx.nontrivial();
                if out != Out::Ok {
                    let pc = start.wrapping_add(1);
                    rg.sim.pc = pc;
                    rg.rf.pc = pc;
                }
            }
        }
        ctx.evals += 1;
        for (&x, &k) in m.iter().filter(|x| *x.0 < IO) {
            let g = rg.sim.observer.get_mem_accesses(x);
            ensure!(g.read() == (k & READ != 0) && g.written() == (k & WRITTEN != 0) && modified_ok(&rg, g.modified(), k), "c28-missing", "observer for {x:04x}: {g:?}, expected bits {k}");
        }
        if !m.contains_key(&a) {
            let g = rg.sim.observer.get_mem_accesses(a);
            ensure!(!g.accessed(), "c28-extra", "observer reports {g:?} for {a:04x}, which was only touched by untracked host accesses");
        }
    }
    if !m.is_empty() {
        ctx.nontrivial();
    }
    let start = rg.rf.pc;
    compare_observer(&mut rg, &m, start, true)
}
