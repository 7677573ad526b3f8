//! Generator of terminating, structured user-mode programs (with loops, subroutines, a stack and OS traps).
use crate::isa::*;
use crate::pbt::*;
use crate::rig::Setup;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Halt,
    Illegal,
    Format,
    Privilege,
    Access,
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub base: u16,
    pub words: Vec<u16>,
    pub end: End,
    /// offsets of subroutine entries
    pub subs: Vec<u16>,
    pub keys: Vec<u8>,
    pub r: [u16; 8],
    pub n_traps: usize,
    pub n_loops: usize,
    pub n_calls: usize,
    /// offset of the final (halting or faulting) instruction
    pub last: u16,
}
#[derive(Clone, Copy)]
pub struct POpts {
    pub input: bool,
    pub output: bool,
    pub faults: bool,
    /// rough size of the program
    pub size: usize,
}
const S_STACK: usize = 1;
const S_CNT: usize = 2;
const N_CNT: usize = 8;
const S_VAL: usize = S_CNT + N_CNT;
const N_VAL: usize = 6;
const S_PTR: usize = S_VAL + N_VAL;
const N_PTR: usize = 3;
const S_BAD: usize = S_PTR + N_PTR;
const S_ARR: usize = S_BAD + 1;
const N_ARR: usize = 6;
const S_STR: usize = S_ARR + N_ARR;
const N_STR: usize = 6;
const S_PCK: usize = S_STR + N_STR;
const N_PCK: usize = 4;
const S_END: usize = S_PCK + N_PCK;

struct G<'a> {
    src: &'a mut Src,
    o: POpts,
    w: Vec<u16>,
    limit: usize,
    cnt: usize,
    nsubs: usize,
    calls: Vec<(usize, usize)>,
    traps: usize,
    loops: usize,
    /// R6 is never used as a stack pointer (so it may be anything)
    nostack: bool,
}
impl G<'_> {
    fn e(&mut self, i: Ins) {
        self.w.push(i.enc());
    }
    fn off(&self, slot: usize) -> i16 {
        let o = slot as i16 - (self.w.len() as i16 + 1);
        assert!(o >= -256, "generated program too long");
        o
    }
    fn reg(&mut self) -> u8 {
        self.src.below(6) as u8
    }
    fn full(&self) -> bool {
        self.w.len() >= self.limit
    }
    fn block(&mut self, depth: u32, sub: usize, n: i64) {
        for _ in 0..n {
            if self.full() {
                return;
            }
            self.stmt(depth, sub);
        }
    }
    fn stmt(&mut self, depth: u32, sub: usize) {
        let io = (self.o.output as u32) * 5;
        let inp = (self.o.input as u32) * 2;
        let nest = if depth < 3 { 3 } else { 0 };
        let k = self.src.weighted(&[8, 4, 4, 4, 3, if self.nostack { 0 } else { nest }, nest, nest, if sub < self.nsubs { 4 } else { 0 }, io, io / 2, inp, io / 3]);
        let (a, b, c) = (self.reg(), self.reg(), self.reg());
        match k {
            0 => {
                let i = self.src.range(-16, 15) as i16;
                let ins = match self.src.below(6) {
                    0 | 1 => Ins::AddI(a, b, i),
                    2 => Ins::AddR(a, b, c),
                    3 => Ins::AndI(a, b, i),
                    4 => Ins::AndR(a, b, c),
                    _ => Ins::Not(a, b),
                };
                self.e(ins);
            }
            1 => {
                let s = S_VAL + self.src.usize(N_VAL);
                let o = self.off(s);
                self.e(Ins::Ld(a, o));
            }
            2 => {
                let s = S_VAL + self.src.usize(N_VAL);
                let o = self.off(s);
                self.e(Ins::St(a, o));
            }
            3 => {
                let o = self.off(S_ARR);
                self.e(Ins::Lea(a, o));
                let i = self.src.usize(N_ARR) as i16;
                if self.src.bool() {
                    self.e(Ins::Ldr(b, a, i));
                } else {
                    self.e(Ins::Str(b, a, i));
                }
            }
            4 => {
                let s = S_PTR + self.src.usize(N_PTR);
                let o = self.off(s);
                if self.src.bool() {
                    self.e(Ins::Ldi(a, o));
                } else {
                    self.e(Ins::Sti(a, o));
                }
            }
            5 => {
                // push, block, pop
                self.e(Ins::AddI(6, 6, -1));
                self.e(Ins::Str(a, 6, 0));
                let n = self.src.range(1, 3);
                self.block(depth + 1, sub, n);
                self.e(Ins::Ldr(b, 6, 0));
                self.e(Ins::AddI(6, 6, 1));
            }
            6 => {
                let cc = self.src.below(8) as u8;
                let p = self.w.len();
                self.e(Ins::Br(cc, 0));
                let n = self.src.range(1, 3);
                self.block(depth + 1, sub, n);
                let o = self.w.len() as i16 - (p as i16 + 1);
                self.w[p] = Ins::Br(cc, o).enc();
            }
            7 => {
                if self.cnt >= N_CNT {
                    return;
                }
                let slot = S_CNT + self.cnt;
                self.cnt += 1;
                self.loops += 1;
                self.e(Ins::AndI(a, a, 0));
                let n = self.src.range(1, 4) as i16;
                self.e(Ins::AddI(a, a, n));
                let o = self.off(slot);
                self.e(Ins::St(a, o));
                let top = self.w.len();
                let n = self.src.range(1, 3);
                self.block(depth + 1, sub, n);
                let o = self.off(slot);
                self.e(Ins::Ld(a, o));
                self.e(Ins::AddI(a, a, -1));
                let o = self.off(slot);
                self.e(Ins::St(a, o));
                let o = top as i16 - (self.w.len() as i16 + 1);
                self.e(Ins::Br(1, o));
            }
            8 => {
                let t = sub + self.src.usize(self.nsubs - sub);
                self.calls.push((self.w.len(), t));
                self.w.push(0);
            }
            9 => {
                self.traps += 1;
                self.e(Ins::Trap(0x21));
            }
            10 => {
                self.traps += 1;
                let o = self.off(S_STR);
                self.e(Ins::Lea(0, o));
                self.e(Ins::Trap(0x22));
            }
            11 => {
                self.traps += 1;
                let v = if self.src.chance(2, 3) || !self.o.output { 0x20 } else { 0x23 };
                self.e(Ins::Trap(v));
            }
            _ => {
                self.traps += 1;
                let o = self.off(S_PCK);
                self.e(Ins::Lea(0, o));
                self.e(Ins::Trap(0x24));
            }
        }
    }
}
pub const FAR: u16 = 0x5000;

pub fn gen_prog(src: &mut Src, o: POpts) -> Prog {
    let base = if src.bool() { 0x3000 } else { *src.pick(&[0x3000u16, 0x3001, 0x4000, 0x7FC0, 0xFC00]) };
    let r: [u16; 8] = std::array::from_fn(|i| if i == 6 && src.bool() { 0xFB00 } else { src.word() });
    let keys: Vec<u8> = if o.input { (0..48).map(|_| 1 + src.below(255) as u8).collect() } else { vec![] };
    let nostack = src.chance(1, 3);
    let nsubs = if nostack { 0 } else { src.usize(4) };
    let mut g = G { src, o, w: vec![0; S_END], limit: 60, cnt: 0, nsubs, calls: vec![], traps: 0, loops: 0, nostack };
    g.w[0] = Ins::Br(7, S_END as i16 - 1).enc();
    g.w[S_STACK] = match nostack {
        true => g.src.word(),
        // a user stack anywhere in user space away from the program
        false => match g.src.below(4) {
            0 | 1 => 0xFB00 - g.src.below(16) as u16,
            2 => 0xFE00 - g.src.below(4) as u16,
            _ => if base >= 0x4000 { 0x3020 + g.src.below(16) as u16 } else { 0x6000 + g.src.word() % 0x1000 },
        },
    };
    for i in 0..N_VAL {
        g.w[S_VAL + i] = g.src.word();
    }
    for i in 0..N_PTR {
        g.w[S_PTR + i] = match g.src.below(3) {
            0 => base + (S_ARR + g.src.usize(N_ARR)) as u16,
            1 => base + (S_VAL + g.src.usize(N_VAL)) as u16,
            _ => FAR + g.src.below(4) as u16,
        };
    }
    for i in 0..N_ARR {
        g.w[S_ARR + i] = g.src.word();
    }
    let n = g.src.usize(N_STR);
    for i in 0..n {
        g.w[S_STR + i] = 1 + g.src.below(255) as u16;
    }
    let n = g.src.usize(N_PCK * 2 - 1);
    for i in 0..n {
        g.w[S_PCK + i / 2] |= (1 + g.src.below(255) as u16) << (8 * (i % 2));
    }
    // main
    let o6 = g.off(S_STACK);
    g.e(Ins::Ld(6, o6));
    let size = o.size as i64;
    g.limit = S_END + 8 + o.size * 5;
    let n = g.src.range(1, size.max(1));
    g.block(0, 0, n);
    // end
    let end = if o.faults && g.src.chance(3, 4) { *g.src.pick(&[End::Illegal, End::Format, End::Privilege, End::Access, End::Access]) } else { End::Halt };
    let mut last = None;
    match end {
        End::Halt => g.e(Ins::Trap(0x25)),
        End::Illegal => {
            let v = 0xD000 | g.src.below(0x1000) as u16;
            g.w.push(v);
        }
        End::Format => {
            let v = *g.src.pick(&[0x9000u16, 0x1008, 0x5010, 0x4001, 0x4600, 0xC001, 0xCE00, 0xF100, 0x8001]);
            g.w.push(v);
        }
        End::Privilege => g.e(Ins::Rti),
        End::Access => {
            g.w[S_BAD] = *g.src.pick(&[0u16, 0x25, 0x0200, 0x2FFF, 0xFE00, 0xFE02, 0xFE04, 0xFE06, 0xFFFC, 0xFFFE, 0xFFFF, 0x2800]);
            let a = g.reg();
            let b = g.reg();
            match g.src.below(5) {
                0 => {
                    let o = g.off(S_BAD);
                    g.e(Ins::Ldi(a, o));
                }
                1 => {
                    let o = g.off(S_BAD);
                    g.e(Ins::Sti(a, o));
                }
                k => {
                    let o = g.off(S_BAD);
                    g.e(Ins::Ld(a, o));
                    match k {
                        2 => g.e(Ins::Ldr(b, a, 0)),
                        3 => g.e(Ins::Str(b, a, 0)),
                        _ => {
                            // the jump itself works, the fetch at the target faults
                            g.e(if a == 0 { Ins::Jsrr(a) } else { Ins::Jmp(a) });
                            last = Some(g.w.len() as u16 - 1);
                        }
                    }
                }
            }
        }
    }
    let last = last.unwrap_or(g.w.len() as u16 - 1);
    // filler behind the end, never executed
    g.e(Ins::Trap(0x25));
    let mut subs = vec![];
    for k in 0..nsubs {
        subs.push(g.w.len() as u16);
        let has_frame = g.src.chance(3, 4);
        if has_frame {
            g.e(Ins::AddI(6, 6, -1));
            g.e(Ins::Str(7, 6, 0));
        }
        let keep = g.nsubs;
        if !has_frame {
            g.nsubs = k + 1; // leaf: no calls
        }
        g.limit = (g.w.len() + 16).min(200);
        let n = g.src.range(1, 4);
        g.block(1, k + 1, n);
        g.nsubs = keep;
        if has_frame {
            g.e(Ins::Ldr(7, 6, 0));
            g.e(Ins::AddI(6, 6, 1));
        }
        g.e(Ins::Jmp(7));
    }
    for &(p, t) in &g.calls {
        let d = subs[t] as i16 - (p as i16 + 1);
        g.w[p] = Ins::Jsr(d).enc();
    }
    Prog { base, end, subs, keys, r, n_traps: g.traps, n_loops: g.loops, n_calls: g.calls.len(), last, words: g.w }
}
impl Prog {
    pub fn setup(&self, real: bool) -> Setup {
        let mut s = Setup::basic(real);
        s.pokes = self.words.iter().enumerate().map(|(i, &w)| (self.base + i as u16, w)).collect();
        s.r = self.r;
        s.pc = self.base;
        s.kb = Some(self.keys.clone());
        s
    }
    pub fn show(&self) -> String {
        let code: Vec<String> = self.words.iter().enumerate().skip(S_END).map(|(i, &w)| {
            let a = self.base + i as u16;
            match Ins::dec(w) {
                Ok(x) => format!("{a:04x}:{x:?}"),
                _ => format!("{a:04x}:{w:04x}"),
            }
        }).collect();
        let data: Vec<String> = self.words[..S_END].iter().map(|w| format!("{w:04x}")).collect();
        format!("base={:04x} end={:?} r={:x?} keys={:?}.. data=[{}] code=[{}]", self.base, self.end, self.r, &self.keys[..self.keys.len().min(4)], data.join(" "), code.join(" "))
    }
}
