//! Independent model of LC-3 instructions: encoding, decoding, conversion from/to the crate's types.
use lc3_ensemble::ast::sim::SimInstr;
use lc3_ensemble::ast::{ImmOrReg, Offset, Reg};

pub const REGS: [Reg; 8] = [Reg::R0, Reg::R1, Reg::R2, Reg::R3, Reg::R4, Reg::R5, Reg::R6, Reg::R7];
pub fn reg(i: u8) -> Reg {
    REGS[i as usize & 7]
}
pub fn rn(r: Reg) -> u8 {
    REGS.iter().position(|&x| x == r).unwrap() as u8
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ins {
    Br(u8, i16),
    AddR(u8, u8, u8),
    AddI(u8, u8, i16),
    Ld(u8, i16),
    St(u8, i16),
    Jsr(i16),
    Jsrr(u8),
    AndR(u8, u8, u8),
    AndI(u8, u8, i16),
    Ldr(u8, u8, i16),
    Str(u8, u8, i16),
    Rti,
    Not(u8, u8),
    Ldi(u8, i16),
    Sti(u8, i16),
    Jmp(u8),
    Lea(u8, i16),
    Trap(u8),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DecErr {
    Illegal,
    Format,
}

fn f(v: u16, lo: u32, w: u32) -> u16 {
    (v >> lo) & ((1u32 << w) - 1) as u16
}
/// sign extension of the low `n` bits
pub fn sext(v: u16, n: u32) -> i16 {
    let m = 1i32 << n;
    let x = (v as i32) & (m - 1);
    (if x >= m / 2 { x - m } else { x }) as i16
}
fn low(v: i16, n: u32) -> u16 {
    (v as i32 & ((1i32 << n) - 1)) as u16
}

impl Ins {
    pub fn enc(self) -> u16 {
        let r = |x: u8, s: u32| (x as u16) << s;
        match self {
            Ins::Br(cc, o) => r(cc, 9) | low(o, 9),
            Ins::AddR(d, a, b) => 0x1000 | r(d, 9) | r(a, 6) | r(b, 0),
            Ins::AddI(d, a, i) => 0x1020 | r(d, 9) | r(a, 6) | low(i, 5),
            Ins::Ld(d, o) => 0x2000 | r(d, 9) | low(o, 9),
            Ins::St(d, o) => 0x3000 | r(d, 9) | low(o, 9),
            Ins::Jsr(o) => 0x4800 | low(o, 11),
            Ins::Jsrr(b) => 0x4000 | r(b, 6),
            Ins::AndR(d, a, b) => 0x5000 | r(d, 9) | r(a, 6) | r(b, 0),
            Ins::AndI(d, a, i) => 0x5020 | r(d, 9) | r(a, 6) | low(i, 5),
            Ins::Ldr(d, b, o) => 0x6000 | r(d, 9) | r(b, 6) | low(o, 6),
            Ins::Str(d, b, o) => 0x7000 | r(d, 9) | r(b, 6) | low(o, 6),
            Ins::Rti => 0x8000,
            Ins::Not(d, a) => 0x903F | r(d, 9) | r(a, 6),
            Ins::Ldi(d, o) => 0xA000 | r(d, 9) | low(o, 9),
            Ins::Sti(d, o) => 0xB000 | r(d, 9) | low(o, 9),
            Ins::Jmp(b) => 0xC000 | r(b, 6),
            Ins::Lea(d, o) => 0xE000 | r(d, 9) | low(o, 9),
            Ins::Trap(v) => 0xF000 | v as u16,
        }
    }
    pub fn dec(w: u16) -> Result<Ins, DecErr> {
        let a = f(w, 9, 3) as u8;
        let b = f(w, 6, 3) as u8;
        let c = f(w, 0, 3) as u8;
        let zero = |lo, n| if f(w, lo, n) == 0 { Ok(()) } else { Err(DecErr::Format) };
        Ok(match w >> 12 {
            0x0 => Ins::Br(a, sext(w, 9)),
            0x1 | 0x5 => {
                let add = w >> 12 == 1;
                if w & 0x20 != 0 {
                    if add { Ins::AddI(a, b, sext(w, 5)) } else { Ins::AndI(a, b, sext(w, 5)) }
                } else {
                    zero(3, 2)?;
                    if add { Ins::AddR(a, b, c) } else { Ins::AndR(a, b, c) }
                }
            }
            0x2 => Ins::Ld(a, sext(w, 9)),
            0x3 => Ins::St(a, sext(w, 9)),
            0x4 => {
                if w & 0x800 != 0 {
                    Ins::Jsr(sext(w, 11))
                } else {
                    zero(9, 2)?;
                    zero(0, 6)?;
                    Ins::Jsrr(b)
                }
            }
            0x6 => Ins::Ldr(a, b, sext(w, 6)),
            0x7 => Ins::Str(a, b, sext(w, 6)),
            0x8 => {
                zero(0, 12)?;
                Ins::Rti
            }
            0x9 => {
                if f(w, 0, 6) != 0x3F {
                    return Err(DecErr::Format);
                }
                Ins::Not(a, b)
            }
            0xA => Ins::Ldi(a, sext(w, 9)),
            0xB => Ins::Sti(a, sext(w, 9)),
            0xC => {
                zero(9, 3)?;
                zero(0, 6)?;
                Ins::Jmp(b)
            }
            0xD => return Err(DecErr::Illegal),
            0xE => Ins::Lea(a, sext(w, 9)),
            _ => {
                zero(8, 4)?;
                Ins::Trap(w as u8)
            }
        })
    }
    pub fn to_sim(self) -> SimInstr {
        fn o<const N: u32>(v: i16) -> Offset<i16, N> {
            Offset::new(v).expect("model offset in range")
        }
        let r = reg;
        match self {
            Ins::Br(cc, v) => SimInstr::BR(cc, o(v)),
            Ins::AddR(d, a, b) => SimInstr::ADD(r(d), r(a), ImmOrReg::Reg(r(b))),
            Ins::AddI(d, a, i) => SimInstr::ADD(r(d), r(a), ImmOrReg::Imm(o(i))),
            Ins::Ld(d, v) => SimInstr::LD(r(d), o(v)),
            Ins::St(d, v) => SimInstr::ST(r(d), o(v)),
            Ins::Jsr(v) => SimInstr::JSR(ImmOrReg::Imm(o(v))),
            Ins::Jsrr(b) => SimInstr::JSR(ImmOrReg::Reg(r(b))),
            Ins::AndR(d, a, b) => SimInstr::AND(r(d), r(a), ImmOrReg::Reg(r(b))),
            Ins::AndI(d, a, i) => SimInstr::AND(r(d), r(a), ImmOrReg::Imm(o(i))),
            Ins::Ldr(d, b, v) => SimInstr::LDR(r(d), r(b), o(v)),
            Ins::Str(d, b, v) => SimInstr::STR(r(d), r(b), o(v)),
            Ins::Rti => SimInstr::RTI,
            Ins::Not(d, a) => SimInstr::NOT(r(d), r(a)),
            Ins::Ldi(d, v) => SimInstr::LDI(r(d), o(v)),
            Ins::Sti(d, v) => SimInstr::STI(r(d), o(v)),
            Ins::Jmp(b) => SimInstr::JMP(r(b)),
            Ins::Lea(d, v) => SimInstr::LEA(r(d), o(v)),
            Ins::Trap(v) => SimInstr::TRAP(Offset::new(v as u16).expect("trap vector")),
        }
    }
    pub fn of_sim(s: &SimInstr) -> Ins {
        match *s {
            SimInstr::BR(cc, v) => Ins::Br(cc, v.get()),
            SimInstr::ADD(d, a, ImmOrReg::Reg(b)) => Ins::AddR(rn(d), rn(a), rn(b)),
            SimInstr::ADD(d, a, ImmOrReg::Imm(i)) => Ins::AddI(rn(d), rn(a), i.get()),
            SimInstr::LD(d, v) => Ins::Ld(rn(d), v.get()),
            SimInstr::ST(d, v) => Ins::St(rn(d), v.get()),
            SimInstr::JSR(ImmOrReg::Imm(v)) => Ins::Jsr(v.get()),
            SimInstr::JSR(ImmOrReg::Reg(b)) => Ins::Jsrr(rn(b)),
            SimInstr::AND(d, a, ImmOrReg::Reg(b)) => Ins::AndR(rn(d), rn(a), rn(b)),
            SimInstr::AND(d, a, ImmOrReg::Imm(i)) => Ins::AndI(rn(d), rn(a), i.get()),
            SimInstr::LDR(d, b, v) => Ins::Ldr(rn(d), rn(b), v.get()),
            SimInstr::STR(d, b, v) => Ins::Str(rn(d), rn(b), v.get()),
            SimInstr::RTI => Ins::Rti,
            SimInstr::NOT(d, a) => Ins::Not(rn(d), rn(a)),
            SimInstr::LDI(d, v) => Ins::Ldi(rn(d), v.get()),
            SimInstr::STI(d, v) => Ins::Sti(rn(d), v.get()),
            SimInstr::JMP(b) => Ins::Jmp(rn(b)),
            SimInstr::LEA(d, v) => Ins::Lea(rn(d), v.get()),
            SimInstr::TRAP(v) => Ins::Trap(v.get() as u8),
        }
    }
    pub fn opcode(self) -> u16 {
        self.enc() >> 12
    }
}

/// Every representable instruction, indexed. `count()` of them in total.
pub const NINS: u64 = 4096 + 512 + 2048 + 4096 + 4096 + 2048 + 8 + 512 + 2048 + 4096 + 4096 + 1 + 64 + 4096 + 4096 + 8 + 4096 + 256;
pub fn nth(mut i: u64) -> Ins {
    let mut take = |n: u64| -> Option<u64> {
        if i < n {
            let v = i;
            i = u64::MAX;
            Some(v)
        } else {
            i -= n;
            None
        }
    };
    let s = |v: u64, n: u32| sext(v as u16, n);
    let r = |v: u64, sh: u32| ((v >> sh) & 7) as u8;
    if let Some(v) = take(4096) { return Ins::Br(r(v, 9), s(v, 9)); }
    if let Some(v) = take(512) { return Ins::AddR(r(v, 6), r(v, 3), r(v, 0)); }
    if let Some(v) = take(2048) { return Ins::AddI(r(v, 8), r(v, 5), s(v, 5)); }
    if let Some(v) = take(4096) { return Ins::Ld(r(v, 9), s(v, 9)); }
    if let Some(v) = take(4096) { return Ins::St(r(v, 9), s(v, 9)); }
    if let Some(v) = take(2048) { return Ins::Jsr(s(v, 11)); }
    if let Some(v) = take(8) { return Ins::Jsrr(r(v, 0)); }
    if let Some(v) = take(512) { return Ins::AndR(r(v, 6), r(v, 3), r(v, 0)); }
    if let Some(v) = take(2048) { return Ins::AndI(r(v, 8), r(v, 5), s(v, 5)); }
    if let Some(v) = take(4096) { return Ins::Ldr(r(v, 9), r(v, 6), s(v, 6)); }
    if let Some(v) = take(4096) { return Ins::Str(r(v, 9), r(v, 6), s(v, 6)); }
    if take(1).is_some() { return Ins::Rti; }
    if let Some(v) = take(64) { return Ins::Not(r(v, 3), r(v, 0)); }
    if let Some(v) = take(4096) { return Ins::Ldi(r(v, 9), s(v, 9)); }
    if let Some(v) = take(4096) { return Ins::Sti(r(v, 9), s(v, 9)); }
    if let Some(v) = take(8) { return Ins::Jmp(r(v, 0)); }
    if let Some(v) = take(4096) { return Ins::Lea(r(v, 9), s(v, 9)); }
    Ins::Trap(i as u8)
}
