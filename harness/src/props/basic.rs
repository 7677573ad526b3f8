//! C05, C06, C07, C35: exhaustively enumerable value-level properties.
use crate::isa::*;
use crate::pbt::*;
use lc3_ensemble::asm::assemble;
use lc3_ensemble::ast::asm::{disassemble, disassemble_line, try_disassemble_line, AsmInstr, Directive, StmtKind};
use lc3_ensemble::ast::sim::SimInstr;
use lc3_ensemble::ast::{ImmOrReg, Offset, OffsetNewErr, PCOffset};
use lc3_ensemble::parse::lex::Token;
use lc3_ensemble::parse::{parse_ast, Parser};
use lc3_ensemble::sim::SimErr;

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C05",
            rule: "a case is one integer value (or digit string, or register spelling), checked in every notation and operand position; every case is non-trivial",
            assumptions: &["digit strings in random suites are at most 60 characters"],
            suites: vec![exhaustive("ints", 210_001, c05_ints), suite("huge", 40_000, 1_000_000, c05_huge), exhaustive("regs", 70_000, c05_regs), suite("regs_random", 20_000, 400_000, c05_regs_random)],
        },
        Property {
            id: "C06",
            rule: "every 16-bit word and every representable instruction is enumerated; non-trivial = words with must-be-zero/one bits, or any instruction",
            assumptions: &["BR condition codes are 0..=7 (the documented range of CondCode)"],
            suites: vec![exhaustive("words", 65536, c06_words), exhaustive("instrs", NINS, c06_instrs)],
        },
        Property {
            id: "C07",
            rule: "every 16-bit word is disassembled, printed and reassembled at several origins",
            assumptions: &["origins sampled: lowest, highest loadable, x3000 and two pseudo-random addresses per word"],
            suites: vec![exhaustive("words", 65536, c07_words), suite("blocks", 40_000, 1_000_000, c07_blocks)],
        },
        Property {
            id: "C35",
            rule: "every (value, N) pair for N in 1..=16, signed and unsigned; non-trivial = pairs where truncation changes the value for at least one N",
            assumptions: &[],
            suites: vec![exhaustive("values", 65536, c35)],
        },
    ]
}

// ------------------------------------------------------------------ C35
macro_rules! each_n {
    ($m:ident, $($a:expr),*) => {
        $m!(1 $(, $a)*); $m!(2 $(, $a)*); $m!(3 $(, $a)*); $m!(4 $(, $a)*); $m!(5 $(, $a)*); $m!(6 $(, $a)*); $m!(7 $(, $a)*); $m!(8 $(, $a)*);
        $m!(9 $(, $a)*); $m!(10 $(, $a)*); $m!(11 $(, $a)*); $m!(12 $(, $a)*); $m!(13 $(, $a)*); $m!(14 $(, $a)*); $m!(15 $(, $a)*); $m!(16 $(, $a)*);
    };
}
fn c35(src: &mut Src, ctx: &mut Ctx) -> Res {
    let v = src.below(65536) as u16;
    ctx.describe(|| format!("value {v:#06x} for every N"));
    ctx.key(&v);
    let sv = v as i16;
    let mut changed = 0u64;
    let mut accepted = 0u64;
    macro_rules! one {
        ($n:literal, $_x:expr) => {{
            // unsigned
            let m: i64 = 1 << $n;
            let fits = (v as i64) < m;
            let got = nopanic("Offset::<u16>::new", || Offset::<u16, $n>::new(v))?;
            match got {
                Ok(o) => {
                    ensure!(fits, "c35-accept", "Offset::<u16,{}>::new({v}) accepted although not representable", $n);
                    ensure_eq!(o.get(), v, "c35-value", "Offset::<u16,{}>::new({v})", $n);
                }
                Err(e) => {
                    ensure!(!fits, "c35-reject", "Offset::<u16,{}>::new({v}) rejected although representable", $n);
                    ensure_eq!(e, OffsetNewErr::CannotFitUnsigned($n), "c35-err", "error of Offset::<u16,{}>::new({v})", $n);
                }
            }
            let t = nopanic("Offset::<u16>::new_trunc", || Offset::<u16, $n>::new_trunc(v).get())?;
            ensure_eq!(t as i64, v as i64 % m, "c35-trunc", "Offset::<u16,{}>::new_trunc({v})", $n);
            // signed
            let sfits = (sv as i64) >= -(m / 2) && (sv as i64) < m / 2;
            let got = nopanic("Offset::<i16>::new", || Offset::<i16, $n>::new(sv))?;
            match got {
                Ok(o) => {
                    ensure!(sfits, "c35-accept", "Offset::<i16,{}>::new({sv}) accepted although not representable", $n);
                    ensure_eq!(o.get(), sv, "c35-value", "Offset::<i16,{}>::new({sv})", $n);
                }
                Err(e) => {
                    ensure!(!sfits, "c35-reject", "Offset::<i16,{}>::new({sv}) rejected although representable", $n);
                    ensure_eq!(e, OffsetNewErr::CannotFitSigned($n), "c35-err", "error of Offset::<i16,{}>::new({sv})", $n);
                }
            }
            let t = nopanic("Offset::<i16>::new_trunc", || Offset::<i16, $n>::new_trunc(sv).get())?;
            let r = (sv as i64).rem_euclid(m);
            let want = if r >= m / 2 { r - m } else { r };
            ensure_eq!(t as i64, want, "c35-trunc", "Offset::<i16,{}>::new_trunc({sv})", $n);
            if !fits || !sfits { changed += 1; }
            if fits || sfits { accepted += 1; }
            ctx.evals += 4;
        }};
    }
    each_n!(one, 0);
    ctx.class_n(changed, "N where some form is unrepresentable");
    ctx.class_n(accepted, "N where some form is representable");
    ctx.nontrivial_if(changed > 0);
    Ok(())
}

// ------------------------------------------------------------------ C06
fn c06_words(src: &mut Src, ctx: &mut Ctx) -> Res {
    let w = src.below(65536) as u16;
    ctx.describe(|| format!("word {w:#06x}"));
    ctx.key(&w);
    let want = Ins::dec(w);
    let got = nopanic("SimInstr::decode", || SimInstr::decode(w))?;
    match (&got, want) {
        (Ok(g), Ok(m)) => {
            ensure_eq!(Ins::of_sim(g), m, "c06-instr", "decode({w:#06x})");
            ensure_eq!(*g, m.to_sim(), "c06-instr", "decode({w:#06x})");
            let e = nopanic("encode", || g.encode())?;
            ensure_eq!(e, w, "c06-reencode", "re-encoding of {w:#06x}");
            ensure_eq!(g.opcode(), w >> 12, "c06-opcode", "opcode of {w:#06x}");
            ctx.class("decodable");
        }
        (Err(SimErr::IllegalOpcode), Err(DecErr::Illegal)) => ctx.class("illegal opcode"),
        (Err(SimErr::InvalidInstrFormat), Err(DecErr::Format)) => ctx.class("invalid format"),
        _ => return fail("c06-accept", format!("decode({w:#06x}) = {got:?}, expected {want:?}")),
    }
    ctx.nontrivial();
    Ok(())
}
fn c06_instrs(src: &mut Src, ctx: &mut Ctx) -> Res {
    let i = nth(src.below(NINS));
    ctx.describe(|| format!("{i:?}"));
    ctx.key(&i);
    let s = i.to_sim();
    let e = nopanic("encode", || s.encode())?;
    ensure_eq!(e, i.enc(), "c06-encode", "encoding of {i:?}");
    let d = nopanic("decode", || SimInstr::decode(e))?;
    match d {
        Ok(d) => ensure_eq!(d, s, "c06-roundtrip", "decode(encode({i:?}))"),
        Err(er) => return fail("c06-roundtrip", format!("decode(encode({i:?})) failed: {er:?}")),
    }
    ctx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ C07
fn reassemble(text: &str, origin: u16) -> Result<Vec<(u16, Option<u16>)>, Fail> {
    let s = format!(".orig x{origin:X}\n{text}\n.end\n");
    let ast = match nopanic("parse_ast", || parse_ast(&s))? {
        Ok(a) => a,
        Err(e) => return fail("c07-parse", format!("disassembled text does not parse: {s:?}: {e}")),
    };
    match nopanic("assemble", || assemble(ast))? {
        Ok(o) => {
            let mut v: Vec<_> = o.addr_iter().collect();
            v.sort();
            Ok(v)
        }
        Err(e) => fail("c07-assemble", format!("disassembled text does not assemble: {s:?}: {e}")),
    }
}
fn c07_words(src: &mut Src, ctx: &mut Ctx) -> Res {
    let w = src.below(65536) as u16;
    ctx.key(&w);
    let st = nopanic("disassemble_line", || disassemble_line(w))?;
    let text = nopanic("Display", || st.to_string())?;
    ctx.describe(|| format!("word {w:#06x} -> {text:?}"));
    let h = mix(&[w as u64, 7]);
    for o in [0x0000u16, 0x3000, 0xFDFF, (h % 0xFE00) as u16, ((h >> 20) % 0xFE00) as u16] {
        let img = reassemble(&text, o)?;
        ensure_eq!(img, vec![(o, Some(w))], "c07-word", "{w:#06x} -> {text:?} at {o:#06x}");
        ctx.evals += 1;
    }
    let is_instr = w >= 0x200 && Ins::dec(w).is_ok();
    match &st.nucleus {
        StmtKind::Directive(Directive::Fill(_)) => ensure!(!is_instr, "c07-kind", "instruction {w:#06x} came back as .fill"),
        StmtKind::Instr(_) => ensure!(is_instr, "c07-kind", "{w:#06x} came back as instruction {text:?}, expected .fill"),
        o => return fail("c07-kind", format!("{w:#06x} came back as {o:?}")),
    }
    ensure!(st.labels.is_empty(), "c07-labels", "{w:#06x}: disassembly has labels");
    ensure_eq!(try_disassemble_line(w).is_some(), is_instr, "c07-try", "try_disassemble_line({w:#06x}).is_some()");
    let up = text.trim().to_uppercase();
    let alias: &[&str] = match w {
        0xC1C0 => &["RET"],
        0xF020 => &["GETC"],
        0xF021 => &["PUTC", "OUT"],
        0xF022 => &["PUTS"],
        0xF023 => &["IN"],
        0xF024 => &["PUTSP"],
        0xF025 => &["HALT"],
        0x8000 => &["RTI"],
        _ => &[],
    };
    if !alias.is_empty() {
        ensure!(alias.contains(&up.as_str()), "c07-alias", "{w:#06x} printed as {text:?}, expected one of {alias:?}");
        ctx.class("alias");
    }
    ctx.class_if(is_instr, "instruction");
    ctx.class_if(!is_instr, "fill");
    ctx.nontrivial();
    Ok(())
}
/// Blocks of words disassembled together and reassembled in place.
fn c07_blocks(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 1 + src.usize(200);
    let o = src.below((0xFE00 - n as u64) + 1) as u16;
    let ws: Vec<u16> = (0..n).map(|_| src.word()).collect();
    ctx.describe(|| format!("origin {o:#06x} words {ws:04X?}"));
    let ss = nopanic("disassemble", || disassemble(&ws))?;
    ensure_eq!(ss.len(), n, "c07-len", "number of statements");
    let text: Vec<String> = ss.iter().map(|s| s.to_string()).collect();
    let img = reassemble(&text.join("\n"), o)?;
    let want: Vec<_> = ws.iter().enumerate().map(|(i, &w)| (o + i as u16, Some(w))).collect();
    ensure_eq!(img, want, "c07-block", "block at {o:#06x}");
    // the statements themselves (without printing) assemble to the same words
    for (i, w) in ws.iter().enumerate() {
        ensure_eq!(disassemble_line(*w).nucleus, ss[i].nucleus, "c07-disassemble", "disassemble vs disassemble_line for {w:#06x}");
    }
    ctx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ C05
#[derive(Clone, Copy, Debug, PartialEq)]
enum Num {
    Big,
    V(i64),
}
/// A literal: its text, its value, and whether it is written in signed form.
struct Lit {
    text: String,
    val: Num,
    signed: bool,
}
fn lits_for(v: i64) -> Vec<Lit> {
    let mut out = vec![];
    let z = ["", "0", "000000"];
    for (k, zs) in z.iter().enumerate() {
        if v >= 0 {
            let mut p = |t: String| out.push(Lit { text: t, val: Num::V(v), signed: false });
            p(format!("{zs}{v}"));
            p(format!("#{zs}{v}"));
            p(format!("x{zs}{v:x}"));
            p(format!("X{zs}{v:X}"));
            if k == 0 {
                p(format!("x{v:X}"));
                let mixed: String = format!("{v:x}").chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
                p(format!("X{mixed}"));
            }
        }
        if v <= 0 {
            let a = -v;
            let mut p = |t: String| out.push(Lit { text: t, val: Num::V(v), signed: true });
            p(format!("-{zs}{a}"));
            p(format!("#-{zs}{a}"));
            p(format!("x-{zs}{a:x}"));
            p(format!("X-{zs}{a:X}"));
        }
    }
    out
}
impl Lit {
    fn in_token_range(&self) -> bool {
        match self.val {
            Num::Big => false,
            Num::V(v) => if self.signed { (-32768..=32767).contains(&v) } else { (0..=65535).contains(&v) },
        }
    }
}
/// (operand kind, statement template before the operand)
const POSITIONS: &[(&str, &str)] = &[
    ("i5", "ADD R0, R1, "), ("i5", "and r7,r2,"), ("i6", "LDR R3, R4, "), ("i6", "STR R5, R6, "),
    ("i9", "BR "), ("i9", "BRn "), ("i9", "LD R1, "), ("i9", "LDI R2, "), ("i9", "LEA R3, "), ("i9", "ST R4, "), ("i9", "STI R5, "), ("i9", "NOP "),
    ("i11", "JSR "), ("u8", "TRAP "), ("orig", ".orig "), ("blkw", ".blkw "), ("fill", ".fill "),
];
fn operand(k: &StmtKind) -> Option<i64> {
    fn p<const N: u32>(p: &PCOffset<i16, N>) -> Option<i64> {
        match p {
            PCOffset::Offset(o) => Some(o.get() as i64),
            _ => None,
        }
    }
    Some(match k {
        StmtKind::Instr(AsmInstr::ADD(_, _, ImmOrReg::Imm(i)) | AsmInstr::AND(_, _, ImmOrReg::Imm(i))) => i.get() as i64,
        StmtKind::Instr(AsmInstr::LDR(_, _, i) | AsmInstr::STR(_, _, i)) => i.get() as i64,
        StmtKind::Instr(AsmInstr::BR(_, o) | AsmInstr::LD(_, o) | AsmInstr::LDI(_, o) | AsmInstr::LEA(_, o) | AsmInstr::ST(_, o) | AsmInstr::STI(_, o) | AsmInstr::NOP(o)) => p(o)?,
        StmtKind::Instr(AsmInstr::JSR(o)) => p(o)?,
        StmtKind::Instr(AsmInstr::TRAP(v)) => v.get() as i64,
        StmtKind::Directive(Directive::Orig(v) | Directive::Blkw(v)) => v.get() as i64,
        StmtKind::Directive(Directive::Fill(PCOffset::Offset(v))) => v.get() as i64,
        _ => return None,
    })
}
fn fits(kind: &str, lit: &Lit) -> Option<i64> {
    if !lit.in_token_range() {
        return None;
    }
    let Num::V(v) = lit.val else { return None };
    let s = |n: u32| (v >= -(1 << (n - 1)) && v < 1 << (n - 1)).then_some(v);
    match kind {
        "i5" => s(5),
        "i6" => s(6),
        "i9" => s(9),
        "i11" => s(11),
        "u8" => (0..256).contains(&v).then_some(v),
        "orig" => (0..65536).contains(&v).then_some(v),
        "blkw" => (1..65536).contains(&v).then_some(v),
        "fill" => Some(v.rem_euclid(65536)),
        _ => unreachable!(),
    }
}
fn check_lit(lit: &Lit, positions: &[(&str, &str)], ctx: &mut Ctx) -> Res {
    let t = &lit.text;
    let got = nopanic("Parser::new", || Parser::new(t))?;
    match got {
        Ok(mut p) => {
            ensure!(lit.in_token_range(), "c05-accept", "literal {t:?} accepted as {:?} although out of range", p.peek());
            let Num::V(v) = lit.val else { unreachable!() };
            let want = if lit.signed { Token::Signed(v as i16) } else { Token::Unsigned(v as u16) };
            ensure_eq!(p.peek(), Some(&(want, 0..t.len())), "c05-token", "token for {t:?}");
            p.advance();
            ensure!(p.peek().is_none(), "c05-token", "{t:?} lexed as more than one token");
        }
        Err(e) => ensure!(!lit.in_token_range(), "c05-reject", "literal {t:?} rejected ({e}) although in range"),
    }
    ctx.evals += 1;
    for (kind, pre) in positions {
        let s = format!("{pre}{t}\n");
        let want = fits(kind, lit);
        let got = nopanic("parse_ast", || parse_ast(&s))?;
        match (&got, want) {
            (Ok(ast), Some(v)) => {
                ensure_eq!(ast.len(), 1, "c05-operand", "statements in {s:?}");
                ensure_eq!(operand(&ast[0].nucleus), Some(v), "c05-operand", "operand of {s:?}");
            }
            (Err(_), None) => {}
            (Ok(_), None) => return fail("c05-operand-accept", format!("{s:?} accepted although the value does not fit")),
            (Err(e), Some(_)) => return fail("c05-operand-reject", format!("{s:?} rejected ({e}) although the value fits")),
        }
        ctx.evals += 1;
        ctx.class_if(want.is_some(), "operand fits");
        ctx.class_if(want.is_none(), "operand rejected");
    }
    Ok(())
}
fn c05_ints(src: &mut Src, ctx: &mut Ctx) -> Res {
    let v = src.below(210_001) as i64 - 70_000;
    ctx.describe(|| format!("integer {v}"));
    ctx.key(&v);
    for lit in lits_for(v) {
        check_lit(&lit, POSITIONS, ctx)?;
    }
    ctx.nontrivial();
    Ok(())
}
fn c05_huge(src: &mut Src, ctx: &mut Ctx) -> Res {
    let hex = src.bool();
    let neg = src.bool();
    let zeros = if src.chance(1, 3) { src.usize(30) } else { 0 };
    let most = if src.bool() { 7 } else { 30 };
    let nd = 1 + src.usize(most);
    let mut digs = String::new();
    let mut val: Option<i64> = Some(0);
    for _ in 0..nd {
        let d = src.below(if hex { 16 } else { 10 }) as i64;
        let c = char::from_digit(d as u32, 16).unwrap();
        digs.push(if src.bool() { c.to_ascii_uppercase() } else { c });
        val = val.and_then(|v| v.checked_mul(if hex { 16 } else { 10 })).and_then(|v| v.checked_add(d)).filter(|v| *v < 1 << 40);
    }
    let pre = match (hex, src.bool(), neg) {
        (true, a, n) => format!("{}{}", if a { "x" } else { "X" }, if n { "-" } else { "" }),
        (false, a, n) => format!("{}{}", if a { "#" } else { "" }, if n { "-" } else { "" }),
    };
    let text = format!("{pre}{}{digs}", "0".repeat(zeros));
    ctx.describe(|| text.clone());
    ctx.key(&text);
    let val = match val {
        None => Num::Big,
        Some(v) => Num::V(if neg { -v } else { v }),
    };
    ctx.class_if(val == Num::Big, "huge");
    let lit = Lit { text, val, signed: neg };
    ctx.class_if(lit.in_token_range(), "in range");
    check_lit(&lit, POSITIONS, ctx)?;
    ctx.nontrivial();
    Ok(())
}
fn check_reg(text: &str, val: Option<u8>, ctx: &mut Ctx) -> Res {
    let got = nopanic("Parser::new", || Parser::new(text))?;
    match (&got, val) {
        (Ok(p), Some(v)) => {
            ensure_eq!(p.peek(), Some(&(Token::Reg(v), 0..text.len())), "c05-reg", "token for {text:?}");
        }
        (Ok(p), None) => return fail("c05-reg", format!("{text:?} accepted as {:?}", p.peek())),
        (Err(e), Some(_)) => return fail("c05-reg", format!("{text:?} rejected: {e}")),
        (Err(_), None) => {}
    }
    let forms: [(String, fn(u8) -> AsmInstr); 4] = [
        (format!("JMP {text}"), |r| AsmInstr::JMP(reg(r))),
        (format!("NOT R1, {text}"), |r| AsmInstr::NOT(reg(1), reg(r))),
        (format!("ADD {text}, R2, R3"), |r| AsmInstr::ADD(reg(r), reg(2), ImmOrReg::Reg(reg(3)))),
        (format!("AND R0, R2, {text}"), |r| AsmInstr::AND(reg(0), reg(2), ImmOrReg::Reg(reg(r)))),
    ];
    for (s, f) in forms {
        let got = nopanic("parse_ast", || parse_ast(&s))?;
        match (&got, val) {
            (Ok(a), Some(v)) => {
                let n: Vec<_> = a.iter().map(|s| s.nucleus.clone()).collect();
                ensure_eq!(n, vec![StmtKind::Instr(f(v))], "c05-reg", "{s:?}");
            }
            (Err(_), None) => {}
            _ => return fail("c05-reg", format!("{s:?}: accepted={} expected register {val:?}", got.is_ok())),
        }
        ctx.evals += 1;
    }
    ctx.class_if(val.is_some(), "valid register");
    ctx.class_if(val.is_none(), "invalid register");
    ctx.nontrivial();
    Ok(())
}
fn c05_regs(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.below(70_000);
    ctx.describe(|| format!("register number {n}"));
    ctx.key(&n);
    let v = (n < 8).then_some(n as u8);
    for t in [format!("R{n}"), format!("r{n}"), format!("R0{n}"), format!("r000{n}")] {
        check_reg(&t, v, ctx)?;
    }
    Ok(())
}
fn c05_regs_random(src: &mut Src, ctx: &mut Ctx) -> Res {
    let z = src.usize(12);
    let nd = 1 + src.usize(24);
    let mut d = String::new();
    for _ in 0..nd {
        d.push(char::from_digit(src.below(10) as u32, 10).unwrap());
    }
    // numbers that are 0..7 modulo a power of two
    if src.chance(1, 2) {
        let k = *src.pick(&[8u32, 16, 32, 64]);
        let m = 1 + src.below(5) as u128;
        d = (m * (1u128 << k) + src.below(8) as u128).to_string();
    }
    let text = format!("{}{}{d}", if src.bool() { "R" } else { "r" }, "0".repeat(z));
    ctx.describe(|| text.clone());
    ctx.key(&text);
    let t = d.trim_start_matches('0');
    let v = match t.len() {
        0 => Some(0),
        1 => t.parse::<u8>().ok().filter(|v| *v < 8),
        _ => None,
    };
    check_reg(&text, v, ctx)
}
