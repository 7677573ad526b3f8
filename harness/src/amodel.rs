//! Abstract assembly programs: surface renderer (with the AST the parser must give back), reference layout,
//! reference well-formedness conditions and reference encoder. Nothing here calls the crate's assembler.
use crate::isa::*;
use crate::pbt::Src;
use lc3_ensemble::asm::AsmErrKind;
use lc3_ensemble::ast::asm::{AsmInstr, Directive, Stmt, StmtKind};
use lc3_ensemble::ast::{ImmOrReg, Label, Offset, PCOffset};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Lo {
    Num(i64),
    Lab(String),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum RI {
    R(u8),
    I(i16),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Nuc {
    Add(u8, u8, RI),
    And(u8, u8, RI),
    Not(u8, u8),
    /// (index into BR_NAMES, target)
    Br(usize, Lo),
    Jmp(u8),
    Jsr(Lo),
    Jsrr(u8),
    Ld(u8, Lo),
    Ldi(u8, Lo),
    Lea(u8, Lo),
    St(u8, Lo),
    Sti(u8, Lo),
    Ldr(u8, u8, i16),
    Str(u8, u8, i16),
    Trap(u8),
    Nop(Option<Lo>),
    /// RET RTI GETC OUT PUTC PUTS IN PUTSP HALT
    Alias(usize),
    Orig(u16),
    End,
    Fill(Lo),
    Blkw(u16),
    Stringz(String),
    External(String),
}
pub const BR_NAMES: [(&str, u8); 8] = [("BR", 7), ("BRN", 4), ("BRZ", 2), ("BRP", 1), ("BRNZ", 6), ("BRNP", 5), ("BRZP", 3), ("BRNZP", 7)];
pub const ALIASES: [(&str, u16); 9] = [("RET", 0xC1C0), ("RTI", 0x8000), ("GETC", 0xF020), ("OUT", 0xF021), ("PUTC", 0xF021), ("PUTS", 0xF022), ("IN", 0xF023), ("PUTSP", 0xF024), ("HALT", 0xF025)];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct St {
    pub labels: Vec<String>,
    pub nuc: Nuc,
}
impl St {
    pub fn new(nuc: Nuc) -> St {
        St { labels: vec![], nuc }
    }
    pub fn lab(l: &str, nuc: Nuc) -> St {
        St { labels: vec![l.into()], nuc }
    }
}
pub type Prog = Vec<St>;

impl Nuc {
    pub fn size(&self) -> u32 {
        match self {
            Nuc::Orig(_) | Nuc::End | Nuc::External(_) => 0,
            Nuc::Blkw(n) => *n as u32,
            Nuc::Stringz(s) => s.len() as u32 + 1,
            _ => 1,
        }
    }
    pub fn op(&self) -> Option<&Lo> {
        match self {
            Nuc::Br(_, o) | Nuc::Jsr(o) | Nuc::Ld(_, o) | Nuc::Ldi(_, o) | Nuc::Lea(_, o) | Nuc::St(_, o) | Nuc::Sti(_, o) | Nuc::Nop(Some(o)) | Nuc::Fill(o) => Some(o),
            _ => None,
        }
    }
    pub fn op_mut(&mut self) -> Option<&mut Lo> {
        match self {
            Nuc::Br(_, o) | Nuc::Jsr(o) | Nuc::Ld(_, o) | Nuc::Ldi(_, o) | Nuc::Lea(_, o) | Nuc::St(_, o) | Nuc::Sti(_, o) | Nuc::Nop(Some(o)) | Nuc::Fill(o) => Some(o),
            _ => None,
        }
    }
    /// width of the PC-relative field (None for .fill and everything without one)
    pub fn pc_bits(&self) -> Option<u32> {
        match self {
            Nuc::Jsr(_) => Some(11),
            Nuc::Br(..) | Nuc::Ld(..) | Nuc::Ldi(..) | Nuc::Lea(..) | Nuc::St(..) | Nuc::Sti(..) | Nuc::Nop(Some(_)) => Some(9),
            _ => None,
        }
    }
}

// ------------------------------------------------------------------ rendering

pub struct Rendered {
    pub text: String,
    pub stmts: Vec<Stmt>,
    /// line of each statement's nucleus
    pub line: Vec<usize>,
    pub label_spans: Vec<Vec<Range<usize>>>,
    pub op_span: Vec<Option<Range<usize>>>,
}
struct R<'a> {
    out: String,
    src: Option<&'a mut Src>,
}
impl R<'_> {
    fn below(&mut self, n: u64) -> u64 {
        match &mut self.src {
            Some(s) => s.below(n),
            None => 0,
        }
    }
    /// true with probability num/den, false in canonical style
    fn ch(&mut self, num: u64, den: u64) -> bool {
        match &mut self.src {
            Some(s) => s.chance(num, den),
            None => false,
        }
    }
    fn kw(&mut self, w: &str) {
        if self.src.is_none() {
            self.out.push_str(w);
            return;
        }
        match self.below(4) {
            0 => self.out.push_str(w),
            1 => self.out.push_str(&w.to_ascii_lowercase()),
            _ => {
                let bits = self.below(1 << 10);
                for (i, c) in w.chars().enumerate() {
                    self.out.push(if bits >> (i % 10) & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() });
                }
            }
        }
    }
    fn ws0(&mut self) {
        if self.ch(1, 3) {
            self.ws1();
        }
    }
    fn ws1(&mut self) {
        if self.src.is_none() {
            self.out.push(' ');
            return;
        }
        if self.ch(1, 800) {
            let (n, t) = (10 + self.below(300) as usize, self.below(2));
            self.out.push_str(&(if t == 0 { " " } else { "\t" }).repeat(n));
            return;
        }
        match self.below(6) {
            0..=2 => self.out.push(' '),
            3 => self.out.push('\t'),
            4 => self.out.push_str("   "),
            _ => self.out.push_str(" \t \t"),
        }
    }
    fn comment(&mut self) {
        const C: &[&str] = &["", " comment", " .orig x3000", ";;;", " \"unterminated", " é — ñ 日本語 🙂", " LABEL: ADD R0, R0, #99", " x-", " \\", "\t# @ ! $ % ^ & *", " a | b |  c", " \\u{e9}\\n\\", "====================", "# .DEBUG | ????"];
        let i = self.below(C.len() as u64 + 2) as usize;
        self.out.push(';');
        if let Some(c) = C.get(i) {
            self.out.push_str(c);
        } else if let Some(src) = &mut self.src {
            let max = if src.chance(1, 20) { 400 } else { 12 };
            let t = gen_string(src, false, max);
            self.out.push_str(&t.replace('\n', "\u{b}"));
        }
    }
    fn nl(&mut self) {
        if self.ch(1, 5) {
            self.ws0();
            self.comment();
        }
        self.nl_plain();
        // blank and comment-only lines
        while self.ch(1, 8) {
            self.ws0();
            if self.ch(1, 2) {
                self.comment();
            }
            self.nl_plain();
        }
        if self.ch(1, 500) {
            // a long run of them
            let (n, k) = (20 + self.below(300), self.below(3));
            for i in 0..n {
                if k > 0 && i % k == 0 {
                    self.out.push_str("; blank");
                }
                self.nl_plain();
            }
        }
        self.ws0();
    }
    fn nl_plain(&mut self) {
        if self.ch(1, 5) {
            self.out.push_str("\r\n");
        } else {
            self.out.push('\n');
        }
    }
    fn reg(&mut self, r: u8) {
        self.kw("R");
        if self.ch(1, 20) {
            let z = 1 + self.below(3) as usize;
            self.out.push_str(&"0".repeat(z));
        }
        self.out.push_str(&r.to_string());
    }
    fn num(&mut self, v: i64) {
        let form = self.below(4);
        let zeros = if self.ch(1, 8) { let n = if self.ch(1, 12) { 5 + self.below(60) } else { self.below(5) }; "0".repeat(1 + n as usize) } else { String::new() };
        let neg = v < 0 || (v == 0 && self.ch(1, 10));
        let a = v.abs();
        let sign = if neg { "-" } else { "" };
        match form {
            0 => self.out.push_str(&format!("#{sign}{zeros}{a}")),
            1 => self.out.push_str(&format!("{sign}{zeros}{a}")),
            _ => {
                self.kw("X");
                self.out.push_str(sign);
                self.out.push_str(&zeros);
                let d = format!("{a:X}");
                self.kw(&d);
            }
        }
    }
    fn string(&mut self, s: &str) {
        self.out.push('"');
        let cs: Vec<char> = s.chars().collect();
        for (i, &c) in cs.iter().enumerate() {
            match c {
                '"' => self.out.push_str("\\\""),
                '\n' => self.out.push_str("\\n"),
                '\r' => self.out.push_str("\\r"),
                '\t' => {
                    if self.ch(1, 2) {
                        self.out.push('\t')
                    } else {
                        self.out.push_str("\\t")
                    }
                }
                '\0' => self.out.push_str("\\0"),
                '\\' => {
                    // a backslash before an ordinary character may be written bare
                    let bare = cs.get(i + 1).is_some_and(|n| !"nrt\\0\"\n\r\t\0".contains(*n));
                    if bare && self.ch(1, 2) {
                        self.out.push('\\')
                    } else {
                        self.out.push_str("\\\\")
                    }
                }
                c => self.out.push(c),
            }
        }
        self.out.push('"');
    }
    fn comma(&mut self) {
        if self.src.is_none() {
            self.out.push_str(", ");
            return;
        }
        self.ws0();
        self.out.push(',');
        if self.ch(2, 3) {
            self.ws1();
        }
    }
    /// separator between a keyword and its first operand; may be empty where the next token cannot glue to it
    fn gap(&mut self, glue_ok: bool) {
        if glue_ok && self.ch(1, 12) {
            return;
        }
        self.ws1();
    }
    fn lo(&mut self, o: &Lo, op: &mut Option<Range<usize>>) {
        match o {
            Lo::Num(v) => self.num(*v),
            Lo::Lab(l) => {
                let s = self.out.len();
                self.out.push_str(l);
                *op = Some(s..self.out.len());
            }
        }
    }
    fn nuc(&mut self, n: &Nuc) -> Option<Range<usize>> {
        let mut op = None;
        let two = |r: &mut Self, name: &str, d: u8, o: &Lo, op: &mut Option<Range<usize>>| {
            r.kw(name);
            r.ws1();
            r.reg(d);
            r.comma();
            r.lo(o, op);
        };
        match n {
            Nuc::Add(d, a, x) | Nuc::And(d, a, x) => {
                self.kw(if matches!(n, Nuc::Add(..)) { "ADD" } else { "AND" });
                self.ws1();
                self.reg(*d);
                self.comma();
                self.reg(*a);
                self.comma();
                match x {
                    RI::R(r) => self.reg(*r),
                    RI::I(v) => self.num(*v as i64),
                }
            }
            Nuc::Not(d, a) => {
                self.kw("NOT");
                self.ws1();
                self.reg(*d);
                self.comma();
                self.reg(*a);
            }
            Nuc::Br(i, o) => {
                self.kw(BR_NAMES[*i].0);
                self.ws1();
                self.lo(o, &mut op);
            }
            Nuc::Jmp(r) => {
                self.kw("JMP");
                self.ws1();
                self.reg(*r);
            }
            Nuc::Jsr(o) => {
                self.kw("JSR");
                self.ws1();
                self.lo(o, &mut op);
            }
            Nuc::Jsrr(r) => {
                self.kw("JSRR");
                self.ws1();
                self.reg(*r);
            }
            Nuc::Ld(d, o) => two(self, "LD", *d, o, &mut op),
            Nuc::Ldi(d, o) => two(self, "LDI", *d, o, &mut op),
            Nuc::Lea(d, o) => two(self, "LEA", *d, o, &mut op),
            Nuc::St(d, o) => two(self, "ST", *d, o, &mut op),
            Nuc::Sti(d, o) => two(self, "STI", *d, o, &mut op),
            Nuc::Ldr(d, b, v) | Nuc::Str(d, b, v) => {
                self.kw(if matches!(n, Nuc::Ldr(..)) { "LDR" } else { "STR" });
                self.ws1();
                self.reg(*d);
                self.comma();
                self.reg(*b);
                self.comma();
                self.num(*v as i64);
            }
            Nuc::Trap(v) => {
                self.kw("TRAP");
                self.ws1();
                self.num(*v as i64);
            }
            Nuc::Nop(o) => {
                self.kw("NOP");
                if let Some(o) = o {
                    self.ws1();
                    self.lo(o, &mut op);
                }
            }
            Nuc::Alias(i) => self.kw(ALIASES[*i].0),
            Nuc::Orig(a) => {
                self.kw(".ORIG");
                self.ws1();
                self.num(*a as i64);
            }
            Nuc::End => self.kw(".END"),
            Nuc::Fill(o) => {
                self.kw(".FILL");
                self.ws1();
                self.lo(o, &mut op);
            }
            Nuc::Blkw(k) => {
                self.kw(".BLKW");
                self.ws1();
                self.num(*k as i64);
            }
            Nuc::Stringz(s) => {
                self.kw(".STRINGZ");
                self.gap(true);
                self.string(s);
            }
            Nuc::External(l) => {
                self.kw(".EXTERNAL");
                self.ws1();
                let s = self.out.len();
                self.out.push_str(l);
                op = Some(s..self.out.len());
            }
        }
        op
    }
}

fn pco<const N: u32>(o: &Lo, sp: &Option<Range<usize>>) -> PCOffset<i16, N> {
    match o {
        Lo::Num(v) => PCOffset::Offset(Offset::new(*v as i16).expect("model offset fits")),
        Lo::Lab(l) => PCOffset::Label(Label::new(l.clone(), sp.clone().expect("operand span"))),
    }
}
fn ri(x: &RI) -> ImmOrReg<5> {
    match x {
        RI::R(r) => ImmOrReg::Reg(reg(*r)),
        RI::I(v) => ImmOrReg::Imm(Offset::new(*v).expect("imm5")),
    }
}
pub fn to_real(n: &Nuc, sp: &Option<Range<usize>>) -> StmtKind {
    use AsmInstr as A;
    let r = |x: &u8| reg(*x);
    StmtKind::Instr(match n {
        Nuc::Add(d, a, x) => A::ADD(r(d), r(a), ri(x)),
        Nuc::And(d, a, x) => A::AND(r(d), r(a), ri(x)),
        Nuc::Not(d, a) => A::NOT(r(d), r(a)),
        Nuc::Br(i, o) => A::BR(BR_NAMES[*i].1, pco(o, sp)),
        Nuc::Jmp(b) => A::JMP(r(b)),
        Nuc::Jsr(o) => A::JSR(pco(o, sp)),
        Nuc::Jsrr(b) => A::JSRR(r(b)),
        Nuc::Ld(d, o) => A::LD(r(d), pco(o, sp)),
        Nuc::Ldi(d, o) => A::LDI(r(d), pco(o, sp)),
        Nuc::Lea(d, o) => A::LEA(r(d), pco(o, sp)),
        Nuc::St(d, o) => A::ST(r(d), pco(o, sp)),
        Nuc::Sti(d, o) => A::STI(r(d), pco(o, sp)),
        Nuc::Ldr(d, b, v) => A::LDR(r(d), r(b), Offset::new(*v).expect("offset6")),
        Nuc::Str(d, b, v) => A::STR(r(d), r(b), Offset::new(*v).expect("offset6")),
        Nuc::Trap(v) => A::TRAP(Offset::new(*v as u16).expect("trap")),
        Nuc::Nop(o) => A::NOP(match o {
            Some(o) => pco(o, sp),
            None => PCOffset::Offset(Offset::new(0).expect("0")),
        }),
        Nuc::Alias(i) => match i {
            0 => A::RET,
            1 => A::RTI,
            2 => A::GETC,
            3 => A::OUT,
            4 => A::PUTC,
            5 => A::PUTS,
            6 => A::IN,
            7 => A::PUTSP,
            _ => A::HALT,
        },
        d => {
            return StmtKind::Directive(match d {
                Nuc::Orig(a) => Directive::Orig(Offset::new(*a).expect("u16")),
                Nuc::End => Directive::End,
                Nuc::Fill(Lo::Num(v)) => Directive::Fill(PCOffset::Offset(Offset::new(v.rem_euclid(65536) as u16).expect("u16"))),
                Nuc::Fill(Lo::Lab(l)) => Directive::Fill(PCOffset::Label(Label::new(l.clone(), sp.clone().expect("span")))),
                Nuc::Blkw(k) => Directive::Blkw(Offset::new(*k).expect("u16")),
                Nuc::Stringz(s) => Directive::Stringz(s.clone()),
                Nuc::External(l) => Directive::External(Label::new(l.clone(), sp.clone().expect("span"))),
                _ => unreachable!(),
            })
        }
    })
}

pub fn render(p: &Prog, src: Option<&mut Src>) -> Rendered {
    render_after(String::new(), p, src)
}
/// Renders the program after some text without statements.
pub fn render_after(before: String, p: &Prog, src: Option<&mut Src>) -> Rendered {
    let mut r = R { out: before, src };
    let mut stmts = vec![];
    let mut label_spans = vec![];
    let mut op_span = vec![];
    while r.ch(1, 6) {
        r.nl();
    }
    r.ws0();
    let n = p.len();
    for (k, st) in p.iter().enumerate() {
        let mut ls = vec![];
        let mut labels = vec![];
        for l in &st.labels {
            let s = r.out.len();
            r.out.push_str(l);
            let sp = s..r.out.len();
            labels.push(Label::new(l.clone(), sp.clone()));
            ls.push(sp);
            let colon = r.ch(1, 2);
            if colon {
                if r.ch(1, 6) {
                    r.ws1();
                }
                r.out.push(':');
            }
            if r.ch(1, 4) {
                r.nl();
            } else if colon && r.ch(1, 8) {
                // the colon alone separates the label from what follows
            } else {
                r.ws1();
            }
        }
        let s = r.out.len();
        let op = r.nuc(&st.nuc);
        let span = s..r.out.len();
        stmts.push(Stmt { labels, nucleus: to_real(&st.nuc, &op), span });
        label_spans.push(ls);
        op_span.push(op);
        if k + 1 < n || r.src.is_none() {
            r.ws0();
            r.nl();
        } else {
            // end of input: with or without a final newline or comment
            r.ws0();
            match r.below(4) {
                0 | 1 => r.nl(),
                2 => {}
                _ => r.comment(),
            }
        }
    }
    let (mut at, mut n) = (0, 0);
    let line = stmts
        .iter()
        .map(|s: &Stmt| {
            n += r.out[at..s.span.start].matches('\n').count();
            at = s.span.start;
            n
        })
        .collect();
    Rendered { text: r.out, stmts, line, label_spans, op_span }
}

/// The abstract statement of a parsed one, dropping spans.
pub fn of_real(s: &Stmt) -> (Vec<String>, String) {
    fn strip(k: &StmtKind) -> StmtKind {
        let mut k = k.clone();
        fn z(l: &mut Label) {
            *l = Label::new(l.name.clone(), 0..l.name.len());
        }
        fn p<O, const N: u32>(x: &mut PCOffset<O, N>) {
            if let PCOffset::Label(l) = x {
                z(l)
            }
        }
        match &mut k {
            StmtKind::Instr(AsmInstr::BR(_, o) | AsmInstr::LD(_, o) | AsmInstr::LDI(_, o) | AsmInstr::LEA(_, o) | AsmInstr::ST(_, o) | AsmInstr::STI(_, o) | AsmInstr::NOP(o)) => p(o),
            StmtKind::Instr(AsmInstr::JSR(o)) => p(o),
            StmtKind::Directive(Directive::Fill(o)) => p(o),
            StmtKind::Directive(Directive::External(l)) => z(l),
            _ => {}
        }
        k
    }
    (s.labels.iter().map(|l| l.name.clone()).collect(), format!("{:?}", strip(&s.nucleus)))
}

// ------------------------------------------------------------------ reference layout

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kd {
    UndetAddrLabel,
    UndetAddrStmt,
    UnclosedOrig,
    UnopenedOrig,
    OverlappingOrig,
    OverlappingLabels,
    WrappingBlock,
    BlockInIO,
    OverlappingBlocks,
    OffsetNew,
    OffsetExternal,
    CouldNotFindLabel,
}
pub fn kd(k: &AsmErrKind) -> Kd {
    match k {
        AsmErrKind::UndetAddrLabel => Kd::UndetAddrLabel,
        AsmErrKind::UndetAddrStmt => Kd::UndetAddrStmt,
        AsmErrKind::UnclosedOrig => Kd::UnclosedOrig,
        AsmErrKind::UnopenedOrig => Kd::UnopenedOrig,
        AsmErrKind::OverlappingOrig => Kd::OverlappingOrig,
        AsmErrKind::OverlappingLabels => Kd::OverlappingLabels,
        AsmErrKind::WrappingBlock => Kd::WrappingBlock,
        AsmErrKind::BlockInIO => Kd::BlockInIO,
        AsmErrKind::OverlappingBlocks => Kd::OverlappingBlocks,
        AsmErrKind::OffsetNewErr(_) => Kd::OffsetNew,
        AsmErrKind::OffsetExternal => Kd::OffsetExternal,
        AsmErrKind::CouldNotFindLabel => Kd::CouldNotFindLabel,
    }
}

#[derive(Clone, Debug, Default)]
pub struct Layout {
    pub viol: BTreeSet<Kd>,
    /// every binding: upper-case name -> (address, external) in order
    pub bind: BTreeMap<String, Vec<(u16, bool)>>,
    /// offending label names (upper case) per kind
    pub bad: BTreeMap<Kd, BTreeSet<String>>,
    pub addr: Vec<Option<u16>>,
    /// non-empty blocks (start, len)
    pub blocks: Vec<(u32, u32)>,
    /// label operands (statement, upper-case name, offset to be encoded) of PC-relative instructions that resolve
    pub offs: Vec<(usize, i16)>,
}
pub fn up(s: &str) -> String {
    s.to_uppercase()
}

#[derive(Clone, Copy, PartialEq)]
enum Nest {
    Restart,
    Ignore,
}
fn layout1(p: &Prog, nest: Nest) -> Layout {
    let mut l = Layout { addr: vec![None; p.len()], ..Default::default() };
    let mut cur: Option<(u32, u32)> = None; // (start, length so far)
    let mut depth = 0i32;
    let bad = |l: &mut Layout, k: Kd, name: &str| {
        l.viol.insert(k);
        l.bad.entry(k).or_default().insert(up(name));
    };
    for (i, s) in p.iter().enumerate() {
        for lb in &s.labels {
            match cur {
                None => bad(&mut l, Kd::UndetAddrLabel, lb),
                Some((st, n)) => l.bind.entry(up(lb)).or_default().push(((st + n) as u16, false)),
            }
        }
        match &s.nuc {
            Nuc::Orig(a) => {
                depth += 1;
                match cur {
                    None => cur = Some((*a as u32, 0)),
                    Some(b) => {
                        l.viol.insert(Kd::OverlappingOrig);
                        if nest == Nest::Restart {
                            l.blocks.push(b);
                            cur = Some((*a as u32, 0));
                        }
                    }
                }
            }
            Nuc::End => {
                depth -= 1;
                match cur.take() {
                    None => {
                        l.viol.insert(Kd::UnopenedOrig);
                    }
                    Some(b) => l.blocks.push(b),
                }
            }
            Nuc::External(e) => l.bind.entry(up(e)).or_default().push((0, true)),
            n => match &mut cur {
                None => {
                    l.viol.insert(Kd::UndetAddrStmt);
                }
                Some((st, len)) => {
                    l.addr[i] = Some((*st + *len) as u16);
                    *len += n.size();
                }
            },
        }
    }
    if cur.is_some() || depth > 0 {
        l.viol.insert(Kd::UnclosedOrig);
    }
    if let Some(b) = cur {
        l.blocks.push(b);
    }
    l.blocks.retain(|b| b.1 > 0);
    for &(st, n) in &l.blocks {
        if st + n > 0xFE00 {
            l.viol.insert(Kd::BlockInIO);
        }
        if st + n > 0x10000 {
            l.viol.insert(Kd::WrappingBlock);
        }
    }
    for (i, a) in l.blocks.iter().enumerate() {
        for b in &l.blocks[i + 1..] {
            if a.0 < b.0 + b.1 && b.0 < a.0 + a.1 {
                l.viol.insert(Kd::OverlappingBlocks);
            }
        }
    }
    let names: Vec<(String, Vec<(u16, bool)>)> = l.bind.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for (n, v) in &names {
        if v.iter().any(|x| x.0 != v[0].0) {
            bad(&mut l, Kd::OverlappingLabels, n);
        }
    }
    for (i, s) in p.iter().enumerate() {
        let Some(Lo::Lab(name)) = s.nuc.op() else { continue };
        let Some(bs) = l.bind.get(&up(name)).cloned() else {
            bad(&mut l, Kd::CouldNotFindLabel, name);
            continue;
        };
        let Some(bits) = s.nuc.pc_bits() else { continue };
        for (a, ext) in bs {
            if ext {
                bad(&mut l, Kd::OffsetExternal, name);
                continue;
            }
            let Some(here) = l.addr[i] else { continue };
            let off = a.wrapping_sub(here).wrapping_sub(1) as i16;
            let lim = 1i32 << (bits - 1);
            if (off as i32) < -lim || off as i32 >= lim {
                bad(&mut l, Kd::OffsetNew, name);
            } else {
                l.offs.push((i, off));
            }
        }
    }
    l
}
/// Reference layout. `viol` is exact where the .orig/.end structure is well-formed, and otherwise the union of the
/// conditions violated under both readings of a nested .orig.
pub fn layout(p: &Prog) -> Layout {
    let mut a = layout1(p, Nest::Restart);
    if a.viol.contains(&Kd::OverlappingOrig) {
        let b = layout1(p, Nest::Ignore);
        a.viol.extend(b.viol);
        for (k, v) in b.bad {
            a.bad.entry(k).or_default().extend(v);
        }
    }
    a
}
/// Reference image of a well-formed program. `.fill` of an external label is reported separately (its value is pending).
pub fn image(p: &Prog, l: &Layout) -> (BTreeMap<u16, Option<u16>>, BTreeMap<u16, String>) {
    let mut m = BTreeMap::new();
    let mut pending = BTreeMap::new();
    let offs: BTreeMap<usize, i16> = l.offs.iter().copied().collect();
    for (i, s) in p.iter().enumerate() {
        let Some(a) = l.addr[i] else { continue };
        let off = |o: &Lo| -> i16 {
            match o {
                Lo::Num(v) => *v as i16,
                Lo::Lab(_) => offs[&i],
            }
        };
        let one = match &s.nuc {
            Nuc::Add(d, x, RI::R(b)) => Ins::AddR(*d, *x, *b).enc(),
            Nuc::Add(d, x, RI::I(b)) => Ins::AddI(*d, *x, *b).enc(),
            Nuc::And(d, x, RI::R(b)) => Ins::AndR(*d, *x, *b).enc(),
            Nuc::And(d, x, RI::I(b)) => Ins::AndI(*d, *x, *b).enc(),
            Nuc::Not(d, x) => Ins::Not(*d, *x).enc(),
            Nuc::Br(k, o) => Ins::Br(BR_NAMES[*k].1, off(o)).enc(),
            Nuc::Jmp(r) => Ins::Jmp(*r).enc(),
            Nuc::Jsr(o) => Ins::Jsr(off(o)).enc(),
            Nuc::Jsrr(r) => Ins::Jsrr(*r).enc(),
            Nuc::Ld(d, o) => Ins::Ld(*d, off(o)).enc(),
            Nuc::Ldi(d, o) => Ins::Ldi(*d, off(o)).enc(),
            Nuc::Lea(d, o) => Ins::Lea(*d, off(o)).enc(),
            Nuc::St(d, o) => Ins::St(*d, off(o)).enc(),
            Nuc::Sti(d, o) => Ins::Sti(*d, off(o)).enc(),
            Nuc::Ldr(d, b, o) => Ins::Ldr(*d, *b, *o).enc(),
            Nuc::Str(d, b, o) => Ins::Str(*d, *b, *o).enc(),
            Nuc::Trap(v) => Ins::Trap(*v).enc(),
            Nuc::Nop(None) => 0,
            Nuc::Nop(Some(o)) => Ins::Br(0, off(o)).enc(),
            Nuc::Alias(k) => ALIASES[*k].1,
            Nuc::Fill(Lo::Num(v)) => v.rem_euclid(65536) as u16,
            Nuc::Fill(Lo::Lab(n)) => {
                let b = l.bind[&up(n)][0];
                if b.1 {
                    pending.insert(a, up(n));
                }
                b.0
            }
            Nuc::Blkw(n) => {
                for j in 0..*n {
                    m.insert(a + j, None);
                }
                continue;
            }
            Nuc::Stringz(t) => {
                for (j, b) in t.bytes().chain([0]).enumerate() {
                    m.insert(a + j as u16, Some(b as u16));
                }
                continue;
            }
            Nuc::Orig(_) | Nuc::End | Nuc::External(_) => continue,
        };
        m.insert(a, Some(one));
    }
    (m, pending)
}

// ------------------------------------------------------------------ program generator

#[derive(Clone, Debug)]
pub struct GenCfg {
    pub max_blocks: usize,
    pub max_items: usize,
    pub externals: bool,
    pub unicode: bool,
    /// allow very large .blkw / .stringz
    pub big: bool,
    /// only printable ASCII, tab, newline, CR, NUL in strings
    pub plain_strings: bool,
}
impl Default for GenCfg {
    fn default() -> Self {
        GenCfg { max_blocks: 4, max_items: 14, externals: true, unicode: true, big: true, plain_strings: false }
    }
}
const STEMS: &[&str] = &["A", "b", "Loop", "LOOP2", "end_if", "_x", "__", "data", "Z9", "msg_HELLO", "STRINGZ", "FILL", "ORIG", "addx", "BRx", "BRnzpp", "Rx", "R_1", "X_1", "xylo", "retx", "halted", "JSRs", "a1b2c3", "q", "veryLongLabelNameThatGoesOnAndOn_0123456789", "GETCH", "putsq", "T", "external"];
const USTEMS: &[&str] = &["éa", "lañ", "a日本", "Straße", "ñandu", "xé", "ŉx", "ǰ", "Ωmega", "ﬁx", "İd", "_ſ"];

/// whether the name lexes as a label
pub fn is_label_name(s: &str) -> bool {
    let mut c = s.chars();
    let Some(f) = c.next() else { return false };
    if !(f.is_ascii_alphabetic() || f == '_') {
        return false;
    }
    if !s.chars().all(|c| c == '_' || c.is_alphanumeric()) {
        return false;
    }
    let b = s.as_bytes();
    if b.len() >= 2 && (b[0] | 32) == b'x' && b[1].is_ascii_hexdigit() {
        return false;
    }
    if b.len() >= 2 && (b[0] | 32) == b'r' && b[1..].iter().all(|c| c.is_ascii_digit()) {
        return false;
    }
    let u = s.to_uppercase();
    const KW: &[&str] = &["ADD", "AND", "NOT", "BR", "BRP", "BRZ", "BRZP", "BRN", "BRNP", "BRNZ", "BRNZP", "JMP", "JSR", "JSRR", "LD", "LDI", "LDR", "LEA", "ST", "STI", "STR", "TRAP", "NOP", "RET", "RTI", "GETC", "OUT", "PUTC", "PUTS", "IN", "PUTSP", "HALT"];
    !KW.contains(&u.as_str())
}
pub fn gen_names(src: &mut Src, n: usize, unicode: bool) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut seen = BTreeSet::new();
    while out.len() < n {
        let mut s = if unicode && src.chance(1, 10) {
            let mut t = src.pick(USTEMS).to_string();
            if !t.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') {
                t.insert(0, 'u');
            }
            t
        } else {
            src.pick(STEMS).to_string()
        };
        let mut k = src.below(8);
        loop {
            let t = if k < 4 { s.clone() } else { format!("{s}{}", k) };
            if is_label_name(&t) && !seen.contains(&up(&t)) {
                s = t;
                break;
            }
            k = if k < 4 { 4 } else { k + 1 };
            if k > 60 {
                s = format!("L{}_{}", out.len(), s.len());
            }
        }
        seen.insert(up(&s));
        out.push(s);
    }
    out
}
/// the other case of a letter, where that is one letter and unambiguous
fn flip(c: char) -> Option<char> {
    let one = |mut i: Box<dyn Iterator<Item = char>>| -> Option<char> { let a = i.next()?; i.next().is_none().then_some(a) };
    let (u, l) = (one(Box::new(c.to_uppercase()))?, one(Box::new(c.to_lowercase()))?);
    let o = if u != c { u } else { l };
    (o != c && one(Box::new(o.to_uppercase()))? == u && one(Box::new(o.to_lowercase()))? == l).then_some(o)
}
/// random letter case (the upper-cased name is unchanged)
pub fn recase(src: &mut Src, s: &str) -> String {
    match src.below(3) {
        0 => s.to_string(),
        _ => {
            let bits = src.draw();
            let t: String = s.chars().enumerate().map(|(i, c)| if !c.is_ascii() { if bits >> (i % 60) & 1 == 1 { flip(c).unwrap_or(c) } else { c } } else if bits >> (i % 60) & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            if is_label_name(&t) && up(&t) == up(s) { t } else { s.to_string() }
        }
    }
}
pub fn gen_string(src: &mut Src, plain: bool, max: usize) -> String {
    let n = src.usize(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        // text that means something to the parser or to the object file formats
        if src.chance(1, 24) {
            s.push_str(src.pick(&[" | ", " | a | ", "====", "????", ".TEXT", "\\u{41}", "\\x41", "\\u{110000}", "# ", "LC-3 OBJ FILE", "FFFF", ".end", ".orig x3000", "; ", "//", "\\'"]));
            continue;
        }
        let c = match src.weighted(&[10, 3, 2, if plain { 0 } else { 2 }]) {
            0 => (0x20 + src.below(0x5F) as u8) as char,
            1 => *src.pick(&['\n', '\r', '\t', '\0', '"', '\\', '\'', ';']),
            2 => *src.pick(&['n', 'r', 't', '0', 'x', '\\', '\\']),
            _ => *src.pick(&['é', '日', '🙂', '\u{7f}', '\u{1}', '\u{1b}', 'ß', '\u{a0}', '\u{feff}', '\u{200d}', '\u{2028}']),
        };
        s.push(c);
    }
    s
}
fn small_num(src: &mut Src, bits: u32) -> i64 {
    let lo = -(1i64 << (bits - 1));
    let hi = (1i64 << (bits - 1)) - 1;
    match src.below(6) {
        0 => lo,
        1 => hi,
        2 => 0,
        3 => src.range(-4, 4).clamp(lo, hi),
        _ => src.range(lo, hi),
    }
}
fn r3(src: &mut Src) -> u8 {
    src.below(8) as u8
}
/// a PC-relative instruction with the given operand
pub fn pc_instr(src: &mut Src, o: Lo) -> Nuc {
    match src.below(8) {
        0 => Nuc::Br(src.usize(8), o),
        1 => Nuc::Ld(r3(src), o),
        2 => Nuc::Ldi(r3(src), o),
        3 => Nuc::Lea(r3(src), o),
        4 => Nuc::St(r3(src), o),
        5 => Nuc::Sti(r3(src), o),
        6 => Nuc::Jsr(o),
        _ => Nuc::Nop(Some(o)),
    }
}
pub fn plain_instr(src: &mut Src) -> Nuc {
    match src.below(12) {
        0 => Nuc::Add(r3(src), r3(src), RI::R(r3(src))),
        1 => Nuc::Add(r3(src), r3(src), RI::I(small_num(src, 5) as i16)),
        2 => Nuc::And(r3(src), r3(src), RI::R(r3(src))),
        3 => Nuc::And(r3(src), r3(src), RI::I(small_num(src, 5) as i16)),
        4 => Nuc::Not(r3(src), r3(src)),
        5 => Nuc::Jmp(r3(src)),
        6 => Nuc::Jsrr(r3(src)),
        7 => Nuc::Ldr(r3(src), r3(src), small_num(src, 6) as i16),
        8 => Nuc::Str(r3(src), r3(src), small_num(src, 6) as i16),
        9 => Nuc::Trap(src.below(256) as u8),
        10 => Nuc::Nop(None),
        _ => Nuc::Alias(src.usize(9)),
    }
}
const PENDING: &str = "\u{1}"; // operand to be resolved after layout

/// A well-formed program (by construction), its defined labels and externals.
pub fn gen_prog(src: &mut Src, cfg: &GenCfg) -> Prog {
    // now and then, many of everything
    let crowd = src.chance(1, 300);
    let nb = if crowd { 1 + src.usize(20) } else { [1usize, 1, 2, 2, 3, 4, 0, 1][src.usize(8)].min(cfg.max_blocks) };
    let nlab = 1 + src.usize(if crowd { 120 } else { 10 });
    let next = if cfg.externals && src.chance(1, 2) { 1 + src.usize(if crowd { 30 } else { 3 }) } else { 0 };
    let max_items = if crowd { 60 } else { cfg.max_items };
    let max_labels = if crowd { 30 } else { 3 };
    let label_odds = if crowd { 2 } else { 1 };
    let mut names = gen_names(src, nlab + next, cfg.unicode);
    let exts: Vec<String> = names.split_off(nlab);
    let mut free = names.clone();
    let mut blocks: Vec<Vec<St>> = vec![];
    let mut gadget_no = 0;
    let mut big_left = if cfg.big && src.chance(1, 30) { 1 } else { 0 };
    for _ in 0..nb {
        let mut b: Vec<St> = vec![];
        let ni = if src.chance(1, 12) { 0 } else { 1 + src.usize(max_items) };
        for _ in 0..ni {
            let mut labels = vec![];
            while !free.is_empty() && labels.len() < max_labels && src.chance(label_odds, 3) {
                let k = src.usize(free.len());
                let l = free.remove(k);
                labels.push(l.clone());
                // the same label written twice at one address is no conflict
                if src.chance(1, 15) {
                    labels.push(recase(src, &l));
                }
            }
            let nuc = match src.weighted(&[6, 6, 3, 3, 2, 3, if next > 0 { 3 } else { 0 }, 1, 1]) {
                0 => plain_instr(src),
                1 => pc_instr(src, Lo::Lab(PENDING.into())),
                2 => {
                    let n = small_num(src, 9);
                    pc_instr(src, Lo::Num(n))
                }
                3 => {
                    let v = match src.below(5) {
                        0 => *src.pick(&[0i64, 65535, -32768, -1, 32767, 32768]),
                        1 => src.range(-32768, -1),
                        _ => src.range(0, 65535),
                    };
                    Nuc::Fill(Lo::Num(v))
                }
                4 => Nuc::Fill(Lo::Lab(if next > 0 && src.bool() { let e = src.pick(&exts).clone(); recase(src, &e) } else { PENDING.into() })),
                5 => {
                    if src.bool() {
                        let n = if big_left > 0 && src.chance(1, 3) {
                            big_left -= 1;
                            *src.pick(&[0x2000u16, 0x7FFF, 0x8000, 0xF000, 0xFD00])
                        } else {
                            *src.pick(&[1u16, 1, 2, 3, 5, 16, 100, 255, 256, 300])
                        };
                        Nuc::Blkw(n)
                    } else if big_left > 0 && src.chance(1, 4) {
                        big_left -= 1;
                        let n = *src.pick(&[4000usize, 32767, 60000]);
                        Nuc::Stringz("s".repeat(n))
                    } else {
                        Nuc::Stringz(gen_string(src, cfg.plain_strings, 12))
                    }
                }
                6 => Nuc::External(recase(src, &exts[src.tape.len() % exts.len()].clone())),
                7 => {
                    // a reference exactly at a field limit
                    let l = format!("gadget{gadget_no}");
                    gadget_no += 1;
                    let nine = src.bool();
                    let lim: u16 = if nine { 256 } else { 1024 };
                    let ins = |src: &mut Src, l: &str| {
                        let o = Lo::Lab(recase(src, l));
                        if nine { loop { let n = pc_instr(src, o.clone()); if !matches!(n, Nuc::Jsr(_)) { break n; } if src.tape.len() > 100_000 { break Nuc::Br(0, o); } } } else { Nuc::Jsr(o) }
                    };
                    if src.bool() {
                        b.push(St { labels: [labels.clone(), vec![l.clone()]].concat(), nuc: Nuc::Blkw(lim - 1) });
                        b.push(St::new(ins(src, &l)));
                    } else {
                        b.push(St { labels: labels.clone(), nuc: ins(src, &l) });
                        b.push(St::new(Nuc::Blkw(lim - 1)));
                        b.push(St { labels: vec![l], nuc: plain_instr(src) });
                    }
                    continue;
                }
                _ => {
                    let n = small_num(src, 11);
                    Nuc::Jsr(Lo::Num(n))
                }
            };
            b.push(St { labels, nuc });
        }
        let mut end = St::new(Nuc::End);
        while !free.is_empty() && src.chance(1, 6) {
            end.labels.push(free.pop().unwrap());
        }
        b.push(end);
        blocks.push(b);
    }
    // addresses: non-empty blocks disjoint, below xFE00
    let mut sizes: Vec<u32> = blocks.iter().map(|b| b.iter().map(|s| s.nuc.size()).sum()).collect();
    while sizes.iter().sum::<u32>() > 0xFE00 {
        sizes.pop();
        blocks.pop();
    }
    let origins = place(src, &sizes);
    let mut prog: Prog = vec![];
    let ext_stmt = |src: &mut Src, prog: &mut Prog, exts: &[String]| {
        if !exts.is_empty() && src.chance(1, 3) {
            let e = src.pick(exts).clone();
            prog.push(St::new(Nuc::External(recase(src, &e))));
        }
    };
    for (b, o) in blocks.into_iter().zip(origins) {
        ext_stmt(src, &mut prog, &exts);
        prog.push(St::new(Nuc::Orig(o)));
        prog.extend(b);
    }
    ext_stmt(src, &mut prog, &exts);
    // every external that is used is declared somewhere
    for e in &exts {
        let declared = prog.iter().any(|s| matches!(&s.nuc, Nuc::External(x) if up(x) == up(e)));
        if !declared {
            let d = St::new(Nuc::External(recase(src, e)));
            if src.bool() {
                prog.insert(0, d);
            } else {
                prog.push(d);
            }
        }
    }
    resolve(src, &mut prog);
    prog
}
/// Chooses origins so that the non-empty blocks are disjoint and end at or before xFE00.
pub fn place(src: &mut Src, sizes: &[u32]) -> Vec<u16> {
    let n = sizes.len();
    let mut order: Vec<usize> = (0..n).collect();
    src.shuffle(&mut order);
    let total: u32 = sizes.iter().sum();
    let mut free = 0xFE00 - total;
    let mut at = 0u32;
    let mut out = vec![0u16; n];
    let style = src.below(6);
    for (k, &i) in order.iter().enumerate() {
        let gap = match style {
            0 => 0,                                            // from x0000, touching
            1 if k == 0 => free,                               // ends exactly at xFE00
            1 => 0,
            2 | 3 if k == 0 => free.min(0x3000),               // the usual place
            _ => match src.below(4) {
                0 => 0,
                1 => src.below(8) as u32,
                _ => src.below(free as u64 / 2 + 1) as u32,
            },
        }
        .min(free);
        free -= gap;
        at += gap;
        out[i] = at as u16;
        if sizes[i] == 0 {
            // an empty block may sit anywhere
            if src.bool() {
                out[i] = src.word();
            }
        }
        at += sizes[i];
    }
    out
}
/// Replaces pending label operands by reachable labels (or numbers if there are none).
pub fn resolve(src: &mut Src, prog: &mut Prog) {
    let l = layout1(prog, Nest::Restart);
    let mut defs: Vec<(String, u16)> = vec![];
    let mut ext_names: BTreeSet<String> = BTreeSet::new();
    for s in prog.iter() {
        for n in &s.labels {
            if let Some(v) = l.bind.get(&up(n)) {
                defs.push((n.clone(), v[0].0));
            }
        }
        if let Nuc::External(e) = &s.nuc {
            ext_names.insert(up(e));
        }
    }
    defs.retain(|(n, _)| !ext_names.contains(&up(n)));
    for (i, s) in prog.iter_mut().enumerate() {
        let here = l.addr[i];
        let bits = s.nuc.pc_bits();
        let Some(o) = s.nuc.op_mut() else { continue };
        if *o != Lo::Lab(PENDING.into()) {
            continue;
        }
        let Some(here) = here else { continue };
        let mut c: Vec<(i32, &String)> = defs
            .iter()
            .map(|(n, a)| (a.wrapping_sub(here).wrapping_sub(1) as i16 as i32, n))
            .filter(|(d, _)| bits.is_none_or(|b| *d >= -(1 << (b - 1)) && *d < 1 << (b - 1)))
            .collect();
        if c.is_empty() {
            *o = Lo::Num(0);
            continue;
        }
        c.sort_by_key(|x| x.0.abs());
        let k = if src.chance(1, 3) { c.len() - 1 } else { src.usize(c.len()) };
        let name = c[k].1.clone();
        *o = Lo::Lab(recase(src, &name));
    }
}

/// Injects one random fault; the result may still be well-formed (the reference decides).
pub fn inject(src: &mut Src, p: &mut Prog, names: &[String]) {
    let n = p.len();
    let pick_stmt = |src: &mut Src, p: &Prog, f: &dyn Fn(&St) -> bool| -> Option<usize> {
        let c: Vec<usize> = p.iter().enumerate().filter(|(_, s)| f(s)).map(|(i, _)| i).collect();
        if c.is_empty() { None } else { Some(*src.pick(&c)) }
    };
    let any_label = |src: &mut Src, p: &Prog| -> Option<String> {
        let c: Vec<String> = p.iter().flat_map(|s| s.labels.iter().cloned()).collect();
        if c.is_empty() { None } else { Some(src.pick(&c).clone()) }
    };
    match src.below(15) {
        0 => if let Some(i) = pick_stmt(src, p, &|s| matches!(s.nuc, Nuc::Orig(_))) { p.remove(i); },
        1 => if let Some(i) = pick_stmt(src, p, &|s| matches!(s.nuc, Nuc::End)) { p.remove(i); },
        2 => { let i = src.usize(n + 1); p.insert(i, St::new(Nuc::Orig(src.word()))); }
        3 => { let i = src.usize(n + 1); p.insert(i, St::new(Nuc::End)); }
        4 => if let Some(l) = any_label(src, p) {
            // the same label somewhere else, in any case
            if !p.is_empty() {
                let i = src.usize(p.len());
                let l = recase(src, &l);
                p[i].labels.push(l);
            }
        },
        5 => if let Some(i) = pick_stmt(src, p, &|s| matches!(s.nuc.op(), Some(Lo::Lab(_)))) {
            // usually undefined: an unrelated name, or one close to a defined label (the reference decides)
            let near = any_label(src, p).unwrap_or_else(|| "z".into());
            let name = match src.below(7) {
                0 => "nosuchlabel".to_string(),
                1 => (*src.pick(&["_", "__", "_undefined", "_0", "q", "Z", "EXTERN", "PC", "ORIG", "END", "main"])).to_string(),
                2 => format!("{near}_"),
                3 => format!("_{near}"),
                4 => format!("{near}0"),
                5 => near.chars().take(near.chars().count().saturating_sub(1)).collect(),
                _ => near.chars().rev().collect(),
            };
            let name = if is_label_name(&name) { name } else { "nosuchlabel".into() };
            if let Some(o) = p[i].nuc.op_mut() { *o = Lo::Lab(name); }
        },
        6 => {
            // external label as operand
            let e: Vec<String> = p.iter().filter_map(|s| if let Nuc::External(e) = &s.nuc { Some(e.clone()) } else { None }).collect();
            if let (false, Some(i)) = (e.is_empty(), pick_stmt(src, p, &|s| s.nuc.op().is_some())) {
                let e = src.pick(&e).clone();
                let e = recase(src, &e);
                *p[i].nuc.op_mut().unwrap() = Lo::Lab(e);
            }
        }
        7 => {
            // statement outside of any block
            let nuc = if src.bool() { plain_instr(src) } else { Nuc::Fill(Lo::Num(7)) };
            let at = if src.bool() { 0 } else { n };
            p.insert(at, St::new(nuc));
        }
        8 => {
            // label outside of any block (on .external or .orig)
            if let Some(i) = pick_stmt(src, p, &|s| matches!(s.nuc, Nuc::External(_) | Nuc::Orig(_))) {
                let name = src.pick(names).clone();
                p[i].labels.push(name);
            }
        }
        9 => if let Some(i) = pick_stmt(src, p, &|s| matches!(s.nuc, Nuc::Blkw(_))) {
            // shift things by one: offsets one past the limit
            if let Nuc::Blkw(k) = &mut p[i].nuc { *k = k.saturating_add(1); }
        },
        10 | 11 => {
            // move a block to the edge of memory, or onto another one
            if let Some(i) = pick_stmt(src, p, &|s| matches!(s.nuc, Nuc::Orig(_))) {
                let size: u32 = p[i + 1..].iter().take_while(|s| !matches!(s.nuc, Nuc::End)).map(|s| s.nuc.size()).sum();
                let others: Vec<(u32, u32)> = layout1(p, Nest::Restart).blocks;
                let d = src.range(-1, 1);
                let a = match src.below(5) {
                    0 => 0xFE00i64 - size as i64 + d,
                    1 => 0x10000i64 - size as i64 + d,
                    2 if !others.is_empty() => { let o = *src.pick(&others); o.0 as i64 + o.1 as i64 + d }
                    3 if !others.is_empty() => { let o = *src.pick(&others); o.0 as i64 - size as i64 + d }
                    _ => src.word() as i64,
                };
                p[i].nuc = Nuc::Orig(a.rem_euclid(65536) as u16);
            }
        }
        12 => if let Some(l) = any_label(src, p) {
            // declare a defined label external
            let i = src.usize(n + 1);
            let l = recase(src, &l);
            p.insert(i, St::new(Nuc::External(l)));
        },
        13 => {
            // a far label operand
            if let (Some(i), Some(l)) = (pick_stmt(src, p, &|s| s.nuc.pc_bits().is_some()), any_label(src, p)) {
                let l = recase(src, &l);
                *p[i].nuc.op_mut().unwrap() = Lo::Lab(l);
            }
        }
        _ => {
            // grow a block past the end
            let i = src.usize(n + 1);
            p.insert(i, St::new(Nuc::Blkw(*src.pick(&[0x100u16, 0x400, 0x4000, 0xCE00, 0xCE01, 0xD000, 0xFE00, 0xFFFF]))));
        }
    }
}
pub fn dump(p: &Prog) -> String {
    render(p, None).text
}

// ------------------------------------------------------------------ large programs

/// Sizes on both sides of the powers of two that lengths and counts could be cut to.
fn size(src: &mut Src, max: usize) -> usize {
    let all = [17usize, 64, 127, 128, 254, 255, 256, 257, 300, 511, 513, 1000, 1025, 4096, 5000, 32767, 32768, 32769, 40_000, 60_000];
    let n = all.iter().filter(|x| **x <= max).count();
    all[src.usize(n)]
}
/// A well-formed program that is large in one or a few respects, and text to precede it.
pub fn gen_large(src: &mut Src, from: u16, to: u16, tag: &str) -> (Prog, String) {
    let mut p: Prog = vec![];
    let mut lc = from as usize;
    let to = to as usize;
    let mut decl: Vec<String> = vec![];
    for ax in 0..1 + src.below(3) {
        let room = to.saturating_sub(lc);
        if room < 2000 {
            break;
        }
        let lab = |k: usize| format!("{tag}_{ax}_{k}");
        p.push(St::new(Nuc::Orig(lc as u16)));
        match src.below(9) {
            0 => {
                // (parsing takes quadratic time)
                let most = *src.pick(&[5000usize, 5000, 5000, 5000, 5000, 5000, 5000, 33_000]);
                let n = size(src, most.min(room - 100));
                let kind = src.below(3);
                for k in 0..n {
                    p.push(St::new(match kind {
                        0 => Nuc::Fill(Lo::Num((k % 65536) as i64)),
                        1 => Nuc::Add((k % 8) as u8, (k / 8 % 8) as u8, RI::I((k % 16) as i16)),
                        _ if k % 5 == 4 && n * 2 < room => Nuc::Blkw(2),
                        _ => Nuc::Nop(None),
                    }));
                }
            }
            1 => {
                let n = size(src, 1000.min(room - 100));
                for k in 0..n {
                    p.push(St::lab(&lab(k), Nuc::Fill(Lo::Lab(lab((k * 7 + 3) % n)))));
                }
            }
            2 => {
                let n = size(src, 1000.min(room / 3));
                for k in 0..n {
                    p.push(St::lab(&lab(k), Nuc::Ld(1, Lo::Lab(lab(k)))));
                    p.push(St::new(Nuc::End));
                    lc += 1 + (k % 2);
                    p.push(St::new(Nuc::Orig(lc as u16)));
                }
            }
            3 => {
                let n = size(src, 400);
                for k in 0..n {
                    p.push(St::new(Nuc::Fill(Lo::Lab(format!("E{}", lab(k))))));
                    decl.push(format!("E{}", lab(k)));
                }
            }
            4 => {
                let n = size(src, 1500.min(room - 100));
                for k in 0..n {
                    p.push(St::new(if k % 3 == 1 { Nuc::Fill(Lo::Num(k as i64)) } else { Nuc::Fill(Lo::Lab(format!("E{}", lab(k % 2)))) }));
                }
                decl.extend([format!("E{}", lab(0)), format!("E{}", lab(1))]);
            }
            5 => {
                let n = *src.pick(&[64usize, 127, 128, 255, 256, 257, 300, 1000, 65535, 65536, 70_000]);
                let l = format!("{tag}{}", "y".repeat(n - tag.len()));
                let e = format!("{tag}{}", "z".repeat(n - tag.len()));
                p.push(St::lab(&l, Nuc::Fill(Lo::Lab(l.clone()))));
                p.push(St::new(Nuc::Lea(2, Lo::Lab(l))));
                p.push(St::new(Nuc::Fill(Lo::Lab(e.clone()))));
                if !decl.contains(&e) && !p.iter().any(|s| matches!(&s.nuc, Nuc::External(x) if *x == e)) {
                    decl.push(e);
                }
                if p.iter().filter(|s| s.labels.iter().any(|x| x.len() == n)).count() > 1 {
                    // the same label as an earlier part's: not two definitions
                    p.truncate(p.len() - 3);
                }
            }
            6 => {
                let n = size(src, 32768.min(room - 100));
                let c = *src.pick(&["q", "é", " ", "\"", "\\", "\n", "\t"]);
                let k = n / c.len();
                p.push(St::new(Nuc::Stringz(c.repeat(k))));
                p.push(St::lab(&lab(0), Nuc::Fill(Lo::Num(1))));
            }
            7 => {
                let n = *src.pick(&[255usize, 256, 0x7FFF, 0x8000, 0x8001, 0xC000]);
                let n = n.min(room - 100);
                p.push(St::lab(&lab(0), Nuc::Blkw(n as u16)));
                p.push(St::lab(&lab(1), Nuc::Fill(Lo::Lab(lab(1)))));
            }
            _ => {
                let n = size(src, 400);
                p.push(St { labels: (0..n).map(lab).collect(), nuc: Nuc::Jsr(Lo::Lab(lab(n - 1))) });
            }
        }
        // (every .orig inside carries the running address)
        let last = p.iter().rposition(|s| matches!(s.nuc, Nuc::Orig(_))).unwrap_or(0);
        lc += p[last..].iter().map(|s| s.nuc.size() as usize).sum::<usize>();
        p.push(St::new(Nuc::End));
        lc += src.usize(3);
    }
    for e in decl {
        let front = src.bool();
        p.insert(if front { 0 } else { p.len() }, St::new(Nuc::External(e)));
    }
    let before = match src.below(6) {
        0 => "\n".repeat(if src.chance(1, 3) { *src.pick(&[65_534usize, 65_535, 65_536, 70_000]) } else { *src.pick(&[255usize, 256, 257, 1000, 5000]) }),
        1 => format!("; {}\n", "c".repeat(*src.pick(&[253usize, 254, 300, 1000, 65_535, 65_536, 70_000]))),
        2 => " ".repeat(*src.pick(&[255usize, 256, 257, 1000, 65_535, 65_536])),
        3 => ";x\n".repeat(*src.pick(&[300usize, 5_000])),
        _ => String::new(),
    };
    (p, before)
}
pub fn large_rendered(src: &mut Src, from: u16, to: u16, tag: &str) -> (Prog, Rendered) {
    let (p, before) = gen_large(src, from, to, tag);
    let r = if p.len() < 1200 && src.bool() { render_after(before, &p, Some(src)) } else { render_after(before, &p, None) };
    (p, r)
}
