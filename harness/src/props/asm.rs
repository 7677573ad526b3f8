//! C01, C02, C03, C04, C23, C24, C25, C26, C36: parser, assembler, symbol table, source positions, error spans.
use crate::amodel::*;
use crate::isa::reg;
use crate::pbt::*;
use lc3_ensemble::asm::{assemble, assemble_debug, AsmErr, ObjectFile, SourceInfo, SymbolTable};
use lc3_ensemble::ast::asm::{Directive, Stmt, StmtKind};
use lc3_ensemble::err::{ErrSpan, Error};
use lc3_ensemble::parse::parse_ast;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "a case is one well-formed program in random surface style; non-trivial = it defines at least one word from a label operand and has at least two statements",
            assumptions: &["programs have at most 4 blocks of at most 14 items each; block sizes up to xFE00 words are sampled", "operands outside their field are covered by C02 and C05"],
            suites: vec![suite("programs", 400_000, 12_000_000, c01), suite("edges", 100_000, 3_000_000, c01_edges), suite("large", 150, 10_000, c01_large)],
        },
        Property {
            id: "C02",
            rule: "a case is one parsed program; non-trivial = the reference finds at least one violated condition, or the program has a label operand",
            assumptions: &["where .orig/.end nesting is itself broken, the error may name a condition violated under either reading of the nesting", "programs binding a name both as a label at x0000 and as .external are only checked for not panicking"],
            suites: vec![suite("faults", 600_000, 15_000_000, c02_faults), exhaustive("tiny", tiny_count(), c02_tiny), suite("soup", 300_000, 8_000_000, c02_soup), suite("large", 150, 10_000, c02_large)],
        },
        Property {
            id: "C03",
            rule: "a case is one statement list rendered twice in random surface style; non-trivial = at least three statements",
            assumptions: &["surface grammar as documented in the parser and exercised by the repository's own examples: one statement per line, any number of labels before it"],
            suites: vec![suite("render", 300_000, 8_000_000, c03), suite("large", 120, 8_000, c03_large)],
        },
        Property {
            id: "C04",
            rule: "a case is one string given to the parser; non-trivial = the parser rejects it, or it yields a statement",
            assumptions: &["random strings are at most a few thousand characters, plus targeted literals of up to 70000 bytes"],
            suites: vec![suite("fragments", 600_000, 20_000_000, c04_fragments), suite("mutants", 300_000, 8_000_000, c04_mutants), suite("unicode", 300_000, 8_000_000, c04_unicode), exhaustive("escapes", C04_ESC, c04_escapes), suite("long", 300, 6_000, c04_long)],
        },
        Property {
            id: "C23",
            rule: "a case is one well-formed program and a set of queries; non-trivial = at least two labels, one of them queried in another spelling",
            assumptions: &["label names are ASCII", "the first occurrence of a label is the first place that defines or declares it"],
            suites: vec![suite("labels", 300_000, 8_000_000, c23), suite("large", 120, 8_000, c23_large)],
        },
        Property {
            id: "C24",
            rule: "a case is one well-formed program with debug symbols; non-trivial = at least two statements that occupy memory",
            assumptions: &[],
            suites: vec![suite("lines", 300_000, 8_000_000, c24), suite("large", 150, 10_000, c24_large)],
        },
        Property {
            id: "C25",
            rule: "a case is one source string with every line and every index up to length+10 queried; non-trivial = at least two lines",
            assumptions: &["surrounding whitespace is what str::trim removes", "for a line of nothing but whitespace only the emptiness of the span is checked, and that it lies in the line"],
            suites: vec![suite("strings", 400_000, 12_000_000, c25), exhaustive("short", C25_SHORT, c25_short), suite("large", 150, 8_000, c25_large)],
        },
        Property {
            id: "C26",
            rule: "a case is one faulty program or failing link; non-trivial = an error was returned",
            assumptions: &["link errors have no single source, so their spans are only queried, displayed and iterated"],
            suites: vec![suite("faults", 600_000, 15_000_000, c26_faults), suite("soup", 300_000, 8_000_000, c26_soup), exhaustive("tiny", tiny_count(), c26_tiny), suite("links", 100_000, 3_000_000, c26_links), suite("large", 150, 10_000, c26_large)],
        },
        Property {
            id: "C36",
            rule: "a case is one program whose every parsed statement is printed and reparsed; non-trivial = at least three statements",
            assumptions: &["string literals contain only printable ASCII, tab, newline, carriage return or NUL, as the property states"],
            suites: vec![suite("programs", 300_000, 8_000_000, c36), suite("numeric", 200_000, 4_000_000, c36_numeric), suite("large", 100, 6_000, c36_large)],
        },
    ]
}

/// The object file's words as a map; fails if an address is listed twice.
pub fn image_of(o: &ObjectFile) -> Result<BTreeMap<u16, Option<u16>>, Fail> {
    let mut m = BTreeMap::new();
    for (a, w) in o.addr_iter() {
        ensure!(m.insert(a, w).is_none(), "addr-twice", "address {a:#06x} is listed twice by addr_iter");
    }
    Ok(m)
}
/// label listing as upper-case name -> (address, external)
pub fn labels_of(s: &SymbolTable) -> Result<BTreeMap<String, (u16, bool)>, Fail> {
    let mut m = BTreeMap::new();
    for (n, a, e) in s.label_iter() {
        ensure!(m.insert(n.to_uppercase(), (a, e)).is_none(), "label-twice", "label {n} is listed twice by label_iter");
    }
    Ok(m)
}
pub fn model_labels(l: &Layout) -> BTreeMap<String, (u16, bool)> {
    l.bind.iter().map(|(k, v)| (k.clone(), v[0])).collect()
}
/// A name that is both a label at x0000 and declared external.
pub fn mixed(l: &Layout) -> bool {
    l.bind.values().any(|v| v.iter().any(|x| x.1) && v.iter().any(|x| !x.1))
}
fn diff<K: Ord + std::fmt::Debug, V: PartialEq + std::fmt::Debug>(got: &BTreeMap<K, V>, want: &BTreeMap<K, V>) -> String {
    let mut out = vec![];
    for (k, v) in want {
        match got.get(k) {
            None => out.push(format!("{k:?} missing (expected {v:?})")),
            Some(g) if g != v => out.push(format!("{k:?}: got {g:?}, expected {v:?}")),
            _ => {}
        }
    }
    for k in got.keys() {
        if !want.contains_key(k) {
            out.push(format!("{k:?} unexpectedly present as {:?}", got[k]));
        }
    }
    out.truncate(8);
    out.join("; ")
}
pub fn same_map<K: Ord + std::fmt::Debug, V: PartialEq + std::fmt::Debug>(got: &BTreeMap<K, V>, want: &BTreeMap<K, V>, sig: &str, what: &str, text: &str) -> Res {
    ensure!(got == want, sig, "{what}: {}\n--- source\n{text}", diff(got, want));
    Ok(())
}
pub fn parse_ok(text: &str) -> Result<Vec<Stmt>, Fail> {
    match nopanic("parse_ast", || parse_ast(text))? {
        Ok(v) => Ok(v),
        Err(e) => fail("parse-reject", format!("a program in the grammar is rejected by the parser: {e}\n--- source\n{text}")),
    }
}

// ------------------------------------------------------------------ C01
fn c01_check(p: &Prog, src: &mut Src, ctx: &mut Ctx) -> Res {
    let r = render(p, Some(src));
    c01_rendered(p, r, ctx)
}
fn c01_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let to = *src.pick(&[0x9000u16, 0xFE00, 0xFE00]);
    let (p, r) = large_rendered(src, 0, to, "lb");
    c01_rendered(&p, r, ctx)
}
fn c01_rendered(p: &Prog, r: Rendered, ctx: &mut Ctx) -> Res {
    let lay = layout(p);
    ensure!(lay.viol.is_empty() && !mixed(&lay), "harness", "generator produced an ill-formed program {:?}\n{}", lay.viol, dump(p));
    let text = &r.text;
    let (img, _) = image(p, &lay);
    ctx.describe(|| format!("{} statements, {} words\n{}", p.len(), img.len(), text.chars().take(1500).collect::<String>()));
    ctx.key(&dump(p));
    ctx.nontrivial_if(p.len() >= 2 && p.iter().any(|s| s.nuc.size() > 0 && matches!(s.nuc.op(), Some(Lo::Lab(_)))));
    for &(_, o) in &lay.offs {
        ctx.class(if o >= 0 { "forward-reference" } else { "backward-reference" });
        ctx.class_if(o == 255 || o == -256 || o == 1023 || o == -1024, "offset-at-limit");
    }
    ctx.class_if(lay.blocks.len() > 1, "several-blocks");
    ctx.class_if(lay.blocks.iter().any(|b| b.0 + b.1 == 0xFE00), "block-ends-at-xFE00");
    ctx.class_if(lay.blocks.iter().any(|b| b.0 == 0), "block-at-x0000");
    ctx.class_if(lay.bind.values().any(|v| v[0].1), "externals");
    let ast = parse_ok(text)?;
    let want_labels = model_labels(&lay);
    for debug in [false, true] {
        let a = ast.clone();
        let got = nopanic("assemble", || if debug { assemble_debug(a, text) } else { assemble(a) })?;
        let obj = match got {
            Ok(o) => o,
            Err(e) => return fail("c01-reject", format!("well-formed program rejected: {:?}\n--- source\n{text}", e.kind)),
        };
        same_map(&image_of(&obj)?, &img, "c01-image", if debug { "image (debug)" } else { "image" }, text)?;
        if let Some(s) = obj.symbol_table() {
            same_map(&labels_of(s)?, &want_labels, "c01-labels", "labels", text)?;
            for (n, (a, _)) in &want_labels {
                ensure_eq!(s.lookup_label(n), Some(*a), "c01-lookup", "lookup_label({n})\n--- source\n{text}");
            }
        } else {
            ensure!(!debug, "c01-nosym", "assemble_debug gave no symbol table");
        }
    }
    let sym = match nopanic("SymbolTable::new", || SymbolTable::new(&ast, None))? {
        Ok(s) => s,
        Err(e) => return fail("c01-reject", format!("SymbolTable::new rejects a well-formed program: {:?}\n--- source\n{text}", e.kind)),
    };
    same_map(&labels_of(&sym)?, &want_labels, "c01-labels", "labels of SymbolTable::new", text)
}
fn c01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen_prog(src, &GenCfg::default());
    c01_check(&p, src, ctx)
}
/// One statement of every kind with operands at the edges of their fields, and one label reference at a chosen distance.
fn c01_edges(src: &mut Src, ctx: &mut Ctx) -> Res {
    let d = *src.pick(&[-1024i64, -1023, -257, -256, -255, -2, -1, 0, 1, 2, 254, 255, 256, 1022, 1023]);
    let long = !(-256..=255).contains(&d);
    let ins = if long { Nuc::Jsr(Lo::Lab("T".into())) } else { pc_instr(src, Lo::Lab("t".into())) };
    let mut mid = vec![];
    // d words after the following word
    let mut b = vec![];
    if d >= 0 {
        b.push(St::new(ins));
        if d > 0 {
            if src.bool() {
                mid.push(St::new(Nuc::Blkw(d as u16)));
            } else {
                mid.push(St::new(Nuc::Stringz("a".repeat(d as usize - 1))));
            }
        }
        b.extend(mid);
        b.push(St::lab("T", plain_instr(src)));
    } else if d == -1 {
        b.push(St::lab("T", ins));
    } else {
        let n = -d - 1;
        b.push(St::lab("T", if src.bool() { Nuc::Blkw(n as u16) } else { Nuc::Stringz("b".repeat(n as usize - 1)) }));
        b.push(St::new(ins));
    }
    let n = 1 + src.usize(5);
    for _ in 0..n {
        let x = plain_instr(src);
        b.push(St::new(x));
    }
    let size: u32 = b.iter().map(|s| s.nuc.size()).sum();
    let o = match src.below(5) {
        0 => 0,
        1 => 0xFE00 - size as u16,
        2 => 0x3000,
        3 => 0x7FF0,
        _ => src.below((0xFE01 - size) as u64) as u16,
    };
    let mut p = vec![St::new(Nuc::Orig(o))];
    p.extend(b);
    p.push(St::new(Nuc::End));
    ctx.class("distance-case");
    c01_check(&p, src, ctx)
}

// ------------------------------------------------------------------ C02 / C26
fn gen_faulty(src: &mut Src, max: usize) -> Prog {
    let cfg = GenCfg { max_items: 8, max_blocks: 3, ..Default::default() };
    let mut p = gen_prog(src, &cfg);
    let names: Vec<String> = gen_names(src, 3, false);
    let n = src.usize(max + 1);
    for _ in 0..n {
        inject(src, &mut p, &names);
    }
    p
}
const SOUP_LABELS: &[&str] = &["A", "a", "B", "b", "Cc", "cC", "straße", "STRASSE"];
fn gen_soup(src: &mut Src) -> Prog {
    let n = src.usize(13);
    let mut p: Prog = vec![];
    for k in 0..n {
        let mut s = match src.weighted(&[4, 4, 3, 3, 3, 2, 2, 2]) {
            0 if k == 0 => St::new(Nuc::Orig(*src.pick(&[0u16, 0x3000, 0xFDFF, 0xFDFE]))),
            0 => St::new(Nuc::Orig(match src.below(4) {
                0 => *src.pick(&[0u16, 1, 0x3000, 0x3001, 0x3002, 0x3100]),
                1 => *src.pick(&[0xFDFDu16, 0xFDFE, 0xFDFF, 0xFE00, 0xFE01, 0xFFFD, 0xFFFE, 0xFFFF]),
                2 => 0x3000 + src.below(8) as u16,
                _ => src.word(),
            })),
            1 => St::new(Nuc::End),
            2 => {
                let l = src.pick(SOUP_LABELS).to_string();
                St::new(pc_instr(src, Lo::Lab(l)))
            }
            3 => St::new(Nuc::Fill(Lo::Lab(src.pick(SOUP_LABELS).to_string()))),
            4 => St::new(Nuc::Blkw(*src.pick(&[1u16, 1, 2, 3, 254, 255, 256, 257, 1023, 1024, 0x1000, 0xCDFF, 0xFE00, 0xFFFF]))),
            5 => St::new(Nuc::External(src.pick(SOUP_LABELS).to_string())),
            6 => St::new(plain_instr(src)),
            _ => St::new(Nuc::Stringz("xyz".into())),
        };
        while src.chance(1, 4) && s.labels.len() < 3 {
            s.labels.push(src.pick(SOUP_LABELS).to_string());
        }
        p.push(s);
    }
    p
}
const TINY: u64 = 13;
fn tiny_stmt(k: u64) -> St {
    match k {
        0 => St::new(Nuc::Orig(0x3000)),
        1 => St::new(Nuc::End),
        2 => St::new(Nuc::Orig(0xFDFF)),
        3 => St::lab("A", Nuc::Not(0, 0)),
        4 => St::lab("a", Nuc::Br(0, Lo::Lab("B".into()))),
        5 => St::new(Nuc::Ld(1, Lo::Lab("A".into()))),
        6 => St::new(Nuc::Fill(Lo::Lab("b".into()))),
        7 => St::new(Nuc::External("B".into())),
        8 => St::lab("B", Nuc::Blkw(1)),
        9 => St::lab("A", Nuc::End),
        10 => St::new(Nuc::Blkw(256)),
        11 => St::new(Nuc::Orig(0)),
        _ => St::lab("b", Nuc::External("A".into())),
    }
}
/// all sequences over the alphabet of length 0..=5
const fn tiny_count() -> u64 {
    let mut n = 0;
    let mut k = 1;
    let mut i = 0;
    while i <= 5 {
        n += k;
        k *= TINY;
        i += 1;
    }
    n
}
fn gen_tiny(src: &mut Src) -> Prog {
    let mut k = src.below(tiny_count());
    let mut len = 0;
    let mut c = 1;
    while k >= c {
        k -= c;
        c *= TINY;
        len += 1;
    }
    (0..len)
        .map(|_| {
            let d = k % TINY;
            k /= TINY;
            tiny_stmt(d)
        })
        .collect()
}
fn kind_class(k: Kd) -> &'static str {
    match k {
        Kd::UndetAddrLabel => "UndetAddrLabel",
        Kd::UndetAddrStmt => "UndetAddrStmt",
        Kd::UnclosedOrig => "UnclosedOrig",
        Kd::UnopenedOrig => "UnopenedOrig",
        Kd::OverlappingOrig => "OverlappingOrig",
        Kd::OverlappingLabels => "OverlappingLabels",
        Kd::WrappingBlock => "WrappingBlock",
        Kd::BlockInIO => "BlockInIO",
        Kd::OverlappingBlocks => "OverlappingBlocks",
        Kd::OffsetNew => "OffsetNewErr",
        Kd::OffsetExternal => "OffsetExternal",
        Kd::CouldNotFindLabel => "CouldNotFindLabel",
    }
}
type Both = [(Result<ObjectFile, AsmErr>, bool); 2];
fn assemble_both(ast: &[Stmt], text: &str) -> Result<Both, Fail> {
    let a = ast.to_vec();
    let x = nopanic("assemble", || assemble(a))?;
    let a = ast.to_vec();
    let y = nopanic("assemble_debug", || assemble_debug(a, text))?;
    Ok([(x, false), (y, true)])
}
/// A large program with at most a few faults.
fn large_faulty(src: &mut Src) -> (Prog, Rendered) {
    let (mut p, before) = gen_large(src, 0, 0xFE00, "lb");
    for _ in 0..src.below(3) {
        let labels: Vec<String> = p.iter().flat_map(|s| s.labels.first().cloned()).collect();
        match src.below(6) {
            0 => {
                let k = src.usize(p.len());
                p[k].nuc = Nuc::Fill(Lo::Lab("nowhere".into()));
            }
            1 if !labels.is_empty() => {
                let (k, l) = (src.usize(p.len()), src.pick(&labels).clone());
                let l = recase(src, &l);
                p[k].labels.push(l);
            }
            2 if !labels.is_empty() => {
                let (k, l) = (src.usize(p.len()), src.pick(&labels).clone());
                p[k].nuc = Nuc::Ld(0, Lo::Lab(l));
            }
            3 => {
                let k = src.usize(p.len());
                p.remove(k);
            }
            4 => {
                let a = src.word();
                p.extend([St::new(Nuc::Orig(a)), St::new(Nuc::Fill(Lo::Num(1))), St::new(Nuc::End)]);
            }
            _ => {
                let k = src.usize(p.len());
                p[k].nuc = Nuc::Blkw(src.word().max(1));
            }
        }
    }
    let r = if p.len() < 1200 && src.bool() { render_after(before, &p, Some(src)) } else { render_after(before, &p, None) };
    (p, r)
}
fn c02_check(p: &Prog, src: Option<&mut Src>, ctx: &mut Ctx) -> Res {
    c02_rendered(p, render(p, src), ctx)
}
fn c02_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (p, r) = large_faulty(src);
    c02_rendered(&p, r, ctx)
}
fn c02_rendered(p: &Prog, r: Rendered, ctx: &mut Ctx) -> Res {
    let lay = layout(p);
    ctx.key(&dump(p));
    ctx.describe(|| format!("reference violations {:?}\n{}", lay.viol, r.text.chars().take(1200).collect::<String>()));
    ctx.nontrivial_if(!lay.viol.is_empty() || p.iter().any(|s| matches!(s.nuc.op(), Some(Lo::Lab(_)))));
    ctx.class(match lay.viol.len() {
        0 => "well-formed",
        1 => "one-violation",
        2 => "two-violations",
        _ => "three-or-more-violations",
    });
    let ast = parse_ok(&r.text)?;
    let res = assemble_both(&ast, &r.text)?;
    if mixed(&lay) {
        ctx.class("label-and-external-mix");
        // whether a name that is both a label at x0000 and an external may be a PC-relative operand is not stated
        if lay.viol.contains(&Kd::OffsetExternal) || lay.viol.contains(&Kd::OffsetNew) {
            return Ok(());
        }
        ctx.class_if(lay.viol.is_empty(), "label-at-zero-also-external");
    }
    for (got, debug) in res {
        match got {
            Ok(_) => ensure!(lay.viol.is_empty(), "c02-accept", "ill-formed program accepted (debug={debug}); violated: {:?}\n--- source\n{}", lay.viol, r.text),
            Err(e) => {
                let k = kd(&e.kind);
                ensure!(!lay.viol.is_empty(), "c02-reject", "well-formed program rejected with {:?} (debug={debug})\n--- source\n{}", e.kind, r.text);
                ensure!(lay.viol.contains(&k), "c02-kind", "the error is {:?} (debug={debug}) but the violated conditions are {:?}\n--- source\n{}", e.kind, lay.viol, r.text);
                ctx.class(kind_class(k));
            }
        }
    }
    Ok(())
}
fn c02_faults(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen_faulty(src, 4);
    c02_check(&p, Some(src), ctx)
}
fn c02_soup(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen_soup(src);
    c02_check(&p, Some(src), ctx)
}
fn c02_tiny(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen_tiny(src);
    c02_check(&p, None, ctx)
}

/// Queries everything an error's span offers.
pub fn query_span(sp: &ErrSpan) -> Result<Vec<Range<usize>>, Fail> {
    let first = nopanic("ErrSpan::first", || sp.first())?;
    let all: Vec<Range<usize>> = nopanic("ErrSpan::iter", || sp.iter().cloned().collect())?;
    ensure!(!all.is_empty(), "c26-empty", "the error has an empty span list");
    ensure_eq!(all[0], first, "c26-first", "first span of {sp:?}");
    Ok(all)
}
fn query_err(e: &AsmErr) -> Result<Option<Vec<Range<usize>>>, Fail> {
    nopanic("Display of an error", || format!("{e} {e:?} {}", e.kind))?;
    nopanic("Error::help", || e.help().map(|c| c.to_string()))?;
    let a = query_span(&e.span)?;
    match nopanic("Error::span", || e.span())? {
        None => Ok(None),
        Some(s) => {
            let b = query_span(&s)?;
            ensure_eq!(a, b, "c26-spans", "AsmErr::span field against Error::span()");
            Ok(Some(b))
        }
    }
}
fn c26_check(p: &Prog, src: Option<&mut Src>, ctx: &mut Ctx) -> Res {
    c26_rendered(p, render(p, src), ctx)
}
fn c26_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (p, r) = large_faulty(src);
    c26_rendered(&p, r, ctx)
}
fn c26_rendered(p: &Prog, r: Rendered, ctx: &mut Ctx) -> Res {
    let lay = layout(p);
    ctx.key(&dump(p));
    let text = &r.text;
    ctx.describe(|| format!("reference violations {:?}\n{}", lay.viol, text.chars().take(1200).collect::<String>()));
    let ast = parse_ok(text)?;
    let res = assemble_both(&ast, text)?;
    for (got, debug) in res {
        let Err(e) = got else { continue };
        ctx.nontrivial();
        let k = kd(&e.kind);
        ctx.class(kind_class(k));
        let Some(all) = query_err(&e)? else { return fail("c26-nospan", format!("{:?} from assembling has no span (debug={debug})\n--- source\n{text}", e.kind)) };
        ctx.class_if(all.len() > 1, "several-spans");
        for s in &all {
            ensure!(s.start <= s.end && s.end <= text.len(), "c26-range", "span {s:?} of {:?} is not within the source of {} bytes\n--- source\n{text}", e.kind, text.len());
        }
        if matches!(k, Kd::UndetAddrLabel | Kd::OverlappingLabels | Kd::OffsetNew | Kd::OffsetExternal | Kd::CouldNotFindLabel) {
            let bad = lay.bad.get(&k).cloned().unwrap_or_default();
            for s in &all {
                let t = text.get(s.clone());
                ensure!(t.is_some_and(|t| bad.is_empty() || bad.contains(&t.to_uppercase())), "c26-label", "span {s:?} of {:?} covers {t:?}, not a spelling of an offending label ({bad:?})\n--- source\n{text}", e.kind);
            }
            if k == Kd::OverlappingLabels {
                ensure!(all.iter().all(|s| text[s.clone()].to_uppercase() == text[all[0].clone()].to_uppercase()), "c26-label", "spans of an OverlappingLabels error cover different labels\n--- source\n{text}");
            }
        }
    }
    Ok(())
}
fn c26_faults(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen_faulty(src, 4);
    c26_check(&p, Some(src), ctx)
}
fn c26_soup(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen_soup(src);
    c26_check(&p, Some(src), ctx)
}
fn c26_tiny(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen_tiny(src);
    c26_check(&p, None, ctx)
}
fn c26_links(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 2 + src.usize(3);
    let files = super::obj::gen_files(src, n);
    let mut objs = vec![];
    for p in &files {
        let r = render(p, Some(src));
        let ast = parse_ok(&r.text)?;
        let debug = src.chance(3, 4);
        match nopanic("assemble", || if debug { assemble_debug(ast, &r.text) } else { assemble(ast) })? {
            Ok(o) => objs.push(o),
            Err(e) => return fail("c26-reject", format!("well-formed file rejected {:?}\n{}", e.kind, r.text)),
        }
    }
    ctx.key(&files);
    ctx.describe(|| files.iter().map(dump).collect::<Vec<_>>().join("--- next file\n"));
    let mut acc = objs[0].clone();
    for o in &objs[1..] {
        match nopanic("link", || ObjectFile::link(acc.clone(), o.clone()))? {
            Ok(x) => acc = x,
            Err(e) => {
                ctx.nontrivial();
                ctx.class(kind_class(kd(&e.kind)));
                query_err(&e)?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C03
fn c03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = if src.chance(1, 5) { gen_soup(src) } else { gen_prog(src, &GenCfg { max_items: 10, max_blocks: 3, ..Default::default() }) };
    let a = render(&p, Some(src));
    let b = render(&p, Some(src));
    c03_rendered(&p, a, b, ctx)
}
fn c03_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let to = *src.pick(&[0x2000u16, 0x9000, 0xFE00]);
    let (p, before) = gen_large(src, 0, to, "lb");
    let a = render_after(before, &p, None);
    let b = if p.len() < 5000 { render(&p, Some(src)) } else { render(&p, None) };
    c03_rendered(&p, a, b, ctx)
}
fn c03_rendered(p: &Prog, a: Rendered, b: Rendered, ctx: &mut Ctx) -> Res {
    ctx.key(&a.text);
    ctx.describe(|| format!("{}\n=== same statements in another style\n{}", a.text.chars().take(800).collect::<String>(), b.text.chars().take(800).collect::<String>()));
    ctx.nontrivial_if(p.len() >= 3);
    ctx.class_if(a.text.contains("\r\n"), "crlf");
    ctx.class_if(a.text.contains(';'), "comments");
    ctx.class_if(a.text.contains(':'), "colons");
    ctx.class_if(p.iter().zip(&a.label_spans).any(|(s, l)| !l.is_empty() && a.text[l[0].end..].find('\n') < a.text[l[0].end..].find(|c: char| c.is_alphanumeric() || c == '.') && !matches!(s.nuc, Nuc::End)), "label-on-own-line");
    let mut objs = vec![];
    for r in [&a, &b] {
        let ast = parse_ok(&r.text)?;
        ensure!(ast.len() == r.stmts.len(), "c03-count", "{} statements parsed, {} written\n--- source\n{}", ast.len(), r.stmts.len(), r.text);
        for (k, (g, w)) in ast.iter().zip(&r.stmts).enumerate() {
            ensure!(g.nucleus == w.nucleus, "c03-stmt", "statement {k} parsed as {:?}, written as {:?}\n--- source\n{}", g.nucleus, w.nucleus, r.text);
            let gl: Vec<&str> = g.labels.iter().map(|l| l.name.as_str()).collect();
            let wl: Vec<&str> = w.labels.iter().map(|l| l.name.as_str()).collect();
            ensure!(gl == wl, "c03-labels", "labels of statement {k} parsed as {gl:?}, written as {wl:?}\n--- source\n{}", r.text);
            for (gl, wl) in g.labels.iter().zip(&w.labels) {
                ensure!(gl.span() == wl.span(), "c03-label-span", "label {} of statement {k} has span {:?}, written at {:?}\n--- source\n{}", gl.name, gl.span(), wl.span(), r.text);
            }
            ensure!(g.span == w.span, "c03-span", "statement {k} has span {:?} ({:?}), written at {:?} ({:?})\n--- source\n{}", g.span, r.text.get(g.span.clone()), w.span, &r.text[w.span.clone()], r.text);
        }
        objs.push(nopanic("assemble_debug", || assemble_debug(ast, &r.text))?);
    }
    let (y, x) = (objs.pop().unwrap(), objs.pop().unwrap());
    match (x, y) {
        (Ok(x), Ok(y)) => {
            ctx.class("assembles");
            ensure!(image_of(&x)? == image_of(&y)?, "c03-image", "images differ between two styles: {}\n--- A\n{}\n--- B\n{}", diff(&image_of(&x)?, &image_of(&y)?), a.text, b.text);
            let (x, y) = (x.symbol_table().map(labels_of).transpose()?, y.symbol_table().map(labels_of).transpose()?);
            ensure!(x == y, "c03-addrs", "label addresses differ between two styles\n--- A\n{}\n--- B\n{}", a.text, b.text);
        }
        (Err(x), Err(y)) => ensure!(kd(&x.kind) == kd(&y.kind), "c03-err", "errors differ between two styles: {:?} / {:?}\n--- A\n{}\n--- B\n{}", x.kind, y.kind, a.text, b.text),
        (x, y) => return fail("c03-verdict", format!("one style assembles ({}, {})\n--- A\n{}\n--- B\n{}", x.is_ok(), y.is_ok(), a.text, b.text)),
    }
    Ok(())
}

// ------------------------------------------------------------------ C04
fn c04_check(s: &str, ctx: &mut Ctx) -> Res {
    ctx.key(&s);
    ctx.describe(|| format!("{:?}", s.chars().take(300).collect::<String>()));
    match nopanic("parse_ast", || parse_ast(s))? {
        Ok(v) => {
            ctx.nontrivial_if(!v.is_empty());
            ctx.class("accepted");
        }
        Err(e) => {
            ctx.nontrivial();
            ctx.class("rejected");
            nopanic("Display of ParseErr", || format!("{e} {e:?}"))?;
            nopanic("ParseErr::help", || e.help().map(|c| c.to_string()))?;
            let sp = nopanic("ParseErr::span", || Error::span(&e))?;
            let Some(sp) = sp else { return fail("c04-nospan", format!("{e:?} carries no span; input {:?}", s.chars().take(200).collect::<String>())) };
            let all = query_span(&sp)?;
            for r in &all {
                ensure!(r.start <= r.end && r.end <= s.len(), "c04-span", "error {e} has span {r:?}, outside of the {} bytes of the input {:?}", s.len(), s.chars().take(200).collect::<String>());
            }
        }
    }
    Ok(())
}
const FRAGS: &[&str] = &[
    "\"", "\\", "\"abc\"", "\"a\\", "\\n", "\\\"", "\\é", "\"\\日", "\n", "\r\n", "\r", " ", "\t", ";", "; c", ":", ",", ".", "..", ".orig", ".fill", ".stringz", ".blkw", ".end", ".external", ".bogus", ".é", "ADD", "BR", "BRnzp", "LD", "TRAP", "NOP", "RET", "JSR", "R0", "R7", "R8",
    "r256", "R99999999999", "Ré", "R0x", "#", "#5", "#-", "#-5", "#--5", "-", "-5", "--", "x", "xF", "x-", "x-1", "X10000", "xFFFF", "xG", "0", "65535", "65536", "-32768", "-32769", "99999999999999999999", "1a", "5é", "#é", "-é", "x1é", "LABEL", "_", "é", "日本", "🙂", "\u{0}",
    "\u{7f}", "\u{a0}", "\u{2028}", "\u{feff}", "@", "!", "$", "%", "(", ")", "{", "+", "*", "/", "=", "'", "`", "~", "٣", "x٣", "#٣", "R٣", "½", "²",
];
fn c04_fragments(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.usize(14);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(src.pick(FRAGS));
        if src.chance(1, 2) {
            s.push(' ');
        }
    }
    c04_check(&s, ctx)
}
fn c04_unicode(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.usize(24);
    let mut s = String::new();
    for _ in 0..n {
        let c = match src.weighted(&[5, 3, 3, 2]) {
            0 => src.below(128) as u32,
            1 => src.below(0x800) as u32,
            2 => *src.pick(&[0x22u32, 0x5C, 0x0A, 0x0D, 0x3B, 0x22, 0x5C]),
            _ => src.below(0x11_0000) as u32,
        };
        s.push(char::from_u32(c).unwrap_or('\u{fffd}'));
    }
    c04_check(&s, ctx)
}
fn c04_mutants(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen_prog(src, &GenCfg { max_items: 6, max_blocks: 2, big: false, ..Default::default() });
    let mut b = render(&p, Some(src)).text.into_bytes();
    let n = 1 + src.usize(4);
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        let i = src.usize(b.len());
        match src.below(6) {
            0 => {
                b.remove(i);
            }
            1 => b[i] = src.below(256) as u8,
            2 => {
                let f = src.pick(FRAGS).as_bytes().to_vec();
                b.splice(i..i, f);
            }
            3 => b.truncate(i),
            4 => {
                let j = src.usize(b.len());
                b.swap(i, j);
            }
            _ => {
                let e = (i + 1 + src.usize(12)).min(b.len());
                let c = b[i..e].to_vec();
                let j = src.usize(b.len());
                b.splice(j..j, c);
            }
        }
    }
    let s = String::from_utf8_lossy(&b).into_owned();
    c04_check(&s, ctx)
}
const ESC_CH: [&str; 16] = ["", "\\", "\"", "n", "0", "a", "é", "日", "🙂", "\n", "\r\n", "\r", " ", "\0", ";", "\u{301}"];
const C04_ESC: u64 = 5 * 16 * 16 * 16;
fn c04_escapes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.below(C04_ESC);
    let c = |i: u32| ESC_CH[(k / 5 / 16u64.pow(i) % 16) as usize];
    let t = format!("{}{}{}", c(0), c(1), c(2));
    let s = match k % 5 {
        0 => format!("\"{t}"),
        1 => format!("\"{t}\""),
        2 => format!(".stringz \"ab\\{t}\"\n"),
        3 => format!("\\{t}"),
        _ => format!(".orig x3000\n.stringz \"{t}\\"),
    };
    c04_check(&s, ctx)
}
fn c04_long(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match src.below(4) {
        0 => src.range(65530, 65540) as usize,
        1 => src.range(65530 / 2 - 3, 65540 / 2 + 3) as usize,
        2 => src.usize(70000),
        _ => *src.pick(&[10_000usize, 65535, 65536, 131072]),
    };
    let unit = *src.pick(&["a", "é", "\\n", "\\\"", "\\é", "9", "x", " ", "\n", "ADD ", ";", "\"\"", "日"]);
    let body = unit.repeat(n);
    let s = match src.below(5) {
        0 => format!(".stringz \"{body}\""),
        1 => format!("\"{body}"),
        2 => format!("#{body}"),
        3 => format!("L{body} ADD R0, R0, #0"),
        _ => body,
    };
    c04_check(&s, ctx)
}

// ------------------------------------------------------------------ C23
fn c23(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = GenCfg { max_items: 10, max_blocks: 3, big: false, ..Default::default() };
    let p = gen_prog(src, &cfg);
    let r = render(&p, Some(src));
    c23_rendered(&p, r, src, ctx)
}
fn c23_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (p, r) = large_rendered(src, 0, 0xFE00, "lb");
    c23_rendered(&p, r, src, ctx)
}
fn c23_rendered(p: &Prog, r: Rendered, src: &mut Src, ctx: &mut Ctx) -> Res {
    let lay = layout(p);
    if !lay.viol.is_empty() || mixed(&lay) {
        return fail("harness", "ill-formed");
    }
    let text = &r.text;
    ctx.key(text);
    ctx.describe(|| text.chars().take(1200).collect());
    let want = model_labels(&lay);
    // first defining or declaring occurrence
    let mut first: BTreeMap<String, Range<usize>> = BTreeMap::new();
    for (i, s) in p.iter().enumerate() {
        for (l, sp) in s.labels.iter().zip(&r.label_spans[i]) {
            first.entry(l.to_uppercase()).or_insert(sp.clone());
        }
        if let Nuc::External(e) = &s.nuc {
            first.entry(e.to_uppercase()).or_insert(r.op_span[i].clone().unwrap());
        }
    }
    let ast = parse_ok(text)?;
    let a2 = ast.clone();
    let obj = match nopanic("assemble_debug", || assemble_debug(a2, text))? {
        Ok(o) => o,
        Err(e) => return fail("c23-reject", format!("well-formed program rejected: {:?}\n--- source\n{text}", e.kind)),
    };
    let mk = |s: Option<&str>| SymbolTable::new(&ast, s).map_err(|e| Fail { sig: "c23-reject".into(), msg: format!("{:?}\n{text}", e.kind) });
    let (t1, t2) = (mk(Some(text))?, mk(None)?);
    let Some(t0) = obj.symbol_table() else { return fail("c23-nosym", "no symbol table") };
    let mut respelled = false;
    let mut soft: Option<Fail> = None;
    for (tn, t) in [("object file", t0), ("debug table", &t1), ("plain table", &t2)] {
        same_map(&labels_of(t)?, &want, "c23-listing", &format!("label_iter of {tn}"), text)?;
        for (n, &(addr, _)) in &want {
            let orig = &text[first[n].clone()];
            for q in [orig.to_string(), n.clone(), n.to_lowercase(), recase(src, orig), recase(src, n)] {
                // letters such as İ have no lower-case letter that leads back to them
                if up(&q) != *n {
                    continue;
                }
                respelled |= q != orig;
                let g = nopanic("lookup_label", || t.lookup_label(&q))?;
                ensure_eq!(g, Some(addr), "c23-lookup", "lookup_label({q:?}) in {tn}\n--- source\n{text}");
                let g = nopanic("get_label_source", || t.get_label_source(&q))?;
                let at = first[n].start;
                if q.len() != orig.len() && g == Some(at..at + q.len()) {
                    // the known finding about spellings of another byte length; everything else is still checked
                    soft.get_or_insert(Fail { sig: "c23-source-length".into(), msg: format!("get_label_source({q:?}) in {tn} is {g:?}, the first occurrence is {orig:?} at {:?}: its end is off by the difference of the two spellings' byte lengths\n--- source\n{text}", first[n]) });
                    continue;
                }
                ensure!(g.as_ref() == Some(&first[n]), "c23-source", "get_label_source({q:?}) in {tn} is {g:?}, the first occurrence is at {:?} ({orig:?})\n--- source\n{text}", first[n]);
            }
            let g = nopanic("rev_lookup_label", || t.rev_lookup_label(addr).map(str::to_string))?;
            ensure!(g.as_ref().is_some_and(|g| want.get(&g.to_uppercase()).is_some_and(|x| x.0 == addr)), "c23-reverse", "rev_lookup_label({addr:#06x}) in {tn} is {g:?}, which is not recorded there\n--- source\n{text}");
        }
        for _ in 0..4 {
            let a = src.word();
            let a = if src.bool() { lay.addr.iter().flatten().nth(src.usize(8)).map_or(a, |x| x.wrapping_add(1)) } else { a };
            let g = t.rev_lookup_label(a);
            let ok = match g {
                None => !want.values().any(|v| v.0 == a),
                Some(g) => want.get(&g.to_uppercase()).is_some_and(|v| v.0 == a),
            };
            ensure!(ok, "c23-reverse", "rev_lookup_label({a:#06x}) in {tn} is {g:?}\n--- source\n{text}");
        }
        for q in ["", "nosuch", "A_", "x3000", "ADD", " ", "é"].into_iter().map(str::to_string).chain(want.keys().take(3).flat_map(|k| [format!("{k}_"), k.chars().skip(1).collect(), format!(" {k}"), format!("{k}:")])) {
            if want.contains_key(&q.to_uppercase()) {
                continue;
            }
            ensure_eq!(t.lookup_label(&q), None, "c23-absent", "lookup_label({q:?}), a name not in the program\n--- source\n{text}");
            ensure_eq!(t.get_label_source(&q), None, "c23-absent", "get_label_source({q:?}), a name not in the program\n--- source\n{text}");
        }
    }
    ctx.nontrivial_if(want.len() >= 2 && respelled);
    ctx.class_if(want.values().any(|v| v.1), "externals");
    ctx.class_if(p.iter().any(|s| matches!(s.nuc, Nuc::End) && !s.labels.is_empty()), "label-on-.end");
    ctx.class_if(p.iter().any(|s| s.labels.len() > 1), "several-labels-on-a-statement");
    ctx.class_if(p.iter().any(|s| s.labels.len() > 1 && s.labels.iter().map(|l| l.to_uppercase()).collect::<BTreeSet<_>>().len() < s.labels.len()), "same-label-twice");
    soft.map_or(Ok(()), Err)
}

// ------------------------------------------------------------------ C24
fn c24(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = GenCfg { max_items: 10, ..Default::default() };
    let mut p = gen_prog(src, &cfg);
    // .external declarations inside blocks too
    let n = src.usize(3);
    for k in 0..n {
        let i = src.usize(p.len() + 1);
        p.insert(i, St::new(Nuc::External(format!("unusedext{k}"))));
    }
    // long unbroken stretches of statements
    let mut long = false;
    if src.chance(1, 12) {
        let mut q = p.clone();
        for _ in 0..src.range(1, 3) {
            let i = src.usize(q.len() + 1);
            let n = 1 + src.usize(300);
            let m = src.below(3);
            let more: Vec<St> = (0..n).map(|k| St::new(if m == 1 && k % 7 == 3 { Nuc::Blkw(1 + k as u16 % 3) } else { Nuc::Fill(Lo::Num((k % 1000) as i64)) })).collect();
            q.splice(i..i, more);
        }
        let l = layout(&q);
        if l.viol.is_empty() && !mixed(&l) {
            p = q;
            long = true;
            ctx.class("long");
        }
    }
    let r = if long && src.chance(2, 3) { render(&p, None) } else { render(&p, Some(src)) };
    c24_rendered(&p, r, ctx)
}
fn c24_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (p, r) = large_rendered(src, 0, 0xFE00, "lb");
    c24_rendered(&p, r, ctx)
}
fn c24_rendered(p: &Prog, r: Rendered, ctx: &mut Ctx) -> Res {
    let lay = layout(p);
    if !lay.viol.is_empty() || mixed(&lay) {
        return fail("harness", "ill-formed");
    }
    let text = &r.text;
    ctx.key(text);
    ctx.describe(|| text.chars().take(1200).collect());
    let mut want: BTreeMap<usize, u16> = BTreeMap::new();
    for (i, s) in p.iter().enumerate() {
        if s.nuc.size() > 0 {
            want.insert(r.line[i], lay.addr[i].unwrap());
        }
        match s.nuc {
            Nuc::External(_) => ctx.class_if(i > 0 && !matches!(p[i - 1].nuc, Nuc::End), "external-inside-block"),
            Nuc::Blkw(_) | Nuc::Stringz(_) => ctx.class("multi-word"),
            _ => {}
        }
    }
    ctx.nontrivial_if(want.len() >= 2);
    let ast = parse_ok(text)?;
    let st = match nopanic("SymbolTable::new", || SymbolTable::new(&ast, Some(text)))? {
        Ok(s) => s,
        Err(e) => return fail("c24-reject", format!("{:?}\n{text}", e.kind)),
    };
    let obj = match nopanic("assemble_debug", || assemble_debug(ast, text))? {
        Ok(o) => o,
        Err(e) => return fail("c24-reject", format!("{:?}\n{text}", e.kind)),
    };
    let Some(so) = obj.symbol_table() else { return fail("c24-nosym", "no symbol table") };
    let back: BTreeMap<u16, usize> = want.iter().map(|(l, a)| (*a, *l)).collect();
    let nl = text.matches('\n').count() + 1;
    for t in [&st, so] {
        for l in 0..nl + 3 {
            let g = nopanic("lookup_line", || t.lookup_line(l))?;
            ensure_eq!(g, want.get(&l).copied(), "c24-line", "lookup_line({l})\n--- source\n{text}");
        }
        let mut probe: BTreeSet<u16> = back.keys().copied().collect();
        for a in back.keys() {
            probe.extend([a.wrapping_add(1), a.wrapping_sub(1)]);
        }
        probe.extend([0, 0xFDFF, 0xFE00, 0xFFFF]);
        for a in probe {
            let g = nopanic("rev_lookup_line", || t.rev_lookup_line(a))?;
            match (g, back.get(&a)) {
                (g, Some(w)) => ensure_eq!(g, Some(*w), "c24-addr", "rev_lookup_line({a:#06x})\n--- source\n{text}"),
                // one-to-one: a line reported for another address would have two addresses
                (Some(g), None) => return fail("c24-addr", format!("rev_lookup_line({a:#06x}) is {g}, but no statement starts there\n--- source\n{text}")),
                (None, None) => {}
            }
        }
        let got: Vec<(usize, u16)> = nopanic("line_iter", || t.line_iter().collect())?;
        let m: BTreeMap<usize, u16> = got.iter().copied().collect();
        ensure!(m.len() == got.len(), "c24-iter", "line_iter lists a line twice: {got:?}\n--- source\n{text}");
        same_map(&m, &want, "c24-iter", "line_iter", text)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C25
fn c25_check(s: &str, ctx: &mut Ctx) -> Res {
    ctx.key(&s);
    ctx.describe(|| format!("{s:?}"));
    let lines: Vec<&str> = s.split('\n').collect();
    ctx.nontrivial_if(lines.len() >= 2);
    ctx.class_if(s.contains("\r\n"), "crlf");
    ctx.class_if(s.ends_with('\n'), "ends-with-newline");
    ctx.class_if(!s.is_ascii(), "non-ascii");
    // (the same source through the other ways in)
    let si = match mix(&[s.len() as u64, lines.len() as u64]) % 3 {
        0 => SourceInfo::new(s),
        1 => SourceInfo::from(s),
        _ => SourceInfo::from(s.to_string()),
    };
    ensure_eq!(si.source(), s, "c25-source", "source()");
    ensure_eq!(si.count_lines(), lines.len(), "c25-count", "count_lines() of {s:?}");
    let mut start = 0;
    let mut starts = vec![];
    for (i, l) in lines.iter().enumerate() {
        starts.push(start);
        let t = l.trim();
        let g = nopanic("read_line", || si.read_line(i).map(str::to_string))?;
        ensure!(g.as_deref() == Some(t), "c25-text", "read_line({i}) of {s:?} is {g:?}, expected {t:?}");
        let sp = nopanic("line_span", || si.line_span(i))?;
        let Some(sp) = sp else { return fail("c25-span", format!("line_span({i}) of {s:?} is None")) };
        if t.is_empty() {
            ensure!(sp.start == sp.end && sp.start >= start && sp.end <= start + l.len(), "c25-span", "line_span({i}) of {s:?} is {sp:?}, expected an empty span in {start}..={}", start + l.len());
        } else {
            let b = start + (l.len() - l.trim_start().len());
            ensure_eq!(sp, b..b + t.len(), "c25-span", "line_span({i}) of {s:?}");
        }
        start += l.len() + 1;
    }
    for i in [lines.len(), lines.len() + 1, usize::MAX] {
        ensure_eq!(nopanic("line_span", || si.line_span(i))?, None, "c25-span", "line_span({i}) past the last line of {s:?}");
        ensure!(nopanic("read_line", || si.read_line(i).is_none())?, "c25-text", "read_line({i}) past the last line of {s:?} is not None");
    }
    for ix in 0..=s.len() + 10 {
        let l = starts.partition_point(|&b| b <= ix) - 1;
        ensure_eq!(nopanic("get_pos_pair", || si.get_pos_pair(ix))?, (l, ix - starts[l]), "c25-pos", "get_pos_pair({ix}) of {s:?}");
    }
    Ok(())
}
fn c25(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.usize(40);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(src.pick(&["\n", "\n", "\n", "\r\n", "\r", " ", "\t", "a", "bc", "é", "日", "ADD R0", ";", "\u{b}", "\u{a0}", "\u{2028}", "\u{85}", "\0", ":", "\n\n"]));
    }
    c25_check(&s, ctx)
}
fn c25_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut s = String::new();
    for _ in 0..1 + src.below(3) {
        let n = *src.pick(&[255usize, 256, 257, 1000, 4096, 65_535, 65_536, 70_000]);
        let w = *src.pick(&["\n", "\r\n", " ", "a", "\t", "é", "ab\n", " x \n"]);
        s.push_str(&w.repeat(n));
        s.push_str(src.pick(&["\n", "b", " ", "\r\n", ""]));
    }
    c25_check(&s, ctx)
}
const C25_A: [&str; 6] = ["\n", "a", " ", "\r\n", "é", "\t"];
const C25_SHORT: u64 = 1 + 6 + 36 + 216 + 1296 + 7776 + 46656;
fn c25_short(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut k = src.below(C25_SHORT);
    let (mut len, mut c) = (0, 1);
    while k >= c {
        k -= c;
        c *= 6;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(C25_A[(k % 6) as usize]);
        k /= 6;
    }
    c25_check(&s, ctx)
}

// ------------------------------------------------------------------ C36
fn c36_stmts(ast: &[Stmt], text: &str, ctx: &mut Ctx) -> Res {
    let mut all = String::new();
    for s in ast {
        let printed = nopanic("Display for Stmt", || s.to_string())?;
        all.push_str(&printed);
        all.push('\n');
        let again = match nopanic("parse_ast of a printed statement", || parse_ast(&printed))? {
            Ok(a) => a,
            Err(e) => return fail("c36-reject", format!("the statement prints as {printed:?}, which does not parse: {e}\n(parsed as {s:?})")),
        };
        ensure!(again.len() == 1, "c36-count", "the statement prints as {printed:?}, which parses as {} statements", again.len());
        let (w, g) = (of_real(s), of_real(&again[0]));
        ensure!(w == g, "c36-differs", "the statement prints as {printed:?} and reparses differently\n  before {w:?}\n  after  {g:?}");
        ctx.class(match &s.nucleus {
            StmtKind::Instr(_) => "instruction",
            StmtKind::Directive(Directive::Stringz(_)) => "stringz",
            StmtKind::Directive(_) => "directive",
        });
        ctx.class_if(!s.labels.is_empty(), "with-labels");
    }
    let again = match nopanic("parse_ast of a printed program", || parse_ast(&all))? {
        Ok(a) => a,
        Err(e) => return fail("c36-reject", format!("the printed program does not parse: {e}\n{all}")),
    };
    let w: Vec<_> = ast.iter().map(of_real).collect();
    let g: Vec<_> = again.iter().map(of_real).collect();
    ensure!(w == g, "c36-differs", "the printed program reparses differently\n--- source\n{text}\n--- printed\n{all}");
    Ok(())
}
fn c36(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = if src.chance(1, 4) { gen_soup(src) } else { gen_prog(src, &GenCfg { max_items: 10, max_blocks: 3, plain_strings: true, ..Default::default() }) };
    let r = render(&p, Some(src));
    ctx.key(&dump(&p));
    ctx.describe(|| r.text.chars().take(1200).collect());
    ctx.nontrivial_if(p.len() >= 3);
    let ast = parse_ok(&r.text)?;
    c36_stmts(&ast, &r.text, ctx)
}
fn c36_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut p, before) = gen_large(src, 0, 0x9000, "lb");
    for s in &mut p {
        if matches!(&s.nuc, Nuc::Stringz(t) if !t.is_ascii()) {
            s.nuc = Nuc::Stringz("s".repeat(1000));
        }
    }
    let r = render_after(before, &p, None);
    ctx.key(&dump(&p));
    ctx.describe(|| r.text.chars().take(1200).collect());
    ctx.nontrivial_if(p.len() >= 3);
    let ast = parse_ok(&r.text)?;
    c36_stmts(&ast, &r.text, ctx)
}
/// every operand value of every statement form, without labels
fn c36_numeric(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 1 + src.usize(6);
    let mut p: Prog = vec![];
    for _ in 0..n {
        let nuc = match src.below(8) {
            0 => Nuc::Orig(src.word()),
            1 => Nuc::Fill(Lo::Num(if src.bool() { src.word() as i64 } else { src.word() as i16 as i64 })),
            2 => Nuc::Blkw(src.word().max(1)),
            3 => Nuc::Stringz(gen_string(src, true, 30)),
            4 => Nuc::Jsr(Lo::Num(src.range(-1024, 1023))),
            5 => {
                let v = src.range(-256, 255);
                pc_instr(src, Lo::Num(v))
            }
            6 => Nuc::External(gen_names(src, 1, true).remove(0)),
            _ => plain_instr(src),
        };
        let labels = if src.chance(1, 3) { gen_names(src, 2, true) } else { vec![] };
        p.push(St { labels, nuc });
    }
    let _ = reg(0);
    let r = render(&p, Some(src));
    ctx.key(&dump(&p));
    ctx.describe(|| r.text.clone());
    ctx.nontrivial_if(p.len() >= 3);
    let ast = parse_ok(&r.text)?;
    c36_stmts(&ast, &r.text, ctx)
}
