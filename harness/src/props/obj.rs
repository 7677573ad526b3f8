//! C17-C22: object file formats, linking, external references, linked debug information.
use super::asm::{image_of, labels_of, mixed, parse_ok, same_map};
use crate::amodel::*;
use crate::pbt::*;
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat, TextFormat};
use lc3_ensemble::asm::{assemble, assemble_debug, ObjectFile};
use lc3_ensemble::sim::mem::MachineInitStrategy;
use lc3_ensemble::sim::{SimErr, SimFlags, Simulator};
use std::collections::BTreeMap;

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C17",
            rule: "a case is one object file (assembled with or without debug symbols, or linked from 2-4 files); non-trivial = it has at least one word and one label",
            assumptions: &["source text varies through surface style and comments of arbitrary characters"],
            suites: vec![suite("assembled", 200_000, 5_000_000, c17_assembled), suite("linked", 100_000, 3_000_000, c17_linked), suite("long", 200, 10_000, c17_long)],
        },
        Property {
            id: "C18",
            rule: "a case is one object file (assembled with or without debug symbols, or linked from 2-4 files); non-trivial = it has debug symbols whose source has a character that needs escaping, or at least one label",
            assumptions: &["source text varies through surface style and comments of arbitrary characters"],
            suites: vec![suite("assembled", 200_000, 5_000_000, c18_assembled), suite("linked", 100_000, 3_000_000, c18_linked), suite("long", 200, 10_000, c18_long)],
        },
        Property {
            id: "C19",
            rule: "a case is one byte string or text given to a reader; non-trivial = the reader accepts it, or it is a mutation of a valid serialization",
            assumptions: &["inputs are at most a few hundred kilobytes", "an accepted file is linked in both orders with a fixed set of assembled files and loaded into a simulator"],
            suites: vec![suite("bin_mutants", 120_000, 4_000_000, c19_bin_mutants), suite("bin_struct", 120_000, 4_000_000, c19_bin_struct), suite("bin_random", 100_000, 2_000_000, c19_bin_random), suite("txt_mutants", 120_000, 4_000_000, c19_txt_mutants), suite("txt_struct", 120_000, 4_000_000, c19_txt_struct), suite("txt_random", 60_000, 2_000_000, c19_txt_random)],
        },
        Property {
            id: "C20",
            rule: "a case is a set of 2-4 files linked in every order and bracketing; non-trivial = the files share a label name, or their link fails",
            assumptions: &["when a set has both kinds of conflict, either may be the one reported", "pending relocations are observed by linking a file that defines every remaining external"],
            suites: vec![suite("sets", 200_000, 4_000_000, c20), suite("large", 100, 6_000, c20_large)],
        },
        Property {
            id: "C21",
            rule: "a case is one program with .external declarations plus files defining them; non-trivial = at least one .fill word refers to an external",
            assumptions: &["a name is not both declared external and defined in the same file"],
            suites: vec![suite("externals", 400_000, 10_000_000, c21)],
        },
        Property {
            id: "C22",
            rule: "a case is 2-3 files with debug symbols linked in every order and bracketing; non-trivial = the link succeeds and at least two files have a statement",
            assumptions: &["labels are ASCII"],
            suites: vec![suite("sets", 400_000, 8_000_000, c22), suite("large", 60, 4_000, c22_large)],
        },
    ]
}

const POOL: &[&str] = &["foo", "BAR", "Baz", "qux", "main", "T_1", "data", "maÑana", "sé", "Straße"];
/// A set of well-formed files with shared, conflicting and external labels and touching/overlapping blocks.
pub fn gen_files(src: &mut Src, n: usize) -> Vec<Prog> {
    let npool = 2 + src.usize(POOL.len() - 1);
    let base = *src.pick(&[0x3000u16, 0x3000, 0, 0xFD00, 0x7FE0]);
    // how far the files are kept apart
    let spread = *src.pick(&[0x40u16, 0x40, 12, 8, 6, 4]);
    // which file prefers to define which name; conflicts are an exception
    let owner: Vec<usize> = (0..npool).map(|_| src.usize(n + 1)).collect();
    let clash = src.chance(1, 4);
    let mut out = vec![];
    for f in 0..n {
        let mut tries = 0;
        loop {
            tries += 1;
            let p = if tries > 30 { vec![St::new(Nuc::Orig(base + f as u16 * 0x20)), St::new(Nuc::Fill(Lo::Num(f as i64))), St::new(Nuc::End)] } else { gen_file(src, base.wrapping_add(f as u16 * spread), spread, npool, &owner, f, clash) };
            let l = layout(&p);
            if l.viol.is_empty() && !mixed(&l) {
                out.push(p);
                break;
            }
        }
    }
    // the same name at the same address in two files, through an empty block
    if n >= 2 && src.chance(1, 4) {
        let (a, b) = (src.usize(n), src.usize(n));
        if a != b {
            let l = layout(&out[a]);
            let c: Vec<(String, u16)> = l.bind.iter().filter(|(_, v)| !v[0].1).map(|(k, v)| (k.clone(), v[0].0)).collect();
            if !c.is_empty() {
                let (name, at) = src.pick(&c).clone();
                let mut p = out[b].clone();
                p.push(St::new(Nuc::Orig(at)));
                p.push(St::lab(&recase(src, &name), Nuc::End));
                let l = layout(&p);
                if l.viol.is_empty() && !mixed(&l) {
                    out[b] = p;
                }
            }
        }
    }
    out
}
fn gen_file(src: &mut Src, at: u16, spread: u16, npool: usize, owner: &[usize], f: usize, clash: bool) -> Prog {
    let mut defs = vec![];
    let mut exts = vec![];
    for (k, &o) in owner.iter().enumerate().take(npool) {
        if o == f || (clash && src.chance(1, 5)) {
            defs.push(POOL[k].to_string());
        } else if src.chance(1, 2) {
            exts.push(POOL[k].to_string());
        }
    }
    let mut left = defs.clone();
    let mut p: Prog = vec![];
    let nb = *src.pick(&[1usize, 1, 1, 2, 0]);
    let mut lc = at;
    for b in 0..nb {
        if b > 0 || spread < 0x40 {
            let wide = src.chance(1, 8);
            lc = lc.wrapping_add(src.below(if wide { 20 } else { 4 }) as u16);
        }
        p.push(St::new(Nuc::Orig(lc)));
        let ni = src.usize(5);
        for _ in 0..ni {
            let mut labels = vec![];
            while !left.is_empty() && src.chance(2, 5) {
                let l = left.remove(0);
                labels.push(recase(src, &l));
            }
            let nuc = match src.below(7) {
                0 => plain_instr(src),
                1 => Nuc::Fill(Lo::Num(src.word() as i64)),
                2 | 3 if !exts.is_empty() => {
                    let e = src.pick(&exts).clone();
                    Nuc::Fill(Lo::Lab(recase(src, &e)))
                }
                4 if !defs.is_empty() => {
                    let d = src.pick(&defs).clone();
                    Nuc::Fill(Lo::Lab(recase(src, &d)))
                }
                5 => Nuc::Blkw(1 + src.below(3) as u16),
                6 => Nuc::Stringz(gen_string(src, false, 3)),
                _ => Nuc::Nop(None),
            };
            lc = lc.wrapping_add(nuc.size() as u16);
            p.push(St { labels, nuc });
        }
        let mut end = St::new(Nuc::End);
        if b + 1 == nb {
            end.labels = left.drain(..).map(|l| recase(src, &l)).collect();
        }
        p.push(end);
    }
    // names without a place are not defined; references to them are dropped
    for s in &mut p {
        if let Nuc::Fill(Lo::Lab(l)) = &s.nuc {
            if left.iter().any(|x| up(x) == up(l)) {
                s.nuc = Nuc::Fill(Lo::Num(1));
            }
        }
    }
    for e in &exts {
        for _ in 0..1 + src.usize(8) / 7 {
            let i = match src.below(4) {
                0 => 0,
                1 => p.len(),
                _ => src.usize(p.len() + 1),
            };
            let d = recase(src, e);
            p.insert(i, St::new(Nuc::External(d)));
        }
    }
    p
}

#[derive(Clone, Debug, PartialEq)]
struct Model {
    img: BTreeMap<u16, Option<u16>>,
    labels: BTreeMap<String, (u16, bool)>,
    pend: BTreeMap<u16, String>,
}
impl Model {
    fn of(p: &Prog) -> Model {
        let l = layout(p);
        let (img, pend) = image(p, &l);
        let labels = l.bind.iter().map(|(k, v)| (k.clone(), v[0])).collect();
        Model { img, labels, pend }
    }
    /// (overlapping blocks, conflicting labels) over a whole set
    fn conflicts(ms: &[Model]) -> (bool, bool) {
        let (mut o, mut c) = (false, false);
        for (i, a) in ms.iter().enumerate() {
            for b in &ms[i + 1..] {
                o |= a.img.keys().any(|k| b.img.contains_key(k));
                c |= a.labels.iter().any(|(k, v)| !v.1 && b.labels.get(k).is_some_and(|w| !w.1 && w.0 != v.0));
            }
        }
        (o, c)
    }
    fn union(ms: &[Model]) -> Model {
        let mut u = Model { img: BTreeMap::new(), labels: BTreeMap::new(), pend: BTreeMap::new() };
        for m in ms {
            u.img.extend(m.img.clone());
            u.pend.extend(m.pend.clone());
            for (k, v) in &m.labels {
                let e = u.labels.entry(k.clone()).or_insert(*v);
                if e.1 {
                    *e = *v;
                }
            }
        }
        for (a, n) in u.pend.clone() {
            if let Some((addr, false)) = u.labels.get(&n) {
                u.img.insert(a, Some(*addr));
                u.pend.remove(&a);
            }
        }
        u
    }
}
pub(super) struct File {
    pub text: String,
    pub obj: ObjectFile,
}
pub(super) fn build(p: &Prog, src: &mut Src, debug: bool) -> Result<File, Fail> {
    assembled(render(p, Some(src)), debug)
}
fn assembled(r: Rendered, debug: bool) -> Result<File, Fail> {
    let ast = parse_ok(&r.text)?;
    match nopanic("assemble", || if debug { assemble_debug(ast, &r.text) } else { assemble(ast) })? {
        Ok(obj) => Ok(File { text: r.text, obj }),
        Err(e) => fail("reject", format!("well-formed file rejected: {:?}\n--- source\n{}", e.kind, r.text)),
    }
}
fn show(fs: &[File]) -> String {
    fs.iter().map(|f| f.text.as_str()).collect::<Vec<_>>().join("\n--- next file\n")
}
/// all orders of 0..n
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
type LinkRes = Result<ObjectFile, Kd>;
/// every bracketing of the sequence
fn brackets(objs: &[&ObjectFile]) -> Result<Vec<(String, LinkRes)>, Fail> {
    if objs.len() == 1 {
        return Ok(vec![("o".into(), Ok(objs[0].clone()))]);
    }
    let mut out = vec![];
    for k in 1..objs.len() {
        let (l, r) = (brackets(&objs[..k])?, brackets(&objs[k..])?);
        for (ln, a) in &l {
            for (rn, b) in &r {
                let res = match (a, b) {
                    (Ok(a), Ok(b)) => {
                        let (a, b) = (a.clone(), b.clone());
                        nopanic("ObjectFile::link", || ObjectFile::link(a, b))?.map_err(|e| kd(&e.kind))
                    }
                    (Err(e), _) | (_, Err(e)) => Err(*e),
                };
                out.push((format!("({ln}{rn})"), res));
            }
        }
    }
    Ok(out)
}

// ------------------------------------------------------------------ C20
fn c20(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = *src.pick(&[2usize, 2, 2, 3, 3, 4]);
    let progs = gen_files(src, n);
    let mut fs = vec![];
    for p in &progs {
        fs.push(build(p, src, true)?);
    }
    c20_files(progs, fs, src, ctx)
}
/// Two large files, one of which defines some of the other's externals.
fn large_pair(src: &mut Src) -> Result<(Vec<Prog>, Vec<File>), Fail> {
    let (a, ra) = large_rendered(src, 0x100, 0x8000, "la");
    let same = src.chance(1, 8);
    let from = if src.chance(1, 8) { 0x7F00 } else { 0x8000 };
    let (mut b, before) = gen_large(src, from, 0xF000, if same { "la" } else { "lc" });
    // definitions of the first file's externals, and uses of its labels
    let k = 1 + src.usize(3);
    let ext: Vec<&String> = a.iter().filter_map(|s| if let Nuc::External(e) = &s.nuc { Some(e) } else { None }).enumerate().filter(|(i, _)| i % k == 0).map(|x| x.1).collect();
    let own: Vec<&String> = a.iter().flat_map(|s| s.labels.first()).step_by(k).take(500).collect();
    if !same {
        b.push(St::new(Nuc::Orig(0xF000)));
        for e in ext {
            b.push(St::lab(e, Nuc::Fill(Lo::Lab(e.clone()))));
        }
        for o in &own {
            b.push(St::new(Nuc::Fill(Lo::Lab((*o).clone()))));
        }
        b.push(St::new(Nuc::End));
        for o in own {
            b.push(St::new(Nuc::External(o.clone())));
        }
    }
    let rb = render_after(before, &b, None);
    Ok((vec![a, b], vec![assembled(ra, true)?, assembled(rb, true)?]))
}
fn c20_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (ps, fs) = large_pair(src)?;
    c20_files(ps, fs, src, ctx)
}
fn c20_files(progs: Vec<Prog>, fs: Vec<File>, src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = progs.len();
    let ms: Vec<Model> = progs.iter().map(Model::of).collect();
    ctx.key(&progs);
    ctx.describe(|| progs.iter().map(dump).collect::<Vec<_>>().join("--- next file\n"));
    let (ov, cf) = Model::conflicts(&ms);
    let u = Model::union(&ms);
    let shared = ms.iter().enumerate().any(|(i, a)| ms[i + 1..].iter().any(|b| a.labels.keys().any(|k| b.labels.contains_key(k))));
    ctx.nontrivial_if(shared || ov || cf);
    ctx.class_if(ov, "overlapping-blocks");
    ctx.class_if(cf, "conflicting-labels");
    ctx.class_if(!ov && !cf, "links");
    ctx.class_if(!ov && !cf && ms.iter().map(|m| m.pend.len()).sum::<usize>() > u.pend.len(), "resolves-externals");
    ctx.class_if(!ov && !cf && !u.pend.is_empty(), "externals-left-pending");
    ctx.class_if(!ov && !cf && ms.iter().enumerate().any(|(i, a)| ms[i + 1..].iter().any(|b| a.labels.iter().any(|(k, v)| !v.1 && b.labels.get(k) == Some(v)))), "same-label-same-address");
    ctx.class_if(!ov && !cf && ms.iter().any(|a| ms.iter().any(|b| a.img.keys().any(|k| k.checked_add(1).is_some_and(|k| !a.img.contains_key(&k) && b.img.contains_key(&k))))), "touching-blocks");
    // a file that defines every external left over
    let mut definer: Option<(Model, ObjectFile)> = None;
    let rest: Vec<String> = u.labels.iter().filter(|(_, v)| v.1).map(|(k, _)| k.clone()).collect();
    if !rest.is_empty() {
        let mut p = vec![St::new(Nuc::Orig(if n == 2 && fs[0].text.len() + fs[1].text.len() > 4000 { 0xF800 } else { 0xC000 }))];
        for r in &rest {
            p.push(St::lab(r, Nuc::Nop(None)));
        }
        p.push(St::new(Nuc::End));
        definer = Some((Model::of(&p), build(&p, src, true)?.obj));
    }
    for perm in perms(n) {
        let os: Vec<&ObjectFile> = perm.iter().map(|&i| &fs[i].obj).collect();
        for (br, res) in brackets(&os)? {
            ctx.evals += 1;
            let what = format!("link order {perm:?} bracketing {br}");
            match res {
                Err(k) => {
                    ensure!(ov || cf, "c20-reject", "{what} fails with {k:?} although the blocks are disjoint and no label conflicts\n{}", show(&fs));
                    ensure!((k == Kd::OverlappingBlocks && ov) || (k == Kd::OverlappingLabels && cf), "c20-kind", "{what} fails with {k:?}; overlapping blocks: {ov}, conflicting labels: {cf}\n{}", show(&fs));
                }
                Ok(o) => {
                    ensure!(!ov && !cf, "c20-accept", "{what} succeeds; overlapping blocks: {ov}, conflicting labels: {cf}\n{}", show(&fs));
                    let txt = show(&fs);
                    same_map(&image_of(&o)?, &u.img, "c20-image", &format!("image of {what}"), &txt)?;
                    let Some(s) = o.symbol_table() else { return fail("c20-nosym", format!("{what} lost the symbol table")) };
                    same_map(&labels_of(s)?, &u.labels, "c20-labels", &format!("labels of {what}"), &txt)?;
                    if let Some((dm, d)) = &definer {
                        let full = Model::union(&[u.clone(), dm.clone()]);
                        for flip in [false, true] {
                            let (a, b) = if flip { (d.clone(), o.clone()) } else { (o.clone(), d.clone()) };
                            match nopanic("ObjectFile::link", || ObjectFile::link(a, b))? {
                                Ok(x) => same_map(&image_of(&x)?, &full.img, "c20-pending", &format!("image after {what} and then defining the remaining externals"), &txt)?,
                                Err(e) => return fail("c20-pending", format!("{what} then linking the definitions of {rest:?} fails: {:?}\n{txt}", e.kind)),
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C21
fn fresh() -> Simulator {
    Simulator::new(SimFlags { machine_init: MachineInitStrategy::Known { value: 0x5A5A }, ..Default::default() })
}
fn load(sim: &mut Simulator, o: &ObjectFile) -> Result<Result<(), SimErr>, Fail> {
    nopanic("load_obj_file", || sim.load_obj_file(o))
}
fn c21(src: &mut Src, ctx: &mut Ctx) -> Res {
    let next = 1 + src.usize(4);
    let names = gen_names(src, next + 2, true);
    let (ext, own) = names.split_at(next);
    // the using program: one or two blocks, declarations anywhere
    let mut p: Prog = vec![];
    let nb = 1 + src.usize(2);
    let origin = *src.pick(&[0x3000u16, 0x4000, 0, 0x2FF8]);
    let mut lc = origin;
    let mut own_left = own.to_vec();
    for _ in 0..nb {
        p.push(St::new(Nuc::Orig(lc)));
        let k = 1 + src.usize(6);
        for _ in 0..k {
            let nuc = match src.below(5) {
                0 => plain_instr(src),
                1 => Nuc::Blkw(1 + src.below(4) as u16),
                2 => Nuc::Stringz(gen_string(src, false, 4)),
                _ => {
                    let e = src.pick(ext).clone();
                    Nuc::Fill(Lo::Lab(recase(src, &e)))
                }
            };
            lc += nuc.size() as u16;
            let labels = if src.chance(1, 5) { own_left.pop().into_iter().collect() } else { vec![] };
            p.push(St { labels, nuc });
        }
        p.push(St::new(Nuc::End));
        lc += src.below(3) as u16;
    }
    let (mut before, mut after) = (false, false);
    for e in ext {
        for _ in 0..1 + src.usize(6) / 5 {
            let i = match src.below(3) {
                0 => 0,
                1 => p.len(),
                _ => src.usize(p.len() + 1),
            };
            let d = recase(src, e);
            let used_before = p[..i].iter().any(|s| matches!(&s.nuc, Nuc::Fill(Lo::Lab(l)) if up(l) == up(e)));
            let used_after = p[i..].iter().any(|s| matches!(&s.nuc, Nuc::Fill(Lo::Lab(l)) if up(l) == up(e)));
            before |= used_after;
            after |= used_before;
            p.insert(i, St::new(Nuc::External(d)));
        }
    }
    let lay = layout(&p);
    if !lay.viol.is_empty() {
        ctx.class("skipped-ill-formed");
        return Ok(());
    }
    let m = Model::of(&p);
    ctx.key(&p);
    ctx.describe(|| dump(&p));
    ctx.nontrivial_if(!m.pend.is_empty());
    ctx.class_if(before, "declared-before-use");
    ctx.class_if(after, "declared-after-use");
    let udebug = src.bool();
    ctx.class(if udebug { "user-with-debug" } else { "user-without-debug" });
    let user = build(&p, src, udebug)?;
    let mut sim = fresh();
    if !m.pend.is_empty() {
        match load(&mut sim, &user.obj)? {
            Err(SimErr::UnresolvedExternal(_)) => {}
            r => return fail("c21-load", format!("a file with unresolved external references {:?} (debug={udebug}) loads with result {r:?}\n--- source\n{}", m.pend, user.text)),
        }
    }
    // definitions, split over one or more files
    let nf = 1 + src.usize(ext.len().min(3));
    let mut groups: Vec<Vec<&String>> = vec![vec![]; nf];
    for e in ext {
        let g = src.usize(nf);
        groups[g].push(e);
    }
    let mut cur_m = m.clone();
    let mut cur = user.obj.clone();
    let mut at = *src.pick(&[0x5000u16, 0x0100, 0xFD80, 0x8000, 0]);
    if at == 0 && origin == 0 {
        at = 0x7000;
    }
    let mut defs_txt = String::new();
    for g in &groups {
        let mut d: Prog = vec![St::new(Nuc::Orig(at))];
        for e in g {
            let n = src.below(3);
            for _ in 0..n {
                d.push(St::new(Nuc::Fill(Lo::Num(9))));
            }
            let l = recase(src, e);
            d.push(St::lab(&l, Nuc::Fill(Lo::Lab(l.clone()))));
        }
        d.push(St::new(Nuc::End));
        at += 0x20;
        let ddebug = src.bool();
        let df = build(&d, src, ddebug)?;
        defs_txt.push_str(&format!("--- definitions (debug={ddebug})\n{}\n", df.text));
        let dm = Model::of(&d);
        let flip = src.bool();
        let (a, b) = if flip { (df.obj, cur) } else { (cur, df.obj) };
        cur = match nopanic("ObjectFile::link", || ObjectFile::link(a, b))? {
            Ok(o) => o,
            Err(e) => return fail("c21-link", format!("linking the definitions fails: {:?}\n--- source\n{}\n{defs_txt}", e.kind, user.text)),
        };
        cur_m = Model::union(&[cur_m, dm]);
        same_map(&image_of(&cur)?, &cur_m.img, "c21-image", &format!("image after linking (user debug={udebug}, definer first={flip})"), &format!("{}\n{defs_txt}", user.text))?;
        let r = load(&mut sim, &cur)?;
        if !cur_m.pend.is_empty() {
            ctx.class("partially-resolved");
            ensure!(matches!(r, Err(SimErr::UnresolvedExternal(_))), "c21-load", "with {:?} still unresolved, loading gives {r:?}\n--- source\n{}\n{defs_txt}", cur_m.pend, user.text);
        } else if cur_m.labels.values().all(|v| !v.1) {
            ensure!(r.is_ok(), "c21-load", "with every external defined, loading gives {r:?}\n--- source\n{}\n{defs_txt}", user.text);
            for (a, n) in &m.pend {
                let w = sim.mem[*a];
                ensure!(w.is_init() && w.get() == cur_m.labels[n].0, "c21-word", "after linking and loading, the word at {a:#06x} (.fill {n}) is {w:?}, the label is at {:#06x}\n--- source\n{}\n{defs_txt}", cur_m.labels[n].0, user.text);
            }
            ctx.class("fully-resolved");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C22
fn c22(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = *src.pick(&[2usize, 2, 3]);
    let progs = gen_files(src, n);
    let mut fs = vec![];
    for p in &progs {
        fs.push(build(p, src, true)?);
    }
    c22_files(progs, fs, ctx)
}
fn c22_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (ps, fs) = large_pair(src)?;
    c22_files(ps, fs, ctx)
}
fn c22_files(progs: Vec<Prog>, fs: Vec<File>, ctx: &mut Ctx) -> Res {
    let n = progs.len();
    let ms: Vec<Model> = progs.iter().map(Model::of).collect();
    ctx.key(&fs.iter().map(|f| f.text.clone()).collect::<Vec<_>>());
    ctx.describe(|| show(&fs));
    let (ov, cf) = Model::conflicts(&ms);
    if ov || cf {
        ctx.class("link-fails");
        return Ok(());
    }
    ctx.nontrivial_if(ms.iter().filter(|m| !m.img.is_empty()).count() >= 2);
    // what each file itself reports, established against its own text
    let mut want: BTreeMap<u16, (usize, String)> = BTreeMap::new();
    for (i, f) in fs.iter().enumerate() {
        let s = f.obj.symbol_table().unwrap();
        let lines: Vec<&str> = f.text.split('\n').collect();
        for a in ms[i].img.keys() {
            if let Some(l) = s.rev_lookup_line(*a) {
                ensure!(l < lines.len(), "c22-own", "line {l} reported for {a:#06x} is not in the file");
                want.insert(*a, (i, lines[l].trim().to_string()));
            }
        }
    }
    ctx.class_n(want.len() as u64, "addresses-with-lines");
    for perm in perms(n) {
        let os: Vec<&ObjectFile> = perm.iter().map(|&i| &fs[i].obj).collect();
        for (br, res) in brackets(&os)? {
            ctx.evals += 1;
            let what = format!("link order {perm:?} bracketing {br}");
            let o = match res {
                Ok(o) => o,
                Err(k) => return fail("c22-link", format!("{what} fails with {k:?}\n{}", show(&fs))),
            };
            let Some(s) = o.symbol_table() else { return fail("c22-nosym", format!("{what} lost the debug symbols")) };
            let Some(si) = s.source_info() else { return fail("c22-nosrc", format!("{what} lost the source")) };
            for m in &ms {
                for a in m.img.keys() {
                    let l = nopanic("rev_lookup_line", || s.rev_lookup_line(*a))?;
                    let t = l.map(|l| si.read_line(l).map(str::to_string));
                    match (t, want.get(a)) {
                        (None, None) => {}
                        (Some(Some(t)), Some((_, w))) if t == *w => {}
                        (t, w) => return fail("c22-line", format!("{what}: the line reported for {a:#06x} reads {t:?}, in its own file it reads {w:?}\n{}", show(&fs))),
                    }
                    if let Some(l) = l {
                        ensure_eq!(s.lookup_line(l), Some(*a), "c22-back", "{what}: address of line {l} of the combined source\n{}", show(&fs));
                    }
                }
            }
            let text = si.source();
            for (name, ..) in s.label_iter() {
                let sp = nopanic("get_label_source", || s.get_label_source(name))?;
                let t = sp.clone().and_then(|sp| text.get(sp));
                ensure!(t.is_some_and(|t| up(t) == up(name)), "c22-label", "{what}: the source span {sp:?} of label {name} covers {t:?}\n--- combined source\n{text}");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C17 / C18
/// A random assembled file, and whether it has debug symbols.
pub(super) fn gen_obj(src: &mut Src) -> Result<(File, bool), Fail> {
    let cfg = GenCfg { max_items: 8, big: false, ..Default::default() };
    let mut p = gen_prog(src, &cfg);
    let k = src.usize(3);
    for j in 0..k {
        let i = src.usize(p.len() + 1);
        p.insert(i, St::new(Nuc::External(format!("unusedext{j}"))));
    }
    let debug = src.chance(3, 4);
    Ok((build(&p, src, debug)?, debug))
}
/// A random linked file (None if no link of the set succeeds).
pub(super) fn gen_linked(src: &mut Src) -> Result<Option<File>, Fail> {
    let n = 2 + src.usize(3);
    let progs = gen_files(src, n);
    let mut acc: Option<File> = None;
    let mut links = 0;
    for p in &progs {
        let debug = src.chance(3, 4);
        let f = build(p, src, debug)?;
        acc = Some(match acc {
            None => f,
            Some(a) => match nopanic("ObjectFile::link", || ObjectFile::link(a.obj.clone(), f.obj.clone()))? {
                Ok(obj) => {
                    links += 1;
                    File { text: format!("{}\n--- linked with\n{}", a.text, f.text), obj }
                }
                Err(_) => a,
            },
        });
    }
    Ok(acc.filter(|_| links > 0))
}
fn gen_long(src: &mut Src) -> Result<File, Fail> {
    if src.chance(1, 4) {
        let (_, mut fs) = large_pair(src)?;
        let (b, a) = (fs.pop().unwrap(), fs.pop().unwrap());
        let (x, y) = (a.obj.clone(), b.obj);
        return Ok(match nopanic("ObjectFile::link", || ObjectFile::link(x, y))? {
            Ok(obj) => File { text: format!("{}\n--- linked with\n{}", a.text, b.text), obj },
            Err(_) => a,
        });
    }
    let (_, r) = large_rendered(src, 0, 0xFE00, "lb");
    let d = src.chance(3, 4);
    assembled(r, d)
}
/// Everything that can be observed about the two files through the public API.
fn same_obj(a: &ObjectFile, b: &ObjectFile, text: &str, sig: &str) -> Res {
    same_map(&image_of(b)?, &image_of(a)?, sig, "image after the round trip", text)?;
    match (a.symbol_table(), b.symbol_table()) {
        (None, None) => {}
        (Some(x), Some(y)) => {
            same_map(&labels_of(y)?, &labels_of(x)?, sig, "labels after the round trip", text)?;
            for (n, ..) in x.label_iter() {
                ensure_eq!(y.get_label_source(n), x.get_label_source(n), sig, "label source of {n} after the round trip\n{text}");
            }
            let (l, m): (Vec<_>, Vec<_>) = (x.line_iter().collect(), y.line_iter().collect());
            ensure!(l == m, sig, "line mapping after the round trip: {m:?}, expected {l:?}\n{text}");
            let (s, t) = (x.source_info().map(|s| s.source()), y.source_info().map(|s| s.source()));
            ensure!(s == t, sig, "source after the round trip: {t:?}, expected {s:?}");
        }
        (x, y) => return fail(sig, format!("symbol table present before: {}, after: {}\n{text}", x.is_some(), y.is_some())),
    }
    ensure!(a == b, sig, "the file read back is not equal to the original:\n{b:?}\n expected \n{a:?}\n{text}");
    Ok(())
}
fn round_bin(f: &File, ctx: &mut Ctx) -> Res {
    ctx.key(&f.text);
    ctx.describe(|| f.text.chars().take(1000).collect());
    let b = nopanic("BinaryFormat::serialize", || BinaryFormat::serialize(&f.obj))?;
    let Some(o) = nopanic("BinaryFormat::deserialize", || BinaryFormat::deserialize(&b))? else { return fail("c17-none", format!("the binary format does not read back what it wrote\n--- source\n{}", f.text)) };
    same_obj(&f.obj, &o, &f.text, "c17-differs")?;
    obj_classes(f, ctx);
    Ok(())
}
fn round_txt(f: &File, ctx: &mut Ctx) -> Res {
    ctx.key(&f.text);
    ctx.describe(|| f.text.chars().take(1000).collect());
    let b = nopanic("TextFormat::serialize", || TextFormat::serialize(&f.obj))?;
    let Some(o) = nopanic("TextFormat::deserialize", || TextFormat::deserialize(&b))? else { return fail("c18-none", format!("the text format does not read back what it wrote\n--- written\n{}", b.chars().take(4000).collect::<String>())) };
    same_obj(&f.obj, &o, &f.text, "c18-differs")?;
    obj_classes(f, ctx);
    if let Some(s) = f.obj.symbol_table().and_then(|s| s.source_info()) {
        let t = s.source();
        ctx.nontrivial_if(t.contains(['"', '\\', '\t', '\r', '\'']) || t.chars().any(|c| c.is_control() && c != '\n' || !c.is_ascii()));
        ctx.class_if(!t.is_ascii(), "non-ascii-source");
        ctx.class_if(t.contains('\\'), "backslash-in-source");
        ctx.class_if(t.contains("\r\n"), "crlf");
        ctx.class_if(t.chars().any(|c| c.is_control() && !"\r\n\t".contains(c)), "control-characters");
        ctx.class_if(t.split('\n').any(|l| l.trim().is_empty()), "blank-lines");
    }
    Ok(())
}
fn obj_classes(f: &File, ctx: &mut Ctx) {
    let words = f.obj.addr_iter().count();
    let labels = f.obj.symbol_table().map_or(0, |s| s.label_iter().count());
    ctx.nontrivial_if(words > 0 && labels > 0);
    ctx.class(if f.obj.symbol_table().is_some() { "debug" } else { "no-debug" });
    ctx.class_if(f.obj.addr_iter().any(|x| x.1.is_none()), "with-blkw");
    ctx.class_if(f.obj.symbol_table().is_some_and(|s| s.label_iter().any(|l| l.2)), "with-external");
}
fn c17_assembled(src: &mut Src, ctx: &mut Ctx) -> Res {
    round_bin(&gen_obj(src)?.0, ctx)
}
fn c18_assembled(src: &mut Src, ctx: &mut Ctx) -> Res {
    round_txt(&gen_obj(src)?.0, ctx)
}
fn c17_linked(src: &mut Src, ctx: &mut Ctx) -> Res {
    if let Some(f) = gen_linked(src)? {
        ctx.class("linked");
        round_bin(&f, ctx)?;
    }
    Ok(())
}
fn c18_linked(src: &mut Src, ctx: &mut Ctx) -> Res {
    if let Some(f) = gen_linked(src)? {
        ctx.class("linked");
        round_txt(&f, ctx)?;
    }
    Ok(())
}
fn c17_long(src: &mut Src, ctx: &mut Ctx) -> Res {
    round_bin(&gen_long(src)?, ctx)
}
fn c18_long(src: &mut Src, ctx: &mut Ctx) -> Res {
    round_txt(&gen_long(src)?, ctx)
}

// ------------------------------------------------------------------ C19
thread_local! {
    static FIXED: Vec<ObjectFile> = {
        let t = [
            ".orig x3000\nFOO ADD R0, R0, #1\nBAR .fill FOO\n.external EXT\n.fill EXT\nBAZ .blkw 2\n.end\n.orig xFD00\nQUX .stringz \"hi\"\n.end",
            "EXT_ .orig x0".get(0..0).unwrap(),
            ".external FOO\n.external bar\n.orig xFDFE\nEXT .fill FOO\n.fill BAR\n.end",
        ];
        let mut v = vec![ObjectFile::empty()];
        for s in t {
            for d in [false, true] {
                let ast = lc3_ensemble::parse::parse_ast(s).unwrap_or_default();
                if let Ok(o) = if d { assemble_debug(ast, s) } else { assemble(ast) } {
                    v.push(o);
                }
            }
        }
        v
    };
}
/// An object file that a reader returned: re-serializing, linking and loading it never panics.
fn use_obj(o: &ObjectFile, ctx: &mut Ctx) -> Res {
    ctx.class("accepted");
    let b = nopanic("BinaryFormat::serialize of an untrusted file", || BinaryFormat::serialize(o))?;
    nopanic("BinaryFormat::deserialize", || BinaryFormat::deserialize(&b))?;
    let t = nopanic("TextFormat::serialize of an untrusted file", || TextFormat::serialize(o))?;
    nopanic("TextFormat::deserialize", || TextFormat::deserialize(&t))?;
    let fixed = FIXED.with(|f| f.clone());
    let mut linked = vec![];
    for f in &fixed {
        for flip in [false, true] {
            let (a, b) = if flip { (f.clone(), o.clone()) } else { (o.clone(), f.clone()) };
            match nopanic("ObjectFile::link with an untrusted file", || ObjectFile::link(a, b))? {
                Ok(l) => linked.push(l),
                Err(e) => {
                    ctx.class("link-fails");
                    nopanic("link error span", || (e.span.first(), e.span.iter().count(), format!("{e}")))?;
                }
            }
        }
    }
    let mut sim = fresh();
    if nopanic("load_obj_file of an untrusted file", || sim.load_obj_file(o).is_ok())? {
        ctx.class("loads");
    }
    for l in &linked {
        nopanic("load_obj_file of a file linked with an untrusted file", || sim.load_obj_file(l).is_ok())?;
        nopanic("BinaryFormat::serialize of a linked file", || BinaryFormat::serialize(l))?;
        nopanic("TextFormat::serialize of a linked file", || TextFormat::serialize(l))?;
    }
    Ok(())
}
fn c19_bin(b: &[u8], ctx: &mut Ctx) -> Res {
    ctx.key(&b);
    ctx.describe(|| format!("{} bytes: {}", b.len(), b.iter().take(160).map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ")));
    if let Some(o) = nopanic("BinaryFormat::deserialize", || BinaryFormat::deserialize(b))? {
        ctx.nontrivial();
        use_obj(&o, ctx)?;
    }
    Ok(())
}
fn c19_txt(t: &str, ctx: &mut Ctx) -> Res {
    ctx.key(&t);
    ctx.describe(|| t.chars().take(1200).collect());
    if let Some(o) = nopanic("TextFormat::deserialize", || TextFormat::deserialize(t))? {
        ctx.nontrivial();
        use_obj(&o, ctx)?;
    }
    Ok(())
}
fn valid(src: &mut Src) -> Result<ObjectFile, Fail> {
    Ok(match src.below(3) {
        0 => match gen_linked(src)? {
            Some(f) => f.obj,
            None => ObjectFile::empty(),
        },
        1 => {
            let n = 1;
            let p = gen_files(src, n).remove(0);
            let d = src.chance(3, 4);
            build(&p, src, d)?.obj
        }
        _ => gen_obj(src)?.0.obj,
    })
}
fn c19_bin_mutants(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut b = BinaryFormat::serialize(&valid(src)?);
    let n = src.usize(6);
    for _ in 0..n {
        let i = src.usize(b.len());
        match src.below(8) {
            0 => b[i] = src.below(256) as u8,
            1 => b[i] = *src.pick(&[0u8, 1, 0xFF, 0x7F, 0x80, 2, 3, 4]),
            2 => b.truncate(i.max(7)),
            3 => {
                b.remove(i);
            }
            4 => b.insert(i, src.below(5) as u8),
            5 => {
                let e = (i + 8).min(b.len());
                let v = *src.pick(&[0u64, 1, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, 0xFFFF]);
                let v = v.to_le_bytes();
                b[i..e].copy_from_slice(&v[..e - i]);
            }
            6 => {
                let e = (i + 2).min(b.len());
                let w = src.word().to_le_bytes();
                b[i..e].copy_from_slice(&w[..e - i]);
            }
            _ => {
                let e = (i + src.usize(40)).min(b.len());
                let c = b[i..e].to_vec();
                let j = 7 + src.usize(b.len().saturating_sub(7) + 1);
                let j = j.min(b.len());
                b.splice(j..j, c);
            }
        }
        if b.is_empty() {
            break;
        }
    }
    ctx.nontrivial();
    c19_bin(&b, ctx)
}
fn big(src: &mut Src) -> u64 {
    match src.below(5) {
        0 => src.below(8),
        1 => src.below(100),
        2 => src.word() as u64,
        3 => *src.pick(&[u64::MAX, u64::MAX - 1, u64::MAX - 65535, 1 << 63, (1 << 63) - 1, 1 << 32, u32::MAX as u64]),
        _ => src.draw(),
    }
}
fn some_label(src: &mut Src) -> String {
    match src.below(4) {
        0 => src.pick(&["FOO", "BAR", "EXT", "foo", "", "é", "QUX", "BAZ"]).to_string(),
        1 => gen_string(src, false, 6),
        2 => src.pick(&["a | b", " | ", "=", "#", ".TEXT", "\n", "A\r", " x ", "İ", "ŉ"]).to_string(),
        _ => src.pick(POOL).to_string(),
    }
}
/// chunks in any order with hostile fields but consistent lengths (mostly)
fn c19_bin_struct(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut b = b"obj\x21\x10\x00\x01".to_vec();
    let n = src.usize(8);
    for _ in 0..n {
        match src.weighted(&[4, 4, 3, 2, 3, 1]) {
            0 => {
                let len = match src.below(6) {
                    0 => *src.pick(&[0u16, 0xFFFF, 0x8000, 0x1000]),
                    _ => src.below(12) as u16,
                };
                b.push(0);
                b.extend(src.word().to_le_bytes());
                b.extend(len.to_le_bytes());
                for k in 0..len {
                    if k < 16 {
                        b.push(*src.pick(&[0xFFu8, 0, 1]));
                        b.extend(src.word().to_le_bytes());
                    } else {
                        b.extend([0xFF, k as u8, 1]);
                    }
                }
            }
            1 => {
                let l = some_label(src);
                b.push(1);
                b.extend(src.word().to_le_bytes());
                b.push(src.below(3) as u8);
                b.extend(big(src).to_le_bytes());
                b.extend((l.len() as u64).to_le_bytes());
                b.extend(l.as_bytes());
            }
            2 => {
                let len = src.below(5) as u16;
                b.push(2);
                b.extend(big(src).to_le_bytes());
                b.extend(len.to_le_bytes());
                let mut v: Vec<u16> = (0..len).map(|_| src.word()).collect();
                if src.chance(3, 4) {
                    v.sort();
                }
                for w in v {
                    b.extend(w.to_le_bytes());
                }
            }
            3 => {
                let t = gen_string(src, false, 20);
                b.push(3);
                b.extend((t.len() as u64).to_le_bytes());
                b.extend(t.as_bytes());
            }
            4 => {
                let l = some_label(src);
                b.push(4);
                b.extend(src.word().to_le_bytes());
                b.extend((l.len() as u64).to_le_bytes());
                b.extend(l.as_bytes());
            }
            _ => {
                let k = src.usize(12);
                for _ in 0..k {
                    b.push(src.below(256) as u8);
                }
            }
        }
    }
    c19_bin(&b, ctx)
}
fn c19_bin_random(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut b = if src.chance(3, 4) { b"obj\x21\x10\x00\x01".to_vec() } else { vec![] };
    let n = src.usize(64);
    for _ in 0..n {
        let x = if src.bool() { src.below(256) as u8 } else { src.below(5) as u8 };
        b.push(x);
    }
    c19_bin(&b, ctx)
}
const TFRAG: &[&str] = &[".TEXT", ".SYMBOL", ".LINKER_INFO", ".DEBUG", "====================", "=", "ADDR | EXT | LABEL", "ADDR | LABEL", "LABEL | INDEX", "LINE | ADDR | SOURCE", "????", "3000", "FFFF", "+FFF", "0", "1", "65535", "65536", "-1", " | ", "# c", "3000 |   0 | FOO", "0000 |   1 | EXT", "3001 | EXT", "FOO | 18446744073709551615", "FOO   | 3", "0 | ???? | \\n", "0    | 3000 | ADD\\n", "1    | 2FFF | \\u{110000}", "2 | ???? | \\", "1    | 3000 | \\x", "3 | 3000 | \\u{e9}", "LC-3 OBJ FILE", "é", "\u{85}", "00é", "0é0"];
fn c19_txt_mutants(src: &mut Src, ctx: &mut Ctx) -> Res {
    let t = TextFormat::serialize(&valid(src)?);
    let mut lines: Vec<String> = t.lines().map(str::to_string).collect();
    let n = src.usize(6);
    for _ in 0..n {
        if lines.len() < 2 {
            break;
        }
        let i = 1 + src.usize(lines.len() - 1);
        match src.below(9) {
            0 => {
                lines.remove(i);
            }
            1 => {
                let l = lines[i].clone();
                lines.insert(i, l);
            }
            2 => {
                let j = 1 + src.usize(lines.len() - 1);
                lines.swap(i, j);
            }
            3 => lines[i] = src.pick(TFRAG).to_string(),
            4 => lines.insert(i, src.pick(TFRAG).to_string()),
            5 => {
                // a hex or decimal field
                let w = src.word();
                let l = lines[i].clone();
                lines[i] = match l.split_once(" | ") {
                    Some((_, r)) => format!("{w:04X} | {r}"),
                    None => if src.bool() { format!("{w:04X}") } else { format!("{w}") },
                };
            }
            6 => {
                let l = lines[i].clone();
                if let Some((a, _)) = l.rsplit_once(" | ") {
                    lines[i] = format!("{a} | {}", if src.bool() { some_label(src) } else { big(src).to_string() });
                }
            }
            7 => {
                let mut c: Vec<char> = lines[i].chars().collect();
                if !c.is_empty() {
                    let k = src.usize(c.len());
                    match src.below(3) {
                        0 => {
                            c.remove(k);
                        }
                        1 => c.insert(k, *src.pick(&['|', ' ', '\\', '0', 'F', 'é', '?', '=', '#', '.', '{', '}', 'u'])),
                        _ => c[k] = *src.pick(&['|', ' ', '\\', '0', 'F', 'é', '?', '=', '9', '-', '+']),
                    }
                }
                lines[i] = c.into_iter().collect();
            }
            _ => lines.truncate(i),
        }
    }
    ctx.nontrivial();
    let nl = if src.chance(1, 6) { "\r\n" } else { "\n" };
    c19_txt(&lines.join(nl), ctx)
}
fn c19_txt_struct(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut t = String::from("LC-3 OBJ FILE\n");
    let n = 1 + src.usize(5);
    for _ in 0..n {
        match src.below(4) {
            0 => {
                t.push_str(".TEXT\n");
                let nb = src.usize(4);
                for _ in 0..nb {
                    let len = if src.chance(1, 12) { *src.pick(&[0xFFFFu64, 0xF000]) } else { src.below(6) };
                    let at = src.word();
                    t.push_str(&format!("{at:04X}\n{len}\n"));
                    for k in 0..len {
                        if k < 16 && src.chance(1, 3) {
                            t.push_str("????\n");
                        } else {
                            t.push_str(&format!("{:04X}\n", k as u16));
                        }
                    }
                }
            }
            1 => {
                t.push_str(".SYMBOL\nADDR | EXT | LABEL\n");
                let k = src.usize(4);
                for _ in 0..k {
                    let (a, e, l) = (src.word(), src.below(3), some_label(src));
                    t.push_str(&format!("{a:04X} | {e} | {l}\n"));
                }
            }
            2 => {
                t.push_str(".LINKER_INFO\nADDR | LABEL\n");
                let k = src.usize(4);
                for _ in 0..k {
                    let (a, l) = (src.word(), some_label(src));
                    t.push_str(&format!("{a:04X} | {l}\n"));
                }
            }
            _ => {
                t.push_str(".DEBUG\n");
                if src.bool() {
                    t.push_str("LABEL | INDEX\n");
                    let k = src.usize(4);
                    for _ in 0..k {
                        let (l, i) = (some_label(src), big(src));
                        t.push_str(&format!("{l} | {i}\n"));
                    }
                }
                t.push_str("====================\n");
                let k = src.usize(6);
                if k > 0 {
                    t.push_str("LINE | ADDR | SOURCE\n");
                    let mut a = src.word();
                    for i in 0..k {
                        let addr = if src.bool() { "????".to_string() } else { format!("{a:04X}") };
                        a = a.wrapping_add(src.below(3) as u16);
                        let s = gen_string(src, false, 8);
                        let s = if src.chance(1, 8) { s.replace('\n', "") } else { s.escape_default().to_string() };
                        t.push_str(&format!("{i} | {addr} | {s}{}\n", if src.bool() { "\\n" } else { "" }));
                    }
                }
                if src.chance(5, 6) {
                    t.push_str("====================\n");
                }
            }
        }
    }
    c19_txt(&t, ctx)
}
fn c19_txt_random(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut t = if src.chance(3, 4) { String::from("LC-3 OBJ FILE\n") } else { String::new() };
    let n = src.usize(14);
    for _ in 0..n {
        if src.chance(4, 5) {
            t.push_str(src.pick(TFRAG));
        } else {
            t.push_str(&gen_string(src, false, 6));
        }
        if src.chance(4, 5) {
            t.push('\n');
        }
    }
    c19_txt(&t, ctx)
}
