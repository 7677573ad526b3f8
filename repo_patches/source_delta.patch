From 85805b523600932060b8a91064837b2fbb58eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:36 +0000
Subject: [PATCH 01/18] fix: string literal escapes no longer panic at end of
 line or before non-ASCII characters

---
 src/parse/lex.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/parse/lex.rs b/src/parse/lex.rs
index 869b89a..547bc82 100644
--- a/src/parse/lex.rs
+++ b/src/parse/lex.rs
@@ -262,24 +262,24 @@ fn lex_str_literal(lx: &mut Lexer<'_, Token>) -> Result<String, LexErr> {
         buf.push_str(left);
         match mid {
             "\\" => {
-                // the next character is part of the escape:
-                let esc = right.as_bytes()
-                    .first()
-                    .unwrap_or_else(|| unreachable!("expected character after escape")); // there always has to be one, cause last character is not \
-                match esc {
-                    b'n'  => buf.push('\n'),
-                    b'r'  => buf.push('\r'),
-                    b't'  => buf.push('\t'),
-                    b'\\' => buf.push('\\'),
-                    b'0'  => buf.push('\0'),
-                    b'"'  => buf.push('\"'),
-                    &c => {
+                // the next character is part of the escape
+                let mut right_chars = right.chars();
+                match right_chars.next() {
+                    Some('n')  => buf.push('\n'),
+                    Some('r')  => buf.push('\r'),
+                    Some('t')  => buf.push('\t'),
+                    Some('\\') => buf.push('\\'),
+                    Some('0')  => buf.push('\0'),
+                    Some('"')  => buf.push('\"'),
+                    Some(c) => {
                         buf.push('\\');
-                        buf.push(char::from(c));
-                    }
+                        buf.push(c);
+                    },
+                    // the line ends with a backslash, so the literal is unclosed
+                    None => {}
                 }
                 
-                remaining = &right[1..];
+                remaining = right_chars.as_str();
             },
             "\"" => {
                 remaining = right;
-- 
2.43.0


From 035693de3a1da8a9ac91d7ae8a139c806c3b06a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 02/18] fix: decoding rejects JMP words with bit 11 set

---
 src/ast/sim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/sim.rs b/src/ast/sim.rs
index 02db76f..3ec64da 100644
--- a/src/ast/sim.rs
+++ b/src/ast/sim.rs
@@ -330,7 +330,7 @@ impl SimInstr {
                 Ok(Self::STI(sr, off))
             },
             OP_JMP => {
-                word.slice(9..11).assert_equals(0b00)?;
+                word.slice(9..12).assert_equals(0b000)?;
                 let reg = word.slice(6..9).interpret();
                 word.slice(0..6).assert_equals(0b000_000)?;
                 Ok(Self::JMP(reg))
-- 
2.43.0


From 7a498833fefd25652731d79616188553f86d794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 03/18] fix: binary format writes relocation addresses in the
 byte order it reads

---
 src/asm/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index 77d032a..d6b7192 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -134,7 +134,7 @@ impl ObjFileFormat for BinaryFormat {
 
             for (&addr, label) in &sym.rel_map {
                 bytes.push(0x04);
-                bytes.extend(u16::to_be_bytes(addr));
+                bytes.extend(u16::to_le_bytes(addr));
                 bytes.extend(u64::to_le_bytes(label.len() as u64));
                 bytes.extend_from_slice(label.as_bytes());
             }
-- 
2.43.0


From 16536299429a5482ad7ed6b5a6061f51895345a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 04/18] fix: text format reads a .DEBUG section without a line
 table

---
 src/asm/encoding.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index d6b7192..ff97229 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -506,7 +506,12 @@ impl ObjFileFormat for TextFormat {
                 ".DEBUG" => if !rest.is_empty() {
                     let split_pos = rest.iter().position(|l| l.starts_with('='))?;
                     if !rest.last()?.starts_with('=') { return None; }
-                    let (label_src, [_, line_src @ .., _]) = rest.split_at(split_pos) else { unreachable!("divider should be present") };
+                    let (label_src, line_section) = rest.split_at(split_pos);
+                    // If there is only one divider, there is no line table.
+                    let line_src = match line_section {
+                        [_, line_src @ .., _] => line_src,
+                        _ => &[],
+                    };
 
                     let label_table = parse_table(label_src, ["LABEL", "INDEX"], |[label, index_str], _| {
                         let index = index_str.parse().ok()?;
-- 
2.43.0


From 9e573c379e2b5e5ec13b5ad46f9c9f3514aff239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 05/18] fix: lines holding .external are not mapped to an
 address

---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 9fe11f2..7efeca7 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -677,7 +677,7 @@ impl SymbolTable {
                 // Calculate which source code line is associated with the instruction the LC is currently pointing to
                 // and add the mapping from line to instruction address.
                 if let Some((lines, s)) = &mut debug_sym {
-                    if !matches!(stmt.nucleus, StmtKind::Directive(Directive::Orig(_) | Directive::End)) {
+                    if !matches!(stmt.nucleus, StmtKind::Directive(Directive::Orig(_) | Directive::End | Directive::External(_))) {
                         let line_index = s.get_line(stmt.span.start);
                         lines[line_index].replace(cur.lc);
                     }
-- 
2.43.0


From 00ec16664485a2d0bc6268f485101ea4bfa00a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 06/18] fix: positions past the end of the source are on the
 last line

---
 src/asm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asm.rs b/src/asm.rs
index 7efeca7..b7e755a 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -406,6 +406,7 @@ impl SourceInfo {
     /// Gets the line number of the current position.
     fn get_line(&self, index: usize) -> usize {
         self.nl_indices.partition_point(|&start| start < index)
+            .min(self.count_lines() - 1) // anything past the end is on the last line
     }
 
     /// Calculates the line and character number for a given character index.
-- 
2.43.0


From 3a51e5fbba5b057f645ddd9fc64aa8b417493279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:03 +0000
Subject: [PATCH 07/18] fix: label source lookup ignores case like the address
 lookup

---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index b7e755a..62c2379 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -795,7 +795,7 @@ impl SymbolTable {
     /// assert_eq!(sym.get_label_source("LOOP_DE_LOOP"), None);
     /// ```
     pub fn get_label_source(&self, label: &str) -> Option<Range<usize>> {
-        self.label_map.get(label)
+        self.label_map.get(&label.to_uppercase())
             .map(|data| data.span(label))
     }
 
-- 
2.43.0


From 44ea2154024c80afbdd0c502d5b464d2cc6c758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:03 +0000
Subject: [PATCH 08/18] fix: link overlap errors carry a span that can be
 queried

---
 src/asm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 62c2379..478f76f 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1209,7 +1209,7 @@ impl ObjectFile {
 
         for (addr, block) in b_block_map {
             if a_obj.block_map.insert(addr, block).is_some() {
-                return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, []));
+                return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, 0..0)); // no source to point to
             }
         }
 
@@ -1221,7 +1221,7 @@ impl ObjectFile {
             let br = b_st .. (b_st + b_bl.len() as u16);
             ranges_overlap(ar, br)
         }) {
-            return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, []));
+            return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, 0..0)); // no source to point to
         }
 
         // Merge symbol tables:
-- 
2.43.0


From 865c2cc67f2e9de931130cf05b9054d4ab1cec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:44 +0000
Subject: [PATCH 09/18] fix: object files with out-of-range addresses,
 relocations or line numbers cannot cause a panic

---
 src/asm.rs          | 19 +++++++++++--------
 src/asm/encoding.rs | 15 +++++++++++----
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 478f76f..dda050b 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -444,7 +444,8 @@ struct SymbolData {
 impl SymbolData {
     /// Calculates the source range of this symbol, given the name of the label.
     fn span(&self, label: &str) -> Range<usize> {
-        self.src_start .. (self.src_start + label.len())
+        // saturating because the start may come from an untrusted object file
+        self.src_start .. self.src_start.saturating_add(label.len())
     }
 }
 
@@ -1217,8 +1218,10 @@ impl ObjectFile {
         let mut second = a_obj.block_map.iter();
         second.next();
         if std::iter::zip(first, second).any(|((&a_st, a_bl), (&b_st, b_bl))| {
-            let ar = a_st .. (a_st + a_bl.len() as u16);
-            let br = b_st .. (b_st + b_bl.len() as u16);
+            // usize, since the end of a block read from a file may not fit in u16
+            let (a_st, b_st) = (usize::from(a_st), usize::from(b_st));
+            let ar = a_st .. (a_st + a_bl.len());
+            let br = b_st .. (b_st + b_bl.len());
             ranges_overlap(ar, br)
         }) {
             return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, 0..0)); // no source to point to
@@ -1290,11 +1293,11 @@ impl ObjectFile {
             (ma, mb) => ma.or(mb)
         };
         for (addr, linked_addr) in relocations {
-            // TODO: handle case where the address needed is not found in block map
-            // should really only occur from invalid manipulation of obj file
-            a_obj.get_mut(addr)
-                .unwrap_or_else(|| unreachable!("object file should have had address x{addr:04X} bound"))
-                .replace(linked_addr);
+            // An address that isn't in the block map has nothing to relocate.
+            // (This only occurs from invalid manipulation of the object file.)
+            if let Some(word) = a_obj.get_mut(addr) {
+                word.replace(linked_addr);
+            }
         }
 
         Ok(a_obj)
diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index ff97229..d8fec39 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -205,11 +205,18 @@ impl ObjFileFormat for BinaryFormat {
         }
 
         let debug_symbols = match debug_sym {
-            Some((line_map, src)) => Some(DebugSymbols {
+            Some((line_map, src)) => {
+                let src_info = super::SourceInfo::from_string(src);
+
+                // Assert line map only holds lines that are in the source
+                let lines_in_src = line_map.iter().all(|(&lno, data): (&usize, &Vec<u16>)| {
+                    lno.checked_add(data.len()).is_some_and(|end| end <= src_info.count_lines())
+                });
+                if !lines_in_src { return None; }
+
                 // Error should propagate to deser
-                line_map: super::LineSymbolMap::from_blocks(line_map)?,
-                src_info: super::SourceInfo::from_string(src),
-            }),
+                Some(DebugSymbols { line_map: super::LineSymbolMap::from_blocks(line_map)?, src_info })
+            },
             None => None,
         };
         let sym = (!label_map.is_empty() || debug_symbols.is_some())
-- 
2.43.0


From b55365eff964784337058eb75f157f22334b9e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 10/18] fix: text format handles labels longer than the maximum
 format width

---
 src/asm/encoding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index d8fec39..07c9b7f 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -372,6 +372,8 @@ impl ObjFileFormat for TextFormat {
                             (LABEL.len(), INDEX.len()), 
                             |(lc, ic), (lx, ix)| (lc.max(lx), ic.max(ix))
                         );
+                    // Format widths cannot exceed u16::MAX
+                    let label_col = label_col.min(usize::from(u16::MAX));
 
                     // Display!
                     writeln!(buf, "{LABEL:1$}{0}{INDEX:2$}", TABLE_DIV, label_col, index_col)?;
-- 
2.43.0


From ebe0a852f4a406f00823b21d79ee5d4938e0924c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 11/18] fix: linking keeps label source spans pointing at the
 combined source

---
 src/asm.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index dda050b..109b030 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1233,6 +1233,12 @@ impl ObjectFile {
             // If we have both symbol tables:
             (Some(mut a_sym), Some(b_sym)) => {
                 let SymbolTable { label_map, rel_map, debug_symbols: b_debug_symbols } = b_sym;
+
+                // If both files have source, B's source is placed after A's (see DebugSymbols::link).
+                let b_src_shift = match (&a_sym.debug_symbols, &b_debug_symbols) {
+                    (Some(ads), Some(_)) => ads.src_info.source().len() + 1,
+                    _ => 0
+                };
                 a_sym.debug_symbols = match (a_sym.debug_symbols, b_debug_symbols) {
                     (Some(ads), Some(bds)) => Some(DebugSymbols::link(ads, bds)?),
                     (m_ads, b_ads) => m_ads.or(b_ads)
@@ -1242,7 +1248,8 @@ impl ObjectFile {
                 a_sym.rel_map.extend(rel_map);
 
                 // For every label in symbol table B:
-                for (label, b_sym_data) in label_map {
+                for (label, mut b_sym_data) in label_map {
+                    b_sym_data.src_start = b_sym_data.src_start.saturating_add(b_src_shift);
                     match a_sym.label_map.entry(label) {
                         Entry::Occupied(mut e) => {
                             let &a_sym_data = e.get();
-- 
2.43.0


From 3f26b2e8fb9d489c4331942bb5f924f6d943f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 12/18] fix: .fill of an external label is relocated even if
 declared external afterwards

---
 src/asm.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 109b030..dc18490 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -661,13 +661,10 @@ impl SymbolTable {
                     add_label(&mut label_map, label, 0, true)?;
                 }
                 StmtKind::Directive(Directive::Fill(PCOffset::Label(label))) => {
-                    let label_text = label.name.to_uppercase();
-                    if let Some(SymbolData { external: true, .. }) = label_map.get(&label_text) {
-                        let Some(cur) = cursor.as_ref() else {
-                            return Err(AsmErr::new(AsmErrKind::UndetAddrStmt, stmt.span.clone()));
-                        };
-
-                        rel_map.insert(cur.lc, label_text);
+                    // The .external declaration may come after this statement,
+                    // so relocations are determined after every label is known.
+                    if let Some(cur) = cursor.as_ref() {
+                        rel_map.insert(cur.lc, label.name.to_uppercase());
                     }
                 },
                 _ => {}
@@ -696,6 +693,11 @@ impl SymbolTable {
         if let Some(cur) = cursor {
             return Err(AsmErr::new(AsmErrKind::UnclosedOrig, cur.block_orig));
         }
+
+        // Only the references to external labels need relocation.
+        rel_map.retain(|_, label_text| {
+            matches!(label_map.get(label_text), Some(SymbolData { external: true, .. }))
+        });
         
         let debug_symbols = debug_sym.map(|(lines, src_info)| DebugSymbols {
             line_map: LineSymbolMap::new(lines)
-- 
2.43.0


From 3507439dcd7d2d857ad6c7a98f51ba37046ad717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:40 +0000
Subject: [PATCH 13/18] fix: external references are tracked without debug
 symbols

---
 src/asm.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index dc18490..6b293c5 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1038,7 +1038,7 @@ pub struct ObjectFile {
     /// - As a corollary, block's length must fit in a `u16`.
     block_map: BTreeMap<u16, Vec<Option<u16>>>,
 
-    /// Debug symbols.
+    /// Linking information (labels and relocations) and debug symbols.
     sym: Option<SymbolTable>
 }
 impl ObjectFile {
@@ -1186,7 +1186,8 @@ impl ObjectFile {
             .collect();
         Ok(Self {
             block_map,
-            sym: debug.then_some(sym),
+            // Labels and relocations are needed for linking, even if debug symbols weren't requested.
+            sym: (debug || !sym.label_map.is_empty()).then_some(sym),
         })
     }
 
@@ -1319,7 +1320,7 @@ impl ObjectFile {
     }
     /// Checks if object file has any external symbols.
     pub(crate) fn get_external_symbol(&self) -> Option<&str> {
-        self.symbol_table()
+        self.sym.as_ref()
             .and_then(|s| s.label_map.iter().find(|(_, s)| s.external))
             .map(|(k, _)| k.as_str())
     }
@@ -1333,8 +1334,10 @@ impl ObjectFile {
             })
     }
     /// Gets the symbol table if it is present in the object file.
+    /// 
+    /// This is only present if the object file has debug symbols.
     pub fn symbol_table(&self) -> Option<&SymbolTable> {
-        self.sym.as_ref()
+        self.sym.as_ref().filter(|s| s.debug_symbols.is_some())
     }
 }
 
-- 
2.43.0


From a0dde91e63b266beb6dddbb36fd155f52f09b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:37 +0000
Subject: [PATCH 14/18] fix: prefetch_pc does not overflow when the PC is 0

---
 src/sim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index 11157e4..e8cd776 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1037,7 +1037,7 @@ impl Simulator {
     /// This function is useful as it returns the location of the currently
     /// executing instruction in memory.
     pub fn prefetch_pc(&self) -> u16 {
-        self.pc - (!self.prefetch) as u16
+        self.pc.wrapping_sub((!self.prefetch) as u16)
     }
 
     /// Checks whether the address points to a memory location that was allocated
-- 
2.43.0


From f7f3ad835e23818c53f43b024759bda7d5d38029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:42 +0000
Subject: [PATCH 15/18] fix: strict mode's jump target check has no memory
 access effects

---
 src/sim.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index e8cd776..ab76401 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1019,7 +1019,8 @@ impl Simulator {
         let addr = addr_word.get_if_init(self.flags.strict, SimErr::StrictJmpAddrUninit)?;
         if self.flags.strict && st_check_mem {
             // Check next memory value is initialized:
-            if !self.read_mem(addr, self.default_mem_ctx())?.is_init() {
+            // (This is only a peek, so it must not have any of the effects of a memory access.)
+            if !self.mem[addr].is_init() {
                 return Err(SimErr::StrictPCNextUninit);
             }
         }
-- 
2.43.0


From 3576ab729120869499d7742e698d6a52c3511342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:29 +0000
Subject: [PATCH 16/18] fix: timer ranges that include 0 do not exceed the
 range

---
 src/sim/device/timer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sim/device/timer.rs b/src/sim/device/timer.rs
index c103c2d..c169fe8 100644
--- a/src/sim/device/timer.rs
+++ b/src/sim/device/timer.rs
@@ -158,7 +158,8 @@ impl ExternalDevice for TimerDevice {
         match self.time {
             0 => {
                 self.reset_remaining();
-                None
+                // A newly generated time of 0 means there are no polls between this interrupt and the last one.
+                (self.time == 0).then(|| super::Interrupt::vectored(self.vect, self.priority))
             },
             1 => {
                 self.time = 0;
-- 
2.43.0


From 91c99d51da68207db51891678848d617ca2ea326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:12 +0000
Subject: [PATCH 17/18] fix: keyboard and display do not lose bytes when their
 buffer is locked

---
 src/sim/device/display.rs  | 15 +++++++--------
 src/sim/device/keyboard.rs |  8 ++++++--
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/sim/device/display.rs b/src/sim/device/display.rs
index 3723615..5d7d6fa 100644
--- a/src/sim/device/display.rs
+++ b/src/sim/device/display.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, RwLock, RwLockWriteGuard, TryLockError};
+use std::sync::{Arc, PoisonError, RwLock, RwLockWriteGuard, TryLockError};
 
 use super::{DevWrapper, ExternalDevice, Interrupt, DDR, DSR};
 
@@ -66,13 +66,12 @@ impl DisplayDevice for BufferedDisplay {
     }
 
     fn send_output(&mut self, byte: u8) -> bool {
-        match self.try_output() {
-            Some(mut d) => {
-                d.push(byte);
-                true
-            },
-            None => false,
-        }
+        // This has to wait for the lock:
+        // if DSR has reported that the display is ready, the byte must not be lost here.
+        self.buffer.write()
+            .unwrap_or_else(PoisonError::into_inner)
+            .push(byte);
+        true
     }
     
     fn clear_output(&mut self) {
diff --git a/src/sim/device/keyboard.rs b/src/sim/device/keyboard.rs
index 7a5a491..e8a8b7a 100644
--- a/src/sim/device/keyboard.rs
+++ b/src/sim/device/keyboard.rs
@@ -1,5 +1,5 @@
 use std::collections::VecDeque;
-use std::sync::{Arc, RwLock, RwLockWriteGuard, TryLockError};
+use std::sync::{Arc, PoisonError, RwLock, RwLockWriteGuard, TryLockError};
 
 use super::{DevWrapper, ExternalDevice, Interrupt, KBDR, KBSR, KB_INTP, KB_INTV};
 
@@ -99,7 +99,11 @@ impl KeyboardDevice for BufferedKeyboard {
     }
 
     fn pop_input(&mut self) -> Option<u8> {
-        self.try_input()?.pop_front()
+        // This has to wait for the lock:
+        // if KBSR has reported that a character is ready, that character has to be received here.
+        self.buffer.write()
+            .unwrap_or_else(PoisonError::into_inner)
+            .pop_front()
     }
     
     fn clear_input(&mut self) {
-- 
2.43.0


From e2932fb318a95fde145e32a4b99999ce34ade181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 18/18] fix: overlapping label errors span the first label as
 it is spelled

---
 src/asm.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 6b293c5..1623ba0 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -598,6 +598,7 @@ impl SymbolTable {
 
         fn add_label(
             labels: &mut HashMap<String, SymbolData>, 
+            spans: &mut HashMap<String, Span>,
             label: &crate::ast::Label, 
             addr: u16,
             external: bool
@@ -605,7 +606,10 @@ impl SymbolTable {
             match labels.entry(label.name.to_uppercase()) {
                 // Two labels with different addresses. Conflict.
                 Entry::Occupied(e) if e.get().addr != addr => {
-                    let span1 = e.get().span(e.key());
+                    // The uppercase name may differ in length from the name in the source.
+                    let span1 = spans.get(e.key())
+                        .cloned()
+                        .unwrap_or_else(|| e.get().span(e.key()));
                     let span2 = label.span();
                     Err(AsmErr::new(AsmErrKind::OverlappingLabels, [span1, span2]))
                 },
@@ -613,6 +617,7 @@ impl SymbolTable {
                 Entry::Occupied(_) => Ok(()),
                 // New label.
                 Entry::Vacant(e) => {
+                    spans.insert(e.key().clone(), label.span());
                     e.insert(SymbolData { addr, src_start: label.span().start, external });
                     Ok(())
                 }
@@ -621,6 +626,7 @@ impl SymbolTable {
 
         let mut cursor: Option<Cursor> = None;
         let mut label_map: HashMap<String, SymbolData> = HashMap::new();
+        let mut label_spans: HashMap<String, Span> = HashMap::new();
         let mut rel_map = HashMap::new();
         let mut debug_sym = src.map(|s| {
             let src_info = SourceInfo::new(s);
@@ -642,7 +648,7 @@ impl SymbolTable {
 
                 // Add labels
                 for label in &stmt.labels {
-                    add_label(&mut label_map, label, cur.lc, false)?;
+                    add_label(&mut label_map, &mut label_spans, label, cur.lc, false)?;
                 }
             }
 
@@ -658,7 +664,7 @@ impl SymbolTable {
                 },
                 StmtKind::Directive(Directive::External(label)) => {
                     // Arbitrarily chose 0 as a placeholder for externals
-                    add_label(&mut label_map, label, 0, true)?;
+                    add_label(&mut label_map, &mut label_spans, label, 0, true)?;
                 }
                 StmtKind::Directive(Directive::Fill(PCOffset::Label(label))) => {
                     // The .external declaration may come after this statement,
-- 
2.43.0

