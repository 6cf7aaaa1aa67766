LI="src/line.rs"; CO="src/collector.rs"
V=[
 ("nofin","C12","bad",CO,"        lines.finalize(fun.address as u32, fun.size as u32);","        if fun.size > 0 { lines.finalize(fun.address as u32, fun.size as u32); }"),
 ("fin-early","C12","bad",CO,"        // compute line length\n        lines.finalize(fun.address as u32, fun.size as u32);\n","",CO,"        let mut lines = Lines::new();\n\n        if self","        let mut lines = Lines::new();\n        lines.finalize(fun.address as u32, fun.size as u32);\n\n        if self"),
 ("fin-args","C12","bad",CO,"lines.finalize(fun.address as u32, fun.size as u32);","lines.finalize(fun.entry_address().unwrap_or(0) as u32, fun.size as u32);",CO,"impl Collector {","trait E { fn entry_address(&self) -> Option<u64>; } impl E for Function<'_> { fn entry_address(&self) -> Option<u64> { self.lines.first().map(|l| l.address) } }\nimpl Collector {"),
 ("fin-len","C12","bad",CO,"lines.finalize(fun.address as u32, fun.size as u32);","lines.finalize(fun.address as u32, (fun.size as u32).max(1));"),
 ("fin-add","C12","bad",CO,"lines.finalize(fun.address as u32, fun.size as u32);","lines.finalize(fun.address as u32, fun.size as u32);\n        if lines.lines.is_empty() { lines.add_line(fun.address as u32, 0, 0); }"),
 ("mark-or","C12","bad",LI,"self.are_lines_sorted = self.are_lines_sorted && self.last_line_rva <= rva;","self.are_lines_sorted = self.last_line_rva <= rva;"),
 ("mark-lt","C12","bad",LI,"self.are_lines_sorted && self.last_line_rva <= rva;","self.are_lines_sorted && self.last_line_rva <= rva + 1;"),
 ("mark-max","C12","ok",LI,"self.are_lines_sorted && self.last_line_rva <= rva;","self.are_lines_sorted && self.last_line_rva < rva;"),
 ("mark-last","C12","bad",LI,"        self.last_line_rva = rva;\n","        if self.are_lines_sorted { self.last_line_rva = num; }\n"),
 ("sort-num","C12","bad",LI,"self.lines.sort_by_key(|x| x.rva);","self.lines.sort_by_key(|x| x.num);"),
 ("sort-rev","C12","bad",LI,"self.lines.sort_by_key(|x| x.rva);","self.lines.sort_by_key(|x| std::cmp::Reverse(x.rva));"),
 ("order-swap","C12","bad",LI,"        self.ensure_order();\n        self.compute_len(sym_rva, sym_len);","        self.compute_len(sym_rva, sym_len);\n        self.ensure_order();",LI,'''        assert!(
            self.are_lines_sorted,
            "Call ensure_order() before calling compute_len()"
        );
''',"",LI,"w[1].rva - w[0].rva","w[1].rva.saturating_sub(w[0].rva)"),
 ("sort-cond","C12","bad",LI,"        if !self.are_lines_sorted {","        if !self.are_lines_sorted && self.inlines.is_empty() {",LI,'''            self.are_lines_sorted = true;
        }
''','''        }
        self.are_lines_sorted = true;
'''),
 ("len-abs","C12","bad",LI,"w[1].rva - w[0].rva","w[0].rva - w[0].rva"),
 ("last-noend","C12","bad",LI,"last.len = function_end_rva - last.rva;","last.len = function_end_rva - sym_rva;"),
 ("last-noguard","C12","bad",LI,"            if last.rva < function_end_rva {\n                last.len = function_end_rva - last.rva;\n            }","            last.len = function_end_rva.wrapping_sub(last.rva);"),
 ("rng-nosort","C12","bad",LI,"            ranges.sort_by_key(|range| range.rva);\n",""),
 ("rng-after","C12","bad",LI,"            ranges.sort_by_key(|range| range.rva);\n            ranges.dedup_by","            ranges.dedup_by",LI,'''                    false
                }
            })
''','''                    false
                }
            });
            ranges.sort_by_key(|range| range.rva);
'''),
 ("rng-len","C12","bad",LI,"current.len = current.len.saturating_add(next.len);","current.len = current.len.max(next.len);"),
 ("rng-nomerge","C12","bad",LI,"                    current.len = current.len.saturating_add(next.len);\n",""),
 ("rng-le","C12","bad",LI,"if current.rva.checked_add(current.len) == Some(next.rva) {","if current.rva.checked_add(current.len) >= Some(next.rva) {"),
 ("rng-skip","C12","bad",LI,"for ranges in self.inlines.values_mut() {","for ranges in self.inlines.values_mut().filter(|r| r.len() > 2) {"),
 ("rng-swap","C12","bad",LI,"                    current.len = current.len.saturating_add(next.len);","                    next.len = current.len.saturating_add(next.len);"),
 ("rng-only","C12","bad",LI,"        // Sort the address ranges of each","        if self.lines.is_empty() { return; }\n        // Sort the address ranges of each"),
 # refactorings
 ("r-mark-if","C12","ok",LI,"        self.are_lines_sorted = self.are_lines_sorted && self.last_line_rva <= rva;\n","        if rva < self.last_line_rva {\n            self.are_lines_sorted = false;\n        }\n"),
 ("r-mark-and","C12","ok",LI,"self.are_lines_sorted = self.are_lines_sorted && self.last_line_rva <= rva;","self.are_lines_sorted &= self.last_line_rva <= rva;"),
 ("r-mark-first","C12","ok",LI,'''        self.lines.push(Line {
            rva,
            num,
            len: 0,
            file_id,
        });
''','',LI,'''        self.last_line_rva = rva;
''','''        self.last_line_rva = rva;
        let line = Line { rva, len: 0, num, file_id };
        self.lines.push(line);
'''),
 ("r-sort-by","C12","ok",LI,"self.lines.sort_by_key(|x| x.rva);","self.lines.sort_by(|x, y| x.rva.cmp(&y.rva));"),
 ("r-len-loop","C12","ok",LI,'''        let lens: Vec<u32> = self.lines.windows(2).map(|w| w[1].rva - w[0].rva).collect();

        // Cannot fail since self.lines isn't empty
        let (last, lines) = self.lines.split_last_mut().unwrap();

        lines
            .iter_mut()
            .zip(lens.iter())
            .for_each(|(line, len)| line.len = *len);
''','''        for i in 1..self.lines.len() {
            let next = self.lines[i].rva;
            let line = &mut self.lines[i - 1];
            line.len = next - line.rva;
        }

        // Cannot fail since self.lines isn't empty
        let last = self.lines.last_mut().unwrap();
'''),
 ("r-len-for","C12","ok",LI,'''        lines
            .iter_mut()
            .zip(lens.iter())
            .for_each(|(line, len)| line.len = *len);
''','''        for (line, len) in lines.iter_mut().zip(lens) {
            line.len = len;
        }
'''),
 ("r-last-match","C12","ok",LI,'''        if let Some(function_end_rva) = sym_rva.checked_add(sym_len) {
            if last.rva < function_end_rva {
                last.len = function_end_rva - last.rva;
            }
        }''','''        match sym_rva.checked_add(sym_len) {
            Some(end) if end > last.rva => last.len = end - last.rva,
            _ => {}
        }'''),
 ("r-last-sat","C12","ok",LI,'''            if last.rva < function_end_rva {
                last.len = function_end_rva - last.rva;
            }''','''            last.len = function_end_rva.saturating_sub(last.rva);'''),
 ("r-last-chk","C12","ok",LI,'''            if last.rva < function_end_rva {
                last.len = function_end_rva - last.rva;
            }''','''            if let Some(len) = function_end_rva.checked_sub(last.rva) {
                last.len = len;
            }'''),
 ("r-inline","C12","ok",LI,"        self.ensure_order();\n        self.compute_len(sym_rva, sym_len);","        self.ensure_order();\n        if !self.lines.is_empty() {\n            self.compute_len(sym_rva, sym_len);\n        }"),
 ("r-split","C12","ok",LI,'''        // Sort the address ranges of each inline site and merge adjacent ranges.
        for ranges in self.inlines.values_mut() {
            ranges.sort_by_key(|range| range.rva);
            ranges.dedup_by(|next, current| {
                if current.rva.checked_add(current.len) == Some(next.rva) {
                    current.len = current.len.saturating_add(next.len);
                    true
                } else {
                    false
                }
            })
        }
    }''','''        self.inlines.values_mut().for_each(Self::coalesce);
    }

    fn coalesce(ranges: &mut Vec<InlineAddressRange>) {
        ranges.sort_by_key(|range| range.rva);
        ranges.dedup_by(|next, current| {
            let adjacent = current.rva.checked_add(current.len) == Some(next.rva);
            if adjacent {
                current.len = current.len.saturating_add(next.len);
            }
            adjacent
        })
    }'''),
 ("r-coll","C12","ok",CO,'''        // compute line length
        lines.finalize(fun.address as u32, fun.size as u32);
''','''        let rva = fun.address as u32;
        let len = fun.size as u32;
        // compute line length
        lines.finalize(rva, len);
'''),
 ("r-coll2","C12","ok",CO,'''        let mut lines = Lines::new();

        if self.collect_inlines {
            Self::collect_function_with_inlines_recursive(
                fun,
                &mut lines,
                source,
                inline_origins,
                0,
            );
        } else {
            Self::collect_function_without_inlines(fun, &mut lines, source);
        }

        // compute line length
        lines.finalize(fun.address as u32, fun.size as u32);
''','''        let lines = self.lines_of(fun, source, inline_origins);
''',CO,"    pub fn collect_function<'a>(",'''    fn lines_of<'a>(&self, fun: &Function<'a>, source: &mut SourceFiles, inline_origins: &mut InlineOrigins<'a>) -> Lines {
        let mut lines = Lines::new();
        if self.collect_inlines {
            Self::collect_function_with_inlines_recursive(fun, &mut lines, source, inline_origins, 0);
        } else {
            Self::collect_function_without_inlines(fun, &mut lines, source);
        }
        lines.finalize(fun.address as u32, fun.size as u32);
        lines
    }

    pub fn collect_function<'a>('''),
]
