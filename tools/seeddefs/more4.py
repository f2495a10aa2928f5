SEEDS = [
 dict(id="S30a", property="P30",
  edits=[("src/util.rs", "        ioerr.kind() == io::ErrorKind::BrokenPipe\n", "        matches!(\n            ioerr.kind(),\n            io::ErrorKind::BrokenPipe | io::ErrorKind::StorageFull\n        )\n")],
  needs="a device that fills up while the output is written",
  breaks="a full disk is passed over like a reader that has gone away, with status 0",
  demo='''printf 'a\\tb\\n' > $D/f
! $CDX cat $D/f > /dev/full 2>/dev/null'''),
 dict(id="S24b", property="P24",
  edits=[("src/column.rs", "                    if !no_cols.contains(&x.num) {\n", "                    if !no_cols.contains(&x.num) || s.trans.is_some() {\n")],
  needs="a field list that selects and leaves out columns and also transforms them",
  breaks="the columns left out are written all the same",
  demo='''printf 'a\\tb\\tc\\n' > $D/f
[ "$($CDX cut -f '1-3+upper' $D/f)" = "$(printf 'A\\tB\\tC')" ] || exit 1
[ "$($CDX cut -f '1-3,~2+upper' $D/f)" = "$(printf 'A\\tC')" ]'''),
 dict(id="S12b", property="P12",
  edits=[("src/bin/cdx/cat_main.rs", "if skips.umatch(f.curr_nl()) {", "if skips.umatch(f.curr().line()) {")],
  needs="a --skip pattern that looks at the end of the line",
  breaks="the pattern sees the newline, lines that end as asked for are numbered",
  demo='''printf 'a\\nb\\n' > $D/f
[ "$($CDX cat -b -s suffix,a $D/f | head -1)" = "$(printf '\\ta')" ]'''),
 dict(id="S21b", property="P21",
  edits=[("src/expr.rs", "                x.val = t.get(c).to_f64_lossy();", "                if c < t.len() {\n                    x.val = t.get(c).to_f64_lossy();\n                }")],
  needs="a line that is too short for a column of the expression, after one that was not",
  breaks="the value of the line before is used again",
  demo='''printf '1\\t2\\n3\\n' > $D/f
[ "$($CDX cut -e s:c1+c2 $D/f | tail -1)" = 3 ]'''),
 dict(id="S20b", property="P20",
  edits=[("src/util.rs", "                        if first_line != self.head {\n", "                        if !first_line.eq_ignore_ascii_case(&self.head) {\n")],
  needs="two files whose headers differ only in case",
  breaks="they are taken to agree, and the names of the second are lost",
  demo='''printf ' CDX\\ta\\n1\\n' > $D/f
printf ' CDX\\tA\\n1\\n' > $D/g
! $CDX cat $D/f $D/g > /dev/null 2>&1'''),
]
