SEEDS = [
 dict(id="S07a", property="P07",
  edits=[("src/join.rs", "if (f == 0) || !used.contains(&x) {", "if (f == 0) || used.first() != Some(&x) {")],
  needs="a join on two or more keys with the default output columns",
  breaks="only the first key column of the second file is left out of the output, the other keys appear twice",
  demo='''printf 'a\\tb\\t1\\nc\\td\\t2\\n' > $D/f; printf 'a\\tb\\t7\\nc\\td\\t8\\n' > $D/g
[ "$($CDX join -k 1 -k 2 $D/f $D/g)" = "$(printf 'a\\tb\\t1\\t7\\nc\\td\\t2\\t8')" ]'''),
 dict(id="S08a", property="P08",
  edits=[("src/binsearch.rs", "    if start <= 1 {\n        return 0;", "    if start <= 2 {\n        return 0;")],
  needs="context before a match whose previous two lines are empty lines at the very start of the data",
  breaks="one line of context too many",
  demo='''printf '\\n\\nb\\nc\\n' > $D/f
[ "$($CDX binsearch -C 1,0 b $D/f | wc -l)" = 2 ]'''),
 dict(id="S09a", property="P09",
  edits=[("src/bin/cdx/uniq_main.rs", "if self.comp.comp_cols(tmp, new) == Ordering::Less {", "if self.comp.comp_cols(tmp, new) != Ordering::Greater {")],
  needs="--which max where several lines of a run share the greatest value",
  breaks="the last of the equally great lines is written, not the first",
  demo='''printf 'a\\t5\\tx\\na\\t9\\ty\\na\\t9\\tz\\n' > $D/f
[ "$($CDX uniq -k 1 -w max,2 $D/f)" = "$(printf 'a\\t9\\ty')" ]'''),
 dict(id="S12a", property="P12",
  edits=[("src/bin/cdx/cat_main.rs", "                w.write_all(b\"\\n\")?;\n                last_was_cr = true;", "                w.write_all(b\"\\n\")?;\n                last_was_cr = !first_line.starts_with(b\" CDX\");")],
  needs="a file with a header and no final newline followed by a file that has only the header",
  breaks="the newline is supplied twice",
  demo='''printf ' CDX\\ta\\nx' > $D/f; printf ' CDX\\ta\\n' > $D/g
[ "$($CDX cat $D/f $D/g | wc -l)" = 2 ]'''),
 dict(id="S13a", property="P13",
  edits=[("src/bin/cdx/paste_main.rs", "end_mode == EndMode::Exact && num_dead != 0 && num_live != 0", "end_mode == EndMode::Exact && num_dead == 1 && num_live != 0")],
  needs="three or more files, two of which end together before another",
  breaks="Exact does not notice that the files have different lengths",
  demo='''printf '1\\n' > $D/f; printf '2\\n' > $D/g; printf '3\\n4\\n' > $D/h
! $CDX paste -e exact $D/f $D/g $D/h > /dev/null 2>&1'''),
 dict(id="S16a", property="P16",
  edits=[("src/bin/cdx/verify_main.rs", "        if fails > 0 {\n            return", "        if fails > 0 && max_fails > 0 {\n            return")],
  needs="--report 0 on a bad file",
  breaks="asking for no reports makes every file pass",
  demo='''printf 'b\\na\\n' > $D/f
! $CDX verify -s --report 0 $D/f 2>/dev/null'''),
 dict(id="S17a", property="P17",
  edits=[("src/bin/cdx/wc_main.rs", "aggs.iter().position(|agg| agg.name == *x)", "aggs.iter().position(|agg| agg.name.eq_ignore_ascii_case(x))")],
  needs="two columns whose names differ only in case",
  breaks="their counts are added up under the first name",
  demo='''printf ' CDX\\tab\\tAB\\nxx\\tyyy\\n' > $D/f
[ "$($CDX wc -C --with-header no --total no --file yes -F plain $D/f)" = "$(printf 'ab\\t2\\nAB\\t3')" ]'''),
 dict(id="S19a", property="P19",
  edits=[("src/transpose.rs", "    for i in 0..f.header().len() {", "    for i in 0..data.first().map_or(f.header().len(), |x: &TextLine| x.len()) {")],
  needs="a first data line with fewer columns than the header",
  breaks="the columns missing from the first line are lost for all lines",
  demo='''printf ' CDX\\ta\\tb\\n1\\n2\\t3\\n' > $D/f
[ "$($CDX transpose $D/f | wc -l)" = 2 ]'''),
 dict(id="S27a", property="P27",
  edits=[("src/tabs.rs", "    let target = screen.width.saturating_sub(sizes.len());\n    while total > target {\n        dec_max(&mut sizes);\n        total = sizes.iter().sum();\n    }\n\n", "    let target = screen.width.saturating_sub(sizes.len());\n    while total > target {\n        dec_max(&mut sizes);\n        total -= sizes.len();\n    }\n\n") ],
  needs="a file wider than the screen with several columns",
  breaks="columns are not narrowed enough, lines overrun the screen",
  demo='''printf '%080d\\t%080d\\n' 1 2 > $D/f
[ "$($CDX tabs $D/f 2>/dev/null | head -1 | tr -d '\\n' | wc -c)" -le 100 ]'''),
 dict(id="S28a", property="P28",
  edits=[("src/textgen.rs", "\"{sign}{}.{:0post$}\",", "\"{sign}{}.{:post$}\",")],
  needs="a decimal column with two or more decimals and a fraction that starts with zero",
  breaks="the decimals are padded with blanks instead of zeros",
  demo='''$CDX filegen -n 500 -c decimal,N.NNN > $D/o 2>/dev/null || exit 1
! grep -q ' ' $D/o'''),
 dict(id="S29a", property="P29",
  edits=[("src/tooltest.rs", "                if code != self.code {", "                if (code != 0) != (self.code != 0) {")],
  needs="a command that fails with another status than the expected non-zero one",
  breaks="any failure passes where a particular status is expected",
  demo='''printf '#command sh $TMP/p\\n#infile p\\nexit 3\\n#status 4\\n' > $D/a.test
! $CDX tooltest --bin /usr/bin $D/a.test >/dev/null 2>&1'''),
]
