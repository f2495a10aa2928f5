SEEDS = [
 dict(id="S05a", property="P05",
  edits=[("src/comp.rs", "        log_b += 1;\n        b = &b[1..];\n        b = skip_comma(b);", "        log_b += 1;\n        b = &b[1..];")],
  needs="numeric ordering, a number with a thousands comma on the right, a number of another magnitude on the left",
  breaks="digits after a comma are not counted, 20 sorts after 1,000",
  demo='''printf '20\\n1,000\\n' > $D/f
$CDX sort -c -k 1,num $D/f 2>/dev/null'''),
 dict(id="S10a", property="P10",
  edits=[("src/agg.rs", "        if self.empty {\n            self.empty = false;\n            self.val.extend_from_slice(data);\n            return;\n        }\n        if self.comp.comp(&self.val, data) == Ordering::Greater {", "        if self.val.is_empty() {\n            self.empty = false;\n            self.val.extend_from_slice(data);\n            return;\n        }\n        if self.comp.comp(&self.val, data) == Ordering::Greater {")],
  needs="the min aggregator on a group with an empty value before a non-empty one",
  breaks="the empty text is forgotten, the least non-empty value is reported",
  demo='''printf ' CDX\\tk\\tv\\na\\t\\na\\tx\\n' > $D/f
[ "$($CDX uniq -k k --agg-post m,v,min $D/f | tail -1)" = "$(printf 'a\\t\\t')" ]'''),
 dict(id="S11a", property="P11",
  edits=[("src/column.rs", "                parts[1] = \"+1\";", "                parts[1] = \"+1\";\n                if parts[0].starts_with('+') && fieldnames.len() > 3 {\n                    parts[1] = \"+2\";\n                }")],
  needs="an open range that starts at a column counted from the end, in a file of four or more columns",
  breaks="the last column is left out",
  demo='''printf ' CDX\\ta\\tb\\tc\\td\\n1\\t2\\t3\\t4\\n' > $D/f
[ "$($CDX cut -f +3- $D/f | tail -1)" = "$(printf '2\\t3\\t4')" ]'''),
 dict(id="S14a", property="P14",
  edits=[("src/matcher.rs", "            ExactlyNo(t) => t.at_most_mid(no),", "            ExactlyNo(t) => t.at_least_mid(no),")],
  needs="a column set under exactlyno,N with more than N misses",
  breaks="the line is accepted as soon as N misses were seen",
  demo='''printf 'x\\ty\\ty\\n' > $D/f
[ -z "$($CDX cgrep -p '[exactlyno,1,1-3],exact,x' $D/f)" ]'''),
 dict(id="S15a", property="P15",
  edits=[("src/matcher.rs", "            buff = buff.trimw();\n        }\n        self.negate ^ ((self.empty && buff.is_empty()) || self.matcher.umatch(buff))", "            buff = buff.trimw_start();\n        }\n        self.negate ^ ((self.empty && buff.is_empty()) || self.matcher.umatch(buff))")],
  needs="the trim modifier on a text with blanks at its end, in bytes",
  breaks="only the blanks at the start are removed",
  demo='''printf 'abc \\n' > $D/f
[ "$($CDX cgrep -p 1,exact.trim,abc $D/f | wc -l)" = 1 ]'''),
 dict(id="S18a", property="P18",
  edits=[("src/sampler.rs", "            let pos = ((i as f64) * ratio) as usize;", "            let pos = (((i as f64) * ratio) as usize).max(i).min(new_end);")],
  needs="--sample N with N of 4 or more and more than twice as many lines",
  breaks="the sample is crowded at the beginning",
  demo='''seq 1 1000 > $D/f
$CDX sample -s 6 $D/f > $D/o
awk 'NR > 1 && $1 - p > 400 { bad = 1 } { p = $1 } END { exit bad }' $D/o'''),
 dict(id="S20a", property="P20",
  edits=[("src/util.rs", "                            return err!(\"CDX Header found in {}, but first file had none.\", fname);\n                        }\n                        if first_line != self.head {", "                            return err!(\"CDX Header found in {}, but first file had none.\", fname);\n                        }\n                        if first_line.len() != self.head.len() {")],
  needs="two files whose different headers are equally long",
  breaks="files with different headers are combined",
  demo='''printf ' CDX\\ta\\n1\\n' > $D/f; printf ' CDX\\tb\\n3\\n' > $D/g
! $CDX cat $D/f $D/g > /dev/null 2>&1'''),
 dict(id="S21a", property="P21",
  edits=[("src/shunting_yard.rs", "                        ((i, Right), (j, _)) if i < j => {", "                        ((i, Right), (j, _)) if i < j || (i == j && output.len() > 3) => {")],
  needs="powers in a row after at least two other operands",
  breaks="the powers group to the left",
  demo='''[ "$(echo '1+2+2^3^2' | $CDX calc -)" = "$(echo '3+2^(3^2)' | $CDX calc -)" ]'''),
 dict(id="S22a", property="P22",
  edits=[("src/util.rs", "    for ch in buf {\n        if *ch == tab || *ch == eol || *ch == b'\\\\' {", "    for ch in buf {\n        if *ch == tab || *ch == b'\\n' || *ch == eol && eol < b' ' || *ch == b'\\\\' {")],
  needs="backslash output with a printable line end, and a value holding that character",
  breaks="the line end within the value is not escaped and splits the line",
  demo='''printf 'a;b\\tc\\n' > $D/f
[ "$($CDX cut -f 1 --text-out 'ntb_;' $D/f)" = 'a\\;b;' ]'''),
 dict(id="S24a", property="P24",
  edits=[("src/trans.rs", "                x.trans(&self.tmp2, cont, &mut self.tmp1)?;\n                use_1 = true;", "                x.trans(&self.tmp2, cont, &mut self.tmp1)?;")],
  needs="three transforms in a row",
  breaks="the third transform has no effect",
  demo='''printf ' ab  C \\n' > $D/f
[ "$($CDX cut -f 1+normspace+lower+to_base64 $D/f)" = "$(printf 'ab c' | base64)" ]'''),
 dict(id="S25a", property="P25",
  edits=[("src/num.rs", "                } else if num >= (1.1 * curr_exp) {", "                } else if num >= (1.2 * curr_exp) {")],
  needs="power2 or power10 output of a number just under 1.2 units",
  breaks="it is written as one unit, off by more than a tenth",
  demo='''printf ' CDX\\ta\\n' > $D/f; head -c 1190 /dev/zero | tr '\\0' 'x' > $D/g; echo >> $D/g
[ "$($CDX wc -b --with-header no --total no --file no -F power10 $D/g)" = 1.2k ]'''),
 dict(id="S26a", property="P26",
  edits=[("src/trans.rs", "            if x.new_name == m.new_name {\n                *x = m;", "            if x.old_name == m.old_name {\n                *x = m;")],
  needs="a second alias for a transform that has one already",
  breaks="the first alias is lost",
  demo='''mkdir -p $D/c/src; cat > $D/c/Cargo.toml <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cdx = { path = "/repo" }
[workspace]
X
cp /repo/Cargo.lock $D/c/
cat > $D/c/src/main.rs <<'X'
fn main() {
    cdx::trans::TransMaker::add_alias("lower", "small").unwrap();
    cdx::trans::TransMaker::make("small").unwrap();
    cdx::trans::TransMaker::make("lowercase").unwrap();
}
X
cd $D/c && CARGO_TARGET_DIR=$D/t cargo run --offline -q 2>/dev/null'''),
]
