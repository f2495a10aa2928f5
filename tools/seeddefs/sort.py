LIBDEMO = r'''
mkdir -p "$D/c/src"
cp "$HERE/main.rs" "$D/c/src/main.rs"
cat > "$D/c/Cargo.toml" <<'EOF'
[package]
name = "seed_demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
cdx = { path = "/repo" }
EOF
cp /repo/Cargo.lock "$D/c/Cargo.lock"
. /opt/vp/env.sh
cd "$D/c" && CARGO_TARGET_DIR=/repo/target cargo build --offline -q 2>"$D/log" || { tail -5 "$D/log"; exit 3; }
TMPDIR="$D" /repo/target/debug/seed_demo
'''
SEEDS = [
 dict(id="S01a", property="P01",
  edits=[("src/comp.rs", "        if val.len() < 8 {", "")] if False else
        [("src/comp.rs", "        for x in self.c.iter_mut().skip(1) {\n            let ret = x.comp_lines(left.get(base), right.get(base));",
          "        for x in self.c.iter_mut().skip(if left.complete() && right.complete() { 2 } else { 1 }) {\n            let ret = x.comp_lines(left.get(base), right.get(base));")],
  needs="two sort keys where the first keys tie and are short enough to be decided by the cache alone",
  breaks="the second sort key is ignored when the first keys are equal and short",
  demo='''printf 'a\\t2\\na\\t1\\n' > $D/f
[ "$($CDX sort -k 1 -k 2 $D/f)" = "$(printf 'a\\t1\\na\\t2')" ]'''),
 dict(id="S01b", property="P01",
  edits=[("src/sort.rs", "            self.ptrs\n                .sort_by(|a, b| self.cmp.comp_items(&self.data, a, b));",
          "            self.ptrs\n                .sort_unstable_by(|a, b| self.cmp.comp_items(&self.data, a, b));")],
  needs="more than twenty lines with equal keys, so that the unstable sort really reorders",
  breaks="lines with equal keys no longer keep their input order in large inputs",
  demo='''for i in $(seq 100 199); do printf '%d\\t%d\\n' $((i % 3)) $i; done > $D/f
$CDX sort -k 1 $D/f > $D/o || exit 1
LC_ALL=C /usr/bin/sort -s -t"$(printf '\\t')" -k1,1 $D/f | cmp - $D/o'''),
 dict(id="S02a", property="P02",
  edits=[("src/comp.rs", "        if left.complete() && right.complete() {\n            left.cache == right.cache\n        } else {",
          "        if left.complete() || right.complete() {\n            left.cache == right.cache\n        } else {")],
  needs="--unique with one key of exactly 8 bytes and another that extends it",
  breaks="sort -u drops a line whose key merely starts with the 8 byte key of another line",
  demo='''printf 'abcdefgh\\nabcdefghi\\nabcdefghij\\n' > $D/f
[ "$($CDX sort -u -k 1 $D/f | wc -l)" = 3 ]'''),
 dict(id="S03a", property="P03",
  edits=[("src/sort.rs", "        for i in 0..nsize {\n            self.data[i] = self.data[self.data_calc + i];\n        }\n        self.data_used = nsize;",
          "        for i in 0..nsize {\n            self.data[i] = self.data[self.data_calc + i];\n        }\n        self.data_used = if nsize > 4096 { 0 } else { nsize };")],
  needs="a spill while an incomplete line longer than 4 kB is at the end of the buffer",
  breaks="the part of a long line already read is lost when a run is spilled",
  files={"main.rs": '''use cdx::prelude::*;
fn main() {
    let d = std::env::temp_dir();
    let f = d.join("in.txt");
    let mut t = String::new();
    for i in 0..40 { t.push_str(&format!("{}{}\\n", 100 - i, "x".repeat(5000))); }
    std::fs::write(&f, &t).unwrap();
    let mut want: Vec<&str> = t.lines().collect();
    want.sort();
    let mut c = LineCompList::new();
    c.add("").unwrap();
    let mut s = cdx::sort::Sorter::new(c, 80_000, false);
    let mut o: Vec<u8> = Vec::new();
    s.add_file(f.to_str().unwrap(), &mut o).unwrap();
    s.finalize(&mut o).unwrap();
    let got = String::from_utf8(o).unwrap();
    let got: Vec<&str> = got.lines().collect();
    if got != want { println!("wrong: {} lines", got.len()); std::process::exit(1); }
}
'''}, demo=LIBDEMO),
 dict(id="S04a", property="P04",
  edits=[("src/sort.rs", "                    if c == Ordering::Greater {\n                        let tmp = n.right_data;", "                    if c != Ordering::Less {\n                        let tmp = n.right_data;")],
  needs="the alternate merge algorithm with equal keys in different files",
  breaks="equal lines come out in reverse file order with the alternate merge",
  demo='''printf 'a\\t1\\nb\\t1\\n' > $D/f; printf 'a\\t2\\nb\\t2\\n' > $D/g
[ "$($CDX sort -m -A -k 1 $D/f $D/g)" = "$(printf 'a\\t1\\na\\t2\\nb\\t1\\nb\\t2')" ]'''),
 dict(id="S04b", property="P04",
  edits=[("src/sort.rs", "                    if !eq {\n                        let mcm = mc.borrow();\n                        w.write_all(mcm.open[x].curr_line().line())?;\n                        prev.assign(mcm.open[x].curr_line());\n                    }",
          "                    if !eq || (x == first && heap.is_empty()) {\n                        let mcm = mc.borrow();\n                        w.write_all(mcm.open[x].curr_line().line())?;\n                        prev.assign(mcm.open[x].curr_line());\n                    }")],
  needs="sort -m -u where only the file that held the smallest line is left and still repeats a key",
  breaks="duplicate keys are written once all other files are exhausted",
  demo='''printf 'a\\nc\\nc\\n' > $D/f; printf 'b\\n' > $D/g
[ "$($CDX sort -m -u -k 1 $D/f $D/g)" = "$(printf 'a\\nb\\nc')" ]'''),
 dict(id="S06a", property="P06",
  edits=[("src/bin/cdx/sort_main.rs", "                    if reported >= num_checks {\n                        break;\n                    }", "                    if reported >= num_checks {\n                        break;\n                    }\n                    f.getline()?;")],
  needs="more than one report requested and two faults in consecutive lines",
  breaks="the line after a reported fault is skipped, so a fault right behind it is missed",
  demo='''printf 'c\\nb\\na\\n' > $D/f
[ "$($CDX sort -C 9 -k 1 $D/f 2>&1 | grep -c 'out of order')" = 2 ]'''),
]
