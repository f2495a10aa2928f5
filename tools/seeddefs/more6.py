SEEDS = [
 dict(id="S33a", property="P33",
  edits=[("src/text.rs", "        if buff[pos] == delim {\n            left -= 1;\n            if left == 0 {\n                return pos + 1;", "        if buff[pos] == delim && buff.get(pos + 1) != Some(&delim) {\n            left -= 1;\n            if left == 0 {\n                return pos + 1;")],
  needs="a name with two delimiters in a row",
  breaks="the empty part between them is not counted",
  demo='''mkdir $D/d; printf 'a\\n' > $D/d/f
[ "$($CDX cgrep -l name.2 -p 1,glob,a $D/d//f)" = "$(printf '/f\\ta')" ]'''),
 dict(id="S34a", property="P34",
  edits=[("src/util.rs", "            Self::Bytes => write!(data, \"{}\", loc.bytes).unwrap(),", "            Self::Bytes => write!(data, \"{}\", loc.bytes as u16).unwrap(),")],
  needs="a line that starts more than 65535 bytes into its file",
  breaks="the byte offset wraps around",
  demo='''head -c 70000 /dev/zero | tr '\\0' x > $D/f; printf '\\nab\\n' >> $D/f
[ "$($CDX cgrep -l bytes -p 1,exact,ab $D/f)" = "$(printf '70001\\tab')" ]'''),
 dict(id="S34b", property="P34",
  edits=[("src/util.rs", "        self.curr += 1;\n        if self.curr >= self.lines.len() {\n            self.curr = 0;\n        }\n    }\n    /// get next line of text", "        self.curr += 1;\n        if self.curr >= self.lines.len() {\n            self.curr = 0;\n        }\n        if self.loc.line == 1 << 12 {\n            self.loc.bytes -= 1;\n        }\n    }\n    /// get next line of text")],
  needs="a file of more than 4095 lines",
  breaks="the byte offsets of the lines after the 4095th are one too low",
  demo='''seq 5000 > $D/f
want=$(seq 4999 | wc -c)
[ "$($CDX cgrep -l bytes -p 1,exact,5000 $D/f)" = "$(printf '%s\\t5000' $want)" ]'''),
]
