SEEDS = [
 dict(id="S31a", property="P31",
  edits=[("src/bin/cdx/args.rs", "                files.push(f.to_string());", "                if !files.iter().any(|x| x == f) {\n                    files.push(f.to_string());\n                }")],
  needs="the same file named twice",
  breaks="it is read only once",
  demo="""printf 'a\\n' > $D/f
[ "$($CDX cat $D/f $D/f | wc -l)" = 2 ]"""),
 dict(id="S31b", property="P31",
  edits=[("src/bin/cdx/globals.rs", "                self.text_out = Some(TextFileMode::new(&x.value)?);", "                let mode = TextFileMode::new(&x.value)?;\n                self.text_out.get_or_insert(mode);")],
  needs="an output mode given twice",
  breaks="the first counts",
  demo='''printf ' CDX\\ta\\tb\\n1\\t2\\n' > $D/f
[ "$($CDX cut -f 1,2 --text-out y: --text-out y, $D/f | tail -1)" = "1,2" ]'''),
 dict(id="S32a", property="P32",
  edits=[("src/column.rs", "                self.strings[j].clone_from(&x.value);\n                self.has_value[j] = true;", "                if !self.has_value[j] {\n                    self.strings[j].clone_from(&x.value);\n                }\n                self.has_value[j] = true;")],
  needs="two values of which the columns overlap",
  breaks="the first value is kept, not the last",
  demo='''printf 'a\\n' > $D/f
printf 'b\\tc\\nd\\te\\n' > $D/g
[ "$($CDX paste -e late --default=x --default=y,1 $D/f $D/g | tail -1)" = "$(printf 'y\\td\\te')" ]'''),
]
