SEEDS = [
 dict(id="S23a", property="P23",
  edits=[("src/bin/cdx/cat_main.rs", "            loop {\n                let n = f.read(&mut buffer[..])?;\n", "            let mut more = true;\n            while more {\n                let n = f.read(&mut buffer[..])?;\n"),
         ("src/bin/cdx/cat_main.rs", "                last_was_cr = buffer[n - 1] == b'\\n';\n            }", "                last_was_cr = buffer[n - 1] == b'\\n';\n                more = n == SIZE || !last_was_cr;\n            }")],
  needs="input that arrives in pieces, one of which ends with a line, or that is longer than one buffer",
  breaks="a short read is taken for the end of the file",
  demo='''[ "$( (printf 'a\\nb\\n'; sleep 1; printf 'c\\n') | $CDX cat - | wc -l)" = 3 ]'''),
]
