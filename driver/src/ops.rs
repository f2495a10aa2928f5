use crate::{Bytes, OpResult};
use cdx::comp::{CompMaker, Item, LineCompList};
use cdx::matcher::{Combiner, MatchMaker};
use cdx::num::{Junk, JunkType, JunkVal};
use cdx::prelude::*;
use cdx::sort::{SortConfig, Sorter};
use std::cmp::Ordering;
use std::sync::atomic::AtomicUsize;

fn s(x: &[u8]) -> &str {
    std::str::from_utf8(x).unwrap()
}
fn num(x: &[u8]) -> usize {
    s(x).parse().unwrap()
}
fn e<T>(r: cdx::util::Result<T>) -> std::result::Result<T, String> {
    r.map_err(|x| format!("{}", x))
}
static SEQ: AtomicUsize = AtomicUsize::new(0);

/// private scratch directory, removed on drop
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Self {
        let n = SEQ.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let d = std::env::temp_dir().join(format!("cdxdrv_{}_{}", std::process::id(), n));
        std::fs::create_dir_all(&d).unwrap();
        Self(d)
    }
    fn files(&self, v: &[Bytes]) -> Vec<String> {
        let mut ret = Vec::new();
        for (i, x) in v.iter().enumerate() {
            let p = self.0.join(format!("in{}.txt", i));
            std::fs::write(&p, x).unwrap();
            ret.push(p.to_str().unwrap().to_string());
        }
        ret
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn keys(x: &[u8]) -> std::result::Result<LineCompList, String> {
    let mut c = LineCompList::new();
    for k in s(x).split('\n') {
        e(c.add(k))?;
    }
    Ok(c)
}

fn ord(o: Ordering) -> u8 {
    match o {
        Ordering::Less => b'<',
        Ordering::Equal => b'=',
        Ordering::Greater => b'>',
    }
}
fn tf(x: bool) -> u8 {
    if x {
        b'='
    } else {
        b'#'
    }
}

// sorter max_alloc uniq keys files... -> [sorted bytes]
fn op_sorter(a: &[Bytes]) -> OpResult {
    let d = Scratch::new();
    let cmp = keys(&a[2])?;
    let files = d.files(&a[3..]);
    let mut out: Vec<u8> = Vec::new();
    let mut st = Sorter::new(cmp, num(&a[0]), a[1] == b"1");
    for f in &files {
        e(st.add_file(f, &mut out))?;
    }
    e(st.finalize(&mut out))?;
    Ok(vec![out])
}

#[repr(C)]
struct Limit {
    soft: u64,
    hard: u64,
}
extern "C" {
    fn setrlimit(what: i32, to: *const Limit) -> i32;
    fn signal(sig: i32, to: usize) -> usize;
}

// sorterlim limit max_alloc ... -> as sorter, while no file can grow past the limit; one request at a time
fn op_sorterlim(a: &[Bytes]) -> OpResult {
    let all = u64::MAX;
    unsafe {
        setrlimit(1, &Limit { soft: all, hard: all });
    }
    let d = Scratch::new();
    let cmp = keys(&a[3])?;
    let files = d.files(&a[4..]);
    let mut out: Vec<u8> = Vec::new();
    let mut st = Sorter::new(cmp, num(&a[1]), a[2] == b"1");
    unsafe {
        signal(25, 1); // SIGXFSZ is ignored
        setrlimit(1, &Limit { soft: num(&a[0]) as u64, hard: all });
    }
    let mut run = || -> cdx::util::Result<()> {
        for f in &files {
            st.add_file(f, &mut out)?;
        }
        st.finalize(&mut out)
    };
    let r = run();
    unsafe {
        setrlimit(1, &Limit { soft: all, hard: all });
    }
    e(r)?;
    Ok(vec![out])
}

// merge alt uniq keys files... -> [merged bytes]
fn op_merge(a: &[Bytes]) -> OpResult {
    let d = Scratch::new();
    let mut cmp = keys(&a[2])?;
    let files = d.files(&a[3..]);
    let mut out: Vec<u8> = Vec::new();
    let c = SortConfig { alt_merge: a[0] == b"1", ..SortConfig::default() };
    e(c.merge(&files, &mut cmp, &mut out, a[1] == b"1"))?;
    Ok(vec![out])
}

pub fn text_line(line: &[u8]) -> TextLine {
    let mut t = TextLine::new();
    t.raw().extend_from_slice(line);
    t.split(&TextFileMode::default());
    t
}

// cmp keys names left right -> [one byte per representation]
//   comp_items equal_items comp_cols equal_cols comp_lines equal_lines
//   then, if a fifth argument is given, it is the preset value: comp_self_cols(right) equal_self_cols comp_self_line equal_self_line
fn op_cmp(a: &[Bytes]) -> OpResult {
    let mut c = keys(&a[0])?;
    let names: Vec<&str> = s(&a[1]).split('\t').collect();
    e(c.lookup(&names))?;
    let (l, r) = (&a[2], &a[3]);
    let mut base = l.clone();
    base.extend_from_slice(r);
    let mut li = Item::new();
    li.offset = 0;
    li.size_plus = l.len() as u32;
    let mut ri = Item::new();
    ri.offset = l.len() as u32;
    ri.size_plus = r.len() as u32;
    c.fill_cache_line(&mut li, &base);
    c.fill_cache_line(&mut ri, &base);
    let lt = text_line(l);
    let rt = text_line(r);
    let (mut lj, mut rj) = (li, ri);
    lj.cache = 0;
    rj.cache = 0;
    lj.clear_complete();
    rj.clear_complete();
    c.fill_cache_cols(&mut lj, &lt);
    c.fill_cache_cols(&mut rj, &rt);
    let mut o = vec![
        ord(c.comp_items(&base, &li, &ri)),
        tf(c.equal_items(&base, &li, &ri)),
        ord(c.comp_items(&base, &lj, &rj)),
        tf(c.equal_items(&base, &lj, &rj)),
        ord(c.comp_cols(&lt, &rt)),
        tf(c.equal_cols(&lt, &rt)),
        ord(c.comp_lines(l, r)),
        tf(c.equal_lines(l, r)),
    ];
    if a.len() > 4 {
        e(c.set(&a[4], b'\t'))?;
        o.push(ord(c.comp_self_cols(&rt)));
        o.push(tf(c.equal_self_cols(&rt)));
        o.push(ord(c.comp_self_line(r)));
        o.push(tf(c.equal_self_line(r)));
    }
    Ok(vec![o])
}

// comp spec left right -> comp equal comp_self equal_self, of a Comp, of a list of it,
//   of a list of it and then plain; then compare2 and comp of the bare comparator
fn op_comp(a: &[Bytes]) -> OpResult {
    let spec = s(&a[0]);
    let (l, r) = (&a[1], &a[2]);
    let mut c = e(CompMaker::make_comp(spec))?;
    let mut o = vec![ord(c.comp(l, r)), tf(c.equal(l, r))];
    c.set(l);
    o.push(ord(c.comp_self(r)));
    o.push(tf(c.equal_self(r)));
    for two in [false, true] {
        let mut c = cdx::comp::CompList::new();
        if !c.is_empty() {
            return Err("a new list is not empty".to_string());
        }
        e(c.add(spec))?;
        let mut v = l.clone();
        if two {
            c.push(e(CompMaker::make_comp("plain"))?);
            v.push(b'\n');
            v.extend_from_slice(l);
        }
        o.push(ord(c.comp(l, r)));
        o.push(tf(c.equal(l, r)));
        e(c.set(&v, b'\n'))?;
        o.push(ord(c.comp_self(r)));
        o.push(tf(c.equal_self(r)));
        if two && c.set(l, b'\n').is_ok() {
            return Err("one value for two comparisons".to_string());
        }
    }
    let b = e(CompMaker::make_comp_box(spec))?;
    let mut base = l.clone();
    base.extend_from_slice(r);
    let mut li = Item::new();
    li.size_plus = l.len() as u32;
    let mut ri = Item::new();
    ri.offset = l.len() as u32;
    ri.size_plus = r.len() as u32;
    b.fill_cache(&mut li, l);
    b.fill_cache(&mut ri, r);
    o.push(ord(li.compare2(&ri, &base, &*b)));
    o.push(ord(b.comp(l, r)));
    Ok(vec![o])
}

// pieces text num delim -> tail tail_path head head_path, of bytes and, if it is UTF-8, of text
fn op_pieces(a: &[Bytes]) -> OpResult {
    let (n, d) = (num(&a[1]), a[2][0]);
    let b: &[u8] = &a[0];
    let mut o: Vec<Bytes> = vec![b.tail_u8(n, d).into(), b.tail_path_u8(n, d).into(), b.head(n, d).into(), b.head_path(n, d).into()];
    if let Ok(t) = std::str::from_utf8(b) {
        let d2 = d as char;
        o.extend([t.tail_u8(n, d), t.tail_path_u8(n, d), t.head(n, d2), t.head_path(n, d2)].iter().map(|x| x.as_bytes().to_vec()));
    }
    Ok(o)
}

// bound keys names data pattern -> lower_bound equal_range
fn op_bound(a: &[Bytes]) -> OpResult {
    let mut c = keys(&a[0])?;
    let names: Vec<&str> = s(&a[1]).split('\t').collect();
    e(c.lookup(&names))?;
    e(c.set(&a[3], b'\t'))?;
    let l = cdx::binsearch::lower_bound(&a[2], &mut c).to_vec();
    let r = cdx::binsearch::equal_range(&a[2], &mut c).to_vec();
    Ok(vec![l, r])
}

// reader textmode lookback split how (file reads)* -> per step: header line, "has_header is_empty is_done line_number", location, names, line, columns, the lines before
fn op_reader(a: &[Bytes]) -> OpResult {
    let mode = e(cdx::util::TextFileMode::new(s(&a[0])))?;
    let keep = num(&a[1]);
    let split = a[2] == b"1";
    let mut o: Vec<Bytes> = Vec::new();
    let mut rd = if a[3] == b"open" { e(cdx::util::Reader::new_open_with(s(&a[4]), keep, &mode))? } else { cdx::util::Reader::new_with(keep, &mode) };
    rd.do_split(split);
    let mut loc = cdx::util::FileLocList::new();
    e(loc.push("bytes,line,name"))?;
    for (i, x) in a[4..].chunks(2).enumerate() {
        if i > 0 || a[3] != b"open" {
            e(rd.open(s(&x[0])))?;
        }
        let mut left = num(&x[1]);
        loop {
            let mut h: Vec<u8> = Vec::new();
            e(rd.write_header(&mut h))?;
            o.push(if rd.has_header() { h } else { Vec::new() });
            o.push(format!("{} {} {} {}", rd.has_header(), rd.is_empty(), rd.is_done(), rd.line_number()).into_bytes());
            let mut l: Vec<u8> = Vec::new();
            e(loc.write_data(&mut l, b'|', rd.loc()))?;
            o.push(l);
            o.push(rd.names().join("|").into_bytes());
            let mut w: Vec<u8> = Vec::new();
            e(rd.write_curr(&mut w))?;
            o.push(w);
            o.push(if rd.is_done() || !split { Vec::new() } else { rd.curr().vec().join(&0u8) });
            o.push(rd.curr_nl().to_vec());
            for k in 1..=keep {
                let mut w: Vec<u8> = Vec::new();
                e(rd.write_prev(&mut w, k))?;
                o.push(w);
                o.push(rd.prev_nl(k).to_vec());
                o.push(if split && rd.line_number() > k { rd.prev_line(k).vec().join(&0u8) } else { Vec::new() });
            }
            if left == 0 || rd.is_done() {
                break;
            }
            left -= 1;
            e(rd.getline())?;
        }
    }
    Ok(o)
}

// lineagg firstfile specs groupsizes last -> the table an aggregator list makes of the groups of the file
//   specs are LineAgger specs, "replace,Col,Agg", "prefix,Name,Col,Agg" or "append,Name,Col,Agg"
fn op_lineagg(a: &[Bytes]) -> OpResult {
    let d = Scratch::new();
    let f = d.files(&a[0..1]);
    let mut agg = cdx::agg::LineAggList::new();
    for x in s(&a[1]).split('\n') {
        e(agg.push(e(cdx::agg::LineAgger::new(x))?))?;
    }
    let text = TextFileMode::default();
    let mut r = cdx::util::Reader::new(&text);
    e(r.open(&f[0]))?;
    e(agg.lookup(&r.names()))?;
    let mut w = cdx::column::Writer::new(text);
    agg.fill(&mut w, r.header());
    e(w.lookup(&r.names()))?;
    let mut out: Vec<u8> = Vec::new();
    if r.has_header() {
        let mut ch = cdx::column::ColumnHeader::new();
        e(w.add_names(&mut ch, r.header()))?;
        out.extend_from_slice(ch.get_head(&text).as_bytes());
    }
    r.do_split(true);
    let last = a[3] == b"1";
    for n in s(&a[2]).split(',') {
        let n: usize = n.parse().unwrap();
        agg.reset();
        let mut keep = r.curr_line().clone();
        for i in 0..n {
            if i == 0 || last {
                keep.assign(r.curr_line());
            }
            agg.add(r.curr_line());
            e(r.getline())?;
        }
        e(w.write(&mut out, &keep))?;
    }
    Ok(vec![out])
}

pub fn dispatch(r: &[Bytes]) -> OpResult {
    let a = &r[1..];
    match s(&r[0]) {
        "sorter" => op_sorter(a),
        "sorterlim" => op_sorterlim(a),
        "merge" => op_merge(a),
        "cmp" => op_cmp(a),
        "comp" => op_comp(a),
        "pieces" => op_pieces(a),
        "bound" => op_bound(a),
        "reader" => op_reader(a),
        "lineagg" => op_lineagg(a),
        "match" => op_match(a),
        "num" => op_num(a),
        "tabs" => op_tabs(a),
        "numfmt" => op_numfmt(a),
        "headcheck" => op_headcheck(a),
        "colset" => op_colset(a),
        "scoped" => op_scoped(a),
        x => Err(format!("unknown op {}", x)),
    }
}

fn got(r: cdx::util::Result<()>, v: Vec<u8>) -> Bytes {
    match r {
        Ok(()) => v,
        Err(_) => b"ERR".to_vec(),
    }
}

fn other<'a>(names: &[&'a str]) -> Vec<&'a str> {
    let mut v = names.to_vec();
    v.push("another");
    v.reverse();
    v.push("andlast");
    v
}

// colset spec names(tab separated) line(values, tab separated) -> what each way of picking columns gives
fn op_colset(a: &[Bytes]) -> OpResult {
    let names: Vec<&str> = s(&a[1]).split('\t').collect();
    let vals: Vec<&str> = if a[2].is_empty() { Vec::new() } else { s(&a[2]).split('\t').collect() };
    let mut c = cdx::column::ColumnSet::new();
    let mut o = Vec::new();
    let mut v: Vec<&str> = Vec::new();
    e(c.add_yes(s(&a[0])))?;
    o.push(got(c.select(&vals, &mut v), b"none".to_vec()));
    // what another file's names gave does not matter
    let _ = c.lookup(&other(&names));
    e(c.lookup(&names))?;
    let join = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",").into_bytes();
    o.push(join(&c.get_cols_num()));
    o.push(join(&e(cdx::column::ColumnSet::lookup_cols(s(&a[0]), &names))?));
    o.push(match cdx::column::ColumnSet::lookup1(s(&a[0]), &names) {
        Ok(x) => x.to_string().into_bytes(),
        Err(_) => b"ERR".to_vec(),
    });
    let mut v: Vec<&str> = vec!["left over"];
    let r = c.select(&vals, &mut v);
    o.push(got(r, v.join("\t").into_bytes()));
    let mut v: Vec<&str> = vec!["left over"];
    let r = c.select_sloppy(&vals, &"?", &mut v);
    o.push(got(r, v.join("\t").into_bytes()));
    let mut w = Vec::new();
    let r = c.write(&mut w, &vals, "::");
    o.push(got(r, w));
    let mut line = a[2].clone();
    line.push(b'\n');
    let t = text_line(&line);
    let mut w = Vec::new();
    let r = c.write2(&mut w, &t, b';');
    o.push(got(r, w));
    let mut w = Vec::new();
    let r = c.write3(&mut w, &t, &TextFileMode::default());
    o.push(got(r, w));
    let mut st = cdx::util::StringLine::new();
    st.line = String::from_utf8(line).unwrap();
    st.split(b'\t');
    let mut w = Vec::new();
    let r = c.write3s(&mut w, &st, b'|');
    o.push(got(r, w));
    let mut w = Vec::new();
    let r = c.write_sloppy(&vals, "?", &mut w);
    o.push(got(r, w));
    Ok(o)
}

// scoped default names(tab separated) (how value cols)... -> per column value, has a value, int, float; is_empty
fn op_scoped(a: &[Bytes]) -> OpResult {
    let names: Vec<&str> = s(&a[1]).split('\t').collect();
    let mut c = ScopedValues::new();
    if !a[0].is_empty() {
        c.set_default(s(&a[0]));
    }
    for x in a[2..].chunks(3) {
        if &x[0] == b"two" {
            e(c.add2(s(&x[1]), s(&x[2])))?;
        } else {
            let d = s(&x[0]).chars().next().unwrap();
            let spec = if x[2] == b"-" { s(&x[1]).to_string() } else { format!("{}{}{}", s(&x[1]), d, s(&x[2])) };
            e(c.add(&spec, d))?;
        }
    }
    // what another file's names gave does not matter
    if c.lookup(&other(&names)).is_ok() {
        let _ = c.make_ints();
        let _ = c.make_floats();
    }
    e(c.lookup(&names))?;
    let mut o = vec![vec![b'0' + u8::from(c.is_empty())]];
    for i in 0..names.len() {
        o.push(c.get(i).as_bytes().to_vec());
        o.push(vec![b'0' + u8::from(c.has_value(i))]);
    }
    e(c.lookup(&names))?;
    let ints = c.make_ints().is_ok();
    let floats = c.make_floats().is_ok();
    for i in 0..names.len() {
        o.push(if ints { c.get_int(i).to_string().into_bytes() } else { b"ERR".to_vec() });
        o.push(if floats { c.get_float(i).to_string().into_bytes() } else { b"ERR".to_vec() });
    }
    Ok(o)
}

// headcheck mode firstline... -> per line T/F, E for an error (which ends the list)
pub fn op_headcheck(a: &[Bytes]) -> OpResult {
    let mode: cdx::util::HeaderMode = e(s(&a[0]).parse())?;
    let mut c = cdx::util::HeaderChecker::from_mode(mode);
    let mut o = Vec::new();
    for x in &a[1..] {
        match c.check(x, "file") {
            Ok(true) => o.push(b'T'),
            Ok(false) => o.push(b'F'),
            Err(_) => {
                o.push(b'E');
                break;
            }
        }
    }
    Ok(vec![o])
}

// match spec file texts... -> one string of 0/1 (- not applicable) per way to use the pattern:
//   Matcher, MatcherList, column of a line, whole line
fn op_match(a: &[Bytes]) -> OpResult {
    let d = Scratch::new();
    let f = d.files(&a[1..2]);
    let spec = s(&a[0]).replace("@FILE@", &f[0]);
    let utf8 = spec.split(',').next().unwrap().split('.').any(|x| x.eq_ignore_ascii_case("utf8"));
    let m = e(MatchMaker::make(&spec))?;
    let mut list = MatcherList::new();
    e(list.push(&spec))?;
    let mut col = LineMatcherList::new_with(Combiner::And);
    e(col.push(&format!("two,{}", spec)))?;
    e(col.lookup(&["one", "two", "three"]))?;
    let mut whole = LineMatcherList::new_with(Combiner::And);
    e(whole.push(&format!(",{}", spec)))?;
    e(whole.lookup(&["one"]))?;
    let bit = |x: bool| if x { b'1' } else { b'0' };
    let mut out = vec![Vec::new(); 4];
    for t in &a[2..] {
        out[0].push(bit(m.do_match_safe(t)));
        out[1].push(bit(if utf8 { list.smatch(s(t)) } else { list.umatch(t) }));
        if t.contains(&b'\n') {
            out[2].push(b'-');
            out[3].push(b'-');
            continue;
        }
        if t.contains(&b'\t') {
            out[2].push(b'-');
        } else {
            let mut l = b"a\t".to_vec();
            l.extend_from_slice(t);
            l.extend_from_slice(b"\ta\n");
            out[2].push(bit(col.ok(&text_line(&l))));
        }
        let mut l = t.clone();
        l.push(b'\n');
        out[3].push(bit(whole.ok(&text_line(&l))));
    }
    Ok(out)
}

// num text -> usize, rest length, isize, rest length, bits of f64, rest length, and whether each read is accepted as a whole
fn op_num(a: &[Bytes]) -> OpResult {
    let t: &[u8] = &a[0];
    let (u, ur) = t.to_usize();
    let (i, ir) = t.to_isize();
    let (f, fr) = t.to_f64();
    let mut out = format!("{} {} {} {} {} {}", u, ur.len(), i, ir.len(), f.to_bits(), fr.len());
    out.push_str(&format!(
        " {} {} {}",
        t.to_usize_whole(t, "x").is_ok(),
        t.to_isize_whole(t, "x").is_ok(),
        t.to_f64_whole(t, "x").is_ok()
    ));
    if let Ok(q) = std::str::from_utf8(t) {
        let same = q.to_usize() == (u, &q[q.len() - ur.len()..])
            && q.to_isize() == (i, &q[q.len() - ir.len()..])
            && q.to_f64().0.to_bits() == f.to_bits()
            && q.to_f64().1.len() == fr.len()
            && t.to_usize_lossy() == u
            && t.to_isize_lossy() == i
            && t.to_f64_lossy().to_bits() == f.to_bits();
        out.push_str(&format!(" {}", same));
    } else {
        out.push_str(" true");
    }
    for junk_type in [JunkType::Any, JunkType::Trailing, JunkType::None] {
        for junk_val in [JunkVal::Min, JunkVal::Max] {
            let j = Junk { junk_type, junk_val };
            out.push_str(&format!(" {} {} {}", t.to_usize_junk(&j), t.to_isize_junk(&j), t.to_f64_junk(&j).to_bits()));
        }
    }
    Ok(vec![out.into_bytes()])
}

// numfmt spec bits -> text
fn op_numfmt(a: &[Bytes]) -> OpResult {
    let f = e(NumFormat::new(s(&a[0])))?;
    let mut w: Vec<u8> = Vec::new();
    e(f.print(f64::from_bits(s(&a[1]).parse().unwrap()), &mut w))?;
    Ok(vec![w])
}

/// tabs: width, height, file -> lines
// show width height file, or show file: straight to standard output
pub fn show(a: &[String]) {
    let t = cdx::util::TextFileMode::default();
    let r = if a.len() == 3 {
        cdx::tabs::show(&a[2], &cdx::tabs::Rect::new(a[0].parse().unwrap(), a[1].parse().unwrap()), &t)
    } else {
        cdx::tabs::basic(&a[0], &t)
    };
    std::process::exit(i32::from(r.is_err()));
}

fn op_tabs(a: &[Bytes]) -> OpResult {
    let t = Scratch::new();
    let f = t.files(&a[2..3]);
    let mut v = Vec::new();
    e(cdx::tabs::show2(&f[0], &cdx::tabs::Rect::new(num(&a[0]), num(&a[1])), &mut v, &cdx::util::TextFileMode::default()))?;
    Ok(v.into_iter().map(String::into_bytes).collect())
}
