//! `driver race REGISTRY PROGRAM...`: one thread per PROGRAM, all released together, in a fresh process.
//! PROGRAM is "delay;op;op", op is "make NAME", "push NAME VERSION" or "alias OLD NEW".
//! Prints one line per thread: its results, "none" for a name that is not known.
use cdx::agg::{Agg, AggMaker, Counter};
use cdx::comp::{CompMaker, Compare, Item, LineCompare};
use cdx::matcher::{Match, MatchMaker};
use cdx::prelude::*;
use cdx::textgen::{Gen, GenMaker, Where};
use cdx::trans::{Trans, TransList, TransMaker};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering as O};
use std::sync::Arc;

type R<T> = cdx::util::Result<T>;

struct V(String);
impl Trans for V {
    fn trans(&mut self, _s: &[u8], _c: &TextLine, dst: &mut Vec<u8>) -> R<()> {
        dst.extend_from_slice(self.0.as_bytes());
        Ok(())
    }
}
impl Match for V {
    fn smatch(&self, b: &str) -> bool {
        b == self.0
    }
    fn umatch(&self, b: &[u8]) -> bool {
        b == self.0.as_bytes()
    }
}
impl Agg for V {
    fn add(&mut self, _d: &[u8]) {}
    fn result(&mut self, w: &mut dyn Write, _f: NumFormat) -> R<()> {
        w.write_all(self.0.as_bytes())?;
        Ok(())
    }
    fn reset(&mut self) {}
}
impl Gen for V {
    fn write(&mut self, w: &mut dyn Write, _l: &Where) -> R<()> {
        w.write_all(self.0.as_bytes())?;
        Ok(())
    }
}
impl Counter for V {
    fn counter(&mut self, _d: &[u8]) -> usize {
        1000 + self.0[1..].parse::<usize>().unwrap()
    }
}
impl Compare for V {
    fn comp(&self, _l: &[u8], r: &[u8]) -> Ordering {
        if r == self.0.as_bytes() {
            Ordering::Less
        } else {
            Ordering::Equal
        }
    }
    fn equal(&self, l: &[u8], r: &[u8]) -> bool {
        self.comp(l, r) == Ordering::Equal
    }
    fn fill_cache(&self, _i: &mut Item, _v: &[u8]) {}
    fn set(&mut self, _v: &[u8]) {}
    fn comp_self(&self, _r: &[u8]) -> Ordering {
        Ordering::Equal
    }
    fn equal_self(&self, _r: &[u8]) -> bool {
        true
    }
}

impl LineCompare for V {
    fn comp_cols(&mut self, _l: &TextLine, r: &TextLine, _a: usize, _b: usize) -> Ordering {
        Compare::comp(self, b"", r.get(0))
    }
    fn used_cols(&self, _v: &mut Vec<usize>, _n: usize) {}
    fn equal_cols(&mut self, l: &TextLine, r: &TextLine, a: usize, b: usize) -> bool {
        self.comp_cols(l, r, a, b) == Ordering::Equal
    }
    fn comp_lines(&mut self, _l: &[u8], _r: &[u8], _d: u8, _a: usize, _b: usize) -> Ordering {
        Ordering::Equal
    }
    fn equal_lines(&mut self, _l: &[u8], _r: &[u8], _d: u8, _a: usize, _b: usize) -> bool {
        true
    }
    fn lookup(&mut self, _f: &[&str], _n: usize) -> R<()> {
        Ok(())
    }
    fn fill_cache_cols(&mut self, _i: &mut Item, _v: &TextLine) {}
    fn fill_cache_line(&mut self, _i: &mut Item, _v: &[u8], _d: u8) {}
    fn set(&mut self, _v: &[u8]) {}
    fn comp_self_cols(&mut self, _r: &TextLine) -> Ordering {
        Ordering::Equal
    }
    fn equal_self_cols(&mut self, _r: &TextLine) -> bool {
        true
    }
    fn comp_self_line(&mut self, _r: &[u8], _d: u8) -> Ordering {
        Ordering::Equal
    }
    fn equal_self_line(&mut self, _r: &[u8], _d: u8) -> bool {
        true
    }
}

fn stat(x: &str) -> &'static str {
    Box::leak(x.to_string().into_boxed_str())
}

fn make(reg: &str, n: &str) -> R<String> {
    match reg {
        "trans" => {
            let mut t = TransList::new(n)?;
            Ok(String::from_utf8_lossy(t.trans(b"aB c", &TextLine::new())?).to_string())
        }
        "match" => {
            let m = MatchMaker::make(&format!("{},ab", n))?;
            Ok(["ab", "xab", "abx", "xabx", "v1", "v2", "v3"].iter().map(|x| if m.umatch(x.as_bytes()) { '1' } else { '0' }).collect())
        }
        "agg" => {
            let a = AggMaker::make(n)?;
            let mut w: Vec<u8> = Vec::new();
            for x in [&b"5"[..], b"3", b"4"] {
                a.borrow_mut().add(x);
            }
            a.borrow_mut().result(&mut w, NumFormat::default())?;
            Ok(String::from_utf8_lossy(&w).to_string())
        }
        "counter" => Ok(AggMaker::make_counter(n)?.counter(b"one-two three").to_string()),
        "comp" => {
            let c = CompMaker::make_comp(n)?;
            Ok([("10", "9"), ("b", "C"), ("1", "2"), ("q", "v1"), ("q", "v2"), ("q", "v3")]
                .iter()
                .map(|(a, b)| match c.comp.comp(a.as_bytes(), b.as_bytes()) {
                    Ordering::Less => '<',
                    Ordering::Equal => '=',
                    Ordering::Greater => '>',
                })
                .collect())
        }
        "linecomp" => {
            let mut c = CompMaker::make_line_comp(&format!("1,{}", n))?;
            c.lookup(&["k"])?;
            Ok([("10", "9"), ("b", "C"), ("1", "2"), ("q", "v1"), ("q", "v2"), ("q", "v3")]
                .iter()
                .map(|(a, b)| match c.comp_cols(&crate::ops::text_line(format!("{}\n", a).as_bytes()), &crate::ops::text_line(format!("{}\n", b).as_bytes())) {
                    Ordering::Less => '<',
                    Ordering::Equal => '=',
                    Ordering::Greater => '>',
                })
                .collect())
        }
        _ => {
            let mut g = GenMaker::make(n)?;
            let mut w: Vec<u8> = Vec::new();
            g.gen.write(&mut w, &Where { col: 7, line: 9 })?;
            Ok(String::from_utf8_lossy(&w).to_string())
        }
    }
}

fn push(reg: &str, n: &str, v: &str) -> R<()> {
    let (n, v) = (stat(n), v.to_string());
    match reg {
        "trans" => TransMaker::push(n, "", move |_, _| Ok(Box::new(V(v.clone())))),
        "match" => MatchMaker::push(n, "", move |_, _| Ok(Box::new(V(v.clone())))),
        "agg" => AggMaker::push(n, "", move |_| Ok(Rc::new(RefCell::new(V(v.clone()))))),
        "counter" => AggMaker::push_counter(n, "", move |_, _| Ok(Box::new(V(v.clone())))),
        "comp" => CompMaker::push(n, "", move |_| Ok(Box::new(V(v.clone())))),
        "linecomp" => CompMaker::push_line(n, "", move |_| Ok(Box::new(V(v.clone())))),
        _ => GenMaker::push(n, "", move |_| Ok(Box::new(V(v.clone())))),
    }
}

fn alias(reg: &str, old: &str, new: &str) -> R<()> {
    let (old, new) = (stat(old), stat(new));
    match reg {
        "trans" => TransMaker::add_alias(old, new),
        "match" => MatchMaker::add_alias(old, new),
        "agg" | "counter" => AggMaker::add_alias(old, new),
        "comp" | "linecomp" => CompMaker::add_alias(old, new),
        _ => GenMaker::add_alias(old, new),
    }
}

pub fn main(a: &[String]) {
    let reg = a[0].clone();
    let ready = Arc::new(AtomicUsize::new(0));
    let total = a.len() - 1;
    let mut hs = Vec::new();
    for p in &a[1..] {
        let (reg, p, ready) = (reg.clone(), p.clone(), ready.clone());
        hs.push(std::thread::spawn(move || {
            let mut it = p.split(';');
            let delay: usize = it.next().unwrap().parse().unwrap();
            let ops: Vec<Vec<&str>> = it.map(|x| x.split(' ').collect()).collect();
            let mut out = Vec::new();
            ready.fetch_add(1, O::SeqCst);
            while ready.load(O::SeqCst) < total {
                std::hint::spin_loop();
            }
            for _ in 0..delay {
                std::hint::spin_loop();
            }
            for o in &ops {
                out.push(match o[0] {
                    "make" => make(&reg, o[1]).unwrap_or_else(|_| "none".to_string()),
                    "push" => push(&reg, o[1], o[2]).map_or_else(|_| "refused".to_string(), |_| "ok".to_string()),
                    _ => alias(&reg, o[1], o[2]).map_or_else(|_| "refused".to_string(), |_| "ok".to_string()),
                });
            }
            out.join(";")
        }));
    }
    for h in hs {
        println!("{}", h.join().unwrap_or_else(|_| "panic".to_string()));
    }
}
