//! Library driver: executes one operation of the cdx library per request.
//! Protocol: u32 count, then per request u32 nargs + length-prefixed byte strings.
//! Response per request: u8 kind (0 ok, 1 error, 2 panic), u32 n, length-prefixed byte strings.
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

mod ops;
mod race;

pub type Bytes = Vec<u8>;
pub type OpResult = Result<Vec<Bytes>, String>;

fn put(o: &mut Vec<u8>, s: &[u8]) {
    o.extend_from_slice(&(s.len() as u32).to_le_bytes());
    o.extend_from_slice(s);
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map_or(false, |x| x == "race") {
        return race::main(&args[1..]);
    }
    if args.first().map_or(false, |x| x == "show") {
        return ops::show(&args[1..]);
    }
    let nthreads: usize = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(4);
    let mut d = Vec::new();
    std::io::stdin().read_to_end(&mut d).unwrap();
    let mut p = 0;
    let mut u = |d: &[u8]| {
        let v = u32::from_le_bytes(d[p..p + 4].try_into().unwrap()) as usize;
        p += 4;
        (v, p)
    };
    let (n, mut pos) = u(&d);
    let rd = |pos: &mut usize| {
        let v = u32::from_le_bytes(d[*pos..*pos + 4].try_into().unwrap()) as usize;
        *pos += 4;
        v
    };
    let mut reqs: Vec<Vec<Bytes>> = Vec::with_capacity(n);
    for _ in 0..n {
        let k = rd(&mut pos);
        let mut v = Vec::with_capacity(k);
        for _ in 0..k {
            let l = rd(&mut pos);
            v.push(d[pos..pos + l].to_vec());
            pos += l;
        }
        reqs.push(v);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let reqs = Arc::new(reqs);
    let next = Arc::new(AtomicUsize::new(0));
    let res: Arc<Mutex<Vec<Option<(u8, Vec<Bytes>)>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    // a request that never ends: kind 3 for it, kind 4 for those not reached
    let done = Arc::new(AtomicUsize::new(0));
    let started: Arc<Mutex<Vec<Option<(usize, std::time::Instant)>>>> = Arc::new(Mutex::new(vec![None; nthreads]));
    for t in 0..nthreads {
        let (reqs, next, res, done, started) = (reqs.clone(), next.clone(), res.clone(), done.clone(), started.clone());
        drop(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= reqs.len() {
                        started.lock().unwrap()[t] = None;
                        done.fetch_add(1, Ordering::SeqCst);
                        break;
                    }
                    started.lock().unwrap()[t] = Some((i, std::time::Instant::now()));
                    let r = catch_unwind(AssertUnwindSafe(|| ops::dispatch(&reqs[i])));
                    let v = match r {
                        Ok(Ok(v)) => (0u8, v),
                        Ok(Err(e)) => (1u8, vec![e.into_bytes()]),
                        Err(e) => {
                            let m = if let Some(s) = e.downcast_ref::<String>() {
                                s.clone()
                            } else if let Some(s) = e.downcast_ref::<&str>() {
                                s.to_string()
                            } else {
                                "panic".to_string()
                            };
                            (2u8, vec![m.into_bytes()])
                        }
                    };
                    res.lock().unwrap()[i] = Some(v);
                })
                .unwrap(),
        );
    }
    let mut hung: Vec<usize> = Vec::new();
    while done.load(Ordering::SeqCst) < nthreads {
        std::thread::sleep(std::time::Duration::from_millis(5));
        for x in started.lock().unwrap().iter().flatten() {
            if x.1.elapsed().as_secs() > 20 {
                hung.push(x.0);
            }
        }
        if !hung.is_empty() {
            break;
        }
    }
    let mut o: Vec<u8> = Vec::new();
    for (i, x) in res.lock().unwrap().iter().enumerate() {
        let dflt = (if hung.contains(&i) { 3 } else { 4 }, Vec::new());
        let x = x.as_ref().unwrap_or(&dflt);
        o.push(x.0);
        o.extend_from_slice(&(x.1.len() as u32).to_le_bytes());
        for s in &x.1 {
            put(&mut o, s);
        }
    }
    std::io::stdout().write_all(&o).unwrap();
    std::io::stdout().flush().unwrap();
    std::process::exit(0);
}
