// Parallel process runner (std only, compiled with plain rustc).
// stdin : jobs; stdout : results.  Integers are u32 little-endian, strings are length-prefixed.
// job    : nargs, args..., nfiles, (name, content)..., has_stdin(u32), [stdin], nouts, names...
// result : status(i32 as u32), stdout, stderr, nouts, (exists u32, content)...
// argv: runner SCRATCH NTHREADS TIMEOUT_MS
use std::fs;
use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::CommandExt;
use std::ffi::{OsStr, OsString};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

struct Job {
    args: Vec<Vec<u8>>,
    files: Vec<(Vec<u8>, Vec<u8>)>,
    stdin: Option<Vec<u8>>,
    outs: Vec<Vec<u8>>,
}
struct Res {
    status: i32,
    out: Vec<u8>,
    err: Vec<u8>,
    files: Vec<Option<Vec<u8>>>,
}
struct Rd<'a> {
    d: &'a [u8],
    p: usize,
}
impl Rd<'_> {
    fn u(&mut self) -> u32 {
        let v = u32::from_le_bytes(self.d[self.p..self.p + 4].try_into().unwrap());
        self.p += 4;
        v
    }
    fn s(&mut self) -> Vec<u8> {
        let n = self.u() as usize;
        let v = self.d[self.p..self.p + n].to_vec();
        self.p += n;
        v
    }
}
fn put(o: &mut Vec<u8>, s: &[u8]) {
    o.extend_from_slice(&(s.len() as u32).to_le_bytes());
    o.extend_from_slice(s);
}
fn run(j: &Job, dir: &std::path::Path, timeout: Duration) -> Res {
    let _ = fs::create_dir_all(dir);
    for (n, c) in &j.files {
        let p = dir.join(OsStr::from_bytes(n));
        if let Some(d) = p.parent() {
            let _ = fs::create_dir_all(d);
        }
        fs::write(p, c).unwrap();
    }
    let sin = dir.join(".stdin");
    let sout = dir.join(".stdout");
    let serr = dir.join(".stderr");
    let mut cmd = Command::new(OsStr::from_bytes(&j.args[0]));
    for a in &j.args[1..] {
        cmd.arg(OsString::from_vec(a.clone()));
    }
    cmd.current_dir(dir).env("TMPDIR", dir).env("RUST_BACKTRACE", "0");
    if let Some(s) = &j.stdin {
        fs::write(&sin, s).unwrap();
        cmd.stdin(Stdio::from(fs::File::open(&sin).unwrap()));
    } else {
        cmd.stdin(Stdio::null());
    }
    cmd.stdout(Stdio::from(fs::File::create(&sout).unwrap()));
    cmd.stderr(Stdio::from(fs::File::create(&serr).unwrap()));
    // a runaway program must not fill the disk or the memory (RLIMIT_FSIZE = 1, RLIMIT_AS = 9)
    unsafe {
        cmd.pre_exec(|| {
            setrlimit(1, &[256 << 20, 256 << 20]);
            setrlimit(9, &[6 << 30, 6 << 30]);
            Ok(())
        });
    }
    let mut ch = cmd.spawn().unwrap();
    let t0 = Instant::now();
    let mut status = -2;
    let mut spin = 0u32;
    loop {
        match ch.try_wait().unwrap() {
            Some(st) => {
                status = st.code().unwrap_or(-1);
                break;
            }
            None => {
                if t0.elapsed() > timeout {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break;
                }
                spin += 1;
                std::thread::sleep(Duration::from_micros(if spin < 50 { 300 } else { 5000 }));
            }
        }
    }
    let out = fs::read(&sout).unwrap_or_default();
    let mut err = fs::read(&serr).unwrap_or_default();
    err.truncate(4000);
    let mut files = Vec::new();
    for n in &j.outs {
        files.push(fs::read(dir.join(OsStr::from_bytes(n))).ok());
    }
    let _ = fs::remove_dir_all(dir);
    Res { status, out, err, files }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let scratch = std::path::PathBuf::from(&a[1]);
    let nthreads: usize = a[2].parse().unwrap();
    let timeout = Duration::from_millis(a[3].parse().unwrap());
    let mut d = Vec::new();
    std::io::stdin().read_to_end(&mut d).unwrap();
    let mut r = Rd { d: &d, p: 0 };
    let n = r.u() as usize;
    let mut jobs = Vec::with_capacity(n);
    for _ in 0..n {
        let na = r.u();
        let args = (0..na).map(|_| r.s()).collect();
        let nf = r.u();
        let mut files = Vec::new();
        for _ in 0..nf {
            let a = r.s();
            let b = r.s();
            files.push((a, b));
        }
        let stdin = if r.u() == 1 { Some(r.s()) } else { None };
        let no = r.u();
        let outs = (0..no).map(|_| r.s()).collect();
        jobs.push(Job { args, files, stdin, outs });
    }
    let jobs = Arc::new(jobs);
    let next = Arc::new(AtomicUsize::new(0));
    let hung = Arc::new(AtomicUsize::new(0));
    let res: Arc<Mutex<Vec<Option<Res>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    let mut th = Vec::new();
    for t in 0..nthreads {
        let jobs = jobs.clone();
        let next = next.clone();
        let hung = hung.clone();
        let res = res.clone();
        let scratch = scratch.clone();
        th.push(std::thread::spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= jobs.len() {
                break;
            }
            // status -3: not run, because too many earlier runs never ended
            if hung.load(Ordering::SeqCst) >= 10 {
                res.lock().unwrap()[i] = Some(Res { status: -3, out: vec![], err: vec![], files: jobs[i].outs.iter().map(|_| None).collect() });
                continue;
            }
            let dir = scratch.join(format!("w{}", t));
            let x = run(&jobs[i], &dir, timeout);
            if x.status == -2 {
                hung.fetch_add(1, Ordering::SeqCst);
            }
            res.lock().unwrap()[i] = Some(x);
        }));
    }
    for t in th {
        t.join().unwrap();
    }
    let mut o: Vec<u8> = Vec::new();
    for x in res.lock().unwrap().iter() {
        let x = x.as_ref().unwrap();
        o.extend_from_slice(&(x.status as u32).to_le_bytes());
        put(&mut o, &x.out);
        put(&mut o, &x.err);
        o.extend_from_slice(&(x.files.len() as u32).to_le_bytes());
        for f in &x.files {
            o.extend_from_slice(&(f.is_some() as u32).to_le_bytes());
            put(&mut o, f.as_deref().unwrap_or(b""));
        }
    }
    std::io::stdout().write_all(&o).unwrap();
}
