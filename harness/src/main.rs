//! Conformance driver for nt-hive.
//!
//! Reads scenarios (text lines) on stdin, executes them against the real crate through its public API only,
//! and writes one JSON event per public call to stdout, recorded at the call's return (panics included).
//! It holds no oracle: every judgement about the events is made by the TLA+ specification.

mod exec;
mod fuzz;
mod json;
mod rng;

use exec::{run_session, Out};
use nt_hive::Hive;
use std::cell::{Ref, RefCell, RefMut};
use std::io::Read;
use std::sync::atomic::{AtomicU64, Ordering};

/// Progress counter the watchdog looks at.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

#[derive(Clone)]
pub struct Image {
    pub hdr: Vec<u8>,
    pub total: usize,
    pub data: Vec<u8>,
}

impl Image {
    pub fn file(&self) -> Vec<u8> {
        let mut v = vec![0u8; 4096];
        v[..self.hdr.len()].copy_from_slice(&self.hdr);
        v.extend_from_slice(&self.data);
        v.truncate(self.total);
        v
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return Vec::new();
    }
    let b = s.as_bytes();
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => panic!("bad hex"),
    };
    b.chunks(2).map(|p| d(p[0]) * 16 + d(p[1])).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}").replace('\n', " ");
        exec::LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));

    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).unwrap();

    let args: Vec<String> = std::env::args().collect();
    let sync = args.iter().any(|a| a == "--sync");

    #[cfg(not(miri))]
    {
        let limit: u64 = args
            .iter()
            .position(|a| a == "--limit")
            .map(|i| args[i + 1].parse().unwrap())
            .unwrap_or(8);
        std::thread::spawn(move || {
            let mut last = 0;
            let mut same = 0u64;
            loop {
                std::thread::sleep(std::time::Duration::from_millis(250));
                let now = PROGRESS.load(Ordering::Relaxed);
                if now == last {
                    same += 1;
                } else {
                    same = 0;
                    last = now;
                }
                if same > limit * 4 {
                    eprintln!("TIMEOUT");
                    std::process::exit(99);
                }
            }
        });
    }

    let progress = args.iter().position(|a| a == "--progress").map(|i| args[i + 1].clone());
    let mut out = Out::new(sync);
    let mut image: Option<Image> = None;
    let mut base: Option<Image> = None;
    let lines: Vec<&str> = input.lines().filter(|l| !l.is_empty()).collect();
    let mut i = 0;
    while i < lines.len() {
        let tok: Vec<&str> = lines[i].split(' ').collect();
        match tok[0] {
            "I" => {
                let img = Image {
                    total: tok[2].parse().unwrap(),
                    hdr: unhex(tok[3]),
                    data: unhex(tok[4]),
                };
                out.line(&format!(
                    "{{\"e\":\"img\",\"id\":\"{}\",\"n\":{},\"h\":{},\"d\":{}}}",
                    tok[1],
                    img.total,
                    if cfg!(miri) { "[]".into() } else { json::bytes(&img.hdr) },
                    if cfg!(miri) { "[]".into() } else { json::bytes(&img.data) }
                ));
                base = Some(img.clone());
                image = Some(img);
                i += 1;
            }
            "P" => {
                // P <id> <total> <header patch> <data patch>: the last full image with a few bytes changed;
                // a patch is "-" or pos:hex[;pos:hex...]
                let mut img = base.clone().expect("no base image");
                img.total = tok[2].parse().unwrap();
                let hp = patch(&mut img.hdr, tok[3]);
                let dp = patch(&mut img.data, tok[4]);
                out.line(&format!(
                    "{{\"e\":\"imgp\",\"id\":\"{}\",\"n\":{},\"hp\":[{hp}],\"p\":[{dp}]}}",
                    tok[1], img.total
                ));
                image = Some(img);
                i += 1;
            }
            "F" => {
                // F <id> <seed> <count>: mutants of the last full image; only crashing ones are recorded.
                let img = base.as_ref().expect("no base image");
                let (seed, count): (u64, u64) = (tok[2].parse().unwrap(), tok[3].parse().unwrap());
                fuzz::run(&mut out, img, tok[1], seed, count, progress.as_deref());
                i += 1;
            }
            "S" => {
                // S <id> <kind s|m|r> <align> <place h|k|t>
                let mut ops = Vec::new();
                let mut j = i + 1;
                while j < lines.len() && !matches!(&lines[j][..2], "S " | "I " | "P " | "F ") {
                    ops.push(lines[j].split(' ').collect::<Vec<&str>>());
                    j += 1;
                }
                let img = image.as_ref().expect("no image");
                session(&mut out, img, &tok, &ops);
                i = j;
            }
            _ => panic!("unexpected line {}", lines[i]),
        }
    }
    out.line("{\"e\":\"eof\"}");
    out.flush();
}

/// Changes a few bytes and describes the change as [[pos,byte],...].
fn patch(v: &mut [u8], p: &str) -> String {
    let mut d = Vec::new();
    if p != "-" {
        for part in p.split(';') {
            let (pos, hex) = part.split_once(':').unwrap();
            let pos: usize = pos.parse().unwrap();
            for (k, b) in unhex(hex).iter().enumerate() {
                v[pos + k] = *b;
                d.push(format!("[{},{b}]", pos + k));
            }
        }
    }
    d.join(",")
}

pub fn session(out: &mut Out, img: &Image, tok: &[&str], ops: &[Vec<&str>]) {
    let file = img.file();
    let align: usize = tok[3].parse().unwrap();
    out.line(&format!(
        "{{\"e\":\"sess\",\"id\":\"{}\",\"kind\":\"{}\",\"align\":{},\"place\":\"{}\",\"w\":{}}}",
        tok[1],
        tok[2],
        align,
        tok[4],
        usize::BITS
    ));
    out.flush_if_sync();
    let kind = tok[2];
    match tok[4] {
        // The buffer is on the stack, below or above the crate's own frames.
        "k" if file.len() + 64 <= 64 * 1024 => {
            let mut arr = [0u8; 64 * 1024];
            on_buffer(out, &file, kind, align, ops, &mut arr);
        }
        // The buffer is on the heap of this thread, the calls run on another thread's stack.
        "t" => {
            let mut buf = vec![0u8; file.len() + 64];
            std::thread::scope(|s| {
                s.spawn(|| on_buffer(out, &file, kind, align, ops, &mut buf));
            });
        }
        _ => {
            let mut buf = vec![0u8; file.len() + 64];
            on_buffer(out, &file, kind, align, ops, &mut buf);
        }
    }
}

fn on_buffer(
    out: &mut Out,
    file: &[u8],
    kind: &str,
    align: usize,
    ops: &[Vec<&str>],
    buf: &mut [u8],
) {
    let start = {
        let addr = buf.as_ptr() as usize;
        (8 - addr % 8) % 8 + align
    };
    let buf = &mut buf[start..start + file.len()];
    buf.copy_from_slice(file);
    match kind {
        "s" => {
            let b: &[u8] = buf;
            exec::auto_new(out, || Hive::new(b));
            let h1 = exec::auto_raw(out, || Hive::without_validation(b));
            let h2 = exec::guard(|| Hive::without_validation(b).ok()).ok().flatten();
            if let Some(mut h1) = h1 {
                run_session(out, &mut h1, h2.as_ref(), b.as_ptr() as usize, file, ops);
            }
        }
        "m" => {
            let base = buf.as_ptr() as usize;
            exec::auto_new(out, || Hive::new(&mut *buf));
            if let Some(mut h1) = exec::auto_raw(out, || Hive::without_validation(&mut *buf)) {
                run_session(out, &mut h1, None, base, file, ops);
            }
        }
        "r" => {
            let base = buf.as_ptr() as usize;
            let cell = RefCell::new(buf);
            let get = || Ref::map(cell.borrow(), |b| &**b);
            exec::auto_new(out, || Hive::new(get()));
            if let Some(mut h1) = exec::auto_raw(out, || Hive::without_validation(get())) {
                run_session(out, &mut h1, None, base, file, ops);
            }
            exec::end(out, file, &cell.borrow());
            return;
        }
        "g" => {
            let base = buf.as_ptr() as usize;
            let cell = RefCell::new(buf);
            let get = || RefMut::map(cell.borrow_mut(), |b| &mut **b);
            exec::auto_new(out, || Hive::new(get()));
            if let Some(mut h1) = exec::auto_raw(out, || Hive::without_validation(get())) {
                run_session(out, &mut h1, None, base, file, ops);
            }
            exec::end(out, file, &cell.borrow());
            return;
        }
        _ => panic!("bad kind"),
    }
    exec::end(out, file, buf);
}

