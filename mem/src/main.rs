//! Decodes, clones, compares, encodes and drops the cases of a file, under Miri or a sanitizer.
//! One case per line: what to decode, and the bytes in hex.
use dash7::app::action::Action;
use dash7::app::command::Command;
use dash7::file::{File, FileId};
use dash7::link::{BackgroundFrame, ForegroundFrame};
use dash7::{network, transport};
use deku::prelude::*;
use std::hint::black_box;
use std::panic::{catch_unwind, set_hook};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, AtomicU32, AtomicUsize, Ordering::Relaxed};

static LIVE: AtomicIsize = AtomicIsize::new(0);
static SUM: AtomicU32 = AtomicU32::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);

/// Counts the bytes that are allocated and not given back.
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Relaxed);
        CALLS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// What is written depends on every byte, so that a checker notices bytes nobody has set.
fn show(b: Result<Vec<u8>, DekuError>) {
    let sum = b.map_or(0, |b| b.iter().fold(1u32, |s, x| s.rotate_left(5) ^ *x as u32));
    SUM.store(sum, Relaxed);
}
/// Returns whether the bytes were accepted.
fn one<T: for<'a> DekuContainerRead<'a> + DekuContainerWrite + PartialEq>(b: &[u8]) -> bool {
    match T::from_bytes((b, 0)) {
        Ok((_, v)) => {
            black_box(v == v);
            show(v.to_bytes());
            true
        }
        Err(_) => false,
    }
}
fn case(kind: &str, b: &[u8]) -> bool {
    match kind {
        "cmd" => {
            let mut ok = false;
            if let Ok(c) = Command::try_from(b) {
                black_box(c == c.clone());
                show(c.to_bytes());
                ok = true;
            }
            // the first action alone
            let _ = one::<Action>(b);
            ok
        }
        "tr" => one::<transport::Frame>(b),
        "net" => one::<network::Frame>(b),
        "fg" => one::<ForegroundFrame>(b),
        "bg" => one::<BackgroundFrame>(b),
        f => {
            let id = u8::from_str_radix(&f[4..], 16).unwrap();
            let Ok(id) = FileId::try_from(id) else { return false };
            let Ok((_, v)) = File::from_bytes((b, 0), id.clone(), b.len() as u32) else { return false };
            black_box(v == v.clone());
            let mut out = vec![];
            let mut cur = deku::no_std_io::Cursor::new(&mut out);
            let mut w = Writer::new(&mut cur);
            if v.to_writer(&mut w, (id, b.len() as u32)).is_ok() {
                let _ = w.finalize();
                show(Ok(out));
            }
            true
        }
    }
}

fn main() {
    let path = std::env::args().nth(1).expect("a file of cases");
    // a panic is another property's business
    set_hook(Box::new(|_| {}));
    let text = std::fs::read_to_string(path).unwrap();
    for (i, line) in text.lines().enumerate() {
        // shows which case was the last
        println!("case {i}");
        let (kind, h) = line.split_once(' ').unwrap();
        let bytes: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        let calls = CALLS.load(Relaxed);
        let before = LIVE.load(Relaxed);
        let Ok(ok) = catch_unwind(|| case(kind, &bytes)) else {
            println!("panicked 0 0");
            continue;
        };
        let left = LIVE.load(Relaxed) - before;
        if left != 0 {
            println!("leak of {left} bytes");
            std::process::exit(3);
        }
        let calls = CALLS.load(Relaxed) - calls;
        println!("{} {calls} {}", if ok { "accepted" } else { "refused" }, SUM.load(Relaxed));
    }
    println!("done");
}
