//! C26: a failing reader or writer is reported.
use super::*;
use crate::gen;
use crate::props::ways::{parts, ways};
use crate::run::{hexed, Obs, Run};
use dash7::file::{File as LFile, FileId};
use deku::no_std_io::{self, Read, Seek, SeekFrom, Write};
use proptest::prelude::*;
use std::fmt::Debug;
use std::io::ErrorKind;

/// How a reader or writer misbehaves.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Faults {
    /// which error
    kind: u8,
    /// does the failure last
    forever: bool,
    /// which calls fail, when there are too many to try them all
    pick: u16,
    /// portions that are read or written at once
    sizes: Vec<u8>,
}
const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::BrokenPipe,
];
impl Faults {
    fn kind(&self) -> ErrorKind {
        KINDS[self.kind as usize % KINDS.len()]
    }
    /// The calls that are made to fail out of `n`: the first and last ones, and a spread of the others.
    fn at(&self, n: usize) -> Vec<usize> {
        if n <= 16 {
            return (0..n).collect();
        }
        let step = (n - 8) / 6 + 1;
        (0..4).chain((4 + self.pick as usize % step..n - 4).step_by(step)).chain(n - 4..n).collect()
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Call {
    Read,
    Seek,
    Write,
    Flush,
}
/// A buffer whose calls fail as told.
struct Bad<'a, T> {
    inner: Cursor<T>,
    sizes: &'a [u8],
    calls: Vec<Call>,
    fail: usize,
    forever: bool,
    kind: ErrorKind,
    hit: bool,
}
impl<'a, T> Bad<'a, T> {
    fn new(t: T, f: &'a Faults, kind: ErrorKind, forever: bool, fail: usize) -> Self {
        Bad { inner: Cursor::new(t), sizes: &f.sizes, calls: vec![], fail, forever, kind, hit: false }
    }
    fn call(&mut self, c: Call) -> no_std_io::Result<usize> {
        let i = self.calls.len();
        // a decoder that takes failures for data may go on for ever
        if i > 1_000_000 {
            panic!("does not stop when calls fail");
        }
        self.calls.push(c);
        if i == self.fail || self.forever && i > self.fail {
            self.hit = true;
            return Err(self.kind.into());
        }
        Ok(if self.sizes.is_empty() { usize::MAX } else { self.sizes[i % self.sizes.len()] as usize % 6 + 1 })
    }
}
impl Read for Bad<'_, &[u8]> {
    fn read(&mut self, buf: &mut [u8]) -> no_std_io::Result<usize> {
        let k = self.call(Call::Read)?.min(buf.len());
        self.inner.read(&mut buf[..k])
    }
}
impl<T> Seek for Bad<'_, T>
where
    Cursor<T>: Seek,
{
    fn seek(&mut self, p: SeekFrom) -> no_std_io::Result<u64> {
        self.call(Call::Seek)?;
        self.inner.seek(p)
    }
}
impl Write for Bad<'_, Vec<u8>> {
    fn write(&mut self, buf: &[u8]) -> no_std_io::Result<usize> {
        let k = self.call(Call::Write)?.min(buf.len());
        self.inner.write(&buf[..k])
    }
    fn flush(&mut self) -> no_std_io::Result<()> {
        self.call(Call::Flush)?;
        self.inner.flush()
    }
}

type In<'a> = Bad<'a, &'a [u8]>;
type Out<'a> = Bad<'a, Vec<u8>>;

fn reading<T: PartialEq + Debug>(b: &[u8], f: &Faults, read: impl Fn(&mut In) -> Result<(usize, T), DekuError>) -> Result<Option<T>, String> {
    let mut good = In::new(b, f, f.kind(), false, usize::MAX);
    let first = read(&mut good).map_err(e2s);
    for k in f.at(good.calls.len()) {
        let mut r = In::new(b, f, f.kind(), f.forever, k);
        let x = read(&mut r);
        ensure!(r.hit, "{}: other calls were made the second time", hex(b));
        let what = || format!("{}: call {k} ({:?}) of {:?} failed with {:?}", hex(b), good.calls[k], good.calls.len(), f.kind());
        match x {
            Ok((n, v)) => return Err(format!("{}, but it was read as {v:?} of {n} bits", what())),
            Err(DekuError::Io(e)) => ensure!(e == f.kind(), "{}, but {e:?} was reported", what()),
            Err(e) => return Err(format!("{}, but what was reported is {e:?}", what())),
        }
        // an interrupted call is to be repeated
        if good.calls[k] == Call::Read {
            let mut r = In::new(b, f, ErrorKind::Interrupted, false, k);
            let x = read(&mut r).map_err(e2s);
            ensure!(x == first, "{}: {first:?}, but {x:?} when call {k} was interrupted", hex(b));
        }
    }
    Ok(first.ok().map(|x| x.1))
}
fn writing<T: Debug>(v: &T, f: &Faults, write: impl Fn(&T, &mut Writer<&mut Out>) -> Result<(), DekuError>) -> V {
    let run = |o: &mut Out| {
        let mut w = Writer::new(o);
        write(v, &mut w).and_then(|()| w.finalize())
    };
    let plain = Faults { sizes: vec![], ..f.clone() };
    let mut all = Out::new(vec![], &plain, f.kind(), false, usize::MAX);
    let first = run(&mut all).map_err(e2s);
    let mut good = Out::new(vec![], f, f.kind(), false, usize::MAX);
    let again = run(&mut good).map_err(e2s);
    ensure!(first == again, "{v:?}: {first:?}, but {again:?} when written in portions");
    let e = all.inner.into_inner();
    let got = good.inner.get_ref();
    ensure!(&e == got, "{v:?} is {} at once and {} in portions", hex(&e), hex(got));
    for k in f.at(good.calls.len()) {
        let what = || format!("{v:?}: call {k} ({:?}) of {:?} failed with {:?}", good.calls[k], good.calls.len(), f.kind());
        let mut w = Out::new(vec![], f, f.kind(), f.forever, k);
        let x = run(&mut w);
        ensure!(w.hit, "{v:?}: other calls were made the second time");
        match x {
            Ok(()) => return Err(format!("{}, but success was reported", what())),
            Err(DekuError::Io(e)) => ensure!(e == f.kind(), "{}, but {e:?} was reported", what()),
            Err(e) => return Err(format!("{}, but what was reported is {e:?}", what())),
        }
        let got = w.inner.into_inner();
        ensure!(e.starts_with(&got), "{}; {} was written until then, which does not begin {}", what(), hex(&got), hex(&e));
        if good.calls[k] == Call::Write {
            let mut w = Out::new(vec![], f, ErrorKind::Interrupted, false, k);
            let x = run(&mut w).map_err(e2s);
            let got = w.inner.into_inner();
            ensure!(x == first && got == e, "{v:?}: {first:?} {}, but {x:?} {} when call {k} was interrupted", hex(&e), hex(&got));
        }
    }
    Ok(())
}
pub fn plain<T>(b: &[u8], f: &Faults) -> Result<bool, String>
where
    T: for<'a> DekuContainerRead<'a> + DekuContainerWrite + Debug + PartialEq,
{
    let v = reading(b, f, |r| T::from_reader((r, 0)))?;
    if let Some(v) = &v {
        writing(v, f, |v, w| v.to_writer(w, ()))?;
    }
    Ok(v.is_some())
}
pub fn command(b: &[u8], f: &Faults) -> Result<bool, String> {
    let v = reading(b, f, |r| Command::from_reader((r, 0)))?;
    if let Some(v) = &v {
        writing(v, f, |v, w| v.to_writer(w, 0))?;
    }
    // with its length
    reading(b, f, |r| {
        let mut rd = Reader::new(r);
        let v = <Command as DekuReader<'_, u32>>::from_reader_with_ctx(&mut rd, b.len() as u32)?;
        Ok((rd.bits_read, v))
    })?;
    Ok(v.is_some())
}
pub fn files(b: &[u8], f: &Faults) -> Result<bool, String> {
    let mut any = false;
    // a few ids for each case
    for id in (0..=0x2Fu8).chain([0x40]).filter(|i| (*i as u16 + f.pick % 6) % 6 == 0) {
        let Ok(fid) = FileId::try_from(id) else { continue };
        let n = b.len() as u32;
        let v = reading(b, f, |r| {
            let mut rd = Reader::new(r);
            let v = LFile::from_reader_with_ctx(&mut rd, (fid.clone(), n))?;
            Ok((rd.bits_read, v))
        })?;
        if let Some(v) = &v {
            any = true;
            writing(v, f, |v, w| v.to_writer(w, (fid.clone(), n)))?;
        }
    }
    Ok(any)
}

fn how() -> gen::S<Faults> {
    (any::<u8>(), any::<bool>(), any::<u16>(), prop_oneof![2 => Just(vec![]), 3 => proptest::collection::vec(any::<u8>(), 1..5)])
        .prop_map(|(kind, forever, pick, sizes)| Faults { kind, forever, pick, sizes })
        .boxed()
}
pub fn faults(r: &mut Run) {
    let all = ways();
    r.guided("messages", 15_000, 5_000, (hexed(gen::cmd_bytes()), how()).boxed(), |_| true, |(b, f), o| {
        o.nontrivial_if(b.0.len() > 1);
        for w in all.iter().filter(|w| w.name == "Command" || w.name.ends_with("Action")) {
            if (w.survives)(&b.0, f).map_err(|e| format!("{}: {e}", w.name))? {
                o.label(format!("accepted as {}", w.name));
            }
        }
        Ok(())
    });
    let check = |(b, f): &(Hex, Faults), o: &mut Obs| -> V {
        o.nontrivial_if(b.0.len() > 1);
        for w in &all {
            if (w.survives)(&b.0, f).map_err(|e| format!("{}: {e}", w.name))? {
                o.label(format!("accepted as {}", w.name));
            }
        }
        Ok(())
    };
    r.prop("any bytes", 3_000, (hexed(crate::props::runtime::any_bytes()), how()).boxed(), check);
    r.prop("parts", 3_000, (hexed(parts()), how()).boxed(), check);
    r.prop("damaged parts", 2_000, (hexed(gen::mutated(parts())), how()).boxed(), check);
}
