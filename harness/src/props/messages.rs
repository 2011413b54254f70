//! Commands and actions: C01, C02, C03, C05, C06, C07, C14, C15, C22.
use super::*;
use crate::gen;
use crate::run::{hexed, Obs, Run, V};
use dash7::app::operation::{ActionHeader, FileOffset, FileData, Status, StatusOperand, InterfaceStatusOperation};
use dash7::session::InterfaceStatus;
use deku::no_std_io::{self, Read, Seek};
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};

fn classes(c: &[Act], o: &mut Obs) {
    o.label(match c.len() {
        0 => "actions: 0",
        1 => "actions: 1",
        2..=4 => "actions: 2-4",
        5..=19 => "actions: 5-19",
        _ => "actions: 20+",
    });
    for a in c {
        o.label(a.kind());
    }
}

// ------------------------------------------------------------------------- C01
pub fn round_trip(r: &mut Run) {
    let check = |m: &Vec<Act>, o: &mut Obs| -> V {
        classes(m, o);
        o.nontrivial_if(m.iter().any(|a| a.bytes(D).len() > 1));
        let c = build(m)?;
        let b = encode(&c)?;
        let back = decode(&b)?;
        ensure!(back == c, "{} came back as {}", short(format!("{c:?}")), short(format!("{back:?}")));
        let (rest, back) = Command::from_bytes((&b, 0)).map_err(e2s)?;
        ensure!(rest.0.is_empty() && back == c, "from_bytes differs: rest {:?}", short(format!("{rest:?}")));
        let owned: Vec<u8> = c.clone().try_into().map_err(e2s)?;
        ensure!(owned == b, "the two ways to encode differ");
        Ok(())
    };
    r.guided("command", 50_000, 20_000, gen::cmd(), sound, check);
    r.prop("many actions", 600, gen::long(), |m, o| check(&m.acts(), o));
    r.prop("large payloads", 400, gen::big(), |m, o| check(&m.acts(), o));
    r.prop("huge payloads", 8, gen::huge(), |m, o| check(&m.acts(), o));
    r.guided("action", 50_000, 12_000, gen::act(), |m| sound(&vec![m.clone()]), |m, o| {
        o.label(m.kind());
        o.nontrivial();
        let a = conv::act(m).ok_or("the value could not be built")?;
        let b = a.to_bytes().map_err(e2s)?;
        let back = Action::try_from(b.as_slice()).map_err(e2s)?;
        ensure!(back == a, "{} came back as {}", short(format!("{a:?}")), short(format!("{back:?}")));
        Ok(())
    });
}

// ------------------------------------------------------------------------- C02
pub fn layout(r: &mut Run) {
    let check = |m: &Vec<Act>, o: &mut Obs| -> V {
        classes(m, o);
        o.nontrivial_if(m.iter().any(|a| a.bytes(D).len() > 1));
        let b = encode(&build(m)?)?;
        let want = m.bytes(D);
        ensure!(b == want, "expected {}, got {}", short(hex(&want)), short(hex(&b)));
        Ok(())
    };
    r.guided("command", 50_000, 20_000, gen::cmd(), sound, check);
    r.prop("many actions", 800, gen::long(), |m, o| check(&m.acts(), o));
    r.prop("large payloads", 600, gen::big(), |m, o| check(&m.acts(), o));
    r.prop("huge payloads", 16, gen::huge(), |m, o| check(&m.acts(), o));
    r.guided("action", 50_000, 12_000, gen::act(), |m| sound(&vec![m.clone()]), |m, o| {
        o.label(m.kind());
        o.nontrivial();
        let a = conv::act(m).ok_or("the value could not be built")?;
        let b = a.to_bytes().map_err(e2s)?;
        let want = m.bytes(D);
        ensure!(b == want, "expected {}, got {}", short(hex(&want)), short(hex(&b)));
        let owned: Vec<u8> = a.try_into().map_err(e2s)?;
        ensure!(owned == want, "the two ways to encode differ");
        Ok(())
    });
}

// ------------------------------------------------------------------------- C03
/// Decode bytes both ways and compare.
pub fn judge(b: &[u8], o: &mut Obs) -> V {
    let want = ref_cmd(b);
    let loose = Command::from_bytes((b, 0));
    let strict = Command::try_from(b);
    match (&want, &loose) {
        (Ok((m, used)), Ok((rest, c))) => {
            o.label("accepted");
            classes(m, o);
            o.nontrivial_if(!m.is_empty());
            same_cmd(c, m)?;
            ensure!(
                rest.0 == &b[*used..] && rest.1 % 8 == 0,
                "expected {} bytes left, got {:?}",
                b.len() - used,
                rest
            );
            match strict {
                Ok(c) => {
                    ensure!(*used == b.len(), "accepted although {} bytes are left", b.len() - used);
                    same_cmd(&c, m)?;
                }
                Err(e) => ensure!(*used != b.len(), "refused as a whole: {}", e2s(e)),
            }
        }
        (Err(e), Err(_)) => {
            o.label(match e {
                crate::bits::E::Short => "refused: too short".into(),
                crate::bits::E::Bad(w) => format!("refused: {w}"),
            });
            o.nontrivial_if(b.len() > 1);
            ensure!(strict.is_err(), "refused in part but accepted as a whole");
        }
        (Ok((m, _)), Err(e)) => {
            return Err(format!("refused ({}), but it means {}", short(format!("{e:?}")), short(format!("{m:?}"))))
        }
        (Err(e), Ok((_, c))) => return Err(format!("accepted as {}, but: {e:?}", short(format!("{c:?}")))),
    }
    // one action alone
    let want = Act::parse(b, D);
    match (want, Action::from_bytes((b, 0))) {
        (Ok((m, used)), Ok((rest, a))) => {
            same_act(&a, &m)?;
            ensure!(rest.0 == &b[used..], "the action left {:?}", rest);
        }
        (Err(_), Err(_)) => {}
        (Ok(_), Err(e)) => return Err(format!("the action is refused: {}", e2s(e))),
        (Err(e), Ok((_, a))) => return Err(format!("accepted as action {a:?}, but: {e:?}")),
    }
    Ok(())
}
pub fn meaning(r: &mut Run) {
    r.guided("bytes", 120_000, 60_000, hexed(gen::cmd_bytes()), |_| true, |b, o| judge(&b.0, o));
    r.guided("commands", 10_000, 20_000, gen::cmd_any(), sane, |m, o| judge(&m.bytes(D), o));
    r.prop("many actions", 500, gen::long_any(), |m, o| judge(&m.acts().bytes(D), o));
    r.prop("large payloads", 300, gen::big(), |m, o| judge(&m.acts().bytes(D), o));
    r.prop("huge payloads", 8, gen::huge(), |m, o| judge(&m.acts().bytes(D), o));
    // all that starts an action, with every second byte
    r.each("prefixes", (0..=0xFFFFu32).map(|x| hx(&[(x >> 8) as u8, x as u8])), |b, o| judge(&b.0, o));
    r.prop("prefix and tail", 40_000, {
        (any::<u8>(), gen::byte(), proptest::collection::vec(gen::byte(), 0..40))
            .prop_map(|(a, b, mut v)| {
                v.insert(0, b);
                v.insert(0, a);
                Hex(v)
            })
            .boxed()
    }, |b, o| judge(&b.0, o));
}

// ------------------------------------------------------------------------- C05
pub fn stable(r: &mut Run) {
    fn check(b: &[u8], o: &mut Obs) -> V {
        let c = match Command::from_bytes((b, 0)) {
            Ok((_, c)) => c,
            Err(_) => {
                o.label("refused");
                return Ok(());
            }
        };
        o.nontrivial_if(!c.actions.is_empty());
        let m = ref_cmd(b).map_err(|e| format!("accepted, but {e:?}"))?.0;
        let canon = m.bytes(D);
        o.label(if b.starts_with(&canon) { "canonical" } else { "not canonical" });
        let e1 = encode(&c)?;
        if has_k1(&m) {
            // listed finding: either it is right, or wrong in exactly the listed way
            if e1 == k1_bytes(&m) && e1 != canon {
                o.known("K1 the id of an unknown interface is not kept in an interface status");
                return Ok(());
            }
        }
        ensure!(e1 == canon, "canonical form is {}, got {}", short(hex(&canon)), short(hex(&e1)));
        let c1 = decode(&e1)?;
        ensure!(c1 == c, "{} became {}", short(format!("{c:?}")), short(format!("{c1:?}")));
        let e2 = encode(&c1)?;
        ensure!(e2 == e1, "second encoding {} after {}", short(hex(&e2)), short(hex(&e1)));
        Ok(())
    }
    r.guided("bytes", 80_000, 30_000, hexed(gen::cmd_bytes()), |_| true, |b, o| check(&b.0, o));
    r.guided("commands", 40_000, 15_000, gen::cmd_any(), sane, |m, o| check(&m.bytes(D), o));
    r.prop("many actions", 400, gen::long_any(), |m, o| check(&m.acts().bytes(D), o));
    r.prop("large payloads", 200, gen::big(), |m, o| check(&m.acts().bytes(D), o));
    r.prop("long forms", 40_000, (gen::cmd_any(), proptest::collection::vec(any::<(Index, u8)>(), 0..4)).prop_map(|(m, f)| {
        // flip reserved bits and the like: single bit changes often keep a message acceptable
        let mut b = m.bytes(D);
        for (i, k) in f {
            if !b.is_empty() {
                let n = b.len();
                b[i.index(n)] ^= 1 << (k % 8);
            }
        }
        Hex(b)
    }).boxed(), |b, o| check(&b.0, o));
}

// ------------------------------------------------------------------------- C06
/// A stream that hands out its bytes in small pieces.
pub struct Dribble<'a> {
    pub b: &'a [u8],
    pub pos: u64,
    pub sizes: &'a [u8],
    pub n: usize,
}
impl Read for Dribble<'_> {
    fn read(&mut self, buf: &mut [u8]) -> no_std_io::Result<usize> {
        let k = if self.sizes.is_empty() { 1 } else { self.sizes[self.n % self.sizes.len()] as usize % 5 + 1 };
        self.n += 1;
        let at = (self.pos as usize).min(self.b.len());
        let k = k.min(buf.len()).min(self.b.len() - at);
        buf[..k].copy_from_slice(&self.b[at..at + k]);
        self.pos += k as u64;
        Ok(k)
    }
}
impl Seek for Dribble<'_> {
    fn seek(&mut self, p: no_std_io::SeekFrom) -> no_std_io::Result<u64> {
        let v = match p {
            no_std_io::SeekFrom::Start(x) => x as i64,
            no_std_io::SeekFrom::Current(x) => self.pos as i64 + x,
            no_std_io::SeekFrom::End(x) => self.b.len() as i64 + x,
        };
        if v < 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::InvalidInput));
        }
        self.pos = v as u64;
        Ok(self.pos)
    }
}

fn any_act() -> gen::S<Act> {
    prop_oneof![20 => gen::act_with(gen::query_any(), gen::ifstatus_any()), 1 => gen::indirect()].boxed()
}
pub fn consumption(r: &mut Run) {
    r.guided("action and trailing bytes", 36_000, 12_000, (any_act(), gen::payload()).boxed(), |(m, _)| sane(m), |(m, t), o| {
        o.label(m.kind());
        o.nontrivial_if(!t.is_empty());
        let mut b = m.bytes(D);
        let n = b.len();
        b.extend(t);
        let (rest, a) = Action::from_bytes((&b, 0)).map_err(e2s)?;
        ensure!(rest.0 == &b[n..] && rest.1 % 8 == 0, "left {:?} instead of {}", rest, hex(t));
        same_act(&a, m)?;
        let mut cur = Cursor::new(&b[..]);
        let (bits, a) = Action::from_reader((&mut cur, 0)).map_err(e2s)?;
        ensure!(bits == 8 * n, "claims to have read {bits} bits of {}", 8 * n);
        ensure!(cur.position() == n as u64, "the stream is at {} instead of {n}", cur.position());
        same_act(&a, m)?;
        match Action::try_from(&b[..]) {
            Ok(_) => ensure!(t.is_empty(), "accepted with {} bytes too many", t.len()),
            Err(e) => ensure!(!t.is_empty(), "refused: {}", e2s(e)),
        }
        Ok(())
    });
    r.prop("action cut short", 12_000, any_act(), |m, o| {
        o.label(m.kind());
        let b = m.bytes(D);
        o.nontrivial_if(b.len() > 1);
        for n in cuts(b.len()) {
            ensure!(Action::from_bytes((&b[..n], 0)).is_err(), "accepted after {n} of {} bytes", b.len());
            ensure!(Action::try_from(&b[..n]).is_err(), "accepted whole after {n} of {} bytes", b.len());
        }
        Ok(())
    });
    r.guided("command cut short", 7_000, 3_000, gen::cmd_any(), sane, |m, o| {
        let parts: Vec<Vec<u8>> = m.iter().map(|a| a.bytes(D)).collect();
        let b = parts.concat();
        o.nontrivial_if(m.len() > 1);
        let mut ends = vec![0];
        parts.iter().for_each(|p| ends.push(ends.last().unwrap() + p.len()));
        for n in cuts(b.len()).into_iter().chain(ends.iter().copied()) {
            let got = Command::try_from(&b[..n]);
            match (ends.iter().position(|e| *e == n), got) {
                (Some(k), Ok(c)) => same_cmd(&c, &m[..k]).map_err(|e| format!("cut at {n}: {e}"))?,
                (None, Err(_)) => {}
                (Some(k), Err(e)) => return Err(format!("the first {k} actions are refused: {}", e2s(e))),
                (None, Ok(c)) => return Err(format!("accepted cut at {n} as {c:?}")),
            }
        }
        Ok(())
    });
    r.prop("command and trailing bytes", 10_000, (gen::cmd_any(), gen::indirect(), gen::payload()).boxed(), |(m, i, t), o| {
        let mut m = m.clone();
        if !matches!(m.last(), Some(Act::Indirect(..))) {
            m.push(i.clone());
        }
        o.nontrivial_if(!t.is_empty());
        let mut b = m.bytes(D);
        let n = b.len();
        b.extend(t);
        let (rest, c) = Command::from_bytes((&b, 0)).map_err(e2s)?;
        ensure!(rest.0 == &b[n..], "left {:?} instead of {}", rest, hex(t));
        same_cmd(&c, &m)?;
        let (bits, c) = Command::from_reader((&mut Cursor::new(&b[..]), 0)).map_err(e2s)?;
        ensure!(bits == 8 * n, "claims to have read {bits} bits of {}", 8 * n);
        same_cmd(&c, &m)?;
        match Command::try_from(&b[..]) {
            Ok(_) => ensure!(t.is_empty(), "accepted with {} bytes too many", t.len()),
            Err(e) => ensure!(!t.is_empty(), "refused: {}", e2s(e)),
        }
        Ok(())
    });
    // what is large ends where it should, and nowhere before
    r.prop("large payloads", 120, (gen::big(), gen::payload(), any::<u32>()).boxed(), |(m, t, cut), o| {
        o.nontrivial();
        let x = m.act();
        let mut b = x.bytes(D);
        let n = b.len();
        b.extend(t);
        let mut cur = Cursor::new(&b[..]);
        let (bits, a) = Action::from_reader((&mut cur, 0)).map_err(e2s)?;
        ensure!(bits == 8 * n && cur.position() == n as u64, "read {bits} bits up to {}, of {n} bytes", cur.position());
        same_act(&a, &x)?;
        for k in [*cut as usize % n, n - 1, n.saturating_sub(256), n.saturating_sub(65536)] {
            ensure!(k == n || Action::try_from(&b[..k]).is_err(), "accepted after {k} of {n} bytes");
        }
        Ok(())
    });
    r.prop("many actions", 120, (gen::long_any(), proptest::collection::vec(any::<u8>(), 1..6), any::<u32>()).boxed(), |(m, sizes, cut), o| {
        o.nontrivial();
        let m = m.acts();
        let b = m.bytes(D);
        let mut s = Dribble { b: &b, pos: 0, sizes, n: 0 };
        let (bits, c) = Command::from_reader((&mut s, 0)).map_err(e2s)?;
        same_cmd(&c, &m)?;
        ensure!(bits == 8 * b.len(), "the command claims to have read {bits} bits of {}", 8 * b.len());
        let mut k = *cut as usize % m.len().max(1);
        if let Some(i) = m[..k].iter().position(|a| matches!(a, Act::Indirect(..))) {
            k = i;
        }
        let c = decode(&m[..k].to_vec().bytes(D))?;
        same_cmd(&c, &m[..k])
    });
    r.guided("stream", 14_000, 8_000, (gen::cmd_any(), proptest::collection::vec(any::<u8>(), 0..6)).boxed(), |(m, _)| sane(m), |(m, sizes), o| {
        let b = m.bytes(D);
        o.nontrivial_if(m.len() > 1);
        o.label(if sizes.is_empty() { "stream: byte by byte" } else { "stream: pieces" });
        let mut s = Dribble { b: &b, pos: 0, sizes, n: 0 };
        let mut at = 0;
        for (i, x) in m.iter().enumerate() {
            let (bits, a) = Action::from_reader((&mut s, 0)).map_err(|e| format!("action {i}: {}", e2s(e)))?;
            same_act(&a, x).map_err(|e| format!("action {i}: {e}"))?;
            let n = x.bytes(D).len();
            at += n;
            ensure!(bits == 8 * n, "action {i} claims to have read {bits} bits of {}", 8 * n);
            ensure!(s.pos == at as u64, "after action {i} the stream is at {} instead of {at}", s.pos);
        }
        ensure!(Action::from_reader((&mut s, 0)).is_err(), "an action was read behind the end");
        let mut s = Dribble { b: &b, pos: 0, sizes, n: 0 };
        let (bits, c) = Command::from_reader((&mut s, 0)).map_err(e2s)?;
        same_cmd(&c, m)?;
        ensure!(bits == 8 * b.len(), "the command claims to have read {bits} bits of {}", 8 * b.len());
        Ok(())
    });
    r.prop("file", 15_000, (gen::typed_file(), gen::payload()).boxed(), |((id, f), t), o| {
        use dash7::file::{File, FileId};
        o.nontrivial();
        o.label(format!("file {id:02x}"));
        let mut b = f.bytes(D);
        let n = b.len();
        let fid = || FileId::try_from(*id).unwrap();
        for k in cuts(n) {
            ensure!(File::from_bytes((&b[..k], 0), fid(), k as u32).is_err(), "accepted after {k} of {n} bytes");
        }
        b.extend(t);
        let (rest, got) = File::from_bytes((&b, 0), fid(), b.len() as u32).map_err(e2s)?;
        ensure!(rest.0 == &b[n..], "left {:?} instead of {}", rest, hex(t));
        ensure!(got == conv::file(f), "decoded {got:?}");
        Ok(())
    });
    r.prop("raw file", 10_000, (gen::payload(), gen::payload()).boxed(), |(f, t), o| {
        use dash7::file::{File, FileId};
        o.nontrivial_if(!f.is_empty());
        let mut b = f.clone();
        b.extend(t);
        let (rest, got) = File::from_bytes((&b, 0), FileId::Other, f.len() as u32).map_err(e2s)?;
        ensure!(rest.0 == t.as_slice(), "left {:?} instead of {}", rest, hex(t));
        ensure!(got == File::Other(f.clone()), "decoded {got:?}");
        if !f.is_empty() {
            ensure!(
                File::from_bytes((&f[..f.len() - 1], 0), FileId::Other, f.len() as u32).is_err(),
                "accepted with a byte missing"
            );
        }
        Ok(())
    });
    r.guided("frames", 8_000, 4_000, (gen::fg_with(gen::net_with(gen::trans_with(gen::cmd()))), gen::bg(), gen::payload()).boxed(), |(f, g, _)| sane(f) && sane(g), |(f, g, t), o| {
        use dash7::link::{BackgroundFrame, ForegroundFrame};
        o.nontrivial();
        let mut b = f.bytes(D);
        let n = b.len();
        for k in cuts(n) {
            ensure!(ForegroundFrame::from_bytes((&b[..k], 0)).is_err(), "foreground: accepted after {k} of {n} bytes");
        }
        b.extend(t);
        let (rest, _) = ForegroundFrame::from_bytes((&b, 0)).map_err(e2s)?;
        ensure!(rest.0 == &b[n..], "foreground: left {:?} instead of {}", rest, hex(t));
        ensure!(ForegroundFrame::try_from(&b[..]).is_ok() == t.is_empty(), "foreground: strictness");
        let mut b = g.bytes(D);
        for k in 0..6 {
            ensure!(BackgroundFrame::from_bytes((&b[..k], 0)).is_err(), "background: accepted after {k} bytes");
        }
        b.extend(t);
        let (rest, _) = BackgroundFrame::from_bytes((&b, 0)).map_err(e2s)?;
        ensure!(rest.0 == &b[6..], "background: left {:?}", rest);
        ensure!(BackgroundFrame::try_from(&b[..]).is_ok() == t.is_empty(), "background: strictness");
        Ok(())
    });
}

// ------------------------------------------------------------------------- C07
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prefixed {
    before: Vec<Act>,
    /// opcode byte, and what stands before the length
    head: Hex,
    /// size class of the length field, at least the minimal one
    form: u8,
    payload: Hex,
    /// how the announced length differs from the payload
    delta: i32,
    after: Vec<Act>,
}
fn long_len(v: u32, form: u8) -> Vec<u8> {
    let min = len_bytes(v).len() as u8 - 1;
    let s = form.max(min).min(3) as u32;
    (v | s << (6 + 8 * s)).to_be_bytes()[3 - s as usize..].to_vec()
}
impl Prefixed {
    fn bytes(&self) -> (Vec<u8>, usize) {
        let mut b = self.before.bytes(D);
        b.extend(&self.head.0);
        let n = (self.payload.0.len() as i64 + self.delta as i64).clamp(0, (1 << 30) - 1);
        b.extend(long_len(n as u32, self.form));
        b.extend(&self.payload.0);
        b.extend(self.after.bytes(D));
        (b, n as usize)
    }
}
pub fn containment(r: &mut Run) {
    use dash7::file::File as LFile;
    let few = || proptest::collection::vec(gen::act_no_indirect(), 0..3).boxed();
    let head = prop_oneof![
        // file data to any file
        4 => (0u8..4, proptest::sample::select(vec![4u8, 5, 32]), gen::byte(), gen::len30()).prop_map(|(f, o, id, off)| {
            let mut h = vec![f << 6 | o, id];
            h.extend(len_bytes(off));
            h
        }),
        4 => (0u8..4, proptest::sample::select(vec![4u8, 5, 32]), proptest::sample::select((0..=0x2F).collect::<Vec<u8>>())).prop_map(|(f, o, id)| vec![f << 6 | o, id, 0]),
        // interface status
        3 => proptest::sample::select(vec![0u8, 1, 2, 3, 0xD7, 0xD7, 0xD7, 0xD7]).prop_map(|i| vec![0x62, i]),
        1 => gen::unknown_if().prop_map(|i| vec![0x62, i]),
        // final and tx status (refused outside the wizzilab dialect)
        1 => prop_oneof![Just(0xD7u8), any::<u8>()].prop_map(|i| vec![0xA2, i]),
        1 => prop_oneof![Just(0xD7u8), any::<u8>()].prop_map(|i| vec![0x66, i]),
    ].boxed();
    let body = prop_oneof![
        4 => gen::typed_file().prop_map(|(_, f)| f.bytes(D)),
        3 => gen::mutated(gen::typed_file().prop_map(|(_, f)| f.bytes(D)).boxed()),
        3 => gen::d7status().prop_map(|s| s.bytes(D)),
        2 => gen::mutated(gen::d7status().prop_map(|s| s.bytes(D)).boxed()),
        2 => gen::txst().prop_map(|s| s.bytes(D)),
        1 => gen::mutated(gen::txst().prop_map(|s| s.bytes(D)).boxed()),
        4 => gen::payload_any(),
        // a payload that looks like actions
        2 => gen::cmd().prop_map(|c| c.bytes(D)),
    ].boxed();
    // the file id and the format of the payload agree often enough only if paired
    let paired = (few(), 0u8..4, proptest::sample::select(vec![4u8, 5, 32]), gen::typed_file(), 0u8..4, gen::payload(), any::<(Index, u8)>(), few())
        .prop_map(|(before, f, op, (id, file), form, extra, (cut, k), after)| {
            let mut p = file.bytes(D);
            match k % 4 {
                0 => {}
                1 => p.truncate(cut.index(p.len() + 1)),
                2 => p.extend(extra),
                _ => {
                    let i = cut.index(p.len().max(1));
                    if let Some(x) = p.get_mut(i) {
                        *x ^= 1 << (k / 4 % 8);
                    }
                }
            }
            Prefixed { before, head: hx(&[f << 6 | op, id, 0]), form, payload: Hex(p), delta: 0, after }
        })
        .boxed();
    let free = (few(), head, 0u8..4, body, prop_oneof![6 => Just(0i32), 2 => -3i32..4, 1 => -70i32..70, 1 => 0i32..1 << 29], few())
        .prop_map(|(before, h, form, payload, delta, after)| Prefixed { before, head: Hex(h), form, payload: Hex(payload), delta, after })
        .boxed();
    // what the layout says about the same bytes
    let check = |c: &Prefixed, o: &mut Obs| -> V {
        let (b, n) = c.bytes();
        o.nontrivial();
        o.label(match c.head.0[0] & 0x3F {
            34 => "status",
            38 => "tx status",
            _ => "file data",
        });
        o.label(match c.delta {
            0 => "announced: exact",
            1.. => "announced: more",
            _ => "announced: less",
        });
        super::messages::judge(&b, &mut Obs::default())?;
        // independent of the reference: the action takes up its announced length and nothing else
        let start = c.before.bytes(D).len();
        let end = start + c.head.0.len() + long_len(n as u32, c.form).len() + n;
        let got = Action::from_bytes((&b[start..], 0));
        match got {
            Ok((rest, a)) => {
                o.label("accepted");
                ensure!(end <= b.len(), "accepted although {} bytes are missing", end - b.len());
                ensure!(rest.0 == &b[end..], "the action ends at {} instead of {end}", b.len() - rest.0.len());
                // encoded again, the length is that of the payload
                let e = a.to_bytes().map_err(e2s)?;
                let k1 = matches!(a, Action::Status(StatusOperand { status: Status::Interface(InterfaceStatusOperation { status: InterfaceStatus::Other(_), .. }), .. }));
                if !k1 {
                    let back = Action::from_bytes((&e, 0)).map_err(e2s)?;
                    ensure!(back.0 .0.is_empty() && back.1 == a, "encodes to {}", hex(&e));
                }
            }
            Err(_) => {
                o.label("refused");
                let data = matches!(c.head.0[0] & 0x3F, 4 | 5 | 32);
                ensure!(!data || end > b.len(), "file data is refused although all of it is there");
            }
        }
        Ok(())
    };
    r.prop("file data", 40_000, paired, check);
    r.prop("any payload", 60_000, free, check);
    r.prop("large payloads", 300, (gen::big(), 0u8..4, prop_oneof![3 => Just(0i32), 1 => -300i32..300, 1 => -70_000i32..70_000], few()).boxed(), |(m, form, delta, after), o| {
        let Act::Data(op, _, off, f) = (gen::Big { kind: 13, ..m.clone() }).act() else { unreachable!() };
        let mut head = vec![op, off.id];
        head.extend(len_bytes(off.off));
        check(&Prefixed { before: m.before.clone(), head: Hex(head), form: *form, payload: Hex(f.bytes(D)), delta: *delta, after: after.clone() }, o)
    });
    // encoding: whatever file is put into whatever file data
    r.prop("encoded length", 20_000, (gen::byte(), gen::typed_file(), gen::payload_any(), any::<bool>(), gen::len30()).boxed(), |(id, (_, f), raw, typed, off), o| {
        o.nontrivial();
        let f = if *typed { f.clone() } else { File::Other(raw.clone()) };
        let a = Action::WriteFileData(FileData::new(
            ActionHeader::new(false, false),
            FileOffset { file_id: *id, offset: (*off).into() },
            conv::file(&f),
            dash7::app::action::OpCode::WRITE_FILE_DATA,
        ));
        let e = a.to_bytes().map_err(e2s)?;
        let p = f.bytes(D);
        let mut want = vec![4, *id];
        want.extend(len_bytes(*off));
        want.extend(len_bytes(p.len() as u32));
        want.extend(&p);
        ensure!(e == want, "expected {}, got {}", short(hex(&want)), short(hex(&e)));
        let _ = LFile::Other(vec![]);
        Ok(())
    });
}

// ------------------------------------------------------------------------- C14
fn tags() -> gen::S<Vec<Act>> {
    let a = prop_oneof![
        3 => (any::<bool>(), any::<bool>(), gen::byte()).prop_map(|(eop, err, id)| Act::ResponseTag { eop, err, id }),
        3 => (any::<bool>(), gen::byte()).prop_map(|(eop, id)| Act::RequestTag { eop, id }),
        3 => gen::ifstatus_any().prop_map(Act::IfStatus),
        1 => (gen::byte(), gen::byte()).prop_map(|(a, b)| Act::ActionStatus(a, b)),
        3 => gen::act(),
    ];
    prop_oneof![4 => proptest::collection::vec(a.clone(), 0..6), 1 => proptest::collection::vec(a, 6..25)].boxed()
}
pub fn accessors(r: &mut Run) {
    let check = |m: &Vec<Act>, o: &mut Obs| -> V {
        let c = build(m)?;
        let req = m.iter().find_map(|a| if let Act::RequestTag { eop, id } = a { Some((*eop, *id)) } else { None });
        let resp = m.iter().find_map(|a| if let Act::ResponseTag { eop, err, id } = a { Some((*eop, *err, *id)) } else { None });
        let ifs = m.iter().find_map(|a| if let Act::IfStatus(s) = a { Some(conv::ifstatus(s)) } else { None });
        let n = |f: fn(&Act) -> bool| m.iter().filter(|a| f(a)).count();
        let (nq, np, ni) = (n(|a| matches!(a, Act::RequestTag { .. })), n(|a| matches!(a, Act::ResponseTag { .. })), n(|a| matches!(a, Act::IfStatus(_))));
        o.label(format!("request tags: {}, response tags: {}, statuses: {}", nq.min(2), np.min(2), ni.min(2)));
        o.nontrivial_if(nq + np + ni > 0 && m.len() > 1);
        let got = c.request_id();
        ensure!(got == req.map(|t| t.1), "request id {got:?} instead of {req:?}");
        let got = c.response_id();
        ensure!(got == resp.map(|t| t.2), "response id {got:?} instead of {resp:?}");
        let want = req.map(|t| t.1).or(resp.map(|t| t.2));
        ensure!(c.tag_id() == want, "tag id {:?} instead of {want:?}", c.tag_id());
        let want = resp.is_some_and(|t| t.0);
        ensure!(c.is_last_response() == want, "last response {} instead of {want}", c.is_last_response());
        let got = c.request_tag().map(|t| (t.header.end_of_packet, t.id));
        ensure!(got == req, "request tag {got:?} instead of {req:?}");
        let got = c.response_tag().map(|t| (t.header.end_of_packet, t.header.error, t.id));
        ensure!(got == resp, "response tag {got:?} instead of {resp:?}");
        ensure!(c.interface_status() == ifs.as_ref(), "interface status {:?} instead of {ifs:?}", c.interface_status());
        let want: Vec<&Action> = c.actions.iter().zip(m).filter(|(_, m)| !matches!(m, Act::IfStatus(_))).map(|p| p.0).collect();
        let got = c.actions_without_interface_status();
        ensure!(got == want, "actions {} instead of {}", short(format!("{got:?}")), short(format!("{want:?}")));
        Ok(())
    };
    r.guided("tags and statuses", 50_000, 15_000, tags(), sound, check);
    r.prop("commands", 20_000, gen::cmd(), check);
    // the first tag or status may come late
    r.prop("many actions", 1_500, (gen::long(), tags(), tags()).boxed(), |(m, x, y), o| check(&[x.clone(), m.acts(), y.clone()].concat(), o));
    // the same answers from a decoded command
    r.guided("decoded", 20_000, 8_000, tags(), sound, |m, o| {
        let m: Vec<Act> = m.iter().filter(|a| !matches!(a, Act::Indirect(..))).cloned().collect();
        o.nontrivial_if(m.len() > 1);
        let c = decode(&m.bytes(D))?;
        let b = build(&m)?;
        ensure!(
            (c.request_id(), c.response_id(), c.tag_id(), c.is_last_response()) == (b.request_id(), b.response_id(), b.tag_id(), b.is_last_response()),
            "differs once decoded"
        );
        ensure!(c.interface_status() == b.interface_status(), "interface status differs once decoded");
        ensure!(c.actions_without_interface_status() == b.actions_without_interface_status(), "actions differ once decoded");
        Ok(())
    });
}

// ------------------------------------------------------------------------- C15
fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).collect()
}
pub fn display(r: &mut Run) {
    let check = |m: &Vec<Act>, o: &mut Obs| -> V {
        let c = build(m)?;
        let text = c.to_string();
        let tag = m
            .iter()
            .find_map(|a| if let Act::RequestTag { id, .. } = a { Some(*id) } else { None })
            .or(m.iter().find_map(|a| if let Act::ResponseTag { id, .. } = a { Some(*id) } else { None }));
        let state = match m.iter().find_map(|a| if let Act::ResponseTag { eop, err, .. } = a { Some((*eop, *err)) } else { None }) {
            Some((true, true)) => "completed, with error",
            Some((true, false)) => "completed, without error",
            _ => "executing",
        };
        let shown: Vec<&Action> = c.actions.iter().zip(m).filter(|(_, m)| !matches!(m, Act::IfStatus(_))).map(|p| p.0).collect();
        let status = m.iter().find_map(|a| if let Act::IfStatus(s) = a { Some(s) } else { None });
        o.label(state);
        o.label(if tag.is_some() { "tag" } else { "no tag" });
        o.label(if status.is_some() { "interface status" } else { "no interface status" });
        o.nontrivial_if(!m.is_empty());
        // head: the tag and the state, up to the first action or the status
        let mut want: Vec<String> = vec!["Command".into()];
        if let Some(t) = tag {
            want.extend(["with".into(), "tag".into(), t.to_string()]);
        }
        want.extend(words(state).iter().map(|w| w.to_string()));
        if !shown.is_empty() {
            want.push("actions".into());
        }
        let mut rest = text.as_str();
        for (i, a) in shown.iter().enumerate() {
            let d = format!("{a:?}");
            let at = rest.find(&d).ok_or_else(|| format!("action {i} ({}) is not shown in order in {}", short(&d), short(&text)))?;
            let gap = words(&rest[..at]);
            if i == 0 {
                ensure!(gap == want, "the head says {gap:?} instead of {want:?}");
            } else {
                ensure!(gap.is_empty(), "unexpected text before action {i}: {}", short(&rest[..at]));
            }
            rest = &rest[at + d.len()..];
        }
        let tail = match (shown.is_empty(), rest.find("interface status")) {
            (true, Some(at)) => {
                let gap = words(&rest[..at]);
                ensure!(gap == want, "the head says {gap:?} instead of {want:?}");
                &rest[at..]
            }
            (true, None) => {
                let gap = words(rest);
                ensure!(gap == want, "the head says {gap:?} instead of {want:?}");
                ""
            }
            (false, Some(at)) => {
                ensure!(words(&rest[..at]).is_empty(), "unexpected text: {}", short(&rest[..at]));
                &rest[at..]
            }
            (false, None) => {
                ensure!(words(rest).is_empty(), "unexpected text: {}", short(rest));
                ""
            }
        };
        match status {
            None => ensure!(tail.is_empty(), "an interface status is shown: {tail}"),
            Some(s) => {
                let needles: Vec<String> = match s {
                    IfStatus::Host => vec!["Host".into()],
                    IfStatus::Serial => vec!["Serial".into()],
                    IfStatus::Unknown(_, b) => vec!["Other".into(), format!("{b:?}")],
                    IfStatus::D7(s) => vec![
                        "Dash7".into(),
                        format!("channel: {:?}", conv::channel(&s.ch)),
                        format!("rx_level: {:?},", s.rx),
                        format!("link_budget: {:?},", s.lb),
                        format!("target_rx_level: {:?},", s.target),
                        format!("nls: {:?},", s.nls),
                        format!("missed: {:?},", s.missed),
                        format!("retry: {:?},", s.retry),
                        format!("unicast: {:?},", s.unicast),
                        format!("fifo_token: {:?},", s.fifo),
                        format!("sequence_number: {:?},", s.seq),
                        format!("response_timeout: {:?},", s.rto),
                        format!("addressee: {:?}", conv::addressee(&s.from)),
                    ],
                };
                let mut at = 0;
                for n in &needles {
                    // "rx_level" must not be found inside "target_rx_level"
                    let found = tail[at..].match_indices(n.as_str()).find(|(i, _)| {
                        let before = tail[..at + i].chars().next_back();
                        n.starts_with(|c: char| !c.is_alphanumeric()) || !before.is_some_and(|c| c.is_alphanumeric() || c == '_')
                    });
                    let (i, _) = found.ok_or_else(|| format!("the status does not show {n:?} in order: {}", short(tail)))?;
                    at += i + n.len();
                }
                ensure!(words(&tail[at..]).iter().all(|w| *w == "InterfaceStatus"), "unexpected text behind the status: {}", short(&tail[at..]));
            }
        }
        // the status alone reads the same
        if let Some(s) = status {
            let alone = conv::ifstatus(s).to_string();
            ensure!(text.contains(&alone), "the status alone reads {alone}");
        }
        Ok(())
    };
    r.guided("tags and statuses", 30_000, 15_000, tags(), sound, check);
    r.prop("commands", 15_000, gen::cmd(), check);
    r.prop("many actions", 400, (gen::long(), tags(), tags()).boxed(), |(m, x, y), o| check(&[x.clone(), m.acts(), y.clone()].concat(), o));
    r.prop("large payloads", 40, gen::big(), |m, o| check(&m.acts(), o));
}

// ------------------------------------------------------------------------- C22
pub fn concat(r: &mut Run) {
    let body = || gen::cmd_with(gen::act_no_indirect());
    let plain = || proptest::collection::vec(gen::act_no_indirect(), 0..5).boxed();
    r.guided("command is its actions", 30_000, 8_000, body(), sound, |m, o| {
        o.nontrivial_if(m.len() > 1);
        let c = build(m)?;
        let whole = encode(&c)?;
        let mut parts = vec![];
        for a in &c.actions {
            parts.extend(a.to_bytes().map_err(e2s)?);
        }
        ensure!(whole == parts, "{} as a whole, {} in parts", short(hex(&whole)), short(hex(&parts)));
        Ok(())
    });
    let joined = |x: &Vec<Act>, y: &Vec<Act>, o: &mut Obs| -> V {
        o.nontrivial_if(!x.is_empty() && !y.is_empty());
        let (cx, cy) = (build(x)?, build(y)?);
        let (ex, ey) = (encode(&cx)?, encode(&cy)?);
        let joined = [ex.clone(), ey.clone()].concat();
        let mut both = cx.actions.clone();
        both.extend(cy.actions.clone());
        let both = Command::new(both);
        ensure!(encode(&both)? == joined, "the joined command encodes differently");
        let back = decode(&joined)?;
        ensure!(back == both, "joined bytes decode to {}", short(format!("{back:?}")));
        Ok(())
    };
    r.guided("joined commands", 40_000, 15_000, (plain(), body()).boxed(), |(x, y)| sound(x) && sound(y) && !x.iter().any(|a| matches!(a, Act::Indirect(..))), |(x, y), o| joined(x, y, o));
    r.prop("many actions", 400, (gen::long(), gen::long()).boxed(), |(x, y), o| joined(&x.acts(), &y.acts(), o));
    r.prop("large payloads", 200, (gen::big(), gen::big()).boxed(), |(x, y), o| joined(&x.acts(), &y.acts(), o));
    // arbitrary accepted bytes in front, arbitrary bytes behind
    r.prop("joined bytes", 30_000, (hexed(gen::cmd_bytes()), hexed(gen::cmd_bytes())).boxed(), |(x, y), o| {
        let (x, y) = (&x.0, &y.0);
        let cx = match Command::try_from(x.as_slice()) {
            Ok(c) if !matches!(c.actions.last(), Some(Action::IndirectForward(_))) => c,
            _ => return Ok(()),
        };
        let joined = [x.as_slice(), y.as_slice()].concat();
        let got = Command::try_from(joined.as_slice());
        match (Command::try_from(y.as_slice()), got) {
            (Ok(cy), Ok(c)) => {
                o.nontrivial_if(!cx.actions.is_empty() && !cy.actions.is_empty());
                let mut both = cx.actions;
                both.extend(cy.actions);
                ensure!(c.actions == both, "joined bytes decode to {}", short(format!("{c:?}")));
            }
            (Err(_), Err(_)) => o.label("second refused"),
            (Ok(_), Err(e)) => return Err(format!("refused when joined: {}", e2s(e))),
            (Err(_), Ok(c)) => return Err(format!("the second is refused alone but accepted behind: {}", short(format!("{c:?}")))),
        }
        Ok(())
    });
    r.prop("pairs", 40_000, (gen::act_no_indirect(), gen::act()).boxed(), |(x, y), o| {
        o.nontrivial();
        o.label(format!("first {}", x.kind()));
        o.label(format!("second {}", y.kind()));
        let (ax, ay) = (conv::act(x).ok_or("build")?, conv::act(y).ok_or("build")?);
        let b = [ax.to_bytes().map_err(e2s)?, ay.to_bytes().map_err(e2s)?].concat();
        let c = decode(&b)?;
        ensure!(c.actions == [ax, ay], "decodes to {}", short(format!("{c:?}")));
        Ok(())
    });
}
