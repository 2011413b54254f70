//! Numbers, derived fields, files and limits: C08, C09, C10, C11, C13.
use super::*;
use crate::model::{Act, Addr, Addressee, File, Query};
use crate::gen;
use crate::run::{Obs, Run, V};
use dash7::app::interface::{Dash7InterfaceConfiguration, LoRaWANInterfaceConfiguration, LoRaWANOTAAInterfaceConfiguration, LoRaWANABPInterfaceConfiguration, InterfaceConfiguration, IndirectInterface};
use dash7::app::operation::{self, ActionHeader, FileData, ReadFileData, ActionQuery, StatusType, Status, InterfaceStatusOperation, Forward, IndirectForward, Length};
#[cfg(feature = "wizzilab")]
use dash7::app::operation::{TxStatus};
use dash7::app::query::{self as q, NonVoid, ComparisonWithZero, ComparisonWithValue, ComparisonWithOtherFile, BitmapRangeComparison, StringTokenSearch};
use dash7::file::{self, File as LFile, FileId as LId, SystemFile};
use dash7::link::AccessClass;
use dash7::session::{InterfaceType, InterfaceStatus};
#[cfg(feature = "wizzilab")]
use dash7::session::{InterfaceTxStatus};
use dash7::types::{VarInt, VarIntError};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------------- C08
fn length(v: u32) -> V {
    let l: Length = v.into();
    let back: u32 = l.into();
    ensure!(back == v, "{v} converts to {back}");
    let wide: usize = l.into();
    ensure!(wide == v as usize && Length::from(v as usize) == l, "{v} converts to {wide}");
    for far in [1usize << 32, 1 << 33, 1 << 62] {
        let e = Length::from(v as usize | far).to_bytes();
        ensure!(e.is_err(), "{} is written as {e:?}", v as usize | far);
    }
    let e = l.to_bytes();
    if v >= 1 << 30 {
        ensure!(e.is_err(), "{v} is written as {e:?}");
        let off = operation::FileOffset { file_id: 1, offset: l }.to_bytes();
        ensure!(off.is_err(), "{v} is written as an offset: {off:?}");
        return Ok(());
    }
    let e = e.map_err(e2s)?;
    let want = len_bytes(v);
    ensure!(e == want, "{v} is written as {}, expected {}", hex(&e), hex(&want));
    let (rest, back) = Length::from_bytes((&e, 0)).map_err(e2s)?;
    ensure!(rest.0.is_empty() && back == l, "{v} reads back as {back:?}");
    Ok(())
}
fn length_bytes(b: &[u8]) -> V {
    match (Len::parse(b, D), Length::from_bytes((b, 0))) {
        (Ok((Len(v), used)), Ok((rest, l))) => {
            ensure!(l == Length::from(v), "{} reads as {l:?} instead of {v}", hex(b));
            ensure!(rest.0 == &b[used..], "{} leaves {:?}", hex(b), rest);
        }
        (Err(_), Err(_)) => {}
        (_, got) => return Err(format!("{}: {got:?}", hex(b))),
    }
    Ok(())
}
pub fn lengths(r: &mut Run) {
    let top = if r.thorough { 1 << 23 } else { 1 << 18 };
    r.each("small numbers", 0..top, |v, o| {
        o.nontrivial_if(*v > 63);
        length(*v)
    });
    let mut edges = vec![];
    for k in 0..32u32 {
        for d in -70i64..70 {
            let v = (1i64 << k) + d;
            if (0..=u32::MAX as i64).contains(&v) {
                edges.push(v as u32);
            }
        }
    }
    edges.extend(u32::MAX - 300..=u32::MAX);
    r.each("around powers of two", edges.into_iter(), |v, o| {
        o.nontrivial();
        length(*v)
    });
    r.prop("numbers", 200_000, prop_oneof![any::<u32>(), (any::<u32>(), 0u32..32).prop_map(|(v, s)| v >> s)].boxed(), |v, o| {
        o.label(if *v >= 1 << 30 { "too large".to_string() } else { format!("{} bytes", len_bytes(*v).len()) });
        o.nontrivial_if(*v > 63);
        length(*v)
    });
    r.each("two bytes", (0..=0xFFFFu32).map(|x| (x as u16).to_be_bytes().to_vec()), |b, o| {
        o.nontrivial();
        length_bytes(b)?;
        length_bytes(&b[..1])
    });
    r.prop("bytes", 100_000, vec(gen::byte(), 0..7).boxed(), |b, o| {
        o.nontrivial_if(b.len() > 1);
        length_bytes(b)
    });
    r.prop("in a message", 30_000, (gen::byte(), gen::len30(), gen::len30(), 0u8..4, 0u8..4).boxed(), |(id, a, b, fa, fb), o| {
        o.nontrivial();
        let long = |v: u32, f: u8| {
            let s = (f as usize).max(len_bytes(v).len() - 1) as u32;
            (v | s << (6 + 8 * s)).to_be_bytes()[3 - s as usize..].to_vec()
        };
        let m = [vec![0x41, *id], long(*a, *fa), long(*b, *fb)].concat();
        let c = decode(&m)?;
        same_cmd(&c, &[Act::Read(H { g: false, r: true }, Off { id: *id, off: *a }, *b)])?;
        let e = encode(&c)?;
        let want = [vec![0x41, *id], len_bytes(*a), len_bytes(*b)].concat();
        ensure!(e == want, "encodes to {}, expected {}", hex(&e), hex(&want));
        Ok(())
    });
}

// ------------------------------------------------------------------------- C09
/// The closest number the format can hold, by trying every byte.
fn best(v: u32, ceil: bool) -> (u8, u8, u32) {
    for e in 0..8u8 {
        let step = 4u32.pow(e as u32);
        if v <= 31 * step {
            let m = if ceil { v.div_ceil(step) } else { v / step };
            return (e, m as u8, m * step);
        }
    }
    unreachable!()
}
fn varint(v: u32, ceil: bool) -> V {
    if v > MAX_VARINT {
        ensure!(!VarInt::is_valid(v), "{v} counts as valid");
        ensure!(VarInt::new(v, ceil) == Err(VarIntError::ValueTooLarge(v)), "{v} can be made");
        ensure!(VarInt::compress(v, ceil) == Err(VarIntError::ValueTooLarge(v)), "{v} is compressed");
        for x in [VarInt::new_unchecked(v, ceil), VarInt::from(v)] {
            ensure!(x.to_bytes().is_err(), "{v} is encoded as {:?}", x.to_bytes());
        }
        return Ok(());
    }
    let (e, m, value) = best(v, ceil);
    ensure!(VarInt::is_valid(v), "{v} does not count as valid");
    let got = VarInt::compress(v, ceil);
    ensure!(got == Ok((e, m)), "{v} is compressed to {got:?} instead of {:?}", (e, m));
    let x = VarInt::new(v, ceil).map_err(|e| format!("{v}: {e:?}"))?;
    ensure!(x == VarInt::new_unchecked(v, ceil), "the constructors differ");
    let back: u32 = x.into();
    ensure!(back == v, "{v} converts to {back}");
    let b = x.to_bytes().map_err(e2s)?;
    ensure!(b == [e << 5 | m], "{v} is written as {}", hex(&b));
    let (rest, back) = VarInt::from_bytes((&b, 0)).map_err(e2s)?;
    let n: u32 = back.into();
    ensure!(rest.0.is_empty() && n == value, "{v} reads back as {n} instead of {value}");
    ensure!(if ceil { n >= v } else { n <= v }, "{v} is rounded the wrong way to {n}");
    if n == v && !ceil {
        ensure!(back == x, "not equal to itself once decoded");
    }
    Ok(())
}
pub fn varints(r: &mut Run) {
    // every number, in blocks to keep the bookkeeping small
    let block = 64u32;
    r.each("all numbers", 0..=MAX_VARINT / block, |i, o| {
        o.nontrivial_if(*i > 0);
        for v in i * block..((i + 1) * block).min(MAX_VARINT + 1) {
            varint(v, false)?;
            varint(v, true)?;
        }
        Ok(())
    });
    r.each("just too large", MAX_VARINT + 1..MAX_VARINT + 3000, |v, o| {
        o.nontrivial();
        varint(*v, false)?;
        varint(*v, true)
    });
    r.prop("numbers", 60_000, (prop_oneof![gen::u32b(), (MAX_VARINT - 40..MAX_VARINT + 40), 0..MAX_VARINT], any::<bool>()).boxed(), |(v, c), o| {
        o.label(if *v > MAX_VARINT { "too large" } else { "in range" });
        o.nontrivial_if(*v > 31);
        varint(*v, *c)
    });
    r.each("exponents and mantissas", 0..=0xFFFFu32, |x, o| {
        o.nontrivial();
        let (e, m) = ((*x >> 8) as u8, *x as u8);
        let got = VarInt::decompress(e, m);
        let ok = match &got {
            Ok(v) => e < 8 && m < 32 && *v == (m as u32) << (2 * e),
            Err(VarIntError::ExponentTooLarge(y)) => e >= 8 && *y == e,
            Err(VarIntError::MantissaTooLarge(y)) => m >= 32 && *y == m,
            Err(_) => false,
        };
        ensure!(ok, "exponent {e}, mantissa {m}: {got:?}");
        Ok(())
    });
    r.each("bytes", 0..=255u8, |b, o| {
        o.nontrivial();
        let two = [*b, 0xAA];
        let (rest, x) = VarInt::from_bytes((&two, 0)).map_err(e2s)?;
        ensure!(rest.0 == [0xAA], "leaves {:?}", rest);
        let v: u32 = x.into();
        ensure!(v == varint_value(*b), "{b:02x} reads as {v}");
        let e = x.to_bytes().map_err(e2s)?;
        ensure!(e == [varint_byte(v)], "{b:02x} ({v}) is written as {}", hex(&e));
        let (_, y) = VarInt::from_bytes((&e, 0)).map_err(e2s)?;
        ensure!(x == y, "{b:02x}: not equal once encoded and decoded");
        Ok(())
    });
}

// ------------------------------------------------------------------------- C10
#[derive(Clone, Debug, Serialize, Deserialize)]
enum AStep {
    Addr(Addr),
    Nls(u8, [u8; 5]),
    Class(u8, u8),
    Group(u8),
    Vid(bool),
    Update,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum QStep {
    Mask(Vec<u8>),
    Value(Vec<u8>),
    Params(bool, u8),
    File(Off),
    File2(Off),
    Len(u32),
    Start(u32),
    Stop(u32),
    Errs(u8),
    Update,
}
impl AStep {
    fn fits(&self) -> bool {
        match self {
            AStep::Addr(Addr::NbId(n)) => *n <= MAX_VARINT && varint_value(varint_byte(*n)) == *n,
            AStep::Addr(_) | AStep::Vid(_) | AStep::Update => true,
            AStep::Nls(m, _) => *m < 8,
            AStep::Class(a, b) => *a < 16 && *b < 16,
            AStep::Group(g) => *g < 4,
        }
    }
}
impl QStep {
    fn fits(&self) -> bool {
        match self {
            QStep::Mask(_) | QStep::Value(_) | QStep::Update => true,
            QStep::Params(_, c) => *c < 6,
            QStep::File(o) | QStep::File2(o) => o.off < 1 << 30,
            QStep::Len(n) | QStep::Start(n) | QStep::Stop(n) => *n < 1 << 30,
            QStep::Errs(n) => *n < 8,
        }
    }
}
fn same_after<T>(what: &str, got: &T, want: &T, refbytes: Option<Vec<u8>>) -> V
where
    T: DekuContainerWrite + for<'a> DekuContainerRead<'a> + PartialEq + std::fmt::Debug,
{
    ensure!(got == want, "{what}: {} instead of {}", short(format!("{got:?}")), short(format!("{want:?}")));
    if let Some(w) = refbytes {
        let e = got.to_bytes().map_err(|e| format!("{what}: {}", e2s(e)))?;
        ensure!(e == w, "{what}: encodes to {} instead of {}", short(hex(&e)), short(hex(&w)));
        let (rest, back) = T::from_bytes((&e, 0)).map_err(e2s)?;
        ensure!(rest.0.is_empty() && &back == got, "{what}: decodes to {}", short(format!("{back:?}")));
    }
    Ok(())
}
pub fn derived(r: &mut Run) {
    let astep = prop_oneof![
        3 => gen::addr().prop_map(AStep::Addr),
        3 => (0u8..8, any::<[u8; 5]>()).prop_map(|(m, s)| AStep::Nls(m, s)),
        1 => (0u8..16, 0u8..16).prop_map(|(a, b)| AStep::Class(a, b)),
        1 => (0u8..4).prop_map(AStep::Group),
        1 => any::<bool>().prop_map(AStep::Vid),
        2 => Just(AStep::Update),
    ];
    r.guided("addressee", 40_000, 12_000, (gen::addressee(), vec(astep, 0..12)).boxed(), |(m, s)| sane(m) && s.iter().all(AStep::fits), |(m, steps), o| {
        o.nontrivial_if(steps.len() > 1);
        let mut m = m.clone();
        let mut a = conv::addressee(&m);
        same_after("new", &a, &conv::addressee(&m), Some(m.bytes(D)))?;
        for s in steps.iter().chain([&AStep::Update]) {
            match s {
                AStep::Addr(x) => {
                    m.addr = x.clone();
                    a.address = conv::addr(x);
                }
                AStep::Nls(k, s) => {
                    m.nls = *k;
                    m.nls_state = if *k == 0 { vec![] } else { s.to_vec() };
                    a.nls_state = conv::nls(*k, s);
                }
                AStep::Class(x, y) => {
                    (m.spec, m.mask) = (*x, *y);
                    a.access_class = AccessClass::new(*x, *y);
                }
                #[cfg(feature = "wizzilab")]
                AStep::Group(g) => {
                    m.gc = *g;
                    a.group_condition = conv::group(*g);
                }
                #[cfg(feature = "wizzilab")]
                AStep::Vid(v) => {
                    m.use_vid = *v;
                    a.use_vid = *v;
                }
                AStep::Update => {
                    a.update().map_err(e2s)?;
                    same_after("updated", &a, &conv::addressee(&m), Some(m.bytes(D)))?;
                }
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        Ok(())
    });
    let qstep = prop_oneof![
        3 => gen::payload().prop_map(QStep::Mask),
        2 => Just(QStep::Mask(vec![])),
        3 => gen::payload().prop_map(QStep::Value),
        1 => (any::<bool>(), 0u8..6).prop_map(|(s, c)| QStep::Params(s, c)),
        1 => gen::off().prop_map(QStep::File),
        1 => gen::off().prop_map(QStep::File2),
        1 => gen::len30().prop_map(QStep::Len),
        1 => gen::len30().prop_map(QStep::Start),
        1 => gen::len30().prop_map(QStep::Stop),
        1 => (0u8..8).prop_map(QStep::Errs),
        3 => Just(QStep::Update),
    ];
    r.guided("query", 40_000, 12_000, (gen::query(), vec(qstep, 0..12)).boxed(), |(m, s)| sane(m) && conv::query(m).is_some() && s.iter().all(QStep::fits), |(m, steps), o| {
        query_history(m, steps, o)
    });
    r.prop("channel list", 20_000, (gen::phy(0..4), vec((prop_oneof![9 => 0usize..6, 1 => 250usize..256, 1 => 256usize..300, 1 => 500usize..520], gen::chstatus(), any::<bool>()), 0..6)).boxed(), |(m, steps), o| {
        o.nontrivial_if(!steps.is_empty());
        let (up, rx, tx, duty, mut ch) = match m {
            File::Phy { up, rx, tx, duty, ch } => (*up, *rx, *tx, *duty, ch.clone()),
            _ => return Ok(()),
        };
        let make = |ch: &[ChStatus]| file::PhyStatus::new(up, rx, tx, duty, ch.iter().map(conv::chstatus).collect());
        let mut p = make(&ch);
        let bytes = |ch: &[ChStatus]| File::Phy { up, rx, tx, duty, ch: ch.to_vec() }.bytes(D);
        same_after("new", &p, &make(&ch), Some(bytes(&ch)))?;
        for (n, c, upd) in steps {
            ch.resize(*n, c.clone());
            p.channel_status = ch.iter().map(conv::chstatus).collect();
            if *upd {
                o.label(if *n > 255 { "list too long" } else { "list updated" });
                let u = p.update();
                if *n > 255 {
                    ensure!(u.is_err() || p.to_bytes().is_err(), "a list of {n} entries is encoded");
                    // back to a list that fits
                    ch.clear();
                    p.channel_status.clear();
                    p.update().map_err(e2s)?;
                } else {
                    u.map_err(e2s)?;
                }
                same_after("updated", &p, &make(&ch), Some(bytes(&ch)))?;
            }
        }
        Ok(())
    });
    r.prop("indirect forward", 20_000, (any::<bool>(), proptest::option::of(gen::indif()), vec((any::<Option<bool>>(), proptest::option::of(gen::indif())), 0..6)).boxed(), |(resp, cfg, steps), o| {
        o.nontrivial_if(!steps.is_empty());
        let (mut resp, mut cfg) = (*resp, cfg.clone());
        let mut f = IndirectForward::new(resp, cfg.as_ref().map(conv::indif));
        let check = |f: &IndirectForward, resp: bool, cfg: &Option<IndIf>, what: &str| -> V {
            let want = IndirectForward::new(resp, cfg.as_ref().map(conv::indif));
            ensure!(f == &want, "{what}: {f:?} instead of {want:?}");
            ensure!(f.header.overloaded == cfg.is_some() && f.header.response == resp, "{what}: header {:?}", f.header);
            let a = Action::IndirectForward(f.clone());
            let e = a.to_bytes().map_err(e2s)?;
            let w = Act::Indirect(resp, cfg.clone()).bytes(D);
            ensure!(e == w, "{what}: encodes to {} instead of {}", hex(&e), hex(&w));
            let back = Action::try_from(&e[..]).map_err(e2s)?;
            ensure!(back == a, "{what}: decodes to {back:?}");
            Ok(())
        };
        check(&f, resp, &cfg, "new")?;
        for (nr, nc) in steps {
            if let Some(x) = nr {
                resp = *x;
                f.header.response = *x;
            }
            cfg = nc.clone();
            f.configuration = nc.as_ref().map(conv::indif);
            f.update().map_err(e2s)?;
            check(&f, resp, &cfg, "updated")?;
        }
        Ok(())
    });
    r.prop("forward", 10_000, (any::<bool>(), gen::ifcfg()).boxed(), |(resp, c), o| {
        o.nontrivial();
        let f = Forward::new(*resp, conv::ifcfg(c));
        ensure!(f.header.response == *resp && f.opcode.0 == 50 && f.configuration == conv::ifcfg(c), "made {f:?}");
        let e = Action::Forward(f).to_bytes().map_err(e2s)?;
        let w = Act::Forward(*resp, c.clone()).bytes(D);
        ensure!(e == w, "encodes to {} instead of {}", hex(&e), hex(&w));
        Ok(())
    });
    r.prop("status operand", 20_000, (prop_oneof![
        (gen::byte(), gen::byte()).prop_map(|(a, b)| Act::ActionStatus(a, b)),
        gen::ifstatus().prop_map(Act::IfStatus),
        if D == Dialect::Wizzilab {
            prop_oneof![gen::final_st().prop_map(Act::Final), gen::tx().prop_map(Act::Tx)].boxed()
        } else {
            gen::ifstatus().prop_map(Act::IfStatus).boxed()
        }
    ]).boxed(), |m, o| {
        o.nontrivial();
        o.label(m.kind());
        let a = conv::act(m).ok_or("build")?;
        let kind = match m {
            Act::ActionStatus(..) => StatusType::Action,
            Act::IfStatus(_) => StatusType::Interface,
            _ => StatusType::InterfaceFinal,
        };
        if let Action::Status(s) = &a {
            ensure!(s.status_type == kind && s.opcode.0 == 34, "made {s:?}");
            if let (Status::Interface(i), Act::IfStatus(x)) = (&s.status, m) {
                let want = match x {
                    IfStatus::Host => InterfaceType::Host,
                    IfStatus::Serial => InterfaceType::Serial,
                    IfStatus::D7(_) => InterfaceType::Dash7,
                    IfStatus::Unknown(..) => InterfaceType::Unknown,
                };
                ensure!(i.interface_type == want, "the status carries {:?}", i.interface_type);
            }
        }
        #[cfg(feature = "wizzilab")]
        if let Action::TxStatus(t) = &a {
            let mut u = t.clone();
            u.update().map_err(e2s)?;
            ensure!(&u == t, "update turns {t:?} into {u:?}");
        }
        let e = a.to_bytes().map_err(e2s)?;
        let w = m.bytes(D);
        ensure!(e == w, "encodes to {} instead of {}", hex(&e), hex(&w));
        let back = Action::try_from(&e[..]).map_err(e2s)?;
        ensure!(back == a, "decodes to {back:?}");
        Ok(())
    });
    // a change of a decoded value, brought in line and sent on
    r.prop("decoded and changed", 15_000, (gen::addressee(), gen::addr(), 0u8..8, any::<[u8; 5]>()).boxed(), |(m, a, n, s), o| {
        o.nontrivial();
        use dash7::network::Addressee as LAddressee;
        let (_, mut x) = LAddressee::from_bytes((&m.bytes(D), 0)).map_err(e2s)?;
        x.address = conv::addr(a);
        x.nls_state = conv::nls(*n, s);
        x.update().map_err(e2s)?;
        let mut w = m.clone();
        w.addr = a.clone();
        w.nls = *n;
        w.nls_state = if *n == 0 { vec![] } else { s.to_vec() };
        same_after("updated", &x, &conv::addressee(&w), Some(w.bytes(D)))
    });
}
fn query_history(m: &Query, steps: &[QStep], o: &mut Obs) -> V {
    let mut m = m.clone();
    let mut x = conv::query(&m).ok_or("build")?;
    o.nontrivial_if(steps.len() > 1);
    o.label(match &m {
        Query::NonVoid { .. } => "non void",
        Query::Zero { .. } => "with zero",
        Query::Value { .. } => "with value",
        Query::Other { .. } => "with other file",
        Query::Bitmap { .. } => "bitmap",
        Query::Str { .. } => "string token",
    });
    for s in steps.iter().chain([&QStep::Update]) {
        match (&mut x, &mut m, s) {
            (q::Query::ComparisonWithZero(x), Query::Zero { mask, .. }, QStep::Mask(v)) => (x.mask, *mask) = (v.clone(), v.clone()),
            (q::Query::ComparisonWithValue(x), Query::Value { mask, .. }, QStep::Mask(v)) => (x.mask, *mask) = (v.clone(), v.clone()),
            (q::Query::ComparisonWithOtherFile(x), Query::Other { mask, .. }, QStep::Mask(v)) => (x.mask, *mask) = (v.clone(), v.clone()),
            (q::Query::BitmapRangeComparison(x), Query::Bitmap { mask, .. }, QStep::Mask(v)) => (x.mask, *mask) = (v.clone(), v.clone()),
            (q::Query::StringTokenSearch(x), Query::Str { mask, .. }, QStep::Mask(v)) => (x.mask, *mask) = (v.clone(), v.clone()),
            (q::Query::ComparisonWithValue(x), Query::Value { value, .. }, QStep::Value(v)) => (x.value, *value) = (v.clone(), v.clone()),
            (q::Query::StringTokenSearch(x), Query::Str { value, .. }, QStep::Value(v)) => (x.value, *value) = (v.clone(), v.clone()),
            (q::Query::ComparisonWithZero(x), Query::Zero { signed, cmp, .. }, QStep::Params(s, c)) => {
                x.params = conv::arith(*s, *c);
                (*signed, *cmp) = (*s, *c);
            }
            (q::Query::ComparisonWithValue(x), Query::Value { signed, cmp, .. }, QStep::Params(s, c)) => {
                x.params = conv::arith(*s, *c);
                (*signed, *cmp) = (*s, *c);
            }
            (q::Query::ComparisonWithOtherFile(x), Query::Other { signed, cmp, .. }, QStep::Params(s, c)) => {
                x.params = conv::arith(*s, *c);
                (*signed, *cmp) = (*s, *c);
            }
            (q::Query::BitmapRangeComparison(x), Query::Bitmap { signed, cmp, .. }, QStep::Params(s, c)) => {
                x.params = conv::range(*s, *c & 1);
                (*signed, *cmp) = (*s, *c & 1);
            }
            (q::Query::NonVoid(x), Query::NonVoid { file, .. }, QStep::File(f)) => (x.file, *file) = (conv::off(f), f.clone()),
            (q::Query::ComparisonWithZero(x), Query::Zero { file, .. }, QStep::File(f)) => (x.file, *file) = (conv::off(f), f.clone()),
            (q::Query::ComparisonWithValue(x), Query::Value { file, .. }, QStep::File(f)) => (x.file, *file) = (conv::off(f), f.clone()),
            (q::Query::ComparisonWithOtherFile(x), Query::Other { f1, .. }, QStep::File(f)) => (x.file1, *f1) = (conv::off(f), f.clone()),
            (q::Query::ComparisonWithOtherFile(x), Query::Other { f2, .. }, QStep::File2(f)) => (x.file2, *f2) = (conv::off(f), f.clone()),
            (q::Query::BitmapRangeComparison(x), Query::Bitmap { file, .. }, QStep::File(f)) => (x.file, *file) = (conv::off(f), f.clone()),
            (q::Query::StringTokenSearch(x), Query::Str { file, .. }, QStep::File(f)) => (x.file, *file) = (conv::off(f), f.clone()),
            (q::Query::NonVoid(x), Query::NonVoid { len, .. }, QStep::Len(n)) => (x.length, *len) = ((*n).into(), *n),
            (q::Query::BitmapRangeComparison(x), Query::Bitmap { start, .. }, QStep::Start(n)) => (x.start, *start) = ((*n).into(), *n),
            (q::Query::BitmapRangeComparison(x), Query::Bitmap { stop, .. }, QStep::Stop(n)) => (x.stop, *stop) = ((*n).into(), *n),
            (q::Query::StringTokenSearch(x), Query::Str { errs, .. }, QStep::Errs(n)) => (x.max_errors, *errs) = (*n, *n),
            (x, m, QStep::Update) => {
                // the length of these two is content, set by hand
                if let (q::Query::ComparisonWithOtherFile(x), Query::Other { mask, len, .. }) = (&mut *x, &mut *m) {
                    *len = if mask.is_empty() { *len } else { mask.len() as u32 };
                    x.length = (*len).into();
                }
                if let (q::Query::BitmapRangeComparison(x), Query::Bitmap { mask, len, .. }) = (&mut *x, &mut *m) {
                    *len = mask.len() as u32;
                    x.length = (*len).into();
                }
                match x {
                    q::Query::NonVoid(x) => x.update(),
                    q::Query::ComparisonWithZero(x) => x.update(),
                    q::Query::ComparisonWithValue(x) => x.update(),
                    q::Query::ComparisonWithOtherFile(x) => x.update(),
                    q::Query::BitmapRangeComparison(x) => x.update(),
                    q::Query::StringTokenSearch(x) => x.update(),
                }
                .map_err(e2s)?;
                match m {
                    Query::Zero { mp, mask, len, .. } => (*mp, *len) = (!mask.is_empty(), mask.len() as u32),
                    Query::Value { mp, mask, len, value, .. } | Query::Str { mp, mask, len, value, .. } => (*mp, *len) = (!mask.is_empty(), value.len() as u32),
                    Query::Other { mp, mask, .. } | Query::Bitmap { mp, mask, .. } => *mp = !mask.is_empty(),
                    Query::NonVoid { .. } => {}
                }
                // a mask of another size than the value can be held, but not sent
                let fits = match m {
                    Query::Value { mask, value, .. } | Query::Str { mask, value, .. } => mask.is_empty() || mask.len() == value.len(),
                    _ => true,
                };
                let want = conv::query(m).ok_or("build")?;
                if fits {
                    same_after("updated", x, &want, Some(m.bytes(D)))?;
                } else {
                    o.label("mask of another size");
                    same_after("updated", x, &want, None)?;
                    ensure!(x.to_bytes().is_err(), "a mask of another size than the value is encoded");
                }
            }
            _ => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------- C11
fn file_bytes(f: &LFile, id: u8) -> Result<Vec<u8>, String> {
    let len = if let LFile::Other(b) = f { b.len() as u32 } else { 0 };
    write_ctx(f, (LId::try_from(id).map_err(e2s)?, len)).map_err(e2s)
}
/// Is this the file these bytes say under this id?
fn same_file(id: u8, m: &File) -> bool {
    let b = m.bytes(D);
    let mut r = crate::bits::R::new(&b);
    typed(id) && matches!(dec_file(&mut r, id, b.len(), D), Ok(n) if n == *m) && r.end()
}
fn judge_file(id: u8, b: &[u8], len: u32, o: &mut Obs) -> V {
    let fid = LId::try_from(id).map_err(e2s)?;
    let mut rd = crate::bits::R::new(b);
    match (dec_file(&mut rd, id, len as usize, D), LFile::from_bytes((b, 0), fid, len)) {
        (Ok(m), Ok((rest, f))) => {
            o.label("accepted");
            let want = conv::file(&m);
            ensure!(f == want, "file {id:02x}: decoded {} instead of {}", short(format!("{f:?}")), short(format!("{want:?}")));
            ensure!(rest.0 == &b[rd.used()..], "file {id:02x}: left {:?}", rest);
            let e = file_bytes(&f, id)?;
            let w = m.bytes(D);
            ensure!(e == w, "file {id:02x}: encodes to {} instead of {}", short(hex(&e)), short(hex(&w)));
        }
        (Err(_), Err(_)) => o.label("refused"),
        (Ok(m), Err(e)) => return Err(format!("file {id:02x}: refused ({}), but it is {}", e2s(e), short(format!("{m:?}")))),
        (Err(e), Ok((_, f))) => return Err(format!("file {id:02x}: accepted as {}, but {e:?}", short(format!("{f:?}")))),
    }
    Ok(())
}
/// The longest part of a name that fits its field and is whole characters.
fn fitting(s: &str, n: usize) -> String {
    let mut t = String::new();
    for c in s.chars() {
        if t.len() + c.len_utf8() > n {
            break;
        }
        t.push(c);
    }
    t.trim_end_matches('\0').to_string()
}
pub fn files(r: &mut Run) {
    r.guided("round trip", 40_000, 15_000, gen::typed_file(), |(id, m)| same_file(*id, m), |(id, m), o| {
        o.nontrivial();
        o.label(format!("file {id:02x}"));
        let f = conv::file(m);
        let e = file_bytes(&f, *id)?;
        let w = m.bytes(D);
        ensure!(e == w, "encodes to {} instead of {}", short(hex(&e)), short(hex(&w)));
        let (rest, back) = LFile::from_bytes((&e, 0), LId::try_from(*id).unwrap(), e.len() as u32).map_err(e2s)?;
        ensure!(rest.0.is_empty() && back == f, "came back as {}", short(format!("{back:?}")));
        Ok(())
    });
    // every id, with content of every format
    r.prop("ids", 60_000, (prop_oneof![any::<u8>(), 0u8..0x30], prop_oneof![3 => gen::typed_file().prop_map(|(_, f)| f.bytes(D)), 1 => gen::payload()], gen::payload(), any::<Option<u8>>()).boxed(), |(id, b, t, len), o| {
        o.nontrivial_if(!b.is_empty());
        o.label(if typed(*id) { "id with a format" } else { "id without a format" });
        let b = [b.clone(), t.clone()].concat();
        judge_file(*id, &b, len.map_or(b.len() as u32, |x| x as u32), o)
    });
    r.prop("own format", 40_000, (gen::typed_file(), proptest::option::of(gen::mutation()), gen::payload()).boxed(), |((id, f), mt, t), o| {
        o.nontrivial();
        let mut b = f.bytes(D);
        if let Some(m) = mt {
            gen::mutate(&mut b, std::slice::from_ref(m));
        }
        b.extend(t);
        judge_file(*id, &b, b.len() as u32, o)
    });
    r.each("all ids", 0..=255u8, |id, o| {
        o.nontrivial();
        for n in [0usize, 1, 2, 5, 8, 15, 16, 64, 65, 66, 67, 200] {
            for fill in [0u8, 0x30, 1, 0x41] {
                judge_file(*id, &vec![fill; n], n as u32, o)?;
            }
        }
        Ok(())
    });
    let text = prop_oneof![
        vec(prop_oneof![5 => (0x20u8..0x7F).prop_map(|b| b as char), 3 => any::<char>(), 1 => Just('é'), 1 => Just('€'), 1 => Just('😀'), 1 => Just('\0')], 0..14)
            .prop_map(|v| v.into_iter().collect::<String>()),
    ];
    r.prop("names", 40_000, (gen::byte(), gen::byte(), text.clone(), text).boxed(), |(major, minor, name, sha), o| {
        o.nontrivial();
        o.label(if name.len() > 6 || sha.len() > 7 { "too long" } else { "fits" });
        let (n, s) = (fitting(name, 6), fitting(sha, 7));
        o.label(if (name.len() > 6 && n.len() < 6) || (sha.len() > 7 && s.len() < 7) { "cut before a character" } else { "other" });
        let v = file::FirmwareVersion { major: *major, minor: *minor, application_name: name.clone(), git_sha1: sha.clone() };
        let e = v.to_bytes().map_err(e2s)?;
        let want = File::Firmware { major: *major, minor: *minor, name: n.clone(), sha: s.clone() }.bytes(D);
        ensure!(e == want, "encodes to {} instead of {}", hex(&e), hex(&want));
        let (rest, back) = file::FirmwareVersion::from_bytes((&e, 0)).map_err(e2s)?;
        ensure!(rest.0.is_empty(), "left {rest:?}");
        ensure!(back.application_name == n && back.git_sha1 == s, "names come back as {:?}, {:?}", back.application_name, back.git_sha1);
        ensure!(back.major == *major && back.minor == *minor, "version comes back as {} {}", back.major, back.minor);
        Ok(())
    });
    r.each("profile ids", 0..15u8, |i, o| {
        o.nontrivial();
        macro_rules! ids { ($($n:literal)*) => { match *i { $( $n => {
            let f = file::AccessProfile::<$n> { profile: Default::default() };
            (<file::AccessProfile<$n> as SystemFile>::ID, f.specifier())
        } )* _ => unreachable!() } } }
        let got = ids!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14);
        ensure!(got == (0x20 + i, *i), "profile {i}: id {:02x}, specifier {}", got.0, got.1);
        Ok(())
    });
}

// ------------------------------------------------------------------------- C13
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spoiled {
    before: Vec<Act>,
    kind: u8,
    /// true: the value is at its limit and fits
    fits: bool,
    big: u32,
    extra: u8,
    to: Addressee,
    after: Vec<Act>,
}
/// A message part with one number or list that does not fit, or just fits.
fn spoil(s: &Spoiled) -> Result<(String, Action), String> {
    use dash7::app::action::OpCode;
    let h = || ActionHeader::new(s.extra & 1 == 1, s.extra & 2 == 2);
    // over-wide numbers of a field of so many bits, or the largest that fits
    let wide = |bits: u32, max: u32| -> u32 {
        let top = 1u32 << bits;
        if s.fits {
            top - 1
        } else {
            top + s.big % (max - top + 1)
        }
    };
    let len = |s: &Spoiled| -> Length {
        let v = if s.fits { (1 << 30) - 1 - s.big % 3 } else { (1u32 << 30) + s.big % (u32::MAX - (1 << 30)) };
        v.into()
    };
    let off = |o: Length| operation::FileOffset { file_id: s.extra, offset: o };
    let small = || off(3u32.into());
    let var = |s: &Spoiled| -> VarInt {
        if s.fits {
            VarInt::new_unchecked(MAX_VARINT, false)
        } else {
            VarInt::new_unchecked(MAX_VARINT + 1 + s.big % (u32::MAX - MAX_VARINT), s.extra & 1 == 1)
        }
    };
    let to = || conv::addressee(&s.to);
    let d7 = |to| Dash7InterfaceConfiguration {
        qos: Default::default(),
        dormant_session_timeout: 3u32.into(),
        #[cfg(not(feature = "subiot"))]
        execution_delay_timeout: 4u32.into(),
        addressee: to,
    };
    let fwd = |c| Action::Forward(Forward::new(s.extra & 1 == 1, c));
    // a size other than the right one
    let bad_size = |right: usize| -> usize {
        if s.fits {
            right
        } else {
            let n = s.big as usize % 40;
            if n == right {
                right + 1
            } else {
                n
            }
        }
    };
    let status = |to: dash7::network::Addressee, rto: VarInt| -> Action {
        let mut st = conv::d7status(&D7Status {
            ch: Channel { hdr: ChHdr { band: 3, class: 0, coding: 0 }, index: 5 },
            rx: 1, lb: 2, target: 3, nls: false, missed: true, retry: false, unicast: true, fifo: 4, seq: 5, rto: 6,
            from: s.to.clone(),
        });
        st.addressee = to;
        st.response_timeout = rto;
        let op: InterfaceStatusOperation = InterfaceStatus::Dash7(st).into();
        let st: Status = op.into();
        Action::Status(st.into())
    };
    let query = |q: q::Query| match s.extra % 3 {
        0 => Action::ActionQuery(ActionQuery { header: h(), opcode: OpCode::ACTION_QUERY, query: q }),
        1 => Action::BreakQuery(ActionQuery { header: h(), opcode: OpCode::BREAK_QUERY, query: q }),
        _ => Action::VerifyChecksum(ActionQuery { header: h(), opcode: OpCode::VERIFY_CHECKSUM, query: q }),
    };
    let write = |id: u8, f: LFile| {
        Action::WriteFileData(FileData::new(h(), operation::FileOffset::no_offset(id), f, OpCode::WRITE_FILE_DATA))
    };
    let lora = || LoRaWANInterfaceConfiguration { adr_enabled: true, request_ack: false, application_port: 1, data_rate: 2 };
    let pay = |n: usize| vec![s.extra; n];
    let n = 1 + s.big as usize % 9;
    let other = |n: usize| if s.fits { n } else { n + 1 + s.big as usize % 4 };
    let class = |spec: bool| -> AccessClass {
        let v = wide(4, 255) as u8;
        if spec {
            AccessClass::new(v, s.extra & 15)
        } else {
            AccessClass::new(s.extra & 15, v)
        }
    };
    Ok(match s.kind {
        0 => ("offset of a read".into(), Action::ReadFileData(ReadFileData { header: h(), opcode: OpCode::READ_FILE_DATA, offset: off(len(s)), length: 1u32.into() })),
        1 => ("length of a read".into(), Action::ReadFileData(ReadFileData { header: h(), opcode: OpCode::READ_FILE_DATA, offset: small(), length: len(s) })),
        2 => ("offset of a write".into(), Action::WriteFileData(FileData::new(h(), operation::FileOffset { file_id: 0x40, offset: len(s) }, LFile::Other(pay(3)), OpCode::WRITE_FILE_DATA))),
        3 => ("length of a query".into(), query(q::Query::NonVoid(NonVoid { length: len(s), file: small() }))),
        4 => ("offset in a query".into(), query(q::Query::NonVoid(NonVoid { length: 3u32.into(), file: off(len(s)) }))),
        5 | 6 => {
            let mut a = to();
            a.access_class = class(s.kind == 5);
            ("access class of a forward".into(), fwd(InterfaceConfiguration::Dash7(d7(a))))
        }
        7 | 8 => {
            let mut a = to();
            a.access_class = class(s.kind == 7);
            ("access class of a status".into(), status(a, 6u32.into()))
        }
        9 => {
            let mut c = d7(to());
            c.dormant_session_timeout = var(s);
            ("timeout of a forward".into(), fwd(InterfaceConfiguration::Dash7(c)))
        }
        10 => {
            #[allow(unused_mut)]
            let mut c = d7(to());
            #[cfg(not(feature = "subiot"))]
            {
                c.execution_delay_timeout = var(s);
            }
            #[cfg(feature = "subiot")]
            {
                c.dormant_session_timeout = var(s);
            }
            ("execution delay of a forward".into(), fwd(InterfaceConfiguration::Dash7(c)))
        }
        11 => ("response timeout of a status".into(), status(to(), var(s))),
        12 => {
            let mut a = to();
            a.address = dash7::network::Address::NbId(var(s));
            a.update().map_err(e2s)?;
            ("number of devices of an address".into(), fwd(InterfaceConfiguration::Dash7(d7(a))))
        }
        13 => {
            let v = wide(3, 255) as u8;
            ("errors of a string search".into(), query(q::Query::StringTokenSearch(StringTokenSearch::new(v, vec![], pay(n), small()))))
        }
        14 => ("mask of a value query".into(), query(q::Query::ComparisonWithValue(ComparisonWithValue::new(Default::default(), pay(other(n)), pay(n), small())))),
        15 => ("mask of a string search".into(), query(q::Query::StringTokenSearch(StringTokenSearch::new(2, pay(other(n)), pay(n), small())))),
        16 => {
            let mut x = ComparisonWithOtherFile::new(Default::default(), pay(n), small(), small());
            x.length = (other(n) as u32).into();
            ("mask of a file query".into(), query(q::Query::ComparisonWithOtherFile(x)))
        }
        17 => {
            let mut x = BitmapRangeComparison::new(Default::default(), 1, 2, pay(n), small());
            x.length = (other(n) as u32).into();
            ("mask of a bitmap query".into(), query(q::Query::BitmapRangeComparison(x)))
        }
        18 => {
            let mut x = StringTokenSearch::new(1, vec![], pay(n), small());
            x.value = pay(other(n));
            ("value of a string search".into(), query(q::Query::StringTokenSearch(x)))
        }
        19 => {
            let mut x = ComparisonWithZero::new(Default::default(), pay(n), small());
            x.mask = pay(other(n));
            ("mask of a zero query".into(), query(q::Query::ComparisonWithZero(x)))
        }
        20 => {
            let mut x = ComparisonWithValue::new(Default::default(), vec![], pay(n), small());
            x.value = pay(other(n));
            ("value of a value query".into(), query(q::Query::ComparisonWithValue(x)))
        }
        21 | 22 => {
            let x = BitmapRangeComparison::new(Default::default(), 1, 2, pay(n), small());
            let mut x = x;
            if s.kind == 21 {
                x.start = len(s);
            } else {
                x.stop = len(s);
            }
            ("bounds of a bitmap query".into(), query(q::Query::BitmapRangeComparison(x)))
        }
        23 | 24 => {
            let k = bad_size(16);
            let (a, b) = if s.kind == 23 { (k, 16) } else { (16, k) };
            ("keys of an ABP configuration".into(), fwd(InterfaceConfiguration::LoRaWanABP(LoRaWANABPInterfaceConfiguration {
                base: lora(), network_session_key: pay(a), app_session_key: pay(b), device_address: 1, network_id: 2,
            })))
        }
        25 | 26 => {
            let k = bad_size(8);
            let (a, b) = if s.kind == 25 { (k, 8) } else { (8, k) };
            ("EUI of an OTAA configuration".into(), fwd(InterfaceConfiguration::LoRaWanOTAA(LoRaWANOTAAInterfaceConfiguration {
                base: lora(), device_eui: pay(a), app_eui: pay(b), app_key: pay(16),
            })))
        }
        27 => ("key of an OTAA configuration".into(), fwd(InterfaceConfiguration::LoRaWanOTAA(LoRaWANOTAAInterfaceConfiguration {
            base: lora(), device_eui: pay(8), app_eui: pay(8), app_key: pay(bad_size(16)),
        }))),
        28 => {
            let n = if s.fits { 255 } else { 256 + s.big as usize % 600 };
            let c = conv::chstatus(&ChStatus { band: 2, bw: 1, index: 2047, noise: s.extra });
            ("number of channels".into(), write(9, LFile::PhyStatus(file::PhyStatus::new(1, 2, 3, 4, vec![c; n]))))
        }
        29 => {
            let mut c = conv::chstatus(&ChStatus { band: 2, bw: 1, index: 0, noise: s.extra });
            c.identifier.index = wide(11, 65535) as u16;
            ("channel index".into(), write(9, LFile::PhyStatus(file::PhyStatus::new(1, 2, 3, 4, vec![c]))))
        }
        30 => {
            let mut p = conv::access(&Access {
                hdr: ChHdr { band: 2, class: 0, coding: 0 },
                prof: vec![SubProf { bitmap: 1, period: 0 }; 4],
                bands: vec![SubBand { start: 1, end: 2, eirp: 3, cca: 4, duty: 5 }; 8],
            });
            p.sub_profiles[s.extra as usize % 4].scan_automation_period = var(s);
            ("scan period of a profile".into(), write(0x20, LFile::AccessProfile00(file::AccessProfile { profile: p })))
        }
        31 | 32 => {
            let mut a = to();
            a.access_class = class(s.kind == 31);
            ("access class of an indirect forward".into(), Action::IndirectForward(IndirectForward::new(true, Some(IndirectInterface::Dash7(a)))))
        }
        33 => {
            let mut x = ComparisonWithOtherFile::new(Default::default(), vec![], small(), off(len(s)));
            x.length = 5u32.into();
            ("second offset of a file query".into(), query(q::Query::ComparisonWithOtherFile(x)))
        }
        34 => {
            let mut x = ComparisonWithOtherFile::new(Default::default(), vec![], small(), small());
            x.length = len(s);
            ("length of a file query".into(), query(q::Query::ComparisonWithOtherFile(x)))
        }
        #[cfg(feature = "wizzilab")]
        _ => {
            let m = Act::Tx(Tx::D7(TxSt { ch: Channel { hdr: ChHdr { band: 3, class: 0, coding: 0 }, index: 5 }, target: 1, error: 0, lts: 4, to: s.to.clone() }));
            let mut a = conv::act(&m).ok_or("build")?;
            if let Action::TxStatus(t) = &mut a {
                let TxStatus::Interface(i) = &mut t.status;
                if let InterfaceTxStatus::Dash7(y) = &mut i.status {
                    y.addressee.access_class = class(s.extra & 4 == 4);
                }
            }
            ("access class of a tx status".into(), a)
        }
        #[cfg(not(feature = "wizzilab"))]
        _ => ("length of a query".into(), query(q::Query::NonVoid(NonVoid { length: len(s), file: small() }))),
    })
}
/// Messages with one such value.
pub fn spoiled() -> BoxedStrategy<Spoiled> {
    let few = || vec(gen::act_no_indirect(), 0..3).boxed();
    (few(), 0u8..36, prop_oneof![3 => Just(false), 1 => Just(true)], any::<u32>(), prop_oneof![any::<u32>(), 0u32..40], gen::byte(), gen::addressee(), few())
        .prop_map(|(before, kind, fits, a, b, extra, to, after)| Spoiled {
            before, kind, fits, big: if a & 1 == 1 { a } else { b }, extra, to, after: if (31..=32).contains(&kind) { vec![] } else { after },
        })
        .boxed()
}
/// What is spoiled, the action, and the command around it.
pub fn spoiled_command(s: &Spoiled) -> Result<(String, Action, Command), String> {
    let (what, a) = spoil(s)?;
    let mut acts = build(&s.before)?.actions;
    acts.push(a.clone());
    acts.extend(build(&s.after)?.actions);
    Ok((what, a, Command::new(acts)))
}
pub fn refused(r: &mut Run) {
    let few = || vec(gen::act_no_indirect(), 0..3).boxed();
    r.prop("message", 60_000, spoiled(), |s, o| {
        o.nontrivial();
        let (what, a, c) = spoiled_command(s)?;
        o.label(format!("{what}: {}", if s.fits { "at the limit" } else { "too large" }));
        if s.fits {
            let e = encode(&c).map_err(|e| format!("{what} at the limit: {e}"))?;
            let back = decode(&e)?;
            ensure!(back == c, "{what} at the limit comes back as {}", short(format!("{back:?}")));
        } else {
            let e = a.to_bytes();
            ensure!(e.is_err(), "{what}: {} is encoded as {}", short(format!("{a:?}")), short(hex(&e.unwrap_or_default())));
            let e = c.to_bytes();
            ensure!(e.is_err(), "{what}: a command with it is encoded as {}", short(hex(&e.unwrap_or_default())));
            let v: Result<Vec<u8>, _> = c.clone().try_into();
            ensure!(v.is_err(), "{what}: a command with it is converted");
            let f = dash7::transport::Frame { command: c, ..Default::default() };
            ensure!(f.to_bytes().is_err(), "{what}: a frame with it is encoded");
        }
        Ok(())
    });
    r.prop("transport timeouts", 10_000, (0u8..3, any::<bool>(), any::<u32>(), gen::trans_with(few())).boxed(), |(k, fits, big, m), o| {
        o.nontrivial();
        let v = VarInt::new_unchecked(if *fits { MAX_VARINT } else { MAX_VARINT + 1 + big % (u32::MAX - MAX_VARINT) }, false);
        let mut f = conv::trans(m).ok_or("build")?;
        match k {
            0 => (f.control.has_listen_timeout, f.listen_timeout) = (true, Some(v)),
            1 => (f.control.has_execution_delay_timeout, f.execution_delay_timeout) = (true, Some(v)),
            _ => {
                (f.control.is_ack_requested, f.control.is_dialog_start) = (true, true);
                f.congestion_timeout = Some(v);
            }
        }
        let e = f.to_bytes();
        if *fits {
            let back = dash7::transport::Frame::try_from(&e.map_err(e2s)?[..]).map_err(e2s)?;
            ensure!(back == f, "comes back as {back:?}");
        } else {
            ensure!(e.is_err(), "timeout {v:?} is encoded");
        }
        Ok(())
    });
    r.prop("parts", 20_000, (0u8..6, any::<bool>(), any::<u32>()).boxed(), |(k, fits, big), o| {
        o.nontrivial();
        fn check<T: DekuContainerWrite + for<'a> DekuContainerRead<'a> + PartialEq + std::fmt::Debug>(x: T, fits: bool) -> V {
            let e = x.to_bytes();
            if fits {
                let e = e.map_err(e2s)?;
                let (_, back) = T::from_bytes((&e, 0)).map_err(e2s)?;
                ensure!(back == x, "{x:?} comes back as {back:?}");
            } else {
                ensure!(e.is_err(), "{x:?} is encoded as {e:?}");
            }
            Ok(())
        }
        let w = |bits: u32, max: u32| if *fits { (1 << bits) - 1 } else { (1 << bits) + big % (max - (1 << bits) + 1) };
        match k {
            0 => check(AccessClass::new(w(4, 255) as u8, 3), *fits),
            1 => check(AccessClass::new(3, w(4, 255) as u8), *fits),
            2 => check(dash7::app::action::OpCode(w(6, 255) as u8), *fits),
            3 => check(Length::from(if *fits { (1 << 30) - 1 } else { (1u32 << 30) + big % (3 << 30) }), *fits),
            4 => check(VarInt::from(if *fits { MAX_VARINT } else { MAX_VARINT + 1 + big % (u32::MAX - MAX_VARINT) }), *fits),
            _ => check(
                dash7::physical::ChannelStatusIdentifier { channel_band: Default::default(), bandwidth: Default::default(), index: w(11, 65535) as u16 },
                *fits,
            ),
        }
    });
}
