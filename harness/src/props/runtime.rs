//! How decoding behaves as a program: C04, C17, C19, C20, and the cases of C18.
use super::*;
use crate::alloc::{live, peak_of};
use crate::gen::{self, S};
use crate::run::{hexed, Obs, Run};
use dash7::app::operation::{self as op, InterfaceStatusOperation, Length};
use dash7::app::{interface, query};
use dash7::file::{self, File as LFile, FileId};
use dash7::link::{self, BackgroundFrame, ForegroundFrame};
use dash7::network::AddressType;
use dash7::session::{self, InterfaceStatus, InterfaceType};
use dash7::{data, network, physical, transport, types};
use deku::no_std_io::{Read, Seek};
use proptest::collection::vec;
use proptest::prelude::*;
use std::fmt::Debug;
use std::io::Write;

// ------------------------------------------------------------------------- byte strings

/// Encodings of messages and their parts, before anything is done to them.
fn encodings() -> S<Vec<u8>> {
    let anyc = || gen::cmd_with(gen::act_with(gen::query_any(), gen::ifstatus_any()));
    let few = || vec(gen::act_with(gen::query_any(), gen::ifstatus_any()), 0..3).boxed();
    prop_oneof![
        6 => anyc().prop_map(|m| m.bytes(D)),
        2 => gen::trans_with(few()).prop_map(|m| m.bytes(D)),
        2 => gen::net_with(gen::trans_with(few())).prop_map(|m| m.bytes(D)),
        4 => gen::fg_with(gen::net_with(gen::trans_with(few()))).prop_map(|m| m.bytes(D)),
        1 => gen::bg().prop_map(|m| m.bytes(D)),
        4 => gen::typed_file().prop_map(|(_, f)| f.bytes(D)),
        2 => gen::query_any().prop_map(|m| m.bytes(D)),
        2 => gen::ifcfg().prop_map(|m| m.bytes(D)),
        2 => gen::ifstatus_any().prop_map(|m| m.bytes(D)),
        1 => gen::addressee().prop_map(|m| m.bytes(D)),
        1 => gen::fhdr().prop_map(|m| m.bytes(D)),
        1 => gen::tx().prop_map(|m| m.bytes(D)),
    ]
    .boxed()
}
pub fn any_bytes() -> S<Vec<u8>> {
    prop_oneof![
        3 => encodings(),
        8 => gen::mutated(encodings()),
        4 => gen::noise(),
        2 => vec(gen::byte(), 0..12),
        2 => vec(any::<u8>(), 0..120),
        1 => vec(Just(0xFFu8), 0..60),
        1 => vec(Just(0u8), 0..60),
    ]
    .boxed()
}

// ------------------------------------------------------------------------- C04

/// A source that gives up when it is asked for more than any decoder needs.
struct Patient<'a> {
    cur: Cursor<&'a [u8]>,
    left: u64,
}
impl<'a> Patient<'a> {
    fn new(b: &'a [u8]) -> Self {
        Patient { cur: Cursor::new(b), left: 10_000 + 500 * b.len() as u64 }
    }
    fn step(&mut self) {
        if self.left == 0 {
            panic!("the decoder reads on and on");
        }
        self.left -= 1;
    }
}
impl Read for Patient<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.step();
        self.cur.read(buf)
    }
}
impl Seek for Patient<'_> {
    fn seek(&mut self, p: deku::no_std_io::SeekFrom) -> std::io::Result<u64> {
        self.step();
        self.cur.seek(p)
    }
}
fn use_it<T: Debug + Clone + PartialEq>(v: &T) -> usize {
    let n = format!("{v:?}").len() + format!("{v:#?}").len();
    let c = v.clone();
    n + (&c == v) as usize + (v != &c) as usize
}
type Attempt = (&'static str, fn(&[u8], usize) -> bool);
fn plain<T>(b: &[u8], k: usize) -> bool
where
    T: for<'a> DekuContainerRead<'a> + DekuContainerWrite + for<'a> TryFrom<&'a [u8], Error = DekuError> + Debug + Clone + PartialEq,
{
    if k == 0 {
        let _ = T::try_from(b);
    }
    match T::from_bytes((b, k)) {
        Ok((_, v)) => {
            use_it(&v);
            let _ = v.to_bytes();
            true
        }
        Err(e) => {
            let _ = (format!("{e}"), format!("{e:?}"));
            false
        }
    }
}
fn given<T, C>(b: &[u8], k: usize, ctx: C) -> bool
where
    T: for<'a> DekuReader<'a, C> + DekuWriter<C> + Debug + Clone + PartialEq,
    C: Clone,
{
    let mut src = Cursor::new(b);
    let mut r = Reader::new(&mut src);
    if k > 0 && r.skip_bits(k).is_err() {
        return false;
    }
    match T::from_reader_with_ctx(&mut r, ctx.clone()) {
        Ok(v) => {
            use_it(&v);
            let _ = write_ctx(&v, ctx);
            true
        }
        Err(_) => false,
    }
}
fn patient<T, C>(b: &[u8], k: usize, ctx: C) -> bool
where
    T: for<'a> DekuReader<'a, C>,
{
    let mut src = Patient::new(b);
    let mut r = Reader::new(&mut src);
    if k > 0 && r.skip_bits(k).is_err() {
        return false;
    }
    T::from_reader_with_ctx(&mut r, ctx).is_ok()
}
fn command(b: &[u8], k: usize) -> bool {
    if k == 0 {
        let _ = Command::try_from(b);
    }
    match Command::from_bytes((b, k)) {
        Ok((_, c)) => {
            use_it(&c);
            let _ = (c.to_string(), c.to_bytes(), c.request_id(), c.response_id(), c.tag_id());
            let _ = (c.is_last_response(), c.interface_status(), c.actions_without_interface_status());
            for a in &c.actions {
                let _ = (a.to_bytes(), a.deku_id());
            }
            if let Some(s) = c.interface_status() {
                let _ = s.to_string();
            }
            true
        }
        Err(_) => false,
    }
}
fn all_files(b: &[u8], k: usize) -> bool {
    let mut any = false;
    for id in (0..=0x2Fu8).chain([0x40, 0xD7, 0xFF]) {
        for len in [b.len() as u32, 0, 1, u32::MAX] {
            let Ok(id) = FileId::try_from(id) else { continue };
            if let Ok((_, f)) = LFile::from_bytes((b, k), id.clone(), len) {
                any = true;
                use_it(&f);
                let _ = write_ctx(&f, (id, len));
            }
        }
    }
    any
}
fn statuses(b: &[u8], k: usize) -> bool {
    use InterfaceType::*;
    let mut any = false;
    for t in [Host, Serial, LoRaWanABP, LoRaWanOTAA, Dash7, Unknown] {
        for len in [b.len() as u32, 0, u32::MAX] {
            any |= given::<InterfaceStatus, _>(b, k, (t, len));
        }
    }
    any
}
fn attempts() -> Vec<Attempt> {
    macro_rules! list { ($($t:ty),* $(,)?) => { vec![ $( (stringify!($t), plain::<$t> as fn(&[u8], usize) -> bool), )* ] }; }
    let mut v: Vec<Attempt> = list![
        Action, ForegroundFrame, BackgroundFrame, network::Frame, transport::Frame, network::Control,
        network::HoppingControl, transport::Control, transport::AckTemplate, transport::GroupCondition,
        link::BackgroundFrameControl, link::ForegroundFrameControl, link::AccessClass, link::AccessProfile,
        link::SubProfile, network::Addressee, network::NlsMethod, network::AddressType, session::QoS,
        session::ResponseMode, session::RetryMode, session::InterfaceType, session::Dash7InterfaceStatus,
        InterfaceStatusOperation, op::ActionStatus, op::Permission, op::PermissionLevel, op::ActionHeader,
        op::StatusCode, op::StatusType, op::ChunkStep, op::LogicOp, op::FileOffset, Length, op::ResponseTagHeader,
        op::RequestTagHeader, op::ForwardHeader, op::IndirectForwardHeader, query::Query, query::NonVoid,
        query::ComparisonWithZero, query::ComparisonWithValue, query::ComparisonWithOtherFile,
        query::BitmapRangeComparison, query::StringTokenSearch, query::ArithmeticComparisonType,
        query::ArithmeticQueryParams, query::RangeComparisonType, query::RangeQueryParams,
        interface::Dash7InterfaceConfiguration, interface::LoRaWANInterfaceConfiguration,
        interface::LoRaWANABPInterfaceConfiguration, interface::LoRaWANOTAAInterfaceConfiguration,
        interface::InterfaceConfiguration, interface::IndirectInterface, physical::Bandwidth,
        physical::ChannelBand, physical::ChannelClass, physical::ChannelCoding, physical::CsmaCaMode,
        physical::NoiseFloor, physical::ChannelHeader, physical::Channel, physical::ChannelStatusIdentifier,
        physical::SubBand, physical::ChannelStatus, data::ActionCondition, data::StorageClass,
        data::UserPermissions, data::FilePermissions, data::FileProperties, data::FileHeader, types::VarInt,
        file::FileId, file::FactorySettings, file::FirmwareVersion, file::EngineeringMode,
        file::EngineeringModeMethod, file::PhyStatus, file::DllConfig, file::DllStatus, file::SecurityKey,
        file::AccessProfile<0>, file::AccessProfile<14>,
    ];
    #[cfg(feature = "wizzilab")]
    v.extend::<Vec<Attempt>>(list![
        op::InterfaceFinalStatusOperation,
        op::InterfaceTxStatusOperation,
        op::TxStatusType,
        session::InterfaceFinalStatusCode,
    ]);
    v.push(("Command", command));
    v.push(("File", all_files));
    v.push(("InterfaceStatus", statuses));
    v.push(("Address", |b, k| {
        use AddressType::*;
        [NbId, NoId, UId, VId].into_iter().fold(false, |x, t| given::<network::Address, _>(b, k, t) | x)
    }));
    v
}
pub fn no_panic(r: &mut Run) {
    let all = attempts();
    let check = |b: &[u8], k: usize, o: &mut Obs| -> V {
        let mut taken = 0;
        for (name, f) in &all {
            taken += crate::run::guard(|| f(b, k)).map_err(|e| format!("{name} at bit {k}: {e}"))? as u32;
        }
        let ways: [Attempt; 6] = [
            ("Command from a source", |b, k| patient::<Command, u32>(b, k, 0)),
            ("bounded Command from a source", |b, k| patient::<Command, u32>(b, k, b.len() as u32 / 2 + 1)),
            ("Action from a source", |b, k| patient::<Action, ()>(b, k, ())),
            ("ForegroundFrame from a source", |b, k| patient::<ForegroundFrame, ()>(b, k, ())),
            ("network Frame from a source", |b, k| patient::<network::Frame, u32>(b, k, b.len() as u32)),
            ("transport Frame from a source", |b, k| patient::<transport::Frame, u32>(b, k, 3)),
        ];
        for (name, f) in ways {
            crate::run::guard(|| f(b, k)).map_err(|e| format!("{name} at bit {k}: {e}"))?;
        }
        o.nontrivial_if(b.len() > 1);
        o.label(match taken {
            0 => "taken by no decoder",
            1..=20 => "taken by 1 to 20 decoders",
            _ => "taken by more than 20 decoders",
        });
        o.label(if k == 0 { "from the first bit" } else { "from another bit" });
        Ok(())
    };
    let offsets = prop_oneof![1 => Just(0usize), 1 => 1usize..8];
    r.guided("decoders", 26_000, 16_000, (hexed(any_bytes()), offsets).boxed(), |(_, k)| *k < 8, |(b, k), o| check(&b.0, *k, o));
    // every byte, alone and in front of something
    let cells = (0..=255u8).flat_map(|b| (0..8usize).map(move |k| (b, k)));
    r.each("single bytes", cells, |(b, k), o| check(&[*b], *k, o));
    let cells = (0..=0xFFFFu16).step_by(1);
    r.each("byte pairs", cells, |x, o| {
        let mut b = x.to_be_bytes().to_vec();
        o.nontrivial();
        o.label(if command(&b, 0) { "taken" } else { "refused" });
        b.extend([0x85; 9]);
        o.label(if command(&b, 0) { "taken" } else { "refused" });
        all_of(&b)
    });
    // long messages
    let long = (vec(hexed(any_bytes()), 1..200), any::<bool>()).boxed();
    r.prop("long", 600, long, |(v, keep), o| {
        o.nontrivial();
        let mut b: Vec<u8> = v.iter().flat_map(|x| x.0.clone()).collect();
        if !keep {
            b.truncate(b.len() * 7 / 8);
        }
        check(&b, 0, o)
    });
    r.prop("many actions", 150, (gen::long_any(), 0u8..3).boxed(), |(m, cut), o| {
        let mut b = m.acts().bytes(D);
        b.truncate(b.len() - (*cut as usize).min(b.len()));
        check(&b, 0, o)
    });
    r.prop("large payloads", 60, (gen::big(), 0usize..8, any::<u32>()).boxed(), |(m, k, cut), o| {
        let mut b = m.acts().bytes(D);
        check(&b, *k, o)?;
        b.truncate(*cut as usize % b.len());
        check(&b, 0, o)
    });
}
fn all_of(b: &[u8]) -> V {
    let _ = (plain::<ForegroundFrame>(b, 0), plain::<network::Frame>(b, 0), plain::<transport::Frame>(b, 0));
    let _ = (plain::<InterfaceStatusOperation>(b, 0), plain::<interface::InterfaceConfiguration>(b, 0));
    let _ = (plain::<query::Query>(b, 0), plain::<network::Addressee>(b, 0));
    Ok(())
}

// ------------------------------------------------------------------------- C19

/// The bound: a value takes a few hundred bytes per byte at most (a list of one-byte actions), and a
/// list may be held twice while it grows.
const PER_BYTE: usize = 4000;
const FIXED: usize = 64 * 1024;

fn within(what: &str, n: usize, peak: usize) -> V {
    let limit = PER_BYTE * n + FIXED;
    ensure!(peak <= limit, "{what}: {n} bytes of input, {peak} bytes of memory, limit {limit}");
    Ok(())
}
fn measure(b: &[u8], o: &mut Obs) -> V {
    let n = b.len();
    let mut top = 0;
    macro_rules! one {
        ($what:expr, $e:expr) => {{
            let (ok, peak) = peak_of(|| $e.is_ok());
            top = top.max(peak);
            within($what, n, peak)?;
            ok
        }};
    }
    if one!("command", Command::try_from(b)) {
        o.label("a command");
    }
    one!("action", Action::from_bytes((b, 0)));
    one!("foreground frame", ForegroundFrame::from_bytes((b, 0)));
    one!("network frame", network::Frame::from_bytes((b, 0)));
    one!("transport frame", transport::Frame::from_bytes((b, 0)));
    one!("background frame", BackgroundFrame::from_bytes((b, 0)));
    one!("interface status", InterfaceStatusOperation::from_bytes((b, 0)));
    one!("query", query::Query::from_bytes((b, 0)));
    one!("interface configuration", interface::InterfaceConfiguration::from_bytes((b, 0)));
    one!("physical status", file::PhyStatus::from_bytes((b, 0)));
    #[cfg(feature = "wizzilab")]
    {
        one!("final status", op::InterfaceFinalStatusOperation::from_bytes((b, 0)));
        one!("tx status", op::InterfaceTxStatusOperation::from_bytes((b, 0)));
    }
    let huge = u32::from_be_bytes([b.first().copied().unwrap_or(0xFF), 0xFF, 0xFF, 0xFF]);
    for id in (0..=0x2Fu8).chain([0xFF]) {
        let id = || FileId::try_from(id).unwrap();
        one!("file", LFile::from_bytes((b, 0), id(), n as u32));
        one!("file of an announced length", LFile::from_bytes((b, 0), id(), huge));
    }
    one!("status of an announced length", read_ctx::<InterfaceStatus, _>(b, (InterfaceType::Unknown, huge)));
    o.label(match top / (n + 1) {
        0..=50 => "up to 50 bytes each",
        51..=500 => "up to 500 bytes each",
        _ => "more than 500 bytes each",
    });
    Ok(())
}
/// A length field of the given form and value.
fn claim(form: u8, v: u32) -> Vec<u8> {
    let s = (form % 4) as usize;
    let v = v & ((1u64 << (6 + 8 * s)) - 1) as u32;
    (v | (s as u32) << (6 + 8 * s)).to_be_bytes()[3 - s..].to_vec()
}
/// The places where the layout announces how much follows.
const PLACES: u8 = 12;
fn announced(place: u8, len: &[u8], flags: u8, tail: &[u8]) -> Vec<u8> {
    let mut b = match place {
        0 => vec![0x04 | flags & 0xC0, 0x40, 0x00],
        1 => vec![0x20 | flags & 0xC0, flags, 0x00],
        2 => vec![0x05, 0x09, 0x03],
        3 => vec![0x62, 0x00],
        4 => vec![0x62, 0xD7],
        5 => vec![0x62, flags],
        6 => vec![0xA2, flags],
        7 => vec![0x66, flags],
        8 => vec![0x08, 0x40 | flags & 0x1F],
        9 => vec![0x09, 0x20 | 0x10 | flags & 0x0F],
        10 => vec![0x0B, 0x80 | 0x10 | flags & 0x0F],
        _ => vec![0x08, 0xE0 | 0x10 | flags & 0x0F],
    };
    b.extend(len);
    b.extend(tail);
    b
}
pub fn memory(r: &mut Run) {
    let big = prop_oneof![
        4 => (any::<u32>(), 0u32..20).prop_map(|(v, s)| v >> s),
        2 => Just(u32::MAX),
        2 => Just((1u32 << 30) - 1),
        1 => 0u32..5000,
    ];
    let s = (0..PLACES, 0u8..4, big, any::<u8>(), hexed(gen::payload())).boxed();
    r.prop("announced lengths", 30_000, s, |(place, form, v, flags, t), o| {
        o.label(format!("place {place}"));
        o.nontrivial_if(*form > 1 && *v > 100_000);
        measure(&announced(*place, &claim(*form, *v), *flags, &t.0), o)
    });
    r.guided("any bytes", 10_000, 10_000, hexed(any_bytes()), |_| true, |b, o| {
        o.nontrivial_if(!b.0.is_empty());
        measure(&b.0, o)
    });
    // long inputs: the same message again and again
    r.prop("long", 150, (hexed(any_bytes()), 1usize..2000).boxed(), |(b, k), o| {
        let mut v = b.0.repeat(*k);
        v.truncate(60_000);
        o.nontrivial_if(v.len() > 1000);
        o.label(format!("about {} kB", v.len() / 10_000 * 10));
        measure(&v, o)
    });
    // what one call used is given back before the next: after many calls no more is held than after a few
    let round = |l: &[Vec<u8>]| {
        for b in l {
            command(b, 0);
            let _ = Action::from_bytes((b, 0)).map(|(_, a)| a.to_bytes());
            let _ = all_of(b);
            for id in [0u8, 1, 2, 5, 8, 0x0E, 0x20, 0x40] {
                let _ = FileId::try_from(id).and_then(|i| LFile::from_bytes((b, 0), i, b.len() as u32));
            }
        }
    };
    r.prop("held after many", 400, (vec(hexed(any_bytes()), 1..5), 1usize..40, 6usize..30).boxed(), |(l, k, times), o| {
        let l: Vec<Vec<u8>> = l.iter().map(|b| b.0.repeat((*k).min(1 + 1000 / (b.0.len() + 1)))).collect();
        let n: usize = l.iter().map(|b| b.len()).sum();
        o.nontrivial_if(n * times > 8 * (FIXED / 16 + n));
        for _ in 0..3 {
            round(&l);
        }
        let before = live();
        for _ in 0..*times {
            round(&l);
        }
        let grown = live() - before;
        let limit = FIXED / 16 + 2 * n;
        ensure!(grown <= limit as isize, "{grown} bytes more are held after {times} rounds of {n} bytes, limit {limit}");
        Ok(())
    });
    r.prop("held after large ones", 40, gen::big(), |m, o| {
        o.nontrivial();
        let l = vec![m.acts().bytes(D)];
        let n = l[0].len();
        for _ in 0..2 {
            command(&l[0], 0);
        }
        let before = live();
        for _ in 0..8 {
            command(&l[0], 0);
        }
        let grown = live() - before;
        ensure!(grown <= (FIXED / 16 + 2 * n) as isize, "{grown} bytes more are held after 8 commands of {n} bytes");
        Ok(())
    });
}

// ------------------------------------------------------------------------- C20

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
enum Job {
    Decode(Hex),
    Encode(Vec<Act>),
    File(u8, Hex),
    Frame(u8, Hex),
    Number(u32, bool),
    /// a message with a value that does not fit
    Spoiled(super::values::Spoiled),
}
/// What a job gives, as text that can be compared.
fn perform(j: &Job) -> String {
    match j {
        Job::Decode(b) => match Command::try_from(&b.0[..]) {
            Ok(c) => format!("{c:?} {c} {:?}", c.to_bytes().map(|x| hex(&x))),
            Err(e) => format!("{e:?}"),
        },
        Job::Encode(m) => match conv::cmd(m) {
            Some(c) => {
                let before = format!("{c:?}");
                let e = c.to_bytes();
                let after = format!("{c:?}");
                assert!(before == after, "encoding changes the value");
                format!("{:?} {c}", e.map(|x| hex(&x)))
            }
            None => "cannot be built".into(),
        },
        Job::File(id, b) => match FileId::try_from(*id).and_then(|i| LFile::from_bytes((&b.0, 0), i, b.0.len() as u32)) {
            Ok((rest, f)) => format!("{f:?} {rest:?}"),
            Err(e) => format!("{e:?}"),
        },
        Job::Frame(k, b) => {
            fn t<T: for<'a> DekuContainerRead<'a> + DekuContainerWrite + Debug>(b: &[u8]) -> String {
                match T::from_bytes((b, 0)) {
                    Ok((rest, f)) => format!("{f:?} {rest:?} {:?}", f.to_bytes().map(|x| hex(&x))),
                    Err(e) => format!("{e:?}"),
                }
            }
            match k % 4 {
                0 => t::<ForegroundFrame>(&b.0),
                1 => t::<BackgroundFrame>(&b.0),
                2 => t::<network::Frame>(&b.0),
                _ => t::<transport::Frame>(&b.0),
            }
        }
        Job::Number(v, c) => {
            let x = types::VarInt::new(*v, *c);
            let y = types::VarInt::new_unchecked(*v, *c);
            format!("{x:?} {:?} {:?}", Length::from(*v).to_bytes(), y.to_bytes())
        }
        Job::Spoiled(s) => match super::values::spoiled_command(s) {
            Ok((_, _, c)) => {
                let before = format!("{c:?}");
                let e = c.to_bytes().map(|x| hex(&x));
                let after = format!("{c:?}");
                assert!(before == after, "encoding changes the value");
                format!("{e:?} {before}")
            }
            Err(e) => e,
        },
    }
}
/// What a job gives in a process of its own.
fn alone(j: &Job) -> String {
    let dir = std::env::var("D7_WORK").unwrap_or_else(|_| std::env::temp_dir().join(format!("d7-{}", std::process::id())).to_str().unwrap().into());
    let (a, b) = (format!("{dir}.job"), format!("{dir}.answer"));
    std::fs::write(&a, serde_json::to_vec(j).unwrap()).unwrap();
    let exe = std::env::current_exe().unwrap();
    let ok = std::process::Command::new(exe).args(["job", &a, "--out", &b]).output().is_ok_and(|o| o.status.success());
    let s = if ok { std::fs::read_to_string(&b).unwrap() } else { "no answer".into() };
    let _ = (std::fs::remove_file(&a), std::fs::remove_file(&b));
    s
}
pub fn job_answer(text: &[u8]) -> String {
    perform(&serde_json::from_slice(text).unwrap())
}
/// What the layout says about the job, whatever happened before.
fn expected(j: &Job, got: &str) -> V {
    match j {
        Job::Decode(b) => {
            // the text of a value starts with its name, that of an error does not
            let ok = got.starts_with("Command");
            match ref_cmd(&b.0) {
                Ok((m, _)) if !m.iter().any(|a| matches!(a, Act::Indirect(..))) => {
                    ensure!(ok, "{} is refused after all: {}", hex(&b.0), short(got));
                    if !has_k1(&m) {
                        let want = format!("Ok({:?})", hex(&m.bytes(D)));
                        ensure!(got.ends_with(&want), "{} decodes to {}, not to {want}", hex(&b.0), short(got));
                    }
                }
                Err(_) => ensure!(!ok, "{} is accepted after all: {}", hex(&b.0), short(got)),
                _ => {}
            }
        }
        Job::Encode(m) if !has_k1(m) => {
            let want = format!("Ok({:?})", hex(&m.bytes(D)));
            ensure!(got.starts_with(&want), "{m:?} encodes to {}, not to {want}", short(got));
        }
        _ => {}
    }
    Ok(())
}
fn job() -> S<Job> {
    let few = || vec(gen::act_no_indirect(), 0..3).boxed();
    let frame = prop_oneof![
        1 => gen::trans_with(few()).prop_map(|m| (3u8, m.bytes(D))),
        1 => gen::net_with(gen::trans_with(few())).prop_map(|m| (2u8, m.bytes(D))),
        2 => gen::fg_with(gen::net_with(gen::trans_with(few()))).prop_map(|m| (0u8, m.bytes(D))),
        1 => gen::bg().prop_map(|m| (1u8, m.bytes(D))),
        2 => (any::<u8>(), any_bytes()),
    ];
    prop_oneof![
        5 => hexed(gen::cmd_bytes()).prop_map(Job::Decode),
        4 => vec(gen::act_no_indirect(), 0..4).prop_map(Job::Encode),
        2 => (prop_oneof![3 => gen::typed_file().prop_map(|(i, f)| (i, f.bytes(D))), 1 => (any::<u8>(), any_bytes())])
            .prop_map(|(i, b)| Job::File(i, Hex(b))),
        2 => frame.prop_map(|(k, b)| Job::Frame(k, Hex(b))),
        1 => (gen::u32b(), any::<bool>()).prop_map(|(a, b)| Job::Number(a, b)),
        2 => super::values::spoiled().prop_map(Job::Spoiled),
    ]
    .boxed()
}
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}
/// Standard output and error go into a file; says how much was written and what.
struct Muted {
    saved: (i32, i32),
    path: String,
}
impl Muted {
    fn new() -> Muted {
        use std::os::fd::AsRawFd;
        let dir = std::env::var("D7_WORK").unwrap_or_else(|_| std::env::temp_dir().join(format!("d7-{}", std::process::id())).to_str().unwrap().into());
        let path = format!("{dir}.out");
        let f = std::fs::OpenOptions::new().create(true).append(true).open(&path).expect("scratch file");
        f.set_len(0).unwrap();
        let _ = (std::io::stdout().flush(), std::io::stderr().flush());
        unsafe {
            let saved = (dup(1), dup(2));
            assert!(saved.0 >= 0 && saved.1 >= 0 && dup2(f.as_raw_fd(), 1) >= 0 && dup2(f.as_raw_fd(), 2) >= 0);
            Muted { saved, path }
        }
    }
    fn check(&self) -> V {
        let _ = (std::io::stdout().flush(), std::io::stderr().flush());
        let n = std::fs::metadata(&self.path).map_err(|e| e.to_string())?.len();
        if n > 0 {
            let s = std::fs::read(&self.path).unwrap_or_default();
            std::fs::OpenOptions::new().write(true).open(&self.path).and_then(|f| f.set_len(0)).map_err(|e| e.to_string())?;
            return Err(format!("{n} bytes were written to standard output or error: {}", short(String::from_utf8_lossy(&s))));
        }
        Ok(())
    }
}
impl Drop for Muted {
    fn drop(&mut self) {
        unsafe {
            dup2(self.saved.0, 1);
            dup2(self.saved.1, 2);
            close(self.saved.0);
            close(self.saved.1);
        }
        let _ = std::fs::remove_file(&self.path);
    }
}
pub fn pure(r: &mut Run) {
    let muted = Muted::new();
    // jobs, some of them again; long runs reach state that builds up
    let s = (vec(job(), 1..9), vec(any::<u16>(), 0..5), any::<bool>(), 0u8..8).boxed();
    let check = |(jobs, again, threads, twist): &(Vec<Job>, Vec<u16>, bool, u8), o: &mut Obs| -> V {
        let mut jobs = jobs.clone();
        for i in again {
            let j = jobs[*i as usize * jobs.len() / 65536].clone();
            jobs.push(j);
        }
        o.nontrivial_if(jobs.len() > 1);
        o.label(format!("{} jobs", jobs.len()));
        let first: Vec<String> = jobs.iter().map(perform).collect();
        for (j, g) in jobs.iter().zip(&first) {
            // a process that has done nothing else decides: a wrong answer that is always given is not this property's
            if let Err(e) = expected(j, g) {
                o.label("compared with a fresh process");
                let fresh = alone(j);
                ensure!(fresh == *g, "{j:?} gives {} in a new process and {} here ({e})", short(&fresh), short(g));
            }
        }
        let same = |i: usize, got: &str, how: &str| -> V {
            ensure!(got == first[i], "{:?} gives {} at first and {} {how}", jobs[i], short(&first[i]), short(got));
            Ok(())
        };
        for i in (0..jobs.len()).rev() {
            same(i, &perform(&jobs[i]), "in reverse order")?;
        }
        let k = 1 + *twist as usize;
        for s in 0..jobs.len() {
            let i = (s * k + s) % jobs.len();
            same(i, &perform(&jobs[i]), "later")?;
            same(i, &perform(&jobs[i]), "once more")?;
        }
        if *threads {
            o.label("with threads");
            let res: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..3)
                    .map(|t| {
                        let jobs = &jobs;
                        sc.spawn(move || {
                            (0..jobs.len()).map(|s| (s + t) % jobs.len()).map(|i| (i, perform(&jobs[i]))).collect::<Vec<_>>()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().map_err(|_| "a thread panicked".to_string())).collect::<Result<_, String>>()
            })?;
            for (i, g) in res.into_iter().flatten() {
                same(i, &g, "on another thread")?;
            }
        }
        muted.check()
    };
    r.prop("histories", 12_000, s, check);
    let long = (vec(job(), 30..120), vec(any::<u16>(), 0..40), any::<bool>(), 0u8..8).boxed();
    r.prop("long histories", 250, long, check);
    // printing only happens on some path, so all paths are walked in silence
    r.guided("silence", 50_000, 20_000, hexed(any_bytes()), |_| true, |b, o| {
        o.nontrivial_if(b.0.len() > 1);
        command(&b.0, 0);
        let _ = all_of(&b.0);
        plain::<BackgroundFrame>(&b.0, 0);
        for id in [0u8, 1, 2, 5, 6, 9, 0xA, 0xB, 0xE, 0x20, 0x2E, 0x40] {
            let _ = FileId::try_from(id).and_then(|i| LFile::from_bytes((&b.0, 0), i, b.0.len() as u32));
        }
        muted.check()
    });
    let b = prop_oneof![2 => gen::big().prop_map(|m| m.acts().bytes(D)), 1 => gen::long_any().prop_map(|m| m.acts().bytes(D))];
    r.prop("silence, large", 200, hexed((b, any::<u16>(), any::<bool>()).prop_map(|(mut b, cut, whole)| {
        if !whole {
            b.truncate(cut as usize * b.len() / 65536);
        }
        b
    }).boxed()), |b, o| {
        o.nontrivial_if(b.0.len() > 1000);
        command(&b.0, 0);
        let _ = all_of(&b.0);
        for id in [0u8, 1, 2, 8, 0x20, 0x40] {
            let _ = FileId::try_from(id).and_then(|i| LFile::from_bytes((&b.0, 0), i, b.0.len() as u32)).map(|(_, f)| use_it(&f));
        }
        muted.check()
    });
}

// ------------------------------------------------------------------------- C17

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Call {
    /// none, or the name of the type
    kind: Option<String>,
    file: Option<u16>,
    long: bool,
    bytes: Hex,
    /// how the digits are written
    upper: u64,
    spaces: Vec<(u16, u8)>,
    /// something that is not a hex digit, put at a place
    bad: Option<(u16, char)>,
    /// leave out the last digit
    odd: bool,
    verbose: bool,
}
const KINDS: [(&str, &str, u8); 5] =
    [("foreground", "fg", 0), ("background", "bg", 1), ("alp", "a", 2), ("serial", "e", 3), ("systemfile", "s", 4)];
fn digits(c: &Call) -> String {
    let mut v: Vec<char> = hex(&c.bytes.0)
        .chars()
        .enumerate()
        .map(|(i, x)| if c.upper >> (i % 64) & 1 == 1 { x.to_ascii_uppercase() } else { x })
        .collect();
    if c.odd {
        v.pop();
    }
    if let Some((p, x)) = c.bad {
        v.insert(p as usize * (v.len() + 1) / 65536, x);
    }
    for (p, k) in &c.spaces {
        let ws = [' ', '\t', '\n', '\r', '\u{a0}', '\u{2003}'][*k as usize % 6];
        v.insert(*p as usize * (v.len() + 1) / 65536, ws);
    }
    v.into_iter().collect()
}
fn shown_fg(b: &[u8]) -> Option<String> {
    ForegroundFrame::try_from(b).ok().map(|f| format!("{f:?}\n"))
}
fn shown_bg(b: &[u8]) -> Option<String> {
    BackgroundFrame::try_from(b).ok().map(|f| format!("{f:?}\n"))
}
fn shown_alp(b: &[u8]) -> Option<String> {
    Command::try_from(b).ok().map(|c| format!("{c}\n"))
}
fn shown_file(b: &[u8], id: u8) -> Option<String> {
    let id = FileId::try_from(id).ok()?;
    LFile::from_bytes((b, 0), id, b.len() as u32).ok().map(|f| format!("{f:?}\n"))
}
fn shown_any_file(b: &[u8]) -> Option<String> {
    (0..=0x2Eu8).find_map(|id| shown_file(b, id))
}
/// What the tool has to print, or nothing when it has to fail.
fn wanted(c: &Call, kind: Option<u8>) -> Option<String> {
    if c.file.is_some_and(|f| f > 255) {
        return None;
    }
    if c.bad.is_some() || (c.odd && !c.bytes.0.is_empty()) {
        return None;
    }
    let b = &c.bytes.0[..];
    match kind {
        None => shown_fg(b).or_else(|| shown_bg(b)).or_else(|| shown_alp(b)).or_else(|| shown_any_file(b)),
        Some(0) => shown_fg(b),
        Some(1) => shown_bg(b),
        Some(2) => shown_alp(b),
        Some(3) => None,
        Some(_) => match c.file {
            Some(id) => shown_file(b, id as u8),
            None => shown_any_file(b),
        },
    }
}
pub fn cli(r: &mut Run) {
    let tool = std::env::var("D7_CLI").expect("D7_CLI");
    let few = || vec(gen::act_with(gen::query_any(), gen::ifstatus_any()), 0..3).boxed();
    let bytes = prop_oneof![
        3 => (Just(2u8), gen::cmd_any().prop_map(|c| c.bytes(D)), Just(None)),
        3 => (Just(0u8), gen::fg_with(gen::net_with(gen::trans_with(few()))).prop_map(|m| m.bytes(D)), Just(None)),
        2 => (Just(1u8), gen::bg().prop_map(|m| m.bytes(D)), Just(None)),
        4 => gen::typed_file().prop_map(|(i, f)| (4u8, f.bytes(D), Some(i as u16))),
        2 => (Just(4u8), gen::payload(), prop_oneof![4 => any::<u8>().prop_map(u16::from), 1 => 250u16..300].prop_map(Some)),
        1 => (Just(3u8), any_bytes(), Just(None)),
        2 => (0u8..5, any_bytes(), proptest::option::of(any::<u8>().prop_map(u16::from))),
        3 => (0u8..5, gen::mutated(encodings()), proptest::option::of(any::<u8>().prop_map(u16::from))),
    ];
    let spell = (
        prop_oneof![2 => Just(0u64), 2 => any::<u64>(), 1 => Just(u64::MAX)],
        prop_oneof![2 => Just(vec![]), 2 => vec((any::<u16>(), 0u8..6), 0..6)],
        prop_oneof![12 => Just(None), 1 => (any::<u16>(), prop_oneof![
            Just('g'), Just('G'), Just('x'), Just('.'), Just('/'), Just(':'), Just('@'), Just('`'), Just('é'), Just('０')]).prop_map(Some)],
        prop_oneof![12 => Just(false), 1 => Just(true)],
        prop_oneof![9 => Just(false), 1 => Just(true)],
    );
    let s = (bytes, 0u8..4, any::<bool>(), any::<bool>(), spell)
        .prop_map(|((kind, bytes, file), how, long, with_id, (upper, spaces, bad, odd, verbose))| {
            let name = match how {
                0 => None,
                1 => Some(KINDS[kind as usize].1.to_string()),
                _ => Some(KINDS[kind as usize].0.to_string()),
            };
            Call { kind: name, file: file.filter(|_| with_id || how > 1), long, bytes: Hex(bytes), upper, spaces, bad, odd, verbose }
        })
        .boxed();
    r.prop("parse", 9_000, s, |c, o| {
        let text = digits(c);
        let mut cmd = std::process::Command::new(&tool);
        cmd.arg("parse").stdin(std::process::Stdio::null()).env_remove("RUST_LOG").env_remove("RUST_BACKTRACE");
        let kind = c.kind.as_deref().map(|k| KINDS.iter().find(|x| x.0 == k || x.1 == k).unwrap().2);
        if let Some(k) = &c.kind {
            cmd.args([if c.long { "--type" } else { "-t" }, k]);
        }
        if let Some(f) = c.file {
            cmd.args(["-f", &f.to_string()]);
        }
        if c.verbose {
            cmd.arg("-v");
        }
        cmd.arg(&text);
        let out = cmd.output().map_err(|e| format!("the tool does not run: {e}"))?;
        let want = wanted(c, kind);
        o.nontrivial_if(!c.bytes.0.is_empty());
        o.label(format!(
            "{}: {}",
            c.kind.as_deref().unwrap_or("no type"),
            if c.bad.is_some() || c.odd { "bad hex" } else if want.is_some() { "shown" } else { "refused" }
        ));
        let got = String::from_utf8_lossy(&out.stdout).into_owned();
        match want {
            Some(w) => {
                ensure!(out.status.success(), "{text:?} fails with {}, but the library gives {}", out.status, short(w));
                ensure!(got == w, "{text:?} prints {}, but the library gives {}", short(got), short(w));
            }
            None => {
                ensure!(!out.status.success(), "{text:?} succeeds and prints {}", short(got));
                ensure!(got.is_empty(), "{text:?} fails but prints {}", short(got));
            }
        }
        Ok(())
    });
    // an output that takes nothing
    let shown = prop_oneof![
        (Just("alp"), gen::cmd_any().prop_map(|c| c.bytes(D))),
        (Just("background"), gen::bg().prop_map(|m| m.bytes(D))),
        (Just("systemfile"), gen::payload()),
    ];
    r.prop("nowhere to print", 240, shown.prop_map(|(k, b)| (k.to_string(), Hex(b))).boxed(), |(k, b), o| {
        o.nontrivial();
        let Ok(full) = std::fs::OpenOptions::new().write(true).open("/dev/full") else { return Ok(()) };
        let mut cmd = std::process::Command::new(&tool);
        cmd.args(["parse", "-t", k, &hex(&b.0)]).stdin(std::process::Stdio::null()).env_remove("RUST_LOG").env_remove("RUST_BACKTRACE");
        let out = cmd.stdout(full).output().map_err(|e| format!("the tool does not run: {e}"))?;
        ensure!(!out.status.success(), "{k} {b:?}: nothing could be printed, but the tool succeeds");
        Ok(())
    });
}

// ------------------------------------------------------------------------- C18

/// What Miri decodes: "<kind> <hex>" per line, cut and damaged at every point of small messages.
pub fn memory_cases(r: &Run, n: u32) -> String {
    let few = || vec(gen::act_with(gen::query_any(), gen::ifstatus_any()), 0..3).boxed();
    let base: S<(String, Vec<u8>)> = prop_oneof![
        4 => few().prop_map(|c| ("cmd".to_string(), c.bytes(D))),
        5 => gen::typed_file().prop_map(|(i, f)| (format!("file{i:02x}"), f.bytes(D))),
        2 => gen::typed_file().prop_map(|(i, f)| ("cmd".to_string(), Act::Data(4, H { g: false, r: true }, Off { id: i, off: 0 }, f).bytes(D))),
        1 => gen::trans_with(few()).prop_map(|m| ("tr".to_string(), m.bytes(D))),
        1 => gen::net_with(gen::trans_with(few())).prop_map(|m| ("net".to_string(), m.bytes(D))),
        2 => gen::fg_with(gen::net_with(gen::trans_with(few()))).prop_map(|m| ("fg".to_string(), m.bytes(D))),
        1 => gen::bg().prop_map(|m| ("bg".to_string(), m.bytes(D))),
    ]
    .boxed();
    lines(r, n, base, 200)
}
/// An interpreter that checks memory takes a tenth of a second for reading a bit field, so these are
/// mostly files, which have few of them and all the arrays.
pub fn interpreter_cases(r: &Run, n: u32) -> String {
    let one = || vec(gen::act_with(gen::query_any(), gen::ifstatus_any()), 0..2).boxed();
    let base: S<(String, Vec<u8>)> = prop_oneof![
        40 => gen::typed_file().prop_map(|(i, f)| (format!("file{i:02x}"), f.bytes(D))),
        2 => one().prop_map(|c| ("cmd".to_string(), c.bytes(D))).prop_filter("short", |(_, b)| b.len() < 16),
        1 => gen::trans_with(Just(vec![]).boxed()).prop_map(|m| ("tr".to_string(), m.bytes(D))),
        1 => gen::bg().prop_map(|m| ("bg".to_string(), m.bytes(D))),
    ]
    .boxed();
    lines(r, n, base, 80)
}
fn lines(r: &Run, n: u32, base: S<(String, Vec<u8>)>, max: usize) -> String {
    let damage = prop_oneof![
        2 => Just(None),
        2 => any::<u16>().prop_map(|p| Some(vec![gen::Mut::Cut(p)])),
        3 => vec(gen::mutation(), 1..4).prop_map(Some)
    ];
    let s = (base, damage)
        .prop_map(move |((k, mut b), m)| {
            gen::mutate(&mut b, &m.unwrap_or_default());
            b.truncate(max);
            (k, b)
        })
        .boxed();
    r.draw("memory", n, s).into_iter().map(|(k, b)| format!("{k} {}\n", hex(&b))).collect()
}
