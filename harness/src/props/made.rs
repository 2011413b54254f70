//! C28: constructors, conversions and defaults give what their arguments say.
use super::*;
use crate::gen;
use crate::model::{Addressee, Query, File};
use crate::run::{hexed, Run};
use dash7::app::action::OpCode;
use dash7::app::operation as op;
use dash7::app::{interface, query};
use dash7::file as sys;
use dash7::session::InterfaceType;
use dash7::types::VarInt;
use dash7::{data, link, network, physical, session, transport};
use proptest::prelude::*;
use std::fmt::Debug;

/// The operand's own opcode field, wherever there is one.
pub fn opcode_of(a: &mut Action) -> Option<&mut OpCode> {
    Some(match a {
        Action::Nop(x) => &mut x.opcode,
        Action::ReadFileData(x) => &mut x.opcode,
        Action::WriteFileData(x) | Action::WriteFileDataFlush(x) | Action::ReturnFileData(x) => &mut x.opcode,
        Action::ReadFileProperties(x)
        | Action::ExistFile(x)
        | Action::DeleteFile(x)
        | Action::RestoreFile(x)
        | Action::FlushFile(x)
        | Action::ExecuteFile(x) => &mut x.opcode,
        Action::WriteFileProperties(x) | Action::CreateNewFile(x) | Action::ReturnFileProperties(x) => &mut x.opcode,
        Action::ActionQuery(x) | Action::BreakQuery(x) | Action::VerifyChecksum(x) => &mut x.opcode,
        Action::PermissionRequest(x) => &mut x.opcode,
        Action::CopyFile(x) => &mut x.opcode,
        Action::Status(x) => &mut x.opcode,
        Action::ResponseTag(x) => &mut x.opcode,
        #[cfg(feature = "wizzilab")]
        Action::TxStatus(x) => &mut x.opcode,
        Action::Chunk(x) => &mut x.opcode,
        Action::Logic(x) => &mut x.opcode,
        Action::Forward(x) => &mut x.opcode,
        Action::IndirectForward(x) => &mut x.opcode,
        Action::RequestTag(x) => &mut x.opcode,
        Action::Extension(x) => &mut x.opcode,
        #[allow(unreachable_patterns)]
        _ => return None,
    })
}
/// A default: what it is written as, and that it comes back.
fn default<T>(name: &str, want: &[u8]) -> V
where
    T: for<'a> DekuContainerRead<'a> + DekuContainerWrite + Default + PartialEq + Debug,
{
    let v = T::default();
    let e = v.to_bytes().map_err(|e| format!("the default {name} does not encode: {}", e2s(e)))?;
    ensure!(e == want, "the default {name} encodes to {} instead of {}", hex(&e), hex(want));
    let (_, back) = T::from_bytes((&e, 0)).map_err(|e| format!("the default {name} is refused: {}", e2s(e)))?;
    ensure!(back == v, "the default {name} {v:?} comes back as {back:?}");
    Ok(())
}
/// The default operand of an action, against an action with everything zero, off or absent.
fn operand(a: Action, m: Act) -> V {
    let want = m.bytes(D);
    let e = a.to_bytes().map_err(|e| format!("{a:?} does not encode: {}", e2s(e)))?;
    ensure!(e == want, "{a:?} encodes to {} instead of {}", hex(&e), hex(&want));
    let back = Action::try_from(&e[..]).map_err(|e| format!("{a:?} is refused: {}", e2s(e)))?;
    same_act(&back, &m)?;
    let mut a = a;
    if let Some(o) = opcode_of(&mut a) {
        *o = OpCode(m.opcode());
    }
    ensure!(back == a, "{a:?} comes back as {back:?}");
    Ok(())
}
fn operands() -> Vec<(Action, Act)> {
    let h = || H { g: false, r: false };
    let o = || Off { id: 0, off: 0 };
    let p = || FHdr {
        perm: FPerm {
            encrypted: false,
            executable: false,
            user: Perm { r: false, w: false, x: false },
            guest: Perm { r: false, w: false, x: false },
        },
        prop: FProp { enabled: false, cond: 0, storage: 0 },
        alp: 0,
        iface: 0,
        size: 0,
        alloc: 0,
    };
    let q = || Query::NonVoid { len: 0, file: o() };
    use Default as Z;
    vec![
        (Action::Nop(Z::default()), Act::Nop(h())),
        (Action::ReadFileData(Z::default()), Act::Read(h(), o(), 0)),
        (Action::ReadFileProperties(Z::default()), Act::Fid(2, h(), 0)),
        (Action::WriteFileData(Z::default()), Act::Data(4, h(), o(), File::Other(vec![]))),
        (Action::WriteFileDataFlush(Z::default()), Act::Data(5, h(), o(), File::Other(vec![]))),
        (Action::WriteFileProperties(Z::default()), Act::Prop(6, h(), 0, p())),
        (Action::ActionQuery(Z::default()), Act::Query(8, h(), q())),
        (Action::BreakQuery(Z::default()), Act::Query(9, h(), q())),
        (Action::PermissionRequest(Z::default()), Act::Permission(h(), 0, vec![0; 8])),
        (Action::VerifyChecksum(Z::default()), Act::Query(11, h(), q())),
        (Action::ExistFile(Z::default()), Act::Fid(16, h(), 0)),
        (Action::CreateNewFile(Z::default()), Act::Prop(17, h(), 0, p())),
        (Action::DeleteFile(Z::default()), Act::Fid(18, h(), 0)),
        (Action::RestoreFile(Z::default()), Act::Fid(19, h(), 0)),
        (Action::FlushFile(Z::default()), Act::Fid(20, h(), 0)),
        (Action::CopyFile(Z::default()), Act::Copy(h(), 0, 0)),
        (Action::ExecuteFile(Z::default()), Act::Fid(31, h(), 0)),
        (Action::ReturnFileData(Z::default()), Act::Data(32, h(), o(), File::Other(vec![]))),
        (Action::ReturnFileProperties(Z::default()), Act::Prop(33, h(), 0, p())),
        (Action::Status(Z::default()), Act::ActionStatus(0, 0)),
        (Action::ResponseTag(Z::default()), Act::ResponseTag { eop: false, err: false, id: 0 }),
        (Action::Chunk(Z::default()), Act::Chunk(0)),
        (Action::Logic(Z::default()), Act::Logic(0)),
        (Action::Forward(Z::default()), Act::Forward(false, IfCfg::Host)),
        (Action::IndirectForward(Z::default()), Act::Indirect(false, None)),
        (Action::RequestTag(Z::default()), Act::RequestTag { eop: false, id: 0 }),
        (Action::Extension(Z::default()), Act::Ext(h())),
    ]
}
fn defaults(r: &mut Run) {
    let n = operands().len();
    r.each("default operands", 0..n as u32, |i, o| {
        o.nontrivial();
        let (a, m) = operands().remove(*i as usize);
        operand(a, m)
    });
    // broadcast to everyone, without security and access class
    let addressee: &[u8] = &[0x10, 0];
    let d7: Vec<u8> = if D == Dialect::Subiot { vec![0, 0, 0x10, 0] } else { vec![0, 0, 0, 0x10, 0] };

    type Case<'a> = (&'static str, Vec<u8>, fn(&str, &[u8]) -> V);
    macro_rules! all { ($($t:ty => $w:expr),* $(,)?) => { vec![ $( (stringify!($t), Vec::from($w), default::<$t> as fn(&str, &[u8]) -> V), )* ] }; }
    let list: Vec<Case> = all![
        op::FileOffset => [0, 0],
        op::Length => [0],
        op::ActionStatus => [0, 0],
        op::StatusCode => [0],
        op::Permission => [0x42, 0, 0, 0, 0, 0, 0, 0, 0],
        op::PermissionLevel => [0],
        op::InterfaceStatusOperation => [0, 0],
        query::Query => [0, 0, 0, 0],
        interface::InterfaceConfiguration => [0],
        interface::IndirectInterface => [0],
        interface::Dash7InterfaceConfiguration => d7,
        interface::LoRaWANInterfaceConfiguration => [0, 0, 0],
        session::QoS => [0],
        InterfaceType => [0],
        network::Addressee => addressee,
        network::Control => [0x10],
        network::HoppingControl => [0x10],
        network::Frame => [0x10, 0, 0, 0, 0],
        transport::Control => [0],
        transport::AckTemplate => [0, 0],
        transport::Frame => [0, 0, 0],
        link::AccessClass => [0],
        link::SubProfile => [0, 0],
        link::AccessProfile => vec![0; 65],
        link::BackgroundFrameControl => [0x40],
        link::BackgroundFrame => [0, 0x40, 0, 0, 0, 0],
        link::ForegroundFrameControl => [0x40],
        physical::ChannelHeader => [0],
        physical::Channel => [0, 0, 0],
        physical::ChannelStatusIdentifier => [0, 0],
        physical::SubBand => [0; 7],
        data::FilePermissions => [0],
        data::FileProperties => [0],
        data::FileHeader => vec![0; 12],
        VarInt => [0],
    ];
    let n = list.len();
    r.each("default parts", 0..n as u32, |i, o| {
        o.nontrivial();
        let (name, want, f) = &list[*i as usize];
        f(name, want)
    });
    r.each("default command", 0..1u8, |_, o| {
        o.nontrivial();
        let c = Command::default();
        ensure!(c == Command::new(vec![]) && encode(&c)?.is_empty(), "the default command is {c:?}");
        let z: op::Status = Default::default();
        ensure!(z == op::Status::Action(op::ActionStatus { action_id: 0, status: op::StatusCode::OK }), "the default status is {z:?}");
        ensure!(sys::File::default() == sys::File::Other(vec![]), "the default file is {:?}", sys::File::default());
        ensure!(network::Address::default() == network::Address::NoId, "the default address is {:?}", network::Address::default());
        ensure!(network::NlsState::default() == network::NlsState::None, "the default security is {:?}", network::NlsState::default());
        ensure!(session::InterfaceStatus::default() == session::InterfaceStatus::Host, "the default interface status is {:?}", session::InterfaceStatus::default());
        Ok(())
    });
}
fn constructors(r: &mut Run) {
    r.each("small constructors", 0..=0xFFFFu32, |p, o| {
        o.nontrivial();
        let (a, b) = ((p >> 8) as u8, *p as u8);
        let f = op::FileOffset::no_offset(a);
        ensure!(f == op::FileOffset { file_id: a, offset: 0u32.into() }, "no offset in {a} is {f:?}");
        let (g, w) = (a & 1 == 1, a & 2 == 2);
        let h = op::ActionHeader::new(g, w);
        ensure!(h.group == g && h.response == w, "header {g} {w} is {h:?}");
        let h = op::IndirectForwardHeader::new(g, w);
        ensure!(h.overloaded == g && h.response == w, "indirect header {g} {w} is {h:?}");
        let c = link::AccessClass::new(a, b);
        ensure!(c.specifier == a && c.mask == b, "class {a} {b} is {c:?}");
        if a < 16 && b < 16 {
            let e = c.to_bytes().map_err(e2s)?;
            ensure!(e == [a << 4 | b], "class {a} {b} is written as {}", hex(&e));
        }
        let none = link::AccessClass::unavailable();
        ensure!(none == link::AccessClass::new(15, 15) && none.to_bytes().ok() == Some(vec![0xFF]), "no class is {none:?}");
        if a < 5 && b < 16 {
            let h = physical::ChannelHeader::new(conv::band(a), conv::class(b & 3), conv::coding(b >> 2));
            ensure!(h.channel_band == conv::band(a) && h.channel_class == conv::class(b & 3) && h.channel_coding == conv::coding(b >> 2), "channel {a} {b} is {h:?}");
        }
        for v in [*p, p << 8, p << 14] {
            let n: u32 = op::Length::from(v).into();
            let w: usize = op::Length::from(v as usize).into();
            let x: u32 = VarInt::from(v).into();
            ensure!(n == v && w == v as usize && x == v, "{v} becomes {n}, {w}, {x}");
            ensure!(VarInt::from(v) == VarInt::new_unchecked(v, false), "{v} is made as {:?}", VarInt::from(v));
        }
        Ok(())
    });
    let args = (gen::h(), gen::file_data(), prop_oneof![Just(4u8), Just(5), Just(32)], any::<bool>(), gen::ifcfg(), proptest::option::of(gen::indif()));
    r.prop("operands", 6_000, args.boxed(), |(h, (off, f), code, resp, cfg, ind), o| {
        o.nontrivial();
        let d = op::FileData::new(conv::hdr(h), conv::off(off), conv::file(f), OpCode(*code));
        ensure!(d.header == conv::hdr(h) && d.offset == conv::off(off) && d.opcode == OpCode(*code), "the data is made as {d:?}");
        let e = write_ctx(&d, OpCode(*code)).map_err(e2s)?;
        let want = Act::Data(*code, h.clone(), off.clone(), f.clone()).bytes(D);
        ensure!(e == want, "{d:?} is written as {}, not {}", hex(&e), hex(&want));
        let x = op::Forward::new(*resp, conv::ifcfg(cfg));
        ensure!(x.header.response == *resp && x.configuration == conv::ifcfg(cfg) && x.opcode == OpCode(50), "forward is made as {x:?}");
        let x = op::IndirectForward::new(*resp, ind.as_ref().map(conv::indif));
        ensure!(x.header.response == *resp && x.header.overloaded == ind.is_some() && x.opcode == OpCode(51), "indirect forward is made as {x:?}");
        ensure!(x.configuration == ind.as_ref().map(conv::indif), "indirect forward is made as {x:?}");
        Ok(())
    });
    r.prop("addressees", 4_000, gen::addressee(), |m: &Addressee, o| {
        o.nontrivial();
        let a = conv::addressee(m);
        ensure!(a.address == conv::addr(&m.addr) && a.nls_state == conv::nls(m.nls, &m.nls_state), "{m:?} is made as {a:?}");
        ensure!(a.access_class == link::AccessClass { specifier: m.spec, mask: m.mask }, "{m:?} is made as {a:?}");
        #[cfg(feature = "wizzilab")]
        ensure!(a.use_vid == m.use_vid && a.group_condition == conv::group(m.gc), "{m:?} is made as {a:?}");
        let mut u = a.clone();
        u.update().map_err(e2s)?;
        ensure!(u == a, "{a:?} is updated to {u:?}");
        Ok(())
    });
    let args = (0u8..6, any::<bool>(), gen::payload(), gen::payload(), 0u8..8, (gen::len30(), gen::len30()), gen::off(), gen::off());
    r.prop("queries", 12_000, args.boxed(), |(cmp, signed, mask, value, errs, (start, stop), f, g), o| {
        o.nontrivial();
        let mp = !mask.is_empty();
        // a mask is as long as what it is for
        let value: Vec<u8> = if mp { value.iter().chain(std::iter::repeat(&9)).take(mask.len()).cloned().collect() } else { value.clone() };
        let (len, vlen) = (mask.len() as u32, value.len() as u32);
        let (signed, cmp) = (*signed, *cmp);
        let x = query::ComparisonWithZero::new(conv::arith(signed, cmp), mask.clone(), conv::off(f));
        ensure!(x.mask == *mask && x.file == conv::off(f) && x.params == conv::arith(signed, cmp), "made as {x:?}");
        made(x, query::Query::ComparisonWithZero, Query::Zero { mp, signed, cmp, len, mask: mask.clone(), file: f.clone() })?;
        let x = query::ComparisonWithValue::new(conv::arith(signed, cmp), mask.clone(), value.clone(), conv::off(f));
        ensure!(x.mask == *mask && x.value == value && x.file == conv::off(f) && x.params == conv::arith(signed, cmp), "made as {x:?}");
        made(x, query::Query::ComparisonWithValue, Query::Value { mp, signed, cmp, len: vlen, mask: mask.clone(), value: value.clone(), file: f.clone() })?;
        let x = query::ComparisonWithOtherFile::new(conv::arith(signed, cmp), mask.clone(), conv::off(f), conv::off(g));
        ensure!(x.mask == *mask && x.file1 == conv::off(f) && x.file2 == conv::off(g) && x.params == conv::arith(signed, cmp), "made as {x:?}");
        ensure!(x.length == op::Length::from(len), "made as {x:?}");
        made(x, query::Query::ComparisonWithOtherFile, Query::Other { mp, signed, cmp, len, mask: mask.clone(), f1: f.clone(), f2: g.clone() })?;
        let x = query::BitmapRangeComparison::new(conv::range(signed, cmp & 1), *start, *stop, mask.clone(), conv::off(f));
        ensure!(x.mask == *mask && x.file == conv::off(f) && x.params == conv::range(signed, cmp & 1), "made as {x:?}");
        ensure!(x.start == op::Length::from(*start) && x.stop == op::Length::from(*stop) && x.length == op::Length::from(len), "made as {x:?}");
        made(x, query::Query::BitmapRangeComparison, Query::Bitmap { mp, signed, cmp: cmp & 1, len, start: *start, stop: *stop, mask: mask.clone(), file: f.clone() })?;
        let x = query::StringTokenSearch::new(*errs, mask.clone(), value.clone(), conv::off(f));
        ensure!(x.mask == *mask && x.value == value && x.max_errors == *errs && x.file == conv::off(f), "made as {x:?}");
        ensure!(x.length == op::Length::from(vlen), "made as {x:?}");
        made(x, query::Query::StringTokenSearch, Query::Str { mp, errs: *errs, len: vlen, mask: mask.clone(), value, file: f.clone() })
    });
    // the count of channels is kept in a byte
    let phy = (gen::u32b(), gen::u32b(), gen::u32b(), gen::u16b(), proptest::collection::vec(gen::chstatus(), 0..5), 0u16..256);
    r.prop("physical status", 1_500, phy.boxed(), |(up, rx, tx, duty, few, n), o| {
        o.nontrivial();
        let ch: Vec<ChStatus> = few.iter().cycle().take(*n as usize).cloned().collect();
        let l: Vec<_> = ch.iter().map(conv::chstatus).collect();
        let x = sys::PhyStatus::new(*up, *rx, *tx, *duty, l.clone());
        ensure!(x.up_time == *up && x.rx_time == *rx && x.tx_time == *tx && x.tx_duty_cycle == *duty && x.channel_status == l, "made as {x:?}");
        let want = File::Phy { up: *up, rx: *rx, tx: *tx, duty: *duty, ch }.bytes(D);
        let e = x.to_bytes().map_err(e2s)?;
        ensure!(e == want, "{x:?} is written as {}, not {}", hex(&e), hex(&want));
        Ok(())
    });
}
/// A query just made: up to date, and written as it should be.
fn made<T: Clone + Debug + PartialEq + DekuUpdate>(x: T, wrap: fn(T) -> query::Query, m: Query) -> V {
    let mut u = x.clone();
    u.update().map_err(e2s)?;
    ensure!(u == x, "{x:?} is updated to {u:?}");
    let want = m.bytes(D);
    let e = wrap(x.clone()).to_bytes().map_err(|e| format!("{x:?} does not encode: {}", e2s(e)))?;
    ensure!(e == want, "{x:?} is written as {}, not {}", hex(&e), hex(&want));
    Ok(())
}
fn conversions(r: &mut Run) {
    r.prop("interface statuses", 6_000, gen::ifstatus(), |m: &IfStatus, o| {
        o.nontrivial();
        let s = conv::ifstatus(m);
        let kind = match m {
            IfStatus::Host => InterfaceType::Host,
            IfStatus::Serial => InterfaceType::Serial,
            IfStatus::D7(_) => InterfaceType::Dash7,
            IfStatus::Unknown(..) => InterfaceType::Unknown,
        };
        let x: op::InterfaceStatusOperation = s.clone().into();
        ensure!(x.status == s && x.interface_type == kind, "{s:?} becomes {x:?}");
        let y: op::Status = x.clone().into();
        ensure!(y == op::Status::Interface(x.clone()), "{x:?} becomes {y:?}");
        let z: op::StatusOperand = y.clone().into();
        ensure!(z.status == y && z.status_type == op::StatusType::Interface && z.opcode == OpCode(34), "{y:?} becomes {z:?}");
        Ok(())
    });
    r.each("action statuses", 0..=0xFFFFu32, |p, o| {
        o.nontrivial();
        let y = op::Status::Action(op::ActionStatus { action_id: (p >> 8) as u8, status: op::StatusCode(*p as u8) });
        let z: op::StatusOperand = y.clone().into();
        ensure!(z.status == y && z.status_type == op::StatusType::Action && z.opcode == OpCode(34), "{y:?} becomes {z:?}");
        Ok(())
    });
    r.each("chunk steps", 0..4u8, |c, o| {
        o.nontrivial();
        let x: op::Chunk = conv::chunk(*c).into();
        ensure!(x.step == conv::chunk(*c) && x.opcode == OpCode(48), "step {c} becomes {x:?}");
        Ok(())
    });
    #[cfg(feature = "wizzilab")]
    r.prop("final and transmission statuses", 6_000, (gen::final_st(), gen::tx()).boxed(), |(m, t), o| {
        o.nontrivial();
        if let Final::D7(c) = m {
            let s = session::InterfaceFinalStatus::Dash7(conv::final_code(*c));
            let x: op::InterfaceFinalStatusOperation = s.clone().into();
            ensure!(x.status == s && x.interface_id == 0xD7, "{s:?} becomes {x:?}");
        }
        let x = conv::final_op(m);
        let y: op::Status = x.clone().into();
        ensure!(y == op::Status::InterfaceFinal(x.clone()), "{x:?} becomes {y:?}");
        let z: op::StatusOperand = y.clone().into();
        ensure!(z.status == y && z.status_type == op::StatusType::InterfaceFinal && z.opcode == OpCode(34), "{y:?} becomes {z:?}");
        if let (Tx::D7(_), Some(Action::TxStatus(x))) = (t, conv::tx_op(t)) {
            let op::TxStatus::Interface(i) = x.status;
            let again: op::InterfaceTxStatusOperation = i.status.clone().into();
            ensure!(again == i, "{:?} becomes {again:?}", i.status);
        }
        Ok(())
    });
}
pub fn made_alike(r: &mut Run) {
    let acts = gen::act_with(gen::query(), gen::ifstatus()).boxed();
    let acts = prop_oneof![8 => acts, 1 => gen::indirect()].boxed();
    r.prop("own opcode", 20_000, (acts, any::<u8>(), hexed(gen::payload())).boxed(), |(m, code, tail), o| {
        let Some(mut a) = conv::act(m) else { return Ok(()) };
        o.nontrivial_if(*code != m.opcode());
        o.label(m.kind());
        let want = m.bytes(D);
        let Some(c) = opcode_of(&mut a) else { return Ok(()) };
        *c = OpCode(*code);
        let e = a.to_bytes().map_err(|e| format!("{a:?} does not encode: {}", e2s(e)))?;
        // the id of an unknown interface is not written (finding K1)
        let short = k1_bytes(std::slice::from_ref(m));
        ensure!(e == want || has_k1(std::slice::from_ref(m)) && e == short, "{a:?} encodes to {} instead of {}", hex(&e), hex(&want));
        let id = a.deku_id().map_err(e2s)?;
        ensure!(id == OpCode(m.opcode()), "{a:?} calls itself {id:?}");
        // a decoder fills the field in
        let b = [&want[..], &tail.0].concat();
        let (_, mut back) = Action::from_bytes((&b, 0)).map_err(e2s)?;
        let own = opcode_of(&mut back).cloned();
        ensure!(own == Some(OpCode(m.opcode())), "{} is read with {own:?}", hex(&want));
        Ok(())
    });
    constructors(r);
    conversions(r);
    defaults(r);
}
