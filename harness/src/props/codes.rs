//! Codes and identifiers: C16, C21.
use super::messages::judge;
use super::*;
use crate::gen;
use crate::model::{Act, Addr, Addressee, IfStatus, Off, Query};
use crate::run::{guard, Obs, Run};
use dash7::app::action::OpCode;
use dash7::app::operation::{
    ChunkStep, InterfaceStatusOperation, LogicOp, Permission, PermissionLevel, Status, StatusCode, StatusOperand,
    StatusType,
};
use dash7::app::query::{ArithmeticComparisonType, RangeComparisonType};
use dash7::data::{ActionCondition, StorageClass};
use dash7::file::{EngineeringModeMethod, File as LFile, FileId};
use dash7::network::{AddressType, NlsMethod};
use dash7::physical::{Bandwidth, ChannelBand, ChannelClass, ChannelCoding, CsmaCaMode, NoiseFloor};
use dash7::session::{InterfaceType, ResponseMode, RetryMode};
use dash7::transport::GroupCondition;
use std::fmt::Debug;

/// Every byte, at every bit position, against the table of an enumerated field of `w` bits.
fn table<T>(r: &mut Run, name: &str, w: usize, list: Vec<(u8, T)>)
where
    T: for<'a> DekuContainerRead<'a> + DekuContainerWrite + for<'a> DekuEnumExt<'a, u8> + PartialEq + Debug + Clone,
{
    let cells = (0..=255u8).flat_map(|b| (0..8usize).map(move |k| (b, k)));
    r.each(name, cells, |(b, k), o| {
        o.nontrivial();
        // the code starts at bit k
        let code = b >> (8 - w);
        let mut bytes = ((*b as u16) << 8 >> k).to_be_bytes().to_vec();
        bytes.push(0x5A);
        let got = T::from_bytes((&bytes, *k));
        match list.iter().find(|x| x.0 == code) {
            Some((_, want)) => {
                o.label(format!("{name}: {want:?}"));
                let (rest, v) = got.map_err(|e| format!("code {code} at bit {k} is refused: {}", e2s(e)))?;
                ensure!(&v == want, "code {code} at bit {k} means {v:?} instead of {want:?}");
                let at = k + w;
                ensure!(rest == (&bytes[at / 8..], at % 8), "left {:?} behind bit {at}", rest);
                let e = want.to_bytes().map_err(e2s)?;
                ensure!(e == [code << (8 - w)], "{want:?} is written as {} instead of code {code}", hex(&e));
                // not every enumeration of the library says its own id
                if let Ok(id) = want.deku_id() {
                    ensure!(id == code, "{want:?} has the id {id} instead of {code}");
                }
            }
            None => {
                o.label(format!("{name}: no meaning"));
                ensure!(got.is_err(), "code {code} has no meaning but is taken for {:?}", got);
            }
        }
        Ok(())
    });
}

fn file_ids() -> Vec<(u8, FileId)> {
    use FileId::*;
    let mut v = vec![
        (0x00, UId),
        (0x01, FactorySettings),
        (0x02, FirmwareVersion),
        (0x03, DeviceCapacity),
        (0x04, DeviceStatus),
        (0x05, EngineeringMode),
        (0x06, VId),
        (0x08, PhyConfig),
        (0x09, PhyStatus),
        (0x0A, DllConfig),
        (0x0B, DllStatus),
        (0x0C, NetworkRouting),
        (0x0D, NetworkSecurity),
        (0x0E, NetworkSecurityKey),
        (0x0F, NetworkSsr),
        (0x10, NetworkStatus),
        (0x11, TrlStatus),
        (0x12, SelConfig),
        (0x13, FofStatus),
        (0x17, LocationData),
        (0x18, RootKey),
        (0x19, UserKey),
        (0x1B, SensorDescription),
        (0x1C, Rtc),
    ];
    let profiles = [
        AccessProfile00,
        AccessProfile01,
        AccessProfile02,
        AccessProfile03,
        AccessProfile04,
        AccessProfile05,
        AccessProfile06,
        AccessProfile07,
        AccessProfile08,
        AccessProfile09,
        AccessProfile10,
        AccessProfile11,
        AccessProfile12,
        AccessProfile13,
        AccessProfile14,
    ];
    v.extend(profiles.into_iter().enumerate().map(|(i, p)| (0x20 + i as u8, p)));
    v
}
fn file_id_of(b: u8) -> FileId {
    match file_ids().into_iter().find(|x| x.0 == b) {
        Some((_, f)) => f,
        None if b == 7 || (0x14..=0x16).contains(&b) => FileId::Rfu,
        None if (0x1D..=0x1F).contains(&b) => FileId::D7AalpRfu,
        None => FileId::Other,
    }
}
fn if_types() -> Vec<(u8, InterfaceType)> {
    use InterfaceType::*;
    vec![(0, Host), (1, Serial), (2, LoRaWanABP), (3, LoRaWanOTAA), (0xD7, Dash7)]
}
fn if_type_of(b: u8) -> InterfaceType {
    if_types().into_iter().find(|x| x.0 == b).map_or(InterfaceType::Unknown, |x| x.1)
}

fn opcodes() -> Vec<(u8, OpCode)> {
    let mut v = vec![
        (0, OpCode::NOP),
        (1, OpCode::READ_FILE_DATA),
        (2, OpCode::READ_FILE_PROPERTIES),
        (4, OpCode::WRITE_FILE_DATA),
        (5, OpCode::WRITE_FILE_DATA_FLUSH),
        (6, OpCode::WRITE_FILE_PROPERTIES),
        (8, OpCode::ACTION_QUERY),
        (9, OpCode::BREAK_QUERY),
        (10, OpCode::PERMISSION_REQUEST),
        (11, OpCode::VERIFY_CHECKSUM),
        (16, OpCode::EXIST_FILE),
        (17, OpCode::CREATE_NEW_FILE),
        (18, OpCode::DELETE_FILE),
        (19, OpCode::RESTORE_FILE),
        (20, OpCode::FLUSH_FILE),
        (23, OpCode::COPY_FILE),
        (31, OpCode::EXECUTE_FILE),
        (32, OpCode::RETURN_FILE_DATA),
        (33, OpCode::RETURN_FILE_PROPERTIES),
        (34, OpCode::STATUS),
        (35, OpCode::RESPONSE_TAG),
        (48, OpCode::CHUNK),
        (49, OpCode::LOGIC),
        (50, OpCode::FORWARD),
        (51, OpCode::INDIRECT_FORWARD),
        (52, OpCode::REQUEST_TAG),
        (63, OpCode::EXTENSION),
    ];
    #[cfg(feature = "wizzilab")]
    v.push((38, OpCode::TX_STATUS));
    v.sort();
    v
}
const STATUSES: [(u8, StatusCode); 16] = [
    (0x00, StatusCode::OK),
    (0x01, StatusCode::RECEIVED),
    (0x02, StatusCode::ITF_FULL),
    (0xFF, StatusCode::FILE_ID_MISSING),
    (0xFE, StatusCode::CREATE_FILE_ID_ALREADY_EXIST),
    (0xFD, StatusCode::FILE_IS_NOT_RESTORABLE),
    (0xFC, StatusCode::INSUFFICIENT_PERMISSION),
    (0xFB, StatusCode::CREATE_FILE_LENGTH_OVERFLOW),
    (0xFA, StatusCode::CREATE_FILE_ALLOCATION_OVERFLOW),
    (0xF9, StatusCode::WRITE_OFFSET_OVERFLOW),
    (0xF8, StatusCode::WRITE_DATA_OVERFLOW),
    (0xF7, StatusCode::WRITE_STORAGE_UNAVAILABLE),
    (0xF6, StatusCode::UNKNOWN_OPERATION),
    (0xF5, StatusCode::OPERATION_INCOMPLETE),
    (0xF4, StatusCode::OPERATION_WRONG_FORMAT),
    (0x80, StatusCode::UNKNOWN_ERROR),
];

pub fn codes(r: &mut Run) {
    let n = |v: Vec<u8>| v;
    table(r, "chunk step", 2, n(vec![0, 1, 2, 3]).into_iter().map(|c| (c, conv::chunk(c))).collect::<Vec<(u8, ChunkStep)>>());
    table(r, "logic", 2, (0..4).map(|c| (c, conv::logic(c))).collect::<Vec<(u8, LogicOp)>>());
    table(r, "status type", 2, vec![(0, StatusType::Action), (1, StatusType::Interface), (2, StatusType::InterfaceFinal)]);
    table(r, "permission level", 8, vec![(0, PermissionLevel::User), (1, PermissionLevel::Root)]);
    let arith: Vec<(u8, ArithmeticComparisonType)> = (0..6).map(|c| (c, conv::arith(false, c).comparison_type)).collect();
    table(r, "arithmetic comparison", 3, arith);
    let range: Vec<(u8, RangeComparisonType)> = (0..2).map(|c| (c, conv::range(false, c).comparison_type)).collect();
    table(r, "range comparison", 3, range);
    table(r, "action condition", 3, (0..4).map(|c| (c, conv::cond(c))).collect::<Vec<(u8, ActionCondition)>>());
    table(r, "storage class", 2, (0..4).map(|c| (c, conv::storage(c))).collect::<Vec<(u8, StorageClass)>>());
    table(r, "engineering mode", 8, (0..5).map(|c| (c, conv::eng_mode(c))).collect::<Vec<(u8, EngineeringModeMethod)>>());
    let nls = [
        NlsMethod::None,
        NlsMethod::AesCtr,
        NlsMethod::AesCbcMac128,
        NlsMethod::AesCbcMac64,
        NlsMethod::AesCbcMac32,
        NlsMethod::AesCcm128,
        NlsMethod::AesCcm64,
        NlsMethod::AesCcm32,
    ];
    let nls = nls.into_iter().enumerate().map(|(i, m)| (i as u8, m)).collect();
    table(r, "security method", if D == Dialect::Wizzilab { 3 } else { 4 }, nls);
    let at = vec![(0, AddressType::NbId), (1, AddressType::NoId), (2, AddressType::UId), (3, AddressType::VId)];
    table(r, "address type", 2, at);
    table(r, "bandwidth", 2, (0..2).map(|c| (c, conv::bandwidth(c))).collect::<Vec<(u8, Bandwidth)>>());
    table(r, "channel band", 3, (0..5).map(|c| (c, conv::band(c))).collect::<Vec<(u8, ChannelBand)>>());
    table(r, "channel class", 2, (0..4).map(|c| (c, conv::class(c))).collect::<Vec<(u8, ChannelClass)>>());
    table(r, "channel coding", 2, (0..4).map(|c| (c, conv::coding(c))).collect::<Vec<(u8, ChannelCoding)>>());
    let csma = vec![(0, CsmaCaMode::Unc), (1, CsmaCaMode::Aind), (2, CsmaCaMode::Raind), (3, CsmaCaMode::Rigd)];
    table(r, "csma-ca mode", 4, csma);
    let resp: Vec<(u8, ResponseMode)> = [0, 1, 2, 4, 5, 6].into_iter().map(|c| (c, conv::resp(c))).collect();
    table(r, "response mode", 3, resp);
    table(r, "retry mode", 3, (0..8).map(|c| (c, conv::retry(c))).collect::<Vec<(u8, RetryMode)>>());
    let group = vec![
        (0, GroupCondition::Any),
        (1, GroupCondition::NotEqual),
        (2, GroupCondition::Equal),
        (3, GroupCondition::GreaterThan),
    ];
    table(r, "group condition", 2, group);
    #[cfg(feature = "wizzilab")]
    {
        use dash7::app::operation::TxStatusType;
        table(r, "tx status type", 2, vec![(1, TxStatusType::Interface)]);
        table(r, "final status", 8, FINAL_CODES.into_iter().map(|c| (c, conv::final_code(c))).collect());
    }
    r.each("noise floor", 0..=0xFFFFu16, |v, o| {
        o.nontrivial();
        let b = v.to_be_bytes();
        let p = (v >> 4) as u8;
        let (_, got) = NoiseFloor::from_bytes((&b, 0)).map_err(e2s)?;
        let want = match b[0] >> 4 {
            0 => NoiseFloor::Fixed(p),
            1 => NoiseFloor::ForgetFactor(p),
            _ => NoiseFloor::Other,
        };
        ensure!(got == want, "{} means {got:?} instead of {want:?}", hex(&b));
        if want != NoiseFloor::Other {
            let e = got.to_bytes().map_err(e2s)?;
            ensure!(e == [b[0], b[1] & 0xF0], "{got:?} is written as {}", hex(&e));
        }
        Ok(())
    });
    r.each("permission", 0..=255u8, |b, o| {
        o.nontrivial();
        let bytes = [*b, 1, 2, 3, 4, 5, 6, 7, 8];
        let got = Permission::from_bytes((&bytes, 0));
        if *b == 0x42 {
            let want = Permission::Dash7([1, 2, 3, 4, 5, 6, 7, 8]);
            ensure!(got.map_err(e2s)?.1 == want, "not taken for a permission");
            ensure!(want.to_bytes().map_err(e2s)? == bytes, "not written with its code");
        } else {
            ensure!(got.is_err(), "type {b} has no meaning but is taken for {got:?}");
        }
        Ok(())
    });
    r.each("file id", 0..=255u8, |b, o| {
        o.nontrivial();
        let (_, got) = FileId::from_bytes((&[*b], 0)).map_err(e2s)?;
        let want = file_id_of(*b);
        o.label(if file_ids().iter().any(|x| x.0 == *b) { "known file id" } else { "other file id" });
        ensure!(got == want, "{b:#x} means {got:?} instead of {want:?}");
        if file_ids().iter().any(|x| x.0 == *b) {
            ensure!(got.to_bytes().map_err(e2s)? == [*b], "{got:?} is not written as {b:#x}");
        }
        Ok(())
    });
    r.each("interface", 0..=255u8, |b, o| {
        o.nontrivial();
        let (_, got) = InterfaceType::from_bytes((&[*b], 0)).map_err(e2s)?;
        let want = if_type_of(*b);
        ensure!(got == want, "{b:#x} means {got:?} instead of {want:?}");
        if want != InterfaceType::Unknown {
            ensure!(got.to_bytes().map_err(e2s)? == [*b], "{got:?} is not written as {b:#x}");
        }
        Ok(())
    });
    r.each("status code", 0..=255u8, |b, o| {
        o.nontrivial();
        let (_, c) = StatusCode::from_bytes((&[*b], 0)).map_err(e2s)?;
        ensure!(c == StatusCode(*b) && c.to_bytes().map_err(e2s)? == [*b], "{b:#x} is read as {c:?}");
        ensure!(c.is_err() == (*b >= 0x80), "status {b:#x}: is_err says {}", c.is_err());
        if let Some((_, k)) = STATUSES.iter().find(|x| x.0 == *b) {
            ensure!(&c == k, "the constant for {b:#x} is {k:?}");
        }
        for (x, k) in &STATUSES {
            ensure!((&c == k) == (x == b), "{c:?} and {k:?} are mixed up");
        }
        Ok(())
    });
    // opcodes: the first byte of an action, in front of operands of every kind
    let tails: Vec<Hex> = samples().iter().map(|a| Hex(a.bytes(D)[1..].to_vec())).collect();
    let cells: Vec<(u8, Hex)> = (0..=255u8).flat_map(|b| tails.iter().map(move |t| (b, t.clone()))).collect();
    r.each("opcode", cells.into_iter(), |(b, t), o| {
        let mut bytes = vec![*b];
        bytes.extend(&t.0);
        judge(&bytes, o)?;
        let code = b & 0x3F;
        let known = opcodes().iter().find(|x| x.0 == code).cloned();
        match Action::from_bytes((&bytes, 0)) {
            Ok((_, a)) => {
                let id = a.deku_id().map_err(e2s)?;
                ensure!(id == OpCode(code), "{a:?} has the opcode {id:?} instead of {code}");
                let (_, k) = known.ok_or_else(|| format!("opcode {code} has no meaning but is taken for {a:?}"))?;
                ensure!(k == OpCode(code), "the constant for {code} is {k:?}");
                let e = a.to_bytes().map_err(e2s)?;
                ensure!(e[0] & 0x3F == code, "{a:?} is written with opcode {}", e[0] & 0x3F);
            }
            Err(_) => {}
        }
        Ok(())
    });
    // query kinds and parameters: the first byte of a query
    let qtails: Vec<Hex> = queries().iter().map(|q| Hex(q.bytes(D)[1..].to_vec())).collect();
    let cells: Vec<(u8, u8, Hex)> = [8u8, 9, 11]
        .into_iter()
        .flat_map(|op| (0..=255u8).map(move |b| (op, b)))
        .flat_map(|(op, b)| qtails.iter().map(move |t| (op, b, t.clone())).collect::<Vec<_>>())
        .collect();
    r.each("query kind", cells.into_iter(), |(op, b, t), o| {
        let mut bytes = vec![*op, *b];
        bytes.extend(&t.0);
        judge(&bytes, o)
    });
    // the bytes that hold several codes, in a whole message
    let to = Addressee { gc: 0, use_vid: false, spec: 1, mask: 2, addr: Addr::VId(0x1234), nls: 0, nls_state: vec![] };
    let cfg = Act::Forward(
        true,
        crate::model::IfCfg::D7(crate::model::D7Cfg {
            qos: crate::model::Qos { stop: false, record: true, retry: 1, resp: 2 },
            dormant: 5,
            exec: if D == Dialect::Subiot { 0 } else { 6 },
            to: to.clone(),
        }),
    )
    .bytes(D);
    let at_to = cfg.len() - to.bytes(D).len();
    let cells = (0..=255u8).flat_map(|b| [1usize, 2, at_to].into_iter().map(move |i| (i, b)));
    r.each("forward", cells, |(i, b), o| {
        let mut bytes = cfg.clone();
        bytes[*i] = *b;
        bytes.extend([0xA5; 60]);
        // what follows may be anything, so only the action is judged
        let want = Act::parse(&bytes, D);
        o.nontrivial();
        match (want, Action::from_bytes((&bytes, 0))) {
            (Ok((m, used)), Ok((rest, a))) => {
                ensure!(rest.0 == &bytes[used..], "left {} bytes instead of {}", rest.0.len(), bytes.len() - used);
                same_act(&a, &m)
            }
            (Err(_), Err(_)) => Ok(()),
            (Ok((m, _)), Err(e)) => Err(format!("refused ({}), but it means {m:?}", e2s(e))),
            (Err(e), Ok((_, a))) => Err(format!("taken for {a:?}, but {e:?}")),
        }
    });
}
fn queries() -> Vec<Query> {
    let f = |id| Off { id, off: 70 };
    vec![
        Query::NonVoid { len: 3, file: f(0x40) },
        Query::Zero { mp: true, signed: false, cmp: 1, len: 2, mask: vec![1, 2], file: f(0x41) },
        Query::Value { mp: true, signed: true, cmp: 2, len: 2, mask: vec![1, 2], value: vec![3, 4], file: f(0x42) },
        Query::Value { mp: false, signed: true, cmp: 5, len: 2, mask: vec![], value: vec![3, 4], file: f(0x43) },
        Query::Other { mp: true, signed: false, cmp: 3, len: 1, mask: vec![9], f1: f(0x44), f2: f(0x45) },
        Query::Bitmap { mp: true, signed: false, cmp: 1, len: 2, start: 3, stop: 9, mask: vec![7, 8], file: f(0x46) },
        Query::Str { mp: true, errs: 2, len: 2, mask: vec![0xF0, 0x0F], value: vec![0x61, 0x62], file: f(0x47) },
    ]
}
/// One action with full operands per kind.
fn samples() -> Vec<Act> {
    use crate::model::*;
    let h = H { g: false, r: false };
    let f = Off { id: 0x40, off: 3 };
    let hdr = FHdr {
        perm: FPerm { encrypted: false, executable: true, user: Perm { r: true, w: false, x: true }, guest: Perm { r: false, w: true, x: false } },
        prop: FProp { enabled: true, cond: 2, storage: 1 },
        alp: 0x41,
        iface: 0x42,
        size: 100,
        alloc: 200,
    };
    let mut v = vec![
        Act::Nop(h),
        Act::Read(h, f.clone(), 4),
        Act::Fid(2, h, 0x40),
        Act::Data(4, h, f.clone(), File::Other(vec![1, 2, 3])),
        Act::Data(4, h, Off { id: 6, off: 0 }, File::Vid(0x1234)),
        Act::Prop(6, h, 0x40, hdr),
        Act::Permission(h, 1, vec![1; 8]),
        Act::Copy(h, 1, 2),
        Act::ActionStatus(1, 0xF6),
        Act::IfStatus(IfStatus::Host),
        Act::IfStatus(IfStatus::Serial),
        Act::ResponseTag { eop: true, err: false, id: 9 },
        Act::Forward(true, IfCfg::Unknown(0x33)),
        Act::Indirect(true, Some(IndIf::Serial)),
        Act::RequestTag { eop: true, id: 8 },
    ];
    v.extend(queries().into_iter().map(|q| Act::Query(8, h, q)));
    v
}

// ------------------------------------------------------------------------- C21
/// Convert to the byte. Kinds that stand for several bytes have none of their own, and the
/// conversion panics for them (finding K2); a repaired one must give a byte of that kind.
fn to_byte<T: Into<u8> + PartialEq + Debug + Clone>(v: &T, known: bool, back: impl Fn(u8) -> T, o: &mut Obs) -> Result<Option<u8>, String> {
    match guard(|| -> u8 { v.clone().into() }) {
        Ok(b) => {
            ensure!(&back(b) == v, "{v:?} converts to {b:#x}, which is {:?}", back(b));
            Ok(Some(b))
        }
        Err(_) if !known => {
            o.known(format!("K2 converting {v:?} to its byte panics"));
            Ok(None)
        }
        Err(p) => Err(format!("converting {v:?} to its byte: {p}")),
    }
}
pub fn ids(r: &mut Run) {
    r.each("file id", 0..=255u8, |b, o| {
        o.nontrivial();
        let id = FileId::try_from(*b).map_err(e2s)?;
        let known = file_ids().iter().any(|x| x.0 == *b);
        o.label(if known { "known file id" } else { "other file id" });
        ensure!(id == file_id_of(*b), "{b:#x} converts to {id:?} instead of {:?}", file_id_of(*b));
        let (_, read) = FileId::from_bytes((&[*b], 0)).map_err(e2s)?;
        ensure!(id == read, "{b:#x} converts to {id:?} but is read as {read:?}");
        let got = to_byte(&id, known, |x| FileId::try_from(x).unwrap(), o)?;
        ensure!(!known || got == Some(*b), "{id:?} converts to {got:?} instead of {b:#x}");
        for (c, other) in file_ids() {
            ensure!((other == id) == (c == *b), "{b:#x} and {c:#x} give the same id");
        }
        Ok(())
    });
    r.each("interface type", 0..=255u8, |b, o| {
        o.nontrivial();
        let id = InterfaceType::try_from(*b).map_err(e2s)?;
        let known = KNOWN_IF.contains(b);
        o.label(if known { "known interface" } else { "other interface" });
        ensure!(id == if_type_of(*b), "{b:#x} converts to {id:?} instead of {:?}", if_type_of(*b));
        let got = to_byte(&id, known, |x| InterfaceType::try_from(x).unwrap(), o)?;
        ensure!(!known || got == Some(*b), "{id:?} converts to {got:?} instead of {b:#x}");
        for (c, other) in if_types() {
            ensure!((other == id) == (c == *b), "{b:#x} and {c:#x} give the same type");
        }
        Ok(())
    });
    r.prop("interface status", 30_000, gen::ifstatus_any(), |m, o| {
        let s = conv::ifstatus(m);
        let (want, id) = match m {
            IfStatus::Host => (InterfaceType::Host, Some(0)),
            IfStatus::Serial => (InterfaceType::Serial, Some(1)),
            IfStatus::D7(_) => (InterfaceType::Dash7, Some(0xD7)),
            IfStatus::Unknown(..) => (InterfaceType::Unknown, None),
        };
        o.label(format!("{want:?}"));
        o.nontrivial_if(!matches!(m, IfStatus::Host | IfStatus::Serial));
        let own: InterfaceType = s.deku_id().map_err(e2s)?;
        ensure!(own == want, "the status belongs to {own:?} instead of {want:?}");
        let op = InterfaceStatusOperation::from(s.clone());
        ensure!(op.interface_type == want && op.status == s, "the operation is {op:?}");
        let st: Status = op.clone().into();
        ensure!(st == Status::Interface(op.clone()), "the status is {st:?}");
        let operand: StatusOperand = st.clone().into();
        ensure!(
            operand.status_type == StatusType::Interface && operand.opcode == OpCode::STATUS && operand.status == st,
            "the operand is {operand:?}"
        );
        if let Some(id) = id {
            let e = op.to_bytes().map_err(e2s)?;
            ensure!(e[0] == id, "the operation is written with the id {:#x} instead of {id:#x}", e[0]);
            let e = Action::Status(operand).to_bytes().map_err(e2s)?;
            ensure!(e[0] == 0x62 && e[1] == id, "the action is written as {}", hex(&e[..2]));
        }
        Ok(())
    });
    // the file an id stands for is the file that is decoded for it
    r.prop("file of its id", 10_000, gen::typed_file(), |(id, f), o| {
        o.nontrivial();
        let l = conv::file(f);
        let own: FileId = l.deku_id().map_err(e2s)?;
        ensure!(own == file_id_of(*id), "{l:?} belongs to {own:?} instead of {id:#x}");
        let b: u8 = own.clone().into();
        ensure!(b == *id, "{own:?} converts to {b:#x}");
        let e = f.bytes(D);
        let (_, back) = LFile::from_bytes((&e, 0), own, e.len() as u32).map_err(e2s)?;
        ensure!(back == l, "decodes to {back:?}");
        Ok(())
    });
    #[cfg(feature = "wizzilab")]
    wizzilab_ids(r);
}
#[cfg(feature = "wizzilab")]
fn wizzilab_ids(r: &mut Run) {
    use crate::model::{Final, Tx};
    use dash7::app::operation::{InterfaceFinalStatusOperation, InterfaceTxStatusOperation, TxStatus};
    use dash7::session::InterfaceFinalStatus;
    r.prop("final status", 10_000, gen::final_st(), |m, o| {
        o.nontrivial();
        match m {
            Final::D7(c) => {
                let s = InterfaceFinalStatus::Dash7(conv::final_code(*c));
                let op = InterfaceFinalStatusOperation::from(s.clone());
                ensure!(op.interface_id == 0xD7 && op.status == s, "the operation is {op:?}");
                let e = op.to_bytes().map_err(e2s)?;
                ensure!(e == [0xD7, 1, *c], "it is written as {}", hex(&e));
            }
            Final::Other(_, b) => {
                let s = InterfaceFinalStatus::Other(b.clone());
                match guard(|| InterfaceFinalStatusOperation::from(s.clone())) {
                    Ok(op) => ensure!(op.status == s && op.interface_id != 0xD7, "the operation is {op:?}"),
                    Err(_) => o.known("K3 making an operation of the final status of another interface panics"),
                }
            }
        }
        Ok(())
    });
    r.prop("tx status", 10_000, gen::tx(), |m, o| {
        o.nontrivial();
        let Some(Action::TxStatus(t)) = conv::tx_op(m) else {
            return Err("the status could not be built".into());
        };
        let TxStatus::Interface(i) = t.status;
        match (m, guard(|| InterfaceTxStatusOperation::from(i.status.clone()))) {
            (Tx::D7(_), Ok(op)) => {
                ensure!(op == i, "the operation is {op:?} instead of {i:?}");
                let e = op.to_bytes().map_err(e2s)?;
                ensure!(e[0] == 0xD7, "it is written with the id {:#x}", e[0]);
            }
            (Tx::D7(_), Err(p)) => return Err(p),
            (Tx::Other(..), Ok(op)) => ensure!(op.status == i.status && op.interface_id != 0xD7, "the operation is {op:?}"),
            (Tx::Other(..), Err(_)) => o.known("K3 making an operation of the tx status of another interface panics"),
        }
        Ok(())
    });
}
