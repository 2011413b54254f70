//! Build library values from model values through the public API.
use crate::model as m;
use dash7::app::action::{Action, OpCode};
use dash7::app::command::Command;
use dash7::app::interface::{Dash7InterfaceConfiguration, LoRaWANInterfaceConfiguration, LoRaWANOTAAInterfaceConfiguration, LoRaWANABPInterfaceConfiguration, InterfaceConfiguration, IndirectInterface};
use dash7::app::operation::{self as op, FileOffset, StatusCode, ActionStatus, Permission, PermissionLevel, ActionHeader, Nop, FileData, ReadFileData, ActionQuery, PermissionRequest, CopyFile, Status, InterfaceStatusOperation, ResponseTagHeader, ResponseTag, ChunkStep, LogicOp, Logic, Forward, IndirectForward, RequestTagHeader, RequestTag, Extension};
#[cfg(feature = "wizzilab")]
use dash7::app::operation::{InterfaceFinalStatusOperation};
use dash7::app::query::{ArithmeticComparisonType, ArithmeticQueryParams, RangeComparisonType, RangeQueryParams, Query, NonVoid, ComparisonWithZero, ComparisonWithValue, ComparisonWithOtherFile, BitmapRangeComparison, StringTokenSearch};
use dash7::data::{self, ActionCondition, FileHeader, FilePermissions, StorageClass, UserPermissions};
use dash7::file::{self, File};
use dash7::link::{self, AccessClass, SubProfile};
use dash7::network::{Address, Addressee, NlsState};
use dash7::physical::{Bandwidth, ChannelBand, ChannelClass, ChannelCoding, ChannelHeader, Channel, ChannelStatusIdentifier, SubBand, ChannelStatus};
use dash7::session::{InterfaceType, ResponseMode, RetryMode, QoS, InterfaceStatus, Dash7InterfaceStatus};
#[cfg(feature = "wizzilab")]
use dash7::session::{InterfaceFinalStatus, InterfaceFinalStatusCode, InterfaceTxStatus};
use dash7::transport;
#[cfg(feature = "wizzilab")]
use dash7::transport::GroupCondition;
use dash7::types::VarInt;

pub fn varint(v: u32) -> VarInt {
    VarInt::new_unchecked(v, false)
}
pub fn off(o: &m::Off) -> FileOffset {
    FileOffset { file_id: o.id, offset: o.off.into() }
}
pub fn addr(a: &m::Addr) -> Address {
    match a {
        m::Addr::NbId(n) => Address::NbId(varint(*n)),
        m::Addr::NoId => Address::NoId,
        m::Addr::UId(x) => Address::UId(*x),
        m::Addr::VId(x) => Address::VId(*x),
    }
}
pub fn nls(method: u8, state: &[u8]) -> NlsState {
    let s = || -> [u8; 5] { state.try_into().unwrap() };
    match method {
        0 => NlsState::None,
        1 => NlsState::AesCtr(s()),
        2 => NlsState::AesCbcMac128(s()),
        3 => NlsState::AesCbcMac64(s()),
        4 => NlsState::AesCbcMac32(s()),
        5 => NlsState::AesCcm128(s()),
        6 => NlsState::AesCcm64(s()),
        7 => NlsState::AesCcm32(s()),
        _ => unreachable!(),
    }
}
#[cfg(feature = "wizzilab")]
pub fn group(c: u8) -> GroupCondition {
    match c {
        0 => GroupCondition::Any,
        1 => GroupCondition::NotEqual,
        2 => GroupCondition::Equal,
        _ => GroupCondition::GreaterThan,
    }
}
pub fn addressee(a: &m::Addressee) -> Addressee {
    Addressee::new(
        #[cfg(feature = "wizzilab")]
        a.use_vid,
        #[cfg(feature = "wizzilab")]
        group(a.gc),
        addr(&a.addr),
        nls(a.nls, &a.nls_state),
        AccessClass::new(a.spec, a.mask),
    )
}
pub fn retry(c: u8) -> RetryMode {
    match c {
        0 => RetryMode::No,
        1 => RetryMode::OneshotRetry,
        2 => RetryMode::FifoFast,
        3 => RetryMode::FifoSlow,
        4 => RetryMode::SingleFast,
        5 => RetryMode::SingleSlow,
        6 => RetryMode::OneshotSticky,
        _ => RetryMode::Rfu,
    }
}
pub fn resp(c: u8) -> ResponseMode {
    match c {
        0 => ResponseMode::No,
        1 => ResponseMode::All,
        2 => ResponseMode::Any,
        4 => ResponseMode::NoRepeat,
        5 => ResponseMode::OnError,
        6 => ResponseMode::Preferred,
        _ => unreachable!(),
    }
}
pub fn qos(q: &m::Qos) -> QoS {
    QoS { stop_on_error: q.stop, record: q.record, retry_mode: retry(q.retry), response_mode: resp(q.resp) }
}
pub fn d7cfg(c: &m::D7Cfg) -> Dash7InterfaceConfiguration {
    Dash7InterfaceConfiguration {
        qos: qos(&c.qos),
        dormant_session_timeout: varint(c.dormant),
        #[cfg(not(feature = "subiot"))]
        execution_delay_timeout: varint(c.exec),
        addressee: addressee(&c.to),
    }
}
pub fn lora(l: &m::Lora) -> LoRaWANInterfaceConfiguration {
    LoRaWANInterfaceConfiguration {
        adr_enabled: l.adr,
        request_ack: l.ack,
        application_port: l.port,
        data_rate: l.rate,
    }
}
pub fn abp(a: &m::Abp) -> LoRaWANABPInterfaceConfiguration {
    LoRaWANABPInterfaceConfiguration {
        base: lora(&a.base),
        network_session_key: a.nsk.clone(),
        app_session_key: a.ask.clone(),
        device_address: a.dev,
        network_id: a.net,
    }
}
pub fn otaa(a: &m::Otaa) -> LoRaWANOTAAInterfaceConfiguration {
    LoRaWANOTAAInterfaceConfiguration {
        base: lora(&a.base),
        device_eui: a.deui.clone(),
        app_eui: a.aeui.clone(),
        app_key: a.key.clone(),
    }
}
pub fn ifcfg(c: &m::IfCfg) -> InterfaceConfiguration {
    match c {
        m::IfCfg::Host => InterfaceConfiguration::Host,
        m::IfCfg::Serial => InterfaceConfiguration::Serial,
        m::IfCfg::Abp(a) => InterfaceConfiguration::LoRaWanABP(abp(a)),
        m::IfCfg::Otaa(a) => InterfaceConfiguration::LoRaWanOTAA(otaa(a)),
        m::IfCfg::D7(c) => InterfaceConfiguration::Dash7(d7cfg(c)),
        m::IfCfg::Unknown(x) => InterfaceConfiguration::Unknown(*x),
    }
}
pub fn indif(c: &m::IndIf) -> IndirectInterface {
    match c {
        m::IndIf::Host => IndirectInterface::Host,
        m::IndIf::Serial => IndirectInterface::Serial,
        m::IndIf::D7(a) => IndirectInterface::Dash7(addressee(a)),
        m::IndIf::Unknown(x) => IndirectInterface::Unknown(*x),
    }
}
pub fn band(c: u8) -> ChannelBand {
    match c {
        0 => ChannelBand::Rfu0,
        1 => ChannelBand::Rfu1,
        2 => ChannelBand::Band433,
        3 => ChannelBand::Band868,
        4 => ChannelBand::Band915,
        _ => unreachable!(),
    }
}
pub fn class(c: u8) -> ChannelClass {
    match c {
        0 => ChannelClass::LoRate,
        1 => ChannelClass::Lora,
        2 => ChannelClass::NormalRate,
        _ => ChannelClass::HiRate,
    }
}
pub fn coding(c: u8) -> ChannelCoding {
    match c {
        0 => ChannelCoding::Pn9,
        1 => ChannelCoding::Rfu,
        2 => ChannelCoding::FecPn9,
        _ => ChannelCoding::Cw,
    }
}
pub fn chhdr(h: &m::ChHdr) -> ChannelHeader {
    ChannelHeader::new(band(h.band), class(h.class), coding(h.coding))
}
pub fn channel(c: &m::Channel) -> Channel {
    Channel { header: chhdr(&c.hdr), index: c.index }
}
pub fn d7status(s: &m::D7Status) -> Dash7InterfaceStatus {
    Dash7InterfaceStatus {
        channel: channel(&s.ch),
        rx_level: s.rx,
        link_budget: s.lb,
        target_rx_level: s.target,
        nls: s.nls,
        missed: s.missed,
        retry: s.retry,
        unicast: s.unicast,
        fifo_token: s.fifo,
        sequence_number: s.seq,
        response_timeout: varint(s.rto),
        addressee: addressee(&s.from),
    }
}
/// Only the interface status itself; the id of an unknown interface is not part of it.
pub fn ifstatus(s: &m::IfStatus) -> InterfaceStatus {
    match s {
        m::IfStatus::Host => InterfaceStatus::Host,
        m::IfStatus::Serial => InterfaceStatus::Serial,
        m::IfStatus::D7(s) => InterfaceStatus::Dash7(d7status(s)),
        m::IfStatus::Unknown(_, b) => InterfaceStatus::Other(b.clone()),
    }
}
pub fn ifstatus_op(s: &m::IfStatus) -> InterfaceStatusOperation {
    match s {
        m::IfStatus::Unknown(..) => {
            InterfaceStatusOperation { interface_type: InterfaceType::Unknown, status: ifstatus(s) }
        }
        _ => ifstatus(s).into(),
    }
}
#[cfg(feature = "wizzilab")]
pub fn final_code(c: u8) -> InterfaceFinalStatusCode {
    use InterfaceFinalStatusCode::*;
    match c {
        0 => No,
        0xFF => Busy,
        0xFE => BadParam,
        0xFD => DutyCycle,
        0xFC => CcaTo,
        0xFB => NlsKey,
        0xFA => TxUdf,
        0xF9 => RxOvf,
        0xF8 => RxCrc,
        0xF7 => Abort,
        0xF6 => NoAck,
        0xF5 => RxTo,
        0xF4 => NotSupportedBand,
        0xF3 => NotSupportedChannel,
        0xF2 => NotSupportedModulation,
        0xF1 => VoidChannelList,
        0xF0 => NotSupportedLen,
        0xEF => ParamOvf,
        0xEE => VidWoNls,
        0xED => TxSched,
        0xEC => RxSched,
        0xEB => BufferOvf,
        0xEA => NotSupportedMode,
        _ => unreachable!(),
    }
}
#[cfg(feature = "wizzilab")]
pub fn final_op(s: &m::Final) -> InterfaceFinalStatusOperation {
    match s {
        m::Final::D7(c) => InterfaceFinalStatus::Dash7(final_code(*c)).into(),
        m::Final::Other(id, b) => {
            InterfaceFinalStatusOperation { interface_id: *id, status: InterfaceFinalStatus::Other(b.clone()) }
        }
    }
}
/// The tx status types cannot be named or built from outside, so a decoded one is filled in.
#[cfg(feature = "wizzilab")]
pub fn tx_op(s: &m::Tx) -> Option<Action> {
    use dash7::app::operation::TxStatus;
    // channel 3, level, error, 3 reserved, time 4, addressee without id 2
    const BLANK: [u8; 17] = [0x66, 0xD7, 14, 0x30, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10, 0];
    let mut a = Action::try_from(&BLANK[..]).ok()?;
    if let Action::TxStatus(t) = &mut a {
        let TxStatus::Interface(i) = &mut t.status;
        match s {
            m::Tx::D7(x) => {
                i.interface_id = 0xD7;
                if let InterfaceTxStatus::Dash7(y) = &mut i.status {
                    y.channel = channel(&x.ch);
                    y.target_rx_level = x.target as i8;
                    y.error = final_code(x.error);
                    y.lts = x.lts;
                    y.addressee = addressee(&x.to);
                } else {
                    return None;
                }
            }
            m::Tx::Other(id, b) => {
                i.interface_id = *id;
                i.status = InterfaceTxStatus::Other(b.clone());
            }
        }
        Some(a)
    } else {
        None
    }
}
pub fn arith(signed: bool, c: u8) -> ArithmeticQueryParams {
    use ArithmeticComparisonType::*;
    let comparison_type = match c {
        0 => Inequal,
        1 => Equal,
        2 => LessThan,
        3 => LessThanOrEqual,
        4 => GreaterThan,
        5 => GreaterThanOrEqual,
        _ => unreachable!(),
    };
    ArithmeticQueryParams { signed, comparison_type }
}
pub fn range(signed: bool, c: u8) -> RangeQueryParams {
    let comparison_type = match c {
        0 => RangeComparisonType::NotInRange,
        1 => RangeComparisonType::InRange,
        _ => unreachable!(),
    };
    RangeQueryParams { signed, comparison_type }
}
/// None when the flags and lengths are such that only a decoder can produce the value.
pub fn query(q: &m::Query) -> Option<Query> {
    Some(match q {
        m::Query::NonVoid { len, file } => Query::NonVoid(NonVoid { length: (*len).into(), file: off(file) }),
        m::Query::Zero { mp, signed, cmp, len, mask, file } => {
            if *mp == mask.is_empty() || *len as usize != mask.len() {
                return None;
            }
            Query::ComparisonWithZero(ComparisonWithZero::new(arith(*signed, *cmp), mask.clone(), off(file)))
        }
        m::Query::Value { mp, signed, cmp, len, mask, value, file } => {
            if *mp == mask.is_empty() || *len as usize != value.len() {
                return None;
            }
            Query::ComparisonWithValue(ComparisonWithValue::new(
                arith(*signed, *cmp),
                mask.clone(),
                value.clone(),
                off(file),
            ))
        }
        m::Query::Other { mp, signed, cmp, len, mask, f1, f2 } => {
            if *mp == mask.is_empty() {
                return None;
            }
            let mut x = ComparisonWithOtherFile::new(arith(*signed, *cmp), mask.clone(), off(f1), off(f2));
            x.length = (*len).into();
            Query::ComparisonWithOtherFile(x)
        }
        m::Query::Bitmap { mp, signed, cmp, len, start, stop, mask, file } => {
            if *mp == mask.is_empty() {
                return None;
            }
            let mut x =
                BitmapRangeComparison::new(range(*signed, *cmp), *start, *stop, mask.clone(), off(file));
            x.length = (*len).into();
            Query::BitmapRangeComparison(x)
        }
        m::Query::Str { mp, errs, len, mask, value, file } => {
            if *mp == mask.is_empty() {
                return None;
            }
            let mut x = StringTokenSearch::new(*errs, mask.clone(), value.clone(), off(file));
            x.length = (*len).into();
            Query::StringTokenSearch(x)
        }
    })
}
pub fn perm(p: &m::Perm) -> UserPermissions {
    UserPermissions { read: p.r, write: p.w, executable: p.x }
}
pub fn fperm(p: &m::FPerm) -> FilePermissions {
    FilePermissions {
        encrypted: p.encrypted,
        executable: p.executable,
        user: perm(&p.user),
        guest: perm(&p.guest),
    }
}
pub fn cond(c: u8) -> ActionCondition {
    match c {
        0 => ActionCondition::List,
        1 => ActionCondition::Read,
        2 => ActionCondition::Write,
        3 => ActionCondition::WriteFlush,
        _ => unreachable!(),
    }
}
pub fn storage(c: u8) -> StorageClass {
    match c {
        0 => StorageClass::Transient,
        1 => StorageClass::Volatile,
        2 => StorageClass::Restorable,
        _ => StorageClass::Permanent,
    }
}
pub fn fprop(p: &m::FProp) -> data::FileProperties {
    data::FileProperties { enabled: p.enabled, condition: cond(p.cond), storage_class: storage(p.storage) }
}
pub fn fhdr(h: &m::FHdr) -> FileHeader {
    FileHeader {
        permissions: fperm(&h.perm),
        properties: fprop(&h.prop),
        alp_command_file_id: h.alp,
        interface_file_id: h.iface,
        file_size: h.size,
        allocated_size: h.alloc,
    }
}
pub fn subprof(p: &m::SubProf) -> SubProfile {
    SubProfile { subband_bitmap: p.bitmap, scan_automation_period: varint(p.period) }
}
pub fn subband(b: &m::SubBand) -> SubBand {
    SubBand {
        channel_index_start: b.start,
        channel_index_end: b.end,
        eirp: b.eirp as i8,
        clear_channel_assessment: b.cca,
        duty: b.duty,
    }
}
pub fn access(a: &m::Access) -> link::AccessProfile {
    let p: Vec<SubProfile> = a.prof.iter().map(subprof).collect();
    let b: Vec<SubBand> = a.bands.iter().map(subband).collect();
    link::AccessProfile {
        channel_header: chhdr(&a.hdr),
        sub_profiles: p.try_into().unwrap(),
        sub_bands: b.try_into().unwrap(),
    }
}
pub fn bandwidth(c: u8) -> Bandwidth {
    match c {
        0 => Bandwidth::KHz200,
        1 => Bandwidth::KHz25,
        _ => unreachable!(),
    }
}
pub fn chstatus(c: &m::ChStatus) -> ChannelStatus {
    ChannelStatus {
        identifier: ChannelStatusIdentifier {
            channel_band: band(c.band),
            bandwidth: bandwidth(c.bw),
            index: c.index,
        },
        noise_floor: c.noise,
    }
}
pub fn factory(f: &m::Factory) -> file::FactorySettings {
    let (r, s) = (&f.rates, &f.small);
    file::FactorySettings {
        gain: f.gain as i8,
        rx_bw_low_rate: r[0],
        rx_bw_normal_rate: r[1],
        rx_bw_high_rate: r[2],
        bitrate_lo_rate: r[3],
        fdev_lo_rate: r[4],
        bitrate_normal_rate: r[5],
        fdev_normal_rate: r[6],
        bitrate_hi_rate: r[7],
        fdev_hi_rate: r[8],
        preamble_size_lo_rate: s[0],
        preamble_size_normal_rate: s[1],
        preamble_size_hi_rate: s[2],
        preamble_detector_size_lo_rate: s[3],
        preamble_detector_size_normal_rate: s[4],
        preamble_detector_size_hi_rate: s[5],
        preamble_tol_lo_rate: s[6],
        preamble_tol_normal_rate: s[7],
        preamble_tol_hi_rate: s[8],
        rssi_smoothing: s[9],
        rssi_offset: s[10],
        lora_bw: f.lora_bw,
        lora_sf: f.lora_sf,
        gaussian: f.gaussian,
        paramp: f.paramp,
    }
}
pub fn eng_mode(c: u8) -> file::EngineeringModeMethod {
    use file::EngineeringModeMethod::*;
    match c {
        0 => Off,
        1 => ContTx,
        2 => TransientTx,
        3 => PerRx,
        4 => PerTx,
        _ => unreachable!(),
    }
}
macro_rules! access_file {
    ($n:expr, $p:expr, $($i:literal $v:ident)*) => {
        match $n { $( $i => File::$v(file::AccessProfile::<$i> { profile: $p }), )* _ => unreachable!() }
    };
}
pub fn file(f: &m::File) -> File {
    match f {
        m::File::Access(n, a) => access_file!(*n, access(a),
            0 AccessProfile00 1 AccessProfile01 2 AccessProfile02 3 AccessProfile03 4 AccessProfile04
            5 AccessProfile05 6 AccessProfile06 7 AccessProfile07 8 AccessProfile08 9 AccessProfile09
            10 AccessProfile10 11 AccessProfile11 12 AccessProfile12 13 AccessProfile13 14 AccessProfile14),
        m::File::Uid(x) => File::UId(Address::UId(*x)),
        m::File::Factory(f) => File::FactorySettings(factory(f)),
        m::File::Firmware { major, minor, name, sha } => File::FirmwareVersion(file::FirmwareVersion {
            major: *major,
            minor: *minor,
            application_name: name.clone(),
            git_sha1: sha.clone(),
        }),
        m::File::Eng { mode, flags, timeout, ch, eirp } => File::EngineeringMode(file::EngineeringMode {
            mode: eng_mode(*mode),
            flags: *flags,
            timeout: *timeout,
            channel: channel(ch),
            eirp: *eirp as i8,
        }),
        m::File::Vid(x) => File::VId(Address::VId(*x)),
        m::File::Phy { up, rx, tx, duty, ch } => {
            File::PhyStatus(file::PhyStatus::new(*up, *rx, *tx, *duty, ch.iter().map(chstatus).collect()))
        }
        m::File::DllConfig { ac, lq, nf, rxp, txp } => File::DllConfig(file::DllConfig {
            ac: *ac,
            lq_filter: *lq,
            nf_ctrl: *nf,
            rx_nf_method_parameter: *rxp,
            tx_nf_method_parameter: *txp,
        }),
        m::File::DllStatus { level, budget, noise, hdr, index, ratio, scans, timeouts } => {
            File::DllStatus(file::DllStatus {
                last_rx_packet_level: *level,
                last_rx_packet_link_budget: *budget,
                noise_floor: *noise,
                channel_header: chhdr(hdr),
                channel_index: *index,
                scan_timeout_ratio: *ratio,
                scan_count: *scans,
                scan_timeout_count: *timeouts,
            })
        }
        m::File::Key(lo, hi) => {
            File::NwlSecurityKey(file::SecurityKey { key: (*hi as u128) << 64 | *lo as u128 })
        }
        m::File::Other(b) => File::Other(b.clone()),
    }
}
pub fn hdr(h: &m::H) -> ActionHeader {
    ActionHeader::new(h.g, h.r)
}
pub fn chunk(c: u8) -> ChunkStep {
    match c {
        0 => ChunkStep::Continue,
        1 => ChunkStep::Start,
        2 => ChunkStep::End,
        _ => ChunkStep::StartEnd,
    }
}
pub fn logic(c: u8) -> LogicOp {
    match c {
        0 => LogicOp::Or,
        1 => LogicOp::Xor,
        2 => LogicOp::Nor,
        _ => LogicOp::Nand,
    }
}
pub fn act(a: &m::Act) -> Option<Action> {
    let opcode = OpCode(a.opcode());
    Some(match a {
        m::Act::Nop(h) => Action::Nop(Nop { header: hdr(h), opcode }),
        m::Act::Ext(h) => Action::Extension(Extension { header: hdr(h), opcode }),
        m::Act::Read(h, o, len) => Action::ReadFileData(ReadFileData {
            header: hdr(h),
            opcode,
            offset: off(o),
            length: (*len).into(),
        }),
        m::Act::Fid(c, h, id) => {
            let x = op::FileId { header: hdr(h), opcode, file_id: *id };
            match c {
                2 => Action::ReadFileProperties(x),
                16 => Action::ExistFile(x),
                18 => Action::DeleteFile(x),
                19 => Action::RestoreFile(x),
                20 => Action::FlushFile(x),
                31 => Action::ExecuteFile(x),
                _ => unreachable!(),
            }
        }
        m::Act::Data(c, h, o, f) => {
            let x = FileData::new(hdr(h), off(o), file(f), opcode);
            match c {
                4 => Action::WriteFileData(x),
                5 => Action::WriteFileDataFlush(x),
                32 => Action::ReturnFileData(x),
                _ => unreachable!(),
            }
        }
        m::Act::Prop(c, h, id, p) => {
            let x = op::FileProperties { header: hdr(h), opcode, file_id: *id, file_header: fhdr(p) };
            match c {
                6 => Action::WriteFileProperties(x),
                17 => Action::CreateNewFile(x),
                33 => Action::ReturnFileProperties(x),
                _ => unreachable!(),
            }
        }
        m::Act::Query(c, h, q) => {
            let x = ActionQuery { header: hdr(h), opcode, query: query(q)? };
            match c {
                8 => Action::ActionQuery(x),
                9 => Action::BreakQuery(x),
                11 => Action::VerifyChecksum(x),
                _ => unreachable!(),
            }
        }
        m::Act::Permission(h, level, p) => Action::PermissionRequest(PermissionRequest {
            header: hdr(h),
            opcode,
            level: if *level == 0 { PermissionLevel::User } else { PermissionLevel::Root },
            permission: Permission::Dash7(p.as_slice().try_into().unwrap()),
        }),
        m::Act::Copy(h, s, t) => {
            Action::CopyFile(CopyFile { header: hdr(h), opcode, src_file_id: *s, dst_file_id: *t })
        }
        m::Act::ActionStatus(id, c) => {
            Action::Status(Status::Action(ActionStatus { action_id: *id, status: StatusCode(*c) }).into())
        }
        m::Act::IfStatus(s) => {
            let st: Status = ifstatus_op(s).into();
            Action::Status(st.into())
        }
        #[cfg(feature = "wizzilab")]
        m::Act::Final(s) => {
            let st: Status = final_op(s).into();
            Action::Status(st.into())
        }
        #[cfg(feature = "wizzilab")]
        m::Act::Tx(s) => tx_op(s)?,
        #[cfg(not(feature = "wizzilab"))]
        m::Act::Final(_) | m::Act::Tx(_) => unreachable!("not in this dialect"),
        m::Act::ResponseTag { eop, err, id } => Action::ResponseTag(ResponseTag {
            header: ResponseTagHeader { end_of_packet: *eop, error: *err },
            opcode,
            id: *id,
        }),
        m::Act::Chunk(c) => Action::Chunk(chunk(*c).into()),
        m::Act::Logic(c) => Action::Logic(Logic { logic: logic(*c), opcode }),
        m::Act::Forward(r, c) => Action::Forward(Forward::new(*r, ifcfg(c))),
        m::Act::Indirect(r, c) => Action::IndirectForward(IndirectForward::new(*r, c.as_ref().map(indif))),
        m::Act::RequestTag { eop, id } => Action::RequestTag(RequestTag {
            header: RequestTagHeader { end_of_packet: *eop },
            opcode,
            id: *id,
        }),
    })
}
pub fn cmd(c: &[m::Act]) -> Option<Command> {
    Some(Command::new(c.iter().map(act).collect::<Option<_>>()?))
}
pub fn trans(t: &m::Trans) -> Option<transport::Frame> {
    Some(transport::Frame {
        control: transport::Control {
            is_dialog_start: t.start,
            has_listen_timeout: t.tl.is_some(),
            has_execution_delay_timeout: t.te.is_some(),
            is_ack_requested: t.ack_req,
            is_ack_not_void: t.ack.is_some(),
            is_ack_record_requested: t.ack_rec,
            has_agc: t.agc.is_some(),
        },
        dialog_id: t.dialog,
        transaction_id: t.trans,
        target_rx_level_i: t.agc,
        listen_timeout: t.tl.map(varint),
        execution_delay_timeout: t.te.map(varint),
        congestion_timeout: t.tc.map(varint),
        ack_template: t
            .ack
            .map(|(a, b)| transport::AckTemplate { transaction_id_start: a, transaction_id_stop: b }),
        command: cmd(&t.cmd)?,
    })
}
