//! C24: the exported parts of messages are codecs of their own.
use super::*;
use crate::gen::{self, S};
use crate::run::{hexed, Obs, Run};
use dash7::app::interface::{
    Dash7InterfaceConfiguration, IndirectInterface, InterfaceConfiguration, LoRaWANABPInterfaceConfiguration,
    LoRaWANInterfaceConfiguration, LoRaWANOTAAInterfaceConfiguration,
};
use dash7::app::operation::{
    ActionStatus, FileOffset, InterfaceStatusOperation, Length, Permission, PermissionLevel, StatusCode,
};
use dash7::app::query::Query as LQuery;
use dash7::data::{FileHeader, FilePermissions, FileProperties};
use dash7::file::{
    DllConfig, DllStatus, EngineeringMode, FactorySettings, File as LFile, FirmwareVersion, PhyStatus, SecurityKey,
};
use dash7::link::{AccessClass, AccessProfile, SubProfile};
use dash7::network::{Address, AddressType, Addressee as LAddressee, NlsMethod, NlsState};
use dash7::physical::{Channel as LChannel, ChannelHeader, ChannelStatus, SubBand as LSubBand};
use dash7::session::{Dash7InterfaceStatus, QoS};
use dash7::transport::{AckTemplate, Control};
use dash7::types::VarInt;
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;

/// The value, its encoding, and the bytes behind it.
fn alone<L>(l: &L, want: &[u8], tail: &[u8]) -> V
where
    L: for<'a> DekuContainerRead<'a> + DekuContainerWrite + for<'a> TryFrom<&'a [u8], Error = DekuError> + PartialEq + Debug,
{
    let e = l.to_bytes().map_err(|e| format!("{l:?} does not encode: {}", e2s(e)))?;
    ensure!(e == want, "{l:?} encodes to {} alone, but to {} in a message", hex(&e), hex(want));
    let mut b = e.clone();
    b.extend(tail);
    let (rest, back) = L::from_bytes((&b, 0)).map_err(|e| format!("{} is refused: {}", hex(&b), e2s(e)))?;
    ensure!(&back == l, "{l:?} came back as {back:?}");
    ensure!(rest == (tail, 0), "left {:?} instead of {}", rest, hex(tail));
    match L::try_from(&b) {
        Ok(v) => ensure!(tail.is_empty() && &v == l, "{} is taken as a whole for {v:?}", hex(&b)),
        Err(e) => ensure!(!tail.is_empty(), "{} is refused: {}", hex(&b), e2s(e)),
    }
    for n in 0..want.len() {
        if let Ok((_, v)) = L::from_bytes((&want[..n], 0)) {
            return Err(format!("{} of {} bytes are taken for {v:?}", n, want.len()));
        }
    }
    Ok(())
}
/// Any bytes: accepted exactly when the layout of the message accepts them, and then the same value.
fn judge<M, L>(b: &[u8], to: &dyn Fn(&M) -> Option<L>, o: &mut Obs) -> V
where
    M: Enc + Dec + Debug,
    L: for<'a> DekuContainerRead<'a> + DekuContainerWrite + PartialEq + Debug,
{
    match (M::parse(b, D), L::from_bytes((b, 0))) {
        (Ok((m, used)), Ok((rest, l))) => {
            o.label("accepted");
            ensure!(rest == (&b[used..], 0), "left {:?} instead of {}", rest, hex(&b[used..]));
            let want = m.bytes(D);
            match to(&m) {
                Some(x) => ensure!(x == l, "{} means {x:?} but is read as {l:?}", hex(b)),
                None => {
                    let e = l.to_bytes().map_err(e2s)?;
                    ensure!(e == want, "{} encodes to {} instead of {}", hex(b), hex(&e), hex(&want));
                }
            }
            Ok(())
        }
        (Err(_), Err(_)) => {
            o.label("refused");
            Ok(())
        }
        (Ok((m, _)), Err(e)) => Err(format!("{} is refused ({}), but means {m:?}", hex(b), e2s(e))),
        (Err(e), Ok((_, l))) => Err(format!("{} is taken for {l:?}, but {e:?}", hex(b))),
    }
}
fn part<M, L>(r: &mut Run, name: &str, n: u32, s: S<M>, to: impl Fn(&M) -> Option<L>)
where
    M: Enc + Dec + PartialEq + Debug + Clone + Serialize + DeserializeOwned + 'static,
    L: for<'a> DekuContainerRead<'a> + DekuContainerWrite + for<'a> TryFrom<&'a [u8], Error = DekuError> + PartialEq + Debug,
{
    let tail = || prop_oneof![2 => Just(Hex(vec![])), 3 => hexed(gen::payload())].boxed();
    r.guided(name, n, n / 3, (s.clone(), tail()).boxed(), |(m, _)| sane(m) && to(m).is_some(), |(m, t), o| {
        o.nontrivial();
        let l = to(m).ok_or("the value could not be built")?;
        alone(&l, &m.bytes(D), &t.0)
    });
    let bytes = prop_oneof![
        3 => gen::mutated(s.prop_map(|m| m.bytes(D)).boxed()),
        1 => proptest::collection::vec(gen::byte(), 0..40).boxed(),
    ];
    r.guided(&format!("{name}, any bytes"), n, n / 2, hexed(bytes.boxed()), |_| true, |b, o| {
        o.nontrivial_if(!b.0.is_empty());
        judge(&b.0, &to, o)
    });
}
const SMALL: [NlsMethod; 8] = [
    NlsMethod::None,
    NlsMethod::AesCtr,
    NlsMethod::AesCbcMac128,
    NlsMethod::AesCbcMac64,
    NlsMethod::AesCbcMac32,
    NlsMethod::AesCcm128,
    NlsMethod::AesCcm64,
    NlsMethod::AesCcm32,
];

pub fn parts(r: &mut Run) {
    part::<_, LAddressee>(r, "addressee", 4000, gen::addressee(), |m| Some(conv::addressee(m)));
    part::<_, QoS>(r, "quality of service", 2000, gen::qos(), |m| Some(conv::qos(m)));
    part::<_, Dash7InterfaceConfiguration>(r, "dash7 configuration", 3000, gen::d7cfg(), |m| Some(conv::d7cfg(m)));
    part::<_, LoRaWANInterfaceConfiguration>(r, "lorawan base", 2000, gen::lora(), |m| Some(conv::lora(m)));
    part::<_, LoRaWANABPInterfaceConfiguration>(r, "lorawan abp", 2000, gen::abp(), |m| Some(conv::abp(m)));
    part::<_, LoRaWANOTAAInterfaceConfiguration>(r, "lorawan otaa", 2000, gen::otaa(), |m| Some(conv::otaa(m)));
    part::<_, InterfaceConfiguration>(r, "interface configuration", 4000, gen::ifcfg(), |m| Some(conv::ifcfg(m)));
    part::<_, IndirectInterface>(r, "indirect interface", 3000, gen::indif(), |m| Some(conv::indif(m)));
    part::<_, Dash7InterfaceStatus>(r, "dash7 status", 4000, gen::d7status(), |m| Some(conv::d7status(m)));
    part::<_, InterfaceStatusOperation>(r, "interface status", 4000, gen::ifstatus(), |m| Some(conv::ifstatus_op(m)));
    part::<_, LQuery>(r, "query", 8000, gen::query(), conv::query);
    part::<_, ChannelHeader>(r, "channel header", 1000, gen::chhdr(), |m| Some(conv::chhdr(m)));
    part::<_, LChannel>(r, "channel", 2000, gen::channel(), |m| Some(conv::channel(m)));
    part::<_, ChannelStatus>(r, "channel status", 3000, gen::chstatus(), |m| Some(conv::chstatus(m)));
    part::<_, LSubBand>(r, "sub-band", 2000, gen::subband(), |m| Some(conv::subband(m)));
    part::<_, SubProfile>(r, "sub-profile", 1000, gen::subprof(), |m| Some(conv::subprof(m)));
    part::<_, AccessProfile>(r, "access profile", 2000, gen::access(), |m| Some(conv::access(m)));
    part::<_, FileHeader>(r, "file header", 3000, gen::fhdr(), |m| Some(conv::fhdr(m)));
    part::<_, FilePermissions>(r, "file permissions", 1000, gen::fperm(), |m| Some(conv::fperm(m)));
    part::<_, FileProperties>(r, "file properties", 1000, gen::fprop(), |m| Some(conv::fprop(m)));
    part::<_, FileOffset>(r, "file offset", 3000, gen::off(), |m| Some(conv::off(m)));
    part::<_, Length>(r, "length", 3000, gen::len30().prop_map(Len).boxed(), |m| Some(Length::from(m.0)));
    part::<_, FactorySettings>(r, "factory settings", 2000, gen::factory(), |m| Some(conv::factory(m)));
    #[cfg(feature = "wizzilab")]
    part::<_, dash7::app::operation::InterfaceFinalStatusOperation>(r, "final status", 3000, gen::final_st(), |m| {
        Some(conv::final_op(m))
    });
    #[cfg(feature = "wizzilab")]
    part::<_, dash7::app::operation::InterfaceTxStatusOperation>(r, "tx status", 3000, gen::tx(), |m| {
        match conv::tx_op(m)? {
            Action::TxStatus(t) => {
                let dash7::app::operation::TxStatus::Interface(i) = t.status;
                Some(i)
            }
            _ => None,
        }
    });

    // the small ones that have no model of their own
    r.each("access class", 0..=255u8, |b, o| {
        o.nontrivial();
        alone(&AccessClass { specifier: b >> 4, mask: b & 15 }, &[*b], &[*b, 7])
    });
    r.each("number", 0..=255u8, |b, o| {
        o.nontrivial();
        let v = VarInt::new(varint_value(*b), false).map_err(|e| format!("{e:?}"))?;
        alone(&v, &[varint_byte(varint_value(*b))], &[1])?;
        let two = [*b, 3];
        let (rest, back) = VarInt::from_bytes((&two, 0)).map_err(e2s)?;
        let x: u32 = back.into();
        ensure!(rest == (&[3][..], 0) && x == varint_value(*b), "{b:#x} is read as {x}");
        Ok(())
    });
    r.each("action status", 0..=255u8, |b, o| {
        o.nontrivial();
        alone(&ActionStatus { action_id: !*b, status: StatusCode(*b) }, &[!*b, *b], &[9])
    });
    r.each("acknowledgement template", 0..=255u8, |b, o| {
        o.nontrivial();
        alone(&AckTemplate { transaction_id_start: *b, transaction_id_stop: b.wrapping_mul(7) }, &[*b, b.wrapping_mul(7)], &[9])
    });
    r.each("transport control", 0..128u8, |b, o| {
        o.nontrivial();
        let f = |i: u8| b >> (6 - i) & 1 == 1;
        let c = Control {
            is_dialog_start: f(0),
            has_listen_timeout: f(1),
            has_execution_delay_timeout: f(2),
            is_ack_requested: f(3),
            is_ack_not_void: f(4),
            is_ack_record_requested: f(5),
            has_agc: f(6),
        };
        alone(&c, &[b << 1], &[0xA5])
    });
    r.prop("permission", 1000, any::<[u8; 8]>().boxed(), |p, o| {
        o.nontrivial();
        let mut want = vec![0x42];
        want.extend(p);
        alone(&Permission::Dash7(*p), &want, &[1, 2])?;
        alone(&PermissionLevel::User, &[0], &p[..2])?;
        alone(&PermissionLevel::Root, &[1], &p[..2])
    });
    // parts that are told what they are by what surrounds them
    r.prop("address", 6000, (gen::addr(), hexed(gen::payload())).boxed(), |(m, t), o| {
        o.nontrivial();
        o.label(format!("address kind {}", m.kind()));
        let kind = || [AddressType::NbId, AddressType::NoId, AddressType::UId, AddressType::VId][m.kind() as usize];
        let l = conv::addr(m);
        let own = l.deku_id().map_err(e2s)?;
        ensure!(own == kind(), "{l:?} is of kind {own:?}");
        let want = m.bytes(D);
        let e = write_ctx(&l, kind()).map_err(e2s)?;
        ensure!(e == want, "{l:?} encodes to {} alone, but to {} in a message", hex(&e), hex(&want));
        let mut b = e;
        b.extend(&t.0);
        let (back, bits) = read_ctx::<Address, _>(&b, kind()).map_err(e2s)?;
        ensure!(back == l && bits == want.len() * 8, "{l:?} came back as {back:?} of {bits} bits");
        for n in 0..want.len() {
            ensure!(read_ctx::<Address, _>(&want[..n], kind()).is_err(), "{n} bytes are taken for an address");
        }
        Ok(())
    });
    r.prop("security state", 3000, (0u8..8, any::<[u8; 5]>(), hexed(gen::payload())).boxed(), |(k, st, t), o| {
        o.nontrivial_if(*k != 0);
        let m = SMALL[*k as usize];
        let want: &[u8] = if *k == 0 { &[] } else { st };
        let l = conv::nls(*k, want);
        let own = l.deku_id().map_err(e2s)?;
        ensure!(own == m, "{l:?} is of kind {own:?}");
        let e = write_ctx(&l, m).map_err(e2s)?;
        ensure!(e == want, "{l:?} encodes to {}, not {}", hex(&e), hex(want));
        let mut b = e;
        b.extend(&t.0);
        let (back, bits) = read_ctx::<NlsState, _>(&b, m).map_err(e2s)?;
        ensure!(back == l && bits == want.len() * 8, "{l:?} came back as {back:?} of {bits} bits");
        for n in 0..want.len() {
            ensure!(read_ctx::<NlsState, _>(&want[..n], m).is_err(), "{n} bytes are taken for a security state");
        }
        Ok(())
    });
    // the formats of system files
    r.prop("file formats", 12_000, (gen::typed_file(), hexed(gen::payload())).boxed(), |((id, m), t), o| {
        o.nontrivial();
        o.label(format!("file {id:#04x}"));
        file_format(m, &m.bytes(D), &t.0)
    });
    let damaged = gen::typed_file().prop_flat_map(|(id, f)| (Just(id), hexed(gen::mutated(Just(f.bytes(D)).boxed()))));
    r.prop("file formats, any bytes", 12_000, damaged.boxed(), |(id, b), o| {
        o.nontrivial();
        let mut rd = crate::bits::R::new(&b.0);
        match dec_file(&mut rd, *id, b.0.len(), D) {
            Ok(m) => {
                o.label("accepted");
                let used = rd.used();
                file_read(&m, *id, &b.0, used)
            }
            Err(e) => {
                o.label("refused");
                file_refused(*id, &b.0).map_err(|l| format!("{} is taken for {l}, but {e:?}", hex(&b.0)))
            }
        }
    });
}
/// A typed file as the format its id reserves.
fn file_format(m: &File, want: &[u8], tail: &[u8]) -> V {
    macro_rules! access {
        ($f:expr, $($v:ident)*) => {
            match $f {
                LFile::UId(_) | LFile::VId(_) | LFile::Other(_) => Ok(()),
                LFile::FactorySettings(x) => alone(&x, want, tail),
                LFile::FirmwareVersion(x) => alone(&x, want, tail),
                LFile::EngineeringMode(x) => alone(&x, want, tail),
                LFile::PhyStatus(x) => alone(&x, want, tail),
                LFile::DllConfig(x) => alone(&x, want, tail),
                LFile::DllStatus(x) => alone(&x, want, tail),
                LFile::NwlSecurityKey(x) => alone(&x, want, tail),
                $( LFile::$v(x) => alone(&x, want, tail), )*
                #[allow(unreachable_patterns)]
                x => Err(format!("unexpected file {x:?}")),
            }
        };
    }
    access!(
        conv::file(m),
        AccessProfile00 AccessProfile01 AccessProfile02 AccessProfile03 AccessProfile04 AccessProfile05
        AccessProfile06 AccessProfile07 AccessProfile08 AccessProfile09 AccessProfile10 AccessProfile11
        AccessProfile12 AccessProfile13 AccessProfile14
    )
}
macro_rules! by_format {
    ($id:expr, $b:expr, $t:ident => $e:expr, $other:expr) => {
        match $id {
            1 => { type $t = FactorySettings; $e }
            2 => { type $t = FirmwareVersion; $e }
            5 => { type $t = EngineeringMode; $e }
            9 => { type $t = PhyStatus; $e }
            0xA => { type $t = DllConfig; $e }
            0xB => { type $t = DllStatus; $e }
            0xE => { type $t = SecurityKey; $e }
            0x20..=0x2E => { type $t = AccessProfile; $e }
            _ => $other,
        }
    };
}
fn file_read(m: &File, id: u8, b: &[u8], used: usize) -> V {
    let want = m.bytes(D);
    by_format!(id, b, T => {
        let (rest, l) = T::from_bytes((b, 0)).map_err(|e| format!("{} is refused ({}), but means {m:?}", hex(b), e2s(e)))?;
        ensure!(rest == (&b[used..], 0), "left {:?} instead of {}", rest, hex(&b[used..]));
        let e = l.to_bytes().map_err(e2s)?;
        ensure!(e == want, "{l:?} encodes to {} instead of {}", hex(&e), hex(&want));
        Ok(())
    }, Ok(()))
}
fn file_refused(id: u8, b: &[u8]) -> Result<(), String> {
    by_format!(id, b, T => match T::from_bytes((b, 0)) {
        Ok((_, l)) => Err(format!("{l:?}")),
        Err(_) => Ok(()),
    }, Ok(()))
}
