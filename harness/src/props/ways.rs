//! C25: all ways of decoding agree with each other, and all ways of encoding.
use super::*;
use crate::gen::{self, S};
use crate::props::faults::{self, Faults};
use crate::props::same;
use crate::props::messages::Dribble;
use crate::run::{hexed, Obs, Run};
use dash7::app::operation::{self as op, InterfaceStatusOperation, Length};
use dash7::app::{action, interface, query};
use dash7::file::{self, File as LFile, FileId};
use dash7::{data, link, network, physical, session, transport, types};
use deku::no_std_io::{Seek, SeekFrom};
use proptest::prelude::*;
use std::fmt::Debug;

/// What one way of decoding says: the value, and how many bits it took.
type Said<T> = Result<(T, usize), String>;

fn agree<T: PartialEq + Debug>(b: &[u8], a: &Said<T>, how: &str, x: &Said<T>) -> V {
    match (a, x) {
        (Ok((v, n)), Ok((w, k))) => {
            ensure!(v == w, "{} is {v:?} from a slice and {w:?} {how}", hex(b));
            ensure!(n == k, "{} takes {n} bits from a slice and {k} {how}", hex(b));
        }
        (Err(_), Err(_)) => {}
        (Ok((v, _)), Err(e)) => return Err(format!("{} is {v:?} from a slice but refused {how}: {e}", hex(b))),
        (Err(e), Ok((w, _))) => return Err(format!("{} is refused from a slice ({e}) but is {w:?} {how}", hex(b))),
    }
    Ok(())
}
fn taken(b: &[u8], start: usize, rest: (&[u8], usize)) -> usize {
    (b.len() - rest.0.len()) * 8 + rest.1 - start
}
/// The same bytes behind some others, and the bit they begin at.
fn behind(b: &[u8], sizes: &[u8]) -> (Vec<u8>, usize) {
    let n = match sizes.first() {
        None => 1,
        Some(&n) if n & 1 == 0 => n as usize >> 1 & 3,
        Some(&n) => n as usize >> 1,
    };
    let mut far: Vec<u8> = (0..n).map(|i| sizes.get(i % sizes.len().max(1)).map_or(0xC3, |s| s.wrapping_mul(i as u8 | 1))).collect();
    far.extend(b);
    (far, 8 * n)
}
/// Everything a writer can be asked to do with a value that encodes to `e`.
fn out<T>(v: &T, e: &Result<Vec<u8>, String>, writer: impl Fn(&T, &mut Writer<&mut Cursor<Vec<u8>>>) -> Result<(), DekuError>) -> V {
    let mut cur = Cursor::new(vec![0x5A]);
    cur.seek(SeekFrom::End(0)).unwrap();
    let mut w = Writer::new(&mut cur);
    let done = writer(v, &mut w).and_then(|()| w.finalize());
    drop(w);
    match (done, e) {
        (Ok(()), Ok(e)) => {
            let got = cur.into_inner();
            ensure!(got[0] == 0x5A && &got[1..] == &e[..], "written behind other bytes it is {}, alone {}", hex(&got[1..]), hex(e));
        }
        (Err(_), Err(_)) => {}
        (d, e) => return Err(format!("written behind other bytes: {d:?}, alone: {e:?}")),
    }
    Ok(())
}
fn slices<T: DekuContainerWrite>(v: &T, e: &Result<Vec<u8>, String>) -> V {
    let Ok(e) = e else {
        ensure!(v.to_slice(&mut [0; 4096]).is_err(), "refused as a vector, but written to a slice");
        return Ok(());
    };
    let mut room = vec![0xEE; e.len() + 3];
    let n = v.to_slice(&mut room).map_err(|x| format!("{} does not go into a slice: {}", hex(e), e2s(x)))?;
    ensure!(n == e.len() && &room[..n] == &e[..] && room[n..] == [0xEE; 3], "in a slice it is {} ({n}), alone {}", hex(&room), hex(e));
    if !e.is_empty() {
        let mut room = vec![0; e.len() - 1];
        ensure!(v.to_slice(&mut room).is_err(), "{} goes into {} bytes", hex(e), room.len());
    }
    Ok(())
}
/// A reader of a type that needs nothing from outside.
fn plain<T>(b: &[u8], sizes: &[u8], shift: bool) -> Result<bool, String>
where
    T: for<'a> DekuContainerRead<'a> + DekuContainerWrite + Debug + Clone + PartialEq,
    T: for<'a> TryFrom<&'a [u8], Error = DekuError> + TryInto<Vec<u8>, Error = DekuError>,
{
    let first: Said<T> = T::from_bytes((b, 0)).map(|(r, v)| (v, taken(b, 0, r))).map_err(e2s);
    let x = T::from_reader((&mut Cursor::new(b), 0)).map(|(n, v)| (v, n)).map_err(e2s);
    agree(b, &first, "from a reader", &x)?;
    let x = T::from_reader((&mut Dribble { b, pos: 0, sizes, n: 0 }, 0)).map(|(n, v)| (v, n)).map_err(e2s);
    agree(b, &first, "from a slow reader", &x)?;
    let x = read_ctx::<T, ()>(b, ()).map_err(e2s);
    agree(b, &first, "in the middle of something", &x)?;
    if shift {
        let (far, at) = behind(b, sizes);
        let x = T::from_bytes((&far, at)).map(|(r, v)| (v, taken(&far, at, r))).map_err(e2s);
        agree(b, &first, "from a later byte of a slice", &x)?;
        let x = T::from_reader((&mut Cursor::new(&far[..]), at)).map(|(n, v)| (v, n.wrapping_sub(at))).map_err(e2s);
        agree(b, &first, "from a later byte of a reader", &x)?;
        let x = T::from_reader((&mut Dribble { b: &far, pos: 0, sizes, n: 0 }, at)).map(|(n, v)| (v, n.wrapping_sub(at))).map_err(e2s);
        agree(b, &first, "from a later byte of a slow reader", &x)?;
    }
    let whole = T::try_from(b);
    let v = match first {
        Ok((v, n)) => {
            // a value of some bits leaves the byte they are in
            ensure!(whole.is_ok() == (n.div_ceil(8) == b.len() && n % 8 == 0 || b.is_empty()), "{} is {v:?} of {n} bits, but as a whole {whole:?}", hex(b));
            if let Ok(w) = whole {
                ensure!(w == v, "{} is {v:?}, but as a whole {w:?}", hex(b));
            }
            v
        }
        Err(e) => {
            ensure!(whole.is_err(), "{} is refused ({e}), but as a whole {whole:?}", hex(b));
            return Ok(false);
        }
    };
    let e = v.to_bytes().map_err(e2s);
    out(&v, &e, |v, w| v.to_writer(w, ()))?;
    slices(&v, &e)?;
    let x: Result<Vec<u8>, _> = v.clone().try_into();
    ensure!(x.map_err(e2s) == e, "{v:?} converts to other bytes than {e:?}");
    Ok(true)
}
/// Commands have functions of their own.
fn command(b: &[u8], sizes: &[u8], _: bool) -> Result<bool, String> {
    let first: Said<Command> = Command::from_bytes((b, 0)).map(|(r, v)| (v, taken(b, 0, r))).map_err(e2s);
    let x = Command::from_reader((&mut Cursor::new(b), 0)).map(|(n, v)| (v, n)).map_err(e2s);
    agree(b, &first, "from a reader", &x)?;
    let x = Command::from_reader((&mut Dribble { b, pos: 0, sizes, n: 0 }, 0)).map(|(n, v)| (v, n)).map_err(e2s);
    agree(b, &first, "from a slow reader", &x)?;
    let x = read_ctx::<Command, u32>(b, 0).map_err(e2s);
    agree(b, &first, "in the middle of something", &x)?;
    if !b.is_empty() {
        let x = read_ctx::<Command, u32>(b, b.len() as u32).map_err(e2s);
        agree(b, &first, "when its length is given", &x)?;
    }
    let (far, at) = behind(b, sizes);
    let x = Command::from_bytes((&far, at)).map(|(r, v)| (v, taken(&far, at, r))).map_err(e2s);
    agree(b, &first, "from a later byte of a slice", &x)?;
    let x = Command::from_reader((&mut Cursor::new(&far[..]), at)).map(|(n, v)| (v, n.wrapping_sub(at))).map_err(e2s);
    agree(b, &first, "from a later byte of a reader", &x)?;
    let whole = Command::try_from(b);
    let (v, n) = match first {
        Ok(x) => x,
        Err(e) => {
            ensure!(whole.is_err(), "{} is refused ({e}), but as a whole {whole:?}", hex(b));
            return Ok(false);
        }
    };
    ensure!(whole.is_ok() == (n == 8 * b.len()), "{} is {v:?} of {n} bits, but as a whole {whole:?}", hex(b));
    if let Ok(w) = whole {
        ensure!(w == v, "{} is {v:?}, but as a whole {w:?}", hex(b));
    }
    ensure!(Command::new(v.actions.clone()) == v, "{v:?} is not the command of its actions");
    let e = v.to_bytes().map_err(e2s);
    for len in [0, 1, b.len() as u32] {
        out(&v, &e, |v, w| v.to_writer(w, len))?;
    }
    let x: Result<Vec<u8>, _> = v.clone().try_into();
    ensure!(x.map_err(e2s) == e, "{v:?} converts to other bytes than {e:?}");
    for a in &v.actions {
        let id = a.deku_id().map_err(e2s)?;
        let e = a.to_bytes().map_err(e2s)?;
        ensure!(e[0] & 0x3F == id.0, "{a:?} says its opcode is {id:?} and encodes to {}", hex(&e));
    }
    Ok(true)
}
/// A file by its id, from a slice, a reader, and as the data of an action.
fn files(b: &[u8], sizes: &[u8], _: bool) -> Result<bool, String> {
    let mut any = false;
    for id in (0..=0x2Fu8).chain([0x40]) {
        let Ok(f) = FileId::try_from(id) else { continue };
        let n = b.len() as u32;
        let first: Said<LFile> = LFile::from_bytes((b, 0), f.clone(), n).map(|(r, v)| (v, taken(b, 0, r))).map_err(e2s);
        let x = read_ctx::<LFile, _>(b, (f.clone(), n)).map_err(e2s);
        agree(b, &first, "in the middle of something", &x)?;
        let (far, at) = behind(b, sizes);
        let x = LFile::from_bytes((&far, at), f.clone(), n).map(|(r, v)| (v, taken(&far, at, r))).map_err(e2s);
        agree(b, &first, "from a later byte of a slice", &x)?;
        let mut slow = Dribble { b, pos: 0, sizes, n: 0 };
        let mut rd = Reader::new(&mut slow);
        let x = LFile::from_reader_with_ctx(&mut rd, (f.clone(), n)).map(|v| (v, rd.bits_read)).map_err(e2s);
        agree(b, &first, "from a slow reader", &x)?;
        if let Ok((v, _)) = first {
            any = true;
            let e = write_ctx(&v, (f.clone(), n)).map_err(e2s);
            out(&v, &e, |v, w| v.to_writer(w, (f.clone(), n)))?;
        }
    }
    Ok(any)
}
/// One exported codec, and what is asked of it.
pub struct Way {
    pub name: &'static str,
    agrees: fn(&[u8], &[u8], bool) -> Result<bool, String>,
    pub survives: fn(&[u8], &Faults) -> Result<bool, String>,
    /// are two of them equal, if both are accepted
    pub same: fn(&[u8], &[u8]) -> Result<Option<bool>, String>,
    /// can it be read from a later byte of the input
    shift: bool,
}
pub fn ways() -> Vec<Way> {
    macro_rules! list { ($($t:ty),* $(,)?) => { vec![ $( Way { name: stringify!($t), agrees: plain::<$t>, survives: faults::plain::<$t>, same: same::plain::<$t>, shift: true }, )* ] }; }
    let mut v: Vec<Way> = list![
        action::Action, link::BackgroundFrame, network::Frame, transport::Frame, network::Control,
        network::HoppingControl, transport::Control, transport::AckTemplate, link::BackgroundFrameControl,
        link::ForegroundFrameControl, link::AccessClass, link::AccessProfile, link::SubProfile, network::Addressee,
        session::QoS, session::InterfaceType, session::Dash7InterfaceStatus, InterfaceStatusOperation,
        op::ActionStatus, op::Permission, op::PermissionLevel, op::StatusCode, op::FileOffset, Length, query::Query,
        interface::Dash7InterfaceConfiguration, interface::LoRaWANInterfaceConfiguration,
        interface::LoRaWANABPInterfaceConfiguration, interface::LoRaWANOTAAInterfaceConfiguration,
        interface::InterfaceConfiguration, interface::IndirectInterface, physical::ChannelHeader, physical::Channel,
        physical::ChannelStatusIdentifier, physical::SubBand, physical::ChannelStatus, data::FilePermissions,
        data::FileProperties, data::FileHeader, types::VarInt, file::FileId, file::FactorySettings,
        file::FirmwareVersion, file::EngineeringMode, file::PhyStatus, file::DllConfig, file::DllStatus,
        file::SecurityKey, file::AccessProfile<0>, file::AccessProfile<14>,
    ];
    #[cfg(feature = "wizzilab")]
    v.extend::<Vec<Way>>(list![
        op::InterfaceFinalStatusOperation, op::InterfaceTxStatusOperation, session::InterfaceFinalStatusCode,
    ]);
    // its length counts from the beginning of the input
    v.push(Way { name: "ForegroundFrame", agrees: plain::<link::ForegroundFrame>, survives: faults::plain::<link::ForegroundFrame>, same: same::plain::<link::ForegroundFrame>, shift: false });
    v.push(Way { name: "Command", agrees: command, survives: faults::command, same: same::command, shift: true });
    v.push(Way { name: "File", agrees: files, survives: faults::files, same: same::files, shift: true });
    v
}
/// Encodings of every part that is not a message of its own.
pub fn parts() -> S<Vec<u8>> {
    prop_oneof![
        2 => gen::addressee().prop_map(|m| m.bytes(D)),
        2 => gen::ifcfg().prop_map(|m| m.bytes(D)),
        1 => gen::indif().prop_map(|m| m.bytes(D)),
        2 => gen::ifstatus().prop_map(|m| m.bytes(D)),
        1 => gen::d7status().prop_map(|m| m.bytes(D)),
        2 => gen::query().prop_map(|m| m.bytes(D)),
        1 => gen::fhdr().prop_map(|m| m.bytes(D)),
        1 => gen::off().prop_map(|m| m.bytes(D)),
        1 => proptest::collection::vec(any::<u8>(), 8).prop_map(|mut v| { v.insert(0, 0x42); v }),
        3 => gen::typed_file().prop_map(|(_, m)| m.bytes(D)),
    ]
    .boxed()
}
pub fn ways_agree(r: &mut Run) {
    let all = ways();
    let check = |(b, sizes): &(Hex, Vec<u8>), o: &mut Obs| -> V {
        o.nontrivial_if(b.0.len() > 1);
        for w in &all {
            if (w.agrees)(&b.0, sizes, w.shift).map_err(|e| format!("{}: {e}", w.name))? {
                o.label(format!("accepted as {}", w.name));
            }
        }
        Ok(())
    };
    let sizes = || proptest::collection::vec(any::<u8>(), 0..6);
    let tail = || prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(any::<u8>(), 1..4)];
    let with_tail = |s: S<Vec<u8>>| (s, tail()).prop_map(|(mut b, t)| { b.extend(t); Hex(b) });
    r.guided("any bytes", 11_000, 5_000, (hexed(crate::props::runtime::any_bytes()), sizes()).boxed(), |_| true, check);
    r.prop("parts", 12_000, (with_tail(parts()), sizes()).boxed(), check);
    r.prop("damaged parts", 6_000, (hexed(gen::mutated(parts())), sizes()).boxed(), check);
    // values that no decoder makes: encodings are refused in every way, or in none
    r.prop("values that may not fit", 12_000, super::values::spoiled(), |s, o| {
        o.nontrivial();
        let (what, a, c) = super::values::spoiled_command(s)?;
        o.label(what);
        let e = a.to_bytes().map_err(e2s);
        out(&a, &e, |v, w| v.to_writer(w, ()))?;
        slices(&a, &e)?;
        let x: Result<Vec<u8>, _> = a.clone().try_into();
        ensure!(x.map_err(e2s) == e, "{a:?} converts to other bytes than {e:?}");
        let e = c.to_bytes().map_err(e2s);
        out(&c, &e, |v, w| v.to_writer(w, 0))?;
        let x: Result<Vec<u8>, _> = c.clone().try_into();
        ensure!(x.map_err(e2s) == e, "{c:?} converts to other bytes than {e:?}");
        Ok(())
    });
}
