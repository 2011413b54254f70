//! One function per property.
pub mod codes;
pub mod cross;
pub mod faults;
pub mod frames;
pub mod messages;
pub mod made;
pub mod parts;
pub mod runtime;
pub mod same;
pub mod values;
pub mod ways;

use crate::model::*;
use crate::refcodec::*;
use crate::run::{hex, short, Hex, Run, V};
use crate::{conv, ensure};
use dash7::app::action::Action;
use dash7::app::command::Command;
use deku::no_std_io::Cursor;
use deku::prelude::*;
use deku::{DekuError, DekuReader, DekuWriter};

pub fn dispatch(r: &mut Run) {
    match r.prop.as_str() {
        "C01" => messages::round_trip(r),
        "C02" => messages::layout(r),
        "C03" => messages::meaning(r),
        "C04" => runtime::no_panic(r),
        "C05" => messages::stable(r),
        "C06" => messages::consumption(r),
        "C07" => messages::containment(r),
        "C08" => values::lengths(r),
        "C09" => values::varints(r),
        "C10" => values::derived(r),
        "C11" => values::files(r),
        "C12" => frames::frames(r),
        "C13" => values::refused(r),
        "C14" => messages::accessors(r),
        "C15" => messages::display(r),
        "C16" => codes::codes(r),
        "C17" => runtime::cli(r),
        "C19" => runtime::memory(r),
        "C20" => runtime::pure(r),
        "C21" => codes::ids(r),
        "C22" => messages::concat(r),
        "C23" => cross::local(r),
        "C24" => parts::parts(r),
        "C25" => ways::ways_agree(r),
        "C26" => faults::faults(r),
        "C27" => same::same(r),
        "C28" => made::made_alike(r),
        p => panic!("no property {p}"),
    }
}
/// Cases for a check that runs elsewhere, one per line.
pub fn draw(r: &Run, n: u32) -> String {
    match r.prop.as_str() {
        "C18" => runtime::memory_cases(r, n),
        "C18-interpreter" => runtime::interpreter_cases(r, n),
        "C23" => cross::draw(r, n),
        p => panic!("no cases for {p}"),
    }
}

// ------------------------------------------------------------------------- helpers

/// Decode a value that needs a context; also how many bits it took.
pub fn read_ctx<'a, T: DekuReader<'a, C>, C>(b: &[u8], ctx: C) -> Result<(T, usize), DekuError> {
    let mut cur = Cursor::new(b);
    let mut r = Reader::new(&mut cur);
    let v = T::from_reader_with_ctx(&mut r, ctx)?;
    Ok((v, r.bits_read))
}
/// Encode a value that needs a context.
pub fn write_ctx<T: DekuWriter<C>, C>(t: &T, ctx: C) -> Result<Vec<u8>, DekuError> {
    let mut out = vec![];
    let mut cur = Cursor::new(&mut out);
    let mut w = Writer::new(&mut cur);
    t.to_writer(&mut w, ctx)?;
    w.finalize()?;
    Ok(out)
}
pub fn e2s(e: DekuError) -> String {
    short(format!("{e:?}"))
}

/// Does the message hold a status whose interface id the library does not keep (finding K1)?
pub fn has_k1(c: &[Act]) -> bool {
    c.iter().any(|a| matches!(a, Act::IfStatus(IfStatus::Unknown(..))))
}
/// The encoding with exactly that defect: the id of an unknown interface is missing.
pub fn k1_bytes(c: &[Act]) -> Vec<u8> {
    let mut out = vec![];
    for a in c {
        let mut b = a.bytes(D);
        if let Act::IfStatus(IfStatus::Unknown(..)) = a {
            b.remove(1);
        }
        out.extend(b);
    }
    out
}
/// Does the library value mean what the model says?
pub fn same_act(lib: &Action, m: &Act) -> V {
    match conv::act(m) {
        Some(a) => ensure!(&a == lib, "expected {}, got {}", short(format!("{a:?}")), short(format!("{lib:?}"))),
        None => {
            // only a decoder can make this value; its encoding shows what it holds
            let b = lib.to_bytes().map_err(e2s)?;
            let want = m.bytes(D);
            ensure!(b == want, "expected a value encoding to {}, got {} ({lib:?})", hex(&want), hex(&b));
        }
    }
    Ok(())
}
/// Could the generators have made this? It says the same after a round through its bytes.
pub fn sane<M: Dec + Enc + PartialEq>(m: &M) -> bool {
    let b = m.bytes(D);
    matches!(M::parse(&b, D), Ok((n, used)) if n == *m && used == b.len())
}
/// And could a program have made it, rather than a decoder?
pub fn sound(m: &Vec<Act>) -> bool {
    sane(m) && conv::cmd(m).is_some()
}
pub fn same_cmd(lib: &Command, m: &[Act]) -> V {
    ensure!(
        lib.actions.len() == m.len(),
        "expected {} actions ({}), got {} ({})",
        m.len(),
        short(format!("{m:?}")),
        lib.actions.len(),
        short(format!("{:?}", lib.actions))
    );
    for (i, (a, m)) in lib.actions.iter().zip(m).enumerate() {
        same_act(a, m).map_err(|e| format!("action {i}: {e}"))?;
    }
    Ok(())
}
pub fn build(m: &[Act]) -> Result<Command, String> {
    conv::cmd(m).ok_or_else(|| "the value could not be built".to_string())
}
pub fn encode(c: &Command) -> Result<Vec<u8>, String> {
    c.to_bytes().map_err(|e| format!("encoding failed: {}", e2s(e)))
}
pub fn decode(b: &[u8]) -> Result<Command, String> {
    Command::try_from(b).map_err(|e| format!("decoding {} failed: {}", hex(b), e2s(e)))
}
/// Positions at which to cut an encoding: all of them, or a spread for long ones.
pub fn cuts(n: usize) -> Vec<usize> {
    if n <= 400 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..100).chain((100..n).step_by((n / 150).max(1))).chain(n - 100..n).collect();
        v.dedup();
        v
    }
}
pub fn ref_cmd(b: &[u8]) -> Result<(Vec<Act>, usize), crate::bits::E> {
    <Vec<Act>>::parse(b, D)
}
pub fn hx(b: &[u8]) -> Hex {
    Hex(b.to_vec())
}
