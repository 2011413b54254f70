//! C23: cases that all dialects share, and what this build makes of them. The driver compares the
//! answers of the three builds.
use super::runtime::any_bytes;
use super::*;
use crate::gen;
use crate::run::{guard, Run};
use dash7::file::{File as LFile, FileId};
use dash7::link::{BackgroundFrame, ForegroundFrame};
use dash7::{network, transport};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const ALL: [Dialect; 3] = [Dialect::Spec, Dialect::Subiot, Dialect::Wizzilab];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    Enc(Vec<Act>),
    Cmd(Hex),
    File(u8, Hex),
    /// 0 foreground, 1 background, 2 network, 3 transport
    Frame(u8, Hex),
}
/// Everything happens across builds.
pub fn local(_: &mut Run) {}

fn agree<T: PartialEq>(f: impl Fn(Dialect) -> T) -> bool {
    let first = f(ALL[0]);
    ALL[1..].iter().all(|d| f(*d) == first)
}
/// Is there nothing in it that belongs to one dialect, by the layout?
fn shared(c: &Case) -> bool {
    fn p<T: Dec>(b: &[u8], d: Dialect) -> Option<(T, usize)> {
        T::parse(b, d).ok()
    }
    match c {
        Case::Enc(m) => {
            !m.iter().any(|a| matches!(a, Act::Final(_) | Act::Tx(_)))
                && agree(|d| m.bytes(d))
                && agree(|d| p::<Vec<Act>>(&m.bytes(ALL[0]), d))
        }
        Case::Cmd(b) => agree(|d| p::<Vec<Act>>(&b.0, d)),
        Case::File(id, b) => agree(|d| {
            let mut r = crate::bits::R::new(&b.0);
            dec_file(&mut r, *id, b.0.len(), d).ok().map(|f| (f, r.pos))
        }),
        Case::Frame(0, b) => agree(|d| p::<Fg>(&b.0, d)),
        Case::Frame(1, b) => agree(|d| p::<Bg>(&b.0, d)),
        Case::Frame(2, b) => agree(|d| p::<Net>(&b.0, d)),
        Case::Frame(_, b) => agree(|d| p::<Trans>(&b.0, d)),
    }
}
pub fn draw(r: &Run, n: u32) -> String {
    let few = || vec(gen::act_no_indirect(), 0..3).boxed();
    let frames = prop_oneof![
        2 => (Just(0u8), gen::fg_with(gen::net_with(gen::trans_with(few()))).prop_map(|m| m.bytes(D))),
        1 => (Just(1u8), gen::bg().prop_map(|m| m.bytes(D))),
        2 => (Just(2u8), gen::net_with(gen::trans_with(few())).prop_map(|m| m.bytes(D))),
        2 => (Just(3u8), gen::trans_with(few()).prop_map(|m| m.bytes(D))),
    ];
    let damaged = frames.clone().prop_flat_map(|(k, b)| (Just(k), gen::mutated(Just(b).boxed())));
    let file = gen::typed_file().prop_map(|(i, f)| (i, f.bytes(D)));
    let bad_file = file.clone().prop_flat_map(|(i, b)| (Just(i), gen::mutated(Just(b).boxed())));
    let s = prop_oneof![
        6 => vec(gen::act_no_indirect(), 0..4).prop_map(Case::Enc),
        2 => gen::act().prop_map(|a| Case::Enc(vec![a])),
        8 => gen::cmd_bytes().prop_map(|b| Case::Cmd(Hex(b))),
        3 => frames.prop_map(|(k, b)| Case::Frame(k, Hex(b))),
        3 => damaged.prop_map(|(k, b)| Case::Frame(k, Hex(b))),
        1 => (0u8..4, any_bytes()).prop_map(|(k, b)| Case::Frame(k, Hex(b))),
        1 => file.prop_map(|(k, b)| Case::File(k, Hex(b))),
        2 => bad_file.prop_map(|(k, b)| Case::File(k, Hex(b))),
    ];
    let cases = r.draw("dialects", n, s.boxed());
    let mut out = String::new();
    for c in cases.into_iter().filter(shared) {
        out += &serde_json::to_string(&c).unwrap();
        out.push('\n');
    }
    out
}
/// The text of a value, without the fields only one dialect has.
fn text(v: &impl std::fmt::Debug) -> String {
    format!("{v:?}").replace("group_condition: Any, ", "").replace("use_vid: false, ", "")
}
fn answer(c: &Case) -> String {
    fn frame<T: for<'a> DekuContainerRead<'a> + DekuContainerWrite + std::fmt::Debug>(b: &[u8]) -> String {
        match T::from_bytes((b, 0)) {
            Ok((rest, f)) => format!("accepted {} | left {} | {:?}", text(&f), hex(rest.0), f.to_bytes().ok().map(|x| hex(&x))),
            Err(_) => "refused".into(),
        }
    }
    match c {
        Case::Enc(m) => match conv::cmd(m) {
            Some(c) => format!("{:?} | {} | {c}", c.to_bytes().ok().map(|x| hex(&x)), text(&c))
                .replace("group_condition: Any, ", "")
                .replace("use_vid: false, ", ""),
            None => "cannot be built".into(),
        },
        Case::Cmd(b) => match Command::from_bytes((&b.0, 0)) {
            Ok((rest, c)) => format!("accepted {} | left {} | {:?}", text(&c), hex(rest.0), c.to_bytes().ok().map(|x| hex(&x))),
            Err(_) => "refused".into(),
        },
        Case::File(id, b) => match FileId::try_from(*id).and_then(|i| LFile::from_bytes((&b.0, 0), i, b.0.len() as u32)) {
            Ok((rest, f)) => format!("accepted {} | left {}", text(&f), hex(rest.0)),
            Err(_) => "refused".into(),
        },
        Case::Frame(0, b) => frame::<ForegroundFrame>(&b.0),
        Case::Frame(1, b) => frame::<BackgroundFrame>(&b.0),
        Case::Frame(2, b) => frame::<network::Frame>(&b.0),
        Case::Frame(_, b) => frame::<transport::Frame>(&b.0),
    }
}
/// One line of answer per line of case; "skip" where dialects may differ.
pub fn eval(lines: &str) -> String {
    let mut out = String::new();
    for l in lines.lines() {
        let c: Case = serde_json::from_str(l).expect("case");
        let a = if shared(&c) { guard(|| answer(&c)).unwrap_or_else(|e| e) } else { "skip".into() };
        out += &a.replace('\n', " / ");
        out.push('\n');
    }
    out
}
