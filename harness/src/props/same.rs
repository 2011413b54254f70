//! C27: values are equal exactly when they mean the same.
use super::*;
use crate::gen::{self, S};
use crate::run::{Obs, Run};
use dash7::app::action::OpCode;
use dash7::app::operation::{Length, Status, StatusCode, StatusType};
use dash7::app::query::Query as LQuery;
use dash7::file::{File as LFile, FileId};
use dash7::session::InterfaceType;
use dash7::types::VarInt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

/// Equality as such: of a value and its copy, in both directions, and as seen in the debug text.
fn relation<T: PartialEq + Clone + Debug>(x: &T, y: &T) -> Result<bool, String> {
    for v in [x, y] {
        let c = v.clone();
        ensure!(*v == c && !(*v != c), "{} is not equal to its copy", short(format!("{v:?}")));
        ensure!(format!("{v:?}") == format!("{c:?}"), "{} prints {} when copied", short(format!("{v:?}")), short(format!("{c:?}")));
    }
    let eq = x == y;
    ensure!(eq == (y == x) && eq != (x != y) && eq != (y != x), "{} and {}: {eq} one way, {} the other", short(format!("{x:?}")), short(format!("{y:?}")), y == x);
    ensure!(!eq || format!("{x:?}") == format!("{y:?}"), "equal, but {} and {}", short(format!("{x:?}")), short(format!("{y:?}")));
    Ok(eq)
}
/// Two values as decoded: equal when they are written alike, and only then.
/// Those that do not come back from what they are written as (findings K1, K2) may be written alike.
fn judge<T: PartialEq + Clone + Debug>(
    x: &T,
    y: &T,
    ex: &Result<Vec<u8>, String>,
    ey: &Result<Vec<u8>, String>,
    back: &dyn Fn(&[u8]) -> Option<T>,
) -> Result<bool, String> {
    let eq = relation(x, y)?;
    match (ex, ey) {
        (Ok(a), Ok(b)) if !eq && a == b && (back(a).as_ref() != Some(x) || back(b).as_ref() != Some(y)) => {}
        (Ok(a), Ok(b)) => ensure!(eq == (a == b), "{} and {}: equal is {eq}, written {} and {}", short(format!("{x:?}")), short(format!("{y:?}")), hex(a), hex(b)),
        (Err(_), Err(_)) => {}
        _ => ensure!(!eq, "equal, but written {ex:?} and {ey:?}"),
    }
    Ok(eq)
}
/// None when one of them is refused.
pub fn plain<T>(a: &[u8], b: &[u8]) -> Result<Option<bool>, String>
where
    T: for<'x> DekuContainerRead<'x> + DekuContainerWrite + Debug + Clone + PartialEq,
{
    let (Ok((_, x)), Ok((_, y))) = (T::from_bytes((a, 0)), T::from_bytes((b, 0))) else { return Ok(None) };
    let back = |b: &[u8]| T::from_bytes((b, 0)).ok().map(|x| x.1);
    judge(&x, &y, &x.to_bytes().map_err(e2s), &y.to_bytes().map_err(e2s), &back).map(Some)
}
pub fn command(a: &[u8], b: &[u8]) -> Result<Option<bool>, String> {
    let (Ok((_, x)), Ok((_, y))) = (Command::from_bytes((a, 0)), Command::from_bytes((b, 0))) else { return Ok(None) };
    let back = |b: &[u8]| Command::from_bytes((b, 0)).ok().map(|x| x.1);
    let eq = judge(&x, &y, &x.to_bytes().map_err(e2s), &y.to_bytes().map_err(e2s), &back)?;
    ensure!(!eq || x.to_string() == y.to_string(), "equal, but shown as {x} and {y}");
    ensure!(eq == (x.actions == y.actions), "equal is {eq}, but not of the actions");
    Ok(Some(eq))
}
pub fn files(a: &[u8], b: &[u8]) -> Result<Option<bool>, String> {
    let mut any = None;
    for id in (0..=0x2Fu8).chain([0x40]) {
        let Ok(f) = FileId::try_from(id) else { continue };
        let one = |b: &[u8]| LFile::from_bytes((b, 0), f.clone(), b.len() as u32).ok().map(|(_, v)| v);
        let (Some(x), Some(y)) = (one(a), one(b)) else { continue };
        let w = |v: &LFile, n: usize| write_ctx(v, (f.clone(), n as u32)).map_err(e2s);
        any = Some(judge(&x, &y, &w(&x, a.len()), &w(&y, b.len()), &one)? | any.unwrap_or(false));
    }
    Ok(any)
}
/// What can be told apart in a message: the id of an unknown interface is not kept (finding K1).
fn meaning(c: &[Act]) -> Vec<Act> {
    c.iter()
        .map(|a| match a {
            Act::IfStatus(IfStatus::Unknown(_, b)) => Act::IfStatus(IfStatus::Unknown(0, b.clone())),
            a => a.clone(),
        })
        .collect()
}
/// A change to a list of actions.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Swap(u16, u16),
    Drop(u16),
    Again(u16),
    Change(u16, Vec<gen::Mut>),
}
fn step() -> S<Step> {
    prop_oneof![
        1 => any::<(u16, u16)>().prop_map(|(a, b)| Step::Swap(a, b)),
        1 => any::<u16>().prop_map(Step::Drop),
        1 => any::<u16>().prop_map(Step::Again),
        4 => (any::<u16>(), proptest::collection::vec(gen::mutation(), 1..3)).prop_map(|(p, m)| Step::Change(p, m)),
    ]
    .boxed()
}
/// The changed list; a change of bytes that does not leave one action is left out.
fn changed(c: &[Act], steps: &[Step]) -> Vec<Act> {
    let mut c = c.to_vec();
    for s in steps {
        let n = c.len();
        if n == 0 {
            break;
        }
        let at = |p: u16| p as usize * n / 65536;
        match s {
            Step::Swap(p, q) => c.swap(at(*p), at(*q)),
            Step::Drop(p) => drop(c.remove(at(*p))),
            Step::Again(p) => c.insert(at(*p), c[at(*p)].clone()),
            Step::Change(p, ms) => {
                let mut b = c[at(*p)].bytes(D);
                gen::mutate(&mut b, ms);
                if let Ok((mut v, used)) = ref_cmd(&b) {
                    if v.len() == 1 && used == b.len() {
                        c[at(*p)] = v.remove(0);
                    }
                }
            }
        }
    }
    c
}
/// Sets a field that usually follows from others; what it was, and whether it is another one now.
fn twist(a: &mut Action, k: u8, v: u32) -> Option<(&'static str, bool)> {
    fn set<T: PartialEq>(name: &'static str, f: &mut T, v: T) -> Option<(&'static str, bool)> {
        let other = *f != v;
        *f = v;
        Some((name, other))
    }
    let types = [InterfaceType::Host, InterfaceType::Serial, InterfaceType::LoRaWanABP, InterfaceType::LoRaWanOTAA, InterfaceType::Dash7, InterfaceType::Unknown];
    if k == 0 {
        let o = made::opcode_of(a)?;
        let other = o.0 != v as u8;
        o.0 = v as u8;
        return Some(("opcode", other));
    }
    match a {
        Action::Status(s) if k == 1 => {
            let t = [StatusType::Action, StatusType::Interface, StatusType::InterfaceFinal][v as usize % 3];
            set("status type", &mut s.status_type, t)
        }
        Action::Status(s) => match &mut s.status {
            Status::Interface(i) => set("interface type", &mut i.interface_type, types[v as usize % 6]),
            #[cfg(feature = "wizzilab")]
            Status::InterfaceFinal(i) => set("final interface", &mut i.interface_id, v as u8),
            _ => None,
        },
        Action::IndirectForward(f) => set("overloaded", &mut f.header.overloaded, v & 1 == 1),
        Action::ActionQuery(q) | Action::BreakQuery(q) | Action::VerifyChecksum(q) => {
            let l = match &mut q.query {
                LQuery::ComparisonWithOtherFile(q) => &mut q.length,
                LQuery::BitmapRangeComparison(q) => &mut q.length,
                LQuery::StringTokenSearch(q) => &mut q.length,
                LQuery::NonVoid(q) => &mut q.length,
                _ => return None,
            };
            let (before, now): (u32, u32) = ((*l).into(), if v & 1 == 0 { v >> 1 } else { v >> 1 & 7 });
            *l = Length::from(now);
            Some(("query length", before != now))
        }
        _ => None,
    }
}
/// Sets one field of a transport frame, without what depends on it.
fn turn(f: &mut dash7::transport::Frame, k: u8, v: u32) -> (&'static str, bool) {
    fn set<T: PartialEq>(name: &'static str, f: &mut T, v: T) -> (&'static str, bool) {
        let other = *f != v;
        *f = v;
        (name, other)
    }
    let on = v & 1 == 1;
    let time = on.then(|| VarInt::from(v >> 8 & 31));
    match k % 15 {
        0 => set("dialog start", &mut f.control.is_dialog_start, on),
        1 => set("has listen timeout", &mut f.control.has_listen_timeout, on),
        2 => set("has execution delay", &mut f.control.has_execution_delay_timeout, on),
        3 => set("ack requested", &mut f.control.is_ack_requested, on),
        4 => set("ack not void", &mut f.control.is_ack_not_void, on),
        5 => set("ack record", &mut f.control.is_ack_record_requested, on),
        6 => set("has agc", &mut f.control.has_agc, on),
        7 => set("dialog", &mut f.dialog_id, v as u8),
        8 => set("transaction", &mut f.transaction_id, v as u8),
        9 => set("rx level", &mut f.target_rx_level_i, on.then_some((v >> 8) as u8)),
        10 => set("listen timeout", &mut f.listen_timeout, time),
        11 => set("execution delay", &mut f.execution_delay_timeout, time),
        12 => set("congestion", &mut f.congestion_timeout, time),
        13 => set("ack template", &mut f.ack_template, on.then_some(dash7::transport::AckTemplate { transaction_id_start: (v >> 8) as u8, transaction_id_stop: (v >> 16) as u8 })),
        _ => {
            let n = f.command.actions.len();
            f.command.actions.truncate(v as usize % (n + 1));
            ("actions", f.command.actions.len() != n)
        }
    }
}
fn flags(o: &mut Obs, eq: bool, what: &str) {
    o.label(format!("{} {what}", if eq { "equal" } else { "different" }));
}
pub fn same(r: &mut Run) {
    let cmds = prop_oneof![
        3 => gen::act_with(gen::query(), gen::ifstatus()).prop_map(|a| vec![a]),
        1 => gen::indirect().prop_map(|a| vec![a]),
        2 => gen::cmd(),
    ];
    r.guided("built messages", 40_000, 12_000, (cmds, proptest::collection::vec(step(), 0..3)).boxed(), |(m, _)| sound(m), |(m, steps), o| {
        let n = changed(m, steps);
        o.nontrivial_if(!steps.is_empty() && !m.is_empty());
        let (Some(x), Some(y)) = (conv::cmd(m), conv::cmd(&n)) else { return Ok(()) };
        let want = meaning(m) == meaning(&n);
        flags(o, want, "messages");
        let eq = relation(&x, &y)?;
        ensure!(eq == want, "{} and {}: equal is {eq}", short(format!("{m:?}")), short(format!("{n:?}")));
        ensure!(!eq || x.to_string() == y.to_string(), "equal, but shown as {x} and {y}");
        for ((a, b), (s, t)) in x.actions.iter().zip(&y.actions).zip(meaning(m).iter().zip(meaning(&n).iter())) {
            ensure!(relation(a, b)? == (s == t), "{} and {}: {}", short(format!("{s:?}")), short(format!("{t:?}")), a == b);
        }
        Ok(())
    });
    // fields that do not fit the others, as only a program sets them
    let one = gen::act_with(gen::query(), gen::ifstatus());
    let one = prop_oneof![4 => one, 1 => gen::ifstatus().prop_map(Act::IfStatus), 1 => gen::query().prop_map(|q| Act::Query(8, H { g: false, r: false }, q)), 1 => gen::indirect()];
    r.prop("twisted actions", 40_000, (one, 0u8..3, prop_oneof![0u32..12, any::<u32>()]).boxed(), |(m, k, v), o| {
        let Some(mut c) = conv::cmd(&[m.clone()]) else { return Ok(()) };
        let x = c.actions.remove(0);
        let mut y = x.clone();
        let Some((what, other)) = twist(&mut y, *k, *v) else { return Ok(()) };
        o.nontrivial_if(other);
        flags(o, !other, what);
        ensure!(relation(&x, &y)? != other, "{} with its {what} changed ({other}): {}", short(format!("{x:?}")), x == y);
        let (p, q) = (Command::new(vec![x]), Command::new(vec![y]));
        ensure!(relation(&p, &q)? != other, "a command whose {what} was changed ({other}): {}", p == q);
        Ok(())
    });
    r.prop("twisted frames", 20_000, (gen::trans_with(gen::cmd()), any::<u8>(), any::<u32>()).boxed(), |(m, k, v), o| {
        let Some(x) = conv::trans(m) else { return Ok(()) };
        let mut y = x.clone();
        let (what, other) = turn(&mut y, *k, *v);
        o.nontrivial_if(other);
        flags(o, !other, what);
        ensure!(relation(&x, &y)? != other, "{} with its {what} changed ({other}): {}", short(format!("{x:?}")), x == y);
        Ok(())
    });
    // what was read, against what the reference codec reads
    let pair = (gen::cmd_bytes(), proptest::collection::vec(gen::mutation(), 0..3)).prop_map(|(a, ms)| {
        let mut b = a.clone();
        gen::mutate(&mut b, &ms);
        (Hex(a), Hex(b))
    });
    r.guided("read messages", 40_000, 12_000, pair.boxed(), |_| true, |(a, b), o| {
        let (Ok((m, _)), Ok((n, _))) = (ref_cmd(&a.0), ref_cmd(&b.0)) else { return Ok(()) };
        let read = |b: &Hex| Command::from_bytes((&b.0, 0)).map(|(_, c)| c).map_err(|e| format!("{b:?} is refused: {}", e2s(e)));
        let (x, y) = (read(a)?, read(b)?);
        o.nontrivial_if(a.0 != b.0);
        let want = meaning(&m) == meaning(&n);
        flags(o, want, "readings");
        let eq = relation(&x, &y)?;
        ensure!(eq == want, "{} and {}: equal is {eq}", hex(&a.0), hex(&b.0));
        Ok(())
    });
    let frames = (gen::trans_with(gen::cmd()), proptest::collection::vec(gen::mutation(), 0..3)).prop_map(|(t, ms)| {
        let a = t.bytes(D);
        let mut b = a.clone();
        gen::mutate(&mut b, &ms);
        (Hex(a), Hex(b))
    });
    let all = ways::ways();
    let check = |(a, b): &(Hex, Hex), o: &mut Obs| -> V {
        for w in &all {
            if let Some(eq) = (w.same)(&a.0, &b.0).map_err(|e| format!("{}: {e}", w.name))? {
                o.nontrivial_if(a.0 != b.0);
                flags(o, eq, w.name);
            }
        }
        Ok(())
    };
    r.prop("frames", 8_000, frames.boxed(), check);
    let twins = |s: S<Vec<u8>>| {
        (s, proptest::collection::vec(gen::mutation(), 0..3))
            .prop_map(|(a, ms)| {
                let mut b = a.clone();
                gen::mutate(&mut b, &ms);
                (Hex(a), Hex(b))
            })
            .boxed()
    };
    r.prop("parts", 24_000, twins(ways::parts()), check);
    r.prop("any bytes", 12_000, twins(runtime::any_bytes()), check);
    r.each("orders", 0..=0xFFFFu32, |p, o| {
        o.nontrivial();
        let (a, b) = ((p >> 8) as u8, *p as u8);
        let want = a.cmp(&b);
        ensure!(StatusCode(a).cmp(&StatusCode(b)) == want && StatusCode(a).partial_cmp(&StatusCode(b)) == Some(want), "statuses {a} and {b} are out of order");
        ensure!((StatusCode(a) == StatusCode(b)) == (a == b), "statuses {a} and {b}");
        ensure!(OpCode(a).cmp(&OpCode(b)) == want && OpCode(a).partial_cmp(&OpCode(b)) == Some(want), "opcodes {a} and {b} are out of order");
        ensure!((OpCode(a) == OpCode(b)) == (a == b), "opcodes {a} and {b}");
        Ok(())
    });
}
