//! C12: transport, network, foreground and background frames.
use super::*;
use crate::bits::E;
use crate::gen;
use crate::run::{hexed, Obs, Run, V};
use dash7::link::{BackgroundFrame, ForegroundFrame};
use dash7::{network, transport};
use proptest::prelude::*;

/// Decode, compare acceptance, use and re-encoding with the layout. `k1` gives the encoding with
/// the listed defect, where the frame can hold such a status.
fn judge<M, L>(what: &str, b: &[u8], o: &mut Obs, shows: impl Fn(&M, &L) -> V, k1: impl Fn(&M) -> bool) -> V
where
    M: Dec + Enc + std::fmt::Debug,
    L: for<'a> DekuContainerRead<'a> + DekuContainerWrite + std::fmt::Debug + PartialEq,
{
    match (M::parse(b, D), L::from_bytes((b, 0))) {
        (Ok((m, used)), Ok((rest, f))) => {
            o.label(format!("{what} accepted"));
            ensure!(rest.0 == &b[used..], "{what}: left {:?}, expected {}", rest, hex(&b[used..]));
            shows(&m, &f)?;
            let e = f.to_bytes().map_err(e2s)?;
            let want = m.bytes(D);
            if !k1(&m) {
                ensure!(e == want, "{what}: encodes to {}, expected {}", short(hex(&e)), short(hex(&want)));
            }
            Ok(())
        }
        (Err(e), Err(_)) => {
            o.label(match e {
                E::Short => format!("{what} refused: too short"),
                E::Bad(w) => format!("{what} refused: {w}"),
            });
            Ok(())
        }
        (Ok((m, _)), Err(e)) => Err(format!("{what}: refused ({}), but it means {}", e2s(e), short(format!("{m:?}")))),
        (Err(e), Ok((_, f))) => Err(format!("{what}: accepted as {}, but {e:?}", short(format!("{f:?}")))),
    }
}
fn trans_is(m: &Trans, f: &transport::Frame) -> V {
    match conv::trans(m) {
        Some(want) => ensure!(&want == f, "expected {}, got {}", short(format!("{want:?}")), short(format!("{f:?}"))),
        None => same_cmd(&f.command, &m.cmd)?,
    }
    Ok(())
}
/// The fields of outer frames cannot be reached; their text shows what they hold.
fn holds(text: &str, m: &Trans) -> V {
    if let Some(t) = conv::trans(m) {
        ensure!(text.contains(&format!("{t:?}")), "{} does not hold {}", short(text), short(format!("{t:?}")));
    }
    Ok(())
}
pub fn judge_all(b: &[u8], o: &mut Obs) -> V {
    let k = |t: &Trans| has_k1(&t.cmd);
    judge::<Trans, transport::Frame>("transport", b, o, trans_is, k)?;
    judge::<Net, network::Frame>("network", b, o, |m, f| holds(&format!("{f:?}"), &m.t), |m| k(&m.t))?;
    judge::<Fg, ForegroundFrame>("foreground", b, o, |m, f| holds(&format!("{f:?}"), &m.net.t), |m| k(&m.net.t))?;
    judge::<Bg, BackgroundFrame>("background", b, o, |_, _| Ok(()), |_| false)
}

pub fn frames(r: &mut Run) {
    let small = || prop_oneof![3 => proptest::collection::vec(gen::act_no_indirect(), 0..3), 1 => gen::cmd()].boxed();
    let anyc = || gen::cmd_with(gen::act_with(gen::query_any(), gen::ifstatus_any()));
    let transport = |m: &Trans, o: &mut Obs| -> V {
        o.nontrivial();
        o.label(format!("tc {}, ack {}", m.tc.is_some(), m.ack.is_some()));
        let f = conv::trans(m).ok_or("the frame could not be built")?;
        let b = f.to_bytes().map_err(e2s)?;
        let want = m.bytes(D);
        ensure!(b == want, "encodes to {}, expected {}", short(hex(&b)), short(hex(&want)));
        let back = transport::Frame::try_from(b.as_slice()).map_err(e2s)?;
        ensure!(back == f, "came back as {}", short(format!("{back:?}")));
        Ok(())
    };
    r.guided("transport", 36_000, 12_000, gen::trans_with(small()), |m| sane(m) && sound(&m.cmd), transport);
    let with = |m: &Net, c: &[Act]| Net { t: Trans { cmd: c.to_vec(), ..m.t.clone() }, ..m.clone() };
    r.prop("many actions", 300, (gen::net_with(gen::trans_with(small())), gen::long()).boxed(), |(m, c), o| {
        let m = with(m, &c.acts());
        transport(&m.t, o)?;
        judge_all(&m.bytes(D), o)
    });
    r.prop("large payloads", 150, (gen::net_with(gen::trans_with(small())), gen::big()).boxed(), |(m, c), o| {
        let m = with(m, &c.acts());
        transport(&m.t, o)?;
        judge_all(&m.bytes(D), o)
    });
    fn accepted<L>(b: &[u8], m: &Trans) -> V
    where
        L: for<'a> TryFrom<&'a [u8], Error = DekuError> + DekuContainerWrite + std::fmt::Debug + PartialEq,
    {
        let f = L::try_from(b).map_err(|e| format!("refused: {}", e2s(e)))?;
        let e = f.to_bytes().map_err(e2s)?;
        ensure!(e == b, "{} came back as {}", short(hex(b)), short(hex(&e)));
        holds(&format!("{f:?}"), m)?;
        let again = L::try_from(&e[..]).map_err(e2s)?;
        ensure!(again == f, "decodes to something else the second time");
        Ok(())
    }
    r.guided("network", 28_000, 10_000, gen::net_with(gen::trans_with(small())), |m| sane(m) && sound(&m.t.cmd), |m, o| {
        o.nontrivial();
        o.label(format!("hopping {}, address {}", m.hop.is_some(), m.addr.kind()));
        accepted::<network::Frame>(&m.bytes(D), &m.t)
    });
    r.guided("foreground", 28_000, 10_000, gen::fg_with(gen::net_with(gen::trans_with(small()))), |m| sane(m) && sound(&m.net.t.cmd), |m, o| {
        o.nontrivial();
        o.label(format!("target {}", m.target.kind()));
        accepted::<ForegroundFrame>(&m.bytes(D), &m.net.t)
    });
    // different frames are different values
    r.prop("distinct fields", 15_000, (gen::fg_with(gen::net_with(gen::trans_with(small()))), 0u8..12, any::<u8>()).boxed(), |(m, k, x), o| {
        let mut n = m.clone();
        let x = *x;
        match k {
            0 => n.subnet ^= x,
            1 => n.eirp ^= x & 63,
            2 => n.crc ^= x as u16,
            3 => n.crc ^= (x as u16) << 8,
            4 => n.net.no_origin ^= x & 1 == 1,
            5 => n.net.nls ^= x & 7,
            6 => n.net.spec ^= x & 15,
            7 => n.net.mask ^= x & 15,
            8 => n.net.t.dialog ^= x,
            9 => n.net.t.trans ^= x,
            10 => {
                if let Some(h) = &mut n.net.hop {
                    h.0 ^= x & 1 == 1;
                    h.1 ^= x >> 1 & 3;
                }
            }
            _ => n.net.t.ack_rec ^= x & 1 == 1,
        }
        o.nontrivial_if(n != *m);
        let (a, b) = (
            ForegroundFrame::try_from(&m.bytes(D)[..]).map_err(e2s)?,
            ForegroundFrame::try_from(&n.bytes(D)[..]).map_err(e2s)?,
        );
        ensure!((a == b) == (n == *m), "frames {} compare wrongly", if n == *m { "alike" } else { "that differ" });
        Ok(())
    });
    r.each("background headers", (0..=0xFFFFu32).step_by(1), |x, o| {
        o.nontrivial();
        let m = Bg { subnet: 0x5A, at: (*x >> 6 & 3) as u8, tag: (*x & 63) as u8, payload: (*x >> 8) as u16 | 0x3400, crc: !*x as u16 };
        let b = m.bytes(D);
        let f = BackgroundFrame::try_from(&b[..]).map_err(e2s)?;
        let e = f.to_bytes().map_err(e2s)?;
        ensure!(e == b, "{} came back as {}", hex(&b), hex(&e));
        Ok(())
    });
    r.prop("background", 10_000, gen::bg(), |m, o| {
        o.nontrivial();
        judge::<Bg, BackgroundFrame>("background", &m.bytes(D), o, |_, _| Ok(()), |_| false)
    });
    // frames whose length says something else
    r.prop("foreground lengths", 30_000, (gen::fg_with(gen::net_with(gen::trans_with(anyc()))), prop_oneof![3 => 0u32..40, 2 => 0u32..300, 1 => gen::len30()], gen::payload()).boxed(), |(m, len, t), o| {
        o.nontrivial();
        let mut m = m.clone();
        m.len = *len;
        let mut b = m.bytes(D);
        b.extend(t);
        judge_all(&b, o)
    });
    let any_frame = prop_oneof![
        2 => gen::trans_with(anyc()).prop_map(|m| m.bytes(D)),
        2 => gen::net_with(gen::trans_with(anyc())).prop_map(|m| m.bytes(D)),
        3 => gen::fg_with(gen::net_with(gen::trans_with(anyc()))).prop_map(|m| m.bytes(D)),
    ]
    .boxed();
    r.guided("corrupted", 44_000, 20_000, hexed(gen::mutated(any_frame)), |_| true, |b, o| {
        o.nontrivial_if(b.0.len() > 6);
        judge_all(&b.0, o)
    });
    r.prop("noise", 20_000, hexed(proptest::collection::vec(gen::byte(), 0..40).boxed()), |b, o| {
        o.nontrivial_if(b.0.len() > 6);
        judge_all(&b.0, o)
    });
}
