//! Generators of model values. Every value is in the domain the properties quantify over.
use crate::model::*;
use crate::refcodec::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;

pub type S<T> = BoxedStrategy<T>;

/// Numbers found in the sources under test: those it compares with and their neighbours, and all.
fn hints() -> &'static [Vec<u64>; 2] {
    static H: std::sync::OnceLock<[Vec<u64>; 2]> = std::sync::OnceLock::new();
    H.get_or_init(|| {
        let text = std::env::var("D7_HINTS").unwrap_or_default();
        let mut lists = text.split(';').map(|l| l.split(',').filter_map(|n| n.parse::<u64>().ok()).collect::<Vec<_>>());
        let near = |v: Vec<u64>| -> Vec<u64> {
            let mut v: Vec<u64> = v.iter().flat_map(|x| [x.saturating_sub(1), *x, x.saturating_add(1)]).collect();
            v.sort();
            v.dedup();
            v
        };
        [near(lists.next().unwrap_or_default()), near(lists.next().unwrap_or_default())]
    })
}
/// One of those numbers that is not larger than this.
fn hint(max: u64) -> S<u64> {
    let [cmp, all] = hints();
    let pick = |v: &Vec<u64>| -> Vec<u64> {
        let v: Vec<u64> = v.iter().copied().filter(|x| *x <= max).collect();
        if v.is_empty() { vec![0] } else { v }
    };
    prop_oneof![3 => select(pick(cmp)), 1 => select(pick(all))].boxed()
}
pub fn byte() -> S<u8> {
    prop_oneof![1 => hint(255).prop_map(|x| x as u8), 4 => any::<u8>(), 2 => select(vec![0u8, 1, 2, 0x7F, 0x80, 0xFE, 0xFF, 0xD7]), 1 => 0u8..8].boxed()
}
pub fn u16b() -> S<u16> {
    prop_oneof![
        3 => any::<u16>(),
        2 => (any::<u16>(), 0u32..16).prop_map(|(v, s)| v >> s),
        2 => select(vec![0u16, 1, 0xFF, 0x100, 0x7FF, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]),
        1 => hint(u16::MAX as u64).prop_map(|x| x as u16),
    ]
    .boxed()
}
pub fn u32b() -> S<u32> {
    prop_oneof![
        3 => any::<u32>(),
        3 => (any::<u32>(), 0u32..32).prop_map(|(v, s)| v >> s),
        2 => select(vec![0u32, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0x7FFF_FFFF, 0x8000_0000, u32::MAX]),
        1 => hint(u32::MAX as u64).prop_map(|x| x as u32),
    ]
    .boxed()
}
pub fn u64b() -> S<u64> {
    prop_oneof![
        3 => any::<u64>(),
        2 => (any::<u64>(), 0u32..64).prop_map(|(v, s)| v >> s),
        2 => select(vec![0u64, 1, u32::MAX as u64, 1 << 63, u64::MAX]),
        1 => hint(u64::MAX),
    ]
    .boxed()
}
pub const LEN_EDGES: [u32; 15] = [
    0, 1, 62, 63, 64, 65, 255, 256, 16382, 16383, 16384, 4194303, 4194304, (1 << 30) - 2, (1 << 30) - 1,
];
/// A length or offset that fits its format.
pub fn len30() -> S<u32> {
    prop_oneof![
        4 => 0u32..70,
        3 => select(LEN_EDGES.to_vec()),
        2 => hint((1 << 30) - 1).prop_map(|x| x as u32),
        3 => (any::<u32>(), 2u32..32).prop_map(|(v, s)| v >> s),
    ]
    .boxed()
}
/// A compressed integer that is exactly representable.
pub fn comp() -> S<u32> {
    byte().prop_map(varint_value).boxed()
}
/// Payload bytes; sizes around the length-format boundaries are common.
pub fn payload() -> S<B> {
    let fill = prop_oneof![4 => vec(byte(), 0..14), 1 => vec(Just(0u8), 0..14), 1 => vec(Just(0xFFu8), 0..14)];
    prop_oneof![
        30 => fill,
        6 => vec(byte(), 0..80),
        4 => vec(any::<u8>(), 62..67),
        3 => vec(any::<u8>(), 250..260),
        2 => hint(300).prop_flat_map(|n| vec(any::<u8>(), n as usize)),
        // what looks like actions or lengths
        3 => vec((0u8..4, select(OPCODES.to_vec())).prop_map(|(t, o)| t << 6 | o), 1..9),
        3 => (vec(byte(), 1..10), 0..4usize).prop_map(|(mut v, n)| {
            v.insert(0, v.len() as u8);
            v.extend(vec![0; n]);
            v
        }),
    ]
    .boxed()
}
/// As `payload`, and now and then one that needs a length of three bytes.
pub fn payload_any() -> S<B> {
    prop_oneof![
        200 => payload(),
        1 => (16380usize..16390, any::<u8>(), any::<u8>())
            .prop_map(|(n, a, k)| (0..n).map(|i| a.wrapping_add((i as u8).wrapping_mul(k | 1))).collect::<B>()),
    ]
    .boxed()
}
/// A field of so many bytes: keys, identifiers, states.
pub fn blob(n: usize) -> S<B> {
    let edge = (select(vec![0u8, 0xFF, 1, 0x80]), byte(), 0..n.max(1), any::<bool>()).prop_map(move |(fill, b, at, one)| {
        let mut v = vec![fill; n];
        if one && n > 0 {
            v[at] = b;
        }
        v
    });
    prop_oneof![4 => vec(any::<u8>(), n), 2 => vec(byte(), n), 2 => edge].boxed()
}
pub fn h() -> S<H> {
    any::<(bool, bool)>().prop_map(|(g, r)| H { g, r }).boxed()
}
pub fn off() -> S<Off> {
    (byte(), len30()).prop_map(|(id, off)| Off { id, off }).boxed()
}
pub fn addr() -> S<Addr> {
    prop_oneof![
        comp().prop_map(Addr::NbId),
        Just(Addr::NoId),
        u64b().prop_map(Addr::UId),
        u16b().prop_map(Addr::VId)
    ]
    .boxed()
}
pub fn addressee() -> S<Addressee> {
    (0u8..4, any::<bool>(), 0u8..16, 0u8..16, addr(), 0u8..8, blob(5))
        .prop_map(|(gc, use_vid, spec, mask, addr, nls, st)| Addressee {
            gc: if D == Dialect::Wizzilab { gc } else { 0 },
            use_vid: D == Dialect::Wizzilab && use_vid,
            spec,
            mask,
            addr,
            nls,
            nls_state: if nls == 0 { vec![] } else { st },
        })
        .boxed()
}
pub fn qos() -> S<Qos> {
    (any::<bool>(), any::<bool>(), 0u8..8, select(vec![0u8, 1, 2, 4, 5, 6]))
        .prop_map(|(stop, record, retry, resp)| Qos { stop, record, retry, resp })
        .boxed()
}
pub fn d7cfg() -> S<D7Cfg> {
    (qos(), comp(), comp(), addressee())
        .prop_map(|(qos, dormant, exec, to)| D7Cfg {
            qos,
            dormant,
            exec: if D == Dialect::Subiot { 0 } else { exec },
            to,
        })
        .boxed()
}
pub fn lora() -> S<Lora> {
    (any::<bool>(), any::<bool>(), byte(), byte())
        .prop_map(|(adr, ack, port, rate)| Lora { adr, ack, port, rate })
        .boxed()
}
pub fn abp() -> S<Abp> {
    (lora(), blob(16), blob(16), u32b(), u32b())
        .prop_map(|(base, nsk, ask, dev, net)| Abp { base, nsk, ask, dev, net })
        .boxed()
}
pub fn otaa() -> S<Otaa> {
    (lora(), blob(8), blob(8), blob(16))
        .prop_map(|(base, deui, aeui, key)| Otaa { base, deui, aeui, key })
        .boxed()
}
fn other_than(known: &'static [u8]) -> S<u8> {
    let rest: Vec<u8> = (0..=255u8).filter(|x| !known.contains(x)).collect();
    prop_oneof![4 => select(rest), 1 => Just(4u8), 1 => Just(0xFFu8), 1 => Just(0xD6u8)].boxed()
}
pub fn unknown_if() -> S<u8> {
    other_than(&KNOWN_IF)
}
pub fn ifcfg() -> S<IfCfg> {
    prop_oneof![
        1 => Just(IfCfg::Host),
        1 => Just(IfCfg::Serial),
        2 => abp().prop_map(IfCfg::Abp),
        2 => otaa().prop_map(IfCfg::Otaa),
        5 => d7cfg().prop_map(IfCfg::D7),
        1 => unknown_if().prop_map(IfCfg::Unknown),
    ]
    .boxed()
}
pub fn indif() -> S<IndIf> {
    prop_oneof![
        1 => Just(IndIf::Host),
        1 => Just(IndIf::Serial),
        4 => addressee().prop_map(IndIf::D7),
        1 => other_than(&[0, 1, 0xD7]).prop_map(IndIf::Unknown),
    ]
    .boxed()
}
pub fn chhdr() -> S<ChHdr> {
    (0u8..5, 0u8..4, 0u8..4).prop_map(|(band, class, coding)| ChHdr { band, class, coding }).boxed()
}
pub fn channel() -> S<Channel> {
    (chhdr(), u16b()).prop_map(|(hdr, index)| Channel { hdr, index }).boxed()
}
pub fn d7status() -> S<D7Status> {
    ((channel(), byte(), byte(), byte()), any::<[bool; 4]>(), byte(), byte(), comp(), addressee())
        .prop_map(|((ch, rx, lb, target), [nls, missed, retry, unicast], fifo, seq, rto, from)| D7Status {
            ch,
            rx,
            lb,
            target,
            nls,
            missed,
            retry,
            unicast,
            fifo,
            seq,
            rto,
            from,
        })
        .boxed()
}
/// Interface statuses the library can represent in full.
pub fn ifstatus() -> S<IfStatus> {
    prop_oneof![1 => Just(IfStatus::Host), 1 => Just(IfStatus::Serial), 5 => d7status().prop_map(IfStatus::D7)]
        .boxed()
}
/// Also those of interfaces without a known format (known finding: their id is not kept).
pub fn ifstatus_any() -> S<IfStatus> {
    prop_oneof![4 => ifstatus(), 1 => (unknown_if(), payload()).prop_map(|(i, b)| IfStatus::Unknown(i, b))].boxed()
}
pub fn final_st() -> S<Final> {
    prop_oneof![
        2 => select(FINAL_CODES.to_vec()).prop_map(Final::D7),
        1 => (other_than(&[0xD7]), payload()).prop_map(|(i, b)| Final::Other(i, b)),
    ]
    .boxed()
}
pub fn txst() -> S<TxSt> {
    (channel(), byte(), select(FINAL_CODES.to_vec()), u32b(), addressee())
        .prop_map(|(ch, target, error, lts, to)| TxSt { ch, target, error, lts, to })
        .boxed()
}
pub fn tx() -> S<Tx> {
    prop_oneof![
        2 => txst().prop_map(Tx::D7),
        1 => (other_than(&[0xD7]), payload()).prop_map(|(i, b)| Tx::Other(i, b)),
    ]
    .boxed()
}
/// A mask and value of the same size, or no mask.
fn masked() -> S<(B, B)> {
    prop_oneof![
        2 => payload().prop_map(|v| (vec![], v)),
        3 => (payload(), any::<u8>(), any::<bool>()).prop_map(|(v, x, same)| {
            (v.iter().map(|b| if same { *b } else { b ^ x }).collect(), v)
        }),
    ]
    .boxed()
}
/// Queries as their constructors make them.
pub fn query() -> S<Query> {
    let p = || (any::<bool>(), 0u8..6);
    prop_oneof![
        (len30(), off()).prop_map(|(len, file)| Query::NonVoid { len, file }),
        (p(), payload(), off()).prop_map(|((signed, cmp), mask, file)| Query::Zero {
            mp: !mask.is_empty(),
            signed,
            cmp,
            len: mask.len() as u32,
            mask,
            file
        }),
        (p(), masked(), off()).prop_map(|((signed, cmp), (mask, value), file)| Query::Value {
            mp: !mask.is_empty(),
            signed,
            cmp,
            len: value.len() as u32,
            mask,
            value,
            file
        }),
        (p(), payload(), off(), off(), any::<bool>(), len30()).prop_map(
            |((signed, cmp), mask, f1, f2, same, len)| Query::Other {
                mp: !mask.is_empty(),
                signed,
                cmp,
                len: if mask.is_empty() { len } else { mask.len() as u32 },
                mask,
                f2: if same { f1.clone() } else { f2 },
                f1,
            }
        ),
        (any::<bool>(), 0u8..2, len30(), len30(), payload(), off()).prop_map(
            |(signed, cmp, start, stop, mask, file)| Query::Bitmap {
                mp: !mask.is_empty(),
                signed,
                cmp,
                len: mask.len() as u32,
                start,
                stop,
                mask,
                file
            }
        ),
        (0u8..8, masked(), off()).prop_map(|(errs, (mask, value), file)| Query::Str {
            mp: !mask.is_empty(),
            errs,
            len: value.len() as u32,
            mask,
            value,
            file
        }),
    ]
    .boxed()
}
/// Also the states only decoding can produce: a length without a mask, an empty mask.
pub fn query_any() -> S<Query> {
    (query(), 0u8..4, len30())
        .prop_map(|(mut q, k, n)| {
            match (&mut q, k) {
                (Query::Zero { mp, mask, len, .. }, 0) => (*mp, *mask, *len) = (false, vec![], n),
                (Query::Zero { mp, mask, .. } | Query::Other { mp, mask, .. }, 1) if mask.is_empty() => {
                    *mp = true;
                    if let Query::Zero { len, .. } | Query::Other { len, .. } = &mut q {
                        *len = 0;
                    }
                }
                (Query::Value { mp, value, .. } | Query::Str { mp, value, .. }, 1) if value.is_empty() => *mp = true,
                (Query::Bitmap { mp, .. }, 0) => *mp = !*mp,
                _ => {}
            }
            q
        })
        .boxed()
}
pub fn fperm() -> S<FPerm> {
    any::<[bool; 8]>()
        .prop_map(|b| FPerm {
            encrypted: b[0],
            executable: b[1],
            user: Perm { r: b[2], w: b[3], x: b[4] },
            guest: Perm { r: b[5], w: b[6], x: b[7] },
        })
        .boxed()
}
pub fn fprop() -> S<FProp> {
    (any::<bool>(), 0u8..4, 0u8..4).prop_map(|(enabled, cond, storage)| FProp { enabled, cond, storage }).boxed()
}
pub fn fhdr() -> S<FHdr> {
    (fperm(), fprop(), byte(), byte(), u32b(), u32b())
        .prop_map(|(perm, prop, alp, iface, size, alloc)| FHdr { perm, prop, alp, iface, size, alloc })
        .boxed()
}
pub fn subprof() -> S<SubProf> {
    (byte(), comp()).prop_map(|(bitmap, period)| SubProf { bitmap, period }).boxed()
}
pub fn subband() -> S<SubBand> {
    (u16b(), u16b(), byte(), byte(), byte())
        .prop_map(|(start, end, eirp, cca, duty)| SubBand { start, end, eirp, cca, duty })
        .boxed()
}
pub fn access() -> S<Access> {
    (chhdr(), vec(subprof(), 4), vec(subband(), 8)).prop_map(|(hdr, prof, bands)| Access { hdr, prof, bands }).boxed()
}
pub fn chstatus() -> S<ChStatus> {
    (0u8..5, 0u8..2, prop_oneof![0u16..2048, select(vec![0u16, 1, 255, 256, 1023, 1024, 2047])], byte())
        .prop_map(|(band, bw, index, noise)| ChStatus { band, bw, index, noise })
        .boxed()
}
/// A name of at most n bytes, as it comes back from a zero-padded field.
pub fn name(n: usize) -> S<String> {
    let ch = prop_oneof![6 => (0x20u8..0x7F).prop_map(|b| b as char), 1 => any::<char>(), 1 => Just('\0')];
    (vec(ch, 0..=n), Just(n))
        .prop_map(|(v, n)| {
            let mut s = String::new();
            for c in v {
                if s.len() + c.len_utf8() <= n {
                    s.push(c);
                }
            }
            s.trim_end_matches('\0').to_string()
        })
        .boxed()
}
pub fn factory() -> S<Factory> {
    (byte(), vec(u32b(), 9), vec(byte(), 11), u32b(), byte(), byte(), u16b())
        .prop_map(|(gain, rates, small, lora_bw, lora_sf, gaussian, paramp)| Factory {
            gain,
            rates,
            small,
            lora_bw,
            lora_sf,
            gaussian,
            paramp,
        })
        .boxed()
}
pub fn phy(n: impl Into<proptest::collection::SizeRange>) -> S<File> {
    (u32b(), u32b(), u32b(), u16b(), vec(chstatus(), n))
        .prop_map(|(up, rx, tx, duty, ch)| File::Phy { up, rx, tx, duty, ch })
        .boxed()
}
/// A file of the format reserved for a file id, together with that id.
pub fn typed_file() -> S<(u8, File)> {
    prop_oneof![
        2 => (0u8..15, access()).prop_map(|(i, a)| (0x20 + i, File::Access(i, a))),
        1 => u64b().prop_map(|x| (0, File::Uid(x))),
        1 => factory().prop_map(|f| (1, File::Factory(f))),
        2 => (byte(), byte(), name(6), name(7))
            .prop_map(|(major, minor, name, sha)| (2, File::Firmware { major, minor, name, sha })),
        1 => (0u8..5, byte(), byte(), channel(), byte())
            .prop_map(|(mode, flags, timeout, ch, eirp)| (5, File::Eng { mode, flags, timeout, ch, eirp })),
        1 => u16b().prop_map(|x| (6, File::Vid(x))),
        1 => prop_oneof![20 => phy(0..5), 2 => phy(5..40), 1 => phy(125..130), 1 => phy(253..=255)].prop_map(|f| (9, f)),
        1 => blob(5).prop_map(|b| b.try_into().unwrap()).prop_map(|[ac, lq, nf, rxp, txp]: [u8; 5]| (0xA, File::DllConfig { ac, lq, nf, rxp, txp })),
        1 => (byte(), byte(), byte(), chhdr(), u16b(), u16b(), u32b(), u32b()).prop_map(
            |(level, budget, noise, hdr, index, ratio, scans, timeouts)| (
                0xB,
                File::DllStatus { level, budget, noise, hdr, index, ratio, scans, timeouts }
            )
        ),
        1 => (u64b(), prop_oneof![6 => u64b().prop_map(Some), 1 => Just(None)]).prop_map(|(a, b)| (a, b.unwrap_or(a))).prop_map(|(a, b)| (0xE, File::Key(a, b))),
    ]
    .boxed()
}
/// File id and content of a file data action: a whole file, part of one, or plain data.
pub fn file_data() -> S<(Off, File)> {
    let part = (typed_file(), any::<proptest::sample::Index>(), any::<bool>(), payload()).prop_map(|((id, f), i, cut, more)| {
        let mut b = f.bytes(D);
        if cut {
            b.truncate(i.index(b.len() + 1));
        } else {
            b.extend(more);
        }
        (id, file_payload(id, b, D))
    });
    let raw = (byte(), payload_any()).prop_map(|(id, b)| (id, file_payload(id, b, D)));
    (prop_oneof![4 => typed_file(), 2 => part, 4 => raw], len30())
        .prop_map(|((id, f), off)| (Off { id, off }, f))
        .boxed()
}
pub fn act_no_indirect() -> S<Act> {
    act_with(query(), ifstatus())
}
pub fn act_with(q: S<Query>, st: S<IfStatus>) -> S<Act> {
    let common = prop_oneof![
        2 => h().prop_map(Act::Nop),
        3 => (h(), off(), len30()).prop_map(|(h, o, l)| Act::Read(h, o, l)),
        4 => (select(vec![2u8, 16, 18, 19, 20, 31]), h(), byte()).prop_map(|(o, h, i)| Act::Fid(o, h, i)),
        6 => (select(vec![4u8, 5, 32]), h(), file_data()).prop_map(|(o, h, (off, f))| Act::Data(o, h, off, f)),
        3 => (select(vec![6u8, 17, 33]), h(), byte(), fhdr()).prop_map(|(o, h, i, p)| Act::Prop(o, h, i, p)),
        5 => (select(vec![8u8, 9, 11]), h(), q).prop_map(|(o, h, q)| Act::Query(o, h, q)),
        2 => (h(), 0u8..2, blob(8)).prop_map(|(h, l, p)| Act::Permission(h, l, p)),
        2 => (h(), byte(), byte()).prop_map(|(h, a, b)| Act::Copy(h, a, b)),
        2 => (byte(), byte()).prop_map(|(a, b)| Act::ActionStatus(a, b)),
        3 => st.prop_map(Act::IfStatus),
        2 => (any::<bool>(), any::<bool>(), byte()).prop_map(|(eop, err, id)| Act::ResponseTag { eop, err, id }),
        1 => (0u8..4).prop_map(Act::Chunk),
        1 => (0u8..4).prop_map(Act::Logic),
        3 => (any::<bool>(), ifcfg()).prop_map(|(r, c)| Act::Forward(r, c)),
        2 => (any::<bool>(), byte()).prop_map(|(eop, id)| Act::RequestTag { eop, id }),
        1 => h().prop_map(Act::Ext),
    ]
    .boxed();
    if D == Dialect::Wizzilab {
        prop_oneof![42 => common, 3 => final_st().prop_map(Act::Final), 3 => tx().prop_map(Act::Tx)].boxed()
    } else {
        common
    }
}
pub fn indirect() -> S<Act> {
    (any::<bool>(), proptest::option::of(indif())).prop_map(|(r, c)| Act::Indirect(r, c)).boxed()
}
pub fn act() -> S<Act> {
    prop_oneof![30 => act_no_indirect(), 1 => indirect()].boxed()
}
pub fn cmd_with(a: S<Act>) -> S<Vec<Act>> {
    let body = prop_oneof![
        40 => vec(a.clone(), 0..5),
        10 => vec(a.clone(), 1..2),
        4 => vec(a.clone(), 5..20),
        1 => vec(a.clone(), 20..90),
        // the same again
        5 => (vec(a.clone(), 1..4), vec(any::<proptest::sample::Index>(), 1..4)).prop_map(|(mut v, again)| {
            for i in again {
                let i = i.index(v.len());
                v.insert(i, v[i].clone());
            }
            v
        }),
    ];
    (body, proptest::option::weighted(0.12, indirect()))
        .prop_map(|(mut v, i)| {
            v.extend(i);
            v
        })
        .boxed()
}
/// A command as its constructors make it.
pub fn cmd() -> S<Vec<Act>> {
    cmd_with(act_no_indirect())
}
/// Any command the layout allows, states only a decoder can produce included.
pub fn cmd_any() -> S<Vec<Act>> {
    cmd_with(act_with(query_any(), ifstatus_any()))
}
pub fn trans_with(c: S<Vec<Act>>) -> S<Trans> {
    use proptest::option::of as o;
    (any::<[bool; 3]>(), byte(), byte(), o(byte()), o(comp()), o(comp()), comp(), o((byte(), byte())), c)
        .prop_map(|([start, ack_req, ack_rec], dialog, trans, agc, tl, te, tc, ack, cmd)| Trans {
            start,
            ack_req,
            ack_rec,
            dialog,
            trans,
            agc,
            tl,
            te,
            tc: if start && ack_req { Some(tc) } else { None },
            ack,
            cmd,
        })
        .boxed()
}
pub fn net_with(t: S<Trans>) -> S<Net> {
    (any::<bool>(), proptest::option::of((any::<bool>(), 0u8..4)), 0u8..8, 0u8..16, 0u8..16, addr(), t)
        .prop_map(|(no_origin, hop, nls, spec, mask, addr, t)| Net { no_origin, hop, nls, spec, mask, addr, t })
        .boxed()
}
/// A foreground frame whose length says where its command ends.
pub fn fg_with(n: S<Net>) -> S<Fg> {
    (byte(), 0u8..64, addr(), n, u16b())
        .prop_map(|(subnet, eirp, target, net, crc)| {
            let mut f = Fg { len: 0, subnet, eirp, target, net, crc };
            fix_fg_len(&mut f);
            f
        })
        .boxed()
}
/// Make the length the position right behind the command. The length field is part of the frame,
/// so its own size counts.
pub fn fix_fg_len(f: &mut Fg) {
    for _ in 0..4 {
        f.len = (f.bytes(D).len() - 2) as u32;
    }
}
pub fn bg() -> S<Bg> {
    (byte(), 0u8..4, 0u8..64, u16b(), u16b())
        .prop_map(|(subnet, at, tag, payload, crc)| Bg { subnet, at, tag, payload, crc })
        .boxed()
}

// ------------------------------------------------------------------------- byte strings

/// One change to a byte string; positions are taken modulo its length.
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Mut {
    Flip(u16, u8),
    Set(u16, u8),
    Insert(u16, u8),
    Delete(u16, u8),
    Cut(u16),
    Append(Vec<u8>),
    /// copy a run of bytes elsewhere
    Dup(u16, u16, u8),
    /// replace the byte by a length claim of this form and value
    Claim(u16, u8, u32),
}
pub fn mutation() -> S<Mut> {
    prop_oneof![
        6 => (any::<u16>(), 0u8..8).prop_map(|(p, b)| Mut::Flip(p, b)),
        6 => (any::<u16>(), byte()).prop_map(|(p, b)| Mut::Set(p, b)),
        2 => (any::<u16>(), byte()).prop_map(|(p, b)| Mut::Insert(p, b)),
        2 => (any::<u16>(), 1u8..5).prop_map(|(p, n)| Mut::Delete(p, n)),
        2 => any::<u16>().prop_map(Mut::Cut),
        2 => vec(byte(), 1..6).prop_map(Mut::Append),
        1 => (any::<u16>(), any::<u16>(), 1u8..12).prop_map(|(a, b, n)| Mut::Dup(a, b, n)),
        2 => (any::<u16>(), 0u8..4, len30()).prop_map(|(p, s, v)| Mut::Claim(p, s, v)),
    ]
    .boxed()
}
pub fn mutate(b: &mut Vec<u8>, ms: &[Mut]) {
    for m in ms {
        let n = b.len();
        let at = |p: u16| p as usize * n / 65536;
        match m {
            Mut::Append(x) => b.extend(x),
            Mut::Insert(p, x) => b.insert((*p as usize * (n + 1)) / 65536, *x),
            _ if n == 0 => {}
            Mut::Flip(p, k) => b[at(*p)] ^= 1 << (k & 7),
            Mut::Set(p, x) => b[at(*p)] = *x,
            Mut::Delete(p, k) => {
                let i = at(*p);
                b.drain(i..(i + *k as usize).min(n));
            }
            Mut::Cut(p) => b.truncate(at(*p)),
            Mut::Dup(p, q, k) => {
                let i = at(*p);
                let run = b[i..(i + *k as usize).min(n)].to_vec();
                let j = at(*q);
                b.splice(j..j, run);
            }
            Mut::Claim(p, s, v) => {
                let i = at(*p);
                let s = (*s & 3) as usize;
                let v = *v & ((1u64 << (6 + 8 * s)) - 1) as u32;
                let all = (v | (s as u32) << (6 + 8 * s)).to_be_bytes();
                b.splice(i..i + 1, all[3 - s..].iter().copied());
            }
        }
    }
}
/// Corrupted encodings.
pub fn mutated(b: S<Vec<u8>>) -> S<Vec<u8>> {
    (b, prop_oneof![3 => vec(mutation(), 1..2), 3 => vec(mutation(), 1..5), 1 => vec(mutation(), 5..12)])
        .prop_map(|(mut b, ms)| {
            mutate(&mut b, &ms);
            b
        })
        .boxed()
}
pub const OPCODES: [u8; 27] = [
    0, 1, 2, 4, 5, 6, 8, 9, 10, 11, 16, 17, 18, 19, 20, 23, 31, 32, 33, 34, 35, 38, 48, 49, 50, 51, 52,
];
/// Random bytes that mostly start like an action.
pub fn noise() -> S<Vec<u8>> {
    let start = prop_oneof![
        5 => (0u8..4, select(OPCODES.to_vec())).prop_map(|(t, o)| t << 6 | o),
        1 => any::<u8>()
    ];
    let tail = prop_oneof![4 => vec(byte(), 0..20), 2 => vec(0u8..16, 0..24), 1 => vec(byte(), 0..90)];
    (start, tail)
        .prop_map(|(s, mut v)| {
            v.insert(0, s);
            v
        })
        .boxed()
}
/// Byte strings around the commands: proper, corrupted and random ones.
pub fn cmd_bytes() -> S<Vec<u8>> {
    let small = cmd_with(act_with(query_any(), ifstatus_any())).prop_map(|c| c.bytes(D)).boxed();
    let one = act_with(query_any(), ifstatus_any()).prop_map(|a| a.bytes(D)).boxed();
    prop_oneof![
        2 => small.clone(),
        5 => mutated(small),
        4 => mutated(one),
        4 => noise(),
        2 => (vec(noise(), 1..4)).prop_map(|v| v.concat()),
        1 => vec(any::<u8>(), 0..40),
    ]
    .boxed()
}

// ------------------------------------------------------------------------- size

/// A long command: a few actions, repeated until there are so many.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Long {
    pub few: Vec<Act>,
    pub count: u16,
}
impl Long {
    pub fn acts(&self) -> Vec<Act> {
        self.few.iter().cycle().take(if self.few.is_empty() { 0 } else { self.count as usize }).cloned().collect()
    }
}
pub fn long_of(a: S<Act>) -> S<Long> {
    let small = a.prop_filter("a short action", |a| a.bytes(D).len() <= 24);
    let count = prop_oneof![1 => hint(1200).prop_map(|n| n.max(1) as u16), 3 => 60u16..130, 3 => 250u16..262, 3 => 262u16..900, 1 => 900u16..2200];
    (vec(small, 1..4), count).prop_map(|(few, count)| Long { few, count }).boxed()
}
pub fn long() -> S<Long> {
    long_of(act_no_indirect())
}
pub fn long_any() -> S<Long> {
    long_of(act_with(query_any(), ifstatus_any()))
}
/// An action with a large payload, between others.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Big {
    pub before: Vec<Act>,
    pub after: Vec<Act>,
    pub kind: u8,
    pub size: u32,
    pub fill: (u8, u8),
    pub id: u8,
}
impl Big {
    pub fn act(&self) -> Act {
        let (a, k) = self.fill;
        let b: B = (0..self.size).map(|i| a.wrapping_add((i as u8).wrapping_mul(k)).wrapping_add((i >> 8) as u8)).collect();
        let h = H { g: k & 1 == 1, r: k & 2 == 2 };
        let (len, mp, cmp, signed) = (self.size, true, k % 6, k & 8 == 8);
        let file = Off { id: self.id, off: self.size };
        let q = |q| Act::Query([8, 9, 11][self.id as usize % 3], h.clone(), q);
        match self.kind {
            0 => q(Query::Zero { mp, signed, cmp, len, mask: b, file }),
            1 => q(Query::Value { mp, signed, cmp, len, mask: b.iter().rev().cloned().collect(), value: b, file }),
            2 => q(Query::Value { mp: false, signed, cmp, len, mask: vec![], value: b, file }),
            3 => q(Query::Other { mp, signed, cmp, len, mask: b, f1: Off { id: a, off: 0 }, f2: file }),
            4 => q(Query::Bitmap { mp, signed, cmp: k & 1, len, start: a as u32, stop: k as u32, mask: b, file }),
            5 => q(Query::Str { mp, errs: k & 7, len, mask: b.iter().map(|x| !x).collect(), value: b, file }),
            6 => q(Query::Str { mp: false, errs: k & 7, len, mask: vec![], value: b, file }),
            7 if D == Dialect::Wizzilab => Act::Final(Final::Other(0x30, b)),
            8 if D == Dialect::Wizzilab => Act::Tx(Tx::Other(0x31, b)),
            _ => Act::Data([4, 5, 32][k as usize % 3], h, Off { id: self.id, off: a as u32 }, file_payload(self.id, b, D)),
        }
    }
    pub fn acts(&self) -> Vec<Act> {
        let mut v = self.before.clone();
        v.push(self.act());
        v.extend(self.after.clone());
        v
    }
}
pub const BIG: [u32; 16] = [
    63, 64, 255, 256, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 66000, 131_071, 131_072, 200_000,
];
pub fn big() -> S<Big> {
    let few = || vec(act_no_indirect(), 0..2);
    let size = prop_oneof![1 => hint(100_000).prop_map(|n| (n as u32).max(1)), 3 => select(BIG.to_vec()), 1 => 250u32..20_000];
    (few(), few(), 0u8..14, size, any::<(u8, u8)>(), byte())
        .prop_map(|(before, after, kind, size, fill, id)| Big { before, after, kind, size, fill, id })
        .boxed()
}
/// Around the largest payload with a length of three bytes.
pub fn huge() -> S<Big> {
    (big(), (1u32 << 22) - 2..(1 << 22) + 2).prop_map(|(b, size)| Big { size, ..b }).boxed()
}
