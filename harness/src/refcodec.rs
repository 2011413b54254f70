//! Reference encoder and decoder for the DASH7 layouts, written from the protocol tables, bit by
//! bit and without looking at the library under test.
use crate::bits::{E, R, W};
use crate::model::*;

type Res<T> = Result<T, E>;

pub const MAX_VARINT: u32 = 507904;
pub const FINAL_CODES: [u8; 23] = [
    0, 0xFF, 0xFE, 0xFD, 0xFC, 0xFB, 0xFA, 0xF9, 0xF8, 0xF7, 0xF6, 0xF5, 0xF4, 0xF3, 0xF2, 0xF1, 0xF0,
    0xEF, 0xEE, 0xED, 0xEC, 0xEB, 0xEA,
];
/// Interface ids with a meaning of their own.
pub const KNOWN_IF: [u8; 5] = [0, 1, 2, 3, 0xD7];

fn code(v: u64, valid: &[u64], what: &'static str) -> Res<u8> {
    if valid.contains(&v) {
        Ok(v as u8)
    } else {
        Err(E::Bad(what))
    }
}

/// Smallest exponent that can hold the value; mantissa rounded down.
pub fn varint_byte(v: u32) -> u8 {
    assert!(v <= MAX_VARINT);
    let mut e = 0u32;
    while v > 31 << (2 * e) {
        e += 1;
    }
    (e << 5 | v >> (2 * e)) as u8
}
pub fn varint_value(b: u8) -> u32 {
    ((b & 31) as u32) << (2 * (b >> 5))
}
pub fn len_bytes(v: u32) -> Vec<u8> {
    let n = match v {
        0..=63 => 0,
        64..=16383 => 1,
        16384..=4194303 => 2,
        _ => 3,
    };
    assert!(v < 1 << 30);
    let all = (v | (n as u32) << (6 + 8 * n)).to_be_bytes();
    all[3 - n..].to_vec()
}

// ------------------------------------------------------------------------------- encoding

pub trait Enc {
    fn enc(&self, w: &mut W, d: Dialect);
    fn bytes(&self, d: Dialect) -> Vec<u8> {
        let mut w = W::new();
        self.enc(&mut w, d);
        assert!(w.aligned());
        w.out
    }
}

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Len(pub u32);
impl Enc for Len {
    fn enc(&self, w: &mut W, _: Dialect) {
        w.bytes(&len_bytes(self.0));
    }
}
fn put_len(w: &mut W, v: u32) {
    w.bytes(&len_bytes(v));
}
fn prefixed(w: &mut W, b: &[u8]) {
    put_len(w, b.len() as u32);
    w.bytes(b);
}

impl Enc for Off {
    fn enc(&self, w: &mut W, _: Dialect) {
        w.u8(self.id);
        put_len(w, self.off);
    }
}
impl Addr {
    pub fn kind(&self) -> u8 {
        match self {
            Addr::NbId(_) => 0,
            Addr::NoId => 1,
            Addr::UId(_) => 2,
            Addr::VId(_) => 3,
        }
    }
}
impl Enc for Addr {
    fn enc(&self, w: &mut W, _: Dialect) {
        match self {
            Addr::NbId(n) => w.u8(varint_byte(*n)),
            Addr::NoId => w,
            Addr::UId(x) => w.put(*x, 64),
            Addr::VId(x) => w.put(*x as u64, 16),
        };
    }
}
impl Enc for Addressee {
    fn enc(&self, w: &mut W, d: Dialect) {
        if d == Dialect::Wizzilab {
            w.put(self.gc as u64, 2).put(self.addr.kind() as u64, 2).flag(self.use_vid).put(self.nls as u64, 3);
        } else {
            w.put(0, 2).put(self.addr.kind() as u64, 2).put(self.nls as u64, 4);
        }
        w.put(self.spec as u64, 4).put(self.mask as u64, 4);
        self.addr.enc(w, d);
        assert_eq!(self.nls_state.len(), if self.nls == 0 { 0 } else { 5 });
        w.bytes(&self.nls_state);
    }
}
impl Enc for Qos {
    fn enc(&self, w: &mut W, _: Dialect) {
        w.flag(self.stop).flag(self.record).put(self.retry as u64, 3).put(self.resp as u64, 3);
    }
}
impl Enc for D7Cfg {
    fn enc(&self, w: &mut W, d: Dialect) {
        self.qos.enc(w, d);
        w.u8(varint_byte(self.dormant));
        if d != Dialect::Subiot {
            w.u8(varint_byte(self.exec));
        }
        self.to.enc(w, d);
    }
}
impl Enc for Lora {
    fn enc(&self, w: &mut W, _: Dialect) {
        w.put(0, 5).flag(self.adr).flag(self.ack).put(0, 1).u8(self.port).u8(self.rate);
    }
}
impl Enc for Abp {
    fn enc(&self, w: &mut W, d: Dialect) {
        self.base.enc(w, d);
        w.bytes(&self.nsk).bytes(&self.ask);
        w.bytes(&self.dev.to_le_bytes()).bytes(&self.net.to_le_bytes());
    }
}
impl Enc for Otaa {
    fn enc(&self, w: &mut W, d: Dialect) {
        self.base.enc(w, d);
        w.bytes(&self.deui).bytes(&self.aeui).bytes(&self.key);
    }
}
impl Enc for IfCfg {
    fn enc(&self, w: &mut W, d: Dialect) {
        match self {
            IfCfg::Host => {
                w.u8(0);
            }
            IfCfg::Serial => {
                w.u8(1);
            }
            IfCfg::Abp(c) => {
                w.u8(2);
                c.enc(w, d)
            }
            IfCfg::Otaa(c) => {
                w.u8(3);
                c.enc(w, d)
            }
            IfCfg::D7(c) => {
                w.u8(0xD7);
                c.enc(w, d)
            }
            IfCfg::Unknown(x) => {
                w.u8(*x);
            }
        }
    }
}
impl Enc for IndIf {
    fn enc(&self, w: &mut W, d: Dialect) {
        match self {
            IndIf::Host => {
                w.u8(0);
            }
            IndIf::Serial => {
                w.u8(1);
            }
            IndIf::D7(a) => {
                w.u8(0xD7);
                a.enc(w, d)
            }
            IndIf::Unknown(x) => {
                w.u8(*x);
            }
        }
    }
}
impl Enc for ChHdr {
    fn enc(&self, w: &mut W, _: Dialect) {
        w.put(0, 1).put(self.band as u64, 3).put(self.class as u64, 2).put(self.coding as u64, 2);
    }
}
impl Enc for Channel {
    fn enc(&self, w: &mut W, d: Dialect) {
        self.hdr.enc(w, d);
        w.put(self.index as u64, 16);
    }
}
impl Enc for D7Status {
    fn enc(&self, w: &mut W, d: Dialect) {
        self.ch.enc(w, d);
        w.u8(self.rx).u8(self.lb).u8(self.target);
        w.flag(self.nls).flag(self.missed).flag(self.retry).flag(self.unicast).put(0, 4);
        w.u8(self.fifo).u8(self.seq).u8(varint_byte(self.rto));
        self.from.enc(w, d);
    }
}
impl Enc for IfStatus {
    fn enc(&self, w: &mut W, d: Dialect) {
        match self {
            IfStatus::Host => {
                w.u8(0).u8(0);
            }
            IfStatus::Serial => {
                w.u8(1).u8(0);
            }
            IfStatus::D7(s) => {
                w.u8(0xD7);
                prefixed(w, &s.bytes(d));
            }
            IfStatus::Unknown(id, b) => {
                w.u8(*id);
                prefixed(w, b);
            }
        }
    }
}
impl Enc for TxSt {
    fn enc(&self, w: &mut W, d: Dialect) {
        self.ch.enc(w, d);
        w.u8(self.target).u8(self.error).put(0, 24).bytes(&self.lts.to_le_bytes());
        self.to.enc(w, d);
    }
}
impl Enc for Final {
    fn enc(&self, w: &mut W, _: Dialect) {
        match self {
            Final::D7(c) => {
                w.u8(0xD7);
                prefixed(w, &[*c]);
            }
            Final::Other(id, b) => {
                w.u8(*id);
                prefixed(w, b);
            }
        }
    }
}
impl Enc for Tx {
    fn enc(&self, w: &mut W, d: Dialect) {
        match self {
            Tx::D7(s) => {
                w.u8(0xD7);
                prefixed(w, &s.bytes(d));
            }
            Tx::Other(id, b) => {
                w.u8(*id);
                prefixed(w, b);
            }
        }
    }
}
impl Enc for Query {
    fn enc(&self, w: &mut W, d: Dialect) {
        match self {
            Query::NonVoid { len, file } => {
                w.put(0, 8);
                put_len(w, *len);
                file.enc(w, d);
            }
            Query::Zero { mp, signed, cmp, len, mask, file } => {
                w.put(1, 3).flag(*mp).flag(*signed).put(*cmp as u64, 3);
                put_len(w, *len);
                w.bytes(mask);
                file.enc(w, d);
            }
            Query::Value { mp, signed, cmp, len, mask, value, file } => {
                w.put(2, 3).flag(*mp).flag(*signed).put(*cmp as u64, 3);
                put_len(w, *len);
                w.bytes(mask).bytes(value);
                file.enc(w, d);
            }
            Query::Other { mp, signed, cmp, len, mask, f1, f2 } => {
                w.put(3, 3).flag(*mp).flag(*signed).put(*cmp as u64, 3);
                put_len(w, *len);
                w.bytes(mask);
                f1.enc(w, d);
                f2.enc(w, d);
            }
            Query::Bitmap { mp, signed, cmp, len, start, stop, mask, file } => {
                w.put(4, 3).flag(*mp).flag(*signed).put(*cmp as u64, 3);
                put_len(w, *len);
                put_len(w, *start);
                put_len(w, *stop);
                w.bytes(mask);
                file.enc(w, d);
            }
            Query::Str { mp, errs, len, mask, value, file } => {
                w.put(7, 3).flag(*mp).put(0, 1).put(*errs as u64, 3);
                put_len(w, *len);
                w.bytes(mask).bytes(value);
                file.enc(w, d);
            }
        }
    }
}
impl Enc for FPerm {
    fn enc(&self, w: &mut W, _: Dialect) {
        w.flag(self.encrypted).flag(self.executable);
        for p in [&self.user, &self.guest] {
            w.flag(p.r).flag(p.w).flag(p.x);
        }
    }
}
impl Enc for FProp {
    fn enc(&self, w: &mut W, _: Dialect) {
        w.flag(self.enabled).put(self.cond as u64, 3).put(0, 2).put(self.storage as u64, 2);
    }
}
impl Enc for FHdr {
    fn enc(&self, w: &mut W, d: Dialect) {
        self.perm.enc(w, d);
        self.prop.enc(w, d);
        w.u8(self.alp).u8(self.iface).put(self.size as u64, 32).put(self.alloc as u64, 32);
    }
}
impl Enc for SubProf {
    fn enc(&self, w: &mut W, _: Dialect) {
        w.u8(self.bitmap).u8(varint_byte(self.period));
    }
}
impl Enc for SubBand {
    fn enc(&self, w: &mut W, _: Dialect) {
        w.put(self.start as u64, 16).put(self.end as u64, 16).u8(self.eirp).u8(self.cca).u8(self.duty);
    }
}
impl Enc for Access {
    fn enc(&self, w: &mut W, d: Dialect) {
        assert!(self.prof.len() == 4 && self.bands.len() == 8);
        self.hdr.enc(w, d);
        self.prof.iter().for_each(|p| p.enc(w, d));
        self.bands.iter().for_each(|p| p.enc(w, d));
    }
}
impl Enc for ChStatus {
    fn enc(&self, w: &mut W, _: Dialect) {
        w.put(self.band as u64, 3).put(self.bw as u64, 2).put(self.index as u64, 11).u8(self.noise);
    }
}
fn put_name(w: &mut W, s: &str, n: usize) {
    let mut cut = s.len().min(n);
    while !s.is_char_boundary(cut) {
        cut -= 1;
    }
    w.bytes(&s.as_bytes()[..cut]);
    for _ in cut..n {
        w.u8(0);
    }
}
impl Enc for Factory {
    fn enc(&self, w: &mut W, _: Dialect) {
        assert!(self.rates.len() == 9 && self.small.len() == 11);
        w.u8(self.gain);
        for r in &self.rates {
            w.put(*r as u64, 32);
        }
        w.bytes(&self.small);
        w.put(self.lora_bw as u64, 32).u8(self.lora_sf).u8(self.gaussian).put(self.paramp as u64, 16);
    }
}
impl Enc for File {
    fn enc(&self, w: &mut W, d: Dialect) {
        match self {
            File::Access(_, a) => a.enc(w, d),
            File::Uid(x) => {
                w.put(*x, 64);
            }
            File::Factory(f) => f.enc(w, d),
            File::Firmware { major, minor, name, sha } => {
                w.u8(*major).u8(*minor);
                put_name(w, name, 6);
                put_name(w, sha, 7);
            }
            File::Eng { mode, flags, timeout, ch, eirp } => {
                w.u8(*mode).u8(*flags).u8(*timeout);
                ch.enc(w, d);
                w.u8(*eirp);
            }
            File::Vid(x) => {
                w.put(*x as u64, 16);
            }
            File::Phy { up, rx, tx, duty, ch } => {
                w.put(*up as u64, 32).put(*rx as u64, 32).put(*tx as u64, 32).put(*duty as u64, 16);
                w.u8(u8::try_from(ch.len()).unwrap());
                ch.iter().for_each(|c| c.enc(w, d));
            }
            File::DllConfig { ac, lq, nf, rxp, txp } => {
                w.u8(*ac).put(0, 16).u8(*lq).u8(*nf).u8(*rxp).u8(*txp);
            }
            File::DllStatus { level, budget, noise, hdr, index, ratio, scans, timeouts } => {
                w.u8(*level).u8(*budget).u8(*noise);
                hdr.enc(w, d);
                w.put(*index as u64, 16).put(*ratio as u64, 16).put(*scans as u64, 32).put(*timeouts as u64, 32);
            }
            File::Key(lo, hi) => {
                w.bytes(&lo.to_le_bytes()).bytes(&hi.to_le_bytes());
            }
            File::Other(b) => {
                w.bytes(b);
            }
        }
    }
}
fn head(w: &mut W, h: &H, op: u8) {
    w.flag(h.g).flag(h.r).put(op as u64, 6);
}
impl Enc for Act {
    fn enc(&self, w: &mut W, d: Dialect) {
        let op = self.opcode();
        match self {
            Act::Nop(h) | Act::Ext(h) => head(w, h, op),
            Act::Read(h, off, len) => {
                head(w, h, op);
                off.enc(w, d);
                put_len(w, *len);
            }
            Act::Fid(_, h, id) => {
                head(w, h, op);
                w.u8(*id);
            }
            Act::Data(_, h, off, f) => {
                head(w, h, op);
                off.enc(w, d);
                prefixed(w, &f.bytes(d));
            }
            Act::Prop(_, h, id, p) => {
                head(w, h, op);
                w.u8(*id);
                p.enc(w, d);
            }
            Act::Query(_, h, q) => {
                head(w, h, op);
                q.enc(w, d);
            }
            Act::Permission(h, level, p) => {
                assert_eq!(p.len(), 8);
                head(w, h, op);
                w.u8(*level).u8(0x42).bytes(p);
            }
            Act::Copy(h, s, t) => {
                head(w, h, op);
                w.u8(*s).u8(*t);
            }
            Act::ActionStatus(id, c) => {
                w.put(0, 2).put(op as u64, 6).u8(*id).u8(*c);
            }
            Act::IfStatus(s) => {
                w.put(1, 2).put(op as u64, 6);
                s.enc(w, d);
            }
            Act::Final(s) => {
                w.put(2, 2).put(op as u64, 6);
                s.enc(w, d);
            }
            Act::Tx(s) => {
                w.put(1, 2).put(op as u64, 6);
                s.enc(w, d);
            }
            Act::ResponseTag { eop, err, id } => {
                w.flag(*eop).flag(*err).put(op as u64, 6).u8(*id);
            }
            Act::Chunk(x) | Act::Logic(x) => {
                w.put(*x as u64, 2).put(op as u64, 6);
            }
            Act::Forward(r, c) => {
                w.put(0, 1).flag(*r).put(op as u64, 6);
                c.enc(w, d);
            }
            Act::Indirect(r, c) => {
                w.flag(c.is_some()).flag(*r).put(op as u64, 6);
                if let Some(c) = c {
                    c.enc(w, d);
                }
            }
            Act::RequestTag { eop, id } => {
                w.flag(*eop).put(0, 1).put(op as u64, 6).u8(*id);
            }
        }
    }
}
impl Enc for Vec<Act> {
    fn enc(&self, w: &mut W, d: Dialect) {
        self.iter().for_each(|a| a.enc(w, d));
    }
}
impl Enc for Trans {
    fn enc(&self, w: &mut W, d: Dialect) {
        w.flag(self.start).flag(self.tl.is_some()).flag(self.te.is_some()).flag(self.ack_req);
        w.flag(self.ack.is_some()).flag(self.ack_rec).flag(self.agc.is_some()).put(0, 1);
        w.u8(self.dialog).u8(self.trans);
        if let Some(x) = self.agc {
            w.u8(x);
        }
        assert_eq!(self.tc.is_some(), self.ack_req && self.start);
        for x in [self.tl, self.te, self.tc].into_iter().flatten() {
            w.u8(varint_byte(x));
        }
        if let Some((a, b)) = self.ack {
            w.u8(a).u8(b);
        }
        self.cmd.enc(w, d);
    }
}
impl Enc for Net {
    fn enc(&self, w: &mut W, d: Dialect) {
        w.flag(self.no_origin).flag(self.hop.is_some()).put(self.addr.kind() as u64, 2).put(self.nls as u64, 4);
        if let Some((counter, at)) = self.hop {
            w.put(0, 1).flag(counter).put(at as u64, 2).put(0, 4);
        }
        w.put(self.spec as u64, 4).put(self.mask as u64, 4);
        self.addr.enc(w, d);
        self.t.enc(w, d);
    }
}
impl Enc for Fg {
    fn enc(&self, w: &mut W, d: Dialect) {
        put_len(w, self.len);
        w.u8(self.subnet).put(self.target.kind() as u64, 2).put(self.eirp as u64, 6);
        self.target.enc(w, d);
        self.net.enc(w, d);
        w.bytes(&self.crc.to_le_bytes());
    }
}
impl Enc for Bg {
    fn enc(&self, w: &mut W, _: Dialect) {
        w.u8(self.subnet).put(self.at as u64, 2).put(self.tag as u64, 6);
        w.bytes(&self.payload.to_le_bytes()).bytes(&self.crc.to_le_bytes());
    }
}

// ------------------------------------------------------------------------------- decoding

pub trait Dec: Sized {
    fn dec(r: &mut R, d: Dialect) -> Res<Self>;
    /// The value and the number of bytes it took.
    fn parse(b: &[u8], d: Dialect) -> Res<(Self, usize)> {
        let mut r = R::new(b);
        let v = Self::dec(&mut r, d)?;
        Ok((v, r.used()))
    }
}

fn dec_len(r: &mut R) -> Res<u32> {
    let n = r.get(2)? as usize;
    Ok(r.get(6 + 8 * n)? as u32)
}
impl Dec for Len {
    fn dec(r: &mut R, _: Dialect) -> Res<Self> {
        Ok(Len(dec_len(r)?))
    }
}
fn dec_varint(r: &mut R) -> Res<u32> {
    Ok(varint_value(r.u8()?))
}
fn dec_prefixed(r: &mut R) -> Res<B> {
    let n = dec_len(r)? as usize;
    r.take(n)
}
/// Decode from a payload that must be used up entirely.
fn dec_all<T: Dec>(b: &[u8], d: Dialect) -> Res<T> {
    let mut r = R::new(b);
    let v = T::dec(&mut r, d)?;
    if r.end() {
        Ok(v)
    } else {
        Err(E::Bad("content does not fill its length"))
    }
}

impl Dec for Off {
    fn dec(r: &mut R, _: Dialect) -> Res<Self> {
        Ok(Off { id: r.u8()?, off: dec_len(r)? })
    }
}
fn dec_addr(r: &mut R, kind: u8) -> Res<Addr> {
    Ok(match kind {
        0 => Addr::NbId(dec_varint(r)?),
        1 => Addr::NoId,
        2 => Addr::UId(r.get(64)?),
        _ => Addr::VId(r.get(16)? as u16),
    })
}
impl Dec for Addressee {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        let (gc, kind, use_vid, nls);
        if d == Dialect::Wizzilab {
            gc = r.get(2)? as u8;
            kind = r.get(2)? as u8;
            use_vid = r.flag()?;
            nls = r.get(3)?;
        } else {
            r.get(2)?;
            gc = 0;
            use_vid = false;
            kind = r.get(2)? as u8;
            nls = r.get(4)?;
        }
        let nls = code(nls, &[0, 1, 2, 3, 4, 5, 6, 7], "nls method")?;
        let (spec, mask) = (r.get(4)? as u8, r.get(4)? as u8);
        let addr = dec_addr(r, kind)?;
        let nls_state = r.take(if nls == 0 { 0 } else { 5 })?;
        Ok(Addressee { gc, use_vid, spec, mask, addr, nls, nls_state })
    }
}
impl Dec for Qos {
    fn dec(r: &mut R, _: Dialect) -> Res<Self> {
        Ok(Qos {
            stop: r.flag()?,
            record: r.flag()?,
            retry: r.get(3)? as u8,
            resp: code(r.get(3)?, &[0, 1, 2, 4, 5, 6], "response mode")?,
        })
    }
}
impl Dec for D7Cfg {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        Ok(D7Cfg {
            qos: Qos::dec(r, d)?,
            dormant: dec_varint(r)?,
            exec: if d == Dialect::Subiot { 0 } else { dec_varint(r)? },
            to: Addressee::dec(r, d)?,
        })
    }
}
impl Dec for Lora {
    fn dec(r: &mut R, _: Dialect) -> Res<Self> {
        r.get(5)?;
        let (adr, ack) = (r.flag()?, r.flag()?);
        r.get(1)?;
        Ok(Lora { adr, ack, port: r.u8()?, rate: r.u8()? })
    }
}
impl Dec for Abp {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        Ok(Abp {
            base: Lora::dec(r, d)?,
            nsk: r.take(16)?,
            ask: r.take(16)?,
            dev: u32::from_le_bytes(r.arr()?),
            net: u32::from_le_bytes(r.arr()?),
        })
    }
}
impl Dec for Otaa {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        Ok(Otaa { base: Lora::dec(r, d)?, deui: r.take(8)?, aeui: r.take(8)?, key: r.take(16)? })
    }
}
impl Dec for IfCfg {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        Ok(match r.u8()? {
            0 => IfCfg::Host,
            1 => IfCfg::Serial,
            2 => IfCfg::Abp(Abp::dec(r, d)?),
            3 => IfCfg::Otaa(Otaa::dec(r, d)?),
            0xD7 => IfCfg::D7(D7Cfg::dec(r, d)?),
            x => IfCfg::Unknown(x),
        })
    }
}
impl Dec for IndIf {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        Ok(match r.u8()? {
            0 => IndIf::Host,
            1 => IndIf::Serial,
            0xD7 => IndIf::D7(Addressee::dec(r, d)?),
            x => IndIf::Unknown(x),
        })
    }
}
impl Dec for ChHdr {
    fn dec(r: &mut R, _: Dialect) -> Res<Self> {
        r.get(1)?;
        Ok(ChHdr {
            band: code(r.get(3)?, &[0, 1, 2, 3, 4], "channel band")?,
            class: r.get(2)? as u8,
            coding: r.get(2)? as u8,
        })
    }
}
impl Dec for Channel {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        Ok(Channel { hdr: ChHdr::dec(r, d)?, index: r.get(16)? as u16 })
    }
}
impl Dec for D7Status {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        let ch = Channel::dec(r, d)?;
        let (rx, lb, target) = (r.u8()?, r.u8()?, r.u8()?);
        let (nls, missed, retry, unicast) = (r.flag()?, r.flag()?, r.flag()?, r.flag()?);
        r.get(4)?;
        let (fifo, seq, rto) = (r.u8()?, r.u8()?, dec_varint(r)?);
        let from = Addressee::dec(r, d)?;
        Ok(D7Status { ch, rx, lb, target, nls, missed, retry, unicast, fifo, seq, rto, from })
    }
}
impl Dec for IfStatus {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        let id = r.u8()?;
        let b = dec_prefixed(r)?;
        match id {
            0 | 1 if !b.is_empty() => Err(E::Bad("content does not fill its length")),
            0 => Ok(IfStatus::Host),
            1 => Ok(IfStatus::Serial),
            2 | 3 => Err(E::Bad("no status format for this interface")),
            0xD7 => Ok(IfStatus::D7(dec_all(&b, d)?)),
            _ => Ok(IfStatus::Unknown(id, b)),
        }
    }
}
impl Dec for TxSt {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        let ch = Channel::dec(r, d)?;
        let target = r.u8()?;
        let error = final_code(r.u8()?)?;
        r.get(24)?;
        Ok(TxSt { ch, target, error, lts: u32::from_le_bytes(r.arr()?), to: Addressee::dec(r, d)? })
    }
}
fn final_code(c: u8) -> Res<u8> {
    if FINAL_CODES.contains(&c) {
        Ok(c)
    } else {
        Err(E::Bad("final status code"))
    }
}
impl Dec for Final {
    fn dec(r: &mut R, _: Dialect) -> Res<Self> {
        let id = r.u8()?;
        let b = dec_prefixed(r)?;
        match (id, b.as_slice()) {
            (0xD7, [c]) => Ok(Final::D7(final_code(*c)?)),
            (0xD7, _) => Err(E::Bad("content does not fill its length")),
            _ => Ok(Final::Other(id, b)),
        }
    }
}
impl Dec for Tx {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        let id = r.u8()?;
        let b = dec_prefixed(r)?;
        if id == 0xD7 {
            Ok(Tx::D7(dec_all(&b, d)?))
        } else {
            Ok(Tx::Other(id, b))
        }
    }
}
impl Dec for Query {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        let arith = |r: &mut R| code(r.get(3)?, &[0, 1, 2, 3, 4, 5], "comparison");
        match r.get(3)? {
            0 => {
                r.get(5)?;
                Ok(Query::NonVoid { len: dec_len(r)?, file: Off::dec(r, d)? })
            }
            1 => {
                let (mp, signed, cmp, len) = (r.flag()?, r.flag()?, arith(r)?, dec_len(r)?);
                let mask = r.take(if mp { len as usize } else { 0 })?;
                Ok(Query::Zero { mp, signed, cmp, len, mask, file: Off::dec(r, d)? })
            }
            2 => {
                let (mp, signed, cmp, len) = (r.flag()?, r.flag()?, arith(r)?, dec_len(r)?);
                let mask = r.take(if mp { len as usize } else { 0 })?;
                let value = r.take(len as usize)?;
                Ok(Query::Value { mp, signed, cmp, len, mask, value, file: Off::dec(r, d)? })
            }
            3 => {
                let (mp, signed, cmp, len) = (r.flag()?, r.flag()?, arith(r)?, dec_len(r)?);
                let mask = r.take(if mp { len as usize } else { 0 })?;
                Ok(Query::Other { mp, signed, cmp, len, mask, f1: Off::dec(r, d)?, f2: Off::dec(r, d)? })
            }
            4 => {
                let (mp, signed) = (r.flag()?, r.flag()?);
                let cmp = code(r.get(3)?, &[0, 1], "range comparison")?;
                let (len, start, stop) = (dec_len(r)?, dec_len(r)?, dec_len(r)?);
                let mask = r.take(len as usize)?;
                Ok(Query::Bitmap { mp, signed, cmp, len, start, stop, mask, file: Off::dec(r, d)? })
            }
            7 => {
                let mp = r.flag()?;
                r.get(1)?;
                let (errs, len) = (r.get(3)? as u8, dec_len(r)?);
                let mask = r.take(if mp { len as usize } else { 0 })?;
                let value = r.take(len as usize)?;
                Ok(Query::Str { mp, errs, len, mask, value, file: Off::dec(r, d)? })
            }
            _ => Err(E::Bad("query type")),
        }
    }
}
impl Dec for FPerm {
    fn dec(r: &mut R, _: Dialect) -> Res<Self> {
        let (encrypted, executable) = (r.flag()?, r.flag()?);
        let mut p = || -> Res<Perm> { Ok(Perm { r: r.flag()?, w: r.flag()?, x: r.flag()? }) };
        Ok(FPerm { encrypted, executable, user: p()?, guest: p()? })
    }
}
impl Dec for FProp {
    fn dec(r: &mut R, _: Dialect) -> Res<Self> {
        let enabled = r.flag()?;
        let cond = code(r.get(3)?, &[0, 1, 2, 3], "action condition")?;
        r.get(2)?;
        Ok(FProp { enabled, cond, storage: r.get(2)? as u8 })
    }
}
impl Dec for FHdr {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        Ok(FHdr {
            perm: FPerm::dec(r, d)?,
            prop: FProp::dec(r, d)?,
            alp: r.u8()?,
            iface: r.u8()?,
            size: r.get(32)? as u32,
            alloc: r.get(32)? as u32,
        })
    }
}
impl Dec for SubProf {
    fn dec(r: &mut R, _: Dialect) -> Res<Self> {
        Ok(SubProf { bitmap: r.u8()?, period: dec_varint(r)? })
    }
}
impl Dec for SubBand {
    fn dec(r: &mut R, _: Dialect) -> Res<Self> {
        Ok(SubBand {
            start: r.get(16)? as u16,
            end: r.get(16)? as u16,
            eirp: r.u8()?,
            cca: r.u8()?,
            duty: r.u8()?,
        })
    }
}
impl Dec for Access {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        Ok(Access {
            hdr: ChHdr::dec(r, d)?,
            prof: (0..4).map(|_| SubProf::dec(r, d)).collect::<Res<_>>()?,
            bands: (0..8).map(|_| SubBand::dec(r, d)).collect::<Res<_>>()?,
        })
    }
}
impl Dec for ChStatus {
    fn dec(r: &mut R, _: Dialect) -> Res<Self> {
        Ok(ChStatus {
            band: code(r.get(3)?, &[0, 1, 2, 3, 4], "channel band")?,
            bw: code(r.get(2)?, &[0, 1], "bandwidth")?,
            index: r.get(11)? as u16,
            noise: r.u8()?,
        })
    }
}
fn dec_name(r: &mut R, n: usize) -> Res<String> {
    let mut b = r.take(n)?;
    let used = b.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
    b.truncate(used);
    String::from_utf8(b).map_err(|_| E::Bad("utf-8"))
}
impl Dec for Factory {
    fn dec(r: &mut R, _: Dialect) -> Res<Self> {
        Ok(Factory {
            gain: r.u8()?,
            rates: (0..9).map(|_| r.get(32).map(|x| x as u32)).collect::<Res<_>>()?,
            small: r.take(11)?,
            lora_bw: r.get(32)? as u32,
            lora_sf: r.u8()?,
            gaussian: r.u8()?,
            paramp: r.get(16)? as u16,
        })
    }
}
/// Whether the protocol reserves a format for this file id.
pub fn typed(id: u8) -> bool {
    matches!(id, 0 | 1 | 2 | 5 | 6 | 9 | 0xA | 0xB | 0xE | 0x20..=0x2E)
}
/// Decode a file of the given id; `len` is how many bytes a file without a format has.
pub fn dec_file(r: &mut R, id: u8, len: usize, d: Dialect) -> Res<File> {
    Ok(match id {
        0 => File::Uid(r.get(64)?),
        1 => File::Factory(Factory::dec(r, d)?),
        2 => File::Firmware { major: r.u8()?, minor: r.u8()?, name: dec_name(r, 6)?, sha: dec_name(r, 7)? },
        5 => File::Eng {
            mode: code(r.u8()? as u64, &[0, 1, 2, 3, 4], "engineering mode")?,
            flags: r.u8()?,
            timeout: r.u8()?,
            ch: Channel::dec(r, d)?,
            eirp: r.u8()?,
        },
        6 => File::Vid(r.get(16)? as u16),
        9 => {
            let (up, rx, tx) = (r.get(32)? as u32, r.get(32)? as u32, r.get(32)? as u32);
            let duty = r.get(16)? as u16;
            let n = r.u8()?;
            let ch = (0..n).map(|_| ChStatus::dec(r, d)).collect::<Res<_>>()?;
            File::Phy { up, rx, tx, duty, ch }
        }
        0xA => {
            let ac = r.u8()?;
            r.get(16)?;
            File::DllConfig { ac, lq: r.u8()?, nf: r.u8()?, rxp: r.u8()?, txp: r.u8()? }
        }
        0xB => File::DllStatus {
            level: r.u8()?,
            budget: r.u8()?,
            noise: r.u8()?,
            hdr: ChHdr::dec(r, d)?,
            index: r.get(16)? as u16,
            ratio: r.get(16)? as u16,
            scans: r.get(32)? as u32,
            timeouts: r.get(32)? as u32,
        },
        0xE => File::Key(u64::from_le_bytes(r.arr()?), u64::from_le_bytes(r.arr()?)),
        0x20..=0x2E => File::Access(id - 0x20, Access::dec(r, d)?),
        _ => File::Other(r.take(len)?),
    })
}
/// What a payload written to this file id means.
pub fn file_payload(id: u8, b: B, d: Dialect) -> File {
    let mut r = R::new(&b);
    match dec_file(&mut r, id, b.len(), d) {
        Ok(f) if r.end() => f,
        _ => File::Other(b),
    }
}
impl Dec for Act {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        let (b1, b0) = (r.flag()?, r.flag()?);
        let two = (b1 as u8) << 1 | b0 as u8;
        let h = H { g: b1, r: b0 };
        let op = r.get(6)? as u8;
        Ok(match op {
            0 => Act::Nop(h),
            63 => Act::Ext(h),
            1 => Act::Read(h, Off::dec(r, d)?, dec_len(r)?),
            2 | 16 | 18 | 19 | 20 | 31 => Act::Fid(op, h, r.u8()?),
            4 | 5 | 32 => {
                let off = Off::dec(r, d)?;
                let b = dec_prefixed(r)?;
                let f = file_payload(off.id, b, d);
                Act::Data(op, h, off, f)
            }
            6 | 17 | 33 => Act::Prop(op, h, r.u8()?, FHdr::dec(r, d)?),
            8 | 9 | 11 => Act::Query(op, h, Query::dec(r, d)?),
            10 => {
                let level = code(r.u8()? as u64, &[0, 1], "permission level")?;
                code(r.u8()? as u64, &[0x42], "permission")?;
                Act::Permission(h, level, r.take(8)?)
            }
            23 => Act::Copy(h, r.u8()?, r.u8()?),
            34 => match (two, d) {
                (0, _) => Act::ActionStatus(r.u8()?, r.u8()?),
                (1, _) => Act::IfStatus(IfStatus::dec(r, d)?),
                (2, Dialect::Wizzilab) => Act::Final(Final::dec(r, d)?),
                _ => return Err(E::Bad("status type")),
            },
            35 => Act::ResponseTag { eop: b1, err: b0, id: r.u8()? },
            38 if d == Dialect::Wizzilab => {
                code(two as u64, &[1], "tx status type")?;
                Act::Tx(Tx::dec(r, d)?)
            }
            48 => Act::Chunk(two),
            49 => Act::Logic(two),
            50 => Act::Forward(b0, IfCfg::dec(r, d)?),
            51 => Act::Indirect(b0, if b1 { Some(IndIf::dec(r, d)?) } else { None }),
            52 => Act::RequestTag { eop: b1, id: r.u8()? },
            _ => return Err(E::Bad("opcode")),
        })
    }
}
/// Read actions until the end, or up to the given absolute byte position, or until an indirect
/// forward, behind which nothing can be interpreted.
fn dec_cmd(r: &mut R, limit: u32, d: Dialect) -> Res<Vec<Act>> {
    let mut v = vec![];
    while (limit == 0 || r.pos / 8 < limit as usize) && !matches!(v.last(), Some(Act::Indirect(..))) && !r.end() {
        v.push(Act::dec(r, d)?);
    }
    Ok(v)
}
impl Dec for Vec<Act> {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        dec_cmd(r, 0, d)
    }
}
fn dec_trans(r: &mut R, limit: u32, d: Dialect) -> Res<Trans> {
    let (start, tl, te, ack_req) = (r.flag()?, r.flag()?, r.flag()?, r.flag()?);
    let (ack, ack_rec, agc) = (r.flag()?, r.flag()?, r.flag()?);
    r.get(1)?;
    let (dialog, trans) = (r.u8()?, r.u8()?);
    let opt = |r: &mut R, on: bool| if on { dec_varint(r).map(Some) } else { Ok(None) };
    let agc = if agc { Some(r.u8()?) } else { None };
    let tl = opt(r, tl)?;
    let te = opt(r, te)?;
    let tc = opt(r, ack_req && start)?;
    let ack = if ack { Some((r.u8()?, r.u8()?)) } else { None };
    let cmd = dec_cmd(r, limit, d)?;
    Ok(Trans { start, ack_req, ack_rec, dialog, trans, agc, tl, te, tc, ack, cmd })
}
impl Dec for Trans {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        dec_trans(r, 0, d)
    }
}
fn dec_net(r: &mut R, limit: u32, d: Dialect) -> Res<Net> {
    let (no_origin, hop) = (r.flag()?, r.flag()?);
    let kind = r.get(2)? as u8;
    let nls = if d == Dialect::Wizzilab {
        r.get(1)?;
        r.get(3)? as u8
    } else {
        code(r.get(4)?, &[0, 1, 2, 3, 4, 5, 6, 7], "nls method")?
    };
    let hop = if hop {
        r.get(1)?;
        let h = (r.flag()?, r.get(2)? as u8);
        r.get(4)?;
        Some(h)
    } else {
        None
    };
    let (spec, mask) = (r.get(4)? as u8, r.get(4)? as u8);
    let addr = dec_addr(r, kind)?;
    Ok(Net { no_origin, hop, nls, spec, mask, addr, t: dec_trans(r, limit, d)? })
}
impl Dec for Net {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        dec_net(r, 0, d)
    }
}
impl Dec for Fg {
    fn dec(r: &mut R, d: Dialect) -> Res<Self> {
        let len = dec_len(r)?;
        let subnet = r.u8()?;
        let (kind, eirp) = (r.get(2)? as u8, r.get(6)? as u8);
        let target = dec_addr(r, kind)?;
        let net = dec_net(r, len, d)?;
        Ok(Fg { len, subnet, eirp, target, net, crc: u16::from_le_bytes(r.arr()?) })
    }
}
impl Dec for Bg {
    fn dec(r: &mut R, _: Dialect) -> Res<Self> {
        Ok(Bg {
            subnet: r.u8()?,
            at: r.get(2)? as u8,
            tag: r.get(6)? as u8,
            payload: u16::from_le_bytes(r.arr()?),
            crc: u16::from_le_bytes(r.arr()?),
        })
    }
}
