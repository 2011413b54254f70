//! What a DASH7 message says, in plain data. Enumerated fields hold their protocol code.
use serde::{Deserialize, Serialize};

macro_rules! model {
    ($($(#[$m:meta])* $k:ident $n:ident $b:tt)*) => {
        $( #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)] $(#[$m])* pub $k $n $b )*
    };
}

pub type B = Vec<u8>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dialect {
    Spec,
    Subiot,
    Wizzilab,
}

#[cfg(feature = "spec")]
pub const D: Dialect = Dialect::Spec;
#[cfg(feature = "subiot")]
pub const D: Dialect = Dialect::Subiot;
#[cfg(feature = "wizzilab")]
pub const D: Dialect = Dialect::Wizzilab;

impl Dialect {
    pub fn name(self) -> &'static str {
        match self {
            Dialect::Spec => "spec",
            Dialect::Subiot => "subiot",
            Dialect::Wizzilab => "wizzilab",
        }
    }
}

model! {
    #[derive(Copy)] struct H { pub g: bool, pub r: bool }
    struct Off { pub id: u8, pub off: u32 }
    enum Addr { NbId(u32), NoId, UId(u64), VId(u16) }
    struct Addressee {
        /// group condition and vid flag exist in the wizzilab dialect only, zero otherwise
        pub gc: u8,
        pub use_vid: bool,
        pub spec: u8,
        pub mask: u8,
        pub addr: Addr,
        pub nls: u8,
        /// empty when nls is 0, else five bytes
        pub nls_state: B,
    }
    struct Qos { pub stop: bool, pub record: bool, pub retry: u8, pub resp: u8 }
    struct D7Cfg { pub qos: Qos, pub dormant: u32, pub exec: u32, pub to: Addressee }
    struct Lora { pub adr: bool, pub ack: bool, pub port: u8, pub rate: u8 }
    struct Abp { pub base: Lora, pub nsk: B, pub ask: B, pub dev: u32, pub net: u32 }
    struct Otaa { pub base: Lora, pub deui: B, pub aeui: B, pub key: B }
    enum IfCfg { Host, Serial, Abp(Abp), Otaa(Otaa), D7(D7Cfg), Unknown(u8) }
    enum IndIf { Host, Serial, D7(Addressee), Unknown(u8) }
    struct ChHdr { pub band: u8, pub class: u8, pub coding: u8 }
    struct Channel { pub hdr: ChHdr, pub index: u16 }
    struct D7Status {
        pub ch: Channel, pub rx: u8, pub lb: u8, pub target: u8,
        pub nls: bool, pub missed: bool, pub retry: bool, pub unicast: bool,
        pub fifo: u8, pub seq: u8, pub rto: u32, pub from: Addressee,
    }
    enum IfStatus { Host, Serial, D7(D7Status), Unknown(u8, B) }
    struct TxSt { pub ch: Channel, pub target: u8, pub error: u8, pub lts: u32, pub to: Addressee }
    /// a status code of interface 0xD7, or raw bytes of another interface
    enum Final { D7(u8), Other(u8, B) }
    enum Tx { D7(TxSt), Other(u8, B) }
    enum Query {
        NonVoid { len: u32, file: Off },
        Zero { mp: bool, signed: bool, cmp: u8, len: u32, mask: B, file: Off },
        Value { mp: bool, signed: bool, cmp: u8, len: u32, mask: B, value: B, file: Off },
        Other { mp: bool, signed: bool, cmp: u8, len: u32, mask: B, f1: Off, f2: Off },
        Bitmap { mp: bool, signed: bool, cmp: u8, len: u32, start: u32, stop: u32, mask: B, file: Off },
        Str { mp: bool, errs: u8, len: u32, mask: B, value: B, file: Off },
    }
    struct Perm { pub r: bool, pub w: bool, pub x: bool }
    struct FPerm { pub encrypted: bool, pub executable: bool, pub user: Perm, pub guest: Perm }
    struct FProp { pub enabled: bool, pub cond: u8, pub storage: u8 }
    struct FHdr { pub perm: FPerm, pub prop: FProp, pub alp: u8, pub iface: u8, pub size: u32, pub alloc: u32 }
    struct SubProf { pub bitmap: u8, pub period: u32 }
    struct SubBand { pub start: u16, pub end: u16, pub eirp: u8, pub cca: u8, pub duty: u8 }
    struct Access { pub hdr: ChHdr, pub prof: Vec<SubProf>, pub bands: Vec<SubBand> }
    struct ChStatus { pub band: u8, pub bw: u8, pub index: u16, pub noise: u8 }
    struct Factory {
        pub gain: u8,
        /// the nine 32-bit rates, in order
        pub rates: Vec<u32>,
        /// preamble sizes, detector sizes, tolerances and rssi fields, in order
        pub small: Vec<u8>,
        pub lora_bw: u32, pub lora_sf: u8, pub gaussian: u8, pub paramp: u16,
    }
    enum File {
        Access(u8, Access),
        Uid(u64),
        Factory(Factory),
        Firmware { major: u8, minor: u8, name: String, sha: String },
        Eng { mode: u8, flags: u8, timeout: u8, ch: Channel, eirp: u8 },
        Vid(u16),
        Phy { up: u32, rx: u32, tx: u32, duty: u16, ch: Vec<ChStatus> },
        DllConfig { ac: u8, lq: u8, nf: u8, rxp: u8, txp: u8 },
        DllStatus { level: u8, budget: u8, noise: u8, hdr: ChHdr, index: u16, ratio: u16, scans: u32, timeouts: u32 },
        /// least significant half first
        Key(u64, u64),
        Other(B),
    }
    enum Act {
        Nop(H),
        Read(H, Off, u32),
        /// opcode: 2 read properties, 16 exist, 18 delete, 19 restore, 20 flush, 31 execute
        Fid(u8, H, u8),
        /// opcode: 4 write, 5 write and flush, 32 return
        Data(u8, H, Off, File),
        /// opcode: 6 write, 17 create, 33 return
        Prop(u8, H, u8, FHdr),
        /// opcode: 8 action, 9 break, 11 checksum
        Query(u8, H, Query),
        /// level, permission bytes
        Permission(H, u8, B),
        Copy(H, u8, u8),
        ActionStatus(u8, u8),
        IfStatus(IfStatus),
        Final(Final),
        Tx(Tx),
        ResponseTag { eop: bool, err: bool, id: u8 },
        Chunk(u8),
        Logic(u8),
        Forward(bool, IfCfg),
        Indirect(bool, Option<IndIf>),
        RequestTag { eop: bool, id: u8 },
        Ext(H),
    }
    struct Trans {
        pub start: bool, pub ack_req: bool, pub ack_rec: bool,
        pub dialog: u8, pub trans: u8,
        pub agc: Option<u8>, pub tl: Option<u32>, pub te: Option<u32>, pub tc: Option<u32>,
        pub ack: Option<(u8, u8)>,
        pub cmd: Vec<Act>,
    }
    struct Net { pub no_origin: bool, pub hop: Option<(bool, u8)>, pub nls: u8, pub spec: u8, pub mask: u8, pub addr: Addr, pub t: Trans }
    struct Fg { pub len: u32, pub subnet: u8, pub eirp: u8, pub target: Addr, pub net: Net, pub crc: u16 }
    struct Bg { pub subnet: u8, pub at: u8, pub tag: u8, pub payload: u16, pub crc: u16 }
}

impl Act {
    pub fn opcode(&self) -> u8 {
        match self {
            Act::Nop(_) => 0,
            Act::Read(..) => 1,
            Act::Fid(op, ..) | Act::Data(op, ..) | Act::Prop(op, ..) | Act::Query(op, ..) => *op,
            Act::Permission(..) => 10,
            Act::Copy(..) => 23,
            Act::ActionStatus(..) | Act::IfStatus(_) | Act::Final(_) => 34,
            Act::ResponseTag { .. } => 35,
            Act::Tx(_) => 38,
            Act::Chunk(_) => 48,
            Act::Logic(_) => 49,
            Act::Forward(..) => 50,
            Act::Indirect(..) => 51,
            Act::RequestTag { .. } => 52,
            Act::Ext(_) => 63,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self.opcode() {
            0 => "nop",
            1 => "read-file-data",
            2 => "read-file-properties",
            4 => "write-file-data",
            5 => "write-file-data-flush",
            6 => "write-file-properties",
            8 => "action-query",
            9 => "break-query",
            10 => "permission-request",
            11 => "verify-checksum",
            16 => "exist-file",
            17 => "create-file",
            18 => "delete-file",
            19 => "restore-file",
            20 => "flush-file",
            23 => "copy-file",
            31 => "execute-file",
            32 => "return-file-data",
            33 => "return-file-properties",
            34 => match self {
                Act::ActionStatus(..) => "action-status",
                Act::IfStatus(_) => "interface-status",
                _ => "interface-final-status",
            },
            35 => "response-tag",
            38 => "tx-status",
            48 => "chunk",
            49 => "logic",
            50 => "forward",
            51 => "indirect-forward",
            52 => "request-tag",
            _ => "extension",
        }
    }
}
