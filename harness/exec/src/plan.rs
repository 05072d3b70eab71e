//! A plan is one simulated execution, completely: configuration, schedule seeds or explicit deviations, faults,
//! crashes and the operations of every client.  A plan file is a replay file.
use bson::{Bson, Document};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// A document in canonical extended JSON.
#[derive(Clone, Debug, PartialEq)]
pub struct D(pub Document);
#[derive(Clone, Debug, PartialEq)]
pub struct B(pub Bson);
impl Serialize for D { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { Bson::Document(self.0.clone()).into_canonical_extjson().serialize(s) } }
impl Serialize for B { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.clone().into_canonical_extjson().serialize(s) } }
impl<'de> Deserialize<'de> for B {
    fn deserialize<X: Deserializer<'de>>(d: X) -> Result<B, X::Error> {
        let v = serde_json::Value::deserialize(d)?;
        Bson::try_from(v).map(B).map_err(serde::de::Error::custom)
    }
}
impl<'de> Deserialize<'de> for D {
    fn deserialize<X: Deserializer<'de>>(d: X) -> Result<D, X::Error> {
        match B::deserialize(d)?.0 { Bson::Document(d) => Ok(D(d)), x => Err(serde::de::Error::custom(format!("not a document: {x}"))) }
    }
}
fn is0(x: &u32) -> bool { *x == 0 }
fn isf(x: &bool) -> bool { !*x }

/// t: transaction slot of the client (0: outside of a transaction).  h: database handle slot (0: the default handle).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "op", rename_all = "snake_case")]
pub enum Op {
    Insert { c: String, #[serde(default, skip_serializing_if = "is0")] t: u32, d: D },
    InsertMany { c: String, #[serde(default, skip_serializing_if = "is0")] t: u32, ds: Vec<D> },
    Update { c: String, #[serde(default, skip_serializing_if = "is0")] t: u32, q: D, u: D, #[serde(default, skip_serializing_if = "isf")] many: bool, #[serde(default, skip_serializing_if = "isf")] upsert: bool },
    Delete { c: String, #[serde(default, skip_serializing_if = "is0")] t: u32, q: D, #[serde(default, skip_serializing_if = "isf")] many: bool },
    Find { c: String, #[serde(default, skip_serializing_if = "is0")] t: u32, q: D, #[serde(default, skip_serializing_if = "Option::is_none")] sort: Option<D>, #[serde(default, skip_serializing_if = "Option::is_none")] skip: Option<u64>, #[serde(default, skip_serializing_if = "Option::is_none")] limit: Option<u64> },
    FindOne { c: String, #[serde(default, skip_serializing_if = "is0")] t: u32, q: D },
    /// read into a type that not every document has
    Typed { c: String, #[serde(default, skip_serializing_if = "is0")] t: u32, q: D },
    Count { c: String, #[serde(default, skip_serializing_if = "is0")] t: u32 },
    Agg { c: String, #[serde(default, skip_serializing_if = "is0")] t: u32, p: Vec<D> },
    /// equality queries for every value of a field
    Sweep { c: String, #[serde(default, skip_serializing_if = "is0")] t: u32, f: String, vs: Vec<B> },
    CreateCol { c: String },
    List {},
    DropCol { c: String, #[serde(default, skip_serializing_if = "is0")] t: u32 },
    CreateIndex { c: String, #[serde(default, skip_serializing_if = "is0")] t: u32, key: String, #[serde(default, skip_serializing_if = "isf")] unique: bool, #[serde(default, skip_serializing_if = "Option::is_none")] name: Option<String> },
    DropIndex { c: String, #[serde(default, skip_serializing_if = "is0")] t: u32, name: String },
    Begin { t: u32 },
    Commit { t: u32 },
    Rollback { t: u32 },
    /// drop the transaction without commit or rollback
    Abandon { t: u32 },
    CurOpen { cur: u32, c: String, #[serde(default, skip_serializing_if = "is0")] t: u32, q: D, #[serde(default, skip_serializing_if = "Option::is_none")] sort: Option<D> },
    CurNext { cur: u32, n: u32 },
    CurClose { cur: u32 },
    Sleep { us: u32 },
    /// lifecycle
    Open { h: u32 },
    CloneDb { h: u32, to: u32 },
    DropDb { h: u32 },
    GetCol { h: u32, k: u32, c: String },
    ColInsert { k: u32, d: D },
    ColFind { k: u32, q: D },
    HInsert { h: u32, c: String, d: D },
    HFind { h: u32, c: String, q: D },
    /// server only: a command as it is; expect: "ok", "err" or "any"
    Raw { d: D, expect: String },
    /// server only: the requests of the next n operations are sent before any of their replies is read
    Pipe { n: u32 },
    /// server only: something that is not a well-formed request, on a connection of its own
    Bad { kind: u32, seed: u64 },
    /// server only: a connection of its own sends an insert of one document, cut off after `at` permille of its bytes (1000: complete), and goes away
    Cut { c: String, d: D, at: u32, how: u32 },
}
impl Op {
    pub fn t(&self) -> u32 {
        use Op::*;
        match self {
            Insert { t, .. } | InsertMany { t, .. } | Update { t, .. } | Delete { t, .. } | Find { t, .. } | FindOne { t, .. } | Typed { t, .. } | Count { t, .. } | Agg { t, .. }
            | Sweep { t, .. } | DropCol { t, .. } | CreateIndex { t, .. } | DropIndex { t, .. } | Begin { t } | Commit { t } | Rollback { t } | Abandon { t } | CurOpen { t, .. } => *t,
            _ => 0,
        }
    }
    pub fn coll(&self) -> Option<&str> {
        use Op::*;
        match self {
            Insert { c, .. } | InsertMany { c, .. } | Update { c, .. } | Delete { c, .. } | Find { c, .. } | FindOne { c, .. } | Typed { c, .. } | Count { c, .. } | Agg { c, .. }
            | Sweep { c, .. } | CreateCol { c } | DropCol { c, .. } | CreateIndex { c, .. } | DropIndex { c, .. } | CurOpen { c, .. } => Some(c),
            _ => None,
        }
    }
    pub fn is_write(&self) -> bool {
        use Op::*;
        matches!(self, Insert { .. } | InsertMany { .. } | Update { .. } | Delete { .. } | CreateCol { .. } | DropCol { .. } | CreateIndex { .. } | DropIndex { .. })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultP { pub phase: u32, pub from: u32, pub to: u32, pub opmask: u32, pub pathmask: u32, pub kind: u32, #[serde(default)] pub arg: u32, pub ppm: u32, #[serde(default)] pub max: u32 }

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Inc {
    #[serde(default, skip_serializing_if = "Vec::is_empty")] pub setup: Vec<Op>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")] pub clients: Vec<Vec<Op>>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")] pub post: Vec<Op>,
    /// no default handle: the operations open and drop handles themselves
    #[serde(default, skip_serializing_if = "isf")] pub manual: bool,
    /// close the database in the end (otherwise the process is killed after its last operation)
    #[serde(default)] pub close: bool,
    #[serde(default, skip_serializing_if = "Vec::is_empty")] pub faults: Vec<FaultP>,
    #[serde(default)] pub step_crash: u64,
    #[serde(default)] pub step_crash_phase: u32,
    /// what the crash (or kill) at the end does to unsynced data: 0 process kill, 1 power loss
    #[serde(default)] pub power: u32,
    #[serde(default)] pub power_mode: u32,
    #[serde(default)] pub power_seed: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub seed_sched: u64, pub seed_io: u64, pub seed_entropy: u64,
    pub policy: u32, pub ppm_api: u32, pub ppm_int: u32, pub pct_depth: u32, pub pct_len: u32, #[serde(default)] pub ppm_edge: u32,
    #[serde(default)] pub clock_mode: u32,
    #[serde(default)] pub small: u32,
    #[serde(default)] pub nocache: u32,
    pub ncpu: u32, pub io_lat_us: u32, pub max_steps: u64,
    #[serde(default)] pub net_frag: u32,
    #[serde(default)] pub net_delay_us: u32,
    /// no single allocation of more than that
    #[serde(default)] pub mem_max_mb: u32, #[serde(default)] pub ppm_stall: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub profile: String,
    pub seed: u64,
    pub cfg: Cfg,
    pub incs: Vec<Inc>,
    /// which oracles judge the run
    pub oracle: Vec<String>,
    /// explicit schedule: (incarnation << 20 | thread, its scheduling point, blocks of instrumented code after it, thread to run)
    #[serde(default, skip_serializing_if = "Option::is_none")] pub dev: Option<Vec<(u32, u32, u32, u32)>>,
    /// free notes of the generator for the oracles
    #[serde(default, skip_serializing_if = "serde_json::Map::is_empty")] pub note: serde_json::Map<String, serde_json::Value>,
}
