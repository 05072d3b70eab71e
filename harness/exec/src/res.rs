//! Results of operations, as recorded in the history.
use bson::{doc, Bson, Document};
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok,
    /// commit of a transaction in which an operation failed before: rolled back by the client
    RolledBack,
    Id(Bson),
    Ids(Vec<(i64, Bson)>),
    Upd(i64, i64),
    Del(i64),
    Docs(Vec<Document>),
    /// documents of one cursor step, and whether the cursor ended
    Next(Vec<Document>, bool),
    Cnt(i64),
    Names(Vec<String>),
    Sweep(Vec<Vec<Document>>),
    Err(String, String),
    /// not executed: no transaction, or an operation of this transaction failed before
    Skip,
}
fn docs(v: &[Document]) -> Bson { Bson::Array(v.iter().map(|d| Bson::Document(d.clone())).collect()) }
fn undocs(b: &Bson) -> Vec<Document> { b.as_array().map(|a| a.iter().filter_map(|x| x.as_document().cloned()).collect()).unwrap_or_default() }
impl Res {
    pub fn to_doc(&self) -> Document {
        match self {
            Res::Ok => doc! {"r": "ok"},
            Res::RolledBack => doc! {"r": "rb"},
            Res::Id(b) => doc! {"r": "id", "v": b.clone()},
            Res::Ids(v) => doc! {"r": "ids", "v": v.iter().map(|(k, b)| Bson::Array(vec![Bson::Int64(*k), b.clone()])).collect::<Vec<_>>()},
            Res::Upd(a, b) => doc! {"r": "upd", "m": *a, "n": *b},
            Res::Del(a) => doc! {"r": "del", "m": *a},
            Res::Docs(v) => doc! {"r": "docs", "v": docs(v)},
            Res::Next(v, e) => doc! {"r": "next", "v": docs(v), "e": *e},
            Res::Cnt(a) => doc! {"r": "cnt", "m": *a},
            Res::Names(v) => doc! {"r": "names", "v": v.clone()},
            Res::Sweep(v) => doc! {"r": "sweep", "v": v.iter().map(|x| docs(x)).collect::<Vec<_>>()},
            Res::Err(c, m) => doc! {"r": "err", "c": c, "m": m},
            Res::Skip => doc! {"r": "skip"},
        }
    }
    pub fn from_doc(d: &Document) -> Res {
        let i = |k: &str| d.get_i64(k).unwrap_or(-1);
        match d.get_str("r").unwrap_or("") {
            "ok" => Res::Ok,
            "rb" => Res::RolledBack,
            "id" => Res::Id(d.get("v").cloned().unwrap_or(Bson::Null)),
            "ids" => Res::Ids(d.get_array("v").map(|a| a.iter().map(|x| { let a = x.as_array().unwrap(); (a[0].as_i64().unwrap(), a[1].clone()) }).collect()).unwrap_or_default()),
            "upd" => Res::Upd(i("m"), i("n")),
            "del" => Res::Del(i("m")),
            "docs" => Res::Docs(undocs(&d["v"])),
            "next" => Res::Next(undocs(&d["v"]), d.get_bool("e").unwrap_or(false)),
            "cnt" => Res::Cnt(i("m")),
            "names" => Res::Names(d.get_array("v").map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default()),
            "sweep" => Res::Sweep(d.get_array("v").map(|a| a.iter().map(undocs).collect()).unwrap_or_default()),
            "err" => Res::Err(d.get_str("c").unwrap_or("").into(), d.get_str("m").unwrap_or("").into()),
            _ => Res::Skip,
        }
    }
    pub fn is_err(&self) -> bool { matches!(self, Res::Err(..)) }
    pub fn err_class(&self) -> &str { match self { Res::Err(c, _) => c, _ => "" } }
    pub fn brief(&self) -> String {
        match self {
            Res::Docs(v) => format!("{} docs {}", v.len(), bdocs(v)),
            Res::Next(v, e) => format!("{} docs{} {}", v.len(), if *e { " (end)" } else { "" }, bdocs(v)),
            Res::Sweep(v) => format!("sweep {}", v.iter().map(|x| format!("[{}]", bdocs(x))).collect::<Vec<_>>().join(" ")),
            x => format!("{x:?}"),
        }
    }
}
pub fn bdocs(v: &[Document]) -> String {
    let mut s = String::new();
    for d in v.iter().take(12) {
        let mut d = d.clone();
        if let Some(p) = d.get("p").and_then(|p| p.as_str().map(|x| x.len())) { d.insert("p", format!("({p} bytes)")); }
        s += &format!("{} ", d);
    }
    if v.len() > 12 { s += "..."; }
    s
}
