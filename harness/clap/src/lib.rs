//! Stand-in for clap 3.0 beta: option parsing for derive(Clap) structs and enums.
//! FV_SKIP_ARGS leading arguments select the program in the monitor's multi-binary.
pub use clap_derive::Clap;
use std::collections::BTreeMap;

pub struct Opt { pub field: &'static str, pub short: Option<&'static str>, pub long: Option<&'static str>, pub default: Option<&'static str>, pub required: bool, pub flag: bool }
pub enum Shape { Sub(Vec<&'static str>), Opts(Vec<Opt>) }

pub fn usage(m: &str) -> ! { eprintln!("error: {}", m); std::process::exit(2) }

pub trait Clap: Sized {
    fn from_args(args: Vec<String>) -> Self;
    fn parse() -> Self {
        let skip: usize = std::env::var("FV_SKIP_ARGS").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        Self::from_args(std::env::args().skip(1 + skip).collect())
    }
    fn parse_from<I: IntoIterator<Item = T>, T: Into<std::ffi::OsString>>(it: I) -> Self {
        Self::from_args(it.into_iter().skip(1).map(|s| s.into().into_string().unwrap()).collect())
    }
}

/// the values of the options, by field
pub fn options(args: Vec<String>, opts: &[Opt]) -> BTreeMap<&'static str, String> {
    let mut r = BTreeMap::new();
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        let (key, mut val) = match a.find('=') { Some(i) => (a[..i].to_string(), Some(a[i + 1..].to_string())), None => (a.clone(), None) };
        let o = opts.iter().find(|o| o.long.map_or(false, |l| key == format!("--{}", l)) || o.short.map_or(false, |s| key == format!("-{}", s)))
            .unwrap_or_else(|| usage(&format!("Found argument '{}' which wasn't expected", a)));
        if o.flag { val = Some("true".into()); }
        let v = match val { Some(v) => v, None => it.next().unwrap_or_else(|| usage(&format!("'{}' requires a value", a))) };
        if r.insert(o.field, v).is_some() { usage(&format!("'{}' was provided more than once", a)); }
    }
    for o in opts {
        if !r.contains_key(o.field) {
            match o.default { Some(d) => { r.insert(o.field, d.to_string()); } None if o.required => usage(&format!("required argument {} was not provided", o.field)), None => {} }
        }
    }
    r
}
