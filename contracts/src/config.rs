//! C20: configuration sources are layered, looked up and converted faithfully.
use crate::{nondet::*, sys::*};
use kompact::{
    config::{
        ArrayOfValues, BooleanValue, BytesValue, Config, ConfigEntry, ConfigError, ConfigPathError, ConfigValue,
        ConfigValueType, DurationValue, F32Value, IntegerValue, RealValue, StringValue, UsizeValue, parse_config_str,
    },
    prelude::*,
};
use std::{collections::BTreeMap, marker::PhantomData, time::Duration};

/// What a configuration value should be.
#[derive(Clone, Debug, PartialEq)]
enum V {
    S(String),
    I(i64),
    R(f64),
    B(bool),
    A(Vec<V>),
    T(BTreeMap<String, V>),
}
use V::*;

/// The last key can only be reached one step at a time.
const KEYS: [&str; 5] = ["a", "b", "cc", "d-1", "a.b"];

impl V {
    fn merge(&mut self, other: V) {
        match (self, other) {
            (T(a), T(b)) => {
                for (k, v) in b {
                    match a.get_mut(&k) {
                        Some(x) => x.merge(v),
                        None => {
                            a.insert(k, v);
                        }
                    }
                }
            }
            (a, b) => *a = b,
        }
    }
    /// The value as TOML text, written independently of the library.
    fn text(&self) -> String {
        match self {
            S(s) => quote(s),
            I(i) => i.to_string(),
            R(r) if r.is_infinite() => if *r > 0.0 { "inf".into() } else { "-inf".into() },
            R(r) => format!("{r:e}").replace("e", ".0e").replace(".0e", if format!("{r:e}").contains('.') { "e" } else { ".0e" }),
            B(b) => b.to_string(),
            A(vs) => format!("[{}]", vs.iter().map(V::text).collect::<Vec<_>>().join(", ")),
            T(t) => format!("{{ {} }}", t.iter().map(|(k, v)| format!("{} = {}", quote(k), v.text())).collect::<Vec<_>>().join(", ")),
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            S(_) => "string",
            I(_) => "integer",
            R(_) => "float",
            B(_) => "boolean",
            A(_) => "array",
            T(_) => "table",
        }
    }
    /// The whole document, with values at the end of dotted keys.
    fn document(&self) -> String {
        fn lines(pre: &str, t: &BTreeMap<String, V>, out: &mut String) {
            for (k, v) in t {
                let k = format!("{pre}{}", quote(k));
                match v {
                    T(t) if !t.is_empty() => lines(&format!("{k}."), t, out),
                    v => out.push_str(&format!("{k} = {}\n", v.text())),
                }
            }
        }
        let mut o = String::new();
        if let T(t) = self {
            lines("", t, &mut o);
        }
        o
    }
}

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn string<S: Src>(s: &mut S) -> String {
    const C: [char; 16] = ['a', 'B', '7', ' ', '"', '\'', '\\', '\n', '\r', '\t', '\u{0}', '\u{7f}', 'é', '🦀', '#', '='];
    let n = s.upto(5);
    (0..n).map(|_| C[s.upto(15)]).collect()
}
fn real<S: Src>(s: &mut S) -> f64 {
    match s.upto(4) {
        0 => s.u8() as f64,
        1 => -(s.u16() as f64) / 64.0,
        2 => [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, 1e16, 1e-7][s.upto(7)],
        _ => {
            let x = f64::from_bits(s.u64());
            if x.is_nan() { 1.5 } else { x }
        }
    }
}
fn int<S: Src>(s: &mut S) -> i64 {
    match s.upto(3) {
        0 => s.u8() as i64,
        1 => -(s.u16() as i64),
        2 => [0, -1, i64::MAX, i64::MIN][s.upto(3)],
        _ => s.u64() as i64,
    }
}
fn unsigned<S: Src>(s: &mut S) -> u64 {
    match s.upto(4) {
        0 => s.u8() as u64,
        1 => 1u64 << s.upto(63),
        2 => 1000u64.pow(s.upto(6) as u32) * (s.upto(17) as u64),
        3 => u64::MAX - s.u8() as u64,
        _ => s.u64(),
    }
}
fn duration<S: Src>(s: &mut S) -> Duration {
    let secs = match s.upto(4) {
        0 => 0,
        1 => s.upto(200) as u64,
        2 => s.u32() as u64,
        3 => [60, 3600, 86_400, 2_630_016, 31_557_600, 31_557_599][s.upto(5)] * (1 + s.upto(3) as u64),
        _ => s.u64() >> (1 + s.upto(40)),
    };
    let nanos = match s.upto(4) {
        0 => 0,
        1 => s.upto(999) as u32,
        2 => s.upto(999) as u32 * 1_000,
        3 => s.upto(999) as u32 * 1_000_000,
        _ => s.upto(999_999_999) as u32,
    };
    Duration::new(secs, nanos)
}

fn scalar<Q: Src>(s: &mut Q) -> V {
    match s.upto(3) {
        0 => S(string(s)),
        1 => I(int(s)),
        2 => R(real(s)),
        _ => B(s.bool()),
    }
}
fn value<Q: Src>(s: &mut Q, depth: usize) -> V {
    match s.upto(if depth == 0 { 3 } else { 5 }) {
        0 | 1 | 2 | 3 => scalar(s),
        4 => {
            let n = if s.upto(7) == 0 { 11 } else { s.upto(3) };
            A((0..n).map(|_| if s.upto(3) == 0 { value(s, depth - 1) } else { scalar(s) }).collect())
        }
        _ => table(s, depth - 1),
    }
}
fn table<Q: Src>(s: &mut Q, depth: usize) -> V {
    let n = s.upto(3);
    T((0..n).map(|_| (KEYS[s.upto(KEYS.len() - 1)].to_string(), value(s, depth))).collect())
}

/// The value is the one the model has, all the way down.
fn equal(c: &ConfigValue, v: &V) -> bool {
    let scalars = (c.as_string(), c.as_i64(), c.as_f64().map(f64::to_bits), c.as_bool());
    let want = match v {
        S(x) => (Some(x.clone()), None, None, None),
        I(x) => (None, Some(*x), Some((*x as f64).to_bits()), None),
        R(x) => (None, None, Some(x.to_bits()), None),
        B(x) => (None, None, None, Some(*x)),
        _ => (None, None, None, None),
    };
    scalars == want
        && match v {
            A(vs) => c.as_array().is_some_and(|cs| cs.len() == vs.len() && cs.iter().zip(vs).all(|(c, v)| equal(c, v))),
            _ => c.as_array().is_none(),
        }
}

/// What a lookup of `path` should give.
#[derive(Debug, PartialEq)]
enum Found<'a> {
    Here(&'a V),
    Invalid,
    Missing,
    NoTable(String, &'static str),
}
fn find<'a>(root: &'a V, steps: &[&str], dotted: bool) -> Found<'a> {
    let mut v = root;
    for s in steps {
        if dotted && s.is_empty() {
            return Found::Invalid;
        }
        match v {
            T(t) => match t.get(*s) {
                Some(x) => v = x,
                None => return Found::Missing,
            },
            v => return Found::NoTable(s.to_string(), v.kind()),
        }
    }
    Found::Here(v)
}

fn agree(got: Result<&ConfigValue, ConfigError>, want: &Found, path: &str) {
    let ok = match (&got, want) {
        (Ok(c), Found::Here(v)) => equal(c, v),
        (Err(ConfigError::PathError(ConfigPathError::InvalidPath { path: p })), Found::Invalid) => p == path,
        (Err(ConfigError::PathError(ConfigPathError::MissingKey { path: p })), Found::Missing) => p == path,
        (Err(ConfigError::PathError(ConfigPathError::InvalidKeyAccess { path: p, key, value_type })), Found::NoTable(k, t)) => {
            p == path && key == k && value_type == t
        }
        _ => false,
    };
    assert!(ok, "looking up {path:?} gave {got:?}, expected {want:?}");
    if let (Err(ConfigError::PathError(e)), w) = (&got, want) {
        assert_eq!(e.is_missing(), *w == Found::Missing, "is_missing for {path:?}");
    }
}

fn check_all(conf: &Config, model: &V) {
    for a in KEYS {
        agree(conf.get(a).value(), &find(model, &[a], false), a);
        for b in KEYS {
            let (l, path) = (conf.get(a), format!("{a}.{b}"));
            agree(l.get(b).value(), &find(model, &[a, b], false), &path);
            for c in KEYS {
                let m = l.get(b);
                agree(m.get(c).value(), &find(model, &[a, b, c], false), &format!("{path}.{c}"));
            }
        }
    }
}
fn check_paths<Q: Src>(s: &mut Q, conf: &Config, model: &V) {
    for _ in 0..6 {
        let n = 1 + s.upto(3);
        let steps: Vec<&str> = (0..n).map(|_| if s.upto(15) == 0 { "" } else { KEYS[s.upto(3)] }).collect();
        let path = steps.join(".");
        agree(conf.select(&path).value(), &find(model, &steps, true), &path);
    }
}
fn check_arrays(conf: &Config, model: &V) {
    let T(t) = model else { return };
    for (k, v) in t {
        let l = conf.get(k);
        match v {
            A(vs) => {
                assert_eq!(l.as_array().expect("array").len(), vs.len());
                let it = l.array_entries().expect("array");
                assert_eq!(it.len(), vs.len());
                let mut n = 0;
                for (i, e) in it {
                    assert_eq!(i, n, "entries come in order");
                    assert!(equal(e.value().expect("entry"), &vs[i]));
                    assert_eq!(e.to_string(), format!("{k}[{i}]"));
                    n += 1;
                }
                assert_eq!(n, vs.len());
                for i in 0..vs.len() + 2 {
                    let e = l.get_index(i);
                    match (e.value(), vs.get(i)) {
                        (Ok(c), Some(v)) => assert!(equal(c, v)),
                        (Err(ConfigError::PathError(ConfigPathError::MissingIndex { path })), None) => {
                            assert_eq!(path, format!("{k}[{i}]"))
                        }
                        (x, y) => panic!("index {i} of {k} gave {x:?}, expected {y:?}"),
                    };
                }
            }
            v => {
                assert!(l.array_entries().is_err() && l.as_array().is_err());
                match l.get_index(1).value() {
                    Err(ConfigError::PathError(ConfigPathError::InvalidIndexAccess { index: 1, value_type, .. })) => {
                        assert_eq!(value_type, v.kind())
                    }
                    x => panic!("index into {v:?} gave {x:?}"),
                }
            }
        }
    }
}

/// What a TOML document says is what is found, wherever one looks.
pub fn documents_are_found<Q: Src>(s: &mut Q) {
    let model = table(s, 3);
    let text = if s.bool() {
        model.document()
    } else {
        let T(t) = &model else { unreachable!() };
        t.iter().map(|(k, v)| format!("{} = {}\n", quote(k), v.text())).collect()
    };
    let conf = parse_config_str(&text).unwrap_or_else(|e| panic!("{text}: {e}"));
    check_all(&conf, &model);
    check_paths(s, &conf, &model);
    check_arrays(&conf, &model);
}

fn leak(s: &str) -> &'static str {
    // A small set: every path is leaked once.
    use std::{collections::HashSet, sync::Mutex};
    static ALL: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut all = ALL.lock().unwrap_or_else(|e| e.into_inner());
    let all = all.get_or_insert_default();
    match all.get(s) {
        Some(x) => x,
        None => {
            let x: &'static str = Box::leak(s.to_string().into_boxed_str());
            all.insert(x);
            x
        }
    }
}

fn entry<T: ConfigValueType>(key: &str) -> ConfigEntry<T> {
    ConfigEntry { key: leak(key), doc: "", version: "", value_type: PhantomData, default: None, validator: None }
}

fn file(text: &str, n: usize) -> std::path::PathBuf {
    let p = std::env::temp_dir().join(format!("kompact-contract-{}-{n}.toml", std::process::id()));
    std::fs::write(&p, text).expect("a file of this check's own");
    p
}

/// Later sources win key by key; tables are merged; single values go where their key says.
pub fn later_sources_win<Q: Src>(s: &mut Q) {
    let mut model = T(BTreeMap::new());
    let n = 1 + s.upto(4);
    let mut label = None;
    let mut throughput = 50;
    let mut bad = false;
    let mut files = Vec::new();
    let mut steps: Vec<Box<dyn FnOnce(&mut KompactConfig)>> = Vec::new();
    for _ in 0..n {
        match s.upto(9) {
            0..=3 => {
                let t = table(s, 3);
                model.merge(t.clone());
                let text = t.document();
                if s.upto(3) == 0 {
                    let f = file(&text, files.len());
                    files.push(f.clone());
                    steps.push(Box::new(move |c| {
                        c.load_config_file(f);
                    }));
                } else {
                    steps.push(Box::new(move |c| {
                        c.load_config_str(text);
                    }));
                }
            }
            4..=7 => {
                let d = 1 + s.upto(2);
                let path: Vec<&str> = (0..d).map(|_| KEYS[s.upto(3)]).collect();
                let key = path.join(".");
                let v: V;
                macro_rules! set {
                    ($t:ty, $x:expr) => {{
                        let (k, x) = (key.clone(), $x);
                        steps.push(Box::new(move |c| {
                            c.set_config_value(&entry::<$t>(&k), x);
                        }));
                    }};
                }
                match s.upto(5) {
                    0 => {
                        let x = string(s);
                        v = S(x.clone());
                        set!(StringValue, x);
                    }
                    1 => {
                        let x = int(s);
                        v = I(x);
                        set!(IntegerValue, x);
                    }
                    2 => {
                        let x = real(s);
                        v = R(x);
                        set!(RealValue, x);
                    }
                    3 => {
                        let x = s.bool();
                        v = B(x);
                        set!(BooleanValue, x);
                    }
                    4 => {
                        let x = (unsigned(s) >> 1) as usize;
                        v = I(x as i64);
                        set!(UsizeValue, x);
                    }
                    _ => {
                        let x: Vec<i64> = (0..s.upto(3)).map(|_| int(s)).collect();
                        v = A(x.iter().map(|i| I(*i)).collect());
                        set!(ArrayOfValues<IntegerValue>, x);
                    }
                }
                let t = path.iter().rev().fold(v, |v, k| T(BTreeMap::from([(k.to_string(), v)])));
                model.merge(t);
            }
            8 => {
                let l = string(s);
                label = Some(l.clone());
                steps.push(Box::new(move |c| {
                    c.set_config_value(&kompact::config_keys::system::LABEL, l);
                }));
            }
            _ => {
                let t = s.upto(40);
                let as_text = s.bool();
                throughput = t;
                steps.push(Box::new(move |c| {
                    if as_text {
                        c.load_config_str(format!("[kompact]\nruntime.throughput = {t}"));
                    } else {
                        c.set_config_value(&kompact::config_keys::system::THROUGHPUT, t);
                    }
                }));
            }
        }
    }
    if s.upto(9) == 0 {
        bad = true;
        let text = ["kompact.runtime.throughput = \"many\"", "a = [", "kompact.runtime = 3", "kompact.runtime.message-priority = 1.0"][s.upto(3)];
        steps.push(Box::new(move |c| {
            c.load_config_str(text);
        }));
    }
    let sys = Sys::try_build(|c| steps.into_iter().for_each(|f| f(c)));
    for f in files {
        std::fs::remove_file(f).unwrap();
    }
    let Some(sys) = sys else {
        assert!(bad || throughput == 0, "a valid configuration is refused");
        return;
    };
    assert!(!bad && throughput > 0, "an invalid configuration is used");
    let conf = sys.system.config();
    check_all(conf, &model);
    check_paths(s, conf, &model);
    check_arrays(conf, &model);
    assert_eq!(sys.system.throughput(), throughput);
    assert_eq!(sys.system.max_messages(), throughput / 2);
    if let Some(l) = label {
        assert_eq!(conf.read(&kompact::config_keys::system::LABEL), Ok(l));
    }
    sys.end();
}

fn round<T: ConfigValueType>(x: T::Value, same: impl Fn(&T::Value) -> bool, what: &str)
where
    T::Value: std::fmt::Debug,
{
    let shown = format!("{x:?}");
    let text = format!("x = {}\n", T::config_string(x));
    let conf = parse_config_str(&text).unwrap_or_else(|e| panic!("{what} {shown} renders as {text}: {e}"));
    let back = T::from_conf(&conf["x"]);
    assert!(back.as_ref().is_ok_and(|b| same(b)), "{what} {shown} became {back:?} over {text}");
}

/// Writing a value and reading it back gives the same value.
pub fn conversions_round_trip<Q: Src>(s: &mut Q) {
    match s.upto(8) {
        0 => {
            let x = string(s);
            round::<StringValue>(x.clone(), |b| *b == x, "string");
        }
        1 => {
            let x = int(s);
            round::<IntegerValue>(x, |b| *b == x, "integer");
        }
        2 => {
            let x = real(s);
            round::<RealValue>(x, |b| b.to_bits() == x.to_bits(), "real");
        }
        3 => {
            let x = s.bool();
            round::<BooleanValue>(x, |b| *b == x, "boolean");
        }
        4 => {
            let x = unsigned(s);
            round::<BytesValue>(x, |b| *b == x, "bytes");
        }
        5 => {
            let x = duration(s);
            round::<DurationValue>(x, |b| *b == x, "duration");
        }
        6 => {
            let x = (unsigned(s) >> 1) as usize;
            round::<UsizeValue>(x, |b| *b == x, "usize");
        }
        7 => {
            let x = real(s) as f32;
            round::<F32Value>(x, |b| b.to_bits() == x.to_bits(), "f32");
        }
        _ => {
            let n = s.upto(4);
            let x: Vec<Vec<String>> = (0..n).map(|_| (0..s.upto(3)).map(|_| string(s)).collect()).collect();
            round::<ArrayOfValues<ArrayOfValues<StringValue>>>(x.clone(), |b| *b == x, "array");
        }
    }
}

/// What reading should give.
enum Read<X> {
    Value(X),
    Missing,
    Path,
    Convert,
    Invalid,
}

fn read_one<T: ConfigValueType>(
    conf: &Config,
    mut e: ConfigEntry<T>,
    found: &Found,
    convert: impl Fn(&V) -> Option<T::Value>,
    default: fn() -> T::Value,
    valid: fn(&T::Value) -> Result<(), String>,
    with: (bool, bool),
) where
    T::Value: std::fmt::Debug + PartialEq,
{
    e.default = with.0.then_some(default);
    e.validator = with.1.then_some(valid);
    let want = match found {
        Found::Here(v) => match convert(v) {
            None => Read::Convert,
            Some(x) if with.1 && valid(&x).is_err() => Read::Invalid,
            Some(x) => Read::Value(x),
        },
        Found::Missing => Read::Missing,
        _ => Read::Path,
    };
    for or_default in [false, true] {
        let got = if or_default { conf.read_or_default(&e) } else { conf.read(&e) };
        let ok = match (&got, &want) {
            (Ok(x), Read::Value(y)) => x == y,
            (Ok(x), Read::Missing) => or_default && with.0 && *x == default(),
            (Err(ConfigError::PathError(p)), Read::Missing) => !(or_default && with.0) && p.is_missing(),
            (Err(ConfigError::PathError(p)), Read::Path) => !p.is_missing(),
            (Err(ConfigError::ConversionError { path, .. }), Read::Convert) => path.as_deref() == Some(e.key),
            (Err(ConfigError::InvalidValue { path, .. }), Read::Invalid) => path.as_deref() == Some(e.key),
            _ => false,
        };
        assert!(ok, "reading {:?} (default {}, validated {}, or_default {or_default}) gave {got:?}", e.key, with.0, with.1);
    }
}

const BYTES: [(&str, u64); 9] = [("7", 7), ("0B", 0), ("12B", 12), ("3KB", 3000), ("3 KiB", 3072), ("1.5KiB", 1536),
    ("2MB", 2_000_000), ("2MiB", 2 << 20), ("4GiB", 4 << 30)];
const TIMES: [(&str, u64); 8] = [("12ns", 12), ("3us", 3000), ("5ms", 5_000_000), ("7s", 7_000_000_000), ("2min", 120_000_000_000),
    ("1h 1s", 3_601_000_000_000), ("2days", 172_800_000_000_000), ("1s 5ms", 1_005_000_000)];
/// Replaces some texts by ones with a unit.
fn with_units<Q: Src>(s: &mut Q, v: &mut V) {
    match v {
        T(t) => t.values_mut().for_each(|v| with_units(s, v)),
        S(x) => {
            *x = match s.upto(2) {
                0 => BYTES[s.upto(8)].0.into(),
                1 => TIMES[s.upto(7)].0.into(),
                _ => ["", "s", "many", "7 cats", "B", "-1s", "-4KB"][s.upto(6)].into(),
            }
        }
        _ => (),
    }
}

/// Typed entries give the value, the default only if nothing is there, and refuse the rest.
pub fn entries_read_what_is_there<Q: Src>(s: &mut Q) {
    let mut model = table(s, 2);
    with_units(s, &mut model);
    let conf = parse_config_str(&model.document()).expect("document");
    for _ in 0..4 {
        let n = 1 + s.upto(2);
        let steps: Vec<&str> = (0..n).map(|_| if s.upto(20) == 0 { "" } else { KEYS[s.upto(3)] }).collect();
        let key = steps.join(".");
        let found = find(&model, &steps, true);
        let with = (s.bool(), s.bool());
        match s.upto(8) {
            0 => read_one::<StringValue>(&conf, entry(&key), &found, |v| if let S(x) = v { Some(x.clone()) } else { None },
                || "dflt".into(), |x| if x.len() < 2 { Ok(()) } else { Err("long".into()) }, with),
            1 => read_one::<IntegerValue>(&conf, entry(&key), &found, |v| if let I(x) = v { Some(*x) } else { None },
                || -17, |x| if *x >= 0 { Ok(()) } else { Err("negative".into()) }, with),
            2 => read_one::<UsizeValue>(&conf, entry(&key), &found, |v| if let I(x) = v { usize::try_from(*x).ok() } else { None },
                || 17, |x| if *x > 100 { Ok(()) } else { Err("small".into()) }, with),
            3 => read_one::<BooleanValue>(&conf, entry(&key), &found, |v| if let B(x) = v { Some(*x) } else { None },
                || true, |x| if *x { Ok(()) } else { Err("off".into()) }, with),
            4 => read_one::<ArrayOfValues<IntegerValue>>(&conf, entry(&key), &found,
                |v| if let A(vs) = v { vs.iter().map(|v| if let I(x) = v { Some(*x) } else { None }).collect() } else { None },
                || vec![3, 4], |x| if x.len() < 2 { Ok(()) } else { Err("long".into()) }, with),
            5 => read_one::<ArrayOfValues<StringValue>>(&conf, entry(&key), &found,
                |v| if let A(vs) = v { vs.iter().map(|v| if let S(x) = v { Some(x.clone()) } else { None }).collect() } else { None },
                Vec::new, |x| if x.is_empty() { Ok(()) } else { Err("some".into()) }, with),
            6 => read_one::<BytesValue>(&conf, entry(&key), &found,
                |v| match v { I(x) => u64::try_from(*x).ok(), S(x) => BYTES.iter().find(|b| b.0 == x).map(|b| b.1), _ => None },
                || 5, |x| if *x < 2000 { Ok(()) } else { Err("big".into()) }, with),
            7 => read_one::<DurationValue>(&conf, entry(&key), &found,
                |v| if let S(x) = v { TIMES.iter().find(|b| b.0 == x).map(|b| Duration::from_nanos(b.1)) } else { None },
                || Duration::from_secs(7), |x| if x.as_secs() > 0 { Ok(()) } else { Err("short".into()) }, with),
            8 => read_one::<F32Value>(&conf, entry(&key), &found,
                |v| match v { I(x) => Some(*x as f64 as f32), R(x) => Some(*x as f32), _ => None },
                || 0.5, |x| if *x < 1.0 { Ok(()) } else { Err("big".into()) }, with),
            _ => read_one::<RealValue>(&conf, entry(&key), &found,
                |v| match v { I(x) => Some(*x as f64), R(x) => Some(*x), _ => None },
                || 0.25, |x| if *x > 1.0 { Ok(()) } else { Err("small".into()) }, with),
        }
    }
}
