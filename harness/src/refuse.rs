//! C22: what is refused is not repeated. Every way to refuse key text or key
//! bytes is driven with random material; panic messages and errors are searched
//! for it.
use crate::gen;
use crate::mon::{guarded, hex, Case, Mon, Plan::*, Rng};
use libgoldilocks::errors::LibgoldilockErrors as E;
use libgoldilocks::goldilocks as g;
use libgoldilocks::{SecretKey, SigningKey, VerifyingKey};
use serde::de::value::{BytesDeserializer, Error as VE, SeqDeserializer, StrDeserializer};
use serde::Deserialize;

const RUN: usize = 8;
/// a part of the material that the message contains, if any: eight characters of
/// the text, four bytes as hex digits or numbers
fn disclosed(message: &str, text: &str, bytes: &[u8], dict: &gen::Dict) -> Option<String> {
    // words that the workload takes from the code's own literals are no material
    let words = dict.strs.iter().map(|w| String::from_utf8_lossy(w).to_lowercase() + "\n").collect::<String>();
    let low = message.to_lowercase();
    let chars: Vec<char> = text.to_lowercase().chars().collect();
    for w in chars.windows(RUN) {
        let s: String = w.iter().collect();
        if low.contains(&s) && !words.contains(&s) {
            return Some(s);
        }
    }
    // without separators: "0a 1b 2c", "0x0a, 0x1b", [0a, 1b]
    let packed: String = low.replace("0x", "").chars().filter(|c| c.is_ascii_hexdigit()).collect();
    let digits: String = low.chars().map(|c| if c.is_ascii_digit() { c } else { ' ' }).collect();
    let numbers: Vec<u64> = digits.split_whitespace().filter_map(|n| n.parse().ok()).collect();
    for w in bytes.windows(4) {
        let h = hex(w);
        if (low.contains(&h) || packed.contains(&h)) && !words.contains(&h) {
            return Some(h);
        }
        if numbers.windows(4).any(|n| n.iter().zip(w).all(|(a, b)| *a == *b as u64)) {
            return Some(format!("{:?}", w));
        }
    }
    None
}
fn chain(e: &dyn std::error::Error) -> String {
    let mut s = format!("{} {:?}", e, e);
    let mut x = e.source();
    while let Some(y) = x {
        s += &format!(" {} {:?}", y, y);
        x = y.source();
    }
    s
}
/// Some(message) if the operation refuses, None if it returns a value
type Route = (&'static str, fn(&str, &[u8]) -> Option<String>);
fn said<T>(r: Result<T, String>) -> Option<String> {
    r.err()
}
fn err<T, X: std::error::Error>(r: Result<Result<T, X>, String>) -> Option<String> {
    match r {
        Err(panic) => Some(panic),
        Ok(Err(e)) => Some(chain(&e)),
        Ok(Ok(_)) => None,
    }
}
fn doc(t: &str) -> String {
    serde_json::to_string(t).unwrap_or_default()
}
const ROUTES: [Route; 26] = [
    ("hex_to_private_key", |t, _| said(guarded(|| g::hex_to_private_key(t)))),
    ("hex_to_signature", |t, _| said(guarded(|| g::hex_to_signature(t)))),
    ("hex_to_message_hash", |t, _| said(guarded(|| g::hex_to_message_hash(t)))),
    ("SecretKey::from_str", |t, _| said(guarded(|| SecretKey::from_str(t)))),
    ("SigningKey::from_str", |t, _| said(guarded(|| SigningKey::from_str(t)))),
    ("VerifyingKey::from_str", |t, _| said(guarded(|| VerifyingKey::from_str(t)))),
    ("SecretKey::from_bytes", |_, b| said(guarded(|| SecretKey::from_bytes(b)))),
    ("VerifyingKey::from_bytes", |_, b| said(guarded(|| VerifyingKey::from_bytes(b)))),
    ("SigningKey::from_slice", |_, b| said(guarded(|| SigningKey::from_slice(b)))),
    ("SigningKey::from_bytes", |_, b| err(guarded(|| SigningKey::from_bytes(b)))),
    ("json text to SigningKey", |t, _| err(guarded(|| serde_json::from_str::<SigningKey>(&doc(t))))),
    ("json text to SecretKey", |t, _| err(guarded(|| serde_json::from_str::<SecretKey>(&doc(t))))),
    ("json text to VerifyingKey", |t, _| err(guarded(|| serde_json::from_str::<VerifyingKey>(&doc(t))))),
    ("json stream to SigningKey", |t, _| err(guarded(|| serde_json::from_reader::<_, SigningKey>(doc(t).as_bytes())))),
    ("json stream to SecretKey", |t, _| err(guarded(|| serde_json::from_reader::<_, SecretKey>(doc(t).as_bytes())))),
    ("json value to SigningKey", |t, _| err(guarded(|| serde_json::from_value::<SigningKey>(serde_json::json!(t))))),
    ("json value to SecretKey", |t, _| err(guarded(|| serde_json::from_value::<SecretKey>(serde_json::json!(t))))),
    ("json object to SigningKey", |t, _| err(guarded(|| serde_json::from_value::<SigningKey>(serde_json::json!({ "key": t }))))),
    ("json array to SecretKey", |_, b| err(guarded(|| serde_json::from_value::<SecretKey>(serde_json::json!(b))))),
    ("json array to SigningKey", |_, b| err(guarded(|| serde_json::from_str::<SigningKey>(&serde_json::json!(b).to_string())))),
    ("unquoted text to SigningKey", |t, _| err(guarded(|| serde_json::from_str::<SigningKey>(&format!("x{}", t))))),
    ("str to SigningKey", |t, _| err(guarded(|| SigningKey::deserialize(StrDeserializer::<VE>::new(t))))),
    ("byte string to SecretKey", |_, b| err(guarded(|| SecretKey::deserialize(BytesDeserializer::<VE>::new(b))))),
    ("sequence to SigningKey", |_, b| err(guarded(|| SigningKey::deserialize(SeqDeserializer::<_, VE>::new(b.iter().copied()))))),
    ("binary to SecretKey", |_, b| err(guarded(|| bincode::deserialize::<SecretKey>(b)))),
    ("binary to SigningKey", |t, _| err(guarded(|| bincode::deserialize::<SigningKey>(&bincode::serialize(t).unwrap_or_default())))),
];
const DEFECTS: usize = 22;
/// key text and bytes with one defect
fn material(d: usize, n: usize, r: &mut Rng, dict: &gen::Dict) -> (String, Vec<u8>) {
    let b = r.vec(n);
    let h = match r.below(3) {
        0 => hex(&b).to_uppercase(),
        _ => hex(&b),
    };
    let p = r.below(2 * n);
    let mut s = h.clone();
    let bytes = match d % 6 {
        0 => b[..n - 1].to_vec(),
        1 => {
            let mut v = b.clone();
            v.push(7);
            v
        }
        2 => b[..n / 2].to_vec(),
        3 => [&b[..], &b[..]].concat(),
        4 => b[..r.below(n)].to_vec(),
        _ => {
            let m = n + r.range(1, 200);
            let mut v = b.clone();
            v.resize(m, 0x33);
            v
        }
    };
    match d {
        0 => s.truncate(2 * n - 1),
        1 => s.truncate(2 * n - 2),
        2 => s.push('0'),
        3 => s.push_str("00"),
        4 => s.truncate(p),
        5 => s.push_str(&h),
        6 => s.replace_range(p..p + 1, *r.pick(&["g", "z", " ", "-", "_", "G", "x", ":", "\"", "\\", "\0", "\n", "{", "}"])),
        7 => s.insert_str(0, "0x"),
        8 => s.replace_range(0..2, "0x"),
        9 => s.push('\n'),
        10 => s.insert(0, ' '),
        11 => s.replace_range(p / 2 * 2..p / 2 * 2 + 2, "é"),
        12 => s.replace_range(2 * n - 1.., "O"),
        13 => s.replace_range(..1, "l"),
        14 => s = format!("\"{}\"", h),
        15 => s = h.as_bytes().chunks(8).map(|c| String::from_utf8_lossy(c).to_string()).collect::<Vec<_>>().join(":"),
        16 => s = h.chars().rev().collect::<String>() + "q",
        17 => s.push_str(&"5".repeat(r.range(1, 4000))),
        18 => s = format!("ed448:{}", h),
        19 => s = h.replace(|c: char| c.is_ascii_digit(), "#"),
        20 => {
            if let Some(w) = dict.strs.iter().filter_map(|w| std::str::from_utf8(w).ok()).nth(r.below(dict.strs.len().max(1))) {
                s.insert_str(p.min(s.len()), w);
            } else {
                s.push('~');
            }
        }
        _ => s = format!("{}{}", &h[p..], &h[..p]) + "!",
    }
    (s, bytes)
}
fn case(c: &mut Case, route: usize, defect: usize) {
    let n = *c.rng.pick(&[57usize, 57, 57, 114, 32]);
    let n = match route {
        1 => 114,
        2 => 32,
        0 | 3..=16 => 57,
        _ => n,
    };
    let (text, bytes) = material(defect, n, &mut c.rng, &c.mon.dict);
    let (name, f) = ROUTES[route];
    c.checked(&[name.as_bytes(), text.as_bytes(), &bytes]);
    let Some(message) = f(&text, &bytes) else {
        c.class("accepted"); // C09, C10 and C17 judge that
        return;
    };
    c.class(name);
    // what the route was given: text, or bytes (and text that encodes them)
    let from_text: Vec<u8> = (0..text.len() / 2).map_while(|i| text.get(2 * i..2 * i + 2).and_then(|x| u8::from_str_radix(x, 16).ok())).collect();
    let found = disclosed(&message, &text, &from_text, &c.mon.dict).or_else(|| disclosed(&message, "", &bytes, &c.mon.dict));
    if let Some(part) = found {
        c.fail(format!("{} repeats what it refuses", name), &[("text given", text.clone()), ("bytes given", hex(&bytes)), ("message", message.clone()), ("repeated", part)]);
    }
    if name == "SigningKey::from_bytes" {
        if let Ok(Err(e)) = guarded(|| SigningKey::from_bytes(&bytes)) {
            if !matches!(e, E::InvalidPrivKeyLengthErrro(m) if m == bytes.len()) || !e.to_string().contains(&bytes.len().to_string()) {
                c.fail("the length error does not state the length given", &[("bytes given", hex(&bytes)), ("message", chain(&e))]);
            }
        }
    }
    c.sample(|| serde_json::json!({"route": name, "text": text.chars().take(130).collect::<String>(), "message": message}));
}
pub fn c22(mon: &Mon) {
    let all = (ROUTES.len() * DEFECTS) as u64;
    mon.stage("every_route_every_defect", All(all * 6), |c| {
        let i = (c.idx % all) as usize;
        case(c, i / DEFECTS, i % DEFECTS);
    });
    let near = 300u64;
    mon.stage("every_length", All(near), |c| {
        // byte strings and texts of every length
        let n = c.idx as usize;
        let b = c.rng.vec(n);
        let t = hex(&b);
        let t = &t[..n];
        for (name, f) in ROUTES {
            c.checked(&[name.as_bytes(), &b]);
            let Some(message) = f(t, &b) else { continue };
            c.class(name);
            if let Some(part) = disclosed(&message, t, &b, &c.mon.dict) {
                c.fail(format!("{} repeats what it refuses", name), &[("text given", t.to_string()), ("bytes given", hex(&b)), ("message", message), ("repeated", part)]);
                return;
            }
        }
    });
    mon.stage("mixed", Share(1.0, 2000), |c| {
        let (r, d) = (c.rng.below(ROUTES.len()), c.rng.below(DEFECTS));
        case(c, r, d);
    });
}
