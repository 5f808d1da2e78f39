//! Library operations as data: run one, and read and write it as text. Also
//! compiled into platform/.
use crate::mon::{guarded, hex, unhex};
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, SecretKey, SigningKey, VerifyingKey};

#[derive(Clone, Debug)]
pub struct Op {
    pub kind: &'static str,
    pub a: Vec<u8>,
    pub b: Vec<u8>,
    pub m: Vec<u8>,
}
pub const KINDS: [&str; 17] = [
    "derive", "sign", "sign_private", "sign_nonce", "to_secret", "priv_pub", "sec_pub", "verify", "verify_err", "hex_key", "hex_sig", "hex_msg", "object", "object_hex",
    "deserialize", "serialize", "from_bytes",
];
pub fn k57(v: &[u8]) -> [u8; 57] {
    let mut k = [0u8; 57];
    let n = v.len().min(57);
    k[..n].copy_from_slice(&v[..n]);
    k
}
/// run one operation; the result (or the fact that it panicked) as bytes
pub fn eval(op: &Op) -> Vec<u8> {
    let r = guarded(|| -> Vec<u8> {
        let k = k57(&op.a);
        let n = k57(&op.b);
        match op.kind {
            "derive" => g::ed448_derive_public(&k).to_vec(),
            "sign" => g::ed448_sign(&k, &op.m).to_vec(),
            "sign_private" => g::sign_by_private(&k, &op.m).to_vec(),
            "sign_nonce" => g::sign_with_secret_and_nonce(&k, &n, &op.m).to_vec(),
            "to_secret" => g::private_to_secret(&k).to_vec(),
            "priv_pub" => g::private_to_public(&k).to_vec(),
            "sec_pub" => g::secret_to_public(&k).to_vec(),
            "verify" => format!("{:?}", g::ed448_verify(&op.a, &op.b, &op.m)).into_bytes(),
            "verify_err" => format!("{:?}", g::ed448_verify_with_error(&op.a, &op.b, &op.m)).into_bytes(),
            "hex_key" => g::hex_to_private_key(&String::from_utf8_lossy(&op.a)).to_vec(),
            "hex_sig" => g::hex_to_signature(&String::from_utf8_lossy(&op.a)).to_vec(),
            "hex_msg" => g::hex_to_message_hash(&String::from_utf8_lossy(&op.a)).to_vec(),
            "object" => {
                let s = SigningKey::from_slice(&op.a);
                let mut v = s.to_bytes().to_vec();
                v.extend(s.verifying_key().as_bytes());
                match s.sign_prehash(&op.m) {
                    Ok(x) => v.extend(x.as_slice()),
                    Err(e) => v.extend(format!("{:?}", e).bytes()),
                }
                v
            }
            "object_hex" => {
                let s = SigningKey::from(SecretKey::from_str(&hex(&op.a)));
                let c = s; // copies stay independent
                let mut v = c.verifying_key().as_bytes().to_vec();
                if let Ok(x) = s.sign_prehash(&op.m) {
                    v.extend(x.as_slice());
                }
                v.push((s == c) as u8);
                v
            }
            "deserialize" => {
                let t = String::from_utf8_lossy(&op.a).to_string();
                let a = serde_json::from_str::<SigningKey>(&t).map(|k| k.verifying_key().as_bytes().to_vec()).map_err(|_| ());
                let b = serde_json::from_str::<VerifyingKey>(&t).map(|k| k.as_bytes().to_vec()).map_err(|_| ());
                let c = serde_json::from_str::<SecretKey>(&t).map(|k| format!("{:?}", k)).map_err(|_| ());
                format!("{:?}{:?}{:?}", a, b, c).into_bytes()
            }
            "serialize" => {
                let a = serde_json::to_string(&SigningKey::from_slice(&k)).unwrap_or_default();
                let b = serde_json::to_string(&VerifyingKey::from_bytes(&k)).unwrap_or_default();
                format!("{}{}", a, b).into_bytes()
            }
            _ => match SigningKey::from_bytes(&op.a) {
                Ok(k) => k.verifying_key().as_bytes().to_vec(),
                Err(e) => format!("{:?}", e).into_bytes(),
            },
        }
    });
    match r {
        Ok(v) => v,
        Err(_) => b"<panicked>".to_vec(),
    }
}
pub fn op_text(op: &Op) -> String {
    format!("{} {} {} {}", op.kind, hexd(&op.a), hexd(&op.b), hexd(&op.m))
}
pub fn hexd(b: &[u8]) -> String {
    if b.is_empty() {
        "-".into()
    } else {
        hex(b)
    }
}
pub fn op_parse(s: &str) -> Option<Op> {
    let f: Vec<&str> = s.split_whitespace().collect();
    if f.len() != 4 {
        return None;
    }
    let u = |x: &str| if x == "-" { vec![] } else { unhex(x) };
    Some(Op { kind: KINDS.iter().find(|k| **k == f[0])?, a: u(f[1]), b: u(f[2]), m: u(f[3]) })
}
