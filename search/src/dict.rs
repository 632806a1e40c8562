//! Words and numbers taken from the sources under test, and near misses of them.
use crate::util::Rng;
use std::sync::OnceLock;

struct Dict {
    words: Vec<String>,
    nums: Vec<u64>,
    groups: Vec<Vec<String>>,
}
static DICT: OnceLock<Dict> = OnceLock::new();

const WORDS: [&str; 60] = [
    "nonce", "spec_version", "spec_name", "tx_version", "transaction_version", "Balance", "BalanceOf<T>", "BalanceOf<T, I>",
    "DepositBalance", "ExtendedBalance", "PalletBalanceOf<T>", "T::Balance", "ecdsa::Signature", "ed25519::Signature", "sr25519::Signature",
    "AccountId32", "Call", "RuntimeCall", "Era", "Event", "RuntimeEvent", "AccountId20", "H160", "H256", "H512", "MultiSignature", "Perbill",
    "Percent", "Permill", "Perquintill", "PerU16", "Public", "Signature", "sp_core", "ed25519", "sr25519", "ecdsa", "sp_runtime", "generic",
    "unchecked_extrinsic", "UncheckedExtrinsic", "CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckMortality", "CheckNonce",
    "ChargeTransactionPayment", "ChargeAssetTxPayment", "Address", "Extra", "System", "Version", "Balances", "Staking", "Lsb0", "Msb0", "westend",
    "app", "crypto", "primitive_types",
];
const NUMS: [u64; 14] = [8, 16, 32, 64, 127, 128, 255, 256, 1024, 4096, 16384, 32768, 65535, 65536];

fn scan(text: &str, d: &mut Dict) {
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut group: Vec<String> = vec![];
    while i < b.len() {
        let c = b[i];
        if c != '"' && c != ',' && !c.is_whitespace() && !group.is_empty() {
            if group.len() > 1 {
                d.groups.push(group.clone())
            }
            group.clear()
        }
        if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1
            }
        } else if c == '/' && b.get(i + 1) == Some(&'*') {
            while i < b.len() && !(b[i] == '*' && b.get(i + 1) == Some(&'/')) {
                i += 1
            }
            i += 2
        } else if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                    match b.get(i) {
                        Some('n') => s.push('\n'),
                        Some('0') => s.push('\0'),
                        Some('u') => {
                            let h: String = b[i + 2..].iter().take(6).take_while(|x| x.is_ascii_hexdigit()).collect();
                            if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                s.push(x)
                            }
                            i += h.len() + 2
                        }
                        Some(x) => s.push(*x),
                        None => {}
                    }
                } else {
                    s.push(b[i])
                }
                i += 1
            }
            i += 1;
            if s.len() <= 40 && !s.contains('{') && !s.contains(". ") {
                group.push(s.clone());
                d.words.push(s)
            }
        } else if c == '\'' && b.get(i + 1) == Some(&'\\') && b.get(i + 2) == Some(&'u') {
            let h: String = b[i + 4..].iter().take(6).take_while(|x| x.is_ascii_hexdigit()).collect();
            if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                d.words.push(x.to_string())
            }
            i += 4 + h.len()
        } else if c == '\'' && b.get(i + 2) == Some(&'\'') {
            d.words.push(b[i + 1].to_string());
            i += 3
        } else if c.is_ascii_digit() {
            let mut s = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                if b[i] != '_' {
                    s.push(b[i])
                }
                i += 1
            }
            let (radix, t) = match s.get(..2) {
                Some("0x") => (16, &s[2..]),
                Some("0b") => (2, &s[2..]),
                _ => (10, &s[..]),
            };
            let t: String = if radix == 16 { t.to_string() } else { t.chars().take_while(|x| x.is_ascii_digit()).collect() };
            if let Ok(n) = u64::from_str_radix(&t, radix) {
                d.nums.push(n)
            }
        } else if c.is_alphanumeric() || c == '_' {
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1
            }
        } else {
            i += 1
        }
    }
}
pub fn init(dir: &str) {
    let mut d = Dict { words: WORDS.iter().map(|s| s.to_string()).collect(), nums: NUMS.to_vec(), groups: vec![] };
    let mut files: Vec<_> = std::fs::read_dir(dir).map(|x| x.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let name = f.file_name().and_then(|x| x.to_str()).unwrap_or("").to_string();
        if !name.ends_with(".rs") || name == "tests.rs" || name == "error.rs" {
            continue;
        }
        if let Ok(t) = std::fs::read_to_string(&f) {
            let cut = t.find("#[cfg(test)]\nmod tests").unwrap_or(t.len());
            scan(&t[..cut], &mut d)
        }
    }
    d.words.sort();
    d.words.dedup();
    d.nums.sort();
    d.nums.dedup();
    d.groups.sort();
    d.groups.dedup();
    let _ = DICT.set(d);
}
fn dict() -> &'static Dict {
    DICT.get_or_init(|| Dict { words: WORDS.iter().map(|s| s.to_string()).collect(), nums: NUMS.to_vec(), groups: vec![] })
}
/// A word of the sources.
pub fn exact(r: &mut Rng) -> &'static str {
    r.pick(&dict().words)
}
/// A word of the sources or one that is almost like it.
pub fn word(r: &mut Rng) -> String {
    let w = exact(r);
    if r.chance(1, 3) {
        w.to_string()
    } else {
        near(r, w)
    }
}
pub fn near(r: &mut Rng, w: &str) -> String {
    let mut c: Vec<char> = w.chars().collect();
    let add = |r: &mut Rng| -> String { r.pick(&["_", "s", "X", "my_", "a", " ", "::", "T::", "<T>", "0", "-"]).to_string() };
    match r.below(10) {
        0 => add(r) + w,
        1 => w.to_string() + &add(r),
        2 => exact(r).to_string() + w,
        3 => w.to_string() + exact(r),
        4 if !c.is_empty() => {
            let i = r.below(c.len());
            c.remove(i);
            c.into_iter().collect()
        }
        5 if !c.is_empty() => {
            let i = r.below(c.len());
            c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
            c.into_iter().collect()
        }
        6 => w.to_ascii_lowercase(),
        7 => w.to_ascii_uppercase(),
        8 => w.replace(' ', ""),
        _ => format!("{}_{}", exact(r), w),
    }
}
/// A number of the sources or a neighbour, at most `max`.
pub fn num(r: &mut Rng, max: u64) -> u64 {
    for _ in 0..8 {
        let n = if r.chance(1, 3) { *r.pick(&[255, 256, 65535, 65536]) } else { *r.pick(&dict().nums) };
        let n = match r.below(5) {
            0 => n.wrapping_add(1),
            1 => n.saturating_sub(1),
            2 => n.wrapping_mul(2),
            _ => n,
        };
        if n <= max {
            return n;
        }
    }
    max.min(17)
}
/// Words that stand together in the sources, perhaps with one more before or after.
pub fn group(r: &mut Rng) -> Vec<String> {
    if dict().groups.is_empty() {
        return vec![word(r)];
    }
    let mut g = r.pick(&dict().groups).clone();
    if r.chance(1, 2) {
        g.insert(0, r.pick(&["a", "my_runtime"]).to_string())
    }
    if r.chance(1, 3) {
        g.push(word(r))
    }
    g
}
/// Path with one segment changed, or another one.
pub fn bend(r: &mut Rng, p: &[String]) -> Vec<String> {
    if r.chance(1, 5) {
        return group(r);
    }
    let mut p = p.to_vec();
    let i = r.below(p.len().max(1));
    match r.below(5) {
        0 if !p.is_empty() => p[i] = near(r, &p[i].clone()),
        1 if !p.is_empty() => p[i] = word(r),
        2 if p.len() > 1 => {
            p.remove(i);
        }
        3 if !p.is_empty() => p.insert(i, word(r)),
        _ => p.insert(0, word(r)),
    }
    p
}
