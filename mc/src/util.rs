//! Helpers shared by the checks.
use poppy_filters::{v1, v2, BloomFilter, Error, OptLevel, Params};
use std::fmt::Write as _;
use std::io::{self, Cursor, Read, Seek, SeekFrom};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Cfg {
    pub v: u8,
    pub opt: u8,
    pub cap: usize,
    pub fpp: f64,
}

impl Cfg {
    pub fn name(&self) -> String {
        format!("v{}/O{}/cap={}/fpp={:e}", self.v, self.opt, self.cap, self.fpp)
    }
    pub fn make(&self) -> BloomFilter {
        self.try_make().expect("creating a filter with valid parameters")
    }
    pub fn try_make(&self) -> Result<BloomFilter, Error> {
        BloomFilter::try_from(
            Params::new(self.cap, self.fpp)
                .version(self.v)
                .opt(OptLevel::try_from(self.opt).unwrap()),
        )
    }
}

pub fn cfg(v: u8, opt: u8, cap: usize, fpp: f64) -> Cfg {
    Cfg { v, opt, cap, fpp }
}

/// v1, then v2 at the four levels
pub const KINDS: [(u8, u8); 5] = [(1, 0), (2, 0), (2, 1), (2, 2), (2, 3)];

pub fn ser(b: &BloomFilter) -> Vec<u8> {
    let mut o = vec![];
    b.write(&mut o).expect("writing to memory");
    o
}

/// Main bits of a saved filter (index cache of v2 left out).
pub fn main_bits(s: &[u8]) -> &[u8] {
    if s[0] == 1 {
        &s[48..]
    } else {
        let c = u64::from_le_bytes(s[40..48].try_into().unwrap()) as usize;
        &s[48 + c.div_ceil(8) + 8..]
    }
}

/// Contents of a saved filter: everything after the 48 byte header (the count excluded).
pub fn contents(s: &[u8]) -> &[u8] {
    &s[48..]
}

pub fn load(s: &[u8]) -> Result<BloomFilter, Error> {
    BloomFilter::from_reader(Cursor::new(s))
}

pub fn set_data(b: &mut BloomFilter, d: &[u8]) {
    match b {
        BloomFilter::V1(f) => f.data = d.to_vec(),
        BloomFilter::V2(f) => f.data = d.to_vec(),
    }
}

pub struct H128(u64, u64);
impl H128 {
    pub fn new() -> Self {
        H128(0x9E3779B97F4A7C15, 0xC2B2AE3D27D4EB4F)
    }
    #[inline]
    pub fn word(&mut self, w: u64) {
        self.0 = (self.0 ^ w).wrapping_mul(0xff51afd7ed558ccd).rotate_left(29);
        self.1 = (self.1.rotate_left(23) ^ w).wrapping_mul(0xc4ceb9fe1a85ec53);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        let mut c = b.chunks_exact(8);
        for x in &mut c {
            self.word(u64::from_le_bytes(x.try_into().unwrap()));
        }
        let mut t = [0u8; 8];
        t[..c.remainder().len()].copy_from_slice(c.remainder());
        self.word(u64::from_le_bytes(t));
        self.word(b.len() as u64);
    }
    pub fn end(&self) -> u128 {
        let mut a = self.0 ^ self.1.rotate_left(31);
        a ^= a >> 33;
        a = a.wrapping_mul(0xff51afd7ed558ccd);
        a ^= a >> 29;
        let mut b = self.1 ^ self.0.rotate_left(17);
        b ^= b >> 31;
        b = b.wrapping_mul(0xc4ceb9fe1a85ec53);
        b ^= b >> 33;
        ((a as u128) << 64) | b as u128
    }
}
impl std::fmt::Write for H128 {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.bytes(s.as_bytes());
        Ok(())
    }
}

/// Identity of a state, never used to judge: the saved bytes; when `deep` also every field of the filter,
/// visible through the API or not, as the derived Debug output shows them (slow).
pub fn dhash(b: &BloomFilter, deep: bool) -> u128 {
    let mut h = H128::new();
    let s = ser(b);
    h.bytes(&s);
    if deep && s.len() <= 20_000 {
        let _ = write!(h, "{:?}", b);
    }
    h.end()
}

/// Everything the API shows of a filter.
pub fn shown(b: &BloomFilter) -> (Vec<u8>, String) {
    (ser(b), format!("{} {} {} {} {} {} {:?}", b.version(), b.capacity(), b.fpp(), b.count_estimate(), b.is_full(), b.size_in_bytes(), b.data()))
}

pub fn h64(b: &[u8]) -> u64 {
    let mut h = H128::new();
    h.bytes(b);
    h.end() as u64
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 24 {
        return format!("{}..({} bytes)", hex(&b[..16]), b.len());
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub const NFORMS: usize = 7;
/// Inserts key in one of the forms the API offers; None if the form does not apply.
pub fn insert_form(b: &mut BloomFilter, key: &[u8], form: usize) -> Option<Result<bool, Error>> {
    match (b, form) {
        (b, 0) => Some(b.insert_bytes(key)),
        (b, 1) => Some(b.insert_bytes(key.to_vec())),
        (b, 2) => std::str::from_utf8(key).ok().map(|s| b.insert_bytes(s)),
        (BloomFilter::V1(b), 3) => Some(b.insert_bytes(key)),
        (BloomFilter::V2(b), 3) => Some(b.insert(&key)),
        (BloomFilter::V2(b), 4) => Some(b.insert_iter(v2::BloomFilter::build_index_iter(&key))),
        (BloomFilter::V2(b), 5) => Some(b.insert(&key.to_vec())),
        (BloomFilter::V2(b), 6) => std::str::from_utf8(key).ok().map(|s| b.insert(&s.to_string())),
        _ => None,
    }
}
/// Queries key in one of the forms the API offers; None if the form does not apply.
pub fn query_form(b: &BloomFilter, key: &[u8], form: usize) -> Option<bool> {
    match (b, form) {
        (b, 0) => Some(b.contains_bytes(key)),
        (b, 1) => Some(b.contains_bytes(key.to_vec())),
        (b, 2) => std::str::from_utf8(key).ok().map(|s| b.contains_bytes(s.to_string())),
        (BloomFilter::V1(b), 3) => Some(b.contains_bytes(key)),
        (BloomFilter::V2(b), 3) => Some(b.contains(&key)),
        (BloomFilter::V2(b), 4) => Some(
            b.contains_iter(v2::BloomFilter::build_index_iter(&key))
                .expect("prepared entry"),
        ),
        (BloomFilter::V2(b), 5) => Some(b.contains(&key.to_vec())),
        (BloomFilter::V2(b), 6) => std::str::from_utf8(key).ok().map(|s| b.contains(&s)),
        _ => None,
    }
}

/// First form that denies the key.
pub fn denied(b: &BloomFilter, key: &[u8]) -> Option<usize> {
    (0..NFORMS).find(|f| query_form(b, key, *f) == Some(false))
}

/// union / intersection through the public API of both layers
pub fn union(d: &mut BloomFilter, s: &BloomFilter) -> Result<(), Error> {
    d.union_merge(s)
}
pub fn union_by_value(d: &BloomFilter, s: &BloomFilter) -> Option<Result<BloomFilter, Error>> {
    match (d, s) {
        (BloomFilter::V2(d), BloomFilter::V2(s)) => Some(d.clone().union(s.clone()).map(BloomFilter::V2)),
        _ => None,
    }
}
pub fn intersect(d: &mut BloomFilter, s: &BloomFilter) -> Option<Result<(), Error>> {
    match (d, s) {
        (BloomFilter::V2(d), BloomFilter::V2(s)) => Some(d.intersection_merge(s)),
        _ => None,
    }
}

pub fn typed_load<R: Read + Seek>(v: u8, r: R) -> Result<BloomFilter, Error> {
    if v == 1 {
        v1::BloomFilter::from_reader(r).map(BloomFilter::V1)
    } else {
        v2::BloomFilter::from_reader(r).map(BloomFilter::V2)
    }
}

/// Reader giving at most n bytes per call.
pub struct Dribble<'a> {
    pub c: Cursor<&'a [u8]>,
    pub n: usize,
}
impl Read for Dribble<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.n.min(b.len());
        self.c.read(&mut b[..n])
    }
}
impl Seek for Dribble<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.c.seek(p)
    }
}

#[allow(unreachable_patterns)]
pub fn kind(e: &Error) -> String {
    match e {
        Error::WrongFpp(_) => "WrongFpp".into(),
        Error::IoError(e) => format!("Io({:?})", e.kind()),
        Error::InvalidVersion(v) => format!("InvalidVersion({v})"),
        Error::Merge(_) => "Merge".into(),
        Error::OptLevel(_) => "OptLevel".into(),
        Error::TooManyEntries => "TooManyEntries".into(),
        Error::UninitIter => "UninitIter".into(),
        e => format!("{e:?}"),
    }
}
pub fn show(r: &Result<bool, Error>) -> String {
    match r {
        Ok(b) => format!("Ok({b})"),
        Err(e) => format!("Err({})", kind(e)),
    }
}

/// Deterministic distinct long (hashed) key number i.
pub fn long_key(i: u64) -> Vec<u8> {
    format!("entry-number-{i:08}-of-the-universe").into_bytes()
}

/// Deterministic content of a given length, distinct per (len, i).
pub fn len_key(len: usize, i: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    let mut x = (len as u64) << 32 | i;
    while v.len() < len {
        x = x.wrapping_mul(0x5851F42D4C957F2D).wrapping_add(0x14057B7EF767814F);
        let mut y = x;
        y ^= y >> 29;
        y = y.wrapping_mul(0xbf58476d1ce4e5b9);
        y ^= y >> 32;
        v.extend(y.to_le_bytes());
    }
    v.truncate(len);
    v
}
