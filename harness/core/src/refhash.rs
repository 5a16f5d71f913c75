//! Reference Poseidon (t = 3, alpha = 5, RF = 8, RP = 57) over the BN254 scalar field, with the round
//! constants and the MDS matrix derived from the Grain LFSR of the Poseidon reference scripts, and a
//! reference Merkle tree.  Written from the published algorithm, independent of the code under test.
use ark_bn254::Fr;
use ark_ff::{BigInteger, BigInteger256, Field, FpParameters, PrimeField, Zero};
use std::collections::HashMap;
use std::sync::OnceLock;

struct Grain {
    s: [bool; 80],
    p: usize,
}

impl Grain {
    fn new(n: u32, t: u32, rf: u32, rp: u32) -> Self {
        let mut bits = vec![];
        let mut push = |v: u32, l: u32| {
            for i in (0..l).rev() {
                bits.push(v >> i & 1 == 1)
            }
        };
        push(1, 2); // prime field
        push(0, 4); // alpha sbox
        push(n, 12);
        push(t, 12);
        push(rf, 10);
        push(rp, 10);
        push((1 << 30) - 1, 30);
        let mut g = Grain { s: bits.try_into().unwrap(), p: 0 };
        for _ in 0..160 {
            g.step();
        }
        g
    }
    fn step(&mut self) -> bool {
        let at = |i: usize| self.s[(self.p + i) % 80];
        let b = at(62) ^ at(51) ^ at(38) ^ at(23) ^ at(13) ^ at(0);
        self.s[self.p] = b;
        self.p = (self.p + 1) % 80;
        b
    }
    fn bit(&mut self) -> bool {
        loop {
            let a = self.step();
            let b = self.step();
            if a {
                return b;
            }
        }
    }
    fn num(&mut self, n: usize) -> BigInteger256 {
        let bits: Vec<bool> = (0..n).map(|_| self.bit()).collect();
        BigInteger256::from_bits_be(&bits)
    }
    fn field(&mut self) -> Fr {
        loop {
            let v = self.num(254);
            if v < <Fr as PrimeField>::Params::MODULUS {
                return Fr::from_repr(v).unwrap();
            }
        }
    }
    fn field_mod(&mut self) -> Fr {
        let mut v = self.num(254);
        while v >= <Fr as PrimeField>::Params::MODULUS {
            v.sub_noborrow(&<Fr as PrimeField>::Params::MODULUS);
        }
        Fr::from_repr(v).unwrap()
    }
}

struct Consts {
    rc: Vec<Fr>,
    mds: [[Fr; 3]; 3],
}

fn consts() -> &'static Consts {
    static C: OnceLock<Consts> = OnceLock::new();
    C.get_or_init(|| {
        let mut g = Grain::new(254, 3, 8, 57);
        let rc = (0..3 * 65).map(|_| g.field()).collect();
        let v: Vec<Fr> = (0..6).map(|_| g.field_mod()).collect();
        let mut mds = [[Fr::zero(); 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                mds[i][j] = (v[i] + v[3 + j]).inverse().unwrap();
            }
        }
        Consts { rc, mds }
    })
}

pub fn poseidon(l: Fr, r: Fr) -> Fr {
    let c = consts();
    let mut s = [Fr::zero(), l, r];
    for round in 0..65 {
        for i in 0..3 {
            s[i] += c.rc[round * 3 + i];
        }
        let n = if round < 4 || round >= 61 { 3 } else { 1 };
        for x in s.iter_mut().take(n) {
            *x = *x * *x * *x * *x * *x;
        }
        let mut t = [Fr::zero(); 3];
        for i in 0..3 {
            for j in 0..3 {
                t[i] += c.mds[i][j] * s[j];
            }
        }
        s = t;
    }
    s[0]
}

pub const HEIGHT: usize = 20;

const EMPTY_LEAF_MR: [u8; 32] = [
    130, 154, 1, 250, 228, 248, 226, 43, 27, 76, 165, 173, 91, 84, 165, 131, 78, 224, 152, 167, 123, 115, 91, 213,
    116, 49, 167, 101, 109, 41, 161, 8,
];

pub fn le_limbs(b: &[u8; 32]) -> BigInteger256 {
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    }
    BigInteger256(l)
}
/// bytes of the internal (Montgomery) representation, the on-chain form of field elements
pub fn mr_bytes(f: &Fr) -> [u8; 32] {
    limbs_bytes(&f.0)
}
/// bytes of the canonical representation
pub fn raw_bytes(f: &Fr) -> [u8; 32] {
    limbs_bytes(&f.into_repr())
}
pub fn limbs_bytes(b: &BigInteger256) -> [u8; 32] {
    let mut o = [0; 32];
    for i in 0..4 {
        o[i * 8..i * 8 + 8].copy_from_slice(&b.0[i].to_le_bytes());
    }
    o
}

/// defaults()[k]: root of an empty subtree of height k
pub fn defaults() -> &'static Vec<Fr> {
    static D: OnceLock<Vec<Fr>> = OnceLock::new();
    D.get_or_init(|| {
        // the published default leaf (canonical form of the documented empty commitment)
        let z = Fr::new(le_limbs(&EMPTY_LEAF_MR));
        let mut v = vec![z];
        for k in 0..HEIGHT {
            v.push(poseidon(v[k], v[k]));
        }
        v
    })
}

/// Sparse reference Merkle tree: known nodes by (height, index); everything right of the last leaf is
/// default, subtrees left of the first explicit leaf are opaque values given at the start.
#[derive(Clone)]
pub struct RefTree {
    pub nodes: HashMap<(usize, usize), Fr>,
    pub count: usize,
}

impl RefTree {
    pub fn new() -> Self {
        RefTree { nodes: HashMap::new(), count: 0 }
    }
    /// a tree that already has `count` (unknown) leaves, with opaque values for the subtrees needed
    pub fn with_opaque(count: usize) -> Self {
        let mut t = RefTree { nodes: HashMap::new(), count };
        if count == 0 {
            return t;
        }
        // maximal complete subtrees left of `count`
        let mut start = 0;
        for h in (0..=HEIGHT).rev() {
            if count >> h & 1 == 1 {
                t.nodes.insert((h, start >> h), opaque(h, start >> h));
                start += 1 << h;
            }
        }
        // inner nodes above the opaque ones
        let last = count - 1;
        for h in 0..=HEIGHT {
            let i = last >> h;
            if !t.nodes.contains_key(&(h, i)) && h > 0 && t.known(h - 1, 2 * i) {
                let v = poseidon(t.get(h - 1, 2 * i), t.get(h - 1, 2 * i + 1));
                t.nodes.insert((h, i), v);
            }
        }
        t
    }
    fn known(&self, h: usize, i: usize) -> bool {
        self.nodes.contains_key(&(h, i))
    }
    pub fn get(&self, h: usize, i: usize) -> Fr {
        *self.nodes.get(&(h, i)).unwrap_or(&defaults()[h])
    }
    pub fn root(&self) -> Fr {
        self.get(HEIGHT, 0)
    }
    pub fn push(&mut self, leaf: Fr) {
        let i = self.count;
        self.nodes.insert((0, i), leaf);
        for h in 1..=HEIGHT {
            let k = i >> h;
            let v = poseidon(self.get(h - 1, 2 * k), self.get(h - 1, 2 * k + 1));
            self.nodes.insert((h, k), v);
        }
        self.count += 1;
    }
}

pub fn opaque(h: usize, i: usize) -> Fr {
    poseidon(Fr::from(1_000_000 + h as u64), Fr::from(i as u64))
}

pub fn selftest() {
    let v = poseidon(Fr::from(1u64), Fr::from(2u64));
    let s = v.into_repr().to_string();
    // circomlib: poseidon([1, 2])
    let want = "115cc0f5e7d690413df64c6b9662e9cf2a3617f2743245519e19607a4417189a";
    assert!(s.to_lowercase().contains(want), "reference Poseidon is wrong: {s}");
    // the published root of the empty tree
    use std::str::FromStr;
    assert!(
        defaults()[20]
            == Fr::from_str("11702828337982203149177882813338547876343922920234831094975924378932809409969").unwrap(),
        "reference empty tree is wrong"
    );
}
