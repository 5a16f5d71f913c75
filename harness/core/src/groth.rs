//! A Groth16 verifying key with known trapdoor (so that valid proofs can be made for any public inputs) and
//! its on-chain encoding.
use crate::refhash::limbs_bytes;
use ark_bn254::{Bn254, Fq, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{BigInteger256, Field, PrimeField, Zero};
use elusiv::fields::{Wrap, G1A, G2A};
use elusiv::types::Proof;
use borsh::BorshSerialize;

pub const INPUTS: usize = 14;

pub struct Trapdoor {
    pub alpha: Fr,
    pub beta: Fr,
    pub gamma: Fr,
    pub delta: Fr,
    pub ic: Vec<Fr>,
}

pub fn fr(n: u64) -> Fr {
    crate::refhash::opaque(90, n as usize)
}
pub fn g1(s: Fr) -> G1Affine {
    G1Projective::prime_subgroup_generator().mul(s.into_repr()).into_affine()
}
pub fn g2(s: Fr) -> G2Affine {
    G2Projective::prime_subgroup_generator().mul(s.into_repr()).into_affine()
}

fn fq(o: &mut Vec<u8>, f: &Fq) {
    o.extend(limbs_bytes(&f.0));
}
fn fq2(o: &mut Vec<u8>, f: &Fq2) {
    fq(o, &f.c0);
    fq(o, &f.c1);
}
fn p1(o: &mut Vec<u8>, p: &G1Affine) {
    fq(o, &p.x);
    fq(o, &p.y);
    o.push(p.infinity as u8);
}
fn p2(o: &mut Vec<u8>, p: &G2Affine) {
    fq2(o, &p.x);
    fq2(o, &p.y);
    o.push(p.infinity as u8);
}

impl Trapdoor {
    pub fn new(seed: u64) -> Self {
        let f = |n: u64| fr(seed * 100 + n);
        Trapdoor { alpha: f(1), beta: f(2), gamma: f(3), delta: f(4), ic: (0..=INPUTS as u64).map(|n| f(10 + n)).collect() }
    }

    pub fn key(&self) -> ark_groth16::VerifyingKey<Bn254> {
        ark_groth16::VerifyingKey {
            alpha_g1: g1(self.alpha),
            beta_g2: g2(self.beta),
            gamma_g2: g2(self.gamma),
            delta_g2: g2(self.delta),
            gamma_abc_g1: self.ic.iter().map(|s| g1(*s)).collect(),
        }
    }

    /// the documented layout of a key account's data
    pub fn encode(&self) -> Vec<u8> {
        let vk = self.key();
        let mut o = vec![];
        let ab = Bn254::pairing(vk.alpha_g1, vk.beta_g2);
        for c6 in [&ab.c0, &ab.c1] {
            for c in [&c6.c0, &c6.c1, &c6.c2] {
                fq2(&mut o, c);
            }
        }
        p1(&mut o, &vk.gamma_abc_g1[0]);
        let mut all: Vec<G1Projective> = Vec::with_capacity(self.ic.len() * 32 * 255);
        for i in 1..self.ic.len() {
            let mut base = vk.gamma_abc_g1[i].into_projective();
            for _ in 0..32 {
                let mut x = base;
                for k in 1..=255 {
                    all.push(x);
                    if k < 255 {
                        x += base;
                    }
                }
                base += x;
            }
        }
        for a in G1Projective::batch_normalization_into_affine(&all) {
            p1(&mut o, &a);
        }
        for q in [vk.gamma_g2, vk.delta_g2] {
            let prep = <Bn254 as PairingEngine>::G2Prepared::from(-q);
            assert_eq!(prep.ell_coeffs.len(), 91);
            for c in &prep.ell_coeffs {
                fq2(&mut o, &c.0);
                fq2(&mut o, &c.1);
                fq2(&mut o, &c.2);
            }
        }
        p1(&mut o, &vk.alpha_g1);
        p2(&mut o, &vk.beta_g2);
        p2(&mut o, &vk.gamma_g2);
        p2(&mut o, &vk.delta_g2);
        o
    }

    /// scalar of the prepared inputs
    fn x(&self, inputs: &[[u8; 32]]) -> Fr {
        let mut x = self.ic[0];
        for (i, p) in inputs.iter().enumerate() {
            let mut v = Fr::zero();
            for b in p.iter().rev() {
                v = v * Fr::from(256u64) + Fr::from(*b as u64);
            }
            x += v * self.ic[i + 1];
        }
        x
    }

    /// scalars (a, b, c) of a valid proof
    pub fn scalars(&self, inputs: &[[u8; 32]], n: u64) -> (Fr, Fr, Fr) {
        let (a, b) = (fr(1_000_000 + 2 * n), fr(1_000_001 + 2 * n));
        let c = (a * b - self.alpha * self.beta - self.gamma * self.x(inputs)) * self.delta.inverse().unwrap();
        (a, b, c)
    }
    pub fn prove(&self, inputs: &[[u8; 32]], n: u64) -> Proof {
        let (a, b, c) = self.scalars(inputs, n);
        Proof { a: G1A(g1(a)), b: G2A(g2(b)), c: G1A(g1(c)) }
    }
}

#[allow(dead_code)]
pub fn repr(b: &[u8; 32]) -> BigInteger256 {
    crate::refhash::le_limbs(b)
}
#[allow(dead_code)]
pub fn wrap_len<T: BorshSerialize>(w: &Wrap<T>) -> usize
where
    Wrap<T>: BorshSerialize,
{
    w.try_to_vec().unwrap().len()
}
