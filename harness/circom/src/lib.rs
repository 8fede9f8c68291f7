//! Shared parts of the co-circom harnesses: a small "pairing" between groups whose discrete logarithms are known.
pub use vmpc::*;
use ark_ec::CurveGroup;
use ark_ec::pairing::{MillerLoopOutput, Pairing, PairingOutput};
use ark_ec::short_weierstrass::{Affine, Projective};
use ark_ff::{Field, Fp2, Fp2Config, MontConfig, MontFp, fields::{Fp64, MontBackend}};
use std::sync::OnceLock;

use ark_serde_compat::{CanonicalJsonSerialize, CheckElement};
use ark_serialize::SerializationError;
use circom_types::traits::CircomArkworksPairingBridge;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::io::Read;

#[derive(MontConfig)]
#[modulus = "3083"]
#[generator = "2"]
pub struct C3083;
pub type F3083 = Fp64<MontBackend<C3083, 1>>;
#[derive(MontConfig)]
#[modulus = "491531"]
#[generator = "2"]
pub struct C491531;
pub type F491531 = Fp64<MontBackend<C491531, 1>>;

/// The target group is the subgroup of the scalar field's order of the elements of norm one; the product of a prepared pair
/// of points multiplies their discrete logarithms.
pub trait Toy: Pairing {
    const ORDER: u64;
    fn p1(v: u64) -> Self::G1Affine;
    fn p2(v: u64) -> Self::G2Affine;
    fn d1(p: &Self::G1Affine) -> u64;
    fn d2(p: &Self::G2Affine) -> u64;
}
macro_rules! toypair {
    ($name:ident, $cfg:ty, $base:ty, $scalar:ty, $order:literal, $q2:ident, $tbase:ty, $tmod:literal) => {
        pub struct $q2;
        impl Fp2Config for $q2 {
            type Fp = $tbase;
            const NONRESIDUE: $tbase = MontFp!("-1");
            const FROBENIUS_COEFF_FP2_C1: &'static [$tbase] = &[MontFp!("1"), MontFp!("-1")];
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct $name;
        impl $name {
            fn gt() -> Fp2<$q2> {
                static G: OnceLock<Fp2<$q2>> = OnceLock::new();
                *G.get_or_init(|| {
                    for i in 1u64.. {
                        let g = Fp2::<$q2>::new(<$tbase>::from(i), <$tbase>::from(1)).pow([($tmod * $tmod - 1) / $order]);
                        if g != Fp2::<$q2>::ONE {
                            return g;
                        }
                    }
                    unreachable!()
                })
            }
        }
        impl Toy for $name {
            const ORDER: u64 = $order;
            fn p1(v: u64) -> Affine<$cfg> {
                Projective::<$cfg>::of(v).into_affine()
            }
            fn p2(v: u64) -> Affine<$cfg> {
                Projective::<$cfg>::of(v).into_affine()
            }
            fn d1(p: &Affine<$cfg>) -> u64 {
                Projective::from(*p).dlog()
            }
            fn d2(p: &Affine<$cfg>) -> u64 {
                Projective::from(*p).dlog()
            }
        }
        impl Pairing for $name {
            type BaseField = $base;
            type ScalarField = $scalar;
            type G1 = Projective<$cfg>;
            type G1Affine = Affine<$cfg>;
            type G1Prepared = Affine<$cfg>;
            type G2 = Projective<$cfg>;
            type G2Affine = Affine<$cfg>;
            type G2Prepared = Affine<$cfg>;
            type TargetField = Fp2<$q2>;
            fn multi_miller_loop(
                a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>,
                b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>,
            ) -> MillerLoopOutput<Self> {
                let mut e = 0u64;
                for (x, y) in a.into_iter().zip(b) {
                    let (x, y): (Affine<$cfg>, Affine<$cfg>) = (x.into(), y.into());
                    e = (e + Projective::from(x).dlog() * Projective::from(y).dlog()) % $order;
                }
                MillerLoopOutput($name::gt().pow([e]))
            }
            fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
                Some(PairingOutput(m.0))
            }
        }
    };
}
toypair!(P257, E257, F227, F257, 257u64, Q257, F3083, 3083u64);
toypair!(P40961, E40961, F40739, F40961, 40961u64, Q40961, F491531, 491531u64);

// Points are written as their discrete logarithms; keys and proofs are only ever built by the harness itself.
type A1 = Affine<E40961>;
type SerR<T> = Result<T, SerializationError>;
fn de<'de, D: Deserializer<'de>>(d: D) -> Result<A1, D::Error> {
    Ok(<Projective<E40961> as Dlog>::of(u64::deserialize(d)?).into_affine())
}
fn de_seq<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<A1>, D::Error> {
    Ok(Vec::<u64>::deserialize(d)?.into_iter().map(|k| <Projective<E40961> as Dlog>::of(k).into_affine()).collect())
}
impl CanonicalJsonSerialize for P40961 {
    fn serialize_g1<S: Serializer>(p: &A1, s: S) -> Result<S::Ok, S::Error> {
        Projective::from(*p).dlog().serialize(s)
    }
    fn serialize_g2<S: Serializer>(p: &A1, s: S) -> Result<S::Ok, S::Error> {
        Projective::from(*p).dlog().serialize(s)
    }
    fn serialize_gt<S: Serializer>(_: &Self::TargetField, _: S) -> Result<S::Ok, S::Error> {
        unimplemented!()
    }
    fn serialize_g1_seq<S: Serializer>(p: &[A1], s: S) -> Result<S::Ok, S::Error> {
        p.iter().map(|x| Projective::from(*x).dlog()).collect::<Vec<_>>().serialize(s)
    }
    fn deserialize_g1<'de, D: Deserializer<'de>>(d: D) -> Result<A1, D::Error> {
        de(d)
    }
    fn deserialize_g1_unchecked<'de, D: Deserializer<'de>>(d: D) -> Result<A1, D::Error> {
        de(d)
    }
    fn deserialize_g2<'de, D: Deserializer<'de>>(d: D) -> Result<A1, D::Error> {
        de(d)
    }
    fn deserialize_g2_unchecked<'de, D: Deserializer<'de>>(d: D) -> Result<A1, D::Error> {
        de(d)
    }
    fn deserialize_gt<'de, D: Deserializer<'de>>(_: D) -> Result<Self::TargetField, D::Error> {
        unimplemented!()
    }
    fn deserialize_g1_seq<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<A1>, D::Error> {
        de_seq(d)
    }
    fn deserialize_g1_seq_unchecked<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<A1>, D::Error> {
        de_seq(d)
    }
}
impl CircomArkworksPairingBridge for P40961 {
    const G1_SERIALIZED_BYTE_SIZE_COMPRESSED: usize = 2;
    const G1_SERIALIZED_BYTE_SIZE_UNCOMPRESSED: usize = 4;
    const G2_SERIALIZED_BYTE_SIZE_COMPRESSED: usize = 2;
    const G2_SERIALIZED_BYTE_SIZE_UNCOMPRESSED: usize = 4;
    const GT_SERIALIZED_BYTE_SIZE_COMPRESSED: usize = 0;
    const GT_SERIALIZED_BYTE_SIZE_UNCOMPRESSED: usize = 0;
    const SCALAR_FIELD_BYTE_SIZE: usize = 2;
    const BASE_FIELD_BYTE_SIZE: usize = 2;
    fn get_circom_name() -> String {
        "toy".to_owned()
    }
    fn g1_from_bytes(_: &[u8], _: CheckElement) -> SerR<A1> {
        unimplemented!()
    }
    fn g2_from_bytes(_: &[u8], _: CheckElement) -> SerR<A1> {
        unimplemented!()
    }
    fn g1_from_reader(_: impl Read, _: CheckElement) -> SerR<A1> {
        unimplemented!()
    }
    fn g2_from_reader(_: impl Read, _: CheckElement) -> SerR<A1> {
        unimplemented!()
    }
    fn fr_from_montgomery_reader(_: impl Read) -> SerR<Self::ScalarField> {
        unimplemented!()
    }
    fn fr_from_reader_for_groth16_zkey(_: impl Read) -> SerR<Self::ScalarField> {
        unimplemented!()
    }
    fn fq_from_montgomery_reader(_: impl Read) -> SerR<Self::BaseField> {
        unimplemented!()
    }
}
