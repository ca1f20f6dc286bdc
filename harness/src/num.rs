//! Numbers in cases, and the scalar types of the library.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// f64 which survives JSON, also if it is not finite
#[derive(Clone, Copy, PartialEq)]
pub struct F(pub f64);

impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0.is_finite() {
            s.serialize_f64(self.0)
        } else {
            s.serialize_str(&format!("{:?}", self.0))
        }
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        #[derive(Deserialize)]
        #[serde(untagged)]
        enum E {
            N(f64),
            S(String),
        }
        match E::deserialize(d)? {
            E::N(x) => Ok(F(x)),
            E::S(s) => s.parse().map(F).map_err(serde::de::Error::custom),
        }
    }
}

/// Scalar types of the library
pub trait Sc: k::RealField + k::SubsetOf<f64> + Copy + Send + Sync + 'static {
    const EPS: f64;
    const NAME: &'static str;
    fn f(x: f64) -> Self;
    fn d(self) -> f64;
    fn up(self) -> Self;
    fn down(self) -> Self;
    fn bits(self) -> u64;
    fn from_bits1(b: u64) -> f64;
    fn from_bits7(b: &[u64; 7]) -> [f64; 7] {
        b.map(Self::from_bits1)
    }
}
impl Sc for f64 {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    fn f(x: f64) -> Self {
        x
    }
    fn d(self) -> f64 {
        self
    }
    fn up(self) -> Self {
        self.next_up()
    }
    fn down(self) -> Self {
        self.next_down()
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn from_bits1(b: u64) -> f64 {
        f64::from_bits(b)
    }
}
impl Sc for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    fn f(x: f64) -> Self {
        x as f32
    }
    fn d(self) -> f64 {
        self as f64
    }
    fn up(self) -> Self {
        self.next_up()
    }
    fn down(self) -> Self {
        self.next_down()
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn from_bits1(b: u64) -> f64 {
        f32::from_bits(b as u32) as f64
    }
}

/// the same number (zeros are equal, NaN is itself)
pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
