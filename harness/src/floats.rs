//! half, single and double precision numbers
use crate::ops::*;
use cbored::*;

fn bit() -> u32 {
    let b: u8 = any();
    assume(b <= 1);
    b as u32
}

/// a half precision pattern, as sign, exponent and fraction, by its digits; and what it is as a single precision pattern
/// (for the patterns that are not numbers, the smallest and the largest pattern that is not a number either)
fn half() -> (u16, u32, u32) {
    let s = bit();
    let e = bit() * 16 + bit() * 8 + bit() * 4 + bit() * 2 + bit();
    let f9 = bit();
    let f8 = bit();
    let f7 = bit();
    let f6 = bit();
    let f5 = bit();
    let f4 = bit();
    let f3 = bit();
    let f2 = bit();
    let f1 = bit();
    let f0 = bit();
    let f = f9 * 512 + f8 * 256 + f7 * 128 + f6 * 64 + f5 * 32 + f4 * 16 + f3 * 8 + f2 * 4 + f1 * 2 + f0;
    let v = (s * 32768 + e * 1024 + f) as u16;
    let sign = s * 2147483648;
    if e == 31 {
        if f == 0 {
            return (v, sign + 2139095040, sign + 2139095040);
        }
        return (v, sign + 2139095041, sign + 2147483647);
    }
    let x = if e == 0 {
        // f * 2^-24
        if f9 == 1 {
            112 * 8388608 + (f - 512) * 16384
        } else if f8 == 1 {
            111 * 8388608 + (f - 256) * 32768
        } else if f7 == 1 {
            110 * 8388608 + (f - 128) * 65536
        } else if f6 == 1 {
            109 * 8388608 + (f - 64) * 131072
        } else if f5 == 1 {
            108 * 8388608 + (f - 32) * 262144
        } else if f4 == 1 {
            107 * 8388608 + (f - 16) * 524288
        } else if f3 == 1 {
            106 * 8388608 + (f - 8) * 1048576
        } else if f2 == 1 {
            105 * 8388608 + (f - 4) * 2097152
        } else if f1 == 1 {
            104 * 8388608 + (f - 2) * 4194304
        } else if f0 == 1 {
            103 * 8388608
        } else {
            0
        }
    } else {
        // (1024 + f) * 2^(e - 25)
        (e + 112) * 8388608 + f * 8192
    };
    (v, sign + x, sign + x)
}

pub fn half_to_single() {
    let (v, lo, hi) = half();
    let r = Float::FP16(v).to_f32().to_bits();
    prove(C25, r >= lo);
    prove(C25, r <= hi);
}
pub fn half_to_double() {
    let (v, _, _) = half();
    let r = Float::FP16(v);
    prove(C25, r.to_f64().to_bits() == f64::from(r.to_f32()).to_bits());
}
pub fn single() {
    let v: u32 = any();
    let r = Float::FP32(v);
    prove(C25, r.to_f32().to_bits() == v);
    prove(C25, r.to_f64().to_bits() == f64::from(f32::from_bits(v)).to_bits());
}
pub fn double() {
    let v: u64 = any();
    let r = Float::FP64(v);
    prove(C25, r.to_f64().to_bits() == v);
    prove(C25, r.to_f32().to_bits() == (f64::from_bits(v) as f32).to_bits());
}
