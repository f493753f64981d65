"""Writes f64.vo and real.vo (committed; run by hand when the float prelude changes)."""
import os
H = os.path.dirname(os.path.abspath(__file__))
un = "sqrt abs floor ceil round trunc sin cos tan asin acos atan sinh cosh tanh exp ln log10 signum to_degrees to_radians".split()
bi = "powf atan2 copysign".split()
o = ["=== raw", "pub mod fl {\nuse vstd::prelude::*;", """
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::*;
use core::cmp::Ordering;
#[verifier::external_body]
#[derive(Clone, Copy, Debug)]
pub struct F64 { pub x: f64 }
#[verifier::external_body]
#[derive(Clone, Copy, Debug)]
pub struct F32 { pub x: f32 }
pub uninterp spec fn flit(bits: u64) -> F64;
pub uninterp spec fn fcmp(a: F64, b: F64) -> Option<Ordering>;
pub open spec fn flt(a: F64, b: F64) -> bool { fcmp(a, b) == Some(Ordering::Less) }
pub open spec fn fle(a: F64, b: F64) -> bool { fcmp(a, b) == Some(Ordering::Less) || fcmp(a, b) == Some(Ordering::Equal) }
pub open spec fn fgt(a: F64, b: F64) -> bool { fcmp(a, b) == Some(Ordering::Greater) }
pub open spec fn fge(a: F64, b: F64) -> bool { fcmp(a, b) == Some(Ordering::Greater) || fcmp(a, b) == Some(Ordering::Equal) }
pub open spec fn feq(a: F64, b: F64) -> bool { fcmp(a, b) == Some(Ordering::Equal) }
pub uninterp spec fn f32lit(bits: u32) -> F32;
pub uninterp spec fn fneg(a: F64) -> F64;
pub uninterp spec fn fmax(a: F64, b: F64) -> F64;
pub uninterp spec fn fmin(a: F64, b: F64) -> F64;
pub uninterp spec fn fpowi(a: F64, n: i32) -> F64;
pub uninterp spec fn fis_nan(a: F64) -> bool;
pub uninterp spec fn fis_finite(a: F64) -> bool;
pub uninterp spec fn i2f(n: int) -> F64;
pub uninterp spec fn ff32(a: F32) -> F64;
pub uninterp spec fn f2i(a: F64) -> int; // truncation towards zero, NaN to 0, before saturation
pub open spec fn clampi(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
pub uninterp spec fn fnan() -> F64;
pub uninterp spec fn finf() -> F64;
pub uninterp spec fn fninf() -> F64;
pub uninterp spec fn fpi() -> F64;
pub uninterp spec fn ftau() -> F64;
pub uninterp spec fn fpi2() -> F64;
pub uninterp spec fn fpi4() -> F64;
pub uninterp spec fn fepsilon() -> F64;
pub uninterp spec fn ffmax() -> F64;
pub uninterp spec fn ffmin() -> F64;
#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }
#[verifier::external_body]
pub fn any_string() -> String { unimplemented!() }
"""]
for T, op in [("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem")]:
    s = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Rem": "%"}[T]
    o.append(f"pub uninterp spec fn f{op}(a: F64, b: F64) -> F64;")
    for A, B, da, db in [("F64", "F64", "self", "o"), ("F64", "&F64", "self", "*o"), ("&F64", "F64", "*self", "o"), ("&F64", "&F64", "*self", "*o")]:
        o.append(f"""impl {T}SpecImpl<{B}> for {A} {{ open spec fn obeys_{op}_spec() -> bool {{ true }} open spec fn {op}_req(self, o: {B}) -> bool {{ true }} open spec fn {op}_spec(self, o: {B}) -> F64 {{ f{op}({da}, {db}) }} }}
impl {T}<{B}> for {A} {{ type Output = F64; #[verifier::external_body] fn {op}(self, o: {B}) -> (r: F64) {{ F64 {{ x: self.x {s} o.x }} }} }}""")
o.append("""impl NegSpecImpl for F64 { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> F64 { fneg(self) } }
impl Neg for F64 { type Output = F64; #[verifier::external_body] fn neg(self) -> F64 { F64 { x: -self.x } } }
impl PartialEqSpecImpl for F64 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F64) -> bool { feq(*self, *o) } }
impl PartialEq for F64 { #[verifier::external_body] fn eq(&self, o: &F64) -> bool { self.x == o.x } }
impl PartialOrdSpecImpl for F64 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &F64) -> Option<Ordering> { fcmp(*self, *o) } }
impl PartialOrd for F64 { #[verifier::external_body] fn partial_cmp(&self, o: &F64) -> Option<Ordering> { self.x.partial_cmp(&o.x) } }
""")
for f in un:
    o.append(f"pub uninterp spec fn f{f}(a: F64) -> F64;")
for f in bi:
    o.append(f"pub uninterp spec fn f{f}(a: F64, b: F64) -> F64;")
o.append("impl F64 {")
o.append("  #[verifier::external_body] pub fn lit(bits: u64) -> (r: F64) ensures r == flit(bits) { F64 { x: f64::from_bits(bits) } }")
for f in un:
    o.append(f"  #[verifier::external_body] pub fn {f}(self) -> (r: F64) ensures r == f{f}(self) {{ unimplemented!() }}")
for f in bi:
    o.append(f"  #[verifier::external_body] pub fn {f}(self, o: F64) -> (r: F64) ensures r == f{f}(self, o) {{ unimplemented!() }}")
o.append("""  #[verifier::external_body] pub fn powi(self, n: i32) -> (r: F64) ensures r == fpowi(self, n) { unimplemented!() }
  #[verifier::external_body] pub fn vmax(self, o: F64) -> (r: F64) ensures r == fmax(self, o) { unimplemented!() }
  pub fn vclamp(self, lo: F64, hi: F64) -> (r: F64) requires fle(lo, hi) ensures r == (if flt(self, lo) { lo } else if fgt(self, hi) { hi } else { self }) { if self < lo { lo } else if self > hi { hi } else { self } }
  #[verifier::external_body] pub fn vmin(self, o: F64) -> (r: F64) ensures r == fmin(self, o) { unimplemented!() }
  #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == fis_nan(self) { unimplemented!() }
  #[verifier::external_body] pub fn total_cmp(&self, o: &F64) -> (r: Ordering) ensures fcmp(*self, *o) is Some && fcmp(*self, *o) != Some(Ordering::Equal) ==> r == fcmp(*self, *o)->0 { unimplemented!() }
  #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r == fis_finite(self) { unimplemented!() }
  #[verifier::external_body] pub fn NAN() -> (r: F64) ensures r == fnan() { unimplemented!() }
  #[verifier::external_body] pub fn INFINITY() -> (r: F64) ensures r == finf() { unimplemented!() }
  #[verifier::external_body] pub fn NEG_INFINITY() -> (r: F64) ensures r == fninf() { unimplemented!() }
  #[verifier::external_body] pub fn PI() -> (r: F64) ensures r == fpi() { unimplemented!() }
  #[verifier::external_body] pub fn TAU() -> (r: F64) ensures r == ftau() { unimplemented!() }
  #[verifier::external_body] pub fn FRAC_PI_2() -> (r: F64) ensures r == fpi2() { unimplemented!() }
  #[verifier::external_body] pub fn FRAC_PI_4() -> (r: F64) ensures r == fpi4() { unimplemented!() }
  #[verifier::external_body] pub fn EPSILON() -> (r: F64) ensures r == fepsilon() { unimplemented!() }
  #[verifier::external_body] pub fn MAX() -> (r: F64) ensures r == ffmax() { unimplemented!() }
  #[verifier::external_body] pub fn MIN() -> (r: F64) ensures r == ffmin() { unimplemented!() }
  pub fn to_f64_(self) -> (r: F64) ensures r == self { self }""")
for t in "u8 u16 u32 u64 usize i8 i16 i32 i64".split():
    o.append(f"  #[verifier::external_body] pub fn as_{t}_(self) -> (r: {t}) ensures r == clampi(f2i(self), {t}::MIN as int, {t}::MAX as int) {{ self.x as {t} }}")
o.append("}")
o.append("impl F32 { #[verifier::external_body] pub fn lit(bits: u32) -> (r: F32) ensures r == f32lit(bits) { unimplemented!() }\n  #[verifier::external_body] pub fn to_f64_(self) -> (r: F64) ensures r == ff32(self) { unimplemented!() } }")
ints = "u8 u16 u32 u64 usize i8 i16 i32 i64".split()
o.append("pub trait IntCast: Sized { spec fn iv(self) -> int; fn to_f64_(self) -> (r: F64) ensures r == i2f(self.iv());")
for t in ints:
    o.append(f"  fn as_{t}_(self) -> (r: {t}) ensures {t}::MIN <= self.iv() <= {t}::MAX ==> r == self.iv();")
o.append("  fn vmax(self, o: Self) -> (r: Self) ensures r == (if self.iv() > o.iv() { self } else { o });\n  fn vmin(self, o: Self) -> (r: Self) ensures r == (if self.iv() <= o.iv() { self } else { o });\n  fn vclamp(self, lo: Self, hi: Self) -> (r: Self) requires lo.iv() <= hi.iv() ensures r == (if self.iv() < lo.iv() { lo } else if self.iv() > hi.iv() { hi } else { self }); }")
for s in ints:
    o.append(f"impl IntCast for {s} {{ open spec fn iv(self) -> int {{ self as int }} #[verifier::external_body] fn to_f64_(self) -> F64 {{ unimplemented!() }}")
    for t in ints:
        # narrowing keeps the low bits; exactly specified for u8
        extra = ""
        o.append(f"  #[verifier::external_body] fn as_{t}_(self) -> (r: {t}) {extra} {{ self as {t} }}")
    o.append("  fn vmax(self, o: Self) -> (r: Self) { if self > o { self } else { o } }\n  fn vmin(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }\n  fn vclamp(self, lo: Self, hi: Self) -> (r: Self) { if self < lo { lo } else if self > hi { hi } else { self } } }")
o.append("""
pub assume_specification [i32::abs] (a: i32) -> (r: i32) requires a != i32::MIN ensures r == (if a < 0 { -a as int } else { a as int });
pub assume_specification [i32::rem_euclid] (a: i32, b: i32) -> (r: i32) requires b > 0 ensures r == a as int % b as int;
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_ensures(T::clone, (&s@[i],), #[trigger] r@[i]);
#[verifier::external_body]
pub fn vec_rep<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
#[verifier::external_body]
pub fn vec_rep2<T: Copy>(x: Vec<T>, n: usize) -> (r: Vec<Vec<T>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == x@ { unimplemented!() }
""")
for n in range(1, 9):
    ps = ", ".join(f"a{i}: T" for i in range(n))
    es = ", ".join(f"a{i}" for i in range(n))
    o.append(f"#[verifier::external_body] pub fn vec_of_{n}<T>({ps}) -> (r: Vec<T>) ensures r@ == seq![{es}] {{ unimplemented!() }}")
# facts that hold for every IEEE binary64 pair, NaN included
o.append("""
// IEEE-754 comparison facts, true of every pair including NaN
#[verifier::external_body]
pub broadcast proof fn axiom_fcmp_flip(a: F64, b: F64) ensures
    #![trigger fcmp(a, b)]
    (fcmp(a, b) == Some(Ordering::Less)) == (fcmp(b, a) == Some(Ordering::Greater)),
    (fcmp(a, b) == Some(Ordering::Equal)) == (fcmp(b, a) == Some(Ordering::Equal)),
    fis_nan(a) || fis_nan(b) <==> fcmp(a, b) is None,
{}
#[verifier::external_body]
pub proof fn axiom_fle_trans(a: F64, b: F64, c: F64)
    requires fle(a, b), fle(b, c) ensures fle(a, c), flt(a, b) || flt(b, c) ==> flt(a, c) {}
// f64::max(x, y) is one of its arguments; it is >= any non-NaN argument
#[verifier::external_body]
pub broadcast proof fn axiom_fmax(a: F64, b: F64) ensures
    #![trigger fmax(a, b)]
    !fis_nan(b) ==> fge(fmax(a, b), b), !fis_nan(a) ==> fge(fmax(a, b), a),
    feq(fmax(a, b), a) || feq(fmax(a, b), b) || (fis_nan(a) && fis_nan(b)) {}
pub broadcast group group_float { axiom_fcmp_flip, axiom_fmax }
}
use fl::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::*;
use core::cmp::Ordering;
=== broadcast fl::group_float
""")
open(os.path.join(H, "f64.vo"), "w").write("\n".join(o) + "\n")

r = ["=== real", "=== raw", """pub mod rl {
use vstd::prelude::*;
use super::fl::*;
use core::cmp::Ordering;
// Real-arithmetic reading of the float operations (machine arithmetic treated as mathematical):
// assumed only by overlays that include this file.
impl F64 { pub uninterp spec fn r(self) -> real; }
#[verifier::external_body]
pub broadcast proof fn axiom_real_ops(a: F64, b: F64) ensures
  #![trigger fadd(a, b)] #![trigger fsub(a, b)] #![trigger fmul(a, b)] #![trigger fdiv(a, b)]
  fadd(a, b).r() == a.r() + b.r(), fsub(a, b).r() == a.r() - b.r(), fmul(a, b).r() == a.r() * b.r(),
  b.r() != 0real ==> fdiv(a, b).r() == a.r() / b.r() {}
#[verifier::external_body]
pub broadcast proof fn axiom_real_neg(a: F64) ensures #[trigger] fneg(a).r() == -a.r() {}
#[verifier::external_body]
pub broadcast proof fn axiom_real_abs(a: F64) ensures #[trigger] fabs(a).r() == (if a.r() < 0real { -a.r() } else { a.r() }) {}
#[verifier::external_body]
pub broadcast proof fn axiom_real_cmp(a: F64, b: F64) ensures
  #[trigger] fcmp(a, b) == Some(if a.r() < b.r() { Ordering::Less } else if a.r() == b.r() { Ordering::Equal } else { Ordering::Greater }) {}
#[verifier::external_body]
pub broadcast proof fn axiom_real_i2f(n: int) ensures #[trigger] i2f(n).r() == n as real {}
#[verifier::external_body]
pub broadcast proof fn axiom_real_max(a: F64, b: F64) ensures
  #![trigger fmax(a, b)] #![trigger fmin(a, b)]
  fmax(a, b).r() == (if a.r() < b.r() { b.r() } else { a.r() }), fmin(a, b).r() == (if b.r() < a.r() { b.r() } else { a.r() }) {}
// x % m for m > 0: the remainder of truncated division
pub uninterp spec fn remq(a: real, b: real) -> int;
#[verifier::external_body]
pub broadcast proof fn axiom_real_rem(a: F64, b: F64) ensures
  #![trigger frem(a, b)]
  b.r() > 0real ==> {
    &&& frem(a, b).r() == a.r() - b.r() * (remq(a.r(), b.r()) as real)
    &&& a.r() >= 0real ==> 0real <= frem(a, b).r() < b.r() && remq(a.r(), b.r()) >= 0
    &&& a.r() <= 0real ==> -b.r() < frem(a, b).r() <= 0real && remq(a.r(), b.r()) <= 0
  } {}
#[verifier::external_body]
pub broadcast proof fn axiom_real_floor(a: F64) ensures
  #![trigger ffloor(a)] #![trigger fceil(a)] #![trigger f2i(a)]
  ffloor(a).r() == a.r().floor() as real, fceil(a).r() == -((-a.r()).floor() as real),
  f2i(a) == (if a.r() >= 0real { a.r().floor() } else { -((-a.r()).floor()) }) {}
#[verifier::external_body]
pub broadcast proof fn axiom_real_signum(a: F64) ensures #![trigger fsignum(a)]
  a.r() > 0real ==> fsignum(a).r() == 1real, a.r() < 0real ==> fsignum(a).r() == -1real, a.r() == 0real ==> fsignum(a).r() == 1real || fsignum(a).r() == -1real {}
pub broadcast group group_real { axiom_real_ops, axiom_real_neg, axiom_real_abs, axiom_real_cmp, axiom_real_i2f, axiom_real_max, axiom_real_rem, axiom_real_floor, axiom_real_signum }
}
=== broadcast rl::group_real lits::axiom_literals
"""]
open(os.path.join(H, "real.vo"), "w").write("\n".join(r) + "\n")
