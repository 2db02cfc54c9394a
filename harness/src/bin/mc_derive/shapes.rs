// Written by gen_derive.py.
use super::*;

#[derive(FromTuple)]
pub struct N1 {
    #[stacks(key = "n0")]
    pub v: i128,
}
#[derive(FromTuple)]
pub struct N2 {
    #[stacks(key = "x")]
    pub x: bool,
    #[stacks(key = "y")]
    pub y: N1,
}
#[derive(FromTuple)]
pub struct N3 {
    #[stacks(key = "n2")]
    pub a: N2,
    #[stacks(key = "n1")]
    pub b: N1,
}
#[derive(FromTuple)]
pub struct Gen<const N: usize> {
    /// documented
    #[stacks(key = "g")]
    #[allow(dead_code)]
    pub g: Option<u128>,
}
pub type G1 = Gen<3>;

#[derive(FromTuple)]
struct Z0 {
    #[stacks(key = "f0")]
    f0: i128,
}
fn z0(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z0::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z1 {
    #[stacks(key = "some-key")]
    f0: i128,
}
fn z1(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z1::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z2 {
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk")]
    f0: i128,
}
fn z2(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z2::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z3 {
    #[stacks(key = "type")]
    type_: i128,
}
fn z3(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z3::try_from(t), |s| vec![s.type_.into()])
}
#[derive(FromTuple)]
struct Z4 {
    #[stacks(key = "f0")]
    f0: u128,
}
fn z4(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z4::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z5 {
    #[stacks(key = "some-key")]
    f0: u128,
}
fn z5(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z5::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z6 {
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk")]
    f0: u128,
}
fn z6(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z6::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z7 {
    #[stacks(key = "type")]
    type_: u128,
}
fn z7(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z7::try_from(t), |s| vec![s.type_.into()])
}
#[derive(FromTuple)]
struct Z8 {
    #[stacks(key = "f0")]
    f0: bool,
}
fn z8(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z8::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z9 {
    #[stacks(key = "some-key")]
    f0: bool,
}
fn z9(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z9::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z10 {
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk")]
    f0: bool,
}
fn z10(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z10::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z11 {
    #[stacks(key = "type")]
    type_: bool,
}
fn z11(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z11::try_from(t), |s| vec![s.type_.into()])
}
#[derive(FromTuple)]
struct Z12 {
    #[stacks(key = "f0")]
    f0: String,
}
fn z12(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z12::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z13 {
    #[stacks(key = "some-key")]
    f0: String,
}
fn z13(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z13::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z14 {
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk")]
    f0: String,
}
fn z14(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z14::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z15 {
    #[stacks(key = "type")]
    type_: String,
}
fn z15(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z15::try_from(t), |s| vec![s.type_.into()])
}
#[derive(FromTuple)]
struct Z16 {
    #[stacks(key = "f0")]
    f0: Vec<u8>,
}
fn z16(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z16::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z17 {
    #[stacks(key = "some-key")]
    f0: Vec<u8>,
}
fn z17(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z17::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z18 {
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk")]
    f0: Vec<u8>,
}
fn z18(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z18::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z19 {
    #[stacks(key = "type")]
    type_: Vec<u8>,
}
fn z19(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z19::try_from(t), |s| vec![s.type_.into()])
}
#[derive(FromTuple)]
struct Z20 {
    #[stacks(key = "f0")]
    f0: Vec<String>,
}
fn z20(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z20::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z21 {
    #[stacks(key = "some-key")]
    f0: Vec<String>,
}
fn z21(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z21::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z22 {
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk")]
    f0: Vec<String>,
}
fn z22(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z22::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z23 {
    #[stacks(key = "type")]
    type_: Vec<String>,
}
fn z23(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z23::try_from(t), |s| vec![s.type_.into()])
}
#[derive(FromTuple)]
struct Z24 {
    #[stacks(key = "f0")]
    f0: Option<i128>,
}
fn z24(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z24::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z25 {
    #[stacks(key = "some-key")]
    f0: Option<i128>,
}
fn z25(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z25::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z26 {
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk")]
    f0: Option<i128>,
}
fn z26(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z26::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z27 {
    #[stacks(key = "type")]
    type_: Option<i128>,
}
fn z27(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z27::try_from(t), |s| vec![s.type_.into()])
}
#[derive(FromTuple)]
struct Z28 {
    #[stacks(key = "f0")]
    f0: Option<u128>,
}
fn z28(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z28::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z29 {
    #[stacks(key = "some-key")]
    f0: Option<u128>,
}
fn z29(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z29::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z30 {
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk")]
    f0: Option<u128>,
}
fn z30(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z30::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z31 {
    #[stacks(key = "type")]
    type_: Option<u128>,
}
fn z31(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z31::try_from(t), |s| vec![s.type_.into()])
}
#[derive(FromTuple)]
struct Z32 {
    #[stacks(key = "f0")]
    f0: Option<String>,
}
fn z32(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z32::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z33 {
    #[stacks(key = "some-key")]
    f0: Option<String>,
}
fn z33(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z33::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z34 {
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk")]
    f0: Option<String>,
}
fn z34(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z34::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z35 {
    #[stacks(key = "type")]
    type_: Option<String>,
}
fn z35(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z35::try_from(t), |s| vec![s.type_.into()])
}
#[derive(FromTuple)]
struct Z36 {
    #[stacks(key = "f0", response)]
    f0: i128,
}
fn z36(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z36::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z37 {
    #[stacks(key = "some-key", response)]
    f0: i128,
}
fn z37(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z37::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z38 {
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", response)]
    f0: i128,
}
fn z38(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z38::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z39 {
    #[stacks(key = "type", response)]
    type_: i128,
}
fn z39(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z39::try_from(t), |s| vec![s.type_.into()])
}
#[derive(FromTuple)]
struct Z40 {
    #[stacks(key = "f0", response)]
    f0: u128,
}
fn z40(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z40::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z41 {
    #[stacks(key = "some-key", response)]
    f0: u128,
}
fn z41(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z41::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z42 {
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", response)]
    f0: u128,
}
fn z42(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z42::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z43 {
    #[stacks(key = "type", response)]
    type_: u128,
}
fn z43(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z43::try_from(t), |s| vec![s.type_.into()])
}
#[derive(FromTuple)]
struct Z44 {
    #[stacks(key = "f0")]
    f0: N1,
}
fn z44(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z44::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z45 {
    #[stacks(key = "some-key")]
    f0: N1,
}
fn z45(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z45::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z46 {
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk")]
    f0: N1,
}
fn z46(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z46::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z47 {
    #[stacks(key = "type")]
    type_: N1,
}
fn z47(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z47::try_from(t), |s| vec![s.type_.into()])
}
#[derive(FromTuple)]
struct Z48 {
    #[stacks(key = "f0")]
    f0: N2,
}
fn z48(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z48::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z49 {
    #[stacks(key = "some-key")]
    f0: N2,
}
fn z49(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z49::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z50 {
    #[stacks(key = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk")]
    f0: N2,
}
fn z50(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z50::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z51 {
    #[stacks(key = "type")]
    type_: N2,
}
fn z51(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z51::try_from(t), |s| vec![s.type_.into()])
}
#[derive(FromTuple)]
struct Z52 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "q")]
    f1: i128,
}
fn z52(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z52::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z53 {
    #[stacks(key = "q")]
    p: i128,
    #[stacks(key = "p")]
    q: i128,
}
fn z53(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z53::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z54 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "q")]
    f1: u128,
}
fn z54(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z54::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z55 {
    #[stacks(key = "q")]
    p: i128,
    #[stacks(key = "p")]
    q: u128,
}
fn z55(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z55::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z56 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "q")]
    f1: bool,
}
fn z56(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z56::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z57 {
    #[stacks(key = "q")]
    p: i128,
    #[stacks(key = "p")]
    q: bool,
}
fn z57(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z57::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z58 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "q")]
    f1: String,
}
fn z58(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z58::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z59 {
    #[stacks(key = "q")]
    p: i128,
    #[stacks(key = "p")]
    q: String,
}
fn z59(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z59::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z60 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "q")]
    f1: Vec<u8>,
}
fn z60(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z60::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z61 {
    #[stacks(key = "q")]
    p: i128,
    #[stacks(key = "p")]
    q: Vec<u8>,
}
fn z61(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z61::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z62 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "q")]
    f1: Vec<String>,
}
fn z62(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z62::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z63 {
    #[stacks(key = "q")]
    p: i128,
    #[stacks(key = "p")]
    q: Vec<String>,
}
fn z63(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z63::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z64 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "q")]
    f1: Option<i128>,
}
fn z64(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z64::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z65 {
    #[stacks(key = "q")]
    p: i128,
    #[stacks(key = "p")]
    q: Option<i128>,
}
fn z65(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z65::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z66 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "q")]
    f1: Option<u128>,
}
fn z66(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z66::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z67 {
    #[stacks(key = "q")]
    p: i128,
    #[stacks(key = "p")]
    q: Option<u128>,
}
fn z67(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z67::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z68 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "q")]
    f1: Option<String>,
}
fn z68(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z68::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z69 {
    #[stacks(key = "q")]
    p: i128,
    #[stacks(key = "p")]
    q: Option<String>,
}
fn z69(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z69::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z70 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "q", response)]
    f1: i128,
}
fn z70(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z70::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z71 {
    #[stacks(key = "q")]
    p: i128,
    #[stacks(key = "p", response)]
    q: i128,
}
fn z71(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z71::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z72 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "q", response)]
    f1: u128,
}
fn z72(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z72::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z73 {
    #[stacks(key = "q")]
    p: i128,
    #[stacks(key = "p", response)]
    q: u128,
}
fn z73(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z73::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z74 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "q")]
    f1: N1,
}
fn z74(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z74::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z75 {
    #[stacks(key = "q")]
    p: i128,
    #[stacks(key = "p")]
    q: N1,
}
fn z75(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z75::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z76 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "q")]
    f1: N2,
}
fn z76(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z76::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z77 {
    #[stacks(key = "q")]
    p: i128,
    #[stacks(key = "p")]
    q: N2,
}
fn z77(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z77::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z78 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "q")]
    f1: i128,
}
fn z78(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z78::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z79 {
    #[stacks(key = "q")]
    p: u128,
    #[stacks(key = "p")]
    q: i128,
}
fn z79(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z79::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z80 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "q")]
    f1: u128,
}
fn z80(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z80::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z81 {
    #[stacks(key = "q")]
    p: u128,
    #[stacks(key = "p")]
    q: u128,
}
fn z81(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z81::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z82 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "q")]
    f1: bool,
}
fn z82(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z82::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z83 {
    #[stacks(key = "q")]
    p: u128,
    #[stacks(key = "p")]
    q: bool,
}
fn z83(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z83::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z84 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "q")]
    f1: String,
}
fn z84(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z84::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z85 {
    #[stacks(key = "q")]
    p: u128,
    #[stacks(key = "p")]
    q: String,
}
fn z85(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z85::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z86 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "q")]
    f1: Vec<u8>,
}
fn z86(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z86::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z87 {
    #[stacks(key = "q")]
    p: u128,
    #[stacks(key = "p")]
    q: Vec<u8>,
}
fn z87(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z87::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z88 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "q")]
    f1: Vec<String>,
}
fn z88(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z88::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z89 {
    #[stacks(key = "q")]
    p: u128,
    #[stacks(key = "p")]
    q: Vec<String>,
}
fn z89(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z89::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z90 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "q")]
    f1: Option<i128>,
}
fn z90(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z90::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z91 {
    #[stacks(key = "q")]
    p: u128,
    #[stacks(key = "p")]
    q: Option<i128>,
}
fn z91(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z91::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z92 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "q")]
    f1: Option<u128>,
}
fn z92(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z92::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z93 {
    #[stacks(key = "q")]
    p: u128,
    #[stacks(key = "p")]
    q: Option<u128>,
}
fn z93(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z93::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z94 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "q")]
    f1: Option<String>,
}
fn z94(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z94::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z95 {
    #[stacks(key = "q")]
    p: u128,
    #[stacks(key = "p")]
    q: Option<String>,
}
fn z95(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z95::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z96 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "q", response)]
    f1: i128,
}
fn z96(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z96::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z97 {
    #[stacks(key = "q")]
    p: u128,
    #[stacks(key = "p", response)]
    q: i128,
}
fn z97(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z97::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z98 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "q", response)]
    f1: u128,
}
fn z98(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z98::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z99 {
    #[stacks(key = "q")]
    p: u128,
    #[stacks(key = "p", response)]
    q: u128,
}
fn z99(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z99::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z100 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "q")]
    f1: N1,
}
fn z100(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z100::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z101 {
    #[stacks(key = "q")]
    p: u128,
    #[stacks(key = "p")]
    q: N1,
}
fn z101(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z101::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z102 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "q")]
    f1: N2,
}
fn z102(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z102::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z103 {
    #[stacks(key = "q")]
    p: u128,
    #[stacks(key = "p")]
    q: N2,
}
fn z103(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z103::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z104 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "q")]
    f1: i128,
}
fn z104(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z104::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z105 {
    #[stacks(key = "q")]
    p: bool,
    #[stacks(key = "p")]
    q: i128,
}
fn z105(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z105::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z106 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "q")]
    f1: u128,
}
fn z106(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z106::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z107 {
    #[stacks(key = "q")]
    p: bool,
    #[stacks(key = "p")]
    q: u128,
}
fn z107(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z107::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z108 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "q")]
    f1: bool,
}
fn z108(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z108::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z109 {
    #[stacks(key = "q")]
    p: bool,
    #[stacks(key = "p")]
    q: bool,
}
fn z109(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z109::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z110 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "q")]
    f1: String,
}
fn z110(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z110::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z111 {
    #[stacks(key = "q")]
    p: bool,
    #[stacks(key = "p")]
    q: String,
}
fn z111(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z111::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z112 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "q")]
    f1: Vec<u8>,
}
fn z112(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z112::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z113 {
    #[stacks(key = "q")]
    p: bool,
    #[stacks(key = "p")]
    q: Vec<u8>,
}
fn z113(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z113::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z114 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "q")]
    f1: Vec<String>,
}
fn z114(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z114::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z115 {
    #[stacks(key = "q")]
    p: bool,
    #[stacks(key = "p")]
    q: Vec<String>,
}
fn z115(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z115::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z116 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "q")]
    f1: Option<i128>,
}
fn z116(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z116::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z117 {
    #[stacks(key = "q")]
    p: bool,
    #[stacks(key = "p")]
    q: Option<i128>,
}
fn z117(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z117::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z118 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "q")]
    f1: Option<u128>,
}
fn z118(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z118::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z119 {
    #[stacks(key = "q")]
    p: bool,
    #[stacks(key = "p")]
    q: Option<u128>,
}
fn z119(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z119::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z120 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "q")]
    f1: Option<String>,
}
fn z120(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z120::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z121 {
    #[stacks(key = "q")]
    p: bool,
    #[stacks(key = "p")]
    q: Option<String>,
}
fn z121(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z121::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z122 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "q", response)]
    f1: i128,
}
fn z122(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z122::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z123 {
    #[stacks(key = "q")]
    p: bool,
    #[stacks(key = "p", response)]
    q: i128,
}
fn z123(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z123::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z124 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "q", response)]
    f1: u128,
}
fn z124(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z124::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z125 {
    #[stacks(key = "q")]
    p: bool,
    #[stacks(key = "p", response)]
    q: u128,
}
fn z125(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z125::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z126 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "q")]
    f1: N1,
}
fn z126(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z126::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z127 {
    #[stacks(key = "q")]
    p: bool,
    #[stacks(key = "p")]
    q: N1,
}
fn z127(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z127::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z128 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "q")]
    f1: N2,
}
fn z128(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z128::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z129 {
    #[stacks(key = "q")]
    p: bool,
    #[stacks(key = "p")]
    q: N2,
}
fn z129(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z129::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z130 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "q")]
    f1: i128,
}
fn z130(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z130::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z131 {
    #[stacks(key = "q")]
    p: String,
    #[stacks(key = "p")]
    q: i128,
}
fn z131(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z131::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z132 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "q")]
    f1: u128,
}
fn z132(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z132::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z133 {
    #[stacks(key = "q")]
    p: String,
    #[stacks(key = "p")]
    q: u128,
}
fn z133(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z133::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z134 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "q")]
    f1: bool,
}
fn z134(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z134::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z135 {
    #[stacks(key = "q")]
    p: String,
    #[stacks(key = "p")]
    q: bool,
}
fn z135(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z135::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z136 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "q")]
    f1: String,
}
fn z136(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z136::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z137 {
    #[stacks(key = "q")]
    p: String,
    #[stacks(key = "p")]
    q: String,
}
fn z137(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z137::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z138 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "q")]
    f1: Vec<u8>,
}
fn z138(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z138::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z139 {
    #[stacks(key = "q")]
    p: String,
    #[stacks(key = "p")]
    q: Vec<u8>,
}
fn z139(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z139::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z140 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "q")]
    f1: Vec<String>,
}
fn z140(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z140::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z141 {
    #[stacks(key = "q")]
    p: String,
    #[stacks(key = "p")]
    q: Vec<String>,
}
fn z141(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z141::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z142 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "q")]
    f1: Option<i128>,
}
fn z142(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z142::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z143 {
    #[stacks(key = "q")]
    p: String,
    #[stacks(key = "p")]
    q: Option<i128>,
}
fn z143(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z143::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z144 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "q")]
    f1: Option<u128>,
}
fn z144(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z144::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z145 {
    #[stacks(key = "q")]
    p: String,
    #[stacks(key = "p")]
    q: Option<u128>,
}
fn z145(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z145::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z146 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "q")]
    f1: Option<String>,
}
fn z146(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z146::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z147 {
    #[stacks(key = "q")]
    p: String,
    #[stacks(key = "p")]
    q: Option<String>,
}
fn z147(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z147::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z148 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "q", response)]
    f1: i128,
}
fn z148(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z148::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z149 {
    #[stacks(key = "q")]
    p: String,
    #[stacks(key = "p", response)]
    q: i128,
}
fn z149(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z149::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z150 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "q", response)]
    f1: u128,
}
fn z150(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z150::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z151 {
    #[stacks(key = "q")]
    p: String,
    #[stacks(key = "p", response)]
    q: u128,
}
fn z151(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z151::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z152 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "q")]
    f1: N1,
}
fn z152(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z152::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z153 {
    #[stacks(key = "q")]
    p: String,
    #[stacks(key = "p")]
    q: N1,
}
fn z153(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z153::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z154 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "q")]
    f1: N2,
}
fn z154(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z154::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z155 {
    #[stacks(key = "q")]
    p: String,
    #[stacks(key = "p")]
    q: N2,
}
fn z155(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z155::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z156 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "q")]
    f1: i128,
}
fn z156(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z156::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z157 {
    #[stacks(key = "q")]
    p: Vec<u8>,
    #[stacks(key = "p")]
    q: i128,
}
fn z157(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z157::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z158 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "q")]
    f1: u128,
}
fn z158(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z158::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z159 {
    #[stacks(key = "q")]
    p: Vec<u8>,
    #[stacks(key = "p")]
    q: u128,
}
fn z159(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z159::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z160 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "q")]
    f1: bool,
}
fn z160(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z160::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z161 {
    #[stacks(key = "q")]
    p: Vec<u8>,
    #[stacks(key = "p")]
    q: bool,
}
fn z161(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z161::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z162 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "q")]
    f1: String,
}
fn z162(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z162::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z163 {
    #[stacks(key = "q")]
    p: Vec<u8>,
    #[stacks(key = "p")]
    q: String,
}
fn z163(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z163::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z164 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "q")]
    f1: Vec<u8>,
}
fn z164(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z164::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z165 {
    #[stacks(key = "q")]
    p: Vec<u8>,
    #[stacks(key = "p")]
    q: Vec<u8>,
}
fn z165(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z165::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z166 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "q")]
    f1: Vec<String>,
}
fn z166(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z166::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z167 {
    #[stacks(key = "q")]
    p: Vec<u8>,
    #[stacks(key = "p")]
    q: Vec<String>,
}
fn z167(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z167::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z168 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "q")]
    f1: Option<i128>,
}
fn z168(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z168::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z169 {
    #[stacks(key = "q")]
    p: Vec<u8>,
    #[stacks(key = "p")]
    q: Option<i128>,
}
fn z169(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z169::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z170 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "q")]
    f1: Option<u128>,
}
fn z170(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z170::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z171 {
    #[stacks(key = "q")]
    p: Vec<u8>,
    #[stacks(key = "p")]
    q: Option<u128>,
}
fn z171(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z171::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z172 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "q")]
    f1: Option<String>,
}
fn z172(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z172::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z173 {
    #[stacks(key = "q")]
    p: Vec<u8>,
    #[stacks(key = "p")]
    q: Option<String>,
}
fn z173(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z173::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z174 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "q", response)]
    f1: i128,
}
fn z174(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z174::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z175 {
    #[stacks(key = "q")]
    p: Vec<u8>,
    #[stacks(key = "p", response)]
    q: i128,
}
fn z175(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z175::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z176 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "q", response)]
    f1: u128,
}
fn z176(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z176::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z177 {
    #[stacks(key = "q")]
    p: Vec<u8>,
    #[stacks(key = "p", response)]
    q: u128,
}
fn z177(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z177::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z178 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "q")]
    f1: N1,
}
fn z178(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z178::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z179 {
    #[stacks(key = "q")]
    p: Vec<u8>,
    #[stacks(key = "p")]
    q: N1,
}
fn z179(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z179::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z180 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "q")]
    f1: N2,
}
fn z180(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z180::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z181 {
    #[stacks(key = "q")]
    p: Vec<u8>,
    #[stacks(key = "p")]
    q: N2,
}
fn z181(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z181::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z182 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "q")]
    f1: i128,
}
fn z182(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z182::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z183 {
    #[stacks(key = "q")]
    p: Vec<String>,
    #[stacks(key = "p")]
    q: i128,
}
fn z183(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z183::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z184 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "q")]
    f1: u128,
}
fn z184(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z184::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z185 {
    #[stacks(key = "q")]
    p: Vec<String>,
    #[stacks(key = "p")]
    q: u128,
}
fn z185(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z185::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z186 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "q")]
    f1: bool,
}
fn z186(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z186::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z187 {
    #[stacks(key = "q")]
    p: Vec<String>,
    #[stacks(key = "p")]
    q: bool,
}
fn z187(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z187::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z188 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "q")]
    f1: String,
}
fn z188(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z188::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z189 {
    #[stacks(key = "q")]
    p: Vec<String>,
    #[stacks(key = "p")]
    q: String,
}
fn z189(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z189::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z190 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "q")]
    f1: Vec<u8>,
}
fn z190(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z190::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z191 {
    #[stacks(key = "q")]
    p: Vec<String>,
    #[stacks(key = "p")]
    q: Vec<u8>,
}
fn z191(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z191::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z192 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "q")]
    f1: Vec<String>,
}
fn z192(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z192::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z193 {
    #[stacks(key = "q")]
    p: Vec<String>,
    #[stacks(key = "p")]
    q: Vec<String>,
}
fn z193(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z193::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z194 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "q")]
    f1: Option<i128>,
}
fn z194(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z194::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z195 {
    #[stacks(key = "q")]
    p: Vec<String>,
    #[stacks(key = "p")]
    q: Option<i128>,
}
fn z195(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z195::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z196 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "q")]
    f1: Option<u128>,
}
fn z196(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z196::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z197 {
    #[stacks(key = "q")]
    p: Vec<String>,
    #[stacks(key = "p")]
    q: Option<u128>,
}
fn z197(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z197::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z198 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "q")]
    f1: Option<String>,
}
fn z198(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z198::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z199 {
    #[stacks(key = "q")]
    p: Vec<String>,
    #[stacks(key = "p")]
    q: Option<String>,
}
fn z199(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z199::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z200 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "q", response)]
    f1: i128,
}
fn z200(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z200::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z201 {
    #[stacks(key = "q")]
    p: Vec<String>,
    #[stacks(key = "p", response)]
    q: i128,
}
fn z201(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z201::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z202 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "q", response)]
    f1: u128,
}
fn z202(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z202::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z203 {
    #[stacks(key = "q")]
    p: Vec<String>,
    #[stacks(key = "p", response)]
    q: u128,
}
fn z203(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z203::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z204 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "q")]
    f1: N1,
}
fn z204(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z204::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z205 {
    #[stacks(key = "q")]
    p: Vec<String>,
    #[stacks(key = "p")]
    q: N1,
}
fn z205(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z205::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z206 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "q")]
    f1: N2,
}
fn z206(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z206::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z207 {
    #[stacks(key = "q")]
    p: Vec<String>,
    #[stacks(key = "p")]
    q: N2,
}
fn z207(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z207::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z208 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "q")]
    f1: i128,
}
fn z208(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z208::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z209 {
    #[stacks(key = "q")]
    p: Option<i128>,
    #[stacks(key = "p")]
    q: i128,
}
fn z209(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z209::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z210 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "q")]
    f1: u128,
}
fn z210(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z210::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z211 {
    #[stacks(key = "q")]
    p: Option<i128>,
    #[stacks(key = "p")]
    q: u128,
}
fn z211(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z211::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z212 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "q")]
    f1: bool,
}
fn z212(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z212::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z213 {
    #[stacks(key = "q")]
    p: Option<i128>,
    #[stacks(key = "p")]
    q: bool,
}
fn z213(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z213::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z214 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "q")]
    f1: String,
}
fn z214(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z214::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z215 {
    #[stacks(key = "q")]
    p: Option<i128>,
    #[stacks(key = "p")]
    q: String,
}
fn z215(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z215::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z216 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "q")]
    f1: Vec<u8>,
}
fn z216(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z216::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z217 {
    #[stacks(key = "q")]
    p: Option<i128>,
    #[stacks(key = "p")]
    q: Vec<u8>,
}
fn z217(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z217::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z218 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "q")]
    f1: Vec<String>,
}
fn z218(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z218::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z219 {
    #[stacks(key = "q")]
    p: Option<i128>,
    #[stacks(key = "p")]
    q: Vec<String>,
}
fn z219(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z219::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z220 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "q")]
    f1: Option<i128>,
}
fn z220(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z220::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z221 {
    #[stacks(key = "q")]
    p: Option<i128>,
    #[stacks(key = "p")]
    q: Option<i128>,
}
fn z221(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z221::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z222 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "q")]
    f1: Option<u128>,
}
fn z222(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z222::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z223 {
    #[stacks(key = "q")]
    p: Option<i128>,
    #[stacks(key = "p")]
    q: Option<u128>,
}
fn z223(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z223::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z224 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "q")]
    f1: Option<String>,
}
fn z224(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z224::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z225 {
    #[stacks(key = "q")]
    p: Option<i128>,
    #[stacks(key = "p")]
    q: Option<String>,
}
fn z225(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z225::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z226 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "q", response)]
    f1: i128,
}
fn z226(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z226::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z227 {
    #[stacks(key = "q")]
    p: Option<i128>,
    #[stacks(key = "p", response)]
    q: i128,
}
fn z227(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z227::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z228 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "q", response)]
    f1: u128,
}
fn z228(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z228::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z229 {
    #[stacks(key = "q")]
    p: Option<i128>,
    #[stacks(key = "p", response)]
    q: u128,
}
fn z229(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z229::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z230 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "q")]
    f1: N1,
}
fn z230(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z230::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z231 {
    #[stacks(key = "q")]
    p: Option<i128>,
    #[stacks(key = "p")]
    q: N1,
}
fn z231(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z231::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z232 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "q")]
    f1: N2,
}
fn z232(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z232::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z233 {
    #[stacks(key = "q")]
    p: Option<i128>,
    #[stacks(key = "p")]
    q: N2,
}
fn z233(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z233::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z234 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "q")]
    f1: i128,
}
fn z234(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z234::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z235 {
    #[stacks(key = "q")]
    p: Option<u128>,
    #[stacks(key = "p")]
    q: i128,
}
fn z235(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z235::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z236 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "q")]
    f1: u128,
}
fn z236(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z236::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z237 {
    #[stacks(key = "q")]
    p: Option<u128>,
    #[stacks(key = "p")]
    q: u128,
}
fn z237(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z237::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z238 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "q")]
    f1: bool,
}
fn z238(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z238::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z239 {
    #[stacks(key = "q")]
    p: Option<u128>,
    #[stacks(key = "p")]
    q: bool,
}
fn z239(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z239::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z240 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "q")]
    f1: String,
}
fn z240(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z240::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z241 {
    #[stacks(key = "q")]
    p: Option<u128>,
    #[stacks(key = "p")]
    q: String,
}
fn z241(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z241::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z242 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "q")]
    f1: Vec<u8>,
}
fn z242(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z242::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z243 {
    #[stacks(key = "q")]
    p: Option<u128>,
    #[stacks(key = "p")]
    q: Vec<u8>,
}
fn z243(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z243::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z244 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "q")]
    f1: Vec<String>,
}
fn z244(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z244::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z245 {
    #[stacks(key = "q")]
    p: Option<u128>,
    #[stacks(key = "p")]
    q: Vec<String>,
}
fn z245(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z245::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z246 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "q")]
    f1: Option<i128>,
}
fn z246(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z246::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z247 {
    #[stacks(key = "q")]
    p: Option<u128>,
    #[stacks(key = "p")]
    q: Option<i128>,
}
fn z247(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z247::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z248 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "q")]
    f1: Option<u128>,
}
fn z248(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z248::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z249 {
    #[stacks(key = "q")]
    p: Option<u128>,
    #[stacks(key = "p")]
    q: Option<u128>,
}
fn z249(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z249::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z250 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "q")]
    f1: Option<String>,
}
fn z250(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z250::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z251 {
    #[stacks(key = "q")]
    p: Option<u128>,
    #[stacks(key = "p")]
    q: Option<String>,
}
fn z251(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z251::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z252 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "q", response)]
    f1: i128,
}
fn z252(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z252::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z253 {
    #[stacks(key = "q")]
    p: Option<u128>,
    #[stacks(key = "p", response)]
    q: i128,
}
fn z253(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z253::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z254 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "q", response)]
    f1: u128,
}
fn z254(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z254::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z255 {
    #[stacks(key = "q")]
    p: Option<u128>,
    #[stacks(key = "p", response)]
    q: u128,
}
fn z255(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z255::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z256 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "q")]
    f1: N1,
}
fn z256(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z256::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z257 {
    #[stacks(key = "q")]
    p: Option<u128>,
    #[stacks(key = "p")]
    q: N1,
}
fn z257(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z257::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z258 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "q")]
    f1: N2,
}
fn z258(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z258::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z259 {
    #[stacks(key = "q")]
    p: Option<u128>,
    #[stacks(key = "p")]
    q: N2,
}
fn z259(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z259::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z260 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "q")]
    f1: i128,
}
fn z260(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z260::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z261 {
    #[stacks(key = "q")]
    p: Option<String>,
    #[stacks(key = "p")]
    q: i128,
}
fn z261(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z261::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z262 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "q")]
    f1: u128,
}
fn z262(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z262::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z263 {
    #[stacks(key = "q")]
    p: Option<String>,
    #[stacks(key = "p")]
    q: u128,
}
fn z263(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z263::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z264 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "q")]
    f1: bool,
}
fn z264(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z264::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z265 {
    #[stacks(key = "q")]
    p: Option<String>,
    #[stacks(key = "p")]
    q: bool,
}
fn z265(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z265::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z266 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "q")]
    f1: String,
}
fn z266(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z266::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z267 {
    #[stacks(key = "q")]
    p: Option<String>,
    #[stacks(key = "p")]
    q: String,
}
fn z267(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z267::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z268 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "q")]
    f1: Vec<u8>,
}
fn z268(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z268::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z269 {
    #[stacks(key = "q")]
    p: Option<String>,
    #[stacks(key = "p")]
    q: Vec<u8>,
}
fn z269(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z269::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z270 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "q")]
    f1: Vec<String>,
}
fn z270(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z270::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z271 {
    #[stacks(key = "q")]
    p: Option<String>,
    #[stacks(key = "p")]
    q: Vec<String>,
}
fn z271(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z271::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z272 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "q")]
    f1: Option<i128>,
}
fn z272(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z272::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z273 {
    #[stacks(key = "q")]
    p: Option<String>,
    #[stacks(key = "p")]
    q: Option<i128>,
}
fn z273(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z273::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z274 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "q")]
    f1: Option<u128>,
}
fn z274(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z274::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z275 {
    #[stacks(key = "q")]
    p: Option<String>,
    #[stacks(key = "p")]
    q: Option<u128>,
}
fn z275(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z275::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z276 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "q")]
    f1: Option<String>,
}
fn z276(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z276::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z277 {
    #[stacks(key = "q")]
    p: Option<String>,
    #[stacks(key = "p")]
    q: Option<String>,
}
fn z277(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z277::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z278 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "q", response)]
    f1: i128,
}
fn z278(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z278::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z279 {
    #[stacks(key = "q")]
    p: Option<String>,
    #[stacks(key = "p", response)]
    q: i128,
}
fn z279(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z279::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z280 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "q", response)]
    f1: u128,
}
fn z280(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z280::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z281 {
    #[stacks(key = "q")]
    p: Option<String>,
    #[stacks(key = "p", response)]
    q: u128,
}
fn z281(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z281::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z282 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "q")]
    f1: N1,
}
fn z282(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z282::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z283 {
    #[stacks(key = "q")]
    p: Option<String>,
    #[stacks(key = "p")]
    q: N1,
}
fn z283(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z283::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z284 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "q")]
    f1: N2,
}
fn z284(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z284::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z285 {
    #[stacks(key = "q")]
    p: Option<String>,
    #[stacks(key = "p")]
    q: N2,
}
fn z285(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z285::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z286 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "q")]
    f1: i128,
}
fn z286(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z286::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z287 {
    #[stacks(key = "q", response)]
    p: i128,
    #[stacks(key = "p")]
    q: i128,
}
fn z287(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z287::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z288 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "q")]
    f1: u128,
}
fn z288(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z288::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z289 {
    #[stacks(key = "q", response)]
    p: i128,
    #[stacks(key = "p")]
    q: u128,
}
fn z289(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z289::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z290 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "q")]
    f1: bool,
}
fn z290(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z290::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z291 {
    #[stacks(key = "q", response)]
    p: i128,
    #[stacks(key = "p")]
    q: bool,
}
fn z291(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z291::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z292 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "q")]
    f1: String,
}
fn z292(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z292::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z293 {
    #[stacks(key = "q", response)]
    p: i128,
    #[stacks(key = "p")]
    q: String,
}
fn z293(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z293::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z294 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "q")]
    f1: Vec<u8>,
}
fn z294(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z294::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z295 {
    #[stacks(key = "q", response)]
    p: i128,
    #[stacks(key = "p")]
    q: Vec<u8>,
}
fn z295(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z295::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z296 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "q")]
    f1: Vec<String>,
}
fn z296(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z296::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z297 {
    #[stacks(key = "q", response)]
    p: i128,
    #[stacks(key = "p")]
    q: Vec<String>,
}
fn z297(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z297::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z298 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "q")]
    f1: Option<i128>,
}
fn z298(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z298::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z299 {
    #[stacks(key = "q", response)]
    p: i128,
    #[stacks(key = "p")]
    q: Option<i128>,
}
fn z299(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z299::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z300 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "q")]
    f1: Option<u128>,
}
fn z300(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z300::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z301 {
    #[stacks(key = "q", response)]
    p: i128,
    #[stacks(key = "p")]
    q: Option<u128>,
}
fn z301(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z301::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z302 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "q")]
    f1: Option<String>,
}
fn z302(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z302::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z303 {
    #[stacks(key = "q", response)]
    p: i128,
    #[stacks(key = "p")]
    q: Option<String>,
}
fn z303(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z303::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z304 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "q", response)]
    f1: i128,
}
fn z304(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z304::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z305 {
    #[stacks(key = "q", response)]
    p: i128,
    #[stacks(key = "p", response)]
    q: i128,
}
fn z305(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z305::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z306 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "q", response)]
    f1: u128,
}
fn z306(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z306::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z307 {
    #[stacks(key = "q", response)]
    p: i128,
    #[stacks(key = "p", response)]
    q: u128,
}
fn z307(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z307::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z308 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "q")]
    f1: N1,
}
fn z308(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z308::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z309 {
    #[stacks(key = "q", response)]
    p: i128,
    #[stacks(key = "p")]
    q: N1,
}
fn z309(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z309::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z310 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "q")]
    f1: N2,
}
fn z310(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z310::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z311 {
    #[stacks(key = "q", response)]
    p: i128,
    #[stacks(key = "p")]
    q: N2,
}
fn z311(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z311::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z312 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "q")]
    f1: i128,
}
fn z312(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z312::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z313 {
    #[stacks(key = "q", response)]
    p: u128,
    #[stacks(key = "p")]
    q: i128,
}
fn z313(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z313::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z314 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "q")]
    f1: u128,
}
fn z314(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z314::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z315 {
    #[stacks(key = "q", response)]
    p: u128,
    #[stacks(key = "p")]
    q: u128,
}
fn z315(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z315::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z316 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "q")]
    f1: bool,
}
fn z316(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z316::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z317 {
    #[stacks(key = "q", response)]
    p: u128,
    #[stacks(key = "p")]
    q: bool,
}
fn z317(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z317::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z318 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "q")]
    f1: String,
}
fn z318(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z318::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z319 {
    #[stacks(key = "q", response)]
    p: u128,
    #[stacks(key = "p")]
    q: String,
}
fn z319(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z319::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z320 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "q")]
    f1: Vec<u8>,
}
fn z320(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z320::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z321 {
    #[stacks(key = "q", response)]
    p: u128,
    #[stacks(key = "p")]
    q: Vec<u8>,
}
fn z321(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z321::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z322 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "q")]
    f1: Vec<String>,
}
fn z322(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z322::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z323 {
    #[stacks(key = "q", response)]
    p: u128,
    #[stacks(key = "p")]
    q: Vec<String>,
}
fn z323(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z323::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z324 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "q")]
    f1: Option<i128>,
}
fn z324(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z324::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z325 {
    #[stacks(key = "q", response)]
    p: u128,
    #[stacks(key = "p")]
    q: Option<i128>,
}
fn z325(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z325::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z326 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "q")]
    f1: Option<u128>,
}
fn z326(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z326::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z327 {
    #[stacks(key = "q", response)]
    p: u128,
    #[stacks(key = "p")]
    q: Option<u128>,
}
fn z327(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z327::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z328 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "q")]
    f1: Option<String>,
}
fn z328(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z328::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z329 {
    #[stacks(key = "q", response)]
    p: u128,
    #[stacks(key = "p")]
    q: Option<String>,
}
fn z329(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z329::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z330 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "q", response)]
    f1: i128,
}
fn z330(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z330::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z331 {
    #[stacks(key = "q", response)]
    p: u128,
    #[stacks(key = "p", response)]
    q: i128,
}
fn z331(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z331::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z332 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "q", response)]
    f1: u128,
}
fn z332(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z332::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z333 {
    #[stacks(key = "q", response)]
    p: u128,
    #[stacks(key = "p", response)]
    q: u128,
}
fn z333(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z333::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z334 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "q")]
    f1: N1,
}
fn z334(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z334::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z335 {
    #[stacks(key = "q", response)]
    p: u128,
    #[stacks(key = "p")]
    q: N1,
}
fn z335(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z335::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z336 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "q")]
    f1: N2,
}
fn z336(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z336::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z337 {
    #[stacks(key = "q", response)]
    p: u128,
    #[stacks(key = "p")]
    q: N2,
}
fn z337(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z337::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z338 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "q")]
    f1: i128,
}
fn z338(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z338::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z339 {
    #[stacks(key = "q")]
    p: N1,
    #[stacks(key = "p")]
    q: i128,
}
fn z339(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z339::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z340 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "q")]
    f1: u128,
}
fn z340(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z340::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z341 {
    #[stacks(key = "q")]
    p: N1,
    #[stacks(key = "p")]
    q: u128,
}
fn z341(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z341::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z342 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "q")]
    f1: bool,
}
fn z342(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z342::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z343 {
    #[stacks(key = "q")]
    p: N1,
    #[stacks(key = "p")]
    q: bool,
}
fn z343(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z343::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z344 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "q")]
    f1: String,
}
fn z344(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z344::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z345 {
    #[stacks(key = "q")]
    p: N1,
    #[stacks(key = "p")]
    q: String,
}
fn z345(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z345::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z346 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "q")]
    f1: Vec<u8>,
}
fn z346(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z346::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z347 {
    #[stacks(key = "q")]
    p: N1,
    #[stacks(key = "p")]
    q: Vec<u8>,
}
fn z347(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z347::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z348 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "q")]
    f1: Vec<String>,
}
fn z348(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z348::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z349 {
    #[stacks(key = "q")]
    p: N1,
    #[stacks(key = "p")]
    q: Vec<String>,
}
fn z349(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z349::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z350 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "q")]
    f1: Option<i128>,
}
fn z350(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z350::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z351 {
    #[stacks(key = "q")]
    p: N1,
    #[stacks(key = "p")]
    q: Option<i128>,
}
fn z351(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z351::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z352 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "q")]
    f1: Option<u128>,
}
fn z352(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z352::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z353 {
    #[stacks(key = "q")]
    p: N1,
    #[stacks(key = "p")]
    q: Option<u128>,
}
fn z353(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z353::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z354 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "q")]
    f1: Option<String>,
}
fn z354(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z354::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z355 {
    #[stacks(key = "q")]
    p: N1,
    #[stacks(key = "p")]
    q: Option<String>,
}
fn z355(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z355::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z356 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "q", response)]
    f1: i128,
}
fn z356(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z356::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z357 {
    #[stacks(key = "q")]
    p: N1,
    #[stacks(key = "p", response)]
    q: i128,
}
fn z357(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z357::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z358 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "q", response)]
    f1: u128,
}
fn z358(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z358::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z359 {
    #[stacks(key = "q")]
    p: N1,
    #[stacks(key = "p", response)]
    q: u128,
}
fn z359(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z359::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z360 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "q")]
    f1: N1,
}
fn z360(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z360::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z361 {
    #[stacks(key = "q")]
    p: N1,
    #[stacks(key = "p")]
    q: N1,
}
fn z361(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z361::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z362 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "q")]
    f1: N2,
}
fn z362(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z362::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z363 {
    #[stacks(key = "q")]
    p: N1,
    #[stacks(key = "p")]
    q: N2,
}
fn z363(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z363::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z364 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "q")]
    f1: i128,
}
fn z364(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z364::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z365 {
    #[stacks(key = "q")]
    p: N2,
    #[stacks(key = "p")]
    q: i128,
}
fn z365(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z365::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z366 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "q")]
    f1: u128,
}
fn z366(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z366::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z367 {
    #[stacks(key = "q")]
    p: N2,
    #[stacks(key = "p")]
    q: u128,
}
fn z367(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z367::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z368 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "q")]
    f1: bool,
}
fn z368(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z368::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z369 {
    #[stacks(key = "q")]
    p: N2,
    #[stacks(key = "p")]
    q: bool,
}
fn z369(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z369::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z370 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "q")]
    f1: String,
}
fn z370(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z370::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z371 {
    #[stacks(key = "q")]
    p: N2,
    #[stacks(key = "p")]
    q: String,
}
fn z371(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z371::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z372 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "q")]
    f1: Vec<u8>,
}
fn z372(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z372::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z373 {
    #[stacks(key = "q")]
    p: N2,
    #[stacks(key = "p")]
    q: Vec<u8>,
}
fn z373(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z373::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z374 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "q")]
    f1: Vec<String>,
}
fn z374(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z374::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z375 {
    #[stacks(key = "q")]
    p: N2,
    #[stacks(key = "p")]
    q: Vec<String>,
}
fn z375(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z375::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z376 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "q")]
    f1: Option<i128>,
}
fn z376(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z376::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z377 {
    #[stacks(key = "q")]
    p: N2,
    #[stacks(key = "p")]
    q: Option<i128>,
}
fn z377(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z377::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z378 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "q")]
    f1: Option<u128>,
}
fn z378(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z378::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z379 {
    #[stacks(key = "q")]
    p: N2,
    #[stacks(key = "p")]
    q: Option<u128>,
}
fn z379(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z379::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z380 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "q")]
    f1: Option<String>,
}
fn z380(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z380::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z381 {
    #[stacks(key = "q")]
    p: N2,
    #[stacks(key = "p")]
    q: Option<String>,
}
fn z381(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z381::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z382 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "q", response)]
    f1: i128,
}
fn z382(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z382::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z383 {
    #[stacks(key = "q")]
    p: N2,
    #[stacks(key = "p", response)]
    q: i128,
}
fn z383(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z383::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z384 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "q", response)]
    f1: u128,
}
fn z384(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z384::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z385 {
    #[stacks(key = "q")]
    p: N2,
    #[stacks(key = "p", response)]
    q: u128,
}
fn z385(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z385::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z386 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "q")]
    f1: N1,
}
fn z386(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z386::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z387 {
    #[stacks(key = "q")]
    p: N2,
    #[stacks(key = "p")]
    q: N1,
}
fn z387(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z387::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z388 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "q")]
    f1: N2,
}
fn z388(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z388::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z389 {
    #[stacks(key = "q")]
    p: N2,
    #[stacks(key = "p")]
    q: N2,
}
fn z389(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z389::try_from(t), |s| vec![s.p.into(), s.q.into()])
}
#[derive(FromTuple)]
struct Z390 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "p")]
    f1: i128,
}
fn z390(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z390::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z391 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "p")]
    f1: u128,
}
fn z391(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z391::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z392 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "p")]
    f1: bool,
}
fn z392(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z392::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z393 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "p")]
    f1: String,
}
fn z393(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z393::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z394 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "p")]
    f1: Vec<u8>,
}
fn z394(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z394::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z395 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "p")]
    f1: Vec<String>,
}
fn z395(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z395::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z396 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "p")]
    f1: Option<i128>,
}
fn z396(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z396::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z397 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "p")]
    f1: Option<u128>,
}
fn z397(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z397::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z398 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "p")]
    f1: Option<String>,
}
fn z398(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z398::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z399 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "p", response)]
    f1: i128,
}
fn z399(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z399::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z400 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "p", response)]
    f1: u128,
}
fn z400(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z400::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z401 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "p")]
    f1: N1,
}
fn z401(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z401::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z402 {
    #[stacks(key = "p")]
    f0: i128,
    #[stacks(key = "p")]
    f1: N2,
}
fn z402(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z402::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z403 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "p")]
    f1: i128,
}
fn z403(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z403::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z404 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "p")]
    f1: u128,
}
fn z404(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z404::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z405 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "p")]
    f1: bool,
}
fn z405(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z405::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z406 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "p")]
    f1: String,
}
fn z406(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z406::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z407 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "p")]
    f1: Vec<u8>,
}
fn z407(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z407::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z408 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "p")]
    f1: Vec<String>,
}
fn z408(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z408::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z409 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "p")]
    f1: Option<i128>,
}
fn z409(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z409::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z410 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "p")]
    f1: Option<u128>,
}
fn z410(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z410::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z411 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "p")]
    f1: Option<String>,
}
fn z411(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z411::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z412 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "p", response)]
    f1: i128,
}
fn z412(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z412::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z413 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "p", response)]
    f1: u128,
}
fn z413(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z413::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z414 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "p")]
    f1: N1,
}
fn z414(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z414::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z415 {
    #[stacks(key = "p")]
    f0: u128,
    #[stacks(key = "p")]
    f1: N2,
}
fn z415(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z415::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z416 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "p")]
    f1: i128,
}
fn z416(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z416::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z417 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "p")]
    f1: u128,
}
fn z417(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z417::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z418 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "p")]
    f1: bool,
}
fn z418(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z418::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z419 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "p")]
    f1: String,
}
fn z419(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z419::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z420 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "p")]
    f1: Vec<u8>,
}
fn z420(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z420::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z421 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "p")]
    f1: Vec<String>,
}
fn z421(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z421::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z422 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "p")]
    f1: Option<i128>,
}
fn z422(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z422::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z423 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "p")]
    f1: Option<u128>,
}
fn z423(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z423::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z424 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "p")]
    f1: Option<String>,
}
fn z424(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z424::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z425 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "p", response)]
    f1: i128,
}
fn z425(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z425::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z426 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "p", response)]
    f1: u128,
}
fn z426(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z426::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z427 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "p")]
    f1: N1,
}
fn z427(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z427::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z428 {
    #[stacks(key = "p")]
    f0: bool,
    #[stacks(key = "p")]
    f1: N2,
}
fn z428(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z428::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z429 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "p")]
    f1: i128,
}
fn z429(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z429::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z430 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "p")]
    f1: u128,
}
fn z430(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z430::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z431 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "p")]
    f1: bool,
}
fn z431(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z431::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z432 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "p")]
    f1: String,
}
fn z432(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z432::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z433 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "p")]
    f1: Vec<u8>,
}
fn z433(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z433::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z434 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "p")]
    f1: Vec<String>,
}
fn z434(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z434::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z435 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "p")]
    f1: Option<i128>,
}
fn z435(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z435::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z436 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "p")]
    f1: Option<u128>,
}
fn z436(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z436::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z437 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "p")]
    f1: Option<String>,
}
fn z437(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z437::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z438 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "p", response)]
    f1: i128,
}
fn z438(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z438::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z439 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "p", response)]
    f1: u128,
}
fn z439(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z439::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z440 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "p")]
    f1: N1,
}
fn z440(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z440::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z441 {
    #[stacks(key = "p")]
    f0: String,
    #[stacks(key = "p")]
    f1: N2,
}
fn z441(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z441::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z442 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "p")]
    f1: i128,
}
fn z442(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z442::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z443 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "p")]
    f1: u128,
}
fn z443(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z443::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z444 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "p")]
    f1: bool,
}
fn z444(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z444::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z445 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "p")]
    f1: String,
}
fn z445(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z445::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z446 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "p")]
    f1: Vec<u8>,
}
fn z446(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z446::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z447 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "p")]
    f1: Vec<String>,
}
fn z447(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z447::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z448 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "p")]
    f1: Option<i128>,
}
fn z448(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z448::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z449 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "p")]
    f1: Option<u128>,
}
fn z449(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z449::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z450 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "p")]
    f1: Option<String>,
}
fn z450(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z450::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z451 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "p", response)]
    f1: i128,
}
fn z451(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z451::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z452 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "p", response)]
    f1: u128,
}
fn z452(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z452::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z453 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "p")]
    f1: N1,
}
fn z453(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z453::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z454 {
    #[stacks(key = "p")]
    f0: Vec<u8>,
    #[stacks(key = "p")]
    f1: N2,
}
fn z454(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z454::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z455 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "p")]
    f1: i128,
}
fn z455(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z455::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z456 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "p")]
    f1: u128,
}
fn z456(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z456::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z457 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "p")]
    f1: bool,
}
fn z457(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z457::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z458 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "p")]
    f1: String,
}
fn z458(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z458::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z459 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "p")]
    f1: Vec<u8>,
}
fn z459(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z459::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z460 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "p")]
    f1: Vec<String>,
}
fn z460(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z460::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z461 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "p")]
    f1: Option<i128>,
}
fn z461(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z461::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z462 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "p")]
    f1: Option<u128>,
}
fn z462(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z462::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z463 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "p")]
    f1: Option<String>,
}
fn z463(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z463::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z464 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "p", response)]
    f1: i128,
}
fn z464(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z464::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z465 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "p", response)]
    f1: u128,
}
fn z465(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z465::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z466 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "p")]
    f1: N1,
}
fn z466(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z466::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z467 {
    #[stacks(key = "p")]
    f0: Vec<String>,
    #[stacks(key = "p")]
    f1: N2,
}
fn z467(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z467::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z468 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "p")]
    f1: i128,
}
fn z468(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z468::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z469 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "p")]
    f1: u128,
}
fn z469(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z469::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z470 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "p")]
    f1: bool,
}
fn z470(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z470::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z471 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "p")]
    f1: String,
}
fn z471(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z471::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z472 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "p")]
    f1: Vec<u8>,
}
fn z472(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z472::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z473 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "p")]
    f1: Vec<String>,
}
fn z473(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z473::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z474 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "p")]
    f1: Option<i128>,
}
fn z474(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z474::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z475 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "p")]
    f1: Option<u128>,
}
fn z475(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z475::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z476 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "p")]
    f1: Option<String>,
}
fn z476(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z476::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z477 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "p", response)]
    f1: i128,
}
fn z477(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z477::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z478 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "p", response)]
    f1: u128,
}
fn z478(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z478::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z479 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "p")]
    f1: N1,
}
fn z479(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z479::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z480 {
    #[stacks(key = "p")]
    f0: Option<i128>,
    #[stacks(key = "p")]
    f1: N2,
}
fn z480(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z480::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z481 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "p")]
    f1: i128,
}
fn z481(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z481::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z482 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "p")]
    f1: u128,
}
fn z482(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z482::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z483 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "p")]
    f1: bool,
}
fn z483(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z483::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z484 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "p")]
    f1: String,
}
fn z484(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z484::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z485 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "p")]
    f1: Vec<u8>,
}
fn z485(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z485::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z486 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "p")]
    f1: Vec<String>,
}
fn z486(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z486::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z487 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "p")]
    f1: Option<i128>,
}
fn z487(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z487::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z488 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "p")]
    f1: Option<u128>,
}
fn z488(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z488::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z489 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "p")]
    f1: Option<String>,
}
fn z489(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z489::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z490 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "p", response)]
    f1: i128,
}
fn z490(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z490::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z491 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "p", response)]
    f1: u128,
}
fn z491(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z491::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z492 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "p")]
    f1: N1,
}
fn z492(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z492::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z493 {
    #[stacks(key = "p")]
    f0: Option<u128>,
    #[stacks(key = "p")]
    f1: N2,
}
fn z493(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z493::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z494 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "p")]
    f1: i128,
}
fn z494(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z494::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z495 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "p")]
    f1: u128,
}
fn z495(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z495::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z496 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "p")]
    f1: bool,
}
fn z496(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z496::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z497 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "p")]
    f1: String,
}
fn z497(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z497::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z498 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "p")]
    f1: Vec<u8>,
}
fn z498(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z498::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z499 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "p")]
    f1: Vec<String>,
}
fn z499(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z499::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z500 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "p")]
    f1: Option<i128>,
}
fn z500(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z500::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z501 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "p")]
    f1: Option<u128>,
}
fn z501(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z501::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z502 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "p")]
    f1: Option<String>,
}
fn z502(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z502::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z503 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "p", response)]
    f1: i128,
}
fn z503(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z503::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z504 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "p", response)]
    f1: u128,
}
fn z504(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z504::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z505 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "p")]
    f1: N1,
}
fn z505(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z505::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z506 {
    #[stacks(key = "p")]
    f0: Option<String>,
    #[stacks(key = "p")]
    f1: N2,
}
fn z506(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z506::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z507 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "p")]
    f1: i128,
}
fn z507(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z507::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z508 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "p")]
    f1: u128,
}
fn z508(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z508::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z509 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "p")]
    f1: bool,
}
fn z509(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z509::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z510 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "p")]
    f1: String,
}
fn z510(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z510::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z511 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "p")]
    f1: Vec<u8>,
}
fn z511(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z511::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z512 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "p")]
    f1: Vec<String>,
}
fn z512(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z512::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z513 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "p")]
    f1: Option<i128>,
}
fn z513(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z513::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z514 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "p")]
    f1: Option<u128>,
}
fn z514(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z514::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z515 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "p")]
    f1: Option<String>,
}
fn z515(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z515::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z516 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "p", response)]
    f1: i128,
}
fn z516(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z516::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z517 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "p", response)]
    f1: u128,
}
fn z517(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z517::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z518 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "p")]
    f1: N1,
}
fn z518(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z518::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z519 {
    #[stacks(key = "p", response)]
    f0: i128,
    #[stacks(key = "p")]
    f1: N2,
}
fn z519(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z519::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z520 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "p")]
    f1: i128,
}
fn z520(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z520::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z521 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "p")]
    f1: u128,
}
fn z521(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z521::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z522 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "p")]
    f1: bool,
}
fn z522(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z522::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z523 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "p")]
    f1: String,
}
fn z523(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z523::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z524 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "p")]
    f1: Vec<u8>,
}
fn z524(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z524::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z525 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "p")]
    f1: Vec<String>,
}
fn z525(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z525::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z526 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "p")]
    f1: Option<i128>,
}
fn z526(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z526::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z527 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "p")]
    f1: Option<u128>,
}
fn z527(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z527::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z528 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "p")]
    f1: Option<String>,
}
fn z528(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z528::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z529 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "p", response)]
    f1: i128,
}
fn z529(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z529::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z530 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "p", response)]
    f1: u128,
}
fn z530(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z530::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z531 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "p")]
    f1: N1,
}
fn z531(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z531::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z532 {
    #[stacks(key = "p", response)]
    f0: u128,
    #[stacks(key = "p")]
    f1: N2,
}
fn z532(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z532::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z533 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "p")]
    f1: i128,
}
fn z533(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z533::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z534 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "p")]
    f1: u128,
}
fn z534(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z534::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z535 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "p")]
    f1: bool,
}
fn z535(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z535::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z536 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "p")]
    f1: String,
}
fn z536(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z536::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z537 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "p")]
    f1: Vec<u8>,
}
fn z537(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z537::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z538 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "p")]
    f1: Vec<String>,
}
fn z538(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z538::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z539 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "p")]
    f1: Option<i128>,
}
fn z539(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z539::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z540 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "p")]
    f1: Option<u128>,
}
fn z540(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z540::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z541 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "p")]
    f1: Option<String>,
}
fn z541(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z541::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z542 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "p", response)]
    f1: i128,
}
fn z542(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z542::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z543 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "p", response)]
    f1: u128,
}
fn z543(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z543::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z544 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "p")]
    f1: N1,
}
fn z544(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z544::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z545 {
    #[stacks(key = "p")]
    f0: N1,
    #[stacks(key = "p")]
    f1: N2,
}
fn z545(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z545::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z546 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "p")]
    f1: i128,
}
fn z546(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z546::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z547 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "p")]
    f1: u128,
}
fn z547(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z547::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z548 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "p")]
    f1: bool,
}
fn z548(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z548::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z549 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "p")]
    f1: String,
}
fn z549(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z549::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z550 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "p")]
    f1: Vec<u8>,
}
fn z550(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z550::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z551 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "p")]
    f1: Vec<String>,
}
fn z551(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z551::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z552 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "p")]
    f1: Option<i128>,
}
fn z552(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z552::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z553 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "p")]
    f1: Option<u128>,
}
fn z553(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z553::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z554 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "p")]
    f1: Option<String>,
}
fn z554(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z554::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z555 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "p", response)]
    f1: i128,
}
fn z555(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z555::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z556 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "p", response)]
    f1: u128,
}
fn z556(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z556::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z557 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "p")]
    f1: N1,
}
fn z557(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z557::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z558 {
    #[stacks(key = "p")]
    f0: N2,
    #[stacks(key = "p")]
    f1: N2,
}
fn z558(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z558::try_from(t), |s| vec![s.f0.into(), s.f1.into()])
}
#[derive(FromTuple)]
struct Z559 {
    #[stacks(key = "k-1")]
    a: i128,
    #[stacks(key = "k")]
    b: i128,
    #[stacks(key = "k-11")]
    c: i128,
}
fn z559(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z559::try_from(t), |s| vec![s.a.into(), s.b.into(), s.c.into()])
}
#[derive(FromTuple)]
struct Z560 {
    #[stacks(key = "k-1")]
    a: u128,
    #[stacks(key = "k")]
    b: u128,
    #[stacks(key = "k-11")]
    c: u128,
}
fn z560(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z560::try_from(t), |s| vec![s.a.into(), s.b.into(), s.c.into()])
}
#[derive(FromTuple)]
struct Z561 {
    #[stacks(key = "k-1")]
    a: bool,
    #[stacks(key = "k")]
    b: bool,
    #[stacks(key = "k-11")]
    c: bool,
}
fn z561(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z561::try_from(t), |s| vec![s.a.into(), s.b.into(), s.c.into()])
}
#[derive(FromTuple)]
struct Z562 {
    #[stacks(key = "k-1")]
    a: String,
    #[stacks(key = "k")]
    b: String,
    #[stacks(key = "k-11")]
    c: String,
}
fn z562(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z562::try_from(t), |s| vec![s.a.into(), s.b.into(), s.c.into()])
}
#[derive(FromTuple)]
struct Z563 {
    #[stacks(key = "k-1")]
    a: Vec<u8>,
    #[stacks(key = "k")]
    b: Vec<u8>,
    #[stacks(key = "k-11")]
    c: Vec<u8>,
}
fn z563(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z563::try_from(t), |s| vec![s.a.into(), s.b.into(), s.c.into()])
}
#[derive(FromTuple)]
struct Z564 {
    #[stacks(key = "k-1")]
    a: Vec<String>,
    #[stacks(key = "k")]
    b: Vec<String>,
    #[stacks(key = "k-11")]
    c: Vec<String>,
}
fn z564(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z564::try_from(t), |s| vec![s.a.into(), s.b.into(), s.c.into()])
}
#[derive(FromTuple)]
struct Z565 {
    #[stacks(key = "k-1")]
    a: Option<i128>,
    #[stacks(key = "k")]
    b: Option<i128>,
    #[stacks(key = "k-11")]
    c: Option<i128>,
}
fn z565(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z565::try_from(t), |s| vec![s.a.into(), s.b.into(), s.c.into()])
}
#[derive(FromTuple)]
struct Z566 {
    #[stacks(key = "k-1")]
    a: Option<u128>,
    #[stacks(key = "k")]
    b: Option<u128>,
    #[stacks(key = "k-11")]
    c: Option<u128>,
}
fn z566(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z566::try_from(t), |s| vec![s.a.into(), s.b.into(), s.c.into()])
}
#[derive(FromTuple)]
struct Z567 {
    #[stacks(key = "k-1")]
    a: Option<String>,
    #[stacks(key = "k")]
    b: Option<String>,
    #[stacks(key = "k-11")]
    c: Option<String>,
}
fn z567(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z567::try_from(t), |s| vec![s.a.into(), s.b.into(), s.c.into()])
}
#[derive(FromTuple)]
struct Z568 {
    #[stacks(key = "k-1", response)]
    a: i128,
    #[stacks(key = "k", response)]
    b: i128,
    #[stacks(key = "k-11", response)]
    c: i128,
}
fn z568(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z568::try_from(t), |s| vec![s.a.into(), s.b.into(), s.c.into()])
}
#[derive(FromTuple)]
struct Z569 {
    #[stacks(key = "k-1", response)]
    a: u128,
    #[stacks(key = "k", response)]
    b: u128,
    #[stacks(key = "k-11", response)]
    c: u128,
}
fn z569(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z569::try_from(t), |s| vec![s.a.into(), s.b.into(), s.c.into()])
}
#[derive(FromTuple)]
struct Z570 {
    #[stacks(key = "k-1")]
    a: N1,
    #[stacks(key = "k")]
    b: N1,
    #[stacks(key = "k-11")]
    c: N1,
}
fn z570(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z570::try_from(t), |s| vec![s.a.into(), s.b.into(), s.c.into()])
}
#[derive(FromTuple)]
struct Z571 {
    #[stacks(key = "k-1")]
    a: N2,
    #[stacks(key = "k")]
    b: N2,
    #[stacks(key = "k-11")]
    c: N2,
}
fn z571(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z571::try_from(t), |s| vec![s.a.into(), s.b.into(), s.c.into()])
}
#[derive(FromTuple)]
struct Z572 {
    #[stacks(key = "key-0")]
    f0: i128,
    #[stacks(key = "key-1")]
    f1: u128,
    #[stacks(key = "key-2")]
    f2: bool,
    #[stacks(key = "key-3")]
    f3: String,
    #[stacks(key = "key-4")]
    f4: Vec<u8>,
    #[stacks(key = "key-5")]
    f5: Vec<String>,
    #[stacks(key = "key-6")]
    f6: Option<i128>,
    #[stacks(key = "key-7")]
    f7: Option<u128>,
    #[stacks(key = "key-8")]
    f8: Option<String>,
    #[stacks(key = "key-9", response)]
    f9: i128,
    #[stacks(key = "key-10", response)]
    f10: u128,
    #[stacks(key = "key-11")]
    f11: N1,
    #[stacks(key = "key-12")]
    f12: N2,
}
fn z572(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z572::try_from(t), |s| vec![s.f0.into(), s.f1.into(), s.f2.into(), s.f3.into(), s.f4.into(), s.f5.into(), s.f6.into(), s.f7.into(), s.f8.into(), s.f9.into(), s.f10.into(), s.f11.into(), s.f12.into()])
}
#[derive(FromTuple)]
struct Z573 {
    #[stacks(key = "key-12")]
    f12: N2,
    #[stacks(key = "key-11")]
    f11: N1,
    #[stacks(key = "key-10", response)]
    f10: u128,
    #[stacks(key = "key-9", response)]
    f9: i128,
    #[stacks(key = "key-8")]
    f8: Option<String>,
    #[stacks(key = "key-7")]
    f7: Option<u128>,
    #[stacks(key = "key-6")]
    f6: Option<i128>,
    #[stacks(key = "key-5")]
    f5: Vec<String>,
    #[stacks(key = "key-4")]
    f4: Vec<u8>,
    #[stacks(key = "key-3")]
    f3: String,
    #[stacks(key = "key-2")]
    f2: bool,
    #[stacks(key = "key-1")]
    f1: u128,
    #[stacks(key = "key-0")]
    f0: i128,
}
fn z573(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z573::try_from(t), |s| vec![s.f12.into(), s.f11.into(), s.f10.into(), s.f9.into(), s.f8.into(), s.f7.into(), s.f6.into(), s.f5.into(), s.f4.into(), s.f3.into(), s.f2.into(), s.f1.into(), s.f0.into()])
}
#[derive(FromTuple)]
struct Z574 {
    #[stacks(key = "a")]
    f0: i128,
}
fn z574(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z574::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z575 {
    #[stacks(key = "a")]
    f0: bool,
}
fn z575(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z575::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z576 {
    #[stacks(key = "a")]
    f0: Option<String>,
}
fn z576(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z576::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z577 {
    #[stacks(key = "a")]
    f0: N1,
}
fn z577(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z577::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z578 {
    #[stacks(key = "A")]
    f0: i128,
}
fn z578(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z578::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z579 {
    #[stacks(key = "A")]
    f0: bool,
}
fn z579(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z579::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z580 {
    #[stacks(key = "A")]
    f0: Option<String>,
}
fn z580(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z580::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z581 {
    #[stacks(key = "A")]
    f0: N1,
}
fn z581(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z581::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z582 {
    #[stacks(key = "a_b")]
    f0: i128,
}
fn z582(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z582::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z583 {
    #[stacks(key = "a_b")]
    f0: bool,
}
fn z583(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z583::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z584 {
    #[stacks(key = "a_b")]
    f0: Option<String>,
}
fn z584(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z584::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z585 {
    #[stacks(key = "a_b")]
    f0: N1,
}
fn z585(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z585::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z586 {
    #[stacks(key = "a-b")]
    f0: i128,
}
fn z586(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z586::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z587 {
    #[stacks(key = "a-b")]
    f0: bool,
}
fn z587(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z587::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z588 {
    #[stacks(key = "a-b")]
    f0: Option<String>,
}
fn z588(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z588::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z589 {
    #[stacks(key = "a-b")]
    f0: N1,
}
fn z589(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z589::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z590 {
    #[stacks(key = "A-b")]
    f0: i128,
}
fn z590(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z590::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z591 {
    #[stacks(key = "A-b")]
    f0: bool,
}
fn z591(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z591::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z592 {
    #[stacks(key = "A-b")]
    f0: Option<String>,
}
fn z592(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z592::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z593 {
    #[stacks(key = "A-b")]
    f0: N1,
}
fn z593(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z593::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z594 {
    #[stacks(key = "a.b")]
    f0: i128,
}
fn z594(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z594::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z595 {
    #[stacks(key = "a.b")]
    f0: bool,
}
fn z595(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z595::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z596 {
    #[stacks(key = "a.b")]
    f0: Option<String>,
}
fn z596(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z596::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z597 {
    #[stacks(key = "a.b")]
    f0: N1,
}
fn z597(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z597::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z598 {
    #[stacks(key = "a b")]
    f0: i128,
}
fn z598(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z598::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z599 {
    #[stacks(key = "a b")]
    f0: bool,
}
fn z599(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z599::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z600 {
    #[stacks(key = "a b")]
    f0: Option<String>,
}
fn z600(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z600::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z601 {
    #[stacks(key = "a b")]
    f0: N1,
}
fn z601(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z601::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z602 {
    #[stacks(key = "a?")]
    f0: i128,
}
fn z602(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z602::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z603 {
    #[stacks(key = "a?")]
    f0: bool,
}
fn z603(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z603::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z604 {
    #[stacks(key = "a?")]
    f0: Option<String>,
}
fn z604(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z604::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z605 {
    #[stacks(key = "a?")]
    f0: N1,
}
fn z605(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z605::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z606 {
    #[stacks(key = "!")]
    f0: i128,
}
fn z606(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z606::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z607 {
    #[stacks(key = "!")]
    f0: bool,
}
fn z607(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z607::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z608 {
    #[stacks(key = "!")]
    f0: Option<String>,
}
fn z608(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z608::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z609 {
    #[stacks(key = "!")]
    f0: N1,
}
fn z609(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z609::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z610 {
    #[stacks(key = "0")]
    f0: i128,
}
fn z610(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z610::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z611 {
    #[stacks(key = "0")]
    f0: bool,
}
fn z611(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z611::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z612 {
    #[stacks(key = "0")]
    f0: Option<String>,
}
fn z612(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z612::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z613 {
    #[stacks(key = "0")]
    f0: N1,
}
fn z613(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z613::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z614 {
    #[stacks(key = "1")]
    f0: i128,
}
fn z614(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z614::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z615 {
    #[stacks(key = "1")]
    f0: bool,
}
fn z615(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z615::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z616 {
    #[stacks(key = "1")]
    f0: Option<String>,
}
fn z616(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z616::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z617 {
    #[stacks(key = "1")]
    f0: N1,
}
fn z617(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z617::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z618 {
    #[stacks(key = "-")]
    f0: i128,
}
fn z618(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z618::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z619 {
    #[stacks(key = "-")]
    f0: bool,
}
fn z619(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z619::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z620 {
    #[stacks(key = "-")]
    f0: Option<String>,
}
fn z620(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z620::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z621 {
    #[stacks(key = "-")]
    f0: N1,
}
fn z621(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z621::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z622 {
    #[stacks(key = "_")]
    f0: i128,
}
fn z622(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z622::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z623 {
    #[stacks(key = "_")]
    f0: bool,
}
fn z623(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z623::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z624 {
    #[stacks(key = "_")]
    f0: Option<String>,
}
fn z624(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z624::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z625 {
    #[stacks(key = "_")]
    f0: N1,
}
fn z625(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z625::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z626 {
    #[stacks(key = "")]
    f0: i128,
}
fn z626(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z626::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z627 {
    #[stacks(key = "")]
    f0: bool,
}
fn z627(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z627::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z628 {
    #[stacks(key = "")]
    f0: Option<String>,
}
fn z628(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z628::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z629 {
    #[stacks(key = "")]
    f0: N1,
}
fn z629(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z629::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z630 {
    #[stacks(key = "k1")]
    f0: i128,
}
fn z630(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z630::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z631 {
    #[stacks(key = "k1")]
    f0: bool,
}
fn z631(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z631::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z632 {
    #[stacks(key = "k1")]
    f0: Option<String>,
}
fn z632(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z632::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z633 {
    #[stacks(key = "k1")]
    f0: N1,
}
fn z633(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z633::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z634 {
    #[stacks(key = "key")]
    f0: i128,
}
fn z634(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z634::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z635 {
    #[stacks(key = "key")]
    f0: bool,
}
fn z635(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z635::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z636 {
    #[stacks(key = "key")]
    f0: Option<String>,
}
fn z636(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z636::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z637 {
    #[stacks(key = "key")]
    f0: N1,
}
fn z637(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z637::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z638 {
    #[stacks(key = "value")]
    f0: i128,
}
fn z638(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z638::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z639 {
    #[stacks(key = "value")]
    f0: bool,
}
fn z639(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z639::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z640 {
    #[stacks(key = "value")]
    f0: Option<String>,
}
fn z640(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z640::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z641 {
    #[stacks(key = "value")]
    f0: N1,
}
fn z641(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z641::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z642 {
    #[stacks(key = "tuple")]
    f0: i128,
}
fn z642(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z642::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z643 {
    #[stacks(key = "tuple")]
    f0: bool,
}
fn z643(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z643::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z644 {
    #[stacks(key = "tuple")]
    f0: Option<String>,
}
fn z644(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z644::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z645 {
    #[stacks(key = "tuple")]
    f0: N1,
}
fn z645(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z645::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z646 {
    #[stacks(key = "list")]
    f0: i128,
}
fn z646(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z646::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z647 {
    #[stacks(key = "list")]
    f0: bool,
}
fn z647(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z647::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z648 {
    #[stacks(key = "list")]
    f0: Option<String>,
}
fn z648(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z648::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z649 {
    #[stacks(key = "list")]
    f0: N1,
}
fn z649(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z649::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z650 {
    #[stacks(key = "x")]
    f0: i128,
}
fn z650(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z650::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z651 {
    #[stacks(key = "x")]
    f0: bool,
}
fn z651(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z651::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z652 {
    #[stacks(key = "x")]
    f0: Option<String>,
}
fn z652(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z652::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z653 {
    #[stacks(key = "x")]
    f0: N1,
}
fn z653(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z653::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z654 {
    #[stacks(key = "r#type")]
    f0: i128,
}
fn z654(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z654::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z655 {
    #[stacks(key = "r#type")]
    f0: bool,
}
fn z655(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z655::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z656 {
    #[stacks(key = "r#type")]
    f0: Option<String>,
}
fn z656(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z656::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z657 {
    #[stacks(key = "r#type")]
    f0: N1,
}
fn z657(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z657::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z658 {
    #[stacks(key = "é")]
    f0: i128,
}
fn z658(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z658::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z659 {
    #[stacks(key = "é")]
    f0: bool,
}
fn z659(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z659::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z660 {
    #[stacks(key = "é")]
    f0: Option<String>,
}
fn z660(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z660::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z661 {
    #[stacks(key = "é")]
    f0: N1,
}
fn z661(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z661::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z662 {
    #[stacks(key = "self")]
    f0: i128,
}
fn z662(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z662::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z663 {
    #[stacks(key = "self")]
    f0: bool,
}
fn z663(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z663::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z664 {
    #[stacks(key = "self")]
    f0: Option<String>,
}
fn z664(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z664::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z665 {
    #[stacks(key = "self")]
    f0: N1,
}
fn z665(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z665::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z666 {
    #[stacks(key = "response")]
    f0: i128,
}
fn z666(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z666::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z667 {
    #[stacks(key = "response")]
    f0: bool,
}
fn z667(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z667::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z668 {
    #[stacks(key = "response")]
    f0: Option<String>,
}
fn z668(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z668::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z669 {
    #[stacks(key = "response")]
    f0: N1,
}
fn z669(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z669::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z670 {
    #[stacks(key = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")]
    f0: i128,
}
fn z670(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z670::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z671 {
    #[stacks(key = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")]
    f0: bool,
}
fn z671(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z671::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z672 {
    #[stacks(key = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")]
    f0: Option<String>,
}
fn z672(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z672::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z673 {
    #[stacks(key = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")]
    f0: N1,
}
fn z673(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z673::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z674 {
    #[stacks(key = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")]
    f0: i128,
}
fn z674(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z674::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z675 {
    #[stacks(key = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")]
    f0: bool,
}
fn z675(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z675::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z676 {
    #[stacks(key = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")]
    f0: Option<String>,
}
fn z676(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z676::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z677 {
    #[stacks(key = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")]
    f0: N1,
}
fn z677(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z677::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z678 {
    #[stacks(key = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab")]
    f0: i128,
}
fn z678(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z678::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z679 {
    #[stacks(key = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab")]
    f0: bool,
}
fn z679(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z679::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z680 {
    #[stacks(key = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab")]
    f0: Option<String>,
}
fn z680(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z680::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z681 {
    #[stacks(key = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab")]
    f0: N1,
}
fn z681(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z681::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z682 {
    #[stacks(key = "a'b")]
    f0: i128,
}
fn z682(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z682::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z683 {
    #[stacks(key = "a'b")]
    f0: bool,
}
fn z683(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z683::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z684 {
    #[stacks(key = "a'b")]
    f0: Option<String>,
}
fn z684(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z684::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z685 {
    #[stacks(key = "a'b")]
    f0: N1,
}
fn z685(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z685::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z686 {
    #[stacks(key = "{}")]
    f0: i128,
}
fn z686(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z686::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z687 {
    #[stacks(key = "{}")]
    f0: bool,
}
fn z687(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z687::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z688 {
    #[stacks(key = "{}")]
    f0: Option<String>,
}
fn z688(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z688::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z689 {
    #[stacks(key = "{}")]
    f0: N1,
}
fn z689(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z689::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z690 {
    #[stacks(key = "{0}")]
    f0: i128,
}
fn z690(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z690::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z691 {
    #[stacks(key = "{0}")]
    f0: bool,
}
fn z691(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z691::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z692 {
    #[stacks(key = "{0}")]
    f0: Option<String>,
}
fn z692(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z692::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z693 {
    #[stacks(key = "{0}")]
    f0: N1,
}
fn z693(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z693::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z694 {
    #[stacks(key = "%s")]
    f0: i128,
}
fn z694(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z694::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z695 {
    #[stacks(key = "%s")]
    f0: bool,
}
fn z695(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z695::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z696 {
    #[stacks(key = "%s")]
    f0: Option<String>,
}
fn z696(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z696::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z697 {
    #[stacks(key = "%s")]
    f0: N1,
}
fn z697(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z697::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z698 {
    #[stacks(key = "ok")]
    f0: i128,
}
fn z698(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z698::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z699 {
    #[stacks(key = "ok")]
    f0: bool,
}
fn z699(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z699::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z700 {
    #[stacks(key = "ok")]
    f0: Option<String>,
}
fn z700(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z700::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z701 {
    #[stacks(key = "ok")]
    f0: N1,
}
fn z701(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z701::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z702 {
    #[stacks(key = "none")]
    f0: i128,
}
fn z702(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z702::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z703 {
    #[stacks(key = "none")]
    f0: bool,
}
fn z703(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z703::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z704 {
    #[stacks(key = "none")]
    f0: Option<String>,
}
fn z704(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z704::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z705 {
    #[stacks(key = "none")]
    f0: N1,
}
fn z705(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z705::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z706 {
    #[stacks(key = "q")]
    f0: std::vec::Vec<u8>,
}
fn z706(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z706::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z707 {
    #[stacks(key = "q")]
    f0: ::std::vec::Vec<String>,
}
fn z707(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z707::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z708 {
    #[stacks(key = "q")]
    f0: std::option::Option<i128>,
}
fn z708(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z708::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z709 {
    #[stacks(key = "q")]
    f0: core::option::Option<u128>,
}
fn z709(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z709::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z710 {
    #[stacks(key = "q")]
    f0: ::core::option::Option<String>,
}
fn z710(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z710::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z711 {
    #[stacks(key = "q", response = false)]
    f0: i128,
}
fn z711(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z711::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z712 {
    #[stacks(key = "q")]
    f0: N3,
}
fn z712(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z712::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z713 {
    #[stacks(key = "q")]
    f0: G1,
}
fn z713(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z713::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z714 {
    #[stacks(key = "some-key")]
    f0: std::vec::Vec<u8>,
}
fn z714(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z714::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z715 {
    #[stacks(key = "some-key")]
    f0: ::std::vec::Vec<String>,
}
fn z715(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z715::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z716 {
    #[stacks(key = "some-key")]
    f0: std::option::Option<i128>,
}
fn z716(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z716::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z717 {
    #[stacks(key = "some-key")]
    f0: core::option::Option<u128>,
}
fn z717(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z717::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z718 {
    #[stacks(key = "some-key")]
    f0: ::core::option::Option<String>,
}
fn z718(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z718::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z719 {
    #[stacks(key = "some-key", response = false)]
    f0: i128,
}
fn z719(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z719::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z720 {
    #[stacks(key = "some-key")]
    f0: N3,
}
fn z720(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z720::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z721 {
    #[stacks(key = "some-key")]
    f0: G1,
}
fn z721(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z721::try_from(t), |s| vec![s.f0.into()])
}
#[derive(FromTuple)]
struct Z722 {
    #[stacks(key = "key0")]
    tuple: i128,
    #[stacks(key = "key1")]
    value: i128,
    #[stacks(key = "key2")]
    x: i128,
    #[stacks(key = "key3")]
    list: i128,
    #[stacks(key = "key4")]
    any: i128,
    #[stacks(key = "key5")]
    key: i128,
    #[stacks(key = "key6")]
    err: i128,
    #[stacks(key = "key7")]
    r#type: i128,
    #[stacks(key = "key8")]
    r#match: i128,
    #[stacks(key = "key9")]
    _a: i128,
    #[stacks(key = "key10")]
    Tuple: i128,
    #[stacks(key = "key11")]
    a1: i128,
}
fn z722(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z722::try_from(t), |s| vec![s.tuple.into(), s.value.into(), s.x.into(), s.list.into(), s.any.into(), s.key.into(), s.err.into(), s.r#type.into(), s.r#match.into(), s._a.into(), s.Tuple.into(), s.a1.into()])
}
#[derive(FromTuple)]
struct Z723 {
    #[stacks(key = "key0")]
    tuple: bool,
    #[stacks(key = "key1")]
    value: bool,
    #[stacks(key = "key2")]
    x: bool,
    #[stacks(key = "key3")]
    list: bool,
    #[stacks(key = "key4")]
    any: bool,
    #[stacks(key = "key5")]
    key: bool,
    #[stacks(key = "key6")]
    err: bool,
    #[stacks(key = "key7")]
    r#type: bool,
    #[stacks(key = "key8")]
    r#match: bool,
    #[stacks(key = "key9")]
    _a: bool,
    #[stacks(key = "key10")]
    Tuple: bool,
    #[stacks(key = "key11")]
    a1: bool,
}
fn z723(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z723::try_from(t), |s| vec![s.tuple.into(), s.value.into(), s.x.into(), s.list.into(), s.any.into(), s.key.into(), s.err.into(), s.r#type.into(), s.r#match.into(), s._a.into(), s.Tuple.into(), s.a1.into()])
}
#[derive(FromTuple)]
struct Z724 {
    #[stacks(key = "key0")]
    tuple: String,
    #[stacks(key = "key1")]
    value: String,
    #[stacks(key = "key2")]
    x: String,
    #[stacks(key = "key3")]
    list: String,
    #[stacks(key = "key4")]
    any: String,
    #[stacks(key = "key5")]
    key: String,
    #[stacks(key = "key6")]
    err: String,
    #[stacks(key = "key7")]
    r#type: String,
    #[stacks(key = "key8")]
    r#match: String,
    #[stacks(key = "key9")]
    _a: String,
    #[stacks(key = "key10")]
    Tuple: String,
    #[stacks(key = "key11")]
    a1: String,
}
fn z724(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z724::try_from(t), |s| vec![s.tuple.into(), s.value.into(), s.x.into(), s.list.into(), s.any.into(), s.key.into(), s.err.into(), s.r#type.into(), s.r#match.into(), s._a.into(), s.Tuple.into(), s.a1.into()])
}
#[derive(FromTuple)]
struct Z725 {
    #[stacks(key = "key0")]
    tuple: Vec<u8>,
    #[stacks(key = "key1")]
    value: Vec<u8>,
    #[stacks(key = "key2")]
    x: Vec<u8>,
    #[stacks(key = "key3")]
    list: Vec<u8>,
    #[stacks(key = "key4")]
    any: Vec<u8>,
    #[stacks(key = "key5")]
    key: Vec<u8>,
    #[stacks(key = "key6")]
    err: Vec<u8>,
    #[stacks(key = "key7")]
    r#type: Vec<u8>,
    #[stacks(key = "key8")]
    r#match: Vec<u8>,
    #[stacks(key = "key9")]
    _a: Vec<u8>,
    #[stacks(key = "key10")]
    Tuple: Vec<u8>,
    #[stacks(key = "key11")]
    a1: Vec<u8>,
}
fn z725(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z725::try_from(t), |s| vec![s.tuple.into(), s.value.into(), s.x.into(), s.list.into(), s.any.into(), s.key.into(), s.err.into(), s.r#type.into(), s.r#match.into(), s._a.into(), s.Tuple.into(), s.a1.into()])
}
#[derive(FromTuple)]
struct Z726 {
    #[stacks(key = "key0")]
    tuple: Vec<String>,
    #[stacks(key = "key1")]
    value: Vec<String>,
    #[stacks(key = "key2")]
    x: Vec<String>,
    #[stacks(key = "key3")]
    list: Vec<String>,
    #[stacks(key = "key4")]
    any: Vec<String>,
    #[stacks(key = "key5")]
    key: Vec<String>,
    #[stacks(key = "key6")]
    err: Vec<String>,
    #[stacks(key = "key7")]
    r#type: Vec<String>,
    #[stacks(key = "key8")]
    r#match: Vec<String>,
    #[stacks(key = "key9")]
    _a: Vec<String>,
    #[stacks(key = "key10")]
    Tuple: Vec<String>,
    #[stacks(key = "key11")]
    a1: Vec<String>,
}
fn z726(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z726::try_from(t), |s| vec![s.tuple.into(), s.value.into(), s.x.into(), s.list.into(), s.any.into(), s.key.into(), s.err.into(), s.r#type.into(), s.r#match.into(), s._a.into(), s.Tuple.into(), s.a1.into()])
}
#[derive(FromTuple)]
struct Z727 {
    #[stacks(key = "key0")]
    tuple: Option<i128>,
    #[stacks(key = "key1")]
    value: Option<i128>,
    #[stacks(key = "key2")]
    x: Option<i128>,
    #[stacks(key = "key3")]
    list: Option<i128>,
    #[stacks(key = "key4")]
    any: Option<i128>,
    #[stacks(key = "key5")]
    key: Option<i128>,
    #[stacks(key = "key6")]
    err: Option<i128>,
    #[stacks(key = "key7")]
    r#type: Option<i128>,
    #[stacks(key = "key8")]
    r#match: Option<i128>,
    #[stacks(key = "key9")]
    _a: Option<i128>,
    #[stacks(key = "key10")]
    Tuple: Option<i128>,
    #[stacks(key = "key11")]
    a1: Option<i128>,
}
fn z727(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z727::try_from(t), |s| vec![s.tuple.into(), s.value.into(), s.x.into(), s.list.into(), s.any.into(), s.key.into(), s.err.into(), s.r#type.into(), s.r#match.into(), s._a.into(), s.Tuple.into(), s.a1.into()])
}
#[derive(FromTuple)]
struct Z728 {
    #[stacks(key = "key0")]
    tuple: Option<String>,
    #[stacks(key = "key1")]
    value: Option<String>,
    #[stacks(key = "key2")]
    x: Option<String>,
    #[stacks(key = "key3")]
    list: Option<String>,
    #[stacks(key = "key4")]
    any: Option<String>,
    #[stacks(key = "key5")]
    key: Option<String>,
    #[stacks(key = "key6")]
    err: Option<String>,
    #[stacks(key = "key7")]
    r#type: Option<String>,
    #[stacks(key = "key8")]
    r#match: Option<String>,
    #[stacks(key = "key9")]
    _a: Option<String>,
    #[stacks(key = "key10")]
    Tuple: Option<String>,
    #[stacks(key = "key11")]
    a1: Option<String>,
}
fn z728(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z728::try_from(t), |s| vec![s.tuple.into(), s.value.into(), s.x.into(), s.list.into(), s.any.into(), s.key.into(), s.err.into(), s.r#type.into(), s.r#match.into(), s._a.into(), s.Tuple.into(), s.a1.into()])
}
#[derive(FromTuple)]
struct Z729 {
    #[stacks(key = "key0", response)]
    tuple: u128,
    #[stacks(key = "key1", response)]
    value: u128,
    #[stacks(key = "key2", response)]
    x: u128,
    #[stacks(key = "key3", response)]
    list: u128,
    #[stacks(key = "key4", response)]
    any: u128,
    #[stacks(key = "key5", response)]
    key: u128,
    #[stacks(key = "key6", response)]
    err: u128,
    #[stacks(key = "key7", response)]
    r#type: u128,
    #[stacks(key = "key8", response)]
    r#match: u128,
    #[stacks(key = "key9", response)]
    _a: u128,
    #[stacks(key = "key10", response)]
    Tuple: u128,
    #[stacks(key = "key11", response)]
    a1: u128,
}
fn z729(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z729::try_from(t), |s| vec![s.tuple.into(), s.value.into(), s.x.into(), s.list.into(), s.any.into(), s.key.into(), s.err.into(), s.r#type.into(), s.r#match.into(), s._a.into(), s.Tuple.into(), s.a1.into()])
}
#[derive(FromTuple)]
struct Z730 {
    #[stacks(key = "key0")]
    tuple: N2,
    #[stacks(key = "key1")]
    value: N2,
    #[stacks(key = "key2")]
    x: N2,
    #[stacks(key = "key3")]
    list: N2,
    #[stacks(key = "key4")]
    any: N2,
    #[stacks(key = "key5")]
    key: N2,
    #[stacks(key = "key6")]
    err: N2,
    #[stacks(key = "key7")]
    r#type: N2,
    #[stacks(key = "key8")]
    r#match: N2,
    #[stacks(key = "key9")]
    _a: N2,
    #[stacks(key = "key10")]
    Tuple: N2,
    #[stacks(key = "key11")]
    a1: N2,
}
fn z730(t: Tuple) -> Result<Vec<Out>, String> {
    conv(Z730::try_from(t), |s| vec![s.tuple.into(), s.value.into(), s.x.into(), s.list.into(), s.any.into(), s.key.into(), s.err.into(), s.r#type.into(), s.r#match.into(), s._a.into(), s.Tuple.into(), s.a1.into()])
}
pub type Shape = (&'static [(&'static str, K)], fn(Tuple) -> Result<Vec<Out>, String>);
pub static SHAPES: &[Shape] = &[
    (&[("f0", K::I)], z0),
    (&[("some-key", K::I)], z1),
    (&[("kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", K::I)], z2),
    (&[("type", K::I)], z3),
    (&[("f0", K::U)], z4),
    (&[("some-key", K::U)], z5),
    (&[("kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", K::U)], z6),
    (&[("type", K::U)], z7),
    (&[("f0", K::B)], z8),
    (&[("some-key", K::B)], z9),
    (&[("kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", K::B)], z10),
    (&[("type", K::B)], z11),
    (&[("f0", K::S)], z12),
    (&[("some-key", K::S)], z13),
    (&[("kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", K::S)], z14),
    (&[("type", K::S)], z15),
    (&[("f0", K::Buf)], z16),
    (&[("some-key", K::Buf)], z17),
    (&[("kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", K::Buf)], z18),
    (&[("type", K::Buf)], z19),
    (&[("f0", K::VS)], z20),
    (&[("some-key", K::VS)], z21),
    (&[("kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", K::VS)], z22),
    (&[("type", K::VS)], z23),
    (&[("f0", K::OI)], z24),
    (&[("some-key", K::OI)], z25),
    (&[("kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", K::OI)], z26),
    (&[("type", K::OI)], z27),
    (&[("f0", K::OU)], z28),
    (&[("some-key", K::OU)], z29),
    (&[("kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", K::OU)], z30),
    (&[("type", K::OU)], z31),
    (&[("f0", K::OS)], z32),
    (&[("some-key", K::OS)], z33),
    (&[("kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", K::OS)], z34),
    (&[("type", K::OS)], z35),
    (&[("f0", K::RI)], z36),
    (&[("some-key", K::RI)], z37),
    (&[("kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", K::RI)], z38),
    (&[("type", K::RI)], z39),
    (&[("f0", K::RU)], z40),
    (&[("some-key", K::RU)], z41),
    (&[("kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", K::RU)], z42),
    (&[("type", K::RU)], z43),
    (&[("f0", K::N1)], z44),
    (&[("some-key", K::N1)], z45),
    (&[("kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", K::N1)], z46),
    (&[("type", K::N1)], z47),
    (&[("f0", K::N2)], z48),
    (&[("some-key", K::N2)], z49),
    (&[("kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk", K::N2)], z50),
    (&[("type", K::N2)], z51),
    (&[("p", K::I), ("q", K::I)], z52),
    (&[("q", K::I), ("p", K::I)], z53),
    (&[("p", K::I), ("q", K::U)], z54),
    (&[("q", K::I), ("p", K::U)], z55),
    (&[("p", K::I), ("q", K::B)], z56),
    (&[("q", K::I), ("p", K::B)], z57),
    (&[("p", K::I), ("q", K::S)], z58),
    (&[("q", K::I), ("p", K::S)], z59),
    (&[("p", K::I), ("q", K::Buf)], z60),
    (&[("q", K::I), ("p", K::Buf)], z61),
    (&[("p", K::I), ("q", K::VS)], z62),
    (&[("q", K::I), ("p", K::VS)], z63),
    (&[("p", K::I), ("q", K::OI)], z64),
    (&[("q", K::I), ("p", K::OI)], z65),
    (&[("p", K::I), ("q", K::OU)], z66),
    (&[("q", K::I), ("p", K::OU)], z67),
    (&[("p", K::I), ("q", K::OS)], z68),
    (&[("q", K::I), ("p", K::OS)], z69),
    (&[("p", K::I), ("q", K::RI)], z70),
    (&[("q", K::I), ("p", K::RI)], z71),
    (&[("p", K::I), ("q", K::RU)], z72),
    (&[("q", K::I), ("p", K::RU)], z73),
    (&[("p", K::I), ("q", K::N1)], z74),
    (&[("q", K::I), ("p", K::N1)], z75),
    (&[("p", K::I), ("q", K::N2)], z76),
    (&[("q", K::I), ("p", K::N2)], z77),
    (&[("p", K::U), ("q", K::I)], z78),
    (&[("q", K::U), ("p", K::I)], z79),
    (&[("p", K::U), ("q", K::U)], z80),
    (&[("q", K::U), ("p", K::U)], z81),
    (&[("p", K::U), ("q", K::B)], z82),
    (&[("q", K::U), ("p", K::B)], z83),
    (&[("p", K::U), ("q", K::S)], z84),
    (&[("q", K::U), ("p", K::S)], z85),
    (&[("p", K::U), ("q", K::Buf)], z86),
    (&[("q", K::U), ("p", K::Buf)], z87),
    (&[("p", K::U), ("q", K::VS)], z88),
    (&[("q", K::U), ("p", K::VS)], z89),
    (&[("p", K::U), ("q", K::OI)], z90),
    (&[("q", K::U), ("p", K::OI)], z91),
    (&[("p", K::U), ("q", K::OU)], z92),
    (&[("q", K::U), ("p", K::OU)], z93),
    (&[("p", K::U), ("q", K::OS)], z94),
    (&[("q", K::U), ("p", K::OS)], z95),
    (&[("p", K::U), ("q", K::RI)], z96),
    (&[("q", K::U), ("p", K::RI)], z97),
    (&[("p", K::U), ("q", K::RU)], z98),
    (&[("q", K::U), ("p", K::RU)], z99),
    (&[("p", K::U), ("q", K::N1)], z100),
    (&[("q", K::U), ("p", K::N1)], z101),
    (&[("p", K::U), ("q", K::N2)], z102),
    (&[("q", K::U), ("p", K::N2)], z103),
    (&[("p", K::B), ("q", K::I)], z104),
    (&[("q", K::B), ("p", K::I)], z105),
    (&[("p", K::B), ("q", K::U)], z106),
    (&[("q", K::B), ("p", K::U)], z107),
    (&[("p", K::B), ("q", K::B)], z108),
    (&[("q", K::B), ("p", K::B)], z109),
    (&[("p", K::B), ("q", K::S)], z110),
    (&[("q", K::B), ("p", K::S)], z111),
    (&[("p", K::B), ("q", K::Buf)], z112),
    (&[("q", K::B), ("p", K::Buf)], z113),
    (&[("p", K::B), ("q", K::VS)], z114),
    (&[("q", K::B), ("p", K::VS)], z115),
    (&[("p", K::B), ("q", K::OI)], z116),
    (&[("q", K::B), ("p", K::OI)], z117),
    (&[("p", K::B), ("q", K::OU)], z118),
    (&[("q", K::B), ("p", K::OU)], z119),
    (&[("p", K::B), ("q", K::OS)], z120),
    (&[("q", K::B), ("p", K::OS)], z121),
    (&[("p", K::B), ("q", K::RI)], z122),
    (&[("q", K::B), ("p", K::RI)], z123),
    (&[("p", K::B), ("q", K::RU)], z124),
    (&[("q", K::B), ("p", K::RU)], z125),
    (&[("p", K::B), ("q", K::N1)], z126),
    (&[("q", K::B), ("p", K::N1)], z127),
    (&[("p", K::B), ("q", K::N2)], z128),
    (&[("q", K::B), ("p", K::N2)], z129),
    (&[("p", K::S), ("q", K::I)], z130),
    (&[("q", K::S), ("p", K::I)], z131),
    (&[("p", K::S), ("q", K::U)], z132),
    (&[("q", K::S), ("p", K::U)], z133),
    (&[("p", K::S), ("q", K::B)], z134),
    (&[("q", K::S), ("p", K::B)], z135),
    (&[("p", K::S), ("q", K::S)], z136),
    (&[("q", K::S), ("p", K::S)], z137),
    (&[("p", K::S), ("q", K::Buf)], z138),
    (&[("q", K::S), ("p", K::Buf)], z139),
    (&[("p", K::S), ("q", K::VS)], z140),
    (&[("q", K::S), ("p", K::VS)], z141),
    (&[("p", K::S), ("q", K::OI)], z142),
    (&[("q", K::S), ("p", K::OI)], z143),
    (&[("p", K::S), ("q", K::OU)], z144),
    (&[("q", K::S), ("p", K::OU)], z145),
    (&[("p", K::S), ("q", K::OS)], z146),
    (&[("q", K::S), ("p", K::OS)], z147),
    (&[("p", K::S), ("q", K::RI)], z148),
    (&[("q", K::S), ("p", K::RI)], z149),
    (&[("p", K::S), ("q", K::RU)], z150),
    (&[("q", K::S), ("p", K::RU)], z151),
    (&[("p", K::S), ("q", K::N1)], z152),
    (&[("q", K::S), ("p", K::N1)], z153),
    (&[("p", K::S), ("q", K::N2)], z154),
    (&[("q", K::S), ("p", K::N2)], z155),
    (&[("p", K::Buf), ("q", K::I)], z156),
    (&[("q", K::Buf), ("p", K::I)], z157),
    (&[("p", K::Buf), ("q", K::U)], z158),
    (&[("q", K::Buf), ("p", K::U)], z159),
    (&[("p", K::Buf), ("q", K::B)], z160),
    (&[("q", K::Buf), ("p", K::B)], z161),
    (&[("p", K::Buf), ("q", K::S)], z162),
    (&[("q", K::Buf), ("p", K::S)], z163),
    (&[("p", K::Buf), ("q", K::Buf)], z164),
    (&[("q", K::Buf), ("p", K::Buf)], z165),
    (&[("p", K::Buf), ("q", K::VS)], z166),
    (&[("q", K::Buf), ("p", K::VS)], z167),
    (&[("p", K::Buf), ("q", K::OI)], z168),
    (&[("q", K::Buf), ("p", K::OI)], z169),
    (&[("p", K::Buf), ("q", K::OU)], z170),
    (&[("q", K::Buf), ("p", K::OU)], z171),
    (&[("p", K::Buf), ("q", K::OS)], z172),
    (&[("q", K::Buf), ("p", K::OS)], z173),
    (&[("p", K::Buf), ("q", K::RI)], z174),
    (&[("q", K::Buf), ("p", K::RI)], z175),
    (&[("p", K::Buf), ("q", K::RU)], z176),
    (&[("q", K::Buf), ("p", K::RU)], z177),
    (&[("p", K::Buf), ("q", K::N1)], z178),
    (&[("q", K::Buf), ("p", K::N1)], z179),
    (&[("p", K::Buf), ("q", K::N2)], z180),
    (&[("q", K::Buf), ("p", K::N2)], z181),
    (&[("p", K::VS), ("q", K::I)], z182),
    (&[("q", K::VS), ("p", K::I)], z183),
    (&[("p", K::VS), ("q", K::U)], z184),
    (&[("q", K::VS), ("p", K::U)], z185),
    (&[("p", K::VS), ("q", K::B)], z186),
    (&[("q", K::VS), ("p", K::B)], z187),
    (&[("p", K::VS), ("q", K::S)], z188),
    (&[("q", K::VS), ("p", K::S)], z189),
    (&[("p", K::VS), ("q", K::Buf)], z190),
    (&[("q", K::VS), ("p", K::Buf)], z191),
    (&[("p", K::VS), ("q", K::VS)], z192),
    (&[("q", K::VS), ("p", K::VS)], z193),
    (&[("p", K::VS), ("q", K::OI)], z194),
    (&[("q", K::VS), ("p", K::OI)], z195),
    (&[("p", K::VS), ("q", K::OU)], z196),
    (&[("q", K::VS), ("p", K::OU)], z197),
    (&[("p", K::VS), ("q", K::OS)], z198),
    (&[("q", K::VS), ("p", K::OS)], z199),
    (&[("p", K::VS), ("q", K::RI)], z200),
    (&[("q", K::VS), ("p", K::RI)], z201),
    (&[("p", K::VS), ("q", K::RU)], z202),
    (&[("q", K::VS), ("p", K::RU)], z203),
    (&[("p", K::VS), ("q", K::N1)], z204),
    (&[("q", K::VS), ("p", K::N1)], z205),
    (&[("p", K::VS), ("q", K::N2)], z206),
    (&[("q", K::VS), ("p", K::N2)], z207),
    (&[("p", K::OI), ("q", K::I)], z208),
    (&[("q", K::OI), ("p", K::I)], z209),
    (&[("p", K::OI), ("q", K::U)], z210),
    (&[("q", K::OI), ("p", K::U)], z211),
    (&[("p", K::OI), ("q", K::B)], z212),
    (&[("q", K::OI), ("p", K::B)], z213),
    (&[("p", K::OI), ("q", K::S)], z214),
    (&[("q", K::OI), ("p", K::S)], z215),
    (&[("p", K::OI), ("q", K::Buf)], z216),
    (&[("q", K::OI), ("p", K::Buf)], z217),
    (&[("p", K::OI), ("q", K::VS)], z218),
    (&[("q", K::OI), ("p", K::VS)], z219),
    (&[("p", K::OI), ("q", K::OI)], z220),
    (&[("q", K::OI), ("p", K::OI)], z221),
    (&[("p", K::OI), ("q", K::OU)], z222),
    (&[("q", K::OI), ("p", K::OU)], z223),
    (&[("p", K::OI), ("q", K::OS)], z224),
    (&[("q", K::OI), ("p", K::OS)], z225),
    (&[("p", K::OI), ("q", K::RI)], z226),
    (&[("q", K::OI), ("p", K::RI)], z227),
    (&[("p", K::OI), ("q", K::RU)], z228),
    (&[("q", K::OI), ("p", K::RU)], z229),
    (&[("p", K::OI), ("q", K::N1)], z230),
    (&[("q", K::OI), ("p", K::N1)], z231),
    (&[("p", K::OI), ("q", K::N2)], z232),
    (&[("q", K::OI), ("p", K::N2)], z233),
    (&[("p", K::OU), ("q", K::I)], z234),
    (&[("q", K::OU), ("p", K::I)], z235),
    (&[("p", K::OU), ("q", K::U)], z236),
    (&[("q", K::OU), ("p", K::U)], z237),
    (&[("p", K::OU), ("q", K::B)], z238),
    (&[("q", K::OU), ("p", K::B)], z239),
    (&[("p", K::OU), ("q", K::S)], z240),
    (&[("q", K::OU), ("p", K::S)], z241),
    (&[("p", K::OU), ("q", K::Buf)], z242),
    (&[("q", K::OU), ("p", K::Buf)], z243),
    (&[("p", K::OU), ("q", K::VS)], z244),
    (&[("q", K::OU), ("p", K::VS)], z245),
    (&[("p", K::OU), ("q", K::OI)], z246),
    (&[("q", K::OU), ("p", K::OI)], z247),
    (&[("p", K::OU), ("q", K::OU)], z248),
    (&[("q", K::OU), ("p", K::OU)], z249),
    (&[("p", K::OU), ("q", K::OS)], z250),
    (&[("q", K::OU), ("p", K::OS)], z251),
    (&[("p", K::OU), ("q", K::RI)], z252),
    (&[("q", K::OU), ("p", K::RI)], z253),
    (&[("p", K::OU), ("q", K::RU)], z254),
    (&[("q", K::OU), ("p", K::RU)], z255),
    (&[("p", K::OU), ("q", K::N1)], z256),
    (&[("q", K::OU), ("p", K::N1)], z257),
    (&[("p", K::OU), ("q", K::N2)], z258),
    (&[("q", K::OU), ("p", K::N2)], z259),
    (&[("p", K::OS), ("q", K::I)], z260),
    (&[("q", K::OS), ("p", K::I)], z261),
    (&[("p", K::OS), ("q", K::U)], z262),
    (&[("q", K::OS), ("p", K::U)], z263),
    (&[("p", K::OS), ("q", K::B)], z264),
    (&[("q", K::OS), ("p", K::B)], z265),
    (&[("p", K::OS), ("q", K::S)], z266),
    (&[("q", K::OS), ("p", K::S)], z267),
    (&[("p", K::OS), ("q", K::Buf)], z268),
    (&[("q", K::OS), ("p", K::Buf)], z269),
    (&[("p", K::OS), ("q", K::VS)], z270),
    (&[("q", K::OS), ("p", K::VS)], z271),
    (&[("p", K::OS), ("q", K::OI)], z272),
    (&[("q", K::OS), ("p", K::OI)], z273),
    (&[("p", K::OS), ("q", K::OU)], z274),
    (&[("q", K::OS), ("p", K::OU)], z275),
    (&[("p", K::OS), ("q", K::OS)], z276),
    (&[("q", K::OS), ("p", K::OS)], z277),
    (&[("p", K::OS), ("q", K::RI)], z278),
    (&[("q", K::OS), ("p", K::RI)], z279),
    (&[("p", K::OS), ("q", K::RU)], z280),
    (&[("q", K::OS), ("p", K::RU)], z281),
    (&[("p", K::OS), ("q", K::N1)], z282),
    (&[("q", K::OS), ("p", K::N1)], z283),
    (&[("p", K::OS), ("q", K::N2)], z284),
    (&[("q", K::OS), ("p", K::N2)], z285),
    (&[("p", K::RI), ("q", K::I)], z286),
    (&[("q", K::RI), ("p", K::I)], z287),
    (&[("p", K::RI), ("q", K::U)], z288),
    (&[("q", K::RI), ("p", K::U)], z289),
    (&[("p", K::RI), ("q", K::B)], z290),
    (&[("q", K::RI), ("p", K::B)], z291),
    (&[("p", K::RI), ("q", K::S)], z292),
    (&[("q", K::RI), ("p", K::S)], z293),
    (&[("p", K::RI), ("q", K::Buf)], z294),
    (&[("q", K::RI), ("p", K::Buf)], z295),
    (&[("p", K::RI), ("q", K::VS)], z296),
    (&[("q", K::RI), ("p", K::VS)], z297),
    (&[("p", K::RI), ("q", K::OI)], z298),
    (&[("q", K::RI), ("p", K::OI)], z299),
    (&[("p", K::RI), ("q", K::OU)], z300),
    (&[("q", K::RI), ("p", K::OU)], z301),
    (&[("p", K::RI), ("q", K::OS)], z302),
    (&[("q", K::RI), ("p", K::OS)], z303),
    (&[("p", K::RI), ("q", K::RI)], z304),
    (&[("q", K::RI), ("p", K::RI)], z305),
    (&[("p", K::RI), ("q", K::RU)], z306),
    (&[("q", K::RI), ("p", K::RU)], z307),
    (&[("p", K::RI), ("q", K::N1)], z308),
    (&[("q", K::RI), ("p", K::N1)], z309),
    (&[("p", K::RI), ("q", K::N2)], z310),
    (&[("q", K::RI), ("p", K::N2)], z311),
    (&[("p", K::RU), ("q", K::I)], z312),
    (&[("q", K::RU), ("p", K::I)], z313),
    (&[("p", K::RU), ("q", K::U)], z314),
    (&[("q", K::RU), ("p", K::U)], z315),
    (&[("p", K::RU), ("q", K::B)], z316),
    (&[("q", K::RU), ("p", K::B)], z317),
    (&[("p", K::RU), ("q", K::S)], z318),
    (&[("q", K::RU), ("p", K::S)], z319),
    (&[("p", K::RU), ("q", K::Buf)], z320),
    (&[("q", K::RU), ("p", K::Buf)], z321),
    (&[("p", K::RU), ("q", K::VS)], z322),
    (&[("q", K::RU), ("p", K::VS)], z323),
    (&[("p", K::RU), ("q", K::OI)], z324),
    (&[("q", K::RU), ("p", K::OI)], z325),
    (&[("p", K::RU), ("q", K::OU)], z326),
    (&[("q", K::RU), ("p", K::OU)], z327),
    (&[("p", K::RU), ("q", K::OS)], z328),
    (&[("q", K::RU), ("p", K::OS)], z329),
    (&[("p", K::RU), ("q", K::RI)], z330),
    (&[("q", K::RU), ("p", K::RI)], z331),
    (&[("p", K::RU), ("q", K::RU)], z332),
    (&[("q", K::RU), ("p", K::RU)], z333),
    (&[("p", K::RU), ("q", K::N1)], z334),
    (&[("q", K::RU), ("p", K::N1)], z335),
    (&[("p", K::RU), ("q", K::N2)], z336),
    (&[("q", K::RU), ("p", K::N2)], z337),
    (&[("p", K::N1), ("q", K::I)], z338),
    (&[("q", K::N1), ("p", K::I)], z339),
    (&[("p", K::N1), ("q", K::U)], z340),
    (&[("q", K::N1), ("p", K::U)], z341),
    (&[("p", K::N1), ("q", K::B)], z342),
    (&[("q", K::N1), ("p", K::B)], z343),
    (&[("p", K::N1), ("q", K::S)], z344),
    (&[("q", K::N1), ("p", K::S)], z345),
    (&[("p", K::N1), ("q", K::Buf)], z346),
    (&[("q", K::N1), ("p", K::Buf)], z347),
    (&[("p", K::N1), ("q", K::VS)], z348),
    (&[("q", K::N1), ("p", K::VS)], z349),
    (&[("p", K::N1), ("q", K::OI)], z350),
    (&[("q", K::N1), ("p", K::OI)], z351),
    (&[("p", K::N1), ("q", K::OU)], z352),
    (&[("q", K::N1), ("p", K::OU)], z353),
    (&[("p", K::N1), ("q", K::OS)], z354),
    (&[("q", K::N1), ("p", K::OS)], z355),
    (&[("p", K::N1), ("q", K::RI)], z356),
    (&[("q", K::N1), ("p", K::RI)], z357),
    (&[("p", K::N1), ("q", K::RU)], z358),
    (&[("q", K::N1), ("p", K::RU)], z359),
    (&[("p", K::N1), ("q", K::N1)], z360),
    (&[("q", K::N1), ("p", K::N1)], z361),
    (&[("p", K::N1), ("q", K::N2)], z362),
    (&[("q", K::N1), ("p", K::N2)], z363),
    (&[("p", K::N2), ("q", K::I)], z364),
    (&[("q", K::N2), ("p", K::I)], z365),
    (&[("p", K::N2), ("q", K::U)], z366),
    (&[("q", K::N2), ("p", K::U)], z367),
    (&[("p", K::N2), ("q", K::B)], z368),
    (&[("q", K::N2), ("p", K::B)], z369),
    (&[("p", K::N2), ("q", K::S)], z370),
    (&[("q", K::N2), ("p", K::S)], z371),
    (&[("p", K::N2), ("q", K::Buf)], z372),
    (&[("q", K::N2), ("p", K::Buf)], z373),
    (&[("p", K::N2), ("q", K::VS)], z374),
    (&[("q", K::N2), ("p", K::VS)], z375),
    (&[("p", K::N2), ("q", K::OI)], z376),
    (&[("q", K::N2), ("p", K::OI)], z377),
    (&[("p", K::N2), ("q", K::OU)], z378),
    (&[("q", K::N2), ("p", K::OU)], z379),
    (&[("p", K::N2), ("q", K::OS)], z380),
    (&[("q", K::N2), ("p", K::OS)], z381),
    (&[("p", K::N2), ("q", K::RI)], z382),
    (&[("q", K::N2), ("p", K::RI)], z383),
    (&[("p", K::N2), ("q", K::RU)], z384),
    (&[("q", K::N2), ("p", K::RU)], z385),
    (&[("p", K::N2), ("q", K::N1)], z386),
    (&[("q", K::N2), ("p", K::N1)], z387),
    (&[("p", K::N2), ("q", K::N2)], z388),
    (&[("q", K::N2), ("p", K::N2)], z389),
    (&[("p", K::I), ("p", K::I)], z390),
    (&[("p", K::I), ("p", K::U)], z391),
    (&[("p", K::I), ("p", K::B)], z392),
    (&[("p", K::I), ("p", K::S)], z393),
    (&[("p", K::I), ("p", K::Buf)], z394),
    (&[("p", K::I), ("p", K::VS)], z395),
    (&[("p", K::I), ("p", K::OI)], z396),
    (&[("p", K::I), ("p", K::OU)], z397),
    (&[("p", K::I), ("p", K::OS)], z398),
    (&[("p", K::I), ("p", K::RI)], z399),
    (&[("p", K::I), ("p", K::RU)], z400),
    (&[("p", K::I), ("p", K::N1)], z401),
    (&[("p", K::I), ("p", K::N2)], z402),
    (&[("p", K::U), ("p", K::I)], z403),
    (&[("p", K::U), ("p", K::U)], z404),
    (&[("p", K::U), ("p", K::B)], z405),
    (&[("p", K::U), ("p", K::S)], z406),
    (&[("p", K::U), ("p", K::Buf)], z407),
    (&[("p", K::U), ("p", K::VS)], z408),
    (&[("p", K::U), ("p", K::OI)], z409),
    (&[("p", K::U), ("p", K::OU)], z410),
    (&[("p", K::U), ("p", K::OS)], z411),
    (&[("p", K::U), ("p", K::RI)], z412),
    (&[("p", K::U), ("p", K::RU)], z413),
    (&[("p", K::U), ("p", K::N1)], z414),
    (&[("p", K::U), ("p", K::N2)], z415),
    (&[("p", K::B), ("p", K::I)], z416),
    (&[("p", K::B), ("p", K::U)], z417),
    (&[("p", K::B), ("p", K::B)], z418),
    (&[("p", K::B), ("p", K::S)], z419),
    (&[("p", K::B), ("p", K::Buf)], z420),
    (&[("p", K::B), ("p", K::VS)], z421),
    (&[("p", K::B), ("p", K::OI)], z422),
    (&[("p", K::B), ("p", K::OU)], z423),
    (&[("p", K::B), ("p", K::OS)], z424),
    (&[("p", K::B), ("p", K::RI)], z425),
    (&[("p", K::B), ("p", K::RU)], z426),
    (&[("p", K::B), ("p", K::N1)], z427),
    (&[("p", K::B), ("p", K::N2)], z428),
    (&[("p", K::S), ("p", K::I)], z429),
    (&[("p", K::S), ("p", K::U)], z430),
    (&[("p", K::S), ("p", K::B)], z431),
    (&[("p", K::S), ("p", K::S)], z432),
    (&[("p", K::S), ("p", K::Buf)], z433),
    (&[("p", K::S), ("p", K::VS)], z434),
    (&[("p", K::S), ("p", K::OI)], z435),
    (&[("p", K::S), ("p", K::OU)], z436),
    (&[("p", K::S), ("p", K::OS)], z437),
    (&[("p", K::S), ("p", K::RI)], z438),
    (&[("p", K::S), ("p", K::RU)], z439),
    (&[("p", K::S), ("p", K::N1)], z440),
    (&[("p", K::S), ("p", K::N2)], z441),
    (&[("p", K::Buf), ("p", K::I)], z442),
    (&[("p", K::Buf), ("p", K::U)], z443),
    (&[("p", K::Buf), ("p", K::B)], z444),
    (&[("p", K::Buf), ("p", K::S)], z445),
    (&[("p", K::Buf), ("p", K::Buf)], z446),
    (&[("p", K::Buf), ("p", K::VS)], z447),
    (&[("p", K::Buf), ("p", K::OI)], z448),
    (&[("p", K::Buf), ("p", K::OU)], z449),
    (&[("p", K::Buf), ("p", K::OS)], z450),
    (&[("p", K::Buf), ("p", K::RI)], z451),
    (&[("p", K::Buf), ("p", K::RU)], z452),
    (&[("p", K::Buf), ("p", K::N1)], z453),
    (&[("p", K::Buf), ("p", K::N2)], z454),
    (&[("p", K::VS), ("p", K::I)], z455),
    (&[("p", K::VS), ("p", K::U)], z456),
    (&[("p", K::VS), ("p", K::B)], z457),
    (&[("p", K::VS), ("p", K::S)], z458),
    (&[("p", K::VS), ("p", K::Buf)], z459),
    (&[("p", K::VS), ("p", K::VS)], z460),
    (&[("p", K::VS), ("p", K::OI)], z461),
    (&[("p", K::VS), ("p", K::OU)], z462),
    (&[("p", K::VS), ("p", K::OS)], z463),
    (&[("p", K::VS), ("p", K::RI)], z464),
    (&[("p", K::VS), ("p", K::RU)], z465),
    (&[("p", K::VS), ("p", K::N1)], z466),
    (&[("p", K::VS), ("p", K::N2)], z467),
    (&[("p", K::OI), ("p", K::I)], z468),
    (&[("p", K::OI), ("p", K::U)], z469),
    (&[("p", K::OI), ("p", K::B)], z470),
    (&[("p", K::OI), ("p", K::S)], z471),
    (&[("p", K::OI), ("p", K::Buf)], z472),
    (&[("p", K::OI), ("p", K::VS)], z473),
    (&[("p", K::OI), ("p", K::OI)], z474),
    (&[("p", K::OI), ("p", K::OU)], z475),
    (&[("p", K::OI), ("p", K::OS)], z476),
    (&[("p", K::OI), ("p", K::RI)], z477),
    (&[("p", K::OI), ("p", K::RU)], z478),
    (&[("p", K::OI), ("p", K::N1)], z479),
    (&[("p", K::OI), ("p", K::N2)], z480),
    (&[("p", K::OU), ("p", K::I)], z481),
    (&[("p", K::OU), ("p", K::U)], z482),
    (&[("p", K::OU), ("p", K::B)], z483),
    (&[("p", K::OU), ("p", K::S)], z484),
    (&[("p", K::OU), ("p", K::Buf)], z485),
    (&[("p", K::OU), ("p", K::VS)], z486),
    (&[("p", K::OU), ("p", K::OI)], z487),
    (&[("p", K::OU), ("p", K::OU)], z488),
    (&[("p", K::OU), ("p", K::OS)], z489),
    (&[("p", K::OU), ("p", K::RI)], z490),
    (&[("p", K::OU), ("p", K::RU)], z491),
    (&[("p", K::OU), ("p", K::N1)], z492),
    (&[("p", K::OU), ("p", K::N2)], z493),
    (&[("p", K::OS), ("p", K::I)], z494),
    (&[("p", K::OS), ("p", K::U)], z495),
    (&[("p", K::OS), ("p", K::B)], z496),
    (&[("p", K::OS), ("p", K::S)], z497),
    (&[("p", K::OS), ("p", K::Buf)], z498),
    (&[("p", K::OS), ("p", K::VS)], z499),
    (&[("p", K::OS), ("p", K::OI)], z500),
    (&[("p", K::OS), ("p", K::OU)], z501),
    (&[("p", K::OS), ("p", K::OS)], z502),
    (&[("p", K::OS), ("p", K::RI)], z503),
    (&[("p", K::OS), ("p", K::RU)], z504),
    (&[("p", K::OS), ("p", K::N1)], z505),
    (&[("p", K::OS), ("p", K::N2)], z506),
    (&[("p", K::RI), ("p", K::I)], z507),
    (&[("p", K::RI), ("p", K::U)], z508),
    (&[("p", K::RI), ("p", K::B)], z509),
    (&[("p", K::RI), ("p", K::S)], z510),
    (&[("p", K::RI), ("p", K::Buf)], z511),
    (&[("p", K::RI), ("p", K::VS)], z512),
    (&[("p", K::RI), ("p", K::OI)], z513),
    (&[("p", K::RI), ("p", K::OU)], z514),
    (&[("p", K::RI), ("p", K::OS)], z515),
    (&[("p", K::RI), ("p", K::RI)], z516),
    (&[("p", K::RI), ("p", K::RU)], z517),
    (&[("p", K::RI), ("p", K::N1)], z518),
    (&[("p", K::RI), ("p", K::N2)], z519),
    (&[("p", K::RU), ("p", K::I)], z520),
    (&[("p", K::RU), ("p", K::U)], z521),
    (&[("p", K::RU), ("p", K::B)], z522),
    (&[("p", K::RU), ("p", K::S)], z523),
    (&[("p", K::RU), ("p", K::Buf)], z524),
    (&[("p", K::RU), ("p", K::VS)], z525),
    (&[("p", K::RU), ("p", K::OI)], z526),
    (&[("p", K::RU), ("p", K::OU)], z527),
    (&[("p", K::RU), ("p", K::OS)], z528),
    (&[("p", K::RU), ("p", K::RI)], z529),
    (&[("p", K::RU), ("p", K::RU)], z530),
    (&[("p", K::RU), ("p", K::N1)], z531),
    (&[("p", K::RU), ("p", K::N2)], z532),
    (&[("p", K::N1), ("p", K::I)], z533),
    (&[("p", K::N1), ("p", K::U)], z534),
    (&[("p", K::N1), ("p", K::B)], z535),
    (&[("p", K::N1), ("p", K::S)], z536),
    (&[("p", K::N1), ("p", K::Buf)], z537),
    (&[("p", K::N1), ("p", K::VS)], z538),
    (&[("p", K::N1), ("p", K::OI)], z539),
    (&[("p", K::N1), ("p", K::OU)], z540),
    (&[("p", K::N1), ("p", K::OS)], z541),
    (&[("p", K::N1), ("p", K::RI)], z542),
    (&[("p", K::N1), ("p", K::RU)], z543),
    (&[("p", K::N1), ("p", K::N1)], z544),
    (&[("p", K::N1), ("p", K::N2)], z545),
    (&[("p", K::N2), ("p", K::I)], z546),
    (&[("p", K::N2), ("p", K::U)], z547),
    (&[("p", K::N2), ("p", K::B)], z548),
    (&[("p", K::N2), ("p", K::S)], z549),
    (&[("p", K::N2), ("p", K::Buf)], z550),
    (&[("p", K::N2), ("p", K::VS)], z551),
    (&[("p", K::N2), ("p", K::OI)], z552),
    (&[("p", K::N2), ("p", K::OU)], z553),
    (&[("p", K::N2), ("p", K::OS)], z554),
    (&[("p", K::N2), ("p", K::RI)], z555),
    (&[("p", K::N2), ("p", K::RU)], z556),
    (&[("p", K::N2), ("p", K::N1)], z557),
    (&[("p", K::N2), ("p", K::N2)], z558),
    (&[("k-1", K::I), ("k", K::I), ("k-11", K::I)], z559),
    (&[("k-1", K::U), ("k", K::U), ("k-11", K::U)], z560),
    (&[("k-1", K::B), ("k", K::B), ("k-11", K::B)], z561),
    (&[("k-1", K::S), ("k", K::S), ("k-11", K::S)], z562),
    (&[("k-1", K::Buf), ("k", K::Buf), ("k-11", K::Buf)], z563),
    (&[("k-1", K::VS), ("k", K::VS), ("k-11", K::VS)], z564),
    (&[("k-1", K::OI), ("k", K::OI), ("k-11", K::OI)], z565),
    (&[("k-1", K::OU), ("k", K::OU), ("k-11", K::OU)], z566),
    (&[("k-1", K::OS), ("k", K::OS), ("k-11", K::OS)], z567),
    (&[("k-1", K::RI), ("k", K::RI), ("k-11", K::RI)], z568),
    (&[("k-1", K::RU), ("k", K::RU), ("k-11", K::RU)], z569),
    (&[("k-1", K::N1), ("k", K::N1), ("k-11", K::N1)], z570),
    (&[("k-1", K::N2), ("k", K::N2), ("k-11", K::N2)], z571),
    (&[("key-0", K::I), ("key-1", K::U), ("key-2", K::B), ("key-3", K::S), ("key-4", K::Buf), ("key-5", K::VS), ("key-6", K::OI), ("key-7", K::OU), ("key-8", K::OS), ("key-9", K::RI), ("key-10", K::RU), ("key-11", K::N1), ("key-12", K::N2)], z572),
    (&[("key-12", K::N2), ("key-11", K::N1), ("key-10", K::RU), ("key-9", K::RI), ("key-8", K::OS), ("key-7", K::OU), ("key-6", K::OI), ("key-5", K::VS), ("key-4", K::Buf), ("key-3", K::S), ("key-2", K::B), ("key-1", K::U), ("key-0", K::I)], z573),
    (&[("a", K::I)], z574),
    (&[("a", K::B)], z575),
    (&[("a", K::OS)], z576),
    (&[("a", K::N1)], z577),
    (&[("A", K::I)], z578),
    (&[("A", K::B)], z579),
    (&[("A", K::OS)], z580),
    (&[("A", K::N1)], z581),
    (&[("a_b", K::I)], z582),
    (&[("a_b", K::B)], z583),
    (&[("a_b", K::OS)], z584),
    (&[("a_b", K::N1)], z585),
    (&[("a-b", K::I)], z586),
    (&[("a-b", K::B)], z587),
    (&[("a-b", K::OS)], z588),
    (&[("a-b", K::N1)], z589),
    (&[("A-b", K::I)], z590),
    (&[("A-b", K::B)], z591),
    (&[("A-b", K::OS)], z592),
    (&[("A-b", K::N1)], z593),
    (&[("a.b", K::I)], z594),
    (&[("a.b", K::B)], z595),
    (&[("a.b", K::OS)], z596),
    (&[("a.b", K::N1)], z597),
    (&[("a b", K::I)], z598),
    (&[("a b", K::B)], z599),
    (&[("a b", K::OS)], z600),
    (&[("a b", K::N1)], z601),
    (&[("a?", K::I)], z602),
    (&[("a?", K::B)], z603),
    (&[("a?", K::OS)], z604),
    (&[("a?", K::N1)], z605),
    (&[("!", K::I)], z606),
    (&[("!", K::B)], z607),
    (&[("!", K::OS)], z608),
    (&[("!", K::N1)], z609),
    (&[("0", K::I)], z610),
    (&[("0", K::B)], z611),
    (&[("0", K::OS)], z612),
    (&[("0", K::N1)], z613),
    (&[("1", K::I)], z614),
    (&[("1", K::B)], z615),
    (&[("1", K::OS)], z616),
    (&[("1", K::N1)], z617),
    (&[("-", K::I)], z618),
    (&[("-", K::B)], z619),
    (&[("-", K::OS)], z620),
    (&[("-", K::N1)], z621),
    (&[("_", K::I)], z622),
    (&[("_", K::B)], z623),
    (&[("_", K::OS)], z624),
    (&[("_", K::N1)], z625),
    (&[("", K::I)], z626),
    (&[("", K::B)], z627),
    (&[("", K::OS)], z628),
    (&[("", K::N1)], z629),
    (&[("k1", K::I)], z630),
    (&[("k1", K::B)], z631),
    (&[("k1", K::OS)], z632),
    (&[("k1", K::N1)], z633),
    (&[("key", K::I)], z634),
    (&[("key", K::B)], z635),
    (&[("key", K::OS)], z636),
    (&[("key", K::N1)], z637),
    (&[("value", K::I)], z638),
    (&[("value", K::B)], z639),
    (&[("value", K::OS)], z640),
    (&[("value", K::N1)], z641),
    (&[("tuple", K::I)], z642),
    (&[("tuple", K::B)], z643),
    (&[("tuple", K::OS)], z644),
    (&[("tuple", K::N1)], z645),
    (&[("list", K::I)], z646),
    (&[("list", K::B)], z647),
    (&[("list", K::OS)], z648),
    (&[("list", K::N1)], z649),
    (&[("x", K::I)], z650),
    (&[("x", K::B)], z651),
    (&[("x", K::OS)], z652),
    (&[("x", K::N1)], z653),
    (&[("r#type", K::I)], z654),
    (&[("r#type", K::B)], z655),
    (&[("r#type", K::OS)], z656),
    (&[("r#type", K::N1)], z657),
    (&[("é", K::I)], z658),
    (&[("é", K::B)], z659),
    (&[("é", K::OS)], z660),
    (&[("é", K::N1)], z661),
    (&[("self", K::I)], z662),
    (&[("self", K::B)], z663),
    (&[("self", K::OS)], z664),
    (&[("self", K::N1)], z665),
    (&[("response", K::I)], z666),
    (&[("response", K::B)], z667),
    (&[("response", K::OS)], z668),
    (&[("response", K::N1)], z669),
    (&[("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", K::I)], z670),
    (&[("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", K::B)], z671),
    (&[("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", K::OS)], z672),
    (&[("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", K::N1)], z673),
    (&[("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", K::I)], z674),
    (&[("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", K::B)], z675),
    (&[("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", K::OS)], z676),
    (&[("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", K::N1)], z677),
    (&[("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", K::I)], z678),
    (&[("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", K::B)], z679),
    (&[("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", K::OS)], z680),
    (&[("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", K::N1)], z681),
    (&[("a'b", K::I)], z682),
    (&[("a'b", K::B)], z683),
    (&[("a'b", K::OS)], z684),
    (&[("a'b", K::N1)], z685),
    (&[("{}", K::I)], z686),
    (&[("{}", K::B)], z687),
    (&[("{}", K::OS)], z688),
    (&[("{}", K::N1)], z689),
    (&[("{0}", K::I)], z690),
    (&[("{0}", K::B)], z691),
    (&[("{0}", K::OS)], z692),
    (&[("{0}", K::N1)], z693),
    (&[("%s", K::I)], z694),
    (&[("%s", K::B)], z695),
    (&[("%s", K::OS)], z696),
    (&[("%s", K::N1)], z697),
    (&[("ok", K::I)], z698),
    (&[("ok", K::B)], z699),
    (&[("ok", K::OS)], z700),
    (&[("ok", K::N1)], z701),
    (&[("none", K::I)], z702),
    (&[("none", K::B)], z703),
    (&[("none", K::OS)], z704),
    (&[("none", K::N1)], z705),
    (&[("q", K::QBuf)], z706),
    (&[("q", K::QVS)], z707),
    (&[("q", K::QOI)], z708),
    (&[("q", K::QOU)], z709),
    (&[("q", K::QOS)], z710),
    (&[("q", K::RF)], z711),
    (&[("q", K::N3)], z712),
    (&[("q", K::G1)], z713),
    (&[("some-key", K::QBuf)], z714),
    (&[("some-key", K::QVS)], z715),
    (&[("some-key", K::QOI)], z716),
    (&[("some-key", K::QOU)], z717),
    (&[("some-key", K::QOS)], z718),
    (&[("some-key", K::RF)], z719),
    (&[("some-key", K::N3)], z720),
    (&[("some-key", K::G1)], z721),
    (&[("key0", K::I), ("key1", K::I), ("key2", K::I), ("key3", K::I), ("key4", K::I), ("key5", K::I), ("key6", K::I), ("key7", K::I), ("key8", K::I), ("key9", K::I), ("key10", K::I), ("key11", K::I)], z722),
    (&[("key0", K::B), ("key1", K::B), ("key2", K::B), ("key3", K::B), ("key4", K::B), ("key5", K::B), ("key6", K::B), ("key7", K::B), ("key8", K::B), ("key9", K::B), ("key10", K::B), ("key11", K::B)], z723),
    (&[("key0", K::S), ("key1", K::S), ("key2", K::S), ("key3", K::S), ("key4", K::S), ("key5", K::S), ("key6", K::S), ("key7", K::S), ("key8", K::S), ("key9", K::S), ("key10", K::S), ("key11", K::S)], z724),
    (&[("key0", K::Buf), ("key1", K::Buf), ("key2", K::Buf), ("key3", K::Buf), ("key4", K::Buf), ("key5", K::Buf), ("key6", K::Buf), ("key7", K::Buf), ("key8", K::Buf), ("key9", K::Buf), ("key10", K::Buf), ("key11", K::Buf)], z725),
    (&[("key0", K::VS), ("key1", K::VS), ("key2", K::VS), ("key3", K::VS), ("key4", K::VS), ("key5", K::VS), ("key6", K::VS), ("key7", K::VS), ("key8", K::VS), ("key9", K::VS), ("key10", K::VS), ("key11", K::VS)], z726),
    (&[("key0", K::OI), ("key1", K::OI), ("key2", K::OI), ("key3", K::OI), ("key4", K::OI), ("key5", K::OI), ("key6", K::OI), ("key7", K::OI), ("key8", K::OI), ("key9", K::OI), ("key10", K::OI), ("key11", K::OI)], z727),
    (&[("key0", K::OS), ("key1", K::OS), ("key2", K::OS), ("key3", K::OS), ("key4", K::OS), ("key5", K::OS), ("key6", K::OS), ("key7", K::OS), ("key8", K::OS), ("key9", K::OS), ("key10", K::OS), ("key11", K::OS)], z728),
    (&[("key0", K::RU), ("key1", K::RU), ("key2", K::RU), ("key3", K::RU), ("key4", K::RU), ("key5", K::RU), ("key6", K::RU), ("key7", K::RU), ("key8", K::RU), ("key9", K::RU), ("key10", K::RU), ("key11", K::RU)], z729),
    (&[("key0", K::N2), ("key1", K::N2), ("key2", K::N2), ("key3", K::N2), ("key4", K::N2), ("key5", K::N2), ("key6", K::N2), ("key7", K::N2), ("key8", K::N2), ("key9", K::N2), ("key10", K::N2), ("key11", K::N2)], z730),
];
pub const SINGLE: usize = 52;
pub const PAIR: usize = 390;
pub const SAME: usize = 559;
pub const TRIPLE: usize = 572;
pub const WHOLE: usize = 574;
pub const ODD: usize = 722;
