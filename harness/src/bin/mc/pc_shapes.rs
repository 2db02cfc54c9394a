// Generated: every sequence of <= 4 condition kinds through the macro.
use super::Args;
use stacks_rs::transaction::PostConditions;
pub const SHAPES: &[&[u8]] = &[
    &[],
    &[0],
    &[1],
    &[2],
    &[0, 0],
    &[0, 1],
    &[0, 2],
    &[1, 0],
    &[1, 1],
    &[1, 2],
    &[2, 0],
    &[2, 1],
    &[2, 2],
    &[0, 0, 0],
    &[0, 0, 1],
    &[0, 0, 2],
    &[0, 1, 0],
    &[0, 1, 1],
    &[0, 1, 2],
    &[0, 2, 0],
    &[0, 2, 1],
    &[0, 2, 2],
    &[1, 0, 0],
    &[1, 0, 1],
    &[1, 0, 2],
    &[1, 1, 0],
    &[1, 1, 1],
    &[1, 1, 2],
    &[1, 2, 0],
    &[1, 2, 1],
    &[1, 2, 2],
    &[2, 0, 0],
    &[2, 0, 1],
    &[2, 0, 2],
    &[2, 1, 0],
    &[2, 1, 1],
    &[2, 1, 2],
    &[2, 2, 0],
    &[2, 2, 1],
    &[2, 2, 2],
    &[0, 0, 0, 0],
    &[0, 0, 0, 1],
    &[0, 0, 0, 2],
    &[0, 0, 1, 0],
    &[0, 0, 1, 1],
    &[0, 0, 1, 2],
    &[0, 0, 2, 0],
    &[0, 0, 2, 1],
    &[0, 0, 2, 2],
    &[0, 1, 0, 0],
    &[0, 1, 0, 1],
    &[0, 1, 0, 2],
    &[0, 1, 1, 0],
    &[0, 1, 1, 1],
    &[0, 1, 1, 2],
    &[0, 1, 2, 0],
    &[0, 1, 2, 1],
    &[0, 1, 2, 2],
    &[0, 2, 0, 0],
    &[0, 2, 0, 1],
    &[0, 2, 0, 2],
    &[0, 2, 1, 0],
    &[0, 2, 1, 1],
    &[0, 2, 1, 2],
    &[0, 2, 2, 0],
    &[0, 2, 2, 1],
    &[0, 2, 2, 2],
    &[1, 0, 0, 0],
    &[1, 0, 0, 1],
    &[1, 0, 0, 2],
    &[1, 0, 1, 0],
    &[1, 0, 1, 1],
    &[1, 0, 1, 2],
    &[1, 0, 2, 0],
    &[1, 0, 2, 1],
    &[1, 0, 2, 2],
    &[1, 1, 0, 0],
    &[1, 1, 0, 1],
    &[1, 1, 0, 2],
    &[1, 1, 1, 0],
    &[1, 1, 1, 1],
    &[1, 1, 1, 2],
    &[1, 1, 2, 0],
    &[1, 1, 2, 1],
    &[1, 1, 2, 2],
    &[1, 2, 0, 0],
    &[1, 2, 0, 1],
    &[1, 2, 0, 2],
    &[1, 2, 1, 0],
    &[1, 2, 1, 1],
    &[1, 2, 1, 2],
    &[1, 2, 2, 0],
    &[1, 2, 2, 1],
    &[1, 2, 2, 2],
    &[2, 0, 0, 0],
    &[2, 0, 0, 1],
    &[2, 0, 0, 2],
    &[2, 0, 1, 0],
    &[2, 0, 1, 1],
    &[2, 0, 1, 2],
    &[2, 0, 2, 0],
    &[2, 0, 2, 1],
    &[2, 0, 2, 2],
    &[2, 1, 0, 0],
    &[2, 1, 0, 1],
    &[2, 1, 0, 2],
    &[2, 1, 1, 0],
    &[2, 1, 1, 1],
    &[2, 1, 1, 2],
    &[2, 1, 2, 0],
    &[2, 1, 2, 1],
    &[2, 1, 2, 2],
    &[2, 2, 0, 0],
    &[2, 2, 0, 1],
    &[2, 2, 0, 2],
    &[2, 2, 1, 0],
    &[2, 2, 1, 1],
    &[2, 2, 1, 2],
    &[2, 2, 2, 0],
    &[2, 2, 2, 1],
    &[2, 2, 2, 2],
];
#[rustfmt::skip]
pub fn build(i: usize, a: &Args) -> PostConditions {
    match i {
        0 => stacks_rs::post_condition!(),
        1 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]),),
        2 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone())),
        3 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()),),
        4 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (STXCondition, a.p1.clone(), a.n[1], a.c[1])),
        5 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()),),
        6 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone())),
        7 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]),),
        8 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone())),
        9 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()),),
        10 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1])),
        11 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()),),
        12 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone())),
        13 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (STXCondition, a.p2.clone(), a.n[2], a.c[2]),),
        14 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone())),
        15 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()),),
        16 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2])),
        17 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()),),
        18 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone())),
        19 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]),),
        20 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone())),
        21 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()),),
        22 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (STXCondition, a.p2.clone(), a.n[2], a.c[2])),
        23 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()),),
        24 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone())),
        25 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]),),
        26 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone())),
        27 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()),),
        28 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2])),
        29 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()),),
        30 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone())),
        31 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (STXCondition, a.p2.clone(), a.n[2], a.c[2]),),
        32 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone())),
        33 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()),),
        34 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2])),
        35 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()),),
        36 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone())),
        37 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]),),
        38 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone())),
        39 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()),),
        40 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (STXCondition, a.p3.clone(), a.n[3], a.c[3])),
        41 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone()),),
        42 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone())),
        43 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3]),),
        44 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone())),
        45 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone()),),
        46 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3])),
        47 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone()),),
        48 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone())),
        49 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (STXCondition, a.p3.clone(), a.n[3], a.c[3]),),
        50 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone())),
        51 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone()),),
        52 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3])),
        53 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone()),),
        54 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone())),
        55 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3]),),
        56 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone())),
        57 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone()),),
        58 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (STXCondition, a.p3.clone(), a.n[3], a.c[3])),
        59 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone()),),
        60 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone())),
        61 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3]),),
        62 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone())),
        63 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone()),),
        64 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3])),
        65 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone()),),
        66 => stacks_rs::post_condition!((STXCondition, a.p0.clone(), a.n[0], a.c[0]), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone())),
        67 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (STXCondition, a.p3.clone(), a.n[3], a.c[3]),),
        68 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone())),
        69 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone()),),
        70 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3])),
        71 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone()),),
        72 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone())),
        73 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3]),),
        74 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone())),
        75 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone()),),
        76 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (STXCondition, a.p3.clone(), a.n[3], a.c[3])),
        77 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone()),),
        78 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone())),
        79 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3]),),
        80 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone())),
        81 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone()),),
        82 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3])),
        83 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone()),),
        84 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone())),
        85 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (STXCondition, a.p3.clone(), a.n[3], a.c[3]),),
        86 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone())),
        87 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone()),),
        88 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3])),
        89 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone()),),
        90 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone())),
        91 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3]),),
        92 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone())),
        93 => stacks_rs::post_condition!((FungibleCondition, a.p0.clone(), a.n[0], a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone()),),
        94 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (STXCondition, a.p3.clone(), a.n[3], a.c[3])),
        95 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone()),),
        96 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone())),
        97 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3]),),
        98 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone())),
        99 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone()),),
        100 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3])),
        101 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone()),),
        102 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (STXCondition, a.p1.clone(), a.n[1], a.c[1]), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone())),
        103 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (STXCondition, a.p3.clone(), a.n[3], a.c[3]),),
        104 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone())),
        105 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone()),),
        106 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3])),
        107 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone()),),
        108 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone())),
        109 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3]),),
        110 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone())),
        111 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (FungibleCondition, a.p1.clone(), a.n[1], a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone()),),
        112 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (STXCondition, a.p3.clone(), a.n[3], a.c[3])),
        113 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone()),),
        114 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (STXCondition, a.p2.clone(), a.n[2], a.c[2]), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone())),
        115 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3]),),
        116 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone())),
        117 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (FungibleCondition, a.p2.clone(), a.n[2], a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone()),),
        118 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (STXCondition, a.p3.clone(), a.n[3], a.c[3])),
        119 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (FungibleCondition, a.p3.clone(), a.n[3], a.c[3], a.i[3].clone()),),
        120 => stacks_rs::post_condition!((NonFungibleCondition, a.p0.clone(), a.v0.clone(), a.c[0], a.i[0].clone()), (NonFungibleCondition, a.p1.clone(), a.v1.clone(), a.c[1], a.i[1].clone()), (NonFungibleCondition, a.p2.clone(), a.v2.clone(), a.c[2], a.i[2].clone()), (NonFungibleCondition, a.p3.clone(), a.v3.clone(), a.c[3], a.i[3].clone())),
        _ => unreachable!(),
    }
}
