//! `key_path!` invocations; the paths they must stand for are listed, in the same order, in gen/ops.py.
use mirror_mirror::key_path;
use mirror_mirror::key_path::KeyPath;
pub fn macro_path(i: usize) -> Option<KeyPath> {
    let n = 3_usize;
    Some(match i {
        0 => key_path!(),
        1 => key_path!(.a),
        2 => key_path!(.0),
        3 => key_path!([0]),
        4 => key_path!(["k"]),
        5 => key_path!(::V),
        6 => key_path!(.a.b.c),
        7 => key_path!(.a::Some.0[1]["x"].b),
        8 => key_path!(::A::B),
        9 => key_path!(.0 .1),
        10 => key_path!([1_u8][2_i64]),
        11 => key_path!(."lit"."x y".2),
        12 => key_path!([n]),
        13 => key_path!(.employer::Some.0.countries[0].name),
        14 => key_path!(::Some.a[true]),
        _ => return None,
    })
}
