//! Every documented form of the derive macro, in modules that import nothing but the macro: all of them
//! have to compile
#![allow(dead_code)]

pub mod readme {
    use cbored::CborRepr;
    #[derive(CborRepr)]
    #[cborrepr(structure = "array")]
    pub struct Point {
        x: u32,
        y: u32,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "array_lastopt")]
    pub struct PointOpt {
        x: u32,
        y: Option<u32>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "flat")]
    pub struct FlatPoint {
        x: u32,
        y: u32,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint")]
    pub struct MapPoint {
        #[cborrepr(mandatory)]
        x: u32,
        #[cborrepr(mandatory)]
        y: u32,
        z: Option<u32>,
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "tagvariant")]
    pub enum Variant {
        One(u32),
        Two(u64, String),
        Three(Point),
        Four,
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumint")]
    pub enum Code {
        Code1,
        Code2,
        Code3,
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumtype")]
    pub enum OneOrEmpty {
        #[cborrepr(cbortype = "null")]
        Empty,
        #[cborrepr(cbortype = "positive")]
        One(u64),
    }
}

pub mod arrays {
    use cbored::CborRepr;
    #[derive(CborRepr)]
    #[cborrepr(structure = "array")]
    pub struct One {
        x: u32,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "array")]
    pub struct Tuple(u8, u16, String);
    #[derive(CborRepr)]
    #[cborrepr(structure = "array", tag = 55)]
    pub struct Tagged {
        x: bool,
        y: Vec<u8>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "array", tag = 4294967296)]
    pub struct TaggedTuple(u64, u64);
    #[derive(CborRepr)]
    #[cborrepr(structure = "array_lastopt", tag = 0)]
    pub struct TaggedOpt {
        x: u64,
        y: [u8; 32],
        z: Option<Tagged>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "array")]
    pub struct WithVec {
        #[cborrepr(variant = "vec")]
        x: Vec<Tagged>,
        y: u64,
    }
}

pub mod flats {
    use cbored::CborRepr;
    #[derive(CborRepr)]
    pub struct Default {
        x: u32,
        y: u32,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "flat")]
    pub struct Tuple(u8, u16, String);
    #[derive(CborRepr)]
    #[cborrepr(structure = "flat", tag = 30)]
    pub struct Tagged {
        x: u64,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "flat", tag = 30)]
    pub struct TaggedTuple(u64);
}

pub mod maps {
    use cbored::CborRepr;
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint")]
    pub struct Mandatory {
        #[cborrepr(mandatory)]
        x: u32,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint")]
    pub struct Optional {
        x: Option<u32>,
        y: Option<String>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint", tag = 258)]
    pub struct Tagged {
        #[cborrepr(mandatory)]
        x: u32,
        y: Option<String>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint", map_starts_at = 1)]
    pub struct Start {
        #[cborrepr(mandatory)]
        x: u32,
        y: Option<String>,
    }
    #[derive(CborRepr)]
    #[cborrepr(structure = "mapint", map_starts_at = 2, skipkey = 3, skipkey = 5, tag = 1)]
    pub struct Skips {
        #[cborrepr(mandatory)]
        x: u32,
        y: Option<String>,
        z: Option<u8>,
    }
}

pub mod enums {
    use cbored::CborRepr;
    #[derive(CborRepr)]
    pub enum Default {
        One(u32),
        Two,
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "tagvariant")]
    pub enum Record {
        One { x: u32, y: String },
        Two,
        Three(Vec<u64>, bool),
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "tagvariant", variant_starts_at = 3, skipkey = 4, skipkey = 7)]
    pub enum Skips {
        One { x: u32 },
        Two(u8, u8),
        Three,
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumint", variant_starts_at = 3, skipkey = 4)]
    pub enum Ints {
        One,
        Two,
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "enumtype")]
    pub enum Types {
        #[cborrepr(cbortype = "positive")]
        A(u64),
        #[cborrepr(cbortype = "negative")]
        B(cbored::DataOwned),
        #[cborrepr(cbortype = "bytes")]
        C(Vec<u8>),
        #[cborrepr(cbortype = "text")]
        D { text: String },
        #[cborrepr(cbortype = "array")]
        E(super::arrays::One),
        #[cborrepr(cbortype = "map")]
        F(super::maps::Optional),
        #[cborrepr(cbortype = "tag")]
        G(super::flats::Tagged),
        #[cborrepr(cbortype = "null")]
        H,
    }
}

pub mod private {
    use cbored::CborRepr;
    #[derive(CborRepr)]
    #[cborrepr(structure = "array")]
    struct Point {
        x: u32,
    }
    pub fn both(d: &[u8]) -> Option<Vec<u8>> {
        cbored::decode_from_bytes::<Point>(d).ok().map(|x| cbored::encode_to_bytes(&x))
    }
}
