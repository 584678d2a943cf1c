//! C18: serde. The field serializes any data-model value up to a depth (the environment chooses the
//! shape), the serializer records every call and may fail at any of them.
use mc::*;
use serde::ser::*;
use std::fmt;

struct V<const K: usize>(Life);
fn v<const K: usize>() -> V<K> {
    V(Life::new())
}

#[derive(Debug)]
struct Er(#[allow(dead_code)] String);
impl fmt::Display for Er {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Er {}
impl Error for Er {
    fn custom<T: fmt::Display>(m: T) -> Er {
        log!("custom error {m}");
        Er(format!("custom {m} {}", fresh()))
    }
}

/// a value of the data model
struct Val(usize);
thread_local!(static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(1));
impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        shape(s, self.0)
    }
}
fn shape<S: Serializer>(s: S, depth: usize) -> Result<S::Ok, S::Error> {
    // scalars first; the compound shapes only while there is depth left
    let n = answer(if depth == 0 { 8 } else { 36 });
    match n {
        0 => s.serialize_unit(),
        1 => s.serialize_bool(true),
        2 => s.serialize_str("text"),
        3 => s.serialize_u64(u64::MAX),
        4 => s.serialize_none(),
        5 => Err(S::Error::custom("field error")),
        6 => panic!("field"),
        7 => s.collect_str(&format_args!("{}-{}", 1, 2)),
        8 => s.serialize_i8(-1),
        9 => s.serialize_i16(-2),
        10 => s.serialize_i32(-3),
        11 => s.serialize_i64(-4),
        12 => s.serialize_i128(i128::MIN),
        13 => s.serialize_u8(1),
        14 => s.serialize_u16(2),
        15 => s.serialize_u32(3),
        16 => s.serialize_u128(u128::MAX),
        17 => s.serialize_f32(1.5),
        18 => s.serialize_f64(-0.0),
        19 => s.serialize_char('c'),
        20 => s.serialize_bytes(b"bytes"),
        21 => s.serialize_some(&Val(depth - 1)),
        22 => s.serialize_unit_struct("UnitStruct"),
        23 => s.serialize_unit_variant("Enum", 7, "UnitVariant"),
        24 => s.serialize_newtype_struct("Newtype", &Val(depth - 1)),
        25 => s.serialize_newtype_variant("Enum", 1, "NewtypeVariant", &Val(depth - 1)),
        26 => {
            let k = answer(3);
            let mut q = s.serialize_seq(if k == 2 { None } else { Some(k) })?;
            for _ in 0..k {
                q.serialize_element(&Val(depth - 1))?;
            }
            q.end()
        }
        27 => {
            let mut q = s.serialize_tuple(2)?;
            q.serialize_element(&Val(depth - 1))?;
            q.serialize_element(&1u8)?;
            q.end()
        }
        28 => {
            let mut q = s.serialize_tuple_struct("TupleStruct", 1)?;
            q.serialize_field(&Val(depth - 1))?;
            q.end()
        }
        29 => {
            let mut q = s.serialize_tuple_variant("Enum", 2, "TupleVariant", 1)?;
            q.serialize_field(&Val(depth - 1))?;
            q.end()
        }
        30 => {
            let mut q = s.serialize_map(Some(1))?;
            q.serialize_key(&Val(depth - 1))?;
            q.serialize_value(&Val(depth - 1))?;
            q.end()
        }
        31 => {
            let mut q = s.serialize_map(None)?;
            q.serialize_entry("k", &Val(depth - 1))?;
            q.end()
        }
        32 => {
            let mut q = s.serialize_struct("Struct", 2)?;
            q.serialize_field("a", &Val(depth - 1))?;
            q.skip_field("b")?;
            q.end()
        }
        33 => {
            let mut q = s.serialize_struct_variant("Enum", 3, "StructVariant", 1)?;
            q.serialize_field("a", &Val(depth - 1))?;
            q.skip_field("b")?;
            q.end()
        }
        34 => {
            if s.is_human_readable() {
                s.serialize_str("readable")
            } else {
                s.serialize_u8(0)
            }
        }
        _ => s.collect_seq([Val(depth - 1)]),
    }
}
impl<const K: usize> Serialize for V<K> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        log!("serialize");
        let r = shape(s, DEPTH.with(|d| d.get()));
        log!("serialized {}", r.is_ok());
        r
    }
}

struct Ser(u32, bool);
impl Ser {
    fn new(h: bool) -> Ser {
        Ser(fresh(), h)
    }
}
type R = Result<Item, Er>;
fn end(s: &Ser, what: fmt::Arguments<'_>) -> R {
    log!("serializer {}: {what}", s.0);
    if flag() {
        Err(Er(format!("error {}", fresh())))
    } else {
        Ok(Item::new())
    }
}
fn begin(s: Ser, what: fmt::Arguments<'_>) -> Result<Ser, Er> {
    log!("serializer {}: {what}", s.0);
    if flag() {
        Err(Er(format!("error {}", fresh())))
    } else {
        Ok(s)
    }
}
fn sub<T: Serialize + ?Sized>(s: &mut Ser, what: &str, v: &T) -> Result<(), Er> {
    log!("serializer {}: {what}", s.0);
    if flag() {
        return Err(Er(format!("error {}", fresh())));
    }
    v.serialize(Ser::new(s.1)).map(drop)
}
macro_rules! scalar {
    ($($f:ident($t:ty))*) => { $(fn $f(self, x: $t) -> R { end(&self, format_args!("{} {x:?}", stringify!($f))) })* };
}
impl Serializer for Ser {
    type Ok = Item;
    type Error = Er;
    type SerializeSeq = Ser;
    type SerializeTuple = Ser;
    type SerializeTupleStruct = Ser;
    type SerializeTupleVariant = Ser;
    type SerializeMap = Ser;
    type SerializeStruct = Ser;
    type SerializeStructVariant = Ser;
    scalar! {
        serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64)
        serialize_i128(i128) serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64)
        serialize_u128(u128) serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_str(&str)
        serialize_bytes(&[u8]) serialize_unit_struct(&'static str)
    }
    fn serialize_none(self) -> R {
        end(&self, format_args!("none"))
    }
    fn serialize_some<T: Serialize + ?Sized>(mut self, v: &T) -> R {
        sub(&mut self, "some", v)?;
        end(&self, format_args!("end some"))
    }
    fn serialize_unit(self) -> R {
        end(&self, format_args!("unit"))
    }
    fn serialize_unit_variant(self, a: &'static str, i: u32, b: &'static str) -> R {
        end(&self, format_args!("unit_variant {a} {i} {b}"))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(mut self, a: &'static str, v: &T) -> R {
        sub(&mut self, a, v)?;
        end(&self, format_args!("end newtype"))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(mut self, a: &'static str, i: u32, b: &'static str, v: &T) -> R {
        sub(&mut self, &format!("newtype_variant {a} {i} {b}"), v)?;
        end(&self, format_args!("end newtype_variant"))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Ser, Er> {
        begin(self, format_args!("seq {n:?}"))
    }
    fn serialize_tuple(self, n: usize) -> Result<Ser, Er> {
        begin(self, format_args!("tuple {n:?}"))
    }
    fn serialize_tuple_struct(self, a: &'static str, n: usize) -> Result<Ser, Er> {
        begin(self, format_args!("tuple_struct {a} {n:?}"))
    }
    fn serialize_tuple_variant(self, a: &'static str, i: u32, b: &'static str, n: usize) -> Result<Ser, Er> {
        begin(self, format_args!("tuple_variant {a} {i} {b} {n:?}"))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Ser, Er> {
        begin(self, format_args!("map {n:?}"))
    }
    fn serialize_struct(self, a: &'static str, n: usize) -> Result<Ser, Er> {
        begin(self, format_args!("struct {a} {n:?}"))
    }
    fn serialize_struct_variant(self, a: &'static str, i: u32, b: &'static str, n: usize) -> Result<Ser, Er> {
        begin(self, format_args!("struct_variant {a} {i} {b} {n:?}"))
    }
    fn is_human_readable(&self) -> bool {
        log!("is_human_readable");
        self.1
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, x: &T) -> R {
        end(&self, format_args!("collect_str {x}"))
    }
}
macro_rules! compound {
    ($($T:ident $f:ident)*) => { $(
        impl $T for Ser {
            type Ok = Item;
            type Error = Er;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
                sub(self, stringify!($f), v)
            }
            fn end(self) -> R {
                end(&self, format_args!("end {}", stringify!($T)))
            }
        }
    )* };
}
compound!(SerializeSeq serialize_element SerializeTuple serialize_element SerializeTupleStruct serialize_field SerializeTupleVariant serialize_field);
impl SerializeMap for Ser {
    type Ok = Item;
    type Error = Er;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        sub(self, "key", v)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        sub(self, "value", v)
    }
    fn end(self) -> R {
        end(&self, format_args!("end map"))
    }
}
macro_rules! named {
    ($($T:ident)*) => { $(
        impl $T for Ser {
            type Ok = Item;
            type Error = Er;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Er> {
                sub(self, k, v)
            }
            fn skip_field(&mut self, k: &'static str) -> Result<(), Er> {
                log!("skip {k}");
                if flag() { Err(Er(format!("error {}", fresh()))) } else { Ok(()) }
            }
            fn end(self) -> R {
                end(&self, format_args!("end {}", stringify!($T)))
            }
        }
    )* };
}
named!(SerializeStruct SerializeStructVariant);

mod ser {
    use super::*;
    enums!(serde::Serialize);
    fn go<T: Serialize>(t: T, depth: usize) {
        DEPTH.with(|d| d.set(depth));
        for _ in 0..2 {
            match pick(6) {
                0 => return,
                1 => log!("{:?}", t.serialize(Ser::new(true))),
                2 => return log!("{:?}", t.serialize(Ser::new(false))),
                3 => return log!("{:?}", Some(&t).serialize(Ser::new(true))),
                4 => return log!("{:?}", (&t, 1u8).serialize(Ser::new(true))),
                // an existing serializer of another type, as part of a larger format
                _ => {
                    struct Flag<'a, T>(&'a T);
                    impl<T: Serialize> fmt::Display for Flag<'_, T> {
                        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                            self.0.serialize(f)
                        }
                    }
                    return log!("{:?}", std::fmt::Write::write_fmt(&mut String::new(), format_args!("{}", Flag(&t))).is_ok());
                }
            }
        }
    }
    pub fn part(s: &mut Session) {
        fn g1<T: Serialize>(t: T) { go(t, 1) }
        fn g2<T: Serialize>(t: T) { go(t, 2) }
        let h = s.d(6, 7);
        s.part_h("Serialize, values of depth 1", h, &|| g1(v::<0>()), all_suts!(g1, V, v));
        let h = s.d(4, 6);
        s.part_h("Serialize, values of depth 2", h, &|| g2(v::<0>()), few_suts!(g2, V, v));
    }
}

fn main() {
    let mut s = Session::new(6, 8);
    ser::part(&mut s);
    s.finish();
}
