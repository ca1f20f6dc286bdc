//! Serialisation of constraints
use crate::ensure;
use crate::num::*;
use crate::runner::*;
use crate::spec::any_name;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub flags: [bool; 6],
    pub names: Vec<String>,
    /// fields left out of a document: six flags and the names
    pub absent: [bool; 7],
    /// where the fields of the document are put
    pub order: [F; 7],
    /// positions of some white space
    pub pretty: bool,
}

pub struct P;

const FIELDS: [&str; 7] = ["position_x", "position_y", "position_z", "rotation_x", "rotation_y", "rotation_z", "ignored_joint_names"];

type Plain = ([bool; 6], Vec<String>);

fn plain(c: &k::Constraints) -> Plain {
    (
        [c.position_x, c.position_y, c.position_z, c.rotation_x, c.rotation_y, c.rotation_z],
        c.ignored_joint_names.clone(),
    )
}

fn read(doc: &str) -> Result<Plain, String> {
    let c: k::Constraints = serde_json::from_str(doc).map_err(|e| format!("{doc} is not read: {e}"))?;
    Ok(plain(&c))
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C24";
    const RULE: &'static str = "any six flags and lists of any texts, written and read back (text, pretty text, value, list without field names), and documents with any subset of the fields in any order; non-trivial: a field is absent or a flag is false";
    const ASSUME: &'static [&'static str] = &["the serialisation format is JSON (serde_json), with field names or as lists without"];
    const QUICK: u64 = 500_000;
    const THOROUGH: u64 = 3_000_000;
    fn strategy(_: bool) -> BoxedStrategy<Case> {
        let name = prop_oneof![3 => any_name(), 1 => ".{0,8}", 1 => any::<String>()];
        (any::<[bool; 6]>(), vec(name, 0..5), any::<[bool; 7]>(), prop::array::uniform7(crate::spec::f(0.0..1.0f64)), any::<bool>())
            .prop_map(|(flags, names, absent, order, pretty)| Case {
                flags,
                names,
                absent,
                order,
                pretty,
            })
            .boxed()
    }
    fn check(case: &Case, ctx: &mut Ctx) -> Res {
        let want: Plain = (case.flags, case.names.clone());
        let mut c = k::Constraints::default();
        ensure!(plain(&c) == ([true; 6], vec![]), "the default is {c:?}");
        ensure!(read("{}")? == ([true; 6], vec![]), "the empty document is read as {:?}", read("{}")?);
        let f = case.flags;
        (c.position_x, c.position_y, c.position_z) = (f[0], f[1], f[2]);
        (c.rotation_x, c.rotation_y, c.rotation_z) = (f[3], f[4], f[5]);
        c.ignored_joint_names = case.names.clone();
        // round trips
        let text = if case.pretty { serde_json::to_string_pretty(&c) } else { serde_json::to_string(&c) }.map_err(|e| format!("{c:?} is not written: {e}"))?;
        let back = read(&text)?;
        ensure!(back == want, "{want:?} written as {text} is read back as {back:?}");
        let v = serde_json::to_value(&c).map_err(|e| format!("{c:?} is not written: {e}"))?;
        let back: k::Constraints = serde_json::from_value(v.clone()).map_err(|e| format!("{v} is not read: {e}"))?;
        ensure!(plain(&back) == want, "{want:?} written as {v} is read back as {back:?}");
        // a format which has no field names
        let v = serde::Serialize::serialize(&c, Positional).map_err(|e| format!("{c:?} is not written without field names: {e}"))?;
        let back: k::Constraints = serde_json::from_value(v.clone()).map_err(|e| format!("{v} is not read: {e}"))?;
        ensure!(plain(&back) == want, "{want:?} written without field names as {v} is read back as {back:?}");
        ensure!(plain(&c) == want, "writing changed the constraints");
        // documents with absent fields
        let mut ix: Vec<usize> = (0..7).filter(|i| !case.absent[*i]).collect();
        ix.sort_by(|a, b| case.order[*a].0.total_cmp(&case.order[*b].0));
        let val = |i: usize| if i < 6 { json!(case.flags[i]) } else { json!(case.names) };
        let doc = format!("{{{}}}", ix.iter().map(|i| format!("{}:{}", json!(FIELDS[*i]), val(*i))).collect::<Vec<_>>().join(if case.pretty { " ,\n " } else { "," }));
        let mut w: Plain = ([true; 6], vec![]);
        let mut m = Map::new();
        for i in &ix {
            if *i < 6 {
                w.0[*i] = case.flags[*i];
            } else {
                w.1 = case.names.clone();
            }
            m.insert(FIELDS[*i].into(), val(*i));
        }
        let got = read(&doc)?;
        ensure!(got == w, "{doc} is read as {got:?}");
        let got: k::Constraints = serde_json::from_value(Value::Object(m)).map_err(|e| format!("{doc} is not read: {e}"))?;
        ensure!(plain(&got) == w, "{doc} as a value is read as {got:?}");
        ctx.label_if(ix.len() == 7, "all fields");
        ctx.label_if(ix.is_empty(), "no fields");
        ctx.label_if(case.names.len() > 1, "several names");
        ctx.label_if(case.absent[6] && !case.names.is_empty(), "names absent");
        ctx.nontrivial = ix.len() < 7 || case.flags.contains(&false);
        Ok(())
    }
}

/// Writes structs as lists of their fields, as formats like bincode do
struct Positional;
struct Fields(Vec<Value>);

type Never = serde::ser::Impossible<Value, serde_json::Error>;

impl serde::ser::SerializeStruct for Fields {
    type Ok = Value;
    type Error = serde_json::Error;
    fn serialize_field<T: ?Sized + serde::Serialize>(&mut self, _: &'static str, value: &T) -> Result<(), Self::Error> {
        self.0.push(serde_json::to_value(value)?);
        Ok(())
    }
    fn end(self) -> Result<Value, Self::Error> {
        Ok(Value::Array(self.0))
    }
}

macro_rules! others {
    ($($f:ident($($t:ty),*) -> $r:ty;)*) => {
        $(fn $f(self, $(_: $t),*) -> Result<$r, Self::Error> {
            Err(serde::ser::Error::custom("not a struct"))
        })*
    };
}

impl serde::Serializer for Positional {
    type Ok = Value;
    type Error = serde_json::Error;
    type SerializeSeq = Never;
    type SerializeTuple = Never;
    type SerializeTupleStruct = Never;
    type SerializeTupleVariant = Never;
    type SerializeMap = Never;
    type SerializeStruct = Fields;
    type SerializeStructVariant = Never;
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields, Self::Error> {
        Ok(Fields(vec![]))
    }
    fn is_human_readable(&self) -> bool {
        true
    }
    others! {
        serialize_bool(bool) -> Value;
        serialize_i8(i8) -> Value;
        serialize_i16(i16) -> Value;
        serialize_i32(i32) -> Value;
        serialize_i64(i64) -> Value;
        serialize_u8(u8) -> Value;
        serialize_u16(u16) -> Value;
        serialize_u32(u32) -> Value;
        serialize_u64(u64) -> Value;
        serialize_f32(f32) -> Value;
        serialize_f64(f64) -> Value;
        serialize_char(char) -> Value;
        serialize_str(&str) -> Value;
        serialize_bytes(&[u8]) -> Value;
        serialize_none() -> Value;
        serialize_unit() -> Value;
        serialize_unit_struct(&'static str) -> Value;
        serialize_unit_variant(&'static str, u32, &'static str) -> Value;
        serialize_seq(Option<usize>) -> Never;
        serialize_tuple(usize) -> Never;
        serialize_tuple_struct(&'static str, usize) -> Never;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Never;
        serialize_map(Option<usize>) -> Never;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> Never;
    }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, value: &T) -> Result<Value, Self::Error> {
        value.serialize(self)
    }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, value: &T) -> Result<Value, Self::Error> {
        value.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Value, Self::Error> {
        Err(serde::ser::Error::custom("not a struct"))
    }
}
