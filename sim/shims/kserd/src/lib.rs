//! Stand-in for kserd (not available offline).
use std::{borrow::Cow, cmp::Ordering, collections::BTreeMap, fmt, hash, str::FromStr};

/// A number which keeps integers exact.
#[derive(Clone, Copy, Debug)]
pub enum Number {
    Uint(u128),
    Int(i128),
    Float(f64),
}
use Number::*;
impl Number {
    pub fn as_f64(&self) -> f64 {
        match *self {
            Uint(x) => x as f64,
            Int(x) => x as f64,
            Float(x) => x,
        }
    }
    pub fn as_u128(&self) -> Result<u128, ()> {
        match *self {
            Uint(x) => Ok(x),
            Int(x) if x >= 0 => Ok(x as u128),
            Float(f) if f >= 0.0 && f.fract() == 0.0 && f.is_finite() => Ok(f as u128),
            _ => Err(()),
        }
    }
    pub fn as_i128(&self) -> Result<i128, ()> {
        match *self {
            Uint(x) => i128::try_from(x).map_err(|_| ()),
            Int(x) => Ok(x),
            Float(f) if f.fract() == 0.0 && f.is_finite() => Ok(f as i128),
            _ => Err(()),
        }
    }
    pub fn is_float(&self) -> bool {
        matches!(self, Float(_))
    }
    fn norm(i: i128) -> Number {
        if i >= 0 {
            Uint(i as u128)
        } else {
            Int(i)
        }
    }
}
impl PartialEq for Number {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Number {}
impl PartialOrd for Number {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Number {
    fn cmp(&self, o: &Self) -> Ordering {
        match (*self, *o) {
            (Uint(a), Uint(b)) => a.cmp(&b),
            (Int(a), Int(b)) => a.cmp(&b),
            (a, b) => {
                let (a, b) = (a.as_f64(), b.as_f64());
                match (a.is_nan(), b.is_nan()) {
                    (true, true) => Ordering::Equal,
                    (true, false) => Ordering::Less,
                    (false, true) => Ordering::Greater,
                    _ => a.partial_cmp(&b).unwrap(),
                }
            }
        }
    }
}
impl hash::Hash for Number {
    fn hash<H: hash::Hasher>(&self, h: &mut H) {
        let f = self.as_f64();
        let f = if f == 0.0 { 0.0 } else { f };
        f.to_bits().hash(h)
    }
}
macro_rules! ints {
    ($($u:ty)* ; $($i:ty)*) => {
        $(impl From<$u> for Number { fn from(x: $u) -> Number { Uint(x as u128) } })*
        $(impl From<$i> for Number { fn from(x: $i) -> Number { Number::norm(x as i128) } })*
    };
}
ints!(u8 u16 u32 u64 u128 usize; i8 i16 i32 i64 i128 isize);
impl From<f64> for Number {
    fn from(f: f64) -> Number {
        if f.fract() == 0.0 && f.abs() < 9e15 {
            Number::norm(f as i128)
        } else {
            Float(f)
        }
    }
}
impl From<f32> for Number {
    fn from(f: f32) -> Number {
        (f as f64).into()
    }
}
impl FromStr for Number {
    type Err = std::num::ParseFloatError;
    fn from_str(s: &str) -> Result<Number, Self::Err> {
        let t: String = s.chars().filter(|c| *c != '_').collect();
        if let Ok(u) = t.parse::<u128>() {
            return Ok(Uint(u));
        }
        if let Ok(i) = t.parse::<i128>() {
            return Ok(Int(i));
        }
        t.parse::<f64>().map(Into::into)
    }
}
impl fmt::Display for Number {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Uint(x) => fmt::Display::fmt(x, f),
            Int(x) => fmt::Display::fmt(x, f),
            Float(x) => fmt::Display::fmt(x, f),
        }
    }
}
fn bin(a: Number, b: Number, i: fn(i128, i128) -> Option<i128>, f: fn(f64, f64) -> f64) -> Number {
    match (a, b) {
        (Float(_), _) | (_, Float(_)) => f(a.as_f64(), b.as_f64()).into(),
        _ => match (a.as_i128(), b.as_i128()) {
            (Ok(x), Ok(y)) => match i(x, y) {
                Some(z) => Number::norm(z),
                None => f(a.as_f64(), b.as_f64()).into(),
            },
            _ => f(a.as_f64(), b.as_f64()).into(),
        },
    }
}
macro_rules! op {
    ($($tr:ident $m:ident $at:ident $am:ident $i:expr, $f:expr;)*) => { $(
        impl std::ops::$tr for Number { type Output = Number; fn $m(self, o: Number) -> Number { bin(self, o, $i, $f) } }
        impl std::ops::$at for Number { fn $am(&mut self, o: Number) { *self = bin(*self, o, $i, $f) } }
    )* };
}
op! {
    Add add AddAssign add_assign |a, b| a.checked_add(b), |a, b| a + b;
    Sub sub SubAssign sub_assign |a, b| a.checked_sub(b), |a, b| a - b;
    Mul mul MulAssign mul_assign |a, b| a.checked_mul(b), |a, b| a * b;
    Div div DivAssign div_assign |a, b| if b != 0 && a % b == 0 { Some(a / b) } else { None }, |a, b| a / b;
    Rem rem RemAssign rem_assign |a, b| a.checked_rem(b), |a, b| a % b;
}
impl std::ops::Neg for Number {
    type Output = Number;
    fn neg(self) -> Number {
        Number::from(0) - self
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Value<'a> {
    Unit,
    Bool(bool),
    Num(Number),
    Str(Cow<'a, str>),
    Cntr(BTreeMap<Cow<'a, str>, Kserd<'a>>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Kserd<'a> {
    pub id: Option<Cow<'a, str>>,
    pub val: Value<'a>,
}
#[derive(Debug)]
pub struct ToKserdErr(String);
impl fmt::Display for ToKserdErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
pub type InvalidId = ToKserdErr;
pub trait ToKserd<'a> {
    fn into_kserd(self) -> Result<Kserd<'a>, ToKserdErr>;
}
impl<'a> Kserd<'a> {
    pub fn new(val: Value<'a>) -> Self {
        Kserd { id: None, val }
    }
    pub fn with_id<S: Into<Cow<'a, str>>>(id: S, val: Value<'a>) -> Result<Self, InvalidId> {
        Ok(Kserd { id: Some(id.into()), val })
    }
    pub fn new_unit() -> Self {
        Self::new(Value::Unit)
    }
    pub fn new_bool(b: bool) -> Self {
        Self::new(Value::Bool(b))
    }
    pub fn new_string(s: String) -> Self {
        Self::new(Value::Str(s.into()))
    }
    pub fn new_str(s: &'a str) -> Self {
        Self::new(Value::Str(s.into()))
    }
    pub fn as_str(&self) -> String {
        let mut o = String::new();
        self.w(&mut o);
        o
    }
    fn w(&self, o: &mut String) {
        if let Some(id) = &self.id {
            o.push_str(id);
        }
        match &self.val {
            Value::Unit => o.push_str("()"),
            Value::Bool(b) => o.push_str(&b.to_string()),
            Value::Num(n) => o.push_str(&n.to_string()),
            Value::Str(s) => {
                o.push('"');
                o.push_str(s);
                o.push('"')
            }
            Value::Cntr(m) => {
                if self.id.is_some() {
                    o.push(' ');
                }
                o.push('(');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    o.push_str(k);
                    o.push_str(" = ");
                    v.w(o);
                }
                o.push(')');
            }
        }
    }
}
