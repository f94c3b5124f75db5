//! Values of JavaScript as plain data, for running the bindings natively.
pub use wasm_bindgen_macro::wasm_bindgen;
pub mod prelude {
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt, wasm_bindgen};
}

#[derive(Clone, Debug, PartialEq)]
pub enum Data {
    Undefined,
    Null,
    Number(f64),
    Text(String),
    Bool(bool),
    Object(Vec<(String, JsValue)>),
    Array(Vec<JsValue>),
    Error(String),
}

#[derive(Clone, Debug, PartialEq)]
#[repr(transparent)]
pub struct JsValue(pub Data);

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(Data::Undefined);
    pub const NULL: JsValue = JsValue(Data::Null);
    pub const TRUE: JsValue = JsValue(Data::Bool(true));
    pub const FALSE: JsValue = JsValue(Data::Bool(false));
    pub const fn undefined() -> JsValue {
        JsValue(Data::Undefined)
    }
    pub const fn null() -> JsValue {
        JsValue(Data::Null)
    }
    pub fn from_str(s: &str) -> JsValue {
        JsValue(Data::Text(s.to_string()))
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue(Data::Number(n))
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue(Data::Bool(b))
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.0, Data::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.0, Data::Null)
    }
    pub fn is_null_or_undefined(&self) -> bool {
        self.is_null() || self.is_undefined()
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, Data::Text(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self.0, Data::Object(_) | Data::Array(_) | Data::Error(_))
    }
    pub fn is_array(&self) -> bool {
        matches!(self.0, Data::Array(_))
    }
    pub fn is_function(&self) -> bool {
        false
    }
    pub fn is_symbol(&self) -> bool {
        false
    }
    pub fn is_bigint(&self) -> bool {
        false
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self.0 {
            Data::Number(n) => Some(n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self.0 {
            Data::Bool(b) => Some(b),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Data::Text(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn is_truthy(&self) -> bool {
        !self.is_falsy()
    }
    pub fn is_falsy(&self) -> bool {
        match &self.0 {
            Data::Undefined | Data::Null => true,
            Data::Number(n) => *n == 0.0 || n.is_nan(),
            Data::Text(s) => s.is_empty(),
            Data::Bool(b) => !b,
            _ => false,
        }
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue(Data::Text(s))
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        JsValue::from_str(s)
    }
}
impl From<f64> for JsValue {
    fn from(n: f64) -> Self {
        JsValue(Data::Number(n))
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        JsValue(Data::Bool(b))
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        JsValue(Data::Error(e.0))
    }
}
impl PartialEq<str> for JsValue {
    fn eq(&self, o: &str) -> bool {
        matches!(&self.0, Data::Text(s) if s == o)
    }
}
impl PartialEq<&str> for JsValue {
    fn eq(&self, o: &&str) -> bool {
        *self == **o
    }
}
impl PartialEq<bool> for JsValue {
    fn eq(&self, o: &bool) -> bool {
        self.as_bool() == Some(*o)
    }
}
impl PartialEq<f64> for JsValue {
    fn eq(&self, o: &f64) -> bool {
        self.as_f64() == Some(*o)
    }
}

/// What a function of the bindings throws.
#[derive(Clone, Debug)]
pub struct JsError(pub String);
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError(s.to_string())
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        JsError(e.to_string())
    }
}

/// Casts between values and their views; every view is the value itself.
pub trait JsCast: AsRef<JsValue> + Sized {
    fn view(v: &JsValue) -> Option<&Self>;
    fn own(v: JsValue) -> Self;
    fn has_type<T: JsCast>(&self) -> bool {
        T::view(self.as_ref()).is_some()
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        self.has_type::<T>()
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        T::view(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() {
            Ok(T::own(self.as_ref().clone()))
        } else {
            Err(self)
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::own(self.as_ref().clone())
    }
}
impl JsCast for JsValue {
    fn view(v: &JsValue) -> Option<&Self> {
        Some(v)
    }
    fn own(v: JsValue) -> Self {
        v
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
pub fn throw_str(s: &str) -> ! {
    panic!("{s}")
}
