//! The objects the bindings look into, over plain data.
use wasm_bindgen::{Data, JsCast, JsValue};

macro_rules! view {
    ($name:ident, $pat:pat) => {
        #[derive(Clone, Debug, PartialEq)]
        #[repr(transparent)]
        pub struct $name(JsValue);
        impl $name {
            pub fn try_from(v: &JsValue) -> Option<&$name> {
                <$name as JsCast>::view(v)
            }
        }
        impl JsCast for $name {
            fn view(v: &JsValue) -> Option<&Self> {
                if matches!(v.0, $pat) {
                    // The view is transparent over the value.
                    Some(unsafe { &*(v as *const JsValue as *const $name) })
                } else {
                    None
                }
            }
            fn own(v: JsValue) -> Self {
                $name(v)
            }
        }
        impl AsRef<JsValue> for $name {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl std::ops::Deref for $name {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.0
            }
        }
        impl From<$name> for JsValue {
            fn from(v: $name) -> JsValue {
                v.0
            }
        }
    };
}
view!(Object, Data::Object(_) | Data::Array(_) | Data::Error(_));
view!(Array, Data::Array(_));
view!(JsString, Data::Text(_));
view!(Number, Data::Number(_));
view!(Boolean, Data::Bool(_));

#[allow(non_snake_case)]
pub mod Reflect {
    use super::*;
    /// An error for what is no object, undefined for what is not there.
    pub fn get<T: AsRef<JsValue> + ?Sized>(target: &T, key: &JsValue) -> Result<JsValue, JsValue> {
        let k = key.as_string();
        match &target.as_ref().0 {
            Data::Object(fields) => Ok(fields
                .iter()
                .find(|(name, _)| Some(name) == k.as_ref())
                .map_or(JsValue::UNDEFINED, |(_, v)| v.clone())),
            Data::Array(a) => Ok(match k.as_deref() {
                Some("length") => JsValue::from_f64(a.len() as f64),
                Some(s) => s.parse::<usize>().ok().and_then(|i| a.get(i).cloned()).unwrap_or(JsValue::UNDEFINED),
                None => JsValue::UNDEFINED,
            }),
            Data::Error(m) => Ok(if k.as_deref() == Some("message") { m.as_str().into() } else { JsValue::UNDEFINED }),
            _ => Err("Reflect.get called on non-object".into()),
        }
    }
    pub fn has<T: AsRef<JsValue> + ?Sized>(target: &T, key: &JsValue) -> Result<bool, JsValue> {
        match &target.as_ref().0 {
            Data::Object(fields) => Ok(fields.iter().any(|(n, _)| Some(n) == key.as_string().as_ref())),
            _ => get(target, key).map(|v| !v.is_undefined()),
        }
    }
}
