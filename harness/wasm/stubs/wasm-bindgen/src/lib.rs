//! A native stand-in for the JavaScript values that cross the boundary.
pub mod prelude {
    pub use crate::JsValue;
    pub use wasm_bindgen_macro::wasm_bindgen;
}

#[derive(Clone, Debug, PartialEq)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    Text(String),
    Array(Vec<JsValue>),
    /// Objects and maps (with string keys), in insertion order.
    Object(Vec<(String, JsValue)>),
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue::Text(s.to_string())
    }
    pub fn from_f64(v: f64) -> JsValue {
        JsValue::Number(v)
    }
    pub fn from_bool(v: bool) -> JsValue {
        JsValue::Bool(v)
    }
    pub fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub fn null() -> JsValue {
        JsValue::Null
    }
    pub fn is_undefined(&self) -> bool {
        *self == JsValue::Undefined
    }
    pub fn is_null(&self) -> bool {
        *self == JsValue::Null
    }
    pub fn is_object(&self) -> bool {
        matches!(self, JsValue::Object(_) | JsValue::Array(_))
    }
    pub fn is_string(&self) -> bool {
        matches!(self, JsValue::Text(_))
    }
    pub fn is_array(&self) -> bool {
        matches!(self, JsValue::Array(_))
    }
    pub fn is_truthy(&self) -> bool {
        match self {
            JsValue::Undefined | JsValue::Null => false,
            JsValue::Bool(b) => *b,
            JsValue::Number(v) => *v != 0.0 && !v.is_nan(),
            JsValue::Text(s) => !s.is_empty(),
            _ => true,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Number(v) => Some(*v),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Text(s) => Some(s.clone()),
            _ => None,
        }
    }
}

impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::Text(s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        JsValue::Text(s.clone())
    }
}
impl From<bool> for JsValue {
    fn from(s: bool) -> Self {
        JsValue::Bool(s)
    }
}
macro_rules! num {
    ($($t:ty)*) => {$(impl From<$t> for JsValue { fn from(v: $t) -> Self { JsValue::Number(v as f64) } })*};
}
num!(f64 f32 i8 i16 i32 u8 u16 u32);

pub struct JsError {
    pub message: String,
}
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError { message: s.to_string() }
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        JsValue::Text(e.message)
    }
}
