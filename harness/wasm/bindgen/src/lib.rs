//! Stand-in for wasm-bindgen that runs natively: JavaScript values are JSON values (an object goes
//! through JSON text, as `JsValue::from_serde` does it), and exports are a table of functions.
use serde_json::Value;
use std::fmt;

pub mod prelude {
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt};
    pub use wasm_bindgen_macro_standin::wasm_bindgen;
}
pub use wasm_bindgen_macro_standin::wasm_bindgen;

#[derive(Clone, PartialEq)]
pub enum JsValue {
    Undefined,
    Json(Value),
    Error(String),
}

impl JsValue {
    pub const NULL: JsValue = JsValue::Json(Value::Null);
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const TRUE: JsValue = JsValue::Json(Value::Bool(true));
    pub const FALSE: JsValue = JsValue::Json(Value::Bool(false));

    pub fn null() -> JsValue {
        Self::NULL
    }
    pub fn undefined() -> JsValue {
        Self::UNDEFINED
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue::from(s)
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue::from(n)
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue::from(b)
    }
    pub fn from_serde<T: serde::Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        let s = serde_json::to_string(t)?;
        Ok(JsValue::Json(standin::json_parse(&s)?))
    }
    pub fn into_serde<T: for<'a> serde::de::Deserialize<'a>>(&self) -> serde_json::Result<T> {
        match self {
            JsValue::Json(v) => serde_json::from_value(v.clone()),
            _ => serde_json::from_value(Value::Null),
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Json(Value::String(s)) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Json(v) => v.as_f64(),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Json(v) => v.as_bool(),
            _ => None,
        }
    }
    pub fn is_null(&self) -> bool {
        *self == Self::NULL
    }
    pub fn is_undefined(&self) -> bool {
        *self == Self::UNDEFINED
    }
    pub fn is_string(&self) -> bool {
        self.as_string().is_some()
    }
    pub fn is_object(&self) -> bool {
        matches!(self, JsValue::Json(Value::Object(_) | Value::Array(_)) | JsValue::Error(_))
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            JsValue::Undefined => write!(f, "undefined"),
            JsValue::Json(v) => write!(f, "{}", v),
            JsValue::Error(m) => write!(f, "Error({:?})", m),
        }
    }
}
impl Default for JsValue {
    fn default() -> Self {
        Self::UNDEFINED
    }
}

macro_rules! from_json {
    ($($t:ty)*) => { $(impl From<$t> for JsValue {
        fn from(x: $t) -> JsValue { JsValue::Json(Value::from(x)) }
    })* };
}
from_json!(String &str bool f32 f64 i8 u8 i16 u16 i32 u32);
impl From<&String> for JsValue {
    fn from(x: &String) -> JsValue {
        JsValue::from(x.as_str())
    }
}
impl From<std::borrow::Cow<'_, str>> for JsValue {
    fn from(x: std::borrow::Cow<str>) -> JsValue {
        JsValue::from(&*x)
    }
}
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(x: Option<T>) -> JsValue {
        x.map_or(JsValue::UNDEFINED, Into::into)
    }
}
impl PartialEq<str> for JsValue {
    fn eq(&self, s: &str) -> bool {
        self.as_string().as_deref() == Some(s)
    }
}
impl PartialEq<&str> for JsValue {
    fn eq(&self, s: &&str) -> bool {
        self.as_string().as_deref() == Some(*s)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

#[derive(Clone, Debug)]
pub struct JsError(String);
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError(s.to_string())
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> JsError {
        JsError(e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        JsValue::Error(e.0)
    }
}

pub trait JsCast {}
impl JsCast for JsValue {}

pub fn throw_str(s: &str) -> ! {
    panic!("thrown: {}", s)
}
pub fn throw_val(v: JsValue) -> ! {
    panic!("thrown: {:?}", v)
}
pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T {
        self.expect_throw("unwrap_throw failed")
    }
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn expect_throw(self, m: &str) -> T {
        self.unwrap_or_else(|| throw_str(m))
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn expect_throw(self, m: &str) -> T {
        self.unwrap_or_else(|_| throw_str(m))
    }
}

pub mod standin {
    use super::JsValue;
    use serde_json::Value;
    use std::sync::Mutex;

    /// JSON.parse (no limit on the nesting)
    pub fn json_parse(s: &str) -> serde_json::Result<Value> {
        let mut d = serde_json::Deserializer::from_str(s);
        d.disable_recursion_limit();
        serde::Deserialize::deserialize(&mut d)
    }

    pub type Export = fn(&str) -> Result<JsValue, JsValue>;
    static EXPORTS: Mutex<Vec<(&'static str, Export)>> = Mutex::new(Vec::new());

    pub fn export(name: &'static str, f: Export) {
        EXPORTS.lock().unwrap().push((name, f));
    }
    /// the functions exported under a name
    pub fn exports(name: &str) -> Vec<Export> {
        EXPORTS.lock().unwrap().iter().filter(|x| x.0 == name).map(|x| x.1).collect()
    }

    pub trait Ret {
        fn ret(self) -> Result<JsValue, JsValue>;
    }
    impl Ret for JsValue {
        fn ret(self) -> Result<JsValue, JsValue> {
            Ok(self)
        }
    }
    impl Ret for String {
        fn ret(self) -> Result<JsValue, JsValue> {
            Ok(self.into())
        }
    }
    impl Ret for Option<String> {
        fn ret(self) -> Result<JsValue, JsValue> {
            Ok(self.into())
        }
    }
    impl Ret for () {
        fn ret(self) -> Result<JsValue, JsValue> {
            Ok(JsValue::UNDEFINED)
        }
    }
    impl Ret for bool {
        fn ret(self) -> Result<JsValue, JsValue> {
            Ok(self.into())
        }
    }
    impl<T: Ret, E: Into<JsValue>> Ret for Result<T, E> {
        fn ret(self) -> Result<JsValue, JsValue> {
            self.map_err(Into::into).and_then(Ret::ret)
        }
    }

    /// What a call from JavaScript with one string does; M tells the signatures apart.
    pub trait Entry<M> {
        fn call(&self, s: &str) -> Result<JsValue, JsValue>;
    }
    impl<R: Ret, F: Fn(String) -> R> Entry<(String, R)> for F {
        fn call(&self, s: &str) -> Result<JsValue, JsValue> {
            self(s.to_string()).ret()
        }
    }
    impl<R: Ret, F: Fn(&str) -> R> Entry<(&'static str, R)> for F {
        fn call(&self, s: &str) -> Result<JsValue, JsValue> {
            self(s).ret()
        }
    }
    impl<R: Ret, F: Fn(JsValue) -> R> Entry<(JsValue, R)> for F {
        fn call(&self, s: &str) -> Result<JsValue, JsValue> {
            self(s.into()).ret()
        }
    }
    impl<R: Ret, F: Fn() -> R> Entry<((), R)> for F {
        fn call(&self, _: &str) -> Result<JsValue, JsValue> {
            self().ret()
        }
    }
}
