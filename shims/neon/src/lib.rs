//! Stand-in for neon 0.7 (native Node modules; not in the offline cache), with the JavaScript values behind it.
//! Contract: values are JavaScript values; an argument of the wrong type or left out throws; a missing property
//! is undefined; a task performs, completes and calls its callback, here at once.
use std::any::Any;
use std::cell::RefCell;
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

/// A JavaScript value. Values live for ever.
pub struct Val {
    pub kind: RefCell<Kind>,
}
pub enum Kind {
    Undefined,
    Null,
    Boolean(bool),
    Number(f64),
    Str(String),
    Array(Vec<V>),
    Object(Vec<(String, V)>),
    Buffer(Vec<u32>, usize),
    /// a callback: what it was called with
    Callback(Vec<Result<V, String>>),
    Function(Box<dyn Fn(Vec<V>) -> Result<V, Throw>>),
    Constructor(Box<dyn Fn(Vec<V>) -> Result<V, Throw>>),
    Instance(Instance),
}
pub struct Instance {
    pub class: &'static str,
    pub internals: Box<dyn Any>,
    pub call: fn(V, &str, Vec<V>) -> Option<Result<V, Throw>>,
}
pub type V = &'static Val;

pub fn val(k: Kind) -> V {
    Box::leak(Box::new(Val { kind: RefCell::new(k) }))
}

/// A pending JavaScript exception.
#[derive(Debug)]
pub struct Throw(pub String);
impl fmt::Display for Throw {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Throw {}

pub type NeonResult<T> = Result<T, Throw>;
pub type JsResult<'b, T> = NeonResult<Handle<'b, T>>;

/// A kind of JavaScript value.
pub trait JsType: Copy + 'static {
    const NAME: &'static str;
    fn is(v: V) -> bool;
    fn wrap(v: V) -> Self;
    fn raw(self) -> V;
}

pub struct Handle<'a, T>(T, PhantomData<&'a ()>);
impl<'a, T: Copy> Clone for Handle<'a, T> {
    fn clone(&self) -> Self {
        Handle(self.0, PhantomData)
    }
}
impl<'a, T: Copy> Copy for Handle<'a, T> {}
impl<'a, T> Deref for Handle<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<'a, T> DerefMut for Handle<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
impl<'a, T: JsType> Handle<'a, T> {
    pub fn of(v: V) -> Self {
        Handle(T::wrap(v), PhantomData)
    }
    pub fn upcast<U: JsType>(&self) -> Handle<'a, U> {
        Handle::of(self.0.raw())
    }
    pub fn is_a<U: JsType>(&self) -> bool {
        U::is(self.0.raw())
    }
    pub fn downcast<U: JsType>(&self) -> Result<Handle<'a, U>, DowncastError> {
        if U::is(self.0.raw()) {
            Ok(Handle::of(self.0.raw()))
        } else {
            Err(DowncastError(U::NAME))
        }
    }
    pub fn downcast_or_throw<'b, U: JsType, C: Context<'b>>(&self, cx: &mut C) -> JsResult<'a, U> {
        self.downcast().or_throw(cx)
    }
}

#[derive(Debug)]
pub struct DowncastError(&'static str);
impl fmt::Display for DowncastError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("failed downcast to ")?;
        f.write_str(self.0)
    }
}
impl std::error::Error for DowncastError {}

pub trait JsResultExt<'a, T: JsType> {
    fn or_throw<'b, C: Context<'b>>(self, cx: &mut C) -> JsResult<'a, T>;
}
impl<'a, T: JsType> JsResultExt<'a, T> for Result<Handle<'a, T>, DowncastError> {
    fn or_throw<'b, C: Context<'b>>(self, cx: &mut C) -> JsResult<'a, T> {
        match self {
            Ok(v) => Ok(v),
            Err(e) => cx.throw_type_error(e.to_string()),
        }
    }
}

macro_rules! js_types {
    ($($t:ident $n:literal [$($p:tt)*];)*) => {$(
        #[derive(Clone, Copy)]
        pub struct $t(V);
        impl JsType for $t {
            const NAME: &'static str = $n;
            #[allow(unreachable_patterns)]
            fn is(v: V) -> bool {
                match &*v.kind.borrow() {
                    $($p)* => true,
                    _ => false,
                }
            }
            fn wrap(v: V) -> Self {
                $t(v)
            }
            fn raw(self) -> V {
                self.0
            }
        }
    )*};
}
js_types! {
    JsValue "any" [_];
    JsUndefined "undefined" [Kind::Undefined];
    JsNull "null" [Kind::Null];
    JsBoolean "boolean" [Kind::Boolean(_)];
    JsNumber "number" [Kind::Number(_)];
    JsString "string" [Kind::Str(_)];
    JsArray "Array" [Kind::Array(_)];
    JsObject "object" [Kind::Array(_) | Kind::Object(_) | Kind::Buffer(..) | Kind::Callback(_) | Kind::Function(_) | Kind::Constructor(_) | Kind::Instance(_)];
    JsArrayBuffer "ArrayBuffer" [Kind::Buffer(..)];
    JsFunction "function" [Kind::Callback(_) | Kind::Function(_) | Kind::Constructor(_)];
}

impl JsUndefined {
    pub fn new<'a>() -> Handle<'a, JsUndefined> {
        Handle::of(val(Kind::Undefined))
    }
}
impl JsNull {
    pub fn new<'a>() -> Handle<'a, JsNull> {
        Handle::of(val(Kind::Null))
    }
}
impl JsBoolean {
    pub fn new<'a, C: Context<'a>>(_: &mut C, b: bool) -> Handle<'a, JsBoolean> {
        Handle::of(val(Kind::Boolean(b)))
    }
    pub fn value(self) -> bool {
        match &*self.0.kind.borrow() {
            Kind::Boolean(b) => *b,
            _ => false,
        }
    }
}
impl JsNumber {
    pub fn new<'a, C: Context<'a>, T: Into<f64>>(_: &mut C, x: T) -> Handle<'a, JsNumber> {
        Handle::of(val(Kind::Number(x.into())))
    }
    pub fn value(self) -> f64 {
        match &*self.0.kind.borrow() {
            Kind::Number(x) => *x,
            _ => 0.0,
        }
    }
}
impl JsString {
    pub fn new<'a, C: Context<'a>, S: AsRef<str>>(_: &mut C, s: S) -> Handle<'a, JsString> {
        Handle::of(val(Kind::Str(s.as_ref().to_owned())))
    }
    /// length in bytes of the UTF-8 form
    pub fn size(self) -> isize {
        match &*self.0.kind.borrow() {
            Kind::Str(s) => s.len() as isize,
            _ => 0,
        }
    }
    pub fn value(self) -> String {
        match &*self.0.kind.borrow() {
            Kind::Str(s) => s.clone(),
            _ => String::new(),
        }
    }
}
impl JsArray {
    pub fn new<'a, C: Context<'a>>(_: &mut C, len: u32) -> Handle<'a, JsArray> {
        let mut v = Vec::new();
        for _ in 0..len {
            v.push(val(Kind::Undefined));
        }
        Handle::of(val(Kind::Array(v)))
    }
    pub fn len(self) -> u32 {
        match &*self.0.kind.borrow() {
            Kind::Array(a) => a.len() as u32,
            _ => 0,
        }
    }
    pub fn is_empty(self) -> bool {
        self.len() == 0
    }
    pub fn to_vec<'a, C: Context<'a>>(self, _: &mut C) -> NeonResult<Vec<Handle<'a, JsValue>>> {
        match &*self.0.kind.borrow() {
            Kind::Array(a) => Ok(a.iter().map(|v| Handle::of(*v)).collect()),
            _ => Ok(Vec::new()),
        }
    }
}
impl JsObject {
    pub fn new<'a, C: Context<'a>>(_: &mut C) -> Handle<'a, JsObject> {
        Handle::of(val(Kind::Object(Vec::new())))
    }
}
impl JsArrayBuffer {
    pub fn new<'a, C: Context<'a>>(_: &mut C, bytes: u32) -> JsResult<'a, JsArrayBuffer> {
        let mut v = Vec::new();
        v.resize((bytes as usize + 3) / 4, 0);
        Ok(Handle::of(val(Kind::Buffer(v, bytes as usize))))
    }
}

#[derive(Clone, Copy)]
pub struct BinaryData {
    at: *mut u32,
    bytes: usize,
}
impl BinaryData {
    pub fn as_slice<'a, T: Copy>(self) -> &'a [T] {
        unsafe { std::slice::from_raw_parts(self.at as *const T, self.bytes / std::mem::size_of::<T>()) }
    }
    pub fn as_mut_slice<'a, T: Copy>(self) -> &'a mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.at as *mut T, self.bytes / std::mem::size_of::<T>()) }
    }
    pub fn len(self) -> usize {
        self.bytes
    }
}

#[derive(Clone, Copy)]
pub struct Lock<'a>(PhantomData<&'a ()>);

#[derive(Debug)]
pub struct LoanError;
impl fmt::Display for LoanError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("outstanding loan exists for object")
    }
}
impl std::error::Error for LoanError {}

pub trait Borrow {
    type Target;
    type Out: Deref<Target = Self::Target>;
    fn try_borrow(&self, lock: &Lock<'_>) -> Result<Self::Out, LoanError>;
    fn borrow(&self, lock: &Lock<'_>) -> Self::Out {
        match self.try_borrow(lock) {
            Ok(r) => r,
            Err(e) => panic!("{}", e),
        }
    }
}
pub trait BorrowMut: Borrow {
    type OutMut: Deref<Target = Self::Target>;
    fn try_borrow_mut(&self, lock: &Lock<'_>) -> Result<Self::OutMut, LoanError>;
    fn borrow_mut(&self, lock: &Lock<'_>) -> Self::OutMut {
        match self.try_borrow_mut(lock) {
            Ok(r) => r,
            Err(e) => panic!("{}", e),
        }
    }
}
pub struct DataRef(BinaryData);
impl Deref for DataRef {
    type Target = BinaryData;
    fn deref(&self) -> &BinaryData {
        &self.0
    }
}
fn data(v: V) -> BinaryData {
    match &mut *v.kind.borrow_mut() {
        Kind::Buffer(d, n) => BinaryData { at: d.as_mut_ptr(), bytes: *n },
        _ => BinaryData { at: std::ptr::null_mut(), bytes: 0 },
    }
}
impl Borrow for JsArrayBuffer {
    type Target = BinaryData;
    type Out = DataRef;
    fn try_borrow(&self, _: &Lock<'_>) -> Result<DataRef, LoanError> {
        Ok(DataRef(data(self.0)))
    }
}
impl BorrowMut for JsArrayBuffer {
    type OutMut = DataRef;
    fn try_borrow_mut(&self, _: &Lock<'_>) -> Result<DataRef, LoanError> {
        Ok(DataRef(data(self.0)))
    }
}

/// The internals of an instance: instances live for ever, so a reference to their cell does too.
fn cell<T: Class>(v: V) -> &'static RefCell<T::Internals> {
    match &*v.kind.borrow() {
        Kind::Instance(i) => {
            let c: &RefCell<T::Internals> = match i.internals.downcast_ref() {
                Some(c) => c,
                None => panic!("not an instance of the class"),
            };
            // the box is never replaced
            unsafe { &*(c as *const RefCell<T::Internals>) }
        }
        _ => panic!("not an instance"),
    }
}
impl<T: Class> Borrow for T {
    type Target = T::Internals;
    type Out = std::cell::Ref<'static, T::Internals>;
    fn try_borrow(&self, _: &Lock<'_>) -> Result<Self::Out, LoanError> {
        cell::<T>(self.raw()).try_borrow().map_err(|_| LoanError)
    }
}
impl<T: Class> BorrowMut for T {
    type OutMut = std::cell::RefMut<'static, T::Internals>;
    fn try_borrow_mut(&self, _: &Lock<'_>) -> Result<Self::OutMut, LoanError> {
        cell::<T>(self.raw()).try_borrow_mut().map_err(|_| LoanError)
    }
}

pub trait PropertyKey {
    fn get_from(&self, v: V) -> V;
    fn set_in(&self, v: V, x: V);
}
fn prop(v: V, k: &str) -> V {
    match &*v.kind.borrow() {
        Kind::Object(o) => {
            for (n, x) in o.iter() {
                if n == k {
                    return *x;
                }
            }
        }
        Kind::Array(a) if k == "length" => return val(Kind::Number(a.len() as f64)),
        _ => {}
    }
    val(Kind::Undefined)
}
fn set_prop(v: V, k: &str, x: V) {
    if let Kind::Object(o) = &mut *v.kind.borrow_mut() {
        for (n, old) in o.iter_mut() {
            if n == k {
                *old = x;
                return;
            }
        }
        o.push((k.to_owned(), x));
    }
}
impl PropertyKey for u32 {
    fn get_from(&self, v: V) -> V {
        if let Kind::Array(a) = &*v.kind.borrow() {
            if (*self as usize) < a.len() {
                return a[*self as usize];
            }
        }
        val(Kind::Undefined)
    }
    fn set_in(&self, v: V, x: V) {
        if let Kind::Array(a) = &mut *v.kind.borrow_mut() {
            while a.len() <= *self as usize {
                a.push(val(Kind::Undefined));
            }
            a[*self as usize] = x;
        }
    }
}
impl<'a> PropertyKey for &'a str {
    fn get_from(&self, v: V) -> V {
        prop(v, self)
    }
    fn set_in(&self, v: V, x: V) {
        set_prop(v, self, x)
    }
}
impl<'a> PropertyKey for Handle<'a, JsString> {
    fn get_from(&self, v: V) -> V {
        prop(v, &self.value())
    }
    fn set_in(&self, v: V, x: V) {
        set_prop(v, &self.value(), x)
    }
}

pub trait Object: JsType {
    fn get<'a, C: Context<'a>, K: PropertyKey>(self, _: &mut C, key: K) -> NeonResult<Handle<'a, JsValue>> {
        Ok(Handle::of(key.get_from(self.raw())))
    }
    fn set<'a, C: Context<'a>, K: PropertyKey, W: JsType>(self, _: &mut C, key: K, x: Handle<'a, W>) -> NeonResult<bool> {
        key.set_in(self.raw(), x.raw());
        Ok(true)
    }
    fn get_own_property_names<'a, C: Context<'a>>(self, _: &mut C) -> JsResult<'a, JsArray> {
        let names = match &*self.raw().kind.borrow() {
            Kind::Object(o) => o.iter().map(|(n, _)| val(Kind::Str(n.clone()))).collect(),
            _ => Vec::new(),
        };
        Ok(Handle::of(val(Kind::Array(names))))
    }
}
impl Object for JsArray {}
impl Object for JsObject {}
impl Object for JsFunction {}
impl Object for JsArrayBuffer {}

pub trait Class: JsType {
    type Internals: 'static;
    fn construct<'a>(cx: CallContext<'a, JsUndefined>) -> NeonResult<Self::Internals>;
    fn call_method<'a>(name: &str, cx: CallContext<'a, Self>) -> Option<JsResult<'a, JsValue>>;
}

pub mod object {
    pub use super::{Class, Object, PropertyKey};
    pub trait This: super::JsType {}
    impl<T: super::JsType> This for T {}
}

pub trait Context<'a>: Sized {
    fn lock(&self) -> Lock<'_> {
        Lock(PhantomData)
    }
    fn borrow<W: Borrow, T, F: FnOnce(W::Out) -> T>(&self, v: &Handle<'_, W>, f: F) -> T {
        f((**v).borrow(&self.lock()))
    }
    fn borrow_mut<W: BorrowMut, T, F: FnOnce(W::OutMut) -> T>(&self, v: &mut Handle<'_, W>, f: F) -> T {
        f((**v).borrow_mut(&self.lock()))
    }
    fn throw<'b, W: JsType, T>(&mut self, v: Handle<'b, W>) -> NeonResult<T> {
        Err(Throw(match &*v.raw().kind.borrow() {
            Kind::Str(s) => s.clone(),
            _ => "thrown".to_owned(),
        }))
    }
    fn throw_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
        Err(Throw(msg.as_ref().to_owned()))
    }
    fn throw_type_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
        Err(Throw(msg.as_ref().to_owned()))
    }
    fn throw_range_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
        Err(Throw(msg.as_ref().to_owned()))
    }
    fn undefined(&mut self) -> Handle<'a, JsUndefined> {
        JsUndefined::new()
    }
    fn null(&mut self) -> Handle<'a, JsNull> {
        JsNull::new()
    }
    fn boolean(&mut self, b: bool) -> Handle<'a, JsBoolean> {
        JsBoolean::new(self, b)
    }
    fn number<T: Into<f64>>(&mut self, x: T) -> Handle<'a, JsNumber> {
        JsNumber::new(self, x)
    }
    fn string<S: AsRef<str>>(&mut self, s: S) -> Handle<'a, JsString> {
        JsString::new(self, s)
    }
    fn empty_array(&mut self) -> Handle<'a, JsArray> {
        JsArray::new(self, 0)
    }
    fn empty_object(&mut self) -> Handle<'a, JsObject> {
        JsObject::new(self)
    }
    fn array_buffer(&mut self, size: u32) -> JsResult<'a, JsArrayBuffer> {
        JsArrayBuffer::new(self, size)
    }
}

pub struct CallContext<'a, T: JsType> {
    this: V,
    args: Vec<V>,
    what: PhantomData<(&'a (), T)>,
}
pub type FunctionContext<'a> = CallContext<'a, JsObject>;
pub type MethodContext<'a, T> = CallContext<'a, T>;
impl<'a, T: JsType> Context<'a> for CallContext<'a, T> {}
impl<'a, T: JsType> CallContext<'a, T> {
    pub fn make(this: V, args: Vec<V>) -> Self {
        CallContext { this, args, what: PhantomData }
    }
    pub fn len(&self) -> i32 {
        self.args.len() as i32
    }
    pub fn argument_opt(&mut self, i: i32) -> Option<Handle<'a, JsValue>> {
        if (i as usize) < self.args.len() {
            Some(Handle::of(self.args[i as usize]))
        } else {
            None
        }
    }
    pub fn argument<U: JsType>(&mut self, i: i32) -> JsResult<'a, U> {
        match self.argument_opt(i) {
            Some(v) => v.downcast().or_throw(self),
            None => self.throw_type_error("not enough arguments"),
        }
    }
    pub fn this(&mut self) -> Handle<'a, T> {
        Handle::of(self.this)
    }
}

pub struct TaskContext<'a>(PhantomData<&'a ()>);
impl<'a> Context<'a> for TaskContext<'a> {}

pub trait Task: Send + Sized + 'static {
    type Output: Send + 'static;
    type Error: Send + 'static;
    type JsEvent: JsType;
    fn perform(&self) -> Result<Self::Output, Self::Error>;
    fn complete<'a>(self, cx: TaskContext<'a>, result: Result<Self::Output, Self::Error>) -> JsResult<'a, Self::JsEvent>;
    fn schedule(self, callback: Handle<'_, JsFunction>) {
        let r = self.perform();
        let r = self.complete(TaskContext(PhantomData), r);
        let r = match r {
            Ok(v) => Ok(v.raw()),
            Err(t) => Err(t.0),
        };
        if let Kind::Callback(c) = &mut *callback.raw().kind.borrow_mut() {
            c.push(r);
        }
    }
}

pub struct ModuleContext<'a> {
    pub exports: Vec<(String, V)>,
    what: PhantomData<&'a ()>,
}
impl<'a> Context<'a> for ModuleContext<'a> {}
fn new_instance<T: Class>(args: Vec<V>) -> Result<V, Throw> {
    let i = T::construct(CallContext::make(val(Kind::Undefined), args))?;
    fn call<T: Class>(this: V, name: &str, args: Vec<V>) -> Option<Result<V, Throw>> {
        match T::call_method(name, CallContext::make(this, args)) {
            None => None,
            Some(Ok(h)) => Some(Ok(h.raw())),
            Some(Err(t)) => Some(Err(t)),
        }
    }
    Ok(val(Kind::Instance(Instance { class: T::NAME, internals: Box::new(RefCell::new(i)), call: call::<T> })))
}
impl<'a> ModuleContext<'a> {
    pub fn new() -> Self {
        ModuleContext { exports: Vec::new(), what: PhantomData }
    }
    pub fn export_class<T: Class>(&mut self, key: &str) -> NeonResult<()> {
        self.exports.push((key.to_owned(), val(Kind::Constructor(Box::new(new_instance::<T>)))));
        Ok(())
    }
    pub fn export_function<T: JsType>(&mut self, key: &str, f: for<'b> fn(FunctionContext<'b>) -> JsResult<'b, T>) -> NeonResult<()> {
        let g = move |args: Vec<V>| match f(CallContext::make(val(Kind::Undefined), args)) {
            Ok(h) => Ok(h.raw()),
            Err(t) => Err(t),
        };
        self.exports.push((key.to_owned(), val(Kind::Function(Box::new(g)))));
        Ok(())
    }
    pub fn export_value<T: JsType>(&mut self, key: &str, v: Handle<'a, T>) -> NeonResult<()> {
        self.exports.push((key.to_owned(), v.raw()));
        Ok(())
    }
}

/// What a script does: `new exports.name(...)` or `exports.name(...)`.
pub fn call(exports: &[(String, V)], name: &str, args: Vec<V>) -> Result<V, Throw> {
    for (n, v) in exports {
        if n == name {
            return match &*v.kind.borrow() {
                Kind::Constructor(f) | Kind::Function(f) => f(args),
                _ => Err(Throw("not a function".to_owned())),
            };
        }
    }
    Err(Throw("no such export".to_owned()))
}
/// `this.name(...)`
pub fn method(this: V, name: &str, args: Vec<V>) -> Result<V, Throw> {
    let f = match &*this.kind.borrow() {
        Kind::Instance(i) => Some(i.call),
        _ => None,
    };
    match f.and_then(|f| f(this, name, args)) {
        Some(r) => r,
        None => Err(Throw("not a method".to_owned())),
    }
}

#[macro_export]
macro_rules! register_module {
    ($m:pat, $b:block) => {
        /// Run the module's initialisation.
        pub fn neon_module<'a>($m: &mut $crate::ModuleContext<'a>) -> $crate::NeonResult<()> $b
    };
    (mut $m:ident, $b:block) => {
        /// Run the module's initialisation.
        pub fn neon_module<'a>($m: &mut $crate::ModuleContext<'a>) -> $crate::NeonResult<()> $b
    };
}

#[macro_export]
macro_rules! declare_types {
    () => {};
    ( $(#[$a:meta])* pub class $c:ident as $n:ident for $t:ty { $($b:tt)* } $($rest:tt)* ) => {
        $crate::neon_class! { $c [$t] [] [] $($b)* }
        $crate::declare_types! { $($rest)* }
    };
    ( $(#[$a:meta])* pub class $c:ident for $t:ty { $($b:tt)* } $($rest:tt)* ) => {
        $crate::neon_class! { $c [$t] [] [] $($b)* }
        $crate::declare_types! { $($rest)* }
    };
    ( $(#[$a:meta])* class $c:ident $(as $n:ident)? for $t:ty { $($b:tt)* } $($rest:tt)* ) => {
        $crate::neon_class! { $c [$t] [] [] $($b)* }
        $crate::declare_types! { $($rest)* }
    };
}

#[doc(hidden)]
#[macro_export]
macro_rules! neon_class {
    ( $c:ident [$t:ty] [] [$($ms:tt)*] $(#[$a:meta])* init($p:pat) $b:block $($rest:tt)* ) => {
        $crate::neon_class! { $c [$t] [($p) $b] [$($ms)*] $($rest)* }
    };
    ( $c:ident [$t:ty] [$($i:tt)*] [$($ms:tt)*] $(#[$a:meta])* method $m:ident($p:pat) $b:block $($rest:tt)* ) => {
        $crate::neon_class! { $c [$t] [$($i)*] [$($ms)* {$m ($p) $b}] $($rest)* }
    };
    ( $c:ident [$t:ty] [($ip:pat) $ib:block] [$({$m:ident ($p:pat) $b:block})*] ) => {
        #[derive(Clone, Copy)]
        pub struct $c($crate::V);
        impl $crate::JsType for $c {
            const NAME: &'static str = stringify!($c);
            fn is(v: $crate::V) -> bool {
                match &*v.kind.borrow() {
                    $crate::Kind::Instance(i) => i.class == stringify!($c),
                    _ => false,
                }
            }
            fn wrap(v: $crate::V) -> Self {
                $c(v)
            }
            fn raw(self) -> $crate::V {
                self.0
            }
        }
        impl $crate::Object for $c {}
        impl $crate::Class for $c {
            type Internals = $t;
            fn construct<'a>($ip: $crate::CallContext<'a, $crate::JsUndefined>) -> $crate::NeonResult<$t> $ib
            fn call_method<'a>(name: &str, cx: $crate::CallContext<'a, Self>) -> Option<$crate::JsResult<'a, $crate::JsValue>> {
                $(
                    #[allow(non_snake_case)]
                    fn $m<'a>($p: $crate::CallContext<'a, $c>) -> $crate::JsResult<'a, $crate::JsValue> $b
                )*
                match name {
                    $( stringify!($m) => Some($m(cx)), )*
                    _ => None,
                }
            }
        }
    };
}

pub mod prelude {
    pub use crate::object::This;
    pub use crate::{
        declare_types, register_module, BinaryData, Borrow, BorrowMut, CallContext, Class, Context, FunctionContext, Handle,
        JsArray, JsArrayBuffer, JsBoolean, JsFunction, JsNull, JsNumber, JsObject, JsResult, JsResultExt, JsString,
        JsUndefined, JsValue, Lock, MethodContext, ModuleContext, NeonResult, Object, Task, TaskContext,
    };
}
pub mod context {
    pub use crate::{CallContext, Context, FunctionContext, MethodContext, ModuleContext, TaskContext};
}
pub mod types {
    pub use crate::{JsArray, JsArrayBuffer, JsBoolean, JsFunction, JsNull, JsNumber, JsObject, JsString, JsUndefined, JsValue};
}
pub mod handle {
    pub use crate::Handle;
}
pub mod result {
    pub use crate::{JsResult, JsResultExt, NeonResult, Throw};
}
pub mod borrow {
    pub use crate::{Borrow, BorrowMut};
}
pub mod task {
    pub use crate::Task;
}
