//! A recording format: every call is logged, and every answer (value, length, presence, failure)
//! is a choice of the explorer. Implements only the required methods, so the provided ones of the
//! library are exercised.

use crate::engine::Ch;
use serdere::*;
use serdere_json::*;
use std::cell::RefCell;

/// An error of the recording format.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum RecError {
    /// The n-th injected failure.
    Injected(usize),
    /// Made from a custom error.
    Custom(String),
    /// Made by the format on request.
    Made(&'static str),
    /// Of the harness itself: leave.
    Halt,
}

impl std::fmt::Display for RecError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}

impl std::error::Error for RecError {}

pub struct World<'c> {
    pub ch: &'c mut Ch,
    /// Calls since the last look, each with the failure injected into it.
    pub log: Vec<(String, Option<RecError>)>,
    /// Failures that may still be injected.
    pub faults: usize,
    pub injected: usize,
    pub null: bool,
    /// The answer to the next question whether there is an item.
    pub forced_item: Option<bool>,
    /// Characters left in the string being read.
    pub str_left: usize,
    /// What lists answer on opening (none: a choice).
    pub lens: &'static [Option<usize>],
    pub ty: Option<ValueType>,
    /// The last answer given (length, or 0 and 1 for no and yes; -1 for an unknown length).
    pub last: Option<i64>,
}

impl<'c> World<'c> {
    pub fn new(ch: &'c mut Ch, faults: usize, null: bool) -> Self {
        World {
            ch,
            log: Vec::new(),
            faults,
            injected: 0,
            null,
            forced_item: None,
            str_left: 0,
            lens: &[None, Some(0), Some(1), Some(2)],
            ty: None,
            last: None,
        }
    }
}

pub struct Rec<'w, 'c>(pub &'w RefCell<World<'c>>);

type R<T> = Result<T, RecError>;

impl Rec<'_, '_> {
    fn call(&self, what: impl Into<String>) -> R<()> {
        let mut w = self.0.borrow_mut();
        let w = &mut *w;
        let mut err = None;
        if w.faults > 0 && w.ch.flip() {
            w.faults -= 1;
            w.injected += 1;
            err = Some(RecError::Injected(w.injected));
        }
        w.log.push((what.into(), err.clone()));
        match err {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
    fn flip(&self) -> bool {
        let mut w = self.0.borrow_mut();
        let b = w.ch.flip();
        w.last = Some(b as i64);
        b
    }
}

impl Outliner for Rec<'_, '_> {
    type Error = RecError;
    fn supports_null(&self) -> bool {
        self.0.borrow().null
    }
    fn pop_null(&mut self) -> R<()> {
        self.call("pop_null")
    }
    fn open_str(&mut self) -> R<()> {
        self.0.borrow_mut().str_left = 1;
        self.call("open_str")
    }
    fn close_str(&mut self) -> R<()> {
        self.call("close_str")
    }
    fn open_struct(&mut self, type_name: Option<&'static str>) -> R<()> {
        self.call(format!("open_struct {:?}", type_name))
    }
    fn push_field(&mut self, name: &'static str) -> R<()> {
        self.call(format!("push_field {:?}", name))
    }
    fn close_struct(&mut self) -> R<()> {
        self.call("close_struct")
    }
    fn open_tuple(&mut self, type_name: Option<&'static str>) -> R<()> {
        self.call(format!("open_tuple {:?}", type_name))
    }
    fn push_element(&mut self) -> R<()> {
        self.call("push_element")
    }
    fn close_tuple(&mut self) -> R<()> {
        self.call("close_tuple")
    }
    fn push_item(&mut self) -> R<()> {
        self.call("push_item")
    }
    fn close_list(&mut self) -> R<()> {
        self.call("close_list")
    }
}

impl JsonOutliner for Rec<'_, '_> {
    fn open_object(&mut self) -> R<()> {
        self.call("open_object")
    }
    fn push_entry(&mut self, key: &str) -> R<()> {
        self.call(format!("push_entry {:?}", key))
    }
    fn close_object(&mut self) -> R<()> {
        self.call("close_object")
    }
}

macro_rules! puts {
    ($($name:ident $ty:ty),*) => {
        $(fn $name(&mut self, value: $ty) -> R<()> {
            self.call(format!(concat!(stringify!($name), " {:?}"), value))
        })*
    };
}

impl Serializer for Rec<'_, '_> {
    puts!(put_bool bool, put_i8 i8, put_i16 i16, put_i32 i32, put_i64 i64, put_u8 u8, put_u16 u16,
        put_u32 u32, put_u64 u64, put_f32 f32, put_f64 f64, put_char char, append_char char);
    fn put_tag(&mut self, max_index: usize, index: usize, name: Option<&'static str>) -> R<()> {
        self.call(format!("put_tag {} {} {:?}", max_index, index, name))
    }
    fn open_list_sized(&mut self, len: usize) -> R<()> {
        self.call(format!("open_list_sized {}", len))
    }
}

impl JsonSerializer for Rec<'_, '_> {
    fn open_list_streaming(&mut self) -> R<()> {
        self.call("open_list_streaming")
    }
    fn add_entry(&mut self) -> R<()> {
        self.call("add_entry")
    }
}

macro_rules! gets {
    ($($name:ident $ty:ty = $value:expr),*) => {
        $(fn $name(&mut self) -> R<$ty> {
            self.call(stringify!($name))?;
            Ok($value)
        })*
    };
}

impl Deserializer for Rec<'_, '_> {
    gets!(get_bool bool = true, get_i8 i8 = -8, get_i16 i16 = -16, get_i32 i32 = -32, get_i64 i64 = -64,
        get_u8 u8 = 8, get_u16 u16 = 16, get_u32 u32 = 32, get_u64 u64 = 64, get_f32 f32 = 0.5,
        get_f64 f64 = 0.25, get_char char = 'c');
    fn next_char(&mut self) -> R<Option<char>> {
        self.call("next_char")?;
        let mut w = self.0.borrow_mut();
        if w.str_left > 0 {
            w.str_left -= 1;
            Ok(Some('x'))
        } else {
            Ok(None)
        }
    }
    fn get_tag(&mut self, max_index: usize, names: &'static NameMap<usize>) -> R<usize> {
        self.call(format!("get_tag {} {:?}", max_index, names.entries().collect::<Vec<_>>()))?;
        Ok(1)
    }
    fn check_null(&mut self) -> R<bool> {
        self.call("check_null")?;
        Ok(self.flip())
    }
    fn open_list(&mut self) -> R<Option<usize>> {
        self.call("open_list")?;
        let mut w = self.0.borrow_mut();
        let lens = w.lens;
        let len = *w.ch.pick(lens);
        w.last = Some(len.map(|n| n as i64).unwrap_or(-1));
        Ok(len)
    }
    fn next_item(&mut self) -> R<bool> {
        self.call("next_item")?;
        let forced = self.0.borrow_mut().forced_item.take();
        Ok(match forced {
            Some(f) => {
                self.0.borrow_mut().last = Some(f as i64);
                f
            }
            None => self.flip(),
        })
    }
    fn error(&self, source: Box<dyn std::error::Error + Send + Sync>) -> RecError {
        RecError::Custom(source.to_string())
    }
    fn error_missing_item(&self) -> RecError {
        RecError::Made("missing item")
    }
    fn error_extra_item(&self) -> RecError {
        RecError::Made("extra item")
    }
}

pub const TYPES: [ValueType; 6] =
    [ValueType::Object, ValueType::Array, ValueType::Null, ValueType::Bool, ValueType::Number, ValueType::String];

impl JsonDeserializer for Rec<'_, '_> {
    fn peek_value_type(&self) -> ValueType {
        let mut w = self.0.borrow_mut();
        match w.ty {
            Some(t) => t,
            None => {
                let t = *w.ch.pick(&TYPES);
                w.ty = Some(t);
                t
            }
        }
    }
    fn peek_collection_type(&self) -> CollectionType {
        CollectionType::Object
    }
    fn skip_value(&mut self) -> R<()> {
        self.call("skip_value")
    }
    fn push_null(&mut self, key: Option<&'static str>) {
        let _ = self.call(format!("push_null {:?}", key));
    }
    fn try_push_entry(&mut self, key: &str) -> R<bool> {
        self.call(format!("try_push_entry {:?}", key))?;
        Ok(self.flip())
    }
    fn next_entry(&mut self) -> R<bool> {
        self.call("next_entry")?;
        let has = self.flip();
        if has {
            self.0.borrow_mut().str_left = 1;
        }
        Ok(has)
    }
    fn error_expected_type(&self, _: &'static [ValueType]) -> RecError {
        RecError::Made("expected type")
    }
    fn error_missing_entry(&self, _: String) -> RecError {
        RecError::Made("missing entry")
    }
    fn error_extra_entry(&self, _: String) -> RecError {
        RecError::Made("extra entry")
    }
}
