// Written by tools/gen_types.py
macro_rules! for_types {
    ($e:ident) => {
        vec![
            $e!(bool),
            $e!(i8),
            $e!(i16),
            $e!(i32),
            $e!(i64),
            $e!(u8),
            $e!(u16),
            $e!(u32),
            $e!(u64),
            $e!(NonZeroI8),
            $e!(NonZeroI16),
            $e!(NonZeroI32),
            $e!(NonZeroI64),
            $e!(NonZeroU8),
            $e!(NonZeroU16),
            $e!(NonZeroU32),
            $e!(NonZeroU64),
            $e!(f32),
            $e!(f64),
            $e!(char),
            $e!(String),
            $e!(()),
            $e!(Unit),
            $e!(Option<bool>),
            $e!(Option<i64>),
            $e!(Option<NonZeroU8>),
            $e!(Option<f32>),
            $e!(Option<char>),
            $e!(Option<String>),
            $e!(Option<()>),
            $e!(Option<Unit>),
            $e!(Vec<bool>),
            $e!(Vec<i64>),
            $e!(Vec<NonZeroU8>),
            $e!(Vec<f32>),
            $e!(Vec<char>),
            $e!(Vec<String>),
            $e!(Vec<()>),
            $e!(Vec<Unit>),
            $e!([bool; 0]),
            $e!([i64; 0]),
            $e!([NonZeroU8; 0]),
            $e!([f32; 0]),
            $e!([char; 0]),
            $e!([String; 0]),
            $e!([(); 0]),
            $e!([Unit; 0]),
            $e!([bool; 1]),
            $e!([i64; 1]),
            $e!([NonZeroU8; 1]),
            $e!([f32; 1]),
            $e!([char; 1]),
            $e!([String; 1]),
            $e!([(); 1]),
            $e!([Unit; 1]),
            $e!([bool; 2]),
            $e!([i64; 2]),
            $e!([NonZeroU8; 2]),
            $e!([f32; 2]),
            $e!([char; 2]),
            $e!([String; 2]),
            $e!([(); 2]),
            $e!([Unit; 2]),
            $e!((bool, u8)),
            $e!((i64, u8)),
            $e!((NonZeroU8, u8)),
            $e!((f32, u8)),
            $e!((char, u8)),
            $e!((String, u8)),
            $e!(((), u8)),
            $e!((Unit, u8)),
            $e!((bool, bool, u8)),
            $e!((bool, i64, u8)),
            $e!((bool, NonZeroU8, u8)),
            $e!((bool, f32, u8)),
            $e!((bool, char, u8)),
            $e!((bool, String, u8)),
            $e!((bool, (), u8)),
            $e!((bool, Unit, u8)),
            $e!((u8, Option<bool>, bool)),
            $e!((u8, Option<bool>, i64)),
            $e!((u8, Option<bool>, NonZeroU8)),
            $e!((u8, Option<bool>, f32)),
            $e!((u8, Option<bool>, char)),
            $e!((u8, Option<bool>, String)),
            $e!((u8, Option<bool>, ())),
            $e!((u8, Option<bool>, Unit)),
            $e!(Plain<bool>),
            $e!(Plain<i64>),
            $e!(Plain<NonZeroU8>),
            $e!(Plain<f32>),
            $e!(Plain<char>),
            $e!(Plain<String>),
            $e!(Plain<()>),
            $e!(Plain<Unit>),
            $e!(Flat<bool>),
            $e!(Flat<i64>),
            $e!(Flat<NonZeroU8>),
            $e!(Flat<f32>),
            $e!(Flat<char>),
            $e!(Flat<String>),
            $e!(Flat<()>),
            $e!(Flat<Unit>),
            $e!(Tagged<bool>),
            $e!(Tagged<i64>),
            $e!(Tagged<NonZeroU8>),
            $e!(Tagged<f32>),
            $e!(Tagged<char>),
            $e!(Tagged<String>),
            $e!(Tagged<()>),
            $e!(Tagged<Unit>),
            $e!(Def<bool>),
            $e!(Def<i64>),
            $e!(Def<f32>),
            $e!(Def<char>),
            $e!(Def<String>),
            $e!(Def<()>),
            $e!(Def<Unit>),
            $e!(Option<Option<u8>>),
            $e!(Option<Vec<u8>>),
            $e!(Option<[u8; 2]>),
            $e!(Option<(u8, u8)>),
            $e!(Option<Plain<u8>>),
            $e!(Option<Flat<u8>>),
            $e!(Option<Tagged<u8>>),
            $e!(Option<Def<u8>>),
            $e!(Vec<Option<u8>>),
            $e!(Vec<Vec<u8>>),
            $e!(Vec<[u8; 2]>),
            $e!(Vec<(u8, u8)>),
            $e!(Vec<Plain<u8>>),
            $e!(Vec<Flat<u8>>),
            $e!(Vec<Tagged<u8>>),
            $e!(Vec<Def<u8>>),
            $e!([Option<u8>; 2]),
            $e!([Vec<u8>; 2]),
            $e!([[u8; 2]; 2]),
            $e!([(u8, u8); 2]),
            $e!([Plain<u8>; 2]),
            $e!([Flat<u8>; 2]),
            $e!([Tagged<u8>; 2]),
            $e!([Def<u8>; 2]),
            $e!((Option<u8>, u8)),
            $e!((Vec<u8>, u8)),
            $e!(([u8; 2], u8)),
            $e!(((u8, u8), u8)),
            $e!((Plain<u8>, u8)),
            $e!((Flat<u8>, u8)),
            $e!((Tagged<u8>, u8)),
            $e!((Def<u8>, u8)),
            $e!(Plain<Option<u8>>),
            $e!(Plain<Vec<u8>>),
            $e!(Plain<[u8; 2]>),
            $e!(Plain<(u8, u8)>),
            $e!(Plain<Plain<u8>>),
            $e!(Plain<Flat<u8>>),
            $e!(Plain<Tagged<u8>>),
            $e!(Plain<Def<u8>>),
            $e!(Flat<Option<u8>>),
            $e!(Flat<Vec<u8>>),
            $e!(Flat<[u8; 2]>),
            $e!(Flat<(u8, u8)>),
            $e!(Flat<Plain<u8>>),
            $e!(Flat<Flat<u8>>),
            $e!(Flat<Tagged<u8>>),
            $e!(Flat<Def<u8>>),
            $e!(Tagged<Option<u8>>),
            $e!(Tagged<Vec<u8>>),
            $e!(Tagged<[u8; 2]>),
            $e!(Tagged<(u8, u8)>),
            $e!(Tagged<Plain<u8>>),
            $e!(Tagged<Flat<u8>>),
            $e!(Tagged<Tagged<u8>>),
            $e!(Tagged<Def<u8>>),
            $e!(Def<Option<u8>>),
            $e!(Def<Vec<u8>>),
            $e!(Def<[u8; 2]>),
            $e!(Def<(u8, u8)>),
            $e!(Def<Plain<u8>>),
            $e!(Def<Flat<u8>>),
            $e!(Def<Tagged<u8>>),
            $e!(Def<Def<u8>>),
            $e!(Option<Option<String>>),
            $e!(Option<Option<Unit>>),
            $e!(Option<Vec<String>>),
            $e!(Option<Vec<Unit>>),
            $e!(Option<[String; 2]>),
            $e!(Option<[Unit; 2]>),
            $e!(Option<(String, u8)>),
            $e!(Option<(Unit, u8)>),
            $e!(Option<Plain<String>>),
            $e!(Option<Plain<Unit>>),
            $e!(Option<Flat<String>>),
            $e!(Option<Flat<Unit>>),
            $e!(Option<Tagged<String>>),
            $e!(Option<Tagged<Unit>>),
            $e!(Option<Def<String>>),
            $e!(Option<Def<Unit>>),
            $e!(Vec<Option<String>>),
            $e!(Vec<Option<Unit>>),
            $e!(Vec<Vec<String>>),
            $e!(Vec<Vec<Unit>>),
            $e!(Vec<[String; 2]>),
            $e!(Vec<[Unit; 2]>),
            $e!(Vec<(String, u8)>),
            $e!(Vec<(Unit, u8)>),
            $e!(Vec<Plain<String>>),
            $e!(Vec<Plain<Unit>>),
            $e!(Vec<Flat<String>>),
            $e!(Vec<Flat<Unit>>),
            $e!(Vec<Tagged<String>>),
            $e!(Vec<Tagged<Unit>>),
            $e!(Vec<Def<String>>),
            $e!(Vec<Def<Unit>>),
            $e!(Option<Option<Option<u8>>>),
            $e!(Option<Option<Option<()>>>),
            $e!(Vec<Vec<Vec<u8>>>),
            $e!(Option<Vec<Option<String>>>),
            $e!(Vec<Option<Option<bool>>>),
            $e!(Option<Option<Option<Option<Unit>>>>),
            $e!(Tagged<Tagged<Tagged<u8>>>),
            $e!(Flat<Flat<Flat<u8>>>),
            $e!(Def<Option<Option<u8>>>),
            $e!(Option<Def<Option<String>>>),
            $e!(((u8, u8), (String, bool))),
            $e!([[[u8; 1]; 2]; 1]),
            $e!(Vec<(String, Option<Tagged<u8>>)>),
            $e!(Vec<NonZeroI64>),
            $e!((String, char, f32)),
            $e!([String; 3]),
            $e!([u8; 5]),
            $e!(Mixed),
            $e!(Option<Mixed>),
            $e!(Tree),
            $e!(Option<Tree>),
            $e!(Text),
            $e!(Option<Text>),
        ]
    };
}
