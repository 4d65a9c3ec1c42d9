// Written by tools/gen_ctx_types.py
macro_rules! for_types {
    ($e:ident) => {
        vec![
            $e!(Probe),
            $e!(NullProbe),
            $e!(Part),
            $e!(UnitProbe),
            $e!(Option<Probe>),
            $e!(Option<NullProbe>),
            $e!(Option<Part>),
            $e!(Option<UnitProbe>),
            $e!(Vec<Probe>),
            $e!(Vec<NullProbe>),
            $e!(Vec<Part>),
            $e!(Vec<UnitProbe>),
            $e!([Probe; 0]),
            $e!([NullProbe; 0]),
            $e!([Part; 0]),
            $e!([UnitProbe; 0]),
            $e!([Probe; 1]),
            $e!([NullProbe; 1]),
            $e!([Part; 1]),
            $e!([UnitProbe; 1]),
            $e!([Probe; 3]),
            $e!([NullProbe; 3]),
            $e!([Part; 3]),
            $e!([UnitProbe; 3]),
            $e!((Probe, u8)),
            $e!((NullProbe, u8)),
            $e!((Part, u8)),
            $e!((UnitProbe, u8)),
            $e!((u8, Probe)),
            $e!((u8, NullProbe)),
            $e!((u8, Part)),
            $e!((u8, UnitProbe)),
            $e!((bool, Probe, u8)),
            $e!((bool, NullProbe, u8)),
            $e!((bool, Part, u8)),
            $e!((bool, UnitProbe, u8)),
            $e!((Probe, Probe)),
            $e!((NullProbe, NullProbe)),
            $e!((Part, Part)),
            $e!((UnitProbe, UnitProbe)),
            $e!((Probe, Probe, Probe)),
            $e!((NullProbe, NullProbe, NullProbe)),
            $e!((Part, Part, Part)),
            $e!((UnitProbe, UnitProbe, UnitProbe)),
            $e!(Plain<Probe>),
            $e!(Plain<NullProbe>),
            $e!(Plain<Part>),
            $e!(Plain<UnitProbe>),
            $e!(Inner<Probe>),
            $e!(Inner<NullProbe>),
            $e!(Inner<Part>),
            $e!(Inner<UnitProbe>),
            $e!(Flat<Probe>),
            $e!(Flat<NullProbe>),
            $e!(Flat<Part>),
            $e!(Flat<UnitProbe>),
            $e!(Tagged<Probe>),
            $e!(Tagged<NullProbe>),
            $e!(Tagged<Part>),
            $e!(Tagged<UnitProbe>),
            $e!(Def<Probe>),
            $e!(Def<NullProbe>),
            $e!(Def<Part>),
            $e!(Def<UnitProbe>),
            $e!(Multi<Probe>),
            $e!(Multi<NullProbe>),
            $e!(Multi<Part>),
            $e!(Multi<UnitProbe>),
            $e!(Choice<Probe>),
            $e!(Choice<NullProbe>),
            $e!(Choice<Part>),
            $e!(Choice<UnitProbe>),
            $e!(Option<Option<Probe>>),
            $e!(Option<Vec<Probe>>),
            $e!(Option<[Probe; 3]>),
            $e!(Option<(Probe, Probe)>),
            $e!(Option<(u8, Probe)>),
            $e!(Option<(Probe, Probe, Probe)>),
            $e!(Option<Plain<Probe>>),
            $e!(Option<Flat<Probe>>),
            $e!(Option<Tagged<Probe>>),
            $e!(Option<Def<Probe>>),
            $e!(Option<Multi<Probe>>),
            $e!(Option<Choice<Probe>>),
            $e!(Vec<Option<Probe>>),
            $e!(Vec<Vec<Probe>>),
            $e!(Vec<[Probe; 3]>),
            $e!(Vec<(Probe, Probe)>),
            $e!(Vec<(u8, Probe)>),
            $e!(Vec<(Probe, Probe, Probe)>),
            $e!(Vec<Plain<Probe>>),
            $e!(Vec<Flat<Probe>>),
            $e!(Vec<Tagged<Probe>>),
            $e!(Vec<Def<Probe>>),
            $e!(Vec<Multi<Probe>>),
            $e!(Vec<Choice<Probe>>),
            $e!([Option<Probe>; 3]),
            $e!([Vec<Probe>; 3]),
            $e!([[Probe; 3]; 3]),
            $e!([(Probe, Probe); 3]),
            $e!([(u8, Probe); 3]),
            $e!([(Probe, Probe, Probe); 3]),
            $e!([Plain<Probe>; 3]),
            $e!([Flat<Probe>; 3]),
            $e!([Tagged<Probe>; 3]),
            $e!([Def<Probe>; 3]),
            $e!([Multi<Probe>; 3]),
            $e!([Choice<Probe>; 3]),
            $e!((Option<Probe>, Option<Probe>)),
            $e!((Vec<Probe>, Vec<Probe>)),
            $e!(([Probe; 3], [Probe; 3])),
            $e!(((Probe, Probe), (Probe, Probe))),
            $e!(((u8, Probe), (u8, Probe))),
            $e!(((Probe, Probe, Probe), (Probe, Probe, Probe))),
            $e!((Plain<Probe>, Plain<Probe>)),
            $e!((Flat<Probe>, Flat<Probe>)),
            $e!((Tagged<Probe>, Tagged<Probe>)),
            $e!((Def<Probe>, Def<Probe>)),
            $e!((Multi<Probe>, Multi<Probe>)),
            $e!((Choice<Probe>, Choice<Probe>)),
            $e!((u8, Option<Probe>)),
            $e!((u8, Vec<Probe>)),
            $e!((u8, [Probe; 3])),
            $e!((u8, (Probe, Probe))),
            $e!((u8, (u8, Probe))),
            $e!((u8, (Probe, Probe, Probe))),
            $e!((u8, Plain<Probe>)),
            $e!((u8, Flat<Probe>)),
            $e!((u8, Tagged<Probe>)),
            $e!((u8, Def<Probe>)),
            $e!((u8, Multi<Probe>)),
            $e!((u8, Choice<Probe>)),
            $e!((Option<Probe>, Option<Probe>, Option<Probe>)),
            $e!((Vec<Probe>, Vec<Probe>, Vec<Probe>)),
            $e!(([Probe; 3], [Probe; 3], [Probe; 3])),
            $e!(((Probe, Probe), (Probe, Probe), (Probe, Probe))),
            $e!(((u8, Probe), (u8, Probe), (u8, Probe))),
            $e!(((Probe, Probe, Probe), (Probe, Probe, Probe), (Probe, Probe, Probe))),
            $e!((Plain<Probe>, Plain<Probe>, Plain<Probe>)),
            $e!((Flat<Probe>, Flat<Probe>, Flat<Probe>)),
            $e!((Tagged<Probe>, Tagged<Probe>, Tagged<Probe>)),
            $e!((Def<Probe>, Def<Probe>, Def<Probe>)),
            $e!((Multi<Probe>, Multi<Probe>, Multi<Probe>)),
            $e!((Choice<Probe>, Choice<Probe>, Choice<Probe>)),
            $e!(Plain<Option<Probe>>),
            $e!(Plain<Vec<Probe>>),
            $e!(Plain<[Probe; 3]>),
            $e!(Plain<(Probe, Probe)>),
            $e!(Plain<(u8, Probe)>),
            $e!(Plain<(Probe, Probe, Probe)>),
            $e!(Plain<Plain<Probe>>),
            $e!(Plain<Flat<Probe>>),
            $e!(Plain<Tagged<Probe>>),
            $e!(Plain<Def<Probe>>),
            $e!(Plain<Multi<Probe>>),
            $e!(Plain<Choice<Probe>>),
            $e!(Flat<Option<Probe>>),
            $e!(Flat<Vec<Probe>>),
            $e!(Flat<[Probe; 3]>),
            $e!(Flat<(Probe, Probe)>),
            $e!(Flat<(u8, Probe)>),
            $e!(Flat<(Probe, Probe, Probe)>),
            $e!(Flat<Plain<Probe>>),
            $e!(Flat<Flat<Probe>>),
            $e!(Flat<Tagged<Probe>>),
            $e!(Flat<Def<Probe>>),
            $e!(Flat<Multi<Probe>>),
            $e!(Flat<Choice<Probe>>),
            $e!(Tagged<Option<Probe>>),
            $e!(Tagged<Vec<Probe>>),
            $e!(Tagged<[Probe; 3]>),
            $e!(Tagged<(Probe, Probe)>),
            $e!(Tagged<(u8, Probe)>),
            $e!(Tagged<(Probe, Probe, Probe)>),
            $e!(Tagged<Plain<Probe>>),
            $e!(Tagged<Flat<Probe>>),
            $e!(Tagged<Tagged<Probe>>),
            $e!(Tagged<Def<Probe>>),
            $e!(Tagged<Multi<Probe>>),
            $e!(Tagged<Choice<Probe>>),
            $e!(Def<Option<Probe>>),
            $e!(Def<Vec<Probe>>),
            $e!(Def<[Probe; 3]>),
            $e!(Def<(Probe, Probe)>),
            $e!(Def<(u8, Probe)>),
            $e!(Def<(Probe, Probe, Probe)>),
            $e!(Def<Plain<Probe>>),
            $e!(Def<Flat<Probe>>),
            $e!(Def<Tagged<Probe>>),
            $e!(Def<Def<Probe>>),
            $e!(Def<Multi<Probe>>),
            $e!(Def<Choice<Probe>>),
            $e!(Multi<Option<Probe>>),
            $e!(Multi<Vec<Probe>>),
            $e!(Multi<[Probe; 3]>),
            $e!(Multi<(Probe, Probe)>),
            $e!(Multi<(u8, Probe)>),
            $e!(Multi<(Probe, Probe, Probe)>),
            $e!(Multi<Plain<Probe>>),
            $e!(Multi<Flat<Probe>>),
            $e!(Multi<Tagged<Probe>>),
            $e!(Multi<Def<Probe>>),
            $e!(Multi<Multi<Probe>>),
            $e!(Multi<Choice<Probe>>),
            $e!(Choice<Option<Probe>>),
            $e!(Choice<Vec<Probe>>),
            $e!(Choice<[Probe; 3]>),
            $e!(Choice<(Probe, Probe)>),
            $e!(Choice<(u8, Probe)>),
            $e!(Choice<(Probe, Probe, Probe)>),
            $e!(Choice<Plain<Probe>>),
            $e!(Choice<Flat<Probe>>),
            $e!(Choice<Tagged<Probe>>),
            $e!(Choice<Def<Probe>>),
            $e!(Choice<Multi<Probe>>),
            $e!(Choice<Choice<Probe>>),
            $e!(Option<Option<NullProbe>>),
            $e!(Option<Vec<NullProbe>>),
            $e!(Option<(NullProbe, NullProbe)>),
            $e!(Option<Flat<NullProbe>>),
            $e!(Option<Tagged<NullProbe>>),
            $e!(Option<Def<NullProbe>>),
            $e!(Vec<Option<NullProbe>>),
            $e!(Vec<Vec<NullProbe>>),
            $e!(Vec<(NullProbe, NullProbe)>),
            $e!(Vec<Flat<NullProbe>>),
            $e!(Vec<Tagged<NullProbe>>),
            $e!(Vec<Def<NullProbe>>),
            $e!((Option<NullProbe>, Option<NullProbe>)),
            $e!((Vec<NullProbe>, Vec<NullProbe>)),
            $e!(((NullProbe, NullProbe), (NullProbe, NullProbe))),
            $e!((Flat<NullProbe>, Flat<NullProbe>)),
            $e!((Tagged<NullProbe>, Tagged<NullProbe>)),
            $e!((Def<NullProbe>, Def<NullProbe>)),
            $e!(Flat<Option<NullProbe>>),
            $e!(Flat<Vec<NullProbe>>),
            $e!(Flat<(NullProbe, NullProbe)>),
            $e!(Flat<Flat<NullProbe>>),
            $e!(Flat<Tagged<NullProbe>>),
            $e!(Flat<Def<NullProbe>>),
            $e!(Tagged<Option<NullProbe>>),
            $e!(Tagged<Vec<NullProbe>>),
            $e!(Tagged<(NullProbe, NullProbe)>),
            $e!(Tagged<Flat<NullProbe>>),
            $e!(Tagged<Tagged<NullProbe>>),
            $e!(Tagged<Def<NullProbe>>),
            $e!(Def<Option<NullProbe>>),
            $e!(Def<Vec<NullProbe>>),
            $e!(Def<(NullProbe, NullProbe)>),
            $e!(Def<Flat<NullProbe>>),
            $e!(Def<Tagged<NullProbe>>),
            $e!(Def<Def<NullProbe>>),
            $e!(Option<Option<Option<Probe>>>),
            $e!(Option<Option<Vec<Probe>>>),
            $e!(Option<Option<Flat<Probe>>>),
            $e!(Option<Option<Choice<Probe>>>),
            $e!(Option<Vec<Option<Probe>>>),
            $e!(Option<Vec<Vec<Probe>>>),
            $e!(Option<Vec<Flat<Probe>>>),
            $e!(Option<Vec<Choice<Probe>>>),
            $e!(Option<Flat<Option<Probe>>>),
            $e!(Option<Flat<Vec<Probe>>>),
            $e!(Option<Flat<Flat<Probe>>>),
            $e!(Option<Flat<Choice<Probe>>>),
            $e!(Option<Choice<Option<Probe>>>),
            $e!(Option<Choice<Vec<Probe>>>),
            $e!(Option<Choice<Flat<Probe>>>),
            $e!(Option<Choice<Choice<Probe>>>),
            $e!(Vec<Option<Option<Probe>>>),
            $e!(Vec<Option<Vec<Probe>>>),
            $e!(Vec<Option<Flat<Probe>>>),
            $e!(Vec<Option<Choice<Probe>>>),
            $e!(Vec<Vec<Option<Probe>>>),
            $e!(Vec<Vec<Vec<Probe>>>),
            $e!(Vec<Vec<Flat<Probe>>>),
            $e!(Vec<Vec<Choice<Probe>>>),
            $e!(Vec<Flat<Option<Probe>>>),
            $e!(Vec<Flat<Vec<Probe>>>),
            $e!(Vec<Flat<Flat<Probe>>>),
            $e!(Vec<Flat<Choice<Probe>>>),
            $e!(Vec<Choice<Option<Probe>>>),
            $e!(Vec<Choice<Vec<Probe>>>),
            $e!(Vec<Choice<Flat<Probe>>>),
            $e!(Vec<Choice<Choice<Probe>>>),
            $e!(Flat<Option<Option<Probe>>>),
            $e!(Flat<Option<Vec<Probe>>>),
            $e!(Flat<Option<Flat<Probe>>>),
            $e!(Flat<Option<Choice<Probe>>>),
            $e!(Flat<Vec<Option<Probe>>>),
            $e!(Flat<Vec<Vec<Probe>>>),
            $e!(Flat<Vec<Flat<Probe>>>),
            $e!(Flat<Vec<Choice<Probe>>>),
            $e!(Flat<Flat<Option<Probe>>>),
            $e!(Flat<Flat<Vec<Probe>>>),
            $e!(Flat<Flat<Flat<Probe>>>),
            $e!(Flat<Flat<Choice<Probe>>>),
            $e!(Flat<Choice<Option<Probe>>>),
            $e!(Flat<Choice<Vec<Probe>>>),
            $e!(Flat<Choice<Flat<Probe>>>),
            $e!(Flat<Choice<Choice<Probe>>>),
            $e!(Choice<Option<Option<Probe>>>),
            $e!(Choice<Option<Vec<Probe>>>),
            $e!(Choice<Option<Flat<Probe>>>),
            $e!(Choice<Option<Choice<Probe>>>),
            $e!(Choice<Vec<Option<Probe>>>),
            $e!(Choice<Vec<Vec<Probe>>>),
            $e!(Choice<Vec<Flat<Probe>>>),
            $e!(Choice<Vec<Choice<Probe>>>),
            $e!(Choice<Flat<Option<Probe>>>),
            $e!(Choice<Flat<Vec<Probe>>>),
            $e!(Choice<Flat<Flat<Probe>>>),
            $e!(Choice<Flat<Choice<Probe>>>),
            $e!(Choice<Choice<Option<Probe>>>),
            $e!(Choice<Choice<Vec<Probe>>>),
            $e!(Choice<Choice<Flat<Probe>>>),
            $e!(Choice<Choice<Choice<Probe>>>),
        ]
    };
}
