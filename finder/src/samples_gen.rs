// generated by tools/gen_finder.py
include!("../../idl/samples.thrift");
pub static D_EMPTY: StructDef = StructDef { name: "Empty", fields: f_Empty };
#[allow(non_snake_case)] fn f_Empty() -> Vec<FieldDef> { vec![] }
pub static D_SCALARS: StructDef = StructDef { name: "Scalars", fields: f_Scalars };
#[allow(non_snake_case)] fn f_Scalars() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "a", ty: Ty::Bool }, FieldDef { id: 2, required: true, name: "b", ty: Ty::I8 }, FieldDef { id: 3, required: true, name: "c", ty: Ty::I16 }, FieldDef { id: 4, required: true, name: "d", ty: Ty::I32 }, FieldDef { id: 5, required: true, name: "e", ty: Ty::I64 }, FieldDef { id: 6, required: true, name: "f", ty: Ty::Double }, FieldDef { id: 7, required: true, name: "g", ty: Ty::Str }, FieldDef { id: 8, required: true, name: "h", ty: Ty::Bin }, FieldDef { id: 9, required: true, name: "i", ty: Ty::Enum("Color") }] }
pub static D_OPTIONALS: StructDef = StructDef { name: "Optionals", fields: f_Optionals };
#[allow(non_snake_case)] fn f_Optionals() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: false, name: "a", ty: Ty::Bool }, FieldDef { id: 2, required: false, name: "b", ty: Ty::I8 }, FieldDef { id: 3, required: false, name: "c", ty: Ty::I16 }, FieldDef { id: 4, required: false, name: "d", ty: Ty::I32 }, FieldDef { id: 5, required: false, name: "e", ty: Ty::I64 }, FieldDef { id: 6, required: false, name: "f", ty: Ty::Double }, FieldDef { id: 7, required: false, name: "g", ty: Ty::Str }, FieldDef { id: 8, required: false, name: "h", ty: Ty::Bin }, FieldDef { id: 9, required: false, name: "i", ty: Ty::Enum("Color") }, FieldDef { id: 10, required: false, name: "j", ty: Ty::Struct(&D_EMPTY) }] }
pub static D_GAPS: StructDef = StructDef { name: "Gaps", fields: f_Gaps };
#[allow(non_snake_case)] fn f_Gaps() -> Vec<FieldDef> { vec![FieldDef { id: -32768, required: false, name: "a", ty: Ty::I32 }, FieldDef { id: -17, required: false, name: "b", ty: Ty::Bool }, FieldDef { id: 0, required: false, name: "c", ty: Ty::I64 }, FieldDef { id: 15, required: true, name: "d", ty: Ty::I32 }, FieldDef { id: 31, required: false, name: "e", ty: Ty::Bool }, FieldDef { id: 46, required: false, name: "f", ty: Ty::I8 }, FieldDef { id: 300, required: true, name: "g", ty: Ty::Str }, FieldDef { id: 32767, required: false, name: "h", ty: Ty::I64 }, FieldDef { id: 7, required: false, name: "i", ty: Ty::I32 }, FieldDef { id: 6, required: true, name: "j", ty: Ty::Bool }] }
pub static D_ENDS: StructDef = StructDef { name: "Ends", fields: f_Ends };
#[allow(non_snake_case)] fn f_Ends() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: false, name: "a", ty: Ty::I8 }, FieldDef { id: -32768, required: false, name: "b", ty: Ty::Bool }, FieldDef { id: -1, required: false, name: "c", ty: Ty::List(Box::new(Ty::I32)) }, FieldDef { id: 32766, required: false, name: "d", ty: Ty::I16 }, FieldDef { id: 32767, required: false, name: "e", ty: Ty::Str }] }
pub static D_LISTS: StructDef = StructDef { name: "Lists", fields: f_Lists };
#[allow(non_snake_case)] fn f_Lists() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "a", ty: Ty::List(Box::new(Ty::Bool)) }, FieldDef { id: 2, required: true, name: "b", ty: Ty::List(Box::new(Ty::I8)) }, FieldDef { id: 3, required: false, name: "c", ty: Ty::List(Box::new(Ty::I16)) }, FieldDef { id: 4, required: false, name: "d", ty: Ty::List(Box::new(Ty::I32)) }, FieldDef { id: 5, required: true, name: "e", ty: Ty::List(Box::new(Ty::I64)) }, FieldDef { id: 6, required: false, name: "f", ty: Ty::List(Box::new(Ty::Double)) }, FieldDef { id: 7, required: false, name: "g", ty: Ty::List(Box::new(Ty::Str)) }, FieldDef { id: 8, required: false, name: "h", ty: Ty::List(Box::new(Ty::Bin)) }, FieldDef { id: 9, required: false, name: "i", ty: Ty::List(Box::new(Ty::Enum("Color"))) }, FieldDef { id: 10, required: false, name: "j", ty: Ty::List(Box::new(Ty::Struct(&D_SCALARS))) }, FieldDef { id: 11, required: false, name: "k", ty: Ty::List(Box::new(Ty::Union(&D_CHOICE))) }] }
pub static D_CHOICE: StructDef = StructDef { name: "Choice", fields: f_Choice };
#[allow(non_snake_case)] fn f_Choice() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "EMPTY", ty: Ty::Struct(&D_EMPTY) }, FieldDef { id: 2, required: true, name: "FLAG", ty: Ty::Bool }, FieldDef { id: 3, required: true, name: "NUM", ty: Ty::I32 }, FieldDef { id: 4, required: true, name: "TEXT", ty: Ty::Str }, FieldDef { id: 5, required: true, name: "NUMS", ty: Ty::List(Box::new(Ty::I64)) }, FieldDef { id: 20, required: true, name: "REC", ty: Ty::Struct(&D_SCALARS) }, FieldDef { id: -9, required: true, name: "DBL", ty: Ty::Double }] }
pub static D_SHARED: StructDef = StructDef { name: "Shared", fields: f_Shared };
#[allow(non_snake_case)] fn f_Shared() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "a", ty: Ty::Str }, FieldDef { id: 2, required: true, name: "b", ty: Ty::Str }, FieldDef { id: 3, required: true, name: "c", ty: Ty::Str }, FieldDef { id: 4, required: false, name: "d", ty: Ty::Struct(&D_SCALARS) }, FieldDef { id: 5, required: false, name: "e", ty: Ty::Struct(&D_OPTIONALS) }, FieldDef { id: 6, required: false, name: "f", ty: Ty::Union(&D_CHOICE) }, FieldDef { id: 7, required: false, name: "g", ty: Ty::Bool }, FieldDef { id: 8, required: false, name: "h", ty: Ty::I64 }, FieldDef { id: 9, required: true, name: "i", ty: Ty::Bool }, FieldDef { id: 10, required: true, name: "j", ty: Ty::Bool }, FieldDef { id: 11, required: false, name: "k", ty: Ty::Str }, FieldDef { id: 12, required: false, name: "l", ty: Ty::Str }, FieldDef { id: 13, required: false, name: "m", ty: Ty::Str }] }
pub static D_NESTED: StructDef = StructDef { name: "Nested", fields: f_Nested };
#[allow(non_snake_case)] fn f_Nested() -> Vec<FieldDef> { vec![FieldDef { id: 1, required: true, name: "a", ty: Ty::Struct(&D_SCALARS) }, FieldDef { id: 2, required: false, name: "b", ty: Ty::Struct(&D_OPTIONALS) }, FieldDef { id: 3, required: true, name: "c", ty: Ty::Union(&D_CHOICE) }, FieldDef { id: 4, required: false, name: "d", ty: Ty::Struct(&D_SHARED) }, FieldDef { id: 5, required: false, name: "e", ty: Ty::List(Box::new(Ty::Struct(&D_GAPS))) }, FieldDef { id: 6, required: false, name: "f", ty: Ty::Struct(&D_EMPTY) }] }
impl Dyn for Color { fn make(v: &Val) -> Self { Color(v.int() as i32) } fn val(&self) -> Val { Val::Int(self.0 as i64) } }
#[allow(unused_variables)] impl Dyn for Empty { fn make(v: &Val) -> Self { let f = v.fields(); Empty {  } } fn val(&self) -> Val { Val::Struct(vec![]) } }
#[allow(unused_variables)] impl Dyn for Scalars { fn make(v: &Val) -> Self { let f = v.fields(); Scalars { a: Dyn::make(f[0].as_ref().unwrap()), b: Dyn::make(f[1].as_ref().unwrap()), c: Dyn::make(f[2].as_ref().unwrap()), d: Dyn::make(f[3].as_ref().unwrap()), e: Dyn::make(f[4].as_ref().unwrap()), f: Dyn::make(f[5].as_ref().unwrap()), g: Dyn::make(f[6].as_ref().unwrap()), h: Dyn::make(f[7].as_ref().unwrap()), i: Dyn::make(f[8].as_ref().unwrap()) } } fn val(&self) -> Val { Val::Struct(vec![Some(self.a.val()), Some(self.b.val()), Some(self.c.val()), Some(self.d.val()), Some(self.e.val()), Some(self.f.val()), Some(self.g.val()), Some(self.h.val()), Some(self.i.val())]) } }
#[allow(unused_variables)] impl Dyn for Optionals { fn make(v: &Val) -> Self { let f = v.fields(); Optionals { a: f[0].as_ref().map(Dyn::make), b: f[1].as_ref().map(Dyn::make), c: f[2].as_ref().map(Dyn::make), d: f[3].as_ref().map(Dyn::make), e: f[4].as_ref().map(Dyn::make), f: f[5].as_ref().map(Dyn::make), g: f[6].as_ref().map(Dyn::make), h: f[7].as_ref().map(Dyn::make), i: f[8].as_ref().map(Dyn::make), j: f[9].as_ref().map(Dyn::make) } } fn val(&self) -> Val { Val::Struct(vec![self.a.as_ref().map(Dyn::val), self.b.as_ref().map(Dyn::val), self.c.as_ref().map(Dyn::val), self.d.as_ref().map(Dyn::val), self.e.as_ref().map(Dyn::val), self.f.as_ref().map(Dyn::val), self.g.as_ref().map(Dyn::val), self.h.as_ref().map(Dyn::val), self.i.as_ref().map(Dyn::val), self.j.as_ref().map(Dyn::val)]) } }
#[allow(unused_variables)] impl Dyn for Gaps { fn make(v: &Val) -> Self { let f = v.fields(); Gaps { a: f[0].as_ref().map(Dyn::make), b: f[1].as_ref().map(Dyn::make), c: f[2].as_ref().map(Dyn::make), d: Dyn::make(f[3].as_ref().unwrap()), e: f[4].as_ref().map(Dyn::make), f: f[5].as_ref().map(Dyn::make), g: Dyn::make(f[6].as_ref().unwrap()), h: f[7].as_ref().map(Dyn::make), i: f[8].as_ref().map(Dyn::make), j: Dyn::make(f[9].as_ref().unwrap()) } } fn val(&self) -> Val { Val::Struct(vec![self.a.as_ref().map(Dyn::val), self.b.as_ref().map(Dyn::val), self.c.as_ref().map(Dyn::val), Some(self.d.val()), self.e.as_ref().map(Dyn::val), self.f.as_ref().map(Dyn::val), Some(self.g.val()), self.h.as_ref().map(Dyn::val), self.i.as_ref().map(Dyn::val), Some(self.j.val())]) } }
#[allow(unused_variables)] impl Dyn for Ends { fn make(v: &Val) -> Self { let f = v.fields(); Ends { a: f[0].as_ref().map(Dyn::make), b: f[1].as_ref().map(Dyn::make), c: f[2].as_ref().map(Dyn::make), d: f[3].as_ref().map(Dyn::make), e: f[4].as_ref().map(Dyn::make) } } fn val(&self) -> Val { Val::Struct(vec![self.a.as_ref().map(Dyn::val), self.b.as_ref().map(Dyn::val), self.c.as_ref().map(Dyn::val), self.d.as_ref().map(Dyn::val), self.e.as_ref().map(Dyn::val)]) } }
#[allow(unused_variables)] impl Dyn for Lists { fn make(v: &Val) -> Self { let f = v.fields(); Lists { a: Dyn::make(f[0].as_ref().unwrap()), b: Dyn::make(f[1].as_ref().unwrap()), c: f[2].as_ref().map(Dyn::make), d: f[3].as_ref().map(Dyn::make), e: Dyn::make(f[4].as_ref().unwrap()), f: f[5].as_ref().map(Dyn::make), g: f[6].as_ref().map(Dyn::make), h: f[7].as_ref().map(Dyn::make), i: f[8].as_ref().map(Dyn::make), j: f[9].as_ref().map(Dyn::make), k: f[10].as_ref().map(Dyn::make) } } fn val(&self) -> Val { Val::Struct(vec![Some(self.a.val()), Some(self.b.val()), self.c.as_ref().map(Dyn::val), self.d.as_ref().map(Dyn::val), Some(self.e.val()), self.f.as_ref().map(Dyn::val), self.g.as_ref().map(Dyn::val), self.h.as_ref().map(Dyn::val), self.i.as_ref().map(Dyn::val), self.j.as_ref().map(Dyn::val), self.k.as_ref().map(Dyn::val)]) } }
impl Dyn for Choice { fn make(v: &Val) -> Self { let Val::Union(k, v) = v else { panic!() }; match k { 0 => Choice::EMPTY(Dyn::make(v)), 1 => Choice::FLAG(Dyn::make(v)), 2 => Choice::NUM(Dyn::make(v)), 3 => Choice::TEXT(Dyn::make(v)), 4 => Choice::NUMS(Dyn::make(v)), 5 => Choice::REC(Dyn::make(v)), 6 => Choice::DBL(Dyn::make(v)), _ => panic!() } } fn val(&self) -> Val { match self { Choice::EMPTY(x) => Val::Union(0, Box::new(x.val())), Choice::FLAG(x) => Val::Union(1, Box::new(x.val())), Choice::NUM(x) => Val::Union(2, Box::new(x.val())), Choice::TEXT(x) => Val::Union(3, Box::new(x.val())), Choice::NUMS(x) => Val::Union(4, Box::new(x.val())), Choice::REC(x) => Val::Union(5, Box::new(x.val())), Choice::DBL(x) => Val::Union(6, Box::new(x.val())) } } }
#[allow(unused_variables)] impl Dyn for Shared { fn make(v: &Val) -> Self { let f = v.fields(); Shared { a: Dyn::make(f[0].as_ref().unwrap()), b: Dyn::make(f[1].as_ref().unwrap()), c: Dyn::make(f[2].as_ref().unwrap()), d: f[3].as_ref().map(Dyn::make), e: f[4].as_ref().map(Dyn::make), f: f[5].as_ref().map(Dyn::make), g: f[6].as_ref().map(Dyn::make), h: f[7].as_ref().map(Dyn::make), i: Dyn::make(f[8].as_ref().unwrap()), j: Dyn::make(f[9].as_ref().unwrap()), k: f[10].as_ref().map(Dyn::make), l: f[11].as_ref().map(Dyn::make), m: f[12].as_ref().map(Dyn::make) } } fn val(&self) -> Val { Val::Struct(vec![Some(self.a.val()), Some(self.b.val()), Some(self.c.val()), self.d.as_ref().map(Dyn::val), self.e.as_ref().map(Dyn::val), self.f.as_ref().map(Dyn::val), self.g.as_ref().map(Dyn::val), self.h.as_ref().map(Dyn::val), Some(self.i.val()), Some(self.j.val()), self.k.as_ref().map(Dyn::val), self.l.as_ref().map(Dyn::val), self.m.as_ref().map(Dyn::val)]) } }
#[allow(unused_variables)] impl Dyn for Nested { fn make(v: &Val) -> Self { let f = v.fields(); Nested { a: Dyn::make(f[0].as_ref().unwrap()), b: f[1].as_ref().map(Dyn::make), c: Dyn::make(f[2].as_ref().unwrap()), d: f[3].as_ref().map(Dyn::make), e: f[4].as_ref().map(Dyn::make), f: f[5].as_ref().map(Dyn::make) } } fn val(&self) -> Val { Val::Struct(vec![Some(self.a.val()), self.b.as_ref().map(Dyn::val), Some(self.c.val()), self.d.as_ref().map(Dyn::val), self.e.as_ref().map(Dyn::val), self.f.as_ref().map(Dyn::val)]) } }
pub fn sample_ops() -> Vec<Ops> { vec![ops_dyn::<Color>("Color", Ty::Enum("Color")), ops_dyn::<Empty>("Empty", Ty::Struct(&D_EMPTY)), ops_dyn::<Scalars>("Scalars", Ty::Struct(&D_SCALARS)), ops_dyn::<Optionals>("Optionals", Ty::Struct(&D_OPTIONALS)), ops_dyn::<Gaps>("Gaps", Ty::Struct(&D_GAPS)), ops_dyn::<Ends>("Ends", Ty::Struct(&D_ENDS)), ops_dyn::<Lists>("Lists", Ty::Struct(&D_LISTS)), ops_dyn::<Choice>("Choice", Ty::Union(&D_CHOICE)), ops_dyn::<Shared>("Shared", Ty::Struct(&D_SHARED)), ops_dyn::<Nested>("Nested", Ty::Struct(&D_NESTED))] }
