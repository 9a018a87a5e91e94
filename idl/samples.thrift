// Definitions that exercise every arm of the macros; used by the bounded checks and, through the same macros, by the proofs.
thrift! {
enum Color { RED = 0; GREEN = 1; BLUE = 77; NEG = -3; }
struct Empty {}
struct Scalars {
  1: required bool a
  2: required i8 b
  3: required i16 c
  4: required i32 d
  5: required i64 e
  6: required double f
  7: required string g
  8: required binary h
  9: required Color i
}
struct Optionals {
  1: optional bool a
  2: optional i8 b
  3: optional i16 c
  4: optional i32 d
  5: optional i64 e
  6: optional double f
  7: optional string g
  8: optional binary h
  9: optional Color i
  10: optional Empty j
}
struct Gaps {
  -32768: optional i32 a
  -17: optional bool b
  0: optional i64 c
  15: required i32 d
  31: optional bool e
  46: optional i8 f
  300: required string g
  32767: optional i64 h
  7: optional i32 i
  6: required bool j
}
struct Ends {
  1: optional i8 a
  -32768: optional bool b
  -1: optional list<i32> c
  32766: optional i16 d
  32767: optional string e
}
struct Lists {
  1: required list<bool> a
  2: required list<i8> b
  3: optional list<i16> c
  4: optional list<i32> d
  5: required list<i64> e
  6: optional list<double> f
  7: optional list<string> g
  8: optional list<binary> h
  9: optional list<Color> i
  10: optional list<Scalars> j
  11: optional list<Choice> k
}
union Choice {
  1: Empty EMPTY
  2: bool FLAG
  3: i32 NUM
  4: string TEXT
  5: list<i64> NUMS
  20: Scalars REC
  -9: double DBL
}
struct Shared {
  1: required Rc<string> a
  2: required Arc<string> b
  3: required Box<string> c
  4: optional Box<Scalars> d
  5: optional Rc<Optionals> e
  6: optional Arc<Choice> f
  7: optional Box<bool> g
  8: optional Rc<i64> h
  9: required Box<bool> i
  10: required Arc<bool> j
  11: optional Rc<str> k
  12: optional Arc<str> l
  13: optional Box<str> m
}
struct Nested {
  1: required Scalars a
  2: optional Optionals b
  3: required Choice c
  4: optional Shared d
  5: optional list<Gaps> e
  6: optional Empty f
}
}
