// Generated by gen_types.py.
// Columns: vector, element, same-width unsigned int, class, lane bits, lanes, mask vector, bitmask type, index vector

#[macro_export]
macro_rules! ints {
    ($cb:ident) => {
        $cb!{i8x2 i8 u8 I 8 2 m8x2 u8 u8x2}
        $cb!{u8x2 u8 u8 U 8 2 m8x2 u8 u8x2}
        $cb!{i8x4 i8 u8 I 8 4 m8x4 u8 u8x4}
        $cb!{u8x4 u8 u8 U 8 4 m8x4 u8 u8x4}
        $cb!{i16x2 i16 u16 I 16 2 m16x2 u8 u16x2}
        $cb!{u16x2 u16 u16 U 16 2 m16x2 u8 u16x2}
        $cb!{i8x8 i8 u8 I 8 8 m8x8 u8 u8x8}
        $cb!{u8x8 u8 u8 U 8 8 m8x8 u8 u8x8}
        $cb!{i16x4 i16 u16 I 16 4 m16x4 u8 u16x4}
        $cb!{u16x4 u16 u16 U 16 4 m16x4 u8 u16x4}
        $cb!{i32x2 i32 u32 I 32 2 m32x2 u8 u32x2}
        $cb!{u32x2 u32 u32 U 32 2 m32x2 u8 u32x2}
        $cb!{i8x16 i8 u8 I 8 16 m8x16 u16 u8x16}
        $cb!{u8x16 u8 u8 U 8 16 m8x16 u16 u8x16}
        $cb!{i16x8 i16 u16 I 16 8 m16x8 u8 u16x8}
        $cb!{u16x8 u16 u16 U 16 8 m16x8 u8 u16x8}
        $cb!{i32x4 i32 u32 I 32 4 m32x4 u8 u32x4}
        $cb!{u32x4 u32 u32 U 32 4 m32x4 u8 u32x4}
        $cb!{i64x2 i64 u64 I 64 2 m64x2 u8 u64x2}
        $cb!{u64x2 u64 u64 U 64 2 m64x2 u8 u64x2}
        $cb!{i128x1 i128 u128 I 128 1 m128x1 u8 u128x1}
        $cb!{u128x1 u128 u128 U 128 1 m128x1 u8 u128x1}
        $cb!{i8x32 i8 u8 I 8 32 m8x32 u32 u8x32}
        $cb!{u8x32 u8 u8 U 8 32 m8x32 u32 u8x32}
        $cb!{i16x16 i16 u16 I 16 16 m16x16 u16 u16x16}
        $cb!{u16x16 u16 u16 U 16 16 m16x16 u16 u16x16}
        $cb!{i32x8 i32 u32 I 32 8 m32x8 u8 u32x8}
        $cb!{u32x8 u32 u32 U 32 8 m32x8 u8 u32x8}
        $cb!{i64x4 i64 u64 I 64 4 m64x4 u8 u64x4}
        $cb!{u64x4 u64 u64 U 64 4 m64x4 u8 u64x4}
        $cb!{i128x2 i128 u128 I 128 2 m128x2 u8 u128x2}
        $cb!{u128x2 u128 u128 U 128 2 m128x2 u8 u128x2}
        $cb!{i8x64 i8 u8 I 8 64 m8x64 u64 u8x64}
        $cb!{u8x64 u8 u8 U 8 64 m8x64 u64 u8x64}
        $cb!{i16x32 i16 u16 I 16 32 m16x32 u32 u16x32}
        $cb!{u16x32 u16 u16 U 16 32 m16x32 u32 u16x32}
        $cb!{i32x16 i32 u32 I 32 16 m32x16 u16 u32x16}
        $cb!{u32x16 u32 u32 U 32 16 m32x16 u16 u32x16}
        $cb!{i64x8 i64 u64 I 64 8 m64x8 u8 u64x8}
        $cb!{u64x8 u64 u64 U 64 8 m64x8 u8 u64x8}
        $cb!{i128x4 i128 u128 I 128 4 m128x4 u8 u128x4}
        $cb!{u128x4 u128 u128 U 128 4 m128x4 u8 u128x4}
        $cb!{isizex2 isize u64 I 64 2 msizex2 u8 usizex2}
        $cb!{usizex2 usize u64 U 64 2 msizex2 u8 usizex2}
        $cb!{isizex4 isize u64 I 64 4 msizex4 u8 usizex4}
        $cb!{usizex4 usize u64 U 64 4 msizex4 u8 usizex4}
        $cb!{isizex8 isize u64 I 64 8 msizex8 u8 usizex8}
        $cb!{usizex8 usize u64 U 64 8 msizex8 u8 usizex8}
    };
}

#[macro_export]
macro_rules! sints {
    ($cb:ident) => {
        $cb!{i8x2 i8 u8 I 8 2 m8x2 u8 u8x2}
        $cb!{i8x4 i8 u8 I 8 4 m8x4 u8 u8x4}
        $cb!{i16x2 i16 u16 I 16 2 m16x2 u8 u16x2}
        $cb!{i8x8 i8 u8 I 8 8 m8x8 u8 u8x8}
        $cb!{i16x4 i16 u16 I 16 4 m16x4 u8 u16x4}
        $cb!{i32x2 i32 u32 I 32 2 m32x2 u8 u32x2}
        $cb!{i8x16 i8 u8 I 8 16 m8x16 u16 u8x16}
        $cb!{i16x8 i16 u16 I 16 8 m16x8 u8 u16x8}
        $cb!{i32x4 i32 u32 I 32 4 m32x4 u8 u32x4}
        $cb!{i64x2 i64 u64 I 64 2 m64x2 u8 u64x2}
        $cb!{i128x1 i128 u128 I 128 1 m128x1 u8 u128x1}
        $cb!{i8x32 i8 u8 I 8 32 m8x32 u32 u8x32}
        $cb!{i16x16 i16 u16 I 16 16 m16x16 u16 u16x16}
        $cb!{i32x8 i32 u32 I 32 8 m32x8 u8 u32x8}
        $cb!{i64x4 i64 u64 I 64 4 m64x4 u8 u64x4}
        $cb!{i128x2 i128 u128 I 128 2 m128x2 u8 u128x2}
        $cb!{i8x64 i8 u8 I 8 64 m8x64 u64 u8x64}
        $cb!{i16x32 i16 u16 I 16 32 m16x32 u32 u16x32}
        $cb!{i32x16 i32 u32 I 32 16 m32x16 u16 u32x16}
        $cb!{i64x8 i64 u64 I 64 8 m64x8 u8 u64x8}
        $cb!{i128x4 i128 u128 I 128 4 m128x4 u8 u128x4}
        $cb!{isizex2 isize u64 I 64 2 msizex2 u8 usizex2}
        $cb!{isizex4 isize u64 I 64 4 msizex4 u8 usizex4}
        $cb!{isizex8 isize u64 I 64 8 msizex8 u8 usizex8}
    };
}

#[macro_export]
macro_rules! floats {
    ($cb:ident) => {
        $cb!{f32x2 f32 u32 F 32 2 m32x2 u8 u32x2}
        $cb!{f32x4 f32 u32 F 32 4 m32x4 u8 u32x4}
        $cb!{f64x2 f64 u64 F 64 2 m64x2 u8 u64x2}
        $cb!{f32x8 f32 u32 F 32 8 m32x8 u8 u32x8}
        $cb!{f64x4 f64 u64 F 64 4 m64x4 u8 u64x4}
        $cb!{f32x16 f32 u32 F 32 16 m32x16 u16 u32x16}
        $cb!{f64x8 f64 u64 F 64 8 m64x8 u8 u64x8}
    };
}

#[macro_export]
macro_rules! masks {
    ($cb:ident) => {
        $cb!{m8x2 m8 u8 M 8 2 m8x2 u8 u8x2}
        $cb!{m8x4 m8 u8 M 8 4 m8x4 u8 u8x4}
        $cb!{m16x2 m16 u16 M 16 2 m16x2 u8 u16x2}
        $cb!{m8x8 m8 u8 M 8 8 m8x8 u8 u8x8}
        $cb!{m16x4 m16 u16 M 16 4 m16x4 u8 u16x4}
        $cb!{m32x2 m32 u32 M 32 2 m32x2 u8 u32x2}
        $cb!{m8x16 m8 u8 M 8 16 m8x16 u16 u8x16}
        $cb!{m16x8 m16 u16 M 16 8 m16x8 u8 u16x8}
        $cb!{m32x4 m32 u32 M 32 4 m32x4 u8 u32x4}
        $cb!{m64x2 m64 u64 M 64 2 m64x2 u8 u64x2}
        $cb!{m128x1 m128 u128 M 128 1 m128x1 u8 u128x1}
        $cb!{m8x32 m8 u8 M 8 32 m8x32 u32 u8x32}
        $cb!{m16x16 m16 u16 M 16 16 m16x16 u16 u16x16}
        $cb!{m32x8 m32 u32 M 32 8 m32x8 u8 u32x8}
        $cb!{m64x4 m64 u64 M 64 4 m64x4 u8 u64x4}
        $cb!{m128x2 m128 u128 M 128 2 m128x2 u8 u128x2}
        $cb!{m8x64 m8 u8 M 8 64 m8x64 u64 u8x64}
        $cb!{m16x32 m16 u16 M 16 32 m16x32 u32 u16x32}
        $cb!{m32x16 m32 u32 M 32 16 m32x16 u16 u32x16}
        $cb!{m64x8 m64 u64 M 64 8 m64x8 u8 u64x8}
        $cb!{m128x4 m128 u128 M 128 4 m128x4 u8 u128x4}
        $cb!{msizex2 msize u64 M 64 2 msizex2 u8 usizex2}
        $cb!{msizex4 msize u64 M 64 4 msizex4 u8 usizex4}
        $cb!{msizex8 msize u64 M 64 8 msizex8 u8 usizex8}
    };
}

#[macro_export]
macro_rules! select_pairs {
    ($cb:ident) => {
        $cb!{m8x2 8 i8x2 I 8 2}
        $cb!{m8x2 8 u8x2 U 8 2}
        $cb!{m8x2 8 i16x2 I 16 2}
        $cb!{m8x2 8 u16x2 U 16 2}
        $cb!{m8x2 8 i32x2 I 32 2}
        $cb!{m8x2 8 u32x2 U 32 2}
        $cb!{m8x2 8 i64x2 I 64 2}
        $cb!{m8x2 8 u64x2 U 64 2}
        $cb!{m8x2 8 i128x2 I 128 2}
        $cb!{m8x2 8 u128x2 U 128 2}
        $cb!{m8x2 8 isizex2 I 64 2}
        $cb!{m8x2 8 usizex2 U 64 2}
        $cb!{m8x2 8 f32x2 F 32 2}
        $cb!{m8x2 8 f64x2 F 64 2}
        $cb!{m8x2 8 m8x2 M 8 2}
        $cb!{m8x2 8 m16x2 M 16 2}
        $cb!{m8x2 8 m32x2 M 32 2}
        $cb!{m8x2 8 m64x2 M 64 2}
        $cb!{m8x2 8 m128x2 M 128 2}
        $cb!{m8x2 8 msizex2 M 64 2}
        $cb!{m8x4 8 i8x4 I 8 4}
        $cb!{m8x4 8 u8x4 U 8 4}
        $cb!{m8x4 8 i16x4 I 16 4}
        $cb!{m8x4 8 u16x4 U 16 4}
        $cb!{m8x4 8 i32x4 I 32 4}
        $cb!{m8x4 8 u32x4 U 32 4}
        $cb!{m8x4 8 i64x4 I 64 4}
        $cb!{m8x4 8 u64x4 U 64 4}
        $cb!{m8x4 8 i128x4 I 128 4}
        $cb!{m8x4 8 u128x4 U 128 4}
        $cb!{m8x4 8 isizex4 I 64 4}
        $cb!{m8x4 8 usizex4 U 64 4}
        $cb!{m8x4 8 f32x4 F 32 4}
        $cb!{m8x4 8 f64x4 F 64 4}
        $cb!{m8x4 8 m8x4 M 8 4}
        $cb!{m8x4 8 m16x4 M 16 4}
        $cb!{m8x4 8 m32x4 M 32 4}
        $cb!{m8x4 8 m64x4 M 64 4}
        $cb!{m8x4 8 m128x4 M 128 4}
        $cb!{m8x4 8 msizex4 M 64 4}
        $cb!{m16x2 16 i8x2 I 8 2}
        $cb!{m16x2 16 u8x2 U 8 2}
        $cb!{m16x2 16 i16x2 I 16 2}
        $cb!{m16x2 16 u16x2 U 16 2}
        $cb!{m16x2 16 i32x2 I 32 2}
        $cb!{m16x2 16 u32x2 U 32 2}
        $cb!{m16x2 16 i64x2 I 64 2}
        $cb!{m16x2 16 u64x2 U 64 2}
        $cb!{m16x2 16 i128x2 I 128 2}
        $cb!{m16x2 16 u128x2 U 128 2}
        $cb!{m16x2 16 isizex2 I 64 2}
        $cb!{m16x2 16 usizex2 U 64 2}
        $cb!{m16x2 16 f32x2 F 32 2}
        $cb!{m16x2 16 f64x2 F 64 2}
        $cb!{m16x2 16 m8x2 M 8 2}
        $cb!{m16x2 16 m16x2 M 16 2}
        $cb!{m16x2 16 m32x2 M 32 2}
        $cb!{m16x2 16 m64x2 M 64 2}
        $cb!{m16x2 16 m128x2 M 128 2}
        $cb!{m16x2 16 msizex2 M 64 2}
        $cb!{m8x8 8 i8x8 I 8 8}
        $cb!{m8x8 8 u8x8 U 8 8}
        $cb!{m8x8 8 i16x8 I 16 8}
        $cb!{m8x8 8 u16x8 U 16 8}
        $cb!{m8x8 8 i32x8 I 32 8}
        $cb!{m8x8 8 u32x8 U 32 8}
        $cb!{m8x8 8 i64x8 I 64 8}
        $cb!{m8x8 8 u64x8 U 64 8}
        $cb!{m8x8 8 isizex8 I 64 8}
        $cb!{m8x8 8 usizex8 U 64 8}
        $cb!{m8x8 8 f32x8 F 32 8}
        $cb!{m8x8 8 f64x8 F 64 8}
        $cb!{m8x8 8 m8x8 M 8 8}
        $cb!{m8x8 8 m16x8 M 16 8}
        $cb!{m8x8 8 m32x8 M 32 8}
        $cb!{m8x8 8 m64x8 M 64 8}
        $cb!{m8x8 8 msizex8 M 64 8}
        $cb!{m16x4 16 i8x4 I 8 4}
        $cb!{m16x4 16 u8x4 U 8 4}
        $cb!{m16x4 16 i16x4 I 16 4}
        $cb!{m16x4 16 u16x4 U 16 4}
        $cb!{m16x4 16 i32x4 I 32 4}
        $cb!{m16x4 16 u32x4 U 32 4}
        $cb!{m16x4 16 i64x4 I 64 4}
        $cb!{m16x4 16 u64x4 U 64 4}
        $cb!{m16x4 16 i128x4 I 128 4}
        $cb!{m16x4 16 u128x4 U 128 4}
        $cb!{m16x4 16 isizex4 I 64 4}
        $cb!{m16x4 16 usizex4 U 64 4}
        $cb!{m16x4 16 f32x4 F 32 4}
        $cb!{m16x4 16 f64x4 F 64 4}
        $cb!{m16x4 16 m8x4 M 8 4}
        $cb!{m16x4 16 m16x4 M 16 4}
        $cb!{m16x4 16 m32x4 M 32 4}
        $cb!{m16x4 16 m64x4 M 64 4}
        $cb!{m16x4 16 m128x4 M 128 4}
        $cb!{m16x4 16 msizex4 M 64 4}
        $cb!{m32x2 32 i8x2 I 8 2}
        $cb!{m32x2 32 u8x2 U 8 2}
        $cb!{m32x2 32 i16x2 I 16 2}
        $cb!{m32x2 32 u16x2 U 16 2}
        $cb!{m32x2 32 i32x2 I 32 2}
        $cb!{m32x2 32 u32x2 U 32 2}
        $cb!{m32x2 32 i64x2 I 64 2}
        $cb!{m32x2 32 u64x2 U 64 2}
        $cb!{m32x2 32 i128x2 I 128 2}
        $cb!{m32x2 32 u128x2 U 128 2}
        $cb!{m32x2 32 isizex2 I 64 2}
        $cb!{m32x2 32 usizex2 U 64 2}
        $cb!{m32x2 32 f32x2 F 32 2}
        $cb!{m32x2 32 f64x2 F 64 2}
        $cb!{m32x2 32 m8x2 M 8 2}
        $cb!{m32x2 32 m16x2 M 16 2}
        $cb!{m32x2 32 m32x2 M 32 2}
        $cb!{m32x2 32 m64x2 M 64 2}
        $cb!{m32x2 32 m128x2 M 128 2}
        $cb!{m32x2 32 msizex2 M 64 2}
        $cb!{m8x16 8 i8x16 I 8 16}
        $cb!{m8x16 8 u8x16 U 8 16}
        $cb!{m8x16 8 i16x16 I 16 16}
        $cb!{m8x16 8 u16x16 U 16 16}
        $cb!{m8x16 8 i32x16 I 32 16}
        $cb!{m8x16 8 u32x16 U 32 16}
        $cb!{m8x16 8 f32x16 F 32 16}
        $cb!{m8x16 8 m8x16 M 8 16}
        $cb!{m8x16 8 m16x16 M 16 16}
        $cb!{m8x16 8 m32x16 M 32 16}
        $cb!{m16x8 16 i8x8 I 8 8}
        $cb!{m16x8 16 u8x8 U 8 8}
        $cb!{m16x8 16 i16x8 I 16 8}
        $cb!{m16x8 16 u16x8 U 16 8}
        $cb!{m16x8 16 i32x8 I 32 8}
        $cb!{m16x8 16 u32x8 U 32 8}
        $cb!{m16x8 16 i64x8 I 64 8}
        $cb!{m16x8 16 u64x8 U 64 8}
        $cb!{m16x8 16 isizex8 I 64 8}
        $cb!{m16x8 16 usizex8 U 64 8}
        $cb!{m16x8 16 f32x8 F 32 8}
        $cb!{m16x8 16 f64x8 F 64 8}
        $cb!{m16x8 16 m8x8 M 8 8}
        $cb!{m16x8 16 m16x8 M 16 8}
        $cb!{m16x8 16 m32x8 M 32 8}
        $cb!{m16x8 16 m64x8 M 64 8}
        $cb!{m16x8 16 msizex8 M 64 8}
        $cb!{m32x4 32 i8x4 I 8 4}
        $cb!{m32x4 32 u8x4 U 8 4}
        $cb!{m32x4 32 i16x4 I 16 4}
        $cb!{m32x4 32 u16x4 U 16 4}
        $cb!{m32x4 32 i32x4 I 32 4}
        $cb!{m32x4 32 u32x4 U 32 4}
        $cb!{m32x4 32 i64x4 I 64 4}
        $cb!{m32x4 32 u64x4 U 64 4}
        $cb!{m32x4 32 i128x4 I 128 4}
        $cb!{m32x4 32 u128x4 U 128 4}
        $cb!{m32x4 32 isizex4 I 64 4}
        $cb!{m32x4 32 usizex4 U 64 4}
        $cb!{m32x4 32 f32x4 F 32 4}
        $cb!{m32x4 32 f64x4 F 64 4}
        $cb!{m32x4 32 m8x4 M 8 4}
        $cb!{m32x4 32 m16x4 M 16 4}
        $cb!{m32x4 32 m32x4 M 32 4}
        $cb!{m32x4 32 m64x4 M 64 4}
        $cb!{m32x4 32 m128x4 M 128 4}
        $cb!{m32x4 32 msizex4 M 64 4}
        $cb!{m64x2 64 i8x2 I 8 2}
        $cb!{m64x2 64 u8x2 U 8 2}
        $cb!{m64x2 64 i16x2 I 16 2}
        $cb!{m64x2 64 u16x2 U 16 2}
        $cb!{m64x2 64 i32x2 I 32 2}
        $cb!{m64x2 64 u32x2 U 32 2}
        $cb!{m64x2 64 i64x2 I 64 2}
        $cb!{m64x2 64 u64x2 U 64 2}
        $cb!{m64x2 64 i128x2 I 128 2}
        $cb!{m64x2 64 u128x2 U 128 2}
        $cb!{m64x2 64 isizex2 I 64 2}
        $cb!{m64x2 64 usizex2 U 64 2}
        $cb!{m64x2 64 f32x2 F 32 2}
        $cb!{m64x2 64 f64x2 F 64 2}
        $cb!{m64x2 64 m8x2 M 8 2}
        $cb!{m64x2 64 m16x2 M 16 2}
        $cb!{m64x2 64 m32x2 M 32 2}
        $cb!{m64x2 64 m64x2 M 64 2}
        $cb!{m64x2 64 m128x2 M 128 2}
        $cb!{m64x2 64 msizex2 M 64 2}
        $cb!{m128x1 128 i128x1 I 128 1}
        $cb!{m128x1 128 u128x1 U 128 1}
        $cb!{m128x1 128 m128x1 M 128 1}
        $cb!{m8x32 8 i8x32 I 8 32}
        $cb!{m8x32 8 u8x32 U 8 32}
        $cb!{m8x32 8 i16x32 I 16 32}
        $cb!{m8x32 8 u16x32 U 16 32}
        $cb!{m8x32 8 m8x32 M 8 32}
        $cb!{m8x32 8 m16x32 M 16 32}
        $cb!{m16x16 16 i8x16 I 8 16}
        $cb!{m16x16 16 u8x16 U 8 16}
        $cb!{m16x16 16 i16x16 I 16 16}
        $cb!{m16x16 16 u16x16 U 16 16}
        $cb!{m16x16 16 i32x16 I 32 16}
        $cb!{m16x16 16 u32x16 U 32 16}
        $cb!{m16x16 16 f32x16 F 32 16}
        $cb!{m16x16 16 m8x16 M 8 16}
        $cb!{m16x16 16 m16x16 M 16 16}
        $cb!{m16x16 16 m32x16 M 32 16}
        $cb!{m32x8 32 i8x8 I 8 8}
        $cb!{m32x8 32 u8x8 U 8 8}
        $cb!{m32x8 32 i16x8 I 16 8}
        $cb!{m32x8 32 u16x8 U 16 8}
        $cb!{m32x8 32 i32x8 I 32 8}
        $cb!{m32x8 32 u32x8 U 32 8}
        $cb!{m32x8 32 i64x8 I 64 8}
        $cb!{m32x8 32 u64x8 U 64 8}
        $cb!{m32x8 32 isizex8 I 64 8}
        $cb!{m32x8 32 usizex8 U 64 8}
        $cb!{m32x8 32 f32x8 F 32 8}
        $cb!{m32x8 32 f64x8 F 64 8}
        $cb!{m32x8 32 m8x8 M 8 8}
        $cb!{m32x8 32 m16x8 M 16 8}
        $cb!{m32x8 32 m32x8 M 32 8}
        $cb!{m32x8 32 m64x8 M 64 8}
        $cb!{m32x8 32 msizex8 M 64 8}
        $cb!{m64x4 64 i8x4 I 8 4}
        $cb!{m64x4 64 u8x4 U 8 4}
        $cb!{m64x4 64 i16x4 I 16 4}
        $cb!{m64x4 64 u16x4 U 16 4}
        $cb!{m64x4 64 i32x4 I 32 4}
        $cb!{m64x4 64 u32x4 U 32 4}
        $cb!{m64x4 64 i64x4 I 64 4}
        $cb!{m64x4 64 u64x4 U 64 4}
        $cb!{m64x4 64 i128x4 I 128 4}
        $cb!{m64x4 64 u128x4 U 128 4}
        $cb!{m64x4 64 isizex4 I 64 4}
        $cb!{m64x4 64 usizex4 U 64 4}
        $cb!{m64x4 64 f32x4 F 32 4}
        $cb!{m64x4 64 f64x4 F 64 4}
        $cb!{m64x4 64 m8x4 M 8 4}
        $cb!{m64x4 64 m16x4 M 16 4}
        $cb!{m64x4 64 m32x4 M 32 4}
        $cb!{m64x4 64 m64x4 M 64 4}
        $cb!{m64x4 64 m128x4 M 128 4}
        $cb!{m64x4 64 msizex4 M 64 4}
        $cb!{m128x2 128 i8x2 I 8 2}
        $cb!{m128x2 128 u8x2 U 8 2}
        $cb!{m128x2 128 i16x2 I 16 2}
        $cb!{m128x2 128 u16x2 U 16 2}
        $cb!{m128x2 128 i32x2 I 32 2}
        $cb!{m128x2 128 u32x2 U 32 2}
        $cb!{m128x2 128 i64x2 I 64 2}
        $cb!{m128x2 128 u64x2 U 64 2}
        $cb!{m128x2 128 i128x2 I 128 2}
        $cb!{m128x2 128 u128x2 U 128 2}
        $cb!{m128x2 128 isizex2 I 64 2}
        $cb!{m128x2 128 usizex2 U 64 2}
        $cb!{m128x2 128 f32x2 F 32 2}
        $cb!{m128x2 128 f64x2 F 64 2}
        $cb!{m128x2 128 m8x2 M 8 2}
        $cb!{m128x2 128 m16x2 M 16 2}
        $cb!{m128x2 128 m32x2 M 32 2}
        $cb!{m128x2 128 m64x2 M 64 2}
        $cb!{m128x2 128 m128x2 M 128 2}
        $cb!{m128x2 128 msizex2 M 64 2}
        $cb!{m8x64 8 i8x64 I 8 64}
        $cb!{m8x64 8 u8x64 U 8 64}
        $cb!{m8x64 8 m8x64 M 8 64}
        $cb!{m16x32 16 i8x32 I 8 32}
        $cb!{m16x32 16 u8x32 U 8 32}
        $cb!{m16x32 16 i16x32 I 16 32}
        $cb!{m16x32 16 u16x32 U 16 32}
        $cb!{m16x32 16 m8x32 M 8 32}
        $cb!{m16x32 16 m16x32 M 16 32}
        $cb!{m32x16 32 i8x16 I 8 16}
        $cb!{m32x16 32 u8x16 U 8 16}
        $cb!{m32x16 32 i16x16 I 16 16}
        $cb!{m32x16 32 u16x16 U 16 16}
        $cb!{m32x16 32 i32x16 I 32 16}
        $cb!{m32x16 32 u32x16 U 32 16}
        $cb!{m32x16 32 f32x16 F 32 16}
        $cb!{m32x16 32 m8x16 M 8 16}
        $cb!{m32x16 32 m16x16 M 16 16}
        $cb!{m32x16 32 m32x16 M 32 16}
        $cb!{m64x8 64 i8x8 I 8 8}
        $cb!{m64x8 64 u8x8 U 8 8}
        $cb!{m64x8 64 i16x8 I 16 8}
        $cb!{m64x8 64 u16x8 U 16 8}
        $cb!{m64x8 64 i32x8 I 32 8}
        $cb!{m64x8 64 u32x8 U 32 8}
        $cb!{m64x8 64 i64x8 I 64 8}
        $cb!{m64x8 64 u64x8 U 64 8}
        $cb!{m64x8 64 isizex8 I 64 8}
        $cb!{m64x8 64 usizex8 U 64 8}
        $cb!{m64x8 64 f32x8 F 32 8}
        $cb!{m64x8 64 f64x8 F 64 8}
        $cb!{m64x8 64 m8x8 M 8 8}
        $cb!{m64x8 64 m16x8 M 16 8}
        $cb!{m64x8 64 m32x8 M 32 8}
        $cb!{m64x8 64 m64x8 M 64 8}
        $cb!{m64x8 64 msizex8 M 64 8}
        $cb!{m128x4 128 i8x4 I 8 4}
        $cb!{m128x4 128 u8x4 U 8 4}
        $cb!{m128x4 128 i16x4 I 16 4}
        $cb!{m128x4 128 u16x4 U 16 4}
        $cb!{m128x4 128 i32x4 I 32 4}
        $cb!{m128x4 128 u32x4 U 32 4}
        $cb!{m128x4 128 i64x4 I 64 4}
        $cb!{m128x4 128 u64x4 U 64 4}
        $cb!{m128x4 128 i128x4 I 128 4}
        $cb!{m128x4 128 u128x4 U 128 4}
        $cb!{m128x4 128 isizex4 I 64 4}
        $cb!{m128x4 128 usizex4 U 64 4}
        $cb!{m128x4 128 f32x4 F 32 4}
        $cb!{m128x4 128 f64x4 F 64 4}
        $cb!{m128x4 128 m8x4 M 8 4}
        $cb!{m128x4 128 m16x4 M 16 4}
        $cb!{m128x4 128 m32x4 M 32 4}
        $cb!{m128x4 128 m64x4 M 64 4}
        $cb!{m128x4 128 m128x4 M 128 4}
        $cb!{m128x4 128 msizex4 M 64 4}
        $cb!{msizex2 64 i8x2 I 8 2}
        $cb!{msizex2 64 u8x2 U 8 2}
        $cb!{msizex2 64 i16x2 I 16 2}
        $cb!{msizex2 64 u16x2 U 16 2}
        $cb!{msizex2 64 i32x2 I 32 2}
        $cb!{msizex2 64 u32x2 U 32 2}
        $cb!{msizex2 64 i64x2 I 64 2}
        $cb!{msizex2 64 u64x2 U 64 2}
        $cb!{msizex2 64 i128x2 I 128 2}
        $cb!{msizex2 64 u128x2 U 128 2}
        $cb!{msizex2 64 isizex2 I 64 2}
        $cb!{msizex2 64 usizex2 U 64 2}
        $cb!{msizex2 64 f32x2 F 32 2}
        $cb!{msizex2 64 f64x2 F 64 2}
        $cb!{msizex2 64 m8x2 M 8 2}
        $cb!{msizex2 64 m16x2 M 16 2}
        $cb!{msizex2 64 m32x2 M 32 2}
        $cb!{msizex2 64 m64x2 M 64 2}
        $cb!{msizex2 64 m128x2 M 128 2}
        $cb!{msizex2 64 msizex2 M 64 2}
        $cb!{msizex4 64 i8x4 I 8 4}
        $cb!{msizex4 64 u8x4 U 8 4}
        $cb!{msizex4 64 i16x4 I 16 4}
        $cb!{msizex4 64 u16x4 U 16 4}
        $cb!{msizex4 64 i32x4 I 32 4}
        $cb!{msizex4 64 u32x4 U 32 4}
        $cb!{msizex4 64 i64x4 I 64 4}
        $cb!{msizex4 64 u64x4 U 64 4}
        $cb!{msizex4 64 i128x4 I 128 4}
        $cb!{msizex4 64 u128x4 U 128 4}
        $cb!{msizex4 64 isizex4 I 64 4}
        $cb!{msizex4 64 usizex4 U 64 4}
        $cb!{msizex4 64 f32x4 F 32 4}
        $cb!{msizex4 64 f64x4 F 64 4}
        $cb!{msizex4 64 m8x4 M 8 4}
        $cb!{msizex4 64 m16x4 M 16 4}
        $cb!{msizex4 64 m32x4 M 32 4}
        $cb!{msizex4 64 m64x4 M 64 4}
        $cb!{msizex4 64 m128x4 M 128 4}
        $cb!{msizex4 64 msizex4 M 64 4}
        $cb!{msizex8 64 i8x8 I 8 8}
        $cb!{msizex8 64 u8x8 U 8 8}
        $cb!{msizex8 64 i16x8 I 16 8}
        $cb!{msizex8 64 u16x8 U 16 8}
        $cb!{msizex8 64 i32x8 I 32 8}
        $cb!{msizex8 64 u32x8 U 32 8}
        $cb!{msizex8 64 i64x8 I 64 8}
        $cb!{msizex8 64 u64x8 U 64 8}
        $cb!{msizex8 64 isizex8 I 64 8}
        $cb!{msizex8 64 usizex8 U 64 8}
        $cb!{msizex8 64 f32x8 F 32 8}
        $cb!{msizex8 64 f64x8 F 64 8}
        $cb!{msizex8 64 m8x8 M 8 8}
        $cb!{msizex8 64 m16x8 M 16 8}
        $cb!{msizex8 64 m32x8 M 32 8}
        $cb!{msizex8 64 m64x8 M 64 8}
        $cb!{msizex8 64 msizex8 M 64 8}
    };
}

#[macro_export]
macro_rules! new_call {
    (1 $v:ident, $a:expr) => { $v::new($a[0]) };
    (2 $v:ident, $a:expr) => { $v::new($a[0], $a[1]) };
    (4 $v:ident, $a:expr) => { $v::new($a[0], $a[1], $a[2], $a[3]) };
    (8 $v:ident, $a:expr) => { $v::new($a[0], $a[1], $a[2], $a[3], $a[4], $a[5], $a[6], $a[7]) };
    (16 $v:ident, $a:expr) => { $v::new($a[0], $a[1], $a[2], $a[3], $a[4], $a[5], $a[6], $a[7], $a[8], $a[9], $a[10], $a[11], $a[12], $a[13], $a[14], $a[15]) };
    (32 $v:ident, $a:expr) => { $v::new($a[0], $a[1], $a[2], $a[3], $a[4], $a[5], $a[6], $a[7], $a[8], $a[9], $a[10], $a[11], $a[12], $a[13], $a[14], $a[15], $a[16], $a[17], $a[18], $a[19], $a[20], $a[21], $a[22], $a[23], $a[24], $a[25], $a[26], $a[27], $a[28], $a[29], $a[30], $a[31]) };
    (64 $v:ident, $a:expr) => { $v::new($a[0], $a[1], $a[2], $a[3], $a[4], $a[5], $a[6], $a[7], $a[8], $a[9], $a[10], $a[11], $a[12], $a[13], $a[14], $a[15], $a[16], $a[17], $a[18], $a[19], $a[20], $a[21], $a[22], $a[23], $a[24], $a[25], $a[26], $a[27], $a[28], $a[29], $a[30], $a[31], $a[32], $a[33], $a[34], $a[35], $a[36], $a[37], $a[38], $a[39], $a[40], $a[41], $a[42], $a[43], $a[44], $a[45], $a[46], $a[47], $a[48], $a[49], $a[50], $a[51], $a[52], $a[53], $a[54], $a[55], $a[56], $a[57], $a[58], $a[59], $a[60], $a[61], $a[62], $a[63]) };
}
