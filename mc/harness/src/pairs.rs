// Generated by gen_pairs.py from the pinned commit.

#[macro_export]
macro_rules! cast_pairs {
    ($cb:ident) => {
        $cb!{i8x2 I 8 u8x2 U 8 2}
        $cb!{i8x2 I 8 m8x2 M 8 2}
        $cb!{i8x2 I 8 i16x2 I 16 2}
        $cb!{i8x2 I 8 u16x2 U 16 2}
        $cb!{i8x2 I 8 m16x2 M 16 2}
        $cb!{i8x2 I 8 i32x2 I 32 2}
        $cb!{i8x2 I 8 u32x2 U 32 2}
        $cb!{i8x2 I 8 f32x2 F 32 2}
        $cb!{i8x2 I 8 m32x2 M 32 2}
        $cb!{i8x2 I 8 i64x2 I 64 2}
        $cb!{i8x2 I 8 u64x2 U 64 2}
        $cb!{i8x2 I 8 f64x2 F 64 2}
        $cb!{i8x2 I 8 m64x2 M 64 2}
        $cb!{i8x2 I 8 i128x2 I 128 2}
        $cb!{i8x2 I 8 u128x2 U 128 2}
        $cb!{i8x2 I 8 m128x2 M 128 2}
        $cb!{i8x2 I 8 isizex2 I 64 2}
        $cb!{i8x2 I 8 usizex2 U 64 2}
        $cb!{i8x2 I 8 msizex2 M 64 2}
        $cb!{u8x2 U 8 i8x2 I 8 2}
        $cb!{u8x2 U 8 m8x2 M 8 2}
        $cb!{u8x2 U 8 i16x2 I 16 2}
        $cb!{u8x2 U 8 u16x2 U 16 2}
        $cb!{u8x2 U 8 m16x2 M 16 2}
        $cb!{u8x2 U 8 i32x2 I 32 2}
        $cb!{u8x2 U 8 u32x2 U 32 2}
        $cb!{u8x2 U 8 f32x2 F 32 2}
        $cb!{u8x2 U 8 m32x2 M 32 2}
        $cb!{u8x2 U 8 i64x2 I 64 2}
        $cb!{u8x2 U 8 u64x2 U 64 2}
        $cb!{u8x2 U 8 f64x2 F 64 2}
        $cb!{u8x2 U 8 m64x2 M 64 2}
        $cb!{u8x2 U 8 i128x2 I 128 2}
        $cb!{u8x2 U 8 u128x2 U 128 2}
        $cb!{u8x2 U 8 m128x2 M 128 2}
        $cb!{u8x2 U 8 isizex2 I 64 2}
        $cb!{u8x2 U 8 usizex2 U 64 2}
        $cb!{u8x2 U 8 msizex2 M 64 2}
        $cb!{m8x2 M 8 i8x2 I 8 2}
        $cb!{m8x2 M 8 u8x2 U 8 2}
        $cb!{m8x2 M 8 i16x2 I 16 2}
        $cb!{m8x2 M 8 u16x2 U 16 2}
        $cb!{m8x2 M 8 m16x2 M 16 2}
        $cb!{m8x2 M 8 i32x2 I 32 2}
        $cb!{m8x2 M 8 u32x2 U 32 2}
        $cb!{m8x2 M 8 f32x2 F 32 2}
        $cb!{m8x2 M 8 m32x2 M 32 2}
        $cb!{m8x2 M 8 i64x2 I 64 2}
        $cb!{m8x2 M 8 u64x2 U 64 2}
        $cb!{m8x2 M 8 f64x2 F 64 2}
        $cb!{m8x2 M 8 m64x2 M 64 2}
        $cb!{m8x2 M 8 i128x2 I 128 2}
        $cb!{m8x2 M 8 u128x2 U 128 2}
        $cb!{m8x2 M 8 m128x2 M 128 2}
        $cb!{m8x2 M 8 isizex2 I 64 2}
        $cb!{m8x2 M 8 usizex2 U 64 2}
        $cb!{m8x2 M 8 msizex2 M 64 2}
        $cb!{i8x4 I 8 u8x4 U 8 4}
        $cb!{i8x4 I 8 m8x4 M 8 4}
        $cb!{i8x4 I 8 i16x4 I 16 4}
        $cb!{i8x4 I 8 u16x4 U 16 4}
        $cb!{i8x4 I 8 m16x4 M 16 4}
        $cb!{i8x4 I 8 i32x4 I 32 4}
        $cb!{i8x4 I 8 u32x4 U 32 4}
        $cb!{i8x4 I 8 f32x4 F 32 4}
        $cb!{i8x4 I 8 m32x4 M 32 4}
        $cb!{i8x4 I 8 i64x4 I 64 4}
        $cb!{i8x4 I 8 u64x4 U 64 4}
        $cb!{i8x4 I 8 f64x4 F 64 4}
        $cb!{i8x4 I 8 m64x4 M 64 4}
        $cb!{i8x4 I 8 i128x4 I 128 4}
        $cb!{i8x4 I 8 u128x4 U 128 4}
        $cb!{i8x4 I 8 m128x4 M 128 4}
        $cb!{i8x4 I 8 isizex4 I 64 4}
        $cb!{i8x4 I 8 usizex4 U 64 4}
        $cb!{i8x4 I 8 msizex4 M 64 4}
        $cb!{u8x4 U 8 i8x4 I 8 4}
        $cb!{u8x4 U 8 m8x4 M 8 4}
        $cb!{u8x4 U 8 i16x4 I 16 4}
        $cb!{u8x4 U 8 u16x4 U 16 4}
        $cb!{u8x4 U 8 m16x4 M 16 4}
        $cb!{u8x4 U 8 i32x4 I 32 4}
        $cb!{u8x4 U 8 u32x4 U 32 4}
        $cb!{u8x4 U 8 f32x4 F 32 4}
        $cb!{u8x4 U 8 m32x4 M 32 4}
        $cb!{u8x4 U 8 i64x4 I 64 4}
        $cb!{u8x4 U 8 u64x4 U 64 4}
        $cb!{u8x4 U 8 f64x4 F 64 4}
        $cb!{u8x4 U 8 m64x4 M 64 4}
        $cb!{u8x4 U 8 i128x4 I 128 4}
        $cb!{u8x4 U 8 u128x4 U 128 4}
        $cb!{u8x4 U 8 m128x4 M 128 4}
        $cb!{u8x4 U 8 isizex4 I 64 4}
        $cb!{u8x4 U 8 usizex4 U 64 4}
        $cb!{u8x4 U 8 msizex4 M 64 4}
        $cb!{m8x4 M 8 i8x4 I 8 4}
        $cb!{m8x4 M 8 u8x4 U 8 4}
        $cb!{m8x4 M 8 i16x4 I 16 4}
        $cb!{m8x4 M 8 u16x4 U 16 4}
        $cb!{m8x4 M 8 m16x4 M 16 4}
        $cb!{m8x4 M 8 i32x4 I 32 4}
        $cb!{m8x4 M 8 u32x4 U 32 4}
        $cb!{m8x4 M 8 f32x4 F 32 4}
        $cb!{m8x4 M 8 m32x4 M 32 4}
        $cb!{m8x4 M 8 i64x4 I 64 4}
        $cb!{m8x4 M 8 u64x4 U 64 4}
        $cb!{m8x4 M 8 f64x4 F 64 4}
        $cb!{m8x4 M 8 m64x4 M 64 4}
        $cb!{m8x4 M 8 i128x4 I 128 4}
        $cb!{m8x4 M 8 u128x4 U 128 4}
        $cb!{m8x4 M 8 m128x4 M 128 4}
        $cb!{m8x4 M 8 isizex4 I 64 4}
        $cb!{m8x4 M 8 usizex4 U 64 4}
        $cb!{m8x4 M 8 msizex4 M 64 4}
        $cb!{i16x2 I 16 i8x2 I 8 2}
        $cb!{i16x2 I 16 u8x2 U 8 2}
        $cb!{i16x2 I 16 m8x2 M 8 2}
        $cb!{i16x2 I 16 u16x2 U 16 2}
        $cb!{i16x2 I 16 m16x2 M 16 2}
        $cb!{i16x2 I 16 i32x2 I 32 2}
        $cb!{i16x2 I 16 u32x2 U 32 2}
        $cb!{i16x2 I 16 f32x2 F 32 2}
        $cb!{i16x2 I 16 m32x2 M 32 2}
        $cb!{i16x2 I 16 i64x2 I 64 2}
        $cb!{i16x2 I 16 u64x2 U 64 2}
        $cb!{i16x2 I 16 f64x2 F 64 2}
        $cb!{i16x2 I 16 m64x2 M 64 2}
        $cb!{i16x2 I 16 i128x2 I 128 2}
        $cb!{i16x2 I 16 u128x2 U 128 2}
        $cb!{i16x2 I 16 m128x2 M 128 2}
        $cb!{i16x2 I 16 isizex2 I 64 2}
        $cb!{i16x2 I 16 usizex2 U 64 2}
        $cb!{i16x2 I 16 msizex2 M 64 2}
        $cb!{u16x2 U 16 i8x2 I 8 2}
        $cb!{u16x2 U 16 u8x2 U 8 2}
        $cb!{u16x2 U 16 m8x2 M 8 2}
        $cb!{u16x2 U 16 i16x2 I 16 2}
        $cb!{u16x2 U 16 m16x2 M 16 2}
        $cb!{u16x2 U 16 i32x2 I 32 2}
        $cb!{u16x2 U 16 u32x2 U 32 2}
        $cb!{u16x2 U 16 f32x2 F 32 2}
        $cb!{u16x2 U 16 m32x2 M 32 2}
        $cb!{u16x2 U 16 i64x2 I 64 2}
        $cb!{u16x2 U 16 u64x2 U 64 2}
        $cb!{u16x2 U 16 f64x2 F 64 2}
        $cb!{u16x2 U 16 m64x2 M 64 2}
        $cb!{u16x2 U 16 i128x2 I 128 2}
        $cb!{u16x2 U 16 u128x2 U 128 2}
        $cb!{u16x2 U 16 m128x2 M 128 2}
        $cb!{u16x2 U 16 isizex2 I 64 2}
        $cb!{u16x2 U 16 usizex2 U 64 2}
        $cb!{u16x2 U 16 msizex2 M 64 2}
        $cb!{m16x2 M 16 i8x2 I 8 2}
        $cb!{m16x2 M 16 u8x2 U 8 2}
        $cb!{m16x2 M 16 m8x2 M 8 2}
        $cb!{m16x2 M 16 i16x2 I 16 2}
        $cb!{m16x2 M 16 u16x2 U 16 2}
        $cb!{m16x2 M 16 i32x2 I 32 2}
        $cb!{m16x2 M 16 u32x2 U 32 2}
        $cb!{m16x2 M 16 f32x2 F 32 2}
        $cb!{m16x2 M 16 m32x2 M 32 2}
        $cb!{m16x2 M 16 i64x2 I 64 2}
        $cb!{m16x2 M 16 u64x2 U 64 2}
        $cb!{m16x2 M 16 f64x2 F 64 2}
        $cb!{m16x2 M 16 m64x2 M 64 2}
        $cb!{m16x2 M 16 i128x2 I 128 2}
        $cb!{m16x2 M 16 u128x2 U 128 2}
        $cb!{m16x2 M 16 m128x2 M 128 2}
        $cb!{m16x2 M 16 isizex2 I 64 2}
        $cb!{m16x2 M 16 usizex2 U 64 2}
        $cb!{m16x2 M 16 msizex2 M 64 2}
        $cb!{i8x8 I 8 u8x8 U 8 8}
        $cb!{i8x8 I 8 m8x8 M 8 8}
        $cb!{i8x8 I 8 i16x8 I 16 8}
        $cb!{i8x8 I 8 u16x8 U 16 8}
        $cb!{i8x8 I 8 m16x8 M 16 8}
        $cb!{i8x8 I 8 i32x8 I 32 8}
        $cb!{i8x8 I 8 u32x8 U 32 8}
        $cb!{i8x8 I 8 f32x8 F 32 8}
        $cb!{i8x8 I 8 m32x8 M 32 8}
        $cb!{i8x8 I 8 i64x8 I 64 8}
        $cb!{i8x8 I 8 u64x8 U 64 8}
        $cb!{i8x8 I 8 f64x8 F 64 8}
        $cb!{i8x8 I 8 m64x8 M 64 8}
        $cb!{i8x8 I 8 isizex8 I 64 8}
        $cb!{i8x8 I 8 usizex8 U 64 8}
        $cb!{i8x8 I 8 msizex8 M 64 8}
        $cb!{u8x8 U 8 i8x8 I 8 8}
        $cb!{u8x8 U 8 m8x8 M 8 8}
        $cb!{u8x8 U 8 i16x8 I 16 8}
        $cb!{u8x8 U 8 u16x8 U 16 8}
        $cb!{u8x8 U 8 m16x8 M 16 8}
        $cb!{u8x8 U 8 i32x8 I 32 8}
        $cb!{u8x8 U 8 u32x8 U 32 8}
        $cb!{u8x8 U 8 f32x8 F 32 8}
        $cb!{u8x8 U 8 m32x8 M 32 8}
        $cb!{u8x8 U 8 i64x8 I 64 8}
        $cb!{u8x8 U 8 u64x8 U 64 8}
        $cb!{u8x8 U 8 f64x8 F 64 8}
        $cb!{u8x8 U 8 m64x8 M 64 8}
        $cb!{u8x8 U 8 isizex8 I 64 8}
        $cb!{u8x8 U 8 usizex8 U 64 8}
        $cb!{u8x8 U 8 msizex8 M 64 8}
        $cb!{m8x8 M 8 i8x8 I 8 8}
        $cb!{m8x8 M 8 u8x8 U 8 8}
        $cb!{m8x8 M 8 i16x8 I 16 8}
        $cb!{m8x8 M 8 u16x8 U 16 8}
        $cb!{m8x8 M 8 m16x8 M 16 8}
        $cb!{m8x8 M 8 i32x8 I 32 8}
        $cb!{m8x8 M 8 u32x8 U 32 8}
        $cb!{m8x8 M 8 f32x8 F 32 8}
        $cb!{m8x8 M 8 m32x8 M 32 8}
        $cb!{m8x8 M 8 i64x8 I 64 8}
        $cb!{m8x8 M 8 u64x8 U 64 8}
        $cb!{m8x8 M 8 f64x8 F 64 8}
        $cb!{m8x8 M 8 m64x8 M 64 8}
        $cb!{m8x8 M 8 isizex8 I 64 8}
        $cb!{m8x8 M 8 usizex8 U 64 8}
        $cb!{m8x8 M 8 msizex8 M 64 8}
        $cb!{i16x4 I 16 i8x4 I 8 4}
        $cb!{i16x4 I 16 u8x4 U 8 4}
        $cb!{i16x4 I 16 m8x4 M 8 4}
        $cb!{i16x4 I 16 u16x4 U 16 4}
        $cb!{i16x4 I 16 m16x4 M 16 4}
        $cb!{i16x4 I 16 i32x4 I 32 4}
        $cb!{i16x4 I 16 u32x4 U 32 4}
        $cb!{i16x4 I 16 f32x4 F 32 4}
        $cb!{i16x4 I 16 m32x4 M 32 4}
        $cb!{i16x4 I 16 i64x4 I 64 4}
        $cb!{i16x4 I 16 u64x4 U 64 4}
        $cb!{i16x4 I 16 f64x4 F 64 4}
        $cb!{i16x4 I 16 m64x4 M 64 4}
        $cb!{i16x4 I 16 i128x4 I 128 4}
        $cb!{i16x4 I 16 u128x4 U 128 4}
        $cb!{i16x4 I 16 m128x4 M 128 4}
        $cb!{i16x4 I 16 isizex4 I 64 4}
        $cb!{i16x4 I 16 usizex4 U 64 4}
        $cb!{i16x4 I 16 msizex4 M 64 4}
        $cb!{u16x4 U 16 i8x4 I 8 4}
        $cb!{u16x4 U 16 u8x4 U 8 4}
        $cb!{u16x4 U 16 m8x4 M 8 4}
        $cb!{u16x4 U 16 i16x4 I 16 4}
        $cb!{u16x4 U 16 m16x4 M 16 4}
        $cb!{u16x4 U 16 i32x4 I 32 4}
        $cb!{u16x4 U 16 u32x4 U 32 4}
        $cb!{u16x4 U 16 f32x4 F 32 4}
        $cb!{u16x4 U 16 m32x4 M 32 4}
        $cb!{u16x4 U 16 i64x4 I 64 4}
        $cb!{u16x4 U 16 u64x4 U 64 4}
        $cb!{u16x4 U 16 f64x4 F 64 4}
        $cb!{u16x4 U 16 m64x4 M 64 4}
        $cb!{u16x4 U 16 i128x4 I 128 4}
        $cb!{u16x4 U 16 u128x4 U 128 4}
        $cb!{u16x4 U 16 m128x4 M 128 4}
        $cb!{u16x4 U 16 isizex4 I 64 4}
        $cb!{u16x4 U 16 usizex4 U 64 4}
        $cb!{u16x4 U 16 msizex4 M 64 4}
        $cb!{m16x4 M 16 i8x4 I 8 4}
        $cb!{m16x4 M 16 u8x4 U 8 4}
        $cb!{m16x4 M 16 m8x4 M 8 4}
        $cb!{m16x4 M 16 i16x4 I 16 4}
        $cb!{m16x4 M 16 u16x4 U 16 4}
        $cb!{m16x4 M 16 i32x4 I 32 4}
        $cb!{m16x4 M 16 u32x4 U 32 4}
        $cb!{m16x4 M 16 f32x4 F 32 4}
        $cb!{m16x4 M 16 m32x4 M 32 4}
        $cb!{m16x4 M 16 i64x4 I 64 4}
        $cb!{m16x4 M 16 u64x4 U 64 4}
        $cb!{m16x4 M 16 f64x4 F 64 4}
        $cb!{m16x4 M 16 m64x4 M 64 4}
        $cb!{m16x4 M 16 i128x4 I 128 4}
        $cb!{m16x4 M 16 u128x4 U 128 4}
        $cb!{m16x4 M 16 m128x4 M 128 4}
        $cb!{m16x4 M 16 isizex4 I 64 4}
        $cb!{m16x4 M 16 usizex4 U 64 4}
        $cb!{m16x4 M 16 msizex4 M 64 4}
        $cb!{i32x2 I 32 i8x2 I 8 2}
        $cb!{i32x2 I 32 u8x2 U 8 2}
        $cb!{i32x2 I 32 m8x2 M 8 2}
        $cb!{i32x2 I 32 i16x2 I 16 2}
        $cb!{i32x2 I 32 u16x2 U 16 2}
        $cb!{i32x2 I 32 m16x2 M 16 2}
        $cb!{i32x2 I 32 u32x2 U 32 2}
        $cb!{i32x2 I 32 f32x2 F 32 2}
        $cb!{i32x2 I 32 m32x2 M 32 2}
        $cb!{i32x2 I 32 i64x2 I 64 2}
        $cb!{i32x2 I 32 u64x2 U 64 2}
        $cb!{i32x2 I 32 f64x2 F 64 2}
        $cb!{i32x2 I 32 m64x2 M 64 2}
        $cb!{i32x2 I 32 i128x2 I 128 2}
        $cb!{i32x2 I 32 u128x2 U 128 2}
        $cb!{i32x2 I 32 m128x2 M 128 2}
        $cb!{i32x2 I 32 isizex2 I 64 2}
        $cb!{i32x2 I 32 usizex2 U 64 2}
        $cb!{i32x2 I 32 msizex2 M 64 2}
        $cb!{u32x2 U 32 i8x2 I 8 2}
        $cb!{u32x2 U 32 u8x2 U 8 2}
        $cb!{u32x2 U 32 m8x2 M 8 2}
        $cb!{u32x2 U 32 i16x2 I 16 2}
        $cb!{u32x2 U 32 u16x2 U 16 2}
        $cb!{u32x2 U 32 m16x2 M 16 2}
        $cb!{u32x2 U 32 i32x2 I 32 2}
        $cb!{u32x2 U 32 f32x2 F 32 2}
        $cb!{u32x2 U 32 m32x2 M 32 2}
        $cb!{u32x2 U 32 i64x2 I 64 2}
        $cb!{u32x2 U 32 u64x2 U 64 2}
        $cb!{u32x2 U 32 f64x2 F 64 2}
        $cb!{u32x2 U 32 m64x2 M 64 2}
        $cb!{u32x2 U 32 i128x2 I 128 2}
        $cb!{u32x2 U 32 u128x2 U 128 2}
        $cb!{u32x2 U 32 m128x2 M 128 2}
        $cb!{u32x2 U 32 isizex2 I 64 2}
        $cb!{u32x2 U 32 usizex2 U 64 2}
        $cb!{u32x2 U 32 msizex2 M 64 2}
        $cb!{f32x2 F 32 i8x2 I 8 2}
        $cb!{f32x2 F 32 u8x2 U 8 2}
        $cb!{f32x2 F 32 m8x2 M 8 2}
        $cb!{f32x2 F 32 i16x2 I 16 2}
        $cb!{f32x2 F 32 u16x2 U 16 2}
        $cb!{f32x2 F 32 m16x2 M 16 2}
        $cb!{f32x2 F 32 i32x2 I 32 2}
        $cb!{f32x2 F 32 u32x2 U 32 2}
        $cb!{f32x2 F 32 m32x2 M 32 2}
        $cb!{f32x2 F 32 i64x2 I 64 2}
        $cb!{f32x2 F 32 u64x2 U 64 2}
        $cb!{f32x2 F 32 f64x2 F 64 2}
        $cb!{f32x2 F 32 m64x2 M 64 2}
        $cb!{f32x2 F 32 i128x2 I 128 2}
        $cb!{f32x2 F 32 u128x2 U 128 2}
        $cb!{f32x2 F 32 m128x2 M 128 2}
        $cb!{f32x2 F 32 isizex2 I 64 2}
        $cb!{f32x2 F 32 usizex2 U 64 2}
        $cb!{f32x2 F 32 msizex2 M 64 2}
        $cb!{m32x2 M 32 i8x2 I 8 2}
        $cb!{m32x2 M 32 u8x2 U 8 2}
        $cb!{m32x2 M 32 m8x2 M 8 2}
        $cb!{m32x2 M 32 i16x2 I 16 2}
        $cb!{m32x2 M 32 u16x2 U 16 2}
        $cb!{m32x2 M 32 m16x2 M 16 2}
        $cb!{m32x2 M 32 i32x2 I 32 2}
        $cb!{m32x2 M 32 u32x2 U 32 2}
        $cb!{m32x2 M 32 f32x2 F 32 2}
        $cb!{m32x2 M 32 i64x2 I 64 2}
        $cb!{m32x2 M 32 u64x2 U 64 2}
        $cb!{m32x2 M 32 f64x2 F 64 2}
        $cb!{m32x2 M 32 m64x2 M 64 2}
        $cb!{m32x2 M 32 i128x2 I 128 2}
        $cb!{m32x2 M 32 u128x2 U 128 2}
        $cb!{m32x2 M 32 m128x2 M 128 2}
        $cb!{m32x2 M 32 isizex2 I 64 2}
        $cb!{m32x2 M 32 usizex2 U 64 2}
        $cb!{m32x2 M 32 msizex2 M 64 2}
        $cb!{i8x16 I 8 u8x16 U 8 16}
        $cb!{i8x16 I 8 m8x16 M 8 16}
        $cb!{i8x16 I 8 i16x16 I 16 16}
        $cb!{i8x16 I 8 u16x16 U 16 16}
        $cb!{i8x16 I 8 m16x16 M 16 16}
        $cb!{i8x16 I 8 i32x16 I 32 16}
        $cb!{i8x16 I 8 u32x16 U 32 16}
        $cb!{i8x16 I 8 f32x16 F 32 16}
        $cb!{i8x16 I 8 m32x16 M 32 16}
        $cb!{u8x16 U 8 i8x16 I 8 16}
        $cb!{u8x16 U 8 m8x16 M 8 16}
        $cb!{u8x16 U 8 i16x16 I 16 16}
        $cb!{u8x16 U 8 u16x16 U 16 16}
        $cb!{u8x16 U 8 m16x16 M 16 16}
        $cb!{u8x16 U 8 i32x16 I 32 16}
        $cb!{u8x16 U 8 u32x16 U 32 16}
        $cb!{u8x16 U 8 f32x16 F 32 16}
        $cb!{u8x16 U 8 m32x16 M 32 16}
        $cb!{m8x16 M 8 i8x16 I 8 16}
        $cb!{m8x16 M 8 u8x16 U 8 16}
        $cb!{m8x16 M 8 i16x16 I 16 16}
        $cb!{m8x16 M 8 u16x16 U 16 16}
        $cb!{m8x16 M 8 m16x16 M 16 16}
        $cb!{m8x16 M 8 i32x16 I 32 16}
        $cb!{m8x16 M 8 u32x16 U 32 16}
        $cb!{m8x16 M 8 f32x16 F 32 16}
        $cb!{m8x16 M 8 m32x16 M 32 16}
        $cb!{i16x8 I 16 i8x8 I 8 8}
        $cb!{i16x8 I 16 u8x8 U 8 8}
        $cb!{i16x8 I 16 m8x8 M 8 8}
        $cb!{i16x8 I 16 u16x8 U 16 8}
        $cb!{i16x8 I 16 m16x8 M 16 8}
        $cb!{i16x8 I 16 i32x8 I 32 8}
        $cb!{i16x8 I 16 u32x8 U 32 8}
        $cb!{i16x8 I 16 f32x8 F 32 8}
        $cb!{i16x8 I 16 m32x8 M 32 8}
        $cb!{i16x8 I 16 i64x8 I 64 8}
        $cb!{i16x8 I 16 u64x8 U 64 8}
        $cb!{i16x8 I 16 f64x8 F 64 8}
        $cb!{i16x8 I 16 m64x8 M 64 8}
        $cb!{i16x8 I 16 isizex8 I 64 8}
        $cb!{i16x8 I 16 usizex8 U 64 8}
        $cb!{i16x8 I 16 msizex8 M 64 8}
        $cb!{u16x8 U 16 i8x8 I 8 8}
        $cb!{u16x8 U 16 u8x8 U 8 8}
        $cb!{u16x8 U 16 m8x8 M 8 8}
        $cb!{u16x8 U 16 i16x8 I 16 8}
        $cb!{u16x8 U 16 m16x8 M 16 8}
        $cb!{u16x8 U 16 i32x8 I 32 8}
        $cb!{u16x8 U 16 u32x8 U 32 8}
        $cb!{u16x8 U 16 f32x8 F 32 8}
        $cb!{u16x8 U 16 m32x8 M 32 8}
        $cb!{u16x8 U 16 i64x8 I 64 8}
        $cb!{u16x8 U 16 u64x8 U 64 8}
        $cb!{u16x8 U 16 f64x8 F 64 8}
        $cb!{u16x8 U 16 m64x8 M 64 8}
        $cb!{u16x8 U 16 isizex8 I 64 8}
        $cb!{u16x8 U 16 usizex8 U 64 8}
        $cb!{u16x8 U 16 msizex8 M 64 8}
        $cb!{m16x8 M 16 i8x8 I 8 8}
        $cb!{m16x8 M 16 u8x8 U 8 8}
        $cb!{m16x8 M 16 m8x8 M 8 8}
        $cb!{m16x8 M 16 i16x8 I 16 8}
        $cb!{m16x8 M 16 u16x8 U 16 8}
        $cb!{m16x8 M 16 i32x8 I 32 8}
        $cb!{m16x8 M 16 u32x8 U 32 8}
        $cb!{m16x8 M 16 f32x8 F 32 8}
        $cb!{m16x8 M 16 m32x8 M 32 8}
        $cb!{m16x8 M 16 i64x8 I 64 8}
        $cb!{m16x8 M 16 u64x8 U 64 8}
        $cb!{m16x8 M 16 f64x8 F 64 8}
        $cb!{m16x8 M 16 m64x8 M 64 8}
        $cb!{m16x8 M 16 isizex8 I 64 8}
        $cb!{m16x8 M 16 usizex8 U 64 8}
        $cb!{m16x8 M 16 msizex8 M 64 8}
        $cb!{i32x4 I 32 i8x4 I 8 4}
        $cb!{i32x4 I 32 u8x4 U 8 4}
        $cb!{i32x4 I 32 m8x4 M 8 4}
        $cb!{i32x4 I 32 i16x4 I 16 4}
        $cb!{i32x4 I 32 u16x4 U 16 4}
        $cb!{i32x4 I 32 m16x4 M 16 4}
        $cb!{i32x4 I 32 u32x4 U 32 4}
        $cb!{i32x4 I 32 f32x4 F 32 4}
        $cb!{i32x4 I 32 m32x4 M 32 4}
        $cb!{i32x4 I 32 i64x4 I 64 4}
        $cb!{i32x4 I 32 u64x4 U 64 4}
        $cb!{i32x4 I 32 f64x4 F 64 4}
        $cb!{i32x4 I 32 m64x4 M 64 4}
        $cb!{i32x4 I 32 i128x4 I 128 4}
        $cb!{i32x4 I 32 u128x4 U 128 4}
        $cb!{i32x4 I 32 m128x4 M 128 4}
        $cb!{i32x4 I 32 isizex4 I 64 4}
        $cb!{i32x4 I 32 usizex4 U 64 4}
        $cb!{i32x4 I 32 msizex4 M 64 4}
        $cb!{u32x4 U 32 i8x4 I 8 4}
        $cb!{u32x4 U 32 u8x4 U 8 4}
        $cb!{u32x4 U 32 m8x4 M 8 4}
        $cb!{u32x4 U 32 i16x4 I 16 4}
        $cb!{u32x4 U 32 u16x4 U 16 4}
        $cb!{u32x4 U 32 m16x4 M 16 4}
        $cb!{u32x4 U 32 i32x4 I 32 4}
        $cb!{u32x4 U 32 f32x4 F 32 4}
        $cb!{u32x4 U 32 m32x4 M 32 4}
        $cb!{u32x4 U 32 i64x4 I 64 4}
        $cb!{u32x4 U 32 u64x4 U 64 4}
        $cb!{u32x4 U 32 f64x4 F 64 4}
        $cb!{u32x4 U 32 m64x4 M 64 4}
        $cb!{u32x4 U 32 i128x4 I 128 4}
        $cb!{u32x4 U 32 u128x4 U 128 4}
        $cb!{u32x4 U 32 m128x4 M 128 4}
        $cb!{u32x4 U 32 isizex4 I 64 4}
        $cb!{u32x4 U 32 usizex4 U 64 4}
        $cb!{u32x4 U 32 msizex4 M 64 4}
        $cb!{f32x4 F 32 i8x4 I 8 4}
        $cb!{f32x4 F 32 u8x4 U 8 4}
        $cb!{f32x4 F 32 m8x4 M 8 4}
        $cb!{f32x4 F 32 i16x4 I 16 4}
        $cb!{f32x4 F 32 u16x4 U 16 4}
        $cb!{f32x4 F 32 m16x4 M 16 4}
        $cb!{f32x4 F 32 i32x4 I 32 4}
        $cb!{f32x4 F 32 u32x4 U 32 4}
        $cb!{f32x4 F 32 m32x4 M 32 4}
        $cb!{f32x4 F 32 i64x4 I 64 4}
        $cb!{f32x4 F 32 u64x4 U 64 4}
        $cb!{f32x4 F 32 f64x4 F 64 4}
        $cb!{f32x4 F 32 m64x4 M 64 4}
        $cb!{f32x4 F 32 i128x4 I 128 4}
        $cb!{f32x4 F 32 u128x4 U 128 4}
        $cb!{f32x4 F 32 m128x4 M 128 4}
        $cb!{f32x4 F 32 isizex4 I 64 4}
        $cb!{f32x4 F 32 usizex4 U 64 4}
        $cb!{f32x4 F 32 msizex4 M 64 4}
        $cb!{m32x4 M 32 i8x4 I 8 4}
        $cb!{m32x4 M 32 u8x4 U 8 4}
        $cb!{m32x4 M 32 m8x4 M 8 4}
        $cb!{m32x4 M 32 i16x4 I 16 4}
        $cb!{m32x4 M 32 u16x4 U 16 4}
        $cb!{m32x4 M 32 m16x4 M 16 4}
        $cb!{m32x4 M 32 i32x4 I 32 4}
        $cb!{m32x4 M 32 u32x4 U 32 4}
        $cb!{m32x4 M 32 f32x4 F 32 4}
        $cb!{m32x4 M 32 i64x4 I 64 4}
        $cb!{m32x4 M 32 u64x4 U 64 4}
        $cb!{m32x4 M 32 f64x4 F 64 4}
        $cb!{m32x4 M 32 m64x4 M 64 4}
        $cb!{m32x4 M 32 i128x4 I 128 4}
        $cb!{m32x4 M 32 u128x4 U 128 4}
        $cb!{m32x4 M 32 m128x4 M 128 4}
        $cb!{m32x4 M 32 isizex4 I 64 4}
        $cb!{m32x4 M 32 usizex4 U 64 4}
        $cb!{m32x4 M 32 msizex4 M 64 4}
        $cb!{i64x2 I 64 i8x2 I 8 2}
        $cb!{i64x2 I 64 u8x2 U 8 2}
        $cb!{i64x2 I 64 m8x2 M 8 2}
        $cb!{i64x2 I 64 i16x2 I 16 2}
        $cb!{i64x2 I 64 u16x2 U 16 2}
        $cb!{i64x2 I 64 m16x2 M 16 2}
        $cb!{i64x2 I 64 i32x2 I 32 2}
        $cb!{i64x2 I 64 u32x2 U 32 2}
        $cb!{i64x2 I 64 f32x2 F 32 2}
        $cb!{i64x2 I 64 m32x2 M 32 2}
        $cb!{i64x2 I 64 u64x2 U 64 2}
        $cb!{i64x2 I 64 f64x2 F 64 2}
        $cb!{i64x2 I 64 m64x2 M 64 2}
        $cb!{i64x2 I 64 i128x2 I 128 2}
        $cb!{i64x2 I 64 u128x2 U 128 2}
        $cb!{i64x2 I 64 m128x2 M 128 2}
        $cb!{i64x2 I 64 isizex2 I 64 2}
        $cb!{i64x2 I 64 usizex2 U 64 2}
        $cb!{i64x2 I 64 msizex2 M 64 2}
        $cb!{u64x2 U 64 i8x2 I 8 2}
        $cb!{u64x2 U 64 u8x2 U 8 2}
        $cb!{u64x2 U 64 m8x2 M 8 2}
        $cb!{u64x2 U 64 i16x2 I 16 2}
        $cb!{u64x2 U 64 u16x2 U 16 2}
        $cb!{u64x2 U 64 m16x2 M 16 2}
        $cb!{u64x2 U 64 i32x2 I 32 2}
        $cb!{u64x2 U 64 u32x2 U 32 2}
        $cb!{u64x2 U 64 f32x2 F 32 2}
        $cb!{u64x2 U 64 m32x2 M 32 2}
        $cb!{u64x2 U 64 i64x2 I 64 2}
        $cb!{u64x2 U 64 f64x2 F 64 2}
        $cb!{u64x2 U 64 m64x2 M 64 2}
        $cb!{u64x2 U 64 i128x2 I 128 2}
        $cb!{u64x2 U 64 u128x2 U 128 2}
        $cb!{u64x2 U 64 m128x2 M 128 2}
        $cb!{u64x2 U 64 isizex2 I 64 2}
        $cb!{u64x2 U 64 usizex2 U 64 2}
        $cb!{u64x2 U 64 msizex2 M 64 2}
        $cb!{f64x2 F 64 i8x2 I 8 2}
        $cb!{f64x2 F 64 u8x2 U 8 2}
        $cb!{f64x2 F 64 m8x2 M 8 2}
        $cb!{f64x2 F 64 i16x2 I 16 2}
        $cb!{f64x2 F 64 u16x2 U 16 2}
        $cb!{f64x2 F 64 m16x2 M 16 2}
        $cb!{f64x2 F 64 i32x2 I 32 2}
        $cb!{f64x2 F 64 u32x2 U 32 2}
        $cb!{f64x2 F 64 f32x2 F 32 2}
        $cb!{f64x2 F 64 m32x2 M 32 2}
        $cb!{f64x2 F 64 i64x2 I 64 2}
        $cb!{f64x2 F 64 u64x2 U 64 2}
        $cb!{f64x2 F 64 m64x2 M 64 2}
        $cb!{f64x2 F 64 i128x2 I 128 2}
        $cb!{f64x2 F 64 u128x2 U 128 2}
        $cb!{f64x2 F 64 m128x2 M 128 2}
        $cb!{f64x2 F 64 isizex2 I 64 2}
        $cb!{f64x2 F 64 usizex2 U 64 2}
        $cb!{f64x2 F 64 msizex2 M 64 2}
        $cb!{m64x2 M 64 i8x2 I 8 2}
        $cb!{m64x2 M 64 u8x2 U 8 2}
        $cb!{m64x2 M 64 m8x2 M 8 2}
        $cb!{m64x2 M 64 i16x2 I 16 2}
        $cb!{m64x2 M 64 u16x2 U 16 2}
        $cb!{m64x2 M 64 m16x2 M 16 2}
        $cb!{m64x2 M 64 i32x2 I 32 2}
        $cb!{m64x2 M 64 u32x2 U 32 2}
        $cb!{m64x2 M 64 f32x2 F 32 2}
        $cb!{m64x2 M 64 m32x2 M 32 2}
        $cb!{m64x2 M 64 i64x2 I 64 2}
        $cb!{m64x2 M 64 u64x2 U 64 2}
        $cb!{m64x2 M 64 f64x2 F 64 2}
        $cb!{m64x2 M 64 i128x2 I 128 2}
        $cb!{m64x2 M 64 u128x2 U 128 2}
        $cb!{m64x2 M 64 m128x2 M 128 2}
        $cb!{m64x2 M 64 isizex2 I 64 2}
        $cb!{m64x2 M 64 usizex2 U 64 2}
        $cb!{m64x2 M 64 msizex2 M 64 2}
        $cb!{isizex2 I 64 i8x2 I 8 2}
        $cb!{isizex2 I 64 u8x2 U 8 2}
        $cb!{isizex2 I 64 m8x2 M 8 2}
        $cb!{isizex2 I 64 i16x2 I 16 2}
        $cb!{isizex2 I 64 u16x2 U 16 2}
        $cb!{isizex2 I 64 m16x2 M 16 2}
        $cb!{isizex2 I 64 i32x2 I 32 2}
        $cb!{isizex2 I 64 u32x2 U 32 2}
        $cb!{isizex2 I 64 f32x2 F 32 2}
        $cb!{isizex2 I 64 m32x2 M 32 2}
        $cb!{isizex2 I 64 i64x2 I 64 2}
        $cb!{isizex2 I 64 u64x2 U 64 2}
        $cb!{isizex2 I 64 f64x2 F 64 2}
        $cb!{isizex2 I 64 m64x2 M 64 2}
        $cb!{isizex2 I 64 i128x2 I 128 2}
        $cb!{isizex2 I 64 u128x2 U 128 2}
        $cb!{isizex2 I 64 m128x2 M 128 2}
        $cb!{isizex2 I 64 usizex2 U 64 2}
        $cb!{isizex2 I 64 msizex2 M 64 2}
        $cb!{usizex2 U 64 i8x2 I 8 2}
        $cb!{usizex2 U 64 u8x2 U 8 2}
        $cb!{usizex2 U 64 m8x2 M 8 2}
        $cb!{usizex2 U 64 i16x2 I 16 2}
        $cb!{usizex2 U 64 u16x2 U 16 2}
        $cb!{usizex2 U 64 m16x2 M 16 2}
        $cb!{usizex2 U 64 i32x2 I 32 2}
        $cb!{usizex2 U 64 u32x2 U 32 2}
        $cb!{usizex2 U 64 f32x2 F 32 2}
        $cb!{usizex2 U 64 m32x2 M 32 2}
        $cb!{usizex2 U 64 i64x2 I 64 2}
        $cb!{usizex2 U 64 u64x2 U 64 2}
        $cb!{usizex2 U 64 f64x2 F 64 2}
        $cb!{usizex2 U 64 m64x2 M 64 2}
        $cb!{usizex2 U 64 i128x2 I 128 2}
        $cb!{usizex2 U 64 u128x2 U 128 2}
        $cb!{usizex2 U 64 m128x2 M 128 2}
        $cb!{usizex2 U 64 isizex2 I 64 2}
        $cb!{usizex2 U 64 msizex2 M 64 2}
        $cb!{msizex2 M 64 i8x2 I 8 2}
        $cb!{msizex2 M 64 u8x2 U 8 2}
        $cb!{msizex2 M 64 m8x2 M 8 2}
        $cb!{msizex2 M 64 i16x2 I 16 2}
        $cb!{msizex2 M 64 u16x2 U 16 2}
        $cb!{msizex2 M 64 m16x2 M 16 2}
        $cb!{msizex2 M 64 i32x2 I 32 2}
        $cb!{msizex2 M 64 u32x2 U 32 2}
        $cb!{msizex2 M 64 f32x2 F 32 2}
        $cb!{msizex2 M 64 m32x2 M 32 2}
        $cb!{msizex2 M 64 i64x2 I 64 2}
        $cb!{msizex2 M 64 u64x2 U 64 2}
        $cb!{msizex2 M 64 f64x2 F 64 2}
        $cb!{msizex2 M 64 m64x2 M 64 2}
        $cb!{msizex2 M 64 i128x2 I 128 2}
        $cb!{msizex2 M 64 u128x2 U 128 2}
        $cb!{msizex2 M 64 m128x2 M 128 2}
        $cb!{msizex2 M 64 isizex2 I 64 2}
        $cb!{msizex2 M 64 usizex2 U 64 2}
        $cb!{i128x1 I 128 u128x1 U 128 1}
        $cb!{i128x1 I 128 m128x1 M 128 1}
        $cb!{u128x1 U 128 i128x1 I 128 1}
        $cb!{u128x1 U 128 m128x1 M 128 1}
        $cb!{m128x1 M 128 i128x1 I 128 1}
        $cb!{m128x1 M 128 u128x1 U 128 1}
        $cb!{i8x32 I 8 u8x32 U 8 32}
        $cb!{i8x32 I 8 m8x32 M 8 32}
        $cb!{i8x32 I 8 i16x32 I 16 32}
        $cb!{i8x32 I 8 u16x32 U 16 32}
        $cb!{i8x32 I 8 m16x32 M 16 32}
        $cb!{u8x32 U 8 i8x32 I 8 32}
        $cb!{u8x32 U 8 m8x32 M 8 32}
        $cb!{u8x32 U 8 i16x32 I 16 32}
        $cb!{u8x32 U 8 u16x32 U 16 32}
        $cb!{u8x32 U 8 m16x32 M 16 32}
        $cb!{m8x32 M 8 i8x32 I 8 32}
        $cb!{m8x32 M 8 u8x32 U 8 32}
        $cb!{m8x32 M 8 i16x32 I 16 32}
        $cb!{m8x32 M 8 u16x32 U 16 32}
        $cb!{m8x32 M 8 m16x32 M 16 32}
        $cb!{i16x16 I 16 i8x16 I 8 16}
        $cb!{i16x16 I 16 u8x16 U 8 16}
        $cb!{i16x16 I 16 m8x16 M 8 16}
        $cb!{i16x16 I 16 u16x16 U 16 16}
        $cb!{i16x16 I 16 m16x16 M 16 16}
        $cb!{i16x16 I 16 i32x16 I 32 16}
        $cb!{i16x16 I 16 u32x16 U 32 16}
        $cb!{i16x16 I 16 f32x16 F 32 16}
        $cb!{i16x16 I 16 m32x16 M 32 16}
        $cb!{u16x16 U 16 i8x16 I 8 16}
        $cb!{u16x16 U 16 u8x16 U 8 16}
        $cb!{u16x16 U 16 m8x16 M 8 16}
        $cb!{u16x16 U 16 i16x16 I 16 16}
        $cb!{u16x16 U 16 m16x16 M 16 16}
        $cb!{u16x16 U 16 i32x16 I 32 16}
        $cb!{u16x16 U 16 u32x16 U 32 16}
        $cb!{u16x16 U 16 f32x16 F 32 16}
        $cb!{u16x16 U 16 m32x16 M 32 16}
        $cb!{m16x16 M 16 i8x16 I 8 16}
        $cb!{m16x16 M 16 u8x16 U 8 16}
        $cb!{m16x16 M 16 m8x16 M 8 16}
        $cb!{m16x16 M 16 i16x16 I 16 16}
        $cb!{m16x16 M 16 u16x16 U 16 16}
        $cb!{m16x16 M 16 i32x16 I 32 16}
        $cb!{m16x16 M 16 u32x16 U 32 16}
        $cb!{m16x16 M 16 f32x16 F 32 16}
        $cb!{m16x16 M 16 m32x16 M 32 16}
        $cb!{i32x8 I 32 i8x8 I 8 8}
        $cb!{i32x8 I 32 u8x8 U 8 8}
        $cb!{i32x8 I 32 m8x8 M 8 8}
        $cb!{i32x8 I 32 i16x8 I 16 8}
        $cb!{i32x8 I 32 u16x8 U 16 8}
        $cb!{i32x8 I 32 m16x8 M 16 8}
        $cb!{i32x8 I 32 u32x8 U 32 8}
        $cb!{i32x8 I 32 f32x8 F 32 8}
        $cb!{i32x8 I 32 m32x8 M 32 8}
        $cb!{i32x8 I 32 i64x8 I 64 8}
        $cb!{i32x8 I 32 u64x8 U 64 8}
        $cb!{i32x8 I 32 f64x8 F 64 8}
        $cb!{i32x8 I 32 m64x8 M 64 8}
        $cb!{i32x8 I 32 isizex8 I 64 8}
        $cb!{i32x8 I 32 usizex8 U 64 8}
        $cb!{i32x8 I 32 msizex8 M 64 8}
        $cb!{u32x8 U 32 i8x8 I 8 8}
        $cb!{u32x8 U 32 u8x8 U 8 8}
        $cb!{u32x8 U 32 m8x8 M 8 8}
        $cb!{u32x8 U 32 i16x8 I 16 8}
        $cb!{u32x8 U 32 u16x8 U 16 8}
        $cb!{u32x8 U 32 m16x8 M 16 8}
        $cb!{u32x8 U 32 i32x8 I 32 8}
        $cb!{u32x8 U 32 f32x8 F 32 8}
        $cb!{u32x8 U 32 m32x8 M 32 8}
        $cb!{u32x8 U 32 i64x8 I 64 8}
        $cb!{u32x8 U 32 u64x8 U 64 8}
        $cb!{u32x8 U 32 f64x8 F 64 8}
        $cb!{u32x8 U 32 m64x8 M 64 8}
        $cb!{u32x8 U 32 isizex8 I 64 8}
        $cb!{u32x8 U 32 usizex8 U 64 8}
        $cb!{u32x8 U 32 msizex8 M 64 8}
        $cb!{f32x8 F 32 i8x8 I 8 8}
        $cb!{f32x8 F 32 u8x8 U 8 8}
        $cb!{f32x8 F 32 m8x8 M 8 8}
        $cb!{f32x8 F 32 i16x8 I 16 8}
        $cb!{f32x8 F 32 u16x8 U 16 8}
        $cb!{f32x8 F 32 m16x8 M 16 8}
        $cb!{f32x8 F 32 i32x8 I 32 8}
        $cb!{f32x8 F 32 u32x8 U 32 8}
        $cb!{f32x8 F 32 m32x8 M 32 8}
        $cb!{f32x8 F 32 i64x8 I 64 8}
        $cb!{f32x8 F 32 u64x8 U 64 8}
        $cb!{f32x8 F 32 f64x8 F 64 8}
        $cb!{f32x8 F 32 m64x8 M 64 8}
        $cb!{f32x8 F 32 isizex8 I 64 8}
        $cb!{f32x8 F 32 usizex8 U 64 8}
        $cb!{f32x8 F 32 msizex8 M 64 8}
        $cb!{m32x8 M 32 i8x8 I 8 8}
        $cb!{m32x8 M 32 u8x8 U 8 8}
        $cb!{m32x8 M 32 m8x8 M 8 8}
        $cb!{m32x8 M 32 i16x8 I 16 8}
        $cb!{m32x8 M 32 u16x8 U 16 8}
        $cb!{m32x8 M 32 m16x8 M 16 8}
        $cb!{m32x8 M 32 i32x8 I 32 8}
        $cb!{m32x8 M 32 u32x8 U 32 8}
        $cb!{m32x8 M 32 f32x8 F 32 8}
        $cb!{m32x8 M 32 i64x8 I 64 8}
        $cb!{m32x8 M 32 u64x8 U 64 8}
        $cb!{m32x8 M 32 f64x8 F 64 8}
        $cb!{m32x8 M 32 m64x8 M 64 8}
        $cb!{m32x8 M 32 isizex8 I 64 8}
        $cb!{m32x8 M 32 usizex8 U 64 8}
        $cb!{m32x8 M 32 msizex8 M 64 8}
        $cb!{i64x4 I 64 i8x4 I 8 4}
        $cb!{i64x4 I 64 u8x4 U 8 4}
        $cb!{i64x4 I 64 m8x4 M 8 4}
        $cb!{i64x4 I 64 i16x4 I 16 4}
        $cb!{i64x4 I 64 u16x4 U 16 4}
        $cb!{i64x4 I 64 m16x4 M 16 4}
        $cb!{i64x4 I 64 i32x4 I 32 4}
        $cb!{i64x4 I 64 u32x4 U 32 4}
        $cb!{i64x4 I 64 f32x4 F 32 4}
        $cb!{i64x4 I 64 m32x4 M 32 4}
        $cb!{i64x4 I 64 u64x4 U 64 4}
        $cb!{i64x4 I 64 f64x4 F 64 4}
        $cb!{i64x4 I 64 m64x4 M 64 4}
        $cb!{i64x4 I 64 i128x4 I 128 4}
        $cb!{i64x4 I 64 u128x4 U 128 4}
        $cb!{i64x4 I 64 m128x4 M 128 4}
        $cb!{i64x4 I 64 isizex4 I 64 4}
        $cb!{i64x4 I 64 usizex4 U 64 4}
        $cb!{i64x4 I 64 msizex4 M 64 4}
        $cb!{u64x4 U 64 i8x4 I 8 4}
        $cb!{u64x4 U 64 u8x4 U 8 4}
        $cb!{u64x4 U 64 m8x4 M 8 4}
        $cb!{u64x4 U 64 i16x4 I 16 4}
        $cb!{u64x4 U 64 u16x4 U 16 4}
        $cb!{u64x4 U 64 m16x4 M 16 4}
        $cb!{u64x4 U 64 i32x4 I 32 4}
        $cb!{u64x4 U 64 u32x4 U 32 4}
        $cb!{u64x4 U 64 f32x4 F 32 4}
        $cb!{u64x4 U 64 m32x4 M 32 4}
        $cb!{u64x4 U 64 i64x4 I 64 4}
        $cb!{u64x4 U 64 f64x4 F 64 4}
        $cb!{u64x4 U 64 m64x4 M 64 4}
        $cb!{u64x4 U 64 i128x4 I 128 4}
        $cb!{u64x4 U 64 u128x4 U 128 4}
        $cb!{u64x4 U 64 m128x4 M 128 4}
        $cb!{u64x4 U 64 isizex4 I 64 4}
        $cb!{u64x4 U 64 usizex4 U 64 4}
        $cb!{u64x4 U 64 msizex4 M 64 4}
        $cb!{f64x4 F 64 i8x4 I 8 4}
        $cb!{f64x4 F 64 u8x4 U 8 4}
        $cb!{f64x4 F 64 m8x4 M 8 4}
        $cb!{f64x4 F 64 i16x4 I 16 4}
        $cb!{f64x4 F 64 u16x4 U 16 4}
        $cb!{f64x4 F 64 m16x4 M 16 4}
        $cb!{f64x4 F 64 i32x4 I 32 4}
        $cb!{f64x4 F 64 u32x4 U 32 4}
        $cb!{f64x4 F 64 f32x4 F 32 4}
        $cb!{f64x4 F 64 m32x4 M 32 4}
        $cb!{f64x4 F 64 i64x4 I 64 4}
        $cb!{f64x4 F 64 u64x4 U 64 4}
        $cb!{f64x4 F 64 m64x4 M 64 4}
        $cb!{f64x4 F 64 i128x4 I 128 4}
        $cb!{f64x4 F 64 u128x4 U 128 4}
        $cb!{f64x4 F 64 m128x4 M 128 4}
        $cb!{f64x4 F 64 isizex4 I 64 4}
        $cb!{f64x4 F 64 usizex4 U 64 4}
        $cb!{f64x4 F 64 msizex4 M 64 4}
        $cb!{m64x4 M 64 i8x4 I 8 4}
        $cb!{m64x4 M 64 u8x4 U 8 4}
        $cb!{m64x4 M 64 m8x4 M 8 4}
        $cb!{m64x4 M 64 i16x4 I 16 4}
        $cb!{m64x4 M 64 u16x4 U 16 4}
        $cb!{m64x4 M 64 m16x4 M 16 4}
        $cb!{m64x4 M 64 i32x4 I 32 4}
        $cb!{m64x4 M 64 u32x4 U 32 4}
        $cb!{m64x4 M 64 f32x4 F 32 4}
        $cb!{m64x4 M 64 m32x4 M 32 4}
        $cb!{m64x4 M 64 i64x4 I 64 4}
        $cb!{m64x4 M 64 u64x4 U 64 4}
        $cb!{m64x4 M 64 f64x4 F 64 4}
        $cb!{m64x4 M 64 i128x4 I 128 4}
        $cb!{m64x4 M 64 u128x4 U 128 4}
        $cb!{m64x4 M 64 m128x4 M 128 4}
        $cb!{m64x4 M 64 isizex4 I 64 4}
        $cb!{m64x4 M 64 usizex4 U 64 4}
        $cb!{m64x4 M 64 msizex4 M 64 4}
        $cb!{i128x2 I 128 i8x2 I 8 2}
        $cb!{i128x2 I 128 u8x2 U 8 2}
        $cb!{i128x2 I 128 m8x2 M 8 2}
        $cb!{i128x2 I 128 i16x2 I 16 2}
        $cb!{i128x2 I 128 u16x2 U 16 2}
        $cb!{i128x2 I 128 m16x2 M 16 2}
        $cb!{i128x2 I 128 i32x2 I 32 2}
        $cb!{i128x2 I 128 u32x2 U 32 2}
        $cb!{i128x2 I 128 f32x2 F 32 2}
        $cb!{i128x2 I 128 m32x2 M 32 2}
        $cb!{i128x2 I 128 i64x2 I 64 2}
        $cb!{i128x2 I 128 u64x2 U 64 2}
        $cb!{i128x2 I 128 f64x2 F 64 2}
        $cb!{i128x2 I 128 m64x2 M 64 2}
        $cb!{i128x2 I 128 u128x2 U 128 2}
        $cb!{i128x2 I 128 m128x2 M 128 2}
        $cb!{i128x2 I 128 isizex2 I 64 2}
        $cb!{i128x2 I 128 usizex2 U 64 2}
        $cb!{i128x2 I 128 msizex2 M 64 2}
        $cb!{u128x2 U 128 i8x2 I 8 2}
        $cb!{u128x2 U 128 u8x2 U 8 2}
        $cb!{u128x2 U 128 m8x2 M 8 2}
        $cb!{u128x2 U 128 i16x2 I 16 2}
        $cb!{u128x2 U 128 u16x2 U 16 2}
        $cb!{u128x2 U 128 m16x2 M 16 2}
        $cb!{u128x2 U 128 i32x2 I 32 2}
        $cb!{u128x2 U 128 u32x2 U 32 2}
        $cb!{u128x2 U 128 f32x2 F 32 2}
        $cb!{u128x2 U 128 m32x2 M 32 2}
        $cb!{u128x2 U 128 i64x2 I 64 2}
        $cb!{u128x2 U 128 u64x2 U 64 2}
        $cb!{u128x2 U 128 f64x2 F 64 2}
        $cb!{u128x2 U 128 m64x2 M 64 2}
        $cb!{u128x2 U 128 i128x2 I 128 2}
        $cb!{u128x2 U 128 m128x2 M 128 2}
        $cb!{u128x2 U 128 isizex2 I 64 2}
        $cb!{u128x2 U 128 usizex2 U 64 2}
        $cb!{u128x2 U 128 msizex2 M 64 2}
        $cb!{m128x2 M 128 i8x2 I 8 2}
        $cb!{m128x2 M 128 u8x2 U 8 2}
        $cb!{m128x2 M 128 m8x2 M 8 2}
        $cb!{m128x2 M 128 i16x2 I 16 2}
        $cb!{m128x2 M 128 u16x2 U 16 2}
        $cb!{m128x2 M 128 m16x2 M 16 2}
        $cb!{m128x2 M 128 i32x2 I 32 2}
        $cb!{m128x2 M 128 u32x2 U 32 2}
        $cb!{m128x2 M 128 f32x2 F 32 2}
        $cb!{m128x2 M 128 m32x2 M 32 2}
        $cb!{m128x2 M 128 i64x2 I 64 2}
        $cb!{m128x2 M 128 u64x2 U 64 2}
        $cb!{m128x2 M 128 m64x2 M 64 2}
        $cb!{m128x2 M 128 f64x2 F 64 2}
        $cb!{m128x2 M 128 i128x2 I 128 2}
        $cb!{m128x2 M 128 u128x2 U 128 2}
        $cb!{m128x2 M 128 isizex2 I 64 2}
        $cb!{m128x2 M 128 usizex2 U 64 2}
        $cb!{m128x2 M 128 msizex2 M 64 2}
        $cb!{isizex4 I 64 i8x4 I 8 4}
        $cb!{isizex4 I 64 u8x4 U 8 4}
        $cb!{isizex4 I 64 m8x4 M 8 4}
        $cb!{isizex4 I 64 i16x4 I 16 4}
        $cb!{isizex4 I 64 u16x4 U 16 4}
        $cb!{isizex4 I 64 m16x4 M 16 4}
        $cb!{isizex4 I 64 i32x4 I 32 4}
        $cb!{isizex4 I 64 u32x4 U 32 4}
        $cb!{isizex4 I 64 f32x4 F 32 4}
        $cb!{isizex4 I 64 m32x4 M 32 4}
        $cb!{isizex4 I 64 i64x4 I 64 4}
        $cb!{isizex4 I 64 u64x4 U 64 4}
        $cb!{isizex4 I 64 f64x4 F 64 4}
        $cb!{isizex4 I 64 m64x4 M 64 4}
        $cb!{isizex4 I 64 i128x4 I 128 4}
        $cb!{isizex4 I 64 u128x4 U 128 4}
        $cb!{isizex4 I 64 m128x4 M 128 4}
        $cb!{isizex4 I 64 usizex4 U 64 4}
        $cb!{isizex4 I 64 msizex4 M 64 4}
        $cb!{usizex4 U 64 i8x4 I 8 4}
        $cb!{usizex4 U 64 u8x4 U 8 4}
        $cb!{usizex4 U 64 m8x4 M 8 4}
        $cb!{usizex4 U 64 i16x4 I 16 4}
        $cb!{usizex4 U 64 u16x4 U 16 4}
        $cb!{usizex4 U 64 m16x4 M 16 4}
        $cb!{usizex4 U 64 i32x4 I 32 4}
        $cb!{usizex4 U 64 u32x4 U 32 4}
        $cb!{usizex4 U 64 f32x4 F 32 4}
        $cb!{usizex4 U 64 m32x4 M 32 4}
        $cb!{usizex4 U 64 i64x4 I 64 4}
        $cb!{usizex4 U 64 u64x4 U 64 4}
        $cb!{usizex4 U 64 f64x4 F 64 4}
        $cb!{usizex4 U 64 m64x4 M 64 4}
        $cb!{usizex4 U 64 i128x4 I 128 4}
        $cb!{usizex4 U 64 u128x4 U 128 4}
        $cb!{usizex4 U 64 m128x4 M 128 4}
        $cb!{usizex4 U 64 isizex4 I 64 4}
        $cb!{usizex4 U 64 msizex4 M 64 4}
        $cb!{msizex4 M 64 i8x4 I 8 4}
        $cb!{msizex4 M 64 u8x4 U 8 4}
        $cb!{msizex4 M 64 m8x4 M 8 4}
        $cb!{msizex4 M 64 i16x4 I 16 4}
        $cb!{msizex4 M 64 u16x4 U 16 4}
        $cb!{msizex4 M 64 m16x4 M 16 4}
        $cb!{msizex4 M 64 i32x4 I 32 4}
        $cb!{msizex4 M 64 u32x4 U 32 4}
        $cb!{msizex4 M 64 f32x4 F 32 4}
        $cb!{msizex4 M 64 m32x4 M 32 4}
        $cb!{msizex4 M 64 i64x4 I 64 4}
        $cb!{msizex4 M 64 u64x4 U 64 4}
        $cb!{msizex4 M 64 f64x4 F 64 4}
        $cb!{msizex4 M 64 m64x4 M 64 4}
        $cb!{msizex4 M 64 i128x4 I 128 4}
        $cb!{msizex4 M 64 u128x4 U 128 4}
        $cb!{msizex4 M 64 m128x4 M 128 4}
        $cb!{msizex4 M 64 isizex4 I 64 4}
        $cb!{msizex4 M 64 usizex4 U 64 4}
        $cb!{i8x64 I 8 u8x64 U 8 64}
        $cb!{i8x64 I 8 m8x64 M 8 64}
        $cb!{u8x64 U 8 i8x64 I 8 64}
        $cb!{u8x64 U 8 m8x64 M 8 64}
        $cb!{m8x64 M 8 i8x64 I 8 64}
        $cb!{m8x64 M 8 u8x64 U 8 64}
        $cb!{i16x32 I 16 i8x32 I 8 32}
        $cb!{i16x32 I 16 u8x32 U 8 32}
        $cb!{i16x32 I 16 m8x32 M 8 32}
        $cb!{i16x32 I 16 u16x32 U 16 32}
        $cb!{i16x32 I 16 m16x32 M 16 32}
        $cb!{u16x32 U 16 i8x32 I 8 32}
        $cb!{u16x32 U 16 u8x32 U 8 32}
        $cb!{u16x32 U 16 m8x32 M 8 32}
        $cb!{u16x32 U 16 i16x32 I 16 32}
        $cb!{u16x32 U 16 m16x32 M 16 32}
        $cb!{m16x32 M 16 i8x32 I 8 32}
        $cb!{m16x32 M 16 u8x32 U 8 32}
        $cb!{m16x32 M 16 m8x32 M 8 32}
        $cb!{m16x32 M 16 i16x32 I 16 32}
        $cb!{m16x32 M 16 u16x32 U 16 32}
        $cb!{i32x16 I 32 i8x16 I 8 16}
        $cb!{i32x16 I 32 u8x16 U 8 16}
        $cb!{i32x16 I 32 m8x16 M 8 16}
        $cb!{i32x16 I 32 i16x16 I 16 16}
        $cb!{i32x16 I 32 u16x16 U 16 16}
        $cb!{i32x16 I 32 m16x16 M 16 16}
        $cb!{i32x16 I 32 u32x16 U 32 16}
        $cb!{i32x16 I 32 f32x16 F 32 16}
        $cb!{i32x16 I 32 m32x16 M 32 16}
        $cb!{u32x16 U 32 i8x16 I 8 16}
        $cb!{u32x16 U 32 u8x16 U 8 16}
        $cb!{u32x16 U 32 m8x16 M 8 16}
        $cb!{u32x16 U 32 i16x16 I 16 16}
        $cb!{u32x16 U 32 u16x16 U 16 16}
        $cb!{u32x16 U 32 m16x16 M 16 16}
        $cb!{u32x16 U 32 i32x16 I 32 16}
        $cb!{u32x16 U 32 f32x16 F 32 16}
        $cb!{u32x16 U 32 m32x16 M 32 16}
        $cb!{f32x16 F 32 i8x16 I 8 16}
        $cb!{f32x16 F 32 u8x16 U 8 16}
        $cb!{f32x16 F 32 m8x16 M 8 16}
        $cb!{f32x16 F 32 i16x16 I 16 16}
        $cb!{f32x16 F 32 u16x16 U 16 16}
        $cb!{f32x16 F 32 m16x16 M 16 16}
        $cb!{f32x16 F 32 i32x16 I 32 16}
        $cb!{f32x16 F 32 u32x16 U 32 16}
        $cb!{f32x16 F 32 m32x16 M 32 16}
        $cb!{m32x16 M 32 i8x16 I 8 16}
        $cb!{m32x16 M 32 u8x16 U 8 16}
        $cb!{m32x16 M 32 m8x16 M 8 16}
        $cb!{m32x16 M 32 i16x16 I 16 16}
        $cb!{m32x16 M 32 u16x16 U 16 16}
        $cb!{m32x16 M 32 m16x16 M 16 16}
        $cb!{m32x16 M 32 i32x16 I 32 16}
        $cb!{m32x16 M 32 u32x16 U 32 16}
        $cb!{m32x16 M 32 f32x16 F 32 16}
        $cb!{i64x8 I 64 i8x8 I 8 8}
        $cb!{i64x8 I 64 u8x8 U 8 8}
        $cb!{i64x8 I 64 m8x8 M 8 8}
        $cb!{i64x8 I 64 i16x8 I 16 8}
        $cb!{i64x8 I 64 u16x8 U 16 8}
        $cb!{i64x8 I 64 m16x8 M 16 8}
        $cb!{i64x8 I 64 i32x8 I 32 8}
        $cb!{i64x8 I 64 u32x8 U 32 8}
        $cb!{i64x8 I 64 f32x8 F 32 8}
        $cb!{i64x8 I 64 m32x8 M 32 8}
        $cb!{i64x8 I 64 u64x8 U 64 8}
        $cb!{i64x8 I 64 f64x8 F 64 8}
        $cb!{i64x8 I 64 m64x8 M 64 8}
        $cb!{i64x8 I 64 isizex8 I 64 8}
        $cb!{i64x8 I 64 usizex8 U 64 8}
        $cb!{i64x8 I 64 msizex8 M 64 8}
        $cb!{u64x8 U 64 i8x8 I 8 8}
        $cb!{u64x8 U 64 u8x8 U 8 8}
        $cb!{u64x8 U 64 m8x8 M 8 8}
        $cb!{u64x8 U 64 i16x8 I 16 8}
        $cb!{u64x8 U 64 u16x8 U 16 8}
        $cb!{u64x8 U 64 m16x8 M 16 8}
        $cb!{u64x8 U 64 i32x8 I 32 8}
        $cb!{u64x8 U 64 u32x8 U 32 8}
        $cb!{u64x8 U 64 f32x8 F 32 8}
        $cb!{u64x8 U 64 m32x8 M 32 8}
        $cb!{u64x8 U 64 i64x8 I 64 8}
        $cb!{u64x8 U 64 f64x8 F 64 8}
        $cb!{u64x8 U 64 m64x8 M 64 8}
        $cb!{u64x8 U 64 isizex8 I 64 8}
        $cb!{u64x8 U 64 usizex8 U 64 8}
        $cb!{u64x8 U 64 msizex8 M 64 8}
        $cb!{f64x8 F 64 i8x8 I 8 8}
        $cb!{f64x8 F 64 u8x8 U 8 8}
        $cb!{f64x8 F 64 m8x8 M 8 8}
        $cb!{f64x8 F 64 i16x8 I 16 8}
        $cb!{f64x8 F 64 u16x8 U 16 8}
        $cb!{f64x8 F 64 m16x8 M 16 8}
        $cb!{f64x8 F 64 i32x8 I 32 8}
        $cb!{f64x8 F 64 u32x8 U 32 8}
        $cb!{f64x8 F 64 f32x8 F 32 8}
        $cb!{f64x8 F 64 m32x8 M 32 8}
        $cb!{f64x8 F 64 i64x8 I 64 8}
        $cb!{f64x8 F 64 u64x8 U 64 8}
        $cb!{f64x8 F 64 m64x8 M 64 8}
        $cb!{f64x8 F 64 isizex8 I 64 8}
        $cb!{f64x8 F 64 usizex8 U 64 8}
        $cb!{f64x8 F 64 msizex8 M 64 8}
        $cb!{m64x8 M 64 i8x8 I 8 8}
        $cb!{m64x8 M 64 u8x8 U 8 8}
        $cb!{m64x8 M 64 m8x8 M 8 8}
        $cb!{m64x8 M 64 i16x8 I 16 8}
        $cb!{m64x8 M 64 u16x8 U 16 8}
        $cb!{m64x8 M 64 m16x8 M 16 8}
        $cb!{m64x8 M 64 i32x8 I 32 8}
        $cb!{m64x8 M 64 u32x8 U 32 8}
        $cb!{m64x8 M 64 f32x8 F 32 8}
        $cb!{m64x8 M 64 m32x8 M 32 8}
        $cb!{m64x8 M 64 i64x8 I 64 8}
        $cb!{m64x8 M 64 u64x8 U 64 8}
        $cb!{m64x8 M 64 f64x8 F 64 8}
        $cb!{m64x8 M 64 isizex8 I 64 8}
        $cb!{m64x8 M 64 usizex8 U 64 8}
        $cb!{m64x8 M 64 msizex8 M 64 8}
        $cb!{i128x4 I 128 i8x4 I 8 4}
        $cb!{i128x4 I 128 u8x4 U 8 4}
        $cb!{i128x4 I 128 m8x4 M 8 4}
        $cb!{i128x4 I 128 i16x4 I 16 4}
        $cb!{i128x4 I 128 u16x4 U 16 4}
        $cb!{i128x4 I 128 m16x4 M 16 4}
        $cb!{i128x4 I 128 i32x4 I 32 4}
        $cb!{i128x4 I 128 u32x4 U 32 4}
        $cb!{i128x4 I 128 f32x4 F 32 4}
        $cb!{i128x4 I 128 m32x4 M 32 4}
        $cb!{i128x4 I 128 i64x4 I 64 4}
        $cb!{i128x4 I 128 u64x4 U 64 4}
        $cb!{i128x4 I 128 f64x4 F 64 4}
        $cb!{i128x4 I 128 m64x4 M 64 4}
        $cb!{i128x4 I 128 u128x4 U 128 4}
        $cb!{i128x4 I 128 m128x4 M 128 4}
        $cb!{i128x4 I 128 isizex4 I 64 4}
        $cb!{i128x4 I 128 usizex4 U 64 4}
        $cb!{i128x4 I 128 msizex4 M 64 4}
        $cb!{u128x4 U 128 i8x4 I 8 4}
        $cb!{u128x4 U 128 u8x4 U 8 4}
        $cb!{u128x4 U 128 m8x4 M 8 4}
        $cb!{u128x4 U 128 i16x4 I 16 4}
        $cb!{u128x4 U 128 u16x4 U 16 4}
        $cb!{u128x4 U 128 m16x4 M 16 4}
        $cb!{u128x4 U 128 i32x4 I 32 4}
        $cb!{u128x4 U 128 u32x4 U 32 4}
        $cb!{u128x4 U 128 f32x4 F 32 4}
        $cb!{u128x4 U 128 m32x4 M 32 4}
        $cb!{u128x4 U 128 i64x4 I 64 4}
        $cb!{u128x4 U 128 u64x4 U 64 4}
        $cb!{u128x4 U 128 f64x4 F 64 4}
        $cb!{u128x4 U 128 m64x4 M 64 4}
        $cb!{u128x4 U 128 i128x4 I 128 4}
        $cb!{u128x4 U 128 m128x4 M 128 4}
        $cb!{u128x4 U 128 isizex4 I 64 4}
        $cb!{u128x4 U 128 usizex4 U 64 4}
        $cb!{u128x4 U 128 msizex4 M 64 4}
        $cb!{m128x4 M 128 i8x4 I 8 4}
        $cb!{m128x4 M 128 u8x4 U 8 4}
        $cb!{m128x4 M 128 m8x4 M 8 4}
        $cb!{m128x4 M 128 i16x4 I 16 4}
        $cb!{m128x4 M 128 u16x4 U 16 4}
        $cb!{m128x4 M 128 m16x4 M 16 4}
        $cb!{m128x4 M 128 i32x4 I 32 4}
        $cb!{m128x4 M 128 u32x4 U 32 4}
        $cb!{m128x4 M 128 f32x4 F 32 4}
        $cb!{m128x4 M 128 m32x4 M 32 4}
        $cb!{m128x4 M 128 i64x4 I 64 4}
        $cb!{m128x4 M 128 u64x4 U 64 4}
        $cb!{m128x4 M 128 m64x4 M 64 4}
        $cb!{m128x4 M 128 f64x4 F 64 4}
        $cb!{m128x4 M 128 i128x4 I 128 4}
        $cb!{m128x4 M 128 u128x4 U 128 4}
        $cb!{m128x4 M 128 isizex4 I 64 4}
        $cb!{m128x4 M 128 usizex4 U 64 4}
        $cb!{m128x4 M 128 msizex4 M 64 4}
        $cb!{isizex8 I 64 i8x8 I 8 8}
        $cb!{isizex8 I 64 u8x8 U 8 8}
        $cb!{isizex8 I 64 m8x8 M 8 8}
        $cb!{isizex8 I 64 i16x8 I 16 8}
        $cb!{isizex8 I 64 u16x8 U 16 8}
        $cb!{isizex8 I 64 m16x8 M 16 8}
        $cb!{isizex8 I 64 i32x8 I 32 8}
        $cb!{isizex8 I 64 u32x8 U 32 8}
        $cb!{isizex8 I 64 f32x8 F 32 8}
        $cb!{isizex8 I 64 m32x8 M 32 8}
        $cb!{isizex8 I 64 i64x8 I 64 8}
        $cb!{isizex8 I 64 u64x8 U 64 8}
        $cb!{isizex8 I 64 f64x8 F 64 8}
        $cb!{isizex8 I 64 m64x8 M 64 8}
        $cb!{isizex8 I 64 usizex8 U 64 8}
        $cb!{isizex8 I 64 msizex8 M 64 8}
        $cb!{usizex8 U 64 i8x8 I 8 8}
        $cb!{usizex8 U 64 u8x8 U 8 8}
        $cb!{usizex8 U 64 m8x8 M 8 8}
        $cb!{usizex8 U 64 i16x8 I 16 8}
        $cb!{usizex8 U 64 u16x8 U 16 8}
        $cb!{usizex8 U 64 m16x8 M 16 8}
        $cb!{usizex8 U 64 i32x8 I 32 8}
        $cb!{usizex8 U 64 u32x8 U 32 8}
        $cb!{usizex8 U 64 f32x8 F 32 8}
        $cb!{usizex8 U 64 m32x8 M 32 8}
        $cb!{usizex8 U 64 i64x8 I 64 8}
        $cb!{usizex8 U 64 u64x8 U 64 8}
        $cb!{usizex8 U 64 f64x8 F 64 8}
        $cb!{usizex8 U 64 m64x8 M 64 8}
        $cb!{usizex8 U 64 isizex8 I 64 8}
        $cb!{usizex8 U 64 msizex8 M 64 8}
        $cb!{msizex8 M 64 i8x8 I 8 8}
        $cb!{msizex8 M 64 u8x8 U 8 8}
        $cb!{msizex8 M 64 m8x8 M 8 8}
        $cb!{msizex8 M 64 i16x8 I 16 8}
        $cb!{msizex8 M 64 u16x8 U 16 8}
        $cb!{msizex8 M 64 m16x8 M 16 8}
        $cb!{msizex8 M 64 i32x8 I 32 8}
        $cb!{msizex8 M 64 u32x8 U 32 8}
        $cb!{msizex8 M 64 f32x8 F 32 8}
        $cb!{msizex8 M 64 m32x8 M 32 8}
        $cb!{msizex8 M 64 i64x8 I 64 8}
        $cb!{msizex8 M 64 u64x8 U 64 8}
        $cb!{msizex8 M 64 f64x8 F 64 8}
        $cb!{msizex8 M 64 m64x8 M 64 8}
        $cb!{msizex8 M 64 isizex8 I 64 8}
        $cb!{msizex8 M 64 usizex8 U 64 8}
    };
}

#[macro_export]
macro_rules! from_pairs {
    ($cb:ident) => {
        $cb!{m8x2 M 8 m16x2 M 16 2}
        $cb!{m8x2 M 8 m32x2 M 32 2}
        $cb!{m8x2 M 8 m64x2 M 64 2}
        $cb!{m8x2 M 8 m128x2 M 128 2}
        $cb!{m8x4 M 8 m16x4 M 16 4}
        $cb!{m8x4 M 8 m32x4 M 32 4}
        $cb!{m8x4 M 8 m64x4 M 64 4}
        $cb!{i16x2 I 16 i8x2 I 8 2}
        $cb!{i16x2 I 16 u8x2 U 8 2}
        $cb!{u16x2 U 16 u8x2 U 8 2}
        $cb!{m16x2 M 16 m8x2 M 8 2}
        $cb!{m16x2 M 16 m32x2 M 32 2}
        $cb!{m16x2 M 16 m64x2 M 64 2}
        $cb!{m16x2 M 16 m128x2 M 128 2}
        $cb!{m8x8 M 8 m16x8 M 16 8}
        $cb!{m8x8 M 8 m32x8 M 32 8}
        $cb!{i16x4 I 16 i8x4 I 8 4}
        $cb!{i16x4 I 16 u8x4 U 8 4}
        $cb!{u16x4 U 16 u8x4 U 8 4}
        $cb!{m16x4 M 16 m8x4 M 8 4}
        $cb!{m16x4 M 16 m32x4 M 32 4}
        $cb!{m16x4 M 16 m64x4 M 64 4}
        $cb!{i32x2 I 32 i8x2 I 8 2}
        $cb!{i32x2 I 32 u8x2 U 8 2}
        $cb!{i32x2 I 32 i16x2 I 16 2}
        $cb!{i32x2 I 32 u16x2 U 16 2}
        $cb!{u32x2 U 32 u8x2 U 8 2}
        $cb!{u32x2 U 32 u16x2 U 16 2}
        $cb!{m32x2 M 32 m8x2 M 8 2}
        $cb!{m32x2 M 32 m16x2 M 16 2}
        $cb!{m32x2 M 32 m64x2 M 64 2}
        $cb!{m32x2 M 32 m128x2 M 128 2}
        $cb!{f32x2 F 32 i8x2 I 8 2}
        $cb!{f32x2 F 32 u8x2 U 8 2}
        $cb!{f32x2 F 32 i16x2 I 16 2}
        $cb!{f32x2 F 32 u16x2 U 16 2}
        $cb!{m8x16 M 8 m16x16 M 16 16}
        $cb!{i16x8 I 16 i8x8 I 8 8}
        $cb!{i16x8 I 16 u8x8 U 8 8}
        $cb!{u16x8 U 16 u8x8 U 8 8}
        $cb!{m16x8 M 16 m8x8 M 8 8}
        $cb!{m16x8 M 16 m32x8 M 32 8}
        $cb!{i32x4 I 32 i8x4 I 8 4}
        $cb!{i32x4 I 32 u8x4 U 8 4}
        $cb!{i32x4 I 32 i16x4 I 16 4}
        $cb!{i32x4 I 32 u16x4 U 16 4}
        $cb!{u32x4 U 32 u8x4 U 8 4}
        $cb!{u32x4 U 32 u16x4 U 16 4}
        $cb!{f32x4 F 32 i8x4 I 8 4}
        $cb!{f32x4 F 32 u8x4 U 8 4}
        $cb!{f32x4 F 32 i16x4 I 16 4}
        $cb!{f32x4 F 32 u16x4 U 16 4}
        $cb!{m32x4 M 32 m8x4 M 8 4}
        $cb!{m32x4 M 32 m16x4 M 16 4}
        $cb!{m32x4 M 32 m64x4 M 64 4}
        $cb!{i64x2 I 64 i8x2 I 8 2}
        $cb!{i64x2 I 64 u8x2 U 8 2}
        $cb!{i64x2 I 64 i16x2 I 16 2}
        $cb!{i64x2 I 64 u16x2 U 16 2}
        $cb!{i64x2 I 64 i32x2 I 32 2}
        $cb!{i64x2 I 64 u32x2 U 32 2}
        $cb!{u64x2 U 64 u8x2 U 8 2}
        $cb!{u64x2 U 64 u16x2 U 16 2}
        $cb!{u64x2 U 64 u32x2 U 32 2}
        $cb!{f64x2 F 64 i8x2 I 8 2}
        $cb!{f64x2 F 64 u8x2 U 8 2}
        $cb!{f64x2 F 64 i16x2 I 16 2}
        $cb!{f64x2 F 64 u16x2 U 16 2}
        $cb!{f64x2 F 64 i32x2 I 32 2}
        $cb!{f64x2 F 64 u32x2 U 32 2}
        $cb!{f64x2 F 64 f32x2 F 32 2}
        $cb!{m64x2 M 64 m8x2 M 8 2}
        $cb!{m64x2 M 64 m16x2 M 16 2}
        $cb!{m64x2 M 64 m32x2 M 32 2}
        $cb!{m64x2 M 64 m128x2 M 128 2}
        $cb!{i16x16 I 16 i8x16 I 8 16}
        $cb!{i16x16 I 16 u8x16 U 8 16}
        $cb!{u16x16 U 16 u8x16 U 8 16}
        $cb!{m16x16 M 16 m8x16 M 8 16}
        $cb!{i32x8 I 32 i8x8 I 8 8}
        $cb!{i32x8 I 32 u8x8 U 8 8}
        $cb!{i32x8 I 32 i16x8 I 16 8}
        $cb!{i32x8 I 32 u16x8 U 16 8}
        $cb!{u32x8 U 32 u8x8 U 8 8}
        $cb!{u32x8 U 32 u16x8 U 16 8}
        $cb!{f32x8 F 32 i8x8 I 8 8}
        $cb!{f32x8 F 32 u8x8 U 8 8}
        $cb!{f32x8 F 32 i16x8 I 16 8}
        $cb!{f32x8 F 32 u16x8 U 16 8}
        $cb!{m32x8 M 32 m8x8 M 8 8}
        $cb!{m32x8 M 32 m16x8 M 16 8}
        $cb!{i64x4 I 64 i8x4 I 8 4}
        $cb!{i64x4 I 64 u8x4 U 8 4}
        $cb!{i64x4 I 64 i16x4 I 16 4}
        $cb!{i64x4 I 64 u16x4 U 16 4}
        $cb!{i64x4 I 64 i32x4 I 32 4}
        $cb!{i64x4 I 64 u32x4 U 32 4}
        $cb!{u64x4 U 64 u8x4 U 8 4}
        $cb!{u64x4 U 64 u16x4 U 16 4}
        $cb!{u64x4 U 64 u32x4 U 32 4}
        $cb!{f64x4 F 64 i8x4 I 8 4}
        $cb!{f64x4 F 64 u8x4 U 8 4}
        $cb!{f64x4 F 64 i16x4 I 16 4}
        $cb!{f64x4 F 64 u16x4 U 16 4}
        $cb!{f64x4 F 64 i32x4 I 32 4}
        $cb!{f64x4 F 64 u32x4 U 32 4}
        $cb!{f64x4 F 64 f32x4 F 32 4}
        $cb!{m64x4 M 64 m8x4 M 8 4}
        $cb!{m64x4 M 64 m16x4 M 16 4}
        $cb!{m64x4 M 64 m32x4 M 32 4}
        $cb!{i128x2 I 128 i8x2 I 8 2}
        $cb!{i128x2 I 128 u8x2 U 8 2}
        $cb!{i128x2 I 128 i16x2 I 16 2}
        $cb!{i128x2 I 128 u16x2 U 16 2}
        $cb!{i128x2 I 128 i32x2 I 32 2}
        $cb!{i128x2 I 128 u32x2 U 32 2}
        $cb!{i128x2 I 128 i64x2 I 64 2}
        $cb!{i128x2 I 128 u64x2 U 64 2}
        $cb!{u128x2 U 128 u8x2 U 8 2}
        $cb!{u128x2 U 128 u16x2 U 16 2}
        $cb!{u128x2 U 128 u32x2 U 32 2}
        $cb!{u128x2 U 128 u64x2 U 64 2}
        $cb!{m128x2 M 128 m8x2 M 8 2}
        $cb!{m128x2 M 128 m16x2 M 16 2}
        $cb!{m128x2 M 128 m32x2 M 32 2}
        $cb!{m128x2 M 128 m64x2 M 64 2}
        $cb!{i16x32 I 16 i8x32 I 8 32}
        $cb!{i16x32 I 16 u8x32 U 8 32}
        $cb!{u16x32 U 16 u8x32 U 8 32}
        $cb!{m16x32 M 16 m8x32 M 8 32}
        $cb!{i32x16 I 32 i8x16 I 8 16}
        $cb!{i32x16 I 32 u8x16 U 8 16}
        $cb!{i32x16 I 32 i16x16 I 16 16}
        $cb!{i32x16 I 32 u16x16 U 16 16}
        $cb!{u32x16 U 32 u8x16 U 8 16}
        $cb!{u32x16 U 32 u16x16 U 16 16}
        $cb!{f32x16 F 32 i8x16 I 8 16}
        $cb!{f32x16 F 32 u8x16 U 8 16}
        $cb!{f32x16 F 32 i16x16 I 16 16}
        $cb!{f32x16 F 32 u16x16 U 16 16}
        $cb!{m32x16 M 32 m8x16 M 8 16}
        $cb!{m32x16 M 32 m16x16 M 16 16}
        $cb!{i64x8 I 64 i8x8 I 8 8}
        $cb!{i64x8 I 64 u8x8 U 8 8}
        $cb!{i64x8 I 64 i16x8 I 16 8}
        $cb!{i64x8 I 64 u16x8 U 16 8}
        $cb!{i64x8 I 64 i32x8 I 32 8}
        $cb!{i64x8 I 64 u32x8 U 32 8}
        $cb!{u64x8 U 64 u8x8 U 8 8}
        $cb!{u64x8 U 64 u16x8 U 16 8}
        $cb!{u64x8 U 64 u32x8 U 32 8}
        $cb!{f64x8 F 64 i8x8 I 8 8}
        $cb!{f64x8 F 64 u8x8 U 8 8}
        $cb!{f64x8 F 64 i16x8 I 16 8}
        $cb!{f64x8 F 64 u16x8 U 16 8}
        $cb!{f64x8 F 64 i32x8 I 32 8}
        $cb!{f64x8 F 64 u32x8 U 32 8}
        $cb!{f64x8 F 64 f32x8 F 32 8}
        $cb!{m64x8 M 64 m8x8 M 8 8}
        $cb!{m64x8 M 64 m16x8 M 16 8}
        $cb!{m64x8 M 64 m32x8 M 32 8}
        $cb!{i128x4 I 128 i8x4 I 8 4}
        $cb!{i128x4 I 128 u8x4 U 8 4}
        $cb!{i128x4 I 128 i16x4 I 16 4}
        $cb!{i128x4 I 128 u16x4 U 16 4}
        $cb!{i128x4 I 128 i32x4 I 32 4}
        $cb!{i128x4 I 128 u32x4 U 32 4}
        $cb!{i128x4 I 128 i64x4 I 64 4}
        $cb!{i128x4 I 128 u64x4 U 64 4}
        $cb!{u128x4 U 128 u8x4 U 8 4}
        $cb!{u128x4 U 128 u16x4 U 16 4}
        $cb!{u128x4 U 128 u32x4 U 32 4}
        $cb!{u128x4 U 128 u64x4 U 64 4}
        $cb!{m128x4 M 128 m8x4 M 8 4}
        $cb!{m128x4 M 128 m16x4 M 16 4}
        $cb!{m128x4 M 128 m32x4 M 32 4}
        $cb!{m128x4 M 128 m64x4 M 64 4}
    };
}

#[macro_export]
macro_rules! bits_pairs {
    ($cb:ident) => {
        $cb!{i8x2 u8x2 U 8 2}
        $cb!{i8x2 m8x2 M 8 2}
        $cb!{u8x2 i8x2 I 8 2}
        $cb!{u8x2 m8x2 M 8 2}
        $cb!{i8x4 u8x4 U 8 4}
        $cb!{i8x4 m8x4 M 8 4}
        $cb!{i8x4 i16x2 I 16 2}
        $cb!{i8x4 u16x2 U 16 2}
        $cb!{i8x4 m16x2 M 16 2}
        $cb!{u8x4 i8x4 I 8 4}
        $cb!{u8x4 m8x4 M 8 4}
        $cb!{u8x4 i16x2 I 16 2}
        $cb!{u8x4 u16x2 U 16 2}
        $cb!{u8x4 m16x2 M 16 2}
        $cb!{m8x4 m16x2 M 16 2}
        $cb!{i16x2 i8x4 I 8 4}
        $cb!{i16x2 u8x4 U 8 4}
        $cb!{i16x2 m8x4 M 8 4}
        $cb!{i16x2 u16x2 U 16 2}
        $cb!{i16x2 m16x2 M 16 2}
        $cb!{u16x2 i8x4 I 8 4}
        $cb!{u16x2 u8x4 U 8 4}
        $cb!{u16x2 m8x4 M 8 4}
        $cb!{u16x2 i16x2 I 16 2}
        $cb!{u16x2 m16x2 M 16 2}
        $cb!{i8x8 u8x8 U 8 8}
        $cb!{i8x8 m8x8 M 8 8}
        $cb!{i8x8 i16x4 I 16 4}
        $cb!{i8x8 u16x4 U 16 4}
        $cb!{i8x8 m16x4 M 16 4}
        $cb!{i8x8 i32x2 I 32 2}
        $cb!{i8x8 u32x2 U 32 2}
        $cb!{i8x8 f32x2 F 32 2}
        $cb!{i8x8 m32x2 M 32 2}
        $cb!{u8x8 i8x8 I 8 8}
        $cb!{u8x8 m8x8 M 8 8}
        $cb!{u8x8 i16x4 I 16 4}
        $cb!{u8x8 u16x4 U 16 4}
        $cb!{u8x8 m16x4 M 16 4}
        $cb!{u8x8 i32x2 I 32 2}
        $cb!{u8x8 u32x2 U 32 2}
        $cb!{u8x8 f32x2 F 32 2}
        $cb!{u8x8 m32x2 M 32 2}
        $cb!{m8x8 m16x4 M 16 4}
        $cb!{m8x8 m32x2 M 32 2}
        $cb!{i16x4 i8x8 I 8 8}
        $cb!{i16x4 u8x8 U 8 8}
        $cb!{i16x4 m8x8 M 8 8}
        $cb!{i16x4 u16x4 U 16 4}
        $cb!{i16x4 m16x4 M 16 4}
        $cb!{i16x4 i32x2 I 32 2}
        $cb!{i16x4 u32x2 U 32 2}
        $cb!{i16x4 f32x2 F 32 2}
        $cb!{i16x4 m32x2 M 32 2}
        $cb!{u16x4 i8x8 I 8 8}
        $cb!{u16x4 u8x8 U 8 8}
        $cb!{u16x4 m8x8 M 8 8}
        $cb!{u16x4 i16x4 I 16 4}
        $cb!{u16x4 m16x4 M 16 4}
        $cb!{u16x4 i32x2 I 32 2}
        $cb!{u16x4 u32x2 U 32 2}
        $cb!{u16x4 f32x2 F 32 2}
        $cb!{u16x4 m32x2 M 32 2}
        $cb!{m16x4 m32x2 M 32 2}
        $cb!{i32x2 i8x8 I 8 8}
        $cb!{i32x2 u8x8 U 8 8}
        $cb!{i32x2 m8x8 M 8 8}
        $cb!{i32x2 i16x4 I 16 4}
        $cb!{i32x2 u16x4 U 16 4}
        $cb!{i32x2 m16x4 M 16 4}
        $cb!{i32x2 u32x2 U 32 2}
        $cb!{i32x2 f32x2 F 32 2}
        $cb!{i32x2 m32x2 M 32 2}
        $cb!{u32x2 i8x8 I 8 8}
        $cb!{u32x2 u8x8 U 8 8}
        $cb!{u32x2 m8x8 M 8 8}
        $cb!{u32x2 i16x4 I 16 4}
        $cb!{u32x2 u16x4 U 16 4}
        $cb!{u32x2 m16x4 M 16 4}
        $cb!{u32x2 i32x2 I 32 2}
        $cb!{u32x2 f32x2 F 32 2}
        $cb!{u32x2 m32x2 M 32 2}
        $cb!{f32x2 i8x8 I 8 8}
        $cb!{f32x2 u8x8 U 8 8}
        $cb!{f32x2 m8x8 M 8 8}
        $cb!{f32x2 i16x4 I 16 4}
        $cb!{f32x2 u16x4 U 16 4}
        $cb!{f32x2 m16x4 M 16 4}
        $cb!{f32x2 i32x2 I 32 2}
        $cb!{f32x2 u32x2 U 32 2}
        $cb!{f32x2 m32x2 M 32 2}
        $cb!{i8x16 u8x16 U 8 16}
        $cb!{i8x16 m8x16 M 8 16}
        $cb!{i8x16 i16x8 I 16 8}
        $cb!{i8x16 u16x8 U 16 8}
        $cb!{i8x16 m16x8 M 16 8}
        $cb!{i8x16 i32x4 I 32 4}
        $cb!{i8x16 u32x4 U 32 4}
        $cb!{i8x16 f32x4 F 32 4}
        $cb!{i8x16 m32x4 M 32 4}
        $cb!{i8x16 i64x2 I 64 2}
        $cb!{i8x16 u64x2 U 64 2}
        $cb!{i8x16 f64x2 F 64 2}
        $cb!{i8x16 m64x2 M 64 2}
        $cb!{i8x16 i128x1 I 128 1}
        $cb!{i8x16 u128x1 U 128 1}
        $cb!{i8x16 m128x1 M 128 1}
        $cb!{u8x16 i8x16 I 8 16}
        $cb!{u8x16 m8x16 M 8 16}
        $cb!{u8x16 i16x8 I 16 8}
        $cb!{u8x16 u16x8 U 16 8}
        $cb!{u8x16 m16x8 M 16 8}
        $cb!{u8x16 i32x4 I 32 4}
        $cb!{u8x16 u32x4 U 32 4}
        $cb!{u8x16 f32x4 F 32 4}
        $cb!{u8x16 m32x4 M 32 4}
        $cb!{u8x16 i64x2 I 64 2}
        $cb!{u8x16 u64x2 U 64 2}
        $cb!{u8x16 f64x2 F 64 2}
        $cb!{u8x16 m64x2 M 64 2}
        $cb!{u8x16 i128x1 I 128 1}
        $cb!{u8x16 u128x1 U 128 1}
        $cb!{u8x16 m128x1 M 128 1}
        $cb!{m8x16 m16x8 M 16 8}
        $cb!{m8x16 m32x4 M 32 4}
        $cb!{m8x16 m64x2 M 64 2}
        $cb!{m8x16 m128x1 M 128 1}
        $cb!{i16x8 i8x16 I 8 16}
        $cb!{i16x8 u8x16 U 8 16}
        $cb!{i16x8 m8x16 M 8 16}
        $cb!{i16x8 u16x8 U 16 8}
        $cb!{i16x8 m16x8 M 16 8}
        $cb!{i16x8 i32x4 I 32 4}
        $cb!{i16x8 u32x4 U 32 4}
        $cb!{i16x8 f32x4 F 32 4}
        $cb!{i16x8 m32x4 M 32 4}
        $cb!{i16x8 i64x2 I 64 2}
        $cb!{i16x8 u64x2 U 64 2}
        $cb!{i16x8 f64x2 F 64 2}
        $cb!{i16x8 m64x2 M 64 2}
        $cb!{i16x8 i128x1 I 128 1}
        $cb!{i16x8 u128x1 U 128 1}
        $cb!{i16x8 m128x1 M 128 1}
        $cb!{u16x8 i8x16 I 8 16}
        $cb!{u16x8 u8x16 U 8 16}
        $cb!{u16x8 m8x16 M 8 16}
        $cb!{u16x8 i16x8 I 16 8}
        $cb!{u16x8 m16x8 M 16 8}
        $cb!{u16x8 i32x4 I 32 4}
        $cb!{u16x8 u32x4 U 32 4}
        $cb!{u16x8 f32x4 F 32 4}
        $cb!{u16x8 m32x4 M 32 4}
        $cb!{u16x8 i64x2 I 64 2}
        $cb!{u16x8 u64x2 U 64 2}
        $cb!{u16x8 f64x2 F 64 2}
        $cb!{u16x8 m64x2 M 64 2}
        $cb!{u16x8 i128x1 I 128 1}
        $cb!{u16x8 u128x1 U 128 1}
        $cb!{u16x8 m128x1 M 128 1}
        $cb!{m16x8 m32x4 M 32 4}
        $cb!{m16x8 m64x2 M 64 2}
        $cb!{m16x8 m128x1 M 128 1}
        $cb!{i32x4 i8x16 I 8 16}
        $cb!{i32x4 u8x16 U 8 16}
        $cb!{i32x4 m8x16 M 8 16}
        $cb!{i32x4 i16x8 I 16 8}
        $cb!{i32x4 u16x8 U 16 8}
        $cb!{i32x4 m16x8 M 16 8}
        $cb!{i32x4 u32x4 U 32 4}
        $cb!{i32x4 f32x4 F 32 4}
        $cb!{i32x4 m32x4 M 32 4}
        $cb!{i32x4 i64x2 I 64 2}
        $cb!{i32x4 u64x2 U 64 2}
        $cb!{i32x4 f64x2 F 64 2}
        $cb!{i32x4 m64x2 M 64 2}
        $cb!{i32x4 i128x1 I 128 1}
        $cb!{i32x4 u128x1 U 128 1}
        $cb!{i32x4 m128x1 M 128 1}
        $cb!{u32x4 i8x16 I 8 16}
        $cb!{u32x4 u8x16 U 8 16}
        $cb!{u32x4 m8x16 M 8 16}
        $cb!{u32x4 i16x8 I 16 8}
        $cb!{u32x4 u16x8 U 16 8}
        $cb!{u32x4 m16x8 M 16 8}
        $cb!{u32x4 i32x4 I 32 4}
        $cb!{u32x4 f32x4 F 32 4}
        $cb!{u32x4 m32x4 M 32 4}
        $cb!{u32x4 i64x2 I 64 2}
        $cb!{u32x4 u64x2 U 64 2}
        $cb!{u32x4 f64x2 F 64 2}
        $cb!{u32x4 m64x2 M 64 2}
        $cb!{u32x4 i128x1 I 128 1}
        $cb!{u32x4 u128x1 U 128 1}
        $cb!{u32x4 m128x1 M 128 1}
        $cb!{f32x4 i8x16 I 8 16}
        $cb!{f32x4 u8x16 U 8 16}
        $cb!{f32x4 m8x16 M 8 16}
        $cb!{f32x4 i16x8 I 16 8}
        $cb!{f32x4 u16x8 U 16 8}
        $cb!{f32x4 m16x8 M 16 8}
        $cb!{f32x4 i32x4 I 32 4}
        $cb!{f32x4 u32x4 U 32 4}
        $cb!{f32x4 m32x4 M 32 4}
        $cb!{f32x4 i64x2 I 64 2}
        $cb!{f32x4 u64x2 U 64 2}
        $cb!{f32x4 f64x2 F 64 2}
        $cb!{f32x4 m64x2 M 64 2}
        $cb!{f32x4 i128x1 I 128 1}
        $cb!{f32x4 u128x1 U 128 1}
        $cb!{f32x4 m128x1 M 128 1}
        $cb!{m32x4 m64x2 M 64 2}
        $cb!{m32x4 m128x1 M 128 1}
        $cb!{i64x2 i8x16 I 8 16}
        $cb!{i64x2 u8x16 U 8 16}
        $cb!{i64x2 m8x16 M 8 16}
        $cb!{i64x2 i16x8 I 16 8}
        $cb!{i64x2 u16x8 U 16 8}
        $cb!{i64x2 m16x8 M 16 8}
        $cb!{i64x2 i32x4 I 32 4}
        $cb!{i64x2 u32x4 U 32 4}
        $cb!{i64x2 f32x4 F 32 4}
        $cb!{i64x2 m32x4 M 32 4}
        $cb!{i64x2 u64x2 U 64 2}
        $cb!{i64x2 f64x2 F 64 2}
        $cb!{i64x2 m64x2 M 64 2}
        $cb!{i64x2 i128x1 I 128 1}
        $cb!{i64x2 u128x1 U 128 1}
        $cb!{i64x2 m128x1 M 128 1}
        $cb!{u64x2 i8x16 I 8 16}
        $cb!{u64x2 u8x16 U 8 16}
        $cb!{u64x2 m8x16 M 8 16}
        $cb!{u64x2 i16x8 I 16 8}
        $cb!{u64x2 u16x8 U 16 8}
        $cb!{u64x2 m16x8 M 16 8}
        $cb!{u64x2 i32x4 I 32 4}
        $cb!{u64x2 u32x4 U 32 4}
        $cb!{u64x2 f32x4 F 32 4}
        $cb!{u64x2 m32x4 M 32 4}
        $cb!{u64x2 i64x2 I 64 2}
        $cb!{u64x2 f64x2 F 64 2}
        $cb!{u64x2 m64x2 M 64 2}
        $cb!{u64x2 i128x1 I 128 1}
        $cb!{u64x2 u128x1 U 128 1}
        $cb!{u64x2 m128x1 M 128 1}
        $cb!{f64x2 i8x16 I 8 16}
        $cb!{f64x2 u8x16 U 8 16}
        $cb!{f64x2 m8x16 M 8 16}
        $cb!{f64x2 i16x8 I 16 8}
        $cb!{f64x2 u16x8 U 16 8}
        $cb!{f64x2 m16x8 M 16 8}
        $cb!{f64x2 i32x4 I 32 4}
        $cb!{f64x2 u32x4 U 32 4}
        $cb!{f64x2 f32x4 F 32 4}
        $cb!{f64x2 m32x4 M 32 4}
        $cb!{f64x2 i64x2 I 64 2}
        $cb!{f64x2 u64x2 U 64 2}
        $cb!{f64x2 m64x2 M 64 2}
        $cb!{f64x2 i128x1 I 128 1}
        $cb!{f64x2 u128x1 U 128 1}
        $cb!{f64x2 m128x1 M 128 1}
        $cb!{m64x2 m128x1 M 128 1}
        $cb!{i128x1 i8x16 I 8 16}
        $cb!{i128x1 u8x16 U 8 16}
        $cb!{i128x1 m8x16 M 8 16}
        $cb!{i128x1 i16x8 I 16 8}
        $cb!{i128x1 u16x8 U 16 8}
        $cb!{i128x1 m16x8 M 16 8}
        $cb!{i128x1 i32x4 I 32 4}
        $cb!{i128x1 u32x4 U 32 4}
        $cb!{i128x1 f32x4 F 32 4}
        $cb!{i128x1 m32x4 M 32 4}
        $cb!{i128x1 i64x2 I 64 2}
        $cb!{i128x1 u64x2 U 64 2}
        $cb!{i128x1 f64x2 F 64 2}
        $cb!{i128x1 m64x2 M 64 2}
        $cb!{i128x1 u128x1 U 128 1}
        $cb!{i128x1 m128x1 M 128 1}
        $cb!{u128x1 i8x16 I 8 16}
        $cb!{u128x1 u8x16 U 8 16}
        $cb!{u128x1 m8x16 M 8 16}
        $cb!{u128x1 i16x8 I 16 8}
        $cb!{u128x1 u16x8 U 16 8}
        $cb!{u128x1 m16x8 M 16 8}
        $cb!{u128x1 i32x4 I 32 4}
        $cb!{u128x1 u32x4 U 32 4}
        $cb!{u128x1 f32x4 F 32 4}
        $cb!{u128x1 m32x4 M 32 4}
        $cb!{u128x1 i64x2 I 64 2}
        $cb!{u128x1 u64x2 U 64 2}
        $cb!{u128x1 f64x2 F 64 2}
        $cb!{u128x1 m64x2 M 64 2}
        $cb!{u128x1 i128x1 I 128 1}
        $cb!{u128x1 m128x1 M 128 1}
        $cb!{i8x32 u8x32 U 8 32}
        $cb!{i8x32 m8x32 M 8 32}
        $cb!{i8x32 i16x16 I 16 16}
        $cb!{i8x32 u16x16 U 16 16}
        $cb!{i8x32 m16x16 M 16 16}
        $cb!{i8x32 i32x8 I 32 8}
        $cb!{i8x32 u32x8 U 32 8}
        $cb!{i8x32 f32x8 F 32 8}
        $cb!{i8x32 m32x8 M 32 8}
        $cb!{i8x32 i64x4 I 64 4}
        $cb!{i8x32 u64x4 U 64 4}
        $cb!{i8x32 f64x4 F 64 4}
        $cb!{i8x32 m64x4 M 64 4}
        $cb!{i8x32 i128x2 I 128 2}
        $cb!{i8x32 u128x2 U 128 2}
        $cb!{i8x32 m128x2 M 128 2}
        $cb!{u8x32 i8x32 I 8 32}
        $cb!{u8x32 m8x32 M 8 32}
        $cb!{u8x32 i16x16 I 16 16}
        $cb!{u8x32 u16x16 U 16 16}
        $cb!{u8x32 m16x16 M 16 16}
        $cb!{u8x32 i32x8 I 32 8}
        $cb!{u8x32 u32x8 U 32 8}
        $cb!{u8x32 f32x8 F 32 8}
        $cb!{u8x32 m32x8 M 32 8}
        $cb!{u8x32 i64x4 I 64 4}
        $cb!{u8x32 u64x4 U 64 4}
        $cb!{u8x32 f64x4 F 64 4}
        $cb!{u8x32 m64x4 M 64 4}
        $cb!{u8x32 i128x2 I 128 2}
        $cb!{u8x32 u128x2 U 128 2}
        $cb!{u8x32 m128x2 M 128 2}
        $cb!{m8x32 m16x16 M 16 16}
        $cb!{m8x32 m32x8 M 32 8}
        $cb!{m8x32 m64x4 M 64 4}
        $cb!{m8x32 m128x2 M 128 2}
        $cb!{i16x16 i8x32 I 8 32}
        $cb!{i16x16 u8x32 U 8 32}
        $cb!{i16x16 m8x32 M 8 32}
        $cb!{i16x16 u16x16 U 16 16}
        $cb!{i16x16 m16x16 M 16 16}
        $cb!{i16x16 i32x8 I 32 8}
        $cb!{i16x16 u32x8 U 32 8}
        $cb!{i16x16 f32x8 F 32 8}
        $cb!{i16x16 m32x8 M 32 8}
        $cb!{i16x16 i64x4 I 64 4}
        $cb!{i16x16 u64x4 U 64 4}
        $cb!{i16x16 f64x4 F 64 4}
        $cb!{i16x16 m64x4 M 64 4}
        $cb!{i16x16 i128x2 I 128 2}
        $cb!{i16x16 u128x2 U 128 2}
        $cb!{i16x16 m128x2 M 128 2}
        $cb!{u16x16 i8x32 I 8 32}
        $cb!{u16x16 u8x32 U 8 32}
        $cb!{u16x16 m8x32 M 8 32}
        $cb!{u16x16 i16x16 I 16 16}
        $cb!{u16x16 m16x16 M 16 16}
        $cb!{u16x16 i32x8 I 32 8}
        $cb!{u16x16 u32x8 U 32 8}
        $cb!{u16x16 f32x8 F 32 8}
        $cb!{u16x16 m32x8 M 32 8}
        $cb!{u16x16 i64x4 I 64 4}
        $cb!{u16x16 u64x4 U 64 4}
        $cb!{u16x16 f64x4 F 64 4}
        $cb!{u16x16 m64x4 M 64 4}
        $cb!{u16x16 i128x2 I 128 2}
        $cb!{u16x16 u128x2 U 128 2}
        $cb!{u16x16 m128x2 M 128 2}
        $cb!{m16x16 m32x8 M 32 8}
        $cb!{m16x16 m64x4 M 64 4}
        $cb!{m16x16 m128x2 M 128 2}
        $cb!{i32x8 i8x32 I 8 32}
        $cb!{i32x8 u8x32 U 8 32}
        $cb!{i32x8 m8x32 M 8 32}
        $cb!{i32x8 i16x16 I 16 16}
        $cb!{i32x8 u16x16 U 16 16}
        $cb!{i32x8 m16x16 M 16 16}
        $cb!{i32x8 u32x8 U 32 8}
        $cb!{i32x8 f32x8 F 32 8}
        $cb!{i32x8 m32x8 M 32 8}
        $cb!{i32x8 i64x4 I 64 4}
        $cb!{i32x8 u64x4 U 64 4}
        $cb!{i32x8 f64x4 F 64 4}
        $cb!{i32x8 m64x4 M 64 4}
        $cb!{i32x8 i128x2 I 128 2}
        $cb!{i32x8 u128x2 U 128 2}
        $cb!{i32x8 m128x2 M 128 2}
        $cb!{u32x8 i8x32 I 8 32}
        $cb!{u32x8 u8x32 U 8 32}
        $cb!{u32x8 m8x32 M 8 32}
        $cb!{u32x8 i16x16 I 16 16}
        $cb!{u32x8 u16x16 U 16 16}
        $cb!{u32x8 m16x16 M 16 16}
        $cb!{u32x8 i32x8 I 32 8}
        $cb!{u32x8 f32x8 F 32 8}
        $cb!{u32x8 m32x8 M 32 8}
        $cb!{u32x8 i64x4 I 64 4}
        $cb!{u32x8 u64x4 U 64 4}
        $cb!{u32x8 f64x4 F 64 4}
        $cb!{u32x8 m64x4 M 64 4}
        $cb!{u32x8 i128x2 I 128 2}
        $cb!{u32x8 u128x2 U 128 2}
        $cb!{u32x8 m128x2 M 128 2}
        $cb!{f32x8 i8x32 I 8 32}
        $cb!{f32x8 u8x32 U 8 32}
        $cb!{f32x8 m8x32 M 8 32}
        $cb!{f32x8 i16x16 I 16 16}
        $cb!{f32x8 u16x16 U 16 16}
        $cb!{f32x8 m16x16 M 16 16}
        $cb!{f32x8 i32x8 I 32 8}
        $cb!{f32x8 u32x8 U 32 8}
        $cb!{f32x8 m32x8 M 32 8}
        $cb!{f32x8 i64x4 I 64 4}
        $cb!{f32x8 u64x4 U 64 4}
        $cb!{f32x8 f64x4 F 64 4}
        $cb!{f32x8 m64x4 M 64 4}
        $cb!{f32x8 i128x2 I 128 2}
        $cb!{f32x8 u128x2 U 128 2}
        $cb!{f32x8 m128x2 M 128 2}
        $cb!{m32x8 m64x4 M 64 4}
        $cb!{m32x8 m128x2 M 128 2}
        $cb!{i64x4 i8x32 I 8 32}
        $cb!{i64x4 u8x32 U 8 32}
        $cb!{i64x4 m8x32 M 8 32}
        $cb!{i64x4 i16x16 I 16 16}
        $cb!{i64x4 u16x16 U 16 16}
        $cb!{i64x4 m16x16 M 16 16}
        $cb!{i64x4 i32x8 I 32 8}
        $cb!{i64x4 u32x8 U 32 8}
        $cb!{i64x4 f32x8 F 32 8}
        $cb!{i64x4 m32x8 M 32 8}
        $cb!{i64x4 u64x4 U 64 4}
        $cb!{i64x4 f64x4 F 64 4}
        $cb!{i64x4 m64x4 M 64 4}
        $cb!{i64x4 i128x2 I 128 2}
        $cb!{i64x4 u128x2 U 128 2}
        $cb!{i64x4 m128x2 M 128 2}
        $cb!{u64x4 i8x32 I 8 32}
        $cb!{u64x4 u8x32 U 8 32}
        $cb!{u64x4 m8x32 M 8 32}
        $cb!{u64x4 i16x16 I 16 16}
        $cb!{u64x4 u16x16 U 16 16}
        $cb!{u64x4 m16x16 M 16 16}
        $cb!{u64x4 i32x8 I 32 8}
        $cb!{u64x4 u32x8 U 32 8}
        $cb!{u64x4 f32x8 F 32 8}
        $cb!{u64x4 m32x8 M 32 8}
        $cb!{u64x4 i64x4 I 64 4}
        $cb!{u64x4 f64x4 F 64 4}
        $cb!{u64x4 m64x4 M 64 4}
        $cb!{u64x4 i128x2 I 128 2}
        $cb!{u64x4 u128x2 U 128 2}
        $cb!{u64x4 m128x2 M 128 2}
        $cb!{f64x4 i8x32 I 8 32}
        $cb!{f64x4 u8x32 U 8 32}
        $cb!{f64x4 m8x32 M 8 32}
        $cb!{f64x4 i16x16 I 16 16}
        $cb!{f64x4 u16x16 U 16 16}
        $cb!{f64x4 m16x16 M 16 16}
        $cb!{f64x4 i32x8 I 32 8}
        $cb!{f64x4 u32x8 U 32 8}
        $cb!{f64x4 f32x8 F 32 8}
        $cb!{f64x4 m32x8 M 32 8}
        $cb!{f64x4 i64x4 I 64 4}
        $cb!{f64x4 u64x4 U 64 4}
        $cb!{f64x4 m64x4 M 64 4}
        $cb!{f64x4 i128x2 I 128 2}
        $cb!{f64x4 u128x2 U 128 2}
        $cb!{f64x4 m128x2 M 128 2}
        $cb!{m64x4 m128x2 M 128 2}
        $cb!{i128x2 i8x32 I 8 32}
        $cb!{i128x2 u8x32 U 8 32}
        $cb!{i128x2 m8x32 M 8 32}
        $cb!{i128x2 i16x16 I 16 16}
        $cb!{i128x2 u16x16 U 16 16}
        $cb!{i128x2 m16x16 M 16 16}
        $cb!{i128x2 i32x8 I 32 8}
        $cb!{i128x2 u32x8 U 32 8}
        $cb!{i128x2 f32x8 F 32 8}
        $cb!{i128x2 m32x8 M 32 8}
        $cb!{i128x2 i64x4 I 64 4}
        $cb!{i128x2 u64x4 U 64 4}
        $cb!{i128x2 f64x4 F 64 4}
        $cb!{i128x2 m64x4 M 64 4}
        $cb!{i128x2 u128x2 U 128 2}
        $cb!{i128x2 m128x2 M 128 2}
        $cb!{u128x2 i8x32 I 8 32}
        $cb!{u128x2 u8x32 U 8 32}
        $cb!{u128x2 m8x32 M 8 32}
        $cb!{u128x2 i16x16 I 16 16}
        $cb!{u128x2 u16x16 U 16 16}
        $cb!{u128x2 m16x16 M 16 16}
        $cb!{u128x2 i32x8 I 32 8}
        $cb!{u128x2 u32x8 U 32 8}
        $cb!{u128x2 f32x8 F 32 8}
        $cb!{u128x2 m32x8 M 32 8}
        $cb!{u128x2 i64x4 I 64 4}
        $cb!{u128x2 u64x4 U 64 4}
        $cb!{u128x2 f64x4 F 64 4}
        $cb!{u128x2 m64x4 M 64 4}
        $cb!{u128x2 i128x2 I 128 2}
        $cb!{u128x2 m128x2 M 128 2}
        $cb!{i8x64 u8x64 U 8 64}
        $cb!{i8x64 m8x64 M 8 64}
        $cb!{i8x64 i16x32 I 16 32}
        $cb!{i8x64 u16x32 U 16 32}
        $cb!{i8x64 m16x32 M 16 32}
        $cb!{i8x64 i32x16 I 32 16}
        $cb!{i8x64 u32x16 U 32 16}
        $cb!{i8x64 f32x16 F 32 16}
        $cb!{i8x64 m32x16 M 32 16}
        $cb!{i8x64 i64x8 I 64 8}
        $cb!{i8x64 u64x8 U 64 8}
        $cb!{i8x64 f64x8 F 64 8}
        $cb!{i8x64 m64x8 M 64 8}
        $cb!{i8x64 i128x4 I 128 4}
        $cb!{i8x64 u128x4 U 128 4}
        $cb!{i8x64 m128x4 M 128 4}
        $cb!{u8x64 i8x64 I 8 64}
        $cb!{u8x64 m8x64 M 8 64}
        $cb!{u8x64 i16x32 I 16 32}
        $cb!{u8x64 u16x32 U 16 32}
        $cb!{u8x64 m16x32 M 16 32}
        $cb!{u8x64 i32x16 I 32 16}
        $cb!{u8x64 u32x16 U 32 16}
        $cb!{u8x64 f32x16 F 32 16}
        $cb!{u8x64 m32x16 M 32 16}
        $cb!{u8x64 i64x8 I 64 8}
        $cb!{u8x64 u64x8 U 64 8}
        $cb!{u8x64 f64x8 F 64 8}
        $cb!{u8x64 m64x8 M 64 8}
        $cb!{u8x64 i128x4 I 128 4}
        $cb!{u8x64 u128x4 U 128 4}
        $cb!{u8x64 m128x4 M 128 4}
        $cb!{m8x64 m16x32 M 16 32}
        $cb!{m8x64 m32x16 M 32 16}
        $cb!{m8x64 m64x8 M 64 8}
        $cb!{m8x64 m128x4 M 128 4}
        $cb!{i16x32 i8x64 I 8 64}
        $cb!{i16x32 u8x64 U 8 64}
        $cb!{i16x32 m8x64 M 8 64}
        $cb!{i16x32 u16x32 U 16 32}
        $cb!{i16x32 m16x32 M 16 32}
        $cb!{i16x32 i32x16 I 32 16}
        $cb!{i16x32 u32x16 U 32 16}
        $cb!{i16x32 f32x16 F 32 16}
        $cb!{i16x32 m32x16 M 32 16}
        $cb!{i16x32 i64x8 I 64 8}
        $cb!{i16x32 u64x8 U 64 8}
        $cb!{i16x32 f64x8 F 64 8}
        $cb!{i16x32 m64x8 M 64 8}
        $cb!{i16x32 i128x4 I 128 4}
        $cb!{i16x32 u128x4 U 128 4}
        $cb!{i16x32 m128x4 M 128 4}
        $cb!{u16x32 i8x64 I 8 64}
        $cb!{u16x32 u8x64 U 8 64}
        $cb!{u16x32 m8x64 M 8 64}
        $cb!{u16x32 i16x32 I 16 32}
        $cb!{u16x32 m16x32 M 16 32}
        $cb!{u16x32 i32x16 I 32 16}
        $cb!{u16x32 u32x16 U 32 16}
        $cb!{u16x32 f32x16 F 32 16}
        $cb!{u16x32 m32x16 M 32 16}
        $cb!{u16x32 i64x8 I 64 8}
        $cb!{u16x32 u64x8 U 64 8}
        $cb!{u16x32 f64x8 F 64 8}
        $cb!{u16x32 m64x8 M 64 8}
        $cb!{u16x32 i128x4 I 128 4}
        $cb!{u16x32 u128x4 U 128 4}
        $cb!{u16x32 m128x4 M 128 4}
        $cb!{m16x32 m32x16 M 32 16}
        $cb!{m16x32 m64x8 M 64 8}
        $cb!{m16x32 m128x4 M 128 4}
        $cb!{i32x16 i8x64 I 8 64}
        $cb!{i32x16 u8x64 U 8 64}
        $cb!{i32x16 m8x64 M 8 64}
        $cb!{i32x16 i16x32 I 16 32}
        $cb!{i32x16 u16x32 U 16 32}
        $cb!{i32x16 m16x32 M 16 32}
        $cb!{i32x16 u32x16 U 32 16}
        $cb!{i32x16 f32x16 F 32 16}
        $cb!{i32x16 m32x16 M 32 16}
        $cb!{i32x16 i64x8 I 64 8}
        $cb!{i32x16 u64x8 U 64 8}
        $cb!{i32x16 f64x8 F 64 8}
        $cb!{i32x16 m64x8 M 64 8}
        $cb!{i32x16 i128x4 I 128 4}
        $cb!{i32x16 u128x4 U 128 4}
        $cb!{i32x16 m128x4 M 128 4}
        $cb!{u32x16 i8x64 I 8 64}
        $cb!{u32x16 u8x64 U 8 64}
        $cb!{u32x16 m8x64 M 8 64}
        $cb!{u32x16 i16x32 I 16 32}
        $cb!{u32x16 u16x32 U 16 32}
        $cb!{u32x16 m16x32 M 16 32}
        $cb!{u32x16 i32x16 I 32 16}
        $cb!{u32x16 f32x16 F 32 16}
        $cb!{u32x16 m32x16 M 32 16}
        $cb!{u32x16 i64x8 I 64 8}
        $cb!{u32x16 u64x8 U 64 8}
        $cb!{u32x16 f64x8 F 64 8}
        $cb!{u32x16 m64x8 M 64 8}
        $cb!{u32x16 i128x4 I 128 4}
        $cb!{u32x16 u128x4 U 128 4}
        $cb!{u32x16 m128x4 M 128 4}
        $cb!{f32x16 i8x64 I 8 64}
        $cb!{f32x16 u8x64 U 8 64}
        $cb!{f32x16 m8x64 M 8 64}
        $cb!{f32x16 i16x32 I 16 32}
        $cb!{f32x16 u16x32 U 16 32}
        $cb!{f32x16 m16x32 M 16 32}
        $cb!{f32x16 i32x16 I 32 16}
        $cb!{f32x16 u32x16 U 32 16}
        $cb!{f32x16 m32x16 M 32 16}
        $cb!{f32x16 i64x8 I 64 8}
        $cb!{f32x16 u64x8 U 64 8}
        $cb!{f32x16 f64x8 F 64 8}
        $cb!{f32x16 m64x8 M 64 8}
        $cb!{f32x16 i128x4 I 128 4}
        $cb!{f32x16 u128x4 U 128 4}
        $cb!{f32x16 m128x4 M 128 4}
        $cb!{m32x16 m64x8 M 64 8}
        $cb!{m32x16 m128x4 M 128 4}
        $cb!{i64x8 i8x64 I 8 64}
        $cb!{i64x8 u8x64 U 8 64}
        $cb!{i64x8 m8x64 M 8 64}
        $cb!{i64x8 i16x32 I 16 32}
        $cb!{i64x8 u16x32 U 16 32}
        $cb!{i64x8 m16x32 M 16 32}
        $cb!{i64x8 i32x16 I 32 16}
        $cb!{i64x8 u32x16 U 32 16}
        $cb!{i64x8 f32x16 F 32 16}
        $cb!{i64x8 m32x16 M 32 16}
        $cb!{i64x8 u64x8 U 64 8}
        $cb!{i64x8 f64x8 F 64 8}
        $cb!{i64x8 m64x8 M 64 8}
        $cb!{i64x8 i128x4 I 128 4}
        $cb!{i64x8 u128x4 U 128 4}
        $cb!{i64x8 m128x4 M 128 4}
        $cb!{u64x8 i8x64 I 8 64}
        $cb!{u64x8 u8x64 U 8 64}
        $cb!{u64x8 m8x64 M 8 64}
        $cb!{u64x8 i16x32 I 16 32}
        $cb!{u64x8 u16x32 U 16 32}
        $cb!{u64x8 m16x32 M 16 32}
        $cb!{u64x8 i32x16 I 32 16}
        $cb!{u64x8 u32x16 U 32 16}
        $cb!{u64x8 f32x16 F 32 16}
        $cb!{u64x8 m32x16 M 32 16}
        $cb!{u64x8 i64x8 I 64 8}
        $cb!{u64x8 f64x8 F 64 8}
        $cb!{u64x8 m64x8 M 64 8}
        $cb!{u64x8 i128x4 I 128 4}
        $cb!{u64x8 u128x4 U 128 4}
        $cb!{u64x8 m128x4 M 128 4}
        $cb!{f64x8 i8x64 I 8 64}
        $cb!{f64x8 u8x64 U 8 64}
        $cb!{f64x8 m8x64 M 8 64}
        $cb!{f64x8 i16x32 I 16 32}
        $cb!{f64x8 u16x32 U 16 32}
        $cb!{f64x8 m16x32 M 16 32}
        $cb!{f64x8 i32x16 I 32 16}
        $cb!{f64x8 u32x16 U 32 16}
        $cb!{f64x8 f32x16 F 32 16}
        $cb!{f64x8 m32x16 M 32 16}
        $cb!{f64x8 i64x8 I 64 8}
        $cb!{f64x8 u64x8 U 64 8}
        $cb!{f64x8 m64x8 M 64 8}
        $cb!{f64x8 i128x4 I 128 4}
        $cb!{f64x8 u128x4 U 128 4}
        $cb!{f64x8 m128x4 M 128 4}
        $cb!{m64x8 m128x4 M 128 4}
        $cb!{i128x4 i8x64 I 8 64}
        $cb!{i128x4 u8x64 U 8 64}
        $cb!{i128x4 m8x64 M 8 64}
        $cb!{i128x4 i16x32 I 16 32}
        $cb!{i128x4 u16x32 U 16 32}
        $cb!{i128x4 m16x32 M 16 32}
        $cb!{i128x4 i32x16 I 32 16}
        $cb!{i128x4 u32x16 U 32 16}
        $cb!{i128x4 f32x16 F 32 16}
        $cb!{i128x4 m32x16 M 32 16}
        $cb!{i128x4 i64x8 I 64 8}
        $cb!{i128x4 u64x8 U 64 8}
        $cb!{i128x4 f64x8 F 64 8}
        $cb!{i128x4 m64x8 M 64 8}
        $cb!{i128x4 u128x4 U 128 4}
        $cb!{i128x4 m128x4 M 128 4}
        $cb!{u128x4 i8x64 I 8 64}
        $cb!{u128x4 u8x64 U 8 64}
        $cb!{u128x4 m8x64 M 8 64}
        $cb!{u128x4 i16x32 I 16 32}
        $cb!{u128x4 u16x32 U 16 32}
        $cb!{u128x4 m16x32 M 16 32}
        $cb!{u128x4 i32x16 I 32 16}
        $cb!{u128x4 u32x16 U 32 16}
        $cb!{u128x4 f32x16 F 32 16}
        $cb!{u128x4 m32x16 M 32 16}
        $cb!{u128x4 i64x8 I 64 8}
        $cb!{u128x4 u64x8 U 64 8}
        $cb!{u128x4 f64x8 F 64 8}
        $cb!{u128x4 m64x8 M 64 8}
        $cb!{u128x4 i128x4 I 128 4}
        $cb!{u128x4 m128x4 M 128 4}
    };
}

#[macro_export]
macro_rules! arch_pairs {
    ($cb:ident) => {
        $cb!{__m128 i8x16 I 8 16}
        $cb!{__m128 u8x16 U 8 16}
        $cb!{__m128 m8x16 M 8 16}
        $cb!{__m128 i16x8 I 16 8}
        $cb!{__m128 u16x8 U 16 8}
        $cb!{__m128 m16x8 M 16 8}
        $cb!{__m128 i32x4 I 32 4}
        $cb!{__m128 u32x4 U 32 4}
        $cb!{__m128 f32x4 F 32 4}
        $cb!{__m128 m32x4 M 32 4}
        $cb!{__m128 i64x2 I 64 2}
        $cb!{__m128 u64x2 U 64 2}
        $cb!{__m128 f64x2 F 64 2}
        $cb!{__m128 m64x2 M 64 2}
        $cb!{__m128 i128x1 I 128 1}
        $cb!{__m128 u128x1 U 128 1}
        $cb!{__m128 m128x1 M 128 1}
        $cb!{__m128i i8x16 I 8 16}
        $cb!{__m128i u8x16 U 8 16}
        $cb!{__m128i m8x16 M 8 16}
        $cb!{__m128i i16x8 I 16 8}
        $cb!{__m128i u16x8 U 16 8}
        $cb!{__m128i m16x8 M 16 8}
        $cb!{__m128i i32x4 I 32 4}
        $cb!{__m128i u32x4 U 32 4}
        $cb!{__m128i f32x4 F 32 4}
        $cb!{__m128i m32x4 M 32 4}
        $cb!{__m128i i64x2 I 64 2}
        $cb!{__m128i u64x2 U 64 2}
        $cb!{__m128i f64x2 F 64 2}
        $cb!{__m128i m64x2 M 64 2}
        $cb!{__m128i i128x1 I 128 1}
        $cb!{__m128i u128x1 U 128 1}
        $cb!{__m128i m128x1 M 128 1}
        $cb!{__m128d i8x16 I 8 16}
        $cb!{__m128d u8x16 U 8 16}
        $cb!{__m128d m8x16 M 8 16}
        $cb!{__m128d i16x8 I 16 8}
        $cb!{__m128d u16x8 U 16 8}
        $cb!{__m128d m16x8 M 16 8}
        $cb!{__m128d i32x4 I 32 4}
        $cb!{__m128d u32x4 U 32 4}
        $cb!{__m128d f32x4 F 32 4}
        $cb!{__m128d m32x4 M 32 4}
        $cb!{__m128d i64x2 I 64 2}
        $cb!{__m128d u64x2 U 64 2}
        $cb!{__m128d f64x2 F 64 2}
        $cb!{__m128d m64x2 M 64 2}
        $cb!{__m128d i128x1 I 128 1}
        $cb!{__m128d u128x1 U 128 1}
        $cb!{__m128d m128x1 M 128 1}
        $cb!{__m256 i8x32 I 8 32}
        $cb!{__m256 u8x32 U 8 32}
        $cb!{__m256 m8x32 M 8 32}
        $cb!{__m256 i16x16 I 16 16}
        $cb!{__m256 u16x16 U 16 16}
        $cb!{__m256 m16x16 M 16 16}
        $cb!{__m256 i32x8 I 32 8}
        $cb!{__m256 u32x8 U 32 8}
        $cb!{__m256 f32x8 F 32 8}
        $cb!{__m256 m32x8 M 32 8}
        $cb!{__m256 i64x4 I 64 4}
        $cb!{__m256 u64x4 U 64 4}
        $cb!{__m256 f64x4 F 64 4}
        $cb!{__m256 m64x4 M 64 4}
        $cb!{__m256 i128x2 I 128 2}
        $cb!{__m256 u128x2 U 128 2}
        $cb!{__m256 m128x2 M 128 2}
        $cb!{__m256i i8x32 I 8 32}
        $cb!{__m256i u8x32 U 8 32}
        $cb!{__m256i m8x32 M 8 32}
        $cb!{__m256i i16x16 I 16 16}
        $cb!{__m256i u16x16 U 16 16}
        $cb!{__m256i m16x16 M 16 16}
        $cb!{__m256i i32x8 I 32 8}
        $cb!{__m256i u32x8 U 32 8}
        $cb!{__m256i f32x8 F 32 8}
        $cb!{__m256i m32x8 M 32 8}
        $cb!{__m256i i64x4 I 64 4}
        $cb!{__m256i u64x4 U 64 4}
        $cb!{__m256i f64x4 F 64 4}
        $cb!{__m256i m64x4 M 64 4}
        $cb!{__m256i i128x2 I 128 2}
        $cb!{__m256i u128x2 U 128 2}
        $cb!{__m256i m128x2 M 128 2}
        $cb!{__m256d i8x32 I 8 32}
        $cb!{__m256d u8x32 U 8 32}
        $cb!{__m256d m8x32 M 8 32}
        $cb!{__m256d i16x16 I 16 16}
        $cb!{__m256d u16x16 U 16 16}
        $cb!{__m256d m16x16 M 16 16}
        $cb!{__m256d i32x8 I 32 8}
        $cb!{__m256d u32x8 U 32 8}
        $cb!{__m256d f32x8 F 32 8}
        $cb!{__m256d m32x8 M 32 8}
        $cb!{__m256d i64x4 I 64 4}
        $cb!{__m256d u64x4 U 64 4}
        $cb!{__m256d f64x4 F 64 4}
        $cb!{__m256d m64x4 M 64 4}
        $cb!{__m256d i128x2 I 128 2}
        $cb!{__m256d u128x2 U 128 2}
        $cb!{__m256d m128x2 M 128 2}
    };
}

#[macro_export]
macro_rules! mask_from_bits {
    ($cb:ident) => {
        $cb!{m8x2 i8x2}
        $cb!{m8x2 u8x2}
        $cb!{m8x4 i8x4}
        $cb!{m8x4 u8x4}
        $cb!{m8x4 i16x2}
        $cb!{m8x4 u16x2}
        $cb!{m16x2 i8x4}
        $cb!{m16x2 u8x4}
        $cb!{m16x2 m8x4}
        $cb!{m16x2 i16x2}
        $cb!{m16x2 u16x2}
        $cb!{m8x8 i8x8}
        $cb!{m8x8 u8x8}
        $cb!{m8x8 i16x4}
        $cb!{m8x8 u16x4}
        $cb!{m8x8 i32x2}
        $cb!{m8x8 u32x2}
        $cb!{m8x8 f32x2}
        $cb!{m16x4 i8x8}
        $cb!{m16x4 u8x8}
        $cb!{m16x4 m8x8}
        $cb!{m16x4 i16x4}
        $cb!{m16x4 u16x4}
        $cb!{m16x4 i32x2}
        $cb!{m16x4 u32x2}
        $cb!{m16x4 f32x2}
        $cb!{m32x2 i8x8}
        $cb!{m32x2 u8x8}
        $cb!{m32x2 m8x8}
        $cb!{m32x2 i16x4}
        $cb!{m32x2 u16x4}
        $cb!{m32x2 m16x4}
        $cb!{m32x2 i32x2}
        $cb!{m32x2 u32x2}
        $cb!{m32x2 f32x2}
        $cb!{m8x16 i8x16}
        $cb!{m8x16 u8x16}
        $cb!{m8x16 i16x8}
        $cb!{m8x16 u16x8}
        $cb!{m8x16 i32x4}
        $cb!{m8x16 u32x4}
        $cb!{m8x16 f32x4}
        $cb!{m8x16 i64x2}
        $cb!{m8x16 u64x2}
        $cb!{m8x16 f64x2}
        $cb!{m8x16 i128x1}
        $cb!{m8x16 u128x1}
        $cb!{m8x16 __m128}
        $cb!{m8x16 __m128i}
        $cb!{m8x16 __m128d}
        $cb!{m16x8 i8x16}
        $cb!{m16x8 u8x16}
        $cb!{m16x8 m8x16}
        $cb!{m16x8 i16x8}
        $cb!{m16x8 u16x8}
        $cb!{m16x8 i32x4}
        $cb!{m16x8 u32x4}
        $cb!{m16x8 f32x4}
        $cb!{m16x8 i64x2}
        $cb!{m16x8 u64x2}
        $cb!{m16x8 f64x2}
        $cb!{m16x8 i128x1}
        $cb!{m16x8 u128x1}
        $cb!{m16x8 __m128}
        $cb!{m16x8 __m128i}
        $cb!{m16x8 __m128d}
        $cb!{m32x4 i8x16}
        $cb!{m32x4 u8x16}
        $cb!{m32x4 m8x16}
        $cb!{m32x4 i16x8}
        $cb!{m32x4 u16x8}
        $cb!{m32x4 m16x8}
        $cb!{m32x4 i32x4}
        $cb!{m32x4 u32x4}
        $cb!{m32x4 f32x4}
        $cb!{m32x4 i64x2}
        $cb!{m32x4 u64x2}
        $cb!{m32x4 f64x2}
        $cb!{m32x4 i128x1}
        $cb!{m32x4 u128x1}
        $cb!{m32x4 __m128}
        $cb!{m32x4 __m128i}
        $cb!{m32x4 __m128d}
        $cb!{m64x2 i8x16}
        $cb!{m64x2 u8x16}
        $cb!{m64x2 m8x16}
        $cb!{m64x2 i16x8}
        $cb!{m64x2 u16x8}
        $cb!{m64x2 m16x8}
        $cb!{m64x2 i32x4}
        $cb!{m64x2 u32x4}
        $cb!{m64x2 f32x4}
        $cb!{m64x2 m32x4}
        $cb!{m64x2 i64x2}
        $cb!{m64x2 u64x2}
        $cb!{m64x2 f64x2}
        $cb!{m64x2 i128x1}
        $cb!{m64x2 u128x1}
        $cb!{m64x2 __m128}
        $cb!{m64x2 __m128i}
        $cb!{m64x2 __m128d}
        $cb!{m128x1 i8x16}
        $cb!{m128x1 u8x16}
        $cb!{m128x1 m8x16}
        $cb!{m128x1 i16x8}
        $cb!{m128x1 u16x8}
        $cb!{m128x1 m16x8}
        $cb!{m128x1 i32x4}
        $cb!{m128x1 u32x4}
        $cb!{m128x1 f32x4}
        $cb!{m128x1 m32x4}
        $cb!{m128x1 i64x2}
        $cb!{m128x1 u64x2}
        $cb!{m128x1 f64x2}
        $cb!{m128x1 m64x2}
        $cb!{m128x1 i128x1}
        $cb!{m128x1 u128x1}
        $cb!{m128x1 __m128}
        $cb!{m128x1 __m128i}
        $cb!{m128x1 __m128d}
        $cb!{m8x32 i8x32}
        $cb!{m8x32 u8x32}
        $cb!{m8x32 i16x16}
        $cb!{m8x32 u16x16}
        $cb!{m8x32 i32x8}
        $cb!{m8x32 u32x8}
        $cb!{m8x32 f32x8}
        $cb!{m8x32 i64x4}
        $cb!{m8x32 u64x4}
        $cb!{m8x32 f64x4}
        $cb!{m8x32 i128x2}
        $cb!{m8x32 u128x2}
        $cb!{m8x32 __m256}
        $cb!{m8x32 __m256i}
        $cb!{m8x32 __m256d}
        $cb!{m16x16 i8x32}
        $cb!{m16x16 u8x32}
        $cb!{m16x16 m8x32}
        $cb!{m16x16 i16x16}
        $cb!{m16x16 u16x16}
        $cb!{m16x16 i32x8}
        $cb!{m16x16 u32x8}
        $cb!{m16x16 f32x8}
        $cb!{m16x16 i64x4}
        $cb!{m16x16 u64x4}
        $cb!{m16x16 f64x4}
        $cb!{m16x16 i128x2}
        $cb!{m16x16 u128x2}
        $cb!{m16x16 __m256}
        $cb!{m16x16 __m256i}
        $cb!{m16x16 __m256d}
        $cb!{m32x8 i8x32}
        $cb!{m32x8 u8x32}
        $cb!{m32x8 m8x32}
        $cb!{m32x8 i16x16}
        $cb!{m32x8 u16x16}
        $cb!{m32x8 m16x16}
        $cb!{m32x8 i32x8}
        $cb!{m32x8 u32x8}
        $cb!{m32x8 f32x8}
        $cb!{m32x8 i64x4}
        $cb!{m32x8 u64x4}
        $cb!{m32x8 f64x4}
        $cb!{m32x8 i128x2}
        $cb!{m32x8 u128x2}
        $cb!{m32x8 __m256}
        $cb!{m32x8 __m256i}
        $cb!{m32x8 __m256d}
        $cb!{m64x4 i8x32}
        $cb!{m64x4 u8x32}
        $cb!{m64x4 m8x32}
        $cb!{m64x4 i16x16}
        $cb!{m64x4 u16x16}
        $cb!{m64x4 m16x16}
        $cb!{m64x4 i32x8}
        $cb!{m64x4 u32x8}
        $cb!{m64x4 f32x8}
        $cb!{m64x4 m32x8}
        $cb!{m64x4 i64x4}
        $cb!{m64x4 u64x4}
        $cb!{m64x4 f64x4}
        $cb!{m64x4 i128x2}
        $cb!{m64x4 u128x2}
        $cb!{m64x4 __m256}
        $cb!{m64x4 __m256i}
        $cb!{m64x4 __m256d}
        $cb!{m128x2 i8x32}
        $cb!{m128x2 u8x32}
        $cb!{m128x2 m8x32}
        $cb!{m128x2 i16x16}
        $cb!{m128x2 u16x16}
        $cb!{m128x2 m16x16}
        $cb!{m128x2 i32x8}
        $cb!{m128x2 u32x8}
        $cb!{m128x2 f32x8}
        $cb!{m128x2 m32x8}
        $cb!{m128x2 i64x4}
        $cb!{m128x2 u64x4}
        $cb!{m128x2 f64x4}
        $cb!{m128x2 m64x4}
        $cb!{m128x2 i128x2}
        $cb!{m128x2 u128x2}
        $cb!{m128x2 __m256}
        $cb!{m128x2 __m256i}
        $cb!{m128x2 __m256d}
        $cb!{m8x64 i8x64}
        $cb!{m8x64 u8x64}
        $cb!{m8x64 i16x32}
        $cb!{m8x64 u16x32}
        $cb!{m8x64 i32x16}
        $cb!{m8x64 u32x16}
        $cb!{m8x64 f32x16}
        $cb!{m8x64 i64x8}
        $cb!{m8x64 u64x8}
        $cb!{m8x64 f64x8}
        $cb!{m8x64 i128x4}
        $cb!{m8x64 u128x4}
        $cb!{m16x32 i8x64}
        $cb!{m16x32 u8x64}
        $cb!{m16x32 m8x64}
        $cb!{m16x32 i16x32}
        $cb!{m16x32 u16x32}
        $cb!{m16x32 i32x16}
        $cb!{m16x32 u32x16}
        $cb!{m16x32 f32x16}
        $cb!{m16x32 i64x8}
        $cb!{m16x32 u64x8}
        $cb!{m16x32 f64x8}
        $cb!{m16x32 i128x4}
        $cb!{m16x32 u128x4}
        $cb!{m32x16 i8x64}
        $cb!{m32x16 u8x64}
        $cb!{m32x16 m8x64}
        $cb!{m32x16 i16x32}
        $cb!{m32x16 u16x32}
        $cb!{m32x16 m16x32}
        $cb!{m32x16 i32x16}
        $cb!{m32x16 u32x16}
        $cb!{m32x16 f32x16}
        $cb!{m32x16 i64x8}
        $cb!{m32x16 u64x8}
        $cb!{m32x16 f64x8}
        $cb!{m32x16 i128x4}
        $cb!{m32x16 u128x4}
        $cb!{m64x8 i8x64}
        $cb!{m64x8 u8x64}
        $cb!{m64x8 m8x64}
        $cb!{m64x8 i16x32}
        $cb!{m64x8 u16x32}
        $cb!{m64x8 m16x32}
        $cb!{m64x8 i32x16}
        $cb!{m64x8 u32x16}
        $cb!{m64x8 f32x16}
        $cb!{m64x8 m32x16}
        $cb!{m64x8 i64x8}
        $cb!{m64x8 u64x8}
        $cb!{m64x8 f64x8}
        $cb!{m64x8 i128x4}
        $cb!{m64x8 u128x4}
        $cb!{m128x4 i8x64}
        $cb!{m128x4 u8x64}
        $cb!{m128x4 m8x64}
        $cb!{m128x4 i16x32}
        $cb!{m128x4 u16x32}
        $cb!{m128x4 m16x32}
        $cb!{m128x4 i32x16}
        $cb!{m128x4 u32x16}
        $cb!{m128x4 f32x16}
        $cb!{m128x4 m32x16}
        $cb!{m128x4 i64x8}
        $cb!{m128x4 u64x8}
        $cb!{m128x4 f64x8}
        $cb!{m128x4 m64x8}
        $cb!{m128x4 i128x4}
        $cb!{m128x4 u128x4}
    };
}
