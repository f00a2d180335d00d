// generated by tools/gen_triples.py 7000 6 12
#if TRIPLE_SET == 1
#define TRIPLE_TYPES Full<U32>, \
    SR<-65538LL, -65538LL>, \
    BI<U8>, \
    Full<I32>, \
    Full<U8>, \
    Full<U64>, \
    Full<I16>, \
    SB<U16, U16(5ULL), U16(5ULL)>, \
    SB<U8, U8(0ULL), U8(10ULL)>, \
    SR<49LL, 54LL>, \
    UR<15ULL, 20ULL>, \
    SR<127LL, 127LL>
#define TRIPLE_NAMES "u32", "sr[-65538,-65538]", "b_u8", "i32", "u8", "u64", "i16", "u16[5,5]", "u8[0,10]", "sr[49,54]", "ur[15,20]", "sr[127,127]"
#define TRIPLES Tr<0, 1, 2, true>, Tr<3, 4, 4, false>, Tr<5, 4, 4, false>, Tr<6, 0, 7, true>, Tr<4, 4, 8, false>, Tr<9, 10, 11, true>
#endif
#if TRIPLE_SET == 2
#define TRIPLE_TYPES Full<U32>, \
    SB<U32, U32(0ULL), U32(0ULL)>, \
    UR<0ULL, 100ULL>, \
    Full<U8>, \
    BI<I16>, \
    Full<I64>, \
    SR<-2147483648LL, -2147483646LL>, \
    Full<U16>, \
    SR<-513LL, -503LL>, \
    SR<-32768LL, -32766LL>, \
    SB<I8, I8(127LL), I8(127LL)>, \
    UR<0ULL, 20ULL>, \
    SB<U8, U8(0ULL), U8(255ULL)>, \
    SB<U8, U8(255ULL), U8(255ULL)>, \
    Full<U64>
#define TRIPLE_NAMES "u32", "u32[0,0]", "ur[0,100]", "u8", "b_i16", "i64", "sr[-2147483648,-2147483646]", "u16", "sr[-513,-503]", "sr[-32768,-32766]", "i8[127,127]", "ur[0,20]", "u8[0,255]", "u8[255,255]", "u64"
#define TRIPLES Tr<0, 1, 0, true>, Tr<2, 3, 4, false>, Tr<5, 6, 7, true>, Tr<8, 7, 9, true>, Tr<10, 11, 12, true>, Tr<13, 14, 7, true>
#endif
#if TRIPLE_SET == 3
#define TRIPLE_TYPES SB<I8, I8(1LL), I8(127LL)>, \
    Full<I8>, \
    BI<I16>, \
    SB<U32, U32(257ULL), U32(258ULL)>, \
    Full<U32>, \
    Full<I64>, \
    SB<U8, U8(0ULL), U8(255ULL)>, \
    SB<I32, I32(-128LL), I32(15LL)>, \
    Full<I16>, \
    SR<-2147483648LL, -2LL>, \
    BI<I64>, \
    UR<255ULL, 1255ULL>
#define TRIPLE_NAMES "i8[1,127]", "i8", "b_i16", "u32[257,258]", "u32", "i64", "u8[0,255]", "i32[-128,15]", "i16", "sr[-2147483648,-2]", "b_i64", "ur[255,1255]"
#define TRIPLES Tr<0, 1, 2, true>, Tr<3, 4, 5, true>, Tr<6, 6, 7, false>, Tr<4, 4, 8, true>, Tr<9, 4, 10, true>, Tr<5, 11, 2, true>
#endif
#if TRIPLE_SET == 4
#define TRIPLE_TYPES SB<U8, U8(0ULL), U8(255ULL)>, \
    Full<U64>, \
    SB<U8, U8(2ULL), U8(31ULL)>, \
    Full<U32>, \
    BI<I8>, \
    Full<U8>, \
    Full<I32>, \
    Full<I8>, \
    Full<I64>, \
    UR<4294967295ULL, 4294967295ULL>, \
    Full<I16>, \
    SR<2147483645LL, 2147483645LL>, \
    SB<I64, I64(-42LL), I64(70368744177663LL)>, \
    SB<U8, U8(1ULL), U8(11ULL)>
#define TRIPLE_NAMES "u8[0,255]", "u64", "u8[2,31]", "u32", "b_i8", "u8", "i32", "i8", "i64", "ur[4294967295,4294967295]", "i16", "sr[2147483645,2147483645]", "i64[-42,70368744177663]", "u8[1,11]"
#define TRIPLES Tr<0, 0, 1, true>, Tr<2, 3, 4, true>, Tr<5, 5, 6, true>, Tr<7, 8, 9, true>, Tr<10, 10, 3, false>, Tr<11, 12, 13, true>
#endif
#if TRIPLE_SET == 5
#define TRIPLE_TYPES Full<U8>, \
    BI<I32>, \
    SB<I64, I64(8LL), I64(21LL)>, \
    BI<U8>, \
    SR<-128LL, 127LL>, \
    Full<I8>, \
    Full<I16>, \
    SR<(-9223372036854775807LL - 1), 116LL>, \
    SR<-32768LL, -31768LL>, \
    Full<U16>, \
    SR<2LL, 122LL>, \
    SR<128LL, 133LL>, \
    Full<I64>, \
    SB<U8, U8(0ULL), U8(100ULL)>
#define TRIPLE_NAMES "u8", "b_i32", "i64[8,21]", "b_u8", "sr[-128,127]", "i8", "i16", "sr[-9223372036854775808,116]", "sr[-32768,-31768]", "u16", "sr[2,122]", "sr[128,133]", "i64", "u8[0,100]"
#define TRIPLES Tr<0, 0, 1, false>, Tr<2, 0, 3, true>, Tr<4, 5, 6, false>, Tr<7, 8, 9, true>, Tr<10, 0, 11, true>, Tr<6, 12, 13, false>
#endif
#if TRIPLE_SET == 6
#define TRIPLE_TYPES Full<I32>, \
    Full<I8>, \
    BI<U32>, \
    Full<U16>, \
    Full<I64>, \
    SR<-128LL, -28LL>, \
    Full<U32>, \
    SR<-255LL, 9223372036854775806LL>, \
    SB<I32, I32(-2147483648LL), I32(128LL)>, \
    Full<U8>, \
    SR<-131073LL, 256LL>, \
    Full<U64>, \
    SB<I16, I16(-5LL), I16(32764LL)>
#define TRIPLE_NAMES "i32", "i8", "b_u32", "u16", "i64", "sr[-128,-28]", "u32", "sr[-255,9223372036854775806]", "i32[-2147483648,128]", "u8", "sr[-131073,256]", "u64", "i16[-5,32764]"
#define TRIPLES Tr<0, 1, 2, false>, Tr<3, 4, 4, false>, Tr<5, 6, 7, true>, Tr<8, 9, 10, false>, Tr<11, 11, 11, false>, Tr<11, 12, 3, false>
#endif
#if TRIPLE_SET == 7
#define TRIPLE_TYPES Full<I8>, \
    Full<I16>, \
    BI<U16>, \
    Full<I64>, \
    Full<U64>, \
    UR<0ULL, 3ULL>, \
    Full<U8>, \
    Full<U16>, \
    SB<I8, I8(63LL), I8(127LL)>, \
    SR<-246LL, 1024LL>, \
    Full<U32>, \
    SB<U64, U64(5ULL), U64(128ULL)>, \
    UR<255ULL, 255ULL>
#define TRIPLE_NAMES "i8", "i16", "b_u16", "i64", "u64", "ur[0,3]", "u8", "u16", "i8[63,127]", "sr[-246,1024]", "u32", "u64[5,128]", "ur[255,255]"
#define TRIPLES Tr<0, 1, 2, false>, Tr<3, 4, 1, false>, Tr<5, 6, 7, false>, Tr<1, 1, 8, true>, Tr<9, 9, 10, true>, Tr<10, 11, 12, true>
#endif
#if TRIPLE_SET == 8
#define TRIPLE_TYPES Full<I32>, \
    Full<U32>, \
    SR<63LL, 32767LL>, \
    Full<I8>, \
    SB<U64, U64(0ULL), U64(2ULL)>, \
    SB<I32, I32(63LL), I32(68LL)>, \
    BI<U32>, \
    SB<I8, I8(-128LL), I8(127LL)>, \
    SR<-32768LL, -128LL>, \
    Full<I64>, \
    UR<126ULL, 255ULL>, \
    Full<U16>, \
    BI<U16>
#define TRIPLE_NAMES "i32", "u32", "sr[63,32767]", "i8", "u64[0,2]", "i32[63,68]", "b_u32", "i8[-128,127]", "sr[-32768,-128]", "i64", "ur[126,255]", "u16", "b_u16"
#define TRIPLES Tr<0, 0, 1, true>, Tr<2, 3, 4, true>, Tr<5, 5, 6, true>, Tr<7, 7, 3, true>, Tr<8, 3, 9, true>, Tr<10, 11, 12, true>
#endif
#if TRIPLE_SET == 9
#define TRIPLE_TYPES SB<I32, I32(-6LL), I32(15LL)>, \
    Full<U8>, \
    Full<U32>, \
    Full<I16>, \
    UR<0ULL, 1ULL>, \
    SB<U16, U16(127ULL), U16(127ULL)>, \
    Full<I64>, \
    SB<U8, U8(0ULL), U8(255ULL)>, \
    SB<U8, U8(0ULL), U8(1ULL)>, \
    SB<I64, I64(-2LL), I64(3LL)>, \
    SB<I8, I8(-16LL), I8(127LL)>, \
    SR<9LL, 512LL>, \
    SB<U16, U16(81ULL), U16(83ULL)>, \
    UR<0ULL, 65535ULL>, \
    SB<U32, U32(0ULL), U32(0ULL)>
#define TRIPLE_NAMES "i32[-6,15]", "u8", "u32", "i16", "ur[0,1]", "u16[127,127]", "i64", "u8[0,255]", "u8[0,1]", "i64[-2,3]", "i8[-16,127]", "sr[9,512]", "u16[81,83]", "ur[0,65535]", "u32[0,0]"
#define TRIPLES Tr<0, 1, 2, false>, Tr<3, 3, 4, false>, Tr<5, 6, 7, true>, Tr<8, 9, 10, false>, Tr<11, 3, 12, true>, Tr<6, 13, 14, true>
#endif
#if TRIPLE_SET == 10
#define TRIPLE_TYPES Full<I64>, \
    SB<I32, I32(-131071LL), I32(255LL)>, \
    Full<I16>, \
    Full<U8>, \
    Full<I8>, \
    SB<I64, I64(3LL), I64(127LL)>, \
    Full<I32>, \
    SB<I8, I8(-128LL), I8(-123LL)>, \
    BI<I32>, \
    BI<I64>, \
    Full<U16>, \
    SR<15LL, 32LL>, \
    UR<0ULL, 255ULL>
#define TRIPLE_NAMES "i64", "i32[-131071,255]", "i16", "u8", "i8", "i64[3,127]", "i32", "i8[-128,-123]", "b_i32", "b_i64", "u16", "sr[15,32]", "ur[0,255]"
#define TRIPLES Tr<0, 1, 2, false>, Tr<3, 3, 4, false>, Tr<5, 6, 7, true>, Tr<2, 2, 8, true>, Tr<0, 0, 9, false>, Tr<10, 11, 12, true>
#endif
#if TRIPLE_SET == 11
#define TRIPLE_TYPES UR<255ULL, 255ULL>, \
    Full<I8>, \
    Full<I16>, \
    Full<U32>, \
    SR<64LL, 164LL>, \
    BI<I8>, \
    SB<U32, U32(0ULL), U32(10ULL)>, \
    SB<I16, I16(-166LL), I16(-66LL)>, \
    Full<I32>, \
    Full<U64>, \
    SR<-8194LL, 65535LL>, \
    BI<I32>, \
    SB<I64, I64(191LL), I64(9223372036854775807LL)>, \
    SB<I16, I16(32767LL), I16(32767LL)>, \
    UR<0ULL, 2047ULL>
#define TRIPLE_NAMES "ur[255,255]", "i8", "i16", "u32", "sr[64,164]", "b_i8", "u32[0,10]", "i16[-166,-66]", "i32", "u64", "sr[-8194,65535]", "b_i32", "i64[191,9223372036854775807]", "i16[32767,32767]", "ur[0,2047]"
#define TRIPLES Tr<0, 1, 2, true>, Tr<3, 4, 5, true>, Tr<6, 7, 8, true>, Tr<9, 10, 11, false>, Tr<8, 12, 9, true>, Tr<13, 14, 1, true>
#endif
#if TRIPLE_SET == 12
#define TRIPLE_TYPES UR<1ULL, 11ULL>, \
    UR<0ULL, 0ULL>, \
    SR<-2147483648LL, -2147483646LL>, \
    Full<I8>, \
    Full<U64>, \
    Full<U8>, \
    UR<0ULL, 4294967295ULL>, \
    SB<I8, I8(64LL), I8(127LL)>, \
    SB<U16, U16(15ULL), U16(20ULL)>, \
    SB<U8, U8(0ULL), U8(255ULL)>, \
    Full<I32>, \
    UR<70ULL, 4294967292ULL>, \
    SR<-127LL, 32LL>, \
    Full<U16>
#define TRIPLE_NAMES "ur[1,11]", "ur[0,0]", "sr[-2147483648,-2147483646]", "i8", "u64", "u8", "ur[0,4294967295]", "i8[64,127]", "u16[15,20]", "u8[0,255]", "i32", "ur[70,4294967292]", "sr[-127,32]", "u16"
#define TRIPLES Tr<0, 0, 1, true>, Tr<2, 3, 4, true>, Tr<5, 6, 7, true>, Tr<8, 9, 10, true>, Tr<11, 4, 12, true>, Tr<13, 10, 3, false>
#endif
