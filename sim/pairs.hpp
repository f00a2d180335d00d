// generated by tools/gen_pairs.py 5000 24 20
#if PAIR_SET == 1
#define PAIR_TYPES Full<I64>, Full<I64>, \
    SB<U32, U32(512ULL), U32(517ULL)>, ULIT<0ULL>, \
    SB<U16, U16(0ULL), U16(1000ULL)>, BI<U16>, \
    SR<-31LL, 32767LL>, ULIT<0ULL>, \
    Full<I64>, SB<U8, U8(255ULL), U8(255ULL)>, \
    SB<U64, U64(18446744073709551615ULL), U64(18446744073709551615ULL)>, SR<32767LL, 32767LL>, \
    SB<U16, U16(0ULL), U16(128ULL)>, UR<0ULL, 33ULL>, \
    Full<I64>, UR<0ULL, 1000ULL>, \
    Full<I32>, Full<U32>, \
    Full<I16>, BI<U8>, \
    Full<I64>, LIT<220LL>, \
    Full<I32>, BI<U64>, \
    Full<U16>, SB<U32, U32(160ULL), U32(4294967295ULL)>, \
    Full<U16>, SB<U32, U32(2147483647ULL), U32(2147484647ULL)>, \
    SB<I16, I16(-119LL), I16(49LL)>, ULIT<4ULL>, \
    Full<U64>, LIT<262146LL>, \
    SR<-2047LL, 9223372036854775805LL>, LIT<1025LL>, \
    Full<U16>, SR<64LL, 69LL>, \
    SB<I64, I64(31LL), I64(31LL)>, ULIT<0ULL>, \
    Full<U32>, LIT<4LL>, \
    SB<U32, U32(0ULL), U32(63ULL)>, LIT<16LL>, \
    Full<I32>, BI<U32>, \
    SB<I32, I32(-129LL), I32(8LL)>, SR<-2147483647LL, -2147483637LL>, \
    Full<I16>, BI<I16>
#define PAIR_NAMES "i64", "i64", \
    "u32[512,517]", "ulit0", \
    "u16[0,1000]", "b_u16", \
    "sr[-31,32767]", "ulit0", \
    "i64", "u8[255,255]", \
    "u64[18446744073709551615,18446744073709551615]", "sr[32767,32767]", \
    "u16[0,128]", "ur[0,33]", \
    "i64", "ur[0,1000]", \
    "i32", "u32", \
    "i16", "b_u8", \
    "i64", "lit220", \
    "i32", "b_u64", \
    "u16", "u32[160,4294967295]", \
    "u16", "u32[2147483647,2147484647]", \
    "i16[-119,49]", "ulit4", \
    "u64", "lit262146", \
    "sr[-2047,9223372036854775805]", "lit1025", \
    "u16", "sr[64,69]", \
    "i64[31,31]", "ulit0", \
    "u32", "lit4", \
    "u32[0,63]", "lit16", \
    "i32", "b_u32", \
    "i32[-129,8]", "sr[-2147483647,-2147483637]", \
    "i16", "b_i16"
#endif
#if PAIR_SET == 2
#define PAIR_TYPES SR<(-9223372036854775807LL - 1), -9223372036854775798LL>, LIT<9223372036854775807LL>, \
    SB<I64, I64(256LL), I64(9223372036854775807LL)>, SB<U32, U32(2ULL), U32(4294967292ULL)>, \
    SB<U16, U16(65535ULL), U16(65535ULL)>, LIT<(-9223372036854775807LL - 1)>, \
    SB<I32, I32(1LL), I32(255LL)>, BI<U64>, \
    UR<0ULL, 32ULL>, SB<U16, U16(0ULL), U16(1ULL)>, \
    Full<U16>, BI<I16>, \
    Full<I64>, SB<I32, I32(-524288LL), I32(2147483647LL)>, \
    Full<I8>, BI<U32>, \
    Full<I8>, LIT<154LL>, \
    Full<U16>, SB<U32, U32(65535ULL), U32(134217728ULL)>, \
    SB<U32, U32(31ULL), U32(4294967295ULL)>, LIT<(-9223372036854775807LL - 1)>, \
    UR<0ULL, 5ULL>, SB<I64, I64(8LL), I64(8LL)>, \
    Full<I8>, SB<U8, U8(8ULL), U8(64ULL)>, \
    UR<0ULL, 0ULL>, SB<U32, U32(0ULL), U32(0ULL)>, \
    Full<U64>, LIT<2147483648LL>, \
    Full<U32>, Full<U32>, \
    Full<I64>, BI<U8>, \
    SB<U64, U64(256ULL), U64(18446744073709551615ULL)>, SB<I8, I8(-128LL), I8(-127LL)>, \
    SB<U8, U8(128ULL), U8(255ULL)>, UR<1ULL, 4294967293ULL>, \
    UR<200ULL, 201ULL>, BI<U32>, \
    Full<U32>, BI<I16>, \
    Full<U32>, UR<8ULL, 255ULL>, \
    UR<0ULL, 100ULL>, LIT<-8LL>, \
    Full<I64>, SB<U16, U16(31ULL), U16(65535ULL)>
#define PAIR_NAMES "sr[-9223372036854775808,-9223372036854775798]", "lit9223372036854775807", \
    "i64[256,9223372036854775807]", "u32[2,4294967292]", \
    "u16[65535,65535]", "lit-9223372036854775808", \
    "i32[1,255]", "b_u64", \
    "ur[0,32]", "u16[0,1]", \
    "u16", "b_i16", \
    "i64", "i32[-524288,2147483647]", \
    "i8", "b_u32", \
    "i8", "lit154", \
    "u16", "u32[65535,134217728]", \
    "u32[31,4294967295]", "lit-9223372036854775808", \
    "ur[0,5]", "i64[8,8]", \
    "i8", "u8[8,64]", \
    "ur[0,0]", "u32[0,0]", \
    "u64", "lit2147483648", \
    "u32", "u32", \
    "i64", "b_u8", \
    "u64[256,18446744073709551615]", "i8[-128,-127]", \
    "u8[128,255]", "ur[1,4294967293]", \
    "ur[200,201]", "b_u32", \
    "u32", "b_i16", \
    "u32", "ur[8,255]", \
    "ur[0,100]", "lit-8", \
    "i64", "u16[31,65535]"
#endif
#if PAIR_SET == 3
#define PAIR_TYPES SB<I32, I32(-262LL), I32(-252LL)>, LIT<524288LL>, \
    Full<U8>, ULIT<291ULL>, \
    UR<0ULL, 0ULL>, UR<2048ULL, 65535ULL>, \
    Full<U32>, UR<4294967295ULL, 4294967295ULL>, \
    Full<U8>, Full<I8>, \
    SR<128LL, 138LL>, BI<U32>, \
    UR<0ULL, 100ULL>, BI<I32>, \
    Full<I32>, BI<U32>, \
    Full<I16>, SB<I32, I32(-2147483645LL), I32(-2147483545LL)>, \
    Full<I64>, LIT<9223372036854775806LL>, \
    Full<U8>, SB<I32, I32(2LL), I32(2LL)>, \
    Full<U8>, SB<U16, U16(188ULL), U16(288ULL)>, \
    SB<U32, U32(4294967295ULL), U32(4294967295ULL)>, BI<U16>, \
    Full<I16>, SB<I64, I64(22LL), I64(268435455LL)>, \
    SR<-32768LL, 2LL>, BI<U64>, \
    Full<U8>, SB<U32, U32(2ULL), U32(4294967293ULL)>, \
    SB<U32, U32(32767ULL), U32(4194305ULL)>, UR<2147483648ULL, 2147483649ULL>, \
    UR<3ULL, 5ULL>, BI<U8>, \
    Full<I64>, UR<3ULL, 65535ULL>, \
    UR<128ULL, 2048ULL>, Full<I64>, \
    SR<-128LL, -128LL>, UR<0ULL, 65534ULL>, \
    SR<-1LL, 1LL>, LIT<138LL>, \
    SB<I8, I8(15LL), I8(115LL)>, Full<U8>, \
    Full<I16>, BI<U64>
#define PAIR_NAMES "i32[-262,-252]", "lit524288", \
    "u8", "ulit291", \
    "ur[0,0]", "ur[2048,65535]", \
    "u32", "ur[4294967295,4294967295]", \
    "u8", "i8", \
    "sr[128,138]", "b_u32", \
    "ur[0,100]", "b_i32", \
    "i32", "b_u32", \
    "i16", "i32[-2147483645,-2147483545]", \
    "i64", "lit9223372036854775806", \
    "u8", "i32[2,2]", \
    "u8", "u16[188,288]", \
    "u32[4294967295,4294967295]", "b_u16", \
    "i16", "i64[22,268435455]", \
    "sr[-32768,2]", "b_u64", \
    "u8", "u32[2,4294967293]", \
    "u32[32767,4194305]", "ur[2147483648,2147483649]", \
    "ur[3,5]", "b_u8", \
    "i64", "ur[3,65535]", \
    "ur[128,2048]", "i64", \
    "sr[-128,-128]", "ur[0,65534]", \
    "sr[-1,1]", "lit138", \
    "i8[15,115]", "u8", \
    "i16", "b_u64"
#endif
#if PAIR_SET == 4
#define PAIR_TYPES Full<I64>, LIT<9223372036854775807LL>, \
    Full<I64>, BI<I32>, \
    SB<U64, U64(0ULL), U64(259ULL)>, BI<I16>, \
    Full<I64>, BI<U16>, \
    SR<-128LL, -3LL>, BI<I16>, \
    Full<I8>, Full<U32>, \
    Full<U16>, LIT<-1024LL>, \
    Full<I16>, BI<I32>, \
    UR<4ULL, 4294967295ULL>, UR<0ULL, 0ULL>, \
    Full<I16>, LIT<-562949953421311LL>, \
    UR<255ULL, 1255ULL>, ULIT<2ULL>, \
    SB<I32, I32(-2147483646LL), I32(2147483647LL)>, BI<U16>, \
    SB<I8, I8(7LL), I8(16LL)>, Full<I64>, \
    Full<U64>, SB<U8, U8(128ULL), U8(255ULL)>, \
    Full<I8>, SB<U64, U64(0ULL), U64(0ULL)>, \
    SB<U32, U32(16ULL), U32(17ULL)>, SR<32LL, 132LL>, \
    Full<I8>, LIT<-269LL>, \
    Full<I8>, LIT<-524290LL>, \
    UR<0ULL, 2ULL>, BI<I64>, \
    Full<U8>, Full<I16>, \
    Full<I16>, SB<I64, I64(-524286LL), I64(186LL)>, \
    Full<I16>, ULIT<0ULL>, \
    UR<0ULL, 1ULL>, BI<I16>, \
    Full<U32>, LIT<-1048577LL>
#define PAIR_NAMES "i64", "lit9223372036854775807", \
    "i64", "b_i32", \
    "u64[0,259]", "b_i16", \
    "i64", "b_u16", \
    "sr[-128,-3]", "b_i16", \
    "i8", "u32", \
    "u16", "lit-1024", \
    "i16", "b_i32", \
    "ur[4,4294967295]", "ur[0,0]", \
    "i16", "lit-562949953421311", \
    "ur[255,1255]", "ulit2", \
    "i32[-2147483646,2147483647]", "b_u16", \
    "i8[7,16]", "i64", \
    "u64", "u8[128,255]", \
    "i8", "u64[0,0]", \
    "u32[16,17]", "sr[32,132]", \
    "i8", "lit-269", \
    "i8", "lit-524290", \
    "ur[0,2]", "b_i64", \
    "u8", "i16", \
    "i16", "i64[-524286,186]", \
    "i16", "ulit0", \
    "ur[0,1]", "b_i16", \
    "u32", "lit-1048577"
#endif
#if PAIR_SET == 5
#define PAIR_TYPES Full<I32>, LIT<-8LL>, \
    Full<U8>, SR<-2LL, 4LL>, \
    Full<I16>, BI<U64>, \
    SB<I8, I8(-126LL), I8(-121LL)>, BI<U32>, \
    UR<0ULL, 2ULL>, UR<0ULL, 1ULL>, \
    UR<63ULL, 512ULL>, LIT<9223372036854775807LL>, \
    Full<U32>, Full<I8>, \
    SR<2LL, 32LL>, ULIT<0ULL>, \
    Full<U8>, SB<I32, I32(-268LL), I32(-4LL)>, \
    Full<I8>, SB<U16, U16(6ULL), U16(6ULL)>, \
    SB<U64, U64(128ULL), U64(130ULL)>, BI<U8>, \
    Full<I64>, LIT<-2LL>, \
    UR<256ULL, 65535ULL>, SB<U8, U8(0ULL), U8(97ULL)>, \
    SR<-224LL, 64LL>, UR<2048ULL, 32767ULL>, \
    Full<I32>, UR<64ULL, 65ULL>, \
    Full<I16>, UR<512ULL, 514ULL>, \
    UR<0ULL, 8ULL>, BI<U16>, \
    Full<U64>, SB<I16, I16(-32767LL), I16(-31767LL)>, \
    Full<U32>, UR<512ULL, 2097150ULL>, \
    SB<U64, U64(0ULL), U64(0ULL)>, UR<0ULL, 0ULL>, \
    Full<U8>, Full<U16>, \
    UR<0ULL, 255ULL>, SB<I32, I32(-2147483648LL), I32(64LL)>, \
    SR<2147483647LL, 9223372036854775805LL>, BI<I64>, \
    Full<I16>, LIT<4LL>
#define PAIR_NAMES "i32", "lit-8", \
    "u8", "sr[-2,4]", \
    "i16", "b_u64", \
    "i8[-126,-121]", "b_u32", \
    "ur[0,2]", "ur[0,1]", \
    "ur[63,512]", "lit9223372036854775807", \
    "u32", "i8", \
    "sr[2,32]", "ulit0", \
    "u8", "i32[-268,-4]", \
    "i8", "u16[6,6]", \
    "u64[128,130]", "b_u8", \
    "i64", "lit-2", \
    "ur[256,65535]", "u8[0,97]", \
    "sr[-224,64]", "ur[2048,32767]", \
    "i32", "ur[64,65]", \
    "i16", "ur[512,514]", \
    "ur[0,8]", "b_u16", \
    "u64", "i16[-32767,-31767]", \
    "u32", "ur[512,2097150]", \
    "u64[0,0]", "ur[0,0]", \
    "u8", "u16", \
    "ur[0,255]", "i32[-2147483648,64]", \
    "sr[2147483647,9223372036854775805]", "b_i64", \
    "i16", "lit4"
#endif
#if PAIR_SET == 6
#define PAIR_TYPES Full<I8>, BI<U64>, \
    Full<I16>, BI<U8>, \
    UR<1ULL, 1ULL>, Full<I32>, \
    Full<U64>, LIT<32LL>, \
    UR<0ULL, 0ULL>, BI<U16>, \
    Full<I16>, SR<-257LL, 4294967296LL>, \
    SB<U32, U32(0ULL), U32(0ULL)>, Full<I16>, \
    SR<1LL, 1024LL>, Full<U16>, \
    Full<U8>, UR<0ULL, 5ULL>, \
    Full<U16>, BI<U8>, \
    Full<U16>, Full<U16>, \
    SR<15LL, 16LL>, UR<0ULL, 255ULL>, \
    UR<268ULL, 536870911ULL>, SR<-35184372088830LL, -35184372087830LL>, \
    SB<I8, I8(-63LL), I8(1LL)>, ULIT<0ULL>, \
    SR<-63LL, 256LL>, SB<U64, U64(0ULL), U64(0ULL)>, \
    Full<U64>, ULIT<0ULL>, \
    Full<U16>, ULIT<16ULL>, \
    SR<48LL, 32767LL>, ULIT<123ULL>, \
    Full<I64>, SR<63LL, 127LL>, \
    UR<5ULL, 255ULL>, BI<U8>, \
    SR<(-9223372036854775807LL - 1), -9223372036854775803LL>, SB<U32, U32(64ULL), U32(69ULL)>, \
    Full<U16>, SB<I32, I32(-1024LL), I32(32LL)>, \
    SR<-2147483648LL, 129LL>, SB<I16, I16(-248LL), I16(122LL)>, \
    Full<I16>, SR<2LL, 165LL>
#define PAIR_NAMES "i8", "b_u64", \
    "i16", "b_u8", \
    "ur[1,1]", "i32", \
    "u64", "lit32", \
    "ur[0,0]", "b_u16", \
    "i16", "sr[-257,4294967296]", \
    "u32[0,0]", "i16", \
    "sr[1,1024]", "u16", \
    "u8", "ur[0,5]", \
    "u16", "b_u8", \
    "u16", "u16", \
    "sr[15,16]", "ur[0,255]", \
    "ur[268,536870911]", "sr[-35184372088830,-35184372087830]", \
    "i8[-63,1]", "ulit0", \
    "sr[-63,256]", "u64[0,0]", \
    "u64", "ulit0", \
    "u16", "ulit16", \
    "sr[48,32767]", "ulit123", \
    "i64", "sr[63,127]", \
    "ur[5,255]", "b_u8", \
    "sr[-9223372036854775808,-9223372036854775803]", "u32[64,69]", \
    "u16", "i32[-1024,32]", \
    "sr[-2147483648,129]", "i16[-248,122]", \
    "i16", "sr[2,165]"
#endif
#if PAIR_SET == 7
#define PAIR_TYPES Full<I16>, BI<I16>, \
    Full<U32>, UR<0ULL, 2ULL>, \
    Full<U16>, Full<U8>, \
    Full<U64>, UR<0ULL, 129ULL>, \
    SR<115LL, 125LL>, BI<I64>, \
    UR<256ULL, 65535ULL>, SB<U16, U16(32767ULL), U16(65535ULL)>, \
    Full<U32>, UR<3ULL, 18446744073709551614ULL>, \
    SB<I32, I32(-9LL), I32(0LL)>, SB<U32, U32(0ULL), U32(0ULL)>, \
    Full<U64>, SB<U64, U64(69ULL), U64(67108865ULL)>, \
    SB<I64, I64(69LL), I64(213LL)>, SB<I64, I64(-257LL), I64(-255LL)>, \
    Full<U64>, BI<U64>, \
    Full<U16>, UR<0ULL, 255ULL>, \
    SB<I16, I16(1LL), I16(11LL)>, BI<U8>, \
    UR<0ULL, 0ULL>, SB<U32, U32(0ULL), U32(64ULL)>, \
    SB<U32, U32(2ULL), U32(12ULL)>, ULIT<4194306ULL>, \
    UR<0ULL, 32ULL>, UR<256ULL, 4294967295ULL>, \
    SB<I16, I16(-2LL), I16(15LL)>, UR<0ULL, 5ULL>, \
    SB<U32, U32(63ULL), U32(8193ULL)>, Full<I8>, \
    Full<I32>, BI<U16>, \
    SB<I64, I64((-9223372036854775807LL - 1)), I64(63LL)>, SR<128LL, 138LL>, \
    Full<U32>, SB<U16, U16(0ULL), U16(65535ULL)>, \
    SR<4LL, 2147483647LL>, UR<42ULL, 256ULL>, \
    SB<U16, U16(65535ULL), U16(65535ULL)>, BI<I64>, \
    Full<I8>, ULIT<0ULL>
#define PAIR_NAMES "i16", "b_i16", \
    "u32", "ur[0,2]", \
    "u16", "u8", \
    "u64", "ur[0,129]", \
    "sr[115,125]", "b_i64", \
    "ur[256,65535]", "u16[32767,65535]", \
    "u32", "ur[3,18446744073709551614]", \
    "i32[-9,0]", "u32[0,0]", \
    "u64", "u64[69,67108865]", \
    "i64[69,213]", "i64[-257,-255]", \
    "u64", "b_u64", \
    "u16", "ur[0,255]", \
    "i16[1,11]", "b_u8", \
    "ur[0,0]", "u32[0,64]", \
    "u32[2,12]", "ulit4194306", \
    "ur[0,32]", "ur[256,4294967295]", \
    "i16[-2,15]", "ur[0,5]", \
    "u32[63,8193]", "i8", \
    "i32", "b_u16", \
    "i64[-9223372036854775808,63]", "sr[128,138]", \
    "u32", "u16[0,65535]", \
    "sr[4,2147483647]", "ur[42,256]", \
    "u16[65535,65535]", "b_i64", \
    "i8", "ulit0"
#endif
#if PAIR_SET == 8
#define PAIR_TYPES Full<U32>, LIT<9223372036854775806LL>, \
    UR<512ULL, 514ULL>, UR<16ULL, 65535ULL>, \
    Full<I64>, BI<U16>, \
    Full<I32>, UR<8ULL, 4294967295ULL>, \
    SB<U8, U8(0ULL), U8(0ULL)>, BI<I64>, \
    Full<I16>, LIT<(-9223372036854775807LL - 1)>, \
    Full<I16>, UR<0ULL, 65ULL>, \
    SR<-128LL, -118LL>, BI<U32>, \
    SB<U16, U16(2ULL), U16(63ULL)>, LIT<-9223372036854775805LL>, \
    Full<U32>, BI<U64>, \
    Full<I8>, LIT<154LL>, \
    SB<I64, I64(-512LL), I64(-128LL)>, SR<8LL, 9LL>, \
    SB<U8, U8(3ULL), U8(231ULL)>, BI<I16>, \
    Full<I8>, SB<U16, U16(65535ULL), U16(65535ULL)>, \
    SB<U32, U32(255ULL), U32(257ULL)>, Full<I32>, \
    Full<I8>, SB<I16, I16(-32768LL), I16(-32768LL)>, \
    Full<I64>, BI<U8>, \
    Full<U16>, LIT<-9007199254740991LL>, \
    Full<I8>, SB<I64, I64(261LL), I64(263LL)>, \
    Full<U8>, SR<63LL, 2048LL>, \
    Full<I16>, SB<I8, I8(-14LL), I8(127LL)>, \
    Full<U32>, BI<U64>, \
    SB<U64, U64(31ULL), U64(18446744073709551612ULL)>, Full<U32>, \
    SR<-1024LL, -1014LL>, UR<247ULL, 255ULL>
#define PAIR_NAMES "u32", "lit9223372036854775806", \
    "ur[512,514]", "ur[16,65535]", \
    "i64", "b_u16", \
    "i32", "ur[8,4294967295]", \
    "u8[0,0]", "b_i64", \
    "i16", "lit-9223372036854775808", \
    "i16", "ur[0,65]", \
    "sr[-128,-118]", "b_u32", \
    "u16[2,63]", "lit-9223372036854775805", \
    "u32", "b_u64", \
    "i8", "lit154", \
    "i64[-512,-128]", "sr[8,9]", \
    "u8[3,231]", "b_i16", \
    "i8", "u16[65535,65535]", \
    "u32[255,257]", "i32", \
    "i8", "i16[-32768,-32768]", \
    "i64", "b_u8", \
    "u16", "lit-9007199254740991", \
    "i8", "i64[261,263]", \
    "u8", "sr[63,2048]", \
    "i16", "i8[-14,127]", \
    "u32", "b_u64", \
    "u64[31,18446744073709551612]", "u32", \
    "sr[-1024,-1014]", "ur[247,255]"
#endif
#if PAIR_SET == 9
#define PAIR_TYPES Full<I16>, UR<65532ULL, 65535ULL>, \
    Full<U32>, BI<U8>, \
    Full<U8>, LIT<0LL>, \
    Full<U32>, UR<2147483647ULL, 2147483649ULL>, \
    Full<U16>, SR<63LL, 32767LL>, \
    Full<U64>, BI<U8>, \
    Full<U16>, SB<U64, U64(130ULL), U64(230ULL)>, \
    Full<U8>, SB<U32, U32(129ULL), U32(229ULL)>, \
    Full<I8>, SR<-155LL, 2147483647LL>, \
    Full<U64>, SB<I8, I8(-128LL), I8(-118LL)>, \
    Full<U64>, LIT<-4097LL>, \
    Full<U16>, BI<U8>, \
    UR<5ULL, 65535ULL>, Full<U32>, \
    SB<I64, I64(1LL), I64(32LL)>, LIT<4194302LL>, \
    SR<-33LL, 32764LL>, UR<203ULL, 208ULL>, \
    Full<U64>, SR<2049LL, 2147483647LL>, \
    SB<I32, I32(-2147483646LL), I32(32LL)>, BI<U32>, \
    Full<I8>, LIT<-113LL>, \
    SB<U16, U16(0ULL), U16(291ULL)>, SB<I64, I64(31LL), I64(2047LL)>, \
    UR<2147483646ULL, 2147483646ULL>, Full<I32>, \
    Full<U64>, LIT<-140737488355328LL>, \
    Full<U32>, UR<0ULL, 156ULL>, \
    Full<U16>, BI<U8>, \
    UR<32ULL, 255ULL>, BI<U16>
#define PAIR_NAMES "i16", "ur[65532,65535]", \
    "u32", "b_u8", \
    "u8", "lit0", \
    "u32", "ur[2147483647,2147483649]", \
    "u16", "sr[63,32767]", \
    "u64", "b_u8", \
    "u16", "u64[130,230]", \
    "u8", "u32[129,229]", \
    "i8", "sr[-155,2147483647]", \
    "u64", "i8[-128,-118]", \
    "u64", "lit-4097", \
    "u16", "b_u8", \
    "ur[5,65535]", "u32", \
    "i64[1,32]", "lit4194302", \
    "sr[-33,32764]", "ur[203,208]", \
    "u64", "sr[2049,2147483647]", \
    "i32[-2147483646,32]", "b_u32", \
    "i8", "lit-113", \
    "u16[0,291]", "i64[31,2047]", \
    "ur[2147483646,2147483646]", "i32", \
    "u64", "lit-140737488355328", \
    "u32", "ur[0,156]", \
    "u16", "b_u8", \
    "ur[32,255]", "b_u16"
#endif
#if PAIR_SET == 10
#define PAIR_TYPES UR<0ULL, 4294967293ULL>, SB<U32, U32(4294967295ULL), U32(4294967295ULL)>, \
    Full<U64>, UR<126ULL, 128ULL>, \
    SB<U8, U8(0ULL), U8(0ULL)>, SR<-128LL, 31LL>, \
    Full<I16>, SR<2147483648LL, 8796093022206LL>, \
    SB<I32, I32(2LL), I32(2147483646LL)>, Full<U8>, \
    SR<65LL, 67LL>, LIT<9223372036854775807LL>, \
    Full<I32>, BI<I16>, \
    SB<U32, U32(0ULL), U32(16ULL)>, BI<U32>, \
    Full<I64>, BI<I32>, \
    Full<I8>, SB<U64, U64(254ULL), U64(254ULL)>, \
    SR<127LL, 127LL>, LIT<149LL>, \
    SB<I32, I32(2LL), I32(7LL)>, BI<I8>, \
    Full<I32>, BI<U64>, \
    Full<I8>, SR<8LL, 32764LL>, \
    SR<123LL, 134LL>, ULIT<18446744073709551615ULL>, \
    Full<U8>, UR<0ULL, 274ULL>, \
    Full<I64>, UR<0ULL, 128ULL>, \
    SR<7LL, 107LL>, SR<-1LL, 101LL>, \
    Full<U16>, UR<0ULL, 132ULL>, \
    Full<U16>, UR<16ULL, 135ULL>, \
    SR<127LL, 127LL>, ULIT<3ULL>, \
    UR<0ULL, 128ULL>, SB<U16, U16(0ULL), U16(0ULL)>, \
    Full<I8>, SB<I8, I8(-128LL), I8(-38LL)>, \
    Full<I64>, BI<I16>
#define PAIR_NAMES "ur[0,4294967293]", "u32[4294967295,4294967295]", \
    "u64", "ur[126,128]", \
    "u8[0,0]", "sr[-128,31]", \
    "i16", "sr[2147483648,8796093022206]", \
    "i32[2,2147483646]", "u8", \
    "sr[65,67]", "lit9223372036854775807", \
    "i32", "b_i16", \
    "u32[0,16]", "b_u32", \
    "i64", "b_i32", \
    "i8", "u64[254,254]", \
    "sr[127,127]", "lit149", \
    "i32[2,7]", "b_i8", \
    "i32", "b_u64", \
    "i8", "sr[8,32764]", \
    "sr[123,134]", "ulit18446744073709551615", \
    "u8", "ur[0,274]", \
    "i64", "ur[0,128]", \
    "sr[7,107]", "sr[-1,101]", \
    "u16", "ur[0,132]", \
    "u16", "ur[16,135]", \
    "sr[127,127]", "ulit3", \
    "ur[0,128]", "u16[0,0]", \
    "i8", "i8[-128,-38]", \
    "i64", "b_i16"
#endif
#if PAIR_SET == 11
#define PAIR_TYPES SR<-128LL, 64LL>, BI<U32>, \
    SB<U64, U64(0ULL), U64(285ULL)>, BI<I64>, \
    SR<-32765LL, -32765LL>, LIT<8LL>, \
    UR<0ULL, 40ULL>, SB<I64, I64(17LL), I64(9223372036854775807LL)>, \
    Full<I64>, SB<I32, I32(-2147483648LL), I32(-2147483647LL)>, \
    Full<U8>, BI<I64>, \
    Full<I16>, ULIT<127ULL>, \
    Full<I32>, BI<I32>, \
    SB<I16, I16(-58LL), I16(32767LL)>, SB<I16, I16(-32768LL), I16(-128LL)>, \
    SB<I16, I16(8LL), I16(32767LL)>, Full<U64>, \
    Full<U32>, BI<I64>, \
    Full<I32>, SR<15LL, 2147483648LL>, \
    Full<U32>, SB<I8, I8(115LL), I8(127LL)>, \
    Full<U16>, BI<U64>, \
    SB<U32, U32(0ULL), U32(1ULL)>, SB<I64, I64(-4LL), I64(2047LL)>, \
    Full<U8>, BI<U64>, \
    SB<U8, U8(255ULL), U8(255ULL)>, LIT<-36028797018963968LL>, \
    Full<U8>, Full<U16>, \
    Full<I32>, UR<0ULL, 2ULL>, \
    Full<U64>, BI<U32>, \
    SB<I32, I32(2147483646LL), I32(2147483646LL)>, UR<64ULL, 65ULL>, \
    Full<U32>, BI<U16>, \
    Full<I8>, BI<I16>, \
    Full<U8>, UR<0ULL, 63ULL>
#define PAIR_NAMES "sr[-128,64]", "b_u32", \
    "u64[0,285]", "b_i64", \
    "sr[-32765,-32765]", "lit8", \
    "ur[0,40]", "i64[17,9223372036854775807]", \
    "i64", "i32[-2147483648,-2147483647]", \
    "u8", "b_i64", \
    "i16", "ulit127", \
    "i32", "b_i32", \
    "i16[-58,32767]", "i16[-32768,-128]", \
    "i16[8,32767]", "u64", \
    "u32", "b_i64", \
    "i32", "sr[15,2147483648]", \
    "u32", "i8[115,127]", \
    "u16", "b_u64", \
    "u32[0,1]", "i64[-4,2047]", \
    "u8", "b_u64", \
    "u8[255,255]", "lit-36028797018963968", \
    "u8", "u16", \
    "i32", "ur[0,2]", \
    "u64", "b_u32", \
    "i32[2147483646,2147483646]", "ur[64,65]", \
    "u32", "b_u16", \
    "i8", "b_i16", \
    "u8", "ur[0,63]"
#endif
#if PAIR_SET == 12
#define PAIR_TYPES SR<-32768LL, -32766LL>, UR<0ULL, 2ULL>, \
    Full<U8>, Full<U64>, \
    SR<-64LL, 127LL>, Full<U16>, \
    Full<U8>, BI<U8>, \
    Full<I32>, ULIT<106ULL>, \
    Full<U64>, UR<3ULL, 63ULL>, \
    Full<U16>, LIT<2LL>, \
    SR<31LL, 32LL>, SR<127LL, 127LL>, \
    Full<U32>, SR<-108LL, 137438953474LL>, \
    SR<127LL, 127LL>, BI<U16>, \
    UR<2048ULL, 3048ULL>, SB<I64, I64(-1099511627778LL), I64(4398046511103LL)>, \
    Full<I16>, ULIT<0ULL>, \
    UR<128ULL, 255ULL>, ULIT<0ULL>, \
    SR<-126LL, 32LL>, BI<U64>, \
    SB<U16, U16(0ULL), U16(65535ULL)>, SR<-128LL, 127LL>, \
    Full<I64>, Full<U32>, \
    SB<U16, U16(0ULL), U16(65535ULL)>, UR<127ULL, 128ULL>, \
    UR<64ULL, 255ULL>, ULIT<18446744073709551614ULL>, \
    SR<31LL, 1031LL>, LIT<-14LL>, \
    Full<U64>, BI<U8>, \
    SR<1LL, 64LL>, BI<I64>, \
    Full<I8>, BI<I64>, \
    Full<I32>, UR<53ULL, 63ULL>, \
    Full<I64>, BI<U8>
#define PAIR_NAMES "sr[-32768,-32766]", "ur[0,2]", \
    "u8", "u64", \
    "sr[-64,127]", "u16", \
    "u8", "b_u8", \
    "i32", "ulit106", \
    "u64", "ur[3,63]", \
    "u16", "lit2", \
    "sr[31,32]", "sr[127,127]", \
    "u32", "sr[-108,137438953474]", \
    "sr[127,127]", "b_u16", \
    "ur[2048,3048]", "i64[-1099511627778,4398046511103]", \
    "i16", "ulit0", \
    "ur[128,255]", "ulit0", \
    "sr[-126,32]", "b_u64", \
    "u16[0,65535]", "sr[-128,127]", \
    "i64", "u32", \
    "u16[0,65535]", "ur[127,128]", \
    "ur[64,255]", "ulit18446744073709551614", \
    "sr[31,1031]", "lit-14", \
    "u64", "b_u8", \
    "sr[1,64]", "b_i64", \
    "i8", "b_i64", \
    "i32", "ur[53,63]", \
    "i64", "b_u8"
#endif
#if PAIR_SET == 13
#define PAIR_TYPES Full<U8>, LIT<(-9223372036854775807LL - 1)>, \
    Full<U16>, SB<I16, I16(-32768LL), I16(-32768LL)>, \
    Full<U32>, UR<1ULL, 6ULL>, \
    Full<I64>, Full<U16>, \
    SR<5LL, 25LL>, ULIT<0ULL>, \
    SB<I64, I64(222LL), I64(299LL)>, LIT<128LL>, \
    Full<I32>, LIT<-1LL>, \
    SR<-3LL, 32767LL>, SB<I64, I64(-9223372036854775805LL), I64(-150LL)>, \
    SB<U16, U16(65535ULL), U16(65535ULL)>, BI<U32>, \
    Full<I32>, SB<U8, U8(0ULL), U8(0ULL)>, \
    Full<I16>, BI<U32>, \
    SR<127LL, 127LL>, SR<63LL, 127LL>, \
    Full<U8>, SB<U32, U32(0ULL), U32(2147483647ULL)>, \
    SR<-33LL, 2251799813685246LL>, UR<65533ULL, 65535ULL>, \
    SB<U64, U64(0ULL), U64(7ULL)>, Full<I16>, \
    SR<-32768LL, -32767LL>, ULIT<32ULL>, \
    SB<I32, I32(2147483647LL), I32(2147483647LL)>, LIT<-128LL>, \
    Full<U8>, ULIT<0ULL>, \
    SB<U16, U16(65535ULL), U16(65535ULL)>, LIT<-267LL>, \
    SB<U8, U8(255ULL), U8(255ULL)>, Full<U32>, \
    Full<U64>, ULIT<1ULL>, \
    SB<U8, U8(2ULL), U8(4ULL)>, Full<I64>, \
    Full<U64>, LIT<16LL>, \
    SB<U8, U8(0ULL), U8(2ULL)>, SB<U64, U64(0ULL), U64(100ULL)>
#define PAIR_NAMES "u8", "lit-9223372036854775808", \
    "u16", "i16[-32768,-32768]", \
    "u32", "ur[1,6]", \
    "i64", "u16", \
    "sr[5,25]", "ulit0", \
    "i64[222,299]", "lit128", \
    "i32", "lit-1", \
    "sr[-3,32767]", "i64[-9223372036854775805,-150]", \
    "u16[65535,65535]", "b_u32", \
    "i32", "u8[0,0]", \
    "i16", "b_u32", \
    "sr[127,127]", "sr[63,127]", \
    "u8", "u32[0,2147483647]", \
    "sr[-33,2251799813685246]", "ur[65533,65535]", \
    "u64[0,7]", "i16", \
    "sr[-32768,-32767]", "ulit32", \
    "i32[2147483647,2147483647]", "lit-128", \
    "u8", "ulit0", \
    "u16[65535,65535]", "lit-267", \
    "u8[255,255]", "u32", \
    "u64", "ulit1", \
    "u8[2,4]", "i64", \
    "u64", "lit16", \
    "u8[0,2]", "u64[0,100]"
#endif
#if PAIR_SET == 14
#define PAIR_TYPES Full<U64>, UR<1125899906842626ULL, 1125899906842636ULL>, \
    Full<U8>, BI<U8>, \
    Full<U32>, SB<U8, U8(0ULL), U8(0ULL)>, \
    UR<0ULL, 100ULL>, UR<15ULL, 255ULL>, \
    SR<-2147483648LL, 128LL>, UR<0ULL, 32ULL>, \
    Full<I64>, Full<U16>, \
    UR<5ULL, 8ULL>, UR<1ULL, 128ULL>, \
    Full<U32>, ULIT<3ULL>, \
    UR<4294967295ULL, 4294967295ULL>, SR<1LL, 127LL>, \
    SB<U8, U8(0ULL), U8(255ULL)>, UR<0ULL, 2ULL>, \
    Full<I16>, ULIT<0ULL>, \
    SB<U8, U8(0ULL), U8(255ULL)>, BI<I32>, \
    SB<I64, I64(1LL), I64(1LL)>, SR<-128LL, -128LL>, \
    UR<32ULL, 132ULL>, Full<I32>, \
    UR<0ULL, 32767ULL>, SB<U32, U32(0ULL), U32(64ULL)>, \
    SB<I64, I64(-2050LL), I64(-2045LL)>, UR<0ULL, 100ULL>, \
    Full<U16>, UR<1ULL, 128ULL>, \
    SB<U16, U16(4ULL), U16(65535ULL)>, BI<I16>, \
    Full<U64>, BI<I64>, \
    Full<U16>, BI<U16>, \
    SR<31LL, 32LL>, SB<I64, I64(256LL), I64(8191LL)>, \
    SR<15LL, 16LL>, LIT<-2LL>, \
    Full<I64>, UR<31ULL, 1024ULL>, \
    SB<I64, I64(-236LL), I64(255LL)>, BI<I32>
#define PAIR_NAMES "u64", "ur[1125899906842626,1125899906842636]", \
    "u8", "b_u8", \
    "u32", "u8[0,0]", \
    "ur[0,100]", "ur[15,255]", \
    "sr[-2147483648,128]", "ur[0,32]", \
    "i64", "u16", \
    "ur[5,8]", "ur[1,128]", \
    "u32", "ulit3", \
    "ur[4294967295,4294967295]", "sr[1,127]", \
    "u8[0,255]", "ur[0,2]", \
    "i16", "ulit0", \
    "u8[0,255]", "b_i32", \
    "i64[1,1]", "sr[-128,-128]", \
    "ur[32,132]", "i32", \
    "ur[0,32767]", "u32[0,64]", \
    "i64[-2050,-2045]", "ur[0,100]", \
    "u16", "ur[1,128]", \
    "u16[4,65535]", "b_i16", \
    "u64", "b_i64", \
    "u16", "b_u16", \
    "sr[31,32]", "i64[256,8191]", \
    "sr[15,16]", "lit-2", \
    "i64", "ur[31,1024]", \
    "i64[-236,255]", "b_i32"
#endif
#if PAIR_SET == 15
#define PAIR_TYPES Full<I64>, SB<U16, U16(2ULL), U16(1024ULL)>, \
    SB<U8, U8(7ULL), U8(255ULL)>, SB<I64, I64(9223372036854775806LL), I64(9223372036854775807LL)>, \
    SB<U32, U32(0ULL), U32(2ULL)>, SB<U32, U32(65535ULL), U32(65540ULL)>, \
    SR<257LL, 2048LL>, SR<-1073741824LL, -2047LL>, \
    Full<I64>, ULIT<1025ULL>, \
    Full<U16>, ULIT<0ULL>, \
    Full<U8>, Full<U64>, \
    SR<128LL, 1128LL>, UR<8ULL, 255ULL>, \
    Full<I8>, UR<167ULL, 180ULL>, \
    SR<270LL, 1270LL>, LIT<32LL>, \
    SB<I64, I64(4LL), I64(2147483647LL)>, LIT<-191LL>, \
    SR<1LL, 2147483645LL>, BI<U16>, \
    Full<U64>, Full<I8>, \
    Full<I16>, BI<U8>, \
    Full<I8>, SR<202LL, 202LL>, \
    UR<65535ULL, 65535ULL>, BI<I64>, \
    Full<U32>, SB<I8, I8(-128LL), I8(-128LL)>, \
    SB<U8, U8(255ULL), U8(255ULL)>, Full<U32>, \
    SR<-128LL, -128LL>, UR<2ULL, 3ULL>, \
    UR<0ULL, 272ULL>, Full<I64>, \
    Full<I16>, SR<2147483646LL, 2147483647LL>, \
    Full<U8>, UR<65535ULL, 65535ULL>, \
    UR<32767ULL, 32777ULL>, SB<I32, I32(252LL), I32(4094LL)>, \
    Full<U16>, SB<I64, I64((-9223372036854775807LL - 1)), I64(15LL)>
#define PAIR_NAMES "i64", "u16[2,1024]", \
    "u8[7,255]", "i64[9223372036854775806,9223372036854775807]", \
    "u32[0,2]", "u32[65535,65540]", \
    "sr[257,2048]", "sr[-1073741824,-2047]", \
    "i64", "ulit1025", \
    "u16", "ulit0", \
    "u8", "u64", \
    "sr[128,1128]", "ur[8,255]", \
    "i8", "ur[167,180]", \
    "sr[270,1270]", "lit32", \
    "i64[4,2147483647]", "lit-191", \
    "sr[1,2147483645]", "b_u16", \
    "u64", "i8", \
    "i16", "b_u8", \
    "i8", "sr[202,202]", \
    "ur[65535,65535]", "b_i64", \
    "u32", "i8[-128,-128]", \
    "u8[255,255]", "u32", \
    "sr[-128,-128]", "ur[2,3]", \
    "ur[0,272]", "i64", \
    "i16", "sr[2147483646,2147483647]", \
    "u8", "ur[65535,65535]", \
    "ur[32767,32777]", "i32[252,4094]", \
    "u16", "i64[-9223372036854775808,15]"
#endif
#if PAIR_SET == 16
#define PAIR_TYPES Full<I8>, LIT<(-9223372036854775807LL - 1)>, \
    SB<I8, I8(-128LL), I8(127LL)>, BI<I32>, \
    SB<U8, U8(31ULL), U8(33ULL)>, BI<U32>, \
    Full<I64>, UR<39ULL, 44ULL>, \
    SB<I32, I32(-44LL), I32(956LL)>, Full<U64>, \
    Full<I16>, SR<-128LL, 127LL>, \
    Full<I8>, ULIT<256ULL>, \
    UR<64ULL, 206ULL>, BI<I32>, \
    Full<I16>, ULIT<0ULL>, \
    UR<128ULL, 133ULL>, BI<I64>, \
    UR<0ULL, 255ULL>, BI<I8>, \
    SB<U64, U64(0ULL), U64(0ULL)>, SB<I64, I64(1024LL), I64(1024LL)>, \
    SR<64LL, 1064LL>, SB<U16, U16(8ULL), U16(256ULL)>, \
    Full<I64>, UR<0ULL, 128ULL>, \
    UR<0ULL, 128ULL>, Full<U16>, \
    Full<I16>, SR<127LL, 127LL>, \
    Full<U32>, Full<I8>, \
    Full<U8>, BI<U16>, \
    Full<I64>, SB<I32, I32(-1LL), I32(9LL)>, \
    SR<148LL, 153LL>, SB<U64, U64(32ULL), U64(1032ULL)>, \
    SR<1LL, 101LL>, LIT<1024LL>, \
    SB<I64, I64(64LL), I64(65LL)>, BI<U16>, \
    Full<I8>, SB<U32, U32(2ULL), U32(102ULL)>, \
    SB<I8, I8(-128LL), I8(16LL)>, ULIT<64ULL>
#define PAIR_NAMES "i8", "lit-9223372036854775808", \
    "i8[-128,127]", "b_i32", \
    "u8[31,33]", "b_u32", \
    "i64", "ur[39,44]", \
    "i32[-44,956]", "u64", \
    "i16", "sr[-128,127]", \
    "i8", "ulit256", \
    "ur[64,206]", "b_i32", \
    "i16", "ulit0", \
    "ur[128,133]", "b_i64", \
    "ur[0,255]", "b_i8", \
    "u64[0,0]", "i64[1024,1024]", \
    "sr[64,1064]", "u16[8,256]", \
    "i64", "ur[0,128]", \
    "ur[0,128]", "u16", \
    "i16", "sr[127,127]", \
    "u32", "i8", \
    "u8", "b_u16", \
    "i64", "i32[-1,9]", \
    "sr[148,153]", "u64[32,1032]", \
    "sr[1,101]", "lit1024", \
    "i64[64,65]", "b_u16", \
    "i8", "u32[2,102]", \
    "i8[-128,16]", "ulit64"
#endif
#if PAIR_SET == 17
#define PAIR_TYPES SB<I16, I16(32767LL), I16(32767LL)>, SB<U32, U32(0ULL), U32(0ULL)>, \
    Full<U32>, LIT<79LL>, \
    Full<I64>, BI<U16>, \
    SB<U64, U64(127ULL), U64(132ULL)>, UR<0ULL, 0ULL>, \
    SR<-128LL, -128LL>, SB<I64, I64(255LL), I64(256LL)>, \
    Full<U64>, BI<I8>, \
    SR<-256LL, 2047LL>, SR<65LL, 65LL>, \
    Full<I32>, LIT<-8190LL>, \
    Full<I16>, BI<I16>, \
    Full<I64>, LIT<(-9223372036854775807LL - 1)>, \
    SB<I32, I32(-128LL), I32(-123LL)>, UR<0ULL, 8ULL>, \
    SB<I32, I32(-2147483648LL), I32(2147483646LL)>, UR<0ULL, 65535ULL>, \
    SB<U8, U8(0ULL), U8(0ULL)>, UR<0ULL, 10ULL>, \
    Full<U8>, SR<127LL, 137LL>, \
    UR<15ULL, 255ULL>, UR<0ULL, 10ULL>, \
    Full<I16>, SR<8LL, 2147483647LL>, \
    UR<2ULL, 281474976710657ULL>, BI<I8>, \
    Full<I32>, SB<U8, U8(255ULL), U8(255ULL)>, \
    Full<I16>, LIT<4096LL>, \
    Full<U64>, LIT<-125LL>, \
    UR<0ULL, 0ULL>, ULIT<0ULL>, \
    Full<U64>, BI<I8>, \
    SR<288230376151711743LL, 288230376151712743LL>, BI<I32>, \
    Full<U64>, ULIT<1024ULL>
#define PAIR_NAMES "i16[32767,32767]", "u32[0,0]", \
    "u32", "lit79", \
    "i64", "b_u16", \
    "u64[127,132]", "ur[0,0]", \
    "sr[-128,-128]", "i64[255,256]", \
    "u64", "b_i8", \
    "sr[-256,2047]", "sr[65,65]", \
    "i32", "lit-8190", \
    "i16", "b_i16", \
    "i64", "lit-9223372036854775808", \
    "i32[-128,-123]", "ur[0,8]", \
    "i32[-2147483648,2147483646]", "ur[0,65535]", \
    "u8[0,0]", "ur[0,10]", \
    "u8", "sr[127,137]", \
    "ur[15,255]", "ur[0,10]", \
    "i16", "sr[8,2147483647]", \
    "ur[2,281474976710657]", "b_i8", \
    "i32", "u8[255,255]", \
    "i16", "lit4096", \
    "u64", "lit-125", \
    "ur[0,0]", "ulit0", \
    "u64", "b_i8", \
    "sr[288230376151711743,288230376151712743]", "b_i32", \
    "u64", "ulit1024"
#endif
#if PAIR_SET == 18
#define PAIR_TYPES UR<255ULL, 255ULL>, ULIT<191ULL>, \
    SR<-128LL, -45LL>, UR<0ULL, 128ULL>, \
    Full<U64>, Full<I16>, \
    Full<U64>, SB<U32, U32(0ULL), U32(0ULL)>, \
    SB<U64, U64(255ULL), U64(256ULL)>, SB<U16, U16(0ULL), U16(0ULL)>, \
    SB<I8, I8(63LL), I8(127LL)>, LIT<131074LL>, \
    Full<U8>, BI<I32>, \
    Full<I8>, SB<I8, I8(-8LL), I8(16LL)>, \
    UR<51ULL, 51ULL>, BI<I64>, \
    Full<U16>, BI<U64>, \
    Full<U16>, ULIT<4294967296ULL>, \
    Full<I16>, SB<I32, I32(4LL), I32(280LL)>, \
    SR<8LL, 2147483647LL>, BI<U16>, \
    UR<15ULL, 16ULL>, Full<I32>, \
    SB<I32, I32(-2147483647LL), I32(-2147483645LL)>, Full<I16>, \
    SB<I32, I32(7LL), I32(2147483647LL)>, Full<U16>, \
    Full<I8>, Full<U16>, \
    Full<U16>, SB<I16, I16(32LL), I16(37LL)>, \
    SB<I8, I8(127LL), I8(127LL)>, LIT<-64LL>, \
    Full<I64>, BI<I64>, \
    UR<0ULL, 2048ULL>, LIT<63LL>, \
    SB<U32, U32(0ULL), U32(1ULL)>, UR<0ULL, 266ULL>, \
    SB<U64, U64(255ULL), U64(260ULL)>, SB<U16, U16(8ULL), U16(32ULL)>, \
    UR<1ULL, 256ULL>, BI<I8>
#define PAIR_NAMES "ur[255,255]", "ulit191", \
    "sr[-128,-45]", "ur[0,128]", \
    "u64", "i16", \
    "u64", "u32[0,0]", \
    "u64[255,256]", "u16[0,0]", \
    "i8[63,127]", "lit131074", \
    "u8", "b_i32", \
    "i8", "i8[-8,16]", \
    "ur[51,51]", "b_i64", \
    "u16", "b_u64", \
    "u16", "ulit4294967296", \
    "i16", "i32[4,280]", \
    "sr[8,2147483647]", "b_u16", \
    "ur[15,16]", "i32", \
    "i32[-2147483647,-2147483645]", "i16", \
    "i32[7,2147483647]", "u16", \
    "i8", "u16", \
    "u16", "i16[32,37]", \
    "i8[127,127]", "lit-64", \
    "i64", "b_i64", \
    "ur[0,2048]", "lit63", \
    "u32[0,1]", "ur[0,266]", \
    "u64[255,260]", "u16[8,32]", \
    "ur[1,256]", "b_i8"
#endif
#if PAIR_SET == 19
#define PAIR_TYPES Full<U16>, LIT<-7LL>, \
    UR<0ULL, 255ULL>, LIT<-1LL>, \
    Full<I8>, ULIT<0ULL>, \
    UR<1ULL, 101ULL>, BI<I64>, \
    Full<U16>, SB<I16, I16(64LL), I16(256LL)>, \
    UR<0ULL, 100ULL>, SB<U16, U16(1ULL), U16(65535ULL)>, \
    Full<I8>, SR<32LL, 37LL>, \
    Full<I16>, Full<I64>, \
    SR<0LL, 127LL>, UR<255ULL, 255ULL>, \
    Full<I64>, Full<U8>, \
    Full<I16>, BI<I64>, \
    Full<U64>, ULIT<0ULL>, \
    Full<I64>, BI<I64>, \
    Full<I8>, Full<I64>, \
    Full<I8>, ULIT<0ULL>, \
    Full<U32>, Full<U16>, \
    Full<I8>, Full<I16>, \
    UR<33ULL, 2147483647ULL>, UR<0ULL, 65535ULL>, \
    SB<U64, U64(2048ULL), U64(18446744073709551615ULL)>, SB<I16, I16(-32768LL), I16(32767LL)>, \
    SB<I64, I64(3LL), I64(13LL)>, BI<U16>, \
    Full<U64>, BI<U32>, \
    Full<I16>, LIT<113LL>, \
    Full<U64>, UR<0ULL, 0ULL>, \
    Full<U8>, SB<U8, U8(241ULL), U8(255ULL)>
#define PAIR_NAMES "u16", "lit-7", \
    "ur[0,255]", "lit-1", \
    "i8", "ulit0", \
    "ur[1,101]", "b_i64", \
    "u16", "i16[64,256]", \
    "ur[0,100]", "u16[1,65535]", \
    "i8", "sr[32,37]", \
    "i16", "i64", \
    "sr[0,127]", "ur[255,255]", \
    "i64", "u8", \
    "i16", "b_i64", \
    "u64", "ulit0", \
    "i64", "b_i64", \
    "i8", "i64", \
    "i8", "ulit0", \
    "u32", "u16", \
    "i8", "i16", \
    "ur[33,2147483647]", "ur[0,65535]", \
    "u64[2048,18446744073709551615]", "i16[-32768,32767]", \
    "i64[3,13]", "b_u16", \
    "u64", "b_u32", \
    "i16", "lit113", \
    "u64", "ur[0,0]", \
    "u8", "u8[241,255]"
#endif
#if PAIR_SET == 20
#define PAIR_TYPES Full<I8>, SR<-15LL, 9223372036854775807LL>, \
    SB<U32, U32(0ULL), U32(0ULL)>, SB<I64, I64((-9223372036854775807LL - 1)), I64(2147483647LL)>, \
    Full<I16>, BI<U16>, \
    Full<I16>, BI<I8>, \
    SB<U32, U32(2147483648ULL), U32(2147483648ULL)>, LIT<8LL>, \
    Full<U8>, SB<I32, I32(65535LL), I32(65537LL)>, \
    UR<0ULL, 5ULL>, Full<I16>, \
    Full<U8>, LIT<-62LL>, \
    Full<I64>, BI<I64>, \
    Full<I16>, SB<I16, I16(-33LL), I16(15LL)>, \
    Full<U32>, SB<U16, U16(15ULL), U16(1023ULL)>, \
    Full<U32>, Full<U8>, \
    UR<257ULL, 267ULL>, BI<I32>, \
    SR<-127LL, 127LL>, ULIT<2147483647ULL>, \
    UR<2ULL, 3ULL>, LIT<64LL>, \
    Full<U64>, UR<0ULL, 3ULL>, \
    Full<I16>, UR<0ULL, 254ULL>, \
    Full<I16>, UR<4294967295ULL, 4294967295ULL>, \
    Full<U16>, LIT<7LL>, \
    Full<U64>, BI<I64>, \
    UR<2048ULL, 2058ULL>, Full<I8>, \
    UR<7ULL, 255ULL>, BI<I64>, \
    Full<I8>, UR<0ULL, 10ULL>, \
    UR<0ULL, 28ULL>, SR<-256LL, -3LL>
#define PAIR_NAMES "i8", "sr[-15,9223372036854775807]", \
    "u32[0,0]", "i64[-9223372036854775808,2147483647]", \
    "i16", "b_u16", \
    "i16", "b_i8", \
    "u32[2147483648,2147483648]", "lit8", \
    "u8", "i32[65535,65537]", \
    "ur[0,5]", "i16", \
    "u8", "lit-62", \
    "i64", "b_i64", \
    "i16", "i16[-33,15]", \
    "u32", "u16[15,1023]", \
    "u32", "u8", \
    "ur[257,267]", "b_i32", \
    "sr[-127,127]", "ulit2147483647", \
    "ur[2,3]", "lit64", \
    "u64", "ur[0,3]", \
    "i16", "ur[0,254]", \
    "i16", "ur[4294967295,4294967295]", \
    "u16", "lit7", \
    "u64", "b_i64", \
    "ur[2048,2058]", "i8", \
    "ur[7,255]", "b_i64", \
    "i8", "ur[0,10]", \
    "ur[0,28]", "sr[-256,-3]"
#endif
