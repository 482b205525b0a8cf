typedef unsigned long u64; typedef long i64; typedef unsigned u32; typedef unsigned short u16; typedef unsigned char u8;
struct env { u8 b[64]; short h[32]; int w[32]; long l[32]; float f[16]; double d[16]; unsigned bf1 : 3, bf2 : 11; int bf3 : 17; long bf4 : 40; u8 tail[8]; };
