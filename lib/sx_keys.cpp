#include "sx.h"
// How the random hash keys of nodes are chosen:
//  0 distinct concrete keys (counter)   1 all keys equal      2 symbolic, sx_key_bits bits (at the low end)
//  3 symbolic choice among 4 keys whose slots wrap around the end of a 64-slot table: 0, 1, 62, 63
//  4 symbolic choice between two keys 0 and 63   5 scattered concrete keys (multiplicative hash of the counter)
//  13, 14, 16: as 3, 4, 6, but case-split on the value at once
//  6 symbolic choice among 4 keys 0, 64, 128, 192+... (collide in small tables, separate in larger ones)
//  7 a few keys whose slots lie at either end of a table of any size, then as 5
int sx_key_mode = 0; unsigned sx_key_bits = 22, sx_key_count = 0;
extern "C" unsigned sx_next_key() {
    unsigned n = sx_key_count++;
    switch (sx_key_mode) {
        case 0: return (n + 1) & 0x3fffff;
        case 1: return 5;
        case 2: return (unsigned)sx_sym("key", sx_key_bits);
        case 13: { static const unsigned t[4] = {0, 1, 62, 63}; return t[sx_pick(sx_sym("key", 2))]; }
        case 14: return sx_pick(sx_sym("key", 1)) ? 63 : 0;
        case 16: return (unsigned)sx_pick(sx_sym("key", 2)) << 6;
        case 3: { uint64_t a = sx_sym("key", 2); return (unsigned)sx_ite(a & 2, sx_ite(a & 1, 63, 62), sx_ite(a & 1, 1, 0)); }
        case 4: return (unsigned)sx_ite(sx_sym("key", 1), 63, 0);
        case 5: return (unsigned)((n * 2654435761u) >> 7) & 0x3fffff;
        case 7: { static const unsigned t[8] = {0x3fffff, 0x3ffffe, 0x1fffff, 0, 1, 0x3ffffd, 2, 0x200000}; return n % 64 < 8 ? t[n % 64] : (unsigned)((n * 2654435761u) >> 7) & 0x3fffff; }
        case 6: { uint64_t a = sx_sym("key", 2); return (unsigned)a << 6; }
    }
    return 0;
}
