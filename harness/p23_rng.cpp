// P23: the random-number generators. The file is included so that the generator's state can be any state.
#include "vx.h"
#include <stdlib.h>
#include "core/mersenne_twister.cpp"
#undef N
#undef M
static const int NW = 624; static unsigned long S[624];
static void anyState(int pos) { for (int i = 0; i < NW; i++) S[i] = mt[i] = (unsigned long)(unsigned)vx_int("state", -2147483647 - 1, 2147483647); mti = pos; }
// Matsumoto & Nishimura's definition: x[k+n] = x[k+m] ^ (upper(x[k])|lower(x[k+1])) A, tempered
static unsigned twist(unsigned hi, unsigned lo, unsigned m) { unsigned y = (hi & 0x80000000u) | (lo & 0x7fffffffu); return m ^ (y >> 1) ^ ((y & 1u) ? 0x9908b0dfu : 0u); }
static unsigned temper(unsigned y) { y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ (y >> 18); }
static int positions[] = {0, 1, 2, 226, 227, 228, 395, 396, 397, 398, 622, 623};
extern "C" void p23_draw() { int pos = positions[vx_pick("position", 0, 11)]; anyState(pos); unsigned long r = genrand_int32(); vx_check(r == temper((unsigned)S[pos]), "tempered word of the state"); vx_check(mti == pos + 1, "next position"); for (int i = 0; i < NW; i += 89) vx_check(mt[i] == S[i], "state words stay"); vx_reach("draw"); }
extern "C" void p23_renew() { anyState(NW); unsigned long r = genrand_int32(); static unsigned ref[624]; for (int i = 0; i < NW; i++) ref[i] = (unsigned)S[i]; for (int k = 0; k < NW; k++) ref[k] = twist(ref[k], ref[(k + 1) % NW], ref[(k + 397) % NW]); int step = TIER > 1 ? 1 : 13, off = TIER > 1 ? 0 : vx_pick("offset", 0, 12); for (int k = off; k < NW; k += step) vx_check(mt[k] == ref[k], "renewed word"); vx_check(r == temper((unsigned)mt[0]), "first word of the new state"); vx_check(mti == 1, "next position"); vx_reach("renew"); }
extern "C" void p23_ranges() { anyState(vx_pick("position", 5, 6)); int g = vx_pick("generator", 0, 5); double v; switch (g) {
  case 0: { unsigned long r = genrand_int32(); vx_check(r <= 0xffffffffUL, "32-bit integer"); break; }
  case 1: { long r = genrand_int31(); vx_check(r >= 0 && r <= 0x7fffffffL, "31-bit integer"); break; }
  case 2: v = genrand_real1(); vx_check(v >= 0 && v <= 1, "closed interval"); break;
  case 3: v = genrand_real2(); vx_check(v >= 0 && v < 1, "half-open interval"); break;
  case 4: v = genrand_real3(); vx_check(v > 0 && v < 1, "open interval"); break;
  case 5: v = genrand_res53(); vx_check(v >= 0 && v < 1, "half-open interval, 53 bits"); break; } vx_reach("ranges"); }
// the ends of each interval are reached: state words whose tempered value is 0 and 2^32-1 exist
extern "C" void p23_ends() { int hi = vx_pick("end", 0, 1), g = vx_pick("generator", 0, 4); anyState(10); unsigned e = hi ? 0xffffffffu : 0u; vx_assume(temper((unsigned)S[10]) == e); vx_assume(temper((unsigned)S[11]) == e); double v = 0, w = 0; switch (g) { case 0: v = (double)genrand_int32(); w = hi ? 4294967295.0 : 0; break; case 1: v = (double)genrand_int31(); w = hi ? 2147483647.0 : 0; break; case 2: v = genrand_real1(); w = hi ? 1 : 0; break; case 3: v = genrand_real2(); w = hi ? 4294967295.0 / 4294967296.0 : 0; break; case 4: v = genrand_res53(); w = hi ? 1 - 1.0 / 9007199254740992.0 : 0; break; } vx_check(v == w, "end of the range"); char t[16] = "end_0_0"; t[4] = '0' + hi; t[6] = '0' + g; vx_reach(t); }
// same seed, same stream: the whole state after seeding depends on the seed alone
extern "C" void p23_seed() { static unsigned long a[624]; unsigned long s = (unsigned long)vx_int("seed", -2147483647 - 1, 2147483647); int keyed = vx_pick("by array", 0, 1), len = vx_pick("key length", 1, 3); if (keyed == 0 && len > 1) vx_end(); unsigned long key[3] = {s, 77, 0x12345}; anyState(vx_pick("position", 0, 2) * 312); if (keyed) init_by_array(key, len); else init_genrand(s); for (int i = 0; i < NW; i++) a[i] = mt[i]; int p = mti;
  anyState(17); if (keyed) init_by_array(key, len); else init_genrand(s); vx_check(mti == p && p == NW, "position after seeding"); int step = TIER > 1 ? 1 : 41; for (int i = 0; i < NW; i += step) vx_check(mt[i] == a[i], "state is a function of the seed"); vx_check(keyed || mt[0] == (s & 0xffffffffUL), "first word is the seed"); for (int i = 0; i < NW; i += step) vx_check(mt[i] <= 0xffffffffUL, "32-bit words"); if (!keyed) { unsigned r = (unsigned)s; for (int i = 1; i < 20; i++) { r = 1812433253u * (r ^ (r >> 30)) + i; vx_check(mt[i] == r, "recurrence of the seed"); } } vx_reach("seed"); }
