// Emulation of the NEON instructions on 8 lanes of 8 bits. The types are as distinct as those of the real header, so that conversions are as strict.
#pragma once
#include <cstdint>
#include <cstring>
template<typename T, int N> struct emu_neon { T v[N]; };
using uint8x8_t = emu_neon<std::uint8_t, 8>;
using int8x8_t = emu_neon<std::int8_t, 8>;
using uint64x1_t = emu_neon<std::uint64_t, 1>;
template<typename To, typename From> inline To emu_cast(From f) { To t; static_assert(sizeof(t) == sizeof(f)); std::memcpy(&t, &f, sizeof(t)); return t; }
template<typename From, typename F> inline uint8x8_t emu_lanes(From a, From b, F f)
{
	uint8x8_t r = {};
	for (int i = 0; i < 8; ++i) r.v[i] = f(a.v[i], b.v[i]) ? 0xff : 0;
	return r;
}
#define EMU_COMPARE(name, op) \
	inline uint8x8_t name##_s8(int8x8_t a, int8x8_t b) { return emu_lanes(a, b, [](std::int8_t x, std::int8_t y) { return x op y; }); } \
	inline uint8x8_t name##_u8(uint8x8_t a, uint8x8_t b) { return emu_lanes(a, b, [](std::uint8_t x, std::uint8_t y) { return x op y; }); }
EMU_COMPARE(vceq, ==)
EMU_COMPARE(vcgt, >)
EMU_COMPARE(vcge, >=)
EMU_COMPARE(vcle, <=)
EMU_COMPARE(vclt, <)
#undef EMU_COMPARE
inline uint8x8_t vld1_u8(const std::uint8_t *p) { uint8x8_t r; std::memcpy(&r, p, 8); return r; }
inline int8x8_t vld1_s8(const std::int8_t *p) { int8x8_t r; std::memcpy(&r, p, 8); return r; }
inline uint8x8_t vdup_n_u8(std::uint8_t x) { uint8x8_t r; std::memset(&r, x, 8); return r; }
inline int8x8_t vdup_n_s8(std::int8_t x) { int8x8_t r; std::memset(&r, std::uint8_t(x), 8); return r; }
inline uint64x1_t vreinterpret_u64_u8(uint8x8_t a) { return emu_cast<uint64x1_t>(a); }
inline uint64x1_t vreinterpret_u64_s8(int8x8_t a) { return emu_cast<uint64x1_t>(a); }
inline uint8x8_t vreinterpret_u8_u64(uint64x1_t a) { return emu_cast<uint8x8_t>(a); }
inline uint8x8_t vreinterpret_u8_s8(int8x8_t a) { return emu_cast<uint8x8_t>(a); }
inline int8x8_t vreinterpret_s8_u8(uint8x8_t a) { return emu_cast<int8x8_t>(a); }
inline std::uint64_t vget_lane_u64(uint64x1_t a, int) { return a.v[0]; }
inline uint8x8_t vand_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; ++i) r.v[i] = std::uint8_t(a.v[i] & b.v[i]); return r; }
inline uint8x8_t vorr_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; ++i) r.v[i] = std::uint8_t(a.v[i] | b.v[i]); return r; }
inline uint8x8_t vmvn_u8(uint8x8_t a) { uint8x8_t r; for (int i = 0; i < 8; ++i) r.v[i] = std::uint8_t(~a.v[i]); return r; }
inline uint8x8_t vbsl_u8(uint8x8_t m, uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; ++i) r.v[i] = std::uint8_t((m.v[i] & a.v[i]) | (~m.v[i] & b.v[i])); return r; }
