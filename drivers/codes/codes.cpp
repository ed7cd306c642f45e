// reals encoded as integers at compile time: every assertion is decided by the type checker
#include <cstdint>
#include <cstring>
#include <limits>
#include <HeuristicFlow/Global>
using namespace heu;
using u64 = uint64_t;
using u32 = uint32_t;
constexpr u64 bits(double d) { return __builtin_bit_cast(u64, d); }
constexpr u32 bits(float d) { return __builtin_bit_cast(u32, d); }
constexpr double real(u64 c) { return __builtin_bit_cast(double, c); }
constexpr float real(u32 c) { return __builtin_bit_cast(float, c); }
constexpr bool near(double a, double b) { const double e = a > b ? a - b : b - a, m = b > 0 ? b : -b; return e <= m * 1e-12; }
// the exponents first..last, each with the mantissa M and with one that differs from exponent to exponent
constexpr u64 mixed(u64 e) { return (e * 0x9E3779B97F4A7C15ull) >> 12; }
template <u64 First, u64 Last, u64 Mantissa> struct Codes64 {
  static constexpr u64 code(u64 e, int k) { return ((e & 1) << 63) | (e << 52) | (k ? mixed(e) : Mantissa); }
  static constexpr u64 decoded() {
    for (u64 e = First; e <= Last; e++) for (int k = 0; k < 2; k++) if (bits(decode(binCode64(code(e, k)))) != code(e, k)) return code(e, k);
    return 0;
  }
  static constexpr u64 encoded() {
    for (u64 e = First; e <= Last; e++) for (int k = 0; k < 2; k++) if (u64(encode(real(code(e, k)))) != code(e, k)) return code(e, k);
    return 0;
  }
  static_assert(decoded() == 0, "decode(binCode64) is the number with that code");
  static_assert(encoded() == 0, "encode(double) is the code of that number");
};
template <u32 First, u32 Last, u32 Mantissa> struct Codes32 {
  static constexpr u32 code(u32 e, int k) { return ((e & 1) << 31) | (e << 23) | (k ? u32(mixed(e) >> 29) : Mantissa); }
  static constexpr u32 decoded() {
    for (u32 e = First; e <= Last; e++) for (int k = 0; k < 2; k++) if (bits(decode(binCode32(code(e, k)))) != code(e, k)) return code(e, k);
    return 0;
  }
  static constexpr u32 encoded() {
    for (u32 e = First; e <= Last; e++) for (int k = 0; k < 2; k++) if (u32(encode(real(code(e, k)))) != code(e, k)) return code(e, k);
    return 0;
  }
  static_assert(decoded() == 0, "decode(binCode32) is the number with that code");
  static_assert(encoded() == 0, "encode(float) is the code of that number");
};
constexpr u64 ones = (1ull << 52) - 1;
template struct Codes64<0, 2, 1>;
template struct Codes64<0, 3, ones>;
template struct Codes64<1, 40, 0>;
template struct Codes64<500, 520, ones>;
template struct Codes64<760, 780, 0x8000000000000ull>;
template struct Codes64<990, 1060, 0>;
template struct Codes64<1000, 1050, ones>;
template struct Codes64<1020, 1026, 0x8000000000000ull>;
template struct Codes64<1021, 1027, 1>;
template struct Codes64<1270, 1290, 0x4000000000001ull>;
template struct Codes64<1500, 1520, ones>;
template struct Codes64<2030, 2046, 0>;
template struct Codes64<2040, 2046, ones>;
constexpr u32 ones32 = (1u << 23) - 1;
template struct Codes32<1, 254, 0>;
template struct Codes32<0, 254, ones32>;
template struct Codes32<0, 254, 1>;
template struct Codes32<0, 254, 0x400000>;
constexpr double infd = std::numeric_limits<double>::infinity();
constexpr float inff = std::numeric_limits<float>::infinity();
static_assert(decode(encode(infd)) == infd && decode(encode(-infd)) == -infd, "infinite doubles keep their sign");
static_assert(decode(encode(inff)) == inff && decode(encode(-inff)) == -inff, "infinite floats keep their sign");
static_assert(bits(decode(binCode64(0x7FFull << 52))) == bits(infd) && bits(decode(binCode64(0xFFFull << 52))) == bits(-infd), "codes of infinite doubles");
static_assert(bits(decode(binCode32(0xFFu << 23))) == bits(inff) && bits(decode(binCode32(0x1FFu << 23))) == bits(-inff), "codes of infinite floats");
static_assert((u64(encode(std::numeric_limits<double>::quiet_NaN())) & (0x7FFull << 52)) == 0x7FFull << 52 && (u64(encode(std::numeric_limits<double>::quiet_NaN())) & ones) != 0, "NaN is a NaN code");
static_assert((u32(encode(std::numeric_limits<float>::quiet_NaN())) & (0xFFu << 23)) == 0xFFu << 23 && (u32(encode(std::numeric_limits<float>::quiet_NaN())) & ones32) != 0, "NaN is a NaN code");
static_assert(decode(encode(0.0)) == 0 && decode(encode(-0.0)) == 0 && decode(encode(0.0f)) == 0 && decode(encode(-0.0f)) == 0, "zero is zero");
constexpr double some[] = {1, -1, 0.1, -0.1, 1.0 / 3, 3.14159265358979, 1e300, -1e-300, 5e-324, -5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308, 1.7976931348623157e308, 123456789.125, -1e16};
constexpr bool some64() { for (double d : some) if (decode(encode(d)) != d) return false; return true; }
constexpr bool some32() { for (double d : some) { const float f = d > 3e38 || d < -3e38 ? 7.25f : float(d); if (decode(encode(f)) != f) return false; } return true; }
static_assert(some64(), "decode(encode(double)) is that double");
static_assert(some32(), "decode(encode(float)) is that float");
static_assert(std::is_same_v<binCode_t<double>, binCode64> && std::is_same_v<binCode_t<float>, binCode32>, "binCode_t");
// quotients
template <int32_t A, uint32_t B> struct Div {
  static constexpr DivCode code = DivEncode<A, B>::code;
  static_assert(DivDecode<code>::numerator == A, "DivDecode gives back the numerator");
  static_assert(DivDecode<code>::denominator == B, "DivDecode gives back the denominator");
  static_assert(DivDecode<code>::real == double(A) / B, "DivDecode gives back the quotient");
};
template <int32_t A> struct Divs {
  Div<A, 1> a; Div<A, 2> b; Div<A, 3> c; Div<A, 10> d; Div<A, 65535> e; Div<A, 65536> f; Div<A, 0x7FFFFFFF> g; Div<A, 0x80000000u> h; Div<A, 0xFFFFFFFFu> i; Div<A, 0x0F0F0F0F> j; Div<A, 4000000001u> k;
};
template struct Divs<0>; template struct Divs<1>; template struct Divs<-1>; template struct Divs<2>; template struct Divs<-7>; template struct Divs<355>;
template struct Divs<65536>; template struct Divs<-65537>; template struct Divs<0x7FFFFFFF>; template struct Divs<-0x7FFFFFFF - 1>; template struct Divs<0x55555555>; template struct Divs<-0x2AAAAAAB>;
constexpr double pi = 3.14159265358979323846;
constexpr bool rough(double a, double b) { const double e = a > b ? a - b : b - a; return e <= 1e-8 * b; }
static_assert(DivDecode<DivCode_Half>::real == 0.5, "DivCode_Half");
static_assert(rough(DivDecode<DivCode_Pi>::real, pi), "DivCode_Pi");
static_assert(rough(DivDecode<DivCode_Pi_mul_2>::real, 2 * pi), "DivCode_Pi_mul_2");
static_assert(rough(DivDecode<DivCode_Pi_mul_3>::real, 3 * pi), "DivCode_Pi_mul_3");
static_assert(rough(DivDecode<DivCode_Pi_mul_4>::real, 4 * pi), "DivCode_Pi_mul_4");
static_assert(rough(DivDecode<DivCode_Pi_mul_6>::real, 6 * pi), "DivCode_Pi_mul_6");
static_assert(rough(DivDecode<DivCode_Pi_div_2>::real, pi / 2), "DivCode_Pi_div_2");
static_assert(rough(DivDecode<DivCode_Pi_div_3>::real, pi / 3), "DivCode_Pi_div_3");
static_assert(rough(DivDecode<DivCode_Pi_div_4>::real, pi / 4), "DivCode_Pi_div_4");
static_assert(rough(DivDecode<DivCode_Pi_div_6>::real, pi / 6), "DivCode_Pi_div_6");
static_assert(rough(DivDecode<DivCode_Sqrt2>::real, 1.41421356237309504880), "DivCode_Sqrt2");
static_assert(rough(DivDecode<DivCode_one_div_Sqrt2>::real, 0.70710678118654752440), "DivCode_one_div_Sqrt2");
static_assert(rough(DivDecode<DivCode_E>::real, 2.71828182845904523536), "DivCode_E");
// scientific notation: the first digit of the coefficient stands before the point
constexpr double ten(int p) { double r = 1; for (; p > 0; p--) r *= 10; for (; p < 0; p++) r /= 10; return r; }
constexpr int digits(int64_t s) { int n = 0; while (s >= 10 || s <= -10) { s /= 10; n++; } return n; }
constexpr double coefficient(int64_t s) { return double(s) / ten(digits(s)); }
template <int64_t S, int16_t P> struct Pow {
  static constexpr PowCode code = PowEncode<S, P>::code;
  static_assert(near(PowDecode<code>::real, coefficient(S) * ten(P)), "PowDecode gives back the number that was encoded");
  static_assert(S % 10 != 0 || PowEncode<S / 10, P>::code == code, "trailing zeros of the coefficient change nothing");
};
template <int64_t S> struct Pows {
  Pow<S, 0> a; Pow<S, 1> b; Pow<S, -1> c; Pow<S, 2> d; Pow<S, 9> e; Pow<S, -10> f; Pow<S, 127> g; Pow<S, -128> h; Pow<S, 255> i; Pow<S, -255> j;
  Pow<-S, 0> k; Pow<-S, 3> l; Pow<-S, -3> m; Pow<-S, 255> n;
};
template struct Pows<0>; template struct Pows<1>; template struct Pows<2>; template struct Pows<3>; template struct Pows<4>; template struct Pows<5>; template struct Pows<6>; template struct Pows<7>; template struct Pows<8>; template struct Pows<9>;
template struct Pows<10>; template struct Pows<17>; template struct Pows<18>; template struct Pows<19>; template struct Pows<20>; template struct Pows<99>; template struct Pows<100>;
template struct Pows<314159>; template struct Pows<123456>; template struct Pows<271828182845>; template struct Pows<1801439850948198>; template struct Pows<1801439850948199>; template struct Pows<999999999999999>;
template struct Pows<1000000000000000>; template struct Pows<2000000000000000>; template struct Pows<8765432187654321>; template struct Pows<9999999999999999>; template struct Pows<1919810>;
