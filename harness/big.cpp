// Arbitrary precision integers against GMP: single operations on hostile operands, and long histories of operations.
#include "big_integer.h"
#include "algorithm_integer_operations.h"
#include "common.h"
#include <gmpxx.h>
#include <algorithm>
#include <limits>
#include <stdexcept>

using panda::BigInteger;
using M = mpz_class;

static const M INT_LO = std::numeric_limits<int>::min(), INT_HI = std::numeric_limits<int>::max();

static M power(unsigned k) { M r = 1; mpz_mul_2exp(r.get_mpz_t(), r.get_mpz_t(), k); return r; }
static std::string str(const M& m) { return m.get_str(); }
static M fromU64(uint64_t x) { M r; mpz_import(r.get_mpz_t(), 1, 1, 8, 0, 0, &x); return r; }
static M fromI64(int64_t x) { return x >= 0 ? fromU64(static_cast<uint64_t>(x)) : M(-fromU64(0 - static_cast<uint64_t>(x))); }

/// builds the number from digits of the given number of bits; negative numbers by negation or by subtraction
static BigInteger build(const M& m, unsigned bits, bool by_subtraction)
{
   M a = abs(m);
   std::vector<uint64_t> digits;
   const M base = power(bits);
   while ( a != 0 )
   {
      M d = a % base;
      uint64_t v = 0;
      mpz_export(&v, nullptr, 1, 8, 0, 0, d.get_mpz_t());
      digits.push_back(v);
      a /= base;
   }
   const BigInteger b = (bits < 64) ? BigInteger(static_cast<uint64_t>(1) << bits) : BigInteger(static_cast<uint64_t>(1) << 32) * BigInteger(static_cast<uint64_t>(1) << 32);
   BigInteger r(static_cast<int32_t>(0));
   for ( std::size_t i = digits.size(); i > 0; --i )
   {
      r *= b;
      if ( by_subtraction && m < 0 ) r -= BigInteger(digits[i - 1]);
      else r += BigInteger(digits[i - 1]);
   }
   return (m < 0 && !by_subtraction) ? -r : r;
}

static BigInteger make(Rng& rng, const M& m)
{
   if ( m >= INT_LO && m <= INT_HI && rng.chance(40) ) return BigInteger(static_cast<int32_t>(m.get_si()));
   if ( m.fits_slong_p() && rng.chance(40) ) return BigInteger(static_cast<int64_t>(m.get_si()));
   if ( m >= 0 && m.fits_ulong_p() && rng.chance(40) ) return BigInteger(static_cast<uint64_t>(m.get_ui()));
   return build(m, rng.pick(std::vector<unsigned>{64, 64, 63, 60, 31}), rng.chance(30));
}

/// reads the number back with comparisons, remainders, quotients and conversions
static M extract(BigInteger x)
{
   const bool negative = x < 0;
   BigInteger y = abs(x);
   M r = 0, scale = 1;
   const BigInteger base(static_cast<int32_t>(1 << 30));
   while ( y != 0 )
   {
      const BigInteger d = y % base;
      r += scale * static_cast<int>(d);
      scale <<= 30;
      y /= base;
      if ( mpz_sizeinbase(scale.get_mpz_t(), 2) > 200000 ) break;
   }
   return negative ? M(-r) : r;
}

static bool same(Rng& rng, const BigInteger& x, const M& m, int percent)
{
   const BigInteger e = make(rng, m);
   if ( !(x == e) || x != e || x < e || x > e || !(x <= e) || !(x >= e) || !(e == x) ) return false;
   return !rng.chance(percent) || extract(x) == m;
}

static M magnitude(Rng& rng, unsigned maxblocks)
{
   const unsigned n = static_cast<unsigned>(rng.below(maxblocks + 1));
   M r = 0;
   for ( unsigned i = 0; i < n; ++i )
   {
      uint64_t b;
      switch ( rng.below(10) )
      {
         case 0: case 1: b = 0; break;
         case 2: case 3: b = ~static_cast<uint64_t>(0); break;
         case 4: b = 1; break;
         case 5: b = static_cast<uint64_t>(1) << 63; break;
         case 6: b = static_cast<uint64_t>(1) << rng.below(64); break;
         case 7: b = (static_cast<uint64_t>(1) << rng.below(64)) - 1; break;
         default: b = rng.next(); break;
      }
      r = (r << 64) + fromU64(b);
   }
   if ( rng.chance(30) ) r >>= rng.below(64);
   if ( rng.chance(25) ) r += rng.in(-3, 3);
   return abs(r);
}

static M number(Rng& rng, unsigned maxblocks)
{
   M r;
   switch ( rng.below(6) )
   {
      case 0: r = rng.in(-5, 5); return r;
      case 1: r = fromI64(rng.in(-4, 4)); r += rng.chance(50) ? M(power(31)) : M(power(static_cast<unsigned>(rng.pick(std::vector<int>{15, 16, 30, 31, 32, 33, 62, 63, 64, 65, 96, 127, 128, 192})))); break;
      default: r = magnitude(rng, maxblocks); break;
   }
   return rng.chance(50) ? M(-r) : r;
}

static M related(Rng& rng, const M& a, unsigned maxblocks)
{
   switch ( rng.below(8) )
   {
      case 0: return a;
      case 1: return -a;
      case 2: return a + rng.in(-2, 2);
      case 3: return -a + rng.in(-2, 2);
      case 4: return a * number(rng, 2) + rng.in(-2, 2);
      case 5: { const M q = number(rng, 2); return q == 0 ? a : M(a / q + rng.in(-1, 1)); }
      default: return number(rng, maxblocks);
   }
}

static M euclid(const M& a, const M& b) { M r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }   // b > 0
static M quotient(const M& a, const M& b) { M r; mpz_tdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }

template <typename T>
static void construct(Rng& rng, const char* name)
{
   using L = std::numeric_limits<T>;
   T v;
   switch ( rng.below(4) )
   {
      case 0: v = static_cast<T>(L::min() + static_cast<T>(rng.below(3))); break;
      case 1: v = static_cast<T>(L::max() - static_cast<T>(rng.below(3))); break;
      case 2: v = static_cast<T>(rng.below(3)); break;
      default: v = static_cast<T>(rng.next()); break;
   }
   const M m = L::is_signed ? fromI64(static_cast<int64_t>(v)) : fromU64(static_cast<uint64_t>(v));
   if ( !same(rng, BigInteger(v), m, 30) ) report::bad(std::string("construct-") + name, str(m));
   report::stat("constructions");
}

static void pair(Rng& rng, unsigned maxblocks, bool log)
{
   const M a = number(rng, maxblocks), b = rng.chance(60) ? related(rng, a, maxblocks) : number(rng, maxblocks);
   const BigInteger x = make(rng, a), y = make(rng, b);
   const std::string ab = str(a) + " , " + str(b);
   if ( !same(rng, x, a, 100) || !same(rng, y, b, 100) ) report::bad("construct", ab);
   // comparisons
   const int c = cmp(a, b);
   if ( (x < y) != (c < 0) ) report::bad("compare-less", ab);
   if ( (x > y) != (c > 0) ) report::bad("compare-greater", ab);
   if ( (x <= y) != (c <= 0) ) report::bad("compare-less-equal", ab);
   if ( (x >= y) != (c >= 0) ) report::bad("compare-greater-equal", ab);
   if ( (x == y) != (c == 0) ) report::bad("compare-equal", ab);
   if ( (x != y) != (c != 0) ) report::bad("compare-unequal", ab);
   {
      int i;
      switch ( rng.below(4) )
      {
         case 0: i = std::numeric_limits<int>::min() + static_cast<int>(rng.below(2)); break;
         case 1: i = std::numeric_limits<int>::max() - static_cast<int>(rng.below(2)); break;
         case 2: i = static_cast<int>(rng.in(-2, 2)); break;
         default: i = (a >= INT_LO && a <= INT_HI) ? static_cast<int>(a.get_si()) : static_cast<int>(rng.next()); break;
      }
      const int d = cmp(a, M(i));
      if ( (x < i) != (d < 0) || (x > i) != (d > 0) || (x <= i) != (d <= 0) || (x >= i) != (d >= 0) || (x == i) != (d == 0) || (x != i) != (d != 0) )
         report::bad("compare-int", str(a) + " , " + std::to_string(i));
      report::stat("comparisons", 12);
   }
   // conversion
   {
      bool thrown = false;
      int v = 0;
      try { v = static_cast<int>(x); } catch ( const std::exception& ) { thrown = true; }
      const bool fits = (a >= INT_LO && a <= INT_HI);
      if ( thrown == fits || (fits && M(v) != a) ) report::bad("convert-int", str(a) + " gives " + (thrown ? std::string("exception") : std::to_string(v)));
      report::stat(fits ? "conversions" : "conversions_refused");
   }
   // arithmetics
   struct Op { const char* name; M want; bool defined; };
   const Op ops[] = {
      {"add", a + b, true}, {"subtract", a - b, true}, {"multiply", a * b, true},
      {"divide", b != 0 ? quotient(a, b) : M(0), b != 0}, {"modulo", b > 0 ? euclid(a, b) : M(0), b > 0}};
   for ( int o = 0; o < 5; ++o )
   {
      for ( int form = 0; form < 2; ++form )
      {
         BigInteger z = x, w = y;
         bool thrown = false;
         try
         {
            if ( form == 0 )
               z = (o == 0) ? z + w : (o == 1) ? z - w : (o == 2) ? z * w : (o == 3) ? z / w : z % w;
            else
            {
               BigInteger& q = (o == 0) ? z += w : (o == 1) ? z -= w : (o == 2) ? z *= w : (o == 3) ? z /= w : z %= w;
               if ( &q != &z ) report::bad(std::string(ops[o].name) + "-reference", ab);
            }
         }
         catch ( const std::exception& ) { thrown = true; }
         if ( thrown == ops[o].defined ) report::bad(std::string(ops[o].name) + (thrown ? "-exception" : "-undefined"), ab);
         else if ( thrown ) { report::stat("refused"); if ( !same(rng, z, a, 100) ) report::bad(std::string(ops[o].name) + "-operand", ab); }
         else if ( !same(rng, z, ops[o].want, 10) ) report::bad(std::string(ops[o].name) + (form ? "-assign" : ""), ab + " gives " + str(extract(z)) + " instead of " + str(ops[o].want));
         if ( !same(rng, w, b, 10) ) report::bad(std::string(ops[o].name) + "-second-operand", ab);
         report::stat("operations");
      }
   }
   // aliases
   for ( int o = 0; o < 5; ++o )
   {
      BigInteger z = x;
      const bool defined = o < 3 || (o == 3 ? a != 0 : a > 0);
      const M want = (o == 0) ? M(2 * a) : (o == 1) ? M(0) : (o == 2) ? M(a * a) : (o == 3) ? M(1) : M(0);
      bool thrown = false;
      try
      {
         if ( o == 0 ) z += z; else if ( o == 1 ) z -= z; else if ( o == 2 ) z *= z; else if ( o == 3 ) z /= z; else z %= z;
      }
      catch ( const std::exception& ) { thrown = true; }
      if ( thrown == defined ) report::bad(std::string(ops[o].name) + "-alias-exception", str(a));
      else if ( !thrown && !same(rng, z, want, 10) ) report::bad(std::string(ops[o].name) + "-alias", str(a) + " gives " + str(extract(z)));
      report::stat("operations");
   }
   if ( !same(rng, -x, -a, 10) ) report::bad("negate", str(a));
   if ( !same(rng, -(-x), a, 10) ) report::bad("negate-twice", str(a));
   if ( !same(rng, abs(x), abs(a), 10) ) report::bad("absolute-value", str(a));
   if ( rng.chance(25) )
   {
      M g;
      mpz_gcd(g.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
      if ( !same(rng, panda::algorithm::gcd(x, y), g, 100) ) report::bad("gcd", ab);
      if ( a != 0 || b != 0 )
      {
         M l;
         mpz_lcm(l.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
         if ( !same(rng, panda::algorithm::lcm(x, y), l, 100) ) report::bad("lcm", ab);
      }
      report::stat("gcd_lcm", 2);
   }
   report::stat("evaluations");
   if ( abs(a) > power(31) || abs(b) > power(31) )
   {
      report::distinct(report::mix(report::mix(0, str(a)), str(b)));
      if ( log ) report::sample("pair " + ab);
   }
}

/// a register machine: every register is compared with its model after every step that changes it
static void history(Rng& rng, unsigned maxbits)
{
   const int R = 6;
   std::vector<BigInteger> x(R);
   std::vector<M> m(R);
   std::string trace;
   uint64_t h = 1;
   for ( int i = 0; i < R; ++i ) { m[i] = number(rng, 2); x[i] = make(rng, m[i]); trace += str(m[i]) + ";"; }
   for ( int step = 0; step < 60; ++step )
   {
      const int i = static_cast<int>(rng.below(R)), j = static_cast<int>(rng.below(R)), o = static_cast<int>(rng.below(10));
      trace += " " + std::to_string(o) + ":" + std::to_string(i) + "," + std::to_string(j);
      h = report::mix(h, static_cast<uint64_t>(o * 64 + i * 8 + j));
      bool thrown = false, defined = true;
      M want = m[i];
      if ( o == 2 && mpz_sizeinbase(m[i].get_mpz_t(), 2) + mpz_sizeinbase(m[j].get_mpz_t(), 2) > maxbits ) continue;
      try
      {
         switch ( o )
         {
            case 0: want = m[i] + m[j]; x[i] += x[j]; break;
            case 1: want = m[i] - m[j]; x[i] -= x[j]; break;
            case 2: want = m[i] * m[j]; x[i] *= x[j]; break;
            case 3: defined = m[j] != 0; if ( defined ) want = quotient(m[i], m[j]); x[i] /= x[j]; break;
            case 4: defined = m[j] > 0; if ( defined ) want = euclid(m[i], m[j]); x[i] %= x[j]; break;
            case 5: want = -m[j]; x[i] = -x[j]; break;
            case 6: want = abs(m[j]); x[i] = abs(x[j]); break;
            case 7: want = m[j]; x[i] = x[j]; break;
            case 8: want = m[i] * m[j] - m[(i + 1) % R]; if ( mpz_sizeinbase(want.get_mpz_t(), 2) > maxbits ) { want = m[i]; break; } x[i] = x[i] * x[j] - x[(i + 1) % R]; break;
            default: { M f = number(rng, 2); want = m[j] + f; x[i] = x[j] + make(rng, f); break; }
         }
      }
      catch ( const std::exception& ) { thrown = true; }
      if ( thrown == defined ) { report::bad(thrown ? "history-exception" : "history-undefined", trace); return; }
      if ( !defined ) want = m[i];
      m[i] = want;
      if ( !same(rng, x[i], m[i], 5) ) { report::bad("history-value", trace + " : " + str(extract(x[i])) + " instead of " + str(m[i])); return; }
      if ( !same(rng, x[j], m[j], 1) ) { report::bad("history-operand", trace); return; }
      for ( int k = 0; k < R; ++k )
      {
         if ( (x[i] < x[k]) != (m[i] < m[k]) || (x[i] > x[k]) != (m[i] > m[k]) ) { report::bad("history-order", trace); return; }
      }
      report::stat("history_steps");
   }
   // order of the registers
   std::vector<int> p(R);
   for ( int i = 0; i < R; ++i ) p[static_cast<std::size_t>(i)] = i;
   std::sort(p.begin(), p.end(), [&](int i, int j) { return x[i] < x[j]; });
   for ( int i = 1; i < R; ++i ) if ( m[p[i - 1]] > m[p[i]] ) { report::bad("history-sort", trace); return; }
   report::stat("histories");
   report::stat("evaluations");
   report::distinct(h);
}

int main(int, char** argv)
{
   Rng rng(std::strtoull(argv[1], nullptr, 10));
   const long n = std::atol(argv[2]);
   const unsigned blocks = static_cast<unsigned>(std::atoi(argv[3]));
   for ( long k = 0; k < n; ++k )
   {
      report::step();
      if ( rng.chance(3) ) pair(rng, blocks * 3, false);
      else pair(rng, blocks, k % 5000 == 7);
      if ( k % 4 == 0 ) history(rng, blocks * 64);
      if ( k % 8 == 0 )
      {
         construct<int16_t>(rng, "int16"); construct<int32_t>(rng, "int32"); construct<int64_t>(rng, "int64");
         construct<uint16_t>(rng, "uint16"); construct<uint32_t>(rng, "uint32"); construct<uint64_t>(rng, "uint64");
         if ( !same(rng, BigInteger(), M(0), 100) ) report::bad("construct-default", "");
      }
   }
   report::finish();
}
