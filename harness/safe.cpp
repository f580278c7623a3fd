// Checked integers against 128 bit arithmetic: single operations on boundary operands, and histories.
#include "safe_integer.h"
#include "algorithm_integer_operations.h"
#include "common.h"
#include <limits>
#include <algorithm>
#include <stdexcept>

using panda::SafeInteger;
using W = __int128;

static const W LO = std::numeric_limits<int64_t>::min(), HI = std::numeric_limits<int64_t>::max();

static std::string str(W w)
{
   if ( w == 0 ) return "0";
   const bool n = w < 0;
   std::string s;
   while ( w != 0 ) { int d = static_cast<int>(w % 10); s += static_cast<char>('0' + (d < 0 ? -d : d)); w /= 10; }
   if ( n ) s += '-';
   return std::string(s.rbegin(), s.rend());
}

static int64_t number(Rng& rng)
{
   const int64_t hi = std::numeric_limits<int64_t>::max(), lo = std::numeric_limits<int64_t>::min();
   switch ( rng.below(9) )
   {
      case 0: return rng.in(-4, 4);
      case 1: return hi - static_cast<int64_t>(rng.below(4));
      case 2: return lo + static_cast<int64_t>(rng.below(4));
      case 3: { const int64_t p = static_cast<int64_t>(1) << rng.below(63); return (rng.chance(50) ? p : -p) + rng.in(-2, 2); }
      case 4: { const int64_t p = 3037000499; return (rng.chance(50) ? p : -p) + rng.in(-2, 2); }   // square root of the range
      case 5: { const int64_t d = rng.in(2, 1000); return (rng.chance(50) ? hi / d : lo / d) + rng.in(-2, 2); }
      case 6: return static_cast<int32_t>(rng.next());
      case 7: { const int64_t i = std::numeric_limits<int32_t>::max(); return (rng.chance(50) ? i : -i - 1) + rng.in(-2, 2); }
      default: return static_cast<int64_t>(rng.next()) >> rng.below(63);
   }
}

static int64_t related(Rng& rng, int64_t a)
{
   W w;
   switch ( rng.below(8) )
   {
      case 0: return a;
      case 1: w = -static_cast<W>(a); break;
      case 2: w = HI - a + rng.in(-2, 2); break;
      case 3: w = LO - a + rng.in(-2, 2); break;
      case 4: w = a == 0 ? 0 : HI / a + rng.in(-2, 2); break;
      case 5: w = a == 0 ? 0 : LO / a + rng.in(-2, 2); break;
      case 6: w = a + LO + rng.in(-2, 2); break;
      default: w = a - LO + rng.in(-2, 2); break;
   }
   return (w < LO || w > HI) ? number(rng) : static_cast<int64_t>(w);
}

static bool same(const SafeInteger& x, W m)
{
   if ( m < LO || m > HI ) return false;
   const SafeInteger e(static_cast<int64_t>(m));
   return x == e && !(x != e) && !(x < e) && !(x > e) && x <= e && x >= e;
}

/// value read back with comparisons only
static int64_t extract(const SafeInteger& x)
{
   int64_t lo = std::numeric_limits<int64_t>::min(), hi = std::numeric_limits<int64_t>::max();
   while ( lo < hi )
   {
      const int64_t mid = lo + static_cast<int64_t>((static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)) / 2);
      if ( x <= SafeInteger(mid) ) hi = mid; else lo = mid + 1;
   }
   return lo;
}

static W euclid(W a, W b) { const W r = a % b; return r < 0 ? r + b : r; }

template <typename T>
static void construct(Rng& rng, const char* name)
{
   using L = std::numeric_limits<T>;
   T v;
   switch ( rng.below(4) )
   {
      case 0: v = static_cast<T>(L::min() + static_cast<T>(rng.below(3))); break;
      case 1: v = static_cast<T>(L::max() - static_cast<T>(rng.below(3))); break;
      case 2: v = static_cast<T>((static_cast<uint64_t>(1) << 63) - 1 + rng.below(3)); break;
      default: v = static_cast<T>(rng.next()); break;
   }
   const W m = static_cast<W>(v);
   bool thrown = false;
   SafeInteger x{};
   try { x = SafeInteger(v); } catch ( const std::exception& ) { thrown = true; }
   if ( thrown != (m > HI) || (!thrown && !same(x, m)) ) report::bad(std::string("construct-") + name, str(m));
   report::stat("constructions");
}

static void pair(Rng& rng, bool log)
{
   const int64_t a = number(rng), b = rng.chance(50) ? related(rng, a) : number(rng);
   const SafeInteger x(a), y(b);
   const std::string ab = str(a) + " , " + str(b);
   if ( (x < y) != (a < b) || (x > y) != (a > b) || (x <= y) != (a <= b) || (x >= y) != (a >= b) || (x == y) != (a == b) || (x != y) != (a != b) )
      report::bad("compare", ab);
   int i;
   switch ( rng.below(4) )
   {
      case 0: i = std::numeric_limits<int>::min() + static_cast<int>(rng.below(2)); break;
      case 1: i = std::numeric_limits<int>::max() - static_cast<int>(rng.below(2)); break;
      case 2: i = static_cast<int>(a); break;
      default: i = static_cast<int>(rng.in(-2, 2)); break;
   }
   if ( (x < i) != (a < i) || (x > i) != (a > i) || (x <= i) != (a <= i) || (x >= i) != (a >= i) || (x == i) != (a == i) || (x != i) != (a != i) )
      report::bad("compare-int", ab + " , " + std::to_string(i));
   {
      bool thrown = false;
      int v = 0;
      try { v = static_cast<int>(x); } catch ( const std::exception& ) { thrown = true; }
      const bool fits = a >= std::numeric_limits<int>::min() && a <= std::numeric_limits<int>::max();
      if ( thrown == fits || (fits && v != a) ) report::bad("convert-int", ab);
   }
   const char* names[] = {"add", "subtract", "multiply", "divide", "modulo"};
   for ( int o = 0; o < 5; ++o )
   {
      for ( int form = 0; form < 3; ++form )   // binary, compound, alias
      {
         const W d = (form == 2) ? a : b, c = a;
         bool defined = true;
         W want = 0;
         switch ( o )
         {
            case 0: want = c + d; break;
            case 1: want = c - d; break;
            case 2: want = c * d; break;
            case 3: defined = d != 0; if ( defined ) want = c / d; break;
            default: defined = d > 0; if ( defined ) want = euclid(c, d); break;
         }
         if ( want < LO || want > HI ) defined = false;
         SafeInteger z = x, w = y;
         bool thrown = false;
         try
         {
            if ( form == 0 ) z = (o == 0) ? z + w : (o == 1) ? z - w : (o == 2) ? z * w : (o == 3) ? z / w : z % w;
            else
            {
               const SafeInteger& s = (form == 2) ? z : w;
               SafeInteger& q = (o == 0) ? z += s : (o == 1) ? z -= s : (o == 2) ? z *= s : (o == 3) ? z /= s : z %= s;
               if ( &q != &z ) report::bad(std::string(names[o]) + "-reference", ab);
            }
         }
         catch ( const std::exception& ) { thrown = true; }
         const std::string key = std::string(names[o]) + (form == 0 ? "" : form == 1 ? "-assign" : "-alias");
         if ( thrown == defined ) report::bad(key + (thrown ? "-exception" : "-not-refused"), ab + (thrown ? "" : " gives " + str(extract(z))));
         else if ( !same(z, thrown ? W(a) : want) ) report::bad(key + (thrown ? "-operand" : ""), ab + " gives " + str(extract(z)));
         if ( !same(w, b) ) report::bad(key + "-second-operand", ab);
         report::stat(thrown ? "refused" : "operations");
      }
   }
   for ( int o = 0; o < 2; ++o )
   {
      const bool defined = !(a == std::numeric_limits<int64_t>::min());
      const W want = (o == 0) ? -static_cast<W>(a) : (a < 0 ? -static_cast<W>(a) : static_cast<W>(a));
      bool thrown = false;
      SafeInteger z{};
      try { z = (o == 0) ? -x : abs(x); } catch ( const std::exception& ) { thrown = true; }
      if ( thrown == defined || (!thrown && !same(z, want)) ) report::bad(o == 0 ? "negate" : "absolute-value", str(a));
   }
   if ( a != std::numeric_limits<int64_t>::min() && b != std::numeric_limits<int64_t>::min() )
   {
      const int64_t g = std::__gcd(a < 0 ? -a : a, b < 0 ? -b : b);
      if ( !same(panda::algorithm::gcd(x, y), g) ) report::bad("gcd", ab);
      if ( g != 0 )
      {
         W l = static_cast<W>(a) / g * b;
         if ( l < 0 ) l = -l;
         if ( l <= HI && !same(panda::algorithm::lcm(x, y), l) ) report::bad("lcm", ab);
      }
      report::stat("gcd_lcm");
   }
   report::stat("evaluations");
   report::distinct(report::mix(report::mix(0, static_cast<uint64_t>(a)), static_cast<uint64_t>(b)));
   if ( log ) report::sample("pair " + ab);
}

static void history(Rng& rng)
{
   const int R = 5;
   std::vector<SafeInteger> x;
   std::vector<W> m;
   std::string trace;
   for ( int i = 0; i < R; ++i ) { const int64_t v = rng.chance(50) ? number(rng) : rng.in(-100, 100); m.push_back(v); x.push_back(SafeInteger(v)); trace += str(v) + ";"; }
   uint64_t h = 1;
   for ( int step = 0; step < 40; ++step )
   {
      const std::size_t i = rng.below(R), j = rng.below(R);
      const int o = static_cast<int>(rng.below(7));
      trace += " " + std::to_string(o) + ":" + std::to_string(i) + "," + std::to_string(j);
      h = report::mix(h, static_cast<uint64_t>(o) * 64 + i * 8 + j);
      bool thrown = false, defined = true;
      W want = m[i];
      try
      {
         switch ( o )
         {
            case 0: want = m[i] + m[j]; x[i] += x[j]; break;
            case 1: want = m[i] - m[j]; x[i] -= x[j]; break;
            case 2: want = m[i] * m[j]; x[i] *= x[j]; break;
            case 3: defined = m[j] != 0; if ( defined ) want = m[i] / m[j]; x[i] /= x[j]; break;
            case 4: defined = m[j] > 0; if ( defined ) want = euclid(m[i], m[j]); x[i] %= x[j]; break;
            case 5: want = -m[j]; x[i] = -x[j]; break;
            default: want = m[j] < 0 ? -m[j] : m[j]; x[i] = abs(x[j]); break;
         }
      }
      catch ( const std::exception& ) { thrown = true; }
      if ( want < LO || want > HI ) defined = false;
      if ( thrown == defined ) { report::bad(thrown ? "history-exception" : "history-not-refused", trace); return; }
      if ( defined ) m[i] = want;
      for ( std::size_t k = 0; k < static_cast<std::size_t>(R); ++k ) if ( !same(x[k], m[k]) ) { report::bad("history-value", trace); return; }
      report::stat("history_steps");
      if ( !defined ) report::stat("history_refusals");
   }
   report::stat("histories");
   report::stat("evaluations");
   report::distinct(h);
}

int main(int, char** argv)
{
   Rng rng(std::strtoull(argv[1], nullptr, 10));
   const long n = std::atol(argv[2]);
   for ( long k = 0; k < n; ++k )
   {
      report::step();
      pair(rng, k % 5000 == 7);
      if ( k % 4 == 0 ) history(rng);
      construct<int16_t>(rng, "int16"); construct<int32_t>(rng, "int32"); construct<int64_t>(rng, "int64");
      construct<uint16_t>(rng, "uint16"); construct<uint32_t>(rng, "uint32"); construct<uint64_t>(rng, "uint64");
      if ( !same(SafeInteger{}, 0) ) report::bad("construct-default", "");
   }
   report::finish();
}
