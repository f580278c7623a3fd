// Integer linear algebra of all integer types against rational arithmetic with GMP.
#include "algorithm_inequality_operations.h"
#include "algorithm_integer_operations.h"
#include "algorithm_matrix_operations.h"
#include "algorithm_row_operations.h"
#include "cast.h"
#include "big_integer.h"
#include "safe_integer.h"
#include "common.h"
#include "numbers.h"
#include <gmpxx.h>
#include <algorithm>
#include <limits>
#include <stdexcept>

// ------------------------------------------------ cases

struct Limits { int rows, cols, entry; };

static ZMatrix matrix(Rng& rng, const Limits& l)
{
   const std::size_t n = 1 + rng.below(static_cast<uint64_t>(l.rows)), d = 1 + rng.below(static_cast<uint64_t>(l.cols));
   ZMatrix m;
   const int c = static_cast<int>(rng.in(1, l.entry));
   const int style = static_cast<int>(rng.below(5));
   for ( std::size_t i = 0; i < n; ++i )
   {
      ZRow r;
      for ( std::size_t j = 0; j < d; ++j ) r.push_back(style == 0 && rng.chance(60) ? Z(0) : Z(rng.in(-c, c)));
      if ( style == 1 ) r.back() = 1;                              // points
      if ( style == 2 && i > 0 && rng.chance(60) ) r = m[rng.below(i)];   // repeated rows
      if ( style == 3 && d > 1 ) { const std::size_t a = rng.below(d), b = rng.below(d); r[a] = (a == b) ? Z(0) : r[b]; }
      if ( style == 4 && i > 1 && rng.chance(70) )
      {
         const auto &p = m[rng.below(i)], &q = m[rng.below(i)];
         for ( std::size_t j = 0; j < d; ++j ) { r[j] = p[j] + q[j]; if ( abs(r[j]) > l.entry ) r[j] = p[j]; }
      }
      m.push_back(r);
   }
   if ( style == 3 && d > 1 )
   {
      const std::size_t a = rng.below(d), b = rng.below(d);
      for ( auto& r : m ) r[a] = (a == b) ? Z(0) : Z(-r[b]);        // dependent column
   }
   return m;
}

template <typename I>
static void one(Rng& rng, const std::string& type, const Limits& l, bool big)
{
   ZMatrix m = matrix(rng, l);
   if ( big ) for ( auto& r : m ) for ( auto& z : r ) if ( rng.chance(50) ) z *= Z(rng.in(1, 1000000007)) * rng.in(1, 1000000009);
   const std::size_t d = m[0].size(), n = m.size();
   const auto M = makeMatrix<I>(m);
   const std::string what = type + " " + show(m);
   // rank
   const std::size_t rk = rankOf(m);
   if ( panda::algorithm::dimension(M) != rk ) report::bad("dimension", what + " is " + std::to_string(panda::algorithm::dimension(M)) + " instead of " + std::to_string(rk));
   report::stat("rank_" + std::string(rk == std::min(n, d) ? "full" : "deficient"));
   // equations
   const auto E = panda::algorithm::extractEquations(M);
   const ZMatrix e = readMatrix<I>(E);
   if ( e.size() != d - rk ) report::bad("equations-number", what + " equations " + show(e));
   for ( const auto& x : e )
   {
      if ( x.size() != d ) { report::bad("equations-width", what + " equations " + show(e)); return; }
      for ( const auto& r : m ) if ( dot(x, r) != 0 ) report::bad("equations-violated", what + " equations " + show(e));
   }
   if ( !e.empty() && rankOf(e) != e.size() ) report::bad("equations-dependent", what + " equations " + show(e));
   report::stat("equations", e.size());
   // normalization
   for ( int k = 0; k < 3; ++k )
   {
      ZRow r;
      for ( std::size_t j = 0; j < d; ++j ) r.push_back(rng.in(-l.entry, l.entry));
      if ( k == 2 && !e.empty() ) r = rng.pick(e);    // vanishes modulo the equations
      const auto N = panda::algorithm::normalize(makeRow<I>(r), E);
      const ZRow norm = readRow<I>(N);
      const QRow q = reduce(r, e);
      const bool zero = std::all_of(q.begin(), q.end(), [](const Q& x) { return x == 0; });
      const std::string w = type + " normalize " + show(r) + " by " + show(e) + " gives " + show(norm);
      if ( !positiveMultiple(q, reduce(norm, e)) ) report::bad("normalize-changes", w);
      if ( !zero && gcdOf(norm) != 1 ) report::bad("normalize-lowest-terms", w);
      // equivalent rows
      ZRow s = r;
      const Z t = rng.in(1, 3);
      for ( auto& z : s ) z *= t;
      for ( const auto& x : e ) { const Z f = rng.in(-1, 1); for ( std::size_t j = 0; j < d; ++j ) s[j] += f * x[j]; }
      const ZRow other = readRow<I>(panda::algorithm::normalize(makeRow<I>(s), E));
      if ( other != norm ) report::bad("normalize-common-form", w + " but " + show(s) + " gives " + show(other));
      ZRow twice = readRow<I>(panda::algorithm::normalize(N, E));
      if ( twice != norm ) report::bad("normalize-idempotent", w);
      report::stat("normalizations", 3);
   }
   // transposition and products
   const ZMatrix T = readMatrix<I>(panda::algorithm::transpose(M));
   bool ok = T.size() == d;
   for ( std::size_t i = 0; ok && i < d; ++i )
   {
      ok = T[i].size() == n;
      for ( std::size_t j = 0; ok && j < n; ++j ) ok = T[i][j] == m[j][i];
   }
   if ( !ok ) report::bad("transpose", what);
   ZRow v;
   for ( std::size_t j = 0; j < d; ++j ) v.push_back(rng.in(-l.entry, l.entry));
   const auto V = makeRow<I>(v);
   const ZRow prod = readRow<I>(M * V);
   for ( std::size_t i = 0; i < n; ++i ) if ( prod.size() != n || prod[i] != dot(m[i], v) ) { report::bad("matrix-vector", what + " times " + show(v)); break; }
   const auto& A = M[rng.below(n)];
   const ZRow a = readRow<I>(A);
   if ( Conv<I>::read(A * V) != dot(a, v) ) report::bad("scalar-product", show(a) + show(v));
   if ( Conv<I>::read(panda::algorithm::distance(A, V)) != -dot(a, v) ) report::bad("distance", show(a) + show(v));
   if ( Conv<I>::read(panda::algorithm::rhs(A)) != -a.back() ) report::bad("rhs", show(a));
   {
      const ZRow f = readRow<I>(panda::algorithm::furthestVertex(M, V)), c = readRow<I>(panda::algorithm::nearestVertex(M, V));
      Z lo = -dot(m[0], v), hi = lo;
      for ( const auto& r : m ) { const Z x = -dot(r, v); lo = std::min(lo, x); hi = std::max(hi, x); }
      if ( std::find(m.begin(), m.end(), f) == m.end() || -dot(f, v) != hi ) report::bad("furthest-vertex", what + " for " + show(v));
      if ( std::find(m.begin(), m.end(), c) == m.end() || -dot(c, v) != lo ) report::bad("nearest-vertex", what + " for " + show(v));
   }
   // rows
   {
      const Z f = rng.in(-3, 3);
      const I F = Conv<I>::make(f);
      const ZRow add = readRow<I>(A + V), sub = readRow<I>(A - V), mul = readRow<I>(A * F), mul2 = readRow<I>(F * A);
      auto B = A; B += V; auto C = A; C -= V; auto D = A; D *= F;
      bool good = readRow<I>(B) == add && readRow<I>(C) == sub && readRow<I>(D) == mul && mul == mul2 && add.size() == d && sub.size() == d && mul.size() == d;
      for ( std::size_t j = 0; good && j < d; ++j ) good = add[j] == a[j] + v[j] && sub[j] == a[j] - v[j] && mul[j] == a[j] * f;
      if ( !good ) report::bad("row-arithmetics", show(a) + show(v) + f.get_str());
      bool thrown = false;
      auto G = D;
      try { G /= F; } catch ( const std::exception& ) { thrown = true; }
      if ( thrown != (f == 0) || (!thrown && readRow<I>(G) != a) ) report::bad("row-division", show(a) + f.get_str());
      const Z g = gcdOf(a);
      if ( Conv<I>::read(panda::algorithm::gcd(A)) != g ) report::bad("row-gcd", type + " " + show(a));
      ZRow p;
      Z lcm = 1;
      for ( std::size_t j = 0; j < d; ++j )
      {
         const Z x = rng.chance(30) ? Z(1) : Z(rng.chance(50) ? rng.in(1, 6) : rng.in(-6, -1));
         p.push_back(x);
         mpz_lcm(lcm.get_mpz_t(), lcm.get_mpz_t(), x.get_mpz_t());
      }
      if ( Conv<I>::read(panda::algorithm::lcm(makeRow<I>(p))) != lcm ) report::bad("row-lcm", type + " " + show(p));
   }
   report::stat("evaluations");
   uint64_t h = report::mix(0, type);
   h = report::mix(h, show(m));
   if ( rk > 1 ) report::distinct(h);
   if ( rng.chance(1) ) report::sample(what + " rank " + std::to_string(rk) + " equations " + show(e));
}

template <typename I>
static void scalars(Rng& rng, const std::string& type)
{
   using L = std::numeric_limits<I>;
   const auto value = [&rng]() -> I
   {
      switch ( rng.below(5) )
      {
         case 0: return static_cast<I>(L::max() - static_cast<I>(rng.below(3)));
         case 1: return static_cast<I>(L::min() + static_cast<I>(rng.below(3)));
         case 2: return static_cast<I>(rng.in(-6, 6));
         case 3: return static_cast<I>(rng.in(-6, 6) * rng.in(1, 5) * rng.in(1, 100));
         default: return static_cast<I>(rng.next() >> rng.below(63));
      }
   };
   for ( int k = 0; k < 20; ++k )
   {
      const I a = value(), b = rng.chance(20) ? a : value();
      Z g, l, x = static_cast<long>(a), y = static_cast<long>(b);
      mpz_gcd(g.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t());
      mpz_lcm(l.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t());
      const Z hi = static_cast<long>(L::max());
      if ( g <= hi && Z(static_cast<long>(panda::algorithm::gcd(a, b))) != g ) report::bad("gcd", type + " " + x.get_str() + " " + y.get_str());
      if ( l <= hi && g != 0 && a != L::min() && b != L::min() && Z(static_cast<long>(panda::algorithm::lcm(a, b))) != l )
         report::bad("lcm", type + " " + x.get_str() + " " + y.get_str());
      report::stat("gcd_lcm", 2);
   }
}

/// conversions of rows between the integer types are exact or refused
static void casts(Rng& rng)
{
   ZRow r;
   bool fits = true;
   for ( int j = 0; j < 4; ++j )
   {
      Z z;
      switch ( rng.below(4) )
      {
         case 0: z = Z(std::numeric_limits<int>::max()) + rng.in(-2, rng.chance(20) ? 2 : 0); break;
         case 1: z = Z(std::numeric_limits<int>::min()) + rng.in(rng.chance(20) ? -2 : 0, 2); break;
         default: z = rng.in(-1000, 1000); break;
      }
      if ( rng.chance(3) ) z *= Z("18446744073709551616") + rng.in(-1, 1);
      fits = fits && z >= std::numeric_limits<int>::min() && z <= std::numeric_limits<int>::max();
      r.push_back(z);
   }
   for ( int t = 0; t < 2; ++t )
   {
      if ( t == 0 && !std::all_of(r.begin(), r.end(), [](const Z& z) { return z.fits_slong_p(); }) ) continue;
      bool thrown = false;
      Row<int> o;
      Matrix<int> p;
      try
      {
         if ( t == 0 ) { o = panda::cast<int>(makeRow<SafeInteger>(r)); p = panda::cast<int>(makeMatrix<SafeInteger>({r, r})); }
         else { o = panda::cast<int>(makeRow<BigInteger>(r)); p = panda::cast<int>(makeMatrix<BigInteger>({r, r})); }
      }
      catch ( const std::exception& ) { thrown = true; }
      if ( thrown == fits || (!thrown && (readRow<int>(o) != r || p.size() != 2 || readRow<int>(p[0]) != r || readRow<int>(p[1]) != r)) ) report::bad("cast", show(r));
   }
   ZRow s;
   for ( int j = 0; j < 4; ++j ) s.push_back(rng.chance(50) ? Z(static_cast<int>(rng.next())) : Z(rng.in(-9, 9)));
   const auto S = makeRow<int>(s);
   if ( readRow<BigInteger>(panda::cast<BigInteger>(S)) != s || readRow<SafeInteger>(panda::cast<SafeInteger>(S)) != s || readRow<int64_t>(panda::cast<int64_t>(S)) != s )
      report::bad("cast-widening", show(s));
   report::stat("casts", 5);
}

int main(int, char** argv)
{
   Rng rng(std::strtoull(argv[1], nullptr, 10));
   const long n = std::atol(argv[2]);
   for ( long k = 0; k < n; ++k )
   {
      report::step();
      one<int16_t>(rng, "int16", rng.chance(50) ? Limits{6, 3, 2} : Limits{5, 4, 1}, false);
      one<int32_t>(rng, "int32", Limits{7, 4, 5}, false);
      one<int64_t>(rng, "int64", rng.chance(50) ? Limits{7, 5, 20} : Limits{10, 8, 3}, false);
      one<SafeInteger>(rng, "safe", rng.chance(50) ? Limits{7, 5, 20} : Limits{10, 8, 3}, false);
      if ( k % 4 == 0 ) one<BigInteger>(rng, "inf", rng.chance(50) ? Limits{6, 5, 9} : Limits{9, 8, 1000}, rng.chance(50));
      scalars<int16_t>(rng, "int16"); scalars<int32_t>(rng, "int32"); scalars<int64_t>(rng, "int64");
      casts(rng);
   }
   report::finish();
}
