// Integer rows and matrices of all integer types, converted from and to GMP, and rational reference arithmetic.
#pragma once
#include "big_integer.h"
#include "safe_integer.h"
#include "matrix.h"
#include "row.h"
#include <gmpxx.h>
#include <algorithm>
#include <limits>
#include <string>
#include <vector>

using panda::BigInteger;
using panda::SafeInteger;
using panda::Matrix;
using panda::Row;
using Z = mpz_class;
using Q = mpq_class;
using ZRow = std::vector<Z>;
using ZMatrix = std::vector<ZRow>;
using QRow = std::vector<Q>;
using QMatrix = std::vector<QRow>;

// ------------------------------------------------ conversion of the integer types

template <typename I> struct Conv
{
   static I make(const Z& z) { return static_cast<I>(z.get_si()); }
   static Z read(const I& i) { return Z(static_cast<long>(i)); }
};
template <> struct Conv<SafeInteger>
{
   static SafeInteger make(const Z& z) { return SafeInteger(static_cast<int64_t>(z.get_si())); }
   static Z read(const SafeInteger& x)
   {
      int64_t lo = std::numeric_limits<int64_t>::min(), hi = std::numeric_limits<int64_t>::max();
      while ( lo < hi )
      {
         const int64_t mid = lo + static_cast<int64_t>((static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)) / 2);
         if ( x <= SafeInteger(mid) ) hi = mid; else lo = mid + 1;
      }
      return Z(static_cast<long>(lo));
   }
};
template <> struct Conv<BigInteger>
{
   static BigInteger make(const Z& z)
   {
      if ( z.fits_slong_p() ) return BigInteger(static_cast<int64_t>(z.get_si()));
      Z a = abs(z);
      std::vector<long> d;
      while ( a != 0 ) { d.push_back(static_cast<Z>(a % (1 << 30)).get_si()); a >>= 30; }
      BigInteger r(static_cast<int32_t>(0));
      const BigInteger base(static_cast<int32_t>(1 << 30));
      for ( std::size_t i = d.size(); i > 0; --i ) { r *= base; r += BigInteger(static_cast<int64_t>(d[i - 1])); }
      return z < 0 ? -r : r;
   }
   static Z read(const BigInteger& x)
   {
      try { return Z(static_cast<int>(x)); } catch ( ... ) {}
      BigInteger y = abs(x);
      Z r = 0, s = 1;
      const BigInteger base(static_cast<int32_t>(1 << 30));
      while ( y != 0 ) { r += s * static_cast<int>(y % base); s <<= 30; y /= base; }
      return x < 0 ? Z(-r) : r;
   }
};

template <typename I> Row<I> makeRow(const ZRow& r) { Row<I> o; for ( const auto& z : r ) o.push_back(Conv<I>::make(z)); return o; }
template <typename I> Matrix<I> makeMatrix(const ZMatrix& m) { Matrix<I> o; for ( const auto& r : m ) o.push_back(makeRow<I>(r)); return o; }
template <typename I> ZRow readRow(const Row<I>& r) { ZRow o; for ( const auto& i : r ) o.push_back(Conv<I>::read(i)); return o; }
template <typename I> ZMatrix readMatrix(const Matrix<I>& m) { ZMatrix o; for ( const auto& r : m ) o.push_back(readRow<I>(r)); return o; }

static std::string show(const ZRow& r) { std::string s = "("; for ( const auto& z : r ) s += z.get_str() + " "; return s + ")"; }
static std::string show(const ZMatrix& m) { std::string s = "["; for ( const auto& r : m ) s += show(r); return s + "]"; }

// ------------------------------------------------ reference

static QRow toQ(const ZRow& r) { QRow q; for ( const auto& z : r ) q.push_back(Q(z)); return q; }

/// reduced row echelon form; returns the pivots
static std::vector<std::size_t> echelon(QMatrix& m)
{
   std::vector<std::size_t> piv;
   std::size_t row = 0;
   if ( m.empty() ) return piv;
   for ( std::size_t col = 0; col < m[0].size() && row < m.size(); ++col )
   {
      std::size_t p = row;
      while ( p < m.size() && m[p][col] == 0 ) ++p;
      if ( p == m.size() ) continue;
      std::swap(m[p], m[row]);
      const Q d = m[row][col];
      for ( auto& x : m[row] ) x /= d;
      for ( std::size_t i = 0; i < m.size(); ++i )
      {
         if ( i == row || m[i][col] == 0 ) continue;
         const Q f = m[i][col];
         for ( std::size_t j = 0; j < m[i].size(); ++j ) m[i][j] -= f * m[row][j];
      }
      piv.push_back(col);
      ++row;
   }
   m.resize(row);
   return piv;
}

static std::size_t rankOf(const ZMatrix& m) { QMatrix q; for ( const auto& r : m ) q.push_back(toQ(r)); return echelon(q).size(); }

static Z dot(const ZRow& a, const ZRow& b) { Z s = 0; for ( std::size_t i = 0; i < a.size(); ++i ) s += a[i] * b[i]; return s; }

static Z gcdOf(const ZRow& r) { Z g = 0; for ( const auto& z : r ) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), z.get_mpz_t()); return g; }

/// the row modulo the row space of the equations
static QRow reduce(const ZRow& r, const ZMatrix& eqs)
{
   QMatrix e;
   for ( const auto& x : eqs ) e.push_back(toQ(x));
   const auto piv = echelon(e);
   QRow q = toQ(r);
   for ( std::size_t k = 0; k < piv.size(); ++k )
   {
      const Q f = q[piv[k]];
      if ( f != 0 ) for ( std::size_t j = 0; j < q.size(); ++j ) q[j] -= f * e[k][j];
   }
   return q;
}

/// b is a positive multiple of a
static bool positiveMultiple(const QRow& a, const QRow& b)
{
   Q t = 0;
   for ( std::size_t i = 0; i < a.size(); ++i ) if ( a[i] != 0 ) { t = b[i] / a[i]; break; }
   if ( t <= 0 ) return std::all_of(a.begin(), a.end(), [](const Q& q) { return q == 0; }) && std::all_of(b.begin(), b.end(), [](const Q& q) { return q == 0; });
   for ( std::size_t i = 0; i < a.size(); ++i ) if ( a[i] * t != b[i] ) return false;
   return true;
}

