// Classes of rows under maps against orbits computed with rational arithmetic.
#include "algorithm_classes.h"
#include "algorithm_map_operations.h"
#include "algorithm_matrix_operations.h"
#include "algorithm_row_operations.h"
#include "maps.h"
#include "tags.h"
#include "common.h"
#include "numbers.h"
#include <set>

using panda::Map;
using panda::Maps;
using panda::Image;

static std::string show(const Maps& maps)
{
   std::string s;
   for ( const auto& m : maps )
   {
      s += "{";
      for ( const auto& im : m ) { s += "["; for ( const auto& t : im ) s += std::to_string(t.second) + "*" + std::to_string(t.first) + " "; s += "]"; }
      s += "}";
   }
   return s;
}

/// matrix of a map: row i holds the coefficients of the image of coordinate i (the last one is the constant)
static ZMatrix matrixOf(const Map& m)
{
   ZMatrix a(m.size(), ZRow(m.size(), Z(0)));
   for ( std::size_t i = 0; i < m.size(); ++i ) for ( const auto& t : m[i] ) a[i][t.first] += t.second;
   return a;
}

static ZRow pull(const ZMatrix& a, const ZRow& r)      // facets: the row composed with the map
{
   ZRow o(r.size(), Z(0));
   for ( std::size_t i = 0; i < r.size(); ++i ) for ( std::size_t j = 0; j < r.size(); ++j ) o[j] += a[i][j] * r[i];
   return o;
}

static ZRow push(const ZMatrix& a, const ZRow& v)      // vertices: the image of the vector
{
   ZRow o(v.size(), Z(0));
   for ( std::size_t i = 0; i < v.size(); ++i ) for ( std::size_t j = 0; j < v.size(); ++j ) o[i] += a[i][j] * v[j];
   return o;
}

static ZRow primitive(const QRow& q)
{
   Z d = 1;
   for ( const auto& x : q ) mpz_lcm(d.get_mpz_t(), d.get_mpz_t(), x.get_den().get_mpz_t());
   ZRow r;
   for ( const auto& x : q ) r.push_back(x.get_num() * (d / x.get_den()));
   const Z g = gcdOf(r);
   if ( g > 1 ) for ( auto& z : r ) z /= g;
   return r;
}

/// the system: maps (in program form), equations they respect
struct System
{
   Maps maps;
   ZMatrix points;   // homogeneous points which span the affine hull
   std::string kind;
};

/// rewrites the images with split, shuffled and vanishing terms: the same map in another notation
static void obfuscate(Rng& rng, Map& m)
{
   for ( std::size_t i = 0; i + 1 < m.size(); ++i )
   {
      Image im;
      for ( const auto& t : m[i] )
      {
         if ( rng.chance(20) ) { const int s = static_cast<int>(rng.in(-2, 2)); im.push_back({t.first, t.second - s}); im.push_back({t.first, s}); }
         else im.push_back(t);
      }
      rng.shuffle(im);
      m[i] = im;
   }
}

static System make(Rng& rng, bool equations, bool large)
{
   const std::size_t k = large ? 6 + rng.below(2) : 2 + rng.below(equations ? 3 : 4);
   const int c = static_cast<int>(rng.in(0, 2));
   // generators: signed permutations about c/2
   std::vector<std::pair<std::vector<std::size_t>, std::vector<bool>>> group;
   const std::size_t ng = large ? 2 : 1 + rng.below(3);
   const bool flips = rng.chance(large ? 10 : 40);
   for ( std::size_t g = 0; g < ng; ++g )
   {
      std::vector<std::size_t> p(k);
      for ( std::size_t i = 0; i < k; ++i ) p[i] = i;
      if ( rng.chance(90) )
      {
         if ( large && g == 0 ) std::rotate(p.begin(), p.begin() + 1, p.end());
         else if ( !large && rng.chance(50) ) rng.shuffle(p);
         else { const std::size_t a = rng.below(k), b = rng.below(k); std::swap(p[a], p[b]); }
      }
      std::vector<bool> f(k, false);
      if ( flips ) for ( std::size_t i = 0; i < k; ++i ) f[i] = rng.chance(40);
      group.push_back({p, f});
   }
   // unimodular change of coordinates, so that the maps are no signed permutations
   ZMatrix T(k + 1, ZRow(k + 1, Z(0))), S = T;
   for ( std::size_t i = 0; i <= k; ++i ) T[i][i] = S[i][i] = 1;
   const bool change = rng.chance(35);
   for ( int e = 0; change && e < 3; ++e )
   {
      const std::size_t a = rng.below(k), b = rng.below(k + 1);
      if ( a == b ) continue;
      const Z f = rng.in(-1, 1);
      for ( std::size_t j = 0; j <= k; ++j ) T[a][j] += f * T[b][j];        // T := E T
      for ( std::size_t j = 0; j <= k; ++j ) S[j][b] -= f * S[j][a];        // S := S E^-1
   }
   std::vector<ZMatrix> gens;
   for ( const auto& g : group )
   {
      ZMatrix a(k + 1, ZRow(k + 1, Z(0)));
      for ( std::size_t i = 0; i < k; ++i ) { a[i][g.first[i]] = g.second[i] ? -1 : 1; if ( g.second[i] ) a[i][k] = c; }
      a[k][k] = 1;
      ZMatrix ta(k + 1, ZRow(k + 1, Z(0))), r = ta;
      for ( std::size_t i = 0; i <= k; ++i ) for ( std::size_t j = 0; j <= k; ++j ) for ( std::size_t l = 0; l <= k; ++l ) ta[i][j] += T[i][l] * a[l][j];
      for ( std::size_t i = 0; i <= k; ++i ) for ( std::size_t j = 0; j <= k; ++j ) for ( std::size_t l = 0; l <= k; ++l ) r[i][j] += ta[i][l] * S[l][j];
      gens.push_back(r);
   }
   System s;
   s.kind = std::string(flips ? "signed" : "permutations") + (change ? "+changed" : "");
   std::size_t d = k;
   ZMatrix C;
   std::vector<std::size_t> position;   // of the old coordinates and dependent ones in the new order
   Z scale = 1;
   bool invariant = false;
   if ( equations )
   {
      const std::size_t e = 1 + rng.below(2);
      d = k + e;
      invariant = !flips && !change && rng.chance(50);
      if ( invariant )   // a scaled copy with dependent coordinates that are fixed by the group
      {
         scale = rng.in(1, 3);
         for ( std::size_t i = 0; i < e; ++i )
         {
            const Z f = rng.pick(std::vector<int>{-3, -2, -1, 1, 2, 3});
            ZRow row(k, f);
            row.push_back(rng.in(-2, 2));
            C.push_back(row);
         }
         s.kind += "+invariant-equations";
      }
      else
      {
         for ( std::size_t i = 0; i < e; ++i )
         {
            ZRow row;
            for ( std::size_t j = 0; j <= k; ++j ) row.push_back(rng.in(-2, 2));
            C.push_back(row);
         }
         s.kind += "+equations";
      }
   }
   for ( std::size_t i = 0; i < d; ++i ) position.push_back(i);
   if ( rng.chance(70) ) rng.shuffle(position);
   const auto at = [&](std::size_t i) { return i == d ? d : position[i]; };
   for ( const auto& g : gens )
   {
      ZMatrix a(d + 1, ZRow(d + 1, Z(0)));
      for ( std::size_t i = 0; i < k; ++i )
      {
         for ( std::size_t j = 0; j < k; ++j ) a[at(i)][at(j)] += g[i][j];
         a[at(i)][d] += scale * g[i][k];
      }
      for ( std::size_t i = k; i < d; ++i )
      {
         if ( invariant ) { a[at(i)][at(i)] = 1; continue; }
         for ( std::size_t j = 0; j < k; ++j ) for ( std::size_t l = 0; l < k; ++l ) a[at(i)][at(j)] += C[i - k][l] * g[l][j];
         a[at(i)][d] += C[i - k][k];
         for ( std::size_t l = 0; l < k; ++l ) a[at(i)][d] += C[i - k][l] * g[l][k];
      }
      // any multiple of an equation may be added to an image
      for ( std::size_t i = 0; i < d && d > k && !invariant; ++i )
      {
         if ( !rng.chance(40) ) continue;
         const std::size_t q = rng.below(d - k);
         const Z f = rng.in(-1, 1);
         a[at(i)][at(k + q)] += f;
         for ( std::size_t l = 0; l < k; ++l ) a[at(i)][at(l)] -= f * C[q][l];
         a[at(i)][d] -= f * C[q][k];
      }
      a[d][d] = 1;
      Map m(d + 1);
      for ( std::size_t i = 0; i <= d; ++i ) for ( std::size_t j = 0; j <= d; ++j ) if ( a[i][j] != 0 ) m[i].push_back({j, static_cast<int>(a[i][j].get_si())});
      if ( rng.chance(30) ) obfuscate(rng, m);
      s.maps.push_back(m);
   }
   if ( rng.chance(15) ) s.maps.push_back(s.maps[rng.below(s.maps.size())]);
   if ( rng.chance(10) )
   {
      Map id(d + 1);
      for ( std::size_t i = 0; i <= d; ++i ) id[i].push_back({i, 1});
      s.maps.insert(s.maps.begin() + static_cast<long>(rng.below(s.maps.size() + 1)), id);
   }
   // points spanning the affine hull
   for ( std::size_t t = 0; t <= k; ++t )
   {
      ZRow x(k, Z(0));
      if ( t < k ) x[t] = 1;
      ZRow p(d + 1, Z(0));
      for ( std::size_t i = 0; i < k; ++i ) p[at(i)] = scale * x[i];
      for ( std::size_t i = k; i < d; ++i ) { p[at(i)] = C[i - k][k]; for ( std::size_t l = 0; l < k; ++l ) p[at(i)] += C[i - k][l] * x[l]; }
      p[d] = 1;
      s.points.push_back(p);
   }
   return s;
}

static bool Huge = false;   // also orbits of thousands of members

template <typename I, typename Tag>
static void one(Rng& rng, const std::string& type, Tag tag, bool facets, bool equations)
{
   const bool large = Huge && rng.chance(2);   // thousands of members
   const std::size_t limit = large ? 6000 : 500;
   const System s = make(rng, equations, large);
   const std::size_t n = s.maps[0].size();
   std::vector<ZMatrix> ref;
   for ( const auto& m : s.maps ) ref.push_back(matrixOf(m));
   panda::Equations<I> E;
   ZMatrix e;
   Maps maps = s.maps;
   if ( equations )
   {
      E = panda::algorithm::extractEquations(makeMatrix<I>(s.points));
      e = readMatrix<I>(E);
      maps = panda::algorithm::normalize<I>(s.maps, E);
   }
   const std::string what = type + " " + s.kind + " " + show(s.maps) + (e.empty() ? "" : " equations " + show(e)) + " ";
   const auto canon = [&](const ZRow& r) { return primitive(reduce(r, e)); };
   const auto act = [&](const ZMatrix& a, const ZRow& r) { return canon(facets ? pull(a, r) : push(a, r)); };
   const auto orbit = [&](const ZRow& start)
   {
      std::set<ZRow> o{start};
      std::vector<ZRow> st{start};
      while ( !st.empty() && o.size() < limit )
      {
         const ZRow r = st.back();
         st.pop_back();
         for ( const auto& a : ref ) { const ZRow q = act(a, r); if ( o.insert(q).second ) st.push_back(q); }
      }
      return o;
   };
   std::vector<ZRow> given;          // rows in the form of the program
   std::vector<std::set<ZRow>> orbits;
   for ( int t = 0; t < 3; ++t )
   {
      ZRow r;
      for ( std::size_t j = 0; j < n; ++j ) r.push_back(large ? rng.in(-4, 4) : rng.in(-2, 2));
      if ( !facets ) r.back() = rng.chance(20) ? 0 : rng.in(1, 3);
      const ZRow c = canon(r);
      if ( gcdOf(c) == 0 ) continue;
      Row<I> R = facets ? panda::algorithm::normalize(makeRow<I>(r), E) : makeRow<I>(c);
      const auto o = orbit(c);
      if ( o.size() >= limit ) { report::stat("orbit_too_large"); continue; }
      const auto cls = panda::algorithm::getClass(R, maps, tag);
      std::set<ZRow> got;
      for ( const auto& x : cls ) got.insert(canon(readRow<I>(x)));
      const std::string w = what + "row " + show(readRow<I>(R));
      if ( cls.find(R) == cls.end() ) report::bad("class-without-row", w);
      if ( got != o ) report::bad("class-wrong", w + " has " + std::to_string(got.size()) + " members instead of " + std::to_string(o.size()));
      if ( cls.size() != got.size() ) report::bad("class-not-normal", w + " has equivalent members");
      // closed under each map, same class and representative for all members
      const auto rep = panda::algorithm::classRepresentative(R, maps, tag);
      if ( cls.find(rep) == cls.end() ) report::bad("representative-no-member", w);
      std::size_t k = 0;
      for ( const auto& x : cls )
      {
         for ( std::size_t m = 0; m < maps.size(); ++m )
         {
            const auto y = panda::algorithm::apply(maps[m], x, tag);
            if ( cls.find(y) == cls.end() ) report::bad("class-not-closed", w);
            if ( canon(readRow<I>(y)) != act(ref[m], readRow<I>(x)) ) report::bad("apply", w + " member " + show(readRow<I>(x)) + " map " + std::to_string(m) + " gives " + show(readRow<I>(y)));
            report::stat("applications");
         }
         if ( k++ < 6 )
         {
            if ( panda::algorithm::getClass(x, maps, tag) != cls ) report::bad("class-differs", w + " member " + show(readRow<I>(x)));
            if ( panda::algorithm::classRepresentative(x, maps, tag) != rep ) report::bad("representative-differs", w + " member " + show(readRow<I>(x)));
         }
         if ( rng.chance(50) ) given.push_back(readRow<I>(x));
      }
      if ( rng.chance(50) ) given.push_back(readRow<I>(R));
      orbits.push_back(o);
      report::stat("classes");
      if ( o.size() >= 500 ) report::stat("classes_of_500_and_more");
      if ( o.size() >= 5000 ) report::stat("classes_of_5000_and_more");
      report::stat(o.size() == 1 ? "class_trivial" : "class_nontrivial");
      if ( o.size() > 1 ) report::distinct(report::mix(0, w));
   }
   // list of representatives
   std::set<std::set<ZRow>> present;
   for ( const auto& o : orbits ) for ( const auto& r : given ) if ( o.count(canon(r)) ) present.insert(o);
   std::set<Row<I>> first;
   for ( int round = 0; round < 2 && !given.empty(); ++round )
   {
      rng.shuffle(given);
      if ( round == 1 && rng.chance(60) ) given.push_back(rng.pick(given));
      const Matrix<I> G = makeMatrix<I>(given);
      const Matrix<I> out = (round == 0) ? panda::algorithm::classes(G, maps, tag) : panda::algorithm::classes(std::set<Row<I>>(G.begin(), G.end()), maps, tag);
      std::set<Row<I>> reps(out.begin(), out.end());
      std::set<std::set<ZRow>> hit;
      for ( const auto& x : out )
      {
         const ZRow c = canon(readRow<I>(x));
         for ( const auto& o : present ) if ( o.count(c) ) hit.insert(o);
         if ( panda::algorithm::classRepresentative(x, maps, tag) != x ) report::bad("list-no-representative", what + show(given));
      }
      if ( out.size() != present.size() || hit != present ) report::bad("list-wrong", what + show(given) + " gives " + std::to_string(out.size()) + " rows for " + std::to_string(present.size()) + " classes");
      if ( round == 0 ) first = reps;
      else if ( reps != first ) report::bad("list-depends-on-order", what + show(given));
      report::stat("lists");
   }
   report::stat("evaluations");
   report::stat("kind_" + s.kind + (facets ? "_facets" : "_vertices"));
   if ( rng.chance(1) ) report::sample(what);
}

int main(int argc, char** argv)
{
   Rng rng(std::strtoull(argv[1], nullptr, 10));
   const long n = std::atol(argv[2]);
   Huge = (argc > 3);
   for ( long k = 0; k < n; ++k )
   {
      report::step();
      const panda::tag::facet f{};
      const panda::tag::vertex v{};
      one<int32_t>(rng, "int32", f, true, false);
      one<int64_t>(rng, "int64", f, true, true);
      one<int64_t>(rng, "int64", v, false, false);
      one<int32_t>(rng, "int32", v, false, false);
      one<SafeInteger>(rng, "safe", f, true, k % 2 == 0);
      if ( k % 2 == 0 ) one<SafeInteger>(rng, "safe", v, false, false);
      if ( k % 3 == 0 ) one<BigInteger>(rng, "inf", f, true, k % 2 == 0);
      if ( k % 6 == 0 ) one<BigInteger>(rng, "inf", v, false, false);
   }
   report::finish();
}
