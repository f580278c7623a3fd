// Index sets of all capacities against a set model, by histories of operations on a pool of sets.
#include "bitset_fixed_size.h"
#include "bitset_variable_size.h"
#include "common.h"
#include <algorithm>
#include <string>

using Model = std::vector<bool>;

static std::string show(const Model& m)
{
   std::string s = "{";
   int n = 0;
   for ( std::size_t i = 0; i < m.size() && n < 40; ++i ) if ( m[i] ) { s += std::to_string(i) + " "; ++n; }
   return s + "}";
}

static std::size_t top(const Model& m)   // smallest bound that covers all indices
{
   for ( std::size_t i = m.size(); i > 0; --i ) if ( m[i - 1] ) return i;
   return 1;
}

static std::size_t count(const Model& m) { return static_cast<std::size_t>(std::count(m.begin(), m.end(), true)); }

static bool subset(const Model& a, const Model& b)
{
   for ( std::size_t i = 0; i < a.size(); ++i ) if ( a[i] && !b[i] ) return false;
   return true;
}

static Model unite(const Model& a, const Model& b)
{
   Model r = a;
   for ( std::size_t i = 0; i < r.size(); ++i ) if ( b[i] ) r[i] = true;
   return r;
}

static std::size_t bound(Rng& rng, std::size_t least, std::size_t capacity)
{
   std::size_t r;
   switch ( rng.below(4) )
   {
      case 0: r = least; break;
      case 1: r = capacity; break;
      case 2: r = std::min(capacity, (least + 31) / 32 * 32 + (rng.chance(30) ? rng.below(3) : 0)); break;
      default: r = least + rng.below(capacity - least + 1); break;
   }
   return std::max(r, least);
}

static std::size_t index(Rng& rng, std::size_t capacity)
{
   switch ( rng.below(6) )
   {
      case 0: return rng.below(std::min<std::size_t>(capacity, 4));
      case 1: return capacity - 1 - rng.below(std::min<std::size_t>(capacity, 3));
      case 2: { const std::size_t w = rng.below(capacity / 32 + 1) * 32; return std::min(capacity - 1, w); }
      case 3: { const std::size_t w = rng.below(capacity / 32 + 1) * 32 + 31; return std::min(capacity - 1, w); }
      default: return rng.below(capacity);
   }
}

template <typename Bitset>
static Bitset singleton(std::size_t capacity, std::size_t i) { Bitset b(capacity); b.set(i); return b; }

template <typename Bitset>
static void compare(Rng& rng, const std::string& name, const std::vector<Bitset>& x, const std::vector<Model>& m, std::size_t capacity, const std::string& trace)
{
   const std::size_t k = x.size();
   const std::size_t a = rng.below(k), b = rng.below(k), c = rng.below(k);
   const std::size_t ab = std::max(top(m[a]), top(m[b])), abc = std::max(ab, top(m[c]));
   const std::size_t p = bound(rng, ab, capacity), q = bound(rng, abc, capacity);
   const std::string what = name + " capacity " + std::to_string(capacity) + " a=" + show(m[a]) + " b=" + show(m[b]) + " c=" + show(m[c]) + " bounds " + std::to_string(p) + "," + std::to_string(q) + " " + trace;
   if ( x[a].count(p) != count(m[a]) ) report::bad("count", what);
   if ( x[a].equals(x[b], p) != (m[a] == m[b]) || x[b].equals(x[a], p) != (m[a] == m[b]) ) report::bad("equals", what);
   if ( !x[a].equals(x[a], p) ) report::bad("equals-self", what);
   if ( x[a].contains(x[b], p) != subset(m[b], m[a]) ) report::bad("contains", what);
   const Model u = unite(m[a], m[b]);
   if ( Bitset::unionCount(x[a], x[b], p) != count(u) ) report::bad("union-count", what);
   if ( Bitset::unionContains(x[a], x[b], x[c], q) != subset(m[c], u) ) report::bad("union-contains", what);
   const Bitset merged = x[a].merge(x[b], p);
   Bitset want(capacity);
   for ( std::size_t i = 0; i < u.size(); ++i ) if ( u[i] ) want.set(i);
   if ( !merged.equals(want, capacity) || merged.count(capacity) != count(u) ) report::bad("merge", what);
   report::stat("observations", 8);
   if ( subset(m[c], u) && !subset(m[c], m[a]) && !subset(m[c], m[b]) ) report::stat("contained_in_union_only");
   uint64_t h = report::mix(0, name);
   for ( std::size_t i = 0; i < u.size(); ++i ) h = report::mix(h, static_cast<uint64_t>(m[a][i] + 2 * m[b][i] + 4 * m[c][i]));
   if ( count(m[a]) > 0 && count(m[b]) > 0 ) report::distinct(h);
}

template <typename Bitset>
static void history(Rng& rng, const std::string& name, std::size_t capacity, int steps)
{
   report::step();
   const std::size_t K = 5;
   std::vector<Bitset> x(K, Bitset(capacity));
   std::vector<Model> m(K, Model(capacity));
   std::string trace;
   for ( const auto& b : x ) if ( b.count(bound(rng, 1, capacity)) != 0 ) report::bad("initially-empty", name);
   for ( int s = 0; s < steps; ++s )
   {
      const std::size_t a = rng.below(K), b = rng.below(K);
      switch ( rng.below(6) )
      {
         case 0:
         {
            const std::size_t p = bound(rng, std::max(top(m[a]), top(m[b])), capacity);
            x[a] = x[a].merge(x[b], p);
            m[a] = unite(m[a], m[b]);
            break;
         }
         case 1: x[a] = x[b]; m[a] = m[b]; break;
         case 2: { if ( rng.chance(25) ) { x[a] = Bitset(capacity); m[a] = Model(capacity); } break; }
         case 3:   // a run of indices
         {
            std::size_t i = index(rng, capacity);
            for ( std::size_t n = rng.below(70); n > 0 && i < capacity; --n, ++i ) { x[a].set(i); m[a][i] = true; }
            break;
         }
         case 4:   // a subset of the union of two others, possibly with one index more
         {
            Model u = unite(m[b], m[(b + 1) % K]);
            x[a] = Bitset(capacity);
            m[a] = Model(capacity);
            for ( std::size_t i = 0; i < capacity; ++i ) if ( u[i] && rng.chance(80) ) { x[a].set(i); m[a][i] = true; }
            if ( rng.chance(50) ) { const std::size_t i = index(rng, capacity); x[a].set(i); m[a][i] = true; }
            break;
         }
         default: { const std::size_t i = index(rng, capacity); x[a].set(i); m[a][i] = true; break; }
      }
      for ( int r = 0; r < 2; ++r ) compare(rng, name, x, m, capacity, "");
   }
   report::stat("histories");
   report::stat("evaluations");
}

/// all single indices
template <typename Bitset>
static void singles(Rng& rng, const std::string& name, std::size_t capacity)
{
   report::step();
   Bitset all(capacity);
   for ( std::size_t i = 0; i < capacity; ++i )
   {
      const auto b = singleton<Bitset>(capacity, i);
      const std::size_t j = index(rng, capacity);
      const auto d = singleton<Bitset>(capacity, j);
      const std::size_t p = bound(rng, std::max(i, j) + 1, capacity);
      const std::string what = name + " capacity " + std::to_string(capacity) + " indices " + std::to_string(i) + "," + std::to_string(j);
      if ( b.count(bound(rng, i + 1, capacity)) != 1 ) report::bad("single-count", what);
      if ( b.equals(d, p) != (i == j) || b.contains(d, p) != (i == j) ) report::bad("single-compare", what);
      if ( Bitset::unionCount(b, d, p) != (i == j ? 1u : 2u) ) report::bad("single-union-count", what);
      if ( all.contains(b, i + 1) ) report::bad("single-contained-before", what);
      all.set(i);
      if ( !all.contains(b, i + 1) || all.count(i + 1) != i + 1 ) report::bad("single-contained-after", what);
      if ( !Bitset::unionContains(b, d, d, p) || Bitset::unionContains(b, b, d, p) != (i == j) ) report::bad("single-union-contains", what);
   }
   report::stat("singles", capacity);
}

template <std::size_t Size>
static void fixed(Rng& rng, int rounds)
{
   const std::string name = "fixed" + std::to_string(Size);
   singles<panda::BitsetFixedSize<Size>>(rng, name, 32 * Size);
   for ( int r = 0; r < rounds; ++r )
   {
      const std::size_t capacity = rng.chance(50) ? 32 * Size : 32 * Size - rng.below(32);
      history<panda::BitsetFixedSize<Size>>(rng, name, capacity, Size > 40 ? 25 : 80);
      history<panda::BitsetVariableSize>(rng, "variable", capacity, Size > 40 ? 25 : 80);
   }
   singles<panda::BitsetVariableSize>(rng, "variable", 32 * Size);
}

int main(int, char** argv)
{
   Rng rng(std::strtoull(argv[1], nullptr, 10));
   const int n = std::atoi(argv[2]);
   fixed<1>(rng, n * 20); fixed<2>(rng, n * 20); fixed<3>(rng, n * 16); fixed<4>(rng, n * 14); fixed<6>(rng, n * 10); fixed<8>(rng, n * 8);
   fixed<10>(rng, n * 6); fixed<12>(rng, n * 6); fixed<16>(rng, n * 4); fixed<20>(rng, n * 4); fixed<30>(rng, n * 3); fixed<40>(rng, n * 3);
   fixed<50>(rng, n * 2); fixed<75>(rng, n * 2); fixed<100>(rng, n); fixed<150>(rng, n); fixed<200>(rng, n);
   for ( int i = 0; i < n * 60; ++i ) history<panda::BitsetVariableSize>(rng, "variable", 1 + rng.below(300), 40);
   for ( std::size_t c = 1; c < 200; ++c ) singles<panda::BitsetVariableSize>(rng, "variable", c);
   report::sample("capacities 1 to 200 words, histories with insertions, unions, copies");
   report::finish();
}
