// Shared by the harnesses: seeded randomness and the protocol of lines read by lib/harn.py.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/time.h>
#include <unistd.h>

struct Rng
{
   uint64_t s;
   explicit Rng(uint64_t seed) : s(seed * 0xD6E8FEB86659FD93ull)
   {
      s = next() ^ (seed << 32);   // streams of neighbouring seeds must not be shifted copies of each other
      s = next();
   }
   uint64_t next()
   {
      uint64_t z = (s += 0x9E3779B97F4A7C15ull);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
   }
   uint64_t below(uint64_t n) { return next() % n; }
   int64_t in(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a) + 1)); }
   bool chance(int percent) { return below(100) < static_cast<uint64_t>(percent); }
   template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
   template <typename T> void shuffle(std::vector<T>& v)
   {
      for ( std::size_t i = v.size(); i > 1; --i ) std::swap(v[i - 1], v[below(i)]);
   }
};

namespace report
{
   static std::map<std::string, uint64_t> stats;
   static std::unordered_set<uint64_t> seen;
   static std::size_t bad_count = 0;

   inline void stat(const std::string& k, uint64_t n = 1) { stats[k] += n; }
   inline uint64_t mix(uint64_t h, uint64_t x)
   {
      h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
      h *= 0xBF58476D1CE4E5B9ull;
      return h ^ (h >> 29);
   }
   inline uint64_t mix(uint64_t h, const std::string& s)
   {
      for ( unsigned char c : s ) h = mix(h, c);
      return h;
   }
   /// remembers a state or case that was really exercised
   inline void distinct(uint64_t h) { if ( seen.size() < 60000 ) seen.insert(h); }
   inline void finish()
   {
      for ( const auto& p : stats ) std::printf("S %s %llu\n", p.first.c_str(), static_cast<unsigned long long>(p.second));
      for ( auto h : seen ) std::printf("H %016llx\n", static_cast<unsigned long long>(h));
      std::printf("E\n");
      std::fflush(stdout);
   }
   inline void bad(const std::string& key, std::string message)
   {
      for ( auto& c : message ) if ( c == '\n' ) c = ' ';
      std::printf("B %s %s\n", key.c_str(), message.c_str());
      std::fflush(stdout);
      if ( ++bad_count >= 5 )
      {
         finish();
         std::_Exit(0);
      }
   }
   /// to be called before every case: one that takes a minute of processor time is taken for an endless loop
   inline void step()
   {
      static bool armed = false;
      if ( !armed )
      {
         armed = true;
         std::signal(SIGPROF, [](int)
         {
            static const char text[] = "\nB endless-loop a case did not end within 60 s of processor time\nE\n";
            const auto n = write(1, text, sizeof(text) - 1);
            _exit(n > 0 ? 0 : 1);
         });
      }
      const itimerval t = {{0, 0}, {60, 0}};
      setitimer(ITIMER_PROF, &t, nullptr);
   }
   inline void sample(std::string message)
   {
      static int n = 0;
      if ( n++ < 2 )
      {
         for ( auto& c : message ) if ( c == '\n' ) c = ' ';
         std::printf("X %s\n", message.c_str());
      }
   }
}
