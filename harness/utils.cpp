// Scope-bound helpers, stream helpers and reversed ranges against models.
#include "common.h"

#include <atomic>
#include <chrono>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <thread>
#include <unistd.h>

#include "delayed_action.h"
#include "istream_peek_line.h"
#include "joining_thread.h"
#include "position_guarded_file.h"
#include "range.h"
#include "scope_guard.h"

using namespace panda;

namespace
{
   std::string show(const std::vector<int>& v)
   {
      std::ostringstream s;
      for ( int i : v ) s << i << ' ';
      return s.str();
   }

   // ---- scope guards: random programs of nested scopes, every way out ----
   struct Scopes
   {
      Rng& r;
      std::vector<int> log, expected;
      int next = 0, budget = 40;
      uint64_t shape = 1;
      explicit Scopes(Rng& r_) : r(r_) {}

      struct Functor
      {
         std::shared_ptr<int> alive;
         std::vector<int>* log;
         int id;
         void operator()() const { log->push_back(id * *alive); }
      };

      void leave(std::vector<int>& mine, int how)
      {
         for ( std::size_t i = mine.size(); i > 0; --i ) if ( mine[i - 1] != 0 ) expected.push_back(mine[i - 1]);
         shape = report::mix(shape, static_cast<uint64_t>(how) + 3 * mine.size());
      }

      void scope(int depth)
      {
         std::vector<int> mine;   // ids in order of construction, 0: dismissed
         try
         {
            body(depth, mine);
         }
         catch ( const std::runtime_error& )
         {
            leave(mine, 1);
            if ( r.chance(60) ) throw;
            return;
         }
         leave(mine, 2);
      }

      void inner(int depth)
      {
         if ( depth < 5 && budget > 0 ) for ( uint64_t k = r.below(3); k > 0 && budget > 0; --k ) scope(depth + 1);
      }

      /// 0: go on, 1: return; may throw
      bool out(int depth)
      {
         const uint64_t k = r.below(12);
         if ( k == 0 ) throw std::runtime_error("way out");
         if ( k == 1 ) return true;
         if ( k < 6 ) inner(depth);
         return false;
      }

      void body(int depth, std::vector<int>& mine)
      {
         --budget;
         if ( out(depth) ) return;
         const int a = ++next;
         auto lambda = [this, a]() { log.push_back(a); };
         auto guard_a = makeScopeGuard(std::move(lambda));
         mine.push_back(a);
         if ( out(depth) ) return;
         if ( r.chance(25) ) { guard_a.dismiss(); mine[0] = 0; }
         if ( out(depth) ) return;
         const int b = ++next;
         auto guard_b = makeScopeGuard(std::function<void()>([this, b]() { log.push_back(b); }));
         mine.push_back(b);
         if ( r.chance(20) ) { guard_b.dismiss(); mine[1] = 0; }
         if ( out(depth) ) return;
         if ( r.chance(40) )
         {
            // the action moves to the new guard, which ends first
            auto moved = std::move(guard_b);
            const int was = mine[1];
            mine[1] = 0;
            std::vector<int> here{was};
            try
            {
               if ( r.chance(20) ) { moved.dismiss(); here[0] = 0; }
               if ( r.chance(20) ) { guard_b.dismiss(); }
               if ( r.chance(30) )
               {
                  auto again = std::move(moved);
                  std::vector<int> there(here);
                  here[0] = 0;
                  try
                  {
                     if ( r.chance(50) ) inner(depth);
                  }
                  catch ( ... )
                  {
                     mine.push_back(there[0]);
                     throw;
                  }
                  mine.push_back(there[0]);
                  // it ends right now: account for it at once
                  leave_one(mine);
               }
               if ( r.chance(30) && out(depth) ) { mine.push_back(here[0]); return; }
            }
            catch ( ... )
            {
               mine.push_back(here[0]);
               throw;
            }
            mine.push_back(here[0]);
            leave_one(mine);
         }
         if ( out(depth) ) return;
         const int c = ++next;
         auto guard_c = makeScopeGuard(Functor{std::make_shared<int>(1), &log, c});
         mine.push_back(c);
         for ( uint64_t k = r.below(3); k > 0; --k ) if ( out(depth) ) return;
      }

      void leave_one(std::vector<int>& mine)
      {
         if ( mine.back() != 0 ) expected.push_back(mine.back());
         mine.pop_back();
      }

      void run()
      {
         try { scope(0); } catch ( const std::runtime_error& ) { }
         if ( log != expected ) report::bad("scope-exit", "actions ran as " + show(log) + "but expected " + show(expected));
         report::stat("scope_exit_actions", log.size());
         report::stat("scope_programs");
         report::distinct(report::mix(shape, log.size()));
      }
   };

   // ---- delayed actions ----
   using Steady = std::chrono::steady_clock;
   using System = std::chrono::system_clock;
   struct Now
   {
      Steady::time_point a = Steady::now();
      System::time_point b = System::now();
   };

   template <typename Duration>
   void delayed(Rng& r, Duration delay, uint64_t sleep_us)
   {
      int ran = 0;
      bool dismissed = false, in_scope = false;
      Now before, created, leaving;
      const int how = static_cast<int>(r.below(4));
      const auto act = [&]() { ++ran; };
      try
      {
         before = Now();
         auto action = makeDelayedAction([&]() { act(); }, delay);
         created = Now();
         if ( sleep_us > 0 ) std::this_thread::sleep_for(std::chrono::microseconds(sleep_us));
         if ( r.chance(20) ) { action.dismiss(); dismissed = true; }
         in_scope = ran != 0;
         leaving = Now();
         if ( how == 1 )
         {
            auto other = std::move(action);
            if ( r.chance(20) ) { other.dismiss(); dismissed = true; }
            leaving = Now();
         }
         if ( how == 2 ) throw 1;
      }
      catch ( int )
      {
      }
      const Now after;
      const auto d = std::chrono::duration_cast<std::chrono::nanoseconds>(delay);
      const bool must = leaving.a - created.a >= d && leaving.b - created.b >= d;
      const bool must_not = after.a - before.a < d && after.b - before.b < d;
      const std::string where = "delay " + std::to_string(d.count()) + " ns, way out " + std::to_string(how);
      if ( in_scope ) report::bad("delayed-early", "the action ran before the end of the scope: " + where);
      if ( ran > 1 ) report::bad("delayed-twice", "the action ran " + std::to_string(ran) + " times: " + where);
      if ( dismissed && ran ) report::bad("delayed-dismissed", "the dismissed action ran: " + where);
      if ( !dismissed && must_not && ran ) report::bad("delayed-early", "the action ran before its delay: " + where);
      if ( !dismissed && must && !ran ) report::bad("delayed-missing", "the action did not run after its delay: " + where);
      report::stat("delayed_actions");
      report::stat(dismissed ? "delayed_dismissed" : must ? "delayed_due" : must_not ? "delayed_not_due" : "delayed_borderline");
      report::distinct(report::mix(report::mix(static_cast<uint64_t>(d.count()), sleep_us), static_cast<uint64_t>(how) * 2 + dismissed));
   }

   void delayed_any(Rng& r)
   {
      const uint64_t sleep_us = r.chance(40) ? 0 : r.below(2500);
      switch ( r.below(5) )
      {
         case 0: delayed(r, std::chrono::seconds(r.pick(std::vector<int>{0, 1, 5, 60, 100000, -1})), sleep_us); break;
         case 1: case 2: delayed(r, std::chrono::milliseconds(r.pick(std::vector<int>{0, 1, 2, 3, 900, 1000000})), sleep_us); break;
         default: delayed(r, std::chrono::nanoseconds(r.pick(std::vector<int64_t>{0, 1, 1000, 300000, 1500000, 999999999, 3600000000000})), sleep_us); break;
      }
   }

   // ---- joining threads ----
   struct Owned
   {
      std::atomic<int> done{0};
      std::vector<int> data;   // not atomic: written by the threads (one cell each), read by the owner after the join
   };

   void work(Owned* o, int cell, unsigned us)
   {
      if ( us > 0 ) std::this_thread::sleep_for(std::chrono::microseconds(us));
      o->data[static_cast<std::size_t>(cell)] += cell + 1;
      o->done.fetch_add(1, std::memory_order_relaxed);
   }

   void joining(Rng& r)
   {
      const int n = static_cast<int>(r.in(1, 6));
      Owned o;
      o.data.assign(static_cast<std::size_t>(n), 0);
      const int how = static_cast<int>(r.below(5));
      std::vector<unsigned> us;
      for ( int i = 0; i < n; ++i ) us.push_back(r.chance(50) ? 0u : static_cast<unsigned>(r.below(800)));
      try
      {
         std::list<JoiningThread> list;
         std::vector<JoiningThread> vector;   // reallocation moves the threads
         for ( int i = 0; i < n; ++i )
         {
            const unsigned u = us[static_cast<std::size_t>(i)];
            Owned* const p = &o;
            switch ( how )
            {
               case 0: list.emplace_front([p, i, u]() { work(p, i, u); }); break;
               case 1: vector.emplace_back(work, p, i, u); break;
               case 2:
               {
                  JoiningThread t(work, p, i, u);
                  JoiningThread moved(std::move(t));
                  if ( r.chance(50) ) vector.push_back(std::move(moved));
                  break;
               }
               case 3: list.emplace_back(work, p, i, u); if ( i == n - 1 ) throw 1; break;
               default:
               {
                  std::unique_ptr<JoiningThread> t(new JoiningThread(work, p, i, u));
                  break;
               }
            }
         }
      }
      catch ( int )
      {
      }
      if ( o.done.load(std::memory_order_relaxed) != n ) report::bad("not-joined", "threads finished: " + std::to_string(o.done) + " of " + std::to_string(n) + ", way " + std::to_string(how));
      for ( int i = 0; i < n; ++i ) if ( o.data[static_cast<std::size_t>(i)] != i + 1 ) report::bad("not-joined", "effects of a joined thread are missing, way " + std::to_string(how));
      report::stat("joined_threads", static_cast<uint64_t>(n));
      report::distinct(report::mix(static_cast<uint64_t>(n * 10 + how), us[0]));
   }

   // ---- streams ----
   std::string content(Rng& r)
   {
      std::string s;
      const int n = static_cast<int>(r.below(8));
      for ( int i = 0; i < n; ++i )
      {
         switch ( r.below(7) )
         {
            case 0: break;
            case 1: s += std::string(r.below(3), ' ') + "\t"; break;
            case 2: s += std::string(static_cast<std::size_t>(r.pick(std::vector<int>{1, 127, 128, 1023, 4095, 4096, 8191, 8192, 9000, 20000})), 'x'); break;
            case 3: s += "Inequalities:"; break;
            case 4: for ( uint64_t k = r.below(20); k > 0; --k ) { const char c = static_cast<char>(r.below(256)); if ( c != '\n' ) s.push_back(c); } break;
            default: for ( uint64_t k = r.below(12); k > 0; --k ) s += std::to_string(r.in(-20, 20)) + " "; break;
         }
         if ( r.chance(10) ) s += "\r";
         s += "\n";
      }
      if ( r.chance(40) && !s.empty() ) s.pop_back();   // no newline at the end of the file
      if ( r.chance(30) ) s += "tail";
      return s;
   }

   std::string quote(const std::string& s)
   {
      std::string t = "'";
      for ( char c : s.substr(0, 200) ) t += c == '\n' ? std::string("\\n") : std::string(1, c);
      return t + "'";
   }

   /// Reads the same content with and without peeking: everything read has to be equal.
   void peeking(Rng& r, const std::string& path)
   {
      const std::string text = content(r);
      const bool file = r.chance(70);
      if ( file ) { std::ofstream f(path, std::ios::binary); f << text; }
      std::ifstream fa;
      std::istringstream sa(text);
      if ( file ) fa.open(path, r.chance(50) ? std::ios::in : std::ios::in | std::ios::binary);
      std::istream& a = file ? static_cast<std::istream&>(fa) : sa;
      std::istringstream b(text);
      std::size_t pos = 0;
      uint64_t h = text.size();
      if ( r.chance(3) ) { a.setstate(std::ios::failbit); b.setstate(std::ios::failbit); }
      for ( int step = 0; step < 40; ++step )
      {
         const bool before = static_cast<bool>(a) && !a.eof();
         if ( r.chance(70) )
         {
            const std::size_t e = std::min(text.find('\n', pos), text.size());
            const std::string want = static_cast<bool>(a) && !a.eof() ? text.substr(pos, e - pos) : "";
            for ( uint64_t k = 1 + r.below(2); k > 0; --k )
            {
               const std::string got = peekLine(a);
               report::stat("peeks");
               if ( got != want ) report::bad("peek-content", "peeked " + quote(got) + " instead of " + quote(want) + " of " + quote(text));
            }
            if ( before && (!a || a.eof()) ) report::bad("peek-state", "peeking changed the state of the stream at " + std::to_string(pos) + " of " + quote(text));
            if ( before && static_cast<std::streamoff>(a.tellg()) != static_cast<std::streamoff>(pos) ) report::bad("peek-position", "peeking moved the stream at " + std::to_string(pos) + " of " + quote(text));
         }
         if ( b.eof() || !b ) break;
         std::string x, y;
         const uint64_t k = r.below(5);
         h = report::mix(h, k);
         if ( k < 3 ) { std::getline(a, x); std::getline(b, y); }
         else if ( k == 3 ) { a >> x; b >> y; }
         else { const int c = a.get(), d = b.get(); x = std::to_string(c); y = std::to_string(d); }
         if ( x != y || a.eof() != b.eof() || a.fail() != b.fail() )
         {
            report::bad("peek-next", "read " + quote(x) + " after peeking instead of " + quote(y) + " of " + quote(text));
            break;
         }
         if ( !b || b.eof() ) { if ( r.chance(50) ) break; continue; }
         pos = static_cast<std::size_t>(b.tellg());
      }
      report::distinct(h);
      report::stat("peeked_streams");
   }

   void guarding(Rng& r, const std::string& path)
   {
      const std::string text = content(r);
      { std::ofstream f(path, std::ios::binary); f << text; }
      std::ifstream a(path, std::ios::binary);
      std::string skip;
      for ( uint64_t k = r.below(4); k > 0; --k ) std::getline(a, skip);
      if ( !a || a.eof() ) { a.clear(); a.seekg(static_cast<std::streamoff>(r.below(text.size() + 1))); }
      for ( int round = 0; round < 3; ++round )
      {
         const std::size_t pos = static_cast<std::size_t>(a.tellg());
         try
         {
            PositionGuardedFile g(a);
            switch ( r.below(6) )
            {
               case 0: break;
               case 1: std::getline(g.file, skip); break;
               case 2: while ( std::getline(g.file, skip) ) {} break;
               case 3: g.file.seekg(0); break;
               case 4: g.file >> skip; throw 1;
               default:
               {
                  PositionGuardedFile h(g.file);
                  while ( h.file.get() != EOF ) {}
                  break;
               }
            }
         }
         catch ( int )
         {
         }
         if ( !a || a.eof() ) report::bad("guard-state", "the stream is not usable after the guard, " + quote(text));
         if ( static_cast<std::size_t>(a.tellg()) != pos ) report::bad("guard-position", "the guard left the stream at " + std::to_string(a.tellg()) + " instead of " + std::to_string(pos) + " of " + quote(text));
         report::distinct(report::mix(pos, text));
         report::stat("guarded_positions");
         if ( round == 1 ) a.seekg(static_cast<std::streamoff>(r.below(text.size() + 1)));
      }
      std::string rest((std::istreambuf_iterator<char>(a)), std::istreambuf_iterator<char>());
      a.clear();
      const std::size_t len = rest.size();
      if ( len > text.size() || rest != text.substr(text.size() - len) ) report::bad("guard-rest", "the rest of the stream differs, " + quote(text));
   }

   // ---- reversed ranges ----
   template <typename C>
   void reversed(Rng& r, C c)
   {
      std::vector<int> want, got;
      for ( const auto& x : c ) want.insert(want.begin(), x);
      for ( const auto& x : makeReverseRange(c) ) got.push_back(x);
      if ( got != want ) report::bad("reverse", "visited " + show(got) + "instead of " + show(want));
      const C& k = c;
      got.clear();
      for ( auto x : makeReverseRange(k) ) got.push_back(x);
      if ( got != want ) report::bad("reverse-const", "visited " + show(got) + "instead of " + show(want));
      auto range = makeReverseRange(c);
      for ( int twice = 0; twice < 2; ++twice )
      {
         got.clear();
         for ( auto it = range.begin(); it != range.end(); ++it ) got.push_back(*it);
         if ( got != want ) report::bad("reverse-again", "visited " + show(got) + "instead of " + show(want));
      }
      report::stat("ranges");
      report::distinct(report::mix(r.next() * 0 + want.size() * 11, show(want)));
   }

   template <typename C>
   void reversed_mutable(Rng& r, C c)
   {
      std::vector<int> before(c.begin(), c.end());
      int k = 0;
      for ( auto& x : makeReverseRange(c) ) x += 1000 * ++k;
      std::size_t i = 0;
      for ( int x : c )
      {
         if ( x != before[i] + 1000 * static_cast<int>(before.size() - i) ) { report::bad("reverse-write", "wrong element changed"); break; }
         ++i;
      }
      if ( i != before.size() ) report::bad("reverse-write", "number of elements changed");
      (void)r;
      report::stat("ranges");
   }

   void ranges(Rng& r)
   {
      std::vector<int> v;
      for ( uint64_t n = r.pick(std::vector<int>{0, 1, 2, 3, 7, 30, 200}); n > 0; --n ) v.push_back(static_cast<int>(r.in(-9, 9)));
      switch ( r.below(5) )
      {
         case 0: reversed(r, v); reversed_mutable(r, v); break;
         case 1: reversed(r, std::list<int>(v.begin(), v.end())); reversed_mutable(r, std::list<int>(v.begin(), v.end())); break;
         case 2: reversed(r, std::deque<int>(v.begin(), v.end())); reversed_mutable(r, std::deque<int>(v.begin(), v.end())); break;
         case 3: reversed(r, std::set<int>(v.begin(), v.end())); break;
         default: reversed(r, std::multiset<int>(v.begin(), v.end())); break;
      }
   }
}

int main(int, char** argv)
{
   Rng r(std::strtoull(argv[1], nullptr, 10));
   const auto count = std::strtoull(argv[2], nullptr, 10);
   const char* const dir = std::getenv("TMPDIR");
   const std::string path = std::string(dir ? dir : ".") + "/utils-" + std::to_string(getpid());
   for ( uint64_t i = 0; i < count; ++i )
   {
      report::step();
      switch ( r.below(20) )
      {
         case 0: delayed_any(r); break;
         case 1: joining(r); break;
         case 2: case 3: case 4: guarding(r, path); break;
         case 5: case 6: case 7: case 8: case 9: ranges(r); break;
         case 10: case 11: case 12: case 13: case 14: peeking(r, path); break;
         default: Scopes(r).run(); break;
      }
      report::stat("evaluations");
   }
   std::remove(path.c_str());
   report::finish();
}
