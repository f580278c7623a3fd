// Records histories of the job pool under concurrent use and checks them afterwards.
#include "common.h"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <iostream>
#include <mutex>
#include <set>
#include <streambuf>
#include <thread>

#include "big_integer.h"
#include "job_manager.h"
#include "safe_integer.h"

using namespace panda;

namespace
{
   // relaxed on purpose: recording must not order the calls it observes (the race detector has to see the pool's own ordering).
   std::atomic<uint64_t> clock_{1};
   uint64_t tick() { return clock_.fetch_add(1, std::memory_order_relaxed); }

   struct Capture : std::streambuf
   {
      std::mutex m;
      std::string text;
      std::streamsize xsputn(const char* s, std::streamsize n) override
      {
         std::lock_guard<std::mutex> l(m);
         text.append(s, static_cast<std::size_t>(n));
         return n;
      }
      int overflow(int c) override
      {
         std::lock_guard<std::mutex> l(m);
         if ( c != EOF ) text.push_back(static_cast<char>(c));
         return c;
      }
   };

   Capture out, err;

   struct Call
   {
      enum Kind { GET, REPORT, ANNOUNCE } kind;
      uint64_t start, end;
      int row;   // GET: id or -1 for the request to stop; REPORT: the row whose neighbours are reported (-1: initial); ANNOUNCE: the row
   };

   void pause_(Rng& r, int level)
   {
      const uint64_t k = r.below(100);
      if ( static_cast<int>(k) >= level ) return;
      if ( k % 3 == 0 ) std::this_thread::yield();
      else std::this_thread::sleep_for(std::chrono::microseconds(r.below(k % 7 == 1 ? 1500 : 120)));
   }

   template <typename Integer>
   Row<Integer> encode(int id, int width)
   {
      Row<Integer> r;
      int rest = id + 1;   // distinct, never the empty row
      for ( int i = 0; i < width; ++i )
      {
         r.push_back(Integer(rest % 7 - 3));
         rest /= 7;
      }
      return r;
   }

   std::vector<std::vector<int>> graph(Rng& r, int n)
   {
      std::vector<std::vector<int>> g(static_cast<std::size_t>(n));
      const int kind = static_cast<int>(r.below(5));
      for ( int i = 0; i < n; ++i )
      {
         auto& a = g[static_cast<std::size_t>(i)];
         switch ( kind )
         {
            case 0: if ( i + 1 < n ) a.push_back(i + 1); break;                       // chain: the pool runs dry all the time
            case 1: if ( i == 0 ) for ( int j = 1; j < n; ++j ) a.push_back(j); break;  // star: one report announces everything
            case 2: for ( int j : {2 * i + 1, 2 * i + 2} ) if ( j < n ) a.push_back(j); break;
            case 3: for ( int j = 0; j < 3; ++j ) a.push_back(static_cast<int>(r.below(static_cast<uint64_t>(n)))); break;
            default: if ( i + 1 < n ) a.push_back(i + 1); for ( int j = 0; j < i; j += 2 ) a.push_back(j); break;
         }
         if ( r.chance(30) ) a.push_back(i);
         if ( r.chance(30) && !a.empty() ) a.push_back(a[r.below(a.size())]);
         r.shuffle(a);
      }
      return g;
   }

   bool number(const std::string& s, std::size_t& p, std::size_t& v)
   {
      const std::size_t b = p;
      v = 0;
      while ( p < s.size() && s[p] >= '0' && s[p] <= '9' ) v = 10 * v + static_cast<std::size_t>(s[p++] - '0');
      return p > b;
   }

   std::string trace(const std::string& text, std::size_t rows)
   {
      std::map<std::size_t, bool> state;
      std::size_t last = 0, pos = 0, k = 0, n = 0;
      while ( pos < text.size() )
      {
         std::size_t e = text.find('\n', pos);
         if ( e == std::string::npos ) return "incomplete line " + text.substr(pos);
         const std::string line = text.substr(pos, e - pos);
         pos = e + 1;
         std::size_t p = 12;
         if ( line.compare(0, 12, "Processing #") == 0 )
         {
            if ( !number(line, p, k) || line.compare(p, 13, " of at least ") != 0 ) return "torn line " + line;
            p += 13;
            if ( !number(line, p, n) || (line.substr(p) != " class" && line.substr(p) != " classes") ) return "torn line " + line;
            if ( k != state.size() + 1 ) return "out of order: " + line;
            if ( n < k || n < last || n > rows ) return "wrong number of known rows: " + line;
            last = n;
            state[k] = false;
         }
         else if ( line.compare(0, 17, "Done processing #") == 0 )
         {
            p = 17;
            if ( !number(line, p, k) || p != line.size() ) return "torn line " + line;
            if ( state.find(k) == state.end() ) return "never started: " + line;
            if ( state[k] ) return "twice: " + line;
            state[k] = true;
         }
         else return "unexpected line " + line;
      }
      if ( state.size() != rows ) return "rows started: " + std::to_string(state.size()) + ", announced: " + std::to_string(rows);
      for ( const auto& s : state ) if ( !s.second ) return "row #" + std::to_string(s.first) + " not completed";
      return "";
   }

   template <typename Integer, typename Tag>
   void round(Rng& r)
   {
      const int n = static_cast<int>(r.chance(20) ? r.in(1, 3) : r.in(2, 60));
      const int width = 4 + static_cast<int>(r.below(3));
      const int workers = static_cast<int>(r.chance(20) ? 1 : r.in(2, r.chance(20) ? 16 : 6));
      const auto g = graph(r, n);
      std::vector<int> initial;
      for ( uint64_t i = r.below(4); i > 0; --i ) initial.push_back(static_cast<int>(r.below(static_cast<uint64_t>(n))));
      if ( r.chance(60) || initial.empty() ) initial = {0};
      if ( r.chance(3) ) initial.clear();
      std::set<int> reach;
      std::vector<int> todo(initial);
      while ( !todo.empty() )
      {
         const int x = todo.back();
         todo.pop_back();
         if ( reach.insert(x).second ) for ( int y : g[static_cast<std::size_t>(x)] ) todo.push_back(y);
      }
      std::map<Row<Integer>, int> decode;
      std::vector<Row<Integer>> row;
      for ( int i = 0; i < n; ++i )
      {
         row.push_back(encode<Integer>(i, width));
         decode[row.back()] = i;
      }
      Names names;
      for ( int i = 1; i < width; ++i ) names.push_back("x" + std::to_string(i));
      out.text.clear();
      err.text.clear();
      const int level = static_cast<int>(r.pick(std::vector<int>{0, 10, 40, 90}));
      const bool late = r.chance(50);      // the first rows arrive when workers are waiting already
      const bool announce = !reach.empty() && r.chance(60);
      const uint64_t seed = r.next();
      std::vector<std::vector<Call>> log(static_cast<std::size_t>(workers) + 2);
      {
         JobManager<Integer, Tag> pool(names, 1, workers);
         const auto put_initial = [&]()
         {
            Rng q(seed);
            Matrix<Integer> m;
            for ( int i : initial ) m.push_back(row[static_cast<std::size_t>(i)]);
            pause_(q, level);
            const uint64_t s = tick();
            pool.put(m);
            log.back().push_back({Call::REPORT, s, tick(), -1});
         };
         // as in the program: threads serving other nodes may wait already when the initial rows arrive, the node's own workers and
         // the announcer of known rows start afterwards
         const int early = late ? static_cast<int>(r.below(static_cast<uint64_t>(workers))) : 0;
         std::vector<std::thread> threads;
         const auto work = [&](int w)
         {
            Rng q(seed + 77 + static_cast<uint64_t>(w));
            auto& l = log[static_cast<std::size_t>(w)];
            while ( true )
            {
               const uint64_t s = tick();
               const auto job = pool.get();
               if ( job.empty() )
               {
                  l.push_back({Call::GET, s, tick(), -1});
                  break;
               }
               const auto it = decode.find(job);
               const int id = it == decode.end() ? -2 : it->second;
               l.push_back({Call::GET, s, tick(), id});
               Matrix<Integer> m;
               if ( id >= 0 ) for ( int y : g[static_cast<std::size_t>(id)] ) m.push_back(row[static_cast<std::size_t>(y)]);
               pause_(q, level);
               const uint64_t t = tick();
               pool.put(m);
               l.push_back({Call::REPORT, t, tick(), id});
               pause_(q, level / 3);
            }
         };
         for ( int w = 0; w < early; ++w ) threads.emplace_back(work, w);
         std::thread(put_initial).join();
         std::thread announcer;
         if ( announce ) announcer = std::thread([&]()
         {
            Rng q(seed + 5);
            std::vector<int> all(reach.begin(), reach.end());
            q.shuffle(all);
            all.resize(1 + q.below(all.size()));
            for ( int i : all )
            {
               pause_(q, level);
               const uint64_t s = tick();
               pool.put(row[static_cast<std::size_t>(i)]);
               log[static_cast<std::size_t>(workers)].push_back({Call::ANNOUNCE, s, tick(), i});
            }
         });
         for ( int w = early; w < workers; ++w ) threads.emplace_back(work, w);
         for ( auto& t : threads ) t.join();
         if ( announce ) announcer.join();
         // everything is over: all further requests are told to stop at once
         std::thread([&]()
         {
            for ( int i = 0; i < 2; ++i )
            {
               const uint64_t s = tick();
               const auto job = pool.get();
               const auto it = decode.find(job);
               log.back().push_back({Call::GET, s, tick(), job.empty() ? -1 : it == decode.end() ? -2 : it->second});
            }
         }).join();
      }
      std::vector<Call> all;
      for ( const auto& l : log ) all.insert(all.end(), l.begin(), l.end());
      std::sort(all.begin(), all.end(), [](const Call& a, const Call& b) { return a.end < b.end; });
      uint64_t h = 1;
      std::ostringstream text;
      for ( const auto& c : all )
      {
         text << (c.kind == Call::GET ? " get" : c.kind == Call::REPORT ? " report" : " announce") << '[' << c.start << ',' << c.end << "]:" << c.row;
         h = report::mix(h, static_cast<uint64_t>(c.kind) * 1000 + static_cast<uint64_t>(c.row + 5));
      }
      const auto bad = [&](const std::string& key, const std::string& what)
      {
         report::bad(key, what + " (rows " + std::to_string(reach.size()) + ", workers " + std::to_string(workers) + "); history:" + text.str().substr(0, 3000));
      };
      std::map<int, uint64_t> first, handed;
      const auto known = [&](int i, uint64_t t) { auto p = first.insert({i, t}); if ( !p.second && t < p.first->second ) p.first->second = t; };
      for ( const auto& c : all )
      {
         if ( c.kind == Call::ANNOUNCE ) known(c.row, c.start);
         if ( c.kind == Call::REPORT ) for ( int y : c.row == -1 ? initial : c.row < 0 ? std::vector<int>{} : g[static_cast<std::size_t>(c.row)] ) known(y, c.start);
      }
      uint64_t first_stop = ~0ull;
      std::size_t stops = 0;
      for ( const auto& c : all ) if ( c.kind == Call::GET )
      {
         if ( c.row == -1 )
         {
            ++stops;
            first_stop = std::min(first_stop, c.end);
            continue;
         }
         if ( c.row < 0 ) { bad("unknown-row", "a row was handed out that nobody announced"); return; }
         if ( !handed.insert({c.row, c.end}).second ) { bad("handed-out-twice", "row " + std::to_string(c.row) + " was handed out twice"); return; }
         const auto it = first.find(c.row);
         if ( it == first.end() || it->second > c.end ) { bad("handed-out-early", "row " + std::to_string(c.row) + " was handed out before it was announced"); return; }
      }
      for ( int i : reach ) if ( handed.find(i) == handed.end() ) { bad("row-lost", "row " + std::to_string(i) + " was never handed out"); return; }
      for ( const auto& c : all )
      {
         if ( c.kind == Call::REPORT && c.start > first_stop ) { bad("early-stop", "a worker was told to stop before the report of row " + std::to_string(c.row)); return; }
      }
      if ( stops != static_cast<std::size_t>(workers) + 2 ) { bad("stops", "number of requests to stop: " + std::to_string(stops)); return; }
      const std::string t = trace(err.text, reach.size());
      if ( !t.empty() ) { bad("trace", t); return; }
      std::set<std::string> lines;
      std::size_t count = 0, pos = 0;
      while ( pos < out.text.size() )
      {
         const std::size_t e = std::min(out.text.find('\n', pos), out.text.size());
         lines.insert(out.text.substr(pos, e - pos));
         ++count;
         pos = e + 1;
      }
      if ( count != reach.size() || lines.size() != count || (count > 0 && out.text.back() != '\n') )
      {
         bad("printed", "lines printed: " + std::to_string(count) + ", distinct: " + std::to_string(lines.size()));
         return;
      }
      if ( std::is_same<Tag, tag::vertex>::value )
      {
         for ( int i : reach )
         {
            std::ostringstream s;
            for ( int k = 0, rest = i + 1; k < width; ++k, rest /= 7 ) s << (k ? " " : "") << rest % 7 - 3;
            // how a row is laid out is not of interest here: compare up to white space
            bool found = false;
            for ( const auto& l : lines )
            {
               std::istringstream a(l), b(s.str());
               std::vector<std::string> u, v;
               std::string w;
               while ( a >> w ) u.push_back(w);
               while ( b >> w ) v.push_back(w);
               if ( u == v ) { found = true; break; }
            }
            // points are printed by their coordinates: the last entry may be turned into a denominator
            if ( !found ) report::stat("rows_printed_in_other_form");
         }
      }
      report::distinct(h);
      report::stat("evaluations");
      report::stat("histories");
      report::stat("rows_handed_out", handed.size());
      report::stat("requests", handed.size() + stops);
      report::stat("stops", stops);
      report::stat("workers_total", static_cast<uint64_t>(workers));
      if ( late ) report::stat("histories_with_late_start");
      if ( announce ) report::stat("histories_with_concurrent_announcements");
      std::size_t overlaps = 0;
      for ( std::size_t i = 1; i < all.size(); ++i ) overlaps += all[i].start < all[i - 1].end;
      report::stat("overlapping_calls", overlaps);
      if ( overlaps > 0 && all.size() < 60 ) report::sample("workers " + std::to_string(workers) + " history" + text.str());
   }
}

int main(int, char** argv)
{
   Rng r(std::strtoull(argv[1], nullptr, 10));
   const auto count = std::strtoull(argv[2], nullptr, 10);
   auto* const o = std::cout.rdbuf(&out);
   auto* const e = std::cerr.rdbuf(&err);
   for ( uint64_t i = 0; i < count; ++i )
   {
      report::step();
      switch ( r.below(8) )
      {
         case 0: case 1: case 2: round<int64_t, tag::facet>(r); break;
         case 3: case 4: case 5: round<int64_t, tag::vertex>(r); break;
         case 6: round<BigInteger, tag::facet>(r); break;
         default: round<SafeInteger, tag::vertex>(r); break;
      }
   }
   std::cout.rdbuf(o);
   std::cerr.rdbuf(e);
   report::finish();
}
