/* LD_PRELOAD: seeded perturbation of the schedule of a pthread program.
   Delays before and after mutex operations, condition operations, thread starts and writes to standard output; spurious wake-ups;
   one thread may be chosen to be slow.  The order of all observed events is hashed: PERTURB_LOG receives
   "<hash> <events> <threads> <contended locks> <waits> <spurious wake-ups>" at exit. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

static int (*r_lock)(pthread_mutex_t*), (*r_unlock)(pthread_mutex_t*), (*r_trylock)(pthread_mutex_t*);
static int (*r_wait)(pthread_cond_t*, pthread_mutex_t*), (*r_signal)(pthread_cond_t*), (*r_broadcast)(pthread_cond_t*);
static int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static size_t (*r_fwrite)(const void*, size_t, size_t, FILE*);

static uint64_t seed;
static unsigned p_delay, p_long, p_spurious, slow_thread, max_us;
static int enabled;
static atomic_uint threads, events, contended, waits, spurious;
static atomic_ulong hash;
static __thread unsigned tid;
static __thread uint64_t rng;

static uint64_t next(void)
{
   if ( rng == 0 )
   {
      if ( tid == 0 )
      {
         tid = atomic_fetch_add(&threads, 1) + 1;
      }
      rng = seed * 0x9E3779B97F4A7C15ull + tid * 0xD1B54A32D192ED03ull + 1;
   }
   rng ^= rng << 13;
   rng ^= rng >> 7;
   rng ^= rng << 17;
   return rng * 0x2545F4914F6CDD1Dull;
}

static void delay(void)
{
   if ( !enabled )
   {
      return;
   }
   const uint64_t x = next() >> 16;
   unsigned p = p_delay;
   if ( tid == slow_thread )
   {
      p = 700;
   }
   if ( x % 1000 < p )
   {
      const uint64_t y = next() >> 20;
      if ( y % 4 == 0 )
      {
         sched_yield();
      }
      else
      {
         unsigned us = (unsigned)(y / 4 % (max_us + 1));
         if ( y / 4096 % 1000 < p_long )
         {
            us += 3000;
         }
         struct timespec t = { 0, (long)us * 1000 };
         nanosleep(&t, NULL);
      }
   }
}

static void event(unsigned what)
{
   if ( enabled )
   {
      next();
      atomic_fetch_add(&events, 1);
      unsigned long h = atomic_load(&hash), n;
      do
      {
         n = (h ^ (what * 64 + tid)) * 1099511628211ul;
         n ^= n >> 29;
      }
      while ( !atomic_compare_exchange_weak(&hash, &h, n) );
   }
}

static void load(void)
{
   static atomic_int done;
   if ( atomic_load(&done) )
   {
      return;
   }
   r_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
   r_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
   r_trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
   r_wait = dlsym(RTLD_NEXT, "pthread_cond_wait");
   r_signal = dlsym(RTLD_NEXT, "pthread_cond_signal");
   r_broadcast = dlsym(RTLD_NEXT, "pthread_cond_broadcast");
   r_create = dlsym(RTLD_NEXT, "pthread_create");
   r_fwrite = dlsym(RTLD_NEXT, "fwrite");
   atomic_store(&done, 1);
}

__attribute__((constructor)) static void start(void)
{
   load();
   const char* s = getenv("PERTURB_SEED");
   if ( s )
   {
      seed = strtoull(s, NULL, 10) + 1;
      uint64_t x = seed * 6364136223846793005ull + 1442695040888963407ull;
      x ^= x >> 31;
      static const unsigned P[] = { 0, 10, 50, 150, 400 }, U[] = { 20, 100, 400, 1000 };
      p_delay = P[x % 5];
      x /= 5;
      max_us = U[x % 4];
      x /= 4;
      p_long = (x % 3 == 0) ? 20 : 0;
      x /= 3;
      p_spurious = (x % 2) ? 100 + 100 * (unsigned)(x / 2 % 4) : 0;
      x /= 8;
      slow_thread = (x % 3 == 0) ? (unsigned)(x / 3 % 6) : 1000000;
      enabled = 1;
   }
}

__attribute__((destructor)) static void finish(void)
{
   const char* f = getenv("PERTURB_LOG");
   if ( f && enabled )
   {
      char b[200];
      const int n = snprintf(b, sizeof(b), "%016lx %u %u %u %u %u\n", (unsigned long)hash, (unsigned)events, (unsigned)threads, (unsigned)contended, (unsigned)waits, (unsigned)spurious);
      const int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0644);
      if ( fd >= 0 )
      {
         if ( write(fd, b, (size_t)n) < 0 )
         {
         }
         close(fd);
      }
   }
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
   load();
   if ( !enabled )
   {
      return r_lock(m);
   }
   delay();
   if ( r_trylock(m) == EBUSY )
   {
      atomic_fetch_add(&contended, 1);
      const int r = r_lock(m);
      event(2);
      return r;
   }
   event(1);
   return 0;
}

int pthread_mutex_unlock(pthread_mutex_t* m)
{
   load();
   const int r = r_unlock(m);
   event(3);
   delay();
   return r;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
   load();
   if ( enabled )
   {
      atomic_fetch_add(&waits, 1);
      event(4);
      if ( next() >> 16 & 1 && (next() >> 16) % 1000 < p_spurious )
      {
         atomic_fetch_add(&spurious, 1);
         r_unlock(m);
         delay();
         sched_yield();
         r_lock(m);
         return 0;
      }
   }
   const int r = r_wait(c, m);
   event(5);
   return r;
}

int pthread_cond_signal(pthread_cond_t* c)
{
   load();
   delay();
   event(6);
   return r_signal(c);
}

int pthread_cond_broadcast(pthread_cond_t* c)
{
   load();
   delay();
   event(7);
   return r_broadcast(c);
}

struct start_arg
{
   void* (*fn)(void*);
   void* arg;
   unsigned id;
};

static void* trampoline(void* p)
{
   struct start_arg a = *(struct start_arg*)p;
   free(p);
   tid = a.id;
   event(8);
   delay();
   return a.fn(a.arg);
}

int pthread_create(pthread_t* t, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
   load();
   if ( !enabled )
   {
      return r_create(t, attr, fn, arg);
   }
   if ( tid == 0 )
   {
      tid = atomic_fetch_add(&threads, 1) + 1;
   }
   struct start_arg* a = malloc(sizeof(*a));
   a->fn = fn;
   a->arg = arg;
   a->id = atomic_fetch_add(&threads, 1) + 1;
   const int r = r_create(t, attr, trampoline, a);
   delay();
   return r;
}

size_t fwrite(const void* p, size_t s, size_t n, FILE* f)
{
   load();
   if ( enabled && (f == stdout || f == stderr) )
   {
      delay();
   }
   return r_fwrite(p, s, n, f);
}
