/* LD_PRELOAD: monitor of the message passing of a distributed run (profiling interface).
   Legal but unfavourable behaviour of the library is produced on purpose: a posted send reads its buffer only when it has to (a later test of
   the request, a blocking call, finalisation), sends complete only when received, messages arrive late, calls take time.
   Observed per node: overlapping calls of several threads although the library was not initialised for it, buffers that change while the
   library owns them, requests never completed, messages never received.  Report: $MPIMON_DIR/<rank>. */
#define _GNU_SOURCE
#include <mpi.h>
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

struct deferred
{
   const void* buf;
   int count, dest, tag, posted, countdown;
   MPI_Datatype type;
   MPI_Comm comm;
   uint64_t sum;
   MPI_Request real;
   struct deferred* next;
};

static struct deferred* live; /* in the order of posting */
static atomic_flag guard = ATOMIC_FLAG_INIT;
static atomic_int inside, overlaps, modified, most;
static atomic_ulong sent, received, deferrals, late;
static int provided = MPI_THREAD_SINGLE, rank = -1;
static unsigned p_defer, p_sync, p_late, p_delay, max_tests;
static int enabled;
static atomic_ulong order = 1469598103934665603ul;
static __thread uint64_t rng;
static atomic_ulong streams;

static uint64_t next(void)
{
   if ( rng == 0 )
   {
      const char* s = getenv("MPIMON_SEED");
      rng = (strtoull(s ? s : "1", NULL, 10) + 1) * 0x9E3779B97F4A7C15ull + (atomic_fetch_add(&streams, 1) * 977 + (uint64_t)(rank + 2)) * 0xD1B54A32D192ED03ull;
      rng |= 1;
   }
   rng ^= rng << 13;
   rng ^= rng >> 7;
   rng ^= rng << 17;
   return (rng * 0x2545F4914F6CDD1Dull) >> 24;
}

static int chance(unsigned permille)
{
   return next() % 1000 < permille;
}

static void nap(unsigned us)
{
   struct timespec t = { 0, (long)us * 1000 };
   nanosleep(&t, NULL);
}

static void enter(void)
{
   const int n = atomic_fetch_add(&inside, 1) + 1;
   if ( n > 1 )
   {
      atomic_fetch_add(&overlaps, 1);
      if ( n > atomic_load(&most) )
      {
         atomic_store(&most, n);
      }
   }
   if ( enabled && chance(p_delay) )
   {
      nap((unsigned)(next() % 200));
   }
}

static void leave(void)
{
   atomic_fetch_sub(&inside, 1);
}

static void acquire(void)
{
   while ( atomic_flag_test_and_set(&guard) )
   {
      sched_yield();
   }
}

static void release(void)
{
   atomic_flag_clear(&guard);
}

static void note(uint64_t x)
{
   unsigned long h = atomic_load(&order), n;
   do
   {
      n = (h ^ x) * 1099511628211ul;
      n ^= n >> 31;
   }
   while ( !atomic_compare_exchange_weak(&order, &h, n) );
}

static uint64_t checksum(const struct deferred* d)
{
   int size = 0;
   PMPI_Type_size(d->type, &size);
   const volatile unsigned char* p = d->buf;
   uint64_t h = 14695981039346656037ull;
   for ( long i = 0; i < (long)size * d->count; ++i )
   {
      h = (h ^ p[i]) * 1099511628211ull;
   }
   return h;
}

/* All with the guard held. */
static void post(struct deferred* d)
{
   if ( !d->posted )
   {
      if ( checksum(d) != d->sum )
      {
         atomic_fetch_add(&modified, 1);
      }
      if ( chance(p_sync) )
      {
         PMPI_Issend(d->buf, d->count, d->type, d->dest, d->tag, d->comm, &d->real);
      }
      else
      {
         PMPI_Isend(d->buf, d->count, d->type, d->dest, d->tag, d->comm, &d->real);
      }
      d->posted = 1;
   }
}

static void post_until(struct deferred* last)
{
   for ( struct deferred* d = live; d; d = d->next )
   {
      post(d);
      if ( d == last )
      {
         break;
      }
   }
}

static struct deferred* find(MPI_Request r)
{
   for ( struct deferred* d = live; d; d = d->next )
   {
      if ( (MPI_Request)(void*)d == r )
      {
         return d;
      }
   }
   return NULL;
}

static void drop(struct deferred* x)
{
   if ( checksum(x) != x->sum )
   {
      atomic_fetch_add(&modified, 1);
   }
   for ( struct deferred** p = &live; *p; p = &(*p)->next )
   {
      if ( *p == x )
      {
         *p = x->next;
         break;
      }
   }
   free(x);
}

static void post_all(void)
{
   acquire();
   post_until(NULL);
   release();
}

static void configure(void)
{
   PMPI_Comm_rank(MPI_COMM_WORLD, &rank);
   const char* s = getenv("MPIMON_SEED");
   if ( s )
   {
      uint64_t x = (strtoull(s, NULL, 10) + 7) * 6364136223846793005ull + 1442695040888963407ull;
      x ^= x >> 29;
      static const unsigned P[] = { 0, 200, 600, 1000 };
      p_defer = P[x % 4];
      x /= 4;
      p_sync = P[x % 4];
      x /= 4;
      p_late = P[x % 3];
      x /= 3;
      p_delay = P[x % 3];
      x /= 3;
      max_tests = (unsigned)(1u << x % 6);
      enabled = 1;
   }
}

int MPI_Init(int* argc, char*** argv)
{
   const int r = PMPI_Init(argc, argv);
   configure();
   return r;
}

int MPI_Init_thread(int* argc, char*** argv, int required, int* p)
{
   const int r = PMPI_Init_thread(argc, argv, required, p);
   provided = *p;
   configure();
   return r;
}

int MPI_Isend(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm, MPI_Request* request)
{
   enter();
   note(1000 + (uint64_t)dest * 4 + (uint64_t)tag);
   atomic_fetch_add(&sent, 1);
   struct deferred* d = calloc(1, sizeof(*d));
   d->buf = buf;
   d->count = count;
   d->type = type;
   d->dest = dest;
   d->tag = tag;
   d->comm = comm;
   d->sum = checksum(d);
   acquire();
   struct deferred** p = &live;
   while ( *p )
   {
      p = &(*p)->next;
   }
   *p = d;
   if ( enabled && chance(p_defer) )
   {
      d->countdown = (int)(next() % max_tests) + 1;
      atomic_fetch_add(&deferrals, 1);
   }
   else
   {
      post_until(d);
   }
   release();
   *request = (MPI_Request)(void*)d;
   leave();
   return MPI_SUCCESS;
}

static int test(MPI_Request* request, int* flag, MPI_Status* status)
{
   acquire();
   struct deferred* d = find(*request);
   if ( !d )
   {
      release();
      return PMPI_Test(request, flag, status);
   }
   *flag = 0;
   int r = MPI_SUCCESS;
   if ( d->posted || --d->countdown <= 0 )
   {
      post_until(d);
      r = PMPI_Test(&d->real, flag, status);
      if ( *flag )
      {
         drop(d);
         *request = MPI_REQUEST_NULL;
      }
   }
   release();
   return r;
}

int MPI_Test(MPI_Request* request, int* flag, MPI_Status* status)
{
   enter();
   const int r = test(request, flag, status);
   leave();
   return r;
}

static int wait_for(MPI_Request* request, MPI_Status* status)
{
   int flag = 0, r;
   do
   {
      r = test(request, &flag, status);
      if ( !flag )
      {
         sched_yield();
      }
   }
   while ( !flag && r == MPI_SUCCESS );
   return r;
}

int MPI_Wait(MPI_Request* request, MPI_Status* status)
{
   enter();
   const int r = wait_for(request, status);
   leave();
   return r;
}

int MPI_Waitall(int n, MPI_Request* requests, MPI_Status* statuses)
{
   enter();
   int r = MPI_SUCCESS;
   for ( int i = 0; i < n && r == MPI_SUCCESS; ++i )
   {
      r = wait_for(requests + i, statuses == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : statuses + i);
   }
   leave();
   return r;
}

int MPI_Testall(int n, MPI_Request* requests, int* flag, MPI_Status* statuses)
{
   enter();
   int r = MPI_SUCCESS;
   *flag = 1;
   for ( int i = 0; i < n && r == MPI_SUCCESS; ++i )
   {
      int f = 1;
      if ( requests[i] != MPI_REQUEST_NULL )
      {
         r = test(requests + i, &f, statuses == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : statuses + i);
      }
      *flag = *flag && f;
   }
   leave();
   return r;
}

static int any(int n, MPI_Request* requests, int* index, int* flag, MPI_Status* status)
{
   int active = 0;
   *flag = 0;
   *index = MPI_UNDEFINED;
   for ( int i = 0; i < n; ++i )
   {
      if ( requests[i] != MPI_REQUEST_NULL )
      {
         ++active;
         const int r = test(requests + i, flag, status);
         if ( r != MPI_SUCCESS )
         {
            return r;
         }
         if ( *flag )
         {
            *index = i;
            return MPI_SUCCESS;
         }
      }
   }
   *flag = active == 0;
   return MPI_SUCCESS;
}

int MPI_Testany(int n, MPI_Request* requests, int* index, int* flag, MPI_Status* status)
{
   enter();
   const int r = any(n, requests, index, flag, status);
   leave();
   return r;
}

int MPI_Waitany(int n, MPI_Request* requests, int* index, MPI_Status* status)
{
   enter();
   int flag, r;
   do
   {
      r = any(n, requests, index, &flag, status);
   }
   while ( !flag && r == MPI_SUCCESS );
   leave();
   return r;
}

static int some(int n, MPI_Request* requests, int* count, int* indices, MPI_Status* statuses)
{
   int active = 0;
   *count = 0;
   for ( int i = 0; i < n; ++i )
   {
      if ( requests[i] != MPI_REQUEST_NULL )
      {
         ++active;
         int flag = 0;
         const int r = test(requests + i, &flag, statuses == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : statuses + *count);
         if ( r != MPI_SUCCESS )
         {
            return r;
         }
         if ( flag )
         {
            indices[(*count)++] = i;
         }
      }
   }
   if ( active == 0 )
   {
      *count = MPI_UNDEFINED;
   }
   return MPI_SUCCESS;
}

int MPI_Testsome(int n, MPI_Request* requests, int* count, int* indices, MPI_Status* statuses)
{
   enter();
   const int r = some(n, requests, count, indices, statuses);
   leave();
   return r;
}

int MPI_Waitsome(int n, MPI_Request* requests, int* count, int* indices, MPI_Status* statuses)
{
   enter();
   int r;
   do
   {
      r = some(n, requests, count, indices, statuses);
   }
   while ( *count == 0 && r == MPI_SUCCESS );
   leave();
   return r;
}

int MPI_Request_get_status(MPI_Request request, int* flag, MPI_Status* status)
{
   enter();
   acquire();
   struct deferred* d = find(request);
   if ( d )
   {
      post_until(d);
   }
   const int r = PMPI_Request_get_status(d ? d->real : request, flag, status);
   release();
   leave();
   return r;
}

int MPI_Cancel(MPI_Request* request)
{
   enter();
   acquire();
   struct deferred* d = find(*request);
   if ( d )
   {
      post_until(d);
   }
   const int r = PMPI_Cancel(d ? &d->real : request);
   release();
   leave();
   return r;
}

int MPI_Request_free(MPI_Request* request)
{
   enter();
   acquire();
   struct deferred* d = find(*request);
   int r;
   if ( d )
   {
      post_until(d);
      r = PMPI_Request_free(&d->real);
      drop(d);
      *request = MPI_REQUEST_NULL;
   }
   else
   {
      r = PMPI_Request_free(request);
   }
   release();
   leave();
   return r;
}

int MPI_Iprobe(int source, int tag, MPI_Comm comm, int* flag, MPI_Status* status)
{
   enter();
   int r = MPI_SUCCESS;
   if ( enabled && chance(p_late / 2) )
   {
      atomic_fetch_add(&late, 1);
      *flag = 0;
   }
   else
   {
      r = PMPI_Iprobe(source, tag, comm, flag, status);
   }
   leave();
   return r;
}

int MPI_Probe(int source, int tag, MPI_Comm comm, MPI_Status* status)
{
   enter();
   post_all();
   const int r = PMPI_Probe(source, tag, comm, status);
   leave();
   return r;
}

int MPI_Send(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm)
{
   enter();
   note(1000 + (uint64_t)dest * 4 + (uint64_t)tag);
   atomic_fetch_add(&sent, 1);
   post_all();
   const int r = PMPI_Send(buf, count, type, dest, tag, comm);
   leave();
   return r;
}

int MPI_Recv(void* buf, int count, MPI_Datatype type, int source, int tag, MPI_Comm comm, MPI_Status* status)
{
   enter();
   post_all();
   const int r = PMPI_Recv(buf, count, type, source, tag, comm, status);
   note(2000 + (uint64_t)source * 4 + (uint64_t)tag);
   atomic_fetch_add(&received, 1);
   leave();
   return r;
}

int MPI_Finalize(void)
{
   enter();
   int pending = 0, left = 0;
   acquire();
   for ( struct deferred* d = live; d; d = d->next )
   {
      ++pending;
   }
   post_until(NULL);
   release();
   PMPI_Barrier(MPI_COMM_WORLD);
   for ( int i = 0; i < 3; ++i )
   {
      int flag = 0;
      MPI_Status status;
      PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &flag, &status);
      left |= flag;
   }
   const char* dir = getenv("MPIMON_DIR");
   if ( dir )
   {
      char name[4096];
      snprintf(name, sizeof(name), "%s/%d", dir, rank);
      FILE* f = fopen(name, "w");
      if ( f )
      {
         fprintf(f, "{\"overlaps\": %d, \"multiple\": %d, \"modified\": %d, \"pending\": %d, \"unreceived\": %d, \"sent\": %lu, \"received\": %lu, \"deferred\": %lu, \"late\": %lu, \"order\": \"%lx\"}\n",
                 (int)overlaps, provided == MPI_THREAD_MULTIPLE, (int)modified, pending, left, (unsigned long)sent, (unsigned long)received,
                 (unsigned long)deferrals, (unsigned long)late, (unsigned long)order);
         fclose(f);
      }
   }
   leave();
   return PMPI_Finalize();
}
