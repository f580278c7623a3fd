// Every look at the wall clock takes CLOCK_STEP seconds: actions that depend on elapsed time happen at once.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <time.h>

int clock_gettime(clockid_t clock, struct timespec *t)
{
   static int (*real)(clockid_t, struct timespec *);
   static long step = -1, count;
   if ( !real )
      real = (int (*)(clockid_t, struct timespec *)) dlsym(RTLD_NEXT, "clock_gettime");
   if ( step < 0 )
   {
      const char *s = getenv("CLOCK_STEP");
      step = s ? atol(s) : 0;
   }
   const int r = real(clock, t);
   t->tv_sec += step * __atomic_add_fetch(&count, 1, __ATOMIC_SEQ_CST);
   return r;
}
