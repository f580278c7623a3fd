// Counts the threads a process creates and writes the number to the file THREADS_OUT when it ends.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

static int count;

int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
   static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
   if ( !real )
      real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)) dlsym(RTLD_NEXT, "pthread_create");
   __atomic_add_fetch(&count, 1, __ATOMIC_SEQ_CST);
   return real(t, a, f, x);
}

__attribute__((destructor)) static void report(void)
{
   const char *p = getenv("THREADS_OUT");
   char s[32];
   int n = snprintf(s, sizeof s, "%d\n", count);
   int fd = p ? open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600) : -1;
   if ( fd >= 0 )
   {
      if ( write(fd, s, (size_t) n) < 0 ) {}
      close(fd);
   }
}
