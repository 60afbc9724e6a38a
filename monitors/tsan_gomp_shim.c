/* libgomp is not instrumented: tells ThreadSanitizer about the ordering its parallel regions, barriers and critical
   sections establish. Compiled into the executable, so it stands in front of libgomp's own symbols. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdbool.h>
#include <stddef.h>
void __tsan_acquire(void*); void __tsan_release(void*);
#define REAL(name, T) static T f; if(!f) f=(T)dlsym(RTLD_NEXT,#name)
#define NOSAN __attribute__((no_sanitize("thread")))
#include <stdio.h>
#include <unistd.h>
#include <stdlib.h>
/* what was observed: parallel regions and the times a thread took part in one; written at exit for the evidence */
static unsigned long regions, parts;
__attribute__((destructor)) static void tell(void)
{ char b[64]; snprintf(b,sizeof b,"vp_regions.%d",(int)getpid()); FILE* f=fopen(b,"w"); if(f){ fprintf(f,"%lu %lu\n",regions,parts); fclose(f);} }
struct job { void (*fn)(void*); void* data; char in, out; };
NOSAN static void body(void* p){ struct job* j=p; __atomic_fetch_add(&parts,1,__ATOMIC_RELAXED); __tsan_acquire(&j->in); j->fn(j->data); __tsan_release(&j->out); }
typedef void (*par_t)(void(*)(void*),void*,unsigned,unsigned);
NOSAN void GOMP_parallel(void(*fn)(void*), void* data, unsigned n, unsigned flags)
{ REAL(GOMP_parallel,par_t); struct job j; j.fn=fn; j.data=data; regions++; __tsan_release(&j.in); f(body,&j,n,flags); __tsan_acquire(&j.out); }
typedef void (*v_t)(void);
static char bar, crit;
NOSAN void GOMP_barrier(void){ REAL(GOMP_barrier,v_t); __tsan_release(&bar); f(); __tsan_acquire(&bar); }
NOSAN void GOMP_critical_start(void){ REAL(GOMP_critical_start,v_t); f(); __tsan_acquire(&crit); }
NOSAN void GOMP_critical_end(void){ REAL(GOMP_critical_end,v_t); __tsan_release(&crit); f(); }
typedef void (*n_t)(void**);
static char ncrit;
NOSAN void GOMP_critical_name_start(void** p){ REAL(GOMP_critical_name_start,n_t); f(p); __tsan_acquire(&ncrit); }
NOSAN void GOMP_critical_name_end(void** p){ REAL(GOMP_critical_name_end,n_t); __tsan_release(&ncrit); f(p); }
