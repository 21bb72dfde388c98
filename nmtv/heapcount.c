// Counts live heap blocks and bytes (LD_PRELOAD).
//
// Blocks taken by the numerical libraries themselves (callers within the
// address ranges given to heapcount_ranges) are also counted apart: Python
// keeps caches of its own, whose growth or decline hides small leaks.
#define _GNU_SOURCE
#include <stddef.h>
#include <errno.h>
#include <malloc.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t,size_t);
extern void *__libc_realloc(void *,size_t);
extern void *__libc_memalign(size_t,size_t);
extern void __libc_free(void *);

static long n_live=0,n_bytes=0,n_total=0;

#define NR 64
#define NT (1<<21)
static struct {size_t a,b;} ranges[NR];
static int n_ranges=0;
static void *tab[NT];
static long n_native=0;
static int lock=0;

static void take(void) {while(__atomic_exchange_n(&lock,1,__ATOMIC_ACQUIRE));}
static void give(void) {__atomic_store_n(&lock,0,__ATOMIC_RELEASE);}
static size_t slot(void *p)
{
  return (((size_t)p>>4)*0x9E3779B97F4A7C15ull)>>(64-21);
}

static void native_add(void *p,void *caller)
{
  int i;
  size_t c=(size_t)caller;
  for(i=0;i<n_ranges;i++) {
    if(c>=ranges[i].a && c<ranges[i].b)
      break;
  }
  if(i==n_ranges)
    return;
  take();
  if(n_native<NT/2) {
    size_t h=slot(p);
    while(tab[h]!=NULL)
      h=(h+1)%NT;
    tab[h]=p;
    n_native++;
  }
  give();
}

static void native_sub(void *p)
{
  if(n_native==0)
    return;
  take();
  size_t h=slot(p);
  while(tab[h]!=NULL && tab[h]!=p)
    h=(h+1)%NT;
  if(tab[h]==p) {
    size_t k=h;
    n_native--;
    // close the gap, so that later entries are still found
    for(;;) {
      tab[h]=NULL;
      for(;;) {
	k=(k+1)%NT;
	if(tab[k]==NULL)
	  goto done;
	size_t s=slot(tab[k]);
	if(h<=k ? (h<s && s<=k) : (h<s || s<=k))
	  continue;
	break;
      }
      tab[h]=tab[k];
      h=k;
    }
  }
 done:
  give();
}

#define CALLER __builtin_return_address(0)

static void add(void *p,void *caller)
{
  if(p!=NULL && n_ranges)
    native_add(p,caller);
  if(p!=NULL) {
    __atomic_add_fetch(&n_live,1,__ATOMIC_RELAXED);
    __atomic_add_fetch(&n_total,1,__ATOMIC_RELAXED);
    __atomic_add_fetch(&n_bytes,(long)malloc_usable_size(p),__ATOMIC_RELAXED);
  }
}

static void sub(void *p)
{
  if(p!=NULL) {
    native_sub(p);
    __atomic_sub_fetch(&n_live,1,__ATOMIC_RELAXED);
    __atomic_sub_fetch(&n_bytes,(long)malloc_usable_size(p),__ATOMIC_RELAXED);
  }
}

void *malloc(size_t n)
{
  void *p=__libc_malloc(n);
  add(p,CALLER);
  return p;
}

void *calloc(size_t n,size_t m)
{
  void *p=__libc_calloc(n,m);
  add(p,CALLER);
  return p;
}

void *realloc(void *q,size_t n)
{
  void *p;
  long old=q ? (long)malloc_usable_size(q) : 0;
  if(q!=NULL)
    native_sub(q);
  p=__libc_realloc(q,n);
  if(p!=NULL || (q!=NULL && n==0)) {
    if(q!=NULL) {
      __atomic_sub_fetch(&n_live,1,__ATOMIC_RELAXED);
      __atomic_sub_fetch(&n_bytes,old,__ATOMIC_RELAXED);
    }
    add(p,CALLER);
  }
  return p;
}

void free(void *p)
{
  int e=errno;
  sub(p);
  __libc_free(p);
  errno=e;
}

void *memalign(size_t a,size_t n)
{
  void *p=__libc_memalign(a,n);
  add(p,CALLER);
  return p;
}

void *aligned_alloc(size_t a,size_t n)
{
  void *p=__libc_memalign(a,n);
  add(p,CALLER);
  return p;
}

int posix_memalign(void **out,size_t a,size_t n)
{
  void *p=__libc_memalign(a,n);
  add(p,CALLER);
  if(p==NULL)
    return ENOMEM;
  *out=p;
  return 0;
}

void heapcount_ranges(int n,size_t *ab)
{
  int i;
  for(i=0;i<n && i<NR;i++) {
    ranges[i].a=ab[2*i];
    ranges[i].b=ab[2*i+1];
  }
  n_ranges=i;
}

long heapcount_native(void)
{
  return n_native;
}

void heapcount(long *live,long *bytes,long *total)
{
  *live=n_live;
  *bytes=n_bytes;
  *total=n_total;
}
