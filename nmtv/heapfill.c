// Fills every fresh heap block with a chosen byte (LD_PRELOAD), so that
// results which depend on stale memory change with that byte.
#define _GNU_SOURCE
#include <stddef.h>
#include <string.h>
#include <errno.h>
#include <malloc.h>

extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *,size_t);
extern void *__libc_memalign(size_t,size_t);

static int fill_byte=-1;
static long n_filled=0;

static void *fill(void *p,size_t from,size_t n)
{
  int b=__atomic_load_n(&fill_byte,__ATOMIC_RELAXED);
  if(p!=NULL && b>=0 && n>from) {
    memset((char *)p+from,b,n-from);
    __atomic_add_fetch(&n_filled,1,__ATOMIC_RELAXED);
  }
  return p;
}

void *malloc(size_t n)
{
  return fill(__libc_malloc(n),0,n);
}

void *realloc(void *q,size_t n)
{
  size_t old=q ? malloc_usable_size(q) : 0;
  void *p=__libc_realloc(q,n);
  return fill(p,old,n);
}

void *memalign(size_t a,size_t n)
{
  return fill(__libc_memalign(a,n),0,n);
}

void *aligned_alloc(size_t a,size_t n)
{
  return memalign(a,n);
}

int posix_memalign(void **p,size_t a,size_t n)
{
  void *q;
  if(a<sizeof(void *) || (a&(a-1))) return EINVAL;
  q=memalign(a,n);
  if(q==NULL) return ENOMEM;
  *p=q;
  return 0;
}

// Sets the byte (-1: leave blocks alone); returns the blocks filled so far
long heapfill(int byte)
{
  __atomic_store_n(&fill_byte,byte,__ATOMIC_RELAXED);
  return __atomic_load_n(&n_filled,__ATOMIC_RELAXED);
}
