/*
 * Simulated allocator of the compiled core.
 *
 * sa_patch() redirects PyMem_Malloc(), PyMem_Realloc() and PyMem_Free() calls
 * of the loaded extension modules whose path contains a given text to a
 * simulated allocator: the n-th allocation can be made to fail, each block
 * ends at an inaccessible page and a freed block becomes inaccessible, so that
 * accesses out of bounds or after free end the (forked) process at once.
 */
#define _GNU_SOURCE
#include <elf.h>
#include <link.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#define PG 4096UL
#define ARENA (8UL << 30)
#define NPG (ARENA / PG)

typedef void *(*malloc_fun)(size_t);
typedef void *(*realloc_fun)(void *, size_t);
typedef void (*free_fun)(void *);

static malloc_fun real_malloc;
static realloc_fun real_realloc;
static free_fun real_free;

static char *arena;
static uint64_t *sizes; /* Size + 1 of the block in the given first page. */
static size_t top;

static long n_alloc, n_failed, n_live, n_bad_free;
static long fail_first = -1, fail_count;

static int fails(void)
{
  long ii = n_alloc++;
  if ((fail_first >= 0) && (ii >= fail_first)
      && ((fail_count < 0) || (ii < (fail_first + fail_count)))) {
    n_failed++;
    return 1;
  }
  return 0;
}

static int ours(void *p)
{
  return arena && ((char *) p >= arena) && ((char *) p < arena + ARENA);
}

/* The first page of a block is found by going back to a recorded size. */
static size_t first_page(void *p)
{
  size_t ip = ((char *) p - arena) / PG;
  return ip;
}

static void *get_block(size_t size)
{
  size_t asize = (size + 15) & ~15UL;
  size_t np = (asize + PG - 1) / PG;
  char *base, *p;

  if (!np) np = 1;
  if (top + np + 1 > NPG) return 0;
  base = arena + top * PG;
  if (mprotect(base, np * PG, PROT_READ | PROT_WRITE)) return 0;
  memset(base, 0xA5, np * PG);
  /* 8-byte aligned, ends at the guard page. */
  p = base + np * PG - ((size + 7) & ~7UL);
  sizes[first_page(p)] = size + 1;
  top += np + 1;
  n_live++;
  return p;
}

static void release(void *p)
{
  size_t ip = first_page(p);
  size_t size, np;

  if (!sizes[ip]) {
    n_bad_free++;
    return;
  }
  size = sizes[ip] - 1;
  sizes[ip] = 0;
  np = (((size + 15) & ~15UL) + PG - 1) / PG;
  if (!np) np = 1;
  n_live--;
  /* Blocks of several pages start in the first one. */
  mprotect(arena + ip * PG, np * PG, PROT_NONE);
}

static void *sa_malloc(size_t size)
{
  if (fails()) return 0;
  return get_block(size);
}

static void *sa_realloc(void *p, size_t size)
{
  void *q;
  size_t old;

  if (p && !ours(p)) {
    if (fails()) return 0;
    return real_realloc(p, size);
  }
  if (fails()) return 0;
  if (!p) return get_block(size);
  if (!sizes[first_page(p)]) {
    n_bad_free++;
    return 0;
  }
  old = sizes[first_page(p)] - 1;
  q = get_block(size);
  if (!q) return 0;
  memcpy(q, p, old < size ? old : size);
  release(p);
  return q;
}

static void sa_free(void *p)
{
  if (!p) return;
  if (!ours(p)) {
    real_free(p);
    return;
  }
  release(p);
}

struct patch_arg {
  const char *text;
  int num;
};

static void patch_rela(struct dl_phdr_info *info, ElfW(Rela) *rela, size_t num,
                       ElfW(Sym) *sym, const char *str, struct patch_arg *arg)
{
  size_t ii;
  for (ii = 0; ii < num; ii++) {
    unsigned type = ELF64_R_TYPE(rela[ii].r_info);
    const char *name;
    void **slot, *fun = 0;
    uintptr_t page;

    if ((type != R_X86_64_JUMP_SLOT) && (type != R_X86_64_GLOB_DAT)) continue;
    name = str + sym[ELF64_R_SYM(rela[ii].r_info)].st_name;
    if (!strcmp(name, "PyMem_Malloc")) fun = (void *) sa_malloc;
    else if (!strcmp(name, "PyMem_Realloc")) fun = (void *) sa_realloc;
    else if (!strcmp(name, "PyMem_Free")) fun = (void *) sa_free;
    if (!fun) continue;
    slot = (void **) (info->dlpi_addr + rela[ii].r_offset);
    page = (uintptr_t) slot & ~(PG - 1);
    mprotect((void *) page, 2 * PG, PROT_READ | PROT_WRITE);
    *slot = fun;
    arg->num++;
  }
}

static int patch_one(struct dl_phdr_info *info, size_t size, void *data)
{
  struct patch_arg *arg = (struct patch_arg *) data;
  ElfW(Dyn) *dyn = 0;
  ElfW(Rela) *rela = 0, *jmprel = 0;
  ElfW(Sym) *sym = 0;
  const char *str = 0;
  size_t nrela = 0, njmp = 0;
  int ii;

  if (!info->dlpi_name || !strstr(info->dlpi_name, arg->text)) return 0;
  for (ii = 0; ii < info->dlpi_phnum; ii++) {
    if (info->dlpi_phdr[ii].p_type == PT_DYNAMIC) {
      dyn = (ElfW(Dyn) *) (info->dlpi_addr + info->dlpi_phdr[ii].p_vaddr);
    }
  }
  if (!dyn) return 0;
  for (; dyn->d_tag != DT_NULL; dyn++) {
    switch (dyn->d_tag) {
    case DT_JMPREL: jmprel = (ElfW(Rela) *) dyn->d_un.d_ptr; break;
    case DT_PLTRELSZ: njmp = dyn->d_un.d_val / sizeof(ElfW(Rela)); break;
    case DT_RELA: rela = (ElfW(Rela) *) dyn->d_un.d_ptr; break;
    case DT_RELASZ: nrela = dyn->d_un.d_val / sizeof(ElfW(Rela)); break;
    case DT_SYMTAB: sym = (ElfW(Sym) *) dyn->d_un.d_ptr; break;
    case DT_STRTAB: str = (const char *) dyn->d_un.d_ptr; break;
    }
  }
  if (sym && str) {
    if (rela) patch_rela(info, rela, nrela, sym, str, arg);
    if (jmprel) patch_rela(info, jmprel, njmp, sym, str, arg);
  }
  return 0;
}

int sa_patch(const char *text, void *fmalloc, void *frealloc, void *ffree)
{
  struct patch_arg arg = {text, 0};

  real_malloc = (malloc_fun) fmalloc;
  real_realloc = (realloc_fun) frealloc;
  real_free = (free_fun) ffree;
  if (!arena) {
    arena = mmap(0, ARENA, PROT_NONE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) {
      arena = 0;
      return -1;
    }
    sizes = mmap(0, NPG * sizeof(uint64_t), PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sizes == MAP_FAILED) return -1;
  }
  dl_iterate_phdr(patch_one, &arg);
  return arg.num;
}

/* Fail `count` allocations (all following if negative), starting `first`
   allocations from now. */
void sa_arm(long first, long count)
{
  fail_first = (first < 0) ? -1 : n_alloc + first;
  fail_count = count;
}

long sa_n_alloc(void) { return n_alloc; }
long sa_n_failed(void) { return n_failed; }
long sa_n_live(void) { return n_live; }
long sa_n_bad_free(void) { return n_bad_free; }
