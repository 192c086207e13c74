// Small single-threaded allocator: states are copied by the million.
#include <cstdlib>
#include <cstddef>
#include <new>
namespace fastalloc {
struct Node { Node *next; };
static Node *freeList[65];
static char *cur, *end;
inline void *get(size_t n) {
  size_t c = (n + 15) / 16;
  if (c == 0) c = 1;
  if (Node *f = freeList[c]) { freeList[c] = f->next; return f; }
  n = c * 16;
  if ((size_t)(end - cur) < n) { cur = (char *)std::malloc(1 << 20); if (!cur) abort(); end = cur + (1 << 20); }
  void *p = cur; cur += n; return p;
}
}
// a header-less scheme needs the size at deletion: sized deletes come from the containers used here; the rest keeps a header
void *operator new(size_t n) {
  size_t m = n + 16;
  if (m > 1024) { size_t *p = (size_t *)std::malloc(m); if (!p) abort(); p[0] = 0; return (char *)p + 16; }
  size_t *p = (size_t *)fastalloc::get(m);
  p[0] = (m + 15) / 16;
  return (char *)p + 16;
}
void operator delete(void *q) noexcept {
  if (!q) return;
  size_t *p = (size_t *)((char *)q - 16);
  size_t c = p[0];
  if (!c) { std::free(p); return; }
  auto *f = (fastalloc::Node *)p; f->next = fastalloc::freeList[c]; fastalloc::freeList[c] = f;
}
void operator delete(void *q, size_t) noexcept { operator delete(q); }
