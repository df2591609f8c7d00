#include "sxe.h"
static Expr *mkUninitMarker() { static Expr e; e.k = K_VAR; e.w = 8; return &e; }
Expr *const UNINIT = mkUninitMarker();
Obj::Obj(uint32_t sz, bool uninit) : size(sz) {
  data = (uint8_t *)calloc(sz ? sz : 1, 1);
  if (uninit && sz) { ensureSym(); for (uint32_t i = 0; i < sz; i++) sym[i] = UNINIT; }
}
Obj::Obj(const Obj &o) : size(o.size), kind(o.kind), ro(o.ro), freed(o.freed), newKind(o.newKind), name(o.name) {
  data = (uint8_t *)malloc(size ? size : 1); memcpy(data, o.data, size);
  if (o.sym) { sym = new Expr *[size ? size : 1]; memcpy((void *)sym, o.sym, sizeof(Expr *) * size); }
}
Obj::~Obj() { free(data); delete[] sym; }
void Mem::unref(Node *n) {
  if (--n->rc) return;
  for (int i = 0; i < 256; i++) if (n->ch[i]) {
    if (n->leaf) { Obj *o = (Obj *)n->ch[i]; if (!--o->rc) delete o; }
    else unref((Node *)n->ch[i]);
  }
  delete n;
}
static Node *own(Node *n) {
  if (n->rc == 1) return n;
  Node *m = new Node(n->leaf);
  memcpy(m->ch, n->ch, sizeof m->ch);
  for (int i = 0; i < 256; i++) if (m->ch[i]) { if (n->leaf) ((Obj *)m->ch[i])->rc++; else ((Node *)m->ch[i])->rc++; }
  n->rc--;
  return m;
}
void **Mem::slotW(uint64_t id) {
  uint64_t i = id - FIRST_OBJ;
  if (!root) root = new Node(false);
  root = own(root);
  Node *n = root;
  void *&c1 = n->ch[i >> 16 & 255]; c1 = c1 ? own((Node *)c1) : new Node(false);
  n = (Node *)c1;
  void *&c2 = n->ch[i >> 8 & 255]; c2 = c2 ? own((Node *)c2) : new Node(true);
  n = (Node *)c2;
  return &n->ch[i & 255];
}
uint64_t Mem::alloc(uint32_t size, int kind, bool uninit, const char *name) {
  uint64_t id = FIRST_OBJ + next++;
  if (next >= (1u << 24)) { fprintf(stderr, "sxe: object ids exhausted\n"); _exit(3); }
  Obj *o = new Obj(size, uninit); o->kind = kind; o->name = name;
  *slotW(id) = o;
  if (kind == M_HEAP) heapLive++;
  return id;
}
void Mem::release(uint64_t id) {
  void **s = slotW(id); Obj *o = (Obj *)*s; if (!o) return;
  if (o->kind == M_HEAP) heapLive--;
  if (!--o->rc) delete o;
  *s = nullptr;
}
