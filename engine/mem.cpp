#include "exec.h"
#include <cstring>
#include <cstdlib>
Obj* objNew(uint32_t size, ObjKind k, uint8_t fill, const char* name) {
  Obj* o = (Obj*)malloc(sizeof(Obj)); o->refs = 1; o->size = size; o->kind = k; o->how = 0; o->freed = false; o->name = name; o->seq = 0;
  o->data = (uint8_t*)malloc(size ? size : 1); memset(o->data, fill, size); o->sym = nullptr; return o;
}
Obj* objClone(const Obj* o) {
  Obj* n = (Obj*)malloc(sizeof(Obj)); *n = *o; n->refs = 1;
  n->data = (uint8_t*)malloc(o->size ? o->size : 1); memcpy(n->data, o->data, o->size);
  if (o->sym) { n->sym = (const Expr**)malloc(sizeof(Expr*) * (o->size ? o->size : 1)); memcpy(n->sym, o->sym, sizeof(Expr*) * o->size); }
  return n;
}
void objUnref(Obj* o) { if (--o->refs == 0) { free(o->data); free(o->sym); free(o); } }
MidC::MidC() : refs(1) { memset(c, 0, sizeof c); }
MidC::MidC(const MidC& m) : refs(1) { for (int i = 0; i < 64; i++) { c[i] = m.c[i]; if (c[i]) c[i]->refs++; } }
MidC::~MidC() { for (int i = 0; i < 64; i++) if (c[i] && --c[i]->refs == 0) delete c[i]; }
MemMap::MemMap(const MemMap& m) : top(m.top) { for (auto t : top) if (t) t->refs++; }
MemMap::~MemMap() { for (auto t : top) if (t && --t->refs == 0) delete t; }
ObjRef& MemMap::slot(uint32_t id) {
  uint32_t t = id >> 12;
  if (t >= top.size()) top.resize(t + 1, nullptr);
  if (!top[t]) top[t] = new MidC;
  else if (top[t]->refs > 1) { MidC* n = new MidC(*top[t]); top[t]->refs--; top[t] = n; }
  Chunk*& c = top[t]->c[(id >> 6) & 63];
  if (!c) { c = new Chunk; c->refs = 1; }
  else if (c->refs > 1) { Chunk* n = new Chunk(*c); n->refs = 1; c->refs--; c = n; }
  return c->o[id & 63];
}
