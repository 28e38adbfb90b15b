#include "c26.h"
using namespace c26;
extern "C" {
uint64_t c26_born() { return born(); }
void c26_died(uint64_t t) { died(t); }
int c26_live(uint64_t t) { return toks().count(t); }
void* c26_obj_new(uint64_t i) { return new Obj(i); }
void c26_obj_del(void* p) { delete static_cast<Obj*>(p); }
uint64_t c26_obj_id(const void* p) { static_cast<const Obj*>(p)->ok(); return static_cast<const Obj*>(p)->id; }
void* c26_str_new(uint64_t i) { return new std::string(G<std::string>::make(i)); }
void c26_str_del(void* p) { delete static_cast<std::string*>(p); }
int c26_str_eq(const void* p, uint64_t i) { return G<std::string>::eq(*static_cast<const std::string*>(p), i); }
}
