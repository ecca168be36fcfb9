// Stand-in for pythonapi/ObjectHolder.cc: holds plain C++ values instead of Python objects.
#include "ObjectHolder.hh"
#include <sstream>
#include <cstdlib>
namespace {
struct Obj { int kind = 0; long refs = 1; std::string s; double d = 0; int i = 0; std::vector<ObjectHolder> l; std::map<std::string, ObjectHolder> m; };
Obj *O(void *p) { return static_cast<Obj *>(p); }
void ref(void *p) { if (p) O(p)->refs++; }
void unref(void *p) { if (p && --O(p)->refs == 0) delete O(p); }
}
ObjectHolder::ObjectHolder() : object_(nullptr) {}
ObjectHolder::ObjectHolder(const ObjectHolder &o) : object_(o.object_) { ref(object_); }
ObjectHolder &ObjectHolder::operator=(const ObjectHolder &o) { if (object_ != o.object_) { ref(o.object_); unref(object_); object_ = o.object_; } return *this; }
ObjectHolder::ObjectHolder(ObjectHolder &&o) : object_(o.object_) { o.object_ = nullptr; }
ObjectHolder &ObjectHolder::operator=(ObjectHolder &&o) { if (this != &o) { unref(object_); object_ = o.object_; o.object_ = nullptr; } return *this; }
ObjectHolder::~ObjectHolder() { unref(object_); }
ObjectHolder::ObjectHolder(void *p) : object_(p) { ref(object_); }
ObjectHolder::ObjectHolder(const std::string &s) { auto *o = new Obj; o->kind = 1; o->s = s; object_ = o; }
ObjectHolder::ObjectHolder(const char *s) { auto *o = new Obj; o->kind = 1; o->s = s; object_ = o; }
ObjectHolder::ObjectHolder(const void *s, size_t n) { auto *o = new Obj; o->kind = 1; o->s.assign(static_cast<const char *>(s), n); object_ = o; }
ObjectHolder::ObjectHolder(bool b) { auto *o = new Obj; o->kind = 4; o->i = b; object_ = o; }
ObjectHolder::ObjectHolder(double d) { auto *o = new Obj; o->kind = 2; o->d = d; object_ = o; }
ObjectHolder::ObjectHolder(int i) { auto *o = new Obj; o->kind = 3; o->i = i; object_ = o; }
ObjectHolder::ObjectHolder(ObjectHolderMap_t &m) { auto *o = new Obj; o->kind = 6; o->m = m; object_ = o; }
ObjectHolder::ObjectHolder(ObjectHolderList_t &l) { auto *o = new Obj; o->kind = 5; o->l = l; object_ = o; }
const void *ObjectHolder::GetObject() const { return object_; }
void *ObjectHolder::GetObject() { return object_; }
void ObjectHolder::clear() { unref(object_); object_ = nullptr; }
std::string ObjectHolder::GetString() const { if (!object_) return ""; Obj *o = O(object_); if (o->kind == 1) return o->s; if (o->kind == 3) return std::to_string(o->i); if (o->kind == 4) return o->i ? "True" : "False"; if (o->kind == 2) return "number"; return ""; }
ObjectHolder::DoubleEntry_t ObjectHolder::GetDouble() const { if (!object_) return {false, 0.0}; Obj *o = O(object_); if (o->kind == 2) return {true, o->d}; if (o->kind == 3 || o->kind == 4) return {true, (double)o->i}; if (o->kind == 1 && !o->s.empty()) { char *e; double d = strtod(o->s.c_str(), &e); if (!*e) return {true, d}; } return {false, 0.0}; }
ObjectHolder::BooleanEntry_t ObjectHolder::GetBoolean() const { if (!object_) return {false, false}; Obj *o = O(object_); switch (o->kind) { case 1: return {true, !o->s.empty()}; case 2: return {true, o->d != 0}; case 3: case 4: return {true, o->i != 0}; case 5: return {true, !o->l.empty()}; case 6: return {true, !o->m.empty()}; } return {false, false}; }
ObjectHolder::IntegerEntry_t ObjectHolder::GetInteger() const { if (!object_) return {false, 0}; Obj *o = O(object_); if (o->kind == 3 || o->kind == 4) return {true, o->i}; if (o->kind == 2) return {true, (int)o->d}; if (o->kind == 1 && !o->s.empty()) { char *e; long l = strtol(o->s.c_str(), &e, 10); if (!*e) return {true, (int)l}; } return {false, 0}; }
ObjectHolder::LongEntry_t ObjectHolder::GetLong() const { auto e = GetInteger(); return {e.first, e.second}; }
bool ObjectHolder::IsList() const { return object_ && O(object_)->kind == 5; }
bool ObjectHolder::IsCallable() const { return object_ && O(object_)->kind == 1 && O(object_)->s.compare(0, 4, "proc") == 0; }
bool ObjectHolder::GetListOfObjects(ObjectHolderList_t &l) const { if (!IsList()) return false; l = O(object_)->l; return true; }
bool ObjectHolder::GetHashMap(ObjectHolderMap_t &m) const { if (!object_ || O(object_)->kind != 6) return false; m = O(object_)->m; return true; }
bool ObjectHolder::GetDoubleList(std::vector<double> &v) const { if (!IsList()) return false; v.clear(); for (auto &x : O(object_)->l) { auto d = x.GetDouble(); if (!d.first) return false; v.push_back(d.second); } return true; }
bool ObjectHolder::GetStringList(std::vector<std::string> &v) const { if (!IsList()) return false; v.clear(); for (auto &x : O(object_)->l) v.push_back(x.GetString()); return true; }
