// Model of jsoncpp 1.9.5 for symbolic execution: the interface of <json/json.h> (values, CharReaderBuilder,
// StreamWriterBuilder) with the library's semantics, except that the text of a document is a compact binary encoding.
// Numbers, strings and truth values may be symbolic; the shape of a document and its member names are concrete.
#pragma once
#include <cstdint>
#include <cstring>
#include <exception>
#include <iterator>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#ifndef NB_JSON_ITE
extern "C" unsigned long nb_ite(bool c, unsigned long a, unsigned long b);
#define NB_JSON_ITE nb_ite
#endif
namespace Json {
using Int = int; using UInt = unsigned; using Int64 = int64_t; using UInt64 = uint64_t; using LargestInt = Int64; using LargestUInt = UInt64;
using ArrayIndex = unsigned; using String = std::string; using IStream = void; using OStream = std::ostringstream;
enum ValueType { nullValue = 0, intValue, uintValue, realValue, stringValue, booleanValue, arrayValue, objectValue };
struct Exception : std::exception { String msg_; Exception(String m) : msg_(std::move(m)) {} ~Exception() noexcept override {} char const* what() const noexcept override { return msg_.c_str(); } };
struct RuntimeError : Exception { RuntimeError(String const& m) : Exception(m) {} };
struct LogicError : Exception { LogicError(String const& m) : Exception(m) {} };
[[noreturn]] inline void throwRuntimeError(String const& m) { throw RuntimeError(m); }
[[noreturn]] inline void throwLogicError(String const& m) { throw LogicError(m); }
class StaticString { const char* s; public: explicit StaticString(const char* c) : s(c) {} operator const char*() const { return s; } const char* c_str() const { return s; } };
#ifndef NB_JSON_APPEND
#define NB_JSON_APPEND(s, t) (s).str_append(t)
#endif
namespace nbd { // IEEE doubles by their bits
inline double as_double(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline uint64_t bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
inline bool integral(uint64_t b) { uint64_t e = (b >> 52) & 0x7ff, m = b & ((1ull << 52) - 1); uint64_t sh = (1075 - e) & 63; return ((b << 1) == 0) | ((e >= 1023) & (e < 2047) & ((e >= 1075) | ((m & ((1ull << sh) - 1)) == 0))); }
inline uint64_t trunc_mag(uint64_t b) { uint64_t e = (b >> 52) & 0x7ff, m = (b & ((1ull << 52) - 1)) | (1ull << 52); return NB_JSON_ITE(e < 1023, 0, NB_JSON_ITE(e <= 1075, m >> ((1075 - e) & 63), m << ((e - 1075) & 63))); } // magnitudes below 2^64
inline uint64_t exact(uint64_t v) { return v; }
// ordering of finite values against powers of two
inline bool neg(uint64_t b) { return b >> 63; }
inline uint64_t mag(uint64_t b) { return b << 1 >> 1; }
constexpr uint64_t pow2(unsigned k) { return (uint64_t)(1023 + k) << 52; }
inline uint64_t from_mag(uint64_t v, bool sign) { // round to nearest, ties to even
  uint64_t x = v, lz = 0; for (unsigned k : {32u, 16u, 8u, 4u, 2u, 1u}) { bool z = (x >> (64 - k)) == 0; x = NB_JSON_ITE(z, x << k, x); lz += NB_JSON_ITE(z, k, 0); }
  uint64_t m = x >> 11, rest = x & 2047; m += ((rest > 1024) | ((rest == 1024) & ((m & 1) != 0))) ? 1 : 0;
  uint64_t e = 1023 + 63 - lz; uint64_t r = (e << 52) + (m - (1ull << 52)); r = NB_JSON_ITE(v == 0, 0, r); return r | ((uint64_t)sign << 63);
}
}
class ValueIterator; class ValueConstIterator;
class Value {
public:
  using Members = std::vector<String>; using iterator = ValueIterator; using const_iterator = ValueConstIterator;
  using UInt = Json::UInt; using Int = Json::Int; using UInt64 = Json::UInt64; using Int64 = Json::Int64; using LargestInt = Json::LargestInt; using LargestUInt = Json::LargestUInt; using ArrayIndex = Json::ArrayIndex; using value_type = std::string;
  static constexpr LargestInt minLargestInt = INT64_MIN, maxLargestInt = INT64_MAX; static constexpr LargestUInt maxLargestUInt = UINT64_MAX;
  static constexpr Int minInt = INT32_MIN, maxInt = INT32_MAX; static constexpr UInt maxUInt = UINT32_MAX;
  static constexpr Int64 minInt64 = INT64_MIN, maxInt64 = INT64_MAX; static constexpr UInt64 maxUInt64 = UINT64_MAX;
  static constexpr UInt defaultRealPrecision = 17; static constexpr double maxUInt64AsDouble = 18446744073709551615.0;
private:
  enum Kind : unsigned char { N, I, R, S, B, A, O };
  struct Node { Kind k = N; bool u = false; bool b = false; uint64_t bits = 0; String s; std::vector<std::unique_ptr<Value>> v; std::vector<String> keys; };
  Node n;
  [[noreturn]] static void bad(const char* m) { throwLogicError(m); }
  void need(Kind k, const char* m) { if (n.k == N) n.k = k; else if (n.k != k) bad(m); }
  // the mathematical value is outside what the type holds
  bool inI64() const { return !(n.u & ((n.bits >> 63) != 0)); }
  bool inU64() const { return n.u | ((n.bits >> 63) == 0); }
  static bool inRange(uint64_t b, bool is_signed, unsigned bitsn) { // [min, max] as doubles; max of 64-bit types rounds up to the power of two
    bool ng = nbd::neg(b); uint64_t m = nbd::mag(b);
    uint64_t top = is_signed ? nbd::pow2(bitsn - 1) : nbd::pow2(bitsn); bool hi = bitsn == 64 ? m <= top : m <= nbd::bits(is_signed ? 2147483647.0 : 4294967295.0);
    bool lo = is_signed ? m <= top : m == 0; return (ng & lo) | (!ng & hi);
  }
  int64_t real_i64() const { uint64_t t = nbd::trunc_mag(n.bits); return nbd::neg(n.bits) ? (int64_t)(0 - t) : (int64_t)t; }
  friend class ValueIteratorBase; friend class ValueIterator; friend class ValueConstIterator; friend struct Codec;
  int at(char const* b, size_t len) const { for (size_t i = 0; i < n.keys.size(); i++) if (n.keys[i].size() == len && memcmp(n.keys[i].data(), b, len) == 0) return (int)i; return -1; }
  Value& slot(String const& key) {
    need(O, "in Json::Value::resolveReference(key, end): requires objectValue"); int j = at(key.data(), key.size()); if (j >= 0) return *n.v[j];
    size_t i = 0; while (i < n.keys.size() && n.keys[i] < key) i++;
    n.keys.insert(n.keys.begin() + i, key); return **n.v.insert(n.v.begin() + i, std::make_unique<Value>());
  }
public:
  static Value const& nullSingleton() { static const Value v; return v; }
  Value(ValueType t = nullValue) { switch (t) { case nullValue: n.k = N; break; case intValue: n.k = I; break; case uintValue: n.k = I; n.u = true; break; case realValue: n.k = R; break; case stringValue: n.k = S; break; case booleanValue: n.k = B; break; case arrayValue: n.k = A; break; case objectValue: n.k = O; break; } }
  Value(Int v) { n.k = I; n.bits = (uint64_t)(int64_t)v; }
  Value(UInt v) { n.k = I; n.u = true; n.bits = v; }
  Value(Int64 v) { n.k = I; n.bits = (uint64_t)v; }
  Value(UInt64 v) { n.k = I; n.u = true; n.bits = v; }
  Value(double v) { n.k = R; n.bits = nbd::bits(v); }
  Value(const char* v) { n.k = S; if (!v) bad("Null Value Passed to Value Constructor"); n.s = v; }
  Value(const char* b, const char* e) { n.k = S; n.s = String(b, e); }
  Value(const StaticString& v) { n.k = S; n.s = v.c_str(); }
  Value(const String& v) { n.k = S; n.s = v; }
  Value(bool v) { n.k = B; n.b = v; }
  Value(std::nullptr_t) = delete;
  Value(const Value& o) { *this = o; }
  Value(Value&& o) noexcept { swap(o); }
  Value& operator=(const Value& o) { if (this != &o) { Node t; t.k = o.n.k; t.u = o.n.u; t.b = o.n.b; t.bits = o.n.bits; t.s = o.n.s; t.keys = o.n.keys; t.v.reserve(o.n.v.size()); for (auto& e : o.n.v) t.v.push_back(std::make_unique<Value>(*e)); n = std::move(t); } return *this; }
  Value& operator=(Value&& o) noexcept { Node t = std::move(o.n); o.n = Node{}; n = std::move(t); return *this; }
  void swap(Value& o) { std::swap(n, o.n); } void swapPayload(Value& o) { swap(o); } void copy(const Value& o) { *this = o; } void copyPayload(const Value& o) { *this = o; }
  ValueType type() const { switch (n.k) { case I: return (ValueType)(n.u ? uintValue : intValue); case R: return realValue; case S: return stringValue; case B: return booleanValue; case A: return arrayValue; case O: return objectValue; default: return nullValue; } }
  bool operator==(const Value& o) const {
    if (n.k != o.n.k) return false;
    switch (n.k) { case I: return (n.u == o.n.u) & (n.bits == o.n.bits); case R: return as_d(n.bits) == as_d(o.n.bits); case S: return n.s.size() == o.n.s.size() && memcmp(n.s.data(), o.n.s.data(), n.s.size()) == 0; case B: return n.b == o.n.b;
      case A: case O: if (n.v.size() != o.n.v.size() || n.keys != o.n.keys) return false; for (size_t i = 0; i < n.v.size(); i++) if (!(*n.v[i] == *o.n.v[i])) return false; return true; default: return true; }
  }
  static double as_d(uint64_t b) { return nbd::as_double(b); }
  bool operator!=(const Value& o) const { return !(*this == o); }
  const char* asCString() const { if (n.k != S) bad("in Json::Value::asCString(): requires stringValue"); return n.s.c_str(); }
  String asString() const { switch (n.k) { case N: return ""; case S: return n.s; case B: return n.b ? "true" : "false"; case I: case R: return "number"; default: bad("Type is not convertible to string"); } }
  bool getString(char const** b, char const** e) const { if (n.k != S) return false; *b = n.s.data(); *e = n.s.data() + n.s.size(); return true; }
  Int asInt() const { switch (n.k) { case I: if (!isInt()) bad("LargestInt out of Int range"); return (Int)n.bits; case R: if (!inRange(n.bits, true, 32)) bad("double out of Int range"); return (Int)real_i64(); case N: return 0; case B: return n.b ? 1 : 0; default: bad("Value is not convertible to Int."); } }
  UInt asUInt() const { switch (n.k) { case I: if (!isUInt()) bad("LargestInt out of UInt range"); return (UInt)n.bits; case R: if (!inRange(n.bits, false, 32)) bad("double out of UInt range"); return (UInt)nbd::trunc_mag(n.bits); case N: return 0; case B: return n.b ? 1 : 0; default: bad("Value is not convertible to UInt."); } }
  Int64 asInt64() const { switch (n.k) { case I: if (!inI64()) bad("LargestUInt out of Int64 range"); return (Int64)n.bits; case R: if (!inRange(n.bits, true, 64)) bad("double out of Int64 range"); return real_i64(); case N: return 0; case B: return n.b ? 1 : 0; default: bad("Value is not convertible to Int64."); } }
  UInt64 asUInt64() const { switch (n.k) { case I: if (!inU64()) bad("LargestInt out of UInt64 range"); return n.bits; case R: if (!inRange(n.bits, false, 64)) bad("double out of UInt64 range"); return nbd::trunc_mag(n.bits); case N: return 0; case B: return n.b ? 1 : 0; default: bad("Value is not convertible to UInt64."); } }
  LargestInt asLargestInt() const { return asInt64(); } LargestUInt asLargestUInt() const { return asUInt64(); }
  double asDouble() const { switch (n.k) { case I: { bool s = !n.u & ((n.bits >> 63) != 0); uint64_t v = NB_JSON_ITE(n.u & (n.bits >= (1ull << 54)), n.bits & ~1ull, n.bits); return as_d(nbd::from_mag(NB_JSON_ITE(s, 0 - v, v), s)); } case R: return as_d(n.bits); case N: return 0.0; case B: return as_d(NB_JSON_ITE(n.b, nbd::bits(1.0), 0)); default: bad("Value is not convertible to double."); } }
  float asFloat() const { return (float)asDouble(); }
  bool asBool() const { switch (n.k) { case B: return n.b; case N: return false; case I: return n.bits != 0; case R: return nbd::mag(n.bits) - 1 < nbd::mag(0x7ff0000000000000ull); default: bad("Value is not convertible to bool."); } }
  bool isNull() const { return n.k == N; } bool isBool() const { return n.k == B; } bool isString() const { return n.k == S; } bool isArray() const { return n.k == A; } bool isObject() const { return n.k == O; }
  bool isInt() const { if (n.k == I) return inI64() & ((int64_t)n.bits == (int64_t)(int32_t)n.bits); return n.k == R && (inRange(n.bits, true, 32) & nbd::integral(n.bits)); }
  bool isUInt() const { if (n.k == I) return n.bits <= UINT32_MAX; return n.k == R && (inRange(n.bits, false, 32) & nbd::integral(n.bits)); }
  bool isInt64() const { if (n.k == I) return inI64(); return n.k == R && (inRange(n.bits, true, 64) & !(!nbd::neg(n.bits) & (nbd::mag(n.bits) >= nbd::pow2(63))) & nbd::integral(n.bits)); }
  bool isUInt64() const { if (n.k == I) return inU64(); return n.k == R && ((!nbd::neg(n.bits) | (nbd::mag(n.bits) == 0)) & (nbd::mag(n.bits) < nbd::pow2(64)) & nbd::integral(n.bits)); }
  bool isIntegral() const { if (n.k == I) return true; uint64_t m = nbd::mag(n.bits); return n.k == R && (((!nbd::neg(n.bits) & (m < nbd::pow2(64))) | (nbd::neg(n.bits) & (m <= nbd::pow2(63)))) & nbd::integral(n.bits)); }
  bool isDouble() const { return (n.k == R) | (n.k == I); } bool isNumeric() const { return isDouble(); }
  template <typename T> T as() const = delete; template <typename T> bool is() const = delete;
  bool isConvertibleTo(ValueType o) const {
    switch (o) { case nullValue: return n.k == N || (n.k == B && !n.b) || (n.k == S && n.s.empty()) || ((n.k == A || n.k == O) && n.v.empty()) || (n.k == I && n.bits == 0) || (n.k == R && (n.bits << 1) == 0);
      case intValue: return (n.k == I && isInt()) || (n.k == R && inRange(n.bits, true, 32)) || n.k == B || n.k == N; case uintValue: return (n.k == I && isUInt()) || (n.k == R && inRange(n.bits, false, 32)) || n.k == B || n.k == N;
      case realValue: case booleanValue: return isNumeric() || n.k == B || n.k == N; case stringValue: return isNumeric() || n.k == B || n.k == S || n.k == N; case arrayValue: return n.k == A || n.k == N; default: return n.k == O || n.k == N; }
  }
  ArrayIndex size() const { return n.k == A || n.k == O ? (ArrayIndex)n.v.size() : 0; }
  bool empty() const { return (n.k == N || n.k == A || n.k == O) && n.v.empty(); }
  explicit operator bool() const { return !isNull(); }
  void clear() { if (n.k != N && n.k != A && n.k != O) bad("in Json::Value::clear(): requires complex value"); n.v.clear(); n.keys.clear(); }
  void resize(ArrayIndex z) { need(A, "in Json::Value::resize(): requires arrayValue"); while (n.v.size() > z) n.v.pop_back(); while (n.v.size() < z) n.v.push_back(std::make_unique<Value>()); }
  Value& operator[](ArrayIndex i) { need(A, "in Json::Value::operator[](ArrayIndex): requires arrayValue"); while (n.v.size() <= i) n.v.push_back(std::make_unique<Value>()); return *n.v[i]; }
  Value& operator[](int i) { if (i < 0) bad("in Json::Value::operator[](int index): index cannot be negative"); return (*this)[(ArrayIndex)i]; }
  const Value& operator[](ArrayIndex i) const { if (n.k != N && n.k != A) bad("in Json::Value::operator[](ArrayIndex)const: requires arrayValue"); return n.k == A && i < n.v.size() ? *n.v[i] : nullSingleton(); }
  const Value& operator[](int i) const { if (i < 0) bad("in Json::Value::operator[](int index) const: index cannot be negative"); return (*this)[(ArrayIndex)i]; }
  Value get(ArrayIndex i, const Value& d) const { const Value& v = (*this)[i]; return &v == &nullSingleton() ? d : v; }
  bool isValidIndex(ArrayIndex i) const { return i < size(); }
  Value& append(const Value& v) { return append(Value(v)); }
  Value& append(Value&& v) { need(A, "in Json::Value::append: requires arrayValue"); n.v.push_back(std::make_unique<Value>(std::move(v))); return *n.v.back(); }
  bool insert(ArrayIndex i, const Value& v) { return insert(i, Value(v)); }
  bool insert(ArrayIndex i, Value&& v) { if (n.k != N && n.k != A) bad("in Json::Value::insert: requires arrayValue"); n.k = A; if (i > n.v.size()) return false; n.v.insert(n.v.begin() + i, std::make_unique<Value>(std::move(v))); return true; }
  Value& operator[](const char* k) { return slot(k); } Value& operator[](const String& k) { return slot(k); } Value& operator[](const StaticString& k) { return slot(k.c_str()); }
  Value const* find(char const* b, char const* e) const { if (n.k != N && n.k != O) bad("in Json::Value::find(begin, end): requires objectValue or nullValue"); int i = n.k == N ? -1 : at(b, e - b); return i < 0 ? nullptr : n.v[i].get(); }
  const Value& operator[](const char* k) const { auto* f = find(k, k + strlen(k)); return f ? *f : nullSingleton(); }
  const Value& operator[](const String& k) const { auto* f = find(k.data(), k.data() + k.size()); return f ? *f : nullSingleton(); }
  Value get(const char* b, const char* e, const Value& d) const { auto* f = find(b, e); return f ? *f : d; }
  Value get(const char* k, const Value& d) const { return get(k, k + strlen(k), d); } Value get(const String& k, const Value& d) const { return get(k.data(), k.data() + k.size(), d); }
  Value* demand(char const* b, char const* e) { return &slot(String(b, e)); }
  bool removeMember(const char* b, const char* e, Value* r) { if (n.k != O) return false; int i = at(b, e - b); if (i < 0) return false; if (r) *r = std::move(*n.v[i]); n.v.erase(n.v.begin() + i); n.keys.erase(n.keys.begin() + i); return true; }
  bool removeMember(const char* k, Value* r) { return removeMember(k, k + strlen(k), r); } bool removeMember(String const& k, Value* r) { return removeMember(k.data(), k.data() + k.size(), r); }
  void removeMember(const char* k) { removeMember(k, nullptr); } void removeMember(const String& k) { removeMember(k, nullptr); }
  bool removeIndex(ArrayIndex i, Value* r) { if (n.k != A || i >= n.v.size()) return false; if (r) *r = *n.v[i]; n.v.erase(n.v.begin() + i); return true; }
  bool isMember(const char* b, const char* e) const { return find(b, e) != nullptr; } bool isMember(const char* k) const { return isMember(k, k + strlen(k)); } bool isMember(const String& k) const { return isMember(k.data(), k.data() + k.size()); }
  Members getMemberNames() const { if (n.k != N && n.k != O) bad("in Json::Value::getMemberNames(), value must be objectValue"); return n.keys; }
  inline const_iterator begin() const; inline const_iterator end() const; inline iterator begin(); inline iterator end();
};
template <> inline bool Value::as<bool>() const { return asBool(); } template <> inline bool Value::is<bool>() const { return isBool(); }
template <> inline Int Value::as<Int>() const { return asInt(); } template <> inline bool Value::is<Int>() const { return isInt(); }
template <> inline UInt Value::as<UInt>() const { return asUInt(); } template <> inline bool Value::is<UInt>() const { return isUInt(); }
template <> inline Int64 Value::as<Int64>() const { return asInt64(); } template <> inline bool Value::is<Int64>() const { return isInt64(); }
template <> inline UInt64 Value::as<UInt64>() const { return asUInt64(); } template <> inline bool Value::is<UInt64>() const { return isUInt64(); }
template <> inline double Value::as<double>() const { return asDouble(); } template <> inline bool Value::is<double>() const { return isDouble(); }
template <> inline String Value::as<String>() const { return asString(); } template <> inline bool Value::is<String>() const { return isString(); }
template <> inline float Value::as<float>() const { return asFloat(); } template <> inline const char* Value::as<const char*>() const { return asCString(); }
class ValueIteratorBase {
protected: Value const* c = nullptr; size_t i = 0; ValueIteratorBase() = default; ValueIteratorBase(Value const* c_, size_t i_) : c(c_), i(i_) {} friend class Value;
  Value& d() const { return *c->n.v.at(i); }
public:
  using iterator_category = std::bidirectional_iterator_tag; using difference_type = int;
  bool operator==(ValueIteratorBase const& o) const { return i == o.i; } bool operator!=(ValueIteratorBase const& o) const { return i != o.i; } int operator-(ValueIteratorBase const& o) const { return (int)i - (int)o.i; }
  Value key() const { return c->n.k == Value::O ? Value(c->n.keys.at(i)) : Value((UInt)i); } UInt index() const { return c->n.k == Value::A ? (UInt)i : (UInt)-1; } String name() const { return c->n.k == Value::O ? c->n.keys.at(i) : String(); }
  char const* memberName() const { return c->n.k == Value::O ? c->n.keys.at(i).c_str() : ""; }
};
#define NB_JSON_ITER(NAME, V) class NAME : public ValueIteratorBase { public: using value_type = V; using reference = V&; using pointer = V*; NAME() = default; NAME(Value const* c_, size_t i_) : ValueIteratorBase(c_, i_) {} NAME(ValueIteratorBase const& o) : ValueIteratorBase(o) {} \
  NAME& operator++() { ++i; return *this; } NAME operator++(int) { NAME t(*this); ++i; return t; } NAME& operator--() { --i; return *this; } NAME operator--(int) { NAME t(*this); --i; return t; } reference operator*() const { return d(); } pointer operator->() const { return &d(); } };
NB_JSON_ITER(ValueConstIterator, const Value)
NB_JSON_ITER(ValueIterator, Value)
#undef NB_JSON_ITER
inline Value::const_iterator Value::begin() const { return {this, 0}; } inline Value::const_iterator Value::end() const { return {this, size()}; }
inline Value::iterator Value::begin() { return {this, 0}; } inline Value::iterator Value::end() { return {this, size()}; }
inline void swap(Value& a, Value& b) { a.swap(b); }

// the text of a document: one tag per value, fixed-width lengths and numbers
struct Codec {
  static void num(String& t, uint64_t v, int w) { for (int i = 0; i < w; i++) t.push_back((char)(v >> (8 * i))); }
  static void str(String& t, String const& s) { num(t, s.size(), 4); t.append(s); }
  static void put(String& t, Value const& v) {
    auto& n = v.n;
    switch (n.k) { case Value::N: t.push_back('n'); break; case Value::I: t.push_back('i'); t.push_back((char)NB_JSON_ITE(n.u & ((n.bits >> 63) != 0), 1, 0)); num(t, n.bits, 8); break;
      case Value::R: t.push_back('r'); num(t, n.bits, 8); break; case Value::S: t.push_back('s'); str(t, n.s); break; case Value::B: t.push_back('b'); t.push_back((char)NB_JSON_ITE(n.b, 1, 0)); break;
      case Value::A: t.push_back('a'); num(t, n.v.size(), 4); for (auto& e : n.v) put(t, *e); break;
      case Value::O: t.push_back('o'); num(t, n.v.size(), 4); for (size_t i = 0; i < n.v.size(); i++) { str(t, n.keys[i]); put(t, *n.v[i]); } break; }
  }
  struct In { const char* p; const char* e; bool ok = true; uint64_t num(int w) { if (e - p < w) { ok = false; return 0; } uint64_t v = 0; for (int i = 0; i < w; i++) v |= (uint64_t)(unsigned char)p[i] << (8 * i); p += w; return v; } };
  static void get(In& in, Value& v) {
    auto& n = v.n; char t = (char)in.num(1); if (!in.ok) return;
    switch (t) { case 'n': n.k = Value::N; break; case 'i': n.k = Value::I; n.u = in.num(1) & 1; n.bits = in.num(8); break; case 'r': n.k = Value::R; n.bits = in.num(8); break;
      case 's': { n.k = Value::S; auto z = in.num(4); if ((uint64_t)(in.e - in.p) < z) { in.ok = false; return; } n.s.assign(in.p, z); in.p += z; break; } case 'b': n.k = Value::B; n.b = in.num(1) & 1; break;
      case 'a': { n.k = Value::A; auto z = in.num(4); for (uint64_t i = 0; i < z && in.ok; i++) { n.v.push_back(std::make_unique<Value>()); get(in, *n.v.back()); } break; }
      case 'o': { n.k = Value::O; auto z = in.num(4); for (uint64_t i = 0; i < z && in.ok; i++) { auto l = in.num(4); if ((uint64_t)(in.e - in.p) < l) { in.ok = false; return; } String k(in.p, l); in.p += l; Value e; get(in, e); v[k] = std::move(e); } break; }
      default: in.ok = false; }
  }
};
class StreamWriter { public: virtual ~StreamWriter() = default; virtual int write(Value const& root, OStream* s) { String t; Codec::put(t, root); NB_JSON_APPEND(*s, t); return 0; } class Factory { public: virtual ~Factory() = default; virtual StreamWriter* newStreamWriter() const = 0; }; };
class StreamWriterBuilder : public StreamWriter::Factory { public: Value settings_; Value& operator[](String const& k) { return settings_[k]; } StreamWriter* newStreamWriter() const override { return new StreamWriter; } };
inline String writeString(StreamWriter::Factory const&, Value const& root) { String t; Codec::put(t, root); return t; }
class FastWriter { public: String write(Value const& root) { String t; Codec::put(t, root); return t; } };
class CharReader { public: virtual ~CharReader() = default; virtual bool parse(char const* b, char const* e, Value* root, String* errs) { Codec::In in{b, e}; Value v; Codec::get(in, v); if (!in.ok) { if (errs) *errs = "* Line 1, Column 1\n"; return false; } *root = std::move(v); return true; } class Factory { public: virtual ~Factory() = default; virtual CharReader* newCharReader() const = 0; }; };
class CharReaderBuilder : public CharReader::Factory { public: Value settings_; Value& operator[](String const& k) { return settings_[k]; } CharReader* newCharReader() const override { return new CharReader; } static void strictMode(Value*) {} static void setDefaults(Value*) {} };
class Reader { public: bool parse(char const* b, char const* e, Value& root, bool = true) { return CharReader().parse(b, e, &root, nullptr); } bool parse(String const& d, Value& root, bool = true) { return parse(d.data(), d.data() + d.size(), root); } String getFormattedErrorMessages() const { return "error"; } };
template <typename S> bool parseFromStream(CharReader::Factory const& f, S&& in, Value* root, String* errs) { std::unique_ptr<CharReader> r(f.newCharReader()); String t = in.str(); return r->parse(t.data(), t.data() + t.size(), root, errs); }
}
