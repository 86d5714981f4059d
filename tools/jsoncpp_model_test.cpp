// Validates the jsoncpp model (stubs/jsoncpp) against the installed library on random documents and on all conversions.
// Not a check: run by hand after a change to the model.
// clang++-18 -std=c++20 -w tools/jsoncpp_model_test.cpp -I/usr/include/jsoncpp -ljsoncpp -o /tmp/jm && /tmp/jm
#include <sstream>
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cstdio>
#include <random>
#define NB_JSON_ITE(c, a, b) ((c) ? (unsigned long)(a) : (unsigned long)(b))
#define Json Model
#define NB_JSON_APPEND(s, t) ((s) << (t))
#include "../stubs/jsoncpp/json/json.h"
#undef Json
#include <json/json.h>
static std::mt19937_64 g(1);
uint64_t edge() { static const uint64_t e[] = {0, 1, ~0ull, 1ull << 63, (1ull << 63) - 1, 1ull << 31, (1ull << 31) - 1, 1ull << 32, (1ull << 32) - 1, (uint64_t)-2147483648ll, (uint64_t)-2147483649ll, 300}; return g() % 3 ? e[g() % 12] + g() % 3 - 1 : g(); }
double dbl() { static const double d[] = {0, -0.0, 0.5, 1, -1, 2147483647, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0, 9223372036854775807.0, -9223372036854775808.0, 18446744073709551615.0, 1e300, -1e300, 9007199254740993.0, 4294967295.5, 2147483647.5, -0.5, 1e-310, 9.2e18, 1.8e19, -9.3e18}; if (g() % 2) return d[g() % 24]; for (;;) { uint64_t b = g(); double x; memcpy(&x, &b, 8); if (std::isfinite(x)) return x; } }
void make(Model::Value& m, Json::Value& j, int depth) {
  switch (g() % (depth ? 8 : 6)) {
    case 0: break; case 1: { int64_t x = edge(); m = Model::Value((Model::Int64)x); j = Json::Value((Json::Int64)x); break; } case 2: { uint64_t x = edge(); m = Model::Value((Model::UInt64)x); j = Json::Value((Json::UInt64)x); break; }
    case 3: { double d = dbl(); m = Model::Value(d); j = Json::Value(d); break; } case 4: { std::string s; for (int i = g() % 4; i--;) s.push_back(g() % 128); m = Model::Value(s); j = Json::Value(s); break; } case 5: { bool b = g() & 1; m = Model::Value(b); j = Json::Value(b); break; }
    case 6: { m = Model::Value(Model::arrayValue); j = Json::Value(Json::arrayValue); for (int i = g() % 4; i--;) { Model::Value a; Json::Value b; make(a, b, depth - 1); m.append(a); j.append(b); } break; }
    case 7: { m = Model::Value(Model::objectValue); j = Json::Value(Json::objectValue); for (int i = g() % 4; i--;) { std::string k(1, "bdac"[g() % 4]); Model::Value a; Json::Value b; make(a, b, depth - 1); m[k] = a; j[k] = b; } break; } }
}
int bad = 0; void fail(const char* w, Json::Value const& j) { if (bad++ < 10) printf("differs: %s on %s", w, j.toStyledString().c_str()); }
template <typename F, typename H> void both(const char* w, Json::Value const& j, F f, H h) { using R = decltype(f()); R a{}, b{}; bool ta = false, tb = false; try { a = f(); } catch (Model::Exception&) { ta = true; } try { b = h(); } catch (Json::Exception&) { tb = true; } if (ta != tb || (!ta && memcmp(&a, &b, sizeof(R)))) fail(w, j); }
void cmp(Model::Value const& m, Json::Value const& j) {
#define B(f) both(#f, j, [&] { return m.f(); }, [&] { return j.f(); });
  if ((int)m.type() != (int)j.type()) fail("type", j);
  bool edge64 = j.type() == Json::realValue && (j.asDouble() == 9223372036854775808.0 || j.asDouble() == 18446744073709551616.0); // there the library converts out of range
  B(asInt) B(asUInt) if (!edge64) { B(asInt64) B(asUInt64) } B(asDouble) B(asBool) B(isNull) B(isBool) B(isInt) B(isUInt) B(isInt64) B(isUInt64) B(isIntegral) B(isDouble) B(isNumeric) B(isString) B(isArray) B(isObject) B(size) B(empty)
  if (j.isString() && (m.asString() != j.asString() || strcmp(m.asCString(), j.asCString()))) fail("string", j);
  bool ta = false, tb = false; try { m.asCString(); } catch (Model::Exception&) { ta = true; } try { j.asCString(); } catch (Json::Exception&) { tb = true; } if (ta != tb) fail("asCString", j);
  both("find", j, [&] { return m["a"].isNull(); }, [&] { return j["a"].isNull(); }); both("index", j, [&] { return m[1u].isNull(); }, [&] { return j[1u].isNull(); }); both("isMember", j, [&] { return m.isMember("b"); }, [&] { return j.isMember("b"); });
  if (m.size() != j.size()) return; auto it = m.begin(); int n = 0; for (auto jt = j.begin(); jt != j.end(); ++jt, ++it, ++n) { if (it.name() != jt.name()) fail("name", j); cmp(*it, *jt); } if (n != (int)(j.isArray() || j.isObject() ? j.size() : 0)) fail("iteration", j);
}
int main() {
  for (int i = 0; i < 200000; i++) { Model::Value m; Json::Value j; make(m, j, 3); cmp(m, j);
    Model::StreamWriterBuilder mb; Json::StreamWriterBuilder jb; jb["indentation"] = ""; std::string mt = Model::writeString(mb, m), jt = Json::writeString(jb, j); Model::Value m2; Json::Value j2; std::string e; Json::CharReaderBuilder rb; std::unique_ptr<Json::CharReader> r(rb.newCharReader()); Model::CharReader mr;
    if (!mr.parse(mt.data(), mt.data() + mt.size(), &m2, &e)) fail("model parse", j); if (!r->parse(jt.data(), jt.data() + jt.size(), &j2, &e)) fail("parse", j); cmp(m2, j2); if (!(m2 == m) && j2 == j) fail("equal", j); }
  printf("%d differences\n", bad); return bad != 0;
}
