#include "nb.h"
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/hold.hpp>
#include <nbdl/hold_lazy.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_async_loop.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/try.hpp>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace hana = boost::hana;
namespace {
int live;
struct token { int id; token(int i) : id(i) { live++; } token(token const& o) : id(o.id) { live++; } token(token&& o) : id(o.id) { live++; } ~token() { live--; } }; // counts what a pipeline owns
struct E1 { int v; std::string s; }; struct E2 { int v; }; struct oops : std::exception { char const* text; oops(char const* t) : text(t) { } char const* what() const noexcept override { return text; } };
struct ev { int run, stage; int v; std::string s; };
struct later_t { int run; std::function<void()> f; };
std::vector<ev> log_; std::vector<later_t> queue_; // queue_: operations begun and not finished
void seen(int run, int stage, int v, std::string s = {}) { log_.push_back({run, stage, v, std::move(s)}); }
// what a stage does: 0 resolve, 1 reject with E1, 2 reject with E2; at once or later
struct plan { int what; bool later; int add; };
void go(int run, bool later, std::function<void()> f) { if (later) queue_.push_back({run, std::move(f)}); else f(); }
struct script { std::vector<plan> st; };
plan any_plan(int mode) { plan p; int c = mode == 2 ? "\0\3\5"[nb_choose(3, "outcome")] : mode == 3 ? nb_choose(2, "outcome") + 3 : nb_choose(mode ? 6 : 3, "outcome"); p.what = c % 3; p.later = c >= 3; p.add = nb_any<int>("add"); return p; }
int add(int a, int b) { return (int)((unsigned)a + (unsigned)b); }
// an asynchronous stage
auto stage(int run, int no, plan p) { return nbdl::promise([run, no, p, t = token(no)](auto& r, int v, std::string const& s) {
  nb_assert(t.id == no, "the stage is alive when it is called"); seen(run, no, v, s);
  switch (p.what) { case 0: go(run, p.later, [&r, v, s, p] { r.resolve(add(v, p.add), s + "r"); }); break;
    case 1: go(run, p.later, [&r, v, s, p] { r.reject(E1{add(v, p.add), s + "x"}); }); break;
    default: go(run, p.later, [&r, v, p] { r.reject(E2{add(v, p.add)}); }); } }); }
auto handler1(int run, int no) { return nbdl::catch_([run, no, t = token(no)](E1 const& e) { nb_assert(t.id == no, "the handler is alive when it is called"); seen(run, no, e.v, e.s); }); }
auto handler2(int run, int no) { return nbdl::catch_([run, no, t = token(no)](E2 const& e) { nb_assert(t.id == no, "the handler is alive when it is called"); seen(run, no, e.v); }); }
// the pipeline, nested pipes included:  0 s | ( 1 s | 2 tap | 3 fn ) | 4 s | catch E1 -> 10 | 5 s | 6 void fn | 7 producer | catch E2 -> 11 | 8 s | 9 end | catch E1 -> 12 | catch E2 -> 13
auto pipeline(int run, std::vector<plan> const& p) {
  return nbdl::pipe(
    stage(run, 0, p[0]),
    nbdl::pipe(stage(run, 1, p[1]), nbdl::tap([run, t = token(2)](int v, std::string s) { seen(run, 2, v, s); }), nbdl::pipe(nbdl::promise([run](auto& r, int v, std::string s) { seen(run, 3, v, s); r(v, std::move(s)); }))),
    stage(run, 4, p[2]), handler1(run, 10), stage(run, 5, p[3]),
    [run, t = token(6)](int v, std::string const& s) { seen(run, 6, v, s); },
    [run, k = p[3].add, t = token(7)]() { seen(run, 7, 0); return k; },
    nbdl::promise([](auto& r, int v) { r.resolve(v, std::string("w")); }), handler2(run, 11), stage(run, 8, p[4]),
    nbdl::promise([run, t = token(9)](auto& r, int v, std::string const& s) { seen(run, 9, v, s); r.resolve(); }), handler1(run, 12), handler2(run, 13)); }
// what must happen
std::vector<ev> expected(int run, std::vector<plan> const& p, int v, std::string s) {
  std::vector<ev> l; auto note = [&](int st, int v, std::string s = {}) { l.push_back({run, st, v, s}); };
  auto fail = [&](plan q, int c1, int c2) { if (q.what == 1) note(c1, add(v, q.add), s + "x"); else note(c2, add(v, q.add)); };
  note(0, v, s); if (p[0].what) { fail(p[0], 10, 11); return l; } v = add(v, p[0].add); s += "r";
  note(1, v, s); if (p[1].what) { fail(p[1], 10, 11); return l; } v = add(v, p[1].add); s += "r"; note(2, v, s); note(3, v, s);
  note(4, v, s); if (p[2].what) { fail(p[2], 10, 11); return l; } v = add(v, p[2].add); s += "r";
  note(5, v, s); if (p[3].what) { fail(p[3], 12, 11); return l; } v = add(v, p[3].add); s += "r"; note(6, v, s); note(7, 0); v = p[3].add; s = "w";
  note(8, v, s); if (p[4].what) { fail(p[4], 12, 13); return l; } v = add(v, p[4].add); s += "r"; note(9, v, s); return l; }
void drain() { while (!queue_.empty()) { unsigned i = nb_choose(queue_.size(), "completes"); auto f = std::move(queue_[i].f); queue_.erase(queue_.begin() + i); f(); } }
void same(std::vector<ev> const& got, int run, std::vector<ev> const& want) {
  unsigned k = 0; for (auto& e : got) if (e.run == run) { nb_assert(k < want.size(), "no stage runs that should not"); auto& w = want[k++]; nb_assert(e.stage == w.stage, "stages run in order, rejections reach the next handler"); nb_assert((e.v == w.v) & nb_streq(e.s, w.s), "values are passed on unchanged"); }
  nb_assert(k == want.size(), "every stage that should run runs"); }
}
// several pipelines started together, completions in any order
NB_ENTRY(together) {
  unsigned runs = nb_param("runs", 1), mode = nb_param("mode", 1); unsigned long base = nb_live();
  { std::vector<std::vector<plan>> ps; std::vector<int> v; std::vector<std::string> s; log_.reserve(64); queue_.reserve(8);
  for (unsigned r = 0; r < runs; r++) { std::vector<plan> p; bool gone = false; for (int i = 0; i < 5; i++) { if (gone) { p.push_back({0, false, 0}); continue; } p.push_back(any_plan(mode == 2 && r ? 3 : mode)); gone = p.back().what != 0; } ps.push_back(p); v.push_back(nb_any<int>("value")); s.push_back(nb_string(nb_param("len", 1), "text")); }
  for (unsigned r = 0; r < runs; r++) nbdl::run_async(pipeline(r, ps[r]), v[r], s[r]);
  drain(); nb_assert(live == 0, "everything the pipelines own is released when they end");
  for (unsigned r = 0; r < runs; r++) same(log_, r, expected(r, ps[r], v[r], s[r])); nb_cover("ended"); }
  std::vector<ev>().swap(log_); std::vector<later_t>().swap(queue_); nb_assert(nb_live() == base, "no storage is left behind");
}
// the same pipeline object run several times without storage of its own
NB_ENTRY(synchronous) {
  std::vector<plan> p; for (int i = 0; i < 5; i++) { p.push_back(any_plan(0)); } int v = nb_any<int>("value"), w = nb_any<int>("value"); std::string s = nb_string(nb_param("len", 1), "text");
  { auto pl = pipeline(0, p); int held = live; nbdl::run_sync(pl, v, s); same(log_, 0, expected(0, p, v, s)); log_.clear(); nb_assert(live == held, "a synchronous run leaves the pipeline as it was"); nbdl::run_sync(pl, w, s); same(log_, 0, expected(0, p, w, s)); log_.clear(); nbdl::run_async(decltype(pl)(pl), v, s); same(log_, 0, expected(0, p, v, s)); nb_assert(live == held, "an asynchronous run owns a copy of its own"); nb_cover("sync"); }
  nb_assert(live == 0, "everything is released");
}
// a loop starts over after its last stage until a stage rejects
NB_ENTRY(loop) {
  unsigned rounds = nb_param("rounds", 2); unsigned long base = nb_live();
  { std::vector<plan> p; std::vector<int> want; log_.reserve(64); queue_.reserve(8); int v = nb_any<int>("value"); for (unsigned i = 0; i < 2 * rounds; i++) { plan q = any_plan(1); if (i + 1 == 2 * rounds && !q.what) q.what = 1; p.push_back(q); if (q.what) break; }
  std::size_t next = 0; auto step = [&](int no) { return nbdl::promise([&, no, t = token(no)](auto& r, int v) { nb_assert(t.id == no && next < p.size(), "a loop ends when a stage rejects"); plan q = p[next++]; seen(0, no, v);
      switch (q.what) { case 0: go(0, q.later, [&r, v, q] { r.resolve(add(v, q.add)); }); break; case 1: go(0, q.later, [&r, v, q] { r.reject(E1{add(v, q.add), "l"}); }); break; default: go(0, q.later, [&r, v, q] { r.reject(E2{add(v, q.add)}); }); } }); };
  nbdl::run_async_loop(nbdl::pipe(step(0), step(1), handler1(0, 10), handler2(0, 11)), int(v)); drain();
  std::vector<ev> w; int x = v; for (std::size_t i = 0; i < p.size(); i++) { w.push_back({0, (int)(i % 2), x}); x = add(x, p[i].add); if (p[i].what) w.push_back({0, 9 + p[i].what, x, p[i].what == 1 ? "l" : ""}); }
  same(log_, 0, w); nb_assert(live == 0, "everything the loop owns is released when it ends"); nb_cover("loop"); }
  std::vector<ev>().swap(log_); std::vector<later_t>().swap(queue_); nb_assert(nb_live() == base, "no storage is left behind");
}
// values held by the pipeline, lazily made ones, exceptions turned into rejections
NB_ENTRY(held) {
  unsigned long base = nb_live();
  { log_.reserve(64); queue_.reserve(8); int v = nb_any<int>("value"), h = nb_any<int>("held"), a = nb_any<int>("add"); std::string s = nb_string(nb_param("len", 1), "text"); bool later = nb_choose(2, "later"); int throws = nb_choose(4, "throws"); std::vector<token*> where;
  struct box { int v; std::string s; token t; };
  nbdl::run_async(nbdl::pipe(
    nbdl::try_([=, t = token(1)](int x) { nb_assert(t.id == 1, "alive"); seen(0, 1, x); if (throws == 1) throw oops("first"); if (throws == 2) throw 5; return add(x, a); }),
    [](int x) { seen(0, 2, x); return x; }, nbdl::hold(box{h, s, 3}),
    nbdl::promise([=, &where](auto& r, auto&& held) { auto& b = const_cast<box&>(held); seen(0, 3, b.v, b.s); where.push_back(&b.t); b.v = add(b.v, a); go(0, later, [&r, &b] { r.resolve(b); }); }),
    nbdl::promise([=, &where](auto& r, auto&& b) { seen(0, 4, b.v, b.s); nb_assert(&b.t == where[0], "the held value itself is passed on"); r.resolve(std::unique_ptr<int>(new int(b.v))); }),
    nbdl::promise([](auto& r, std::unique_ptr<int> u) { seen(0, 5, *u); r.resolve(std::move(u)); }),
    nbdl::try_([=, t = token(2)](std::unique_ptr<int> u) { seen(0, 6, *u); if (throws == 3) throw oops("second"); }),
    []() { seen(0, 7, 0); },
    nbdl::catch_([=, t = token(4)](std::exception const& e) { nb_assert(t.id == 4, "alive"); std::string w = e.what(); seen(0, 10, 0, w == "first" || w == "second" ? w : "some other exception"); })), int(v));
  drain(); std::vector<ev> w; w.push_back({0, 1, v}); if (throws == 1) w.push_back({0, 10, 0, "first"}); else if (throws == 2) w.push_back({0, 10, 0, "some other exception"}); else { int n = add(h, a); w.push_back({0, 2, add(v, a)}); w.push_back({0, 3, h, s}); w.push_back({0, 4, n, s}); w.push_back({0, 5, n}); w.push_back({0, 6, n}); if (throws == 3) w.push_back({0, 10, 0, "second"}); else w.push_back({0, 7, 0}); }
  same(log_, 0, w); nb_assert(live == 0, "everything the pipeline owns is released when it ends"); nb_cover(throws ? "thrown" : "held"); }
  std::vector<ev>().swap(log_); std::vector<later_t>().swap(queue_); nb_assert(nb_live() == base, "no storage is left behind");
}
// a value made once the pipeline is in place; it settles later
NB_ENTRY(lazy) {
  unsigned long base = nb_live();
  { log_.reserve(64); queue_.reserve(8); int v = nb_any<int>("value"), a = nb_any<int>("add"); int rejects = nb_choose(3, "outcome"); struct made { int v; std::string s; token t; };
  made* at = nullptr; std::string s = nb_string(nb_param("len", 1), "text");
  nbdl::run_async(nbdl::pipe([](int x) { seen(0, 0, x); return x; },
    nbdl::hold_lazy([=, &at](auto& r, int x) { seen(0, 1, x); go(0, true, [=, &at, &r] { if (rejects == 1) r.reject(E1{a, s}); else if (rejects == 2) r.reject(E2{a}); else r.resolve(add(x, a), s); }); return made{x, s, 7}; }, nbdl::lazy_args<int>),
    nbdl::promise([](auto& r, int x, std::string const& s) { seen(0, 2, x, s); go(0, true, [&r, x] { r.resolve(x); }); }), [](int x) { seen(0, 3, x); nb_assert(live > 0, "the made value lives as long as the pipeline"); }, handler1(0, 10), handler2(0, 11)), int(v));
  drain(); std::vector<ev> w; w.push_back({0, 0, v}); w.push_back({0, 1, v}); if (rejects == 1) w.push_back({0, 10, a, s}); else if (rejects == 2) w.push_back({0, 11, a}); else { w.push_back({0, 2, add(v, a), s}); w.push_back({0, 3, add(v, a)}); }
  same(log_, 0, w); nb_assert(live == 0, "the made value is released with the pipeline"); nb_cover("lazy"); }
  std::vector<ev>().swap(log_); std::vector<later_t>().swap(queue_); nb_assert(nb_live() == base, "no storage is left behind");
}
