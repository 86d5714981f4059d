#include "nb.h"
#include <boost/hana.hpp>
#include <nbdl.hpp>
#include <example/tiles/game.hpp>
#include <optional>
using namespace boost::hana::literals;
namespace hana = boost::hana;
namespace {
unsigned W, H;
// what one move must do, branch-free
bool moved_ref(const std::array<unsigned char, 64>& b, unsigned long i, unsigned long z, std::array<unsigned char, 64>& out) {
  unsigned long n = W * H; out = b; if (i >= n) return false;
  unsigned long r = i / W, c = i % W, zr = z / W, zc = z % W;
  bool adj = (i < n) & (((r == zr) & ((c + 1 == zc) | (zc + 1 == c))) | ((c == zc) & ((r + 1 == zr) | (zr + 1 == r))));
  unsigned long t = 0; for (unsigned long j = 0; j < n; j++) t = nb_ite(j == i, b[j], t);
  for (unsigned long j = 0; j < 64; j++) out[j] = nb_ite(adj & (j == i), 0, nb_ite(adj & (j == z), t, b[j]));
  return adj;
}
bool same(const std::array<unsigned char, 64>& a, const std::array<unsigned char, 64>& b) { bool ok = true; for (int j = 0; j < 64; j++) ok = ok & (a[j] == b[j]); return ok; }
// one empty cell, at a position the solver chooses, on the board; any tiles elsewhere; anything outside the board
unsigned long make_board(std::array<unsigned char, 64>& b) {
  nb_make_symbolic(b.data(), 64, "board"); unsigned long z = nb_choose(W * H, "zero"); b[z] = 0;
  for (unsigned long j = 0; j < W * H; j++) if (j != z) nb_assume(b[j] != 0);
  return z;
}
// forks over the cells of the board; every index off the board is one symbolic case
unsigned char any_index() { unsigned long k = nb_choose(W * H + 1, "cell"); if (k < W * H) return k; unsigned char i = nb_any<unsigned char>("index"); nb_assume(i >= W * H); return i; }
bool last_row_stuck(unsigned long i, bool adj) { return !adj & (i + W == W * H); }
struct Guard { unsigned char pre[80]; tiles::game g; unsigned char post[80]; };
}
// stuck: only the first tile of the last row when it is not next to the empty cell, which the rest leaves out
static void move_one(bool stuck) {
  auto x = std::make_unique<Guard>(); for (auto& c : x->pre) c = 0; for (auto& c : x->post) c = 0;
  x->g.width = W; x->g.height = H; unsigned long z = make_board(x->g.board);
  unsigned char i = any_index(); auto before = x->g.board; std::array<unsigned char, 64> want;
  bool adj = moved_ref(before, i, z, want); nb_assume(last_row_stuck(i, adj) == stuck);
  bool r = tiles::detail::apply_game_move(x->g, tiles::game_move{i});
  nb_observe("r", r); nb_observe_mem("board", x->g.board.data(), 64);
  nb_assert(r == adj, "the move changes the board exactly when the tile is adjacent to the empty cell");
  nb_assert(same(x->g.board, want), "the board after the move");
  bool ok = true; for (auto c : x->pre) ok = ok & (c == 0); for (auto c : x->post) ok = ok & (c == 0);
  nb_assert(ok & (x->g.width == (int)W) & (x->g.height == (int)H), "nothing but the board changes");
  nb_cover(r ? "moved" : "not-moved");
  if (r) { // moving the same tile (now in the old empty cell) goes back
    bool r2 = tiles::detail::apply_game_move(x->g, tiles::game_move{(unsigned char)z});
    nb_assert(r2 & same(x->g.board, before), "moving the tile again undoes the move"); nb_cover("undone");
  }
}
NB_ENTRY(move) { W = nb_param("w", 3); H = nb_param("h", 3); move_one(false); }
NB_ENTRY(move_last_row) { W = nb_param("w", 3); H = nb_param("h", 3); move_one(true); }
// the game behind a context: a server's answer changes the store by exactly the move and the consumer hears of real changes only
namespace {
unsigned notified = 0, upstream = 0;
struct consumer_tag;
template <typename Context> struct consumer_impl { using hana_tag = consumer_tag; Context context; template <typename T> consumer_impl(nbdl::actor_initializer<Context, T>&& a) : context(a.context) { } };
struct consumer_tag { template <typename Context> using actor_impl = consumer_impl<Context>; };
struct ctx_def { static auto make_def() { return tiles::context<nbdl::echo_producer, consumer_tag>::make_def(); } };
}
namespace nbdl {
  template <> struct notify_state_change_impl<consumer_tag> { template <typename S, typename P> static constexpr auto apply(S&&, P const&) { notified++; } };
}
NB_ENTRY(through_context) {
  W = 3; H = 3; auto ctx = nbdl::make_context<ctx_def>(nbdl::actor("server"_s, nbdl::echo_producer{}));
  auto& state = ctx->template actor<1>(); unsigned steps = nb_param("steps", 2);
  std::array<unsigned char, 64> now{}; const unsigned char init[9] = {3, 4, 6, 8, 0, 1, 2, 5, 7}; for (int i = 0; i < 9; i++) now[i] = init[i];
  unsigned long z = 4;
  for (unsigned s = 0; s < steps; s++) {
    unsigned char i = any_index(); std::array<unsigned char, 64> want; bool adj = moved_ref(now, i, z, want); nb_assume(!last_row_stuck(i, adj));
    notified = 0; tiles::create_game_move(state, i);
    nb_assert((notified == 1) == adj && notified <= 1, "the consumer is notified exactly of real moves");
    bool ok = false; unsigned seen = 0;
    nbdl::match(state.context, tiles::game_path{}, [&](auto const& g) { if constexpr (requires { g.board; }) { ok = same(g.board, want); seen++; nb_observe_mem("board", g.board.data(), 9); } });
    nb_assert(seen == 1 && ok, "the game in the store after the move"); now = want; if (adj) z = i; nb_cover(adj ? "ctx-moved" : "ctx-unmoved");
  }
}
