// Union-find: one operation applied to an arbitrary valid forest.
// pv-bounded: * forests of at most 4 nodes; any sequence of operations on them, by induction on the operations
#include "pr.hpp"
#include "base/disjoint_sets.hpp"
using namespace principia::base::_disjoint_sets;
using namespace principia::base::_not_null;
struct E { int id; Subset<E>::Node* node; };
namespace principia::base::_disjoint_sets::internal {
template<> class Subset<E>::Properties final {
 public:
  explicit Properties(std::uint64_t e) : elements(e), merges(0) {}
  void MergeWith(Properties& other) { elements = elements + other.elements; merges += other.merges + 1; }
  std::uint64_t elements; int merges;
};
template<> not_null<Subset<E>::Node*> Subset<E>::Node::Get(E& e) { return e.node; }
}
using S = Subset<E>;
namespace {
constexpr int N = 4;
struct Forest {
  S::Node node[N]; E e[N]; int parent[N]; int root[N]; std::uint64_t members[N]; int rank[N];
  // `code` enumerates all parent functions; returns false if it is not a forest.
  bool init(int code, bool concrete_ranks) {
    for (int i = 0; i < N; ++i) { parent[i] = code % N; code /= N; members[i] = 0; }
    for (int i = 0; i < N; ++i) {
      int r = i;
      for (int k = 0; k < N; ++k) r = parent[r];
      if (parent[r] != r) return false;
      root[i] = r;
    }
    // Distinct symbolic contents, so that a merge done twice or not at all is seen.
    std::uint64_t w[N];
    for (int i = 0; i < N; ++i) w[i] = vc_u64(pr::cat("w", i).s);
    for (int i = 0; i < N; ++i) members[root[i]] += w[i];
    for (int i = 0; i < N; ++i) {
      e[i].id = i; e[i].node = &node[i];
      S::MakeSingleton(e[i], members[i]);
      rank[i] = vc_i32(pr::cat("rank", i).s);
      REQUIRE(rank[i] >= 0); REQUIRE(rank[i] < 1000);
    }
    for (int i = 0; i < N; ++i) {
      if (parent[i] != i) REQUIRE(rank[parent[i]] > rank[i]);
      node[i].parent_ = &node[parent[i]]; node[i].rank_ = rank[i];
    }
    return true;
  }
  int index(S::Node* n) { for (int i = 0; i < N; ++i) if (n == &node[i]) return i; return -1; }
  // The forest is valid and its partition is that given by `r`.
  void check(int const* r) {
    for (int i = 0; i < N; ++i) {
      int const p = index(node[i].parent_);
      ENSURE(p >= 0);
      if (p != i) ENSURE(node[p].rank_ > node[i].rank_);
      int q = i;
      for (int k = 0; k < N; ++k) q = index(node[q].parent_);
      ENSURE(index(node[q].parent_) == q);
      ENSURE(q == r[i]);
    }
  }
};
}
F_SPEC(find) {
  for (int code = 0; code < N * N * N * N; ++code) for (int x = 0; x < N; ++x) {
    Forest f;
    if (!f.init(code, false)) continue;
    S const s = S::Find(f.e[x]);
    ENSURE(f.index(s.node_) == f.root[x]);
    ENSURE(s.properties().elements == f.members[f.root[x]]);
    // Path compression: the element now hangs from its root.
    ENSURE(f.index(f.node[x].parent_) == f.root[x]);
    f.check(f.root);
    for (int i = 0; i < N; ++i) ENSURE(f.node[i].rank_ == f.rank[i]);
    for (int y = 0; y < N; ++y) ENSURE((S::Find(f.e[y]) == s) == (f.root[x] == f.root[y]));
    for (int y = 0; y < N; ++y) ENSURE((S::Find(f.e[y]) != s) == (f.root[x] != f.root[y]));
  }
}
F_SPEC(unite) {
  std::int64_t const pick = vc_i64("pick");
  REQUIRE(pick >= 0); REQUIRE(pick < N * N * N * N);
  // One path per forest.
  int const code = static_cast<int>(vc_concretize(pick));
  for (int xy = 0; xy < N * N; ++xy) if (vc_fork(vc_bool(pr::cat("xy", xy).s))) {
    int const x = xy / N, y = xy % N;
    if ((code / (x == 0 ? 1 : x == 1 ? 4 : x == 2 ? 16 : 64)) % 4 != x || (code / (y == 0 ? 1 : y == 1 ? 4 : y == 2 ? 16 : 64)) % 4 != y) return;  // Roots only.
    Forest f;
    if (!f.init(code, false)) return;
    S const s = S::Unite(S::Find(f.e[x]), S::Find(f.e[y]));
    int const r = f.index(s.node_);
    ENSURE(r == x || r == y);
    int expected[N];
    for (int i = 0; i < N; ++i) expected[i] = f.root[i] == x || f.root[i] == y ? r : f.root[i];
    f.check(expected);
    ENSURE(s.properties().elements == (x == y ? f.members[x] : f.members[x] + f.members[y]));
    ENSURE(s.properties().merges == (x == y ? 0 : 1));
    for (int i = 0; i < N; ++i) ENSURE((S::Find(f.e[i]) == s) == (f.root[i] == x || f.root[i] == y));
    // Union by rank: the height does not increase unless the ranks were equal.
    if (x != y) ENSURE(f.node[r].rank_ == (f.rank[x] == f.rank[y] ? f.rank[x] + 1 : f.rank[x] < f.rank[y] ? f.rank[y] : f.rank[x]));
    for (int i = 0; i < N; ++i) if (i != r) ENSURE(f.node[i].rank_ == f.rank[i]);
    return;
  }
}
F_SPEC(singleton) {
  Forest f;
  f.init(0b11'10'01'00, false);
  std::uint64_t const w = vc_u64("w");
  S const s = S::MakeSingleton(f.e[2], w);
  ENSURE(s.properties().elements == w); ENSURE(s.node_ == &f.node[2]); ENSURE(f.node[2].rank_ == 0);
  ENSURE(S::Find(f.e[2]) == s); ENSURE(S::Find(f.e[1]) != s);
  S t = S::Find(f.e[2]);
  t.mutable_properties().elements = 17;
  ENSURE(S::Find(f.e[2]).properties().elements == 17);
  S::Node const n;
  ENSURE(n.parent_ == &n);
}
