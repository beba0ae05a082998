// The broad-phase tree, driven by fixed histories.
#include "law.hpp"
#include <vector>
#include <entt/entity/registry.hpp>
#include "edyn/collision/dynamic_tree.hpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
#include "/repo/src/edyn/collision/dynamic_tree.cpp"
using namespace edyn;
using namespace law;
#define ALWAYS static inline __attribute__((always_inline))
#define NOINL static __attribute__((noinline))

constexpr unsigned NL = 12;
static inline bool Within(const AABB &a, const AABB &b) { return a.min.x >= b.min.x && a.min.y >= b.min.y && a.min.z >= b.min.z && a.max.x <= b.max.x && a.max.y <= b.max.y && a.max.z <= b.max.z; }
static inline bool Touch(const AABB &a, const AABB &b) { return a.min.x <= b.max.x && a.min.y <= b.max.y && a.min.z <= b.max.z && b.min.x <= a.max.x && b.min.y <= a.max.y && b.min.z <= a.max.z; }
static inline AABB Union(const AABB &a, const AABB &b) { AABB r; for (int k = 0; k < 3; ++k) { r.min[k] = a.min[k] < b.min[k] ? a.min[k] : b.min[k]; r.max[k] = a.max[k] > b.max[k] ? a.max[k] : b.max[k]; } return r; }
static const scalar boxes[14][6] = {{0, 0, 0, 1, 1, 1}, {4, 0, 0, 5, 2, 1}, {2, 3, 0, 3, 4, 1}, {-3, 1, 2, -1, 2, 3}, {6, 6, 1, 7, 9, 2}, {1, -4, 0, 2, -3, 2}, {-2, -2, -2, 2, 2, 2}, {4, 0, 0, 5, 2, 1}, {8, 8, 8, 8, 8, 8}, {10, 0, 0, 11, 1, 1}, {20, 0, 0, 21, 1, 1}, {30, 0, 0, 31, 1, 1}, {-9, -9, -9, -8, -8, -8}, {3, 3, 3, 4, 5, 6}};
static inline AABB Box(unsigned i, scalar z) { return {{boxes[i][0] + z, boxes[i][1] + z, boxes[i][2] + z}, {boxes[i][3] + z, boxes[i][4] + z, boxes[i][5] + z}}; }
// A box 0.1 larger on every side.
static inline AABB Fat(const AABB &b) { auto m = scalar(0.1); return {{b.min.x - m, b.min.y - m, b.min.z - m}, {b.max.x + m, b.max.y + m, b.max.z + m}}; }
static inline entt::entity Ent(unsigned i) { return entt::entity(50 + i); }
struct Forest {
    dynamic_tree t; scalar z; bool on[NL] = {}; AABB box[NL], fat[NL]; tree_node_id_t id[NL] = {};
    void C(unsigned i, unsigned b) { box[i] = Box(b, z); fat[i] = Fat(box[i]); id[i] = t.create(box[i], Ent(i)); on[i] = true; }
    void D(unsigned i) { t.destroy(id[i]); on[i] = false; }
    bool M(unsigned i, const AABB &b) { bool moved = t.move(id[i], b); box[i] = b; if (moved) fat[i] = Fat(b); return moved; }
    unsigned Which(tree_node_id_t n) const { for (unsigned i = 0; i < NL; ++i) if (on[i] && id[i] == n) return i; return NL; }
    unsigned Query(const AABB &q) const { unsigned m = 0; t.query(q, [&](tree_node_id_t n) { auto i = Which(n); m = i == NL || (m >> i & 1) ? 1u << 31 : m | 1u << i; }); return m; }
};
// Structure: links agree both ways, boxes and heights of inner nodes are those of their children, every leaf hangs from the same root, by number as many inner nodes as leaves less one.
NOINL void Sound(Out &out, const Forest &f) {
    tree_node_id_t root = null_tree_node_id; unsigned n = 0; for (unsigned i = 0; i < NL; ++i) if (f.on[i]) { ++n; auto x = f.id[i]; auto &leaf = f.t.get_node(x); out.eqb(leaf.leaf(), true); out.eqb(leaf.entity == Ent(i), true); out.eq(leaf.aabb.min, f.fat[i].min); out.eq(leaf.aabb.max, f.fat[i].max); out.eqi(leaf.height, 0); unsigned up = 0; while (f.t.get_node(x).parent != null_tree_node_id && up < 40) { x = f.t.get_node(x).parent; ++up; } out.eqb(up < 40, true); if (root == null_tree_node_id) root = x; out.eqi(x, root); }
    if (!n) return; unsigned leaves = 0, inner = 0; std::vector<tree_node_id_t> todo{root};
    while (!todo.empty() && leaves + inner < 40) { auto x = todo.back(); todo.pop_back(); auto &node = f.t.get_node(x); if (node.leaf()) { ++leaves; out.eqb(f.Which(x) < NL, true); continue; } ++inner; auto &a = f.t.get_node(node.child1), &b = f.t.get_node(node.child2); out.eqi(a.parent, x); out.eqi(b.parent, x); auto u = Union(a.aabb, b.aabb); out.eq(node.aabb.min, u.min); out.eq(node.aabb.max, u.max); out.eqi(node.height, 1 + (a.height > b.height ? a.height : b.height)); out.eqb(node.child1 == node.child2, false); todo.push_back(node.child1); todo.push_back(node.child2); }
    out.eqi(leaves, n); out.eqi(inner, n - 1); }
NOINL void Ask(Out &out, const Forest &f) {
    for (unsigned b = 0; b < 14; b += 3) { auto q = Box(b, f.z); unsigned want = 0; for (unsigned i = 0; i < NL; ++i) if (f.on[i] && Touch(q, f.fat[i])) want |= 1u << i; out.eqi(f.Query(q), want); }
    unsigned all = 0; for (unsigned i = 0; i < NL; ++i) if (f.on[i]) all |= 1u << i; auto m = scalar(99); out.eqi(f.Query({{f.z - m, f.z - m, f.z - m}, {f.z + m, f.z + m, f.z + m}}), all); out.eqi(f.Query({{f.z + m, f.z + m, f.z + m}, {f.z + m, f.z + m, f.z + m}}), 0); }
ALWAYS void All(Out &out, const Forest &f) { Sound(out, f); Ask(out, f); }

LAW(dt_empty, "dynamic_tree::query raycast", "an empty tree answers nothing, also after its last leaf left") { Forest f; f.z = I.s; Ask(out, f); f.C(0, 3); All(out, f); f.D(0); Ask(out, f); f.C(1, 2); All(out, f); }
LAW(dt_one, "dynamic_tree::create", "a leaf has the box grown by a margin on every side and is found by every query that touches it") { dynamic_tree t; auto id = t.create({I.a, I.b}, entt::entity(7)); auto &n = t.get_node(id); auto fat = Fat({I.a, I.b}); out.eq(n.aabb.min, fat.min); out.eq(n.aabb.max, fat.max); out.eqb(n.entity == entt::entity(7), true); unsigned m = 0; t.query({I.c, I.d}, [&](tree_node_id_t x) { m += x == id ? 1 : 100; }); out.eqi(m, Touch(fat, {I.c, I.d}) ? 1 : 0); }
LAW(dt_two, "dynamic_tree::create insert", "two leaves with any boxes: the root encloses both tightly") { dynamic_tree t; AABB p{I.a, I.b}, q{I.c, I.d}; auto i = t.create(p, entt::entity(7)), j = t.create(q, entt::entity(8)); auto &a = t.get_node(i), &b = t.get_node(j); out.eqi(a.parent, b.parent); auto &r = t.get_node(a.parent); auto u = Union(Fat(p), Fat(q)); out.eq(r.aabb.min, u.min); out.eq(r.aabb.max, u.max); out.eqi(r.height, 1); out.eqb(r.parent == null_tree_node_id, true); out.eqb((r.child1 == i && r.child2 == j) || (r.child1 == j && r.child2 == i), true); }
ALWAYS AABB Sorted(const vector3 &a, const vector3 &b) { AABB r; for (int k = 0; k < 3; ++k) { r.min[k] = a[k]; r.max[k] = a[k] + b[k] * b[k]; } return r; }
LAW(dt_move, "dynamic_tree::move", "reports a move exactly when the box leaves the leaf's box, and then the leaf has the new box with margin") { dynamic_tree t; AABB p{I.a, I.b}, q = Sorted(I.c, I.d); auto i = t.create(p, entt::entity(7)); bool moved = t.move(i, q); auto f = Fat(p), g = Fat(q); out.eqb(moved, !Within(q, f)); out.on = moved; out.eq(t.get_node(i).aabb.min, g.min); out.eq(t.get_node(i).aabb.max, g.max); out.on = !moved; out.eq(t.get_node(i).aabb.min, f.min); out.eq(t.get_node(i).aabb.max, f.max); }
LAW(dt_two_move, "dynamic_tree::move remove insert", "after a move the root encloses both leaves, tightly") { dynamic_tree t; AABB p{{0, 0, 0}, {1, 1, 1}}, q{I.a, I.b}; auto i = t.create(p, entt::entity(7)), j = t.create({{3, 3, 3}, {4, 4, 4}}, entt::entity(8)); t.move(i, q); auto &a = t.get_node(i), &b = t.get_node(j); out.eqi(a.parent, b.parent); auto &r = t.get_node(a.parent); auto u = Union(a.aabb, b.aabb); out.eq(r.aabb.min, u.min); out.eq(r.aabb.max, u.max); }
template<int n, int step> ALWAYS void Grow(Out &out, scalar z) { Forest f; f.z = z; for (unsigned i = 0; i < n; ++i) { f.C(i, i * step % 14); if (i + 2 >= n) All(out, f); } }
LAW(dt_grow3, "dynamic_tree::create insert refit balance", "three leaves: links, boxes and heights agree, queries find exactly the touched leaves") { Grow<3, 1>(out, I.s); }
LAW(dt_grow6, "dynamic_tree::create insert refit balance", "six leaves") { Grow<6, 1>(out, I.s); }
LAW(dt_grow9, "dynamic_tree::create insert refit balance", "nine leaves") { Grow<9, 5>(out, I.s); }
LAW(dt_grow12, "dynamic_tree::create insert refit balance", "twelve leaves") { Grow<12, 3>(out, I.s); }
// Boxes in a row, ascending and descending, force rotations both ways.
template<int dir, int n> ALWAYS void Row(Out &out, scalar z) { Forest f; f.z = z; for (unsigned i = 0; i < n; ++i) { scalar x = z + dir * scalar(3) * i; f.box[i] = {{x, z, z}, {x + 1, z + 1, z + 1}}; f.fat[i] = Fat(f.box[i]); f.id[i] = f.t.create(f.box[i], Ent(i)); f.on[i] = true; if (i >= 3) Sound(out, f); } Ask(out, f); unsigned high = 0; for (unsigned i = 0; i < n; ++i) { unsigned up = 0; auto x = f.id[i]; while (f.t.get_node(x).parent != null_tree_node_id && up < 40) { x = f.t.get_node(x).parent; ++up; } if (up > high) high = up; } out.eqb(high <= (n <= 4 ? 3 : n <= 8 ? 5 : 6), true); }
LAW(dt_row_up, "dynamic_tree::balance", "boxes added along an axis: sound after each, and the tree stays shallow") { Row<1, 7>(out, I.s); }
LAW(dt_row_down, "dynamic_tree::balance", "boxes added against an axis: sound after each, and the tree stays shallow") { Row<-1, 7>(out, I.s); }
LAW(dt_row_long, "dynamic_tree::balance", "twelve boxes along an axis") { Row<1, 12>(out, I.s); }
template<int k> ALWAYS void Shrink(Out &out, scalar z) { Forest f; f.z = z; for (unsigned i = 0; i < 7; ++i) f.C(i, i); static const unsigned order[4][7] = {{0, 1, 2, 3, 4, 5, 6}, {6, 5, 4, 3, 2, 1, 0}, {3, 0, 5, 1, 6, 2, 4}, {2, 4, 6, 0, 5, 3, 1}}; for (unsigned j = 0; j < 7; ++j) { f.D(order[k][j]); Sound(out, f); } Ask(out, f); for (unsigned i = 0; i < 7; ++i) f.C(i, i + 5); All(out, f); }
LAW(dt_shrink0, "dynamic_tree::destroy remove refit", "leaves destroyed first to last: sound after each; freed nodes are used again") { Shrink<0>(out, I.s); }
LAW(dt_shrink1, "dynamic_tree::destroy remove refit", "leaves destroyed last to first") { Shrink<1>(out, I.s); }
LAW(dt_shrink2, "dynamic_tree::destroy remove refit", "leaves destroyed in mixed order") { Shrink<2>(out, I.s); }
LAW(dt_shrink3, "dynamic_tree::destroy remove refit", "leaves destroyed in another mixed order") { Shrink<3>(out, I.s); }
LAW(dt_wander, "dynamic_tree::move", "leaves that move far are found where they are, and only there") { Forest f; f.z = I.s; for (unsigned i = 0; i < 6; ++i) f.C(i, i); for (unsigned i = 0; i < 6; ++i) { out.eqb(f.M(i, Box(13 - i, f.z)), true); Sound(out, f); } Ask(out, f); }
LAW(dt_jitter, "dynamic_tree::move", "a small move within the margin changes nothing; one past it, on any side, moves the leaf") { Forest f; f.z = I.s; for (unsigned i = 0; i < 4; ++i) f.C(i, i); for (unsigned s = 0; s < 6; ++s) { auto m = scalar(0.0625), b = scalar(0.25); AABB q = Box(2, f.z), r = q; if (s < 3) { q.min[s] -= m; r.min[s] -= b; } else { q.max[s - 3] += m; r.max[s - 3] += b; } out.eqb(f.M(2, Box(2, f.z)), false); out.eqb(f.M(2, q), false); out.eqb(f.M(2, r), true); Sound(out, f); } }
LAW(dt_clear, "dynamic_tree::clear", "an emptied tree answers nothing and can be filled again") { Forest f; f.z = I.s; for (unsigned i = 0; i < 5; ++i) f.C(i, i); f.D(2); f.t.clear(); for (auto &x : f.on) x = false; Ask(out, f); for (unsigned i = 0; i < 7; ++i) f.C(i, i + 3); All(out, f); f.t.clear(); f.t.clear(); for (auto &x : f.on) x = false; Ask(out, f); f.C(0, 0); All(out, f); }
LAW(dt_clear_empty, "dynamic_tree::clear", "emptying an empty tree does nothing") { Forest f; f.z = I.s; f.t.clear(); Ask(out, f); f.C(0, 0); f.C(1, 1); All(out, f); }
LAW(dt_ray, "dynamic_tree::raycast raycast_tree", "visits the leaves whose boxes the segment crosses, each once") {
    Forest f; f.z = 0; for (unsigned i = 0; i < 6; ++i) f.C(i, i); static const scalar r[4][6] = {{-5, 0.5, 0.5, 9, 0.5, 0.5}, {2.5, 9, 0.5, 2.5, 3.5, 0.5}, {-2, 1.5, 9, -2, 1.5, 3.5}, {1.5, -9, 1, 1.5, 9, 1}}; static const unsigned want[4] = {0b11, 0b100, 0, 0b100000};
    for (int k = 0; k < 4; ++k) { unsigned m = 0; f.t.raycast({r[k][0], r[k][1], r[k][2]}, {r[k][3], r[k][4], r[k][5]}, [&](auto id) { auto i = f.Which(id); m = m >> i & 1 ? 1u << 31 : m | 1u << i; }); out.eqi(m, want[k]); } }
