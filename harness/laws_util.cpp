// Containers, ordered keys, material tables and the static tree.
#include "law.hpp"
#include <memory>
#include <vector>
#include <string>
#include <algorithm>
#include "rbtree.hpp"
#include "edyn/core/flat_nested_array.hpp"
#include "edyn/core/free_list.hpp"
#include "edyn/core/unordered_pair.hpp"
#include "edyn/dynamics/material_mixing.hpp"
#include "edyn/networking/comp/action_history.hpp"
#include "edyn/util/vector_util.hpp"
#include "edyn/util/array_util.hpp"
#include "edyn/util/tuple_util.hpp"
#include "edyn/collision/static_tree.hpp"
#include "edyn/collision/query_tree.hpp"
#include "/repo/src/edyn/math/geom.cpp"
#include "/repo/src/edyn/math/quaternion.cpp"
using namespace edyn;
using namespace law;

LAW(fna, "flat_nested_array::push_array push_back operator[] size", "every nested array holds its own values in order, empty ones included") {
    flat_nested_array<scalar> a; out.eqi(a.size(), 0); a.push_array(); a.push_back(I.s); a.push_back(I.t); a.push_array(); a.push_array(); a.push_back(I.u); a.push_back(I.v); a.push_back(I.a.x); a.push_array();
    out.eqi(a.size(), 4); out.eqi(a[0].size(), 2); out.eqi(a[1].size(), 0); out.eqi(a[2].size(), 3); out.eqi(a[3].size(), 0); out.eq(a[0][0], I.s); out.eq(a[0][1], I.t); out.eq(a[2][0], I.u); out.eq(a[2][1], I.v); out.eq(a[2][2], I.a.x); }
LAW(fna_reserve, "flat_nested_array::reserve_data reserve_nested", "reserving changes nothing") {
    flat_nested_array<scalar> a; a.push_array(); a.push_back(I.s); a.reserve_data(9); a.reserve_nested(7); a.push_back(I.t); a.push_array(); a.push_back(I.u); out.eqi(a.size(), 2); out.eqi(a[0].size(), 2); out.eq(a[0][1], I.t); out.eq(a[1][0], I.u); out.eqi(a[1].size(), 1); }

struct Elem { scalar v {}; uint32_t next {}; };
using List = free_list<Elem, uint32_t, UINT32_MAX>;
LAW(fl_insert, "free_list::insert operator[] count range", "elements keep their values, indices are distinct and below the range, across growth") {
    List l; out.eqb(l.empty(), true); scalar x[20]; uint32_t ix[20]; for (int i = 0; i < 20; ++i) { x[i] = I.s + i; ix[i] = l.insert(Elem{x[i], 0}); }
    out.eqi(l.count(), 20); out.eqb(l.empty(), false); for (int i = 0; i < 20; ++i) { out.eq(l[ix[i]].v, x[i]); out.eqb(ix[i] < l.range(), true); for (int j = 0; j < i; ++j) out.eqb(ix[i] == ix[j], false); } }
LAW(fl_remove, "free_list::remove insert", "a removed slot is reset and reused; the others are untouched") {
    List l; uint32_t ix[5]; for (int i = 0; i < 5; ++i) ix[i] = l.insert(Elem{I.s + i, 0}); l.remove(ix[1]); l.remove(ix[3]); out.eqi(l.count(), 3); out.eq(l[ix[1]].v, 0); out.eq(l[ix[3]].v, 0); out.eq(l[ix[0]].v, I.s); out.eq(l[ix[2]].v, I.s + 2); out.eq(l[ix[4]].v, I.s + 4);
    auto r = l.range(); auto a = l.insert(Elem{I.t, 0}), b = l.insert(Elem{I.u, 0}), c = l.insert(Elem{I.v, 0}); out.eqi(l.count(), 6); out.eqi(l.range(), r); uint32_t live[6] = {ix[0], ix[2], ix[4], a, b, c}; for (int i = 0; i < 6; ++i) for (int j = 0; j < i; ++j) out.eqb(live[i] == live[j], false);
    out.eq(l[a].v, I.t); out.eq(l[b].v, I.u); out.eq(l[c].v, I.v); out.eq(l[ix[2]].v, I.s + 2); }
LAW(fl_full, "free_list::remove insert", "slots freed in a full list are reused before it grows") {
    List l; uint32_t n = 0; do { l.insert(Elem{I.s, 0}); ++n; } while (n < l.range()); auto r = l.range(); l.remove(0); l.remove(n - 1); l.remove(n / 2); out.eqi(l.count(), n - 3);
    bool seen[3] = {}; for (int i = 0; i < 3; ++i) { auto k = l.insert(Elem{I.t, 0}); seen[0] |= k == 0; seen[1] |= k == n - 1; seen[2] |= k == n / 2; } out.eqb(seen[0] && seen[1] && seen[2], true); out.eqi(l.range(), r); out.eqi(l.count(), n); auto k = l.insert(Elem{I.u, 0}); out.eqi(k, n); out.eq(l[k].v, I.u); out.eqb(l.range() > r, true); }
LAW(fl_clear, "free_list::clear", "an emptied list counts nothing and hands out distinct slots again") {
    List l; l.clear(); out.eqi(l.count(), 0); auto z = l.insert(Elem{I.u, 0}); out.eq(l[z].v, I.u); for (int i = 0; i < 5; ++i) l.insert(Elem{I.s + i, 0}); l.remove(2); l.clear(); out.eqi(l.count(), 0); out.eqb(l.empty(), true); uint32_t ix[6]; auto r = l.range();
    for (int i = 0; i < 6; ++i) { ix[i] = l.insert(Elem{I.t + i, 0}); for (int j = 0; j < i; ++j) out.eqb(ix[i] == ix[j], false); } for (int i = 0; i < 6; ++i) out.eq(l[ix[i]].v, I.t + i); out.eqi(l.count(), 6); out.eqi(l.range(), r); }

LAW(fl_refill, "free_list::clear insert", "after being emptied every slot is handed out once before the list grows") {
    List l; for (int i = 0; i < 7; ++i) l.insert(Elem{I.s + i, 0}); l.remove(5); l.remove(1); l.clear(); auto r = l.range(); unsigned n = 0; bool seen[64] = {}; while (n < r && n < 64) { auto k = l.insert(Elem{I.t + n, 0}); out.eqb(k < r && !seen[k & 63], true); seen[k & 63] = true; ++n; } out.eqi(l.range(), r); out.eqi(l.count(), r); l.clear(); out.eqi(l.count(), 0); auto k = l.insert(Elem{I.u, 0}); out.eqb(k < r, true); out.eq(l[k].v, I.u); out.eqi(l.count(), 1); }

using Pair = unordered_pair<scalar>;
LAW(up_eq, "unordered_pair::operator==", "equal iff the same two values in either order") {
    Pair p{I.s, I.t}, q{I.u, I.v}; out.eqb(p == q, (I.s == I.u && I.t == I.v) || (I.s == I.v && I.t == I.u)); out.eqb(p == Pair{I.t, I.s}, true); out.eq(p[0], I.s); out.eq(p[1], I.t); out.eq(p.first, I.s); out.eq(p.second, I.t); }
LAW(up_order, "unordered_pair::operator<", "irreflexive, asymmetric and total up to equality") {
    Pair p{I.s, I.t}, q{I.u, I.v}; out.eqb(p < p, false); out.eqb(p < q && q < p, false); bool same = (I.s == I.u && I.t == I.v) || (I.s == I.v && I.t == I.u); out.eqb(p < q || q < p, !same); }
LAW(up_sym, "unordered_pair::operator<", "does not depend on the order of the elements") {
    Pair p{I.s, I.t}, p2{I.t, I.s}, q{I.u, I.v}, q2{I.v, I.u}; out.eqb(p < q, p2 < q); out.eqb(p < q, p < q2); out.eqb(p < p2 || p2 < p, false); }
LAW(up_trans, "unordered_pair::operator<", "transitive") { Pair p{I.s, I.t}, q{I.u, I.v}, r{I.a.x, I.a.y}; out.eqb(p < q && q < r && !(p < r), false); }

LAW(mix_restitution, "material_mix_restitution", "the smaller of the two") { out.eq(material_mix_restitution(I.s, I.t), I.s < I.t ? I.s : I.t); }
LAW(mix_friction, "material_mix_friction", "the geometric mean") { auto a = I.s * I.s, b = I.t * I.t; auto f = material_mix_friction(a, b); out.eq(f * f, a * b); out.eqb(f < 0, false); out.eq(material_mix_friction(I.u, I.v), material_mix_friction(I.v, I.u)); }
LAW(mix_spin, "material_mix_spin_friction material_mix_roll_friction", "the larger of the two") { out.eq(material_mix_spin_friction(I.s, I.t), I.s > I.t ? I.s : I.t); out.eq(material_mix_roll_friction(I.s, I.t), I.s > I.t ? I.s : I.t); }
LAW(mix_series, "material_mix_stiffness material_mix_damping", "springs and dampers in series") { auto a = I.s * I.s + 1, b = I.t * I.t + 1; out.eq(material_mix_stiffness(a, b) * (a + b), a * b); out.eq(material_mix_damping(a, b) * (a + b), a * b); }
static inline material_base Mat(scalar f) { material_base m; m.friction = f; return m; }
LAW(mixtab, "material_mix_table::insert contains get try_get", "a pair is found in either order, with the material it was given, whatever else the table holds") {
    material_mix_table t; static const unsigned k[6][2] = {{1, 5}, {3, 2}, {4, 0}, {2, 2}, {5, 0}, {3, 4}}; for (int i = 0; i < 6; ++i) t.insert({uint16_t(k[i][0]), uint16_t(k[i][1])}, Mat(I.s + i));
    for (unsigned a = 0; a < 6; ++a) for (unsigned b = 0; b < 6; ++b) { int at = -1; for (int i = 0; i < 6; ++i) if ((k[i][0] == a && k[i][1] == b) || (k[i][0] == b && k[i][1] == a)) at = i; material_mix_table::pair_type p{uint16_t(a), uint16_t(b)};
        out.eqb(t.contains(p), at >= 0); auto *m = t.try_get(p); out.eqb(m != nullptr, at >= 0); if (at >= 0) { out.eq(m->friction, I.s + at); out.eq(t.get(p).friction, I.s + at); } } }
LAW(mixtab_remove, "material_mix_table::remove insert", "the last material given to a pair wins; a removed pair is gone and only that pair") {
    material_mix_table t; t.insert({1, 2}, Mat(I.s)); t.insert({2, 3}, Mat(I.t)); t.insert({0, 9}, Mat(I.u)); t.insert({2, 1}, Mat(I.v)); out.eq(t.get({1, 2}).friction, I.v); out.eq(t.get({2, 1}).friction, I.v); t.remove({3, 2}); out.eqb(t.contains({2, 3}), false); out.eqb(t.contains({3, 2}), false); out.eqb(t.contains({1, 2}), true); out.eq(t.get({9, 0}).friction, I.u); t.remove({7, 7}); out.eqb(t.contains({0, 9}), true); t.remove({0, 9}); out.eqb(t.contains({0, 9}), false); out.eqb(t.contains({2, 1}), true); }

LAW(vu_contains, "vector_contains", "whether the value occurs") { std::vector<scalar> v{I.s, I.t, I.u}; out.eqb(vector_contains(v, I.v), I.v == I.s || I.v == I.t || I.v == I.u); v.clear(); out.eqb(vector_contains(v, I.v), false); }
LAW(vu_erase, "vector_erase", "removes every occurrence and keeps the order of the rest") { std::vector<int> v{1, 2, 3, 2, 4, 2}; vector_erase(v, 2); out.eqi(v.size(), 3); out.eqi(v[0], 1); out.eqi(v[1], 3); out.eqi(v[2], 4); vector_erase(v, 9); out.eqi(v.size(), 3); vector_erase(v, 1); out.eqi(v.size(), 2); out.eqi(v[0], 3); out.eqi(v[1], 4); }
LAW(arr_make, "make_array", "every element is the value") { auto a = make_array<5>(I.s); out.eqi(a.size(), 5); for (auto x : a) out.eq(x, I.s); }
struct Visit { scalar *r; void operator()(scalar &x) const { *r = x; } void operator()(const scalar &x) const { *r = x; } void operator()(const vector3 &x) const { *r = x.x; } void operator()(const int &x) const { *r = x; } };
LAW(tup_index, "index_of tuple_index_of tuple_type_index_of has_type", "position of a type in a pack") {
    using T = std::tuple<int, scalar, vector3, bool>; T t; out.eqi(tuple_index_of<unsigned, int>(t), 0); out.eqi(tuple_index_of<unsigned, scalar>(t), 1); out.eqi(tuple_index_of<unsigned, vector3>(t), 2); out.eqi(tuple_index_of<unsigned, bool>(t), 3); out.eqi((tuple_type_index_of<unsigned, vector3, T>::value), 2); out.eqi((index_of_v<unsigned, bool, int, bool>), 1);
    out.eqb((has_type<int, bool, int>::value), true); out.eqb((has_type<int, bool, scalar>::value), false); out.eqb((tuple_has_type<vector3, T>::value), true); out.eqb((tuple_has_type<vector2, T>::value), false); out.eqb((variant_has_type<int, std::variant<bool, int>>::value), true); out.eqb((variant_has_type<int, std::variant<bool>>::value), false); }
LAW(tup_visit, "visit_tuple", "visits the element with the index, by reference, constant or not") {
    using T = std::tuple<scalar, vector3, int>; T t{I.s, I.a, 3}; const T &c = t; scalar r = 0; Visit v{&r}; visit_tuple(t, 0, v); out.eq(r, I.s); visit_tuple(t, 1, v); out.eq(r, I.a.x); visit_tuple(t, 2, v); out.eq(r, 3); visit_tuple(c, 0u, v); out.eq(r, I.s); visit_tuple(c, 1u, v); out.eq(r, I.a.x); visit_tuple(c, 2u, v); out.eq(r, 3);
    std::tuple<scalar, scalar> w{I.s, I.t}; struct Set { scalar x; void operator()(scalar &y) const { y = x; } }; visit_tuple(w, 1, Set{I.u}); out.eq(std::get<0>(w), I.s); out.eq(std::get<1>(w), I.u); visit_tuple(w, 0, Set{I.v}); out.eq(std::get<0>(w), I.v); }

using Entry = action_history::entry;
static inline action_history Hist(std::initializer_list<double> ts) { action_history h; uint8_t n = 0; for (auto t : ts) { h.entries.emplace_back(t, n, std::vector<uint8_t>{uint8_t(n + 10), uint8_t(n + 20)}); ++n; } return h; }
LAW(ah_erase, "action_history::erase_until", "entries before the time are dropped, the rest kept in order") {
    static const double at[] = {0, 1, 1.5, 2, 4, 9}; static const unsigned left[] = {4, 4, 3, 3, 1, 0};
    for (int k = 0; k < 6; ++k) { auto h = Hist({1, 2, 3, 4}); h.erase_until(at[k]); out.eqi(h.entries.size(), left[k]); out.eqb(h.empty(), left[k] == 0); for (unsigned i = 0; i < left[k]; ++i) { unsigned o = 4 - left[k] + i; out.eq(h.entries[i].timestamp, o + 1.0); out.eqi(h.entries[i].action_index, o); out.eqi(h.entries[i].data.size(), 2); out.eqi(h.entries[i].data[0], o + 10); out.eqi(h.entries[i].data[1], o + 20); } } }
LAW(ah_merge, "action_history::merge", "only entries newer than the newest one seen are appended, even when the older ones have been consumed") {
    action_history h; h.merge(Hist({1, 2})); out.eqi(h.entries.size(), 2); out.eq(h.last_timestamp, 2); h.merge(Hist({1, 2, 3})); out.eqi(h.entries.size(), 3); out.eq(h.entries[2].timestamp, 3); out.eqi(h.entries[2].data[0], 12); h.erase_until(10); out.eqi(h.entries.size(), 0); h.merge(Hist({2, 3})); out.eqi(h.entries.size(), 0); out.eq(h.last_timestamp, 3); h.merge(Hist({2, 3, 5, 7})); out.eqi(h.entries.size(), 2); out.eq(h.entries[0].timestamp, 5); out.eq(h.entries[1].timestamp, 7); out.eq(h.last_timestamp, 7); h.merge(Hist({4})); out.eqi(h.entries.size(), 2); out.eq(h.last_timestamp, 7); }
LAW(ah_sort, "action_history::sort", "a permutation in order of time") { auto h = Hist({3, 1, 2}); h.sort(); static const unsigned ix[] = {1, 2, 0}; out.eqi(h.entries.size(), 3); for (int i = 0; i < 3; ++i) { out.eq(h.entries[i].timestamp, i + 1.0); out.eqi(h.entries[i].action_index, ix[i]); out.eqi(h.entries[i].data[0], ix[i] + 10); } }

// Static tree over fixed boxes.
static const scalar boxes[9][6] = {{0, 0, 0, 1, 1, 1}, {4, 0, 0, 5, 2, 1}, {2, 3, 0, 3, 4, 1}, {-3, 1, 2, -1, 2, 3}, {6, 6, 1, 7, 9, 2}, {1, -4, 0, 2, -3, 2}, {-2, -2, -2, 2, 2, 2}, {4, 0, 0, 5, 2, 1}, {8, 8, 8, 8, 8, 8}};
static inline AABB Box(int i) { return {{boxes[i][0], boxes[i][1], boxes[i][2]}, {boxes[i][3], boxes[i][4], boxes[i][5]}}; }
static inline bool Within(const AABB &a, const AABB &b) { return a.min.x >= b.min.x && a.min.y >= b.min.y && a.min.z >= b.min.z && a.max.x <= b.max.x && a.max.y <= b.max.y && a.max.z <= b.max.z; }
static inline bool Touch(const AABB &a, const AABB &b) { return a.min.x <= b.max.x && a.min.y <= b.max.y && a.min.z <= b.max.z && b.min.x <= a.max.x && b.min.y <= a.max.y && b.min.z <= a.max.z; }
struct Built { static_tree tree; std::vector<std::vector<uint32_t>> leaves; };
static inline __attribute__((always_inline)) void Build(Built &b, int n, unsigned per) { std::vector<AABB> v; for (int i = 0; i < n; ++i) v.push_back(Box(i)); auto leaf = [&](static_tree::tree_node &node, auto begin, auto end) { node.id = b.leaves.size(); b.leaves.push_back({}); for (auto it = begin; it != end; ++it) b.leaves.back().push_back(*it); }; b.tree.build(v.begin(), v.end(), leaf, per); }
static inline __attribute__((always_inline)) void Tree(Out &out, int n, unsigned per) {
    Built b; Build(b, n, per); out.eqb(b.tree.empty(), false); unsigned seen[9] = {}; std::vector<uint32_t> stack{0}; unsigned leaves = 0;
    while (!stack.empty()) { auto id = stack.back(); stack.pop_back(); auto &node = b.tree.get_node(id); out.eqb(Within(node.aabb, b.tree.root_aabb()), true);
        if (node.leaf()) { ++leaves; auto &l = b.leaves[node.id]; out.eqb(l.size() >= 1 && l.size() <= per, true); for (auto i : l) { ++seen[i]; out.eqb(Within(Box(i), node.aabb), true); } }
        else { for (auto c : {node.child1, node.child2}) { out.eqb(Within(b.tree.get_node(c).aabb, node.aabb), true); stack.push_back(c); } } }
    for (int i = 0; i < n; ++i) out.eqi(seen[i], 1); out.eqi(leaves, b.leaves.size()); AABB all = Box(0); for (int i = 1; i < n; ++i) { auto x = Box(i); for (int k = 0; k < 3; ++k) { if (x.min[k] < all.min[k]) all.min[k] = x.min[k]; if (x.max[k] > all.max[k]) all.max[k] = x.max[k]; } } out.eq(b.tree.root_aabb().min, all.min); out.eq(b.tree.root_aabb().max, all.max); b.tree.clear(); out.eqb(b.tree.empty(), true); }
LAW(st_build1, "static_tree::build", "a single box is the root") { Tree(out, 1, 1); }
LAW(st_build3, "static_tree::build aabb_set_partition", "every box lies in exactly one leaf, every node encloses its children, leaves respect the limit: three boxes") { Tree(out, 3, 1); }
LAW(st_build6, "static_tree::build aabb_set_partition", "the same for six boxes, up to two per leaf") { Tree(out, 6, 2); }
LAW(st_build9, "static_tree::build aabb_set_partition", "the same for nine boxes, with a duplicate and a point") { Tree(out, 9, 1); }
static inline __attribute__((always_inline)) void Query(Out &out, int n, unsigned per, const AABB &q) {
    Built b; Build(b, n, per); unsigned hit[9] = {}; b.tree.query(q, [&](auto id) { for (auto i : b.leaves[b.tree.get_node(id).id]) ++hit[i]; }); for (int i = 0; i < n; ++i) if (per == 1) out.eqi(hit[i], Touch(Box(i), q) ? 1 : 0); else { out.eqb(hit[i] <= 1, true); out.eqb(Touch(Box(i), q) && !hit[i], false); } }
LAW(st_query, "static_tree::query query_tree", "visits the leaves whose boxes touch the query, each once") {
    static const scalar q[6][6] = {{0.5, 0.5, 0.5, 4.5, 0.6, 0.6}, {1, 1, 1, 1, 1, 1}, {-9, -9, -9, 9, 9, 9}, {20, 20, 20, 21, 21, 21}, {5, 2, 1, 6, 6, 1}, {-1, 2, 3, 0, 3, 4}}; for (auto &x : q) { Query(out, 9, 1, {{x[0], x[1], x[2]}, {x[3], x[4], x[5]}}); Query(out, 8, 3, {{x[0], x[1], x[2]}, {x[3], x[4], x[5]}}); } }
LAW(st_query1, "static_tree::query query_tree intersect", "one box, any query") { Query(out, 1, 1, {I.a, I.b}); }
LAW(st_raycast, "static_tree::raycast raycast_tree intersect_segment_aabb", "visits the leaves whose boxes the segment crosses") {
    Built b; Build(b, 6, 1); static const scalar r[4][6] = {{-5, 0.5, 0.5, 9, 0.5, 0.5}, {2.5, 9, 0.5, 2.5, 3.5, 0.5}, {-2, 1.5, 9, -2, 1.5, 3.5}, {1.5, -9, 1, 1.5, 9, 1}}; static const unsigned want[4] = {0b11, 0b100, 0, 0b100000};
    for (int k = 0; k < 4; ++k) { unsigned m = 0; b.tree.raycast({r[k][0], r[k][1], r[k][2]}, {r[k][3], r[k][4], r[k][5]}, [&](auto id) { for (auto i : b.leaves[b.tree.get_node(id).id]) m |= 1u << i; }); out.eqi(m, want[k]); } }
