// The graph of bodies, driven by fixed histories.
#include "law.hpp"
#include <vector>
#include <entt/entity/registry.hpp>
#include "edyn/core/entity_graph.hpp"
#include "/repo/src/edyn/core/entity_graph.cpp"
using namespace edyn;
using namespace law;

// ---- graph -------------------------------------------------------------------------------------------------------
// The oracle: a list of nodes and a list of edges.
constexpr unsigned NN = 8, NE = 12;
static inline entt::entity NodeE(unsigned i) { return entt::entity(100 + i); }
static inline entt::entity EdgeE(unsigned i) { return entt::entity(200 + i); }
struct World {
    entity_graph g; bool node[NN] = {}, conn[NN] = {}, edge[NE] = {}; unsigned e0[NE] = {}, e1[NE] = {}; size_t ni[NN] = {}, ei[NE] = {};
    void N(unsigned i, bool c = true) { ni[i] = g.insert_node(NodeE(i), !c); node[i] = true; conn[i] = c; }
    void E(unsigned i, unsigned a, unsigned b) { ei[i] = g.insert_edge(EdgeE(i), ni[a], ni[b]); edge[i] = true; e0[i] = a; e1[i] = b; }
    void RE(unsigned i) { g.remove_edge(ei[i]); edge[i] = false; }
    void RA(unsigned n) { g.remove_all_edges(ni[n]); for (unsigned i = 0; i < NE; ++i) if (edge[i] && (e0[i] == n || e1[i] == n)) edge[i] = false; }
    void RN(unsigned n) { g.remove_node(ni[n]); node[n] = false; }
    void Set(unsigned n, bool c) { g.set_connecting_node(ni[n], c); conn[n] = c; }
    void Clear() { g.clear(); for (auto &x : node) x = false; for (auto &x : edge) x = false; }
    bool Joins(unsigned i, unsigned a, unsigned b) const { return edge[i] && ((e0[i] == a && e1[i] == b) || (e0[i] == b && e1[i] == a)); }
    bool Adj(unsigned a, unsigned b) const { for (unsigned i = 0; i < NE; ++i) if (Joins(i, a, b)) return true; return false; }
    unsigned At(size_t n) const { for (unsigned i = 0; i < NN; ++i) if (node[i] && ni[i] == n) return i; return 99; }
    unsigned EdgeAt(size_t n) const { for (unsigned i = 0; i < NE; ++i) if (edge[i] && ei[i] == n) return i; return 99; }
    // Bodies reached from a connecting one without walking through a non-connecting one.
    unsigned Reach(unsigned from) const { unsigned m = 1u << from; bool more = true; while (more) { more = false; for (unsigned i = 0; i < NE; ++i) if (edge[i]) for (int k = 0; k < 2; ++k) { unsigned a = k ? e1[i] : e0[i], b = k ? e0[i] : e1[i]; if ((m >> a & 1) && conn[a] && !(m >> b & 1)) { m |= 1u << b; more = true; } } } return m; }
    unsigned EdgesOf(unsigned m) const { unsigned r = 0; for (unsigned i = 0; i < NE; ++i) if (edge[i] && (((m >> e0[i] & 1) && conn[e0[i]]) || ((m >> e1[i] & 1) && conn[e1[i]]))) r |= 1u << i; return r; }
};
#define ALWAYS static inline __attribute__((always_inline))
#define NOINL static __attribute__((noinline))
// Adjacency as seen from every node.
NOINL void Local(Out &out, const World &w) {
    unsigned n = 0, m = 0; for (auto x : w.node) n += x; for (auto x : w.edge) m += x; out.eqi(w.g.num_nodes(), n); out.eqi(w.g.num_edges(), m);
    for (unsigned i = 0; i < NE; ++i) if (w.edge[i]) { out.eqb(w.g.edge_entity(w.ei[i]) == EdgeE(i), true); auto ix = w.g.edge_node_indices(w.ei[i]); out.eqi(ix[0], w.ni[w.e0[i]]); out.eqi(ix[1], w.ni[w.e1[i]]); auto p = w.g.edge_node_entities(w.ei[i]); out.eqb(p.first == NodeE(w.e0[i]) && p.second == NodeE(w.e1[i]), true); for (unsigned j = 0; j < i; ++j) if (w.edge[j]) out.eqb(w.ei[i] == w.ei[j], false); }
    for (unsigned a = 0; a < NN; ++a) if (w.node[a]) { out.eqb(w.g.node_entity(w.ni[a]) == NodeE(a), true); out.eqb(w.g.is_connecting_node(w.ni[a]), w.conn[a]); for (unsigned b = 0; b < a; ++b) if (w.node[b]) out.eqb(w.ni[a] == w.ni[b], false);
        unsigned near[NN] = {}, all[NE] = {}; w.g.visit_neighbors(w.ni[a], [&](entt::entity e) { ++near[unsigned(e) - 100]; }); w.g.visit_edges(w.ni[a], [&](size_t i) { ++all[w.EdgeAt(i)]; });
        for (unsigned i = 0; i < NE; ++i) out.eqi(all[i], w.edge[i] && (w.e0[i] == a || w.e1[i] == a) ? 1 : 0);
        for (unsigned b = 0; b < NN; ++b) if (w.node[b]) { bool adj = w.Adj(a, b); out.eqi(near[b], adj ? 1 : 0); out.eqb(w.g.has_adjacency(w.ni[a], w.ni[b]), adj); unsigned between[NE] = {}; w.g.visit_edges(w.ni[a], w.ni[b], [&](size_t i) { ++between[w.EdgeAt(i)]; }); for (unsigned i = 0; i < NE; ++i) out.eqi(between[i], w.Joins(i, a, b) ? 1 : 0); } } }
// Components of the whole graph.
NOINL void Global(Out &out, const World &w) {
    unsigned groups[NN], edges[NN], n = 0, seen = 0; for (unsigned i = 0; i < NN; ++i) if (w.node[i] && w.conn[i] && !(seen >> i & 1)) { groups[n] = w.Reach(i); edges[n] = w.EdgesOf(groups[n]); for (unsigned j = 0; j < NN; ++j) if ((groups[n] >> j & 1) && w.conn[j]) seen |= 1u << j; ++n; }
    auto cc = w.g.connected_components(); out.eqi(cc.size(), n); unsigned found = 0;
    for (auto &c : cc) { unsigned m = 0, em = 0; for (auto e : c.nodes) { out.eqb(m >> (unsigned(e) - 100) & 1, false); m |= 1u << (unsigned(e) - 100); } for (auto e : c.edges) { out.eqb(em >> (unsigned(e) - 200) & 1, false); em |= 1u << (unsigned(e) - 200); } for (unsigned k = 0; k < n; ++k) if (groups[k] == m && edges[k] == em) found |= 1u << k; }
    out.eqi(found, (1u << n) - 1); out.eqb(w.g.is_single_connected_component(), n <= 1); }
NOINL void Walk(Out &out, const World &w) {
    for (unsigned a = 0; a < NN; ++a) if (w.node[a]) { unsigned m = 0, em = 0, twice = 0; w.g.traverse(w.ni[a], [&](size_t i) { auto k = w.At(i); twice |= m >> k & 1; m |= 1u << k; }, [&](size_t i) { auto k = w.EdgeAt(i); twice |= em >> k & 1; em |= 1u << k; }); auto r = w.Reach(a); out.eqi(m, r); out.eqi(twice, 0); out.eqi(em, w.EdgesOf(r));
        unsigned m2 = 0; w.g.traverse(w.ni[a], [&](size_t i) { m2 |= 1u << w.At(i); }); out.eqi(m2, r); } }
ALWAYS void All(Out &out, const World &w) { Local(out, w); Global(out, w); Walk(out, w); }

LAW(g_one, "entity_graph", "a single node is a component of its own") { World w; w.N(0); All(out, w); }
LAW(g_path, "entity_graph::insert_edge", "a path of four bodies is one component; its edges and neighbours are those inserted") { World w; for (int i = 0; i < 4; ++i) w.N(i); w.E(0, 0, 1); w.E(1, 2, 1); w.E(2, 2, 3); All(out, w); }
LAW(g_multi, "entity_graph::insert_edge", "several edges between the same bodies, inserted in both directions") { World w; for (int i = 0; i < 3; ++i) w.N(i); w.E(0, 0, 1); w.E(1, 1, 0); w.E(2, 1, 2); w.E(3, 0, 1); w.E(4, 2, 1); All(out, w); }
LAW(g_cycle, "entity_graph", "a cycle with a chord") { World w; for (int i = 0; i < 4; ++i) w.N(i); w.E(0, 0, 1); w.E(1, 1, 2); w.E(2, 2, 3); w.E(3, 3, 0); w.E(4, 0, 2); All(out, w); }
LAW(g_split, "entity_graph::connected_components", "separate groups are separate components") { World w; for (int i = 0; i < 6; ++i) w.N(i); w.E(0, 4, 0); w.E(1, 1, 3); w.E(2, 3, 5); All(out, w); }
LAW(g_static, "entity_graph::connected_components", "a body that does not connect belongs to every group that touches it and joins none") { World w; for (int i = 0; i < 5; ++i) w.N(i, i != 2); w.E(0, 0, 2); w.E(1, 2, 1); w.E(2, 3, 4); w.E(3, 4, 2); w.E(4, 2, 3); All(out, w); }
LAW(g_static2, "entity_graph::connected_components", "two bodies that do not connect, shared, with an edge between them and groups") { World w; w.N(0, false); for (int i = 1; i < 6; ++i) w.N(i, i != 4); w.E(0, 1, 0); w.E(1, 2, 0); w.E(2, 2, 4); w.E(3, 3, 4); w.E(4, 5, 3); w.E(5, 1, 4); All(out, w); }
LAW(g_toggle, "entity_graph::set_connecting_node", "a body may stop connecting and connect again") { World w; for (int i = 0; i < 4; ++i) w.N(i); w.E(0, 0, 1); w.E(1, 1, 2); w.E(2, 2, 3); w.Set(1, false); All(out, w); w.Set(1, true); w.Set(2, false); All(out, w); }
template<int order> ALWAYS void RemoveEach(Out &out) { static const unsigned o[6][3] = {{0, 1, 2}, {2, 1, 0}, {1, 0, 2}, {1, 2, 0}, {0, 2, 1}, {2, 0, 1}};
    World w; for (int i = 0; i < 3; ++i) w.N(i); w.E(3, 1, 2); w.E(0, 0, 1); w.E(1, 1, 0); w.E(2, 0, 1); w.E(4, 0, 2); for (int k = 0; k < 3; ++k) { w.RE(o[order][k]); Local(out, w); Global(out, w); } w.RE(4); Local(out, w); w.RE(3); Local(out, w); Global(out, w); }
LAW(g_re0, "entity_graph::remove_edge", "removing edges between the same bodies, oldest first, keeps the others") { RemoveEach<0>(out); }
LAW(g_re1, "entity_graph::remove_edge", "the same, newest first") { RemoveEach<1>(out); }
LAW(g_re2, "entity_graph::remove_edge", "the same, middle first") { RemoveEach<2>(out); }
LAW(g_re3, "entity_graph::remove_edge", "the same, middle then newest") { RemoveEach<3>(out); }
LAW(g_re4, "entity_graph::remove_edge", "the same, oldest then newest") { RemoveEach<4>(out); }
LAW(g_re5, "entity_graph::remove_edge", "the same, newest then oldest") { RemoveEach<5>(out); }
LAW(g_reuse, "entity_graph::remove_edge insert_edge", "freed edges are used again between other bodies") { World w; for (int i = 0; i < 4; ++i) w.N(i); w.E(0, 0, 1); w.E(1, 0, 2); w.E(2, 0, 3); w.RE(1); w.E(3, 3, 1); w.E(4, 2, 3); Local(out, w); w.RE(0); w.RE(2); w.E(5, 0, 1); w.E(6, 1, 0); All(out, w); }
LAW(g_adj_mid, "entity_graph::remove_edge remove_adjacency", "losing a neighbour, whichever, keeps the other neighbours") { for (unsigned k = 0; k < 3; ++k) { World w; for (int i = 0; i < 4; ++i) w.N(i); w.E(0, 0, 1); w.E(1, 0, 2); w.E(2, 3, 0); w.RE(k); Local(out, w); } }
LAW(g_ra, "entity_graph::remove_all_edges", "a body loses all its edges, the others none") { for (unsigned n = 0; n < 4; ++n) { World w; for (int i = 0; i < 4; ++i) w.N(i); w.E(0, 0, 1); w.E(1, 1, 2); w.E(2, 2, 0); w.E(3, 0, 1); w.E(4, 3, 1); w.E(5, 3, 0); w.E(6, 1, 3); w.RA(n); Local(out, w); Global(out, w); w.RN(n); Local(out, w); Global(out, w); } }
LAW(g_again, "entity_graph::remove_node insert_node", "a body inserted after another was removed has no edges of it") { World w; for (int i = 0; i < 4; ++i) w.N(i); w.E(0, 0, 1); w.E(1, 1, 2); w.E(2, 2, 3); w.RA(1); w.RN(1); w.N(4); w.N(5, false); All(out, w); w.E(3, 4, 5); w.E(4, 5, 0); w.E(5, 4, 3); All(out, w); }
LAW(g_loop, "entity_graph::insert_edge", "an edge of a body to itself, once or twice, and its removal") { World w; w.N(0); w.N(1); w.E(0, 0, 0); w.E(1, 0, 1); Local(out, w); w.E(2, 0, 0); Local(out, w); w.RE(0); Local(out, w); w.RE(2); All(out, w); }
LAW(g_clear, "entity_graph::clear", "an emptied graph holds nothing of what it held") { World w; for (int i = 0; i < 4; ++i) w.N(i); w.E(0, 0, 1); w.E(1, 1, 2); w.E(2, 2, 3); w.Clear(); out.eqi(w.g.num_nodes(), 0); out.eqi(w.g.num_edges(), 0); w.N(5); w.N(6); All(out, w); w.E(3, 5, 6); All(out, w); }
LAW(g_many, "entity_graph", "eight bodies, twelve edges") { World w; for (int i = 0; i < 8; ++i) w.N(i, i != 7); static const unsigned e[12][2] = {{0, 1}, {1, 2}, {2, 0}, {3, 7}, {7, 4}, {4, 3}, {5, 7}, {0, 7}, {6, 5}, {5, 6}, {2, 7}, {6, 7}}; for (int i = 0; i < 12; ++i) w.E(i, e[i][0], e[i][1]); All(out, w); }
// Groups reached from given bodies.
LAW(g_reach, "entity_graph::reach", "each group is visited once, whole, with its edges once") {
    World w; for (int i = 0; i < 7; ++i) w.N(i, i != 2); w.E(0, 0, 2); w.E(1, 2, 1); w.E(2, 3, 4); w.E(3, 4, 2); w.E(4, 1, 5); w.E(5, 0, 5); std::vector<size_t> from{w.ni[0], w.ni[1], w.ni[4]}; unsigned m = 0, em = 0, n = 0; unsigned got[4] = {}, gote[4] = {};
    w.g.reach(from.begin(), from.end(), [&](entt::entity e) { out.eqb(m >> (unsigned(e) - 100) & 1, false); m |= 1u << (unsigned(e) - 100); }, [&](entt::entity e) { out.eqb(em >> (unsigned(e) - 200) & 1, false); em |= 1u << (unsigned(e) - 200); }, [](size_t) { return true; }, [&] { got[n & 3] = m; gote[n & 3] = em; m = 0; em = 0; ++n; });
    out.eqi(n, 2); out.eqi(got[0], w.Reach(0)); out.eqi(got[1], w.Reach(4)); out.eqi(gote[0], w.EdgesOf(w.Reach(0))); out.eqi(gote[1], w.EdgesOf(w.Reach(4))); out.eqi(m, 0); }
LAW(g_reach_should, "entity_graph::reach", "bodies that should not be visited are neither visited nor walked through") {
    World w; for (int i = 0; i < 5; ++i) w.N(i); w.E(0, 0, 1); w.E(1, 1, 2); w.E(2, 2, 3); w.E(3, 3, 4); std::vector<size_t> from{w.ni[2], w.ni[0], w.ni[4]}; unsigned m = 0, em = 0, n = 0; unsigned got[4] = {};
    w.g.reach(from.begin(), from.end(), [&](entt::entity e) { m |= 1u << (unsigned(e) - 100); }, [&](entt::entity e) { em |= 1u << (unsigned(e) - 200); }, [&](size_t i) { return i != w.ni[2] && i != w.ni[1]; }, [&] { got[n & 3] = m; m = 0; ++n; });
    out.eqi(n, 2); out.eqi(got[0], 1); out.eqi(got[1], 0b11000); out.eqi(em, 0b1101); }
LAW(g_abort, "entity_graph::visit_edges visit_neighbors", "a visitor that answers false ends the visit") {
    World w; for (int i = 0; i < 4; ++i) w.N(i); w.E(0, 0, 1); w.E(1, 0, 1); w.E(2, 0, 2); w.E(3, 0, 3); unsigned n = 0; w.g.visit_edges(w.ni[0], [&](size_t) -> bool { return ++n < 2; }); out.eqi(n, 2); n = 0; w.g.visit_edges(w.ni[0], w.ni[1], [&](size_t) -> bool { ++n; return false; }); out.eqi(n, 1); n = 0; w.g.visit_neighbors(w.ni[0], [&](entt::entity) -> bool { return ++n < 2; }); out.eqi(n, 2); }
LAW(g_visit_remove, "entity_graph::visit_edges", "edges may be removed while all edges of a body are visited") {
    World w; for (int i = 0; i < 4; ++i) w.N(i); w.E(0, 0, 1); w.E(1, 0, 1); w.E(2, 0, 2); w.E(3, 3, 0); w.E(4, 1, 2); w.g.visit_edges(w.ni[0], [&](size_t i) { w.RE(w.EdgeAt(i)); }); All(out, w); }
