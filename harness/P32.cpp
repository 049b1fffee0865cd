// P32: layer graph
#include "sym.h"
#include "all_dnn.inc"
//@ bound every subset of the connections among 3 layers, self connections included, with a loss on any one of them; every forward-only graph of 5 layers with 1 loss (thorough: 2); histories of 2..4 (quick) / 3..4 (thorough) operations from three starting graphs over every way of adding layers, losses and connections, observed after each one; copies taken and assigned at any point of a history and then extended on either side
//@ assume a loss is connected through a loss connection (a parameter of loss type); a layer connected to it as an ordinary layer is outside
//@ H_subsets t=150 T=800
//@ H_dag t=150 T=800
//@ H_history t=200 T=850 j=6
//@ H_copies t=150 T=800
using namespace EdgeLearning; using L = std::shared_ptr<Layer>; using Loss = std::shared_ptr<LossLayer>; using Set = std::set<size_t>; using A = std::pair<size_t, size_t>;
struct Ref { std::vector<L> l; std::vector<size_t> loss; std::set<A> fwd, trn, bwd;
  size_t at(const Layer* x) const { for (size_t i = 0; i < l.size(); i++) if (l[i].get() == x) return i; return 99; } bool isLoss(size_t i) const { for (size_t k : loss) if (k == i) return true; return false; } };
static Set succ(const std::set<A>& e, size_t i) { Set s; for (auto& a : e) if (a.first == i) s.insert(a.second); return s; }
static Set pred(const std::set<A>& e, size_t i) { Set s; for (auto& a : e) if (a.second == i) s.insert(a.first); return s; }
static void same(const std::vector<size_t>& a, const std::vector<size_t>& b, const char* m) { ls_check(a == b, m); }
static void runs(const DLGraph& g, const Ref& r, const std::vector<DLGraph::Arc>& run, const std::set<A>& e, const std::vector<size_t>& from, const char* m) { std::set<size_t> reach(from.begin(), from.end()); for (bool more = true; more;) { more = false; for (auto& a : e) if (reach.count(a.first) && reach.insert(a.second).second) more = true; } std::set<A> want, got; for (auto& a : e) if (reach.count(a.first)) want.insert(a); std::set<size_t> ready(from.begin(), from.end()); for (auto& a : run) { A x{r.at(a.from.get()), r.at(a.to.get())}; ls_check(got.insert(x).second, "a connection is run once only"); ls_check(ready.count(x.first) != 0, "a layer's connections run after the one that reached it"); ready.insert(x.second); } ls_check(got == want, m); }
static void check(DLGraph& g, const Ref& r) { size_t n = r.l.size(); ls_check(g.size() == n && g.layers() == r.l, "layers"); std::vector<size_t> all, nl, in, out; for (size_t i = 0; i < n; i++) { all.push_back(i); if (!r.isLoss(i)) { nl.push_back(i); if (pred(r.fwd, i).empty()) in.push_back(i); if (succ(r.fwd, i).empty()) out.push_back(i); } ls_check(g.layer(i) == r.l[i] && g[i] == r.l[i] && g.index_of(*r.l[i]) == (int64_t)i, "layer by index");
    ls_check(g.forward(i) == succ(r.fwd, i) && g.has_forward(i) == !succ(r.fwd, i).empty(), "forward successors"); ls_check(g.forward_predecessors(i) == pred(r.fwd, i) && g.has_forward_predecessors(i) == !pred(r.fwd, i).empty(), "forward predecessors");
    ls_check(g.training_forward(i) == succ(r.trn, i) && g.has_training_forward(i) == !succ(r.trn, i).empty(), "training successors"); ls_check(g.training_forward_predecessors(i) == pred(r.trn, i) && g.has_training_forward_predecessors(i) == !pred(r.trn, i).empty(), "training predecessors");
    ls_check(g.backward(i) == succ(r.bwd, i) && g.has_backward(i) == !succ(r.bwd, i).empty(), "backward successors"); ls_check(g.backward_predecessors(i) == pred(r.bwd, i) && g.has_backward_predecessors(i) == !pred(r.bwd, i).empty(), "backward predecessors"); }
  auto mat = [&](const std::vector<int64_t>& m, const std::set<A>& e) { bool ok = m.size() == n * n; for (size_t i = 0; ok && i < n; i++) for (size_t j = 0; j < n; j++) ok = ok && m[i * n + j] == (e.count({i, j}) ? 1 : 0); ls_check(ok, "adjacency matrix"); }; mat(g.forward_adjacent_matrix(), r.fwd); mat(g.training_forward_adjacent_matrix(), r.trn); mat(g.backward_adjacent_matrix(), r.bwd);
  same(g.layers_idx(), all, "layer indices"); same(g.training_forward_layers_idx(), all, "training layers"); same(g.backward_layers_idx(), all, "backward layers"); same(g.forward_layers_idx(), nl, "forward layers"); same(g.loss_layers_idx(), r.loss, "loss layers"); same(g.input_layers_idx(), in, "input layers"); same(g.output_layers_idx(), out, "output layers");
  auto lay = [&](const std::vector<L>& v, const std::vector<size_t>& ix) { bool ok = v.size() == ix.size(); for (size_t i = 0; ok && i < ix.size(); i++) ok = v[i] == r.l[ix[i]]; ls_check(ok, "layers of a kind"); }; lay(g.input_layers(), in); lay(g.output_layers(), out); lay(g.forward_layers(), nl); lay(g.training_forward_layers(), all); lay(g.backward_layers(), all); auto ll = g.loss_layers(); ls_check(ll.size() == r.loss.size(), "loss layers"); for (size_t i = 0; i < ll.size(); i++) ls_check(L(ll[i]) == r.l[r.loss[i]], "loss layer");
  runs(g, r, g.training_forward_run(), r.trn, in, "a training run covers what the inputs reach"); runs(g, r, g.forward_run(), r.fwd, in, "a prediction run covers what the inputs reach"); runs(g, r, g.backward_run(), r.bwd, r.loss, "a backward run covers what the losses reach"); for (auto& a : g.forward_run()) ls_check(!r.isLoss(r.at(a.to.get())), "a prediction run enters no loss"); }
static std::string nm(const char* p, size_t i) { return std::string(p) + (char)('0' + i); }
static L node(DLGraph& g, Ref& r) { L x = std::make_shared<LinearLayer>(nm("n", r.l.size()), 1); g.add_node(x); r.l.push_back(x); return x; }
static Loss loss(DLGraph& g, Ref& r) { Loss x = std::make_shared<MeanSquaredLossLayer>(nm("l", r.l.size()), 1); g.add_loss(x); r.loss.push_back(r.l.size()); r.l.push_back(x); return x; }
static void link(Ref& r, size_t i, size_t j, bool f, bool b) { if (f) { r.trn.insert({i, j}); if (!r.isLoss(j)) r.fwd.insert({i, j}); } if (b) r.bwd.insert({j, i}); }
static void edge(DLGraph& g, Ref& r, size_t i, size_t j) { if (r.isLoss(j)) g.add_edge(r.l[i], std::dynamic_pointer_cast<LossLayer>(r.l[j])); else g.add_edge(r.l[i], r.l[j]); link(r, i, j, true, true); }
ENTRY(subsets) { DLGraph g; Ref r; for (size_t i = 0; i < 3; i++) node(g, r); size_t on = sym::pick("loss", 0, 3); if (on < 3) loss(g, r); for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) if (sym::flag("arc")) edge(g, r, i, j); if (on < 3) edge(g, r, on, 3); check(g, r); ls_reach("end"); }
ENTRY(dag) { DLGraph g; Ref r; size_t n = 5; size_t first = sym::pick("early", 0, 1); if (first) loss(g, r); for (size_t i = 0; i < n; i++) node(g, r); if (TIER(0, 1) || !first) loss(g, r); size_t o = first; for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) if (sym::flag("arc")) edge(g, r, o + i, o + j); for (size_t k : r.loss) { size_t s = k == 0 ? n - 1 : sym::pick("from", n - 2, n - 1); edge(g, r, o + s, k); } check(g, r); ls_reach("end"); }
static void op(DLGraph& g, Ref& r) { size_t k = sym::pick("op", 0, 8), n = r.l.size(); if (k == 0) { node(g, r); return; } if (k == 1) { if (r.loss.size() < 2) loss(g, r); else ls_kill(); return; } if (n < 2) ls_kill(); size_t i = sym::pick("i", 0, n - 1), j = sym::pick("j", 0, n - 1); if (r.isLoss(i)) ls_kill(); bool lj = r.isLoss(j); Loss to = std::dynamic_pointer_cast<LossLayer>(r.l[j]); size_t z = 0; while (z < n && (r.isLoss(z) || z == j)) z++;
  switch (k) { case 2: edge(g, r, i, j); break;
    case 3: if (lj) g.add_arc_forward(r.l[i], to); else g.add_arc_forward(r.l[i], r.l[j]); link(r, i, j, true, false); break;
    case 4: g.add_arc_backward(r.l[j], r.l[i]); link(r, i, j, false, true); break;
    case 5: { if (z >= n) ls_kill(); std::vector<L> f{r.l[i], r.l[z]}; if (lj) g.add_edge(f, to); else g.add_edge(f, r.l[j]); link(r, i, j, true, true); link(r, z, j, true, true); break; }
    case 6: { if (lj || z >= n) ls_kill(); g.add_edge(r.l[i], std::vector<L>{r.l[j], r.l[z]}); link(r, i, j, true, true); link(r, i, z, true, true); break; }
    case 7: { if (z >= n) ls_kill(); std::vector<L> f{r.l[i], r.l[z]}; if (lj) g.add_arc_forward(f, to); else g.add_arc_forward(f, r.l[j]); link(r, i, j, true, false); link(r, z, j, true, false); break; }
    case 8: { if (lj || z >= n) ls_kill(); if (sym::flag("many")) { g.add_arc_forward(r.l[i], std::vector<L>{r.l[j], r.l[z]}); link(r, i, j, true, false); link(r, i, z, true, false); } else { g.add_arc_backward(r.l[j], std::vector<L>{r.l[i], r.l[z]}); link(r, i, j, false, true); link(r, z, j, false, true); } break; } } }
ENTRY(history) { DLGraph g; Ref r; check(g, r); size_t start = sym::pick("start", 0, 2); if (start) { node(g, r); node(g, r); } if (start > 1) { node(g, r); loss(g, r); } if (start > 1) { edge(g, r, 0, 1); } check(g, r); size_t n = start ? TIER(2, 3) : TIER(4, 4); for (size_t s = 0; s < n; s++) { op(g, r); check(g, r); } ls_reach("end"); }
// adding something twice changes nothing; connecting a layer that was not added is an error and changes nothing
ENTRY(twice) { DLGraph g; Ref r; node(g, r); Loss l = loss(g, r); node(g, r); Loss m = loss(g, r); edge(g, r, 0, 2); edge(g, r, 2, 1); size_t k = sym::pick("what", 0, 6); L stray = std::make_shared<LinearLayer>("s", 1); Loss sl = std::make_shared<MeanSquaredLossLayer>("t", 1); bool bad = false; switch (k) { case 0: g.add_node(r.l[sym::pick("which", 0, 3)]); break; case 1: g.add_loss(sym::flag("first") ? l : m); break; case 2: edge(g, r, 0, 2); break; case 3: bad = sym::throws_as<std::runtime_error>([&] { g.add_edge(stray, r.l[0]); }); break; case 4: bad = sym::throws_as<std::runtime_error>([&] { g.add_edge(r.l[0], stray); }); break; case 5: bad = sym::throws_as<std::runtime_error>([&] { g.add_arc_backward(r.l[0], stray); }); break; case 6: bad = sym::throws_as<std::runtime_error>([&] { g.add_edge(r.l[0], sl); }); break; } ls_check(bad == (k > 2), "a layer that was not added is refused"); check(g, r); ls_reach("end"); }
static Ref copied(DLGraph& c, const Ref& r) { Ref q = r; ls_check(c.size() == r.l.size(), "copied layers"); q.l = c.layers(); for (size_t i = 0; i < q.l.size(); i++) { ls_check(q.l[i] != r.l[i], "a copy has layers of its own"); ls_check(q.l[i]->type() == r.l[i]->type() && q.l[i]->name() == r.l[i]->name(), "a copied layer is of the same kind and name"); } return q; }
static void grow(DLGraph& g, Ref& r) { size_t k = sym::pick("grow", 0, 2); if (k == 0) { node(g, r); } else if (k == 1) { size_t n = r.l.size(); node(g, r); edge(g, r, 1, n); } else edge(g, r, 1, 0); check(g, r); }
ENTRY(copies) { DLGraph g; Ref r; node(g, r); node(g, r); size_t k = sym::pick("graph", 0, 4); if (k > 0) edge(g, r, 0, 1); if (k > 1) loss(g, r); if (k > 2) edge(g, r, 1, 2); if (k > 3) node(g, r); DLGraph d; Ref rd; bool assign = sym::flag("assign"); if (assign) { if (sym::flag("old")) { node(d, rd); node(d, rd); node(d, rd); loss(d, rd); edge(d, rd, 0, 1); edge(d, rd, 2, 3); } d = g; Ref q = copied(d, r); check(d, q); check(g, r); size_t s = sym::pick("side", 0, 2); if (s != 1) { grow(d, q); check(g, r); } if (s != 0) { grow(g, r); check(d, q); } g = *&g; check(g, r); }
  else { DLGraph c(g); Ref q = copied(c, r); check(c, q); check(g, r); size_t s = sym::pick("side", 0, 2); if (s != 1) { grow(c, q); check(g, r); } if (s != 0) { grow(g, r); check(c, q); } } ls_reach("end"); }
