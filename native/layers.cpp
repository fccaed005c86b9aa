// Bounded: connectivity extraction and property merge of octilinear (-DOCT) and general layers (C18).
#define NO_MAIN
#include "sets.cpp"
struct Lay { int v; Lay(int a = 0) : v(a) {} };   // a property type that can only be compared
static bool operator<(const Lay& a, const Lay& b) { return a.v < b.v; } static bool operator>(const Lay& a, const Lay& b) { return a.v > b.v; } static bool operator<=(const Lay& a, const Lay& b) { return a.v <= b.v; } static bool operator==(const Lay& a, const Lay& b) { return a.v == b.v; } static bool operator!=(const Lay& a, const Lay& b) { return a.v != b.v; }
typedef std::map<std::set<Lay>, PS> Merged;
#ifdef OCT
typedef connectivity_extraction_45<int> CE; typedef property_merge_45<int, Lay> PM;
#else
typedef connectivity_extraction<int> CE; typedef property_merge<int, Lay> PM;
#endif
static bool touch(const Src& a, const Src& b) {
  std::vector<Src*> va(1, (Src*)&a), vb(1, (Src*)&b); std::vector<std::pair<P, P> > e, f; all_edges(va, e); all_edges(vb, f);
  for (size_t i = 0; i < e.size(); ++i) for (size_t j = 0; j < f.size(); ++j) if (meets(e[i].first, e[i].second, f[j].first, f[j].second)) return true;
  bool on = false; for (size_t i = 0; i < e.size(); ++i) if (count_at(e[i].first, b, on)) return true; for (size_t j = 0; j < f.size(); ++j) if (count_at(f[j].first, a, on)) return true; return false;
}
static void layer_case() {
  std::vector<Src> v; int n; slack = 0;
  for (;;) {
    range = (int)bnd.in(2, 7); n = (int)bnd.in(0, 4); v.assign(n, Src()); for (int i = 0; i < n; ++i) v[i] = make((int)bnd.in(0, 2));
#ifdef OCT
    i64 m = bnd.in(0, 4) ? 1 : bnd.in(2, 5000000); for (int i = 0; i < n; ++i) rescale(v[i], m);
#else
    std::vector<Src*> q; for (int i = 0; i < n; ++i) q.push_back(&v[i]); i64 L = crossing_lcm(q, 1 << 16); if (!L || L * 60 > LIMIT) continue; for (int i = 0; i < n; ++i) rescale(v[i], L);
    double c = clearance(q); i64 f = c < 1.5 ? (i64)(1.5 / c) + 1 : 1; if (bnd.in(0, 1)) f *= bnd.in(2, 9); if (L * f * 60 > LIMIT) continue; for (int i = 0; i < n; ++i) rescale(v[i], f);
#endif
    break;
  }
  text.clear(); for (int i = 0; i < n; ++i) text += (i ? " | " : "") + S(v[i]); bnd_case(text); bnd.sample(text); bnd.count(n > 1);
  { CE c; for (int i = 0; i < n; ++i) { unsigned id; if (v[i].size() == 1 && bnd.in(0, 1)) id = v[i][0].size() == 1 && bnd.in(0, 1) ? c.insert(pg<PG>(v[i][0][0])) : c.insert(ph(v[i][0])); else id = c.insert(set_of(v[i])); if (id != (unsigned)i) bnd.fail("id", text); if (!bnd.in(0, 9)) { CE d(c); CE e; e = d; c = e; } }
    std::vector<std::set<int> > g(n); c.extract(g);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && (g[i].count(j) > 0) != touch(v[i], v[j])) { bnd.fail("connectivity", text + " nodes " + S(i) + " and " + S(j) + " linked " + S(g[i].count(j) > 0)); i = n; break; } else if (i == j && g[i].count(i)) bnd.fail("self-link", text); }
  Src rest; for (int i = 1; i < n; ++i) rest.insert(rest.end(), v[i].begin(), v[i].end()); sample(n ? v[0] : rest, rest);
  PM pm; std::vector<int> prop; for (int i = 0; i < n; ++i) prop.push_back((int)bnd.in(0, 5)); std::vector<int> o; for (int i = 0; i < n; ++i) o.push_back(i); shuffle(o);
  for (int k = 0; k < n; ++k) { int i = o[k];
#ifdef OCT
    if (bnd.in(0, 1)) { pm.insert(set_of(v[i]), prop[i]); continue; }
#endif
    for (size_t q = 0; q < v[i].size(); ++q) if (v[i][q].size() == 1 && bnd.in(0, 1)) pm.insert(pg<PG>(v[i][q][0]), prop[i]); else pm.insert(ph(v[i][q]), prop[i]); }
  Merged m; PM two(pm); two.merge(m); std::vector<std::set<Lay> > at(points.size()); std::vector<Src> sc(n); for (int i = 0; i < n; ++i) sc[i] = scaled(v[i]);
  for (size_t q = 0; q < points.size(); ++q) for (int i = 0; i < n; ++i) { bool on = false; if (count_at(points[q], sc[i], on)) at[q].insert(prop[i]); }
  std::set<std::set<Lay> > seen; for (size_t q = 0; q < points.size(); ++q) if (!at[q].empty()) seen.insert(at[q]);
  for (Merged::iterator i = m.begin(); i != m.end(); ++i) {
    seen.erase(i->first); std::string key; for (std::set<Lay>::const_iterator k = i->first.begin(); k != i->first.end(); ++k) key += S(k->v) + "."; if (i->first.empty()) bnd.fail("merge-empty-key", text);
    std::vector<int> want; for (size_t q = 0; q < points.size(); ++q) want.push_back(at[q] == i->first); std::vector<PH> h; i->second.get(h); Src p = pieces(h); std::string t = text; text += " properties"; for (int k = 0; k < n; ++k) text += " " + S(prop[k]); text += " set " + key; covered(p, want, "merge"); text = t;
  }
  if (!seen.empty()) bnd.fail("merge-missing", text);
}
int main(int argc, char** argv) { bnd_init(argc, argv); while (bnd.more()) { layer_case(); bnd_endcase(); } return bnd.done(); }
