// Calls on the quantum chemistry functions.
#include "runner.hpp"

#include <cmath>
#include <cstdio>
#include <cstdlib>

#include "libcatnip/matrix.hpp"
#include "libcatnip/qc_functions.hpp"

using namespace std;
using namespace catnip;

// Matrices are new objects in some calls, and in others objects that had
// other contents before.
struct Pool {
  Matrix* m;
  bool busy;
};
static thread_local vector<Pool> pool;
static thread_local bool use_pool = false;
struct Release {
  void operator()(Matrix* m) const {
    for (auto& p : pool)
      if (p.m == m) {
        p.busy = false;
        return;
      }
    delete m;
  }
};
typedef unique_ptr<Matrix, Release> P;

static P place(Matrix* fresh) {
  P f(fresh);
  if (!use_pool) return f;
  for (auto& p : pool)
    if (!p.busy) {
      p.busy = true;
      *p.m = *fresh;
      return P(p.m);
    }
  pool.push_back(Pool{new Matrix(*fresh), true});
  return P(pool.back().m);
}

// Integers stand for multiples of 1/1024, or of another power of two named
// behind the operation (rank:-30).
static thread_local double Unit = 1024;

struct Reader {
  const Tokens& t;
  size_t n;
  explicit Reader(const Tokens& tokens) : t(tokens), n(1) {}
  string s() { return t.at(n++); }
  int i() { return atoi(s().c_str()); }
  double d() { return strtod(s().c_str(), nullptr); }
  vector<int> ints() {
    vector<int> v;
    int k = i();
    for (int x = 0; x < k; ++x) v.push_back(i());
    return v;
  }
  P matrix(double unit = 1) {
    int r = i(), c = i();
    if (r == 0) return P(new Matrix(0));
    unique_ptr<Matrix> m(new Matrix(r, c));
    for (int a = 1; a <= r; ++a)
      for (int b = 1; b <= c; ++b) m->set_elem(d() / unit, a, b);
    return place(m.release());
  }
};

static string show(const Matrix* m) {
  string r = "[";
  for (int i = 1; i <= m->get_rows(); ++i) {
    r += i > 1 ? ",[" : "[";
    for (int j = 1; j <= m->get_cols(); ++j) {
      if (j > 1) r += ",";
      r += json_int(m->get_elem(i, j) * Unit);
    }
    r += "]";
  }
  return r + "]";
}

static string ints(const vector<int>& v) {
  string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + to_string(v[i]);
  return r + "]";
}

struct Complex : public Context {
  P m1, m2, p, s, e;
  unique_ptr<TransferComplex> tc;
  // Several complexes, made of matrices that they share.
  vector<P> store;
  map<int, unique_ptr<TransferComplex>> slots;

  Matrix* kept(Reader& in) { return store.at(in.i() - 1).get(); }

  static string ask(TransferComplex& c, Reader& in) {
    map<string, string> type;
    map<string, int> num;
    type["mon1"] = in.s();
    num["mon1"] = in.i();
    type["mon2"] = in.s();
    num["mon2"] = in.i();
    double j = c.calcJ(type, num);
    char b[64];
    snprintf(b, sizeof b, "%.16e", j);
    return string("\"jeff\":\"") + b + "\",\"out\":" + json_string(captured());
  }

  static void line_up(unique_ptr<TransferComplex>& slot, Reader& in) {
    P x1 = in.matrix(), x2 = in.matrix(), xp = in.matrix();
    vector<int> wp = in.ints(), w2 = in.ints();
    unique_ptr<TransferComplex> c(move(slot));   // gone if this is refused
    c->unscramble(*x1, *x2, *xp, wp, w2);
    slot = move(c);
  }

  string call(const Tokens& t) override {
    Reader in(t);
    size_t length = 0;
    for (auto& w : t) length += w.size();
    use_pool = length % 2 == 1;
    size_t colon = t[0].find(':');
    string op = t[0].substr(0, colon);
    Unit = colon == string::npos ? 1024 : ldexp(1.0, -atoi(t[0].c_str() + colon + 1));
    if (op == "rank") {
      P a = in.matrix(Unit), b = in.matrix(Unit);
      auto r = findRank(*a, *b);
      vector<double> keys, ens, spins;
      vector<int> ks;
      for (auto& x : r) ks.push_back(x.first);
      for (size_t i = 0; i < ks.size(); ++i)
        for (size_t j = i + 1; j < ks.size(); ++j)
          if (ks[j] < ks[i]) swap(ks[i], ks[j]);
      for (int k : ks) {
        keys.push_back(k);
        ens.push_back(r[k].first * Unit);
        spins.push_back(r[k].second == "Alpha" ? 1 : r[k].second == "Beta" ? 2 : 0);
      }
      return "\"keys\":" + json_ints(keys) + ",\"ens\":" + json_ints(ens) +
             ",\"spins\":" + json_ints(spins);
    }
    if (op == "matchrow" || op == "matchcol") {
      int d = in.i();
      P a = in.matrix(), b = in.matrix();
      return "\"res\":" + ints(op == "matchrow" ? a->matchRow(*b, d) : a->matchCol(*b, d));
    }
    if (op == "coef2" || op == "overlap2" || op == "coef1" || op == "overlap1") {
      bool two = op.back() == '2';
      vector<int> a = in.ints(), b;
      if (two) b = in.ints();
      vector<int> w = in.ints();
      P m = in.matrix(Unit);
      Matrix* r = op == "coef2"      ? unscramble_Coef(a, b, w, m.get())
                  : op == "coef1"    ? unscramble_Coef(a, w, m.get())
                  : op == "overlap2" ? unscramble_S(a, b, w, m.get())
                                     : unscramble_S(a, w, m.get());
      return "\"res\":" + show(r) + ",\"after\":" + show(m.get());
    }
    if (op == "complex") {
      bool cp = in.i() != 0;
      tc.reset();
      int n1 = in.i(), h1 = in.i(), n2 = in.i(), h2 = in.i();
      for (P* x : {&m1, &m2, &p, &s, &e}) x->reset();
      for (P* x : {&m1, &m2, &p, &s, &e}) *x = in.matrix();
      tc.reset(new TransferComplex(m1.get(), m2.get(), p.get(), make_pair(n1, h1),
                                   make_pair(n2, h2), s.get(), e.get(), cp));
      return "";
    }
    if (op == "unscramble") {
      if (!tc) return "\"skip\":true";
      line_up(tc, in);
      return "";
    }
    if (op == "calc") {
      if (!tc) return "\"skip\":true";
      return ask(*tc, in);
    }
    if (op == "keep") {
      store.push_back(in.matrix());
      return "";
    }
    if (op == "make") {
      unique_ptr<TransferComplex>& slot = slots[in.i()];
      slot.reset();
      bool cp = in.i() != 0;
      int n1 = in.i(), h1 = in.i(), n2 = in.i(), h2 = in.i();
      Matrix *a = kept(in), *b = kept(in), *c = kept(in), *d = kept(in), *e_ = kept(in);
      slot.reset(new TransferComplex(a, b, c, make_pair(n1, h1), make_pair(n2, h2), d, e_, cp));
      return "";
    }
    if (op == "copy") {
      unique_ptr<TransferComplex>& from = slots[in.i()];
      unique_ptr<TransferComplex>& to = slots[in.i()];
      to.reset();
      if (!from) return "\"skip\":true";
      to.reset(new TransferComplex(*from));
      return "";
    }
    if (op == "drop") {
      slots[in.i()].reset();
      return "";
    }
    if (op == "line") {
      unique_ptr<TransferComplex>& slot = slots[in.i()];
      if (!slot) return "\"skip\":true";
      line_up(slot, in);
      return "";
    }
    if (op == "ask") {
      unique_ptr<TransferComplex>& slot = slots[in.i()];
      if (!slot) return "\"skip\":true";
      return ask(*slot, in);
    }
    if (op == "look") {
      string r;
      for (auto& m : store) {
        r += r.empty() ? "[" : ",[";
        for (int i = 1; i <= m->get_rows(); ++i) {
          r += i > 1 ? ",[" : "[";
          for (int j = 1; j <= m->get_cols(); ++j) {
            char b[64];
            snprintf(b, sizeof b, "%s\"%.17g\"", j > 1 ? "," : "", m->get_elem(i, j));
            r += b;
          }
          r += "]";
        }
        r += "]";
      }
      return "\"store\":[" + r + "]";
    }
    abort();
  }
  string observe() override { return "\"out\":" + json_string(captured()); }
};

unique_ptr<Context> make_context() { return unique_ptr<Context>(new Complex); }
